// The command: reading configurations, carrying out requests, and what is printed.
/// ASSUMED: files, standard input, serde, clap, and the process's own output.
pub mod host {
use vstd::prelude::*;
verus!{
pub uninterp spec fn stdin_text() -> Option<Seq<char>>;
pub uninterp spec fn file_text(name: Seq<char>) -> Option<Seq<char>>;
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Error { }
    #[verifier::external_body] pub struct Stdin { }
    #[verifier::external_body] pub fn stdin() -> Stdin { unimplemented!() }
    impl Stdin { #[verifier::external_body] pub fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize, Error>)
        ensures match r { Ok(_) => super::stdin_text() is Some && final(b)@ == old(b)@ + super::stdin_text()->0, Err(_) => super::stdin_text() is None } { unimplemented!() } }
}
pub mod fs {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct File { }
    impl File {
        pub uninterp spec fn name(&self) -> Seq<char>;
        #[verifier::external_body] pub fn open(name: &str) -> (r: Result<File, super::io::Error>) ensures match r { Ok(f) => f.name() == name@, Err(_) => super::file_text(name@) is None } { unimplemented!() }
        #[verifier::external_body] pub fn read_to_string(&mut self, b: &mut String) -> (r: Result<usize, super::io::Error>)
            ensures match r { Ok(_) => super::file_text(old(self).name()) is Some && final(b)@ == old(b)@ + super::file_text(old(self).name())->0, Err(_) => super::file_text(old(self).name()) is None } { unimplemented!() }
    }
}
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then::<U, F> ](a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a is Ok ==> f.requires((a->Ok_0,))
    ensures match a { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
}
}
/// what a text is as a value of some type, and back
pub mod serde_json {
use vstd::prelude::*;
verus!{
#[verifier::external_body] pub struct Error { }
impl crate::fmt::Disp for Error { uninterp spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn value<T>(s: Seq<char>) -> Option<T>;
pub uninterp spec fn line<T>(x: T) -> Option<Seq<char>>;
#[verifier::external_body] pub fn from_str<T>(s: &str) -> (r: Result<T, Error>) ensures match r { Ok(x) => value::<T>(s@) == Some(x), Err(_) => value::<T>(s@) is None } { unimplemented!() }
/// compact JSON: one line of text
#[verifier::external_body] pub fn to_string<T>(x: &T) -> (r: Result<String, Error>) ensures match r { Ok(s) => line(*x) == Some(s@) && s@.len() > 0 && !s@.contains('\n'), Err(_) => line(*x) is None } { unimplemented!() }
}
}
pub mod serde_yaml {
use vstd::prelude::*;
verus!{
#[verifier::external_body] pub struct Error { }
impl crate::fmt::Disp for Error { uninterp spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn value<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body] pub fn from_str<T>(s: &str) -> (r: Result<T, Error>) ensures match r { Ok(x) => value::<T>(s@) == Some(x), Err(_) => value::<T>(s@) is None } { unimplemented!() }
}
}
/// what this process itself prints, line by line
pub mod out {
use vstd::prelude::*;
verus!{
#[verifier::external_body] pub tracked struct Out { }
impl Out {
    pub uninterp spec fn out(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn err(&self) -> Seq<Seq<char>>;
}
#[verifier::external_body] pub fn say(s: String, Tracked(o): Tracked<&mut Out>) ensures final(o).out() == old(o).out().push(s@), final(o).err() == old(o).err() { unimplemented!() }
#[verifier::external_body] pub fn say_part(s: String, Tracked(o): Tracked<&mut Out>) requires false { unimplemented!() }
#[verifier::external_body] pub fn complain(s: String, Tracked(o): Tracked<&mut Out>) ensures final(o).err() == old(o).err().push(s@), final(o).out() == old(o).out() { unimplemented!() }
#[verifier::external_body] pub fn exit(code: i32, Tracked(o): Tracked<&mut Out>) -> ! requires crate::pa2::may_exit(code, *old(o)) { unimplemented!() }
}
}
pub mod config_io {
use vstd::prelude::*;
use crate::config::*;
use crate::coll::*;
use crate::host as std;
use crate::host::*;
use crate::{serde_json, serde_yaml};
use crate::fmt::{Disp, Dbg};
verus!{
//@item src/config_io.rs :: enum ConfigFormat

pub enum ConfigFormat {
    Json,
    Yaml,
}
//@end

/// what is read as the configuration: standard input for "-", else the file of that name
pub open spec fn input_text(name: Seq<char>) -> Option<Seq<char>> { if name == "-"@ { stdin_text() } else { file_text(name) } }
pub open spec fn config_of(f: ConfigFormat, t: Seq<char>) -> Option<Config> { match f { ConfigFormat::Json => serde_json::value::<Config>(t), ConfigFormat::Yaml => serde_yaml::value::<Config>(t) } }
pub open spec fn read_of(f: ConfigFormat, name: Seq<char>) -> Option<Config> { match input_text(name) { Some(t) => config_of(f, t), None => None } }
//@item src/config_io.rs :: fn read_config_as_str [seq]

fn read_config_as_str(config_in: &str) -> /*@ (r: @*/ Result<String, String> /*@ ) ensures match r { Ok(s) => input_text(config_in@) == Some(s@), Err(_) => input_text(config_in@) is None } @*/ {
    use std::io::prelude::*;
    let mut buffer = String::new();
    if config_in == "-" {
        let mut stdin = std::io::stdin();
        stdin.read_to_string(&mut buffer).map_err(|_x /*@: std::io::Error@*/| /*@ -> (o: String) { @*/ "We could not read STDIN to get the config".to_string() /*@ } @*/ )?;
        return Ok(buffer);
    }
    let mut f = std::fs::File::open(config_in).map_err(|_x /*@: std::io::Error@*/| /*@ -> (o: String) { @*/ format!("We could not open the file '{}' to get the config", config_in) /*@ } @*/ )?;
    f.read_to_string(&mut buffer).map_err(|_x /*@: std::io::Error@*/| /*@ -> (o: String) { @*/ format!("We could not open the file '{}' to get the config", config_in) /*@ } @*/ )?;
    Ok(buffer)
}
//@end
//@item src/config_io.rs :: fn parse_config_str [seq]

pub fn parse_config_str(fmt: &ConfigFormat, config_str: &str) -> /*@ (r: @*/ Result<Config, String> /*@ ) ensures match r { Ok(c) => config_of(*fmt, config_str@) == Some(c), Err(_) => config_of(*fmt, config_str@) is None } @*/ {
    match fmt {
        ConfigFormat::Json => serde_json::from_str::<Config>(config_str).map_err(|e /*@: serde_json::Error@*/| /*@ -> (o: String) { @*/ format!("Could not parse json config ({}) [{}]", e, config_str) /*@ } @*/ ),
        ConfigFormat::Yaml => serde_yaml::from_str::<Config>(config_str).map_err(|e /*@: serde_yaml::Error@*/| /*@ -> (o: String) { @*/ format!("Could not parse yaml config ({}) [{}]", e, config_str) /*@ } @*/ ),
    }
}
//@end
//@item src/config_io.rs :: fn result_flatten

fn result_flatten<X>(x: Result<Result<X, String>, String>) -> /*@ (r: @*/ Result<X, String> /*@ ) ensures match x { Ok(y) => r == y, Err(e) => r == Err::<X, String>(e) } @*/ {
    match x {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(s)) => Err(s),
        Err(s) => Err(s),
    }
}
//@end
//@item src/config_io.rs :: fn read_config

pub fn read_config(fmt: &ConfigFormat, config_in: &str) -> /*@ (r: @*/ Result<Config, String> /*@ ) ensures match r { Ok(c) => read_of(*fmt, config_in@) == Some(c), Err(_) => read_of(*fmt, config_in@) is None } @*/ {
    result_flatten(read_config_as_str(config_in).map(|cas /*@: String@*/| /*@ -> (o: Result<Config, String>) ensures match o { Ok(c) => config_of(*fmt, cas@) == Some(c), Err(_) => config_of(*fmt, cas@) is None } { @*/ parse_config_str(fmt, &cas) /*@ } @*/))
}
//@end
}
}
pub mod pa2 {
use vstd::prelude::*;
use crate::connectable::*;
use crate::config::*;
use crate::config_io::*;
use crate::config_manip::*;
use crate::coll::*;
use crate::graph;
use crate::dot::*;
use crate::out::Out;
use crate::{serde_json, serde_yaml};
use crate::fmt::{Disp, Dbg};
verus!{
//@item src/bin/pa2.rs :: struct UserConfigOptionBase

struct UserConfigOptionBase {
    id: String,
    config_in: String,
    config_format: ConfigFormat,
}
//@end
//@item src/bin/pa2.rs :: enum GraphMode

enum GraphMode {
    LegendOnly(bool),
    DiagramOnly,
    Full(bool)
}
//@end
//@item src/bin/pa2.rs :: enum UserRequest

enum UserRequest {
    LaunchCommand {
        base_options: UserConfigOptionBase,
        command: String,
    },
    LaunchPath {
        base_options: UserConfigOptionBase,
        path: String,
    },
    LaunchArgs {
        base_options: UserConfigOptionBase,
        args: Vec<String>,
    },
    LaunchEnv {
        base_options: UserConfigOptionBase,
        env: HashMap<String, String>,
    },
    FaucetSrc {
        base_options: UserConfigOptionBase,
        src: String,
    },
    DrainDst {
        base_options: UserConfigOptionBase,
        dst: String,
    },
    RegulatorWatermark {
        base_options: UserConfigOptionBase,
        min: usize,
        max: usize,
    },
    ConnectionJoin {
        base_options: UserConfigOptionBase,
        join: String,
    },
    ConfigLintShow { config_in: String, config_format: ConfigFormat },
    Manipulate { config_in: String, config_format: ConfigFormat },
    Process { config_in: String, config_format: ConfigFormat },
    Graph {
        config_in: String,
        config_format: ConfigFormat,
        mode: GraphMode
    },
}
//@end
//@item src/bin/pa2.rs :: enum UserResponse

enum UserResponse {
    Config(Config),
    Process(Config),
    Graph((Config, GraphMode)),
}
//@end

// ---- texts of warnings
pub uninterp spec fn warning_text(w: Warning) -> Seq<char>;
impl ToText for ConfigLintWarning { #[verifier::external_body] fn to_text(&self) -> (r: String) ensures r@ == warning_text(self@) { unimplemented!() } }
pub trait Joined { fn join(&self, s: &str) -> String; }
impl Joined for Vec<String> { #[verifier::external_body] fn join(&self, s: &str) -> String { unimplemented!() } }
pub trait Keep<T>: Sized { spec fn kept_of(&self) -> Seq<T>; fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < self.kept_of().len() ==> f.requires((&(#[trigger] self.kept_of()[i]),))
    ensures forall|i: int| 0 <= i < r@.len() ==> self.kept_of().contains(#[trigger] r@[i]) && f.ensures((&r@[i],), true),
        forall|i: int| 0 <= i < self.kept_of().len() ==> r@.contains(#[trigger] self.kept_of()[i]) || f.ensures((&self.kept_of()[i],), false); }
impl<T> Keep<T> for Vec<T> { open spec fn kept_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() } }

// ---- what a request asks for
/// a join string, or connections spelled out
pub open spec fn spec_of(s: String) -> Option<DeserializedConnection> {
    if parsed(s@) is Some { Some(DeserializedConnection::JoinString(s)) } else { None }
}
pub open spec fn spelled(s: Seq<char>) -> Option<Seq<Connection>> {
    if serde_json::value::<Connection>(s) is Some { Some(seq![serde_json::value::<Connection>(s)->0]) }
    else if serde_json::value::<Vec<Connection>>(s) is Some { Some(serde_json::value::<Vec<Connection>>(s)->0@) }
    else if serde_yaml::value::<Connection>(s) is Some { Some(seq![serde_yaml::value::<Connection>(s)->0]) }
    else if serde_yaml::value::<Vec<Connection>>(s) is Some { Some(serde_yaml::value::<Vec<Connection>>(s)->0@) }
    else { None }
}
pub open spec fn denotes(s: String, d: DeserializedConnection) -> bool {
    if parsed(s@) is Some { d == DeserializedConnection::JoinString(s) } else { spelled(s@) is Some && d is Connections && d->Connections_0@ =~= spelled(s@)->0 }
}
pub open spec fn any_invalid(m: Map<Seq<char>, DeserializedConnection>) -> bool { exists|x: Warning| #[trigger] invalid(m, x) }
//@item src/bin/pa2.rs :: fn convert_to_deserialized_connection [seq]

pub fn convert_to_deserialized_connection(s: String) -> /*@ (r: @*/ Result<DeserializedConnection, String> /*@ ) ensures match r { Ok(d) => denotes(s, d), Err(_) => parsed(s@) is None && spelled(s@) is None } @*/ {
    if let Ok(_conns) = load_connection_from_string(&s) {
        return Ok(DeserializedConnection::JoinString(s));
    }
    if let Ok(conn) = serde_json::from_str::<Connection>(&s) {
        return Ok(DeserializedConnection::Connections(vec![conn]));
    }
    if let Ok(conns) = serde_json::from_str::<Vec<Connection>>(&s) {
        return Ok(DeserializedConnection::Connections(conns));
    }
    if let Ok(conn) = serde_yaml::from_str::<Connection>(&s) {
        return Ok(DeserializedConnection::Connections(vec![conn]));
    }
    if let Ok(conns) = serde_yaml::from_str::<Vec<Connection>>(&s) {
        return Ok(DeserializedConnection::Connections(conns));
    }
    Err(format!("Looks neither like JSON, YAML or JoinString '{}'", s))
}
//@end
/// a list of join strings and lists, none of which is unreadable
pub open spec fn complete(c: Config, r: Config) -> bool { r == (Config { connection: r.connection, ..c }) && converted(c.connection.m(), r.connection.m()) && !any_invalid(c.connection.m()) }
//@item src/bin/pa2.rs :: fn read_config_with_connections [seq]

fn read_config_with_connections(action: &str, config_format: &ConfigFormat, config_in: &str) -> /*@ (r: @*/ Result<Config, String> /*@ )
    ensures match r { Ok(c) => read_of(*config_format, config_in@) is Some && complete(read_of(*config_format, config_in@)->0, c), Err(_) => read_of(*config_format, config_in@) is None || any_invalid(read_of(*config_format, config_in@)->0.connection.m()) } @*/ {
    let mut config = read_config(config_format, config_in)?;
    /*@ let ghost c0 = config; @*/
    let errs = /*! ({ let es = !*/ Config::convert_connections(&mut config.connection) /*! ; !*/ /*@ let ghost g = es.s(); @*/ /*! let v = es !*/ .into_iter() /*! ; !*/ /*@ proof { lemma_none(v@, g); assert(v.all_v() == v@); if v@.len() == 0 { assert forall|x: Warning| !(#[trigger] invalid(c0.connection.m(), x)) by { assert(!g.contains(x)); } } else { assert(g.contains(v@[0]@)); } } @*/ /*! v }) !*/.map(|c /*@: ConfigLintWarning@*/| c.to_string()).collect::<Vec<String>>();
    if errs.is_empty() {
        return Ok(config);
    }
    Err(format!("{} {}", action, errs.join("\n * ")))
}
//@end
pub proof fn lemma_none<T: View>(v: Seq<T>, g: Set<T::V>) requires members(v, g) ensures v.len() == 0 <==> forall|x: T::V| !(#[trigger] g.contains(x)) {
    if v.len() > 0 { assert(g.contains(v[0]@)); }
}
// ---- what carrying out a request means
/// what lint finds, given the join strings before it
spec fn finding(m0: Map<Seq<char>, DeserializedConnection>, c: Config, x: Warning) -> bool { if any_invalid(m0) { invalid(m0, x) } else { amiss(c, x) } }
/// ... apart from what is merely not used
spec fn serious(m0: Map<Seq<char>, DeserializedConnection>, c: Config, x: Warning) -> bool { finding(m0, c, x) && !(x is Unused) }
spec fn linted(c: Config, r: Config) -> bool { r == (Config { connection: r.connection, ..c }) && converted(c.connection.m(), r.connection.m()) }
spec fn request_of(q: UserRequest) -> (ConfigFormat, Seq<char>) {
    match q {
        UserRequest::LaunchCommand { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::LaunchPath { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::LaunchArgs { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::LaunchEnv { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::FaucetSrc { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::DrainDst { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::RegulatorWatermark { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::ConnectionJoin { base_options, .. } => (base_options.config_format, base_options.config_in@),
        UserRequest::ConfigLintShow { config_in, config_format } => (config_format, config_in@),
        UserRequest::Manipulate { config_in, config_format } => (config_format, config_in@),
        UserRequest::Process { config_in, config_format } => (config_format, config_in@),
        UserRequest::Graph { config_in, config_format, .. } => (config_format, config_in@),
    }
}
spec fn launch_kept(c: Config, r: Config, id: Seq<char>) -> bool { r == (Config { launch: r.launch, ..c }) && only(c.launch.m(), r.launch.m(), id) }
/// an edit of a configuration
spec fn edited(q: UserRequest, c: Config, r: Config) -> bool {
    match q {
        UserRequest::FaucetSrc { base_options, src } => r == (Config { faucet: r.faucet, ..c }) && only(c.faucet.m(), r.faucet.m(), base_options.id@) && r.faucet.m()[base_options.id@].source@ == src@,
        UserRequest::DrainDst { base_options, dst } => r == (Config { drain: r.drain, ..c }) && only(c.drain.m(), r.drain.m(), base_options.id@) && r.drain.m()[base_options.id@].destination@ == dst@,
        UserRequest::RegulatorWatermark { base_options, min, max } => r == (Config { regulator: r.regulator, ..c }) && only(c.regulator.m(), r.regulator.m(), base_options.id@)
            && r.regulator.m()[base_options.id@].buffered == (if min > max { Some((max, min)) } else { Some((min, max)) })
            && r.regulator.m()[base_options.id@].monitored_buffers@ == (if c.regulator.m().contains_key(base_options.id@) { c.regulator.m()[base_options.id@].monitored_buffers@ } else { Seq::empty() }),
        UserRequest::ConnectionJoin { base_options, join } => exists|d: DeserializedConnection| #[trigger] denotes(join, d) && r == (Config { connection: r.connection, ..c }) && r.connection.m() == c.connection.m().insert(base_options.id@, d),
        UserRequest::LaunchCommand { base_options, command } => launch_kept(c, r, base_options.id@) && otext(r.launch.m()[base_options.id@].command) == Some(command@)
            && if c.launch.m().contains_key(base_options.id@) { r.launch.m()[base_options.id@] == (LaunchConfig { command: r.launch.m()[base_options.id@].command, ..c.launch.m()[base_options.id@] }) } else { bare(Some(command@), None, r.launch.m()[base_options.id@]) },
        UserRequest::LaunchPath { base_options, path } => launch_kept(c, r, base_options.id@) && otext(r.launch.m()[base_options.id@].path) == Some(path@)
            && if c.launch.m().contains_key(base_options.id@) { r.launch.m()[base_options.id@] == (LaunchConfig { path: r.launch.m()[base_options.id@].path, ..c.launch.m()[base_options.id@] }) } else { bare(None, Some(path@), r.launch.m()[base_options.id@]) },
        UserRequest::LaunchArgs { base_options, args } => launch_kept(c, r, base_options.id@) && r.launch.m()[base_options.id@].arg == args
            && if c.launch.m().contains_key(base_options.id@) { r.launch.m()[base_options.id@] == (LaunchConfig { arg: args, ..c.launch.m()[base_options.id@] }) } else { r.launch.m()[base_options.id@].command is None && r.launch.m()[base_options.id@].path is None && r.launch.m()[base_options.id@].env.m() == Map::<Seq<char>, String>::empty() },
        UserRequest::LaunchEnv { base_options, env } => launch_kept(c, r, base_options.id@) && r.launch.m()[base_options.id@].env == env
            && if c.launch.m().contains_key(base_options.id@) { r.launch.m()[base_options.id@] == (LaunchConfig { env, ..c.launch.m()[base_options.id@] }) } else { r.launch.m()[base_options.id@].command is None && r.launch.m()[base_options.id@].path is None && r.launch.m()[base_options.id@].arg@ == Seq::<String>::empty() },
        _ => false,
    }
}
spec fn light(c: Config, r: Config) -> bool { r == (Config { connection: r.connection, ..c }) && exists|m: Map<Seq<char>, DeserializedConnection>, f: Map<Seq<char>, Seq<Seq<char>>>| converted(c.connection.m(), m) && f.dom() == m.dom() && #[trigger] paired_by(m, r.connection.m(), f) }
spec fn is_edit(q: UserRequest) -> bool { !(q is ConfigLintShow || q is Manipulate || q is Process || q is Graph) }
spec fn wired(c: Config, r: Config) -> bool { exists|p: Prepared| #[trigger] prepared(c, r, p) }
/// for a run: the join strings are read, the configuration is prepared, and lint finds nothing serious in the result
spec fn ready(c: Config, c1: Config, c2: Config, r: Config) -> bool { complete(c, c1) && wired(c1, c2) && linted(c2, r) }
/// the request q, of the configuration c, is answered by r
spec fn answered(q: UserRequest, c: Config, r: UserResponse) -> bool {
    match q {
        UserRequest::ConfigLintShow { .. } => r is Config && linted(c, r->Config_0) && forall|x: Warning| !(#[trigger] finding(c.connection.m(), r->Config_0, x)),
        UserRequest::Manipulate { .. } => r is Config && exists|c1: Config| #[trigger] complete(c, c1) && light(c1, r->Config_0),
        UserRequest::Process { .. } => r is Process && exists|c1: Config, c2: Config| #[trigger] ready(c, c1, c2, r->Process_0) && forall|x: Warning| !(#[trigger] serious(c2.connection.m(), r->Process_0, x)),
        UserRequest::Graph { mode, .. } => r is Graph && r->Graph_0.1 == mode && linted(c, r->Graph_0.0) && forall|x: Warning| !(#[trigger] serious(c.connection.m(), r->Graph_0.0, x)),
        _ => r is Config && edited(q, c, r->Config_0),
    }
}
/// the request q, of the configuration c, is turned down
spec fn declined(q: UserRequest, c: Config) -> bool {
    match q {
        UserRequest::ConfigLintShow { .. } => exists|r: Config, x: Warning| linted(c, r) && #[trigger] finding(c.connection.m(), r, x),
        UserRequest::Manipulate { .. } => any_invalid(c.connection.m()),
        UserRequest::Process { .. } => any_invalid(c.connection.m()) || exists|c1: Config, c2: Config, r: Config, x: Warning| #[trigger] ready(c, c1, c2, r) && #[trigger] serious(c2.connection.m(), r, x),
        UserRequest::Graph { .. } => exists|r: Config, x: Warning| linted(c, r) && #[trigger] serious(c.connection.m(), r, x),
        UserRequest::ConnectionJoin { join, .. } => false,
        _ => false,
    }
}
spec fn unreadable(q: UserRequest) -> bool { match q { UserRequest::ConnectionJoin { join, .. } => parsed(join@) is None && spelled(join@) is None, _ => false } }
spec fn responded(q: Result<UserRequest, String>, r: Result<UserResponse, String>) -> bool {
    match q {
        Err(e) => r == Err::<UserResponse, String>(e),
        Ok(q) => {
            let c = read_of(request_of(q).0, request_of(q).1);
            match r { Ok(x) => c is Some && !unreadable(q) && answered(q, c->0, x), Err(_) => unreadable(q) || c is None || declined(q, c->0) }
        },
    }
}
/// every list (once join strings are read) begins with a start, ends with an end and has middles in between
spec fn well_formed(c: Config) -> bool { forall|k: Seq<char>| #[trigger] c.connection.m().contains_key(k) ==> match c.connection.m()[k] { DeserializedConnection::Connections(v) => shaped(v@), DeserializedConnection::JoinString(s) => parsed(s@) is Some ==> shaped(parsed(s@)->0) } }
spec fn manageable(q: Result<UserRequest, String>) -> bool { q is Ok && (q->Ok_0 is Manipulate || q->Ok_0 is Process) && read_of(request_of(q->Ok_0).0, request_of(q->Ok_0).1) is Some ==> well_formed(read_of(request_of(q->Ok_0).0, request_of(q->Ok_0).1)->0) }
proof fn lemma_complete(c: Config, r: Config) requires complete(c, r), well_formed(c) ensures runnable(r.connection.m()) {
    let m = c.connection.m(); let m1 = r.connection.m();
    assert forall|k: Seq<char>| #[trigger] m1.contains_key(k) implies match m1[k] { DeserializedConnection::Connections(v) => shaped(v@), DeserializedConnection::JoinString(s) => parsed(s@) is Some && shaped(parsed(s@)->0) } by {
        assert(m.contains_key(k)); assert(converted1(m[k], m1[k]));
        if m[k] is JoinString && parsed(m[k]->JoinString_0@) is None { assert(unparsable(m[k])); assert(invalid(m, refused(k, m[k]))); assert(any_invalid(m)); }
    }
}
spec fn joined(id: Seq<char>, d: DeserializedConnection, c: Config, r: Config) -> bool { r == (Config { connection: r.connection, ..c }) && r.connection.m() == c.connection.m().insert(id, d) }
proof fn lemma_lint(v: Seq<ConfigLintWarning>, g: Set<Warning>, c0: Config, c1: Config)
    requires members(v, g), linted(c0, c1), forall|x: Warning| #[trigger] g.contains(x) <==> finding(c0.connection.m(), c1, x)
    ensures v.len() == 0 ==> forall|x: Warning| !(#[trigger] finding(c0.connection.m(), c1, x)), v.len() > 0 ==> exists|x: Warning| #[trigger] finding(c0.connection.m(), c1, x)
{
    if v.len() == 0 { assert forall|x: Warning| !(#[trigger] finding(c0.connection.m(), c1, x)) by { assert(!g.contains(x)); } } else { assert(g.contains(v[0]@)); }
}
proof fn lemma_serious(v: Seq<ConfigLintWarning>, g: Set<Warning>, f: Seq<ConfigLintWarning>, c0: Config, c1: Config)
    requires members(v, g), linted(c0, c1), forall|x: Warning| #[trigger] g.contains(x) <==> finding(c0.connection.m(), c1, x),
        forall|i: int| 0 <= i < f.len() ==> v.contains(#[trigger] f[i]) && !(f[i]@ is Unused), forall|i: int| 0 <= i < v.len() ==> f.contains(#[trigger] v[i]) || v[i]@ is Unused
    ensures f.len() == 0 ==> forall|x: Warning| !(#[trigger] serious(c0.connection.m(), c1, x)), f.len() > 0 ==> exists|x: Warning| #[trigger] serious(c0.connection.m(), c1, x)
{
    if f.len() == 0 { assert forall|x: Warning| !(#[trigger] serious(c0.connection.m(), c1, x)) by { if finding(c0.connection.m(), c1, x) { assert(g.contains(x)); let i = member_at(v, g, x); assert(f.contains(v[i]) || v[i]@ is Unused); } } }
    else { assert(v.contains(f[0])); let i = choose|i: int| 0 <= i < v.len() && v[i] == f[0]; assert(g.contains(v[i]@)); assert(serious(c0.connection.m(), c1, f[0]@)); }
}
//@item src/bin/pa2.rs :: fn process_user_config_action [seq]

fn process_user_config_action(result_config: Result<UserRequest, String>) -> /*@ (r: @*/ Result<UserResponse, String> /*@ ) requires manageable(result_config) ensures responded(result_config, r) @*/ {
    /*@ let ghost q = result_config->Ok_0; @*/
    match result_config {
        Err(x) => Err(x),
        Ok(UserRequest::ConnectionJoin { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, join, .. }) => {
            convert_to_deserialized_connection(join).and_then(|dsc /*@: DeserializedConnection@*/| /*@ -> (o: Result<UserResponse, String>)
                ensures match o { Ok(x) => read_of(request_of(q).0, request_of(q).1) is Some && x is Config && joined(id@, dsc, read_of(request_of(q).0, request_of(q).1)->0, x->Config_0), Err(_) => read_of(request_of(q).0, request_of(q).1) is None } { @*/
                read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures joined(id@, dsc, old_config, o) { @*/ Config::connection_join(old_config, id, dsc) /*@ } @*/ )
                    .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
            /*@ } @*/ )
        },
        Ok(UserRequest::FaucetSrc { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, src }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::faucet_set_source(old_config, id, src) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::DrainDst { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, dst }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::drain_set_destination(old_config, id, dst) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::RegulatorWatermark { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, min, max }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::regulator_set_watermark(old_config, id, min, max) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::LaunchCommand { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, command }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::launch_set_command(old_config, id, command) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::LaunchPath { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, path }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::launch_set_path(old_config, id, path) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::LaunchArgs { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, args }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::launch_set_args(old_config, id, args) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::LaunchEnv { base_options: UserConfigOptionBase { id, config_in, config_format, .. }, env }) => {
            read_config(&config_format, &config_in).map(|old_config /*@: Config@*/| /*@ -> (o: Config) ensures edited(q, old_config, o) { @*/ Config::launch_set_env(old_config, id, env) /*@ } @*/)
                .map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::ConfigLintShow { config_in, config_format }) => {
            let mut config = read_config(&config_format, &config_in)?;
            /*@ let ghost c0 = config; @*/
            let errs = /*! ({ let es = !*/ Config::lint(&mut config) /*! ; !*/ /*@ let ghost g = es.s(); let ghost c1 = config; @*/ /*! let v = es !*/ .into_iter() /*! ; !*/ /*@ proof { lemma_lint(v@, g, c0, c1); assert(v.all_v() == v@); } @*/ /*! v }) !*/ .map(|c /*@: ConfigLintWarning@*/| c.to_string()).collect::<Vec<String>>();
            if errs.is_empty() {
                return Ok(config).map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
            }
            return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
        },
        Ok(UserRequest::Manipulate { config_in, config_format }) => {
            let config = read_config_with_connections("Manipulate", &config_format, &config_in)?;
            /*@ proof { lemma_complete(read_of(config_format, config_in@)->0, config); } @*/
            Ok(connection_manipulation_light(config)).map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Config(y) { !*/ UserResponse::Config /*! (y) } !*/ )
        },
        Ok(UserRequest::Process { config_in, config_format }) => { /*@ let ghost mut cr: Config = arbitrary(); @*/
            let mut config = connection_manipulation( /*! { let rc = !*/ read_config_with_connections("Process", &config_format, &config_in)? /*! ; !*/ /*@ proof { lemma_complete(read_of(config_format, config_in@)->0, rc); cr = rc; } @*/ /*! rc } !*/ );
            /*@ let ghost c0 = config; let ghost mut gv: Seq<ConfigLintWarning> = Seq::empty(); let ghost mut gs: Set<Warning> = Set::empty(); let ghost mut cl = config; @*/
            let errs = /*! ({ let f = !*/ /*! ({ let es = !*/ Config::lint(&mut config) /*! ; !*/ /*@ let ghost g = es.s(); let ghost c1 = config; @*/ /*! let v = es !*/ .into_iter() /*! ; !*/ /*@ proof { lemma_lint(v@, g, c0, c1); gv = v@; gs = g; cl = c1; } @*/ /*! v }) !*/
                .filter(|lint_err /*@: &ConfigLintWarning@*/| /*@ -> (o: bool) ensures o == !(lint_err@ is Unused) { @*/ !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }) /*@ } @*/ ) /*! ; !*/ /*@ proof { assert(f.all_v() == f@); lemma_serious(gv, gs, f@, c0, cl); } @*/ /*! f }) !*/
                .map(|c /*@: ConfigLintWarning@*/| c.to_string()).collect::<Vec<String>>();
            /*@ proof { assert(ready(read_of(config_format, config_in@)->0, cr, c0, config)); } @*/
            if errs.is_empty() {
                /*@ proof { let rr = UserResponse::Process(config); let c9 = read_of(config_format, config_in@)->0;
                    assert(request_of(q) == (config_format, config_in@)); assert(q is Process); assert(rr is Process && rr->Process_0 == config);
                    assert(ready(c9, cr, c0, rr->Process_0) && forall|x: Warning| !(#[trigger] serious(c0.connection.m(), rr->Process_0, x)));
                    assert(answered(q, c9, rr)); } @*/
                return Ok(config).map( /*! |y: Config| -> (o: UserResponse) ensures o == UserResponse::Process(y) { !*/ UserResponse::Process /*! (y) } !*/ );
            }
            return Err(format!("Process {}", errs.join("\n * ")));
        },
        Ok(UserRequest::Graph { mode, config_in, config_format }) => {
            let mut config = read_config(&config_format, &config_in)?;
            /*@ let ghost c0 = config; let ghost mut gv: Seq<ConfigLintWarning> = Seq::empty(); let ghost mut gs: Set<Warning> = Set::empty(); let ghost mut cl = config; @*/
            let errs = /*! ({ let f = !*/ /*! ({ let es = !*/ Config::lint(&mut config) /*! ; !*/ /*@ let ghost g = es.s(); let ghost c1 = config; @*/ /*! let v = es !*/ .into_iter() /*! ; !*/ /*@ proof { lemma_lint(v@, g, c0, c1); gv = v@; gs = g; cl = c1; } @*/ /*! v }) !*/
                .filter(|lint_err /*@: &ConfigLintWarning@*/| /*@ -> (o: bool) ensures o == !(lint_err@ is Unused) { @*/ !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }) /*@ } @*/ ) /*! ; !*/ /*@ proof { assert(f.all_v() == f@); lemma_serious(gv, gs, f@, c0, cl); } @*/ /*! f }) !*/
                .map(|c /*@: ConfigLintWarning@*/| c.to_string()).collect::<Vec<String>>();
            if errs.is_empty() {
                return Ok(config).map(|config /*@: Config@*/| /*@ -> (o: UserResponse) ensures o == UserResponse::Graph((config, mode)) @*/ { UserResponse::Graph((config, mode)) });
            }
            return Err(format!("Process {}", errs.join("\n * ")));
        },
    }
}
//@end
// ---- the command line, the run and the legend, as main has them
/// what the command line asks for
uninterp spec fn asked() -> Result<UserRequest, String>;
#[verifier::external_body] pub struct ClapApp { }
#[verifier::external_body] pub struct ArgMatches { }
impl ClapApp { #[verifier::external_body] pub fn get_matches(self) -> ArgMatches { unimplemented!() } }
#[verifier::external_body] fn get_clap_app() -> ClapApp { unimplemented!() }
#[verifier::external_body] fn get_user_config_action(matches: &ArgMatches) -> (r: Result<UserRequest, String>) ensures r == asked() { unimplemented!() }
/// a network of the running kind, and how its run ends (contracts of their own: get_waiter C10, start C16; neither prints: unit rt)
#[verifier::external_body] pub struct Waiter { }
#[verifier::external_body] pub struct WaiterError { }
impl Waiter { pub uninterp spec fn net(&self) -> Config; }
pub uninterp spec fn ran(net: Config, r: Result<usize, Vec<WaiterError>>) -> bool;
pub uninterp spec fn buildable(c: Config, r: Result<(), String>) -> bool;
pub uninterp spec fn described(net: Config, e: WaiterError) -> Seq<char>;
pub struct Ids { pub of: Ghost<Config> }
#[verifier::external_body] pub fn get_waiter(c: Config) -> (r: Result<Waiter, String>) ensures match r { Ok(w) => w.net() == c && buildable(c, Ok(())), Err(x) => buildable(c, Err(x)) } { unimplemented!() }
impl Waiter {
    #[verifier::external_body] pub fn get_id_to_component_type_name(&mut self) -> (r: Option<Ids>) ensures r is Some, r->0.of@ == old(self).net(), final(self).net() == old(self).net() { unimplemented!() }
    #[verifier::external_body] pub fn start(&mut self, spy: Option<()>) -> (r: Result<usize, Vec<WaiterError>>) ensures ran(old(self).net(), r) { unimplemented!() }
}
#[verifier::external_body] pub fn waiter_error_to_string(e: WaiterError, ids: &Ids) -> (r: String) ensures r@ == described(ids.of@, e) { unimplemented!() }
pub mod async_std { pub mod task { use vstd::prelude::*; verus!{ pub fn block_on<T>(x: T) -> (r: T) ensures r == x { x } } } }

// ---- the graph of a configuration's lists
pub open spec fn listed(m: Map<Seq<char>, DeserializedConnection>, k: Seq<char>) -> Seq<Connection> { list_of(m[k]) }
pub open spec fn all_edges(m: Map<Seq<char>, DeserializedConnection>, ks: Seq<Seq<char>>, n: int) -> Seq<graph::Line> decreases n {
    if n <= 0 { Seq::empty() } else { all_edges(m, ks, n - 1) + graph::edges(listed(m, ks[n - 1]), listed(m, ks[n - 1]).len() as int) }
}
pub open spec fn all_mentions(m: Map<Seq<char>, DeserializedConnection>, ks: Seq<Seq<char>>, n: int, ct: ComponentType) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { all_mentions(m, ks, n - 1, ct) + graph::mentions(listed(m, ks[n - 1]), listed(m, ks[n - 1]).len() as int, ct) }
}
pub open spec fn all_regrouped(a: Map<Seq<char>, DeserializedConnection>, b: Map<Seq<char>, DeserializedConnection>) -> bool { a.dom() == b.dom() && forall|k: Seq<char>| #[trigger] a.contains_key(k) ==> regrouped(a[k], b[k]) }
/// the diagram of the lists: every edge of every list, and every component they mention
pub open spec fn diagram_of(m: Map<Seq<char>, DeserializedConnection>, d: Subgraph) -> bool {
    exists|b: Map<Seq<char>, DeserializedConnection>, ks: Seq<Seq<char>>, js: Seq<Seq<char>>, cm: Map<ComponentType, Vec<&str>>| #[trigger] diagrammed(m, b, ks, js, cm, d)
}
pub open spec fn diagrammed(m: Map<Seq<char>, DeserializedConnection>, b: Map<Seq<char>, DeserializedConnection>, ks: Seq<Seq<char>>, js: Seq<Seq<char>>, cm: Map<ComponentType, Vec<&str>>, d: Subgraph) -> bool {
    &&& all_regrouped(m, b) && entries::<String, DeserializedConnection>(ks, b) && entries::<String, DeserializedConnection>(js, b)
    &&& forall|ct: ComponentType| #[trigger] graph::names(cm, ct) == all_mentions(b, js, js.len() as int, ct)
    &&& graph::drawn(cm, all_edges(b, ks, ks.len() as int), d.stmts@)
}
spec fn parts_of(c: Config, mode: GraphMode, p: Seq<Subgraph>) -> bool {
    match mode {
        GraphMode::Full(b) => p.len() == 2 && p[0] == graph::legend(b) && diagram_of(c.connection.m(), p[1]),
        GraphMode::DiagramOnly => p.len() == 1 && diagram_of(c.connection.m(), p[0]),
        GraphMode::LegendOnly(b) => p =~= seq![graph::legend(b)],
    }
}
spec fn graph_text(c: Config, mode: GraphMode, t: Seq<char>) -> bool { exists|g: Graph, p: Seq<Subgraph>| t == #[trigger] printed(g) && #[trigger] graph::is_graph(g, p) && parts_of(c, mode, p) }
// ---- what comes of an answer: a text to print, or errors
spec fn ends(net: Config, e: Seq<String>) -> bool { exists|v: Vec<WaiterError>| #[trigger] ran(net, Err(v)) && e.len() == v@.len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@ == described(net, v@[i]) }
spec fn outcome(resp: Result<UserResponse, String>, r: Result<String, Vec<String>>) -> bool {
    match resp {
        Err(m) => r is Err && r->Err_0@ =~= seq![m],
        Ok(UserResponse::Config(c)) => match r { Ok(s) => serde_json::line(c) == Some(s@), Err(v) => serde_json::line(c) is None && v@.len() == 1 },
        Ok(UserResponse::Process(c)) => match r { Ok(s) => s@ =~= Seq::<char>::empty() && buildable(c, Ok(())) && exists|n: usize| #[trigger] ran(c, Ok(n)), Err(v) => (v@.len() == 1 && buildable(c, Err(v@[0]))) || (buildable(c, Ok(())) && ends(c, v@)) },
        Ok(UserResponse::Graph((c, mode))) => r is Ok && graph_text(c, mode, r->Ok_0@),
    }
}
spec fn comes_of(r: Result<String, Vec<String>>) -> bool { exists|resp: Result<UserResponse, String>| #[trigger] responded(asked(), resp) && outcome(resp, r) }
/// what is printed of it: the text, if any, on standard output ...
spec fn printed_ok(o: Out) -> bool { exists|r: Result<String, Vec<String>>| #[trigger] comes_of(r) && r is Ok && o.err() == Seq::<Seq<char>>::empty() && o.out() =~= (if (r->Ok_0)@.len() == 0 { Seq::empty() } else { seq![(r->Ok_0)@] }) }
pub open spec fn bullets(v: Seq<String>, n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| " * "@ + v[i]@) }
/// ... or nothing there, and the errors on standard error
spec fn printed_err(o: Out) -> bool { exists|r: Result<String, Vec<String>>| #[trigger] comes_of(r) && r is Err && o.out() == Seq::<Seq<char>>::empty()
    && o.err() =~= seq!["Error(s) have occurred:\n"@] + bullets((r->Err_0)@, (r->Err_0)@.len() as int) + seq![Seq::<char>::empty()] }
/// the process may end early with a status of 1, having printed errors and nothing else
pub closed spec fn may_exit(code: i32, o: Out) -> bool { code == 1 && printed_err(o) }
pub open spec fn fresh(o: Out) -> bool { o.out() == Seq::<Seq<char>>::empty() && o.err() == Seq::<Seq<char>>::empty() }
proof fn lemma_refs(v: Seq<&Connection>, d: DeserializedConnection) requires v.len() == list_of(d).len(), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == list_of(d)[i] ensures derefs(v) =~= list_of(d) {}
proof fn lemma_all_regrouped(a: Map<Seq<char>, DeserializedConnection>, b: Map<Seq<char>, DeserializedConnection>, ks: Seq<Seq<char>>)
    requires entries::<String, DeserializedConnection>(ks, a), a.dom() == b.dom(), forall|i: int| 0 <= i < ks.len() ==> regrouped(a[#[trigger] ks[i]], b[ks[i]]) ensures all_regrouped(a, b)
{ assert forall|k: Seq<char>| #[trigger] a.contains_key(k) implies regrouped(a[k], b[k]) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; } }
spec fn keys_in(g: Seq<(&String, &DeserializedConnection)>) -> Seq<Seq<char>> { Seq::new(g.len(), |i: int| g[i].0@) }
spec fn valued(g: Seq<(&String, &DeserializedConnection)>, m: Map<Seq<char>, DeserializedConnection>) -> bool { entries::<String, DeserializedConnection>(keys_in(g), m) && forall|i: int| 0 <= i < g.len() ==> *((#[trigger] g[i]).1) == m[g[i].0@] }
//@item src/bin/pa2.rs :: fn main [seq,out,forsrc=0]

fn main( /*! Tracked(o): Tracked<&mut Out> !*/ ) /*@ requires fresh(*old(o)), manageable(asked()) ensures printed_ok(*final(o)) @*/ {

    let matches = get_clap_app().get_matches();
    /*@ let ghost mut resp: Result<UserResponse, String> = arbitrary(); @*/

    let r = match /*! ({ let resp0 = !*/ process_user_config_action(get_user_config_action(&matches)) /*! ; !*/ /*@ proof { resp = resp0; } @*/ /*! resp0 }) !*/ {
        Ok(UserResponse::Config(new_cfg)) => {
            serde_json::to_string(&new_cfg).map_err(|_x /*@: serde_json::Error@*/| /*@ -> (e: Vec<String>) ensures e@.len() == 1 { @*/ vec!["Could not serialize new Config".to_string()] /*@ } @*/)
        },
        Ok(UserResponse::Process(process_config)) => {
            /*@ let ghost pc = process_config; @*/
            match get_waiter(process_config) {
                Ok(mut waiter) => {
                    let id_to_component_type_name = waiter.get_id_to_component_type_name().ok_or("Could not get_id_to_component_type_name").unwrap();
                    async_std::task::block_on(waiter.start(None))
                        .map_err(|errs /*@: Vec<WaiterError>@*/| /*@ -> (e: Vec<String>) ensures e@.len() == errs@.len(), forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i])@ == described(pc, errs@[i]) @*/ {
                            errs.into_iter().map(|err /*@: WaiterError@*/| /*@ -> (t: String) ensures t@ == described(pc, err) @*/ {
                                waiter_error_to_string(err, &id_to_component_type_name)
                            }).collect::<Vec<String>>()
                        })
                        .map(|_processed_count /*@: usize@*/| /*@ -> (t: String) ensures t@ =~= Seq::<char>::empty() { proof { reveal_strlit(""); } @*/ "".to_string() /*@ } @*/)
                }
                Err(x) => {
                    Err(vec![x])
                }
            }
        },
        Ok(UserResponse::Graph(graph_config)) => {
            let (mut config, mode) = graph_config;
            /*@ let ghost c9 = config; let ghost m0 = config.connection.m(); @*/
            for (connection_set, connections) in /*@ it: @*/ config.connection.iter_mut() /*@
                invariant it.seq() == fg0__, forall|i: int| 0 <= i < it.index() ==> regrouped(*(#[trigger] fg0__[i]).1, *final(fg0__[i].1)) @*/ {
                quick_add_connection_set(connection_set, connections);
            }
            /*@ let ghost m = config.connection.m(); let ghost ks0 = Seq::new(fg0__.len(), |i: int| fg0__[i].0@);
                let ghost mut ks: Seq<Seq<char>> = Seq::empty(); let ghost mut js: Seq<Seq<char>> = Seq::empty();
                proof { assert forall|i: int| 0 <= i < ks0.len() implies regrouped(m0[#[trigger] ks0[i]], m[ks0[i]]) by { assert(fg0__[i].0@ == ks0[i]); } lemma_all_regrouped(m0, m, ks0); } @*/
            let connections = config.connection.iter().fold(
                vec![] /*@ let ghost g = src0__@; proof { assert(valued(g, m)); ks = keys_in(g); } @*/,
                |acc, (_connection_set, deser_conn)| /*@ invariant it0__.seq() == g, graph::lines_of(acc0__@) =~= all_edges(m, ks, it0__.index() as int) @*/ {
                    let conns = Config::quick_deserialized_connection_to_connection(deser_conn);
                    /*@ proof { let n = it0__.index() as int; assert(*g[n].1 == m[ks[n]]); lemma_refs(conns@, *deser_conn); assert(derefs(conns@) == listed(m, ks[n])); } @*/
                    graph::convert_connection_to_graph_connection(acc, conns)
                }
            );
            let components = config.connection.iter().fold(
                HashMap::new() /*@ let ghost g = src1__@; proof { assert(valued(g, m)); js = keys_in(g); } @*/,
                |acc, (_connection_set, deser_conn)| /*@ invariant it1__.seq() == g, forall|ct: ComponentType| #[trigger] graph::names(acc1__.m(), ct) =~= all_mentions(m, js, it1__.index() as int, ct) @*/ {
                    let conns = Config::quick_deserialized_connection_to_connection(deser_conn);
                    /*@ proof { let n = it1__.index() as int; assert(*g[n].1 == m[js[n]]); lemma_refs(conns@, *deser_conn); assert(derefs(conns@) == listed(m, js[n])); } @*/
                    graph::convert_connection_components_fold(acc, conns)
                }
            );
            /*@ let ghost cm = components.m(); @*/
            let to_draw = match mode {
                GraphMode::Full(legend_border) => {
                    vec![graph::get_legend(legend_border), graph::get_diagram(components, connections)]
                }
                GraphMode::DiagramOnly => {
                    vec![graph::get_diagram(components, connections)]
                }
                GraphMode::LegendOnly(legend_border) => {
                    vec![graph::get_legend(legend_border)]
                }
            };
            /*@ let ghost td = to_draw@; proof {
                if !(mode is LegendOnly) { let d = td[td.len() - 1]; assert(diagrammed(m0, m, ks, js, cm, d)); assert(diagram_of(m0, d)); }
                assert(parts_of(c9, mode, td));
            } @*/
            Ok( /*! { let t0 = !*/ graph::get_graph(to_draw) /*! ; !*/ /*@ proof { let g = choose|g: Graph| t0@ == #[trigger] printed(g) && graph::is_graph(g, td); assert(graph::is_graph(g, td)); assert(graph_text(c9, mode, t0@)); } @*/ /*! t0 } !*/ )
        },
        Err(msg) => Err(vec![msg])
    };
    /*@ proof { assert(responded(asked(), resp)); assert(resp is Err ==> outcome(resp, r)); assert(resp is Ok && resp->Ok_0 is Config ==> outcome(resp, r)); assert(resp is Ok && resp->Ok_0 is Process ==> outcome(resp, r)); assert(resp is Ok && resp->Ok_0 is Graph ==> outcome(resp, r));
        assert(outcome(resp, r)); assert(comes_of(r)); } @*/

    match r {
        Ok(s) => {
            if !s.is_empty() {
                println!("{}", s);
            }
            /*@ proof { assert((r->Ok_0)@ == s@); assert(printed_ok(*o)); } @*/
        }
        Err(ss) => {
            eprintln!("Error(s) have occurred:\n");
            for s in /*@ it: @*/ ss /*@ invariant it.seq() == (r->Err_0)@, o.out() == Seq::<Seq<char>>::empty(), o.err() =~= seq!["Error(s) have occurred:\n"@] + bullets((r->Err_0)@, it.index() as int) @*/ {
                eprintln!(" * {}", s);
            }
            eprintln!();
            /*@ proof { reveal_strlit(""); assert(printed_err(*o)); } @*/
            std::process::exit(1);
        }
    }

}
//@end
}
}
