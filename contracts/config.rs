// The configuration: edits, lint.
pub mod config {
use vstd::prelude::*;
use crate::connectable::*;
use crate::coll::*;
use crate::std_shim as std;
verus!{
//@include config_types.rs
//@include sets.rs

// ---- lint
/// what the parser makes of a join string (its contract: C15)
pub uninterp spec fn parsed(s: Seq<char>) -> Option<Seq<Connection>>;
#[verifier::external_body] pub struct ParseError { }
#[verifier::external_body]
pub fn load_connection_from_string(s: &str) -> (r: Result<Vec<Connection>, ParseError>) ensures match r { Ok(v) => parsed(s@) == Some(v@), Err(_) => parsed(s@) is None } { unimplemented!() }
//@item src/config.rs :: enum ParseComponentTypeErr
pub enum ParseComponentTypeErr {
    UnknownStr(String)
}
//@end
//@item src/config.rs :: enum ConfigLintWarning
pub enum ConfigLintWarning {
    RegulatorWatchingMissingBuffer { config_section: String, component_type: ComponentType, component_name: String },
    InConfigButMissingFlowConnection { config_section: String, component_type: ComponentType, component_name: String },
    InFlowConnectionButMissingConfig { component_type: ComponentType, component_name: String },
    InvalidConnection { id: String, join: String },
}
//@end
pub ghost enum Warning { Watch { section: Seq<char>, ct: ComponentType, name: Seq<char> }, Unused { section: Seq<char>, ct: ComponentType, name: Seq<char> }, Missing { ct: ComponentType, name: Seq<char> }, Invalid { id: Seq<char>, join: Seq<char> } }
impl View for ConfigLintWarning {
    type V = Warning;
    open spec fn view(&self) -> Warning {
        match *self {
            ConfigLintWarning::RegulatorWatchingMissingBuffer { config_section, component_type, component_name } => Warning::Watch { section: config_section@, ct: component_type, name: component_name@ },
            ConfigLintWarning::InConfigButMissingFlowConnection { config_section, component_type, component_name } => Warning::Unused { section: config_section@, ct: component_type, name: component_name@ },
            ConfigLintWarning::InFlowConnectionButMissingConfig { component_type, component_name } => Warning::Missing { ct: component_type, name: component_name@ },
            ConfigLintWarning::InvalidConnection { id, join } => Warning::Invalid { id: id@, join: join@ },
        }
    }
}
/// join strings that can be parsed become connection lists, everything else stays
pub open spec fn converted1(d: DeserializedConnection, e: DeserializedConnection) -> bool {
    match d { DeserializedConnection::JoinString(s) => match parsed(s@) { Some(v) => e is Connections && e->Connections_0@ == v, None => e == d }, _ => e == d }
}
pub open spec fn converted(m0: Map<Seq<char>, DeserializedConnection>, m1: Map<Seq<char>, DeserializedConnection>) -> bool {
    m1.dom() == m0.dom() && forall|k: Seq<char>| #[trigger] m0.contains_key(k) ==> converted1(m0[k], m1[k])
}
pub open spec fn unparsable(d: DeserializedConnection) -> bool { d is JoinString && parsed(d->JoinString_0@) is None }
pub open spec fn refused(k: Seq<char>, d: DeserializedConnection) -> Warning { Warning::Invalid { id: k, join: d->JoinString_0@ } }
/// the warnings about join strings
pub open spec fn invalid(m0: Map<Seq<char>, DeserializedConnection>, w: Warning) -> bool { exists|k: Seq<char>| #[trigger] m0.contains_key(k) && unparsable(m0[k]) && w == refused(k, m0[k]) }

#[verifier::prophetic]
pub open spec fn outcome1(e: (&String, &mut DeserializedConnection), o: Option<ConfigLintWarning>) -> bool {
    converted1(*e.1, *final(e.1)) && (o is Some <==> unparsable(*e.1)) && (o is Some ==> o->0@ == refused(e.0@, *e.1))
}
pub proof fn lemma_converted(m0: Map<Seq<char>, DeserializedConnection>, m1: Map<Seq<char>, DeserializedConnection>, g: Seq<(&String, &mut DeserializedConnection)>, o: Seq<Option<ConfigLintWarning>>)
    requires
        entries::<String, DeserializedConnection>(Seq::new(g.len(), |i: int| g[i].0@), m0), forall|i: int| 0 <= i < g.len() ==> *((#[trigger] g[i]).1) == m0[g[i].0@],
        m1.dom() == m0.dom(), forall|i: int| 0 <= i < g.len() ==> m1[(#[trigger] g[i]).0@] == *final(g[i].1),
        o.len() == g.len(), forall|i: int| 0 <= i < o.len() ==> outcome1(#[trigger] g[i], o[i]),
    ensures converted(m0, m1), forall|x: Warning| invalid(m0, x) <==> seen_some(o, x)
{
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    assert forall|k: Seq<char>| #[trigger] m0.contains_key(k) implies converted1(m0[k], m1[k]) by {
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k;
        assert(outcome1(g[i], o[i]));
    }
    assert forall|x: Warning| invalid(m0, x) <==> seen_some(o, x) by {
        if invalid(m0, x) {
            let k = choose|k: Seq<char>| #[trigger] m0.contains_key(k) && unparsable(m0[k]) && x == refused(k, m0[k]);
            let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k;
            assert(outcome1(g[i], o[i]));
            assert(o[i] is Some && o[i]->0@ == x);
        }
        if seen_some(o, x) {
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some && o[i]->0@ == x;
            assert(outcome1(g[i], o[i]));
            assert(m0.contains_key(ks[i]));
        }
    }
}
// ---- lint: what there is to warn about
pub open spec fn at(c: Connection, ct: ComponentType, name: Seq<char>) -> bool {
    match c {
        Connection::MiddleConnection { component_type, component_name, .. } => component_type == ct && component_name@ == name,
        Connection::StartConnection { component_type, component_name, .. } => component_type == ct && component_name@ == name,
        Connection::EndConnection { component_type, component_name, .. } => component_type == ct && component_name@ == name,
    }
}
pub open spec fn list_of(d: DeserializedConnection) -> Seq<Connection> { match d { DeserializedConnection::Connections(v) => v@, _ => Seq::empty() } }
pub open spec fn p_at(ct: ComponentType, n: Seq<char>) -> spec_fn(Connection) -> bool { |c: Connection| at(c, ct, n) }
pub open spec fn in_list(d: DeserializedConnection, ct: ComponentType, name: Seq<char>) -> bool { upto(list_of(d), list_of(d).len() as int, p_at(ct, name)) }
/// a component is part of the flow of data
pub open spec fn in_flow(m: Map<Seq<char>, DeserializedConnection>, ct: ComponentType, name: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] m.contains_key(k) && in_list(m[k], ct, name) }
pub open spec fn configured(c: Config, ct: ComponentType, name: Seq<char>) -> bool {
    match ct {
        ComponentType::Regulator => c.regulator.m().contains_key(name), ComponentType::Drain => c.drain.m().contains_key(name),
        ComponentType::Faucet => c.faucet.m().contains_key(name), ComponentType::Launch => c.launch.m().contains_key(name), _ => false,
    }
}
pub open spec fn section_of(ct: ComponentType) -> Seq<char> {
    match ct { ComponentType::Regulator => "regulator"@, ComponentType::Drain => "drain"@, ComponentType::Faucet => "faucet"@, ComponentType::Launch => "launch"@, ComponentType::Junction => "junction"@, ComponentType::Buffer => "buffer"@ }
}
pub open spec fn has_section(ct: ComponentType) -> bool { ct is Regulator || ct is Drain || ct is Faucet || ct is Launch }
pub open spec fn watch_section(r: Seq<char>) -> Seq<char> { "regulator[\""@ + r + "\"].monitored_buffers"@ }
pub open spec fn named(v: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }
pub open spec fn watches(c: Config, section: Seq<char>, name: Seq<char>) -> bool { exists|r: Seq<char>| #[trigger] c.regulator.m().contains_key(r) && named(c.regulator.m()[r].monitored_buffers@, name) && section == watch_section(r) }
pub open spec fn amiss(c: Config, w: Warning) -> bool {
    match w {
        Warning::Watch { section, ct, name } => ct is Buffer && watches(c, section, name) && !in_flow(c.connection.m(), ct, name),
        Warning::Unused { section, ct, name } => has_section(ct) && section == section_of(ct) && configured(c, ct, name) && !in_flow(c.connection.m(), ct, name),
        Warning::Missing { ct, name } => has_section(ct) && in_flow(c.connection.m(), ct, name) && !configured(c, ct, name),
        Warning::Invalid { .. } => false,
    }
}
pub open spec fn component_type_of(s: Seq<char>) -> Option<ComponentType> {
    if s == "faucet"@ || s == "Faucet"@ || s == "FAUCET"@ { Some(ComponentType::Faucet) }
    else if s == "launch"@ || s == "Launch"@ || s == "LAUNCH"@ { Some(ComponentType::Launch) }
    else if s == "drain"@ || s == "Drain"@ || s == "DRAIN"@ { Some(ComponentType::Drain) }
    else if s == "regulator"@ || s == "Regulator"@ || s == "REGULATOR"@ { Some(ComponentType::Regulator) }
    else if s == "buffer"@ || s == "Buffer"@ || s == "BUFFER"@ { Some(ComponentType::Buffer) }
    else if s == "junction"@ || s == "Junction"@ || s == "JUNCTION"@ { Some(ComponentType::Junction) }
    else { None }
}
/// the names are pairwise different where they mean different things
pub proof fn lemma_names()
    ensures component_type_of("faucet"@) == Some(ComponentType::Faucet), component_type_of("Faucet"@) == Some(ComponentType::Faucet), component_type_of("FAUCET"@) == Some(ComponentType::Faucet), component_type_of("launch"@) == Some(ComponentType::Launch), component_type_of("Launch"@) == Some(ComponentType::Launch), component_type_of("LAUNCH"@) == Some(ComponentType::Launch), component_type_of("drain"@) == Some(ComponentType::Drain), component_type_of("Drain"@) == Some(ComponentType::Drain), component_type_of("DRAIN"@) == Some(ComponentType::Drain), component_type_of("regulator"@) == Some(ComponentType::Regulator), component_type_of("Regulator"@) == Some(ComponentType::Regulator), component_type_of("REGULATOR"@) == Some(ComponentType::Regulator), component_type_of("buffer"@) == Some(ComponentType::Buffer), component_type_of("Buffer"@) == Some(ComponentType::Buffer), component_type_of("BUFFER"@) == Some(ComponentType::Buffer), component_type_of("junction"@) == Some(ComponentType::Junction), component_type_of("Junction"@) == Some(ComponentType::Junction), component_type_of("JUNCTION"@) == Some(ComponentType::Junction)
{
    reveal_strlit("faucet"); reveal_strlit("Faucet"); reveal_strlit("FAUCET"); reveal_strlit("launch"); reveal_strlit("Launch"); reveal_strlit("LAUNCH"); reveal_strlit("drain"); reveal_strlit("Drain"); reveal_strlit("DRAIN"); reveal_strlit("regulator"); reveal_strlit("Regulator"); reveal_strlit("REGULATOR"); reveal_strlit("buffer"); reveal_strlit("Buffer"); reveal_strlit("BUFFER"); reveal_strlit("junction"); reveal_strlit("Junction"); reveal_strlit("JUNCTION");
    assert("faucet"@[0] != "launch"@[0]); assert("faucet"@[0] != "Launch"@[0]); assert("faucet"@[0] != "LAUNCH"@[0]); assert("Faucet"@[0] != "launch"@[0]); assert("Faucet"@[0] != "Launch"@[0]); assert("Faucet"@[0] != "LAUNCH"@[0]); assert("FAUCET"@[0] != "launch"@[0]); assert("FAUCET"@[0] != "Launch"@[0]); assert("FAUCET"@[0] != "LAUNCH"@[0]); assert("faucet"@.len() != "drain"@.len()); assert("faucet"@.len() != "Drain"@.len()); assert("faucet"@.len() != "DRAIN"@.len()); assert("Faucet"@.len() != "drain"@.len()); assert("Faucet"@.len() != "Drain"@.len()); assert("Faucet"@.len() != "DRAIN"@.len()); assert("FAUCET"@.len() != "drain"@.len()); assert("FAUCET"@.len() != "Drain"@.len()); assert("FAUCET"@.len() != "DRAIN"@.len()); assert("faucet"@.len() != "regulator"@.len()); assert("faucet"@.len() != "Regulator"@.len()); assert("faucet"@.len() != "REGULATOR"@.len()); assert("Faucet"@.len() != "regulator"@.len()); assert("Faucet"@.len() != "Regulator"@.len()); assert("Faucet"@.len() != "REGULATOR"@.len()); assert("FAUCET"@.len() != "regulator"@.len()); assert("FAUCET"@.len() != "Regulator"@.len()); assert("FAUCET"@.len() != "REGULATOR"@.len()); assert("faucet"@[0] != "buffer"@[0]); assert("faucet"@[0] != "Buffer"@[0]); assert("faucet"@[0] != "BUFFER"@[0]); assert("Faucet"@[0] != "buffer"@[0]); assert("Faucet"@[0] != "Buffer"@[0]); assert("Faucet"@[0] != "BUFFER"@[0]); assert("FAUCET"@[0] != "buffer"@[0]); assert("FAUCET"@[0] != "Buffer"@[0]); assert("FAUCET"@[0] != "BUFFER"@[0]); assert("faucet"@.len() != "junction"@.len()); assert("faucet"@.len() != "Junction"@.len()); assert("faucet"@.len() != "JUNCTION"@.len()); assert("Faucet"@.len() != "junction"@.len()); assert("Faucet"@.len() != "Junction"@.len()); assert("Faucet"@.len() != "JUNCTION"@.len()); assert("FAUCET"@.len() != "junction"@.len()); assert("FAUCET"@.len() != "Junction"@.len()); assert("FAUCET"@.len() != "JUNCTION"@.len()); assert("launch"@.len() != "drain"@.len()); assert("launch"@.len() != "Drain"@.len()); assert("launch"@.len() != "DRAIN"@.len()); assert("Launch"@.len() != "drain"@.len()); assert("Launch"@.len() != "Drain"@.len()); assert("Launch"@.len() != "DRAIN"@.len()); assert("LAUNCH"@.len() != "drain"@.len()); assert("LAUNCH"@.len() != "Drain"@.len()); assert("LAUNCH"@.len() != "DRAIN"@.len()); assert("launch"@.len() != "regulator"@.len()); assert("launch"@.len() != "Regulator"@.len()); assert("launch"@.len() != "REGULATOR"@.len()); assert("Launch"@.len() != "regulator"@.len()); assert("Launch"@.len() != "Regulator"@.len()); assert("Launch"@.len() != "REGULATOR"@.len()); assert("LAUNCH"@.len() != "regulator"@.len()); assert("LAUNCH"@.len() != "Regulator"@.len()); assert("LAUNCH"@.len() != "REGULATOR"@.len()); assert("launch"@[0] != "buffer"@[0]); assert("launch"@[0] != "Buffer"@[0]); assert("launch"@[0] != "BUFFER"@[0]); assert("Launch"@[0] != "buffer"@[0]); assert("Launch"@[0] != "Buffer"@[0]); assert("Launch"@[0] != "BUFFER"@[0]); assert("LAUNCH"@[0] != "buffer"@[0]); assert("LAUNCH"@[0] != "Buffer"@[0]); assert("LAUNCH"@[0] != "BUFFER"@[0]); assert("launch"@.len() != "junction"@.len()); assert("launch"@.len() != "Junction"@.len()); assert("launch"@.len() != "JUNCTION"@.len()); assert("Launch"@.len() != "junction"@.len()); assert("Launch"@.len() != "Junction"@.len()); assert("Launch"@.len() != "JUNCTION"@.len()); assert("LAUNCH"@.len() != "junction"@.len()); assert("LAUNCH"@.len() != "Junction"@.len()); assert("LAUNCH"@.len() != "JUNCTION"@.len()); assert("drain"@.len() != "regulator"@.len()); assert("drain"@.len() != "Regulator"@.len()); assert("drain"@.len() != "REGULATOR"@.len()); assert("Drain"@.len() != "regulator"@.len()); assert("Drain"@.len() != "Regulator"@.len()); assert("Drain"@.len() != "REGULATOR"@.len()); assert("DRAIN"@.len() != "regulator"@.len()); assert("DRAIN"@.len() != "Regulator"@.len()); assert("DRAIN"@.len() != "REGULATOR"@.len()); assert("drain"@.len() != "buffer"@.len()); assert("drain"@.len() != "Buffer"@.len()); assert("drain"@.len() != "BUFFER"@.len()); assert("Drain"@.len() != "buffer"@.len()); assert("Drain"@.len() != "Buffer"@.len()); assert("Drain"@.len() != "BUFFER"@.len()); assert("DRAIN"@.len() != "buffer"@.len()); assert("DRAIN"@.len() != "Buffer"@.len()); assert("DRAIN"@.len() != "BUFFER"@.len()); assert("drain"@.len() != "junction"@.len()); assert("drain"@.len() != "Junction"@.len()); assert("drain"@.len() != "JUNCTION"@.len()); assert("Drain"@.len() != "junction"@.len()); assert("Drain"@.len() != "Junction"@.len()); assert("Drain"@.len() != "JUNCTION"@.len()); assert("DRAIN"@.len() != "junction"@.len()); assert("DRAIN"@.len() != "Junction"@.len()); assert("DRAIN"@.len() != "JUNCTION"@.len()); assert("regulator"@.len() != "buffer"@.len()); assert("regulator"@.len() != "Buffer"@.len()); assert("regulator"@.len() != "BUFFER"@.len()); assert("Regulator"@.len() != "buffer"@.len()); assert("Regulator"@.len() != "Buffer"@.len()); assert("Regulator"@.len() != "BUFFER"@.len()); assert("REGULATOR"@.len() != "buffer"@.len()); assert("REGULATOR"@.len() != "Buffer"@.len()); assert("REGULATOR"@.len() != "BUFFER"@.len()); assert("regulator"@.len() != "junction"@.len()); assert("regulator"@.len() != "Junction"@.len()); assert("regulator"@.len() != "JUNCTION"@.len()); assert("Regulator"@.len() != "junction"@.len()); assert("Regulator"@.len() != "Junction"@.len()); assert("Regulator"@.len() != "JUNCTION"@.len()); assert("REGULATOR"@.len() != "junction"@.len()); assert("REGULATOR"@.len() != "Junction"@.len()); assert("REGULATOR"@.len() != "JUNCTION"@.len()); assert("buffer"@.len() != "junction"@.len()); assert("buffer"@.len() != "Junction"@.len()); assert("buffer"@.len() != "JUNCTION"@.len()); assert("Buffer"@.len() != "junction"@.len()); assert("Buffer"@.len() != "Junction"@.len()); assert("Buffer"@.len() != "JUNCTION"@.len()); assert("BUFFER"@.len() != "junction"@.len()); assert("BUFFER"@.len() != "Junction"@.len()); assert("BUFFER"@.len() != "JUNCTION"@.len());
}
// ---- the passes of lint
pub open spec fn p_list<'a>(ct: ComponentType, n: Seq<char>) -> spec_fn((&'a String, &'a DeserializedConnection)) -> bool { |e: (&'a String, &'a DeserializedConnection)| in_list(*e.1, ct, n) }
pub open spec fn p_name(n: Seq<char>) -> spec_fn(String) -> bool { |s: String| s@ == n }
pub open spec fn p_watch<'a>(r: Seq<char>, n: Seq<char>) -> spec_fn((&'a String, &'a RegulatorConfig)) -> bool { |e: (&'a String, &'a RegulatorConfig)| e.0@ == r && named(e.1.monitored_buffers@, n) }
pub open spec fn p_pair<'a>(r: Seq<char>, n: Seq<char>) -> spec_fn((&'a String, String)) -> bool { |e: (&'a String, String)| e.0@ == r && e.1@ == n }
pub open spec fn p_unwatched<'a>(k: Set<(ComponentType, Seq<char>)>, x: Warning) -> spec_fn((&'a String, String)) -> bool { |e: (&'a String, String)| x == (Warning::Watch { section: watch_section(e.0@), ct: ComponentType::Buffer, name: e.1@ }) && !k.contains((ComponentType::Buffer, e.1@)) }
pub open spec fn unused(k: Set<(ComponentType, Seq<char>)>, sec: Seq<char>, n: Seq<char>, x: Warning) -> bool { x == (Warning::Unused { section: sec, ct: component_type_of(sec)->0, name: n }) && !k.contains((component_type_of(sec)->0, n)) }
pub open spec fn p_unused1(k: Set<(ComponentType, Seq<char>)>, sec: Seq<char>, x: Warning) -> spec_fn(String) -> bool { |n: String| unused(k, sec, n@, x) }
pub open spec fn p_unused<'a>(k: Set<(ComponentType, Seq<char>)>, x: Warning) -> spec_fn((&'a String, &'a Vec<String>)) -> bool { |e: (&'a String, &'a Vec<String>)| upto(e.1@, e.1@.len() as int, p_unused1(k, e.0@, x)) }
pub open spec fn p_missing<'a>(c: Config, x: Warning) -> spec_fn(&'a (&'a ComponentType, &'a str)) -> bool { |e: &'a (&'a ComponentType, &'a str)| has_section(*e.0) && !configured(c, *e.0, e.1@) && x == (Warning::Missing { ct: *e.0, name: e.1@ }) }
/// the configured names by section
pub open spec fn registry(m: Map<Seq<char>, Vec<String>>, c: Config) -> bool {
    &&& forall|ct: ComponentType| has_section(ct) ==> #[trigger] m.contains_key(section_of(ct))
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> component_type_of(k) is Some && has_section(component_type_of(k)->0) && section_of(component_type_of(k)->0) == k
    &&& forall|ct: ComponentType, n: Seq<char>| has_section(ct) ==> (named(m[section_of(ct)]@, n) <==> #[trigger] configured(c, ct, n))
}
pub proof fn lemma_upto_prefix<T>(s: Seq<T>, t: Seq<T>, n: int, p: spec_fn(T) -> bool) requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures upto(s, n, p) <==> upto(t, n, p) {
    if upto(s, n, p) { let i = choose|i: int| 0 <= i < n && p(#[trigger] s[i]); assert(p(t[i])); }
    if upto(t, n, p) { let i = choose|i: int| 0 <= i < n && p(#[trigger] t[i]); assert(p(s[i])); }
}
pub proof fn lemma_named(v: Seq<String>, n: Seq<char>) ensures named(v, n) <==> upto(v, v.len() as int, p_name(n)) {
    if named(v, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(p_name(n)(v[i])); }
    if upto(v, v.len() as int, p_name(n)) { let i = choose|i: int| 0 <= i < v.len() && p_name(n)(#[trigger] v[i]); assert(v[i]@ == n); }
}
pub proof fn lemma_entry(g: Seq<(&String, &RegulatorConfig)>, m: Map<Seq<char>, RegulatorConfig>, r: Seq<char>)
    requires entries::<String, RegulatorConfig>(Seq::new(g.len(), |i: int| g[i].0@), m), forall|i: int| 0 <= i < g.len() ==> *((#[trigger] g[i]).1) == m[g[i].0@]
    ensures forall|n: Seq<char>| upto(g, g.len() as int, #[trigger] p_watch(r, n)) <==> (m.contains_key(r) && named(m[r].monitored_buffers@, n))
{
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    assert forall|n: Seq<char>| upto(g, g.len() as int, #[trigger] p_watch(r, n)) <==> (m.contains_key(r) && named(m[r].monitored_buffers@, n)) by {
        if upto(g, g.len() as int, p_watch(r, n)) { let i = choose|i: int| 0 <= i < g.len() && p_watch(r, n)(#[trigger] g[i]); assert(m.contains_key(ks[i])); }
        if m.contains_key(r) && named(m[r].monitored_buffers@, n) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == r; assert(p_watch(r, n)(g[i])); }
    }
}
pub proof fn lemma_flow(g: Seq<(&String, &DeserializedConnection)>, m: Map<Seq<char>, DeserializedConnection>, ct: ComponentType, n: Seq<char>)
    requires entries::<String, DeserializedConnection>(Seq::new(g.len(), |i: int| g[i].0@), m), forall|i: int| 0 <= i < g.len() ==> *((#[trigger] g[i]).1) == m[g[i].0@]
    ensures upto(g, g.len() as int, p_list(ct, n)) <==> in_flow(m, ct, n)
{
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    if upto(g, g.len() as int, p_list(ct, n)) { let i = choose|i: int| 0 <= i < g.len() && p_list(ct, n)(#[trigger] g[i]); assert(m.contains_key(ks[i])); }
    if in_flow(m, ct, n) { let k = choose|k: Seq<char>| #[trigger] m.contains_key(k) && in_list(m[k], ct, n); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(p_list(ct, n)(g[i])); }
}
pub open spec fn flow_set(kn: Set<(ComponentType, Seq<char>)>, c: Config) -> bool { forall|ct: ComponentType, n: Seq<char>| #[trigger] kn.contains((ct, n)) <==> in_flow(c.connection.m(), ct, n) }
pub proof fn lemma_watched(rb: Seq<(&String, String)>, kn: Set<(ComponentType, Seq<char>)>, c: Config, x: Warning)
    requires flow_set(kn, c), forall|r: Seq<char>, n: Seq<char>| upto(rb, rb.len() as int, #[trigger] p_pair(r, n)) <==> (c.regulator.m().contains_key(r) && named(c.regulator.m()[r].monitored_buffers@, n))
    ensures upto(rb, rb.len() as int, p_unwatched(kn, x)) <==> (x is Watch && amiss(c, x))
{
    if upto(rb, rb.len() as int, p_unwatched(kn, x)) {
        let i = choose|i: int| 0 <= i < rb.len() && p_unwatched(kn, x)(#[trigger] rb[i]);
        assert(p_pair(rb[i].0@, rb[i].1@)(rb[i]));
        assert(upto(rb, rb.len() as int, p_pair(rb[i].0@, rb[i].1@)));
        assert(c.regulator.m().contains_key(rb[i].0@));
        assert(watches(c, watch_section(rb[i].0@), rb[i].1@));
    }
    if x is Watch && amiss(c, x) {
        let sec = x->Watch_section; let n = x->Watch_name;
        let r = choose|r: Seq<char>| #[trigger] c.regulator.m().contains_key(r) && named(c.regulator.m()[r].monitored_buffers@, n) && sec == watch_section(r);
        assert(upto(rb, rb.len() as int, p_pair(r, n)));
        let i = choose|i: int| 0 <= i < rb.len() && p_pair(r, n)(#[trigger] rb[i]);
        assert(p_unwatched(kn, x)(rb[i]));
    }
}
pub proof fn lemma_unused(rr: Seq<(&String, &Vec<String>)>, m: Map<Seq<char>, Vec<String>>, kn: Set<(ComponentType, Seq<char>)>, c: Config, x: Warning)
    requires flow_set(kn, c), registry(m, c), entries::<String, Vec<String>>(Seq::new(rr.len(), |i: int| rr[i].0@), m), forall|i: int| 0 <= i < rr.len() ==> *((#[trigger] rr[i]).1) == m[rr[i].0@]
    ensures upto(rr, rr.len() as int, p_unused(kn, x)) <==> (x is Unused && amiss(c, x))
{
    lemma_names();
    let ks = Seq::new(rr.len(), |i: int| rr[i].0@);
    if upto(rr, rr.len() as int, p_unused(kn, x)) {
        let i = choose|i: int| 0 <= i < rr.len() && p_unused(kn, x)(#[trigger] rr[i]);
        assert(m.contains_key(ks[i]));
        let v = rr[i].1@;
        let j = choose|j: int| 0 <= j < v.len() && p_unused1(kn, rr[i].0@, x)(#[trigger] v[j]);
        assert(named(v, v[j]@));
        let ct = component_type_of(ks[i])->0;
        assert(configured(c, ct, v[j]@));
    }
    if x is Unused && amiss(c, x) {
        let ct = x->Unused_ct; let n = x->Unused_name; let k = section_of(ct);
        assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k;
        assert(named(m[k]@, n));
        let v = rr[i].1@;
        let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == n;
        assert(p_unused1(kn, k, x)(v[j]));
        assert(p_unused(kn, x)(rr[i]));
    }
}
pub proof fn lemma_missing(mm: Seq<&(&ComponentType, &str)>, kn: Set<(ComponentType, Seq<char>)>, c: Config, x: Warning)
    requires flow_set(kn, c), members(derefs(mm), kn)
    ensures upto(mm, mm.len() as int, p_missing(c, x)) <==> (x is Missing && amiss(c, x))
{
    let ms = derefs(mm);
    if upto(mm, mm.len() as int, p_missing(c, x)) {
        let i = choose|i: int| 0 <= i < mm.len() && p_missing(c, x)(#[trigger] mm[i]);
        assert(kn.contains(ms[i]@));
        assert(kn.contains((*mm[i].0, mm[i].1@)));
    }
    if x is Missing && amiss(c, x) {
        let ct = x->Missing_ct; let n = x->Missing_name;
        assert(kn.contains((ct, n)));
        let i = member_at(ms, kn, (ct, n));
        assert(p_missing(c, x)(mm[i]));
    }
}
pub proof fn lemma_listed<V>(g: Seq<(&String, &V)>, u: Seq<String>, m: Map<Seq<char>, V>)
    requires entries::<String, V>(Seq::new(g.len(), |i: int| g[i].0@), m), u.len() == g.len(), forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i])@ == g[i].0@
    ensures forall|n: Seq<char>| #[trigger] named(u, n) <==> m.contains_key(n)
{
    let ks = Seq::new(g.len(), |i: int| g[i].0@);
    assert forall|n: Seq<char>| #[trigger] named(u, n) <==> m.contains_key(n) by {
        if named(u, n) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i])@ == n; assert(m.contains_key(ks[i])); }
        if m.contains_key(n) { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == n; assert(u[i]@ == n); }
    }
}
pub proof fn lemma_registry(a: Seq<(String, Vec<String>)>, c: Config)
    requires a.len() == 4, a[0].0@ == "regulator"@, a[1].0@ == "drain"@, a[2].0@ == "faucet"@, a[3].0@ == "launch"@,
        forall|n: Seq<char>| #[trigger] named(a[0].1@, n) <==> c.regulator.m().contains_key(n), forall|n: Seq<char>| #[trigger] named(a[1].1@, n) <==> c.drain.m().contains_key(n),
        forall|n: Seq<char>| #[trigger] named(a[2].1@, n) <==> c.faucet.m().contains_key(n), forall|n: Seq<char>| #[trigger] named(a[3].1@, n) <==> c.launch.m().contains_key(n),
    ensures registry(paired(a), c)
{
    lemma_names();
    let a3 = a.drop_last(); let a2 = a3.drop_last(); let a1 = a2.drop_last(); let a0 = a1.drop_last();
    assert(paired(a0) == Map::<Seq<char>, Vec<String>>::empty());
    assert(paired(a1) == paired(a0).insert("regulator"@, a[0].1));
    assert(paired(a2) == paired(a1).insert("drain"@, a[1].1));
    assert(paired(a3) == paired(a2).insert("faucet"@, a[2].1));
    assert(paired(a) == paired(a3).insert("launch"@, a[3].1));
}
impl ComponentType {
//@item src/config.rs :: impl FromStr for ComponentType > fn from_str [bare, seq]
    fn from_str(s: &str) -> /*@ (r: @*/ Result<Self, /*!del 3!*/ Self::Err /*! ParseComponentTypeErr !*/> /*@ ) ensures match r { Ok(ct) => component_type_of(s@) == Some(ct), Err(e) => component_type_of(s@) is None && e->UnknownStr_0@ == s@ } @*/ {
        /*@ proof { lemma_names(); } @*/
        match s {
            "faucet" => Ok(ComponentType::Faucet),
            "launch" => Ok(ComponentType::Launch),
            "drain" => Ok(ComponentType::Drain),
            "regulator" => Ok(ComponentType::Regulator),
            "buffer" => Ok(ComponentType::Buffer),
            "junction" => Ok(ComponentType::Junction),

            "Faucet" => Ok(ComponentType::Faucet),
            "Launch" => Ok(ComponentType::Launch),
            "Drain" => Ok(ComponentType::Drain),
            "Regulator" => Ok(ComponentType::Regulator),
            "Buffer" => Ok(ComponentType::Buffer),
            "Junction" => Ok(ComponentType::Junction),

            "FAUCET" => Ok(ComponentType::Faucet),
            "LAUNCH" => Ok(ComponentType::Launch),
            "DRAIN" => Ok(ComponentType::Drain),
            "REGULATOR" => Ok(ComponentType::Regulator),
            "BUFFER" => Ok(ComponentType::Buffer),
            "JUNCTION" => Ok(ComponentType::Junction),
            _ => Err(ParseComponentTypeErr::UnknownStr(s.to_string())),
        }
    }
//@end
}
// ---- edits
/// exactly one item of a table may differ
pub open spec fn only<V>(m0: Map<Seq<char>, V>, m1: Map<Seq<char>, V>, k: Seq<char>) -> bool { m1.contains_key(k) && m1 == m0.insert(k, m1[k]) }
/// the settings of a launch that was not configured so far
pub open spec fn bare(c: Option<Seq<char>>, p: Option<Seq<char>>, l: LaunchConfig) -> bool { otext(l.command) == c && otext(l.path) == p && l.env.m() == Map::<Seq<char>, String>::empty() && l.arg@ == Seq::<String>::empty() }
pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

//@item src/config.rs :: impl Config > fn lint > fn string_to_component_type [seq]
        fn string_to_component_type(s: &str) -> /*@ (r: @*/ ComponentType /*@ ) requires component_type_of(s@) is Some, has_section(component_type_of(s@)->0) ensures component_type_of(s@) == Some(r) @*/ {
            match ComponentType::from_str(s) {
                Ok(ComponentType::Faucet) => ComponentType::Faucet,
                Ok(ComponentType::Launch) => ComponentType::Launch,
                Ok(ComponentType::Drain) => ComponentType::Drain,
                Ok(ComponentType::Regulator) => ComponentType::Regulator,
                _ => panic!("Encountered known reg_key in in Config::lint()"),
            }
        }
//@end
//@item src/config.rs :: impl Config > fn lint > fn exists_with_flow_config [seq]
        fn exists_with_flow_config(registered: &HashMap<String, Vec<String>>, registered_key: &str, component_name: &str) -> /*@ (r: @*/ bool /*@ )
            ensures r == !(registered.m().contains_key(registered_key@) && named(registered.m()[registered_key@]@, component_name@)) @*/ {
            registered.get(registered_key).and_then(|hs /*@: &Vec<String>@*/| /*@ -> (o: Option<bool>) ensures o is Some <==> named(hs@, component_name@) @*/ {
                if /*! ({ let iv = !*/ hs.iter() /*! ; !*/ /*@ let ghost g = iv@; proof { assert(iv.all_v() == g); } @*/ /*! let b = iv !*/ .any(|h /*@: &String@*/| /*@ -> (o: bool) ensures o == (h@ == component_name@) { proof { crate::fmt::axiom_string_eq(); } @*/ h == component_name /*@ } @*/) /*! ; !*/ /*@ proof { if !b { assert forall|i: int| 0 <= i < hs@.len() implies (#[trigger] hs@[i])@ != component_name@ by { assert(g[i]@ != component_name@); } } } @*/ /*! b }) !*/ { return Some(true); }
                None
            }).is_none()
        }
//@end
impl Config {
//@item src/config.rs :: impl Config > fn new [bare]
    pub fn new() -> /*@ (r: @*/ Config /*@ ) ensures r.faucet.m() == Map::<Seq<char>, FaucetConfig>::empty(), r.drain.m() == Map::<Seq<char>, DrainConfig>::empty(), r.regulator.m() == Map::<Seq<char>, RegulatorConfig>::empty(),
        r.launch.m() == Map::<Seq<char>, LaunchConfig>::empty(), r.connection.m() == Map::<Seq<char>, DeserializedConnection>::empty() @*/ {
        Config {
            faucet: HashMap::new(),
            drain: HashMap::new(),
            regulator: HashMap::new(),
            launch: HashMap::new(),
            connection: BTreeMap::new(),
        }
    }
//@end
//@item src/config.rs :: impl Config > fn regulator_set_watermark [bare, seq]
    pub fn regulator_set_watermark(mut config: Config, regulator_id: String, min: usize, max: usize) -> /*@ (r: @*/ Config /*@ )
        ensures
            r == (Config { regulator: r.regulator, ..config }), only(config.regulator.m(), r.regulator.m(), regulator_id@),
            r.regulator.m()[regulator_id@].buffered == (if min > max { Some((max, min)) } else { Some((min, max)) }),
            r.regulator.m()[regulator_id@].monitored_buffers@ == (if config.regulator.m().contains_key(regulator_id@) { config.regulator.m()[regulator_id@].monitored_buffers@ } else { Seq::empty() }),
        @*/ {
        /*@ let ghost c0 = config; @*/
        let reg_config = match min > max {
            true => RegulatorConfig { buffered: Some((max, min)), monitored_buffers: vec![] },
            false => RegulatorConfig { buffered: Some((min, max)), monitored_buffers: vec![] },
        };
        config.regulator.entry(regulator_id)
            .and_modify(|x| {
                x.buffered = reg_config.buffered;
            })
            .or_insert(reg_config);
        /*@ proof { assert(config.regulator.m() =~= c0.regulator.m().insert(regulator_id@, config.regulator.m()[regulator_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn faucet_set_source [bare, seq]
    pub fn faucet_set_source(mut config: Config, faucet_id: String, faucet_source: String) -> /*@ (r: @*/ Config /*@ )
        ensures r == (Config { faucet: r.faucet, ..config }), only(config.faucet.m(), r.faucet.m(), faucet_id@), r.faucet.m()[faucet_id@].source@ == faucet_source@ @*/ {
        /*@ let ghost c0 = config; @*/
        config.faucet.entry(faucet_id)
            .and_modify(|x| { x.source = faucet_source.to_string() })
            .or_insert(FaucetConfig { source: faucet_source });
        /*@ proof { assert(config.faucet.m() =~= c0.faucet.m().insert(faucet_id@, config.faucet.m()[faucet_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn drain_set_destination [bare, seq]
    pub fn drain_set_destination(mut config: Config, drain_id: String, drain_destination: String) -> /*@ (r: @*/ Config /*@ )
        ensures r == (Config { drain: r.drain, ..config }), only(config.drain.m(), r.drain.m(), drain_id@), r.drain.m()[drain_id@].destination@ == drain_destination@ @*/ {
        /*@ let ghost c0 = config; @*/
        let mut d = DrainConfig { destination: drain_destination };
        config.drain.entry(drain_id)
            .and_modify(|x| std::mem::swap(x, &mut d))
            .or_insert(d);
        /*@ proof { assert(config.drain.m() =~= c0.drain.m().insert(drain_id@, config.drain.m()[drain_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn connection_join [bare, seq]
    pub fn connection_join(mut config: Config, connection_id: String, mut connection_spec: DeserializedConnection) -> /*@ (r: @*/ Config /*@ )
        ensures r == (Config { connection: r.connection, ..config }), r.connection.m() == config.connection.m().insert(connection_id@, connection_spec) @*/ {
        /*@ let ghost c0 = config; @*/
        config.connection.entry(connection_id)
            .and_modify(|x| std::mem::swap(x, &mut connection_spec))
            .or_insert(connection_spec);
        /*@ proof { assert(config.connection.m() =~= c0.connection.m().insert(connection_id@, config.connection.m()[connection_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn launch_set_command [bare, seq]
    pub fn launch_set_command(mut config: Config, launch_id: String, command: String) -> /*@ (r: @*/ Config /*@ )
        ensures
            r == (Config { launch: r.launch, ..config }), only(config.launch.m(), r.launch.m(), launch_id@), otext(r.launch.m()[launch_id@].command) == Some(command@),
            if config.launch.m().contains_key(launch_id@) { r.launch.m()[launch_id@] == (LaunchConfig { command: r.launch.m()[launch_id@].command, ..config.launch.m()[launch_id@] }) } else { bare(Some(command@), None, r.launch.m()[launch_id@]) }
        @*/ {
        /*@ let ghost c0 = config; @*/
        config.launch.entry(launch_id)
            .and_modify(|mut lc| lc.command = Some(command.clone()))
            .or_insert(LaunchConfig { command: Some(command), path: None, env: HashMap::new(), arg: vec![] });
        /*@ proof { assert(config.launch.m() =~= c0.launch.m().insert(launch_id@, config.launch.m()[launch_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn launch_set_path [bare, seq]
    pub fn launch_set_path(mut config: Config, launch_id: String, path: String) -> /*@ (r: @*/ Config /*@ )
        ensures
            r == (Config { launch: r.launch, ..config }), only(config.launch.m(), r.launch.m(), launch_id@), otext(r.launch.m()[launch_id@].path) == Some(path@),
            if config.launch.m().contains_key(launch_id@) { r.launch.m()[launch_id@] == (LaunchConfig { path: r.launch.m()[launch_id@].path, ..config.launch.m()[launch_id@] }) } else { bare(None, Some(path@), r.launch.m()[launch_id@]) }
        @*/ {
        /*@ let ghost c0 = config; @*/
        config.launch.entry(launch_id)
            .and_modify(|mut lc| lc.path = Some(path.clone()))
            .or_insert(LaunchConfig { command: None, path: Some(path), env: HashMap::new(), arg: vec![] });
        /*@ proof { assert(config.launch.m() =~= c0.launch.m().insert(launch_id@, config.launch.m()[launch_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn launch_set_args [bare, seq]
    pub fn launch_set_args(mut config: Config, launch_id: String, mut args: Vec<String>) -> /*@ (r: @*/ Config /*@ )
        ensures
            r == (Config { launch: r.launch, ..config }), only(config.launch.m(), r.launch.m(), launch_id@), r.launch.m()[launch_id@].arg == args,
            if config.launch.m().contains_key(launch_id@) { r.launch.m()[launch_id@] == (LaunchConfig { arg: args, ..config.launch.m()[launch_id@] }) } else { r.launch.m()[launch_id@].command is None && r.launch.m()[launch_id@].path is None && r.launch.m()[launch_id@].env.m() == Map::<Seq<char>, String>::empty() }
        @*/ {
        /*@ let ghost c0 = config; @*/
        config.launch.entry(launch_id)
            .and_modify(|mut lc| lc.arg = std::mem::take(&mut args))
            .or_insert(LaunchConfig { command: None, path: None, env: HashMap::new(), arg: args });
        /*@ proof { assert(config.launch.m() =~= c0.launch.m().insert(launch_id@, config.launch.m()[launch_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn launch_set_env [bare, seq]
    pub fn launch_set_env(mut config: Config, launch_id: String, mut env: HashMap<String, String>) -> /*@ (r: @*/ Config /*@ )
        ensures
            r == (Config { launch: r.launch, ..config }), only(config.launch.m(), r.launch.m(), launch_id@), r.launch.m()[launch_id@].env == env,
            if config.launch.m().contains_key(launch_id@) { r.launch.m()[launch_id@] == (LaunchConfig { env, ..config.launch.m()[launch_id@] }) } else { r.launch.m()[launch_id@].command is None && r.launch.m()[launch_id@].path is None && r.launch.m()[launch_id@].arg@ == Seq::<String>::empty() }
        @*/ {
        /*@ let ghost c0 = config; @*/
        config.launch.entry(launch_id)
            .and_modify(|mut lc| lc.env = std::mem::take(&mut env))
            .or_insert(LaunchConfig { command: None, path: None, env, arg: vec![] });
        /*@ proof { assert(config.launch.m() =~= c0.launch.m().insert(launch_id@, config.launch.m()[launch_id@])); } @*/
        config
    }
//@end
//@item src/config.rs :: impl Config > fn connections_mapper [bare, seq]
    pub fn connections_mapper<'a>((k, v): (&'a String, &'a String)) -> /*@ (r: @*/ Result<Vec<Connection>,(&'a str, &'a str)> /*@ )
        ensures match r { Ok(x) => parsed(a0__.1@) == Some(x@), Err(e) => parsed(a0__.1@) is None && e.0@ == a0__.0@ && e.1@ == a0__.1@ } @*/ {

        match load_connection_from_string(v) {
            Err(_) => Err((k, v)),
            Ok(x) => Ok(x),
        }

    }
//@end
//@item src/config.rs :: impl Config > fn convert_connections [bare, seq]
    pub fn convert_connections(connections: &mut BTreeMap<String, DeserializedConnection>) -> /*@ (r: @*/ HashSet<ConfigLintWarning> /*@ )
        ensures converted(old(connections).m(), final(connections).m()), forall|x: Warning| #[trigger] r.s().contains(x) <==> invalid(old(connections).m(), x) @*/ {

        /*! let s0 = !*/ connections.iter_mut() /*! ; !*/ /*@ let ghost g = s0@; @*/ /*! let fm = s0 !*/
            .filter_map(
                |(k, v) /*@ : (&String, &mut DeserializedConnection) @*/| /*@ -> (o: Option<ConfigLintWarning>)
                    ensures converted1(*old(p0__.1), *final(p0__.1)), o is Some <==> unparsable(*old(p0__.1)), o is Some ==> o->0@ == refused(p0__.0@, *old(p0__.1)) @*/ {
                    let replace_with = match v {
                        DeserializedConnection::JoinString(s) => {
                            match Config::connections_mapper((k, s)) {
                                Ok(x) => Some(x),
                                Err((kk, vv)) => {
                                    return Some(ConfigLintWarning::InvalidConnection { id: kk.to_string(), join: vv.to_string() });
                                }
                            }
                        },
                        DeserializedConnection::Connections(_) => None
                    };
                    if let Some(x) = replace_with {
                        let mut d = DeserializedConnection::Connections(x);
                        std::mem::swap(v, &mut d);
                    };
                    None
                }) /*! ; !*/
            /*@ let ghost o = choose|o: Seq<Option<ConfigLintWarning>>| fm@ == picked(o) && o.len() == g.len() && forall|i: int| 0 <= i < o.len() ==> outcome1(#[trigger] g[i], o[i]);
            proof { } @*/
            /*! let r: HashSet<ConfigLintWarning> = fm !*/ .collect() /*! ; !*/
            /*@ proof {
                lemma_converted(old(connections).m(), final(connections).m(), g, o);
                assert forall|x: Warning| r.s().contains(x) <==> invalid(old(connections).m(), x) by { lemma_picked(o, x); }
            } @*/ /*! r !*/

    }
//@end
//@item src/config.rs :: impl Config > fn quick_deserialized_connection_to_connection [bare]
    pub fn quick_deserialized_connection_to_connection(ds: &DeserializedConnection) -> /*@ (r: @*/ Vec<&Connection> /*@ )
        ensures r@.len() == list_of(*ds).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == list_of(*ds)[i] @*/ {
        match ds {
            DeserializedConnection::Connections(cs) => {
                let mut v /*@: Vec<&Connection>@*/ = vec![];
                for c in /*@ it: @*/ cs /*@ invariant v@.len() == it.index(), it.seq() == cs@.map_values(|x: Connection| &x), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == cs@[i] @*/ {
                    v.push(c);
                }
                v
            },
            DeserializedConnection::JoinString(_) => vec![],
        }
    }
//@end
//@item src/config.rs :: impl Config > fn lint [bare, seq, nofn]
    pub fn lint(config: &mut Config) -> /*@ (r: @*/ HashSet<ConfigLintWarning> /*@ )
        ensures
            *final(config) == (Config { connection: final(config).connection, ..*old(config) }), converted(old(config).connection.m(), final(config).connection.m()),
            (exists|x: Warning| invalid(old(config).connection.m(), x)) ==> forall|x: Warning| #[trigger] r.s().contains(x) <==> invalid(old(config).connection.m(), x),
            !(exists|x: Warning| invalid(old(config).connection.m(), x)) ==> forall|x: Warning| #[trigger] r.s().contains(x) <==> amiss(*final(config), x),
        @*/ {
        use std::iter::FromIterator;

        let mut errs = Config::convert_connections(&mut config.connection);
        /*@ let ghost m0 = old(config).connection.m(); @*/
        if !errs.is_empty() {
            return errs;
        }
        /*@ let ghost c = *config;
        proof { assert forall|x: Warning| !invalid(m0, x) by { assert(!errs.s().contains(x)); } } @*/

        fn string_to_component_type(s: &str) -> ComponentType {
            match ComponentType::from_str(s) {
                Ok(ComponentType::Faucet) => ComponentType::Faucet,
                Ok(ComponentType::Launch) => ComponentType::Launch,
                Ok(ComponentType::Drain) => ComponentType::Drain,
                Ok(ComponentType::Regulator) => ComponentType::Regulator,
                _ => panic!("Encountered known reg_key in in Config::lint()"),
            }
        }

        let registered: HashMap<String, Vec<String>> = HashMap::<_, _>::from_iter( /*! { let a = !*/ [
            ("regulator".to_string(), /*! ({ let g0 = !*/ config.regulator.iter() /*! ; !*/ /*@ let ghost g = g0@; proof { assert(g0.all_v() == g); } @*/ /*! let u0 = g0 !*/ .map(|x /*@: (&String, &RegulatorConfig)@*/| /*@ -> (o: String) ensures o@ == x.0@ { @*/ x.0.to_string() /*@ } @*/) /*! ; let u = u0 !*/ .collect::<Vec<String>>() /*! ; !*/ /*@ proof { lemma_listed(g, u@, config.regulator.m()); } @*/ /*! u }) !*/ ), // recommended (control of buffers)
            ("drain".to_string(), /*! ({ let g0 = !*/ config.drain.iter() /*! ; !*/ /*@ let ghost g = g0@; proof { assert(g0.all_v() == g); } @*/ /*! let u0 = g0 !*/ .map(|x /*@: (&String, &DrainConfig)@*/| /*@ -> (o: String) ensures o@ == x.0@ { @*/ x.0.to_string() /*@ } @*/) /*! ; let u = u0 !*/ .collect::<Vec<String>>() /*! ; !*/ /*@ proof { lemma_listed(g, u@, config.drain.m()); } @*/ /*! u }) !*/ ), // recommended (where to output)
            ("faucet".to_string(), /*! ({ let g0 = !*/ config.faucet.iter() /*! ; !*/ /*@ let ghost g = g0@; proof { assert(g0.all_v() == g); } @*/ /*! let u0 = g0 !*/ .map(|x /*@: (&String, &FaucetConfig)@*/| /*@ -> (o: String) ensures o@ == x.0@ { @*/ x.0.to_string() /*@ } @*/) /*! ; let u = u0 !*/ .collect::<Vec<String>>() /*! ; !*/ /*@ proof { lemma_listed(g, u@, config.faucet.m()); } @*/ /*! u }) !*/ ), // optional (min/max buffered)
            ("launch".to_string(), /*! ({ let g0 = !*/ config.launch.iter() /*! ; !*/ /*@ let ghost g = g0@; proof { assert(g0.all_v() == g); } @*/ /*! let u0 = g0 !*/ .map(|x /*@: (&String, &LaunchConfig)@*/| /*@ -> (o: String) ensures o@ == x.0@ { @*/ x.0.to_string() /*@ } @*/) /*! ; let u = u0 !*/ .collect::<Vec<String>>() /*! ; !*/ /*@ proof { lemma_listed(g, u@, config.launch.m()); } @*/ /*! u }) !*/ ), // required (how to launch the programs)
        ] /*! ; !*/ /*@ proof { lemma_registry(a@, c); } @*/ /*! a } !*/ );

        let regulator_buffers = config.regulator.iter().fold(
            Vec::new() /*@ let ghost rg = src0__@; @*/,
            |mut acc, kv| /*@ invariant it0__.seq() == rg, forall|r: Seq<char>, n: Seq<char>| upto(acc0__@, acc0__@.len() as int, #[trigger] p_pair(r, n)) <==> upto(rg, it0__.index() as int, p_watch(r, n)) @*/ {
                /*@ let ghost a0 = acc@; let ghost i0 = it0__.index() as int; @*/
                for mb in /*@ jt: @*/ kv.1.monitored_buffers.iter() /*@
                    invariant jt.seq() == kv.1.monitored_buffers@.map_values(|x: String| &x),
                        forall|r: Seq<char>, n: Seq<char>| upto(acc@, acc@.len() as int, #[trigger] p_pair(r, n)) <==> (upto(rg, i0, p_watch(r, n)) || (r == kv.0@ && upto(kv.1.monitored_buffers@, jt.index() as int, p_name(n)))) @*/ {
                    /*@ let ghost b0 = acc@; let ghost j = jt.index() as int; @*/
                    acc.push((kv.0, mb.to_string()));
                    /*@ proof {
                        assert forall|r: Seq<char>, n: Seq<char>| upto(acc@, acc@.len() as int, #[trigger] p_pair(r, n)) <==> (upto(rg, i0, p_watch(r, n)) || (r == kv.0@ && upto(kv.1.monitored_buffers@, j + 1, p_name(n)))) by {
                            lemma_upto(kv.1.monitored_buffers@, j, p_name(n));
                            lemma_upto(acc@, b0.len() as int, p_pair(r, n));
                            lemma_upto_prefix(acc@, b0, b0.len() as int, p_pair(r, n));
                        }
                    } @*/
                }
                /*@ proof {
                    assert forall|r: Seq<char>, n: Seq<char>| upto(acc@, acc@.len() as int, #[trigger] p_pair(r, n)) <==> upto(rg, i0 + 1, p_watch(r, n)) by { lemma_upto(rg, i0, p_watch(r, n)); lemma_named(kv.1.monitored_buffers@, n); }
                } @*/
                acc
            } /*@ proof { assert forall|r: Seq<char>, n: Seq<char>| upto(acc0__@, acc0__@.len() as int, #[trigger] p_pair(r, n)) <==> (c.regulator.m().contains_key(r) && named(c.regulator.m()[r].monitored_buffers@, n)) by { lemma_entry(rg, c.regulator.m(), r); } } @*/
        );

        // Collect the names / types of all components in the flow of data
        let known_components: HashSet<(&ComponentType, &str)> = config.connection.iter()
            .fold(
                HashSet /*! ::<(&ComponentType, &str)> !*/ ::new() /*@ let ghost cg = src1__@; @*/,
                |mut acc, (_, deserialized_connection)| /*@ invariant it1__.seq() == cg, forall|ct: ComponentType, n: Seq<char>| #[trigger] acc1__.s().contains((ct, n)) <==> upto(cg, it1__.index() as int, p_list(ct, n)) @*/ {
                    /*@ let ghost i0 = it1__.index() as int; @*/
                    for conn in /*@ jt: @*/ Config::quick_deserialized_connection_to_connection(deserialized_connection) /*@
                        invariant jt.seq().len() == list_of(*deserialized_connection).len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == list_of(*deserialized_connection)[i],
                            forall|ct: ComponentType, n: Seq<char>| #[trigger] acc.s().contains((ct, n)) <==> (upto(cg, i0, p_list(ct, n)) || upto(list_of(*deserialized_connection), jt.index() as int, p_at(ct, n))) @*/ {
                        /*@ let ghost b0 = acc.s(); let ghost j = jt.index() as int; @*/
                        let cn = match conn {
                            Connection::EndConnection { component_type, component_name, .. } => (component_type, component_name),
                            Connection::MiddleConnection { component_type, component_name, .. } => (component_type, component_name),
                            Connection::StartConnection { component_type, component_name, .. } => (component_type, component_name),
                        };
                        acc.insert((cn.0, cn.1));
                        /*@ proof {
                            assert forall|ct: ComponentType, n: Seq<char>| #[trigger] acc.s().contains((ct, n)) <==> (upto(cg, i0, p_list(ct, n)) || upto(list_of(*deserialized_connection), j + 1, p_at(ct, n))) by { lemma_upto(list_of(*deserialized_connection), j, p_at(ct, n)); assert(b0.contains((ct, n)) || !b0.contains((ct, n))); }
                        } @*/
                    }
                    /*@ proof { assert forall|ct: ComponentType, n: Seq<char>| #[trigger] acc.s().contains((ct, n)) <==> upto(cg, i0 + 1, p_list(ct, n)) by { lemma_upto(cg, i0, p_list(ct, n)); } } @*/
                    acc
                } /*@ proof { assert forall|ct: ComponentType, n: Seq<char>| #[trigger] acc1__.s().contains((ct, n)) <==> in_flow(c.connection.m(), ct, n) by { lemma_flow(cg, c.connection.m(), ct, n); } } @*/
            );
        /*@ let ghost kn = known_components.s(); let ghost rb = regulator_buffers@; @*/

        regulator_buffers.iter().fold(
            &mut errs /*@ let ghost bg = sy0__@; @*/,
            |acc, (regulator_name, buffer_name)| /*@ invariant iy0__.seq() == bg, forall|x: Warning| #[trigger] errs.s().contains(x) <==> upto(rb, iy0__.index() as int, p_unwatched(kn, x)) @*/ {
                /*@ let ghost j = iy0__.index() as int;
                proof { assert(*bg[j] == rb[j]); reveal_strlit("regulator[\""); reveal_strlit("\"].monitored_buffers"); assert forall|x: Warning| #[trigger] upto(rb, j + 1, p_unwatched(kn, x)) <==> (upto(rb, j, p_unwatched(kn, x)) || p_unwatched(kn, x)(rb[j])) by { lemma_upto(rb, j, p_unwatched(kn, x)); } } @*/
                if known_components.contains(&(&ComponentType::Buffer, buffer_name as &str)) {
                    return acc;
                }
                acc.insert(
                    ConfigLintWarning::RegulatorWatchingMissingBuffer{
                        component_type: ComponentType::Buffer,
                        component_name: buffer_name.to_owned(),
                        config_section: format!("regulator[\"{}\"].monitored_buffers", regulator_name),
                    }
                );
                acc
            } /*@ proof { assert forall|x: Warning| #[trigger] errs.s().contains(x) <==> (x is Watch && amiss(c, x)) by { lemma_watched(rb, kn, c, x); } } @*/
        );

        // If something is registered, but does not have a corresponding connection... what do we care?
        registered.iter().fold(
            &mut errs /*@ let ghost rr = sy1__@; @*/,
            |acc, (reg_key, reg_controls)| /*@ invariant iy1__.seq() == rr, forall|x: Warning| #[trigger] errs.s().contains(x) <==> ((x is Watch && amiss(c, x)) || upto(rr, iy1__.index() as int, p_unused(kn, x))) @*/ {
                /*@ let ghost i0 = iy1__.index() as int; let ghost ks = Seq::new(rr.len(), |i: int| rr[i].0@);
                proof {
                    assert(ks[i0] == reg_key@); assert(registered.m().contains_key(ks[i0]));
                    assert forall|x: Warning| #[trigger] upto(rr, i0 + 1, p_unused(kn, x)) <==> (upto(rr, i0, p_unused(kn, x)) || p_unused(kn, x)(rr[i0])) by { lemma_upto(rr, i0, p_unused(kn, x)); }
                } @*/
                let reg_component_type = string_to_component_type(reg_key.as_str());
                for reg_control in /*@ jt: @*/ reg_controls /*@ invariant jt.seq() == reg_controls@.map_values(|x: String| &x),
                        forall|x: Warning| #[trigger] acc.s().contains(x) <==> ((x is Watch && amiss(c, x)) || upto(rr, i0, p_unused(kn, x)) || upto(reg_controls@, jt.index() as int, p_unused1(kn, reg_key@, x))) @*/ {
                    /*@ let ghost j = jt.index() as int;
                    proof { assert forall|x: Warning| #[trigger] upto(reg_controls@, j + 1, p_unused1(kn, reg_key@, x)) <==> (upto(reg_controls@, j, p_unused1(kn, reg_key@, x)) || p_unused1(kn, reg_key@, x)(reg_controls@[j])) by { lemma_upto(reg_controls@, j, p_unused1(kn, reg_key@, x)); } } @*/
                    if known_components.contains(&(&reg_component_type, reg_control as &str)) {
                        continue;
                    }
                    // TODO: Check taps don't reference missing buffers
                    acc.insert(
                        ConfigLintWarning::InConfigButMissingFlowConnection {
                            component_type: string_to_component_type(reg_key),
                            component_name: reg_control.to_owned(),
                            config_section: reg_key.to_owned(),
                        }
                    );
                }
                acc
            } /*@ proof { assert forall|x: Warning| #[trigger] errs.s().contains(x) <==> ((x is Watch || x is Unused) && amiss(c, x)) by { lemma_unused(rr, registered.m(), kn, c, x); } } @*/
        );

        fn exists_with_flow_config(registered: &HashMap<String, Vec<String>>, registered_key: &str, component_name: &str) -> bool {
            registered.get(registered_key).and_then(|hs| {
                if hs.iter().any(|h| h == component_name) { return Some(true); }
                // if hs.contains(component_name) { return Some(true); }
                None
            }).is_none()
        }

        // If something is in the flow of data, but is missing required config we have a problem.
        known_components.iter().fold(
            &mut errs /*@ let ghost mm = sy2__@; @*/,
            |acc, (component_type, component_name)| /*@ invariant iy2__.seq() == mm, forall|x: Warning| #[trigger] errs.s().contains(x) <==> (((x is Watch || x is Unused) && amiss(c, x)) || upto(mm, iy2__.index() as int, p_missing(c, x))) @*/ {
                /*@ let ghost i0 = iy2__.index() as int;
                proof { assert forall|x: Warning| #[trigger] upto(mm, i0 + 1, p_missing(c, x)) <==> (upto(mm, i0, p_missing(c, x)) || p_missing(c, x)(mm[i0])) by { lemma_upto(mm, i0, p_missing(c, x)); }
                    assert(has_section(**component_type) ==> registered.m().contains_key(section_of(**component_type)) && (named(registered.m()[section_of(**component_type)]@, component_name@) <==> configured(c, **component_type, component_name@))); } @*/
                let in_connections_but_missing_reqd_config = match component_type {
                    ComponentType::Drain => {
                        exists_with_flow_config(&registered, "drain", *component_name)
                    },
                    ComponentType::Faucet => {
                        exists_with_flow_config(&registered, "faucet", *component_name)
                    },
                    ComponentType::Launch => {
                        exists_with_flow_config(&registered, "launch", *component_name)
                    },
                    ComponentType::Regulator => {
                        exists_with_flow_config(&registered, "regulator", *component_name)
                    },
                    _ => false,
                };
                if in_connections_but_missing_reqd_config {
                    acc.insert(
                        ConfigLintWarning::InFlowConnectionButMissingConfig {
                            component_type: **component_type,
                            component_name: component_name.to_owned().to_string()
                        }
                    );
                }
                acc
            } /*@ proof { assert forall|x: Warning| #[trigger] errs.s().contains(x) <==> amiss(c, x) by { lemma_missing(mm, kn, c, x); } } @*/
        );

        errs
    }
//@end
}
}
}
