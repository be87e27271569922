//! C13 lint, C14 edits: configurations.

use crate::common::*;
use crate::ensure;
use pipeawesome2::config::*;
use pipeawesome2::connectable::{Breakable, InputPort, OutputPort};
use std::collections::{BTreeMap, HashMap, HashSet};

pub const TYPES: [ComponentType; 6] = [ComponentType::Faucet, ComponentType::Launch, ComponentType::Junction, ComponentType::Buffer, ComponentType::Drain, ComponentType::Regulator];

/// one mention of a component in a connection list
#[derive(Clone, Debug, PartialEq)]
pub struct El { pub ct: ComponentType, pub name: String, pub pol: Breakable, pub prio: isize, pub port: OutputPort, pub set: Option<String> }

pub fn letter(ct: ComponentType) -> &'static str {
    match ct { ComponentType::Faucet => "f", ComponentType::Launch => "l", ComponentType::Junction => "j", ComponentType::Buffer => "b", ComponentType::Drain => "d", ComponentType::Regulator => "r" }
}
pub fn full(ct: ComponentType) -> &'static str {
    match ct { ComponentType::Faucet => "faucet", ComponentType::Launch => "launch", ComponentType::Junction => "junction", ComponentType::Buffer => "buffer", ComponentType::Drain => "drain", ComponentType::Regulator => "regulator" }
}
pub fn port_letter(p: &OutputPort) -> &'static str { match p { OutputPort::Out => "O", OutputPort::Err => "E", OutputPort::Exit => "X" } }
pub fn start(e: &El) -> Connection { Connection::StartConnection { component_type: e.ct, component_name: e.name.clone(), output_port: e.port.clone(), connection_set: e.set.clone() } }
pub fn middle(e: &El) -> Connection { Connection::MiddleConnection { component_type: e.ct, component_name: e.name.clone(), input_port: InputPort { breakable: e.pol.clone(), priority: e.prio }, output_port: e.port.clone(), connection_set: e.set.clone() } }
pub fn end(e: &El) -> Connection { Connection::EndConnection { component_type: e.ct, component_name: e.name.clone(), input_port: InputPort { breakable: e.pol.clone(), priority: e.prio }, connection_set: e.set.clone() } }
/// the connection list that mentions these, one after the other
pub fn conns(els: &[El], open_end: bool) -> Vec<Connection> {
    let n = els.len();
    els.iter().enumerate().map(|(i, e)| if i == 0 { start(e) } else if i + 1 == n && !open_end { end(e) } else { middle(e) }).collect()
}
/// the same as a join string
pub fn join(rng: &mut Rng, els: &[El]) -> String {
    let n = els.len();
    let mut s = String::new();
    for (i, e) in els.iter().enumerate() {
        if i > 0 {
            let sp = |r: &mut Rng| " ".repeat(r.below(3));
            s.push_str(&sp(rng));
            s.push_str(match e.pol { Breakable::Terminate => if rng.chance(1, 3) { "|T|" } else { "|" }, Breakable::Finish => "|F|", Breakable::Consume => "|C|" });
            s.push_str(&sp(rng));
            if e.prio != 0 || rng.chance(1, 5) { s.push_str(&format!("[{}]", e.prio)); }
        }
        s.push_str(if rng.chance(1, 3) { full(e.ct) } else { letter(e.ct) });
        s.push(':');
        s.push_str(&e.name);
        if i + 1 < n && (e.port != OutputPort::Out || rng.chance(1, 5)) { s.push_str(&format!("[{}]", port_letter(&e.port))); }
    }
    s
}

pub fn name(rng: &mut Rng, words: &[String]) -> String {
    let own: Vec<&String> = words.iter().filter(|w| w.len() < 40 && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).collect();
    if !own.is_empty() && rng.chance(1, 3) { return (*rng.pick(&own)).clone(); }
    rng.pick(&["a", "b", "c", "tap", "main", "A", "a_1", "1", "_", "junction", "junction_1", "junction_2", "faucet", "regulator", "drain", "launch", "buffer", "Buffer", "auto_ignored_exit", "auto_ignored_exit_1", "x", "y", "in", "out"]).to_string()
}
pub fn policy(rng: &mut Rng) -> Breakable { rng.pick(&[Breakable::Terminate, Breakable::Terminate, Breakable::Finish, Breakable::Consume]).clone() }
pub fn out_port(rng: &mut Rng) -> OutputPort { rng.pick(&[OutputPort::Out, OutputPort::Out, OutputPort::Err, OutputPort::Exit]).clone() }
pub fn el(rng: &mut Rng, pool: &[(ComponentType, String)]) -> El {
    let (ct, name) = rng.pick(pool).clone();
    let prio = match rng.below(5) { 0 => -(rng.below(9) as isize), 1 | 2 => rng.below(9) as isize, _ => 0 };
    El { ct, name, pol: policy(rng), prio, port: out_port(rng), set: None }
}
/// a list of at least two mentions
pub fn els(rng: &mut Rng, pool: &[(ComponentType, String)]) -> Vec<El> { let n = rng.range(2, 5); (0..n).map(|_| el(rng, pool)).collect() }
/// a few components, the same name under several types
pub fn pool(rng: &mut Rng, words: &[String], n: usize) -> Vec<(ComponentType, String)> {
    let names: Vec<String> = (0..(n / 2 + 1)).map(|_| name(rng, words)).collect();
    (0..n).map(|_| (*rng.pick(&TYPES), rng.pick(&names).clone())).collect()
}
pub fn key(rng: &mut Rng, i: usize, words: &[String]) -> String { match rng.below(4) { 0 => format!("{}_{}", name(rng, words), i), 1 => format!("k{}", i), 2 => name(rng, words), _ => format!("conn {}", i) } }

pub fn launch_config(rng: &mut Rng) -> LaunchConfig {
    let mut env = HashMap::new();
    for _ in 0..rng.below(3) { env.insert(text(rng), text(rng)); }
    LaunchConfig { command: if rng.chance(1, 4) { None } else { Some(text(rng)) }, path: if rng.chance(1, 2) { None } else { Some(text(rng)) }, env, arg: (0..rng.below(4)).map(|_| text(rng)).collect() }
}
pub fn text(rng: &mut Rng) -> String { rng.pick(&["", "-", "_", "a", "b", "/tmp/x y", "A=B", "é", "a b", "--flag", "1", "line\nline", "0"]).to_string() }

const BROKEN: [&str; 14] = ["f:tap", "f:tap |", "| d:x", "f:tap d:x", "f:tap || d:x", "z:tap | d:x", "f:tap |Q| d:x", "f: | d:x", "nonsense", "f:tap[Z] | d:x", " ", "faucets:a | d:x", "f:a | d:x |", "f:a|F|F|d:b"];

/// a configuration and its connections, each as mentions (None: a join string that is none)
pub fn config(rng: &mut Rng, words: &[String], broken: bool) -> (Config, BTreeMap<String, Option<Vec<El>>>) {
    let n = rng.range(1, 8);
    let ps = pool(rng, words, n);
    let mut c = Config::new();
    let mut lists = BTreeMap::new();
    let lots = rng.below(5);
    for i in 0..lots {
        let k = key(rng, i, words);
        if broken && rng.chance(1, 2) {
            let s = rng.pick(&BROKEN).to_string();
            c.connection.insert(k.clone(), DeserializedConnection::JoinString(s));
            lists.insert(k, None);
            continue;
        }
        let es = els(rng, &ps);
        if rng.chance(1, 8) {
            // nothing at all
            c.connection.insert(k.clone(), if rng.chance(1, 2) { DeserializedConnection::JoinString("".into()) } else { DeserializedConnection::Connections(vec![]) });
            lists.insert(k, Some(vec![]));
        } else if rng.chance(1, 2) {
            let s = join(rng, &es);
            c.connection.insert(k.clone(), DeserializedConnection::JoinString(s));
            lists.insert(k, Some(es));
        } else {
            c.connection.insert(k.clone(), DeserializedConnection::Connections(conns(&es, false)));
            lists.insert(k, Some(es));
        }
    }
    // mostly what is mentioned is configured, and the other way around
    let slip = rng.below(4);
    let mut all: Vec<(ComponentType, String)> = lists.values().flatten().flatten().map(|e| (e.ct, e.name.clone())).collect();
    all.extend(ps.iter().filter(|_| slip > 1).cloned());
    for (ct, nm) in all {
        if slip > 0 && rng.chance(1, 6) { continue; }
        match ct {
            ComponentType::Faucet => { c.faucet.insert(nm, FaucetConfig { source: text(rng) }); },
            ComponentType::Drain => { c.drain.insert(nm, DrainConfig { destination: text(rng) }); },
            ComponentType::Launch => { c.launch.insert(nm, launch_config(rng)); },
            ComponentType::Regulator => {
                let mut mb = vec![];
                for _ in 0..rng.below(3) {
                    let b: Vec<String> = if rng.chance(2, 3) { ps.iter().filter(|p| p.0 == ComponentType::Buffer).map(|p| p.1.clone()).collect() } else { ps.iter().map(|p| p.1.clone()).collect() };
                    if b.is_empty() { continue; }
                    mb.push(rng.pick(&b).clone());
                }
                c.regulator.insert(nm, RegulatorConfig { buffered: if rng.chance(1, 2) { None } else { Some((rng.below(5), rng.range(5, 9))) }, monitored_buffers: mb });
            },
            _ => {}
        }
    }
    (c, lists)
}

/// what lint has to say
pub fn model(c: &Config, lists: &BTreeMap<String, Option<Vec<El>>>) -> HashSet<ConfigLintWarning> {
    let mut w = HashSet::new();
    for (k, d) in &c.connection {
        if let (DeserializedConnection::JoinString(s), None) = (d, &lists[k]) { w.insert(ConfigLintWarning::InvalidConnection { id: k.clone(), join: s.clone() }); }
    }
    if !w.is_empty() { return w; }
    let flow: Vec<(ComponentType, String)> = lists.values().flatten().flatten().map(|e| (e.ct, e.name.clone())).collect();
    let has = |ct: ComponentType, n: &str| flow.iter().any(|x| x.0 == ct && x.1 == n);
    for (r, rc) in &c.regulator {
        for b in &rc.monitored_buffers {
            if !has(ComponentType::Buffer, b) { w.insert(ConfigLintWarning::RegulatorWatchingMissingBuffer { config_section: format!("regulator[\"{}\"].monitored_buffers", r), component_type: ComponentType::Buffer, component_name: b.clone() }); }
        }
    }
    let conf: Vec<(&str, ComponentType, Vec<String>)> = vec![
        ("faucet", ComponentType::Faucet, c.faucet.keys().cloned().collect()), ("drain", ComponentType::Drain, c.drain.keys().cloned().collect()),
        ("regulator", ComponentType::Regulator, c.regulator.keys().cloned().collect()), ("launch", ComponentType::Launch, c.launch.keys().cloned().collect())];
    for (sec, ct, names) in &conf {
        for n in names {
            if !has(*ct, n) { w.insert(ConfigLintWarning::InConfigButMissingFlowConnection { config_section: sec.to_string(), component_type: *ct, component_name: n.clone() }); }
        }
        for (t, n) in &flow {
            if t == ct && !names.contains(n) { w.insert(ConfigLintWarning::InFlowConnectionButMissingConfig { component_type: *t, component_name: n.clone() }); }
        }
    }
    w
}

pub fn json(c: &Config) -> String { serde_json::to_string(c).unwrap() }

fn lint_case(c: &Config, lists: &BTreeMap<String, Option<Vec<El>>>) -> Result<HashSet<ConfigLintWarning>, String> {
    let mut after = c.clone();
    let got = Config::lint(&mut after);
    let want = model(c, lists);
    let missing: Vec<_> = want.difference(&got).collect();
    let more: Vec<_> = got.difference(&want).collect();
    ensure!(missing.is_empty() && more.is_empty(), "lint does not report {:?} and reports {:?} without reason", missing, more);
    let mut expect = c.clone();
    for (k, d) in expect.connection.iter_mut() {
        if let (DeserializedConnection::JoinString(_), Some(es)) = (&*d, &lists[k]) { *d = DeserializedConnection::Connections(conns(es, false)); }
    }
    ensure!(after == expect, "after lint the configuration is {} instead of {}", json(&after), json(&expect));
    Ok(want)
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule = "configurations whose flow, settings or join strings differ".into();
    let words = ctx.words.clone();
    let n = ctx.n(4000, 60000);
    ctx.group("lint", 0, n, 0.5, |rng, i| {
        let (c, lists) = config(rng, &words, i % 4 == 3);
        describe(json(&c));
        lint_case(&c, &lists)?;
        Ok(())
    });
    // every type: configured or not, mentioned or not, a namesake of another type configured or mentioned
    let combos = 6 * 6 * 16;
    ctx.group("namesakes", 100_000, combos, 0.2, |_rng, i| {
        let i = i as usize;
        let (a, b, bits) = (TYPES[i % 6], TYPES[i / 6 % 6], i / 36);
        let mut c = Config::new();
        let mut put = |ct: ComponentType| match ct {
            ComponentType::Faucet => { c.faucet.insert("n".into(), FaucetConfig { source: "".into() }); },
            ComponentType::Drain => { c.drain.insert("n".into(), DrainConfig { destination: "".into() }); },
            ComponentType::Launch => { c.launch.insert("n".into(), LaunchConfig { command: Some("x".into()), path: None, env: HashMap::new(), arg: vec![] }); },
            ComponentType::Regulator => { c.regulator.insert("n".into(), RegulatorConfig { buffered: None, monitored_buffers: vec!["n".into()] }); },
            _ => {}
        };
        if bits & 1 != 0 { put(a); }
        if bits & 2 != 0 { put(b); }
        let e = |ct: ComponentType, nm: &str| El { ct, name: nm.into(), pol: Breakable::Terminate, prio: 0, port: OutputPort::Out, set: None };
        let mut es = vec![e(ComponentType::Junction, "in")];
        if bits & 4 != 0 { es.push(e(a, "n")); }
        if bits & 8 != 0 { es.push(e(b, "n")); }
        es.push(e(ComponentType::Junction, "out"));
        let mut lists = BTreeMap::new();
        c.connection.insert("k".into(), DeserializedConnection::Connections(conns(&es, false)));
        lists.insert("k".to_string(), Some(es));
        describe(json(&c));
        lint_case(&c, &lists)?;
        Ok(())
    });
    let n = ctx.n(40, 400);
    let pa2 = ctx.pa2.clone();
    ctx.group("config lint", 200_000, n, 0.3, |rng, i| {
        let (c, lists) = config(rng, &words, i % 4 == 3);
        let want = model(&c, &lists);
        let dir = Scratch::new("lint");
        let f = dir.write("c.json", json(&c).as_bytes());
        let mut cmd = std::process::Command::new(&pa2);
        cmd.args(&["config", "--format", "json", "--config", &f, "lint"]);
        describe(format!("pa2 config lint: {}", json(&c)));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out, "config lint does not end");
        if want.is_empty() {
            ensure!(o.code == Some(0), "config lint of a consistent configuration ends with {:?}: {}", o.code, show(&o.err));
        } else {
            ensure!(o.code == Some(1), "config lint ends with {:?} although there is to warn about {:?}", o.code, want);
            ensure!(o.out.is_empty(), "config lint prints {}", show(&o.out));
            let mut said: Vec<String> = String::from_utf8_lossy(&o.err).split(" * ").filter(|l| l.starts_with("PA: Error")).map(|l| l.trim().to_string()).collect();
            let mut should: Vec<String> = want.iter().map(|w| w.to_string().trim().to_string()).collect();
            said.sort();
            should.sort();
            ensure!(said == should, "config lint says {:?} instead of {:?}", said, should);
        }
        Ok(())
    });
}

enum Edit { Src(String, String), Dst(String, String), Water(String, usize, usize), Join(String, DeserializedConnection), Cmd(String, String), Path(String, String), Args(String, Vec<String>), Env(String, HashMap<String, String>) }

fn edit(rng: &mut Rng, c: &Config, words: &[String]) -> Edit {
    let which = rng.below(8);
    // an item there is, a namesake of another section, or a new one
    let mut ids: Vec<String> = match which { 0 => c.faucet.keys().cloned().collect(), 1 => c.drain.keys().cloned().collect(), 2 => c.regulator.keys().cloned().collect(), 3 => c.connection.keys().cloned().collect(), _ => c.launch.keys().cloned().collect() };
    if rng.chance(1, 4) { ids = c.faucet.keys().chain(c.drain.keys()).chain(c.launch.keys()).chain(c.regulator.keys()).cloned().collect(); }
    ids.sort();
    let id = if ids.is_empty() || rng.chance(1, 4) { name(rng, words) } else { rng.pick(&ids).clone() };
    match which {
        0 => Edit::Src(id, text(rng)),
        1 => Edit::Dst(id, text(rng)),
        2 => { let (a, b) = match rng.below(6) { 0 => (0, 0), 1 => (7, 7), 2 => (rng.below(9), 0), 3 => (usize::MAX, rng.below(9)), _ => (rng.below(20), rng.below(20)) }; Edit::Water(id, a, b) },
        3 => {
            let n = rng.range(1, 5);
            let ps = pool(rng, words, n);
            let es = els(rng, &ps);
            Edit::Join(id, if rng.chance(1, 2) { let s = join(rng, &es); DeserializedConnection::JoinString(s) } else { DeserializedConnection::Connections(conns(&es, false)) })
        },
        4 => Edit::Cmd(id, text(rng)),
        5 => Edit::Path(id, text(rng)),
        6 => Edit::Args(id, (0..rng.below(4)).map(|_| text(rng)).collect()),
        _ => Edit::Env(id, (0..rng.below(4)).map(|_| (text(rng), text(rng))).collect()),
    }
}

/// what an edit has to make of a configuration
fn edited(c: &Config, e: &Edit) -> Config {
    let mut m = c.clone();
    let fresh = || LaunchConfig { command: None, path: None, env: HashMap::new(), arg: vec![] };
    match e {
        Edit::Src(i, s) => { m.faucet.insert(i.clone(), FaucetConfig { source: s.clone() }); },
        Edit::Dst(i, s) => { m.drain.insert(i.clone(), DrainConfig { destination: s.clone() }); },
        Edit::Water(i, a, b) => {
            let mb = m.regulator.get(i).map(|r| r.monitored_buffers.clone()).unwrap_or_default();
            m.regulator.insert(i.clone(), RegulatorConfig { buffered: Some(((*a).min(*b), (*a).max(*b))), monitored_buffers: mb });
        },
        Edit::Join(i, d) => { m.connection.insert(i.clone(), d.clone()); },
        Edit::Cmd(i, s) => { let mut l = m.launch.remove(i).unwrap_or_else(fresh); l.command = Some(s.clone()); m.launch.insert(i.clone(), l); },
        Edit::Path(i, s) => { let mut l = m.launch.remove(i).unwrap_or_else(fresh); l.path = Some(s.clone()); m.launch.insert(i.clone(), l); },
        Edit::Args(i, s) => { let mut l = m.launch.remove(i).unwrap_or_else(fresh); l.arg = s.clone(); m.launch.insert(i.clone(), l); },
        Edit::Env(i, s) => { let mut l = m.launch.remove(i).unwrap_or_else(fresh); l.env = s.clone(); m.launch.insert(i.clone(), l); },
    }
    m
}

fn apply(c: Config, e: &Edit) -> Config {
    match e {
        Edit::Src(i, s) => Config::faucet_set_source(c, i.clone(), s.clone()),
        Edit::Dst(i, s) => Config::drain_set_destination(c, i.clone(), s.clone()),
        Edit::Water(i, a, b) => Config::regulator_set_watermark(c, i.clone(), *a, *b),
        Edit::Join(i, d) => Config::connection_join(c, i.clone(), d.clone()),
        Edit::Cmd(i, s) => Config::launch_set_command(c, i.clone(), s.clone()),
        Edit::Path(i, s) => Config::launch_set_path(c, i.clone(), s.clone()),
        Edit::Args(i, s) => Config::launch_set_args(c, i.clone(), s.clone()),
        Edit::Env(i, s) => Config::launch_set_env(c, i.clone(), s.clone()),
    }
}

fn told(e: &Edit) -> String {
    match e {
        Edit::Src(i, s) => format!("faucet {:?} source {:?}", i, s),
        Edit::Dst(i, s) => format!("drain {:?} destination {:?}", i, s),
        Edit::Water(i, a, b) => format!("regulator {:?} watermark {} {}", i, a, b),
        Edit::Join(i, d) => format!("connection {:?} join {}", i, serde_json::to_string(d).unwrap()),
        Edit::Cmd(i, s) => format!("launch {:?} command {:?}", i, s),
        Edit::Path(i, s) => format!("launch {:?} path {:?}", i, s),
        Edit::Args(i, s) => format!("launch {:?} args {:?}", i, s),
        Edit::Env(i, s) => format!("launch {:?} env {:?}", i, s),
    }
}

/// the command line that asks for an edit; None if it cannot
fn asked(e: &Edit) -> Option<Vec<String>> {
    let v = |a: &[&str]| Some(a.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let plain = |s: &str| !s.starts_with('-') || s == "-";
    match e {
        Edit::Src(i, s) if plain(s) => v(&["faucet", "--id", i, "source", s]),
        Edit::Dst(i, s) if plain(s) => v(&["drain", "--id", i, "destination", s]),
        Edit::Water(i, a, b) => v(&["regulator", "--id", i, "watermark", &a.to_string(), &b.to_string()]),
        Edit::Join(i, DeserializedConnection::JoinString(s)) => v(&["connection", "--id", i, "join", s]),
        Edit::Join(i, d) => v(&["connection", "--id", i, "join", &serde_json::to_string(d).unwrap()]),
        Edit::Cmd(i, s) if plain(s) => v(&["launch", "--id", i, "command", s]),
        Edit::Path(i, s) if plain(s) => v(&["launch", "--id", i, "path", s]),
        Edit::Args(i, s) if !s.is_empty() && s.iter().all(|x| plain(x)) => { let mut a = v(&["launch", "--id", i, "args"])?; a.extend(s.iter().cloned()); Some(a) },
        Edit::Env(i, s) if !s.is_empty() && s.keys().all(|k| plain(k) && !k.is_empty() && !k.contains('=')) => { let mut a = v(&["launch", "--id", i, "env"])?; a.extend(s.iter().map(|(k, x)| format!("{}={}", k, x))); Some(a) },
        _ => None,
    }
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "configurations and edits that differ".into();
    let words = ctx.words.clone();
    let n = ctx.n(3000, 40000);
    let sizes = ctx.sizes(0, usize::MAX);
    ctx.group("edits", 0, n, 0.6, |rng, i| {
        let (mut c, _) = config(rng, &words, i % 3 == 0);
        let first = json(&c);
        let mut story = vec![];
        for _ in 0..rng.range(1, 4) {
            let mut e = edit(rng, &c, &words);
            if let Edit::Water(_, a, _) = &mut e { if !sizes.is_empty() && rng.chance(1, 3) { *a = *rng.pick(&sizes); } }
            story.push(told(&e));
            describe(format!("{}: {}", first, story.join("; ")));
            let want = edited(&c, &e);
            let got = apply(c, &e);
            ensure!(got == want, "the configuration becomes {} instead of {}", json(&got), json(&want));
            c = got;
        }
        Ok(())
    });
    let n = ctx.n(60, 500);
    let pa2 = ctx.pa2.clone();
    ctx.group("config commands", 100_000, n, 0.4, |rng, _| {
        let (c, _) = config(rng, &words, false);
        let (e, args) = loop { let e = edit(rng, &c, &words); if let Some(a) = asked(&e) { break (e, a); } };
        let dir = Scratch::new("edit");
        let f = dir.write("c.json", json(&c).as_bytes());
        let mut cmd = std::process::Command::new(&pa2);
        cmd.args(&["config", "--format", "json", "--config", &f]).args(&args);
        describe(format!("pa2 config {:?} on {}", args, json(&c)));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out && o.code == Some(0), "{} ends with {:?}: {}", told(&e), o.code, show(&o.err));
        let want = edited(&c, &e);
        let got: Config = serde_json::from_slice(&o.out).map_err(|x| format!("{} prints {}, which is no configuration: {}", told(&e), show(&o.out), x))?;
        ensure!(got == want, "the configuration becomes {} instead of {}", json(&got), json(&want));
        Ok(())
    });
}

/// an edge between two components
#[derive(Clone, Debug, PartialEq)]
struct E { from: (ComponentType, String, OutputPort), sset: Option<String>, to: (ComponentType, String), pol: Breakable, prio: isize, dset: Option<String> }

fn edge_of(d: &DeserializedConnection) -> Result<E, String> {
    if let DeserializedConnection::Connections(v) = d {
        if let [Connection::StartConnection { component_type: a, component_name: an, output_port, connection_set: sset }, Connection::EndConnection { component_type: b, component_name: bn, input_port, connection_set: dset }] = v.as_slice() {
            return Ok(E { from: (*a, an.clone(), output_port.clone()), sset: sset.clone(), to: (*b, bn.clone()), pol: input_port.breakable.clone(), prio: input_port.priority, dset: dset.clone() });
        }
    }
    Err(format!("{} is not one edge", serde_json::to_string(d).unwrap()))
}
fn edges_of(m: &BTreeMap<String, DeserializedConnection>) -> Result<Vec<(String, E)>, String> { m.iter().map(|(k, d)| Ok((k.clone(), edge_of(d)?))).collect() }
fn sorted(es: &[E]) -> Vec<String> { let mut v: Vec<String> = es.iter().map(|e| format!("{:?}", e)).collect(); v.sort(); v }

/// configurations whose lists share components, with keys and names like generated ones
fn wiring(rng: &mut Rng, words: &[String], launches: bool) -> (Config, Vec<E>) {
    let n = rng.range(2, 7);
    let mut ps = pool(rng, words, n);
    if launches { for p in ps.iter_mut() { if rng.chance(1, 2) { p.0 = ComponentType::Launch; } } }
    for p in ps.iter_mut() {
        if p.0 == ComponentType::Junction && rng.chance(1, 2) { p.1 = rng.pick(&["junction", "junction_1", "junction_2", "junction_3", "junction_1_1", "dyn_connection_1"]).to_string(); }
        if p.0 == ComponentType::Drain && rng.chance(1, 2) { p.1 = rng.pick(&["dyn_drain", "dyn_drain_1", "dyn_drain_2", "junction_1"]).to_string(); }
    }
    let mut c = Config::new();
    let mut edges = vec![];
    for i in 0..rng.below(5) {
        let k = match rng.below(3) { 0 => rng.pick(&["main", "main_1", "main_1_1", "main_2", "main_10", "dyn_connection", "dyn_connection_1", "dyn_connection_2", "dyn_connection_1_1", ""]).to_string(), _ => key(rng, i, words) };
        if c.connection.contains_key(&k) { continue; }
        let mut es = if rng.chance(1, 10) { vec![] } else { els(rng, &ps) };
        if rng.chance(1, 6) { let n = rng.range(2, 14); es = (0..n).map(|_| el(rng, &ps)).collect(); }
        if rng.chance(1, 2) {
            c.connection.insert(k, DeserializedConnection::JoinString(join(rng, &es)));
        } else {
            for e in es.iter_mut() { if rng.chance(1, 6) { e.set = Some(name(rng, words)); } }
            c.connection.insert(k, DeserializedConnection::Connections(conns(&es, false)));
        }
        edges.extend(es.windows(2).map(|w| E { from: (w[0].ct, w[0].name.clone(), w[0].port.clone()), sset: w[0].set.clone(), to: (w[1].ct, w[1].name.clone()), pol: w[1].pol.clone(), prio: w[1].prio, dset: w[1].set.clone() }));
    }
    for (ct, nm) in &ps {
        match ct {
            ComponentType::Faucet => { c.faucet.insert(nm.clone(), FaucetConfig { source: text(rng) }); },
            ComponentType::Drain => { c.drain.insert(nm.clone(), DrainConfig { destination: text(rng) }); },
            ComponentType::Launch => { c.launch.insert(nm.clone(), launch_config(rng)); },
            ComponentType::Regulator => { c.regulator.insert(nm.clone(), RegulatorConfig { buffered: None, monitored_buffers: vec![] }); },
            _ => {}
        }
    }
    if rng.chance(1, 4) { c.drain.insert("dyn_drain_1".into(), DrainConfig { destination: text(rng) }); }
    (c, edges)
}

/// f has to be t with junctions where outputs or inputs are shared
fn junctions_between(t: &[(Option<String>, E)], f: &[(String, E)]) -> Result<(), String> {
    let used: HashSet<&String> = t.iter().flat_map(|(_, e)| vec![(&e.from.0, &e.from.1), (&e.to.0, &e.to.1)]).filter(|x| *x.0 == ComponentType::Junction).map(|x| x.1).collect();
    let inserted = |ct: ComponentType, n: &String| ct == ComponentType::Junction && !used.contains(n);
    let jn = |e: &E| inserted(e.to.0, &e.to.1);
    let nj = |e: &E| inserted(e.from.0, &e.from.1);
    for (k, e) in f {
        if e.from.0 != ComponentType::Junction { ensure!(f.iter().filter(|x| x.1.from == e.from).count() == 1, "more than one edge leaves {:?}", e.from); }
        if e.to.0 != ComponentType::Junction { ensure!(f.iter().filter(|x| x.1.to == e.to).count() == 1, "more than one edge arrives at {:?}", e.to); }
        if jn(e) && nj(e) { continue; }
        let legs = |p: &E| (!jn(e) || p.from == e.from) && (!nj(e) || p.to == e.to) && p.pol == e.pol && p.prio == e.prio;
        ensure!(t.iter().any(|x| legs(&x.1)) || e.pol == Breakable::Finish, "{} is {:?}, which is neither an edge's own leg nor one of a junction's own, which finish", k, e);
    }
    fn paths(f: &[(String, E)], at: &E, to: &(ComponentType, String), inserted: &dyn Fn(ComponentType, &String) -> bool, depth: usize) -> Result<Vec<Vec<E>>, String> {
        if at.to == *to { return Ok(vec![vec![at.clone()]]); }
        if !inserted(at.to.0, &at.to.1) { return Ok(vec![]); }
        ensure!(depth < 12, "inserted junctions go in circles");
        let mut all = vec![];
        for (_, n) in f.iter().filter(|x| (x.1.from.0, &x.1.from.1) == (at.to.0, &at.to.1)) {
            for mut p in paths(f, n, to, inserted, depth + 1)? { p.insert(0, at.clone()); all.push(p); }
        }
        Ok(all)
    }
    let mut froms: Vec<_> = t.iter().map(|x| x.1.from.clone()).collect();
    for x in f { if !inserted(x.1.from.0, &x.1.from.1) { froms.push(x.1.from.clone()); } }
    let mut tos: Vec<_> = t.iter().map(|x| x.1.to.clone()).collect();
    for x in f { if !inserted(x.1.to.0, &x.1.to.1) { tos.push(x.1.to.clone()); } }
    froms.sort_by_key(|x| format!("{:?}", x));
    froms.dedup();
    tos.sort_by_key(|x| format!("{:?}", x));
    tos.dedup();
    for p in &froms {
        for q in &tos {
            let direct: Vec<&E> = t.iter().map(|x| &x.1).filter(|e| e.from == *p && e.to == *q).collect();
            let mut ways = vec![];
            for (_, e) in f.iter().filter(|x| x.1.from == *p) { ways.extend(paths(f, e, q, &inserted, 0)?); }
            ensure!(ways.len() == direct.len(), "{:?} reaches {:?} on {} ways instead of {}", p, q, ways.len(), direct.len());
            for e in &direct {
                let same = direct.iter().filter(|x| x.pol == e.pol && x.prio == e.prio).count();
                ensure!(ways.iter().filter(|w| w.iter().any(|x| x.pol == e.pol && x.prio == e.prio)).count() >= same, "{:?} has no leg of its own policy and priority on {:?}", e, ways);
            }
        }
    }
    for (k, e) in t {
        let shared = t.iter().filter(|x| x.1.from == e.from).count() > 1 || t.iter().filter(|x| x.1.to == e.to).count() > 1;
        if !shared { ensure!(f.iter().any(|x| k.as_ref().map_or(true, |k| *k == x.0) && x.1 == *e), "{:?} {:?} needs no junction and has changed", k, e); }
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    use pipeawesome2::config_manip::*;
    ctx.rule = "configurations whose connection lists differ".into();
    let words = ctx.words.clone();
    let n = ctx.n(6000, 60000);
    ctx.group("pairs", 0, n, 0.4, |rng, _| {
        let (c, edges) = wiring(rng, &words, false);
        describe(json(&c));
        let r = connection_manipulation_light(c.clone());
        let got: Vec<E> = edges_of(&r.connection)?.into_iter().map(|x| x.1).collect();
        ensure!(sorted(&got) == sorted(&edges), "the pairs are {:?} instead of {:?}", got, edges);
        let rest = Config { connection: c.connection.clone(), ..r };
        ensure!(rest == c, "pairing changes the configuration to {}", json(&rest));
        Ok(())
    });
    let n = ctx.n(6000, 60000);
    ctx.group("junctions", 100_000, n, 0.6, |rng, _| {
        let (c, edges) = wiring(rng, &words, false);
        describe(json(&c));
        // pairs under keys of any kind
        let mut t = BTreeMap::new();
        for (i, e) in edges.iter().enumerate() {
            let k = match rng.below(3) { 0 => format!("dyn_connection_{}", i + rng.below(2)), 1 => format!("junction_{}", i), _ => key(rng, i, &words) };
            t.insert(k, DeserializedConnection::Connections(vec![
                Connection::StartConnection { component_type: e.from.0, component_name: e.from.1.clone(), output_port: e.from.2.clone(), connection_set: e.sset.clone() },
                Connection::EndConnection { component_type: e.to.0, component_name: e.to.1.clone(), input_port: InputPort { breakable: e.pol.clone(), priority: e.prio }, connection_set: e.dset.clone() }]));
        }
        describe(serde_json::to_string(&t).unwrap());
        let before: Vec<(Option<String>, E)> = edges_of(&t)?.into_iter().map(|(k, e)| (Some(k), e)).collect();
        let f = add_junctions(t);
        junctions_between(&before, &edges_of(&f)?)
    });
    let n = ctx.n(30, 300);
    let pa2 = ctx.pa2.clone();
    ctx.group("config manipulate", 100_000, n, 0.2, |rng, _| {
        let (c, edges) = wiring(rng, &words, false);
        let dir = Scratch::new("manipulate");
        let f = dir.write("c.json", json(&c).as_bytes());
        let mut cmd = std::process::Command::new(&pa2);
        cmd.args(&["config", "--format", "json", "--config", &f, "manipulate"]);
        describe(format!("pa2 config manipulate: {}", json(&c)));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out, "it does not end");
        ensure!(o.code == Some(0), "it ends with {:?}: {}", o.code, show(&o.err));
            let got: Config = serde_json::from_slice(&o.out).map_err(|x| format!("prints {}, which is no configuration: {}", show(&o.out), x))?;
            let es: Vec<E> = edges_of(&got.connection)?.into_iter().map(|x| x.1).collect();
            ensure!(sorted(&es) == sorted(&edges), "the pairs are {:?} instead of {:?}", es, edges);
        Ok(())
    });
}

/// what has to become of a configuration that is going to run
fn prepared(c: &Config, edges: &[E], r: &Config) -> Result<(), String> {
    let launches: HashSet<&String> = edges.iter().filter(|e| e.from.0 == ComponentType::Launch).map(|e| &e.from.1).collect();
    let exits: HashSet<&String> = edges.iter().filter(|e| e.from.0 == ComponentType::Launch && e.from.2 == OutputPort::Exit).map(|e| &e.from.1).collect();
    let all = edges_of(&r.connection)?;
    let news: HashSet<&String> = r.drain.keys().filter(|k| !c.drain.contains_key(*k)).collect();
    let is_spy = |e: &E| e.from.0 == ComponentType::Launch && e.from.2 == OutputPort::Exit && e.to.0 == ComponentType::Drain && !exits.contains(&e.from.1);
    let spies: Vec<&(String, E)> = all.iter().filter(|x| is_spy(&x.1)).collect();
    for l in &launches {
        let mine: Vec<_> = spies.iter().filter(|s| s.1.from.1 == **l).collect();
        let should = if exits.contains(l) { 0 } else { 1 };
        ensure!(mine.len() == should, "{} connections consume the exit status of launch {:?} where {} should be added", mine.len(), l, should);
        for s in mine {
            ensure!(news.contains(&s.1.to.1), "the exit status of launch {:?} goes to drain {:?}, which there was already", l, s.1.to.1);
            ensure!(r.drain[&s.1.to.1].destination == "/dev/null", "the exit status of launch {:?} goes to {:?}", l, r.drain[&s.1.to.1].destination);
            ensure!(all.iter().filter(|x| x.1.to == s.1.to).count() == 1, "drain {:?} has more than one input", s.1.to.1);
        }
    }
    ensure!(spies.len() == launches.len() - exits.len() && news.len() == spies.len(), "{} exit statuses are consumed by {} new drains, for {} launches", spies.len(), news.len(), launches.len() - exits.len());
    let mut rest = r.clone();
    rest.drain.retain(|k, _| c.drain.contains_key(k));
    rest.connection = c.connection.clone();
    ensure!(rest == *c, "the rest of the configuration becomes {}", json(&rest));
    let t: Vec<(Option<String>, E)> = edges.iter().map(|e| (None, e.clone())).collect();
    let f: Vec<(String, E)> = all.iter().filter(|x| !is_spy(&x.1)).cloned().collect();
    junctions_between(&t, &f)
}

pub fn c12(ctx: &mut Ctx) {
    use pipeawesome2::config_manip::*;
    ctx.rule = "configurations whose connection lists or drains differ".into();
    let words = ctx.words.clone();
    let n = ctx.n(6000, 60000);
    ctx.group("exit spies", 0, n, 0.8, |rng, _| {
        let (c, edges) = wiring(rng, &words, true);
        describe(json(&c));
        let r = connection_manipulation(c.clone());
        prepared(&c, &edges, &r)
    });
}
