//! C20: what is printed where.

use crate::common::*;
use crate::conf::*;
use crate::ensure;
use pipeawesome2::config::*;
use std::collections::BTreeMap;

fn command(l: &mut BTreeMap<String, serde_json::Value>, name: &str, script: &str) {
    l.insert(name.into(), serde_json::json!({ "cmd": "sh", "arg": ["-c", script] }));
}

/// What standard output holds: all of this, a beginning of this, or these lines in some order.
enum Want { All(Vec<u8>), Start(Vec<u8>), Lines(Vec<u8>) }

fn sorted_lines(b: &[u8]) -> Vec<Vec<u8>> { let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect(); v.sort(); v }

fn run_case(rng: &mut Rng, pa2: &std::path::Path) -> Result<(), String> {
    let dir = Scratch::new("stdout");
    let mut launch: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut faucet: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut drain: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut conns: BTreeMap<String, String> = BTreeMap::new();
    let lots = match rng.below(12) { 0 | 1 => 0, 2 => 1, 3 | 4 => rng.range(2, 9), 5 | 6 => rng.range(9, 200), 11 => rng.range(8000, 20000), _ => rng.range(200, 1500) };
    let mut data: Vec<u8> = (0..lots).flat_map(|i| format!("line {}\n", i).into_bytes()).collect();
    if lots > 0 && rng.chance(1, 4) { data.pop(); }
    let mut stdin = None;
    let mut end = "f:src".to_string();
    match rng.below(3) {
        0 => { stdin = Some(data.clone()); faucet.insert("src".into(), serde_json::json!({ "source": "-" })); },
        1 => { let f = dir.write("in.txt", &data); command(&mut launch, "src", &format!("cat {}", f)); end = "l:src".into(); },
        _ => { let f = dir.write("in.txt", &data); faucet.insert("src".into(), serde_json::json!({ "source": f })); },
    }
    let (mut fails, mut may_fail, mut start_only, mut lines_only) = (false, false, false, false);
    for k in 0..rng.below(4) {
        let n = format!("m{}", k);
        match rng.below(8) {
            0 => end += &format!(" | b:{}", n),
            1 => { command(&mut launch, &n, "cat"); end += &format!(" | l:{}", n); },
            2 => { command(&mut launch, &n, "echo noise; cat >&2; echo noise"); end += &format!(" | l:{}[E]", n); },
            3 => {
                // a program that closes its input early
                let k = rng.range(1, 3);
                command(&mut launch, &n, &format!("head -n {}; exec 0<&-; sleep 0.1", k));
                let pol = rng.pick(&["C", "F"]);
                // what comes before may find its output closed, where that is an error
                if *pol == "F" && end.contains(" |") { may_fail = true; }
                end += &format!(" |{}| l:{}", pol, n);
                let cut: Vec<u8> = data.split_inclusive(|c| *c == b'\n').take(k).flatten().copied().collect();
                data = cut;
            },
            4 | 5 => {
                // elsewhere, too: a program with unconnected outputs, a file, nowhere
                end += &format!(" | j:{}", n);
                let pol = rng.pick(&["C", "F", "T"]).to_string();
                match rng.below(4) {
                    0 => { command(&mut launch, &format!("{}s", n), *rng.pick(&["cat", "echo noise; exec 0<&-; sleep 0.1; echo noise", "true", "echo noise; echo noise >&2; cat; exit 3"])); conns.insert(format!("s{}", n), format!("j:{} |{}| l:{}s", n, pol, n)); if pol == "T" { may_fail = true; start_only = true; } },
                    1 => { drain.insert(format!("{}s", n), serde_json::json!({ "destination": dir.str("side") })); conns.insert(format!("s{}", n), format!("j:{} |{}| d:{}s", n, pol, n)); },
                    2 => { drain.insert(format!("{}s", n), serde_json::json!({ "destination": "/dev/null" })); conns.insert(format!("s{}", n), format!("j:{} |{}| d:{}s", n, pol, n)); },
                    _ => { drain.insert(format!("{}s", n), serde_json::json!({ "destination": "_" })); conns.insert(format!("s{}", n), format!("j:{} |{}| d:{}s", n, pol, n)); },
                }
            },
            6 => {
                // two ways that come together again
                end += &format!(" | j:{}", n);
                command(&mut launch, &format!("{}w", n), "sed 's/^/again: /'");
                conns.insert(format!("w{}", n), format!("j:{} | l:{}w | j:{}t", n, n, n));
                end += &format!(" | j:{}t", n);
                if data.last().map(|c| *c != b'\n').unwrap_or(false) { data.push(b'\n'); lines_only = true; }
                let more: Vec<u8> = data.split_inclusive(|c| *c == b'\n').flat_map(|l| [b"again: ".to_vec(), l.to_vec()].concat()).collect();
                data.extend(more);
                lines_only = true;
                break;
            },
            _ => {
                command(&mut launch, &n, "cat; exit 7");
                end += &format!(" | l:{}", n);
                if rng.chance(1, 2) { drain.insert(format!("{}x", n), serde_json::json!({ "destination": dir.str("exit") })); conns.insert(format!("x{}", n), format!("l:{}[X] | d:{}x", n, n)); }
            },
        }
    }
    if lines_only && data.last().map(|c| *c != b'\n').unwrap_or(false) { data.push(b'\n'); }
    drain.insert("out".into(), serde_json::json!({ "destination": "-" }));
    conns.insert("main".into(), end.clone() + " | d:out");
    // something else that goes wrong
    match rng.below(6) {
        0 => { launch.insert("no".into(), serde_json::json!({ "cmd": dir.str("no such program") })); drain.insert("no".into(), serde_json::json!({ "destination": "/dev/null" })); conns.insert("no".into(), "l:no | d:no".into()); fails = true; },
        1 => { faucet.insert("no".into(), serde_json::json!({ "source": dir.str("no such file") })); drain.insert("no".into(), serde_json::json!({ "destination": "/dev/null" })); conns.insert("no".into(), "f:no | d:no".into()); fails = true; },
        2 => { faucet.insert("fine".into(), serde_json::json!({ "source": "/dev/null" })); drain.insert("fine".into(), serde_json::json!({ "destination": "/dev/null" })); conns.insert("fine".into(), "f:fine | d:fine".into()); },
        _ => {},
    }
    let text = serde_json::json!({ "connection": conns, "launch": launch, "faucet": faucet, "drain": drain }).to_string();
    let f = dir.write("c.json", text.as_bytes());
    describe(format!("{} lines; {}", lots, text));
    let mut cmd = std::process::Command::new(pa2);
    cmd.args(&["process", "--format", "json", "--config", &f]).current_dir(dir.path("."));
    let o = run_program(cmd, stdin, 60);
    ensure!(!o.timed_out, "the run does not end");
    if !(fails || may_fail) { ensure!(o.code == Some(0), "the run ends with {:?}: {}", o.code, show(&o.err)); }
    if fails { ensure!(o.code == Some(1), "a component fails, and the run ends with {:?}", o.code); }
    if o.code != Some(0) { ensure!(o.code == Some(1) && !o.err.is_empty(), "the run ends with {:?} and prints {} on standard error", o.code, show(&o.err)); }
    let want = if lines_only && start_only { return Ok(()) } else if start_only && o.code != Some(0) { Want::Start(data) } else if lines_only { Want::Lines(data) } else { Want::All(data) };
    match want {
        Want::All(w) => ensure!(o.out == w, "standard output holds {} instead of {}", differ(&o.out, &w).0, differ(&o.out, &w).1),
        Want::Start(w) => ensure!(w.starts_with(&o.out), "standard output holds {}, no beginning of {}", differ(&o.out, &w).0, differ(&o.out, &w).1),
        Want::Lines(w) => {
            let mut got = o.out.clone();
            if got.last().map(|c| *c != b'\n').unwrap_or(false) { got.push(b'\n'); }
            // a last line without an end may be followed by another line
            let (a, b) = (sorted_lines(&got), sorted_lines(&w));
            let joined = a.concat().len() == b.concat().len();
            ensure!(a == b || (joined && a.len() == b.len() - 1 && lots > 0), "standard output holds {} lines ({}) instead of {} ({})", a.len(), show(&o.out), b.len(), show(&w));
        },
    }
    Ok(())
}
/// two texts from shortly before where they differ
fn differ(a: &[u8], b: &[u8]) -> (String, String) {
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count().saturating_sub(20);
    (format!("(from byte {} on) {}", n, show(&a[n.min(a.len())..])), show(&b[n.min(b.len())..]))
}

fn one_line(o: &Output, what: &str) -> Result<(), String> {
    if o.code == Some(0) {
        ensure!(o.out.last() == Some(&b'\n') && o.out.iter().filter(|c| **c == b'\n').count() == 1, "{} prints {}, which is not one line", what, show(&o.out));
        ensure!(serde_json::from_slice::<Config>(&o.out).is_ok(), "{} prints {}, which is no configuration", what, show(&o.out));
        ensure!(o.err.is_empty(), "{} prints {} on standard error", what, show(&o.err));
        Ok(())
    } else { refused(o, what) }
}
fn refused(o: &Output, what: &str) -> Result<(), String> {
    ensure!(o.code == Some(1), "{} ends with {:?}: {}", what, o.code, show(&o.err));
    ensure!(o.out.is_empty(), "{} fails and prints {}", what, show(&o.out));
    ensure!(!o.err.is_empty(), "{} fails and prints no error", what);
    Ok(())
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "runs and commands that differ".into();
    let words = ctx.words.clone();
    let pa2 = ctx.pa2.clone();
    let n = ctx.n(220, 3000);
    ctx.group("runs", 0, n, 0.6, |rng, _| run_case(rng, &pa2));
    let n = ctx.n(80, 800);
    ctx.group("config commands", 100_000, n, 0.2, |rng, i| {
        let (mut c, lists) = config(rng, &words, i % 2 == 0);
        if i % 4 == 1 {
            // one that is consistent
            c = Config::new();
            c.connection.insert("a".into(), DeserializedConnection::JoinString("f:a | b:b | d:d".into()));
            c.faucet.insert("a".into(), FaucetConfig { source: "-".into() });
            c.drain.insert("d".into(), DrainConfig { destination: "-".into() });
        }
        let dir = Scratch::new("command");
        let f = dir.write("c.json", json(&c).as_bytes());
        let mut cmd = std::process::Command::new(&pa2);
        cmd.args(&["config", "--format", "json", "--config", &f]);
        let (what, bad): (&[&str], bool) = match rng.below(8) {
            0 | 1 => (&["lint"], i % 4 != 1 && !model(&c, &lists).is_empty()),
            2 | 3 => (&["manipulate"], lists.values().any(|l| l.is_none()) && i % 4 != 1),
            4 => (&["faucet", "--id", "x", "source", "y"], false),
            5 => (&["drain", "--id", "x", "destination", "y"], false),
            6 => (&["connection", "--id", "x", "join", "f:a | d:b"], false),
            _ => (&["connection", "--id", "x", "join", "f:a || d:b"], true),
        };
        cmd.args(what);
        describe(format!("pa2 config {:?}: {}", what, json(&c)));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out, "it does not end");
        ensure!((o.code == Some(0)) != bad, "config {:?} ends with {:?}: {}", what, o.code, show(&o.err));
        one_line(&o, &format!("config {:?}", what))
    });
    let n = ctx.n(60, 400);
    ctx.group("refused", 200_000, n, 0.2, |rng, _| {
        let dir = Scratch::new("refused");
        let whole = |connection: &str, launch: &str, faucet: &str, drain: &str| format!("{{\"connection\":{{\"a\":{}}},\"launch\":{{{}}},\"faucet\":{{{}}},\"drain\":{{{}}}}}", connection, launch, faucet, drain);
        let (src, dst) = ("\"in\":{\"source\":\"/dev/null\"}", "\"out\":{\"destination\":\"-\"}");
        let (name, text) = match rng.below(6) {
            0 => ("c.json", "not a configuration".to_string()),
            1 => ("c.json", whole("\"f:in || d:out\"", "", src, dst)),
            2 => ("c.json", whole("\"f:in | d:out\"", "", "", dst)),
            3 => ("c.json", whole("\"f:in | d:out\"", "", src, "")),
            4 => ("c.json", whole("\"f:in | l:x | d:out\"", "", src, dst)),
            _ => ("c.yaml", "connection: [".to_string()),
        };
        let mut f = dir.write(name, text.as_bytes());
        if rng.chance(1, 8) { f = dir.str("missing.json"); }
        let mut cmd = std::process::Command::new(&pa2);
        let args: &[&str] = *rng.pick(&[&["process", "--config"] as &[&str], &["graph", "--config"], &["config", "--config"]]);
        cmd.args(args).arg(&f);
        if args[0] == "config" { cmd.arg("lint"); }
        describe(format!("pa2 {:?} {}: {}", args, f, text));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out, "it does not end");
        refused(&o, &format!("{:?}", args))
    });
    let n = ctx.n(40, 300);
    ctx.group("graph", 300_000, n, 1.0, |rng, _| {
        let m = rng.range(0, 4);
        let mut conns = BTreeMap::new();
        for k in 0..m { conns.insert(format!("c{}", k), format!("f:in | j:j{} | b:b{} | d:out", rng.below(3), k)); }
        let text = serde_json::json!({ "connection": conns, "launch": {}, "faucet": { "in": { "source": "-" } }, "drain": { "out": { "destination": "-" } } }).to_string();
        let dir = Scratch::new("graphed");
        let f = dir.write("c.json", text.as_bytes());
        let mut cmd = std::process::Command::new(&pa2);
        cmd.args(&["graph", "--config", &f]);
        let how = *rng.pick(&["", "--diagram-only", "--legend-only", "--legend-border"]);
        if !how.is_empty() { cmd.arg(how); }
        describe(format!("pa2 graph {} on {}", how, text));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out && o.code == Some(0) && o.err.is_empty(), "graph ends with {:?} and prints {} on standard error", o.code, show(&o.err));
        let t = String::from_utf8_lossy(&o.out).to_string();
        let t = t.trim();
        let (mut d, mut whole) = (0i64, 0);
        for c in t.chars() { if c == '{' { d += 1; } if c == '}' { d -= 1; if d == 0 { whole += 1; } } }
        ensure!((t.starts_with("strict digraph") || t.starts_with("digraph")) && t.ends_with('}') && d == 0 && whole == 1, "graph prints {}, which is not one graph", show(&o.out));
        Ok(())
    });
}
