//! C19: the graph of a configuration.

use crate::common::*;
use crate::conf::*;
use crate::ensure;
use pipeawesome2::config::*;
use pipeawesome2::connectable::OutputPort;
use pipeawesome2::graph;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn shape(ct: ComponentType) -> &'static str {
    match ct { ComponentType::Faucet => "trapezium", ComponentType::Drain => "invtrapezium", ComponentType::Junction => "oval", ComponentType::Buffer => "invhouse", ComponentType::Launch => "box", ComponentType::Regulator => "house" }
}
fn id(ct: ComponentType, name: &str) -> String { format!("{}_{}", letter(ct), name) }

/// the attributes of `[a=b,c="d"]`
fn attributes(s: &str) -> Option<BTreeMap<String, String>> {
    let mut m = BTreeMap::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let mut k = String::new();
        while i < cs.len() && cs[i] != '=' { k.push(cs[i]); i += 1; }
        i += 1;
        let mut v = String::new();
        if i < cs.len() && cs[i] == '"' {
            i += 1;
            while i < cs.len() && cs[i] != '"' { v.push(cs[i]); i += 1; }
            i += 1;
        } else {
            while i < cs.len() && cs[i] != ',' { v.push(cs[i]); i += 1; }
        }
        m.insert(k.trim().to_string(), v.trim().to_string());
        if i < cs.len() { if cs[i] != ',' { return None; } i += 1; }
    }
    Some(m)
}

type Node = (String, String, String);
type Edge = (String, String, String);

/// the nodes (id, label, shape) and edges (from, to, label) of what is drawn outside of the legend
fn read(dot: &str) -> Result<(Vec<Node>, Vec<Edge>), String> {
    let (mut ns, mut es) = (vec![], vec![]);
    for line in dot.split(|c| c == '\n' || c == ';') {
        let l = line.trim();
        if let Some((head, tail)) = l.split_once('[') {
            let attrs = attributes(tail.trim_end().trim_end_matches(']')).ok_or(format!("the line {:?} of the graph cannot be read", l))?;
            let get = |k: &str| attrs.get(k).cloned().unwrap_or_default();
            if let Some((a, b)) = head.split_once("->") {
                es.push((a.trim().to_string(), b.trim().to_string(), get("label")));
            } else if !head.trim().starts_with("legend_") {
                ns.push((head.trim().to_string(), get("label"), get("shape")));
            }
        } else if let Some((a, b)) = l.split_once("->") {
            es.push((a.trim().to_string(), b.trim().to_string(), "".to_string()));
        }
    }
    Ok((ns, es))
}

fn right(dot: &str, lists: &BTreeMap<String, Option<Vec<El>>>, diagram: bool) -> Result<(), String> {
    let (ns, es) = read(dot)?;
    let mut want_es = vec![];
    let mut want_ns = BTreeSet::new();
    if diagram {
        for l in lists.values().flatten() {
            for w in l.windows(2) {
                let lbl = match w[0].port { OutputPort::Out => "", OutputPort::Err => "Err", OutputPort::Exit => "Exit" };
                want_es.push((id(w[0].ct, &w[0].name), id(w[1].ct, &w[1].name), lbl.to_string()));
            }
            for e in l { want_ns.insert((id(e.ct, &e.name), e.name.clone(), shape(e.ct).to_string())); }
        }
    }
    ensure!(es == want_es, "the edges drawn are {:?} instead of {:?}", es, want_es);
    let got: BTreeSet<Node> = ns.into_iter().collect();
    ensure!(got == want_ns, "the nodes drawn are {:?} instead of {:?}", got, want_ns);
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    ctx.rule = "configurations whose flow differs".into();
    let words = ctx.words.clone();
    let n = ctx.n(3000, 40000);
    ctx.group("diagram", 0, n, 0.5, |rng, _i| {
        let (mut c, lists) = config(rng, &words, false);
        describe(json(&c));
        Config::lint(&mut c);
        if rng.chance(2, 3) { for (k, ds) in c.connection.iter_mut() { quick_add_connection_set(k, ds); } }
        let lists: BTreeMap<String, Option<Vec<El>>> = c.connection.keys().map(|k| (k.clone(), lists[k].clone())).collect();
        let edges = c.connection.iter().fold(vec![], |acc, (_k, d)| graph::convert_connection_to_graph_connection(acc, Config::quick_deserialized_connection_to_connection(d)));
        let nodes = c.connection.iter().fold(HashMap::new(), |acc, (_k, d)| graph::convert_connection_components_fold(acc, Config::quick_deserialized_connection_to_connection(d)));
        right(&graph::get_graph(vec![graph::get_diagram(nodes, edges)]), &lists, true)
    });
    let n = ctx.n(60, 600);
    let pa2 = ctx.pa2.clone();
    ctx.group("pa2 graph", 100_000, n, 0.4, |rng, i| {
        let (mut c, lists) = config(rng, &words, i % 8 == 7);
        if i % 4 != 3 {
            for e in lists.values().flatten().flatten() {
                match e.ct {
                    ComponentType::Faucet => { c.faucet.insert(e.name.clone(), FaucetConfig { source: "-".into() }); },
                    ComponentType::Drain => { c.drain.insert(e.name.clone(), DrainConfig { destination: "-".into() }); },
                    ComponentType::Launch => { c.launch.insert(e.name.clone(), LaunchConfig { command: Some("cat".into()), path: None, env: HashMap::new(), arg: vec![] }); },
                    ComponentType::Regulator => { c.regulator.insert(e.name.clone(), RegulatorConfig { buffered: Some((1, 2)), monitored_buffers: vec![] }); },
                    _ => {}
                }
            }
            let all: BTreeSet<String> = lists.values().flatten().flatten().filter(|e| e.ct == ComponentType::Buffer).map(|e| e.name.clone()).collect();
            for r in c.regulator.values_mut() { r.monitored_buffers.retain(|b| all.contains(b)); }
        }
        let amiss: Vec<_> = model(&c, &lists).into_iter().filter(|w| !matches!(w, ConfigLintWarning::InConfigButMissingFlowConnection { .. })).collect();
        let dir = Scratch::new("graph");
        let f = dir.write("c.json", json(&c).as_bytes());
        let mut cmd = std::process::Command::new(&pa2);
        cmd.args(&["graph", "--format", "json", "--config", &f]);
        let how = rng.below(4);
        match how { 0 => { cmd.arg("--diagram-only"); }, 1 => { cmd.arg("--legend-only"); }, 2 => { cmd.arg("--legend-border"); }, _ => {} }
        describe(format!("{:?} with {}", cmd, json(&c)));
        let o = run_program(cmd, None, 20);
        ensure!(!o.timed_out, "graph does not end");
        if !amiss.is_empty() {
            ensure!(o.code == Some(1) && o.out.is_empty(), "graph of a configuration with {:?} ends with {:?} and prints {}", amiss, o.code, show(&o.out));
            return Ok(());
        }
        ensure!(o.code == Some(0), "graph ends with {:?}: {}", o.code, show(&o.err));
        right(&String::from_utf8_lossy(&o.out), &lists, how != 1)
    });
}
