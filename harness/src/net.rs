//! C10 the graph that is built, C16 how a run ends.

use crate::common::*;
use crate::conf::{conns, key, letter, name, policy, El};
use crate::ensure;
use async_std::channel::unbounded;
use pipeawesome2::bin_support::waiter_error_to_string;
use pipeawesome2::config::*;
use pipeawesome2::connectable::{Breakable, OutputPort};
use pipeawesome2::motion::*;
use pipeawesome2::waiter::{get_waiter, WaiterError};
use std::collections::{BTreeMap, HashMap};

type Node = (ComponentType, String);
#[derive(Clone, Debug)]
struct Wire { src: usize, port: OutputPort, dst: usize, pol: Breakable, prio: isize, used: bool }
fn pn(p: OutputPort) -> &'static str { match p { OutputPort::Out => "out", OutputPort::Err => "err", OutputPort::Exit => "exit" } }
fn el(n: &Node, w_in: Option<&Wire>, w_out: Option<&Wire>) -> El {
    El { ct: n.0, name: n.1.clone(), pol: w_in.map(|w| w.pol).unwrap_or(Breakable::Terminate), prio: w_in.map(|w| w.prio).unwrap_or(0), port: w_out.map(|w| w.port).unwrap_or(OutputPort::Out), set: None }
}
/// connection lists that together mention every wire once
fn lists(rng: &mut Rng, nodes: &[Node], wires: &mut Vec<Wire>, words: &[String]) -> (BTreeMap<String, DeserializedConnection>, String) {
    let mut m = BTreeMap::new();
    let mut story = String::new();
    for w in wires.iter_mut() { w.used = false; }
    let mut n = 0;
    while let Some(_) = wires.iter().find(|w| !w.used) {
        let free: Vec<usize> = (0..wires.len()).filter(|i| !wires[*i].used).collect();
        let mut walk = vec![*rng.pick(&free)];
        wires[walk[0]].used = true;
        while rng.chance(3, 4) {
            let at = wires[*walk.last().unwrap()].dst;
            let free: Vec<usize> = (0..wires.len()).filter(|i| !wires[*i].used && wires[*i].src == at).collect();
            if free.is_empty() { break; }
            let x = *rng.pick(&free);
            wires[x].used = true;
            walk.push(x);
        }
        let mut es = vec![el(&nodes[wires[walk[0]].src], None, Some(&wires[walk[0]]))];
        for (i, x) in walk.iter().enumerate() { es.push(el(&nodes[wires[*x].dst], Some(&wires[*x]), walk.get(i + 1).map(|y| &wires[*y]))); }
        let mut k = key(rng, n, words);
        while m.contains_key(&k) { k.push('\''); }
        story.push_str(&format!("{:?}: ", k));
        for (i, e) in es.iter().enumerate() {
            if i > 0 { story.push_str(&format!(" |{:?}|[{}]", e.pol, e.prio)); }
            story.push_str(&format!("{}:{}", letter(e.ct), e.name));
            if i + 1 < es.len() && e.port != OutputPort::Out { story.push_str(&format!("[{}]", pn(e.port))); }
        }
        story.push_str("; ");
        m.insert(k, DeserializedConnection::Connections(conns(&es, false)));
        n += 1;
    }
    (m, story)
}
fn sh(script: &str) -> LaunchConfig { LaunchConfig { command: Some("sh".into()), path: None, env: HashMap::new(), arg: vec!["-c".into(), script.into()] } }

fn graphs(ctx: &mut Ctx) {
    let words = ctx.words.clone();
    let count = ctx.n(90, 900);
    ctx.group("graphs", 0, count, 0.45, |rng, _| {
        let sc = Scratch::new("c10");
        let mut c = Config::new();
        let mut nodes: Vec<Node> = vec![];
        let mut wires: Vec<Wire> = vec![];
        let mut open: Vec<(usize, OutputPort)> = vec![];
        let fresh = |rng: &mut Rng, nodes: &mut Vec<Node>, ct: ComponentType| -> usize {
            let mut nm = name(rng, &words);
            let mut k = 2;
            while nodes.iter().any(|n| n.0 == ct && n.1 == nm) { nm = format!("{}{}", nm, k); k += 1; }
            nodes.push((ct, nm));
            nodes.len() - 1
        };
        let reaches = |wires: &Vec<Wire>, from: usize, to: usize| -> bool {
            let mut seen = vec![from];
            let mut i = 0;
            while i < seen.len() { let at = seen[i]; for w in wires.iter().filter(|w| w.src == at) { if !seen.contains(&w.dst) { seen.push(w.dst); } } i += 1; }
            seen.contains(&to)
        };
        for k in 0..rng.range(1, 3) {
            let n = fresh(rng, &mut nodes, ComponentType::Faucet);
            let data: Vec<u8> = (0..rng.below(7)).flat_map(|i| format!("{}.{}\n", k, i).into_bytes()).collect();
            c.faucet.insert(nodes[n].1.clone(), FaucetConfig { source: sc.write(&format!("in{}", k), &data) });
            open.push((n, OutputPort::Out));
        }
        let steps = rng.range(1, 9);
        for _ in 0..steps {
            if open.is_empty() { break; }
            let (src, port) = open.remove(rng.below(open.len()));
            let mut w = Wire { src, port, dst: 0, pol: policy(rng), prio: 0, used: false };
            let js: Vec<usize> = (0..nodes.len()).filter(|j| nodes[*j].0 == ComponentType::Junction && !reaches(&wires, *j, src)).collect();
            if nodes[src].0 == ComponentType::Junction && rng.chance(2, 3) { open.push((src, OutputPort::Out)); }
            if port == OutputPort::Exit {
                // a status is no line: it goes to a drain of its own
                let ct = if rng.chance(1, 2) { ComponentType::Buffer } else { ComponentType::Drain };
                w.dst = fresh(rng, &mut nodes, ct);
                if nodes[w.dst].0 == ComponentType::Buffer {
                    let d = fresh(rng, &mut nodes, ComponentType::Drain);
                    wires.push(Wire { src: w.dst, port: OutputPort::Out, dst: d, pol: policy(rng), prio: 0, used: false });
                }
            } else if !js.is_empty() && rng.chance(1, 3) {
                w.dst = *rng.pick(&js);
                w.prio = rng.below(7) as isize - 3;
            } else {
                let ct = *rng.pick(&[ComponentType::Launch, ComponentType::Launch, ComponentType::Junction, ComponentType::Buffer, ComponentType::Regulator]);
                w.dst = fresh(rng, &mut nodes, ct);
                if ct == ComponentType::Junction { w.prio = rng.below(7) as isize - 3; }
                open.push((w.dst, OutputPort::Out));
                if ct == ComponentType::Launch {
                    for p in [OutputPort::Err, OutputPort::Exit] { if rng.chance(1, 3) { open.push((w.dst, p)); } }
                }
            }
            wires.push(w);
        }
        for (src, port) in open.clone() {
            if port != OutputPort::Exit && rng.chance(1, 4) {
                let js: Vec<usize> = (0..nodes.len()).filter(|j| nodes[*j].0 == ComponentType::Junction && !reaches(&wires, *j, src)).collect();
                if !js.is_empty() { wires.push(Wire { src, port, dst: *rng.pick(&js), pol: policy(rng), prio: rng.below(7) as isize - 3, used: false }); continue; }
            }
            let d = fresh(rng, &mut nodes, ComponentType::Drain);
            wires.push(Wire { src, port, dst: d, pol: policy(rng), prio: 0, used: false });
        }
        // settings
        let mut taken: Vec<usize> = vec![];
        let mut regulated = vec![];
        for (i, n) in nodes.iter().enumerate() {
            match n.0 {
                ComponentType::Drain => { c.drain.insert(n.1.clone(), DrainConfig { destination: sc.str(&format!("out{}", i)) }); },
                ComponentType::Launch => {
                    let mut l = sh("cat; if [ -n \"$V\" ]; then echo \"$V\" >&2; fi; echo \"$0\" >&2; pwd >&2; exit ${E:-0}");
                    if rng.chance(1, 2) { l.env.insert("V".into(), format!("v{}", i)); l.env.insert("E".into(), format!("{}", i)); }
                    if rng.chance(1, 2) { l.arg.push(format!("arg {}", i)); }
                    if rng.chance(1, 2) { let d = sc.str(&format!("dir{}", i)); std::fs::create_dir_all(&d).unwrap(); l.path = Some(std::fs::canonicalize(&d).unwrap().to_string_lossy().to_string()); }
                    c.launch.insert(n.1.clone(), l);
                },
                ComponentType::Regulator => {
                    let bs: Vec<usize> = (0..nodes.len()).filter(|b| nodes[*b].0 == ComponentType::Buffer && !taken.contains(b) && reaches(&wires, i, *b)).collect();
                    if rng.chance(1, 2) {
                        let with = if rng.chance(2, 3) { bs } else { vec![] };
                        taken.extend(with.iter().copied());
                        let bt = if rng.chance(3, 4) { Some((rng.range(0, 2), rng.range(3, 6))) } else { None };
                        regulated.push((n.1.clone(), bt));
                        c.regulator.insert(n.1.clone(), RegulatorConfig { buffered: bt, monitored_buffers: with.iter().map(|b| nodes[*b].1.clone()).collect() });
                    }
                },
                _ => {},
            }
        }
        // settings nobody refers to
        if rng.chance(1, 3) { c.faucet.insert("unused".into(), FaucetConfig { source: "/".into() }); c.drain.insert("unused".into(), DrainConfig { destination: "/".into() }); c.launch.insert("unused".into(), LaunchConfig { command: None, path: None, env: HashMap::new(), arg: vec![] }); }
        if rng.chance(1, 3) { c.regulator.insert("unused".into(), RegulatorConfig { buffered: Some((1, 2)), monitored_buffers: vec![] }); }
        let (m, story) = lists(rng, &nodes, &mut wires, &words);
        describe(format!("{}watermarks: {:?}", story, regulated));
        let launches = c.launch.iter().map(|(k, l)| (k.clone(), LaunchConfig { command: l.command.clone(), path: l.path.clone(), env: l.env.clone(), arg: l.arg.clone() })).collect::<HashMap<String, LaunchConfig>>();
        c.connection = m;
        let mut w = get_waiter(c).map_err(|e| format!("it was refused: {}", e))?;
        let names = w.get_id_to_component_type_name().ok_or("there are no names")?;
        // one component for each
        let mut have: Vec<String> = names.values().map(|(ct, n)| format!("{}:{}", ct, n)).collect();
        have.sort();
        let mut want: Vec<String> = nodes.iter().filter(|n| wires.iter().any(|w| nodes[w.src] == **n || nodes[w.dst] == **n)).map(|n| format!("{}:{}", n.0, n.1)).collect();
        want.sort();
        ensure!(have == want, "its components are {:?} instead of {:?}", have, want);
        let (stx, srx) = unbounded::<SpyMessage>();
        let mut s = Sched::new(rng);
        let res = s.spawn("pipeline", async move { w.start(Some(stx)).await });
        s.run(60)?;
        let r = res.borrow_mut().take();
        match r { Some(Ok(_)) => {}, x => return Err(format!("it ended with {:?}", x)) }
        // what each component passes on
        let mut flow: HashMap<(usize, OutputPort), Vec<Vec<u8>>> = HashMap::new();
        fn outputs(i: usize, p: OutputPort, nodes: &[Node], wires: &[Wire], l: &HashMap<String, LaunchConfig>, sc: &Scratch, memo: &mut HashMap<(usize, OutputPort), Vec<Vec<u8>>>) -> Vec<Vec<u8>> {
            let kp = if nodes[i].0 == ComponentType::Launch { p } else { OutputPort::Out };
            if let Some(v) = memo.get(&(i, kp)) { return v.clone(); }
            let mut v: Vec<Vec<u8>> = vec![];
            let me = format!("dir{}", i);
            match (nodes[i].0, kp) {
                (ComponentType::Faucet, _) => { let k = nodes[..i].iter().filter(|n| n.0 == ComponentType::Faucet).count(); v = lines_of(&sc.read(&format!("in{}", k))); },
                (ComponentType::Launch, OutputPort::Err) => {
                    let c = &l[&nodes[i].1];
                    if let Some(x) = c.env.get("V") { v.push(x.as_bytes().to_vec()); }
                    v.push(c.arg.get(2).cloned().unwrap_or_else(|| "sh".into()).into_bytes());
                    v.push(if c.path.is_some() { std::fs::canonicalize(sc.path(&me)).unwrap() } else { std::env::current_dir().unwrap() }.to_string_lossy().as_bytes().to_vec());
                    for x in v.iter_mut() { x.push(b'\n'); }
                },
                (ComponentType::Launch, OutputPort::Exit) => v.push(l[&nodes[i].1].env.get("E").cloned().unwrap_or_else(|| "0".into()).into_bytes()),
                _ => for w in wires.iter().filter(|w| w.dst == i) { v.extend(outputs(w.src, w.port, nodes, wires, l, sc, memo)); },
            }
            memo.insert((i, kp), v.clone());
            v
        }
        let mut seen: Vec<String> = vec![];
        while let Ok(m) = srx.try_recv() {
            let x = match m.msg { IODataWrapper::IOData(IOData(d)) => show(&d), IODataWrapper::Finished => if m.src_port == OutputPort::Exit { continue } else { "end".into() }, IODataWrapper::Skipped => "skip".into() };
            let nm = |i: usize| names.get(&i).map(|(ct, n)| format!("{}:{}", ct, n)).unwrap_or_else(|| format!("? {}", i));
            let line = format!("{}[{}] -> {}: {}", nm(m.src), pn(m.src_port), nm(m.dst), x);
            // a junction may say more than once that it ended
            if x == "end" && seen.contains(&line) { continue; }
            seen.push(line);
        }
        let mut want: Vec<String> = vec![];
        for w in &wires {
            let (a, b) = (&nodes[w.src], &nodes[w.dst]);
            let pre = format!("{}:{}[{}] -> {}:{}", a.0, a.1, pn(if a.0 == ComponentType::Junction { OutputPort::Out } else { w.port }), b.0, b.1);
            for d in outputs(w.src, w.port, &nodes, &wires, &launches, &sc, &mut flow) { want.push(format!("{}: {}", pre, show(&d))); }
            let end = format!("{}: end", pre);
            if w.port != OutputPort::Exit && !want.contains(&end) { want.push(end); }
        }
        seen.sort();
        want.sort();
        if seen != want {
            let extra: Vec<&String> = seen.iter().filter(|x| seen.iter().filter(|y| y == x).count() > want.iter().filter(|y| y == x).count()).take(6).collect();
            let less: Vec<&String> = want.iter().filter(|x| want.iter().filter(|y| y == x).count() > seen.iter().filter(|y| y == x).count()).take(6).collect();
            return Err(format!("over its connections came {:?} too much and {:?} too little", extra, less));
        }
        // drains write what reaches them to the place they are configured with
        for (i, n) in nodes.iter().enumerate().filter(|(_, n)| n.0 == ComponentType::Drain) {
            let w = wires.iter().find(|w| w.dst == i).unwrap();
            let v = outputs(w.src, w.port, &nodes, &wires, &launches, &sc, &mut flow);
            let total: usize = v.iter().map(|x| x.len()).sum();
            let got = sc.read(&format!("out{}", i));
            let nl = got.iter().filter(|b| **b == b'\n').count();
            ensure!(got.len() - nl == total - v.iter().map(|x| x.iter().filter(|b| **b == b'\n').count()).sum::<usize>(), "drain {} wrote {} where {} came to it", n.1, show(&got), show_all(&v));
        }
        Ok(())
    });
}
/// messages as they are framed, without their line ends
fn lines_of(b: &[u8]) -> Vec<Vec<u8>> { b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect() }

/// `f:tap | [source] |P| l:first`, where the program closes its input after one line
fn policies(ctx: &mut Ctx) {
    let words = ctx.words.clone();
    ctx.group("policies", 100_000, 45, 0.15, |rng, i| {
        let pol = [Breakable::Terminate, Breakable::Finish, Breakable::Consume][(i % 3) as usize];
        let src = [ComponentType::Faucet, ComponentType::Launch, ComponentType::Junction, ComponentType::Buffer, ComponentType::Regulator][(i as usize / 3) % 5];
        let sc = Scratch::new("c10p");
        let n = 400;
        let mut line = vec![b'x'; 1000];
        line.push(b'\n');
        let data: Vec<u8> = (0..n).flat_map(|_| line.clone()).collect();
        let mut c = Config::new();
        let nm = name(rng, &words);
        let mid: Node = (src, nm);
        let tap: Node = (ComponentType::Faucet, if src == ComponentType::Faucet { mid.1.clone() } else { "tap".into() });
        c.faucet.insert(tap.1.clone(), FaucetConfig { source: sc.write("in", &data) });
        if src == ComponentType::Launch { c.launch.insert(mid.1.clone(), sh("exec cat")); }
        let nodes = vec![tap, mid, (ComponentType::Launch, "stops".into()), (ComponentType::Drain, "end".into())];
        c.launch.insert("stops".into(), sh("read x; exec 0<&-; echo one"));
        c.drain.insert("end".into(), DrainConfig { destination: sc.str("out") });
        let w = |s, d, pol| Wire { src: s, port: OutputPort::Out, dst: d, pol, prio: 0, used: false };
        // the other connections are lenient in another way
        let other = |rng: &mut Rng| *rng.pick(&[Breakable::Finish, Breakable::Consume]);
        let mut wires = if src == ComponentType::Faucet { vec![w(0, 2, pol)] } else { vec![w(0, 1, other(rng)), w(1, 2, pol)] };
        wires.push(w(2, 3, if pol == Breakable::Terminate { other(rng) } else { Breakable::Terminate }));
        let (m, story) = lists(rng, &nodes, &mut wires, &words);
        describe(format!("{} lines of 1000 bytes, the program `stops` closes its input after one: {}", n, story));
        c.connection = m;
        let mut w = get_waiter(c).map_err(|e| format!("it was refused: {}", e))?;
        let names = w.get_id_to_component_type_name().ok_or("there are no names")?;
        let (stx, srx) = unbounded::<SpyMessage>();
        let mut s = Sched::new(rng);
        let res = s.spawn("pipeline", async move { w.start(Some(stx)).await });
        s.run(60)?;
        let r = res.borrow_mut().take().unwrap();
        let id = |ct: ComponentType, n: &str| names.iter().find(|(_, x)| x.0 == ct && x.1 == n).map(|(k, _)| *k).unwrap_or(usize::MAX);
        let (sid, did) = (id(nodes[1].0, &nodes[1].1), id(ComponentType::Launch, "stops"));
        let mut passed = 0;
        while let Ok(m) = srx.try_recv() { if m.src == sid && m.dst == did && !matches!(m.msg, IODataWrapper::Finished) { passed += 1; } }
        match (pol, r) {
            (Breakable::Terminate, Err(e)) => {
                let own: Vec<&WaiterError> = e.iter().filter(|x| x.caused_by_error_source().map(|(ct, n)| *ct == nodes[1].0 && *n == nodes[1].1).unwrap_or(false)).collect();
                ensure!(own.len() == 1 && e.len() == 1, "the errors are {:?}", e);
                if src != ComponentType::Buffer {
                    let j = own[0].caused_by_error().and_then(|x| x.journey());
                    ensure!(j.as_ref().map(|j| j.src == sid && j.dst == did && j.breakable == pol).unwrap_or(false), "the error is {:?}", e);
                }
            },
            (Breakable::Terminate, Ok(n)) => return Err(format!("it ended with {} although the broken connection's policy is terminate", n)),
            (_, Err(e)) => return Err(format!("it failed although the broken connection's policy is {:?}: {:?}", pol, e)),
            (Breakable::Finish, Ok(_)) => ensure!(src == ComponentType::Launch || passed < n, "all was read although the broken connection's policy is finish"),
            (Breakable::Consume, Ok(_)) => ensure!(passed == n, "only {} of {} messages were read although the broken connection's policy is consume", passed, n),
        }
        Ok(())
    });
}

/// two inputs with different priorities, both full when the junction goes on
fn priorities(ctx: &mut Ctx) {
    let words = ctx.words.clone();
    let count = ctx.n(4, 24);
    ctx.group("priorities", 200_000, count, 0.15, |rng, i| {
        let mut tried = 0;
        loop {
        let sc = Scratch::new("c10o");
        let (lo, hi) = *rng.pick(&[(0isize, 1isize), (-1, 0), (-5, -2), (3, 9), (-2, 4)]);
        let swap = i % 2 == 1;
        let n = 40;
        let mut c = Config::new();
        for x in ["a", "b"] {
            let data: Vec<u8> = (0..n).flat_map(|k| format!("{} {}{}\n", x, k, " ".repeat(70_000)).into_bytes()).collect();
            c.faucet.insert(x.into(), FaucetConfig { source: sc.write(x, &data) });
        }
        let go = sc.str("go");
        c.launch.insert("held".into(), sh(&format!("while [ ! -e {} ]; do sleep 0.02; done; cut -c1-3", go)));
        c.drain.insert("out".into(), DrainConfig { destination: sc.str("out") });
        let f = |n: &str| (ComponentType::Faucet, n.to_string());
        let b = |n: &str| (ComponentType::Buffer, n.to_string());
        let nodes = vec![f("a"), f("b"), b("a"), b("b"), (ComponentType::Junction, name(rng, &words)), (ComponentType::Launch, "held".into()), (ComponentType::Drain, "out".into())];
        let w = |s, d, prio| Wire { src: s, port: OutputPort::Out, dst: d, pol: Breakable::Terminate, prio, used: false };
        let (pa, pb) = if swap { (hi, lo) } else { (lo, hi) };
        let mut wires = vec![w(0, 2, 0), w(1, 3, 0), w(2, 4, pa), w(3, 4, pb), w(4, 5, 0), w(5, 6, 0)];
        let (m, story) = lists(rng, &nodes, &mut wires, &words);
        describe(format!("both buffers hold {} lines when the junction's reader starts to read: {}", n, story));
        c.connection = m;
        let mut w = get_waiter(c).map_err(|e| format!("it was refused: {}", e))?;
        let names = w.get_id_to_component_type_name().ok_or("there are no names")?;
        let nodes_of: Vec<usize> = names.iter().filter(|(_, x)| x.0 == ComponentType::Faucet).map(|(k, _)| *k).collect();
        let (stx, srx) = unbounded::<SpyMessage>();
        let mut s = Sched::new(rng);
        let res = s.spawn("pipeline", async move { w.start(Some(stx)).await });
        let mut full = 0;
        s.until(20.0, || { while let Ok(m) = srx.try_recv() { if nodes_of.contains(&m.src) && matches!(m.msg, IODataWrapper::Finished) { full += 1; } } full == 2 });
        std::fs::write(&go, b"").map_err(|e| e.to_string())?;
        s.run(60)?;
        let r = res.borrow_mut().take();
        ensure!(matches!(r, Some(Ok(_))), "it ended with {:?}", r);
        let got = sc.read("out");
        let first = if swap { b'b' } else { b'a' };
        let lines: Vec<&[u8]> = got.split_inclusive(|c| *c == b'\n').collect();
        ensure!(lines.len() == 2 * n, "{} lines came out instead of {}", lines.len(), 2 * n);
        // how much of the other input had come when all of the preferred one had
        let last = lines.iter().rposition(|l| l[0] == first).unwrap();
        let other = last + 1 - n;
        if other * 4 <= n * 3 { return Ok(()); }
        tried += 1;
        ensure!(tried < 4, "{} of {} lines of the input with the higher number came before the input with the lower one was through, in four runs", other, n);
        }
    });
}

fn refusals(ctx: &mut Ctx) {
    let words = ctx.words.clone();
    let count = ctx.n(600, 6000);
    ctx.group("refusals", 300_000, count, 0.2, |rng, _| {
        let n = rng.range(2, 6);
        let pool = crate::conf::pool(rng, &words, n);
        let mut c = Config::new();
        let mut m = BTreeMap::new();
        let mut story = String::new();
        for k in 0..rng.range(1, 4) {
            let mut es = crate::conf::els(rng, &pool);
            for e in es.iter_mut() { if rng.chance(2, 3) { e.port = OutputPort::Out; } if rng.chance(2, 3) { e.prio = 0; } }
            let mut kk = key(rng, k, &words);
            while m.contains_key(&kk) { kk.push('\''); }
            m.insert(kk, es);
        }
        for (ct, nm) in &pool {
            if rng.chance(1, 12) { story.push_str(&format!("{}:{} is not configured; ", letter(*ct), nm)); continue; }
            match ct {
                ComponentType::Faucet => { c.faucet.insert(nm.clone(), FaucetConfig { source: "x".into() }); },
                ComponentType::Drain => { c.drain.insert(nm.clone(), DrainConfig { destination: "x".into() }); },
                ComponentType::Launch => { let none = rng.chance(1, 8); if none { story.push_str(&format!("l:{} has no command; ", nm)); } c.launch.insert(nm.clone(), LaunchConfig { command: if none { None } else { Some("x".into()) }, path: None, env: HashMap::new(), arg: vec![] }); },
                _ => {}
            }
        }
        // what can be built
        let mut outs: Vec<(Node, OutputPort)> = vec![];
        let mut ins: Vec<Node> = vec![];
        let mut bad: Option<String> = None;
        for (k, es) in &m {
            story.push_str(&format!("{:?}: ", k));
            for (i, e) in es.iter().enumerate() {
                if i > 0 { story.push_str(&format!(" | [{}]", e.prio)); }
                story.push_str(&format!("{}:{}", letter(e.ct), e.name));
                if i + 1 < es.len() { story.push_str(&format!("[{}]", pn(e.port))); }
                let node: Node = (e.ct, e.name.clone());
                if e.ct == ComponentType::Launch && c.launch.get(&e.name).map(|l| l.command.is_none()).unwrap_or(true) { bad.get_or_insert(format!("launch {} has no command", e.name)); }
                if i == 0 { continue; }
                let p = &es[i - 1];
                let pnode: Node = (p.ct, p.name.clone());
                let offers = match p.ct { ComponentType::Drain => false, ComponentType::Faucet | ComponentType::Regulator => p.port == OutputPort::Out, _ => true };
                let slot = if p.ct == ComponentType::Launch { p.port } else { OutputPort::Out };
                if !offers { bad.get_or_insert(format!("{} has no output {}", p.name, pn(p.port))); }
                if p.ct != ComponentType::Junction && outs.contains(&(pnode.clone(), slot)) { bad.get_or_insert(format!("output {} of {} is used twice", pn(slot), p.name)); }
                outs.push((pnode, slot));
                if e.ct == ComponentType::Faucet { bad.get_or_insert(format!("faucet {} takes no input", e.name)); }
                if e.ct != ComponentType::Junction && e.prio != 0 { bad.get_or_insert(format!("{} takes no priority", e.name)); }
                if e.ct != ComponentType::Junction && ins.contains(&node) { bad.get_or_insert(format!("{} takes one input", e.name)); }
                ins.push(node);
            }
            story.push_str("; ");
        }
        describe(story);
        c.connection = m.into_iter().map(|(k, es)| (k, DeserializedConnection::Connections(conns(&es, false)))).collect();
        match (get_waiter(c), bad) {
            (Ok(_), None) | (Err(_), Some(_)) => Ok(()),
            (Ok(_), Some(b)) => Err(format!("it was built although {}", b)),
            (Err(e), None) => Err(format!("it was refused: {}", e)),
        }
    });
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "a configuration (components, wires, how they are spread over lists) and a schedule; distinct = its description".into();
    graphs(ctx);
    policies(ctx);
    priorities(ctx);
    refusals(ctx);
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, PartialEq)]
struct Fail { who: Node, kind: &'static str, src: Option<Node>, dst: Option<Node> }

pub fn c16(ctx: &mut Ctx) {
    ctx.rule = "chains of components, which of them fail and why, and a schedule; distinct = their description".into();
    let words = ctx.words.clone();
    let count = ctx.n(150, 1500);
    ctx.group("runs", 0, count, 0.9, |rng, i| {
        let sc = Scratch::new("c16");
        let mut c = Config::new();
        let mut nodes: Vec<Node> = vec![];
        let mut wires: Vec<Wire> = vec![];
        let mut fails: Vec<Fail> = vec![];
        let mut sum = 0usize;
        let lots = if i % 6 == 0 { rng.range(4, 9) } else { rng.range(1, 4) };
        let stem = name(rng, &words);
        let calm = i % 4 == 0;
        let mut story = String::new();
        for k in 0..lots {
            let lines = *rng.pick(&[0usize, 1, 5, 40]);
            let data: Vec<u8> = (0..lines).flat_map(|l| format!("{}\n", l).into_bytes()).collect();
            let nm = format!("{}{}", stem, k);
            let missing = !calm && rng.chance(1, 4);
            let mid = *rng.pick(&[None, None, Some(ComponentType::Launch), Some(ComponentType::Junction), Some(ComponentType::Regulator), Some(ComponentType::Buffer)]);
            let unstartable = !calm && mid == Some(ComponentType::Launch) && rng.chance(1, 2);
            let bad_drain = !calm && rng.chance(1, 3);
            let f: Node = (ComponentType::Faucet, nm.clone());
            let d: Node = (ComponentType::Drain, nm.clone());
            c.faucet.insert(nm.clone(), FaucetConfig { source: if missing { sc.str("nothing") } else { sc.write(&format!("in{}", k), &data) } });
            c.drain.insert(nm.clone(), DrainConfig { destination: if bad_drain { sc.str("no/out") } else { sc.str(&format!("out{}", k)) } });
            let lenient = |rng: &mut Rng| *rng.pick(&[Breakable::Finish, Breakable::Consume]);
            let base = nodes.len();
            nodes.push(f.clone());
            let flows = !missing;
            let w = |s, d, pol| Wire { src: s, port: OutputPort::Out, dst: d, pol, prio: 0, used: false };
            // a terminate connection breaks for sure only when more is sent than it can hold
            let strict = |rng: &mut Rng, flows: bool, to_bad: bool| if to_bad && flows && lines < 40 { lenient(rng) } else { policy(rng) };
            match mid {
                None => {
                    nodes.push(d.clone());
                    let p = strict(rng, flows, bad_drain);
                    if bad_drain && flows && p == Breakable::Terminate { fails.push(Fail { who: f.clone(), kind: "closed", src: Some(f.clone()), dst: Some(d.clone()) }); }
                    wires.push(w(base, base + 1, p));
                    if bad_drain { fails.push(Fail { who: d.clone(), kind: "open", src: Some(f.clone()), dst: None }); }
                },
                Some(ct) => {
                    let m: Node = (ct, nm.clone());
                    nodes.push(m.clone());
                    nodes.push(d.clone());
                    if ct == ComponentType::Launch { let mut l = sh("cat"); if unstartable { l.command = Some("no-such-program-at-all".into()); } c.launch.insert(nm.clone(), l); }
                    let p2 = strict(rng, flows && !unstartable, bad_drain);
                    let breaks2 = bad_drain && flows && !unstartable && p2 == Breakable::Terminate;
                    // once the middle one has failed or finished early, what is before it must be lenient to have a certain outcome
                    let early = bad_drain && flows && !unstartable && p2 != Breakable::Consume;
                    let p1 = if early { lenient(rng) } else { strict(rng, flows, unstartable) };
                    if unstartable {
                        fails.push(Fail { who: m.clone(), kind: "spawn", src: None, dst: None });
                        if flows && p1 == Breakable::Terminate { fails.push(Fail { who: f.clone(), kind: "closed", src: Some(f.clone()), dst: Some(m.clone()) }); }
                    }
                    if breaks2 {
                        if ct == ComponentType::Buffer { fails.push(Fail { who: m.clone(), kind: "none", src: None, dst: None }); }
                        else { fails.push(Fail { who: m.clone(), kind: "closed", src: Some(m.clone()), dst: Some(d.clone()) }); }
                    }
                    wires.push(w(base, base + 1, p1));
                    wires.push(w(base + 1, base + 2, p2));
                    if bad_drain { fails.push(Fail { who: d.clone(), kind: "open", src: Some(m.clone()), dst: None }); }
                },
            }
            if missing { fails.push(Fail { who: f.clone(), kind: "open", src: Some(f.clone()), dst: None }); }
            story.push_str(&format!("{} lines{}{:?}{}; ", lines, if missing { " (source missing) " } else { " " }, mid, if unstartable { " that cannot be started" } else { "" }));
            if bad_drain { story.push_str("drain's file cannot be made; "); }
            sum += match mid { None => 2 * lines + 1, Some(_) => 0 };
            let _ = &mut sum;
        }
        let (m, st) = lists(rng, &nodes, &mut wires, &words);
        describe(format!("{}{}", story, st));
        c.connection = m;
        let mut w = get_waiter(c).map_err(|e| format!("it was refused: {}", e))?;
        let names = w.get_id_to_component_type_name().ok_or("there are no names")?;
        let mut s = Sched::new(rng);
        let res = s.spawn("pipeline", async move { w.start(None).await });
        s.run(60)?;
        let r = res.borrow_mut().take().unwrap();
        let simple = wires.len() == nodes.len() / 2 && nodes.iter().all(|n| matches!(n.0, ComponentType::Faucet | ComponentType::Drain));
        match r {
            Ok(n) => {
                ensure!(fails.is_empty(), "it succeeded although {:?} failed", fails);
                if simple { ensure!(n == sum, "its count is {} instead of {}", n, sum); }
                Ok(())
            },
            Err(e) => {
                ensure!(!fails.is_empty(), "it failed with {:?}", e);
                let mut left = fails.clone();
                for x in &e {
                    let who = match x.caused_by_error_source() { Some((ct, n)) => (*ct, n.clone()), None => return Err(format!("an error is {:?}", x)) };
                    let kind = match x.caused_by_error() { Some(MotionError::OpenIOError(..)) => "open", Some(MotionError::OutputClosed(..)) => "closed", Some(MotionError::LaunchSpawnError(_)) => "spawn", Some(MotionError::NoneError) => "none", _ => "?" };
                    match left.iter().position(|f| f.who == who && f.kind == kind) {
                        Some(p) => { left.remove(p); },
                        None => return Err(format!("it reports {:?} of {}:{}, beside {:?}", kind, who.0, who.1, fails)),
                    }
                    ensure!(x.caused_by_error_name() == Some(who.1.as_str()), "an error of {} is named {:?}", who.1, x.caused_by_error_name());
                }
                ensure!(left.is_empty(), "it does not report {:?}", left);
                let times: Vec<Option<std::time::Instant>> = e.iter().map(|x| x.caused_by_error().and_then(|m| m.instant().copied())).collect();
                for p in times.windows(2) { ensure!(p[0] <= p[1], "its errors are not in the order in which they happened"); }
                for x in e {
                    let who = x.caused_by_error_source().map(|(ct, n)| (*ct, n.clone())).unwrap();
                    let kind = match x.caused_by_error() { Some(MotionError::OpenIOError(..)) => "open", Some(MotionError::OutputClosed(..)) => "closed", Some(MotionError::LaunchSpawnError(_)) => "spawn", _ => "none" };
                    let f = fails.iter().find(|f| f.who == who && f.kind == kind).unwrap();
                    let nm = |n: &Option<Node>, other: String| n.as_ref().map(|n| format!("{}:{}", n.0, n.1)).unwrap_or(other);
                    let want = format!("{} | {} - ", nm(&f.src, format!("{}:{}", who.0, who.1)), nm(&f.dst, "Unknown Destination".into()));
                    let text = match kind { "open" => "OpenIOError", "closed" => "OutputClosed: ChannelClosed", "spawn" => "Could not run program no-such-program-at-all", _ => "NoneError" };
                    let got = waiter_error_to_string(x, &names);
                    ensure!(got.starts_with(&want) && got.contains(text), "an error is described as {:?} instead of {:?}…{:?}", got, want, text);
                }
                Ok(())
            },
        }
    });
}
