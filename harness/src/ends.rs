//! C09 connection rules, C17 exit status, C21 drains and faucets, C22 how programs are launched.

use crate::common::*;
use crate::ensure;
use crate::link::*;
use async_std::channel::{bounded, unbounded, Receiver, Sender};
use pipeawesome2::buffer::Buffer;
use pipeawesome2::connectable::*;
use pipeawesome2::drain::Drain;
use pipeawesome2::faucet::Faucet;
use pipeawesome2::junction::Junction;
use pipeawesome2::launch::Launch;
use pipeawesome2::motion::*;
use pipeawesome2::regulator::Regulator;
use pipeawesome2::startable_control::StartableControl;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::OsString;
use std::rc::Rc;

pub type LaunchS = Launch<HashMap<String, String>, String, String, Vec<String>, String, String, String>;

fn launch(id: usize, env: Option<HashMap<String, String>>, dir: Option<String>, cmd: &str, args: Option<Vec<String>>) -> LaunchS { Launch::new(id, env, dir, cmd.to_string(), args) }
fn sh(id: usize, script: &str) -> LaunchS { launch(id, None, None, "sh", Some(vec!["-c".into(), script.into()])) }

// ------------------------------------------------------------------ C09

enum Comp { F(Faucet), D(Drain), B(Buffer), R(Regulator), L(LaunchS), J(Junction) }
impl Comp {
    fn out(&mut self, p: OutputPort, b: Breakable, s: usize, d: usize) -> Result<Pull, ConnectableAddOutputError> {
        match self { Comp::F(c) => c.add_output(p, b, s, d), Comp::D(c) => c.add_output(p, b, s, d), Comp::B(c) => c.add_output(p, b, s, d),
            Comp::R(c) => c.add_output(p, b, s, d), Comp::L(c) => c.add_output(p, b, s, d), Comp::J(c) => c.add_output(p, b, s, d) }
    }
    fn inp(&mut self, p: Pull, prio: isize) -> Result<(), ConnectableAddInputError> {
        match self { Comp::F(c) => c.add_input(p, prio), Comp::D(c) => c.add_input(p, prio), Comp::B(c) => c.add_input(p, prio),
            Comp::R(c) => c.add_input(p, prio), Comp::L(c) => c.add_input(p, prio), Comp::J(c) => c.add_input(p, prio) }
    }
    async fn start(&mut self) -> MotionResult<usize> {
        match self { Comp::F(c) => c.start(None).await, Comp::D(c) => c.start(None).await, Comp::B(c) => c.start(None).await,
            Comp::R(c) => c.start(None).await, Comp::L(c) => c.start(None).await, Comp::J(c) => c.start(None).await }
    }
}

fn port_name(p: OutputPort) -> &'static str { match p { OutputPort::Out => "out", OutputPort::Err => "err", OutputPort::Exit => "exit" } }

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "a component, a sequence of attempts to connect it, and what then flows; distinct = their description".into();
    let count = ctx.n(420, 4000);
    ctx.group("attempts to connect", 0, count, 0.9, |rng, i| {
        let kind = ["faucet", "drain", "buffer", "regulator", "junction", "launch"][(i % 6) as usize];
        let sc = Scratch::new("c09");
        let fed = lines(rng.range(1, 6));
        let mut c = match kind {
            "faucet" => Comp::F(Faucet::new(sc.write("in", &fed.concat()))),
            "drain" => Comp::D(Drain::new(sc.str("out"))),
            "buffer" => Comp::B(Buffer::new()),
            "regulator" => Comp::R(Regulator::new()),
            "junction" => Comp::J(Junction::new()),
            _ => Comp::L(sh(7, "cat; echo e1 >&2; exit 3")),
        };
        if rng.chance(1, 3) {
            let n = rng.range(1, 9);
            match &mut c { Comp::F(x) => x.set_stdout_size(n), Comp::B(x) => x.set_stdout_size(n), Comp::R(x) => x.set_stdout_size(n), Comp::J(x) => x.set_stdout_size(n), _ => {} }
        }
        let mut story = String::new();
        let mut outs: Vec<(OutputPort, Receiver<IOData>)> = vec![];
        let mut ins: Vec<Vec<Vec<u8>>> = vec![];
        let mut keep: Vec<Sender<IOData>> = vec![];
        let steps = rng.range(1, 12);
        for k in 0..steps {
            if rng.chance(1, 2) {
                let port = *rng.pick(&[OutputPort::Out, OutputPort::Out, OutputPort::Err, OutputPort::Exit]);
                let b = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
                let (s, d) = (rng.below(50), rng.below(50));
                let free = match kind { "buffer" => outs.is_empty(), "junction" => true, "drain" => false, _ => !outs.iter().any(|(p, _)| *p == port) };
                let supported = match kind { "faucet" | "regulator" => port == OutputPort::Out, "drain" => false, _ => true };
                story.push_str(&format!("output {} {}->{}; ", port_name(port), s, d));
                describe(format!("{}: {}", kind, story));
                match c.out(port, b, s, d) {
                    Ok(Pull::Receiver(j, rx)) => {
                        ensure!(supported && free, "it accepted an output connection it has no port for");
                        ensure!(j.src == s && j.dst == d, "the connection made is labelled {} -> {}", j.src, j.dst);
                        outs.push((port, rx));
                    },
                    Ok(x) => return Err(format!("it gave {:?} for an output connection", x)),
                    Err(ConnectableAddOutputError::UnsupportedPort(p)) => ensure!(!supported && p == port, "it refused a supported port: UnsupportedPort({:?})", p),
                    Err(ConnectableAddOutputError::AlreadyAllocated(p)) => ensure!(supported && !free && p == port, "it refused a free port: AlreadyAllocated({:?})", p),
                }
            } else {
                let prio = *rng.pick(&[0isize, 0, 0, 1, -1, 5, isize::MAX, isize::MIN]);
                story.push_str(&format!("input with priority {}; ", prio));
                describe(format!("{}: {}", kind, story));
                let (tx, rx) = unbounded();
                let msgs: Vec<Vec<u8>> = (0..rng.range(1, 4)).map(|n| format!("{}.{}\n", k, n).into_bytes()).collect();
                for m in &msgs { let _ = tx.try_send(IOData(m.clone())); }
                if rng.chance(1, 2) { drop(tx); } else { keep.push(tx); }
                let r = c.inp(Pull::Receiver(PullJourney { src: 20 + k, dst: 4 }, rx), prio);
                match (kind, r) {
                    ("faucet", Err(ConnectableAddInputError::UnsupportedForControl)) => {},
                    ("junction", Ok(())) => ins.push(msgs),
                    ("faucet", x) | ("junction", x) => return Err(format!("for an input with priority {} it answered {:?}", prio, x)),
                    (_, Ok(())) => { ensure!(prio == 0 && ins.is_empty(), "it accepted an input it has no port for"); ins.push(msgs) },
                    (_, Err(ConnectableAddInputError::UnsupportedPriority(p))) => ensure!(prio != 0 && p == prio, "it refused an input with priority {} as UnsupportedPriority({})", prio, p),
                    (_, Err(ConnectableAddInputError::AlreadyAllocated)) => ensure!(prio == 0 && !ins.is_empty(), "it refused its first input"),
                    (_, x) => return Err(format!("for an input with priority {} it answered {:?}", prio, x)),
                }
            }
        }
        // what was accepted carries data, whatever was refused in between
        drop(keep);
        if kind == "drain" && ins.is_empty() || kind == "junction" && outs.is_empty() || kind == "buffer" && (ins.is_empty() || outs.is_empty()) { return Ok(()); }
        let mut s = Sched::new(rng);
        let got: Vec<(OutputPort, Slot<Vec<Vec<u8>>>)> = outs.into_iter().map(|(p, rx)| (p, s.spawn("consumer", consume(rx, None, Rng::new(rng.next()))))).collect();
        let res = s.spawn("component", async move { c.start().await });
        s.run(40)?;
        let r = res.borrow_mut().take();
        ensure!(matches!(r, Some(Ok(_))), "once started it ended with {:?}", r);
        let mut want: Vec<Vec<u8>> = if kind == "faucet" { fed } else { ins.concat() };
        if kind == "drain" { ensure!(sc.read("out") == want.concat(), "the drain's file holds {}", show(&sc.read("out"))); }
        want.sort();
        for (p, g) in got {
            let mut g = g.borrow_mut().take().unwrap_or_default();
            g.sort();
            let exp = match (kind, p) {
                ("launch", OutputPort::Err) => vec![b"e1\n".to_vec()],
                ("launch", OutputPort::Exit) => vec![b"3".to_vec()],
                _ => want.clone(),
            };
            ensure!(g == exp, "over its connection on port {} came {} instead of {}", port_name(p), show_all(&g), show_all(&exp));
        }
        Ok(())
    });
}

fn lines(n: usize) -> Vec<Vec<u8>> { (0..n).map(|i| format!("line {}\n", i).into_bytes()).collect() }

// ------------------------------------------------------------------ C17

pub fn c17(ctx: &mut Ctx) {
    ctx.rule = "how a program ends, what it writes, which ports are connected, and a schedule; distinct = their description".into();
    let count = ctx.n(160, 1500);
    ctx.group("exit status", 0, count, 0.7, |rng, i| {
        let signal = i % 4 == 3;
        let code = match rng.below(4) { 0 => 0, 1 => 1, 2 => *rng.pick(&[2usize, 9, 10, 42, 99, 100, 126, 127, 128, 130, 137, 254, 255]), _ => rng.below(256) };
        let sig = *rng.pick(&["KILL", "TERM", "USR2", "USR1", "SEGV", "ABRT"]);
        let n_out = *rng.pick(&[0usize, 1, 3, 40]);
        let n_err = *rng.pick(&[0usize, 1, 5]);
        let (out, err, exit, inp) = (rng.chance(3, 4), rng.chance(1, 2), rng.chance(9, 10), rng.chance(1, 2));
        let spied = rng.chance(1, 2);
        let slow = rng.chance(1, 2);
        let gone = rng.chance(1, 10);
        let policy = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
        describe(format!("a program that writes {} lines and {} errors{} and then {}; connected: {}{}{}{}{}; spy: {}; status connection: {:?}", n_out, n_err, if slow { ", waits" } else { "" },
            if signal { format!("is ended by signal {}", sig) } else { format!("exits with {}", code) }, if inp { "in " } else { "" }, if out { "out " } else { "" }, if err { "err " } else { "" }, if exit { "exit" } else { "" },
            if gone && exit { " (whose receiver is gone)" } else { "" }, spied, policy));
        let sc = Scratch::new("c17");
        let script = format!("{} i=0; while [ $i -lt {} ]; do echo o$i; i=$((i+1)); done; i=0; while [ $i -lt {} ]; do echo e$i >&2; i=$((i+1)); done; {} : > {}; {}",
            if inp { "cat > /dev/null;" } else { "" }, n_out, n_err, if slow { "sleep 0.05;" } else { "" }, sc.str("over"), if signal { format!("kill -{} $$; sleep 5", sig) } else { format!("exit {}", code) });
        let mut l = sh(7, &script);
        let over = sc.path("over");
        let mut s = Sched::new(rng);
        let log: Rc<RefCell<Vec<(char, Vec<u8>, bool)>>> = Rc::new(RefCell::new(vec![]));
        let ended: Rc<RefCell<Vec<char>>> = Rc::new(RefCell::new(vec![]));
        for (c, on, port, dst) in [('o', out, OutputPort::Out, 8), ('e', err, OutputPort::Err, 9), ('x', exit, OutputPort::Exit, 10)] {
            if !on { continue; }
            let rx = match l.add_output(port, policy, 7, dst) { Ok(Pull::Receiver(j, rx)) => { ensure!(j.src == 7 && j.dst == dst, "its connection is labelled {:?}", j); rx }, x => return Err(format!("{:?}", x)) };
            if c == 'x' && gone { drop(rx); continue; }
            let (lg, en, ov) = (log.clone(), ended.clone(), over.clone());
            let mut r2 = Rng::new(rng.next());
            s.spawn("consumer", async move {
                loop {
                    for _ in 0..r2.below(6) { yield_now().await; }
                    match rx.recv().await { Ok(IOData(m)) => lg.borrow_mut().push((c, m, ov.exists())), Err(_) => { en.borrow_mut().push(c); return; } }
                }
            });
        }
        if inp {
            let (tx, rx) = bounded(2);
            l.add_input(Pull::Receiver(PullJourney { src: 5, dst: 7 }, rx), 0).map_err(|e| format!("{:?}", e))?;
            s.spawn("producer", produce(tx, lines(rng.below(5)), Rng::new(rng.next())));
        }
        let (stx, srx) = unbounded();
        let res = s.spawn("launch", async move { let r = l.start(if spied { Some(stx) } else { None }).await; (r, l) });
        s.run(60)?;
        let r = res.borrow_mut().take().map(|x| x.0);
        let text = if signal { "_".to_string() } else { code.to_string() };
        if gone && exit {
            ensure!(matches!(r, Some(Err(MotionError::SendError(_, _, _)))), "with nobody to take its status it ended with {:?}", r);
            return Ok(());
        }
        ensure!(matches!(r, Some(Ok(_))), "it ended with {:?}", r);
        let log = log.borrow().clone();
        let stat: Vec<Vec<u8>> = log.iter().filter(|x| x.0 == 'x').map(|x| x.1.clone()).collect();
        let mut copies = vec![];
        while let Ok(m) = srx.try_recv() { if m.src_port == OutputPort::Exit { copies.push(m); } }
        if exit {
            ensure!(stat == vec![text.clone().into_bytes()], "the status connection carried {} instead of [\"{}\"]", show_all(&stat), text);
            ensure!(ended.borrow().contains(&'x'), "the status connection was not closed");
            let at = log.iter().position(|x| x.0 == 'x').unwrap();
            ensure!(log[at].2, "the status came before the program had ended");
            for (c, on, n) in [('o', out, n_out), ('e', err, n_err)] {
                let before = log[..at].iter().filter(|x| x.0 == c).count();
                ensure!(!on || before + 1 >= n, "the status came when only {} of {} messages of its {} had been passed on", before, n, if c == 'o' { "output" } else { "errors" });
            }
            if spied {
                ensure!(copies.len() == 1, "the spy saw {} status messages", copies.len());
                let m = &copies[0];
                ensure!(m.src == 7 && m.dst == 10 && m.msg == IODataWrapper::IOData(IOData(text.into_bytes())), "the spy saw {:?}", m);
            }
        } else { ensure!(copies.is_empty(), "the spy saw a status message though the port is not connected"); }
        for (c, on, n) in [('o', out, n_out), ('e', err, n_err)] {
            let g: Vec<Vec<u8>> = log.iter().filter(|x| x.0 == c).map(|x| x.1.clone()).collect();
            let w: Vec<Vec<u8>> = (0..n).map(|k| format!("{}{}\n", c, k).into_bytes()).collect();
            ensure!(!on || g == w, "of its {} came {}", if c == 'o' { "output" } else { "errors" }, show_all(&g));
            ensure!(!on || ended.borrow().contains(&c), "a connection was not closed");
        }
        Ok(())
    });
    let count = ctx.n(40, 300);
    ctx.group("programs that cannot be started", 100_000, count, 0.2, |rng, i| {
        let sc = Scratch::new("c17s");
        let plain = sc.write("plain", b"not a program");
        let cmd = match i % 4 { 0 => "no-such-program-at-all".to_string(), 1 => sc.str("missing/program"), 2 => plain, _ => "true".to_string() };
        let dir = if i % 4 == 3 { Some(sc.str("no-such-directory")) } else { None };
        let ports: Vec<OutputPort> = [OutputPort::Out, OutputPort::Err, OutputPort::Exit].iter().filter(|_| rng.chance(2, 3)).copied().collect();
        let inp = rng.chance(1, 2);
        describe(format!("launch of {:?} in {:?}, connected: {:?}{}", cmd, dir, ports, if inp { " and its input" } else { "" }));
        let mut l = launch(7, None, dir, &cmd, None);
        let mut s = Sched::new(rng);
        let mut got = vec![];
        for (k, p) in ports.iter().enumerate() {
            match l.add_output(*p, Breakable::Terminate, 7, 8 + k) { Ok(x) => got.push(s.spawn("consumer", consume_pull(x, None, Rng::new(rng.next())))), Err(e) => return Err(format!("{:?}", e)) }
        }
        let (tx, rx) = bounded(3);
        if inp { l.add_input(Pull::Receiver(PullJourney { src: 5, dst: 7 }, rx), 0).map_err(|e| format!("{:?}", e))?; s.spawn("producer", produce(tx, lines(rng.below(3)), Rng::new(rng.next()))); }
        let (stx, srx) = unbounded();
        let res = s.spawn("launch", async move { let r = l.start(Some(stx)).await; (r, l) });
        s.run(40)?;
        match res.borrow_mut().take().map(|x| x.0) {
            Some(Err(MotionError::LaunchSpawnError(n))) => ensure!(n.as_deref() == Some(cmd.as_str()), "the error names {:?}", n),
            x => return Err(format!("it ended with {:?}", x)),
        }
        for g in got { let g = g.borrow_mut().take(); ensure!(g == Some(vec![]), "over an output came {:?}", g); }
        ensure!(srx.try_recv().is_err(), "a spy saw a message");
        Ok(())
    });
}

// ------------------------------------------------------------------ C21

/// child mode: `place SOURCE DESTINATION`, a faucet joined to a drain
pub fn mode_place(args: &[String]) {
    let (mut f, mut d) = (Faucet::new(args[0].clone()), Drain::new(args[1].clone()));
    let pull = f.add_output(OutputPort::Out, Breakable::Terminate, 3, 4).unwrap_or_else(|e| panic!("{:?}", e));
    d.add_input(pull, 0).unwrap_or_else(|e| panic!("{:?}", e));
    let name = |r: MotionResult<usize>| match r {
        Ok(_) => "ok".to_string(),
        Err(MotionError::OpenIOError(j, _, _)) => format!("open error {} {}", j.src, j.dst),
        Err(e) => format!("{:?}", e),
    };
    let (a, b) = async_std::task::block_on(async { futures::join!(f.start(None), d.start(None)) });
    std::fs::write(&args[2], format!("{}\n{}\n", name(a), name(b))).unwrap();
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "a source, a destination, what they hold, and the data; distinct = their description".into();
    let me = std::env::current_exe().unwrap();
    let count = ctx.n(220, 2500);
    ctx.group("places", 0, count, 0.8, |rng, i| {
        let sc = Scratch::new("c21");
        let data = if rng.chance(1, 8) { let mut v = gen_bytes(rng, 300); v.extend(vec![b'y'; rng.range(9000, 90000)]); v } else { gen_bytes(rng, 300) };
        let src = ["-", "file", "file", "missing", "no directory"][(i % 5) as usize];
        let dst = *rng.pick(&["-", "_", "/dev/null", "new", "new", "old", "old", "no directory", "directory", "odd"]);
        let source = match src { "-" => "-".to_string(), "file" => sc.write("in", &data), "missing" => sc.str("nothing"), _ => sc.str("no/dir") };
        let old = vec![b'O'; data.len() + rng.below(3000)];
        let odd = sc.str(rng.pick(&["-", "_", " - ", "dev null", "_x", "-x"]));
        let destination = match dst { "-" | "_" | "/dev/null" => dst.to_string(), "new" => sc.str("out"), "old" => sc.write("out", &old), "no directory" => sc.str("no/out"), "directory" => sc.str(""), _ => odd };
        let fed = gen_bytes(rng, 60);
        describe(format!("from {} ({}) to {} ({}); data {}; its stdin {}", source, src, destination, dst, show(&data), show(&fed)));
        let mut c = std::process::Command::new(&me);
        c.args(["--mode", "place", &source, &destination, &sc.str("result")]);
        c.current_dir(&sc.0);
        let o = run_program(c, Some(fed.clone()), 60);
        ensure!(!o.timed_out, "it never ended");
        let result = String::from_utf8_lossy(&sc.read("result")).to_string();
        let r: Vec<&str> = result.lines().collect();
        ensure!(r.len() == 2, "it ended with {:?}: {}", o.code, String::from_utf8_lossy(&o.err));
        let want: Vec<u8> = match src { "-" => fed, "file" => data, _ => vec![] };
        let bad_src = src == "missing" || src == "no directory";
        let bad_dst = dst == "no directory" || dst == "directory";
        if bad_src { ensure!(r[0] == "open error 3 4", "the faucet, whose source cannot be opened, ended with {}", r[0]); }
        else if !bad_dst { ensure!(r[0] == "ok", "the faucet ended with {}", r[0]); }
        if bad_dst { ensure!(r[1] == "open error 3 4", "the drain, whose file cannot be opened, ended with {}", r[1]); return Ok(()); }
        ensure!(r[1] == "ok", "the drain ended with {}", r[1]);
        let none: Vec<u8> = vec![];
        ensure!(&o.out == if dst == "-" { &want } else { &none }, "standard output holds {}", show(&o.out));
        ensure!(&o.err == if dst == "_" { &want } else { &none }, "standard error holds {}", show(&o.err));
        if matches!(dst, "new" | "old" | "odd") {
            let got = std::fs::read(&destination).map_err(|e| format!("the file: {}", e))?;
            ensure!(got == want, "the file holds {} instead of {}", show(&got), show(&want));
        }
        let names: Vec<String> = std::fs::read_dir(&sc.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
        let expected = 1 + (src == "file") as usize + matches!(dst, "new" | "old" | "odd") as usize;
        ensure!(names.len() == expected, "besides it there are {:?}", names);
        Ok(())
    });
    ctx.group("drains without a connection", 100_000, 6, 0.1, |rng, _| {
        let sc = Scratch::new("c21n");
        let d = rng.pick(&["-".to_string(), "_".to_string(), "/dev/null".to_string(), sc.str("out")]).clone();
        describe(format!("drain to {:?} that nothing is connected to", d));
        let mut x = Drain::new(d);
        let r = drive(async move { x.start(None).await }, 20)?;
        ensure!(r.is_err(), "it ended with {:?}", r);
        Ok(())
    });
}

// ------------------------------------------------------------------ C22

/// child mode: `report FILE ARGS...`: what this process was started with; copies stdin to FILE.in
pub fn mode_report(args: &[OsString]) {
    use std::io::{Read, Write};
    use std::os::unix::ffi::OsStrExt;
    let file = args[0].to_string_lossy().to_string();
    let mut v: Vec<u8> = vec![];
    let put = |v: &mut Vec<u8>, b: &[u8]| { v.extend((b.len() as u32).to_le_bytes()); v.extend(b); };
    put(&mut v, std::env::current_dir().unwrap().as_os_str().as_bytes());
    for fd in 0..3 { put(&mut v, std::fs::read_link(format!("/proc/self/fd/{}", fd)).map(|p| p.as_os_str().as_bytes().to_vec()).unwrap_or_default().as_slice()); }
    let rest = &args[1..];
    v.extend((rest.len() as u32).to_le_bytes());
    for a in rest { put(&mut v, a.as_bytes()); }
    for (k, x) in std::env::vars_os() { put(&mut v, k.as_bytes()); put(&mut v, x.as_bytes()); }
    std::fs::write(&file, v).unwrap();
    let mut input = vec![];
    std::io::stdin().read_to_end(&mut input).unwrap();
    std::fs::write(format!("{}.in", file), &input).unwrap();
    let o: Vec<u8> = (0..20).flat_map(|i| format!("out {}\n", i).into_bytes()).chain(input.iter().copied()).collect();
    std::io::stdout().write_all(&o).ok();
    std::io::stdout().flush().ok();
    std::io::stderr().write_all(b"err 0\nerr 1").ok();
}

fn unpack(b: &[u8]) -> (Vec<Vec<u8>>, Vec<Vec<u8>>, HashMap<Vec<u8>, Vec<u8>>) {
    let mut p = 0;
    let num = |p: &mut usize| { let n = u32::from_le_bytes([b[*p], b[*p + 1], b[*p + 2], b[*p + 3]]) as usize; *p += 4; n };
    let head = (0..4).map(|_| { let n = num(&mut p); let x = b[p..p + n].to_vec(); p += n; x }).collect();
    let n = num(&mut p);
    let args = (0..n).map(|_| { let n = num(&mut p); let x = b[p..p + n].to_vec(); p += n; x }).collect();
    let mut env = HashMap::new();
    while p < b.len() {
        let n = num(&mut p); let k = b[p..p + n].to_vec(); p += n;
        let n = num(&mut p); let x = b[p..p + n].to_vec(); p += n;
        env.insert(k, x);
    }
    (head, args, env)
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "arguments, environment, directory and connected ports of a launch, with a schedule; distinct = their description".into();
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let count = ctx.n(140, 1500);
    std::env::set_var("PA2H_OWN", "own value");
    std::env::set_var("PA2H_BOTH", "own");
    ctx.group("programs", 0, count, 0.9, |rng, _| {
        let sc = Scratch::new("c22");
        std::fs::create_dir_all(sc.path("sub dir")).unwrap();
        let file = sc.str("report");
        let odd = ["", " ", "a", "a b", "--", "-x", "$HOME", "*", "\"q\"", "line\nfeed", "é€", "'", "\\", "{}", "%s", "|"];
        let extra: Vec<String> = (0..rng.below(5)).map(|_| rng.pick(&odd).to_string()).collect();
        let env: Option<HashMap<String, String>> = if rng.chance(2, 3) {
            Some((0..rng.below(4)).map(|k| (["PA2H_A", "PA2H_BOTH", "PA2H_C", "HOME"][k].to_string(), rng.pick(&["", "x", "a b", "=", "own", "é", "$PATH"]).to_string())).collect())
        } else { None };
        let dir = if rng.chance(1, 2) { Some(sc.str("sub dir")) } else { None };
        let (inp, out, err) = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
        let msgs = gen_msgs(rng, 6);
        describe(format!("arguments {:?}, environment {:?}, directory {:?}, connected: {}{}{}, input {}", extra, env, dir, if inp { "in " } else { "" }, if out { "out " } else { "" }, if err { "err" } else { "" }, show_all(&msgs)));
        let mut args: Vec<String> = vec!["--mode".into(), "report".into(), file.clone()];
        args.extend(extra.clone());
        let mut l = launch(7, env.clone(), dir.clone(), &me, Some(args));
        let mut s = Sched::new(rng);
        let mut conn = |l: &mut LaunchS, s: &mut Sched, rng: &mut Rng, p, d| -> Result<Slot<Vec<Vec<u8>>>, String> {
            let x = l.add_output(p, Breakable::Terminate, 7, d).map_err(|e| format!("{:?}", e))?;
            Ok(s.spawn("consumer", consume_pull(x, None, Rng::new(rng.next()))))
        };
        let got_o = if out { Some(conn(&mut l, &mut s, rng, OutputPort::Out, 8)?) } else { None };
        let got_e = if err { Some(conn(&mut l, &mut s, rng, OutputPort::Err, 9)?) } else { None };
        if inp {
            let (tx, rx) = bounded(2);
            l.add_input(Pull::Receiver(PullJourney { src: 5, dst: 7 }, rx), 0).map_err(|e| format!("{:?}", e))?;
            s.spawn("producer", produce(tx, msgs.clone(), Rng::new(rng.next())));
        }
        let res = s.spawn("launch", async move { let r = l.start(None).await; (r, l) });
        s.run(60)?;
        let r = res.borrow_mut().take().map(|x| x.0);
        let n = if inp { msgs.len() } else { 0 };
        ensure!(matches!(r, Some(Ok(_))), "it ended with {:?}", r);
        let _ = n;
        // without a connection to wait on, the program may still be running
        let mut raw = vec![];
        let t0 = std::time::Instant::now();
        while t0.elapsed().as_secs() < 20 {
            if sc.path("report.in").exists() { raw = sc.read("report"); if !raw.is_empty() { break; } }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        ensure!(!raw.is_empty(), "the program was not run, or its input never ended");
        let (head, got_args, got_env) = unpack(&raw);
        let want_dir = dir.clone().unwrap_or_else(|| std::env::current_dir().unwrap().to_string_lossy().to_string());
        ensure!(std::fs::canonicalize(String::from_utf8_lossy(&head[0]).to_string()).ok() == std::fs::canonicalize(&want_dir).ok(), "it ran in {} instead of {}", show(&head[0]), want_dir);
        let want_args: Vec<Vec<u8>> = extra.iter().map(|x| x.clone().into_bytes()).collect();
        ensure!(got_args == want_args, "its arguments were {} instead of {}", show_all(&got_args), show_all(&want_args));
        let mut want_env: HashMap<Vec<u8>, Vec<u8>> = std::env::vars().map(|(k, v)| (k.into_bytes(), v.into_bytes())).collect();
        for (k, v) in env.into_iter().flatten() { want_env.insert(k.into_bytes(), v.into_bytes()); }
        for (k, v) in &want_env { ensure!(got_env.get(k) == Some(v), "variable {} was {:?} instead of {}", show(k), got_env.get(k).map(|x| show(x)), show(v)); }
        for k in got_env.keys() { ensure!(want_env.contains_key(k), "variable {} was set", show(k)); }
        for (fd, on, what) in [(1, inp, "input"), (2, out, "output"), (3, err, "error output")] {
            let null = head[fd] == b"/dev/null";
            ensure!(null != on, "its standard {} was {}", what, show(&head[fd]));
        }
        let all_in: Vec<u8> = if inp { msgs.concat() } else { vec![] };
        let t0 = std::time::Instant::now();
        while sc.read("report.in").len() != all_in.len() && t0.elapsed().as_secs() < 5 { std::thread::sleep(std::time::Duration::from_millis(2)); }
        ensure!(sc.read("report.in") == all_in, "its input was {} instead of {}", show(&sc.read("report.in")), show(&all_in));
        if let Some(g) = got_o {
            let want: Vec<u8> = (0..20).flat_map(|i| format!("out {}\n", i).into_bytes()).chain(all_in).collect();
            let g = g.borrow_mut().take().unwrap_or_default().concat();
            ensure!(g == want, "its output came as {} instead of {}", show(&g), show(&want));
        }
        if let Some(g) = got_e {
            let g = g.borrow_mut().take().unwrap_or_default();
            ensure!(g == vec![b"err 0\n".to_vec(), b"err 1".to_vec()], "its error output came as {}", show_all(&g));
        }
        Ok(())
    });
}
