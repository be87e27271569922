//! C06 pausing of regulators and faucets, C07 buffers.

use crate::common::*;
use crate::ensure;
use crate::link::*;
use async_std::channel::{bounded, unbounded, Receiver};
use pipeawesome2::buffer::Buffer;
use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
use pipeawesome2::faucet::{Faucet, FaucetControl};
use pipeawesome2::motion::*;
use pipeawesome2::regulator::{Regulator, RegulatorControl};
use pipeawesome2::startable_control::StartableControl;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

fn rx_of(p: Pull) -> Receiver<IOData> {
    match p { Pull::Receiver(_, rx) => rx, x => panic!("expected a channel, got {:?}", x) }
}

enum Ctl { R(RegulatorControl), F(FaucetControl) }
impl Ctl {
    async fn pause(&mut self) -> Result<bool, String> {
        match self { Ctl::R(c) => c.pause().await.map_err(|e| e.to_string()), Ctl::F(c) => c.pause().await.map_err(|e| e.to_string()) }
    }
    async fn resume(&mut self) -> Result<bool, String> {
        match self { Ctl::R(c) => c.resume().await.map_err(|e| e.to_string()), Ctl::F(c) => c.resume().await.map_err(|e| e.to_string()) }
    }
}
enum Comp { R(Regulator), F(Faucet) }
impl Comp {
    fn control(&mut self) -> Ctl { match self { Comp::R(c) => Ctl::R(c.get_control()), Comp::F(c) => Ctl::F(c.get_control()) } }
    fn size(&mut self, n: usize) { match self { Comp::R(c) => c.set_stdout_size(n), Comp::F(c) => c.set_stdout_size(n) } }
    fn out(&mut self, b: Breakable) -> Result<Receiver<IOData>, String> {
        let r = match self { Comp::R(c) => c.add_output(OutputPort::Out, b, 3, 4), Comp::F(c) => c.add_output(OutputPort::Out, b, 3, 4) };
        r.map(rx_of).map_err(|e| format!("add_output: {:?}", e))
    }
    async fn start(&mut self, spy: Option<async_std::channel::Sender<SpyMessage>>) -> MotionResult<usize> {
        match self { Comp::R(c) => c.start(spy).await, Comp::F(c) => c.start(spy).await }
    }
}

fn lines(n: usize) -> Vec<Vec<u8>> { (0..n).map(|i| format!("line {}\n", i).into_bytes()).collect() }

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "a component, its messages, a script of pauses and resumes and a schedule; distinct = their description".into();
    let count = ctx.n(500, 6000);
    ctx.group("pauses and resumes", 0, count, 0.5, |rng, i| {
        let n = match rng.below(5) { 0 => rng.below(4), 1 => rng.range(40, 80), _ => rng.range(5, 25) };
        let msgs = lines(n);
        let faucet = i % 3 == 2;
        // 0: pause, 1: resume, 2: wait
        let script: Vec<usize> = (0..rng.range(1, 14)).map(|_| *rng.pick(&[0usize, 0, 1, 1, 2, 2])).collect();
        let size = if rng.chance(1, 2) { 200 } else { rng.range(1, 4) };
        let held = rng.chance(1, 2);
        let polls = rng.range(1, 60);
        describe(format!("{} with {} messages, output of size {}, script {:?} (0 pause, 1 resume, 2 wait {} polls){}", if faucet { "faucet" } else { "regulator" }, n, size, script, polls, if held { ", and then paused for good until the data is in" } else { "" }));
        let sc = Scratch::new("c06");
        let mut s = Sched::new(rng);
        let mut comp = if faucet { Comp::F(Faucet::new(sc.write("in", &msgs.concat()))) } else {
            let mut r = Regulator::new();
            let pull = match rng.below(3) {
                0 => Pull::Mock(PJ, msgs.iter().cloned().map(IOData).collect()),
                k => { let (tx, rx) = if k == 1 { unbounded() } else { bounded(rng.range(1, 5)) }; s.spawn("producer", produce(tx, msgs.clone(), Rng::new(rng.next()))); Pull::Receiver(PJ, rx) }
            };
            r.add_input(pull, 0).map_err(|e| format!("{:?}", e))?;
            Comp::R(r)
        };
        comp.size(size);
        let rx = comp.out(Breakable::Terminate)?;
        let mut ctl = comp.control();
        let done = Rc::new(Cell::new(false));
        let got: Rc<RefCell<Vec<Vec<u8>>>> = Rc::new(RefCell::new(vec![]));
        let (d2, g2, rx2) = (done.clone(), got.clone(), rx.clone());
        let res = s.spawn("component", async move { let r = comp.start(None).await; d2.set(true); r });
        s.spawn("consumer", async move { while let Ok(IOData(v)) = rx2.recv().await { g2.borrow_mut().push(v); } });
        let (d3, g3) = (done.clone(), got.clone());
        let verdict = s.spawn("controller", async move {
            let passed = || g3.borrow().len() + rx.len();
            let mut paused = false;
            let mut log = String::new();
            for op in script {
                let was_done = d3.get();
                match op {
                    0 => {
                        let r = ctl.pause().await?;
                        log.push_str(&format!("pause={} ", r));
                        if paused { ensure!(!r, "pausing while paused answered true ({})", log); }
                        if was_done { ensure!(!r, "pausing after the end answered true ({})", log); }
                        if !paused && !d3.get() { ensure!(r, "pausing while running answered false ({})", log); }
                        paused = true;
                    },
                    1 => {
                        let r = ctl.resume().await?;
                        log.push_str(&format!("resume={} ", r));
                        if !paused { ensure!(!r, "resuming while running answered true ({})", log); }
                        if was_done { ensure!(!r, "resuming after the end answered true ({})", log); }
                        if paused && !d3.get() { ensure!(r, "resuming while paused answered false ({})", log); }
                        paused = false;
                    },
                    _ => {},
                }
                let base = passed();
                if paused && op == 0 || op == 2 {
                    for _ in 0..polls { yield_now().await; }
                    if paused && op == 0 { ensure!(passed() <= base + 1, "{} messages were passed on after pause had returned ({})", passed() - base, log); }
                }
            }
            if held && !paused && !d3.get() {
                let before = d3.get();
                let r = ctl.pause().await?;
                if !before && !d3.get() { ensure!(r, "pausing while running answered false ({})", log); }
                paused = true;
            }
            if held && paused {
                let base = passed();
                for _ in 0..300 { yield_now().await; }
                ensure!(passed() <= base + 1, "{} messages were passed on after pause had returned ({})", passed() - base, log);
            }
            if paused {
                let before = d3.get();
                let r = ctl.resume().await?;
                if !before && !d3.get() { ensure!(r, "resuming while paused answered false ({})", log); }
            }
            // it is running again: wait for the end
            let mut k = 0u64;
            while !d3.get() { yield_now().await; k += 1; if k % 64 == 0 { std::thread::yield_now(); } }
            let r = (ctl.pause().await?, ctl.pause().await?, ctl.resume().await?, ctl.resume().await?);
            ensure!(r == (false, false, false, false), "after the end pause, pause, resume, resume answered {:?}", r);
            Ok::<(), String>(())
        });
        let ran = s.run(40);
        let v = verdict.borrow_mut().take();
        if let Some(v) = v { v?; }
        ran?;
        let got = got.borrow().clone();
        ensure!(got == msgs, "of {} messages these came: {}", n, show_all(&got));
        let r = res.borrow_mut().take();
        match r { Some(Ok(c)) => { ensure!(c == n, "{} messages were passed on, {} were counted", n, c); Ok(()) }, x => Err(format!("it ended with {:?}", x)) }
    });
    let count = ctx.n(120, 1200);
    ctx.group("the control is closed however the component stops", 100_000, count, 0.4, |rng, i| {
        let way = ["end", "open failure", "read failure", "output gone", "output gone, finish", "spy gone", "no output", "no input"][(i % 8) as usize];
        let faucet = match way { "open failure" => true, "no input" => false, _ => rng.chance(1, 2) };
        let state = rng.below(5);
        describe(format!("{} that stops because of: {}; control {}", if faucet { "faucet" } else { "regulator" }, way, ["unused", "paused and resumed before", "paused once it has stopped", "a resume waiting", "paused and resumed when stopped"][state]));
        let sc = Scratch::new("c06e");
        let mut s = Sched::new(rng);
        let n = rng.range(2, 12);
        let msgs = lines(n);
        let mut keep = None;
        let mut comp = if faucet {
            Comp::F(Faucet::new(match way { "open failure" => sc.str("missing/file"), "read failure" => sc.str(""), _ => sc.write("in", &msgs.concat()) }))
        } else {
            let mut r = Regulator::new();
            match way {
                "no input" => {},
                "read failure" => {
                    let f = drive(async_std::fs::File::open(sc.str("")), 20)?.map_err(|e| e.to_string())?;
                    r.add_input(Pull::File(PJ, f, ReadSplitControl::new()), 0).map_err(|e| format!("{:?}", e))?;
                },
                _ => {
                    let (tx, rx) = unbounded();
                    for m in &msgs { let _ = tx.try_send(IOData(m.clone())); }
                    if state != 3 || way == "no output" { drop(tx); } else { keep = Some(tx); }
                    r.add_input(Pull::Receiver(PJ, rx), 0).map_err(|e| format!("{:?}", e))?;
                },
            }
            Comp::R(r)
        };
        comp.size(100);
        let mut rx = if way == "no output" { None } else { Some(comp.out(if way == "output gone, finish" { Breakable::Finish } else { Breakable::Terminate })?) };
        if way.starts_with("output gone") { rx = None; }
        let spy = if way == "spy gone" { let (tx, r) = bounded(1); drop(r); Some(tx) } else { None };
        let mut ctl = comp.control();
        if state == 1 { drive(async { let r = ctl.pause().await; r }, 20)??; }
        let d = Rc::new(Cell::new(false));
        let d2 = d.clone();
        let res = s.spawn("component", async move { let r = comp.start(spy).await; d2.set(true); (r, comp) });
        if let Some(tx) = keep { let k = rng.range(5, 60); s.spawn("producer", async move { for _ in 0..k { yield_now().await; } drop(tx); }); }
        let d3 = d.clone();
        let verdict = s.spawn("the one who controls it", async move {
            if state == 1 { ctl.resume().await?; }
            if state == 3 {
                // pause is accepted, resume has to wait for the component, which may end instead
                ctl.pause().await?;
                ctl.resume().await?;
            }
            let mut k = 0u64;
            while !d3.get() { yield_now().await; k += 1; if k % 64 == 0 { std::thread::yield_now(); } }
            let r = (ctl.pause().await?, ctl.pause().await?, ctl.resume().await?, ctl.resume().await?);
            ensure!(r == (false, false, false, false), "after it stopped pause, pause, resume, resume answered {:?}", r);
            Ok::<(), String>(())
        });
        s.run(20)?;
        if let Some(v) = verdict.borrow_mut().take() { v?; }
        let r = res.borrow_mut().take();
        let (r, _comp) = r.ok_or("it never ended")?;
        let want_ok = matches!(way, "end" | "output gone, finish" | "no output" | "no input");
        ensure!(r.is_ok() == want_ok, "it ended with {:?}", r);
        if way == "end" {
            let mut got = vec![];
            if let Some(rx) = &rx { while let Ok(IOData(v)) = rx.try_recv() { got.push(v); } ensure!(rx.is_closed(), "its output is still open"); }
            ensure!(got == msgs, "these messages came: {}", show_all(&got));
        }
        if let Some(rx) = rx { ensure!(rx.is_closed(), "its output is still open"); }
        Ok(())
    });
    let count = ctx.n(60, 400);
    ctx.group("paused before the start, and at rest", 200_000, count, 0.1, |rng, i| {
        let n = rng.range(3, 20);
        let faucet = i % 2 == 0;
        describe(format!("{} with {} messages, paused before it starts", if faucet { "faucet" } else { "regulator" }, n));
        let msgs = lines(n);
        let sc = Scratch::new("c06b");
        let mut s = Sched::new(rng);
        let mut comp = if faucet { Comp::F(Faucet::new(sc.write("in", &msgs.concat()))) } else {
            let mut r = Regulator::new();
            r.add_input(Pull::Mock(PJ, msgs.iter().cloned().map(IOData).collect()), 0).map_err(|e| format!("{:?}", e))?;
            Comp::R(r)
        };
        comp.size(100);
        let rx = comp.out(Breakable::Terminate)?;
        let mut ctl = comp.control();
        ensure!(drive(ctl.pause(), 20)?? , "pausing answered false");
        let res = s.spawn("component", async move { comp.start(None).await });
        s.spin_for(if faucet { 40 } else { 5 });
        ensure!(rx.len() <= 1, "{} messages were passed on while paused", rx.len());
        ensure!(drive(ctl.resume(), 20)??, "resuming answered false");
        s.run(20)?;
        let mut got = vec![];
        while let Ok(IOData(v)) = rx.try_recv() { got.push(v); }
        ensure!(got == msgs, "these messages came: {}", show_all(&got));
        let r = res.borrow_mut().take();
        match r { Some(Ok(c)) if c == n => Ok(()), x => Err(format!("it ended with {:?}", x)) }
    });
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "a buffer's messages, output policy and monitor, a script of consuming and a schedule; distinct = their description".into();
    let count = ctx.n(500, 6000);
    let sizes = ctx.sizes(20, 60_000);
    ctx.group("a consumer that stops and goes", 0, count, 0.6, |rng, i| {
        let n = match rng.below(8) { 0 => rng.below(3), 1 => rng.range(100, 400), _ => rng.range(3, 40) };
        let n = if (i as usize) < sizes.len() { sizes[i as usize] } else { n };
        let msgs: Vec<Vec<u8>> = (0..n).map(|k| if rng.chance(1, 9) { vec![] } else { format!("m{}", k).into_bytes() }).collect();
        let monitored = !rng.chance(1, 5);
        let size = rng.range(1, 9);
        let hold: Vec<usize> = (0..rng.range(0, 4)).map(|_| rng.below(n + 1)).collect();
        let policy = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
        describe(format!("{} messages through a buffer with an output of size {} ({:?}), consumer stopping after {:?}, monitor: {}", n, size, policy, hold, monitored));
        let mut s = Sched::new(rng);
        let mut b = Buffer::new();
        b.set_stdout_size(8);
        let mon = if monitored { Some(b.add_buffer_size_monitor()) } else { None };
        b.set_stdout_size(size);
        let (tx, rx) = bounded(rng.range(1, 4));
        b.add_input(Pull::Receiver(PJ, rx), 0).map_err(|e| format!("{:?}", e))?;
        let out = rx_of(b.add_output(OutputPort::Out, policy, 4, 5).map_err(|e| format!("{:?}", e))?);
        let produced = Rc::new(Cell::new(false));
        let p2 = produced.clone();
        let (m2, seed) = (msgs.clone(), rng.next());
        s.spawn("producer", async move { produce(tx, m2, Rng::new(seed)).await; p2.set(true); });
        let res = s.spawn("buffer", async move { b.start(None).await });
        let reports: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(vec![]));
        let closed = Rc::new(Cell::new(false));
        if let Some(mon) = mon.clone() {
            let (r2, c2) = (reports.clone(), closed.clone());
            s.spawn("monitor", async move { while let Ok(m) = mon.recv().await { r2.borrow_mut().push(m.0); } c2.set(true); });
        }
        // nobody consumes: the producer must come to its end all the same
        ensure!(s.until(20.0, || produced.get()), "the producer still waits although it is behind a buffer");
        // at rest the last report is the number inside, up to those in flight
        if monitored && n > 0 {
            let in_out = out.len();
            let want = n - in_out.min(n);
            let r3 = reports.clone();
            // everything has been taken in (the end too), what fits was passed on
            let ok = s.until(8.0, || { let l = r3.borrow().last().cloned().unwrap_or(0); let w = n - out.len().min(n); l <= w + 2 && l + 2 >= w });
            ensure!(ok, "at rest {} messages are inside, the last report says {:?}", want, reports.borrow().last());
        }
        let got: Rc<RefCell<Vec<Vec<u8>>>> = Rc::new(RefCell::new(vec![]));
        let (g2, out2) = (got.clone(), out.clone());
        let gate = Rc::new(Cell::new(true));
        let gate2 = gate.clone();
        s.spawn("consumer", async move {
            loop {
                while !gate2.get() { yield_now().await; }
                match out2.recv().await { Ok(IOData(v)) => { g2.borrow_mut().push(v); let l = g2.borrow().len(); if hold.contains(&l) { gate2.set(false); } }, Err(_) => break }
            }
        });
        drop(out);
        let mut rests = 0;
        let t0 = std::time::Instant::now();
        while !s.pending().is_empty() {
            s.spin(64);
            if !gate.get() {
                rests += 1;
                if rests <= 3 && monitored && n < 1000 {
                    let r3 = reports.clone();
                    let (g3, nn) = (got.clone(), n);
                    let ok = s.until(8.0, || { let l = r3.borrow().last().cloned().unwrap_or(0); let inside = nn - g3.borrow().len(); l <= inside + 2 && l + 2 + size >= inside });
                    ensure!(ok, "at rest {} messages had been consumed, up to {} are in the output, and the last report says {:?} of {}", got.borrow().len(), size, reports.borrow().last(), n);
                }
                gate.set(true);
            }
            std::thread::yield_now();
            ensure!(t0.elapsed().as_secs() < 40, "still waiting for: {}", s.pending().join(", "));
        }
        let got = got.borrow().clone();
        ensure!(got == msgs, "of {} messages these came: {}", n, show_all(&got));
        let r = res.borrow_mut().take();
        match r { Some(Ok(c)) => ensure!(c == n + 1, "{} messages and the end were taken in, {} were counted", n, c), x => return Err(format!("it ended with {:?}", x)) }
        if monitored {
            ensure!(closed.get(), "the report channel is still open");
            let reports = reports.borrow().clone();
            ensure!(reports.last().cloned().unwrap_or(0) == 0, "the last report is {:?}", reports.last());
            for r in &reports { ensure!(*r <= n + 1, "a report of {} with {} messages in all", r, n); }
        }
        Ok(())
    });
    let count = ctx.n(40, 300);
    ctx.group("reports follow the messages one by one", 100_000, count, 0.2, |rng, _| {
        let n = rng.range(1, 12);
        let size = rng.range(1, 4);
        describe(format!("{} messages, one at a time, into a buffer with an output of size {} which nobody reads; then taken out one at a time", n, size));
        let mut s = Sched::new(rng);
        let mut b = Buffer::new();
        let mon = b.add_buffer_size_monitor();
        b.set_stdout_size(size);
        let (tx, rx) = unbounded();
        b.add_input(Pull::Receiver(PJ, rx), 0).map_err(|e| format!("{:?}", e))?;
        let out = rx_of(b.add_output(OutputPort::Out, Breakable::Terminate, 4, 5).map_err(|e| format!("{:?}", e))?);
        let res = s.spawn("buffer", async move { b.start(None).await });
        let last = Rc::new(Cell::new(0usize));
        let seen = Rc::new(RefCell::new(vec![]));
        let over = Rc::new(Cell::new(false));
        let (l2, s2, o2) = (last.clone(), seen.clone(), over.clone());
        s.spawn("monitor", async move { while let Ok(m) = mon.recv().await { s2.borrow_mut().push(m.0); l2.set(m.0); } o2.set(true); });
        // a read is counted as passed on only when it was written or is being written: size+1 leave the count
        for k in 0..n {
            tx.try_send(IOData(vec![k as u8])).map_err(|e| e.to_string())?;
            let lo = (k + 1).saturating_sub(size + 1);
            let ok = s.until(8.0, || { let inside = k + 1 - out.len(); last.get() <= inside && last.get() + 1 >= inside && last.get() >= lo });
            ensure!(ok, "after {} messages went in and none came out (output holds {}) the last report is {} ({:?})", k + 1, out.len(), last.get(), seen.borrow());
        }
        for k in 0..n {
            let mut m = None;
            let ok = s.until(8.0, || { if m.is_none() { m = out.try_recv().ok(); } m.is_some() });
            ensure!(ok, "message {} never came", k);
            ensure!(m.unwrap().0 == vec![k as u8], "message {} is not next", k);
            let ok = s.until(8.0, || { let inside = n - k - 1 - out.len().min(n - k - 1); last.get() <= inside && last.get() + 1 >= inside });
            ensure!(ok, "{} of {} messages came out, {} wait in the output, the last report is {} ({:?})", k + 1, n, out.len(), last.get(), seen.borrow());
        }
        drop(tx);
        s.run(20)?;
        ensure!(over.get() && last.get() == 0, "after the end the last report is {}, the report channel is {}", last.get(), if over.get() { "closed" } else { "open" });
        let r = res.borrow_mut().take();
        match r { Some(Ok(c)) if c == n + 1 => Ok(()), x => Err(format!("it ended with {:?}", x)) }
    });
    let count = ctx.n(80, 600);
    ctx.group("the consumer goes away", 200_000, count, 0.2, |rng, _| {
        let n = rng.range(1, 30);
        let keep = rng.below(n + 1);
        let size = rng.range(1, 6);
        let policy = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
        describe(format!("{} messages through a buffer whose consumer ({:?}) leaves after {}", n, policy, keep));
        let msgs = lines(n);
        let mut s = Sched::new(rng);
        let mut b = Buffer::new();
        let monitored = rng.chance(1, 2);
        let mon = if monitored { Some(b.add_buffer_size_monitor()) } else { None };
        b.set_stdout_size(size);
        let (tx, rx) = bounded(2);
        b.add_input(Pull::Receiver(PJ, rx), 0).map_err(|e| format!("{:?}", e))?;
        let out = rx_of(b.add_output(OutputPort::Out, policy, 4, 5).map_err(|e| format!("{:?}", e))?);
        s.spawn("producer", produce(tx, msgs.clone(), Rng::new(rng.next())));
        let res = s.spawn("buffer", async move { b.start(None).await });
        if let Some(mon) = mon { s.spawn("monitor", async move { while mon.recv().await.is_ok() { } }); }
        let got = s.spawn("consumer", async move {
            let mut v = vec![];
            while v.len() < keep { match out.recv().await { Ok(IOData(m)) => v.push(m), Err(_) => break } }
            v
        });
        s.run(20)?;
        let got = got.borrow_mut().take().unwrap_or_default();
        ensure!(got[..] == msgs[..keep], "these messages came: {}", show_all(&got));
        let r = res.borrow_mut().take().ok_or("it never ended")?;
        if policy != Breakable::Terminate { ensure!(r.is_ok(), "it ended with {:?}", r); }
        if policy == Breakable::Terminate && keep + size + 1 < n { ensure!(r.is_err(), "it ended with {:?} although its output had gone", r); }
        Ok(())
    });
}
