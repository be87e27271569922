//! C04 broadcast and merge, C05 priorities and shares, C18 back-off.

use crate::common::*;
use crate::ensure;
use crate::link::*;
use async_std::channel::{bounded, unbounded, Receiver, Sender};
use pipeawesome2::back_off::BackOff;
use pipeawesome2::buffer::Buffer;
use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
use pipeawesome2::junction::Junction;
use pipeawesome2::motion::*;
use pipeawesome2::startable_control::StartableControl;
use std::time::{Duration, Instant};

fn rx_of(p: Pull) -> Receiver<IOData> {
    match p { Pull::Receiver(_, rx) => rx, x => panic!("expected a channel, got {:?}", x) }
}

fn label(i: usize, k: usize) -> Vec<u8> { format!("{}:{}", i, k).into_bytes() }
fn unlabel(b: &[u8]) -> (usize, usize) {
    let s = String::from_utf8_lossy(b).to_string();
    let mut it = s.split(':').map(|x| x.parse().unwrap_or(usize::MAX));
    (it.next().unwrap_or(usize::MAX), it.next().unwrap_or(usize::MAX))
}

/// `seq` holds every message of the inputs exactly once, each input's in its order.
fn check_merge(seq: &[Vec<u8>], counts: &[usize]) -> CaseResult {
    let mut next = vec![0usize; counts.len()];
    for m in seq {
        let (i, k) = unlabel(m);
        ensure!(i < counts.len() && k < counts[i], "a message nobody sent: {}", show(m));
        ensure!(k == next[i], "of input {} message {} came instead of message {}: {}", i, k, next[i], show_all(seq));
        next[i] += 1;
    }
    ensure!(next == counts, "of the inputs' {:?} messages {:?} came: {}", counts, next, show_all(seq));
    Ok(())
}

fn priorities(rng: &mut Rng, n: usize) -> Vec<isize> {
    let range: &[isize] = match rng.below(4) { 0 => &[0], 1 => &[0, 1], 2 => &[-2, -1, 0, 1, 2], _ => &[-100, -1, 3, 7, 1000] };
    (0..n).map(|_| *rng.pick(range)).collect()
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "numbers of inputs with their priorities and messages, outputs, channel sizes and a schedule; distinct = their description".into();
    let count = ctx.n(700, 8000);
    ctx.group("all inputs to all outputs", 0, count, 0.45, |rng, _| {
        let most = if rng.chance(1, 8) { 12 } else { 5 };
        let nin = rng.range(1, most);
        let nout = rng.range(1, 4);
        let prio = priorities(rng, nin);
        let counts: Vec<usize> = (0..nin).map(|_| match rng.below(4) { 0 => 0, 1 => 1, _ => rng.below(12) }).collect();
        let size = rng.range(1, 9);
        let with_spy = rng.chance(1, 3);
        describe(format!("inputs with priorities {:?} and {:?} messages to {} outputs of size {}, spy {}", prio, counts, nout, size, with_spy));
        let mut s = Sched::new(rng);
        let mut j = Junction::new();
        j.set_stdout_size(size);
        let mut before = vec![];
        let outs_first = rng.chance(1, 2);
        if outs_first { for o in 0..nout { before.push(j.add_output(OutputPort::Out, Breakable::Terminate, 7, 20 + o).map_err(|e| format!("{:?}", e))?); } }
        for i in 0..nin {
            let msgs: Vec<Vec<u8>> = (0..counts[i]).map(|k| label(i, k)).collect();
            if rng.chance(1, 3) {
                j.add_input(Pull::Mock(PullJourney { src: i, dst: 7 }, msgs.into_iter().map(IOData).collect()), prio[i]).map_err(|e| format!("{:?}", e))?;
            } else {
                let (tx, rx) = if rng.chance(1, 3) { unbounded() } else { bounded(rng.range(1, 4)) };
                s.spawn(&format!("producer {}", i), produce(tx, msgs, Rng::new(rng.next())));
                j.add_input(Pull::Receiver(PullJourney { src: i, dst: 7 }, rx), prio[i]).map_err(|e| format!("{:?}", e))?;
            }
        }
        if !outs_first { for o in 0..nout { before.push(j.add_output(OutputPort::Out, Breakable::Terminate, 7, 20 + o).map_err(|e| format!("{:?}", e))?); } }
        let got: Vec<_> = before.into_iter().map(|p| s.spawn("consumer", consume_pull(p, None, Rng::new(rng.next())))).collect();
        let (stx, srx) = bounded::<SpyMessage>(rng.range(1, 4));
        let spied = s.spawn("spy", async move { let mut n = 0usize; while srx.recv().await.is_ok() { n += 1; } n });
        let spy = if with_spy { Some(stx) } else { drop(stx); None };
        let res = s.spawn("junction", async move { let r = j.start(spy).await; (r.map_err(|e| format!("{:?}", e)), j) });
        s.run(60)?;
        let r = res.borrow_mut().take().unwrap();
        ensure!(r.0.is_ok(), "the junction failed: {:?}", r.0);
        let got: Vec<Vec<Vec<u8>>> = got.iter().map(|g| g.borrow_mut().take().unwrap()).collect();
        for g in &got { ensure!(*g == got[0], "the outputs got different sequences: {} and {}", show_all(&got[0]), show_all(g)); }
        let total: usize = counts.iter().sum();
        let n = spied.borrow_mut().take().unwrap();
        if with_spy { ensure!(n >= total * nout, "the spy saw {} of {} messages", n, total * nout); }
        check_merge(&got[0], &counts)
    });
    let count = ctx.n(500, 5000);
    ctx.group("outputs that hang up", 100_000, count, 0.35, |rng, _| {
        let nin = rng.range(1, 4);
        let nout = rng.range(1, 4);
        let prio = priorities(rng, nin);
        let counts: Vec<usize> = (0..nin).map(|_| rng.below(15)).collect();
        let total: usize = counts.iter().sum();
        let policies: Vec<Breakable> = (0..nout).map(|_| *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Finish, Breakable::Consume])).collect();
        let keep: Vec<Option<usize>> = (0..nout).map(|_| if rng.chance(1, 2) { None } else { Some(rng.below(total + 2)) }).collect();
        let size = rng.range(1, 4);
        describe(format!("inputs with priorities {:?} and {:?} messages to outputs {:?} of size {} whose readers take {:?}", prio, counts, policies, size, keep));
        let mut s = Sched::new(rng);
        let mut j = Junction::new();
        j.set_stdout_size(size);
        let got: Vec<_> = (0..nout).map(|o| {
            let p = j.add_output(OutputPort::Out, policies[o], 7, 20 + o).unwrap();
            s.spawn("consumer", consume_pull(p, keep[o], Rng::new(rng.next())))
        }).collect();
        let sent: Vec<_> = (0..nin).map(|i| {
            let (tx, rx) = bounded(rng.range(1, 4));
            j.add_input(Pull::Receiver(PullJourney { src: i, dst: 7 }, rx), prio[i]).unwrap();
            s.spawn(&format!("producer {}", i), produce(tx, (0..counts[i]).map(|k| label(i, k)).collect(), Rng::new(rng.next())))
        }).collect();
        let res = s.spawn("junction", async move { let r = j.start(None).await; let e = r.map_err(|e| matches!(e, MotionError::OutputClosed(..))); (e, j) });
        // every reader must be told of the end, whatever made the junction stop
        let done = s.until(60.0, || res.borrow().is_some() && got.iter().all(|g| g.borrow().is_some()));
        ensure!(done, "still waiting for: {}", s.pending().join(", "));
        let r = res.borrow_mut().take().unwrap();
        let got: Vec<Vec<Vec<u8>>> = got.iter().map(|g| g.borrow_mut().take().unwrap()).collect();
        let longest = got.iter().max_by_key(|g| g.len()).unwrap().clone();
        for (o, g) in got.iter().enumerate() {
            ensure!(*g == longest[..g.len()], "the outputs got different sequences: {} and {}", show_all(&longest), show_all(g));
            if let Some(k) = keep[o] { ensure!(g.len() <= k, "harness"); }
        }
        match &r.0 {
            Err(closed) => {
                ensure!(*closed, "the failure is not that an output is closed");
                ensure!((0..nout).any(|o| policies[o] == Breakable::Terminate && keep[o].is_some()), "no terminate output hung up, yet the junction failed");
            }
            Ok(_) => {
                let all_finish = (0..nout).all(|o| policies[o] == Breakable::Finish && keep[o].is_some());
                if !all_finish {
                    for o in 0..nout {
                        let want = keep[o].unwrap_or(total).min(total);
                        ensure!(got[o].len() == want, "output {} got {} of {} messages", o, got[o].len(), want);
                    }
                    let n: Vec<usize> = sent.iter().map(|x| x.borrow_mut().take().unwrap_or(usize::MAX)).collect();
                    ensure!(n == counts, "of the inputs' {:?} messages {:?} were taken", counts, n);
                    for o in 0..nout {
                        if policies[o] == Breakable::Terminate { if let Some(k) = keep[o] { ensure!(total <= k + size + 1, "a terminate output hung up after {} of {} messages, yet the junction succeeded", k, total); } }
                    }
                }
            }
        }
        let mut next = vec![0usize; nin];
        for m in &longest { let (i, k) = unlabel(m); ensure!(i < nin && k == next[i], "of input {} message {} came instead of message {}", i, k, next[i]); next[i] += 1; }
        drop(s);
        Ok(())
    });
}

struct Feed { tx: Vec<Sender<IOData>>, next: Vec<usize> }

/// The messages come in passes: each pass takes one message of each non-empty input of the first
/// group that has any. Within a pass the order is free.
fn check_passes(seq: &[Vec<u8>], prio: &[isize], first: &[usize], counts: &[usize]) -> CaseResult {
    let mut left = counts.to_vec();
    let mut next = first.to_vec();
    let mut order: Vec<isize> = prio.to_vec();
    order.sort();
    order.dedup();
    let mut at = 0;
    for p in order {
        loop {
            let mut pass: Vec<(usize, usize)> = (0..prio.len()).filter(|i| prio[*i] == p && left[*i] > 0).map(|i| (i, next[i])).collect();
            if pass.is_empty() { break; }
            let n = pass.len();
            ensure!(at + n <= seq.len(), "after {} messages {:?} should have come: {}", at, pass, show_all(seq));
            let mut got: Vec<(usize, usize)> = seq[at..at + n].iter().map(|m| unlabel(m)).collect();
            got.sort();
            pass.sort();
            ensure!(got == pass, "message {} and following are {:?} (input, number), they should be {:?}; all: {}", at, got, pass, show_all(seq));
            for (i, _) in pass { left[i] -= 1; next[i] += 1; }
            at += n;
        }
    }
    ensure!(at == seq.len(), "too many messages: {}", show_all(seq));
    Ok(())
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "priorities in the order of connecting, the messages waiting on each input; distinct = their description".into();
    let count = ctx.n(1500, 15000);
    ctx.group("everything waiting beforehand", 0, count, 0.4, |rng, _| {
        let most = if rng.chance(1, 6) { 30 } else { 6 };
        let nin = rng.range(1, most);
        let prio = priorities(rng, nin);
        let counts: Vec<usize> = (0..nin).map(|_| rng.below(7)).collect();
        describe(format!("priorities {:?}, waiting messages {:?}", prio, counts));
        let mut s = Sched::new(rng);
        let mut j = Junction::new();
        j.set_stdout_size(1 + counts.iter().sum::<usize>());
        for i in 0..nin {
            let msgs: Vec<Vec<u8>> = (0..counts[i]).map(|k| label(i, k)).collect();
            let (tx, rx) = unbounded();
            for m in msgs { tx.try_send(IOData(m)).unwrap(); }
            drop(tx);
            j.add_input(Pull::Receiver(PullJourney { src: i, dst: 7 }, rx), prio[i]).map_err(|e| format!("{:?}", e))?;
        }
        let out = j.add_output(OutputPort::Out, Breakable::Terminate, 7, 20).map_err(|e| format!("{:?}", e))?;
        let got = s.spawn("consumer", consume_pull(out, None, Rng::new(rng.next())));
        let res = s.spawn("junction", async move { j.start(None).await });
        s.run(60)?;
        ensure!(res.borrow_mut().take().unwrap().is_ok(), "the junction failed");
        let got = got.borrow_mut().take().unwrap();
        check_passes(&got, &prio, &vec![0; nin], &counts)
    });
    let count = ctx.n(120, 1500);
    ctx.group("inputs filled while running, some ending", 100_000, count, 0.35, |rng, _| {
        let nin = rng.range(2, 6);
        let prio = priorities(rng, nin);
        let rounds = rng.range(2, 5);
        let plan: Vec<Vec<usize>> = (0..rounds).map(|_| (0..nin).map(|_| if rng.chance(1, 3) { 0 } else { rng.below(5) }).collect()).collect();
        let ends: Vec<usize> = (0..nin).map(|_| rng.below(rounds + 2)).collect();
        describe(format!("priorities {:?}, rounds of messages {:?}, inputs end before round {:?}", prio, plan, ends));
        let mut s = Sched::new(rng);
        let mut j = Junction::new();
        j.set_stdout_size(200);
        let mut feed = Feed { tx: vec![], next: vec![0; nin] };
        for i in 0..nin {
            let (tx, rx) = unbounded();
            feed.tx.push(tx);
            j.add_input(Pull::Receiver(PullJourney { src: i, dst: 7 }, rx), prio[i]).map_err(|e| format!("{:?}", e))?;
        }
        let rx = rx_of(j.add_output(OutputPort::Out, Breakable::Terminate, 7, 20).map_err(|e| format!("{:?}", e))?);
        s.spawn("junction", async move { j.start(None).await });
        let mut open: Vec<bool> = vec![true; nin];
        for r in 0..rounds {
            s.spin(rng.below(30));
            let first = feed.next.clone();
            let mut counts = vec![0; nin];
            for i in 0..nin {
                if ends[i] <= r { if open[i] { feed.tx[i].close(); open[i] = false; } continue; }
                counts[i] = plan[r][i];
                for _ in 0..counts[i] { feed.tx[i].try_send(IOData(label(i, feed.next[i]))).unwrap(); feed.next[i] += 1; }
            }
            let total: usize = counts.iter().sum();
            ensure!(s.until(30.0, || rx.len() >= total), "round {}: {} of {} messages came", r, rx.len(), total);
            let mut seq = vec![];
            while let Ok(m) = rx.try_recv() { seq.push(m.0); }
            check_passes(&seq, &prio, &first, &counts).map_err(|e| format!("round {}: {}", r, e))?;
        }
        drop(s);
        Ok(())
    });
    let count = ctx.n(150, 1500);
    ctx.group("the urgent input overtakes", 200_000, count, 0.25, |rng, _| {
        let nlow = rng.range(1, 4);
        let order = rng.below(nlow + 1);
        let (urgent, other) = *rng.pick(&[(-1isize, 0isize), (0, 1), (-7, -3), (5, 9), (-2, 2)]);
        let before = rng.below(12);
        describe(format!("{} inputs of priority {} always full, one of priority {} connected as number {}; it gets a message after {} were read", nlow, other, urgent, order, before));
        let mut s = Sched::new(rng);
        let mut j = Junction::new();
        j.set_stdout_size(1);
        let mut txs = vec![];
        let mut utx = None;
        for i in 0..nlow + 1 {
            let (tx, rx) = unbounded();
            let p = if i == order { urgent } else { other };
            j.add_input(Pull::Receiver(PullJourney { src: i, dst: 7 }, rx), p).map_err(|e| format!("{:?}", e))?;
            if i == order { utx = Some(tx); } else {
                for k in 0..60 { tx.try_send(IOData(label(i, k))).unwrap(); }
                txs.push(tx);
            }
        }
        let utx = utx.unwrap();
        let rx = rx_of(j.add_output(OutputPort::Out, Breakable::Terminate, 7, 20).map_err(|e| format!("{:?}", e))?);
        s.spawn("junction", async move { j.start(None).await });
        for n in 0..before { ensure!(s.until(30.0, || !rx.is_empty()), "message {} never came", n); let _ = rx.try_recv(); }
        s.spin(50);
        utx.try_send(IOData(label(order, 0))).unwrap();
        // one message in the channel, one being sent, the rest of the pass under way
        let mut at = 0;
        loop {
            ensure!(s.until(30.0, || !rx.is_empty()), "the urgent message never came");
            let m = rx.try_recv().unwrap().0;
            if unlabel(&m).0 == order { break; }
            at += 1;
            ensure!(at <= nlow + 1, "{} other messages came before the urgent one", at);
        }
        drop(s);
        Ok(())
    });
}

// ------------------------------------------------------------------ C18

fn timed_wait(b: &mut BackOff) -> Duration {
    let t = Instant::now();
    async_std::task::block_on(b.wait());
    t.elapsed()
}

/// A wait of at least `k` squared milliseconds, and shorter than the next longer one unless the machine is busy.
fn about(d: Duration, k: u64) -> bool { d + Duration::from_micros(500) >= Duration::from_millis(k * k) }

pub fn c18(ctx: &mut Ctx) {
    ctx.rule = "sequences of fruitless and fruitful polls; distinct = their description".into();
    let long = std::thread::spawn(|| -> CaseResult {
        // far past the longest wait
        let mut b = BackOff::new();
        for i in 0..54u64 {
            let k = i.min(51);
            let d = timed_wait(&mut b);
            ensure!(about(d, if i < 51 { k } else { 50 }), "wait {} took only {:?}", i, d);
            ensure!(d <= Duration::from_millis(51 * 51 + 1500), "wait {} took {:?}", i, d);
        }
        Ok(())
    });
    let count = ctx.n(60, 300);
    ctx.group("waits after resets", 0, count, 0.3, |rng, _| {
        let plan: Vec<usize> = (0..rng.range(1, 4)).map(|_| rng.range(1, 9)).collect();
        describe(format!("runs of {:?} fruitless polls with progress in between", plan));
        // A busy machine makes single waits longer: the shortest of several tries counts.
        let total: usize = plan.iter().sum();
        let mut best = vec![Duration::from_secs(1000); total];
        for _ in 0..6 {
            let mut b = BackOff::new();
            let mut at = 0;
            for n in &plan {
                for k in 0..*n {
                    let d = timed_wait(&mut b);
                    ensure!(about(d, k as u64), "fruitless poll {} of its run was waited for {:?}", k, d);
                    best[at] = best[at].min(d);
                    at += 1;
                }
                b.reset();
            }
            let mut at = 0;
            let mut late = None;
            for n in &plan {
                for k in 0..*n as u64 {
                    if best[at] > Duration::from_millis(k * k + 2 * k + 1 + 8) { late = Some((k, best[at])); }
                    at += 1;
                }
            }
            if late.is_none() { return Ok(()); }
            if let Some((k, d)) = late { describe(format!("runs of {:?} fruitless polls: poll {} took {:?}", plan, k, d)); }
        }
        Err(format!("waits of {:?} in runs of {:?}", best, plan))
    });
    let tries = ctx.n(3, 12);
    ctx.group("components start again from zero", 50_000, tries * 2, 0.4, |rng, i| {
        let kind = i % 2;
        describe(format!("a {} idle for some 500 ms, then two messages", if kind == 0 { "junction" } else { "buffer's size report" }));
        let mut best = Duration::from_secs(1000);
        for _ in 0..5 {
            let mut s = Sched::new(rng);
            let (tx, rx) = unbounded();
            let rx = Pull::Receiver(PullJourney { src: 1, dst: 7 }, rx);
            let (out, mon) = if kind == 0 {
                let mut j = Junction::new();
                j.add_input(rx, 0).unwrap();
                let o = rx_of(j.add_output(OutputPort::Out, Breakable::Terminate, 7, 20).unwrap());
                s.spawn("junction", async move { j.start(None).await });
                (o, None)
            } else {
                let mut b = Buffer::new();
                b.add_input(rx, 0).unwrap();
                b.set_stdout_size(1);
                let o = rx_of(b.add_output(OutputPort::Out, Breakable::Terminate, 7, 20).unwrap());
                b.set_stdout_size(50);
                let m = b.add_buffer_size_monitor();
                s.spawn("buffer", async move { b.start(None).await });
                // fill what is in flight, so that every further message makes a report
                for _ in 0..4 { tx.try_send(IOData(b"x".to_vec())).unwrap(); }
                s.spin_for(30);
                (o, Some(m))
            };
            s.spin_for(500);
            if let Some(m) = &mon { while m.try_recv().is_ok() {} }
            if mon.is_none() { while out.try_recv().is_ok() {} }
            let seen = |n: usize| match &mon { Some(m) => m.len() >= n, None => out.len() >= n };
            tx.try_send(IOData(b"a".to_vec())).unwrap();
            if !s.until(5.0, || seen(1)) { return Err("the first message after the pause was not noticed".into()); }
            let base = match &mon { Some(m) => m.len(), None => out.len() };
            let t = Instant::now();
            tx.try_send(IOData(b"b".to_vec())).unwrap();
            if !s.until(5.0, || seen(base + 1)) { return Err("the second message was not noticed".into()); }
            best = best.min(t.elapsed());
            if best < Duration::from_millis(40) { return Ok(()); }
        }
        Err(format!("right after progress, the next message was noticed only after {:?}", best))
    });
    if ctx.failure.is_none() && ctx.only.map(|o| o == 90_000).unwrap_or(true) {
        ctx.group("far past the longest wait", 90_000, 1, 1.0, |_, _| {
            describe("54 fruitless polls in a row".into());
            while !long.is_finished() { touch(); std::thread::sleep(Duration::from_millis(50)); }
            Ok(())
        });
        let r = long.join().unwrap_or(Err("panicked".into()));
        if let (Err(e), None) = (r, &ctx.failure) { ctx.failure = Some((e, "54 fruitless polls in a row".into(), 90_000)); }
    }
}
