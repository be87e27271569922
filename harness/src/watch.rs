//! C08 watermarks.

use crate::common::*;
use crate::ensure;
use async_std::channel::unbounded;
use pipeawesome2::config_io::{parse_config_str, ConfigFormat};
use pipeawesome2::config_manip::{connection_manipulation, connection_manipulation_light};
use pipeawesome2::motion::*;
use pipeawesome2::waiter::{get_waiter, Waiter};

/// a waiter for a configuration, prepared as `process` does
pub fn waiter_of(yaml: &str, light: bool) -> Result<Waiter, String> {
    let mut c = parse_config_str(&ConfigFormat::Yaml, yaml)?;
    pipeawesome2::config::Config::convert_connections(&mut c.connection);
    get_waiter(if light { connection_manipulation_light(c) } else { connection_manipulation(c) })
}

/// what the watermarks demand: the number of signals sent so far, given the reports each buffer has yet to make
#[cfg(verif_hooks)]
struct Model { low: usize, high: usize, open: bool, signals: usize, reports: usize, mons: Vec<(usize, std::collections::VecDeque<usize>, bool, bool)> }
#[cfg(verif_hooks)]
impl Model {
    /// one look at every buffer; true if something was read
    fn pass(&mut self) -> bool {
        let mut read = false;
        let mut total = 0;
        for m in self.mons.iter_mut() {
            if m.3 { continue; }
            match m.1.pop_front() {
                Some(n) => { m.0 = n; total += n; self.reports += 1; read = true; },
                None if m.2 => { m.3 = true; },
                None => total += m.0,
            }
        }
        if self.open && total >= self.high { self.open = false; self.signals += 1; }
        if !self.open && total <= self.low { self.open = true; self.signals += 1; }
        read
    }
    fn settle(&mut self) { while self.pass() { } self.pass(); }
}

#[cfg(verif_hooks)]
fn c08_hooked(ctx: &mut Ctx) {
    use pipeawesome2::buffer::BufferSizeMessage;
    use pipeawesome2::regulator::verif_regulator_control;
    use pipeawesome2::waiter::verif_manage_regulator;
    let count = ctx.n(260, 3000);
    let words = ctx.sizes(4, 60);
    ctx.group("reports and signals", 0, count, 0.7, |rng, i| {
        let k = match rng.below(6) { 0 => 1, 1 => rng.range(4, 7), _ => rng.range(1, 3) };
        let low = if rng.chance(1, 4) { 0 } else { rng.below(8) };
        let high = low + 1 + if rng.chance(1, 4) { 0 } else { rng.below(9) };
        let high = if (i as usize) < words.len() { (low + 1).max(words[i as usize].min(1 << 40)) } else { high };
        let deaf = rng.chance(1, 8);
        let mut s = Sched::new(rng);
        let (ctl, told) = unbounded::<()>();
        let told = if deaf { None } else { Some(told) };
        let mut txs = vec![];
        let mut rxs = vec![];
        for _ in 0..k { let (tx, rx) = unbounded(); txs.push(Some(tx)); rxs.push(rx); }
        let eyes = rxs.clone();
        let res = s.spawn("management", async move { verif_manage_regulator(low, high, verif_regulator_control(ctl), rxs).await });
        let mut model = Model { low, high, open: true, signals: 0, reports: 0, mons: (0..k).map(|_| (0, Default::default(), false, false)).collect() };
        model.settle();
        let mut story = format!("watermarks {} and {}, {} buffers{}: ", low, high, k, if deaf { ", regulator gone" } else { "" });
        let steps = rng.range(1, 9);
        for step in 0..=steps {
            // several reports may be waiting when the buffers are looked at
            if step < steps {
                for m in 0..k {
                    let n = match rng.below(6) { 0 | 1 | 2 => 0, 3 | 4 => 1, _ => rng.range(2, 4) };
                    for _ in 0..n {
                        let v = match rng.below(5) { 0 => 0, 1 => high, 2 => high.saturating_sub(model.mons[(m + 1) % k].0), 3 => low, _ => rng.below(2 * high + 3) };
                        if let Some(tx) = &txs[m] { let _ = tx.try_send(BufferSizeMessage(v)); model.mons[m].1.push_back(v); story.push_str(&format!("{}:{} ", m, v)); }
                    }
                    if rng.chance(1, 9) && txs[m].is_some() { txs[m] = None; model.mons[m].2 = true; story.push_str(&format!("{}:gone ", m)); }
                }
            } else {
                for m in 0..k { txs[m] = None; model.mons[m].2 = true; }
                story.push_str("all gone");
            }
            describe(story.clone());
            let ended_before = model.mons.iter().all(|m| m.3);
            if !ended_before { model.settle(); }
            story.push_str("| ");
            let over = model.mons.iter().all(|m| m.3);
            let want = model.signals;
            if !s.until(8.0, || (over || eyes.iter().all(|r| r.is_empty())) && told.as_ref().map(|t| t.len() == want).unwrap_or(true)) {
                return Err(format!("it sent {} signals (pause, resume, ...) where {} are due", told.as_ref().map(|t| t.len()).unwrap_or(0), want));
            }
            // give it time to see which buffers have gone, so that this comes before what is reported next
            s.until(0.15, || eyes.iter().zip(&model.mons).all(|(r, m)| !m.3 || r.receiver_count() == 1));
            s.spin(6);
            if let Some(t) = &told { ensure!(t.len() == want, "it sent {} signals (pause, resume, ...) where {} are due", t.len(), want); }
            if !over { ensure!(res.borrow().is_none(), "it ended although buffers remain"); }
            if over { break; }
        }
        s.run(20)?;
        let r = res.borrow_mut().take();
        match r { Some(Ok(n)) => { ensure!(n == model.reports, "it counted {} reports of {}", n, model.reports); ensure!(model.open, "model"); Ok(()) }, x => Err(format!("it ended with {:?}", x)) }
    });
}
#[cfg(not(verif_hooks))]
fn c08_hooked(_ctx: &mut Ctx) {}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "watermarks, a number of buffers and their reports, or a running pipeline with watermarks; distinct = their description".into();
    c08_hooked(ctx);
    let count = ctx.n(6, 60);
    ctx.group("pipelines with watermarks", 100_000, count, 0.3, |rng, i| {
        let (low, high) = (rng.range(1, 4), rng.range(6, 14));
        let nbuf = 1 + (i % 3) as usize;
        let held = rng.below(nbuf);
        let lines = rng.range(120, 200);
        let unmonitored = i % 5 == 3;
        describe(format!("{} lines of 20000 bytes through a regulator ({}, {}) and {} buffers, consumer of buffer {} held{}", lines, low, high, nbuf, held, if unmonitored { "; no watermarks" } else { "" }));
        let sc = Scratch::new("c08");
        let line = |k: usize| { let mut v = vec![b'a' + (k % 26) as u8; 20_000]; v.push(b'\n'); v };
        let data: Vec<u8> = (0..lines).flat_map(line).collect();
        sc.write("in", &data);
        let go = sc.str("go");
        let mut y = format!("connection:\n  a: \"faucet:IN | regulator:R | junction:J\"\n");
        for b in 0..nbuf { y.push_str(&format!("  b{}: \"junction:J | buffer:B{} | launch:L{} | drain:O{}\"\n", b, b, b, b)); }
        y.push_str("launch:\n");
        for b in 0..nbuf { y.push_str(&format!("  L{}:\n    cmd: sh\n    arg: [\"-c\", {:?}]\n", b, if b == held { format!("while [ ! -e {} ]; do sleep 0.05; done; cat", go) } else { "cat".into() })); }
        y.push_str(&format!("faucet:\n  IN:\n    source: {:?}\ndrain:\n", sc.str("in")));
        for b in 0..nbuf { y.push_str(&format!("  O{}:\n    destination: {:?}\n", b, sc.str(&format!("out{}", b)))); }
        y.push_str("regulator:\n  R:\n");
        if !unmonitored { y.push_str(&format!("    buffered: [{}, {}]\n", low, high)); }
        y.push_str("    monitored_buffers: [");
        for b in 0..nbuf { y.push_str(&format!("{}B{}", if b > 0 { ", " } else { "" }, b)); }
        y.push_str("]\n");
        let mut w = waiter_of(&y, false)?;
        let names = w.get_id_to_component_type_name().ok_or("no names")?;
        let is = |id: usize, t: &str, n: &str| names.get(&id).map(|(ct, nm)| format!("{}", ct) == t && nm == n).unwrap_or(false);
        let (stx, srx) = unbounded::<SpyMessage>();
        let mut s = Sched::new(rng);
        let res = s.spawn("pipeline", async move { w.start(Some(stx)).await });
        // what the regulator passes on while one consumer stands still
        let mut passed = 0usize;
        let t0 = std::time::Instant::now();
        let mut last = std::time::Instant::now();
        let settle = std::time::Duration::from_millis(if unmonitored { 1500 } else { 900 });
        while t0.elapsed().as_secs() < 20 && last.elapsed() < settle {
            s.step();
            touch();
            while let Ok(m) = srx.try_recv() { if is(m.src, "Regulator", "R") && !matches!(m.msg, IODataWrapper::Finished) { passed += 1; last = std::time::Instant::now(); } }
        }
        // everything between the regulator and the held consumer but its buffer holds a bounded number of messages
        let slack = 60;
        if !unmonitored {
            ensure!(passed <= high + slack && passed < lines, "{} messages were passed on although a buffer stood at its high watermark of {}", passed, high);
            ensure!(passed >= high, "only {} messages were passed on before the high watermark of {}", passed, high);
        } else { ensure!(passed == lines, "without watermarks only {} of {} messages were passed on", passed, lines); }
        std::fs::write(&go, b"").map_err(|e| e.to_string())?;
        s.run(60)?;
        for b in 0..nbuf { ensure!(sc.read(&format!("out{}", b)) == data, "output {} does not hold the data", b); }
        let r = res.borrow_mut().take();
        match r { Some(Ok(_)) => Ok(()), x => Err(format!("it ended with {:?}", x)) }
    });
}
