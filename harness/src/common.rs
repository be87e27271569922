//! Shared machinery: seeded choices, a single-threaded executor which polls the tasks it holds in
//! a seeded random order (so that a run explores one schedule per seed), scratch directories,
//! panic capture and the bookkeeping that ends up in the evidence file.

use std::cell::RefCell;
use std::collections::HashSet;
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}

pub type CaseResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}

pub struct Ctx {
    pub tier: String,
    pub seed: u64,
    pub only: Option<u64>,
    pub budget: Duration,
    pub started: Instant,
    pub evaluations: u64,
    pub distinct: HashSet<String>,
    pub samples: Vec<String>,
    pub rule: String,
    pub pa2: PathBuf,
    pub failure: Option<(String, String, u64)>, // (what, case, index)
    pub groups: Vec<(String, u64)>,
    /// numbers and words that are new in the source: sizes and names worth trying
    pub hints: Vec<usize>,
    pub words: Vec<String>,
}

thread_local! { static CASE: RefCell<String> = RefCell::new(String::new()); }
static LAST_PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CURRENT_CASE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Describe the case being run; it is what a replay file shows.
pub fn describe(s: String) {
    *CURRENT_CASE.lock().unwrap_or_else(|e| e.into_inner()) = s.clone();
    CASE.with(|c| *c.borrow_mut() = s);
}

pub fn epoch() -> Instant {
    use std::sync::Once;
    static mut E: Option<Instant> = None;
    static O: Once = Once::new();
    O.call_once(|| unsafe { E = Some(Instant::now()) });
    #[allow(static_mut_refs)]
    unsafe { E.unwrap() }
}

pub fn touch() { LAST_PROGRESS.store(epoch().elapsed().as_millis() as u64, Ordering::SeqCst); }
pub fn since_touch() -> u64 { (epoch().elapsed().as_millis() as u64).saturating_sub(LAST_PROGRESS.load(Ordering::SeqCst)) }

impl Ctx {
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// new numbers of the source within a range, each with its neighbours
    pub fn sizes(&self, lo: usize, hi: usize) -> Vec<usize> {
        let mut v: Vec<usize> = self.hints.iter().flat_map(|h| vec![h.saturating_sub(1), *h, h + 1, 2 * h + 1]).filter(|h| *h >= lo && *h <= hi).collect();
        v.sort();
        v.dedup();
        v.truncate(60);
        v
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough() { thorough } else { quick } }

    /// Run `count` seeded cases of a group. Stops at the first failure. The share of the time
    /// budget keeps a loaded machine from running out of it: at least `min` cases always run.
    pub fn group<F: FnMut(&mut Rng, u64) -> CaseResult>(&mut self, name: &str, base: u64, count: u64, share: f64, mut f: F) {
        if self.failure.is_some() { return; }
        let t0 = Instant::now();
        let limit = self.budget.mul_f64(share);
        let mut done = 0;
        for i in 0..count {
            let idx = base + i;
            if let Some(o) = self.only { if o != idx { continue; } }
            if t0.elapsed() > limit && done >= count / 10 { break; }
            touch();
            describe(format!("{} case {} (no description)", name, idx));
            let mut rng = Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(idx));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rng, i)));
            let case = CASE.with(|c| c.borrow().clone());
            self.evaluations += 1;
            done += 1;
            if self.samples.len() < 6 && (i % (count / 2 + 1)) == 0 { self.samples.push(case.chars().take(400).collect()); }
            let mut key = format!("{}|{}", name, case);
            if key.len() > 200 { key = format!("{}#{:x}", key.chars().take(120).collect::<String>(), fnv(&key)); }
            self.distinct.insert(key);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(what)) => { self.failure = Some((format!("{}: {}", name, what), case, idx)); return; }
                Err(p) => {
                    let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() }
                        else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
                        else { "?".to_string() };
                    self.failure = Some((format!("{}: panicked: {}", name, m), case, idx));
                    return;
                }
            }
        }
        self.groups.push((name.to_string(), done));
    }
}

pub fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

// ------------------------------------------------------------------ executor

pub type Slot<T> = Rc<RefCell<Option<T>>>;
pub fn slot<T>() -> Slot<T> { Rc::new(RefCell::new(None)) }

pub struct Sched<'a> {
    pub rng: Rng,
    tasks: Vec<(String, Pin<Box<dyn Future<Output = ()> + 'a>>)>,
    pub polls: u64,
    /// when set, a task is polled several times in a row before another one gets its turn
    pub burst: usize,
}

impl<'a> Sched<'a> {
    pub fn new(rng: &mut Rng) -> Sched<'a> {
        let burst = *rng.pick(&[1usize, 1, 2, 5]);
        Sched { rng: Rng::new(rng.next()), tasks: vec![], polls: 0, burst }
    }
    pub fn spawn<T: 'a, F: Future<Output = T> + 'a>(&mut self, name: &str, f: F) -> Slot<T> {
        let s = slot();
        let s2 = s.clone();
        self.tasks.push((name.to_string(), Box::pin(async move { let r = f.await; *s2.borrow_mut() = Some(r); })));
        s
    }
    pub fn pending(&self) -> Vec<String> { self.tasks.iter().map(|t| t.0.clone()).collect() }
    pub fn step(&mut self) {
        if self.tasks.is_empty() { return; }
        let i = self.rng.below(self.tasks.len());
        let n = self.rng.range(1, self.burst);
        for _ in 0..n {
            self.polls += 1;
            let w = futures::task::noop_waker();
            let mut cx = Context::from_waker(&w);
            if let Poll::Ready(()) = self.tasks[i].1.as_mut().poll(&mut cx) {
                self.tasks.remove(i);
                return;
            }
        }
    }
    /// Poll until every task is done; the names of those which never are, after `secs`, is the error.
    pub fn run(&mut self, secs: u64) -> Result<(), String> {
        let t0 = Instant::now();
        while !self.tasks.is_empty() {
            for _ in 0..16 { self.step(); }
            std::thread::yield_now();
            if t0.elapsed() > Duration::from_secs(secs) {
                return Err(format!("still waiting after {} s for: {}", secs, self.pending().join(", ")));
            }
        }
        Ok(())
    }
    /// Poll until `f` holds (true) or the time is up (false).
    pub fn until<F: FnMut() -> bool>(&mut self, secs: f64, mut f: F) -> bool {
        let t0 = Instant::now();
        loop {
            if f() { return true; }
            for _ in 0..4 { self.step(); }
            if t0.elapsed() > Duration::from_secs_f64(secs) { return f(); }
            std::thread::yield_now();
        }
    }
    pub fn spin(&mut self, polls: usize) { for _ in 0..polls { self.step(); } }
    pub fn spin_for(&mut self, ms: u64) {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_millis(ms) { self.spin(8); std::thread::yield_now(); }
    }
}

/// Drive one future alone.
pub fn drive<T, F: Future<Output = T>>(f: F, secs: u64) -> Result<T, String> {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let t0 = Instant::now();
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Ok(x); }
        if t0.elapsed() > Duration::from_secs(secs) { return Err(format!("still waiting after {} s", secs)); }
        std::thread::yield_now();
    }
}

/// Give way to the other tasks once.
pub struct YieldNow(pub bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 { return Poll::Ready(()); }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub async fn yield_now() { YieldNow(false).await }

// ------------------------------------------------------------------ scratch space

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("pa2h-{}-{}-{}", std::process::id(), tag, N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn path(&self, n: &str) -> PathBuf { self.0.join(n) }
    pub fn str(&self, n: &str) -> String { self.0.join(n).to_string_lossy().to_string() }
    pub fn write(&self, n: &str, data: &[u8]) -> String { std::fs::write(self.0.join(n), data).expect("scratch file"); self.str(n) }
    pub fn read(&self, n: &str) -> Vec<u8> { std::fs::read(self.0.join(n)).unwrap_or_default() }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(160).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 160 { format!("\"{}…\" ({} bytes)", s, b.len()) } else { format!("\"{}\"", s) }
}
pub fn show_all(v: &[Vec<u8>]) -> String {
    let s: Vec<String> = v.iter().take(30).map(|x| show(x)).collect();
    format!("[{}]{}", s.join(", "), if v.len() > 30 { format!(" … {} in all", v.len()) } else { String::new() })
}

pub struct Output { pub code: Option<i32>, pub out: Vec<u8>, pub err: Vec<u8>, pub timed_out: bool }

/// Run a program to its end, or end it after `secs`.
pub fn run_program(mut c: std::process::Command, stdin: Option<Vec<u8>>, secs: u64) -> Output {
    use std::io::{Read, Write};
    use std::process::Stdio;
    use std::os::unix::process::CommandExt;
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    c.process_group(0);
    let mut ch = c.spawn().expect("spawn");
    if let Some(data) = stdin {
        let mut si = ch.stdin.take().unwrap();
        std::thread::spawn(move || { let _ = si.write_all(&data); });
    }
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); v });
    let h2 = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    let t0 = Instant::now();
    let mut timed_out = false;
    let code = loop {
        if let Ok(Some(st)) = ch.try_wait() { break st.code(); }
        if t0.elapsed() > Duration::from_secs(secs) {
            timed_out = true;
            unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL); }
            let _ = ch.wait();
            break None;
        }
        touch();
        std::thread::sleep(Duration::from_millis(2));
    };
    if !timed_out { /* children may hold the pipes */ }
    Output { code, out: h1.join().unwrap_or_default(), err: h2.join().unwrap_or_default(), timed_out }
}

pub fn is_path(p: &Path) -> bool { p.exists() }
