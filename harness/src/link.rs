//! C01 line framing, C02 single-link conservation, C03 what happens when an output has gone.

use crate::common::*;
use crate::ensure;
use async_std::channel::{bounded, unbounded, Receiver, Sender};
use pipeawesome2::buffer::Buffer;
use pipeawesome2::connectable::{Breakable, Connectable, OutputPort};
use pipeawesome2::faucet::Faucet;
use pipeawesome2::junction::Junction;
use pipeawesome2::motion::*;
use pipeawesome2::regulator::Regulator;
use pipeawesome2::startable_control::StartableControl;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};

pub const PJ: PullJourney = PullJourney { src: 3, dst: 4 };
pub fn journey(b: Breakable) -> Journey { Journey { src: 3, src_port: Some(OutputPort::Out), dst: 4, breakable: b } }

// ------------------------------------------------------------------ C01

fn drained(fd: i32) -> bool {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
    n == 0
}

fn wait_drained(fd: i32) {
    let t0 = std::time::Instant::now();
    let mut n = 0u32;
    while !drained(fd) {
        if t0.elapsed().as_secs() > 20 { return; }
        n += 1;
        if n > 200 { std::thread::sleep(std::time::Duration::from_micros(50)); } else { std::thread::yield_now(); }
    }
}

fn chunked(data: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut last = 0;
    for c in cuts { if *c > last && *c < data.len() { v.push(data[last..*c].to_vec()); last = *c; } }
    if last < data.len() { v.push(data[last..].to_vec()); }
    v
}

/// The reference: cut after each newline.
fn expected_lines(data: &[u8]) -> Vec<Vec<u8>> {
    data.split_inclusive(|b| *b == b'\n').map(|x| x.to_vec()).collect()
}

fn read_all(pull: &mut Pull) -> Result<Vec<Vec<u8>>, String> {
    let mut got = vec![];
    loop {
        match drive(motion_read(pull, false), 30)? {
            Ok(IODataWrapper::IOData(IOData(v))) => { got.push(v); if got.len() > 200_000 { return Err("endless messages".into()); } },
            Ok(IODataWrapper::Finished) => break,
            Ok(IODataWrapper::Skipped) => return Err("a blocking read was skipped".into()),
            Err(e) => return Err(format!("read failed: {}", e)),
        }
    }
    // the end of the source stays the end
    match drive(motion_read(pull, false), 30)? {
        Ok(IODataWrapper::Finished) => Ok(got),
        x => Err(format!("after the end of the source a read gave {:?}", x)),
    }
}

fn check_framing(data: &[u8], got: &[Vec<u8>]) -> CaseResult {
    let want = expected_lines(data);
    if got == &want[..] { return Ok(()); }
    let cat: Vec<u8> = got.concat();
    if cat != data {
        return Err(format!("the messages do not add up to the source: source {}, messages {}", show(data), show_all(got)));
    }
    Err(format!("the source is not cut after each newline: source {}, messages {}", show(data), show_all(got)))
}

fn pipe_pull(chunks: Vec<Vec<u8>>) -> (Pull, std::thread::JoinHandle<()>) {
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0) };
    let r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
    let h = std::thread::spawn(move || {
        for c in chunks {
            if w.write_all(&c).is_err() { return; }
            wait_drained(w.as_raw_fd());
        }
    });
    (Pull::File(PJ, async_std::fs::File::from(r), ReadSplitControl::new()), h)
}

pub fn gen_bytes(rng: &mut Rng, max: usize) -> Vec<u8> {
    let len = match rng.below(6) { 0 => rng.below(8), 1 => rng.range(250, 260), 2 => rng.range(505, 515), 3 => rng.below(max + 1), 4 => rng.range(1, 64), _ => rng.below(max / 4 + 1) };
    let alphabet: &[&[u8]] = &[b"a\n", b"ab\r\n", b"\r\n", b"\n", b"xyz\r", b"a\0\xff\xfe\r\n", b"abcdefghijklmnopqrstuvwxyz\n"];
    let a = rng.pick(alphabet).to_vec();
    let rare = rng.chance(1, 2);
    (0..len).map(|_| if rare && rng.chance(97, 100) { if rng.chance(9, 10) { b'q' } else { (rng.next() & 0xff) as u8 } } else { *rng.pick(&a) }).collect()
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "a byte string and the places where the source's reads are cut; distinct = (string, cuts) pairs".into();
    // every string over {a, CR, LF} up to a length, cut in every place
    let maxlen = ctx.n(4, 6) as usize;
    let mut all: Vec<(Vec<u8>, Vec<usize>)> = vec![];
    for len in 0..=maxlen {
        for code in 0..3usize.pow(len as u32) {
            let mut c = code;
            let s: Vec<u8> = (0..len).map(|_| { let d = c % 3; c /= 3; [b'a', b'\r', b'\n'][d] }).collect();
            for mask in 0..(1usize << len.saturating_sub(1)) {
                all.push((s.clone(), (1..len).filter(|i| mask & (1 << (i - 1)) != 0).collect()));
            }
        }
    }
    let n = all.len() as u64;
    ctx.group("every short source, cut everywhere", 0, n, 0.3, |_rng, i| {
        let (s, cuts) = &all[i as usize];
        describe(format!("source {} read in pieces {}", show(s), show_all(&chunked(s, cuts))));
        let (mut p, h) = pipe_pull(chunked(s, cuts));
        let got = read_all(&mut p)?;
        drop(p);
        let _ = h.join();
        check_framing(s, &got)
    });
    let count = ctx.n(400, 4000);
    ctx.group("random sources, random cuts", 100_000, count, 0.4, |rng, _| {
        let s = gen_bytes(rng, 3000);
        let ncuts = if rng.chance(1, 5) { s.len().min(40) } else { rng.below(12) };
        let mut cuts: Vec<usize> = (0..ncuts).map(|_| if rng.chance(1, 2) && s.len() > 256 { *rng.pick(&[253usize, 254, 255, 256, 257, 509, 510, 511]) } else { rng.below(s.len() + 1) }).collect();
        if rng.chance(1, 2) {
            // cut between a CR and a LF
            for i in 1..s.len() { if s[i - 1] == b'\r' && s[i] == b'\n' { cuts.push(i); } }
        }
        cuts.sort();
        cuts.dedup();
        describe(format!("source {} cut at {:?}", show(&s), &cuts[..cuts.len().min(40)]));
        let (mut p, h) = pipe_pull(chunked(&s, &cuts));
        let got = read_all(&mut p)?;
        drop(p);
        let _ = h.join();
        check_framing(&s, &got)
    });
    let mut sizes = ctx.sizes(300, 3_000_000);
    sizes.extend_from_slice(&[1023, 4095, 4096, 8192, 16_385, 65_536, 70_000, 131_073]);
    if ctx.thorough() { sizes.extend_from_slice(&[262_145, 500_000, 1_048_577]); }
    let count = sizes.len() as u64;
    ctx.group("very long lines", 150_000, count, 0.2, |rng, i| {
        let mut s = b"first\n".to_vec();
        s.extend(std::iter::repeat(b'q').take(sizes[i as usize]));
        if rng.chance(2, 3) { s.extend_from_slice(b"\nlast\n"); }
        describe(format!("a file with one line, a line of {} bytes and {}", sizes[i as usize], if s.ends_with(b"\n") { "another line" } else { "no newline at the end" }));
        let sc = Scratch::new("c01l");
        let f = sc.write("in", &s);
        let file = drive(async_std::fs::File::open(f), 30)?.map_err(|e| e.to_string())?;
        let mut p = Pull::File(PJ, file, ReadSplitControl::new());
        let got = read_all(&mut p)?;
        let lens: Vec<usize> = got.iter().map(|v| v.len()).collect();
        let want: Vec<usize> = expected_lines(&s).iter().map(|v| v.len()).collect();
        ensure!(lens == want, "the lines have {:?} bytes, the messages {:?}", want, &lens[..lens.len().min(20)]);
        ensure!(got.concat() == s, "the messages do not add up to the source");
        Ok(())
    });
    let me = std::env::current_exe().unwrap();
    let count = ctx.n(60, 600);
    ctx.group("a program's stdout and stderr", 200_000, count, 0.15, |rng, i| {
        let s = gen_bytes(rng, 2000);
        let mut cuts: Vec<usize> = (0..rng.below(10)).map(|_| rng.below(s.len() + 1)).collect();
        cuts.sort();
        cuts.dedup();
        let sc = Scratch::new("c01");
        let f = write_chunks(&sc, &chunked(&s, &cuts));
        let err = i % 2 == 1;
        describe(format!("a program writing {} to its {} in pieces cut at {:?}", show(&s), if err { "stderr" } else { "stdout" }, cuts));
        let mut c = async_std::process::Command::new(&me);
        c.args(&["--mode", "chunks", if err { "2" } else { "1" }, &f]);
        if err { c.stderr(async_std::process::Stdio::piped()); } else { c.stdout(async_std::process::Stdio::piped()); }
        let mut ch = c.spawn().map_err(|e| format!("harness: spawn: {}", e))?;
        let mut p = if err { Pull::CmdStderr(PJ, ch.stderr.take().unwrap(), ReadSplitControl::new()) } else { Pull::CmdStdout(PJ, ch.stdout.take().unwrap(), ReadSplitControl::new()) };
        let got = read_all(&mut p)?;
        check_framing(&s, &got)
    });
    let count = ctx.n(20, 150);
    ctx.group("standard input", 300_000, count, 0.1, |rng, _| {
        let s = gen_bytes(rng, 2000);
        describe(format!("standard input {}", show(&s)));
        let mut c = std::process::Command::new(&me);
        c.args(&["--mode", "readstdin"]);
        let o = run_program(c, Some(s.clone()), 60);
        ensure!(!o.timed_out, "reading standard input never ended");
        ensure!(o.code == Some(0), "reading standard input failed: {}", show(&o.err));
        check_framing(&s, &unframe(&o.out))
    });
    let count = ctx.n(40, 200);
    ctx.group("regular files", 400_000, count, 0.1, |rng, _| {
        let s = gen_bytes(rng, 20_000);
        describe(format!("file of {} bytes: {}", s.len(), show(&s)));
        let sc = Scratch::new("c01f");
        let f = sc.write("in", &s);
        let file = drive(async_std::fs::File::open(f), 30)?.map_err(|e| e.to_string())?;
        let mut p = Pull::File(PJ, file, ReadSplitControl::new());
        check_framing(&s, &read_all(&mut p)?)
    });
    ctx.group("read errors", 500_000, 14, 0.1, |rng, i| {
        let way = i % 7;
        if way >= 2 {
            let first = { let mut v: Vec<u8> = gen_bytes(rng, 300); v.push(b'x'); v };
            let what = ["a connection which is reset", "a socket which is not connected", "a socket whose peer refuses", "a file opened for writing", "memory nobody may read"][way as usize - 2];
            describe(match way { 2 => format!("{} after {}", what, show(&first)), _ => what.into() });
            let sc = Scratch::new("c01e");
            let mut before: Vec<Vec<u8>> = vec![];
            let mut keep = None;
            let made = (|| -> std::io::Result<std::fs::File> { Ok(match way {
                2 => {
                    let l = std::net::TcpListener::bind("127.0.0.1:0")?;
                    let a = std::net::TcpStream::connect(l.local_addr()?)?;
                    let (mut b, _) = l.accept()?;
                    b.write_all(&first)?;
                    before = expected_lines(&first);
                    before.pop();
                    keep = Some(b);
                    std::fs::File::from(std::os::fd::OwnedFd::from(a))
                }
                3 => unsafe { std::fs::File::from_raw_fd(libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0)) },
                4 => {
                    let to = { let u = std::net::UdpSocket::bind("127.0.0.1:0")?; u.local_addr()? };
                    let u = std::net::UdpSocket::bind("127.0.0.1:0")?;
                    u.connect(to)?;
                    u.set_read_timeout(Some(std::time::Duration::from_secs(20)))?;
                    let _ = u.send(b"x");
                    std::fs::File::from(std::os::fd::OwnedFd::from(u))
                }
                5 => std::fs::OpenOptions::new().write(true).create(true).open(sc.str("w"))?,
                _ => std::fs::File::open("/proc/self/mem")?,
            }) })();
            let f = match made { Ok(f) => f, Err(_) => { describe("no such failing read here".into()); return Ok(()); } };
            let mut p = Pull::File(PJ, async_std::fs::File::from(f), ReadSplitControl::new());
            let mut got = vec![];
            while got.len() < before.len() {
                match drive(motion_read(&mut p, false), 30)? {
                    Ok(IODataWrapper::IOData(IOData(v))) => got.push(v),
                    x => return Err(format!("before the failing read: {:?} after {}", x, show_all(&got))),
                }
            }
            ensure!(got == before, "before the failing read: {} instead of {}", show_all(&got), show_all(&before));
            if let Some(b) = keep.take() {
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe { libc::setsockopt(std::os::fd::AsRawFd::as_raw_fd(&b), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32); }
                drop(b);
            }
            return match drive(motion_read(&mut p, false), 30)? {
                Err(MotionError::ReadIOError(j, _, _)) => { ensure!(j == PJ, "the read error names another connection: {:?}", j); Ok(()) }
                x => Err(format!("a failing read gave {:?}", x)),
            };
        }
        if way == 0 {
            describe("a directory opened as a file".into());
            let sc = Scratch::new("c01d");
            let file = drive(async_std::fs::File::open(sc.0.clone()), 30)?.map_err(|e| e.to_string())?;
            let mut p = Pull::File(PJ, file, ReadSplitControl::new());
            match drive(motion_read(&mut p, false), 30)? {
                Err(MotionError::ReadIOError(j, _, _)) => { ensure!(j == PJ, "the read error names another connection: {:?}", j); Ok(()) }
                x => Err(format!("a failing read gave {:?}", x)),
            }
        } else {
            // data, then a failing read (nothing there yet, non-blocking)
            let first = { let mut v: Vec<u8> = gen_bytes(rng, 300); v.push(b'x'); v };
            let rest = gen_bytes(rng, 100);
            describe(format!("{} then a failing read, then {}", show(&first), show(&rest)));
            let mut fds = [0i32; 2];
            unsafe { assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK), 0) };
            let r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
            let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            w.write_all(&first).map_err(|e| e.to_string())?;
            let mut p = Pull::File(PJ, async_std::fs::File::from(r), ReadSplitControl::new());
            let mut got = vec![];
            loop {
                match drive(motion_read(&mut p, false), 30)? {
                    Ok(IODataWrapper::IOData(IOData(v))) => got.push(v),
                    Ok(x) => return Err(format!("a failing read gave {:?}", x)),
                    Err(MotionError::ReadIOError(j, _, _)) => { ensure!(j == PJ, "the read error names another connection: {:?}", j); break }
                    Err(e) => return Err(format!("a failing read gave the error {}", e)),
                }
            }
            let mut lines = expected_lines(&first);
            lines.pop();
            ensure!(got == lines, "before the failing read: {} instead of {}", show_all(&got), show_all(&lines));
            w.write_all(&rest).map_err(|e| e.to_string())?;
            drop(w);
            got.extend(read_all(&mut p)?);
            let mut whole = first.clone();
            whole.extend(&rest);
            check_framing(&whole, &got)
        }
    });
}

fn write_chunks(sc: &Scratch, chunks: &[Vec<u8>]) -> String {
    let mut v = vec![];
    for c in chunks { v.extend(&(c.len() as u32).to_le_bytes()); v.extend(c); }
    sc.write("chunks", &v)
}

fn unframe(v: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut i = 0;
    while i + 4 <= v.len() {
        let n = u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]) as usize;
        r.push(v[i + 4..(i + 4 + n).min(v.len())].to_vec());
        i += 4 + n;
    }
    r
}

pub fn mode_chunks(args: &[String]) {
    let fd: i32 = args[0].parse().unwrap();
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    for c in unframe(&std::fs::read(&args[1]).unwrap()) {
        if f.write_all(&c).is_err() { std::process::exit(1); }
        wait_drained(fd);
    }
    std::process::exit(0);
}

pub fn mode_readstdin() {
    let mut p = Pull::Stdin(PJ, async_std::io::stdin(), ReadSplitControl::new());
    match read_all(&mut p) {
        Ok(v) => {
            let mut o = std::io::stdout();
            for c in v { o.write_all(&(c.len() as u32).to_le_bytes()).unwrap(); o.write_all(&c).unwrap(); }
            o.flush().unwrap();
            std::process::exit(0)
        }
        Err(e) => { eprint!("{}", e); std::process::exit(1) }
    }
}

/// Write the framed messages of a file to stdout or stderr through a link, then exit at once.
pub fn mode_writestd(args: &[String]) {
    let msgs: VecDeque<IOData> = unframe(&std::fs::read(&args[1]).unwrap()).into_iter().map(IOData).collect();
    let j = journey(Breakable::Terminate);
    let push = if args[0] == "1" { Push::Stdout(j, async_std::io::stdout()) } else { Push::Stderr(j, async_std::io::stderr()) };
    let r = async_std::task::block_on(motion(Pull::Mock(PJ, msgs), MotionNotifications::empty(), None, push));
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}

// ------------------------------------------------------------------ C02

pub fn gen_msgs(rng: &mut Rng, max: usize) -> Vec<Vec<u8>> {
    let n = match rng.below(4) { 0 => rng.below(3), 1 => rng.range(7, 12), _ => rng.below(max + 1) };
    (0..n).map(|i| {
        let mut v = format!("{}:", i).into_bytes();
        if rng.chance(1, 20) { v.extend(vec![b'z'; rng.range(8000, 20000)]); } else { v.extend(gen_bytes(rng, 40)); }
        v
    }).collect()
}

async fn jitter(rng: &mut Rng) { for _ in 0..rng.below(4) { yield_now().await; } }

/// Offer messages on a channel, then close it. Gives how many were accepted.
pub async fn produce(tx: Sender<IOData>, msgs: Vec<Vec<u8>>, mut rng: Rng) -> usize {
    let mut n = 0;
    for m in msgs {
        jitter(&mut rng).await;
        if tx.send(IOData(m)).await.is_err() { return n; }
        n += 1;
    }
    jitter(&mut rng).await;
    n
}

/// Take messages until the channel is closed (or `limit` have been taken, then hang up).
pub async fn consume(rx: Receiver<IOData>, limit: Option<usize>, mut rng: Rng) -> Vec<Vec<u8>> {
    let mut v = vec![];
    loop {
        if limit == Some(v.len()) { return v; }
        jitter(&mut rng).await;
        match rx.recv().await { Ok(IOData(m)) => v.push(m), Err(_) => return v }
    }
}

pub async fn consume_pull(p: Pull, limit: Option<usize>, rng: Rng) -> Vec<Vec<u8>> {
    match p { Pull::Receiver(_, rx) => consume(rx, limit, rng).await, x => panic!("expected a channel, got {:?}", x) }
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "messages, kinds of source and destination, channel sizes and a schedule; distinct = their description".into();
    let me = std::env::current_exe().unwrap();
    let count = ctx.n(1500, 20000);
    ctx.group("link between channels", 0, count, 0.5, |rng, _| {
        let msgs = gen_msgs(rng, 40);
        let (cin, cout) = (rng.range(1, 9), rng.range(1, 9));
        let mock = rng.chance(1, 4);
        let iosender = rng.chance(1, 2);
        let mon = rng.below(3);
        let with_spy = rng.chance(1, 2);
        let with_port = rng.chance(3, 4);
        let breakable = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
        let mut s = Sched::new(rng);
        let pull = if mock {
            Pull::Mock(PJ, msgs.iter().cloned().map(IOData).collect())
        } else {
            let (tx, rx) = bounded(cin);
            s.spawn("producer", produce(tx, msgs.clone(), Rng::new(rng.next())));
            Pull::Receiver(PJ, rx)
        };
        let (otx, orx) = bounded(cout);
        let mut j = journey(breakable);
        j.src = rng.below(6);
        j.dst = rng.below(6);
        j.src_port = if with_port { Some(*rng.pick(&[OutputPort::Out, OutputPort::Err, OutputPort::Exit])) } else { None };
        describe(format!("{} messages {} from a {} (size {}) to a channel (size {}), monitor {}, spy {}, {:?}",
            msgs.len(), show_all(&msgs), if mock { "list" } else { "channel" }, cin, cout, mon, with_spy, j));
        let (jsrc, jdst, jport) = (j.src, j.dst, j.src_port);
        let push = if iosender { Push::IoSender(j, otx) } else { Push::Sender(j, otx) };
        let got = s.spawn("consumer", consume(orx, None, Rng::new(rng.next())));
        let (mtx, mrx) = bounded::<MonitorMessage>(rng.range(1, 8));
        let notifications = match mon { 0 => { drop(mtx); MotionNotifications::empty() }, 1 => MotionNotifications::read(mtx), _ => MotionNotifications::written(mtx) };
        let monitored = s.spawn("monitor", async move { let mut v = vec![]; while let Ok(m) = mrx.recv().await { v.push(m); } v });
        let (stx, srx) = bounded::<SpyMessage>(rng.range(1, 4));
        let spied = s.spawn("spy", async move { let mut v = vec![]; while let Ok(m) = srx.recv().await { v.push(m); } v });
        let spy = if with_spy { Some(stx) } else { drop(stx); None };
        let res = s.spawn("link", motion(pull, notifications, spy, push));
        s.run(40)?;
        let got = got.borrow_mut().take().unwrap();
        ensure!(got == msgs, "sent {}, delivered {}", show_all(&msgs), show_all(&got));
        let r = res.borrow_mut().take().unwrap();
        ensure!(r.is_ok(), "the link failed: {:?}", r);
        let m = monitored.borrow_mut().take().unwrap();
        if mon == 0 { ensure!(m.is_empty(), "notifications without a monitor"); } else {
            let ok = m.iter().all(|x| matches!((x, mon), (MonitorMessage::Read(_), 1) | (MonitorMessage::Wrote(_), 2)));
            ensure!(ok && m.len() == msgs.len() + 1, "{} messages and the end of the source gave the notifications {:?}", msgs.len(), m);
        }
        let sp = spied.borrow_mut().take().unwrap();
        if with_spy && with_port {
            let mut want: Vec<IODataWrapper> = msgs.iter().cloned().map(|m| IODataWrapper::IOData(IOData(m))).collect();
            want.push(IODataWrapper::Finished);
            ensure!(sp.iter().all(|x| x.src == jsrc && x.dst == jdst && Some(x.src_port) == jport), "the spy was told of another connection: {:?}", sp.iter().map(|x| (x.src, x.dst, x.src_port)).collect::<Vec<_>>());
            let seen: Vec<IODataWrapper> = sp.into_iter().map(|x| x.msg).collect();
            ensure!(seen == want, "the spy saw {:?} instead of {:?}", seen.len(), want.len());
        } else {
            ensure!(sp.is_empty(), "the spy was told of a connection without a port");
        }
        Ok(())
    });
    let count = ctx.n(400, 4000);
    ctx.group("one message to several outputs", 700_000, count, 0.2, |rng, _| {
        let msgs = gen_msgs(rng, 6);
        let nout = rng.range(1, 5);
        let mon = rng.below(3);
        let mut pushs = vec![];
        let mut outs = vec![];
        let mut labels = vec![];
        let mut count_end = 0;
        for _ in 0..nout {
            let (tx, rx) = unbounded();
            let gone = rng.chance(1, 3);
            let b = *rng.pick(if gone { &[Breakable::Finish, Breakable::Consume][..] } else { &[Breakable::Terminate, Breakable::Finish, Breakable::Consume][..] });
            if gone && b == Breakable::Finish { count_end += 1; }
            let j = Journey { src: rng.below(5), dst: rng.below(5), src_port: *rng.pick(&[Some(OutputPort::Out), Some(OutputPort::Err), Some(OutputPort::Exit), None]), breakable: b };
            labels.push(j);
            pushs.push(if rng.chance(1, 2) { Push::IoSender(j, tx) } else { Push::Sender(j, tx) });
            outs.push(if gone { None } else { Some(rx) });
        }
        let all_gone = count_end == nout;
        describe(format!("{} to outputs {:?}, gone: {:?}, monitor {}", show_all(&msgs), labels, outs.iter().map(|o| o.is_none()).collect::<Vec<_>>(), mon));
        let (mtx, mrx) = unbounded::<MonitorMessage>();
        let mut notifications = match mon { 0 => MotionNotifications::empty(), 1 => MotionNotifications::read(mtx), _ => MotionNotifications::written(mtx) };
        let (stx, srx) = unbounded::<SpyMessage>();
        let mut spy = Some(stx);
        let mut pull = Pull::Mock(PJ, msgs.iter().cloned().map(IOData).collect());
        let mut steps: Vec<IODataWrapper> = msgs.iter().cloned().map(|m| IODataWrapper::IOData(IOData(m))).collect();
        steps.push(IODataWrapper::Finished);
        for (k, step) in steps.iter().enumerate() {
            let end = *step == IODataWrapper::Finished;
            match drive(motion_worker(&mut pull, &mut notifications, &mut pushs, &mut spy, false), 30)? {
                Ok(MotionWorkerResult { finished, read: true }) => ensure!(finished == (end || all_gone), "step {}: finished is {}", k, finished),
                x => return Err(format!("step {} gave {:?}", k, x)),
            }
            let mut told = vec![];
            while let Ok(x) = srx.try_recv() { told.push((x.src, x.dst, x.src_port, x.msg)); }
            let want: Vec<_> = labels.iter().filter_map(|j| j.src_port.map(|p| (j.src, j.dst, p, step.clone()))).collect();
            ensure!(told == want, "step {}: the spy was told {:?} instead of {:?}", k, told, want);
            let mut noted = vec![];
            while let Ok(x) = mrx.try_recv() { noted.push(x); }
            ensure!(noted.len() == (if mon == 0 { 0 } else { 1 }) && noted.iter().all(|x| matches!((x, mon), (MonitorMessage::Read(_), 1) | (MonitorMessage::Wrote(_), 2))), "step {}: the notifications {:?}", k, noted);
            for rx in outs.iter().flatten() {
                let mut got = vec![];
                while let Ok(x) = rx.try_recv() { got.push(IODataWrapper::IOData(x)); }
                ensure!(got == (if end { vec![] } else { vec![step.clone()] }), "step {}: an output was given {:?}", k, got);
            }
            if all_gone { break; }
        }
        Ok(())
    });
    let count = ctx.n(60, 600);
    ctx.group("link to a file", 100_000, count, 0.15, |rng, _| {
        let msgs = gen_msgs(rng, 60);
        let cap = *rng.pick(&[1usize, 7, 4096, 8192]);
        describe(format!("messages {} to a file written through a buffer of {}", show_all(&msgs), cap));
        let sc = Scratch::new("c02");
        let file = drive(async_std::fs::File::create(sc.path("out")), 30)?.map_err(|e| e.to_string())?;
        let push = Push::File(journey(Breakable::Terminate), async_std::io::BufWriter::with_capacity(cap, file));
        let r = drive(motion(Pull::Mock(PJ, msgs.iter().cloned().map(IOData).collect()), MotionNotifications::empty(), None, push), 40)?;
        ensure!(r.is_ok(), "the link failed: {:?}", r);
        let got = sc.read("out");
        ensure!(got == msgs.concat(), "when the link had ended the file held {} instead of {}", show(&got), show(&msgs.concat()));
        Ok(())
    });
    let count = ctx.n(40, 400);
    ctx.group("link into a program", 200_000, count, 0.15, |rng, _| {
        let msgs = gen_msgs(rng, 60);
        describe(format!("messages {} to the stdin of cat", show_all(&msgs)));
        let sc = Scratch::new("c02p");
        let mut c = async_std::process::Command::new("sh");
        c.args(&["-c", "cat > \"$0\"", &sc.str("out")]).stdin(async_std::process::Stdio::piped());
        let mut ch = c.spawn().map_err(|e| format!("harness: spawn: {}", e))?;
        let push = Push::CmdStdin(journey(Breakable::Finish), ch.stdin.take().unwrap());
        let r = drive(motion(Pull::Mock(PJ, msgs.iter().cloned().map(IOData).collect()), MotionNotifications::empty(), None, push), 40)?;
        ensure!(r.is_ok(), "the link failed: {:?}", r);
        // the program only ends if its standard input has been closed
        drive(ch.status(), 40).map_err(|_| "the program's standard input was not closed".to_string())?.map_err(|e| e.to_string())?;
        let got = sc.read("out");
        ensure!(got == msgs.concat(), "the program was given {} instead of {}", show(&got), show(&msgs.concat()));
        Ok(())
    });
    let count = ctx.n(30, 200);
    ctx.group("link to stdout and stderr", 300_000, count, 0.1, |rng, i| {
        let msgs = gen_msgs(rng, 40);
        let fd = if i % 2 == 0 { "1" } else { "2" };
        describe(format!("messages {} to file descriptor {}", show_all(&msgs), fd));
        let sc = Scratch::new("c02s");
        let f = write_chunks(&sc, &msgs);
        let mut c = std::process::Command::new(&me);
        c.args(&["--mode", "writestd", fd, &f]);
        let o = run_program(c, None, 40);
        ensure!(!o.timed_out && o.code == Some(0), "the link failed: {:?}", o.code);
        let got = if fd == "1" { &o.out } else { &o.err };
        ensure!(*got == msgs.concat(), "{} was written instead of {}", show(got), show(&msgs.concat()));
        Ok(())
    });
    let count = ctx.n(40, 400);
    ctx.group("link out of a program", 400_000, count, 0.1, |rng, _| {
        let s = gen_bytes(rng, 3000);
        describe(format!("a program writing {}", show(&s)));
        let sc = Scratch::new("c02o");
        let f = sc.write("data", &s);
        let mut c = async_std::process::Command::new("cat");
        c.arg(&f).stdout(async_std::process::Stdio::piped());
        let mut ch = c.spawn().map_err(|e| format!("harness: spawn: {}", e))?;
        let pull = Pull::CmdStdout(PJ, ch.stdout.take().unwrap(), ReadSplitControl::new());
        let mut sch = Sched::new(rng);
        let (otx, orx) = bounded(rng.range(1, 8));
        let got = sch.spawn("consumer", consume(orx, None, Rng::new(rng.next())));
        let res = sch.spawn("link", motion(pull, MotionNotifications::empty(), None, Push::IoSender(journey(Breakable::Terminate), otx)));
        sch.run(40)?;
        ensure!(res.borrow_mut().take().unwrap().is_ok(), "the link failed");
        let got = got.borrow_mut().take().unwrap();
        check_framing(&s, &got)
    });
}

// ------------------------------------------------------------------ C03

fn is_closed_err(e: &MotionError) -> bool { matches!(e, MotionError::OutputClosed(..)) }

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "outputs with their policies and the message after which each goes away, and a schedule; distinct = their description".into();
    let count = ctx.n(1500, 20000);
    ctx.group("several outputs, some going away", 0, count, 0.4, |rng, _| {
        let nout = rng.range(1, 4);
        let nmsg = rng.range(1, 6);
        let policies: Vec<Breakable> = (0..nout).map(|_| *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Finish, Breakable::Consume])).collect();
        let gone: Vec<usize> = (0..nout).map(|_| if rng.chance(1, 3) { 99 } else { rng.below(nmsg + 1) }).collect();
        let io = rng.chance(1, 2);
        describe(format!("{} messages, outputs {:?}, gone before message {:?}", nmsg, policies, gone));
        let mut rxs = vec![];
        let mut pushs = vec![];
        for (i, p) in policies.iter().enumerate() {
            let (tx, rx) = unbounded();
            rxs.push(Some(rx));
            let j = Journey { src: 7, src_port: Some(OutputPort::Out), dst: 10 + i, breakable: *p };
            pushs.push(if io { Push::IoSender(j, tx) } else { Push::Sender(j, tx) });
        }
        let mut pull = Pull::Mock(PJ, (0..nmsg).map(|i| IOData(vec![b'0' + i as u8])).collect());
        let mut want: Vec<Vec<Vec<u8>>> = vec![vec![]; nout];
        let mut got: Vec<Vec<Vec<u8>>> = vec![vec![]; nout];
        for m in 0..nmsg {
            for i in 0..nout { if gone[i] == m { if let Some(rx) = rxs[i].take() { while let Ok(x) = rx.try_recv() { got[i].push(x.0); } } } }
            let r = drive(motion_worker(&mut pull, &mut MotionNotifications::empty(), &mut pushs, &mut None, false), 30)?;
            let data = vec![b'0' + m as u8];
            let dead = |i: usize| gone[i] <= m;
            let failing = (0..nout).find(|i| dead(*i) && policies[*i] == Breakable::Terminate);
            match failing {
                Some(f) => {
                    match r {
                        Err(MotionError::OutputClosed(j, _, OutputClosedReason::ChannelClosed, IOData(d))) => {
                            ensure!(j.dst == 10 + f && j.src == 7, "message {}: the error names output {} instead of {}", m, j.dst, 10 + f);
                            ensure!(d == data, "message {}: the error carries {}", m, show(&d));
                        }
                        x => return Err(format!("message {}: a terminate output is gone, yet the result is {:?}", m, x)),
                    }
                    for i in 0..f { if !dead(i) { want[i].push(data.clone()); } }
                    // outputs after the failing one may or may not have been given the message
                    for i in 0..nout { if let Some(rx) = &rxs[i] { while let Ok(x) = rx.try_recv() { got[i].push(x.0); } } }
                    for i in f + 1..nout { if got[i].len() == want[i].len() + 1 { want[i].push(data.clone()); } }
                    ensure!(got == want, "delivered {:?} instead of {:?}", got, want);
                    return Ok(());
                }
                None => {
                    let finished = (0..nout).all(|i| dead(i) && policies[i] == Breakable::Finish);
                    match r {
                        Ok(MotionWorkerResult { finished: f, read: true }) => ensure!(f == finished, "message {}: finished is {}, it should be {}", m, f, finished),
                        x => return Err(format!("message {}: {:?}", m, x)),
                    }
                    for i in 0..nout { if !dead(i) { want[i].push(data.clone()); } }
                    if finished { break; }
                }
            }
        }
        for i in 0..nout { if let Some(rx) = &rxs[i] { while let Ok(x) = rx.try_recv() { got[i].push(x.0); } } }
        ensure!(got == want, "delivered {:?} instead of {:?}", got, want);
        Ok(())
    });
    let count = ctx.n(400, 5000);
    ctx.group("a link whose reader hangs up", 100_000, count, 0.2, |rng, _| {
        let nmsg = rng.range(0, 30);
        let keep = rng.below(30);
        let policy = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
        let cout = rng.range(1, 5);
        describe(format!("{} messages, the reader takes {} and hangs up, policy {:?}, channel size {}", nmsg, keep, policy, cout));
        let msgs: Vec<Vec<u8>> = (0..nmsg).map(|i| format!("m{}", i).into_bytes()).collect();
        let mut s = Sched::new(rng);
        let (tx, rx) = bounded(rng.range(1, 4));
        let sent = s.spawn("producer", produce(tx, msgs.clone(), Rng::new(rng.next())));
        let (otx, orx) = bounded(cout);
        let got = s.spawn("consumer", consume(orx, Some(keep), Rng::new(rng.next())));
        let res = s.spawn("link", motion(Pull::Receiver(PJ, rx), MotionNotifications::empty(), None, Push::IoSender(journey(policy), otx)));
        s.run(40)?;
        let (got, res, sent) = (got.borrow_mut().take().unwrap(), res.borrow_mut().take().unwrap(), sent.borrow_mut().take().unwrap());
        hung_up(&msgs, keep, cout + 1, policy, got, sent, 4 + 1, res.map(|_| ()).map_err(|e| (is_closed_err(&e), format!("{:?}", e))), true)
    });
    let count = ctx.n(600, 6000);
    ctx.group("a component whose reader hangs up", 200_000, count, 0.3, |rng, i| {
        let nmsg = rng.range(0, 40);
        let keep = rng.below(40);
        let policy = *rng.pick(&[Breakable::Terminate, Breakable::Finish, Breakable::Consume]);
        let kind = i % 4;
        describe(format!("{}: {} messages, the reader takes {} and hangs up, policy {:?}", ["regulator", "junction", "buffer", "faucet"][kind as usize], nmsg, keep, policy));
        let msgs: Vec<Vec<u8>> = (0..nmsg).map(|i| format!("m{}\n", i).into_bytes()).collect();
        let sc = Scratch::new("c03");
        let file = sc.write("in", &msgs.concat());
        let mut s = Sched::new(rng);
        let (tx, rx) = bounded(rng.range(1, 4));
        let mut regulator = Regulator::new();
        let mut junction = Junction::new();
        let mut buffer = Buffer::new();
        let mut faucet = Faucet::new(file);
        let pull = Pull::Receiver(PJ, rx);
        let out = match kind {
            0 => { regulator.set_stdout_size(2); regulator.add_input(pull, 0).unwrap(); regulator.add_output(OutputPort::Out, policy, 1, 2) },
            1 => { junction.set_stdout_size(2); junction.add_input(pull, 0).unwrap(); junction.add_output(OutputPort::Out, policy, 1, 2) },
            2 => { buffer.set_stdout_size(2); buffer.add_input(pull, 0).unwrap(); buffer.add_output(OutputPort::Out, policy, 1, 2) },
            _ => { drop(pull); faucet.set_stdout_size(2); faucet.add_output(OutputPort::Out, policy, 1, 2) },
        }.map_err(|e| format!("{:?}", e))?;
        let sent = if kind == 3 { drop(tx); None } else { Some(s.spawn("producer", produce(tx, msgs.clone(), Rng::new(rng.next())))) };
        let got = s.spawn("consumer", consume_pull(out, Some(keep), Rng::new(rng.next())));
        let res = match kind {
            0 => s.spawn("regulator", async move { regulator.start(None).await }),
            1 => s.spawn("junction", async move { junction.start(None).await }),
            2 => s.spawn("buffer", async move { buffer.start(None).await }),
            _ => s.spawn("faucet", async move { faucet.start(None).await }),
        };
        s.run(60)?;
        let (got, res) = (got.borrow_mut().take().unwrap(), res.borrow_mut().take().unwrap());
        let sent = sent.map(|x| x.borrow_mut().take().unwrap()).unwrap_or(if policy == Breakable::Consume { nmsg } else { 0 });
        hung_up(&msgs, keep, 3, policy, got, sent, if kind == 2 { 1000 } else { 4 + 1 + 1 }, res.map(|_| ()).map_err(|e| (kind == 2 || is_closed_err(&e), format!("{:?}", e))), kind != 3)
    });
    ctx.group("a program which stops reading", 300_000, 12, 0.15, |rng, i| {
        let policy = [Breakable::Terminate, Breakable::Finish, Breakable::Consume][(i % 3) as usize];
        let nmsg = rng.range(1, 20);
        describe(format!("{} messages to a program which has ended, policy {:?}", nmsg, policy));
        let mut c = async_std::process::Command::new("true");
        c.stdin(async_std::process::Stdio::piped());
        let mut ch = c.spawn().map_err(|e| format!("harness: spawn: {}", e))?;
        let stdin = ch.stdin.take().unwrap();
        drive(ch.status(), 30)?.map_err(|e| e.to_string())?;
        let mut pull = Pull::Mock(PJ, (0..nmsg).map(|i| IOData(vec![b'a' + i as u8])).collect());
        let mut pushs = vec![Push::CmdStdin(journey(policy), stdin)];
        let r = drive(motion_worker(&mut pull, &mut MotionNotifications::empty(), &mut pushs, &mut None, false), 30)?;
        match (policy, r) {
            (Breakable::Terminate, Err(MotionError::OutputClosed(j, _, OutputClosedReason::BrokenPipe, IOData(d)))) => {
                ensure!(j == journey(policy) && d == vec![b'a'], "the error carries {:?} {}", j, show(&d)); Ok(())
            }
            (Breakable::Finish, Ok(MotionWorkerResult { finished: true, read: true })) => Ok(()),
            (Breakable::Consume, Ok(MotionWorkerResult { finished: false, read: true })) => Ok(()),
            (p, r) => Err(format!("policy {:?} gave {:?}", p, r)),
        }
    });
    ctx.group("a full disk", 400_000, 12, 0.15, |rng, i| {
        let policy = [Breakable::Terminate, Breakable::Finish, Breakable::Consume][(i % 3) as usize];
        let small = i % 2 == 0;
        let nmsg = rng.range(1, 5);
        describe(format!("{} {} messages to a full disk, policy {:?}", nmsg, if small { "small" } else { "large" }, policy));
        let file = drive(async_std::fs::OpenOptions::new().write(true).open("/dev/full"), 30)?.map_err(|e| e.to_string())?;
        let push = Push::File(journey(policy), async_std::io::BufWriter::new(file));
        let pull = Pull::Mock(PJ, (0..nmsg).map(|_| IOData(vec![b'a'; if small { 10 } else { 30_000 }])).collect());
        match drive(motion(pull, MotionNotifications::empty(), None, push), 40)? {
            Err(MotionError::WriteIOError(j, _, _, _)) | Err(MotionError::CloseIOError(j, _, _)) => { ensure!(j == journey(policy), "the error names another connection"); Ok(()) }
            x => Err(format!("data was lost on a full disk, yet the result is {:?}", x)),
        }
    });
}

/// What must hold after a reader took at most `keep` messages and hung up. `slack`: how many more
/// may have been handed over before the hang-up was noticed.
fn hung_up(msgs: &[Vec<u8>], keep: usize, slack: usize, policy: Breakable, got: Vec<Vec<u8>>, sent: usize, upstream: usize, res: Result<(), (bool, String)>, has_producer: bool) -> CaseResult {
    let n = msgs.len();
    ensure!(got == msgs[..n.min(keep)], "the reader took {} instead of {}", show_all(&got), show_all(&msgs[..n.min(keep)]));
    if n <= keep {
        // It asked for more than there is, so it never hung up (or only after the end).
        if n < keep { ensure!(res.is_ok(), "nobody hung up, yet the result is {:?}", res); }
        return Ok(());
    }
    if let Err((closed, e)) = &res { ensure!(*closed, "the failure is not that the output is closed: {}", e); }
    match policy {
        Breakable::Terminate => {
            if n > keep + slack { ensure!(res.is_err(), "the reader hung up with messages outstanding, yet the sender succeeded"); }
        }
        Breakable::Finish => {
            ensure!(res.is_ok(), "a finish output which is gone is not an error, yet the result is {:?}", res);
            if has_producer && n > keep + slack + upstream { ensure!(sent < n, "the sender went on to take all {} messages after its only output was gone", n); }
        }
        Breakable::Consume => {
            ensure!(res.is_ok(), "a consume output which is gone is not an error, yet the result is {:?}", res);
            ensure!(sent == n, "the sender took {} of {} messages after a consume output was gone", sent, n);
        }
    }
    Ok(())
}
#[allow(dead_code)]
fn unused(mut f: std::fs::File) { let mut v = vec![]; let _ = f.read_to_end(&mut v); }
