//! C15: join strings.

use crate::common::*;
use crate::conf::*;
use crate::ensure;
use pipeawesome2::config::*;
use pipeawesome2::connectable::{Breakable, OutputPort};

fn word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }

/// what may stand between `[` and `]`, and the priority it stands for
fn number(rng: &mut Rng, hints: &[i64]) -> (String, isize) {
    let t = match rng.below(10) {
        0 => "".to_string(),
        1 => "-".to_string(),
        2 => format!("{}{}", "0".repeat(rng.range(1, 4)), rng.below(100)),
        3 => rng.pick(&["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-0", "-00012", "18446744073709551616", "4294967296", "2147483648", "-2147483649", "65536", "32768", "256", "128", "-129"]).to_string(),
        4 if !hints.is_empty() => { let h = *rng.pick(hints); format!("{}", h + rng.range(0, 2) as i64 - 1) },
        5 => format!("{}", rng.next() as i64),
        6 => format!("-{}", rng.below(1000)),
        _ => format!("{}", rng.below(20)),
    };
    let v = priority(&t);
    (t, v)
}
/// the number a text spells out, 0 if it spells none or too large a one
fn priority(t: &str) -> isize {
    let (neg, d) = match t.strip_prefix('-') { Some(r) => (true, r), None => (false, t) };
    if d.is_empty() { return 0; }
    let mut v: i128 = 0;
    for c in d.chars() {
        if v < 1 << 100 { v = v * 10 + (c as u8 - b'0') as i128; }
    }
    let v = if neg { -v } else { v };
    if v < isize::MIN as i128 || v > isize::MAX as i128 { 0 } else { v as isize }
}

/// a list and one way of writing it
fn written(rng: &mut Rng, words: &[String], hints: &[i64]) -> (Vec<El>, String) {
    let n = match rng.below(12) { 0 => rng.range(6, 40), 1 | 2 | 3 => 2, _ => rng.range(2, 6) };
    let k = rng.range(1, 6);
    let ps = pool(rng, words, k);
    let mut els = vec![];
    let mut s = String::new();
    for i in 0..n {
        let mut e = el(rng, &ps);
        if rng.chance(1, 3) {
            let len = match rng.below(8) { 0 => rng.range(20, 70), _ => rng.range(1, 6) };
            e.name = (0..len).map(|_| *rng.pick(&['a', 'z', 'm', 'A', 'Z', 'Q', '0', '9', '5', '_', 'f', 'T', 'O', 'E', 'X', 'C', 'F', 'd', 'r', 'j', 'b', 'l'])).collect();
        }
        e.prio = 0;
        if i > 0 {
            let (b, a) = (rng.below(4), rng.below(4));
            s.push_str(&" ".repeat(b));
            s.push_str(match e.pol { Breakable::Terminate => if rng.chance(1, 2) { "|T|" } else { "|" }, Breakable::Finish => "|F|", Breakable::Consume => "|C|" });
            s.push_str(&" ".repeat(a));
            if rng.chance(1, 2) { let (t, v) = number(rng, hints); s.push_str(&format!("[{}]", t)); e.prio = v; }
        } else { e.pol = Breakable::Terminate; }
        s.push_str(if rng.chance(1, 2) { full(e.ct) } else { letter(e.ct) });
        s.push(':');
        s.push_str(&e.name);
        if i + 1 < n {
            if e.port != OutputPort::Out || rng.chance(1, 2) { s.push_str(&format!("[{}]", port_letter(&e.port))); }
        } else { e.port = OutputPort::Out; }
        els.push(e);
    }
    (els, s)
}

/// what a text denotes, read by hand
fn meaning(text: &str) -> Option<Vec<El>> {
    let cs: Vec<char> = text.chars().collect();
    let at = |i: usize| cs.get(i).copied();
    let mut i = 0;
    let mut els: Vec<El> = vec![];
    let mut pol = Breakable::Terminate;
    if cs.is_empty() { return Some(els); }
    loop {
        // one component
        let mut e = El { ct: ComponentType::Faucet, name: String::new(), pol: pol.clone(), prio: 0, port: OutputPort::Out, set: None };
        if at(i) == Some('[') {
            if els.is_empty() { return None; }
            let j = i + (i..cs.len()).position(|k| cs[k] == ']').unwrap_or(cs.len());
            let t: String = cs.get(i + 1..j)?.iter().collect();
            if at(j).is_none() || !t.strip_prefix('-').unwrap_or(&t).chars().all(|c| c.is_ascii_digit()) { return None; }
            e.prio = priority(&t);
            i = j + 1;
        }
        let j = i + cs[i..].iter().position(|c| *c == ':')?;
        let w: String = cs[i..j].iter().collect();
        e.ct = *TYPES.iter().find(|t| w == full(**t) || w == letter(**t))?;
        i = j + 1;
        while at(i).map(word) == Some(true) { e.name.push(cs[i]); i += 1; }
        if e.name.is_empty() { return None; }
        let last = i == cs.len();
        if at(i) == Some('[') {
            e.port = match at(i + 1)? { 'O' => OutputPort::Out, 'E' => OutputPort::Err, 'X' => OutputPort::Exit, _ => return None };
            if at(i + 2) != Some(']') { return None; }
            i += 3;
        }
        els.push(e);
        if last { return if els.len() > 1 { Some(els) } else { None }; }
        // one pipe
        while at(i) == Some(' ') { i += 1; }
        if at(i) != Some('|') { return None; }
        i += 1;
        pol = Breakable::Terminate;
        if at(i + 1) == Some('|') {
            pol = match at(i)? { 'T' => Breakable::Terminate, 'F' => Breakable::Finish, 'C' => Breakable::Consume, _ => return None };
            i += 2;
        }
        while at(i) == Some(' ') { i += 1; }
    }
}

fn agrees(text: &str, want: &Option<Vec<El>>) -> CaseResult {
    let got = load_connection_from_string(text);
    match (got, want) {
        (Ok(g), Some(w)) => {
            let w = if w.is_empty() { vec![] } else { conns(w, false) };
            ensure!(g == w, "{:?} is read as {:?} and not as {:?}", text, g, w);
            Ok(())
        },
        (Ok(g), None) => Err(format!("{:?} denotes no connections and is read as {:?}", text, g)),
        (Err(e), Some(w)) => Err(format!("{:?} denotes {:?} and is refused: {}", text, conns(w, false), e)),
        (Err(_), None) => Ok(()),
    }
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "texts that differ".into();
    let words = ctx.words.clone();
    let hints: Vec<i64> = ctx.hints.iter().map(|x| *x as i64).collect();
    let n = ctx.n(20000, 400000);
    ctx.group("written lists", 0, n, 0.35, |rng, _i| {
        let (els, s) = written(rng, &words, &hints);
        describe(s.clone());
        ensure!(meaning(&s) == Some(els.clone()), "harness: {:?}", s);
        agrees(&s, &Some(els))
    });
    let n = ctx.n(40000, 800000);
    ctx.group("altered texts", 10_000_000, n, 0.35, |rng, _i| {
        let (_, s) = written(rng, &words, &hints);
        let mut cs: Vec<char> = s.chars().collect();
        for _ in 0..rng.range(1, 3) {
            let alphabet = ['|', ' ', '[', ']', ':', '-', 'T', 'F', 'C', 'O', 'E', 'X', 'a', 'f', 'd', '0', '1', '_', '\t', '\n', 'é', '+', 'Q', 't', '/', '{', '@', '`', '.', '٣'];
            let c = *rng.pick(&alphabet);
            match rng.below(7) {
                0 | 1 if !cs.is_empty() => { let k = rng.below(cs.len()); cs.remove(k); },
                2 => { let k = rng.range(0, cs.len()); cs.insert(k, c); },
                3 if !cs.is_empty() => { let k = rng.below(cs.len()); cs[k] = c; },
                4 if cs.len() > 1 => { let k = rng.below(cs.len() - 1); cs.swap(k, k + 1); },
                5 if !cs.is_empty() => { let a = rng.below(cs.len()); let b = rng.range(a, cs.len()); let part: Vec<char> = cs[a..b].to_vec(); let k = rng.range(0, cs.len()); for (o, c) in part.into_iter().take(12).enumerate() { cs.insert(k + o, c); } },
                6 if !cs.is_empty() => { let a = rng.below(cs.len()); let b = (a + rng.range(1, 8)).min(cs.len()); cs.drain(a..b); },
                _ => { if rng.chance(1, 2) { cs.push(c); } else { cs.insert(0, c); } },
            }
        }
        let s: String = cs.into_iter().collect();
        describe(s.clone());
        agrees(&s, &meaning(&s))
    });
    let n = ctx.n(20000, 400000);
    ctx.group("pieces in any order", 20_000_000, n, 0.25, |rng, _i| {
        let mut s = String::new();
        for _ in 0..rng.range(0, 12) {
            let t = match rng.below(12) {
                0 | 1 | 2 => format!("{}:{}", if rng.chance(1, 2) { full(*rng.pick(&TYPES)) } else { letter(*rng.pick(&TYPES)) }, name(rng, &words)),
                3 | 4 => "|".to_string(),
                5 => format!("|{}|", rng.pick(&["T", "F", "C", "", " ", "t", "TT", "X"])),
                6 => " ".to_string(),
                7 => format!("[{}]", number(rng, &hints).0),
                8 => format!("[{}]", rng.pick(&["O", "E", "X", "o", "", "OE", "Out", "T"])),
                9 if !words.is_empty() => rng.pick(&words).clone(),
                9 => "".to_string(),
                10 => rng.pick(&["faucet", "drain", "f", ":", "a", "lint", "[", "]", "-", "launcher:a", "F:a", "Faucet:a", "buff:a", "dr:a"]).to_string(),
                _ => format!("{} | {}", rng.pick(&["f:a", "j:b", "launch:c[E]"]), rng.pick(&["d:a", "[1]l:b", "b:c"])),
            };
            s.push_str(&t);
        }
        describe(s.clone());
        agrees(&s, &meaning(&s))
    });
}
