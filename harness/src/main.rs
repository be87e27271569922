#[macro_use]
mod common;
mod link;
mod junction;
mod flow;
mod ends;
mod watch;
mod conf;
mod net;
mod draw;
mod join;
mod stdout;

use common::*;
use std::collections::HashSet;
use std::time::{Duration, Instant};

fn write_result(out: &str, v: serde_json::Value) {
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).expect("write result");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    epoch();
    // whoever started this may have had signals ignored, which programs started from here would inherit
    for sig in [libc::SIGINT, libc::SIGQUIT, libc::SIGHUP, libc::SIGTERM, libc::SIGUSR1, libc::SIGUSR2, libc::SIGSEGV, libc::SIGABRT] {
        unsafe {
            libc::signal(sig, libc::SIG_DFL);
            let mut set: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut set);
            libc::sigaddset(&mut set, sig);
            libc::sigprocmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
        }
    }
    if args.len() > 1 && args[1] == "--mode" { helper_mode(&args[2..]); return; }
    let prop = args.get(1).cloned().unwrap_or_default();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let out = opt("--out").unwrap_or_else(|| "/dev/stdout".into());
    let mut ctx = Ctx {
        tier: opt("--tier").unwrap_or_else(|| "quick".into()),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        only: opt("--only").and_then(|s| s.parse().ok()),
        budget: Duration::from_secs(opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(120)),
        started: Instant::now(),
        evaluations: 0,
        distinct: HashSet::new(),
        samples: vec![],
        rule: String::new(),
        pa2: opt("--pa2").unwrap_or_else(|| "/repo/target/debug/pa2".into()).into(),
        failure: None,
        groups: vec![],
        hints: opt("--hints").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default(),
        words: opt("--words").and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default(),
    };
    if opt("--verbose").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    touch();
    {
        let (out, prop) = (out.clone(), prop.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if since_touch() > 150_000 {
                let case = CURRENT_CASE.lock().unwrap_or_else(|e| e.into_inner()).clone();
                write_result(&out, serde_json::json!({
                    "property": prop, "evaluations": 1, "distinct_nontrivial": 1, "rule": "", "samples": [case],
                    "groups": [], "failure": {"what": "hung: no progress for 150 s", "case": case, "index": 0}
                }));
                std::process::exit(3);
            }
        });
    }
    match prop.as_str() {
        "C01" => link::c01(&mut ctx),
        "C02" => link::c02(&mut ctx),
        "C03" => link::c03(&mut ctx),
        "C04" => junction::c04(&mut ctx),
        "C05" => junction::c05(&mut ctx),
        "C06" => flow::c06(&mut ctx),
        "C07" => flow::c07(&mut ctx),
        "C08" => watch::c08(&mut ctx),
        "C09" => ends::c09(&mut ctx),
        "C10" => net::c10(&mut ctx),
        "C16" => net::c16(&mut ctx),
        "C11" => conf::c11(&mut ctx),
        "C12" => conf::c12(&mut ctx),
        "C13" => conf::c13(&mut ctx),
        "C14" => conf::c14(&mut ctx),
        "C15" => join::c15(&mut ctx),
        "C19" => draw::c19(&mut ctx),
        "C20" => stdout::c20(&mut ctx),
        "C17" => ends::c17(&mut ctx),
        "C21" => ends::c21(&mut ctx),
        "C22" => ends::c22(&mut ctx),
        "C18" => junction::c18(&mut ctx),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2); }
    }
    let failure = ctx.failure.as_ref().map(|(w, c, i)| serde_json::json!({"what": w, "case": c, "index": i}));
    write_result(&out, serde_json::json!({
        "property": prop, "evaluations": ctx.evaluations, "distinct_nontrivial": ctx.distinct.len(),
        "rule": ctx.rule, "samples": ctx.samples, "wall_s": ctx.started.elapsed().as_secs_f64(),
        "groups": ctx.groups.iter().map(|(n, c)| serde_json::json!({"group": n, "cases": c})).collect::<Vec<_>>(),
        "failure": failure
    }));
    std::process::exit(if ctx.failure.is_some() { 3 } else { 0 });
}

fn helper_mode(args: &[String]) {
    match args[0].as_str() {
        "chunks" => link::mode_chunks(&args[1..]),
        "readstdin" => link::mode_readstdin(),
        "place" => ends::mode_place(&args[1..]),
        "report" => ends::mode_report(&std::env::args_os().skip(3).collect::<Vec<_>>()),
        "writestd" => link::mode_writestd(&args[1..]),
        _ => std::process::exit(2),
    }
}
