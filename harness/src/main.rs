//! Runtime monitors for stun_codec. See /verif/DESIGN.md.
//!
//!   stunmon list
//!   stunmon worker <ID> <tier> <seed> <result.json> <inflight> <soft-seconds> [known-key..]
//!   stunmon batch <ID> <tier> <seed> <first> <end> [suite..]
//!   stunmon alone <seed> <tasks> <index>
//!   stunmon one <ID> <tier> <seed> <suite> <idx> [known-key..]
//!
//! `check.py` runs it, interprets crashes and writes the evidence.
mod alloc;
mod checks;
mod crypto;
mod ctx;
mod dict {
    include!(concat!(env!("OUT_DIR"), "/dict.rs"));
}
mod drive;
mod gen;
mod model;
mod probe;
mod rng;
mod sets;

use ctx::*;
use std::cell::RefCell;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn run_case(suite: &Suite, idx: u64, seed: u64, tier: Tier, st: &mut Stats, keys: &[String]) -> Chk {
    let mut case = Case { idx, r: case_rng(seed, suite.name, idx), st, tier, suite: suite.name, known_keys: keys };
    match catch_unwind(AssertUnwindSafe(|| (suite.run)(&mut case))) {
        Ok(r) => r,
        Err(_) => {
            let p = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if p.starts_with("src/") || p.contains("/harness/src/") {
                Err(Fail::new("the monitor could not interpret what the code returned").with(p))
            } else {
                Err(Fail::new(format!("panic: {}", p)))
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Failure {
    suite: &'static str,
    idx: u64,
    fail: Fail,
}

fn worker(args: &[String]) -> i32 {
    let check = find(&args[0]);
    let tier = Tier::parse(&args[1]).expect("tier");
    let seed: u64 = args[2].parse().expect("seed");
    let inflight = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&args[4]).expect("inflight file");
    let soft = Duration::from_secs(args[5].parse().expect("seconds"));
    let keys = &args[6..];
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let start = Instant::now();
    let total = Mutex::new(Stats::default());
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let mut ran = Vec::new();
    // start time (ms + 1) of the case each thread is running
    let busy: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let over = AtomicBool::new(false);
    std::thread::scope(|s| {
        let (busy, over) = (&busy, &over);
        s.spawn(move || {
            while !over.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64;
                for b in busy.iter() {
                    let t = b.load(Ordering::Relaxed);
                    if t != 0 && now > t + 60_000 {
                        eprintln!("a case has been running for more than 60 s");
                        std::process::exit(97);
                    }
                }
            }
        });
        for (si, suite) in check.suites.iter().enumerate() {
            let n = suite.n(tier);
            let chunk = (n / (threads as u64 * 32)).clamp(1, 4096);
            let next = AtomicU64::new(0);
            let done = AtomicU64::new(0);
            let bad = AtomicU64::new(0);
            let t0 = Instant::now();
            // every suite may use its share of the time that is left
            let left = check.suites[si..].iter().filter(|s| !s.must).count().max(1) as u32;
            let until = start.elapsed() + soft.saturating_sub(start.elapsed()) / left;
            std::thread::scope(|s| {
                for (ti, slot) in busy.iter().enumerate() {
                    let (next, done, bad, total, failures, inflight) = (&next, &done, &bad, &total, &failures, &inflight);
                    s.spawn(move || {
                        let mut st = Stats::default();
                        'all: loop {
                            let lo = next.fetch_add(chunk, Ordering::Relaxed);
                            if lo >= n {
                                break;
                            }
                            for idx in lo..(lo + chunk).min(n) {
                                if bad.load(Ordering::Relaxed) >= 3 || (!suite.must && start.elapsed() > until && done.load(Ordering::Relaxed) > 0) {
                                    break 'all;
                                }
                                let mut rec = [0u8; 16];
                                rec[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
                                rec[8..].copy_from_slice(&idx.to_le_bytes());
                                let _ = inflight.write_at(&rec, 16 * ti as u64);
                                slot.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                let r = run_case(suite, idx, seed, tier, &mut st, keys);
                                slot.store(0, Ordering::Relaxed);
                                done.fetch_add(1, Ordering::Relaxed);
                                if let Err(fail) = r {
                                    bad.fetch_add(1, Ordering::Relaxed);
                                    failures.lock().unwrap().push(Failure { suite: suite.name, idx, fail });
                                }
                            }
                        }
                        let _ = inflight.write_at(&[0u8; 16], 16 * ti as u64);
                        total.lock().unwrap().merge(st);
                    });
                }
            });
            ran.push((suite.name, n, done.load(Ordering::Relaxed), t0.elapsed().as_secs_f64()));
            if !failures.lock().unwrap().is_empty() {
                break;
            }
        }
        over.store(true, Ordering::Relaxed);
    });
    let st = total.into_inner().unwrap();
    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| f.idx);
    let list = |v: Vec<String>| v.join(",\n  ");
    let out = format!(
        "{{\"rule\": {},\n\"assumptions\": [{}],\n\"evaluations\": {},\n\"distinct\": {},\n\"threads\": {},\n\"suites\": [{}],\n\"counters\": {{{}}},\n\"samples\": [{}],\n\"known\": {{{}}},\n\"failures\": [{}]}}\n",
        js(check.rule),
        list(check.assumptions.iter().map(|a| js(a)).collect()),
        st.evals,
        st.distinct.len(),
        threads,
        list(ran.iter().map(|(n, p, d, t)| format!("{{\"name\": {}, \"planned\": {}, \"ran\": {}, \"wall_s\": {:.2}}}", js(n), p, d, t)).collect()),
        list(st.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect()),
        list(st.samples.iter().map(|s| js(s)).collect()),
        list(st.known.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect()),
        list(
            fs.iter()
                .map(|f| format!(
                    "{{\"suite\": {}, \"idx\": {}, \"msg\": {}, \"detail\": {}, \"key\": {}}}",
                    js(f.suite),
                    f.idx,
                    js(&clip(&f.fail.msg)),
                    js(&f.fail.detail),
                    f.fail.key.as_deref().map_or("null".to_owned(), js)
                ))
                .collect()
        ),
    );
    std::fs::write(&args[3], out).expect("result file");
    0
}

fn one(args: &[String]) -> i32 {
    let check = find(&args[0]);
    let tier = Tier::parse(&args[1]).expect("tier");
    let seed: u64 = args[2].parse().expect("seed");
    let suite = match args[3].parse::<usize>() {
        Ok(i) => &check.suites[i],
        Err(_) => check.suites.iter().find(|s| s.name == args[3]).expect("suite"),
    };
    let idx: u64 = args[4].parse().expect("index");
    println!("property {} suite {} case {} seed {} tier {}", check.id, suite.name, idx, seed, tier.name());
    let mut st = Stats::default();
    match run_case(suite, idx, seed, tier, &mut st, &args[5..]) {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(f) => {
            println!("violated: {}\n{}", f.msg, f.detail);
            1
        }
    }
}

/// A few cases of every suite, on this thread, announced one by one: for the interpreter.
fn batch(args: &[String]) -> i32 {
    let check = find(&args[0]);
    let tier = Tier::parse(&args[1]).expect("tier");
    let seed: u64 = args[2].parse().expect("seed");
    let (lo, hi): (u64, u64) = (args[3].parse().expect("first"), args[4].parse().expect("end"));
    let mut st = Stats::default();
    for suite in check.suites.iter().filter(|s| args[5..].is_empty() || args[5..].iter().any(|n| n == s.name)) {
        for idx in lo..hi.min(suite.n(tier)) {
            println!("case {} {}", suite.name.replace(' ', "_"), idx);
            if let Err(f) = run_case(suite, idx, seed, tier, &mut st, &[]) {
                println!("violated: {}\n{}", f.msg, f.detail);
                return 1;
            }
        }
    }
    println!("done {}", st.evals);
    0
}

fn find(id: &str) -> Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{}: {}", loc, msg)));
    }));
    if cfg!(miri) || std::env::args().nth(1).as_deref() == Some("alone") {
        // too slow there; it has run before
    } else if let Err(e) = crypto::self_test() {
        eprintln!("reference cryptography is wrong: {}", e);
        std::process::exit(2);
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") if args.len() >= 7 => worker(&args[1..]),
        Some("one") if args.len() >= 6 => one(&args[1..]),
        Some("batch") if args.len() >= 6 => batch(&args[1..]),
        Some("alone") if args.len() == 4 => {
            let n = |i: usize| args[i].parse::<u64>().expect("number");
            checks::c19::alone(n(1), n(2) as usize, n(3) as usize);
            0
        }
        Some("list") => {
            for c in checks::all() {
                for s in &c.suites {
                    println!("{} {} quick={} thorough={}", c.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: stunmon list | worker .. | one ..");
            2
        }
    };
    std::process::exit(code);
}
