//! usym: symbolic execution of LLVM IR with an SMT solver deciding branches and assertions.
#![allow(dead_code)]
mod dbg;
mod exec;
mod expr;
mod ir;
mod lex;
mod mem;
mod parse;
mod selftest;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(", "))
}
fn jins(v: &[(char, u64)]) -> String {
    jlist(v.iter().map(|(k, x)| js(&format!("{}{}", k, x))))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s == "selftest").unwrap_or(false) {
        let n = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(2000);
        std::process::exit(if selftest::run(n) { 0 } else { 1 });
    }
    let mut file = None;
    let mut entry = None;
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut deadline = 600.0f64;
    let mut params = vec![];
    let mut known = vec![];
    let mut budget = 20_000_000u64;
    let mut qt = 60_000u32;
    let mut out = None;
    let mut verbose = false;
    let mut prefix = "/repo/src".to_string();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut next = || {
            i += 1;
            args.get(i).cloned().unwrap_or_else(|| {
                eprintln!("missing value for {}", a);
                std::process::exit(2)
            })
        };
        match a {
            "--threads" => threads = next().parse().unwrap(),
            "--deadline" => deadline = next().parse().unwrap(),
            "--params" => {
                let s = next();
                params = s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
            }
            "--known" => {
                let s = std::fs::read_to_string(next()).unwrap_or_default();
                known = s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
            }
            "--budget" => budget = next().parse().unwrap(),
            "--query-timeout" => qt = next().parse().unwrap(),
            "--out" => out = Some(next()),
            "--prefix" => prefix = next(),
            "--verbose" => verbose = true,
            _ if file.is_none() => file = Some(a.to_string()),
            _ if entry.is_none() => entry = Some(a.to_string()),
            _ => {
                eprintln!("unexpected argument {}", a);
                std::process::exit(2)
            }
        }
        i += 1;
    }
    let (file, entry) = match (file, entry) {
        (Some(f), Some(e)) => (f, e),
        _ => {
            eprintln!("usage: usym FILE.ll ENTRY [options]");
            std::process::exit(2)
        }
    };
    let t0 = Instant::now();
    let text: &'static str = Box::leak(
        std::fs::read_to_string(&file)
            .unwrap_or_else(|e| {
                eprintln!("{}: {}", file, e);
                std::process::exit(2)
            })
            .into_boxed_str(),
    );
    let m: &'static ir::Module = Box::leak(Box::new(parse::parse_module(text)));
    let parse_time = t0.elapsed().as_secs_f64();
    let eid = match m.function_ids.get(&entry) {
        Some(e) => *e,
        None => {
            eprintln!("no function {} in {}", entry, file);
            std::process::exit(2)
        }
    };
    let sh = Shared {
        m,
        entry: eid,
        jobs: Mutex::new(vec![]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        queued: AtomicUsize::new(0),
        workers: threads,
        stop: AtomicBool::new(false),
        stop_at: Mutex::new(None),
        results: Mutex::new(Results::default()),
        known,
        params: params.clone(),
        exts: m.externs.iter().map(|n| classify(n)).collect(),
        default_budget: budget,
        query_timeout: qt,
        verbose,
        total_steps: AtomicU64::new(0),
        done_paths: AtomicU64::new(0),
    };
    let finished = AtomicUsize::new(0);
    let panicked = AtomicUsize::new(0);
    let sh_ref = &sh;
    let fin = &finished;
    let pan = &panicked;
    std::thread::scope(|s| {
        for i in 0..threads {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let w = Worker::new(sh_ref);
                        w.run(i == 0);
                    }));
                    if r.is_err() {
                        pan.fetch_add(1, Ordering::SeqCst);
                        sh_ref.stop.store(true, Ordering::SeqCst);
                    }
                    fin.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        let mut last = Instant::now();
        while fin.load(Ordering::SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(5));
            let now = Instant::now();
            if t0.elapsed().as_secs_f64() > deadline {
                sh_ref.stop.store(true, Ordering::SeqCst);
            }
            if let Some(t) = *sh_ref.stop_at.lock().unwrap() {
                if now > t {
                    sh_ref.stop.store(true, Ordering::SeqCst);
                }
            }
            if verbose && now - last > Duration::from_secs(5) {
                last = now;
                eprintln!(
                    "[{:.0}s] paths {} steps {}M idle {} queued {}",
                    t0.elapsed().as_secs_f64(),
                    sh_ref.done_paths.load(Ordering::Relaxed),
                    sh_ref.total_steps.load(Ordering::Relaxed) / 1_000_000,
                    sh_ref.idle.load(Ordering::Relaxed),
                    sh_ref.queued.load(Ordering::Relaxed)
                );
            }
            if t0.elapsed().as_secs_f64() > deadline + 60.0 {
                // a solver call that ignores its time limit
                eprintln!("workers do not stop");
                std::process::exit(2);
            }
        }
    });
    let mut r = sh.results.lock().unwrap();
    if panicked.load(Ordering::SeqCst) > 0 {
        r.unsupported.insert("engine panic".into(), panicked.load(Ordering::SeqCst) as u64);
    }
    let (funcs, lines) = dbg::coverage(m, &r.cov, &prefix);
    let mut per: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    for (f, l) in &lines {
        per.entry(f.clone()).or_default().push(*l);
    }
    let mut o = String::new();
    let _ = writeln!(o, "{{");
    let _ = writeln!(o, "\"entry\": {}, \"params\": {}, \"z3\": {},", js(&entry), jlist(params.iter().map(|p| p.to_string())), js(&z3::version()));
    let _ = writeln!(o, "\"paths\": {}, \"killed\": {}, \"remaining\": {}, \"steps\": {}, \"max_steps\": {}, \"max_budget_used\": {},", r.paths, r.killed, r.remaining, r.steps, r.max_steps, r.max_budget_used);
    let _ = writeln!(o, "\"checks\": {}, \"checks_syntactic\": {}, \"checks_solver\": {}, \"branches\": {}, \"forks\": {},", r.checks, r.checks_syntactic, r.checks_solver, r.branches, r.forks);
    let _ = writeln!(o, "\"queries\": {}, \"cache_hits\": {}, \"solver_time\": {:.3}, \"slowest_query\": {:.3}, \"unknown\": {},", r.queries, r.cache_hits, r.solver_time, r.slowest, r.unknown);
    let _ = writeln!(o, "\"max_vars\": {}, \"max_path_condition\": {}, \"wall\": {:.3}, \"parse_time\": {:.3},", r.max_vars, r.max_pc, t0.elapsed().as_secs_f64(), parse_time);
    let _ = writeln!(o, "\"unsupported\": {{{}}},", r.unsupported.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"known\": {{{}}},", r.known.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"reached\": {{{}}},", r.reached.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(
        o,
        "\"violations\": {},",
        jlist(r.violations.iter().map(|v| format!(
            "{{\"kind\": {}, \"msg\": {}, \"site\": {}, \"signature\": {}, \"by_solver\": {}, \"steps\": {}, \"inputs\": {}, \"stack\": {}}}",
            js(&v.kind), js(&v.msg), js(&v.site), js(&v.signature), v.by_solver, v.steps, jins(&v.inputs), jlist(v.stack.iter().map(|s| js(s)))
        )))
    );
    let _ = writeln!(o, "\"samples\": {},", jlist(r.samples.iter().map(|s| format!("{{\"inputs\": {}, \"digest\": {}}}", jins(&s.0), s.1))));
    let _ = writeln!(o, "\"functions\": {},", jlist(funcs.iter().map(|s| js(s))));
    let _ = writeln!(o, "\"lines\": {{{}}}", per.iter().map(|(f, l)| format!("{}: [{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "}}");
    match out {
        Some(f) => std::fs::write(f, &o).unwrap(),
        None => print!("{}", o),
    }
    eprintln!(
        "{}: {} paths, {} killed, {} remaining, {} steps (max {}), {} checks ({} by solver), {} queries {:.1}s, {} unknown, {} unsupported, {} violations, {:.1}s",
        entry, r.paths, r.killed, r.remaining, r.steps, r.max_steps, r.checks, r.checks_solver, r.queries, r.solver_time, r.unknown, r.unsupported.len(), r.violations.len(), t0.elapsed().as_secs_f64()
    );
    drop(r);
    // skip tearing down arenas
    std::process::exit(0);
}
