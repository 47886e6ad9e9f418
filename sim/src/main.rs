#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#![allow(dead_code)]
mod alloc;
mod engine;
mod faults;
mod item;
mod json;
mod props;
mod rng;
mod rootmake;
mod rootfmt;
mod squeeze;
mod simos;
mod store;
mod tools;
mod world;

use engine::{Tier, Verdict};
use json::J;
use std::time::Instant;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn usage() -> ! {
    eprintln!("simcheck check ID quick|thorough | replay FILE | selftest ID.. | list | one ID IDX | bench ID N");
    std::process::exit(2)
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn workers() -> usize {
    std::env::var("SIM_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16))
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => check(&a[1], &a[2]),
        Some("replay") if a.len() == 2 => replay(&a[1]),
        Some("one") if a.len() >= 3 => one(&a[1], a[2].parse().unwrap(), a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("selftest") => selftest(&a[1..]),
        Some("digests") => {
            println!("{}", props::fixtures::record().set("tools", props::clitools::record()).pretty());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}

fn find(id: &str) -> &'static dyn engine::Prop {
    match props::all().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn tier_of(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn one(id: &str, idx: u64, tier: &str) -> i32 {
    let p = find(id);
    p.prepare();
    let mut r = rng::Rng::new(engine::case_seed(seed(), id, idx));
    let case = p.gen(&mut r, idx, tier_of(tier));
    println!("{}", case.pretty());
    let t = Instant::now();
    let o = engine::run_case(p, &case, std::env::var("SIM_TRACE").is_ok(), p.plan(tier_of(tier)).cpu);
    for t in &o.cx.traces {
        println!("{t}");
    }
    println!("runs {} calls {} fired {:?} probes {:?} {:?}", o.cx.runs, o.cx.agg.calls, o.cx.fired, o.cx.probes, t.elapsed());
    if let Verdict::Fail { class, msg, narrowed, .. } = &o.verdict {
        println!("FAIL {class}: {msg}\nnarrowed: {}", narrowed.as_ref().map(|n| n.to_string()).unwrap_or_default());
        return 1;
    }
    if let Verdict::Broken(m) = &o.verdict {
        println!("BROKEN {m}");
        return 2;
    }
    println!("pass");
    0
}

fn check(id: &str, tier: &str) -> i32 {
    let p = find(id);
    let t = tier_of(tier);
    let mut plan = p.plan(t);
    if let Some(n) = std::env::var("SIM_CASES").ok().and_then(|s| s.parse().ok()) {
        plan.cases = n;
    }
    if let Some(n) = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()) {
        plan.wall = n;
    }
    let dir = verif_dir();
    let sd = seed();
    println!("property {id} tier {tier} seed {sd} cases {} workers {}", plan.cases, workers());
    let ks = match engine::known_findings(&dir) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let t0 = Instant::now();
    // listed findings are demonstrated, not searched for
    p.prepare();
    let mut known_lines = vec![];
    for k in ks.iter().filter(|k| k.property == id) {
        let o = engine::run_case(p, &k.case, false, plan.cpu);
        match &o.verdict {
            Verdict::Fail { class, msg, .. } if *class == k.class && msg.contains(&k.contains) => {
                known_lines.push(format!("KNOWN-FINDING: property={id} {}", k.what));
            }
            Verdict::Broken(m) => {
                eprintln!("harness error on the case of a known finding: {m}");
                return 2;
            }
            v => println!("note: the listed finding '{}' did not show: {v:?}", k.what),
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    let b = engine::run_batch(p, t, sd, &plan, workers(), &ks, false);
    if let Some(m) = &b.broken {
        eprintln!("harness error: {m}");
        return 2;
    }
    let mut lines = vec![];
    if let Some(f) = b.fails.first() {
        if !f.b("repro") {
            eprintln!("harness error: case {} failed once and did not fail again: {} {}", f.u("index"), f.s("class"), f.s("msg"));
            return 2;
        }
        let rdir = format!("{dir}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{id}-{sd}-{}.json", f.u("index"));
        // the message of the minimised case
        let o = engine::run_case(p, f.get("case"), false, plan.cpu);
        let msg = match &o.verdict {
            Verdict::Fail { msg, .. } => msg.clone(),
            _ => f.s("msg").to_string(),
        };
        let rj = J::obj()
            .set("property", id)
            .set("tier", tier)
            .set("seed", sd)
            .set("index", f.u("index"))
            .set("class", f.s("class"))
            .set("msg", msg.as_str())
            .set("case", f.get("case").clone())
            .set("original", f.get("original").clone());
        if std::fs::write(&path, rj.pretty()).is_err() {
            eprintln!("cannot write {path}");
            return 2;
        }
        println!("violation class {}: {}", f.s("class"), msg);
        println!("seed {sd} case {} minimised with {} runs", f.u("index"), f.u("shrink_runs"));
        lines.push(format!("VIOLATION property={id} replay={path}"));
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut fired = J::obj();
    for (k, v) in &b.cx.fired {
        fired.put(k, *v);
    }
    for (k, v) in [("EINTR", b.cx.agg.eintr), ("short read", b.cx.agg.short_r), ("short write", b.cx.agg.short_w)] {
        fired.put(k, v);
    }
    let mut probes = J::obj();
    for (k, v) in &b.cx.probes {
        probes.put(k, *v);
    }
    let hours = (b.wall / 3600.0).max(1e-9);
    let mut samples = b.samples.clone();
    for s in samples.iter_mut() {
        if s.to_string().len() > 6000 {
            *s = J::obj().set("index", s.u("index")).set("case_truncated", &s.to_string().chars().take(3000).collect::<String>()[..]);
        }
    }
    let cov = J::obj()
        .set("evaluations", b.cx.runs)
        .set("distinct_nontrivial", b.distinct)
        .set("rule", p.rule())
        .set("samples", J::A(samples))
        .set("cases", b.cases)
        .set("runs_with_a_fault_interruption_or_switch", b.cx.nontrivial)
        .set("distinct_interleavings_measure", "distinct hashes over the ordered log of all simulated system calls (thread, operation, file, offset, length, result) and context switches of a run")
        .set("runs_per_hour", J::F((b.cx.runs as f64 / hours).round()))
        .set("case_seeds_per_hour", J::F((b.cases as f64 / hours).round()))
        .set("simulated_seconds", J::F(b.cx.agg.clock_ns as f64 / 1e9))
        .set("simulated_calls", b.cx.agg.calls)
        .set("context_switches", b.cx.agg.switches)
        .set("faults_injected", fired)
        .set("conditions_reached", probes)
        .set("known_findings_hit", b.known)
        .set("real_components", J::A(
                ["oxyroot (all of it, unmodified)", "oxyroot_derive", "Rust std (File, BufReader, BufWriter, Mutex, HashMap)", "flate2, lz4, xz2 codecs"]
                    .iter()
                    .chain(if id == "C23" { &["oxyroot-ls and oxyroot-dump (argument parsing, printing)"][..] } else { &[] })
                    .map(|s| J::from(*s))
                    .collect(),
            ))
        .set("simulated_components", J::A(["file system and descriptors", "clock", "randomness (hash seeds)", "thread scheduler", "process death (operation log of the simulated disk)"].iter().map(|s| J::from(*s)).collect()));
    let ev = J::obj()
        .set("property", id)
        .set("tier", tier)
        .set("seed", sd)
        .set("level", p.level())
        .set("coverage", cov)
        .set(
            "assumptions",
            J::A(["the simulated file system behaves like a POSIX file system except for the injected faults", "I/O reaches the operating system through the C library entry points that sim/src/simos.rs defines", "sampling: a clean batch is evidence, not proof"].iter().map(|s| J::from(*s)).collect()),
        )
        .set("wall_s", J::F((wall * 100.0).round() / 100.0))
        .set("violations", b.fails.len());
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if std::fs::write(format!("{dir}/evidence/{id}.json"), ev.pretty()).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    println!(
        "{} cases, {} simulated runs ({} distinct), {} calls, faults {:?}, {:.1} s",
        b.cases, b.cx.runs, b.distinct, b.cx.agg.calls, b.cx.fired, wall
    );
    println!("conditions reached: {:?}", b.cx.probes);
    if b.cases == 0 || b.cx.runs == 0 {
        eprintln!("harness error: nothing was explored");
        return 2;
    }
    for l in &lines {
        println!("{l}");
    }
    if lines.is_empty() {
        0
    } else {
        1
    }
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let j = match J::parse(&t) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let p = find(j.s("property"));
    p.prepare();
    let o = engine::run_case(p, j.get("case"), true, p.plan(Tier::Thorough).cpu);
    println!("trace of the last simulated run (virtual time, thread, call):");
    for t in &o.cx.traces {
        println!("  {t}");
    }
    match o.verdict {
        Verdict::Fail { class, msg, .. } => {
            println!("class {class}: {msg}");
            println!("event log hash {:x}", o.cx.fingerprint);
            if class == j.s("class") {
                println!("VIOLATION property={} replay={path}", j.s("property"));
                1
            } else {
                println!("a different violation than recorded ({})", j.s("class"));
                1
            }
        }
        Verdict::Pass => {
            println!("the case passes");
            0
        }
        Verdict::Broken(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

/// Determinism: the same seeds give the same event logs and verdicts, twice and
/// with different numbers of worker processes.
fn selftest(ids: &[String]) -> i32 {
    let n: u64 = std::env::var("SIM_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let mut bad = 0;
    for p in props::all() {
        if !ids.is_empty() && !ids.iter().any(|i| i == p.id()) {
            continue;
        }
        let mut base: Option<std::collections::BTreeMap<u64, String>> = None;
        let mut runs = 0;
        for w in [8usize, 3, 8, 1] {
            let mut plan = p.plan(Tier::Quick);
            plan.cases = plan.cases.min(if w == 1 { n / 4 } else { n });
            plan.wall = 600;
            let b = engine::run_batch(p, Tier::Quick, seed(), &plan, w, &[], true);
            if let Some(m) = b.broken {
                println!("{}: {m}", p.id());
                bad += 1;
                continue;
            }
            runs += b.cases;
            match &base {
                None => base = Some(b.fps),
                Some(x) => {
                    for (i, f) in &b.fps {
                        if x.get(i) != Some(f) {
                            println!("{}: case {i} differs between runs: {:?} {}", p.id(), x.get(i), f);
                            bad += 1;
                        }
                    }
                }
            }
        }
        println!("{}: {runs} case executions compared", p.id());
    }
    (bad > 0) as i32
}
