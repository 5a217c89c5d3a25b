//! Runs the workers, judges, minimises, writes replay file and evidence.
use crate::minimize::Min;
use crate::registry::*;
use crate::rng::Rng;
use crate::stats::Stats;
use crate::worker::{Found, Msg};
use crate::world::World;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader};
use std::process::{Child, Command, Stdio};
use std::time::Instant;

fn root() -> String {
    std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn env_num(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn start(p: &Prop, seed: u64, tier: &str, me: u64, workers: u64, count: u64, wall: u64, announce: bool) -> Child {
    // a scratch directory of its own, so that nothing a stray call does can reach anything
    let dir = std::env::temp_dir().join(format!("dst-{}-{me}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let mut c = Command::new(std::env::current_exe().expect("self"));
    c.arg("worker").arg(p.id).arg(seed.to_string()).arg(tier).arg(me.to_string()).arg(workers.to_string());
    c.arg(count.to_string()).arg(wall.to_string());
    if announce {
        c.arg("announce");
    }
    c.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::piped());
    c.spawn().expect("worker")
}

fn scratch_gone() {
    for me in 0..64 {
        let dir = std::env::temp_dir().join(format!("dst-{}-{me}", std::process::id()));
        if dir.exists() {
            let _ = std::fs::remove_dir_all(&dir);
        }
    }
}

struct Batch {
    stats: Stats,
    found: Vec<Found>,
    unstable: Vec<Found>,
    dead: Vec<u64>, // workers that ended without a report
}

fn run_workers(p: &'static Prop, seed: u64, tier: &str, workers: u64, count: u64, wall: u64) -> Batch {
    let mut hs = vec![];
    for me in 0..workers {
        let mut ch = start(p, seed, tier, me, workers, count, wall, false);
        let out = ch.stdout.take().unwrap();
        hs.push((
            me,
            std::thread::spawn(move || {
                let mut v = vec![];
                for l in BufReader::new(out).lines().map_while(Result::ok) {
                    if let Ok(m) = serde_json::from_str::<Msg>(&l) {
                        v.push(m);
                    }
                }
                let _ = ch.wait();
                v
            }),
        ));
    }
    let mut b = Batch { stats: Stats::default(), found: vec![], unstable: vec![], dead: vec![] };
    for (me, h) in hs {
        let ms = h.join().unwrap();
        if ms.is_empty() {
            b.dead.push(me);
        }
        for m in ms {
            match m {
                Msg::Found(f) => b.found.push(f),
                Msg::Unstable(f) => b.unstable.push(f),
                Msg::Done(s) => b.stats.merge(s),
            }
        }
    }
    b
}

/// A worker died: run its share again, announcing every case, to learn which case kills the process.
fn autopsy(p: &'static Prop, seed: u64, tier: &str, me: u64, workers: u64, count: u64, wall: u64) -> Option<Found> {
    let mut ch = start(p, seed, tier, me, workers, count, wall, true);
    let out = ch.stdout.take().unwrap();
    let mut last = String::new();
    let mut finished = false;
    for l in BufReader::new(out).lines().map_while(Result::ok) {
        if l.starts_with('@') {
            last = l;
        } else if serde_json::from_str::<Msg>(&l).is_ok() {
            finished = true;
        }
    }
    let st = ch.wait().ok()?;
    if finished {
        return None;
    }
    let mut it = last[1..].splitn(3, ' ');
    let index = it.next()?.parse().ok()?;
    let sub: usize = it.next()?.parse().ok()?;
    let case = serde_json::from_str(it.next()?).ok()?;
    Some(Found { index, sub, class: "crash".into(), detail: format!("the process running the library died: {st}"), case })
}

pub fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let p = match prop(id) {
        Some(p) => p,
        None => {
            eprintln!("no check for {id}");
            return 2;
        }
    };
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let workers = env_num("DST_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 32));
    let count = env_num("DST_COUNT", if thorough { p.thorough } else { p.quick });
    let wall = env_num("DST_WALL_MS", if thorough { 1_500_000 } else { 240_000 });
    let mut b = run_workers(p, seed, tier, workers, count, wall);
    for me in b.dead.clone() {
        match autopsy(p, seed, tier, me, workers, count, wall) {
            Some(f) => b.found.push(f),
            None => {
                eprintln!("worker {me} ended without a report; nothing is decided");
                scratch_gone();
                return 2;
            }
        }
    }
    scratch_gone();
    if let Some(u) = b.unstable.first() {
        eprintln!("case {}.{} is not repeatable: {} ({})", u.index, u.sub, u.detail, u.class);
        return 2;
    }
    b.found.sort_by_key(|f| (f.index, f.sub));
    let s = &b.stats;
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = b.found.first() {
        violations = 1;
        match report(p, tier, seed, f) {
            Some(path) => {
                println!("{}: {}", f.class, f.detail.chars().take(1500).collect::<String>());
                println!("VIOLATION property={id} replay={path}");
                code = 1;
            }
            None => {
                eprintln!("violation at case {}.{} ({}) could not be reproduced from its replay file", f.index, f.sub, f.class);
                code = 2;
            }
        }
    } else if s.runs == 0 || s.void * 2 > s.runs {
        eprintln!("{} of {} runs decided nothing", s.void, s.runs);
        code = 2;
    }
    evidence(p, tier, seed, workers, &b.stats, t0.elapsed().as_secs_f64(), violations);
    println!(
        "{id} {tier} seed {seed}: {} runs, {} distinct non-trivial, {} void, {} redone for determinism, slowest {:.1}+{:.1} s, {:.1} s{}",
        s.runs,
        s.sigs.len(),
        s.void,
        s.redone,
        s.slowest_program as f64 / 1e3,
        s.slowest_case as f64 / 1e3,
        t0.elapsed().as_secs_f64(),
        if s.capped { ", stopped by the time limit" } else { "" }
    );
    code
}

fn report(p: &'static Prop, tier: &str, seed: u64, f: &Found) -> Option<String> {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{tier}-{seed}-{}-{}.json", p.id, f.index, f.sub);
    let mut w = World::new();
    let scratch = std::env::temp_dir().join(format!("dst-{}-0", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let _ = std::env::set_current_dir(&scratch);
    let (mut best, mut detail) = (f.case.clone(), f.detail.clone());
    let fatal = f.class == "hang" || f.class == "crash";
    if !fatal {
        let mut m = Min::new(p, &mut w, &f.class, &f.case, &f.detail);
        m.go();
        best = m.best.clone();
        detail = m.detail.clone();
    }
    let mut ok = false;
    for case in [&best, &f.case] {
        let (mut trace, mut sig) = (vec![], 0);
        if !fatal {
            w.trace = Some(vec![]);
            w.memo.clear();
            let v = (p.run)(case, &mut w);
            trace = w.trace.take().unwrap_or_default();
            sig = v.sig;
            if let Some(x) = v.violation {
                detail = x.detail;
            }
        }
        let doc = json!({
            "property": p.id,
            "seed": seed,
            "tier": tier,
            "index": f.index,
            "sub": f.sub,
            "class": f.class,
            "detail": detail,
            "signature": sig,
            "case": case,
            "original_case": f.case,
            "trace": trace,
        });
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
        let st = Command::new(std::env::current_exe().ok()?)
            .arg("replay")
            .arg(&path)
            .env("DST_QUIET", "1")
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .ok()?;
        let c = st.code();
        if c == Some(1) || fatal && (c.is_none() || c == Some(134)) {
            ok = true;
            break;
        }
    }
    let _ = std::env::set_current_dir("/");
    scratch_gone();
    if ok {
        Some(path)
    } else {
        None
    }
}

/// Exit 1: the violation came back exactly; 0: it did not.
pub fn replay(file: &str, verbose: bool) -> i32 {
    let d: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(d) => d,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let id = d["property"].as_str().unwrap_or("");
    let class = d["class"].as_str().unwrap_or("");
    let p = match prop(id) {
        Some(p) => p,
        None => return 2,
    };
    let case = match serde_json::from_value(d["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let dir = std::env::temp_dir().join(format!("dst-{}-0", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::env::set_current_dir(&dir);
    crate::worker::limits();
    let fatal = class == "hang" || class == "crash";
    if fatal {
        // a run that does not end, or takes the process with it
        extern "C" {
            fn setrlimit(res: i32, l: *const [u64; 2]) -> i32;
        }
        let s = crate::worker::CPU_LIMIT_MS / 1000;
        unsafe { setrlimit(0, &[s, s + 5]) };
    }
    let mut w = World::new();
    w.trace = Some(vec![]);
    let v = (p.run)(&case, &mut w);
    let _ = std::env::set_current_dir("/");
    scratch_gone();
    if verbose && std::env::var("DST_QUIET").is_err() {
        for l in w.trace.unwrap_or_default() {
            println!("{l}");
        }
    }
    let same = d["signature"].as_u64() == Some(v.sig);
    match v.violation {
        Some(x) => {
            println!("{}: {}", x.class, x.detail);
            println!("{}", if same { "same execution as recorded" } else { "execution differs from the recorded one" });
            if x.class == class {
                println!("VIOLATION property={id} replay={file}");
                1
            } else {
                0
            }
        }
        None => {
            println!("no violation{}", if v.void { " (nothing decided)" } else { "" });
            0
        }
    }
}

pub fn show(id: &str, seed: u64, index: u64) -> i32 {
    let p = prop(id).expect("property");
    let mut w = World::new();
    let mut r = Rng::for_case(seed, id, index);
    for (i, c) in (p.gen)(&mut r, &mut w).iter().enumerate() {
        println!("--- {index}.{i} {}", serde_json::to_string(c).unwrap());
        w.trace = Some(vec![]);
        w.memo.clear();
        let v = (p.run)(c, &mut w);
        for l in w.trace.take().unwrap() {
            println!("{l}");
        }
        println!("=> {v:?}");
    }
    0
}

/// Every property: the same cases under different worker counts must give the same signatures.
pub fn determinism(count: u64, seed: u64) -> i32 {
    let mut bad = 0;
    for p in props() {
        let mut seen: Vec<(u64, Vec<u64>, u64, u64)> = vec![];
        for workers in [1, 3, 8] {
            let b = run_workers(p, seed, "quick", workers, count, 600_000);
            let mut v: Vec<u64> = b.stats.sigs.iter().copied().collect();
            v.sort();
            if !b.unstable.is_empty() || !b.dead.is_empty() {
                bad += 1;
            }
            seen.push((b.stats.runs, v, b.stats.syscalls, b.stats.void));
        }
        let same = seen.windows(2).all(|x| x[0].0 == x[1].0 && x[0].1 == x[1].1 && x[0].3 == x[1].3);
        println!("{} {} runs, {} signatures: {}", p.id, seen[0].0, seen[0].1.len(), if same { "same" } else { "DIFFERENT" });
        if !same {
            bad += 1;
        }
    }
    scratch_gone();
    (bad > 0) as i32
}

fn evidence(p: &Prop, tier: &str, seed: u64, workers: u64, s: &Stats, wall: f64, violations: u64) {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let faults: serde_json::Map<String, Value> = s
        .counts
        .iter()
        .filter(|(k, _)| {
            ["fault", "short", "interrupted", "space", "power", "stream", "context", "worker-pool"].iter().any(|x| k.starts_with(x))
                || k.starts_with("created by another")
        })
        .map(|(k, v)| (k.clone(), json!(v)))
        .collect();
    let other: serde_json::Map<String, Value> =
        s.counts.iter().filter(|(k, _)| !faults.contains_key(*k)).map(|(k, v)| (k.clone(), json!(v))).collect();
    let hours = (wall / 3600.0).max(1e-9);
    let doc = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.sigs.len(),
            "rule": p.rule,
            "samples": s.samples,
            "nontrivial_runs": s.nontrivial,
            "runs_that_decided_nothing": s.void,
            "runs_repeated_to_prove_determinism": s.redone,
            "runs_per_hour": (s.runs as f64 / hours) as u64,
            "seeds": s.batches,
            "seeds_per_hour": (s.batches as f64 / hours) as u64,
            "slowest_program_cpu_ms": s.slowest_program,
            "slowest_case_cpu_ms": s.slowest_case,
            "workers": workers,
            "stopped_by_time_limit": s.capped,
            "simulated_processes": s.processes,
            "simulated_system_calls": s.syscalls,
            "simulated_time": format!("{:.1} s by the simulated clock (0.1 ms per call, more for slow calls; the present programs read no clock)", s.sim_ticks as f64 / 1e4),
            "faults_injected": faults,
            "outcomes": other,
            "distinct_measure": "hash of the complete trace of simulated calls with their results (programs) or of transfer sizes, schedule and output (library), over the non-trivial runs",
            "components": p.real,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_vec_pretty(&doc).unwrap());
}
