//! One worker process: a residue class of the case indices.
use crate::case::*;
use crate::registry::*;
use crate::rng::Rng;
use crate::world::World;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
pub struct Found {
    pub index: u64,
    pub sub: usize,
    pub class: String,
    pub detail: String,
    pub case: Case,
}

#[derive(Serialize, Deserialize)]
pub enum Msg {
    Found(Found),
    Unstable(Found),
    Done(crate::stats::Stats),
}

static CURRENT: Mutex<Option<(u64, usize, Case)>> = Mutex::new(None);
static STARTED: AtomicU64 = AtomicU64::new(0); // own processor time (ms) + 1 when the current case began
pub const CPU_LIMIT_MS: u64 = 45_000;

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
    fn setrlimit(res: i32, l: *const [u64; 2]) -> i32;
    fn clock_gettime(id: i32, ts: *mut i64) -> i32;
}

fn cpu_ms() -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, t.as_mut_ptr()) };
    (t[0] * 1000 + t[1] / 1_000_000) as u64
}

pub fn say(m: &Msg) {
    let mut o = std::io::stdout().lock();
    let _ = serde_json::to_writer(&mut o, m);
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// Ends the process, reporting the case, when one case takes far more processor time than any should.
fn guard() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = STARTED.load(SeqCst);
        if s != 0 && cpu_ms() + 1 > s + CPU_LIMIT_MS {
            if let Ok(g) = CURRENT.lock() {
                if let Some((index, sub, case)) = g.clone() {
                    if STARTED.load(SeqCst) == s {
                        say(&Msg::Found(Found {
                            index,
                            sub,
                            class: "hang".into(),
                            detail: format!("not finished after {} s of processor time", CPU_LIMIT_MS / 1000),
                            case,
                        }));
                        std::process::exit(0);
                    }
                }
            }
        }
    });
}

/// Ends the process when a case is stuck without using the processor: nothing can be decided then.
fn stuck() {
    #[cfg(feature = "lib")]
    crate::inproc::outside();
    let (mut seen, mut since) = (0, Instant::now());
    loop {
        std::thread::sleep(Duration::from_secs(1));
        let s = STARTED.load(SeqCst);
        if s == 0 || s != seen {
            (seen, since) = (s, Instant::now());
        } else if since.elapsed() > Duration::from_secs(150) && cpu_ms() + 1 < s + 10_000 {
            if let Ok(g) = CURRENT.lock() {
                if let Some((index, sub, case)) = g.clone() {
                    let detail = "stuck, using no processor time".to_string();
                    say(&Msg::Unstable(Found { index, sub, class: "stuck".into(), detail, case }));
                }
            }
            std::process::exit(0);
        }
    }
}

pub fn begin_guarded(index: u64, sub: usize, c: &Case) {
    *CURRENT.lock().unwrap() = Some((index, sub, c.clone()));
    STARTED.store(cpu_ms() + 1, SeqCst);
}
/// How long it took, in ms of processor time.
pub fn end_guarded() -> u64 {
    let s = STARTED.swap(0, SeqCst);
    (cpu_ms() + 1).saturating_sub(s)
}

pub fn limits() {
    // many short-lived threads must not each reserve memory of their own
    unsafe { mallopt(-8, 2) };
    unsafe { setrlimit(9, &[3 << 30, 3 << 30]) };
}

/// args: property seed tier worker workers count wall_ms [announce]
pub fn main(a: &[String]) -> i32 {
    let p = prop(&a[0]).expect("property");
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, me, workers, count, wall) = (n(1), n(3), n(4), n(5), n(6));
    let announce = a.get(7).is_some();
    let slow = std::env::var("DST_SLOW").ok().and_then(|x| x.parse::<u64>().ok());
    limits();
    guard();
    std::thread::spawn(stuck);
    let mut w = World::new();
    let start = Instant::now();
    let mut k = 0u64;
    let mut index = me;
    'all: while index < count {
        if start.elapsed().as_millis() as u64 > wall {
            w.stats.capped = true;
            break;
        }
        let mut r = Rng::for_case(seed, p.id, index);
        w.stats.batches += 1;
        begin_guarded(index, 999, &Case::new(p.id, "generation"));
        if announce {
            println!("@{index} 999");
            let _ = std::io::stdout().flush();
        }
        let cases = (p.gen)(&mut r, &mut w);
        end_guarded();
        if cases.is_empty() {
            w.stats.add("batches without a case (the diff could not be made)", 1);
        }
        for (sub, c) in cases.iter().enumerate() {
            begin_guarded(index, sub, c);
            if announce {
                println!("@{index} {sub} {}", serde_json::to_string(c).unwrap());
                let _ = std::io::stdout().flush();
            }
            let mut v = (p.run)(c, &mut w);
            w.stats.runs += 1;
            k += 1;
            if k % 64 == 0 || v.violation.is_some() {
                // the same seed must be the same execution
                let saved = std::mem::take(&mut w.stats);
                w.memo.clear();
                let v2 = (p.run)(c, &mut w);
                w.stats = saved;
                w.stats.redone += 1;
                let cl = |v: &Verdict| v.violation.as_ref().map(|x| x.class.clone());
                if (v2.sig, cl(&v2), v2.void) != (v.sig, cl(&v), v.void) {
                    if v.void || v2.void {
                        v.void = true;
                        v.violation = None;
                    } else {
                        say(&Msg::Unstable(Found {
                            index,
                            sub,
                            class: cl(&v).unwrap_or_default(),
                            detail: format!("{:?} then {:?}", (v.sig, cl(&v)), (v2.sig, cl(&v2))),
                            case: c.clone(),
                        }));
                        break 'all;
                    }
                }
            }
            let ms = end_guarded();
            w.stats.slowest_case = w.stats.slowest_case.max(ms);
            if slow.is_some_and(|x| ms >= x) {
                eprintln!("{} {index}.{sub}: {ms} ms", p.id);
            }
            if v.void {
                w.stats.void += 1;
                continue;
            }
            if v.nontrivial {
                w.stats.nontrivial += 1;
                w.stats.sigs.insert(v.sig);
            }
            if let Some(x) = v.violation {
                say(&Msg::Found(Found { index, sub, class: x.class, detail: x.detail, case: c.clone() }));
                break 'all;
            }
            if me == 0 && w.stats.samples.len() < 3 && v.nontrivial && w.stats.runs > 5 {
                let t: String = serde_json::to_string(c).unwrap().chars().take(1500).collect();
                w.stats.samples.push(format!("index {index}.{sub}: {t}"));
            }
        }
        index += workers;
    }
    let s = std::mem::take(&mut w.stats);
    say(&Msg::Done(s));
    0
}
