#![cfg_attr(not(feature = "lib"), allow(dead_code))]
//! dst: deterministic simulation with fault injection for the programs and libraries in /repo.
//!
//!   dst check <property> [quick|thorough]   decide a property (seed from VERIF_SEED)
//!   dst replay <file>                       run a recorded violation again, step by step
//!   dst show <property> <index>             run one case of a check and print what happens
//!   dst determinism [count]                 every property's cases, each twice and under several worker counts
mod case;
mod gen;
#[cfg(feature = "lib")]
mod inproc;
mod master;
mod minimize;
mod oracle;
#[cfg(feature = "lib")]
mod props_lib;
mod props_os;
mod props_runs;
mod registry;
mod rng;
mod stats;
#[cfg(feature = "lib")]
mod streams;
mod worker;
mod world;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "lib")]
    inproc::quiet_panics();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2), a.get(3)) {
        (Some("check"), Some(id), tier) => {
            let tier = tier.cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            master::check(id, &tier, seed)
        }
        (Some("worker"), Some(_), _) => worker::main(&a[2..]),
        (Some("replay"), Some(f), _) => master::replay(f, true),
        (Some("show"), Some(id), Some(i)) => master::show(id, seed, i.parse().unwrap_or(0)),
        (Some("determinism"), n, _) => master::determinism(n.and_then(|n| n.parse().ok()).unwrap_or(40), seed),
        _ => {
            eprintln!("usage: dst check ID [tier] | replay FILE | show ID INDEX | determinism [COUNT]");
            2
        }
    };
    std::process::exit(code);
}
