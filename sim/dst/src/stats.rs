//! Counts of what the runs did.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};

#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    pub batches: u64, // seeds: one generator state each
    pub runs: u64,
    pub nontrivial: u64,
    pub void: u64,
    pub processes: u64,
    pub syscalls: u64,
    pub sim_ticks: u64,
    pub redone: u64,
    pub slowest_program: u64, // processor time of one simulated program, ms
    pub slowest_case: u64,    // the simulator's own processor time for one case, ms
    pub capped: bool,
    pub counts: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            if let Some(x) = self.counts.get_mut(k) {
                *x += n;
            } else {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.batches += o.batches;
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.void += o.void;
        self.processes += o.processes;
        self.syscalls += o.syscalls;
        self.sim_ticks += o.sim_ticks;
        self.redone += o.redone;
        self.slowest_program = self.slowest_program.max(o.slowest_program);
        self.slowest_case = self.slowest_case.max(o.slowest_case);
        self.capped |= o.capped;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.sigs.extend(o.sigs);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}
