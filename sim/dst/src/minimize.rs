//! Reduce a violating case while it still shows the same kind of violation.
use crate::case::*;
use crate::oracle::split_lines;
use crate::registry::Prop;
use crate::world::World;
use std::time::Instant;

pub struct Min<'a> {
    p: &'a Prop,
    w: &'a mut World,
    class: String,
    trials: u32,
    start: Instant,
    pub best: Case,
    pub detail: String,
}

impl<'a> Min<'a> {
    pub fn new(p: &'a Prop, w: &'a mut World, class: &str, c: &Case, detail: &str) -> Self {
        Min { p, w, class: class.into(), trials: 0, start: Instant::now(), best: c.clone(), detail: detail.into() }
    }
    fn spent(&self) -> bool {
        self.trials > 3000 || self.start.elapsed().as_secs() > 60
    }
    fn try_(&mut self, c: Case) -> bool {
        if self.spent() || c == self.best {
            return false;
        }
        self.trials += 1;
        crate::worker::begin_guarded(0, 0, &c);
        let v = (self.p.run)(&c, self.w);
        crate::worker::end_guarded();
        match v.violation {
            Some(x) if x.class == self.class && !v.void => {
                self.best = c;
                self.detail = x.detail;
                true
            }
            _ => false,
        }
    }

    pub fn go(&mut self) {
        loop {
            let before = self.best.clone();
            self.plans();
            self.numbers();
            self.contents();
            self.plans();
            if self.best == before || self.spent() {
                break;
            }
        }
    }

    fn edit(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.try_(c)
    }

    fn plans(&mut self) {
        // whole stages of a history
        let mut i = self.best.plans.len();
        while i > 0 {
            i -= 1;
            if self.best.plans.len() > 1 && (self.best.n.contains_key("steps") || self.p.id == "C17" && i > 0) {
                self.edit(|c| {
                    c.plans.remove(i);
                    if c.n.contains_key("steps") {
                        let n = c.plans.len() as i64;
                        c.set("steps", n);
                    }
                });
            }
        }
        for i in 0..self.best.plans.len() {
            for j in (0..self.best.plans[i].faults.len()).rev() {
                self.edit(|c| {
                    c.plans[i].faults.remove(j);
                });
            }
            for j in 0..self.best.plans[i].faults.len() {
                self.edit(|c| c.plans[i].faults[j].sticky = false);
            }
            let mut chunk = self.best.plans[i].preempts.len();
            while chunk > 0 {
                let mut at = 0;
                while at < self.best.plans[i].preempts.len() {
                    let e = (at + chunk).min(self.best.plans[i].preempts.len());
                    if !self.edit(|c| {
                        c.plans[i].preempts.drain(at..e);
                    }) {
                        at = e;
                    }
                }
                chunk /= 2;
            }
            for j in 0..self.best.plans[i].procs.len() {
                self.edit(|c| {
                    c.plans[i].procs[j].short = 0;
                    c.plans[i].procs[j].eintr = 0;
                    c.plans[i].procs[j].io_seed = 0;
                });
                self.edit(|c| c.plans[i].procs[j].short = 0);
                self.edit(|c| c.plans[i].procs[j].eintr = 0);
                self.edit(|c| c.plans[i].procs[j].clock = 0);
                self.edit(|c| c.plans[i].procs[j].hash_seed = 7);
                if self.p.id != "C12" {
                    self.edit(|c| c.plans[i].procs[j].umask = 0o022);
                }
                self.edit(|c| c.plans[i].procs[j].stdout_space = -1);
            }
            if self.p.id == "C12" {
                for j in (1..self.best.plans[i].procs.len()).rev() {
                    self.edit(|c| {
                        c.plans[i].procs.remove(j);
                    });
                }
            }
            self.edit(|c| c.plans[i].space = -1);
            self.edit(|c| c.plans[i].recover_seed = 0);
        }
    }

    fn numbers(&mut self) {
        for k in ["verbose", "defctx", "cwd_ro", "taken", "linked", "mode", "alone"] {
            if self.best.num(k) != 0 {
                self.edit(|c| {
                    c.set(k, 0);
                });
            }
        }
        if self.best.s.contains_key("path") {
            self.edit(|c| {
                c.s.remove("path");
            });
        }
        if !matches!(self.p.id, "C13" | "C17") {
            for x in 0..self.best.num("ctx").min(8) {
                if self.edit(|c| {
                    c.set("ctx", x);
                }) {
                    break;
                }
            }
        }
    }

    fn contents(&mut self) {
        if self.best.kind == "whole" || self.best.kind == "retry" {
            return;
        }
        let keys: Vec<String> = self.best.c.keys().filter(|k| self.p.shrink.contains(&k.as_str())).cloned().collect();
        // the same stretch out of several contents at once, then each by itself
        let mut lines: Vec<Vec<u8>> = keys.iter().flat_map(|k| split_lines(self.best.content(k))).collect();
        lines.sort();
        lines.dedup();
        if lines.len() < 200 {
            for l in lines {
                self.edit(|c| {
                    for k in &keys {
                        let v: Vec<u8> = split_lines(c.content(k)).into_iter().filter(|x| *x != l).collect::<Vec<_>>().concat();
                        c.put(k, &v);
                    }
                });
            }
        }
        for k in &keys {
            self.shrink(k, true);
        }
        for k in &keys {
            if self.best.content(k).len() < 400 || std::str::from_utf8(self.best.content(k)).is_err() {
                self.shrink(k, false);
            }
        }
    }

    fn shrink(&mut self, k: &str, by_line: bool) {
        let parts = |c: &Case| -> Vec<Vec<u8>> {
            let d = c.content(k);
            if by_line {
                split_lines(d)
            } else {
                d.iter().map(|b| vec![*b]).collect()
            }
        };
        let mut chunk = parts(&self.best).len();
        while chunk > 0 {
            let mut at = 0;
            loop {
                let p = parts(&self.best);
                if at >= p.len() || self.spent() {
                    break;
                }
                let e = (at + chunk).min(p.len());
                let v = [p[..at].concat(), p[e..].concat()].concat();
                if !self.edit(|c| {
                    c.put(k, &v);
                }) {
                    at = e;
                }
            }
            chunk /= 2;
        }
    }
}
