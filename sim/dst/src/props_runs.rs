//! Further properties decided by running the real programs on the simulated machine.
use crate::case::*;
use crate::gen::*;
use crate::props_os::*;
use crate::rng::Rng;
use crate::world::*;
use simcore::*;

fn maybe_fault(r: &mut Rng, pl: &mut Plan, f: Option<FaultPlan>) {
    for f in f {
        pl.faults.extend(around(r, f));
    }
}

// ------------------------------------------------------------------ C21
const MODES: &[i64] = &[
    0o600, 0o400, 0o700, 0o640, 0o440, 0o604, 0o620, 0o644, 0o755, 0o660, 0o611, 0o622, 0o466, 0o4711, 0o2750, 0o1600, 0o666,
    0o777,
];

pub fn c21_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_change(r, "C21");
    let mut nolink = 0;
    if r.one_in(5) {
        // the patch makes the file: then the creation mask says who may see it
        base.c.remove(if base.num("rev") != 0 { "b" } else { "a" });
        base.kind = "making".into();
        base.n.remove("linked");
        nolink = maybe_nolink(r, 3);
    } else {
        maybe_edited(r, &mut base);
        base.set("mode", *r.pick(MODES));
    }
    let p = match dry_on(w, &base, nolink) {
        Some(p) => p,
        None => return vec![],
    };
    (0..4)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = maybe_noisy(r);
            pl.nolink = nolink;
            pl.procs[0].umask = *r.pick(&[0o022, 0, 0o077, 0o027, 0o002, 0o007]);
            match r.below(5) {
                0 | 1 => {}
                2 => {
                    let f = p.crash(r);
                    maybe_fault(r, &mut pl, f);
                    recovery(r, &mut pl);
                }
                3 => {
                    let f = error_fault(r, 0, &p.classes, bit(OP_CHMOD) | bit(OP_STAT) | bit(OP_CREATE), false);
                    maybe_fault(r, &mut pl, f)
                }
                _ => {
                    let f = error_fault(r, 0, &p.classes, ALL_OPS, false);
                    maybe_fault(r, &mut pl, f)
                }
            }
            if r.one_in(8) {
                pl.space = r.below(1 + p.new.as_ref().map(|x| x.len()).unwrap_or(0) as u64) as i64;
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

pub fn c21_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    // read and write permission of group and others
    let mode = if c.kind == "making" { 0o666 & !c.plan(0).procs[0].umask } else { p.mode };
    let wider = o.exposed & 0o066 & !mode;
    if wider != 0 {
        v.bad(
            "exposed",
            format!(
                "the file's mode is {:o}, but a file with its content (old, new or part of it) had permissions {:o} it does not grant ({:?})",
                mode,
                wider,
                o.p().end
            ),
        );
    }
    v
}

// ------------------------------------------------------------------ C22
pub fn c22_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_any_modest(r, "C22");
    if r.one_in(3) {
        base.set("verbose", if r.one_in(4) { r.range(5, 8) } else { r.range(1, 4) });
    }
    if r.one_in(3) {
        base.kind = "diffing".into();
        let mut d = base.clone();
        d.n.remove("rev");
        let (path, a, b) = (
            path_of(&d).to_string(),
            d.opt("a").map(|x| x.to_vec()),
            d.opt("b").map(|x| x.to_vec()),
        );
        w.reset();
        w.put_opt(&path, a.as_deref(), 0o644);
        w.put_opt("g", b.as_deref(), 0o644);
        let o = w.run(&[diff_cmd(&d)], &Plan::default());
        let (cl, len) = (o.classes(0), o.p().stdout.len() as u64);
        return (0..4)
            .map(|_| {
                let mut c = d.clone();
                let mut pl = maybe_noisy(r);
                match r.below(6) {
                    0 => pl.procs[0].stdout_space = r.below(len + 1) as i64,
                    1 => {
                        c.set(*r.pick(&["noread_a", "noread_b", "dir_a", "dir_b", "gone"]), 1);
                    }
                    2 => {
                        let f = error_fault(r, 0, &cl, bit(OP_STDOUT), false);
                        maybe_fault(r, &mut pl, f)
                    }
                    _ => {
                        let f = error_fault(r, 0, &cl, ALL_OPS, false);
                        maybe_fault(r, &mut pl, f)
                    }
                }
                if r.one_in(6) {
                    pl = maybe_noisy(r);
                    pl.faults.push(stderr_fault(r, 0));
                } else if r.one_in(3) {
                    pl.faults.push(stderr_fault(r, 0));
                }
                c.plans = vec![pl];
                c
            })
            .collect();
    }
    maybe_edited(r, &mut base);
    let p = match dry(w, &base) {
        Some(p) => p,
        None => return vec![],
    };
    (0..4)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = gen_error_plan(r, &p, true, 0);
            pl.faults.retain(|f| f.mask != bit(OP_STDERR));
            match r.below(8) {
                0 => {
                    let mut d = p.patch.clone();
                    let k = r.us(d.len());
                    if r.one_in(2) {
                        d.truncate(k);
                    } else {
                        d[k] = r.below(256) as u8;
                    }
                    c.put("patch", &d);
                }
                1 => {
                    c.set(*r.pick(&["gone", "nopatch", "dir"]), 1);
                }
                _ => {}
            }
            if r.one_in(6) {
                pl = maybe_noisy(r);
                pl.faults.push(stderr_fault(r, 0));
            } else if r.one_in(3) {
                pl.faults.push(stderr_fault(r, 0));
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

/// Sets the machine up; nothing: there is nothing to decide.
fn c22_place(c: &Case, w: &mut World) -> Option<Option<Prep>> {
    if c.kind == "diffing" {
        let path = path_of(c).to_string();
        w.reset();
        if c.num("dir_a") != 0 {
            w.put_dir(&path);
        } else if c.num("gone") == 0 {
            w.put_opt(&path, c.opt("a"), if c.num("noread_a") != 0 { 0 } else { 0o644 });
        }
        if c.num("dir_b") != 0 {
            w.put_dir("g");
        } else if c.num("gone") == 0 {
            w.put_opt("g", c.opt("b"), if c.num("noread_b") != 0 { 0 } else { 0o644 });
        }
        return Some(None);
    }
    let p = prep(w, c)?;
    if let Some(d) = c.opt("patch") {
        w.put("p.diff", d, 0o644);
    }
    if c.num("nopatch") != 0 {
        w.remove("p.diff");
    }
    if c.num("gone") + c.num("dir") != 0 {
        w.remove(&p.path);
    }
    if c.num("dir") != 0 {
        w.put_dir(&p.path);
    }
    Some(Some(p))
}

pub fn c22_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let diffing = c.kind == "diffing";
    let place = match c22_place(c, w) {
        Some(x) => x,
        None => {
            v.void = true;
            return v;
        }
    };
    let command = match &place {
        Some(p) => patch_cmd(c, p.rev),
        None => diff_cmd(c),
    };
    let plan = c.plan(0);
    // when only standard error is in trouble, everything else is as in an undisturbed run
    let only = plan.space < 0
        && plan.procs[0].stdout_space < 0
        && !plan.faults.is_empty()
        && plan.faults.iter().all(|f| f.mask == bit(OP_STDERR));
    let mut same = None;
    if only {
        let o = w.run(
            &[command.clone()],
            &Plan {
                nolink: plan.nolink,
                ..Default::default()
            },
        );
        same = Some((o.p().ok(), o.p().stdout.clone(), w.tree()));
        c22_place(c, w);
    }
    let o = w.run(&[command], &plan);
    let judged = place.filter(|_| c.opt("patch").is_none() && c.num("gone") + c.num("dir") == 0);
    if hang_or(&mut v, &o) {
        return v;
    }
    let deaf = o.fired.iter().any(|f| f.0 > 0 && f.1 == OP_STDERR as u32 + 1);
    if deaf {
        w.stats.add("nobody listens on standard error", 1);
    }
    if let Some((ok, out, tree)) = same {
        w.stats.add("compared with a run that is heard", 1);
        let d = tree_diff(&tree, &w.tree());
        if ok != o.p().ok() || out != o.p().stdout || !d.is_empty() {
            v.bad(
                "depends-on-standard-error",
                format!(
                    "with a standard error that takes nothing: {:?}; otherwise {}; {}",
                    o.p().end,
                    if ok { "success" } else { "failure" },
                    d.join("; ")
                ),
            );
            return v;
        }
    }
    match o.p().end {
        End::Exit(0) => {
            w.stats.add("outcome success", 1);
            if c.num("nopatch") + c.num("dir_a") + c.num("dir_b") + c.num("dir") != 0 || (diffing && c.num("gone") != 0) {
                v.bad(
                    "success-of-nothing",
                    "exit status 0, though a file the run needs is missing or unreadable".into(),
                );
            } else if let Some(p) = judged {
                let got = w.get(&p.path);
                if p.misfit || got != p.new {
                    v.bad(
                        "success-without-result",
                        format!(
                            "exit status 0, but the file holds {} instead of {}",
                            show_opt(got.as_deref()),
                            show_opt(p.new.as_deref())
                        ),
                    );
                } else if c.opt("t").is_some() {
                    if let Some(e) = unfit(&p, got.as_deref()) {
                        v.bad("success-of-misfit", format!("exit status 0, but {e}"));
                    }
                }
            }
        }
        End::Exit(_) | End::Signal(_) => {
            w.stats.add("outcome failure", 1);
            if !deaf && !o.p().stderr.iter().any(|b| b.is_ascii_alphanumeric()) {
                v.bad(
                    "silent",
                    format!(
                        "{:?} without a word on standard error (standard output {})",
                        o.p().end,
                        show(&o.p().stdout)
                    ),
                );
            }
        }
        _ => {}
    }
    v
}

// ------------------------------------------------------------------ C23
/// Errors that last, or strike once; a device that is full or takes nothing; the end of the process or of power.
fn trouble(r: &mut Rng, p: &Prep, nolink: i32) -> Plan {
    let mut pl = if nolink != 0 || r.one_in(2) {
        gen_error_plan(r, p, true, nolink)
    } else {
        maybe_noisy(r)
    };
    pl.nolink = nolink;
    for f in pl.faults.iter_mut() {
        if r.one_in(2) {
            f.sticky = true;
        }
    }
    if nolink == 0 && r.one_in(2) {
        let f = p.crash(r);
        maybe_fault(r, &mut pl, f);
        recovery(r, &mut pl);
    }
    pl.procs[0].pid = if r.pct(70) { 4711 } else { 4711 + r.below(3) as u32 };
    pl
}

pub fn c23_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_any_modest(r, "C23");
    if r.one_in(5) {
        base.kind = "diffing".into();
        base.n.remove("rev");
        let (path, a, b) = (
            path_of(&base).to_string(),
            base.opt("a").map(|x| x.to_vec()),
            base.opt("b").map(|x| x.to_vec()),
        );
        w.reset();
        w.put_opt(&path, a.as_deref(), 0o644);
        w.put_opt("g", b.as_deref(), 0o644);
        let o = w.run(&[diff_cmd(&base)], &Plan::default());
        let cl = o.classes(0);
        let len = o.p().stdout.len() as u64;
        return (0..3)
            .map(|_| {
                let mut c = base.clone();
                for _ in 0..1 + r.us(2) {
                    let mut pl = maybe_noisy(r);
                    match r.below(4) {
                        0 => pl.procs[0].stdout_space = r.below(len + 1) as i64,
                        1 => {
                            {
                                let f = crash_fault(r, 0, &cl);
                                maybe_fault(r, &mut pl, f)
                            };
                            recovery(r, &mut pl);
                        }
                        _ => {
                            let mut f = error_fault(r, 0, &cl, ALL_OPS, false);
                            if let Some(f) = f.as_mut() {
                                f.sticky = r.one_in(2);
                            }
                            maybe_fault(r, &mut pl, f);
                        }
                    }
                    c.plans.push(pl);
                }
                c.plans.push(Plan::default());
                let n = c.plans.len() as i64;
                c.set("steps", n);
                c
            })
            .collect();
    }
    let nolink = maybe_nolink(r, 10);
    let p = match dry_on(w, &base, nolink) {
        Some(p) => p,
        None => return vec![],
    };
    (0..4)
        .map(|_| {
            let mut c = base.clone();
            for _ in 0..1 + r.us(4) {
                c.plans.push(trouble(r, &p, nolink));
            }
            let mut last = Plan {
                nolink,
                ..Default::default()
            };
            last.procs[0].hash_seed = r.u64();
            last.procs[0].pid = if r.pct(70) { 4711 } else { 4711 + r.below(3) as u32 };
            c.plans.push(last);
            let n = c.plans.len() as i64;
            c.set("steps", n);
            c
        })
        .collect()
}

/// A run that had to be stopped from outside.
fn endless(v: &mut Verdict, o: &RunOut, what: &str) -> bool {
    match o.p().end {
        End::Overrun => v.bad(
            "endless",
            format!("{what} makes calls without end: {} of them, then stopped", o.steps),
        ),
        End::Hang => v.bad(
            "endless",
            format!("{what} computes without end; stopped after {} calls", o.steps),
        ),
        _ => return false,
    }
    true
}

pub fn c23_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let n = c.plans.len();
    if n == 0 || !c.plans[n - 1].faults.is_empty() {
        v.void = true;
        return v;
    }
    if c.kind == "diffing" {
        let path = path_of(c).to_string();
        let clean = make_patch(w, c);
        w.reset();
        w.put_opt(&path, c.opt("a"), 0o644);
        w.put_opt("g", c.opt("b"), 0o644);
        let before = w.tree();
        for k in 0..n {
            let o = w.run(&[diff_cmd(c)], &c.plan(k));
            if hang_or(&mut v, &o) || endless(&mut v, &o, &format!("run {k}")) {
                return v;
            }
            if k + 1 == n && (o.p().ok() != clean.is_some() || clean.as_ref().is_some_and(|x| *x != o.p().stdout)) {
                v.bad(
                    "no-recovery",
                    format!(
                        "the undisturbed run after {k} disturbed ones: {}, printed {}",
                        o.p().err(),
                        show(&o.p().stdout)
                    ),
                );
                return v;
            }
        }
        let d = tree_diff(&before, &w.tree());
        if !d.is_empty() {
            v.bad("left-behind", d.join("; "));
        }
        return v;
    }
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    // what an undisturbed run costs
    let clean = w
        .run(
            &[patch_cmd(c, p.rev)],
            &Plan {
                nolink: c.plan(n - 1).nolink,
                ..Default::default()
            },
        )
        .steps;
    prep(w, c);
    let before = w.tree();
    let mut leftovers = 0;
    for k in 0..n - 1 {
        let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(k));
        if hang_or(&mut v, &o) || endless(&mut v, &o, &format!("run {k}")) {
            return v;
        }
        let unlink_hit = o.fired.iter().any(|f| f.0 > 0 && f.1 == OP_UNLINK as u32 + 1);
        leftovers += (o.p().crashed() || unlink_hit) as usize;
        let got = w.get(&p.path);
        if got == p.new && (p.new != p.old || o.p().ok()) {
            // done, whether or not it could say so
            w.stats.add("finished before the trouble stopped", 1);
            let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(n - 1));
            if !hang_or(&mut v, &o) {
                endless(&mut v, &o, "the run after the finished one");
            }
            return v;
        }
        if got != p.old {
            v.bad(
                "lost",
                format!(
                    "run {k} ended with {:?} and left {}, neither old nor new",
                    o.p().end,
                    show_opt(got.as_deref())
                ),
            );
            return v;
        }
    }
    w.stats.add("undisturbed run needed", 1);
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(n - 1));
    if hang_or(&mut v, &o) || endless(&mut v, &o, "the undisturbed run") {
        return v;
    }
    let got = w.get(&p.path);
    if !o.p().ok() || got != p.new {
        v.bad(
            "no-recovery",
            format!(
                "the undisturbed run after {} disturbed ones: {}, file holds {}, expected {}",
                n - 1,
                o.p().err(),
                show_opt(got.as_deref()),
                show_opt(p.new.as_deref())
            ),
        );
        return v;
    }
    let limit = clean + 24 + 8 * leftovers as u32;
    if o.steps > limit {
        v.bad(
            "slow-recovery",
            format!(
                "the undisturbed run took {} calls; {} are enough on a clean machine",
                o.steps, clean
            ),
        );
        return v;
    }
    let mut after = w.tree();
    let t = canon(&p.path);
    after.remove(&t);
    let mut was = before;
    was.remove(&t);
    let mut left = 0;
    let mut d = tree_diff(&was, &after);
    d.retain(|x| {
        let it = x.contains(" appeared with ");
        left += it as usize;
        !it || left > leftovers
    });
    if !d.is_empty() {
        v.bad(
            "left-behind",
            format!("after {leftovers} kills and failed removals: {}", d.join("; ")),
        );
    }
    v
}
