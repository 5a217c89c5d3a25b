//! Properties decided by running the real programs on the simulated machine.
use crate::case::*;
use crate::gen::*;
use crate::oracle;
use crate::rng::Rng;
use crate::world::*;
use simcore::*;

pub fn hash_of(b: &[u8]) -> u64 {
    fnv(FNV0, b)
}

pub fn diff_cmd(case: &Case) -> Vec<String> {
    let mut c = cmd(&["pw_diff"]);
    for _ in 0..case.num("verbose") {
        c.push("-v".into());
    }
    if case.num("defctx") == 0 {
        c.push("-c".into());
        c.push(case.num("ctx").to_string());
    }
    c.push(path_of(case).into());
    c.push("g".into());
    c
}

pub fn path_of(case: &Case) -> &str {
    match case.str("path") {
        "" => "f",
        p => p,
    }
}

pub fn patch_cmd(case: &Case, rev: bool) -> Vec<String> {
    let mut c = cmd(&["pw_patch"]);
    for _ in 0..case.num("verbose") {
        c.push("-v".into());
    }
    if rev {
        c.push("-r".into());
    }
    c.push("p.diff".into());
    c
}

/// The diff program's output for the case's two contents, from a fault-free run.
pub fn make_patch(w: &mut World, case: &Case) -> Option<Vec<u8>> {
    let path = path_of(case).to_string();
    let ctx = if case.num("defctx") != 0 { 1000 } else { case.num("ctx") };
    let (a, b) = (case.opt("a"), case.opt("b"));
    let tag = [a.is_some() as u8, b.is_some() as u8];
    let key = key_of(&[b"diff", path.as_bytes(), &ctx.to_le_bytes(), &case.num("verbose").to_le_bytes(), &tag, a.unwrap_or(b""), b.unwrap_or(b"")]);
    let c = diff_cmd(case);
    let m = w.golden(
        key,
        |w| {
            w.reset();
            w.put_opt(&path, a, 0o644);
            w.put_opt("g", b, 0o644);
        },
        &[c],
    );
    if m.out.p().ok() {
        Some(m.out.p().stdout.clone())
    } else {
        None
    }
}

pub struct Prep {
    pub patch: Vec<u8>,
    pub old: Option<Vec<u8>>,
    pub new: Option<Vec<u8>>,
    pub rev: bool,
    pub path: String,
    pub mode: u32,
    pub misfit: bool, // the undisturbed run reports that part of the patch did not fit
    pub classes: Vec<u8>,
    pub allocs: (u32, u32),
}

impl Prep {
    /// The end of the process or of power at some call, or of memory.
    pub fn crash(&self, r: &mut Rng) -> Option<FaultPlan> {
        if r.one_in(10) {
            return nomem_fault(r, 0, self.allocs);
        }
        crash_fault(r, 0, &self.classes)
    }
}

/// Patch and expected contents of a patching case; sets the machine up with the old file and the patch.
pub fn prep(w: &mut World, case: &Case) -> Option<Prep> {
    let patch = make_patch(w, case)?;
    let rev = case.num("rev") != 0;
    let (a, b) = (case.opt("a").map(|x| x.to_vec()), case.opt("b").map(|x| x.to_vec()));
    let (mut old, mut new) = if rev { (b, a) } else { (a, b) };
    let mut misfit = false;
    if let Some(t) = case.opt("t") {
        // the file was edited since: what an undisturbed run makes of it is the new content
        let path = path_of(case).to_string();
        let m = w.golden(
            key_of(&[b"edited", path.as_bytes(), &patch, t, &[rev as u8]]),
            |w| {
                w.reset();
                w.put(&path, t, 0o644);
                w.put("p.diff", &patch, 0o644);
            },
            &[cmd(if rev { &["pw_patch", "-r", "p.diff"] } else { &["pw_patch", "p.diff"] })],
        );
        old = Some(t.to_vec());
        new = m.tree.get(&canon(&path)).map(|n| n.data.clone());
        misfit = !m.out.p().ok();
    }
    let p = Prep {
        misfit,
        patch,
        old,
        new,
        rev,
        path: path_of(case).to_string(),
        mode: if case.n.contains_key("mode") { case.num("mode") as u32 } else { 0o644 },
        classes: vec![],
        allocs: (0, 0),
    };
    setup(w, case, &p);
    Some(p)
}

pub fn setup(w: &mut World, case: &Case, p: &Prep) {
    w.reset();
    w.put_opt(&p.path, p.old.as_deref(), p.mode);
    w.put("p.diff", &p.patch, 0o644);
    if case.num("linked") != 0 && p.old.is_some() {
        // in the same directory: a link does not cross devices
        let name = p.path.rfind('/').map_or(0, |i| i + 1);
        w.hard_link(&p.path, &format!("{}other name", &p.path[..name]));
    }
    if case.num("cwd_ro") != 0 {
        w.chmod_dir("/w", 0o555);
    }
}

/// The dry run of a patching case: its operation classes, for placing faults.
pub fn dry(w: &mut World, case: &Case) -> Option<Prep> {
    dry_on(w, case, 0)
}

pub fn dry_on(w: &mut World, case: &Case, nolink: i32) -> Option<Prep> {
    let mut p = prep(w, case)?;
    let o = w.run(&[patch_cmd(case, p.rev)], &Plan { nolink, ..Default::default() });
    p.classes = o.classes(0);
    p.allocs = o.allocs[0];
    Some(p)
}

pub fn hang_or(v: &mut Verdict, o: &RunOut) -> bool {
    v.sig = v.sig.rotate_left(7) ^ o.loghash;
    v.nontrivial |= o.nontrivial();
    if o.overflow {
        v.void = true;
    }
    o.overflow
}

// ------------------------------------------------------------------ generation shared by the patching checks
pub fn gen_path(r: &mut Rng, c: &mut Case) {
    match r.below(8) {
        0 | 1 => {
            c.puts("path", "d/f");
        }
        2 => {
            c.puts("path", "/tmp/f");
        }
        3 => {
            c.puts("path", "./f");
        }
        4 => {
            let p = *r.pick(&[
                "d/e/f", "d/../f", "d/./e//f", "../w/f", "é f", "a\"b\\c", "x\ny", "./-f", ".f", "f.b.c", "12670", "d/12670", "~",
                "/w/f", "a-file-with-a-rather-long-name-that-still-fits-in-its-directory",
            ]);
            c.puts("path", p);
        }
        5 if r.one_in(6) => {
            // as long as names may be
            let n = "n".repeat(*r.pick(&[255usize, 254, 250, 245, 240]));
            c.puts("path", &if r.one_in(3) { format!("d/{n}") } else { n });
        }
        _ => {}
    }
}

pub fn gen_change(r: &mut Rng, prop: &str) -> Case {
    let mut c = Case::new(prop, "change");
    let (a, b) = any_pair(r);
    c.put("a", &a).put("b", &b);
    c.set("ctx", context(r));
    if r.one_in(8) {
        c.set("defctx", 1);
    }
    if r.one_in(3) {
        c.set("rev", 1);
    }
    if r.one_in(6) {
        c.set("verbose", r.range(1, 6));
    }
    if r.one_in(6) {
        c.set("mode", *r.pick(&[0o444, 0o400, 0o600, 0o755, 0o666, 0o555, 0o4755]));
    }
    if r.one_in(8) {
        c.set("linked", 1);
    }
    gen_path(r, &mut c);
    c
}

/// Sometimes another party edited the file after the diff was made.
pub fn maybe_edited(r: &mut Rng, c: &mut Case) {
    if !r.one_in(5) {
        return;
    }
    let (a, b) = match (c.opt("a"), c.opt("b")) {
        (Some(a), Some(b)) => (a.to_vec(), b.to_vec()),
        _ => return,
    };
    let base = if (c.num("rev") != 0) ^ r.one_in(6) { b } else { a };
    let t = match String::from_utf8(base) {
        Ok(s) => {
            let l: Vec<String> = s.split_inclusive('\n').map(|x| x.to_string()).collect();
            let k = 1 + r.us(4);
            join(&edit(r, &l, k))
        }
        Err(e) => byte_edit(r, e.as_bytes(), 1),
    };
    c.put("t", &t);
}

pub fn gen_any(r: &mut Rng, prop: &str) -> Case {
    let mut c = gen_change(r, prop);
    match r.below(4) {
        0 => {
            c.c.remove("a");
            c.kind = "add".into();
        }
        1 => {
            c.c.remove("b");
            c.kind = "remove".into();
        }
        _ => {}
    }
    c
}

/// For runs of the diff program that meet errors: it then compares bytes, which takes time proportional to the
/// square of how often each occurs.
pub fn gen_any_modest(r: &mut Rng, prop: &str) -> Case {
    loop {
        let c = gen_any(r, prop);
        if modest(c.opt("a").unwrap_or(b""), c.opt("b").unwrap_or(b"")) {
            return c;
        }
    }
}

/// Are the two small enough, or alike enough, for the byte form (its time grows with the square of the
/// lengths and again with the number of changes)?
pub fn modest(a: &[u8], b: &[u8]) -> bool {
    let head = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let tail = a[head..].iter().rev().zip(b[head..].iter().rev()).take_while(|(x, y)| x == y).count();
    let n = a.len().max(b.len());
    n <= 2500 || n <= 12000 && n - head - tail <= 1500 || a.is_empty() || b.is_empty()
}

pub fn noisy(r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    noise(r, &mut p.procs[0]);
    p
}

pub fn maybe_noisy(r: &mut Rng) -> Plan {
    if r.one_in(2) {
        noisy(r)
    } else {
        let mut p = Plan::default();
        p.procs[0].hash_seed = r.u64();
        slow(r, &mut p.procs[0]);
        p
    }
}

// ------------------------------------------------------------------ C01
pub fn c01_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let mut c = gen_any(r, "C01");
    c.n.remove("rev");
    if r.one_in(10) && c.str("path") == "d/f" {
        c.set("cwd_ro", 1);
    }
    c.plans = vec![noisy(r), noisy(r)];
    c.plans[1].nolink = maybe_nolink(r, 8);
    if c.kind != "change" && r.one_in(400) {
        // larger than any buffer or count, and not all of it text
        let binary = r.one_in(2);
        let n = if !binary && r.one_in(4) { (1 << 20) + r.us(5000) } else { 65530 + r.us(70000) };
        let mut x: Vec<u8> = (0..n).map(|i| if i % 61 == 60 { b'\n' } else { b'0' + (i * 31 % 75) as u8 }).collect();
        if binary {
            let at = n - 1 - r.us(200);
            x[at] = 0xff;
        }
        // the patch program reads its patch byte by byte: a million calls without any noise
        c.plans = vec![Plan::default(), Plan::default()];
        c.put(if c.opt("a").is_some() { "a" } else { "b" }, &x);
    } else if c.kind == "change" && r.one_in(3000) {
        // more bytes than 16 bits count
        let n = 65530 + r.us(4000);
        let a: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
        let mut b = a.clone();
        for _ in 0..1 + r.us(3) {
            let at = if r.one_in(2) { n - 1 - r.us(2000) } else { r.us(n - 200) };
            let old = r.us(3);
            let new: Vec<u8> = (0..r.us(4)).map(|_| r.below(256) as u8).collect();
            b.splice(at.min(b.len() - old)..at.min(b.len() - old) + old, new);
        }
        c.put("a", &a).put("b", &b);
    } else if c.kind == "change" && r.one_in(300) {
        // more lines than 16 bits count
        let n = 65530 + r.us(4000);
        let (a, b) = long_pair(r, n);
        c.put("a", &join(&a)).put("b", &join(&b));
    }
    vec![c]
}

pub fn c01_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let path = path_of(c).to_string();
    w.reset();
    w.put_opt(&path, c.opt("a"), 0o644);
    w.put_opt("g", c.opt("b"), 0o644);
    if c.num("cwd_ro") != 0 {
        w.chmod_dir("/w", 0o555);
    }
    let o = w.run(&[diff_cmd(c)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    if !o.p().ok() {
        v.bad("diff-fails", format!("the diff program failed: {}", o.p().err()));
        return v;
    }
    w.put("p.diff", &o.p().stdout, 0o644);
    let o2 = w.run(&[patch_cmd(c, false)], &c.plan(1));
    if hang_or(&mut v, &o2) {
        return v;
    }
    if !o2.p().ok() {
        v.bad("patch-fails", format!("the patch program failed: {}; diff {}", o2.p().err(), show(&o.p().stdout)));
        return v;
    }
    let got = w.get(&path);
    if got.as_deref() != c.opt("b") {
        v.bad(
            "wrong-result",
            format!("expected {}, file holds {}; diff {}", show_opt(c.opt("b")), show_opt(got.as_deref()), show(&o.p().stdout)),
        );
    }
    v
}

// ------------------------------------------------------------------ C02
pub fn c02_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut c = gen_any(r, "C02");
    c.n.remove("rev");
    let start_b = r.one_in(2);
    c.set("start_b", start_b as i64);
    let steps = 1 + r.us(5);
    // where errors may strike, from a dry run in each direction
    let mut cl = [vec![], vec![]];
    for rev in 0..2 {
        let mut d = c.clone();
        d.set("rev", rev);
        if let Some(p) = dry(w, &d) {
            cl[rev as usize] = p.classes;
        }
    }
    let mut state_b = start_b;
    for _ in 0..steps {
        let mut p = maybe_noisy(r);
        p.nolink = maybe_nolink(r, 8);
        if r.one_in(3) && p.nolink == 0 {
            let f = if r.one_in(3) {
                recovery(r, &mut p);
                crash_fault(r, 0, &cl[state_b as usize])
            } else {
                error_fault(r, 0, &cl[state_b as usize], ALL_OPS, false)
            };
            p.faults.extend(f);
        } else {
            state_b = !state_b;
        }
        c.plans.push(p);
    }
    c.set("steps", steps as i64);
    vec![c]
}

pub fn c02_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let patch = match make_patch(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let path = path_of(c).to_string();
    let mut in_b = c.num("start_b") != 0;
    let of = |b: bool| if b { c.opt("b") } else { c.opt("a") };
    w.reset();
    w.put_opt(&path, of(in_b), 0o644);
    w.put("p.diff", &patch, 0o644);
    for k in 0..c.num("steps") as usize {
        let o = w.run(&[patch_cmd(c, in_b)], &c.plan(k));
        if hang_or(&mut v, &o) {
            return v;
        }
        let got = w.get(&path);
        let dir = if in_b { "reverse" } else { "forward" };
        if o.p().ok() {
            in_b = !in_b;
            if got.as_deref() != of(in_b) {
                v.bad(
                    "wrong-result",
                    format!(
                        "step {k} ({dir}) succeeded; expected {}, file holds {}; diff {}",
                        show_opt(of(in_b)),
                        show_opt(got.as_deref()),
                        show(&patch)
                    ),
                );
                return v;
            }
        } else if o.p().crashed() {
            // either version; the next step starts from the one there is
            if got.as_deref() == of(!in_b) {
                in_b = !in_b;
            } else if got.as_deref() != of(in_b) {
                v.bad(
                    "crashed-step",
                    format!("step {k} ({dir}) ended with {:?}; the file holds {}, neither version", o.p().end, show_opt(got.as_deref())),
                );
                return v;
            }
        } else {
            if !o.any_fired() {
                v.bad("fails", format!("step {k} ({dir}) failed without an injected error: {}; diff {}", o.p().err(), show(&patch)));
                return v;
            }
            if got.as_deref() != of(in_b) {
                v.bad(
                    "failed-step-changes",
                    format!("step {k} ({dir}) failed, yet the file went from {} to {}", show_opt(of(in_b)), show_opt(got.as_deref())),
                );
                return v;
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C03
pub fn c03_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_change(r, "C03");
    maybe_edited(r, &mut base);
    let p = match dry(w, &base) {
        Some(p) => p,
        None => return vec![],
    };
    let mut out = vec![];
    for _ in 0..5 {
        let mut c = base.clone();
        let mut pl = maybe_noisy(r);
        if r.one_in(5) {
            // something else goes wrong first
            if let Some(f) = error_fault(r, 0, &p.classes, ALL_OPS, true) {
                pl.faults.extend(around(r, f));
            }
            if r.one_in(3) {
                pl.space = r.below(1 + p.new.as_ref().map(|x| x.len()).unwrap_or(0) as u64) as i64;
            }
        }
        if let Some(f) = p.crash(r) {
            pl.faults.push(f);
        }
        recovery(r, &mut pl);
        pl.procs[0].pid = 4711;
        let mut again = maybe_noisy(r);
        again.procs[0].pid = if r.one_in(2) { 4711 } else { 4712 };
        c.plans = vec![pl, again];
        out.push(c);
    }
    out
}

pub fn c03_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let (old, new) = (p.old.clone().unwrap_or_default(), p.new.clone().unwrap_or_default());
    w.watch(&p.path);
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    let allowed = [(old.len() as u64, hash_of(&old)), (new.len() as u64, hash_of(&new))];
    for h in &o.hist {
        if !h.present || !allowed.contains(&(h.len, h.hash)) {
            v.bad(
                "instant",
                format!("at call {} the name {}", h.step, if h.present { "holds neither the old nor the new content" } else { "is unused" }),
            );
            return v;
        }
    }
    let got = w.get(&p.path);
    match &got {
        Some(g) if *g == old || *g == new => {}
        _ => {
            v.bad(
                "after-crash",
                format!(
                    "after {:?} the file holds {} (old {}, new {})",
                    o.p().end,
                    show_opt(got.as_deref()),
                    show(&old),
                    show(&new)
                ),
            );
            return v;
        }
    }
    if got.as_deref() == Some(&old[..]) {
        let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(1));
        if hang_or(&mut v, &o) {
            return v;
        }
        let got = w.get(&p.path);
        if o.p().ok() == p.misfit || got.as_deref() != Some(&new[..]) {
            v.bad(
                "rerun",
                format!("rerun after the crash: {}, file holds {}, expected {}", o.p().err(), show_opt(got.as_deref()), show(&new)),
            );
        }
    }
    v
}

// ------------------------------------------------------------------ C04, C05
pub fn gen_error_plan(r: &mut Rng, p: &Prep, after_too: bool, nolink: i32) -> Plan {
    let mut pl = maybe_noisy(r);
    pl.nolink = nolink;
    // without hard links the name itself must be taken back when something fails
    let among = if nolink != 0 { ALL_OPS & !bit(OP_UNLINK) } else { ALL_OPS };
    let k = match r.below(8) {
        0 => 0,
        1 | 2 => 2,
        _ => 1,
    };
    for _ in 0..k {
        if let Some(f) = error_fault(r, 0, &p.classes, among, after_too) {
            pl.faults.extend(around(r, f));
        }
    }
    if k == 0 || r.one_in(8) {
        pl.space = r.below(1 + p.new.as_ref().map(|x| x.len()).unwrap_or(0) as u64) as i64;
    }
    if r.one_in(10) {
        pl.procs[0].stdout_space = 0;
    }
    if r.one_in(8) {
        pl.faults.push(stderr_fault(r, 0));
    }
    if r.one_in(16) {
        pl.faults.extend(nomem_fault(r, 0, p.allocs));
    }
    pl
}

fn error_gen(r: &mut Rng, w: &mut World, prop: &str, after_too: bool) -> Vec<Case> {
    let mut base = gen_any(r, prop);
    maybe_edited(r, &mut base);
    if base.kind == "add" && r.one_in(6) {
        // into a directory that is not there
        let p = *r.pick(&["x/f", "x/y/f", "d/x/f"]);
        base.puts("path", p).set("nodir", 1);
        base.n.remove("rev");
    }
    let nolink = maybe_nolink(r, 8);
    let p = match dry_on(w, &base, nolink) {
        Some(p) => p,
        None => return vec![],
    };
    (0..5)
        .map(|_| {
            let mut c = base.clone();
            c.plans = vec![gen_error_plan(r, &p, after_too, nolink)];
            c
        })
        .collect()
}

pub fn c04_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    error_gen(r, w, "C04", true)
}

pub fn c04_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    if o.p().ok() {
        let got = w.get(&p.path);
        if p.misfit {
            v.bad("success-of-misfit", "exit status 0, though an undisturbed run reports that the patch does not fit".into());
        } else if got != p.new {
            v.bad(
                "success-without-result",
                format!("exit status 0, but the file holds {} instead of {}", show_opt(got.as_deref()), show_opt(p.new.as_deref())),
            );
        } else if c.opt("t").is_some() {
            if let Some(e) = unfit(&p, got.as_deref()) {
                v.bad("success-of-misfit", format!("exit status 0, but {e}"));
            }
        }
        w.stats.add("outcome success", 1);
    } else {
        w.stats.add("outcome failure", 1);
    }
    v
}

pub fn c05_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    error_gen(r, w, "C05", false)
}

pub fn c05_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let before = w.tree();
    let plan = c.plan(0);
    let o = w.run(&[patch_cmd(c, p.rev)], &plan);
    if hang_or(&mut v, &o) {
        return v;
    }
    let failed = matches!(o.p().end, End::Exit(x) if x != 0) || matches!(o.p().end, End::Signal(_));
    if failed && (o.any_fired() || o.noise > 0 || c.num("nodir") != 0) {
        w.stats.add("outcome failure", 1);
        let unlink_hit = o.fired.iter().any(|f| f.0 > 0 && f.1 == OP_UNLINK as u32 + 1);
        let after = w.tree();
        let mut d = tree_diff(&before, &after);
        if unlink_hit {
            d.retain(|x| !x.contains(" appeared with "));
        }
        if !d.is_empty() && p.misfit && w.get(&p.path) == p.new {
            // the error did not matter; the run did what it does with a file that does not fit
            let t = canon(&p.path);
            let (mut o1, mut o2) = (before, after);
            o1.remove(&t);
            o2.remove(&t);
            d = tree_diff(&o1, &o2);
            if unlink_hit {
                d.retain(|x| !x.contains(" appeared with "));
            }
        }
        if !d.is_empty() {
            v.bad("trace-of-failure", format!("{}; but {}", o.p().err(), d.join("; ")));
        }
    } else {
        w.stats.add("outcome success", 1);
    }
    v
}

// ------------------------------------------------------------------ C06
pub fn c06_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_change(r, "C06");
    if r.one_in(2) {
        base.c.remove("a");
        base.kind = "add".into();
        base.n.remove("rev");
    } else {
        base.c.remove("b");
        base.kind = "remove".into();
        base.set("rev", 1);
    }
    let nolink = maybe_nolink(r, 8);
    let p = match dry_on(w, &base, nolink) {
        Some(p) => p,
        None => return vec![],
    };
    // without hard links there is an instant at which the new name is not yet complete, and the name itself
    // must be taken back when something fails
    let ops = if nolink != 0 { ALL_OPS & !bit(OP_UNLINK) } else { ALL_OPS };
    (0..5)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = maybe_noisy(r);
            pl.nolink = nolink;
            match r.below(if nolink != 0 { 4 } else { 6 }) {
                0 => {
                    // already there
                    let d = match r.below(3) {
                        0 => p.new.clone().unwrap_or_default(),
                        1 => vec![],
                        _ => bytes(r, 30),
                    };
                    c.put("there", &d);
                    if r.one_in(4) {
                        // a name that leads nowhere, or to another file
                        c.puts("link", *r.pick(&["nowhere", "elsewhere"]));
                    }
                    if r.one_in(2) {
                        if let Some(f) = error_fault(r, 0, &p.classes, ops, false) {
                            pl.faults.extend(around(r, f));
                        }
                    }
                }
                1 | 2 => {
                    // another process creates it during the run
                    let d = if r.one_in(3) { vec![] } else { b"theirs\n".to_vec() };
                    pl.exts.push(ExtPlan { kind: 1, path: p.path.clone(), data: Content(d) });
                    let changing = bit(OP_CREATE) | bit(OP_WRITE) | bit(OP_RENAME) | bit(OP_LINK) | bit(OP_UNLINK)
                        | bit(OP_FSYNC) | bit(OP_CLOSE) | bit(OP_STAT) | bit(OP_OPEN);
                    if let Some((at, cl)) = pick_op(r, &p.classes, changing) {
                        pl.faults.push(fault_words(FaultPlan { kind: F_EXT, at, mask: bit(cl), arg: 0, ..Default::default() }));
                    }
                    if r.one_in(5) {
                        if let Some(f) = error_fault(r, 0, &p.classes, ops, false) {
                            pl.faults.extend(around(r, f));
                        }
                    }
                }
                3 => {
                    let k = 1 + r.us(2);
                    for _ in 0..k {
                        if let Some(f) = error_fault(r, 0, &p.classes, ops, false) {
                            pl.faults.extend(around(r, f));
                        }
                    }
                    if r.one_in(3) {
                        pl.space = r.below(1 + p.new.as_ref().map(|x| x.len()).unwrap_or(0) as u64) as i64;
                    }
                }
                _ => {
                    if let Some(f) = p.crash(r) {
                        pl.faults.push(f);
                    }
                    recovery(r, &mut pl);
                }
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

pub fn c06_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let there = c.opt("there").map(|x| x.to_vec());
    let mut there = there;
    if let Some(t) = &mut there {
        match c.str("link") {
            "" => {
                w.put(&p.path, t, 0o640);
            }
            to => {
                let at = if p.path.starts_with('/') { "/tmp/" } else { "/w/" };
                if to == "elsewhere" {
                    w.put(&format!("{at}{to}"), t, 0o640);
                }
                *t = format!("{at}{to}").into_bytes();
                w.symlink(&format!("{at}{to}"), &p.path);
            }
        }
    }
    let before = w.tree();
    let new = p.new.clone().unwrap_or_default();
    let plan = c.plan(0);
    let theirs = plan.exts.first().map(|e| e.data.0.clone());
    w.watch(&p.path);
    let o = w.run(&[patch_cmd(c, p.rev)], &plan);
    if hang_or(&mut v, &o) {
        return v;
    }
    let ext = o.ext_done.first().copied().unwrap_or(false);
    if ext {
        w.stats.add("created by another process first", 1);
    }
    // what the name may hold, in order of the recorded history
    let mut owner: Option<Vec<u8>> = there.clone();
    for h in &o.hist {
        let foreign = h.by as usize >= MAX_PROC;
        if foreign {
            owner = theirs.clone();
            continue;
        }
        if let Some(t) = &owner {
            v.bad(
                "overwrites",
                format!(
                    "call {} altered a file that was already there ({}): now {}",
                    h.step,
                    show(t),
                    if h.present { format!("{} bytes, mode {:o}", h.len, h.mode) } else { "gone".into() }
                ),
            );
            return v;
        }
        if plan.nolink == 0 && h.present && (h.len, h.hash) != (new.len() as u64, hash_of(&new)) {
            v.bad("partial", format!("at call {} the name holds something other than the recorded content ({} bytes)", h.step, h.len));
            return v;
        }
    }
    let got = w.get(&p.path);
    let want_theirs = owner;
    if let Some(t) = want_theirs {
        // the other file may itself be lost in a power failure; nothing else may take its place
        let lost = o.power && there.is_none() && (got.is_none() || got.as_deref() == Some(&new[..]));
        if got.as_deref() != Some(&t[..]) && !lost {
            v.bad("overwrites", format!("the file that was there held {}, now {}", show(&t), show_opt(got.as_deref())));
        } else if there.is_some() && !c.str("link").is_empty() && plan.faults.is_empty() {
            let d = tree_diff(&before, &w.tree());
            if !d.is_empty() {
                v.bad("overwrites", format!("the name was a link; {}", d.join("; ")));
            }
        }
        return v;
    }
    if let Some(g) = &got {
        if *g != new {
            v.bad("partial", format!("after {:?} the name holds {} instead of {} or nothing", o.p().end, show(g), show(&new)));
            return v;
        }
    }
    if matches!(o.p().end, End::Exit(x) if x != 0) && got.is_some() {
        v.bad("left-behind", format!("{}, but the name is now in use", o.p().err()));
    }
    if o.p().ok() && got.is_none() {
        v.bad("success-without-result", "exit status 0 but nothing was created".into());
    }
    v
}

// ------------------------------------------------------------------ C07
pub fn c07_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_any_modest(r, "C07");
    base.n.remove("rev");
    let path = path_of(&base).to_string();
    w.reset();
    w.put_opt(&path, base.opt("a"), 0o644);
    w.put_opt("g", base.opt("b"), 0o644);
    let o = w.run(&[diff_cmd(&base)], &Plan::default());
    let cl = o.classes(0);
    let len = o.p().stdout.len() as u64;
    (0..5)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = maybe_noisy(r);
            match r.below(8) {
                0 => {
                    // the output takes only so much
                    pl.procs[0].stdout_space = match r.below(4) {
                        0 => len as i64 - 1 - r.below(3).min(len) as i64,
                        1 => r.below(3) as i64,
                        _ => r.below(len + 1) as i64,
                    }
                    .max(0)
                }
                1 => {
                    if let Some(f) = error_fault(r, 0, &cl, bit(OP_STDOUT), false) {
                        pl.faults.extend(around(r, f));
                    }
                }
                2 => {
                    // an input nobody may read
                    let k = *r.pick(&["noread_a", "noread_b", "noread_a", "noread_b", "dir_a", "dir_b"]);
                    c.set(k, 1);
                }
                _ => {
                    for _ in 0..1 + r.us(2) {
                        if let Some(f) = error_fault(r, 0, &cl, ALL_OPS, false) {
                            pl.faults.extend(around(r, f));
                        }
                    }
                }
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

pub fn c07_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let path = path_of(c).to_string();
    w.reset();
    if c.num("dir_a") != 0 {
        w.put_dir(&path);
    } else {
        w.put_opt(&path, c.opt("a"), if c.num("noread_a") != 0 { 0 } else { 0o644 });
    }
    if c.num("dir_b") != 0 {
        w.put_dir("g");
    } else {
        w.put_opt("g", c.opt("b"), if c.num("noread_b") != 0 { 0 } else { 0o644 });
    }
    let o = w.run(&[diff_cmd(c)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    if !o.p().ok() {
        w.stats.add("outcome failure", 1);
        return v;
    }
    w.stats.add("outcome success", 1);
    let unreadable = c.num("dir_a") + c.num("dir_b") != 0
        || (c.num("noread_a") != 0 && c.opt("a").is_some()) || (c.num("noread_b") != 0 && c.opt("b").is_some());
    if unreadable {
        v.bad("unreadable-input", format!("an input could not be read, yet exit status 0 with {}", show(&o.p().stdout)));
        return v;
    }
    let out = o.p().stdout.clone();
    // the bytes must be a complete diff of the two files, whether or not an undisturbed run writes the same
    w.reset();
    w.put_opt(&path, c.opt("a"), 0o644);
    w.put("p.diff", &out, 0o644);
    let o2 = w.run(&[patch_cmd(c, false)], &Plan::default());
    let got = w.get(&path);
    if !o2.p().ok() || got.as_deref() != c.opt("b") {
        v.bad(
            "success-with-wrong-diff",
            format!(
                "exit status 0, but the output {} does not turn {} into {}: {}, giving {}",
                show(&out),
                show_opt(c.opt("a")),
                show_opt(c.opt("b")),
                o2.p().err(),
                show_opt(got.as_deref())
            ),
        );
    }
    v
}

// ------------------------------------------------------------------ C08
pub fn c08_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let base = gen_any(r, "C08");
    let patch = match make_patch(w, &base) {
        Some(p) => p,
        None => return vec![],
    };
    let n = patch.len();
    (0..6)
        .map(|_| {
            let mut c = base.clone();
            c.n.remove("defctx");
            let mut d = patch.clone();
            if r.one_in(2) {
                let cut = match r.below(6) {
                    0 => n - 1,
                    1 => 0,
                    2 => n.saturating_sub(1 + r.us(12)),
                    3 => {
                        // just behind something that closes a value
                        let ends: Vec<usize> = (0..n - 1).filter(|i| matches!(d[*i], b'}' | b']' | b'"' | b',')).collect();
                        if ends.is_empty() {
                            r.us(n)
                        } else {
                            *r.pick(&ends) + 1
                        }
                    }
                    _ => r.us(n),
                };
                d.truncate(cut.min(n - 1));
                c.kind = "cut".into();
            } else {
                c.kind = "garbled".into();
                for _ in 0..1 + r.us(3) {
                    if d.is_empty() {
                        break;
                    }
                    let i = r.us(d.len());
                    match r.below(8) {
                        0 => d[i] ^= 1 << r.below(8),
                        1 => d[i] = r.below(256) as u8,
                        2 => {
                            d.remove(i);
                        }
                        3 => {
                            let x = d[i];
                            d.insert(i, x)
                        }
                        4 => {
                            let e = (i + 1 + r.us(40)).min(d.len());
                            d.drain(i..e);
                        }
                        5 => {
                            let e = (i + 1 + r.us(60)).min(d.len());
                            let x = d[i..e].to_vec();
                            d.extend_from_slice(&x);
                        }
                        _ => {
                            // a digit becomes another digit
                            let ds: Vec<usize> = (0..d.len()).filter(|k| d[*k].is_ascii_digit()).collect();
                            if !ds.is_empty() {
                                let k = *r.pick(&ds);
                                d[k] = b'0' + r.below(10) as u8;
                            }
                        }
                    }
                }
            }
            c.put("patch", &d);
            c.plans = vec![maybe_noisy(r)];
            c
        })
        .collect()
}

pub fn c08_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let path = path_of(c).to_string();
    let rev = c.num("rev") != 0;
    let old = if rev { c.opt("b") } else { c.opt("a") };
    w.reset();
    w.put_opt(&path, old, 0o644);
    let patch = c.content("patch").to_vec();
    w.put("p.diff", &patch, 0o644);
    w.put("other", b"other\n", 0o600);
    let before = w.tree();
    let o = w.run(&[patch_cmd(c, rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    v.nontrivial = true;
    if matches!(o.p().end, End::Hang | End::Overrun) {
        w.stats.add("garbled patch not finished", 1);
        v.void = true;
        return v;
    }
    let after = w.tree();
    let d = tree_diff(&before, &after);
    if c.kind == "cut" {
        if oracle::parse(&patch).is_some() {
            v.void = true; // nothing but blanks was cut off
        } else if o.p().ok() {
            v.bad("torn-accepted", format!("a patch file of {} bytes, cut off, was accepted; {}", patch.len(), d.join("; ")));
        } else if !d.is_empty() {
            v.bad("torn-changes", format!("{}; but {}", o.p().err(), d.join("; ")));
        }
        return v;
    }
    let parsed = oracle::parse(&patch);
    w.stats.add(if parsed.is_some() { "garbled patch still a patch" } else { "garbled patch no longer a patch" }, 1);
    if !o.p().ok() {
        // a patch that is still well formed but does not fit may leave conflict markers in the text it names
        if d.is_empty() {
            return v;
        }
        if let Some(oracle::Patch::Text { path, clumps }) = &parsed {
            let k = canon(path);
            let mut others = before.clone();
            let mut others2 = after.clone();
            let t = others.remove(&k);
            let u = others2.remove(&k);
            if let (Some(t), Some(u)) = (t, u) {
                if tree_diff(&others, &others2).is_empty() {
                    let (ex, complete) = oracle::explain(&oracle::split_lines(&t.data), clumps, rev, &u.data, false);
                    if !complete || ex.iter().any(|x| x.2 > 0) {
                        return v;
                    }
                }
            }
        }
        v.bad("garbled-changes", format!("{}; but {}", o.p().err(), d.join("; ")));
        return v;
    }
    match parsed {
        None => v.bad("garbled-accepted", format!("not a patch any more, yet accepted; {}", d.join("; "))),
        Some(p) => {
            if let Some(e) = fits(&p, rev, &before, &after, false) {
                v.bad("garbled-misapplied", format!("{e}; patch {}", show(&patch)));
            }
        }
    }
    v
}

/// After success: is the new tree what the patch says? Returns what is wrong.
fn fits(p: &oracle::Patch, rev: bool, before: &Tree, after: &Tree, strict: bool) -> Option<String> {
    let k = canon(p.path());
    let (mut o1, mut o2) = (before.clone(), after.clone());
    let t = o1.remove(&k);
    let u = o2.remove(&k);
    let d = tree_diff(&o1, &o2);
    if !d.is_empty() {
        return Some(format!("files not named in the patch: {}", d.join("; ")));
    }
    match p {
        oracle::Patch::Text { clumps, .. } => match (t, u) {
            (Some(t), Some(u)) => {
                let (ex, complete) = oracle::explain(&oracle::split_lines(&t.data), clumps, rev, &u.data, strict);
                if complete && !ex.iter().any(|x| x.2 == 0) {
                    return Some(format!("{} became {}, which is no application of every change", show(&t.data), show(&u.data)));
                }
                None
            }
            (t, u) => Some(format!("the file to be changed: before {:?}, after {:?}", t.is_some(), u.is_some())),
        },
        oracle::Patch::Bytes { clumps, .. } => match (t, u) {
            (Some(t), Some(u)) => {
                if !oracle::explain_bytes(&t.data, clumps, rev, &u.data) {
                    return Some(format!("{} became {}, which is no application of every change", show(&t.data), show(&u.data)));
                }
                None
            }
            (t, u) => Some(format!("the file to be changed: before {:?}, after {:?}", t.is_some(), u.is_some())),
        },
        oracle::Patch::Add { data, .. } | oracle::Patch::Remove { data, .. } => {
            let adding = matches!(p, oracle::Patch::Add { .. }) != rev;
            let (have, want) = if adding { (t, u) } else { (u, t) };
            if have.is_some() {
                return Some(if adding { "it was there already".into() } else { "it is still there".into() });
            }
            match want {
                Some(n) if n.data == *data => None,
                Some(n) => Some(format!("{} but the patch records {}", show(&n.data), show(data))),
                None => Some("the file is not there".into()),
            }
        }
    }
}

/// The reason why the content of an edited file is no complete application of the patch, whatever the program says of it.
pub fn unfit(p: &Prep, got: Option<&[u8]>) -> Option<String> {
    let (t, u) = (p.old.as_deref()?, got?);
    match oracle::parse(&p.patch)? {
        oracle::Patch::Text { clumps, .. } => {
            let (ex, complete) = oracle::explain(&oracle::split_lines(t), &clumps, p.rev, u, true);
            if !complete || ex.iter().any(|x| x.2 == 0) {
                return None;
            }
        }
        oracle::Patch::Bytes { clumps, .. } => {
            if oracle::explain_bytes(t, &clumps, p.rev, u) {
                return None;
            }
        }
        _ => return None,
    }
    Some(format!("{} became {}, which is no application of every change", show(t), show(u)))
}

// ------------------------------------------------------------------ C09
pub fn c09_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = Case::new("C09", *r.pick(&["apart", "apart", "same", "same", "diff"]));
    let k = if base.kind == "apart" { 2 + r.us(2) } else { 2 + r.one_in(3) as usize };
    base.set("procs", k as i64);
    match base.kind.as_str() {
        "apart" => {
            for i in 0..k {
                let (a, b) = if r.one_in(4) { byte_pair(r, 30) } else { text_pair(r, 14) };
                let what = r.below(6);
                if what != 0 {
                    base.put(&format!("a{i}"), &a);
                }
                if what != 1 {
                    base.put(&format!("b{i}"), &b);
                }
                base.set(&format!("rev{i}"), r.one_in(3) as i64);
            }
            base.set("names", if r.one_in(2) { 0 } else { r.below(C09_NAMES.len() as u64) as i64 });
        }
        "same" if r.one_in(3) => {
            // adding, removing and changing bytes, in either direction
            let (a, b) = if r.one_in(2) { byte_pair(r, 30) } else { text_pair(r, 12) };
            let b2 = byte_edit(r, &b, 1);
            match r.below(4) {
                0 => {
                    base.put("b0", &b).put("b1", &b2);
                }
                1 => {
                    base.put("a0", &a).put("b0", &b);
                }
                2 => {
                    base.put("a0", &a);
                }
                _ => {
                    base.put("a0", &a).put("b0", &b).put("b1", &b2);
                }
            }
            if k == 3 {
                let b3 = byte_edit(r, &a, 1);
                if r.one_in(2) {
                    base.put("b2", &b3);
                } else if let Some(b) = base.opt("b0").map(|x| x.to_vec()) {
                    base.put("b2", &b);
                }
            }
            for i in 0..k {
                base.set(&format!("rev{i}"), r.one_in(3) as i64);
            }
        }
        _ => {
            let (a, b) = loop {
                let (a, b) = text_pair(r, 12);
                // a diff run that meets an error compares bytes
                if base.kind != "diff" || modest(&a, &b) {
                    break (a, b);
                }
            };
            let al: Vec<String> = oracle::split_lines(&a).into_iter().map(|l| String::from_utf8(l).unwrap()).collect();
            let b2 = if r.one_in(4) {
                b.clone()
            } else {
                let e = 1 + r.us(3);
                join(&edit(r, &al, e))
            };
            if k == 3 {
                let e = 1 + r.us(3);
                let l: Vec<String> = if base.kind == "same" {
                    al
                } else {
                    oracle::split_lines(&b2).into_iter().map(|l| String::from_utf8(l).unwrap()).collect()
                };
                let b3 = join(&edit(r, &l, e));
                base.put("b2", &b3);
            }
            base.put("a0", &a).put("b0", &b).put("b1", &b2);
        }
    }
    base.set("ctx", *r.pick(&[0, 1, 2, 2, 3]));
    // a sequential run tells how long the interleaved one will be
    let mut d = base.clone();
    d.plans = vec![Plan { procs: vec![ProcPlan::default(); k], ..Default::default() }];
    let (_, o) = c09_exec(&d, w, &d.plans[0]);
    let o = match o {
        Some(o) => o,
        None => return vec![],
    };
    let total = o.steps.max(4);
    let classes: Vec<Vec<u8>> = (0..k).map(|i| o.classes(i as u8)).collect();
    let hot: Vec<u32> = o
        .opc
        .iter()
        .enumerate()
        .filter(|(_, c)| matches!(c.0, OP_CREATE | OP_RENAME | OP_UNLINK | OP_LINK | OP_WRITE | OP_OPEN | OP_CLOSE | OP_FSYNC | OP_CHMOD | OP_STAT))
        .map(|(i, _)| i as u32)
        .collect();
    (0..6)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = Plan { procs: vec![], ..Default::default() };
            let same_pid = r.pct(70);
            for i in 0..k {
                let mut q = ProcPlan { hash_seed: r.u64(), ..Default::default() };
                if r.one_in(4) {
                    noise(r, &mut q);
                }
                q.pid = if same_pid { 4711 } else { 4711 + i as u32 };
                pl.procs.push(q);
            }
            let m = match r.below(4) {
                0 => 1 + r.us(3),
                1 => 3 + r.us(8),
                _ => 8 + r.us(60),
            };
            let clustered = r.one_in(2) && !hot.is_empty();
            let mut pre: Vec<(u32, u32)> = (0..m)
                .map(|_| {
                    let s = if clustered || r.one_in(2) && !hot.is_empty() {
                        let h = *r.pick(&hot) as i64 + r.range(-1, 3);
                        h.max(0) as u32
                    } else {
                        r.below(total as u64 + 4) as u32
                    };
                    (s, r.below(k as u64) as u32)
                })
                .collect();
            pre.sort();
            pre.dedup_by_key(|x| x.0);
            pl.preempts = pre;
            if r.one_in(4) {
                // one of them meets an error or is killed; the others must not notice
                let i = r.us(k);
                let f = if r.one_in(2) {
                    crash_fault(r, i as u8, &classes[i]).map(|mut f| {
                        f.kind = match f.kind {
                            F_POWER_AFTER => F_KILL_AFTER,
                            F_POWER_BEFORE => F_KILL_BEFORE,
                            F_POWER_MID => F_KILL_MID,
                            k => k,
                        };
                        fault_words(f)
                    })
                } else {
                    error_fault(r, i as u8, &classes[i], ALL_OPS, false)
                };
                pl.faults.extend(f);
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

const C09_NAMES: &[[&str; 3]] = &[
    ["f0", "f1", "f2"],
    ["f.a", "f.b", "f.c"],
    ["f", "f~", "f.orig"],
    ["f", "d/f", "d/e/f"],
    ["d/f", "d/f.x", "d/x.f"],
    [".f", "f", "..f"],
    ["f", "f0", "f00"],
];

/// The diff of one of the runs on one file; its own direction is taken into account.
fn c09_same_patch(w: &mut World, c: &Case, i: usize) -> Option<(Vec<u8>, bool)> {
    let (a, b) = (c.opt("a0"), c.opt(&format!("b{i}")));
    if a.is_none() && b.is_none() {
        return None;
    }
    let rev = c.num(&format!("rev{i}")) != 0;
    let (x, y) = if rev { (b, a) } else { (a, b) };
    c09_patch(w, x, y, "f", c.num("ctx")).map(|p| (p, rev))
}

fn c09_cmd(rev: bool, patch: &str) -> Vec<String> {
    cmd(if rev { &["pw_patch", "-r"] } else { &["pw_patch"] }).into_iter().chain([patch.to_string()]).collect()
}

fn c09_patch(w: &mut World, a: Option<&[u8]>, b: Option<&[u8]>, path: &str, ctx: i64) -> Option<Vec<u8>> {
    let mut d = Case::new("C09", "change");
    if let Some(a) = a {
        d.put("a", a);
    }
    if let Some(b) = b {
        d.put("b", b);
    }
    d.puts("path", path).set("ctx", ctx);
    make_patch(w, &d)
}

/// Ordered choices of some of three runs, but for the first alone.
const ORDERS: &[&[usize]] = &[
    &[1], &[0, 1], &[1, 0], &[2], &[0, 2], &[2, 0], &[1, 2], &[2, 1],
    &[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0],
];

type Starts = Vec<(String, Option<Vec<u8>>, Option<Vec<u8>>)>;

fn c09_exec(c: &Case, w: &mut World, plan: &Plan) -> (Starts, Option<RunOut>) {
    let k = c.num("procs") as usize;
    let ctx = c.num("ctx");
    let mut cmds = vec![];
    let mut files = vec![];
    let mut patches = vec![];
    if c.kind == "apart" {
        for i in 0..k {
            let (a, b) = (c.opt(&format!("a{i}")), c.opt(&format!("b{i}")));
            if a.is_none() && b.is_none() {
                return (vec![], None);
            }
            let path = C09_NAMES[c.num("names") as usize % C09_NAMES.len()][i].to_string();
            let patch = match c09_patch(w, a, b, &path, ctx) {
                Some(p) => p,
                None => return (vec![], None),
            };
            let rev = c.num(&format!("rev{i}")) != 0;
            let (old, new) = if rev { (b, a) } else { (a, b) };
            files.push((path, old.map(|x| x.to_vec()), new.map(|x| x.to_vec())));
            patches.push(patch);
            cmds.push(c09_cmd(rev, &format!("p{i}")));
        }
    } else {
        let a = c.opt("a0");
        let mut revs = vec![];
        for i in 0..if c.kind == "same" { k } else { 1 } {
            match c09_same_patch(w, c, i) {
                Some((p, rev)) => {
                    patches.push(p);
                    revs.push(rev);
                }
                None => return (vec![], None),
            }
        }
        files.push(("f".to_string(), a.map(|x| x.to_vec()), c.opt("b0").map(|x| x.to_vec())));
        cmds.push(c09_cmd(revs[0], "p0"));
        if c.kind == "same" {
            for i in 1..k {
                cmds.push(c09_cmd(revs[i], &format!("p{i}")));
            }
        } else {
            cmds.push(cmd(&["pw_diff", "f", if k == 3 { "h" } else { "g" }]));
            if k == 3 {
                // the other file is patched meanwhile as well
                match c09_patch(w, c.opt("b1"), c.opt("b2"), "h", ctx) {
                    Some(p) => patches.push(p),
                    None => return (vec![], None),
                }
                files.push(("h".to_string(), c.opt("b1").map(|x| x.to_vec()), c.opt("b2").map(|x| x.to_vec())));
                cmds.push(c09_cmd(false, "p1"));
            }
        }
    }
    w.reset();
    for (p, old, _) in &files {
        w.put_opt(p, old.as_deref(), 0o644);
    }
    for (i, p) in patches.iter().enumerate() {
        w.put(&format!("p{i}"), p, 0o644);
    }
    if c.kind == "diff" && k == 2 {
        w.put("g", c.content("b1"), 0o644);
    }
    for (p, _, _) in &files {
        w.watch(p);
    }
    let o = w.run(&cmds, plan);
    (files, Some(o))
}

pub fn c09_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    // outcomes of running the two patches alone and one after the other
    let mut outcomes: Vec<Option<Vec<u8>>> = vec![];
    if c.kind != "apart" {
        let a = c.opt("a0").map(|x| x.to_vec());
        let mut ps = vec![];
        for i in 0..if c.kind == "same" { c.num("procs") as usize } else { 1 } {
            match c09_same_patch(w, c, i) {
                Some(p) => ps.push(p),
                None => {
                    v.void = true;
                    return v;
                }
            }
        }
        let seq = |w: &mut World, order: &[usize]| -> Option<Vec<u8>> {
            let mut cur = a.clone();
            for i in order {
                let (patch, rev) = &ps[*i];
                let key = key_of(&[b"c09", &[cur.is_some() as u8], cur.as_deref().unwrap_or(b""), &[*rev as u8], patch]);
                let m = w.golden(
                    key,
                    |w| {
                        w.reset();
                        w.put_opt("f", cur.as_deref(), 0o644);
                        w.put("p0", patch, 0o644);
                    },
                    &[c09_cmd(*rev, "p0")],
                );
                cur = m.tree.get("/w/f").map(|n| n.data.clone());
            }
            cur
        };
        outcomes.push(seq(w, &[0]));
        if c.kind == "same" {
            let k = ps.len();
            for order in ORDERS.iter().filter(|o| o.iter().all(|i| *i < k)) {
                let x = seq(w, order);
                outcomes.push(x);
            }
        }
    }
    let (files, o) = c09_exec(c, w, &c.plan(0));
    let o = match o {
        Some(o) => o,
        None => {
            v.void = true;
            return v;
        }
    };
    if hang_or(&mut v, &o) {
        return v;
    }
    let after = w.tree();
    // the run that met an error or was killed, if one did
    let hit: Option<usize> = if o.any_fired() { c.plan(0).faults.first().map(|f| f.proc as usize) } else { None };
    let unlink_hit = o.fired.iter().any(|f| f.0 > 0 && f.1 == OP_UNLINK as u32 + 1);
    let may_leave = (unlink_hit || o.procs.iter().any(|p| p.crashed())) as usize;
    let extra: Vec<&String> = after
        .keys()
        .filter(|k| {
            !["/w/p0", "/w/p1", "/w/p2", "/w/g", "/w/d", "/w/d/e"].contains(&k.as_str()) && !files.iter().any(|f| canon(&f.0) == **k)
        })
        .collect();
    if c.kind == "apart" {
        for (i, (path, old, new)) in files.iter().enumerate() {
            for h in o.hist.iter().filter(|h| h.watch == i) {
                let ok = |x: &Option<Vec<u8>>| match x {
                    None => !h.present,
                    Some(d) => h.present && (h.len, h.hash) == (d.len() as u64, hash_of(d)),
                };
                if !(ok(old) || ok(new)) {
                    v.bad("partial", format!("at call {} {path} shows neither its old nor its new content", h.step));
                    return v;
                }
            }
            let got = after.get(&canon(path)).map(|n| n.data.clone());
            if hit == Some(i) {
                if got != *new && (got != *old || o.procs[i].ok()) {
                    v.bad("partial", format!("run {i} on {path}: {:?}, file holds {}", o.procs[i].end, show_opt(got.as_deref())));
                    return v;
                }
            } else if !o.procs[i].ok() || got != *new {
                v.bad(
                    "disturbed",
                    format!(
                        "run {i} on {path}: {}, file holds {}, alone it gives {}",
                        o.procs[i].err(),
                        show_opt(got.as_deref()),
                        show_opt(new.as_deref())
                    ),
                );
                return v;
            }
        }
    } else {
        let a = files[0].1.clone();
        let other = files.get(1).map(|f| (f.1.clone(), f.2.clone())); // the second file of a diff, patched too
        for h in &o.hist {
            let ok = |d: &Option<Vec<u8>>| match d {
                Some(d) => h.present && (h.len, h.hash) == (d.len() as u64, hash_of(d)),
                None => !h.present,
            };
            let fine = match &other {
                Some((old, new)) if h.watch == 1 => ok(old) || ok(new),
                _ => ok(&a) || outcomes.iter().any(ok),
            };
            if !fine {
                v.bad("partial", format!("at call {} the file shows something no complete run leaves", h.step));
                return v;
            }
        }
        let got = after.get("/w/f").map(|n| n.data.clone());
        if !outcomes.contains(&got) && !(c.kind == "diff" && hit == Some(0) && got == a) {
            v.bad(
                "mixture",
                format!(
                    "file holds {}; possible: {}; ends {:?}",
                    show_opt(got.as_deref()),
                    outcomes.iter().map(|x| show_opt(x.as_deref())).collect::<Vec<_>>().join(" or "),
                    o.procs.iter().map(|p| p.end.clone()).collect::<Vec<_>>()
                ),
            );
            return v;
        }
        if c.kind == "diff" {
            if let Some((old, new)) = &other {
                let got = after.get("/w/h").map(|n| n.data.clone());
                if got != *new && !(hit == Some(2) && got == *old) {
                    v.bad("disturbed", format!("the second file holds {}; {:?}", show_opt(got.as_deref()), o.procs[2].end));
                    return v;
                }
            }
            if (0..o.procs.len()).any(|i| !o.procs[i].ok() && hit != Some(i)) {
                v.bad("disturbed", format!("patch: {}; diff: {}", o.procs[0].err(), o.procs[1].err()));
                return v;
            }
            if !o.procs[1].ok() {
                return v;
            }
            // the diff must be that of one complete version
            let out = o.procs[1].stdout.clone();
            let mut fine = false;
            let seconds: Vec<Option<Vec<u8>>> = match &other {
                Some((old, new)) => vec![old.clone(), new.clone()],
                None => vec![Some(c.content("b1").to_vec())],
            };
            for (version, second) in [&a, &outcomes[0]].into_iter().flat_map(|x| seconds.iter().map(move |y| (x, y))) {
                if fine {
                    break;
                }
                w.reset();
                w.put_opt("f", version.as_deref(), 0o644);
                let name = if other.is_some() { "h" } else { "g" };
                w.put_opt(name, second.as_deref(), 0o644);
                let o = w.run(&[cmd(&["pw_diff", "f", name])], &Plan::default());
                fine |= o.p().stdout == out;
                if !fine && hit == Some(1) {
                    // another form, perhaps, but a diff of the two
                    w.reset();
                    w.put_opt("f", version.as_deref(), 0o644);
                    w.put("p.diff", &out, 0o644);
                    let o = w.run(&[cmd(&["pw_patch", "p.diff"])], &Plan::default());
                    fine |= o.p().ok() && w.get("f") == *second;
                }
            }
            if !fine {
                v.bad("torn-diff", format!("the diff made during the patch describes neither version: {}", show(&out)));
                return v;
            }
        }
    }
    if extra.len() > may_leave {
        v.bad("left-behind", format!("files left: {extra:?}"));
    }
    v
}

// ------------------------------------------------------------------ C15
pub fn c15_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_any(r, "C15");
    if r.one_in(2) {
        base.puts("path", "f");
    }
    if make_patch(w, &base).is_none() {
        return vec![];
    }
    let rev = base.num("rev") != 0;
    let old = if rev { base.opt("b") } else { base.opt("a") }.map(|x| x.to_vec());
    let new = if rev { base.opt("a") } else { base.opt("b") }.map(|x| x.to_vec());
    (0..4)
        .map(|_| {
            let mut c = base.clone();
            // what another party left under the name
            let start = if r.one_in(5) { new.clone() } else { old.clone() }.unwrap_or_default();
            let t = match r.below(8) {
                0 => vec![],
                1 => bytes(r, 30),
                2 => join(&text_lines(r, 12)),
                3 => byte_edit(r, &start, 1),
                _ => match String::from_utf8(start.clone()) {
                    Ok(s) => {
                        let l: Vec<String> = s.split_inclusive('\n').map(|x| x.to_string()).collect();
                        let k = 1 + r.us(4);
                        join(&edit(r, &l, k))
                    }
                    Err(_) => {
                        let k = 1 + r.us(3);
                        byte_edit(r, &start, k)
                    }
                },
            };
            match r.below(24) {
                0 | 1 => {
                    c.set("gone", 1);
                }
                2 => {
                    c.set("dir", 1);
                }
                _ => {}
            }
            c.put("t", &t);
            c.plans = vec![maybe_noisy(r)];
            c
        })
        .collect()
}

pub fn c15_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let mut plain = c.clone();
    plain.c.remove("t");
    let p = match prep(w, &plain) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    if c.num("gone") != 0 {
        w.remove(&p.path);
    } else if c.num("dir") != 0 {
        w.remove(&p.path);
        w.put_dir(&p.path);
    } else {
        w.put(&p.path, c.content("t"), 0o644);
    }
    let before = w.tree();
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    v.nontrivial = true;
    let after = w.tree();
    let parsed = match oracle::parse(&p.patch) {
        Some(x) => x,
        None => {
            v.void = true;
            return v;
        }
    };
    if o.p().ok() {
        w.stats.add("outcome success", 1);
        if let Some(e) = fits(&parsed, p.rev, &before, &after, true) {
            v.bad("misfit-accepted", format!("exit status 0, but {e}; patch {}", show(&p.patch)));
        }
        return v;
    }
    w.stats.add("outcome failure", 1);
    let d = tree_diff(&before, &after);
    if d.is_empty() {
        return v;
    }
    if let oracle::Patch::Text { path, clumps } = &parsed {
        let k = canon(path);
        let (mut o1, mut o2) = (before.clone(), after.clone());
        if let (Some(t), Some(u)) = (o1.remove(&k), o2.remove(&k)) {
            if tree_diff(&o1, &o2).is_empty() {
                let (ex, complete) = oracle::explain(&oracle::split_lines(&t.data), clumps, p.rev, &u.data, true);
                if !complete || ex.iter().any(|x| x.2 > 0) {
                    w.stats.add("conflict blocks written", 1);
                    return v;
                }
            }
        }
    }
    v.bad("destroys", format!("{}; and {}; patch {}", o.p().err(), d.join("; "), show(&p.patch)));
    v
}

// ------------------------------------------------------------------ C17 (programs: retry after a crash)
/// Contents with no repeated line (or byte) whose changes all have full context on both sides.
pub fn unique_pair(r: &mut Rng, text: bool, ctx: usize) -> (Vec<u8>, Vec<u8>) {
    let mut id = 0u32;
    let mut fresh = |tag: &str| {
        id += 1;
        format!("{tag}{id}\n").into_bytes()
    };
    let mut a: Vec<Vec<u8>> = vec![];
    let mut b: Vec<Vec<u8>> = vec![];
    for _ in 0..ctx + r.us(4) {
        let l = fresh("k");
        a.push(l.clone());
        b.push(l);
    }
    for _ in 0..1 + r.us(3) {
        let (d, i) = match r.below(3) {
            0 => (0, 1 + r.us(3)),
            1 => (1 + r.us(3), 0),
            _ => (1 + r.us(3), 1 + r.us(3)),
        };
        for _ in 0..d {
            a.push(fresh("old"));
        }
        for _ in 0..i {
            b.push(fresh("new"));
        }
        let gap = match r.below(3) {
            0 => ctx.max(1),
            1 => 2 * ctx + 1 + r.us(4),
            _ => ctx + r.us(ctx + 3),
        };
        for _ in 0..gap.max(1) {
            let l = fresh("k");
            a.push(l.clone());
            b.push(l);
        }
    }
    for _ in 0..ctx {
        let l = fresh("k");
        a.push(l.clone());
        b.push(l);
    }
    if text {
        if r.one_in(4) {
            a.last_mut().unwrap().pop();
            b.last_mut().unwrap().pop();
        }
        (a.concat(), b.concat())
    } else {
        // one distinct byte per item
        let mut order: Vec<u8> = (0..=255).collect();
        for i in (1..order.len()).rev() {
            let j = r.us(i + 1);
            order.swap(i, j);
        }
        // make sure it is not text
        let x = order.iter().position(|b| *b == 0xff).unwrap();
        order.swap(0, x);
        let mut names: Vec<Vec<u8>> = vec![];
        let mut map = |l: &Vec<u8>| -> u8 {
            match names.iter().position(|n| n == l) {
                Some(i) => order[i % 256],
                None => {
                    names.push(l.clone());
                    order[(names.len() - 1) % 256]
                }
            }
        };
        let aa: Vec<u8> = a.iter().map(&mut map).collect();
        let bb: Vec<u8> = b.iter().map(&mut map).collect();
        (aa, bb)
    }
}

pub fn retry_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = Case::new("C17", "retry");
    let ctx = 1 + r.us(4);
    let text = !r.one_in(4);
    let (a, b) = unique_pair(r, text, ctx);
    base.put("a", &a).put("b", &b).set("ctx", ctx as i64).set("rev", r.one_in(2) as i64);
    let p = match dry(w, &base) {
        Some(p) => p,
        None => return vec![],
    };
    (0..3)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = maybe_noisy(r);
            if r.pct(70) {
                if let Some(f) = p.crash(r) {
                    pl.faults.push(f);
                }
                recovery(r, &mut pl);
            }
            c.plans = vec![pl];
            let again = 1 + r.us(3);
            for _ in 0..again {
                c.plans.push(maybe_noisy(r));
            }
            c
        })
        .collect()
}

pub fn retry_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let new = p.new.clone().unwrap_or_default();
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    for k in 1..c.plans.len() {
        let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(k));
        if hang_or(&mut v, &o) {
            return v;
        }
        let got = w.get(&p.path);
        if !o.p().ok() || got.as_deref() != Some(&new[..]) {
            v.bad(
                "retry",
                format!(
                    "retry {k}: {}, file holds {}, expected {}; patch {}",
                    o.p().err(),
                    show_opt(got.as_deref()),
                    show(&new),
                    show(&p.patch)
                ),
            );
            return v;
        }
    }
    v
}

// ------------------------------------------------------------------ C19
pub fn c19_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_change(r, "C19");
    maybe_edited(r, &mut base);
    base.set("mode", *r.pick(&[0o600, 0o644, 0o755, 0o444, 0o400, 0o640, 0o664, 0o777, 0o666, 0o700, 0o4755, 0o2755, 0o555, 0o1644, 0o6711, 0o604, 0o440]));
    let p = match dry(w, &base) {
        Some(p) => p,
        None => return vec![],
    };
    (0..4)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = maybe_noisy(r);
            pl.procs[0].umask = *r.pick(&[0o022, 0, 0o077, 0o027, 0o002, 0o777]);
            match r.below(4) {
                0 => {}
                1 => {
                    if let Some(f) = p.crash(r) {
                        pl.faults.push(f);
                    }
                    recovery(r, &mut pl);
                }
                2 => {
                    if let Some(f) = error_fault(r, 0, &p.classes, bit(OP_CHMOD) | bit(OP_STAT), false) {
                        pl.faults.extend(around(r, f));
                    }
                }
                _ => {
                    if let Some(f) = error_fault(r, 0, &p.classes, ALL_OPS, false) {
                        pl.faults.extend(around(r, f));
                    }
                }
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

pub fn c19_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    w.watch(&p.path);
    let o = w.run(&[patch_cmd(c, p.rev)], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    for h in &o.hist {
        if h.present && h.mode != p.mode {
            v.bad("mode-instant", format!("at call {} the mode is {:o} instead of {:o}", h.step, h.mode, p.mode));
            return v;
        }
    }
    match w.node(&p.path) {
        Some(n) if n.mode == p.mode => {}
        Some(n) => v.bad("mode", format!("{:?}: the mode is {:o} instead of {:o}", o.p().end, n.mode, p.mode)),
        None => v.bad("gone", format!("{:?}: the file is gone", o.p().end)),
    }
    v
}

// ------------------------------------------------------------------ C20
pub fn c20_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    let mut base = gen_any_modest(r, "C20");
    maybe_edited(r, &mut base);
    if r.one_in(3) {
        base.set("alone", 1);
        base.n.remove("linked");
        if r.one_in(2) {
            base.puts("path", *r.pick(&["d/e/f", "d/e/g", "/w/d/e/f"]));
        }
    }
    let p = match dry(w, &base) {
        Some(p) => p,
        None => return vec![],
    };
    let mut names = w.created();
    names.retain(|n| canon(n) != canon(&p.path));
    (0..4)
        .map(|_| {
            let mut c = base.clone();
            let mut pl = maybe_noisy(r);
            match r.below(5) {
                0 | 1 => {}
                2 => {
                    if let Some(f) = p.crash(r) {
                        let mut f = f;
                        // a kill; what a power failure loses is not the program's doing
                        f.kind = match f.kind {
                            F_POWER_AFTER => F_KILL_AFTER,
                            F_POWER_BEFORE => F_KILL_BEFORE,
                            F_POWER_MID => F_KILL_MID,
                            k => k,
                        };
                        pl.faults.push(fault_words(f));
                    }
                }
                _ => {
                    for _ in 0..1 + r.us(2) {
                        if let Some(f) = error_fault(r, 0, &p.classes, ALL_OPS, true) {
                            pl.faults.extend(around(r, f));
                        }
                    }
                }
            }
            if r.one_in(4) {
                c.kind = "diffing".into();
            }
            c.set("taken", r.below(3) as i64);
            if !names.is_empty() && c.kind != "diffing" && c.num("taken") == 0 && r.one_in(4) {
                // another party takes the temporary's name, perhaps at the last moment
                pl.exts.push(ExtPlan { kind: 1, path: r.pick(&names).clone(), data: Content(b"theirs\n".to_vec()) });
                let among = bit(OP_CREATE) | bit(OP_STAT) | bit(OP_OPEN) | bit(OP_LINK) | bit(OP_RENAME) | bit(OP_UNLINK) | bit(OP_CLOSE);
                if let Some((at, cl)) = pick_op(r, &p.classes, among) {
                    pl.faults.push(fault_words(FaultPlan { kind: F_EXT, at, mask: bit(cl), arg: 0, ..Default::default() }));
                }
            }
            c.plans = vec![pl];
            c
        })
        .collect()
}

pub fn c20_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let p = match prep(w, c) {
        Some(p) => p,
        None => {
            v.void = true;
            return v;
        }
    };
    let dir = match p.path.rfind('/') {
        Some(i) => p.path[..i].to_string(),
        None => ".".to_string(),
    };
    // neighbours, some with the names temporary or backup files would take
    let mut names: Vec<String> = vec![];
    let alone = c.num("alone") != 0; // the only one of its directory
    for d in [dir.as_str(), "."] {
        if alone && d == dir {
            continue;
        }
        for n in ["n", "f.orig", "f.rej", "f~", "f.tmp", ".f.tmp", "tmp", "f.new", "f.old", "f.bak", ".f", "temp", "f.lock", ".f.lock", ".f.swp", "lock", "#f#", "f.orig~"] {
            names.push(format!("{d}/{n}"));
        }
        for k in 0..c.num("taken") {
            names.push(format!("{d}/{:x}{k:x}", 4711));
            names.push(format!("{d}/.{:x}{k:x}", 4711));
        }
    }
    names.retain(|n| canon(n) != canon(&p.path));
    names.sort();
    names.dedup();
    for (i, n) in names.iter().enumerate() {
        if w.node(n).is_none() && canon(n) != canon(&p.path) {
            w.put(n, format!("neighbour {i}\n").as_bytes(), 0o640);
        }
    }
    let diffing = c.kind == "diffing";
    if diffing {
        let b = if p.rev { c.opt("a") } else { c.opt("b") };
        w.put_opt("g", b, 0o644);
    }
    let linked = p.old.is_some() && !alone;
    if linked {
        w.hard_link(&p.path, &format!("{dir}/hard"));
    }
    let mut watched = vec![];
    names.push("p.diff".into());
    for n in &names {
        w.watch(n);
        watched.push(n.clone());
    }
    if linked {
        let h = format!("{dir}/hard");
        w.watch(&h);
        watched.push(h);
    }
    if diffing {
        w.watch(&p.path);
        watched.push(p.path.clone());
    }
    let theirs = c.plan(0).exts.first().map(|e| e.path.clone());
    let theirs_watch = theirs.as_ref().map(|n| w.watch(n));
    let before = w.tree();
    let cmdline = if diffing { diff_cmd(c) } else { patch_cmd(c, p.rev) };
    let o = w.run(&[cmdline], &c.plan(0));
    if hang_or(&mut v, &o) {
        return v;
    }
    v.nontrivial = true;
    let mut taken = false;
    for h in &o.hist {
        if Some(h.watch) == theirs_watch {
            // the temporary's own name, until somebody else has it
            if h.by as usize >= MAX_PROC {
                taken = true;
            } else if taken {
                v.bad("touches", format!("call {} touched {}, which another party had created", h.step, theirs.unwrap_or_default()));
                return v;
            }
            continue;
        }
        v.bad("touches", format!("call {} touched {}", h.step, watched[h.watch]));
        return v;
    }
    let after = w.tree();
    let t = canon(&p.path);
    let (mut o1, mut o2) = (before.clone(), after.clone());
    if taken {
        w.stats.add("temporary's name taken by another party", 1);
        o2.remove(&canon(&theirs.unwrap_or_default()));
    }
    if !diffing {
        o1.remove(&t);
        o2.remove(&t);
    }
    let unlink_hit = o.fired.iter().any(|f| f.0 > 0 && f.1 == OP_UNLINK as u32 + 1);
    let mut d = tree_diff(&o1, &o2);
    if (o.p().crashed() || unlink_hit) && !diffing {
        // its temporary, and just the one
        let mut left = 0;
        d.retain(|x| {
            let it = x.contains(" appeared with ");
            left += it as u32;
            !it || left > 1
        });
    }
    if !d.is_empty() {
        v.bad("touches", format!("{:?}: {}", o.p().end, d.join("; ")));
    }
    v
}
