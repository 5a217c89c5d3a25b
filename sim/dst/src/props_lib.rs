//! Properties decided by running the library on simulated streams, a simulated worker pool and simulated
//! histories of edits by several parties (and, for some cases, the programs on the simulated machine).
use crate::case::*;
use crate::gen::*;
use crate::inproc;
use crate::oracle;
use crate::props_os::{hash_of, retry_gen, retry_run};
use crate::rng::Rng;
use crate::streams::*;
use crate::world::*;
use pw_cub_diff_lib::unified_diff::UnifiedDiffClump;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::byte_diff::{ByteChangeClump, ByteChangeDiff};
use pw_diff_lib::changes::Changes;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::Seq;
use pw_diff_lib::text_diff::{TextChangeClump, TextChangeDiff};
use serde_json::{json, Value};

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn tseq(b: &[u8]) -> Seq<String> {
    Seq::<String>::from(text(b))
}
fn bseq(b: &[u8]) -> Seq<u8> {
    Seq::<u8>::from(b)
}

/// The library's clumps for two contents, as JSON.
fn clumps_of(a: &[u8], b: &[u8], ctx: u8, is_text: bool) -> Value {
    if is_text {
        let ch = Changes::<String>::new(tseq(a), tseq(b));
        let v: Vec<TextChangeClump> = ch.change_clumps(ctx).map(TextChangeClump::from).collect();
        serde_json::to_value(&v).expect("clumps")
    } else {
        let ch = Changes::<u8>::new(bseq(a), bseq(b));
        let v: Vec<ByteChangeClump> = ch.change_clumps(ctx).map(ByteChangeClump::from).collect();
        serde_json::to_value(&v).expect("clumps")
    }
}

fn is_text(c: &Case) -> bool {
    c.num("bytes") == 0
}

/// A document such as the diff program writes.
fn doc_of(c: &Case) -> Value {
    let (a, b, ctx) = (c.content("a"), c.content("b"), c.num("ctx") as u8);
    match c.str("doc") {
        "add" | "remove" => {
            let tag = match (c.str("doc"), is_text(c)) {
                ("add", true) => "TextAdd",
                ("add", false) => "ByteAdd",
                (_, true) => "TextRemove",
                _ => "ByteRemove",
            };
            if is_text(c) {
                let lines: Vec<String> = oracle::split_lines(b).iter().map(|l| text(l)).collect();
                json!({ tag: { "path": "d/f", "lines": lines } })
            } else {
                json!({ tag: { "path": "d/f", "compressed": false, "bytes": b } })
            }
        }
        _ => {
            let cl = clumps_of(a, b, ctx, is_text(c));
            if is_text(c) {
                json!({ "TextChange": { "before_path": "f", "after_path": "g", "clumps": cl } })
            } else {
                json!({ "ByteChange": { "before_path": "f", "after_path": "g", "compressed": false, "clumps": cl } })
            }
        }
    }
}

fn text_diff(clumps: &Value) -> TextChangeDiff {
    let d = json!({ "before_path": "f", "after_path": "g", "clumps": clumps }).to_string();
    TextChangeDiff::from_reader(&mut d.as_bytes()).expect("text diff")
}
fn byte_diff(clumps: &Value) -> ByteChangeDiff {
    let d = json!({ "before_path": "f", "after_path": "g", "compressed": false, "clumps": clumps }).to_string();
    ByteChangeDiff::from_reader(&mut d.as_bytes()).expect("byte diff")
}

fn oracle_clumps(clumps: &Value, is_text: bool) -> Vec<oracle::Clump> {
    let d = if is_text {
        json!({ "TextChange": { "before_path": "f", "after_path": "g", "clumps": clumps } })
    } else {
        json!({ "ByteChange": { "before_path": "f", "after_path": "g", "compressed": false, "clumps": clumps } })
    };
    match oracle::parse(d.to_string().as_bytes()) {
        Some(oracle::Patch::Text { clumps, .. }) | Some(oracle::Patch::Bytes { clumps, .. }) => clumps,
        _ => vec![],
    }
}

fn stream_noise(r: &mut Rng, p: &mut Plan) {
    noise(r, &mut p.procs[0]);
}

// ------------------------------------------------------------------ C10, C11: operations on streams
#[derive(Clone, Debug, PartialEq, Default)]
struct OpOut {
    value: Option<Vec<u8>>, // None: the operation returned an error
    error: String,
    written: Vec<u8>,
    fired: bool,
    noise: u64,
    trace: u64,
}

const OPS: &[&str] =
    &["lines", "bytes", "diff-read", "text-read", "diff-write", "text-write", "apply", "apply", "add-write"];

fn clean() -> Plan {
    Plan::default()
}

fn op_exec(c: &Case, plan: &Plan) -> OpOut {
    let rev = c.num("rev") != 0;
    let mut o = OpOut::default();
    fn done<T, E: std::fmt::Display>(o: &mut OpOut, r: Result<T, E>, show: impl FnOnce(T) -> Vec<u8>) {
        match r {
            Ok(v) => o.value = Some(show(v)),
            Err(e) => o.error = e.to_string(),
        }
    }
    fn reader(o: &mut OpOut, r: &SimReader) {
        o.fired |= r.fired;
        o.noise += r.noise();
        o.trace = o.trace.rotate_left(9) ^ r.trace();
    }
    fn writer(o: &mut OpOut, w: SimWriter) {
        o.fired |= w.fired;
        o.noise += w.noise();
        o.trace = o.trace.rotate_left(9) ^ w.trace();
        o.written = w.out;
    }
    let rewrite = |d: &Diff| -> Vec<u8> {
        let mut v = vec![];
        match d.to_writer(&mut v) {
            Ok(()) => v,
            Err(e) => format!("cannot be written: {e}").into_bytes(),
        }
    };
    match c.kind.as_str() {
        "lines" => {
            let mut r = SimReader::new(c.content("t"), plan);
            let x = Seq::<String>::read(&mut r);
            reader(&mut o, &r);
            done(&mut o, x, |s| {
                let v: Vec<String> = s.iter().cloned().collect();
                serde_json::to_vec(&v).unwrap()
            });
        }
        "bytes" => {
            let mut r = SimReader::new(c.content("t"), plan);
            let x = Seq::<u8>::read(&mut r);
            reader(&mut o, &r);
            done(&mut o, x, |s| s.to_vec());
        }
        "diff-read" => {
            let doc = doc_of(c).to_string().into_bytes();
            let mut r = SimReader::new(&doc, plan);
            let x = Diff::from_reader(&mut r);
            reader(&mut o, &r);
            done(&mut o, x, |d| rewrite(&d));
        }
        "text-read" => {
            let cl = clumps_of(c.content("a"), c.content("b"), c.num("ctx") as u8, is_text(c));
            let doc = json!({ "before_path": "f", "after_path": "g", "compressed": false, "clumps": cl });
            let doc = if is_text(c) { json!({ "before_path": "f", "after_path": "g", "clumps": doc["clumps"] }) } else { doc };
            let doc = doc.to_string().into_bytes();
            let mut r = SimReader::new(&doc, plan);
            if is_text(c) {
                let x = TextChangeDiff::from_reader(&mut r);
                reader(&mut o, &r);
                done(&mut o, x, |d| {
                    let mut v = vec![];
                    let _ = d.to_writer(&mut v);
                    v
                });
            } else {
                let x = ByteChangeDiff::from_reader(&mut r);
                reader(&mut o, &r);
                done(&mut o, x, |d| {
                    let mut v = vec![];
                    let _ = d.to_writer(&mut v);
                    v
                });
            }
        }
        "diff-write" => {
            let doc = doc_of(c).to_string().into_bytes();
            let d = Diff::from_reader(&mut &doc[..]).expect("diff");
            let mut w = SimWriter::new(plan);
            let x = d.to_writer(&mut w);
            writer(&mut o, w);
            done(&mut o, x, |_| vec![]);
        }
        "text-write" => {
            let cl = clumps_of(c.content("a"), c.content("b"), c.num("ctx") as u8, is_text(c));
            let mut w = SimWriter::new(plan);
            let x = if is_text(c) { text_diff(&cl).to_writer(&mut w) } else { byte_diff(&cl).to_writer(&mut w) };
            writer(&mut o, w);
            done(&mut o, x, |_| vec![]);
        }
        "add-write" => {
            let doc = doc_of(c).to_string().into_bytes();
            let d = Diff::from_reader(&mut &doc[..]).expect("diff");
            let mut w = SimWriter::new(plan);
            let x = match &d {
                Diff::TextAdd(p) | Diff::TextRemove(p) => p.write_into(&mut w),
                Diff::ByteAdd(p) | Diff::ByteRemove(p) => p.write_into(&mut w),
                _ => Ok(()),
            };
            writer(&mut o, w);
            done(&mut o, x, |_| vec![]);
        }
        _ => {
            let cl = clumps_of(c.content("a"), c.content("b"), c.num("ctx") as u8, is_text(c));
            let mut w = SimWriter::new(plan);
            if is_text(c) {
                let x = text_diff(&cl).apply_into(&tseq(c.content("t")), &mut w, rev);
                writer(&mut o, w);
                done(&mut o, x, |s| format!("{s:?}").into_bytes());
            } else {
                let x = byte_diff(&cl).apply_into(&bseq(c.content("t")), &mut w, rev);
                writer(&mut o, w);
                done(&mut o, x, |_| vec![]);
            }
        }
    }
    o
}

fn op_run(c: &Case, plan: &Plan) -> Result<OpOut, String> {
    inproc::run(plan.procs[0].hash_seed, 0, 1, || op_exec(c, plan)).result
}

fn stream_case(r: &mut Rng, prop: &str) -> Case {
    let mut c = Case::new(prop, *r.pick(OPS));
    let (mut a, mut b) = if r.one_in(3) {
        c.set("bytes", 1);
        byte_pair(r, 60)
    } else {
        text_pair(r, 30)
    };
    if r.one_in(8) {
        let binary = c.num("bytes") != 0;
        pad(r, &mut a, &mut b, binary);
    }
    c.set("ctx", context(r)).set("rev", r.one_in(2) as i64);
    match c.kind.as_str() {
        "lines" | "bytes" => {
            // text, possibly broken by a stray byte
            let mut t = if r.one_in(4) { bytes(r, 80) } else { a.clone() };
            if r.one_in(6) && !t.is_empty() {
                let i = r.us(t.len());
                t[i] = 0x80 + r.below(128) as u8;
            }
            c.put("t", &t);
            return c;
        }
        "add-write" => {
            c.puts("doc", if r.one_in(2) { "add" } else { "remove" });
        }
        "diff-read" | "diff-write" => {
            c.puts("doc", *r.pick(&["change", "change", "add", "remove"]));
        }
        "apply" => {
            let t = target(r, &c, &a, &b);
            c.put("t", &t);
        }
        _ => {}
    }
    c.put("a", &a).put("b", &b);
    c
}

/// A version of the file as some third party left it.
fn target(r: &mut Rng, c: &Case, a: &[u8], b: &[u8]) -> Vec<u8> {
    let start = if r.one_in(3) { b } else { a };
    if !is_text(c) {
        return match r.below(4) {
            0 | 1 => start.to_vec(),
            2 => byte_edit(r, start, 2),
            _ => bytes(r, 60),
        };
    }
    match r.below(6) {
        0 | 1 => start.to_vec(),
        2 => join(&text_lines(r, 20)),
        _ => {
            let l: Vec<String> = oracle::split_lines(start).iter().map(|x| text(x)).collect();
            let k = 1 + r.us(4);
            join(&edit(r, &l, k))
        }
    }
}

/// What an operation must deliver, known without the library, where that is possible.
fn expected(c: &Case) -> Option<Option<Vec<u8>>> {
    match c.kind.as_str() {
        "lines" => Some(std::str::from_utf8(c.content("t")).ok().map(|_| {
            let v: Vec<String> = oracle::split_lines(c.content("t")).iter().map(|l| text(l)).collect();
            serde_json::to_vec(&v).unwrap()
        })),
        "bytes" => Some(Some(c.content("t").to_vec())),
        _ => None,
    }
}

pub fn c10_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    if r.one_in(5) {
        // the programs: same inputs, different division of the transfers
        let mut c = Case::new("C10", if r.one_in(2) { "prog-diff" } else { "prog-patch" });
        let (a, b) = any_pair(r);
        c.put("a", &a).put("b", &b).set("ctx", context(r)).set("rev", r.one_in(2) as i64);
        if c.kind == "prog-patch" {
            let tx = std::str::from_utf8(&a).is_ok() && std::str::from_utf8(&b).is_ok();
            c.set("bytes", !tx as i64);
            let t = target(r, &c, &a, &b);
            c.put("t", &t);
        }
        let _ = w;
        return (0..3)
            .map(|_| {
                let mut c = c.clone();
                let mut p = clean();
                stream_noise(r, &mut p);
                c.plans = vec![p];
                c
            })
            .collect();
    }
    let c = stream_case(r, "C10");
    (0..4)
        .map(|_| {
            let mut c = c.clone();
            let mut p = clean();
            stream_noise(r, &mut p);
            c.plans = vec![p];
            c
        })
        .collect()
}

pub fn c10_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    if c.kind.starts_with("prog") {
        return c10_prog(c, w);
    }
    let golden = op_run(c, &clean());
    let got = op_run(c, &c.plan(0));
    let (golden, got) = match (golden, got) {
        (Ok(g), Ok(h)) => (g, h),
        (Err(_), _) => {
            v.void = true;
            return v;
        }
        (_, Err(p)) => {
            v.bad("panic", format!("{}: panic with divided transfers only: {p}", c.kind));
            return v;
        }
    };
    v.nontrivial = got.noise > 0;
    v.sig = got.trace ^ hash_of(&got.written);
    w.stats.add("stream transfers shortened or interrupted", got.noise);
    if golden.value != got.value || golden.written != got.written {
        v.bad(
            "depends-on-transfers",
            format!(
                "{}: in one piece {} {}, in pieces {} {} {}",
                c.kind,
                show_opt(golden.value.as_deref()),
                show(&golden.written),
                show_opt(got.value.as_deref()),
                show(&got.written),
                got.error
            ),
        );
        return v;
    }
    if let Some(e) = expected(c) {
        if e != got.value {
            v.bad("wrong-value", format!("{}: read {} as {}", c.kind, show(c.content("t")), show_opt(got.value.as_deref())));
        }
        return v;
    }
    match c.kind.as_str() {
        "diff-read" | "diff-write" => {
            // written out and read back it is the same document
            let d = doc_of(c);
            let bytes = if c.kind == "diff-read" { got.value.clone().unwrap_or_default() } else { got.written.clone() };
            if serde_json::from_slice::<Value>(&bytes).ok().as_ref() != Some(&d) {
                v.bad("round-trip", format!("{} came back as {}", d, show(&bytes)));
            }
        }
        "add-write" => {
            if got.written != c.content("b") {
                v.bad("round-trip", format!("recorded {}, wrote {}", show(c.content("b")), show(&got.written)));
            }
        }
        "apply" if is_text(c) => {
            // in memory, without a detour over its written form
            let direct = inproc::run(3, 0, 1, || {
                struct Held(Vec<TextChangeClump>);
                impl ApplyClumpsFuzzy<TextChangeClump> for Held {
                    fn clumps<'s>(&'s self) -> impl Iterator<Item = &'s TextChangeClump>
                    where
                        TextChangeClump: 's,
                    {
                        self.0.iter()
                    }
                }
                let ch = Changes::<String>::new(tseq(c.content("a")), tseq(c.content("b")));
                let h = Held(ch.change_clumps(c.num("ctx") as u8).map(TextChangeClump::from).collect());
                let mut out = vec![];
                let s = h.apply_into(&tseq(c.content("t")), &mut out, c.num("rev") != 0);
                (out, s.map(|s| format!("{s:?}").into_bytes()).ok())
            });
            if let Ok((out, s)) = direct.result {
                if out != got.written || s != got.value {
                    v.bad("round-trip", format!("applied directly: {}, after writing and reading the diff: {}", show(&out), show(&got.written)));
                }
            }
        }
        _ => {}
    }
    v
}

fn c10_prog(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let mut outs = vec![];
    let ctx = c.num("ctx").to_string();
    let diff = cmd(&["pw_diff", "-c", &ctx, "f", "g"]);
    let mut patch = vec![];
    if c.kind == "prog-patch" {
        let key = key_of(&[b"c10", ctx.as_bytes(), c.content("a"), c.content("b")]);
        let m = w.golden(
            key,
            |w| {
                w.reset();
                w.put("f", c.content("a"), 0o644);
                w.put("g", c.content("b"), 0o644);
            },
            &[diff.clone()],
        );
        patch = m.out.p().stdout.clone();
    }
    for plan in [clean(), c.plan(0)] {
        w.reset();
        let o = if c.kind == "prog-diff" {
            w.put("f", c.content("a"), 0o644);
            w.put("g", c.content("b"), 0o644);
            w.run(&[diff.clone()], &plan)
        } else {
            w.put("f", c.content("t"), 0o644);
            w.put("p.diff", &patch, 0o644);
            let mut m = cmd(&["pw_patch"]);
            if c.num("rev") != 0 {
                m.push("-r".into());
            }
            m.push("p.diff".into());
            w.run(&[m], &plan)
        };
        if o.overflow {
            v.void = true;
            return v;
        }
        v.sig = o.loghash;
        v.nontrivial = o.nontrivial();
        outs.push((o.p().end.clone(), o.p().stdout.clone(), plain(&w.tree())));
    }
    if outs[0] != outs[1] {
        v.bad(
            "depends-on-transfers",
            format!(
                "in one piece: {:?} {} {}; in pieces: {:?} {} {}",
                outs[0].0,
                show(&outs[0].1),
                show_opt(outs[0].2.get("/w/f").map(|x| &x.2[..])),
                outs[1].0,
                show(&outs[1].1),
                show_opt(outs[1].2.get("/w/f").map(|x| &x.2[..]))
            ),
        );
    }
    v
}

pub fn c11_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let c = stream_case(r, "C11");
    let g = match op_run(&c, &clean()) {
        Ok(g) => g,
        Err(_) => return vec![],
    };
    let reading = matches!(c.kind.as_str(), "lines" | "bytes" | "diff-read" | "text-read");
    let len = match c.kind.as_str() {
        "lines" | "bytes" => c.content("t").len(),
        "diff-read" => doc_of(&c).to_string().len(),
        "text-read" => doc_of(&c).to_string().len().saturating_sub(20),
        _ => g.written.len(),
    };
    (0..6)
        .map(|_| {
            let mut c = c.clone();
            let mut p = clean();
            if r.one_in(2) {
                stream_noise(r, &mut p);
            }
            let at = match r.below(6) {
                0 => 0,
                1 => len.saturating_sub(r.us(3)),
                2 if len > 8192 => *r.pick(&[8191usize, 8192, 8193]),
                _ => r.us(len + 1),
            };
            let zero = !reading && r.one_in(3);
            p.faults.push(FaultPlan {
                proc: if reading { 0 } else if zero { 2 } else { 1 },
                what: if reading { "read fails" } else if zero { "write takes nothing" } else { "write fails" }.into(),
                at: at as u32,
                errno: r.below(NERRORS) as i32,
                sticky: r.one_in(2),
                ..Default::default()
            });
            c.plans = vec![p];
            c
        })
        .collect()
}

pub fn c11_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let plan = c.plan(0);
    let golden = match op_run(c, &clean()) {
        Ok(g) => g,
        Err(_) => {
            v.void = true;
            return v;
        }
    };
    let got = match op_run(c, &plan) {
        Ok(g) => g,
        Err(p) => {
            v.bad("panic", format!("{}: a failing stream led to a panic: {p}", c.kind));
            return v;
        }
    };
    v.nontrivial = got.fired;
    v.sig = got.trace ^ hash_of(&got.written);
    if got.fired {
        if let Some(f) = plan.faults.first() {
            w.stats.add(&format!("stream fault: {} at {}", f.what, c.kind), 1);
        }
        if got.value.is_some() {
            v.bad(
                "error-swallowed",
                format!("{}: the stream failed, yet the operation returned a result ({})", c.kind, show_opt(got.value.as_deref())),
            );
            return v;
        }
    } else if got.value != golden.value || got.written != golden.written {
        v.bad("depends-on-transfers", format!("{}: different result without a failure", c.kind));
        return v;
    }
    if !golden.written.starts_with(&got.written) {
        v.bad(
            "not-a-prefix",
            format!("{}: the writer received {}, which does not begin {}", c.kind, show(&got.written), show(&golden.written)),
        );
    }
    v
}

// ------------------------------------------------------------------ C12
pub fn c12_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let mut c = Case::new("C12", "lib");
    let (a, b);
    if r.one_in(24) {
        // enough common runs for the sort to be split among workers
        c.kind = "big".into();
        (a, b) = big_pair(r);
    } else if r.one_in(6) {
        (a, b) = block_pair(r);
        if r.one_in(6) {
            c.kind = "prog".into();
        }
    } else if r.one_in(3) {
        c.set("bytes", 1);
        (a, b) = byte_pair(r, 200);
    } else {
        if r.one_in(4) {
            c.kind = "prog".into();
        }
        (a, b) = text_pair(r, 200);
    }
    c.put("a", &a).put("b", &b).set("ctx", context(r));
    let mut p = Plan { procs: vec![], ..Default::default() };
    for _ in 0..if c.kind == "prog" { 2 } else { 3 } {
        p.procs.push(ProcPlan {
            hash_seed: r.u64(),
            io_seed: r.u64(),
            umask: *r.pick(&[1, 2, 3, 4, 7, 8, 16, 64]),
            ..Default::default()
        });
    }
    c.plans = vec![p];
    vec![c]
}

fn big_pair(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let span = if r.one_in(4) { 900 } else { 150 };
    let runs = 2050 + r.us(span);
    let (mut a, mut b) = (vec![], vec![]);
    let repeats = r.one_in(2);
    for i in 0..runs {
        for k in 0..1 + r.us(3) {
            let l = if repeats && r.one_in(40) { "same\n".to_string() } else { format!("k{i}.{k}\n") };
            a.extend_from_slice(l.as_bytes());
            b.extend_from_slice(l.as_bytes());
        }
        match r.below(3) {
            0 => a.extend_from_slice(format!("o{i}\n").as_bytes()),
            1 => b.extend_from_slice(format!("n{i}\n").as_bytes()),
            _ => {
                a.extend_from_slice(format!("o{i}\n").as_bytes());
                b.extend_from_slice(format!("n{i}\n").as_bytes());
            }
        }
    }
    (a, b)
}

pub fn c12_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let plan = c.plan(0);
    let ctx = c.num("ctx") as u8;
    if c.kind == "prog" {
        let key = key_of(&[b"c12", &[ctx], c.content("a"), c.content("b")]);
        let d = cmd(&["pw_diff", "-c", &ctx.to_string(), "f", "g"]);
        let setup = |w: &mut World| {
            w.reset();
            w.put("f", c.content("a"), 0o644);
            w.put("g", c.content("b"), 0o644);
        };
        let m = w.golden(key, setup, &[d.clone()]);
        for q in &plan.procs {
            let q = ProcPlan { umask: 0o022, io_seed: 0, ..q.clone() };
            setup(w);
            let o = w.run(&[d.clone()], &Plan { procs: vec![q], ..Default::default() });
            if o.overflow {
                v.void = true;
                return v;
            }
            v.nontrivial = true;
            v.sig = v.sig.rotate_left(5) ^ o.loghash ^ hash_of(&o.p().stdout);
            if o.p().stdout != m.out.p().stdout || o.p().end != m.out.p().end {
                v.bad("depends-on-seed", format!("two hash seeds, two diffs: {} and {}", show(&m.out.p().stdout), show(&o.p().stdout)));
                return v;
            }
        }
        return v;
    }
    let go = |hash: u64, threads: usize, sched: u64| {
        inproc::run(hash, threads, sched, || clumps_of(c.content("a"), c.content("b"), ctx, is_text(c)))
    };
    let reference = match go(1, 0, 1).result {
        Ok(x) => x,
        Err(_) => {
            v.void = true;
            return v;
        }
    };
    for q in &plan.procs {
        let threads = q.umask as usize;
        let x = go(q.hash_seed, threads, q.io_seed);
        w.stats.add("worker-pool forks", x.forks);
        w.stats.add("worker-pool task switches", x.switches);
        w.stats.add(&format!("runs with {threads} workers"), 1);
        v.nontrivial |= threads > 1 || q.hash_seed != 1;
        v.sig = v.sig.rotate_left(5) ^ x.trace ^ q.hash_seed;
        match x.result {
            Ok(y) => {
                if y != reference {
                    let (p, q2) = (reference.to_string(), y.to_string());
                    let i = p.bytes().zip(q2.bytes()).take_while(|(x, y)| x == y).count();
                    let i = i.saturating_sub(60);
                    v.bad(
                        "depends-on-schedule",
                        format!(
                            "with {threads} workers, hash seed {}, schedule {}: ...{} instead of ...{}",
                            q.hash_seed,
                            q.io_seed,
                            q2.chars().skip(i).take(200).collect::<String>(),
                            p.chars().skip(i).take(200).collect::<String>()
                        ),
                    );
                    return v;
                }
            }
            Err(e) => {
                v.bad("panic", format!("with {threads} workers: {e}"));
                return v;
            }
        }
    }
    v
}

// ------------------------------------------------------------------ applying text and byte diffs
struct Applied {
    out: Vec<u8>,
    stats: Option<(usize, usize, usize)>, // applied, already there, failed
    raw: String,
    noise: u64,
    trace: u64,
    err: Option<String>,
}

fn apply(clumps: &Value, is_text: bool, t: &[u8], rev: bool, plan: &Plan) -> Result<Applied, String> {
    inproc::run(plan.procs[0].hash_seed, 0, 1, || {
        let mut w = SimWriter::new(plan);
        let mut a = Applied { out: vec![], stats: None, raw: String::new(), noise: 0, trace: 0, err: None };
        if is_text {
            match text_diff(clumps).apply_into(&tseq(t), &mut w, rev) {
                Ok(s) => {
                    a.stats = Some((s.clean as usize + s.fuzzy as usize, s.already_applied as usize + s.already_applied_fuzzy as usize, s.failed as usize));
                    a.raw = format!("{s:?}");
                }
                Err(e) => a.err = Some(e.to_string()),
            }
        } else if let Err(e) = byte_diff(clumps).apply_into(&bseq(t), &mut w, rev) {
            a.err = Some(e.to_string());
        }
        a.noise = w.noise();
        a.trace = w.trace();
        a.out = w.out;
        a
    })
    .result
}

fn lib_clumps(a: &[u8], b: &[u8], ctx: u8, is_text: bool) -> Option<Value> {
    inproc::run(7, 0, 1, || clumps_of(a, b, ctx, is_text)).result.ok()
}

/// The same through the programs on the simulated machine.
fn apply_prog(w: &mut World, clumps: &Value, is_text: bool, t: &[u8], rev: bool, plan: &Plan) -> (RunOut, Option<Vec<u8>>) {
    let doc = if is_text {
        json!({ "TextChange": { "before_path": "f", "after_path": "g", "clumps": clumps } })
    } else {
        json!({ "ByteChange": { "before_path": "f", "after_path": "g", "compressed": false, "clumps": clumps } })
    };
    w.reset();
    w.put("f", t, 0o644);
    w.put("p.diff", doc.to_string().as_bytes(), 0o644);
    let mut m = cmd(&["pw_patch"]);
    if rev {
        m.push("-r".into());
    }
    m.push("p.diff".into());
    let o = w.run(&[m], plan);
    let got = w.get("f");
    (o, got)
}

// ------------------------------------------------------------------ C13
pub fn c13_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let long = r.one_in(40);
    let ctx = if long && r.one_in(3) { *r.pick(&[127usize, 128, 200, 254, 255]) } else { 1 + r.us(8) };
    // displaced by more lines than 16 bits count
    let huge = if r.one_in(3000) { *r.pick(&[32767usize, 32768, 33000, 65535, 65536, 66000]) } else { 0 };
    let away = r.one_in(2);
    let n = if huge > 0 && !away { 1 } else { 1 + r.us(4) };
    let mut id = 0;
    let mut fresh = |tag: &str| {
        id += 1;
        format!("{tag}{id}\n")
    };
    let gap = |r: &mut Rng, outer: bool| -> usize {
        match r.below(6) {
            0 if outer => r.us(ctx + 1),
            0 => 1 + r.us(2 * ctx),
            1 => 2 * ctx,
            2 => 2 * ctx + 1,
            3 if long => 2 * ctx + *r.pick(&[250usize, 256, 257, 300]),
            _ => 2 * ctx + r.us(8),
        }
        .max(if outer { 0 } else { 1 })
    };
    let mut gaps: Vec<Vec<String>> = vec![];
    let mut olds: Vec<Vec<String>> = vec![];
    let mut news: Vec<Vec<String>> = vec![];
    for i in 0..=n {
        let g = gap(r, i == 0 || i == n) + if i == 0 && huge > 0 { ctx + if away { huge } else { 0 } } else { 0 };
        gaps.push((0..g).map(|_| fresh("k")).collect());
        if i < n {
            let (o, m) = match r.below(3) {
                0 => (0, 1 + r.us(3)),
                1 => (1 + r.us(3), 0),
                _ => (1 + r.us(3), 1 + r.us(3)),
            };
            olds.push((0..o).map(|_| fresh("old")).collect());
            news.push((0..m).map(|_| fresh("new")).collect());
        }
    }
    if gaps[0].is_empty() && gaps[n].is_empty() {
        gaps[0].push(fresh("k"));
    }
    let strip = r.one_in(5) && !gaps[n].is_empty();
    if strip {
        gaps[n].last_mut().unwrap().pop();
    }
    (0..4)
        .map(|_| {
            let mut c = Case::new("C13", if r.one_in(8) { "prog" } else { "lib" });
            // the other party
            let mut theirs = gaps.clone();
            let mut edits = 0;
            for i in 0..=n {
                let len = gaps[i].len();
                let lo = if i > 0 { ctx } else { 0 };
                let hi = if i < n { len.saturating_sub(ctx) } else { len };
                if huge > 0 && i == 0 {
                    theirs[0] = if away {
                        gaps[0][hi..].to_vec()
                    } else {
                        (0..huge).map(|k| format!("theirs{k}\n")).chain(gaps[0].iter().cloned()).collect()
                    };
                    edits += huge as i64;
                    continue;
                }
                if lo > hi || r.one_in(4) {
                    continue;
                }
                if i < n && len < ctx {
                    continue;
                }
                // lines lo..hi are beyond the reach of every context; so are the places lo..=hi
                let mut out: Vec<String> = vec![];
                let mut budget = if i + 1 < n { gaps[i + 1].len().saturating_sub(1) } else if long { 300 } else { 40 };
                let most = *r.pick(&[1usize, 2, 3, 40, 300]);
                let del = r.one_in(2);
                let ins = !del || r.one_in(2);
                for p in 0..=len {
                    let may = p >= lo && p <= hi && !(strip && i == n && p == len);
                    if may && ins && budget > 0 && r.one_in(if hi - lo > 4 { 4 } else { 2 }) {
                        let k = 1 + r.us(budget.min(most));
                        budget -= k;
                        for _ in 0..k {
                            edits += 1;
                            out.push(format!("theirs{i}.{p}.{edits}\n"));
                        }
                    }
                    if p < len {
                        let last = strip && i == n && p + 1 == len;
                        if p >= lo && p < hi && del && !last && r.one_in(2) {
                            edits += 1;
                        } else {
                            out.push(gaps[i][p].clone());
                        }
                    }
                }
                theirs[i] = out;
            }
            let build = |gaps: &[Vec<String>], mid: &[Vec<String>]| -> Vec<u8> {
                let mut v = String::new();
                for i in 0..=n {
                    v.push_str(&gaps[i].concat());
                    if i < n {
                        v.push_str(&mid[i].concat());
                    }
                }
                v.into_bytes()
            };
            let rev = r.one_in(2);
            c.put("a", &build(&gaps, &olds)).put("b", &build(&gaps, &news));
            let (from, to) = if rev { (&news, &olds) } else { (&olds, &news) };
            c.put("t", &build(&theirs, from)).put("want", &build(&theirs, to));
            c.set("ctx", ctx as i64).set("rev", rev as i64).set("edits", edits);
            let mut p = clean();
            stream_noise(r, &mut p);
            c.plans = vec![p];
            c
        })
        .collect()
}

pub fn c13_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let cl = match lib_clumps(c.content("a"), c.content("b"), c.num("ctx") as u8, true) {
        Some(x) => x,
        None => {
            v.void = true;
            return v;
        }
    };
    let (t, rev) = (c.content("t"), c.num("rev") != 0);
    v.nontrivial = c.num("edits") > 0;
    v.sig = hash_of(t) ^ hash_of(c.content("want")).rotate_left(3);
    w.stats.add("lines inserted or deleted by the other party", c.num("edits") as u64);
    if c.kind == "prog" {
        let (o, got) = apply_prog(w, &cl, true, t, rev, &c.plan(0));
        v.sig ^= o.loghash;
        if o.overflow {
            v.void = true;
            return v;
        }
        if !o.p().ok() || got.as_deref() != Some(c.content("want")) {
            v.bad(
                "not-merged",
                format!("{}; on {} the program gave {} instead of {}", o.p().err(), show(t), show_opt(got.as_deref()), show(c.content("want"))),
            );
        }
        return v;
    }
    match apply(&cl, true, t, rev, &c.plan(0)) {
        Err(p) => v.bad("panic", format!("panic: {p}")),
        Ok(a) => {
            v.sig ^= a.trace;
            let failed = a.stats.map(|s| s.2).unwrap_or(1);
            if failed > 0 || a.out != c.content("want") {
                v.bad(
                    "not-merged",
                    format!("{} {:?}; on {} it gave {} instead of {}", a.raw, a.err, show(t), show(&a.out), show(c.content("want"))),
                );
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C14
/// A history: a diff is made between two versions; then others edit, apply parts, undo parts.
fn history(r: &mut Rng, c: &mut Case) {
    let bytes_ = c.num("bytes") != 0;
    let (a, b) = if bytes_ {
        byte_pair(r, 40)
    } else {
        let max = *r.pick(&[6usize, 14, 30]);
        text_pair(r, max)
    };
    let mut t = if r.one_in(4) { b.clone() } else { a.clone() };
    if bytes_ {
        t = target(r, c, &a, &b);
    } else {
        match r.below(8) {
            0 => t = vec![],
            1 => t = join(&text_lines(r, 14)),
            2 => {
                // partly patched: head of one, tail of the other
                let (x, y) = (oracle::split_lines(&b), oracle::split_lines(&a));
                let k = r.us(x.len() + 1);
                let m = r.us(y.len() + 1);
                t = [x[..k].concat(), y[m..].concat()].concat();
            }
            3 => {
                // several copies
                let x = oracle::split_lines(&a);
                let (i, j) = (r.us(x.len() + 1), r.us(x.len() + 1));
                let (i, j) = (i.min(j), i.max(j));
                let mut y = x.clone();
                for _ in 0..1 + r.us(2) {
                    let at = r.us(y.len() + 1);
                    for l in x[i..j].iter().rev() {
                        y.insert(at, l.clone());
                    }
                }
                t = y.concat();
            }
            _ => {
                let l: Vec<String> = oracle::split_lines(&t).iter().map(|x| text(x)).collect();
                let k = 1 + r.us(5);
                t = join(&edit(r, &l, k));
            }
        }
    }
    c.put("a", &a).put("b", &b).put("t", &t);
    c.set("ctx", context(r)).set("rev", r.one_in(2) as i64);
}

pub fn c14_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let mut c = Case::new("C14", if r.one_in(12) { "prog" } else { "lib" });
    history(r, &mut c);
    if r.one_in(3) {
        c.set("ctx", r.range(1, 5));
    }
    let mut p = clean();
    if r.one_in(3) {
        stream_noise(r, &mut p);
    }
    c.plans = vec![p];
    vec![c]
}

pub fn c14_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let cl = match lib_clumps(c.content("a"), c.content("b"), c.num("ctx") as u8, true) {
        Some(x) => x,
        None => {
            v.void = true;
            return v;
        }
    };
    let (t, rev) = (c.content("t"), c.num("rev") != 0);
    let clumps = oracle_clumps(&cl, true);
    let (out, stats, raw);
    if c.kind == "prog" {
        let (o, got) = apply_prog(w, &cl, true, t, rev, &c.plan(0));
        if o.overflow {
            v.void = true;
            return v;
        }
        v.sig = o.loghash;
        out = got.unwrap_or_default();
        stats = None;
        raw = format!("{:?}", o.p().end);
    } else {
        match apply(&cl, true, t, rev, &c.plan(0)) {
            Err(_) => {
                v.void = true; // a panic is judged by C16
                return v;
            }
            Ok(a) => {
                v.sig = a.trace;
                out = a.out;
                stats = a.stats;
                raw = a.raw;
            }
        }
    }
    v.sig ^= hash_of(&out) ^ hash_of(t).rotate_left(1) ^ hash_of(cl.to_string().as_bytes()).rotate_left(2);
    v.nontrivial = t != if rev { c.content("b") } else { c.content("a") };
    let (ex, complete) = oracle::explain(&oracle::split_lines(t), &clumps, rev, &out, true);
    if !complete {
        v.void = true;
        return v;
    }
    if let Some(s) = stats {
        w.stats.add("changes applied", s.0 as u64);
        w.stats.add("changes found already applied", s.1 as u64);
        w.stats.add("changes put in conflict blocks", s.2 as u64);
    }
    if ex.is_empty() && !(c.kind == "prog" && out == t) {
        v.bad(
            "unexplained",
            format!("{raw}: {} became {}, which is no in-order, disjoint application; changes {}", show(t), show(&out), cl),
        );
        return v;
    }
    if let Some(s) = stats {
        if !ex.contains(&s) {
            v.bad("counts", format!("{raw} for {} becoming {}; possible (applied, already, failed): {ex:?}", show(t), show(&out)));
            return v;
        }
        // a single change whose whole old text stands somewhere can be placed
        if let [k] = &clumps[..] {
            let old = if rev { &k.after.1 } else { &k.before.1 };
            let tl = oracle::split_lines(t);
            if s.2 > 0 && k.ctx.0 + k.ctx.1 > 0 && tl.windows(old.len().max(1)).any(|x| x == &old[..]) {
                v.bad("refused", format!("{raw}: the one change was not placed in {}, which has all of its old text; changes {cl}", show(t)));
                return v;
            }
        }
        // mirrored: the reversed diff applied in the other direction
        let mut m = cl.clone();
        for x in m.as_array_mut().unwrap() {
            let (b, a) = (x["before"].clone(), x["after"].clone());
            x["before"] = a;
            x["after"] = b;
        }
        if let Ok(a) = apply(&m, true, t, !rev, &clean()) {
            if a.out != out || a.raw != raw {
                v.bad("mirror", format!("applied one way: {raw} {}; the mirrored diff the other way: {} {}", show(&out), a.raw, show(&a.out)));
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C16
pub fn c16_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let mut c = Case::new("C16", if r.one_in(12) { "prog" } else { "lib" });
    if r.one_in(3) {
        c.set("bytes", 1);
    }
    history(r, &mut c);
    let mut out = vec![];
    for k in 0..3 {
        let mut d = c.clone();
        if k > 0 {
            // unrelated sizes
            let t = match r.below(4) {
                0 => vec![],
                1 => join(&text_lines(r, 3)),
                2 => {
                    let mut t = d.content("t").to_vec();
                    t.truncate(r.us(t.len() + 1));
                    text(&t).into_bytes()
                }
                _ => join(&text_lines(r, 60)),
            };
            d.put("t", &t);
            d.set("rev", r.one_in(2) as i64);
        }
        let mut p = clean();
        if r.one_in(3) {
            stream_noise(r, &mut p);
        }
        d.plans = vec![p];
        out.push(d);
    }
    out
}

pub fn c16_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let tx = is_text(c);
    let cl = match lib_clumps(c.content("a"), c.content("b"), c.num("ctx") as u8, tx) {
        Some(x) => x,
        None => {
            v.void = true;
            return v;
        }
    };
    let (t, rev) = (c.content("t"), c.num("rev") != 0);
    v.nontrivial = true;
    v.sig = hash_of(t) ^ hash_of(cl.to_string().as_bytes()).rotate_left(2) ^ rev as u64;
    if c.kind == "prog" {
        let (o, _) = apply_prog(w, &cl, tx, t, rev, &c.plan(0));
        v.sig ^= o.loghash;
        match &o.p().end {
            End::Exit(x) if *x != 101 => {}
            _ if o.overflow => v.void = true,
            e => v.bad("crash", format!("patching {} ended with {e:?}, stderr {}; changes {cl}", show(t), show(&o.p().stderr))),
        }
        return v;
    }
    match apply(&cl, tx, t, rev, &c.plan(0)) {
        Err(p) => {
            v.bad("panic", format!("applying to {} panicked: {p}; changes {cl}", show(t)));
            return v;
        }
        Ok(a) => v.sig ^= a.trace,
    }
    let asked = inproc::run(7, 0, 1, || {
        if tx {
            text_diff(&cl).is_already_applied(&tseq(t), rev)
        } else {
            byte_diff(&cl).already_applied(&bseq(t), rev)
        }
    });
    match asked.result {
        Err(p) => v.bad("panic", format!("asking whether applied to {} panicked: {p}; changes {cl}", show(t))),
        Ok(x) => w.stats.add(if x { "answers: already applied" } else { "answers: not applied" }, 1),
    }
    v
}

// ------------------------------------------------------------------ C17
pub fn c17_gen(r: &mut Rng, w: &mut World) -> Vec<Case> {
    if r.one_in(3) {
        return retry_gen(r, w);
    }
    let mut c = Case::new("C17", "ask");
    if r.one_in(3) {
        c.set("bytes", 1);
    }
    history(r, &mut c);
    (0..3)
        .map(|k| {
            let mut d = c.clone();
            if k == 0 {
                let result = if d.num("rev") != 0 { d.content("a") } else { d.content("b") }.to_vec();
                d.put("t", &result);
            } else if k == 1 {
                let other = if d.num("rev") != 0 { d.content("b") } else { d.content("a") }.to_vec();
                d.put("t", &other);
            }
            d
        })
        .collect()
}

pub fn c17_run(c: &Case, w: &mut World) -> Verdict {
    if c.kind == "retry" {
        return retry_run(c, w);
    }
    let mut v = Verdict::default();
    let tx = is_text(c);
    let cl = match lib_clumps(c.content("a"), c.content("b"), c.num("ctx") as u8, tx) {
        Some(x) => x,
        None => {
            v.void = true;
            return v;
        }
    };
    let (t, rev) = (c.content("t"), c.num("rev") != 0);
    let result = if rev { c.content("a") } else { c.content("b") };
    v.nontrivial = true;
    v.sig = hash_of(t) ^ hash_of(cl.to_string().as_bytes()).rotate_left(2) ^ rev as u64;
    let asked = inproc::run(7, 0, 1, || {
        if tx {
            text_diff(&cl).is_already_applied(&tseq(t), rev)
        } else {
            byte_diff(&cl).already_applied(&bseq(t), rev)
        }
    });
    let yes = match asked.result {
        Ok(x) => x,
        Err(p) => {
            if t == result {
                v.bad("panic", format!("asking whether applied to its own result panicked: {p}; changes {cl}"));
            } else {
                v.void = true; // judged by C16
            }
            return v;
        }
    };
    w.stats.add(if yes { "answers: already applied" } else { "answers: not applied" }, 1);
    if t == result {
        if !yes {
            v.bad("not-recognised", format!("the file it produces, {}, is said not to have it applied; changes {cl}", show(t)));
        }
        return v;
    }
    if yes {
        // every added line must be there
        let have = oracle::split_lines(t);
        for k in oracle_clumps(&cl, tx) {
            let after = if rev { &k.before.1 } else { &k.after.1 };
            let missing = if tx {
                let core = &after[k.ctx.0.min(after.len())..after.len().saturating_sub(k.ctx.1).max(k.ctx.0.min(after.len()))];
                core.iter().find(|l| !have.contains(l)).map(|l| show(l))
            } else {
                let s = after.concat();
                if s.is_empty() || t.windows(s.len()).any(|x| x == &s[..]) {
                    None
                } else {
                    Some(show(&s))
                }
            };
            if let Some(m) = missing {
                v.bad("false-yes", format!("said to be applied to {}, which lacks {m}; changes {cl}", show(t)));
                return v;
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C18
fn clump_text(r: &mut Rng, c: &mut Case) -> Vec<u8> {
    // a clump written from a list of marked lines
    let n_ctx = |r: &mut Rng| match r.below(12) {
        0 => 0,
        1 => 300,
        2 => 256,
        _ => r.us(5),
    };
    let mut body: Vec<(char, String)> = vec![];
    let style = r.below(4);
    let mut k = 0;
    let mut word = |r: &mut Rng| {
        k += 1;
        match style {
            0 => format!("l{k}"),
            1 => format!("{}{k} \t", UNI[k % UNI.len()]),
            2 => (*r.pick(&["-x", "+y", " z", "@@ -1 +1 @@", "\\ odd", "", "--- a", "  "])).to_string(),
            _ => format!("w{} ", r.below(3)),
        }
    };
    for _ in 0..n_ctx(r) {
        body.push((' ', word(r)));
    }
    for _ in 0..1 + r.us(3) {
        for _ in 0..r.us(4) {
            body.push(('-', word(r)));
        }
        for _ in 0..r.us(4) {
            body.push(('+', word(r)));
        }
        if r.one_in(2) {
            for _ in 0..1 + r.us(3) {
                body.push((' ', word(r)));
            }
        }
    }
    for _ in 0..n_ctx(r) {
        body.push((' ', word(r)));
    }
    let eol = if r.one_in(6) { "\r\n" } else { "\n" };
    let before = body.iter().filter(|l| l.0 != '+').count();
    let after = body.iter().filter(|l| l.0 != '-').count();
    let sal = |s: u64, l: usize, r: &mut Rng| if l == 1 && r.one_in(2) { format!("{s}") } else { format!("{s},{l}") };
    let (s1, s2) = (r.below(5000), r.below(5000));
    let tail = *r.pick(&["", "", " fn x()", " @@"]);
    let mut v = format!("@@ -{} +{} @@{tail}\n", sal(s1, before, r), sal(s2, after, r));
    // which lines lack a line end: the last old and the last new line, sometimes
    let last_old = body.iter().rposition(|l| l.0 != '+');
    let last_new = body.iter().rposition(|l| l.0 != '-');
    let mut bare = vec![];
    match if eol == "\n" { r.below(6) } else { 9 } {
        0 => bare.extend(last_old.filter(|i| body[*i].0 == '-' || last_new == Some(*i))),
        1 => bare.extend(last_new.filter(|i| body[*i].0 == '+' || last_old == Some(*i))),
        2 => {
            bare.extend(last_old);
            bare.extend(last_new);
            if last_old != last_new && bare.iter().any(|i| body[*i].0 == ' ') {
                bare.clear();
            }
        }
        _ => {}
    }
    let mut lines = 1;
    let (mut bl, mut al): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let remark = *r.pick(&["\\ No newline at end of file", "\\"]);
    for (i, (m, t)) in body.iter().enumerate() {
        let nl = !bare.contains(&i);
        v.push_str(&format!("{m}{t}{eol}"));
        lines += 1;
        let line = if nl { format!("{t}{eol}") } else { format!("{t}{}", eol.trim_end_matches('\n')) };
        if *m != '+' {
            bl.push(format!("{m}{line}"));
        }
        if *m != '-' {
            al.push(format!("{m}{line}"));
        }
        if !nl {
            v.push_str(&format!("{remark}\n"));
            lines += 1;
        }
    }
    c.put("before", serde_json::to_string(&bl).unwrap().as_bytes());
    c.put("after", serde_json::to_string(&al).unwrap().as_bytes());
    c.set("lines", lines).set("s1", s1 as i64).set("s2", s2 as i64);
    c.put("marks", body.iter().map(|l| l.0).collect::<String>().as_bytes());
    v.into_bytes()
}

pub fn c18_gen(r: &mut Rng, _w: &mut World) -> Vec<Case> {
    let mut c = Case::new("C18", "whole");
    let clump = clump_text(r, &mut c);
    let pre: Vec<u8> = match r.below(4) {
        0 => b"--- a\t2002-02-21 23:30:39.942229878 -0800\n+++ b\t2002-02-21 23:30:50.442260588 -0800\n".to_vec(),
        1 => b"some\ntalk\n".to_vec(),
        _ => vec![],
    };
    let mut post: Vec<u8> = match r.below(4) {
        0 => b"@@ -90,3 +91,2 @@\n a\n-b\n c\n".to_vec(),
        1 => b"diff --git a b\n".to_vec(),
        _ => vec![],
    };
    let at = oracle::split_lines(&pre).len();
    c.set("at", at as i64);
    let mut all = pre.clone();
    all.extend_from_slice(&clump);
    if post.is_empty() && r.one_in(4) && c.num("lines") > 0 {
        // the last line may end the file without a line end; then it has none
        post.clear();
    }
    all.extend_from_slice(&post);
    let mut out = vec![];
    for _ in 0..6 {
        let mut d = c.clone();
        let mut t = all.clone();
        match r.below(6) {
            0 | 1 => {}
            2 | 3 => {
                d.kind = "cut".into();
                let n = pre.len() + clump.len();
                let k = match r.below(4) {
                    0 => r.us(pre.len() + 1),
                    1 => n.saturating_sub(2 + r.us(6)),
                    _ => pre.len() + r.us(clump.len().max(2) - 1),
                };
                t.truncate(k.min(n.saturating_sub(2)));
            }
            _ => {
                d.kind = "garbled".into();
                for _ in 0..1 + r.us(3) {
                    garble(r, &mut t, pre.len());
                }
                if r.one_in(4) {
                    d.set("at", at as i64 + r.range(0, 6));
                }
            }
        }
        d.put("t", &t);
        let mut p = clean();
        if r.one_in(2) {
            stream_noise(r, &mut p);
        }
        if r.one_in(6) {
            p.faults.push(FaultPlan { what: "read fails".into(), at: r.below(t.len() as u64 + 1) as u32, errno: r.below(NERRORS) as i32, sticky: true, ..Default::default() });
        }
        d.plans = vec![p];
        out.push(d);
    }
    out
}

fn garble(r: &mut Rng, t: &mut Vec<u8>, from: usize) {
    if t.len() <= from {
        return;
    }
    let i = from + r.us(t.len() - from);
    match r.below(9) {
        0 => t[i] ^= 1 << r.below(7),
        1 => t[i] = r.below(256) as u8,
        2 => {
            t.remove(i);
        }
        3 => {
            let x = t[i];
            t.insert(i, x);
        }
        4 => {
            // a line is lost
            let l = oracle::split_lines(t);
            let k = r.us(l.len());
            *t = l.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, x)| x.clone()).collect::<Vec<_>>().concat();
        }
        5 => {
            // a line comes twice
            let mut l = oracle::split_lines(t);
            let k = r.us(l.len());
            l.insert(k, l[k].clone());
            *t = l.concat();
        }
        6 => {
            // a line's mark changes
            let mut l = oracle::split_lines(t);
            let k = r.us(l.len());
            if !l[k].is_empty() {
                l[k][0] = *r.pick(b"+- \\@x");
            }
            *t = l.concat();
        }
        _ => {
            // a number in the header changes
            let l = oracle::split_lines(&t[from..]);
            let n = l.first().map(|x| x.len()).unwrap_or(0);
            let ds: Vec<usize> = (from..from + n).filter(|k| t[*k].is_ascii_digit()).collect();
            if !ds.is_empty() {
                let k = *r.pick(&ds);
                if r.one_in(4) {
                    for _ in 0..r.us(24) {
                        t.insert(k, b'9');
                    }
                } else if r.one_in(3) {
                    // a whole number is replaced by one at or past the limits
                    let (mut i, mut j) = (k, k + 1);
                    while i > from && t[i - 1].is_ascii_digit() {
                        i -= 1;
                    }
                    while j < t.len() && t[j].is_ascii_digit() {
                        j += 1;
                    }
                    let n = *r.pick(&["0", "1", "2", "01", "256", "4294967295", "4294967296", "4294967297",
                        "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617",
                        "36893488147419103233", "99999999999999999999999999"]);
                    let cur: Option<u128> = std::str::from_utf8(&t[i..j]).ok().and_then(|x| x.parse().ok());
                    let n = match (r.below(3), cur) {
                        (0, Some(c)) => (c + (1u128 << *r.pick(&[8, 16, 32, 63, 64, 64]))).to_string(),
                        (1, Some(c)) if t.get(j) != Some(&b',') && t.get(i.wrapping_sub(1)) != Some(&b',') => {
                            // a length where none was
                            format!("{c},{}", *r.pick(&["1", "0", "18446744073709551616", "18446744073709551617", "4294967297"]))
                        }
                        _ => n.to_string(),
                    };
                    t.splice(i..j, n.bytes());
                } else {
                    t[k] = b'0' + r.below(10) as u8;
                }
            }
        }
    }
}

type StartLen = (usize, usize);

/// The two starts and lengths a clump header announces, if it is one and they can be represented.
fn header_numbers(line: &str) -> Option<(StartLen, StartLen)> {
    let mut w = line.split_whitespace();
    if w.next()? != "@@" {
        return None;
    }
    let pair = |s: &str, m: char| -> Option<StartLen> {
        let s = s.strip_prefix(m)?;
        let num = |s: &str| if s.bytes().all(|b| b.is_ascii_digit()) { s.parse::<usize>().ok() } else { None };
        match s.split_once(',') {
            Some((a, b)) => Some((num(a)?, num(b)?)),
            None => Some((num(s)?, 1)),
        }
    };
    let b = pair(w.next()?, '-')?;
    let a = pair(w.next()?, '+')?;
    if w.next()?.starts_with("@@") {
        Some((b, a))
    } else {
        None
    }
}

struct Parsed {
    before: Vec<String>,
    after: Vec<String>,
    starts: (usize, usize),
    lengths: (usize, usize),
    consumed: usize,
    context: (u8, u8),
}

/// How many unchanged lines stand before the first change and after the last one.
fn contexts(marks: &[char]) -> Option<(usize, usize)> {
    let lead = marks.iter().take_while(|m| **m == ' ').count();
    if lead == marks.len() {
        return None; // no change: where the context ends is a matter of taste
    }
    Some((lead, marks.iter().rev().take_while(|m| **m == ' ').count()))
}

fn context_is(want: Option<(usize, usize)>, got: (u8, u8)) -> bool {
    // what exceeds a byte can only be understated
    let ok = |w: usize, g: u8| if w > 255 { w >= g as usize } else { w == g as usize };
    want.is_none_or(|(a, b)| ok(a, got.0) && ok(b, got.1))
}

pub fn c18_run(c: &Case, w: &mut World) -> Verdict {
    let mut v = Verdict::default();
    let plan = c.plan(0);
    let t = c.content("t");
    let at = c.num("at") as usize;
    let ran = inproc::run(plan.procs[0].hash_seed, 0, 1, || {
        let mut r = SimReader::new(t, &plan);
        let s = Seq::<String>::read(&mut r);
        let meta = (r.fired, r.noise(), r.trace());
        let s = match s {
            Ok(s) => s,
            Err(_) => return (meta, None, Ok(None)),
        };
        let lines: Vec<String> = s.iter().cloned().collect();
        let res = match UnifiedDiffClump::get_from_at(&s, at) {
            Ok(None) => Ok(None),
            Ok(Some(k)) => Ok(Some(Parsed {
                before: k.before_lines.to_vec(),
                after: k.after_lines.to_vec(),
                starts: (k.starts_and_lengths.before.start, k.starts_and_lengths.after.start),
                lengths: (k.starts_and_lengths.before.length, k.starts_and_lengths.after.length),
                consumed: k.lines_consumed as usize,
                context: (k.context_lengths.0 as u8, k.context_lengths.1 as u8),
            })),
            Err(e) => Err(format!("{e:?}")),
        };
        (meta, Some(lines), res)
    });
    let (meta, lines, res) = match ran.result {
        Ok(x) => x,
        Err(p) => {
            v.bad("panic", format!("reading {} at line {at} panicked: {p}", show(t)));
            return v;
        }
    };
    v.nontrivial = c.kind != "whole" || meta.1 > 0 || meta.0;
    v.sig = meta.2 ^ hash_of(t);
    if meta.0 {
        w.stats.add("stream fault: read fails", 1);
        if lines.is_some() {
            v.bad("error-swallowed", "the stream failed, yet lines were returned".into());
        }
        return v;
    }
    w.stats.add(&format!("{} clump: {}", c.kind, match &res { Ok(Some(_)) => "returned", Ok(None) => "none", Err(_) => "error" }), 1);
    // with or without the mark in front, whichever the library returns
    let marked = |want: &[String], got: &[String]| -> bool {
        want == got || want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w.get(1..) == Some(g.as_str()))
    };
    if c.kind == "whole" {
        let lines = match lines {
            Some(l) => l,
            None => {
                v.bad("whole-refused", format!("a readable stream was refused: {}", show(t)));
                return v;
            }
        };
        let want = |k: &str| -> Vec<String> { serde_json::from_slice(c.content(k)).unwrap_or_default() };
        let _ = lines;
        match res {
            Ok(Some(p)) => {
                let (b, a) = (want("before"), want("after"));
                let ok = marked(&b, &p.before)
                    && marked(&a, &p.after)
                    && p.starts == (c.num("s1") as usize, c.num("s2") as usize)
                    && p.lengths == (b.len(), a.len())
                    && p.consumed == c.num("lines") as usize
                    && context_is(contexts(&c.content("marks").iter().map(|b| *b as char).collect::<Vec<_>>()), p.context);
                if !ok {
                    v.bad(
                        "whole-altered",
                        format!(
                            "{} read as before {:?} after {:?} starts {:?} lengths {:?} context {:?} consumed {}",
                            show(t),
                            p.before,
                            p.after,
                            p.starts,
                            p.lengths,
                            p.context,
                            p.consumed
                        ),
                    );
                }
            }
            other => v.bad(
                "whole-refused",
                format!("{} was not read as a clump: {}", show(t), match other { Err(e) => e, _ => "no clump".into() }),
            ),
        }
        return v;
    }
    if let (Ok(Some(p)), Some(lines)) = (&res, &lines) {
        // whatever is returned must really be there, and complete
        if p.before.len() != p.lengths.0 || p.after.len() != p.lengths.1 {
            v.bad(
                "incomplete",
                format!(
                    "{} at line {at} taken for a clump of {:?} lines, with {} and {}",
                    show(t),
                    p.lengths,
                    p.before.len(),
                    p.after.len()
                ),
            );
            return v;
        }
        if p.consumed > lines.len().saturating_sub(at) {
            v.bad("incomplete", format!("{}: {} lines consumed of {}", show(t), p.consumed, lines.len().saturating_sub(at)));
            return v;
        }
        match header_numbers(&lines[at]) {
            Some(h) if h == ((p.starts.0, p.lengths.0), (p.starts.1, p.lengths.1)) => {}
            _ => {
                v.bad(
                    "garbled-altered",
                    format!("the header {} read as starts {:?} lengths {:?}", show(lines[at].as_bytes()), p.starts, p.lengths),
                );
                return v;
            }
        }
        let body = &lines[at + 1..at + p.consumed];
        let side = |m: char| -> Vec<String> {
            let mut out: Vec<String> = vec![];
            let mut mine = false;
            for l in body {
                if l.starts_with(m) || l.starts_with(' ') {
                    out.push(l.clone());
                    mine = true;
                } else if !l.starts_with('\\') {
                    mine = false;
                } else if let (true, Some(x)) = (mine, out.last_mut()) {
                    if x.ends_with('\n') {
                        x.pop();
                    }
                }
            }
            out
        };
        let (b, a) = (side('-'), side('+'));
        let (got_b, got_a) = (p.before.clone(), p.after.clone());
        if body.last().is_some_and(|l| !l.starts_with('\\'))
            && lines.get(at + p.consumed).is_some_and(|l| l.starts_with('\\'))
        {
            v.bad("garbled-altered", format!("{} at line {at}: the mark after the last line is not heeded", show(t)));
            return v;
        }
        if !marked(&b, &got_b) || !marked(&a, &got_a) {
            v.bad("garbled-altered", format!("{} at line {at} read as before {:?} after {:?}", show(t), p.before, p.after));
            return v;
        }
        let marks: Vec<char> = body.iter().filter_map(|l| l.chars().next()).filter(|m| *m != '\\').collect();
        if !context_is(contexts(&marks), p.context) {
            v.bad("garbled-altered", format!("{} at line {at} read as with context {:?}", show(t), p.context));
        }
    }
    v
}
