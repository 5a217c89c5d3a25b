//! Generators: contents, edits, I/O noise, fault plans.
use crate::case::*;
use crate::rng::Rng;
use simcore::*;

pub const UNI: &[&str] = &["é", "日本", "𝄞", "ß", "\u{2028}", "\u{85}"];

pub fn join(lines: &[String]) -> Vec<u8> {
    lines.concat().into_bytes()
}

/// A text as lines, each ending in "\n" except possibly the last.
pub fn text_lines(r: &mut Rng, max: usize) -> Vec<String> {
    let n = match r.below(20) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=15 => r.us(max.min(14) + 1),
        _ => r.us(max + 1),
    };
    let style = r.below(14);
    let alpha = *r.pick(&[2u64, 3, 5, 9, 100000]);
    let mut v = vec![];
    for i in 0..n {
        v.push(line(r, style, alpha, i));
    }
    if !v.is_empty() && r.one_in(4) {
        strip_last(&mut v);
    }
    v
}

pub fn strip_last(v: &mut Vec<String>) {
    if let Some(l) = v.last_mut() {
        if l.ends_with('\n') {
            l.pop();
        }
        if l.is_empty() {
            v.pop();
        }
    }
}

fn line(r: &mut Rng, style: u64, alpha: u64, i: usize) -> String {
    let x = if alpha > 1000 { 1000 * r.below(1000) + i as u64 } else { r.below(alpha) };
    match style {
        0 => format!("{}\n", (b'a' + (x % 26) as u8) as char),
        1 => {
            if r.one_in(3) {
                "\n".to_string()
            } else {
                format!("{x}\n")
            }
        }
        2 => format!("line {x}\r\n"),
        3 => format!("{} {x}\n", UNI[(x % UNI.len() as u64) as usize]),
        4 => format!("{}{x}\n", if r.one_in(3) { "  \t" } else { "" }),
        5 => format!("\"{x}\\\u{0}\u{1}\u{7f}\n"),
        13 => {
            // a character of several bytes across any place
            let n = if r.one_in(8) { 120 } else { 40 };
            let wide = *r.pick(&["\u{e9}", "\u{65e5}", "\u{1d11e}"]);
            let lead = "x".repeat((x % 4) as usize);
            format!("{lead}{}{x}\n", wide.repeat(r.us(n)))
        }
        // lines alike at both ends, lines of the same characters
        11 => format!("{}{x}{}\n", "the same beginning of every line, ".repeat([1, 2, 9, 35][alpha as usize % 4]), ", the same end".repeat(if alpha % 3 == 0 { 12 } else { 3 })),
        12 => {
            let mut d = *b"abcdef";
            for k in 0..3 {
                d.swap((x >> k) as usize % 6, (x >> (k + 2)) as usize % 6);
            }
            format!("{}\n", String::from_utf8_lossy(&d))
        }
        // lines that only careless comparison takes for the same
        7 => format!("{}{x}{}\n", if r.one_in(6) { " " } else { "" }, *r.pick(&["", "", " ", "\t", "\r", "  "])),
        8 => format!("{}{}\n", *r.pick(&["a", "A", "aB", "ab", "\u{e9}", "e\u{301}"]), x % 4),
        9 => format!("{}{x}\n", *r.pick(&["", "\u{feff}", "\r", "\u{c}", "\u{b}", "\u{1b}", "\\", "\u{200b}", "#", "+", "- "])),
        6 => format!("{}{}\n", if r.one_in(4) { "<<<<<<<" } else { "-" }, x),
        _ => format!("{x}{}\n", "y".repeat(r.us(30))),
    }
}

/// Nearly the same line.
fn near(r: &mut Rng, l: &str) -> String {
    let body = l.trim_end_matches('\n');
    match r.below(6) {
        0 => format!("{body} \n"),
        1 => format!("{body}\r\n"),
        2 => format!(" {body}\n"),
        3 => format!("{}\n", body.to_uppercase()),
        4 => format!("{}\n", body.trim_end()),
        _ => {
            let mut c: Vec<char> = body.chars().collect();
            c.pop();
            format!("{}\n", c.into_iter().collect::<String>())
        }
    }
}

/// Edit a list of lines the way people do: a few insertions, deletions, replacements, moves.
pub fn edit(r: &mut Rng, a: &[String], edits: usize) -> Vec<String> {
    let mut v = a.to_vec();
    for e in 0..edits {
        let fresh = |r: &mut Rng, k: usize| -> String {
            if r.one_in(3) && !a.is_empty() {
                let mut s = r.pick(a).clone();
                if r.one_in(4) {
                    s = near(r, &s);
                }
                if s.ends_with('\n') {
                    s
                } else {
                    s + "\n"
                }
            } else {
                format!("new{}{}{}\n", e, k, r.below(4))
            }
        };
        if v.is_empty() {
            for k in 0..1 + r.us(3) {
                let f = fresh(r, k);
                v.push(f);
            }
            continue;
        }
        if !v.last().unwrap().ends_with('\n') {
            v.last_mut().unwrap().push('\n');
        }
        let at = match r.below(6) {
            0 => 0,
            1 => v.len() - 1,
            _ => r.us(v.len()),
        };
        match r.below(10) {
            0..=2 => {
                let f = fresh(r, 0);
                v[at] = f
            }
            3 | 4 => {
                for k in 0..1 + r.us(3) {
                    let f = fresh(r, k);
                    v.insert(at, f);
                }
            }
            5 => {
                let f = fresh(r, 0);
                v.push(f)
            }
            6 | 7 => {
                for _ in 0..1 + r.us(3) {
                    if at < v.len() {
                        v.remove(at);
                    }
                }
            }
            8 => {
                let l = v.remove(at);
                let k = r.us(v.len() + 1);
                v.insert(k, l);
            }
            _ => {
                let end = (at + 1 + r.us(4)).min(v.len());
                let f: Vec<String> = (0..r.us(4)).map(|k| fresh(r, k)).collect();
                v.splice(at..end, f);
            }
        }
    }
    if r.one_in(5) {
        strip_last(&mut v);
    }
    v
}

/// A long text of lines that hardly ever repeat, and the same with blocks of any size changed.
pub fn long_pair(r: &mut Rng, n: usize) -> (Vec<String>, Vec<String>) {
    let a: Vec<String> = (0..n).map(|i| format!("{}\n", if r.one_in(200) { 7 } else { i })).collect();
    let mut b = a.clone();
    let size = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&[254usize, 255, 256, 257, 300]),
        _ => 1 + r.us(4),
    };
    for e in 0..1 + r.us(4) {
        let at = match r.below(4) {
            0 => b.len().saturating_sub(r.us(8)),
            1 => r.us(8).min(b.len()),
            _ => r.us(b.len() + 1),
        };
        let end = (at + if r.one_in(3) { 0 } else { size(r) }).min(b.len());
        let k = if r.one_in(3) { 0 } else { size(r) };
        let f: Vec<String> = (0..k).map(|i| format!("n{e}.{i}\n")).collect();
        b.splice(at..end, f);
    }
    (a, b)
}

/// Hundreds of separate small changes.
pub fn many_pair(r: &mut Rng) -> (Vec<String>, Vec<String>) {
    let n = *r.pick(&[200usize, 255, 256, 256, 257, 300, 512]);
    let gap = 1 + r.us(6);
    let kind = r.below(4);
    let (mut a, mut b) = (vec![], vec![]);
    for i in 0..n {
        for k in 0..gap {
            let l = format!("{i}.{k}\n");
            a.push(l.clone());
            b.push(l);
        }
        let kind = if kind == 3 { r.below(3) } else { kind };
        if kind != 0 {
            a.push(format!("old{i}\n"));
        }
        if kind != 1 {
            b.push(format!("new{i}\n"));
        }
    }
    for k in 0..gap {
        a.push(format!("end{k}\n"));
        b.push(format!("end{k}\n"));
    }
    (a, b)
}

/// Long texts made of the same stretches, moved, doubled, dropped and edited.
pub fn block_pair(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let top = *r.pick(&[10, 40, 150, 400]);
    let blocks: Vec<Vec<String>> = (0..2 + r.us(9))
        .map(|i| {
            let repeats = r.one_in(4);
            (0..1 + r.us(top)).map(|k| if repeats { format!("r{}\n", k % 7) } else { format!("b{i}.{k}\n") }).collect()
        })
        .collect();
    let side = |r: &mut Rng| {
        let mut v: Vec<String> = vec![];
        for i in 0..blocks.len() {
            let k = if r.one_in(2) { i } else { r.us(blocks.len()) };
            let mut b = blocks[k].clone();
            if r.one_in(3) {
                let n = 1 + r.us(3);
                b = edit(r, &b, n);
            }
            if let Some(l) = b.last_mut() {
                if !l.ends_with('\n') {
                    l.push('\n');
                }
            }
            v.extend(b);
        }
        join(&v)
    };
    (side(r), side(r))
}

pub fn text_pair(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    if max >= 30 && r.one_in(80) {
        let (a, b) = many_pair(r);
        return (join(&a), join(&b));
    }
    if max >= 30 && r.one_in(100) {
        return block_pair(r);
    }
    if max >= 30 && r.one_in(40) {
        let n = *r.pick(&[250usize, 256, 260, 300, 520, 600]);
        let (a, b) = long_pair(r, n);
        return (join(&a), join(&b));
    }
    let a = text_lines(r, max);
    let b = match r.below(12) {
        0 => text_lines(r, max),
        1 => a.clone(),
        _ => {
            let top = if r.one_in(3) { 8 } else { 3 };
            let k = 1 + r.us(top);
            edit(r, &a, k)
        }
    };
    (join(&a), join(&b))
}

pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        _ => r.us(max + 1),
    };
    let alpha = *r.pick(&[2u64, 4, 256]);
    let mut v: Vec<u8> = (0..n)
        .map(|_| {
            let x = r.below(alpha);
            if alpha == 256 {
                x as u8
            } else {
                [0xff, 0x00, b'a', b'\n'][x as usize]
            }
        })
        .collect();
    if r.one_in(2) && !v.is_empty() {
        let i = r.us(v.len());
        v[i] = 0xfe;
    }
    v
}

pub fn byte_edit(r: &mut Rng, a: &[u8], edits: usize) -> Vec<u8> {
    let mut v = a.to_vec();
    for _ in 0..edits {
        let at = r.us(v.len() + 1);
        match r.below(4) {
            0 => {
                if at < v.len() {
                    v[at] = r.below(256) as u8
                }
            }
            1 => {
                for _ in 0..1 + r.us(4) {
                    let x = r.below(256) as u8;
                    v.insert(at, x)
                }
            }
            2 => {
                for _ in 0..1 + r.us(4) {
                    if at < v.len() {
                        v.remove(at);
                    }
                }
            }
            _ => {
                let end = (at + r.us(6)).min(v.len());
                let f: Vec<u8> = (0..r.us(6)).map(|_| r.below(256) as u8).collect();
                v.splice(at..end, f);
            }
        }
    }
    v
}

pub fn byte_pair(r: &mut Rng, max: usize) -> (Vec<u8>, Vec<u8>) {
    if max >= 40 && r.one_in(30) {
        // positions and lengths that one byte does not count
        let n = *r.pick(&[254usize, 256, 300, 600, 1200]);
        let a: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
        let mut b = a.clone();
        for _ in 0..1 + r.us(3) {
            let at = r.us(b.len() + 1);
            let cut = if r.one_in(6) { *r.pick(&[255usize, 256, 257]) } else { r.us(4) };
            let end = (at + cut).min(b.len());
            let put = if r.one_in(6) { *r.pick(&[255usize, 256, 257]) } else { r.us(4) };
            let f: Vec<u8> = (0..put).map(|_| r.below(256) as u8).collect();
            b.splice(at..end, f);
        }
        return (a, b);
    }
    let a = bytes(r, max);
    let b = match r.below(10) {
        0 => bytes(r, max),
        1 => a.clone(),
        _ => {
            let k = 1 + r.us(4);
            byte_edit(r, &a, k)
        }
    };
    (a, b)
}

/// Push a text over the size of the programs' buffers, with multi-byte characters across the boundary.
pub fn pad(r: &mut Rng, v: &mut Vec<u8>, v2: &mut Vec<u8>, binary: bool) {
    let n = if r.one_in(120) && !binary {
        (1 << 20) - 10 + r.us(100_000)
    } else if r.one_in(12) {
        *r.pick(&[65535usize, 65536, 65537, 131072])
    } else { *r.pick(&[8190usize, 8191, 8192, 4095, 16383, 9000])
    };
    if binary {
        // comparing bytes takes time proportional to the square of how often each occurs
        let h: Vec<u8> = (0..n.min(9000)).map(|i| (i * 7 + i / 256) as u8).collect();
        *v = [&h[..], v].concat();
        *v2 = [&h[..], v2].concat();
        return;
    }
    let ch = *r.pick(&["x", "é", "日", "𝄞"]);
    let mut p = String::new();
    let one_line = r.one_in(4); // longer than any buffer
    while p.len() < n {
        // varied, since comparing as bytes takes time proportional to the square of how often each occurs;
        // near the size itself all alike, so that a character lies across it
        if p.len() + 40 < n {
            p.push((b'0' + r.below(75) as u8) as char);
        } else {
            p.push_str(ch);
        }
        if !one_line && r.one_in(700) {
            p.push('\n')
        }
    }
    p.push('\n');
    let mut head = p.into_bytes();
    let mut h2 = head.clone();
    if r.one_in(3) {
        // the whole exactly as long as a buffer
        let to = n.next_multiple_of(4096);
        let all = head.len() + v.len();
        if all < to {
            let fill: Vec<u8> = (0..to - all).map(|i| if i % 97 == 96 { b'\n' } else { b'0' + (i * 31 % 75) as u8 }).collect();
            head = [&fill[..], &head].concat();
            h2 = [&fill[..], &h2].concat();
        }
    }
    head.extend_from_slice(v);
    h2.extend_from_slice(v2);
    *v = head;
    *v2 = h2;
}

pub fn any_pair(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let (a, b) = differing_pair(r);
    if r.one_in(25) {
        // nothing to change
        (a.clone(), a)
    } else {
        (a, b)
    }
}

fn differing_pair(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    match r.below(10) {
        0..=5 => {
            let max = if r.one_in(6) { 120 } else { 30 };
            text_pair(r, max)
        }
        6 | 7 => byte_pair(r, 60),
        8 => {
            // one side text, the other not
            let (a, _) = text_pair(r, 12);
            let b = bytes(r, 40);
            if r.one_in(2) {
                (a, b)
            } else {
                (b, a)
            }
        }
        _ => {
            let binary = r.one_in(4);
            let (mut a, mut b) = if binary { byte_pair(r, 30) } else { text_pair(r, 10) };
            pad(r, &mut a, &mut b, binary);
            (a, b)
        }
    }
}

pub fn context(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2..=5 => 2,
        6 | 7 => 3,
        8 => r.range(4, 12),
        _ => *r.pick(&[255, 254, 128, 127, 100]),
    }
}

/// Shortened and interrupted transfers, seeded hash tables.
pub fn noise(r: &mut Rng, p: &mut ProcPlan) {
    p.hash_seed = r.u64();
    match r.below(5) {
        0 => {}
        1 => p.short = 200 + r.below(800) as u32,
        2 => p.eintr = 50 + r.below(500) as u32,
        _ => {
            p.short = 100 + r.below(900) as u32;
            p.eintr = 20 + r.below(600) as u32;
        }
    }
    p.io_seed = r.u64();
    slow(r, p);
}

/// Slow calls, and a clock that leaps.
pub fn slow(r: &mut Rng, p: &mut ProcPlan) {
    if r.one_in(2) {
        p.io_seed = r.u64();
        p.clock = *r.pick(&[4, 40, 400]);
    }
}

pub fn fault_words(mut f: FaultPlan) -> FaultPlan {
    f.what = F_NAMES[f.kind as usize].to_string();
    f.ops = (0..16).filter(|i| f.mask & (1 << i) != 0).map(|i| OP_NAMES[i]).collect::<Vec<_>>().join("|");
    f
}

pub fn bit(op: u8) -> u32 {
    1 << op
}

/// Errors a class of call really returns.
pub fn errno_for(r: &mut Rng, op: u8) -> i32 {
    match op {
        OP_OPEN => *r.pick(&[EIO, EACCES, EMFILE, 12, EPERM, 16, 116, 23, 6, 19, 110, ELOOP, 5]),
        OP_CREATE => *r.pick(&[EIO, EACCES, ENOSPC, 122, 30, EMFILE, EPERM, 12, 26, 23, 116, 31]),
        OP_READ => *r.pick(&[EIO, EIO, EIO, 116, 12, 110, 11, 74, 104, 107, 9, 22, 32, 121]),
        OP_WRITE => *r.pick(&[EIO, EIO, ENOSPC, ENOSPC, ENOSPC, 122, 27, 116, 12, EPERM, 11, 32, 104, 110]),
        OP_STAT => *r.pick(&[EIO, EACCES, 12, 116, ELOOP, 75, 110, 9]),
        OP_RENAME => *r.pick(&[EIO, ENOSPC, EACCES, 30, EPERM, 16, EXDEV, 122, 116, 22, 110, 12]),
        OP_LINK => *r.pick(&[EIO, ENOSPC, 122, 30, 116, 31, 12]),
        OP_UNLINK => *r.pick(&[EIO, EACCES, 30, EPERM, 16, 116, 26, 110]),
        OP_FSYNC => *r.pick(&[EIO, ENOSPC, 122, 116, 22, 30, 95]),
        OP_CLOSE => *r.pick(&[EIO, ENOSPC, 122, EINTR]),
        OP_CHMOD => *r.pick(&[EPERM, 30, EIO, EACCES, 38, 95, 116]),
        OP_TRUNC => *r.pick(&[EIO, ENOSPC, EPERM]),
        OP_STDOUT => *r.pick(&[EIO, ENOSPC, 32, 11, 122, 27, 104, 110, 116, 5]),
        _ => EIO,
    }
}

/// Choose an operation of a recorded dry run, giving every class of call the same chance rather than every
/// call (reads outnumber everything else by far). Returns (ordinal among the process's operations, class).
pub fn pick_op(r: &mut Rng, classes: &[u8], among: u32) -> Option<(u32, u8)> {
    let mut present: Vec<u8> = classes.iter().copied().filter(|c| among & bit(*c) != 0).collect();
    present.sort();
    present.dedup();
    if present.is_empty() {
        return None;
    }
    let c = *r.pick(&present);
    let places: Vec<usize> = (0..classes.len()).filter(|i| classes[*i] == c).collect();
    let at = match r.below(4) {
        0 => places[0],
        1 => places[places.len() - 1],
        _ => *r.pick(&places),
    };
    Some((at as u32, c))
}

/// An I/O error at some call of the recorded run.
pub fn error_fault(r: &mut Rng, proc_: u8, classes: &[u8], among: u32, after_too: bool) -> Option<FaultPlan> {
    let (at, c) = pick_op(r, classes, among)?;
    let kind = if after_too && matches!(c, OP_RENAME | OP_UNLINK | OP_LINK | OP_FSYNC | OP_CLOSE) && r.one_in(5) {
        F_ERR_AFTER
    } else {
        F_ERR
    };
    if matches!(c, OP_WRITE | OP_STDOUT) && r.one_in(10) {
        // a device that takes nothing
        return Some(fault_words(FaultPlan { proc: proc_, kind: F_SHORT, at, mask: bit(c), sticky: r.one_in(3), ..Default::default() }));
    }
    Some(fault_words(FaultPlan {
        proc: proc_,
        kind,
        at,
        mask: bit(c),
        errno: errno_for(r, c),
        sticky: r.one_in(6) && c != OP_CREATE,
        ..Default::default()
    }))
}

/// The error as it often comes: after a transfer of only a part, or several times in a row.
pub fn around(r: &mut Rng, f: FaultPlan) -> Vec<FaultPlan> {
    let mut out = vec![];
    let mut f = f;
    if f.kind == F_ERR && f.mask & (bit(OP_READ) | bit(OP_WRITE) | bit(OP_STDOUT)) != 0 && f.mask.count_ones() == 1 && r.one_in(3) {
        let arg = 1 + match r.below(4) {
            0 | 1 => 0,
            2 => r.below(4) as u32,
            _ => r.below(60) as u32,
        };
        out.push(fault_words(FaultPlan { proc: f.proc, kind: F_SHORT, at: f.at, mask: f.mask, arg, ..Default::default() }));
        f.at += 1;
    }
    let again = if f.kind == F_ERR && !f.sticky && r.one_in(8) { 1 + r.us(3) } else { 0 };
    for k in 0..=again {
        let mut g = f.clone();
        g.at += k as u32;
        out.push(g);
    }
    out
}

/// Nobody can be told anything.
pub fn stderr_fault(r: &mut Rng, proc_: u8) -> FaultPlan {
    fault_words(FaultPlan {
        proc: proc_,
        kind: F_ERR,
        mask: bit(OP_STDERR),
        errno: *r.pick(&[EIO, ENOSPC, 32, 11]),
        sticky: true,
        ..Default::default()
    })
}

/// One allocation fails, or all from one on; either any or one of the larger ones.
pub fn nomem_fault(r: &mut Rng, proc_: u8, allocs: (u32, u32)) -> Option<FaultPlan> {
    let big = allocs.1 > 0 && r.one_in(3);
    let n = if big { allocs.1 } else { allocs.0 };
    if n == 0 {
        return None;
    }
    // most of a run's allocations come before it has done anything
    let at = if r.one_in(2) { n.saturating_sub(1 + r.below(40) as u32) } else { r.below(n as u64) as u32 };
    Some(fault_words(FaultPlan {
        proc: proc_,
        kind: F_NOMEM,
        at,
        arg: if big { BIG as u32 } else { 0 },
        sticky: r.one_in(3),
        ..Default::default()
    }))
}

/// Sometimes a file system without hard links.
pub fn maybe_nolink(r: &mut Rng, one_in: u64) -> i32 {
    if r.one_in(one_in) {
        *r.pick(&[EPERM, 95, 38])
    } else {
        0
    }
}

pub const ALL_OPS: u32 = 0xffff & !(1 << OP_STDERR);

/// A kill or power loss at some call of the recorded run.
pub fn crash_fault(r: &mut Rng, proc_: u8, classes: &[u8]) -> Option<FaultPlan> {
    // favour the calls that change something, and their neighbourhood
    let changing = bit(OP_CREATE) | bit(OP_WRITE) | bit(OP_RENAME) | bit(OP_LINK) | bit(OP_UNLINK) | bit(OP_FSYNC)
        | bit(OP_CHMOD) | bit(OP_TRUNC) | bit(OP_CLOSE);
    let among = if r.pct(80) { changing } else { ALL_OPS };
    let (at, c) = pick_op(r, classes, among)?;
    let power = r.one_in(2);
    let mid = c == OP_WRITE && r.one_in(2);
    let before = r.one_in(4);
    let kind = match (power, mid, before) {
        (false, true, _) => F_KILL_MID,
        (true, true, _) => F_POWER_MID,
        (false, _, true) => F_KILL_BEFORE,
        (false, _, false) => F_KILL_AFTER,
        (true, _, true) => F_POWER_BEFORE,
        (true, _, false) => F_POWER_AFTER,
    };
    Some(fault_words(FaultPlan {
        proc: proc_,
        kind,
        at,
        mask: bit(c),
        arg: r.below(1001) as u32,
        ..Default::default()
    }))
}

pub fn recovery(r: &mut Rng, p: &mut Plan) {
    p.keep = match r.below(4) {
        0 => 0,
        1 => u32::MAX,
        _ => r.below(8) as u32,
    };
    p.recover_seed = r.u64();
    p.fsync_commits = r.one_in(2);
}
