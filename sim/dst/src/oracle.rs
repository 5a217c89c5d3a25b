//! Independent reference models: what a patch file says, and what applying it may produce.
use serde_json::Value;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Clump {
    pub ctx: (usize, usize),
    pub before: (usize, Vec<Vec<u8>>),
    pub after: (usize, Vec<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub enum Patch {
    Text { path: String, clumps: Vec<Clump> },
    Bytes { path: String, clumps: Vec<Clump> },
    Add { path: String, data: Vec<u8> },
    Remove { path: String, data: Vec<u8> },
}

impl Patch {
    pub fn path(&self) -> &str {
        match self {
            Patch::Text { path, .. } | Patch::Bytes { path, .. } | Patch::Add { path, .. } | Patch::Remove { path, .. } => path,
        }
    }
}

fn items(v: &Value, text: bool) -> Option<(usize, Vec<Vec<u8>>)> {
    let start = v.get("start")?.as_u64()? as usize;
    let a = v.get("items")?.as_array()?;
    let mut out = vec![];
    for x in a {
        if text {
            out.push(x.as_str()?.as_bytes().to_vec());
        } else {
            let b = x.as_u64()?;
            if b > 255 {
                return None;
            }
            out.push(vec![b as u8]);
        }
    }
    Some((start, out))
}

fn clumps(v: &Value, text: bool) -> Option<Vec<Clump>> {
    let mut out = vec![];
    for c in v.get("clumps")?.as_array()? {
        let l = c.get("context_lengths")?.as_array()?;
        out.push(Clump {
            ctx: (l.first()?.as_u64()? as usize, l.get(1)?.as_u64()? as usize),
            before: items(c.get("before")?, text)?,
            after: items(c.get("after")?, text)?,
        });
    }
    Some(out)
}

/// Read a patch file (the JSON format of the diff program) without the code under test.
pub fn parse(data: &[u8]) -> Option<Patch> {
    let v: Value = serde_json::from_slice(data).ok()?;
    let o = v.as_object()?;
    if o.len() != 1 {
        return None;
    }
    let (k, v) = o.iter().next()?;
    let lines = |v: &Value| -> Option<Vec<u8>> {
        let mut d = vec![];
        for l in v.get("lines")?.as_array()? {
            d.extend_from_slice(l.as_str()?.as_bytes());
        }
        Some(d)
    };
    let bytes = |v: &Value| -> Option<Vec<u8>> {
        v.get("bytes")?.as_array()?.iter().map(|x| x.as_u64().filter(|b| *b < 256).map(|b| b as u8)).collect()
    };
    Some(match k.as_str() {
        "TextChange" => {
            Patch::Text { path: v.get("before_path")?.as_str()?.to_string(), clumps: clumps(v, true)? }
        }
        "ByteChange" => {
            Patch::Bytes { path: v.get("before_path")?.as_str()?.to_string(), clumps: clumps(v, false)? }
        }
        "TextAdd" => Patch::Add { path: v.get("path")?.as_str()?.to_string(), data: lines(v)? },
        "TextRemove" => Patch::Remove { path: v.get("path")?.as_str()?.to_string(), data: lines(v)? },
        "ByteAdd" => Patch::Add { path: v.get("path")?.as_str()?.to_string(), data: bytes(v)? },
        "ByteRemove" => Patch::Remove { path: v.get("path")?.as_str()?.to_string(), data: bytes(v)? },
        _ => return None,
    })
}

pub fn split_lines(t: &[u8]) -> Vec<Vec<u8>> {
    t.split_inclusive(|b| *b == b'\n').map(|l| l.to_vec()).collect()
}

pub fn conflict_block(before: &[Vec<u8>], after: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"<<<<<<<\n".to_vec();
    v.extend(before.concat());
    v.extend_from_slice(b"=======\n");
    v.extend(after.concat());
    v.extend_from_slice(b">>>>>>>\n");
    v
}

/// Every way `result` can be explained as `target` with the clumps applied, found already applied, or put in
/// conflict blocks, in order and without overlap: the possible (applied, already, failed) counts.
/// Outer context lines may be left out; for a diff that was really made (`strict`) these are unchanged lines.
/// The second value is false when the search was cut short.
pub fn explain(target: &[Vec<u8>], clumps: &[Clump], reverse: bool, result: &[u8], strict: bool) -> (HashSet<(usize, usize, usize)>, bool) {
    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    struct S {
        k: usize,
        i: usize,
        pos: usize,
        ap: usize,
        f: usize,
    }
    let mut seen: HashSet<S> = HashSet::new();
    let mut todo = vec![S { k: 0, i: 0, pos: 0, ap: 0, f: 0 }];
    let mut out = HashSet::new();
    let blocks: Vec<Vec<u8>> = clumps
        .iter()
        .map(|c| if reverse { conflict_block(&c.after.1, &c.before.1) } else { conflict_block(&c.before.1, &c.after.1) })
        .collect();
    // how many lines at either end a clump leaves as they are
    let same: Vec<(usize, usize)> = clumps
        .iter()
        .map(|c| {
            let (b, a) = (&c.before.1, &c.after.1);
            let head = b.iter().zip(a).take_while(|(x, y)| x == y).count();
            let tail = b.iter().rev().zip(a.iter().rev()).take_while(|(x, y)| x == y).count();
            (head, tail)
        })
        .collect();
    while let Some(s) = todo.pop() {
        if !seen.insert(s) {
            continue;
        }
        if seen.len() > 400_000 {
            return (out, false);
        }
        if s.k == clumps.len() && s.i == target.len() && s.pos == result.len() {
            out.insert((s.ap, s.k - s.ap - s.f, s.f));
        }
        let rest = &result[s.pos..];
        if s.i < target.len() && rest.starts_with(&target[s.i]) {
            todo.push(S { i: s.i + 1, pos: s.pos + target[s.i].len(), ..s });
        }
        if s.k < clumps.len() {
            let c = &clumps[s.k];
            let (b, a) = if reverse { (&c.after.1, &c.before.1) } else { (&c.before.1, &c.after.1) };
            if rest.starts_with(&blocks[s.k]) {
                todo.push(S { k: s.k + 1, pos: s.pos + blocks[s.k].len(), f: s.f + 1, ..s });
            }
            let (start_most, end_most) = if strict { (c.ctx.0.min(same[s.k].0), c.ctx.1.min(same[s.k].1)) } else { c.ctx };
            for st in 0..=start_most.min(b.len()).min(a.len()) {
                let (old, new) = (&b[st..], &a[st..]);
                let is_old = old.iter().zip(&target[s.i..]).take_while(|(x, y)| x == y).count();
                let is_new = new.iter().zip(&target[s.i..]).take_while(|(x, y)| x == y).count();
                if is_old + end_most < old.len() && is_new + end_most < new.len() {
                    continue;
                }
                // where the result is after so many of the new lines
                let mut at = vec![s.pos];
                for l in new {
                    let p = at[at.len() - 1];
                    if !result[p..].starts_with(l) {
                        break;
                    }
                    at.push(p + l.len());
                }
                for e in 0..=end_most.min(old.len()).min(new.len()) {
                    let (ol, nl) = (old.len() - e, new.len() - e);
                    if nl >= at.len() {
                        continue;
                    }
                    if ol <= is_old {
                        todo.push(S { k: s.k + 1, i: s.i + ol, pos: at[nl], ap: s.ap + 1, ..s });
                    }
                    if nl <= is_new {
                        todo.push(S { k: s.k + 1, i: s.i + nl, pos: at[nl], ..s });
                    }
                }
            }
        }
    }
    (out, true)
}

/// The same for byte clumps, which apply only at their recorded places; `None` for a clump that fits neither
/// way makes the patch inapplicable.
pub fn explain_bytes(target: &[u8], clumps: &[Clump], reverse: bool, result: &[u8]) -> bool {
    // (next target index, position in result) after each clump
    let mut states: HashSet<(usize, usize)> = HashSet::from([(0, 0)]);
    for c in clumps {
        let (b, a) = if reverse { (&c.after, &c.before) } else { (&c.before, &c.after) };
        let old: Vec<u8> = b.1.concat();
        let new: Vec<u8> = a.1.concat();
        let mut next = HashSet::new();
        for (i, pos) in states {
            let at = |start: usize, want: &[u8], put: &[u8]| -> Option<(usize, usize)> {
                if start < i || start > target.len() || !target[start..].starts_with(want) {
                    return None;
                }
                let copied = &target[i..start];
                if !result[pos..].starts_with(copied) {
                    return None;
                }
                let p = pos + copied.len();
                if !result[p..].starts_with(put) {
                    return None;
                }
                Some((start + want.len(), p + put.len()))
            };
            next.extend(at(b.0, &old, &new));
            next.extend(at(a.0, &new, &new));
        }
        states = next;
    }
    states.iter().any(|(i, p)| target[*i..] == result[*p..])
}
