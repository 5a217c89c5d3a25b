//! A case: everything that decides one simulated execution, and the form a replay file has.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Content(pub Vec<u8>);

impl Serialize for Content {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(&format!("t:{t}")),
            Err(_) => {
                let h: String = self.0.iter().map(|b| format!("{b:02x}")).collect();
                s.serialize_str(&format!("x:{h}"))
            }
        }
    }
}
impl<'de> Deserialize<'de> for Content {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        if let Some(h) = t.strip_prefix("x:") {
            let b = h.as_bytes();
            let v = (0..b.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0))
                .collect();
            Ok(Content(v))
        } else {
            Ok(Content(t.strip_prefix("t:").unwrap_or(&t).as_bytes().to_vec()))
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct ProcPlan {
    pub short: u32,
    pub eintr: u32,
    pub io_seed: u64,
    pub hash_seed: u64,
    pub umask: u32,
    pub stdout_space: i64,
    pub pid: u32,
    /// of 1024 calls so many are slow; time leaps as often between two looks at a clock
    #[serde(default)]
    pub clock: u32,
}
impl Default for ProcPlan {
    fn default() -> Self {
        ProcPlan { short: 0, eintr: 0, io_seed: 0, hash_seed: 7, umask: 0o022, stdout_space: -1, pid: 4711, clock: 0 }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
pub struct FaultPlan {
    pub proc: u8,
    pub kind: u8,
    pub what: String, // the kind in words
    pub at: u32,
    pub mask: u32,
    pub ops: String, // the classes in words
    pub errno: i32,
    pub arg: u32,
    pub sticky: bool,
}

#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
pub struct ExtPlan {
    pub kind: u32,
    pub path: String,
    pub data: Content,
}

/// What one stage of a case does to the processes of that stage.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Plan {
    pub procs: Vec<ProcPlan>,
    pub faults: Vec<FaultPlan>,
    pub preempts: Vec<(u32, u32)>,
    pub exts: Vec<ExtPlan>,
    pub space: i64,
    pub keep: u32,
    pub recover_seed: u64,
    pub fsync_commits: bool,
    /// the error hard links meet on a file system that has none; 0: it has
    #[serde(default)]
    pub nolink: i32,
}
impl Default for Plan {
    fn default() -> Self {
        Plan {
            procs: vec![ProcPlan::default()],
            faults: vec![],
            preempts: vec![],
            exts: vec![],
            space: -1,
            keep: u32::MAX,
            recover_seed: 0,
            fsync_commits: false,
            nolink: 0,
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    pub kind: String,
    pub n: BTreeMap<String, i64>,
    pub c: BTreeMap<String, Content>,
    pub s: BTreeMap<String, String>,
    pub plans: Vec<Plan>,
}

impl Case {
    pub fn new(prop: &str, kind: &str) -> Case {
        Case { prop: prop.into(), kind: kind.into(), ..Default::default() }
    }
    pub fn num(&self, k: &str) -> i64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn content(&self, k: &str) -> &[u8] {
        self.c.get(k).map(|c| c.0.as_slice()).unwrap_or(&[])
    }
    pub fn opt(&self, k: &str) -> Option<&[u8]> {
        self.c.get(k).map(|c| c.0.as_slice())
    }
    pub fn str(&self, k: &str) -> &str {
        self.s.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.n.insert(k.into(), v);
        self
    }
    pub fn put(&mut self, k: &str, v: &[u8]) -> &mut Self {
        self.c.insert(k.into(), Content(v.to_vec()));
        self
    }
    pub fn puts(&mut self, k: &str, v: &str) -> &mut Self {
        self.s.insert(k.into(), v.into());
        self
    }
    pub fn plan(&self, i: usize) -> Plan {
        self.plans.get(i).cloned().unwrap_or_default()
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

/// What one execution of a case showed.
#[derive(Clone, Debug, Default)]
pub struct Verdict {
    pub violation: Option<Violation>,
    pub sig: u64,
    pub nontrivial: bool,
    pub void: bool, // the simulator's tables overflowed or a precondition failed: nothing was decided
}

impl Verdict {
    pub fn bad(&mut self, class: &str, detail: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { class: class.into(), detail });
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let t: String = String::from_utf8_lossy(b).chars().take(400).collect();
    format!("{t:?}{}", if b.len() > 400 { format!(" ({} bytes)", b.len()) } else { String::new() })
}
pub fn show_opt(b: Option<&[u8]>) -> String {
    match b {
        Some(b) => show(b),
        None => "(absent)".into(),
    }
}
