//! The simulator's side of the arena: sets up the simulated machine, starts the real programs inside it and
//! reads back what happened.
use crate::case::*;
use crate::stats::Stats;
use simcore::sys;
use simcore::*;
use std::collections::{BTreeMap, HashMap};
use std::process::{Command, Stdio};

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Killed,
    Power,
    Overrun, // more simulated calls than any bounded run needs
    Hang,    // processor time ran out
}

#[derive(Clone, Debug)]
pub struct ProcOut {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl ProcOut {
    pub fn ok(&self) -> bool {
        self.end == End::Exit(0)
    }
    pub fn crashed(&self) -> bool {
        matches!(self.end, End::Killed | End::Power)
    }
    pub fn err(&self) -> String {
        format!("{:?}, stderr {}", self.end, show(&self.stderr))
    }
}

#[derive(Clone, Debug)]
pub struct HistItem {
    pub step: u32,
    pub watch: usize,
    pub by: u32, // process slot; MAX_PROC.. is the external party
    pub present: bool,
    pub mode: u32,
    pub len: u64,
    pub hash: u64,
}

#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub procs: Vec<ProcOut>,
    pub hist: Vec<HistItem>,
    pub opc: Vec<(u8, u8)>, // class, process by step
    pub ops: Vec<u32>,
    pub allocs: Vec<(u32, u32)>, // per process: allocations, large ones among them
    pub loghash: u64,
    pub fired: Vec<(u32, u32)>, // per fault: times, class + 1
    pub ext_done: Vec<bool>,
    pub switches: u32,
    pub noise: u32, // shortened and interrupted transfers, space refusals
    pub steps: u32,
    pub power: bool,
    pub overflow: bool,
    pub unsynced: bool,
    /// permission bits files made during the run had while they held anything
    pub exposed: u32,
}

impl RunOut {
    pub fn p(&self) -> &ProcOut {
        &self.procs[0]
    }
    pub fn any_fired(&self) -> bool {
        self.fired.iter().any(|f| f.0 > 0)
    }
    pub fn nontrivial(&self) -> bool {
        self.any_fired() || self.noise > 0 || self.switches > 0
    }
    /// Operation classes of one process in order.
    pub fn classes(&self, p: u8) -> Vec<u8> {
        self.opc.iter().filter(|x| x.1 == p).map(|x| x.0).collect()
    }
}

/// One name in the simulated tree.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub kind: u32,
    pub mode: u32,
    pub data: Vec<u8>,
    pub ino: u32,
}
pub type Tree = BTreeMap<String, Node>;

/// The tree without inode numbers.
pub fn plain(t: &Tree) -> BTreeMap<String, (u32, u32, Vec<u8>)> {
    t.iter().map(|(k, n)| (k.clone(), (n.kind, n.mode, n.data.clone()))).collect()
}

pub fn tree_diff(a: &Tree, b: &Tree) -> Vec<String> {
    let mut v = vec![];
    for (k, n) in a {
        match b.get(k) {
            None => v.push(format!("{k} is gone")),
            Some(m) => {
                if m.data != n.data || m.kind != n.kind {
                    v.push(format!("{k} changed from {} to {}", show(&n.data), show(&m.data)))
                } else if m.mode != n.mode {
                    v.push(format!("{k} mode changed from {:o} to {:o}", n.mode, m.mode))
                }
            }
        }
    }
    for (k, n) in b {
        if !a.contains_key(k) {
            v.push(format!("{k} appeared with {}", show(&n.data)))
        }
    }
    v
}

pub struct World {
    arena: *mut Arena,
    fd: i32,
    pub bin: String,
    pub lib: String,
    pub stats: Stats,
    pub memo: HashMap<u64, Memo>,
    pub trace: Option<Vec<String>>,
    pub incidents: u64,
}

#[derive(Clone)]
pub struct Memo {
    pub out: RunOut,
    pub tree: Tree,
}

extern "C" {
    fn wait4(pid: i32, status: *mut i32, options: i32, ru: *mut [i64; 18]) -> i32;
}

impl World {
    pub fn new() -> World {
        let fd = unsafe { sys::memfd(c"arena") };
        assert!(fd >= 0, "memfd");
        unsafe {
            assert!(sys::ftruncate(fd, ARENA_SIZE as u64) == 0);
            let a = sys::mmap_shared(fd, ARENA_SIZE) as *mut Arena;
            assert!(!a.is_null());
            (*a).reset();
            World {
                arena: a,
                fd,
                bin: std::env::var("DST_BIN").unwrap_or_else(|_| "/verif/build/bin/debug".into()),
                lib: std::env::var("DST_LIB").unwrap_or_else(|_| "/verif/build/sim/debug/libsimos.so".into()),
                stats: Stats::default(),
                memo: HashMap::new(),
                trace: None,
                incidents: 0,
            }
        }
    }

    pub fn a(&mut self) -> &mut Arena {
        unsafe { &mut *self.arena }
    }

    /// A fresh machine with /w as the (empty) working directory, /w/d a subdirectory, /tmp another device.
    pub fn reset(&mut self) {
        let a = self.a();
        a.reset();
        a.put_dir("/w/d", 0o755, 1).expect("mkdir");
        a.put_dir("/w/d/e", 0o755, 1).expect("mkdir");
    }

    pub fn put(&mut self, path: &str, data: &[u8], mode: u32) -> u32 {
        self.a().put(path, data, mode).expect("put")
    }

    pub fn put_opt(&mut self, path: &str, data: Option<&[u8]>, mode: u32) {
        if let Some(d) = data {
            self.put(path, d, mode);
        }
    }

    pub fn remove(&mut self, path: &str) {
        self.a().remove(path)
    }

    pub fn hard_link(&mut self, old: &str, new: &str) {
        let act = Act { err: 0, err_after: 0, limit: usize::MAX, die: 0, mid: -1, fault: 0, step: 0 };
        self.a().op_link(0, act, old.as_bytes(), new.as_bytes()).expect("link");
        self.a().make_durable();
    }

    pub fn symlink(&mut self, target: &str, path: &str) {
        let act = Act { err: 0, err_after: 0, limit: usize::MAX, die: 0, mid: -1, fault: 0, step: 0 };
        self.a().op_symlink(0, act, target.as_bytes(), path.as_bytes()).expect("symlink");
        self.a().make_durable();
    }

    pub fn put_dir(&mut self, path: &str) {
        self.a().put_dir(path, 0o755, 1).expect("mkdir");
    }

    pub fn chmod_dir(&mut self, path: &str, mode: u32) {
        let act = Act { err: 0, err_after: 0, limit: usize::MAX, die: 0, mid: -1, fault: 0, step: 0 };
        self.a().op_chmod(0, act, path.as_bytes(), mode).expect("chmod");
        self.a().make_durable();
    }

    pub fn get(&mut self, path: &str) -> Option<Vec<u8>> {
        self.tree().remove(&canon(path)).map(|n| n.data)
    }
    pub fn node(&mut self, path: &str) -> Option<Node> {
        self.tree().remove(&canon(path))
    }

    pub fn tree(&mut self) -> Tree {
        let a = self.a();
        let mut t = Tree::new();
        for d in a.dents.iter() {
            if d.used == 0 {
                continue;
            }
            let mut path = String::from_utf8_lossy(&d.name[..d.nlen as usize]).to_string();
            let mut dir = d.dir;
            let mut guard = 0;
            loop {
                if dir == CWD {
                    path = format!("/w/{path}");
                    break;
                } else if dir == TMP {
                    path = format!("/tmp/{path}");
                    break;
                } else if dir == ROOT || guard > 20 {
                    path = format!("/{path}");
                    break;
                }
                match a.dents.iter().find(|x| x.used != 0 && x.ino == dir) {
                    Some(x) => {
                        path = format!("{}/{path}", String::from_utf8_lossy(&x.name[..x.nlen as usize]));
                        dir = x.dir;
                    }
                    None => break,
                }
                guard += 1;
            }
            let n = a.inodes[d.ino as usize];
            t.insert(path, Node { kind: n.kind, mode: n.mode, data: a.bytes(n.data).to_vec(), ino: d.ino });
        }
        t
    }

    pub fn watch(&mut self, path: &str) -> usize {
        self.a().watch(path)
    }

    /// Run the given programs under the plan, all of them started, one at a time making progress.
    pub fn run(&mut self, cmds: &[Vec<String>], plan: &Plan) -> RunOut {
        let n = cmds.len();
        assert!(n <= MAX_PROC);
        let fd = self.fd;
        let bin = self.bin.clone();
        let lib = self.lib.clone();
        {
            let a = self.a();
            a.begin_run();
            a.sync_watches();
            a.space_left = plan.space;
            a.fsync_commits = plan.fsync_commits as u32;
            a.nolink = plan.nolink;
            for (i, f) in plan.faults.iter().enumerate().take(MAX_FAULT) {
                a.faults[i] = Fault {
                    proc_: f.proc,
                    kind: f.kind,
                    sticky: f.sticky as u8,
                    pad: 0,
                    at: f.at,
                    mask: f.mask,
                    errno: f.errno,
                    arg: f.arg,
                    fired: 0,
                    fired_op: 0,
                };
                a.nfault = i as u32 + 1;
            }
            for (i, p) in plan.preempts.iter().enumerate().take(MAX_PREEMPT) {
                a.preempts[i] = Preempt { step: p.0, target: p.1, fired: 0 };
                a.npreempt = i as u32 + 1;
            }
            for (i, e) in plan.exts.iter().enumerate().take(8) {
                a.set_ext(i, e.kind, e.path.as_bytes(), &e.data.0);
            }
            for s in 0..n {
                let q = plan.procs.get(s).cloned().unwrap_or_default();
                let p = &mut a.procs[s];
                p.short_rate = q.short;
                p.eintr_rate = q.eintr;
                p.clock_rate = q.clock;
                p.io_seed = q.io_seed;
                p.hash_seed = q.hash_seed;
                p.umask = q.umask;
                p.stdout_space = q.stdout_space;
                p.fakepid = q.pid;
                a.open_std(s);
                a.alive |= 1 << s;
            }
            a.turn = 0;
        }
        let mut pids = vec![];
        for (s, c) in cmds.iter().enumerate() {
            let child = Command::new(format!("{bin}/{}", c[0]))
                .args(&c[1..])
                .env_clear()
                .env("LD_PRELOAD", &lib)
                .env("SIMOS", format!("{fd},{s}"))
                .env("RAYON_NUM_THREADS", "1")
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap_or_else(|e| panic!("cannot start {}: {e}", c[0]));
            pids.push(child.id() as i32);
        }
        let mut status = vec![0i32; n];
        let mut left = n;
        while left > 0 {
            let mut st = 0i32;
            let mut ru = [0i64; 18];
            let r = unsafe { wait4(-1, &mut st, 0, &mut ru) };
            assert!(r > 0, "wait");
            let ms = (ru[0] + ru[2]) * 1000 + (ru[1] + ru[3]) / 1000;
            self.stats.slowest_program = self.stats.slowest_program.max(ms as u64);
            let s = match pids.iter().position(|p| *p == r) {
                Some(s) => s,
                None => continue,
            };
            status[s] = st;
            left -= 1;
            let a = self.a();
            a.alive &= !(1 << s);
            if a.powered_off != 0 {
                unsafe { sys::futex_wake(std::ptr::addr_of!(a.turn)) };
            } else if a.turn == s as u32 {
                a.turn = a.pick_next();
                unsafe { sys::futex_wake(std::ptr::addr_of!(a.turn)) };
            }
        }
        let mut o = RunOut::default();
        let a = self.a();
        o.power = a.powered_off != 0;
        let nomem = a.faults[..a.nfault as usize].iter().filter(|f| f.kind == F_NOMEM && f.fired > 0).fold(0u32, |x, f| x | 1 << f.proc_);
        for s in 0..n {
            let p = &a.procs[s];
            let st = status[s];
            let end = if p.killed == 2 || (o.power && p.killed == 0 && st == 137 << 8) {
                End::Power
            } else if p.killed == 1 {
                End::Killed
            } else if p.overrun != 0 {
                End::Overrun
            } else if st & 0x7f == 0 {
                End::Exit(st >> 8 & 0xff)
            } else if st & 0x7f == 24 || st & 0x7f == 9 {
                End::Hang
            } else if st & 0x7f == 6 && nomem & (1 << s) != 0 {
                // without memory a program ends itself on the spot
                End::Killed
            } else {
                End::Signal(st & 0x7f)
            };
            o.noise += p.nshort + p.neintr + p.nspace;
            o.ops.push(p.ops);
            o.allocs.push((p.nalloc, p.nbig));
            o.procs.push(ProcOut { end, stdout: a.std_bytes(s, 1).to_vec(), stderr: a.std_bytes(s, 2).to_vec() });
        }
        for s in 0..n {
            a.reap(s);
        }
        for h in a.hist[..a.nhist as usize].iter() {
            o.hist.push(HistItem {
                step: h.step,
                watch: h.watch as usize,
                by: h.proc_,
                present: h.present != 0,
                mode: h.mode,
                len: h.len,
                hash: h.hash,
            });
        }
        o.opc = a.opc[1.min(a.nopc as usize)..a.nopc as usize].iter().map(|x| (x & 31, x >> 5)).collect();
        o.loghash = a.loghash;
        o.fired = a.faults[..a.nfault as usize].iter().map(|f| (f.fired, f.fired_op)).collect();
        o.ext_done = a.exts.iter().map(|e| e.done != 0).collect();
        o.switches = a.nswitch;
        o.steps = a.step;
        let (nshort, neintr, nspace) = a.procs[..n]
            .iter()
            .fold((0, 0, 0), |x, p| (x.0 + p.nshort as u64, x.1 + p.neintr as u64, x.2 + p.nspace as u64));
        if o.power {
            let before = a.nprobe_crash_unsynced;
            a.recover(plan.keep, plan.recover_seed);
            o.unsynced = a.nprobe_crash_unsynced != before;
        }
        o.overflow = a.overflow != 0;
        o.exposed = a.exposed;
        let (tick, nslow, nclock) = (a.tick + a.leap / 100_000, a.nslow, a.nclock);
        let (ev, names) = if self.trace.is_some() { (self.events(), true) } else { (vec![], false) };
        if names {
            let t = self.trace.as_mut().unwrap();
            for (i, c) in cmds.iter().enumerate() {
                t.push(format!("process {i}: {}", c.join(" ")));
            }
            t.extend(ev);
            for (i, p) in o.procs.iter().enumerate() {
                t.push(format!("process {i} ended: {:?}; stdout {} ; stderr {}", p.end, show(&p.stdout), show(&p.stderr)));
            }
            if o.power {
                t.push("power restored: unsynced state dropped".to_string());
            }
        }
        let st = &mut self.stats;
        st.processes += n as u64;
        st.syscalls += o.steps as u64;
        st.sim_ticks += tick;
        st.add("short transfers", nshort);
        st.add("interrupted calls", neintr);
        st.add("slow calls", nslow);
        st.add("looks at a clock", nclock);
        st.add("space exhausted", nspace);
        st.add("context switches", o.switches as u64);
        if o.unsynced {
            st.add("power loss with unsynced data", 1);
        }
        for (f, p) in o.fired.iter().zip(plan.faults.iter()) {
            if f.0 > 0 {
                // takes nothing
                let zero = if p.kind == F_SHORT && p.arg == 0 { ", zero" } else { "" };
                if p.kind == F_NOMEM {
                    st.add(&format!("fault {}{}", F_NAMES[p.kind as usize], if p.sticky { ", lasting" } else { "" }), 1);
                    continue;
                }
                let op = OP_NAMES[(f.1 as usize).saturating_sub(1).min(15)];
                let e = if p.errno != 0 && p.kind <= F_ERR_AFTER { format!(" {}", errno_name(p.errno)) } else { String::new() };
                st.add(&format!("fault {}{zero} at {op}{e}", F_NAMES[p.kind as usize]), f.0 as u64);
            }
        }
        // a process ended by the wall-clock guard or by something outside the simulation decides nothing
        if o.procs.iter().any(|p| matches!(p.end, End::Signal(14) | End::Signal(15)) || p.end == End::Exit(99)) {
            self.incidents += 1;
            o.overflow = true;
        }
        o
    }

    pub fn events(&mut self) -> Vec<String> {
        let a = self.a();
        let mut v = vec![];
        for e in a.events[..a.nev as usize].iter() {
            let f = if e.fault != 0 { format!("  <{}>", F_NAMES[(e.fault as usize).min(11)]) } else { String::new() };
            let c = if e.count > 1 { format!(" x{}", e.count) } else { String::new() };
            v.push(format!(
                "[{}] p{} {}{} {} arg {:#x} -> {}{}",
                e.step,
                e.proc_,
                OP_NAMES[(e.op as usize).min(15)],
                c,
                String::from_utf8_lossy(&e.name[..e.nlen as usize]),
                e.arg,
                e.res,
                f
            ));
        }
        v
    }

    /// The names the last run created files under, in order.
    pub fn created(&mut self) -> Vec<String> {
        let a = self.a();
        a.events[..a.nev as usize]
            .iter()
            .filter(|e| e.op == OP_CREATE && e.res >= 0 && e.nlen < 40)
            .map(|e| String::from_utf8_lossy(&e.name[..e.nlen as usize]).to_string())
            .collect()
    }

    /// A fault-free run on a machine set up by `setup`, remembered by key.
    pub fn golden(&mut self, key: u64, setup: impl FnOnce(&mut World), cmds: &[Vec<String>]) -> Memo {
        if let Some(m) = self.memo.get(&key) {
            return m.clone();
        }
        setup(self);
        let out = self.run(cmds, &Plan::default());
        let m = Memo { tree: self.tree(), out };
        if self.memo.len() > 64 {
            self.memo.clear();
        }
        self.memo.insert(key, m.clone());
        m
    }
}

pub fn canon(path: &str) -> String {
    let mut v: Vec<&str> = if path.starts_with('/') { vec![] } else { vec!["w"] };
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

pub fn errno_name(e: i32) -> String {
    match e {
        EINTR => "EINTR",
        EIO => "EIO",
        EACCES => "EACCES",
        EPERM => "EPERM",
        ENOENT => "ENOENT",
        ENOSPC => "ENOSPC",
        EXDEV => "EXDEV",
        EMFILE => "EMFILE",
        30 => "EROFS",
        122 => "EDQUOT",
        11 => "EAGAIN",
        32 => "EPIPE",
        27 => "EFBIG",
        12 => "ENOMEM",
        _ => return format!("errno {e}"),
    }
    .to_string()
}

pub fn cmd(parts: &[&str]) -> Vec<String> {
    parts.iter().map(|s| s.to_string()).collect()
}

pub fn key_of(parts: &[&[u8]]) -> u64 {
    let mut h = FNV0;
    for p in parts {
        h = fnv(h, &(p.len() as u64).to_le_bytes());
        h = fnv(h, p);
    }
    h
}
