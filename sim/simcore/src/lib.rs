//! The simulated kernel: an in-memory file system with a durability model, a process scheduler token and
//! a fault plan, all inside one memory region ("arena") shared by the simulator and the simulated processes.
//!
//! Nothing here draws random numbers: every decision is a lookup in the plan (or a hash of the plan's
//! numbers and an operation count), so a run is a pure function of the arena's initial contents.
#![allow(clippy::missing_safety_doc)]

pub mod sys;

pub const MAX_INO: usize = 96;
pub const MAX_DENT: usize = 160;
pub const MAX_J: usize = 512;
pub const MAX_FD: usize = 48;
pub const MAX_PROC: usize = 4;
pub const MAX_FAULT: usize = 32;
pub const MAX_PREEMPT: usize = 128;
pub const MAX_EV: usize = 6000;
pub const MAX_WATCH: usize = 64;
pub const MAX_HIST: usize = 1024;
pub const MAX_OPC: usize = 131072;
pub const NAME: usize = 256;
pub const FD_BASE: i32 = 1000;
pub const ARENA_SIZE: usize = 64 << 20;
pub const NO_TURN: u32 = 0xffff;

pub const K_FILE: u32 = 1;
pub const K_DIR: u32 = 2;
pub const K_LNK: u32 = 3;

// operation classes
pub const OP_OPEN: u8 = 0;
pub const OP_READ: u8 = 1;
pub const OP_WRITE: u8 = 2;
pub const OP_STAT: u8 = 3;
pub const OP_RENAME: u8 = 4;
pub const OP_LINK: u8 = 5;
pub const OP_UNLINK: u8 = 6;
pub const OP_FSYNC: u8 = 7;
pub const OP_CLOSE: u8 = 8;
pub const OP_CHMOD: u8 = 9;
pub const OP_TRUNC: u8 = 10;
pub const OP_SEEK: u8 = 11;
pub const OP_DIR: u8 = 12;
pub const OP_STDOUT: u8 = 13;
pub const OP_STDERR: u8 = 14;
pub const OP_CREATE: u8 = 15;
pub const OP_NAMES: [&str; 16] = [
    "open", "read", "write", "stat", "rename", "link", "unlink", "fsync", "close", "chmod", "truncate", "seek",
    "dir", "stdout", "stderr", "create",
];

// fault kinds
pub const F_ERR: u8 = 1; // the call fails with errno, without effect
pub const F_ERR_AFTER: u8 = 2; // the call takes effect and then reports errno
pub const F_SHORT: u8 = 3; // a read or write transfers at most arg bytes; with arg 0 a write takes nothing
pub const F_KILL_BEFORE: u8 = 4;
pub const F_KILL_AFTER: u8 = 5;
pub const F_KILL_MID: u8 = 6; // write transfers arg per mille of its bytes, then the process dies
pub const F_POWER_BEFORE: u8 = 7;
pub const F_POWER_AFTER: u8 = 8;
pub const F_POWER_MID: u8 = 9;
pub const F_EXT: u8 = 10; // another party performs external action number arg just before the call
pub const F_NOMEM: u8 = 11; // the allocation with ordinal at, among those of at least arg bytes, fails (sticky: and all later ones)
pub const F_NAMES: [&str; 12] = [
    "none", "error", "error-after-effect", "short-transfer", "kill-before", "kill-after", "kill-mid-write",
    "power-before", "power-after", "power-mid-write", "external",
    "out-of-memory",
];

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ENAMETOOLONG: i32 = 36;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;

pub const O_ACCMODE: i32 = 3;
pub const O_WRONLY: i32 = 1;
pub const O_RDWR: i32 = 2;
pub const O_CREAT: i32 = 0o100;
pub const O_EXCL: i32 = 0o200;
pub const O_TRUNC: i32 = 0o1000;
pub const O_APPEND: i32 = 0o2000;
pub const O_DIRECTORY: i32 = 0o200000;
pub const O_NOFOLLOW: i32 = 0o400000;
pub const O_PATH: i32 = 0o10000000;

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Buf {
    pub off: u64,
    pub len: u64,
    pub cap: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Inode {
    pub kind: u32,
    pub mode: u32,
    pub dmode: u32,
    pub nlink: u32,
    pub opens: u32,
    pub dev: u32,
    pub dirty: u32,
    pub made: u32, // by a program, during this run
    pub version: u64,
    pub data: Buf,
    pub dur: Buf,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dent {
    pub used: u32,
    pub dir: u32,
    pub ino: u32,
    pub nlen: u32,
    pub name: [u8; NAME],
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct JOp {
    pub kind: u32, // 1 link, 2 unlink, 3 rename, 4 chmod
    pub dir: u32,
    pub ino: u32,
    pub dir2: u32,
    pub nlen: u32,
    pub nlen2: u32,
    pub name: [u8; NAME],
    pub name2: [u8; NAME],
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fd {
    pub used: u32,
    pub ino: u32,
    pub flags: i32,
    pub desc: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Proc {
    pub fds: [Fd; MAX_FD],
    pub pos: [u64; MAX_FD], // offsets of open descriptions, shared by duplicated descriptors
    pub umask: u32,
    pub fakepid: u32,
    pub ops: u32, // operations performed so far
    pub short_rate: u32,
    pub eintr_rate: u32,
    pub clock_rate: u32,
    pub io_seed: u64,
    pub hash_seed: u64,
    pub stdout_space: i64, // bytes the output still takes, -1 unlimited
    pub killed: u32,
    pub nshort: u32,
    pub neintr: u32,
    pub streak: u32, // interruptions still to come in a row
    pub streaks: u32,
    pub nspace: u32,
    pub hashdraws: u32,
    pub overrun: u32,
    pub nalloc: u32, // allocations, and those of at least BIG bytes
    pub nbig: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Fault {
    pub proc_: u8,
    pub kind: u8,
    pub sticky: u8,
    pub pad: u8,
    pub at: u32,
    pub mask: u32,
    pub errno: i32,
    pub arg: u32,
    pub fired: u32,
    pub fired_op: u32, // class + 1
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Preempt {
    pub step: u32,
    pub target: u32,
    pub fired: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Event {
    pub step: u32,
    pub proc_: u8,
    pub op: u8,
    pub fault: u8,
    pub pad: u8,
    pub res: i64,
    pub arg: u64,
    pub count: u32,
    pub nlen: u32,
    pub name: [u8; 40],
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Watch {
    pub dir: u32,
    pub nlen: u32,
    pub name: [u8; NAME],
    pub last_ino: u32,
    pub last_mode: u32,
    pub last_version: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Hist {
    pub step: u32,
    pub watch: u32,
    pub proc_: u32,
    pub present: u32,
    pub kind: u32,
    pub mode: u32,
    pub ino: u32,
    pub len: u64,
    pub hash: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct ExtAct {
    pub kind: u32, // 1 create exclusively (fails silently if it exists), 2 replace by rename, 3 remove, 4 rewrite in place
    pub path_off: u64,
    pub path_len: u64,
    pub off: u64,
    pub len: u64,
    pub fired: u32,
    pub done: u32,
}

#[repr(C)]
pub struct Arena {
    pub magic: u64,
    pub turn: u32,
    pub alive: u32,
    pub powered_off: u32,
    pub step: u32,
    pub step_cap: u32,
    pub cpu_cap: u32,
    pub overflow: u32, // some table was too small: the run is void
    pub fsync_commits: u32,
    /// error every hard link meets, on a file system without them
    pub nolink: i32,
    pub space_left: i64,
    pub tick: u64,
    pub leap: u64,   // nanoseconds that slow calls have taken
    pub skew: i64,   // seconds by which the calendar clock is wrong
    pub nslow: u64,
    pub nclock: u64, // looks at a clock
    pub loghash: u64,
    pub bump: u64,
    pub ninode: u32,
    pub nj: u32,
    pub jdurable: u32,
    pub nfault: u32,
    pub npreempt: u32,
    pub nev: u32,
    pub nwatch: u32,
    pub nhist: u32,
    pub nopc: u32,
    pub next: u32,
    pub nprobe_crash_unsynced: u32,
    pub nswitch: u32,
    /// permission bits files made during the run had at some instant while they held anything
    pub exposed: u32,
    pub inodes: [Inode; MAX_INO],
    pub dents: [Dent; MAX_DENT],
    pub ddents: [Dent; MAX_DENT],
    pub journal: [JOp; MAX_J],
    pub procs: [Proc; MAX_PROC],
    pub faults: [Fault; MAX_FAULT],
    pub preempts: [Preempt; MAX_PREEMPT],
    pub exts: [ExtAct; 8],
    pub watches: [Watch; MAX_WATCH],
    pub hist: [Hist; MAX_HIST],
    pub opc: [u8; MAX_OPC], // class | proc << 5, by global step
    pub events: [Event; MAX_EV],
}

pub const POOL_OFF: u64 = (core::mem::size_of::<Arena>() as u64 + 4095) & !4095;

pub const BIG: usize = 1024;

pub const ROOT: u32 = 1;
pub const TMP: u32 = 2;
pub const CWD: u32 = 3;

#[derive(Clone, Copy)]
pub struct Act {
    pub err: i32,
    pub err_after: i32,
    pub limit: usize, // transfer limit
    pub die: u8,      // 0 none, 1 kill after, 2 power after
    pub mid: i32,     // >=0: per mille of write before dying
    pub fault: u8,
    pub step: u32,
}

#[derive(Clone, Copy)]
pub struct StatInfo {
    pub ino: u32,
    pub kind: u32,
    pub mode: u32,
    pub size: u64,
    pub dev: u32,
    pub nlink: u32,
    pub version: u64,
}

pub type R<T> = Result<T, i32>;

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

/// How long something takes in nanoseconds, and sometimes by how many seconds the calendar clock is then wrong.
pub fn leap(h: u64) -> (u64, Option<i64>) {
    const MS: u64 = 1_000_000;
    let most = [2 * MS, 50 * MS, 800 * MS, 4_000 * MS, 60_000 * MS, 3_600_000 * MS, 172_800_000 * MS][(h % 7) as usize];
    let skew = match (h >> 8) & 7 {
        0 => Some(-((h >> 16 & 0x3ffff) as i64)),
        1 => Some((h >> 16 & 0x3ffff) as i64),
        _ => None,
    };
    (1 + mix(h) % most, skew)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Arena {
    pub fn base(&self) -> *mut u8 {
        self as *const Arena as *mut u8
    }

    /// Start over: empty file system with "/", "/tmp" (another device) and "/w" (the working directory).
    pub fn reset(&mut self) {
        self.magic = 0x51D05;
        self.turn = NO_TURN;
        self.alive = 0;
        self.powered_off = 0;
        self.overflow = 0;
        self.fsync_commits = 0;
        self.nolink = 0;
        self.space_left = -1;
        self.bump = POOL_OFF;
        self.nj = 0;
        self.jdurable = 0;
        self.ninode = 4;
        self.nprobe_crash_unsynced = 0;
        for d in self.dents.iter_mut() {
            d.used = 0;
        }
        for d in self.ddents.iter_mut() {
            d.used = 0;
        }
        for i in self.inodes.iter_mut() {
            i.kind = 0;
            i.opens = 0;
        }
        for (k, dev) in [(ROOT, 1u32), (TMP, 2), (CWD, 1)] {
            self.inodes[k as usize] = Inode {
                kind: K_DIR,
                mode: 0o755,
                dmode: 0o755,
                nlink: 2,
                opens: 1,
                dev,
                dirty: 0,
                made: 0,
                version: 0,
                data: Buf::default(),
                dur: Buf::default(),
            };
        }
        self.nwatch = 0;
        self.begin_run();
    }

    /// Clear everything that belongs to one run of processes, keeping the file system.
    pub fn begin_run(&mut self) {
        self.turn = NO_TURN;
        self.alive = 0;
        self.powered_off = 0;
        self.step = 0;
        // more than any run needs that reads and writes single bytes and is interrupted twice at each
        let all: u64 = self.inodes[..self.ninode as usize].iter().map(|n| n.data.len).sum();
        self.step_cap = (400_000 + 40 * all).min(20_000_000) as u32;
        self.cpu_cap = 20;
        self.tick = 0;
        self.leap = 0;
        self.skew = 0;
        self.nslow = 0;
        self.nclock = 0;
        self.loghash = FNV0;
        self.nfault = 0;
        self.npreempt = 0;
        self.nev = 0;
        self.nhist = 0;
        self.nopc = 0;
        self.nswitch = 0;
        self.exposed = 0;
        for n in self.inodes.iter_mut() {
            n.made = 0;
        }
        for e in self.exts.iter_mut() {
            *e = ExtAct::default();
        }
        for p in self.procs.iter_mut() {
            for f in p.fds.iter_mut() {
                f.used = 0;
            }
            p.umask = 0o022;
            p.fakepid = 4711;
            p.ops = 0;
            p.short_rate = 0;
            p.eintr_rate = 0;
            p.clock_rate = 0;
            p.io_seed = 0;
            p.hash_seed = 1;
            p.stdout_space = -1;
            p.killed = 0;
            p.nshort = 0;
            p.neintr = 0;
            p.streak = 0;
            p.streaks = 0;
            p.nspace = 0;
            p.hashdraws = 0;
            p.overrun = 0;
            p.nalloc = 0;
            p.nbig = 0;
        }
    }

    // ---------------------------------------------------------------- data buffers
    fn alloc(&mut self, cap: u64) -> u64 {
        let cap = (cap + 15) & !15;
        if self.bump + cap > ARENA_SIZE as u64 {
            self.overflow = 1;
            return POOL_OFF;
        }
        let o = self.bump;
        self.bump += cap;
        o
    }

    pub fn bytes(&self, b: Buf) -> &[u8] {
        if b.len == 0 {
            return &[];
        }
        unsafe { core::slice::from_raw_parts(self.base().add(b.off as usize), b.len as usize) }
    }

    fn buf_from(&mut self, data: &[u8]) -> Buf {
        let cap = (data.len() as u64).max(64);
        let off = self.alloc(cap);
        if self.overflow != 0 {
            return Buf::default();
        }
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), self.base().add(off as usize), data.len()) };
        Buf { off, len: data.len() as u64, cap }
    }

    /// Write into an inode's current data (never into a buffer shared with its durable data).
    fn write_at(&mut self, ino: u32, pos: u64, data: &[u8]) {
        let end = pos + data.len() as u64;
        let n = self.inodes[ino as usize];
        let mut b = n.data;
        let shared = b.off == n.dur.off && b.cap != 0;
        if end > b.cap || shared {
            let cap = (end.max(b.len) * 2).max(256);
            let off = self.alloc(cap);
            if self.overflow != 0 {
                return;
            }
            unsafe {
                core::ptr::copy_nonoverlapping(
                    self.base().add(b.off as usize),
                    self.base().add(off as usize),
                    b.len as usize,
                )
            };
            b.off = off;
            b.cap = cap;
        }
        unsafe {
            if pos > b.len {
                core::ptr::write_bytes(self.base().add((b.off + b.len) as usize), 0, (pos - b.len) as usize);
            }
            core::ptr::copy_nonoverlapping(data.as_ptr(), self.base().add((b.off + pos) as usize), data.len());
        }
        b.len = b.len.max(end);
        let n = &mut self.inodes[ino as usize];
        n.data = b;
        n.dirty = 1;
        n.version += 1;
    }

    fn set_len(&mut self, ino: u32, len: u64) {
        let cur = self.inodes[ino as usize].data.len;
        if len < cur {
            if len == 0 {
                self.inodes[ino as usize].data = Buf::default();
            } else {
                // truncate in a copy if shared with the durable data
                let n = self.inodes[ino as usize];
                if n.data.off == n.dur.off {
                    let d = self.bytes(Buf { off: n.data.off, len, cap: len }).to_vec();
                    let b = self.buf_from(&d);
                    self.inodes[ino as usize].data = b;
                } else {
                    self.inodes[ino as usize].data.len = len;
                }
            }
        } else if len > cur {
            let z = vec![0u8; (len - cur) as usize];
            self.write_at(ino, cur, &z);
        }
        let n = &mut self.inodes[ino as usize];
        n.dirty = 1;
        n.version += 1;
    }

    // ---------------------------------------------------------------- directories
    fn new_inode(&mut self, kind: u32, mode: u32, dev: u32) -> R<u32> {
        for i in 4..MAX_INO {
            if self.inodes[i].kind == 0 {
                if i as u32 >= self.ninode {
                    self.ninode = i as u32 + 1;
                }
                self.inodes[i] = Inode {
                    kind,
                    mode,
                    dmode: mode,
                    nlink: 0,
                    opens: 0,
                    dev,
                    dirty: 0,
                    made: 0,
                    version: 0,
                    data: Buf::default(),
                    dur: Buf::default(),
                };
                return Ok(i as u32);
            }
        }
        self.overflow = 2;
        Err(ENOSPC)
    }

    pub fn find(&self, dir: u32, name: &[u8]) -> Option<usize> {
        self.dents
            .iter()
            .position(|d| d.used != 0 && d.dir == dir && d.nlen as usize == name.len() && &d.name[..name.len()] == name)
    }

    fn lookup1(&self, dir: u32, name: &[u8]) -> Option<u32> {
        self.find(dir, name).map(|i| self.dents[i].ino)
    }

    fn put_dent(tab: &mut [Dent; MAX_DENT], dir: u32, name: &[u8], ino: u32) -> bool {
        for d in tab.iter_mut() {
            if d.used == 0 {
                d.used = 1;
                d.dir = dir;
                d.ino = ino;
                d.nlen = name.len() as u32;
                d.name[..name.len()].copy_from_slice(name);
                return true;
            }
        }
        false
    }

    fn jop(&mut self, kind: u32, dir: u32, name: &[u8], ino: u32, dir2: u32, name2: &[u8]) {
        if self.nj as usize >= MAX_J {
            self.overflow = 3;
            return;
        }
        let j = &mut self.journal[self.nj as usize];
        j.kind = kind;
        j.dir = dir;
        j.ino = ino;
        j.dir2 = dir2;
        j.nlen = name.len() as u32;
        j.nlen2 = name2.len() as u32;
        j.name[..name.len()].copy_from_slice(name);
        j.name2[..name2.len()].copy_from_slice(name2);
        self.nj += 1;
    }

    /// Resolve a path to (directory, final name, inode if it exists).
    fn resolve<'a>(&self, path: &'a [u8], follow: bool, nameb: &mut [u8; NAME]) -> R<(u32, usize, Option<u32>)> {
        self.resolve_from(CWD, path, follow, nameb, 0)
    }

    fn parent_of(&self, dir: u32) -> u32 {
        self.dents.iter().find(|d| d.used != 0 && d.ino == dir).map(|d| d.dir).unwrap_or(ROOT)
    }

    fn resolve_from(
        &self,
        start: u32,
        path: &[u8],
        follow: bool,
        nameb: &mut [u8; NAME],
        depth: u32,
    ) -> R<(u32, usize, Option<u32>)> {
        if depth > 8 {
            return Err(ELOOP);
        }
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut dir = if path[0] == b'/' { ROOT } else { start };
        let mut comps = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).peekable();
        if comps.peek().is_none() {
            nameb[0] = b'.';
            return Ok((dir, 1, Some(dir)));
        }
        let trailing = path[path.len() - 1] == b'/';
        while let Some(c) = comps.next() {
            if c.len() >= NAME {
                return Err(ENAMETOOLONG);
            }
            let last = comps.peek().is_none();
            if self.inodes[dir as usize].kind != K_DIR {
                return Err(ENOTDIR);
            }
            let ino = if c == b"." {
                Some(dir)
            } else if c == b".." {
                Some(if dir == ROOT || dir == TMP || dir == CWD { ROOT } else { self.parent_of(dir) })
            } else if dir == ROOT && c == b"w" {
                Some(CWD)
            } else if dir == ROOT && c == b"tmp" {
                Some(TMP)
            } else {
                self.lookup1(dir, c)
            };
            if let Some(i) = ino {
                if self.inodes[i as usize].kind == K_LNK && (!last || follow || trailing) {
                    let t = self.bytes(self.inodes[i as usize].data).to_vec();
                    let mut nb = [0u8; NAME];
                    let (d2, l2, i2) = self.resolve_from(dir, &t, true, &mut nb, depth + 1)?;
                    if last {
                        nameb[..l2].copy_from_slice(&nb[..l2]);
                        return Ok((d2, l2, i2));
                    }
                    match i2 {
                        Some(x) => {
                            dir = x;
                            continue;
                        }
                        None => return Err(ENOENT),
                    }
                }
            }
            if last {
                if trailing {
                    if let Some(i) = ino {
                        if self.inodes[i as usize].kind != K_DIR {
                            return Err(ENOTDIR);
                        }
                    }
                }
                nameb[..c.len()].copy_from_slice(c);
                return Ok((dir, c.len(), ino));
            }
            match ino {
                Some(i) => dir = i,
                None => return Err(ENOENT),
            }
        }
        Err(ENOENT)
    }

    fn free_if_dead(&mut self, ino: u32) {
        let n = &self.inodes[ino as usize];
        if n.nlink == 0 && n.opens == 0 && n.kind != 0 {
            // keep the inode while uncommitted journal entries may resurrect it
            let j0 = self.jdurable as usize;
            let inj = self.journal[j0..self.nj as usize].iter().any(|j| j.ino == ino || j.kind == 3);
            let ind = self.ddents.iter().any(|d| d.used != 0 && d.ino == ino);
            if !inj && !ind {
                self.inodes[ino as usize].kind = 0;
            }
        }
    }

    // ---------------------------------------------------------------- set-up from the simulator
    pub fn put(&mut self, path: &str, data: &[u8], mode: u32) -> R<u32> {
        let mut nb = [0u8; NAME];
        let (dir, nl, ino) = self.resolve(path.as_bytes(), true, &mut nb)?;
        let ino = match ino {
            Some(i) => i,
            None => {
                let dev = self.inodes[dir as usize].dev;
                let i = self.new_inode(K_FILE, mode, dev)?;
                self.inodes[i as usize].nlink = 1;
                if !Self::put_dent(&mut self.dents, dir, &nb[..nl], i) {
                    self.overflow = 4;
                }
                i
            }
        };
        let b = self.buf_from(data);
        let n = &mut self.inodes[ino as usize];
        n.data = b;
        n.dur = b;
        n.mode = mode;
        n.dmode = mode;
        n.dirty = 0;
        n.version += 1;
        self.make_durable();
        Ok(ino)
    }

    pub fn put_dir(&mut self, path: &str, mode: u32, dev: u32) -> R<u32> {
        let mut nb = [0u8; NAME];
        let (dir, nl, ino) = self.resolve(path.as_bytes(), true, &mut nb)?;
        if ino.is_some() {
            return Err(EEXIST);
        }
        let i = self.new_inode(K_DIR, mode, dev)?;
        self.inodes[i as usize].nlink = 2;
        Self::put_dent(&mut self.dents, dir, &nb[..nl], i);
        self.make_durable();
        Ok(i)
    }

    pub fn remove(&mut self, path: &str) {
        let mut nb = [0u8; NAME];
        if let Ok((dir, nl, Some(_))) = self.resolve(path.as_bytes(), false, &mut nb) {
            if let Some(i) = self.find(dir, &nb[..nl]) {
                let ino = self.dents[i].ino;
                self.dents[i].used = 0;
                self.inodes[ino as usize].nlink = 0;
                self.make_durable();
                self.free_if_dead(ino);
            }
        }
    }

    /// Everything current becomes durable.
    pub fn make_durable(&mut self) {
        self.ddents = self.dents;
        self.nj = 0;
        self.jdurable = 0;
        for i in 1..self.ninode as usize {
            let n = &mut self.inodes[i];
            if n.kind != 0 {
                n.dur = n.data;
                n.dmode = n.mode;
                n.dirty = 0;
            }
        }
    }

    pub fn watch(&mut self, path: &str) -> usize {
        let mut nb = [0u8; NAME];
        if let Ok((dir, nl, _)) = self.resolve(path.as_bytes(), false, &mut nb) {
            let k = self.nwatch as usize;
            if k >= MAX_WATCH {
                self.overflow = 5;
                return 0;
            }
            self.watches[k] =
                Watch { dir, nlen: nl as u32, name: nb, last_ino: 0, last_mode: 0, last_version: 0 };
            self.nwatch += 1;
            self.sync_watch(k);
            return k;
        }
        self.overflow = 6;
        0
    }

    fn sync_watch(&mut self, k: usize) -> bool {
        let w = self.watches[k];
        let ino = self.lookup1(w.dir, &w.name[..w.nlen as usize]).unwrap_or(0);
        let (m, v) = if ino != 0 {
            (self.inodes[ino as usize].mode, self.inodes[ino as usize].version)
        } else {
            (0, 0)
        };
        let changed = ino != w.last_ino || m != w.last_mode || v != w.last_version;
        let w = &mut self.watches[k];
        w.last_ino = ino;
        w.last_mode = m;
        w.last_version = v;
        changed
    }

    pub fn sync_watches(&mut self) {
        for k in 0..self.nwatch as usize {
            self.sync_watch(k);
        }
    }

    /// After a mutation: record the new state of every watched name that changed.
    fn note(&mut self, proc_: usize) {
        for n in self.inodes[4..(self.ninode as usize).max(4)].iter() {
            if n.made != 0 && n.kind == K_FILE && n.data.len > 0 {
                self.exposed |= n.mode;
            }
        }
        for k in 0..self.nwatch as usize {
            if self.sync_watch(k) {
                let ino = self.watches[k].last_ino;
                let mut h = Hist {
                    step: self.step,
                    watch: k as u32,
                    proc_: proc_ as u32,
                    present: (ino != 0) as u32,
                    ..Default::default()
                };
                if ino != 0 {
                    let n = self.inodes[ino as usize];
                    h.kind = n.kind;
                    h.mode = n.mode;
                    h.ino = ino;
                    h.len = n.data.len;
                    h.hash = fnv(FNV0, self.bytes(n.data));
                }
                if (self.nhist as usize) < MAX_HIST {
                    let i = self.nhist as usize;
                    self.hist[i] = h;
                    self.nhist += 1;
                } else {
                    // keep the last slot for the newest state
                    self.hist[MAX_HIST - 1] = h;
                }
            }
        }
    }

    // ---------------------------------------------------------------- crash recovery
    /// Power loss: only `keep` of the pending metadata operations (in order) survive; unsynced data survives
    /// as decided by `seed`.
    pub fn recover(&mut self, keep: u32, seed: u64) {
        let pend = self.nj - self.jdurable;
        let upto = self.jdurable + keep.min(pend);
        let mut tab = self.ddents;
        let mut modes = [0u32; MAX_INO];
        for i in 0..MAX_INO {
            modes[i] = self.inodes[i].dmode;
        }
        fn findt(t: &[Dent; MAX_DENT], dir: u32, name: &[u8]) -> Option<usize> {
            t.iter().position(|d| {
                d.used != 0 && d.dir == dir && d.nlen as usize == name.len() && &d.name[..name.len()] == name
            })
        }
        for k in self.jdurable..upto {
            let j = self.journal[k as usize];
            let n1 = &j.name[..j.nlen as usize];
            let n2 = &j.name2[..j.nlen2 as usize];
            match j.kind {
                1 => {
                    if let Some(i) = findt(&tab, j.dir, n1) {
                        tab[i].used = 0;
                    }
                    Self::put_dent(&mut tab, j.dir, n1, j.ino);
                }
                2 => {
                    if let Some(i) = findt(&tab, j.dir, n1) {
                        tab[i].used = 0;
                    }
                }
                3 => {
                    if let Some(i) = findt(&tab, j.dir, n1) {
                        tab[i].used = 0;
                    }
                    if let Some(i) = findt(&tab, j.dir2, n2) {
                        tab[i].used = 0;
                    }
                    Self::put_dent(&mut tab, j.dir2, n2, j.ino);
                }
                4 => modes[j.ino as usize] = j.dir2,
                _ => {}
            }
        }
        self.dents = tab;
        for i in 4..MAX_INO {
            if self.inodes[i].kind == 0 {
                continue;
            }
            self.inodes[i].opens = 0;
            self.inodes[i].mode = modes[i];
            let links = tab.iter().filter(|d| d.used != 0 && d.ino == i as u32).count() as u32;
            if links == 0 {
                self.inodes[i].kind = 0;
                continue;
            }
            self.inodes[i].nlink = links;
            if self.inodes[i].kind == K_FILE && self.inodes[i].dirty != 0 {
                self.nprobe_crash_unsynced += 1;
                let h = mix(seed ^ (i as u64).wrapping_mul(0x9E37));
                let cur = self.bytes(self.inodes[i].data).to_vec();
                let dur = self.bytes(self.inodes[i].dur).to_vec();
                let cut = if cur.is_empty() { 0 } else { (mix(h) % (cur.len() as u64 + 1)) as usize };
                let v = match h % 6 {
                    0 | 1 => dur,
                    2 => cur[..cut].to_vec(),
                    3 => {
                        let mut v = cur.clone();
                        for x in v[cut..].iter_mut() {
                            *x = 0;
                        }
                        v
                    }
                    4 => {
                        // new data up to the cut, old data behind it
                        let mut v = cur[..cut].to_vec();
                        if dur.len() > cut {
                            v.extend_from_slice(&dur[cut..]);
                        }
                        v
                    }
                    _ => cur,
                };
                let b = self.buf_from(&v);
                self.inodes[i].data = b;
            }
            self.inodes[i].version += 1;
        }
        self.make_durable();
    }

    // ---------------------------------------------------------------- operations
    fn log(&mut self, p: usize, op: u8, fault: u8, res: i64, arg: u64, name: &[u8]) {
        let mut h = self.loghash;
        h = fnv(h, &[p as u8, op, fault]);
        h = fnv(h, &res.to_le_bytes());
        h = fnv(h, &arg.to_le_bytes());
        h = fnv(h, name);
        self.loghash = h;
        let n = self.nev as usize;
        if n > 0 && fault == 0 && (op == OP_READ || op == OP_SEEK) {
            let e = &mut self.events[n - 1];
            if e.proc_ == p as u8 && e.op == op && e.fault == 0 && e.arg == arg && (e.res > 0) == (res > 0) {
                e.count += 1;
                e.res += res;
                return;
            }
        }
        if n < MAX_EV {
            let e = &mut self.events[n];
            e.step = self.step;
            e.proc_ = p as u8;
            e.op = op;
            e.fault = fault;
            e.res = res;
            e.arg = arg;
            e.count = 1;
            let l = name.len().min(40);
            e.nlen = l as u32;
            e.name[..l].copy_from_slice(&name[..l]);
            self.nev += 1;
        }
    }

    /// Which processes may be given the turn.
    pub fn pick_next(&self) -> u32 {
        for s in 0..MAX_PROC as u32 {
            if self.alive & (1 << s) != 0 {
                return s;
            }
        }
        NO_TURN
    }

    /// A slow call, a stalled process, a calendar clock set anew.
    pub fn dawdle(&mut self, p: usize, salt: u64) {
        let q = &self.procs[p];
        if q.clock_rate == 0 {
            return;
        }
        let h = mix(q.io_seed ^ mix(salt ^ 0xc10c));
        // in half of the runs only a few times
        if h & 1023 >= q.clock_rate as u64 || (q.io_seed & 1 == 0 && self.nslow > q.io_seed >> 1 & 3) {
            return;
        }
        self.nslow += 1;
        let (leap, skew) = leap(h >> 10);
        self.leap += leap;
        self.skew = skew.unwrap_or(self.skew);
    }

    /// The time in nanoseconds, by the steady or the calendar clock.
    pub fn time(&mut self, p: usize, calendar: bool) -> u64 {
        self.tick += 1;
        self.nclock += 1;
        self.dawdle(p, self.nclock ^ (1 << 40));
        let ns = self.tick * 100_000 + self.leap;
        if calendar {
            ((1_700_000_000 + self.skew) as u64) * 1_000_000_000 + ns
        } else {
            1_000_000_000_000 + ns
        }
    }

    /// Start of an operation: count it, look up the plan. (Scheduling is done by the caller before this.)
    pub fn enter(&mut self, p: usize, class: u8, bytes: usize) -> Act {
        self.step += 1;
        self.tick += 1;
        let st = self.step as usize;
        if st < MAX_OPC {
            self.opc[st] = class | ((p as u8) << 5);
            self.nopc = st as u32 + 1;
        }
        let ord = self.procs[p].ops;
        self.procs[p].ops += 1;
        self.dawdle(p, ord as u64);
        let mut a =
            Act { err: 0, err_after: 0, limit: usize::MAX, die: 0, mid: -1, fault: 0, step: self.step };
        if self.step > self.step_cap {
            self.procs[p].overrun = 1;
            a.die = 3;
            return a;
        }
        for i in 0..self.nfault as usize {
            let f = self.faults[i];
            if f.proc_ as usize != p || ord < f.at || f.mask & (1 << class) == 0 || (f.fired != 0 && f.sticky == 0) {
                continue;
            }
            let rw = matches!(class, OP_READ | OP_WRITE | OP_STDOUT | OP_STDERR);
            let ok = match f.kind {
                F_SHORT | F_KILL_MID | F_POWER_MID => rw,
                _ => true,
            };
            if !ok {
                continue;
            }
            self.faults[i].fired += 1;
            self.faults[i].fired_op = class as u32 + 1;
            match f.kind {
                F_EXT => {
                    self.external(f.arg as usize, p);
                    continue;
                }
                F_ERR => a.err = f.errno,
                F_ERR_AFTER => a.err_after = f.errno,
                F_SHORT => a.limit = (f.arg as usize).max((class == OP_READ) as usize),
                F_KILL_BEFORE => a.die = 4,
                F_POWER_BEFORE => a.die = 5,
                F_KILL_AFTER => a.die = 1,
                F_POWER_AFTER => a.die = 2,
                F_KILL_MID => {
                    a.mid = f.arg as i32;
                    a.die = 1
                }
                F_POWER_MID => {
                    a.mid = f.arg as i32;
                    a.die = 2
                }
                _ => {}
            }
            a.fault = f.kind;
            break;
        }
        if a.fault == 0 {
            let q = self.procs[p];
            if q.short_rate != 0 || q.eintr_rate != 0 {
                let h = mix(q.io_seed ^ mix(ord as u64));
                match class {
                    OP_READ | OP_WRITE | OP_STDOUT => {
                        if q.streak > 0 {
                            a.err = EINTR;
                            self.procs[p].neintr += 1;
                            self.procs[p].streak -= 1;
                        } else if (h & 1023) < q.eintr_rate as u64 {
                            a.err = EINTR;
                            self.procs[p].neintr += 1;
                            // some calls are interrupted very often
                            if q.io_seed & 7 == 0 && q.streaks < 3 && (h >> 40) & 63 == 0 {
                                self.procs[p].streaks += 1;
                                self.procs[p].streak = 20 + ((h >> 48) & 1023) as u32;
                            }
                        } else if ((h >> 10) & 1023) < q.short_rate as u64 && bytes > 1 {
                            let m = mix(h);
                            // often very short, sometimes just one less
                            let lim = match m & 3 {
                                0 => 1,
                                1 => bytes - 1,
                                2 => 1 + ((m >> 8) % 7) as usize,
                                _ => 1 + ((m >> 8) as usize % bytes),
                            };
                            a.limit = lim.min(bytes);
                            self.procs[p].nshort += 1;
                        }
                    }
                    OP_OPEN | OP_CREATE => {
                        if (h & 1023) < q.eintr_rate as u64 {
                            a.err = EINTR;
                            self.procs[p].neintr += 1;
                        }
                    }
                    _ => {}
                }
            }
        }
        a
    }

    fn external(&mut self, k: usize, p: usize) {
        let e = self.exts[k & 7];
        if e.kind == 0 || e.fired != 0 {
            return;
        }
        self.exts[k & 7].fired = 1;
        let path = self.bytes(Buf { off: e.path_off, len: e.path_len, cap: 0 }).to_vec();
        let data = self.bytes(Buf { off: e.off, len: e.len, cap: 0 }).to_vec();
        let mut nb = [0u8; NAME];
        if let Ok((dir, nl, ino)) = self.resolve(&path, true, &mut nb) {
            let dev = self.inodes[dir as usize].dev;
            let name = &nb[..nl];
            match e.kind {
                1 | 2 => {
                    if ino.is_some() && e.kind == 1 {
                        return;
                    }
                    let i = match self.new_inode(K_FILE, 0o644, dev) {
                        Ok(i) => i,
                        Err(_) => return,
                    };
                    let b = self.buf_from(&data);
                    self.inodes[i as usize].data = b;
                    self.inodes[i as usize].dur = b;
                    self.inodes[i as usize].nlink = 1;
                    if let Some(x) = self.find(dir, name) {
                        let old = self.dents[x].ino;
                        self.dents[x].used = 0;
                        self.inodes[old as usize].nlink -= 1;
                    }
                    Self::put_dent(&mut self.dents, dir, name, i);
                    self.jop(1, dir, name, i, 0, &[]);
                    self.exts[k & 7].done = 1;
                }
                3 => {
                    if let Some(x) = self.find(dir, name) {
                        let old = self.dents[x].ino;
                        self.dents[x].used = 0;
                        self.inodes[old as usize].nlink -= 1;
                        self.jop(2, dir, name, old, 0, &[]);
                        self.exts[k & 7].done = 1;
                    }
                }
                _ => {}
            }
        }
        self.note(MAX_PROC + p);
        self.log(p, OP_DIR, F_EXT, 0, k as u64, &path);
    }

    fn fdp(&mut self, p: usize, fd: i32) -> R<usize> {
        let k = if fd >= FD_BASE { (fd - FD_BASE) as usize } else if fd == 1 { MAX_FD - 2 } else if fd == 2 { MAX_FD - 1 } else { return Err(EBADF) };
        if k < MAX_FD && self.procs[p].fds[k].used != 0 {
            Ok(k)
        } else {
            Err(EBADF)
        }
    }

    pub fn open_std(&mut self, p: usize) {
        for k in [MAX_FD - 2, MAX_FD - 1] {
            if let Ok(i) = self.new_inode(K_FILE, 0o600, 9) {
                self.inodes[i as usize].opens = 1;
                self.procs[p].fds[k] = Fd { used: 1, ino: i, flags: O_WRONLY | O_APPEND, desc: k as u32 };
                self.procs[p].pos[k] = 0;
            }
        }
    }

    pub fn std_bytes(&self, p: usize, which: usize) -> &[u8] {
        let f = self.procs[p].fds[MAX_FD - 3 + which];
        if f.used == 0 {
            return &[];
        }
        self.bytes(self.inodes[f.ino as usize].data)
    }

    /// The process is gone: close what it had open.
    pub fn reap(&mut self, p: usize) {
        for k in 0..MAX_FD {
            let f = self.procs[p].fds[k];
            if f.used != 0 {
                self.procs[p].fds[k].used = 0;
                self.inodes[f.ino as usize].opens = self.inodes[f.ino as usize].opens.saturating_sub(1);
                if k >= MAX_FD - 2 {
                    self.inodes[f.ino as usize].kind = 0;
                } else {
                    self.free_if_dead(f.ino);
                }
            }
        }
    }

    pub fn fd_flags(&mut self, p: usize, fd: i32) -> R<i32> {
        let k = self.fdp(p, fd)?;
        Ok(self.procs[p].fds[k].flags)
    }

    pub fn op_realpath(&mut self, p: usize, a: Act, path: &[u8]) -> R<Vec<u8>> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut nb = [0u8; NAME];
            let (d, l, i) = self.resolve(path, true, &mut nb)?;
            let i = i.ok_or(ENOENT)?;
            if self.inodes[i as usize].kind == K_DIR {
                return Ok(self.dir_path(i));
            }
            let mut v = self.dir_path(d);
            if v.last() != Some(&b'/') {
                v.push(b'/');
            }
            v.extend_from_slice(&nb[..l]);
            Ok(v)
        })();
        self.log(p, OP_STAT, a.fault, r.is_ok() as i64 - 1, 3, path);
        r
    }

    fn dir_path(&self, dir: u32) -> Vec<u8> {
        match dir {
            ROOT => b"/".to_vec(),
            CWD => b"/w".to_vec(),
            TMP => b"/tmp".to_vec(),
            _ => match self.dents.iter().find(|d| d.used != 0 && d.ino == dir) {
                Some(d) => {
                    let mut v = self.dir_path(d.dir);
                    if v.last() != Some(&b'/') {
                        v.push(b'/');
                    }
                    v.extend_from_slice(&d.name[..d.nlen as usize]);
                    v
                }
                None => b"/".to_vec(),
            },
        }
    }

    /// Path of the directory an open descriptor refers to.
    pub fn fd_dir(&self, p: usize, fd: i32) -> R<Vec<u8>> {
        let k = (fd - FD_BASE) as usize;
        if fd < FD_BASE || k >= MAX_FD || self.procs[p].fds[k].used == 0 {
            return Err(EBADF);
        }
        let ino = self.procs[p].fds[k].ino;
        if self.inodes[ino as usize].kind != K_DIR {
            return Err(ENOTDIR);
        }
        if ino > CWD && !self.dents.iter().any(|d| d.used != 0 && d.ino == ino) {
            return Err(ENOENT);
        }
        Ok(self.dir_path(ino))
    }

    pub fn is_create(flags: i32) -> bool {
        flags & O_CREAT != 0
    }

    pub fn op_open(&mut self, p: usize, a: Act, path: &[u8], flags: i32, mode: u32) -> R<i32> {
        let r = self.do_open(p, a, path, flags, mode);
        let class = if Self::is_create(flags) { OP_CREATE } else { OP_OPEN };
        self.log(p, class, if a.fault != 0 { a.fault } else { (a.err != 0) as u8 }, ret(&r), flags as u64, path);
        r
    }

    fn do_open(&mut self, p: usize, a: Act, path: &[u8], flags: i32, mode: u32) -> R<i32> {
        if a.err != 0 {
            return Err(a.err);
        }
        let mut nb = [0u8; NAME];
        let follow = flags & O_NOFOLLOW == 0 && flags & O_EXCL == 0;
        let (dir, nl, ino) = self.resolve(path, follow, &mut nb)?;
        let want_w = flags & O_ACCMODE != 0;
        let slot = (0..MAX_FD - 2).find(|k| self.procs[p].fds[*k].used == 0).ok_or(EMFILE)?;
        let ino = match ino {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                let n = self.inodes[i as usize];
                if n.kind == K_LNK {
                    return Err(ELOOP);
                }
                if n.kind == K_DIR && want_w {
                    return Err(EISDIR);
                }
                if n.kind != K_DIR && flags & O_DIRECTORY != 0 {
                    return Err(ENOTDIR);
                }
                if flags & O_PATH == 0 {
                    if want_w && n.mode & 0o200 == 0 {
                        return Err(EACCES);
                    }
                    if (flags & O_ACCMODE != O_WRONLY) && n.mode & 0o400 == 0 {
                        return Err(EACCES);
                    }
                }
                if flags & O_TRUNC != 0 && want_w {
                    if n.data.len > 0 {
                        self.set_len(i, 0);
                    } else {
                        self.inodes[i as usize].version += 1;
                    }
                    self.drop_ids(i);
                    self.note(p);
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 {
                    return Err(ENOENT);
                }
                if self.inodes[dir as usize].mode & 0o200 == 0 {
                    return Err(EACCES);
                }
                let dev = self.inodes[dir as usize].dev;
                let m = mode & !self.procs[p].umask & 0o7777;
                let i = self.new_inode(K_FILE, m, dev)?;
                self.inodes[i as usize].nlink = 1;
                self.inodes[i as usize].made = 1;
                if !Self::put_dent(&mut self.dents, dir, &nb[..nl], i) {
                    self.overflow = 7;
                }
                self.jop(1, dir, &nb[..nl].to_vec(), i, 0, &[]);
                self.note(p);
                i
            }
        };
        if a.err_after != 0 {
            return Err(a.err_after);
        }
        self.inodes[ino as usize].opens += 1;
        let desc = (0..MAX_FD - 2)
            .find(|d| !self.procs[p].fds.iter().any(|f| f.used != 0 && f.desc as usize == *d))
            .ok_or(EMFILE)?;
        self.procs[p].pos[desc] = 0;
        self.procs[p].fds[slot] = Fd { used: 1, ino, flags, desc: desc as u32 };
        Ok(FD_BASE + slot as i32)
    }

    pub fn op_read(&mut self, p: usize, a: Act, fd: i32, buf: &mut [u8], off: Option<u64>) -> R<usize> {
        let r = self.do_read(p, a, fd, buf, off);
        let ino = self.fdp(p, fd).map(|k| self.procs[p].fds[k].ino as u64).unwrap_or(0);
        let r64 = match &r {
            Ok(v) => *v as i64,
            Err(e) => -(*e as i64),
        };
        self.log(p, OP_READ, if a.fault != 0 { a.fault } else { (a.err != 0) as u8 }, r64, ino, &[]);
        r
    }

    fn do_read(&mut self, p: usize, a: Act, fd: i32, buf: &mut [u8], off: Option<u64>) -> R<usize> {
        if a.err != 0 {
            return Err(a.err);
        }
        let k = self.fdp(p, fd)?;
        let f = self.procs[p].fds[k];
        if f.flags & O_ACCMODE == O_WRONLY {
            return Err(EBADF);
        }
        let n = self.inodes[f.ino as usize];
        if n.kind == K_DIR {
            return Err(EISDIR);
        }
        let pos = off.unwrap_or(self.procs[p].pos[f.desc as usize]);
        let avail = n.data.len.saturating_sub(pos) as usize;
        let cnt = buf.len().min(avail).min(a.limit);
        if cnt > 0 {
            let d = &self.bytes(n.data)[pos as usize..pos as usize + cnt];
            buf[..cnt].copy_from_slice(d);
        }
        if off.is_none() {
            self.procs[p].pos[f.desc as usize] = pos + cnt as u64;
        }
        Ok(cnt)
    }

    pub fn op_write(&mut self, p: usize, a: Act, class: u8, fd: i32, buf: &[u8], off: Option<u64>) -> R<usize> {
        let r = self.do_write(p, a, class, fd, buf, off);
        let r64 = match &r {
            Ok(v) => *v as i64,
            Err(e) => -(*e as i64),
        };
        let ino = self.fdp(p, fd).map(|k| self.procs[p].fds[k].ino as u64).unwrap_or(0);
        self.log(p, class, if a.fault != 0 { a.fault } else { (a.err != 0) as u8 }, r64, ino, &[]);
        r
    }

    fn do_write(&mut self, p: usize, a: Act, class: u8, fd: i32, buf: &[u8], off: Option<u64>) -> R<usize> {
        if a.err != 0 {
            return Err(a.err);
        }
        let k = self.fdp(p, fd)?;
        let f = self.procs[p].fds[k];
        if f.flags & O_ACCMODE == 0 {
            return Err(EBADF);
        }
        let mut cnt = buf.len().min(a.limit);
        if a.mid >= 0 {
            cnt = cnt * (a.mid as usize).min(1000) / 1000;
        }
        let mut pos = off.unwrap_or(self.procs[p].pos[f.desc as usize]);
        if f.flags & O_APPEND != 0 {
            pos = self.inodes[f.ino as usize].data.len;
        }
        if class == OP_STDOUT {
            let sp = self.procs[p].stdout_space;
            if sp >= 0 {
                if sp == 0 && cnt > 0 {
                    self.procs[p].nspace += 1;
                    return Err(ENOSPC);
                }
                cnt = cnt.min(sp as usize);
                self.procs[p].stdout_space = sp - cnt as i64;
            }
        } else if class == OP_WRITE && self.space_left >= 0 {
            let cur = self.inodes[f.ino as usize].data.len;
            let grow = (pos + cnt as u64).saturating_sub(cur);
            if grow > 0 {
                if self.space_left == 0 {
                    self.procs[p].nspace += 1;
                    return Err(ENOSPC);
                }
                let g = grow.min(self.space_left as u64);
                cnt -= (grow - g) as usize;
                self.space_left -= g as i64;
            }
        }
        if cnt > 0 {
            self.write_at(f.ino, pos, &buf[..cnt]);
            self.drop_ids(f.ino);
        }
        if off.is_none() {
            self.procs[p].pos[f.desc as usize] = pos + cnt as u64;
        }
        if class == OP_WRITE {
            self.note(p);
        }
        if a.err_after != 0 {
            return Err(a.err_after);
        }
        Ok(cnt)
    }

    pub fn op_close(&mut self, p: usize, a: Act, fd: i32) -> R<i32> {
        let r = (|| {
            let k = self.fdp(p, fd)?;
            let f = self.procs[p].fds[k];
            self.procs[p].fds[k].used = 0;
            self.inodes[f.ino as usize].opens -= 1;
            self.free_if_dead(f.ino);
            let e = if a.err != 0 { a.err } else { a.err_after };
            if e != 0 {
                return Err(e);
            }
            Ok(0)
        })();
        self.log(p, OP_CLOSE, a.fault, ret(&r), fd as u64, &[]);
        r
    }

    pub fn dup_fd(&mut self, p: usize, fd: i32) -> R<i32> {
        let k = self.fdp(p, fd)?;
        let slot = (0..MAX_FD - 2).find(|k| self.procs[p].fds[*k].used == 0).ok_or(EMFILE)?;
        let f = self.procs[p].fds[k];
        self.procs[p].fds[slot] = f;
        self.inodes[f.ino as usize].opens += 1;
        Ok(FD_BASE + slot as i32)
    }

    pub fn op_seek(&mut self, p: usize, a: Act, fd: i32, off: i64, whence: i32) -> R<i64> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let k = self.fdp(p, fd)?;
            let f = self.procs[p].fds[k];
            let base = match whence {
                0 => 0,
                1 => self.procs[p].pos[f.desc as usize] as i64,
                2 => self.inodes[f.ino as usize].data.len as i64,
                _ => return Err(EINVAL),
            };
            let n = base + off;
            if n < 0 {
                return Err(EINVAL);
            }
            self.procs[p].pos[f.desc as usize] = n as u64;
            Ok(n)
        })();
        self.log(p, OP_SEEK, a.fault, r.unwrap_or(-1), fd as u64, &[]);
        r
    }

    fn info(&self, ino: u32) -> StatInfo {
        let n = self.inodes[ino as usize];
        StatInfo { ino, kind: n.kind, mode: n.mode, size: n.data.len, dev: n.dev, nlink: n.nlink, version: n.version }
    }

    pub fn op_stat(&mut self, p: usize, a: Act, path: &[u8], follow: bool) -> R<StatInfo> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut nb = [0u8; NAME];
            match self.resolve(path, follow, &mut nb)? {
                (_, _, Some(i)) => Ok(self.info(i)),
                _ => Err(ENOENT),
            }
        })();
        let v = match &r {
            Ok(_) => 0,
            Err(e) => -(*e as i64),
        };
        self.log(p, OP_STAT, a.fault, v, follow as u64, path);
        r
    }

    pub fn op_fstat(&mut self, p: usize, a: Act, fd: i32) -> R<StatInfo> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let k = self.fdp(p, fd)?;
            let i = self.procs[p].fds[k].ino;
            Ok(self.info(i))
        })();
        let v = match &r {
            Ok(_) => 0,
            Err(e) => -(*e as i64),
        };
        self.log(p, OP_STAT, a.fault, v, fd as u64, &[]);
        r
    }

    pub fn op_access(&mut self, p: usize, a: Act, path: &[u8], mode: i32) -> R<i32> {
        let s = self.op_stat(p, a, path, true)?;
        if (mode & 2 != 0 && s.mode & 0o200 == 0) || (mode & 4 != 0 && s.mode & 0o400 == 0) {
            return Err(EACCES);
        }
        Ok(0)
    }

    pub fn op_rename(&mut self, p: usize, a: Act, old: &[u8], new: &[u8], flags: u32) -> R<i32> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut n1 = [0u8; NAME];
            let mut n2 = [0u8; NAME];
            let (d1, l1, i1) = self.resolve(old, false, &mut n1)?;
            let i1 = i1.ok_or(ENOENT)?;
            let (d2, l2, i2) = self.resolve(new, false, &mut n2)?;
            if self.inodes[d1 as usize].dev != self.inodes[d2 as usize].dev {
                return Err(EXDEV);
            }
            if self.inodes[d1 as usize].mode & 0o200 == 0 || self.inodes[d2 as usize].mode & 0o200 == 0 {
                return Err(EACCES);
            }
            if flags & 1 != 0 && i2.is_some() {
                return Err(EEXIST);
            }
            if let Some(i2) = i2 {
                if i2 == i1 {
                    return Ok(0);
                }
                let k2 = self.inodes[i2 as usize].kind;
                let k1 = self.inodes[i1 as usize].kind;
                if k2 == K_DIR && k1 != K_DIR {
                    return Err(EISDIR);
                }
                if k2 != K_DIR && k1 == K_DIR {
                    return Err(ENOTDIR);
                }
                if k2 == K_DIR && self.dents.iter().any(|d| d.used != 0 && d.dir == i2) {
                    return Err(ENOTEMPTY);
                }
                if flags & 2 != 0 {
                    return Err(EINVAL); // RENAME_EXCHANGE: not modelled
                }
                let x = self.find(d2, &n2[..l2]).ok_or(ENOENT)?;
                self.dents[x].used = 0;
                self.inodes[i2 as usize].nlink -= 1;
            }
            let x = self.find(d1, &n1[..l1]).ok_or(EINVAL)?;
            self.dents[x].used = 0;
            Self::put_dent(&mut self.dents, d2, &n2[..l2], i1);
            self.jop(3, d1, &n1[..l1], i1, d2, &n2[..l2]);
            self.note(p);
            if a.err_after != 0 {
                return Err(a.err_after);
            }
            Ok(0)
        })();
        let mut nm = [0u8; 40];
        let mut l = 0;
        for part in [old, b">", new] {
            for c in part {
                if l < 40 {
                    nm[l] = *c;
                    l += 1;
                }
            }
        }
        self.log(p, OP_RENAME, a.fault, ret(&r), flags as u64, &nm[..l]);
        r
    }

    pub fn op_link(&mut self, p: usize, a: Act, old: &[u8], new: &[u8]) -> R<i32> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut n1 = [0u8; NAME];
            let mut n2 = [0u8; NAME];
            let (_, _, i1) = self.resolve(old, false, &mut n1)?;
            let i1 = i1.ok_or(ENOENT)?;
            let (d2, l2, i2) = self.resolve(new, false, &mut n2)?;
            if i2.is_some() {
                return Err(EEXIST);
            }
            if self.nolink != 0 {
                return Err(self.nolink);
            }
            if self.inodes[i1 as usize].kind == K_DIR {
                return Err(EPERM);
            }
            if self.inodes[i1 as usize].dev != self.inodes[d2 as usize].dev {
                return Err(EXDEV);
            }
            if self.inodes[d2 as usize].mode & 0o200 == 0 {
                return Err(EACCES);
            }
            self.inodes[i1 as usize].nlink += 1;
            Self::put_dent(&mut self.dents, d2, &n2[..l2], i1);
            self.jop(1, d2, &n2[..l2], i1, 0, &[]);
            self.note(p);
            if a.err_after != 0 {
                return Err(a.err_after);
            }
            Ok(0)
        })();
        self.log(p, OP_LINK, a.fault, ret(&r), 0, new);
        r
    }

    pub fn op_unlink(&mut self, p: usize, a: Act, path: &[u8], rmdir: bool) -> R<i32> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut nb = [0u8; NAME];
            let (d, l, i) = self.resolve(path, false, &mut nb)?;
            let i = i.ok_or(ENOENT)?;
            let isdir = self.inodes[i as usize].kind == K_DIR;
            if isdir != rmdir {
                return Err(if isdir { EISDIR } else { ENOTDIR });
            }
            if isdir && self.dents.iter().any(|x| x.used != 0 && x.dir == i) {
                return Err(ENOTEMPTY);
            }
            if self.inodes[d as usize].mode & 0o200 == 0 {
                return Err(EACCES);
            }
            let x = self.find(d, &nb[..l]).ok_or(EINVAL)?;
            self.dents[x].used = 0;
            self.inodes[i as usize].nlink -= if isdir { 2 } else { 1 };
            self.jop(2, d, &nb[..l], i, 0, &[]);
            self.free_if_dead(i);
            self.note(p);
            if a.err_after != 0 {
                return Err(a.err_after);
            }
            Ok(0)
        })();
        self.log(p, OP_UNLINK, a.fault, ret(&r), rmdir as u64, path);
        r
    }

    pub fn op_mkdir(&mut self, p: usize, a: Act, path: &[u8], mode: u32) -> R<i32> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut nb = [0u8; NAME];
            let (d, l, i) = self.resolve(path, false, &mut nb)?;
            if i.is_some() {
                return Err(EEXIST);
            }
            let dev = self.inodes[d as usize].dev;
            let m = mode & !self.procs[p].umask & 0o7777;
            let i = self.new_inode(K_DIR, m, dev)?;
            self.inodes[i as usize].nlink = 2;
            Self::put_dent(&mut self.dents, d, &nb[..l], i);
            self.jop(1, d, &nb[..l], i, 0, &[]);
            self.note(p);
            Ok(0)
        })();
        self.log(p, OP_DIR, a.fault, ret(&r), mode as u64, path);
        r
    }

    pub fn op_symlink(&mut self, p: usize, a: Act, target: &[u8], path: &[u8]) -> R<i32> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut nb = [0u8; NAME];
            let (d, l, i) = self.resolve(path, false, &mut nb)?;
            if i.is_some() {
                return Err(EEXIST);
            }
            let dev = self.inodes[d as usize].dev;
            let i = self.new_inode(K_LNK, 0o777, dev)?;
            let b = self.buf_from(target);
            self.inodes[i as usize].data = b;
            self.inodes[i as usize].dur = b;
            self.inodes[i as usize].nlink = 1;
            Self::put_dent(&mut self.dents, d, &nb[..l], i);
            self.jop(1, d, &nb[..l], i, 0, &[]);
            self.note(p);
            Ok(0)
        })();
        self.log(p, OP_LINK, a.fault, ret(&r), 1, path);
        r
    }

    pub fn op_readlink(&mut self, p: usize, a: Act, path: &[u8], out: &mut [u8]) -> R<usize> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let mut nb = [0u8; NAME];
            let (_, _, i) = self.resolve(path, false, &mut nb)?;
            let i = i.ok_or(ENOENT)?;
            if self.inodes[i as usize].kind != K_LNK {
                return Err(EINVAL);
            }
            let t = self.bytes(self.inodes[i as usize].data);
            let n = t.len().min(out.len());
            out[..n].copy_from_slice(&t[..n]);
            Ok(n)
        })();
        self.log(p, OP_STAT, a.fault, 0, 2, path);
        r
    }

    pub fn op_fsync(&mut self, p: usize, a: Act, fd: i32) -> R<i32> {
        let r = (|| {
            let k = self.fdp(p, fd)?;
            let ino = self.procs[p].fds[k].ino as usize;
            if a.err != 0 {
                return Err(a.err);
            }
            if self.inodes[ino].kind == K_DIR {
                self.jdurable = self.nj;
                self.commit_journal();
            } else {
                let d = self.inodes[ino].data;
                self.inodes[ino].dur = d;
                self.inodes[ino].dmode = self.inodes[ino].mode;
                self.inodes[ino].dirty = 0;
                if self.fsync_commits != 0 {
                    self.jdurable = self.nj;
                    self.commit_journal();
                }
            }
            if a.err_after != 0 {
                return Err(a.err_after);
            }
            Ok(0)
        })();
        self.log(p, OP_FSYNC, a.fault, ret(&r), fd as u64, &[]);
        r
    }

    fn commit_journal(&mut self) {
        self.ddents = self.dents;
        for i in 4..self.ninode as usize {
            if self.inodes[i].kind != 0 {
                self.inodes[i].dmode = self.inodes[i].mode;
            }
        }
    }

    /// A file written to by an ordinary user loses its set-user-id and set-group-id bits.
    fn drop_ids(&mut self, ino: u32) {
        let n = self.inodes[ino as usize];
        let gone = 0o4000 | if n.mode & 0o010 != 0 { 0o2000 } else { 0 };
        if n.kind == K_FILE && n.mode & gone != 0 {
            self.inodes[ino as usize].mode = n.mode & !gone;
            self.jop(4, 0, &[], ino, n.mode & !gone, &[]);
        }
    }

    pub fn op_chmod_ino(&mut self, p: usize, a: Act, ino: u32, mode: u32) -> R<i32> {
        if a.err != 0 {
            return Err(a.err);
        }
        self.inodes[ino as usize].mode = mode & 0o7777;
        self.jop(4, 0, &[], ino, mode & 0o7777, &[]);
        self.note(p);
        if a.err_after != 0 {
            return Err(a.err_after);
        }
        Ok(0)
    }

    pub fn op_chmod(&mut self, p: usize, a: Act, path: &[u8], mode: u32) -> R<i32> {
        let mut nb = [0u8; NAME];
        let r = match self.resolve(path, true, &mut nb) {
            Ok((_, _, Some(i))) => self.op_chmod_ino(p, a, i, mode),
            Ok(_) => Err(ENOENT),
            Err(e) => Err(e),
        };
        self.log(p, OP_CHMOD, a.fault, ret(&r), mode as u64, path);
        r
    }

    pub fn op_fchmod(&mut self, p: usize, a: Act, fd: i32, mode: u32) -> R<i32> {
        let r = match self.fdp(p, fd) {
            Ok(k) => {
                let i = self.procs[p].fds[k].ino;
                self.op_chmod_ino(p, a, i, mode)
            }
            Err(e) => Err(e),
        };
        self.log(p, OP_CHMOD, a.fault, ret(&r), mode as u64, &[]);
        r
    }

    pub fn op_truncate(&mut self, p: usize, a: Act, path: Option<&[u8]>, fd: i32, len: u64) -> R<i32> {
        let r = (|| {
            if a.err != 0 {
                return Err(a.err);
            }
            let ino = match path {
                Some(path) => {
                    let mut nb = [0u8; NAME];
                    self.resolve(path, true, &mut nb)?.2.ok_or(ENOENT)?
                }
                None => {
                    let k = self.fdp(p, fd)?;
                    self.procs[p].fds[k].ino
                }
            };
            self.set_len(ino, len);
            self.drop_ids(ino);
            self.note(p);
            Ok(0)
        })();
        self.log(p, OP_TRUNC, a.fault, ret(&r), len, path.unwrap_or(&[]));
        r
    }

    /// Names of a directory, for directory streams.
    pub fn list(&self, path: &[u8]) -> R<Vec<(Vec<u8>, u32)>> {
        let mut nb = [0u8; NAME];
        let (_, _, i) = self.resolve(path, true, &mut nb)?;
        let i = i.ok_or(ENOENT)?;
        if self.inodes[i as usize].kind != K_DIR {
            return Err(ENOTDIR);
        }
        let mut v: Vec<(Vec<u8>, u32)> = self
            .dents
            .iter()
            .filter(|d| d.used != 0 && d.dir == i)
            .map(|d| (d.name[..d.nlen as usize].to_vec(), d.ino))
            .collect();
        v.sort();
        Ok(v)
    }
}

fn ret(r: &R<i32>) -> i64 {
    match r {
        Ok(v) => *v as i64,
        Err(e) => -(*e as i64),
    }
}

impl Arena {
    pub fn set_ext(&mut self, i: usize, kind: u32, path: &[u8], data: &[u8]) {
        let p = self.buf_from(path);
        let d = self.buf_from(data);
        self.exts[i] =
            ExtAct { kind, path_off: p.off, path_len: p.len, off: d.off, len: d.len, fired: 0, done: 0 };
    }
}
