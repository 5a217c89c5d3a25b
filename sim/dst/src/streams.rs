//! Simulated streams: every transfer's size, interruption and failure is drawn from the case's seed.
use crate::case::*;
use crate::rng::Rng;
use simcore::{fnv, EIO, ENOSPC, FNV0};
use std::io::{self, ErrorKind, Read, Write};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::OutOfMemory,
];
/// Errors as the operating system reports them.
pub const ERRNOS: &[i32] = &[EIO, ENOSPC, 11, 32, 104, 110, 122, 9, 21, 116, 27, 12];
pub const NERRORS: u64 = (KINDS.len() + ERRNOS.len()) as u64;

fn error(n: i32) -> io::Error {
    let n = n as usize % NERRORS as usize;
    match KINDS.get(n) {
        Some(k) => (*k).into(),
        None => io::Error::from_raw_os_error(ERRNOS[n - KINDS.len()]),
    }
}

/// A failure at a byte position: 0 on a read, 1 on a write, 2 a write that takes nothing.
#[derive(Clone, Copy)]
struct Fail {
    at: usize,
    kind: i32,
    zero: bool,
    sticky: bool,
}

struct Noise {
    rng: Rng,
    short: u64,
    eintr: u64,
    row: u32,
    most: u32,
    streaks: u32,
    count: u64,
    trace: u64,
}

impl Noise {
    fn new(p: &ProcPlan, tag: u64) -> Noise {
        Noise { rng: Rng::new(p.io_seed ^ tag), short: p.short as u64, eintr: p.eintr as u64, row: 0, most: 4, streaks: 0, count: 0, trace: FNV0 }
    }
    fn interrupt(&mut self) -> bool {
        if self.eintr > 0 && self.row == 0 {
            self.most = 4;
            if self.streaks < 2 && self.rng.one_in(40) {
                // interrupted very often
                self.streaks += 1;
                self.most = 20 + self.rng.below(1200) as u32;
            }
        }
        let again = self.most > 4 && self.row > 0;
        if self.eintr > 0 && self.row < self.most && (again || self.rng.below(1000) < self.eintr) {
            self.row += 1;
            self.count += 1;
            self.note(u64::MAX);
            return true;
        }
        self.row = 0;
        false
    }
    fn size(&mut self, n: usize) -> usize {
        let k = if n > 1 && self.short > 0 && self.rng.below(1000) < self.short {
            self.count += 1;
            match self.rng.below(3) {
                0 => 1,
                1 => 1 + self.rng.us(n.min(9)).min(n - 1),
                _ => 1 + self.rng.us(n),
            }
        } else {
            n
        };
        self.note(k as u64);
        k
    }
    fn note(&mut self, k: u64) {
        self.trace = fnv(self.trace, &k.to_le_bytes());
    }
}

fn fail_of(plan: &Plan, write: bool) -> Option<Fail> {
    plan.faults.iter().find(|f| (f.proc >= 1) == write).map(|f| Fail {
        at: f.at as usize,
        kind: f.errno,
        zero: f.proc == 2,
        sticky: f.sticky,
    })
}

pub struct SimReader<'a> {
    data: &'a [u8],
    pos: usize,
    noise: Noise,
    fail: Option<Fail>,
    pub fired: bool,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: &Plan) -> Self {
        SimReader { data, pos: 0, noise: Noise::new(&plan.procs[0], 1), fail: fail_of(plan, false), fired: false }
    }
    pub fn noise(&self) -> u64 {
        self.noise.count
    }
    pub fn trace(&self) -> u64 {
        self.noise.trace
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.noise.interrupt() {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if let Some(f) = self.fail {
            if !self.fired || f.sticky {
                if self.pos >= f.at {
                    self.fired = true;
                    self.noise.note(u64::MAX - 1);
                    return Err(error(f.kind));
                }
                n = n.min(f.at - self.pos);
            }
        }
        if n == 0 {
            return Ok(0);
        }
        let n = self.noise.size(n);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct SimWriter {
    pub out: Vec<u8>,
    noise: Noise,
    fail: Option<Fail>,
    pub fired: bool,
}

impl SimWriter {
    pub fn new(plan: &Plan) -> Self {
        SimWriter { out: vec![], noise: Noise::new(&plan.procs[0], 2), fail: fail_of(plan, true), fired: false }
    }
    pub fn noise(&self) -> u64 {
        self.noise.count
    }
    pub fn trace(&self) -> u64 {
        self.noise.trace
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.noise.interrupt() {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        if let Some(f) = self.fail {
            if !self.fired || f.sticky {
                if self.out.len() >= f.at {
                    self.fired = true;
                    self.noise.note(u64::MAX - 1);
                    return if f.zero { Ok(0) } else { Err(error(f.kind)) };
                }
                n = n.min(f.at - self.out.len());
            }
        }
        let n = self.noise.size(n);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        // what a full device reports at the end it has reported before
        match self.fail {
            Some(f) if self.fired && f.sticky && !f.zero => Err(error(f.kind)),
            _ => Ok(()),
        }
    }
}
