//! The simulated operating system: preloaded into the unmodified programs, it answers their libc calls from
//! the arena shared with the simulator, and lets one process run at a time.
#![allow(clippy::missing_safety_doc, non_snake_case)]
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

use simcore::sys::*;
use simcore::*;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, Ordering};

static ARENA: AtomicPtr<Arena> = AtomicPtr::new(std::ptr::null_mut());
static SLOT: AtomicU32 = AtomicU32::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn __libc_memalign(al: usize, n: usize) -> *mut c_void;
}

// Memory: counted, and refused where the plan says so. What the simulation itself needs is neither.

static NOMEM_AT: AtomicU32 = AtomicU32::new(u32::MAX);
static NOMEM_MIN: AtomicU32 = AtomicU32::new(0);
static NOMEM_FAULT: AtomicU32 = AtomicU32::new(0);
static NOMEM_SEEN: AtomicU32 = AtomicU32::new(0);

fn refused(n: usize) -> bool {
    let a = ARENA.load(Ordering::Relaxed);
    if a.is_null() || LOCK.load(Ordering::Relaxed) {
        return false;
    }
    unsafe {
        let p = &mut (*a).procs[SLOT.load(Ordering::Relaxed) as usize];
        p.nalloc += 1;
        p.nbig += (n >= BIG) as u32;
        let at = NOMEM_AT.load(Ordering::Relaxed);
        if at == u32::MAX || n < NOMEM_MIN.load(Ordering::Relaxed) as usize {
            return false;
        }
        let k = NOMEM_SEEN.fetch_add(1, Ordering::Relaxed);
        let f = &mut (*a).faults[NOMEM_FAULT.load(Ordering::Relaxed) as usize];
        if k == at || (k > at && f.sticky != 0) {
            f.fired += 1;
            *__errno_location() = 12;
            return true;
        }
    }
    false
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    if refused(n) {
        return std::ptr::null_mut();
    }
    __libc_malloc(n)
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
    if refused(n.saturating_mul(m)) {
        return std::ptr::null_mut();
    }
    __libc_calloc(n, m)
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    if refused(n) {
        return std::ptr::null_mut();
    }
    __libc_realloc(p, n)
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, al: usize, n: usize) -> c_int {
    if refused(n) {
        return 12;
    }
    *out = __libc_memalign(al, n);
    if (*out).is_null() {
        12
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(al: usize, n: usize) -> *mut c_void {
    if refused(n) {
        return std::ptr::null_mut();
    }
    __libc_memalign(al, n)
}
#[no_mangle]
pub unsafe extern "C" fn memalign(al: usize, n: usize) -> *mut c_void {
    aligned_alloc(al, n)
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(c_int, *const *const c_char, *const *const c_char) = init;

extern "C" fn init(_argc: c_int, _argv: *const *const c_char, envp: *const *const c_char) {
    unsafe {
        let mut e = envp;
        if e.is_null() {
            return;
        }
        while !(*e).is_null() {
            let s = CStr::from_ptr(*e).to_bytes();
            if let Some(v) = s.strip_prefix(b"SIMOS=") {
                let mut nums = [0u32; 2];
                let mut k = 0;
                for &c in v {
                    if c == b',' {
                        k += 1;
                    } else if k < 2 {
                        nums[k] = nums[k] * 10 + (c - b'0') as u32;
                    }
                }
                let a = mmap_shared(nums[0] as i32, ARENA_SIZE) as *mut Arena;
                if a.is_null() || (*a).magic != 0x51D05 {
                    exit_group(99);
                }
                SLOT.store(nums[1], Ordering::Relaxed);
                prlimit(0, (*a).cpu_cap as u64, (*a).cpu_cap as u64 + 2); // RLIMIT_CPU
                prlimit(4, 0, 0); // RLIMIT_CORE
                prlimit(9, 3 << 30, 3 << 30); // RLIMIT_AS
                sc(37, 300, 0, 0, 0, 0, 0); // alarm
                // what might get past the simulation finds itself without privileges
                sc(116, 0, 0, 0, 0, 0, 0); // setgroups
                sc(119, 65534, 65534, 65534, 0, 0, 0); // setresgid
                sc(117, 65534, 65534, 65534, 0, 0, 0); // setresuid
                for i in 0..(*a).nfault as usize {
                    let f = (*a).faults[i];
                    if f.kind == F_NOMEM && f.proc_ as u32 == nums[1] {
                        NOMEM_FAULT.store(i as u32, Ordering::Relaxed);
                        NOMEM_MIN.store(f.arg, Ordering::Relaxed);
                        NOMEM_AT.store(f.at, Ordering::Relaxed);
                    }
                }
                ARENA.store(a, Ordering::SeqCst);
                wait_turn(a, nums[1]);
                return;
            }
            e = e.add(1);
        }
    }
}

unsafe fn wait_turn(a: *mut Arena, me: u32) {
    let t = std::ptr::addr_of!((*a).turn);
    loop {
        if std::ptr::read_volatile(std::ptr::addr_of!((*a).powered_off)) != 0 {
            exit_group(137);
        }
        let v = (*(t as *const AtomicU32)).load(Ordering::SeqCst);
        if v == me {
            return;
        }
        futex_wait(t, v);
    }
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Ordering::Release);
    }
}
fn lock() -> Guard {
    while LOCK.swap(true, Ordering::Acquire) {
        unsafe { sc(24, 0, 0, 0, 0, 0, 0) };
    }
    Guard
}

#[inline]
fn arena() -> Option<(&'static mut Arena, usize)> {
    let a = ARENA.load(Ordering::Relaxed);
    if a.is_null() {
        None
    } else {
        Some((unsafe { &mut *a }, SLOT.load(Ordering::Relaxed) as usize))
    }
}

fn die(a: &mut Arena, p: usize, code: u8) -> ! {
    match code {
        1 | 4 => a.procs[p].killed = 1,
        2 | 5 => {
            a.procs[p].killed = 2;
            a.powered_off = 1;
        }
        _ => {}
    }
    unsafe {
        exit_group(137);
    }
}

/// Scheduling point, then the plan for this operation.
fn begin(a: &mut Arena, p: usize, class: u8, bytes: usize) -> Act {
    unsafe {
        for i in 0..a.npreempt as usize {
            let q = a.preempts[i];
            if q.fired == 0 && q.step <= a.step + 1 {
                a.preempts[i].fired = 1;
                if q.target as usize != p && a.alive & (1 << q.target) != 0 {
                    a.nswitch += 1;
                    let t = std::ptr::addr_of!(a.turn);
                    (*(t as *const AtomicU32)).store(q.target, Ordering::SeqCst);
                    futex_wake(t);
                    wait_turn(a, p as u32);
                }
            }
        }
    }
    let act = a.enter(p, class, bytes);
    if act.die >= 3 {
        die(a, p, act.die);
    }
    act
}

fn end(a: &mut Arena, p: usize, act: Act) {
    if act.die != 0 {
        die(a, p, act.die);
    }
}

fn fail(e: i32) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}

fn out<T>(r: R<T>, f: impl FnOnce(T) -> i64) -> i64 {
    match r {
        Ok(v) => f(v),
        Err(e) => fail(e) as i64,
    }
}

fn raw(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        fail(-r as i32) as i64
    } else {
        r
    }
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

/// Paths the simulator owns: all of them. No call of a simulated process reaches a real file.
fn simpath(_p: &[u8]) -> bool {
    true
}

fn simfd(fd: c_int) -> bool {
    fd >= FD_BASE || fd == 1 || fd == 2
}

const AT_FDCWD: c_int = -100;

macro_rules! simmed {
    ($path:expr) => {
        match arena() {
            Some(x) if simpath($path) => Some(x),
            _ => None,
        }
    };
}

/// The path a call relative to a directory descriptor is about.
fn at(dirfd: c_int, p: &[u8]) -> R<Vec<u8>> {
    if dirfd == AT_FDCWD || (!p.is_empty() && p[0] == b'/') {
        return Ok(p.to_vec());
    }
    match arena() {
        Some((a, s)) => {
            let _g = lock();
            if p.is_empty() {
                return Err(ENOENT);
            }
            let mut v = a.fd_dir(s, dirfd)?;
            if v.last() != Some(&b'/') {
                v.push(b'/');
            }
            v.extend_from_slice(p);
            Ok(v)
        }
        None => Ok(p.to_vec()),
    }
}

/// The same as a C string.
fn at_c(dirfd: c_int, p: *const c_char) -> R<Vec<u8>> {
    let mut v = at(dirfd, unsafe { bytes(p) })?;
    v.push(0);
    Ok(v)
}

macro_rules! try_c {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return fail(e) as _,
        }
    };
}

// ------------------------------------------------------------------ open
unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let class = if Arena::is_create(flags) { OP_CREATE } else { OP_OPEN };
            let act = begin(a, s, class, 0);
            let r = a.op_open(s, act, p, flags, mode);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(257, AT_FDCWD as u64, path as u64, flags as u64, mode as u64, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if dirfd == AT_FDCWD || *path == b'/' as c_char {
        return do_open(path, flags, mode);
    }
    if arena().is_some() {
        let v = try_c!(at_c(dirfd, path));
        return do_open(v.as_ptr() as *const c_char, flags, mode);
    }
    raw(sc(257, dirfd as u64, path as u64, flags as u64, mode as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    openat(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: u32) -> c_int {
    do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: u32) -> c_int {
    creat(path, mode)
}

// ------------------------------------------------------------------ read, write
unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, off: Option<u64>) -> isize {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let act = begin(a, s, OP_READ, n);
            let b: &mut [u8] = if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(buf, n) };
            let r = a.op_read(s, act, fd, b, off);
            end(a, s, act);
            out(r, |v| v as i64) as isize
        }
        _ => raw(match off {
            None => sc(0, fd as u64, buf as u64, n as u64, 0, 0, 0),
            Some(o) => sc(17, fd as u64, buf as u64, n as u64, o, 0, 0),
        }) as isize,
    }
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, off: Option<u64>) -> isize {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let class = match fd {
                1 => OP_STDOUT,
                2 => OP_STDERR,
                _ => OP_WRITE,
            };
            let act = begin(a, s, class, n);
            let b: &[u8] = if n == 0 { &[] } else { std::slice::from_raw_parts(buf, n) };
            let r = a.op_write(s, act, class, fd, b, off);
            end(a, s, act);
            out(r, |v| v as i64) as isize
        }
        _ => raw(match off {
            None => sc(1, fd as u64, buf as u64, n as u64, 0, 0, 0),
            Some(o) => sc(18, fd as u64, buf as u64, n as u64, o, 0, 0),
        }) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut u8, n: usize, o: i64) -> isize {
    do_read(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut u8, n: usize, o: i64) -> isize {
    do_read(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const u8, n: usize, o: i64) -> isize {
    do_write(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const u8, n: usize, o: i64) -> isize {
    do_write(fd, buf, n, Some(o as u64))
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if arena().is_some() && simfd(fd) {
        let mut v = Vec::new();
        for i in 0..n as usize {
            let x = &*iov.add(i);
            if x.len > 0 {
                v.extend_from_slice(std::slice::from_raw_parts(x.base, x.len));
            }
        }
        return do_write(fd, v.as_ptr(), v.len(), None);
    }
    raw(sc(20, fd as u64, iov as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if arena().is_some() && simfd(fd) {
        let total: usize = (0..n as usize).map(|i| (*iov.add(i)).len).sum();
        let mut v = vec![0u8; total];
        let r = do_read(fd, v.as_mut_ptr(), total, None);
        let mut left = r.max(0) as usize;
        let mut pos = 0;
        for i in 0..n as usize {
            let x = &*iov.add(i);
            let c = x.len.min(left);
            std::ptr::copy_nonoverlapping(v.as_ptr().add(pos), x.base, c);
            pos += c;
            left -= c;
        }
        return r;
    }
    raw(sc(19, fd as u64, iov as u64, n as u64, 0, 0, 0)) as isize
}

// ------------------------------------------------------------------ descriptors
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let act = begin(a, s, OP_CLOSE, 0);
            let r = a.op_close(s, act, fd);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        _ => raw(sc(3, fd as u64, 0, 0, 0, 0, 0)) as c_int,
    }
}
unsafe fn do_lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    match arena() {
        Some((_, _)) if fd == 1 || fd == 2 => fail(29) as i64,
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let act = begin(a, s, OP_SEEK, 0);
            let r = a.op_seek(s, act, fd, off, whence);
            end(a, s, act);
            out(r, |v| v)
        }
        _ => raw(sc(8, fd as u64, off as u64, whence as u64, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            out(a.dup_fd(s, fd), |v| v as i64) as c_int
        }
        _ => raw(sc(32, fd as u64, 0, 0, 0, 0, 0)) as c_int,
    }
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            match cmd {
                0 | 1030 => out(a.dup_fd(s, fd), |v| v as i64) as c_int,
                1 => 1,
                2 | 4 => 0,
                3 => match a.fd_flags(s, fd) {
                    Ok(f) => f,
                    Err(e) => fail(e),
                },
                5..=7 | 36..=38 => 0, // record locks: always granted
                _ => fail(EINVAL),
            }
        }
        _ => raw(sc(72, fd as u64, cmd as u64, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: u64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match arena() {
        Some(_) if simfd(fd) => 0,
        _ => raw(sc(73, fd as u64, op as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: u64) -> c_int {
    match arena() {
        Some(_) if simfd(fd) => fail(25),
        _ => raw(sc(16, fd as u64, req, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if arena().is_some() || simfd(fd) {
        fail(25);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize {
    fail(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(_o: c_int, _i: c_int, _off: *mut i64, _n: usize) -> isize {
    fail(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: c_int, _i: c_int, _off: *mut i64, _n: usize) -> isize {
    fail(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize {
    fail(38) as isize
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(_fd: c_int, _o: i64, _l: i64, _a: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: c_int, _o: i64, _l: i64, _a: c_int) -> c_int {
    0
}

// ------------------------------------------------------------------ stat
unsafe fn fill_stat(st: *mut u8, i: StatInfo) {
    std::ptr::write_bytes(st, 0, 144);
    let w64 = |o: usize, v: u64| (st.add(o) as *mut u64).write_unaligned(v);
    let w32 = |o: usize, v: u32| (st.add(o) as *mut u32).write_unaligned(v);
    w64(0, i.dev as u64);
    w64(8, i.ino as u64);
    w64(16, i.nlink as u64);
    w32(24, mode_bits(i));
    w64(48, i.size);
    w64(56, 4096);
    w64(64, i.size.div_ceil(512));
    w64(88, 1_000_000_000 + i.version);
    w64(104, 1_000_000_000 + i.version);
}
fn mode_bits(i: StatInfo) -> u32 {
    (match i.kind {
        K_DIR => 0o040000,
        K_LNK => 0o120000,
        _ => 0o100000,
    }) | i.mode
}
unsafe fn fill_statx(st: *mut u8, i: StatInfo) {
    std::ptr::write_bytes(st, 0, 256);
    let w64 = |o: usize, v: u64| (st.add(o) as *mut u64).write_unaligned(v);
    let w32 = |o: usize, v: u32| (st.add(o) as *mut u32).write_unaligned(v);
    w32(0, 0xfff);
    w32(4, 4096);
    w32(16, i.nlink);
    (st.add(28) as *mut u16).write_unaligned(mode_bits(i) as u16);
    w64(32, i.ino as u64);
    w64(40, i.size);
    w64(48, i.size.div_ceil(512));
    w64(112, 1_000_000_000 + i.version);
    w32(136, 8);
    w32(140, i.dev);
}
unsafe fn stat_path(path: &[u8], follow: bool) -> Option<R<StatInfo>> {
    let (a, s) = simmed!(path)?;
    let _g = lock();
    let act = begin(a, s, OP_STAT, 0);
    let r = a.op_stat(s, act, path, follow);
    end(a, s, act);
    Some(r)
}
unsafe fn stat_fd(fd: c_int) -> Option<R<StatInfo>> {
    let (a, s) = arena()?;
    if !simfd(fd) {
        return None;
    }
    let _g = lock();
    let act = begin(a, s, OP_STAT, 0);
    let r = a.op_fstat(s, act, fd);
    end(a, s, act);
    Some(r)
}
unsafe fn fin(r: R<StatInfo>, st: *mut u8) -> c_int {
    match r {
        Ok(i) => {
            fill_stat(st, i);
            0
        }
        Err(e) => fail(e),
    }
}
unsafe fn c_stat(path: *const c_char, st: *mut u8, follow: bool) -> c_int {
    match stat_path(bytes(path), follow) {
        Some(r) => fin(r, st),
        None => raw(sc(if follow { 4 } else { 6 }, path as u64, st as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut u8) -> c_int {
    c_stat(path, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut u8) -> c_int {
    c_stat(path, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut u8) -> c_int {
    c_stat(path, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut u8) -> c_int {
    c_stat(path, st, false)
}
unsafe fn c_fstat(fd: c_int, st: *mut u8) -> c_int {
    match stat_fd(fd) {
        Some(r) => fin(r, st),
        None => raw(sc(5, fd as u64, st as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut u8) -> c_int {
    c_fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int {
    c_fstat(fd, st)
}
unsafe fn c_fstatat(dirfd: c_int, path: *const c_char, st: *mut u8, flags: c_int) -> c_int {
    let p = bytes(path);
    if p.is_empty() && flags & 0x1000 != 0 {
        return c_fstat(dirfd, st);
    }
    if dirfd == AT_FDCWD || (!p.is_empty() && p[0] == b'/') {
        return c_stat(path, st, flags & 0x100 == 0);
    }
    if arena().is_some() {
        let v = try_c!(at_c(dirfd, path));
        return c_stat(v.as_ptr() as *const c_char, st, flags & 0x100 == 0);
    }
    raw(sc(262, dirfd as u64, path as u64, st as u64, flags as u64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, path: *const c_char, st: *mut u8, flags: c_int) -> c_int {
    c_fstatat(d, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, st: *mut u8, flags: c_int) -> c_int {
    c_fstatat(d, path, st, flags)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut u8) -> c_int {
    if path.is_null() {
        return raw(sc(332, d as u64, 0, flags as u64, mask as u64, st as u64, 0)) as c_int;
    }
    let p = bytes(path);
    let r = if p.is_empty() && flags & 0x1000 != 0 {
        stat_fd(d)
    } else if d == AT_FDCWD || (!p.is_empty() && p[0] == b'/') {
        stat_path(p, flags & 0x100 == 0)
    } else if arena().is_some() {
        let v = try_c!(at(d, p));
        stat_path(&v, flags & 0x100 == 0)
    } else {
        None
    };
    match r {
        Some(Ok(i)) => {
            fill_statx(st, i);
            0
        }
        Some(Err(e)) => fail(e),
        None => raw(sc(332, d as u64, path as u64, flags as u64, mask as u64, st as u64, 0)) as c_int,
    }
}
unsafe fn c_access(d: c_int, path: *const c_char, mode: c_int) -> c_int {
    match arena() {
        Some((a, s)) => {
            let p = try_c!(at(d, bytes(path)));
            let _g = lock();
            let act = begin(a, s, OP_STAT, 0);
            let r = a.op_access(s, act, &p, mode);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(269, d as u64, path as u64, mode as u64, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    c_access(AT_FDCWD, path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, mode: c_int, _f: c_int) -> c_int {
    c_access(d, path, mode)
}

// ------------------------------------------------------------------ names
unsafe fn c_rename(d1: c_int, o: *const c_char, d2: c_int, n: *const c_char, flags: u32) -> c_int {
    match arena() {
        Some((a, s)) => {
            let (o, n) = (try_c!(at(d1, bytes(o))), try_c!(at(d2, bytes(n))));
            let _g = lock();
            let act = begin(a, s, OP_RENAME, 0);
            let r = a.op_rename(s, act, &o, &n, flags);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(316, d1 as u64, o as u64, d2 as u64, n as u64, flags as u64, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(o: *const c_char, n: *const c_char) -> c_int {
    c_rename(AT_FDCWD, o, AT_FDCWD, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, o: *const c_char, d2: c_int, n: *const c_char) -> c_int {
    c_rename(d1, o, d2, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, o: *const c_char, d2: c_int, n: *const c_char, f: u32) -> c_int {
    c_rename(d1, o, d2, n, f)
}
unsafe fn c_link(d1: c_int, o: *const c_char, d2: c_int, n: *const c_char, flags: c_int) -> c_int {
    match arena() {
        Some((a, s)) => {
            let (o, n) = (try_c!(at(d1, bytes(o))), try_c!(at(d2, bytes(n))));
            let _g = lock();
            let act = begin(a, s, OP_LINK, 0);
            let r = a.op_link(s, act, &o, &n);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(265, d1 as u64, o as u64, d2 as u64, n as u64, flags as u64, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(o: *const c_char, n: *const c_char) -> c_int {
    c_link(AT_FDCWD, o, AT_FDCWD, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, o: *const c_char, d2: c_int, n: *const c_char, f: c_int) -> c_int {
    c_link(d1, o, d2, n, f)
}
unsafe fn c_unlink(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    match arena() {
        Some((a, s)) => {
            let p = try_c!(at(d, bytes(path)));
            let _g = lock();
            let act = begin(a, s, OP_UNLINK, 0);
            let r = a.op_unlink(s, act, &p, flags & 0x200 != 0);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(263, d as u64, path as u64, flags as u64, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    c_unlink(AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    c_unlink(d, path, flags)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    c_unlink(AT_FDCWD, path, 0x200)
}
#[no_mangle]
pub unsafe extern "C" fn remove(path: *const c_char) -> c_int {
    c_unlink(AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: u32) -> c_int {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_DIR, 0);
            let r = a.op_mkdir(s, act, p, mode);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(83, path as u64, mode as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, path: *const c_char) -> c_int {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_LINK, 0);
            let r = a.op_symlink(s, act, bytes(t), p);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(88, t as u64, path as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut u8, n: usize) -> isize {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_STAT, 0);
            let r = a.op_readlink(s, act, p, std::slice::from_raw_parts_mut(buf, n));
            end(a, s, act);
            out(r, |v| v as i64) as isize
        }
        None => raw(sc(89, path as u64, buf as u64, n as u64, 0, 0, 0)) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, buf: *mut u8) -> *mut u8 {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_STAT, 0);
            let r = a.op_realpath(s, act, p);
            end(a, s, act);
            match r {
                Ok(v) => {
                    let b = if buf.is_null() { __libc_malloc(4097) as *mut u8 } else { buf };
                    std::ptr::copy_nonoverlapping(v.as_ptr(), b, v.len());
                    *b.add(v.len()) = 0;
                    b
                }
                Err(e) => {
                    fail(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => {
            fail(ENOENT);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    if arena().is_some() {
        if n < 3 {
            fail(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(b"/w\0".as_ptr(), buf, 3);
        return buf;
    }
    let r = sc(79, buf as u64, n as u64, 0, 0, 0, 0);
    if r < 0 {
        fail(-r as i32);
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if arena().is_some() {
        return fail(EACCES);
    }
    raw(sc(80, path as u64, 0, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ sync, modes, sizes
unsafe fn c_fsync(fd: c_int) -> c_int {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let act = begin(a, s, OP_FSYNC, 0);
            let r = a.op_fsync(s, act, fd);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        _ => raw(sc(74, fd as u64, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    c_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    c_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if let Some((a, _)) = arena() {
        let _g = lock();
        a.make_durable();
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: u32) -> c_int {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_CHMOD, 0);
            let r = a.op_chmod(s, act, p, mode);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(90, path as u64, mode as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, path: *const c_char, mode: u32, _f: c_int) -> c_int {
    let v = try_c!(at_c(d, path));
    chmod(v.as_ptr() as *const c_char, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, mode: u32) -> c_int {
    let v = try_c!(at_c(d, path));
    mkdir(v.as_ptr() as *const c_char, mode)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(t: *const c_char, d: c_int, path: *const c_char) -> c_int {
    let v = try_c!(at_c(d, path));
    symlink(t, v.as_ptr() as *const c_char)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, path: *const c_char, buf: *mut u8, n: usize) -> isize {
    let v = try_c!(at_c(d, path));
    readlink(v.as_ptr() as *const c_char, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(_d: c_int, _path: *const c_char, _t: *const c_void, _f: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn futimens(_fd: c_int, _t: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    match arena() {
        Some(_) => fail(95),
        None => raw(sc(285, fd as u64, mode as u64, off as u64, len as u64, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    fallocate(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(_fd: c_int, _off: i64, _len: i64) -> c_int {
    95
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(_fd: c_int, _off: i64, _len: i64) -> c_int {
    95
}
#[no_mangle]
pub unsafe extern "C" fn lchown(path: *const c_char, u: u32, g: u32) -> c_int {
    chown(path, u, g)
}
#[no_mangle]
pub unsafe extern "C" fn fchownat(_d: c_int, path: *const c_char, u: u32, g: u32, _f: c_int) -> c_int {
    chown(path, u, g)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(_fd: c_int) -> *mut c_void {
    fail(38);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    match arena() {
        Some((a, _)) => {
            let _g = lock();
            a.make_durable();
            0
        }
        None => raw(sc(306, fd as u64, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: u32) -> c_int {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let act = begin(a, s, OP_CHMOD, 0);
            let r = a.op_fchmod(s, act, fd, mode);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        _ => raw(sc(91, fd as u64, mode as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, u: u32, g: u32) -> c_int {
    match arena() {
        Some(_) if simfd(fd) => 0,
        _ => raw(sc(93, fd as u64, u as u64, g as u64, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chown(path: *const c_char, u: u32, g: u32) -> c_int {
    match simmed!(bytes(path)) {
        Some(_) => 0,
        None => raw(sc(92, path as u64, u as u64, g as u64, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    match arena() {
        Some((a, s)) if simfd(fd) => {
            let _g = lock();
            let act = begin(a, s, OP_TRUNC, 0);
            let r = a.op_truncate(s, act, None, fd, len as u64);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        _ => raw(sc(77, fd as u64, len as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate(path: *const c_char, len: i64) -> c_int {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_TRUNC, 0);
            let r = a.op_truncate(s, act, Some(p), -1, len as u64);
            end(a, s, act);
            out(r, |v| v as i64) as c_int
        }
        None => raw(sc(76, path as u64, len as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: i64) -> c_int {
    truncate(path, len)
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: u32) -> u32 {
    match arena() {
        Some((a, s)) => {
            let o = a.procs[s].umask;
            a.procs[s].umask = m & 0o777;
            o
        }
        None => raw(sc(95, m as u64, 0, 0, 0, 0, 0)) as u32,
    }
}

// ------------------------------------------------------------------ directory streams
struct Dir {
    fd: c_int,
    items: Vec<(Vec<u8>, u32)>,
    pos: usize,
    ent: [u64; 40],
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let p = bytes(path);
    match simmed!(p) {
        Some((a, s)) => {
            let _g = lock();
            let act = begin(a, s, OP_DIR, 0);
            let r = match act.err {
                0 => a.list(p).and_then(|items| {
                    let quiet = Act { err: 0, err_after: 0, limit: usize::MAX, die: 0, mid: -1, fault: 0, step: act.step };
                    let fd = a.op_open(s, quiet, p, O_DIRECTORY, 0)?;
                    Ok((fd, items))
                }),
                e => Err(e),
            };
            end(a, s, act);
            match r {
                Ok((fd, items)) => Box::into_raw(Box::new(Dir { fd, items, pos: 0, ent: [0; 40] })) as *mut c_void,
                Err(e) => {
                    fail(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => {
            fail(ENOENT);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut Dir)).fd
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut u8 {
    let d = &mut *(d as *mut Dir);
    if d.pos >= d.items.len() {
        return std::ptr::null_mut();
    }
    let (n, ino) = d.items[d.pos].clone();
    d.pos += 1;
    let e = d.ent.as_mut_ptr() as *mut u8;
    std::ptr::write_bytes(e, 0, 320);
    (e as *mut u64).write(ino as u64);
    (e.add(16) as *mut u16).write_unaligned(280);
    *e.add(18) = 0;
    std::ptr::copy_nonoverlapping(n.as_ptr(), e.add(19), n.len());
    e
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut u8 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let d = Box::from_raw(d as *mut Dir);
    close(d.fd)
}

// ------------------------------------------------------------------ identity, randomness, time
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match arena() {
        Some((a, s)) => a.procs[s].fakepid as c_int,
        None => sc(39, 0, 0, 0, 0, 0, 0) as c_int,
    }
}
unsafe fn fill_random(buf: *mut u8, n: usize) -> bool {
    match arena() {
        Some((a, s)) => {
            let _g = lock();
            let q = &mut a.procs[s];
            for i in 0..n {
                if i % 8 == 0 {
                    q.hashdraws += 1;
                }
                *buf.add(i) = (mix(q.hash_seed ^ ((q.hashdraws as u64) << 32)) >> (8 * (i % 8))) as u8;
            }
            true
        }
        None => false,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if fill_random(buf, n) {
        return n as isize;
    }
    raw(sc(318, buf as u64, n as u64, flags as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, n: usize) -> c_int {
    if !fill_random(buf, n) {
        sc(318, buf as u64, n as u64, 0, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut i64) -> c_int {
    match arena() {
        // processor time does not pass while a call is slow
        Some((a, _)) if id == 2 || id == 3 => {
            a.tick += 1;
            a.nclock += 1;
            let ns = a.tick * 100_000;
            *ts = (ns / 1_000_000_000) as i64;
            *ts.add(1) = (ns % 1_000_000_000) as i64;
            0
        }
        Some((a, s)) => {
            let _g = lock();
            let ns = a.time(s, matches!(id, 0 | 5 | 8 | 11));
            *ts = (ns / 1_000_000_000) as i64;
            *ts.add(1) = (ns % 1_000_000_000) as i64;
            0
        }
        None => raw(sc(228, id as u64, ts as u64, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, _z: *mut c_void) -> c_int {
    let mut ts = [0i64; 2];
    clock_gettime(0, ts.as_mut_ptr());
    *tv = ts[0];
    *tv.add(1) = ts[1] / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, ts.as_mut_ptr());
    if !t.is_null() {
        *t = ts[0];
    }
    ts[0]
}
unsafe fn c_sleep(ns: u64) {
    if let Some((a, s)) = arena() {
        let _g = lock();
        a.tick += ns / 100_000;
        let act = begin(a, s, OP_STAT, 0);
        end(a, s, act);
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, _rem: *mut i64) -> c_int {
    c_sleep(*req as u64 * 1_000_000_000 + *req.add(1) as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_id: c_int, _f: c_int, req: *const i64, _rem: *mut i64) -> c_int {
    nanosleep(req, std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    match n {
        318 => getrandom(a as *mut u8, b as usize, c as u32) as c_long,
        316 => c_rename(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as u32) as c_long,
        326 | 275 | 40 => fail(38) as c_long,
        332 => statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut u8) as c_long,
        0 => read(a as c_int, b as *mut u8, c as usize) as c_long,
        1 => write(a as c_int, b as *const u8, c as usize) as c_long,
        2 => do_open(a as *const c_char, b as c_int, c as u32) as c_long,
        3 => close(a as c_int) as c_long,
        39 => getpid() as c_long,
        74 | 75 => c_fsync(a as c_int) as c_long,
        76 => truncate(a as *const c_char, b as i64) as c_long,
        77 => ftruncate(a as c_int, b as i64) as c_long,
        82 => c_rename(AT_FDCWD, a as *const c_char, AT_FDCWD, b as *const c_char, 0) as c_long,
        86 => link(a as *const c_char, b as *const c_char) as c_long,
        87 => unlink(a as *const c_char) as c_long,
        90 => chmod(a as *const c_char, b as u32) as c_long,
        91 => fchmod(a as c_int, b as u32) as c_long,
        257 => openat(a as c_int, b as *const c_char, c as c_int, d as u32) as c_long,
        263 => c_unlink(a as c_int, b as *const c_char, c as c_int) as c_long,
        264 => c_rename(a as c_int, b as *const c_char, c as c_int, d as *const c_char, 0) as c_long,
        265 => c_link(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_int) as c_long,
        // other calls that name files do not exist in the simulated system
        4..=6 | 21 | 59 | 80 | 83..=85 | 88 | 89 | 92 | 94 | 132..=133 | 155..=170 | 235 | 258..=262 | 266..=269
        | 280 | 285 | 322 | 437 | 439 | 452
            if arena().is_some() =>
        {
            fail(38) as c_long
        }
        _ => raw(sc(n, a, b, c, d, e, f)),
    }
}
