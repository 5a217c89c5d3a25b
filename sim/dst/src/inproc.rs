//! Running the library inside the simulator's own process: each run on a fresh thread, with seeded hash
//! tables, the simulated worker pool, a processor-time guard and panics caught.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

static HASH_SEED: AtomicU64 = AtomicU64::new(7);
static DRAWS: AtomicU64 = AtomicU64::new(0);

/// The one source of randomness the standard library's hash tables ask.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        let n = DRAWS.fetch_add(1, SeqCst);
        let x = simcore::mix(HASH_SEED.load(SeqCst) ^ simcore::mix(n));
        for b in x.to_le_bytes() {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

static CLOCK: AtomicU64 = AtomicU64::new(0); // 0: the real one, 1: a steady one; else of 1024 looks so many leap
static LOOKS: AtomicU64 = AtomicU64::new(0);
static LEAPT: AtomicU64 = AtomicU64::new(0);
static SKEW: AtomicI64 = AtomicI64::new(0);
thread_local! { static OUTSIDE: Cell<bool> = const { Cell::new(false) }; }

/// This thread is not part of what is simulated.
pub fn outside() {
    OUTSIDE.with(|o| o.set(true));
}

extern "C" {
    fn syscall(n: i64, a: i64, b: *mut i64) -> i64;
}

/// The libraries' clock, should they ever look at one.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    let rate = CLOCK.load(SeqCst);
    if rate == 0 || id == 2 || id == 3 || OUTSIDE.try_with(|o| o.get()).unwrap_or(true) {
        return syscall(228, id as i64, ts) as i32;
    }
    let n = LOOKS.fetch_add(1, SeqCst);
    let h = simcore::mix(HASH_SEED.load(SeqCst) ^ simcore::mix(n ^ 0xc10c));
    if rate > 1 && h & 1023 < rate {
        let (leap, skew) = simcore::leap(h >> 10);
        LEAPT.fetch_add(leap, SeqCst);
        if let Some(s) = skew {
            SKEW.store(s, SeqCst);
        }
    }
    let ns = n * 100_000 + LEAPT.load(SeqCst);
    let base = if matches!(id, 0 | 5 | 8 | 11) { 1_700_000_000 + SKEW.load(SeqCst) } else { 1000 };
    *ts = base + (ns / 1_000_000_000) as i64;
    *ts.add(1) = (ns % 1_000_000_000) as i64;
    0
}

thread_local! { static LAST: RefCell<Option<String>> = const { RefCell::new(None) }; }

/// Every message of the libraries is formed, and goes nowhere.
struct Deaf;

impl log::Log for Deaf {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Nowhere;
        impl std::fmt::Write for Nowhere {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Nowhere, *r.args());
    }
    fn flush(&self) {}
}

pub fn quiet_panics() {
    if log::set_logger(&Deaf).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        let inside = LAST.with(|l| l.borrow().is_some());
        if inside {
            LAST.with(|l| *l.borrow_mut() = Some(m));
        } else {
            eprintln!("{m}");
        }
    }));
}

pub struct Ran<T> {
    pub result: Result<T, String>,
    pub forks: u64,
    pub switches: u64,
    pub trace: u64,
}

pub fn run<T: Send>(hash_seed: u64, threads: usize, sched: u64, f: impl FnOnce() -> T + Send) -> Ran<T> {
    HASH_SEED.store(hash_seed, SeqCst);
    DRAWS.store(0, SeqCst);
    LOOKS.store(0, SeqCst);
    LEAPT.store(0, SeqCst);
    SKEW.store(0, SeqCst);
    CLOCK.store(if hash_seed & 3 == 2 { [4, 40, 400][(hash_seed >> 8) as usize % 3] } else { 1 }, SeqCst);
    let ran = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(s, move || {
                LAST.with(|l| *l.borrow_mut() = Some(String::new()));
                rayon_core::sim_start(threads, sched);
                let r = catch_unwind(AssertUnwindSafe(f));
                let (forks, switches, trace) = rayon_core::sim_stop();
                let result = r.map_err(|_| LAST.with(|l| l.borrow().clone()).unwrap_or_default());
                Ran { result, forks, switches, trace }
            })
            .expect("thread")
            .join()
            .expect("join")
    });
    CLOCK.store(0, SeqCst);
    ran
}
