//! A stand-in for rayon-core 1.13 whose scheduler belongs to the simulator.
//!
//! Each branch of a `join` is a task. Tasks run on real threads, but exactly one holds the token at any time;
//! at every fork and every end of a task a seeded generator picks which task runs next. With the simulator
//! switched off (threads = 0) everything runs in place, in program order.
use std::any::Any;
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

struct Task {
    go: Condvar,
}

struct State {
    threads: usize, // 0: off
    rng: u64,
    running: u64,
    runnable: Vec<u64>,
    tasks: Vec<(u64, Arc<Task>)>,
    next_id: u64,
    live: usize,
    forks: u64,
    switches: u64,
    trace: u64,
}

static ST: Mutex<State> = Mutex::new(State {
    threads: 0,
    rng: 1,
    running: 0,
    runnable: Vec::new(),
    tasks: Vec::new(),
    next_id: 1,
    live: 0,
    forks: 0,
    switches: 0,
    trace: 0,
});

thread_local! { static ME: Cell<u64> = const { Cell::new(0) }; }

const MAX_LIVE: usize = 48;

fn lock() -> std::sync::MutexGuard<'static, State> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    fn draw(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn task(&self, id: u64) -> Arc<Task> {
        self.tasks.iter().find(|t| t.0 == id).expect("task").1.clone()
    }
    /// Choose who runs next among the runnable tasks and hand over the token.
    fn switch(&mut self) {
        let n = self.runnable.len() as u64;
        let k = (self.draw() % n) as usize;
        let id = self.runnable[k];
        self.trace = (self.trace ^ id).wrapping_mul(0x100000001b3);
        if id != self.running {
            self.switches += 1;
            self.running = id;
            self.task(id).go.notify_all();
        }
    }
}

fn await_turn(mut g: std::sync::MutexGuard<'static, State>, id: u64) -> std::sync::MutexGuard<'static, State> {
    let t = g.task(id);
    while g.running != id {
        g = t.go.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g
}

/// Start a simulated execution: `threads` is what the pool reports, `seed` decides every scheduling choice.
/// The calling thread becomes the root task.
pub fn sim_start(threads: usize, seed: u64) {
    let mut g = lock();
    g.threads = threads;
    g.rng = seed;
    g.running = 1;
    g.runnable = vec![1];
    g.tasks = vec![(1, Arc::new(Task { go: Condvar::new() }))];
    g.next_id = 2;
    g.live = 0;
    g.forks = 0;
    g.switches = 0;
    g.trace = 0xcbf29ce484222325;
    ME.with(|m| m.set(1));
}

/// End it; returns (forks, task switches, hash of the schedule).
pub fn sim_stop() -> (u64, u64, u64) {
    let mut g = lock();
    g.threads = 0;
    ME.with(|m| m.set(0));
    (g.forks, g.switches, g.trace)
}

type Res<T> = Result<T, Box<dyn Any + Send>>;

fn unwrap2<RA, RB>(a: Res<RA>, b: Res<RB>) -> (RA, RB) {
    match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => resume_unwind(e),
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let me = ME.with(|m| m.get());
    let mut g = lock();
    if me == 0 || g.threads == 0 {
        drop(g);
        let ra = catch_unwind(AssertUnwindSafe(a));
        let rb = catch_unwind(AssertUnwindSafe(b));
        return unwrap2(ra, rb);
    }
    g.forks += 1;
    if g.live >= MAX_LIVE || g.threads == 1 {
        // one worker, or enough live tasks: this worker runs both, in either order
        let first = g.threads == 1 || g.draw() & 1 == 0;
        drop(g);
        if first {
            let ra = catch_unwind(AssertUnwindSafe(a));
            let rb = catch_unwind(AssertUnwindSafe(b));
            return unwrap2(ra, rb);
        }
        let rb = catch_unwind(AssertUnwindSafe(b));
        let ra = catch_unwind(AssertUnwindSafe(a));
        return unwrap2(ra, rb);
    }
    let child = g.next_id;
    g.next_id += 1;
    g.live += 1;
    g.tasks.push((child, Arc::new(Task { go: Condvar::new() })));
    g.runnable.push(child);
    drop(g);
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().spawn_scoped(s, move || {
            ME.with(|m| m.set(child));
            drop(await_turn(lock(), child));
            let r = catch_unwind(AssertUnwindSafe(b));
            let mut g = lock();
            g.runnable.retain(|x| *x != child);
            g.tasks.retain(|t| t.0 != child);
            g.live -= 1;
            // the parent waits for us when it is in neither list; it re-enters the list here
            if !g.runnable.contains(&me) {
                g.runnable.push(me);
            }
            g.running = 0;
            g.switch();
            r
        });
        let h = h.unwrap_or_else(|e| {
            eprintln!("simulated rayon: no thread for a task: {e}");
            std::process::abort()
        });
        let mut g = lock();
        g.switch();
        drop(await_turn(g, me));
        let ra = catch_unwind(AssertUnwindSafe(a));
        let mut g = lock();
        while g.tasks.iter().any(|t| t.0 == child) {
            g.runnable.retain(|x| *x != me);
            g.running = 0;
            g.switch();
            g = await_turn(g, me);
        }
        drop(g);
        let rb = h.join().expect("task thread");
        unwrap2(ra, rb)
    })
}

pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (x, y) = {
        let mut g = lock();
        if g.threads <= 1 {
            (false, false)
        } else {
            let d = g.draw();
            (false, d & 1 == 0)
        }
    };
    join(move || a(FnContext { migrated: x }), move || b(FnContext { migrated: y }))
}

pub fn current_num_threads() -> usize {
    let t = lock().threads;
    t.max(1)
}
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_thread_index() -> Option<usize> {
    let me = ME.with(|m| m.get());
    if me == 0 {
        None
    } else {
        Some((me as usize - 1) % current_num_threads())
    }
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let me = ME.with(|m| m.get());
    if me != 0 {
        let mut g = lock();
        if g.threads > 1 {
            g.switch();
            drop(await_turn(g, me));
        }
    }
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident) => {
        pub struct $name<'scope> {
            jobs: Mutex<Vec<Box<dyn FnOnce(&$name<'scope>) + Send + 'scope>>>,
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $name<'scope> {
            fn new() -> Self {
                $name { jobs: Mutex::new(Vec::new()), marker: PhantomData }
            }
            pub fn $spawn<B: FnOnce(&$name<'scope>) + Send + 'scope>(&self, body: B) {
                self.jobs.lock().unwrap().push(Box::new(body));
            }
            pub fn spawn_broadcast<B>(&self, body: B)
            where
                B: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                for i in 0..n {
                    body(self, BroadcastContext { i, n, m: PhantomData });
                }
            }
            fn run(&self) {
                loop {
                    let j = {
                        let mut v = self.jobs.lock().unwrap();
                        if v.is_empty() {
                            return;
                        }
                        let k = {
                            let mut g = lock();
                            if g.threads <= 1 {
                                0
                            } else {
                                (g.draw() % v.len() as u64) as usize
                            }
                        };
                        v.remove(k)
                    };
                    j(self);
                }
            }
        }
        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
    };
}
scope_type!(Scope, spawn);
scope_type!(ScopeFifo, spawn_fifo);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope::new();
    let r = op(&s);
    s.run();
    r
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope_fifo(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo::new();
    let r = op(&s);
    s.run();
    r
}

pub struct BroadcastContext<'a> {
    i: usize,
    n: usize,
    m: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|i| op(BroadcastContext { i, n, m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool error")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug, Default)]
pub struct DefaultSpawn;

#[derive(Debug)]
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    m: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, m: PhantomData }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
}

#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        if self.n > 0 {
            self.n
        } else {
            current_num_threads()
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        op()
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        op()
    }
}
