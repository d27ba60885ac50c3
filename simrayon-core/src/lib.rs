//! Simulated rayon-core.
//!
//! Nothing here creates threads. `join`, `scope`, `spawn` and `broadcast` run their tasks on the
//! calling thread in an order drawn from a seeded PRNG (`sim::install`), `FnContext::migrated`
//! (which steers how rayon's iterators split work) and `current_num_threads` (which steers how the
//! ark-* crates chunk work) come from the same seed. Each permutation of task execution that a
//! real pool may produce at task granularity can be produced here; one seed is one execution.
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Control of the simulated scheduler (used by the simulator only).
pub mod sim {
    use super::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Policy {
        /// depth-first, left to right: what a sequential build does
        Sequential,
        /// seeded coin for every task order / steal decision
        Random,
        /// always the right-hand task first: what a thief that steals everything produces
        Reversed,
    }

    #[derive(Clone, Debug, Default)]
    pub struct Counters {
        pub joins: u64,
        pub swapped: u64,
        pub migrated: u64,
        pub scope_tasks: u64,
        /// stolen tasks run on an OS thread of their own (own thread-locals), joined before going on
        pub foreign: u64,
        pub hash: u64,
    }

    pub(crate) struct Sched {
        pub policy: Policy,
        pub state: u64,
        pub threads: usize,
        pub c: Counters,
        pub depth: usize,
        /// how many more stolen tasks may run on an OS thread of their own
        pub foreign_left: u64,
    }

    impl Sched {
        pub(crate) fn next(&mut self) -> u64 {
            self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.state;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub(crate) fn coin(&mut self) -> bool {
            let r = match self.policy {
                Policy::Sequential => false,
                Policy::Reversed => true,
                Policy::Random => self.next() & 1 == 1,
            };
            self.c.hash = (self.c.hash ^ (r as u64 + 1)).wrapping_mul(0x100000001b3);
            r
        }
        pub(crate) fn pick(&mut self, n: usize) -> usize {
            let r = match self.policy {
                Policy::Sequential => 0,
                Policy::Reversed => n - 1,
                Policy::Random => (self.next() % n as u64) as usize,
            };
            self.c.hash = (self.c.hash ^ (r as u64 + 3)).wrapping_mul(0x100000001b3);
            r
        }
    }

    thread_local! {
        pub(crate) static SCHED: RefCell<Sched> = const { RefCell::new(Sched {
            policy: Policy::Sequential, state: 0, threads: 1,
            c: Counters { joins: 0, swapped: 0, migrated: 0, scope_tasks: 0, foreign: 0, hash: 0 }, depth: 0, foreign_left: 0,
        }) };
    }

    /// Install a schedule for this OS thread. `threads` is what `current_num_threads` reports.
    pub fn install(policy: Policy, seed: u64, threads: usize) {
        SCHED.with(|s| {
            *s.borrow_mut() = Sched {
                policy,
                state: seed,
                threads: threads.max(1),
                c: Counters { hash: 0xcbf29ce484222325, ..Default::default() },
                depth: 0,
                foreign_left: 0,
            }
        });
    }

    /// Back to the default (sequential, one thread); returns what happened since `install`.
    pub fn uninstall() -> Counters {
        let c = counters();
        install(Policy::Sequential, 0, 1);
        c
    }

    /// The whole scheduler state, to suspend one schedule while another computation runs.
    #[derive(Clone)]
    pub struct Saved(Policy, u64, usize, Counters, usize, u64);
    pub fn save() -> Saved {
        SCHED.with(|s| {
            let s = s.borrow();
            Saved(s.policy, s.state, s.threads, s.c.clone(), s.depth, s.foreign_left)
        })
    }
    pub fn restore(v: Saved) {
        SCHED.with(|s| {
            *s.borrow_mut() = Sched { policy: v.0, state: v.1, threads: v.2, c: v.3, depth: v.4, foreign_left: v.5 }
        })
    }

    /// Let the next `n` seeded choices of a stolen task run it on an OS thread of its own, so that
    /// thread-local state is that of another worker. Still one task at a time.
    pub fn allow_foreign(n: u64) {
        SCHED.with(|s| s.borrow_mut().foreign_left = n);
    }

    pub fn counters() -> Counters {
        SCHED.with(|s| s.borrow().c.clone())
    }

    pub(crate) fn with<R>(f: impl FnOnce(&mut Sched) -> R) -> R {
        SCHED.with(|s| f(&mut s.borrow_mut()))
    }
}

use sim::with;

pub fn max_num_threads() -> usize {
    0xffff
}
pub fn current_num_threads() -> usize {
    with(|s| s.threads)
}
pub fn current_thread_index() -> Option<usize> {
    with(|s| {
        if s.depth > 0 {
            let n = s.threads;
            Some(s.pick(n))
        } else {
            None
        }
    })
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

struct Depth;
impl Depth {
    fn enter() -> Self {
        with(|s| s.depth += 1);
        Depth
    }
}
impl Drop for Depth {
    fn drop(&mut self) {
        with(|s| s.depth = s.depth.saturating_sub(1));
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let _d = Depth::enter();
    // `stolen`: a thief took B; B then runs first, last or (indistinguishably here) in between.
    let (swap, mig, foreign) = with(|s| {
        s.c.joins += 1;
        let swap = s.coin();
        let mig = if swap { true } else { s.coin() };
        if swap {
            s.c.swapped += 1;
        }
        if mig {
            s.c.migrated += 1;
        }
        let foreign = mig && s.foreign_left > 0 && s.next() % 4 == 0;
        if foreign {
            s.foreign_left -= 1;
            s.c.foreign += 1;
        }
        (swap, mig, foreign)
    });
    let oper_b = |cx: FnContext| if foreign { on_other_thread(move || oper_b(FnContext::new(true))) } else { oper_b(cx) };
    if swap {
        let rb = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(mig))));
        let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
        match (ra, rb) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) => resume_unwind(e),
            (_, Err(e)) => resume_unwind(e),
        }
    } else {
        let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
        let rb = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(mig))));
        match (ra, rb) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) => resume_unwind(e),
            (_, Err(e)) => resume_unwind(e),
        }
    }
}

/// run `f` on a fresh OS thread under the current schedule and wait for it
fn on_other_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let saved = sim::save();
    let (r, back) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                sim::restore(saved);
                let r = catch_unwind(AssertUnwindSafe(f));
                (r, sim::save())
            })
            .expect("thread")
            .join()
            .expect("join")
    });
    sim::restore(back);
    match r {
        Ok(v) => v,
        Err(e) => resume_unwind(e),
    }
}

type ScopeJob<'scope> = Box<dyn FnOnce() + Send + 'scope>;

struct ScopeBase<'scope> {
    queue: Mutex<Vec<ScopeJob<'scope>>>,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
    fifo: bool,
}
impl<'scope> ScopeBase<'scope> {
    fn new(fifo: bool) -> Self {
        ScopeBase { queue: Mutex::new(Vec::new()), panic: Mutex::new(None), fifo }
    }
    fn run(&self, job: ScopeJob<'scope>) {
        with(|s| s.c.scope_tasks += 1);
        if let Err(e) = catch_unwind(AssertUnwindSafe(job)) {
            let mut p = self.panic.lock().unwrap_or_else(|e| e.into_inner());
            if p.is_none() {
                *p = Some(e);
            }
        }
    }
    fn push(&self, job: ScopeJob<'scope>) {
        // a thief may take the task at once, or it may wait until the scope is left
        if with(|s| s.coin()) {
            self.run(job)
        } else {
            self.queue.lock().unwrap_or_else(|e| e.into_inner()).push(job)
        }
    }
    fn drain(&self) {
        loop {
            let job = {
                let mut q = self.queue.lock().unwrap_or_else(|e| e.into_inner());
                if q.is_empty() {
                    break;
                }
                let n = q.len();
                let i = with(|s| s.pick(n));
                // sequential order: LIFO for `scope`, FIFO for `scope_fifo`
                let i = if self.fifo { i } else { n - 1 - i };
                q.remove(i)
            };
            self.run(job);
        }
        if let Some(e) = self.panic.lock().unwrap_or_else(|e| e.into_inner()).take() {
            resume_unwind(e)
        }
    }
}

pub struct Scope<'scope> {
    base: ScopeBase<'scope>,
    _marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope> {
    base: ScopeBase<'scope>,
    _marker: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> *const T {
        self.0
    }
}

macro_rules! scope_impl {
    ($name:ident, $spawn:ident) => {
        impl<'scope> $name<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let p = Ptr(self as *const Self);
                // SAFETY: jobs run before the scope object is dropped (drain), on this thread.
                self.base.push(Box::new(move || body(unsafe { &*p.get() })));
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let p = Ptr(self as *const Self);
                self.base.push(Box::new(move || {
                    let s = unsafe { &*p.get() };
                    run_broadcast(|ctx| body(s, ctx));
                }));
            }
        }
        impl fmt::Debug for $name<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)).finish()
            }
        }
    };
}
scope_impl!(Scope, spawn);
scope_impl!(ScopeFifo, spawn_fifo);

macro_rules! scope_fns {
    ($ty:ident, $scope:ident, $in_place:ident, $fifo:expr) => {
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R + Send,
            R: Send,
        {
            $in_place(op)
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R,
        {
            let _d = Depth::enter();
            let s = $ty { base: ScopeBase::new($fifo), _marker: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.base.drain();
            match r {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            }
        }
    };
}
scope_fns!(Scope, scope, in_place_scope, false);
scope_fns!(ScopeFifo, scope_fifo, in_place_scope_fifo, true);

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    let _d = Depth::enter();
    func()
}
pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}

fn run_broadcast<R>(op: impl Fn(BroadcastContext<'_>) -> R) -> Vec<R> {
    let _d = Depth::enter();
    let n = current_num_threads();
    let mut left: Vec<usize> = (0..n).collect();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    while !left.is_empty() {
        let k = with(|s| s.pick(left.len()));
        let i = left.remove(k);
        out[i] = Some(op(BroadcastContext { index: i, n, _marker: PhantomData }));
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    run_broadcast(op)
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    run_broadcast(op);
}

pub struct ThreadPoolBuildError {
    kind: String,
}
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.kind)
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.kind)
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug, Default)]
pub struct DefaultSpawn;
pub struct CustomSpawn<F>(#[allow(dead_code)] F);

/// A simulated worker thread: never actually run.
pub struct ThreadBuilder {
    name: Option<String>,
    stack_size: Option<usize>,
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn stack_size(&self) -> Option<usize> {
        self.stack_size
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadBuilder").finish()
    }
}

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    threads: usize,
    stack: Option<usize>,
    _s: S,
}
impl fmt::Debug for ThreadPoolBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder").finish()
    }
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { threads: 0, stack: None, _s: DefaultSpawn }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let p = self.build()?;
        Ok(with_pool(&p))
    }
    pub fn spawn_handler<F>(self, spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        ThreadPoolBuilder { threads: self.threads, stack: self.stack, _s: CustomSpawn(spawn) }
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { threads: self.threads })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Err(ThreadPoolBuildError { kind: "The global thread pool has already been initialized.".into() })
    }
    pub fn thread_name<F>(self, _closure: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, _h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
    pub fn exit_handler<H>(self, _h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        self
    }
}

pub struct ThreadPool {
    threads: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").finish()
    }
}
struct Threads(usize);
impl Drop for Threads {
    fn drop(&mut self) {
        let n = self.0;
        with(|s| s.threads = n);
    }
}
impl ThreadPool {
    fn enter(&self) -> Threads {
        let n = self.threads;
        with(|s| {
            let old = s.threads;
            if n > 0 {
                s.threads = n;
            }
            Threads(old)
        })
    }
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let _t = self.enter();
        let _d = Depth::enter();
        op()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        let _t = self.enter();
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        if self.threads > 0 {
            self.threads
        } else {
            current_num_threads()
        }
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        None
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        let _t = self.enter();
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        let _t = self.enter();
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        let _t = self.enter();
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let _t = self.enter();
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let _t = self.enter();
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        let _t = self.enter();
        spawn(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        self.spawn(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        let _t = self.enter();
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        None
    }
    pub fn yield_local(&self) -> Option<Yield> {
        None
    }
}
