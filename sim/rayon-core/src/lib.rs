//! A simulated `rayon-core`: the same public API and the same fork-join work-stealing structure as
//! rayon-core 1.13, but with every worker a simulated thread and every queue operation, steal, wait
//! and wake-up a scheduling point of `simrt`.  The real `rayon` crate (all iterator adaptors,
//! `par_bridge` included) is built on top of it unchanged.
#![allow(static_mut_refs)]

use simrt::{ledger, race, Why};
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

type Panic = Box<dyn Any + Send>;

// ------------------------------------------------------------------ jobs and latches

#[derive(Clone, Copy)]
struct JobRef {
    data: *const (),
    exec: unsafe fn(*const ()),
    strand: u32,
    /// whose memory account the job works for
    account: u32,
}
unsafe impl Send for JobRef {}
unsafe impl Sync for JobRef {}

/// Completion flag; `key` identifies it to blocked waiters.
struct Latch {
    set: Cell<bool>,
}
impl Latch {
    fn new() -> Latch {
        Latch { set: Cell::new(false) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    /// After this the owner may return and free the latch: nothing of `self` may be touched any more.
    unsafe fn set(this: *const Latch) {
        simrt::point();
        let key = this as usize;
        (*this).set.set(true);
        simrt::wake_where(|w| matches!(w, Why::Latch(k) | Why::IdleLatch(_, k) if k == key));
    }
    fn probe(&self) -> bool {
        self.set.get()
    }
}

enum JobResult<R> {
    None,
    Ok(R),
    Panic(Panic),
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    result: UnsafeCell<JobResult<R>>,
    latch: Latch,
    strand: Cell<u32>,
}
impl<F, R> StackJob<F, R>
where
    F: FnOnce(bool) -> R,
{
    fn new(f: F) -> Self {
        StackJob {
            f: UnsafeCell::new(Some(f)),
            result: UnsafeCell::new(JobResult::None),
            latch: Latch::new(),
            strand: Cell::new(0),
        }
    }
    fn as_ref(&self) -> JobRef {
        let strand = race::fork(Some(simrt::cur_strand()));
        self.strand.set(strand);
        JobRef { data: self as *const _ as *const (), exec: Self::exec, strand, account: ledger::current() }
    }
    unsafe fn exec(p: *const ()) {
        let this = &*(p as *const Self);
        let f = (*this.f.get()).take().unwrap();
        let r = match catch_unwind(AssertUnwindSafe(|| f(true))) {
            Ok(v) => JobResult::Ok(v),
            Err(e) => JobResult::Panic(e),
        };
        *this.result.get() = r;
        Latch::set(&this.latch);
    }
    /// The owner popped its own job: run it here, still as its own strand.
    unsafe fn run_inline(&self, migrated: bool) -> R {
        let f = (*self.f.get()).take().unwrap();
        let old = simrt::cur_strand();
        simrt::set_strand(self.strand.get());
        let r = catch_unwind(AssertUnwindSafe(|| f(migrated)));
        simrt::set_strand(old);
        race::join(old, self.strand.get());
        match r {
            Ok(v) => v,
            Err(e) => resume_unwind(e),
        }
    }
    unsafe fn into_result(&self) -> R {
        race::join(simrt::cur_strand(), self.strand.get());
        match std::mem::replace(&mut *self.result.get(), JobResult::None) {
            JobResult::Ok(v) => v,
            JobResult::Panic(e) => resume_unwind(e),
            JobResult::None => unreachable!(),
        }
    }
}

struct HeapJob<F> {
    f: F,
}
impl<F: FnOnce()> HeapJob<F> {
    fn push(f: F) -> JobRef {
        let strand = race::fork(Some(simrt::cur_strand()));
        let b = ledger::on(0, || Box::new(HeapJob { f }));
        JobRef { data: Box::into_raw(b) as *const (), exec: Self::exec, strand, account: ledger::current() }
    }
    unsafe fn exec(p: *const ()) {
        let b = Box::from_raw(p as *mut Self);
        (b.f)();
    }
}

// ------------------------------------------------------------------ registry

#[derive(Default)]
pub struct SimStats {
    pub jobs: u64,
    pub steals: u64,
    pub injected: u64,
    pub joins: u64,
    pub inline_joins: u64,
    pub parks: u64,
    pub nested_steals: u64,
}
static mut STATS: SimStats =
    SimStats { jobs: 0, steals: 0, injected: 0, joins: 0, inline_joins: 0, parks: 0, nested_steals: 0 };

struct Registry {
    id: usize,
    n: usize,
    deques: UnsafeCell<Vec<VecDeque<JobRef>>>,
    injector: UnsafeCell<VecDeque<JobRef>>,
    bcast: UnsafeCell<Vec<VecDeque<JobRef>>>,
    terminate: Cell<bool>,
    tids: UnsafeCell<Vec<usize>>,
    breadth_first: bool,
}
unsafe impl Send for Registry {}
unsafe impl Sync for Registry {}

struct Worker {
    reg: Arc<Registry>,
    index: usize,
    depth: Cell<u32>,
}
thread_local! { static WORKER: Cell<*const Worker> = const { Cell::new(std::ptr::null()) }; }
static mut GLOBAL: Option<Arc<Registry>> = None;
static mut GLOBAL_THREADS: usize = 4;
static mut REGS: Vec<Arc<Registry>> = Vec::new();
static mut NEXT_ID: usize = 0;

fn worker() -> Option<&'static Worker> {
    let p = WORKER.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*p })
    }
}

/// Simulation control: start of a run.
pub fn sim_reset(global_threads: usize) {
    unsafe {
        GLOBAL = None;
        GLOBAL_THREADS = global_threads.max(1);
        REGS.clear();
        NEXT_ID = 0;
        STATS = SimStats::default();
    }
}
/// Simulation control: end of a run; all workers exit.  Returns the number of jobs left in queues.
pub fn sim_shutdown() -> usize {
    let mut left = 0;
    unsafe {
        for r in REGS.iter() {
            left += (*r.injector.get()).len() + (*r.deques.get()).iter().map(|d| d.len()).sum::<usize>();
            r.terminate.set(true);
        }
    }
    simrt::wake_where(|w| matches!(w, Why::Idle(_)));
    unsafe {
        for r in REGS.iter() {
            for &t in (*r.tids.get()).iter() {
                simrt::join(t);
            }
        }
        GLOBAL = None;
        REGS.clear();
    }
    left
}
pub fn sim_stats() -> SimStats {
    unsafe { std::mem::take(&mut STATS) }
}

fn new_registry(n: usize, breadth_first: bool) -> Arc<Registry> {
    ledger::on(0, || make_registry(n, breadth_first))
}
fn make_registry(n: usize, breadth_first: bool) -> Arc<Registry> {
    let id = unsafe {
        NEXT_ID += 1;
        NEXT_ID
    };
    let r = Arc::new(Registry {
        id,
        n,
        deques: UnsafeCell::new((0..n).map(|_| VecDeque::new()).collect()),
        injector: UnsafeCell::new(VecDeque::new()),
        bcast: UnsafeCell::new((0..n).map(|_| VecDeque::new()).collect()),
        terminate: Cell::new(false),
        tids: UnsafeCell::new(vec![]),
        breadth_first,
    });
    unsafe { REGS.push(r.clone()) };
    for i in 0..n {
        let rr = r.clone();
        let t = simrt::spawn(&format!("pool{}-worker{}", id, i), Box::new(move || worker_main(rr, i)));
        unsafe { (*r.tids.get()).push(t) };
    }
    r
}

fn global() -> Arc<Registry> {
    unsafe {
        if GLOBAL.is_none() {
            assert!(simrt::in_sim(), "rayon used outside the simulation");
            GLOBAL = Some(new_registry(GLOBAL_THREADS, false));
        }
        GLOBAL.clone().unwrap()
    }
}
fn current_registry() -> Arc<Registry> {
    match worker() {
        Some(w) => w.reg.clone(),
        None => global(),
    }
}

fn worker_main(reg: Arc<Registry>, index: usize) {
    let w = Worker { reg, index, depth: Cell::new(0) };
    WORKER.with(|c| c.set(&w));
    loop {
        simrt::point();
        if let Some(j) = w.find_work() {
            w.execute(j);
        } else if w.reg.terminate.get() {
            break;
        } else {
            unsafe { STATS.parks += 1 };
            simrt::block(Why::Idle(w.reg.id));
        }
    }
    WORKER.with(|c| c.set(std::ptr::null()));
}

impl Registry {
    fn notify(&self) {
        let id = self.id;
        simrt::wake_where(|w| matches!(w, Why::Idle(k) | Why::IdleLatch(k, _) if k == id));
    }
    fn inject(&self, j: JobRef) {
        simrt::point();
        unsafe {
            STATS.injected += 1;
            ledger::on(0, || (*self.injector.get()).push_back(j));
        }
        self.notify();
    }
    /// Runs `op` on a worker of this registry.
    fn in_worker<R: Send>(self: &Arc<Self>, op: impl FnOnce(&Worker, bool) -> R + Send) -> R {
        match worker() {
            Some(w) if w.reg.id == self.id => op(w, false),
            Some(w) => {
                // from a worker of another pool: inject there, keep serving the own pool meanwhile
                let job = StackJob::new(|_| op(worker().unwrap(), true));
                self.inject(job.as_ref());
                w.wait_until(&job.latch);
                unsafe { job.into_result() }
            }
            None => {
                let job = StackJob::new(|_| op(worker().unwrap(), true));
                self.inject(job.as_ref());
                while !job.latch.probe() {
                    simrt::block(Why::Latch(job.latch.key()));
                }
                unsafe { job.into_result() }
            }
        }
    }
}

impl Worker {
    fn deque(&self, i: usize) -> &mut VecDeque<JobRef> {
        unsafe { &mut (&mut *self.reg.deques.get())[i] }
    }
    fn push(&self, j: JobRef) {
        simrt::point();
        ledger::on(0, || self.deque(self.index).push_back(j));
        self.reg.notify();
    }
    fn push_fifo(&self, j: JobRef) {
        simrt::point();
        ledger::on(0, || self.deque(self.index).push_front(j));
        self.reg.notify();
    }
    fn pop(&self) -> Option<JobRef> {
        simrt::point();
        if self.reg.breadth_first {
            self.deque(self.index).pop_front()
        } else {
            self.deque(self.index).pop_back()
        }
    }
    fn find_work(&self) -> Option<JobRef> {
        if let Some(j) = unsafe { (&mut *self.reg.bcast.get())[self.index].pop_front() } {
            return Some(j);
        }
        if let Some(j) = self.pop() {
            return Some(j);
        }
        let n = self.reg.n;
        simrt::point();
        // candidates: other workers' queues, then the injector
        let victims: Vec<usize> = ledger::on(0, || (0..n).filter(|&i| i != self.index && !self.deque(i).is_empty()).collect());
        if !victims.is_empty() {
            let v = victims[simrt::choose(victims.len() as u64) as usize];
            unsafe {
                STATS.steals += 1;
                if self.depth.get() > 0 {
                    STATS.nested_steals += 1;
                }
            }
            return self.deque(v).pop_front();
        }
        unsafe { (&mut *self.reg.injector.get()).pop_front() }
    }
    fn execute(&self, j: JobRef) {
        unsafe { STATS.jobs += 1 };
        let old = simrt::cur_strand();
        simrt::set_strand(j.strand);
        self.depth.set(self.depth.get() + 1);
        simrt::point();
        ledger::on(j.account, || unsafe { (j.exec)(j.data) });
        self.depth.set(self.depth.get() - 1);
        simrt::set_strand(old);
    }
    fn wait_until(&self, l: &Latch) {
        while !l.probe() {
            if let Some(j) = self.find_work() {
                self.execute(j);
                continue;
            }
            if l.probe() {
                break;
            }
            unsafe { STATS.parks += 1 };
            simrt::block(Why::IdleLatch(self.reg.id, l.key()));
        }
    }
    fn wait_cond(&self, key: usize, done: impl Fn() -> bool) {
        while !done() {
            if let Some(j) = self.find_work() {
                self.execute(j);
                continue;
            }
            if done() {
                break;
            }
            simrt::block(Why::IdleLatch(self.reg.id, key));
        }
    }
}

// ------------------------------------------------------------------ join

pub struct FnContext {
    migrated: bool,
    _p: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _p: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| a(), move |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !simrt::in_sim() {
        let x = a(FnContext::new(false));
        return (x, b(FnContext::new(false)));
    }
    current_registry().in_worker(move |w, injected| {
        unsafe { STATS.joins += 1 };
        let jb = StackJob::new(move |migrated| b(FnContext::new(migrated)));
        let jref = jb.as_ref();
        w.push(jref);
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected))));
        let ra = match ra {
            Ok(v) => v,
            Err(e) => {
                // b must not outlive this frame
                w.wait_until(&jb.latch);
                race::join(simrt::cur_strand(), jb.strand.get());
                resume_unwind(e)
            }
        };
        while !jb.latch.probe() {
            match w.pop() {
                Some(j) if j.data == jref.data => {
                    unsafe { STATS.inline_joins += 1 };
                    let rb = unsafe { jb.run_inline(injected) };
                    return (ra, rb);
                }
                Some(j) => w.execute(j),
                None => {
                    w.wait_until(&jb.latch);
                    break;
                }
            }
        }
        (ra, unsafe { jb.into_result() })
    })
}

// ------------------------------------------------------------------ scopes

struct ScopeBase {
    reg: Arc<Registry>,
    pending: Cell<usize>,
    panic: UnsafeCell<Option<Panic>>,
    strands: UnsafeCell<Vec<u32>>,
}
impl ScopeBase {
    fn new(reg: Arc<Registry>) -> Arc<ScopeBase> {
        ledger::on(0, || Arc::new(ScopeBase { reg, pending: Cell::new(1), panic: UnsafeCell::new(None), strands: UnsafeCell::new(vec![]) }))
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn finish(&self) {
        simrt::point();
        self.pending.set(self.pending.get() - 1);
        if self.pending.get() == 0 {
            let k = self.key();
            simrt::wake_where(|w| matches!(w, Why::Latch(x) | Why::IdleLatch(_, x) if x == k));
        }
    }
    fn record(&self, e: Panic) {
        unsafe {
            let p = &mut *self.panic.get();
            if p.is_none() {
                *p = Some(e);
            }
        }
    }
    fn complete<R>(&self, r: Result<R, Panic>) -> R {
        let r = match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.record(e);
                None
            }
        };
        self.finish();
        match worker() {
            Some(w) => w.wait_cond(self.key(), || self.pending.get() == 0),
            None => {
                while self.pending.get() != 0 {
                    simrt::block(Why::Latch(self.key()));
                }
            }
        }
        let me = simrt::cur_strand();
        for &s in unsafe { (*self.strands.get()).iter() } {
            race::join(me, s);
        }
        if let Some(e) = unsafe { (*self.panic.get()).take() } {
            resume_unwind(e);
        }
        r.unwrap()
    }
    fn spawn_job(self: &Arc<Self>, fifo: bool, f: impl FnOnce()) {
        self.pending.set(self.pending.get() + 1);
        let base = self.clone();
        let j = HeapJob::push(move || {
            if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
                base.record(e);
            }
            base.finish();
        });
        ledger::on(0, || unsafe { (*self.strands.get()).push(j.strand) });
        match worker() {
            Some(w) if w.reg.id == self.reg.id => {
                if fifo {
                    w.push_fifo(j)
                } else {
                    w.push(j)
                }
            }
            _ => self.reg.inject(j),
        }
    }
}

macro_rules! scope_type {
    ($name:ident, $fifo:expr, $spawn:ident) => {
        pub struct $name<'scope> {
            base: Arc<ScopeBase>,
            #[allow(clippy::type_complexity)]
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl<'s> Send for $name<'s> {}
        unsafe impl<'s> Sync for $name<'s> {}
        impl<'scope> $name<'scope> {
            fn with(base: Arc<ScopeBase>) -> Self {
                $name { base, marker: PhantomData }
            }
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let base = self.base.clone();
                self.base.spawn_job($fifo, move || {
                    let s = $name::with(base);
                    body(&s)
                });
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let body = Arc::new(body);
                let n = self.base.reg.n;
                for i in 0..n {
                    let base = self.base.clone();
                    let body = body.clone();
                    base.pending.set(base.pending.get() + 1);
                    let b2 = base.clone();
                    let j = HeapJob::push(move || {
                        let s = $name::with(b2.clone());
                        if let Err(e) = catch_unwind(AssertUnwindSafe(|| {
                            body(&s, BroadcastContext { index: i, n, _p: PhantomData })
                        })) {
                            b2.record(e);
                        }
                        b2.finish();
                    });
                    unsafe {
                        ledger::on(0, || {
                            (*base.strands.get()).push(j.strand);
                            (&mut *base.reg.bcast.get())[i].push_back(j);
                        });
                    }
                    base.reg.notify();
                }
            }
        }
        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($name))
            }
        }
    };
}
scope_type!(Scope, false, spawn);
scope_type!(ScopeFifo, true, spawn_fifo);

macro_rules! scope_fn {
    ($name:ident, $in_place:ident, $ty:ident, $on:ident, $in_place_on:ident) => {
        pub fn $name<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R + Send,
            R: Send,
        {
            $on(current_registry(), op)
        }
        fn $on<'scope, OP, R>(reg: Arc<Registry>, op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R + Send,
            R: Send,
        {
            reg.in_worker(move |w, _| {
                let base = ScopeBase::new(w.reg.clone());
                let s = $ty::with(base.clone());
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                base.complete(r)
            })
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R,
        {
            $in_place_on(current_registry(), op)
        }
        fn $in_place_on<'scope, OP, R>(reg: Arc<Registry>, op: OP) -> R
        where
            OP: FnOnce(&$ty<'scope>) -> R,
        {
            let base = ScopeBase::new(reg);
            let s = $ty::with(base.clone());
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            base.complete(r)
        }
    };
}
scope_fn!(scope, in_place_scope, Scope, scope_on, in_place_scope_on);
scope_fn!(scope_fifo, in_place_scope_fifo, ScopeFifo, scope_fifo_on, in_place_scope_fifo_on);

// ------------------------------------------------------------------ spawn, broadcast

fn spawn_on(reg: &Arc<Registry>, fifo: bool, f: impl FnOnce() + Send + 'static) {
    let j = HeapJob::push(move || {
        if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
            let m = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            simrt::fatal(simrt::Fatal::ThreadPanic(m));
        }
    });
    match worker() {
        Some(w) if w.reg.id == reg.id => {
            if fifo {
                w.push_fifo(j)
            } else {
                w.push(j)
            }
        }
        _ => reg.inject(j),
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_on(&current_registry(), false, f)
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_on(&current_registry(), true, f)
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _p: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}
fn broadcast_on<OP, R>(reg: Arc<Registry>, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = reg.n;
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    {
        let slots: Vec<usize> = out.iter_mut().map(|s| s as *mut Option<R> as usize).collect();
        let base = ScopeBase::new(reg.clone());
        let op = &op;
        for (i, slot) in slots.into_iter().enumerate() {
            base.pending.set(base.pending.get() + 1);
            let b2 = base.clone();
            let j = HeapJob::push(move || {
                match catch_unwind(AssertUnwindSafe(|| op(BroadcastContext { index: i, n, _p: PhantomData }))) {
                    Ok(v) => unsafe { *(slot as *mut Option<R>) = Some(v) },
                    Err(e) => b2.record(e),
                }
                b2.finish();
            });
            unsafe {
                ledger::on(0, || {
                    (*base.strands.get()).push(j.strand);
                    (&mut *reg.bcast.get())[i].push_back(j);
                });
            }
            reg.notify();
        }
        base.complete(Ok(()));
    }
    out.into_iter().map(|x| x.unwrap()).collect()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_on(current_registry(), op)
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    spawn_broadcast_on(&current_registry(), op)
}
fn spawn_broadcast_on<OP>(reg: &Arc<Registry>, op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let op = Arc::new(op);
    let n = reg.n;
    for i in 0..n {
        let op = op.clone();
        let j = HeapJob::push(move || op(BroadcastContext { index: i, n, _p: PhantomData }));
        unsafe { (&mut *reg.bcast.get())[i].push_back(j) };
    }
    reg.notify();
}

// ------------------------------------------------------------------ thread pools

pub struct ThreadPool {
    reg: Arc<Registry>,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").field("num_threads", &self.reg.n).finish()
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        self.reg.terminate.set(true);
        if simrt::in_sim() {
            self.reg.notify();
        }
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        self.reg.in_worker(|_, _| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_on(self.reg.clone(), op)
    }
    pub fn current_num_threads(&self) -> usize {
        self.reg.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        worker().and_then(|w| if w.reg.id == self.reg.id { Some(w.index) } else { None })
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        worker().and_then(|w| if w.reg.id == self.reg.id { Some(!w.deque(w.index).is_empty()) } else { None })
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope_on(self.reg.clone(), op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo_on(self.reg.clone(), op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_on(&self.reg, false, op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_on(&self.reg, true, op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast_on(&self.reg, op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        if self.current_thread_index().is_some() {
            yield_now()
        } else {
            None
        }
    }
    pub fn yield_local(&self) -> Option<Yield> {
        if self.current_thread_index().is_some() {
            yield_local()
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let w = worker()?;
    Some(match w.find_work() {
        Some(j) => {
            w.execute(j);
            Yield::Executed
        }
        None => {
            simrt::give_way();
            Yield::Idle
        }
    })
}
pub fn yield_local() -> Option<Yield> {
    let w = worker()?;
    Some(match w.pop() {
        Some(j) => {
            w.execute(j);
            Yield::Executed
        }
        None => {
            simrt::give_way();
            Yield::Idle
        }
    })
}
pub fn current_num_threads() -> usize {
    current_registry().n
}
pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_thread_index() -> Option<usize> {
    worker().map(|w| w.index)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    worker().map(|w| !w.deque(w.index).is_empty())
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {
        unimplemented!("custom spawn handlers are not simulated")
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("The global thread pool has already been initialized.")
    }
}
impl Error for ThreadPoolBuildError {}

pub struct DefaultSpawn;
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    breadth_first: bool,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, breadth_first: false, _s: PhantomData }
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { unsafe { GLOBAL_THREADS } } else { self.n };
        Ok(ThreadPool { reg: new_registry(n, self.breadth_first) })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        unsafe {
            if GLOBAL.is_some() {
                return Err(ThreadPoolBuildError);
            }
            let n = if self.n == 0 { GLOBAL_THREADS } else { self.n };
            GLOBAL = Some(new_registry(n, self.breadth_first));
        }
        Ok(())
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Panic) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    #[deprecated]
    pub fn breadth_first(mut self) -> Self {
        self.breadth_first = true;
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
}
