//! Deterministic simulation runtime.
//!
//! Real OS threads, exactly one of which runs at a time (the baton holder).  Which thread runs next
//! is decided only here, from one PRNG (or from a recorded list of decisions), at scheduling points:
//! every operation of the simulated fork-join pool, every futex wait, every atomic operation and
//! every load/store made by the instrumented crate under test.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod ledger;
pub mod race;
pub mod rng;
pub mod sys;
pub mod tsan;

use rng::Rng;
use std::any::Any;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub type Tid = usize;
pub const NONE: Tid = usize::MAX;
pub const MAX_THREADS: usize = 128;

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// No preemption: a thread runs until it blocks; who runs next is still drawn.
    Coop,
    /// Every sync point is preempted with probability p_sync/1000, every memory access on average once in `mem_gap`.
    Random { p_sync: u32, mem_gap: u64 },
    /// Probabilistic concurrency testing: strict priorities with `d` random change points in the first `span` steps.
    Pct { d: u32, span: u64 },
    /// Switch at every sync point, and every `q` memory accesses.
    RoundRobin { q: u64 },
    /// As Random, but the threads in `mask` run only when nothing else can (with a fairness guard).
    Starve { mask: u64, p_sync: u32, mem_gap: u64 },
    /// Follow the recorded decisions; everything not recorded takes the default (stay / lowest id / 0).
    Replay,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub policy: Policy,
    pub decisions: Vec<(u64, u32)>,
    pub step_limit: u64,
    pub race: bool,
    /// preemptions already made in the executions of the same run before this one
    pub preempted: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fatal {
    Deadlock(String),
    StepLimit(String),
    ThreadPanic(String),
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub steps: u64,
    pub decisions: Vec<(u64, u32)>,
    pub sched_hash: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: usize,
    pub mem_accesses: u64,
    /// times the code asked for the time, random bytes or the number of processors
    pub asked: u64,
    pub races: Vec<race::Race>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Run,
    Blocked,
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why {
    None,
    Idle(usize),
    /// An idle pool worker (pool id) that also waits for a latch.
    IdleLatch(usize, usize),
    Latch(usize),
    Futex(usize),
    Join(Tid),
}

struct Th {
    name: String,
    flag: Box<AtomicU32>,
    state: St,
    why: Why,
    prio: i64,
    handle: Option<std::thread::JoinHandle<()>>,
    panic: Option<Box<dyn Any + Send>>,
    strand: u32,
    since: u64,
    /// started by the code under test (pthread_create), not by the simulator
    foreign: bool,
}

#[repr(C)]
pub struct Core {
    pub steps: u64,
    pub next: u64,
    pub active: bool,
    pub race: bool,
}
pub static mut CORE: Core = Core { steps: 0, next: u64::MAX, active: false, race: false };

struct Sim {
    cfg: Cfg,
    rng: Rng,
    th: Vec<Th>,
    cur: Tid,
    runnable: u128,
    live: usize,
    dev: Vec<(u64, u32)>,
    dev_i: usize,
    rec: Vec<(u64, u32)>,
    hash: u64,
    switches: u64,
    preempts: u64,
    change: Vec<u64>,
    low_prio: i64,
    last_switch: u64,
    nopreempt: u32,
    /// threads the code under test started itself: OS handle and slot, until joined or detached
    spawned: Vec<(usize, Tid)>,
    /// slots of finished threads that nobody can name any more
    free: Vec<Tid>,
    started: usize,
    world: World,
}
/// What the code under test may ask the machine: time, random bytes, the number of processors.
struct World {
    rng: Rng,
    /// nanoseconds per step
    tick: u64,
    /// one reading in so many finds the clock jumped (0: never)
    jumpy: u64,
    /// what sleeping, timed waits and jumps added (monotonic)
    slept: u64,
    /// how far the wall clock is off
    wall: i64,
    cpus: u64,
    asked: u64,
}
impl World {
    fn new(seed: u64) -> World {
        let mut rng = Rng::new(seed ^ 0x0077_6f72_6c64);
        World {
            tick: *rng.pick(&[1, 50, 1_000, 100_000, 10_000_000]),
            jumpy: *rng.pick(&[0, 0, 2, 10]),
            slept: rng.below(1 << 50),
            wall: rng.below(1 << 50) as i64,
            cpus: *rng.pick(&[1, 2, 3, 4, 8, 16, 64]),
            asked: 0,
            rng,
        }
    }
}
/// Nanoseconds of the simulated clock.
pub fn clock(wall: bool) -> u64 {
    let now = steps();
    let w = &mut sim().world;
    w.asked += 1;
    if w.jumpy > 0 && w.rng.below(w.jumpy) == 0 {
        if wall {
            w.wall += w.rng.below(1 << 43) as i64 - (1 << 42);
        } else {
            w.slept += w.rng.below(1 << 42);
        }
    }
    let t = w.slept + now * w.tick;
    if wall {
        (1_700_000_000_000_000_000 + w.wall + t as i64) as u64
    } else {
        t
    }
}
/// Simulated time passes.
pub fn elapse(ns: u64) {
    let w = &mut sim().world;
    w.asked += 1;
    w.slept = w.slept.saturating_add(ns.min(1 << 50)).min(1 << 62);
}
pub fn entropy(b: &mut [u8]) {
    let w = &mut sim().world;
    w.asked += 1;
    for x in b {
        *x = w.rng.next() as u8;
    }
}
pub fn processors() -> u64 {
    let w = &mut sim().world;
    w.asked += 1;
    w.cpus
}
static mut SIM: Option<Box<Sim>> = None;
static CTRL: AtomicU32 = AtomicU32::new(0);
static mut FATAL_HOOK: Option<fn(&Fatal)> = None;

thread_local! { static ME: Cell<usize> = const { Cell::new(NONE) }; }

const FAIR_STEPS: u64 = 60_000;

#[inline]
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().expect("no simulation") }
}

pub fn set_fatal_hook(f: fn(&Fatal)) {
    unsafe { FATAL_HOOK = Some(f) }
}
pub fn active() -> bool {
    unsafe { CORE.active }
}
pub fn steps() -> u64 {
    unsafe { CORE.steps }
}
/// True when the calling OS thread is a simulated thread of the running simulation.
pub fn in_sim() -> bool {
    active() && ME.with(|m| m.get()) != NONE
}
pub fn me() -> Tid {
    ME.with(|m| m.get())
}
pub fn cur_strand() -> u32 {
    let s = sim();
    s.th[s.cur].strand
}
pub fn set_strand(x: u32) {
    let s = sim();
    let c = s.cur;
    s.th[c].strand = x;
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

/// Runs `root` as the first simulated thread until every simulated thread has finished.
pub fn run(cfg: Cfg, root: Box<dyn FnOnce() + Send>) -> Outcome {
    unsafe {
        let mut rng = Rng::new(cfg.seed ^ 0x5eed_5c4e_d01e_0001);
        let mut change = vec![];
        if let Policy::Pct { d, span } = cfg.policy {
            for _ in 0..d {
                change.push(1 + rng.below(span.max(1)));
            }
            change.sort();
        }
        let race = cfg.race;
        let world = World::new(cfg.seed);
        let dev = if cfg.policy == Policy::Replay { cfg.decisions.clone() } else { vec![] };
        SIM = Some(Box::new(Sim {
            cfg,
            rng,
            th: vec![],
            cur: NONE,
            runnable: 0,
            live: 0,
            dev,
            dev_i: 0,
            rec: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            switches: 0,
            preempts: 0,
            change,
            low_prio: -1,
            last_switch: 0,
            nopreempt: 0,
            spawned: vec![],
            free: vec![],
            started: 0,
            world,
        }));
        CORE.steps = 0;
        CORE.next = u64::MAX;
        CORE.race = false;
        tsan::MEM_ACCESSES = 0;
        race::begin(race);
        CTRL.store(0, Ordering::SeqCst);
        let t = spawn("root", root);
        CORE.race = race;
        CORE.active = true;
        let s = sim();
        s.cur = t;
        sched_next_event(s);
        let f: *const AtomicU32 = &*s.th[t].flag;
        wake_flag(&*f);
        wait_flag(&CTRL);
        CORE.active = false;
        CORE.race = false;
        CORE.next = u64::MAX;
        let s = SIM.take().unwrap();
        let mut s = s;
        for t in s.th.iter_mut() {
            if let Some(h) = t.handle.take() {
                let _ = h.join();
            }
        }
        let races = race::end();
        Outcome {
            steps: CORE.steps,
            sched_hash: s.hash,
            switches: s.switches,
            preemptions: s.preempts,
            threads: s.started,
            decisions: std::mem::take(&mut s.rec),
            mem_accesses: tsan::MEM_ACCESSES,
            asked: s.world.asked,
            races,
        }
    }
}

/// The decisions recorded so far (used when a run dies part-way).
pub fn recorded() -> Vec<(u64, u32)> {
    unsafe { SIM.as_ref().map(|s| s.rec.clone()).unwrap_or_default() }
}
pub fn races_so_far() -> Vec<race::Race> {
    race::peek()
}

fn wait_flag(f: &AtomicU32) {
    while f.load(Ordering::SeqCst) == 0 {
        sys::futex_wait_raw(f, 0);
    }
    f.store(0, Ordering::SeqCst);
}
fn wake_flag(f: &AtomicU32) {
    f.store(1, Ordering::SeqCst);
    sys::futex_wake_raw(f, 1);
}

fn describe(s: &Sim) -> String {
    let mut o = String::new();
    for t in &s.th {
        if t.state != St::Done {
            let w = match t.why {
                Why::None => "runnable".to_string(),
                Why::Idle(_) => "idle worker".to_string(),
                Why::IdleLatch(..) => "worker waits for a job".to_string(),
                Why::Latch(_) => "waits for a job".to_string(),
                Why::Futex(_) => "waits for a lock".to_string(),
                Why::Join(x) => format!("waits for {}", s.th[x].name),
            };
            o.push_str(&format!("{}: {}; ", t.name, w));
        }
    }
    o
}

pub fn fatal(f: Fatal) -> ! {
    unsafe {
        CORE.active = false;
        CORE.next = u64::MAX;
    }
    if let Some(h) = unsafe { FATAL_HOOK } {
        h(&f);
    }
    sys::exit_now(97)
}

/// Registers a simulated thread; it is runnable at once and starts when scheduled.
fn register(name: &str, foreign: bool) -> Option<Tid> {
    ledger::on(0, || enroll(name, foreign))
}
fn enroll(name: &str, foreign: bool) -> Option<Tid> {
    let s = sim();
    let id = match s.free.pop() {
        Some(id) => id,
        None if s.th.len() < MAX_THREADS => s.th.len(),
        None => return None,
    };
    let strand = race::fork(if s.cur == NONE { None } else { Some(s.th[s.cur].strand) });
    let prio = s.rng.below(1 << 30) as i64 + 1;
    let th = Th {
        name: name.to_string(),
        flag: Box::new(AtomicU32::new(0)),
        state: St::Run,
        why: Why::None,
        prio,
        handle: None,
        panic: None,
        strand,
        since: 0,
        foreign,
    };
    if id == s.th.len() {
        s.th.push(th);
    } else {
        s.th[id] = th;
    }
    s.runnable |= 1 << id;
    s.live += 1;
    s.started += 1;
    Some(id)
}

/// Creates a simulated thread.
pub fn spawn(name: &str, f: Box<dyn FnOnce() + Send>) -> Tid {
    ledger::on(0, || start(name, f))
}
fn start(name: &str, f: Box<dyn FnOnce() + Send>) -> Tid {
    let id = register(name, false).expect("too many simulated threads");
    unsafe { OWN_SPAWN = id };
    // The thread's whole life, the standard library's start-up and exit included, is simulated: it is
    // entered and left in `tramp`.
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let s = sim();
            let c = s.cur;
            s.th[c].panic = r.err();
        })
        .expect("spawn");
    sim().th[id].handle = Some(h);
    id
}

// Threads that the code under test starts itself (std::thread) become simulated threads too.
static mut OWN_SPAWN: Tid = NONE;
type Start = extern "C" fn(*mut u8) -> *mut u8;
struct Tramp {
    f: Start,
    arg: *mut u8,
    id: Tid,
    flag: *const AtomicU32,
    account: u32,
}
extern "C" fn tramp(p: *mut u8) -> *mut u8 {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    ME.with(|m| m.set(t.id));
    wait_flag(unsafe { &*t.flag });
    ledger::switch(t.account);
    let r = (t.f)(t.arg);
    ledger::switch(0);
    finish();
    // what is left is the C library's own thread exit
    r
}
extern "C" {
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
}
unsafe fn next_symbol(n: &[u8]) -> usize {
    dlsym(usize::MAX as *mut u8, n.as_ptr()) as usize // RTLD_NEXT
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const u8, f: Start, arg: *mut u8) -> i32 {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = next_symbol(b"pthread_create\0");
    }
    let real: extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32 = std::mem::transmute(REAL);
    let own = std::mem::replace(&mut *std::ptr::addr_of_mut!(OWN_SPAWN), NONE);
    let id = if own != NONE {
        own
    } else if !in_sim() {
        return real(t, attr, f, arg);
    } else {
        match register("spawned", true) {
            Some(id) => id,
            None => return 11, // EAGAIN: the machine has no more threads
        }
    };
    let flag: *const AtomicU32 = &*sim().th[id].flag;
    let account = if own != NONE { 0 } else { ledger::current() };
    let b = ledger::on(0, || Box::into_raw(Box::new(Tramp { f, arg, id, flag, account })));
    let r = real(t, attr, tramp, b as *mut u8);
    assert!(r == 0, "pthread_create failed");
    if own != NONE {
        return 0;
    }
    let th = *t;
    sim().spawned.retain(|x| x.0 != th);
    ledger::on(0, || sim().spawned.push((th, id)));
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, ret: *mut *mut u8) -> i32 {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = next_symbol(b"pthread_join\0");
    }
    let real: extern "C" fn(usize, *mut *mut u8) -> i32 = std::mem::transmute(REAL);
    if in_sim() {
        if let Some(i) = sim().spawned.iter().position(|x| x.0 == t) {
            let id = sim().spawned.swap_remove(i).1;
            let _ = join(id);
            ledger::on(0, || sim().free.push(id));
        }
    }
    real(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: usize) -> i32 {
    static mut REAL: usize = 0;
    if REAL == 0 {
        REAL = next_symbol(b"pthread_detach\0");
    }
    let real: extern "C" fn(usize) -> i32 = std::mem::transmute(REAL);
    if in_sim() {
        let s = sim();
        if let Some(i) = s.spawned.iter().position(|x| x.0 == t) {
            let id = s.spawned.swap_remove(i).1;
            if s.th[id].state == St::Done {
                ledger::on(0, || s.free.push(id));
            }
        }
    }
    real(t)
}

fn finish() {
    let s = sim();
    let id = s.cur;
    ME.with(|m| m.set(NONE));
    s.th[id].state = St::Done;
    s.runnable &= !(1 << id);
    s.live -= 1;
    if s.th[id].foreign {
        // Whoever waits for such a thread may do so through code of the standard library that is not
        // instrumented (a scope's counter, a channel): everybody is taken to have seen it end.
        let others: Vec<u32> =
            s.th.iter().filter(|t| t.state != St::Done).map(|t| t.strand).collect();
        race::join_all(&others, s.th[id].strand);
        if !s.spawned.iter().any(|x| x.1 == id) {
            s.free.push(id);
        }
    }
    for t in 0..s.th.len() {
        if s.th[t].state == St::Blocked && s.th[t].why == Why::Join(id) {
            make_runnable(t);
        }
    }
    if s.live == 0 {
        unsafe {
            CORE.active = false;
            CORE.next = u64::MAX;
        }
        wake_flag(&CTRL);
        return;
    }
    let n = pick_forced();
    // hand the baton over and let this OS thread end
    transfer(n);
}

fn transfer(n: Tid) -> *const AtomicU32 {
    let s = sim();
    let old = s.cur;
    s.switches += 1;
    s.hash = mix(s.hash, (unsafe { CORE.steps } << 6) ^ n as u64);
    s.cur = n;
    s.last_switch = unsafe { CORE.steps };
    s.th[n].since = s.last_switch;
    let mine: *const AtomicU32 = &*s.th[old].flag;
    let f: *const AtomicU32 = &*s.th[n].flag;
    wake_flag(unsafe { &*f });
    mine
}

fn switch_to(n: Tid) {
    let s = sim();
    if n == s.cur {
        return;
    }
    let mine = transfer(n);
    wait_flag(unsafe { &*mine });
}

fn step() -> u64 {
    unsafe {
        CORE.steps += 1;
        CORE.steps
    }
}

fn dev_at(s: &mut Sim, step: u64) -> Option<u32> {
    while s.dev_i < s.dev.len() && s.dev[s.dev_i].0 < step {
        s.dev_i += 1;
    }
    if s.dev_i < s.dev.len() && s.dev[s.dev_i].0 == step {
        let v = s.dev[s.dev_i].1;
        s.dev_i += 1;
        return Some(v);
    }
    None
}

fn nth_bit(mut m: u128, n: u64) -> Tid {
    for _ in 0..n {
        m &= m - 1;
    }
    m.trailing_zeros() as Tid
}

fn pick_random(s: &mut Sim, m: u128) -> Tid {
    let c = m.count_ones() as u64;
    if c == 1 {
        return m.trailing_zeros() as Tid;
    }
    let k = s.rng.below(c);
    nth_bit(m, k)
}

fn best_prio(s: &Sim, m: u128) -> Tid {
    let mut b = NONE;
    for t in 0..s.th.len() {
        if m & (1 << t) != 0 && (b == NONE || s.th[t].prio > s.th[b].prio) {
            b = t;
        }
    }
    b
}

fn policy_pick(s: &mut Sim, m: u128) -> Tid {
    match s.cfg.policy.clone() {
        Policy::Pct { .. } => best_prio(s, m),
        Policy::RoundRobin { .. } => {
            let c = if s.cur == NONE { 0 } else { s.cur };
            for k in 1..=MAX_THREADS {
                let t = (c + k) % MAX_THREADS;
                if m & (1 << t) != 0 {
                    return t;
                }
            }
            NONE
        }
        Policy::Starve { mask, .. } => {
            let mm = m & !(mask as u128);
            pick_random(s, if mm != 0 { mm } else { m })
        }
        _ => pick_random(s, m),
    }
}

/// The current thread cannot continue: who runs?
fn pick_forced() -> Tid {
    let st = step();
    let s = sim();
    if s.runnable == 0 {
        let d = describe(s);
        fatal(Fatal::Deadlock(d));
    }
    let m = s.runnable;
    let def = m.trailing_zeros() as Tid;
    let n = if s.cfg.policy == Policy::Replay {
        match dev_at(s, st) {
            Some(v) if (v as usize) < MAX_THREADS && m & (1 << v) != 0 => v as Tid,
            _ => def,
        }
    } else {
        policy_pick(s, m)
    };
    if n != def {
        ledger::on(0, || s.rec.push((st, n as u32)));
    }
    sched_next_event(s);
    n
}

/// Very long runs are preempted ever more rarely.
fn slower(s: &Sim) -> u64 {
    ((s.cfg.preempted + s.preempts) / 100_000).min(16)
}

fn sched_next_event(s: &mut Sim) {
    let now = unsafe { CORE.steps };
    let mut next = s.cfg.step_limit;
    let slower = slower(s);
    match s.cfg.policy {
        Policy::Coop => {}
        Policy::Random { mem_gap, .. } | Policy::Starve { mem_gap, .. } => {
            if mem_gap > 0 {
                next = next.min(now + 1 + s.rng.below((2 * mem_gap) << slower));
            }
        }
        Policy::Pct { .. } => {
            while let Some(&c) = s.change.first() {
                if c <= now {
                    s.change.remove(0);
                } else {
                    next = next.min(c);
                    break;
                }
            }
        }
        Policy::RoundRobin { q } => {
            if q > 0 {
                next = next.min(now + (q << slower))
            }
        }
        Policy::Replay => {
            while s.dev_i < s.dev.len() && s.dev[s.dev_i].0 <= now {
                s.dev_i += 1;
            }
            if s.dev_i < s.dev.len() {
                next = next.min(s.dev[s.dev_i].0);
            }
        }
    }
    if s.cfg.policy != Policy::Replay {
        next = next.min(s.last_switch.max(now.saturating_sub(FAIR_STEPS)) + FAIR_STEPS).max(now + 1);
    }
    unsafe { CORE.next = next }
}

fn preempt_to(st: u64, n: Tid) {
    let s = sim();
    if n != s.cur {
        ledger::on(0, || s.rec.push((st, n as u32)));
        s.preempts += 1;
        sched_next_event(s);
        switch_to(n);
    } else {
        sched_next_event(s);
    }
}

#[cold]
#[inline(never)]
fn slow_tick() {
    let st = unsafe { CORE.steps };
    let s = sim();
    if st >= s.cfg.step_limit {
        let d = describe(s);
        fatal(Fatal::StepLimit(d));
    }
    if s.nopreempt > 0 {
        unsafe { CORE.next = st + 1 };
        return;
    }
    let others = s.runnable & !(1 << s.cur);
    if s.cfg.policy == Policy::Replay {
        if let Some(v) = dev_at(s, st) {
            if (v as usize) < MAX_THREADS && others & (1 << v) != 0 {
                preempt_to(st, v as Tid);
                return;
            }
        }
        sched_next_event(s);
        return;
    }
    if others == 0 {
        s.last_switch = st;
        sched_next_event(s);
        return;
    }
    let fairness = st - s.last_switch >= FAIR_STEPS;
    match s.cfg.policy.clone() {
        Policy::Pct { .. } => {
            let c = s.cur;
            s.low_prio -= 1;
            s.th[c].prio = s.low_prio;
            let n = if fairness { pick_random(s, others) } else { best_prio(s, s.runnable) };
            preempt_to(st, n);
        }
        _ if fairness => {
            let n = pick_random(s, others);
            preempt_to(st, n);
        }
        Policy::Coop => sched_next_event(s),
        Policy::Starve { mask, .. } if others & !(mask as u128) == 0 => sched_next_event(s),
        _ => {
            let n = policy_pick(s, others);
            preempt_to(st, n);
        }
    }
}

/// A memory-access scheduling point.
#[inline(always)]
pub fn tick() {
    unsafe {
        CORE.steps += 1;
        if CORE.steps >= CORE.next {
            slow_tick()
        }
    }
}

/// A synchronisation scheduling point.
pub fn point() {
    if !in_sim() {
        return;
    }
    let st = step();
    if st >= unsafe { CORE.next } {
        slow_tick();
        return;
    }
    let s = sim();
    if s.nopreempt > 0 {
        return;
    }
    let others = s.runnable & !(1 << s.cur);
    if others == 0 {
        return;
    }
    match s.cfg.policy.clone() {
        Policy::Random { p_sync, .. } => {
            if s.rng.below(1000 << slower(s)) < p_sync as u64 {
                let n = pick_random(s, others);
                preempt_to(st, n);
            }
        }
        Policy::Starve { mask, p_sync, .. } => {
            let o = others & !(mask as u128);
            if (mask as u128) & (1 << s.cur) != 0 && o != 0 {
                let n = pick_random(s, o);
                preempt_to(st, n);
            } else if s.rng.below(1000 << slower(s)) < p_sync as u64 && o != 0 {
                let n = pick_random(s, o);
                preempt_to(st, n);
            }
        }
        Policy::Pct { .. } => {
            let n = best_prio(s, s.runnable);
            if n != s.cur {
                preempt_to(st, n);
            }
        }
        Policy::RoundRobin { .. } => {
            if s.rng.below(1 << slower(s)) != 0 {
                return;
            }
            let n = policy_pick(s, others);
            preempt_to(st, n);
        }
        Policy::Coop | Policy::Replay => {}
    }
}

/// Gives way to another runnable thread, if there is one (sched_yield, sleep, spinning waits).
pub fn give_way() {
    if !in_sim() {
        return;
    }
    let st = step();
    if st >= sim().cfg.step_limit {
        slow_tick();
    }
    let s = sim();
    let others = s.runnable & !(1 << s.cur);
    if others == 0 || s.nopreempt > 0 {
        return;
    }
    let def = others.trailing_zeros() as Tid;
    let n = if s.cfg.policy == Policy::Replay {
        match dev_at(s, st) {
            Some(v) if (v as usize) < MAX_THREADS && others & (1 << v) != 0 => v as Tid,
            _ => def,
        }
    } else {
        pick_random(s, others)
    };
    if n != def {
        ledger::on(0, || s.rec.push((st, n as u32)));
    }
    sched_next_event(s);
    switch_to(n);
}

/// A simulator choice in 0..n (recorded; 0 is the default).
pub fn choose(n: u64) -> u64 {
    if !in_sim() || n <= 1 {
        return 0;
    }
    let st = step();
    if st >= sim().cfg.step_limit {
        slow_tick();
    }
    let s = sim();
    let v = if s.cfg.policy == Policy::Replay {
        dev_at(s, st).map(|v| v as u64 % n).unwrap_or(0)
    } else {
        s.rng.below(n)
    };
    if v != 0 {
        ledger::on(0, || s.rec.push((st, v as u32)));
        s.hash = mix(s.hash, st ^ (v << 48));
    }
    if st >= unsafe { CORE.next } {
        sched_next_event(s);
    }
    v
}

/// Blocks the calling simulated thread until somebody wakes it.
pub fn block(why: Why) {
    let s = sim();
    let c = s.cur;
    s.th[c].state = St::Blocked;
    s.th[c].why = why;
    s.runnable &= !(1 << c);
    let n = pick_forced();
    switch_to(n);
}

pub fn make_runnable(t: Tid) {
    let s = sim();
    if s.th[t].state == St::Blocked {
        s.th[t].state = St::Run;
        s.th[t].why = Why::None;
        s.runnable |= 1 << t;
    }
}

pub fn wake_where(f: impl Fn(Why) -> bool) -> usize {
    let s = sim();
    let mut k = 0;
    for t in 0..s.th.len() {
        if s.th[t].state == St::Blocked && f(s.th[t].why) {
            make_runnable(t);
            k += 1;
        }
    }
    k
}

pub fn is_done(t: Tid) -> bool {
    sim().th[t].state == St::Done
}

/// Waits for a simulated thread; returns its panic payload if it panicked.
pub fn join(t: Tid) -> Option<Box<dyn Any + Send>> {
    while !is_done(t) {
        block(Why::Join(t));
    }
    let s = sim();
    race::join(s.th[s.cur].strand, s.th[t].strand);
    s.th[t].panic.take()
}

/// Futex seam: called for every futex wait/wake the standard library issues on a simulated thread.
pub fn futex_wait(addr: usize) {
    block(Why::Futex(addr));
    race::acquire(cur_strand(), addr);
}
pub fn futex_wake(addr: usize, n: usize) -> usize {
    race::release(cur_strand(), addr);
    let s = sim();
    let mut c: Vec<Tid> = ledger::on(0, || {
        (0..s.th.len()).filter(|&t| s.th[t].state == St::Blocked && s.th[t].why == Why::Futex(addr)).collect()
    });
    let mut k = 0;
    while k < n && !c.is_empty() {
        let i = choose(c.len() as u64) as usize;
        make_runnable(c.swap_remove(i));
        k += 1;
    }
    k
}

/// Runs `f` without scheduling points (harness bookkeeping that happens to execute instrumented code).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    if !in_sim() {
        return f();
    }
    let race = unsafe { CORE.race };
    unsafe { CORE.race = false };
    sim().nopreempt += 1;
    let r = f();
    sim().nopreempt -= 1;
    unsafe { CORE.race = race };
    sched_next_event(sim());
    r
}
