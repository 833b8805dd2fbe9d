//! Happens-before race detection over registered memory regions, at the granularity of fork-join
//! strands (not OS threads): two jobs that may run in parallel are unordered even when this run
//! happened to execute them on one thread.
#![allow(static_mut_refs)]
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Race {
    pub region: String,
    pub offset: usize,
    pub kind: &'static str,
    pub strand_a: u32,
    pub strand_b: u32,
    pub step: u64,
}

struct Region {
    name: String,
    lo: usize,
    hi: usize,
    shift: u32,
    w: Vec<u64>,
    r0: Vec<u64>,
    r1: Vec<u64>,
}

struct State {
    on: bool,
    clocks: Vec<Vec<u32>>,
    sync: HashMap<usize, Vec<u32>>,
    regions: Vec<Region>,
    lo: usize,
    hi: usize,
    races: Vec<Race>,
    checked: u64,
    /// entries in all live vector clocks
    held: usize,
}
const MAX_HELD: usize = 150_000_000;
const MAX_STRANDS: usize = 150_000;
pub static mut GAVE_UP: u64 = 0;

static mut ST: Option<Box<State>> = None;
pub static mut CHECKED_TOTAL: u64 = 0;

fn st() -> Option<&'static mut State> {
    unsafe { ST.as_deref_mut() }
}

pub fn begin(on: bool) {
    unsafe {
        ST = if on {
            Some(Box::new(State {
                on: true,
                clocks: vec![],
                sync: HashMap::new(),
                regions: vec![],
                lo: usize::MAX,
                hi: 0,
                races: vec![],
                checked: 0,
                held: 0,
            }))
        } else {
            None
        }
    }
}
pub fn end() -> Vec<Race> {
    unsafe {
        match ST.take() {
            Some(s) => {
                CHECKED_TOTAL += s.checked;
                s.races
            }
            None => vec![],
        }
    }
}
pub fn peek() -> Vec<Race> {
    st().map(|s| s.races.clone()).unwrap_or_default()
}

/// New strand whose history is the parent's history so far.
pub fn fork(parent: Option<u32>) -> u32 {
    let s = match st() {
        Some(s) if s.on => s,
        _ => return 0,
    };
    let id = s.clocks.len();
    let mut c = match parent {
        Some(p) => s.clocks[p as usize].clone(),
        None => vec![],
    };
    c.resize(id + 1, 0);
    c[id] = 1;
    s.held += c.len();
    s.clocks.push(c);
    if s.held > MAX_HELD || id > MAX_STRANDS {
        // too many strands to keep apart: the rest of this run is simulated without race detection
        if s.on {
            unsafe { GAVE_UP += 1 }
        }
        s.on = false;
        s.regions.clear();
    }
    if let Some(p) = parent {
        if let Some(x) = s.clocks[p as usize].get_mut(p as usize) {
            *x += 1;
        }
    }
    id as u32
}
fn merge(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        if *x < *y {
            *x = *y
        }
    }
}
pub fn join(into: u32, child: u32) {
    if let Some(s) = st().filter(|s| s.on) {
        if into == child || s.clocks[into as usize].is_empty() {
            return;
        }
        // a joined strand makes no further accesses; only its epochs live on
        let c = std::mem::take(&mut s.clocks[child as usize]);
        s.held = s.held.saturating_sub(c.len());
        let into = &mut s.clocks[into as usize];
        let was = into.len();
        merge(into, &c);
        s.held += into.len().saturating_sub(was);
    }
}
/// As `join` for several waiters at once; `child` makes no further accesses.
pub fn join_all(into: &[u32], child: u32) {
    if let Some(s) = st().filter(|s| s.on) {
        let c = std::mem::take(&mut s.clocks[child as usize]);
        s.held = s.held.saturating_sub(c.len());
        for &i in into {
            let into = &mut s.clocks[i as usize];
            if i == child || into.is_empty() {
                continue;
            }
            let was = into.len();
            merge(into, &c);
            s.held += into.len().saturating_sub(was);
        }
    }
}
pub fn release(strand: u32, addr: usize) {
    if let Some(s) = st().filter(|s| s.on && !s.clocks[strand as usize].is_empty()) {
        let c = s.clocks[strand as usize].clone();
        merge(s.sync.entry(addr).or_default(), &c);
        s.clocks[strand as usize][strand as usize] += 1;
    }
}
pub fn acquire(strand: u32, addr: usize) {
    if let Some(s) = st().filter(|s| s.on && !s.clocks[strand as usize].is_empty()) {
        if let Some(c) = s.sync.get(&addr) {
            merge(&mut s.clocks[strand as usize], c);
        }
    }
}

pub fn register(name: &str, lo: usize, len: usize, shift: u32) {
    if let Some(s) = st() {
        let n = (len >> shift) + 1;
        s.regions.push(Region {
            name: name.into(),
            lo,
            hi: lo + len,
            shift,
            w: vec![0; n],
            r0: vec![0; n],
            r1: vec![0; n],
        });
        s.lo = s.lo.min(lo);
        s.hi = s.hi.max(lo + len);
    }
}
/// The memory of a region starting at `lo` goes out of use.
pub fn unregister(lo: usize) {
    if let Some(s) = st() {
        s.regions.retain(|r| r.lo != lo);
    }
}
/// Allocations of 16-bit elements are coefficient memory too, whoever makes them.
pub fn allocated(lo: usize, len: usize) {
    if let Some(s) = st().filter(|s| s.on) {
        if len >= 4 && s.regions.len() < 64 {
            register("allocated coefficients", lo, len, 1);
        }
    }
}
pub fn freed(lo: usize) {
    if let Some(s) = st().filter(|s| s.on) {
        if lo >= s.lo && lo < s.hi {
            unregister(lo);
        }
    }
}
pub fn unregister_all() {
    if let Some(s) = st() {
        s.regions.clear();
        s.lo = usize::MAX;
        s.hi = 0;
    }
}

#[inline]
fn before(clock: &[u32], e: u64) -> bool {
    // epoch = strand << 32 | clock
    e == 0 || clock.get((e >> 32) as usize).copied().unwrap_or(0) >= e as u32
}

pub fn access(addr: usize, len: usize, write: bool, strand: u32, step: u64) {
    let s = match st() {
        Some(s) if s.on => s,
        _ => return,
    };
    if addr >= s.hi || addr + len <= s.lo {
        return;
    }
    let clock = &s.clocks[strand as usize];
    if clock.is_empty() {
        return;
    }
    let epoch = ((strand as u64) << 32) | clock[strand as usize] as u64;
    for r in s.regions.iter_mut() {
        if addr >= r.hi || addr + len <= r.lo {
            continue;
        }
        let a = addr.max(r.lo) - r.lo;
        let b = (addr + len).min(r.hi) - r.lo;
        let mut i = a >> r.shift;
        let e = (b - 1) >> r.shift;
        while i <= e {
            s.checked += 1;
            let mut bad: Option<(&'static str, u64)> = None;
            if !before(clock, r.w[i]) {
                bad = Some((if write { "write/write" } else { "write/read" }, r.w[i]));
            } else if write {
                if !before(clock, r.r0[i]) {
                    bad = Some(("read/write", r.r0[i]));
                } else if !before(clock, r.r1[i]) {
                    bad = Some(("read/write", r.r1[i]));
                }
            }
            if write {
                r.w[i] = epoch;
            } else if (r.r0[i] >> 32) as u32 == strand || before(clock, r.r0[i]) {
                r.r0[i] = epoch;
            } else {
                r.r1[i] = epoch;
            }
            if let Some((k, o)) = bad {
                if s.races.len() < 8 {
                    s.races.push(Race {
                        region: r.name.clone(),
                        offset: i,
                        kind: k,
                        strand_a: (o >> 32) as u32,
                        strand_b: strand,
                        step,
                    });
                }
            }
            i += 1;
        }
    }
}
