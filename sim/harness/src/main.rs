//! gfwxsim: runs the real gfwx library under the deterministic simulator.
//!
//!   gfwxsim worker --prop C01 --seed 1 --from A --to B [--known ID]...   many runs; one line each
//!   gfwxsim exec FILE [--known ID]...                                    one run (a spec or a replay file)
//!   gfwxsim gen --prop C01 --seed 1 --idx I                              print the spec of a run
//!   gfwxsim dump --seed 1 --n 1000                                       cases for sim/xref (binary)
//!
//! Lines on stdout:  B idx | R idx {stats} | V idx {class, detail, spec} | S {coverage}
#![allow(static_mut_refs)]
mod damage;
mod gbuf;
mod host;
mod io;
mod net;
mod scen;
mod spec;

use host::{Env, Viol};
use simrt::ledger;
use spec::Spec;
use std::sync::atomic::{AtomicUsize, Ordering};

/// The system allocator, with 16-bit buffers (coefficients) made known to the race detector.
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        ledger::allocated(p as usize, l.size());
        if l.align() == 2 {
            simrt::race::allocated(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc_zeroed(l);
        ledger::allocated(p as usize, l.size());
        if l.align() == 2 {
            simrt::race::allocated(p as usize, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.align() == 2 {
            simrt::race::freed(p as usize);
        }
        let account = ledger::freed(p as usize);
        let q = std::alloc::System.realloc(p, l, n);
        if account != 0 {
            ledger::resized(account, q as usize, n);
        }
        if l.align() == 2 {
            simrt::race::allocated(q as usize, n);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.align() == 2 {
            simrt::race::freed(p as usize);
        }
        ledger::freed(p as usize);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

pub static CURRENT_SIM: AtomicUsize = AtomicUsize::new(0);
static mut CUR: *const Env = std::ptr::null();

#[cfg(feature = "adaptive")]
pub const CFG: &str = "adaptive";
#[cfg(all(feature = "par", not(feature = "adaptive")))]
pub const CFG: &str = "par";
#[cfg(not(feature = "par"))]
pub const CFG: &str = "serial";

fn out(s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.push(b'\n');
    simrt::sys::write_fd(1, &b);
}

fn emit_violation(env: &Env, v: &Viol, mut rec: Vec<Vec<(u64, u32)>>, current: Option<Vec<(u64, u32)>>) {
    if let Some(c) = current {
        let k = CURRENT_SIM.load(Ordering::SeqCst);
        while rec.len() < k {
            rec.push(vec![]);
        }
        rec.truncate(k);
        rec.push(c);
    }
    let mut s = env.spec.clone();
    s.decisions = Some(rec);
    let j = serde_json::json!({ "class": v.class, "detail": v.detail, "spec": s });
    out(&format!("V {} {}", env.spec.idx, j));
}

/// The simulation cannot go on (deadlock, step limit): report with what was decided so far.
fn on_fatal(f: &simrt::Fatal) {
    let (class, detail) = match f {
        simrt::Fatal::Deadlock(m) => ("deadlock", m.clone()),
        simrt::Fatal::StepLimit(m) => ("no-progress", m.clone()),
        simrt::Fatal::ThreadPanic(m) => ("panic", m.clone()),
    };
    unsafe {
        if !CUR.is_null() {
            let e = &*CUR;
            emit_violation(e, &Viol { class: class.into(), detail }, e.rec.clone(), Some(simrt::recorded()));
        }
    }
}

extern "C" fn on_signal(sig: i32, info: *const SigInfo, _: *mut u8) {
    unsafe {
        let addr = if info.is_null() { 0 } else { (*info).addr };
        if !CUR.is_null() {
            let e = &*CUR;
            let cur = if simrt::active() { Some(simrt::recorded()) } else { None };
            let where_ = gbuf::describe(addr);
            emit_violation(
                e,
                &Viol { class: "memory-fault".into(), detail: format!("signal {} {}", sig, where_) },
                e.rec.clone(),
                cur,
            );
        }
        simrt::sys::exit_now(96);
    }
}
#[repr(C)]
pub struct SigInfo {
    signo: i32,
    errno: i32,
    code: i32,
    _pad: i32,
    addr: usize,
}
#[repr(C)]
struct SigAction {
    handler: usize,
    flags_mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
}
fn install_handlers() {
    // glibc struct sigaction on x86-64: handler, sa_mask (128 bytes), sa_flags, sa_restorer
    let a = SigAction {
        handler: on_signal as *const () as usize,
        flags_mask: [0; 16],
        flags: 4 | 0x0800_0000 | 0x4000_0000, // SA_SIGINFO | SA_ONSTACK | SA_NODEFER
        restorer: 0,
    };
    unsafe {
        for s in [11, 7, 6, 4, 8] {
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = ledger::on(0, || i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        ledger::on(0, || unsafe { host::PANIC_NOTE = Some(loc) })
    }));
    simrt::set_fatal_hook(on_fatal);
}

/// One run; prints R or V.  False when a violation was found.
fn one(spec: Spec, cov: bool) -> bool {
    let idx = spec.idx;
    let mut env = Env::new(spec);
    for c in &env.spec.cases {
        if !c.valid() || (!cov && !spec::in_domain(c)) {
            out(&format!("I {}", idx));
            return true;
        }
    }
    unsafe { CUR = &env as *const Env };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::run(&mut env)));
    unsafe { CUR = std::ptr::null() };
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            // a panic outside the simulation is a defect of the harness, not of the library
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            out(&format!("H {} {} [{}]", idx, m, host::panic_note()));
            simrt::sys::exit_now(3);
        }
    };
    match r {
        Ok(()) => {
            let s = &env.st;
            let mut j = serde_json::json!({
                "steps": s.steps, "switches": s.switches, "preempts": s.preempts, "sims": s.sims,
                "threads": s.max_threads, "jobs": s.jobs, "steals": s.steals, "nested": s.nested, "mem": s.mem,
                "hash": format!("{:016x}", s.hash), "result": format!("{:016x}", s.result),
                "faults": s.faults, "probes": s.probes, "known": s.known, "nt": s.nontrivial,
            });
            if cov {
                j["policy"] = env.spec.policy[0].into();
            }
            out(&format!("R {} {}", idx, j));
            true
        }
        Err(v) => {
            let rec = env.rec.clone();
            emit_violation(&env, &v, rec, None);
            false
        }
    }
}

fn coverage_line(c: &[std::sync::atomic::AtomicU8]) {
    let mut hex = String::with_capacity(c.len() / 4 + 1);
    for ch in c.chunks(4) {
        let v = ch
            .iter()
            .enumerate()
            .fold(0, |a, (i, b)| a | ((b.load(std::sync::atomic::Ordering::Relaxed) != 0) as u32) << i);
        hex.push(std::char::from_digit(v, 16).unwrap());
    }
    out(&format!("S {} {}", c.len(), hex));
}

/// Runs that share one process: single runs, so that each meets the library's statics and thread locals as a fresh
/// process has them, and now and then a row of runs, in which what one run leaves behind meets the next.
fn group_len(a: u64) -> u64 {
    if a / 64 % 2 == 0 {
        1
    } else {
        64 - a % 64
    }
}

fn shared_bytes(n: usize) -> &'static [std::sync::atomic::AtomicU8] {
    if n == 0 {
        return &[];
    }
    unsafe {
        let p = simrt::sys::syscall6(9, 0, n as i64, 3, 0x21, -1, 0);
        assert!(p > 0, "no shared memory");
        std::slice::from_raw_parts(p as *const std::sync::atomic::AtomicU8, n)
    }
}

/// Does `f` in a child process of its own; the status a shell would report.
fn in_child(f: impl FnOnce()) -> i32 {
    extern "C" {
        fn fork() -> i32;
    }
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        f();
        simrt::sys::exit_now(0);
    }
    let mut st = 0i32;
    while unsafe { simrt::sys::syscall6(61, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0) } == -4 {}
    if st & 0x7f != 0 {
        128 + (st & 0x7f)
    } else {
        (st >> 8) & 0xff
    }
}

/// Cases, reference streams and reference decodes for the cross-check against the C++ codec.
fn dump(seed: u64, n: u64) {
    use std::io::Write;
    let mut o = std::io::BufWriter::new(std::io::stdout().lock());
    let mut all: Vec<u8> = vec![];
    for k in 0..n {
        let mut r = simrt::rng::Rng::new(seed << 32 | k);
        let z = *r.pick(&[spec::Size::Tiny, spec::Size::Small, spec::Size::Small, spec::Size::Medium, spec::Size::Thin, spec::Size::Large]);
        let blocky = r.chance(1, 2);
        let mut c = spec::gen_case(&mut r, z, spec::Opt { blocky, ..Default::default() });
        c.metadata = 0;
        let mut p = c.params();
        p.shift = true;
        let img = c.image();
        let e = model::encode(&p, &img);
        if e.overflow {
            continue;
        }
        for v in [1, c.w, c.h, c.layers, c.channels] {
            all.extend((v as i32).to_le_bytes());
        }
        let mut put = |v: i64| all.extend((v as i32).to_le_bytes());
        for v in [c.quality as i64, c.chroma_scale as i64, c.block_size as i64, c.filter as i64, c.enc as i64, c.intent as i64, 0] {
            put(v);
        }
        let mut pr: Vec<i64> = vec![];
        for t in &p.prog {
            pr.push(t.dest as i64);
            for f in &t.factors {
                pr.push(f.0 as i64);
                pr.push(f.1 as i64);
            }
            pr.push(-1);
            pr.push(t.denom as i64);
            pr.push(t.chroma as i64);
        }
        pr.push(-1);
        put(pr.len() as i64);
        pr.iter().for_each(|v| put(*v));
        put(img.len() as i64);
        all.extend(&img);
        all.extend((e.bytes.len() as i32).to_le_bytes());
        all.extend(&e.bytes);
        let mut decs: Vec<(u32, bool, usize)> = (0..=c.levels() as u32).map(|d| (d, r.chance(1, 4), e.bytes.len())).collect();
        for _ in 0..12 {
            let d = if r.chance(1, 2) { 0 } else { r.below(c.levels() as u64) as u32 };
            let lo = e.payload_start() as u64 / 4;
            decs.push((d, r.chance(1, 4), 4 * r.range(lo, e.bytes.len() as u64 / 4) as usize));
        }
        let mut items = vec![];
        for (d, test, len) in decs {
            let m = model::decode_payload(&p, &e.bytes[e.payload_start()..len], d, test);
            // at the exact end of a table the reference waits for one more word
            if e.levels.iter().any(|l| l.step >> d >= 1 && e.payload_start() + l.payload == len) {
                continue;
            }
            let v = match m.verdict {
                model::Verdict::Complete => 0,
                model::Verdict::More(x) => (x + e.payload_start()) as i64,
                model::Verdict::Corrupt => -1,
            };
            let (px, over) = model::reconstruct(&p, m.coefs, d);
            if over {
                continue;
            }
            items.push((d, test, len, v, px));
        }
        all.extend((items.len() as i32).to_le_bytes());
        for (d, test, len, v, px) in items {
            for x in [d as i64, test as i64, len as i64, v, px.len() as i64] {
                all.extend((x as i32).to_le_bytes());
            }
            all.extend(&px);
        }
        o.write_all(&all).unwrap();
        all.clear();
    }
}

/// The same addresses in every process: results that depend on an address repeat, too.
fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: i64 = 0x0040000;
    unsafe {
        let now = simrt::sys::syscall6(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if now < 0 || now & NO_RANDOMIZE != 0 || simrt::sys::syscall6(135, now | NO_RANDOMIZE, 0, 0, 0, 0, 0) < 0 {
            return;
        }
        let now = simrt::sys::syscall6(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if now & NO_RANDOMIZE == 0 {
            return;
        }
    }
    if let Ok(me) = std::env::current_exe() {
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).exec();
    }
}

fn main() {
    fixed_addresses();
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    for (i, a) in args.iter().enumerate() {
        if a == "--known" {
            unsafe { scen::KNOWN.push(args[i + 1].clone()) }
        }
    }
    install_handlers();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let prop = opt("--prop").expect("--prop");
            let seed = num("--seed", 1);
            let every = num("--every", 8).max(1);
            let (from, to) = (num("--from", 0), num("--to", 1));
            let acc = shared_bytes(simrt::tsan::coverage().len());
            let mut status = 0;
            let mut a = from;
            while a < to && status == 0 {
                let b = (a + group_len(a)).min(to);
                let todo: Vec<u64> =
                    (a..b).filter(|i| scen::cfg_of(&prop, seed, *i) == CFG || i % every == 0).collect();
                a = b;
                if todo.is_empty() {
                    continue;
                }
                status = in_child(|| {
                    let mut ok = true;
                    for idx in todo {
                        out(&format!("B {}", idx));
                        let mut s = scen::gen(&prop, seed, idx);
                        s.cfg = CFG.into();
                        ok = one(s, true);
                        if !ok {
                            break;
                        }
                    }
                    for (x, y) in acc.iter().zip(simrt::tsan::coverage()) {
                        if *y != 0 {
                            x.store(1, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                    simrt::sys::exit_now(if ok { 0 } else { 1 });
                });
            }
            coverage_line(acc);
            simrt::sys::exit_now(status);
        }
        Some("exec") => {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let j: serde_json::Value = serde_json::from_str(&f).expect("replay file is not JSON");
            let mut specs: Vec<Spec> = vec![];
            if let Some(p) = j.get("prelude").and_then(|p| p.as_array()) {
                for x in p {
                    specs.push(serde_json::from_value(x.clone()).expect("spec"));
                }
            }
            let last = j.get("spec").cloned().unwrap_or(j.clone());
            specs.push(serde_json::from_value(last).expect("spec"));
            let mut ok = true;
            for s in specs {
                out(&format!("B {}", s.idx));
                ok = one(s, false);
                if !ok {
                    break;
                }
            }
            simrt::sys::exit_now(if ok { 0 } else { 1 });
        }
        Some("gen") => {
            let s = scen::gen(&opt("--prop").expect("--prop"), num("--seed", 1), num("--idx", 0));
            println!("{}", serde_json::to_string(&s).unwrap());
        }
        Some("dump") => dump(num("--seed", 1), num("--n", 100)),
        _ => {
            eprintln!("usage: gfwxsim worker|exec|gen ...");
            simrt::sys::exit_now(2);
        }
    }
}
