//! One scenario per property: generation of runs, the simulated execution, and the oracle.
use crate::damage;
use crate::gbuf::GBuf;
use crate::host::*;
use crate::io::*;
use crate::net;
use crate::spec::*;
use model::Verdict;
use simrt::{ledger, rng::Rng};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;

pub const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17"];

pub static mut KNOWN: Vec<String> = Vec::new();
fn is_known(k: &str) -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        KNOWN.iter().any(|x| x == k)
    }
}
pub const KF_PROGRAM_ROUNDING: [&str; 2] = ["C01-program-rounding", "C02-program-rounding"];
pub const KF_EARLIER_LEVEL: &str = "C04-underflow-inside-earlier-level";

// ------------------------------------------------------------------ generation

/// A size for a case; one in `huge` is of the kind that only counts, runs and products beyond some width meet.
fn pick_size(r: &mut Rng, cfg: &str, huge: u64) -> Size {
    let large = match cfg {
        "adaptive" => 30,
        "par" => 6,
        _ => 3,
    };
    if r.chance(1, huge) {
        return Size::Huge;
    }
    match r.below(100) {
        x if x < large => Size::Large,
        x if x < large + 12 => Size::Medium,
        x if x < large + 20 => Size::Thin,
        x if x < large + 40 => Size::Tiny,
        _ => Size::Small,
    }
}

fn rng_of(prop: &str, seed: u64, idx: u64) -> Rng {
    let tag = prop.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (tag << 40) ^ idx.wrapping_mul(0xD134_2543_DE82_EF95))
}
fn draw_cfg(r: &mut Rng, prop: &str) -> &'static str {
    let cfg = match r.below(10) {
        0 | 1 => "serial",
        2..=5 => "par",
        _ => "adaptive",
    };
    if (prop == "C10" || prop == "C12") && cfg == "serial" {
        "par"
    } else {
        cfg
    }
}
/// The build configuration run `idx` is meant for.
pub fn cfg_of(prop: &str, seed: u64, idx: u64) -> &'static str {
    draw_cfg(&mut rng_of(prop, seed, idx), prop)
}

pub fn gen(prop: &str, seed: u64, idx: u64) -> Spec {
    let mut s = gen_any(prop, seed, idx);
    for c in s.cases.iter_mut() {
        settle(c);
    }
    // nested parallel loops cost the pool planes * rows * threads
    let loops = s.cases.iter().map(|c| c.planes() * (1 + c.h.min(64))).max().unwrap_or(0);
    if loops > 20_000 {
        s.threads = s.threads.min(8);
    }
    s
}
fn gen_any(prop: &str, seed: u64, idx: u64) -> Spec {
    let mut r = rng_of(prop, seed, idx);
    let r = &mut r;
    let cfg = draw_cfg(r, prop);
    let mut s = Spec {
        prop: prop.into(),
        cfg: cfg.into(),
        seed,
        idx,
        threads: if r.chance(1, 30) { *r.pick(&[16usize, 33, 64]) } else { *r.pick(&[1usize, 2, 2, 3, 3, 4, 4, 5, 7, 12]) },
        policy: [0; 4],
        sched_seed: r.next() >> 8,
        ctx: if r.chance(1, 2) { 0 } else { r.below(CONTEXTS) as u8 },
        cases: vec![],
        n: BTreeMap::new(),
        ops: vec![],
        decisions: None,
    };
    macro_rules! n {
        ($k:expr, $v:expr) => {{
            let v = ($v) as i64;
            s.n.insert($k.to_string(), v);
        }};
    }
    let blocky = r.chance(2, 3);
    let mut small = true;
    let mut case = |r: &mut Rng, size: Size, o: Opt| {
        if size == Size::Huge || size == Size::Large || size == Size::Medium || size == Size::Thin {
            small = false;
        }
        gen_case(r, size, o)
    };
    let any = Opt { blocky, ..Opt::default() };
    match prop {
        "C01" => {
            let z = pick_size(r, cfg, 60);
            s.cases.push(case(r, z, any));
            n!("api", r.below(8));
            n!("fill", r.below(4));
            n!("extra", if r.chance(1, 2) { 0 } else { r.below(5000) });
            n!("end", r.below(2));
            n!("reps", if matches!(z, Size::Large | Size::Huge) { 1 } else { 1 + r.below(3) });
        }
        "C02" => {
            let z = pick_size(r, cfg, 60);
            let c = case(r, z, any);
            let lv = c.levels() as u64;
            n!("d", if r.chance(1, 2) { 0 } else { deep(r, lv + 3) });
            n!("api", r.below(8));
            n!("fill", r.below(4));
            n!("end", r.below(2));
            n!("aux_fill", if r.chance(1, 2) { 0 } else { 1 + r.below(1 << 20) });
            if r.chance(2, 5) {
                n!("other", r.next() >> 20);
                for _ in 0..r.range(1, 3) {
                    s.ops.push(damage::gen(r, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 13, 13, 6]));
                }
            }
            s.cases.push(c);
        }
        "C03" => {
            let z = pick_size(r, cfg, 60);
            s.cases.push(case(r, z, Opt { lossless: true, ..any }));
            n!("api", r.below(8));
            n!("dapi", r.below(8));
            n!("net", r.next() >> 20);
            n!("fill", r.below(4));
            n!("end", r.below(2));
            n!("model_stream", r.below(4) == 0);
        }
        "C04" => {
            let z = if r.chance(1, 12) { pick_size(r, cfg, 12) } else { *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Thin]) };
            let c = case(r, z, any);
            let lv = c.levels() as u64;
            n!("fill", r.below(4));
            n!("end", r.below(2));
            n!("d", if r.chance(2, 3) { 0 } else { deep(r, lv + 1) });
            if r.chance(1, 3) {
                n!("session", 1);
                n!("net", r.next() >> 20);
                n!("impatient", r.below(3));
                n!("api", r.below(8));
            } else {
                let k = if matches!(z, Size::Large | Size::Huge) { 2 } else { r.range(4, 24) };
                for _ in 0..k {
                    // where (kind, level, block, delta), downsampling, test, entry point
                    let d = if r.chance(1, 2) { 0 } else { deep(r, lv + 2) };
                    s.ops.push(vec![
                        r.below(6) as i64,
                        r.below(lv) as i64,
                        r.below(1 << 20) as i64,
                        *r.pick(&[-5i64, -4, -1, 0, 0, 1, 3, 4, 5]),
                        d as i64,
                        (r.below(3) == 0) as i64,
                        r.below(8) as i64,
                    ]);
                }
            }
            s.cases.push(c);
        }
        "C05" => {
            let z = *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Small, Size::Thin]);
            let z = if r.chance(1, 12) { pick_size(r, cfg, 6) } else { z };
            let mut c = case(r, z, any);
            if r.chance(1, 4) {
                c.content = 1;
            }
            let lv = c.levels() as u64;
            n!("d", if r.chance(1, 2) { 0 } else { deep(r, lv + 3) });
            n!("test", r.below(6) == 0);
            n!("api", r.below(8));
            n!("end", r.below(2));
            n!("other", r.next() >> 20);
            if r.chance(1, 6) {
                let top = 1 << r.range(6, 20);
                n!("crash_at", 1 + r.below(top));
                n!("fill", r.below(4));
                s.policy = [1, 250, *r.pick(&[5, 20, 100, 1000]), 0];
            } else {
                n!("trust_header", r.below(3) != 0);
                n!("bodyonly", r.below(2));
                if r.chance(1, 4) {
                    n!("short", if r.chance(1, 2) { 1 + r.below(4) } else { 1 + r.below(3000) });
                }
            }
            for _ in 0..r.range(1, 3) {
                s.ops.push(damage::gen(r, &[0, 0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9, 10, 11, 11, 12, 13, 13]));
            }
            s.cases.push(c);
        }
        "C06" => {
            let z = if r.chance(1, 8) { pick_size(r, cfg, 20) } else { *r.pick(&[Size::Small, Size::Small, Size::Medium]) };
            let c = case(r, z, Opt { blocky: true, ..Opt::default() });
            let lv = c.levels() as u64;
            n!("d", if r.chance(2, 3) { 0 } else { r.below(lv) });
            n!("end", r.below(2));
            let k = if matches!(z, Size::Large | Size::Huge) { 2 } else { 12 };
            for _ in 0..k {
                // level, block, how, seed
                let l = if r.chance(1, 4) { 0 } else { r.below(lv) };
                s.ops.push(vec![l as i64, r.below(1 << 20) as i64, r.below(8) as i64, (r.next() >> 24) as i64]);
            }
            s.cases.push(c);
        }
        "C07" => {
            let z = if r.chance(1, 8) { pick_size(r, cfg, 20) } else { *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Thin]) };
            let mut c = case(r, z, any);
            if r.chance(1, 3) {
                c.content = *r.pick(&[1u8, 4, 6, 7]);
            }
            n!("fill", r.below(4));
            n!("end", r.below(3) != 0);
            if r.chance(1, 6) {
                n!("short", if r.chance(1, 2) { 1 + r.below(4) } else { 1 + r.below(3000) });
            }
            let k = if matches!(z, Size::Large | Size::Huge) { 2 } else { r.range(3, 14) };
            for _ in 0..k {
                // kind, level, aux, delta, entry point
                s.ops.push(vec![
                    r.below(7) as i64,
                    r.below(c.levels() as u64) as i64,
                    r.below(1 << 20) as i64,
                    *r.pick(&[-8i64, -4, -3, -2, -1, -1, 0, 0, 1, 2, 3, 4, 8]),
                    r.below(8) as i64,
                ]);
            }
            s.cases.push(c);
        }
        "C08" => {
            n!("mode", r.below(3));
            n!("short", *r.pick(&[0, 30, 80, 100]));
            n!("intr", *r.pick(&[0, 10, 40, 60]));
            n!("pipe", 1 + r.below(64));
            n!("seed", r.next() >> 16);
            n!("trail", r.below(9));
            let z = *r.pick(&[Size::Tiny, Size::Small]);
            s.cases.push(case(r, z, any));
            for _ in 0..r.range(1, 6) {
                // (kind of end, position permille)
                s.ops.push(vec![r.below(3) as i64, r.below(1001) as i64]);
            }
        }
        "C09" | "C12" => {
            let ncallers = if prop == "C12" { r.range(1, 6) } else { r.range(2, 4) };
            let nc = r.range(1, 3);
            for _ in 0..nc {
                let z = if r.chance(1, 14) { pick_size(r, cfg, 20) } else { *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]) };
                let c = match s.cases.last() {
                    Some(c) if r.chance(2, 3) => near(r, c),
                    _ => { let m = *r.pick(&[6, 6, 12]); case(r, z, Opt { max_planes: m, ..any }) }
                };
                s.cases.push(c);
            }
            if prop == "C12" {
                s.threads = *r.pick(&[1, 1, 1, 2, 2, 3, 8, 12]);
            }
            n!("callers", ncallers);
            n!("shared", r.below(3));
            n!("end", r.below(2));
            n!("desk", r.below(64));
            for c in 0..ncallers {
                for _ in 0..r.range(1, if prop == "C12" { 2 } else { 4 }) {
                    let k = if r.chance(1, 2) { r.below(2) } else { r.below(9) };
                    s.ops.push(vec![
                        c as i64,
                        k as i64,
                        r.below(nc) as i64,
                        r.below(8) as i64,
                        if r.chance(2, 3) { 0 } else { r.below(8) as i64 },
                        (r.next() >> 24) as i64,
                        if r.chance(1, 2) { 0 } else { r.below(CONTEXTS) as i64 },
                    ]);
                }
            }
            let _ = small;
        }
        "C17" => {
            let ncallers = *r.pick(&[1u64, 1, 1, 2, 3]);
            let long = r.chance(3, 5);
            let nc = if !long {
                let z = if r.chance(1, 2) { pick_size(r, cfg, 8) } else { *r.pick(&[Size::Tiny, Size::Small, Size::Medium, Size::Thin]) };
                s.cases.push(case(r, z, any));
                1
            } else {
                // a long history of small calls: always the same ones, each time slightly different ones, ever
                // smaller ones, or very many tiny ones
                let kind = *r.pick(&[0u64, 1, 1, 2, 2, 3, 3]);
                let z = if kind == 3 { Size::Tiny } else { *r.pick(&[Size::Tiny, Size::Small, Size::Small]) };
                let mut c = case(r, z, Opt { max_planes: if kind == 3 { 3 } else { 6 }, ..any });
                if kind == 2 {
                    c.w = c.w.max(17 + r.below(8) as usize);
                }
                n!("vary", kind % 3 != 0);
                n!("reps", if kind == 3 { 64 } else { 16 });
                let (w, h) = (c.w, c.h);
                s.cases.push(c);
                if kind == 1 || kind == 2 {
                    for k in 1..16 {
                        let mut c = near(r, s.cases.last().unwrap());
                        if kind == 2 {
                            c = s.cases[0].clone();
                            c.w = w - k;
                            c.content_seed = c.content_seed.wrapping_add(k as u64);
                        } else {
                            c.w = 1 + (c.w - 1) % w;
                            c.h = 1 + (c.h - 1) % h;
                        }
                        s.cases.push(c);
                    }
                }
                if kind == 2 { 1 } else { s.cases.len() as u64 }
            };
            s.threads = *r.pick(&[1, 1, 2, 3, 4]);
            n!("callers", ncallers);
            n!("shared", r.below(3));
            n!("end", r.below(2));
            let places: &[i64] = if long { &[0, 0, 2, 3, 4, 5, 7] } else { &[0, 0, 0, 1, 2, 3, 4, 5, 6, 7] };
            for c in 0..ncallers {
                for _ in 0..r.range(1, if long { 3 } else { 5 }) {
                    let k = if r.chance(1, 4) { r.below(2) } else { r.below(11) };
                    s.ops.push(vec![
                        c as i64,
                        k as i64,
                        r.below(nc) as i64,
                        r.below(8) as i64,
                        if r.chance(2, 3) { 0 } else { r.below(8) as i64 },
                        (r.next() >> 24) as i64,
                        *r.pick(places),
                    ]);
                }
            }
            small = false;
        }
        "C10" => {
            let z = match r.below(12) {
                0 => Size::Large,
                1 | 2 => Size::Medium,
                3 => Size::Tiny,
                4 => Size::Thin,
                _ => Size::Small,
            };
            let z = if cfg == "adaptive" && r.chance(1, 4) { Size::Large } else { z };
            let b = r.chance(3, 4);
            let c = case(r, z, Opt { blocky: b, ..Opt::default() });
            let lv = c.levels() as u64;
            n!("d", if r.chance(2, 3) { 0 } else { r.below(lv) });
            n!("end", r.below(2));
            n!("what", r.below(3));
            n!("api", r.below(8));
            n!("test", r.below(8) == 0);
            // an incomplete or damaged stream, or too little room for one
            match r.below(6) {
                0 | 1 => n!("cut", 1),
                2 => n!("hurt", r.next() >> 20),
                _ => {}
            }
            if r.chance(1, 4) {
                n!("tight", 1);
            }
            s.ops.push(vec![r.below(6) as i64, r.below(lv) as i64, r.below(1 << 20) as i64, *r.pick(&[-5i64, -4, -1, 0, 1, 4, 5])]);
            s.ops.push(vec![r.below(7) as i64, r.below(lv) as i64, r.below(1 << 20) as i64, *r.pick(&[-8i64, -4, -1, 0, 1, 4, 8])]);
            s.threads = *r.pick(&[2usize, 2, 3, 4, 4, 6, 8]);
            s.cases.push(c);
        }
        "C11" => {
            let z = if r.chance(1, 8) { pick_size(r, cfg, 20) } else { *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium, Size::Thin]) };
            let b = r.chance(3, 4);
            let mut c = case(r, z, Opt { blocky: b, ..Opt::default() });
            let lv = c.levels() as u64;
            n!("api", r.below(8));
            n!("end", r.below(2));
            if r.chance(1, 3) {
                if r.chance(2, 3) {
                    c.content = *r.pick(&[6u8, 7, 6, 1, 3]);
                }
                n!("encode", 1);
                for _ in 0..r.range(2, 8) {
                    s.ops.push(vec![r.below(4) as i64, r.below(1 << 20) as i64, *r.pick(&[-8i64, -4, -1, 0])]);
                }
            } else {
                n!("d", if r.chance(2, 3) { 0 } else { r.below(lv) });
                for _ in 0..r.range(3, 12) {
                    // level, block, words dropped, extra failing blocks, cut after
                    s.ops.push(vec![
                        r.below(lv) as i64,
                        *r.pick(&[0i64, -1, 1, 7, 99, 12345]),
                        *r.pick(&[1i64, 1, 1, 2, 1 << 20]),
                        if r.chance(1, 4) { r.range(1, 4) as i64 } else { 0 },
                        r.below(4) as i64,
                    ]);
                }
            }
            s.cases.push(c);
        }
        _ => {
            // C13
            let z = if r.chance(1, 6) { pick_size(r, cfg, 16) } else { *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium, Size::Thin]) };
            let c = case(r, z, any);
            let lv = c.levels() as u64;
            n!("fill", r.below(4));
            n!("end", r.below(2));
            let k = if matches!(z, Size::Large | Size::Huge) { 2 } else { r.range(2, 10) };
            for _ in 0..k {
                // downsampling, tail treatment, where, seed, test, entry point
                s.ops.push(vec![
                    if r.chance(1, 8) { deep(r, lv + 4) } else { 1 + r.below(lv + 1) } as i64,
                    r.below(7) as i64,
                    r.below(1 << 20) as i64,
                    (r.next() >> 24) as i64,
                    r.chance(1, 5) as i64,
                    r.below(8) as i64,
                ]);
            }
            s.cases.push(c);
        }
    }
    if s.policy == [0; 4] {
        s.policy = gen_policy(r, small);
    }
    s
}

/// A downsampling; now and then far beyond what the image has levels for.
fn deep(r: &mut Rng, most: u64) -> u64 {
    if r.chance(1, 20) {
        *r.pick(&[20, 29, 30, 31, 32, 33, 40, 63, 64, 65, 127, 128, 1000, u32::MAX as u64])
    } else {
        r.below(most)
    }
}

/// A case that agrees with `c` in all but one or two respects: what one call leaves behind for it to trip over
/// must be told apart by that.
fn near(r: &mut Rng, c: &Case) -> Case {
    let mut n = c.clone();
    for _ in 0..r.range(1, 2) {
        match r.below(13) {
            0 => n.quality = *r.pick(&[1024, 1023, 512, 64, 8, 1]),
            1 => n.quality = r.range(1, 1024) as i32,
            2 => n.chroma_scale = if n.chroma_scale == 1 { 8 } else { 1 },
            3 => n.chroma_scale = r.range(1, 255) as i32,
            4 => n.filter = 1 - n.filter,
            5 => n.enc = (n.enc + 1 + r.below(2) as u8) % 3,
            6 => n.block_size = *r.pick(&[2u32, 3, 4, 5, 7]),
            7 => {
                n.content = r.below(12) as u8;
                n.content_seed = r.next() >> 16;
            }
            8 => std::mem::swap(&mut n.layers, &mut n.channels),
            9 => std::mem::swap(&mut n.w, &mut n.h),
            10 => {
                if r.chance(1, 2) {
                    n.w = (n.w + r.below(3) as usize).max(2) - 1
                } else {
                    n.h = (n.h + r.below(3) as usize).max(2) - 1
                }
            }
            11 if n.prog.is_empty() => n.prog = if n.planes() >= 3 { preset(r.below(4) as u8) } else { vec![T { dest: 0, factors: vec![], denom: 1, chroma: true }] },
            11 => {
                if r.chance(1, 2) {
                    n.prog.clear()
                } else {
                    n.prog.iter_mut().for_each(|t| t.chroma = !t.chroma)
                }
            }
            _ => {
                n.intent = *r.pick(&[0u8, 7, 8, 10, 11, 12]);
                n.metadata = 4 * r.below(1 << 12) as u32;
            }
        }
    }
    n
}

// ------------------------------------------------------------------ execution

pub fn run(env: &mut Env) -> Res {
    match env.spec.prop.as_str() {
        "C01" => c01(env),
        "C02" => c02(env),
        "C03" => c03(env),
        "C04" => c04(env),
        "C05" => c05(env),
        "C06" => c06(env),
        "C07" => c07(env),
        "C08" => c08(env),
        "C09" => c09(env),
        "C10" => c10(env),
        "C11" => c11(env),
        "C12" => c09(env),
        "C13" => c13(env),
        "C17" => c17(env),
        p => viol("usage", format!("unknown property {}", p)),
    }
}

fn intact(b: &GBuf, what: &str) -> Res {
    if b.intact() {
        Ok(())
    } else {
        viol("out-of-bounds", format!("bytes next to the {} buffer were overwritten", what))
    }
}
fn oob(r: &Result<usize, String>) -> Res {
    match r {
        Err(e) if e.starts_with("OUT-OF-BOUNDS") => viol("out-of-bounds", e.clone()),
        _ => Ok(()),
    }
}

/// The parameters with the reference codec's rounding, where that can make a difference.
fn shifted(c: &Case) -> Option<model::Params> {
    let mut p = c.params();
    p.shift = true;
    if p.prog.iter().any(|t| matches!(t.denom, 2 | 4 | 8)) {
        Some(p)
    } else {
        None
    }
}

fn c01(env: &mut Env) -> Res {
    let s = env.spec.clone();
    for (ci, c) in s.cases.iter().enumerate() {
        let re = reference(c);
        let want = &re.enc.bytes;
        let shifted = shifted(c).map(|p| model::encode(&p, &re.img).bytes).filter(|b| b != want);
        for rep in 0..s.get("reps").max(1) as u64 {
            let mut r = Rng::new(s.seed ^ s.idx << 8 ^ rep);
            let a = api(s.get("api") as u64 + rep);
            let mut buf = GBuf::new(re.p.ample() + s.get("extra") as usize, s.get("end") != 0);
            fill(buf.bytes_mut(), s.get("fill") as u64 + rep, &mut r);
            let img = GBuf::from(&re.img, s.get("end") != 0);
            let res = {
                let (b, i) = (buf.bytes_mut(), img.bytes());
                env.sim(SimOpt { salt: rep, ..SCHED }, || {
                    in_ctx(s.ctx, s.threads, || compress(c, i, b, a, rep % 2 == 0))
                })?
            };
            oob(&res)?;
            intact(&buf, "output")?;
            intact(&img, "image")?;
            match res {
                Err(e) => return viol("failed", format!("case {} {:?}: compression into an ample buffer returned error {}", ci, a, e)),
                Ok(n) => {
                    let got = &buf.bytes()[..n.min(buf.len())];
                    let exact = shifted.as_ref().unwrap_or(want);
                    if n <= buf.len() && got != &exact[..] && got == &want[..] && is_known(KF_PROGRAM_ROUNDING[0]) {
                        *env.st.known.entry(KF_PROGRAM_ROUNDING[0].into()).or_insert(0) += 1;
                    } else if n > buf.len() || got != &exact[..] {
                        return viol(
                            "bytes",
                            format!("case {} {:?}: stream differs from the format: {}", ci, a, first_diff(got, if shifted.is_some() { exact } else { want })),
                        );
                    }
                    let b = buf.bytes()[..n].to_vec();
                    env.note_result(&b);
                }
            }
            env.probe("streams compared", 1);
        }
    }
    Ok(())
}

/// What the format prescribes for decoding `body` (program intact).
struct Want {
    verdict: Verdict,
    pixels: Option<Vec<u8>>,
    overflow: bool,
    early: bool,
}
fn want(re: &Ref, body: &[u8], d: usize, test: bool) -> Want {
    let payload = &body[re.enc.program_len..];
    let m = model::decode_payload(&re.p, payload, d as u32, test);
    let mut overflow = m.overflow;
    let pixels = if test || m.verdict == Verdict::Corrupt {
        None
    } else {
        let (px, o) = model::reconstruct(&re.p, m.coefs, d as u32);
        overflow |= o;
        Some(px)
    };
    Want { verdict: m.verdict, pixels, overflow, early: m.cut_inside_earlier_level }
}

/// Compares a decode with what the format prescribes; `len` is the number of bytes passed in.
fn judge(env: &mut Env, re: &Ref, w: &Want, got: &Dec, out: &[u8], what: &str, allow_early: bool) -> Res {
    oob(got)?;
    let text = |v: &Dec| match v {
        Ok(n) => format!("Ok({})", n),
        Err(e) => format!("error {}", e),
    };
    if w.early {
        // the data end inside the payload of a level that is not the last one needed
        if let Err(e) = got {
            if e == "underflow" && allow_early {
                *env.st.known.entry(KF_EARLIER_LEVEL.into()).or_insert(0) += 1;
                return Ok(());
            }
        }
    }
    match (&w.verdict, got) {
        (Verdict::Corrupt, Err(_)) => Ok(()),
        (Verdict::Corrupt, Ok(_)) => viol("verdict", format!("{}: a block runs out of data, yet {}", what, text(got))),
        (Verdict::Complete, Ok(0)) | (Verdict::More(_), Ok(_)) => {
            if let Verdict::More(p) = w.verdict {
                let p = p + re.enc.program_len;
                if *got != Ok(p) {
                    return viol("point-of-interest", format!("{}: {} where the format says {}", what, text(got), p));
                }
            }
            if let Some(px) = &w.pixels {
                if !w.overflow && px[..] != out[..px.len()] {
                    return viol("pixels", format!("{}: {}", what, first_diff(&out[..px.len()], px)));
                }
            }
            Ok(())
        }
        (v, g) => viol("verdict", format!("{}: {} where the format says {:?}", what, text(g), v)),
    }
}

fn older(c: &Case, salt: i64) -> Vec<u8> {
    let mut o = c.clone();
    o.content_seed ^= salt as u64;
    o.content = (o.content + 1 + (salt as u8 % 5)) % 11;
    reference(&o).enc.bytes
}

fn c02(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let d = s.get("d") as usize;
    let end = s.get("end") != 0;
    for c in &s.cases {
        let re = reference(c);
        let h = header_of(c);
        let mut stream = re.enc.bytes.clone();
        let mut damaged = 0;
        if !s.ops.is_empty() {
            let other = older(c, s.get("other"));
            for op in &s.ops {
                if damage::apply(&mut stream, op, &re, &other) {
                    damaged += 1;
                    env.fault(damage::KINDS[op[0] as usize], 1);
                }
            }
            // this property presents damaged payloads and tables; the header and program stay
            let k = re.enc.payload_start();
            if stream.len() < k {
                stream = re.enc.bytes[..k].to_vec();
            }
            stream[..k].copy_from_slice(&re.enc.bytes[..k]);
        }
        let body = GBuf::from(&stream[re.enc.header_len..], end);
        let mut w = want(&re, body.bytes(), d, false);
        // the same with the reference codec's rounding in colour programs
        let exact = shifted(c).and_then(|p| {
            let m = model::decode_payload(&p, &body.bytes()[re.enc.program_len..], d as u32, false);
            if m.verdict == Verdict::Corrupt {
                return None;
            }
            let px = model::reconstruct(&p, m.coefs, d as u32).0;
            if w.pixels.as_ref() == Some(&px) {
                None
            } else {
                Some(px)
            }
        });
        let a = api(s.get("api") as u64);
        // With no level left at this scale nothing is decoded: the caller's zeros stand.
        if damaged == 0 && re.p.top_step() >> d.min(40) >= 1 {
            AUX_FILL.store(s.get("aux_fill") as u64, Ordering::Relaxed);
        }
        let mut outs = vec![];
        let rounds = if damaged > 0 { 2 } else { 1 };
        for round in 0..rounds {
            let mut out = GBuf::new(re.out_len(d), end);
            fill(out.bytes_mut(), s.get("fill") as u64, &mut Rng::new(s.idx));
            let got = {
                let (o, b, h) = (out.bytes_mut(), body.bytes(), &h);
                if round == 1 {
                    env.sim(SEQ, || decompress(h, b, d, false, o, a, end))?
                } else {
                    env.sim(SCHED, || in_ctx(s.ctx, s.threads, || decompress(h, b, d, false, o, a, end)))?
                }
            };
            intact(&out, "pixel")?;
            intact(&body, "input")?;
            outs.push((got, out.bytes().to_vec()));
        }
        AUX_FILL.store(0, Ordering::Relaxed);
        let (got, px) = outs[0].clone();
        if damaged > 0 {
            let (g2, p2) = &outs[1];
            if got != *g2 {
                return viol("schedule-dependent", format!("damaged stream: {:?} under this schedule, {:?} sequentially", got, g2));
            }
            if got.is_ok() && px != *p2 {
                return viol("schedule-dependent", format!("damaged stream, pixels: {}", first_diff(&px, p2)));
            }
            env.probe("damaged streams compared", 1);
        }
        if let (Some(e), false) = (&exact, w.overflow) {
            if e[..] == px[..e.len()] {
                w.pixels = exact;
            } else if got.is_ok() {
                if !is_known(KF_PROGRAM_ROUNDING[1]) {
                    return viol("pixels", format!("downsampling {} {:?}: {}", d, a, first_diff(&px[..e.len()], e)));
                }
                *env.st.known.entry(KF_PROGRAM_ROUNDING[1].into()).or_insert(0) += 1;
            }
        }
        if damaged == 0 || !w.overflow {
            judge(env, &re, &w, &got, &px, &format!("downsampling {} {:?}", d, a), damaged > 0)?;
        }
        match &got {
            Ok(v) => {
                env.note_result(&v.to_le_bytes());
                env.note_result(&px);
            }
            Err(e) => env.note_result(e.as_bytes()),
        }
        env.probe("decodes compared", 1);
    }
    Ok(())
}

fn c03(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    for c in &s.cases {
        let p = c.params();
        let img = c.image();
        let bytes = if s.get("model_stream") != 0 {
            model::encode(&p, &img).bytes
        } else {
            let mut buf = GBuf::new(p.ample(), end);
            fill(buf.bytes_mut(), s.get("fill") as u64, &mut Rng::new(s.idx));
            let res = {
                let (b, i) = (buf.bytes_mut(), &img[..]);
                let a = api(s.get("api") as u64);
                env.sim(SCHED, || in_ctx(s.ctx, s.threads, || compress(c, i, b, a, end)))?
            };
            oob(&res)?;
            match res {
                Ok(n) => buf.bytes()[..n].to_vec(),
                Err(e) => return viol("failed", format!("compression failed: {}", e)),
            }
        };
        let del = net::deliver(&bytes, s.get("net") as u64);
        env.fault("packet-loss", del.lost);
        env.fault("packet-duplication", del.duplicated);
        env.fault("packet-reordering", del.reordered);
        env.fault("network-partition-drop", del.partitions);
        env.probe("simulated-microseconds", del.end);
        let got = GBuf::from(&del.bytes, end);
        let mut out = GBuf::new(img.len(), end);
        fill(out.bytes_mut(), s.get("fill") as u64 + 1, &mut Rng::new(s.idx));
        // while the transfer lasts the client looks at what has arrived so far
        let looks: Vec<usize> = del.timeline.iter().map(|x| x.1).filter(|&x| x > 32).step_by(1 + del.timeline.len() / 2).collect();
        let a = api(s.get("dapi") as u64);
        let res = {
            let (o, b, looks) = (out.bytes_mut(), got.bytes(), &looks);
            env.sim(SCHED, || {
                in_ctx(s.ctx, s.threads, || {
                    for &l in looks {
                        if let Ok(h) = gfwx::Header::decode(&mut &b[..l]) {
                            let _ = decompress(&h, &b[32..l], 0, false, o, a, end);
                        }
                    }
                    let mut cur = b;
                    let h = match gfwx::Header::decode(&mut cur) {
                        Ok(h) => h,
                        Err(e) => return Err(format!("header: {}", e)),
                    };
                    decompress(&h, cur, 0, false, o, a, end)
                })
            })?
        };
        oob(&res)?;
        intact(&out, "pixel")?;
        intact(&got, "input")?;
        match res {
            Ok(0) => {
                if out.bytes() != &img[..] {
                    return viol("pixels", format!("lossless round trip changed a pixel: {}", first_diff(out.bytes(), &img)));
                }
            }
            r => return viol("failed", format!("decoding the complete stream returned {:?}", r)),
        }
        env.probe("round trips", 1);
    }
    Ok(())
}

/// A prefix length of the body, from an op (kind, level, aux, delta).
fn place(re: &Ref, op: &[i64]) -> usize {
    let pl = re.enc.program_len as i64;
    let body = re.body().len() as i64;
    let lv = &re.enc.levels[op[1] as usize % re.enc.levels.len()];
    let at = match op[0] {
        0 => pl + lv.table as i64,
        1 => pl + lv.payload as i64,
        2 => pl + lv.end as i64,
        3 => {
            let b = &lv.blocks[op[2] as usize % lv.blocks.len()];
            pl + (b.off + b.len) as i64
        }
        4 => pl + op[2] % (body - pl + 1),
        _ => pl + lv.table as i64 + op[2] % ((lv.end - lv.table).max(1) as i64),
    };
    (at + op[3]).clamp(pl, body) as usize
}

fn c04(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let allow = is_known(KF_EARLIER_LEVEL);
    let c = &s.cases[0];
    let re = reference(c);
    let h = header_of(c);
    if s.get("session") == 0 {
        let mut plan = vec![];
        for op in &s.ops {
            let len = place(&re, op);
            let d = op[4] as usize;
            let mut out = GBuf::new(re.out_len(d), end);
            fill(out.bytes_mut(), s.get("fill") as u64, &mut Rng::new(s.idx));
            plan.push((len, d, op[5] != 0, api(op[6] as u64), GBuf::from(&re.body()[..len], end), out, Ok(0)));
        }
        {
            let (plan, h) = (&mut plan, &h);
            env.sim(SCHED, || {
                in_ctx(s.ctx, s.threads, || {
                    for p in plan.iter_mut() {
                        p.6 = decompress(h, p.4.bytes(), p.1, p.2, p.5.bytes_mut(), p.3, end);
                    }
                })
            })?;
        }
        for (len, d, test, a, inp, out, got) in plan.iter() {
            intact(inp, "input")?;
            intact(out, "pixel")?;
            let w = want(&re, inp.bytes(), *d, *test);
            let what = format!("prefix of {} of {} bytes, downsampling {}, test {}, {:?}", len, re.body().len(), d, test, a);
            judge(env, &re, &w, got, out.bytes(), &what, allow)?;
            if let Ok(p) = got {
                if *p != 0 && *p <= *len {
                    return viol("no-progress", format!("{}: asked to wait for {} bytes, which had arrived", what, p));
                }
            }
            if *len < re.body().len() {
                env.fault("delivery-cut", 1);
            }
            env.probe("prefixes decoded", 1);
        }
        return Ok(());
    }
    // a streaming session: wait each time for as many bytes as the library asked for
    let d = s.get("d") as usize;
    let del = net::deliver(re.body(), s.get("net") as u64);
    env.fault("packet-loss", del.lost);
    env.fault("packet-duplication", del.duplicated);
    env.fault("packet-reordering", del.reordered);
    env.fault("network-partition-drop", del.partitions);
    env.probe("simulated-microseconds", del.end);
    let tl: Vec<(u64, usize)> = del.timeline.clone();
    let body = del.bytes.clone();
    let mut have = tl.iter().map(|x| x.1).find(|&x| x >= re.enc.program_len).unwrap_or(body.len());
    let mut out = GBuf::new(re.out_len(d), end);
    let mut rounds = 0;
    let mut log: Vec<(usize, Dec)> = vec![];
    let a = api(s.get("api") as u64);
    let max_rounds = 3 * tl.len() + 3 * re.enc.levels.len() + 16;
    loop {
        rounds += 1;
        if rounds > 20 && rounds * (body.len() + 8 * c.planes() * (1 + c.h)) > 2_000_000 || rounds > max_rounds && s.get("impatient") == 2 {
            // a client that takes exactly what it is told to can need one round per kilobyte: enough of that
            have = body.len();
        } else if rounds > max_rounds {
            return viol("no-progress", format!("streaming client still waiting after {} rounds with {} of {} bytes", rounds, have, body.len()));
        }
        let inp = GBuf::from(&body[..have], end);
        fill(out.bytes_mut(), s.get("fill") as u64, &mut Rng::new(s.idx ^ rounds as u64));
        let got = {
            let (o, b, h) = (out.bytes_mut(), inp.bytes(), &h);
            env.sim(SimOpt { salt: rounds as u64, ..SCHED }, || in_ctx(s.ctx, s.threads, || decompress(h, b, d, false, o, a, end)))?
        };
        intact(&out, "pixel")?;
        let w = want(&re, inp.bytes(), d, false);
        judge(env, &re, &w, &got, out.bytes(), &format!("session round {} with {} bytes", rounds, have), allow)?;
        log.push((have, got.clone()));
        match got {
            Ok(0) => break,
            Ok(p) => {
                if have == body.len() {
                    return viol("no-progress", format!("all {} bytes arrived, still asked to wait for {}", have, p));
                }
                if p <= have {
                    return viol("no-progress", format!("with {} bytes, asked to wait for {}", have, p));
                }
                // the impatient client looks again at every arrival, the patient one at the point of interest
                let need = if s.get("impatient") == 1 { have + 1 } else { p };
                have = tl.iter().map(|x| x.1).find(|&x| x >= need).unwrap_or(body.len());
                if s.get("impatient") == 2 {
                    have = have.min(p.min(body.len())).max(have.min(p));
                }
            }
            Err(_) => {
                have = tl.iter().map(|x| x.1).find(|&x| x > have).unwrap_or(body.len());
            }
        }
    }
    let w = want(&re, re.body(), d, false);
    if let Some(px) = &w.pixels {
        if !w.overflow && px[..] != out.bytes()[..] {
            return viol("pixels", format!("image after the session: {}", first_diff(out.bytes(), px)));
        }
    }
    env.probe("streaming sessions", 1);
    env.probe("session rounds", rounds as u64);
    Ok(())
}

fn c05(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let d = s.get("d") as usize;
    let c = &s.cases[0];
    let re = reference(c);
    let mut stream;
    if s.get("crash_at") > 0 {
        // the process dies while it compresses into a mapped file: what is there is all that is left
        let mut buf = GBuf::new(re.p.ample(), end);
        fill(buf.bytes_mut(), s.get("fill") as u64, &mut Rng::new(s.idx));
        let at = s.get("crash_at") as u64;
        let (lo, n) = (buf.addr(), buf.len());
        let mut snap: Vec<u8> = vec![];
        let mut done = false;
        {
            let (b, snap, done) = (buf.bytes_mut(), &mut snap, &mut done);
            let dp = done as *mut bool as usize;
            let img = &re.img;
            let a = api(s.get("api") as u64);
            env.sim(SCHED, || {
                let mut fs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
                let (ctx, th) = (s.ctx, s.threads);
                fs.push(Box::new(move || {
                    let _ = in_ctx(ctx, th, || compress(c, img, b, a, end));
                    unsafe { *(dp as *mut bool) = true };
                }));
                fs.push(Box::new(move || {
                    while simrt::steps() < at && !unsafe { std::ptr::read_volatile(dp as *const bool) } {
                        simrt::give_way();
                    }
                    *snap = unsafe { std::slice::from_raw_parts(lo as *const u8, n) }.to_vec();
                }));
                for r in callers(fs) {
                    if let Err(e) = r {
                        std::panic::panic_any(e);
                    }
                }
            })?;
        }
        env.fault("crash-snapshot", 1);
        let keep = (re.enc.bytes.len() + (s.idx as usize % 64)).min(snap.len());
        snap.truncate(keep);
        stream = snap;
        env.note_result(b"");
    } else {
        stream = re.enc.bytes.clone();
        let other = older(c, s.get("other"));
        for op in &s.ops {
            if s.get("bodyonly") != 0 && op[0] == 12 {
                continue;
            }
            if damage::apply(&mut stream, op, &re, &other) {
                env.fault(damage::KINDS[op[0] as usize], 1);
            }
        }
    }
    let file = GBuf::from(&stream, end);
    let test = s.get("test") != 0;
    let a = api(s.get("api") as u64);
    let trust = s.get("trust_header") != 0 || s.get("crash_at") > 0;
    let orig = header_of(c);
    env.limit = 20_000_000 + c.elems() as u64 * 40_000 + (stream.len() as u64) * 100 * (c.elems() as u64).min(20_000);
    let b = file.bytes();
    // header as found, or the one remembered from before the damage
    let head = env.sim(SCHED, || gfwx::Header::decode(&mut &b[..]))?;
    let mut heads = vec![];
    match head {
        Ok(h) => {
            let px = (h.width as u128) * (h.height as u128) * (h.layers as u128) * (h.channels as u128);
            // the client refuses pictures it has no memory for
            if px <= 200_000 && h.layers as usize * h.channels as usize <= 4096 {
                heads.push(h);
            } else {
                env.probe("refused by the client as too large", 1);
            }
        }
        Err(_) => env.probe("headers refused", 1),
    }
    if trust {
        heads.push(orig);
    }
    for h in heads {
        let el = h.get_image_size() as u64;
        env.limit = env.limit.max(20_000_000 + el * 40_000 + stream.len() as u64 * 100 * el.min(20_000));
        let n = h.get_downsampled_image_size(d);
        let mut out = GBuf::new(n, end);
        if stream.len() < 32 {
            continue;
        }
        let got = {
            let (o, b, h) = (out.bytes_mut(), &file.bytes()[32..], &h);
            env.sim(SCHED, || in_ctx(s.ctx, s.threads, || decompress(h, b, d, test, o, a, end)))?
        };
        oob(&got)?;
        intact(&out, "pixel")?;
        intact(&file, "input")?;
        if s.get("short") > 0 {
            let b = &file.bytes()[32..];
            let (h, k) = (&h, s.get("short") as usize);
            let r = env.sim(SCHED, || in_ctx(s.ctx, s.threads, || short_decode(h, b, d, test, k, end)))?;
            oob(&r)?;
            intact(&file, "input")?;
            env.fault("coefficient-buffer-too-small", 1);
        }
        match got {
            Ok(_) => env.probe("damaged streams decoded", 1),
            Err(_) => env.probe("damaged streams rejected", 1),
        }
    }
    Ok(())
}

fn c06(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let d = s.get("d") as usize;
    let c = &s.cases[0];
    let re = reference(c);
    let h = header_of(c);
    let chroma = re.p.is_chroma();
    let payload = re.enc.payload().to_vec();
    let base = model::decode_payload(&re.p, &payload, d as u32, false);
    let (dw, dh) = (re.p.dw(d as u32), re.p.dh(d as u32));
    let base_px = model::reconstruct(&re.p, base.coefs.clone(), d as u32);
    // build the damaged variants
    struct Job {
        level: usize,
        block: usize,
        data: GBuf,
        aux: GBuf,
        px: GBuf,
        got: Result<usize, String>,
        dec: Dec,
        what: String,
    }
    let mut jobs: Vec<Job> = vec![];
    for op in &s.ops {
        let li = op[0] as usize % re.enc.levels.len();
        let lv = &re.enc.levels[li];
        if lv.step >> d < 1 {
            continue;
        }
        let bi = op[1] as usize % lv.blocks.len();
        let b = &lv.blocks[bi];
        if b.len == 0 {
            continue;
        }
        let mut x = payload.clone();
        let mut r = Rng::new(op[3] as u64);
        let w = b.off..b.off + b.len;
        match op[2] {
            0 => x[b.off + r.below(b.len as u64) as usize] ^= 1 << r.below(8),
            1 => x[w].iter_mut().for_each(|v| *v = r.below(256) as u8),
            2 => x[w].fill(0xff),
            3 => {
                // last word: mostly padding, likely to decode
                x[b.off + b.len - 4 + r.below(4) as usize] ^= r.below(256) as u8
            }
            4 => {
                let k = b.off + 4 * r.below(b.len as u64 / 4) as usize;
                x[k..k + 4].copy_from_slice(&(r.next() as u32).to_le_bytes());
            }
            _ => {
                // a word that starts with many zeros is the start of a large number: often the first one
                let k = if r.chance(1, 2) { b.off } else { b.off + 4 * r.below(b.len as u64 / 4) as usize };
                x[k..k + 4].copy_from_slice(&((r.next() as u32) >> r.below(32)).to_le_bytes());
            }
        }
        if x == payload {
            continue;
        }
        let mut aux = GBuf::i16s(dw * dh * re.p.planes(), end);
        aux.words_mut().fill(0);
        let mut full = re.body()[..re.enc.program_len].to_vec();
        full.extend_from_slice(&x);
        jobs.push(Job {
            level: li,
            block: bi,
            data: GBuf::from(&full, end),
            aux,
            px: GBuf::new(re.out_len(d), end),
            got: Ok(0),
            dec: Ok(0),
            what: format!("level step {} plane {} block at ({},{})", lv.step, b.plane, b.x0, b.y0),
        });
    }
    {
        let (jobs, h, chroma) = (&mut jobs, &h, &chroma);
        let pl = re.enc.program_len;
        env.sim(SCHED, || {
            in_ctx(s.ctx, s.threads, || {
                for j in jobs.iter_mut() {
                    j.got = gfwx::compress::decompress_image_data(j.aux.words_mut(), h, &j.data.bytes()[pl..], d, false, chroma)
                        .map_err(|e| derr(&e));
                    if j.got.is_ok() {
                        j.dec = decompress(h, j.data.bytes(), d, false, j.px.bytes_mut(), Api::Simple, end);
                    }
                }
            })
        })?;
    }
    for j in &jobs {
        env.fault("payload-corruption", 1);
        intact(&j.aux, "coefficient")?;
        intact(&j.data, "input")?;
        intact(&j.px, "pixel")?;
        let lv = &re.enc.levels[j.level];
        let b = &lv.blocks[j.block];
        match &j.got {
            Err(_) => {
                env.probe("damage detected", 1);
                continue;
            }
            Ok(0) => {}
            Ok(p) => return viol("verdict", format!("{}: lengths untouched, yet decoding asks for {} bytes", j.what, p)),
        }
        env.probe("damage decoded silently", 1);
        if base.overflow {
            continue;
        }
        let contextual = re.p.enc == model::Enc::Contextual;
        let (x0, y0, x1, y1) = (b.x0 >> d, b.y0 >> d, (b.x1 + (1 << d) - 1) >> d, (b.y1 + (1 << d) - 1) >> d);
        let step = lv.step >> d;
        for k in 0..re.p.planes() {
            for y in 0..dh {
                for x in 0..dw {
                    let v = j.aux.words()[(k * dh + y) * dw + x] as i64;
                    let w = base.coefs[k].v[y * dw + x];
                    if v == w {
                        continue;
                    }
                    let inside = k == b.plane && x >= x0 && x < x1 && y >= y0 && y < y1;
                    // elements this very block codes (or finer ones whose context it feeds)
                    let own = x % step == 0 && y % step == 0 && ((x | y) & step != 0 || (j.level == 0 && x == x0 && y == y0));
                    let finer = x % step != 0 || y % step != 0;
                    if !inside || !(own || (contextual && finer)) {
                        return viol(
                            "leak",
                            format!("{}: coefficient ({},{}) of plane {} changed from {} to {}", j.what, x, y, k, w, v),
                        );
                    }
                }
            }
        }
        // pixels of planes the colour program does not connect with the damaged one
        if j.dec != Ok(0) {
            return viol("verdict", format!("{}: coefficient decode succeeds, pixel decode gives {:?}", j.what, j.dec));
        }
        let mut dirty = vec![false; re.p.planes()];
        dirty[b.plane] = true;
        for t in re.p.prog.iter().rev() {
            if t.factors.iter().any(|f| f.1 != 0 && dirty[f.0]) {
                dirty[t.dest] = true;
            }
        }
        if !base_px.1 {
            let n = dw * dh;
            let ch = re.p.channels;
            for k in 0..re.p.planes() {
                if dirty[k] {
                    continue;
                }
                for i in 0..n {
                    let at = (k / ch) * n * ch + k % ch + i * ch;
                    if j.px.bytes()[at] != base_px.0[at] {
                        return viol("leak", format!("{}: pixel {} of plane {} changed", j.what, i, k));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Output capacities around the places where space runs out.
fn capacity(re: &Ref, op: &[i64]) -> usize {
    let ps = re.enc.payload_start();
    let lv = &re.enc.levels[op[1] as usize % re.enc.levels.len()];
    let nb = lv.blocks.len();
    let c = match op[0] {
        0 => op[2] as usize % (ps + 1),
        1 => ps + lv.table,
        2 => ps + lv.payload,
        3 => ps + lv.payload + nb * lv.blocks.iter().map(|b| b.len).max().unwrap_or(0),
        4 => {
            let mut l: Vec<usize> = lv.blocks.iter().map(|b| b.len).collect();
            l.sort();
            let k = op[2] as usize % l.len();
            ps + lv.payload + nb * (l[k] + op[2] as usize % 5)
        }
        5 => op[2] as usize % (re.enc.bytes.len() + 64),
        _ => re.enc.bytes.len(),
    };
    (c as i64 + op[3]).max(0) as usize
}

fn c07(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let c = &s.cases[0];
    let re = reference(c);
    let jobs: Vec<(usize, Api)> = s.ops.iter().map(|o| (capacity(&re, o), api(o[4] as u64))).collect();
    let mut all: Vec<Vec<Result<usize, String>>> = vec![];
    for round in 0..2u64 {
        let mut bufs: Vec<GBuf> = jobs
            .iter()
            .map(|j| {
                let mut b = GBuf::new(j.0, end);
                fill(b.bytes_mut(), s.get("fill") as u64 + round, &mut Rng::new(s.idx + round));
                b
            })
            .collect();
        let mut res: Vec<Result<usize, String>> = vec![];
        {
            let (bufs, res, jobs, img) = (&mut bufs, &mut res, &jobs, &re.img);
            let o = if round == 0 { SCHED } else { SEQ };
            let (ctx, th) = if round == 0 { (s.ctx, s.threads) } else { (0, 1) };
            env.sim(o, || {
                in_ctx(ctx, th, || {
                    for (b, j) in bufs.iter_mut().zip(jobs) {
                        res.push(compress(c, img, b.bytes_mut(), j.1, end));
                    }
                })
            })?;
        }
        for (i, (b, r)) in bufs.iter().zip(&res).enumerate() {
            oob(r)?;
            intact(b, "output")?;
            match r {
                Ok(n) => {
                    if *n > b.len() || b.bytes()[..*n] != re.enc.bytes[..] {
                        return viol(
                            "bytes",
                            format!(
                                "capacity {}: success claimed with a wrong stream: {}",
                                jobs[i].0,
                                first_diff(&b.bytes()[..(*n).min(b.len())], &re.enc.bytes)
                            ),
                        );
                    }
                    env.probe("fitted", 1);
                }
                Err(_) => {
                    if jobs[i].0 >= re.p.ample() {
                        return viol("failed", format!("capacity {} is ample, yet compression failed", jobs[i].0));
                    }
                    if round == 0 {
                        env.fault("output-space-exhausted", 1);
                    }
                }
            }
        }
        all.push(res);
    }
    if s.get("short") > 0 {
        let mut b = GBuf::new(re.p.ample(), end);
        let (bb, re, k) = (b.bytes_mut(), &re, s.get("short") as usize);
        let r = env.sim(SCHED, || in_ctx(s.ctx, s.threads, || short_encode(c, re, bb, k, end)))?;
        oob(&r)?;
        intact(&b, "output")?;
        if let Ok(n) = r {
            return viol("bytes", format!("coefficient buffer {} elements short: success claimed ({} bytes)", k, n));
        }
        env.fault("coefficient-buffer-too-small", 1);
    }
    for (i, (a, b)) in all[0].iter().zip(&all[1]).enumerate() {
        if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
            return viol(
                "schedule-dependent",
                format!("capacity {}: {:?} under this schedule, {:?} sequentially", jobs[i].0, a, b),
            );
        }
        env.note_result(&[a.is_ok() as u8]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

fn end_of(op: &[i64], len: usize) -> End {
    let at = (op[1] as usize * len) / 1000;
    match op[0] {
        0 => End::Error(at),
        1 => End::Closed(at),
        _ => End::Never,
    }
}

fn note_io(env: &mut Env, f: &IoFaults) {
    env.fault("short-transfer", f.short);
    env.fault("interrupted-call", f.interrupted);
    env.fault("io-error", f.error);
    env.fault("unexpected-end", f.closed);
}

fn builder(r: &mut Rng) -> gfwx::HeaderBuilder {
    let u16v = |r: &mut Rng| match r.below(4) {
        0 => *r.pick(&[0u16, 1, 2, 3, 255, 256, 65535, 65534]),
        1 => r.below(65536) as u16,
        _ => 1 + r.below(10) as u16,
    };
    let dim = |r: &mut Rng| match r.below(5) {
        0 => *r.pick(&[0u32, 1, 2, (1 << 30) - 1, 1 << 30, u32::MAX, 65535]),
        1 => r.below(1 << 30) as u32,
        _ => 1 + r.below(4000) as u32,
    };
    gfwx::HeaderBuilder {
        width: dim(r),
        height: dim(r),
        layers: u16v(r),
        channels: u16v(r),
        quality: if r.chance(1, 5) { *r.pick(&[0u16, 1, 1024, 1025, 65535]) } else { 1 + r.below(1024) as u16 },
        chroma_scale: if r.chance(1, 3) { *r.pick(&[0u8, 1, 2, 254, 255]) } else { r.below(256) as u8 },
        block_size: if r.chance(1, 2) { r.below(40) as u8 } else { *r.pick(&[0u8, 1, 2, 3, 29, 30, 31, 33, 255]) },
        filter: *r.pick(&[gfwx::Filter::Linear, gfwx::Filter::Cubic]),
        encoder: *r.pick(&[gfwx::Encoder::Turbo, gfwx::Encoder::Fast, gfwx::Encoder::Contextual]),
        intent: intent_of(*r.pick(&[0u8, 7, 8, 10, 11, 12])),
        metadata_size: match r.below(9) {
            0 | 1 => 0,
            2 => 0xffff_fffc,
            3 => r.below(1 << 32) as u32,
            _ => 4 * r.below(1 << 30) as u32,
        },
    }
}

fn same_header(a: &gfwx::Header, b: &gfwx::Header) -> bool {
    a == b
}

fn program_cases(r: &mut Rng, planes: usize) -> Vec<T> {
    let k = r.below(5);
    let mut v = vec![];
    for _ in 0..k {
        let dest = r.below(planes as u64) as usize;
        let nf = r.below(4);
        let big = r.chance(1, 4);
        let factors = (0..nf)
            .map(|_| {
                let f = if big { r.below(65536) as i64 - 32768 } else { r.below(9) as i64 - 4 };
                (r.below(planes as u64) as usize, f as i32)
            })
            .collect();
        let denom = if big { 1 + r.below(32767) as i32 } else { 1 + r.below(16) as i32 };
        v.push(T { dest, factors, denom, chroma: r.chance(1, 2) });
    }
    v
}

fn c08(env: &mut Env) -> Res {
    use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
    let s = env.spec.clone();
    let mut r = Rng::new(s.get("seed") as u64);
    let (short, intr) = (s.get("short") as u64, s.get("intr") as u64);
    let trail = s.get("trail") as usize;
    // 1. headers
    {
        let b = builder(&mut r);
        let probe = format!(
            "w{} h{} layers{} channels{} quality{} chroma{} block{} metadata{}",
            b.width, b.height, b.layers, b.channels, b.quality, b.chroma_scale, b.block_size, b.metadata_size
        );
        let p = model::Params {
            w: b.width as usize,
            h: b.height as usize,
            layers: b.layers as usize,
            channels: b.channels as usize,
            quality: b.quality as i32,
            chroma_scale: b.chroma_scale as i32,
            block_size: b.block_size as u32,
            filter: if b.filter == gfwx::Filter::Linear { model::Filter::Linear } else { model::Filter::Cubic },
            enc: match b.encoder {
                gfwx::Encoder::Turbo => model::Enc::Turbo,
                gfwx::Encoder::Fast => model::Enc::Fast,
                gfwx::Encoder::Contextual => model::Enc::Contextual,
            },
            intent: match b.intent {
                gfwx::Intent::Generic => 0,
                gfwx::Intent::RGB => 7,
                gfwx::Intent::RGBA => 8,
                gfwx::Intent::BGR => 10,
                gfwx::Intent::BGRA => 11,
                gfwx::Intent::YUV444 => 12,
            },
            metadata: b.metadata_size,
            prog: vec![],
            shift: false,
        };
        let in_range = (1..1 << 30).contains(&p.w)
            && (1..1 << 30).contains(&p.h)
            && p.layers >= 1
            && p.channels >= 1
            && (1..=1024).contains(&p.quality)
            && p.chroma_scale >= 1
            && (2..=30).contains(&p.block_size)
            && p.metadata % 4 == 0
            && (p.w as u128 * p.h as u128 * p.layers as u128 * p.channels as u128) < (1u128 << 64);
        let h = env.sim(SCHED, || b.build())?;
        match h {
            Err(_) => {
                if in_range {
                    return viol("refused", format!("a representable header is refused: {}", probe));
                }
                env.probe("headers refused by the builder", 1);
            }
            Ok(h) => {
                env.probe("headers accepted by the builder", 1);
                let mut ends: Vec<End> = s.ops.iter().map(|o| end_of(o, 32)).collect();
                ends.push(End::Never);
                for (i, e) in ends.iter().enumerate() {
                    let (hr, i) = (&h, i as u64);
                    let (res, w) = env.sim(SimOpt { salt: i, ..SCHED }, || {
                        let mut w = FaultyWriter { plan: Plan::new(s.sched_seed ^ i, short, intr, *e), out: vec![] };
                        let res = hr.encode(&mut w);
                        (res.is_ok(), w)
                    })?;
                    note_io(env, &w.plan.faults);
                    if res {
                        if !in_range {
                            // accepted by the builder although the stream cannot carry it: must still decode back equal
                            let back = env.sim(SCHED, || gfwx::Header::decode(&mut &w.out[..]))?;
                            match back {
                                Ok(x) if same_header(&x, &h) => {}
                                _ => return viol("lost", format!("the builder accepts {} but it does not decode back", probe)),
                            }
                            continue;
                        }
                        let canon = model::header_bytes(&p);
                        if w.out != canon {
                            return viol("bytes", format!("header {} through {:?}: {}", probe, e, first_diff(&w.out, &canon)));
                        }
                    } else {
                        let fails = matches!(e, End::Error(k) | End::Closed(k) if *k < 32);
                        if !fails {
                            return viol("failed", format!("header {} write failed without a device fault ({:?})", probe, e));
                        }
                        let canon = if in_range { model::header_bytes(&p) } else { continue };
                        if !canon.starts_with(&w.out) {
                            return viol("bytes", format!("header {}: bytes before the failure are not a prefix", probe));
                        }
                    }
                    let must_fail = matches!(e, End::Error(k) | End::Closed(k) if *k < 32);
                    if res && must_fail {
                        return viol("silent", format!("header {} write reported success although {:?}", probe, e));
                    }
                }
                if in_range {
                    let mut canon = model::header_bytes(&p);
                    canon.extend((0..trail).map(|k| k as u8 ^ 0x5a));
                    for (i, e) in ends.iter().enumerate() {
                        let (canon, i) = (&canon, i as u64);
                        let (res, pos, f) = env.sim(SimOpt { salt: 77 + i, ..SCHED }, || {
                            let mut rd = FaultyReader { plan: Plan::new(s.sched_seed ^ i << 9, short, intr, *e), data: canon, pos: 0 };
                            let res = gfwx::Header::decode(&mut rd);
                            (res, rd.pos, rd.plan.faults)
                        })?;
                        note_io(env, &f);
                        let must_fail = matches!(e, End::Error(k) | End::Closed(k) if *k < 32);
                        match res {
                            Ok(x) => {
                                if must_fail {
                                    return viol("silent", format!("header read succeeded although {:?}", e));
                                }
                                if !same_header(&x, &h) {
                                    return viol("value", format!("header {} read back as {:?}", probe, x));
                                }
                                if pos != 32 {
                                    return viol("consumed", format!("header read took {} bytes", pos));
                                }
                            }
                            Err(er) => {
                                if !must_fail {
                                    return viol("failed", format!("header {} not readable: {}", probe, er));
                                }
                                if !matches!(er, gfwx::errors::HeaderErr::IOErr(_)) {
                                    return viol("error-kind", format!("header {}: {:?} reported as {:?}", probe, e, er));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // 2. colour programs
    {
        // now and then beyond 8-bit and 16-bit plane numbers
        let planes = if r.chance(1, 8) { *r.pick(&[200usize, 257, 300, 1000, 40_000, 65_537, 90_000]) } else { 1 + r.below(12) as usize };
        let prog = program_cases(&mut r, planes);
        let real = program_of(&prog, false);
        let m: Vec<model::Transform> =
            prog.iter().map(|t| model::Transform { dest: t.dest, factors: t.factors.clone(), denom: t.denom, chroma: t.chroma }).collect();
        let canon = model::program_bytes(&m);
        let mut last: BTreeMap<usize, bool> = BTreeMap::new();
        for t in &prog {
            last.insert(t.dest, t.chroma);
        }
        let flags: Vec<bool> = (0..planes).map(|k| last.get(&k).copied().unwrap_or(false)).collect();
        let mut ends: Vec<End> = s.ops.iter().map(|o| end_of(o, canon.len())).collect();
        ends.push(End::Never);
        for (i, e) in ends.iter().enumerate() {
            let must_fail = matches!(e, End::Error(k) | End::Closed(k) if *k < canon.len());
            let (rp, i) = (&real, i as u64);
            let (res, w) = env.sim(SimOpt { salt: 200 + i, ..SCHED }, || {
                let mut w = FaultyWriter { plan: Plan::new(s.sched_seed ^ i << 17, short, intr, *e), out: vec![] };
                let res = rp.encode(planes, &mut w);
                (res, w)
            })?;
            note_io(env, &w.plan.faults);
            match res {
                Ok(ch) => {
                    if must_fail {
                        return viol("silent", format!("program write reported success although {:?}", e));
                    }
                    if w.out != canon {
                        return viol("bytes", format!("program {:?}: {}", prog, first_diff(&w.out, &canon)));
                    }
                    if ch != flags {
                        return viol("value", format!("program {:?}: chroma flags {:?}", prog, ch));
                    }
                }
                Err(_) => {
                    if !must_fail {
                        return viol("failed", format!("program write failed without a device fault ({:?})", e));
                    }
                    if !canon.starts_with(&w.out) {
                        return viol("bytes", "program bytes before the failure are not a prefix".into());
                    }
                }
            }
            let mut data = canon.clone();
            data.extend((0..trail).map(|k| k as u8 ^ 0xa5));
            let d = &data;
            let (res, ch, pos, f) = env.sim(SimOpt { salt: 300 + i, ..SCHED }, || {
                let mut rd = FaultyReader { plan: Plan::new(s.sched_seed ^ i << 25, short, intr, *e), data: d, pos: 0 };
                let mut ch = vec![false; planes];
                let res = gfwx::ColorTransformProgram::decode(&mut rd, &mut ch);
                (res, ch, rd.pos, rd.plan.faults)
            })?;
            note_io(env, &f);
            match res {
                Ok(x) => {
                    if must_fail {
                        return viol("silent", format!("program read succeeded although {:?}", e));
                    }
                    if x != real {
                        return viol("value", format!("program {:?} read back as {:?}", prog, x));
                    }
                    if ch != flags {
                        return viol("value", format!("program {:?}: chroma flags read back as {:?}", prog, ch));
                    }
                    if pos != canon.len() {
                        return viol("consumed", format!("program read took {} bytes of {}", pos, canon.len()));
                    }
                }
                Err(er) => {
                    if !must_fail {
                        return viol("failed", format!("program {:?} not readable: {}", prog, er));
                    }
                    if !matches!(er, gfwx::DecompressError::IOErr(_)) {
                        return viol("error-kind", format!("program: {:?} reported as {:?}", e, er));
                    }
                }
            }
        }
    }
    // 3. integers through the bit streams
    {
        let k = 1 + r.below(40);
        let ints: Vec<(u8, i64, u32)> = (0..k)
            .map(|_| {
                let kind = r.below(3) as u8;
                // the largest magnitude the code's own arithmetic can represent
                let top = match kind {
                    0 => u32::MAX as u64,
                    1 => i32::MAX as u64,
                    _ => (1 << 30) - 1,
                };
                let v = match r.below(14) {
                    0 => r.range(0, top) as i64,
                    1 => (top >> r.below(31)) as i64,
                    2 => 1i64 << r.below(30),
                    3 | 4 => r.below(1 << 22) as i64,
                    5 | 6 => r.below(40_000) as i64,
                    7 | 8 => r.below(300) as i64,
                    _ => r.below(30) as i64,
                };
                let v = if kind != 0 && r.chance(1, 2) { -v } else { v };
                (kind, v, if r.chance(1, 6) { r.below(25) } else { r.below(13) } as u32)
            })
            .collect();
        let mut bw = model::BitW::default();
        for &(kind, v, pot) in &ints {
            match kind {
                0 => bw.unsigned(v as u64, pot),
                1 => bw.signed(v, pot),
                _ => bw.interleaved(v, pot),
            }
        }
        let canon = bw.bytes();
        let mut ends: Vec<End> = s.ops.iter().map(|o| end_of(o, canon.len())).collect();
        ends.push(End::Never);
        for (i, e) in ends.iter().enumerate() {
            let must_fail = matches!(e, End::Error(k) | End::Closed(k) if *k < canon.len());
            let (ints, i) = (&ints, i as u64);
            let (res, w) = env.sim(SimOpt { salt: 400 + i, ..SCHED }, || {
                let mut w = FaultyWriter { plan: Plan::new(s.sched_seed ^ i << 33, short, intr, *e), out: vec![] };
                let res = write_ints(&mut BitsIOWriter::new(&mut w), ints);
                (res.is_ok(), w)
            })?;
            note_io(env, &w.plan.faults);
            if res == must_fail {
                return viol(if res { "silent" } else { "failed" }, format!("integer write gives ok={} with {:?}", res, e));
            }
            if res && w.out != canon {
                return viol("bytes", format!("integers {:?}: {}", ints, first_diff(&w.out, &canon)));
            }
            if !canon.starts_with(&w.out) {
                return viol("bytes", "integer bytes before the failure are not a prefix".into());
            }
            let mut data = canon.clone();
            data.extend((0..trail).map(|k| k as u8 ^ 0x3c));
            let d = &data;
            let (res, pos, f) = env.sim(SimOpt { salt: 500 + i, ..SCHED }, || {
                let mut rd = FaultyReader { plan: Plan::new(s.sched_seed ^ i << 41, short, intr, *e), data: d, pos: 0 };
                let res = {
                    let mut br = BitsIOReader::new(&mut rd);
                    let x = read_ints(&mut br, ints);
                    br.flush_read_word();
                    x
                };
                (res, rd.pos, rd.plan.faults)
            })?;
            note_io(env, &f);
            match res {
                Ok(v) => {
                    if must_fail {
                        return viol("silent", format!("integer read succeeded although {:?}", e));
                    }
                    if v.iter().zip(ints).any(|(a, b)| *a != b.1) {
                        return viol("value", format!("integers {:?} read back as {:?}", ints, v));
                    }
                    if pos != canon.len() {
                        return viol("consumed", format!("integer read took {} bytes of {}", pos, canon.len()));
                    }
                }
                Err((v, _)) => {
                    if !must_fail {
                        return viol("failed", format!("integers {:?} not readable", ints));
                    }
                    if v.iter().zip(ints).any(|(a, b)| *a != b.1) {
                        return viol("value", format!("integers {:?} before the failure read back as {:?}", ints, v));
                    }
                }
            }
        }
        // 4. both ends at once over a bounded pipe
        if s.get("mode") > 0 {
            let pipe = Pipe::new(s.get("pipe") as usize);
            let planes = 4;
            let prog = program_cases(&mut r, planes);
            let real = program_of(&prog, false);
            let c = &s.cases[0];
            let ints = &ints;
            let ok = {
                let (pipe, real) = (&pipe, &real);
                let seed = s.sched_seed;
                env.sim(SimOpt { salt: 600, ..SCHED }, || {
                    let mut fs: Vec<Box<dyn FnOnce() -> Result<(), String> + Send + '_>> = vec![];
                    fs.push(Box::new(move || {
                        let mut w = PipeWriter(pipe, Plan::new(seed ^ 5, short, intr, End::Never), 0);
                        let r = (|| {
                            header_of(c).encode(&mut w).map_err(|e| format!("header write: {}", e))?;
                            real.encode(planes, &mut w).map_err(|e| format!("program write: {}", e))?;
                            write_ints(&mut BitsIOWriter::new(&mut w), ints).map_err(|e| format!("integer write: {}", e))
                        })();
                        pipe.close();
                        r
                    }));
                    fs.push(Box::new(move || {
                        let mut rd = PipeReader(pipe, Plan::new(seed ^ 9, short, intr, End::Never), 0);
                        let h = gfwx::Header::decode(&mut rd).map_err(|e| format!("header read: {}", e))?;
                        if h != header_of(c) {
                            return Err(format!("header read back as {:?}", h));
                        }
                        let mut ch = vec![false; planes];
                        let p = gfwx::ColorTransformProgram::decode(&mut rd, &mut ch).map_err(|e| format!("program read: {}", e))?;
                        if p != *real {
                            return Err(format!("program read back as {:?}", p));
                        }
                        let mut br = BitsIOReader::new(&mut rd);
                        match read_ints(&mut br, ints) {
                            Ok(v) if v.iter().zip(ints).all(|(a, b)| *a == b.1) => Ok(()),
                            x => Err(format!("integers read back as {:?}", x)),
                        }
                    }));
                    callers(fs)
                })?
            };
            env.probe("pipe sessions", 1);
            for o in ok {
                match o {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => return viol("pipe", e),
                    Err(e) => return viol("panic", e),
                }
            }
        }
        fn write_ints(w: &mut impl BitsWriter, v: &[(u8, i64, u32)]) -> std::io::Result<()> {
            for &(kind, x, pot) in v {
                match kind {
                    0 => gfwx::encode::unsigned_code(x as u32, w, pot)?,
                    1 => gfwx::encode::signed_code(x as i32, w, pot)?,
                    _ => gfwx::encode::interleaved_code(x as i32, w, pot)?,
                }
            }
            w.flush_write_word()
        }
        fn read_ints(r: &mut impl BitsReader, v: &[(u8, i64, u32)]) -> Result<Vec<i64>, (Vec<i64>, String)> {
            let mut o = vec![];
            for &(kind, _, pot) in v {
                let x = match kind {
                    0 => gfwx::encode::unsigned_decode(r, pot).map(|x| x as i64),
                    1 => gfwx::encode::signed_decode(r, pot).map(|x| x as i64),
                    _ => gfwx::encode::interleaved_decode(r, pot).map(|x| x as i64),
                };
                match x {
                    Ok(x) => o.push(x),
                    Err(e) => return Err((o, e.to_string())),
                }
            }
            Ok(o)
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09 and C12

#[derive(Clone, PartialEq, Debug)]
enum Obs {
    Bytes(Result<Vec<u8>, String>),
    Image(Result<(usize, Vec<u8>), String>),
    Panic,
}

/// The buffers a caller keeps for all its calls, where it does: image in, stream in, stream out, pixels out.
struct Desk([GBuf; 4]);
impl Desk {
    fn new(refs: &[Ref]) -> Desk {
        let most = |f: &dyn Fn(&Ref) -> usize| refs.iter().map(f).max().unwrap_or(0);
        Desk([
            GBuf::new(most(&|r| r.img.len()), false),
            GBuf::new(most(&|r| r.body().len()), false),
            GBuf::new(most(&|r| r.p.ample()), false),
            GBuf::new(most(&|r| r.img.len()), false),
        ])
    }
}

/// One library call of a caller; everything it observes.
fn call(re: &Ref, c: &Case, op: &[i64], end: bool, desk: Option<&mut Desk>) -> Obs {
    if let (Some(Desk([img, inp, out, px])), 0 | 1 | 3 | 4 | 5) = (desk, op[1]) {
        let a = api(op[3] as u64);
        let mut r = Rng::new(op[5] as u64);
        if op[1] == 0 {
            img.bytes_mut()[..re.img.len()].copy_from_slice(&re.img);
            let b = &mut out.bytes_mut()[..re.p.ample()];
            fill(b, r.next(), &mut r);
            let x = compress(c, &img.bytes()[..re.img.len()], b, a, end);
            return Obs::Bytes(x.map(|n| b[..n].to_vec()));
        }
        let d = (op[4] as usize).min(20);
        let data = payload(re, op, &mut r);
        inp.bytes_mut()[..data.len()].copy_from_slice(&data);
        let o = &mut px.bytes_mut()[..re.out_len(d)];
        o.fill(0);
        let x = decompress(&header_of(c), &inp.bytes()[..data.len()], d, op[1] == 5, o, a, end);
        return Obs::Image(x.map(|n| (n, o.to_vec())));
    }
    let a = api(op[3] as u64);
    let h = header_of(c);
    let mut r = Rng::new(op[5] as u64);
    match op[1] {
        0 => {
            let mut b = GBuf::new(re.p.ample(), end);
            fill(b.bytes_mut(), r.next(), &mut r);
            let x = compress(c, &re.img, b.bytes_mut(), a, end);
            Obs::Bytes(x.map(|n| b.bytes()[..n].to_vec()))
        }
        2 => {
            // too small
            let cap = r.below(re.enc.bytes.len() as u64) as usize;
            let mut b = GBuf::new(cap, end);
            fill(b.bytes_mut(), r.next(), &mut r);
            let x = compress(c, &re.img, b.bytes_mut(), a, end);
            Obs::Bytes(x.map(|n| b.bytes()[..n].to_vec()))
        }
        6 => {
            // a call that unwinds: the pixel buffer is one byte short
            let d = (op[4] as usize).min(20);
            let mut o = GBuf::new(re.out_len(d) - 1, end);
            let body = re.body();
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| decompress(&h, body, d, false, o.bytes_mut(), Api::Simple, end)));
            match x {
                Err(_) => Obs::Panic,
                Ok(x) => Obs::Image(x.map(|n| (n, vec![]))),
            }
        }
        7 | 8 => {
            // a call that may unwind: the image is longer or shorter than the header says
            let mut img = re.img.clone();
            if op[1] == 7 {
                img.extend([7u8; 3]);
            } else {
                img.pop();
            }
            let mut b = GBuf::new(re.p.ample(), end);
            fill(b.bytes_mut(), r.next(), &mut r);
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compress(c, &img, b.bytes_mut(), Api::Simple, end)));
            match x {
                Err(_) => Obs::Panic,
                Ok(x) => Obs::Bytes(x.map(|n| b.bytes()[..n].to_vec())),
            }
        }
        k => {
            let d = (op[4] as usize).min(20);
            let data = payload(re, op, &mut r);
            let inp = GBuf::from(&data, end);
            let mut o = GBuf::new(re.out_len(d), end);
            let x = decompress(&h, inp.bytes(), d, k == 5, o.bytes_mut(), a, end);
            Obs::Image(x.map(|n| (n, o.bytes().to_vec())))
        }
    }
}

/// The stream a decoding call of `op` gets: whole, damaged (3) or cut (4).
fn payload(re: &Ref, op: &[i64], r: &mut Rng) -> Vec<u8> {
    let mut data = re.body().to_vec();
    let n = data.len();
    if op[1] == 3 && n > re.enc.program_len {
        for _ in 0..1 + r.below(6) {
            let p = re.enc.program_len + r.below((n - re.enc.program_len) as u64) as usize;
            data[p] = r.below(256) as u8;
        }
    }
    if op[1] == 4 {
        data.truncate(re.enc.program_len + r.below((n - re.enc.program_len) as u64 + 1) as usize);
    }
    data
}

fn c09(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let refs: Vec<Ref> = s.cases.iter().map(reference).collect();
    let total: u64 = s.ops.iter().map(|o| refs[o[2] as usize % refs.len()].img.len() as u64).sum();
    env.limit = 5_000_000 + total * 12_000;
    if s.prop == "C12" {
        env.limit = 1_000_000 + total * 4_000;
    }
    let n = s.get("callers").max(1) as usize;
    let mut got: Vec<(usize, Obs)> = vec![];
    {
        let (refs, s2, got) = (&refs, &s, &mut got);
        let r = env.sim(SCHED, || {
            #[cfg(feature = "par")]
            let shared = if s2.get("shared") == 1 {
                Some(rayon::ThreadPoolBuilder::new().num_threads(s2.threads).build().unwrap())
            } else {
                None
            };
            #[cfg(feature = "par")]
            let shared = &shared;
            let mut fs: Vec<Box<dyn FnOnce() -> Vec<(usize, Obs)> + Send + '_>> = vec![];
            for caller in 0..n {
                fs.push(Box::new(move || {
                    let mut v = vec![];
                    let mut desk = if s2.get("desk") & 1 << caller != 0 { Some(Desk::new(refs)) } else { None };
                    for (i, op) in s2.ops.iter().enumerate() {
                        if op[0] as usize % n != caller {
                            continue;
                        }
                        let k = op[2] as usize % refs.len();
                        let desk = desk.as_mut();
                        let f = || call(&refs[k], &s2.cases[k], op, end, desk);
                        #[cfg(feature = "par")]
                        let o = match shared {
                            Some(p) => p.install(|| in_ctx(if op[6] == 1 { 0 } else { op[6] as u8 }, s2.threads, f)),
                            None => in_ctx(op[6] as u8, s2.threads, f),
                        };
                        #[cfg(not(feature = "par"))]
                        let o = f();
                        v.push((i, o));
                    }
                    v
                }));
            }
            callers(fs)
        })?;
        for x in r {
            match x {
                Ok(v) => got.extend(v),
                Err(m) => return viol("panic", format!("a caller panicked: {} [{}]", m, panic_note())),
            }
        }
    }
    // each operation alone, afterwards: nothing is warmed up for the callers
    let mut alone: Vec<Obs> = vec![];
    if s.prop == "C09" {
        let (refs, s2, alone) = (&refs, &s, &mut alone);
        env.sim(SEQ, || {
            for op in &s2.ops {
                let k = op[2] as usize % refs.len();
                alone.push(call(&refs[k], &s2.cases[k], op, end, None));
            }
        })?;
    }
    for (i, o) in &got {
        let op = &s.ops[*i];
        let re = &refs[op[2] as usize % refs.len()];
        match op[1] {
            2 => env.fault("output-space-exhausted", 1),
            3 => env.fault("payload-corruption", 1),
            4 => env.fault("delivery-cut", 1),
            6..=8 => env.fault("unwinding-call", 1),
            _ => {}
        }
        if s.prop == "C12" {
            continue;
        }
        let what = format!("operation {} of caller {} (kind {}, {:?})", i, op[0], op[1], api(op[3] as u64));
        if let Obs::Bytes(Err(e)) | Obs::Image(Err(e)) = o {
            if e.starts_with("OUT-OF-BOUNDS") {
                return viol("out-of-bounds", e.clone());
            }
        }
        if *o != alone[*i] {
            return viol("interference", format!("{}: result differs from the same call alone", what));
        }
        match (op[1], o) {
            (0, Obs::Bytes(Ok(b))) if *b == re.enc.bytes => {}
            (0, _) => return viol("interference", format!("{}: not the prescribed stream", what)),
            (1, Obs::Image(Ok((0, px)))) => {
                let w = want(re, re.body(), (op[4] as usize).min(20), false);
                if let Some(p) = &w.pixels {
                    if !w.overflow && p != px {
                        return viol("interference", format!("{}: pixels: {}", what, first_diff(px, p)));
                    }
                }
            }
            (1, x) => return viol("interference", format!("{}: a valid stream gives {:?}", what, matches!(x, Obs::Image(Ok(_))))),
            _ => {}
        }
    }
    env.probe("calls", got.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ C17

/// What a call is given: coefficients at the resolution asked for, bytes of all buffers passed, bytes of the stream
/// in them, rows of all planes, planes, bytes of the colour program, coefficients of one plane.
#[derive(Clone, Copy, Default)]
struct Given {
    n: usize,
    bytes: usize,
    stream: usize,
    rows: usize,
    planes: usize,
    program: usize,
    plane: usize,
}
impl Given {
    /// The most it may have allocated at any time.  (A decoded colour program is larger than the coded one.)
    fn memory(&self) -> usize {
        (1 << 15) + 32 * self.n + 64 * self.rows + 8 * self.bytes + 256 * self.planes + 256 * self.program
    }
    /// The most loads, stores and synchronisation operations it may make.  (A colour program is executed plane by plane.)
    fn work(&self) -> u64 {
        (50_000 + 1000 * (self.n + self.planes + self.stream) + 50 * self.bytes + 40 * (self.plane + self.planes) * self.program) as u64
    }
}
fn given(re: &Ref, c: &Case, op: &[i64]) -> Given {
    let stream = re.body().len();
    let g = Given { n: c.elems(), planes: c.planes(), program: re.enc.program_len, plane: c.w * c.h, bytes: re.img.len(), stream, rows: c.h * c.planes() };
    match op[1] {
        0 | 2 | 7 | 8 => Given { bytes: g.bytes + re.p.ample(), ..g },
        _ => {
            let n = re.out_len((op[4] as usize).min(20));
            Given { n, bytes: n + stream, rows: re.p.dh((op[4] as u32).min(20)) * c.planes(), ..g }
        }
    }
}

/// A client that reads a stored stream, header first, whatever has become of it.
fn read_stored(re: &Ref, c: &Case, op: &[i64], end: bool) -> Given {
    let mut r = Rng::new(op[5] as u64);
    let mut stream = re.enc.bytes.clone();
    let kinds: &[i64] = if op[1] == 9 { &[0, 1, 6, 6, 8, 11, 11, 12, 12] } else { &[3, 7, 9, 10, 12, 12, 13] };
    let other = older(c, r.next() as i64);
    for _ in 0..1 + r.below(2) {
        damage::apply(&mut stream, &damage::gen(&mut r, kinds), re, &other);
    }
    let file = GBuf::from(&stream, end);
    let b = file.bytes();
    let Ok(h) = lib(|| gfwx::Header::decode(&mut &b[..])) else { return Given::default() };
    let px = (h.width as u128) * (h.height as u128) * (h.layers as u128) * (h.channels as u128);
    let planes = h.layers as usize * h.channels as usize;
    if px > 60_000 || planes > 4096 || b.len() < 32 {
        return Given::default();
    }
    let d = (op[4] as usize).min(20);
    let n = h.get_downsampled_image_size(d);
    let mut out = GBuf::new(n, end);
    let _ = decompress(&h, &b[32..], d, op[5] % 5 == 0, out.bytes_mut(), api(op[3] as u64), end);
    Given { n, bytes: n + b.len(), stream: b.len(), rows: h.get_downsampled_height(d) * planes, planes, program: b.len(), plane: h.get_downsampled_channel_size(d) }
}

/// For looking at the margins: GFWXSIM_COST=1.
fn show_cost() -> bool {
    static ON: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ON.get_or_init(|| std::env::var_os("GFWXSIM_COST").is_some())
}

/// What a caller's history cost: operation, the most it had allocated, what it may; bytes left after every round.
#[derive(Default)]
struct Cost {
    calls: Vec<(usize, usize, usize, usize)>,
    left: Vec<i64>,
}

fn c17(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let refs: Vec<Ref> = s.cases.iter().map(reference).collect();
    let reps = s.get("reps").max(1) as usize;
    let n = s.get("callers").clamp(1, 8) as usize;
    let total: u64 = refs.iter().map(|r| r.img.len() as u64).max().unwrap_or(0) * (s.ops.len() * reps) as u64;
    env.limit = 50_000_000 + total * 40_000;
    let vary = s.get("vary") as usize;
    let costs = {
        let (refs, s2) = (&refs, &s);
        let r = env.sim(SCHED, || {
            #[cfg(feature = "par")]
            let shared = if s2.get("shared") == 1 {
                Some(rayon::ThreadPoolBuilder::new().num_threads(s2.threads).build().unwrap())
            } else {
                None
            };
            #[cfg(feature = "par")]
            let shared = &shared;
            let mut fs: Vec<Box<dyn FnOnce() -> Cost + Send + '_>> = vec![];
            for caller in 0..n {
                fs.push(Box::new(move || {
                    let account = caller as u32 + 1;
                    let first = ledger::live(account);
                    let mut cost = Cost::default();
                    for rep in 0..reps {
                        for (i, op) in s2.ops.iter().enumerate() {
                            if op[0] as usize % n != caller {
                                continue;
                            }
                            let k = (op[2] as usize + rep * vary) % refs.len();
                            let (re, c) = (&refs[k], &s2.cases[k]);
                            let f = || charged(account, || match op[1] {
                                9 | 10 => read_stored(re, c, op, end),
                                _ => {
                                    let _ = call(re, c, op, end, None);
                                    given(re, c, op)
                                }
                            });
                            ledger::restart(account);
                            let (before, all) = (ledger::live(account), ledger::total(account));
                            #[cfg(feature = "par")]
                            let may = match shared {
                                Some(p) => p.install(|| in_ctx(if op[6] == 1 { 0 } else { op[6] as u8 }, s2.threads, f)),
                                None => in_ctx(op[6] as u8, s2.threads, f),
                            };
                            #[cfg(not(feature = "par"))]
                            let may = f();
                            cost.calls.push((i, ledger::peak(account) - before, ledger::total(account) - all, may.memory()));
                        }
                        cost.left.push(ledger::live(account) as i64 - first as i64);
                    }
                    cost
                }));
            }
            callers(fs)
        })?;
        let mut v = vec![];
        for x in r {
            match x {
                Ok(c) => v.push(c),
                Err(m) => return viol("panic", format!("a caller panicked: {} [{}]", m, panic_note())),
            }
        }
        v
    };
    // the work of each call, alone
    let work = {
        let (refs, s2) = (&refs, &s);
        env.sim(SEQ, || {
            let mut v = vec![];
            for op in &s2.ops {
                let k = op[2] as usize % refs.len();
                let (re, c) = (&refs[k], &s2.cases[k]);
                let at = simrt::steps();
                let may = match op[1] {
                    9 | 10 => read_stored(re, c, op, end),
                    _ => {
                        let _ = call(re, c, op, end, None);
                        given(re, c, op)
                    }
                };
                v.push((simrt::steps() - at, may.work()));
            }
            v
        })?
    };
    for (op, (steps, may)) in s.ops.iter().zip(work) {
        if show_cost() {
            eprintln!("WORK {} {} {} {}", op[1], steps, may, s.idx);
        }
        if steps > may {
            return viol(
                "work",
                format!("a call (kind {}, {:?}) took {} steps alone; its input allows {}", op[1], api(op[3] as u64), steps, may),
            );
        }
    }
    for (who, c) in costs.iter().enumerate() {
        for &(i, peak, all, may) in &c.calls {
            let op = &s.ops[i];
            match op[1] {
                2 => env.fault("output-space-exhausted", 1),
                3 => env.fault("payload-corruption", 1),
                4 => env.fault("delivery-cut", 1),
                6..=8 => env.fault("unwinding-call", 1),
                9 | 10 => env.fault("stored-stream-damaged", 1),
                _ => {}
            }
            if show_cost() {
                eprintln!("COST {} {} {} {} {}", op[1], peak, may, s.idx, all);
            }
            if all > 2 * may {
                return viol(
                    "copies",
                    format!("operation {} of caller {} (kind {}, {:?}) allocated {} bytes in all; its input allows {}", i, who, op[1], api(op[3] as u64), all, 2 * may),
                );
            }
            if peak > may {
                return viol(
                    "memory",
                    format!("operation {} of caller {} (kind {}, {:?}) had {} bytes allocated at a time; its input allows {}", i, who, op[1], api(op[3] as u64), peak, may),
                );
            }
        }
        let l = &c.left;
        if l.len() >= 16 {
            let grew = l.windows(2).skip(5).filter(|w| w[1] > w[0]).count();
            if grew * 5 >= (l.len() - 6) * 4 {
                return viol(
                    "accumulates",
                    format!("caller {}: what its calls keep grew after {} of the last {} rounds, from {} to {} bytes", who, grew, l.len() - 6, l[5], l[l.len() - 1]),
                );
            }
            env.probe("histories of 16 rounds", (l.len() < 64) as u64);
        }
        if l.len() >= 64 {
            // a list that doubles when it is full
            let at = [l[7], l[15], l[31], l[63]];
            if at.windows(2).all(|w| w[1] > w[0]) {
                return viol("accumulates", format!("caller {}: what its calls keep after 8, 16, 32 and 64 rounds of the same calls: {:?} bytes", who, at));
            }
            env.probe("histories of 64 rounds", 1);
        }
        env.probe("bytes kept after the last call", (*l.last().unwrap_or(&0)).max(0) as u64);
        env.probe("calls", c.calls.len() as u64);
    }
    Ok(())
}

fn c10(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let c = &s.cases[0];
    let re = reference(c);
    let h = header_of(c);
    env.race = true;
    let a = api(s.get("api") as u64);
    if s.get("what") != 1 {
        let tight = s.get("tight") != 0 && s.ops.len() > 1;
        let room = if tight { capacity(&re, &s.ops[1]).min(re.p.ample()) } else { re.p.ample() };
        let mut buf = GBuf::new(room, end);
        let (b, i) = (buf.bytes_mut(), &re.img[..]);
        let x = env.sim(SCHED, || in_ctx(s.ctx, s.threads, || compress(c, i, b, a, end)))?;
        oob(&x)?;
        if tight {
            env.fault("output-space-exhausted", x.is_err() as u64);
        } else if let Err(e) = x {
            return viol("failed", format!("compression failed: {}", e));
        }
    }
    if s.get("what") != 0 {
        let d = s.get("d") as usize;
        let mut body = re.body().to_vec();
        let whole = s.get("cut") == 0 && s.get("hurt") == 0;
        if s.get("cut") != 0 && !s.ops.is_empty() {
            body.truncate(place(&re, &s.ops[0]));
            env.fault("delivery-cut", 1);
        }
        if s.get("hurt") != 0 && body.len() > re.enc.program_len {
            let mut r = Rng::new(s.get("hurt") as u64);
            for _ in 0..1 + r.below(5) {
                let p = re.enc.program_len + r.below((body.len() - re.enc.program_len) as u64) as usize;
                body[p] = r.below(256) as u8;
            }
            env.fault("payload-corruption", 1);
        }
        let inp = GBuf::from(&body, end);
        let mut out = GBuf::new(re.out_len(d), end);
        let (o, h, inp) = (out.bytes_mut(), &h, inp.bytes());
        let x = env.sim(SCHED, || in_ctx(s.ctx, s.threads, || decompress(h, inp, d, s.get("test") != 0, o, a, end)))?;
        oob(&x)?;
        if let (true, Err(e)) = (whole, x) {
            return viol("failed", format!("decompression failed: {}", e));
        }
    }
    env.st.nontrivial |= env.st.jobs > 2;
    Ok(())
}

fn c11(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let c = &s.cases[0];
    let re = reference(c);
    let h = header_of(c);
    let a = api(s.get("api") as u64);
    if s.get("encode") != 0 {
        // capacities at which some block, or the sum of blocks, cannot fit
        let total = re.enc.bytes.len();
        let ps = re.enc.payload_start();
        let mut caps = vec![];
        for op in &s.ops {
            let lv = &re.enc.levels[op[1] as usize % re.enc.levels.len()];
            let mut l: Vec<usize> = lv.blocks.iter().map(|b| b.len).collect();
            l.sort();
            let cap = match op[0] {
                // room for all blocks of a level but its largest
                0 => ps + lv.payload + l.len() * l[l.len() - 1] - 1,
                1 => ps + lv.payload + l.len() * l[l.len().saturating_sub(2)],
                2 => ps + lv.payload + l.iter().sum::<usize>(),
                _ => op[1] as usize % total,
            };
            caps.push((cap as i64 + op[2]).max(0) as usize);
        }
        let mut res = vec![];
        {
            let (res, caps, img) = (&mut res, &caps, &re.img);
            env.sim(SCHED, || {
                in_ctx(s.ctx, s.threads, || {
                    for &cap in caps {
                        let mut b = GBuf::new(cap, end);
                        let r = compress(c, img, b.bytes_mut(), a, end);
                        let same = match &r {
                            Ok(n) => *n <= cap && b.bytes()[..*n] == re.enc.bytes[..],
                            Err(_) => true,
                        };
                        res.push((r, same, b.intact()));
                    }
                })
            })?;
        }
        for (&cap, (r, same, ok)) in caps.iter().zip(&res) {
            oob(r)?;
            if !ok {
                return viol("out-of-bounds", "bytes next to the output buffer were overwritten".into());
            }
            if r.is_ok() && (cap < total || !same) {
                return viol("masked", format!("capacity {}: the stream needs {} bytes, yet {:?} (right bytes: {})", cap, total, r, same));
            }
            if r.is_err() {
                env.fault("block-does-not-fit", 1);
            }
        }
        return Ok(());
    }
    let d = s.get("d") as usize;
    // streams in which chosen blocks are too short for their contents
    let mut jobs = vec![];
    for op in &s.ops {
        let li = op[0] as usize % re.enc.levels.len();
        let lv = &re.enc.levels[li];
        if lv.step >> d < 1 {
            continue;
        }
        let nb = lv.blocks.len();
        let first = if op[1] < 0 { nb - 1 } else { op[1] as usize % nb };
        let mut drop: BTreeMap<usize, usize> = BTreeMap::new();
        drop.insert(first, op[2] as usize);
        for k in 0..op[3] as usize {
            drop.insert((first * 7 + k * 3 + 1) % nb, 1);
        }
        let mut out = re.body()[..re.enc.program_len].to_vec();
        let payload = re.enc.payload();
        let mut dropped = 0;
        let mut cut_level = false;
        for (l, x) in re.enc.levels.iter().enumerate() {
            if op[4] == 1 && l > li {
                break; // nothing after the damaged level arrived
            }
            if op[4] == 2 && x.step >> d < 1 {
                break; // everything needed arrived, nothing else
            }
            let mut lens = vec![];
            let mut body = vec![];
            for (k, b) in x.blocks.iter().enumerate() {
                let cut = if l == li { drop.get(&k).copied().unwrap_or(0) * 4 } else { 0 };
                let keep = b.len - cut.min(b.len);
                dropped += b.len - keep;
                lens.push(keep as u32 / 4);
                body.extend_from_slice(&payload[b.off..b.off + keep]);
            }
            if op[4] == 3 && l == li {
                // the level itself is cut, somewhere behind the short block
                let whole: usize = lens[..=first].iter().map(|x| *x as usize * 4).sum();
                let behind = body.len() - whole;
                body.truncate(whole + ((s.idx as usize * 37 + op[1].unsigned_abs() as usize) % (behind + 1)).min(behind.saturating_sub(1)));
                cut_level = true;
            }
            for v in lens {
                out.extend_from_slice(&v.to_le_bytes());
            }
            out.extend_from_slice(&body);
            if cut_level {
                break;
            }
        }
        if dropped == 0 {
            continue;
        }
        let m = model::decode_payload(&re.p, &out[re.enc.program_len..], d as u32, false);
        if m.verdict != Verdict::Corrupt {
            env.probe("short block happens to decode", 1);
            continue;
        }
        jobs.push((format!("level step {} block {} of {}, {} bytes dropped", lv.step, first, nb, dropped), GBuf::from(&out, end), GBuf::new(re.out_len(d), end), Ok(0)));
    }
    if jobs.is_empty() {
        return Ok(());
    }
    {
        let (jobs, h) = (&mut jobs, &h);
        env.sim(SCHED, || {
            in_ctx(s.ctx, s.threads, || {
                for j in jobs.iter_mut() {
                    j.3 = decompress(h, j.1.bytes(), d, false, j.2.bytes_mut(), a, end);
                }
            })
        })?;
    }
    for (what, inp, out, got) in &jobs {
        oob(got)?;
        intact(inp, "input")?;
        intact(out, "pixel")?;
        env.fault("block-runs-out-of-data", 1);
        if let Ok(v) = got {
            return viol("masked", format!("{}: decoding reports success ({})", what, v));
        }
    }
    Ok(())
}

fn c13(env: &mut Env) -> Res {
    let s = env.spec.clone();
    let end = s.get("end") != 0;
    let c = &s.cases[0];
    let re = reference(c);
    let h = header_of(c);
    struct Job {
        d: usize,
        test: bool,
        a: Api,
        data: GBuf,
        out: GBuf,
        got: Dec,
        busy: Option<(usize, u64)>,
        what: String,
    }
    let mut jobs = vec![];
    for op in &s.ops {
        let d = op[0] as usize;
        let need = re.enc.levels.iter().filter(|l| l.step >> d.min(40) >= 1).map(|l| l.end).max().unwrap_or(0) + re.enc.program_len;
        let mut data = re.body().to_vec();
        let tail = data.len() - need;
        let mut r = Rng::new(op[3] as u64);
        let at = need + op[2] as usize % (tail + 1);
        let mut busy = None;
        let what = match op[1] {
            0 => {
                data.truncate(need);
                "cut exactly after the last needed level"
            }
            1 => {
                data.truncate(at);
                "cut later"
            }
            2 => {
                data[need..].iter_mut().for_each(|x| *x = r.below(256) as u8);
                "the rest overwritten"
            }
            3 => {
                data[need..].fill(if r.chance(1, 2) { 0xff } else { 0 });
                "the rest lost"
            }
            4 => {
                data.truncate(at);
                data.extend((0..r.below(4000)).map(|_| r.below(256) as u8));
                "garbage appended"
            }
            5 => {
                busy = Some((need, r.next()));
                "the rest being written meanwhile"
            }
            _ => "complete",
        };
        let kind = ["delivery-cut", "delivery-cut", "garbage-range", "lost-sector", "garbage-appended", "concurrent-writer", ""][op[1] as usize];
        if !kind.is_empty() {
            env.fault(kind, 1);
        }
        let mut out = GBuf::new(re.out_len(d), end);
        fill(out.bytes_mut(), s.get("fill") as u64, &mut r);
        jobs.push(Job {
            d,
            test: op[4] != 0,
            a: api(op[5] as u64),
            data: GBuf::from(&data, end),
            out,
            got: Ok(0),
            busy,
            what: format!("downsampling {} ({} of {} bytes needed), {}", d, need, re.body().len(), what),
        });
    }
    {
        let (jobs, h) = (&mut jobs, &h);
        let (ctx, th) = (s.ctx, s.threads);
        env.sim(SCHED, || {
            for j in jobs.iter_mut() {
                match j.busy {
                    None => {
                        j.got = in_ctx(ctx, th, || decompress(h, j.data.bytes(), j.d, j.test, j.out.bytes_mut(), j.a, end));
                    }
                    Some((from, seed)) => {
                        let (lo, n) = (j.data.addr(), j.data.len());
                        let mut done = false;
                        let dp = &mut done as *mut bool as usize;
                        let (d, test, a) = (j.d, j.test, j.a);
                        let (got, out) = (&mut j.got, &mut j.out);
                        let mut fs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
                        fs.push(Box::new(move || {
                            let data = unsafe { std::slice::from_raw_parts(lo as *const u8, n) };
                            *got = in_ctx(ctx, th, || decompress(h, data, d, test, out.bytes_mut(), a, end));
                            unsafe { *(dp as *mut bool) = true };
                        }));
                        fs.push(Box::new(move || {
                            let mut r = Rng::new(seed);
                            while n > from && !unsafe { std::ptr::read_volatile(dp as *const bool) } {
                                for _ in 0..8 {
                                    let p = from + r.below((n - from) as u64) as usize;
                                    unsafe { std::ptr::write_volatile((lo + p) as *mut u8, r.below(256) as u8) };
                                }
                                simrt::give_way();
                            }
                        }));
                        for r in callers(fs) {
                            if let Err(e) = r {
                                std::panic::panic_any(e);
                            }
                        }
                    }
                }
            }
        })?;
    }
    for j in &jobs {
        oob(&j.got)?;
        intact(&j.data, "input")?;
        intact(&j.out, "pixel")?;
        if j.got != Ok(0) {
            return viol("verdict", format!("{}: returned {:?} instead of 0", j.what, j.got));
        }
        if !j.test {
            let w = want(&re, re.body(), j.d, false);
            if let Some(p) = &w.pixels {
                if !w.overflow && p[..] != j.out.bytes()[..] {
                    return viol("pixels", format!("{}: {}", j.what, first_diff(j.out.bytes(), p)));
                }
            }
        }
        env.probe("partial decodes compared", 1);
    }
    Ok(())
}
