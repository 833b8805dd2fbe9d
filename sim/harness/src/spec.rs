//! A run, as data: everything one simulated execution depends on.  The same spec gives the same
//! execution; the minimiser edits specs.
use model::{Enc, Filter, Params, Transform};
use serde::{Deserialize, Serialize};
use simrt::rng::Rng;
use simrt::Policy;
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct T {
    pub dest: usize,
    pub factors: Vec<(usize, i32)>,
    pub denom: i32,
    pub chroma: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Case {
    pub w: usize,
    pub h: usize,
    pub layers: usize,
    pub channels: usize,
    pub quality: i32,
    pub chroma_scale: i32,
    pub block_size: u32,
    /// 0 linear, 1 cubic
    pub filter: u8,
    /// 0 turbo, 1 fast, 2 contextual
    pub enc: u8,
    pub intent: u8,
    pub metadata: u32,
    pub prog: Vec<T>,
    pub content: u8,
    pub content_seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Spec {
    pub prop: String,
    pub cfg: String,
    pub seed: u64,
    pub idx: u64,
    pub threads: usize,
    /// kind, a, b: 0 coop; 1 random(p_sync, mem_gap); 2 pct(d, span); 3 round robin(q); 4 starve(p_sync, mem_gap) + mask
    pub policy: [u64; 4],
    pub sched_seed: u64,
    pub ctx: u8,
    pub cases: Vec<Case>,
    #[serde(default)]
    pub n: BTreeMap<String, i64>,
    #[serde(default)]
    pub ops: Vec<Vec<i64>>,
    /// Recorded scheduling decisions of every simulation of the run, in order; present in replay files.
    #[serde(default)]
    pub decisions: Option<Vec<Vec<(u64, u32)>>>,
}

impl Spec {
    pub fn get(&self, k: &str) -> i64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn policy(&self) -> Policy {
        let p = self.policy;
        match p[0] {
            0 => Policy::Coop,
            1 => Policy::Random { p_sync: p[1] as u32, mem_gap: p[2] },
            2 => Policy::Pct { d: p[1] as u32, span: p[2] },
            3 => Policy::RoundRobin { q: p[1] },
            _ => Policy::Starve { mask: p[3], p_sync: p[1] as u32, mem_gap: p[2] },
        }
    }
}

impl Case {
    pub fn params(&self) -> Params {
        Params {
            w: self.w,
            h: self.h,
            layers: self.layers,
            channels: self.channels,
            quality: self.quality,
            chroma_scale: self.chroma_scale,
            block_size: self.block_size,
            filter: if self.filter == 0 { Filter::Linear } else { Filter::Cubic },
            enc: match self.enc {
                0 => Enc::Turbo,
                1 => Enc::Fast,
                _ => Enc::Contextual,
            },
            intent: self.intent,
            metadata: self.metadata,
            prog: self
                .prog
                .iter()
                .map(|t| Transform { dest: t.dest, factors: t.factors.clone(), denom: t.denom, chroma: t.chroma })
                .collect(),
            shift: false,
        }
    }
    pub fn planes(&self) -> usize {
        self.layers * self.channels
    }
    pub fn elems(&self) -> usize {
        self.w * self.h * self.planes()
    }
    pub fn levels(&self) -> usize {
        let mut s = 1;
        let mut k = 1;
        while s * 2 < self.w || s * 2 < self.h {
            s *= 2;
            k += 1;
        }
        k
    }
    /// Structural validity (a shrink step may leave the domain).
    pub fn valid(&self) -> bool {
        let p = self.planes();
        for t in &self.prog {
            if t.dest >= p || t.denom < 1 {
                return false;
            }
            if t.factors.iter().any(|f| f.0 >= p || f.0 == t.dest) {
                return false;
            }
        }
        self.w > 0
            && self.h > 0
            && self.layers > 0
            && self.channels > 0
            && (1..=1024).contains(&self.quality)
            && (1..=255).contains(&self.chroma_scale)
            && (2..=30).contains(&self.block_size)
            && self.metadata % 4 == 0
            && self.elems() <= 2250 << 10
    }
    /// The picture, interleaved.
    pub fn image(&self) -> Vec<u8> {
        let mut r = Rng::new(self.content_seed ^ 0x0049_4d41_4745);
        let (w, h) = (self.w, self.h);
        let n = w * h;
        let mut img = vec![0u8; n * self.planes()];
        let base: Vec<u8> = (0..self.planes()).map(|_| r.below(256) as u8).collect();
        let gx = r.below(9) as i64 - 4;
        let gy = r.below(9) as i64 - 4;
        let split = r.below(w as u64 + 1) as usize;
        let lone = r.below(self.planes() as u64) as usize;
        let rate = 1 + r.below(60);
        let amp = 1 + r.below(24);
        let cell = 1 + r.below(9) as usize;
        let (cx, cy) = (r.below(w as u64) as i64, r.below(h as u64) as i64);
        for layer in 0..self.layers {
            for y in 0..h {
                for x in 0..w {
                    for c in 0..self.channels {
                        let k = layer * self.channels + c;
                        let b = base[k] as i64;
                        let v: i64 = match self.content {
                            0 => b,
                            1 => r.below(256) as i64,
                            2 => b + gx * x as i64 + gy * y as i64 + 7 * k as i64,
                            3 => {
                                if r.below(rate * 4) == 0 {
                                    r.below(256) as i64
                                } else {
                                    b
                                }
                            }
                            4 => {
                                if r.below(2) == 0 {
                                    0
                                } else {
                                    255
                                }
                            }
                            5 => {
                                let d = (x as i64 - cx).abs() + (y as i64 - cy).abs();
                                128 + (d * 3 + k as i64 * 11) % 100 - 50 + r.below(amp) as i64
                            }
                            6 => {
                                if x < split {
                                    b
                                } else {
                                    r.below(256) as i64
                                }
                            }
                            7 => {
                                if k == lone {
                                    r.below(256) as i64
                                } else {
                                    0
                                }
                            }
                            8 => {
                                if (x / cell + y / cell) % 2 == 0 {
                                    0
                                } else {
                                    255
                                }
                            }
                            9 => {
                                // a photograph-like mixture: smooth areas, an edge, texture
                                let d = ((x as i64 - cx).pow(2) + (y as i64 - cy).pow(2)) / (4 + n as i64 / 64);
                                let mut v = 60 + d % 120 + k as i64 * 9;
                                if x > split {
                                    v += 40
                                }
                                if (x / 8 + y / 8) % 3 == 0 {
                                    v += r.below(amp) as i64
                                }
                                v
                            }
                            13 => match b % 7 {
                                6 if (x as i64, y as i64) == (cx, cy) => 255,
                                6 => 255 * (k & 1) as i64,
                                q => [0, 0, 0, 128, 128, 128][q as usize],
                            },
                            12 => {
                                // quiet and wild stretches, spikes of full height
                                let wild = (x / (4 * cell) + y / (3 * cell)) % 2 == 0;
                                if r.below(if wild { 3 } else { 6 + rate }) == 0 {
                                    255 - 255 * (b & 1)
                                } else {
                                    255 * (b & 1) + r.below(if wild { amp } else { 1 }) as i64
                                }
                            }
                            11 => {
                                // (almost) blank
                                if (x as i64, y as i64) == (cx, cy) && k % 3 == 0 {
                                    b
                                } else {
                                    200
                                }
                            }
                            _ => {
                                if (x * 7 + y * 13) as u64 % (rate * 16) == 0 {
                                    255
                                } else {
                                    0
                                }
                            }
                        };
                        img[layer * n * self.channels + (y * w + x) * self.channels + c] = v.clamp(0, 255) as u8;
                    }
                }
            }
        }
        img
    }
}

// ------------------------------------------------------------------ generation

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Thin,
    Medium,
    Large,
    /// beyond 16-bit (or 8-bit) counts of columns, blocks, zeros in a run, planes
    Huge,
}

#[derive(Clone, Copy, Default)]
pub struct Opt {
    pub lossless: bool,
    pub no_prog: bool,
    pub max_planes: usize,
    /// prefer shapes with several blocks per level
    pub blocky: bool,
}

pub fn gen_case(r: &mut Rng, size: Size, o: Opt) -> Case {
    let dim = |r: &mut Rng, lo: u64, hi: u64| r.range(lo, hi) as usize;
    // at the powers of two, and beyond 16 bits
    let long = |r: &mut Rng| match r.below(3) {
        0 => r.range(65537, 65700) as usize,
        1 => (1usize << r.range(14, 16)) + r.below(3) as usize - 1,
        _ => (1usize << r.range(15, 16)) + 1,
    };
    let huge = match if size == Size::Huge { r.below(28) } else { 0 } {
        25.. => 15,
        x => x,
    };
    let (mut w, mut h) = match size {
        Size::Tiny => (dim(r, 1, 9), dim(r, 1, 9)),
        Size::Small => match r.below(4) {
            0 => {
                let k = 1usize << r.range(2, 5);
                (((k + r.below(3) as usize).max(2) - 1), dim(r, 1, 40))
            }
            1 => {
                let k = 1usize << r.range(2, 5);
                (dim(r, 1, 40), ((k + r.below(3) as usize).max(2) - 1))
            }
            _ => (dim(r, 2, 40), dim(r, 2, 40)),
        },
        Size::Thin => {
            let a = dim(r, 1, 4);
            let b = if r.chance(1, 3) {
                (1usize << r.range(5, 12)) + r.below(3) as usize - 1
            } else {
                *r.pick(&[60u64, 130, 260, 520, 1100, 2300]) as usize + r.below(60) as usize
            };
            if r.chance(1, 2) {
                (a, b)
            } else {
                (b, a)
            }
        }
        Size::Medium => (dim(r, 20, 100), dim(r, 20, 100)),
        Size::Large => match r.below(3) {
            0 => (dim(r, 129, 150), dim(r, 129, 150)),
            1 => (dim(r, 60, 90), dim(r, 190, 300)),
            _ => (dim(r, 97, 190), dim(r, 97, 130)),
        },
        Size::Huge => match huge {
            0..=3 => (dim(r, 300, 380), dim(r, 300, 380)),
            4 | 5 => (long(r), dim(r, 1, 2)),
            6 | 7 => (dim(r, 1, 2), long(r)),
            8 => (dim(r, 1025, 1030), dim(r, 1025, 1030)),
            // one run of zeros beyond the lengths the shorter code words reach
            14 => (dim(r, 1060, 1105), dim(r, 1060, 1105)),
            15 => (dim(r, 1500, 1515), dim(r, 1500, 1515)),
            16..=21 => (1, dim(r, 1, 2)),
            // many planes of several levels: kilobytes of data for the coarsest
            22..=24 => (dim(r, 3, 34), dim(r, 3, 34)),
            _ => (dim(r, 1, 5), dim(r, 1, 5)),
        },
    };
    let mut block_size = *r.pick(&[2u32, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 7, 9, 30]);
    if o.blocky && size != Size::Huge {
        block_size = *r.pick(&[2, 2, 2, 3, 3, 4]);
        w = w.max(6);
        h = h.max(6);
        if r.chance(1, 4) {
            // exact block multiples, or one more
            let q = 1usize << block_size;
            w = (w / q).max(1) * q + r.below(2) as usize;
            h = (h / q).max(1) * q + r.below(2) as usize;
        }
    }
    if size == Size::Huge {
        block_size = match huge {
            0..=3 => *r.pick(&[9, 10, 30]),
            8 => 2,
            14 | 15 => *r.pick(&[11, 12, 30]),
            _ => *r.pick(&[2, 3, 7, 9]),
        };
    }
    let (layers, channels) = match size {
        Size::Huge if huge < 9 || huge == 14 || huge == 15 => (1, 1),
        // 16-bit counts of planes and beyond
        Size::Huge if huge > 21 => *r.pick(&[(25, 25), (1, 700), (600, 1), (2, 300), (180, 3)]),
        Size::Huge if huge > 15 => *r.pick(&[(300, 300), (2, 33000), (256, 256), (257, 256), (70, 1000), (40000, 2)]),
        Size::Huge => *r.pick(&[(1, 257), (1, 300), (258, 1), (20, 15), (3, 90), (100, 3)]),
        Size::Large => *r.pick(&[(1, 1), (1, 1), (1, 2), (1, 3), (2, 1)]),
        Size::Tiny => *r.pick(&[(1, 1), (1, 3), (1, 4), (2, 1), (2, 3), (3, 2), (1, 10), (3, 1), (5, 2)]),
        _ => *r.pick(&[(1, 1), (1, 1), (1, 2), (1, 3), (1, 3), (1, 4), (2, 1), (2, 3), (3, 2), (1, 5)]),
    };
    let (mut layers, mut channels): (usize, usize) = (layers, channels);
    if o.max_planes > 0 && layers * channels > o.max_planes {
        layers = 1;
        channels = channels.min(o.max_planes);
    }
    let mut quality = match r.below(10) {
        0..=3 => 1024,
        4 | 5 => *r.pick(&[1, 2, 8, 64, 128, 256, 512, 1000, 1023]),
        _ => r.range(1, 1024) as i32,
    };
    if o.lossless {
        quality = 1024;
    }
    let mut chroma_scale = match r.below(3) {
        0 => 1,
        1 => 8,
        _ => r.range(2, 255) as i32,
    };
    let planes = layers * channels;
    let mut prog = vec![];
    if !o.no_prog {
        match r.below(6) {
            0 if planes >= 3 => prog = preset(0),
            1 if planes >= 3 => prog = preset(1),
            2 if planes >= 3 => prog = preset(2),
            3 if planes >= 3 => prog = preset(3),
            4 => {
                let k = r.range(1, 4.min(planes as u64));
                let mut dests: Vec<usize> = (0..planes).collect();
                for _ in 0..k {
                    let d = dests.swap_remove(r.below(dests.len() as u64) as usize);
                    let nf = r.below(4.min(planes as u64)) as usize;
                    let mut factors: Vec<(usize, i32)> = vec![];
                    for _ in 0..nf {
                        if planes < 2 {
                            break;
                        }
                        // any other plane, now and then one a second time
                        let mut s = r.below(planes as u64) as usize;
                        if s == d || factors.iter().any(|f| f.0 == s) {
                            s = r.below(planes as u64) as usize;
                        }
                        if s == d {
                            s = (d + 1) % planes;
                        }
                        factors.push((s, if r.chance(1, 10) { r.range(0, 60) as i32 - 30 } else { r.range(0, 6) as i32 - 3 }));
                    }
                    prog.push(T {
                        dest: d,
                        factors,
                        denom: if r.chance(1, 6) {
                            *r.pick(&[7, 32, 100, 127, 128, 200, 255, 256, 257, 1000, 32767])
                        } else {
                            *r.pick(&[1, 1, 2, 3, 4, 5, 8, 16])
                        },
                        chroma: r.chance(1, 2),
                    });
                }
            }
            _ => {}
        }
    }
    if !o.lossless && !prog.is_empty() && r.chance(1, 10) {
        // a second transform of the same channel: defined, though it cannot be undone; the last chroma flag counts
        let mut again = prog[r.below(prog.len() as u64) as usize].clone();
        again.chroma = r.chance(1, 2);
        if r.chance(1, 2) {
            again.factors.clear();
        }
        if r.chance(1, 2) {
            again.denom = *r.pick(&[1, 2, 3, 8]);
        }
        prog.push(again);
    }
    if o.lossless {
        if r.chance(1, 2) {
            chroma_scale = 1;
        } else {
            for t in prog.iter_mut() {
                t.chroma = false;
            }
        }
    }
    let mut c = Case {
        w,
        h,
        layers,
        channels,
        quality,
        chroma_scale,
        block_size,
        filter: r.below(2) as u8,
        enc: r.below(3) as u8,
        intent: *r.pick(&[0u8, 7, 8, 10, 11, 12]),
        metadata: if r.chance(1, 4) { 4 * r.below(1 << 12) as u32 } else { 0 },
        prog,
        content: r.below(12) as u8,
        content_seed: r.next() >> 16,
    };
    if r.chance(1, 3) {
        c.content = *r.pick(&[1, 5, 9, 9]);
    }
    if size != Size::Huge && r.chance(1, 10) {
        // the largest coefficients there can be
        c.content = *r.pick(&[4, 8, 12, 12, 12]);
        if !o.lossless {
            c.quality = *r.pick(&[1023, 1023, 1022, 1020, 1000, 900, 512, 1024]);
        }
        c.chroma_scale = if r.chance(1, 2) { 1 } else { c.chroma_scale };
        let planes = c.planes() as u64;
        if planes > 1 && c.quality == 1024 && !o.no_prog {
            let dest = r.below(planes) as usize;
            let src = (dest + 1 + r.below(planes - 1) as usize) % planes as usize;
            let f = r.range(4, 40) as i32;
            let mut f = if r.chance(1, 2) { f } else { -f };
            if r.chance(1, 2) {
                // the ends of the 16-bit range
                c.content = 13;
                f = *r.pick(&[-256, 256, -256, 256, -255, 257, 128, -128, 129, -257, 32767, -32768]);
            }
            c.prog = vec![T { dest, factors: vec![(src, f)], denom: 1, chroma: !o.lossless && r.chance(1, 2) }];
        }
    }
    if size == Size::Huge && huge < 4 && r.chance(3, 4) {
        c.content = 11;
    }
    if size == Size::Huge && (4..9).contains(&huge) {
        c.content = *r.pick(&[0, 2, 3, 3, 10, 11]);
    }
    if huge == 14 || huge == 15 {
        c.content = *r.pick(&[0, 0, 0, 11, 1]);
        c.enc = *r.pick(&[0, 0, 1, 2]);
    }
    settle(&mut c);
    c
}
/// Makes a generated case one whose coefficients the format can store.
pub fn settle(c: &mut Case) {
    if !in_domain(c) {
        c.prog.clear();
    }
    if !in_domain(c) {
        c.content = 2;
    }
}

/// The coefficients stay in the 16-bit range the format stores.
pub fn in_domain(c: &Case) -> bool {
    if !c.valid() {
        return false;
    }
    if c.prog.is_empty() && c.quality == 1024 {
        return true; // |coefficient| <= a few times 255
    }
    let p = c.params();
    let mut ctx = model::Ctx::default();
    let mut planes = model::color_forward(&p, &c.image(), &mut ctx);
    for pl in planes.iter_mut() {
        model::lift(pl, p.filter, &mut ctx);
    }
    !ctx.overflow
}

fn t(dest: usize, factors: &[(usize, i32)], denom: i32, chroma: bool) -> T {
    T { dest, factors: factors.to_vec(), denom, chroma }
}
pub fn preset(k: u8) -> Vec<T> {
    match k {
        0 => vec![t(0, &[(1, -1)], 1, true), t(2, &[(1, -1)], 1, true), t(1, &[(0, 1), (2, 1)], 4, false)],
        1 => vec![
            t(2, &[(1, -1)], 1, true),
            t(0, &[(1, -2), (2, -1)], 2, true),
            t(1, &[(0, 2), (2, 3)], 8, false),
        ],
        2 => vec![
            t(0, &[(1, -1)], 1, true),
            t(2, &[(1, -2), (0, -1)], 2, true),
            t(1, &[(2, 2), (0, 3)], 8, false),
        ],
        _ => vec![t(1, &[], 1, true), t(2, &[], 1, true)],
    }
}

pub fn gen_policy(r: &mut Rng, small: bool) -> [u64; 4] {
    let gap = |r: &mut Rng| {
        if small {
            *r.pick(&[0u64, 0, 15, 60, 300, 2000, 20_000])
        } else {
            *r.pick(&[0u64, 0, 0, 2000, 20_000])
        }
    };
    match r.below(10) {
        0 => [0, 0, 0, 0],
        1..=4 => [1, *r.pick(&[30, 100, 250, 500, 900]), gap(r), 0],
        5 | 6 => [2, r.range(1, 9), *r.pick(&[2000, 20_000, 200_000, 2_000_000]), 0],
        7 => [3, if small { *r.pick(&[0, 0, 13, 100, 1000]) } else { *r.pick(&[0, 0, 5000]) }, 0, 0],
        _ => {
            let mut m = 0;
            for _ in 0..r.range(1, 3) {
                m |= 1 << r.below(8);
            }
            [4, *r.pick(&[30, 250, 700]), gap(r), m]
        }
    }
}
