//! A small sequential reference model of the GFWX format: encoder, decoder of any prefix at any
//! downsampling, stream layout and points of interest.  Written for clarity, no threads, no unsafe,
//! no shared code with the crate under test.  All arithmetic is exact (i64); `overflow` is raised
//! when a value leaves the 16-bit coefficient domain, where the format is not defined.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Filter {
    Linear,
    Cubic,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Turbo,
    Fast,
    Contextual,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Transform {
    pub dest: usize,
    pub factors: Vec<(usize, i32)>,
    pub denom: i32,
    pub chroma: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Params {
    pub w: usize,
    pub h: usize,
    pub layers: usize,
    pub channels: usize,
    pub quality: i32,
    pub chroma_scale: i32,
    pub block_size: u32,
    pub filter: Filter,
    pub enc: Enc,
    pub intent: u8,
    pub metadata: u32,
    pub prog: Vec<Transform>,
    /// Divisions by 2, 4 and 8 in colour programs round down (the reference codec shifts) instead of
    /// toward zero (as this library does).
    pub shift: bool,
}

pub const QMAX: i32 = 1024;

impl Params {
    pub fn planes(&self) -> usize {
        self.layers * self.channels
    }
    pub fn boost(&self) -> i64 {
        if self.quality == QMAX {
            1
        } else {
            8
        }
    }
    pub fn chroma_quality(&self) -> i32 {
        ((self.quality + self.chroma_scale / 2) / self.chroma_scale).max(1)
    }
    pub fn is_chroma(&self) -> Vec<bool> {
        let mut v = vec![false; self.planes()];
        for t in &self.prog {
            v[t.dest] = t.chroma; // the last transform of a plane decides
        }
        v
    }
    pub fn plane_quality(&self, chroma: bool) -> i32 {
        if chroma {
            self.chroma_quality()
        } else {
            self.quality
        }
    }
    pub fn dw(&self, d: u32) -> usize {
        let d = d.min(40);
        (self.w + (1 << d) - 1) >> d
    }
    pub fn dh(&self, d: u32) -> usize {
        let d = d.min(40);
        (self.h + (1 << d) - 1) >> d
    }
    pub fn top_step(&self) -> usize {
        let mut s = 1;
        while s * 2 < self.w || s * 2 < self.h {
            s *= 2;
        }
        s
    }
    /// (step, blocks in x, blocks in y, total blocks) of every level, coarsest first.
    pub fn levels(&self) -> Vec<(usize, usize, usize, usize)> {
        let mut v = vec![];
        let mut s = self.top_step();
        while s >= 1 {
            let bs = s << self.block_size;
            let bx = (self.w + bs - 1) / bs;
            let by = (self.h + bs - 1) / bs;
            v.push((s, bx, by, bx * by * self.planes()));
            s /= 2;
        }
        v
    }
    /// An output capacity that is certainly enough, with a wide margin.
    pub fn ample(&self) -> usize {
        let mut n = 32 + 64 + 64 * self.prog.iter().map(|t| 2 + t.factors.len() * 2).sum::<usize>();
        for (s, bx, by, nb) in self.levels() {
            let bs = s << self.block_size;
            let cx = (bs.min(self.w) + s - 1) / s;
            let cy = (bs.min(self.h) + s - 1) / s;
            let _ = (bx, by);
            n += nb * (4 + 16 + cx * cy * 12);
        }
        n + 64
    }
}

// ------------------------------------------------------------------ bits

#[derive(Default, Clone)]
pub struct BitW {
    bits: Vec<bool>,
}
impl BitW {
    fn put(&mut self, x: u64, n: u32) {
        for i in (0..n).rev() {
            self.bits.push((x >> i) & 1 != 0);
        }
    }
    pub fn unsigned(&mut self, x: u64, pot: u32) {
        let y = x >> pot;
        if y >= 12 {
            self.put(0, 12);
            let np = if pot < 20 { pot + 4 } else { 24 };
            self.unsigned(x - (12 << pot), np);
        } else {
            self.put(0, y as u32);
            self.put(1, 1);
            self.put(x & ((1 << pot) - 1), pot);
        }
    }
    pub fn interleaved(&mut self, x: i64, pot: u32) {
        self.unsigned(if x <= 0 { (-2 * x) as u64 } else { (2 * x - 1) as u64 }, pot);
    }
    pub fn signed(&mut self, x: i64, pot: u32) {
        self.unsigned(x.unsigned_abs(), pot);
        if x != 0 {
            self.put((x > 0) as u64, 1);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        for w in self.bits.chunks(32) {
            let mut x = 0u32;
            for (i, &b) in w.iter().enumerate() {
                if b {
                    x |= 1 << (31 - i);
                }
            }
            out.extend_from_slice(&x.to_le_bytes());
        }
        out
    }
    pub fn len_bits(&self) -> usize {
        self.bits.len()
    }
}

pub struct Eof;

pub struct BitR<'a> {
    b: &'a [u8],
    pos: usize,
    total: usize,
}
impl<'a> BitR<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        BitR { b, pos: 0, total: b.len() / 4 * 32 }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    fn bit(&mut self) -> Result<bool, Eof> {
        if self.pos >= self.total {
            return Err(Eof);
        }
        let w = self.pos / 32;
        let i = self.pos % 32;
        let x = u32::from_le_bytes([self.b[4 * w], self.b[4 * w + 1], self.b[4 * w + 2], self.b[4 * w + 3]]);
        self.pos += 1;
        Ok((x >> (31 - i)) & 1 != 0)
    }
    fn get(&mut self, n: u32) -> Result<u64, Eof> {
        let mut x = 0;
        for _ in 0..n {
            x = x << 1 | self.bit()? as u64;
        }
        Ok(x)
    }
    fn zeros(&mut self, max: u32) -> Result<u64, Eof> {
        let mut n = 0;
        while n < max {
            if self.bit()? {
                return Ok(n as u64);
            }
            n += 1;
        }
        Ok(n as u64)
    }
    pub fn unsigned(&mut self, pot: u32) -> Result<u64, Eof> {
        let x = self.zeros(12)?;
        let p = pot.min(24);
        if pot < 108 && x == 12 {
            return Ok((12 << p) + self.unsigned((pot + 4).min(108))?);
        }
        Ok((x << p) + self.get(p)?)
    }
    pub fn interleaved(&mut self, pot: u32) -> Result<i64, Eof> {
        let x = self.unsigned(pot)? as i64;
        Ok(if x & 1 != 0 { (x + 1) / 2 } else { -(x / 2) })
    }
    pub fn signed(&mut self, pot: u32) -> Result<i64, Eof> {
        let x = self.unsigned(pot)? as i64;
        if x == 0 {
            return Ok(0);
        }
        Ok(if self.bit()? { x } else { -x })
    }
}

// ------------------------------------------------------------------ header and program

pub fn header_bytes(p: &Params) -> Vec<u8> {
    let mut o = vec![];
    o.extend_from_slice(b"GFWX");
    o.extend_from_slice(&1u32.to_le_bytes());
    o.extend_from_slice(&(p.w as u32).to_le_bytes());
    o.extend_from_slice(&(p.h as u32).to_le_bytes());
    o.extend_from_slice(&((p.channels - 1) as u16).to_le_bytes());
    o.extend_from_slice(&((p.layers - 1) as u16).to_le_bytes());
    let t: u32 = (p.block_size - 2) | ((p.chroma_scale as u32 - 1) << 5) | ((p.quality as u32 - 1) << 13);
    o.extend_from_slice(&(t | (7 << 24)).to_le_bytes());
    o.push(p.intent);
    o.push(match p.enc {
        Enc::Turbo => 0,
        Enc::Fast => 1,
        Enc::Contextual => 2,
    });
    o.push(0);
    o.push(match p.filter {
        Filter::Linear => 0,
        Filter::Cubic => 1,
    });
    o.extend_from_slice(&(p.metadata / 4).to_le_bytes());
    o
}

pub fn program_bytes(prog: &[Transform]) -> Vec<u8> {
    let mut b = BitW::default();
    for t in prog {
        b.signed(t.dest as i64, 2);
        for &(s, f) in &t.factors {
            b.signed(s as i64, 2);
            b.signed(f as i64, 2);
        }
        b.signed(-1, 2);
        b.signed(t.denom as i64, 2);
        b.signed(t.chroma as i64, 2);
    }
    b.signed(-1, 2);
    b.bytes()
}

// ------------------------------------------------------------------ planes

#[derive(Clone, PartialEq, Debug)]
pub struct Plane {
    pub w: usize,
    pub h: usize,
    pub v: Vec<i64>,
}

#[derive(Default)]
pub struct Ctx {
    pub overflow: bool,
}
impl Ctx {
    fn fit(&mut self, x: i64) -> i64 {
        if x < -32768 || x > 32767 {
            self.overflow = true;
        }
        x
    }
}

fn divide(p: &Params, x: i64, by: i32) -> i64 {
    match by {
        2 | 4 | 8 if p.shift => x.div_euclid(by as i64),
        _ => x / by as i64,
    }
}

fn pixel_index(p: &Params, plane: usize, i: usize, size: usize) -> usize {
    (plane / p.channels) * size * p.channels + plane % p.channels + i * p.channels
}

pub fn color_forward(p: &Params, img: &[u8], c: &mut Ctx) -> Vec<Plane> {
    let n = p.w * p.h;
    let boost = p.boost();
    let raw: Vec<Vec<i64>> =
        (0..p.planes()).map(|k| (0..n).map(|i| img[pixel_index(p, k, i, n)] as i64 * boost).collect()).collect();
    let mut out: Vec<Option<Vec<i64>>> = vec![None; p.planes()];
    for t in &p.prog {
        // a plane transformed a second time goes on from where the first one left it
        let mut acc = out[t.dest].clone().unwrap_or_else(|| vec![0i64; n]);
        for &(s, f) in &t.factors {
            let src = out[s].as_ref().unwrap_or(&raw[s]);
            c.fit(f as i64 * boost);
            for i in 0..n {
                let term = c.fit(src[i] * f as i64);
                acc[i] = c.fit(acc[i] + term);
            }
        }
        for i in 0..n {
            acc[i] = c.fit(divide(p, acc[i], t.denom) + raw[t.dest][i]);
        }
        out[t.dest] = Some(acc);
    }
    out.into_iter()
        .zip(raw)
        .map(|(o, r)| Plane { w: p.w, h: p.h, v: o.unwrap_or(r) })
        .collect()
}

pub fn color_inverse(p: &Params, planes: &mut [Plane], c: &mut Ctx) -> Vec<u8> {
    let n = planes[0].v.len();
    for t in p.prog.iter().rev() {
        let mut acc = vec![0i64; n];
        for &(s, f) in &t.factors {
            for i in 0..n {
                let term = c.fit(planes[s].v[i] * f as i64);
                acc[i] = c.fit(acc[i] + term);
            }
        }
        for i in 0..n {
            planes[t.dest].v[i] = c.fit(planes[t.dest].v[i] - divide(p, acc[i], t.denom));
        }
    }
    let mut img = vec![0u8; n * p.planes()];
    for k in 0..p.planes() {
        for i in 0..n {
            img[pixel_index(p, k, i, n)] = (planes[k].v[i] / p.boost()).clamp(0, 255) as u8;
        }
    }
    img
}

/// Planar pixel order (plane after plane) of an interleaved image.
pub fn to_planar(p: &Params, img: &[u8], size: usize) -> Vec<u8> {
    let mut o = vec![0; img.len()];
    for k in 0..p.planes() {
        for i in 0..size {
            o[k * size + i] = img[pixel_index(p, k, i, size)];
        }
    }
    o
}

fn round16(n: i64) -> i64 {
    if n < 0 {
        (n - 8) / 16
    } else {
        (n + 8) / 16
    }
}
fn cubic(c0: i64, c1: i64, c2: i64, c3: i64) -> i64 {
    let r = round16(-c0 + 9 * (c1 + c2) - c3);
    // median of three
    r.max(c1.min(c2)).min(c1.max(c2))
}

/// Prediction of element `x` of a strided line from its neighbours at odd multiples of `s`.
fn predict(f: Filter, get: &dyn Fn(usize) -> i64, x: usize, s: usize, len: usize) -> (i64, i64) {
    let l1 = get(x - s);
    let r1 = if x + s < len { get(x + s) } else { l1 };
    match f {
        // numerator and the factor by which it is to be divided on top of the pass' divisor
        Filter::Linear => (l1 + r1, 2),
        Filter::Cubic => {
            let l3 = if x >= 3 * s { get(x - 3 * s) } else { l1 };
            let r3 = if x + 3 * s < len { get(x + 3 * s) } else { r1 };
            (cubic(l3, l1, r1, r3), 1)
        }
    }
}

fn pass(pl: &mut Plane, f: Filter, s: usize, horizontal: bool, update: bool, forward: bool, c: &mut Ctx) {
    let (w, h) = (pl.w, pl.h);
    let len = if horizontal { w } else { h };
    let across = if horizontal { h } else { w };
    let mut k = 0;
    while k < across {
        let at = |i: usize| if horizontal { k * w + i } else { i * w + k };
        let mut x = if update { 2 * s } else { s };
        while x < len {
            let (num, den) = {
                let v = &pl.v;
                predict(f, &|i| v[at(i)], x, s, len)
            };
            let d = num / (den * if update { 2 } else { 1 });
            let add = if update == forward { d } else { -d };
            pl.v[at(x)] = c.fit(pl.v[at(x)] + add);
            x += 2 * s;
        }
        k += s;
    }
}

pub fn lift(pl: &mut Plane, f: Filter, c: &mut Ctx) {
    let mut s = 1;
    while s < pl.w || s < pl.h {
        if s < pl.w {
            pass(pl, f, s, true, false, true, c);
            pass(pl, f, s, true, true, true, c);
        }
        if s < pl.h {
            pass(pl, f, s, false, false, true, c);
            pass(pl, f, s, false, true, true, c);
        }
        s *= 2;
    }
}
pub fn unlift(pl: &mut Plane, f: Filter, c: &mut Ctx) {
    let mut s = 1;
    while s * 2 < pl.w || s * 2 < pl.h {
        s *= 2;
    }
    while s > 0 {
        if s < pl.h {
            pass(pl, f, s, false, true, false, c);
            pass(pl, f, s, false, false, false, c);
        }
        if s < pl.w {
            pass(pl, f, s, true, true, false, c);
            pass(pl, f, s, true, false, false, c);
        }
        s /= 2;
    }
}

fn each_detail(w: usize, h: usize, s: usize, mut f: impl FnMut(usize, usize)) {
    let mut y = 0;
    while y < h {
        let mut x = 0;
        while x < w {
            if (x | y) & s != 0 {
                f(x, y);
            }
            x += s;
        }
        y += s;
    }
}

pub fn quantize(pl: &mut Plane, quality: i32, boost: i64, c: &mut Ctx) {
    let maxq = QMAX as i64 * boost;
    let (mut s, mut q) = (1, quality as i64);
    let (w, h) = (pl.w, pl.h);
    while s < h && s < w {
        let qq = q.max(1);
        if qq >= maxq {
            break;
        }
        each_detail(w, h, s, |x, y| {
            let v = &mut pl.v[y * w + x];
            *v = *v * qq / maxq;
        });
        s *= 2;
        q = (2 * q).min(maxq);
    }
    let _ = c;
}
pub fn dequantize(pl: &mut Plane, quality: i64, boost: i64, c: &mut Ctx) {
    let maxq = QMAX as i64 * boost;
    let (mut s, mut q) = (1, quality);
    let (w, h) = (pl.w, pl.h);
    while s < h && s < w {
        let qq = q.max(1);
        if qq >= maxq {
            break;
        }
        each_detail(w, h, s, |x, y| {
            let v = pl.v[y * w + x];
            let r = v * maxq + v.signum() * (maxq / 2);
            pl.v[y * w + x] = c.fit(r / qq);
        });
        s *= 2;
        q = (2 * q).min(maxq);
    }
}

// ------------------------------------------------------------------ entropy coding of one block

struct Block<'a> {
    x0: usize,
    x1: usize,
    y0: usize,
    y1: usize,
    s: usize,
    w: usize,
    v: &'a mut [i64],
}
impl Block<'_> {
    fn at(&self, x: usize, y: usize) -> i64 {
        self.v[(self.y0 + y) * self.w + self.x0 + x]
    }
    /// Context statistics; 32-bit unsigned wrap-around arithmetic, as in the format's reference.
    fn context(&self, x: usize, y: usize) -> (u32, u32) {
        let s = self.s;
        let (bw, bh) = (self.x1 - self.x0, self.y1 - self.y0);
        let (mut sum, mut sum2, mut count) = (0u32, 0u32, 0u32);
        let mut add = |v: i64, k: u32| {
            let a = v.unsigned_abs() as u32;
            sum = sum.wrapping_add(a.wrapping_mul(k));
            let m = a.min(4096);
            sum2 = sum2.wrapping_add((m * m).wrapping_mul(k));
            count += k;
        };
        // ancestor: drop the 2s bit, promote the s bit to 2s, and stay inside the block
        let mut px = (x & !(2 * s)) + (x & s);
        let mut py = (y & !(2 * s)) + (y & s);
        if px >= bw {
            px -= 2 * s
        }
        if py >= bh {
            py -= 2 * s
        }
        add(self.at(px, py), 2);
        if y & s != 0 && (x | s) < bw {
            add(self.at(x | s, y - s), 2);
            if x & s != 0 {
                add(self.at(x - s, y), 2);
            }
        }
        if x >= 2 * s && y >= 2 * s {
            add(self.at(x, y - 2 * s), 4);
            add(self.at(x - 2 * s, y), 4);
            add(self.at(x - 2 * s, y - 2 * s), 2);
            if x + 2 * s < bw {
                add(self.at(x + 2 * s, y - 2 * s), 2);
            }
            if x >= 4 * s && y >= 4 * s {
                add(self.at(x, y - 4 * s), 2);
                add(self.at(x - 4 * s, y), 2);
                add(self.at(x - 4 * s, y - 4 * s), 1);
                if x + 4 * s < bw {
                    add(self.at(x + 4 * s, y - 4 * s), 1);
                }
            }
        }
        let avg = |v: u32| v.wrapping_mul(16).wrapping_add(count / 2) / count;
        (avg(sum), avg(sum2))
    }
    fn positions(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        each_detail(self.x1 - self.x0, self.y1 - self.y0, self.s, |x, y| v.push((x, y)));
        v
    }
}

/// Which code a coefficient uses in the given context: (interleaved?, pot).
fn code_kind(ctx: (u32, u32), chroma: bool) -> (bool, u32) {
    let sq = ctx.0.wrapping_mul(ctx.0);
    let below = |k: u32, add: u32| sq < ctx.1.wrapping_mul(k).wrapping_add(add);
    if below(2, if chroma { 250 } else { 100 }) {
        (true, 0)
    } else if below(2, 950) {
        (true, 1)
    } else if below(3, 3000) {
        if below(5, 400) {
            (false, 1)
        } else {
            (true, 2)
        }
    } else if below(3, 12000) {
        if below(5, 3000) {
            (false, 2)
        } else {
            (true, 3)
        }
    } else if below(4, 44000) {
        if below(6, 12000) {
            (false, 3)
        } else {
            (true, 4)
        }
    } else {
        (false, 4)
    }
}

/// Adaptive state shared by coder and decoder.
struct Adapt {
    enc: Enc,
    q: i32,
    ctx: (u32, u32),
    run_coder: u32,
}
impl Adapt {
    fn new(enc: Enc, q: i32, s: usize) -> Self {
        let turbo_runs = enc == Enc::Turbo && (q == 0 || (s < 2048 && q as usize * s < 2048));
        Adapt { enc, q, ctx: (0, 0), run_coder: turbo_runs as u32 }
    }
    /// `v` is the symbol as coded (already shifted when a run code preceded it).
    fn update(&mut self, v: i64) {
        let flip = (v == 0) == (self.run_coder == 0);
        match self.enc {
            Enc::Turbo => {}
            Enc::Fast => {
                let t = v.unsigned_abs() as u32;
                let m = t.min(4096);
                let decay = |c: u32| c.wrapping_mul(15).wrapping_add(7) >> 4;
                self.ctx = (decay(self.ctx.0).wrapping_add(t), decay(self.ctx.1).wrapping_add(m * m));
                if flip {
                    self.run_coder = match self.ctx.0 {
                        0 => 4,
                        1 => 3,
                        2 | 3 => 2,
                        4..=7 => 1,
                        _ => 0,
                    };
                }
            }
            Enc::Contextual => {
                if flip {
                    let (a, b) = self.ctx;
                    let sq = a.wrapping_mul(a).wrapping_mul(2);
                    self.run_coder = if self.q == QMAX {
                        (a < 2) as u32
                    } else if a < 4 && b < 2 {
                        4
                    } else if a < 8 && b < 4 {
                        3
                    } else if sq < b.wrapping_mul(3).wrapping_add(48) {
                        2
                    } else if sq < b.wrapping_mul(5).wrapping_add(32) {
                        1
                    } else {
                        0
                    };
                }
            }
        }
    }
}

fn encode_block(b: &Block, enc: Enc, q: i32, dc: bool, chroma: bool) -> BitW {
    let mut o = BitW::default();
    if dc {
        o.signed(b.at(0, 0), 4);
    }
    let mut a = Adapt::new(enc, q, b.s);
    let mut run = 0u64;
    for (x, y) in b.positions() {
        let v = b.at(x, y);
        if a.run_coder != 0 && v == 0 {
            run += 1;
            continue;
        }
        let mut s = v;
        if a.run_coder != 0 {
            o.unsigned(run, a.run_coder);
            run = 0;
            if s < 0 {
                s += 1;
            }
        }
        if enc == Enc::Turbo {
            o.interleaved(s, 1);
            continue;
        }
        if enc == Enc::Contextual {
            a.ctx = b.context(x, y);
        }
        let (inter, pot) = code_kind(a.ctx, chroma);
        if inter {
            o.interleaved(s, pot)
        } else {
            o.signed(s, pot)
        }
        a.update(s);
    }
    if run != 0 {
        o.unsigned(run, a.run_coder);
    }
    o
}

fn decode_block(b: &mut Block, full_step: usize, r: &mut BitR, enc: Enc, q: i32, dc: bool, chroma: bool, c: &mut Ctx) -> Result<(), Eof> {
    if dc {
        let v = c.fit(r.signed(4)?);
        b.v[b.y0 * b.w + b.x0] = v;
    }
    let mut a = Adapt::new(enc, q, full_step);
    let mut run: i64 = -1;
    for (x, y) in b.positions() {
        let mut s = 0;
        if a.run_coder != 0 && run < 0 {
            run = r.unsigned(a.run_coder)? as i64;
            if run > i32::MAX as i64 {
                c.overflow = true;
            }
        }
        if run > 0 {
            run -= 1;
        } else {
            if enc == Enc::Turbo {
                s = r.interleaved(1)?;
            } else {
                if enc == Enc::Contextual {
                    a.ctx = b.context(x, y);
                }
                let (inter, pot) = code_kind(a.ctx, chroma);
                s = if inter { r.interleaved(pot)? } else { r.signed(pot)? };
                a.update(s);
            }
            if run == 0 && s <= 0 {
                s -= 1;
            }
            run = -1;
        }
        b.v[(b.y0 + y) * b.w + b.x0 + x] = c.fit(s);
    }
    Ok(())
}

// ------------------------------------------------------------------ whole streams

#[derive(Clone, Debug, PartialEq)]
pub struct BlockPos {
    pub plane: usize,
    pub x0: usize,
    pub y0: usize,
    pub x1: usize,
    pub y1: usize,
    pub off: usize,
    pub len: usize,
    /// bits really used (before padding to a word)
    pub bits: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LevelPos {
    pub step: usize,
    pub table: usize,
    pub payload: usize,
    pub end: usize,
    pub blocks: Vec<BlockPos>,
}
#[derive(Clone, Debug)]
pub struct Encoded {
    /// header + program + payload
    pub bytes: Vec<u8>,
    pub header_len: usize,
    pub program_len: usize,
    /// offsets relative to the start of the payload
    pub levels: Vec<LevelPos>,
    pub overflow: bool,
    pub coefs: Vec<Plane>,
}
impl Encoded {
    pub fn payload_start(&self) -> usize {
        self.header_len + self.program_len
    }
    pub fn payload(&self) -> &[u8] {
        &self.bytes[self.payload_start()..]
    }
}

fn block_rects(p: &Params, step: usize) -> Vec<(usize, usize, usize, usize, usize)> {
    let bs = step << p.block_size;
    let mut v = vec![];
    for k in 0..p.planes() {
        let mut y = 0;
        while y < p.h {
            let mut x = 0;
            while x < p.w {
                v.push((k, x, y, (x + bs).min(p.w), (y + bs).min(p.h)));
                x += bs;
            }
            y += bs;
        }
    }
    v
}

pub fn encode_payload(p: &Params, mut planes: Vec<Plane>, c: &mut Ctx) -> (Vec<u8>, Vec<LevelPos>, Vec<Plane>) {
    let chroma = p.is_chroma();
    for (k, pl) in planes.iter_mut().enumerate() {
        lift(pl, p.filter, c);
        quantize(pl, p.plane_quality(chroma[k]), p.boost(), c);
    }
    let mut out: Vec<u8> = vec![];
    let mut levels = vec![];
    let mut first = true;
    for (s, _, _, nb) in p.levels() {
        let table = out.len();
        let mut lens = vec![];
        let mut body = vec![];
        let mut blocks = vec![];
        let payload = table + nb * 4;
        for (k, x0, y0, x1, y1) in block_rects(p, s) {
            let b = Block { x0, x1, y0, y1, s, w: p.w, v: &mut planes[k].v };
            let w = encode_block(&b, p.enc, p.plane_quality(chroma[k]), first && x0 == 0 && y0 == 0, chroma[k]);
            let bytes = w.bytes();
            blocks.push(BlockPos { plane: k, x0, y0, x1, y1, off: payload + body.len(), len: bytes.len(), bits: w.len_bits() });
            lens.push((bytes.len() / 4) as u32);
            body.extend_from_slice(&bytes);
        }
        assert_eq!(lens.len(), nb);
        for l in lens {
            out.extend_from_slice(&l.to_le_bytes());
        }
        out.extend_from_slice(&body);
        levels.push(LevelPos { step: s, table, payload, end: out.len(), blocks });
        first = false;
    }
    (out, levels, planes)
}

pub fn encode(p: &Params, img: &[u8]) -> Encoded {
    let mut c = Ctx::default();
    let planes = color_forward(p, img, &mut c);
    let (payload, levels, coefs) = encode_payload(p, planes, &mut c);
    let mut bytes = header_bytes(p);
    let header_len = bytes.len();
    let pb = program_bytes(&p.prog);
    let program_len = pb.len();
    bytes.extend_from_slice(&pb);
    bytes.extend_from_slice(&payload);
    Encoded { bytes, header_len, program_len, levels, overflow: c.overflow, coefs }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Complete,
    /// next point of interest, relative to the payload
    More(usize),
    /// some completely received block runs out of data
    Corrupt,
}

pub struct Decoded {
    pub verdict: Verdict,
    /// coefficients before dequantisation, downsampled geometry
    pub coefs: Vec<Plane>,
    pub overflow: bool,
    /// the data end inside the payload of a level that is not the last one needed
    pub cut_inside_earlier_level: bool,
}

/// Decodes a payload prefix at downsampling `d`; with `test`, only the verdict.
pub fn decode_payload(p: &Params, data: &[u8], d: u32, test: bool) -> Decoded {
    let d = d.min(40);
    let chroma = p.is_chroma();
    let (dw, dh) = (p.dw(d), p.dh(d));
    let mut coefs: Vec<Plane> = (0..p.planes()).map(|_| Plane { w: dw, h: dh, v: vec![0; dw * dh] }).collect();
    let mut c = Ctx::default();
    let mut poi = data.len() + 1024;
    let mut truncated = false;
    let mut cut_inside = false;
    let mut pos = 0usize;
    let mut first = true;
    for (s, _, _, nb) in p.levels() {
        if s >> d < 1 {
            break;
        }
        truncated = true;
        if pos > data.len() {
            cut_inside = true;
            break;
        }
        if data.len() - pos < nb * 4 {
            break;
        }
        let lens: Vec<usize> = (0..nb)
            .map(|i| u32::from_le_bytes(data[pos + 4 * i..pos + 4 * i + 4].try_into().unwrap()) as usize * 4)
            .collect();
        let total: usize = lens.iter().sum();
        let body = pos + nb * 4;
        poi = body + total + if s >> d > 1 { nb * 16 } else { 0 };
        if data.len() - body >= total {
            truncated = false;
        }
        if !test {
            let ds = s >> d;
            let mut off = body;
            for (i, (k, x0, y0, _, _)) in block_rects(p, s).into_iter().enumerate() {
                let end = off + lens[i];
                if end > data.len() {
                    break;
                }
                let (x0, y0) = (x0 >> d, y0 >> d);
                let bs = ds << p.block_size;
                let mut b = Block { x0, y0, x1: (x0 + bs).min(dw), y1: (y0 + bs).min(dh), s: ds, w: dw, v: &mut coefs[k].v };
                let mut r = BitR::new(&data[off..end]);
                let res = decode_block(
                    &mut b,
                    s,
                    &mut r,
                    p.enc,
                    p.plane_quality(chroma[k]),
                    first && x0 == 0 && y0 == 0,
                    chroma[k],
                    &mut c,
                );
                if res.is_err() {
                    return Decoded { verdict: Verdict::Corrupt, coefs, overflow: c.overflow, cut_inside_earlier_level: cut_inside };
                }
                off = end;
            }
        }
        first = false;
        pos = body + total;
    }
    Decoded {
        verdict: if truncated { Verdict::More(poi) } else { Verdict::Complete },
        coefs,
        overflow: c.overflow,
        cut_inside_earlier_level: cut_inside,
    }
}

/// Finishes decoded coefficients into an interleaved image.
pub fn reconstruct(p: &Params, mut coefs: Vec<Plane>, d: u32) -> (Vec<u8>, bool) {
    let mut c = Ctx::default();
    let chroma = p.is_chroma();
    for (k, pl) in coefs.iter_mut().enumerate() {
        dequantize(pl, (p.plane_quality(chroma[k]) as i64) << d.min(40), p.boost(), &mut c);
        unlift(pl, p.filter, &mut c);
    }
    let img = color_inverse(p, &mut coefs, &mut c);
    (img, c.overflow)
}

/// Coefficient-domain result of decompress_aux_data (after dequantisation and unlifting).
pub fn reconstruct_aux(p: &Params, mut coefs: Vec<Plane>, d: u32) -> (Vec<i64>, bool) {
    let mut c = Ctx::default();
    let chroma = p.is_chroma();
    for (k, pl) in coefs.iter_mut().enumerate() {
        dequantize(pl, (p.plane_quality(chroma[k]) as i64) << d.min(40), p.boost(), &mut c);
        unlift(pl, p.filter, &mut c);
    }
    (coefs.into_iter().flat_map(|p| p.v).collect(), c.overflow)
}
