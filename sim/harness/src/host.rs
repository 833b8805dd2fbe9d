//! The simulated host program: runs the real library inside the simulator, in a chosen calling
//! context, and records what happened.
use crate::gbuf::GBuf;
use crate::spec::*;
use gfwx::*;
use simrt::rng::Rng;
use simrt::{Outcome, Policy};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<X>(class: &str, detail: String) -> Result<X, Viol> {
    Err(Viol { class: class.into(), detail })
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub sims: u64,
    pub max_threads: u64,
    pub jobs: u64,
    pub steals: u64,
    pub nested: u64,
    pub mem: u64,
    pub hash: u64,
    /// digest of everything observed, for comparison between build configurations
    pub result: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

pub struct Env {
    pub spec: Spec,
    pub st: Stats,
    pub rec: Vec<Vec<(u64, u32)>>,
    pub race: bool,
    pub limit: u64,
    /// where a run that dies can find what was recorded so far
    pub sims: usize,
}

pub static mut PANIC_NOTE: Option<String> = None;
pub fn panic_note() -> String {
    #[allow(static_mut_refs)]
    unsafe {
        PANIC_NOTE.take().unwrap_or_default()
    }
}

pub struct SimOpt {
    pub seq: bool,
    pub threads: Option<usize>,
    pub salt: u64,
}
pub const SCHED: SimOpt = SimOpt { seq: false, threads: None, salt: 0 };
pub const SEQ: SimOpt = SimOpt { seq: true, threads: Some(1), salt: 0 };

pub fn digest(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (b.len() as u64).rotate_left(40)
}

impl Env {
    pub fn new(spec: Spec) -> Env {
        let el: u64 = spec.cases.iter().map(|c| c.elems() as u64).sum();
        Env { spec, st: Stats::default(), rec: vec![], race: false, limit: 5_000_000 + el * 20_000, sims: 0 }
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.st.faults.entry(k.into()).or_insert(0) += n;
            self.st.nontrivial = true;
        }
    }
    pub fn probe(&mut self, k: &str, n: u64) {
        *self.st.probes.entry(k.into()).or_insert(0) += n;
    }
    pub fn note_result(&mut self, b: &[u8]) {
        self.st.result = digest(self.st.result.rotate_left(7), b);
    }
    /// Runs `f` as the root thread of one simulation.
    pub fn sim<R: Send>(&mut self, o: SimOpt, f: impl FnOnce() -> R + Send) -> Result<R, Viol> {
        let k = self.sims;
        self.sims += 1;
        let threads = o.threads.unwrap_or(self.spec.threads).max(1);
        let replay = self.spec.decisions.is_some() && !o.seq;
        let decisions = self.spec.decisions.as_ref().and_then(|d| d.get(k).cloned()).unwrap_or_default();
        let cfg = simrt::Cfg {
            seed: if o.seq { 1 } else { self.spec.sched_seed ^ (k as u64) << 32 ^ o.salt },
            policy: if o.seq {
                Policy::Coop
            } else if replay {
                Policy::Replay
            } else {
                self.spec.policy()
            },
            decisions,
            step_limit: self.limit,
            race: self.race && !o.seq,
            preempted: self.st.preempts,
        };
        let mut out: Option<Result<R, Box<dyn std::any::Any + Send>>> = None;
        #[cfg(feature = "par")]
        rayon_core::sim_reset(threads);
        #[cfg(not(feature = "par"))]
        let _ = threads;
        crate::CURRENT_SIM.store(k, std::sync::atomic::Ordering::SeqCst);
        let oc: Outcome = {
            let slot = &mut out;
            let root: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(f));
                #[cfg(feature = "par")]
                rayon_core::sim_shutdown();
                *slot = Some(r);
            });
            let root: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(root) };
            simrt::run(cfg, root)
        };
        #[cfg(feature = "par")]
        {
            let s = rayon_core::sim_stats();
            self.st.jobs += s.jobs;
            self.st.steals += s.steals;
            self.st.nested += s.nested_steals;
        }
        if !o.seq {
            self.st.steps += oc.steps;
            self.st.switches += oc.switches;
            self.st.preempts += oc.preemptions;
            self.st.sims += 1;
            self.st.max_threads = self.st.max_threads.max(oc.threads as u64);
            self.st.mem += oc.mem_accesses;
            if oc.asked > 0 {
                *self.st.probes.entry("clock, entropy or processor queries answered".into()).or_insert(0) += oc.asked;
            }
            let n = unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(simrt::race::GAVE_UP)) };
            if self.race && n > 0 {
                *self.st.probes.entry("calls with too many work units to check for races".into()).or_insert(0) += n;
            }
            self.st.hash = self.st.hash.rotate_left(9) ^ oc.sched_hash;
            if oc.switches > oc.threads as u64 {
                self.st.nontrivial = true;
            }
        }
        while self.rec.len() < k {
            self.rec.push(vec![]);
        }
        self.rec.push(if o.seq { vec![] } else { oc.decisions });
        if let Some(r) = oc.races.first() {
            return viol(
                "race",
                format!(
                    "{} on element {} of {} between parallel work units {} and {} (step {})",
                    r.kind, r.offset, r.region, r.strand_a, r.strand_b, r.step
                ),
            );
        }
        match out {
            Some(Ok(r)) => Ok(r),
            Some(Err(p)) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                viol("panic", format!("panicked: {} [{}]", m, panic_note()))
            }
            None => viol("panic", "simulation ended without a result".into()),
        }
    }
}

// ------------------------------------------------------------------ concurrency helpers

/// Runs the closures as concurrent simulated caller threads.
pub fn callers<R: Send>(fs: Vec<Box<dyn FnOnce() -> R + Send + '_>>) -> Vec<Result<R, String>> {
    let n = fs.len();
    let mut slots: Vec<Option<R>> = (0..n).map(|_| None).collect();
    let mut tids = vec![];
    for (i, (f, slot)) in fs.into_iter().zip(slots.iter_mut()).enumerate() {
        let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || *slot = Some(f()));
        let b: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(b) };
        tids.push(simrt::spawn(&format!("caller{}", i), b));
    }
    let mut out = vec![];
    let mut panics = vec![];
    for t in tids {
        panics.push(simrt::join(t).map(|p| {
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        }));
    }
    for (s, p) in slots.into_iter().zip(panics) {
        out.push(match p {
            Some(m) => Err(m),
            None => Ok(s.unwrap()),
        });
    }
    out
}

pub fn noise(k: u32) {
    for _ in 0..k {
        simrt::point();
    }
}

pub const CONTEXTS: u64 = 8;
/// Calls `f` from the given place in a parallel program.
#[cfg(feature = "par")]
pub fn in_ctx<R: Send>(ctx: u8, threads: usize, f: impl FnOnce() -> R + Send) -> R {
    use rayon::prelude::*;
    let threads = threads.min(6);
    match ctx {
        1 => rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(f),
        2 => rayon::join(f, || noise(20)).0,
        3 => rayon::join(|| noise(5), f).1,
        4 => {
            let mut out = None;
            rayon::scope(|s| {
                s.spawn(|_| out = Some(f()));
                s.spawn(|_| noise(9));
            });
            out.unwrap()
        }
        5 => {
            let slot = std::sync::Mutex::new(Some(f));
            let out = std::sync::Mutex::new(None);
            (0..5).into_par_iter().for_each(|i| {
                if i == 3 {
                    let g = slot.lock().unwrap().take().unwrap();
                    let r = g();
                    *out.lock().unwrap() = Some(r);
                } else {
                    noise(4);
                }
            });
            out.into_inner().unwrap().unwrap()
        }
        6 => {
            let p = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
            rayon::join(|| p.install(f), || noise(12)).0
        }
        7 => rayon::scope(|s| {
            s.spawn(|_| noise(7));
            f()
        }),
        _ => f(),
    }
}
#[cfg(not(feature = "par"))]
pub fn in_ctx<R: Send>(_: u8, _: usize, f: impl FnOnce() -> R + Send) -> R {
    f()
}

// ------------------------------------------------------------------ the library, driven

pub fn filter_of(c: &Case) -> Filter {
    if c.filter == 0 {
        Filter::Linear
    } else {
        Filter::Cubic
    }
}
pub fn enc_of(c: &Case) -> Encoder {
    match c.enc {
        0 => Encoder::Turbo,
        1 => Encoder::Fast,
        _ => Encoder::Contextual,
    }
}
pub fn intent_of(k: u8) -> Intent {
    match k {
        7 => Intent::RGB,
        8 => Intent::RGBA,
        10 => Intent::BGR,
        11 => Intent::BGRA,
        12 => Intent::YUV444,
        _ => Intent::Generic,
    }
}
pub fn header_of(c: &Case) -> Header {
    HeaderBuilder {
        width: c.w as u32,
        height: c.h as u32,
        layers: c.layers as u16,
        channels: c.channels as u16,
        quality: c.quality as u16,
        chroma_scale: c.chroma_scale as u8,
        block_size: c.block_size as u8,
        filter: filter_of(c),
        encoder: enc_of(c),
        intent: intent_of(c.intent),
        metadata_size: c.metadata,
    }
    .build()
    .expect("valid header refused")
}
pub fn program_of(prog: &[T], presets: bool) -> ColorTransformProgram {
    if presets && !prog.is_empty() {
        if prog == preset(0) {
            return ColorTransformProgram::rgb_to_yuv();
        }
        if prog == preset(1) {
            return ColorTransformProgram::bgr_to_a710();
        }
        if prog == preset(2) {
            return ColorTransformProgram::rgb_to_a710();
        }
        if prog == preset(3) {
            return ColorTransformProgram::yuv444_to_yuv444();
        }
    }
    let mut p = ColorTransformProgram::new();
    for t in prog {
        let mut b = ChannelTransformBuilder::with_dest_channel(t.dest);
        for &(s, f) in &t.factors {
            b.add_channel_factor(s, f as isize);
        }
        b.set_denominator(t.denom as isize);
        if t.chroma {
            b.set_chroma();
        }
        p.add_channel_transform(b.build());
    }
    p
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    /// compress_simple / decompress_simple
    Simple,
    /// transform_and_to_planar + compress_aux_data, and the inverse
    Planar,
    /// source already planar: transform + compress_aux_data, and the inverse
    Transform,
    /// as Planar with pixels of another type: i16 in, u16, i32 or f64 out
    WidePlanar,
    /// as Transform with pixels of another type
    WideTransform,
    /// interleaved_to_planar / planar_to_interleaved, a group of channels at a time (programs without arithmetic)
    Convert,
}
pub fn api(k: u64) -> Api {
    match k % 8 {
        0 | 1 | 2 => Api::Simple,
        3 => Api::Planar,
        4 => Api::Transform,
        5 => Api::WidePlanar,
        6 => Api::WideTransform,
        _ => Api::Convert,
    }
}
fn plain(prog: &ColorTransformProgram, planes: usize) -> bool {
    // a channel transformed twice is not copied but added up
    let once = prog.iter().enumerate().all(|(i, t)| prog.iter().take(i).all(|u| u.dest_channel != t.dest_channel));
    once && (0..planes).all(|k| !prog.is_channel_has_transform(k))
}
/// Two channel groups for the converters: those to skip first, and the rest.
fn groups(channels: usize, salt: usize) -> (Vec<usize>, Vec<usize>) {
    let (a, b): (Vec<usize>, Vec<usize>) = (0..channels).partition(|&c| (c * 7 + salt) % 3 == 0);
    (a, b)
}
/// Elements past what a conversion may write.
const MARGIN: usize = 3;

pub fn cerr(e: &CompressError) -> String {
    match e {
        CompressError::IOErr(_) => "io".into(),
        CompressError::Overflow => "overflow".into(),
        CompressError::Malformed => "malformed".into(),
    }
}
pub fn derr(e: &DecompressError) -> String {
    match e {
        DecompressError::IOErr(_) => "io".into(),
        DecompressError::Unsupported => "unsupported".into(),
        DecompressError::Underflow => "underflow".into(),
        DecompressError::Malformed => "malformed".into(),
        DecompressError::TypeMismatch => "mismatch".into(),
    }
}

/// Fills the caller's coefficient buffer from the picture.
fn load(c: &Case, h: &Header, prog: &ColorTransformProgram, img: &[u8], aux: &mut [i16], api: Api) -> Result<(), String> {
    let cs = c.w * c.h;
    match api {
        Api::Planar => lib(|| prog.transform_and_to_planar(img, h, aux)),
        Api::WidePlanar => {
            let wide: Vec<i16> = img.iter().map(|&x| x as i16).collect();
            lib(|| prog.transform_and_to_planar(&wide[..], h, aux))
        }
        Api::WideTransform => {
            let wide: Vec<i16> = model::to_planar(&c.params(), img, cs).into_iter().map(|x| x as i16).collect();
            lib(|| prog.transform(&wide[..], h, aux))
        }
        Api::Convert if plain(prog, c.planes()) => {
            let (first, rest) = groups(c.channels, c.w);
            let n = cs * c.channels;
            for l in 0..c.layers {
                let input = &img[l * n..(l + 1) * n];
                for (skip, take) in [(&first, &rest), (&rest, &first)] {
                    let mut part = vec![0x5a5ai16; take.len() * cs + MARGIN];
                    if (c.h + l) % 2 == 0 {
                        lib(|| interleaved_to_planar(input, c.channels, h.get_boost() as i16, &mut part, skip));
                    } else {
                        let wide: Vec<i16> = input.iter().map(|&x| x as i16).collect();
                        lib(|| interleaved_to_planar(&wide[..], c.channels, h.get_boost() as i16, &mut part, skip));
                    }
                    if part[take.len() * cs..].iter().any(|&x| x != 0x5a5a) {
                        return Err("OUT-OF-BOUNDS: interleaved_to_planar wrote past the channels it converts".into());
                    }
                    for (j, &k) in take.iter().enumerate() {
                        aux[l * n + k * cs..][..cs].copy_from_slice(&part[j * cs..][..cs]);
                    }
                }
            }
        }
        Api::Convert => lib(|| prog.transform_and_to_planar(img, h, aux)),
        _ => {
            let pl = model::to_planar(&c.params(), img, cs);
            lib(|| prog.transform(&pl, h, aux))
        }
    }
    Ok(())
}

/// Compresses into `buf` through the chosen entry point.
pub fn compress(c: &Case, img: &[u8], buf: &mut [u8], api: Api, end: bool) -> Result<usize, String> {
    let h = header_of(c);
    let prog = program_of(&c.prog, true);
    simrt::race::register("image", img.as_ptr() as usize, img.len(), 0);
    let r = match api {
        Api::Simple => {
            simrt::race::register("output", buf.as_ptr() as usize, buf.len(), 0);
            lib(|| compress_simple(img, &h, &prog, buf)).map_err(|e| cerr(&e))
        }
        _ => (|| {
            let total = buf.len();
            let mut b = buf;
            h.encode(&mut b).map_err(|_| "io".to_string())?;
            let chroma = lib(|| prog.encode(c.planes(), &mut b)).map_err(|_| "io".to_string())?;
            let service = total - b.len();
            let mut aux = GBuf::i16s(c.elems(), end);
            aux.words_mut().fill(0);
            simrt::race::register("coefficients", aux.addr(), aux.len(), 1);
            simrt::race::register("output", b.as_ptr() as usize, b.len(), 0);
            load(c, &h, &prog, img, aux.words_mut(), api)?;
            let r = lib(|| compress_aux_data(aux.words_mut(), &h, &chroma, b));
            simrt::race::unregister(aux.addr());
            if !aux.intact() {
                return Err("OUT-OF-BOUNDS write around the coefficient buffer".into());
            }
            r.map(|n| n + service).map_err(|e| cerr(&e))
        })(),
    };
    simrt::race::unregister_all();
    r
}

/// Previous contents of the caller's coefficient buffer for the planar entry points (0: zeroed).  Only
/// decodes of complete data may be given a dirty one: blocks that have not arrived leave it as it is.
pub static AUX_FILL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

thread_local! {
    /// The memory account this thread's library calls are charged to (0: none).
    pub static CHARGE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// One call of the library: what it allocates is charged, what the caller allocates is not.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    simrt::ledger::on(CHARGE.with(|c| c.get()), f)
}
/// The library calls of `f` are charged to `account`.
pub fn charged<R>(account: u32, f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            CHARGE.with(|c| c.set(self.0));
        }
    }
    let _b = Back(CHARGE.with(|c| c.replace(account)));
    f()
}

/// Result of a decode: value or error kind.
pub type Dec = Result<usize, String>;

/// Pixels of another type, one at a time back to bytes; anything that is not a byte value is noticed.
trait Px: num_traits::NumCast + Copy + PartialEq {
    const MARK: Self;
}
impl Px for u8 {
    const MARK: u8 = 0xA6;
}
impl Px for u16 {
    const MARK: u16 = 0xA6A6;
}
impl Px for i32 {
    const MARK: i32 = -77_777;
}
impl Px for f64 {
    const MARK: f64 = -1.5;
}
fn narrow<P: Px>(wide: &[P], out: &mut [u8]) -> Result<(), String> {
    for (o, x) in out.iter_mut().zip(wide) {
        match x.to_f64() {
            Some(v) if v >= 0.0 && v <= 255.0 && v.fract() == 0.0 => *o = v as u8,
            v => return Err(format!("NOT A PIXEL VALUE: {:?}", v)),
        }
    }
    if wide[out.len()..].iter().any(|x| *x != P::MARK) {
        return Err("OUT-OF-BOUNDS: pixels were written past the end of the image".into());
    }
    Ok(())
}
fn store<P: Px>(prog: &ColorTransformProgram, h: &Header, cs: usize, aux: &mut [i16], out: &mut [u8], api: Api) -> Result<(), String> {
    let (planes, ch) = (h.layers as usize * h.channels as usize, h.channels as usize);
    let n = planes * cs;
    let mut wide = vec![P::MARK; n + MARGIN];
    match api {
        Api::Planar | Api::WidePlanar => {
            lib(|| prog.detransform_and_to_interleaved(aux, h, cs, &mut wide));
            narrow(&wide, &mut out[..n])
        }
        Api::Convert => {
            let (first, rest) = groups(ch, cs);
            for l in 0..h.layers as usize {
                let layer = &mut wide[l * cs * ch..(l + 1) * cs * ch];
                for (skip, take) in [(&first, &rest), (&rest, &first)] {
                    let mut part = vec![];
                    for &k in take.iter() {
                        part.extend_from_slice(&aux[(l * ch + k) * cs..][..cs]);
                    }
                    lib(|| planar_to_interleaved(&part, ch, h.get_boost() as i16, layer, skip));
                }
            }
            narrow(&wide, &mut out[..n])
        }
        _ => {
            lib(|| prog.detransform(aux, h, cs, &mut wide));
            let mut pl = vec![0u8; n];
            narrow(&wide, &mut pl)?;
            // back to the interleaved order, for comparison
            for k in 0..planes {
                for i in 0..cs {
                    out[(k / ch) * cs * ch + k % ch + i * ch] = pl[k * cs + i];
                }
            }
            Ok(())
        }
    }
}

/// Decompresses the bytes after the header; points of interest count from the start of `data`.
pub fn decompress(h: &Header, data: &[u8], d: usize, test: bool, out: &mut [u8], api: Api, end: bool) -> Dec {
    simrt::race::register("stream", data.as_ptr() as usize, data.len(), 0);
    simrt::race::register("pixels", out.as_ptr() as usize, out.len(), 0);
    let r = match api {
        Api::Simple => lib(|| decompress_simple(data, h, d, test, out)).map_err(|e| derr(&e)),
        _ => (|| {
            let planes = h.layers as usize * h.channels as usize;
            let mut chroma = vec![false; planes];
            let mut rest = data;
            let prog = lib(|| ColorTransformProgram::decode(&mut rest, &mut chroma)).map_err(|e| derr(&e))?;
            let used = data.len() - rest.len();
            let n = h.get_downsampled_image_size(d);
            // looking whether all has arrived takes no coefficients
            if test && (data.len() + d) % 2 == 0 && !matches!(api, Api::Convert) {
                let poi = lib(|| decompress_aux_data(rest, h, &chroma, d, true, &mut [])).map_err(|e| derr(&e))?;
                let mut blank = vec![0i16; n];
                let cs = h.get_downsampled_channel_size(d);
                lib(|| prog.detransform_and_to_interleaved(&mut blank, h, cs, out));
                return Ok(if poi == 0 { 0 } else { poi + used });
            }
            let mut aux = GBuf::i16s(n, end);
            match AUX_FILL.load(std::sync::atomic::Ordering::Relaxed) {
                0 => aux.words_mut().fill(0),
                k => {
                    let mut r = Rng::new(k);
                    aux.words_mut().iter_mut().for_each(|x| *x = r.next() as i16);
                }
            }
            simrt::race::register("coefficients", aux.addr(), aux.len(), 1);
            let r = lib(|| decompress_aux_data(rest, h, &chroma, d, test, aux.words_mut()));
            if !aux.intact() {
                return Err("OUT-OF-BOUNDS write around the coefficient buffer".into());
            }
            let poi = r.map_err(|e| derr(&e))?;
            let cs = h.get_downsampled_channel_size(d);
            let w = aux.words_mut();
            match api {
                Api::Planar => lib(|| prog.detransform_and_to_interleaved(w, h, cs, out)),
                Api::Convert if !plain(&prog, planes) => lib(|| prog.detransform_and_to_interleaved(w, h, cs, out)),
                Api::Transform | Api::Convert => store::<u8>(&prog, h, cs, w, out, api)?,
                _ => match (data.len() + d) % 3 {
                    0 => store::<u16>(&prog, h, cs, w, out, api)?,
                    1 => store::<i32>(&prog, h, cs, w, out, api)?,
                    _ => store::<f64>(&prog, h, cs, w, out, api)?,
                },
            }
            simrt::race::unregister(aux.addr());
            Ok(if poi == 0 { 0 } else { poi + used })
        })(),
    };
    simrt::race::unregister_all();
    r
}

/// The planar entry points with a coefficient buffer that is `missing` words short of what the header says.
/// Err: refused (an error or a panic).  Writing past the buffer is a memory fault.
pub fn short_decode(h: &Header, data: &[u8], d: usize, test: bool, missing: usize, end: bool) -> Dec {
    let mut chroma = vec![false; h.layers as usize * h.channels as usize];
    let mut rest = data;
    lib(|| ColorTransformProgram::decode(&mut rest, &mut chroma)).map_err(|e| derr(&e))?;
    let mut aux = GBuf::i16s(h.get_downsampled_image_size(d).saturating_sub(missing), end);
    aux.words_mut().fill(0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(|| decompress_aux_data(rest, h, &chroma, d, test, aux.words_mut()))));
    if !aux.intact() {
        return Err("OUT-OF-BOUNDS write around the coefficient buffer".into());
    }
    r.unwrap_or(Err(DecompressError::Malformed)).map_err(|e| derr(&e))
}
pub fn short_encode(c: &Case, re: &Ref, buf: &mut [u8], missing: usize, end: bool) -> Dec {
    let h = header_of(c);
    let mut aux = GBuf::i16s(c.elems().saturating_sub(missing), end);
    let boost = h.get_boost() as i16;
    for (x, y) in aux.words_mut().iter_mut().zip(model::to_planar(&c.params(), &re.img, c.w * c.h)) {
        *x = y as i16 * boost;
    }
    let chroma = vec![false; c.planes()];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compress_aux_data(aux.words_mut(), &h, &chroma, buf)));
    if !aux.intact() {
        return Err("OUT-OF-BOUNDS write around the coefficient buffer".into());
    }
    r.unwrap_or(Err(CompressError::Malformed)).map_err(|e| cerr(&e))
}

pub fn fill(b: &mut [u8], mode: u64, r: &mut Rng) {
    match mode % 4 {
        0 => b.fill(0),
        1 => b.fill(0xff),
        2 => b.fill(0x47),
        _ => {
            for x in b.iter_mut() {
                *x = r.below(256) as u8
            }
        }
    }
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("byte {} of {}: {:#04x} instead of {:#04x}", i, a.len(), a[i], b[i]),
        None => "equal".into(),
    }
}

/// The reference result of a case.
pub struct Ref {
    pub p: model::Params,
    pub img: Vec<u8>,
    pub enc: model::Encoded,
}
pub fn reference(c: &Case) -> Ref {
    let p = c.params();
    let img = c.image();
    let enc = model::encode(&p, &img);
    Ref { p, img, enc }
}
impl Ref {
    /// Bytes after the header.
    pub fn body(&self) -> &[u8] {
        &self.enc.bytes[self.enc.header_len..]
    }
    pub fn out_len(&self, d: usize) -> usize {
        self.p.dw(d as u32) * self.p.dh(d as u32) * self.p.planes()
    }
}
