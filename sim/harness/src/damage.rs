//! What storage and transport do to stored bytes.
use crate::host::Ref;
use simrt::rng::Rng;

pub const KINDS: [&str; 14] = [
    "bit-flip",
    "garbage-range",
    "lost-sector",
    "truncation",
    "misdirected-sector",
    "stale-sector",
    "table-entry",
    "bytes-removed",
    "bytes-duplicated",
    "garbage-appended",
    "torn-write",
    "program-replaced",
    "header-field",
    "payload-word",
];

/// Damage generator: [kind, position, length, value].
pub fn gen(r: &mut Rng, kinds: &[i64]) -> Vec<i64> {
    let k = *r.pick(kinds);
    let pos = if r.chance(1, 4) { r.below(96) } else { r.below(1 << 30) } as i64;
    vec![k, pos, *r.pick(&[1i64, 1, 2, 4, 4, 8, 16, 64, 512]), (r.next() >> 20) as i64]
}

/// Applies one damage to a whole stream (header first); `other` is an older version of the same file.
/// Returns whether anything changed.
pub fn apply(b: &mut Vec<u8>, op: &[i64], re: &Ref, other: &[u8]) -> bool {
    if b.is_empty() {
        return false;
    }
    let before = b.clone();
    let n = b.len();
    let mut r = Rng::new(op[3] as u64);
    let pos = (op[1] as usize) % n;
    let len = (op[2] as usize).max(1);
    let hl = re.enc.header_len.min(n);
    match op[0] {
        0 => {
            for _ in 0..len.min(8) {
                let p = if len == 1 { pos } else { r.below(n as u64) as usize };
                b[p] ^= 1 << r.below(8);
            }
        }
        1 => {
            for x in b[pos..(pos + len).min(n)].iter_mut() {
                *x = match op[3] % 4 {
                    0 => 0xff,
                    1 => 0,
                    _ => r.below(256) as u8,
                };
            }
        }
        2 => {
            let s = len.max(16);
            let p = pos / s * s;
            b[p..(p + s).min(n)].fill(0);
        }
        3 => b.truncate(pos),
        4 => {
            let s = len.max(16);
            let src = r.below(n as u64) as usize / s * s;
            let dst = pos / s * s;
            let m = s.min(n - src.max(dst));
            let chunk = b[src..src + m].to_vec();
            b[dst..dst + m].copy_from_slice(&chunk);
        }
        5 => {
            let s = len.max(16);
            let p = pos / s * s;
            for i in p..(p + s).min(n).min(other.len()) {
                b[i] = other[i];
            }
        }
        6 => {
            // one entry of one level's block table
            let lv = &re.enc.levels[op[1] as usize % re.enc.levels.len()];
            let k = r.below(lv.blocks.len() as u64) as usize;
            let at = re.enc.payload_start() + lv.table + 4 * k;
            if at + 4 <= n {
                let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let v = match op[3] % 9 {
                    0 => 0,
                    1 => u32::MAX,
                    2 => 0x4000_0000,
                    3 => old.wrapping_add(1),
                    4 => old.wrapping_sub(1),
                    5 => old / 2,
                    6 => old.wrapping_add(r.below(64) as u32),
                    7 => (n / 4) as u32,
                    _ => r.next() as u32,
                };
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
        }
        7 => {
            b.drain(pos..(pos + len).min(n));
        }
        8 => {
            let chunk = b[pos..(pos + len).min(n)].to_vec();
            b.splice(pos..pos, chunk);
        }
        9 => {
            for _ in 0..len * 4 {
                b.push(r.below(256) as u8);
            }
        }
        10 => {
            // a write that stopped part-way: the rest of the file is the older version
            let keep = pos;
            for i in keep..n {
                b[i] = *other.get(i).unwrap_or(&0);
            }
        }
        11 => {
            // a plausible but wrong colour program
            let planes = re.p.planes() as i64;
            let mut w = model::BitW::default();
            for _ in 0..1 + r.below(3) {
                w.signed(pick_ch(&mut r, planes), 2);
                for _ in 0..r.below(3) {
                    w.signed(pick_ch(&mut r, planes), 2);
                    w.signed(ext(&mut r), 2);
                }
                w.signed(-1, 2);
                w.signed(ext(&mut r), 2);
                w.signed(*r.pick(&[0i64, 1, 1, -1, 7]), 2);
            }
            if r.chance(4, 5) {
                w.signed(-1, 2);
            }
            let pb = w.bytes();
            let end = (hl + re.enc.program_len).min(n);
            b.splice(hl..end, pb);
        }
        12 => {
            // a field of the header
            let at = *r.pick(&[4usize, 8, 9, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31]);
            if at < n {
                b[at] = match r.below(4) {
                    0 => b[at].wrapping_add(1),
                    1 => b[at] ^ (1 << r.below(8)),
                    2 => 0xff,
                    _ => r.below(4) as u8,
                };
            }
        }
        _ => {
            // a word of one block's payload, lengths untouched
            let lv = &re.enc.levels[op[1] as usize % re.enc.levels.len()];
            let k = r.below(lv.blocks.len() as u64) as usize;
            let bp = &lv.blocks[k];
            if bp.len > 0 {
                let at = re.enc.payload_start() + bp.off + 4 * r.below(bp.len as u64 / 4) as usize;
                if at + 4 <= n {
                    let v: u32 = match op[3] % 4 {
                        0 => 0,
                        1 => u32::MAX,
                        _ => r.next() as u32,
                    };
                    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
    }
    *b != before
}

fn pick_ch(r: &mut Rng, planes: i64) -> i64 {
    match r.below(8) {
        0 => planes,
        1 => 1 << r.below(20),
        _ => r.below(planes as u64) as i64,
    }
}
fn ext(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => *r.pick(&[65536, -65536, 131072, 32768, -32768, 32767, -32767, 1 << 24]),
        1 => *r.pick(&[0, -1, -2, 255, -256]),
        2 => r.below(1 << 17) as i64 - (1 << 16),
        _ => r.below(9) as i64 - 3,
    }
}
