//! A lossy packet network with retransmission, on virtual time: when which prefix of a byte stream
//! has been reassembled at the receiver.
use simrt::rng::Rng;
use std::collections::BTreeMap;

#[derive(Default, Debug)]
pub struct Delivery {
    /// (virtual microseconds, contiguous bytes received)
    pub timeline: Vec<(u64, usize)>,
    pub bytes: Vec<u8>,
    pub lost: u64,
    pub duplicated: u64,
    pub reordered: u64,
    pub partitions: u64,
    pub retransmits: u64,
    pub end: u64,
}

pub fn deliver(data: &[u8], seed: u64) -> Delivery {
    let mut r = Rng::new(seed ^ 0x006e_6574);
    let mut out = Delivery::default();
    let mtu = *r.pick(&[1usize, 3, 4, 7, 16, 61, 200, 1400]);
    let mtu = mtu.max(data.len() / 200 + 1);
    let loss = *r.pick(&[0u64, 0, 5, 20, 45]);
    let dup = *r.pick(&[0u64, 0, 10, 30]);
    let jitter = *r.pick(&[0u64, 50, 5_000, 80_000]);
    let part = if r.chance(1, 4) {
        let a = r.below(200_000);
        Some((a, a + r.below(2_000_000)))
    } else {
        None
    };
    let n = (data.len() + mtu - 1) / mtu;
    // events: (time, tie) -> packet
    let mut q: BTreeMap<(u64, u64), usize> = BTreeMap::new();
    let mut tie = 0;
    let mut send = |now: u64, p: usize, r: &mut Rng, q: &mut BTreeMap<(u64, u64), usize>, out: &mut Delivery| {
        let copies = 1 + (r.below(100) < dup) as u64;
        if copies > 1 {
            out.duplicated += 1;
        }
        for _ in 0..copies {
            let t = now + 1_000 + r.below(jitter + 1);
            if r.below(100) < loss {
                out.lost += 1;
            } else if part.map(|(a, b)| now >= a && now < b).unwrap_or(false) {
                out.partitions += 1;
            } else {
                tie += 1;
                q.insert((t, tie), p);
            }
        }
    };
    for p in 0..n {
        send(p as u64 * 120, p, &mut r, &mut q, &mut out);
    }
    let mut have: Vec<bool> = vec![false; n];
    let mut buf = vec![0u8; data.len()];
    let mut contiguous = 0usize;
    let mut now = n as u64 * 120;
    let mut hi = 0;
    out.timeline.push((0, 0));
    let mut rounds = 0;
    loop {
        while let Some((&(t, k), &p)) = q.iter().next() {
            q.remove(&(t, k));
            now = now.max(t);
            if p < hi {
                out.reordered += 1;
            }
            hi = hi.max(p);
            if !have[p] {
                have[p] = true;
                let a = p * mtu;
                let b = (a + mtu).min(data.len());
                buf[a..b].copy_from_slice(&data[a..b]);
                let old = contiguous;
                while contiguous < n && have[contiguous] {
                    contiguous += 1;
                }
                if contiguous != old {
                    out.timeline.push((t, (contiguous * mtu).min(data.len())));
                }
            }
        }
        if contiguous == n {
            break;
        }
        // retransmission timer
        rounds += 1;
        now += 200_000;
        assert!(rounds < 10_000);
        for p in 0..n {
            if !have[p] {
                out.retransmits += 1;
                send(now, p, &mut r, &mut q, &mut out);
            }
        }
    }
    out.bytes = buf;
    out.end = now;
    out
}
