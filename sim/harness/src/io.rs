//! Readers and writers that split, interrupt, stall and fail, as `io::Read`/`io::Write` may.
use simrt::rng::Rng;
use std::io;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Never,
    /// hard error once so many bytes went through
    Error(usize),
    /// end of stream / writer accepts nothing more
    Closed(usize),
}

#[derive(Default, Debug, Clone)]
pub struct IoFaults {
    pub short: u64,
    pub interrupted: u64,
    pub error: u64,
    pub closed: u64,
}

const HARD: [io::ErrorKind; 9] = [
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WriteZero,
    io::ErrorKind::InvalidData,
];

pub struct Plan {
    pub rng: Rng,
    pub short: u64,
    pub intr: u64,
    pub end: End,
    pub faults: IoFaults,
    /// of the hard error; none of them is to be retried or taken for the end
    pub kind: io::ErrorKind,
    row: u32,
}
impl Plan {
    pub fn new(seed: u64, short: u64, intr: u64, end: End) -> Plan {
        let kind = HARD[Rng::new(seed ^ 0x5eed).below(HARD.len() as u64) as usize];
        Plan { rng: Rng::new(seed), short, intr, end, faults: IoFaults::default(), kind, row: 0 }
    }
    fn step(&mut self, done: usize, want: usize) -> io::Result<usize> {
        simrt::point();
        if want == 0 {
            return Ok(0);
        }
        if self.row < 8 && self.rng.below(100) < self.intr {
            self.row += 1;
            self.faults.interrupted += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.row = 0;
        let mut n = want;
        if self.rng.below(100) < self.short && n > 1 {
            n = 1 + self.rng.below(n as u64 - 1) as usize;
            self.faults.short += 1;
        }
        match self.end {
            End::Error(at) => {
                if done >= at {
                    self.faults.error += 1;
                    return Err(io::Error::new(self.kind, "device error"));
                }
                n = n.min(at - done);
            }
            End::Closed(at) => {
                if done >= at {
                    self.faults.closed += 1;
                    return Ok(0);
                }
                n = n.min(at - done);
            }
            End::Never => {}
        }
        Ok(n)
    }
}

pub struct FaultyWriter {
    pub plan: Plan,
    pub out: Vec<u8>,
}
impl io::Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.plan.step(self.out.len(), b.len())?;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct FaultyReader<'a> {
    pub plan: Plan,
    pub data: &'a [u8],
    pub pos: usize,
}
impl io::Read for FaultyReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.pos;
        let n = self.plan.step(self.pos, b.len().min(left))?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A bounded pipe between two simulated threads.
pub struct Pipe {
    pub q: std::cell::UnsafeCell<std::collections::VecDeque<u8>>,
    pub cap: usize,
    pub closed: std::cell::Cell<bool>,
}
unsafe impl Sync for Pipe {}
impl Pipe {
    pub fn new(cap: usize) -> Pipe {
        Pipe { q: Default::default(), cap, closed: std::cell::Cell::new(false) }
    }
    fn q(&self) -> &mut std::collections::VecDeque<u8> {
        unsafe { &mut *self.q.get() }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn wake(&self) {
        let k = self.key();
        simrt::wake_where(|w| w == simrt::Why::Futex(k));
    }
    pub fn close(&self) {
        self.closed.set(true);
        self.wake();
    }
}
pub struct PipeWriter<'a>(pub &'a Pipe, pub Plan, pub usize);
pub struct PipeReader<'a>(pub &'a Pipe, pub Plan, pub usize);
impl io::Write for PipeWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.1.step(self.2, b.len())?;
        if n == 0 {
            return Ok(0);
        }
        while self.0.q().len() >= self.0.cap {
            simrt::block(simrt::Why::Futex(self.0.key()));
        }
        let n = n.min(self.0.cap - self.0.q().len());
        self.0.q().extend(&b[..n]);
        self.2 += n;
        self.0.wake();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Read for PipeReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.1.step(self.2, b.len())?;
        if n == 0 {
            return Ok(0);
        }
        while self.0.q().is_empty() {
            if self.0.closed.get() {
                return Ok(0);
            }
            simrt::block(simrt::Why::Futex(self.0.key()));
        }
        let n = n.min(self.0.q().len());
        for x in b[..n].iter_mut() {
            *x = self.0.q().pop_front().unwrap();
        }
        self.2 += n;
        self.0.wake();
        Ok(n)
    }
}
