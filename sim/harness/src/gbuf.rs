//! Buffers between inaccessible pages, with canary bytes on the slack side.
use simrt::sys::syscall6;

const PAGE: usize = 4096;
const CANARY: u8 = 0xC7;

pub struct GBuf {
    base: usize,
    total: usize,
    start: usize,
    len: usize,
    slack_lo: usize,
    slack_hi: usize,
}
/// Live buffers, to explain a memory fault.
static mut LIVE: Vec<(usize, usize, usize, usize)> = Vec::new();
pub fn describe(addr: usize) -> String {
    #[allow(static_mut_refs)]
    for &(base, total, start, len) in unsafe { LIVE.iter() } {
        if addr >= base && addr < base + total {
            return if addr >= start + len {
                format!("access {} bytes past the end of a buffer of {}", addr - start - len, len)
            } else if addr < start {
                format!("access {} bytes before a buffer of {}", start - addr, len)
            } else {
                format!("access to byte {} of a buffer of {}", addr - start, len)
            };
        }
    }
    if addr < 4096 {
        "access through a null pointer".into()
    } else {
        "access outside every buffer".into()
    }
}
unsafe impl Send for GBuf {}
unsafe impl Sync for GBuf {}

impl GBuf {
    /// `at_end`: the buffer touches the trailing inaccessible page, otherwise the leading one.
    pub fn new(len: usize, at_end: bool) -> GBuf {
        unsafe {
            let body = (len + PAGE - 1) / PAGE * PAGE;
            let total = body + 2 * PAGE;
            let p = syscall6(9, 0, total as i64, 3, 0x22, -1, 0);
            assert!(p > 0, "mmap");
            let base = p as usize;
            assert_eq!(syscall6(10, base as i64, PAGE as i64, 0, 0, 0, 0), 0);
            assert_eq!(syscall6(10, (base + total - PAGE) as i64, PAGE as i64, 0, 0, 0, 0), 0);
            let (lo, hi) = (base + PAGE, base + PAGE + body);
            let start = if at_end { hi - len } else { lo };
            let g = GBuf { base, total, start, len, slack_lo: lo, slack_hi: hi };
            for a in (lo..start).chain(start + len..hi) {
                *(a as *mut u8) = CANARY;
            }
            #[allow(static_mut_refs)]
            LIVE.push((base, total, start, len));
            g
        }
    }
    pub fn from(b: &[u8], at_end: bool) -> GBuf {
        let mut g = GBuf::new(b.len(), at_end);
        g.bytes_mut().copy_from_slice(b);
        g
    }
    pub fn i16s(n: usize, at_end: bool) -> GBuf {
        GBuf::new(n * 2, at_end)
    }
    pub fn addr(&self) -> usize {
        self.start
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.start as *const u8, self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.start as *mut u8, self.len) }
    }
    pub fn words(&self) -> &[i16] {
        unsafe { std::slice::from_raw_parts(self.start as *const i16, self.len / 2) }
    }
    pub fn words_mut(&mut self) -> &mut [i16] {
        unsafe { std::slice::from_raw_parts_mut(self.start as *mut i16, self.len / 2) }
    }
    pub fn intact(&self) -> bool {
        unsafe {
            (self.slack_lo..self.start)
                .chain(self.start + self.len..self.slack_hi)
                .all(|a| *(a as *const u8) == CANARY)
        }
    }
}
impl Drop for GBuf {
    fn drop(&mut self) {
        unsafe {
            #[allow(static_mut_refs)]
            LIVE.retain(|l| l.0 != self.base);
            syscall6(11, self.base as i64, self.total as i64, 0, 0, 0, 0);
        }
    }
}
