//! Raw system calls for the runtime itself, and the seams through which the standard library's
//! blocking calls reach the simulator.
use std::sync::atomic::AtomicU32;

const SYS_FUTEX: i64 = 202;
const FUTEX_WAIT: i64 = 0;
const FUTEX_WAKE: i64 = 1;

#[inline]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn futex_wait_raw(f: &AtomicU32, val: u32) {
    unsafe { raw6(SYS_FUTEX, f as *const _ as i64, FUTEX_WAIT | 128, val as i64, 0, 0, 0) };
}
pub fn futex_wake_raw(f: &AtomicU32, n: u32) {
    unsafe { raw6(SYS_FUTEX, f as *const _ as i64, FUTEX_WAKE | 128, n as i64, 0, 0, 0) };
}
pub fn exit_now(code: i32) -> ! {
    unsafe { raw6(231, code as i64, 0, 0, 0, 0, 0) };
    loop {}
}
pub fn write_fd(fd: i32, b: &[u8]) {
    let mut o = 0;
    while o < b.len() {
        let r = unsafe { raw6(1, fd as i64, b[o..].as_ptr() as i64, (b.len() - o) as i64, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        o += r as usize;
    }
}
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    raw6(n, a, b, c, d, e, f)
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// Replaces libc's `syscall` wrapper: futex operations of simulated threads are decided by the simulator.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && crate::in_sim() {
        let op = b & 0x7f;
        match op {
            0 | 9 => {
                let cur = *(a as *const u32);
                if cur != c as u32 {
                    *__errno_location() = 11; // EAGAIN
                    return -1;
                }
                if d != 0 {
                    // a timed wait: simulated time jumps to the deadline
                    crate::elapse(span(d as *const u8));
                    crate::give_way();
                    *__errno_location() = 110; // ETIMEDOUT
                    return -1;
                }
                crate::futex_wait(a as usize);
                return 0;
            }
            1 | 10 => {
                return crate::futex_wake(a as usize, c as usize) as i64;
            }
            _ => {}
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::in_sim() {
        crate::give_way();
        return 0;
    }
    raw6(24, 0, 0, 0, 0, 0, 0) as i32
}
unsafe fn span(p: *const u8) -> u64 {
    if p.is_null() {
        return 0;
    }
    let t = &*(p as *const [i64; 2]);
    (t[0].max(0) as u64).saturating_mul(1_000_000_000).saturating_add(t[1].max(0) as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
    if crate::in_sim() {
        crate::elapse(span(a));
        crate::give_way();
        return 0;
    }
    ret(raw6(35, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, a: *const u8, b: *mut u8) -> i32 {
    if crate::in_sim() {
        let t = span(a);
        // TIMER_ABSTIME
        let t = if fl & 1 != 0 { t.saturating_sub(crate::clock(clk == 0)) } else { t };
        crate::elapse(t);
        crate::give_way();
        return 0;
    }
    -(raw6(230, clk as i64, fl as i64, a as i64, b as i64, 0, 0) as i32)
}

// Time, random bytes and the number of processors come from the simulation's seed.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut [i64; 2]) -> i32 {
    if crate::in_sim() {
        let n = crate::clock(matches!(clk, 0 | 5 | 8 | 11));
        *t = [(n / 1_000_000_000) as i64, (n % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw6(228, clk as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut [i64; 2], z: *mut u8) -> i32 {
    if crate::in_sim() {
        let n = crate::clock(true);
        *t = [(n / 1_000_000_000) as i64, (n % 1_000_000_000 / 1000) as i64];
        return 0;
    }
    ret(raw6(96, t as i64, z as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, fl: u32) -> isize {
    if crate::in_sim() {
        crate::entropy(std::slice::from_raw_parts_mut(b, n));
        return n as isize;
    }
    ret(raw6(318, b as i64, n as i64, fl as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32 {
    if crate::in_sim() && n >= 8 {
        let k = crate::processors();
        let m = std::slice::from_raw_parts_mut(m, n);
        m.fill(0);
        for i in 0..k as usize {
            m[i / 8] |= 1 << (i % 8);
        }
        return 0;
    }
    let r = ret(raw6(204, pid as i64, n as i64, m as i64, 0, 0, 0));
    if r < 0 {
        return -1;
    }
    std::slice::from_raw_parts_mut(m, n)[r as usize..].fill(0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: i32) -> i64 {
    static mut REAL: usize = 0;
    if (name == 83 || name == 84) && crate::in_sim() {
        return crate::processors() as i64;
    }
    if REAL == 0 {
        REAL = crate::next_symbol(b"sysconf\0");
    }
    let real: extern "C" fn(i32) -> i64 = std::mem::transmute(REAL);
    real(name)
}
