//! The runtime the compiler's ThreadSanitizer instrumentation calls into.  It is not the stock
//! sanitizer: every instrumented access is a scheduling point of the simulator, and feeds the
//! strand-level race detector.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]
use crate::{race, CORE};

pub static mut MEM_ACCESSES: u64 = 0;

#[inline(always)]
unsafe fn acc(addr: usize, len: usize, write: bool) {
    if !CORE.active || crate::me() == crate::NONE {
        return;
    }
    crate::tick();
    if CORE.race {
        MEM_ACCESSES += 1;
        race::access(addr, len, write, crate::cur_strand(), CORE.steps);
    }
}

macro_rules! rw {
    ($($r:ident $w:ident $rw:ident $n:expr;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { acc(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { acc(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $rw(a: usize) { acc(a, $n, false); acc(a, $n, true) }
    )* };
}
rw! {
    __tsan_read1 __tsan_write1 __tsan_read_write1 1;
    __tsan_read2 __tsan_write2 __tsan_read_write2 2;
    __tsan_read4 __tsan_write4 __tsan_read_write4 4;
    __tsan_read8 __tsan_write8 __tsan_read_write8 8;
    __tsan_read16 __tsan_write16 __tsan_read_write16 16;
    __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_unaligned_read_write2 2;
    __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_unaligned_read_write4 4;
    __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_unaligned_read_write8 8;
    __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_unaligned_read_write16 16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) {
    if n > 0 {
        acc(a, n, false)
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) {
    if n > 0 {
        acc(a, n, true)
    }
}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_vptr_read(_: usize) {}

extern "C" {
    fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
}
// Long block operations are cut in two by a scheduling point so that they are not atomic.
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        acc(s as usize, n, false);
        acc(d as usize, n, true);
    }
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        acc(s as usize, n, false);
        acc(d as usize, n, true);
    }
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n > 0 {
        acc(d as usize, n, true);
    }
    memset(d, c, n)
}

unsafe fn before_atomic(a: usize) {
    let _ = a;
    crate::point();
}
unsafe fn acq(a: usize, mo: i32) {
    // consume, acquire, acq_rel, seq_cst
    if CORE.race && matches!(mo, 1 | 2 | 4 | 5) {
        race::acquire(crate::cur_strand(), a);
    }
}
unsafe fn rel(a: usize, mo: i32) {
    if CORE.race && matches!(mo, 3 | 4 | 5) {
        race::release(crate::cur_strand(), a);
    }
}

macro_rules! atomics {
    ($($t:ty, $at:ident, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cs:ident $cw:ident $cv:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, mo: i32) -> $t {
            before_atomic(p as usize);
            let v = std::sync::atomic::$at::from_ptr(p as *mut $t).load(std::sync::atomic::Ordering::SeqCst);
            acq(p as usize, mo); v
        }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: i32) {
            before_atomic(p as usize);
            rel(p as usize, mo);
            std::sync::atomic::$at::from_ptr(p).store(v, std::sync::atomic::Ordering::SeqCst);
        }
        atomics!(@rmw $t, $at, $xchg, swap);
        atomics!(@rmw $t, $at, $add, fetch_add);
        atomics!(@rmw $t, $at, $sub, fetch_sub);
        atomics!(@rmw $t, $at, $and, fetch_and);
        atomics!(@rmw $t, $at, $or, fetch_or);
        atomics!(@rmw $t, $at, $xor, fetch_xor);
        atomics!(@rmw $t, $at, $nand, fetch_nand);
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *mut $t, c: $t, n: $t, mo: i32, fmo: i32) -> $t {
            before_atomic(p as usize);
            match std::sync::atomic::$at::from_ptr(p).compare_exchange(c, n, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) {
                Ok(v) => { acq(p as usize, mo); rel(p as usize, mo); v }
                Err(v) => { acq(p as usize, fmo); v }
            }
        }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *mut $t, c: *mut $t, n: $t, mo: i32, fmo: i32) -> bool {
            let o = *c;
            let v = $cv(p, o, n, mo, fmo);
            if v == o { true } else { *c = v; false }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *mut $t, c: *mut $t, n: $t, mo: i32, fmo: i32) -> bool {
            $cs(p, c, n, mo, fmo)
        }
    )* };
    (@rmw $t:ty, $at:ident, $f:ident, $op:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $f(p: *mut $t, v: $t, mo: i32) -> $t {
            before_atomic(p as usize);
            acq(p as usize, mo);
            let r = std::sync::atomic::$at::from_ptr(p).$op(v, std::sync::atomic::Ordering::SeqCst);
            rel(p as usize, mo);
            r
        }
    };
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    crate::point();
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// ---- code coverage counters of the instrumented crate (SanitizerCoverage) ----
static mut COV: (usize, usize) = (0, 0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    COV = (start as usize, end as usize);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}
pub fn coverage() -> &'static [u8] {
    unsafe {
        if COV.0 == 0 {
            &[]
        } else {
            std::slice::from_raw_parts(COV.0 as *const u8, COV.1 - COV.0)
        }
    }
}
