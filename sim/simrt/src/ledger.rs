//! Accounts of allocated memory.  A thread works for at most one account at a time; what it allocates meanwhile
//! is charged there, until it is freed by whomever.  Jobs and threads started from a charged call are charged to
//! the same account; what the simulator itself allocates is not.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub const ACCOUNTS: usize = 16;
thread_local! { static ACCOUNT: Cell<u32> = const { Cell::new(0) }; }

#[derive(Clone, Copy)]
#[repr(C)]
struct Entry {
    at: usize,
    size: usize,
    account: u32,
}
/// Open addressing; grown by hand, straight from the system allocator.
struct Table {
    slots: *mut Entry,
    cap: usize,
    used: usize,
}
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: Table = Table { slots: std::ptr::null_mut(), cap: 0, used: 0 };
static USED: AtomicUsize = AtomicUsize::new(0);
static mut LIVE: [usize; ACCOUNTS] = [0; ACCOUNTS];
static mut PEAK: [usize; ACCOUNTS] = [0; ACCOUNTS];
static mut COUNT: [u64; ACCOUNTS] = [0; ACCOUNTS];
static mut TOTAL: [usize; ACCOUNTS] = [0; ACCOUNTS];

fn locked<R>(f: impl FnOnce(&mut Table) -> R) -> R {
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let t = unsafe { &mut *std::ptr::addr_of_mut!(TABLE) };
    let r = f(t);
    USED.store(t.used, Ordering::Release);
    LOCK.store(false, Ordering::Release);
    r
}
fn home(at: usize, cap: usize) -> usize {
    ((at >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20) & (cap - 1)
}
impl Table {
    unsafe fn put(&mut self, e: Entry) {
        let mut i = home(e.at, self.cap);
        while (*self.slots.add(i)).at != 0 {
            i = (i + 1) & (self.cap - 1);
        }
        *self.slots.add(i) = e;
        self.used += 1;
    }
    unsafe fn insert(&mut self, e: Entry) {
        if (self.used + 1) * 2 > self.cap {
            let (old, n) = (self.slots, self.cap);
            self.cap = (n * 2).max(1 << 12);
            self.slots = System.alloc_zeroed(Layout::array::<Entry>(self.cap).unwrap()) as *mut Entry;
            self.used = 0;
            for i in 0..n {
                let x = *old.add(i);
                if x.at != 0 {
                    self.put(x);
                }
            }
            if n > 0 {
                System.dealloc(old as *mut u8, Layout::array::<Entry>(n).unwrap());
            }
        }
        self.put(e);
    }
    unsafe fn remove(&mut self, at: usize) -> Option<Entry> {
        if self.cap == 0 {
            return None;
        }
        let m = self.cap - 1;
        let mut i = home(at, self.cap);
        while (*self.slots.add(i)).at != at {
            if (*self.slots.add(i)).at == 0 {
                return None;
            }
            i = (i + 1) & m;
        }
        let e = *self.slots.add(i);
        // close the gap
        let mut j = i;
        loop {
            j = (j + 1) & m;
            let x = *self.slots.add(j);
            if x.at == 0 {
                break;
            }
            let h = home(x.at, self.cap);
            if (j.wrapping_sub(h) & m) >= (j.wrapping_sub(i) & m) {
                *self.slots.add(i) = x;
                i = j;
            }
        }
        (*self.slots.add(i)).at = 0;
        self.used -= 1;
        Some(e)
    }
}

/// The allocator handed out `size` bytes at `at`.
#[inline]
pub fn allocated(at: usize, size: usize) {
    let account = ACCOUNT.with(|a| a.get());
    if account != 0 && at != 0 {
        charge(at, size, account);
    }
}
#[cold]
fn charge(at: usize, size: usize, account: u32) {
    locked(|t| unsafe {
        t.insert(Entry { at, size, account });
        let k = account as usize;
        LIVE[k] += size;
        COUNT[k] += 1;
        TOTAL[k] = TOTAL[k].saturating_add(size);
        if LIVE[k] > PEAK[k] {
            PEAK[k] = LIVE[k];
        }
    })
}
/// The block at `at` is about to be freed; the account it was charged to, if any.
#[inline]
pub fn freed(at: usize) -> u32 {
    if USED.load(Ordering::Acquire) == 0 {
        return 0;
    }
    locked(|t| unsafe {
        match t.remove(at) {
            Some(e) => {
                LIVE[e.account as usize] -= e.size;
                e.account
            }
            None => 0,
        }
    })
}
/// A block moved or was resized; it stays in its account.
pub fn resized(account: u32, at: usize, size: usize) {
    if at == 0 {
        return;
    }
    if account != 0 {
        charge(at, size, account)
    } else {
        allocated(at, size)
    }
}

pub fn current() -> u32 {
    ACCOUNT.with(|a| a.get())
}
pub fn switch(account: u32) -> u32 {
    ACCOUNT.with(|a| a.replace(account))
}
/// Runs `f` charged to `account` (0: to nobody).
pub fn on<R>(account: u32, f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            switch(self.0);
        }
    }
    let _b = Back(switch(account));
    f()
}
/// Bytes now charged to `account`.
pub fn live(account: u32) -> usize {
    locked(|_| unsafe { LIVE[account as usize] })
}
/// The most that was charged to `account` since `restart`.
pub fn peak(account: u32) -> usize {
    locked(|_| unsafe { PEAK[account as usize] })
}
/// All that was ever charged to `account`.
pub fn total(account: u32) -> usize {
    locked(|_| unsafe { TOTAL[account as usize] })
}
pub fn count(account: u32) -> u64 {
    locked(|_| unsafe { COUNT[account as usize] })
}
pub fn restart(account: u32) {
    locked(|_| unsafe { PEAK[account as usize] = LIVE[account as usize] })
}
