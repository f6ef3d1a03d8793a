//! The allocator seam.
//!
//! Every heap request of the process goes through `SimAlloc`. Requests made while the current thread
//! is inside a *library scope* (see `core::lib_call`) are counted, can be refused (the refusal
//! surfaces as an unwinding panic through the allocation error hook, like `oom=panic`), and can be
//! preemption points at which the simulator lets another task run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

/// Single requests above this are refused outright and flagged: the simulated machine has no more.
pub const MACHINE_BYTES: usize = 1 << 30;

#[derive(Clone, Copy, Default, Debug)]
pub struct Acc {
    /// live bytes requested minus released in this scope
    pub live: i64,
    pub peak: i64,
    pub largest: u64,
    pub total: u64,
    pub count: u64,
    /// the machine limit was hit
    pub oom: bool,
    /// an injected refusal was delivered
    pub refused: bool,
}

thread_local! {
    /// inside a library scope
    pub static SCOPE: Cell<bool> = const { Cell::new(false) };
    /// inside simulator code (never counted, never preempted)
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
    pub static ACC: Cell<Acc> = const { Cell::new(Acc { live: 0, peak: 0, largest: 0, total: 0, count: 0, oom: false, refused: false }) };
    /// refuse the request with this ordinal (0 = never)
    pub static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    /// preempt at the request with this ordinal (0 = never)
    pub static YIELD_AT: Cell<u64> = const { Cell::new(0) };
    /// byte written into fresh memory, so that reads of uninitialised memory are repeatable
    pub static POISON: Cell<u8> = const { Cell::new(0xA5) };
    pub static YIELD_FN: Cell<Option<fn()>> = const { Cell::new(None) };
}

const POISON_MAX: usize = 1 << 14;

/// Returns false when the request must be refused.
#[inline]
fn on_request(size: usize, delta: i64) -> bool {
    let Ok(active) = SCOPE.try_with(|s| s.get()) else {
        return true;
    };
    if !active || IN_SIM.with(|s| s.get()) {
        return true;
    }
    let mut a = ACC.with(|a| a.get());
    a.count += 1;
    a.largest = a.largest.max(size as u64);
    a.total += size as u64;
    if size > MACHINE_BYTES || a.live + delta > MACHINE_BYTES as i64 {
        a.oom = true;
        a.live += delta;
        a.peak = a.peak.max(a.live);
        a.live -= delta;
        ACC.with(|c| c.set(a));
        return false;
    }
    let fail = FAIL_AT.with(|f| f.get());
    if fail != 0 && a.count == fail {
        a.refused = true;
        ACC.with(|c| c.set(a));
        return false;
    }
    a.live += delta;
    a.peak = a.peak.max(a.live);
    let count = a.count;
    ACC.with(|c| c.set(a));
    let y = YIELD_AT.with(|f| f.get());
    if y != 0 && count == y && !std::thread::panicking() {
        if let Some(f) = YIELD_FN.with(|f| f.get()) {
            f();
        }
    }
    true
}

#[inline]
fn on_release(size: usize) {
    if let Ok(true) = SCOPE.try_with(|s| s.get()) {
        if !IN_SIM.with(|s| s.get()) {
            ACC.with(|c| {
                let mut a = c.get();
                a.live -= size as i64;
                c.set(a);
            });
        }
    }
}

#[inline]
unsafe fn poison(p: *mut u8, n: usize) {
    if !p.is_null() && n <= POISON_MAX {
        if let Ok(b) = POISON.try_with(|b| b.get()) {
            std::ptr::write_bytes(p, b, n);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_request(l.size(), l.size() as i64) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        poison(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_request(l.size(), l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_release(l.size());
        poison(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !on_request(new, new as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if new > l.size() && !q.is_null() {
            poison(q.add(l.size()), new - l.size());
        }
        q
    }
}

/// Runs simulator code: its allocations are neither counted nor preempted.
pub struct InSim(bool);
impl InSim {
    #[inline]
    pub fn enter() -> InSim {
        InSim(IN_SIM.with(|s| s.replace(true)))
    }
}
impl Drop for InSim {
    #[inline]
    fn drop(&mut self) {
        let prev = self.0;
        IN_SIM.with(|s| s.set(prev));
    }
}
