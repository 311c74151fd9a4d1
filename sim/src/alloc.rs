//! Global allocator used as the simulated clock and as a set of yield points.
//!
//! One allocator call is one step of simulated time.  The budget makes "does
//! not stall" decidable without a wall clock; the scheduler gets control at each
//! step of a simulated thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicBool, Ordering::Relaxed};

pub struct SimAlloc;

static STEPS: AtomicU64 = AtomicU64::new(0);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static MEM_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static SCHED_ON: AtomicBool = AtomicBool::new(false);

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_MEM: i32 = 78;

extern "C" { fn _exit(code: i32) -> !; }

#[inline]
fn step(size: u64) {
    let s = STEPS.fetch_add(1, Relaxed);
    if s >= BUDGET.load(Relaxed) { unsafe { _exit(EXIT_STEPS) } }
    let l = LIVE.fetch_add(size, Relaxed).wrapping_add(size);
    if l < 1 << 62 && l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
        if l > MEM_LIMIT.load(Relaxed) { unsafe { _exit(EXIT_MEM) } }
    }
    if SCHED_ON.load(Relaxed) { crate::sched::tick(); }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        step(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        step(n as u64);
        System.realloc(p, l, n)
    }
}

/// Allocator calls of code that brings an allocator of its own.
pub extern "C" fn tick(n: isize) { if n >= 0 { step(n as u64) } else { LIVE.fetch_sub(n.unsigned_abs() as u64, Relaxed); } }

pub fn steps() -> u64 { STEPS.load(Relaxed) }

/// Run `f` with at most `budget` steps and `mem` extra bytes; exceeding either
/// ends the process with a code the parent recognises.
pub fn bounded<T>(budget: u64, mem: u64, f: impl FnOnce() -> T) -> (T, u64, u64) {
    let s0 = steps();
    let l0 = LIVE.load(Relaxed);
    let old_b = BUDGET.load(Relaxed);
    let old_m = MEM_LIMIT.load(Relaxed);
    PEAK.store(l0, Relaxed);
    BUDGET.store(s0.saturating_add(budget).min(old_b), Relaxed);
    MEM_LIMIT.store(l0.saturating_add(mem).min(old_m), Relaxed);
    struct Restore(u64, u64);
    impl Drop for Restore {
        fn drop(&mut self) { BUDGET.store(self.0, Relaxed); MEM_LIMIT.store(self.1, Relaxed); }
    }
    let guard = Restore(old_b, old_m);
    let r = f();
    drop(guard);
    (r, steps() - s0, PEAK.load(Relaxed).saturating_sub(l0))
}
