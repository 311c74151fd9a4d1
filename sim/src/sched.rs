//! Cooperative scheduler over real threads.
//!
//! One simulated thread at a time holds the baton.  It gives it up at allocator
//! calls and at calls into user decoders, where and to whom the plan drawn from
//! the seed says.  A thread that blocks in the kernel while it holds the baton
//! is found out by a monitor: the others then go on, except for those stalled
//! inside a user decoder, and when that does not help, one load waits for another.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

use crate::alloc;
use crate::choice::Src;

pub const MAX: usize = 8;
const SLICES: usize = 512;
const EVENTS: usize = 4096;
const NOBODY: u32 = u32::MAX;
const MAIN: u32 = 100;
pub const EXIT_WAIT: i32 = 79;
pub const WAITS: &str = "a load waits for another one";

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn _exit(code: i32) -> !;
}
const SYS_FUTEX: i64 = 202;
const SYS_GETTID: i64 = 186;

thread_local! { static ME: Cell<u32> = const { Cell::new(NOBODY) }; }

static CUR: AtomicU32 = AtomicU32::new(MAIN);
static ALIVE: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static STALLED: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static TIDS: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static TICKS: [AtomicU64; MAX] = [const { AtomicU64::new(0) }; MAX];
static FREE: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicU64 = AtomicU64::new(0);
static WANT_USER: AtomicBool = AtomicBool::new(false);
static PLAN: [AtomicU64; SLICES] = [const { AtomicU64::new(0) }; SLICES];
static PLAN_LEN: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LOG: [AtomicU64; EVENTS] = [const { AtomicU64::new(0) }; EVENTS];
static LOGGED: AtomicUsize = AtomicUsize::new(0);

fn wake() { unsafe { syscall(SYS_FUTEX, &CUR as *const AtomicU32, 129i64, i32::MAX as i64, 0i64, 0i64, 0i64); } }
fn wait(seen: u32, ms: u64) {
    let ts = [(ms / 1000) as i64, ((ms % 1000) * 1_000_000) as i64];
    let p = if ms == 0 { std::ptr::null() } else { ts.as_ptr() };
    unsafe { syscall(SYS_FUTEX, &CUR as *const AtomicU32, 128i64, seen as i64, p, 0i64, 0i64); }
}
fn pass(to: u32) { CUR.store(to, SeqCst); wake(); }
fn hold(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me { return; }
        if FREE.load(SeqCst) && !STALLED[me as usize].load(SeqCst) { return; }
        // woken by a change of CUR, or looks again after a while
        wait(c, 20);
    }
}
/// The thread the plan names among those alive; counted round from `me`.
fn choose(me: u32, pick: u64) -> u32 {
    let alive: Few = alive();
    if alive.n == 0 { return MAIN; }
    let at = (0..alive.n).position(|i| alive.v[i] > me).unwrap_or(0);
    alive.v[(at + pick as usize) % alive.n]
}
struct Few { v: [u32; MAX], n: usize }
fn alive() -> Few {
    let mut a = Few { v: [0; MAX], n: 0 };
    for i in 0..MAX { if ALIVE[i].load(SeqCst) { a.v[a.n] = i as u32; a.n += 1; } }
    a
}
fn log(kind: u64, from: u32, to: u32) {
    let n = LOGGED.fetch_add(1, SeqCst);
    if n < EVENTS { LOG[n].store(kind << 56 | (from as u64 & 0xff) << 48 | (to as u64 & 0xff) << 40 | (TICKS[from as usize & (MAX - 1)].load(SeqCst) & 0xff_ffff_ffff), SeqCst); }
}
/// Takes the next slice of the plan; after the last one threads run to their end.
fn next_slice() -> u64 {
    let i = NEXT.fetch_add(1, SeqCst);
    if i >= PLAN_LEN.load(SeqCst) { LEFT.store(u64::MAX, SeqCst); WANT_USER.store(false, SeqCst); return 0; }
    let p = PLAN[i].load(SeqCst);
    WANT_USER.store(p >> 63 == 1, SeqCst);
    LEFT.store(if p >> 63 == 1 { u64::MAX } else { (p & 0xffff_ffff).max(1) }, SeqCst);
    (p >> 32) & 0xff
}

#[inline]
fn point(user: bool) {
    let me = ME.with(|m| m.get());
    if me == NOBODY { return; }
    TICKS[me as usize].fetch_add(1, SeqCst);
    if FREE.load(SeqCst) { return; }
    if user && WANT_USER.load(SeqCst) { WANT_USER.store(false, SeqCst) }
    else {
        let l = LEFT.load(SeqCst);
        if l == u64::MAX { return; }
        if l > 1 { LEFT.store(l - 1, SeqCst); return; }
    }
    let pick = next_slice();
    let to = choose(me, pick);
    log(if user { 1 } else { 0 }, me, to);
    if to == me { return; }
    if user { STALLED[me as usize].store(true, SeqCst); }
    pass(to);
    hold(me);
    STALLED[me as usize].store(false, SeqCst);
}
/// Called by the allocator.
pub fn tick() { point(false) }
/// Called by user decoders.
pub fn user_tick() { if alloc::SCHED_ON.load(SeqCst) { point(true) } }

/// The body of a simulated thread.
fn body<T>(i: usize, f: impl FnOnce() -> T) -> T {
    TIDS[i].store(unsafe { syscall(SYS_GETTID) } as u32, SeqCst);
    hold(i as u32);
    ME.with(|m| m.set(i as u32));
    let r = f();
    ME.with(|m| m.set(NOBODY));
    ALIVE[i].store(false, SeqCst);
    if FREE.load(SeqCst) {
        if alive().n == 0 { pass(MAIN); }
    } else {
        let pick = next_slice();
        let to = choose(i as u32, pick);
        log(2, i as u32, to);
        pass(to);
    }
    r
}

/// 'S': blocked in the kernel.
fn state(i: usize) -> char {
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", TIDS[i].load(SeqCst))).unwrap_or_default();
    t.rsplit_once(") ").and_then(|x| x.1.chars().next()).unwrap_or('?')
}

pub struct Outcome<T> { pub results: Vec<T>, pub events: Vec<(u8, u8, u8, u64)>, pub switches: usize, pub waited: bool }

/// Runs the bodies under a plan drawn from `s`.
pub fn run<T: Send>(s: &mut Src, stack: usize, bodies: Vec<Box<dyn FnOnce() -> T + Send>>) -> Outcome<T> {
    let n = bodies.len();
    let slices = [0, 4, 16, 64, 200][s.below(5)];
    let fine = s.below(3);
    for i in 0..slices {
        let pick = s.draw(n as u64);
        let p = if s.chance(1, 4) { 1 << 63 } else { 1 + match (fine, s.below(4)) { (0, 0) | (1, _) => s.draw(8), (0, 1) => s.draw(64), (0, 2) => s.draw(512), (0, _) => s.draw(4096), (_, _) => s.draw(2000) } };
        PLAN[i].store(p | pick << 32, SeqCst);
    }
    PLAN_LEN.store(slices, SeqCst);
    NEXT.store(0, SeqCst);
    LOGGED.store(0, SeqCst);
    FREE.store(false, SeqCst);
    for i in 0..MAX { ALIVE[i].store(i < n, SeqCst); STALLED[i].store(false, SeqCst); TICKS[i].store(0, SeqCst); TIDS[i].store(0, SeqCst); }
    CUR.store(MAIN, SeqCst);
    let mut waited = false;
    let results = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, f) in bodies.into_iter().enumerate() {
            match std::thread::Builder::new().stack_size(stack).spawn_scoped(sc, move || body(i, f)) {
                Ok(h) => hs.push(h),
                Err(_) => unsafe { _exit(3) },
            }
        }
        let first = next_slice();
        let to = choose(NOBODY - 1, first);
        alloc::SCHED_ON.store(true, SeqCst);
        pass(to);
        waited = supervise();
        alloc::SCHED_ON.store(false, SeqCst);
        hs.into_iter().map(|h| match h.join() { Ok(r) => r, Err(_) => unsafe { _exit(3) } }).collect()
    });
    let k = LOGGED.load(SeqCst);
    let events = (0..k.min(EVENTS)).map(|i| { let x = LOG[i].load(SeqCst); ((x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, x & 0xff_ffff_ffff) }).collect();
    Outcome { results, events, switches: k, waited }
}

fn supervise() -> bool {
    let mut last = (0u64, 0u32, 0);
    let mut since = Instant::now();
    let mut freed = false;
    loop {
        let c = CUR.load(SeqCst);
        if c == MAIN { return freed; }
        wait(c, 100);
        if CUR.load(SeqCst) == MAIN { return freed; }
        let a = alive();
        let suspects: Vec<usize> = if freed { (0..a.n).map(|i| a.v[i] as usize).filter(|i| !STALLED[*i].load(SeqCst)).collect() } else { vec![CUR.load(SeqCst) as usize] };
        if freed && suspects.is_empty() && a.n > 0 {
            // everybody else is through: let the stalled decoders go on
            for i in 0..MAX { STALLED[i].store(false, SeqCst); }
            wake();
            since = Instant::now();
            continue;
        }
        let now = (TICKS.iter().map(|t| t.load(SeqCst)).sum::<u64>(), CUR.load(SeqCst), a.n);
        let blocked = suspects.iter().any(|i| *i < MAX && state(*i) == 'S') && suspects.iter().all(|i| *i < MAX && state(*i) == 'S');
        if now != last || !blocked { last = now; since = Instant::now(); continue; }
        if since.elapsed() < Duration::from_millis(1500) { continue; }
        if !freed {
            freed = true;
            FREE.store(true, SeqCst);
            wake();
            since = Instant::now();
            continue;
        }
        unsafe { _exit(EXIT_WAIT) }
    }
}
