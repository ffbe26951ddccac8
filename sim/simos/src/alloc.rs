//! Allocator that accounts for (and bounds) what simulated processes ask for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    /// Allocations left until the next one at which another process may get its turn (0: never).
    static POINT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub struct SimAlloc;

const HUGE: usize = 1 << 30;

pub fn enable(limit: usize) {
    let _ = LIVE.try_with(|c| c.set(0));
    let _ = PEAK.try_with(|c| c.set(0));
    let _ = BIGGEST.try_with(|c| c.set(0));
    let _ = LIMIT.try_with(|c| c.set(limit));
    let _ = ON.try_with(|c| c.set(true));
}
pub fn next_point(n: u64) {
    let _ = POINT.try_with(|c| c.set(n));
}
pub fn disable() -> (usize, usize) {
    let _ = ON.try_with(|c| c.set(false));
    (PEAK.with(|c| c.get()), BIGGEST.with(|c| c.get()))
}
/// Suspend accounting (inside the simulator itself).
pub fn pause() -> bool {
    ON.try_with(|c| c.replace(false)).unwrap_or(false)
}
pub fn resume(was: bool) {
    let _ = ON.try_with(|c| c.set(was));
}

fn note(size: usize) {
    let on = ON.try_with(|c| c.get()).unwrap_or(false);
    if !on {
        return;
    }
    BIGGEST.with(|b| if size > b.get() { b.set(size) });
    let live = LIVE.with(|l| {
        let v = l.get().saturating_add(size);
        l.set(v);
        v
    });
    PEAK.with(|p| if live > p.get() { p.set(live) });
    if live > LIMIT.with(|l| l.get()) {
        // The simulated machine has no more memory: the process is aborted here, as it would be.
        ON.with(|c| c.set(false));
        crate::world::die_out_of_memory(size);
    }
    let due = POINT.with(|p| {
        let n = p.get();
        p.set(n.saturating_sub(1));
        n == 1
    });
    if due {
        crate::world::alloc_point();
    }
}
fn unnote(size: usize) {
    let on = ON.try_with(|c| c.get()).unwrap_or(false);
    if on {
        let _ = LIVE.try_with(|l| l.set(l.get().saturating_sub(size)));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unnote(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            note(n - l.size());
        } else {
            unnote(l.size() - n);
        }
        let _ = HUGE;
        System.realloc(p, l, n)
    }
}
