//! A global allocator that accounts what one thread allocates while it is armed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub struct Counting;
fn up(n: usize) {
    CUR.with(|c| { let v = c.get() + n as i64; c.set(v); PEAK.with(|p| if v > p.get() { p.set(v) }) });
    COUNT.with(|c| c.set(c.get() + 1));
    if n > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(usize::MAX)); ARMED.with(|a| a.set(false));
        // the process cannot be allowed to take that much; the parent reports this line
        eprintln!("ALLOC-LIMIT: one allocation of {n} bytes was requested");
        std::process::abort()
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if ARMED.with(|a| a.get()) { up(l.size()) } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if ARMED.with(|a| a.get()) { CUR.with(|c| c.set(c.get() - l.size() as i64)) } System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if ARMED.with(|a| a.get()) { up(l.size()) } System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if ARMED.with(|a| a.get()) { CUR.with(|c| c.set(c.get() - l.size() as i64)); up(n) } System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

/// Runs `f` and returns the peak of what this thread had allocated beyond what it had before, and the number of allocations.
pub fn measure<T>(limit: usize, f: impl FnOnce() -> T) -> (T, u64, u64) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ARMED.with(|a| a.set(false)); LIMIT.with(|l| l.set(usize::MAX)); } }
    CUR.with(|c| c.set(0)); PEAK.with(|c| c.set(0)); COUNT.with(|c| c.set(0)); LIMIT.with(|l| l.set(limit));
    let off = Off;
    ARMED.with(|a| a.set(true));
    let r = f();
    drop(off);
    (r, PEAK.with(|p| p.get()).max(0) as u64, COUNT.with(|c| c.get()))
}
