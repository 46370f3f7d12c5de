//! Counts the memory and processor time which the code under test takes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Meter;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        add(layout.size() as i64);
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        add(layout.size() as i64);
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout);
        add(-(layout.size() as i64));
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let p = System.realloc(ptr, layout, new_size);
        // Both may exist for a moment.
        add(new_size as i64);
        add(-(layout.size() as i64));
        p
    }
}

#[global_allocator]
static METER: Meter = Meter;

/// Runs something and tells by how many bytes the memory in use rose at most.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(before));
    let r = f();
    let peak = PEAK.with(Cell::get);
    (r, (peak - before).max(0) as u64)
}

#[repr(C)]
struct TimeSpec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, out: *mut TimeSpec) -> i32;
}

/// Milliseconds of processor time of this thread. Only ever compared with a bound far above what any
/// operation needs, so that results do not depend on the machine.
pub fn cpu_ms() -> u64 {
    let mut t = TimeSpec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1000 + t.nsec as u64 / 1_000_000
}
