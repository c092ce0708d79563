//! Counting allocator: per-thread totals, live bytes and peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

#[derive(Clone, Copy, Default, Debug)]
pub struct Usage {
    /// Bytes ever allocated by this thread.
    pub total: u64,
    pub calls: u64,
    pub live: i64,
    pub peak: i64,
}
impl Usage {
    pub const ZERO: Usage = Usage { total: 0, calls: 0, live: 0, peak: 0 };
}

thread_local! {
    static USE: Cell<Usage> = const { Cell::new(Usage::ZERO) };
}

/// More than this much live on one thread is reported as runaway allocation.
const CAP: i64 = 3 << 30;

fn note(add: usize, sub: usize) {
    let _ = USE.try_with(|c| {
        let mut u = c.get();
        u.live += add as i64 - sub as i64;
        if add > 0 {
            u.total += add as u64;
            u.calls += 1;
        }
        if u.live > u.peak {
            u.peak = u.live;
        }
        c.set(u);
        if u.live > CAP {
            u.live = i64::MIN / 2;
            c.set(u);
            std::process::abort();
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // a moving reallocation has both blocks alive for a moment
        note(new, 0);
        let r = System.realloc(p, l, new);
        note(0, l.size());
        r
    }
}

pub fn usage() -> Usage {
    USE.with(|c| c.get())
}
/// Starts a measurement: the peak is counted from the current live size.
pub fn mark() -> Usage {
    USE.with(|c| {
        let mut u = c.get();
        u.peak = u.live;
        c.set(u);
        u
    })
}
pub struct Cost {
    pub total: u64,
    pub peak: u64,
    pub retained: i64,
    pub calls: u64,
}
pub fn since(m: Usage) -> Cost {
    let u = usage();
    Cost { total: u.total - m.total, peak: (u.peak - m.live).max(0) as u64, retained: u.live - m.live, calls: u.calls - m.calls }
}
