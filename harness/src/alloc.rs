//! The counting allocator: live and peak bytes of each thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64, blocks: i64) {
    let _ = LIVE.try_with(|live| {
        let now = live.get() + n;
        live.set(now);
        let _ = PEAK.try_with(|peak| {
            if now > peak.get() {
                peak.set(now);
            }
        });
    });
    let _ = BLOCKS.try_with(|count| count.set(count.get() + blocks));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            add(layout.size() as i64, 1);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        System.dealloc(p, layout);
        add(-(layout.size() as i64), -1);
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        if !p.is_null() {
            add(layout.size() as i64, 1);
        }
        p
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, layout, size);
        if !q.is_null() {
            // Both blocks may exist while the content is moved.
            add(size as i64, 1);
            add(-(layout.size() as i64), -1);
        }
        q
    }
}

/// Live bytes and blocks of this thread.
pub fn live() -> (i64, i64) {
    (LIVE.with(Cell::get), BLOCKS.with(Cell::get))
}

/// Start measuring a peak.
pub fn mark() -> i64 {
    let now = LIVE.with(Cell::get);
    PEAK.with(|peak| peak.set(now));
    now
}

/// The peak since the mark.
pub fn peak(mark: i64) -> i64 {
    PEAK.with(Cell::get) - mark
}
