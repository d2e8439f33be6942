//! Counting allocator: bytes requested, live and peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static TOTAL: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
/// beyond this the process gives up (bounded memory is part of C04)
const HARD: u64 = 3 << 30;

fn add(n: u64) -> bool {
    TOTAL.fetch_add(n, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    l < HARD
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as u64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        if !add(n as u64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed)
}
