//! Memory of a fleet member on WebAssembly: seeded previous content, canaries and counters over the
//! allocator of the platform (no address control, no refusals).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

const TAIL: usize = 32;
const CANARY: u8 = 0xC5;

static FILL: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static BROKEN: AtomicU64 = AtomicU64::new(0);
static ZERO: AtomicU64 = AtomicU64::new(0);

pub const OOM: &str = "std allocation error:";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    System,
    Lifo,
    Never,
    Fence,
}

#[derive(Clone, Copy, Debug)]
pub struct MemCfg {
    pub fill: u64,
    pub seed: u64,
    pub reuse: Reuse,
    pub cap: usize,
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct MemStats {
    pub canary: u64,
    pub uaf: u64,
    pub zero: u64,
}

pub fn configure(cfg: MemCfg) {
    let _ = (cfg.reuse, cfg.cap);
    STATE.store(cfg.seed | 1, Relaxed);
    FILL.store(cfg.fill, Relaxed);
}
pub fn reset() {
    FILL.store(0, Relaxed);
}
pub fn pause(_: bool) {}
pub fn fail_in(_: u64, _: usize) {}
pub fn fail_off() {}
pub fn fail_pending() -> bool {
    false
}
pub fn set_cap(_: usize) {}
pub fn stats() -> MemStats {
    MemStats { canary: BROKEN.load(Relaxed), uaf: 0, zero: ZERO.load(Relaxed) }
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    LARGEST.store(0, Relaxed);
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn largest() -> usize {
    LARGEST.load(Relaxed)
}

unsafe fn fill(p: *mut u8, size: usize) {
    match FILL.load(Relaxed) {
        0 => {}
        1 => std::ptr::write_bytes(p, 0, size),
        2 => std::ptr::write_bytes(p, 0xFF, size),
        3 => std::ptr::write_bytes(p, 0x7F, size),
        6 => std::ptr::write_bytes(p, 0x01, size),
        _ => {
            let mut s = crate::rng::mix(STATE.fetch_add(0x9E37_79B9_7F4A_7C16, Relaxed), size as u64) | 1;
            for i in 0..size {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                *p.add(i) = s as u8;
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            ZERO.fetch_add(1, Relaxed);
        }
        LARGEST.fetch_max(l.size(), Relaxed);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + TAIL, l.align()));
        if !p.is_null() {
            let n = LIVE.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(n, Relaxed);
            fill(p, l.size());
            std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        if (0..TAIL).any(|i| *p.add(l.size() + i) != CANARY) {
            BROKEN.fetch_add(1, Relaxed);
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + TAIL, l.align()))
    }
}
