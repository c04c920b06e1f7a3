//! Simulated memory: a global allocator that can hand out memory with seeded previous content,
//! reuse addresses in a chosen way, refuse requests, and that guards every block with canaries.
//!
//! Only one simulated thread runs at a time, so the counters are deterministic for one seed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

pub struct SimAlloc;

const TAIL: usize = 32;
const CANARY: u8 = 0xC5;
const FREED: u8 = 0xDD;

static ON: AtomicBool = AtomicBool::new(false);
static FILL: AtomicU64 = AtomicU64::new(0);
static FILL_STATE: AtomicU64 = AtomicU64::new(0);
static REUSE: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static FAIL_MIN: AtomicUsize = AtomicUsize::new(0);
static FAIL_IN: AtomicU64 = AtomicU64::new(u64::MAX);

static ALLOCS: AtomicU64 = AtomicU64::new(0);
static DIRTIED: AtomicU64 = AtomicU64::new(0);
static REUSED: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static CANARY_BROKEN: AtomicU64 = AtomicU64::new(0);
static UAF: AtomicU64 = AtomicU64::new(0);
static PAUSE: AtomicBool = AtomicBool::new(false);
static ZERO: AtomicU64 = AtomicU64::new(0);
static FENCED: AtomicU64 = AtomicU64::new(0);

/// Prefix of the panic raised from the standard allocation-error path.
pub const OOM: &str = "std allocation error:";

static LOCK: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    /// Whatever the system allocator does.
    System,
    /// The last freed block of the same layout is handed out first (maximal address reuse).
    Lifo,
    /// No address is handed out twice during a run.
    Never,
    /// Every block ends at an inaccessible page and disappears when it is released.
    Fence,
}

#[derive(Clone, Copy, Debug)]
pub struct MemCfg {
    /// 0: leave as is, 1: zeros, 2: 0xFF, 3: 0x7F, 4: seeded noise, 5: small integers, 6: one bits
    pub fill: u64,
    pub seed: u64,
    pub reuse: Reuse,
    pub cap: usize,
}

pub const NORMAL: MemCfg = MemCfg { fill: 0, seed: 0, reuse: Reuse::System, cap: usize::MAX };

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct MemStats {
    pub allocs: u64,
    pub dirtied: u64,
    pub reused: u64,
    pub refused: u64,
    pub canary: u64,
    pub uaf: u64,
    pub zero: u64,
    pub fenced: u64,
}

struct Node {
    next: *mut Node,
    size: usize,
    align: usize,
}

const BUCKETS: usize = 256;
static mut FREE: [*mut Node; BUCKETS] = [std::ptr::null_mut(); BUCKETS];
static mut QUAR: *mut Node = std::ptr::null_mut();
static mut QUAR_BYTES: usize = 0;

const PAGE: usize = 4096;
const FENCE_MIN: usize = 48;
const FENCE_MAX: usize = 1 << 20;
const SLOTS: usize = 1 << 14;
/// Address and mapping start of fenced blocks (open addressing; address 1: deleted).
static mut FENCE: [(usize, usize); SLOTS] = [(0, 0); SLOTS];
static FENCE_LIVE: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

fn fence_hash(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E3779B97F4A7C15_u64 as usize) >> 40 & (SLOTS - 1)
}

unsafe fn fence_alloc(size: usize, align: usize) -> *mut u8 {
    let room = (size + align - 1) & !(align - 1);
    let pages = room.div_ceil(PAGE) * PAGE;
    let base = mmap(std::ptr::null_mut(), pages + PAGE, 3, 0x22, -1, 0);
    if base as isize == -1 || base.is_null() {
        return std::ptr::null_mut();
    }
    if mprotect(base.add(pages), PAGE, 0) != 0 {
        munmap(base, pages + PAGE);
        return std::ptr::null_mut();
    }
    let p = base.add(pages - room);
    lock();
    let mut i = fence_hash(p as usize);
    while FENCE[i].0 > 1 {
        i = (i + 1) & (SLOTS - 1);
    }
    FENCE[i] = (p as usize, base as usize);
    unlock();
    std::ptr::write_bytes(p.add(size), CANARY, room - size);
    p
}

/// The block's mapping, removed from the table.
unsafe fn fence_take(p: *mut u8) -> *mut u8 {
    lock();
    let mut i = fence_hash(p as usize);
    let mut base = 0;
    for _ in 0..SLOTS {
        if FENCE[i].0 == p as usize {
            base = FENCE[i].1;
            let next = FENCE[(i + 1) & (SLOTS - 1)].0;
            FENCE[i] = (if next == 0 { 0 } else { 1 }, 0);
            break;
        }
        if FENCE[i].0 == 0 {
            break;
        }
        i = (i + 1) & (SLOTS - 1);
    }
    unlock();
    base as *mut u8
}

fn lock() {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, SeqCst);
}

fn bucket(size: usize, align: usize) -> usize {
    (size.wrapping_mul(0x9E3779B97F4A7C15_u64 as usize) >> 20 ^ align) % BUCKETS
}

pub fn configure(cfg: MemCfg) {
    FILL.store(cfg.fill, SeqCst);
    FILL_STATE.store(cfg.seed | 1, SeqCst);
    REUSE.store(
        match cfg.reuse {
            Reuse::System => 0,
            Reuse::Lifo => 1,
            Reuse::Never => 2,
            Reuse::Fence => 3,
        },
        SeqCst,
    );
    CAP.store(cfg.cap, SeqCst);
    FAIL_IN.store(u64::MAX, SeqCst);
    ON.store(true, SeqCst);
}

/// Restores normal memory, releases kept blocks and checks that none was written after its release.
pub fn reset() {
    ON.store(false, SeqCst);
    FAIL_IN.store(u64::MAX, SeqCst);
    CAP.store(usize::MAX, SeqCst);
    lock();
    unsafe {
        for b in 0..BUCKETS {
            let mut p = FREE[b];
            FREE[b] = std::ptr::null_mut();
            while !p.is_null() {
                let n = (*p).next;
                release(p);
                p = n;
            }
        }
        let mut p = QUAR;
        QUAR = std::ptr::null_mut();
        QUAR_BYTES = 0;
        while !p.is_null() {
            let n = (*p).next;
            release(p);
            p = n;
        }
    }
    unlock();
}

unsafe fn release(p: *mut Node) {
    let (size, align) = ((*p).size, (*p).align);
    check_freed(p as *mut u8, size);
    System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(size + TAIL, align));
}

unsafe fn check_freed(p: *mut u8, size: usize) {
    let from = std::mem::size_of::<Node>();
    let mut i = from;
    while i + 8 <= size && (p.add(i) as *const u64).read_unaligned() == u64::from_ne_bytes([FREED; 8]) {
        i += 8;
    }
    while i < size {
        if *p.add(i) != FREED {
            UAF.fetch_add(1, Relaxed);
            break;
        }
        i += 1;
    }
}

/// Makes the `n`-th following allocation of at least `min` bytes fail (1 = the next one).
pub fn fail_in(n: u64, min: usize) {
    FAIL_MIN.store(min, SeqCst);
    FAIL_IN.store(n, SeqCst);
}

/// Suspends the countdown of `fail_in` (the recorder's own memory).
pub fn pause(on: bool) {
    PAUSE.store(on, SeqCst);
}

pub fn fail_off() {
    FAIL_IN.store(u64::MAX, SeqCst);
}

pub fn fail_pending() -> bool {
    FAIL_IN.load(SeqCst) != u64::MAX
}

pub fn set_cap(cap: usize) {
    CAP.store(cap, SeqCst);
}

pub fn stats() -> MemStats {
    MemStats {
        allocs: ALLOCS.load(SeqCst),
        dirtied: DIRTIED.load(SeqCst),
        reused: REUSED.load(SeqCst),
        refused: REFUSED.load(SeqCst),
        canary: CANARY_BROKEN.load(SeqCst),
        uaf: UAF.load(SeqCst),
        zero: ZERO.load(SeqCst),
        fenced: FENCED.load(SeqCst),
    }
}

pub fn live() -> usize {
    LIVE.load(SeqCst)
}

pub fn reset_peak() {
    PEAK.store(LIVE.load(SeqCst), SeqCst);
    LARGEST.store(0, SeqCst);
}

pub fn peak() -> usize {
    PEAK.load(SeqCst)
}

/// Largest single request since `reset_peak`, refused ones included.
pub fn largest() -> usize {
    LARGEST.load(SeqCst)
}

unsafe fn fill(p: *mut u8, size: usize) {
    let kind = FILL.load(Relaxed);
    match kind {
        0 => return,
        1 => std::ptr::write_bytes(p, 0, size),
        2 => std::ptr::write_bytes(p, 0xFF, size),
        3 => std::ptr::write_bytes(p, 0x7F, size),
        5 => {
            for i in 0..size {
                *p.add(i) = if i % 4 == 0 { (i / 4 % 23) as u8 } else { 0 };
            }
        }
        6 => std::ptr::write_bytes(p, 0x01, size),
        7 => {
            // every block gets other content (a function of the seed and the number of the request)
            let n = FILL_STATE.fetch_add(0x9E3779B97F4A7C16, Relaxed);
            let mut s = crate::rng::mix(n, size as u64) | 1;
            let mut i = 0;
            while i < size {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                let b = s.to_le_bytes();
                let n = (size - i).min(8);
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), n);
                i += n;
            }
        }
        _ => {
            // a function of the seed and the size, so that replays see the same content
            let mut s = FILL_STATE.load(Relaxed) ^ (size as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
            let mut i = 0;
            while i < size {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                let b = s.to_le_bytes();
                let n = (size - i).min(8);
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), n);
                i += n;
            }
        }
    }
    DIRTIED.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let size = layout.size();
        let align = layout.align().max(8);
        let on = ON.load(Relaxed);
        if on {
            ALLOCS.fetch_add(1, Relaxed);
            LARGEST.fetch_max(size, Relaxed);
            if size > CAP.load(Relaxed) {
                REFUSED.fetch_add(1, Relaxed);
                return std::ptr::null_mut();
            }
            let left = FAIL_IN.load(Relaxed);
            if left != u64::MAX && !PAUSE.load(Relaxed) && size >= FAIL_MIN.load(Relaxed) {
                if left <= 1 {
                    FAIL_IN.store(u64::MAX, Relaxed);
                    REFUSED.fetch_add(1, Relaxed);
                    return std::ptr::null_mut();
                }
                FAIL_IN.store(left - 1, Relaxed);
            }
            if size == 0 {
                // never a valid request; give an address nothing may be read from
                ZERO.fetch_add(1, Relaxed);
            }
            if REUSE.load(Relaxed) == 3
                && (FENCE_MIN..=FENCE_MAX).contains(&size)
                && FENCE_LIVE.load(Relaxed) < SLOTS / 2
            {
                let p = fence_alloc(size, layout.align());
                if !p.is_null() {
                    FENCE_LIVE.fetch_add(1, Relaxed);
                    FENCED.fetch_add(1, Relaxed);
                    fill(p, size);
                    let live = LIVE.fetch_add(size, Relaxed) + size;
                    PEAK.fetch_max(live, Relaxed);
                    return p;
                }
            }
        }
        let mut p: *mut u8 = std::ptr::null_mut();
        if on && REUSE.load(Relaxed) == 1 && size >= std::mem::size_of::<Node>() {
            lock();
            let b = bucket(size, align);
            let mut link: *mut *mut Node = &raw mut FREE[b];
            while !(*link).is_null() {
                let n = *link;
                if (*n).size == size && (*n).align == align {
                    *link = (*n).next;
                    p = n as *mut u8;
                    break;
                }
                link = &raw mut (*n).next;
            }
            unlock();
            if !p.is_null() {
                check_freed(p, size);
                REUSED.fetch_add(1, Relaxed);
            }
        }
        if p.is_null() {
            p = match size.checked_add(TAIL) {
                Some(total) if total <= isize::MAX as usize - 4096 => {
                    System.alloc(Layout::from_size_align_unchecked(total, align))
                }
                _ => std::ptr::null_mut(),
            };
            if p.is_null() {
                return p;
            }
        }
        if on {
            fill(p, size);
        }
        std::ptr::write_bytes(p.add(size), CANARY, TAIL);
        let live = LIVE.fetch_add(size, Relaxed) + size;
        PEAK.fetch_max(live, Relaxed);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let size = layout.size();
        if FENCE_LIVE.load(Relaxed) > 0 {
            let base = fence_take(p);
            if !base.is_null() {
                FENCE_LIVE.fetch_sub(1, Relaxed);
                LIVE.fetch_sub(size, Relaxed);
                let room = (size + layout.align() - 1) & !(layout.align() - 1);
                let end = base.add((p as usize - base as usize + room).div_ceil(PAGE) * PAGE);
                for i in size..(end as usize - p as usize) {
                    if *p.add(i) != CANARY {
                        CANARY_BROKEN.fetch_add(1, Relaxed);
                        break;
                    }
                }
                munmap(base, end as usize - base as usize + PAGE);
                return;
            }
        }
        let align = layout.align().max(8);
        for i in 0..TAIL {
            if *p.add(size + i) != CANARY {
                CANARY_BROKEN.fetch_add(1, Relaxed);
                break;
            }
        }
        LIVE.fetch_sub(size, Relaxed);
        if ON.load(Relaxed) && size >= std::mem::size_of::<Node>() {
            let mode = REUSE.load(Relaxed);
            if mode == 1 || mode == 2 {
                std::ptr::write_bytes(p, FREED, size);
                let n = p as *mut Node;
                lock();
                (*n).size = size;
                (*n).align = align;
                if mode == 1 {
                    let b = bucket(size, align);
                    (*n).next = FREE[b];
                    FREE[b] = n;
                    unlock();
                    return;
                } else if QUAR_BYTES < (64 << 20) {
                    QUAR_BYTES += size;
                    (*n).next = QUAR;
                    QUAR = n;
                    unlock();
                    return;
                }
                unlock();
            }
        }
        System.dealloc(p, Layout::from_size_align_unchecked(size + TAIL, align));
    }
}
