//! Counting global allocator: the memory monitor. Workers are single threaded, so plain
//! relaxed counters are exact for the code between two reads.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;

static TOTAL: AtomicU64 = AtomicU64::new(0); // bytes requested since start (incl. regrowth)
static LIVE: AtomicU64 = AtomicU64::new(0);
static LIVE_BLOCKS: AtomicU64 = AtomicU64::new(0);
static LARGEST: AtomicU64 = AtomicU64::new(0);

/// a single request above this ends the worker with exit code 42 (nothing legitimate is close)
const BOMB: usize = 1 << 30;

/// (Miri and AddressSanitizer track this themselves)
const POISON: bool = !cfg!(miri) && !cfg!(qmon_asan);

#[inline]
fn note(size: usize) {
    if size > BOMB {
        unsafe { libc::_exit(42) }
    }
    TOTAL.fetch_add(size as u64, Relaxed);
    LARGEST.fetch_max(size as u64, Relaxed);
}

/// under the sanitizer the exact size of every block is known: giving one back under another
/// size is undefined behaviour that malloc and free never notice
#[inline]
unsafe fn same_size(p: *mut u8, l: Layout) {
    #[cfg(qmon_asan)]
    if libc::malloc_usable_size(p as *mut libc::c_void) != l.size() && l.size() > 0 {
        let m = b"ERROR: a block was released or resized with a size it was not allocated with\n";
        libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
        libc::abort();
    }
    #[cfg(not(qmon_asan))]
    let _ = (p, l);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        LIVE.fetch_add(l.size() as u64, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        let p = System.alloc(l);
        // what was never written does not look like something meaningful
        if POISON && !p.is_null() {
            std::ptr::write_bytes(p, 0xb5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        LIVE.fetch_add(l.size() as u64, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        same_size(p, l);
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        if POISON {
            std::ptr::write_bytes(p, 0xdb, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note(new);
        same_size(p, l);
        LIVE.fetch_add(new as u64, Relaxed);
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub total: u64,
    pub live: u64,
    pub blocks: u64,
}

pub fn snap() -> Snap {
    Snap {
        total: TOTAL.load(Relaxed),
        live: LIVE.load(Relaxed),
        blocks: LIVE_BLOCKS.load(Relaxed),
    }
}

pub fn reset_largest() {
    LARGEST.store(0, Relaxed);
}

pub fn largest() -> u64 {
    LARGEST.load(Relaxed)
}
