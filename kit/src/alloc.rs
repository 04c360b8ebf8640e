//! Global allocator used by every harness binary: counts live memory, fills fresh blocks with
//! junk, and poisons + quarantines freed blocks so that a use after free reads poison (and a
//! write after free is noticed when the block leaves the quarantine).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

pub const POISON: u8 = 0xDE;
pub const FRESH: u8 = 0xA5;
const SLOTS: usize = 1 << 15;
const MAX_BLOCK: usize = 64 * 1024;
const MAX_BYTES: usize = 24 << 20;

pub struct CheckedAlloc;

static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);
static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);
static BAD_WRITE: AtomicBool = AtomicBool::new(false);
static QUARANTINE_ON: AtomicBool = AtomicBool::new(true);

#[derive(Clone, Copy)]
struct Entry {
    ptr: *mut u8,
    size: usize,
    align: usize,
}

struct Ring {
    lock: AtomicBool,
    e: UnsafeCell<[Entry; SLOTS]>,
    head: UnsafeCell<usize>,
    len: UnsafeCell<usize>,
    bytes: UnsafeCell<usize>,
}
unsafe impl Sync for Ring {}

static RING: Ring = Ring {
    lock: AtomicBool::new(false),
    e: UnsafeCell::new([Entry { ptr: std::ptr::null_mut(), size: 0, align: 1 }; SLOTS]),
    head: UnsafeCell::new(0),
    len: UnsafeCell::new(0),
    bytes: UnsafeCell::new(0),
};

impl Ring {
    fn acquire(&self) {
        let mut n = 0u32;
        while self.lock.compare_exchange(false, true, SeqCst, Relaxed).is_err() {
            n += 1;
            if n > 64 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
    fn release(&self) {
        self.lock.store(false, SeqCst);
    }
    /// Lock held.
    unsafe fn pop(&self) {
        unsafe {
            let head = &mut *self.head.get();
            let len = &mut *self.len.get();
            let e = (&(*self.e.get()))[*head];
            *head = (*head + 1) % SLOTS;
            *len -= 1;
            *self.bytes.get() -= e.size;
            let s = std::slice::from_raw_parts(e.ptr, e.size);
            if s.iter().any(|&b| b != POISON) {
                BAD_WRITE.store(true, SeqCst);
            }
            System.dealloc(e.ptr, Layout::from_size_align_unchecked(e.size, e.align));
        }
    }
}

unsafe impl GlobalAlloc for CheckedAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc(layout);
            if !p.is_null() {
                LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
                LIVE_BLOCKS.fetch_add(1, Relaxed);
                TOTAL_ALLOCS.fetch_add(1, Relaxed);
                TOTAL_BYTES.fetch_add(layout.size() as u64, Relaxed);
                if layout.size() <= MAX_BLOCK {
                    std::ptr::write_bytes(p, FRESH, layout.size());
                }
            }
            p
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        unsafe {
            LIVE_BYTES.fetch_sub(layout.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            if layout.size() > MAX_BLOCK || !QUARANTINE_ON.load(Relaxed) {
                System.dealloc(p, layout);
                return;
            }
            std::ptr::write_bytes(p, POISON, layout.size());
            RING.acquire();
            while *RING.len.get() == SLOTS || *RING.bytes.get() + layout.size() > MAX_BYTES {
                RING.pop();
            }
            let head = *RING.head.get();
            let len = &mut *RING.len.get();
            (&mut (*RING.e.get()))[(head + *len) % SLOTS] =
                Entry { ptr: p, size: layout.size(), align: layout.align() };
            *len += 1;
            *RING.bytes.get() += layout.size();
            RING.release();
        }
    }
}

/// Live bytes and blocks handed out.
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(SeqCst), LIVE_BLOCKS.load(SeqCst))
}

pub fn total_allocs() -> u64 {
    TOTAL_ALLOCS.load(SeqCst)
}

/// Bytes ever handed out.
pub fn total_bytes() -> u64 {
    TOTAL_BYTES.load(SeqCst)
}

/// Empty the quarantine; false if some freed block had been written to.
pub fn drain() -> bool {
    RING.acquire();
    unsafe {
        while *RING.len.get() > 0 {
            RING.pop();
        }
    }
    RING.release();
    !BAD_WRITE.swap(false, SeqCst)
}

pub fn set_quarantine(on: bool) {
    QUARANTINE_ON.store(on, SeqCst);
}
