//! Self-checking values. `Val` counts its drops per id; `CVal` is the `Copy` twin.
use std::sync::atomic::{AtomicU8, AtomicU64, Ordering::{Relaxed, SeqCst}};

const MAGIC: u64 = 0x5EED_0F0A_11FE_u64;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;
pub const MAX_IDS: usize = 1 << 18;

static DROPS: [AtomicU8; MAX_IDS] = [const { AtomicU8::new(0) }; MAX_IDS];
/// Largest id made since the last reset.
static TOP: AtomicU64 = AtomicU64::new(0);
static DOUBLE: AtomicU64 = AtomicU64::new(0);
/// Drops of all ids.
static SUM: AtomicU64 = AtomicU64::new(0);

fn seal(id: u64) -> u64 {
    (id.wrapping_mul(0x9E37_79B9_7F4A_7C15)) ^ MAGIC
}

pub trait Payload: Send + Sync + 'static {
    fn mk(id: u64) -> Self;
    /// The id; panics when the value is not intact (dropped, torn, overwritten).
    fn id(&self) -> u64;
    fn intact(&self) -> Result<u64, String>;
}

/// Forget all ids of the previous case.
pub fn reset() {
    let top = TOP.swap(0, SeqCst) as usize;
    for d in &DROPS[..(top + 1).min(MAX_IDS)] {
        d.store(0, Relaxed);
    }
    DOUBLE.store(0, SeqCst);
    SUM.store(0, SeqCst);
}

/// Drops seen for `id`.
pub fn drops(id: u64) -> u8 {
    DROPS[id as usize].load(SeqCst)
}

/// Drops seen of all ids together.
pub fn dropped() -> u64 {
    SUM.load(SeqCst)
}

pub fn double_drops() -> u64 {
    DOUBLE.load(SeqCst)
}

#[derive(Debug)]
pub struct Val {
    id: u64,
    seal: u64,
    boxed: Box<u64>,
}

impl Payload for Val {
    fn mk(id: u64) -> Self {
        assert!((id as usize) < MAX_IDS);
        TOP.fetch_max(id, Relaxed);
        Self { id, seal: seal(id), boxed: Box::new(id) }
    }
    fn id(&self) -> u64 {
        self.intact().unwrap_or_else(|e| panic!("{e}"))
    }
    fn intact(&self) -> Result<u64, String> {
        let (id, s) = (self.id, self.seal);
        if s == DEAD {
            return Err(format!("value {id} is used after it was dropped"));
        }
        if s != seal(id) {
            return Err(format!("value is not intact (id {id:#x}, seal {s:#x})"));
        }
        if *self.boxed != id {
            return Err(format!("value {id} lost its heap part"));
        }
        Ok(id)
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        SUM.fetch_add(1, SeqCst);
        if (self.id as usize) < MAX_IDS && self.seal == seal(self.id) {
            if DROPS[self.id as usize].fetch_add(1, SeqCst) > 0 {
                DOUBLE.fetch_add(1, SeqCst);
            }
        } else {
            DOUBLE.fetch_add(1, SeqCst);
        }
        // SAFETY: plain write to our own field, kept by volatile.
        unsafe { std::ptr::write_volatile(&mut self.seal, DEAD) };
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CVal {
    id: u64,
    seal: u64,
    twin: u64,
}

impl Payload for CVal {
    fn mk(id: u64) -> Self {
        Self { id, seal: seal(id), twin: !id }
    }
    fn id(&self) -> u64 {
        self.intact().unwrap_or_else(|e| panic!("{e}"))
    }
    fn intact(&self) -> Result<u64, String> {
        if self.seal != seal(self.id) || self.twin != !self.id {
            return Err(format!(
                "value is not intact (id {:#x}, seal {:#x}, twin {:#x})",
                self.id, self.seal, self.twin
            ));
        }
        Ok(self.id)
    }
}
