//! A checking global allocator: every block carries a header and a trailing canary, freed blocks are
//! poisoned and kept in quarantine, and a free with the wrong layout, a double free, a free of a foreign
//! pointer or a write past the end is recorded. Live blocks and bytes are counted, so a case can check
//! that a history leaks nothing.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Tracking;

const MAGIC: u64 = 0xa110_c8ed_b10c_cafe;
const FREED: u64 = 0xdead_b10c_dead_b10c;
const CANARY: u64 = 0x5afe_c0de_5afe_c0de;
const POISON: u8 = 0xd5;
const FRESH: u8 = 0xa7;
const TAIL: usize = 16;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static TAKEN: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
static ERR: AtomicUsize = AtomicUsize::new(0);
static ENABLED: AtomicBool = AtomicBool::new(true);
/// Larger blocks of a table's alignment are refused (the panic machinery takes smaller alignments).
static FAIL_OVER: AtomicUsize = AtomicUsize::new(usize::MAX);

const Q: usize = 64;
static mut QUAR: [(usize, usize, usize); Q] = [(0, 0, 0); Q];
static QPOS: AtomicUsize = AtomicUsize::new(0);
static QLOCK: AtomicBool = AtomicBool::new(false);

fn pad(layout: Layout) -> usize {
    layout.align().max(32)
}

pub fn live_blocks() -> usize {
    LIVE.load(Relaxed)
}
/// Blocks ever taken.
pub fn taken_blocks() -> usize {
    TAKEN.load(Relaxed)
}
pub fn live_bytes() -> usize {
    BYTES.load(Relaxed)
}
pub fn set_fail_over(bytes: usize) {
    FAIL_OVER.store(bytes, Relaxed);
}
pub fn set_enabled(b: bool) {
    ENABLED.store(b, Relaxed);
}

/// The first heap misuse seen since the last call.
pub fn take_error() -> Option<&'static str> {
    match ERR.swap(0, Relaxed) {
        0 => None,
        1 => Some("free with a size or alignment that does not match the allocation"),
        2 => Some("double free"),
        3 => Some("free of a pointer that was never allocated"),
        4 => Some("write past the end of an allocation"),
        5 => Some("write before the start of an allocation"),
        6 => Some("write to memory after it was freed"),
        _ => Some("heap misuse"),
    }
}
fn err(n: usize) {
    let _ = ERR.compare_exchange(0, n, Relaxed, Relaxed);
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.align() >= 16 && layout.size() > FAIL_OVER.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let p = pad(layout);
        let total = match layout.size().checked_add(p + TAIL) {
            Some(t) => t,
            None => return std::ptr::null_mut(),
        };
        let l = match Layout::from_size_align(total, p) {
            Ok(l) => l,
            Err(_) => return std::ptr::null_mut(),
        };
        let base = System.alloc(l);
        if base.is_null() {
            return base;
        }
        let u = base.add(p);
        let h = u.sub(32) as *mut u64;
        *h = CANARY;
        *h.add(1) = layout.size() as u64;
        *h.add(2) = layout.align() as u64;
        *h.add(3) = MAGIC;
        if layout.size() <= 4096 {
            std::ptr::write_bytes(u, FRESH, layout.size());
        }
        (u.add(layout.size()) as *mut [u8; 8]).write(CANARY.to_ne_bytes());
        (u.add(layout.size() + 8) as *mut [u8; 8]).write(CANARY.to_ne_bytes());
        LIVE.fetch_add(1, Relaxed);
        TAKEN.fetch_add(1, Relaxed);
        BYTES.fetch_add(layout.size(), Relaxed);
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, layout: Layout) {
        let h = u.sub(32) as *mut u64;
        match *h.add(3) {
            MAGIC => {}
            FREED => {
                err(2);
                return;
            }
            _ => {
                err(3);
                return;
            }
        }
        let size = *h.add(1) as usize;
        let align = *h.add(2) as usize;
        if *h != CANARY {
            err(5);
        }
        if size != layout.size() || align != layout.align() {
            err(1);
        }
        let t1 = (u.add(size) as *const [u8; 8]).read();
        let t2 = (u.add(size + 8) as *const [u8; 8]).read();
        if t1 != CANARY.to_ne_bytes() || t2 != CANARY.to_ne_bytes() {
            err(4);
        }
        *h.add(3) = FREED;
        if size <= 4096 {
            std::ptr::write_bytes(u, POISON, size);
        }
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(size, Relaxed);
        let p = align.max(32);
        let mut victim = (u as usize, size, p);
        if size <= 4096 {
            while QLOCK.swap(true, Acquire) {
                std::hint::spin_loop();
            }
            let i = QPOS.fetch_add(1, Relaxed) % Q;
            let q = std::ptr::addr_of_mut!(QUAR) as *mut (usize, usize, usize);
            std::mem::swap(&mut victim, &mut *q.add(i));
            QLOCK.store(false, Release);
            if victim.0 != 0 {
                let vu = victim.0 as *const u8;
                for k in 0..victim.1.min(64) {
                    if *vu.add(k) != POISON {
                        err(6);
                        break;
                    }
                }
            }
        }
        if victim.0 != 0 {
            let vu = victim.0 as *mut u8;
            System.dealloc(
                vu.sub(victim.2),
                Layout::from_size_align_unchecked(victim.1 + victim.2 + TAIL, victim.2),
            );
        }
    }
}
