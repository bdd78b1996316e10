//! Counting allocator. Allocations made while the library runs (not inside callbacks, not by
//! the harness) are tagged; after a run none of them may be left.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! {
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
}

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

const MAGIC: u64 = 0x7a67_11fe_a110_c8ed;
const FREED: u64 = 0x7a67_dead_f4ee_d000;

pub struct Heap;

fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

fn outer(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + pad(l), l.align().max(16)) }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(outer(&l));
        if p.is_null() {
            return p;
        }
        let q = p.add(pad(&l));
        let tag = IN_LIB.try_with(|c| c.get()).unwrap_or(false) as u64;
        if tag == 1 {
            LIVE.fetch_add(1, Relaxed);
            TOTAL.fetch_add(1, Relaxed);
        }
        *(q.sub(16) as *mut u64) = MAGIC;
        *(q.sub(8) as *mut u64) = tag;
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let m = q.sub(16) as *mut u64;
        if *m != MAGIC {
            crate::viol::raise("double_free", "heap block released twice or overwritten");
        }
        let tag = *(q.sub(8) as *mut u64);
        *m = FREED;
        if tag == 1 {
            LIVE.fetch_sub(1, Relaxed);
            // expose late reads of released library buffers
            std::ptr::write_bytes(q, 0xDD, l.size().min(2048));
        }
        System.dealloc(q.sub(pad(&l)), outer(&l));
    }
}

/// Runs library code: allocations are tagged.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _g = Flag(IN_LIB.with(|c| c.replace(true)));
    let _f = fine::set(true);
    f()
}

/// Runs harness code from inside library code: allocations are not tagged.
#[inline]
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _f = fine::set(false);
    let _g = Flag(IN_LIB.with(|c| c.replace(false)));
    f()
}

struct Flag(bool);
impl Drop for Flag {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}
