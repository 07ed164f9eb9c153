//! Counts what the program holds on its heap, for the simulator to read between events.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI32, Ordering::Relaxed};

struct Counting;

static BLOCKS: AtomicI32 = AtomicI32::new(0);
static BYTES: AtomicI32 = AtomicI32::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i32, Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            BLOCKS.fetch_add(1, Relaxed);
            BYTES.fetch_add(l.size() as i32, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i32, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, l, size);
        if !q.is_null() {
            BYTES.fetch_add(size as i32 - l.size() as i32, Relaxed);
        }
        q
    }
}

#[global_allocator]
static HEAP: Counting = Counting;

#[no_mangle]
pub extern "C" fn sim_heap_blocks() -> i32 {
    BLOCKS.load(Relaxed)
}

#[no_mangle]
pub extern "C" fn sim_heap_bytes() -> i32 {
    BYTES.load(Relaxed)
}
