//! A deterministic bump allocator that is reset between executions.
//!
//! Memory freed inside an execution is poisoned and never reused within the same execution, so a
//! use-after-free reads poison instead of a recycled object, addresses are the same on every
//! replay, and abandoned executions need no unwinding.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Arena;

static mut BASE: usize = 0;
static mut END: usize = 0;
/// One region per model thread, so that addresses depend on the thread's own allocations only.
static mut CURS: [usize; 8] = [0; 8];
static mut WHO: usize = 0;
const REGION: usize = SIZE / 8;
static mut LIVE: i64 = 0;
static mut LIVE_BYTES: i64 = 0;
static mut OWNER: usize = 0;

const SIZE: usize = 2 << 30;
pub const POISON: u8 = 0xDD;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Reserves the arena.
pub fn init() {
    unsafe {
        if BASE != 0 {
            return;
        }
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, at a fixed address
        // so that addresses are identical in every process.
        let want = 0x6000_0000_0000_usize;
        let p = mmap(want as *mut u8, SIZE, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "arena mmap failed");
        BASE = p as usize;
        END = BASE + SIZE;
        reset();
    }
}

/// Discards everything in the arena.
pub fn reset() {
    unsafe {
        for i in 0..8 {
            CURS[i] = BASE + i * REGION;
        }
        WHO = 0;
        LIVE = 0;
        LIVE_BYTES = 0;
    }
}

/// Selects the region of a thread.
pub fn select(th: usize) {
    unsafe {
        WHO = th;
    }
}

pub fn enable(on: bool) -> bool {
    ON.with(|o| o.replace(on))
}

pub fn is_on() -> bool {
    ON.with(|o| o.get())
}

/// A copy of the contents of the arena.
pub struct Saved {
    mem: Vec<u8>,
    live: i64,
    bytes: i64,
}

pub fn save() -> Saved {
    unsafe {
        Saved {
            mem: std::slice::from_raw_parts(BASE as *const u8, CURS[0] - BASE).to_vec(),
            live: LIVE,
            bytes: LIVE_BYTES,
        }
    }
}

pub fn restore(s: &Saved) {
    unsafe {
        std::ptr::copy_nonoverlapping(s.mem.as_ptr(), BASE as *mut u8, s.mem.len());
        CURS[0] = BASE + s.mem.len();
        LIVE = s.live;
        LIVE_BYTES = s.bytes;
    }
}

/// Number of live arena allocations.
pub fn live() -> i64 {
    unsafe { LIVE }
}

/// `true` if the address lies in the arena.
pub fn contains(addr: usize) -> bool {
    unsafe { addr >= BASE && addr < END }
}

/// Runs `f` with the system allocator.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            enable(self.0);
        }
    }
    let _r = Reset(enable(false));
    f()
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        unsafe {
            if !is_on() {
                return System.alloc(layout);
            }
            let align = layout.align().max(8);
            let cur = CURS[WHO];
            let p = (cur + align - 1) & !(align - 1);
            // Keep a gap between allocations.
            let next = p + layout.size() + 8;
            if next >= BASE + (WHO + 1) * REGION {
                return std::ptr::null_mut();
            }
            CURS[WHO] = next;
            LIVE += 1;
            LIVE_BYTES += layout.size() as i64;
            p as *mut u8
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        unsafe {
            if !is_on() {
                return System.alloc_zeroed(layout);
            }
            let p = self.alloc(layout);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, layout.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        unsafe {
            if contains(ptr as usize) {
                LIVE -= 1;
                LIVE_BYTES -= layout.size() as i64;
                std::ptr::write_bytes(ptr, POISON, layout.size());
                return;
            }
            System.dealloc(ptr, layout)
        }
    }
}

#[allow(dead_code)]
fn unused() -> usize {
    unsafe { OWNER }
}
