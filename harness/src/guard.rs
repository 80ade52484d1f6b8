//! Checking allocator: red zones, poisoning, quarantine, double free and ownership accounting.
//! Installed by the monitors of the C interface; a sanitizer or interpreter build uses the plain
//! system allocator instead (`--cfg raw_alloc`).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

const PRE: usize = 64;
const POST: usize = 32;
const LIVE: u64 = 0x1eaf_cafe_5eed_a110;
const DEAD: u64 = 0xdead_beef_dead_f4ee;
const Q: usize = 128;
const QMAX: usize = 1 << 16;

pub const OK: usize = 0;
static ERR: AtomicUsize = AtomicUsize::new(0);
pub const NAMES: [&str; 8] = [
    "",
    "block freed twice or not a block",
    "write before the start of a block",
    "write past the end of a block",
    "write to freed memory",
    "block freed with a layout it was not allocated with",
    "memory owned by the caller was freed by the library",
    "?",
];

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static OWNED: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREED: Cell<u64> = const { Cell::new(0) };
    static FAILED: Cell<usize> = const { Cell::new(0) };
    static RING: [Cell<usize>; Q] = const { [const { Cell::new(0) }; Q] };
    static POS: Cell<usize> = const { Cell::new(0) };
}

pub struct Guard;

fn note(e: usize) {
    ERR.store(e, Ordering::SeqCst);
    let _ = FAILED.try_with(|f| f.set(e));
}

/// run a library call with its allocations attributed to it
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _ = IN_LIB.try_with(|x| x.set(true));
    let r = f();
    let _ = IN_LIB.try_with(|x| x.set(false));
    r
}
/// attribution off (used by the panic hook)
pub fn suspend() {
    let _ = IN_LIB.try_with(|x| x.set(false));
}
/// blocks allocated by library calls of this thread and not freed yet
pub fn owned() -> i64 {
    OWNED.with(|x| x.get())
}
/// allocations made by library calls of this thread so far
pub fn allocs() -> u64 {
    ALLOCS.with(|x| x.get())
}
/// frees checked on this thread so far
pub fn freed() -> u64 {
    FREED.with(|x| x.get())
}
/// first memory error seen by this thread since the last call
pub fn take_error() -> Option<&'static str> {
    FAILED.with(|x| match x.replace(0) {
        0 => None,
        e => Some(NAMES[e.min(7)]),
    })
}

/// release the quarantine of this thread, checking every block in it
pub fn flush() {
    let _ = RING.try_with(|r| {
        for c in r.iter() {
            let p = c.replace(0);
            if p != 0 {
                // SAFETY: blocks in the ring were allocated by this allocator and are released once
                unsafe { release(p as *mut u8) }
            }
        }
    });
}

unsafe fn release(base: *mut u8) {
    unsafe {
        let h = base as *mut u64;
        let size = *h.add(1) as usize;
        let align = *h.add(3) as usize;
        let user = base.add(PRE);
        for i in 0..size {
            if *user.add(i) != 0xDB {
                note(4);
                break;
            }
        }
        System.dealloc(base, Layout::from_size_align_unchecked(size + PRE + POST, align));
    }
}

// SAFETY: forwards to the system allocator with a larger, equally or stronger aligned block
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > PRE {
            return unsafe { System.alloc(l) };
        }
        let align = l.align().max(16);
        unsafe {
            let Ok(big) = Layout::from_size_align(l.size().saturating_add(PRE + POST), align) else { return std::ptr::null_mut() };
            let base = System.alloc(big);
            if base.is_null() {
                return base;
            }
            let tag = IN_LIB.try_with(|x| x.get()).unwrap_or(false);
            if tag {
                let _ = OWNED.try_with(|x| x.set(x.get() + 1));
                let _ = ALLOCS.try_with(|x| x.set(x.get() + 1));
            }
            let h = base as *mut u64;
            *h = LIVE;
            *h.add(1) = l.size() as u64;
            *h.add(2) = tag as u64;
            *h.add(3) = align as u64;
            std::ptr::write_bytes(base.add(32), 0xC7, PRE - 32);
            std::ptr::write_bytes(base.add(PRE), 0xA5, l.size().min(1 << 16));
            std::ptr::write_bytes(base.add(PRE + l.size()), 0xC7, POST);
            base.add(PRE)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > PRE {
            return unsafe { System.dealloc(p, l) };
        }
        unsafe {
            let base = p.sub(PRE);
            let h = base as *mut u64;
            if *h != LIVE {
                note(1);
                return;
            }
            let size = *h.add(1) as usize;
            if size != l.size() || *h.add(3) as usize != l.align().max(16) {
                note(5);
            }
            let _ = FREED.try_with(|x| x.set(x.get() + 1));
            for i in 32..PRE {
                if *base.add(i) != 0xC7 {
                    note(2);
                    break;
                }
            }
            for i in 0..POST {
                if *p.add(size + i) != 0xC7 {
                    note(3);
                    break;
                }
            }
            if *h.add(2) == 1 {
                let _ = OWNED.try_with(|x| x.set(x.get() - 1));
            } else if IN_LIB.try_with(|x| x.get()).unwrap_or(false) {
                note(6);
            }
            *h = DEAD;
            std::ptr::write_bytes(p, 0xDB, size);
            if size > QMAX {
                release(base);
                return;
            }
            let old = POS.try_with(|i| {
                let k = i.get();
                i.set((k + 1) % Q);
                RING.try_with(|r| r[k].replace(base as usize)).unwrap_or(base as usize)
            });
            match old {
                Ok(0) => {}
                Ok(o) => release(o as *mut u8),
                Err(_) => release(base),
            }
        }
    }
}
