//! Deterministic preemption: at a chosen point of a call (its k-th allocation or clock read) the
//! executing thread is parked and another caller's thread runs its own call to completion.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Hooked;

thread_local! {
    /// how many more points until the switch; 0: not armed
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static PIPES: Cell<(i32, i32)> = const { Cell::new((-1, -1)) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<u32> = const { Cell::new(0) };
}

/// Arms this thread: at the `k`-th point it writes to `wake` and waits for a byte from `done`.
pub fn arm(k: u32, wake: i32, done: i32) {
    PIPES.with(|p| p.set((wake, done)));
    FIRED.with(|f| f.set(false));
    LEFT.with(|l| l.set(k));
}

/// Disarms; tells whether the switch happened.
pub fn disarm() -> bool {
    LEFT.with(|l| l.set(0));
    FIRED.with(Cell::get)
}

/// counts the points since the last `count_from_here`
pub fn count_from_here() {
    SEEN.with(|s| s.set(0));
}
pub fn counted() -> u32 {
    SEEN.with(Cell::get)
}

#[inline]
pub fn point() {
    let _ = SEEN.try_with(|s| s.set(s.get().wrapping_add(1)));
    let Ok(n) = LEFT.try_with(Cell::get) else { return };
    if n == 0 {
        return;
    }
    LEFT.with(|l| l.set(n - 1));
    if n == 1 {
        FIRED.with(|f| f.set(true));
        let (w, d) = PIPES.with(Cell::get);
        let b = [1u8; 1];
        // SAFETY: plain system calls on descriptors the armer owns
        unsafe {
            libc::write(w, b.as_ptr().cast(), 1);
            // the other thread may be waiting for a lock this one holds: then go on
            let mut p = libc::pollfd { fd: d, events: libc::POLLIN, revents: 0 };
            libc::poll(&mut p, 1, 300);
        }
    }
}

// SAFETY: defers to the system allocator
unsafe impl GlobalAlloc for Hooked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
}
