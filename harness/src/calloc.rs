//! A checking allocator: canaries around every block, poisoned contents, exact
//! layouts, a quarantine that detects writes to freed blocks, and counts of the
//! blocks allocated while a thread is tracked. Errors are recorded, not raised.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Checked;

const LIVE: u64 = 0x11FE_B10C_5AFE_0001;
const FREED: u64 = 0xDEAD_B10C_0000_0002;
const CANARY: u64 = 0xC0A5_7A1E_C0A5_7A1E;
const TAIL: usize = 16;
pub const FRESH: u8 = 0xA5;
pub const POISON: u8 = 0xDD;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    owner: u64,
    next: *mut Hdr,
    canary: u64,
}

thread_local! {
    static TRACK: Cell<u64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static PEAK_BYTES: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static QUAR: Cell<*mut Hdr> = const { Cell::new(std::ptr::null_mut()) };
    static ERR: Cell<u32> = const { Cell::new(0) };
}
static SESSIONS: AtomicU64 = AtomicU64::new(1);

fn off(align: usize) -> usize {
    std::mem::size_of::<Hdr>().next_multiple_of(align.max(16))
}

fn err(e: u32) {
    ERR.with(|x| {
        if x.get() == 0 {
            x.set(e)
        }
    });
}

pub fn error_text(e: u32) -> &'static str {
    match e {
        1 => "memory was deallocated that is not an allocated block (or twice)",
        2 => "memory was deallocated with another layout than it was allocated with",
        3 => "memory before a block was overwritten",
        4 => "memory after a block was overwritten",
        5 => "memory was written after it was deallocated",
        6 => "memory was allocated with size zero",
        _ => "unknown error",
    }
}

unsafe fn full(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(off(align) + size + TAIL, align.max(16))
}

unsafe fn release(h: *mut Hdr) {
    let (size, align) = ((*h).size, (*h).align);
    let base = (h as *mut u8).add(std::mem::size_of::<Hdr>()).sub(off(align));
    System.dealloc(base, full(size, align));
}

unsafe fn tail_ok(p: *const u8, size: usize) -> bool {
    (0..TAIL).all(|i| p.add(size + i).read() == 0x5C)
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            err(6);
        }
        let o = off(l.align());
        let base = System.alloc(full(l.size(), l.align()));
        if base.is_null() {
            return base;
        }
        let p = base.add(o);
        let h = (p as *mut Hdr).sub(1);
        let owner = TRACK.with(|t| t.get());
        h.write(Hdr { magic: LIVE, size: l.size(), align: l.align(), owner, next: std::ptr::null_mut(), canary: CANARY });
        std::ptr::write_bytes(p.add(l.size()), 0x5C, TAIL);
        if owner != 0 {
            std::ptr::write_bytes(p, FRESH, l.size());
            LIVE_BLOCKS.with(|x| x.set(x.get() + 1));
            let b = LIVE_BYTES.with(|x| x.replace(x.get() + l.size() as i64)) + l.size() as i64;
            PEAK_BYTES.with(|x| x.set(x.get().max(b)));
            ALLOCS.with(|x| x.set(x.get() + 1));
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = (p as *mut Hdr).sub(1);
        if (p as usize) % 16 != 0 || (*h).magic != LIVE {
            err(1);
            return;
        }
        if (*h).canary != CANARY {
            err(3);
        }
        let (size, align, owner) = ((*h).size, (*h).align, (*h).owner);
        if size != l.size() || align != l.align() {
            err(2);
        }
        if !tail_ok(p, size) {
            err(4);
        }
        (*h).magic = FREED;
        let session = TRACK.try_with(|t| t.get()).unwrap_or(0);
        if owner != 0 {
            std::ptr::write_bytes(p, POISON, size);
        }
        if owner != 0 && owner == session {
            LIVE_BLOCKS.with(|x| x.set(x.get() - 1));
            LIVE_BYTES.with(|x| x.set(x.get() - size as i64));
            QUAR.with(|q| {
                (*h).next = q.get();
                q.set(h);
            });
        } else {
            release(h);
        }
    }
}

/// Starts a session on this thread.
pub fn start() {
    LIVE_BLOCKS.with(|x| x.set(0));
    LIVE_BYTES.with(|x| x.set(0));
    ERR.with(|x| x.set(0));
    TRACK.with(|t| t.set(SESSIONS.fetch_add(1, Relaxed)));
}

/// Runs code whose allocations do not belong to the session.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let s = TRACK.with(|t| t.replace(0));
    let r = f();
    TRACK.with(|t| t.set(s));
    r
}

/// Ends the session; returns the first error and the blocks and bytes left.
pub fn end() -> (u32, i64, i64) {
    TRACK.with(|t| t.set(0));
    unsafe {
        let mut h = QUAR.with(|q| q.replace(std::ptr::null_mut()));
        while !h.is_null() {
            let next = (*h).next;
            let p = h.add(1) as *const u8;
            let size = (*h).size;
            if !(0..size).all(|i| p.add(i).read() == POISON) || !tail_ok(p, size) || (*h).magic != FREED {
                err(5);
            }
            release(h);
            h = next;
        }
    }
    (ERR.with(|x| x.get()), LIVE_BLOCKS.with(|x| x.get()), LIVE_BYTES.with(|x| x.get()))
}

pub fn blocks() -> i64 {
    LIVE_BLOCKS.with(|x| x.get())
}

pub fn allocations() -> u64 {
    ALLOCS.with(|x| x.get())
}

/// Bytes allocated in the session and not freed.
pub fn bytes() -> i64 {
    LIVE_BYTES.with(|x| x.get())
}

/// Runs code and tells how many bytes more than before there were at some time.
pub fn extra<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let b = bytes();
    PEAK_BYTES.with(|x| x.set(b));
    let r = f();
    (r, PEAK_BYTES.with(|x| x.get()) - b)
}
