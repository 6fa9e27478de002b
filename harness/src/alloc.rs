//! A global allocator that measures, per thread, how much memory the code under
//! test asks for, and that can inspect blocks at the moment they are freed
//! (to see whether secrets were wiped first).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Tracking;

const MAX_SECRETS: usize = 64;
#[derive(Clone, Copy)]
struct Secret {
    b: [u8; 16],
    n: usize,
}
struct Watch {
    on: bool,
    n: usize,
    s: [Secret; MAX_SECRETS],
    hits: usize,
    freed: usize,
}
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static WATCH: UnsafeCell<Watch> = const { UnsafeCell::new(Watch { on: false, n: 0, s: [Secret { b: [0; 16], n: 0 }; MAX_SECRETS], hits: 0, freed: 0 }) };
}

#[inline]
fn note_alloc(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n)
        }
    });
}
#[inline]
fn note_free(ptr: *const u8, n: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - n as i64));
    let _ = WATCH.try_with(|w| {
        // Single-threaded by construction (thread local), never re-entered: nothing below allocates.
        let w = unsafe { &mut *w.get() };
        if !w.on {
            return;
        }
        w.freed += 1;
        let block = unsafe { std::slice::from_raw_parts(ptr, n) };
        for s in &w.s[..w.n] {
            if s.n <= n && block.windows(s.n).any(|x| x == &s.b[..s.n]) {
                w.hits += 1;
            }
        }
    });
}

/// More than any case needs by far; whoever asks for more than this on one
/// thread has run away, and the failed allocation ends the case as a crash.
const LIMIT: i64 = 2 << 30;
#[inline]
fn refuse(n: usize) -> bool {
    n as u64 > LIMIT as u64 || CUR.try_with(|c| c.get() + n as i64 > LIMIT).unwrap_or(false)
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        // Zeroed so that inspecting a freed block never reads uninitialised memory.
        let p = System.alloc_zeroed(l);
        note_alloc(l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        note_alloc(l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note_free(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Always move, so that the old block is inspected like any other freed block.
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Peak extra memory (bytes) and biggest single request while running f on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, usize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    BIGGEST.with(|b| b.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak, BIGGEST.with(|b| b.get()))
}

/// Run f and count freed blocks that still hold one of the secrets. Each secret
/// is 4 to 16 bytes (longer ones are cut to several windows by the caller).
pub fn watch_frees<T>(secrets: &[Vec<u8>], f: impl FnOnce() -> T) -> (T, usize, usize) {
    WATCH.with(|w| {
        let w = unsafe { &mut *w.get() };
        w.n = 0;
        w.hits = 0;
        w.freed = 0;
        for s in secrets.iter().take(MAX_SECRETS) {
            let n = s.len().min(16);
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&s[..n]);
            w.s[w.n] = Secret { b, n };
            w.n += 1;
        }
        w.on = true;
    });
    let r = f();
    let (h, fr) = WATCH.with(|w| {
        let w = unsafe { &mut *w.get() };
        w.on = false;
        (w.hits, w.freed)
    });
    (r, h, fr)
}
