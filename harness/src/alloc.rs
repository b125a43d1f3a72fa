//! The allocator of the checked build: byte buffers get addresses of any alignment (they are only entitled to 1), fresh and freed
//! memory is filled with junk, and what the main thread and the whole process hold is counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::Relaxed};

pub struct Alloc;

static OFFSET: AtomicUsize = AtomicUsize::new(1);
static JUNK: AtomicUsize = AtomicUsize::new(0xA5);
static TOTAL: AtomicIsize = AtomicIsize::new(0);
static TOTAL_PEAK: AtomicIsize = AtomicIsize::new(0);

thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// filling gigabytes would touch every page
const FILL: usize = 1 << 21;

fn count(n: isize) {
    let t = TOTAL.fetch_add(n, Relaxed) + n;
    if n > 0 {
        TOTAL_PEAK.fetch_max(t, Relaxed);
    }
    let _ = HELD.try_with(|h| {
        let v = h.get() + n;
        h.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}

fn padded(l: Layout) -> Layout {
    // size + 16 cannot overflow a layout's limit in practice; if it does, the allocation fails
    Layout::from_size_align(l.size().saturating_add(16).min(isize::MAX as usize - 15), 16).unwrap_or(l)
}

unsafe fn fill(p: *mut u8, n: usize, with: u8) {
    unsafe { p.write_bytes(with, n.min(FILL)) }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = if l.align() == 1 { System.alloc(padded(l)) } else { System.alloc(l) };
            if p.is_null() {
                return p;
            }
            let p = if l.align() == 1 { p.add(OFFSET.load(Relaxed) & 15) } else { p };
            count(l.size() as isize);
            fill(p, l.size(), JUNK.load(Relaxed) as u8);
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = if l.align() == 1 { System.alloc_zeroed(padded(l)) } else { System.alloc_zeroed(l) };
            if p.is_null() {
                return p;
            }
            count(l.size() as isize);
            if l.align() == 1 {
                p.add(OFFSET.load(Relaxed) & 15)
            } else {
                p
            }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            fill(p, l.size(), 0xDB);
            count(-(l.size() as isize));
            if l.align() == 1 {
                System.dealloc(p.sub(p as usize & 15), padded(l));
            } else {
                System.dealloc(p, l);
            }
        }
    }
}

/// How byte buffers are placed and what fresh memory holds, from now on.
pub fn arrange(h: u64) {
    OFFSET.store((h >> 8) as usize & 15, Relaxed);
    JUNK.store([0xA5, 0x00, 0xFF, 0x01][(h >> 16) as usize & 3], Relaxed);
}

/// Is this allocator in force?
pub const ACTIVE: bool = cfg!(all(debug_assertions, not(miri)));

/// Bytes the calling thread holds (acquired minus released by it).
pub fn held() -> isize {
    HELD.with(|h| h.get())
}

/// Bytes the process holds.
pub fn total() -> isize {
    TOTAL.load(Relaxed)
}

/// Runs something and tells by how much the calling thread's holdings grew, and their highest point above the start.
pub fn measured<R>(f: impl FnOnce() -> R) -> (R, isize, isize) {
    let before = held();
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, held() - before, PEAK.with(|p| p.get()) - before)
}

/// As `measured`, for the whole process.
pub fn measured_total<R>(f: impl FnOnce() -> R) -> (R, isize, isize) {
    let before = total();
    TOTAL_PEAK.store(before, Relaxed);
    let r = f();
    (r, total() - before, TOTAL_PEAK.load(Relaxed) - before)
}

#[cfg(all(debug_assertions, not(miri)))]
#[global_allocator]
static GLOBAL: Alloc = Alloc;
