//! Global allocator that places buffers shaped like the naive device's storage (4-byte aligned,
//! power-of-two size of at least 256 bytes) against an inaccessible page, so that an access past
//! the end, and any access after the buffer was released, ends the process with SIGSEGV.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};

pub struct Guarded;

static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static GUARDED_ALLOCS: AtomicUsize = AtomicUsize::new(0);
const ARENA: usize = 1 << 36;
const PAGE: usize = 4096;
/// free lists per number of pages (only small ones are recycled; 0 = empty)
const MAXP: usize = 65;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut FREE: [([usize; 512], usize); MAXP] = [([0; 512], 0); MAXP];

pub fn enable_guards() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            ARENA,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            return;
        }
        BASE.store(p as usize, Ordering::SeqCst);
        NEXT.store(p as usize, Ordering::SeqCst);
        ON.store(true, Ordering::SeqCst);
    }
}

fn lock() {
    while LOCK
        .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
        .is_err()
    {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

fn wants(l: &Layout) -> bool {
    ON.load(Ordering::Relaxed)
        && l.align() == 4
        && l.size() >= 256
        && l.size() <= 1 << 18
        && l.size().is_power_of_two()
}
fn inside(p: *mut u8) -> bool {
    let b = BASE.load(Ordering::Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + ARENA
}

unsafe fn take(size: usize) -> *mut u8 {
    let pages = (size + PAGE - 1) / PAGE;
    lock();
    #[allow(static_mut_refs)]
    let fl = &mut FREE[pages];
    let slot = if fl.1 > 0 {
        fl.1 -= 1;
        fl.0[fl.1]
    } else {
        let n = NEXT.load(Ordering::Relaxed);
        if n + (pages + 1) * PAGE > BASE.load(Ordering::Relaxed) + ARENA {
            unlock();
            return System.alloc_zeroed(Layout::from_size_align_unchecked(size, 4));
        }
        NEXT.store(n + (pages + 1) * PAGE, Ordering::Relaxed);
        n
    };
    unlock();
    libc::mprotect(slot as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
    GUARDED_ALLOCS.fetch_add(1, Ordering::Relaxed);
    (slot + pages * PAGE - size) as *mut u8
}

/// Blocks and bytes in use, once counting is on.
pub static COUNT: AtomicBool = AtomicBool::new(false);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);

fn count(blocks: i64, bytes: i64) {
    if COUNT.load(Ordering::Relaxed) {
        BLOCKS.fetch_add(blocks, Ordering::Relaxed);
        BYTES.fetch_add(bytes, Ordering::Relaxed);
    }
}

pub fn in_use() -> (i64, i64) {
    (BLOCKS.load(Ordering::Relaxed), BYTES.load(Ordering::Relaxed))
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        if wants(&l) {
            take(l.size())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        if wants(&l) {
            take(l.size())
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        if inside(p) {
            let pages = (l.size() + PAGE - 1) / PAGE;
            let slot = p as usize + l.size() - pages * PAGE;
            libc::madvise(slot as *mut _, pages * PAGE, libc::MADV_DONTNEED);
            libc::mprotect(slot as *mut _, pages * PAGE, libc::PROT_NONE);
            lock();
            #[allow(static_mut_refs)]
            let fl = &mut FREE[pages];
            if fl.1 < 512 {
                fl.0[fl.1] = slot;
                fl.1 += 1;
            }
            unlock();
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if inside(p) {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
            q
        } else {
            count(0, new as i64 - l.size() as i64);
            System.realloc(p, l, new)
        }
    }
}
