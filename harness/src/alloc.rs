//! Global allocator of the harness: checks that blocks are freed as they were allocated, and on
//! request puts blocks between inaccessible pages or fills them with a pattern.

use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Checked;

#[global_allocator]
static GLOBAL: Checked = Checked;

const MAGIC: u64 = 0x5afe_b10c_5afe_b10c;
const HDR: usize = 64;
const GUARD: usize = 1 << 20;

#[repr(C)]
#[derive(Clone, Copy)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    /// mapping length of a fenced block, otherwise 0
    map: usize,
    base: usize,
}

thread_local! {
    static FENCE: Cell<bool> = const { Cell::new(false) };
    static FILL: Cell<u16> = const { Cell::new(0) };
}
/// blocks freed with another layout than they were allocated with; the last such pair
static BAD: AtomicU64 = AtomicU64::new(0);
static BAD_HAD: AtomicU64 = AtomicU64::new(0);
static BAD_GOT: AtomicU64 = AtomicU64::new(0);

/// Run with fenced allocations, optionally filled with a byte.
pub fn fenced<R>(fill: Option<u8>, f: impl FnOnce() -> R) -> R {
    FENCE.with(|x| x.set(true));
    FILL.with(|x| x.set(fill.map(|b| 0x100 | b as u16).unwrap_or(0)));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FENCE.with(|x| x.set(false));
            FILL.with(|x| x.set(0));
        }
    }
    let _off = Off;
    f()
}
pub fn bad_frees() -> u64 {
    BAD.load(Relaxed)
}
pub fn last_bad() -> (u64, u64) {
    (BAD_HAD.load(Relaxed), BAD_GOT.load(Relaxed))
}

#[inline]
fn off(align: usize) -> usize {
    HDR.max(align)
}

unsafe fn put(p: *mut u8, h: Hdr) {
    (p.sub(HDR) as *mut Hdr).write_unaligned(h);
}

unsafe fn fence_alloc(l: Layout, zero: bool, fill: u16) -> *mut u8 {
    let body = (l.size() + HDR + l.align() + 4095) / 4096 * 4096;
    let map = body + 2 * GUARD;
    let m = libc::mmap(std::ptr::null_mut(), map, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
    if m == libc::MAP_FAILED {
        return std::ptr::null_mut();
    }
    let b = m as usize;
    if libc::mprotect((b + GUARD) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    let p = (b + GUARD + body - l.size()) & !(l.align() - 1);
    let p = p as *mut u8;
    put(p, Hdr { magic: MAGIC, size: l.size(), align: l.align(), map, base: b });
    if !zero && fill != 0 {
        p.write_bytes(fill as u8, l.size());
    }
    p
}

unsafe fn get(l: Layout, zero: bool) -> *mut u8 {
    if FENCE.with(|x| x.get()) {
        return fence_alloc(l, zero, FILL.with(|x| x.get()));
    }
    let o = off(l.align());
    let n = l.size() + o;
    let b = if l.align() <= 16 {
        if zero {
            libc::calloc(1, n)
        } else {
            libc::malloc(n)
        }
    } else {
        let mut p = std::ptr::null_mut();
        if libc::posix_memalign(&mut p, l.align(), n) != 0 {
            return std::ptr::null_mut();
        }
        if zero {
            (p as *mut u8).write_bytes(0, n);
        }
        p
    } as *mut u8;
    if b.is_null() {
        return b;
    }
    let p = b.add(o);
    put(p, Hdr { magic: MAGIC, size: l.size(), align: l.align(), map: 0, base: b as usize });
    // A big block starts with the same stale bytes in every process, so that what depends on them
    // shows at once and shows again.
    if !zero && l.size() >= 1 << 15 && l.size() <= 1 << 26 {
        p.write_bytes(0x5b, l.size());
    }
    p
}

unsafe fn check(p: *mut u8, l: Layout) -> Hdr {
    let h = (p.sub(HDR) as *mut Hdr).read_unaligned();
    if h.magic != MAGIC {
        // overwritten, or never allocated
        libc::abort();
    }
    if h.size != l.size() || h.align != l.align() {
        BAD.fetch_add(1, Relaxed);
        BAD_HAD.store(h.size as u64, Relaxed);
        BAD_GOT.store(l.size() as u64, Relaxed);
    }
    h
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = check(p, l);
        (p.sub(HDR) as *mut u64).write_unaligned(0);
        if h.map != 0 {
            libc::munmap(h.base as *mut _, h.map);
        } else {
            libc::free(h.base as *mut _);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = check(p, l);
        let nl = Layout::from_size_align_unchecked(new, l.align());
        if h.map != 0 || l.align() > 16 || FENCE.with(|x| x.get()) {
            let q = get(nl, false);
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        let b = libc::realloc(h.base as *mut _, new + off(l.align())) as *mut u8;
        if b.is_null() {
            return b;
        }
        let q = b.add(off(l.align()));
        put(q, Hdr { magic: MAGIC, size: new, align: l.align(), map: 0, base: b as usize });
        q
    }
}
