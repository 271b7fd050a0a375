//! Allocator that, when switched on for the current thread, puts every allocation between inaccessible
//! pages, fills it with a chosen byte, never reuses an address, and checks layout and slack on release.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering};

const REGION: usize = 16 << 40;
const P: usize = 4096;
const MAGIC: u64 = 0x6d6f_6e67_7561_7264;
const SLACK: u8 = 0xc9;

static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static POISON: AtomicU8 = AtomicU8::new(0xa5);
pub static GUARDED: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
pub static FILLS: AtomicU64 = AtomicU64::new(0);
pub static RELEASED: AtomicU64 = AtomicU64::new(0);

thread_local! { static MIN: Cell<usize> = const { Cell::new(usize::MAX) }; static CAP: Cell<usize> = const { Cell::new(usize::MAX) }; static FILL: Cell<Option<u8>> = const { Cell::new(None) }; }

/// No single allocation this thread makes inside `f` may exceed `cap` bytes.
pub fn capped<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    struct Back(usize);
    impl Drop for Back { fn drop(&mut self) { CAP.with(|m| m.set(self.0)); } }
    let _b = Back(CAP.with(|m| m.replace(cap)));
    f()
}
#[inline]
fn check(n: usize) { if n > CAP.try_with(|m| m.get()).unwrap_or(usize::MAX) { CAP.with(|m| m.set(usize::MAX)); die(&format!("HUGE-ALLOCATION: {n} bytes; calls: {}", crate::hostile::trail())); } }

/// Guards every allocation of at least `min` bytes this thread makes inside `f`.
pub fn guarded<T>(min: usize, f: impl FnOnce() -> T) -> T {
    struct Back(usize);
    impl Drop for Back { fn drop(&mut self) { MIN.with(|m| m.set(self.0)); } }
    let _b = Back(MIN.with(|m| m.replace(min)));
    f()
}
/// While guarding is on, guards every allocation made inside `f`, however small.
pub fn tight<T>(f: impl FnOnce() -> T) -> T {
    if MIN.with(|m| m.get()) == usize::MAX { f() } else { guarded(0, f) }
}
/// Every allocation this thread makes inside `f` starts out filled with `b` instead of what the heap held.
pub fn filled<T>(b: u8, f: impl FnOnce() -> T) -> T {
    struct Back(Option<u8>);
    impl Drop for Back { fn drop(&mut self) { FILL.with(|m| m.set(self.0)); } }
    let _b = Back(FILL.with(|m| m.replace(Some(b))));
    f()
}
pub fn poison(b: u8) { POISON.store(b, Ordering::Relaxed); }

pub fn die(msg: &str) -> ! {
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::write(2, b"\n".as_ptr() as *const _, 1);
        libc::abort()
    }
}

#[repr(C)]
struct Head { magic: u64, size: usize, align: usize, total: usize, ptr: usize }

pub struct G;

#[cfg(not(feature = "sysalloc"))]
#[global_allocator]
static GLOBAL: G = G;

fn base() -> usize {
    let b = BASE.load(Ordering::Relaxed);
    if b != 0 { return b; }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED { die("OUT-OF-MEMORY: no room for the guarded region"); }
        match BASE.compare_exchange(0, p as usize, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => p as usize,
            Err(o) => { libc::munmap(p, REGION); o }
        }
    }
}
fn inside(p: usize) -> bool { let b = BASE.load(Ordering::Relaxed); b != 0 && p >= b && p < b + REGION }

/// header page | guard | data, at its end | guard
unsafe fn take(l: Layout, fill: Option<u8>) -> *mut u8 {
    let align = l.align().max(1);
    if align > P { return System.alloc(l); }
    let data = (l.size() + P - 1) / P * P;
    let data = data.max(P);
    let total = data + 3 * P;
    let off = NEXT.fetch_add(total, Ordering::Relaxed);
    if off + total > REGION { die("OUT-OF-MEMORY: guarded region used up"); }
    let at = base() + off;
    let map = |a: usize, n: usize| { if libc::mprotect(a as *mut _, n, libc::PROT_READ | libc::PROT_WRITE) != 0 { die("OUT-OF-MEMORY: mprotect"); } };
    map(at, P);
    map(at + 2 * P, data);
    let first = at + 2 * P;
    let ptr = (first + data - l.size()) & !(align - 1);
    *(at as *mut Head) = Head { magic: MAGIC, size: l.size(), align, total, ptr };
    std::ptr::write_bytes(first as *mut u8, SLACK, ptr - first);
    let end = ptr + l.size();
    std::ptr::write_bytes(end as *mut u8, SLACK, first + data - end);
    if let Some(b) = fill { std::ptr::write_bytes(ptr as *mut u8, b, l.size()); }
    GUARDED.fetch_add(1, Ordering::Relaxed);
    BYTES.fetch_add(l.size() as u64, Ordering::Relaxed);
    ptr as *mut u8
}

unsafe fn release(p: usize, l: Layout) {
    let first = p & !(P - 1);
    let at = first - 2 * P;
    let h = &*(at as *const Head);
    if h.magic != MAGIC || h.ptr != p { die("BAD-RELEASE: a pointer is released that was not allocated"); }
    if h.size != l.size() || h.align != l.align().max(1) { die(&format!("BAD-RELEASE: {} bytes aligned to {} are released as {} bytes aligned to {}", h.size, h.align, l.size(), l.align())); }
    let data = h.total - 3 * P;
    for a in (first..p).chain(p + h.size..first + data) { if *(a as *const u8) != SLACK { die(&format!("OUT-OF-BOUNDS: byte {} of an allocation of {} bytes was written", a as isize - p as isize, h.size)); } }
    let total = h.total;
    let r = libc::mmap(at as *mut _, total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED, -1, 0);
    if r == libc::MAP_FAILED { die("OUT-OF-MEMORY: cannot release"); }
    RELEASED.fetch_add(1, Ordering::Relaxed);
}

unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        if l.size() >= MIN.try_with(|m| m.get()).unwrap_or(usize::MAX) { take(l, Some(FILL.try_with(|m| m.get()).unwrap_or(None).unwrap_or(POISON.load(Ordering::Relaxed)))) } else {
            let p = System.alloc(l);
            if let Ok(Some(b)) = FILL.try_with(|m| m.get()) { if !p.is_null() { std::ptr::write_bytes(p, b, l.size()); FILLS.fetch_add(1, Ordering::Relaxed); } }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        if l.size() >= MIN.try_with(|m| m.get()).unwrap_or(usize::MAX) { take(l, None) } else { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if inside(p as usize) { release(p as usize, l) } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        if inside(p as usize) || n >= MIN.try_with(|m| m.get()).unwrap_or(usize::MAX) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        } else {
            let q = System.realloc(p, l, n);
            if let Ok(Some(b)) = FILL.try_with(|m| m.get()) { if !q.is_null() && n > l.size() { std::ptr::write_bytes(q.add(l.size()), b, n - l.size()); } }
            q
        }
    }
}
