//! Global allocator of the harness binaries. Every allocation of a simulated thread is reported to the
//! simulator, and addresses are a function of the sequence of requests alone (no per-thread arenas or
//! caches), because code under test may hash addresses.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, Ordering};

const CHUNK: usize = 1 << 20;
const MAX_SMALL: usize = 256 << 10;
const CLASSES: usize = 64;

struct Heap {
    free: [*mut u8; CLASSES],
    next: *mut u8,
    left: usize,
}
static mut HEAP: Heap = Heap { free: [std::ptr::null_mut(); CLASSES], next: std::ptr::null_mut(), left: 0 };
static LOCK: AtomicBool = AtomicBool::new(false);

/// Four classes per power of two, from 16 bytes.
fn class(size: usize) -> usize {
    if size <= 16 {
        return 0;
    }
    let n = size - 1;
    let top = usize::BITS as usize - 1 - n.leading_zeros() as usize;
    (top - 4) * 4 + ((n >> (top - 2)) & 3) + 1
}
fn class_size(c: usize) -> usize {
    if c == 0 {
        return 16;
    }
    let (p, q) = ((c - 1) / 4 + 4, (c - 1) % 4);
    let s = (1 << p) + (q + 1) * (1 << (p - 2));
    (s + 15) & !15
}

unsafe fn map(size: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p as *mut u8
    }
}
fn need(l: &Layout) -> usize {
    if l.align() > 16 { l.size().max(l.align()).next_power_of_two() } else { l.size() }
}
#[allow(static_mut_refs)]
unsafe fn get(l: Layout) -> *mut u8 {
    let n = need(&l);
    if n > MAX_SMALL || l.align() > 4096 {
        return map((n + 4095) & !4095);
    }
    let c = class(n);
    // alignment above 16: power-of-two sizes from power-of-two aligned blocks
    let size = class_size(c);
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let h = &mut HEAP;
    let mut p = h.free[c];
    if l.align() <= 16 {
        if !p.is_null() {
            h.free[c] = *(p as *mut *mut u8);
        } else {
            if h.left < size {
                h.next = map(CHUNK);
                h.left = if h.next.is_null() { 0 } else { CHUNK };
            }
            if h.left >= size {
                p = h.next;
                h.next = p.add(size);
                h.left -= size;
            }
        }
    } else {
        let pad = h.next.align_offset(l.align());
        if h.left < size + pad {
            h.next = map(CHUNK);
            h.left = if h.next.is_null() { 0 } else { CHUNK };
        }
        let pad = h.next.align_offset(l.align());
        p = std::ptr::null_mut();
        if h.left >= size + pad {
            p = h.next.add(pad);
            h.next = p.add(size);
            h.left -= size + pad;
        }
    }
    LOCK.store(false, Ordering::Release);
    p
}
#[allow(static_mut_refs)]
unsafe fn put(p: *mut u8, l: Layout) {
    let n = need(&l);
    if n > MAX_SMALL || l.align() > 4096 {
        libc::munmap(p as *mut libc::c_void, (n + 4095) & !4095);
        return;
    }
    let c = class(n);
    while LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    *(p as *mut *mut u8) = HEAP.free[c];
    HEAP.free[c] = p;
    LOCK.store(false, Ordering::Release);
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::world::on_alloc(l.size());
        get(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::world::on_alloc(l.size());
        let p = get(l);
        if !p.is_null() && need(&l) <= MAX_SMALL {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let (a, b) = (need(&l), need(&nl));
        if a <= MAX_SMALL && b <= MAX_SMALL && class(a) == class(b) {
            return p;
        }
        crate::world::on_alloc(n);
        let q = get(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, l);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        put(p, l)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn classes_hold_their_sizes() {
        for n in 1..=MAX_SMALL {
            let c = class(n);
            assert!(c < CLASSES && class_size(c) >= n, "{n} {c} {}", class_size(c));
        }
    }
}
