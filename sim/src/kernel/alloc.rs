//! Global allocator. Outside a run it is the system allocator. Inside a run
//! every allocation comes from a private region at a fixed address, so that
//! heap addresses are a function of the run's own allocation sequence and of
//! nothing else (some code under test and some of its dependencies hash
//! addresses).
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 24 << 30;

pub struct SimAlloc;
#[global_allocator]
static A: SimAlloc = SimAlloc;

static mut ON: bool = false;
static mut BUMP: usize = BASE;
static mut FREE: [usize; 64] = [0; 64];
pub static mut ALLOCS: u64 = 0;

pub fn start() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p as usize == BASE, "cannot map the simulation heap");
        ON = true;
    }
}
pub fn used() -> usize {
    unsafe { BUMP - BASE }
}

#[inline]
fn class(size: usize) -> (usize, usize) {
    // size classes: 2^k and 1.5 * 2^k
    let s = size.max(16);
    let k = usize::BITS as usize - (s - 1).leading_zeros() as usize; // 2^k >= s
    let three = 3usize << (k - 2);
    if k >= 5 && s <= three {
        (2 * k, three)
    } else {
        (2 * k + 1, 1usize << k)
    }
}
static mut FREE3: [usize; 64] = [0; 64];

#[inline]
unsafe fn slot(c: usize) -> *mut usize {
    if c & 1 == 0 {
        (&raw mut FREE3 as *mut usize).add(c >> 1)
    } else {
        (&raw mut FREE as *mut usize).add(c >> 1)
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON {
            return System.alloc(l);
        }
        ALLOCS += 1;
        let want = if l.align() > 16 { l.size().max(l.align()) } else { l.size() };
        let (c, sz) = class(want);
        let (c, sz) = if l.align() > 16 && c & 1 == 0 { (c + 1, sz / 3 * 4) } else { (c, sz) };
        let f = slot(c);
        if *f != 0 {
            let p = *f;
            *f = *(p as *const usize);
            return p as *mut u8;
        }
        let al = if sz >= 4096 { 4096 } else if sz.is_power_of_two() { sz } else { 16 };
        let al = al.max(l.align());
        let p = (BUMP + al - 1) & !(al - 1);
        if p + sz > BASE + SIZE {
            return std::ptr::null_mut();
        }
        BUMP = p + sz;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a < BASE || a >= BASE + SIZE {
            // An object from before the run: freeing it could only disturb the
            // C heap, and the process is about to exit anyway.
            if !ON {
                System.dealloc(p, l)
            }
            return;
        }
        let want = if l.align() > 16 { l.size().max(l.align()) } else { l.size() };
        let (c, sz) = class(want);
        let (c, sz) = if l.align() > 16 && c & 1 == 0 { (c + 1, sz / 3 * 4) } else { (c, sz) };
        if sz >= 1 << 20 {
            libc::madvise(p as *mut _, sz, libc::MADV_DONTNEED);
        }
        let f = slot(c);
        *(a as *mut usize) = *f;
        *f = a;
    }
}
