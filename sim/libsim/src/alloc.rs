//! The allocator of the simulated process: deterministic addresses, accounting of what the library
//! holds, injected failures, and a choice of how eagerly freed memory is used again.
use crate::ffi;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct A;
#[global_allocator]
static GLOBAL: A = A;

thread_local! {
    /// Nonzero while this thread executes library code on behalf of the harness.
    pub static INLIB: Cell<u32> = const { Cell::new(0) };
    pub static T_BYTES: Cell<u64> = const { Cell::new(0) };
    pub static T_ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// Countdown to the allocation that fails (0: none).
    pub static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    /// Allocations of this thread that failed.
    pub static T_FAILED: Cell<u64> = const { Cell::new(0) };
}
pub static LIB_LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIB_LIVE_N: AtomicI64 = AtomicI64::new(0);
pub static LIB_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
pub static CORRUPT: AtomicU64 = AtomicU64::new(0);
pub static PERSIST: AtomicU32 = AtomicU32::new(0);
/// 0: last freed first reused, 1: first freed first reused, 2: never reused
pub static POLICY: AtomicU32 = AtomicU32::new(0);

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 8 << 30;
static BUMP: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicU32 = AtomicU32::new(0);
const HDR: usize = 32;
#[repr(C)]
struct Hdr {
    magic: u32,
    class: u32,
    size: usize,
    lib: u32,
    next: *mut Hdr,
}
const LIVE: u32 = 0xa11f_0ca7;
const DEAD: u32 = 0xdead_f4ee;
struct Lists([(*mut Hdr, *mut Hdr); 64]);
static mut LISTS: Lists = Lists([(std::ptr::null_mut(), std::ptr::null_mut()); 64]);

fn class(n: usize) -> (usize, usize) {
    // 16-byte steps to 256, then quarter powers of two
    if n <= 256 {
        let k = n.div_ceil(16).max(1);
        return (k, k * 16);
    }
    let mut k = 17;
    let mut b = 256;
    loop {
        for q in 1..=2 {
            let s = b + b / 2 * q;
            if n <= s {
                return (k.min(63), s);
            }
            k += 1;
        }
        b *= 2;
    }
}
/// From now on allocations come from a fresh arena whose layout depends on the run alone.
pub fn enter_run(pad: usize, policy: u32) {
    unsafe {
        let p = ffi::mmap(BASE as *mut _, SIZE, 3, 0x22 | 0x4000 | 0x100000, -1, 0);
        assert!(p as usize == BASE, "arena");
    }
    BUMP.store(BASE + pad, Relaxed);
    POLICY.store(policy, Relaxed);
    ON.store(1, Relaxed);
}
#[inline]
fn in_arena(p: *mut u8) -> bool {
    (BASE..BASE + SIZE).contains(&(p as usize))
}
unsafe fn arena_alloc(l: Layout, lib: bool) -> *mut u8 {
    if l.align() > 16 {
        // rare; never reused
        let a = BUMP.load(Relaxed);
        let p = (a + HDR + l.align() - 1) & !(l.align() - 1);
        BUMP.store((p + l.size() + 15) & !15, Relaxed);
        let h = (p - HDR) as *mut Hdr;
        *h = Hdr { magic: LIVE, class: 0, size: l.size(), lib: lib as u32, next: std::ptr::null_mut() };
        return p as *mut u8;
    }
    let (k, s) = class(l.size());
    let lists = &mut *std::ptr::addr_of_mut!(LISTS);
    let (head, tail) = &mut lists.0[k];
    let mut h = *head;
    if !h.is_null() && k < 63 && POLICY.load(Relaxed) != 2 {
        *head = (*h).next;
        if head.is_null() {
            *tail = std::ptr::null_mut();
        }
        if (*h).magic != DEAD {
            CORRUPT.fetch_add(1, Relaxed);
        }
    } else {
        let a = BUMP.fetch_add(HDR + s, Relaxed);
        if a + HDR + s > BASE + SIZE {
            return std::ptr::null_mut();
        }
        h = a as *mut Hdr;
    }
    *h = Hdr { magic: LIVE, class: k as u32, size: l.size(), lib: lib as u32, next: std::ptr::null_mut() };
    (h as *mut u8).add(HDR)
}
unsafe fn arena_free(p: *mut u8) {
    let h = p.sub(HDR) as *mut Hdr;
    if (*h).magic != LIVE {
        CORRUPT.fetch_add(1, Relaxed);
        return;
    }
    if (*h).lib != 0 {
        LIB_LIVE.fetch_sub((*h).size as i64, Relaxed);
        LIB_LIVE_N.fetch_sub(1, Relaxed);
    }
    (*h).magic = DEAD;
    std::ptr::write_bytes(p, 0xdd, (*h).size.min(4096));
    if (*h).class == 0 || ffi::sim_active() == 0 && ON.load(Relaxed) == 2 {
        return; // not worth reusing / a thread past its end
    }
    (*h).next = std::ptr::null_mut();
    let lists = &mut *std::ptr::addr_of_mut!(LISTS);
    let (head, tail) = &mut lists.0[(*h).class as usize];
    if POLICY.load(Relaxed) == 1 && !tail.is_null() {
        (**tail).next = h;
        *tail = h;
    } else {
        (*h).next = *head;
        *head = h;
        if tail.is_null() {
            *tail = h;
        }
    }
}
/// Threads exist from here on.
pub fn threads_on() {
    ON.store(2, Relaxed);
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) == 0 {
            return System.alloc(l);
        }
        if ON.load(Relaxed) == 2 && ffi::sim_active() == 0 {
            return System.alloc(l); // a thread that is starting or past its end
        }
        let lib = INLIB.try_with(|c| c.get() != 0).unwrap_or(false);
        if lib {
            ffi::sim_point(ffi::PLACE_ALLOC);
            LIB_ALLOCS.fetch_add(1, Relaxed);
            T_BYTES.with(|c| c.set(c.get() + l.size() as u64));
            T_ALLOCS.with(|c| c.set(c.get() + 1));
            let f = FAIL_AT.with(|c| {
                let v = c.get();
                if v > 0 {
                    c.set(v - 1);
                }
                if v == 1 && PERSIST.load(Relaxed) != 0 {
                    c.set(1);
                }
                v == 1
            });
            if f {
                FAILED.fetch_add(1, Relaxed);
                T_FAILED.with(|c| c.set(c.get() + 1));
                crate::exec::note_alloc_failure();
                return std::ptr::null_mut();
            }
            LIB_LIVE.fetch_add(l.size() as i64, Relaxed);
            LIB_LIVE_N.fetch_add(1, Relaxed);
        }
        arena_alloc(l, lib)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            arena_free(p)
        } else {
            System.dealloc(p, l)
        }
    }
}
