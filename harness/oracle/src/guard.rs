//! A checking allocator: red zones, layout verification, poisoning, per-thread accounting,
//! and a deterministic work budget (number of allocations per case).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct Guard;

const MAGIC: u64 = 0x9E37_79B9_7F4A_7C15;
pub const ZONE: u8 = 0xD7;
const TAIL: usize = 32;
pub const POISON_NEW: u8 = 0x6B;
pub const POISON_FREE: u8 = 0xE5;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static FAULT: Cell<u32> = const { Cell::new(0) };
    static FAULT_A: Cell<u64> = const { Cell::new(0) };
    static FAULT_B: Cell<u64> = const { Cell::new(0) };
    static FRESH: Cell<u8> = const { Cell::new(POISON_NEW) };
    static FREED: Cell<u8> = const { Cell::new(POISON_FREE) };
    static AROUND: Cell<u8> = const { Cell::new(ZONE) };
    static JITTER: Cell<u32> = const { Cell::new(0) };
}

/// Exit status used when a case runs over its work budget.
pub const BUDGET_EXIT: i32 = 77;
pub static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub static MAX_SEEN: AtomicU64 = AtomicU64::new(0);
/// Set by binaries that install `Guard` as the global allocator.
pub static INSTALLED: AtomicBool = AtomicBool::new(false);

pub const F_LAYOUT: u32 = 1;
pub const F_HEAD: u32 = 2;
pub const F_TAIL: u32 = 3;

fn fault(code: u32, a: u64, b: u64) {
    FAULT.with(|f| {
        if f.get() == 0 {
            f.set(code);
            FAULT_A.with(|x| x.set(a));
            FAULT_B.with(|x| x.set(b));
        }
    });
}

/// Takes the first memory fault this thread has seen, as text.
pub fn take_fault() -> Option<String> {
    let c = FAULT.with(|f| f.replace(0));
    let a = FAULT_A.with(|x| x.get());
    let b = FAULT_B.with(|x| x.get());
    match c {
        0 => None,
        F_LAYOUT => Some(format!(
            "heap block freed with another layout than it was allocated with: allocated size {} align {}, freed size {} align {}",
            a >> 16, a & 0xffff, b >> 16, b & 0xffff
        )),
        F_HEAD => Some(format!("memory before a heap block of {} bytes was overwritten (or a foreign pointer was freed)", a)),
        _ => Some(format!("memory after a heap block of {} bytes was overwritten at offset +{}", a, b)),
    }
}

pub fn case_begin() {
    ALLOCS.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}
pub fn case_end() {
    ON.with(|c| c.set(false));
    let n = ALLOCS.with(|c| c.get());
    MAX_SEEN.fetch_max(n, Relaxed);
}
/// What fresh, freed and neighbouring memory is filled with on this thread from now on.
pub fn set_poison(fresh: u8, freed: u8, around: u8) {
    FRESH.with(|c| c.set(fresh));
    FREED.with(|c| c.set(freed));
    AROUND.with(|c| c.set(around));
}
/// Live heap blocks allocated by this thread minus freed by it.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

/// From now on, allocating and freeing on this thread takes a varying time or gives way to
/// other threads, at points that follow from `seed` (none if it is 0).
pub fn set_jitter(seed: u32) {
    JITTER.with(|c| c.set(seed));
}
#[inline]
fn jitter() {
    let mut x = JITTER.with(|c| c.get());
    if x == 0 {
        return;
    }
    x ^= x << 13;
    x ^= x >> 17;
    x ^= x << 5;
    JITTER.with(|c| c.set(x));
    match x >> 24 {
        0..=15 => std::thread::yield_now(),
        16..=47 => {
            for _ in 0..(x & 0x3ff) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

#[inline]
fn head(align: usize) -> usize {
    align.max(48)
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        jitter();
        let h = head(l.align());
        let total = match l.size().checked_add(h + TAIL) {
            Some(t) => t,
            None => return std::ptr::null_mut(),
        };
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(h);
        // [.. size, align, magic ^ size, zone(16)] p
        let zone = AROUND.with(|c| c.get());
        std::ptr::write_bytes(p.sub(16), zone, 16);
        *p.sub(48) = zone;
        (p.sub(40) as *mut u64).write_unaligned(l.size() as u64);
        (p.sub(32) as *mut u64).write_unaligned(l.align() as u64);
        (p.sub(24) as *mut u64).write_unaligned(MAGIC ^ l.size() as u64);
        std::ptr::write_bytes(p, FRESH.with(|c| c.get()), l.size());
        std::ptr::write_bytes(p.add(l.size()), zone, TAIL);
        LIVE.with(|c| c.set(c.get() + 1));
        if ON.with(|c| c.get()) {
            let n = ALLOCS.with(|c| {
                c.set(c.get() + 1);
                c.get()
            });
            if n > BUDGET.load(Relaxed) {
                ON.with(|c| c.set(false));
                std::process::exit(BUDGET_EXIT);
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        jitter();
        let size = (p.sub(40) as *mut u64).read_unaligned();
        let align = (p.sub(32) as *mut u64).read_unaligned();
        let magic = (p.sub(24) as *mut u64).read_unaligned();
        let zone = *p.sub(48);
        if magic != MAGIC ^ size || (0..16).any(|i| *p.sub(16 - i) != zone) {
            fault(F_HEAD, l.size() as u64, 0);
            return; // leak it: nothing about the block can be trusted
        }
        if size != l.size() as u64 || align != l.align() as u64 {
            fault(F_LAYOUT, size << 16 | align, (l.size() as u64) << 16 | l.align() as u64);
        }
        for i in 0..TAIL {
            if *p.add(size as usize + i) != zone {
                fault(F_TAIL, size, i as u64);
                break;
            }
        }
        std::ptr::write_bytes(p, FREED.with(|c| c.get()), size as usize);
        (p.sub(24) as *mut u64).write_unaligned(0);
        LIVE.with(|c| c.set(c.get() - 1));
        let h = head(align as usize);
        System.dealloc(
            p.sub(h),
            Layout::from_size_align_unchecked(size as usize + h + TAIL, (align as usize).max(16)),
        );
    }
}
