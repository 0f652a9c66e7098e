//! Global allocator. Memory requested by a thread that is inside a library call comes from
//! guarded, poisoned mappings and is accounted for; everything else goes to the system.
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Ga;

thread_local! {
    pub static IN_CALL: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy)]
pub struct Block {
    pub map: usize,
    pub body: usize,
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub bad_layout: bool,
    pub redzone: bool,
    /// address of one byte per byte of the block: 1 once written (instrumented builds)
    pub shadow: usize,
}
const NB: usize = 4096;
const Z: Block = Block { map: 0, body: 0, ptr: 0, size: 0, align: 0, live: false, bad_layout: false, redzone: false, shadow: 0 };
/// blocks handed out since the last `reset`
pub static mut BLOCKS: [Block; NB] = [Z; NB];
pub static NBLOCKS: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
/// bytes held now, and the most held at once since the last `reset`
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static AT_START: AtomicBool = AtomicBool::new(false);
/// the how-manieth request of a call is refused (0: none), counted down; and whether one was
pub static REFUSE: AtomicUsize = AtomicUsize::new(0);
pub static REFUSE_ON: AtomicBool = AtomicBool::new(false); // and all after it
pub static REFUSED: AtomicBool = AtomicBool::new(false);
/// alignment actually provided is exactly the one asked for (never more)
pub static POISON: AtomicUsize = AtomicUsize::new(0xff);

fn lock() {
    while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop()
    }
}
fn unlock() {
    LOCK.store(false, Release)
}

#[allow(static_mut_refs)]
unsafe fn galloc(l: Layout) -> *mut u8 {
    let size = l.size();
    let align = l.align();
    // one extra `align` so that a block is aligned to `align` but not to 2*align
    let (map, body) = sys::map_guarded(size + 2 * align, false);
    let ptr = if AT_START.load(Relaxed) {
        if align >= sys::PAGE { map } else { map + align }
    } else {
        let mut p = (map + body - size) & !(align - 1);
        if p & align == 0 && p - align >= map { p -= align }
        p
    };
    let pat = POISON.load(Relaxed) as u8;
    std::ptr::write_bytes(map as *mut u8, 0xA5, body);
    std::ptr::write_bytes(ptr as *mut u8, pat, size);
    let shadow = if cfg!(feature = "acc") { sys::map_guarded(size, false).0 } else { 0 };
    lock();
    let n = NBLOCKS.load(Relaxed);
    if n >= NB {
        unlock();
        return std::ptr::null_mut();
    }
    BLOCKS[n] = Block { map, body, ptr, size, align, live: true, bad_layout: false, redzone: false, shadow };
    NBLOCKS.store(n + 1, Release);
    let l = LIVE.load(Relaxed) + size;
    LIVE.store(l, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed)
    }
    unlock();
    ptr as *mut u8
}

#[allow(static_mut_refs)]
unsafe fn gfree(p: *mut u8, l: Layout) -> bool {
    if NBLOCKS.load(Acquire) == 0 {
        return false;
    }
    lock();
    let n = NBLOCKS.load(Relaxed);
    for b in BLOCKS[..n].iter_mut() {
        if b.live && b.ptr == p as usize {
            b.live = false;
            LIVE.store(LIVE.load(Relaxed) - b.size, Relaxed);
            b.bad_layout = b.size != l.size() || b.align != l.align();
            let mut bad = false;
            let mut x = b.map;
            while x < b.ptr {
                bad |= *(x as *const u8) != 0xA5;
                x += 1;
            }
            x = b.ptr + b.size;
            while x < b.map + b.body {
                bad |= *(x as *const u8) != 0xA5;
                x += 1;
            }
            b.redzone = bad;
            // use after free faults from here on
            sys::protect(b.map, b.body, sys::PROT_NONE);
            unlock();
            return true;
        }
    }
    unlock();
    false
}

/// Forget (and unmap) the blocks of the calls made so far. Blocks still live are kept mapped.
#[allow(static_mut_refs)]
pub unsafe fn reset() {
    lock();
    let n = NBLOCKS.load(Relaxed);
    let mut keep = 0;
    for i in 0..n {
        if BLOCKS[i].live {
            BLOCKS[keep] = BLOCKS[i];
            keep += 1;
        } else {
            sys::unmap_guarded(BLOCKS[i].map, BLOCKS[i].body);
            if BLOCKS[i].shadow != 0 {
                let b = (BLOCKS[i].size + sys::PAGE - 1) / sys::PAGE * sys::PAGE;
                sys::unmap_guarded(BLOCKS[i].shadow, if b == 0 { sys::PAGE } else { b });
            }
        }
    }
    NBLOCKS.store(keep, Release);
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    unlock();
}

unsafe impl GlobalAlloc for Ga {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if IN_CALL.try_with(|c| c.get()).unwrap_or(false) {
            let left = REFUSE.load(SeqCst);
            if left > 0 {
                if left > 1 || !REFUSE_ON.load(SeqCst) {
                    REFUSE.store(left - 1, SeqCst);
                }
                if left == 1 {
                    REFUSED.store(true, SeqCst);
                    return std::ptr::null_mut();
                }
            }
            galloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !gfree(p, l) {
            System.dealloc(p, l)
        }
    }
}
