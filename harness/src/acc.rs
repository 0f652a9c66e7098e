//! Access recording (callbacks of the address-sanitizer instrumentation of the crate under test,
//! without its run-time) and controlled scheduling of the threads that execute calls.
#![allow(static_mut_refs)]
use crate::ga;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub static RECORD: AtomicBool = AtomicBool::new(false);
pub static SCHED: AtomicBool = AtomicBool::new(false);

thread_local! {
    /// 0: accesses of this thread count (it executes library code on behalf of a call)
    static IGN: Cell<u32> = const { Cell::new(1) };
    static LANE: Cell<usize> = const { Cell::new(usize::MAX) };
    static TID: Cell<u32> = const { Cell::new(0) };
    static LEAF: RefCell<Leaf> = const { RefCell::new(Leaf::new()) };
    static LISTS: RefCell<Vec<Vec<Item>>> = const { RefCell::new(Vec::new()) };
}
static NEXT_TID: AtomicUsize = AtomicUsize::new(1);
/// stacks of the threads that have executed library code
pub static STACKS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
fn tid() -> u32 {
    TID.with(|t| {
        if t.get() == 0 {
            t.set(NEXT_TID.fetch_add(1, SeqCst) as u32);
            no_guard(|| STACKS.lock().unwrap().push(crate::sys::my_stack()));
        }
        t.get()
    })
}

/// half-open byte ranges, kind 0 = read, 1 = write, 2 = read of scratch bytes nobody has written,
/// 3 = by an atomic operation (also in 0 or 1 or both)
pub struct Leaf {
    pub v: Vec<(usize, usize, u8)>,
    lim: usize,
}
impl Leaf {
    const fn new() -> Leaf {
        Leaf { v: Vec::new(), lim: 1 << 14 }
    }
    #[inline]
    fn add(&mut self, a: usize, n: usize, k: u8) {
        // extend one of the last few ranges if contiguous or contained
        let l = self.v.len();
        let lo = if l > 12 { l - 12 } else { 0 };
        for e in self.v[lo..].iter_mut().rev() {
            if e.2 == k {
                if a >= e.0 && a + n <= e.1 {
                    return;
                }
                if a == e.1 {
                    e.1 = a + n;
                    return;
                }
            }
        }
        self.v.push((a, a + n, k));
        if self.v.len() > self.lim {
            self.compact();
            self.lim = (self.v.len() * 2).max(1 << 14);
        }
    }
    pub fn compact(&mut self) {
        self.v.sort_by_key(|e| (e.2, e.0, e.1));
        let mut o: Vec<(usize, usize, u8)> = Vec::with_capacity(self.v.len());
        for &e in &self.v {
            if let Some(l) = o.last_mut() {
                if l.2 == e.2 && e.0 <= l.1 {
                    l.1 = l.1.max(e.1);
                    continue;
                }
            }
            o.push(e);
        }
        self.v = o;
    }
}
pub enum Item {
    Leaf(u32, Vec<(usize, usize, u8)>),
    /// parallel composition
    Par(Vec<Vec<Item>>),
}

fn shadow_access(a: usize, n: usize, wr: bool) -> bool {
    // returns true if a scratch byte is read that nobody has written
    let nb = ga::NBLOCKS.load(Acquire);
    unsafe {
        for b in ga::BLOCKS[..nb].iter() {
            if b.shadow != 0 && a >= b.ptr && a + n <= b.ptr + b.size && b.live {
                let s = (b.shadow + (a - b.ptr)) as *mut u8;
                if wr {
                    std::ptr::write_bytes(s, 1, n);
                } else {
                    for i in 0..n {
                        if *s.add(i) == 0 {
                            return true;
                        }
                    }
                }
                return false;
            }
        }
    }
    false
}

/// static data of this program, which threads may share
#[inline]
fn is_static(a: usize) -> bool {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    unsafe { a >= &__data_start as *const u8 as usize && a < &_end as *const u8 as usize }
}
/// half of the accesses to what threads may share are points to switch at
#[cold]
fn heat() {
    let mut x = COIN.load(Relaxed);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    COIN.store(x, Relaxed);
    if x >> 40 & 1 == 0 {
        NEXT.store(0, SeqCst);
    }
}

#[inline]
fn rec(a: usize, n: usize, wr: bool) {
    if !RECORD.load(Relaxed) && !SCHED.load(Relaxed) {
        return;
    }
    if IGN.with(|i| i.get()) != 0 || n == 0 {
        return;
    }
    if SCHED.load(Relaxed) {
        if HOT.load(Relaxed) && is_static(a) {
            heat();
        }
        tick();
    }
    if RECORD.load(Relaxed) {
        let saved = ga::IN_CALL.with(|c| c.replace(false));
        IGN.with(|i| i.set(1));
        let bad = shadow_access(a, n, wr);
        LEAF.with(|l| {
            let mut l = l.borrow_mut();
            l.add(a, n, wr as u8);
            if bad {
                l.add(a, n, 2)
            }
        });
        IGN.with(|i| i.set(0));
        ga::IN_CALL.with(|c| c.set(saved));
    }
}

#[cfg(feature = "acc")]
fn atomic(a: usize, n: usize, r: bool, w: bool) {
    if SCHED.load(Relaxed) && HOT.load(Relaxed) && !is_static(a) && IGN.with(|i| i.get()) == 0 {
        heat();
    }
    if r {
        rec(a, n, false)
    }
    if w {
        rec(a, n, true)
    }
    if RECORD.load(Relaxed) && IGN.with(|i| i.get()) == 0 {
        LEAF.with(|l| l.borrow_mut().add(a, n, 3))
    }
}

/// what the thread-sanitizer pass makes of atomic operations (it is applied to these only)
#[cfg(feature = "acc")]
mod atomics {
    use super::atomic;
    use std::sync::atomic::*;
    use std::sync::atomic::Ordering::SeqCst;
    macro_rules! at {
        ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
            #[no_mangle] pub unsafe extern "C" fn $load(p: *mut $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, false); (*(p as *const $a)).load(SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) { atomic(p as usize, std::mem::size_of::<$t>(), false, true); (*(p as *const $a)).store(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).swap(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).fetch_add(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).fetch_sub(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).fetch_and(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).fetch_or(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).fetch_xor(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, std::mem::size_of::<$t>(), true, true); (*(p as *const $a)).fetch_nand(v, SeqCst) }
            #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _o: i32, _f: i32) -> $t {
                atomic(p as usize, std::mem::size_of::<$t>(), true, true);
                match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
            }
        };
    }
    at!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub
        __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
    at!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub
        __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
    at!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub
        __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
    at!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub
        __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
        fence(SeqCst)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {
        compiler_fence(SeqCst)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_func_entry(_p: usize) {}
    #[no_mangle]
    pub unsafe extern "C" fn __tsan_func_exit() {}
}

macro_rules! cb {
    ($($l:ident $s:ident $n:expr;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $l(a: usize) { rec(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $s(a: usize) { rec(a, $n, true) }
    )* }
}
#[cfg(feature = "acc")]
mod callbacks {
    use super::rec;
    cb! {
        __asan_load1 __asan_store1 1; __asan_load2 __asan_store2 2; __asan_load4 __asan_store4 4;
        __asan_load8 __asan_store8 8; __asan_load16 __asan_store16 16;
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_loadN(a: usize, n: usize) {
        rec(a, n, false)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_storeN(a: usize, n: usize) {
        rec(a, n, true)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        rec(s as usize, n, false);
        rec(d as usize, n, true);
        std::ptr::copy_nonoverlapping(s, d, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        rec(s as usize, n, false);
        rec(d as usize, n, true);
        std::ptr::copy(s, d, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        rec(d as usize, n, true);
        std::ptr::write_bytes(d, c as u8, n);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn __asan_init() {}
    #[no_mangle]
    pub unsafe extern "C" fn __asan_version_mismatch_check_v8() {}
    #[no_mangle]
    pub unsafe extern "C" fn __asan_handle_no_return() {}
}

// ---------------------------------------------------------------- call windows of a caller
/// The calling thread starts to execute library code.
pub fn begin_window() {
    if !cfg!(feature = "acc") {
        return;
    }
    LISTS.with(|l| l.borrow_mut().push(Vec::new()));
    LEAF.with(|l| *l.borrow_mut() = Leaf::new());
    IGN.with(|i| i.set(0));
}
/// ... and is back: returns what it did.
pub fn end_window() -> Vec<Item> {
    if !cfg!(feature = "acc") {
        return Vec::new();
    }
    IGN.with(|i| i.set(1));
    flush();
    LISTS.with(|l| l.borrow_mut().pop().unwrap_or_default())
}
fn flush() {
    let mut lf = LEAF.with(|l| std::mem::replace(&mut *l.borrow_mut(), Leaf::new()));
    if !lf.v.is_empty() {
        lf.compact();
        let t = tid();
        LISTS.with(|l| {
            if let Some(top) = l.borrow_mut().last_mut() {
                top.push(Item::Leaf(t, lf.v))
            }
        });
    }
}

// ---------------------------------------------------------------- fork / join
struct Fork {
    parts: [Option<Vec<Item>>; 2],
    b_arrived: bool,
    b_done: bool,
    waiting: Option<usize>,
}
static FORKS: Mutex<Option<HashMap<u64, Fork>>> = Mutex::new(None);
static NEXT_FORK: AtomicU64 = AtomicU64::new(1);
/// parallel joins so far
pub static NFORKS: AtomicUsize = AtomicUsize::new(0);

fn no_guard<R>(f: impl FnOnce() -> R) -> R {
    let saved = ga::IN_CALL.with(|c| c.replace(false));
    let r = f();
    ga::IN_CALL.with(|c| c.set(saved));
    r
}

#[cfg(feature = "hooked")]
mod hooks {
    use super::*;
    thread_local! { static SAVED: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) }; }
    pub fn fork(parallel: bool) -> u64 {
        if !parallel {
            return 0;
        }
        NFORKS.fetch_add(1, SeqCst);
        IGN.with(|i| i.set(1));
        let s = ga::IN_CALL.with(|c| c.replace(false));
        SAVED.with(|v| v.borrow_mut().push(s));
        flush();
        let h = NEXT_FORK.fetch_add(1, SeqCst);
        FORKS.lock().unwrap().get_or_insert_with(HashMap::new).insert(
            h,
            Fork { parts: [None, None], b_arrived: false, b_done: false, waiting: None },
        );
        h
    }
    pub fn enter(h: u64, side: u8) {
        ga::IN_CALL.with(|c| c.set(false));
        LISTS.with(|l| l.borrow_mut().push(Vec::new()));
        LEAF.with(|l| *l.borrow_mut() = Leaf::new());
        if side == 1 {
            if let Some(f) = FORKS.lock().unwrap().as_mut().unwrap().get_mut(&h) {
                f.b_arrived = true
            }
            if SCHED.load(SeqCst) {
                let l = new_lane();
                LANE.with(|x| x.set(l));
                wait_turn(l);
            }
        } else if SCHED.load(SeqCst) {
            // let the sibling arrive, so that a schedule means the same in every run
            for _ in 0..(if CALLERS.load(SeqCst) > 1 { 25 } else { 400 }) {
                if FORKS.lock().unwrap().as_ref().unwrap().get(&h).map_or(true, |f| f.b_arrived) {
                    break;
                }
                std::thread::sleep(Duration::from_micros(20));
            }
        }
        IGN.with(|i| i.set(if cfg!(feature = "acc") { 0 } else { 1 }));
        // memory requested by a lane belongs to the call
        ga::IN_CALL.with(|c| c.set(super::GUARD_LANES.load(SeqCst)));
    }
    pub fn exit(h: u64, side: u8) {
        IGN.with(|i| i.set(1));
        ga::IN_CALL.with(|c| c.set(false));
        flush();
        let items = LISTS.with(|l| l.borrow_mut().pop().unwrap_or_default());
        let sched = SCHED.load(SeqCst);
        let me = LANE.with(|x| x.get());
        let mut wake = None;
        let mut block = false;
        {
            let mut g = FORKS.lock().unwrap();
            if let Some(f) = g.as_mut().unwrap().get_mut(&h) {
                f.parts[side as usize] = Some(items);
                if side == 1 {
                    f.b_done = true;
                    wake = f.waiting.take();
                } else if !f.b_done {
                    f.waiting = Some(me);
                    block = true;
                }
            }
        }
        if sched && me != usize::MAX {
            if side == 1 {
                lane_done(me, wake);
                LANE.with(|x| x.set(usize::MAX));
            } else if block {
                lane_block(me);
            }
        }
    }
    pub fn join(h: u64) {
        let f = FORKS.lock().unwrap().as_mut().unwrap().remove(&h);
        if SCHED.load(SeqCst) {
            let me = LANE.with(|x| x.get());
            if me != usize::MAX {
                wait_turn(me);
            }
        }
        if let Some(f) = f {
            let [a, b] = f.parts;
            LISTS.with(|l| {
                if let Some(top) = l.borrow_mut().last_mut() {
                    top.push(Item::Par(vec![a.unwrap_or_default(), b.unwrap_or_default()]))
                }
            });
        }
        let s = SAVED.with(|v| v.borrow_mut().pop().unwrap_or(false));
        ga::IN_CALL.with(|c| c.set(s));
        IGN.with(|i| i.set(if cfg!(feature = "acc") { 0 } else { 1 }));
    }
    pub static TABLE: thread_tree::hooks::Table = thread_tree::hooks::Table { fork, enter, exit, join };
}
pub static GUARD_LANES: AtomicBool = AtomicBool::new(true);

pub fn install() {
    #[cfg(feature = "hooked")]
    thread_tree::hooks::install(&hooks::TABLE);
}
pub fn spawned() -> usize {
    #[cfg(feature = "hooked")]
    return thread_tree::hooks::SPAWNED.load(SeqCst);
    #[cfg(not(feature = "hooked"))]
    0
}

// ---------------------------------------------------------------- scheduler
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}
struct Sched {
    lanes: Vec<St>,
    cur: usize,
    /// (at this many accesses of the whole run, switch to the n-th other ready lane)
    plan: Vec<(u64, usize)>,
    pos: usize,
    /// which ready lane continues when the current one ends or blocks: 0 = lowest, 1 = highest
    tail: usize,
    rnd: u64,
    mean: u64,
    last_step: u64,
    stall: u32,
    stalls: u32,
}
const FREE: usize = usize::MAX;
static S: Mutex<Sched> = Mutex::new(Sched {
    lanes: Vec::new(), cur: FREE, plan: Vec::new(), pos: 0, tail: 0, rnd: 0, mean: 0, last_step: 0, stall: 0, stalls: 0,
});
static CV: Condvar = Condvar::new();
static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
static HOT: AtomicBool = AtomicBool::new(false);
static COIN: AtomicU64 = AtomicU64::new(1);
/// how often the running lane was found waiting: in code with locks there are few switches in a session
static STALLS: AtomicU64 = AtomicU64::new(0);

pub enum Plan {
    Off,
    /// switch points, tail rule
    Points(Vec<(u64, usize)>, usize),
    /// seed, mean number of accesses between switches
    Random(u64, u64),
    /// the same, and often where threads may meet: atomic operations and static data
    Hot(u64, u64),
}

pub fn sched_start(p: &Plan) {
    if !cfg!(feature = "acc") {
        return;
    }
    let mut s = S.lock().unwrap();
    s.lanes.clear();
    s.cur = FREE;
    s.pos = 0;
    s.tail = 0;
    s.mean = 0;
    s.plan.clear();
    s.stall = 0;
    s.stalls = 0;
    HOT.store(false, SeqCst);
    STEP.store(0, SeqCst);
    CALLERS.store(0, SeqCst);
    SWITCHES.store(0, SeqCst);
    match p {
        Plan::Off => {
            SCHED.store(false, SeqCst);
            return;
        }
        Plan::Points(v, t) => {
            s.plan = v.clone();
            s.tail = *t;
            NEXT.store(v.first().map_or(u64::MAX, |x| x.0), SeqCst);
        }
        Plan::Random(seed, mean) | Plan::Hot(seed, mean) => {
            HOT.store(matches!(p, Plan::Hot(..)), SeqCst);
            COIN.store(*seed | 1, SeqCst);
            s.rnd = *seed ^ 0x9E3779B97F4A7C15;
            s.mean = (*mean).max(1);
            s.tail = 2;
            let d = next_gap(&mut s);
            NEXT.store(d, SeqCst);
        }
    }
    SCHED.store(true, SeqCst);
}
pub fn sched_stop() -> (u64, u64) {
    SCHED.store(false, SeqCst);
    CV.notify_all();
    (STEP.load(SeqCst), SWITCHES.load(SeqCst))
}
fn rnd(s: &mut Sched) -> u64 {
    s.rnd = s.rnd.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = s.rnd;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn next_gap(s: &mut Sched) -> u64 {
    let m = 2 * s.mean;
    1 + rnd(s) % m
}

/// callers registered since the schedule began
pub static CALLERS: AtomicUsize = AtomicUsize::new(0);
/// register the calling thread (a caller) as a lane; it does not run until `wait_turn`
pub fn register_caller() -> usize {
    CALLERS.fetch_add(1, SeqCst);
    let l = new_lane();
    LANE.with(|x| x.set(l));
    l
}
pub fn caller_wait(l: usize) {
    if SCHED.load(SeqCst) {
        wait_turn(l)
    }
}
pub fn caller_done(l: usize) {
    if SCHED.load(SeqCst) {
        lane_done(l, None)
    }
    LANE.with(|x| x.set(usize::MAX));
}
fn new_lane() -> usize {
    let mut s = S.lock().unwrap();
    s.lanes.push(St::Ready);
    s.lanes.len() - 1
}
fn wait_turn(me: usize) {
    let mut s = S.lock().unwrap();
    s.lanes[me] = St::Ready;
    loop {
        if !SCHED.load(SeqCst) {
            return;
        }
        if s.cur == FREE {
            s.cur = me;
        }
        if s.cur == me {
            s.stall = 0;
            return;
        }
        let (g, to) = CV.wait_timeout(s, Duration::from_millis(10)).unwrap();
        s = g;
        if to.timed_out() {
            let st = STEP.load(SeqCst);
            if st == s.last_step {
                s.stall += 1;
                if s.stall > 4 && s.cur != me {
                    // the running lane waits for something outside our control (a lock): go on without it
                    let all = STALLS.fetch_add(1, SeqCst);
                    s.stalls += 1;
                    if s.stalls >= if all < 60 { 3 } else { 1 } {
                        s.mean = 0;
                        s.plan.clear();
                        HOT.store(false, SeqCst);
                        NEXT.store(u64::MAX, SeqCst);
                    }
                    s.cur = me;
                    s.stall = 0;
                    return;
                }
            } else {
                s.last_step = st;
                s.stall = 0;
            }
        }
    }
}
fn pick(s: &mut Sched, not: usize) -> Option<usize> {
    let r: Vec<usize> = (0..s.lanes.len()).filter(|&i| i != not && s.lanes[i] == St::Ready).collect();
    if r.is_empty() {
        return None;
    }
    Some(match s.tail {
        0 => r[0],
        1 => r[r.len() - 1],
        _ => {
            let x = rnd(s) as usize;
            r[x % r.len()]
        }
    })
}
fn lane_done(me: usize, wake: Option<usize>) {
    let mut s = S.lock().unwrap();
    s.lanes[me] = St::Done;
    if let Some(w) = wake {
        if w != usize::MAX {
            s.lanes[w] = St::Ready
        }
    }
    if s.cur == me {
        s.cur = pick(&mut s, me).unwrap_or(FREE);
    }
    CV.notify_all();
}
fn lane_block(me: usize) {
    let mut s = S.lock().unwrap();
    s.lanes[me] = St::Blocked;
    if s.cur == me {
        s.cur = pick(&mut s, me).unwrap_or(FREE);
    }
    CV.notify_all();
}
#[inline]
fn tick() {
    let st = STEP.fetch_add(1, Relaxed) + 1;
    if st < NEXT.load(Relaxed) {
        return;
    }
    let me = LANE.with(|x| x.get());
    if me == usize::MAX {
        return;
    }
    no_guard(|| {
        IGN.with(|i| i.set(1));
        {
            let mut s = S.lock().unwrap();
            if s.cur == me || s.cur == FREE {
                let to;
                if s.mean > 0 {
                    let d = next_gap(&mut s);
                    NEXT.store(st + d, SeqCst);
                    to = pick(&mut s, me);
                } else {
                    let p = s.pos;
                    let n = if p < s.plan.len() { s.plan[p].1 } else { 0 };
                    s.pos += 1;
                    NEXT.store(if s.pos < s.plan.len() { s.plan[s.pos].0.max(st + 1) } else { u64::MAX }, SeqCst);
                    let r: Vec<usize> = (0..s.lanes.len()).filter(|&i| i != me && s.lanes[i] == St::Ready).collect();
                    to = if r.is_empty() { None } else { Some(r[n % r.len()]) };
                }
                if let Some(t) = to {
                    SWITCHES.fetch_add(1, SeqCst);
                    s.cur = t;
                    CV.notify_all();
                }
            }
        }
        wait_turn(me);
        IGN.with(|i| i.set(0));
    });
}
