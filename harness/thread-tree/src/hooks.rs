//! Observation and scheduling hooks (verification copy of thread-tree only).
//! With no table installed every hook is a no-op and the pool behaves as published.
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};
use std::ptr::null_mut;

pub struct Table {
    /// called by the thread that calls `join`, before the jobs exist; returns a handle
    pub fork: fn(parallel: bool) -> u64,
    pub enter: fn(handle: u64, side: u8),
    pub exit: fn(handle: u64, side: u8),
    /// called by the forking thread after both jobs are complete
    pub join: fn(handle: u64),
}

static TABLE: AtomicPtr<Table> = AtomicPtr::new(null_mut());
/// number of worker threads ever created by all pools of the process
pub static SPAWNED: AtomicUsize = AtomicUsize::new(0);

pub fn install(t: &'static Table) { TABLE.store(t as *const Table as *mut Table, Ordering::SeqCst) }

#[inline(never)]
fn table() -> Option<&'static Table> { unsafe { TABLE.load(Ordering::Acquire).as_ref() } }

#[inline(never)]
pub(crate) fn spawned() { SPAWNED.fetch_add(1, Ordering::SeqCst); }

#[inline(never)]
pub fn fork(parallel: bool) -> u64 { match table() { Some(t) => (t.fork)(parallel), None => 0 } }

pub struct Guard(u64, u8);

#[inline(never)]
pub fn enter(h: u64, side: u8) -> Guard {
    if h != 0 { if let Some(t) = table() { (t.enter)(h, side) } }
    Guard(h, side)
}

impl Drop for Guard {
    #[inline(never)]
    fn drop(&mut self) {
        if self.0 != 0 { if let Some(t) = table() { (t.exit)(self.0, self.1) } }
    }
}

#[inline(never)]
pub fn join(h: u64) { if h != 0 { if let Some(t) = table() { (t.join)(h) } } }
