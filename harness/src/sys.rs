//! The few system calls the driver needs, declared directly (no libc crate).
use std::ffi::c_void;
pub const PROT_NONE: i32 = 0;
pub const PROT_READ: i32 = 1;
pub const PROT_RW: i32 = 3;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    pub fn munmap(a: *mut c_void, l: usize) -> i32;
    pub fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    pub fn write(fd: i32, b: *const c_void, n: usize) -> isize;
    pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, a: *mut [u64; 16]) -> i32;
    fn pthread_attr_getstack(a: *const [u64; 16], p: *mut usize, n: *mut usize) -> i32;
    fn pthread_attr_destroy(a: *mut [u64; 16]) -> i32;
    pub fn memfd_create(name: *const u8, flags: u32) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, o: i64, w: i32) -> i64;
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn getcwd(b: *mut u8, n: usize) -> *mut u8;
    fn sched_getaffinity(p: i32, n: usize, m: *mut u64) -> i32;
    fn pthread_sigmask(how: i32, set: *const u64, old: *mut u64) -> i32;
    fn getpriority(which: i32, who: u32) -> i32;
    static environ: *const *const u8;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
}
#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
#[repr(C)]
pub struct StackT {
    pub sp: *mut c_void,
    pub flags: i32,
    pub size: usize,
}
pub const PAGE: usize = 4096;

/// An anonymous mapping of `len` bytes (rounded up to pages) with an inaccessible page on each
/// side. Returns (first accessible address, accessible length).
pub unsafe fn map_guarded(len: usize, noreserve: bool) -> (usize, usize) {
    let body = (len + PAGE - 1) / PAGE * PAGE;
    let body = if body == 0 { PAGE } else { body };
    let fl = MAP_PRIVATE | MAP_ANON | if noreserve { MAP_NORESERVE } else { 0 };
    let p = mmap(std::ptr::null_mut(), body + 2 * PAGE, PROT_NONE, fl, -1, 0);
    if p as isize == -1 {
        eprintln!("driver: mmap of {} bytes failed", body);
        _exit(70);
    }
    let a = p as usize + PAGE;
    if mprotect(a as *mut c_void, body, PROT_RW) != 0 {
        eprintln!("driver: mprotect failed");
        _exit(70);
    }
    (a, body)
}
pub unsafe fn unmap_guarded(a: usize, body: usize) {
    munmap((a - PAGE) as *mut c_void, body + 2 * PAGE);
}
pub unsafe fn protect(a: usize, body: usize, prot: i32) {
    mprotect(a as *mut c_void, body, prot);
}

/// seconds of processor time this process has used
pub fn cpu_seconds() -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as u64
}
/// the stack of this thread: first and last address
pub fn my_stack() -> (usize, usize) {
    let (mut a, mut p, mut n) = ([0u64; 16], 0usize, 0usize);
    unsafe {
        if pthread_getattr_np(pthread_self(), &mut a) != 0 {
            return (0, 0);
        }
        pthread_attr_getstack(&a, &mut p, &mut n);
        pthread_attr_destroy(&mut a);
    }
    (p, p + n)
}

/// what a call has to leave as it is, beside memory: [name, value] of this thread and of the process
pub fn world() -> Vec<(&'static str, u64)> {
    use std::arch::asm;
    let mut out = Vec::with_capacity(16);
    let mix = |h: &mut u64, v: u64| *h = (*h ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
    unsafe {
        let (mut mx, mut fe, fl) = (0u32, [0u32; 7], {
            let f: u64;
            asm!("pushfq", "pop {}", out(reg) f);
            f
        });
        asm!("stmxcsr [{}]", in(reg) &mut mx);
        asm!("fnstenv [{0}]", "fldenv [{0}]", in(reg) &mut fe);
        // rounding, flushing, masks; not what has happened so far
        out.push(("mxcsr", (mx & !0x3f) as u64));
        out.push(("x87", (fe[0] & 0xffff) as u64));
        out.push(("tags", (fe[2] & 0xffff) as u64));
        out.push(("direction", fl >> 10 & 1));
        out.push(("aligncheck", fl >> 18 & 1));
        let mut m = [0u64; 16];
        pthread_sigmask(0, std::ptr::null(), m.as_mut_ptr());
        out.push(("blocked", m[0]));
        let mut h = 7;
        for sig in 1..65 {
            let mut a = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
            if sigaction(sig, std::ptr::null(), &mut a) == 0 {
                mix(&mut h, a.handler as u64);
                mix(&mut h, a.flags as u64);
            }
        }
        out.push(("handlers", h));
        let mut m = [0u64; 128];
        sched_getaffinity(0, 1024, m.as_mut_ptr());
        let mut h = 7;
        m.iter().for_each(|x| mix(&mut h, *x));
        out.push(("processors", h));
        out.push(("priority", getpriority(0, 0) as u64 & 0xff));
        let mut h = 7;
        for fd in 0..64 {
            mix(&mut h, (fcntl(fd, 1) + 2) as u64);
        }
        out.push(("files", h));
        let mut b = [0u8; 4096];
        getcwd(b.as_mut_ptr(), 4096);
        let mut h = 7;
        b.iter().take_while(|x| **x != 0).for_each(|x| mix(&mut h, *x as u64));
        out.push(("directory", h));
        let mut h = 7;
        let mut e = environ;
        while !(*e).is_null() {
            let mut c = *e;
            while *c != 0 {
                mix(&mut h, *c as u64);
                c = c.add(1);
            }
            mix(&mut h, 0);
            e = e.add(1);
        }
        out.push(("environment", h));
        out.push(("stdout", lseek(1, 0, 1) as u64));
        out.push(("stderr", lseek(2, 0, 1) as u64));
    }
    out
}
/// output from now on goes where `world` sees how much it is
pub fn capture() {
    static DONE: std::sync::Once = std::sync::Once::new();
    DONE.call_once(|| unsafe {
        for fd in 1..3 {
            let m = memfd_create(b"out\0".as_ptr(), 1);
            if m >= 0 {
                dup2(m, fd);
            }
        }
    });
}
pub fn set_fp(mx: u32, cw: u16) {
    unsafe {
        std::arch::asm!("ldmxcsr [{}]", in(reg) &mx);
        std::arch::asm!("fldcw [{}]", in(reg) &cw);
    }
}
