//! A processor that reports fewer instruction sets than there are, and a record of the
//! instructions executed by a call (of this executable's own code, one by one).
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    static __executable_start: u8;
    static etext: u8;
}
const SYS_ARCH_PRCTL: i64 = 158;
const ARCH_SET_CPUID: i64 = 0x1012;

// registers in a signal context
pub const RBX: usize = 11;
pub const RDX: usize = 12;
pub const RAX: usize = 13;
pub const RCX: usize = 14;
pub const RIP: usize = 16;

static MASKED: AtomicBool = AtomicBool::new(false);
static SETS: AtomicUsize = AtomicUsize::new(0);
const AVX: usize = 1;
const AVX2: usize = 2;
const FMA: usize = 4;

/// from now on, cpuid says what `sets` says; false if that cannot be arranged here
pub fn mask(sets: &str) -> bool {
    let mut v = 0;
    for s in sets.split(',') {
        v |= match s {
            "avx" => AVX,
            "avx2" => AVX2,
            "fma" => FMA,
            _ => 0,
        }
    }
    SETS.store(v, SeqCst);
    MASKED.store(true, SeqCst);
    if unsafe { syscall(SYS_ARCH_PRCTL, ARCH_SET_CPUID, 0i64) } != 0 {
        MASKED.store(false, SeqCst);
        return false;
    }
    true
}

pub fn reported() -> Vec<&'static str> {
    let v = SETS.load(SeqCst);
    let mut r = vec!["sse2"];
    if !MASKED.load(SeqCst) {
        // this machine as it is
        macro_rules! f { ($($x:tt)*) => { $(if is_x86_feature_detected!($x) { r.push($x) })* } }
        f!("sse3" "ssse3" "sse4.1" "sse4.2" "popcnt" "avx" "avx2" "fma" "bmi1" "bmi2" "f16c" "lzcnt" "movbe" "avx512f" "adx");
        return r;
    }
    if v & AVX != 0 {
        r.extend(["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx"])
    }
    if v & AVX2 != 0 {
        r.push("avx2")
    }
    if v & FMA != 0 {
        r.push("fma")
    }
    r
}

pub fn compiled() -> Vec<&'static str> {
    let mut r = vec!["sse2"];
    macro_rules! f { ($($x:tt)*) => { $(if cfg!(target_feature = $x) { r.push($x) })* } }
    f!("sse3" "ssse3" "sse4.1" "sse4.2" "popcnt" "avx" "avx2" "fma" "bmi1" "bmi2" "f16c" "lzcnt" "movbe" "avx512f" "adx");
    r
}

/// a fault at a cpuid instruction: say what is to be said. g: the registers
pub unsafe fn cpuid_fault(g: *mut u64) -> bool {
    let ip = *g.add(RIP);
    if !MASKED.load(Relaxed) || !in_text(ip as usize) || *(ip as *const [u8; 2]) != [0x0f, 0xa2] {
        return false;
    }
    let (leaf, sub) = (*g.add(RAX) as u32, *g.add(RCX) as u32);
    syscall(SYS_ARCH_PRCTL, ARCH_SET_CPUID, 1i64);
    let mut r = core::arch::x86_64::__cpuid_count(leaf, sub);
    syscall(SYS_ARCH_PRCTL, ARCH_SET_CPUID, 0i64);
    let v = SETS.load(Relaxed);
    let bit = |x: u32| 1u32 << x;
    match leaf {
        1 => {
            let old = bit(0) | bit(9) | bit(19) | bit(20) | bit(23) | bit(26) | bit(27) | bit(28);
            let all = old | bit(1) | bit(12) | bit(22) | bit(25) | bit(29) | bit(30);
            let mut keep = !all;
            if v & AVX != 0 {
                keep |= old
            }
            if v & FMA != 0 {
                keep |= bit(12)
            }
            r.ecx &= keep;
        }
        7 => {
            r.eax = 0;
            r.ebx &= if v & AVX2 != 0 && sub == 0 { bit(5) } else { 0 };
            r.ecx = 0;
            r.edx = 0;
        }
        0x80000001 => r.ecx &= 1,
        0x14 | 0x19 | 0x1d | 0x1e | 0x24 => {
            r.eax = 0;
            r.ebx = 0;
            r.ecx = 0;
            r.edx = 0;
        }
        _ => {}
    }
    *g.add(RAX) = r.eax as u64;
    *g.add(RBX) = r.ebx as u64;
    *g.add(RCX) = r.ecx as u64;
    *g.add(RDX) = r.edx as u64;
    *g.add(RIP) = ip + 2;
    true
}

// ---- the instructions of a call
const MAXTEXT: usize = 1 << 25;
static mut SEEN: [u8; MAXTEXT / 8] = [0; MAXTEXT / 8];
pub static STEPS: AtomicUsize = AtomicUsize::new(0);

fn text() -> (usize, usize) {
    unsafe { (&raw const __executable_start as usize, &raw const etext as usize) }
}
fn in_text(ip: usize) -> bool {
    let (a, b) = text();
    ip >= a && ip < b
}

pub unsafe extern "C" fn on_step(_sig: i32, _info: *const u8, uc: *const u8) {
    let ip = *(uc.add(40) as *const u64).add(RIP) as usize;
    STEPS.fetch_add(1, Relaxed);
    if in_text(ip) {
        let o = ip - text().0;
        if o < MAXTEXT {
            SEEN[o / 8] |= 1 << (o % 8)
        }
    }
}

#[inline(always)]
pub unsafe fn step_on() {
    core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[inline(always)]
pub unsafe fn step_off() {
    core::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq");
}

/// the distinct encodings among the instructions seen since the last time:
/// [kind (0 legacy, 1 vex, 2 evex, 3 xop), map, mandatory prefix, opcode, vector length, register operand, reg field]
pub fn take() -> Vec<[u8; 7]> {
    let (base, _) = text();
    let mut out: Vec<[u8; 7]> = Vec::new();
    for i in 0..MAXTEXT / 8 {
        let b = unsafe { SEEN[i] };
        if b == 0 {
            continue;
        }
        unsafe { SEEN[i] = 0 }
        for j in 0..8 {
            if b >> j & 1 == 1 {
                let e = decode((base + i * 8 + j) as *const u8);
                if !out.contains(&e) {
                    out.push(e)
                }
            }
        }
    }
    out.sort();
    out
}

fn decode(p: *const u8) -> [u8; 7] {
    let at = |i: usize| unsafe { *p.add(i) };
    let mut i = 0;
    let mut pp = 0u8;
    loop {
        match at(i) {
            0x66 => if pp == 0 { pp = 1 },
            0xf3 => pp = 2,
            0xf2 => pp = 3,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        i += 1;
    }
    // (the reg field is part of the opcode for a few groups only)
    let rm = |x: u8| ((x >> 6 == 3) as u8, (x >> 3) & 7);
    let grp = |o: u8, r: u8| if matches!(o, 0x01 | 0xae | 0xc7) { r } else { 0 };
    match at(i) {
        0xc5 => {
            let b = at(i + 1);
            let (m3, reg) = rm(at(i + 3));
            return [1, 1, b & 3, at(i + 2), (b >> 2) & 1, m3, grp(at(i + 2), reg)];
        }
        0xc4 => {
            let (b, c) = (at(i + 1), at(i + 2));
            let (m3, reg) = rm(at(i + 4));
            return [1, b & 31, c & 3, at(i + 3), (c >> 2) & 1, m3, grp(at(i + 3), reg)];
        }
        0x62 => {
            let (b, c, d) = (at(i + 1), at(i + 2), at(i + 3));
            let (m3, reg) = rm(at(i + 5));
            return [2, b & 7, c & 3, at(i + 4), (d >> 5) & 3, m3, grp(at(i + 4), reg)];
        }
        0x8f if at(i + 1) & 31 >= 8 => {
            let (b, c) = (at(i + 1), at(i + 2));
            let (m3, reg) = rm(at(i + 4));
            return [3, b & 31, c & 3, at(i + 3), (c >> 2) & 1, m3, grp(at(i + 3), reg)];
        }
        _ => {}
    }
    if at(i) & 0xf0 == 0x40 {
        i += 1
    }
    if at(i) != 0x0f {
        // general instructions: all the same here
        return [0, 0, 0, 0, 0, 0, 0];
    }
    let (map, o) = match at(i + 1) {
        0x38 => (2, i + 2),
        0x3a => (3, i + 2),
        _ => (1, i + 1),
    };
    let (m3, reg) = rm(at(o + 1));
    if map == 1 && matches!(at(o), 0x40..=0x4f | 0x80..=0x8f | 0x90..=0x9f) {
        // conditional moves, jumps and sets
        return [0, 0, 0, 0, 0, 0, 0];
    }
    [0, map, pp, at(o), 0, m3, grp(at(o), reg)]
}
