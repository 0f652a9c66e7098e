//! Replays sessions (sequences of user actions: prepare memory, call the library, change memory,
//! call again, from one or several threads) on the real library and records what can be
//! observed, as one JSON object per line. It judges nothing: TLC does, from the specification.
#![allow(static_mut_refs)]
mod acc;
mod cpu;
mod ga;
mod sys;

use acc::Item;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

#[global_allocator]
static GA: ga::Ga = ga::Ga;

// sentinel integers for values that are not (small) integers
const NAN: i64 = 2000000001;
const PINF: i64 = 2000000002;
const NINF: i64 = 2000000003;
/// in a list of new contents: bit for bit what it was
const UNCH: i64 = 2000000005;
const OTHER: i64 = 2000000009;
const LIM: f64 = 1073741824.0;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Int,
    Rns(i64),
    Dig,
    /// results are compared through a projection: values of C are logged, memory is not
    Proj,
    /// operands with infinities and NaN
    Spec,
    /// any numbers; that many elements are recorded exactly, with what they come from
    Round(usize),
}

struct Region {
    id: usize,
    sz: usize,
    n: usize,
    map: usize,
    body: usize,
    ptr: usize,
    scale: i32,
    written: bool,
    rw: bool,
    shadow: Vec<u8>,
    virt: bool,
}
impl Region {
    unsafe fn get(&self, c: usize) -> f64 {
        if self.sz == 4 {
            *((self.ptr + 4 * c) as *const f32) as f64
        } else {
            *((self.ptr + 8 * c) as *const f64)
        }
    }
    unsafe fn set(&self, c: usize, v: f64) {
        if self.sz == 4 {
            *((self.ptr + 4 * c) as *mut f32) = v as f32
        } else {
            *((self.ptr + 8 * c) as *mut f64) = v
        }
    }
    unsafe fn bytes(&self) -> &[u8] {
        std::slice::from_raw_parts(self.map as *const u8, self.body)
    }
}

#[derive(Clone, Debug)]
struct Mat {
    r: i64,
    off: i64,
    rs: i64,
    cs: i64,
}
#[derive(Clone, Debug)]
struct Call {
    t: usize,
    ty: char,
    m: usize,
    k: usize,
    n: usize,
    al: [f64; 2],
    be: [f64; 2],
    a: Mat,
    b: Mat,
    c: Mat,
}
impl Call {
    fn w(&self) -> i64 {
        if self.ty == 'c' || self.ty == 'z' { 2 } else { 1 }
    }
}

static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static OUTFD: AtomicUsize = AtomicUsize::new(1);
static CUR: AtomicUsize = AtomicUsize::new(0);
static TICK: AtomicUsize = AtomicUsize::new(0);
static PANICKED: AtomicBool = AtomicBool::new(false);
static LASTPANIC: Mutex<String> = Mutex::new(String::new());

fn emit(s: &str) {
    let mut o = OUT.lock().unwrap();
    o.extend_from_slice(s.as_bytes());
    o.push(b'\n');
    if o.len() > 1 << 20 {
        flush_out(&mut o)
    }
}
fn flush_out(o: &mut Vec<u8>) {
    let mut p = 0;
    while p < o.len() {
        let n = unsafe { sys::write(OUTFD.load(Relaxed) as i32, o[p..].as_ptr() as _, o.len() - p) };
        if n <= 0 {
            unsafe { sys::_exit(71) }
        }
        p += n as usize;
    }
    o.clear();
}

// ------------------------------------------------------------------------------ values
fn mix(seed: u64, a: u64, b: u64, c: u64) -> u64 {
    let mut z = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(a.wrapping_mul(0xD1B54A32D192ED03))
        .wrapping_add(b.wrapping_mul(0xABC98388FB8FAC03))
        .wrapping_add(c.wrapping_mul(0x8CB92BA72F3D8DD7))
        .wrapping_add(0x2545F4914F6CDD1D);
    for _ in 0..2 {
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
    }
    z
}
fn pow2(e: i32) -> f64 {
    // exact for the whole range that is used
    let mut r = 1.0f64;
    let (b, n) = if e < 0 { (0.5, -e) } else { (2.0, e) };
    for _ in 0..n {
        r *= b
    }
    r
}
fn logval(x: f64, scale: i32, md: i64) -> i64 {
    if x.is_nan() {
        return NAN;
    }
    if x.is_infinite() {
        return if x > 0.0 { PINF } else { NINF };
    }
    if md != 0 {
        // the integer x 2^scale modulo md, however large it is
        let (m, q) = dyadic(x);
        if m == 0 {
            return 0;
        }
        if q + scale < 0 {
            return OTHER;
        }
        let mut r = m.rem_euclid(md);
        for _ in 0..q + scale {
            r = r * 2 % md;
        }
        return r;
    }
    // two steps, so that no scale overflows on its own
    let y = x * pow2(scale / 2) * pow2(scale - scale / 2);
    if y == y.trunc() && y.abs() <= LIM { y as i64 } else { OTHER }
}
/// finite x as m 2^q, m odd or zero
fn dyadic(x: f64) -> (i64, i32) {
    if x == 0.0 {
        return (0, 0);
    }
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let f = (b & ((1 << 52) - 1)) as i64;
    let (m, q) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    let z = m.trailing_zeros();
    (if x < 0.0 { -(m >> z) } else { m >> z }, q + z as i32)
}
/// exact numbers as digits: each the sum of d[x] 1024^(lo + x), the digits with the sign of the number
fn digits(v: &[f64]) -> (i32, Vec<Vec<i64>>) {
    let ds: Vec<(i64, i32)> = v.iter().map(|x| dyadic(*x)).collect();
    let lo = ds.iter().filter(|d| d.0 != 0).map(|d| d.1.div_euclid(10)).min().unwrap_or(0);
    let hi = ds.iter().filter(|d| d.0 != 0).map(|d| (d.1 + 64 - d.0.abs().leading_zeros() as i32 - 1).div_euclid(10)).max().unwrap_or(0);
    let mut out = vec![vec![0i64; v.len()]; (hi - lo + 1) as usize];
    for (i, &(m, q)) in ds.iter().enumerate() {
        if m == 0 {
            continue;
        }
        let mut z = (m.unsigned_abs() as u128) << (q.rem_euclid(10) as u32);
        let mut x = (q.div_euclid(10) - lo) as usize;
        while z != 0 {
            out[x][i] = (z % 1024) as i64 * m.signum();
            z /= 1024;
            x += 1;
        }
    }
    (lo, out)
}
fn number(v: f64) -> String {
    let (lo, d) = digits(&[v]);
    format!("{{\"lo\":{},\"s\":{:?}}}", lo, d.iter().map(|x| x[0]).collect::<Vec<_>>())
}
fn vector(v: &[f64]) -> String {
    let (lo, d) = digits(v);
    format!("{{\"lo\":{},\"s\":{:?}}}", lo, d)
}

/// integers (re, im, e): value = re * 2^-e
fn logscalar(v: [f64; 2], md: i64) -> (i64, i64, i32) {
    let mut e = 0;
    if v[0].is_finite() && v[1].is_finite() {
        if md != 0 {
            e = v.iter().filter(|x| **x != 0.0).map(|x| -dyadic(*x).1).fold(0, i32::max);
            return (logval(v[0], e, md), logval(v[1], e, md), e);
        }
        while e < 40 {
            let (x, y) = (v[0] * pow2(e), v[1] * pow2(e));
            if x == x.trunc() && y == y.trunc() {
                break;
            }
            e += 1;
        }
        // large powers of two: negative e
        let mut q = 0;
        let big = |q: i32| v[0].abs() * pow2(-q) > LIM || v[1].abs() * pow2(-q) > LIM;
        while big(q) {
            q += 1
        }
        e -= q;
    }
    (logval(v[0], e, md), logval(v[1], e, md), e)
}

// ------------------------------------------------------------------------------ session
struct Sess {
    id: usize,
    mode: Mode,
    regs: Vec<Region>,
    started: bool,
    plan: acc::Plan,
    rec: bool,
    alloc: bool,
    /// in digests of results, both zeros are the same
    zc: bool,
    noaccess: usize,
    key: usize,
    /// stack size of the threads of `par`
    stack: usize,
    /// 1, 2: the threads of `par` make their calls while they are being torn down
    tls: usize,
    /// record the instructions executed
    step: bool,
    /// record what a call has to leave as it is; with these settings of the floating-point units
    sys: bool,
    fp: Option<(u32, u16)>,
    /// the how-manieth request for memory of the next call is refused
    refuse: usize,
}

fn num<T: std::str::FromStr>(s: &str) -> T {
    s.parse().unwrap_or_else(|_| {
        eprintln!("driver: bad number {:?}", s);
        std::process::exit(64)
    })
}

impl Sess {
    fn fill(&mut self, t: &[&str]) {
        let r: usize = num(t[0]);
        let (off, rs, cs): (i64, i64, i64) = (num(t[1]), num(t[2]), num(t[3]));
        let (rows, cols, w): (usize, usize, usize) = (num(t[4]), num(t[5]), num(t[6]));
        let kind = t[7];
        let a = &t[8..];
        let g = &self.regs[r];
        let sc = |i: usize| -> f64 { num::<f64>(a[i]) };
        let u = |i: usize| -> u64 { num::<u64>(a[i]) };
        for i in 0..rows {
            for j in 0..cols {
                for q in 0..w {
                    let cell = off + w as i64 * (i as i64 * rs + j as i64 * cs) + q as i64;
                    if cell < 0 || cell as usize >= g.n {
                        eprintln!("driver: session {} fills outside region {}: cell {}", self.id, r, cell);
                        std::process::exit(64);
                    }
                    let rnd = |seed: u64| mix(seed, i as u64, j as u64, q as u64);
                    let range = |lo: f64, hi: f64, h: u64| lo + (h % ((hi - lo) as u64 + 1)) as f64;
                    let full = |h: u64| -> f64 {
                        let mant = (h >> 12) as f64 / (1u64 << 52) as f64;
                        let v = 0.5 + mant * 0.5;
                        let v = if self.regs[r].sz == 4 { v as f32 as f64 } else { v };
                        if h & 1 == 1 { -v } else { v }
                    };
                    let v = match kind {
                        "i" => range(sc(0), sc(1), rnd(u(2))),
                        // real only / imaginary only
                        "re" => if q == 0 { range(sc(0), sc(1), rnd(u(2))) } else { 0.0 },
                        "im" => if q == 1 { range(sc(0), sc(1), rnd(u(2))) } else { 0.0 },
                        "s" => {
                            let h = mix(u(3), i as u64, j as u64, 77);
                            if h % 1000 < u(0) { range(sc(1), sc(2), rnd(u(3))) } else { 0.0 }
                        }
                        "v" => num::<f64>(a[(i * cols + j) * w + q]),
                        "c" => sc(0),
                        "f" => full(rnd(u(0))),
                        // the same with the indices shifted: part of a larger matrix of values
                        "F" => full(mix(u(0), i as u64 + u(1), j as u64 + u(2), q as u64)),
                        "I" => range(sc(0), sc(1), mix(u(2), i as u64 + u(3), j as u64 + u(4), q as u64)),
                        "g" => {
                            let h = rnd(u(0));
                            full(h) * pow2(((h >> 3) % 41) as i32 - 20)
                        }
                        // all of the significand, exponents in a range
                        "e" => {
                            let h = rnd(u(2));
                            let (lo, hi): (i32, i32) = (num(a[0]), num(a[1]));
                            full(h) * pow2(lo + (mix(h, 1, 2, 3) % (hi - lo + 1) as u64) as i32)
                        }
                        // the same, all positive
                        "E" => {
                            let h = rnd(u(2));
                            let (lo, hi): (i32, i32) = (num(a[0]), num(a[1]));
                            full(h).abs() * pow2(lo + (mix(h, 1, 2, 3) % (hi - lo + 1) as u64) as i32)
                        }
                        // any values, also subnormal, huge and non-finite
                        "h" => {
                            let h = rnd(u(0));
                            if self.regs[r].sz == 4 { f32::from_bits(h as u32) as f64 } else { f64::from_bits(h) }
                        }
                        "b" => {
                            // integers of exactly `bits` bits
                            let h = rnd(u(1));
                            let bits = u(0);
                            let v = ((h >> 1) & ((1u64 << bits) - 1)) | (1u64 << (bits - 1));
                            if h & 1 == 1 { -(v as f64) } else { v as f64 }
                        }
                        "p" => range(sc(1), sc(2), rnd(u(3))) * pow2(num::<i32>(a[0])),
                        "x" => {
                            let h = mix(u(1), i as u64, j as u64, 100 + q as u64);
                            if h % 1000 < u(0) {
                                match (h >> 20) % 4 {
                                    0 | 1 => f64::NAN,
                                    2 => f64::INFINITY,
                                    _ => f64::NEG_INFINITY,
                                }
                            } else {
                                range(sc(2), sc(3), rnd(u(1)))
                            }
                        }
                        _ => {
                            eprintln!("driver: fill kind {}", kind);
                            std::process::exit(64)
                        }
                    };
                    unsafe { g.set(cell as usize, v) }
                }
            }
        }
    }

    fn region(&mut self, t: &[&str]) {
        // rid sz ncells flush(e|s) misalign scale canary [rw] [virt]
        let id: usize = num(t[0]);
        let sz: usize = num(t[1]);
        let n: usize = num(t[2]);
        let mis: usize = num(t[4]);
        let scale: i32 = num(t[5]);
        let can: f64 = num(t[6]);
        let virt = t.contains(&"virt");
        let rw = t.contains(&"rw");
        let (map, body) = unsafe { sys::map_guarded(n * sz + mis * sz, virt) };
        let ptr = if t[3] == "e" { map + body - n * sz - mis * sz } else { map + mis * sz };
        let g = Region { id, sz, n, map, body, ptr, scale, written: false, rw, shadow: Vec::new(), virt };
        unsafe {
            if !virt {
                std::ptr::write_bytes(map as *mut u8, 0xC3, body);
                for c in 0..n {
                    g.set(c, can)
                }
            }
        }
        assert!(id == self.regs.len(), "regions in order");
        self.regs.push(g);
    }

    fn md(&self) -> i64 {
        if let Mode::Rns(p) = self.mode { p } else { 0 }
    }

    fn vals(&self, r: &Region) -> String {
        let mut s = String::with_capacity(r.n * 3 + 2);
        s.push('[');
        for c in 0..r.n {
            if c > 0 {
                s.push(',')
            }
            let _ = write!(s, "{}", logval(unsafe { r.get(c) }, r.scale, self.md()));
        }
        s.push(']');
        s
    }

    fn snapshot(&mut self) {
        for r in self.regs.iter_mut() {
            if !r.virt {
                let b = unsafe { r.bytes() }.to_vec();
                r.shadow = b;
            }
        }
    }

    fn init_event(&mut self, what: &str) {
        self.snapshot();
        if self.mode == Mode::Dig || matches!(self.mode, Mode::Round(_)) {
            return;
        }
        let mut s = format!("{{\"e\":\"{}\",\"s\":{},\"mod\":{},\"proj\":{},\"key\":{},\"mem\":[", what, self.id, self.md(), match self.mode { Mode::Proj => 1, Mode::Spec => 2, _ => 0 }, self.key);
        for (i, r) in self.regs.iter().enumerate() {
            if i > 0 {
                s.push(',')
            }
            if r.virt {
                s.push_str("[]")
            } else {
                s.push_str(&self.vals(r));
            }
        }
        s.push_str("],\"sc\":[");
        for (i, r) in self.regs.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, r.scale);
        }
        s.push_str("]}");
        emit(&s);
    }

    /// which bytes changed since the last snapshot, as cell ranges per region
    fn changes(&mut self) -> String {
        let mut s = String::from("[");
        let mut first = true;
        let md = self.md();
        for ri in 0..self.regs.len() {
            let r = &self.regs[ri];
            if r.virt {
                continue;
            }
            let b = unsafe { r.bytes() };
            if b == &r.shadow[..] {
                continue;
            }
            let d = r.ptr - r.map;
            let mut slack = false;
            for x in (0..d).chain(d + r.n * r.sz..r.body) {
                if b[x] != r.shadow[x] {
                    slack = true
                }
            }
            let mut vs = String::with_capacity(r.n * 8);
            let mut n = 0;
            for c in 0..r.n {
                let x = d + c * r.sz;
                if c > 0 {
                    vs.push(',')
                }
                if b[x..x + r.sz] != r.shadow[x..x + r.sz] {
                    n += 1;
                    let _ = write!(vs, "{}", logval(unsafe { r.get(c) }, r.scale, md));
                } else {
                    let _ = write!(vs, "{}", UNCH);
                }
            }
            if !first {
                s.push(',')
            }
            first = false;
            let _ = write!(s, "{{\"r\":{},\"slack\":{},\"n\":{},\"v\":[{}", ri + 1, slack as u8, n, vs);
            s.push_str("]}");
            let nb = unsafe { r.bytes() }.to_vec();
            self.regs[ri].shadow = nb;
        }
        s.push(']');
        s
    }

    fn addr(&self, m: &Mat, sz: usize) -> usize {
        match m.r {
            -1 => 0,
            -2 => 64,
            -3 => self.noaccess + 64,
            r => self.regs[r as usize].ptr.wrapping_add((m.off * sz as i64) as usize),
        }
    }

    fn desc(&self, c: &Call) -> String {
        let md = self.md();
        let (a, b) = (logscalar(c.al, md), logscalar(c.be, md));
        // whether beta is the number zero is not visible in a residue
        let bz = (c.be[0] == 0.0 && c.be[1] == 0.0) as u8;
        // strides that do not fit the checker's integers belong to dimensions of length 1 or 0
        let cl = |x: i64| x.clamp(-(1 << 29), 1 << 29);
        let m = |m: &Mat| format!("[{},{},{},{}]", if m.r >= 0 { m.r + 1 } else { 0 }, cl(m.off), cl(m.rs), cl(m.cs));
        format!(
            "{{\"t\":{},\"ty\":\"{}\",\"w\":{},\"m\":{},\"k\":{},\"n\":{},\"al\":[{},{}],\"ae\":{},\"be\":[{},{}],\"bE\":{},\"bz\":{},\"A\":{},\"B\":{},\"C\":{}}}",
            c.t, c.ty, c.w(), c.m.min(1 << 30), c.k.min(1 << 30), c.n.min(1 << 30), a.0, a.1, a.2, b.0, b.1, b.2, bz, m(&c.a), m(&c.b), m(&c.c)
        )
    }

    /// the logical values of C, row by row
    fn cvals(&self, c: &Call) -> String {
        let mut s = String::from("[");
        if c.c.r >= 0 && c.n > 0 {
            let r = &self.regs[c.c.r as usize];
            let w = c.w();
            let mut first = true;
            for i in 0..c.m as i64 {
                for j in 0..c.n as i64 {
                    for q in 0..w {
                        let cell = c.c.off + w * (i * c.c.rs + j * c.c.cs) + q;
                        let _ = write!(s, "{}{}", if first { "" } else { "," }, logval(unsafe { r.get(cell as usize) }, r.scale, self.md()));
                        first = false;
                    }
                }
            }
        }
        s.push(']');
        s
    }

    fn hash_mat(&self, m: &Mat, rows: usize, cols: usize, w: i64, canon: bool) -> [u32; 2] {
        let mut h: u64 = 0xcbf29ce484222325;
        if m.r >= 0 && cols > 0 {
            let r = &self.regs[m.r as usize];
            for i in 0..rows as i64 {
                for j in 0..cols as i64 {
                    for q in 0..w {
                        let v = unsafe { r.get((m.off + w * (i * m.rs + j * m.cs) + q) as usize) };
                        let b = if v.is_nan() && canon { 0x7ff8 << 48 } else if v == 0.0 && canon && self.zc { 0 } else { v.to_bits() };
                        h = (h ^ b).wrapping_mul(0x100000001b3);
                        h ^= h >> 29;
                    }
                }
            }
        }
        h = mix(h, 1, 2, 3);
        [(h & 0x3fffffff) as u32, ((h >> 32) & 0x3fffffff) as u32]
    }

    /// everything a result may depend on, by value
    fn argkey(&self, c: &Call) -> String {
        let w = c.w();
        let sc = |v: [f64; 2]| {
            let z = mix(v[0].to_bits(), v[1].to_bits(), 5, 6);
            [(z & 0x3fffffff) as u32, ((z >> 32) & 0x3fffffff) as u32]
        };
        let bz = c.be[0] == 0.0 && c.be[1] == 0.0;
        let ha = self.hash_mat(&c.a, c.m, c.k, w, true);
        let hb = self.hash_mat(&c.b, c.k, c.n, w, true);
        let hc = if bz { [0, 0] } else { self.hash_mat(&c.c, c.m, c.n, w, true) };
        let be = if bz { [0, 0] } else { sc(c.be) };
        let al = sc(c.al);
        format!("[{},{},{},{},{:?},{:?},{:?},{:?},{:?}]", c.ty as u32, c.m.min(1 << 30), c.k.min(1 << 30), c.n.min(1 << 30), al, be, ha, hb, hc)
            .replace(' ', "")
    }

    fn invoke(&self, c: &Call) {
        let (m, k, n) = (c.m, c.k, c.n);
        let z = match c.ty { 's' => 4, 'd' => 8, 'c' => 4, _ => 8 };
        let (a, b, cc) = (self.addr(&c.a, z), self.addr(&c.b, z), self.addr(&c.c, z));
        let (rsa, csa) = (c.a.rs as isize, c.a.cs as isize);
        let (rsb, csb) = (c.b.rs as isize, c.b.cs as isize);
        let (rsc, csc) = (c.c.rs as isize, c.c.cs as isize);
        unsafe {
            match c.ty {
                's' => matrixmultiply::sgemm(m, k, n, c.al[0] as f32, a as _, rsa, csa, b as _, rsb, csb, c.be[0] as f32, cc as _, rsc, csc),
                'd' => matrixmultiply::dgemm(m, k, n, c.al[0], a as _, rsa, csa, b as _, rsb, csb, c.be[0], cc as _, rsc, csc),
                #[cfg(feature = "cgemm")]
                'c' => matrixmultiply::cgemm(
                    matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
                    m, k, n, [c.al[0] as f32, c.al[1] as f32], a as _, rsa, csa, b as _, rsb, csb,
                    [c.be[0] as f32, c.be[1] as f32], cc as _, rsc, csc),
                #[cfg(feature = "cgemm")]
                'z' => matrixmultiply::zgemm(
                    matrixmultiply::CGemmOption::Standard, matrixmultiply::CGemmOption::Standard,
                    m, k, n, c.al, a as _, rsa, csa, b as _, rsb, csb, c.be, cc as _, rsc, csc),
                _ => {
                    eprintln!("driver: type {} not in this build", c.ty);
                    std::process::exit(64)
                }
            }
        }
    }

    /// returns (panicked, what it accessed)
    fn exec(&self, c: &Call) -> (bool, Vec<Item>) {
        acc::begin_window();
        if let Some((mx, cw)) = self.fp {
            sys::set_fp(mx, cw)
        }
        let before = if self.sys { sys::world() } else { Vec::new() };
        ga::IN_CALL.with(|x| x.set(self.alloc));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if self.step {
                unsafe { cpu::step_on() }
                self.invoke(c);
                unsafe { cpu::step_off() }
            } else {
                self.invoke(c)
            }
        }));
        if self.step && r.is_err() {
            unsafe { cpu::step_off() }
        }
        ga::IN_CALL.with(|x| x.set(false));
        if self.sys {
            let after = sys::world();
            sys::set_fp(0x1f80, 0x37f);
            // values are numbered as they are met, so that what differs between runs alone does not show
            let mut seen = WORLDS.lock().unwrap();
            if seen.0 != self.id {
                *seen = (self.id, Vec::new());
            }
            let mut txt = |v: Vec<(&'static str, u64)>| v.iter().map(|x| {
                let same: Vec<u64> = seen.1.iter().filter(|y| y.0 == x.0).map(|y| y.1).collect();
                let i = same.iter().position(|y| *y == x.1).unwrap_or_else(|| { seen.1.push(*x); same.len() });
                format!("[\"{}\",{}]", x.0, i)
            }).collect::<Vec<_>>().join(",");
            let (b, a) = (txt(before), txt(after));
            emit(&format!("{{\"e\":\"sys\",\"s\":{},\"b\":[{}],\"a\":[{}]}}", self.id, b, a));
        }
        let it = acc::end_window();
        TICK.fetch_add(1, SeqCst);
        (r.is_err(), it)
    }

    fn protect(&self, on: bool) {
        for r in &self.regs {
            if !r.written && !r.rw && !r.virt {
                unsafe { sys::protect(r.map, r.body, if on { sys::PROT_READ } else { sys::PROT_RW }) }
            }
        }
    }

    fn scratch(&self, from: usize) -> String {
        // blocks handed out from index `from` on
        let n = ga::NBLOCKS.load(SeqCst);
        let (mut bytes, mut leak, mut bad, mut rz) = (0usize, 0, 0, 0);
        let mut sizes = String::new();
        for i in from..n {
            let b = unsafe { ga::BLOCKS[i] };
            bytes += b.size;
            leak += b.live as usize;
            bad += b.bad_layout as usize;
            rz += b.redzone as usize;
            let _ = write!(sizes, "{}[{},{}]", if i > from { "," } else { "" }, b.size, b.align);
        }
        format!("{{\"n\":{},\"bytes\":{},\"leak\":{},\"bad\":{},\"rz\":{},\"blk\":[{}]}}", n - from, bytes.min(2000000000), leak, bad, rz, sizes)
    }

    // ---- access trees
    fn classify(&self, v: &[(usize, usize, u8)], o: &mut String, shared: &[(usize, usize)]) {
        // objects: regions 1..; scratch blocks 100..; memory shared by threads 900
        let nb = ga::NBLOCKS.load(SeqCst);
        let mut objs: Vec<(usize, u8, Vec<[i64; 2]>)> = Vec::new();
        let mut put = |id: usize, k: u8, lo: i64, hi: i64| {
            if let Some(e) = objs.iter_mut().find(|e| e.0 == id && e.1 == k) {
                if let Some(l) = e.2.last_mut() {
                    if lo <= l[1] && lo >= l[0] {
                        l[1] = l[1].max(hi);
                        return;
                    }
                }
                e.2.push([lo, hi]);
            } else {
                objs.push((id, k, vec![[lo, hi]]));
            }
        };
        'next: for &(lo, hi, k) in v {
            if k > 2 {
                continue;
            }
            for r in &self.regs {
                let (x, y) = (r.map - sys::PAGE, r.map + r.body + sys::PAGE);
                if lo < y && hi > x {
                    // cells touched, also those (negative or past the end) outside the region
                    let s = r.sz as i64;
                    let a = (lo as i64 - r.ptr as i64).div_euclid(s);
                    let b = (hi as i64 - r.ptr as i64 + s - 1).div_euclid(s);
                    put(r.id + 1, k, a, b);
                    continue 'next;
                }
            }
            for i in 0..nb {
                let b = unsafe { ga::BLOCKS[i] };
                if lo < b.map + b.body + sys::PAGE && hi > b.map - sys::PAGE {
                    put(100 + i, k, (lo as i64 - b.ptr as i64).div_euclid(4), (hi as i64 - b.ptr as i64 + 3).div_euclid(4));
                    continue 'next;
                }
            }
            for (si, s) in shared.iter().enumerate() {
                if lo < s.1 && hi > s.0 {
                    let (a, b) = (lo.max(s.0) - s.0, hi.min(s.1) - s.0);
                    put(900 + si, k, a as i64, b as i64);
                }
            }
        }
        o.push('[');
        let mut f = true;
        for (id, k, iv) in objs {
            let _ = write!(o, "{}[{},{},{:?}]", if f { "" } else { "," }, id, k, iv);
            f = false;
        }
        o.push(']');
    }
    fn others(&self, items: &[Item], tid: &mut Vec<(u32, usize, usize, u8)>) {
        for it in items {
            match it {
                Item::Leaf(t, v) => {
                    for &(lo, hi, k) in v {
                        if k < 2 && !self.is_known(lo, hi) {
                            tid.push((*t, lo, hi, k))
                        }
                    }
                }
                Item::Par(ps) => ps.iter().for_each(|p| self.others(p, tid)),
            }
        }
    }
    fn is_known(&self, lo: usize, hi: usize) -> bool {
        for r in &self.regs {
            if lo < r.map + r.body + sys::PAGE && hi > r.map - sys::PAGE {
                return true;
            }
        }
        for i in 0..ga::NBLOCKS.load(SeqCst) {
            let b = unsafe { ga::BLOCKS[i] };
            if lo < b.map + b.body + sys::PAGE && hi > b.map - sys::PAGE {
                return true;
            }
        }
        false
    }
    /// byte ranges outside operands and scratch that two threads use and one writes
    fn shared(&self, roots: &[Vec<Item>]) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        roots.iter().for_each(|r| self.others(r, &mut v));
        let mut out: Vec<(usize, usize)> = Vec::new();
        let w: Vec<_> = v.iter().filter(|e| e.3 == 1).cloned().collect();
        let mut vs = v.clone();
        vs.sort_by_key(|e| e.1);
        for e in &w {
            for f in vs.iter() {
                if f.1 >= e.2 {
                    break;
                }
                if f.0 != e.0 && f.1 < e.2 && f.2 > e.1 {
                    out.push((e.1.max(f.1), e.2.min(f.2)))
                }
            }
        }
        out.sort();
        let mut m: Vec<(usize, usize)> = Vec::new();
        for e in out {
            match m.last_mut() {
                Some(l) if e.0 <= l.1 => l.1 = l.1.max(e.1),
                _ => m.push(e),
            }
        }
        m
    }
    /// whether atomic operations are made there
    fn atomic(&self, items: &[Item], lo: usize, hi: usize) -> bool {
        items.iter().any(|it| match it {
            Item::Leaf(_, v) => v.iter().any(|&(a, b, k)| k == 3 && a < hi && b > lo),
            Item::Par(ps) => ps.iter().any(|p| self.atomic(p, lo, hi)),
        })
    }
    fn tree(&self, items: &[Item], shared: &[(usize, usize)], lv: usize) {
        for it in items {
            match it {
                Item::Leaf(t, v) => {
                    let mut s = format!("{{\"e\":\"acc\",\"th\":{},\"o\":", t);
                    self.classify(v, &mut s, shared);
                    s.push('}');
                    emit(&s);
                }
                Item::Par(ps) => {
                    emit(&format!("{{\"e\":\"fork\",\"n\":{}}}", ps.len()));
                    for (i, p) in ps.iter().enumerate() {
                        if i > 0 {
                            emit("{\"e\":\"alt\"}")
                        }
                        self.tree(p, shared, lv + 1);
                    }
                    emit("{\"e\":\"join\"}");
                }
            }
        }
    }
    fn emit_tree(&self, calls: &[Call], roots: Vec<Vec<Item>>, steps: (u64, u64)) {
        let sh = self.shared(&roots);
        let nb = ga::NBLOCKS.load(SeqCst);
        let mut s = String::from("[");
        for (i, c) in calls.iter().enumerate() {
            let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, self.desc(c));
        }
        s.push(']');
        let mut bl = String::from("[");
        for i in 0..nb {
            let b = unsafe { ga::BLOCKS[i] };
            let _ = write!(bl, "{}[{},{}]", if i > 0 { "," } else { "" }, 100 + i, (b.size + 3) / 4);
        }
        bl.push(']');
        let mut rl = String::from("[");
        for (i, r) in self.regs.iter().enumerate() {
            let _ = write!(rl, "{}{}", if i > 0 { "," } else { "" }, r.n.min(1 << 30));
        }
        rl.push(']');
        let shs: Vec<usize> = sh.iter().map(|x| x.1 - x.0).collect();
        let ats: Vec<u8> = sh.iter().map(|x| roots.iter().any(|r| self.atomic(r, x.0, x.1)) as u8).collect();
        let stk: Vec<u8> = {
            let st = acc::STACKS.lock().unwrap();
            sh.iter().map(|x| st.iter().any(|y| x.0 >= y.0 && x.1 <= y.1) as u8).collect()
        };
        emit(&format!("{{\"e\":\"tree\",\"s\":{},\"calls\":{},\"len\":{},\"blocks\":{},\"shared\":{:?},\"atomic\":{:?},\"stack\":{:?},\"peak\":{},\"steps\":{},\"switches\":{}}}", self.id, s, rl, bl, shs, ats, stk, ga::PEAK.load(SeqCst).min(2000000000), steps.0.min(2000000000), steps.1.min(2000000000)));
        if roots.len() == 1 {
            self.tree(&roots[0], &sh, 0);
        } else {
            self.tree(&[Item::Par(roots)], &sh, 0);
        }
        emit("{\"e\":\"treeend\"}");
    }

    fn start(&mut self) {
        if !self.started {
            self.started = true;
            self.init_event("init");
        }
    }

    fn mark_written(&mut self, c: &Call) {
        if c.c.r >= 0 {
            self.regs[c.c.r as usize].written = true
        }
    }

    /// elements of C to be judged, with what they are made from
    fn round_before(&self, c: &Call, count: usize) -> Vec<(usize, usize, String)> {
        let all = c.m * c.n;
        let mut at: Vec<usize> = Vec::new();
        if all <= count {
            at.extend(0..all)
        } else {
            // the corners first
            at.extend([0, all - 1, c.n - 1, all - c.n]);
            let mut x = 0;
            while at.len() < count {
                at.push((mix(self.id as u64, x, 3, 4) % all as u64) as usize);
                x += 1;
            }
            at.sort();
            at.dedup();
        }
        let w = c.w();
        let el = |m: &Mat, i: usize, j: usize, q: i64| unsafe {
            self.regs[m.r as usize].get((m.off + w * (i as i64 * m.rs + j as i64 * m.cs) + q) as usize)
        };
        let bz = c.be == [0.0, 0.0];
        let parts = |f: &dyn Fn(i64) -> String| (0..w).map(f).collect::<Vec<_>>().join(",");
        at.iter().map(|&x| {
            let (i, j) = (x / c.n, x % c.n);
            let a = parts(&|q| vector(&(0..c.k).map(|p| el(&c.a, i, p, q)).collect::<Vec<_>>()));
            let b = parts(&|q| vector(&(0..c.k).map(|p| el(&c.b, p, j, q)).collect::<Vec<_>>()));
            let o = parts(&|q| number(if bz { 0.0 } else { el(&c.c, i, j, q) }));
            (i, j, format!("\"a\":[{}],\"b\":[{}],\"c\":[{}]", a, b, o))
        }).collect()
    }

    fn round_after(&self, c: &Call, items: Vec<(usize, usize, String)>) -> String {
        let w = c.w();
        let sc = |v: [f64; 2]| (0..w as usize).map(|q| number(v[q])).collect::<Vec<_>>().join(",");
        let its: Vec<String> = items.into_iter().map(|(i, j, t)| {
            let x: Vec<f64> = (0..w).map(|q| unsafe { self.regs[c.c.r as usize].get((c.c.off + w * (i as i64 * c.c.rs + j as i64 * c.c.cs) + q) as usize) }).collect();
            let fin = x.iter().all(|v| v.is_finite());
            format!("{{\"fin\":{},{},\"x\":[{}]}}", fin as u8, t, if fin { x.iter().map(|v| number(*v)).collect::<Vec<_>>().join(",") } else { String::new() })
        }).collect();
        format!("{{\"e\":\"round\",\"s\":{},\"c\":{{\"ty\":\"{}\",\"w\":{},\"m\":{},\"k\":{},\"n\":{},\"u\":{},\"al\":[{}],\"be\":[{}]}},\"it\":[{}]}}",
            self.id, c.ty, w, c.m, c.k, c.n, if self.regs[c.c.r as usize].sz == 4 { 24 } else { 53 }, sc(c.al), sc(c.be), its.join(","))
    }

    fn call(&mut self, c: Call) {
        self.start();
        let round = if let Mode::Round(n) = self.mode { self.round_before(&c, n) } else { Vec::new() };
        let from = ga::NBLOCKS.load(SeqCst);
        let key = if self.mode == Mode::Dig { self.argkey(&c) } else { String::new() };
        for r in self.regs.iter_mut() {
            r.written = false
        }
        self.mark_written(&c);
        self.protect(true);
        let f0 = acc::NFORKS.load(SeqCst);
        acc::RECORD.store(self.rec, SeqCst);
        acc::sched_start(&self.plan);
        let lane = if matches!(self.plan, acc::Plan::Off) { 0 } else { let l = acc::register_caller(); acc::caller_wait(l); l };
        if self.refuse > 0 {
            OOM.store(self as *mut Sess, SeqCst);
            *OOMCALL.lock().unwrap() = self.desc(&c);
            ga::REFUSED.store(false, SeqCst);
            ga::REFUSE.store(std::mem::take(&mut self.refuse), SeqCst);
        }
        let (p, items) = self.exec(&c);
        ga::REFUSE.store(0, SeqCst);
        OOM.store(std::ptr::null_mut(), SeqCst);
        if !matches!(self.plan, acc::Plan::Off) {
            acc::caller_done(lane)
        }
        let st = acc::sched_stop();
        acc::RECORD.store(false, SeqCst);
        self.protect(false);
        let f1 = acc::NFORKS.load(SeqCst);
        let d = self.desc(&c);
        if p {
            let msg: String = LASTPANIC.lock().unwrap().chars().filter(|c| c.is_ascii_alphanumeric() || " .:_/<>=".contains(*c)).take(150).collect();
            let ch = if self.mode == Mode::Dig || matches!(self.mode, Mode::Round(_)) { "[]".into() } else { self.changes() };
            emit(&format!("{{\"e\":\"panic\",\"s\":{},\"c\":{},\"post\":{},\"msg\":\"{}\"}}", self.id, d, ch, msg));
            return;
        }
        let sc = self.scratch(from);
        match self.mode {
            Mode::Dig => {
                let h = self.hash_mat(&c.c, c.m, c.n, c.w(), true);
                emit(&format!("{{\"e\":\"dig\",\"s\":{},\"t\":{},\"k\":{},\"d\":{:?}}}", self.id, c.t, key, h));
            }
            Mode::Round(_) => emit(&self.round_after(&c, round)),
            _ => {
                let ch = self.changes();
                emit(&format!("{{\"e\":\"call\",\"s\":{},\"c\":{},\"post\":{},\"scr\":{},\"fk\":{},\"steps\":{},\"sw\":{}}}", self.id, d, ch, sc, f1 - f0, st.0.min(2000000000), st.1.min(2000000000)));
            }
        }
        if self.step {
            let v = cpu::take();
            emit(&format!("{{\"e\":\"isa\",\"s\":{},\"ty\":\"{}\",\"has\":{:?},\"comp\":{:?},\"steps\":{},\"ops\":{:?}}}", self.id, c.ty, cpu::reported(), cpu::compiled(), cpu::STEPS.swap(0, SeqCst).min(2000000000), v));
        }
        if self.rec {
            self.emit_tree(&[c], vec![items], st);
        }
        unsafe { ga::reset() }
    }

    fn par(&mut self, calls: Vec<Call>) {
        self.start();
        let nt = calls.iter().map(|c| c.t + 1).max().unwrap_or(1);
        for r in self.regs.iter_mut() {
            r.written = false
        }
        for c in &calls {
            self.mark_written(c)
        }
        self.protect(true);
        acc::RECORD.store(self.rec, SeqCst);
        acc::sched_start(&self.plan);
        let sched = !matches!(self.plan, acc::Plan::Off);
        let f0 = acc::NFORKS.load(SeqCst);
        let from = ga::NBLOCKS.load(SeqCst);
        let bar = Barrier::new(nt);
        let roots: Mutex<Vec<(usize, Vec<Item>)>> = Mutex::new(Vec::new());
        let turn = AtomicUsize::new(0);
        {
            let me = &*self;
            let (bar, roots, calls, turn) = (&bar, &roots, &calls, &turn);
            // Mutex/Region pointers are plain addresses: share by reference
            struct P<'a>(&'a Sess);
            unsafe impl Send for P<'_> {}
            unsafe impl Sync for P<'_> {}
            impl<'a> P<'a> { fn get(&self) -> &'a Sess { self.0 } }
            std::thread::scope(|s| {
                for t in 0..nt {
                    let p = P(me);
                    let b = std::thread::Builder::new().stack_size(me.stack);
                    b.spawn_scoped(s, move || {
                        let me = p.get();
                        altstack();
                        // register in a fixed order
                        let mut lane = 0;
                        if sched {
                            while turn.load(SeqCst) != t { std::thread::yield_now() }
                            lane = acc::register_caller();
                            turn.fetch_add(1, SeqCst);
                        }
                        bar.wait();
                        if sched {
                            acc::caller_wait(lane)
                        }
                        let all = move || {
                            for c in calls.iter().filter(|c| c.t == t) {
                                let dig = me.mode == Mode::Dig;
                                // read-only operands: the key can be computed here; C is private to the call
                                let key = if dig { me.argkey(c) } else { String::new() };
                                emit_begin(me, c, dig);
                                let (p, items) = me.exec(c);
                                if p {
                                    emit(&format!("{{\"e\":\"panic\",\"s\":{},\"c\":{},\"post\":[],\"msg\":\"\"}}", me.id, me.desc(c)));
                                } else if dig {
                                    let h = me.hash_mat(&c.c, c.m, c.n, c.w(), true);
                                    emit(&format!("{{\"e\":\"dig\",\"s\":{},\"t\":{},\"k\":{},\"d\":{:?}}}", me.id, t, key, h));
                                } else {
                                    let cv = me.cvals(c);
                                    emit(&format!("{{\"e\":\"end\",\"s\":{},\"t\":{},\"cv\":{}}}", me.id, t, cv));
                                }
                                roots.lock().unwrap().push((t, items));
                            }
                        };
                        match me.tls {
                            0 => all(),
                            x => {
                                // what runs last in the thread: before or after the library set up anything for it
                                if x == 2 {
                                    warm()
                                }
                                let f: Box<dyn Fn() + '_> = Box::new(all);
                                // (the scope does not wait for destructors: the semaphore below does)
                                LAST.with(|l| *l.0.borrow_mut() = Some(unsafe { std::mem::transmute::<Box<dyn Fn() + '_>, Box<dyn Fn() + 'static>>(f) }));
                                if x == 1 {
                                    warm()
                                }
                                return;
                            }
                        }
                        if sched {
                            acc::caller_done(lane)
                        }
                    }).expect("thread");
                }
                if me.tls > 0 {
                    // the threads' closures borrow from here
                    while TORN.load(SeqCst) < nt { std::thread::yield_now() }
                    TORN.store(0, SeqCst);
                }
            });
        }
        let st = acc::sched_stop();
        acc::RECORD.store(false, SeqCst);
        self.protect(false);
        let f1 = acc::NFORKS.load(SeqCst);
        if self.mode != Mode::Dig {
            let ch = self.changes();
            let sc = self.scratch(from);
            emit(&format!("{{\"e\":\"sync\",\"s\":{},\"post\":{},\"scr\":{},\"fk\":{},\"steps\":{},\"sw\":{}}}", self.id, ch, sc, f1 - f0, st.0.min(2000000000), st.1.min(2000000000)));
        }
        if self.rec {
            let mut per: Vec<Vec<Item>> = (0..nt).map(|_| Vec::new()).collect();
            for (t, i) in roots.into_inner().unwrap() {
                per[t].extend(i)
            }
            self.emit_tree(&calls, per, st);
        }
        unsafe { ga::reset() }
    }
}

/// runs what it holds when its thread is torn down
struct AtEnd(std::cell::RefCell<Option<Box<dyn Fn()>>>);
impl Drop for AtEnd {
    fn drop(&mut self) {
        if let Some(f) = self.0.borrow_mut().take() {
            f();
            drop(f);
            TORN.fetch_add(1, SeqCst);
        }
    }
}
thread_local! {
    static LAST: AtEnd = AtEnd(std::cell::RefCell::new(None));
}
static TORN: AtomicUsize = AtomicUsize::new(0);

/// a call of no interest
fn warm() {
    let a = [1.0f64; 9];
    let mut c = [0.0f64; 9];
    unsafe { matrixmultiply::dgemm(3, 3, 3, 1.0, a.as_ptr(), 3, 1, a.as_ptr(), 3, 1, 0.0, c.as_mut_ptr(), 3, 1) };
}

fn emit_begin(me: &Sess, c: &Call, dig: bool) {
    if !dig {
        emit(&format!("{{\"e\":\"begin\",\"s\":{},\"t\":{},\"c\":{}}}", me.id, c.t, me.desc(c)));
    }
}

fn parse_call(t: &[&str]) -> Call {
    let mut p = 0;
    let mut nx = || {
        p += 1;
        t[p - 1]
    };
    let th = num(nx());
    let ty = nx().chars().next().unwrap();
    let (m, k, n) = (num(nx()), num(nx()), num(nx()));
    let al = [num(nx()), num(nx())];
    let be = [num(nx()), num(nx())];
    let mut mat = || Mat { r: num(nx()), off: num(nx()), rs: num(nx()), cs: num(nx()) };
    Call { t: th, ty, m, k, n, al, be, a: mat(), b: mat(), c: mat() }
}

// ------------------------------------------------------------------------------ faults
fn altstack() {
    unsafe {
        let (a, b) = sys::map_guarded(1 << 16, false);
        let s = sys::StackT { sp: a as *mut _, flags: 0, size: b };
        sys::sigaltstack(&s, std::ptr::null_mut());
    }
}
static REGMAP: Mutex<Vec<(usize, usize, usize, usize)>> = Mutex::new(Vec::new());

/// settings met in a session
static WORLDS: Mutex<(usize, Vec<(&'static str, u64)>)> = Mutex::new((0, Vec::new()));
/// the session with a call that is refused memory
static OOM: std::sync::atomic::AtomicPtr<Sess> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static OOMCALL: Mutex<String> = Mutex::new(String::new());

extern "C" fn on_fault(sig: i32, info: *const u8, uc: *const u8) {
    unsafe {
        if sig == 11 && cpu::cpuid_fault(uc.add(40) as *mut u64) {
            return;
        }
        let oom = OOM.swap(std::ptr::null_mut(), SeqCst);
        if sig == 6 && !oom.is_null() && ga::REFUSED.load(SeqCst) {
            // the process ends as it does when there is no memory: what has become of the user's?
            ga::IN_CALL.with(|x| x.set(false));
            let ch = (*oom).changes();
            let c = OOMCALL.try_lock().map(|c| c.clone()).unwrap_or_default();
            emit(&format!("{{\"e\":\"oom\",\"s\":{},\"c\":{},\"post\":{}}}", CUR.load(Relaxed), c, ch));
            flush_out(&mut OUT.lock().unwrap());
            sys::_exit(77)
        }
        let addr = *(info.add(16) as *const usize);
        let err = *((uc.add(40) as *const u64).add(19));
        let (mut r, mut cell) = (0usize, 0i64);
        if let Ok(g) = REGMAP.try_lock() {
            for (i, e) in g.iter().enumerate() {
                if addr + sys::PAGE >= e.0 && addr < e.0 + e.1 + sys::PAGE {
                    r = i + 1;
                    cell = (addr as i64 - e.2 as i64).div_euclid(e.3 as i64);
                }
            }
        }
        // another thread may be writing just now
        let mut lock = OUT.try_lock();
        for _ in 0..2000 {
            if lock.is_ok() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
            lock = OUT.try_lock();
        }
        if let Ok(mut o) = lock {
            let s = format!("{{\"e\":\"crash\",\"s\":{},\"sig\":{},\"r\":{},\"cell\":{},\"wr\":{}}}\n", CUR.load(Relaxed), sig, r, cell, if sig == 11 { (err >> 1) & 1 } else { 0 });
            o.extend_from_slice(s.as_bytes());
            flush_out(&mut o);
        }
        sys::_exit(77)
    }
}

fn install_faults() {
    unsafe {
        for sig in [4, 6, 7, 8, 11] {
            // SA_SIGINFO | SA_ONSTACK
            let a = sys::SigAction { handler: on_fault as usize, mask: [0; 16], flags: 4 | 0x08000000, restorer: 0 };
            sys::sigaction(sig, &a, std::ptr::null_mut());
        }
        let a = sys::SigAction { handler: cpu::on_step as usize, mask: [0; 16], flags: 4 | 0x08000000, restorer: 0 };
        sys::sigaction(5, &a, std::ptr::null_mut());
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: drv SESSIONS OUT [first-session-index] [limit-seconds]");
        std::process::exit(64);
    }
    let text = std::fs::read_to_string(&args[1]).expect("sessions");
    let first: usize = args.get(3).map_or(0, |s| num(s));
    let limit: u64 = args.get(4).map_or(60, |s| num(s));
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out");
    {
        use std::os::fd::IntoRawFd;
        OUTFD.store(out.into_raw_fd() as usize, SeqCst);
    }
    altstack();
    install_faults();
    if let Ok(v) = std::env::var("VP_CPU") {
        if !cpu::mask(&v) {
            eprintln!("driver: cannot change what cpuid says");
            std::process::exit(65)
        }
    }
    std::panic::set_hook(Box::new(|i| {
        PANICKED.store(true, SeqCst);
        let text = i.to_string();
        if text.contains("src/main.rs") || text.contains("src/acc.rs") || text.contains("src/ga.rs") {
            eprintln!("driver: {}", text);
        }
        let s = ga::IN_CALL.with(|c| c.replace(false));
        if let Ok(mut l) = LASTPANIC.lock() {
            *l = i.to_string().replace('\n', " ")
        }
        ga::IN_CALL.with(|c| c.set(s));
    }));
    acc::install();
    std::thread::spawn(move || {
        let mut last = (usize::MAX, 0);
        let mut since = std::time::Instant::now();
        let mut cpu = sys::cpu_seconds();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = (CUR.load(SeqCst), TICK.load(SeqCst));
            if now != last {
                last = now;
                since = std::time::Instant::now();
                cpu = sys::cpu_seconds();
            } else if since.elapsed().as_secs() >= limit {
                // slow, because the machine is busy? idle, or long at work without an end, is a hang
                let (wall, used) = (since.elapsed().as_secs(), sys::cpu_seconds() - cpu);
                if used > 2 && used < limit && wall < 5 * limit {
                    continue;
                }
                let mut o = OUT.lock().unwrap();
                o.extend_from_slice(format!("{{\"e\":\"hang\",\"s\":{}}}\n", now.0).as_bytes());
                flush_out(&mut o);
                unsafe { sys::_exit(78) }
            }
        }
    });
    // what is set up once per process is not part of any call
    if std::env::var("VP_NOWARM").is_err() {
        let _ = std::panic::catch_unwind(|| {
        let a = [1.0f32; 4];
        let mut c = [0.0f32; 4];
        unsafe { matrixmultiply::sgemm(2, 2, 2, 1.0, a.as_ptr(), 2, 1, a.as_ptr(), 2, 1, 0.0, c.as_mut_ptr(), 2, 1) };
        let a = [1.0f64; 4];
        let mut c = [0.0f64; 4];
        unsafe { matrixmultiply::dgemm(2, 2, 2, 1.0, a.as_ptr(), 2, 1, a.as_ptr(), 2, 1, 0.0, c.as_mut_ptr(), 2, 1) };
        });
    }
    let (na, _) = unsafe { sys::map_guarded(sys::PAGE, false) };
    unsafe { sys::protect(na, sys::PAGE, sys::PROT_NONE) };

    let mut cur: Option<Sess> = None;
    let mut par: Option<Vec<Call>> = None;
    let mut count = 0usize;
    let mut skip = false;
    for line in text.lines() {
        let t: Vec<&str> = line.split_ascii_whitespace().collect();
        if t.is_empty() || t[0] == "#" {
            continue;
        }
        if t[0] == "session" {
            skip = count < first;
            count += 1;
            if !skip {
                let id: usize = num(t[1]);
                let mode = match t[2] {
                    "int" => Mode::Int,
                    "dig" | "digv" => Mode::Dig,
                    "proj" => Mode::Proj,
                    "spec" => Mode::Spec,
                    "rns" => Mode::Rns(num(t[3])),
                    "round" => Mode::Round(num(t[3])),
                    x => {
                        eprintln!("driver: mode {}", x);
                        std::process::exit(64)
                    }
                };
                CUR.store(id, SeqCst);
                TICK.fetch_add(1, SeqCst);
                cur = Some(Sess { id, mode, regs: Vec::new(), started: false, plan: acc::Plan::Off, rec: false, alloc: true, zc: t[2] == "digv", noaccess: na, key: 0, stack: 1 << 21, tls: 0, step: false, sys: false, fp: None, refuse: 0 });
            }
            continue;
        }
        if skip {
            continue;
        }
        let s = cur.as_mut().unwrap();
        match t[0] {
            "key" => s.key = num(t[1]),
            "stack" => s.stack = num(t[1]),
            "step" => s.step = t[1] == "on",
            "sys" => {
                sys::capture();
                s.sys = t[1] == "on"
            }
            "fp" => s.fp = Some((num(t[1]), num(t[2]))),
            "refuse" => {
                s.refuse = num(t[1]);
                ga::REFUSE_ON.store(t.len() > 2, SeqCst)
            }
            "tls" => s.tls = num(t[1]),
            "region" => {
                s.region(&t[1..]);
                *REGMAP.lock().unwrap() = s.regs.iter().map(|r| (r.map, r.body, r.ptr, r.sz)).collect();
            }
            "fill" => s.fill(&t[1..]),
            // the user changed memory: log it
            "poked" => s.init_event("poke"),
            "alloc" => match t[1] {
                "off" => s.alloc = false,
                "start" => ga::AT_START.store(true, SeqCst),
                _ => {
                    s.alloc = true;
                    ga::AT_START.store(false, SeqCst)
                }
            },
            "rec" => s.rec = t[1] == "on",
            "sched" => {
                s.plan = match t[1] {
                    "off" => acc::Plan::Off,
                    "rnd" => acc::Plan::Random(num(t[2]), num(t[3])),
                    "hot" => acc::Plan::Hot(num(t[2]), num(t[3])),
                    // points TAIL step lane step lane ...
                    _ => {
                        let v: Vec<u64> = t[3..].iter().map(|x| num(x)).collect();
                        acc::Plan::Points(v.chunks(2).map(|c| (c[0], c[1] as usize)).collect(), num(t[2]))
                    }
                }
            }
            "call" => {
                let c = parse_call(&t[1..]);
                if let Some(p) = par.as_mut() {
                    p.push(c)
                } else {
                    s.call(c)
                }
            }
            // a call from a thread of its own (created for it and gone after it)
            "par" => par = Some(Vec::new()),
            "endpar" => {
                let p = par.take().unwrap();
                s.par(p)
            }
            "end" => {
                let s = cur.take().unwrap();
                for r in &s.regs {
                    unsafe { sys::unmap_guarded(r.map, r.body) }
                }
                REGMAP.lock().unwrap().clear();
                unsafe { ga::reset() };
                ga::AT_START.store(false, SeqCst);
                emit(&format!("{{\"e\":\"fin\",\"s\":{}}}", s.id));
            }
            x => {
                eprintln!("driver: {}", x);
                std::process::exit(64)
            }
        }
    }
    // threads beside this one and the watchdog (ones that have just ended may be visible for a moment)
    let mut tasks = usize::MAX;
    for _ in 0..25 {
        tasks = tasks.min(std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(2));
        if tasks <= 2 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let tasks = tasks - 2;
    emit(&format!("{{\"e\":\"done\",\"tasks\":{},\"spawned\":{}}}", tasks, acc::spawned()));
    let mut o = OUT.lock().unwrap();
    flush_out(&mut o);
    let _ = std::io::stdout().flush();
}
