"""Session generators. They choose inputs only; what must happen is decided by the specification.
Everything is drawn from the seed given."""
import math, struct
import random

SZ = {"s": 4, "d": 8, "c": 4, "z": 8}
W = {"s": 1, "d": 1, "c": 2, "z": 2}
TYPES = "sdcz"


class Sess:
    def __init__(self, sid, mode="int"):
        self.l = ["session %d %s" % (sid, mode)]
        self.nreg = 0
        self.macs = 0
        self.tags = set()

    def region(self, sz, n, flush="e", mis=0, scale=0, canary="NaN", opts=""):
        self.l.append("region %d %d %d %s %d %d %s %s" % (self.nreg, sz, n, flush, mis, scale, canary, opts))
        self.nreg += 1
        return self.nreg - 1

    def fill(self, v, rows, cols, w, kind):
        self.l.append("fill %d %d %d %d %d %d %d %s" % (v[0], v[1], v[2], v[3], rows, cols, w, kind))

    def call(self, ty, m, k, n, al, be, A, B, C, t=0):
        f = lambda z: "%r %r" % z if isinstance(z, tuple) else "%r 0" % z
        self.l.append("call %d %s %d %d %d %s %s %d %d %d %d %d %d %d %d %d %d %d %d" % (
            (t, ty, m, k, n, f(al), f(be)) + tuple(A) + tuple(B) + tuple(C)))
        self.macs += m * k * n * (4 if W[ty] == 2 else 1)

    def add(self, s):
        self.l.append(s)

    def text(self):
        return "\n".join(self.l) + "\nend\n"


# ------------------------------------------------------------------ layouts
LAY_C = ["row", "col", "rowpad", "colpad", "gen", "gencol", "negr", "negc", "negb", "negcolr", "half", "rowpad1"]
LAY_AB = LAY_C + ["zr", "zc", "zz", "hankel", "diag", "toep", "band", "bandc"]


def layout(rng, rows, cols, kind):
    """strides (rs, cs) in elements"""
    r, c = max(rows, 1), max(cols, 1)
    p = rng.choice([1, 2, 3, 5, 8])
    if kind == "row":
        return c, 1
    if kind == "col":
        return 1, r
    if kind == "rowpad":
        return c + p, 1
    if kind == "rowpad1":
        return c + 1, 1
    if kind == "colpad":
        return 1, r + p
    if kind == "gen":
        q = rng.choice([2, 3])
        return q * c + p - 1, q
    if kind == "half":
        return 2 * c, 2
    if kind == "gencol":
        q = rng.choice([2, 3])
        return q, q * r + p - 1
    if kind == "negr":
        return -(c + p - 1), 1
    if kind == "negc":
        return c + p - 1, -1
    if kind == "negb":
        return -(c + p - 1), -1
    if kind == "negcolr":
        return -1, r + p - 1
    if kind == "zr":
        return 0, rng.choice([1, 1, 2, 3, -1, -2, -3, 7])
    if kind == "zc":
        return rng.choice([1, 1, 2, 3, -1, -2, -3, 7]), 0
    if kind == "zz":
        return 0, 0
    if kind == "hankel":
        q = rng.choice([1, 1, 2, 3, -1, -2])
        return q, q
    if kind == "toep":
        q = rng.choice([1, 1, 2, 3, -1, -2])
        return q, -q
    if kind == "band":
        q = rng.choice([1, 2, 3, -1, -2])
        return q * rng.choice([2, 3, -2]), q
    if kind == "bandc":
        q = rng.choice([1, 2, 3, -1, -2])
        return q, q * rng.choice([2, 3, -2])
    if kind == "diag":
        return rng.choice([1, 2]), rng.choice([-1, 2, 3])
    raise ValueError(kind)


def span(rows, cols, rs, cs):
    """(lowest, highest) element offset relative to element 0,0"""
    xs = [0]
    if rows and cols:
        xs = [0, (rows - 1) * rs, (cols - 1) * cs, (rows - 1) * rs + (cols - 1) * cs]
    return min(xs), max(xs)


def place(s, rng, ty, rows, cols, kind, fill, scale=0, canary="NaN", flush=None, mis=None, lead=None, trail=None, opts="",
          strides=None, frows=None, fcols=None):
    """a region of its own holding one matrix; returns the view"""
    w = W[ty]
    rs, cs = strides or layout(rng, rows, cols, kind)
    lo, hi = span(rows, cols, rs, cs)
    lead = rng.choice([0, 0, 1, 3, 7]) if lead is None else lead
    trail = rng.choice([0, 0, 0, 2, 5]) if trail is None else trail
    n = w * (hi - lo + 1 + lead + trail)
    if rows == 0 or cols == 0:
        n = w * (lead + trail)
    flush = flush or rng.choice("ees")
    mis = rng.choice([0, 0, 0, 1, 2, 3, 5]) if mis is None else mis
    r = s.region(SZ[ty], n, flush, mis, scale, canary, opts)
    v = (r, w * (lead - lo), rs, cs)
    if fill and rows and cols:
        # an element that several indices share is filled once
        fr = rows if frows is None else frows
        fc = cols if fcols is None else fcols
        s.fill(v, fr, fc, w, fill)
    return v


# ------------------------------------------------------------------ scalars
REAL_AB = [1.0, 1.0, -1.0, 2.0, 3.0, -2.0, 0.0, -0.0, 0.5, -0.25, 4.0]
CPLX = [(1.0, 0.0), (1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (2.0, 1.0), (1.0, -2.0), (0.0, 0.0), (-0.0, 0.0), (0.0, -0.0),
        (0.5, 0.0), (0.0, 0.5), (3.0, -1.0), (-2.0, -3.0), (0.5, -0.25), (0.0, 2.0), (2.0, 0.0), (1.0, -1.0), (-2.0, 2.0), (1.0, 1.0), (-0.5, 0.5)]


def scal(rng, ty):
    return rng.choice(REAL_AB) if W[ty] == 1 else rng.choice(CPLX)


def iszero(z):
    return z[0] == 0 and z[1] == 0 if isinstance(z, tuple) else z == 0


def frac(z):
    zz = z if isinstance(z, tuple) else (z,)
    e = 0
    while any(x * 2 ** e != int(x * 2 ** e) for x in zz):
        e += 1
    return e


def gemm_call(s, rng, ty, m, k, n, al=None, be=None, la=None, lb=None, lc=None, rngv=8, c0=None, reg=None, fillA=None, fillB=None,
              alias=None, **kw):
    """one call with everything of its own; C's old content is integers, or junk if beta is zero"""
    al = scal(rng, ty) if al is None else al
    be = scal(rng, ty) if be is None else be
    la = la or rng.choice(LAY_AB)
    lb = lb or rng.choice(LAY_AB)
    lc = lc or rng.choice(LAY_C)
    seed = rng.randrange(1 << 30)
    sc = max(frac(al), frac(be))
    A = place(s, rng, ty, m, k, la, fillA or "i %d %d %d" % (-rngv, rngv, seed))
    if alias == "t":
        B = (A[0], A[1], A[3], A[2])
    elif alias == "same":
        B = A
    else:
        B = place(s, rng, ty, k, n, lb, fillB or "i %d %d %d" % (-rngv, rngv, seed + 1))
    if c0 is None:
        c0 = "c NaN" if iszero(be) and rng.random() < 0.7 else "i %d %d %d" % (-rngv, rngv, seed + 2)
    # strides of C that are never used may be anything
    st = None
    if m == 1 and n > 1 and rng.random() < 0.4:
        st = (rng.choice([0, 1, -5, 1 << 40]), rng.choice([1, 2, -1, 3] if n < 3000 else [1, -1]))
    if n == 1 and m > 1 and rng.random() < 0.4:
        st = (rng.choice([1, 2, -1, 3] if m < 3000 else [1, -1]), rng.choice([0, 1, -5, 1 << 40]))
    if m == 1 and n == 1 and rng.random() < 0.4:
        st = (rng.choice([0, 1, -7]), rng.choice([0, 1, -7]))
    if st:
        used = (st[0] if m > 1 else 0, st[1] if n > 1 else 0)
        lo, hi = span(m, n, *used)
        lead, trail = rng.choice([0, 2]), rng.choice([0, 3])
        w = W[ty]
        r = s.region(SZ[ty], w * (hi - lo + 1 + lead + trail), rng.choice("es"), rng.choice([0, 1]), sc)
        C = (r, w * (lead - lo), st[0], st[1])
        s.fill((r, C[1], used[0], used[1]), m, n, w, c0)
    else:
        C = place(s, rng, ty, m, n, lc, c0, scale=sc)
    s.call(ty, m, k, n, al, be, A, B, C)
    return A, B, C, al, be, seed


def dim(rng, hi=20):
    r = rng.random()
    if r < 0.25:
        return rng.choice([1, 1, 2, 3])
    if r < 0.6:
        return rng.choice([x for x in (3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 19, 20, 21, 23, 24, 25, 27, 28, 29, 31, 32, 33) if x <= hi])
    return rng.randint(1, hi)


KS = [63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 260, 261, 263, 264, 511, 512, 513, 515, 767, 769, 1023, 1025]
MS = [31, 32, 33, 36, 40, 63, 64, 65, 66, 68, 71, 72, 73, 95, 96, 97, 127, 128, 129, 130, 137, 191, 193]
NS = [255, 257, 511, 512, 513, 514, 516, 517, 1023, 1024, 1025, 1026, 1028, 1029, 1032, 1033, 1537, 2049]


class Ids:
    def __init__(self, base=1):
        self.n = base

    def __call__(self):
        self.n += 1
        return self.n - 1


def fam_small(rng, ids, count, types=TYPES, **kw):
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        hi = rng.choice([8, 13, 20, 33])
        m, k, n = dim(rng, hi), dim(rng, hi), dim(rng, hi)
        if rng.random() < 0.08:
            m, k, n = rng.choice([(m, 0, n), (m, 0, n), (m, 0, n), (0, k, n), (m, k, 0)])
        alias = None
        if rng.random() < 0.08:
            # a matrix with itself or its own transpose
            n = m
            alias = "t"
            if rng.random() < 0.4:
                k = m
                alias = rng.choice(["t", "same"])
        gemm_call(s, rng, ty, m, k, n, alias=alias, **kw)
        if rng.random() < 0.3:
            s.l.insert(1, "alloc start")
        out.append(s)
    return out


def fam_edges(rng, ids, count, types=TYPES, cap=120000, **kw):
    """one dimension around a block boundary, the others small"""
    out = []
    while len(out) < count:
        s = Sess(ids())
        ty = rng.choice(types)
        which = rng.choice("mkn")
        m, k, n = dim(rng, 13), dim(rng, 9), dim(rng, 13)
        if which == "m":
            m = rng.choice(MS)
        elif which == "k":
            k = rng.choice(KS)
        else:
            n = rng.choice(NS)
            m = min(m, 9)
        f = 4 if W[ty] == 2 else 1
        while m * k * n * f > cap:
            if which != "m" and m > 1:
                m = (m + 1) // 2
            elif which != "n" and n > 1:
                n = (n + 1) // 2
            elif which != "k" and k > 1:
                k = (k + 1) // 2
            else:
                break
        gemm_call(s, rng, ty, m, k, n, rngv=kw.get("rngv", 6), **{x: y for x, y in kw.items() if x != "rngv"})
        out.append(s)
    return out


def fam_long(rng, ids, count, types=TYPES, top=70000):
    """one very long dimension (counters narrower than usize)"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        d = rng.choice([4099, 8195, 32771, 65535, 65537, 65544, top])
        m, k, n = rng.choice([(d, 1, 1), (1, d, 1), (1, 1, d), (d, 2, 1), (1, d, 2), (2, 1, d)])
        # half of the elements of a wide layout would only be padding: keep them tight
        gemm_call(s, rng, ty, m, k, n, rngv=3, la=rng.choice(["row", "col"]), lb=rng.choice(["row", "col"]), lc=rng.choice(["row", "col"]))
        out.append(s)
    return out


TIGHT = ["row", "col", "rowpad", "colpad", "negr", "negcolr"]


def fam_tall(rng, ids, count, types=TYPES, cap=600000, ks=(1100, 1400, 2100, 2800), tight=False):
    """long k, small m and n: spread over threads with small blocks, many blocks of k"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        f = 4 if W[ty] == 2 else 1
        m, n = rng.choice([4, 7, 8, 12, 15, 16, 17, 24, 25, 31]), rng.choice([4, 7, 8, 9, 16, 17, 20, 25, 33])
        k = rng.choice(ks) + rng.randrange(9)
        while m * k * n * f > cap:
            if n >= m:
                n = (n + 1) // 2
            else:
                m = (m + 1) // 2
        if tight:
            gemm_call(s, rng, ty, m, k, n, rngv=3, la=rng.choice(TIGHT), lb=rng.choice(TIGHT), lc=rng.choice(TIGHT + ["half"]))
        else:
            gemm_call(s, rng, ty, m, k, n, rngv=3)
        out.append(s)
    return out


def fam_big(rng, ids, count, types=TYPES):
    """large in all dimensions: several blocks and all threads with the default block sizes;
    judged through projections"""
    out = []
    for _ in range(count):
        s = Sess(ids(), "proj")
        ty = rng.choice(types)
        d = 2 if W[ty] == 2 else 1
        m = rng.choice([97, 100, 129, 160, 193, 200, 263]) // d
        k = rng.choice([257, 260, 300, 350, 513]) // d
        n = rng.choice([121, 150, 201, 260, 531]) // d
        if rng.random() < 0.4:
            n = rng.choice([1025, 1030, 1100]) // d + 1
            m = max(m, 100)
            k = rng.choice([257, 263])
        elif W[ty] == 2:
            k = rng.choice([257, 300])
        gemm_call(s, rng, ty, m, k, n, rngv=2, la=rng.choice(LAY_C), lb=rng.choice(LAY_C), lc=rng.choice(["row", "col", "rowpad", "gen", "negb"]))
        out.append(s)
    return out


def huge_shape(rng, w):
    """every dimension several times the default blocks, or one far longer than the others"""
    if rng.random() < 0.5:
        m, k, n = [rng.choice([300, 331, 400, 513, 520, 640, 701, 770]) for _ in range(3)]
        if rng.random() < 0.4:
            n = rng.choice([1100, 1400, 2051])
    else:
        m, k, n = [rng.choice([40, 65, 100, 131]) for _ in range(3)]
        x = rng.choice([3000, 4100, 5003, 8200])
        m, k, n = rng.choice([(x, k, n), (m, x, n), (m, k, x)])
    return (m // w, k // w, n // w) if w == 2 else (m, k, n)


def fam_huge(rng, ids, count, types=TYPES):
    out = []
    for _ in range(count):
        s = Sess(ids(), "proj")
        ty = rng.choice(types)
        m, k, n = huge_shape(rng, W[ty])
        one = 1.0 if W[ty] == 1 else (1.0, 0.0)
        gemm_call(s, rng, ty, m, k, n, rngv=1, la=rng.choice(TIGHT), lb=rng.choice(TIGHT), lc=rng.choice(TIGHT + ["half"]),
                  al=rng.choice([None, one]), be=rng.choice([None, one]))
        out.append(s)
    return out


def fam_hugedig(rng, ids, count, types=TYPES):
    """the same operands in two layouts, far larger than any block"""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = huge_shape(rng, w)
        al = rng.choice(FULLAB if w == 1 else CFULL)
        be = rng.choice(FULLBE if w == 1 else CFULLB)
        seed = rng.randrange(1 << 30)
        gid = None
        for v in range(2):
            s = Sess(ids(), "dig")
            gid = gid or int(s.l[0].split()[1])
            s.group = gid
            A = place(s, rng, ty, m, k, rng.choice(TIGHT), "f %d" % seed)
            B = place(s, rng, ty, k, n, rng.choice(TIGHT), "f %d" % (seed + 1))
            C = place(s, rng, ty, m, n, rng.choice(TIGHT), "f %d" % (seed + 2))
            s.call(ty, m, k, n, al, be, A, B, C)
            out.append(s)
    return out


# ------------------------------------------------------------------ families for single properties
def mid_shape(rng, cap, w=1, top=260):
    """any three numbers: independent ones, small ones more often, or three of about one size, or
    of the sizes that are common"""
    x = rng.random()
    if x < 0.2:
        d = [rng.choice([10, 16, 20, 24, 32, 48, 50, 60, 64, 64, 80, 96, 100, 128])] * 3
        while rng.random() < 0.35:
            d[rng.randrange(3)] = rng.choice([1, 4, 16, 32, 56, 64, 72, 100, 128, 200, 256])
    elif x < 0.65:
        d = [int(2 ** rng.uniform(0, rng.uniform(3, math.log2(top + 0.99)))) for _ in range(3)]
    else:
        e = rng.uniform(4, math.log2(top / 2))
        d = [max(1, int(2 ** (e + rng.uniform(-0.8, 0.8)))) for _ in range(3)]
    while d[0] * d[1] * d[2] * (4 if w == 2 else 1) > cap:
        i = rng.randrange(3)
        d[i] = max(1, d[i] * 3 // 4)
    return tuple(d)


def fam_mid(rng, ids, count, types=TYPES, cap=700000):
    """shapes between small and large, judged by projection"""
    out = []
    for _ in range(count):
        s = Sess(ids(), "proj")
        ty = rng.choice(types)
        m, k, n = mid_shape(rng, cap, W[ty])
        one = 1.0 if W[ty] == 1 else (1.0, 0.0)
        gemm_call(s, rng, ty, m, k, n, rngv=2, al=rng.choice([None, one]), be=rng.choice([None, one]), la=rng.choice(LAY_C + ["zr", "zc"]),
                  lb=rng.choice(LAY_C + ["zr", "zc"]))
        s.macs = m * n * 10
        out.append(s)
    return out


def fam_stack(rng, ids, count, types=TYPES):
    """calls of all sizes on threads with little stack"""
    out = []
    for _ in range(count):
        s = Sess(ids(), "dig")
        seed = rng.randrange(1 << 30)
        s.add("stack 131072")
        ops = {}
        for _ in range(2):
            s.add("par")
            for t in range(rng.choice([1, 2, 4])):
                for _ in range(4):
                    ty = rng.choice(types)
                    w = W[ty]
                    key = ty, mid_shape(rng, 600000, w)
                    m, k, n = key[1]
                    if key not in ops:
                        ops[key] = (place(s, rng, ty, m, k, rng.choice(LAY_C), "f %d" % seed), place(s, rng, ty, k, n, rng.choice(LAY_C), "f %d" % (seed + 1)))
                    C = place(s, rng, ty, m, n, rng.choice(LAY_C), "f %d" % (seed + 2))
                    s.call(ty, m, k, n, *(rng.choice([(1.0, 0.0), (-1.0, 0.5)]) if w == 1 else ((1.0, 0.5), (0.0, 0.0))), *ops[key], C, t=t)
            s.add("endpar")
        out.append(s)
    return out


def shape(rng, cap=60000, w=1, edge=0.35):
    """small, or with one dimension around a block boundary, or any"""
    if rng.random() < 0.25:
        return mid_shape(rng, cap, w)
    hi = rng.choice([8, 13, 20, 33])
    m, k, n = dim(rng, hi), dim(rng, hi), dim(rng, hi)
    if rng.random() < edge:
        which = rng.choice("mkn")
        m, k, n = dim(rng, 13), dim(rng, 9), dim(rng, 13)
        if which == "m":
            m = rng.choice(MS)
        elif which == "k":
            k = rng.choice(KS)
        else:
            n = rng.choice(NS[:12])
        f = 4 if w == 2 else 1
        while m * k * n * f > cap:
            if which != "m" and m > 1:
                m = (m + 1) // 2
            if which != "n" and n > 1:
                n = (n + 1) // 2
            if which != "k" and k > 1:
                k = (k + 1) // 2
    return m, k, n


def fam_tight(rng, ids, count, types=TYPES):
    """every operand ends (or begins) exactly at a page without access"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        m, k, n = shape(rng, 20000, W[ty], 0.15)
        al, be = scal(rng, ty), rng.choice([scal(rng, ty), 0.0 if W[ty] == 1 else (0.0, 0.0)])
        sc = max(frac(al), frac(be))
        seed = rng.randrange(1 << 30)
        kw = dict(lead=0, trail=0, mis=0)
        A = place(s, rng, ty, m, k, rng.choice(LAY_AB), "i -8 8 %d" % seed, **kw)
        B = place(s, rng, ty, k, n, rng.choice(LAY_AB), "i -8 8 %d" % (seed + 1), **kw)
        C = place(s, rng, ty, m, n, rng.choice(LAY_C), "c NaN" if iszero(be) else "i -8 8 %d" % (seed + 2), scale=sc, **kw)
        s.call(ty, m, k, n, al, be, A, B, C)
        out.append(s)
    return out


ZEROS = {1: [0.0, -0.0], 2: [(0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (-0.0, -0.0)]}
JUNK = ["c NaN", "c inf", "c -inf", "x 500 %d -5 5", "h %d", "c NaN", "c 1e30"]


def junk(rng):
    j = rng.choice(JUNK)
    return j % rng.randrange(1 << 30) if "%d" in j else j


def fam_beta0(rng, ids, count, types=TYPES):
    """beta is zero (or, for complex types, almost)"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = shape(rng, 30000, w)
        if rng.random() < 0.12:
            k = 0
        if w == 2 and rng.random() < 0.25:
            # not zero: counts
            be = rng.choice([(0.0, 1.0), (2.0, 0.0), (-0.0, -1.0), (-3.0, -0.0), (0.0, 2.0), (1.0, -1.0), (-2.0, 2.0), (0.0, 0.125), (-0.125, 0.0)])
            gemm_call(s, rng, ty, m, k, n, be=be, rngv=6, c0="i -6 6 %d" % rng.randrange(1 << 30))
        else:
            gemm_call(s, rng, ty, m, k, n, be=rng.choice(ZEROS[w]), rngv=6, c0=junk(rng))
        out.append(s)
    return out


def fam_oldc(rng, ids, count, types=TYPES):
    """the same call with zero beta on different old contents"""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = shape(rng, 200000, w)
        if rng.random() < 0.1:
            k = 0
        al = rng.choice([1.0, -0.7, 1.3]) if w == 1 else rng.choice([(1.0, 0.0), (0.3, -1.7)])
        la, lb, lc = rng.choice(LAY_C), rng.choice(LAY_C), rng.choice(LAY_C)
        seed = rng.randrange(1 << 30)
        gid = None
        for old in ["c 0", "f %d" % seed, junk(rng), "h %d" % rng.randrange(1 << 30), "c NaN", "c inf"]:
            s = Sess(ids(), "dig")
            gid = gid or int(s.l[0].split()[1])
            s.group = gid
            st = random.Random(seed)
            A = place(s, st, ty, m, k, la, "f %d" % seed)
            B = place(s, st, ty, k, n, lb, "f %d" % (seed + 1))
            C = place(s, st, ty, m, n, lc, old)
            s.call(ty, m, k, n, al, rng.choice(ZEROS[w]), A, B, C)
            out.append(s)
    return out


def fam_empty(rng, ids, count, types=TYPES):
    """at least one dimension is zero; unused pointers are null, dangling or inaccessible"""
    out = []
    big = [0, 1, 3, -2, 7, 1 << 40, -(1 << 40), (1 << 62), -(1 << 62)]

    def nowhere():
        return (rng.choice([-1, -2, -3]), 0, rng.choice(big), rng.choice(big))
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        w = W[ty]
        which = rng.choice(["m", "n", "k", "k", "k", "k", "mk", "kn", "mn", "mkn"])
        d = lambda: rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33, 70, 300]) if rng.random() < 0.8 else rng.choice([1 << 20, 70000, 65536])
        small = lambda: rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 33])
        m, k, n = d(), d(), d()
        if which == "k":
            m, n = small(), small()
        m = 0 if "m" in which else m
        k = 0 if "k" in which else k
        n = 0 if "n" in which else n
        al = scal(rng, ty)
        if "k" in which and rng.random() < 0.35:
            x = rng.choice(["nan", "inf", "-inf"])
            al = float(x) if w == 1 else (float(x), rng.choice([0.0, 1.0, float(x)]))
        if ("m" in which or "n" in which) and rng.random() < 0.2:
            al = float("nan") if w == 1 else (float("nan"), 0.0)
        be = rng.choice([scal(rng, ty), rng.choice(ZEROS[w])])
        seed = rng.randrange(1 << 30)
        A, B = nowhere(), nowhere()
        if rng.random() < 0.3:
            A = place(s, rng, ty, min(m, 5), min(k, 5), "row", "c NaN")
        if rng.random() < 0.3:
            B = place(s, rng, ty, min(k, 5), min(n, 5), "col", "c NaN")
        if m and n:
            sc = frac(be)
            if iszero(be):
                c0 = junk(rng)
            else:
                c0 = "i -20 20 %d" % seed
            C = place(s, rng, ty, m, n, rng.choice(LAY_C), c0, scale=sc)
        else:
            C = nowhere()
            if rng.random() < 0.5:
                C = place(s, rng, ty, rng.choice([2, 3, 5]), rng.choice([2, 3, 4]), rng.choice(LAY_C), "i -20 20 %d" % seed)
        s.call(ty, m, k, n, al, be, A, B, C)
        s.macs = 0
        out.append(s)
    return out


def fill_rows(s, v, rows, cols, w, kind):
    """kind(i) fills row i"""
    for i in range(rows):
        s.fill((v[0], v[1] + w * i * v[2], v[2], v[3]), 1, cols, w, kind(i))


def fill_cols(s, v, rows, cols, w, kind):
    for j in range(cols):
        s.fill((v[0], v[1] + w * j * v[3], v[2], v[3]), rows, 1, w, kind(j))


FULLAB = [1.0, -0.3, 1.7, 0.1, -1.0]
FULLBE = [0.0, 1.0, -0.9, 0.37]
CFULL = [(1.0, 0.0), (0.3, -1.7), (0.0, 1.1), (-0.2, 0.1), (0.7, -0.7)]
CFULLB = [(0.0, 0.0), (1.0, 0.0), (0.2, -0.7), (0.0, -1.3), (-0.6, 0.6)]


def fam_layouts(rng, ids, count, types=TYPES):
    """the same logical operands in several layouts, at several addresses"""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = shape(rng, 100000, w, 0.3)
        al = rng.choice(FULLAB if w == 1 else CFULL)
        be = rng.choice(FULLBE if w == 1 else CFULLB)
        seed = rng.randrange(1 << 30)
        vk = rng.choice(["f", "f", "g"])
        special = rng.choice(["", "", "", "", "bca", "bcb", "hank", "toep", "share", "same"])
        if special == "share":
            n = m
        if special == "same":
            k = n = m = min(m, 24)
        if special in ("hank", "toep"):
            m, k = min(m, 30), min(k, 60)
        gid = None
        for v in range(5):
            s = Sess(ids(), "dig")
            gid = gid or int(s.l[0].split()[1])
            s.group = gid
            fa, fb = "%s %d" % (vk, seed), "%s %d" % (vk, seed + 1)
            la, lb, lc = rng.choice(LAY_C), rng.choice(LAY_C), rng.choice(LAY_C)
            if v == 0:
                la, lb, lc = "row", "row", "row"
            if v == 1:
                la, lb, lc = "col", "col", "col"
            if special == "bca":
                lay = "zr" if v % 2 else la
                A = place(s, rng, ty, m, k, lay, None)
                if lay == "zr":
                    s.fill(A, 1, k, w, "F %d 0 0" % seed)
                else:
                    fill_rows(s, A, m, k, w, lambda i: "F %d 0 0" % seed)
            elif special == "hank":
                lay = "hankel" if v % 2 else la
                A = place(s, rng, ty, m, k, lay, None)
                fill_rows(s, A, m, k, w, lambda i: "F %d 0 %d" % (seed, i))
            elif special == "toep":
                lay = "toep" if v % 2 else la
                A = place(s, rng, ty, m, k, lay, None)
                fill_rows(s, A, m, k, w, lambda i: "F %d 0 %d" % (seed, m - i))
            else:
                A = place(s, rng, ty, m, k, la, fa)
            if special == "bcb":
                lay = "zc" if v % 2 else lb
                B = place(s, rng, ty, k, n, lay, None)
                if lay == "zc":
                    s.fill(B, k, 1, w, "F %d 0 0" % seed)
                else:
                    fill_cols(s, B, k, n, w, lambda j: "F %d 0 0" % seed)
            elif special == "share" and v % 2:
                B = (A[0], A[1], A[3], A[2])
            elif special == "share":
                B = place(s, rng, ty, k, n, lb, None)
                s.fill((B[0], B[1], B[3], B[2]), n, k, w, fa)
            elif special == "same" and v % 2:
                B = A
            elif special == "same":
                B = place(s, rng, ty, k, n, lb, fa)
            else:
                B = place(s, rng, ty, k, n, lb, fb)
            C = place(s, rng, ty, m, n, lc, "%s %d" % (vk, seed + 2))
            if rng.random() < 0.3:
                s.l.insert(1, "alloc start")
            s.call(ty, m, k, n, al, be, A, B, C)
            out.append(s)
    return out


def split_shape(rng, w, cap):
    """enough work for several threads: m*k + k*n >= 2^15 (2 threads) or 2^16 (4 threads)"""
    while True:
        m = rng.choice([3, 8, 12, 17, 31, 48, 50, 63, 64, 65, 72, 96, 97, 100, 127, 128, 129, 130, 160, 193, 200, 257])
        n = rng.choice([1, 4, 5, 8, 9, 16, 17, 25, 33, 64, 65, 80, 121, 150])
        k = rng.choice([8, 16, 17, 33, 64, 100, 128, 129, 255, 256, 257, 260, 300, 513, 700, 1100, 2100])
        f = m * k + k * n
        if f >= 32768 and m * k * n <= max(cap, 250000) and (f >= 65536 or rng.random() < 0.4):
            return m, k, n


def fam_split(rng, ids, count, types=TYPES, mode="dig", cap=9000000):
    out = []
    for _ in range(count):
        s = Sess(ids(), mode)
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = split_shape(rng, w, cap)
        seed = rng.randrange(1 << 30)
        if mode == "dig":
            al = rng.choice(FULLAB if w == 1 else CFULL)
            be = rng.choice(FULLBE if w == 1 else CFULLB)
            A = place(s, rng, ty, m, k, rng.choice(LAY_C), "f %d" % seed)
            B = place(s, rng, ty, k, n, rng.choice(LAY_C), "f %d" % (seed + 1))
            C = place(s, rng, ty, m, n, rng.choice(LAY_C), "f %d" % (seed + 2))
            s.call(ty, m, k, n, al, be, A, B, C)
        else:
            gemm_call(s, rng, ty, m, k, n, rngv=2, la=rng.choice(TIGHT), lb=rng.choice(TIGHT))
        out.append(s)
    return out


def tall_shape(rng, w, cap):
    while True:
        m = rng.choice([4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 25, 31, 33])
        n = rng.choice([4, 5, 7, 8, 9, 12, 13, 16, 17, 20, 25, 33])
        k = rng.choice([700, 1100, 1400, 1800, 2100, 2700, 3300]) + rng.randrange(9)
        if m * k + k * n >= 32768 and m * k * n <= max(cap, 150000):
            return m, k, n


def sched_line(rng, i):
    if i % 3 == 2:
        pts = sorted(rng.randrange(1, 60000) for _ in range(rng.choice([1, 2, 3, 5])))
        return "sched points %d %s" % (rng.choice([0, 1]), " ".join("%d %d" % (p, rng.randrange(3)) for p in pts))
    if rng.random() < 0.35:
        return "sched hot %d %d" % (rng.randrange(1 << 30), rng.choice([100, 1000, 10000]))
    return "sched rnd %d %d" % (rng.randrange(1 << 30), rng.choice([3, 20, 100, 500, 3000, 15000]))


def fam_scheduled(rng, ids, count, nsched, types=TYPES, mode="dig", cap=150000):
    """the same call under several controlled schedules"""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = tall_shape(rng, w, cap)
        al = rng.choice(FULLAB if w == 1 else CFULL)
        be = rng.choice(FULLBE if w == 1 else CFULLB)
        seed = rng.randrange(1 << 30)
        gid = None
        for i in range(nsched + 1):
            s = Sess(ids(), mode)
            gid = gid or int(s.l[0].split()[1])
            s.group = gid
            if i:
                s.add(sched_line(rng, i))
            st = random.Random(seed)
            A = place(s, st, ty, m, k, st.choice(LAY_C), "f %d" % seed)
            B = place(s, st, ty, k, n, st.choice(LAY_C), "f %d" % (seed + 1))
            C = place(s, st, ty, m, n, st.choice(LAY_C), "f %d" % (seed + 2))
            s.call(ty, m, k, n, al, be, A, B, C)
            out.append(s)
    return out


def fam_callers(rng, ids, count, types=TYPES, mode="dig", sched=False, cap=400000, hot=False):
    """2 to 4 threads call at the same time; A and B shared, destinations apart or interleaved.
    In dig mode the same calls are also made one after another."""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        nt = rng.choice([2, 2, 3, 4])
        big = rng.random() < 0.6
        m, k, n = split_shape(rng, w, cap) if big else shape(rng, 6000, w, 0.1)
        if sched:
            m, k, n = tall_shape(rng, w, 60000) if big else shape(rng, 3000, w, 0)
            if big:
                nt = 2
        if hot:
            m, k, n = shape(rng, 3000, w, 0)
            big = False
        seed = rng.randrange(1 << 30)
        v = "f %d" if mode == "dig" else "i -2 2 %d"
        per = rng.choice([1, 1, 2, 3]) if not big else 1
        if hot:
            per = rng.choice([2, 3])
        inter = rng.random() < 0.4
        oth = rng.choice(types.replace(ty, ""))
        gid = None
        nv = 1 if mode == "int" else (4 if sched else 2)
        for variant in range(nv):
            s = Sess(ids(), "proj" if mode == "int" and m * k * n > 20000 else mode)
            gid = gid or int(s.l[0].split()[1])
            s.group = gid
            st = random.Random(seed)
            A = place(s, st, ty, m, k, st.choice(LAY_C), v % seed)
            B = place(s, st, ty, k, n, st.choice(LAY_C), v % (seed + 1))
            calls = []
            if inter:
                # one region; call x has the columns x, x+N, ...
                N = nt * per
                r = s.region(SZ[ty], w * m * n * N, "e", 0, 0)
            for t in range(nt):
                for x in range(per):
                    c = t * per + x
                    if mode == "int":
                        al = st.choice([1.0, -1.0, 2.0]) if w == 1 else st.choice([(1.0, 0.0), (0.0, 1.0), (1.0, -1.0)])
                        be = st.choice([0.0, 1.0, -1.0]) if w == 1 else st.choice([(0.0, 0.0), (0.0, 1.0)])
                    else:
                        al = st.choice(FULLAB if w == 1 else CFULL)
                        be = st.choice(FULLBE if w == 1 else CFULLB)
                    # some of the other callers use another type and shape
                    if not inter and t == 1 and st.random() < 0.5 and (hot or not sched):
                        m2, k2, n2 = shape(st, 8000, W[oth], 0.2)
                        A2 = place(s, st, oth, m2, k2, st.choice(LAY_C), v % (seed + 5))
                        B2 = place(s, st, oth, k2, n2, st.choice(LAY_C), v % (seed + 6))
                        C2 = place(s, st, oth, m2, n2, st.choice(LAY_C), v % (seed + 20 + c))
                        one = 1.0 if W[oth] == 1 else (1.0, 0.0)
                        calls.append((t, oth, m2, k2, n2, one, one, A2, B2, C2))
                        continue
                    if inter:
                        C = (r, w * c, n * N, N)
                        s.fill(C, m, n, w, v % (seed + 20 + c))
                    else:
                        C = place(s, st, ty, m, n, st.choice(LAY_C), v % (seed + 20 + c))
                    calls.append((t, ty, m, k, n, al, be, A, B, C))
            if mode == "dig" and variant == 0:
                for c in calls:
                    s.call(c[1], *c[2:])
            else:
                if sched:
                    s.add("sched hot %d %d" % (rng.randrange(1 << 30), rng.choice([100, 1000, 10000])) if hot else sched_line(rng, variant))
                s.add("par")
                for c in calls:
                    s.call(c[1], *c[2:], t=c[0])
                s.add("endpar")
            out.append(s)
    return out


def fam_extent(rng, ids, count, types=TYPES):
    """one or two dimensions far larger than any block"""
    out = []
    for i in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        m, k, n = rng.choice([(2500, 256, 2), (3, 256, 2100), (24, 3000, 5), (2000, 33, 3), (5, 40, 2000), (120, 90, 70), (20, 9000, 1)])
        if W[ty] == 2:
            m, k, n = [max(1, (x + 1) // 2) if x > 64 else x for x in (m, k, n)]
        gemm_call(s, rng, ty, m, k, n, rngv=2, la=rng.choice(["row", "col"]), lb=rng.choice(["row", "col"]), lc=rng.choice(["row", "col"]))
        s.macs = 0  # (values are not judged)
        out.append(s)
    return out


# ------------------------------------------------------------------ histories
class World:
    """regions with a bound on what they hold, so that everything stays exact"""

    def __init__(self, s, rng, n=700):
        self.s, self.rng, self.n = s, rng, n
        self.b = []
        self.sz = []
        for sz in (4, 4, 4, 8, 8, 8):
            r = s.region(sz, n, rng.choice("es"), 0, 0, "0")
            self.b.append(0)
            self.sz.append(sz)
            self.refill(r, False)

    def refill(self, r, say=True, lo=-4, hi=4):
        self.s.fill((r, 0, 1, 1), self.n, 1, 1, "i %d %d %d" % (lo, hi, self.rng.randrange(1 << 30)))
        self.b[r] = max(abs(lo), abs(hi))
        if say:
            self.s.add("poked")

    def poke(self, r):
        """a few elements change in place"""
        rng = self.rng
        a = rng.randrange(self.n - 40)
        self.s.fill((r, a, 1, 1), 40, 1, 1, "i -9 9 %d" % rng.randrange(1 << 30))
        self.b[r] = max(self.b[r], 9)
        self.s.add("poked")

    def view(self, r, rows, cols, w, kind=None, ab=False):
        rng = self.rng
        for _ in range(30):
            rs, cs = layout(rng, rows, cols, kind or rng.choice(LAY_AB if ab else LAY_C))
            lo, hi = span(rows, cols, rs, cs)
            if w * (hi - lo + 1) <= self.n:
                off = rng.randrange(0, (self.n - w * (hi - lo + 1)) // w + 1) * w
                return (r, off - w * lo, rs, cs)
        return (r, 0, cols, 1)

    def call(self, ty, m, k, n, ra, rb, rc, al=None, be=None, par=False, A=None, B=None, C=None):
        rng, w, s = self.rng, W[ty], self.s
        if al is None:
            al = rng.choice([1.0, -1.0, 2.0]) if w == 1 else rng.choice([(1.0, 0.0), (0.0, 1.0), (1.0, -1.0), (-1.0, 0.0)])
        if be is None:
            be = rng.choice([0.0, 1.0, -1.0, 2.0]) if w == 1 else rng.choice([(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (1.0, 1.0)])
        mag = lambda z: abs(z) if w == 1 else abs(z[0]) + abs(z[1])
        for r in (ra, rb, rc):
            if mag(al) * k * w * self.b[ra] * self.b[rb] + mag(be) * self.b[rc] * w > 1 << 21:
                self.refill(r)
        A = A or self.view(ra, m, k, w, ab=True)
        B = B or self.view(rb, k, n, w, ab=True)
        C = C or self.view(rc, m, n, w)
        if par:
            s.add("par")
        s.call(ty, m, k, n, al, be, A, B, C)
        if par:
            s.add("endpar")
        self.b[rc] = max(self.b[rc], mag(al) * k * w * self.b[ra] * self.b[rb] + mag(be) * self.b[rc] * w)
        return A, B, C

    def pick(self, ty):
        r = [i for i in range(len(self.sz)) if self.sz[i] == SZ[ty]]
        self.rng.shuffle(r)
        return r


def hshape(rng, w):
    """fits a region of a World"""
    while True:
        m, k, n = dim(rng, 20), dim(rng, 20), dim(rng, 20)
        if rng.random() < 0.15:
            k = rng.choice([0, 64, 65, 129])
        if w * max(m * k, k * n, m * n) <= 650:
            return m, k, n


def fam_history(rng, ids, count, steps=8):
    out = []
    for _ in range(count):
        s = Sess(ids())
        wld = World(s, rng)
        last = None
        for st in range(rng.choice([3, steps, steps])):
            x = rng.random()
            if last and x < 0.2:
                # exactly the same call again, possibly after a change in place
                ty, m, k, n, r, v, al, be = last
                if rng.random() < 0.7:
                    wld.poke(r[rng.choice([0, 1])])
                wld.call(ty, m, k, n, *r, al=al, be=be, A=v[0], B=v[1], C=v[2], par=rng.random() < 0.2)
                continue
            ty = rng.choice(TYPES)
            w = W[ty]
            m, k, n = hshape(rng, w)
            r = wld.pick(ty)
            if last and SZ[last[0]] == SZ[ty] and x < 0.5:
                # the last result becomes an operand
                c = last[4][2]
                o = [y for y in r if y != c]
                r = rng.choice([[c, o[0], o[1]], [o[0], c, o[1]], [c, c, o[0]]])
            al = rng.choice([1.0, -1.0, 2.0]) if w == 1 else rng.choice([(1.0, 0.0), (0.0, 1.0), (1.0, -1.0), (-1.0, 0.0)])
            be = rng.choice([0.0, 1.0, -1.0, 2.0]) if w == 1 else rng.choice([(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (1.0, 1.0)])
            v = wld.call(ty, m, k, n, *r[:3], al=al, be=be, par=rng.random() < 0.15)
            last = (ty, m, k, n, r[:3], v, al, be)
            if rng.random() < 0.25:
                wld.poke(rng.randrange(6))
        out.append(s)
    return out


def fam_repeat(rng, ids, count, types=TYPES):
    """a call, other calls (larger, smaller, other types, with NaN), and the same call again"""
    out = []
    for _ in range(count):
        s = Sess(ids(), "dig")
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = shape(rng, 100000, w)
        seed = rng.randrange(1 << 30)
        al = rng.choice(FULLAB if w == 1 else CFULL)
        be = rng.choice(FULLBE if w == 1 else CFULLB)
        A = place(s, rng, ty, m, k, rng.choice(LAY_C), "f %d" % seed)
        B = place(s, rng, ty, k, n, rng.choice(LAY_C), "f %d" % (seed + 1))
        C = place(s, rng, ty, m, n, rng.choice(LAY_C), "f %d" % (seed + 2))
        others = []
        for _ in range(3):
            t2 = rng.choice([ty, ty] + list(types))
            m2, k2, n2 = shape(rng, 60000, W[t2]) if rng.random() < 0.8 else split_shape(rng, W[t2], 900000)
            v = rng.choice(["c NaN", "c inf", "f %d" % seed, "h %d" % seed])
            others.append((t2, m2, k2, n2, rng.choice([1.0, 0.5]) if W[t2] == 1 else (1.0, 0.5), 0.0 if W[t2] == 1 else (0.0, 0.0),
                           place(s, rng, t2, m2, k2, rng.choice(LAY_C), v), place(s, rng, t2, k2, n2, rng.choice(LAY_C), v),
                           place(s, rng, t2, m2, n2, rng.choice(LAY_C), "c 0")))
        s.call(ty, m, k, n, al, be, A, B, C)
        for o in others + [None]:
            if o:
                s.call(*o)
            s.fill(C, m, n, w, "f %d" % (seed + 2))
            if rng.random() < 0.7 or o is None:
                s.call(ty, m, k, n, al, be, A, B, C)
                s.fill(C, m, n, w, "f %d" % (seed + 2))
        # with the contents of A changed in place, and changed back
        s.fill(A, m, k, w, "f %d" % (seed + 9))
        s.call(ty, m, k, n, al, be, A, B, C)
        s.fill(C, m, n, w, "f %d" % (seed + 2))
        s.fill(A, m, k, w, "f %d" % seed)
        s.call(ty, m, k, n, al, be, A, B, C)
        out.append(s)
    return out


def fam_changed(rng, ids, count, types=TYPES):
    """the same pointers, strides and (mostly) shapes again and again, with what they point to changed in place
    in between; and the same calls on memory that was never used before"""
    out = []
    for it in range(count):
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = shape(rng, 20000, w) if it % 12 else split_shape(rng, w, 500000)
        if rng.random() < 0.4:
            m, k, n = rng.choice([1, 2, 4, 8, 9]), rng.choice([8, 16, 17, 32, 40]), rng.choice([1, 2, 4, 8, 9])
        if rng.random() < 0.5:
            m, n = n, m
        m, k, n = max(m, 1), max(k, 1), max(n, 1)
        steady = rng.random() < 0.6  # no other change than of contents
        aligned = rng.random() < 0.6
        al, be = rng.choice(FULLAB if w == 1 else CFULL), rng.choice(FULLBE if w == 1 else CFULLB)
        lays = [rng.choice(["row", "col"] if aligned else LAY_C) for _ in range(3)]
        used, fresh = Sess(ids(), "dig"), Sess(ids(), "dig")
        used.group = fresh.group = int(used.l[0].split()[1])
        kw = dict(lead=0, trail=0, flush="s", mis=0) if aligned else {}
        P = [place(used, rng, ty, r, c, lay, None, **kw) for (r, c), lay in zip([(m, k), (k, n), (m, n)], lays)]
        dims = [(m, k), (k, n)]
        what = [[], []]
        for st in range(rng.choice([3, 5, 7])):
            for x in (0, 1):
                r, c = dims[x]
                z = rng.random()
                if st == 0 or z < 0.3:
                    what[x] = [(0, 0, r, c, rng.randrange(1 << 30))]
                elif z < 0.6:
                    # a single element, or the end of it
                    i, j = rng.choice([0, r - 1, rng.randrange(r)]), rng.choice([0, c - 1, rng.randrange(c)])
                    what[x].append((i, j, 1, 1, rng.randrange(1 << 30)))
                else:
                    continue
                i, j, rr, cc, sd = what[x][-1]
                used.fill((P[x][0], P[x][1] + w * (i * P[x][2] + j * P[x][3]), P[x][2], P[x][3]), rr, cc, w, "f %d" % sd)
            m2, k2, n2 = m, k, n
            if not steady and rng.random() < 0.4:
                m2, k2, n2 = rng.choice([m, m, max(1, m - 1)]), rng.choice([k, k, max(1, k - 1)]), rng.choice([n, n, max(1, n - 1)])
            if not steady and rng.random() < 0.4:
                al, be = rng.choice(FULLAB if w == 1 else CFULL), rng.choice(FULLBE if w == 1 else CFULLB)
            cs = rng.randrange(1 << 30)
            used.fill(P[2], m, n, w, "f %d" % cs)
            used.call(ty, m2, k2, n2, al, be, *P)
            if not steady and rng.random() < 0.3:
                t2 = rng.choice(types)
                a, b, d = rng.randint(1, 20), rng.randint(1, 40), rng.randint(1, 20)
                used.call(t2, a, b, d, 1.0 if W[t2] == 1 else (1.0, 0.0), 0.0 if W[t2] == 1 else (0.0, 0.0),
                          place(used, rng, t2, a, b, "row", "f 1"), place(used, rng, t2, b, d, "row", "f 2"), place(used, rng, t2, a, d, "row", "c 0"))
            Q = []
            for x in (0, 1):
                v = place(fresh, rng, ty, *dims[x], rng.choice(LAY_C), None)
                for i, j, rr, cc, sd in what[x]:
                    fresh.fill((v[0], v[1] + w * (i * v[2] + j * v[3]), v[2], v[3]), rr, cc, w, "f %d" % sd)
                Q.append(v)
            Q.append(place(fresh, rng, ty, m, n, rng.choice(LAY_C), "f %d" % cs))
            fresh.call(ty, m2, k2, n2, al, be, *Q)
        out += [fresh, used]
    return out


def fam_spread(rng, ids, types=TYPES):
    """one call that is large enough for any number of threads, and some that are not"""
    out = []
    for big in rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1)]):
        s = Sess(ids())
        ty = rng.choice(types)
        m, k, n = rng.choice([(200, 256, 264), (256, 270, 240), (193, 300, 280)]) if big else rng.choice(
            [(8, 9, 10), (100, 64, 64), (64, 128, 128), (3, 300, 100)])
        s.big = big
        gemm_call(s, rng, ty, m, k, n, rngv=2, la=rng.choice(TIGHT), lb=rng.choice(TIGHT), lc=rng.choice(TIGHT))
        s.macs = 0
        out.append(s)
    return out


def fam_blocks(rng, ids, count, types=TYPES):
    """sizes around small block sizes, several blocks in every dimension"""
    out = []
    near = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 26, 27, 28, 29, 31, 32, 33, 36, 39, 40, 41, 44, 45, 48, 49,
            56, 57, 60, 61]
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        f = 4 if W[ty] == 2 else 1
        m, k, n = rng.choice(near), rng.choice(near), rng.choice(near)
        while m * k * n * f > 20000:
            x = rng.choice("mkn")
            if x == "m":
                m = (m + 1) // 2
            elif x == "k":
                k = (k + 1) // 2
            else:
                n = (n + 1) // 2
        gemm_call(s, rng, ty, m, k, n, rngv=6)
        out.append(s)
    return out


def fam_blockmem(rng, ids, count):
    """so large that the whole of every block is used; nothing is said about values"""
    out = []
    for i in range(count):
        s = Sess(ids(), "dig")
        ty = TYPES[i % 4]
        m, k, n = rng.choice([(9, 900, 800), (40, 700, 700), (100, 64, 700), (5, 40, 2600), (3, 1500, 1500), (200, 300, 40)])
        if W[ty] == 2:
            m, k, n = [max(1, (x * 2 + 2) // 3) for x in (m, k, n)]
        A = place(s, rng, ty, m, k, "row", "f 1")
        B = place(s, rng, ty, k, n, rng.choice(["row", "col"]), "f 2")
        C = place(s, rng, ty, m, n, "row", "f 3")
        one = (1.0, 0.0) if W[ty] == 2 else 1.0
        s.call(ty, m, k, n, one, one, A, B, C)
        out.append(s)
    return out


def fam_exact(rng, ids, count, types=TYPES, cap=6000000):
    """exact data over most of the significand, all sizes; the values of C are compared between builds"""
    out = []
    for _ in range(count):
        s = Sess(ids(), "digv")
        ty = rng.choice(types)
        w = W[ty]
        if rng.random() < 0.5:
            m, k, n = split_shape(rng, w, cap)
        else:
            m, k, n = shape(rng, 200000, w)
        al = rng.choice([1.0, -1.0, 3.0, -2.0]) if w == 1 else rng.choice([(1.0, 0.0), (0.0, -1.0), (1.0, -2.0), (2.0, 1.0)])
        be = rng.choice([0.0, 1.0, -1.0, 2.0]) if w == 1 else rng.choice([(0.0, 0.0), (0.0, 1.0), (-1.0, 1.0)])
        top = (1 << 23 if SZ[ty] == 4 else 1 << 52) // (8 * w)
        r = int((top / k) ** 0.5)
        seed = rng.randrange(1 << 30)
        while r < 2:
            k //= 2
            r = int((top / k) ** 0.5)
        A = place(s, rng, ty, m, k, rng.choice(LAY_C), "i %d %d %d" % (-r, r, seed))
        B = place(s, rng, ty, k, n, rng.choice(LAY_C), "i %d %d %d" % (-r, r, seed + 1))
        C = place(s, rng, ty, m, n, rng.choice(LAY_C), "c NaN" if iszero(be) else "i %d %d %d" % (-top // 8, top // 8, seed + 2))
        s.ty = ty
        s.call(ty, m, k, n, al, be, A, B, C)
        out.append(s)
    return out


def fam_special(rng, ids, count, types=TYPES):
    """infinities and NaN at random places, in one row or column, at one element, or everywhere but in one row"""
    out = []
    inf, nan = float("inf"), float("nan")
    for _ in range(count):
        s = Sess(ids(), "spec")
        ty = rng.choice(types)
        w = W[ty]
        if rng.random() < 0.75:
            m, k, n = dim(rng, 20), dim(rng, 12), dim(rng, 20)
        else:
            m, k, n = shape(rng, 15000, w, 0.9)
        seed = rng.randrange(1 << 30)
        ints = "i -3 3 %d"
        one = lambda: rng.choice(["c NaN", "c inf", "c -inf"])
        r = rng.random()
        if w == 1:
            al = rng.choice([1.0, 1.0, -1.0, 2.0, 0.0, -0.0, nan])
            be = rng.choice([1.0, 0.0, 0.0, -1.0, -2.0, inf, -inf, nan])
            if k > 1 and rng.random() < 0.08:
                k = 1
            if k == 1 and rng.random() < 0.5:
                al = rng.choice([inf, -inf])
        else:
            al = rng.choice([(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (2.0, -1.0)])
            be = rng.choice([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, -1.0)])
        if r < 0.3:
            p = rng.choice([5, 20, 60, 200])
            fa, fb, fc = ["x %d %d -3 3" % (rng.choice([0, p]), seed + x) for x in range(3)]
        else:
            fa, fb, fc = [ints % (seed + x) for x in range(3)]
        kw = dict(canary=rng.choice(["NaN", "inf", "-inf"]))
        A = place(s, rng, ty, m, k, rng.choice(LAY_C), fa, **kw)
        B = place(s, rng, ty, k, n, rng.choice(LAY_C), fb, **kw)
        C = place(s, rng, ty, m, n, rng.choice(LAY_C), fc, **kw)

        def part(M, i, j, rows, cols):
            return (M[0], M[1] + w * (i * M[2] + j * M[3]), M[2], M[3]), rows, cols
        if r >= 0.3:
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.choice("ABCabc")
                M, rows, cols = {"A": (A, m, k), "B": (B, k, n), "C": (C, m, n)}[x.upper()]
                i, j = rng.choice([0, rows - 1, rng.randrange(rows)]), rng.choice([0, cols - 1, rng.randrange(cols)])
                kind = rng.choice(["elem", "row", "col", "elem", "rest"]) if x.isupper() else "elem"
                if kind == "elem":
                    v = part(M, i, j, 1, 1)
                    if w == 2 and rng.random() < 0.5:
                        s.fill((v[0][0], v[0][1] + rng.choice([0, 1]), 1, 1), 1, 1, 1, one())
                        continue
                elif kind == "row":
                    v = part(M, i, 0, 1, cols)
                elif kind == "col":
                    v = part(M, 0, j, rows, 1)
                elif i > 0:
                    v = part(M, 0, 0, i, cols)
                else:
                    continue
                s.fill(v[0], v[1], v[2], w, one())
        s.call(ty, m, k, n, al, be, A, B, C)
        out.append(s)
    return out


PARTS = [(1.0, 0.0), (1.0, -0.0), (-1.0, 0.0), (0.0, 1.0), (-0.0, 1.0), (0.0, -1.0), (0.0, 0.0), (-0.0, -0.0), (0.0, -0.0), (1.0, 1.0), (1.0, -1.0),
         (2.0, -3.0), (-3.0, 2.0), (0.0, 2.0), (2.0, 0.0), (0.5, 0.0), (0.0, -0.5), (-2.0, -1.0)]


def fam_complex(rng, ids, count):
    """operands and scalars purely real, purely imaginary, mixed, with zeros of both signs"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice("cz")
        m, k, n = shape(rng, 12000, 2, 0.15)
        seed = rng.randrange(1 << 30)
        kinds = ["i -5 5 %d", "i -5 5 %d", "re -5 5 %d", "im -5 5 %d", "s 150 -7 7 %d", "i 1 1 %d", "i -1 -1 %d", "c -0.0"]
        f = lambda x: (lambda t: t % (seed + x) if "%d" in t else t)(rng.choice(kinds))
        al, be = rng.choice(PARTS), rng.choice(PARTS)
        c0 = rng.choice([f(2), f(2), "c 0.0"]) if not iszero(be) else rng.choice([f(2), "c NaN", "c inf"])
        gemm_call(s, rng, ty, m, k, n, al=al, be=be, fillA=f(0), fillB=f(1), c0=c0)
        out.append(s)
    return out


def fam_realcomplex(rng, ids, count):
    """the same numbers through the real and the complex function"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        tr, tc = rng.choice([("s", "c"), ("d", "z")])
        m, k, n = shape(rng, 8000, 2, 0.15)
        al, be = rng.choice([1.0, -1.0, 2.0, 0.0, -3.0]), rng.choice([0.0, 1.0, -1.0, 2.0])
        seed = rng.randrange(1 << 30)
        todo = []
        for ty in (tr, tc):
            kind = "i" if ty == tr else "re"
            st = random.Random(seed)
            A = place(s, st, ty, m, k, st.choice(LAY_AB), "%s -6 6 %d" % (kind, seed))
            B = place(s, st, ty, k, n, st.choice(LAY_AB), "%s -6 6 %d" % (kind, seed + 1))
            C = place(s, st, ty, m, n, st.choice(LAY_C), "%s -6 6 %d" % (kind, seed + 2))
            todo.append((ty, m, k, n, al if ty == tr else (al, rng.choice([0.0, -0.0])), be if ty == tr else (be, rng.choice([0.0, -0.0])), A, B, C))
        for t in todo:
            s.call(*t)
        out.append(s)
    return out


# ------------------------------------------------------------------ any valid call at all
HUGE = [(1 << 63) - 1, -(1 << 63), (1 << 62), -(1 << 62) + 1, (1 << 61) + 1, -1, 0, 1 << 33]
HUGEDIM = [(1 << 64) - 1, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 32, (1 << 32) + 1, 1 << 40]
VALS = ["f %d", "g %d", "h %d", "i -3 3 %d", "x 100 %d -3 3"]
ANYS = [0.0, -0.0, 1.0, -1.0, 0.3, 1e300, 1e-310, float("nan"), float("inf"), float("-inf"), 1e38]


def anys(rng, ty):
    x = lambda: rng.choice(ANYS[:5]) if rng.random() < 0.8 else rng.choice(ANYS)
    return x() if W[ty] == 1 else (x(), x())


def put(s, rng, ty, rows, cols, rs, cs, fill):
    """a matrix with given strides, of which only those of dimensions longer than 1 count"""
    w = W[ty]
    ur, uc = rs if rows > 1 else 0, cs if cols > 1 else 0
    lo, hi = span(rows, cols, ur, uc)
    r = s.region(SZ[ty], w * (hi - lo + 1), rng.choice("es"), rng.choice([0, 0, 1, 3]))
    s.fill((r, -w * lo, ur, uc), rows, cols, w, fill)
    return (r, -w * lo, rs, cs)


def fam_any(rng, ids, count, types=TYPES):
    out = []
    for _ in range(count):
        s = Sess(ids(), "dig")
        ty = rng.choice(types)
        w = W[ty]
        x = rng.random()
        m, k, n = shape(rng, 30000, w, 0.25)
        v = lambda: rng.choice(VALS) % rng.randrange(1 << 30)
        if x < 0.45:
            # strides of dimensions of length 1
            if rng.random() < 0.5:
                m, k, n = [rng.choice([1, d]) for d in (m, k, n)]
            else:
                m, k, n = rng.choice([(1, k, n), (m, 1, n), (m, k, 1)])

            def op(rows, cols):
                rs, cs = layout(rng, rows, cols, rng.choice(LAY_C))
                if rows == 1:
                    rs = rng.choice(HUGE)
                if cols == 1:
                    cs = rng.choice(HUGE)
                return put(s, rng, ty, rows, cols, rs, cs, v())
            A, B, C = op(m, k), op(k, n), op(m, n)
        elif x < 0.65:
            # without elements; the dimensions that are left may be any number
            m, k, n = [rng.choice([d, d] + HUGEDIM) for d in (m, k, n)]
            z = rng.choice(["m", "n", "mn", "mk", "nk", "mnk", "k"])
            if z == "k":
                m, n = rng.choice([(1, 1), (3, 5), (9, 8), (1, 17), (40, 33)])
            m, k, n = [0 if y in z else d for y, d in zip("mkn", (m, k, n))]
            no = lambda: (rng.choice([-1, -2, -3]), 0, rng.choice(HUGE), rng.choice(HUGE))
            A, B, C = no(), no(), no()
            if m and n:
                C = place(s, rng, ty, m, n, rng.choice(LAY_C), v())
        else:
            A = place(s, rng, ty, m, k, rng.choice(LAY_AB), v())
            B = place(s, rng, ty, k, n, rng.choice(LAY_AB), v())
            C = place(s, rng, ty, m, n, rng.choice(LAY_C), v())
        s.call(ty, m, k, n, anys(rng, ty), anys(rng, ty), A, B, C)
        out.append(s)
    return out


FAR = [(1 << 31) + 3, (1 << 32) + 5, -(1 << 31) - 7, (1 << 32), (1 << 31), -(1 << 32) - 1, (1 << 30) + 1, (1 << 33) + 2]


def far(s, rng, ty, rows, cols, fill, lay):
    """rows (or columns) further apart than any 32 bit number"""
    w = W[ty]
    d = rng.choice(FAR)
    near = rng.choice([1, 1, 2, -1, 7])
    rs, cs = (d, near) if lay == "r" else (near, d)
    lo, hi = span(rows, cols, rs, cs)
    r = s.region(SZ[ty], w * (hi - lo + 1), "e", 0, 0, "0", "virt")
    v = (r, -w * lo, rs, cs)
    s.fill(v, rows, cols, w, fill)
    return v


def fam_far(rng, ids, count, types=TYPES):
    """the same operands close together and very far apart"""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        m, k, n = rng.randint(2, 21), rng.randint(2, 24), rng.randint(2, 21)
        if rng.random() < 0.3:
            k = rng.choice([257, 300])
        al, be = rng.choice(FULLAB if w == 1 else CFULL), rng.choice(FULLBE if w == 1 else CFULLB)
        seed = rng.randrange(1 << 30)
        gid = None
        for i in range(3):
            s = Sess(ids(), "dig")
            gid = gid or int(s.l[0].split()[1])
            s.group = gid

            def op(rows, cols, x):
                if i and rng.random() < 0.7 or i == 1 and x == 2:
                    lay = "r" if rows < cols and rows < 40 or cols > 40 or rng.random() < 0.3 else "c"
                    return far(s, rng, ty, rows, cols, "f %d" % (seed + x), lay)
                return place(s, rng, ty, rows, cols, rng.choice(LAY_C), "f %d" % (seed + x))
            A, B, C = op(m, k, 0), op(k, n, 1), op(m, n, 2)
            s.call(ty, m, k, n, al, be, A, B, C)
            out.append(s)
    return out


def fam_crowd(rng, ids, count, types=TYPES, plain=False, cap=0):
    """several rounds of threads that come, call at the same time, and go: on small stacks, or while
    they are torn down"""
    out = []
    for _ in range(count):
        s = Sess(ids(), "dig")
        seed = rng.randrange(1 << 30)
        ops = {}
        mode = rng.choice(["", "", "stack 131072", "tls 1", "tls 2"]) if not plain else ""
        if mode:
            s.add(mode)
        for rnd in range(rng.choice([1, 2, 4])):
            s.add("par")
            for t in range(rng.choice([1, 2, 3, 5, 8, 13])):
                for x in range(rng.choice([1, 1, 2])):
                    ty = rng.choice(types)
                    w = W[ty]
                    if rng.random() < 0.5:
                        m, k, n = rng.choice([(40, 500, 100), (130, 300, 60), (256, 130, 129), (20, 1700, 20), (100, 200, 130)])
                    else:
                        m, k, n = shape(rng, 10000, w, 0.2)
                    if cap and m * k * n > cap:
                        m, k, n = rng.choice([(7, 4700, 1), (1, 4700, 7), (4, 4000, 5)])
                    key = (ty, m, k, n)
                    if key not in ops:
                        ops[key] = (place(s, rng, ty, m, k, rng.choice(LAY_C), "f %d" % seed), place(s, rng, ty, k, n, rng.choice(LAY_C), "f %d" % (seed + 1)))
                    A, B = ops[key]
                    C = place(s, rng, ty, m, n, rng.choice(LAY_C), "f %d" % (seed + 2))
                    one, z = (1.0, 0.0) if w == 1 else ((1.0, 0.0), (0.0, 0.0))
                    s.call(ty, m, k, n, one, z, A, B, C, t=t)
            s.add("endpar")
        out.append(s)
    return out


# ------------------------------------------------------------------ the whole significand, the whole range
PRIMES = [32749, 32719, 32717, 32713, 31957]


def fam_bits(rng, ids, count, types=TYPES):
    """integers that use all of the significand: A, B, alpha, beta and C share its bits"""
    out = []
    while len(out) < count:
        ty = rng.choice(types)
        w = W[ty]
        P = 24 if SZ[ty] == 4 else 53
        r = rng.random()
        m, k, n = shape(rng, 6000, w, 0.12)
        if r < 0.3:
            k = 1
        elif r < 0.42:
            k = 0
        one, zero = (1.0, (1.0, 0.0))[w - 1], (0.0, (0.0, 0.0))[w - 1]
        # |sum of k products| < 2^(ba + bb + log2 k), two of them for complex numbers
        lg = max(0, (max(k, 1) - 1).bit_length()) + (w - 1)
        bal = rng.choice([0, 0, 0, rng.randrange(1, 8)])
        room = P - lg - bal - (w - 1 if bal else 0)
        if room < 4:
            continue
        odd = lambda b: float((rng.getrandbits(b) | 1 | 1 << (b - 1)) * rng.choice([1, -1]))
        some = lambda b: float((rng.getrandbits(b) & ~rng.choice([0, 1, 3])) * rng.choice([1, -1]))
        pow2 = lambda b: float((1 << (b - 1)) * rng.choice([1, -1]))
        num = lambda b: rng.choice([odd, odd, pow2])(b) if w == 1 else rng.choice([
            (odd(b), odd(b)), (odd(b), 0.0), (0.0, odd(b)), (odd(b), some(b)), (some(b), odd(b)), (0.0, pow2(b)), (pow2(b), 0.0),
            (odd(b), pow2(b)), (odd(b), 1.0), (1.0, odd(b))])
        al = num(bal) if bal else rng.choice([one, one, -1.0 if w == 1 else (0.0, 1.0)])
        beta = rng.choice(["0", "0", "c"]) if k else "c"
        bc = 0
        be = zero
        if beta == "c":
            # beta C is as wide as the rest, and they are added
            room -= 1
            tot = P - 1 - (w - 1) if k else P - (w - 1)
            bbe = rng.choice([0, 0, 1, rng.randrange(1, tot - 1)])
            be = num(bbe) if bbe else rng.choice([one, -1.0 if w == 1 else (0.0, -1.0)])
            bc = tot - bbe
            if w == 2 and not all(be):
                bc += 1  # no sum of two products
            if abs(be if w == 1 else be[0] + be[1]) == float(1 << max(0, bbe - 1)) and (w == 1 or not all(be)) and bbe:
                bc += 1  # a power of two has one bit less than counted
        ba = rng.choice([room // 2, rng.randrange(1, room), room - 1, 1])
        bb = room - ba
        seed = rng.randrange(1 << 30)
        s = Sess(ids(), "rns %d" % rng.choice(PRIMES))
        A = place(s, rng, ty, m, k, rng.choice(LAY_C), "b %d %d" % (ba, seed))
        B = place(s, rng, ty, k, n, rng.choice(LAY_C), "b %d %d" % (bb, seed + 1))
        C = place(s, rng, ty, m, n, rng.choice(LAY_C), "b %d %d" % (bc, seed + 2) if bc else "c NaN")
        s.call(ty, m, k, n, al, be, A, B, C)
        out.append(s)
    return out


def fam_range(rng, ids, count, types=TYPES):
    """integers times powers of two from the whole range of the type (subnormal numbers included); some with
    another power in every row or column"""
    out = []
    for _ in range(count):
        ty = rng.choice(types)
        w = W[ty]
        lim = 100 if SZ[ty] == 4 else 960
        m, k, n = shape(rng, 6000, w, 0.12)
        seed = rng.randrange(1 << 30)
        ints = 7 if SZ[ty] == 4 and k > 100 else 40
        one = (1.0, (1.0, 0.0))[w - 1]
        if rng.random() < 0.6:
            # all of A by 2^ea, all of B by 2^eb, alpha by 2^el, beta by 2^ef, C by 2^ec
            ok = lambda *x: all(abs(y) <= lim for y in x)
            plain = rng.random() < 0.3
            tiny = -149 if SZ[ty] == 4 else -1074
            low = rng.random() < 0.3
            while low:
                # something at the very end of the range, everything a multiple of its smallest number
                ea = rng.randint(tiny, rng.choice([tiny // 2, 3]))
                eb = rng.choice([0, -1, 2, tiny - ea + rng.randrange(30), rng.randint(tiny // 2, 30)])
                el = rng.choice([0, 0, 1, -1, tiny - ea - eb + rng.randrange(20)])
                ef = rng.choice([0, 0, -2, 3, rng.randint(tiny // 3, 20)])
                ec = ea + eb + el - ef + rng.randint(-2, 2)
                if rng.random() < 0.3:
                    ea, eb = eb, ea
                ex = [ea, eb, el, ef, ec, ea + eb, ea + eb + el, ec + ef, ea + el, eb + el]
                if min(ex) >= tiny and max(ex) <= lim and min(ea, eb, ec, ea + eb + el, ec + ef) < tiny + 30:
                    break
            while not low:
                ea, eb, el = rng.randint(-lim, lim), rng.randint(-lim, lim), 0 if plain else rng.choice([0, rng.randint(-lim, lim)])
                ef = 0 if plain else rng.choice([0, rng.randint(-lim, lim), rng.randint(-lim, lim), rng.randint(-30, 30)])
                ec = ea + eb + el - ef + (0 if plain else rng.randint(-2, 2))
                if ok(ea + eb, ea + eb + el, ec, ec + ef):
                    break
            s = Sess(ids(), "rns %d" % rng.choice(PRIMES))
            A = place(s, rng, ty, m, k, rng.choice(LAY_C), "p %d %d %d %d" % (ea, -ints, ints, seed), scale=-ea)
            B = place(s, rng, ty, k, n, rng.choice(LAY_C), "p %d %d %d %d" % (eb, -ints, ints, seed + 1), scale=-eb)
            be = rng.choice([one, one, 0.0 if w == 1 else (0.0, 0.0), -1.0 if w == 1 else (0.0, 1.0), 3.0 if w == 1 else (1.0, -1.0)])
            al = rng.choice([one, -3.0 if w == 1 else (2.0, -1.0), one if w == 1 else (0.0, 1.0)])
            by = lambda z, e: z * 2.0 ** e if w == 1 else (z[0] * 2.0 ** e, z[1] * 2.0 ** e)
            C = place(s, rng, ty, m, n, rng.choice(LAY_C), "p %d %d %d %d" % (ec, -ints, ints, seed + 2),
                      scale=-min(ec, ec + ef, ea + eb + el))
            s.call(ty, m, k, n, by(al, el), by(be, ef), A, B, C)
        else:
            # row i of A and of C by 2^e_i, column j of B and of C by 2^f_j; all of it as integers
            s = Sess(ids(), "rns %d" % rng.choice(PRIMES))
            top = 40 if SZ[ty] == 8 else 35
            low = -rng.choice([0, lim // 2, lim - 30])
            e = [rng.randint(0, top) for _ in range(m)]
            f = [rng.randint(0, top) for _ in range(n)]
            A = place(s, rng, ty, m, k, rng.choice(LAY_C), None, scale=-low)
            B = place(s, rng, ty, k, n, rng.choice(LAY_C), None)
            C = place(s, rng, ty, m, n, rng.choice(LAY_C), None, scale=-low)
            fill_rows(s, A, m, k, w, lambda i: "p %d %d %d %d" % (low + e[i], -ints, ints, seed + i))
            fill_cols(s, B, k, n, w, lambda j: "p %d %d %d %d" % (f[j], -ints, ints, seed + 1000 + j))
            for i in range(m):
                for j in range(n):
                    s.fill((C[0], C[1] + w * (i * C[2] + j * C[3]), 1, 1), 1, 1, w, "p %d %d %d %d" % (low + e[i] + f[j], -ints, ints, seed + i + j))
            s.call(ty, m, k, n, one, rng.choice([one, one, 0.0 if w == 1 else (0.0, 0.0)]), A, B, C)
        out.append(s)
    return out


def fam_world(rng, ids, count, types=TYPES):
    """calls of all kinds, between which the settings of thread and process are looked at; some with other
    settings of the floating-point units"""
    out = []
    while len(out) < count:
        r = rng.random()
        if r < 0.35:
            s = fam_small(rng, ids, 1, types)[0]
        elif r < 0.55:
            s = fam_special(rng, ids, 1, types)[0]
        elif r < 0.75:
            s = fam_range(rng, ids, 1, types)[0]
        elif r < 0.85:
            s = fam_edges(rng, ids, 1, types, cap=40000)[0]
        else:
            s = fam_mid(rng, ids, 1, types)[0]
        s.l.insert(1, "sys on")
        if rng.random() < 0.4:
            # rounding, flush to zero, denormals are zero; x87: rounding, precision
            mx = 0x1f80 | rng.choice([0, 0x2000, 0x4000, 0x6000]) | rng.choice([0, 0, 0x8000]) | rng.choice([0, 0, 0x40])
            s.l.insert(2, "fp %d %d" % (mx, rng.choice([0x37f, 0x27f, 0x77f, 0xf7f, 0x07f])))
        call = [x for x in s.l if x.startswith("call")]
        if len(call) == 1 and rng.random() < 0.25:
            # the same from a thread of its own
            i = s.l.index(call[0])
            s.l[i:i + 1] = ["par", call[0], "endpar"]
        out.append(s)
    return out


def fam_refused(rng, ids, count, types=TYPES):
    """memory is refused to a call"""
    out = []
    for _ in range(count):
        s = Sess(ids())
        ty = rng.choice(types)
        if rng.random() < 0.3:
            m, k, n = split_shape(rng, W[ty], 60000)
        else:
            m, k, n = dim(rng, 20), dim(rng, 20), dim(rng, 20)
        s.add("refuse %d%s" % (rng.choice([1, 1, 1, 2]), rng.choice(["", " on"])))
        gemm_call(s, rng, ty, m, k, n, rngv=4)
        out.append(s)
    return out


def fam_stepped(rng, ids, count, types=TYPES):
    """small calls that reach every part of packing, kernels and write-back, instruction by instruction"""
    out = []
    for i in range(count):
        s = Sess(ids())
        s.add("step on")
        for ty in (types[i % len(types)],):
            w = W[ty]
            m, k, n = rng.choice([(9, 3, 9), (8, 5, 8), (17, 2, 5), (5, 9, 17), (8, 8, 8), (16, 4, 12), (3, 6, 4), (1, 7, 1), (9, 12, 9), (4, 0, 5)])
            be = rng.choice([1.0, 0.0, -1.0, 2.0]) if w == 1 else rng.choice([(1.0, 0.0), (0.0, 0.0), (0.0, 1.0), (2.0, -1.0)])
            tight = rng.choice(["row", "col"]) if rng.random() < 0.5 else None
            gemm_call(s, rng, ty, m, k, n, be=be, la=tight, lb=tight, lc=tight, rngv=5)
        out.append(s)
    return out


# ------------------------------------------------------------------ rounding
def fl(ty, x):
    """rounded to the type"""
    return x if SZ[ty] == 8 else struct.unpack("f", struct.pack("f", x))[0]


def fam_round(rng, ids, count, types=TYPES, cap=60000, big=0.06):
    """any numbers; a few elements of the result are recorded with what they are made from"""
    out = []
    while len(out) < count:
        ty = rng.choice(types)
        w = W[ty]
        f32 = SZ[ty] == 4
        lim, ulp = (100, 2.0 ** -23) if f32 else (900, 2.0 ** -52)
        if rng.random() < big:
            m, k, n = split_shape(rng, w, 900000)
        else:
            m, k, n = shape(rng, cap, w)
        if k > 2500:
            continue
        r = rng.random()
        spread = 0 if r < 0.4 else rng.randint(1, 12) if r < 0.85 else rng.randint(13, 34)
        if rng.random() < 0.5:
            ea = eb = 0
        else:
            ea, eb = rng.randint(-lim, lim), rng.randint(-lim, lim)
        seed = rng.randrange(1 << 30)
        odd = lambda: fl(ty, rng.uniform(0.5, 1.0) * rng.choice([1, -1]))

        def one_scalar(e, zero):
            x = rng.random()
            if x < 0.2:
                z = rng.choice([1.0, 1.0, -1.0])
            elif x < 0.45:
                # nearly one
                z = rng.choice([1, -1]) * (1.0 + rng.choice([1, 2, 3, -0.5, -1, 4096, -4096, 1000001 if not f32 else 1001, ulp ** -0.5]) * ulp)
            elif x < 0.55 and zero:
                z = 0.0
            else:
                z = odd() * 2.0 ** e
            return fl(ty, z)

        el = rng.choice([0, 0, 0, rng.randint(-30, 30), rng.randint(-lim, lim)])
        ef = rng.choice([0, 0, 0, rng.randint(-30, 30), rng.randint(-lim, lim)])
        if rng.random() < 0.15:
            # a scalar near an end of the range, made up for by the operands
            el = rng.choice([-1, 1]) * rng.randint(lim // 2, lim - 15)
            ea = rng.randint(-lim // 4, lim // 4) - el // 2
            eb = -el - ea + rng.randint(-8, 8)
            spread, ef = 0, rng.choice([0, 0, -el // 2])
        if rng.random() < 0.7:
            ec = ea + eb + el - ef + rng.randint(-3, 3) + (k.bit_length() // 2)
        else:
            ec = rng.randint(-lim, lim)
        lo = [ea - spread, eb - spread, ea + eb - 2 * spread, min(0, el) + ea + eb - 2 * spread, ec, ec + min(0, ef)]
        hi = [ea, eb, ea + eb + 12, max(0, el) + ea + eb + 13, ec + 1, ec + max(0, ef) + 1]
        if min(lo) < -lim or max(hi) > lim:
            continue
        al, be = one_scalar(el, False), one_scalar(ef, True)
        if w == 2:
            al2, be2 = one_scalar(el, True), one_scalar(ef, True)
            al = rng.choice([(al, al2), (al, 0.0), (0.0, al), (al, al2)])
            be = rng.choice([(be, be2), (be, be2), (be, 0.0), (0.0, be)])

        def fill(e, sp, sd):
            x = rng.random()
            if x < 0.75:
                return "e %d %d %d" % (e - sp, e, sd)
            if x < 0.9:
                return "E %d %d %d" % (e - sp, e, sd)
            return "c %r" % fl(ty, rng.choice([0.1, 0.3, 1 / 3, 0.7, 0.9999]) * 2.0 ** e)

        items = 10 if k <= 60 else 5 if k <= 300 else 2
        s = Sess(ids(), "round %d" % items)
        A = place(s, rng, ty, m, k, rng.choice(LAY_C), fill(ea, spread, seed))
        B = place(s, rng, ty, k, n, rng.choice(LAY_C), fill(eb, spread, seed + 1))
        C = place(s, rng, ty, m, n, rng.choice(LAY_C), "e %d %d %d" % (ec, ec, seed + 2))
        if w == 2:
            # the real or the imaginary parts much smaller
            for v, rows, cols, e in (A, m, k, ea), (B, k, n, eb), (C, m, n, ec):
                d = rng.randint(5, 22)
                if rng.random() < 0.3 and e - d >= -lim // 2 and rows and cols:
                    s.fill((v[0], v[1] + rng.randrange(2), 2 * v[2], 2 * v[3]), rows, cols, 1, "e %d %d %d" % (e - d, e - d, seed + 3))
        s.call(ty, m, k, n, al, be, A, B, C)
        out.append(s)
    return out
