"""One function per property: which sessions are replayed in which builds, and which
specification judges the recordings."""
import json, random, re
from concurrent.futures import ThreadPoolExecutor
import builds, gen, run, ctx
from ctx import conformance, accesses, functional
from gen import Ids

ALL = {}


def check(pid, builds=()):
    def d(f):
        f.builds = list(builds)
        ALL[pid] = f
        return f
    return d


T = lambda n: {"MATMUL_NUM_THREADS": str(n)}

KERNELS = [("rel4", "rel", T(4)), ("avx4", "avx", T(4)), ("fma4", "fma", T(4)), ("sse24", "sse2", T(4)), ("none4", "none", T(4))]
OTHERS = [("rel1", "rel", T(1)), ("rel2", "rel", T(2)), ("nostd", "nostd", {}), ("nostdhw", "nostdhw", {}), ("noth", "noth", {}),
          ("dbg4", "dbg", T(4))]
SMALLB = [("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("ccC2", "ccC", T(2)), ("dbgccA", "dbgccA", T(4))]
C01_RUNS = KERNELS + OTHERS + SMALLB
ACC = [("acc", "acc", T(4)), ("accavx", "accavx", T(2)), ("accsse2", "accsse2", T(1)), ("accnone", "accnone", T(4)),
       ("accccA", "accccA", T(4)), ("accccB", "accccB", T(4)), ("accccC", "accccC", T(2)), ("accccD", "accccD", T(3)),
       ("accnoneccB", "accnoneccB", T(4)), ("accavxccA", "accavxccA", T(4))]
NOTHREAD = [("accnoth", "accnoth", {}), ("accnostd", "accnostd", {})]
B = lambda runs: [b for _, b, _ in runs]
ABORT = {"panic", "crash", "hang"}


def some(c, n):
    return n * (6 if c.thorough else 1)


LOOPS = ("GemmLoops", "GemmLoops", "ok", (), "five loops over packed blocks, 2 x 2 threads in all interleavings: refines Gemm, no conflicts, ends")
LOOPS1 = ("GemmLoops", "GemmLoops1", "ok", (), "five loops over packed blocks, one thread, all shapes to 9 x 6 x 9: refines Gemm")
BAD = lambda x, inv, w: ("GemmLoops", "GemmLoops_" + x, inv, (), w)
TREE = [("ThreadTree", "ThreadTree", "ok", (), "the pool: every fork is run once and joined, callers share it without deadlock"),
        ("ThreadTree", "ThreadTree1", "ok", (), "the pool with one worker"),
        ("ThreadTree", "ThreadTree3", "ok", (), "the pool with three callers"),
        ("ThreadTree", "ThreadTreeWrong", "eadlock", (), "a worker that waits for its own parent: must be found")]


@check("C01", B(C01_RUNS))
def c01(c):
    c.designs(LOOPS, LOOPS1, BAD("betaEach", "Refines is violated", "beta applied for each block of k: must be found"),
              BAD("fulltile", "is violated", "a tile that covers one column too many: must be found"))
    rng = random.Random(c.seed * 1000 + 1)
    ids = Ids()
    ss = gen.fam_small(rng, ids, some(c, 900)) + gen.fam_edges(rng, ids, some(c, 420)) + gen.fam_long(rng, ids, some(c, 24))
    ss += gen.fam_tall(rng, ids, some(c, 24)) + gen.fam_big(rng, ids, some(c, 14)) + gen.fam_mid(rng, ids, some(c, 80))
    conformance(c, ss, C01_RUNS, {"value"} | ABORT)
    ids = Ids(100001)
    conformance(c, gen.fam_huge(rng, ids, some(c, 4)), KERNELS + [("rel1", "rel", T(1)), ("noth", "noth", {}), ("nostd", "nostd", {})],
                {"value"} | ABORT)


def rec(ss):
    for s in ss:
        s.l.insert(1, "rec on")
    return ss


def mixed(c, rng, ids, small, edges, tall, tight=False, **kw):
    return gen.fam_small(rng, ids, some(c, small), **kw) + gen.fam_edges(rng, ids, some(c, edges), **kw) + \
        gen.fam_tall(rng, ids, some(c, tall), tight=tight)


@check("C02", B(C01_RUNS + ACC + NOTHREAD))
def c02(c):
    rng = random.Random(c.seed * 1000 + 2)
    ids = Ids()
    # what is different afterwards ...
    ss = mixed(c, rng, ids, 700, 220, 12) + gen.fam_empty(rng, ids, some(c, 500)) + gen.fam_mid(rng, ids, some(c, 30))
    conformance(c, ss, C01_RUNS, {"frame"} | ABORT)
    # ... and what is written at all
    ids = Ids(100001)
    ss = mixed(c, rng, ids, 260, 60, 10, tight=True) + gen.fam_empty(rng, ids, some(c, 100))
    accesses(c, rec(ss), ACC + NOTHREAD, {"wfoot"} | ABORT)


@check("C03", B(KERNELS + SMALLB + ACC + NOTHREAD))
def c03(c):
    rng = random.Random(c.seed * 1000 + 3)
    ids = Ids()
    ss = mixed(c, rng, ids, 260, 60, 10, tight=True) + gen.fam_empty(rng, ids, some(c, 100))
    accesses(c, rec(ss), ACC + NOTHREAD, {"rfoot"} | ABORT)
    # the uninstrumented code, with every operand against a guard page
    ids = Ids(100001)
    ss = gen.fam_tight(rng, ids, some(c, 1200)) + gen.fam_edges(rng, ids, some(c, 60))
    conformance(c, ss, KERNELS + SMALLB, {"value"} | ABORT)


C04_RUNS = KERNELS + [("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("noth", "noth", {}), ("nostd", "nostd", {})]


@check("C04", B(C04_RUNS + ACC))
def c04(c):
    rng = random.Random(c.seed * 1000 + 4)
    ids = Ids()
    ss = gen.fam_beta0(rng, ids, some(c, 1100))
    conformance(c, ss, C04_RUNS, {"value"} | ABORT)
    ids = Ids(100001)
    functional(c, gen.fam_oldc(rng, ids, some(c, 160)), C04_RUNS, by="build")
    ids = Ids(200001)
    accesses(c, rec(gen.fam_beta0(rng, ids, some(c, 150))), ACC, {"rfoot"} | ABORT)


C05_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("noth", "noth", {}), ("nostd", "nostd", {}), ("dbg4", "dbg", T(4)),
                      ("dbgnone", "dbgnone", {})]


@check("C05", B(C05_RUNS + ACC))
def c05(c):
    rng = random.Random(c.seed * 1000 + 5)
    ids = Ids()
    ss = gen.fam_empty(rng, ids, some(c, 2500))
    conformance(c, ss, C05_RUNS, {"value", "frame"} | ABORT)
    ids = Ids(100001)
    accesses(c, rec(gen.fam_empty(rng, ids, some(c, 400))), ACC, {"rfoot", "wfoot"} | ABORT)


C06_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccB1", "ccB", T(1)), ("noneccB", "noneccB", T(1)), ("nostd", "nostd", {}), ("dbg4", "dbg", T(4))]


@check("C06", B(C06_RUNS))
def c06(c):
    rng = random.Random(c.seed * 1000 + 6)
    ids = Ids()
    functional(c, gen.fam_layouts(rng, ids, some(c, 2200)) + gen.fam_far(rng, ids, some(c, 80)), C06_RUNS, by="build")
    ids = Ids(100001)
    functional(c, gen.fam_hugedig(rng, ids, some(c, 16)), KERNELS, by="build")


C07_RUNS = [("rel%d" % n, "rel", T(n)) for n in (1, 2, 3, 4)] + [("none%d" % n, "none", T(n)) for n in (1, 4)] + \
    [("ccA%d" % n, "ccA", T(n)) for n in (1, 2, 4)] + [("ccB%d" % n, "ccB", T(n)) for n in (1, 2, 3, 4)]
C07_ACC = [("accccE%d" % n, "accccE", T(n)) for n in (1, 2, 4)] + [("accccB1", "accccB", T(1)), ("accccB4", "accccB", T(4))] + \
    [("acc4", "acc", T(4)), ("acc1", "acc", T(1))]


@check("C07", B(C07_RUNS + C07_ACC))
def c07(c):
    c.designs(LOOPS, BAD("floor", "Refines is violated", "parts rounded down: must be found"),
              BAD("nojoin", "is violated", "the next block before all threads are done: must be found"))
    rng = random.Random(c.seed * 1000 + 7)
    ids = Ids()
    functional(c, gen.fam_split(rng, ids, some(c, 240)), C07_RUNS, by="build")
    ids = Ids(100001)
    functional(c, gen.fam_scheduled(rng, ids, some(c, 24), 8), C07_ACC, by="build")
    ids = Ids(200001)
    functional(c, gen.fam_hugedig(rng, ids, some(c, 12)), [("%s%d" % (b, n), b, T(n)) for b in ("rel", "none") for n in (1, 2, 3, 4)], by="build")


C08_RUNS = [("rel4", "rel", T(4)), ("rel2", "rel", T(2)), ("noth", "noth", {}), ("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)),
            ("none4", "none", T(4))]


C08_ACC = [("accccE4", "accccE", T(4)), ("acc2", "acc", T(2)), ("accccE2", "accccE", T(2))]


FIRST = [("rel", n) for n in ("4", "2", "0", "x", "")] + [("dbg", "4"), ("ccA", "4"), ("noth", ""), ("none", "4")]


@check("C08", B(C08_RUNS + C08_ACC) + [b for b, _ in FIRST])
def c08(c):
    c.designs(*TREE)
    rng = random.Random(c.seed * 1000 + 8)
    ids = Ids()
    functional(c, gen.fam_callers(rng, ids, some(c, 60)), C08_RUNS, by="build")
    ids = Ids(100001)
    conformance(c, gen.fam_callers(rng, ids, some(c, 60), mode="int"), C08_RUNS, {"value", "frame"} | ABORT)
    ids = Ids(200001)
    functional(c, gen.fam_callers(rng, ids, some(c, 16), sched=True) + gen.fam_callers(rng, ids, some(c, 200), sched=True, hot=True), C08_ACC, by="build")
    # the very first calls of a process, made at the same time, do what the same calls do one after another
    ids = Ids(300001)
    ss, runs = [], {}
    for b, n in FIRST:
        for i in range(some(c, 5)):
            new = gen.fam_callers(rng, ids, 1, cap=300000)
            env = {"MATMUL_NUM_THREADS": n} if n else {}
            seq, par = "seq-%s-%s" % (b, n), "first-%s-%s-%d" % (b, n, i)
            runs[seq] = (seq, b, dict(env, VP_PLACES="2"))
            runs[par] = (par, b, dict(env, VP_NOWARM="1", VP_PLACES="4"))
            new[0].only, new[1].only = {seq}, {par}
            ss += new
    functional(c, ss, list(runs.values()), by="build")


C09_RUNS = [("acc4", "acc", T(4)), ("acc2", "acc", T(2)), ("accnone4", "accnone", T(4)), ("accsse24", "accsse2", T(4)),
            ("accccE4", "accccE", T(4)), ("accccE2", "accccE", T(2)), ("accnoneccE4", "accnoneccE", T(4)),
            ("accavxccE4", "accavxccE", T(4))]
C09_SMALL = [("accccA4", "accccA", T(4)), ("accccB4", "accccB", T(4)), ("accccC2", "accccC", T(2)), ("accccD4", "accccD", T(4))]


C09_CALL = [C09_RUNS[0], C09_RUNS[4], C09_RUNS[6]] + NOTHREAD


@check("C09", B(C09_RUNS + C09_SMALL + NOTHREAD))
def c09(c):
    c.designs(LOOPS, BAD("shareA", "NoConflict is violated", "threads of loop 3 packing into one buffer: must be found"),
              BAD("nojoin", "is violated", "the next block before all threads are done: must be found"))
    rng = random.Random(c.seed * 1000 + 9)
    ids = Ids()
    ss = gen.fam_tall(rng, ids, some(c, 30), cap=250000, tight=True) + gen.fam_split(rng, ids, some(c, 40), mode="int", cap=700000)
    accesses(c, rec(ss), C09_RUNS, {"race"} | ABORT)
    ids = Ids(100001)
    accesses(c, rec(gen.fam_tall(rng, ids, some(c, 8), cap=900000, tight=True, ks=(700, 1000, 1500, 2100))), C09_SMALL, {"race"} | ABORT)
    ids = Ids(200001)
    accesses(c, rec(gen.fam_callers(rng, ids, some(c, 16), mode="int", cap=12000)), C09_CALL, {"race"} | ABORT)


WIDE = ACC[:4] + NOTHREAD


C10_SCR = [("hook4", "hook", T(4)), ("hook1", "hook", T(1)), ("hookccB", "hookccB", T(4)), ("hooknone", "hooknone", T(4)),
           ("hooksse2", "hooksse2", T(4)), ("hookavx", "hookavx", T(2)), ("noth", "noth", {}), ("nothnone", "nothnone", {}), ("nostd", "nostd", {})]


@check("C10", B(ACC + NOTHREAD + C10_SCR))
def c10(c):
    rng = random.Random(c.seed * 1000 + 10)
    ids = Ids()
    ss = mixed(c, rng, ids, 160, 50, 8, tight=True)
    accesses(c, rec(ss), ACC + NOTHREAD, {"oob", "uninit", "bound"} | ABORT, bound=True)
    ids = Ids(50001)
    ss = gen.fam_long(rng, ids, some(c, 3)) + gen.fam_extent(rng, ids, some(c, 6))
    accesses(c, rec(ss), WIDE, {"oob", "uninit", "bound"} | ABORT, bound=True)
    ids = Ids(100001)
    ss = gen.fam_history(rng, ids, some(c, 60)) + gen.fam_small(rng, ids, some(c, 200)) + gen.fam_tall(rng, ids, some(c, 10))
    conformance(c, ss, C10_SCR, {"scratch"} | ABORT)


C11_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("noth", "noth", {}), ("nostd", "nostd", {})]


@check("C11", B(C11_RUNS))
def c11(c):
    rng = random.Random(c.seed * 1000 + 11)
    ids = Ids()
    conformance(c, gen.fam_history(rng, ids, some(c, 340)), C11_RUNS, {"value", "frame"} | ABORT)
    ids = Ids(100001)
    functional(c, gen.fam_repeat(rng, ids, some(c, 240)) + gen.fam_changed(rng, ids, some(c, 600)), C11_RUNS, by="build")


def environments(c, cfg):
    """the environments TLC enumerates"""
    rc, out, gen_, dist = run.tlc("ThreadCfg", cfg, None, c.wd, workers=1, extra=["-deadlock"])
    c.cov["states"] += dist
    c.cov["transitions"] += gen_
    r = []
    for st, ch, ph in re.findall(r'<<"ENV", (\d), (<<[\d, ]*>>), (\d+)>>', out):
        r.append((int(st), [int(x) for x in re.findall(r"\d+", ch)], int(ph)))
    if rc != 0 or len(r) < 100:
        raise run.ToolError("no environments: " + out[-800:])
    return sorted(r)


MORE_ENV = ["007", "0000000000000000000003", "00", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "4294967297",
            "4294967299", "65537", "256", "257", "258", "4x", "x4", "4 ", " 4", "4.0", "3e0", "0x4", "-4", "++2", "+2", "+4", "four", "true", "1,4",
            "4\n", "\t2", "10", "12", "16", "32", "64", "128", "1000000", "-0", "1_000", "\u0664", "\uff14", "2;", "'2'"]


def env_of(e, extra):
    d = dict(extra)
    if e[0]:
        d["MATMUL_NUM_THREADS"] = "".join(map(chr, e[1]))
    d["VP_PHYS"] = str(e[2])
    d["VP_PLACES"] = "2"
    return d


@check("C12", ["acc", "hook", "rel", "accnone"])
def c12(c):
    rng = random.Random(c.seed * 1000 + 12)
    c.design("ThreadCfg", "ThreadCfg.cfg" if c.thorough else "ThreadCfgSmall.cfg", workers=8, extra=["-deadlock"],
             what="parsing, clamping, pool and use of threads keep the promise for all strings up to the length in the cfg")
    es = environments(c, "ThreadCfgGen.cfg")
    if not c.thorough:
        # every kind of string, fewer machines
        es = [e for e in es if len(e[1]) <= 1] + rng.sample([e for e in es if len(e[1]) > 1], 60)
    es += [(1, [ord(x) for x in s], rng.choice([1, 2, 4, 8])) for s in MORE_ENV]
    es += [(0, [], p) for p in (6, 7, 16, 100)]
    ids = Ids()
    # how many threads work, and how many there are
    sets = [gen.fam_spread(rng, ids) for _ in range(6)]
    sess = rec([s for x in sets for s in x])
    runs = []
    for i, e in enumerate(es):
        b = "accnone" if i % 7 == 3 else "acc"
        runs.append(("t%d" % i, b, env_of(e, {})))
        for s in sets[i % len(sets)]:
            s.only = getattr(s, "only", set()) | {"t%d" % i}
    by = {int(s.l[0].split()[1]): s for s in sess}
    got = ctx.replay(c, sess, runs)
    bt = run.Batch("ThreadTrace")
    for i, e in enumerate(es):
        r, done = got["t%d" % i]
        ls = ['{"e":"env","s":%d,"set":%d,"ch":%s,"phys":%d}' % (i, e[0], json.dumps(e[1]), e[2])]
        for sid, lines in r.items():
            ths = None
            for x in lines:
                if x.startswith('{"e":"tree"'):
                    ths = []
                elif x.startswith('{"e":"acc"'):
                    d = json.loads(x)
                    if d["o"]:
                        ths.append(d["th"])
                elif x.startswith('{"e":"treeend"'):
                    ls.append('{"e":"work","big":%d,"th":%s}' % (by[sid].big, json.dumps(sorted(set(ths)))))
                elif x.startswith(('{"e":"panic"', '{"e":"crash"', '{"e":"hang"')):
                    ls.append(x)
        if done:
            ls.append('{"e":"threads","alive":%d,"spawned":%d}' % (done["tasks"], done["spawned"]))
        bt.add("t%d" % i, i, ls)
    bad = ctx.judged(c, bt, "")
    for cl, i, line, owners, lines in bad:
        for tag, _ in owners[:3]:
            e = es[int(tag[1:])]
            c.violation("%s: MATMUL_NUM_THREADS=%r with %d CPUs: %s" % (cl, "".join(map(chr, e[1])) if e[0] else None, e[2], line[:200]),
                        "\n".join(lines) + "\nsessions:\n" + "".join(s.text() for s in sets[int(tag[1:]) % len(sets)]))
    # neither if the first calls come from several threads at once
    ids = Ids(400001)
    sess, runs, bt = [], [], run.Batch("ThreadTrace")
    first = [(1, [ord(x) for x in v], p) for v in ("4", "3", "2", "1", "0", "x", "9") for p in (1, 4)] + [(0, [], p) for p in (1, 2, 3, 8)]
    for i, e in enumerate(first):
        for b in ("acc", "hook") + (("rel",) if e[0] else ()):
            for j in range(some(c, 1)):
                tag = "f%d%s%d" % (i, b, j)
                runs.append((tag, b, dict(env_of(e, {}), VP_NOWARM="1", VP_PLACES="4")))
                for x in gen.fam_crowd(rng, ids, 1, plain=True, cap=150000 if b == "acc" else 0):
                    x.only = {tag}
                    sess.append(x)
    got = ctx.replay(c, sess, runs)
    for tag, (r, done) in got.items():
        i = int(re.match(r"f(\d+)", tag).group(1))
        ls = ['{"e":"env","s":%d,"set":%d,"ch":%s,"phys":%d}' % (i, first[i][0], json.dumps(first[i][1]), first[i][2])]
        ls += [x for lines in r.values() for x in lines if x.startswith(('{"e":"panic"', '{"e":"crash"', '{"e":"hang"'))]
        if done:
            ls.append('{"e":"threads","alive":%d,"spawned":%d}' % (done["tasks"], done["spawned"]))
        bt.add(tag, i, ls)
    for cl, i, line, owners, lines in ctx.judged(c, bt, ", first calls of a process made at once"):
        tags = [t for t, _ in owners]
        c.violation("%s: %r, the first calls made at once, in %s: %s" % (cl, first[i], tags[:3], line[:200]),
                    "\n".join(lines) + "\nsessions:\n" + "".join(x.text() for x in sess if x.only & set(tags))[:20000])
    # nor is there a failure if nobody can read the complaint about it
    ids = Ids(300001)
    silent = [dict(env_of((1, [ord(x) for x in v], 4), {}), VP_NOWARM="1", VP_STDERR="/dev/full") for v in ("four", "-4", "", "4", "\u0664", "1e9")]
    conformance(c, gen.fam_tall(rng, ids, 3), [("s%d%s" % (i, b), b, e) for i, e in enumerate(silent) for b in ("rel", "hook")],
                {"value", "frame"} | ABORT)
    # results do not depend on it
    ids = Ids(100001)
    dig = gen.fam_split(rng, ids, 5, cap=2000000) + gen.fam_callers(rng, ids, 2, cap=600000)
    runs = [("h%d" % i, "hook", env_of(e, {})) for i, e in enumerate(es)] + [("r%d" % i, "rel", env_of(e, {})) for i, e in enumerate(es) if i % 6 == 0]
    functional(c, dig, runs, by="build")
    ids = Ids(200001)
    ss = gen.fam_tall(rng, ids, some(c, 8)) + gen.fam_small(rng, ids, some(c, 8))
    conformance(c, ss, runs[::5], {"value", "frame"} | ABORT)


C13_RUNS = [(n + "4", n, T(4)) for n in ("ccA", "ccB", "ccC", "ccD", "ccE", "ccF", "ccG", "ccH", "ccK")] + \
    [("noneccB1", "noneccB", T(1)), ("sse2ccC", "sse2ccC", T(2)), ("avxccA", "avxccA", T(4)), ("dbgccA1", "dbgccA", T(1))]
C13_ACC = [("accccF", "accccF", T(1)), ("accccG", "accccG", T(1)), ("accccK", "accccK", T(1)), ("accccB", "accccB", T(1)), ("accccE4", "accccE", T(4))]
NONNUM = {"nonnum%d" % i: {"MATMUL_" + k: v} for i, (k, v) in enumerate([
    ("SGEMM_KC", "6x4"), ("ZGEMM_MC", "1:"), ("DGEMM_NC", "/5"), ("CGEMM_KC", "256 "), ("SGEMM_NC", "-1"),
    # too large for usize; the rest after 2^64 would be usable
    ("SGEMM_MC", "18446744073709551680"), ("CGEMM_NC", "18446744073709552128"), ("ZGEMM_KC", "184467440737095516416"),
    ("DGEMM_KC", "36893488147419103488")])}


@check("C13", B(C13_RUNS + C13_ACC) + list(builds.INVALID))
def c13(c):
    rng = random.Random(c.seed * 1000 + 13)
    # the same results for all usable settings
    ids = Ids()
    ss = gen.fam_small(rng, ids, some(c, 240)) + gen.fam_edges(rng, ids, some(c, 40)) + gen.fam_blocks(rng, ids, some(c, 150)) + \
        gen.fam_tall(rng, ids, some(c, 8))
    conformance(c, ss, C13_RUNS, {"value", "frame"} | ABORT)
    # the memory a call uses follows the setting of its type
    ids = Ids(100001)
    accesses(c, rec(gen.fam_blockmem(rng, ids, some(c, 24))), C13_ACC, {"bound"} | ABORT, bound=True)
    # unusable settings are refused
    ids = Ids(200001)
    ss = gen.fam_small(rng, ids, some(c, 60)) + gen.fam_empty(rng, ids, some(c, 40)) + gen.fam_edges(rng, ids, some(c, 20)) + \
        gen.fam_tall(rng, ids, some(c, 10))
    by = {int(s.l[0].split()[1]): s for s in ss}
    runs = [("%s-%d" % (n, t), n, T(t)) for n in builds.INVALID for t in (1, 4)]
    got = ctx.replay(c, ss, runs)
    bt = run.Batch("ConfTrace")
    for tag, b, _ in runs:
        cf = builds.block_sizes(b)
        cf = {t: [min(x, 1 << 30) for x in v] for t, v in cf.items()}
        for sid, lines in got[tag][0].items():
            bt.add(tag, sid, ['{"e":"conf","s":%d,"cfg":%s}' % (sid, json.dumps(cf))] +
                   [x if x.startswith('{"e":"panic"') else SLIM.sub("}", x) for x in lines])
    bad = ctx.judged(c, bt, "")
    ctx.report(c, bad, {"notrefused", "touched"} | ABORT, by, runs)
    # what is no number does not compile
    def compiles(x):
        try:
            builds.build(x[0], builds.B(features=builds.FULL + ",constconf", env=x[1]))
        except builds.BuildError:
            return False  # with usable numbers this configuration has been built above
        return True
    with ThreadPoolExecutor(8) as ex:
        for (n, e), yes in zip(NONNUM.items(), ex.map(compiles, NONNUM.items())):
            if yes:
                c.violation("compiles: a crate with %r compiles" % e, repr(e))
    c.cov["refused_at_compile_time"] = len(NONNUM)


SLIM = re.compile(r',"scr":.*')


C14_RUNS = KERNELS + OTHERS + SMALLB + [("nocplx", "nocplx", T(4)), ("dbgnone", "dbgnone", {}), ("dbgnostd", "dbgnostd", {}), ("noneccB4", "noneccB", T(4)),
                                        ("none1", "none", T(1)), ("avx1", "avx", T(1)), ("sse21", "sse2", T(1)), ("fma1", "fma", T(1)),
                                        ("fmaccC", "fmaccC", T(4))]


@check("C14", B(C14_RUNS))
def c14(c):
    rng = random.Random(c.seed * 1000 + 14)
    ids = Ids()
    ss = gen.fam_small(rng, ids, some(c, 500)) + gen.fam_edges(rng, ids, some(c, 150)) + gen.fam_beta0(rng, ids, some(c, 60)) + \
        gen.fam_empty(rng, ids, some(c, 60)) + gen.fam_tall(rng, ids, some(c, 8))
    real(ss)
    conformance(c, ss, C14_RUNS, {"value", "frame"} | ABORT)
    ids = Ids(100001)
    ss = gen.fam_exact(rng, ids, some(c, 160))
    real(ss)
    functional(c, ss, C14_RUNS, by="")


def real(ss):
    """what has no complex functions gets none of their calls"""
    for s in ss:
        if any(re.match(r"call \d+ [cz]", x) for x in s.l):
            s.only = {t for t, b, _ in C14_RUNS if b != "nocplx"}


C15_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("noneccB1", "noneccB", T(1)), ("nostd", "nostd", {}),
                      ("noth", "noth", {}), ("nostdhw", "nostdhw", {}), ("dbg4", "dbg", T(4))]


@check("C15", B(C15_RUNS))
def c15(c):
    rng = random.Random(c.seed * 1000 + 15)
    ids = Ids()
    conformance(c, gen.fam_special(rng, ids, some(c, 1700)), C15_RUNS, {"value", "frame"} | ABORT)


C16_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("noneccB1", "noneccB", T(1)), ("nostd", "nostd", {}),
                      ("noth", "noth", {}), ("nostdhw", "nostdhw", {}), ("dbg4", "dbg", T(4))]


@check("C16", B(C16_RUNS))
def c16(c):
    rng = random.Random(c.seed * 1000 + 16)
    ids = Ids()
    ss = gen.fam_complex(rng, ids, some(c, 1100)) + gen.fam_realcomplex(rng, ids, some(c, 180)) + gen.fam_small(rng, ids, some(c, 150), types="cz") + \
        gen.fam_edges(rng, ids, some(c, 60), types="cz") + gen.fam_tall(rng, ids, some(c, 8), types="cz") + gen.fam_big(rng, ids, some(c, 4), types="cz")
    conformance(c, ss, C16_RUNS, {"value", "frame"} | ABORT)


C17_RUNS = [("dbg4", "dbg", T(4)), ("dbg1", "dbg", T(1)), ("dbgavx2", "dbgavx", T(2)), ("dbgfma4", "dbgfma", T(4)), ("dbgsse23", "dbgsse2", T(3)),
            ("dbgnone", "dbgnone", {}), ("dbgnostd", "dbgnostd", {}), ("dbgccA4", "dbgccA", T(4)), ("dbgccB4", "dbgccB", T(4)),
            ("dbgccC2", "dbgccC", T(2)), ("rel4", "rel", T(4)), ("none4", "none", T(4)), ("sse24", "sse2", T(4)), ("avx2", "avx", T(2)),
            ("nostd", "nostd", {}), ("noth", "noth", {}), ("ccB4", "ccB", T(4))]
C17_CROWD = [("rel4", "rel", T(4)), ("rel2", "rel", T(2)), ("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccE4", "ccE", T(4)), ("none4", "none", T(4)),
             ("dbg4", "dbg", T(4)), ("noth", "noth", {})]


@check("C17", B(C17_RUNS) + B(C17_CROWD))
def c17(c):
    c.designs(*TREE)
    rng = random.Random(c.seed * 1000 + 17)
    ids = Ids()
    ss = gen.fam_any(rng, ids, some(c, 1500)) + gen.fam_far(rng, ids, some(c, 12)) + gen.fam_split(rng, ids, some(c, 25), cap=2500000)
    functional(c, ss, C17_RUNS, by="build", clauses=ABORT, limit=40)
    ids = Ids(100001)
    functional(c, gen.fam_crowd(rng, ids, some(c, 60)) + gen.fam_stack(rng, ids, some(c, 60)), C17_CROWD, by="build", clauses=ABORT, limit=40)
    # the very first calls of a process come from several threads at once
    ids = Ids(200001)
    ss, runs = [], []
    for b, n in FIRST:
        for i in range(some(c, 6)):
            env = {"VP_NOWARM": "1", "VP_PLACES": "4"}
            if n:
                env["MATMUL_NUM_THREADS"] = n
            tag = "first-%s-%s-%d" % (b, n, i)
            runs.append((tag, b, env))
            new = gen.fam_crowd(rng, ids, 2, plain=True)
            for s in new:
                s.only = {tag}
            ss += new
    functional(c, ss, runs, by="build", clauses=ABORT, limit=40)


C18_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("noneccB1", "noneccB", T(1)), ("nostd", "nostd", {}),
                      ("noth", "noth", {}), ("nostdhw", "nostdhw", {}), ("dbg4", "dbg", T(4))]


@check("C18", B(C18_RUNS))
def c18(c):
    rng = random.Random(c.seed * 1000 + 18)
    ids = Ids()
    ss = gen.fam_bits(rng, ids, some(c, 1800)) + gen.fam_range(rng, ids, some(c, 800))
    conformance(c, ss, C18_RUNS, {"value", "frame"} | ABORT)
    # all sizes, most of the significand: the same values from every kernel
    ids = Ids(100001)
    functional(c, gen.fam_exact(rng, ids, some(c, 60)), C18_RUNS, by="")


C20_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("ccB4", "ccB", T(4)), ("nostd", "nostd", {}), ("noth", "noth", {}),
                      ("nostdhw", "nostdhw", {}), ("dbg4", "dbg", T(4))]


def spoiled(line):
    """a recording whose first number is off by a little more than the bound allows, or None.
    One product and no old value: there the magnitude the bound refers to is that of the number itself."""
    e = json.loads(line)
    c, it = e["c"], e["it"][0] if e["it"] else None
    if not it or c["w"] != 1 or c["k"] != 1 or not it["fin"] or any(it["c"][0]["s"]) or not any(it["x"][0]["s"]):
        return None
    x = it["x"][0]
    v = sum(d << 10 * i for i, d in enumerate(x["s"])) << 60
    v += v >> (c["u"] - 5)  # 32 units; at most 11 are allowed
    sg, v, s = (1 if v > 0 else -1), abs(v), []
    while v:
        s.append(sg * (v & 1023))
        v >>= 10
    it["x"][0] = {"lo": x["lo"] - 6, "s": s}
    return json.dumps(e, separators=(",", ":"))


@check("C20", B(C20_RUNS))
def c20(c):
    rng = random.Random(c.seed * 1000 + 20)
    ids = Ids()
    ss = gen.fam_round(rng, ids, some(c, 700))
    rec, bad = conformance(c, ss, C20_RUNS, {"inexact"} | ABORT, module="RoundTrace")
    if c.viol:
        return
    # the bound is no looser than it should be: recordings changed by 32 units of roundoff are refused
    bt = run.Batch("RoundTrace")
    n = 0
    for tag, (r, _) in rec.items():
        for sid, lines in r.items():
            for x in lines:
                y = spoiled(x) if n < 24 and x.startswith('{"e":"round"') else None
                if y:
                    bt.add(tag, sid, [y])
                    n += 1
    refused, st = bt.judge(c.wd)
    if len(refused) != len(bt.items) or n < 3:
        raise run.ToolError("%d of %d recordings changed by more than the bound were refused" % (len(refused), len(bt.items)))
    c.note("%d changed recordings, all refused" % n)


CPUS = ["none", "avx", "avx,fma", "avx,avx2", "avx,avx2,fma"]
C19_BUILDS = ["rel", "avx", "fma", "sse2", "none", "noth", "nostd", "nostdhw"]


def can_mask(c, binary):
    """whether cpuid can be made to say something else here"""
    import os, subprocess
    f = os.path.join(c.wd, "empty")
    open(f, "w").close()
    r = subprocess.run([binary, f, f + ".out", "0", "60"], env=dict(os.environ, VP_CPU="none", VP_NOWARM="1"), stderr=subprocess.DEVNULL)
    return r.returncode == 0


@check("C19", C19_BUILDS)
def c19(c):
    rng = random.Random(c.seed * 1000 + 19)
    bins = c.build(C19_BUILDS)
    cpus = CPUS if can_mask(c, bins["rel"]) else []
    c.cov["processors"] = cpus + ["as it is"]
    if not cpus:
        c.assume.append("cpuid cannot be intercepted on this machine: only its own feature set and the compile-time masks were tried")
    ids = Ids()
    envs = [("-", {})] + [(x, {"VP_CPU": x}) for x in cpus]
    runs = []
    for b in C19_BUILDS:
        for x, e in envs:
            runs.append(("%s/%s" % (b, x), b, dict(e, MATMUL_NUM_THREADS="1", VP_NOWARM="1")))
    ss = gen.fam_stepped(rng, ids, some(c, 16))
    by = {int(s.l[0].split()[1]): s for s in ss}
    got = ctx.replay(c, ss, [(t.replace("/", "_"), b, e) for t, b, e in runs])
    isa, val = run.Batch("Isa"), run.Batch("GemmTrace")
    steps = 0
    for tag, (r, done) in got.items():
        for sid, lines in r.items():
            x = [y for y in lines if y.startswith(('{"e":"isa"', '{"e":"panic"', '{"e":"crash"', '{"e":"hang"'))]
            steps += sum(int(z) for y in x for z in re.findall(r'"steps":(\d+)', y))
            isa.add(tag, sid, [re.sub(r'"steps":\d+,', "", y) for y in x])
            val.add(tag, sid, [y for y in lines if not y.startswith('{"e":"isa"')], by[sid].macs)
    c.cov["instructions_recorded"] = steps
    if steps < 1000 * len(runs):
        raise run.ToolError("instructions were not recorded")
    rr = [(t.replace("/", "_"), b, e) for t, b, e in runs]
    ctx.report(c, ctx.judged(c, isa, ", %d instructions" % steps), {"isa"} | ABORT, by, rr)
    ctx.report(c, ctx.judged(c, val, ""), {"value", "frame"} | ABORT, by, rr)
    # the same results on all of these processors
    ids = Ids(100001)
    ss = gen.fam_small(rng, ids, some(c, 250)) + gen.fam_edges(rng, ids, some(c, 50)) + gen.fam_tall(rng, ids, some(c, 8))
    runs = [("%s_%s" % (b, x), b, dict(e, MATMUL_NUM_THREADS=t)) for x, e in envs for b, t in (("rel", "4"), ("noth", "1"), ("fma", "2"))]
    conformance(c, ss, runs, {"value", "frame"} | ABORT)


C22_RUNS = KERNELS + [("rel1", "rel", T(1)), ("rel2", "rel", T(2)), ("ccA4", "ccA", T(4)), ("noth", "noth", {}), ("nostd", "nostd", {}),
                      ("nostdhw", "nostdhw", {}), ("dbg4", "dbg", T(4))]


@check("C22", B(C22_RUNS))
def c22(c):
    rng = random.Random(c.seed * 1000 + 22)
    ids = Ids()
    ss = gen.fam_world(rng, ids, some(c, 800))
    # also the first calls of a process
    runs, first = [], []
    for b, n in [("rel", "4"), ("rel", "1"), ("rel", None), ("noth", "1"), ("dbg", "2")]:
        for i in range(2):
            tag = "first-%s-%s-%d" % (b, n, i)
            runs.append((tag, b, dict(T(n) if n else {}, VP_NOWARM="1", VP_PLACES="4")))
            for s in gen.fam_world(rng, ids, 3):
                s.only = {tag}
                first.append(s)
    for s in ss:
        s.only = {t for t, _, _ in C22_RUNS}
    rec, bad = conformance(c, ss + first, C22_RUNS + runs, {"world"} | ABORT)
    n = sum(x.startswith('{"e":"sys"') for r, _ in rec.values() for ls in r.values() for x in ls)
    c.cov["calls_observed"] = n
    if n == 0 and not c.viol:
        raise run.ToolError("nothing was observed")


C23_RUNS = KERNELS + [("rel1", "rel", T(1)), ("ccA4", "ccA", T(4)), ("noth", "noth", {}), ("nostd", "nostd", {}), ("dbg4", "dbg", T(4))]


@check("C23", B(C23_RUNS))
def c23(c):
    rng = random.Random(c.seed * 1000 + 23)
    ids = Ids()
    ss = gen.fam_refused(rng, ids, some(c, 100))
    rec, bad = conformance(c, ss, C23_RUNS, {"oom", "value", "frame", "scratch"} | ABORT)
    c.cov["refusals"] = sum(x.startswith('{"e":"oom"') for r, _ in rec.values() for ls in r.values() for x in ls)
