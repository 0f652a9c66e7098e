"""Build configurations of the driver. Every one is built from /repo's working tree as it is now."""
import fcntl, hashlib, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TGT = os.path.join(V, "target")
FULL = "std,cgemm,threading"

SMALL = {  # block sizes per type: MC, KC, NC
    "ccA": {"S": (8, 8, 8), "D": (8, 8, 8), "C": (4, 4, 4), "Z": (4, 4, 4)},
    "ccB": {"S": (12, 20, 28), "D": (9, 11, 13), "C": (5, 6, 7), "Z": (7, 9, 11)},
    "ccC": {"S": (8, 16, 24), "D": (16, 17, 40), "C": (8, 8, 16), "Z": (6, 10, 10)},
    "ccD": {"S": (16, 16, 16), "D": (8, 24, 24), "C": (4, 12, 12), "Z": (4, 4, 32)},
    # small in m, so that loop 3 is split for small matrices, with few blocks of k
    "ccE": {"S": (16, 320, 330), "D": (8, 300, 301), "C": (8, 300, 300), "Z": (4, 256, 300)},
}

MORE = {
    # one type's setting must not be used for another: small for two types, default for the others
    "ccF": {"S": (8, 8, 8), "D": (64, 256, 1024), "C": (4, 4, 4), "Z": (32, 256, 512)},
    "ccG": {"S": (64, 256, 1024), "D": (8, 8, 8), "C": (32, 256, 512), "Z": (4, 4, 4)},
    # the limits, and numbers with leading zeros
    "ccH": {"S": ("64", "65536", "65536"), "D": ("008", "0000000020", "00065536"), "C": ("65536", "65536", "65536"), "Z": ("4", "4", "65536")},
    # values far apart
    "ccK": {"S": (8, 700, 700), "D": (8, 9, 2500), "C": (8, 500, 500), "Z": (4, 5, 1500)},
}
# in every type another way of being unusable
_W = [lambda m: (3, 40, 50), lambda m: (41, 40, 50), lambda m: (16, 60, 59), lambda m: (16, 60, 65537)]
INVALID = {"inv%d" % r: {t: _W[(i + r) % 4](0) for i, t in enumerate("SDCZ")} for r in range(4)}
INVALID["inv4"] = {"S": (0, 40, 50), "D": (65537, 65537, 65537), "C": (70000, 40, 50), "Z": (8, 100000, 1000)}
INVALID["inv5"] = {"S": (8, 8, 100000), "D": (0, 0, 0), "C": (16, 18446744073709551615, 18446744073709551615), "Z": (1, 1, 1)}
# unusable for one type only
INVALID["inv6"] = {"S": (9, 8, 50), "D": (16, 40, 50), "C": (8, 20, 30), "Z": (8, 20, 30)}
INVALID["inv7"] = {"S": (16, 40, 50), "D": (16, 40, 50), "C": (8, 20, 30), "Z": (8, 20, 19)}
ALLCC = {**SMALL, **MORE, **INVALID}


def cc(name):
    e = {}
    for t, (mc, kc, nc) in ALLCC[name].items():
        e["MATMUL_%sGEMM_MC" % t] = str(mc)
        e["MATMUL_%sGEMM_KC" % t] = str(kc)
        e["MATMUL_%sGEMM_NC" % t] = str(nc)
    return e


class B:
    def __init__(self, crate="real", tc="stable", profile="release", features=FULL, env=None, rustflags="", acc=False):
        self.crate, self.tc, self.profile, self.features = crate, tc, profile, features
        self.env, self.rustflags, self.acc = env or {}, rustflags, acc


BUILDS = {
    "rel": B(),
    "avx": B(env={"MMTEST_FEATURE": "avx"}),
    "fma": B(env={"MMTEST_FEATURE": "fma"}),
    "sse2": B(env={"MMTEST_FEATURE": "sse2"}),
    "none": B(env={"MMTEST_FEATURE": "none"}),
    "nostd": B(features="cgemm"),
    "nostdhw": B(features="cgemm", rustflags="-Ctarget-feature=+avx,+avx2,+fma"),
    "noth": B(features="std,cgemm"),
    "nocplx": B(features="std,threading"),
    "dbg": B(profile="dev"),
    "dbgnone": B(profile="dev", features="std,cgemm", env={"MMTEST_FEATURE": "none"}),
    "dbgavx": B(profile="dev", env={"MMTEST_FEATURE": "avx"}),
    "dbgfma": B(profile="dev", env={"MMTEST_FEATURE": "fma"}),
    "dbgsse2": B(profile="dev", env={"MMTEST_FEATURE": "sse2"}),
    "dbgnostd": B(profile="dev", features="cgemm"),
    "hook": B(crate="hooked", features=FULL + ",hooked"),
    "hooknone": B(crate="hooked", features=FULL + ",hooked", env={"MMTEST_FEATURE": "none"}),
    "hooksse2": B(crate="hooked", features=FULL + ",hooked", env={"MMTEST_FEATURE": "sse2"}),
    "hookavx": B(crate="hooked", features=FULL + ",hooked", env={"MMTEST_FEATURE": "avx"}),
    "nothnone": B(features="std,cgemm", env={"MMTEST_FEATURE": "none"}),
    "acc": B(crate="hooked", tc="nightly", features=FULL + ",hooked,acc", acc=True),
    "accavx": B(crate="hooked", tc="nightly", features=FULL + ",hooked,acc", acc=True, env={"MMTEST_FEATURE": "avx"}),
    "accsse2": B(crate="hooked", tc="nightly", features=FULL + ",hooked,acc", acc=True, env={"MMTEST_FEATURE": "sse2"}),
    "accnone": B(crate="hooked", tc="nightly", features=FULL + ",hooked,acc", acc=True, env={"MMTEST_FEATURE": "none"}),
    "accnoth": B(tc="nightly", features="std,cgemm,acc", acc=True),
    "accnostd": B(tc="nightly", features="cgemm,acc", acc=True),
}
for _n in INVALID:
    BUILDS[_n] = B(features=FULL + ",constconf", env=cc(_n))
for _n in {**SMALL, **MORE}:
    BUILDS[_n] = B(features=FULL + ",constconf", env=cc(_n))
    BUILDS["dbg" + _n] = B(profile="dev", features=FULL + ",constconf", env=cc(_n))
    BUILDS["acc" + _n] = B(crate="hooked", tc="nightly", features=FULL + ",constconf,hooked,acc", acc=True, env=cc(_n))
    BUILDS["hook" + _n] = B(crate="hooked", features=FULL + ",constconf,hooked", env=cc(_n))
    BUILDS["noth" + _n] = B(features="std,cgemm,constconf", env=cc(_n))
    for _f in ("avx", "sse2", "none", "fma"):
        BUILDS[_f + _n] = B(features=FULL + ",constconf", env=dict(cc(_n), MMTEST_FEATURE=_f))
        BUILDS["acc" + _f + _n] = B(crate="hooked", tc="nightly", features=FULL + ",constconf,hooked,acc", acc=True,
                                    env=dict(cc(_n), MMTEST_FEATURE=_f))


DEFAULT = {"S": (64, 256, 1024), "D": (64, 256, 1024), "C": (32, 256, 512), "Z": (32, 256, 512)}


def block_sizes(name):
    """configured MC, KC, NC by type"""
    e = BUILDS[name].env
    return {t: [int(e.get("MATMUL_%sGEMM_%s" % (t, x), d)) for x, d in zip(("MC", "KC", "NC"), DEFAULT[t])] for t in "SDCZ"}


def files(root, subs):
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            yield p
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                yield os.path.join(d, f)


def tree_hash(root, subs):
    h = hashlib.sha256()
    for f in files(root, subs):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


_src = None


def source_hash():
    global _src
    if _src is None:
        _src = tree_hash(REPO, ["src", "Cargo.toml", "build.rs"]) + tree_hash(
            os.path.join(V, "harness"), ["src", "real/Cargo.toml", "hooked/Cargo.toml", "thread-tree", "num_cpus", "wrap.sh"])
    return _src


class BuildError(Exception):
    pass


CLEAN = ("MMTEST_FEATURE", "RUSTFLAGS", "RUSTC_WRAPPER", "MATMUL_NUM_THREADS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET")


def build(name, b=None, want_fail=False):
    """returns the path of the driver binary"""
    b = b or BUILDS[name]
    desc = repr((b.crate, b.tc, b.profile, b.features, sorted(b.env.items()), b.rustflags, b.acc))
    key = hashlib.sha256((source_hash() + desc).encode()).hexdigest()[:20]
    os.makedirs(os.path.join(TGT, "bin"), exist_ok=True)
    out = os.path.join(TGT, "bin", "%s-%s" % (name, key))
    if os.path.exists(out):
        return out
    td = os.path.join(TGT, "b", name)
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        stamp = os.path.join(td, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        pdir = os.path.join(td, "release" if b.profile == "release" else "debug")
        if old != key:
            # never trust time stamps: what was built from other sources is built again
            fp = os.path.join(pdir, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.split("-")[0] in ("matrixmultiply", "drv", "thread", "num_cpus"):
                        shutil.rmtree(os.path.join(fp, d))
        env = {k: v for k, v in os.environ.items() if k not in CLEAN and not k.startswith("MATMUL_")}
        env.update(b.env)
        if b.rustflags:
            env["RUSTFLAGS"] = b.rustflags
        if b.acc:
            env["RUSTC_WRAPPER"] = os.path.join(V, "harness", "wrap.sh")
        env["CARGO_TERM_COLOR"] = "never"
        cmd = ["cargo", "+" + b.tc, "build", "--offline", "-j2", "--no-default-features", "--features", b.features,
               "--target-dir", td]
        if b.profile == "release":
            cmd.append("--release")
        r = subprocess.run(cmd, cwd=os.path.join(V, "harness", b.crate), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("build %s failed:\n%s" % (name, r.stdout[-3000:]))
        for f in os.listdir(os.path.join(TGT, "bin")):
            if f.rsplit("-", 1)[0] == name:
                os.remove(os.path.join(TGT, "bin", f))
        shutil.copy2(os.path.join(pdir, "drv"), out + ".tmp")
        os.rename(out + ".tmp", out)
        open(stamp, "w").write(key)
    return out


def build_all(names, jobs=8):
    t = time.time()
    with ThreadPoolExecutor(jobs) as ex:
        r = dict(zip(names, ex.map(build, names)))
    return r, time.time() - t
