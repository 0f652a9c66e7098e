"""Run drivers over sessions, collect recordings, check them with TLC."""
import contextlib, hashlib, json, os, re, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def drive(binary, sessions, wd, env=None, limit=60, tag="x", timeout=600):
    """-> {session id: [lines]}, done line. Crashes and hangs are part of the recording."""
    texts = [s.text() for s in sessions]
    ids = [int(s.l[0].split()[1]) for s in sessions]
    sf = os.path.join(wd, "%s.ses" % tag)
    of = os.path.join(wd, "%s.out" % tag)
    open(sf, "w").write("".join(texts))
    open(of, "w").close()
    e = {k: v for k, v in os.environ.items() if not k.startswith("MATMUL_") and k != "MMTEST_FEATURE"}
    e.update(env or {})
    start, done, rcs, faults = 0, None, [], 0
    pos = {}
    for i, s in enumerate(ids):
        pos[s] = i
    t0 = time.time()
    while start < len(ids):
        left = timeout - (time.time() - t0)
        if left < 5:
            raise ToolError("driver %s ran out of time" % tag)
        before = os.path.getsize(of)
        try:
            # VP_STDERR: a standard error that cannot be written
            with open(e["VP_STDERR"], "w") if "VP_STDERR" in e else contextlib.nullcontext(subprocess.PIPE) as err:
                r = subprocess.run([binary, sf, of, str(start), str(limit)], env=e, stdout=subprocess.DEVNULL, stderr=err, timeout=left)
        except subprocess.TimeoutExpired:
            raise ToolError("driver %s timed out" % tag)
        rcs.append(r.returncode)
        if r.returncode == 0:
            break
        # which session ended it?
        with open(of, "rb") as f:
            f.seek(before)
            tail = f.read().decode("utf-8", "replace")
        lines = [x for x in tail.split("\n") if x]
        if r.returncode in (77, 78) and lines and json.loads(lines[-1])["e"] in ("crash", "hang", "oom"):
            sid = json.loads(lines[-1])["s"]
            faults -= lines[-1].startswith('{"e":"oom"')  # as it should
        elif r.returncode < 0 or r.returncode == 77:
            # died without a word (killed, or a fault in the handler): the session after the last finished one
            fins = [json.loads(x)["s"] for x in lines if x.startswith('{"e":"fin"')]
            nxt = pos[fins[-1]] + 1 if fins else start
            if r.returncode == -9 or nxt >= len(ids):
                raise ToolError("driver %s ended with %d: %s" % (tag, r.returncode, (r.stderr or b"")[-500:]))
            sid = ids[nxt]
            with open(of, "a") as f:
                f.write('\n{"e":"crash","s":%d,"sig":%d,"r":0,"cell":0,"wr":0}\n' % (sid, -r.returncode if r.returncode < 0 else 11))
        else:
            raise ToolError("driver %s ended with %d: %s" % (tag, r.returncode, (r.stderr or b"")[-500:].decode("utf-8", "replace")))
        faults += 1
        start = pos[sid] + 1
        if faults > 20:
            break
    out = {}
    cur = None
    for ln in open(of):
        ln = ln.rstrip("\n")
        if not ln:
            continue
        if ln.startswith('{"e":"fin"'):
            cur = None
            continue
        if ln.startswith('{"e":"done"'):
            done = json.loads(ln)
            continue
        m = re.match(r'\{"e":"\w+","s":(\d+)', ln)
        if m:
            cur = int(m.group(1))
        if cur is None:
            continue
        out.setdefault(cur, []).append(ln)
    os.remove(of)
    return out, done


def places(env):
    v = env.get("VP_PLACES") or env.get("MATMUL_NUM_THREADS", "1")
    return min(4, int(v)) if v.isdigit() else 4


def drive_many(jobs, wd, par=8):
    """jobs: list of (tag, binary, sessions, env, limit); -> {tag: (recordings, done)}.
    A run with several threads takes as many of the `par` places: more of them at a time would
    only wait for each other."""
    cond = threading.Condition()
    free = [par]

    def one(j):
        need = min(par, max(1, places(j[3])))
        with cond:
            while free[0] < need:
                cond.wait()
            free[0] -= need
        try:
            return drive(j[1], j[2], wd, j[3], j[4] if len(j) > 4 else 60, j[0])
        finally:
            with cond:
                free[0] += need
                cond.notify_all()
    with ThreadPoolExecutor(max(1, len(jobs))) as ex:
        return dict(zip([j[0] for j in jobs], ex.map(one, jobs)))


TLC_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg=None, env=None, wd=None, workers=1, heap="3g", timeout=800, extra=(), stack="16m"):
    md = tempfile.mkdtemp(prefix="tlc", dir=wd)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-cp", JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar"),
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s timed out" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    st = TLC_STATS.findall(r.stdout)
    gen, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
    return r.returncode, r.stdout, gen, dist


VERD = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
BADT = re.compile(r'<<(-?\d+),\s*(-?\d+),\s*\\"(\w+)\\"')


SCR = re.compile(r'"scr":\{"n":\d+,"bytes":\d+,(.*?),"blk":\[.*?\]\},"fk":\d+,"steps":\d+,"sw":\d+\}$')


def plain(line):
    """without the numbers GemmTrace does not look at, so that equal behaviours are equal texts"""
    return SCR.sub(r'"scr":{\1}}', line)


CANARY = '{"e":"crash","s":0,"sig":0,"r":0,"cell":0,"wr":0}'


class Batch:
    """distinct recordings to be judged by one trace specification"""

    def __init__(self, module, cfg=None):
        self.module, self.cfg = module, cfg
        self.items = {}  # hash -> (lines, cost, [(tag, session id)])
        self.total = 0

    def add(self, tag, sid, lines, cost=0):
        self.total += 1
        if self.module == "GemmTrace":
            lines = [plain(x) for x in lines]
        h = hashlib.sha256("\n".join(lines).encode()).hexdigest()
        if h not in self.items:
            self.items[h] = (lines, cost + sum(len(x) for x in lines) / 20.0 + 500, [])
        self.items[h][2].append((tag, sid))

    def judge(self, wd, procs=8, timeout=700, heap="3g"):
        """-> list of (clause, session id, event line, [tags]); stats"""
        items = sorted(self.items.values(), key=lambda x: -x[1])
        if not items:
            return [], {"traces": 0, "events": 0, "states": 0, "transitions": 0, "recordings": 0}
        total = sum(i[1] for i in items)
        # as many shards as pay for a JVM each
        n = max(1, min(procs, len(items), int(total / 400000) + 1))
        shards = [[] for _ in range(n)]
        load = [0.0] * n
        for it in items:
            i = load.index(min(load))
            shards[i].append(it)
            load[i] += it[1]

        def one(i):
            f = os.path.join(wd, "%s-%d-%d.nd" % (self.module, id(self) % 100000, i))
            owner = []
            with open(f, "w") as o:
                for it in shards[i]:
                    for ln in it[0]:
                        o.write(ln + "\n")
                        owner.append((it, ln))
                # an event that is never allowed: it must come back as a violation
                o.write(CANARY + "\n")
                owner.append(None)
            rc, out, gen, dist = tlc(self.module, self.cfg, {"TRACE": f}, wd, timeout=timeout, heap=heap)
            m = VERD.search(out)
            if rc != 0 or not m or int(m.group(1)) != len(owner):
                keep = os.path.join(V, "evidence", "toolerror-%s.txt" % self.module)
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                open(keep, "w").write(out)
                shutil.copy(f, keep + ".nd")
                raise ToolError("TLC on %s: exit %d\n%s" % (self.module, rc, out[-1500:]))
            os.remove(f)
            res = []
            if len(BADT.findall(m.group(2))) != m.group(2).count('\\"') // 2 or (m.group(2) != "<<>>") != bool(BADT.search(m.group(2))):
                raise ToolError("verdict not understood: " + m.group(2)[:500])
            seen = False
            for sid, ln, cl in BADT.findall(m.group(2)):
                if int(ln) == len(owner):
                    seen = True
                    continue
                it, line = owner[int(ln) - 1]
                res.append((cl, int(sid), line, it[2], it[0]))
            if not seen:
                raise ToolError("TLC on %s did not report the event that is never allowed" % self.module)
            return res, len(owner) - 1, gen, dist
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, range(n)))
        bad = [b for r in rs for b in r[0]]
        return bad, {"traces": len(items), "recordings": self.total, "events": sum(r[1] for r in rs),
                     "transitions": sum(r[2] for r in rs), "states": sum(r[3] for r in rs)}
