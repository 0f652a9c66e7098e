"""What all checks share: work directory, evidence, violations, known findings."""
import json, os, re, shutil, sys, tempfile, time
import builds, run

V = run.V
EV = os.path.join(V, "evidence")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        os.makedirs(EV, exist_ok=True)
        base = os.path.join(V, "target", "work")
        os.makedirs(base, exist_ok=True)
        self.wd = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "recordings": 0, "events": 0,
                    "design_models": [], "builds": []}
        self.assume = []
        self.viol = []
        self.known = []
        p = os.path.join(V, "known_findings.json")
        self.kf = [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"] if os.path.exists(p) else []
        self.level = "model_checking"
        self.log = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, s):
        self.log.append("%6.1f %s" % (time.time() - self.t0, s))
        print("# %6.1fs %s" % (time.time() - self.t0, s), flush=True)

    def build(self, names):
        names = list(dict.fromkeys(names))
        r, t = builds.build_all(names)
        self.note("built %d configurations in %.1fs" % (len(names), t))
        self.cov["builds"] = sorted(set(self.cov["builds"]) | set(names))
        return r

    def stats(self, st):
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov["traces_validated_against_impl"] += st["traces"]
        self.cov["recordings"] += st["recordings"]
        self.cov["events"] += st["events"]

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, what, detail, key=None):
        """key: stable identification of the failing input, for known findings"""
        for k in self.kf:
            if key is not None and k.get("key") == key:
                if k["key"] not in self.known:
                    self.known.append(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        self.viol.append((what, detail))

    def design(self, module, cfg=None, expect="ok", workers=4, timeout=600, heap="4g", extra=(), what=""):
        """exhaustive check of a model on its own; expect 'ok' or the name of the violated invariant"""
        rc, out, gen, dist = run.tlc(module, cfg, None, self.wd, workers=workers, timeout=timeout, heap=heap, extra=extra)
        if expect == "ok":
            if rc != 0:
                raise run.ToolError("model %s (%s): TLC exit %d\n%s" % (module, cfg, rc, out[-2500:]))
        elif rc == 0 or expect not in out:
            raise run.ToolError("model %s (%s) should violate %s; TLC exit %d\n%s" % (module, cfg, expect, rc, out[-1500:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["design_models"].append({"module": module, "cfg": cfg or module + ".cfg", "states": dist, "transitions": gen,
                                          "result": "holds" if expect == "ok" else "violates %s as it must" % expect, "what": what})
        self.note("model %s %s: %d states, %s" % (module, cfg or "", dist, "ok" if expect == "ok" else "refuted as expected"))
        return out

    def designs(self, *models):
        """several of them at a time: (module, cfg, expect, what)"""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(self.design, m, cfg + ".cfg", e, 2, 600, "2g", x, w) for m, cfg, e, x, w in models]:
                f.result()

    def finish(self):
        cov = self.cov
        cov["exhaustive"] = False
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        if not cov["samples"]:
            cov["samples"] = ["none"]
        cov["log"] = self.log[-40:]
        json.dump(ev, open(os.path.join(EV, self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.wd, ignore_errors=True)
        if self.viol:
            rp = os.path.join(EV, "replay-%s.txt" % self.pid)
            with open(rp, "w") as f:
                for w, d in self.viol[:20]:
                    f.write("==== %s\n%s\n" % (w, d))
            for w, d in self.viol[:5]:
                print("# " + w[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s states=%d traces=%d recordings=%d wall=%.1fs" % (
            self.pid, cov["states"], cov["traces_validated_against_impl"], cov["recordings"], time.time() - self.t0))
        return 0


def replay(ctx, sessions, runs, limit=60):
    """every session in every run (tag, build, env) -> {tag: {session id: [lines]}}"""
    bins = ctx.build([b for _, b, _ in runs])
    jobs = [(tag, bins[b], [s for s in sessions if not getattr(s, "only", None) or tag in s.only], env, limit) for tag, b, env in runs]
    rec = run.drive_many(jobs, ctx.wd)
    ctx.note("replayed %d sessions in %d runs" % (len(sessions), len(runs)))
    for s in sessions[:: max(1, len(sessions) // 3)][:3]:
        ctx.sample(s.text()[:600])
    return rec


def report(ctx, bad, clauses, by, runs):
    envs = {t: (b, e) for t, b, e in runs}
    for cl, sid, line, owners, lines in bad:
        if cl == "illegal":
            raise run.ToolError("generator made an illegal call: session %d\n%s" % (sid, by[sid].text()))
        if cl in clauses:
            tag, osid = owners[0]
            sid = sid if sid in by else osid
            ctx.violation("%s: session %d in %s (%d recordings): %s" % (cl, sid, tag, len(owners), line[:300]),
                          "clause %s\nbuild and environment: %s\nall runs: %s\nsession:\n%s\nrecorded event:\n%s\n" % (
                              cl, envs.get(tag, tag), sorted({o[0] for o in owners}), by[sid].text(), line[:20000]))


def judged(ctx, bt, what, timeout=700):
    bad, st = bt.judge(ctx.wd, timeout=timeout)
    ctx.stats(st)
    ctx.note("TLC (%s) judged %d distinct recordings of %d (%d events)%s" % (
        bt.module, st["traces"], st["recordings"], st["events"], what))
    return bad


def conformance(ctx, sessions, runs, clauses, module="GemmTrace", limit=60, cfg=None, timeout=700):
    """Replay and judge the recordings by GemmTrace."""
    by = {int(s.l[0].split()[1]): s for s in sessions}
    rec = replay(ctx, sessions, runs, limit)
    bt = run.Batch(module, cfg)
    for tag, (r, done) in rec.items():
        for sid, lines in r.items():
            bt.add(tag, sid, lines, by[sid].macs)
    bad = judged(ctx, bt, "", timeout)
    report(ctx, bad, clauses, by, runs)
    return rec, bad


KEEP = tuple('{"e":"%s"' % x for x in ("tree", "acc", "fork", "alt", "join", "panic", "crash", "hang"))


def accesses(ctx, sessions, runs, clauses, bound=False, limit=60, timeout=700):
    """Replay in instrumented builds and judge what was read and written by Access."""
    by = {int(s.l[0].split()[1]): s for s in sessions}
    rec = replay(ctx, sessions, runs, limit)
    bt = run.Batch("Access")
    forked = 0
    names, envs = {t: b for t, b, _ in runs}, {t: e for t, _, e in runs}
    for tag, (r, done) in rec.items():
        cf = builds.block_sizes(dict((t, b) for t, b, _ in runs)[tag])
        cf["threads"] = 4 if builds.BUILDS[names[tag]].crate == "hooked" and envs[tag].get("MATMUL_NUM_THREADS") != "1" else 1
        for sid, lines in r.items():
            ls = []
            wo = sorted({int(o) for x in lines if x.startswith('{"e":"acc"') for o in WR.findall(x)})
            for x in lines:
                if not x.startswith(KEEP):
                    continue
                if x.startswith('{"e":"acc"'):
                    ls.append(THR.sub("", x))
                    continue
                if x.startswith('{"e":"tree"'):
                    x = STEPS.sub("", x)[:-1] + ',"wo":%s,"cfg":%s}' % (wo, json.dumps(cf) if bound else "{}")
                if x.startswith('{"e":"fork"'):
                    forked += 1
                ls.append(x)
            bt.add(tag, sid, ls, sum(len(x) for x in ls) / 2)
    ctx.cov["forks_recorded"] = ctx.cov.get("forks_recorded", 0) + forked
    bad = judged(ctx, bt, ", %d forks" % forked, timeout)
    report(ctx, bad, clauses, by, runs)
    return rec, bad


WR = re.compile(r'\[(\d+),1,\[')
THR = re.compile(r'"th":\d+,')
STEPS = re.compile(r',"steps":\d+,"switches":\d+')
DIGS = re.compile(r'"s":(\d+),"t":\d+,')


def functional(ctx, sessions, runs, by="build", limit=60, timeout=700, clauses=("differs", "panic", "crash", "hang")):
    """Replay and judge by Fun: within a group the same arguments give the same bits.
    by='build': calls made by the same build, in all its runs and sessions of the same comparison."""
    byid = {int(s.l[0].split()[1]): s for s in sessions}
    rec = replay(ctx, sessions, runs, limit)
    bt = run.Batch("Fun")
    build = {t: b for t, b, _ in runs}
    groups = {}
    pairs = 0
    for tag, (r, done) in rec.items():
        for sid, lines in r.items():
            g = groups.setdefault((build[tag] if by == "build" else "", getattr(byid[sid], "group", sid)), ([], {}, []))
            g[2].append((tag, sid))
            for ln in lines:
                k = DIGS.sub("", ln)
                if k in g[1] and ln.startswith('{"e":"dig"'):
                    pairs += 1
                    continue
                g[1][k] = 1
                if ln.startswith(('{"e":"dig"', '{"e":"panic"', '{"e":"crash"', '{"e":"hang"')):
                    g[0].append(DIGS.sub(r'"s":\1,', ln))
    distinct = 0
    for (b, gid), (lines, _, owners) in groups.items():
        bt.add(owners[0][0], gid, ['{"e":"group","s":%d}' % gid] + lines)
        distinct += len(lines)
    ctx.cov["calls_compared"] = ctx.cov.get("calls_compared", 0) + pairs
    bad = judged(ctx, bt, ", %d calls equal to an earlier one" % pairs, timeout)
    report(ctx, bad, set(clauses), byid, runs)
    return rec, bad
