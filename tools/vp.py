#!/usr/bin/env python3
"""vp.py check ID [--tier quick|thorough] | vp.py setup"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import builds, checks, ctx, run


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "setup":
        names = sorted({n for f in checks.ALL.values() for n in getattr(f, "builds", [])})
        _, t = builds.build_all(names)
        print("built %d configurations in %.1fs" % (len(names), t))
        return 0
    if a[0] == "check":
        c = ctx.Ctx(a[1], tier, seed)
        try:
            c.build(checks.ALL[a[1]].builds)
            checks.ALL[a[1]](c)
        except (run.ToolError, builds.BuildError) as e:
            print("TOOL ERROR: %s" % e)
            return 2
        except Exception:
            traceback.print_exc()
            return 2
        return c.finish()
    print(__doc__)
    return 2


sys.exit(main())
