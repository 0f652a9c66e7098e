#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl")) if x.strip()]
NA = {
    "C21": "The AArch64 kernels cannot be built or run here: no aarch64 target, linker or emulator is installed.",
}
TR = "TLA+ specification (TLC); recordings of the real library validated against it"
NOTE = ("Every recorded execution is judged by the TLA+ specification with TLC. Assurance extends to the executions explored: inputs drawn "
        "from the seed by the families named in DESIGN.md, in the build configurations listed in the evidence. Trusted: the driver's "
        "recording of memory, TLC, the compiler.")
m = {"version": 1, "setup_cmd": "python3 tools/vp.py setup",
     "checks": [], "not_applicable": [], "notes": "All checks: python3 tools/vp.py check ID [--tier thorough]. No changes to /repo are needed (no hooks)."}
for p in props:
    f = checks.ALL.get(p["id"])
    if f:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/vp.py check %s" % p["id"],
                            "thorough_cmd": "python3 tools/vp.py check %s --tier thorough" % p["id"],
                            "technique": getattr(f, "technique", None) or TR, "level": "model_checking",
                            "level_note": (f.__doc__.strip() + " " if f.__doc__ else "") + NOTE})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "No check has been built for it yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
