#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/registry.json and the components' own descriptions."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
reg = json.load(open(V + "/vp/registry.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"default": "no specification of this part has been built yet"}
if os.path.exists(V + "/vp/not_applicable.json"):
    NA.update(json.load(open(V + "/vp/not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in reg:
        na.append({"property": i, "reason": NA.get(i, NA["default"])})
        continue
    c = importlib.import_module("vp.comps." + reg[i]).COMP[i]
    mods = sorted({m[0] for t in c.models.values() for m in t})
    note = ("TLC checks the specification (%s) exhaustively within the bounds of its configurations; every behaviour "
            "emitted from it and seeded random histories are executed by the real code (rebuilt from /repo, address "
            "sanitizer on) and every recorded execution is accepted or rejected by TLC against %s. "
            % (", ".join(mods) or "no bounded model", c.trace[0]))
    note += "Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else ""
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                   "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": getattr(c, "technique", "TLA+ specification checked with TLC; model behaviours replayed "
                                        "into the code and recorded traces validated by TLC"),
                   "level": c.level, "level_note": note})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "VP_HOOKS", "enable": "no hook is needed: the checks compile /repo's sources unchanged",
               "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
