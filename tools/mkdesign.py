#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the per-property notes below,
the registry and the planted bugs (seeded/*/meta.json)."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
reg = json.load(open(os.path.join(ROOT, "vp/registry.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = {}
cur = None
for line in open(os.path.join(ROOT, "tools/design_notes.md")):
    if line.startswith("## "):
        cur = line[3:].strip()
        notes[cur] = ""
    elif cur:
        notes[cur] += line
bugs = {}
sd = os.path.join(ROOT, "seeded")
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    bugs.setdefault(m["property"], []).append((b, m))
def closure(mod, seen=None):
    """the local modules a trace specification is made of"""
    seen = [] if seen is None else seen
    f = os.path.join(ROOT, "specs", mod + ".tla")
    if mod in seen or not os.path.exists(f):
        return seen
    seen.append(mod)
    t = open(f).read()
    for m in re.findall(r"EXTENDS ([^\n]*)", t)[:1]:
        for x in m.split(","):
            closure(x.strip(), seen)
    for x in re.findall(r"INSTANCE (\w+)", t):
        closure(x, seen)
    return seen


out = [open(os.path.join(ROOT, "tools/design_head.md")).read().rstrip() + "\n\n## Property by property\n"]
for p in props:
    k = p["id"]
    out.append("\n### %s %s\n" % (k, p["title"]))
    if k in reg:
        c = importlib.import_module("vp.comps." + reg[k]).COMP[k]
        mods = sorted({m[0] for t in c.models.values() for m in t})
        out.append("Specification: %s; models %s; driver `harness/%s`; generator `vp/comps/%s.py`.\n"
                   % (", ".join("`specs/%s.tla`" % m for m in closure(c.trace[0])),
                      ", ".join("`%s` (%s)" % m for m in dict.fromkeys((x[0], x[1]) for x in c.models["quick"])), c.driver, reg[k]))
    out.append((notes.get(k, "").strip() or "(no note)") + "\n")
    if k in reg:
        out.append("Assumptions: " + "; ".join(c.assumptions) + ".\n")
    if bugs.get(k):
        out.append("Planted bugs caught: " + "; ".join("`%s` (%s)" % (b, m["needs"].rstrip(".")) for b, m in bugs[k]) + ".\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
