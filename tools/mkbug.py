"""Helper used to write a planted change: edits -> seeded/<id>/{patch.diff,demo.sh,demo.cc,meta.json}."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -w -O1 -I/repo/include $(pkg-config --cflags cairo) "$here/demo.cc" /repo/lib/libvirg-nexus.a \
  -lm -llapack -lcblas -lpng -ljpeg $(pkg-config --libs cairo) -o "$d/demo" || exit 99
cd "$d" && timeout 60 ./demo
'''


def bug(id, prop, edits, needs, breaks, cc=None, sh=None, extra=()):
    for f, a, b in edits:
        p = "/repo/" + f
        s = open(p, encoding="latin-1").read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w", encoding="latin-1").write(s.replace(a, b))
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git -C /repo diff; git -C /repo checkout -- .", shell=True, stdout=subprocess.PIPE).stdout
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(sh or DEMO)
    if cc:
        open(d + "/demo.cc", "w").write(cc)
    for n, t in extra:
        open(d + "/" + n, "w").write(t)
