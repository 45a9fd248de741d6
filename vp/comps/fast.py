import itertools
from ..core import Comp


class Fast(Comp):
    prop = "C16"
    driver = "drv_fast.cc"
    trace = ("FastTrace", "FastTrace.cfg")
    models = {
        "quick": [("FastMC", "FastMC_ring.cfg", dict(workers=2)), ("FastMC", "FastMC_supp.cfg", dict(workers=1)),
                  ("FastMC", "FastMC_suppb.cfg", dict(workers=1)), ("FastMC", "FastMC_adapt.cfg", dict(workers=1))],
        "thorough": [("FastMC", "FastMC_ringdeep.cfg", dict(workers=2)), ("FastMC", "FastMC_supp.cfg", dict(workers=1)),
                     ("FastMC", "FastMC_suppb.cfg", dict(workers=1)), ("FastMC", "FastMC_adapt.cfg", dict(workers=1)),
                     ("FastMC", "FastMC_adaptdeep.cfg", dict(workers=1)), ("FastMC", "FastMC_suppdeep.cfg", dict(workers=4, timeout=900))],
    }
    assumptions = ["thresholds from 0 to 254; corner lists given to suppression are in raster order with whole-number scores",
                   "orientations are compared as directions, within 2/10000"]
    chunk_events = 120

    def mc_scripts(self, mc_cases, rng, tier):
        res = []
        supp = [c for c in mc_cases if c["t"] == "supp"]
        adap = [c for c in mc_cases if c["t"] == "adapt"]
        rng.shuffle(supp)
        rng.shuffle(adap)
        if tier == "quick":
            supp, adap = supp[:1500], adap[:400]
        L = []
        for c in supp:
            ox, oy = rng.choice([(0, 0), (3, 3), (5, 1)])
            pts = ["%d,%d,%d" % (ox + i % c["w"], oy + i // c["w"], v) for i, v in enumerate(c["g"]) if v > 0]
            L.append("supp %d %s" % (rng.choice([99, 99, 99, 1, 2, 3]), " ".join(pts)))
            if len(L) == 25:
                res.append(L)
                L = []
        L = []
        for c in adap:
            L += ["new 1", "thr 1 %d" % c["s"][0]] + ["adapt 1 %d %d" % tuple(x) for x in c["s"][1:]]
            if len(L) > 60:
                res.append(L)
                L = []
        # every ring there is, through the segment test and through the score
        for which, depth in (("detect", 4), ("score", 5)):
            for pre in itertools.product(range(3), repeat=depth):
                res.append(["rings %s %s" % (which, ",".join(map(str, pre)))])
        return res

    def gen_scripts(self, rng, tier):
        return [self.history(rng) for _ in range(70 if tier == "quick" else 700)]

    def history(self, rng):
        L, ds = [], set()
        sz = lambda: (rng.randint(1, 17), rng.randint(1, 15)) if rng.random() < 0.2 else (rng.randint(7, 17), rng.randint(7, 14))
        thr = lambda: rng.choice([0, 1, 5, 10, 15, 20, 40, 80, 150, 253])
        mx = lambda: rng.choice([1, 2, 3, 5, 200, 200])
        for _ in range(rng.randint(4, 10)):
            c = rng.random()
            w, h = sz()
            pad = rng.choice([0, 0, 1, 5])
            sd, kd = rng.randint(1, 99999), rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 6])
            d = rng.randint(1, 2)
            if c < 0.3:
                L.append("detect %d %d %d %d %d %d %d" % (w, h, pad, sd, kd, thr(), mx()))
            elif c < 0.4:
                pts = sorted({(rng.randint(0, 9), rng.randint(0, 7)) for _ in range(rng.randint(0, 40))}, key=lambda p: (p[1], p[0]))
                L.append("supp %d %s" % (mx(), " ".join("%d,%d,%d" % (x, y, rng.randint(1, 4)) for x, y in pts)))
            elif d not in ds:
                L.append("new %d" % d)
                ds.add(d)
                if rng.random() < 0.6:
                    L.append("ori %d 1 %d" % (d, rng.randint(1, 5)))
            elif c < 0.6:
                L.append("run %d %d %d %d %d %d %d" % (d, w, h, pad, sd, kd, rng.choice([0, 1, 2, 3, 100])))
            elif c < 0.75:
                lv = rng.randint(1, 3)
                L.append("pyr %d %d %d %d %d %d %d %d %d" % (d, lv, max(w, 6), max(h, 4), pad, sd, kd, mx(), rng.randint(-1, lv + 1)))
            elif c < 0.82:
                lv = rng.randint(1, 3)
                L.append("cpyr 0 %d %d %d %d %d %d %d %d %d %d" % (lv, max(w, 6), max(h, 4), pad, sd, kd, mx(), rng.randint(-1, lv + 1),
                                                                 thr(), rng.choice([3, 8, 300])))
            elif c < 0.87:
                L.append("ori %d %d %d" % (d, rng.randint(0, 1), rng.randint(1, 5)))
            elif c < 0.92:
                for _ in range(rng.choice([1, 1, 6])):
                    m = rng.choice([1, 3, 20, 50, 100, 103, 128, 200, 500, 1000, 1024, 5000, 20000, 100000])
                    near = [1014 * m // 1024, 921 * m // 1024, 716 * m // 1024, m]
                    L.append("adapt %d %d %d" % (d, max(0, rng.choice(near) + rng.choice([-1, 0, 0, 1])) if rng.random() < 0.7 else rng.randint(0, m + 3), m))
            elif c < 0.97:
                L.append("thr %d %d" % (d, thr()))
            else:
                L.append("free %d" % d)
                ds.discard(d)
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("detect", "run", "supp", "pyr", "cpyr") and e["ks"]] + [e for e in evs if e["op"] == "rings" and e["acc"]]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "rings":
            e["acc"].pop(rng.randrange(len(e["acc"])))
        elif rng.random() < 0.5:
            e["ks"].pop(rng.randrange(len(e["ks"])))
            if "sc" in e:
                e["sc"].pop()
        else:
            rng.choice(e["ks"])[rng.choice(["x", "y", "id"])] += 1
        return evs


COMP = {"C16": Fast()}
