from ..core import Comp

VIAS = ["build", "build", "build", "build0", "update", "vg", "vgre"]


class Pyramid(Comp):
    prop = "C15"
    driver = "drv_pyr.cc"
    trace = ("PyramidTrace", "PyramidTrace.cfg")
    models = {
        "quick": [("PyramidMC", "PyramidMC_quick.cfg", dict(workers=1)), ("PyramidMC", "PyramidMC_reuse.cfg", dict(workers=1))],
        "thorough": [("PyramidMC", "PyramidMC_quick.cfg", dict(workers=1)), ("PyramidMC", "PyramidMC_reuse.cfg", dict(workers=1)),
                     ("PyramidMC", "PyramidMC_deep.cfg", dict(workers=6, timeout=900))],
    }
    assumptions = ["gray images with at least one pixel; pyramids keep at least one pixel in every level of a fine or scaled pyramid",
                   "updating means: the new image was put into level 0 first",
                   "pixels after smoothing are compared within two levels (bytes) of the exact convolution, floats within 1/40"]
    chunk_events = 60

    def seti(self, b, c, fresh):
        return "set %d %s %d %d %d %d %d %d" % (b, c["k"], c["n"], c["steps"], c["p"], c["q"], c["s0"], fresh)

    def mc_scripts(self, mc_cases, rng, tier):
        res = []
        rng.shuffle(mc_cases)
        if tier == "quick":
            mc_cases = [c for c in mc_cases if len([r for r in c if r["op"] == "build"]) > 1] + mc_cases[:260]
        for c in mc_cases:
            L, cur, ok = [], None, True
            for r in c:
                if r["op"] == "set":
                    cur = r["c"]
                    L.append(self.seti(1, cur, rng.randint(0, 1)))
                elif self.legal(cur, r["w"], r["h"]):
                    L.append("build 1 1 %s %d %d %d %d %d %d" % (rng.choice(VIAS), r["w"], r["h"], rng.choice([0, 0, 1]),
                                                                 rng.choice([0, 0, 3]), rng.randint(1, 9999), rng.randint(0, 4)))
                else:
                    L.append("init 1 1 %d %d" % (r["w"], r["h"]))
            res.append(L)
        return res

    def legal(self, c, w, h):
        if c["k"] == "fast":
            return True
        o = (c["n"] - 1) // c["steps"]
        f = (c["p"] / c["q"]) ** o
        return int(w / f - 1e-6) >= 1 and int(h / f - 1e-6) >= 1

    def gen_scripts(self, rng, tier):
        return [self.history(rng) for _ in range(90 if tier == "quick" else 500)]

    def cfg(self, rng):
        k = rng.choice(["fast", "fine", "scaled"])
        s0 = rng.choice([512, 300, 1024, 820, 1229, 1640])
        if k == "fast":
            return dict(k=k, n=rng.randint(1, 4), steps=1, p=2, q=1, s0=s0)
        if k == "fine":
            st = rng.randint(1, 3)
            return dict(k=k, n=st * rng.randint(1, 3), steps=st, p=2, q=1, s0=s0)
        p, q = rng.choice([(3, 2), (2, 1), (5, 4), (4, 3), (6, 5)])
        return dict(k=k, n=rng.randint(1, 3), steps=1, p=p, q=q, s0=rng.choice([512, 700, 900, 200]))

    def history(self, rng):
        L, cf, last = [], {}, {}
        for _ in range(rng.randint(3, 9)):
            c = rng.random()
            b, p = rng.randint(1, 2), rng.randint(1, 2)
            if b not in cf or c < 0.25:
                cf[b] = self.cfg(rng)
                L.append(self.seti(b, cf[b], rng.randint(0, 1)))
            elif c < 0.85:
                w, h = rng.randint(1, 14), rng.randint(1, 14)
                via = rng.choice(VIAS)
                if b in last and rng.random() < 0.5:      # a second image of the same size
                    w, h = last[b]
                    via = rng.choice(["build", "build0", "update"])
                if not self.legal(cf[b], w, h):
                    w, h = 14, 13
                if not self.legal(cf[b], w, h):
                    continue
                last[b] = (w, h)
                L.append("build %d %d %s %d %d %d %d %d %d" % (b, p, via, w, h, rng.choice([0, 0, 0, 1]), rng.choice([0, 0, 1, 4]),
                                                               rng.randint(1, 99999), rng.choice([0, 0, 1, 2, 3, 4])))
            elif c < 0.9:
                L.append("base %d %d %d %d %d %d %d %d %d" % (p, rng.randint(1, 4), rng.randint(1, 14), rng.randint(1, 14), rng.randint(0, 1), rng.choice([0, 3]),
                                                              rng.randint(1, 9999), rng.randint(0, 4), rng.choice([100, 512, 1640])))
            elif c < 0.93:
                L.append("clear %d" % p)
            elif c < 0.97:
                L.append("init %d %d %d %d" % (b, p, rng.randint(1, 700), rng.randint(1, 500)))
            else:
                L.append("drop %d" % p)
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "build"]
        if not c:
            return None
        e = rng.choice(c)
        lv = rng.choice(e["lv"])
        if rng.random() < 0.5 and lv["px"]:
            lv["px"][rng.randrange(len(lv["px"]))] += 9 if lv["dt"] == 0 else 60000
        else:
            k = rng.choice(["w", "h", "scale"])
            lv[k] += 5 if k != "scale" else 900
        return evs


COMP = {"C15": Pyramid()}
