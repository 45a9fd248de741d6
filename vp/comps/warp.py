from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if len(v) else "."


ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (4, 3, 5), (3, 4, 5), (-3, 4, 5), (4, -3, 5), (-4, -3, 5)]


class Warp(Comp):
    prop = "C26"
    driver = "drv_warp.cc"
    trace = ("WarpTrace", "WarpTrace.cfg")
    models = {"quick": [("WarpMC", "WarpMC_quick.cfg", dict(workers=1))],
              "thorough": [("WarpMC", "WarpMC_quick.cfg", dict(workers=1)), ("WarpMC", "WarpMC_deep.cfg", dict(workers=6, timeout=900))]}
    assumptions = ["affine warps with coefficients in quarters, so that positions and weights are exact; rotations by 45 degrees to 5 grey levels; "
                   "transforms built from angles with rational cosines; the warp processor on brightness ramps, away from the edges, where blurring "
                   "and repeated interpolation leave the ramp unchanged"]
    chunk_events = 120

    def mc_scripts(self, mc, rng, tier):
        rng.shuffle(mc)
        L = ["warp %d %d %s %d 3 3 %d %s %d" % (c["w"], c["h"], csv(c["p"]), rng.choice([0, 0, 2]), rng.choice([0, 1]), csv(c["t"]), c["m"])
             for c in (mc[:1200] if tier == "quick" else mc)]
        return [L[i:i + 20] for i in range(0, len(L), 20)]

    def gen_scripts(self, rng, tier):
        k = 1 if tier == "quick" else 15
        out = [[self.warp(rng) for _ in range(10)] for _ in range(40 * k)]
        out += [[self.rot(rng) for _ in range(3)] for _ in range(20 * k)]
        out += [[self.tr(rng) for _ in range(30)] for _ in range(15 * k)]
        out += [[self.proc(rng) for _ in range(2)] for _ in range(24 * k)]
        out += [["edge %d %d %d %d" % (ax, sc, t, p) for sc in (2, 3, 4) for p in (0, 1, 2)] for ax in (0, 1) for t in (1, 2, 3, 4)]
        return out

    def warp(self, rng):
        r = rng.randint
        w, h = r(1, 7), r(1, 7)
        dw, dh = r(1, 8), r(1, 8)
        if rng.random() < 0.3:
            t = [4, 0, 0, 4, r(-30, 30), r(-30, 30)]
        else:
            t = [r(-9, 9) for _ in range(4)] + [r(-60, 60), r(-60, 60)]
        return "warp %d %d %s %d %d %d %d %s %d" % (w, h, csv([r(0, 255) for _ in range(w * h)]), rng.choice([0, 0, 1, 5]), dw, dh,
                                                    rng.choice([0, 0, 3]), csv(t), r(0, 4))

    def rot(self, rng):
        r = rng.randint
        w, h = r(2, 12), r(2, 12)
        dw, dh = r(1, 14), r(1, 14)
        return "rot45 %s %d %d %d %d %d %s" % (rng.choice("uf"), r(0, 1), w, h, dw, dh, csv([r(0, 255) for _ in range(w * h)]))

    def tr(self, rng):
        r = rng.randint
        c = rng.random()
        P = lambda: csv([r(-9, 9), r(-9, 9)])
        if c < 0.3:
            return "sim %s %d %s %s %s" % (rng.choice("sd"), r(1, 3), csv(rng.choice(ANG)), P(), P())
        if c < 0.7:
            return "aff %s %d %s %d %s %s %s" % (rng.choice("sd"), r(1, 3), csv(rng.choice(ANG)), r(1, 3), csv(rng.choice(ANG)), P(), P())
        lim = rng.choice([2, 3, 8])
        s = rng.choice("sdd") if lim < 8 else "d"
        if rng.random() < 0.5:
            q = [r(-1, 1), r(-1, 1), lim + r(0, 1), r(-1, 1), lim + r(0, 1), lim + r(-1, 1), r(-1, 1), lim + r(0, 1)]
        else:
            q = [r(-lim, lim) for _ in range(8)]
        return "persp %s %s" % (s, csv(q))

    def proc(self, rng):
        r = rng.randint
        w, h = r(8, 30), r(8, 30)
        gx, gy = r(-4, 4), r(-4, 4)
        base = 0
        lo = min(0, gx * (w - 1)) + min(0, gy * (h - 1))
        base = 10 - lo
        sc = rng.choice([1, 2, 2, 2, 2, 3, 4])
        tilt = rng.choice([1, 1, 1, 2, 3])
        return "proc %d %d %d %d %d %d %s %d %s %d %s %d" % (w, h, base, gx, gy, sc, csv(rng.choice(ANG)), tilt, csv(rng.choice(ANG)),
                                                             rng.choice([0, 0, 0, 1]), rng.choice(["fixed", "fixed", "repeat", "noise"]), r(0, 255))

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("warp", "sim", "aff") and e.get("mode") != 2]
        if not c:
            return None
        e = rng.choice(c)
        e["r"][rng.randrange(2)] += 9
        return evs


COMP = {"C26": Warp()}
