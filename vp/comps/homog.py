from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if v else "."


class Homog(Comp):
    prop = "C20"
    driver = "drv_homog.cc"
    trace = ("HomographyTrace", "HomographyTrace.cfg")
    models = {
        "quick": [("HomographyMC", "HomographyMC_quad.cfg", dict(workers=1)), ("HomographyMC", "HomographyMC_aff.cfg", dict(workers=1))],
        "thorough": [("HomographyMC", "HomographyMC_quad.cfg", dict(workers=1)), ("HomographyMC", "HomographyMC_aff.cfg", dict(workers=1)),
                     ("HomographyMC", "HomographyMC_deep.cfg", dict(workers=6, timeout=900))],
    }
    assumptions = ["integer points and matrices, so that the expected results are exact; estimated homographies are compared through the points they map",
                   "sanity check: matrices whose four corner denominators are positive, bounds that are no exact tie"]
    chunk_events = 1500

    def mc_scripts(self, mc_cases, rng, tier):
        rng.shuffle(mc_cases)
        quads = [c["x"] for c in mc_cases if "x" in c]
        gens = [c["x"] for c in mc_cases if "x" in c and c["gen"]]
        mats = [c["h"] for c in mc_cases if "h" in c]
        if tier == "quick":
            mats = mats[:2500]
        L = []
        flat = lambda q: [v for p in q for v in p]
        for q in quads:
            off = rng.choice([0, 0, 1, -3])
            L.append("unit %s" % csv([v + off for v in flat(q)]))
        for q in gens:
            p = rng.choice(gens)
            ox, oy = rng.choice([0, 1, -2]), rng.choice([0, 1, 3])
            pm = [0, 1, 2, 3]
            rng.shuffle(pm)
            L.append("four %s %s %s" % (csv([v + ox for v in flat(q)]), csv([v + oy for v in flat(p)]), csv(pm)))
        for m in mats:
            L.append("check %s %d" % (csv(m), rng.randint(0, 8)))
        return [L[i:i + 40] for i in range(0, len(L), 40)]

    def gen_scripts(self, rng, tier):
        return [[self.op(rng) for _ in range(25)] for _ in range(120 if tier == "quick" else 2500)]

    def unimod(self, rng):
        a, b, c, d = rng.choice([(1, 0, 0, 1), (1, 2, 0, 1), (1, 0, -3, 1), (2, 1, 1, 1), (0, -1, 1, 0), (3, 2, 1, 1), (1, 0, 0, -1)])
        return [a, b, 0, c, d, 0, rng.randint(-5, 5), rng.randint(-5, 5), 1]

    def op(self, rng):
        r = lambda lo, hi: rng.randint(lo, hi)
        P = lambda n, lo, hi: [r(lo, hi) for _ in range(2 * n)]
        c = rng.random()
        if c < 0.15:
            h = [r(-9, 9) for _ in range(9)]
            if rng.random() < 0.3:
                h[2] = h[5] = 0
                h[8] = 1
            return "transfer %s %s %s" % (rng.choice(["c", "vgf", "vgd"]), csv(h), csv(P(1, -20, 20)))
        if c < 0.35:
            n = r(0, 7)
            h = [r(-4, 4) for _ in range(9)]
            h[2] = h[5] = 0
            h[8] = rng.choice([1, 1, 1, 2, -1, 4])
            x = P(n, -6, 6)
            inv = r(0, 1)
            src, dst = [], []
            for i in range(n):
                px, py = x[2 * i], x[2 * i + 1]
                u = (h[0] * px + h[3] * py + h[6]) // h[8]
                v = (h[1] * px + h[4] * py + h[7]) // h[8]
                k = rng.choice([0, 1, 1, 2, 3])
                dst += [u + r(-k, k), v + r(-k, k)]
            a, b = (dst, x) if inv else (x, dst)
            return "mark %d %s %d %s %s" % (inv, csv(h), r(1, 9), csv(a), csv(b))
        if c < 0.5:
            if rng.random() < 0.6:
                h = [r(-5, 5), r(-5, 5), 0, r(-5, 5), r(-5, 5), 0, r(-9, 9), r(-9, 9), rng.choice([1, 1, 2])]
            else:
                h = [r(-2, 3), r(-2, 2), 0, r(-2, 2), r(-2, 3), rng.choice([1, -1]), r(-2, 2), r(-2, 2), rng.choice([2, 3])]
                if rng.random() < 0.5:
                    h[2], h[5] = h[5], h[2]
            return "check %s %d" % (csv(h), r(0, 8))
        if c < 0.58:
            return "unit %s" % csv(P(4, -3, 3))
        if c < 0.7:
            n = r(4, 6)
            pm = rng.sample(range(n), 4)
            return "four %s %s %s" % (csv(P(n, -3, 3)), csv(P(n, -3, 3)), csv(pm))
        if c < 0.8:
            n, inl = r(0, 9), r(0, 1)
            h = [r(-3, 3) for _ in range(9)]
            h[2] = h[5] = 0
            h[8] = 1
            if h[0] * h[4] == h[1] * h[3]:
                h[0], h[1], h[3], h[4] = 2, 1, -1, 3
            if rng.random() < 0.35:
                # a line, then the points that settle the rest at the end
                n = r(5, 9)
                dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (2, -1)])
                x = []
                for i in range(n - 2):
                    x += [dx * (i - 2), dy * (i - 2)]
                x += P(2, -10, 10)
                return "dlt %d %s %s %s" % (inl, csv(h), csv(x), csv([1 if i >= n - 2 or rng.random() < 0.85 else 0 for i in range(n)]))
            return "dlt %d %s %s %s" % (inl, csv(h), csv(P(n, -10, 10)), csv([1 if rng.random() < 0.75 else 0 for _ in range(n)]))
        if c < 0.9:
            n = r(1, 6)
            h = self.unimod(rng)
            x = P(n, -6, 6)
            xp = []
            for i in range(n):
                px, py = x[2 * i], x[2 * i + 1]
                xp += [h[0] * px + h[3] * py + h[6] + r(-3, 3), h[1] * px + h[4] * py + h[7] + r(-3, 3)]
            return "terr %s %s %s %s %s" % (rng.choice(["fwd", "bwd", "sym"]), csv(h), csv(x), csv(xp), csv([r(0, 1) for _ in range(n)]))
        n = r(1, 7)
        h = [r(10, 20), r(-4, 4), r(-1, 1), r(-4, 4), r(10, 20), r(-1, 1), r(-8, 8), r(-8, 8), 32]
        x = P(n, -30, 30)
        if rng.random() < 0.15:
            x = x[:2] * n
        return "stats %s %s %s %s" % (rng.choice(["c", "vg"]), csv(x), csv(P(n, -30, 30)), csv(h))

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("mark", "dlt", "terr") and (e["op"] != "terr" or 1 in e["in"])]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "mark":
            e["got"] += 1
        elif e["op"] == "dlt":
            e["max"] = not e["max"]
        else:
            e["r"] += 9
        return evs


COMP = {"C20": Homog()}
