from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if v else "."


DIRS = {1: "A", 2: "def"}
# directions of a slope, in thousandths per pixel
DIR = [(50, 0), (0, 50), (-50, 0), (0, -50), (40, 30), (-30, 40), (-40, -30), (30, -40), (35, -35), (48, 14), (-14, 48)]


class Sift(Comp):
    prop = "C30"
    driver = "drv_sift.cc"
    trace = ("SiftTrace", "SiftTrace.cfg")
    models = {
        "quick": [("SiftMC", "SiftMC_hist.cfg", dict(workers=1)), ("SiftMC", "SiftMC_match.cfg", dict(workers=1))],
        "thorough": [("SiftMC", "SiftMC_hist.cfg", dict(workers=1)), ("SiftMC", "SiftMC_match.cfg", dict(workers=1)),
                     ("SiftMC", "SiftMC_deep.cfg", dict(workers=6, timeout=1500)), ("SiftMC", "SiftMC_mdeep.cfg", dict(workers=6, timeout=1500))],
    }
    assumptions = ["border distance at least two, one to four scales per octave",
                   "blobs are isolated, off the pixel centres' ties and a few pixels from the border; their keys are found within tolerance",
                   "a damaged entry of a result directory is a short one or one with an impossible count; other alterations are not noticed by the format"]
    chunk_events = 500

    PAR = [0, 3, 1600, 4, 5, 40000, 10000, 3]

    def par(self, rng):
        p = list(self.PAR)
        p[0] = rng.randint(0, 1)
        if rng.random() < 0.5:
            p[1] = rng.randint(1, 4)
            p[2] = rng.choice([1600, 1600, 1200, 2000, 400])
            p[3] = rng.choice([3, 4])
            p[4] = rng.choice([2, 3, 5, 8])
            p[5] = rng.choice([10000, 20000, 40000, 80000])
            p[6] = rng.choice([5000, 10000, 20000])
            p[7] = rng.choice([2, 3])
        return p

    def busy(self, rng, f32=None, small=False):
        """an image with some structure"""
        w, h = rng.choice([(20, 28), (32, 24), (36, 36), (17, 33)]) if small else (rng.randint(14, 72), rng.randint(14, 72))
        f = rng.randint(0, 1) if f32 is None else f32
        p = [w, h, 0, f, 0, 1, 500, 0, 0, 0, 0, 0, 0, rng.choice([0, 300, 1500] if f and w * h < 1500 else [0, 300]), rng.randint(1, 999)]
        for _ in range(rng.randint(2, 9)):
            p += [rng.randint(0, 1000 * w), rng.randint(0, 1000 * h), rng.randint(900, 5000), rng.randint(-500, 500) if not f else rng.randint(-2000, 2000)]
        return p

    def mc_scripts(self, mc_cases, rng, tier):
        H = [c["h"] for c in mc_cases if "h" in c]
        M = [c for c in mc_cases if "q" in c]
        H = rng.sample(H, min(len(H), 160 if tier == "quick" else 3000))
        out = []
        for h in H:
            a, q = self.busy(rng, small=True), self.par(rng)
            k = rng.random()
            b, r = list(a), list(q)
            if k < 0.3:    # the same pixels in another shape
                a = [32, 16, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1900, a[14]]
                b = list(a)
                b[0], b[1] = 16, 32
                q[4] = r[4] = 2
                q[5] = r[5] = 10000
            elif k < 0.5:
                r[rng.randint(4, 7)] += 1
            elif k < 0.7:
                b[3] = 1 - a[3]
            else:
                b = self.busy(rng, f32=a[3], small=True)
            im = {1: (a, q), 2: (b, r)}
            L = []
            for op, i, d in h:
                p, s = im[i]
                p = list(p)
                p[2] = rng.choice([0, 0, 1, 5])  # padding is not content
                w = "%s %s" % (csv(p), csv(s))
                if op == "ask":
                    L.append("det %s %d %s" % (w, rng.choice([0, 1, 3, 40]), DIRS[d]))
                elif op == "new":
                    L.append("det %s %d %s" % (w, [0, 1, 64][d], "new" if d == 0 else "pool"))
                else:
                    L.append("harm %s %s %s" % (w, DIRS[d], {"cut": rng.choice(["cut", "tail", "empty"]), "neg": rng.choice(["neg", "more"]), "gone": "gone"}[op]))
            out.append(L)
        ms = ["match %s %s %d %s" % (csv(sum(c["q"], [])), csv(sum(c["p"], [])), c["t"], rng.choice(["new", "new", "new", "A"])) for c in M]
        rng.shuffle(ms)
        if tier == "quick":
            ms = ms[:2500]
        return out + [ms[i:i + 50] for i in range(0, len(ms), 50)]

    def mkeys(self, rng, n, wide):
        v = []
        for i in range(n):
            v += [rng.choice([0, 1, 2, 254, 255]) if wide else rng.randint(0, 6) for _ in range(4)] + [rng.randint(0, 400), rng.randint(0, 400), rng.randint(-1, 3), rng.randint(0, 99)]
        return v

    def gen_scripts(self, rng, tier):
        out = []
        k = 1 if tier == "quick" else 15
        for _ in range(70 * k):    # matching with remembered results
            L, kept = [], []
            for _ in range(14):
                if kept and rng.random() < 0.5:
                    m = rng.choice(kept)
                else:
                    wide = rng.random() < 0.4
                    m = (csv(self.mkeys(rng, rng.randint(0, 6), wide)), csv(self.mkeys(rng, rng.choice([0, 1, 2, 4, 9]), wide)), rng.choice([0, 8, 9, -1, 1, 4, 5, 6, 7, 7]))
                    kept.append(m)
                    if rng.random() < 0.3:
                        kept.append((m[1], m[0], m[2]))
                        kept.append((m[0], m[1], 7 if m[2] != 7 else 6))
                L.append("match %s %s %d %s" % (*m, rng.choice(["new", "A", "A", "def"])))
                if rng.random() < 0.25:
                    L.append("mharm %s %s %d %s %s" % (*m, rng.choice(["A", "def"]), rng.choice(["cut", "tail", "empty", "neg", "more", "huge", "gone"])))
            out.append(L)
        for _ in range(25 * k):
            out.append(["file %s %s %d" % (csv(self.mkeys(rng, rng.randint(0, 7), True)), rng.choice(["ok", "ok", "ok", "cut", "tail", "neg", "more", "dim", "none"]), rng.randint(0, 9)) for _ in range(12)])
        for _ in range(60 * k):    # detections of larger images, reused detectors
            q = self.par(rng)
            im = [self.busy(rng) for _ in range(2)]
            L = []
            for _ in range(5):
                p = list(rng.choice(im))
                p[2] = rng.choice([0, 0, 3])
                L.append("det %s %s %d %s" % (csv(p), csv(q), rng.choice([0, 1, 2, 10, 200]), rng.choice(["new", "pool", "pool", "A"])))
            out.append(L)
        for _ in range(2 * k):     # every parameter and every property of the image is part of an entry's key
            for j in range(12):
                a, q = self.busy(rng, small=True), self.par(rng)
                b, r = list(a), list(q)
                if j < 8:
                    r[j] = 1 - q[j] if j == 0 else q[j] + (1 if j in (1, 3, 4, 7) else rng.choice([1, 100]))
                    r[1] = (r[1] - 1) % 4 + 1
                elif j == 8:
                    b[3] = 1 - a[3]
                elif j == 9:
                    b[rng.randint(0, 1)] += 1
                else:
                    b[14 if b[13] else 18] += 100
                L = ["det %s %s %d %s" % (csv(x), csv(y), rng.choice([0, 3, 40]), d) for x, y, d in ((a, q, "A"), (b, r, "A"), (b, r, "new"), (a, q, "new"), (b, r, "A"), (a, q, "A"))]
                out.append(L)
        for _ in range(60 * k):
            out.append([self.rel(rng), self.rel(rng), self.blob(rng), self.blob(rng), self.desc(rng), self.desc(rng)])
        for _ in range(4 * k):
            out.append(["opts %s %s" % (csv([rng.randint(0, 1) for _ in range(8)]), csv([1, rng.randint(1, 5), rng.randint(500, 3000), rng.randint(2000, 5000), rng.randint(2, 9), rng.randint(1000, 90000), rng.randint(3000, 20000), rng.randint(1, 5)])) for _ in range(10)])
        return out

    def rel(self, rng):
        kind = rng.choice(["peak", "edge", "border", "neg", "mul"])
        q = self.par(rng)
        p = self.busy(rng, f32=1 if kind in ("neg", "mul") else None)
        b, r = list(p), list(q)
        if kind == "peak":
            r[5] = q[5] * rng.choice([2, 3]) // 2 + rng.randint(1, 20000)
        elif kind == "edge":
            r[6] = rng.choice([2000, 3000, q[6] - 500])
        elif kind == "border":
            r[4] += rng.choice([1, 2, 5])
        elif kind == "neg":
            b[4] = 1
        else:
            b[5] = 2
            r[5] = 2 * q[5]
        return "rel %s %s %s %s %s" % (kind, csv(p), csv(q), csv(b), csv(r))

    def off(self, rng, lo, hi):
        """a coordinate away from pixel centres' midpoints, on the doubled grid too"""
        return 2000 * (rng.randint(lo, hi) // 2) + rng.choice([0, 100, 150, 350, 400, 1600, 1650, 1850])

    def blob(self, rng):
        q = list(self.PAR)
        q[0] = rng.randint(0, 1)
        q[1] = rng.choice([2, 3, 3, 4])
        f = rng.randint(0, 1)
        p = [96, 96, rng.choice([0, 4]), f, rng.randint(0, 1), 1, 500, 0, 0, 0, 0, 0, 0, 0, 1]
        slots = rng.sample([(26, 26), (70, 26), (26, 70), (70, 70)], rng.randint(1, 4))
        for x, y in slots:
            s = rng.randint(2800 if q[1] == 2 else 2200, 4200)
            p += [self.off(rng, x - 2, x + 2), self.off(rng, y - 2, y + 2), s, rng.choice([-1, 1]) * rng.randint(300, 450)]
        return "blob %s %s" % (csv(p), csv(q))

    def desc(self, rng):
        q = list(self.PAR)
        q[0] = rng.randint(0, 1)
        gx, gy = rng.choice(DIR)
        m = rng.choice([1, 2])
        h1, h2 = rng.choice([(0, 0), (500, 0), (-500, 0), (0, 1000), (0, -1000), (300, 600), (-300, 600)])
        c = [self.off(rng, 46, 49), self.off(rng, 46, 49)]
        p = [96, 96, 0, 1, 0, 1, 500, gx * m, gy * m, h1 * m, h2 * m] + c + [0, 1] + c + [rng.randint(2600, 3200), rng.choice([-1, 1]) * rng.randint(200, 260)]
        return "desc %s %s" % (csv(p), csv(q))

    def corrupt(self, evs, rng):
        c = [e for e in evs if (e["op"] == "det" and e["out"] == "ok") or (e["op"] == "match" and e["out"] == "ok") or e["op"] == "file"]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "det":
            e["made"] += 1
        elif e["op"] == "match":
            e["got"] += 1
        else:
            e["size"] += 1
        return evs


COMP = {"C30": Sift()}
