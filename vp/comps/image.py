from ..core import Comp

F = 65536


def lst(v):
    return ",".join(map(str, v)) or "."


def line(r):
    op, s = r["op"], r["s"]
    g = lambda *k: " ".join(str(r[x]) for x in k)
    if op in ("alloc", "release", "zero", "free"):
        return "%s %d" % (op, s)
    if op == "new":
        return "new %d " % s + g("w", "h", "t", "d")
    if op == "resize":
        return "resize %d " % s + g("w", "h", "st", "t", "d")
    if op in ("like", "copy", "copynew", "swap", "cdtype"):
        return "%s %d %d" % (op, s, r["u"])
    if op == "fill":
        return "fill %d %s" % (s, lst(r["px"]))
    if op == "store":
        return "store %d " % s + g("x", "y", "c", "v")
    if op == "ctype":
        return "ctype %d %d" % (s, r["t"])
    if op == "lend":
        return "lend %d " % s + g("w", "h", "st", "t", "d") + " " + lst(r["cells"]) + " %d" % r["b"]
    if op == "give":
        return "give %d " % s + g("w", "h", "st", "t", "d") + " " + lst(r["cells"])
    raise ValueError(op)


class Sim:
    """Tracks just enough geometry to write legal scripts."""

    def __init__(self, rng, mx):
        self.rng, self.mx = rng, mx
        self.im = {1: None, 2: None, 3: None}   # (w,h,t,d) or None
        self.lentof = {1: 0, 2: 0, 3: 0}
        self.lines = []

    def val(self, d, unit=False):
        r = self.rng
        if d == 0:
            return r.choice([0, 255, 1, 254, r.randint(0, 255), r.randint(0, 255)])
        if unit:
            return r.choice([0, F, r.randint(0, F), r.randint(0, 255) * 257, -F // 2, 2 * F, r.randint(-3 * F, 3 * F)])
        return r.choice([r.randint(-15, 15) * F, r.randint(-15 * 16, 15 * 16) * 4096])

    def px(self, s, unit=False):
        w, h, t, d = self.im[s]
        return [self.val(d, unit) for _ in range(w * h * (4 if t else 1))]

    def fill(self, s, unit=False):
        if self.im[s][0] * self.im[s][1] > 0:
            self.lines.append("fill %d %s" % (s, lst(self.px(s, unit))))

    def wrap(self, s, geom, fresh_vals=None):
        r = self.rng
        w, h, t, d = geom
        st = w * (4 if t else 1) + r.choice([0, 0, 1, 3, 4])
        cells = [self.val(d) for _ in range(st * h)]
        free = [b for b in (1, 2, 3) if all(self.lentof[x] != b for x in self.im if x != s)]
        head = "%d %d %d %d %d %d %s" % (s, w, h, st, t, d, lst(cells))
        if r.random() < 0.6 and free:
            b = r.choice(free)
            self.lines.append("lend " + head + " %d" % b)
            self.lentof[s] = b
        else:
            self.lines.append("give " + head)
            self.lentof[s] = 0
        self.im[s] = geom

    def make(self, s, geom):
        """an image of that geometry in slot s, by some route, filled"""
        r = self.rng
        w, h, t, d = geom
        c = r.randint(0, 3)
        if self.im[s] is None:
            if c == 0:
                self.lines.append("new %d %d %d %d %d" % (s, w, h, t, d))
                self.im[s], self.lentof[s] = geom, 0
                return self.fill(s)
            self.lines.append("alloc %d" % s)
            self.im[s], self.lentof[s] = (0, 0, 0, 0), 0
        if c <= 2 or w * h == 0:
            st = r.choice([-1, -1, w * (4 if t else 1) + r.choice([0, 1, 2, 5])])
            self.lines.append("resize %d %d %d %d %d %d" % (s, w, h, st, t, d))
            self.im[s] = geom
            return self.fill(s)
        self.wrap(s, geom)


class Image(Comp):
    prop = "C12"
    driver = "drv_image.cc"
    trace = ("ImageTrace", "ImageTrace.cfg")
    models = {
        "quick": [("ImageMC", "ImageMC_quick.cfg", dict(workers=1)),
                  ("ImageMC", "ImageMC_deep.cfg", dict(workers=1))],
        "thorough": [("ImageMC", "ImageMC_thorough.cfg", dict(workers=1, timeout=1500)),
                     ("ImageMC", "ImageMC_deep.cfg", dict(workers=1))],
    }
    assumptions = ["allocation never fails", "width, height below 40 in the explored images",
                   "float channels are multiples of 1/65536 of magnitude at most 255"]
    chunk_events = 1200

    def mc_scripts(self, mc, rng, tier):
        cs = set(tuple(line(r) for r in c) for c in mc)
        # a behaviour that is a prefix of another is replayed with it
        pre = set(c[:k] for c in cs for k in range(1, len(c)))
        return [["mode " + "cv"[i % 2]] + list(c) for i, c in enumerate(sorted(cs - pre))]

    def gen_scripts(self, rng, tier):
        out = []
        for k in range(260 if tier == "quick" else 4000):
            out.append(["mode " + "cv"[k % 2]] + self.one(rng))
        # every byte color direction of the conversion rule
        ls = ["mode c"]
        for _ in range(400 if tier == "quick" else 6000):
            c = rng.randint(0, 2)
            v = rng.randint(0, 255)
            ls.append("gray1 %d %d %d" % ((v, v, v) if c == 0 else tuple(rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(3))))
        for i in range(1, len(ls), 100):
            out.append(["mode c"] + ls[i:i + 100])
        return out

    def one(self, rng):
        big = rng.random() < 0.1
        sim = Sim(rng, 30 if big else 5)
        geom = lambda: (rng.randint(0 if rng.random() < 0.15 else 1, sim.mx), rng.randint(0 if rng.random() < 0.15 else 1, sim.mx),
                        rng.randint(0, 1), rng.randint(0, 1))
        for _ in range(rng.randint(4, 18)):
            s = rng.choice([1, 2, 3])
            if sim.im[s] is None:
                ex = [u for u in sim.im if sim.im[u] is not None]
                if ex and rng.random() < 0.4:
                    u = rng.choice(ex)
                    op = rng.choice(["copynew", "newlike"])
                    sim.lines.append("%s %d %d" % (op, s, u))
                    sim.im[s], sim.lentof[s] = sim.im[u], 0
                else:
                    sim.make(s, geom())
                continue
            ex = [u for u in sim.im if sim.im[u] is not None and u != s]
            op = rng.choice(["resize", "like", "fill", "store", "store", "zero", "copy", "copy", "wrap", "swap", "ctype", "ctype",
                             "cdtype", "cdtype", "release", "free", "samesize"])
            if op == "resize":
                sim.make(s, geom())
            elif op == "samesize":
                w, h, t, d = sim.im[s]
                sim.lines.append("resize %d %d %d -1 %d %d" % (s, w, h, t, d))
            elif op in ("like", "copy", "swap"):
                if op == "copy" and rng.random() < 0.1:
                    sim.lines.append("copy %d %d" % (s, s))
                    continue
                if not ex:
                    continue
                u = rng.choice(ex)
                sim.lines.append("%s %d %d" % (op, s, u))
                if op == "swap":
                    sim.im[s], sim.im[u] = sim.im[u], sim.im[s]
                    sim.lentof[s], sim.lentof[u] = sim.lentof[u], sim.lentof[s]
                else:
                    sim.im[s] = sim.im[u]
            elif op == "fill":
                sim.fill(s, True)
            elif op == "store":
                w, h, t, d = sim.im[s]
                if w * h:
                    sim.lines.append("store %d %d %d %d %d" % (s, rng.randrange(w), rng.randrange(h), rng.randrange(4 if t else 1), sim.val(d, True)))
            elif op == "zero":
                sim.lines.append("zero %d" % s)
            elif op == "wrap":
                sim.wrap(s, (rng.randint(1, sim.mx), rng.randint(1, sim.mx), rng.randint(0, 1), rng.randint(0, 1)))
            elif op == "ctype":
                w, h, t, d = sim.im[s]
                if w * h == 0:
                    continue   # an image without pixels may keep its type
                t2 = rng.randint(0, 1) if rng.random() < 0.3 else 1 - t
                sim.lines.append("ctype %d %d" % (s, t2))
                sim.im[s] = (w, h, t2, d)
            elif op == "cdtype":
                if not ex:
                    continue
                u = rng.choice(ex)
                w, h, t, d = sim.im[u]
                if t != 0 and d != sim.im[s][3]:
                    continue
                if d and rng.random() < 0.7:
                    sim.fill(u, True)
                d2 = sim.im[s][3]
                sim.lines.append("cdtype %d %d" % (s, u))
                sim.im[s] = (w, h, t, d2)
            elif op == "release":
                sim.lines.append("release %d" % s)
                sim.im[s], sim.lentof[s] = (0, 0, 0, 0), 0
            elif op == "free":
                sim.lines.append("free %d" % s)
                sim.im[s], sim.lentof[s] = None, 0
        return sim.lines

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "fill" and any(x["s"] == e["s"] and x["px"] for x in e["hs"])]
        if not c:
            return None
        e = rng.choice(c)
        x = [x for x in e["hs"] if x["s"] == e["s"]][0]
        x["px"][rng.randrange(len(x["px"]))] ^= 1
        return evs


class Resample(Comp):
    prop = "C13"
    driver = "drv_image.cc"
    trace = ("ImageTrace", "ImageTrace.cfg")
    models = {
        "quick": [("ImageOpsMC", "ImageOpsMC_quick.cfg", dict(workers=1)),
                  ("ImageOpsMC", "ImageOpsMC_vals.cfg", dict(workers=4))],
        "thorough": [("ImageOpsMC", "ImageOpsMC_thorough.cfg", dict(workers=1, timeout=1500)),
                     ("ImageOpsMC", "ImageOpsMC_vals.cfg", dict(workers=8))],
    }
    assumptions = ["source images have at least one pixel", "box radius at least 1",
                   "results computed in floating point may land one unit below an integer quotient"]
    chunk_events = 600

    def deriv(self, d, s, op, a):
        if op in ("boxx", "boxy", "box"):
            return "derive %d %d %s %d %d %d" % (d, s, op, a["rx"], a["ry"], a.get("ext", 0))
        if op == "scale":
            return "derive %d %d scale %d %d" % (d, s, a["p"], a["q"])
        if op == "axpy":
            return "derive %d %d axpy %d %d" % (s, s, a["a"], a["y"])
        return "derive %d %d %s" % (d, s, op)

    def mc_scripts(self, mc, rng, tier):
        groups = {}
        for c in mc:
            groups.setdefault((c[0]["w"], c[0]["h"], tuple(c[0]["px"])), []).append(c[1])
        out = []
        for (w, h, px), ops in groups.items():
            for d in (0, 1):
                sim = Sim(rng, 9)
                sim.make(1, (w, h, 0, d))
                f = "fill 1 " + lst([v if d == 0 else v * F for v in px])
                ls = ["mode " + "cv"[len(out) % 2]] + sim.lines + [f, "alloc 2"]
                for o in sorted(ops, key=lambda o: o["op"] == "axpy"):
                    ls.append(self.deriv(2, 1, o["op"], o["a"]))
                    if o["op"] == "axpy":
                        ls.append(f)
                out.append(ls)
        return out

    def gen_scripts(self, rng, tier):
        out = []
        for k in range(260 if tier == "quick" else 4000):
            out.append(["mode " + "cv"[k % 2]] + self.one(rng))
        return out

    def one(self, rng):
        big = rng.random() < 0.15
        mx = 24 if big else 8
        sim = Sim(rng, mx)
        geom = lambda d: (rng.randint(1, mx), rng.randint(1, mx), 0, d)
        for _ in range(rng.randint(2, 7)):
            d = rng.randint(0, 1)
            op = rng.choice(["down", "up", "aax", "aay", "boxx", "boxy", "box", "derx", "dery", "scale", "scale", "axpy", "norm",
                             "cmap", "sub", "smooth"])
            g = geom(d)
            if op == "axpy":
                g = g[:2] + (rng.randint(0, 1), d)
            if op == "norm":
                g = g[:2] + (rng.randint(0, 1), 1)
            if big and op in ("smooth", "up", "box"):
                g = (min(g[0], 12), min(g[1], 12)) + g[2:]
            sim.make(1, g)
            if sim.im[2] is None or rng.random() < 0.3:
                sim.make(2, geom(rng.randint(0, 1)))
            dst = 2
            if op in ("boxx", "boxy", "box"):
                if rng.random() < 0.3:
                    dst = 1
                sim.lines.append(self.deriv(dst, 1, op, dict(rx=rng.randint(1, 4), ry=rng.randint(1, 4), ext=rng.randint(0, 1))))
                sim.im[dst] = g
            elif op == "scale":
                p, q = rng.choice([(1, 1), (1, 2), (2, 1), (3, 2), (3, 4), (1, 4), (4, 1), (5, 4), (5, 8), (7, 8), (3, 1)])
                sim.lines.append("derive 2 1 scale %d %d" % (p, q))
                sim.im[2] = (g[0] * p // q, g[1] * p // q, 0, g[3])
            elif op == "axpy":
                sim.lines.append("derive 1 1 axpy %d %d" % (rng.choice([16, 32, 8, -16, 4, 0, 24, 48]), rng.choice([0, 5, -160, 4080, 8, 400])))
            elif op == "norm":
                w, h, t, _ = g
                n = w * h * (4 if t else 1)
                c = rng.randint(0, 4)
                v = [rng.randint(-128, 127) * 4096 for _ in range(n)]
                if c == 0:
                    v.sort()
                elif c == 1:
                    v.sort(reverse=True)
                elif c == 2:
                    v = [v[0]] * n
                elif c == 3:
                    v = [-abs(x) for x in v]
                sim.lines.append("fill 1 " + lst(v))
                # zero everywhere has no scale in the symmetric variant
                sim.lines.append("derive 1 1 norm %d" % rng.randint(0, 1))
            elif op == "cmap":
                v = [rng.randint(0, 255) if d == 0 else rng.choice([0, F, rng.randint(0, F)]) for _ in range(g[0] * g[1])]
                sim.lines.append("fill 1 " + lst(v))
                sim.lines.append("derive 2 1 cmap")
                sim.im[2] = (g[0], g[1], 1, 0)
            elif op == "sub":
                sim.make(2, geom(d))
                if sim.im[3] is None:
                    sim.make(3, geom(rng.randint(0, 1)))
                sim.lines.append("sub 3 1 2")
                sim.im[3] = (min(g[0], sim.im[2][0]), min(g[1], sim.im[2][1]), 0, 1)
            elif op == "smooth":
                if d:
                    sim.lines.append("fill 1 " + lst([rng.randint(0, 15) * F for _ in range(g[0] * g[1])]))
                if rng.random() < 0.3:
                    dst = 1
                sim.lines.append("derive %d 1 smooth %d %d %d %d" % (dst, rng.choice([8, 12, 16, 24, 32]), rng.choice([8, 12, 16, 24, 32]),
                                                                  rng.choice([2, 3]), rng.randint(0, 1)))
                sim.im[dst] = g
            else:
                sim.lines.append("derive 2 1 " + op)
                w, h, _, _ = g
                sim.im[2] = {"down": (w // 2, h // 2, 0, d), "up": (2 * w, 2 * h, 0, d), "aax": (w // 2, h, 0, d), "aay": (w, h // 2, 0, d),
                             "derx": (w, h, 0, 1), "dery": (w, h, 0, 1)}[op]
        return sim.lines

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "derive" and e["f"] in ("down", "up", "boxx", "box") and
             any(x["s"] == e["s"] and x["px"] for x in e["hs"])]
        if not c:
            return None
        e = rng.choice(c)
        x = [x for x in e["hs"] if x["s"] == e["s"]][0]
        x["px"][rng.randrange(len(x["px"]))] += 3 if x["dt"] == 0 else 300
        return evs


COMP = {"C12": Image(), "C13": Resample()}
