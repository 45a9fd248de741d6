from ..core import Comp


def hx(s):
    return "x" + s.encode().hex()


M = 1000000


class Plot(Comp):
    prop = "C34"
    driver = "drv_plot.cc"
    trace = ("PlotTrace", "PlotTrace.cfg")
    models = {
        "quick": [("PlotMC", "PlotMC_quick.cfg", dict(workers=1))],
        "thorough": [("PlotMC", "PlotMC_quick.cfg", dict(workers=1)), ("PlotMC", "PlotMC_deep.cfg", dict(workers=6, timeout=1200))],
    }
    assumptions = ["titles, labels and file names without double quotes, backslashes and line ends", "sizes up to 2000 (pixels, characters, centimetres)",
                   "the plotting program is a stand-in that keeps its input"]
    chunk_events = 2500

    def word(self, rng):
        return "".join(rng.choice("abcXYZ 019;$#'<,%-_set title\xe9") for _ in range(rng.choice([0, 1, 3, 8, 25])))

    def call(self, p, c):
        o = c["op"]
        if o in ("title", "xlabel", "ylabel"):
            a = [hx(c["t"])]
        elif o == "labels":
            a = [hx(c["t"]), hx(c["x"]), hx(c["y"])]
        elif o == "window":
            a = [c["w"], c["h"], hx(c["name"]), c["id"]]
        elif o == "svg":
            a = [c["w"], c["h"], hx(c["name"]), hx(c["file"])]
        elif o in ("pdf", "eps"):
            a = [c["w"], c["h"], hx(c["file"])]
        elif o == "ascii":
            a = [c["w"], c["h"], int(c["feed"])]
        elif o == "terminal":
            a = [c["type"], c["w"], c["h"], hx(c["name"]), c["id"]]
        elif o == "frame":
            a = [c.get("n", 1), c.get("seed", 3), hx(c["label"])]
        else:
            a = [c.get("n", 1), c.get("seed", 3)]
        return "call %d %s %s" % (p, o, " ".join(map(str, a)))

    def rnd(self, rng):
        w = lambda: rng.choice([1, 5, 80, 400, 640, 1999]) * M
        f = lambda: rng.choice([M, 12 * M, 2500000, 125000, 7 * M + 625000, 29 * M + 700000])
        o = rng.choice(["title", "xlabel", "ylabel", "labels", "window", "svg", "pdf", "eps", "ascii", "terminal", "frame", "inline"])
        return dict(op=o, t=self.word(rng), x=self.word(rng), y=self.word(rng), name=self.word(rng), file=self.word(rng), id=rng.choice([0, 1, 7, 1000]),
                    feed=rng.random() < 0.5, type=rng.choice(["window", "svg", "pdf", "eps", "ascii"]), w=f() if o in ("pdf", "eps", "terminal") else w(),
                    h=f() if o in ("pdf", "eps", "terminal") else w(), n=rng.choice([0, 1, 2, 9, 40]), seed=rng.randint(1, 9), label=rng.choice(["d", "data_1", "Q"]))

    def mc_scripts(self, mc, rng, tier):
        if tier == "quick":
            mc = rng.sample(mc, min(len(mc), 2500))
        return [["new %d 0 %d" % (o["p"], rng.randint(0, 1)) if o["op"] == "new" else "free %d" % o["p"] if o["op"] == "free" else self.call(o["p"], o["c"]) for o in h] for h in mc]

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(250 if tier == "quick" else 3000):
            L, ex = [], set()
            piped = rng.random() < 0.2
            for _ in range(rng.randint(4, 16)):
                p = rng.randint(1, 2)
                if p not in ex:
                    L.append("new %d %d %d" % (p, piped, rng.randint(0, 1)))
                    ex.add(p)
                elif rng.random() < 0.1:
                    L.append("free %d" % p)
                    ex.discard(p)
                elif rng.random() < 0.1:
                    L.append("command %d %d %s" % (p, rng.randint(-9, 99), hx(self.word(rng).replace(";", ""))))
                else:
                    c = self.rnd(rng)
                    if piped and c["op"] == "inline":
                        continue
                    L.append(self.call(p, c))
            for p in sorted(ex):
                L.append("free %d" % p)
            out.append(L)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "call" and e["cs"]]
        if not c:
            return None
        e = rng.choice(c)
        e["cs"].append([dict(k="w", t="set"), dict(k="w", t="title"), dict(k="s", t="(other)")])
        return evs


COMP = {"C34": Plot()}
