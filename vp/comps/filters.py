from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if len(v) else "."


class Filters(Comp):
    prop = "C25"
    driver = "drv_filter.cc"
    trace = ("FiltersTrace", "FiltersTrace.cfg")
    models = {"quick": [("FiltersMC", "FiltersMC_quick.cfg", dict(workers=1))],
              "thorough": [("FiltersMC", "FiltersMC_quick.cfg", dict(workers=1)), ("FiltersMC", "FiltersMC_deep.cfg", dict(workers=6, timeout=900))]}
    assumptions = ["integer samples and kernels, so that sums are exact; box means are compared after multiplying by their length; "
                   "Gaussian weights to a ten thousandth, for the tabulated sigmas"]
    chunk_events = 900

    def load(self, rng, d, b, mode):
        return "load %s %d %d %d %s" % (rng.choice(["uc1", "uc", "f1", "f"]), rng.choice([1, 2, 3, 7]), b, mode, csv(d))

    def conv(self, rng, b):
        if b == 0:
            return []
        if rng.random() < 0.4:
            return ["box"]
        return ["sym %s" % csv([rng.randint(-3, 9) for _ in range(b + 1)])]

    def mc_scripts(self, mc, rng, tier):
        rng.shuffle(mc)
        L = []
        for c in (mc[:2000] if tier == "quick" else mc):
            d, b = c["d"], c["b"]
            modes = [m for m in (0, 1, 2) if self.bordered(d, b, m) == c["u"]]
            L.append([self.load(rng, d, b, rng.choice(modes))] + self.conv(rng, b))
        return [sum(L[i:i + 20], []) for i in range(0, len(L), 20)]

    def bordered(self, d, b, mode):
        n = len(d)
        r = []
        for i in range(-b, n + b):
            if 0 <= i < n:
                r.append(d[i])
            elif mode == 0:
                r.append(0)
            elif mode == 1:
                r.append(d[0] if i < 0 else d[-1])
            else:
                k = 0 if n == 1 else i % (2 * (n - 1))
                r.append(d[k if k < n else 2 * (n - 1) - k])
        return r

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(80 if tier == "quick" else 1500):
            L = []
            for _ in range(12):
                n = rng.choice([1, 2, 3, 5, 8, 13, 30])
                b = rng.choice([0, 1, 1, 2, 3, 4, n - 1, n, n + 2, 2 * n + 3])
                b = min(b, 12)
                hi = rng.choice([1, 9, 255])
                L.append(self.load(rng, [rng.randint(0, hi) for _ in range(n)], b, rng.randint(0, 2)))
                L += self.conv(rng, b)
            out.append(L)
        out.append(["size %d %d" % (s, f) for s in range(0, 60, 1) for f in (1, 2, 4, 5, 6, 8)])
        out.append(["gauss %d %d" % (s, nk) for s in (4, 6, 8, 12, 16, 24) for nk in range(2, 11)])
        out.append(["alloc %d %d" % (n, b) for n in (1, 2, 3, 7, 8, 9, 31) for b in (0, 1, 2, 5)])
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("load", "sym", "box") and e["r"]]
        if not c:
            return None
        e = rng.choice(c)
        e["r"][rng.randrange(len(e["r"]))] += 1
        return evs


COMP = {"C25": Filters()}
