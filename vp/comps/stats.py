from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if v else "."


class Stats(Comp):
    prop = "C22"
    driver = "drv_stats.cc"
    trace = ("StatsTrace", "StatsTrace.cfg")
    models = {"quick": [("StatsMC", "StatsMC_quick.cfg", dict(workers=1))],
              "thorough": [("StatsMC", "StatsMC_quick.cfg", dict(workers=1)), ("StatsMC", "StatsMC_deep.cfg", dict(workers=1, timeout=900))]}
    assumptions = ["samples are small integers times a power of two (the extremes of int included), so that order statistics are exact; "
                   "mean and standard deviation are compared to a hundredth of the unit"]

    def mc_scripts(self, mc, rng, tier):
        L = ["stats i 0 .", "stats d 0 ."]
        for c in mc:
            L.append("stats %s %d %s" % (rng.choice("id"), rng.choice([0, 0, 0, 1, 5, 24]), csv(c["x"])))
        return [L[i:i + 40] for i in range(0, len(L), 40)]

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(60 if tier == "quick" else 1500):
            ls = []
            for _ in range(25):
                n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
                lim = rng.choice([1, 3, 20])
                v = [rng.randint(-lim, lim) for _ in range(n)]
                if rng.random() < 0.4:
                    v.sort(reverse=rng.random() < 0.5)
                kind = rng.choice("id")
                if kind == "i" and rng.random() < 0.4:
                    k = rng.choice([26, 27, 30])
                    hi = (1 << (31 - k)) - 1
                    v = [rng.choice([-hi - 1, hi, rng.randint(-hi - 1, hi)]) for _ in range(n)]
                else:
                    k = rng.choice([0, 1, 7, 20]) if kind == "i" else rng.choice([0, -3, 10, 60, -60])
                ls.append("stats %s %d %s" % (kind, k, csv(v)))
                k = rng.choice([0, 24, 27, 30])
                hi = min(50, (1 << (31 - k)) - 1)
                ls.append("cmp %d %d %d" % (rng.choice([-hi - 1, hi, rng.randint(-hi - 1, hi)]), rng.choice([-hi - 1, hi, rng.randint(-hi - 1, hi)]), k))
            out.append(ls)
        out.append(["erf %d" % k for k in range(-60, 61)])
        # long samples: order statistics only depend on the middle of the bag
        for _ in range(12 if tier == "quick" else 200):
            n = rng.randint(20, 60)
            out.append(["stats %s 0 %s" % (rng.choice("id"), csv([rng.randint(-3, 3) for _ in range(n)]))])
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "stats" and e["n"] > 0]
        if not c:
            return None
        rng.choice(c)[rng.choice(["min", "med", "lq", "uq", "max"])] += 1
        return evs


COMP = {"C22": Stats()}
