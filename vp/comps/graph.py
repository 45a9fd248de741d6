from ..core import Comp


class Graph(Comp):
    prop = "C09"
    driver = "drv_graph.cc"
    trace = ("GraphTrace", "GraphTrace.cfg")
    models = {
        "quick": [("GraphMC", "GraphMC_quick.cfg", dict(workers=1)), ("GraphMC", "GraphMC_deep.cfg", dict(workers=8))],
        "thorough": [("GraphMC", "GraphMC_thorough.cfg", dict(workers=1, timeout=1500)),
                     ("GraphMC", "GraphMC_deep.cfg", dict(workers=8))],
    }
    assumptions = ["vertices are in range (the shipped build checks them only in debug mode)",
                   "no edge is given the reserved absent weight"]

    def mc_scripts(self, mc, rng, tier):
        return [["new %d" % r["n"] if r["op"] == "new" else "ins %d %d %d" % (r["u"], r["v"], r["x"]) for r in c]
                for c in mc]

    def gen_scripts(self, rng, tier):
        out = []
        for k in range(150 if tier == "quick" else 2000):
            n = rng.choice([1, 2, 3, 4, 5, 7, 10, 16])
            ls = ["new %d%s" % (n, "" if rng.random() < 0.5 else " g%d" % k)]
            few = rng.random() < 0.5
            for _ in range(rng.randint(1, 40)):
                u, v = rng.randrange(n), rng.randrange(n if not few else min(n, 3))
                if rng.random() < 0.5:
                    u, v = v, u
                ls.append("ins %d %d %d" % (u, v, rng.choice([0, 1, 2, 7, 1000])))
            out.append(ls)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "ins"]
        if not c:
            return None
        rng.choice(c)[rng.choice(["me", "le"])] += 1
        return evs


COMP = {"C09": Graph()}
