from ..core import Comp


def csv(v):
    return ",".join(map(str, v))


class Corr(Comp):
    prop = "C31"
    driver = "drv_corr.cc"
    trace = ("CorrTrace", "CorrTrace.cfg")
    models = {
        "quick": [("CorrMC", "CorrMC_quick.cfg", dict(workers=1))],
        "thorough": [("CorrMC", "CorrMC_quick.cfg", dict(workers=1)), ("CorrMC", "CorrMC_deep.cfg", dict(workers=6, timeout=1500))],
    }
    assumptions = ["matches are added to a set that is not normalised, and a set is normalised once before it is denormalised",
                   "positions within a few hundred pixels, in 1/32 pixel"]
    chunk_events = 2500

    def row(self, rng, n):
        c = rng.choice([40, 400, 20000])
        p = [rng.randint(-c, c) for _ in range(4)]
        return p + [rng.choice([0, 32, 33, 64, 2240, rng.randint(0, 9999)]), rng.randint(1, 200), rng.randint(1, 200), n, rng.randint(0, 9999), rng.randint(0, 1)]

    def mc_scripts(self, mc, rng, tier):
        mc = rng.sample(mc, min(len(mc), 2500 if tier == "quick" else 40000))
        out = []
        for h in mc:
            L, at = [], {}
            costs = [3, 1, 3, 2, 1]
            for op in h:
                if op[0] == "add":
                    r = self.row(rng, op[2])
                    r[4] = 32 * costs[op[2] - 1]
                    r[9] = 0
                    L.append("add %d %s" % (op[1], csv(r)))
                elif op[0] == "clone":
                    L.append("clone %d %d%s" % (op[2], op[1], rng.choice(["", " c"])))
                    at[op[1]] = dict(at.get(op[2], {}))
                elif op[0] == "mark":
                    d = at.setdefault(op[1], {})
                    v = 1 - d.get(op[2], 0)
                    d[op[2]] = v
                    L.append("mark %d %d %d" % (op[1], op[2] - 1, v))
                else:
                    L.append("%s %d" % (op[0], op[1]))
            out.append(L)
        return out

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(260 if tier == "quick" else 6000):
            L = ["new 1"]
            z = {1: False}
            n = 0
            kind = rng.random()
            for _ in range(rng.choice([8, 16, 30])):
                s = rng.choice(list(z))
                c = rng.random()
                if c < 0.45 and not z[s]:
                    n += 1
                    if rng.random() < 0.6:
                        r = self.row(rng, n)
                        if kind < 0.15:
                            r[:4] = [64, -96, 320, 32]
                        elif kind < 0.3:
                            r[0] = 77
                            r[3] = -50
                        L.append("add %d %s" % (s, csv(r)))
                    else:
                        v = [rng.randint(-900, 900), rng.randint(-900, 900), rng.choice([8, 16, 12, 32, 10, 1]), n]
                        w = [rng.randint(-900, 900), rng.randint(-900, 900), rng.choice([8, 16, 12, 32, 10, 1]), rng.randint(0, 999)]
                        L.append("key %d %s" % (s, csv(v + w + [rng.choice([1, 2, 3, 4]), rng.randint(0, 999), rng.randint(0, 1)])))
                elif c < 0.55:
                    L.append("mark %d %d %d" % (s, rng.randint(0, 6), rng.randint(0, 1)))
                elif c < 0.62:
                    L.append("sort %d%s" % (s, rng.choice(["", " q"])))
                elif c < 0.75:
                    L.append("%s %d" % ("den" if z[s] or rng.random() < 0.1 else "norm", s))
                    z[s] = L[-1].startswith("norm")
                elif c < 0.85:
                    d = rng.choice([x for x in (1, 2, 3) if x != s])
                    L.append("clone %d %d%s" % (s, d, rng.choice(["", " c"])))
                    z[d] = z[s]
                elif c < 0.88:
                    L.append("clear %d" % s)
                    z[s] = False
                elif c < 0.91:
                    L.append("reserve %d %d" % (s, rng.randint(0, 50)))
                elif c < 0.94 and not z[s]:
                    L.append("put %d %d %d %d" % (s, rng.randint(0, 4), rng.randint(-900, 900), rng.randint(-900, 900)))
                elif c < 0.97:
                    L.append("at %s" % csv([rng.randint(-99, 99), rng.randint(-99, 999), rng.randint(-99, 999), rng.randint(-99, 999), rng.choice([8, 9, 12, 16, 32, 5])]))
                else:
                    L.append("cmp %d %d" % (rng.randint(0, 3), rng.randint(0, 3)))
            out.append(L)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("add", "key")]
        if not c:
            return None
        rng.choice(c)["ret"] += 1
        return evs


COMP = {"C31": Corr()}
