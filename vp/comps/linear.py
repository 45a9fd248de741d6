from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if len(v) else "."


class Linear(Comp):
    prop = "C23"
    driver = "drv_linear.cc"
    trace = ("LinearTrace", "LinearTrace.cfg")
    models = {"quick": [("LinearMC", "LinearMC_sq.cfg", dict(workers=1)), ("LinearMC", "LinearMC_rect.cfg", dict(workers=1))],
              "thorough": [("LinearMC", "LinearMC_sq.cfg", dict(workers=1)), ("LinearMC", "LinearMC_rect.cfg", dict(workers=1)),
                           ("LinearMC", "LinearMC_deep.cfg", dict(workers=6, timeout=900))]}
    assumptions = ["integer matrices and vectors, so that products and determinants are exact; inverses, norms, solutions and "
                   "decompositions are compared through their defining equation to a thousandth"]
    never_ok = ("MCTranspose",)
    chunk_events = 700

    def mc_scripts(self, mc, rng, tier):
        mats = [c["mat"] for c in mc if "mat" in c]
        qs = [c["q"] for c in mc if "q" in c]
        sq = [m["a"] for m in mats if m["m"] == 3 and m["n"] == 3]
        L = []
        rng.shuffle(sq)
        for a in (sq if tier != "quick" else sq[:300]):
            L.append("m3 %s %s" % (csv(a), csv(rng.choice(sq))))
        for q in qs:
            L.append("quat %s %s" % (csv(q), csv(rng.choice(qs))))
        rng.shuffle(mats)
        for m in mats[:300 if tier == "quick" else 3000]:
            L.append("tr %d %d %s" % (m["m"], m["n"], csv(m["a"])))
            L.append("svd %s %d %d %s" % (rng.choice("sd"), m["m"], m["n"], csv(m["a"])))
        return [L[i:i + 30] for i in range(0, len(L), 30)]

    def gen_scripts(self, rng, tier):
        out = []
        # every shape of an in place transposition
        shapes = [(m, n) for m in range(1, 13) for n in range(1, 13)] if tier != "quick" else \
                 [(m, n) for m in range(1, 9) for n in range(1, 9)] + [(1, 40), (40, 1), (3, 33), (33, 3), (16, 17)]
        L = ["tr %d %d %s" % (m, n, csv(rng.sample(range(-200, 2000), m * n))) for m, n in shapes]
        out += [L[i:i + 12] for i in range(0, len(L), 12)]
        for _ in range(70 if tier == "quick" else 1500):
            out.append([self.op(rng) for _ in range(18)])
        return out

    def op(self, rng):
        r = lambda lo, hi: rng.randint(lo, hi)
        V = lambda n, lim=9: [r(-lim, lim) for _ in range(n)]
        c = rng.random()
        if c < 0.18:
            a = V(9, rng.choice([1, 3, 9]))
            if rng.random() < 0.15:
                a[6:9] = [a[i] + a[3 + i] for i in range(3)]
            return "m3 %s %s" % (csv(a), csv(V(9)))
        if c < 0.28:
            return "m4 %s %s" % (csv(V(16)), csv(V(16)))
        if c < 0.5:
            n = rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 17])
            u = V(n, rng.choice([1, 9, 20]))
            if n and rng.random() < 0.15:
                u = [-99 if rng.random() < 0.7 else x for x in u]
            if n and rng.random() < 0.1:
                u = [0] * n
            return "vec %s %s %d" % (csv(u), csv(V(n)), r(-4, 4))
        if c < 0.6:
            m, k, n = r(1, 4), r(1, 4), r(1, 4)
            la, lb, lc = m + rng.choice([0, 0, 1, 3]), k + rng.choice([0, 0, 2]), m + rng.choice([0, 1, 2])
            return "gen %d %d %d %d %d %d %s %s" % (m, k, n, la, lb, lc, csv(V(la * k)), csv(V(lb * n)))
        if c < 0.7:
            n = r(1, 5)
            lo = r(0, 1)
            # diagonally dominant (regular) or without any pivot
            sing = rng.random() < 0.1
            a = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(n):
                    a[i][j] = r(-2, 2)
                    if i == j:
                        a[i][j] = rng.choice([-1, 1]) * r(2 * n + 1, 2 * n + 4)
            if sing:
                a = [[0] * n for _ in range(n)]
            # the other triangle is not to be read
            mem = [0] * (n * n)
            for i in range(n):
                for j in range(n):
                    use = i >= j if lo else i <= j
                    mem[j * n + i] = a[i][j] if use else r(50, 90)
            rhs = rng.choice([1, 1, 2, 3])
            return "sym %d %d %s %s %d %d" % (lo, n, csv(mem), csv(V(n * rhs, 5)), sing, not sing)
        if c < 0.78:
            m, n = r(1, 5), r(1, 5)
            return "svd %s %d %d %s" % (rng.choice("sd"), m, n, csv(V(m * n, 4)))
        if c < 0.88:
            return "quat %s %s" % (csv(V(4, rng.choice([1, 2, 5]))), csv(V(4, 5)))
        if c < 0.95:
            m, n = rng.choice([(0, 0), (1, 1), (2, 3), (3, 2), (1, 6), (5, 1), (4, 4), (3, 20), (2, 60)])
            return "text %d %d %s %s" % (m, n, rng.choice(["1", "3", "7e10", "1e-300", "0.1", "1e300"]), csv(rng.sample(range(-900, 900), m * n)))
        rows = [V(r(1, 4), 99)]
        for _ in range(r(0, 4)):
            rows.append(V(len(rows[0]) if rng.random() < 0.85 else r(1, 5), 99))
        return "parse %s %s %d" % (";".join(csv(x) for x in rows) if rng.random() < 0.95 else ".", rng.choice(["b", "t", "s"]), r(0, 1))

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("m3", "m4", "tr")]
        if not c:
            return None
        e = rng.choice(c)
        k = "r" if e["op"] == "tr" else "mul"
        e[k][rng.randrange(len(e[k]))] += 1
        return evs


COMP = {"C23": Linear()}
