from ..core import Comp


def csv(v):
    return ",".join(map(str, v))


class Checkers(Comp):
    prop = "C35"
    driver = "drv_checkers.cc"
    trace = ("CheckersTrace", "CheckersTrace.cfg")
    models = {
        "quick": [("CheckersMC", "CheckersMC_quick.cfg", dict(workers=1))],
        "thorough": [("CheckersMC", "CheckersMC_quick.cfg", dict(workers=1)), ("CheckersMC", "CheckersMC_deep.cfg", dict(workers=6, timeout=1200))],
    }
    assumptions = ["byte grayscale pictures; means along the diagonals to five grey levels per turn, with the turned picture recorded as a witness and checked itself",
                   "the response to 0.8 percent of the full one"]
    chunk_events = 40

    def mc_scripts(self, mc, rng, tier):
        mc = rng.sample(mc, min(len(mc), 240 if tier == "quick" else 3000))
        return [["radon %d %d %d %d %s" % (c["r"], c["w"], c["h"], rng.choice([0, 2]), csv(c["px"])), "score"] for c in mc]

    def picture(self, rng, w, h):
        k = rng.random()
        if k < 0.3:
            return [rng.randint(0, 255) for _ in range(w * h)]
        cx, cy, a = rng.randint(0, w), rng.randint(0, h), rng.choice([(1, 0, 0, 1), (1, 1, 1, -1), (2, 1, -1, 2)])
        lo, hi = rng.choice([(0, 255), (20, 200), (255, 0)])
        sq = rng.choice([99, 4])
        p = []
        for y in range(h):
            for x in range(w):
                u, v = a[0] * (x - cx) + a[1] * (y - cy), a[2] * (x - cx) + a[3] * (y - cy)
                p.append(hi if ((u // sq) + (v // sq)) % 2 else lo)
        return p

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(90 if tier == "quick" else 1500):
            L = []
            for i in range(4):
                if rng.random() < 0.3:
                    L.append("pre %d %d %d %d %d" % (i, rng.randint(1, 20), rng.randint(1, 20), rng.choice([0, 0, 1]), rng.choice([0, 0, 1])))
            for _ in range(rng.choice([1, 1, 2])):
                w, h = rng.choice([(rng.randint(1, 6), rng.randint(1, 6)), (rng.randint(6, 16), rng.randint(6, 16)), (rng.randint(10, 18), rng.randint(2, 9))])
                L.append("radon %d %d %d %d %s" % (rng.choice([0, 1, 2, 3, 5]), w, h, rng.choice([0, 0, 1, 7]), csv(self.picture(rng, w, h))))
                if rng.random() < 0.8:
                    L.append("score")
            out.append(L)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("radon", "score")]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "score":
            if not e["s"]:
                return None
            e["s"][rng.randrange(len(e["s"]))] += 20000
        else:
            m = rng.choice(e["lr"])
            k = rng.randrange(len(m["px"]))
            m["px"][k] = m["px"][k] + (60 if m["px"][k] < 128 else -60)
        return evs


COMP = {"C35": Checkers()}
