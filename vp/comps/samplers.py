from ..core import Comp

SPECIAL = [909692, 947999, 1562886]      # their streams hold a word that rounds up to one


class Samplers(Comp):
    prop = "C21"
    driver = "drv_rand.cc"
    trace = ("SamplersTrace", "SamplersTrace.cfg")
    models = {
        "quick": [("SamplersMC", "SamplersMC_quick.cfg", dict(workers=1))],
        "thorough": [("SamplersMC", "SamplersMC_quick.cfg", dict(workers=1)), ("SamplersMC", "SamplersMC_deep.cfg", dict(workers=6, timeout=900))],
    }
    assumptions = ["as for SFMT itself: 64-bit words are drawn at even positions, arrays are filled at block boundaries and hold at least one block",
                   "Gaussian samples are compared with the polar method within half a percent"]
    chunk_events = 120

    def mc_scripts(self, mc_cases, rng, tier):
        rng.shuffle(mc_cases)
        res = []
        for c in mc_cases[:60 if tier == "quick" else 1500]:
            L = []
            par = {}
            for r in c:
                i = r["i"]
                if r["op"] == "new":
                    L.append("new %d %d %d" % (i, r["a"], rng.randint(0, 1)))
                    par[i] = 0
                elif r["op"] == "seed":
                    L.append("seed %d %d" % (i, r["a"]))
                    par[i] = 0
                elif r["op"] == "free":
                    L.append("free %d" % i)
                else:
                    L.append("%s %d %d" % (rng.choice(["u32", "fs"]), i, r["a"]))
            res.append(L)
        return res

    def seed(self, rng):
        return rng.choice([0, 1, 4294967295, rng.randrange(2**32), rng.randrange(2**32), rng.choice(SPECIAL)])

    def gen_scripts(self, rng, tier):
        return [self.history(rng) for _ in range(56 if tier == "quick" else 1000)]

    def history(self, rng):
        L, pos = [], {}
        for _ in range(rng.randint(4, 9)):
            i = rng.randint(0, 4)
            c = rng.random()
            if i not in pos:
                pos[i] = 0
                L.append("new %d %d %d" % (i, self.seed(rng), rng.randint(0, 3) if i == 3 else rng.randint(0, 2) if i == 4 else rng.randint(0, 1)))
            elif c < 0.1:
                pos[i] = 0
                L.append("seed %d %d" % (i, self.seed(rng)))
            elif c < 0.15:
                del pos[i]
                L.append("free %d" % i)
            elif i >= 3:
                L.append("%s %d %d %d %d" % (rng.choice(["gs", "gd"]), i, rng.randint(0, 12), rng.randint(-5, 5), rng.choice([1, 1, 2, 3, 0])))
            elif c < 0.25 and pos[i] % 624 == 0 and i:
                if rng.random() < 0.5:
                    k = 624 + 4 * rng.choice([0, 1, 30, 156, 200])
                    L.append("fill32 %d %d" % (i, k))
                else:
                    k = 312 + 2 * rng.choice([0, 1, 7, 156, 300])
                    L.append("fill64 %d %d" % (i, k))
                pos[i] = 0
            elif c < 0.45:
                k = rng.choice([1, 2, 3, 5, 40, 100, 624 - pos[i] % 624, 700])
                L.append("%s %d %d" % (rng.choice(["u32", "u32", "fs"]), i, k))
                pos[i] += k
            elif c < 0.7:
                k = rng.randint(1, 60)
                L.append("fs %d %d" % (i, k))
                pos[i] += k
            elif pos[i] % 2 == 0 and c < 0.85:
                k = rng.randint(1, 40)
                L.append("u64 %d %d" % (i, k))
                pos[i] += 2 * k
            else:
                k = rng.randint(1, 40)
                L.append("fd %d %d" % (i, k))
                pos[i] += 2 * k
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("u32", "fs", "u64", "gs", "gd", "fill32") and e["v"] and e.get("sg", 1)]
        if not c:
            return None
        e = rng.choice(c)
        k = rng.randrange(len(e["v"]))
        if e["op"] in ("u32", "u64", "fill32"):
            e["v"][k][0] ^= 1
        elif e["op"] == "fs":
            e["v"][k] += 4000 if e["v"][k] < 2**29 else -4000
        else:
            e["v"][k] = -e["v"][k] + (5000 if e["v"][k] >= 0 else -5000) * (1 if abs(e["v"][k]) < 400 else 0)
        return evs


COMP = {"C21": Samplers()}
