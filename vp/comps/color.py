from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if len(v) else "."


class Color(Comp):
    prop = "C27"
    driver = "drv_color.cc"
    trace = ("ColorTrace", "ColorTrace.cfg")
    models = {"quick": [("ColorMC", "ColorMC_quick.cfg", dict(workers=1))],
              "thorough": [("ColorMC", "ColorMC_quick.cfg", dict(workers=1)), ("ColorMC", "ColorMC_deep.cfg", dict(workers=6, timeout=900))]}
    assumptions = ["color map values are multiples of 1/4096 (exact in single precision) and colors are compared after truncation to bytes with "
                   "two hundredths of a level of slack; the map tables are those of the pinned commit"]
    chunk_events = 300

    def mc_scripts(self, mc, rng, tier):
        rng.shuffle(mc)
        L = []
        for c in (mc[:1200] if tier == "quick" else mc):
            # every behaviour of the model is a conversion: of its gray plane when the color plane is neutral and opaque
            n = len(c["g"])
            h = rng.choice([d for d in (1, 2, 3, 4) if n % d == 0])
            w = n // h
            if all(p[0] == p[1] == p[2] and p[3] == 255 for p in c["c"]):
                L.append("torgba %d %d %d %d %s" % (w, h, rng.choice([0, 3]), rng.choice([0, 2, 5]), csv(c["g"])))
            L.append("togray %d %d %d %d %s" % (w, h, rng.choice([0, 3]), rng.choice([0, 2, 5]), csv(sum(c["c"], []))))
        return [L[i:i + 25] for i in range(0, len(L), 25)]

    def gen_scripts(self, rng, tier):
        k = 1 if tier == "quick" else 12
        r = rng.randint
        out = []
        for m in range(5):
            qs = list(range(0, 4097, 32 if tier == "quick" else 2)) + [1, 8, 15, 16, 17, 4079, 4080, 4095, 4096, -1, -4096, -100, 4097, 5000, 1000000, -999999]
            out.append(["map %d %s" % (m, csv(qs[i:i + 40])) for i in range(0, len(qs), 40)])
            out.append(["mapimg %d 0 16 16 %d %s %d" % (m, p, csv(range(256)), p % 2) for p in (0, 3)])
        for lo in range(0, 256, 32):
            out.append(["torgba 8 4 1 2 %s" % csv(range(lo, lo + 32)), "togray 8 4 1 2 %s" % csv(sum([[v, v, v, r(0, 255)] for v in range(lo, lo + 32)], []))])
        for _ in range(60 * k):
            L = []
            for _ in range(6):
                w, h = r(1, 7), r(1, 5)
                pg, pc = rng.choice([0, 0, 1, 6]), rng.choice([0, 0, 1, 3, 4, 8])
                c = rng.random()
                if c < 0.2:
                    L.append("torgba %d %d %d %d %s" % (w, h, pg, pc, csv([r(0, 255) for _ in range(w * h)])))
                elif c < 0.5:
                    L.append("togray %d %d %d %d %s" % (w, h, pg, pc, csv([rng.choice([0, 255, r(0, 255)]) for _ in range(4 * w * h)])))
                elif c < 0.6:
                    L.append("torgbaf %d %d %d %d %s" % (w, h, pg, pc, csv([r(-500, 2000) for _ in range(w * h)])))
                elif c < 0.7:
                    L.append("tograyf %d %d %d %d %s" % (w, h, pg, pc, csv([rng.choice([r(0, 1024), r(-300, 2000)]) for _ in range(4 * w * h)])))
                elif c < 0.85:
                    L.append("mapimg %d 0 %d %d %d %s %d" % (r(0, 4), w, h, pg, csv([r(0, 255) for _ in range(w * h)]), r(0, 1)))
                else:
                    L.append("mapimg %d 1 %d %d %d %s %d" % (r(0, 4), w, h, pg, csv([rng.choice([r(0, 4096), r(-300, 4400)]) for _ in range(w * h)]), r(0, 1)))
            out.append(L)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("torgba", "togray", "mapimg", "map")]
        if not c:
            return None
        e = rng.choice(c)
        i = rng.randrange(len(e["r"]))
        e["r"][i] += 2 if e["r"][i] < 100 else -2
        return evs


COMP = {"C27": Color()}
