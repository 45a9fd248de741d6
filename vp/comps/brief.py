from ..core import Comp


class Brief(Comp):
    prop = "C18"
    driver = "drv_brief.cc"
    trace = ("BriefTrace", "BriefTrace.cfg")
    models = {
        "quick": [("BriefMC", "BriefMC_quick.cfg", dict(workers=1))],
        "thorough": [("BriefMC", "BriefMC_quick.cfg", dict(workers=1)), ("BriefMC", "BriefMC_deep.cfg", dict(workers=6, timeout=900))],
    }
    assumptions = ["level offsets are not negative; a descriptor is computed where the position check accepted it",
                   "where scales or angles are not exact in floating point, a coordinate that is an integer may be sampled one pixel before it"]
    chunk_events = 150

    def mc_scripts(self, mc_cases, rng, tier):
        rng.shuffle(mc_cases)
        res = []
        for c in (mc_cases[:500] if tier == "quick" else mc_cases[:6000]):
            L, live, n = [], {}, rng.choice([1, 1, 2, 3])
            sm = {"a": rng.choice([1, 77, 4000000000]), "b": rng.choice([2, 0])}
            wr, rd = [], 0
            for o in c:
                if o[0] == "new":
                    L.append("new %d %d %d %s" % (o[1], n, o[2], sm[o[3]]))
                elif o[0] == "seed":
                    L.append("seed %d %s" % (o[1], sm[o[2]]))
                elif o[0] == "resize":
                    L.append("resize %d %d %d" % (o[1], n, o[2]))
                elif o[0] == "level":
                    L.append("level %d 1" % o[1])
                elif o[0] == "save":
                    L.append("save %d %d" % (o[1], rng.randint(0, 1)))
                elif o[0] == "load":
                    L.append("load %d" % o[1])
                elif o[0] == "cut":
                    L.append("cut %d" % rng.randint(0, 200))
                elif o[0] == "free":
                    L.append("free %d" % o[1])
            res.append(L)
        return res

    def gen_scripts(self, rng, tier):
        n = 120 if tier == "quick" else 1200
        return [self.history(rng) if i % 3 else self.maps(rng) for i in range(n)]

    def bits(self, rng, n):
        p = rng.choice([0.5, 0.5, 0.1])
        return [int(rng.random() < p) for _ in range(8 * n)]

    def maps(self, rng):
        L = []
        n = rng.choice([1, 2, 3, 8, 9, 16, 32])
        J = lambda b: ",".join(map(str, b))
        L.append("mapnew %d %d" % (n, rng.randint(0, 1)))
        st = []
        for _ in range(rng.randint(5, 16)):
            c = rng.random()
            if not st and rng.random() < 0.25:
                L.append("nn " + J(self.bits(rng, n)))
                L.append("byid %d" % rng.randint(0, 5))
            elif not st or c < 0.4:
                d = self.bits(rng, n)
                if st and rng.random() < 0.4:
                    d = list(rng.choice(st)[1])
                    for _ in range(rng.randint(0, 2)):
                        d[rng.randrange(8 * n)] ^= 1
                i = rng.choice([0, 1, 5, 70000, rng.randint(0, 50)])
                st.append((i, d))
                L.append("mapadd %d %s" % (i, J(d)))
            elif c < 0.65:
                d = list(rng.choice(st)[1]) if rng.random() < 0.6 else self.bits(rng, n)
                for _ in range(rng.randint(0, 3)):
                    d[rng.randrange(8 * n)] ^= 1
                L.append("nn " + J(d))
            elif c < 0.75:
                L.append("byid %d" % rng.choice([rng.choice(st)[0], rng.randint(0, 60)]))
            elif c < 0.82:
                L.append("mapall")
            elif c < 0.86:
                L.append("mapclear")
                st = []
            elif c < 0.9:
                n = rng.choice([1, 2, 3, 8, 9, 16])
                st = []
                L.append("mapnew %d %d" % (n, rng.randint(0, 1)))
            else:
                m = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 32])
                a = self.bits(rng, m)
                b = self.bits(rng, m)
                L.append("dist %s %s %d" % (J(a), J(b), rng.randint(0, 1)))
        return L

    def history(self, rng):
        L, live = [], {}
        saves = []
        for _ in range(rng.randint(4, 10)):
            c = rng.random()
            x = rng.randint(1, 2)
            if x not in live:
                n, r = rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4, 5, 6, 8, 16])
                live[x] = (n, r)
                L.append("new %d %d %d %s" % (x, n, r, rng.choice(["-", "1", "2", "99", "4294967295"])))
                L.append("level %d %d" % (x, rng.choice([0, 1, 1, 2])))
            elif c < 0.1:
                n, r = rng.choice([1, 2, 3, 4]), rng.choice([1, 3, 4, 5, 6])
                live[x] = (n, r)
                L.append("resize %d %d %d" % (x, n, r))
            elif c < 0.2:
                L.append("seed %d %s" % (x, rng.choice(["-", "1", "2", "99"])))
            elif c < 0.3:
                L.append("table %d %d %d" % (x, rng.randint(1, 4), rng.randint(1, 9999)))
            elif c < 0.8:
                lv = rng.randint(1, 4)
                p, q = rng.choice([(2, 1), (2, 1), (1, 1), (5, 4), (3, 2)])
                w, h = rng.randint(1, 24), rng.randint(1, 24)
                v = rng.randrange(lv)
                s = (p / q) ** v
                a = "%d %d %d %d %d %d %d %d %d %d %d" % (x, lv, w, h, p, q, rng.randint(1, 9999), rng.randint(0, 2), v,
                                                          rng.randint(-1, max(1, int(w / s))), rng.randint(-1, max(1, int(h / s))))
                if rng.random() < 0.65:
                    L.append("compute " + a)
                else:
                    L.append("theta %s %s" % (a, rng.choice(["1 0 1", "3 4 5", "4 -3 5", "-3 4 5", "5 12 13", "0 1 2"]).replace("0 1 2", "-4 -3 5")))
            elif c < 0.86:
                L.append("save %d 0" % x)
                saves.append(live[x])
            elif c < 0.89 and saves:
                L.append("cut %d" % rng.randint(0, 900))
                saves.pop()
                saves.append(None)
                break
            elif c < 0.95:
                L.append("load %d" % x)
                got = saves.pop(0) if saves else None
                if got:
                    live[x] = got
                else:
                    live.pop(x)
            else:
                L.append("free %d" % x)
                live.pop(x)
        if rng.random() < 0.5:
            n, r = rng.choice([(32, 24), (32, 16), (2, 5), (1, 4), (4, 16)])
            if rng.random() < 0.3:
                n = 32
            L.append("mapnew %d 0" % n)
            lv = 3
            w, h = 2 * r + rng.randint(1, 5), 2 * r + rng.randint(1, 5)
            ks = ["%d,%d,%d" % (rng.choice([0, 0, 0, 1]), w // 2 + rng.randint(-4, 4), h // 2 + rng.randint(-4, 4)) for _ in range(rng.randint(1, 4))]
            L.append("vg %d %d %s %d %d %d %d %d %d %s" % (n, r, rng.choice(["plain", "resize", "seed"]), rng.randint(0, 99), lv, w, h, rng.randint(1, 9999), rng.randint(0, 1), " ".join(ks)))
            L.append("mapall")
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if (e["op"] == "nn" and e["cost"] < 9000) or (e["op"] == "dist") or (e["op"] == "compute" and e["ok"] and not e["fz"]) or e.get("xs")]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "nn":
            e["cost"] += 1
        elif e["op"] == "dist":
            e["d"] += 1
        elif e["op"] == "compute" and e["ok"] and rng.random() < 0.6:
            e["bits"][rng.randrange(len(e["bits"]))] ^= 1
        else:
            x = rng.choice(e["xs"])
            x[rng.choice(["n", "r", "lo"])] += 1
        return evs


COMP = {"C18": Brief()}
