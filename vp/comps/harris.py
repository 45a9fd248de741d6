from ..core import Comp


class Harris(Comp):
    prop = "C17"
    driver = "drv_harris.cc"
    trace = ("HarrisTrace", "HarrisTrace.cfg")
    models = {
        "quick": [("HarrisMC", "HarrisMC_max.cfg", dict(workers=1)), ("HarrisMC", "HarrisMC_max2.cfg", dict(workers=1)),
                  ("HarrisMC", "HarrisMC_ctl.cfg", dict(workers=2))],
        "thorough": [("HarrisMC", "HarrisMC_max.cfg", dict(workers=1)), ("HarrisMC", "HarrisMC_max2.cfg", dict(workers=1)),
                     ("HarrisMC", "HarrisMC_ctl.cfg", dict(workers=2)), ("HarrisMC", "HarrisMC_deep.cfg", dict(workers=4, timeout=900))],
    }
    assumptions = ["byte images; scores are compared by their order, the derivative products within the rounding of the smoothing kernel",
                   "the detector class is asked for an odd number of keypoints that is no multiple of five, so that the factor rule has no ties"]
    chunk_events = 150

    def mc_scripts(self, mc_cases, rng, tier):
        rng.shuffle(mc_cases)
        cs = mc_cases[:1500] if tier == "quick" else mc_cases
        res, L = [], []
        for c in cs:
            L.append("max %d %d %d %d %d %s" % (c["w"], c["h"], rng.choice([0, 0, 2]), c["t"], rng.choice([9, 9, 1, 0]), ",".join(map(str, c["g"]))))
            if len(L) == 25:
                res.append(L)
                L = []
        return res

    def gen_scripts(self, rng, tier):
        return [self.history(rng) for _ in range(80 if tier == "quick" else 800)] + [self.adapting(rng) for _ in range(120 if tier == "quick" else 1200)]

    def adapting(self, rng):
        """thresholds inside the range of the scores, and detections one after the other"""
        L = ["new 1"]
        p = [rng.randint(12, 22), rng.randint(12, 20), 0, rng.randint(1, 99999), rng.choice([0, 0, 0, 3])]
        for _ in range(rng.randint(1, 3)):
            L.append("tune 1 %d %d %d %d %d %d" % (*p, rng.choice([30, 60, 80, 90, 95, 98])))
            mx = rng.choice([1, 3, 3, 7, 7, 9, 9, 11, 11, 13, 13, 17, 19, 21, 27] + [-92] * 4 + [-96, -97, -100, -105, -120, -160, -180, -80, -90, -93])
            for _ in range(rng.randint(2, 7)):
                if rng.random() < 0.15:
                    p[3] = rng.randint(1, 99999)
                if rng.random() < 0.75:
                    L.append("det 1 %d %d %d %d %d %d %d" % (*p, mx, rng.random() < 0.9))
                else:
                    L.append("pyr 1 %d %d %d %d %d %d %d %d" % (2, p[0], p[1], p[3], p[4], mx if mx > 0 else rng.choice([7, 13, 21]), rng.random() < 0.9, rng.randint(1, 2)))
        if rng.random() < 0.5:     # many peaks, some of them close to the threshold whatever it is
            L.append("det 1 %d %d 0 %d %d 499 0" % (rng.randint(34, 42), rng.randint(30, 40), rng.randint(1, 99999), p[4]))
        return L

    def history(self, rng):
        L, ds = [], set()
        for _ in range(rng.randint(4, 10)):
            c = rng.random()
            d = rng.randint(1, 2)
            w, h = rng.randint(1, 14), rng.randint(1, 12)
            if c < 0.15:
                px = [rng.randint(-3, 6) for _ in range(w * h)]
                if w > 4 and h > 4:    # one clear peak, to be compared with the threshold
                    x, y = rng.randint(2, w - 3), rng.randint(2, h - 3)
                    v = rng.randint(-2, 5)
                    for j in (-1, 0, 1):
                        for i in (-1, 0, 1):
                            px[(y + j) * w + x + i] = v - (1 if i or j else 0)
                    L.append("max %d %d %d %d %d %s" % (w, h, rng.choice([0, 3]), v + rng.choice([-1, 0, 0, 1]), 50, ",".join(map(str, px))))
                L.append("max %d %d %d %d %d %s" % (w, h, rng.choice([0, 3]), rng.randint(-2, 4), rng.choice([1, 2, 50]), ",".join(map(str, px))))
            elif c < 0.22:
                L.append("score %d %d %d %d %d %d" % (w, h, rng.randint(0, 4), rng.randint(1, 9999), rng.choice([0, 5, 20]), rng.randint(1, 9)))
            elif c < 0.32:
                L.append("deriv %d %d %d %d %d %d %d" % (w, h, rng.choice([0, 2]), rng.randint(1, 9999), rng.randint(0, 4), rng.choice([0, 0, 800, 1200, 1700]), rng.randint(0, 1)))
            elif d not in ds:
                L.append("new %d" % d)
                ds.add(d)
            elif c < 0.65:
                L.append("det %d %d %d %d %d %d %d %d" % (d, rng.randint(1, 18), rng.randint(1, 16), rng.choice([0, 0, 3]), rng.randint(1, 99999), rng.choice([0, 0, 1, 2, 3, 4]),
                                                          rng.choice([1, 3, 7, 9, 11, 13, 21]), rng.choice([0, 1, 1])))
            elif c < 0.8:
                lv = rng.randint(1, 3)
                L.append("pyr %d %d %d %d %d %d %d %d %d" % (d, lv, rng.randint(8, 20), rng.randint(8, 18), rng.randint(1, 99999), rng.choice([0, 0, 2, 3]),
                                                             rng.choice([1, 3, 7, 9, 11, 13, 21]), rng.choice([0, 1, 1]), rng.randint(1, lv)))
            elif c < 0.88:
                L.append("setthr %d %d" % (d, rng.choice([1, 1000, 100000, 10000000, 50000])))
            elif c < 0.92:
                L.append("setsig %d %d" % (d, rng.choice([800, 1200, 1700])))
            elif c < 0.96:
                L.append("setk %d %d" % (d, rng.choice([40, 50, 60, 0])))
            else:
                L.append("free %d" % d)
                ds.discard(d)
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("max", "det", "pyr") and e["ks"]] + [e for e in evs if e["op"] == "score"]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "score":
            e["s"][rng.randrange(len(e["s"]))] += 1
        else:
            rng.choice(e["ks"])[rng.choice(["x", "y", "id", "score", "level"])] += 1
        return evs


COMP = {"C17": Harris()}
