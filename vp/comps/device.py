from ..core import Comp


def csv(v):
    return ",".join(map(str, v))


class Device(Comp):
    prop = "C32"
    driver = "drv_device.cc"
    trace = ("DeviceTrace", "DeviceTrace.cfg")
    models = {
        "quick": [("DeviceMC", "DeviceMC_quick.cfg", dict(workers=1))],
        "thorough": [("DeviceMC", "DeviceMC_quick.cfg", dict(workers=1)), ("DeviceMC", "DeviceMC_deep.cfg", dict(workers=6, timeout=1500))],
    }
    assumptions = ["a full device is a file size limit of the process (RLIMIT_FSIZE)", "requests beyond 1500 MB of memory fail, those below 1 MB succeed"]
    chunk_events = 2500
    IMG = ["pnm", "png", "jpg", "spnm", "spng", "sjpg", "sraw", "vpng", "vpnm"]

    def mc_scripts(self, mc, rng, tier):
        H = sorted(set(map(lambda h: tuple(map(tuple, h)), mc)))
        H = [h for h in H if any(o[0] == "put" for o in h)]
        if tier == "quick":
            H = rng.sample(H, min(len(H), 2500))
        out = []
        for h in H:
            # the unit of the model as 1, 7 or 1000 bytes
            u = rng.choice([1, 1, 7, 1000])
            L = []
            for o in h:
                if o[0] == "limit":
                    L.append("limit %d" % (o[1] * u))
                elif o[0] == "open":
                    L.append("open %d %s" % (o[1] * rng.choice([1, 2, 3, 8, 64, 4096]), rng.choice(["x", "plain"])))
                elif o[0] == "put":
                    L.append("put %d %d" % ((o[1] * u, 1) if rng.random() < 0.5 else (o[1], u)))
                else:
                    L.append("close %s" % rng.choice(["x", "plain"]))
            out.append(L)
        return out

    def value(self, rng, w):
        b = w[1:] if w[0] == "x" else w
        if b in self.IMG:
            s = rng.choice([1, 3, 8, 20, 40, 70])
            return csv([rng.randint(1, s), rng.randint(1, s), rng.choice([1, 4]), rng.randint(0, 99)])
        if b == "str" or b == "rd" or b == "dq":
            return csv([rng.choice([0, 1, 2, 5, 20, 100, 5000]), rng.randint(0, 9)])
        return csv([rng.choice([0, 1, 2, 5, 20, 60, 200]), rng.randint(1, 9)])

    def slack(self, rng):
        return rng.choice(["-1", "-1", "0", "0", "1", "-2", "-%d" % rng.randint(1, 200), "=0", "=1", "=%d" % rng.randint(0, 300), "=4095", "=4096", "=4097"])

    def size(self, rng, big=0.25):
        c = rng.random()
        if c < 1 - big:
            return "%d %d" % (rng.randint(0, 9), rng.randint(0, 9))
        return "%d %d" % (rng.choice([1, 1, 3]), rng.choice([32, 40, 47, 60]))

    def gen_scripts(self, rng, tier):
        out = []
        W = ["brief", "xbrief", "keys", "xkeys", "strs", "xstrs", "str", "rd", "dq", "null", "csv", "csvsep", "xmat", "json"]
        S = self.IMG + ["x" + w for w in self.IMG] + ["csv", "xcsv", "xsift"]
        N = ["img", "pnm", "png", "jpg", "dpnm", "dpng", "djpg", "csv", "open"]
        N = N + ["x" + n for n in N] + ["xjson", "xsift"]
        L = ["noread %s %s" % (n, h) for n in N for h in ("dir", "none")] + ["nowhere %s %s %s" % (s, self.value(rng, s), h) for s in S for h in ("dir", "none")]
        out += [L[i:i + 12] for i in range(0, len(L), 12)]
        # every point at which a short value can be cut
        for w in W:
            v = "3,2" if w not in ("str", "rd", "dq") else "12,1"
            out.append(["write %s %s =%d 0 %s" % (w, v, k, rng.choice(["x", "plain"])) for k in range(0, 220, 1 if tier != "quick" else rng.choice([3, 4, 5]))])
        for s in S:
            v = "4,3" if s.endswith("csv") or s.endswith("sift") else "3,2,%d,5" % rng.choice([1, 4])
            out.append(["save %s %s -%d 0" % (s, v, k) for k in range(0, 90, 1 if tier != "quick" else rng.choice([7, 8, 9]))])
        for _ in range(80 if tier == "quick" else 1500):
            L = []
            for _ in range(10):
                if rng.random() < 0.5:
                    w = rng.choice(W)
                    L.append("write %s %s %s %d %s" % (w, self.value(rng, w), self.slack(rng), rng.choice([0, 0, 1, 16, 64, 4096]), rng.choice(["x", "plain"])))
                else:
                    s = rng.choice(S)
                    L.append("save %s %s %s %d" % (s, self.value(rng, s), self.slack(rng), rng.choice([0, 0, 1, 100, 9000])))
            out.append(L)
        for _ in range(120 if tier == "quick" else 2000):
            L, live = [], set()
            for _ in range(rng.choice([6, 12, 24])):
                c = rng.random()
                i = rng.randint(1, 4)
                if c < 0.2:
                    L.append("malloc %d %s %s" % (i, self.size(rng), rng.choice(["x", "plain"])))
                elif c < 0.45:
                    a, b = self.size(rng, 0.15), self.size(rng, 0.15)
                    if rng.random() < 0.15:
                        a, b = rng.choice([("1 33", "1 31"), ("1 32", "1 32"), ("3 40", "1 24"), ("1 63", "1 1"), ("1 63", "3 0"), ("5 31", "1 33"), ("0 0", "1 40"), ("1 40", "0 3"), ("1 34", "1 0")])
                    L.append("calloc %d %s %s %s" % (i, a, rng.choice(["x", "plain"]), b))
                elif c < 0.6:
                    al = rng.choice([4, 5, 6])
                    big = rng.random() < 0.2
                    L.append("aligned %d %s %s %d" % (i, "1 40" if big else "%d %d" % (rng.randint(1, 9), al), rng.choice(["x", "plain"]), 2 ** al))
                elif c < 0.8:
                    L.append("realloc %d %s" % (i, self.size(rng)))
                elif c < 0.9:
                    L.append("free %d" % i)
                else:
                    cap = rng.choice([0, 1, 4, 8, 20])
                    L.append("ensure %d %d %d" % (cap, rng.randint(0, cap), rng.choice([0, 1, 5, 8, 9, 12, 13, 24, 25, 60, 400])))
            out.append(L)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("save", "write", "close", "put")]
        if not c:
            return None
        e = rng.choice(c)
        e["out"] = "ok" if e["out"] != "ok" else "refused"
        return evs


COMP = {"C32": Device()}
