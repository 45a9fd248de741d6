from ..core import Comp

HS = ["1126,102,0,-205,922,0,30720,-20480,1024", "1024,0,0,0,1024,0,0,0,1024", "900,-300,0,310,880,0,9000,50000,1024",
      "1126,102,1,-205,922,0,30720,-20480,1024", "2048,10,0,30,1500,0,-90000,4000,1024"]


def csv(v):
    return ",".join(map(str, v)) if v else "."


class Usac(Comp):
    prop = "C19"
    driver = "drv_usac.cc"
    trace = ("UsacTrace", "UsacTrace.cfg")
    models = {
        "quick": [("UsacMC", "UsacMC_quick.cfg", dict(workers=1))],
        "thorough": [("UsacMC", "UsacMC_quick.cfg", dict(workers=1)), ("UsacMC", "UsacMC_deep.cfg", dict(workers=6, timeout=900))],
    }
    assumptions = ["the configured functions only write where the interface says; a fit function that returns more models than there is room for grows the buffer first",
                   "homography estimators are judged on points of a circle (no three on a line) and outliers far outside the tolerance; marks within 1% of the tolerance are not judged"]
    chunk_events = 1500

    def run_line(self, rng, q):
        return "run %d %d %d %d %s" % (rng.choice([1, 2, 3, 9]), rng.choice([1, 2, 4]), rng.choice([0, 0, 1, 3]), rng.choice([0, 5, -1]),
                                       " ".join(csv(q[k]) for k in "TSFMVDL"))

    def mc_scripts(self, mc_cases, rng, tier):
        rng.shuffle(mc_cases)
        cs = mc_cases[:2500] if tier == "quick" else mc_cases
        res, L = [], []
        for c in cs:
            q = {k: [] for k in "TSFMVDL"}
            for r in c:
                q[r["f"]].append(r["v"])
            L.append(self.run_line(rng, q))
            if len(L) == 10:
                res.append(L)
                L = []
        return res + ([L] if L else [])

    def gen_scripts(self, rng, tier):
        res = []
        for _ in range(100 if tier == "quick" else 1500):
            L = []
            for _ in range(4):
                p = [rng.random() for _ in range(5)]
                vals = rng.choice([[0, 1, 2, 3], [-5, -4, -3], list(range(30)), [7], [3, 4, 1000000000]])
                b = lambda x: [1 if rng.random() < x else 0 for _ in range(60)]
                q = dict(T=[0] * rng.randint(0, 14) + [1], S=b(0.4 + p[0] / 2), F=[rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(40)], M=b(0.3 + 0.7 * p[1]),
                         V=[rng.choice(vals) for _ in range(90)], D=b(p[2]), L=b(p[3]))
                L.append(self.run_line(rng, q))
            res.append(L)
        for _ in range(150 if tier == "quick" else 2500):
            L = []
            for _ in range(8):
                c = rng.random()
                fn = rng.choice(["usac", "usac", "ransac", "norm", "norm", "vg"])
                if c < 0.1:
                    N, nin, k, it = rng.randint(0, 3), 3, 0, 5
                elif c < 0.65:
                    N = rng.randint(4, 12)
                    nin, k, it = N, rng.choice([0, 0, 4]), rng.choice([1, 1, 1, 2])
                elif c < 0.8:
                    N = rng.randint(8, 14)
                    nin, k, it = N - rng.randint(1, N // 4), 0, 400
                elif c < 0.87:
                    N, k, it = rng.randint(4, 12), rng.choice([1, 2, 3]), 3
                    nin = N
                elif c < 0.95:
                    N, k, it = rng.choice([5, 6, 7, 8, 12]), 5, rng.choice([1, 3, 30])
                    nin = N - rng.randint(1, max(1, N // 3))
                else:
                    N, k, it = rng.randint(4, 14), rng.choice([0, 4]), rng.randint(0, 4)
                    nin = rng.randint(0, N)
                L.append("est %s %d %d %d %d %d %s" % (fn, N, rng.randint(1, 10**6), nin, k, it, rng.choice(HS)))
            res.append(L)
        return res

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("score", "mcheck", "degen", "local", "term", "ret", "est")]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "est":
            e["got"] += 1
        else:
            k = "b" if "b" in e else "m"
            e[k] += 1
        return evs


COMP = {"C19": Usac()}
