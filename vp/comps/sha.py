from ..core import Comp


def hx(b):
    return "x" + bytes(b).hex()


class Sha(Comp):
    prop = "C10"
    driver = "drv_sha.cc"
    trace = ("ShaTrace", "ShaTrace.cfg")
    models = {
        "quick": [("ShaMC", "ShaMC_quick.cfg", dict(workers=1)), ("ShaMC", "ShaMC_deep.cfg", dict(workers=8))],
        "thorough": [("ShaMC", "ShaMC_thorough.cfg", dict(workers=1)), ("ShaMC", "ShaMC_deep.cfg", dict(workers=8))],
    }
    assumptions = ["messages shorter than 2^27 bytes in the recorded executions",
                   "the specification's SHA-256 is transcribed from FIPS 180-4"]
    chunk_events = 400

    def rnd(self, rng, n):
        c = rng.random()
        if c < 0.1:
            return [rng.choice([0, 255, 128])] * n
        return [rng.randrange(256) for _ in range(n)]

    def mc_scripts(self, mc, rng, tier):
        out = []
        for c in mc:
            lens = [max(0, 16 * k + (rng.choice([0, 0, -1, 1, -7, 7]) if k else 0)) for k in c]
            ls = ["sha " + " ".join(hx(self.rnd(rng, n)) for n in lens)]
            ch = " ".join(hx(self.rnd(rng, k)) for k in c)
            req = [rng.choice([1, 2, 4, 4, 4, 5]) for _ in range(sum(c) // 3 + 2)]
            ls.append("gather %s %s" % (",".join(map(str, req)), ch))
            out.append(ls)
        return out

    def gen_scripts(self, rng, tier):
        out = []
        for n in list(range(0, 200)) + [247, 248, 255, 256, 257, 311, 312, 320, 500, 512, 1000]:
            out.append(["sha1 " + hx(self.rnd(rng, n))])
        for n in (55, 56, 63, 64, 119, 120, 128):
            for cut in range(0, n + 1, 1 if tier != "quick" else 7):
                m = self.rnd(rng, n)
                out.append(["sha %s %s" % (hx(m[:cut]), hx(m[cut:]))])
        for _ in range(100 if tier == "quick" else 2500):
            k = rng.randint(1, 8)
            out.append(["sha " + " ".join(hx(self.rnd(rng, rng.choice([0, 0, 1, 3, 31, 32, 33, 55, 56, 63, 64, 65, 128,
                                                                        rng.randint(0, 150)]))) for _ in range(k))])
        # many messages hashed one after the other in one process
        ls = []
        for _ in range(30):
            ls.append("sha1 " + hx(self.rnd(rng, rng.randint(0, 130))))
        out.append(ls)
        out.append(["sha1 " + hx(self.rnd(rng, 70000 if tier != "quick" else 9000))])
        if tier != "quick":
            out.append(["sha " + " ".join(hx(self.rnd(rng, 30000)) for _ in range(10))])
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "sha"]
        if not c:
            return None
        e = rng.choice(c)
        e["hash"][rng.randrange(32)] ^= 1 << rng.randrange(8)
        return evs


COMP = {"C10": Sha()}
