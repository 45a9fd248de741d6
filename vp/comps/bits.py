from ..core import Comp


class Bits(Comp):
    prop = "C11"
    driver = "drv_bits.cc"
    trace = ("BitsTrace", "BitsTrace.cfg")
    models = {"quick": [("BitsMC", "BitsMC_quick.cfg", dict(workers=1))],
              "thorough": [("BitsMC", "BitsMC_thorough.cfg", dict(workers=1, timeout=1200))]}
    assumptions = ["rotations by 1 to width-1 positions"]

    def mc_scripts(self, mc, rng, tier):
        return [[{"new": "new %d" % r["i"], "zero": "zero", "set": "set %d %d" % (r["i"], r["v"])}[r["op"]] for r in c]
                for c in mc]

    def word(self, rng, bits):
        c = rng.randint(0, 4)
        if c == 0:
            w = rng.getrandbits(bits)
        elif c == 1:
            w = 1 << rng.randrange(bits)
        elif c == 2:
            w = (1 << bits) - 1 - (1 << rng.randrange(bits))
        elif c == 3:
            a, b = sorted((rng.randint(0, bits), rng.randint(0, bits)))
            w = (1 << b) - (1 << a)
        else:
            w = rng.getrandbits(bits) & rng.getrandbits(bits) & rng.getrandbits(bits)
        return w

    def gen_scripts(self, rng, tier):
        out = []
        for b in (32, 64):
            ls = ["count%d %x" % (b, w) for w in [0, (1 << b) - 1] + [1 << i for i in range(b)]
                  + [(1 << b) - 1 - (1 << i) for i in range(b)] + [(1 << i) - 1 for i in range(b)]]
            ls += ["rotr%d %x %d" % (b, w, k) for k in range(1, b) for w in (self.word(rng, b), self.word(rng, b))]
            ls += ["split%d %x" % (b, 1 << i) for i in range(b)]
            out.append(ls)
        out.append(["compose x%s" % ("%08x" % (1 << i)) for i in range(32)])
        for k in range(150 if tier == "quick" else 3000):
            ls = []
            for _ in range(25):
                b = rng.choice([32, 64])
                op = rng.choice(["count", "count", "rotr", "split"])
                w = self.word(rng, b)
                ls.append("%s%d %x%s" % (op, b, w, " %d" % rng.randint(1, b - 1) if op == "rotr" else ""))
                ls.append("compose x%08x" % self.word(rng, 32))
            out.append(ls)
        for k in range(120 if tier == "quick" else 2000):
            n = rng.choice([1, 2, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100])
            ls = ["new %d" % n] + (["zero"] if rng.random() < 0.8 else [])
            for _ in range(rng.randint(1, 25)):
                ls.append("zero" if rng.random() < 0.05 else
                          "set %d %d" % (rng.choice([rng.randrange(n), n - 1, 0]), rng.random() < 0.6))
            out.append(ls)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("count32", "count64")]
        if not c:
            return None
        rng.choice(c)["r"] += 1
        return evs


COMP = {"C11": Bits()}
