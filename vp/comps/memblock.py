from ..core import Comp

VALS = list(range(1, 250))


def line(r):
    op, s = r["op"], r["s"]
    if op in ("alloc", "release", "zero", "free"):
        return "%s %d" % (op, s)
    if op in ("new", "newr", "reserve", "resize"):
        return "%s %d %d" % (op, s, r["n"])
    if op == "lend":
        return "lend %d %d %s %d" % (s, r["n"], ",".join(str(11 + i) for i in range(r["c"])) or ".", r["b"])
    if op == "give":
        return "give %d %d %s" % (s, r["n"], ",".join(str(11 + i) for i in range(r["c"])) or ".")
    if op in ("swap", "copy", "copynew"):
        return "%s %d %d" % (op, s, r["t"])
    if op == "store":
        return "store %d %d %d" % (s, r["n"], r["v"])
    if op == "push":
        return "push %d %d" % (s, r["v"])
    raise ValueError(op)


class MemBlock(Comp):
    prop = "C03"
    driver = "drv_memblock.cc"
    trace = ("MemBlockTrace", "MemBlockTrace.cfg")
    models = {
        "quick": [("MemBlockMC", "MemBlockMC_quick.cfg", dict(workers=1)),
                  ("MemBlockMC", "MemBlockMC_deep.cfg", dict(workers=8))],
        "thorough": [("MemBlockMC", "MemBlockMC_thorough.cfg", dict(workers=1, timeout=1500, cover=False)),
                     ("MemBlockMC", "MemBlockMC_deep.cfg", dict(workers=8))],
    }
    assumptions = ["allocation never fails", "handles are used from one thread",
                   "bytes beyond the visible size carry no guarantee"]

    def mc_scripts(self, mc, rng, tier):
        out = []
        for c in mc:
            for mode in "bv":
                out.append(["mode " + mode] + [line(r) for r in c])
        return out

    def gen_scripts(self, rng, tier):
        out = []
        for k in range(300 if tier == "quick" else 3000):
            out.append(["mode " + "bv"[k % 2]] + self.one(rng))
        return out

    def one(self, rng):
        ex = {1: False, 2: False, 3: False}
        size = {1: 0, 2: 0, 3: 0}
        lentof = {1: 0, 2: 0, 3: 0}
        big = rng.random() < 0.15
        mx = 600 if big else 12
        lines = []
        for _ in range(rng.randint(5, 30)):
            s = rng.choice([1, 2, 3])
            if not ex[s]:
                op = rng.choice(["alloc", "new", "newr", "copynew"])
                if op == "copynew":
                    c = [t for t in ex if ex[t]]
                    if not c:
                        continue
                    t = rng.choice(c)
                    lines.append("copynew %d %d" % (s, t))
                    size[s] = size[t]
                elif op == "alloc":
                    lines.append("alloc %d" % s)
                    size[s] = 0
                else:
                    n = rng.randint(0, mx)
                    lines.append("%s %d %d" % (op, s, n))
                    size[s] = n if op == "new" else 0
                ex[s] = True
                lentof[s] = 0
                continue
            op = rng.choice(["reserve", "resize", "resize", "release", "lend", "give", "swap", "copy",
                             "store", "store", "zero", "push", "push", "push", "free"])
            if op == "reserve":
                lines.append("reserve %d %d" % (s, rng.randint(0, mx)))
            elif op == "resize":
                n = rng.randint(0, mx)
                lines.append("resize %d %d" % (s, n))
                size[s] = n
            elif op in ("release", "zero", "free"):
                lines.append("%s %d" % (op, s))
                if op != "zero":
                    size[s] = 0
                    lentof[s] = 0
                if op == "free":
                    ex[s] = False
            elif op in ("lend", "give"):
                n = rng.randint(1, mx)
                z = rng.randint(0, n)
                c = ",".join(str(rng.choice(VALS)) for _ in range(n))
                if op == "lend":
                    # conservatively only buffers no other handle may still use
                    free = [b for b in (1, 2, 3) if all(lentof[t] != b for t in ex if t != s)]
                    if not free:
                        continue
                    b = rng.choice(free)
                    lines.append("lend %d %d %s %d" % (s, z, c, b))
                    lentof[s] = b
                else:
                    lines.append("give %d %d %s" % (s, z, c))
                    lentof[s] = 0
                size[s] = z
            elif op in ("swap", "copy"):
                c = [t for t in ex if ex[t] and (t != s or op == "copy")]
                if not c:
                    continue
                t = rng.choice(c)
                lines.append("%s %d %d" % (op, s, t))
                if op == "swap":
                    size[s], size[t] = size[t], size[s]
                    lentof[s], lentof[t] = lentof[t], lentof[s]
                else:
                    size[s] = size[t]
            elif op == "store":
                if size[s]:
                    lines.append("store %d %d %d" % (s, rng.randint(1, size[s]), rng.choice(VALS)))
            elif op == "push":
                lines.append("push %d %d" % (s, rng.choice(VALS)))
                size[s] += 1
        return lines

    def corrupt(self, evs, rng):
        c = [i for i, e in enumerate(evs) if e.get("hs") and any(x["data"] and e["op"] in ("store", "lend", "give") for x in e["hs"])]
        if not c:
            return None
        i = rng.choice(c)
        x = [x for x in evs[i]["hs"] if x["data"]][0]
        if evs[i]["op"] == "store":
            x["data"][evs[i]["n"] - 1] += 1
        else:
            x["data"][0] += 1
        return evs


COMP = {"C03": MemBlock()}
