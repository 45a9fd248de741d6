from ..core import Comp

hx = lambda s: "x" + bytes(s).hex()


def line(r):
    op, a, i, s = r["op"], r["a"], r["i"], r["s"]
    if op in ("new", "resize"):
        return "%s %d %d" % (op, a, i)
    if op in ("free", "write", "read", "readnew"):
        return "%s %d" % (op, a)
    if op == "set":
        return "set %d %d %s" % (a, i, "-" if s == [-1] else hx(s))
    if op in ("append", "find"):
        return "%s %d %s" % (op, a, hx(s))
    if op == "setself":
        return "setself %d %d %d" % (a, i, s[0])
    if op == "rewind":
        return "rewind"
    if op == "cut":
        return "cut %d" % i
    raise ValueError(op)


class StrArray(Comp):
    prop = "C04"
    driver = "drv_strarray.cc"
    trace = ("StrArrayTrace", "StrArrayTrace.cfg")
    models = {
        "quick": [("StrArrayMC", "StrArrayMC_quick.cfg", dict(workers=1)),
                  ("StrArrayMC", "StrArrayMC_deep.cfg", dict(workers=8))],
        "thorough": [("StrArrayMC", "StrArrayMC_thorough.cfg", dict(workers=1, timeout=1500)),
                     ("StrArrayMC", "StrArrayMC_deep.cfg", dict(workers=8))],
    }
    assumptions = ["strings contain no zero byte", "element indices are in range",
                   "only arrays whose elements are all set are written to a stream"]

    def mc_scripts(self, mc, rng, tier):
        cap = 4000 if tier == "quick" else 30000
        if len(mc) > cap:
            mc = [c for c in mc if len(c) <= 3] + rng.sample([c for c in mc if len(c) > 3], cap)
        return [[line(r) for r in c] for c in mc]

    def txt(self, rng):
        n = rng.choice([0, 1, 2, 3, 5, 9, 63, 64, 65, 66, 130, 300])
        return [rng.choice([97, 98, 0x25, 10, 13, 255, 128, 1, 34, 92, 32, rng.randint(1, 255)]) for _ in range(n)]

    def gen_scripts(self, rng, tier):
        out = []
        for k in range(300 if tier == "quick" else 4000):
            ls, ln = [], {}
            pool = [self.txt(rng) for _ in range(rng.randint(1, 4))]
            big = rng.random() < 0.1
            atend, dirty, items = True, {}, 0
            null = {}
            for _ in range(rng.randint(4, 40)):
                a = rng.choice([1, 2, 3])
                if a not in ln:
                    if rng.random() < 0.3:
                        l = [rng.choice(pool) for _ in range(rng.randint(0, 6))]
                        ls.append("newlist %d %s" % (a, " ".join(hx(x) for x in l)))
                        ln[a] = len(l)
                        null[a] = set()
                    else:
                        n = rng.choice([0, 0, 1, 2, 3, 5])
                        ls.append("new %d %d" % (a, n))
                        ln[a] = n
                        null[a] = set(range(1, n + 1))
                    continue
                op = rng.choice("append append append appendf appendself set set setf setself setfself resize clear find "
                                "find write write read xread rewind free cut".split())
                s = rng.choice(pool) if rng.random() < 0.7 else self.txt(rng)
                if op in ("append", "appendf"):
                    for _ in range(rng.randint(10, 40) if big and rng.random() < 0.5 else 1):
                        ls.append("%s %d %s" % (op, a, hx(s)))
                        ln[a] += 1
                elif op == "appendself" and ln[a]:
                    j = rng.randint(1, ln[a])
                    ls.append("appendself %d %d" % (a, j))
                    ln[a] += 1
                    if j in null[a]:
                        null[a].add(ln[a])
                elif op in ("set", "setf") and ln[a]:
                    i = rng.randint(1, ln[a])
                    nul = rng.random() < 0.1 and op == "set"
                    ls.append("%s %d %d %s" % (op, a, i, "-" if nul else hx(s)))
                    (null[a].add if nul else null[a].discard)(i)
                elif op in ("setself", "setfself") and ln[a]:
                    i = rng.randint(1, ln[a])
                    j = i if rng.random() < 0.4 else rng.randint(1, ln[a])
                    if op == "setfself":
                        if j in null[a]:
                            continue
                        ls.append("setfself %d %d %d %s" % (a, i, j, hx(s[:5])))
                        null[a].discard(i)
                    else:
                        ls.append("setself %d %d %d" % (a, i, j))
                        (null[a].add if j in null[a] else null[a].discard)(i)
                elif op in ("resize", "clear"):
                    n = rng.choice([0, 1, 2, ln[a], ln[a] + 1, ln[a] // 2, rng.randint(0, 40)]) if op == "resize" else 0
                    ls.append("resize %d %d" % (a, n) if op == "resize" else "clear %d" % a)
                    for q in range(ln[a] + 1, n + 1):
                        null[a].add(q)
                    null[a] = {q for q in null[a] if q <= n}
                    ln[a] = n
                elif op == "find":
                    ls.append("find %d %s" % (a, hx(s)))
                elif op == "free":
                    ls.append("free %d" % a)
                    del ln[a]
                elif op == "write" and atend and not null[a]:
                    ls.append("write %d%s" % (a, " x" if rng.random() < 0.3 else ""))
                    items += 1
                elif op == "rewind" and items:
                    ls.append("rewind")
                    atend = False
                elif op == "cut" and items and rng.random() < 0.5:
                    ls.append("cut %d" % rng.choice([1, 2, 4, 8, 9, 12, 13, rng.randint(1, 100)]))
                    ls.append("read %d" % a)
                    break
                elif op in ("read", "xread") and not atend:
                    # everything that was written, one after the other; the last read has nothing left
                    for q in range(items + (rng.random() < 0.5)):
                        ls.append("%s %d" % (op, rng.choice([1, 2, 3])))
                    break
            out.append(ls)
        return out

    def corrupt(self, evs, rng):
        c = [(e, x) for e in evs if "arrs" in e for x in e["arrs"] if x["list"] and x["list"][-1] != [-1]]
        if not c:
            return None
        e, x = rng.choice(c)
        x["list"][-1] = x["list"][-1] + [7]
        return evs


COMP = {"C04": StrArray()}
