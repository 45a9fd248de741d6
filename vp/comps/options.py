from ..core import Comp

hx = lambda s: "x" + (s if isinstance(s, bytes) else s.encode("latin1")).hex()
TOK = ["-a", "--aa", "-b", "x", "7"]
DECL = [("i", 0, "-a"), ("s", 0, "-a|--aa"), ("b", 1, "--aa|-a"), ("b", 0, "-b"), ("d", 1, "-b"),
        ("i", 0, "-b|--aa"), ("i", 0, "-aa")]
DEF = {"b": "0", "i": "3", "d": "3", "s": hx("d"), "h": "0"}


def line(r):
    if r["op"] == "decl":
        ty, req, n = DECL[r["k"] - 1]
        return "decl %s %d %s %s %s" % (ty, req, hx(n), DEF[ty], hx("help " + n))
    if r["op"] == "rest":
        return "rest %d %s" % (r["k"], hx("file"))
    if r["op"] == "parse":
        return "parse " + " ".join([hx("prog")] + [hx(TOK[k - 1]) for k in r["w"]])
    if r["op"] == "get":
        return "get %s %s" % (r["ty"], hx(TOK[r["k"] - 1]))
    if r["op"] == "isset":
        return "isset " + hx(TOK[r["k"] - 1])
    raise ValueError(r)


class Options(Comp):
    prop = "C01"
    driver = "drv_options.cc"
    trace = ("OptionsTrace", "OptionsTrace.cfg")
    models = {
        "quick": [("OptionsMC", "OptionsMC_quick.cfg", dict(workers=1)),
                  ("OptionsMC", "OptionsMC_deep.cfg", dict(workers=8))],
        "thorough": [("OptionsMC", "OptionsMC_thorough.cfg", dict(workers=1, timeout=1500)),
                     ("OptionsMC", "OptionsMC_deeper.cfg", dict(workers=8))],
    }
    chunk_events = 2500
    assumptions = ["real numbers are read as libc's strtod reads them", "integer values have at most nine digits"]

    def mc_scripts(self, mc, rng, tier):
        if tier == "quick":
            short = [c for c in mc if len(c) <= 3]
            long = [c for c in mc if len(c) > 3]
            mc = short + rng.sample(long, min(2500, len(long)))
        return [["mode " + "cx"[k % 2]] + [line(r) for r in c] + (["values", "usage"] if k % 5 == 0 else [])
                for k, c in enumerate(mc)]

    def gen_scripts(self, rng, tier):
        return [self.one(rng, k) for k in range(500 if tier == "quick" else 6000)]

    def text(self, rng, n=None):
        al = rng.choice(["ab", "0123456789", "-ab", "abcdefgh xyz", "\x01\x7f\xff'\"\\%s,|"])
        return "".join(rng.choice(al) for _ in range(rng.randint(0, 9) if n is None else n))

    def one(self, rng, k):
        cxx = k % 2
        lines = ["mode " + "cx"[cxx]]
        letters = list("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-?_")
        rng.shuffle(letters)
        longs = ["--" + self.word(rng) for _ in range(14)]
        names, types = [], {}
        helped = False
        nd = rng.choice([1, 2, 3, 4, 6, 12])

        def decl():
            nonlocal helped
            ty = rng.choice("bidsbids" + ("h" if not helped else ""))
            form = rng.randint(0, 3)
            s, l = "-" + letters.pop(), (longs.pop() if longs else "--zz%d" % rng.randint(0, 10 ** 6))
            nm = [s, l, s + "|" + l, l + "|" + s][form]
            if rng.random() < 0.03:
                nm = rng.choice(["", "-", "a", "abc", "-ab", "|", "-a|", "|-a", "--", "-|-", "--|--xx"] + names)
                if nm.count("|") == 1 and len(nm.split("|")[0]) == len(nm.split("|")[1]) == 2:
                    nm = "-"
            if ty == "h":
                if any(n in ("-h", "--help") for n in names) or rng.random() < 0.5:
                    return
                helped = True
                lines.append("decl h 0 x 0 x")
                names.extend(["-h", "--help"])
                return
            d = {"b": str(rng.randint(0, 1)), "i": str(rng.choice([0, -1, 5, 123456, -2147483, 99])),
                 "d": rng.choice(["0", "0.5", "-3.25", "1e-3", "12345.678", "1e20"]), "s": hx(self.text(rng))}[ty]
            lines.append("decl %s %d %s %s %s" % (ty, rng.random() < 0.12, hx(nm), d, hx(self.text(rng))))
            for p in nm.split("|"):
                names.append(p)
                types[p] = ty
        for _ in range(nd):
            decl()
        if not cxx and k % 4 < 3:    # several declarations in one call
            g, out = [], []
            for ln in lines[1:] + ["end"]:
                w = ln.split()
                ok = w[0] == "decl" and w[1] != "h"
                if g and (not ok or len(g) == 4 or rng.random() < 0.2):
                    if rng.random() < 0.15 and len(g) < 4:
                        g.insert(rng.randint(0, len(g)), ["r", "0", "x", "0", hx(self.text(rng))])
                    out.append("group %s %s" % ("new" if not out else "add", " ".join(sum(g, []))))
                    g = []
                if ok:
                    g.append(w[1:])
                elif ln != "end":
                    out.append(ln)
            lines[1:] = out
        if rng.random() < 0.6:
            lines.append("rest %d %s" % (rng.random() < 0.25, hx(self.text(rng))))
        for _ in range(rng.randint(1, 4)):
            c = rng.random()
            if c < 0.1 and letters:
                decl()
            elif c < 0.15:
                lines.append("rest %d %s" % (rng.random() < 0.2, hx("again")))
            elif c < 0.2:
                lines.append("%s %s" % (rng.choice(["header", "footer"]), hx(self.text(rng))))
            elif c < 0.3:
                lines.append(rng.choice(["values", "usage"]))
            else:
                argv = ["prog%d" % rng.randint(0, 3)]
                for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 20])):
                    q = rng.random()
                    if q < 0.5 and names:
                        a = rng.choice(names)
                        if a in ("-h", "--help") and rng.random() < 0.9:
                            continue
                        if types.get(a) in ("i", "d", "s") and rng.random() < 0.93:
                            argv.append(a)
                            a = rng.choice([str(rng.randint(-10 ** 8, 10 ** 8)), "%g" % rng.uniform(-9, 9), self.text(rng),
                                            "0x1f", "010", "+7", " 12", "3abc", "", "1e3", rng.choice(names)])
                        argv.append(a)
                    elif q < 0.6 and names:
                        argv.append((rng.choice(names) + rng.choice("ax=1"))[:20])
                    else:
                        argv.append(self.text(rng))
                lines.append("parse " + " ".join(hx(a) for a in argv))
        lines += ["values", "usage"]
        c = rng.random()
        if c < 0.25 and names:
            lines.append("get %s %s" % (rng.choice("bids"), hx(rng.choice(names))))
        elif c < 0.35:
            lines.append("get %s %s" % (rng.choice("bids"), hx("--" + self.word(rng))))
        elif c < 0.45:
            lines.append("isset " + hx(rng.choice(["-q", "--", "-", "", "q"] + names)))
        elif c < 0.48 and not cxx:
            lines.append("badformat")
        return lines

    def word(self, rng):
        # words of few letters collide in the option table now and then
        return "".join(rng.choice("abcxyz-_AB09") for _ in range(rng.choice([1, 1, 2, 2, 3, 8])))

    def corrupt(self, evs, rng):
        c = [i for i, e in enumerate(evs) if e.get("reads")]
        if not c:
            return None
        i = rng.choice(c)
        r = rng.choice(evs[i]["reads"])
        r["set"] = not r["set"]
        return evs


COMP = {"C01": Options()}
