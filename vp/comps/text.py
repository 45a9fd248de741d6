from ..core import Comp


def hx(s):
    return "x" + bytes(s).hex()


class Text(Comp):
    prop = "C24"
    driver = "drv_text.cc"
    trace = ("TextTrace", "TextTrace.cfg")
    models = {"quick": [("TextMC", "TextMC_quick.cfg", dict(workers=1))],
              "thorough": [("TextMC", "TextMC_deep.cfg", dict(workers=1, timeout=1200))]}
    assumptions = ["texts contain no NUL", "record lengths of streams that were not written by the library may be anything",
                   "keypoint fields take integer values"]
    SPECIAL = [34, 92, 10, 13, 9, 8, 12, 47, 110, 114, 116, 98, 102, 39, 97, 32, 1, 127, 128, 255]

    def mc_scripts(self, mc, rng, tier):
        out = []
        enc = ["enc %s" % hx(c["s"]) for c in mc if "s" in c]
        # the same texts as encoded input, cut at every length
        dec = []
        for c in mc:
            if "s" in c:
                n = len(c["s"])
                dec.append("unread %s %d" % (hx(c["s"]), n))
                dec.append("undub %s %d" % (hx(c["s"]), n))
        L = ["null"] + enc + dec
        out += [L[i:i + 60] for i in range(0, len(L), 60)]
        H = [c["h"] for c in mc if "h" in c]
        if tier == "quick" and len(H) > 900:
            H = rng.sample(H, 900)
        for h in H:
            ls = []
            for r in h:
                op = r["op"]
                ls.append({"strwrite": "strwrite %s" % hx(r["s"]), "raw": "raw %s" % hx(r["s"]),
                           "strread": "strread %d" % rng.choice([0, 0, 1, 4, 50]), "getline": "getline %d" % rng.choice([0, 1, 3, -1, 40]),
                           "rewind": "rewind", "cut": "cut 1"}[op])
            if ls[0].startswith("getline -1"):
                ls[0] = "getline 0"
            out.append(self.first(ls))
        return out

    def first(self, ls):
        # the buffer of the first getline is given
        for i, x in enumerate(ls):
            if x.startswith("getline"):
                if x == "getline -1":
                    ls[i] = "getline 0"
                break
        return ls

    def text(self, rng, n=None):
        n = rng.choice([0, 1, 2, 3, 5, 9, 20, 62, 63, 64, 65, 66, 100, 127, 128, 129, 200]) if n is None else n
        return [rng.choice(self.SPECIAL) if rng.random() < 0.5 else rng.randint(1, 255) for _ in range(n)]

    def gen_scripts(self, rng, tier):
        out = []
        out.append(["enc %s" % hx([c]) for c in range(1, 256)])
        out.append(["unread %s 2" % hx([92, c]) for c in range(1, 256)])
        out.append(["undub %s 2" % hx([34, c]) for c in range(1, 256)])
        out.append(["fmt %s %d" % (hx([65 + i % 26 for i in range(n)]), rng.choice([0, 7, -12345])) for n in list(range(50, 70)) + [0, 1, 127, 128, 129, 1000]])
        out.append(["hex %s" % hx(range(a, a + 16)) for a in range(0, 256, 16)] + ["hex x"])
        for _ in range(60 if tier == "quick" else 1500):
            ls = []
            for _ in range(8):
                c = rng.random()
                if c < 0.2:
                    ls.append("enc %s" % hx(self.text(rng)))
                elif c < 0.4:
                    t = self.text(rng, rng.choice([1, 2, 3, 5, 8, 13]))
                    if rng.random() < 0.6:
                        t = [x for x in t if x != 92] + [92, rng.choice([110, 114, 116, 98, 102, 34, 92, 47, 110])] + [120]
                    ls.append("%s %s %d" % (rng.choice(["unread", "unread", "undub"]), hx(t), rng.choice([len(t), len(t), rng.randint(0, len(t))])))
                elif c < 0.5:
                    ls.append("fmt %s %d" % (hx(self.text(rng)), rng.randint(-1000, 1000)))
                elif c < 0.6:
                    ls.append("dup %s %s" % (hx(self.text(rng)), hx(self.text(rng))))
                elif c < 0.65:
                    ls.append("hex %s" % hx(self.text(rng, rng.randint(0, 40))))
                elif c < 0.85:
                    ps = [self.text(rng, rng.choice([0, 0, 1, 2, 3, 7])) for _ in range(rng.randint(1, 5))]
                    p = rng.choice([0, 0, rng.randint(0, len(ps))])
                    o = 0 if p >= len(ps) else rng.choice([0, rng.randint(0, len(ps[p]))])
                    ls.append("gather %s %d %d %s" % (".".join(hx(q) for q in ps), p, o, ",".join(str(rng.choice([0, 1, 2, 3, 5, 30])) for _ in range(rng.randint(1, 6)))))
                else:
                    n = rng.randint(0, 4)
                    v = [rng.randint(-100, 100) if i % 10 < 9 else rng.randint(0, 1000000) for i in range(10 * n)]
                    ls.append("keys %d %d %s" % (rng.randint(0, 5), rng.choice([n * 44, n * 44, rng.randint(0, n * 44 + 1), max(0, n * 44 - 1), 44]), ",".join(map(str, v)) or "."))
            out.append(ls)
        for _ in range(80 if tier == "quick" else 2000):
            ls = []
            for _ in range(rng.randint(3, 14)):
                c = rng.random()
                if c < 0.3:
                    ls.append("strwrite %s" % hx(self.text(rng)))
                elif c < 0.4:
                    t = self.text(rng, rng.choice([1, 4, 8, 30, 70]))
                    if rng.random() < 0.3:
                        t = rng.choice([[255] * 8, [254] + [255] * 7, [3] + [0] * 7 + [65, 66], [0] * 7 + [1], [0, 0, 0, 0, 0, 0, 0, 128, 65]])
                    ls.append("raw %s" % hx(t))
                elif c < 0.6:
                    ls.append("strread %d" % rng.choice([0, 1, 2, 10, 64, 300]))
                elif c < 0.85:
                    ls.append("getline %d" % rng.choice([0, 1, 2, 3, 4, 5, 16, -1, -1, -1]))
                elif c < 0.95:
                    ls.append("rewind")
                else:
                    ls.append("cut %d" % rng.randint(1, 12))
            out.append(self.first(ls))
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("enc", "hex", "fmt")]
        if not c:
            return None
        e = rng.choice(c)
        k = {"enc": "rd", "hex": "r", "fmt": "r"}[e["op"]]
        e[k] = e[k] + [65]
        return evs


COMP = {"C24": Text()}
