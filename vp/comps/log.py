from ..core import Comp


def hx(s):
    return "x" + (s.encode() if isinstance(s, str) else bytes(s)).hex()


class Log(Comp):
    prop = "C33"
    driver = "drv_log.cc"
    trace = ("LogTrace", "LogTrace.cfg")
    models = {
        "quick": [("LogMC", "LogMC_quick.cfg", dict(workers=1))],
        "thorough": [("LogMC", "LogMC_quick.cfg", dict(workers=1)), ("LogMC", "LogMC_deep.cfg", dict(workers=6, timeout=900))],
    }
    assumptions = ["the four message levels; tags and messages without NUL", "assertions as compiled without NDEBUG",
                   "the call stack printed after a fatal error is not judged"]
    chunk_events = 2500
    last = None

    def text(self, rng, n=None):
        k = rng.random()
        n = n if n is not None else rng.choice([0, 1, 3, 8, 20, 60])
        if k < 0.15:
            return "%d %s %n %%"[:max(n, 2)]
        if k < 0.3:
            return [rng.choice([9, 10, 34, 37, 92, 128, 255, 91, 93, 27]) for _ in range(n)]
        return [rng.randint(33, 126) for _ in range(n)]

    def parts(self, rng, oneline=False):
        P, args = [], 0
        for _ in range(rng.randint(0, 5)):
            c = rng.random()
            if c < 0.5 or args == 3:
                s = self.text(rng)
                s = s.encode() if isinstance(s, str) else bytes(s)
                P.append("lit:" + hx(s.replace(b"\n", b" ") if oneline else s))
            elif c < 0.75:
                P.append("int:%d" % rng.choice([0, 1, -1, 10, 99, 12345, -2147483647, 2147483647, rng.randint(-9999, 9999)]))
                args += 1
            else:
                n = rng.choice([None, None, None, 0, 1500])
                s = self.text(rng, n)
                s = s.encode() if isinstance(s, str) else bytes(s)
                P.append("str:" + hx(s.replace(b"\n", b" ") if oneline else s))
                args += 1
        return " ".join(P)

    def place(self, rng):
        if rng.random() < 0.5:
            return "%s %d %s" % (hx(rng.choice(["run", "load_all"])), rng.choice([12, 340]), hx(rng.choice(["IO", "NXImage"])))
        w = lambda: "".join(rng.choice("abcXYZ_019 ") for _ in range(rng.choice([1, 2, 6, 30])))
        return "%s %d %s" % (hx(w()), rng.choice([0, 1, 9, 10, 77, 100, 99999]), hx(w()))

    def say(self, rng, n):
        t = self.last if self.last and rng.random() < 0.3 else "%s %s %s" % (rng.choice(["fn", "fn", "macro"]), self.place(rng), self.parts(rng))
        self.last = t
        return "say %d %s" % (n, t)

    def fatal(self, rng):
        return "fatal 4 %s %s %s" % (rng.choice(["fn", "fn", "macro"]), self.place(rng), self.parts(rng, True))

    def check(self, rng):
        k = rng.choice(["plain", "ptr", "custom", "range", "index"])
        a, b = rng.choice([0, 1, 2, 3, 4, -1]), rng.choice([1, 2, 3, 0])
        return "assert %s %d %d %d" % (k, a, b, b + rng.choice([0, 1, 2]))

    def mc_scripts(self, mc, rng, tier):
        H = sorted(set(tuple(map(tuple, h)) for h in mc))
        if tier == "quick":
            H = rng.sample(H, min(len(H), 1800))
        out = []
        for h in H:
            L = ["tty"] if rng.random() < 0.15 else []
            for o in h:
                L.append("verb %d" % o[1] if o[0] == "verb" else "handler %s" % o[1] if o[0] == "handler" else self.say(rng, o[1]) if o[0] == "say" else self.fatal(rng))
            out.append(L)
        return out

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(150 if tier == "quick" else 2500):
            L = ["tty"] if rng.random() < 0.3 else []
            for _ in range(rng.randint(4, 20)):
                c = rng.random()
                L.append("verb %d" % rng.randint(0, 3) if c < 0.12 else "handler %s" % rng.choice(["default", "h1", "h2"]) if c < 0.24
                         else self.say(rng, rng.randint(0, 3)) if c < 0.67 else self.fatal(rng) if c < 0.84 else self.check(rng))
                if rng.random() < 0.03:
                    one = self.say(rng, rng.randint(0, 3))
                    L += [one] * rng.choice([5, 40])
            out.append(L)
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("say", "fatal") and e["shows"]]
        if not c:
            return None
        e = rng.choice(c)
        if rng.random() < 0.5:
            e["shows"].pop(rng.randrange(len(e["shows"])))
        else:
            e["shows"] = []
        return evs


COMP = {"C33": Log()}
