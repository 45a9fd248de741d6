import json
import struct

from ..core import Comp
from .frame import bits, from_bits

hx = lambda s: "x" + bytes(s).hex()
NAMES = [b"", b"a", b"b", b"key", b'q"', b"a/b", b"\\", b"\n", b"\xff\xc3"]
names_arg = lambda ns: ",".join(hx(n) for n in ns) if ns else "."
KT = ["obj", "arr", "str", "int", "fp", "true", "false", "null"]


def dtok(d):
    return struct.pack(">d", d).hex()


def f32(d):
    try:
        return struct.unpack(">f", struct.pack(">f", d))[0]
    except OverflowError:
        return float("inf") if d > 0 else float("-inf")


def number_texts(e):
    """every piece of text in the event that might be a number"""
    out = []

    def rec(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("t", "gt") and isinstance(v, list):
                    out.append(bytes(v))
                else:
                    rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    rec(e.get("ns"))
    rec(e.get("leafs"))
    if e["op"] == "keys":
        txt = bytes(e["text"])
        for sep in b'[]{}":,\n ':
            txt = txt.replace(bytes([sep]), b" ")
        out += txt.split(b" ")
    return out


class JsonBase(Comp):
    driver = "drv_json.cc"
    trace = ("JsonTrace", "JsonTrace.cfg")
    chunk_events = 900

    def annotate(self, evs):
        out, kids = [], []
        texts = []   # node texts by number
        for ln in evs:
            e = json.loads(ln)
            op = e["op"]
            if op == "case":
                texts = []
            if op == "new":
                texts.append(bytes(e["t"]))
            if op in ("bundle", "bundlearr"):
                texts += [bytes(n["t"]) for n in e.get("ns", [])]
            if op in ("bundle", "bundlearr", "unb", "unbarr", "keys"):
                cand = set(number_texts(e))
                if op in ("unb", "unbarr"):
                    cand |= set(texts)
                tab = []
                for t in sorted(cand):
                    if not t or b"_" in t or len(t) > 60:
                        continue
                    try:
                        v = float(t.decode("latin-1"))
                    except ValueError:
                        continue
                    if e.get("ty") == "float":
                        v = f32(v)
                    tab.append({"t": list(t), "v": bits(v)})
                e["tab"] = tab
            out.append(json.dumps(e))
        return out

    def corrupt(self, evs, rng):
        c = [e for e in evs if e.get("out") == "ok" and (e.get("walk") or e.get("back") or e["op"] in ("aget", "oget"))]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] in ("aget", "oget"):
            e["res"] += 1
        elif e.get("back"):
            if not e["back"][0]:
                return None
            x = e["back"][0]
            while isinstance(x[0], list):
                x = x[0]
            x[0] ^= 1
        else:
            w = rng.choice(e["walk"])
            if w["t"] and rng.random() < 0.7:
                w["t"][0] ^= 1
            else:
                w["q"] += 1
        return evs


class Parse(JsonBase):
    prop = "C07"
    models = {
        "quick": [("JsonMC", "JsonMC_quick.cfg", dict(workers=1)), ("JsonMC", "JsonMC_chars.cfg", dict(workers=1))],
        "thorough": [("JsonMC", "JsonMC_thorough.cfg", dict(workers=1, timeout=2500, heap="12g")),
                     ("JsonMC", "JsonMC_charsdeep.cfg", dict(workers=1, timeout=2500, heap="12g"))],
    }
    assumptions = ["texts contain no zero byte",
                   "what happens when something other than white space follows the root value is not specified"]

    def mc_scripts(self, mc, rng, tier):
        cap = 5000 if tier == "quick" else 60000
        texts = []
        for t in mc:
            t = bytes(t)
            texts += [t, b"[" + t + b"]", b'{"a":' + t + b"}"] if rng.random() < 0.9 else [t]
        texts = list(dict.fromkeys(texts))
        if len(texts) > cap:
            # the accepted ones are few: keep all of them
            ok = []
            for t in texts:
                try:
                    if isinstance(json.loads(t), (list, dict)):
                        ok.append(t)
                except Exception:
                    pass
            ok = ok if len(ok) < cap // 2 else rng.sample(ok, cap // 2)
            texts = ok + rng.sample(texts, cap - len(ok))
        rng.shuffle(texts)
        return [["parse %s %s %s" % (rng.choice(["mem", "mem", "stream", "file"]), hx(t), names_arg([b"a"])) for t in texts[i:i + 40]]
                for i in range(0, len(texts), 40)]

    def ws(self, rng):
        return bytes(rng.choice([32, 9, 10, 13]) for _ in range(rng.choice([0, 0, 0, 1, 2, 5])))

    def jstr(self, rng):
        if rng.random() < 0.5:
            n = rng.choice(NAMES)
            return b'"' + n.replace(b"\\", b"\\\\").replace(b'"', b'\\"').replace(b"/", rng.choice([b"/", b"\\/"])) \
                .replace(b"\n", b"\\n") + b'"'
        out = b'"'
        for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
            k = rng.random()
            if k < 0.4:
                out += b"\\" + rng.choice([b'"', b"\\", b"/", b"b", b"f", b"n", b"r", b"t"])
            elif k < 0.45:
                out += b"\\" + rng.choice([b"u", b"x", b"0", b" ", b"'", b"a", b"N"]) if rng.random() < 0.15 else b"u"
            else:
                c = rng.choice([97, 32, 47, 91, 44, 123, 255, 128, 39, 1, rng.randint(1, 255)])
                if c in (34, 92):
                    c = 97
                out += bytes([c])
        return out + b'"'

    def num(self, rng):
        if rng.random() < 0.12:
            return rng.choice([b"00", b"-", b"01", b"-01", b"1.", b".5", b"+1", b"1e", b"1e+", b"1.e5", b"0x1", b"1.5.2", b"--1", b"-a",
                               b"1E", b"1.5e-", b"Infinity", b"NaN", b"1_0"])
        s = rng.choice([b"", b"-"]) + rng.choice([b"0", b"7", b"10", b"905", b"12345678901234567890", b"%d" % rng.randint(1, 10**9)])
        if rng.random() < 0.4:
            s += b"." + rng.choice([b"0", b"5", b"05", b"500", b"1234567890123"])
        if rng.random() < 0.4:
            s += rng.choice([b"e", b"E"]) + rng.choice([b"", b"+", b"-"]) + rng.choice([b"0", b"5", b"05", b"308"])
        return s

    def value(self, rng, d):
        k = rng.random()
        w = self.ws
        if d > 0 and k < 0.30:
            n = rng.choice([0, 1, 1, 2, 3, 5])
            return b"[" + w(rng) + b",".join(w(rng) + self.value(rng, d - 1) + w(rng) for _ in range(n)) + b"]"
        if d > 0 and k < 0.6:
            n = rng.choice([0, 1, 1, 2, 3, 5])
            return b"{" + w(rng) + b",".join(w(rng) + self.jstr(rng) + w(rng) + b":" + w(rng) + self.value(rng, d - 1) + w(rng)
                                             for _ in range(n)) + b"}"
        if k < 0.75:
            return self.jstr(rng)
        if k < 0.9:
            return self.num(rng)
        return rng.choice([b"true", b"false", b"null", b"true", b"false", b"null", b"tru", b"nul", b"True", b"falsex", b"nulll", b"undefined"]) \
            if rng.random() < 0.3 else rng.choice([b"true", b"false", b"null"])

    def doc(self, rng):
        d = rng.choice([1, 2, 3, 4, 6])
        while True:
            t = self.ws(rng) + self.value(rng, d) + self.ws(rng)
            if len(t) < 700:
                break
        k = rng.random()
        if k < 0.3 and t:
            i = rng.randrange(len(t))
            t = t[:i] + rng.choice([b"", b",", b"]", b"}", b'"', b":", b"[", b"{", b"\\", b"x", b"0", b"-", b" ", b"\n"]) \
                + t[i + (rng.random() < 0.5):]
        elif k < 0.36:
            t = t[:rng.randrange(len(t) + 1)]
        return t.replace(b"\0", b"")

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(130 if tier == "quick" else 2500):
            out.append(["parse %s %s %s" % (rng.choice(["mem", "stream", "file"]), hx(self.doc(rng)), names_arg(rng.sample(NAMES, 4)))
                        for _ in range(20)])
        # deep nesting, and texts around the reader's buffer sizes
        for n in [1, 2, 50, 200]:
            out.append(["parse mem %s ." % hx(b"[" * n + b"]" * n), "parse mem %s ." % hx(b"[" * n + b"]" * (n - 1)),
                        "parse mem %s %s" % (hx(b'{"a":' * n + b"1" + b"}" * n), names_arg([b"a"]))])
        for n in [1019, 1020, 1021, 1022, 1023, 1024, 1025, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 4094, 4095, 4096]:
            body = b'["' + b"z" * (n - 4) + b'"]'
            out.append(["parse %s %s ." % (src, hx(body)) for src in ("stream", "file")])
        out.append(["nofile"])
        out.append(["big mem 1 300000"])
        out.append(["big file 3 200000"])
        out.append(["big mem 2000 1"])
        return out


class Bundle(JsonBase):
    prop = "C08"
    models = {
        "quick": [("JsonTreeMC", "JsonTreeMC_quick.cfg", dict(workers=1)), ("JsonLogMC", "JsonLogMC_quick.cfg", dict(workers=1)),
                  ("JsonTreeMC", "JsonTreeMC_deep.cfg", dict(workers=4)), ("JsonLogMC", "JsonLogMC_deep.cfg", dict(workers=4))],
        "thorough": [("JsonTreeMC", "JsonTreeMC_thorough.cfg", dict(workers=1, timeout=2000, heap="8g")),
                     ("JsonLogMC", "JsonLogMC_quick.cfg", dict(workers=1)),
                     ("JsonTreeMC", "JsonTreeMC_deep.cfg", dict(workers=4)), ("JsonLogMC", "JsonLogMC_deep.cfg", dict(workers=4))],
    }
    assumptions = ["a node is added to one parent only", "reals are finite",
                   "the value of a real number's text is the correctly rounded one (computed outside the code under test)",
                   "values are read from nodes of a kind that can hold them (the shipped build checks that only for array elements and members)"]

    def queries(self, rng, n, names, few):
        ls = []
        for h in range(1, n + 1):
            ls.append("info %d" % h)
            for pos in range(0, 3):
                if rng.random() < few:
                    ls.append("aget %d %d %d %d" % (h, pos, rng.choice([255, 255, 1, 2, 4, 8, 24, 96, 3]), rng.randint(0, 1)))
            for nm in names:
                if rng.random() < few:
                    ls.append("oget %d %s %d %d" % (h, hx(nm), rng.choice([255, 255, 1, 2, 4, 8, 24, 96, 3]), rng.randint(0, 1)))
        return ls

    def mc_scripts(self, mc, rng, tier):
        trees = [c for c in mc if not c[0]["op"].startswith("log")]
        logs = [c for c in mc if c[0]["op"].startswith("log")]
        cap = 1500 if tier == "quick" else 15000
        out = []
        for c in (trees if len(trees) <= cap else rng.sample(trees, cap)):
            ls, n = [], 0
            for r in c:
                if r["op"] == "new":
                    n += 1
                    ls.append("new %s %s" % (r["k"], hx(r["t"])))
                elif r["op"] == "add":
                    ls.append("add %d %d" % (r["p"], r["h"]))
                else:
                    ls.append("oadd %d %s %d" % (r["p"], hx(r["n"]), r["h"]))
            for h in range(1, n + 1):
                ls.append("show %d %s" % (h, names_arg([b"", b"a"])))
            out.append(ls + self.queries(rng, n, [b"", b"a", b"zz"], 0.3))
        for c in rng.sample(logs, min(len(logs), 500 if tier == "quick" else 5000)):
            ls = []
            for r in c:
                if r["op"] in ("log", "loga"):
                    ls.append("%s %d %s int %d" % (r["op"], r["id"], hx(r["key"]), r["v"]))
                else:
                    ls.append("logclear %d" % r["id"] if r["op"] == "logclear" else "logfree")
            out.append(ls + ["logshow %d %s" % (i, names_arg([b"a", b"b"])) for i in (0, 31)])
        return out

    def text(self, rng):
        if rng.random() < 0.5:
            return rng.choice(NAMES)
        return bytes(rng.choice([97, 34, 92, 47, 10, 13, 9, 8, 12, 255, 128, 1, 27, rng.randint(1, 255)])
                     for _ in range(rng.choice([0, 1, 2, 4, 9, 70])))

    def val(self, rng, ty):
        if ty == "bool":
            return str(rng.randint(0, 1))
        if ty in ("char", "uchar"):
            return str(rng.choice([0, 1, 10, 34, 47, 92, 127, 128, 255, rng.randint(0, 255)]))
        if ty == "int":
            return str(rng.choice([0, 1, -1, 10, 99, 2147483647, -2147483648, rng.randint(-2**31, 2**31 - 1)]))
        if ty == "size":
            return str(rng.choice([0, 1, 65535, 65536, 2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1, rng.getrandbits(64), rng.getrandbits(40)]))
        if ty == "string":
            return hx(self.text(rng))
        d = rng.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, 1e300, -2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 3.141592653589793,
                        1e22, 65536.0, (rng.random() - 0.5) * 10 ** rng.randint(-30, 30)])
        if ty == "float":
            d = f32(d) if abs(d) < 3e38 else 3.25e38
            d = f32(d)
        return dtok(d)

    def history(self, rng):
        ls, kinds, own, kids = [], [], [], {}
        names = rng.sample(NAMES, 4)

        def root(h):
            while own[h - 1]:
                h = own[h - 1]
            return h
        for _ in range(rng.randint(6, 45)):
            op = rng.choice("new new bundle bundle bundlearr add add add oadd oadd oadd aget oget info show unb unbarr".split())
            comp = [h for h in range(1, len(kinds) + 1) if kinds[h - 1] in ("arr", "obj")]
            if op == "new":
                k = rng.choice(["obj", "arr", "obj", "arr"] + KT)
                t = self.text(rng) if k == "str" else {"int": b"%d" % rng.randint(-500, 500), "fp": b"%d.5e2" % rng.randint(-9, 9)}.get(k, b"")
                ls.append("new %s %s" % (k, hx(t)))
                kinds.append(k)
                own.append(0)
            elif op == "bundle":
                ty = rng.choice(["bool", "char", "uchar", "int", "size", "float", "double", "string"])
                v = self.val(rng, ty)
                ls.append("bundle %s %s" % (ty, v))
                kinds.append({"bool": "true" if v == "1" else "false", "char": "str", "string": "str", "float": "fp", "double": "fp"}.get(ty, "int"))
                own.append(0)
                if rng.random() < 0.7 and ty not in ("float",):
                    ls.append("unb %s %d" % (ty, len(kinds)))
                elif ty == "float":
                    ls.append("unb float %d" % len(kinds))
            elif op == "bundlearr":
                ty = rng.choice(["int", "float", "double", "string"])
                n = rng.choice([0, 1, 2, 5])
                ls.append("bundlearr %s %s" % (ty, " ".join(self.val(rng, ty) for _ in range(n))))
                me = len(kinds) + 1
                kinds.append("arr")
                own.append(0)
                kids[me] = []
                for _ in range(n):
                    kinds.append({"int": "int", "string": "str"}.get(ty, "fp"))
                    own.append(me)
                    kids[me].append(len(kinds))
            elif op in ("add", "oadd"):
                ps = [h for h in comp if kinds[h - 1] == ("arr" if op == "add" else "obj")]
                cs = [h for h in range(1, len(kinds) + 1) if not own[h - 1]]
                if ps and cs:
                    p, c = rng.choice(ps), rng.choice(cs)
                    if root(p) != c:
                        ls.append("add %d %d" % (p, c) if op == "add" else "oadd %d %s %d" % (p, hx(rng.choice(names)), c))
                        own[c - 1] = p
                        kids.setdefault(p, []).append(c)
            elif op in ("aget", "oget") and kinds:
                h = rng.randint(1, len(kinds)) if rng.random() < 0.2 or not comp else rng.choice(comp)
                mask = rng.choice([255, 255, 255, 1, 2, 4, 8, 16, 24, 96, 3, 128])
                f = int(rng.random() < 0.3)
                if op == "aget":
                    ls.append("aget %d %d %d %d" % (h, rng.randint(0, len(kids.get(h, [])) + 1), mask, f))
                else:
                    ls.append("oget %d %s %d %d" % (h, hx(rng.choice(names + [b"zz"])), mask, f))
            elif op == "info" and kinds:
                ls.append("info %d" % rng.randint(1, len(kinds)))
            elif op == "show" and comp:
                ls.append("show %d %s" % (rng.choice(comp), names_arg(names)))
            elif op == "unb" and kinds:
                h = rng.randint(1, len(kinds))
                k = kinds[h - 1]
                ty = {"true": ["bool"], "false": ["bool"], "str": ["string", "char"], "int": ["double"], "fp": ["double", "float"]}.get(k)
                if ty:
                    ls.append("unb %s %d" % (rng.choice(ty), h))
            elif op == "unbarr" and comp:
                a = [h for h in comp if kinds[h - 1] == "arr"]
                if a:
                    h = rng.choice(a)
                    ks = {kinds[c - 1] for c in kids.get(h, [])}
                    good = ["string", "strings"] if ks == {"str"} else ["double", "float"] if ks <= {"int", "fp"} and ks else ["int", "double", "strings"]
                    ty = rng.choice(good)
                    if ty == "int" and "int" in ks:
                        ty = "strings"
                    ls.append("unbarr %s %d" % (ty, h))
        for h in range(1, len(kinds) + 1):
            if not own[h - 1] and kinds[h - 1] in ("arr", "obj"):
                ls.append("show %d %s" % (h, names_arg(names)))
        return ls

    def key(self, rng):
        i = lambda: self.val(rng, "int")
        f = lambda: self.val(rng, "float")
        return " ".join([i(), i(), f(), f(), i(), f(), f(), f(), f(), self.val(rng, "size")])

    def gen_scripts(self, rng, tier):
        big = tier != "quick"
        out = [self.history(rng) for _ in range(3000 if big else 260)]
        for ty in ["bool", "char", "uchar", "int", "size", "float", "double", "string"]:
            for _ in range(60 if big else 8):
                n = rng.choice([0, 1, 3, 8])
                if ty == "char":
                    out.append(["rt char %d %s" % (rng.randint(0, 3), " ".join(str(rng.randint(0, 255)) for _ in range(n)))])
                else:
                    out.append(["rt %s %d %s" % (ty, rng.randint(0, 3), " ".join(self.val(rng, ty) for _ in range(n)))])
        out.append(["rt char 0 " + " ".join(map(str, range(256)))])
        out.append(["rt uchar 0 " + " ".join(map(str, range(256)))])
        out.append(["new int %s" % hx(b"%d" % v) for v in (-5, 0, 255, 256, 99999, -2147483648, 2147483647)]
                   + ["unb uchar %d" % h for h in range(1, 8)] + ["unb int %d" % h for h in range(1, 8)])
        for n in ([0, 1, 2, 4] * (20 if big else 3)):
            out.append(["keys %d %s" % (rng.randint(0, 3), " ".join(self.key(rng) for _ in range(n)))])
        out.append(["keymiss %d %d" % (k, m) for k in range(10) for m in (0, 1)])
        for _ in range(400 if big else 60):
            ls = []
            for _ in range(rng.randint(3, 20)):
                k = rng.random()
                i = rng.choice([0, 0, 1, 5, 31])
                if k < 0.02:
                    i = rng.choice([-1, 32, 100])
                    ls.append(rng.choice(["logclear %d" % i, "logshow %d ." % i, "log %d %s int 1" % (i, hx(b"a"))]))
                elif k < 0.35:
                    ls.append("log %d %s %s" % (i, hx(rng.choice(NAMES[:4])), rng.choice(["int " + self.val(rng, "int"), "string " + self.val(rng, "string")])))
                elif k < 0.7:
                    ls.append("loga %d %s %s" % (i, hx(rng.choice(NAMES[:4])), rng.choice(["int " + self.val(rng, "int"), "string " + self.val(rng, "string")])))
                elif k < 0.8:
                    ls.append("logclear %d" % i)
                elif k < 0.83:
                    ls.append("logfree")
                else:
                    ls.append("logshow %d %s" % (i, names_arg(NAMES[:4])))
            out.append(ls)
        return out


COMP = {"C07": Parse(), "C08": Bundle()}
