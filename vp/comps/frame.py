import json
import re
import struct

from ..core import Comp

hx = lambda s: "x" + bytes(s).hex()


def bits(d):
    u = struct.unpack(">Q", struct.pack(">d", d))[0]
    return [(u >> 48) & 0xffff, (u >> 32) & 0xffff, (u >> 16) & 0xffff, u & 0xffff]


def from_bits(b):
    return struct.unpack(">d", struct.pack(">HHHH", *b))[0]


def table(text):
    """the reals denoted by the pieces of a CSV text (independent of the code under test)"""
    t, seen = [], set()
    for p in re.split(rb'[,\n"]', bytes(text)):
        if p in seen or not p:
            continue
        seen.add(p)
        if b"_" in p:
            continue
        try:
            v = float(p.decode("latin-1").lstrip(" \t\v\f\r"))
        except ValueError:
            continue
        t.append({"t": list(p), "v": bits(v)})
    return t


TYPES = ["string", "int", "double", "bool", "factor"]
DBL = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 3.141592653589793,
       1e22, 123456789012345680.0, float("inf"), float("-inf"), 1 / 3, 2.5e-310, 65536.0, 2147483648.0]


class FrameBase(Comp):
    driver = "drv_frame.cc"
    trace = ("FrameTrace", "FrameTrace.cfg")
    chunk_events = 700

    def annotate(self, evs):
        out, last = [], None
        for ln in evs:
            e = json.loads(ln)
            if "text" in e:
                e["tab"] = table(e["text"])
            if e["op"] == "factor":
                tab = []
                if last:
                    c = last["cols"][e["c"] - 1] if e["c"] - 1 < len(last["cols"]) else None
                    if c and c["type"] == "double":
                        for x in c["cells"]:
                            if not x["na"]:
                                tab.append({"v": x["v"], "t": list(("%.17g" % from_bits(x["v"])).encode())})
                e["tab"] = tab
            if "fr" in e:
                last = e["fr"]
            out.append(json.dumps(e))
        return out

    def text(self, rng):
        k = rng.random()
        if k < 0.15:
            return []
        if k < 0.5:
            return list(rng.choice([b"a", b"b", b"true", b"1", b"1.5", b"x y", b"abc", b"NA", b"nan"]))
        return [rng.choice([97, 44, 34, 10, 13, 92, 32, 39, 59, 9, 255, 128, 49, 37, rng.randint(1, 255)])
                for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 70]))]

    def value(self, rng, t, pool):
        if t in ("string", "factor"):
            return hx(rng.choice(pool) if rng.random() < 0.7 else self.text(rng))
        if t == "int":
            return str(rng.choice([0, 1, -1, 7, 10, 99, 2147483647, -2147483648, rng.randint(-10**9, 10**9)]))
        if t == "bool":
            return str(rng.randint(0, 1))
        d = rng.choice(DBL) if rng.random() < 0.6 else (rng.random() - 0.5) * 10 ** rng.randint(-20, 20)
        return struct.pack(">d", d).hex()

    def history(self, rng, n, csv):
        ls, cols, nr = [], [], 0
        pool = [self.text(rng) for _ in range(rng.randint(1, 4))]
        cells = {}
        plain = rng.random() < 0.3
        for _ in range(n):
            op = rng.choice("addcol addcol addcols addrow addrow append append setrow set set set set setna get get factor "
                            "setself many".split() + (["save", "save", "saves", "reload", "reload", "nofile"] if csv else []))
            ng = sum(1 for c in cols if c != "double")
            nd = len(cols) - ng
            if op == "addcol" and len(cols) < 9:
                t = rng.choice(TYPES)
                ls.append("addcol %s %s" % (t, hx(rng.choice([list(b"lab"), list(b"x"), self.text(rng)]) if not plain else b"l%d" % len(cols))))
                cols.append(t)
            elif op == "addcols" and len(cols) < 7:
                ts = [rng.choice(TYPES) for _ in range(rng.randint(1, 3))]
                ls.append("addcols " + " ".join("%s %s" % (t, hx(b"c%d" % rng.randint(0, 9))) for t in ts))
                cols += ts
            elif op == "addrow" and nr < 30:
                ls.append("addrow")
                nr += 1
            elif op == "many" and nr < 12 and rng.random() < 0.3:
                for _ in range(rng.randint(3, 12)):
                    ls.append("addrow")
                    nr += 1
            elif op in ("append", "setrow") and cols and ng <= 4 and nd <= 4 and (op == "append" and nr < 30 or nr and op == "setrow"):
                vs = [self.value(rng, t, pool) for t in cols]
                if op == "append":
                    nr += 1
                    r = nr
                    ls.append("append " + " ".join(vs))
                else:
                    r = rng.randint(1, nr)
                    ls.append("setrow %d %s" % (r, " ".join(vs)))
                for c in range(len(cols)):
                    cells[(r, c)] = 1
            elif op in ("set", "setna", "get", "setself") and cols and nr:
                r, c = rng.randint(1, nr), rng.randrange(len(cols))
                if op == "set":
                    if rng.random() < 0.02:
                        t = rng.choice(TYPES)
                        ls.append("set %s %d %d %s" % (t, r, c + 1, self.value(rng, t, pool)))
                        if t != cols[c]:
                            break
                    ls.append("set %s %d %d %s" % (cols[c], r, c + 1, self.value(rng, cols[c], pool)))
                    cells[(r, c)] = 1
                elif op == "setna":
                    ls.append("setna %d %d" % (r, c + 1))
                    cells.pop((r, c), None)
                elif op == "get":
                    if rng.random() < 0.03:
                        t = rng.choice(TYPES)
                        ls.append("get %s %d %d" % (t, r, c + 1))
                        if t != cols[c] or (r, c) not in cells:
                            break
                    elif (r, c) in cells:
                        ls.append("get %s %d %d" % (cols[c], r, c + 1))
                else:
                    src = [k for k in cells if cols[k[1]] in ("string", "factor")]
                    if cols[c] in ("string", "factor") and src:
                        r2, c2 = (r, c) if (r, c) in src and rng.random() < 0.4 else rng.choice(src)
                        ls.append("setself %s %d %d %d %d" % (cols[c], r, c + 1, r2, c2 + 1))
                        cells[(r, c)] = 1
            elif op == "factor" and cols:
                c = rng.randrange(len(cols))
                ls.append("factor %d" % (c + 1))
                cols[c] = "factor"
            elif op in ("save", "saves") and cols:
                ls.append("save %d" % rng.randint(0, 1) if op == "save" else "saves")
            elif op == "nofile" and rng.random() < 0.3:
                ls.append("nofile %s" % rng.choice(["load", "save", "xload", "xsave"]))
        return ls

    def corrupt(self, evs, rng):
        c = [(e, x) for e in evs if "fr" in e for col in e["fr"]["cols"] for x in col["cells"] if not x["na"] and x["v"]]
        if not c:
            return None
        e, x = rng.choice(c)
        x["v"][-1] ^= 1
        return evs


def mc_line(r):
    op = r["op"]
    val = lambda t, v: hx(v) if t in ("string", "factor") else (
        "%04x%04x%04x%04x" % tuple(v) if t == "double" else str(v[0]))
    if op == "addcol":
        return "addcol %s %s" % (r["t"], hx(r["v"]))
    if op == "addrow":
        return "addrow"
    if op == "set":
        return "set %s %d %d %s" % (r["t"], r["r"], r["c"], val(r["t"], r["v"]))
    if op == "setna":
        return "setna %d %d" % (r["r"], r["c"])
    if op == "get":
        return "get %s %d %d" % (r["t"], r["r"], r["c"])
    if op == "factor":
        return "factor %d" % r["c"]
    if op == "save":
        return "saves"
    raise ValueError(op)


def lines_of(c):
    out, types = [], []
    for r in c:
        if r["op"] == "append":
            out.append("append " + " ".join(mc_line({"op": "set", "t": t, "r": 0, "c": 0, "v": v}).split()[-1]
                                            for t, v in zip(types, r["v"])))
            continue
        if r["op"] == "addcol":
            types.append(r["t"])
        if r["op"] == "factor":
            types[r["c"] - 1] = "factor"
        out.append(mc_line(r))
    return out


class Frame(FrameBase):
    prop = "C05"
    models = {
        "quick": [("FrameMC", "FrameMC_quick.cfg", dict(workers=1)), ("FrameMC", "FrameMC_deep.cfg", dict(workers=8))],
        "thorough": [("FrameMC", "FrameMC_thorough.cfg", dict(workers=1, timeout=2500, heap="12g")),
                     ("FrameMC", "FrameMC_deep.cfg", dict(workers=8))],
    }
    assumptions = ["row and column indices are in range (the shipped build checks them only in debug mode)",
                   "texts contain no zero byte", "row calls pass one value per column"]

    def mc_scripts(self, mc, rng, tier):
        cap = 3500 if tier == "quick" else 25000
        mc = [c for c in mc if c[-1]["op"] != "save"]
        if len(mc) > cap:
            mc = rng.sample(mc, cap)
        return [[x for x in lines_of(c) if x != "saves"] for c in mc]

    def gen_scripts(self, rng, tier):
        return [self.history(rng, rng.randint(5, 40), False) for _ in range(250 if tier == "quick" else 3000)]


class Csv(FrameBase):
    prop = "C06"
    models = {
        "quick": [("CsvMC", "CsvMC_quick.cfg", dict(workers=1)), ("CsvMC", "CsvMC_deep.cfg", dict(workers=8)),
                  ("FrameMC", "FrameMC_quick.cfg", dict(workers=1))],
        "thorough": [("CsvMC", "CsvMC_thorough.cfg", dict(workers=1, timeout=2000, heap="12g")),
                     ("CsvMC", "CsvMC_deep.cfg", dict(workers=8)), ("FrameMC", "FrameMC_deep.cfg", dict(workers=8))],
    }
    assumptions = ["texts contain no zero byte and no hexadecimal numbers", "saved frames have at least one column",
                   "the value of a decimal real text is the correctly rounded one (computed outside the code under test)"]

    def mc_scripts(self, mc, rng, tier):
        cap = 12000 if tier == "quick" else 120000
        hist = [c for c in mc if c and isinstance(c[0], dict) and c[-1]["op"] == "save"]
        mc = [c for c in mc if not c or not isinstance(c[0], dict)]
        if len(mc) > cap:
            mc = rng.sample(mc, cap)
        return [["parse " + hx(t) for t in mc[i:i + 40]] for i in range(0, len(mc), 40)] \
            + [[x for x in lines_of(c)[:-1] if x != "saves"] + ["saves"] for c in rng.sample(hist, min(len(hist), 400))]

    def field(self, rng, num):
        k = rng.random()
        if k < 0.15:
            return b""
        if k < 0.25:
            return b'"' + bytes(self.text(rng)).replace(b'"', b'""') + b'"'
        if num == 1 or k < 0.4:
            return rng.choice([b"0", b"12", b"-7", b"+5", b"007", b"2147483647", b"2147483648", b"-2147483648",
                               b"-2147483649", b" 4", b"08", b"-0", b"00000000000000012", b"99999999999999999999999"])
        if num == 2 or k < 0.6:
            return rng.choice([b"0.5", b".5", b"5.", b"1e3", b"1E-3", b"-2.5e+2", b"1e400", b"5e-324", b"2.2e-310",
                               b"inf", b"-inf", b"+1.", b"1.7976931348623157e308", b"0.1", b"3.0000000000000004",
                               b"12345678901234567890", b" 1.5"])
        if num == 3:
            return rng.choice([b"true", b"false"])
        return rng.choice([b"abc", b"a b", b"1x", b"true", b"True", b"1 ", b"-", b"+", b".", b"e5", b"1e", b"--1", b"1,5"[:1],
                           b"a\rb", b"\xff", b"\xc3\xa9", b"infinit", b"1.2.3", b"\t", b"'q'", b"falsey", b"1-2"])

    def csv(self, rng):
        nc, nr = rng.randint(1, 5), rng.randint(0, 7)
        kinds = [rng.choice([1, 1, 2, 3, 0]) for _ in range(nc)]
        rows = [[rng.choice([b"h%d" % c, b"", b"a b", b'"q,""x"', b'""', b"\xffz"]) for c in range(nc)]]
        for _ in range(nr):
            rows.append([self.field(rng, k if rng.random() < 0.9 else 0) for k in kinds])
        t = b"\n".join(b",".join(r) for r in rows)
        if rng.random() < 0.7:
            t += b"\n"
        if rng.random() < 0.25 and t:
            i = rng.randrange(len(t))
            t = t[:i] + rng.choice([b'"', b",", b"\n", b"", b"x"]) + t[i + (rng.random() < 0.5):]
        return t

    def gen_scripts(self, rng, tier):
        out = []
        for _ in range(130 if tier == "quick" else 1500):
            out.append(self.history(rng, rng.randint(8, 30), True))
        for _ in range(60 if tier == "quick" else 900):
            out.append(["parse " + hx(self.csv(rng)) for _ in range(12)])
        for k in range(120 if tier == "quick" else 1500):
            t = self.csv(rng)
            if k % 40 == 0:
                t = b"a,b\n" + b"\n".join(b"%d,z" % i for i in range(rng.choice([100, 250, 260, 510])))
            if k % 40 == 1:  # sizes around the reader's buffer doublings
                n = rng.choice([1020, 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 2049])
                t = b"a\n" + b"y" * (n - 2)
            ls = ["load %s %d" % (hx(t), rng.randint(0, 1)) if rng.random() < 0.5
                  else "loadf %s %d %d" % (hx(t), rng.randint(0, 1), rng.randint(0, 1))]
            ls.append("saves")
            out.append(ls)
        return out


COMP = {"C05": Frame(), "C06": Csv()}
