from ..core import Comp


def lst(v):
    return ",".join(map(str, v)) or "."


def hx(s):
    return "x" + s.encode().hex()


class ImgFile(Comp):
    prop = "C14"
    driver = "drv_imgfile.cc"
    trace = ("ImageFileTrace", "ImageFileTrace.cfg")
    models = {
        "quick": [("ImageFileMC", "ImageFileMC_quick.cfg", dict(workers=1)),
                  ("ImageFileMC", "ImageFileMC_cut.cfg", dict(workers=1))],
        "thorough": [("ImageFileMC", "ImageFileMC_thorough.cfg", dict(workers=1, timeout=1500)),
                     ("ImageFileMC", "ImageFileMC_cut.cfg", dict(workers=1))],
    }
    never_ok = ("MCPut", "MCCut")     # each of the two configurations leaves one of them out
    assumptions = ["byte images; the PNM format keeps no alpha",
                   "a truncated JPEG file may still load (libjpeg only warns): nothing is claimed for it",
                   "JPEG pixels are compared with a tolerance, PNG color to gray within one level",
                   "numbers in PNM headers have at most nine digits and no sign"]
    chunk_events = 2000

    def mc_scripts(self, mc_cases, rng, tier):
        res = []
        seen = set()
        for c in mc_cases:
            lines = []
            for r in c:
                if r["op"] == "store":
                    lines.append("store %d %d %d %s %d" % (r["w"], r["h"], r["type"], lst(r["px"]), rng.choice([0, 0, 3])))
                elif r["op"] == "save":
                    lines.append("save %d %s %s %d" % (r["f"], hx("a"), r["how"], rng.randint(0, 1)))
                elif r["op"] == "put":
                    lines.append("put %d %s" % (r["f"], lst(r["b"])))
                elif r["op"] == "cut":
                    lines.append("cut %d %d" % (r["f"], r["n"]))
                elif r["op"] == "load":
                    lines.append("load %d %d %s %d" % (r["f"], r["mode"], rng.choice(["auto", "auto", "pnm"]) if not any(
                        x.get("how") == "png" for x in c) else "auto", rng.randint(0, 1)))
            k = tuple(lines)
            if k not in seen:
                seen.add(k)
                res.append(lines)
        # several independent behaviours per process: each one rewrites the file
        out, cur = [], []
        for s in res:
            if any(x.startswith("store") for x in s):
                out.append(s)
                continue
            cur += s
            if len(cur) > 60:
                out.append(cur)
                cur = []
        return out + ([cur] if cur else [])

    NAMES = ["a.pgm", "b.PPM", "c.png", "D.PNG", "e.jpg", "f.JPEG", "g", "h.dat", "i.Png", "j.png.pgm", "k.pgm.x", "l.ppm", "m.jpeg", "n.JPG", "o.PGM"]

    def pixels(self, rng, n):
        k = rng.random()
        if k < 0.15:
            v = rng.randint(0, 255)
            return [v] * n
        if k < 0.5:
            return [rng.choice([0, 255, 10, 13, 32, 35, 48, 57, 9]) for _ in range(n)]
        return [rng.randint(0, 255) for _ in range(n)]

    def gen_scripts(self, rng, tier):
        n = 700 if tier == "quick" else 2500
        return [self.history(rng) for _ in range(n)]

    def header(self, rng):
        """somebody's PNM, often right, sometimes wrong"""
        ws = [" ", "\n", "\t", "\r\n", "  ", "\n# c 1 2\n", "\n#\n# 9 9\n", " # x\n", "\x0b", "\x0c"]
        w, h = rng.choice([(1, 1), (3, 2), (2, 5), (4, 4), (0, 0), (7, 1)])
        m = rng.choice([255] * 8 + [1, 100, 0, 256, 65535])
        t = rng.choice("5566" + ("12347P" if rng.random() < 0.2 else ""))
        b = b"P" + t.encode()
        for v in (w, h, m):
            b += rng.choice(ws).encode() + (str(v) if rng.random() < 0.95 else rng.choice(["-1", "x", "", "00%d" % v, "999999999"])).encode()
        b += rng.choice(["\n", "\n", " ", "\t", "\r", "\n\n" if rng.random() < 0.3 else "\n", "" if rng.random() < 0.1 else "\n", "a" if rng.random() < 0.1 else " "]).encode()
        n = w * h * (3 if t == "6" else 1)
        n += rng.choice([0, 0, 0, 0, -1, -2, 1, 5])
        return list(b) + self.pixels(rng, max(n, 0))

    def history(self, rng):
        L = ["mode %s" % rng.choice("cv")]
        kinds = {}
        have = False
        x = lambda: rng.randint(0, 1)
        for _ in range(rng.randint(4, 14)):
            c = rng.random()
            f = rng.randint(0, 3)
            if not have or c < 0.15:
                t = rng.randint(0, 1)
                w, h = rng.choice([(1, 1), (2, 3), (5, 4), (9, 2), (1, 8), (16, 9), (3, 3), (0, 0), (8, 8), (17, 5)])
                px = self.pixels(rng, w * h * (4 if t else 1))
                if t and rng.random() < 0.3:
                    q = [rng.randint(0, 255) for _ in range(4)]
                    px = q * (w * h)
                L.append("store %d %d %d %s %d" % (w, h, t, lst(px), rng.choice([0, 0, 1, 5])))
                have, empty = True, w * h == 0
            elif c < 0.40 and have:
                nm = rng.choice(self.NAMES)
                how = rng.choice(["auto", "auto", "auto", "pnm", "png", "jpg"])
                e = nm.rsplit(".", 1)[-1]
                fmt = how if how != "auto" else {"png": "png", "PNG": "png", "jpg": "jpg", "jpeg": "jpg", "JPG": "jpg", "JPEG": "jpg"}.get(e if "." in nm else "", "pnm")
                if empty and fmt != "pnm":
                    continue
                L.append("save %d %s %s %d" % (f, hx(nm), how, x()))
                kinds[f] = fmt
            elif c < 0.50:
                L.append("put %d %s" % (f, lst(self.header(rng) if rng.random() < 0.85 else [rng.randint(0, 255) for _ in range(rng.randint(0, 12))])))
                kinds[f] = "put"
            elif c < 0.58:
                k = rng.choice(["g", "g16", "ga", "rgb", "rgb16", "rgba", "pal", "gt", "rgbt", "ig", "irgb", "irgba", "ipal", "g1", "g2", "g4", "ig1", "ig2", "pal4", "palt", "ipal4", "ipalt"])
                b = k.lstrip("i")
                ch = {"g": 1, "g16": 1, "ga": 2, "gt": 1, "g1": 1, "g2": 1, "g4": 1, "rgba": 4, "rgbt": 4, "palt": 4}.get(b, 3)
                w, h = rng.choice([(1, 1), (3, 2), (5, 5), (9, 3), (2, 7)])
                px = self.pixels(rng, w * h * ch)
                if b in ("g1", "g2", "g4"):
                    u = 255 // (2 ** int(b[1]) - 1)
                    px = [v // u * u for v in px]
                if b == "pal4":
                    cols = [[rng.randint(0, 255) for _ in range(3)] for _ in range(rng.randint(1, 16))]
                    px = [v for _ in range(w * h) for v in rng.choice(cols)]
                if b == "rgbt":
                    key = [rng.randint(0, 255) for _ in range(3)]
                    px = []
                    for _ in range(w * h):
                        q = [rng.randint(0, 255) for _ in range(3)]
                        px += key + [0] if rng.random() < 0.3 or q == key else q + [255]
                    if 0 not in px[3::4]:
                        px[:4] = key + [0]
                        for i in range(1, w * h):
                            if px[4 * i:4 * i + 3] == key:
                                px[4 * i + 3] = 0
                L.append("putpng %d %s %d %d %s" % (f, k, w, h, lst(px)))
                kinds[f] = "gt" if b == "gt" else "opng"
            elif c < 0.66 and f in kinds:
                L.append("cut %d %d" % (f, rng.choice([-1, -2, -5, 0, 1, 3, 4, 8, 12, 20, 33, 60, rng.randint(0, 100)])))
            elif c < 0.70 and kinds.get(f) == "png":
                L.append("flip %d %d %d" % (f, rng.randint(0, 100000), rng.randint(0, 7)))
            elif c < 0.72:
                L.append("remove %d" % f)
                kinds.pop(f, None)
            elif c < 0.75 and have:
                L.append("full %s %d" % (rng.choice(["auto", "pnm", "png", "jpg"]) if not empty else "pnm", x()))
            elif c < 0.77:
                L.append("fmthead %d" % f)
            elif c < 0.79:
                n = rng.choice(self.NAMES + ["", ".", "a.", ".png", "x.pngx", "d.png/f", "a.p", "A.Jpg"])
                L.append("fmtname %s" % (hx(n)))
            else:
                how = "auto" if rng.random() < 0.7 else rng.choice(["pnm", "png", "jpg"])
                k = kinds.get(f)
                mode = rng.randint(0, 2)
                if k == "gt" and mode == 2:
                    mode = rng.randint(0, 1)
                L.append("load %d %d %s %d" % (f, mode, how, x()))
                have = False
                if rng.random() < 0.5 and k:
                    L.append("load %d %d auto %d" % (f, rng.randint(0, 1), x()))
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] == "load"]
        if not c:
            return None
        e = rng.choice(c)
        if e["out"] == "ok":
            e["w"] += 1
        else:
            e.update(out="ok", w=1, h=1, type=0, px=[0])
        return evs


COMP = {"C14": ImgFile()}
