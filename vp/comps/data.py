from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if len(v) else "."


ATTR = ["VI", "SV", "OCC", "DEF", "MB", "FM", "IPR", "OPR", "OV", "BC", "LR"]
VGG = ["bark", "bikes", "boat", "graf", "leuven", "trees", "ubc", "wall"]
T128 = ["Biker", "Board", "Hand_ce1", "Jogging2", "Airport_ce", "Basketball_ce3"]
BAD = -99999


class Data(Comp):
    prop = "C28"
    driver = "drv_data.cc"
    trace = ("DatasetsTrace", "DatasetsTrace.cfg")
    models = {"quick": [("DatasetsMC", "DatasetsMC_quick.cfg", dict(workers=1))],
              "thorough": [("DatasetsMC", "DatasetsMC_quick.cfg", dict(workers=1)), ("DatasetsMC", "DatasetsMC_deep.cfg", dict(workers=6, timeout=900))]}
    assumptions = ["collections are built in a scratch directory; numbers are multiples of a quarter and pictures uniformly gray; a JPEG frame is "
                   "compared to four levels; nx_check_file of a directory and names that merely start like a known sequence are not decided"]
    chunk_events = 300

    def mc_scripts(self, mc, rng, tier):
        rng.shuffle(mc)
        out = []
        for h in (mc[:250] if tier == "quick" else mc):
            L = []
            for o in h:
                if o[0] == "put":
                    if o[2]["k"] == "dir":
                        L.append("mkd " + o[1])
                    else:
                        f = "pose" if "poses" in o[1] else "times" if "times" in o[1] else "calib"
                        L.append("put %s %s %d %s" % (o[1], f, rng.randrange(3), csv(o[2]["v"])))
                else:
                    L.append(" ".join(map(str, o)))
            out.append(["mkd poses", "mkd sequences"] + L)
        return out

    def gen_scripts(self, rng, tier):
        k = 1 if tier == "quick" else 10
        out = [self.kitti(rng) for _ in range(50 * k)] + [self.vgg(rng) for _ in range(30 * k)] + [self.temple(rng) for _ in range(30 * k)]
        out += [self.files(rng) for _ in range(30 * k)]
        for n in ([299, 300, 301] if tier == "quick" else [299, 300, 301, 1299, 1300, 1301, 2301]):
            L = self.kseq(rng, 0, n, n)
            L = ["mkd poses", "mkd sequences"] + L + ["kopen", "kseq 0"]
            if n in (301, 1301):
                L += ["rm poses/00.txt", "kseq 0"]
            out.append(L)
        return out

    def num(self, rng):
        return rng.choice([0, 4, -4, rng.randint(-4000, 4000)])

    def kseq(self, rng, i, nt, np):
        d = "sequences/%02d" % i
        L = ["mkd " + d]
        st = rng.randrange(2)
        if np is not None:
            v = [self.num(rng) for _ in range(12 * np)]
            if np and rng.random() < 0.1:
                v = v[:-rng.randint(1, 11)]
            L.append("put poses/%02d.txt pose %d %s" % (i, st, csv(v)))
        if nt is not None:
            L.append("put %s/times.txt times %d %s" % (d, st, csv([7 * j for j in range(nt)])))
        c = [self.num(rng) for _ in range(48)]
        r = rng.random()
        if r < 0.08:
            c = c[:rng.randint(0, 47)]
        elif r < 0.14:
            c[rng.randrange(48)] = BAD
        if r < 0.95:
            L.append("put %s/calib.txt calib %d %s" % (d, st, csv(c)))
        for cam in range(4):
            if rng.random() < 0.5:
                L.append("mkd %s/image_%d" % (d, cam))
                for f in rng.sample(range(12), 3):
                    L.append("put %s/image_%d/%06d.png img 0 %d,%d,%d" % (d, cam, f, rng.randint(1, 5), rng.randint(1, 5), rng.randint(0, 255)))
        if rng.random() < 0.5:
            L.append("mkd %s/velodyne" % d)
        return L

    def kitti(self, rng):
        L = ["mkd poses", "mkd sequences"]
        ids = rng.sample(range(22), 2)
        for i in ids:
            n = rng.choice([0, 1, 2, 3, 11, 12])
            L += self.kseq(rng, i, rng.choice([n, n, n, n, n + 1, None]) if rng.random() < 0.4 else n, rng.choice([n, n, n, None]))
        L.append("kopen")
        for i in ids + [rng.randrange(22)]:
            L.append("kseq %d" % i)
            for _ in range(3):
                L.append("kframe %d %d" % (rng.randrange(4), rng.randrange(12)))
            if rng.random() < 0.3:
                L += ["mkd sequences/%02d/image_%d" % (ids[0], rng.randrange(4)), "kframe %d %d" % (rng.randrange(4), rng.randrange(12))]
        return L

    def vgg(self, rng):
        n = rng.choice(VGG)
        L = []
        if rng.random() < 0.93:
            L.append("mkd " + n)
            for i in range(2, 7):
                if rng.random() < 0.97:
                    v = [self.num(rng) for _ in range(9)]
                    if rng.random() < 0.03:
                        v = v[:rng.randint(0, 8)]
                    elif rng.random() < 0.03:
                        v[rng.randrange(9)] = BAD
                    L.append("put %s/H1to%dp H %d %s" % (n, i, rng.randrange(2), csv(v)))
            for i in range(1, 7):
                for x in ("ppm", "pgm"):
                    if rng.random() < 0.6:
                        L.append("put %s/img%d.%s img 0 %d,%d,%d" % (n, i, x, rng.randint(1, 5), rng.randint(1, 5), rng.randint(0, 255)))
        L.append("vseq %s" % n)
        if rng.random() < 0.2:
            L += ["mkd zebra", "vseq zebra", "vseq %s" % rng.choice(VGG)]
        L += ["vframe %d" % f for f in range(6)]
        return L

    def temple(self, rng):
        n = rng.choice(T128)
        L = []
        if rng.random() < 0.95:
            L.append("mkd " + n)
            s = rng.choice([1, 1, 1, 3, 50])
            ln = rng.choice([1, 2, 5, 9])
            L.append("put %s/%s_frames.txt frames 0 %d,%d" % (n, n, 4 * s, 4 * (s + ln - 1)))
            L.append("put %s/%s_att.txt words 0 %s" % (n, n, csv(rng.sample(ATTR, rng.randint(0, 11)))))
            have = rng.choice([ln, ln, ln, ln, ln + 2, ln - 1])
            v = [self.num(rng) for _ in range(4 * have)]
            if v and rng.random() < 0.1:
                v[rng.randrange(len(v))] = BAD
            if rng.random() < 0.97:
                L.append("put %s/%s_gt.txt gt %d %s" % (n, n, rng.randrange(2), csv(v)))
            L.append("mkd %s/img" % n)
            for f in rng.sample(range(s, s + ln), (ln + 1) // 2):
                L.append("put %s/img/%04d.jpg img 0 %d,%d,%d" % (n, f, rng.randint(1, 5), rng.randint(1, 5), rng.randint(0, 255)))
            L.append("tseq " + n)
            L += ["tframe %d" % f for f in range(s, s + ln)]
        else:
            L += ["tseq " + n, "mkd Zebra", "tseq Zebra"]
        return L

    def files(self, rng):
        names = ["a", "B", "b1", "b10", "b2", "_x", "Z", ".h", "a.b", "aa"]
        L = []
        dirs = ["."]
        made = set()
        for _ in range(14):
            d = rng.choice(dirs)
            n = rng.choice(names)
            p = n if d == "." else d + "/" + n
            c = rng.random()
            if c < 0.25 and p not in made:
                L.append("put %s times 0 1,2" % p)
                made.add(p)
            elif c < 0.5:
                L.append("ensure %s" % p)
                if p not in made:
                    made.add(p)
                    dirs.append(p)
            elif c < 0.6 and p in made and p not in dirs:
                L.append("rm " + p)
                made.discard(p)
            elif c < 0.65:
                L.append("ensure nowhere/%s" % n)
            else:
                L.append("%s %s" % (rng.choice(["isdir", "isfile", "scan", "scan"]), rng.choice([p, d, p + "/q", "nothere"])))
        L += ["scan " + d for d in dirs]
        return L

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("kseq", "vseq", "tseq") and e.get("out") == "ok"]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "kseq":
            e["calib"][rng.randrange(4)][rng.randrange(12)] += 1
        elif e["op"] == "vseq":
            e["hs"][rng.randrange(6)][rng.randrange(9)] += 1
        else:
            e["attr"] ^= 1 << rng.randrange(11)
        return evs


COMP = {"C28": Data()}
