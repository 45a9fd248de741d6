from ..core import Comp


def csv(v):
    return ",".join(map(str, v)) if v else "."


ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, -3, 5), (-4, 3, 5), (-3, -4, 5), (5, 12, 13), (12, -5, 13)]
AXES = [(1, 0, 0, 1), (0, 1, 0, 1), (0, 0, 1, 1), (1, 2, 2, 3), (2, -1, 2, 3), (-2, 2, 1, 3), (0, 3, 4, 5), (2, 3, 6, 7), (0, 0, -2, 2), (-3, 0, 4, 5)]
NTR = [(1, 0, 0, 1), (0, -1, 0, 1), (0, 0, 2, 2), (1, 2, 2, 3), (-2, 1, 2, 3), (2, -2, 1, 3), (0, 3, 4, 5), (3, 0, -4, 5), (2, 3, 6, 7), (-6, 2, 3, 7)]


class Camera(Comp):
    prop = "C29"
    driver = "drv_camera.cc"
    trace = ("CameraTrace", "CameraTrace.cfg")
    models = {
        "quick": [("CameraMC", "CameraMC_rot.cfg", dict(workers=1)), ("CameraMC", "CameraMC_scene.cfg", dict(workers=6))],
        "thorough": [("CameraMC", "CameraMC_rot.cfg", dict(workers=1)), ("CameraMC", "CameraMC_rotdeep.cfg", dict(workers=6, timeout=900)),
                     ("CameraMC", "CameraMC_deep.cfg", dict(workers=6, timeout=1500))],
    }
    assumptions = ["angles with rational sine and cosine, integer points, cameras and matrices, so that the expected results are exact",
                   "estimated fundamental matrices are compared with the exact one when the used correspondences have rank eight modulo a prime",
                   "sampling estimators: every exact inlier is required only for mixes (over 70 % inliers, 400 rounds) where missing them is practically impossible"]
    chunk_events = 700

    def rot(self, rng, quarter=False):
        A = ANG[:4] if quarter else ANG
        kind = rng.choice(["zyx", "xyz", "ax"])
        if quarter and kind == "ax":
            v = rng.choice(AXES[:3])
        else:
            v = rng.choice(AXES)
        a = [rng.choice(A) for _ in range(3)]
        if kind != "ax" and sum(x[2] > 1 for x in a) == 3:
            a[rng.randint(0, 2)] = rng.choice(ANG[:4])
        if kind == "ax":
            a = a[:1]
        return kind, csv([x for y in a for x in y]), csv(v)

    def mc_scripts(self, mc_cases, rng, tier):
        L = []
        for c in mc_cases:
            if "ax" not in c:
                continue
            a = csv([x for y in c["ang"] for x in y])
            m = int(round(sum(x * x for x in c["ax"]) ** 0.5))
            v = csv(list(c["ax"]) + [m])
            L.append("rot zyx %s %s" % (a, v))
            L.append("rot xyz %s %s" % (a, v))
            L.append("rot ax %s %s" % (csv(c["ang"][0]), v))
        L = sorted(set(L))
        rng.shuffle(L)
        return [L[i:i + 50] for i in range(0, len(L), 50)]

    def gen_scripts(self, rng, tier):
        return [[self.op(rng) for _ in range(20)] for _ in range(150 if tier == "quick" else 2500)]

    def kmat(self, rng):
        r = rng.randint
        if rng.random() < 0.2:
            return [1, 0, 0, 0, 1, 0, 0, 0, 1]
        return [r(1, 12), 0, 0, r(-3, 3), r(1, 12), 0, r(-9, 9), r(-9, 9), 1]

    def scene(self, rng, n, front=False, lo=-6, hi=6):
        x = []
        for _ in range(n):
            x += [rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(1, 9) if front or rng.random() < 0.8 else rng.randint(-9, 9)]
        return x

    def corrs(self, rng, n):
        """n integer correspondences of an integer fundamental matrix"""
        r = rng.randint
        style = rng.choice(["rect", "rect", "fwd", "gen"])
        x, xp = [], []
        if style == "rect":
            F = [[0, 0, 0], [0, 0, -1], [0, 1, 0]]
            for _ in range(n):
                a, b = r(-9, 9), r(-9, 9)
                x.append((a, b))
                xp.append((r(-9, 9), b))
        elif style == "fwd":  # epipole at the origin: x' = k x
            F = [[0, -1, 0], [1, 0, 0], [0, 0, 0]]
            for _ in range(n):
                a, b, k = r(-5, 5), r(-5, 5), rng.choice([1, 2, 3, -1])
                x.append((a, b))
                xp.append((a * k, b * k))
        else:  # x' on the line through the image under a small matrix
            F = [[0, 0, 1], [0, 0, r(-2, 2)], [r(-2, 2), 1, r(-3, 3)]]
            for _ in range(n):
                a, b, q = r(-9, 9), r(-9, 9), r(-9, 9)
                x.append((a, b))
                xp.append((-(F[1][2] * q + F[2][0] * a + b + F[2][2]), q))
        M = rng.choice([(1, 0, 0, 1, 0, 0), (1, 0, 0, 1, 3, -2), (1, 1, 0, 1, 0, 1), (0, -1, 1, 0, 2, 2), (2, 1, 1, 1, -1, 0)])
        N = rng.choice([(1, 0, 0, 1, 0, 0), (1, 0, 0, 1, -4, 1), (1, 0, -1, 1, 2, 0), (0, 1, -1, 0, 0, 3), (1, 2, 0, 1, 0, 0)])
        ap = lambda m, p: (m[0] * p[0] + m[1] * p[1] + m[4], m[2] * p[0] + m[3] * p[1] + m[5])

        def inv(m):  # inverse of a unimodular affine map as 3x3
            d = m[0] * m[3] - m[1] * m[2]
            a, b, c, e = d * m[3], -d * m[1], -d * m[2], d * m[0]
            return [[a, b, -(a * m[4] + b * m[5])], [c, e, -(c * m[4] + e * m[5])], [0, 0, 1]]
        mm = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        T = lambda A: [[A[j][i] for j in range(3)] for i in range(3)]
        F = mm(T(inv(N)), mm(F, inv(M)))
        x = [ap(M, p) for p in x]
        xp = [ap(N, p) for p in xp]
        return [F[i][j] for j in range(3) for i in range(3)], x, xp

    def op(self, rng):
        r = rng.randint
        c = rng.random()
        flat = lambda q: [v for p in q for v in p]
        if c < 0.1:
            return "rot %s %s %s" % self.rot(rng)
        if c < 0.25:
            n = r(1, 5)
            x = self.scene(rng, n)
            return "project %s %s %s %s %s %s %s %s" % (*self.rot(rng), csv([1 if rng.random() < 0.8 else 0 for _ in range(3)]), csv(self.kmat(rng)), csv([r(-5, 5) for _ in range(3)]), csv(x), csv([rng.choice([1, 1, 0, 2, -1]) for _ in range(n)]))
        if c < 0.4:
            n = r(0, 7)
            t = [r(-4, 4) for _ in range(3)]
            if t == [0, 0, 0]:
                t = [1, 0, 0]
            return "tri %s %s %s %s %s %s %s %s %d" % (*self.rot(rng, rng.random() < 0.5), csv(t), csv(self.kmat(rng)), csv(self.kmat(rng)), csv(self.scene(rng, n)),
                                                       csv([1 if rng.random() < 0.75 else 0 for _ in range(n)]), rng.choice([n, n + 2, r(0, n), r(0, n)]))
        if c < 0.46:
            return "essrt %s %s %s %s" % (*self.rot(rng), csv([r(-9, 9) for _ in range(3)]))
        if c < 0.54:
            return "essf %s %s %s" % (csv([r(-9, 9) for _ in range(9)]), csv(self.kmat(rng)), csv(self.kmat(rng)))
        if c < 0.68:
            t = rng.choice(NTR)
            n = r(1, 6)
            pm = [0, 1, 2, 3]
            rng.shuffle(pm)
            kind, a, v = self.rot(rng, rng.random() < 0.5)
            if rng.random() < 0.5:  # small turn so that the scene is in front of both
                kind, a, v = "ax", csv(rng.choice([(1, 0, 1), (12, -5, 13), (4, -3, 5), (12, 5, 13)])), csv(rng.choice(AXES))
            return "decomp %s %s %s %s %d %d %s %s %d" % (kind, a, v, csv(t[:3]), t[3], rng.choice([16, 16, 1, -16, 160]), csv(self.scene(rng, n, True, -3, 3)), csv(pm), r(0, 1))
        if c < 0.8:
            n = r(0, 8)
            f, x, xp = self.corrs(rng, n)
            if rng.random() < 0.3:
                f = [r(-4, 4) for _ in range(9)]
            xp = [(p[0] + rng.choice([0, 0, 1, -1, 3]), p[1] + rng.choice([0, 0, 1, 2])) for p in xp]
            return "mark %s %s %d %s %s" % (rng.choice(["c", "c", "vg"]), csv(f), r(1, 6), csv(flat(x)), csv(flat(xp)))
        if c < 0.92:
            via = rng.choice(["8pt", "all", "inl"])
            n = r(8, 14) if via == "8pt" or rng.random() < 0.8 else r(0, 8)
            f, x, xp = self.corrs(rng, n)
            inl = [1] * n
            ids = list(range(8))
            bad = set()
            if via == "8pt":
                ids = rng.sample(range(n), 8)
                bad = set(range(n)) - set(ids)
            elif via == "inl":
                inl = [1 if rng.random() < 0.85 else 0 for _ in range(n)]
                bad = {i for i in range(n) if not inl[i]}
            if rng.random() < 0.2:
                bad = set(range(n))
            xp = [(p[0] + (r(1, 9) if i in bad else 0), p[1] - (r(1, 9) if i in bad else 0)) for i, p in enumerate(xp)]
            return "est %s %s %s %s %s %s" % (via, csv(f), csv(flat(x)), csv(flat(xp)), csv(inl), csv(ids))
        n = rng.choice([r(0, 7), 8, r(8, 12), r(16, 40), r(16, 40), r(100, 110)])
        f, x, xp = self.corrs(rng, n)
        k = rng.choice([0, 0, 1, 2, n // 5])
        if n < 14:
            k = 0
        bad = set(rng.sample(range(n), min(k, n)))
        xp = [(p[0] + (r(20, 60) * rng.choice([1, -1]) if i in bad else 0), p[1] - (r(20, 60) if i in bad else 0)) for i, p in enumerate(xp)]
        noisy = n >= 8 and rng.random() < 0.35
        if noisy:  # small deviations around the tolerance, images of different scale
            k = rng.choice([1, 4, 9])
            if rng.random() < 0.5:
                x = [(p[0] * k, p[1] * k) for p in x]
            else:
                xp = [(p[0] * k, p[1] * k) for p in xp]
            xp = [(p[0] + rng.choice([0, 0, 0, 1, -1, 2]), p[1] + rng.choice([0, 0, 0, 1, -2, 3])) for p in xp]
        cost = [r(0, 9) + (3 if i in bad else 0) for i in range(n)]
        # degenerate pictures are only checked for consistency
        clear = 1 if not noisy and n >= 16 and len(set(zip(x, xp))) > 12 else 0
        return "ransac %s %s %s %s %s %d %d %d %d" % (rng.choice(["c", "norm", "vg"]), csv(f), csv(flat(x)), csv(flat(xp)), csv(cost), rng.choice([700, 1200, 2500]) if noisy else rng.choice([50, 500]), 0 if rng.random() < 0.05 else r(1, 3) if n == 8 else 400 if n < 100 else 200, r(1, 99999), clear)

    def corrupt(self, evs, rng):
        c = [e for e in evs if e["op"] in ("rot", "tri", "mark", "decomp")]
        if not c:
            return None
        e = rng.choice(c)
        if e["op"] == "rot":
            e["r"][rng.randint(0, 8)] += 5
        elif e["op"] == "decomp":
            e["R"][1][rng.randint(0, 8)] += 60
        else:
            e["got"] += 1
        return evs


COMP = {"C29": Camera()}
