// Rotations, pinhole cameras, triangulation, essential and fundamental matrices
#include "drv.hpp"
#include <cfloat>
#include <algorithm>
#include "virg/nexus/nx_rotation_3d.h"
#include "virg/nexus/nx_pinhole.h"
#include "virg/nexus/nx_epipolar.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/vg_fundamental_matrix.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
using namespace virg::nexus;
static int milli(double v) { return (v == v && fabs(v) < 1.9e6) ? (int)llrint(v * 1000) : 1999999; }
static Ints millis(const double *p, int n) { Ints r; for (int i = 0; i < n; ++i) r.push_back(milli(p[i])); return r; }
static Ints millisf(const float *p, int n) { Ints r; for (int i = 0; i < n; ++i) r.push_back(milli(p[i])); return r; }
static std::string grp(const Ints &v, int k)
{
        std::string r = "[";
        for (size_t i = 0; i + k <= v.size(); i += k) { if (i) r += ","; r += Ev::arr(Ints(v.begin() + i, v.begin() + i + k)); }
        return r + "]";
}
// kind angles(c,s,d triples) axis(x,y,z,m)
static double ang(const Ints &a, int i) { return atan2((double)a[3 * i + 1], (double)a[3 * i]); }
static bool g_axkept;
static void rotation(double *R, const std::string &kind, const Ints &a, const Ints &v)
{
        g_axkept = true;
        for (int i = 0; i < 9; ++i) R[i] = 77;
        if (kind == "zyx") nx_rotation_3d_RzRyRx(R, ang(a, 0), ang(a, 1), ang(a, 2));
        else if (kind == "xyz") nx_rotation_3d_RxRyRz(R, ang(a, 0), ang(a, 1), ang(a, 2));
        else { static const double sc[4] = { 1, 0.0625, 3, 0.25 }; double q = sc[(unsigned)(v[0] + 2 * v[1] + 3 * v[2] + a[0] + a[1]) % 4]; double ax[3] = { v[0] * q, v[1] * q, v[2] * q }; nx_rotation_3d_axis_angle(R, ax, ang(a, 0)); g_axkept = ax[0] == v[0] * q && ax[1] == v[1] * q && ax[2] == v[2] * q; }
}
// an independent rotation for building scenes (nothing of the code under test)
static void mul3(double *o, const double *a, const double *b) { double r[9]; for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i) { r[3 * j + i] = 0; for (int k = 0; k < 3; ++k) r[3 * j + i] += a[3 * k + i] * b[3 * j + k]; } memcpy(o, r, sizeof r); }
static void scene_rotation(double *R, const std::string &kind, const Ints &a, const Ints &v)
{
        auto c = [&](int i) { return a[3 * i] / (double)a[3 * i + 2]; };
        auto s = [&](int i) { return a[3 * i + 1] / (double)a[3 * i + 2]; };
        if (kind == "ax") {
                double m = v[3], u[3] = { v[0] / m, v[1] / m, v[2] / m }, K[9] = { 0, u[2], -u[1], -u[2], 0, u[0], u[1], -u[0], 0 }, K2[9];
                mul3(K2, K, K);
                for (int i = 0; i < 9; ++i) R[i] = (i % 4 == 0) + s(0) * K[i] + (1 - c(0)) * K2[i];
                return;
        }
        double X[9] = { 1, 0, 0, 0, c(0), s(0), 0, -s(0), c(0) }, Y[9] = { c(1), 0, -s(1), 0, 1, 0, s(1), 0, c(1) }, Z[9] = { c(2), s(2), 0, -s(2), c(2), 0, 0, 0, 1 }, T[9];
        if (kind == "zyx") { mul3(T, Y, X); mul3(R, Z, T); } else { mul3(T, Y, Z); mul3(R, X, T); }
}
static void dbl(double *o, const Ints &v) { for (size_t i = 0; i < v.size(); ++i) o[i] = v[i]; }
static void put_rot(Ev &e, const std::string &kind, const Ints &a, const Ints &v) { e.str("kind", kind).raw("a", grp(a, 3)).ints("v", Ints(v.begin(), v.begin() + 3)).i("m", v[3]); }
static bool same_but_marks(const NXPointMatch2D &a, const NXPointMatch2D &b)
{ return !memcmp(a.x, b.x, 8) && !memcmp(a.xp, b.xp, 8) && a.match_cost == b.match_cost && a.sigma_x == b.sigma_x && a.sigma_xp == b.sigma_xp && a.id == b.id && a.idp == b.idp; }
static NXPointMatch2D match(double x, double y, double xp, double yp, int i, int cost, bool in)
{
        NXPointMatch2D p; memset(&p, 0, sizeof p);
        p.x[0] = x; p.x[1] = y; p.xp[0] = xp; p.xp[1] = yp; p.id = i; p.idp = 70 + i; p.match_cost = cost; p.sigma_x = 2 + i; p.sigma_xp = 3 + i; p.is_inlier = in ? NX_TRUE : NX_FALSE;
        return p;
}
static bool kept(const std::vector<NXPointMatch2D> &a, const std::vector<NXPointMatch2D> &b, bool marks)
{ for (size_t i = 0; i < a.size(); ++i) if (!same_but_marks(a[i], b[i]) || (marks && a[i].is_inlier != b[i].is_inlier)) return false; return true; }
// determinant of F scaled to a largest entry of one, in billionths
static int sdet(const double *F)
{
        double m = 0, f[9]; for (int i = 0; i < 9; ++i) m = std::max(m, fabs(F[i]));
        for (int i = 0; i < 9; ++i) f[i] = F[i] / m;
        double d = f[0] * (f[4] * f[8] - f[5] * f[7]) - f[3] * (f[1] * f[8] - f[2] * f[7]) + f[6] * (f[1] * f[5] - f[2] * f[4]);
        return d == d && fabs(d) < 1.9 ? (int)llrint(d * 1e9) : 1999999999;
}
static int dist(const double *F, const NXPointMatch2D &p)
{
        double x[3] = { p.x[0], p.x[1], 1 }, y[3] = { p.xp[0], p.xp[1], 1 }, l[3];
        for (int i = 0; i < 3; ++i) l[i] = F[i] * x[0] + F[3 + i] * x[1] + F[6 + i] * x[2];
        double d = fabs(l[0] * y[0] + l[1] * y[1] + l[2]) / sqrt(l[0] * l[0] + l[1] * l[1]);
        return (d == d && d < 1.9e6) ? (int)llrint(d * 1000) : 1999999999;
}
static Ints scaled(const double *F) { double m = 0; Ints r; for (int i = 0; i < 9; ++i) m = std::max(m, fabs(F[i])); for (int i = 0; i < 9; ++i) r.push_back(milli(F[i] / m)); return r; }
void begin_case(const Toks &) {}
void end_case() {}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        Ev e(op); arm(e);
        if (op == "rot") { // kind a v
                Ints a = nums(t[2]), v = nums(t[3]); double R[9]; put_rot(e, t[1], a, v);
                rotation(R, t[1], a, v); e.ints("r", millis(R, 9));
                nx_rotation_3d_invert(R); e.ints("inv", millis(R, 9)).b("axkept", g_axkept);
        } else if (op == "project") { // kind a v  hk,hr,ht  K t  X w
                Ints a = nums(t[2]), v = nums(t[3]), h = nums(t[4]), k = nums(t[5]), tr = nums(t[6]), x = nums(t[7]), w = nums(t[8]);
                double R[9], K[9], T[3], P[12]; scene_rotation(R, t[1], a, v); dbl(K, k); dbl(T, tr);
                put_rot(e, t[1], a, v); e.b("hk", h[0]).b("hr", h[1]).b("ht", h[2]).ints("k", k).ints("t", tr).raw("x", grp(x, 3)).ints("w", w);
                double R0[9], K0[9], T0[3]; memcpy(R0, R, sizeof R); memcpy(K0, K, sizeof K); memcpy(T0, T, sizeof T);
                nx_pinhole_projection_from_krt(P, h[0] ? K : nullptr, h[1] ? R : nullptr, h[2] ? T : nullptr);
                e.ints("p", millis(P, 12));
                int N = x.size() / 3; bool fin = true; double P0[12]; memcpy(P0, P, sizeof P);
                std::vector<float> X(3 * N), q(2 * N), Xh(4 * N), qh(3 * N);
                for (int i = 0; i < N; ++i) {
                        double s = P[11];
                        for (int j = 0; j < 3; ++j) { X[3 * i + j] = Xh[4 * i + j] = x[3 * i + j]; s += P[2 + 3 * j] * x[3 * i + j]; }
                        Xh[4 * i + 3] = w[i]; fin = fin && fabs(s) > 1e-9;
                }
                auto X0 = X, Xh0 = Xh; double s = 0;
                if (fin) s = nx_pinhole_project(P, N, X.data(), q.data());
                nx_pinhole_project_h(P, N, Xh.data(), qh.data());
                e.b("kept", X == X0 && Xh == Xh0 && !memcmp(P, P0, sizeof P) && !memcmp(R, R0, sizeof R) && !memcmp(K, K0, sizeof K) && !memcmp(T, T0, sizeof T));
                e.i("s", milli(s)).raw("q", fin ? grp(millisf(q.data(), 2 * N), 2) : "[]").raw("h", grp(millisf(qh.data(), 3 * N), 3));
        } else if (op == "tri") { // kind a v t  K Kp  X in npt
                Ints a = nums(t[2]), v = nums(t[3]), tr = nums(t[4]), k = nums(t[5]), kp = nums(t[6]), x = nums(t[7]), in = nums(t[8]); int npt = n(9);
                double R[9], K[9], Kp[9], P0[12], P1[12]; scene_rotation(R, t[1], a, v); dbl(K, k); dbl(Kp, kp);
                for (int i = 0; i < 12; ++i) P0[i] = i < 9 ? K[i] : 0;
                mul3(P1, Kp, R); for (int i = 0; i < 3; ++i) P1[9 + i] = Kp[i] * tr[0] + Kp[3 + i] * tr[1] + Kp[6 + i] * tr[2];
                std::vector<NXPointMatch2D> c; int N = in.size();
                auto pr = [&](const double *P, int i, double *o) { double y[3]; for (int j = 0; j < 3; ++j) y[j] = P[j] * x[3 * i] + P[3 + j] * x[3 * i + 1] + P[6 + j] * x[3 * i + 2] + P[9 + j]; o[0] = fabs(y[2]) > 1e-9 ? y[0] / y[2] : 1; o[1] = fabs(y[2]) > 1e-9 ? y[1] / y[2] : 1; };
                for (int i = 0; i < N; ++i) { double u[2], w[2]; pr(P0, i, u); pr(P1, i, w); c.push_back(match(u[0], u[1], w[0], w[1], 400 - 3 * i, i, in[i])); }
                auto c0 = c;
                put_rot(e, t[1], a, v); e.ints("t", tr).raw("x", grp(x, 3)).ints("in", in).i("npt", npt);
                float *X = (float *)malloc(3 * npt * sizeof(float) + 1); int *ids = (int *)malloc(npt * sizeof(int) + 1);
                for (int i = 0; i < 3 * npt; ++i) X[i] = -777; for (int i = 0; i < npt; ++i) ids[i] = -777;
                int got = nx_pinhole_triangulate(npt, X, ids, N, c.data(), P0, P1);
                int g = std::max(0, std::min(got, npt)); bool rest = true;
                for (int i = g; i < npt; ++i) rest = rest && ids[i] == -777 && X[3 * i] == -777;
                e.i("got", got).b("rest", rest).ints("ids", Ints(ids, ids + g)).raw("X", grp(millisf(X, 3 * g), 3)).b("kept", kept(c, c0, true));
                free(X); free(ids);
        } else if (op == "essrt") { // kind a v t
                Ints a = nums(t[2]), v = nums(t[3]), tr = nums(t[4]); double R[9], T[3], E[9]; scene_rotation(R, t[1], a, v); dbl(T, tr);
                nx_essential_from_Rt(E, R, T);
                put_rot(e, t[1], a, v); e.ints("t", tr).ints("e", millis(E, 9));
        } else if (op == "essf") { // f k kp
                Ints f = nums(t[1]), k = nums(t[2]), kp = nums(t[3]); double F[9], K[9], Kp[9], E[9]; dbl(F, f); dbl(K, k); dbl(Kp, kp);
                nx_essential_from_fundamental(E, F, K, Kp);
                e.ints("f", f).ints("k", k).ints("kp", kp).ints("e", millis(E, 9));
        } else if (op == "decomp") { // kind a v t m2 scale  X perm hz
                Ints a = nums(t[2]), v = nums(t[3]), tr = nums(t[4]), x = nums(t[7]), pm = nums(t[8]); double sc = n(6) / 16.0;
                double R[9], T[9], E[9], Ra[4][9], Ta[4][3], *Rp[4], *Tp[4]; scene_rotation(R, t[1], a, v);
                double S[9] = { 0, (double)tr[2], (double)-tr[1], (double)-tr[2], 0, (double)tr[0], (double)tr[1], (double)-tr[0], 0 };
                mul3(E, S, R); for (double &d : E) d *= sc;
                memcpy(T, E, sizeof E);
                for (int i = 0; i < 4; ++i) { Rp[i] = Ra[i]; Tp[i] = Ta[i]; }
                double sv = nx_essential_decompose_to_Rt(E, Rp, Tp);
                put_rot(e, t[1], a, v); e.ints("t", tr).i("m2", n(5)).b("ekept", !memcmp(T, E, sizeof E)).b("smin", fabs(sv) < 1e-9 * fabs(sc) * n(5) + 1e-12).raw("x", grp(x, 3));
                const double *Rq[4], *Tq[4]; Ints r4, t4;
                for (int i = 0; i < 4; ++i) { Rq[i] = Ra[pm[i]]; Tq[i] = Ta[pm[i]]; Ints q = millis(Rq[i], 9); r4.insert(r4.end(), q.begin(), q.end()); q = millis(Tq[i], 3); t4.insert(t4.end(), q.begin(), q.end()); }
                std::vector<NXPointMatch2D> c; int N = x.size() / 3;
                for (int i = 0; i < N; ++i) {
                        double y[3]; for (int j = 0; j < 3; ++j) y[j] = R[j] * x[3 * i] + R[3 + j] * x[3 * i + 1] + R[6 + j] * x[3 * i + 2] + tr[j];
                        double z = x[3 * i + 2] ? x[3 * i + 2] : 1, zp = fabs(y[2]) > 1e-9 ? y[2] : 1;
                        c.push_back(match(x[3 * i] / z, x[3 * i + 1] / z, y[0] / zp, y[1] / zp, i, i, i % 2));
                }
                auto c0 = c; int z = -999; int pick = nx_epipolar_pick_best_Rt(Rq, Tq, N, c.data(), n(9) ? &z : nullptr);
                int pick2 = nx_epipolar_pick_best_Rt(Rq, Tq, N, c.data(), nullptr);
                e.raw("R", grp(r4, 9)).raw("T", grp(t4, 3)).i("pick", pick).b("hz", n(9)).b("same", pick == pick2).i("z", z).b("ckept", kept(c, c0, true));
        } else if (op == "mark") { // via f tol2 x xp
                Ints f = nums(t[2]), x = nums(t[4]), xp = nums(t[5]); double F[9]; dbl(F, f); int N = x.size() / 2;
                std::vector<NXPointMatch2D> c; for (int i = 0; i < N; ++i) c.push_back(match(x[2 * i], x[2 * i + 1], xp[2 * i], xp[2 * i + 1], i, i, i % 2));
                auto c0 = c; int got; Ints m; std::string lines = "[";
                VGFundamentalMatrix g; g.set(F);
                if (t[1] == "c") got = nx_fundamental_mark_inliers(F, N, c.data(), n(3) / 2.0);
                else { got = 0; for (auto &p : c) { p.is_inlier = g.epipolar_distance_fwd(&p) < n(3) / 2.0 ? NX_TRUE : NX_FALSE; got += p.is_inlier ? 1 : 0; } }
                for (auto &p : c) m.push_back(p.is_inlier ? 1 : 0);
                for (int i = 0; i < N; ++i) { double l[3], q[2] = { (double)x[2 * i], (double)x[2 * i + 1] }; g.epipolar_line_fwd(l, q); if (i) lines += ","; lines += Ev::arr(millis(l, 3)); }
                e.ints("f", f).i("tol2", n(3)).raw("x", grp(x, 2)).raw("xp", grp(xp, 2)).i("got", got).ints("m", m).b("kept", kept(c, c0, false)).raw("lines", lines + "]");
        } else if (op == "est") { // via f x xp in ids
                Ints f = nums(t[2]), x = nums(t[3]), xp = nums(t[4]), in = nums(t[5]), id = nums(t[6]); int N = in.size();
                std::vector<NXPointMatch2D> c; for (int i = 0; i < N; ++i) c.push_back(match(x[2 * i], x[2 * i + 1], xp[2 * i], xp[2 * i + 1], i, i, in[i]));
                auto c0 = c; double F[9] = { 5, 5, 5, 5, 5, 5, 5, 5, 5 }, s;
                if (t[1] == "8pt") { int ids[8]; for (int i = 0; i < 8; ++i) ids[i] = id[i]; s = nx_fundamental_estimate_8pt(F, ids, c.data()); }
                else if (t[1] == "all") s = nx_fundamental_estimate(F, N, c.data());
                else s = nx_fundamental_estimate_inliers(F, N, c.data());
                bool unt = true; for (double v : F) unt = unt && v == 5;
                Ints d; for (auto &p : c) d.push_back(dist(F, p));
                e.str("via", t[1]).ints("f", f).raw("x", grp(x, 2)).raw("xp", grp(xp, 2)).ints("in", in).ints("ids", id).b("max", s == DBL_MAX).b("unt", unt).b("small", s > -1e-6 && s < 1e-4)
                 .b("kept", kept(c, c0, true)).i("det", sdet(F)).ints("dist", d).ints("F", scaled(F));
        } else if (op == "ransac") { // via f x xp cost tol(milli) iter seed clear
                Ints f = nums(t[2]), x = nums(t[3]), xp = nums(t[4]), cost = nums(t[5]); int N = cost.size();
                std::vector<NXPointMatch2D> c; for (int i = 0; i < N; ++i) c.push_back(match(x[2 * i], x[2 * i + 1], xp[2 * i], xp[2 * i + 1], i, cost[i], (i + n(8)) % 2));
                auto c0 = c; double F[9] = { 5, 5, 5, 5, 5, 5, 5, 5, 5 }; int got;
                nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), n(8));
                if (t[1] == "vg") {
                        VGPointCorrespondence2D vc; for (auto &q : c) vc.add_match(q.id, q.x[0], q.x[1], q.sigma_x, q.idp, q.xp[0], q.xp[1], q.sigma_xp, q.match_cost, q.is_inlier);
                        VGFundamentalMatrix g; g.set(F); got = g.estimate_ransac(vc, n(6) / 1000.0, n(7));
                        if (n(8) % 2 && N >= 8) got = g.estimate_from_inliers(vc, n(6) / 1000.0);
                        memcpy(F, g.data(), sizeof F); for (int i = 0; i < N; ++i) c[i] = vc[i];
                } else if (t[1] == "norm") got = nx_fundamental_estimate_norm_ransac(F, N, c.data(), n(6) / 1000.0, n(7));
                else got = nx_fundamental_estimate_ransac(F, N, c.data(), n(6) / 1000.0, n(7));
                Ints order, m, d; bool fields = true;
                for (auto &p : c) {
                        int i = p.id; order.push_back(i); m.push_back(p.is_inlier ? 1 : 0);
                        if (i < 0 || i >= N) { fields = false; d.push_back(0); continue; }
                        const NXPointMatch2D &q = c0[i];
                        for (int j = 0; j < 2; ++j) fields = fields && fabs(p.x[j] - q.x[j]) < 1e-3 && fabs(p.xp[j] - q.xp[j]) < 1e-3;
                        fields = fields && p.idp == q.idp && p.match_cost == q.match_cost && fabs(p.sigma_x - q.sigma_x) < 1e-3 && fabs(p.sigma_xp - q.sigma_xp) < 1e-3;
                        if (t[1] != "norm") fields = fields && same_but_marks(p, q);
                        d.push_back(dist(F, q));
                }
                bool unt = true; for (double v : F) unt = unt && v == 5;
                e.str("via", t[1]).ints("f", f).raw("x", grp(x, 2)).raw("xp", grp(xp, 2)).ints("cost", cost).i("tol", n(6)).i("iter", n(7)).b("clear", n(9)).i("got", got).ints("order", order).ints("m", m).ints("dist", d)
                 .b("fields", fields).b("unt", t[1] == "norm" || unt).i("det", sdet(F));
        } else _exit(98);
        emit(e);
}
