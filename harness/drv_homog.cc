#include "drv.hpp"
#include <cfloat>
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_point_match_2d_stats.h"
#include "virg/nexus/vg_homography.hpp"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
using namespace virg::nexus;
static int milli(double v) { return (v == v && fabs(v) < 1.9e6) ? (int)llrint(v * 1000) : 1999999999; }
static int whole(double v) { return (fabs(v) < 2e9 && v == (double)llrint(v)) ? (int)llrint(v) : -1999999999; }
static void seth(double *h, const Ints &v) { for (int i = 0; i < 9; ++i) h[i] = v[i]; }
static std::string pts(const Ints &v)
{
        std::string r = "[";
        for (size_t i = 0; i + 1 < v.size(); i += 2) { if (i) r += ","; r += Ev::arr(Ints{ v[i], v[i + 1] }); }
        return r + "]";
}
static std::vector<NXPointMatch2D> matches(const Ints &x, const Ints &xp, const Ints &in)
{
        std::vector<NXPointMatch2D> c(x.size() / 2);
        for (size_t i = 0; i < c.size(); ++i) {
                NXPointMatch2D &p = c[i]; memset(&p, 0, sizeof p);
                for (int j = 0; j < 2; ++j) { p.x[j] = x[2 * i + j]; p.xp[j] = xp[2 * i + j]; }
                p.id = i; p.idp = 50 + i; p.match_cost = i * 0.5f; p.sigma_x = 2 + i; p.sigma_xp = 3; p.is_inlier = in.empty() ? NX_FALSE : in[i] ? NX_TRUE : NX_FALSE;
        }
        return c;
}
static bool same_points(const std::vector<NXPointMatch2D> &a, const std::vector<NXPointMatch2D> &b, bool marks)
{
        for (size_t i = 0; i < a.size(); ++i)
                if (memcmp(a[i].x, b[i].x, 8) || memcmp(a[i].xp, b[i].xp, 8) || a[i].match_cost != b[i].match_cost || a[i].sigma_x != b[i].sigma_x || a[i].sigma_xp != b[i].sigma_xp
                    || a[i].id != b[i].id || a[i].idp != b[i].idp || (marks && a[i].is_inlier != b[i].is_inlier)) return false;
        return true;
}
static Ints through(const double *h, const Ints &x)
{
        Ints r;
        for (size_t i = 0; i + 1 < x.size(); i += 2) {
                double s = h[2] * x[i] + h[5] * x[i + 1] + h[8];
                r.push_back(milli((h[0] * x[i] + h[3] * x[i + 1] + h[6]) / s)); r.push_back(milli((h[1] * x[i] + h[4] * x[i + 1] + h[7]) / s));
        }
        return r;
}
void begin_case(const Toks &) {}
void end_case() {}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        Ev e(op); arm(e);
        if (op == "transfer") { // via h x
                Ints hv = nums(t[2]), x = nums(t[3]); double h[9]; seth(h, hv);
                e.str("via", t[1]).ints("h", hv).ints("x", x);
                double o[2]; double s = 0; bool hs = false;
                if (t[1] == "c") { float a[2] = { (float)x[0], (float)x[1] }, b[2]; s = nx_homography_transfer_fwd(h, b, a); hs = true; o[0] = b[0]; o[1] = b[1]; }
                else if (t[1] == "inplace") { float a[2] = { (float)x[0], (float)x[1] }, b[2]; s = nx_homography_transfer_fwd(h, b, a); hs = true; o[0] = b[0]; o[1] = b[1]; }
                else if (t[1] == "vgf") { VGHomography g; g.set(h); float a[2] = { (float)x[0], (float)x[1] }, b[2]; g.transfer_fwd<float>(b, a); o[0] = b[0]; o[1] = b[1]; }
                else { VGHomography g; g.set(h); double a[2] = { (double)x[0], (double)x[1] }; g.transfer_fwd<double>(o, a); }
                e.ints("r", Ints{ milli(o[0]), milli(o[1]) }).b("hs", hs).i("s", hs ? whole(s) : 0);
        } else if (op == "mark") { // inv h tol2 x xp
                Ints hv = nums(t[2]), x = nums(t[4]), xp = nums(t[5]); double h[9]; seth(h, hv);
                Ints dirty; for (size_t i = 0; i < x.size() / 2; ++i) dirty.push_back(i % 2);
                auto c = matches(x, xp, dirty), c0 = c;
                int got = n(1) ? nx_homography_mark_inliers_inv(h, c.size(), c.data(), n(3) / 2.0) : nx_homography_mark_inliers(h, c.size(), c.data(), n(3) / 2.0);
                Ints m; for (auto &p : c) m.push_back(p.is_inlier ? 1 : 0);
                e.b("inv", n(1)).ints("h", hv).i("tol2", n(3)).raw("x", pts(x)).raw("xp", pts(xp)).i("got", got).i("cnt", nx_point_match_2d_count_inliers(c.size(), c.data())).ints("m", m).b("kept", same_points(c, c0, false));
        } else if (op == "check") { // h c
                Ints hv = nums(t[1]); double h[9]; seth(h, hv);
                e.ints("h", hv).i("c", n(2)).b("r", nx_homography_check(h, n(2) / 8.0));
        } else if (op == "unit") { // x
                Ints x = nums(t[1]); double q[8], h[9]; for (int i = 0; i < 8; ++i) q[i] = x[i];
                double det = nx_homography_estimate_unit(h, q);
                e.raw("x", pts(x)).b("zero", det == 0.0);
                if (det == 0.0) e.raw("r", "[]"); else e.raw("r", pts(through(h, x)));
        } else if (op == "four") { // x xp perm
                Ints x = nums(t[1]), xp = nums(t[2]), pm = nums(t[3]); double h[9]; int id[4];
                auto c = matches(x, xp, Ints()); auto c0 = c;
                Ints qx, qxp;
                for (int i = 0; i < 4; ++i) { id[i] = pm[i]; for (int j = 0; j < 2; ++j) { qx.push_back(x[2 * pm[i] + j]); qxp.push_back(xp[2 * pm[i] + j]); } }
                double det = nx_homography_estimate_4pt(h, id, c.data());
                e.raw("x", pts(qx)).raw("xp", pts(qxp)).b("zero", det == 0.0).b("kept", same_points(c, c0, true));
                if (det == 0.0) e.raw("r", "[]"); else e.raw("r", pts(through(h, qx)));
        } else if (op == "dlt") { // inl h(int affine) x inflags
                Ints hv = nums(t[2]), x = nums(t[3]), in = nums(t[4]), xp; double h[9] = { 5, 5, 5, 5, 5, 5, 5, 5, 5 };
                for (size_t i = 0; i < x.size(); i += 2) {
                        int a = hv[0] * x[i] + hv[3] * x[i + 1] + hv[6], b = hv[1] * x[i] + hv[4] * x[i + 1] + hv[7];
                        if (n(1) && !in[i / 2]) { a += 37; b -= 23 + (int)i; }
                        xp.push_back(a); xp.push_back(b);
                }
                auto c = matches(x, xp, in), c0 = c;
                double s = n(1) ? nx_homography_estimate_dlt_inliers(h, c.size(), c.data()) : nx_homography_estimate_dlt(h, c.size(), c.data());
                bool unt = true; for (double v : h) unt = unt && v == 5;
                e.b("inl", n(1)).ints("h", hv).raw("x", pts(x)).ints("in", in).b("max", s == DBL_MAX).b("unt", unt).b("small", s > -1e-6 && s < 1e-4).b("kept", same_points(c, c0, true)).raw("r", pts(through(h, x)));
        } else if (op == "terr") { // kind h x xp in
                Ints hv = nums(t[2]), x = nums(t[3]), xp = nums(t[4]), in = nums(t[5]); double h[9]; seth(h, hv);
                auto c = matches(x, xp, in); auto c0 = c;
                double v = t[1] == "fwd" ? nx_homography_transfer_error_fwd(h, c.size(), c.data()) : t[1] == "bwd" ? nx_homography_transfer_error_bwd(h, c.size(), c.data()) : nx_homography_transfer_error_sym(h, c.size(), c.data());
                e.str("kind", t[1]).ints("h", hv).raw("x", pts(x)).raw("xp", pts(xp)).ints("in", in).i("r", (v == v && fabs(v) < 1e7) ? (int)llrint(v * 100) : 1999999999).b("kept", same_points(c, c0, true));
        } else if (op == "stats") { // via x xp h
                Ints x = nums(t[2]), xp = nums(t[3]), hv = nums(t[4]);
                auto c = matches(x, xp, Ints()); auto c0 = c; int N = c.size();
                VGPointCorrespondence2D vc; NXPointMatch2DStats *st = nx_point_match_2d_stats_new();
                NXPointMatch2D *p = c.data(); const NXPointMatch2DStats *ps = st;
                if (t[1] == "vg") {
                        for (auto &q : c) vc.add_match(q.id, q.x[0], q.x[1], q.sigma_x, q.idp, q.xp[0], q.xp[1], q.sigma_xp, q.match_cost, q.is_inlier);
                        vc.normalize(); p = vc.matches(); ps = vc.stats();
                } else nx_point_match_2d_stats_normalize_matches(st, N, p);
                double sx[2] = { 0, 0 }, sxp[2] = { 0, 0 }, d = 0, dp = 0;
                for (int i = 0; i < N; ++i) { for (int j = 0; j < 2; ++j) { sx[j] += p[i].x[j]; sxp[j] += p[i].xp[j]; } d += hypot(p[i].x[0], p[i].x[1]); dp += hypot(p[i].xp[0], p[i].xp[1]); }
                e.raw("x", pts(x)).raw("xp", pts(xp)).ints("cx", Ints{ milli(sx[0]), milli(sx[1]), milli(sxp[0]), milli(sxp[1]) }).ints("md", Ints{ milli(d), milli(dp) });
                // a homography of normalized points and the same homography denormalized agree
                double h[9]; for (int i = 0; i < 9; ++i) h[i] = hv[i] / 16.0;
                Ints a, b;
                for (int i = 0; i < N; ++i) {
                        double s = h[2] * p[i].x[0] + h[5] * p[i].x[1] + h[8];
                        a.push_back(milli((h[0] * p[i].x[0] + h[3] * p[i].x[1] + h[6]) / s * ps->dp + ps->mp[0])); a.push_back(milli((h[1] * p[i].x[0] + h[4] * p[i].x[1] + h[7]) / s * ps->dp + ps->mp[1]));
                }
                // and so do fundamental matrices: xp' F x keeps its value
                double f[9], F[9]; for (int i = 0; i < 9; ++i) F[i] = f[i] = ((hv[i] * 7 + i * 3) % 11 - 5);
                auto form = [](const double *f, const float *x, const float *y) { double r = 0; double X[3] = { x[0], x[1], 1 }, Y[3] = { y[0], y[1], 1 }; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r += Y[j] * f[3 * i + j] * X[i]; return r; };
                Ints fa, fb;
                for (int i = 0; i < N; ++i) fa.push_back(milli(form(f, p[i].x, p[i].xp)));
                if (t[1] == "vg") { vc.denormalize_homography(h); vc.denormalize_fundamental(F); vc.denormalize(); }
                else { nx_point_match_2d_stats_denormalize_homography(ps, h); nx_point_match_2d_stats_denormalize_fundamental(ps, F); nx_point_match_2d_stats_denormalize_matches(ps, N, p); }
                b = through(h, x);
                for (int i = 0; i < N; ++i) fb.push_back(milli(form(F, p[i].x, p[i].xp)));
                bool kept = true;
                for (int i = 0; i < N; ++i) { for (int j = 0; j < 2; ++j) kept = kept && fabs(p[i].x[j] - c0[i].x[j]) < 1e-3 && fabs(p[i].xp[j] - c0[i].xp[j]) < 1e-3; kept = kept && fabs(p[i].sigma_x - c0[i].sigma_x) < 1e-4 && fabs(p[i].sigma_xp - c0[i].sigma_xp) < 1e-4 && p[i].id == c0[i].id; }
                e.ints("a", a).ints("b", b).ints("fa", fa).ints("fb", fb).b("kept", kept);
                nx_point_match_2d_stats_free(st);
        } else _exit(98);
        emit(e);
}
