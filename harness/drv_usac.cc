// nx_usac with scripted functions, and the homography estimators built on sampling
#include "drv.hpp"
#include <deque>
#include <algorithm>
#include <cfloat>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_usac.h"
#include "virg/nexus/nx_usac_homography.h"
#include "virg/nexus/nx_homography.h"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/vg_homography.hpp"
using namespace virg::nexus;

static const int NANV = 1000000000, LOWV = -1000000;
struct World {
        int m, k, grow, next, nsample, calls, vdef;
        std::deque<int> T, S, F, M, V, D, L;
};
static int pop(std::deque<int> &q, int dflt) { if (q.empty()) return dflt; int v = q.front(); q.pop_front(); return v; }
static int back(double v) { return v != v ? NANV : v == -DBL_MAX ? LOWV : (fabs(v) < 9e5 && v == (double)(int)v) ? (int)v : -777; }
static double forth(int v) { return v == NANV ? nan("") : v; }
static void put(const World *w, double *d, int id) { for (int j = 0; j < w->m; ++j) d[j] = id * 1000.0 + j; }
static int get(const World *w, const double *d)
{
        bool zero = true;
        for (int j = 0; j < w->m; ++j) zero = zero && d[j] == 0;
        if (zero) return 0;
        int id = (int)llrint(d[0] / 1000.0);
        for (int j = 0; j < w->m; ++j) if (d[j] != id * 1000.0 + j) return -1;
        return id;
}
static int sid(const World *w, const int *s) { for (int j = 0; j < w->k; ++j) if (s[j] != w->nsample * 100 + j) return -1; return w->nsample; }
static World *W(void *d) { World *w = (World *)d; if (++w->calls > 5000) { Ev e("LOOP"); wr(e.done()); _exit(0); } return w; }
static NXBool term(const double *b, double s, void *d)
{ World *w = W(d); int r = pop(w->T, 1); Ev e("term"); e.i("b", get(w, b)).i("s", back(s)).b("r", r); wr(e.done()); return r ? NX_TRUE : NX_FALSE; }
static void sample(int *s, void *d) { World *w = W(d); ++w->nsample; for (int j = 0; j < w->k; ++j) s[j] = w->nsample * 100 + j; Ev e("sample"); wr(e.done()); }
static NXBool scheck(const int *s, void *d) { World *w = W(d); int r = pop(w->S, 1); Ev e("scheck"); e.b("same", sid(w, s) == w->nsample).b("r", r); wr(e.done()); return r ? NX_TRUE : NX_FALSE; }
static int fit(int *mx, double **ms, const int *s, void *d)
{
        World *w = W(d); int n = pop(w->F, 0);
        bool same = sid(w, s) == w->nsample;
        int want = n + w->grow;
        if (want > *mx) { *ms = (double *)nx_xrealloc(*ms, sizeof(double) * want * w->m); *mx = want; }
        Ints ids;
        for (int i = 0; i < n; ++i) { put(w, *ms + i * w->m, w->next); ids.push_back(w->next++); }
        Ev e("fit"); e.b("same", same).ints("ms", ids); wr(e.done());
        return n;
}
static NXBool mcheck(double *m, const int *s, void *d) { World *w = W(d); int r = pop(w->M, 1); Ev e("mcheck"); e.i("m", get(w, m)).b("same", sid(w, s) == w->nsample).b("r", r); wr(e.done()); return r ? NX_TRUE : NX_FALSE; }
static double score(double *m, const int *s, void *d) { World *w = W(d); int v = pop(w->V, 0); Ev e("score"); e.i("m", get(w, m)).b("same", w->nsample == 0 || sid(w, s) == w->nsample).i("v", v); wr(e.done()); return forth(v); }
static NXBool degen(double *m, const int *s, void *d) { World *w = W(d); int r = pop(w->D, 1); Ev e("degen"); e.i("m", get(w, m)).b("same", sid(w, s) == w->nsample).b("r", r); wr(e.done()); return r ? NX_TRUE : NX_FALSE; }
static NXBool local(double *o, const double *m, const int *s, void *d)
{ World *w = W(d); int r = pop(w->L, 0), id = w->next++; Ev e("local"); e.i("m", get(w, m)).b("same", sid(w, s) == w->nsample).b("r", r).i("n", id); put(w, o, id); wr(e.done()); return r ? NX_TRUE : NX_FALSE; }
static void global(double *o, const double *m, void *d) { World *w = W(d); int id = w->next++; Ev e("global"); e.i("m", get(w, m)).i("n", id); put(w, o, id); wr(e.done()); }

static void fillq(std::deque<int> &q, const std::string &t) { for (int v : nums(t)) q.push_back(v); }
void begin_case(const Toks &) {}
void end_case() {}
// integer homographies (column major, denominator 64 in the projective row)
static void geth(double *h, const Ints &v) { for (int i = 0; i < 9; ++i) h[i] = v[i] / 1024.0; }
static int milli(double v) { return (v == v && fabs(v) < 1.9e6) ? (int)llrint(v * 1000) : 1999999999; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        if (op == "run") { // m k grow dirty T S F M V D L
                World w; w.m = n(1); w.k = n(2); w.grow = n(3); w.next = 1; w.nsample = 0; w.calls = 0;
                fillq(w.T, t[5]); fillq(w.S, t[6]); fillq(w.F, t[7]); fillq(w.M, t[8]); fillq(w.V, t[9]); fillq(w.D, t[10]); fillq(w.L, t[11]);
                Ev e("run"); e.i("m", w.m).i("k", w.k); arm(e); emit(e);
                NXUSACConfig c = { sample, scheck, fit, mcheck, score, degen, local, global, term };
                std::vector<double> b(w.m + 1, n(4)); // the caller's model may hold anything
                double s = nx_usac(w.m, b.data(), w.k, &c, &w);
                Ev r("ret"); r.i("b", get(&w, b.data())).i("s", back(s)).b("past", b[w.m] == n(4)); wr(r.done());
                return;
        }
        Ev e(op); arm(e);
        if (op == "est") { // fn n seed nin kind iters H...
                std::string fn = t[1]; int N = n(2), nin = n(4), kind = n(5), it = n(6); unsigned seed = n(3);
                double H[9]; geth(H, nums(t[7]));
                std::vector<NXPointMatch2D> c(N);
                Ints order; for (int i = 0; i < N; ++i) order.push_back(i);
                unsigned r = seed * 7919u + 17u; auto rnd = [&]() { r = r * 1664525u + 1013904223u; return (int)((r >> 16) & 0x7fff); };
                for (int i = N - 1; i > 0; --i) std::swap(order[i], order[rnd() % (i + 1)]);
                for (int i = 0; i < N; ++i) {
                        NXPointMatch2D &p = c[i]; memset(&p, 0, sizeof p);
                        double a = 2 * M_PI * i / (kind == 3 ? 4 : N) + 0.3;
                        p.x[0] = 210 + 100 * cos(a); p.x[1] = 170 + 90 * sin(a);
                        if (kind == 1) { p.x[0] = 50; p.x[1] = 60; }                 // one point only
                        if (kind == 2) { p.x[0] = 40 + 3 * i; p.x[1] = 60 + 2 * i; } // points on a line
                        double s = H[2] * p.x[0] + H[5] * p.x[1] + H[8];
                        p.xp[0] = (H[0] * p.x[0] + H[3] * p.x[1] + H[6]) / s; p.xp[1] = (H[1] * p.x[0] + H[4] * p.x[1] + H[7]) / s;
                        if (order[i] >= nin && kind == 5) { p.xp[0] += (i % 2 ? 1 : -1) * (0.4 + 0.3 * ((i * 7 + seed) % 6)); p.xp[1] += 0.1 * (i % 3); } // one that is near the tolerance
                        else if (order[i] >= nin) { p.xp[0] += 60 + 11 * i; p.xp[1] += 90 + ((i * i * 5) % 71); } // an outlier
                        p.match_cost = kind == 4 ? 1 : order[i]; p.sigma_x = 2; p.sigma_xp = 3; p.id = 100 + i; p.idp = 500 + i; p.is_inlier = rnd() % 2;
                }
                for (int i = N - 1; i > 0; --i) std::swap(c[i], c[rnd() % (i + 1)]);
                std::vector<NXPointMatch2D> c0 = c;
                nx_uniform_sampler_init_seed(nx_uniform_sampler_instance(), seed);
                double h[9] = { 7, 7, 7, 7, 7, 7, 7, 7, 7 }; int got;
                if (fn == "usac") got = nx_usac_estimate_homography(h, N, c.data(), 1.0, it + 1);
                else if (fn == "ransac") got = nx_homography_estimate_ransac(h, N, c.data(), 1.0, it);
                else if (fn == "norm") got = nx_homography_estimate_norm_ransac(h, N, c.data(), 1.0, it);
                else { VGHomography vh; VGPointCorrespondence2D vc; for (auto &p : c) vc.add_match(p.id, p.x[0], p.x[1], p.sigma_x, p.idp, p.xp[0], p.xp[1], p.sigma_xp, p.match_cost, p.is_inlier); got = vh.estimate_ransac(vc, 1.0, it); memcpy(h, vh.data(), sizeof h); c.assign(vc.matches(), vc.matches() + vc.size()); }
                Ints id, mark, cost, dist, truth; bool kept = true;
                for (auto &p : c) {
                        id.push_back((int)p.id - 100); mark.push_back(p.is_inlier ? 1 : 0); cost.push_back((int)p.match_cost);
                        double s = h[2] * p.x[0] + h[5] * p.x[1] + h[8];
                        double u = (h[0] * p.x[0] + h[3] * p.x[1] + h[6]) / s - p.xp[0], v = (h[1] * p.x[0] + h[4] * p.x[1] + h[7]) / s - p.xp[1];
                        dist.push_back(milli(sqrt(u * u + v * v)));
                        int k = (int)p.id - 100;
                        if (k < 0 || k >= N) { kept = false; truth.push_back(0); continue; }
                        truth.push_back(order[k] < nin ? 1 : 0);
                        const NXPointMatch2D *o = nullptr; for (auto &q : c0) if (q.id == p.id) o = &q;
                        for (int j = 0; j < 2; ++j) kept = kept && fabs(o->x[j] - p.x[j]) < 1e-3 && fabs(o->xp[j] - p.xp[j]) < 1e-3;
                        kept = kept && o->match_cost == p.match_cost && fabs(o->sigma_x - p.sigma_x) < 1e-4 && fabs(o->sigma_xp - p.sigma_xp) < 1e-4 && o->idp == p.idp;
                }
                bool same = true; for (double v : h) same = same && v == 7;
                e.str("fn", fn).i("N", N).i("nin", nin).i("kind", kind).i("it", it).i("got", got).ints("id", id).ints("mark", mark).ints("cost", cost).ints("dist", dist).ints("truth", truth).b("kept", kept).b("same", same);
        } else _exit(98);
        emit(e);
}
