// Conformance driver: Harris corners and the detector class.
#include <algorithm>
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_harris_detector.h"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
#include "virg/nexus/vg_harris_detector.hpp"
using namespace virg::nexus;

static int fix(float f) { double v = (double)f * 65536.0; if (!(v > -1.9e9 && v < 1.9e9)) return 1999999999; return (int)llrint(v); }
static int whole(double f, double unit) { double v = f * unit; return (fabs(v) < 2e9 && v == (double)llrint(v)) ? (int)llrint(v) : -1999999999; }
static float dec(int v, const char *e) { char b[40]; snprintf(b, 40, "%d%s", v, e); return strtof(b, 0); }
struct Det { VGHarrisDetector *h = 0; int sig = 1200, k = 60; Ints chain{ 5000 }; float thr = dec(5000, "e-9"); };
static Det D[3];

static Ints pixels(const NXImage *x)
{
        Ints px;
        for (int j = 0; j < x->height; ++j) for (int k = 0; k < x->width; ++k) px.push_back(x->data.uc[(long)j * x->row_stride + k]);
        return px;
}
static std::vector<float> fpix(const NXImage *x)
{
        std::vector<float> px;
        for (int j = 0; j < x->height; ++j) for (int k = 0; k < x->width; ++k) px.push_back(x->data.f32[(long)j * x->row_stride + k]);
        return px;
}
static void fill(NXImage *x, int w, int h, int pad, unsigned seed, int kind)
{
        nx_image_resize(x, w, h, w + pad, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
        auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (int)(seed >> 16) & 0x7fff; };
        int lo = rnd() % 256, hi = rnd() % 256, cx = rnd() % w, cy = rnd() % h;
        for (int j = 0; j < h; ++j)
                for (int i = 0; i < w + pad; ++i) {
                        int v;
                        switch (kind) {
                        case 0: v = rnd() % 256; break;
                        case 1: v = (i >= cx && j >= cy) ? hi : lo; break;
                        case 2: v = ((i / 3 + j / 4) % 2) ? 210 : 40; break;
                        case 3: v = (rnd() % 9 == 0) ? hi : lo; break;
                        default: v = (i * 11 + j * 23) % 256; break;
                        }
                        if (i >= w) v = 255 - lo;
                        x->data.uc[(long)j * x->row_stride + i] = (unsigned char)v;
                }
}
typedef int (*Sc)(float);
static std::vector<float> g_rank;
static int rank_of(float f) { auto it = std::lower_bound(g_rank.begin(), g_rank.end(), f); return (it != g_rank.end() && *it == f) ? (int)(it - g_rank.begin()) : -7; }
static int as_int(float f) { return whole(f, 1); }
static std::string keys(const NXKeypoint *k, int n, Sc sc)
{
        std::string r = "[";
        for (int i = 0; i < n; ++i) {
                Ev e;
                e.i("x", k[i].x).i("y", k[i].y).i("xs", whole(k[i].xs, 1)).i("ys", whole(k[i].ys, 1)).i("level", k[i].level)
                        .i("scale", fix(k[i].scale)).i("sigma", fix(k[i].sigma)).i("score", sc(k[i].score)).i("ori", fix(k[i].ori))
                        .i("id", k[i].id > 1000000 ? -1 : (int)k[i].id);
                std::string t = e.done(); t.pop_back();
                if (i) r += ","; r += t;
        }
        return r + "]";
}
static Ints kern(double sg)
{
        Ints r;
        if (!(sg > 0)) return r;
        int len = (int)(2.0 * 3.0f * (float)sg + 1.0); if (len % 2 == 0) ++len; if (len < 3) len = 3;
        std::vector<double> k; double sum = 0;
        for (int q = 0; q <= len / 2; ++q) { k.push_back(exp(-0.5 * q * q / (sg * sg))); sum += (q ? 2 : 1) * k[q]; }
        for (double v : k) r.push_back((int)llrint(v / sum * 4096));
        return r;
}
static std::vector<float> scores(const NXImage *x, int sig, int k)
{
        NXImage *d[3] = { 0, 0, 0 }, *s = nx_image_alloc();
        nx_harris_deriv_images(d, x, dec(sig, "e-3"));
        nx_harris_score_image(s, d, dec(k, "e-3"));
        std::vector<float> r = fpix(s);
        for (int i = 0; i < 3; ++i) nx_image_free(d[i]);
        nx_image_free(s);
        return r;
}
static int factor(int n, int max)
{
        if (10 * n > 17 * max) return 400; if (10 * n > 14 * max) return 190; if (10 * n > 11 * max) return 120; if (n > max) return 102;
        if (2 * n < max) return 25; if (10 * n < 9 * max) return 60; if (100 * n < 95 * max) return 90; if (100 * n < 99 * max) return 97;
        return 100;
}
static void follow(Det &d, int n, int max) // the specification decides whether this is right
{
        int f = factor(n, max);
        if (f == 100) return;
        d.chain.push_back(f); d.thr *= dec(f, "e-2");
}
void begin_case(const Toks &) { for (int i = 0; i < 3; ++i) D[i] = Det(); }
void end_case() { for (int i = 0; i < 3; ++i) delete D[i].h; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        Ev e(op); arm(e);
        if (op == "max") { // w h pad thr max px
                int w = n(1), h = n(2); Ints px = nums(t[6]);
                NXImage *s = nx_image_alloc();
                nx_image_resize(s, w, h, w + n(3), NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32);
                for (int j = 0; j < h; ++j) for (int i = 0; i < w + n(3); ++i) s->data.f32[j * s->row_stride + i] = i < w ? px[j * w + i] : 1000;
                e.i("w", w).i("h", h).ints("px", px).i("thr", n(4)).i("max", n(5));
                std::vector<NXKeypoint> k(n(5) > 0 ? n(5) : 1); memset(k.data(), 0x5a, k.size() * sizeof k[0]);
                int c = nx_harris_detect_keypoints(n(5), k.data(), s, n(4));
                e.raw("ks", keys(k.data(), c, as_int));
                nx_image_free(s);
        } else if (op == "score") { // w h kn seed oldw oldh
                int w = n(1), h = n(2); unsigned seed = n(4);
                NXImage *d[3], *s = nx_image_alloc(); Ints v[3];
                if (n(5) > 0) nx_image_resize(s, n(5), n(6), n(5) + 2, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
                for (int c = 0; c < 3; ++c) {
                        d[c] = nx_image_alloc();
                        nx_image_resize(d[c], w, h, w + c, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32);
                        for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) {
                                seed = seed * 1664525u + 1013904223u;
                                int z = (int)((seed >> 16) % 101) - (c == 2 ? 50 : 0);
                                d[c]->data.f32[j * d[c]->row_stride + i] = z; v[c].push_back(z);
                        }
                }
                nx_harris_score_image(s, d, n(3) / 16.0f);
                Ints r; for (float f : fpix(s)) r.push_back(whole(f, 16));
                e.i("w", w).i("h", h).i("kn", n(3)).ints("a", v[0]).ints("b", v[1]).ints("c", v[2]).i("sw", s->width).i("sh", s->height).ints("s", r);
                for (int c = 0; c < 3; ++c) nx_image_free(d[c]);
                nx_image_free(s);
        } else if (op == "deriv") { // w h pad seed kind sig reuse
                NXImage *x = nx_image_alloc(); fill(x, n(1), n(2), n(3), n(4), n(5));
                NXImage *d[3] = { 0, 0, 0 };
                if (n(7)) for (int i = 0; i < 3; ++i) { d[i] = nx_image_alloc(); nx_image_resize(d[i], 3 + i, 4, 9, NX_IMAGE_GRAYSCALE, i == 1 ? NX_IMAGE_UCHAR : NX_IMAGE_FLOAT32); }
                Ints px = pixels(x);
                nx_harris_deriv_images(d, x, dec(n(6), "e-3"));
                std::string dv = "[";
                for (int i = 0; i < 3; ++i) { Ints r; for (float f : fpix(d[i])) r.push_back((int)llrint((double)f * 65025.0)); if (i) dv += ","; dv += Ev::arr(r); }
                e.i("w", n(1)).i("h", n(2)).ints("px", px).ints("kern", kern(n(6) / 1000.0)).i("dw", d[0]->width).i("dh", d[0]->height).raw("dv", dv + "]").b("kept", pixels(x) == px);
                for (int i = 0; i < 3; ++i) nx_image_free(d[i]);
                nx_image_free(x);
        } else if (op == "new") { delete D[n(1)].h; D[n(1)] = Det(); D[n(1)].h = new VGHarrisDetector(); e.i("d", n(1)); }
        else if (op == "free") { delete D[n(1)].h; D[n(1)] = Det(); e.i("d", n(1)); }
        else if (op == "setthr") { Det &d = D[n(1)]; d.thr = dec(n(2), "e-9"); d.chain = Ints{ n(2) }; d.h->set_threshold(d.thr); e.i("d", n(1)).i("v", n(2)); }
        else if (op == "tune") { // d w h pad seed kind percent: the threshold below which that part of the image's scores lies
                Det &d = D[n(1)]; NXImage *x = nx_image_alloc(); fill(x, n(2), n(3), n(4), n(5), n(6));
                std::vector<float> s = scores(x, d.sig, d.k); nx_image_free(x); std::sort(s.begin(), s.end());
                double q = (double)s[(s.size() - 1) * n(7) / 100] * 1e9; int v = q < 1 ? 1 : q > 1.9e9 ? 1900000000 : (int)q;
                d.thr = dec(v, "e-9"); d.chain = Ints{ v }; d.h->set_threshold(d.thr); Ev z("setthr"); z.i("d", n(1)).i("v", v); emit(z); return;
        }
        else if (op == "setsig") { Det &d = D[n(1)]; d.sig = n(2); d.h->set_sigma_win(dec(n(2), "e-3")); e.i("d", n(1)).i("v", n(2)); }
        else if (op == "setk") { Det &d = D[n(1)]; d.k = n(2); d.h->set_k(dec(n(2), "e-3")); e.i("d", n(1)).i("v", n(2)); }
        else if (op == "det") { // d w h pad seed kind max adapt
                Det &d = D[n(1)];
                NXImage *x = nx_image_alloc(); fill(x, n(2), n(3), n(4), n(5), n(6));
                Ints px = pixels(x);
                std::vector<float> s = scores(x, d.sig, d.k);
                int mx = n(7);
                if (mx < 0) { // as many as make the maxima that percentage, as nearly as an odd number no multiple of five can
                        NXImage *q = nx_image_alloc(); nx_image_resize(q, n(2), n(3), 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32);
                        for (int j = 0; j < n(3); ++j) for (int i = 0; i < n(2); ++i) q->data.f32[j * q->row_stride + i] = s[j * n(2) + i];
                        std::vector<NXKeypoint> all(500); int c = nx_harris_detect_keypoints(500, all.data(), q, d.thr); nx_image_free(q);
                        int best = 1; for (int m = 1; m < 60; m += 2) if (m % 5 && abs(100 * c + mx * m) < abs(100 * c + mx * best)) best = m;
                        mx = best;
                }
                g_rank = s; g_rank.push_back(d.thr); std::sort(g_rank.begin(), g_rank.end()); g_rank.erase(std::unique(g_rank.begin(), g_rank.end()), g_rank.end());
                Ints r; for (float f : s) r.push_back(rank_of(f));
                VGImage im(x, false);
                std::vector<NXKeypoint> k(n(5) % 5);
                e.i("d", n(1)).i("w", n(2)).i("h", n(3)).ints("px", r).i("thr", rank_of(d.thr)).i("max", mx).b("adapt", n(8)).i("sig", d.sig).i("k", d.k).ints("chain", d.chain);
                // how many maxima there are, found with room for all of them
                NXImage *simg = nx_image_alloc(); nx_image_resize(simg, n(2), n(3), 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32);
                for (int j = 0; j < n(3); ++j) for (int i = 0; i < n(2); ++i) simg->data.f32[j * simg->row_stride + i] = s[j * n(2) + i];
                std::vector<NXKeypoint> all(2 * mx);
                int cnt = nx_harris_detect_keypoints(2 * mx, all.data(), simg, d.thr);
                nx_image_free(simg);
                int c = d.h->detect(im, k, mx, n(8));
                e.raw("ks", keys(k.data(), (int)k.size(), rank_of)).i("n", c).b("kept", pixels(x) == px);
                if (n(8)) follow(d, cnt, mx);
                nx_image_free(x);
        } else if (op == "pyr") { // d levels w h seed kind max adapt use
                Det &d = D[n(1)]; int L = n(2);
                NXImage *x = nx_image_alloc(); fill(x, n(3), n(4), 0, n(5), n(6));
                VGImage im(x, false);
                VGImagePyr p = n(5) % 2 ? VGImagePyr::build_fast_from(im, L, 0.5f) : VGImagePyr::build_scaled_from(im, L, 1.25f, 0.5f);
                std::vector<std::vector<float>> s; std::vector<Ints> px;
                g_rank.clear(); g_rank.push_back(d.thr);
                for (int i = 0; i < L; ++i) { px.push_back(pixels(p.nx_pyr()->levels[i].img)); s.push_back(scores(p.nx_pyr()->levels[i].img, d.sig, d.k)); g_rank.insert(g_rank.end(), s[i].begin(), s[i].end()); }
                std::sort(g_rank.begin(), g_rank.end()); g_rank.erase(std::unique(g_rank.begin(), g_rank.end()), g_rank.end());
                std::string lv = "["; int cnt = 0, use = n(9);
                for (int i = 0; i < L; ++i) {
                        Ints r; for (float f : s[i]) r.push_back(rank_of(f));
                        const NXImagePyrLevel &q = p.nx_pyr()->levels[i];
                        Ev o; o.i("w", q.img->width).i("h", q.img->height).ints("px", r).i("scale", fix(q.scale)).i("sigma", fix(q.sigma));
                        std::string z = o.done(); z.pop_back(); if (i) lv += ","; lv += z;
                }
                for (int i = use - 1; i >= 0; --i) {
                        const NXImagePyrLevel &q = p.nx_pyr()->levels[i];
                        NXImage *simg = nx_image_alloc(); nx_image_resize(simg, q.img->width, q.img->height, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_FLOAT32);
                        for (size_t j = 0; j < s[i].size(); ++j) simg->data.f32[j / q.img->width * simg->row_stride + j % q.img->width] = s[i][j];
                        std::vector<NXKeypoint> all(2 * n(7) - cnt + 1);
                        if (2 * n(7) > cnt) cnt += nx_harris_detect_keypoints(2 * n(7) - cnt, all.data(), simg, d.thr);
                        nx_image_free(simg);
                }
                std::vector<NXKeypoint> k(n(5) % 5);
                e.i("d", n(1)).raw("lv", lv + "]").i("thr", rank_of(d.thr)).i("max", n(7)).b("adapt", n(8)).i("use", use).i("sig", d.sig).i("k", d.k).ints("chain", d.chain);
                int c = d.h->detect_pyr(p, k, use, n(7), n(8));
                bool kept = true; for (int i = 0; i < L; ++i) kept = kept && pixels(p.nx_pyr()->levels[i].img) == px[i];
                e.raw("ks", keys(k.data(), (int)k.size(), rank_of)).i("n", c).b("kept", kept);
                if (n(8)) follow(d, cnt, n(7));
                nx_image_free(x);
        } else _exit(98);
        emit(e);
}
