// Conformance driver: image pyramids and their builders.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_image_pyr_builder.h"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
using namespace virg::nexus;

struct Cfg { std::string k; int n, steps, p, q, s0; };
static NXImagePyrBuilder *B[3];
static Cfg C[3];
static NXImagePyr *P[3];
static int fix(float f) { double v = (double)f * 65536.0; if (!(v > -1.9e9 && v < 1.9e9)) return 1999999999; return (int)llrint(v); }
static Ints pixels(const NXImage *x)
{
        Ints px;
        for (int j = 0; j < x->height; ++j)
                for (int k = 0; k < x->width; ++k)
                        px.push_back(x->dtype == NX_IMAGE_UCHAR ? x->data.uc[(long)j * x->row_stride + k]
                                                                : fix(x->data.f32[(long)j * x->row_stride + k]));
        return px;
}
static unsigned digest(const NXImagePyr *p, int px)
{
        uint64_t h = 1469598103934665603ull;
        auto add = [&](long long v) { h = (h ^ (uint64_t)v) * 1099511628211ull; };
        add(p->n_levels);
        for (int i = 0; i < (px == 2 ? std::min(1, p->n_levels) : p->n_levels); ++i) {
                const NXImagePyrLevel &l = p->levels[i];
                add(l.img->width); add(l.img->height); add(fix(l.scale)); add(fix(l.sigma));
                if (px) for (int v : pixels(l.img)) add(v);
        }
        return (unsigned)((h ^ (h >> 32)) & 0x3fffffff);
}
static int filled[3]; // 0: sizes only, 1: everything, 2: only the first level
static std::string sums()
{
        std::string r = "["; bool first = true;
        for (int p = 1; p < 3; ++p) if (P[p]) {
                Ev e; e.i("p", p).i("sum", digest(P[p], filled[p]));
                std::string t = e.done(); t.pop_back();
                if (!first) r += ","; first = false; r += t;
        }
        return r + "]";
}
static std::string levels(const NXImagePyr *p, bool px, int upto = 1000)
{
        std::string r = "[";
        for (int i = 0; i < std::min(upto, p->n_levels); ++i) {
                const NXImagePyrLevel &l = p->levels[i];
                Ev e; e.i("w", l.img->width).i("h", l.img->height).i("type", l.img->type).i("dt", l.img->dtype)
                        .i("scale", fix(l.scale)).i("sigma", (int)llrint(l.sigma * 1024.0));
                if (px) e.ints("px", pixels(l.img));
                std::string t = e.done(); t.pop_back();
                if (i) r += ","; r += t;
        }
        return r + "]";
}
static NXImage *make(int w, int h, int dt, int pad, unsigned seed, int kind)
{
        NXImage *x = nx_image_alloc();
        nx_image_resize(x, w, h, w + pad, NX_IMAGE_GRAYSCALE, dt ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
        auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (int)(seed >> 16); };
        for (int j = 0; j < h; ++j)
                for (int i = 0; i < w + pad; ++i) {
                        int v = kind == 0 ? rnd() % 256 : kind == 1 ? (i * 17 + j * 5) % 256 : kind == 2 ? ((i == w / 2 && j == h / 3) ? 255 : 0)
                                : kind == 3 ? (int)(seed % 256) : ((i / 2 + j / 2) % 2 ? 255 : 0);
                        if (i >= w) v = 200;
                        if (dt) x->data.f32[j * x->row_stride + i] = v / 256.0f; else x->data.uc[j * x->row_stride + i] = v;
                }
        return x;
}
static std::string kern(double sg)
{
        if (!(sg > 0)) return "[]";
        int len = (int)(2.0 * 4.0f * (float)sg + 1.0); if (len % 2 == 0) ++len; if (len < 3) len = 3;
        std::vector<double> k; double sum = 0;
        for (int q = 0; q <= len / 2; ++q) { k.push_back(exp(-0.5 * q * q / (sg * sg))); sum += (q ? 2 : 1) * k[q]; }
        Ints r; for (double v : k) r.push_back((int)llrint(v / sum * 65536));
        return Ev::arr(r);
}
// blur to add between one blur and the next
static double grow(double a, double b) { double d = b * b - a * a; return d > 1e-9 ? sqrt(d) : 0; }
static std::string kernels(const Cfg &c)
{
        double s0 = c.s0 / 1024.0; if (s0 < 0.5) s0 = 0.5;
        std::string r = "[" + kern(grow(0.5, s0));
        for (int i = 1; i < c.n; ++i) {
                double a = s0 * pow(2.0, (i - 1) / (double)c.steps), b = s0 * pow(2.0, i / (double)c.steps);
                double m = c.k == "fine" ? pow(0.5, (i - 1) / c.steps) : 1.0; // at the previous level's resolution
                r += "," + kern(grow(a * m, b * m));
        }
        return r + "]";
}
void begin_case(const Toks &) { for (int i = 0; i < 3; ++i) { B[i] = 0; P[i] = 0; filled[i] = false; } }
void end_case() { for (int i = 1; i < 3; ++i) { nx_image_pyr_builder_free(B[i]); nx_image_pyr_free(P[i]); } }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        Ev e(op); arm(e);
        if (op == "set") { // b kind n steps p q s0 fresh
                int b = n(1); Cfg c = { t[2], n(3), n(4), n(5), n(6), n(7) };
                float s0 = c.s0 / 1024.0f, sf = (float)c.p / c.q;
                if (n(8)) {
                        nx_image_pyr_builder_free(B[b]);
                        B[b] = c.k == "fast" ? nx_image_pyr_builder_new_fast(c.n, s0)
                                : c.k == "fine" ? nx_image_pyr_builder_new_fine(c.n / c.steps, c.steps, s0) : nx_image_pyr_builder_new_scaled(c.n, sf, s0);
                } else {
                        if (!B[b]) B[b] = nx_image_pyr_builder_alloc();
                        if (c.k == "fast") nx_image_pyr_builder_set_fast(B[b], c.n, s0);
                        else if (c.k == "fine") nx_image_pyr_builder_set_fine(B[b], c.n / c.steps, c.steps, s0);
                        else nx_image_pyr_builder_set_scaled(B[b], c.n, sf, s0);
                }
                C[b] = c;
                e.i("b", b).str("k", c.k).i("n", c.n).i("steps", c.steps).i("p", c.p).i("q", c.q).i("s0", c.s0);
        } else if (op == "build") { // b p via w h dt pad seed kind
                int b = n(1), p = n(2); const std::string &via = t[3];
                NXImage *x = make(n(4), n(5), n(6), n(7), n(8), n(9));
                Ints before = pixels(x);
                std::string lv; unsigned sum = 0;
                float s0 = C[b].s0 / 1024.0f, sf = (float)C[b].p / C[b].q;
                e.i("b", b).i("p", p).str("via", via).i("w", x->width).i("h", x->height).i("dt", x->dtype).i("pad", n(7)).ints("px", before);
                if (via == "build0") { nx_image_pyr_free(P[p]); P[p] = nx_image_pyr_builder_build0(B[b], x); }
                else if (via == "build") { if (!P[p]) P[p] = nx_image_pyr_alloc(); nx_image_pyr_builder_build(B[b], P[p], x); }
                else if (via == "update") {
                        if (!P[p]) P[p] = nx_image_pyr_alloc();
                        nx_image_pyr_alloc_levels(P[p], C[b].n);
                        nx_image_pyr_copy_to_level0(P[p], x, s0);
                        nx_image_pyr_builder_update(B[b], P[p]);
                } else { // through the class: first from something else, then from the image
                        VGImage im(x, false);
                        NXImage *o = make(n(5) + 3, n(4) + 1, 0, 0, 5, 0);
                        VGImage om(o, false);
                        const VGImage &first = via == "vg" ? im : om;
                        VGImagePyr v = C[b].k == "fast" ? VGImagePyr::build_fast_from(first, C[b].n, s0)
                                : C[b].k == "fine" ? VGImagePyr::build_fine_from(first, C[b].n / C[b].steps, C[b].steps, s0)
                                : VGImagePyr::build_scaled_from(first, C[b].n, sf, s0);
                        if (via == "vgre") v.rebuild_from(im);
                        lv = levels(v.nx_pyr(), true);
                        nx_image_free(o);
                }
                if (lv.empty()) { filled[p] = true; lv = levels(P[p], true); sum = digest(P[p], true); }
                e.b("kept", pixels(x) == before).raw("lv", lv).raw("ks", kernels(C[b])).i("sum", sum);
                nx_image_free(x);
        } else if (op == "init") { // b p w h
                int b = n(1), p = n(2);
                if (!P[p]) P[p] = nx_image_pyr_alloc();
                nx_image_pyr_builder_init_levels(B[b], P[p], n(3), n(4));
                filled[p] = false;
                e.i("b", b).i("p", p).i("w", n(3)).i("h", n(4)).raw("lv", levels(P[p], false)).i("sum", digest(P[p], false));
        } else if (op == "base") { // p n w h dt pad seed kind s0
                int p = n(1); NXImage *x = make(n(3), n(4), n(5), n(6), n(7), n(8)); Ints before = pixels(x);
                if (!P[p]) P[p] = nx_image_pyr_alloc();
                nx_image_pyr_alloc_levels(P[p], n(2)); nx_image_pyr_copy_to_level0(P[p], x, n(9) / 1024.0f);
                filled[p] = 2; std::string one = levels(P[p], true, 1);
                e.i("p", p).i("n", n(2)).i("w", x->width).i("h", x->height).i("dt", x->dtype).i("s0", n(9)).ints("px", before).b("kept", pixels(x) == before).i("levels", P[p]->n_levels).raw("lv", one).i("sum", digest(P[p], 2));
                nx_image_free(x);
        } else if (op == "clear") { int p = n(1); if (!P[p]) P[p] = nx_image_pyr_alloc(); nx_image_pyr_free_levels(P[p]); filled[p] = 0; e.i("p", p).i("levels", P[p]->n_levels).b("none", P[p]->levels == NULL).i("sum", digest(P[p], 0));
        } else if (op == "drop") { nx_image_pyr_free(P[n(1)]); P[n(1)] = 0; filled[n(1)] = false; e.i("p", n(1)); }
        else _exit(98);
        e.raw("sums", sums());
        emit(e);
}
