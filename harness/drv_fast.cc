// Conformance driver: FAST corners, scores, suppression, the detector object.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_fast_detector.h"

static NXFastDetector *D[3];
static int fix(float f) { double v = (double)f * 65536.0; if (!(v > -1.9e9 && v < 1.9e9)) return 1999999999; return (int)llrint(v); }
static int whole(float f) { return (f == (float)(int)f) ? (int)f : -777; }
static const int RX[16] = { 0, 1, 2, 3, 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1 };
static const int RY[16] = { 3, 3, 2, 1, 0, -1, -2, -3, -3, -3, -2, -1, 0, 1, 2, 3 };

static std::string keys(const std::vector<NXKeypoint> &k, int n)
{
        std::string r = "[";
        for (int i = 0; i < n; ++i) {
                Ev e;
                e.i("x", k[i].x).i("y", k[i].y).i("xs", whole(k[i].xs)).i("ys", whole(k[i].ys)).i("level", k[i].level)
                        .i("scale", fix(k[i].scale)).i("sigma", fix(k[i].sigma)).i("score", whole(k[i].score))
                        .i("c", (int)llrint(cos((double)k[i].ori) * 10000)).i("s", (int)llrint(sin((double)k[i].ori) * 10000))
                        .i("id", k[i].id > 1000000 ? -1 : (int)k[i].id);
                std::string t = e.done(); t.pop_back();
                if (i) r += ","; r += t;
        }
        return r + "]";
}
static Ints pixels(const NXImage *x)
{
        Ints px;
        for (int j = 0; j < x->height; ++j) for (int k = 0; k < x->width; ++k) px.push_back(x->data.uc[(long)j * x->row_stride + k]);
        return px;
}
static void fill(NXImage *x, int w, int h, int pad, unsigned seed, int kind)
{
        nx_image_resize(x, w, h, w + pad, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
        auto rnd = [&]() { seed = seed * 1664525u + 1013904223u; return (int)(seed >> 16) & 0x7fff; };
        int lo = rnd() % 256, hi = rnd() % 256, cx = rnd() % (w ? w : 1), cy = rnd() % (h ? h : 1);
        for (int j = 0; j < h; ++j)
                for (int i = 0; i < w + pad; ++i) {
                        int v = 0;
                        switch (kind) {
                        case 0: v = rnd() % 256; break;                          // noise
                        case 1: v = (i >= cx && j >= cy) ? hi : lo; break;       // one quadrant
                        case 2: v = ((i / 3 + j / 3) % 2) ? 200 + rnd() % 9 : 50 + rnd() % 9; break;
                        case 3: v = (abs(i - cx) <= 1 && abs(j - cy) <= 1) ? hi : lo + rnd() % 3; break;   // spot
                        case 4: v = (rnd() % 12 == 0) ? hi : lo; break;          // sparse dots
                        case 5: v = (i * i + j * 3 * i + seed) % 256; break;
                        default: v = (rnd() % 5 == 0) ? rnd() % 256 : 128; break;
                        }
                        if (i >= w) v = 255 - lo;
                        x->data.uc[(long)j * x->row_stride + i] = (unsigned char)v;
                }
}
static std::vector<NXKeypoint> fresh(int n)
{
        std::vector<NXKeypoint> k(n > 0 ? n : 1);
        memset(k.data(), 0x5a, k.size() * sizeof(NXKeypoint));
        return k;
}
void begin_case(const Toks &) { D[1] = D[2] = 0; }
void end_case() { nx_fast_detector_free(D[1]); nx_fast_detector_free(D[2]); }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        Ev e(op); arm(e);
        if (op == "rings") { // which pre: every symbolic ring starting with pre, through the segment test or the score
                std::string which = t[1]; Ints pre = nums(t[2]);
                e.str("which", which).ints("pre", pre);
                NXImage *x = nx_image_alloc();
                nx_image_resize(x, 7, 7, which == "detectp" ? 11 : 7, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
                int st = x->row_stride;
                unsigned char *c = x->data.uc + 3 * st + 3;
                for (int i = 0; i < 7 * st; ++i) x->data.uc[i] = 128;
                unsigned char lv[3] = { 128, 228, 28 };
                unsigned char *q[16];
                int p3[17]; p3[0] = 1; for (int k = 0; k < 16; ++k) { q[k] = c + RY[k] * st + RX[k]; p3[k + 1] = p3[k] * 3; }
                int m = pre.size(), odd = 0; Ints acc;
                int base = 0; for (int k = 0; k < m; ++k) { *q[k] = lv[pre[k]]; base += pre[k] * p3[k]; }
                NXKeypoint key; memset(&key, 0, sizeof key);
                for (int r = 0; r < p3[16 - m]; ++r) {
                        // the free places hold the digits of r, place m lowest
                        for (int k = m, v = r; k < 16; ++k) { unsigned char z = lv[v % 3]; if (*q[k] == z) { } else *q[k] = z; v /= 3; }
                        bool is;
                        if (which == "score") {
                                key.x = 3; key.y = 3; key.score = -5;
                                nx_fast_score_keypoints(1, &key, x, 50);
                                is = key.score == 99.0f;
                                if (!is && key.score != 50.0f) ++odd;
                        } else {
                                int c = nx_fast_detect_keypoints(1, &key, x, 50);
                                is = c == 1;
                                if (is && (key.x != 3 || key.y != 3)) ++odd;
                                if (c != 0 && c != 1) ++odd;
                        }
                        if (is) acc.push_back(base + r * p3[m]);
                        if (acc.size() > 20000) break;
                }
                e.ints("acc", acc).i("odd", odd);
                nx_image_free(x);
        } else if (op == "detect") { // w h pad seed kind b max
                NXImage *x = nx_image_alloc(); fill(x, n(1), n(2), n(3), n(4), n(5));
                Ints px = pixels(x);
                e.i("w", n(1)).i("h", n(2)).ints("px", px).i("b", n(6)).i("max", n(7));
                auto k = fresh(n(7));
                int c = nx_fast_detect_keypoints(n(7), k.data(), x, n(6));
                auto k2 = k;
                nx_fast_score_keypoints(c, k2.data(), x, n(6));
                Ints sc; for (int i = 0; i < c; ++i) sc.push_back(whole(k2[i].score));
                e.raw("ks", keys(k, c)).ints("sc", sc).b("kept", pixels(x) == px);
                nx_image_free(x);
        } else if (op == "supp") { // max x,y,s ...
                std::vector<NXKeypoint> in = fresh((int)t.size() - 2); std::string l = "[";
                for (size_t i = 2; i < t.size(); ++i) {
                        Ints p = nums(t[i]); NXKeypoint &k = in[i - 2];
                        k.x = p[0]; k.y = p[1]; k.score = p[2]; k.id = 1000 + i; k.ori = 0; k.xs = p[0]; k.ys = p[1]; k.scale = 1; k.sigma = 0; k.level = 0;
                        if (i > 2) l += ","; l += Ev::arr(p);
                }
                e.i("max", n(1)).raw("in", l + "]");
                auto k = fresh(n(1));
                int c = nx_fast_suppress_keypoints(n(1), k.data(), (int)t.size() - 2, in.data());
                e.raw("ks", keys(k, c));
        } else if (op == "new") { nx_fast_detector_free(D[n(1)]); D[n(1)] = nx_fast_detector_alloc(); e.i("d", n(1)); }
        else if (op == "free") { nx_fast_detector_free(D[n(1)]); D[n(1)] = 0; e.i("d", n(1)); }
        else if (op == "thr") { D[n(1)]->threshold = n(2); e.i("d", n(1)).i("b", n(2)); }
        else if (op == "ori") { // d on radius
                nx_fast_detector_set_ori_param(D[n(1)], n(2) ? NX_TRUE : NX_FALSE, n(3)); e.i("d", n(1)).i("r", n(2) ? n(3) : 0);
        } else if (op == "adapt") { nx_fast_detector_adapt_threshold(D[n(1)], n(2), n(3)); e.i("d", n(1)).i("n", n(2)).i("max", n(3)); }
        else if (op == "run") { // d w h pad seed kind max
                NXImage *x = nx_image_alloc(); fill(x, n(2), n(3), n(4), n(5), n(6));
                Ints px = pixels(x);
                e.i("d", n(1)).i("w", n(2)).i("h", n(3)).ints("px", px).i("max", n(7)).i("work", n(7) * (int)D[n(1)]->work_multiplier);
                auto k = fresh(n(7));
                int c = nx_fast_detector_detect(D[n(1)], n(7), k.data(), x);
                e.raw("ks", keys(k, c)).b("kept", pixels(x) == px);
                nx_image_free(x);
        } else if (op == "pyr" || op == "cpyr") { // d levels w h pad seed kind max use [b work]
                NXImagePyr *p = nx_image_pyr_alloc(); int L = n(2);
                nx_image_pyr_alloc_levels(p, L);
                std::string lv = "["; std::vector<Ints> before;
                for (int i = 0; i < L; ++i) {
                        fill(p->levels[i].img, n(3) - 2 * i, n(4) - i, i == 1 ? n(5) : 0, n(6) + i, n(7));
                        p->levels[i].scale = 1.0f + 0.5f * i; p->levels[i].sigma = 0.5f + 0.25f * i;
                        before.push_back(pixels(p->levels[i].img));
                        Ev o; o.i("w", n(3) - 2 * i).i("h", n(4) - i).ints("px", before.back())
                                .i("scale", fix(p->levels[i].scale)).i("sigma", fix(p->levels[i].sigma));
                        std::string q = o.done(); q.pop_back();
                        if (i) lv += ","; lv += q;
                }
                e.raw("lv", lv + "]").i("max", n(8)).i("use", n(9));
                auto k = fresh(n(8)); int c;
                if (op == "pyr") {
                        e.i("d", n(1)).i("work", n(8) * (int)D[n(1)]->work_multiplier);
                        c = nx_fast_detector_detect_pyr(D[n(1)], n(8), k.data(), p, n(9));
                } else {
                        auto wk = fresh(n(11));
                        e.i("b", n(10)).i("work", n(11));
                        c = nx_fast_detect_keypoints_pyr(n(8), k.data(), n(11), wk.data(), p, n(10), n(9));
                }
                bool kept = true; for (int i = 0; i < L; ++i) kept = kept && pixels(p->levels[i].img) == before[i];
                e.raw("ks", keys(k, c)).b("kept", kept);
                nx_image_pyr_free(p);
        } else _exit(98);
        std::string ds = "["; bool f = true;
        for (int i = 1; i < 3; ++i) if (D[i]) { if (!f) ds += ","; f = false; ds += Ev::arr(Ints{ i, D[i]->threshold }); }
        e.raw("ds", ds + "]");
        emit(e);
}
