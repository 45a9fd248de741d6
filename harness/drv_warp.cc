// Conformance driver: warps, rotations, planar transforms, the warp processor.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_transform_2d.h"
#include "virg/nexus/nx_affine_warp_processor.h"
static NXAffineWarpProcessor *wp;
void begin_case(const Toks &) { wp = nullptr; }
void end_case() { nx_affine_warp_processor_free(wp); }
static int R(double v) { return (v == v && fabs(v) < 1e9) ? (int)llrint(v) : 1999999999; }
static std::string list(const std::vector<Ints> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + Ev::arr(v[i]); return s + "]"; }
static double ang(const Ints &a) { return atan2((double)a[1] / a[2], (double)a[0] / a[2]); }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        if (op == "warp") { // w h pixels stride dw dh dstride t(6, quarters) mode
                int w = num(t[1]), h = num(t[2]); Ints p = nums(t[3]); int st = w + num(t[4]), dw = num(t[5]), dh = num(t[6]), ds = dw + num(t[7]); Ints q = nums(t[8]); int mode = num(t[9]);
                e.i("w", w).i("h", h).ints("p", p).i("dw", dw).i("dh", dh).ints("t", q).i("mode", mode); arm(e);
                // exact allocations, rows padded with a value no pixel has
                uchar *s = (uchar *)malloc((h - 1) * st + w), *d = (uchar *)malloc((dh - 1) * ds + dw); memset(s, 137, (h - 1) * st + w); memset(d, 91, (dh - 1) * ds + dw);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) s[y * st + x] = p[y * w + x];
                float m[9] = { q[0] / 4.0f, q[1] / 4.0f, 0, q[2] / 4.0f, q[3] / 4.0f, 0, q[4] / 4.0f, q[5] / 4.0f, 1 };
                nx_image_warp_affine_bilinear(dw, dh, d, ds, w, h, s, st, m, (NXImageWarpBackgroundMode)mode);
                Ints r; bool g = true; for (int y = 0; y < dh; ++y) for (int x = 0; x < ds; ++x) { if (y == dh - 1 && x >= dw) break; if (x < dw) r.push_back(d[y * ds + x]); else g = g && d[y * ds + x] == 91; }
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) g = g && s[y * st + x] == p[y * w + x];
                e.ints("r", r).b("guard", g); free(s); free(d);
        } else if (op == "rot45") { // kind cw w h dw dh pixels
                bool f = t[1] == "f", cw = t[2] == "1"; int w = num(t[3]), h = num(t[4]), dw = num(t[5]), dh = num(t[6]); Ints p = nums(t[7]);
                e.str("kind", t[1]).b("cw", cw).i("w", w).i("h", h).i("dw", dw).i("dh", dh).ints("p", p); arm(e);
                NXImage *s = nx_image_alloc(), *d = nx_image_alloc(); NXImageDataType dt = f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR;
                nx_image_resize(s, w, h, w + 3, NX_IMAGE_GRAYSCALE, dt); nx_image_resize(d, dw, dh, dw + 2, NX_IMAGE_GRAYSCALE, dt);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (f) s->data.f32[y * s->row_stride + x] = p[y * w + x] / 256.0f; else s->data.uc[y * s->row_stride + x] = p[y * w + x];
                nx_image_rotate45(d, s, cw ? NX_TRUE : NX_FALSE);
                Ints r; for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x) r.push_back(f ? R(256 * d->data.f32[y * d->row_stride + x]) : d->data.uc[y * d->row_stride + x]);
                e.ints("r", r).b("guard", true); nx_image_free(s); nx_image_free(d);
        } else if (op == "sim" || op == "aff") { // kind lam a|psi q phi post pre
                bool f = t[1] == "s"; int lam = num(t[2]); double M[9]; float m[9]; for (double &v : M) v = 55; for (float &v : m) v = 55;
                if (op == "sim") {
                        Ints a = nums(t[3]), po = nums(t[4]), pr = nums(t[5]); e.i("lam", lam).ints("a", a).ints("post", po).ints("pre", pr); arm(e);
                        nx_transform_2d_fill_similarity_d(M, po[0], po[1], lam, ang(a), pr[0], pr[1]); if (f) { nx_transform_2d_fill_similarity_s(m, po[0], po[1], lam, ang(a), pr[0], pr[1]); for (int i = 0; i < 9; ++i) M[i] = m[i]; }
                } else {
                        Ints a = nums(t[3]); int q = num(t[4]); Ints b = nums(t[5]), po = nums(t[6]), pr = nums(t[7]); e.i("lam", lam).ints("psi", a).i("q", q).ints("phi", b).ints("post", po).ints("pre", pr); arm(e);
                        double th = acos(1.0 / q);
                        nx_transform_2d_fill_affine_d(M, po[0], po[1], lam, ang(a), th, ang(b), pr[0], pr[1]); if (f) { nx_transform_2d_fill_affine_s(m, po[0], po[1], lam, ang(a), th, ang(b), pr[0], pr[1]); for (int i = 0; i < 9; ++i) M[i] = m[i]; }
                }
                Ints r; for (double v : M) r.push_back(R(1000 * v)); e.ints("r", r);
        } else if (op == "persp") { // kind corners
                bool f = t[1] == "s"; Ints c = nums(t[2]); std::vector<Ints> cc; for (int i = 0; i < 4; ++i) cc.push_back({ c[2 * i], c[2 * i + 1] });
                e.raw("c", list(cc)).i("tol", f ? 40 : 2); arm(e); double C[8], M[9]; float cs[8], ms[9]; for (int i = 0; i < 8; ++i) cs[i] = C[i] = c[i];
                nx_transform_2d_fill_perspective_d(M, C); if (f) { nx_transform_2d_fill_perspective_s(ms, cs); for (int i = 0; i < 9; ++i) M[i] = ms[i]; }
                std::vector<Ints> r; for (int i = 0; i < 4; ++i) { double z = M[2] * C[2 * i] + M[5] * C[2 * i + 1] + M[8]; r.push_back({ R(1000 * (M[0] * C[2 * i] + M[3] * C[2 * i + 1] + M[6]) / z), R(1000 * (M[1] * C[2 * i] + M[4] * C[2 * i + 1] + M[7]) / z) }); }
                e.raw("r", list(r));
        } else if (op == "proc") { // w h base gx gy sc psi tilt phi post bg col
                int w = num(t[1]), h = num(t[2]), base = num(t[3]), gx = num(t[4]), gy = num(t[5]), sc = num(t[6]); Ints psi = nums(t[7]); int tilt = num(t[8]); Ints phi = nums(t[9]); int post = num(t[10]), col = num(t[12]);
                e.i("w", w).i("h", h).i("base", base).i("gx", gx).i("gy", gy).i("sc", sc).ints("psi", psi).i("tilt", tilt).ints("phi", phi).i("post", post).str("bg", t[11]).i("col", col); arm(e);
                NXImage *s = nx_image_alloc(); nx_image_resize(s, w, h, w + 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); memset(s->data.uc, 200, s->row_stride * h);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) s->data.uc[y * s->row_stride + x] = base + gx * x + gy * y;
                if (!wp) wp = nx_affine_warp_processor_new();
                if (t[11] == "fixed") nx_affine_warp_processor_set_bg_fixed(wp, col); else if (t[11] == "repeat") nx_affine_warp_processor_set_bg_repeat(wp); else nx_affine_warp_processor_set_bg_noise(wp);
                nx_affine_warp_processor_set_post_blur_sigma(wp, post);
                NXAffineWarpParam pm = { sc / 2.0, ang(psi), (double)tilt, ang(phi) }; nx_affine_warp_processor_warp(wp, s, pm);
                const NXImage *d = nx_affine_warp_processor_warp_result(wp); Ints r, fw, iv; for (int y = 0; y < d->height; ++y) for (int x = 0; x < d->width; ++x) r.push_back(d->data.uc[y * d->row_stride + x]);
                for (int i = 0; i < 6; ++i) { fw.push_back(R(1000 * nx_affine_warp_processor_forward_transform(wp)[i])); iv.push_back(R(1000 * nx_affine_warp_processor_inverse_transform(wp)[i])); }
                bool kept = true; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) kept = kept && s->data.uc[y * s->row_stride + x] == base + gx * x + gy * y;
                e.i("rw", d->width).i("rh", d->height).ints("fwd", fw).ints("inv", iv).ints("r", r).b("kept", kept); nx_image_free(s);
        } else if (op == "edge") { // axis(0: along x) sc tilt post: how far a step of height 200 is spread
                int ax = num(t[1]), sc = num(t[2]), tilt = num(t[3]), post = num(t[4]), n = 80; e.i("ax", ax).i("sc", sc).i("tilt", tilt).i("post", post); arm(e);
                NXImage *s = nx_image_alloc(); nx_image_resize(s, n, n, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) s->data.uc[y * s->row_stride + x] = (ax ? y : x) >= n / 2 ? 220 : 20;
                if (!wp) wp = nx_affine_warp_processor_new();
                nx_affine_warp_processor_set_bg_fixed(wp, 0); nx_affine_warp_processor_set_post_blur_sigma(wp, post);
                NXAffineWarpParam pm = { sc / 2.0, 0, (double)tilt, 0 }; nx_affine_warp_processor_warp(wp, s, pm); const NXImage *d = nx_affine_warp_processor_warp_result(wp);
                Ints line; int len = ax ? d->height : d->width; for (int i = 0; i < len; ++i) line.push_back(ax ? d->data.uc[i * d->row_stride + d->width / 2] : d->data.uc[(d->height / 2) * d->row_stride + i]);
                e.ints("r", line); nx_image_free(s);
        } else _exit(98);
        emit(e);
}
