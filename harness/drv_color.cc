// Conformance driver: gray / color conversion and color maps.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_colorspace.h"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_color_map.hpp"
using namespace virg::nexus;
void begin_case(const Toks &) {}
void end_case() {}
static const char *MAPS[5] = { "gray", "viridis", "plasma", "magma", "cubehelix" };
static const NXColorMap NXM[5] = { NX_COLOR_MAP_GRAY, NX_COLOR_MAP_VIRIDIS, NX_COLOR_MAP_PLASMA, NX_COLOR_MAP_MAGMA, NX_COLOR_MAP_CUBEHELIX };
static const VGColorMap::Type VGM[5] = { VGColorMap::GRAY, VGColorMap::VIRIDIS, VGColorMap::PLASMA, VGColorMap::MAGMA, VGColorMap::CUBEHELIX };
static int R(double v) { return (v == v && fabs(v) < 1e9) ? (int)llrint(v) : 1999999999; }
template <class T> static T *plane(int w, int h, int st, T fill) { size_t n = (size_t)(h - 1) * st + w; T *p = (T *)malloc(n * sizeof(T)); for (size_t i = 0; i < n; ++i) p[i] = fill; return p; }
template <class T> static Ints take(const T *p, int w, int h, int st, T fill, double scale, bool *ok)
{
        Ints r; for (int y = 0; y < h; ++y) for (int x = 0; x < st; ++x) { if (x < w) r.push_back(R(scale * p[y * st + x])); else if (y < h - 1) *ok = *ok && p[y * st + x] == fill; } return r;
}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        if (op == "torgba" || op == "togray" || op == "torgbaf" || op == "tograyf") { // w h pad_gray pad_rgba values
                int w = num(t[1]), h = num(t[2]), gs = w + num(t[3]), cs = 4 * w + num(t[4]); Ints v = nums(t[5]); bool ok = true, back = op.compare(0, 6, "torgba") == 0;
                e.ints(back ? "g" : "c", v); arm(e); int sw = back ? w : 4 * w, ss = back ? gs : cs, dw = back ? 4 * w : w, ds = back ? cs : gs;
                if (op.back() != 'f') {
                        uchar *s = plane<uchar>(sw, h, ss, 33), *d = plane<uchar>(dw, h, ds, 77); for (int y = 0; y < h; ++y) for (int x = 0; x < sw; ++x) s[y * ss + x] = v[y * sw + x];
                        if (back) nx_convert_gray_to_rgba_uc(w, h, d, ds, s, ss); else nx_convert_rgba_to_gray_uc(w, h, d, ds, s, ss);
                        Ints r = take<uchar>(d, dw, h, ds, 77, 1, &ok); ok = ok && take<uchar>(s, sw, h, ss, 33, 1, &ok) == v; e.ints("r", r).b("guard", ok); free(s); free(d);
                } else {
                        float *s = plane<float>(sw, h, ss, 33), *d = plane<float>(dw, h, ds, 77); for (int y = 0; y < h; ++y) for (int x = 0; x < sw; ++x) s[y * ss + x] = v[y * sw + x] / 1024.0f;
                        if (back) nx_convert_gray_to_rgba_f32(w, h, d, ds, s, ss); else nx_convert_rgba_to_gray_f32(w, h, d, ds, s, ss);
                        Ints r = take<float>(d, dw, h, ds, 77, 1024, &ok); ok = ok && take<float>(s, sw, h, ss, 33, 1024, &ok) == v; e.ints("r", r).b("guard", ok); free(s); free(d);
                }
        } else if (op == "map") { // map values(/4096)
                int m = num(t[1]); Ints q = nums(t[2]), r, r2; e.str("m", MAPS[m]).ints("q", q); arm(e);
                for (int v : q) {
                        uchar c[5] = { 9, 9, 9, 255, 9 }; nx_color_map_apply(c, c + 1, c + 2, v / 4096.0f, NXM[m]); for (int i = 0; i < 4; ++i) r.push_back(c[i]);
                        VGColor k = VGColorMap::apply(VGM[m], v / 4096.0f); r2.push_back(R(255 * k.r())); r2.push_back(R(255 * k.g())); r2.push_back(R(255 * k.b())); r2.push_back(k.a() >= 1.0 ? 255 : 0);
                }
                e.ints("r", r).ints("r2", r2);
        } else if (op == "mapimg") { // map f w h pad values vg
                int m = num(t[1]); bool f = t[2] == "1", vg = t[7] == "1"; int w = num(t[3]), h = num(t[4]), st = w + num(t[5]); Ints v = nums(t[6]);
                e.str("m", MAPS[m]).b("f", f).i("w", w).i("h", h).ints("v", v); arm(e);
                NXImage *g = nx_image_alloc(), *c = nx_image_alloc(); nx_image_resize(g, w, h, st, NX_IMAGE_GRAYSCALE, f ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (f) g->data.f32[y * g->row_stride + x] = v[y * w + x] / 4096.0f; else g->data.uc[y * g->row_stride + x] = v[y * w + x];
                if (vg) { VGImage a, b, z; a.wrap(c, false); b.wrap(g, false); z.apply_colormap(a, b, VGM[m]); } else nx_image_apply_colormap(c, g, NXM[m]);
                Ints r; for (int y = 0; y < c->height; ++y) for (int x = 0; x < 4 * c->width; ++x) r.push_back(c->data.uc[y * c->row_stride + x]);
                bool kept = true; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) kept = kept && (f ? g->data.f32[y * g->row_stride + x] == v[y * w + x] / 4096.0f : g->data.uc[y * g->row_stride + x] == v[y * w + x]);
                e.i("rw", c->width).i("rh", c->height).i("type", c->type == NX_IMAGE_RGBA).i("dt", c->dtype != NX_IMAGE_UCHAR).ints("r", r).b("kept", kept); nx_image_free(g); nx_image_free(c);
        } else _exit(98);
        emit(e);
}
