// Checkerboard response
#include "drv.hpp"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_warp.h"
#include "virg/nexus/nx_checkerboard_detector.h"
static NXImage *L[4], *S;
void begin_case(const Toks &) { for (auto &x : L) x = nullptr; S = nx_image_alloc(); }
void end_case() { for (auto &x : L) nx_image_free(x); nx_image_free(S); }
static Ints px(const NXImage *x) { Ints r; for (int j = 0; j < x->height; ++j) for (int i = 0; i < x->width; ++i) r.push_back(x->data.uc[j * x->row_stride + i]); return r; }
static std::string pic(const NXImage *x)
{
        Ev e; bool ok = x->type == NX_IMAGE_GRAYSCALE && x->dtype == NX_IMAGE_UCHAR;
        e.i("w", ok ? x->width : -1).i("h", x->height).ints("px", ok ? px(x) : Ints()); std::string s = e.done(); s.pop_back(); return s;
}
void run_op(const Toks &t)
{
        const std::string &op = t[0]; Ev e(op); arm(e);
        if (op == "radon") { // r w h pad px
                int r = num(t[1]), w = num(t[2]), h = num(t[3]), pad = num(t[4]); Ints v = nums(t[5]);
                NXImage *x = nx_image_alloc(); nx_image_resize(x, w, h, w + pad, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
                for (int j = 0; j < h; ++j) { for (int i = 0; i < w; ++i) x->data.uc[j * x->row_stride + i] = v[j * w + i]; for (int i = w; i < w + pad; ++i) x->data.uc[j * x->row_stride + i] = 171; }
                std::string img = pic(x); nx_checkers_local_radon_images(L, x, r);
                e.i("r", r).raw("img", img).b("kept", img == pic(x));
                std::string a = "["; for (int i = 0; i < 4; ++i) a += (i ? "," : "") + pic(L[i]);
                // the turned pictures the diagonal means go through
                std::string b = "["; int side = 0; while (2ll * (side + 1) * (side + 1) <= (long long)(w + h + 2) * (w + h + 2)) ++side;
                for (int i = 0; i < 2; ++i) { NXImage *y = nx_image_alloc(); nx_image_resize(y, side, side, side + 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); nx_image_rotate45(y, x, i ? NX_FALSE : NX_TRUE); b += (i ? "," : "") + pic(y); nx_image_free(y); }
                e.raw("lr", a + "]").raw("t", b + "]"); nx_image_free(x);
        } else if (op == "pre") { // i w h type dt: what an image held before
                int i = num(t[1]); if (!L[i]) L[i] = nx_image_alloc(); nx_image_resize(L[i], num(t[2]), num(t[3]), NX_IMAGE_STRIDE_DEFAULT, (NXImageType)num(t[4]), (NXImageDataType)num(t[5]));
                memset(L[i]->data.uc, 77, (size_t)L[i]->row_stride * L[i]->height * (L[i]->dtype == NX_IMAGE_FLOAT32 ? 4 : 1)); return;
        } else if (op == "score") {
                if (!L[0] || !L[0]->width) return;
                std::string was; for (auto x : L) was += pic(x);
                nx_checkers_score_image(S, L); std::string now; for (auto x : L) now += pic(x);
                Ints s; bool ok = S->type == NX_IMAGE_GRAYSCALE && S->dtype == NX_IMAGE_FLOAT32;
                if (ok) for (int j = 0; j < S->height; ++j) for (int i = 0; i < S->width; ++i) { double v = S->data.f32[j * S->row_stride + i] * 65025.0 * 16; s.push_back(v == v && fabs(v) < 1e9 ? (int)llrint(v) : 1999999999); }
                e.b("kept", was == now).i("w", S->width).i("h", S->height).ints("s", s);
        } else _exit(98);
        emit(e);
}
