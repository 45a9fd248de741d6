// Conformance driver: images, their conversions and per-pixel operations,
// through the C interface ("mode c") or the C++ class ("mode v").
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_filter.h"
#include "virg/nexus/vg_image.hpp"
using virg::nexus::VGImage;

static bool vg;
static NXImage *I[4];
static VGImage *V[4];
static void *lentp[4]; static int lentn[4], lentd[4];
static size_t base_heap;
static const int BIG = 1999999999;

static NXImage *im(int s) { return vg ? (V[s] ? V[s]->nx_img() : nullptr) : I[s]; }
static int fix(float f)
{
        double v = (double)f * 65536.0;
        if (!(v > -1.9e9 && v < 1.9e9)) return BIG;
        return (int)llrint(v);
}
static int cell(const void *p, int dt, long i) { return dt ? fix(((const float *)p)[i]) : ((const unsigned char *)p)[i]; }
static void setcell(void *p, int dt, long i, int v) { if (dt) ((float *)p)[i] = v / 65536.0f; else ((unsigned char *)p)[i] = v; }
static std::string images()
{
        std::string r = "["; bool first = true;
        for (int s = 1; s < 4; ++s) {
                NXImage *x = im(s);
                if (!x) continue;
                Ev e; e.i("s", s).i("w", x->width).i("h", x->height).i("type", x->type).i("dt", x->dtype)
                        .i("nch", x->n_channels).i("stride", x->row_stride).i("size", x->mem->size)
                        .i("cap", x->mem->capacity).b("own", x->mem->own_memory);
                int ref = x->data.v ? -1 : 0;
                for (int b = 1; b < 4; ++b) if (lentp[b] && lentp[b] == x->data.v) ref = b;
                if (x->data.v != x->mem->ptr) ref = -7;
                e.i("ref", ref);
                Ints px;
                for (int j = 0; j < x->height; ++j)
                        for (int k = 0; k < x->width * x->n_channels; ++k)
                                px.push_back(cell(x->data.v, x->dtype, (long)j * x->row_stride + k));
                e.ints("px", px);
                std::string t = e.done(); t.pop_back();
                if (!first) r += ","; first = false; r += t;
        }
        return r + "]";
}
static std::string lents()
{
        std::string r = "["; bool first = true;
        for (int b = 1; b < 4; ++b) if (lentp[b]) {
                Ints d; for (int i = 0; i < lentn[b]; ++i) d.push_back(cell(lentp[b], lentd[b], i));
                Ev e; e.i("b", b).ints("data", d);
                std::string x = e.done(); x.pop_back();
                if (!first) r += ","; first = false; r += x;
        }
        return r + "]";
}
void begin_case(const Toks &) { }
static VGImage::Type vt(int t) { return t ? VGImage::RGBA : VGImage::GRAYSCALE; }
static VGImage::DataType vd(int d) { return d ? VGImage::FLOAT32 : VGImage::UCHAR; }

void run_op(const Toks &t)
{
        const std::string &op = t[0];
        if (op == "mode") { vg = t[1] == "v"; base_heap = __sanitizer_get_current_allocated_bytes(); return; }
        Ev e(op);
        auto n = [&](int k) { return num(t[k]); };
        if (op == "gray1") {
                e.i("r", n(1)).i("g", n(2)).i("b", n(3)).i("v", nx_rgb_to_gray_uc(n(1), n(2), n(3)));
                emit(e); return;
        }
        int s = n(1);
        e.i("s", s);
        if (op == "alloc") { if (vg) V[s] = s % 2 ? new VGImage() : new VGImage(nx_image_alloc(), true); else I[s] = nx_image_alloc(); }
        else if (op == "new") { // s w h t d
                e.i("w", n(2)).i("h", n(3)).i("t", n(4)).i("d", n(5));
                NXImageType ty = (NXImageType)n(4); NXImageDataType dt = (NXImageDataType)n(5);
                if (vg) { V[s] = new VGImage(); if (n(4)) V[s]->create_rgba(n(2), n(3), vd(n(5))); else V[s]->create_gray(n(2), n(3), vd(n(5))); }
                else if ((n(2) + n(3)) % 3 == 0) I[s] = nx_image_new(n(2), n(3), ty, dt);
                else if ((n(2) + n(3)) % 3 == 1) I[s] = n(4) ? nx_image_new_rgba(n(2), n(3), dt) : nx_image_new_gray(n(2), n(3), dt);
                else I[s] = n(4) ? (n(5) ? nx_image_new_rgba_f32(n(2), n(3)) : nx_image_new_rgba_uc(n(2), n(3)))
                                 : (n(5) ? nx_image_new_gray_f32(n(2), n(3)) : nx_image_new_gray_uc(n(2), n(3)));
        }
        else if (op == "newlike") { e.i("u", n(2));
                if (vg) { V[s] = new VGImage(); V[s]->create(V[n(2)]->width(), V[n(2)]->height(), -1, V[n(2)]->type(), V[n(2)]->data_type()); }
                else I[s] = nx_image_new_like(I[n(2)]); }
        else if (op == "resize") { // s w h stride t d
                e.i("w", n(2)).i("h", n(3)).i("st", n(4)).i("t", n(5)).i("d", n(6));
                if (vg) V[s]->create(n(2), n(3), n(4), vt(n(5)), vd(n(6)));
                else nx_image_resize(I[s], n(2), n(3), n(4), (NXImageType)n(5), (NXImageDataType)n(6)); }
        else if (op == "like") { e.i("u", n(2)).i("st", vg ? V[n(2)]->row_stride() : -1); if (vg) V[s]->create_like(*V[n(2)]); else nx_image_resize_like(I[s], I[n(2)]); }
        else if (op == "release") { if (vg) V[s]->release(); else nx_image_release(I[s]); }
        else if (op == "free") { if (vg) { delete V[s]; V[s] = nullptr; } else { nx_image_free(I[s]); I[s] = nullptr; } }
        else if (op == "fill") { // s px...
                Ints px = nums(t[2]); e.ints("px", px);
                NXImage *x = im(s); int per = x->width * x->n_channels;
                for (size_t k = 0; k < px.size(); ++k) {
                        int y = k / per, c = k % per;
                        if (vg && x->dtype) V[s]->data<float>(y)[c] = px[k] / 65536.0f;
                        else if (vg) V[s]->data<uchar>(y)[c] = px[k];
                        else setcell(x->data.v, x->dtype, (long)y * x->row_stride + c, px[k]);
                } }
        else if (op == "store") { // s x y c v
                e.i("x", n(2)).i("y", n(3)).i("c", n(4)).i("v", n(5));
                NXImage *x = im(s);
                setcell(x->data.v, x->dtype, (long)n(3) * x->row_stride + n(2) * x->n_channels + n(4), n(5)); }
        else if (op == "zero") { if (vg) V[s]->set_zero(); else nx_image_set_zero(I[s]); }
        else if (op == "copy") { e.i("u", n(2)); if (vg) V[s]->copy_of(*V[n(2)]); else nx_image_copy(I[s], I[n(2)]); }
        else if (op == "copynew") { e.i("u", n(2)); if (vg) V[s] = new VGImage(V[n(2)]->clone()); else I[s] = nx_image_copy0(I[n(2)]); }
        else if (op == "lend" || op == "give") { // s w h stride t d cells [b]
                bool lend = op == "lend";
                Ints c = nums(t[7]); int d = n(6);
                e.i("w", n(2)).i("h", n(3)).i("st", n(4)).i("t", n(5)).i("d", d).ints("cells", c);
                void *p = malloc(c.size() * (d ? 4 : 1));
                for (size_t k = 0; k < c.size(); ++k) setcell(p, d, k, c[k]);
                void *old = nullptr;
                if (lend) { int b = n(8); e.i("b", b); old = lentp[b]; lentp[b] = p; lentn[b] = c.size(); lentd[b] = d; }
                if (vg && d) V[s]->wrap((float *)p, n(2), n(3), n(4), vt(n(5)), vd(d), !lend);
                else if (vg) V[s]->wrap((uchar *)p, n(2), n(3), n(4), vt(n(5)), vd(d), !lend);
                else nx_image_wrap(I[s], p, n(2), n(3), n(4), (NXImageType)n(5), (NXImageDataType)d, lend ? NX_FALSE : NX_TRUE);
                free(old); }
        else if (op == "swap") { e.i("u", n(2)); if (vg) V[s]->swap_with(*V[n(2)]); else nx_image_swap(I[s], I[n(2)]); }
        else if (op == "ctype") { e.i("t", n(2)); if (vg) V[s]->convert_type_to(vt(n(2))); else nx_image_convert_type(I[s], (NXImageType)n(2)); }
        else if (op == "cdtype") { e.i("u", n(2)); nx_image_convert_dtype(im(s), im(n(2))); }
        else if (op == "sub") { e.i("u", n(2)).i("v", n(3)); nx_image_subtract(im(s), im(n(2)), im(n(3))); }
        else if (op == "derive") { // s u f args
                int u = n(2); const std::string &f = t[3];
                e.i("u", u).str("f", f);
                NXImage *d = im(s), *x = im(u);
                Ev a;
                if (f == "down") { a.i("z", 0); if (vg) V[s]->downsampled_from(*V[u]); else nx_image_downsample(d, x); }
                else if (f == "up") { a.i("z", 0); nx_image_upsample(d, x); }
                else if (f == "aax") { a.i("z", 0); nx_image_downsample_aa_x(d, x); }
                else if (f == "aay") { a.i("z", 0); nx_image_downsample_aa_y(d, x); }
                else if (f == "boxx" || f == "boxy" || f == "box") {
                        int rx = n(4), ry = n(5), ext = n(6); a.i("rx", rx).i("ry", ry);
                        int len = f == "boxx" ? x->width : f == "boxy" ? x->height : x->width > x->height ? x->width : x->height;
                        int r = f == "boxx" ? rx : f == "boxy" ? ry : rx > ry ? rx : ry;
                        float *buf = ext ? (float *)malloc(sizeof(float) * (len + 2 * r)) : nullptr;
                        if (f == "boxx") { if (vg && !ext) V[s]->filter_box_x(*V[u], rx); else nx_image_filter_box_x(d, x, rx, buf); }
                        else if (f == "boxy") { if (vg && !ext) V[s]->filter_box_y(*V[u], ry); else nx_image_filter_box_y(d, x, ry, buf); }
                        else { if (vg && !ext) V[s]->filter_box(*V[u], rx, ry); else nx_image_filter_box(d, x, rx, ry, buf); }
                        free(buf);
                }
                else if (f == "derx") { a.i("z", 0); if (vg) V[s]->deriv_x_of(*V[u]); else nx_image_deriv_x(d, x); }
                else if (f == "dery") { a.i("z", 0); if (vg) V[s]->deriv_y_of(*V[u]); else nx_image_deriv_y(d, x); }
                else if (f == "scale") { int p = n(4), q = n(5); a.i("p", p).i("q", q); float sc = (float)p / q;
                        if (vg) V[s]->scaled_of(*V[u], sc); else nx_image_scale(d, x, sc); }
                else if (f == "axpy") { int aa = n(4), yy = n(5); a.i("a", aa).i("y", yy);
                        if (vg) V[s]->axpy(aa / 16.0f, yy / 16.0f); else nx_image_axpy(d, aa / 16.0f, yy / 16.0f); }
                else if (f == "norm") { int sym = n(4); a.b("sym", sym);
                        if (vg) V[s]->normalize_to_zero_one(sym); else nx_image_normalize_to_zero_one(d, sym ? NX_TRUE : NX_FALSE); }
                else if (f == "cmap") { a.i("z", 0);
                        if (vg) V[s]->apply_colormap(*V[s], *V[u], virg::nexus::VGColorMap::GRAY); else nx_image_apply_colormap(d, x, NX_COLOR_MAP_GRAY); }
                else if (f == "smooth") { // sigma_x*16 sigma_y*16 trunc ext
                        float sx = n(4) / 16.0f, sy = n(5) / 16.0f, tr = n(6); int ext = n(7);
                        a.i("sx", n(4)).i("sy", n(5)).i("tr", n(6));
                        auto kern = [&](float sg) { // reference kernel: normalised Gaussian samples
                                int len = (int)(2.0 * tr * sg + 1.0); if (len % 2 == 0) ++len; if (len < 3) len = 3;
                                std::vector<double> k; double sum = 0;
                                for (int q = 0; q <= len / 2; ++q) { k.push_back(exp(-0.5 * q * q / ((double)sg * sg))); sum += (q ? 2 : 1) * k[q]; }
                                Ints r; for (double v : k) r.push_back((int)llrint(v / sum * 65536)); return r; };
                        a.ints("kx", kern(sx)).ints("ky", kern(sy));
                        int kx, ky;
                        float *buf = ext ? nx_image_filter_buffer_alloc(x->width, x->height, sx, sy, tr, &kx, &ky) : nullptr;
                        if (vg && !ext) V[s]->smooth(*V[u], sx, sy, tr); else nx_image_smooth(d, x, sx, sy, tr, buf);
                        free(buf);
                }
                else _exit(98);
                std::string as = a.done(); as.pop_back(); e.raw("a", as);
        }
        else _exit(98);
        e.raw("hs", images()).raw("lent", lents());
        emit(e);
}
void end_case()
{
        for (int s = 1; s < 4; ++s) {
                Toks t = { "free", std::to_string(s) };
                if (im(s)) run_op(t);
        }
        Ev e("end"); e.raw("lent", lents());
        for (int b = 1; b < 4; ++b) { free(lentp[b]); lentp[b] = nullptr; }
        std::string keep = e.s; e.s.clear(); e.s.shrink_to_fit();
        size_t k = keep.capacity() > 15 ? keep.capacity() + 1 : 0;
        long d = (long)__sanitizer_get_current_allocated_bytes() - (long)base_heap - (long)k;
        e.s = keep; e.i("heap", d);
        emit(e);
}
