// Conformance driver: image files, through the C interface or the C++ class.
#include "drv.hpp"
#include <png.h>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/vg_image.hpp"
using virg::nexus::VGImage;

static bool vg;
static VGImage *V;
static NXImage *I;
static NXImage *im() { return vg ? V->nx_img() : I; }
static std::string name_of[8], prefix;
static std::string path(int f) { return g_scratch + "/" + prefix + "_" + std::to_string(f) + "_" + (name_of[f].empty() ? "f" : name_of[f]); }
static std::string slurp(const std::string &p)
{
        std::string r; FILE *f = fopen(p.c_str(), "rb");
        if (!f) return r;
        char b[4096]; size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
        fclose(f);
        return r;
}
static void spew(const std::string &p, const std::string &s)
{
        FILE *f = fopen(p.c_str(), "wb");
        if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) _exit(98);
}
static void image(Ev &e)
{
        NXImage *x = im();
        e.i("w", x->width).i("h", x->height).i("type", x->type);
        Ints px;
        for (int j = 0; j < x->height; ++j)
                for (int k = 0; k < x->width * x->n_channels; ++k)
                        px.push_back(x->data.uc[(long)j * x->row_stride + k]);
        if (x->dtype != NX_IMAGE_UCHAR || x->n_channels != (x->type == NX_IMAGE_GRAYSCALE ? 1 : 4)) px.push_back(-1);
        e.ints("px", px);
}
void begin_case(const Toks &t)
{
        vg = false;
        prefix = "p" + std::to_string(getpid());
        V = new VGImage(); I = nx_image_alloc();
        for (auto &n : name_of) n.clear();
}
void end_case() { for (int f = 0; f < 8; ++f) unlink(path(f).c_str()); }

// how: auto pnm png jpg; x: the variant that ends fatally.  0 ok, 1 failure, 2 fatal
static int do_save(const std::string &p, const std::string &how, bool x)
{
        g_jmp_on = true;
        if (setjmp(g_jmp)) return 2;
        int r = 0;
        NXImage *m = im();
        if (how == "auto") {
                if (vg) { if (x) V->xsave(p); else r = !V->save(p); }
                else if (x) nx_image_xsave(m, p.c_str()); else r = nx_image_save(m, p.c_str()) != NX_OK;
        } else if (how == "pnm") { if (x) nx_image_xsave_pnm(m, p.c_str()); else r = nx_image_save_pnm(m, p.c_str()) != NX_OK; }
        else if (how == "png") { if (x) nx_image_xsave_png(m, p.c_str()); else r = nx_image_save_png(m, p.c_str()) != NX_OK; }
        else { if (x) nx_image_xsave_jpeg(m, p.c_str()); else r = nx_image_save_jpeg(m, p.c_str()) != NX_OK; }
        g_jmp_on = false;
        return r;
}
static int do_load(const std::string &p, const std::string &how, int mode, bool x)
{
        g_jmp_on = true;
        if (setjmp(g_jmp)) return 2;
        int r = 0;
        NXImage *m = im();
        NXImageLoadMode md = mode == 0 ? NX_IMAGE_LOAD_AS_IS : mode == 1 ? NX_IMAGE_LOAD_GRAYSCALE : NX_IMAGE_LOAD_RGBA;
        VGImage::LoadMode vm = mode == 0 ? VGImage::LOAD_AS_IS : mode == 1 ? VGImage::LOAD_GRAYSCALE : VGImage::LOAD_RGBA;
        if (how == "auto") {
                if (vg) { if (x) V->xload(p, vm); else r = !V->load(p, vm); }
                else if (x) nx_image_xload(m, p.c_str(), md); else r = nx_image_load(m, p.c_str(), md) != NX_OK;
        } else if (how == "pnm") { if (x) nx_image_xload_pnm(m, p.c_str(), md); else r = nx_image_load_pnm(m, p.c_str(), md) != NX_OK; }
        else if (how == "png") { if (x) nx_image_xload_png(m, p.c_str(), md); else r = nx_image_load_png(m, p.c_str(), md) != NX_OK; }
        else { if (x) nx_image_xload_jpeg(m, p.c_str(), md); else r = nx_image_load_jpeg(m, p.c_str(), md) != NX_OK; }
        g_jmp_on = false;
        return r;
}
static const char *OUT[] = { "ok", "fail", "fatal" };

// a PNG by another writer. kind: g g16 ga rgb rgb16 rgba pal gt (gray with a transparent value) rgbt; i.. = interlaced
static void put_png(const std::string &p, std::string kind, int w, int h, const Ints &px)
{
        FILE *f = fopen(p.c_str(), "wb");
        if (!f) _exit(98);
        bool il = kind[0] == 'i'; if (il) kind = kind.substr(1);
        png_structp s = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0);
        png_infop n = png_create_info_struct(s);
        png_init_io(s, f);
        bool d16 = kind == "g16" || kind == "rgb16";
        // few bits per pixel: gray levels that fit them, or few colors
        int depth = d16 ? 16 : kind == "g1" ? 1 : kind == "g2" ? 2 : kind == "g4" || kind == "pal4" ? 4 : 8;
        bool palt = kind == "palt", pal = kind == "pal" || kind == "pal4" || palt;
        int ct = kind[0] == 'g' ? (kind == "ga" ? PNG_COLOR_TYPE_GA : PNG_COLOR_TYPE_GRAY) : pal ? PNG_COLOR_TYPE_PALETTE
                : kind == "rgba" ? PNG_COLOR_TYPE_RGBA : PNG_COLOR_TYPE_RGB;
        png_set_IHDR(s, n, w, h, depth, ct, il ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_BASE, PNG_FILTER_TYPE_BASE);
        std::vector<std::vector<png_byte>> rows(h);
        int ch = kind == "ga" ? 2 : kind[0] == 'g' ? 1 : (kind == "rgba" || kind == "rgbt" || palt) ? 4 : 3;
        if (pal) {
                std::vector<png_color> pal; std::vector<png_byte> al;
                for (int j = 0; j < h; ++j)
                        for (int i = 0; i < w; ++i) {
                                const int *q = &px[(j * w + i) * ch];
                                size_t k = 0;
                                while (k < pal.size() && !(pal[k].red == q[0] && pal[k].green == q[1] && pal[k].blue == q[2] && (!palt || al[k] == q[3]))) ++k;
                                if (k == pal.size()) { png_color c; c.red = q[0]; c.green = q[1]; c.blue = q[2]; pal.push_back(c); if (palt) al.push_back(q[3]); }
                                rows[j].push_back((png_byte)k);
                        }
                png_set_PLTE(s, n, pal.data(), (int)pal.size()); if (palt) png_set_tRNS(s, n, al.data(), (int)al.size(), 0);
        } else
                for (int j = 0; j < h; ++j)
                        for (int i = 0; i < w; ++i)
                                for (int c = 0; c < ch; ++c) {
                                        if (kind == "rgbt" && c == 3) continue;
                                        rows[j].push_back((png_byte)(depth < 8 ? px[(j * w + i) * ch + c] / (255 / ((1 << depth) - 1)) : px[(j * w + i) * ch + c]));
                                        if (d16) rows[j].push_back((png_byte)(px[(j * w + i) * ch + c] * 7 + i));
                                }
        if (kind == "gt") { png_color_16 t; memset(&t, 0, sizeof t); t.gray = px[0]; png_set_tRNS(s, n, 0, 0, &t); }
        if (kind == "rgbt") { // the pixels with alpha 0 all have the same color
                png_color_16 t; memset(&t, 0, sizeof t); t.red = t.green = t.blue = 3;
                for (int k = 0; k < w * h; ++k) if (px[4 * k + 3] == 0) { t.red = px[4 * k]; t.green = px[4 * k + 1]; t.blue = px[4 * k + 2]; }
                png_set_tRNS(s, n, 0, 0, &t);
        }
        std::vector<png_bytep> rp;
        for (auto &r : rows) rp.push_back(r.data());
        png_set_rows(s, n, rp.data());
        png_write_png(s, n, depth < 8 ? PNG_TRANSFORM_PACKING : 0, 0);
        png_destroy_write_struct(&s, &n);
        fclose(f);
}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        if (op == "mode") { vg = t[1] == "v"; return; }
        Ev e(op); arm(e);
        if (op == "store") { // w h type px extra-stride
                int w = num(t[1]), h = num(t[2]), ty = num(t[3]); Ints px = nums(t[4]);
                int st = t.size() > 5 && num(t[5]) ? w * (ty ? 4 : 1) + num(t[5]) : NX_IMAGE_STRIDE_DEFAULT;
                NXImage *x = im();
                nx_image_resize(x, w, h, st, ty ? NX_IMAGE_RGBA : NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
                if (x->mem->size) memset(x->data.uc, 0xAB, x->mem->size);
                for (int j = 0; j < h; ++j)
                        for (int k = 0; k < w * (ty ? 4 : 1); ++k) x->data.uc[j * x->row_stride + k] = px[j * w * (ty ? 4 : 1) + k];
                e.i("w", w).i("h", h).i("type", ty).ints("px", px); emit(e); return;
        }
        if (op == "fmtname") {
                std::string n = unhex(t[1]);
                int f = nx_image_file_format_from_filename(n.c_str());
                static const char *N[] = { "unknown", "ascii", "pnm", "jpg", "png" };
                e.bytes("name", n).str("fmt", f >= 0 && f < 5 ? N[f] : "?"); emit(e); return;
        }
        if (op == "full") { // how x
                int r = do_save("/dev/full", t[1], num(t[2]));
                e.str("how", t[1]).b("x", num(t[2])).str("out", OUT[r]); emit(e); return;
        }
        int f = num(t[1]);
        e.i("f", f);
        if (op == "save") { // f namehex how x
                std::string n = unhex(t[2]);
                unlink(path(f).c_str());
                name_of[f] = n;
                int r = do_save(path(f), t[3], num(t[4]));
                std::string b = slurp(path(f));
                bool pnm = b.size() > 0 && b[0] == 'P';
                e.bytes("name", n).str("how", t[3]).b("x", num(t[4])).str("out", OUT[r]).i("size", b.size())
                        .bytes("b", pnm ? b : b.substr(0, 4));
                image(e); emit(e); return;
        }
        if (op == "put") {
                Ints v = nums(t[2]); std::string b; for (int c : v) b += (char)c;
                spew(path(f), b);
                e.ints("b", v); emit(e); return;
        }
        if (op == "putpng") { // f kind w h px
                Ints px = nums(t[5]); int w = num(t[3]), h = num(t[4]);
                put_png(path(f), t[2], w, h, px);
                std::string k = t[2][0] == 'i' ? t[2].substr(1) : t[2];
                int ch = k == "ga" ? 2 : k[0] == 'g' ? 1 : (k == "rgba" || k == "rgbt" || k == "palt") ? 4 : 3;
                e.str("kind", t[2]).i("w", w).i("h", h).i("ch", ch).ints("px", px); emit(e); return;
        }
        if (op == "cut") {
                std::string b = slurp(path(f)); int n = num(t[2]);
                if (n < 0) n = (int)b.size() + n; // from the end
                if (n < 0) n = 0;
                e.i("n", n).i("size", b.size());
                if ((size_t)n < b.size()) spew(path(f), b.substr(0, n));
                emit(e); return;
        }
        if (op == "flip") { // f position(modulo size) bit
                std::string b = slurp(path(f)); size_t k = b.empty() ? 0 : num(t[2]) % b.size();
                if (!b.empty()) { b[k] ^= (char)(1 << num(t[3])); spew(path(f), b); }
                e.i("at", k).i("bit", num(t[3])); emit(e); return;
        }
        if (op == "remove") { unlink(path(f).c_str()); emit(e); return; }
        if (op == "fmthead") {
                int r = nx_image_file_format_from_header(path(f).c_str());
                static const char *N[] = { "unknown", "ascii", "pnm", "jpg", "png" };
                e.bytes("head", slurp(path(f)).substr(0, 4)).str("fmt", r >= 0 && r < 5 ? N[r] : "?"); emit(e); return;
        }
        if (op == "load") { // f mode how x
                int r = do_load(path(f), t[3], num(t[2]), num(t[4]));
                e.i("mode", num(t[2])).str("how", t[3]).b("x", num(t[4])).str("out", OUT[r]);
                if (r == 0) image(e);
                emit(e); return;
        }
        _exit(98);
}
