// Conformance driver: files that can take only so much, and memory requests.
#include "drv.hpp"
#include <filesystem>
#include <functional>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_image_io_jpeg.h"
#include "virg/nexus/nx_image_io_png.h"
#include "virg/nexus/nx_image_io_pnm.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_sift_detector.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_string_array.h"
#include "virg/nexus/vg_image.hpp"
namespace fs = std::filesystem;
static std::string base;
static int cap_ = 0;
static FILE *F; static long given;
static char Byte(long i) { return (char)(33 + (i * 7 + i / 91) % 90); }
static void room(long n) { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n < 0 ? r.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE, &r); }
// run with files of at most n bytes; "ok", "refused" (f said no) or "fatal"
static std::string within(long n, const std::function<bool()> &f)
{
        static volatile bool ok; static const std::function<bool()> *fp; fp = &f;
        room(n); g_jmp_on = true; static std::string r;
        if (setjmp(g_jmp) == 0) { ok = (*fp)(); g_jmp_on = false; r = ok ? "ok" : "refused"; } else r = "fatal";
        room(-1); return r;
}
static std::string content(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static bool prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static NXImage *image(const Ints &v) // w h ch seed
{
        NXImage *im = nx_image_new(v[0], v[1], v[2] == 1 ? NX_IMAGE_GRAYSCALE : NX_IMAGE_RGBA, NX_IMAGE_UCHAR);
        uint32_t s = v[3] * 2654435761u + 17;
        for (int y = 0; y < v[1]; ++y) for (int x = 0; x < v[0] * v[2]; ++x) { s = s * 1664525u + 1013904223u; im->data.uc[y * im->row_stride + x] = (v[2] == 4 && x % 4 == 3) ? 255 : s >> 24; }
        return im;
}
static bool same(const NXImage *a, const NXImage *b) { if (a->width != b->width || a->height != b->height || a->type != b->type) return false; for (int y = 0; y < a->height; ++y) if (memcmp(a->data.uc + y * a->row_stride, b->data.uc + y * b->row_stride, a->width * a->n_channels)) return false; return true; }
static NXDataFrame *frame(const Ints &v) // rows seed
{
        NXDataFrame *d = nx_data_frame_alloc();
        nx_data_frame_add_column(d, NX_DCT_STRING, "na\"me"); nx_data_frame_add_column(d, NX_DCT_INT, "n"); nx_data_frame_add_column(d, NX_DCT_DOUBLE, "x"); nx_data_frame_add_column(d, NX_DCT_BOOL, "b");
        for (int i = 0; i < v[0]; ++i) {
                nx_data_frame_add_row(d);
                nx_data_frame_set_string(d, i, 0, ("row \"" + std::to_string((i * 37 + v[1]) % 1000) + "\"").c_str());
                if ((i + v[1]) % 5) nx_data_frame_set_int(d, i, 1, i * v[1]);
                nx_data_frame_set_double(d, i, 2, (i + v[1]) / 7.0); nx_data_frame_set_bool(d, i, 3, (NXBool)(i % 2));
        }
        return d;
}
static std::vector<NXKeypoint> keys(const Ints &v) { std::vector<NXKeypoint> k(v[0]); memset(k.data(), 0, sizeof(NXKeypoint) * v[0]); for (int i = 0; i < v[0]; ++i) { k[i].x = i; k[i].y = v[1]; k[i].xs = i * 0.5f; k[i].ys = v[1]; k[i].level = i % 4; k[i].scale = 1; k[i].sigma = 2; k[i].score = i * v[1]; k[i].ori = 0.5f; k[i].id = i; } return k; }
// a value that can be saved under a name.  f(path) says whether it went well; back(path): it is there
struct Saver { std::string ext, kind; std::function<bool(const std::string &)> f, back; };
static Saver saver(const std::string &w, const Ints &v)
{
        Saver s; s.kind = w[0] == 'x' ? "x" : "plain"; std::string b = s.kind == "x" ? w.substr(1) : w; bool x = s.kind == "x";
        if (b == "pnm" || b == "png" || b == "jpg" || b == "spnm" || b == "spng" || b == "sjpg" || b == "sraw" || b == "vpng" || b == "vpnm") {
                NXImage *im = image(v); std::string e = b.size() == 3 ? b : b.substr(1); bool jpg = e == "jpg";
                s.ext = e == "pnm" ? (v[2] == 1 ? ".pgm" : ".ppm") : "." + e; if (e == "raw") s.ext = ".q";
                if (b[0] == 'v') s.f = [=](const std::string &p) { virg::nexus::VGImage g; g.create(im->width, im->height, virg::nexus::VGImage::STRIDE_DEFAULT, v[2] == 1 ? virg::nexus::VGImage::GRAYSCALE : virg::nexus::VGImage::RGBA, virg::nexus::VGImage::UCHAR); for (int y = 0; y < im->height; ++y) memcpy(g.nx_img()->data.uc + y * g.nx_img()->row_stride, im->data.uc + y * im->row_stride, im->width * im->n_channels); if (x) { g.xsave(p); return true; } return g.save(p); };
                else if (b.size() == 4) s.f = [=](const std::string &p) { if (x) { nx_image_xsave(im, p.c_str()); return true; } return nx_image_save(im, p.c_str()) == NX_OK; };
                else if (b == "pnm") s.f = [=](const std::string &p) { if (x) { nx_image_xsave_pnm(im, p.c_str()); return true; } return nx_image_save_pnm(im, p.c_str()) == NX_OK; };
                else if (b == "png") s.f = [=](const std::string &p) { if (x) { nx_image_xsave_png(im, p.c_str()); return true; } return nx_image_save_png(im, p.c_str()) == NX_OK; };
                else s.f = [=](const std::string &p) { if (x) { nx_image_xsave_jpeg(im, p.c_str()); return true; } return nx_image_save_jpeg(im, p.c_str()) == NX_OK; };
                s.back = [=](const std::string &p) { NXImage *o = nx_image_alloc(); bool r = nx_image_load(o, p.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK; r = r && (jpg ? (o->width == im->width && o->height == im->height) : same(im, o)); nx_image_free(o); return r; };
        } else if (b == "csv") {
                NXDataFrame *d = frame(v); s.ext = ".csv"; s.f = [=](const std::string &p) { if (x) { nx_data_frame_xsave_csv(d, p.c_str()); return true; } return (bool)nx_data_frame_save_csv(d, p.c_str()); };
                s.back = [=](const std::string &p) { NXDataFrame *q = nx_data_frame_load_csv(p.c_str(), NX_FALSE); return q && nx_data_frame_n_rows(q) == nx_data_frame_n_rows(d); };
        } else if (b == "sift") { // always fatal
                auto k = keys(v); s.ext = ".sift"; s.f = [=](const std::string &p) { std::vector<uchar> de(k.size() * NX_SIFT_DESC_DIM + 1, 7); nx_sift_xsave(p.c_str(), k.size(), k.data(), de.data()); return true; };
                s.back = [=](const std::string &p) { int m = 0; NXKeypoint *q = NULL; uchar *de = NULL; bool r = nx_sift_xload(p.c_str(), &m, &q, &de) == (int)k.size(); nx_free(q); nx_free(de); return r; };
        } else _exit(98);
        return s;
}
struct Writer { std::string kind; std::function<bool(FILE *)> f; };
static Writer writer(const std::string &w, const Ints &v)
{
        Writer s; s.kind = w[0] == 'x' ? "x" : "plain"; std::string b = s.kind == "x" ? w.substr(1) : w; bool x = s.kind == "x";
        if (b == "brief") { auto *be = nx_brief_extractor_new_with_seed(v[0] + 1, 5, v[1]); s.f = [=](FILE *f) { if (x) { nx_brief_extractor_xwrite(be, f); return true; } return nx_brief_extractor_write(be, f) == NX_OK; }; }
        else if (b == "keys") { auto k = keys(v); s.f = [=](FILE *f) { if (x) { nx_keypoint_xwrite(k.data(), k.size(), f); return true; } return nx_keypoint_write(k.data(), k.size(), f) == (int)k.size(); }; }
        else if (b == "strs") { auto *a = nx_string_array_alloc(); for (int i = 0; i < v[0]; ++i) nx_string_array_append(a, std::string((i * 7 + v[1]) % 40, 'a' + i % 26).c_str()); s.f = [=](FILE *f) { if (x) { nx_string_array_xwrite(a, f); return true; } return nx_string_array_write(a, f) == 0; }; }
        else if (b == "str") { std::string t(v[0], 'q'); s.f = [=](FILE *f) { return nx_strwrite(t.c_str(), f) == 0; }; }
        else if (b == "rd" || b == "dq") { std::string t; for (int i = 0; i < v[0]; ++i) t += "a\"\n\\\t\r\b\fz"[(i + v[1]) % 9]; s.f = [=](FILE *f) { return (b == "rd" ? nx_fputs_readable(t.c_str(), f) : nx_fputs_double_quoted(t.c_str(), f)) == 0; }; }
        else if (b == "null") s.f = [=](FILE *f) { return nx_fputs_readable(NULL, f) == 0; };
        else if (b == "csv") { auto *d = frame(v); s.f = [=](FILE *f) { return (bool)nx_data_frame_save_csv_stream(d, f); }; }
        else if (b == "csvsep") { auto *d = frame(v); s.f = [=](FILE *f) { return (bool)nx_data_frame_fprintf(d, f, " ;; "); }; }
        else if (b == "mat") { int m = v[0] + 1, n = 1 + v[1] % 5; std::vector<double> A(m * n); for (int i = 0; i < m * n; ++i) A[i] = i / 3.0; s.f = [=](FILE *f) { nx_dmat_xwrite(f, m, n, A.data()); return true; }; }
        else if (b == "json") { s.kind = "void"; std::string t = "["; for (int i = 0; i < v[0]; ++i) t += "{\"k\":" + std::to_string(i * v[1]) + "},"; t += "null]"; std::vector<char> c(t.begin(), t.end()); c.push_back(0); auto *j = nx_json_tree_from_string(c.data()); s.f = [=](FILE *f) { nx_json_tree_fprint(f, j, 2); return true; }; }
        else _exit(98);
        return s;
}
struct PI { int *p; PI &operator=(void *v) { p = (int *)v; return *this; } int &operator*() { return *p; } operator void *() { return p; } };
struct Blk { unsigned char *p = nullptr; size_t n = 0; unsigned char tag = 0; };
static Blk blk[5];
static unsigned char tagc = 1;
static unsigned char Tag(unsigned char t, size_t i) { return (unsigned char)(t * 31 + i * 13 + i / 251); }
static void fill(Blk &b) { b.tag = tagc++; for (size_t i = 0; i < b.n; ++i) b.p[i] = Tag(b.tag, i); }
static bool intact(int but) { for (int k = 1; k < 5; ++k) if (k != but) for (size_t i = 0; i < blk[k].n; ++i) if (blk[k].p[i] != Tag(blk[k].tag, i)) return false; return true; }
static size_t size2(int k, int e) { return (size_t)k << e; }
void begin_case(const Toks &) { base = g_scratch + "/dev" + std::to_string(getpid()); fs::create_directories(base); signal(SIGXFSZ, SIG_IGN); }
void end_case() { if (F) fclose(F); if (base.find("/dev") != std::string::npos && base.size() > 6) fs::remove_all(base); }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        std::string path = base + "/stream";
        if (op == "limit") { cap_ = num(t[1]); e.i("c", cap_);
        } else if (op == "open") { // buffer size, 0: none
                int b = num(t[1]); e.b("buf", b != 0).str("how", t[2]); arm(e);
                std::string out = within(cap_, [&]() { F = t[2] == "x" ? nx_xfopen(path.c_str(), "wb") : nx_fopen(path.c_str(), "wb"); return F != NULL; });
                if (F) setvbuf(F, NULL, b ? _IOFBF : _IONBF, b); given = 0; e.str("out", out);
        } else if (op == "put") { // bytes, item size
                int n = num(t[1]), sz = num(t[2]); e.i("n", n * sz); arm(e); std::string d; for (int i = 0; i < n * sz; ++i) d += Byte(given + i);
                std::string out = within(cap_, [&]() { nx_xfwrite(d.data(), sz, n, F); return true; }); given += n * sz;
                std::string c = content(path), all; for (long i = 0; i < given; ++i) all += Byte(i);
                e.str("out", out).i("size", c.size()).b("pre", prefix(c, all));
        } else if (op == "close") { // x|plain
                e.str("kind", t[1]); arm(e); FILE *g = F; F = NULL;
                std::string out = within(cap_, [&]() { if (t[1] == "x") { nx_xfclose(g, "stream"); return true; } return nx_fclose(g, "stream") == NX_OK; });
                std::string c = content(path), all; for (long i = 0; i < given; ++i) all += Byte(i);
                e.str("out", out).i("size", c.size()).b("pre", prefix(c, all));
        } else if (op == "save") { // what values slack old: room for slack bytes more than needed
                Saver s = saver(t[1], nums(t[2])); std::string p = base + "/f" + s.ext, q = base + "/g" + s.ext; e.str("what", t[1]).str("kind", s.kind);
                int old = num(t[4]); FILE *o = fopen(q.c_str(), "wb"); for (int i = 0; i < old; ++i) fputc('o', o); fclose(o); // it replaces whatever was there
                std::string ref = within(-1, [&]() { return s.f(p); }); std::string full = content(p);
                int c = t[3][0] == '=' ? num(t[3].substr(1)) : (int)full.size() + num(t[3]); if (c < 0) c = 0;
                { Ev l("limit"); l.i("c", c); wr(l.done()); } cap_ = c;
                arm(e); std::string out = within(c, [&]() { return s.f(q); }); std::string got = content(q);
                e.i("n", full.size()).str("out", out).i("size", got.size()).b("pre", prefix(got, full)).str("ref", ref);
                bool back = false; if (out == "ok") { std::string r = within(-1, [&]() { return s.back(q); }); back = r == "ok"; } e.b("back", back);
                fs::remove(p); fs::remove(q);
        } else if (op == "write") { // what values slack buffer close
                Writer s = writer(t[1], nums(t[2])); int b = num(t[4]); std::string p = base + "/f", q = base + "/g"; e.str("what", t[1]).str("kind", s.kind).b("buf", b != 0);
                { FILE *f = fopen(p.c_str(), "wb"); within(-1, [&]() { return s.f(f); }); fclose(f); } std::string full = content(p);
                int c = t[3][0] == '=' ? num(t[3].substr(1)) : (int)full.size() + num(t[3]); if (c < 0) c = 0;
                { Ev l("limit"); l.i("c", c); wr(l.done()); } cap_ = c;
                FILE *f = fopen(q.c_str(), "wb"); setvbuf(f, NULL, b ? _IOFBF : _IONBF, b); arm(e);
                std::string out = within(c, [&]() { return s.f(f); });
                std::string cl = within(c, [&]() { if (t[5] == "x") { nx_xfclose(f, "g"); return true; } return nx_fclose(f, "g") == NX_OK; });
                std::string got = content(q); e.i("n", full.size()).str("out", out).str("close", cl).i("size", got.size()).b("pre", prefix(got, full)); fs::remove(p); fs::remove(q);
        } else if (op == "nowhere") { // what values how
                Saver s = saver(t[1], nums(t[2])); e.str("what", t[1]).str("kind", s.kind); arm(e); std::string p = base + (t[3] == "dir" ? "/d" : "/none/f") + s.ext; if (t[3] == "dir") fs::create_directory(p);
                e.str("out", within(-1, [&]() { return s.f(p); })); if (t[3] == "dir") fs::remove(p);
        } else if (op == "noread") { // what how
                const std::string &w = t[1]; bool x = w[0] == 'x'; std::string b = x ? w.substr(1) : w; e.str("what", w).str("kind", x ? "x" : "plain"); arm(e);
                std::string p = base + (t[2] == "dir" ? "/d" : "/none/f") + (b == "pnm" ? ".pgm" : b == "png" ? ".png" : b == "jpg" ? ".jpg" : ".z"); if (t[2] == "dir") fs::create_directory(p);
                NXImage *im = nx_image_alloc();
                e.str("out", within(-1, [&]() {
                        if (b == "img" || b == "pnm" || b == "png" || b == "jpg") { if (x) { nx_image_xload(im, p.c_str(), NX_IMAGE_LOAD_AS_IS); return true; } return nx_image_load(im, p.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK; }
                        if (b == "dpnm") { if (x) { nx_image_xload_pnm(im, p.c_str(), NX_IMAGE_LOAD_AS_IS); return true; } return nx_image_load_pnm(im, p.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK; }
                        if (b == "dpng") { if (x) { nx_image_xload_png(im, p.c_str(), NX_IMAGE_LOAD_AS_IS); return true; } return nx_image_load_png(im, p.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK; }
                        if (b == "djpg") { if (x) { nx_image_xload_jpeg(im, p.c_str(), NX_IMAGE_LOAD_AS_IS); return true; } return nx_image_load_jpeg(im, p.c_str(), NX_IMAGE_LOAD_AS_IS) == NX_OK; }
                        if (b == "csv") { if (x) { nx_data_frame_xload_csv(p.c_str(), NX_FALSE); return true; } return nx_data_frame_load_csv(p.c_str(), NX_FALSE) != NULL; }
                        if (b == "json") { nx_json_tree_from_file(p.c_str()); return true; }
                        if (b == "sift") { int m = 0; NXKeypoint *k = NULL; uchar *de = NULL; nx_sift_xload(p.c_str(), &m, &k, &de); return true; }
                        if (b == "open") { if (x) { nx_xfopen(p.c_str(), "r+"); return true; } return nx_fopen(p.c_str(), "r+") != NULL; }
                        _exit(98); }));
                nx_image_free(im); if (t[2] == "dir") fs::remove(p);
        } else if (op == "malloc" || op == "calloc" || op == "aligned") { // id k e kind [k2 e2 | alignment]
                int id = num(t[1]), k = num(t[2]), x = num(t[3]); e.i("id", id).i("k", k).i("e", x).str("kind", t[4]); if (op == "calloc") e.i("k2", num(t[5])).i("e2", num(t[6])); arm(e);
                size_t n = size2(k, x), n2 = op == "calloc" ? size2(num(t[5]), num(t[6])) : 1; void *volatile p = NULL; bool X = t[4] == "x";
                std::string out = within(-1, [&]() { p = op == "malloc" ? (X ? nx_xmalloc(n) : nx_malloc(n)) : op == "calloc" ? (X ? nx_xcalloc(n, n2) : nx_calloc(n, n2)) : X ? nx_xaligned_alloc(num(t[5]), n) : nx_aligned_alloc(num(t[5]), n); return p != NULL || n == 0 || n2 == 0; });
                e.str("out", out);
                // met in full: as much as was asked for can be used (the product may not fit a size_t)
                bool big = op == "calloc" && n && n2 && n > SIZE_MAX / n2;
                if (out == "ok" && !big) { Blk &b = blk[id]; if (b.p) nx_free(b.p); b.p = (unsigned char *)p; b.n = n * n2; bool z = true; if (op == "calloc") for (size_t i = 0; i < b.n; ++i) z = z && b.p[i] == 0; e.b("zero", z); if (op == "aligned") e.b("at", (uintptr_t)b.p % num(t[5]) == 0); fill(b); }
                else if (out == "ok") e.b("zero", false);
                e.b("intact", intact(0));
        } else if (op == "realloc") { // id k e
                int id = num(t[1]), k = num(t[2]), x = num(t[3]); e.i("id", id).i("k", k).i("e", x); arm(e); Blk &b = blk[id]; size_t n = size2(k, x), o = b.n; void *volatile p = NULL;
                std::string out = within(-1, [&]() { p = nx_xrealloc(b.p, n); return true; }); size_t kept = 0, m = out == "ok" ? std::min(o, n) : o;
                if (out == "ok") { b.p = (unsigned char *)p; b.n = n; } while (kept < m && b.p[kept] == Tag(b.tag, kept)) ++kept;
                if (out == "ok") fill(b); e.str("out", out).i("kept", kept).b("intact", intact(0));
        } else if (op == "free") { int id = num(t[1]); e.i("id", id); arm(e); nx_free(blk[id].p); blk[id] = Blk(); e.b("intact", intact(0));
        } else if (op == "ensure") { // cap used need
                int c = num(t[1]), used = num(t[2]), need = num(t[3]); e.i("cap", c).i("used", used).i("need", need); arm(e);
                int *x = c ? NX_NEW_I(c) : NULL; for (int i = 0; i < used; ++i) x[i] = i * 3 + 1; 
                { PI q{x}; NX_ENSURE_CAPACITY(q, c, need); x = q.p; }
                int kept = 0; while (kept < used && x[kept] == kept * 3 + 1) ++kept; for (int i = used; i < c; ++i) x[i] = 5; e.i("newcap", c).i("kept", kept).str("out", "ok"); nx_free(x);
        } else _exit(98);
        emit(e);
}
