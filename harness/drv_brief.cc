// Conformance driver: BRIEF extractors, their streams, descriptor maps.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_pyr.h"
#include "virg/nexus/nx_brief_extractor.h"
#include "virg/nexus/vg_image.hpp"
#include "virg/nexus/vg_image_pyr.hpp"
#include "virg/nexus/vg_brief_extractor.hpp"
#include "virg/nexus/vg_descriptor_map.hpp"
using namespace virg::nexus;

static NXBriefExtractor *X[3];
static VGDescriptorMap *M;
static std::string path() { return g_scratch + "/brief.bin"; }
static std::vector<long> ends;
static long rpos;

static std::string table(const NXBriefExtractor *b)
{
        std::string r = "[";
        for (int i = 0; i < b->n_octets * 8; ++i) { if (i) r += ","; r += Ev::arr(Ints(b->offsets + 4 * i, b->offsets + 4 * i + 4)); }
        return r + "]";
}
static std::string exts()
{
        std::string r = "["; bool f = true;
        for (int i = 1; i < 3; ++i) if (X[i] && X[i]->n_octets > 0) {
                Ev o; o.i("x", i).i("n", X[i]->n_octets).i("r", X[i]->radius).raw("off", table(X[i])).i("lo", X[i]->pyr_level_offset)
                        .ints("lim", Ints(X[i]->offset_limits, X[i]->offset_limits + 4));
                std::string t = o.done(); t.pop_back(); if (!f) r += ","; f = false; r += t;
        }
        return r + "]";
}
static std::string bits(const unsigned char *d, int n)
{
        Ints r; for (int i = 0; i < n; ++i) for (int j = 7; j >= 0; --j) r.push_back((d[i] >> j) & 1);
        return Ev::arr(r);
}
static std::vector<unsigned char> unbits(const Ints &b)
{
        std::vector<unsigned char> r(b.size() / 8, 0);
        for (size_t i = 0; i < r.size() * 8; ++i) r[i / 8] |= (unsigned char)(b[i] << (7 - i % 8));
        return r;
}
// pyramid: L levels, sizes shrinking by p/q per level, arbitrary pixels
static NXImagePyr *pyramid(int L, int w, int h, int p, int q, unsigned seed, int kind, std::string &lv)
{
        NXImagePyr *y = nx_image_pyr_alloc(); nx_image_pyr_alloc_levels(y, L);
        int P = 1, Q = 1; lv = "[";
        for (int i = 0; i < L; ++i) {
                int wi = w * Q / P, hi = h * Q / P; if (wi < 1) wi = 1; if (hi < 1) hi = 1;
                NXImage *m = y->levels[i].img;
                nx_image_resize(m, wi, hi, wi + i % 2 * 3, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR);
                Ints px;
                for (int j = 0; j < hi; ++j) for (int k = 0; k < m->row_stride; ++k) {
                        seed = seed * 1664525u + 1013904223u;
                        int v = kind == 0 ? (seed >> 16) % 256 : kind == 1 ? (k * 7 + j * 3) % 256 : (int)((seed >> 16) % 3) + 126;
                        m->data.uc[j * m->row_stride + k] = v;
                        if (k < wi) px.push_back(v);
                }
                y->levels[i].scale = (float)P / Q; y->levels[i].sigma = 1.0f;
                Ev o; o.i("w", wi).i("h", hi).ints("px", px).i("p", P).i("q", Q);
                std::string t = o.done(); t.pop_back(); if (i) lv += ","; lv += t;
                P *= p; Q *= q;
        }
        lv += "]";
        return y;
}
static bool pow2(int p, int q) { return q == 1 && (p & (p - 1)) == 0; }
void begin_case(const Toks &) { X[1] = X[2] = 0; M = new VGDescriptorMap(32); ends.clear(); rpos = 0; unlink(path().c_str()); }
void end_case() { nx_brief_extractor_free(X[1]); nx_brief_extractor_free(X[2]); delete M; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        auto sd = [&](int i) { return (uint32_t)lnum(t[i]); };
        Ev e(op); arm(e); bool show = true;
        if (op == "new") { // x n r seed|-
                int x = n(1); nx_brief_extractor_free(X[x]); X[x] = 0;
                bool s = t[4] != "-";
                X[x] = s ? nx_brief_extractor_new_with_seed(n(2), n(3), sd(4)) : nx_brief_extractor_new(n(2), n(3));
                e.i("x", x).i("n", n(2)).i("r", n(3)).str("seed", s ? t[4] : "");
        } else if (op == "resize") { nx_brief_extractor_resize(X[n(1)], n(2), n(3)); e.i("x", n(1)).i("n", n(2)).i("r", n(3)); }
        else if (op == "seed") {
                if (t[2] == "-") nx_brief_extractor_randomize(X[n(1)]); else nx_brief_extractor_randomize_with_seed(X[n(1)], sd(2));
                e.i("x", n(1)).str("seed", t[2] == "-" ? "" : t[2]);
        } else if (op == "table") { // x span seed: a hand-made table
                NXBriefExtractor *b = X[n(1)]; unsigned seed = n(3); int sp = n(2);
                for (int i = 0; i < b->n_octets * 32; ++i) { seed = seed * 1664525u + 1013904223u; b->offsets[i] = (int)((seed >> 16) % (2 * sp + 1)) - sp; }
                nx_brief_extractor_update_limits(b);
                e.i("x", n(1)).raw("off", table(b));
        } else if (op == "level") { X[n(1)]->pyr_level_offset = n(2); e.i("x", n(1)).i("lo", n(2)); }
        else if (op == "free") { nx_brief_extractor_free(X[n(1)]); X[n(1)] = 0; e.i("x", n(1)); }
        else if (op == "save") {
                FILE *f = fopen(path().c_str(), "ab");
                bool ok = true;
                if (n(2)) nx_brief_extractor_xwrite(X[n(1)], f); else ok = nx_brief_extractor_write(X[n(1)], f) == NX_OK;
                fclose(f);
                struct stat st; stat(path().c_str(), &st); ends.push_back(st.st_size);
                e.i("x", n(1)).b("ok", ok);
        } else if (op == "cut") { // k: drop k bytes (at least one, at most the whole last record)
                long prev = ends.size() > 1 ? ends[ends.size() - 2] : 0, len = ends.back() - prev;
                long k = 1 + (long)n(1) % len;
                if (truncate(path().c_str(), ends.back() - k) != 0) _exit(98);
                ends.pop_back();
        } else if (op == "load") { // x how
                int x = n(1);
                FILE *f = fopen(path().c_str(), "rb");
                bool ok = false;
                if (!X[x]) X[x] = nx_brief_extractor_alloc();
                if (f) {
                        fseek(f, rpos, SEEK_SET);
                        ok = nx_brief_extractor_read(X[x], f) == NX_OK;
                        if (ok) rpos = ftell(f);
                        fclose(f);
                }
                if (!ok) { nx_brief_extractor_free(X[x]); X[x] = 0; }
                e.i("x", x).b("ok", ok);
        } else if (op == "compute" || op == "theta") { // x L w h p q seed kind v px py [rc rs rd]
                NXBriefExtractor *b = X[n(1)]; std::string lv;
                NXImagePyr *y = pyramid(n(2), n(3), n(4), n(5), n(6), n(7), n(8), lv);
                e.i("x", n(1)).raw("lv", lv).i("v", n(9) + 1).i("px", n(10)).i("py", n(11)).b("fz", !pow2(n(5), n(6)));
                unsigned char *d = new unsigned char[b->n_octets]; memset(d, 0xA5, b->n_octets);
                bool ok;
                if (op == "compute") {
                        ok = nx_brief_extractor_check_point_pyr(b, y, n(10), n(11), n(9));
                        if (ok) nx_brief_extractor_compute_pyr(b, y, n(10), n(11), n(9), d);
                } else {
                        e.i("rc", n(12)).i("rs", n(13)).i("rd", n(14));
                        ok = nx_brief_extractor_compute_pyr_at_theta(b, y, n(10), n(11), n(9), (float)atan2(n(13), n(12)), d);
                }
                e.b("ok", ok).raw("bits", ok ? bits(d, b->n_octets) : "[]");
                delete[] d; nx_image_pyr_free(y);
        } else if (op == "dist") { // a b
                Ints a = nums(t[1]), b = nums(t[2]);
                auto u = unbits(a), v = unbits(b);
                e.ints("a", a).ints("b", b).i("d", n(3) ? VGBriefExtractor::distance_of((int)u.size(), u.data(), v.data())
                                                     : nx_brief_extractor_descriptor_distance((int)u.size(), u.data(), v.data()));
                show = false;
        } else if (op == "mapnew") { // n how
                if (n(2)) M->set_n_octets(n(1)); else { delete M; M = new VGDescriptorMap(n(1)); if (n(1) % 2) M->reserve(3); }
                e.i("n", M->n_octets()); show = false;
        } else if (op == "mapadd") { auto d = unbits(nums(t[2])); int s = M->add(n(1), d.data()); e.i("id", n(1)).ints("bits", nums(t[2])).i("size", s == M->size() ? s : -1); show = false; }
        else if (op == "mapclear") { M->clear(); e.i("size", M->size()); show = false; }
        else if (op == "nn") { auto d = unbits(nums(t[1])); auto r = M->search_nn(d.data()); e.ints("bits", nums(t[1])).i("id", (int)r.id).i("cost", r.match_cost < 1e6f ? (int)r.match_cost : 999999); show = false; }
        else if (op == "byid") { const unsigned char *d = M->search_by_id(n(1)); e.i("id", n(1)).b("found", d != 0).raw("bits", d ? bits(d, M->n_octets()) : "[]"); show = false; }
        else if (op == "mapall") {
                std::string r = "[";
                for (int i = 0; i < M->size(); ++i) { if (i) r += ","; r += "[" + std::to_string(M->get_id(i)) + "," + bits(M->get_descriptor(i), M->n_octets()) + "]"; }
                e.raw("items", r + "]"); show = false;
        } else if (op == "vg") { // n r how seed  L w h seed kind  v,x,y ...
                int oct = n(1), rad = n(2); const std::string how = t[3]; uint32_t seed = sd(4);
                VGBriefExtractor vb(how == "resize" ? 3 : oct, how == "resize" ? 9 : rad);
                if (how == "resize") vb.resize(oct, rad);
                if (how == "seed") vb.randomize_with_seed(seed);
                else seed = rad == 16 ? NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R16 : NX_BRIEF_EXTRACTOR_GOOD_SEED_N32_R24;
                NXBriefExtractor *tw = nx_brief_extractor_new_with_seed(oct, rad, seed);
                std::string lv;
                NXImagePyr *y0 = pyramid(n(5), n(6), n(7), 2, 1, n(8), n(9), lv);
                VGImage im0(y0->levels[0].img, false);
                VGImagePyr vp = VGImagePyr::build_fast_from(im0, n(5), 0.5f);
                // give the class's pyramid these levels
                NXImagePyr *q = const_cast<NXImagePyr *>(vp.nx_pyr());
                for (int i = 0; i < n(5); ++i) { nx_image_copy(q->levels[i].img, y0->levels[i].img); q->levels[i].scale = y0->levels[i].scale; }
                std::vector<NXKeypoint> ks; std::string kj = "[";
                for (size_t i = 10; i < t.size(); ++i) {
                        Ints c = nums(t[i]); NXKeypoint k; memset(&k, 0, sizeof k);
                        k.level = c[0]; k.x = c[1]; k.y = c[2]; k.id = 500 + i; k.scale = 1;
                        ks.push_back(k);
                        Ev o; o.i("v", c[0] + 1).i("x", c[1]).i("y", c[2]).i("id", 500 + (int)i);
                        std::string z = o.done(); z.pop_back(); if (i > 10) kj += ","; kj += z;
                }
                int before = M->size(); if (M->n_octets() != oct) _exit(98);
                vb.compute_pyr(vp, (int)ks.size(), ks.data(), *M);
                std::string it = "[";
                for (int i = before; i < M->size(); ++i) { if (i > before) it += ","; it += "[" + std::to_string(M->get_id(i)) + "," + bits(M->get_descriptor(i), oct) + "]"; }
                e.i("n", oct).i("r", rad).raw("off", table(tw)).raw("lv", lv).b("fz", false).raw("keys", kj + "]").raw("items", it + "]");
                nx_brief_extractor_free(tw); nx_image_pyr_free(y0);
                show = false;
        } else _exit(98);
        if (show) e.raw("xs", exts());
        emit(e);
}
