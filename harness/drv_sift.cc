// SIFT detection, descriptors, matching, cached results and key files
#include "drv.hpp"
#include <algorithm>
#include <dirent.h>
#include <filesystem>
#include <set>
extern "C" {
#include "virg/nexus/nx_alloc.h"
}
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/nx_sift_detector.h"
namespace fs = std::filesystem;
template <class F> static bool guarded(Ev &e, F f) { g_jmp_on = true; if (setjmp(g_jmp) == 0) { f(); g_jmp_on = false; e.str("out", "ok"); return true; } e.str("out", "fatal"); return false; }
static std::string base;
static int milli(double v) { return (v == v && fabs(v) < 1.9e6) ? (int)llrint(v * 1000) : 1999999; }
static int micro(double v) { return (v == v && fabs(v) < 1.9e3) ? (int)llrint(v * 1e6) : 1999999999; }
static uint64_t fnv(uint64_t h, const void *p, size_t n) { for (size_t i = 0; i < n; ++i) { h ^= ((const unsigned char *)p)[i]; h *= 1099511628211ull; } return h; }
static std::string hex(uint64_t h) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)h); return b; }
// w,h,pad,float,neg,mul, base,gx,gy (thousandths), h1,h2 (millionths), cx,cy, noise, seed, blobs x,y,s,a...
struct Pic { int w, h; std::vector<float> v; int pad; bool f32; };
static Pic render(const Ints &p)
{
        Pic c; c.w = p[0]; c.h = p[1]; c.pad = p[2]; c.f32 = p[3];
        uint32_t rs = 12345u + 7919u * p[14];
        for (int y = 0; y < c.h; ++y) for (int x = 0; x < c.w; ++x) {
                double u = x - p[11] / 1000.0, w = y - p[12] / 1000.0;
                double v = p[6] / 1000.0 + p[7] / 1000.0 * u + p[8] / 1000.0 * w + p[9] * 1e-6 * (u * u - w * w) + p[10] * 1e-6 * u * w;
                for (size_t k = 15; k + 3 < p.size(); k += 4) { double a = x - p[k] / 1000.0, b = y - p[k + 1] / 1000.0, s = p[k + 2] / 1000.0; v += p[k + 3] / 1000.0 * exp(-0.5 * (a * a + b * b) / (s * s)); }
                if (p[13]) { rs = rs * 1664525u + 1013904223u; v += p[13] / 1000.0 * ((rs >> 8) / 16777216.0 - 0.5); }
                if (!c.f32) { v = std::min(255.0, std::max(0.0, floor(255 * v + 0.5))); if (p[4]) v = 255 - v; }
                else { v = (float)v; if (p[4]) v = -v; v *= p[5]; }
                c.v.push_back((float)v);
        }
        return c;
}
static NXImage *make(const Pic &c)
{
        NXImage *im = nx_image_alloc();
        nx_image_resize(im, c.w, c.h, c.w + c.pad, NX_IMAGE_GRAYSCALE, c.f32 ? NX_IMAGE_FLOAT32 : NX_IMAGE_UCHAR);
        for (int y = 0; y < c.h; ++y) for (int x = 0; x < c.w + c.pad; ++x) {
                float v = x < c.w ? c.v[y * c.w + x] : (float)((x * 7 + y * 3 + c.pad) % 200);
                if (c.f32) im->data.f32[y * im->row_stride + x] = v; else im->data.uc[y * im->row_stride + x] = (uchar)v;
        }
        return im;
}
static bool intact(const NXImage *im, const Pic &c)
{
        if (im->width != c.w || im->height != c.h || im->row_stride != c.w + c.pad || (im->dtype == NX_IMAGE_FLOAT32) != c.f32) return false;
        for (int y = 0; y < c.h; ++y) for (int x = 0; x < c.w; ++x) if ((c.f32 ? im->data.f32[y * im->row_stride + x] : (float)im->data.uc[y * im->row_stride + x]) != c.v[y * c.w + x]) return false;
        return true;
}
// double,scales,sigma0 (thousandths),truncation,border,peak (millionths),edge (thousandths),magnification
static NXSIFTDetectorParams params(const Ints &p)
{
        NXSIFTDetectorParams q; memset(&q, 0, sizeof q);
        q.double_image = p[0] ? NX_TRUE : NX_FALSE; q.n_scales_per_octave = p[1]; q.sigma0 = p[2] / 1000.0f; q.kernel_truncation_factor = p[3]; q.border_distance = p[4]; q.peak_threshold = p[5] / 1e6f; q.edge_threshold = p[6] / 1000.0f; q.magnification_factor = p[7];
        return q;
}
static std::string content(const Pic &c, const Ints &p)
{
        int s[3] = { c.w, c.h, c.f32 };
        uint64_t h = fnv(1469598103934665603ull, s, sizeof s);
        h = fnv(h, c.v.data(), c.v.size() * 4);
        for (int v : p) h = fnv(h, &v, sizeof v);
        return hex(h);
}
struct Res { int n = 0, cap = 0; NXKeypoint *k = nullptr; uchar *d = nullptr; };
static Res room(int cap, bool null)
{
        Res r; r.cap = cap;
        if (cap || !null) { r.k = (NXKeypoint *)nx_xmalloc(std::max(1, cap) * sizeof(NXKeypoint)); r.d = (uchar *)nx_xmalloc(std::max(1, cap) * NX_SIFT_DESC_DIM); memset(r.k, 0x5a, std::max(1, cap) * sizeof(NXKeypoint)); memset(r.d, 0xa5, std::max(1, cap) * NX_SIFT_DESC_DIM); }
        return r;
}
static void drop(Res &r) { nx_free(r.k); nx_free(r.d); r.k = nullptr; r.d = nullptr; }
static std::string digest(const Res &r)
{
        uint64_t h = fnv(1469598103934665603ull, &r.n, 4);
        for (int i = 0; i < r.n; ++i) {
                const NXKeypoint &k = r.k[i];
                h = fnv(h, &k.x, 4); h = fnv(h, &k.y, 4); h = fnv(h, &k.xs, 4); h = fnv(h, &k.ys, 4); h = fnv(h, &k.level, 4); h = fnv(h, &k.scale, 4); h = fnv(h, &k.sigma, 4); h = fnv(h, &k.score, 4); h = fnv(h, &k.ori, 4); h = fnv(h, &k.id, 8);
        }
        return hex(r.n ? fnv(h, r.d, (size_t)r.n * NX_SIFT_DESC_DIM) : h);
}
static std::string keylist(const Res &r, bool desc = false)
{
        std::string s = "[";
        for (int i = 0; i < r.n; ++i) {
                const NXKeypoint &k = r.k[i];
                int n2 = 0, mx = 0;
                for (int j = 0; j < NX_SIFT_DESC_DIM; ++j) { int v = r.d[i * NX_SIFT_DESC_DIM + j]; n2 += v * v; mx = std::max(mx, v); }
                Ev e; e.i("x", k.x).i("y", k.y).i("xs", milli(k.xs)).i("ys", milli(k.ys)).i("x0", milli(nx_keypoint_xs0(&k))).i("y0", milli(nx_keypoint_ys0(&k))).i("lev", k.level).i("sc", milli(k.scale)).i("sig", milli(k.sigma)).i("score", micro(k.score)).i("co", milli(cos(k.ori))).i("so", milli(sin(k.ori))).b("turn", fabs(k.ori) < 3.1416 + 1e-3).i("id", (long long)k.id).i("n2", n2).i("mx", mx).str("h", hex(fnv(1469598103934665603ull, r.d + i * NX_SIFT_DESC_DIM, NX_SIFT_DESC_DIM)));
                if (desc) e.bytes("d", r.d + i * NX_SIFT_DESC_DIM, NX_SIFT_DESC_DIM);
                if (i) s += ",";
                s += e.s + "}";
        }
        return s + "]";
}
static std::map<std::string, NXSIFTDetector *> pool;
static NXSIFTDetector *pooled(const std::string &key, const Ints &p) { auto &d = pool[key]; if (!d) d = nx_sift_detector_new(params(p)); return d; }
// ---- cache directories
static std::map<std::string, std::string> entry; // dir/content -> file
static std::set<std::string> listing(const std::string &d)
{
        std::set<std::string> r; std::error_code ec;
        for (auto &f : fs::directory_iterator(d, ec)) r.insert(f.path().string());
        return r;
}
static std::string slurp(const std::string &f) { FILE *p = fopen(f.c_str(), "rb"); std::string s; if (!p) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "wb"); if (!p) _exit(98); fwrite(s.data(), 1, s.size(), p); fclose(p); }
static std::string dirname_of(const std::string &how) { return how == "def" ? base + "/nx.cache" : base + "/" + how; }
static void note(Ev &e, const std::string &how, const std::string &c, const std::set<std::string> &was, const std::map<std::string, uint64_t> &sums)
{
        auto now = listing(dirname_of(how)); bool kept = true; int made = 0;
        for (auto &f : was) if (!now.count(f) || fnv(1, slurp(f).data(), slurp(f).size()) != sums.at(f)) kept = false;
        for (auto &f : now) if (!was.count(f)) { ++made; entry[how + "/" + c] = f; }
        e.i("made", made).b("old", kept);
}
static std::map<std::string, uint64_t> sums(const std::set<std::string> &l) { std::map<std::string, uint64_t> r; for (auto &f : l) { std::string s = slurp(f); r[f] = fnv(1, s.data(), s.size()); } return r; }
static std::set<std::string> hurt; // damaged once is enough: a second time could undo the first
static bool harm(const std::string &f, const std::string &kind, int off)
{
        if (kind != "gone" && !hurt.insert(f).second) return false;
        if (kind == "gone") hurt.erase(f);
        std::string s = slurp(f); int n; if (s.size() < 4) return false; memcpy(&n, s.data(), 4);
        if (kind == "cut") { if (s.size() < 8) return false; s.resize(4 + (s.size() - 4) / 2); }
        else if (kind == "tail") { if (s.size() < 8) return false; s.resize(s.size() - 1); }
        else if (kind == "empty") s.resize(2);
        else if (kind == "neg") { n = -1 - n; memcpy(&s[0], &n, 4); }
        else if (kind == "more") { n += 1 + off; memcpy(&s[0], &n, 4); }
        else if (kind == "huge") { n += 100; memcpy(&s[0], &n, 4); s.append(100 * 400, 'q'); }
        else if (kind == "gone") { fs::remove(f); return true; }
        else _exit(98);
        spit(f, s);
        return true;
}
// ---- matching: per key v0,v1,v2,v3,xs,ys,level,id (positions in quarters)
static const int POS[4] = { 0, 63, 64, 127 };
static Res keys_of(const Ints &v)
{
        Res r = room((int)v.size() / 8, false); r.n = r.cap;
        for (int i = 0; i < r.n; ++i) {
                const int *p = &v[8 * i]; NXKeypoint &k = r.k[i]; memset(&k, 0, sizeof k);
                k.xs = p[4] / 4.0f; k.ys = p[5] / 4.0f; k.x = (int)floor(k.xs + 0.5); k.y = (int)floor(k.ys + 0.5); k.level = p[6]; k.scale = (float)ldexp(1.0, p[6]); k.sigma = 1.5f + i; k.score = 0.25f * i; k.ori = 0.5f - i; k.id = p[7];
                memset(r.d + i * NX_SIFT_DESC_DIM, 9, NX_SIFT_DESC_DIM);
                for (int j = 0; j < 4; ++j) r.d[i * NX_SIFT_DESC_DIM + POS[j]] = p[j];
        }
        return r;
}
static std::string rows(const Ints &v, int k) { std::string r = "["; for (size_t i = 0; i + k <= v.size(); i += k) { if (i) r += ","; r += Ev::arr(Ints(v.begin() + i, v.begin() + i + k)); } return r + "]"; }
static void out_matches(Ev &e, int got, int n, const std::vector<NXPointMatch2D> &m)
{
        std::string s = "[";
        for (int i = 0; i < got && i < n; ++i) { const NXPointMatch2D &p = m[i]; if (i) s += ","; s += Ev::arr({ milli(p.x[0]), milli(p.x[1]), milli(p.xp[0]), milli(p.xp[1]), (int)p.match_cost, milli(p.sigma_x), milli(p.sigma_xp), (int)p.id, (int)p.idp, p.is_inlier ? 1 : 0 }); }
        bool rest = true; std::vector<NXPointMatch2D> z(1); memset(&z[0], 0x77, sizeof z[0]);
        for (int i = std::max(0, got); i < (int)m.size(); ++i) if (memcmp(&m[i], &z[0], sizeof z[0])) rest = false;
        e.i("got", got).raw("m", s + "]").b("rest", rest);
}
void begin_case(const Toks &)
{
        base = g_scratch + "/s" + std::to_string(getpid()); fs::create_directories(base);
        if (chdir(base.c_str()) != 0) _exit(98);
}
void end_case() { for (auto &p : pool) nx_sift_detector_free(p.second); if (chdir("/") != 0) _exit(98); fs::remove_all(base); }
static void put_params(Ev &e, const Ints &p) { e.b("dbl", p[0]).i("ns", p[1]).i("s0", p[2]).i("bd", p[4]).i("peak", p[5]); }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op); arm(e);
        if (op == "det") { // image params capacity how
                Ints p = nums(t[1]), q = nums(t[2]); Pic c = render(p); std::string how = t[4], id = content(c, q); bool cached = how != "new" && how != "pool";
                e.str("inp", id).str("how", how).i("w", c.w).i("h", c.h).i("cap", num(t[3])).b("cached", cached); put_params(e, q);
                NXImage *im = make(c); Res r = room(num(t[3]), p[0] % 2); auto was = listing(dirname_of(how)); auto sm = sums(was);
                NXSIFTDetector *d = how == "new" ? nx_sift_detector_new(params(q)) : pooled(t[2], q);
                bool ok = guarded(e, [&] {
                        if (!cached) r.n = nx_sift_detector_compute(d, im, &r.cap, &r.k, &r.d);
                        else r.n = nx_sift_detector_compute_with_cache(d, im, &r.cap, &r.k, &r.d, how == "def" ? nullptr : dirname_of(how).c_str());
                });
                if (ok) e.i("n", r.n).i("cap2", r.cap).str("res", digest(r)).raw("keys", keylist(r));
                e.b("kept", intact(im, c));
                if (cached) note(e, how, id, was, sm); else e.i("made", (int)listing(dirname_of(how)).size() - (int)was.size()).b("old", true);
                if (ok) { if (how == "new") nx_sift_detector_free(d); drop(r); }
                nx_image_free(im);
        } else if (op == "harm") { // image params how kind
                Ints q = nums(t[2]); std::string id = content(render(nums(t[1])), q), how = t[3]; auto f = entry.find(how + "/" + id);
                if (f == entry.end() || !fs::exists(f->second)) return;
                if (!harm(f->second, t[4], 0)) return;
                e.str("inp", id).str("how", how).str("kind", t[4]);
        } else if (op == "rel") { // kind image params image2 params2
                Ints p[2] = { nums(t[2]), nums(t[4]) }, q[2] = { nums(t[3]), nums(t[5]) }; e.str("kind", t[1]); put_params(e, q[1]); e.i("w", p[0][0]).i("h", p[0][1]);
                for (int k = 0; k < 2; ++k) { Pic c = render(p[k]); NXImage *im = make(c); Res r = room(50, false); NXSIFTDetector *d = nx_sift_detector_new(params(q[k])); r.n = nx_sift_detector_compute(d, im, &r.cap, &r.k, &r.d); e.raw(k ? "b" : "a", keylist(r)); nx_sift_detector_free(d); drop(r); nx_image_free(im); }
        } else if (op == "blob" || op == "desc") { // image params
                Ints p = nums(t[1]), q = nums(t[2]); Pic c = render(p); NXImage *im = make(c); Res r = room(50, false); NXSIFTDetector *d = nx_sift_detector_new(params(q)); put_params(e, q);
                e.i("w", c.w).i("h", c.h).raw("blobs", rows(Ints(p.begin() + 15, p.end()), 4)).i("gx", p[7]).i("gy", p[8]).i("h1", p[9]).i("h2", p[10]).b("neg", p[4]);
                r.n = nx_sift_detector_compute(d, im, &r.cap, &r.k, &r.d); e.raw("keys", keylist(r, op == "desc")); nx_sift_detector_free(d); drop(r); nx_image_free(im);
        } else if (op == "match") { // keys keys' thr/8 how
                Ints a = nums(t[1]), b = nums(t[2]); int thr = num(t[3]); std::string how = t[4]; bool cached = how != "new"; Res A = keys_of(a), B = keys_of(b);
                uint64_t h = fnv(1, a.data(), a.size() * 4); if (a.size() && b.size()) h = fnv(h, "|", 1); /* nothing to match either way */ h = fnv(h, b.data(), b.size() * 4); h = fnv(h, &thr, 4); std::string id = "m" + hex(h);
                e.raw("q", rows(a, 8)).raw("p", rows(b, 8)).i("thr", thr).str("how", how).str("inp", id).b("cached", cached);
                std::vector<NXPointMatch2D> m(std::max(1, A.n)); memset((void *)m.data(), 0x77, m.size() * sizeof m[0]);
                auto was = listing(dirname_of(how)); auto sm = sums(was); int got = 0; std::string da = digest(A), db = digest(B);
                NXPointMatch2D *buf = (NXPointMatch2D *)nx_xmalloc(m.size() * sizeof m[0]); memcpy((void *)buf, m.data(), m.size() * sizeof m[0]);
                bool ok = guarded(e, [&] {
                        got = cached ? nx_sift_match_brute_force_with_cache(A.n, A.k, A.d, B.n, B.k, B.d, buf, thr / 8.0f, how == "def" ? nullptr : dirname_of(how).c_str()) : nx_sift_match_brute_force(A.n, A.k, A.d, B.n, B.k, B.d, buf, thr / 8.0f);
                });
                memcpy((void *)m.data(), buf, m.size() * sizeof m[0]); nx_free(buf);
                if (ok) out_matches(e, got, A.n, m);
                e.b("kept", da == digest(A) && db == digest(B));
                if (cached) note(e, how, id, was, sm); else e.i("made", 0).b("old", true);
                drop(A); drop(B);
        } else if (op == "mharm") { // keys keys' thr how kind
                Ints a = nums(t[1]), b = nums(t[2]); int thr = num(t[3]); uint64_t h = fnv(1, a.data(), a.size() * 4); if (a.size() && b.size()) h = fnv(h, "|", 1); /* nothing to match either way */ h = fnv(h, b.data(), b.size() * 4); h = fnv(h, &thr, 4); std::string id = "m" + hex(h), how = t[4];
                auto f = entry.find(how + "/" + id);
                if (f == entry.end() || !fs::exists(f->second)) return;
                if (!harm(f->second, t[5], 0)) return;
                e.str("inp", id).str("how", how).str("kind", t[5]);
        } else if (op == "file") { // keys kind capacity
                Ints a = nums(t[1]); Res A = keys_of(a), B = room(num(t[3]), num(t[3]) % 2 == 0); std::string f = base + "/k.sift", kind = t[2]; e.raw("q", rows(a, 8)).str("kind", kind).i("cap", num(t[3]));
                nx_sift_xsave(f.c_str(), A.n, A.k, A.d);
                std::string s = slurp(f); e.i("size", s.size()); int v;
                if (kind == "cut") s.resize(s.size() / 2); else if (kind == "tail") s.resize(s.size() - 1); else if (kind == "neg") { v = -1 - A.n; memcpy(&s[0], &v, 4); } else if (kind == "more") { v = A.n + 1; memcpy(&s[0], &v, 4); } else if (kind == "dim") { v = 64; memcpy(&s[4], &v, 4); }
                if (kind == "none") fs::remove(f); else spit(f, s);
                bool ok = guarded(e, [&] { B.n = nx_sift_xload(f.c_str(), &B.cap, &B.k, &B.d); });
                if (ok) {
                        e.i("n", B.n).i("cap2", B.cap).b("same", B.n == A.n && digest(A) == digest(B));
                        Ints r; for (int i = 0; i < B.n; ++i) { for (int j = 0; j < 4; ++j) r.push_back(B.d[i * NX_SIFT_DESC_DIM + POS[j]]); r.push_back((int)(4 * B.k[i].xs)); r.push_back((int)(4 * B.k[i].ys)); r.push_back(B.k[i].level); r.push_back((int)B.k[i].id); }
                        e.raw("r", rows(r, 8));
                }
                drop(A); if (ok) drop(B);
        } else if (op == "opts") { // mask values(8)
                Ints m = nums(t[1]), v = nums(t[2]); e.ints("mask", m).ints("v", v);
                static const char *N[8] = { "--sift-double-image", "--sift-n-scales-per-octave", "--sift-sigma0", "--sift-kernel-truncation-factor", "--sift-border-distance", "--sift-peak-threshold", "--sift-edge-threshold", "--sift-magnification-factor" };
                static const int D[8] = { 1, 1, 1000, 1000, 1, 1000000, 1000, 1 };
                std::vector<std::string> a = { "prog" };
                for (int i = 0; i < 8; ++i) if (m[i]) { a.push_back(N[i]); if (i == 0) continue; char b[40]; if (D[i] == 1) snprintf(b, 40, "%d", v[i]); else snprintf(b, 40, "%.9g", v[i] / (double)D[i]); a.push_back(b); }
                std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr);
                NXOptions *o = nx_options_alloc(); nx_sift_parameters_add_to_options(o); nx_options_set_from_args(o, (int)a.size(), av.data());
                NXSIFTDetectorParams q = nx_sift_parameters_from_options(o), df = nx_sift_default_parameters(); nx_options_free(o);
                auto L = [&](const NXSIFTDetectorParams &z) { return Ints{ z.double_image ? 1 : 0, z.n_scales_per_octave, milli(z.sigma0), milli(z.kernel_truncation_factor), z.border_distance, micro(z.peak_threshold), milli(z.edge_threshold), z.magnification_factor }; };
                e.ints("r", L(q)).ints("def", L(df));
        } else _exit(98);
        emit(e);
}
