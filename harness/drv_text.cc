// Conformance driver: text encodings, string and keypoint records, lines.
#include "drv.hpp"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_keypoint.h"
static FILE *F; // the stream of the case
static long rpos;
static char *L; static size_t Ln;
void begin_case(const Toks &) { F = tmpfile(); rpos = 0; }
void end_case() {}
static std::string slurp(FILE *f) { std::string r; rewind(f); int c; while ((c = fgetc(f)) != EOF) r += (char)c; return r; }
static long size_of(FILE *f) { fseek(f, 0, SEEK_END); return ftell(f); }
// a fresh stream holding the first n bytes: truncating in place leaves stale stdio buffers
static FILE *cut_to(FILE *f, long n) { std::string b = slurp(f); FILE *g = tmpfile(); if ((long)b.size() > n) b.resize(n); fwrite(b.data(), 1, b.size(), g); fflush(g); rewind(g); fclose(f); return g; }
template <class Fn> static std::string put(Fn fn, int *rc) { FILE *f = tmpfile(); *rc |= fn(f); std::string r = slurp(f); fclose(f); return r; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        if (op == "enc") {
                std::string s = unhex(t[1]); e.bytes("s", s); arm(e); int rc = 0;
                std::string a = put([&](FILE *f) { return nx_fputs_readable(s.c_str(), f); }, &rc), b = put([&](FILE *f) { return nx_fputs_double_quoted(s.c_str(), f); }, &rc);
                e.bytes("rd", a).bytes("dq", b).i("rc", rc);
                std::string u, v;
                if (a.size() >= 2) { char *p = nx_xstr_from_readable(a.size() - 2, a.c_str() + 1); u = p; nx_free(p); }
                if (b.size() >= 2) { char *p = nx_xstr_from_double_quoted(b.size() - 2, b.c_str() + 1); v = p; nx_free(p); }
                e.bytes("back", u).bytes("dback", v);
        } else if (op == "null") {
                arm(e); int rc = 0; std::string a = put([&](FILE *f) { return nx_fputs_readable(NULL, f); }, &rc), b = put([&](FILE *f) { return nx_fputs_double_quoted(NULL, f); }, &rc);
                e.bytes("rd", a).bytes("dq", b).i("rc", rc).b("nul", nx_xstr_from_readable(3, NULL) == NULL && nx_xstr_from_double_quoted(3, NULL) == NULL);
        } else if (op == "unread" || op == "undub") { // text n
                std::string s = unhex(t[1]); int n = num(t[2]); e.bytes("t", s).i("n", n); arm(e);
                char *volatile p = NULL; std::vector<char> ex(s.begin(), s.end()); // no terminator to lean on
                ex.push_back('!'); ex.pop_back(); ex.shrink_to_fit();
                g_jmp_on = true;
                if (setjmp(g_jmp) == 0) { p = op == "unread" ? nx_xstr_from_readable(n, ex.empty() ? "" : ex.data()) : nx_xstr_from_double_quoted(n, ex.empty() ? "" : ex.data()); g_jmp_on = false; e.str("out", "ok").bytes("r", std::string((char *)p)); nx_free((char *)p); }
                else e.str("out", "fatal");
        } else if (op == "fmt") { // text width
                std::string s = unhex(t[1]); int v = num(t[2]); e.bytes("s", s).i("v", v); arm(e);
                char *p = nx_fstr("%s", s.c_str()); char *q = nx_fstr("%d|%s|%05.2f", v, s.c_str(), v / 4.0);
                std::string w = std::to_string(v) + "|" + s + "|"; char b[40]; snprintf(b, 40, "%05.2f", v / 4.0); w += b;
                e.bytes("r", std::string(p)).bytes("r2", std::string(q)).bytes("want2", w); nx_free(p); nx_free(q);
        } else if (op == "dup") {
                std::string s = unhex(t[1]), s2 = unhex(t[2]); e.bytes("s", s).bytes("s2", s2); arm(e);
                std::vector<char> src(s.c_str(), s.c_str() + s.size() + 1); char *p = nx_strdup(src.data()); if (!s.empty()) src[0] ^= 1;
                e.bytes("r", std::string(p)); bool own = p != src.data();
                char *d = p; nx_strredup(&d, s2.c_str()); e.bytes("re", std::string(d)); own = own && d != s2.c_str();
                std::string before = d; nx_strredup(&d, d); own = own && before == d; // a copy of itself
                nx_strredup(&d, NULL); e.b("nul", d == NULL).b("own", own);
        } else if (op == "hex") {
                std::string s = unhex(t[1]); e.bytes("b", s); arm(e); char *p = nx_hash_to_str(s.size(), (uint8_t *)s.data()); e.bytes("r", std::string(p)); nx_free(p);
        } else if (op == "gather") { // pieces(hex.hex) p o sizes
                std::vector<std::string> ps; { size_t a = 0; while (a <= t[1].size()) { size_t b = t[1].find('.', a); if (b == std::string::npos) b = t[1].size(); ps.push_back(unhex(t[1].substr(a, b - a))); a = b + 1; } }
                int p = num(t[2]); size_t o = num(t[3]); Ints sz = nums(t[4]);
                std::string pj = "["; for (size_t i = 0; i < ps.size(); ++i) pj += (i ? "," : "") + Ev::barr(ps[i].data(), ps[i].size()); e.raw("ps", pj + "]"); arm(e);
                std::vector<const void *> src; std::vector<size_t> ls; for (auto &s : ps) { char *c = (char *)malloc(s.size()); memcpy(c, s.data(), s.size()); src.push_back(c); ls.push_back(s.size()); }
                std::string st = "[";
                for (size_t k = 0; k < sz.size(); ++k) {
                        Ev q; q.i("p", p).i("o", o).i("n", sz[k]); std::vector<char> d(sz[k] + 1, '~');
                        size_t got = nx_memncpy_multi(d.data(), ps.size(), src.data(), ls.data(), sz[k], &p, &o);
                        bool guard = true; for (size_t j = got; j < d.size(); ++j) guard = guard && d[j] == '~';
                        q.i("got", got).bytes("r", d.data(), std::min(got, d.size())).i("np", p).i("no", o).b("guard", guard);
                        std::string x = q.done(); x.pop_back(); st += (k ? "," : "") + x;
                }
                e.raw("steps", st + "]");
        } else if (op == "raw") { std::string s = unhex(t[1]); e.bytes("s", s); fseek(F, 0, SEEK_END); fwrite(s.data(), 1, s.size(), F); fflush(F);
        } else if (op == "strwrite") { std::string s = unhex(t[1]); e.bytes("s", s); arm(e); fseek(F, 0, SEEK_END); e.i("rc", nx_strwrite(s.c_str(), F)); fflush(F); e.i("size", size_of(F));
        } else if (op == "strread") { // mode
                e.str("mode", t[1]); arm(e); fseek(F, rpos, SEEK_SET); char *volatile s = NULL; volatile int rc = 0;
                g_jmp_on = true;
                if (setjmp(g_jmp) == 0) {
                        if (t[1] == "0") { char *p = nx_strread0(F); rc = p ? 0 : 1; s = p; }
                        else { int cap = num(t[1]); char *p = (char *)nx_xmalloc(cap); rc = nx_strread(&p, cap, F); s = p; }
                        g_jmp_on = false;
                        e.i("rc", rc).str("out", rc == 0 ? "ok" : "refused").bytes("r", rc == 0 ? std::string((char *)s) : std::string()); nx_free((char *)s);
                        rpos = rc == 0 ? ftell(F) : size_of(F);
                } else { e.str("out", "fatal").i("rc", 1).bytes("r", std::string()); rpos = size_of(F); }
        } else if (op == "getline") { // capacity: -1 keep buffer
                int cap = num(t[1]); arm(e); fseek(F, rpos, SEEK_SET);
                if (cap >= 0) { free(L); L = cap ? (char *)malloc(cap) : NULL; Ln = cap; }
                ssize_t r = nx_getline(&L, &Ln, F); rpos = ftell(F);
                e.i("rc", r).bytes("r", r > 0 ? std::string(L, r) : std::string()).b("term", r < 0 || (L && L[r] == 0 && Ln > (size_t)r));
        } else if (op == "rewind") { rpos = 0;
        } else if (op == "cut") { int n = size_of(F) - num(t[1]); if (n < 0) n = 0; F = cut_to(F, n); rpos = 0; e.i("n", n);
        } else if (op == "keys") { // ask cut values...
                int ask = num(t[1]), cut = num(t[2]); Ints v = nums(t[3]); int n = v.size() / 10;
                auto js = [](const std::vector<NXKeypoint> &k, int n) { std::string r = "["; for (int i = 0; i < n; ++i) { const NXKeypoint &q = k[i]; Ints a = { q.x, q.y, (int)q.xs, (int)q.ys, q.level, (int)q.scale, (int)q.sigma, (int)q.score, (int)q.ori, (int)(q.id >> 33), (int)(q.id & 0x7fffffff) }; r += (i ? "," : "") + Ev::arr(a); } return r + "]"; };
                std::vector<NXKeypoint> k(n), b(ask + 1); memset(b.data(), 0x11, sizeof(NXKeypoint) * (ask + 1));
                for (int i = 0; i < n; ++i) { const int *a = &v[10 * i]; k[i].x = a[0]; k[i].y = a[1]; k[i].xs = a[2]; k[i].ys = a[3]; k[i].level = a[4]; k[i].scale = a[5]; k[i].sigma = a[6]; k[i].score = a[7]; k[i].ori = a[8]; k[i].id = ((uint64_t)a[9] << 33) | (uint64_t)(a[9] + 5); }
                e.i("ask", ask).i("cut", cut).raw("ks", js(k, n)); arm(e);
                FILE *f = tmpfile(); e.i("wrote", nx_keypoint_write(k.data(), n, f)); f = cut_to(f, cut);
                int got = nx_keypoint_read(b.data(), ask, f); fclose(f);
                NXKeypoint g; memset(&g, 0x11, sizeof g);
                e.i("got", got).raw("back", js(b, got < 0 ? 0 : got > ask ? ask : got)).b("guard", memcmp(&g, &b[ask], sizeof g) == 0);
        } else _exit(98);
        emit(e);
}
