// Conformance driver: plot scripts.  The text is split into commands and tokens here; the specification reads them.
#include "drv.hpp"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_gnuplot.h"
struct Pl { NXGNUPlot *g = nullptr; FILE *f = nullptr; long seen = 0; bool piped = false, persist = false; std::string dir; };
static Pl P[3];
static std::string slurp(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static std::string fresh(Pl &p) { if (!p.f) return ""; fflush(p.f); fseek(p.f, p.seen, SEEK_SET); std::string r; int c; while ((c = fgetc(p.f)) != EOF) r += (char)c; p.seen += r.size(); fseek(p.f, 0, SEEK_END); return r; }
static std::string lines(const std::string &s) { std::string r = "["; size_t a = 0; bool first = true; while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); r += (first ? "" : ",") + Ev::q(s.substr(a, b - a)); first = false; a = b + 1; } return r + "]"; }
static std::string obj(Ev &e) { std::string t = e.done(); t.pop_back(); return t; }
static bool number(const std::string &w, size_t &i, long &micro) // digits[.digits]
{
        size_t a = i; micro = 0; while (i < w.size() && isdigit((unsigned char)w[i]) && micro < 3000) micro = micro * 10 + (w[i++] - '0');
        if (i == a || micro > 2000) return false; micro *= 1000000;
        if (i < w.size() && w[i] == '.') { ++i; long s = 100000; while (i < w.size() && isdigit((unsigned char)w[i])) { micro += s * (w[i++] - '0'); s /= 10; } }
        return true;
}
static std::string word(const std::string &w)
{
        Ev e; size_t i = 0; long a, b;
        if (number(w, i, a)) {
                if (i == w.size()) { e.str("k", "n").i("v", a / 1000000); return obj(e); }
                std::string u; if (w.compare(i, 2, "cm") == 0) { u = "cm"; i += 2; }
                if (i < w.size() && w[i] == ',') { ++i; if (number(w, i, b) && w.substr(i) == u) { e.str("k", "z").i("w", a).i("h", b).str("u", u); return obj(e); } }
        }
        e = Ev(); e.str("k", "w").str("t", w); return obj(e);
}
// inl: the text is data given inline and its end mark
static std::string commands(const std::string &s, bool inl)
{
        if (inl) {
                Ev e; bool ok = s.size() >= 2 && s.compare(s.size() - 2, 2, "e\n") == 0 && (s.size() == 2 || s[s.size() - 3] == '\n');
                e.str("k", ok ? "raw" : "w").str("t", "?").raw("rows", lines(ok ? s.substr(0, s.size() - 2) : s)); return "[[" + obj(e) + "]]";
        }
        std::string r = "[", cur; bool firstc = true; size_t i = 0;
        auto flush = [&]() { if (!cur.empty()) { r += (firstc ? "[" : ",[") + cur + "]"; firstc = false; cur.clear(); } };
        auto tok = [&](const std::string &t) { if (!cur.empty()) cur += ","; cur += t; };
        while (i < s.size()) {
                char c = s[i];
                if (c == ';' || c == '\n') { flush(); ++i; }
                else if (c == ' ') ++i;
                else if (c == '"') { size_t j = s.find_first_of("\"\n", i + 1); Ev e; if (j == std::string::npos || s[j] == '\n') { e.str("k", "w").str("t", "unterminated"); tok(obj(e)); i = j == std::string::npos ? s.size() : j; } else { e.str("k", "s").str("t", s.substr(i + 1, j - i - 1)); tok(obj(e)); i = j + 1; } }
                else if (c == '$' && cur.empty()) {
                        size_t n = s.find('\n', i); std::string head = s.substr(i + 1, n == std::string::npos ? n : n - i - 1), label = head.substr(0, head.find(' ')), mark;
                        size_t q = head.find("<< "); if (q != std::string::npos) mark = head.substr(q + 3);
                        size_t a = n == std::string::npos ? s.size() : n + 1, b = a; bool ok = false;
                        while (b < s.size()) { size_t x = s.find('\n', b); if (x == std::string::npos) x = s.size(); if (s.substr(b, x - b) == mark) { ok = !mark.empty(); i = x + 1; break; } b = x + 1; }
                        Ev e; if (!ok) { e.str("k", "w").str("t", "$unterminated"); i = s.size(); } else e.str("k", "block").str("t", label).raw("rows", lines(s.substr(a, b - a)));
                        tok(obj(e)); flush();
                } else { size_t j = i; while (j < s.size() && !strchr(" ;\n\"", s[j])) ++j; tok(word(s.substr(i, j - i))); i = j; }
        }
        flush(); return r + "]";
}
static NXDataFrame *frame(int rows, int seed)
{
        NXDataFrame *d = nx_data_frame_alloc();
        nx_data_frame_add_column(d, NX_DCT_INT, "n"); nx_data_frame_add_column(d, NX_DCT_STRING, "na me"); if (seed % 2) nx_data_frame_add_column(d, NX_DCT_DOUBLE, "x");
        for (int i = 0; i < rows; ++i) { nx_data_frame_add_row(d); if ((i + seed) % 4) nx_data_frame_set_int(d, i, 0, i * seed); nx_data_frame_set_string(d, i, 1, ("v " + std::to_string(i % 3)).c_str()); if (seed % 2) nx_data_frame_set_double(d, i, 2, (i + seed) / 8.0); }
        return d;
}
static std::string text_of(const NXDataFrame *d) { FILE *t = tmpfile(); nx_data_frame_fprintf(d, t, " "); rewind(t); std::string r; int c; while ((c = fgetc(t)) != EOF) r += (char)c; fclose(t); return r; }
void begin_case(const Toks &) { for (auto &p : P) p = Pl(); }
void end_case() {}
void run_op(const Toks &t)
{
        const std::string &op = t[0]; int i = num(t[1]); Pl &p = P[i]; Ev e(op); e.i("p", i);
        auto S = [&](int k) { return unhex(t[k]); };
        auto n = [&](int k) { return num(t[k]); };
        if (op == "new") { // p piped persist
                p.piped = n(2); p.persist = n(3); e.b("piped", p.piped); arm(e);
                if (p.piped) { // a stand-in that keeps what it is given
                        p.dir = g_scratch + "/gp-" + std::to_string(getpid()) + "-" + std::to_string(i); mkdir(p.dir.c_str(), 0700);
                        std::string sh = p.dir + "/gnuplot"; FILE *f = fopen(sh.c_str(), "w"); fprintf(f, "#!/bin/sh\necho \"$@\" > '%s/args'\ncat > '%s/script'\n", p.dir.c_str(), p.dir.c_str()); fclose(f); chmod(sh.c_str(), 0700);
                        std::string old = getenv("PATH"); setenv("PATH", (p.dir + ":" + old).c_str(), 1);
                        p.g = nx_gnuplot_new(NULL, p.persist ? NX_TRUE : NX_FALSE); setenv("PATH", old.c_str(), 1); e.raw("cs", "[]");
                } else { p.f = tmpfile(); p.seen = 0; p.g = nx_gnuplot_new(p.f, p.persist ? NX_TRUE : NX_FALSE); e.raw("cs", commands(fresh(p), false)); }
        } else if (op == "free") {
                arm(e); nx_gnuplot_free(p.g); p.g = nullptr; e.b("asked", p.persist);
                if (p.piped) { std::string a = slurp(p.dir + "/args"); e.b("persist", a.find("-persist") != std::string::npos).b("open", false).raw("cs", commands(slurp(p.dir + "/script"), false)); for (const char *x : { "/args", "/script", "/gnuplot" }) unlink((p.dir + x).c_str()); rmdir(p.dir.c_str()); }
                else { std::string s = fresh(p); bool open = fputs("x", p.f) >= 0 && fflush(p.f) == 0; fclose(p.f); e.b("persist", false).b("open", open).raw("cs", commands(s, false)); }
                p = Pl();
        } else if (op == "command") { // p int text
                std::string x = S(3); arm(e); nx_gnuplot_send_command(p.g, "pause %d # %s%%\n", n(2), x.c_str()); nx_gnuplot_flush(p.g);
                std::string ex = "pause " + std::to_string(n(2)) + " # " + x + "%\n"; e.str("expect", ex).str("text", p.piped ? ex : fresh(p));
        } else { // call p what ...
                const std::string &w = t[2]; Ev c; c.str("op", w); bool inl = false; e.i("q", 0); arm(e);
                auto M = [&](int k) { return n(k); }; // millionths
                if (w == "window") { c.i("w", M(3)).i("h", M(4)).str("name", S(5)).i("id", n(6)); nx_gnuplot_set_terminal_window(p.g, n(3) / 1000000, n(4) / 1000000, S(5).c_str(), n(6)); }
                else if (w == "svg") { c.i("w", M(3)).i("h", M(4)).str("name", S(5)).str("file", S(6)); nx_gnuplot_set_terminal_svg(p.g, n(3) / 1000000, n(4) / 1000000, S(5).c_str(), S(6).c_str()); }
                else if (w == "pdf" || w == "eps") { c.i("w", M(3)).i("h", M(4)).str("file", S(5)); (w == "pdf" ? nx_gnuplot_set_terminal_pdf : nx_gnuplot_set_terminal_eps)(p.g, n(3) / 1e6, n(4) / 1e6, S(5).c_str()); }
                else if (w == "ascii") { c.i("w", M(3)).i("h", M(4)).b("feed", n(5)); nx_gnuplot_set_terminal_ascii(p.g, n(3) / 1000000, n(4) / 1000000, n(5) ? NX_TRUE : NX_FALSE); }
                else if (w == "terminal") { const std::string &y = t[3]; c.str("type", y).i("w", M(4)).i("h", M(5)).str("name", S(6)).i("id", n(7));
                        nx_gnuplot_set_terminal(p.g, y == "window" ? NX_TERMINAL_WINDOW : y == "svg" ? NX_TERMINAL_SVG : y == "pdf" ? NX_TERMINAL_PDF : y == "eps" ? NX_TERMINAL_EPS : NX_TERMINAL_ASCII, n(4) / 1e6, n(5) / 1e6, S(6).c_str(), n(7)); }
                else if (w == "title") { c.str("t", S(3)); nx_gnuplot_set_title(p.g, S(3).c_str()); }
                else if (w == "xlabel") { c.str("t", S(3)); nx_gnuplot_set_xlabel(p.g, S(3).c_str()); }
                else if (w == "ylabel") { c.str("t", S(3)); nx_gnuplot_set_ylabel(p.g, S(3).c_str()); }
                else if (w == "labels") { c.str("t", S(3)).str("x", S(4)).str("y", S(5)); nx_gnuplot_set_title_and_labels(p.g, S(3).c_str(), S(4).c_str(), S(5).c_str()); }
                else if (w == "frame") { NXDataFrame *d = frame(n(3), n(4)); std::string label = S(5); c.str("label", label).raw("rows", lines(text_of(d))); nx_gnuplot_send_data_frame(p.g, d, label.c_str()); nx_data_frame_free(d); }
                else if (w == "inline") { NXDataFrame *d = frame(n(3), n(4)); c.raw("rows", lines(text_of(d))); nx_gnuplot_send_data_frame(p.g, d, NULL); nx_data_frame_free(d); inl = true; }
                else _exit(98);
                nx_gnuplot_flush(p.g); e.raw("c", obj(c)).raw("cs", p.piped ? "[]" : commands(fresh(p), inl));
                bool quiet = true; for (int k = 1; k < 3; ++k) if (k != i && P[k].g && !P[k].piped) quiet = quiet && fresh(P[k]).empty(); e.b("others", quiet);
        }
        emit(e);
}
