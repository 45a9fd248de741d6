// Conformance driver: messages, fatal errors and assertions.
#undef NDEBUG
#include "drv.hpp"
#include <set>
#include <termios.h>
#include "virg/nexus/nx_assert.h"
static int rd = -1;                     // what appears on the error stream
static bool term_;
static std::string cur = "default";     // handler in force
struct Got { std::string by, fn, tag, text; int line; };
static Got got; static jmp_buf back_;
static void take(const char *by, const char *fn, int line, const char *tag, const char *msg, va_list prm) { std::vector<char> b(70000); vsnprintf(b.data(), b.size(), msg, prm); got = { by, fn, tag, b.data(), line }; }
__attribute__((noreturn)) static void h1(const char *fn, int line, const char *tag, const char *msg, va_list p) { take("h1", fn, line, tag, msg, p); longjmp(back_, 1); }
__attribute__((noreturn)) static void h2(const char *fn, int line, const char *tag, const char *msg, va_list p) { take("h2", fn, line, tag, msg, p); longjmp(back_, 1); }
static std::string fresh() { std::string r; char b[4096]; ssize_t n; while ((n = read(rd, b, sizeof b)) > 0) r.append(b, n); return r; }
struct Part { bool num; int v; std::string s; bool lit; };
static std::vector<Part> parts(const Toks &t, size_t i) { std::vector<Part> r; for (; i < t.size(); ++i) { std::string v = t[i].substr(4); if (t[i].compare(0, 3, "int") == 0) r.push_back({ true, num(v), "", false }); else r.push_back({ false, 0, unhex(v), t[i].compare(0, 3, "lit") == 0 }); } return r; }
static std::string format(const std::vector<Part> &p) { std::string f; for (auto &q : p) if (q.num) f += "%d"; else if (!q.lit) f += "%s"; else for (char c : q.s) { f += c; if (c == '%') f += c; } return f; }
static std::string json(const std::vector<Part> &p) { std::string r = "["; for (size_t i = 0; i < p.size(); ++i) { Ev e; e.str("k", p[i].num ? "int" : "text"); if (p[i].num) e.i("v", p[i].v); else e.bytes("s", p[i].s); std::string t = e.done(); t.pop_back(); r += (i ? "," : "") + t; } return r + "]"; }
template <class F, class... A> static void pass(F f, const std::vector<Part> &p, size_t i, A... a)
{
        while (i < p.size() && p[i].lit) ++i;
        if constexpr (sizeof...(A) < 3) if (i < p.size()) { if (p[i].num) return pass(f, p, i + 1, a..., p[i].v); return pass(f, p, i + 1, a..., p[i].s.c_str()); }
        f(a...);
}
static std::string lit(const std::string &s) { return s; }
// runs f, which may end fatally; in a process of its own when that ends the program
template <class F> static void attempt(Ev &e, F f, bool may)
{
        got = Got(); got.by = "none"; int st = 0; std::string out;
        if (may && cur == "default") {
                int p[2]; if (pipe(p)) _exit(98);
                pid_t pid = fork(); if (pid < 0) _exit(98);
                if (pid == 0) { close(p[0]); f(); (void)!write(p[1], "r", 1); _exit(0); }
                close(p[1]); while (waitpid(pid, &st, WNOHANG) == 0) { out += fresh(); usleep(200); }
                char c; bool ret = read(p[0], &c, 1) == 1; close(p[0]);
                if (!ret) { got.by = "default"; st = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
                out += fresh();
                if (!ret) { size_t k = out.find('\n'); if (k != std::string::npos) out.resize(k + 1); }   // what follows is the call stack
        } else { if (setjmp(back_) == 0) f(); out = fresh(); }
        e.str("by", got.by).bytes("shows", out).i("status", st).bytes("text", got.text).bytes("htag", got.tag).bytes("hfn", got.fn).i("hline", got.line);
}
static void use(const std::string &h) { cur = h; nx_log_fatal_func(h == "h1" ? h1 : h == "h2" ? h2 : NULL); }
static std::string fnname; static int lineno_;
static void check_it(const std::string &kind, int a, int b, int c)
{
        fnname = __func__;
        if (kind == "plain") { lineno_ = __LINE__; NX_ASSERT(a > b); }
        else if (kind == "ptr") { lineno_ = __LINE__; NX_ASSERT_PTR(a ? &a : NULL); }
        else if (kind == "custom") { lineno_ = __LINE__; NX_ASSERT_CUSTOM("100% wrong", a > b); }
        else if (kind == "range") { lineno_ = __LINE__; NX_ASSERT_RANGE(a, b, c); }
        else { lineno_ = __LINE__; NX_ASSERT_INDEX(a, b); }
}
static Part T(const std::string &s) { return { false, 0, s, true }; }
static Part N(int v) { return { true, v, "", false }; }
void begin_case(const Toks &)
{
        std::string p = g_scratch + "/err-" + std::to_string(getpid());
        int w = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); rd = open(p.c_str(), O_RDONLY); unlink(p.c_str());
        if (w < 0 || rd < 0) _exit(98);
        dup2(w, 2); close(w); term_ = false; use("default");
}
void end_case() {}
static const std::string &same(const std::string &v) { static std::set<std::string> pool; return *pool.insert(v).first; }
void run_op(const Toks &t)
{
        const std::string &op = t[0]; Ev e(op);
        if (op == "tty") {
                int m = posix_openpt(O_RDWR | O_NOCTTY); std::string nm; int s = -1;
                if (m >= 0 && grantpt(m) == 0 && unlockpt(m) == 0 && ptsname(m)) { s = open(ptsname(m), O_RDWR | O_NOCTTY); }
                if (s >= 0) { termios c; tcgetattr(s, &c); cfmakeraw(&c); tcsetattr(s, TCSANOW, &c); fcntl(m, F_SETFL, O_NONBLOCK); dup2(s, 2); rd = m; term_ = true; }
                e.b("tty", term_); emit(e); return;
        }
        if (op == "verb") { e.i("v", num(t[1])); nx_log_verbosity((NXLogVerbosity)num(t[1])); e.bytes("shows", fresh()); emit(e); return; }
        if (op == "handler") { e.str("h", t[1]); use(t[1]); e.bytes("shows", fresh()); emit(e); return; }
        bool fatal = false;
        if (op == "say" || op == "fatal") { // level via fn line tag parts
                int level = num(t[1]); const std::string &fn0 = same(unhex(t[3])), &tag = same(unhex(t[5])); std::string fn = fn0; int line = num(t[4]); bool mac = t[2] == "macro";
                std::vector<Part> ps = parts(t, 6); const std::string &f = same(format(ps)); // literals keep their address
                e.i("level", level); arm(e);
                Ev r;
                auto one = [&](auto... a) {
                        if (op == "fatal") { if (mac) { fnname = __func__; lineno_ = __LINE__; NX_FATAL(tag.c_str(), f.c_str(), a...); } else nx_log_fatal(fn0.c_str(), line, tag.c_str(), f.c_str(), a...); }
                        else if (!mac) nx_log_formatted((NXLogLevel)level, fn0.c_str(), line, tag.c_str(), f.c_str(), a...);
                        else if (level == 0) { fnname = __func__; lineno_ = __LINE__; NX_INFO(tag.c_str(), f.c_str(), a...); }
                        else if (level == 1) { fnname = __func__; lineno_ = __LINE__; NX_LOG(tag.c_str(), f.c_str(), a...); }
                        else if (level == 2) { fnname = __func__; lineno_ = __LINE__; NX_WARNING(tag.c_str(), f.c_str(), a...); }
                        else { fnname = __func__; lineno_ = __LINE__; NX_ERROR(tag.c_str(), f.c_str(), a...); }
                };
                if (mac && op == "fatal") fnname = "operator()", lineno_ = 0;
                attempt(e, [&]() { pass(one, ps, 0); }, op == "fatal");
                if (mac) { fn = fnname; line = lineno_; }
                if (mac && op == "fatal" && cur == "default") { // the place was noted in the other process: take it from what was shown, if it is this file's
                        std::string p = e.s; line = -1;
                        for (int k = 1; k < 400; ++k) { std::string w = "[operator():" + std::to_string(k) + "] ", b = Ev::barr(w.data(), w.size()); b = b.substr(1, b.size() - 2); if (p.find(b) != std::string::npos) { line = k; break; } }
                }
                e.bytes("fn", fn).i("line", line).bytes("tag", tag).raw("parts", json(ps)); fatal = got.by != "none";
        } else if (op == "assert") { // kind a b c
                const std::string &k = t[1]; int a = num(t[2]), b = num(t[3]), c = num(t[4]);
                e.str("kind", k).i("a", a).i("b", b).i("c", c); arm(e);
                if (k == "index") check_it(k, 1, 3, 0); else check_it(k, 5, 3, 9); // holds: notes the place
                attempt(e, [&]() { check_it(k, a, b, c); }, true);
                std::vector<Part> ps = k == "plain" ? std::vector<Part>{ T("Assertion 'a > b' failed") } : k == "ptr" ? std::vector<Part>{ T("Unexpected NULL pointer") } : k == "custom" ? std::vector<Part>{ T("100% wrong") }
                        : k == "range" ? std::vector<Part>{ T("Assertion 'a == "), N(a), T(" in ["), N(b), T(", "), N(c), T("]' failed") } : std::vector<Part>{ T("Assertion 'a == "), N(a), T(" in [0, "), N(b - 1), T("]' failed") };
                std::string tag = k == "plain" ? "NX_ASSERT" : k == "ptr" ? "NX_ASSERT_PTR" : k == "custom" ? "NX_ASSERT_CUSTOM" : "NX_ASSERT_RANGE";
                e.bytes("fn", fnname).i("line", lineno_).bytes("tag", tag).raw("parts", json(ps)); fatal = got.by != "none";
        } else _exit(98);
        emit(e);
        if (fatal) { Ev r("resume"); emit(r); }
}
