// Common part of every conformance driver.
//
// A driver reads a script (argv[1]) made of cases; every line is an operation:
//     @ <case id>
//     OP arg arg ...
// and appends one JSON object per executed operation to argv[2].  Each case runs
// in a forked child, so a fatal exit, a crash or an endless loop of the library
// is one more observable outcome ("fatal" in the operation's own event, or a
// final {"op":"CRASH"} / {"op":"HANG"} event) and never disturbs other cases.
#ifndef DRV_HPP
#define DRV_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "virg/nexus/nx_log.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" const char *__asan_default_options()
{
        return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
               "hard_rss_limit_mb=3000:handle_segv=1:detect_odr_violation=0:log_path=/dev/null:"
               "max_allocation_size_mb=1500:malloc_context_size=2";
}

typedef std::vector<std::string> Toks;
typedef std::vector<int> Ints;

static int g_out = -1;
static void wr(const std::string &s)
{
        size_t o = 0;
        while (o < s.size()) {
                ssize_t n = write(g_out, s.data() + o, s.size() - o);
                if (n <= 0) _exit(98);
                o += n;
        }
}

// JSON object under construction
struct Ev {
        std::string s;
        Ev() : s("{") {}
        explicit Ev(const std::string &op) : s("{") { str("op", op); }
        void key(const char *k) { if (s.size() > 1) s += ','; s += '"'; s += k; s += "\":"; }
        static std::string q(const std::string &v)
        {
                std::string r = "\"";
                for (unsigned char c : v) {
                        if (c == '"' || c == '\\') { r += '\\'; r += c; }
                        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
                        else r += c;
                }
                return r + "\"";
        }
        Ev &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
        Ev &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
        Ev &str(const char *k, const std::string &v) { key(k); s += q(v); return *this; }
        Ev &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
        static std::string arr(const Ints &v)
        {
                std::string r = "[";
                for (size_t n = 0; n < v.size(); ++n) { if (n) r += ','; r += std::to_string(v[n]); }
                return r + "]";
        }
        Ev &ints(const char *k, const Ints &v) { key(k); s += arr(v); return *this; }
        static std::string barr(const void *p, size_t n)
        {
                Ints v;
                for (size_t j = 0; j < n; ++j) v.push_back(((const unsigned char *)p)[j]);
                return arr(v);
        }
        Ev &bytes(const char *k, const void *p, size_t n) { key(k); s += barr(p, n); return *this; }
        Ev &bytes(const char *k, const std::string &v) { return bytes(k, v.data(), v.size()); }
        // 64-bit word as four 16-bit pieces, most significant first (TLC ints are 32-bit)
        static std::string w64(uint64_t v)
        {
                Ints r;
                for (int j = 3; j >= 0; --j) r.push_back((int)((v >> (16 * j)) & 0xffff));
                return arr(r);
        }
        Ev &u64(const char *k, uint64_t v) { key(k); s += w64(v); return *this; }
        Ev &dbl(const char *k, double v) { uint64_t u; memcpy(&u, &v, 8); return u64(k, u); }
        std::string done() const { return s + "}\n"; }
};

// pending fields of the operation that is executing, used when the library ends fatally
static Ev *g_pending = nullptr;
static std::string g_opname;
static void emit(const Ev &e) { wr(e.done()); g_pending = nullptr; }
// called by a driver just before it calls into the library with e = op + arguments
static Ev &arm(Ev &e) { g_pending = &e; return e; }
static void emit_ok(Ev &e) { e.str("out", "ok"); emit(e); }

static void drv_fatal(const char *, int, const char *, const char *, va_list) __attribute__((noreturn));
// set while a call whose fatal end does not spoil later calls is running
static jmp_buf g_jmp;
static bool g_jmp_on = false;
static void drv_fatal(const char *, int, const char *, const char *, va_list)
{
        if (g_jmp_on) { g_jmp_on = false; longjmp(g_jmp, 1); }
        if (g_pending) { Ev e = *g_pending; e.str("out", "fatal"); wr(e.done()); }
        else { Ev e("FATAL"); e.str("at", g_opname); wr(e.done()); }
        _exit(0);
}

static std::string unhex(const std::string &t) // "x4142" -> "AB"
{
        std::string r;
        for (size_t j = 1; j + 1 < t.size() + 0; j += 2)
                r += (char)strtol(t.substr(j, 2).c_str(), nullptr, 16);
        return r;
}
static int num(const std::string &t) { return (int)strtoll(t.c_str(), nullptr, 10); }
static long long lnum(const std::string &t) { return strtoll(t.c_str(), nullptr, 10); }
static Ints nums(const std::string &t) // "1,2,3"; "." is the empty list
{
        Ints r;
        if (t == ".") return r;
        size_t p = 0;
        while (p < t.size()) {
                size_t q = t.find(',', p);
                if (q == std::string::npos) q = t.size();
                r.push_back(num(t.substr(p, q - p)));
                p = q + 1;
        }
        return r;
}

// supplied by each driver
void run_op(const Toks &t);
void begin_case(const Toks &t);
void end_case();

static std::string g_scratch; // scratch directory of this process

int main(int argc, char **argv)
{
        if (argc < 4) { fprintf(stderr, "usage: drv script out scratch\n"); return 2; }
        g_scratch = argv[3];
        FILE *f = fopen(argv[1], "r");
        if (!f) return 2;
        std::vector<std::vector<Toks>> cases;
        char *line = nullptr; size_t cap = 0; ssize_t n;
        while ((n = getline(&line, &cap, f)) > 0) {
                Toks t; std::string cur;
                for (ssize_t j = 0; j < n; ++j) {
                        char c = line[j];
                        if (c == ' ' || c == '\n') { if (!cur.empty()) t.push_back(cur); cur.clear(); }
                        else cur += c;
                }
                if (!cur.empty()) t.push_back(cur);
                if (t.empty()) continue;
                if (t[0] == "@") cases.push_back(std::vector<Toks>());
                if (cases.empty()) return 2;
                cases.back().push_back(t);
        }
        free(line);
        fclose(f);
        g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        if (g_out < 0) return 2;
        int bad = 0;
        for (auto &c : cases) {
                if (bad >= 5) break; // enough to report; the trace is rejected anyway
                pid_t pid = fork();
                if (pid < 0) return 2;
                if (pid == 0) {
                        struct rlimit rl = { 10, 10 };
                        setrlimit(RLIMIT_CPU, &rl);
                        struct rlimit rc = { 0, 0 };
                        setrlimit(RLIMIT_CORE, &rc);
                        struct rlimit rf = { 64u << 20, 64u << 20 };
                        setrlimit(RLIMIT_FSIZE, &rf);
                        alarm(240);
                        int dn = open("/dev/null", O_RDWR);
                        dup2(dn, 0); dup2(dn, 1); dup2(dn, 2);
                        nx_log_fatal_func(drv_fatal);
                        Ev e("case"); e.str("id", c[0].size() > 1 ? c[0][1] : "?"); wr(e.done());
                        g_opname = "begin"; begin_case(c[0]);
                        for (size_t j = 1; j < c.size(); ++j) { g_opname = c[j][0]; run_op(c[j]); }
                        g_opname = "end"; end_case();
                        _exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
                        Ev e("HANG"); wr(e.done()); bad += 5;
                } else if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
                        if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return 2;
                        Ev e("CRASH"); e.i("code", st); wr(e.done()); ++bad;
                }
        }
        return 0;
}
#endif
