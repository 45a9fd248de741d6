// Conformance driver: string arrays and their binary streams.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_string_array.h"
static NXStringArray *A[4];
static FILE *F;
static char *fbuf;
static std::string path;
static long base_heap;
static bool give_up[4];
void begin_case(const Toks &)
{
        path = g_scratch + "/sa" + std::to_string(getpid());
        F = fopen(path.c_str(), "w+b");
        unlink(path.c_str());
        setvbuf(F, nullptr, _IONBF, 0);
        base_heap = __sanitizer_get_current_allocated_bytes();
}
static std::string list_json(NXStringArray *a)
{
        std::string s = "[";
        int n = nx_string_array_size(a);
        for (int i = 0; i < n; ++i) {
                char *p = nx_string_array_get(a, i);
                if (i) s += ",";
                if (nx_string_array_ptr(a)[i] != p) s += "[-2]";
                else s += p ? Ev::barr(p, strlen(p)) : "[-1]";
        }
        return s + "]";
}
static void observe(Ev &e)
{
        std::string s = "[";
        for (int a = 1; a < 4; ++a) {
                Ev x; x.i("a", a).b("ex", A[a] != nullptr).raw("list", A[a] ? list_json(A[a]) : "[]");
                std::string y = x.done(); y.pop_back();
                if (a > 1) s += ",";
                s += y;
        }
        e.raw("arrs", s + "]");
}
struct Tmp { char *p; explicit Tmp(const std::string &s) { p = strdup(s.c_str()); } ~Tmp() { memset(p, '#', strlen(p)); free(p); } };
void run_op(const Toks &t)
{
        std::string op = t[0];
        int a = t.size() > 1 ? num(t[1]) : 0;
        Ev e(op == "setf" ? "set" : op == "appendf" ? "append" : op == "clear" ? "resize" : op == "readnew" || op == "xread" ? "read" : op);
        e.i("a", a);
        if (op == "new") { int n = num(t[2]); e.i("n", n); A[a] = n ? nx_string_array_new(n) : nx_string_array_alloc(); }
        else if (op == "newlist") {
                std::vector<char *> v; std::string s = "[";
                for (size_t i = 2; i < t.size(); ++i) { std::string x = unhex(t[i]); v.push_back(strdup(x.c_str())); if (i > 2) s += ","; s += Ev::barr(x.data(), x.size()); }
                v.push_back(nullptr);
                e.raw("list", s + "]");
                A[a] = nx_string_array_new_from_null_terminated_list(v.data());
                for (char *p : v) free(p);
        }
        else if (op == "free") { nx_string_array_free(A[a]); A[a] = nullptr; }
        else if (op == "resize") { int n = num(t[2]); e.i("n", n); nx_string_array_resize(A[a], n); }
        else if (op == "clear") { e.i("n", 0); nx_string_array_clear(A[a]); }
        else if (op == "set" || op == "setf") {
                int i = num(t[2]); e.i("i", i);
                if (t[3] == "-") { e.raw("s", "[-1]"); nx_string_array_set(A[a], i - 1, nullptr); }
                else { std::string s = unhex(t[3]); e.bytes("s", s); Tmp p(s);
                        if (op == "set") nx_string_array_set(A[a], i - 1, p.p);
                        else { std::string h = s.substr(0, s.size() / 2), r = s.substr(s.size() / 2);
                               nx_string_array_setf(A[a], i - 1, "%s%s", h.c_str(), r.c_str()); } }
        }
        else if (op == "setself") { int i = num(t[2]), j = num(t[3]); e.i("i", i).i("j", j); nx_string_array_set(A[a], i - 1, nx_string_array_get(A[a], j - 1)); }
        else if (op == "setfself") { int i = num(t[2]), j = num(t[3]); std::string s = unhex(t[4]); e.i("i", i).i("j", j).bytes("s", s); nx_string_array_setf(A[a], i - 1, "%s%s", nx_string_array_get(A[a], j - 1), s.c_str()); }
        else if (op == "append" || op == "appendf") {
                std::string s = unhex(t[2]); e.bytes("s", s); Tmp p(s);
                e.i("r", op == "append" ? nx_string_array_append(A[a], p.p) : nx_string_array_appendf(A[a], "%s", p.p));
        }
        else if (op == "appendself") { int j = num(t[2]); e.i("j", j); e.i("r", nx_string_array_append(A[a], nx_string_array_get(A[a], j - 1))); }
        else if (op == "find") { std::string s = unhex(t[2]); e.bytes("s", s); Tmp p(s); e.i("r", nx_string_array_find(A[a], p.p)); }
        else if (op == "write") {
                if (t.size() > 2) { nx_string_array_xwrite(A[a], F); }
                else if (nx_string_array_write(A[a], F) != 0) e.s.replace(e.s.find("write"), 5, "WRITEFAILED");
                e.i("pos", ftell(F));
        }
        else if (op == "rewind") { rewind(F); e.i("pos", ftell(F)); }
        else if (op == "cut") { // cut <bytes removed from the end>
                fseek(F, 0, SEEK_END); long k = ftell(F) - num(t[1]); if (k < 0) k = 0;
                if (ftruncate(fileno(F), k) != 0) _exit(98);
                rewind(F); e.i("k", k).i("pos", 0);
        }
        else if (op == "read" || op == "xread" || op == "readnew") {
                bool ok;
                if (op == "xread") {
                        // fatal is the failure report here
                        Ev f = e; f.str("res", "fail");
                        arm(f);
                        if (A[a]) nx_string_array_xread(A[a], F); else A[a] = nx_string_array_xread0(F);
                        g_pending = nullptr;
                        ok = true;
                } else if (!A[a] || op == "readnew") { A[a] = nx_string_array_read0(F); ok = A[a] != nullptr; }
                else { ok = nx_string_array_read(A[a], F) == 0; if (!ok) { nx_string_array_free(A[a]); A[a] = nullptr; } }
                e.str("res", ok ? "ok" : "fail").i("pos", ftell(F));
        }
        else _exit(98);
        observe(e);
        emit(e);
}
void end_case()
{
        for (int a = 1; a < 4; ++a) { nx_string_array_free(A[a]); A[a] = nullptr; }
        long d = (long)__sanitizer_get_current_allocated_bytes() - base_heap;
        Ev e("end"); e.i("heap", d > 256 ? d : 0); // small slack: the driver's own strings
        emit(e);
}
