// Conformance driver: command-line options, C interface ("c") and C++ wrapper ("x").
#include "drv.hpp"
#include "virg/nexus/nx_options.h"
#include "virg/nexus/vg_options.hpp"
using virg::nexus::VGOptions;

static bool cxx;
static NXOptions *O;
static VGOptions *X;
static std::string errpath;
static std::vector<std::pair<std::string, char>> known; // names declared so far
static bool in_lib;

static std::string slurp_fd(int fd)
{
        std::string r; char b[4096]; ssize_t n;
        lseek(fd, 0, SEEK_SET);
        while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
        return r;
}
// a heap copy the library must not keep: overwritten and freed after the call
struct Tmp {
        char *p; size_t n;
        explicit Tmp(const std::string &s) : n(s.size()) { p = (char *)malloc(n + 1); memcpy(p, s.c_str(), n + 1); }
        ~Tmp() { memset(p, '#', n); free(p); }
        operator const char *() const { return p; }
        Tmp(const Tmp &) = delete;
};
static void at_exit()
{
        if (!in_lib || !g_pending) _exit(96);
        fflush(stderr);
        std::string t = slurp_fd(2);
        Ev e = *g_pending;
        e.str("out", "exit").bytes("err", t);
        wr(e.done());
        _exit(0);
}
void begin_case(const Toks &)
{
        errpath = g_scratch + "/err" + std::to_string(getpid());
        int fd = open(errpath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        unlink(errpath.c_str());
        dup2(fd, 2);
        atexit(at_exit);
}
static std::string f_of(double d) { char b[1024]; snprintf(b, sizeof b, "%f", d); return b; }
static bool c_isset(const std::string &n) { return cxx ? X->is_set(n) : nx_options_is_set(O, n.c_str()) != NX_FALSE; }
static std::string value(const std::string &n, char ty)
{
        if (ty == 'b') { Ints v = { cxx ? (int)X->get_bool(n) : (int)nx_options_get_bool(O, n.c_str()) }; return Ev::arr(v); }
        if (ty == 'i') { Ints v = { cxx ? X->get_int(n) : nx_options_get_int(O, n.c_str()) }; return Ev::arr(v); }
        if (ty == 'd') { double d = cxx ? X->get_double(n) : nx_options_get_double(O, n.c_str()); uint64_t u; memcpy(&u, &d, 8); return Ev::w64(u); }
        std::string s;
        if (cxx) s = X->get_string(n);
        else { const char *p = nx_options_get_string(O, n.c_str()); if (!p) return "[-1]"; s = p; }
        return Ev::barr(s.data(), s.size());
}
static void observe(Ev &e)
{
        std::string r = "[";
        for (auto &k : known) {
                if (k.second == 'h') continue;
                if (r.size() > 1) r += ",";
                Ev x; x.bytes("n", k.first).str("ty", std::string(1, k.second));
                x.raw("v", value(k.first, k.second));
                x.b("set", c_isset(k.first));
                std::string s = x.done(); s.pop_back(); r += s;
        }
        e.raw("reads", r + "]");
        std::string q = "[";
        if (cxx) {
                std::vector<std::string> v = X->get_rest();
                for (size_t i = 0; i < v.size(); ++i) { if (i) q += ","; q += Ev::barr(v[i].data(), v[i].size()); }
        } else {
                char **v = nx_options_get_rest(O);
                for (int i = 0; v && v[i]; ++i) { if (i) q += ","; q += Ev::barr(v[i], strlen(v[i])); }
        }
        e.raw("rest", q + "]");
}
static void names_of(const std::string &t, char ty)
{
        size_t k = t.find('|');
        known.push_back({ t.substr(0, k), ty });
        if (k != std::string::npos) known.push_back({ t.substr(k + 1), ty });
}
static std::string scalar(double d, int i, const std::string &s)
{
        Ev x; x.i("i", i).dbl("d", d).bytes("f", f_of(d)).bytes("s", s);
        std::string r = x.done(); r.pop_back(); return r;
}
// several declarations in one variadic call
struct Decl { char ty; bool req; Tmp *names, *help, *s; int i; double d; };
static std::vector<Decl> group;
static std::string group_format;
static bool group_new;
template <class... A> static void call_group(A... a) { if (group_new) { nx_options_free(O); O = nx_options_new(group_format.c_str(), a...); } else nx_options_add(O, group_format.c_str(), a...); }
template <int N, class... A> static void pass_group(size_t k, A... a)
{
        if (k == group.size()) { call_group(a...); return; }
        if constexpr (N > 0) {
                Decl &d = group[k];
                if (d.ty == 'r') pass_group<N - 1>(k + 1, a..., (char *)d.help->p);
                else if (d.ty == 'd') pass_group<N - 1>(k + 1, a..., (char *)d.names->p, (char *)d.help->p, d.d);
                else if (d.ty == 's') pass_group<N - 1>(k + 1, a..., (char *)d.names->p, (char *)d.help->p, (char *)d.s->p);
                else pass_group<N - 1>(k + 1, a..., (char *)d.names->p, (char *)d.help->p, d.i);
        }
}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        in_lib = true;
        if (op == "mode") { cxx = t[1] == "x"; if (cxx) X = new VGOptions(); else O = nx_options_alloc(); return; }
        if (op == "decl") { // decl ty req names default help
                char ty = t[1][0]; bool req = t[2] == "1";
                std::string names = unhex(t[3]), help = unhex(t[5]);
                int di = 0; double dd = 0; std::string ds;
                if (ty == 'b' || ty == 'i') di = num(t[4]);
                if (ty == 'd') dd = strtod(t[4].c_str(), nullptr);
                if (ty == 's') ds = unhex(t[4]);
                e.str("ty", t[1]).b("req", req);
                if (ty == 'h') { names = "-h|--help"; help = "Display usage help"; }
                e.bytes("names", names).bytes("help", help).raw("def", scalar(dd, di, ds));
                arm(e);
                VGOptions::RequirementState rs = req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED;
                if (ty == 'h') { if (cxx) X->add_help(); else nx_options_add_help(O); }
                else if (cxx) {
                        if (ty == 'b') X->add_bool(names, help, rs, di != 0);
                        if (ty == 'i') X->add_int(names, help, rs, di);
                        if (ty == 'd') X->add_double(names, help, rs, dd);
                        if (ty == 's') X->add_string(names, help, rs, ds);
                } else {
                        Tmp f(std::string(1, req ? toupper(ty) : ty)), n(names), h(help), s(ds);
                        if (ty == 'b') nx_options_add(O, f, n.p, h.p, di ? NX_TRUE : NX_FALSE);
                        if (ty == 'i') nx_options_add(O, f, n.p, h.p, di);
                        if (ty == 'd') nx_options_add(O, f, n.p, h.p, dd);
                        if (ty == 's') nx_options_add(O, f, n.p, h.p, s.p);
                }
                names_of(names, ty);
                observe(e);
        } else if (op == "group") { // new|add, then (ty req names default help) each
                group.clear(); group_format.clear(); group_new = t[1] == "new" && known.empty();
                std::string ds = "[";
                for (size_t k = 2; k + 4 < t.size(); k += 5) {
                        Decl d; d.ty = t[k][0]; d.req = t[k + 1] == "1"; d.i = 0; d.d = 0; std::string s, n = unhex(t[k + 2]), h = unhex(t[k + 4]);
                        if (d.ty == 'b' || d.ty == 'i') d.i = num(t[k + 3]);
                        if (d.ty == 'd') d.d = strtod(t[k + 3].c_str(), nullptr);
                        if (d.ty == 's') s = unhex(t[k + 3]);
                        d.names = new Tmp(n); d.help = new Tmp(h); d.s = new Tmp(s);
                        group_format += d.req ? toupper(d.ty) : d.ty; group.push_back(d);
                        Ev x; x.str("ty", t[k]).b("req", d.req).bytes("names", n).bytes("help", h).raw("def", scalar(d.d, d.i, s));
                        std::string q = x.done(); q.pop_back(); if (ds.size() > 1) ds += ","; ds += q;
                }
                e.raw("ds", ds + "]");
                arm(e);
                pass_group<4>(0);
                for (size_t k = 0; k < group.size(); ++k) { if (group[k].ty != 'r') names_of(unhex(t[2 + 5 * k + 2]), group[k].ty); delete group[k].names; delete group[k].help; delete group[k].s; }
                group.clear();
                observe(e);
        } else if (op == "rest") { // rest req help
                bool req = t[1] == "1"; std::string help = unhex(t[2]);
                e.b("req", req).bytes("help", help);
                arm(e);
                if (cxx) X->add_rest(help, req ? VGOptions::REQUIRED : VGOptions::NOT_REQUIRED);
                else { Tmp h(help); nx_options_add(O, req ? "R" : "r", h.p); }
                observe(e);
        } else if (op == "badformat") {
                arm(e);
                if (cxx) return;
                nx_options_add(O, "q", "-q", "help", 0);
        } else if (op == "parse") {
                std::string a = "[";
                int argc = (int)t.size() - 1;
                char **argv = (char **)malloc(sizeof(char *) * (argc + 1));
                for (int i = 0; i < argc; ++i) {
                        std::string s = unhex(t[i + 1]);
                        argv[i] = strdup(s.c_str());
                        if (i) a += ",";
                        a += scalar(strtod(s.c_str(), nullptr), 0, s);
                }
                argv[argc] = nullptr;
                e.raw("argv", a + "]");
                arm(e);
                fflush(stderr);
                if (ftruncate(2, 0) || lseek(2, 0, SEEK_SET)) _exit(98);
                if (cxx) X->set_from_args(argc, argv); else nx_options_set_from_args(O, argc, argv);
                for (int i = 0; i < argc; ++i) { memset(argv[i], '#', strlen(argv[i])); free(argv[i]); }
                free(argv);
                observe(e);
        } else if (op == "get") {
                std::string n = unhex(t[2]);
                e.str("ty", t[1]).bytes("n", n);
                arm(e);
                std::string v = value(n, t[1][0]);
                e.raw("v", v);
        } else if (op == "isset") {
                std::string n = unhex(t[1]); e.bytes("n", n); arm(e);
                bool v = c_isset(n); e.b("v", v);
        } else if (op == "header" || op == "footer") {
                std::string s = unhex(t[1]); e.bytes("text", s); arm(e);
                Tmp h(s);
                if (op == "header") { if (cxx) X->set_usage_header(s); else nx_options_set_usage_header(O, h); }
                else { if (cxx) X->set_usage_footer(s); else nx_options_set_usage_footer(O, h); }
                observe(e);
        } else if (op == "values" || op == "usage") {
                arm(e);
                char *b = nullptr; size_t n = 0;
                FILE *f = open_memstream(&b, &n);
                if (op == "values") { if (cxx) X->print_values(f); else nx_options_print_values(O, f); }
                else { if (cxx) X->print_usage(f); else nx_options_print_usage(O, f); }
                fclose(f);
                e.bytes("text", b, n);
                free(b);
        } else _exit(98);
        emit_ok(e);
}
void end_case()
{
        in_lib = false;
        if (cxx) delete X; else nx_options_free(O);
        Ev e("end"); emit(e);
}
