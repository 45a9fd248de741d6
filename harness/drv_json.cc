// Conformance driver: JSON texts, trees, bundles and log streams.
#include "drv.hpp"
#define NX_ENABLE_JLOG 1
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_json_tree.h"
#include "virg/nexus/nx_json_bundle.h"
#include "virg/nexus/nx_json_log.h"
typedef NXJSONNode Node;
static std::vector<Node *> H; // 1-based handles
static std::vector<int> own;  // 0: root
static long base_heap;
static bool jumped;
static std::vector<std::string> nm;
static long heap() { return (long)__sanitizer_get_current_allocated_bytes(); }
static const char *kind(const Node *n)
{
        switch (nx_json_node_type(n)) {
        case NX_JNT_OBJECT: return "obj"; case NX_JNT_ARRAY: return "arr"; case NX_JNT_STRING: return "str";
        case NX_JNT_INTEGER: return "int"; case NX_JNT_FPNUMBER: return "fp"; case NX_JNT_TRUE: return "true";
        case NX_JNT_FALSE: return "false"; case NX_JNT_NULL: return "null";
        }
        return "?";
}
static std::string text(Node *n) { const char *t = nx_json_node_text(n); return t ? t : ""; }
static std::vector<std::string> names_of(const std::string &t) // comma separated hex, "." none
{
        std::vector<std::string> r;
        if (t == ".") return r;
        size_t p = 0;
        while (p <= t.size()) {
                size_t q = t.find(',', p);
                if (q == std::string::npos) q = t.size();
                r.push_back(unhex(t.substr(p, q - p)));
                p = q + 1;
        }
        return r;
}
static std::string jnames(const std::vector<std::string> &v)
{
        std::string s = "[";
        for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + Ev::barr(v[i].data(), v[i].size());
        return s + "]";
}
static void put(std::string &s, const char *k, const std::string &t, int q)
{
        Ev e; e.str("k", k).bytes("t", t).i("q", q);
        std::string x = e.done(); x.pop_back();
        s += (s.size() > 1 ? "," : "") + x;
}
static void walk(std::string &s, Node *n, const std::vector<std::string> &names)
{
        std::string k = kind(n);
        if (k == "arr") {
                int c = nx_json_node_n_children(n);
                put(s, "arr", "", c);
                int i = 0;
                for (Node *x; (x = nx_json_array_get(n, i, 255)); ++i) walk(s, x, names);
        } else if (k == "obj") {
                put(s, "obj", "", nx_json_node_n_children(n));
                for (auto &m : names) {
                        Node *x = nx_json_object_get(n, m.c_str(), 255);
                        if (x) walk(s, x, names); else put(s, "none", "", 0);
                }
        } else put(s, k.c_str(), text(n), 0);
}
static std::string print(Node *n, int level)
{
        char *b = nullptr; size_t z = 0;
        FILE *f = open_memstream(&b, &z);
        nx_json_tree_fprint(f, n, level);
        fclose(f);
        std::string s(b, z);
        free(b);
        return s;
}
static void show(Ev &e, Node *n, const std::vector<std::string> &names)
{
        std::string w = "[";
        walk(w, n, names);
        e.raw("walk", w + "]").raw("names", jnames(names));
        std::string p = "[";
        for (int l : { 0, 1, 2, 9 }) { std::string x = print(n, l); p += (l ? "," : "") + Ev::barr(x.data(), x.size()); }
        e.raw("pr", p + "]");
}
static Node *node(const std::string &t) { return H[num(t) - 1]; }
static int id_of(Node *n) { if (!n) return 0; for (size_t i = 0; i < H.size(); ++i) if (H[i] == n) return i + 1; return -1; }
// typed values: text x<hex>; reals 16 hex digits of the double; sizes decimal; others decimal
static std::string jval(const std::string &ty, const std::string &v)
{
        if (ty == "string") { std::string s = unhex(v); return Ev::barr(s.data(), s.size()); }
        if (ty == "size") return Ev::w64(strtoull(v.c_str(), nullptr, 10));
        if (ty == "double" || ty == "float") return Ev::w64(strtoull(v.c_str(), nullptr, 16));
        return "[" + std::to_string(num(v)) + "]";
}
static double dval(const std::string &v) { uint64_t u = strtoull(v.c_str(), nullptr, 16); double d; memcpy(&d, &u, 8); return d; }
static Node *mk(const std::string &ty, const std::string &v)
{
        if (ty == "bool") return nx_json_bundle_bool(num(v) ? NX_TRUE : NX_FALSE);
        if (ty == "char") return nx_json_bundle_char((char)num(v));
        if (ty == "uchar") return nx_json_bundle_uchar((uchar)num(v));
        if (ty == "int") return nx_json_bundle_int(num(v));
        if (ty == "size") return nx_json_bundle_size_t(strtoull(v.c_str(), nullptr, 10));
        if (ty == "float") return nx_json_bundle_float((float)dval(v));
        if (ty == "double") return nx_json_bundle_double(dval(v));
        return nx_json_bundle_string(unhex(v).c_str());
}
static std::string un(const std::string &ty, Node *n)
{
        if (ty == "bool") return nx_json_unbundle_bool(n) ? "[1]" : "[0]";
        if (ty == "char") return "[" + std::to_string((unsigned char)nx_json_unbundle_char(n)) + "]";
        if (ty == "uchar") return "[" + std::to_string((int)nx_json_unbundle_uchar(n)) + "]";
        if (ty == "int") return "[" + std::to_string(nx_json_unbundle_int(n)) + "]";
        if (ty == "size") return Ev::w64(nx_json_unbundle_size_t(n));
        if (ty == "float" || ty == "double") {
                double d = ty == "float" ? (double)nx_json_unbundle_float(n) : nx_json_unbundle_double(n);
                uint64_t u; memcpy(&u, &d, 8); return Ev::w64(u);
        }
        char *s = nx_json_unbundle_string(n);
        std::string r = Ev::barr(s, strlen(s));
        nx_free(s);
        return r;
}
static Node *mkarr(const std::string &ty, const Toks &t, size_t from)
{
        int n = t.size() - from;
        if (ty == "int") { Ints v; for (size_t i = from; i < t.size(); ++i) v.push_back(num(t[i])); return nx_json_bundle_int_array(n, v.data()); }
        if (ty == "float") { std::vector<float> v; for (size_t i = from; i < t.size(); ++i) v.push_back(dval(t[i])); return nx_json_bundle_float_array(n, v.data()); }
        if (ty == "double") { std::vector<double> v; for (size_t i = from; i < t.size(); ++i) v.push_back(dval(t[i])); return nx_json_bundle_double_array(n, v.data()); }
        std::vector<std::string> s; std::vector<char *> p;
        for (size_t i = from; i < t.size(); ++i) s.push_back(unhex(t[i]));
        for (auto &x : s) p.push_back(&x[0]);
        return nx_json_bundle_string_array(n, p.data());
}
static std::string unarr(const std::string &ty, Node *a)
{
        int n = -1;
        std::string s = "[";
        if (ty == "int") { int *v = nx_json_unbundle_int_array(a, &n); for (int i = 0; i < n; ++i) s += (i ? ",[" : "[") + std::to_string(v[i]) + "]"; nx_free(v); }
        else if (ty == "float") { float *v = nx_json_unbundle_float_array(a, &n); for (int i = 0; i < n; ++i) { double d = v[i]; uint64_t u; memcpy(&u, &d, 8); s += (i ? "," : "") + Ev::w64(u); } nx_free(v); }
        else if (ty == "double") { double *v = nx_json_unbundle_double_array(a, &n); for (int i = 0; i < n; ++i) { uint64_t u; memcpy(&u, &v[i], 8); s += (i ? "," : "") + Ev::w64(u); } nx_free(v); }
        else if (ty == "strings") {
                NXStringArray *sa = nx_json_unbundle_as_string_array(a);
                n = nx_string_array_size(sa);
                for (int i = 0; i < n; ++i) { const char *p = nx_string_array_get(sa, i); s += (i ? "," : "") + Ev::barr(p, strlen(p)); }
                nx_string_array_free(sa);
        } else { char **v = nx_json_unbundle_string_array(a, &n); for (int i = 0; i < n; ++i) { s += (i ? "," : "") + Ev::barr(v[i], strlen(v[i])); nx_free(v[i]); } nx_free(v); }
        return s + "]";
}
static std::string jnode(Node *n, int first)
{
        std::string c = "[";
        if (std::string(kind(n)) == "arr")
                for (int i = 0; nx_json_array_get(n, i, 255); ++i) c += (i ? "," : "") + std::string("{\"n\":[],\"i\":") + std::to_string(first + i) + "}";
        Ev e; e.str("k", kind(n)).bytes("t", text(n)).raw("c", c + "]");
        std::string s = e.done(); s.pop_back();
        return s;
}
static NXKeypoint key_of(const Toks &t, size_t &p)
{
        NXKeypoint k;
        k.x = num(t[p++]); k.y = num(t[p++]); k.xs = dval(t[p++]); k.ys = dval(t[p++]); k.level = num(t[p++]);
        k.scale = dval(t[p++]); k.sigma = dval(t[p++]); k.score = dval(t[p++]); k.ori = dval(t[p++]);
        k.id = strtoull(t[p++].c_str(), nullptr, 10);
        return k;
}
static std::string jkey(const NXKeypoint &k)
{
        auto I = [](int v) { return "[" + std::to_string(v) + "]"; };
        auto F = [](float f) { double d = f; uint64_t u; memcpy(&u, &d, 8); return Ev::w64(u); };
        return "[" + I(k.x) + "," + I(k.y) + "," + F(k.xs) + "," + F(k.ys) + "," + I(k.level) + "," + F(k.scale) + "," + F(k.sigma) + ","
               + F(k.score) + "," + F(k.ori) + "," + Ev::w64(k.id) + "]";
}
#define TRY(e, body) \
        do { \
                if (setjmp(g_jmp) == 0) { g_jmp_on = true; body; g_jmp_on = false; (e).str("out", "ok"); } \
                else { jumped = true; (e).str("out", "fatal"); } \
                emit(e); \
        } while (0)

void begin_case(const Toks &) { H.clear(); own.clear(); H.reserve(4096); own.reserve(4096); jumped = false; base_heap = heap(); }
static Node *parse_src(const std::string &src, const std::string &txt)
{
        if (src == "mem") {
                static char buf[1 << 20];
                memcpy(buf, txt.c_str(), txt.size() + 1);
                return nx_json_tree_from_string(buf);
        }
        std::string path = g_scratch + "/j" + std::to_string(getpid());
        FILE *f = fopen(path.c_str(), "w");
        fwrite(txt.data(), 1, txt.size(), f);
        fclose(f);
        Node *n;
        if (src == "file") n = nx_json_tree_from_file(path.c_str());
        else { f = fopen(path.c_str(), "r"); n = nx_json_tree_from_stream(f); fclose(f); }
        unlink(path.c_str());
        return n;
}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        static Node *n;
        static long h0;
        if (op == "parse" || op == "big") { // parse SRC TEXT NAMES
                std::string txt;
                if (op == "big") { // big SRC DEPTH WIDTH: [[..[1,1,1]..]]
                        int d = num(t[2]), w = num(t[3]);
                        txt = std::string(d, '[');
                        for (int i = 0; i < w; ++i) txt += i ? ",7" : "7";
                        txt += std::string(d, ']');
                        e.i("d", d).i("w", w);
                        static int c, k;
                        TRY(e, n = parse_src(t[1], txt);
                            k = 0;
                            for (Node *m = n; nx_json_node_is(m, NX_JNT_ARRAY) && nx_json_array_get(m, 0, 255); m = nx_json_array_get(m, 0, 255)) { ++k; c = nx_json_node_n_children(m); }
                            e.i("depth", k).i("count", c).i("plen", (long long)print(n, 0).size());
                            nx_json_tree_free(n));
                        return;
                }
                txt = unhex(t[2]);
                nm = names_of(t[3]);
                e.str("src", t[1]).bytes("text", txt);
                TRY(e, n = parse_src(t[1], txt);
                    { Ev w; show(w, n, nm); e.s += "," + w.s.substr(1); }
                    nx_json_tree_free(n);
                    h0 = heap();
                    nx_json_tree_free(parse_src(t[1], txt));
                    e.i("heap", heap() - h0));
        } else if (op == "nofile") {
                TRY(e, n = nx_json_tree_from_file((g_scratch + "/none/x").c_str()));
        } else if (op == "new") { // new KIND TEXT
                std::string x = unhex(t[2]);
                e.str("k", t[1]).bytes("t", x);
                const std::string &k = t[1];
                arm(e);
                n = k == "obj" ? nx_json_node_new_object() : k == "arr" ? nx_json_node_new_array() : k == "str" ? nx_json_node_new_string(x.c_str())
                  : k == "int" ? nx_json_node_new_integer(x.c_str()) : k == "fp" ? nx_json_node_new_fpnumber(x.c_str()) : k == "true" ? nx_json_node_new_true()
                  : k == "false" ? nx_json_node_new_false() : nx_json_node_new_null();
                H.push_back(n); own.push_back(0);
                e.str("gk", kind(n)).bytes("gt", text(n));
                emit_ok(e);
        } else if (op == "add") {
                e.i("p", num(t[1])).i("h", num(t[2]));
                arm(e);
                n = nx_json_array_add(node(t[1]), node(t[2]));
                own[num(t[2]) - 1] = num(t[1]);
                e.i("res", id_of(n));
                emit_ok(e);
        } else if (op == "oadd") {
                std::string nm = unhex(t[2]);
                e.i("p", num(t[1])).bytes("n", nm).i("h", num(t[3]));
                arm(e);
                n = nx_json_object_add(node(t[1]), nm.c_str(), node(t[3]));
                std::fill(nm.begin(), nm.end(), '?');
                own[num(t[3]) - 1] = num(t[1]);
                e.i("res", id_of(n));
                emit_ok(e);
        } else if (op == "aget") { // aget P POS MASK FORCE
                e.i("p", num(t[1])).i("pos", num(t[2])).i("mask", num(t[3])).b("force", num(t[4]));
                TRY(e, n = num(t[4]) ? nx_json_array_fget(node(t[1]), num(t[2]), num(t[3])) : nx_json_array_get(node(t[1]), num(t[2]), num(t[3]));
                    e.i("res", id_of(n)));
        } else if (op == "oget") {
                std::string nm = unhex(t[2]);
                e.i("p", num(t[1])).bytes("n", nm).i("mask", num(t[3])).b("force", num(t[4]));
                TRY(e, n = num(t[4]) ? nx_json_object_fget(node(t[1]), nm.c_str(), num(t[3])) : nx_json_object_get(node(t[1]), nm.c_str(), num(t[3]));
                    e.i("res", id_of(n)));
        } else if (op == "info") {
                n = node(t[1]);
                e.i("h", num(t[1])).i("cnt", nx_json_node_n_children(n)).str("gk", kind(n)).bytes("gt", text(n));
                std::string s = "[";
                for (int m : { 1, 2, 4, 8, 16, 32, 64, 128, NX_JNT_NUMBER, NX_JNT_BOOL, NX_JNT_COMPOSITE, NX_JNT_INTEGRAL, NX_JNT_VALUE, 255, 0 })
                        s += (s.size() > 1 ? "," : "") + std::string("{\"m\":") + std::to_string(m) + ",\"is\":" + (nx_json_node_is(n, m) ? "true" : "false")
                             + ",\"a\":" + (nx_json_node_is_a(n, m) ? "true" : "false") + "}";
                e.raw("is", s + "]");
                emit_ok(e);
        } else if (op == "show") {
                e.i("h", num(t[1]));
                arm(e);
                Ev w; show(w, node(t[1]), names_of(t[2]));
                e.s += "," + w.s.substr(1);
                emit_ok(e);
        } else if (op == "bundle") { // bundle TYPE VALUE
                e.str("ty", t[1]).raw("vs", "[" + jval(t[1], t[2]) + "]");
                arm(e);
                n = mk(t[1], t[2]);
                H.push_back(n); own.push_back(0);
                e.raw("ns", "[" + jnode(n, 0) + "]");
                emit_ok(e);
        } else if (op == "bundlearr") {
                std::string v = "[";
                for (size_t i = 2; i < t.size(); ++i) v += (i > 2 ? "," : "") + jval(t[1], t[i]);
                e.str("ty", t[1]).raw("vs", v + "]");
                arm(e);
                n = mkarr(t[1], t, 2);
                H.push_back(n); own.push_back(0);
                int me = H.size();
                std::string s = "[" + jnode(n, 2);
                Node *x;
                for (int i = 0; (x = nx_json_array_get(n, i, 255)); ++i) { s += "," + jnode(x, 0); H.push_back(x); own.push_back(me); }
                e.raw("ns", s + "]");
                emit_ok(e);
        } else if (op == "unb") { // unb TYPE H
                e.str("ty", t[1]).i("h", num(t[2]));
                arm(e);
                e.raw("v", un(t[1], node(t[2])));
                emit_ok(e);
        } else if (op == "unbarr") { // unbarr TYPE H
                e.str("ty", t[1] == "strings" ? "string" : t[1]).i("h", num(t[2]));
                TRY(e, e.raw("vs", unarr(t[1], node(t[2]))));
        } else if (op == "rt") { // rt TYPE LEVEL VALUES...: bundle, print, parse, unbundle
                std::string v = "[", b = "[";
                for (size_t i = 3; i < t.size(); ++i) v += (i > 3 ? "," : "") + jval(t[1], t[i]);
                e.str("ty", t[1]).raw("vs", v + "]");
                arm(e);
                for (int pass = 0; pass < 2; ++pass) {
                        b = "[";
                        b.reserve(1 << 16);
                        h0 = heap();
                        bool whole = t[1] == "int" || t[1] == "float" || t[1] == "double" || t[1] == "string";
                        Node *a = whole ? mkarr(t[1], t, 3) : nx_json_node_new_array();
                        if (!whole) for (size_t i = 3; i < t.size(); ++i) nx_json_array_add(a, mk(t[1], t[i]));
                        std::string p = print(a, num(t[2]));
                        nx_json_tree_free(a);
                        a = nx_json_tree_from_string(&p[0]);
                        if (whole) { std::string u = unarr(t[1], a); b.assign(u); }
                        else {
                                int c = nx_json_node_n_children(a);
                                for (int i = 0; i < c; ++i) b += (i ? "," : "") + un(t[1], nx_json_array_get(a, i, 255));
                                b += "]";
                        }
                        nx_json_tree_free(a);
                }
                h0 = heap() - h0;
                e.raw("back", b).i("heap", h0);
                emit_ok(e);
        } else if (op == "keys") { // keys LEVEL (10 values)*
                std::vector<NXKeypoint> ks;
                std::string v = "[", b = "[";
                for (size_t p = 2; p + 9 < t.size();) { ks.push_back(key_of(t, p)); v += (ks.size() > 1 ? "," : "") + jkey(ks.back()); }
                e.raw("vs", v + "]");
                arm(e);
                h0 = heap();
                {
                        Node *a = nx_json_bundle_keypoint_array(ks.size(), ks.data());
                        std::string p = print(a, num(t[1]));
                        nx_json_tree_free(a);
                        e.bytes("text", p);
                        a = nx_json_tree_from_string(&p[0]);
                        int c = -1;
                        NXKeypoint *k = nx_json_unbundle_keypoint_array(a, &c);
                        for (int i = 0; i < c; ++i) b += (i ? "," : "") + jkey(k[i]);
                        nx_free(k);
                        nx_json_tree_free(a);
                }
                e.raw("back", b + "]").i("heap", 0);
                emit_ok(e);
        } else if (op == "keymiss") { // keymiss WHICH MODE: a keypoint object without one of its fields, or with it as a string
                static const char *fn[] = { "x", "y", "xs", "ys", "level", "scale", "sigma", "score", "ori", "id" };
                TRY(e, n = nx_json_node_new_object();
                    for (int i = 0; i < 10; ++i) {
                            bool r = i == 2 || i == 3 || (i >= 5 && i <= 8);
                            if (i == num(t[1])) { if (num(t[2])) nx_json_object_add(n, fn[i], nx_json_bundle_string("1")); continue; }
                            nx_json_object_add(n, fn[i], r ? nx_json_bundle_double(1.5) : nx_json_bundle_int(3));
                    }
                    nx_json_unbundle_keypoint(n));
        } else if (op == "log" || op == "loga") { // log ID KEY TYPE VALUE
                std::string key = unhex(t[2]), s = t[3] == "string" ? unhex(t[4]) : "";
                e.i("id", num(t[1])).bytes("key", key).str("ty", t[3]).raw("v", jval(t[3], t[4]));
                int id = num(t[1]);
                TRY(e,
                    if (op == "log") { if (t[3] == "int") { NX_JLOG_I(id, key.c_str(), num(t[4])); } else { NX_JLOG_S(id, key.c_str(), s.c_str()); } }
                    else { if (t[3] == "int") { NX_JLOG_ADDI(id, key.c_str(), num(t[4])); } else { NX_JLOG_ADDS(id, key.c_str(), s.c_str()); } });
        } else if (op == "logclear") {
                e.i("id", num(t[1]));
                int id = num(t[1]);
                TRY(e, NX_JLOG_CLEAR(id));
        } else if (op == "logfree") {
                TRY(e, NX_JLOG_CLEAR_ALL());
        } else if (op == "logshow") {
                nm = names_of(t[2]);
                e.i("id", num(t[1]));
                int id = num(t[1]);
                TRY(e, n = nx_json_log_get_stream(id); { Ev w; show(w, n, nm); e.s += "," + w.s.substr(1); }
                    { char *b = nullptr; size_t z = 0; FILE *f = open_memstream(&b, &z); NX_JLOG_FPRINT(id, f); fclose(f);
                      std::string x(b, z); free(b); e.bytes("fp", x); });
        } else _exit(97);
}
void end_case()
{
        if (jumped) return;
        std::vector<std::string>().swap(nm);
        nx_json_log_free();
        for (size_t i = 0; i < H.size(); ++i) if (own[i] == 0) nx_json_tree_free(H[i]);
        Ev e("end");
        long d = heap() - base_heap;
        e.i("heap", d > 48 ? d : 0); // the event's own text is allocated by now
        emit(e);
}
