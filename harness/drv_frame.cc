// Conformance driver: data frames and CSV.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_data_frame.h"
#include "virg/nexus/nx_csv_lexer.h"
#include "virg/nexus/nx_csv_parser.h"
static NXDataFrame *D;
static long base_heap;
static bool jumped;
static const char *TN[] = { "string", "int", "double", "bool", "factor" };
static NXDataColumnType type_of(const std::string &s)
{
        if (s == "string") return NX_DCT_STRING;
        if (s == "int") return NX_DCT_INT;
        if (s == "double") return NX_DCT_DOUBLE;
        if (s == "bool") return NX_DCT_BOOL;
        return NX_DCT_FACTOR;
}
static const char *tname(NXDataColumnType t)
{
        switch (t) {
        case NX_DCT_STRING: return "string";
        case NX_DCT_INT: return "int";
        case NX_DCT_DOUBLE: return "double";
        case NX_DCT_BOOL: return "bool";
        case NX_DCT_FACTOR: return "factor";
        }
        return "?";
}
struct Val { std::string s; int i = 0; double d = 0; };
// a value token: x<hex> for text, otherwise a number; reals are 16 hex digits
static Val val(NXDataColumnType t, const std::string &k)
{
        Val v;
        if (t == NX_DCT_STRING || t == NX_DCT_FACTOR) v.s = unhex(k);
        else if (t == NX_DCT_DOUBLE) { uint64_t u = strtoull(k.c_str(), nullptr, 16); memcpy(&v.d, &u, 8); }
        else v.i = num(k);
        return v;
}
static std::string vjson(NXDataColumnType t, const Val &v)
{
        if (t == NX_DCT_STRING || t == NX_DCT_FACTOR) return Ev::barr(v.s.data(), v.s.size());
        if (t == NX_DCT_DOUBLE) { uint64_t u; memcpy(&u, &v.d, 8); return Ev::w64(u); }
        if (t == NX_DCT_BOOL) return v.i ? "[1]" : "[0]";
        return "[" + std::to_string(v.i) + "]";
}
static Val getv(NXDataColumnType t, int r, int c)
{
        Val v;
        switch (t) {
        case NX_DCT_STRING: v.s = nx_data_frame_get_string(D, r, c); break;
        case NX_DCT_FACTOR: v.s = nx_data_frame_get_factor(D, r, c); break;
        case NX_DCT_INT: v.i = nx_data_frame_get_int(D, r, c); break;
        case NX_DCT_BOOL: v.i = nx_data_frame_get_bool(D, r, c) != 0; break;
        case NX_DCT_DOUBLE: v.d = nx_data_frame_get_double(D, r, c); break;
        }
        return v;
}
static void observe(Ev &e)
{
        std::string s = "[";
        int nc = nx_data_frame_n_columns(D), nr = nx_data_frame_n_rows(D);
        for (int c = 0; c < nc; ++c) {
                const NXDataColumn *dc = nx_data_frame_column(D, c);
                NXDataColumnType t = nx_data_column_type(dc);
                const char *lab = nx_data_column_label(dc);
                std::string lv = "[", cs = "[";
                int nl = nx_data_column_n_factor_levels(dc);
                for (int k = 0; k < nl; ++k) {
                        const char *p = nx_data_column_factor_level(dc, k);
                        lv += (k ? "," : "") + Ev::barr(p, strlen(p));
                }
                for (int r = 0; r < nr; ++r) {
                        if (r) cs += ",";
                        if (nx_data_frame_is_na(D, r, c)) cs += "{\"na\":true}";
                        else cs += "{\"na\":false,\"v\":" + vjson(t, getv(t, r, c)) + "}";
                }
                Ev x; x.str("type", tname(t)).bytes("label", lab, strlen(lab)).raw("levels", lv + "]").raw("cells", cs + "]");
                std::string y = x.done(); y.pop_back();
                s += (c ? "," : "") + y;
        }
        Ev x; x.i("nr", nr).raw("cols", s + "]");
        std::string y = x.done(); y.pop_back();
        e.raw("fr", y);
}
static std::string slurp(FILE *f)
{
        std::string r; char b[4096]; size_t n;
        rewind(f);
        while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
        return r;
}
void begin_case(const Toks &)
{
        // let the C library make its permanent allocations first
        FILE *f = tmpfile(); if (f) { fprintf(f, "%.17g", 0.1); fclose(f); }
        jumped = false;
        base_heap = __sanitizer_get_current_allocated_bytes();
        D = nx_data_frame_alloc();
}
static std::string file_with(const std::string &txt)
{
        std::string p = g_scratch + "/df" + std::to_string(getpid());
        FILE *f = fopen(p.c_str(), "wb"); fwrite(txt.data(), 1, txt.size(), f); fclose(f);
        return p;
}
// the varargs entry points take integers/pointers and reals from separate registers, so passing each
// class in order serves every column layout with at most 4 of either class
struct Packed { long g[4] = {0, 0, 0, 0}; double d[4] = {0, 0, 0, 0}; std::vector<char *> keep; };
static std::string pack(Packed &p, const Toks &t, size_t from)
{
        std::string s = "[";
        int ng = 0, nd = 0, nc = nx_data_frame_n_columns(D);
        for (int c = 0; c < nc; ++c) {
                NXDataColumnType ty = nx_data_column_type(nx_data_frame_column(D, c));
                Val v = val(ty, t.at(from + c));
                s += (c ? "," : "") + vjson(ty, v);
                if (ty == NX_DCT_DOUBLE) p.d[nd++] = v.d;
                else if (ty == NX_DCT_STRING || ty == NX_DCT_FACTOR) { char *q = strdup(v.s.c_str()); p.keep.push_back(q); p.g[ng++] = (long)q; }
                else p.g[ng++] = v.i;
        }
        return s + "]";
}
void run_op(const Toks &t)
{
        std::string op = t[0];
        Ev e(op == "loadf" ? "load" : op == "saves" ? "save" : op);
        if (op == "addcol") { std::string l = unhex(t[2]); e.str("t", t[1]).bytes("v", l); arm(e); nx_data_frame_add_column(D, type_of(t[1]), l.c_str()); }
        else if (op == "addcols") {
                std::vector<NXDataColumnType> ty; std::vector<std::string> ls; std::vector<const char *> lp; std::string a = "[", b = "[";
                for (size_t i = 1; i + 1 < t.size(); i += 2) { ty.push_back(type_of(t[i])); ls.push_back(unhex(t[i + 1])); a += (i > 1 ? "," : "") + Ev::q(t[i]); b += (i > 1 ? "," : "") + Ev::barr(ls.back().data(), ls.back().size()); }
                for (auto &x : ls) lp.push_back(x.c_str());
                e.raw("ts", a + "]").raw("vs", b + "]");
                arm(e); nx_data_frame_add_columns(D, ty.size(), ty.data(), lp.data());
        }
        else if (op == "addrow") { arm(e); e.i("r", 1 + nx_data_frame_add_row(D)); }
        else if (op == "append") {
                Packed p; e.raw("vs", pack(p, t, 1)); arm(e);
                e.i("r", 1 + nx_data_frame_append_row(D, p.g[0], p.g[1], p.g[2], p.g[3], p.d[0], p.d[1], p.d[2], p.d[3]));
                for (char *q : p.keep) { memset(q, '#', strlen(q)); free(q); }
        }
        else if (op == "setrow") {
                Packed p; int r = num(t[1]); e.i("r", r).raw("vs", pack(p, t, 2)); arm(e);
                nx_data_frame_set(D, r - 1, p.g[0], p.g[1], p.g[2], p.g[3], p.d[0], p.d[1], p.d[2], p.d[3]);
                for (char *q : p.keep) { memset(q, '#', strlen(q)); free(q); }
        }
        else if (op == "set") {
                NXDataColumnType ty = type_of(t[1]); int r = num(t[2]), c = num(t[3]); Val v = val(ty, t[4]);
                e.str("t", t[1]).i("r", r).i("c", c).raw("v", vjson(ty, v)); arm(e);
                char *q = strdup(v.s.c_str());
                switch (ty) {
                case NX_DCT_STRING: nx_data_frame_set_string(D, r - 1, c - 1, q); break;
                case NX_DCT_FACTOR: nx_data_frame_set_factor(D, r - 1, c - 1, q); break;
                case NX_DCT_INT: nx_data_frame_set_int(D, r - 1, c - 1, v.i); break;
                case NX_DCT_BOOL: nx_data_frame_set_bool(D, r - 1, c - 1, v.i); break;
                case NX_DCT_DOUBLE: nx_data_frame_set_double(D, r - 1, c - 1, v.d); break;
                }
                memset(q, '#', strlen(q)); free(q);
        }
        else if (op == "setself") { // a string or factor cell from another one's own text
                NXDataColumnType ty = type_of(t[1]); int r = num(t[2]), c = num(t[3]), r2 = num(t[4]), c2 = num(t[5]);
                NXDataColumnType t2 = nx_data_column_type(nx_data_frame_column(D, c2 - 1));
                e.str("t", t[1]).i("r", r).i("c", c).i("r2", r2).i("c2", c2); arm(e);
                const char *q = t2 == NX_DCT_STRING ? nx_data_frame_get_string(D, r2 - 1, c2 - 1) : nx_data_frame_get_factor(D, r2 - 1, c2 - 1);
                if (ty == NX_DCT_STRING) nx_data_frame_set_string(D, r - 1, c - 1, q); else nx_data_frame_set_factor(D, r - 1, c - 1, q);
        }
        else if (op == "setna") { int r = num(t[1]), c = num(t[2]); e.i("r", r).i("c", c); arm(e); nx_data_frame_set_na(D, r - 1, c - 1); }
        else if (op == "get") { NXDataColumnType ty = type_of(t[1]); int r = num(t[2]), c = num(t[3]); e.str("t", t[1]).i("r", r).i("c", c); arm(e); Val v = getv(ty, r - 1, c - 1); e.raw("v", vjson(ty, v)); }
        else if (op == "factor") { int c = num(t[1]); e.i("c", c); arm(e); nx_data_frame_make_factor(D, c - 1); }
        else if (op == "load" || op == "loadf") { // load <text> <strings as factors>
                std::string txt = unhex(t[1]); bool fac = num(t[2]);
                e.bytes("text", txt).b("fac", fac); arm(e);
                NXDataFrame *n = nullptr;
                std::string p = file_with(txt);
                if (op == "load") { FILE *f = fopen(p.c_str(), "rb"); unlink(p.c_str()); n = nx_data_frame_load_csv_stream(f, fac); fclose(f); }
                else { n = num(t[3]) ? nx_data_frame_xload_csv(p.c_str(), fac) : nx_data_frame_load_csv(p.c_str(), fac); unlink(p.c_str()); }
                nx_data_frame_free(D); D = n;
        }
        else if (op == "parse") { // parse in memory; a refusal leaves the frame as it was
                std::string txt = unhex(t[1]); e.bytes("text", txt).b("fac", false);
                char *q = strdup(txt.c_str());
                if (setjmp(g_jmp) == 0) {
                        g_jmp_on = true;
                        NXCSVLexer *lx = nx_csv_lexer_new(q); NXCSVParser *cp = nx_csv_parser_new(lx);
                        NXDataFrame *n = nx_csv_parser_parse(cp);
                        g_jmp_on = false;
                        nx_csv_parser_free(cp); nx_csv_lexer_free(lx);
                        nx_data_frame_free(D); D = n;
                        e.str("out", "ok");
                } else { jumped = true; e.str("out", "fatal"); }
                free(q);
                observe(e); emit(e); return;
        }
        else if (op == "save") {
                std::string p = g_scratch + "/sv" + std::to_string(getpid()), txt; arm(e);
                NXBool ok = NX_TRUE;
                if (num(t[1])) nx_data_frame_xsave_csv(D, p.c_str()); else ok = nx_data_frame_save_csv(D, p.c_str());
                if (!ok) { Ev x("SAVEFAILED"); emit(x); _exit(0); }
                FILE *f = fopen(p.c_str(), "rb"); txt = slurp(f); fclose(f); unlink(p.c_str()); e.bytes("text", txt);
        }
        else if (op == "saves") {
                FILE *f = tmpfile(); arm(e);
                if (!nx_data_frame_save_csv_stream(D, f)) { Ev x("SAVEFAILED"); emit(x); _exit(0); }
                std::string txt = slurp(f); fclose(f); e.bytes("text", txt);
        }
        else if (op == "nofile") { // a path that cannot exist
                std::string p = g_scratch + "/no/such/dir", k = t[1]; std::string res = "refused";
                if (k == "load") { if (nx_data_frame_load_csv(p.c_str(), NX_FALSE)) res = "loaded"; }
                else if (k == "save") { if (nx_data_frame_save_csv(D, p.c_str())) res = "saved"; }
                else {
                        if (setjmp(g_jmp) == 0) {
                                g_jmp_on = true;
                                if (k == "xload") nx_data_frame_xload_csv(p.c_str(), NX_FALSE); else nx_data_frame_xsave_csv(D, p.c_str());
                                g_jmp_on = false; res = "returned";
                        } else jumped = true;
                }
                e.str("res", res); emit(e); return;
        }
        else _exit(98);
        observe(e);
        emit_ok(e);
}
void end_case()
{
        nx_data_frame_free(D);
        Ev e("end");
        // longjmp out of a refusal leaks what was under construction
        e.i("heap", jumped ? 0 : (long)__sanitizer_get_current_allocated_bytes() - base_heap);
        emit(e);
}
