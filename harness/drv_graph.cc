// Conformance driver: graphs, both representations fed the same insertions.
#include "drv.hpp"
#include "virg/nexus/nx_graph.h"
static NXGraphAdjMat *M;
static NXGraphAdjLst *L;
static long base_heap;
static std::string want;
// weight x stands for the double x / 2
static int code(double d) { return d == NX_ABSENT_EDGE_WEIGHT ? 999999 : (d >= 0 && d * 2 == (int)(d * 2)) ? (int)(d * 2) : -77; }
void begin_case(const Toks &) {}
static void observe(Ev &e)
{
        Ints m, f;
        for (int i = 0; i < M->n_v * M->n_v; ++i) m.push_back(code(M->weights[i]));
        std::string s = "[";
        for (int u = 0; u < L->n_v; ++u) {
                if (u) s += ",";
                s += "[";
                int guard = 0;
                for (NXGraphEdge *q = L->edges[u]; q && guard < 1000; q = q->next, ++guard) {
                        if (guard) s += ",";
                        Ints x = { q->v, code(q->weight) };
                        s += Ev::arr(x);
                }
                s += "]";
                for (int v = 0; v < L->n_v; ++v) {
                        NXGraphEdge *q = nx_graph_edge_list_seach(L->edges[u], v);
                        f.push_back(q ? (q->v == v ? code(q->weight) : -78) : 999999);
                }
        }
        e.i("mv", M->n_v).i("lv", L->n_v).i("me", M->n_e).i("le", L->n_e).ints("mat", m).raw("lst", s + "]").ints("found", f);
        e.str("names", std::string(M->name) + "|" + L->name).str("want", want);
}
void run_op(const Toks &t)
{
        Ev e(t[0]);
        if (t[0] == "new") {
                base_heap = __sanitizer_get_current_allocated_bytes();
                int n = num(t[1]); bool named = t.size() > 2;
                char *nm = named ? strdup(t[2].c_str()) : nullptr;
                e.i("n", n);
                M = nx_graph_new_adj_mat(nm, n);
                L = nx_graph_new_adj_lst(nm, n);
                free(nm);
                want = named ? t[2] + "|" + t[2] : "G|G";
        } else if (t[0] == "ins") {
                int u = num(t[1]), v = num(t[2]), x = num(t[3]);
                e.i("u", u).i("v", v).i("x", x);
                nx_graph_insert_adj_mat(M, u, v, x / 2.0);
                nx_graph_insert_adj_lst(L, u, v, x / 2.0);
        } else _exit(98);
        observe(e);
        emit(e);
}
void end_case()
{
        want.clear(); want.shrink_to_fit();
        nx_graph_free_adj_mat(M);
        nx_graph_free_adj_lst(L);
        long d = (long)__sanitizer_get_current_allocated_bytes();
        d -= base_heap;
        Ev e("end"); e.i("heap", d > 64 ? d : 0);
        emit(e);
}
