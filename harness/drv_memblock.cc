// Conformance driver: memory blocks ("b" cases, cell = byte) and keypoint
// vectors ("v" cases, cell = item, observed through its x/y/id/score fields).
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_mem_block.h"
#include "virg/nexus/nx_keypoint_vector.h"

static bool vec;
static NXMemBlock *B[4];
static NXKeypointVector *V[4];
static char *lentp[4];
static int lentn[4];
static size_t base_heap;
static size_t CELL() { return vec ? sizeof(NXKeypoint) : 1; }
static void put(void *p, int i, int v)
{
        if (!vec) { ((unsigned char *)p)[i] = v; return; }
        NXKeypoint *k = (NXKeypoint *)p + i;
        memset(k, 0, sizeof(*k));
        k->x = v; k->y = v * 3; k->id = (uint64_t)v * 1000003u; k->score = v; k->scale = v; k->ori = -v;
}
static int get(const void *p, int i)
{
        if (!vec) return ((const unsigned char *)p)[i];
        const NXKeypoint *k = (const NXKeypoint *)p + i;
        NXKeypoint z; memset(&z, 0, sizeof z);
        put(&z, 0, k->x);
        // an item is intact only if all of its fields are
        if (z.y != k->y || z.id != k->id || z.score != k->score || z.scale != k->scale || z.ori != k->ori) return -1;
        return k->x;
}
static int ref_of(const void *p)
{
        if (!p) return 0;
        for (int b = 1; b < 4; ++b) if (lentp[b] == p) return b;
        return -1;
}
static std::string hjson(int s)
{
        Ev e; e.i("s", s);
        bool ex = vec ? V[s] != nullptr : B[s] != nullptr;
        e.b("ex", ex);
        const char *p = nullptr; long size = 0, cap = 0; bool own = false;
        if (ex && vec) { p = (char *)V[s]->data; size = V[s]->size; cap = V[s]->capacity; own = V[s]->mem->own_memory; }
        else if (ex) { p = (char *)B[s]->ptr; size = B[s]->size; cap = B[s]->capacity; own = B[s]->own_memory; }
        Ints d;
        for (int i = 0; i < size && i < 4096; ++i) d.push_back(get(p, i));
        e.i("size", size).i("cap", cap).b("own", own).i("ref", ref_of(p)).ints("data", d);
        std::string r = e.done(); r.pop_back(); return r;
}
static std::string lents()
{
        std::string r = "["; bool first = true;
        for (int b = 1; b < 4; ++b) if (lentp[b]) {
                Ints d; for (int i = 0; i < lentn[b]; ++i) d.push_back(get(lentp[b], i));
                Ev e; e.i("b", b).ints("data", d);
                std::string x = e.done(); x.pop_back();
                if (!first) r += ","; first = false; r += x;
        }
        return r + "]";
}
void begin_case(const Toks &t)
{
        (void)t;
        base_heap = __sanitizer_get_current_allocated_bytes();
}
static void fillcap(int s) // the whole reported capacity must be writable
{
        char *p = vec ? (char *)V[s]->data : (char *)B[s]->ptr;
        size_t n = vec ? V[s]->size : B[s]->size, c = vec ? V[s]->capacity : B[s]->capacity;
        bool own = vec ? V[s]->mem->own_memory : B[s]->own_memory;
        if (p && own && c > n) memset(p + n * CELL(), 0xEE, (c - n) * CELL());
}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        if (op == "mode") { vec = t[1] == "v"; base_heap = __sanitizer_get_current_allocated_bytes(); return; }
        Ev e(op);
        int s = num(t[1]);
        e.i("s", s);
        std::vector<int> touched = { s };
        void *ret = nullptr; bool hasret = false;
        if (op == "alloc") { if (vec) V[s] = nx_keypoint_vector_alloc(); else B[s] = nx_mem_block_alloc(); }
        else if (op == "new") { int n = num(t[2]); e.i("n", n); if (vec) { V[s] = nx_keypoint_vector_alloc(); nx_keypoint_vector_resize(V[s], n); } else B[s] = nx_mem_block_new(n); }
        else if (op == "newr") { int n = num(t[2]); e.i("n", n); if (vec) V[s] = nx_keypoint_vector_new(n); else { B[s] = nx_mem_block_alloc(); nx_mem_block_reserve(B[s], n); } }
        else if (op == "reserve") { int n = num(t[2]); e.i("n", n); if (vec) nx_keypoint_vector_reserve(V[s], n); else { ret = nx_mem_block_reserve(B[s], n); hasret = true; } }
        else if (op == "resize") { int n = num(t[2]); e.i("n", n); if (vec) { if (n == 0) nx_keypoint_vector_clear(V[s]); else nx_keypoint_vector_resize(V[s], n); } else { ret = nx_mem_block_resize(B[s], n); hasret = true; } }
        else if (op == "release") { if (vec) nx_keypoint_vector_release(V[s]); else nx_mem_block_release(B[s]); }
        else if (op == "lend" || op == "give") {
                bool lend = op == "lend";
                int n = num(t[2]); Ints c = nums(t[3]); int b = lend ? num(t[4]) : 0;
                e.i("n", n).ints("content", c); if (lend) e.i("b", b);
                char *p = (char *)malloc(c.size() * CELL());
                for (size_t i = 0; i < c.size(); ++i) put(p, i, c[i]);
                char *old = nullptr;
                if (lend) { old = lentp[b]; lentp[b] = p; lentn[b] = c.size(); }
                if (vec) nx_keypoint_vector_wrap(V[s], (NXKeypoint *)p, n, c.size(), lend ? NX_FALSE : NX_TRUE);
                else { ret = nx_mem_block_wrap(B[s], p, n, c.size(), lend ? NX_FALSE : NX_TRUE); hasret = true; }
                free(old);
        }
        else if (op == "swap") { int u = num(t[2]); e.i("t", u); touched.push_back(u);
                if (vec) { NXKeypointVector *x = V[s]; V[s] = V[u]; V[u] = x; } else nx_mem_block_swap(B[s], B[u]); }
        else if (op == "copy") { int u = num(t[2]); e.i("t", u); if (u != s) touched.push_back(u);
                if (vec) nx_keypoint_vector_copy(V[s], V[u]); else { ret = nx_mem_block_copy(B[s], B[u]); hasret = true; } }
        else if (op == "copynew") { int u = num(t[2]); e.i("t", u); touched.push_back(u);
                if (vec) V[s] = nx_keypoint_vector_copy0(V[u]); else B[s] = nx_mem_block_copy0(B[u]); }
        else if (op == "store") { int n = num(t[2]), v = num(t[3]); e.i("n", n).i("v", v);
                put(vec ? (void *)V[s]->data : B[s]->ptr, n - 1, v); }
        else if (op == "zero") { if (vec) { for (size_t i = 0; i < V[s]->size; ++i) put(V[s]->data, i, 0); } else nx_mem_block_set_zero(B[s]); }
        else if (op == "push") { int v = num(t[2]); e.i("v", v);
                if (vec) { NXKeypoint *k = nx_keypoint_vector_push_back(V[s]); put(k, 0, v); if (k != V[s]->data + V[s]->size - 1) { e.b("badptr", true); e.s.replace(e.s.find("push"), 4, "PUSHPTR"); } }
                else { size_t n = B[s]->size; nx_mem_block_resize(B[s], n + 1); put(B[s]->ptr, n, v); } }
        else if (op == "free") { if (vec) { nx_keypoint_vector_free(V[s]); V[s] = nullptr; } else { nx_mem_block_free(B[s]); B[s] = nullptr; } }
        else _exit(98);
        // the pointer a call returns is the block's pointer
        if (hasret && ret != B[s]->ptr) { e.s.replace(e.s.find("\"op\":\"") + 6, op.size(), "BADRETURN"); }
        for (int k : touched) if (vec ? V[k] != nullptr : B[k] != nullptr) fillcap(k);
        std::string hs = "[";
        for (size_t i = 0; i < touched.size(); ++i) { if (i) hs += ","; hs += hjson(touched[i]); }
        e.raw("hs", hs + "]").raw("lent", lents());
        emit(e);
}
void end_case()
{
        for (int s = 1; s < 4; ++s) {
                Toks t = { "free", std::to_string(s) };
                if (vec ? V[s] != nullptr : B[s] != nullptr) run_op(t);
        }
        Ev e("end"); e.raw("lent", lents());
        for (int b = 1; b < 4; ++b) { free(lentp[b]); lentp[b] = nullptr; }
        std::string keep = e.s; e.s.clear(); e.s.shrink_to_fit();
        size_t k = keep.capacity() > 15 ? keep.capacity() + 1 : 0;
        long d = (long)__sanitizer_get_current_allocated_bytes() - (long)base_heap - (long)k;
        e.s = keep; e.i("heap", d);
        emit(e);
}
