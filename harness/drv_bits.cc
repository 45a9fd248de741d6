// Conformance driver: bit arrays and word functions.
#include "drv.hpp"
#include "virg/nexus/nx_bit_ops.h"
static uint8_t *A;
static int n_bits;
void begin_case(const Toks &) {}
static uint64_t hexw(const std::string &s) { return strtoull(s.c_str(), nullptr, 16); }
static std::string w32(uint32_t v) { Ints r = { (int)(v >> 16), (int)(v & 0xffff) }; return Ev::arr(r); }
static void observe(Ev &e)
{
        e.bytes("bytes", A, (n_bits + 7) / 8);
        Ints g;
        for (int i = 0; i < n_bits; ++i) g.push_back(nx_bit_array_get(A, i) ? 1 : 0);
        e.ints("get", g);
}
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op == "rotr32" || op == "rotr64" ? "rotr" : op == "split32" || op == "split64" ? "split" : op);
        if (op == "new") { n_bits = num(t[1]); e.i("n", n_bits); A = nx_bit_array_new(n_bits); observe(e); }
        else if (op == "zero") { nx_bit_array_set_zero(n_bits, A); observe(e); }
        else if (op == "set") { int i = num(t[1]), v = num(t[2]); e.i("i", i).i("v", v); nx_bit_array_set(A, i, v ? NX_TRUE : NX_FALSE); observe(e); }
        else if (op == "count32") { uint32_t w = hexw(t[1]); e.raw("w", w32(w)).i("r", nx_bit_count32(w)); }
        else if (op == "count64") { uint64_t w = hexw(t[1]); e.u64("w", w).i("r", nx_bit_count64(w)); }
        else if (op == "rotr32") { uint32_t w = hexw(t[1]); int k = num(t[2]); e.raw("w", w32(w)).i("k", k).raw("r", w32(nx_rotr32(w, k))); }
        else if (op == "rotr64") { uint64_t w = hexw(t[1]); int k = num(t[2]); e.u64("w", w).i("k", k).u64("r", nx_rotr64(w, k)); }
        else if (op == "split32") { uint32_t w = hexw(t[1]); uint8_t b[6]; memset(b, 0xC3, 6); nx_split_big_endian32(b + 1, w); e.raw("w", w32(w)).bytes("r", b + 1, 4).b("guard", b[0] == 0xC3 && b[5] == 0xC3); }
        else if (op == "split64") { uint64_t w = hexw(t[1]); uint8_t b[10]; memset(b, 0xC3, 10); nx_split_big_endian64(b + 1, w); e.u64("w", w).bytes("r", b + 1, 8).b("guard", b[0] == 0xC3 && b[9] == 0xC3); }
        else if (op == "compose") { std::string s = unhex(t[1]); e.bytes("b", s).raw("r", w32(nx_compose_big_endian32((const uint8_t *)s.data()))); }
        else _exit(98);
        emit(e);
}
void end_case() { Ev e("end"); emit(e); }
