#include "drv.hpp"
#include "virg/nexus/nx_uniform_sampler.h"
#include "virg/nexus/nx_gaussian_sampler.h"
static NXUniformSampler *U[3];
static NXGaussianSampler *G[5];
void begin_case(const Toks &) { memset(U, 0, sizeof U); memset(G, 0, sizeof G); }
void end_case() {}
static std::string words(const std::vector<uint32_t> &v)
{
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += "[" + std::to_string(v[i] >> 16) + "," + std::to_string(v[i] & 65535) + "]"; }
        return r + "]";
}
static std::string longs(const std::vector<uint64_t> &v)
{
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += Ev::w64(v[i]); }
        return r + "]";
}
static int unit(double v) { v *= 4096; return (v == v && fabs(v) < 1e6) ? (int)llrint(v) : 1999999999; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        auto n = [&](int i) { return num(t[i]); };
        int i = n(1); uint32_t seed = t.size() > 2 ? (uint32_t)lnum(t[2]) : 0;
        Ev e(op); arm(e); e.i("i", i);
        auto sd = [&]() { e.ints("seed", Ints{ (int)(seed >> 16), (int)(seed & 65535) }); };
        if (op == "new") { // i seed way
                sd();
                if (i == 0) { U[0] = nx_uniform_sampler_instance(); nx_uniform_sampler_init_seed(U[0], seed); }
                else if (i < 3) { if (n(3)) U[i] = nx_uniform_sampler_new_with_seed(seed); else { U[i] = nx_uniform_sampler_alloc(); nx_uniform_sampler_init_seed(U[i], seed); } }
                else switch (n(3)) {
                        case 0: G[i] = nx_gaussian_sampler_new_with_seed(seed); break;
                        case 1: G[i] = nx_gaussian_sampler_new(nx_uniform_sampler_new_with_seed(seed)); break;
                        case 2: G[i] = nx_gaussian_sampler_new(NULL); nx_gaussian_sampler_init_seed(G[i], seed); break;
                        default: nx_gaussian_sampler_instance_free(); G[i] = nx_gaussian_sampler_instance(); nx_gaussian_sampler_init_seed(G[i], seed);
                                if (nx_gaussian_sampler_instance() != G[i]) _exit(97);
                }
        } else if (op == "seed") { sd(); if (i < 3) nx_uniform_sampler_init_seed(U[i], seed); else nx_gaussian_sampler_init_seed(G[i], seed); }
        else if (op == "free") {
                if (i == 0) { nx_uniform_sampler_instance_free(); U[0] = 0; }
                else if (i < 3) { nx_uniform_sampler_free(U[i]); U[i] = 0; }
                else { if (G[i] == nx_gaussian_sampler_instance()) nx_gaussian_sampler_instance_free(); else nx_gaussian_sampler_free(G[i]); G[i] = 0; }
        } else if (op == "u32") {
                std::vector<uint32_t> v; for (int k = 0; k < n(2); ++k) v.push_back(i == 0 ? NX_UNIFORM_SAMPLE32 : nx_uniform_sampler_sample32(U[i]));
                e.raw("v", words(v));
        } else if (op == "u64") {
                std::vector<uint64_t> v; for (int k = 0; k < n(2); ++k) v.push_back(i == 0 ? NX_UNIFORM_SAMPLE64 : nx_uniform_sampler_sample64(U[i]));
                e.raw("v", longs(v));
        } else if (op == "fs") {
                Ints v; bool in = true;
                for (int k = 0; k < n(2); ++k) { float f = i == 0 ? NX_UNIFORM_SAMPLE_S : nx_uniform_sampler_sample_s(U[i]); in = in && f >= 0.0f && f < 1.0f; v.push_back((f >= 0 && f <= 1) ? (int)((double)f * 1073741824.0 - 0.25) : -5000); }
                e.ints("v", v).b("in", in);
        } else if (op == "fd") {
                std::vector<uint64_t> v; bool in = true;
                for (int k = 0; k < n(2); ++k) { double f = i == 0 ? NX_UNIFORM_SAMPLE_D : nx_uniform_sampler_sample_d(U[i]); in = in && f >= 0 && f < 1; double z = in ? f * 9007199254740992.0 : 0; in = in && z == (double)(uint64_t)z; v.push_back((uint64_t)z); }
                e.raw("v", longs(v)).b("in", in);
        } else if (op == "fill32") {
                uint32_t *v = (uint32_t *)aligned_alloc(16, 4 * n(2)); nx_uniform_sampler_fill32(U[i], n(2), v);
                e.raw("v", words(std::vector<uint32_t>(v, v + n(2)))); free(v);
        } else if (op == "fill64") {
                uint64_t *v = (uint64_t *)aligned_alloc(16, 8 * n(2)); nx_uniform_sampler_fill64(U[i], n(2), v);
                e.raw("v", longs(std::vector<uint64_t>(v, v + n(2)))); free(v);
        } else if (op == "gs" || op == "gd") { // i n mean sigma
                int N = n(2); Ints r; bool past;
                if (op == "gs") { std::vector<float> v(N + 1, 77); nx_gaussian_sampler_sample_s(G[i], N, v.data(), n(3), n(4)); past = v[N] == 77; for (int k = 0; k < N; ++k) r.push_back(unit(n(4) ? ((double)v[k] - n(3)) / n(4) : v[k] - n(3))); }
                else { std::vector<double> v(N + 1, 77); nx_gaussian_sampler_sample_d(G[i], N, v.data(), n(3), n(4)); past = v[N] == 77; for (int k = 0; k < N; ++k) r.push_back(unit(n(4) ? (v[k] - n(3)) / n(4) : v[k] - n(3))); }
                e.i("sg", n(4)).ints("v", r).b("past", past);
        } else _exit(98);
        emit(e);
}
