// Conformance driver: borders, kernels and convolution of one line.
#include "drv.hpp"
#include "virg/nexus/nx_config.h"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_filter.h"
static std::vector<float> B; static int n, b;
void begin_case(const Toks &) { B.clear(); n = b = 0; }
void end_case() {}
static int W(double v) { return (v == v && fabs(v) < 1e9 && v == floor(v)) ? (int)v : 1999999999; }
static int R(double v) { return (v == v && fabs(v) < 1e9) ? (int)llrint(v) : 1999999999; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        if (op == "load") { // kind stride border mode data
                std::string kind = t[1]; int stride = num(t[2]); b = num(t[3]); int mode = num(t[4]); Ints d = nums(t[5]); n = d.size();
                if (kind.back() == '1') stride = 1;
                e.str("kind", kind).i("stride", stride).i("b", b).i("mode", mode).ints("d", d); arm(e);
                // the border is whatever the buffer held before
                std::vector<float> src((n - 1) * stride + 1, 55); std::vector<uchar> su((n - 1) * stride + 1, 55); for (int i = 0; i < n; ++i) { src[i * stride] = d[i]; su[i * stride] = d[i]; }
                std::vector<float> s0 = src; std::vector<uchar> u0 = su;
                float *raw = (float *)malloc((n + 2 * b) * sizeof(float)); for (int i = 0; i < n + 2 * b; ++i) raw[i] = 1234.5f; // exact size: an overrun is an error
                NXBorderMode m = (NXBorderMode)mode;
                if (kind == "uc1") nx_filter_copy_to_buffer1_uc(n, raw, su.data(), b, m);
                else if (kind == "uc") nx_filter_copy_to_buffer_uc(n, raw, su.data(), stride, b, m);
                else if (kind == "f1") nx_filter_copy_to_buffer1(n, raw, src.data(), b, m);
                else nx_filter_copy_to_buffer(n, raw, src.data(), stride, b, m);
                B.assign(raw, raw + n + 2 * b); free(raw);
                Ints r; for (float v : B) r.push_back(W(v)); e.ints("r", r).b("kept", s0 == src && u0 == su).b("guard", true);
        } else if (op == "sym" || op == "box") {
                Ints k; std::vector<float> kf; int rad = b;
                if (op == "sym") { k = nums(t[1]); for (int v : k) kf.push_back(v); e.ints("k", k); } else e.i("rad", rad);
                arm(e); float *raw = (float *)malloc(B.size() * sizeof(float)); memcpy(raw, B.data(), B.size() * sizeof(float));
                if (op == "sym") nx_convolve_sym(n, raw, k.size(), kf.data()); else nx_convolve_box(n, raw, rad);
                bool g = true; for (size_t i = n; i < B.size(); ++i) g = g && raw[i] == B[i];
                Ints r; for (int i = 0; i < n; ++i) { double v = raw[i]; if (op == "box") { v *= 2 * rad + 1; r.push_back(fabs(v - llrint(v)) < 1e-2 ? R(v) : 1999999999); B[i] = R(v); } else { r.push_back(W(v)); B[i] = v; } }
                B.resize(n); b = 0; free(raw); e.ints("r", r).b("guard", g);
        } else if (op == "size") { int s = num(t[1]), f = num(t[2]); e.i("s", s).i("f", f); arm(e); e.i("r", nx_kernel_size_gaussian(s / 8.0f, f / 2.0f));
        } else if (op == "gauss") { // sigma nk
                int s = num(t[1]), nk = num(t[2]); e.i("s", s).i("nk", nk); arm(e); std::vector<float> k(nk + 1, 77); nx_kernel_sym_gaussian(nk, k.data(), s / 8.0f);
                double sum = k[0]; Ints r; for (int i = 0; i < nk; ++i) { r.push_back(R(1e4 * k[i])); if (i) sum += 2.0 * k[i]; } e.ints("k", r).i("sum", R(1e6 * sum)).b("guard", k[nk] == 77);
        } else if (op == "alloc") { int m = num(t[1]), q = num(t[2]); e.i("n", m).i("b", q); arm(e); float *p = nx_filter_buffer_alloc(m, q); for (int i = 0; i < m + 2 * q; ++i) p[i] = i; bool a = true;
#if (NX_HAVE_SIMD)
                a = ((uintptr_t)p % NX_SIMD_ALIGNMENT) == 0;
#endif
                e.b("aligned", a && p[0] == 0); nx_free(p);
        } else _exit(98);
        emit(e);
}
