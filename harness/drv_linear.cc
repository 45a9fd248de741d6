// Conformance driver: vectors, matrices, solvers, decompositions, quaternions.
#include "drv.hpp"
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_io.h"
#include "virg/nexus/nx_vec.h"
#include "virg/nexus/nx_vec234.h"
#include "virg/nexus/nx_mat.h"
#include "virg/nexus/nx_mat234.h"
#include "virg/nexus/nx_svd.h"
#include "virg/nexus/nx_linear_solvers.h"
#include "virg/nexus/nx_quaternion.h"
typedef std::vector<double> D; typedef std::vector<float> S;
void begin_case(const Toks &) {}
void end_case() {}
static const int BAD = 1999999999;
static int W(double v) { return (v == v && fabs(v) < 1e9 && v == floor(v)) ? (int)v : BAD; }
static int R(double v) { return (v == v && fabs(v) < 1e9) ? (int)llrint(v) : BAD; }
template <class V> static Ints w(const V &v) { Ints r; for (auto x : v) r.push_back(W(x)); return r; }
template <class V> static Ints r(const V &v, double k) { Ints o; for (auto x : v) o.push_back(R(x * k)); return o; }
static std::string list(const std::vector<Ints> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + Ev::arr(v[i]); return s + "]"; }
static D d(const Ints &v) { return D(v.begin(), v.end()); }
static S f(const Ints &v) { return S(v.begin(), v.end()); }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        if (op == "m3") {
                Ints u = nums(t[1]), v = nums(t[2]); e.ints("u", u).ints("v", v); arm(e);
                D A = d(u), B = d(v), C(9, 7); S a = f(u), b = f(v), c(9, 7);
                nx_dmat3_mul(C.data(), A.data(), B.data()); e.ints("mul", w(C)); nx_smat3_mul(c.data(), a.data(), b.data()); e.ints("smul", w(c));
                nx_dmat3_mul_ua(C.data(), A.data(), B.data()); e.ints("ua", w(C));
                double det = nx_dmat3_det(A.data()); e.i("det", W(det));
                D I1(9, 7); S I2(9, 7), I3(9, 7); Ints dd = { W(nx_dmat3_inv(I1.data(), A.data())), W(nx_smat3_inv(I2.data(), a.data())), W(nx_sdmat3_inv(I3.data(), a.data())) };
                e.ints("idet", dd).raw("inv", list({ r(I1, 1000 * (det ? det : 1)), r(I2, 1000 * (det ? det : 1)), r(I3, 1000 * (det ? det : 1)) }));
                C = A; nx_dmat3_sub(C.data(), B.data()); e.ints("sub", w(C));
                D x(B.begin(), B.begin() + 3); nx_dmat3_transform(A.data(), x.data()); e.ints("tf", w(x));
                D p = { B[0], B[1] }, q = { B[2], B[3] }; e.i("ftx", W(nx_dmat3_xptFx(A.data(), p.data(), q.data())));
                nx_dmat3_copy(C.data(), A.data()); e.ints("cpy", w(C)); nx_dmat3_eye(C.data()); e.ints("eye", w(C)); nx_dmat3_set_zero(C.data()); e.ints("zero", w(C)); nx_smat3_set_zero(c.data()); e.ints("szero", w(c));
                e.i("nrm", R(100 * nx_dmat3_frob_norm(A.data())));
        } else if (op == "m4") {
                Ints u = nums(t[1]), v = nums(t[2]); e.ints("u", u).ints("v", v); arm(e);
                D A = d(u), B = d(v), C(16, 7); S a = f(u), b = f(v), c(16, 7);
                nx_dmat4_mul(C.data(), A.data(), B.data()); e.ints("mul", w(C)); nx_smat4_mul(c.data(), a.data(), b.data()); e.ints("smul", w(c));
                nx_dmat4_eye(C.data()); e.ints("eye", w(C)); nx_dmat4_to_s(c.data(), A.data()); e.ints("tos", w(c));
                C = A; nx_dmat4_set_rotation(C.data(), B.data()); e.ints("rot", w(C)); C = A; nx_dmat4_set_translation(C.data(), B.data()); e.ints("tr", w(C));
        } else if (op == "vec") {
                Ints u = nums(t[1]), v = nums(t[2]); int k = num(t[3]), n = u.size(); e.ints("u", u).ints("v", v).i("k", k); arm(e);
                D A = d(u), B = d(v); A.push_back(123); B.push_back(123); S a = f(u); a.push_back(123); bool g = true; std::vector<int> iv(u); iv.push_back(123);
                auto ex = [&](D x) { g = g && x[n] == 123; x.pop_back(); return w(x); }; auto exs = [&](S x) { g = g && x[n] == 123; x.pop_back(); return w(x); };
                Ints ns = { W(nx_dvec_norm_sq(n, A.data())), W(nx_svec_norm_sq(n, a.data())) }; e.ints("nsq", ns).i("nrm", R(100 * nx_dvec_norm(n, A.data())));
                if (R(100 * nx_svec_norm(n, a.data())) != R(100 * nx_dvec_norm(n, A.data()))) g = false;
                D y = B; nx_dvec_axpy(n, y.data(), k, A.data()); e.ints("axpy", ex(y)); y = B; nx_dvec_copy(n, y.data(), A.data()); e.ints("cpy", ex(y)); y = B; nx_dvec_set(n, y.data(), k); e.ints("set", ex(y));
                y = A; nx_dvec_set_zero(n, y.data()); S z = a; nx_svec_set_zero(n, z.data()); std::vector<int> zi = iv; nx_ivec_set_zero(n, zi.data()); g = g && zi[n] == 123; zi.pop_back(); e.raw("z", list({ ex(y), exs(z), zi }));
                // the lowest value of each type where the vector holds -99
                S al = a; std::vector<int> il = iv; for (int i = 0; i < n; ++i) if (u[i] == -99) { al[i] = -FLT_MAX; il[i] = INT_MIN; }
                Ints am = { nx_svec_max_idx(n, al.data()), nx_ivec_max_idx(n, il.data()) }; e.ints("amax", am); float vm = nx_svec_max_val(n, al.data()); e.i("vmax", vm == -FLT_MAX ? -99 : W(vm));
                std::vector<uchar> p(n + 1), q(n + 1); for (int i = 0; i < n; ++i) { p[i] = abs(u[i]); q[i] = abs(v[i]); } e.i("dist", nx_ucvec_dist_sq(n, p.data(), q.data()));
                z = a; float nr = nx_svec_to_unit(n, z.data()); if (R(100 * nr) != R(100 * nx_dvec_norm(n, A.data()))) g = false; g = g && z[n] == 123; z.pop_back(); e.ints("unit", r(z, 1000)).b("guard", g);
                if (n >= 3) {
                        double c[3]; nx_dvec3_cross(c, A.data(), B.data()); e.ints("cross", w(D(c, c + 3))); S b = f(v); Ints dt = { W(nx_dvec3_dot(A.data(), B.data())), W(nx_svec3_dot(a.data(), b.data())) }; e.ints("dot", dt);
                        Ints n3 = { W(nx_dvec3_norm_sq(A.data())), W(nx_svec3_norm_sq(a.data())) }; e.ints("nsq3", n3).i("dsq3", W(nx_svec3_dist_sq(a.data(), b.data())));
                        D un(A.begin(), A.begin() + 3); e.i("nrm3", R(100 * nx_dvec3_norm(un.data()))); double rn = nx_dvec3_to_unit(un.data()); if (R(100 * rn) != R(100 * nx_dvec3_norm(A.data()))) un[0] = NAN; e.ints("unit3", r(un, 1000));
                        int kk = k ? k : 1; float h[4] = { a[0] * kk, a[1] * kk, a[2] * kk, (float)kk }; float ww = nx_svec4h_to_euclidean(h); Ints ho = { W(h[0]), W(h[1]), W(h[2]), W(h[3]), k ? W(ww) : 0 }; e.ints("hom", ho);
                }
        } else if (op == "gen") { // m k n lda ldb ldc A B (memory)
                int m = num(t[1]), k = num(t[2]), n = num(t[3]), la = num(t[4]), lb = num(t[5]), lc = num(t[6]); Ints u = nums(t[7]), v = nums(t[8]);
                e.i("m", m).i("k", k).i("n", n).i("lda", la).i("ldb", lb).i("ldc", lc).ints("u", u).ints("v", v); arm(e);
                D A = d(u), B = d(v), C(lc * n, -77); nx_dmat_mul(m, n, k, A.data(), la, B.data(), lb, C.data(), lc); e.ints("mul", w(C));
                D P(la * k, -77); nx_dmat_set(m, k, P.data(), la, 5); e.ints("set", w(P)); P.assign(la * k, -77); nx_dmat_set_zero(m, k, P.data(), la); e.ints("zero", w(P));
        } else if (op == "sym") { // lo n A x sing regular
                bool lo = t[1] == "1"; int n = num(t[2]); Ints u = nums(t[3]), x = nums(t[4]); int rhs = x.size() / n; bool sing = t[5] == "1", reg = t[6] == "1";
                auto at = [&](int i, int j) { return lo ? (i >= j ? u[j * n + i] : u[i * n + j]) : (i <= j ? u[j * n + i] : u[i * n + j]); };
                Ints b; for (int c = 0; c < rhs; ++c) for (int i = 0; i < n; ++i) { int s = 0; for (int j = 0; j < n; ++j) s += at(i, j) * x[c * n + j]; b.push_back(s); }
                e.b("lo", lo).i("n", n).ints("u", u).ints("x", x).b("sing", sing).b("regular", reg).ints("b", b); arm(e);
                D A = d(u), B = d(b); bool ok; std::vector<int> piv(n);
                if (lo && rhs == 1 && n == 2) ok = nx_dmat2_sym_solve_single(A.data(), B.data());
                else if (lo && rhs == 1 && n == 3) ok = nx_dmat3_sym_solve_single(A.data(), B.data());
                else ok = nx_dsym_solver(lo ? NX_SYMMETRIC_LOWER : NX_SYMMETRIC_UPPER, n, rhs, A.data(), n, B.data(), n, piv.data());
                e.b("ok", ok).ints("r", r(B, 1000));
        } else if (op == "svd") { // s|d m n A
                int m = num(t[2]), n = num(t[3]); Ints u = nums(t[4]); int k = m < n ? m : n; e.str("kind", t[1]).i("m", m).i("n", n).ints("u", u); arm(e);
                D U(m * m), V(n * n); std::vector<D> ss; bool small = false;
                if (t[1] == "d") {
                        D A, s(k), U2(m * m), V2(n * n); A = d(u); nx_dsvd_only_s(s.data(), m, n, A.data(), m); ss.push_back(s); A = d(u); nx_dsvd_us(U2.data(), m, s.data(), m, n, A.data(), m); ss.push_back(s); A = d(u); nx_dsvd_svt(s.data(), V2.data(), n, m, n, A.data(), m); ss.push_back(s); A = d(u); nx_dsvd_usvt(U.data(), m, s.data(), V.data(), n, m, n, A.data(), m); ss.push_back(s);
                        if (m == 3 && n == 3) { A = d(u); nx_dmat3_svd(A.data(), U.data(), s.data(), V.data()); if (A != d(u)) s[0] = NAN; ss.push_back(s); }
                        // the partial forms give orthogonal factors as well
                        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double z = 0; for (int q = 0; q < m; ++q) z += U2[i * m + q] * U2[j * m + q]; if (fabs(z - (i == j)) > 1e-6) small = true; }
                        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double z = 0; for (int q = 0; q < n; ++q) z += V2[q * n + i] * V2[q * n + j]; if (fabs(z - (i == j)) > 1e-6) small = true; }
                } else {
                        S A, s(k), U1(m * m), V1(n * n), U2(m * m), V2(n * n); auto ps = [&]() { ss.push_back(D(s.begin(), s.end())); };
                        A = f(u); nx_ssvd_only_s(s.data(), m, n, A.data(), m); ps(); A = f(u); nx_ssvd_us(U2.data(), m, s.data(), m, n, A.data(), m); ps(); A = f(u); nx_ssvd_svt(s.data(), V2.data(), n, m, n, A.data(), m); ps(); A = f(u); nx_ssvd_usvt(U1.data(), m, s.data(), V1.data(), n, m, n, A.data(), m); ps();
                        U.assign(U1.begin(), U1.end()); V.assign(V1.begin(), V1.end());
                        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double z = 0; for (int q = 0; q < m; ++q) z += U2[i * m + q] * U2[j * m + q]; if (fabs(z - (i == j)) > 1e-3) small = true; }
                        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double z = 0; for (int q = 0; q < n; ++q) z += V2[q * n + i] * V2[q * n + j]; if (fabs(z - (i == j)) > 1e-3) small = true; }
                }
                D rec(m * n), utu(m * m), vvt(n * n); D &s = ss.back();
                for (int c = 0; c < n; ++c) for (int i = 0; i < m; ++i) { double z = 0; for (int q = 0; q < k; ++q) z += U[q * m + i] * s[q] * V[c * n + q]; rec[c * m + i] = z; }
                for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double z = 0; for (int q = 0; q < m; ++q) z += U[i * m + q] * U[j * m + q]; utu[i * m + j] = z; }
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double z = 0; for (int q = 0; q < n; ++q) z += V[q * n + i] * V[q * n + j]; vvt[i * n + j] = z; }
                double fro = 0; for (double z : ss[0]) fro += z * z; if (small) fro = -1e6;
                std::vector<Ints> sl; for (auto &z : ss) sl.push_back(r(z, 1000));
                e.i("tol", t[1] == "d" ? 1 : 3).raw("s", list(sl)).ints("rec", r(rec, 1000)).ints("utu", r(utu, 1000)).ints("vvt", r(vvt, 1000)).i("fro", R(fro * 1000));
        } else if (op == "quat") {
                Ints u = nums(t[1]), v = nums(t[2]); e.ints("u", u).ints("v", v); arm(e); D p = d(u), q = d(v), o(4);
                o = p; nx_quaternion_mul(o.data(), q.data()); e.ints("mul", w(o)); nx_quaternion_prod(o.data(), p.data(), q.data()); e.ints("prod", w(o)); o = p; nx_quaternion_conj(o.data()); e.ints("conj", w(o)); e.i("dot", W(nx_quaternion_dot(p.data(), q.data())));
                o = p; nx_quaternion_add(o.data(), q.data()); e.ints("add", w(o)); nx_quaternion_sum(o.data(), p.data(), q.data()); e.ints("sum", w(o)); o = p; nx_quaternion_scale(o.data(), 3); e.ints("scl", w(o));
                D x(q.begin() + 1, q.end()); nx_quaternion_rotate(p.data(), x.data()); e.ints("rot", w(x));
                double n2 = nx_quaternion_dot(p.data(), p.data());
                if (n2 > 0) {
                        o = p; double nr = nx_quaternion_to_unit(o.data()); e.i("nrm", R(100 * nr)); D M(9), M2(9), tt(3), o7 = o; o7.push_back(q[0]); o7.push_back(q[1]); o7.push_back(q[2]); nx_quaternion_to_R(o.data(), M.data()); nx_quaternion_to_Rt(o7.data(), M2.data(), tt.data()); if (M2 != M) M[0] = NAN; e.ints("R", r(M, 1000 * n2)).ints("t", w(tt));
                        D b(4); nx_quaternion_from_R(b.data(), M.data()); e.ints("back", r(b, 1000 * nr));
                        D ax(p.begin() + 1, p.end()), a4(4), a0(4); double l = sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]); nx_quaternion_from_axis_angle(a4.data(), ax.data(), M_PI); e.ints("ax", r(a4, 1000 * l)); nx_quaternion_from_axis_angle(a0.data(), NULL, 0.0); e.ints("ax0", w(a0));
                } else e.i("nrm", 0);
        } else if (op == "tr") {
                int m = num(t[1]), n = num(t[2]); Ints u = nums(t[3]); e.i("m", m).i("n", n).ints("u", u); arm(e); D A = d(u); A.push_back(123);
                nx_dmat_transpose(m, n, A.data()); bool g = A[m * n] == 123; e.ints("r", w(D(A.begin(), A.end() - 1))); nx_dmat_transpose(n, m, A.data()); g = g && A[m * n] == 123; e.ints("back", w(D(A.begin(), A.end() - 1))).b("guard", g);
        } else if (op == "text") { // m n scale A: values are a / scale
                int m = num(t[1]), n = num(t[2]); double sc = strtod(t[3].c_str(), NULL); Ints u = nums(t[4]); e.i("m", m).i("n", n).str("sc", t[3]).ints("u", u); arm(e);
                D A; for (int x : u) A.push_back(x / sc); A.push_back(0); FILE *fl = tmpfile(); nx_dmat_xwrite(fl, m, n, A.data()); rewind(fl); int rm = -1, rn = -1; double *B = nx_dmat_xread(fl, &rm, &rn); fclose(fl);
                Ints o; if (B) for (int i = 0; i < rm * rn && i < 4000; ++i) { int k = BAD; for (size_t j = 0; j < u.size(); ++j) if (memcmp(&A[j], &B[i], 8) == 0) { k = u[j]; if ((int)j == i) break; } o.push_back(k); }
                e.b("nul", B == NULL).i("rm", rm).i("rn", rn).ints("r", o);
        } else if (op == "parse") { // rows 1,2;3,4  sep  final
                std::vector<Ints> rows; std::string txt; if (t[1] != ".") { size_t a = 0; while (a <= t[1].size()) { size_t b = t[1].find(';', a); if (b == std::string::npos) b = t[1].size(); rows.push_back(nums(t[1].substr(a, b - a))); a = b + 1; } }
                std::string sep = t[2] == "t" ? "\t" : t[2] == "s" ? "  " : " "; for (size_t i = 0; i < rows.size(); ++i) { for (size_t j = 0; j < rows[i].size(); ++j) txt += (j ? sep : std::string(t[2] == "s" ? " " : "")) + std::to_string(rows[i][j]); if (i + 1 < rows.size() || t[3] == "1") txt += "\n"; }
                e.raw("rows", list(rows)); arm(e); FILE *fl = tmpfile(); fwrite(txt.data(), 1, txt.size(), fl); rewind(fl); int rm = -1, rn = -1; double *B = nx_dmat_xread(fl, &rm, &rn); D o; if (B) o.assign(B, B + rm * rn); e.str("out", "ok").b("nul", B == NULL).i("rm", rm).i("rn", rn).ints("r", w(o));
        } else _exit(98);
        emit(e);
}
