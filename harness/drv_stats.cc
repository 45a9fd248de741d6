// Conformance driver: summary statistics and the comparison helpers.
// Values are a * 2^k; every result is divided by 2^k again, which is exact.
#include "drv.hpp"
#include "virg/nexus/nx_statistics.h"
#include "virg/nexus/nx_math.h"
void begin_case(const Toks &) {}
static int whole(double v) { return (v == v && fabs(v) < 1e9 && v == floor(v)) ? (int)v : 1999999999; }
static int near_(double v) { return (v == v && fabs(v) < 1e9) ? (int)llrint(v) : 1999999999; }
static int sg(int v) { return (v > 0) - (v < 0); }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op);
        if (op == "stats") { // kind k values
                bool isint = t[1] == "i"; int k = num(t[2]); double S = ldexp(1.0, k); Ints a = nums(t[3]), after; int n = a.size();
                e.str("kind", t[1]).i("k", k).ints("x", a); arm(e);
                NXStatistics1D st; memset(&st, 0x5a, sizeof st);
                if (isint) { std::vector<int> v(n + 1, 77); for (int i = 0; i < n; ++i) v[i] = (int)((long long)a[i] << k); nx_istatistics_1d(&st, n, v.data()); for (int i = 0; i < n; ++i) after.push_back(whole(v[i] / S)); if (v[n] != 77) after.push_back(77); }
                else { std::vector<double> v(n + 1, 77); for (int i = 0; i < n; ++i) v[i] = a[i] * S; nx_dstatistics_1d(&st, n, v.data()); for (int i = 0; i < n; ++i) after.push_back(whole(v[i] / S)); if (v[n] != 77) after.push_back(77); }
                e.i("n", st.n).ints("after", after).i("min", whole(2 * st.min / S)).i("max", whole(2 * st.max / S)).i("med", whole(2 * st.median / S));
                e.i("lq", whole(2 * st.lower_quartile / S)).i("uq", whole(2 * st.upper_quartile / S)).i("iqr", whole(2 * st.interquartile_range / S));
                e.i("mean", near_(100 * st.mean / S)).i("sd", near_(100 * st.stdev / S));
        } else if (op == "cmp") { // a b k
                int a = num(t[1]), b = num(t[2]), k = num(t[3]); e.i("a", a).i("b", b).i("k", k); arm(e);
                int ia = (int)((long long)a << k), ib = (int)((long long)b << k); double S = ldexp(1.0, k), da = a * S, db = b * S; float fa = da, fb = db;
                e.i("i", sg(nx_compare_int_incr(&ia, &ib))).i("d", sg(nx_compare_double_incr(&da, &db))).i("sg", nx_signum(da));
                Ints lo = { whole(nx_min_i(ia, ib) / S), whole(nx_min_s(fa, fb) / S), whole(nx_min_d(da, db) / S) };
                Ints hi = { whole(nx_max_i(ia, ib) / S), whole(nx_max_s(fa, fb) / S), whole(nx_max_d(da, db) / S) };
                e.ints("lo", lo).ints("hi", hi);
        } else if (op == "erf") { int k = num(t[1]); e.i("k", k); arm(e); e.i("r", near_(1e6 * nx_erf(k / 8.0)));
        } else _exit(98);
        emit(e);
}
void end_case() {}
