// Sets of point correspondences
#include "drv.hpp"
#include <algorithm>
#include "virg/nexus/nx_keypoint.h"
#include "virg/nexus/vg_point_correspondence_2d.hpp"
using virg::nexus::VGPointCorrespondence2D;
static VGPointCorrespondence2D *S[4];
void begin_case(const Toks &) { for (auto &s : S) s = nullptr; }
void end_case() { for (auto &s : S) delete s; }
static int sc(double v, double k) { return v == v && fabs(v * k) < 1.9e9 ? (int)llrint(v * k) : 1999999999; }
static int down(uint64_t v) { return v % 0x100000001ull == 0 ? (int)(v / 0x100000001ull) : -1; }
static uint64_t up(int v) { return (uint64_t)v * 0x100000001ull; }
static void all(Ev &e)
{
        std::string r = "[";
        for (int s = 1; s <= 3; ++s) {
                Ev x; x.b("live", S[s] != nullptr);
                if (S[s]) {
                        const VGPointCorrespondence2D &c = *S[s]; x.i("size", c.size()).i("nin", nx_point_match_2d_count_inliers(c.size(), c.matches()));
                        std::string a = "[", b = "[";
                        for (int i = 0; i < c.size(); ++i) {
                                const NXPointMatch2D &p = c[i]; const NXPointMatch2D &q = c.matches()[i];
                                if (i) { a += ","; b += ","; }
                                a += Ev::arr({ sc(p.x[0], 3200), sc(p.x[1], 3200), sc(p.xp[0], 3200), sc(p.xp[1], 3200), sc(p.match_cost, 32), sc(p.sigma_x, 3200), sc(p.sigma_xp, 3200), down(p.id), down(p.idp), c.is_inlier(i) ? 1 : 0 });
                                b += Ev::arr({ sc(q.x[0], 1000), sc(q.x[1], 1000), sc(q.xp[0], 1000), sc(q.xp[1], 1000), sc(q.sigma_x, 1000), sc(q.sigma_xp, 1000) });
                        }
                        const NXPointMatch2DStats *t = c.stats();
                        x.raw("rows", a + "]").raw("nrm", b + "]").ints("st", { sc(t->m[0], 100), sc(t->m[1], 100), sc(t->mp[0], 100), sc(t->mp[1], 100), sc(t->d, 100), sc(t->dp, 100) });
                }
                std::string q = x.done(); q.pop_back(); if (s > 1) r += ","; r += q;
        }
        e.raw("all", r + "]");
}
static NXKeypoint key(const Ints &v, int off)
{
        NXKeypoint k; memset(&k, 0, sizeof k); k.xs = v[off] / 4.0f; k.ys = v[off + 1] / 4.0f; k.scale = v[off + 2] / 8.0f; k.id = up(v[off + 3]);
        k.x = (int)k.xs + 1; k.y = (int)k.ys - 1; k.sigma = 9; k.score = 77; k.level = 3; k.ori = 2; return k;
}
void run_op(const Toks &t)
{
        const std::string &op = t[0]; Ev e(op); arm(e);
        if (op == "at") {
                Ints v = nums(t[1]); NXKeypoint k; memset(&k, 0, sizeof k); k.x = v[0]; k.y = v[1]; k.xs = v[2] / 4.0f; k.ys = v[3] / 4.0f; k.scale = v[4] / 8.0f;
                e.i("x", v[0]).i("y", v[1]).i("xs", v[2]).i("ys", v[3]).i("scale", v[4]).i("x0", nx_keypoint_x0(&k)).i("y0", nx_keypoint_y0(&k)).i("xs0", sc(nx_keypoint_xs0(&k), 32)).i("ys0", sc(nx_keypoint_ys0(&k), 32)); emit(e); return;
        }
        if (op == "cmp") {
                NXPointMatch2D a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.match_cost = num(t[1]) / 32.0f; b.match_cost = num(t[2]) / 32.0f; a.id = 9; b.id = 1;
                e.i("a", num(t[1])).i("b", num(t[2])).i("v", nx_point_match_2d_cmp_match_cost(&a, &b)); emit(e); return;
        }
        int s = num(t[1]); e.i("s", s);
        if (op != "new" && !S[s]) return; // not there
        if (op == "new") { delete S[s]; S[s] = new VGPointCorrespondence2D(); }
        else if (op == "clone") { int d = num(t[2]); e.i("d", d); bool cp = t.size() > 3; if (cp) { if (S[d]) *S[d] = *S[s]; else S[d] = new VGPointCorrespondence2D(*S[s]); } else if (S[d]) *S[d] = S[s]->clone(); else S[d] = new VGPointCorrespondence2D(S[s]->clone()); }
        else if (op == "add") {
                Ints r = nums(t[2]); e.ints("r", r);
                e.i("ret", S[s]->add_match(up(r[7]), r[0] / 32.0f, r[1] / 32.0f, r[5] / 32.0f, up(r[8]), r[2] / 32.0f, r[3] / 32.0f, r[6] / 32.0f, r[4] / 32.0f, r[9] == 1));
        } else if (op == "key") {
                Ints v = nums(t[2]); NXKeypoint k = key(v, 0), kp = key(v, 4);
                e.ints("k", { v[0], v[1], v[2], v[3] }).ints("kp", { v[4], v[5], v[6], v[7] }).i("s0", v[8]).i("cost", v[9]).b("inl", v[10]);
                e.i("ret", S[s]->add_keypoint_match(&k, &kp, v[8] / 4.0f, v[9] / 32.0f, v[10] == 1));
        } else if (op == "mark") {
                int k = num(t[2]); if (k >= S[s]->size()) return;
                bool v = num(t[3]); e.i("k", k + 1).b("v", v); if (v && k % 2) S[s]->set_inlier(k); else S[s]->set_inlier(k, v); e.b("got", S[s]->is_inlier(k));
        } else if (op == "put") {
                int k = num(t[2]); if (k >= S[s]->size()) return;
                e.i("k", k + 1).i("x", num(t[3])).i("y", num(t[4])); (*S[s])[k].x[0] = num(t[3]) / 32.0f; S[s]->matches()[k].xp[1] = num(t[4]) / 32.0f;
        } else if (op == "clear") S[s]->clear();
        else if (op == "norm") S[s]->normalize();
        else if (op == "den") S[s]->denormalize();
        else if (op == "reserve") S[s]->reserve(num(t[2]));
        else if (op == "sort") { if (t.size() > 2 && t[2] == "q") qsort(S[s]->matches(), S[s]->size(), sizeof(NXPointMatch2D), nx_point_match_2d_cmp_match_cost); else S[s]->sort_by_match_cost(); }
        else _exit(98);
        all(e); emit(e);
}
