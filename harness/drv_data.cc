// Conformance driver: directory helpers and image sequence collections.
#include "drv.hpp"
#include <filesystem>
#include <fstream>
#include "virg/nexus/nx_alloc.h"
#include "virg/nexus/nx_image.h"
#include "virg/nexus/nx_image_io.h"
#include "virg/nexus/nx_filesystem.h"
#include "virg/nexus/nx_kitti_slam.h"
#include "virg/nexus/nx_vgg_affine_dataset.h"
#include "virg/nexus/nx_temple_color_128.h"
static std::string base;
static NXKittiSLAM *ks; static NXKittiSLAMSequence *kq; static NXVGGAffineSequence *vq; static NXTempleColor128Sequence *tq;
void begin_case(const Toks &) { base = g_scratch + "/data" + std::to_string(getpid()); std::filesystem::create_directories(base); ks = nullptr; kq = nullptr; vq = nullptr; tq = nullptr; }
void end_case() { nx_kitti_slam_sequence_free(kq); nx_kitti_slam_free(ks); nx_vgg_affine_sequence_free(vq); nx_temple_color_128_sequence_free(tq); if (base.find("/data") != std::string::npos) std::filesystem::remove_all(base); }
static std::string P(const std::string &p) { return p == "." ? base : base + "/" + p; }
static std::string key(const std::string &p) { return p == "." ? "" : p; }
static std::string par(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
static std::string leaf(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? p : p.substr(i + 1); }
static int Q(double v) { return (v == v && fabs(v) < 1e8) ? (int)llrint(4 * v) : 1999999999; }
static std::string list(const std::vector<Ints> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + Ev::arr(v[i]); return s + "]"; }
static std::string bools(const std::vector<bool> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += std::string(i ? "," : "") + (v[i] ? "true" : "false"); return s + "]"; }
static Ev &where(Ev &e, const std::string &p) { return e.str("p", key(p)).str("par", par(key(p))).bytes("n", leaf(p)); }
static const int BAD = -99999;
static std::string real(int v, int style) { char b[64]; if (v == BAD) return "x"; snprintf(b, 64, style == 0 ? "%.2f" : style == 1 ? "%.9e" : "%g", v / 4.0); return b; }
static void frame(Ev &e, NXImage *img) {
        int ch = img->n_channels; bool uni = img->dtype == NX_IMAGE_UCHAR && img->width > 0 && img->height > 0; int g = uni ? img->data.uc[0] : -1;
        for (int y = 0; uni && y < img->height; ++y) for (int x = 0; x < img->width; ++x) for (int c = 0; c < (ch == 4 ? 3 : 1); ++c) if (abs(img->data.uc[y * img->row_stride + ch * x + c] - g) > 2) uni = false;
        e.i("w", img->width).i("h", img->height).i("g", g).b("uni", uni);
}
// runs f; a fatal end of the library is an outcome, not the end of the case
template <class F> static bool guarded(Ev &e, F f) { g_jmp_on = true; if (setjmp(g_jmp) == 0) { f(); g_jmp_on = false; e.str("out", "ok"); return true; } e.str("out", "fatal"); return false; }
void run_op(const Toks &t)
{
        const std::string &op = t[0];
        Ev e(op); arm(e);
        if (op == "mkd") { where(e, t[1]); std::filesystem::create_directories(P(t[1])); }
        else if (op == "rm") { where(e, t[1]); if (t[1].find("..") == std::string::npos) std::filesystem::remove(P(t[1])); }
        else if (op == "put") { // path format style values
                where(e, t[1]); const std::string &f = t[2]; std::filesystem::create_directories(std::filesystem::path(P(t[1])).parent_path());
                if (f == "img") {
                        Ints v = nums(t[4]); int w = v[0], h = v[1], g = v[2]; e.str("k", "img").i("w", w).i("h", h).i("g", g); std::string ext = t[1].substr(t[1].size() - 3);
                        if (ext == "ppm" || ext == "pgm") { std::ofstream o(P(t[1]), std::ios::binary); o << (ext == "ppm" ? "P6\n" : "P5\n") << w << " " << h << "\n255\n" << std::string((size_t)w * h * (ext == "ppm" ? 3 : 1), (char)g); }
                        else { NXImage *im = nx_image_alloc(); nx_image_resize(im, w, h, 0, NX_IMAGE_GRAYSCALE, NX_IMAGE_UCHAR); for (int y = 0; y < h; ++y) memset(im->data.uc + y * im->row_stride, g, w); nx_image_xsave(im, P(t[1]).c_str()); nx_image_free(im); }
                } else if (f == "words") {
                        std::ofstream o(P(t[1])); e.str("k", "words"); std::string w, js; std::string all = t[4] == "." ? "" : t[4] + ","; for (char c : all) if (c == ',') { o << w << "\n"; js += (js.empty() ? "" : ",") + Ev::q(w); w.clear(); } else w += c; e.raw("v", "[" + js + "]");
                } else {
                        std::ofstream o(P(t[1])); Ints v = nums(t[4]); int st = num(t[3]); e.str("k", "num").ints("v", v); int per = f == "pose" || f == "calib" ? 12 : f == "H" ? 3 : f == "gt" ? 4 : f == "frames" ? 2 : 1; std::string sep = f == "gt" || f == "frames" ? "," : f == "H" && st == 1 ? "   " : " ";
                        for (size_t i = 0; i < v.size(); ++i) { if (f == "calib" && i % 12 == 0) o << "P" << i / 12 << ": "; o << (f == "frames" ? std::to_string(v[i] / 4) : real(v[i], st)) << (((int)i % per == per - 1) ? "\n" : sep); }
                }
        } else if (op == "isdir") { where(e, t[1]); e.b("r", nx_check_dir(P(t[1]).c_str())); }
        else if (op == "isfile") { where(e, t[1]); e.b("r", nx_check_file(P(t[1]).c_str())); }
        else if (op == "ensure") { where(e, t[1]); guarded(e, [&] { nx_ensure_dir(P(t[1]).c_str()); }); struct stat s; e.b("r", stat(P(t[1]).c_str(), &s) == 0 && S_ISDIR(s.st_mode)); }
        else if (op == "scan") {
                where(e, t[1]); NXStringArray *a = NULL; std::string r = "[";
                if (guarded(e, [&] { a = nx_scan_dir(P(t[1]).c_str()); })) { for (int i = 0; i < nx_string_array_size(a); ++i) { const char *s = nx_string_array_get(a, i); r += (i ? "," : "") + Ev::barr(s, strlen(s)); } nx_string_array_free(a); }
                e.raw("r", r + "]");
        } else if (op == "kopen") { std::vector<bool> r; nx_kitti_slam_sequence_free(kq); kq = nullptr; nx_kitti_slam_free(ks); ks = nullptr; if (guarded(e, [&] { ks = nx_kitti_slam_new(base.c_str()); })) for (int i = 0; i < NX_KITTI_SLAM_MAX_SEQ_ID; ++i) r.push_back(ks->is_seq_available[i]); e.raw("r", bools(r)); }
        else if (op == "kseq") {
                int id = num(t[1]); e.i("id", id); NXKittiSLAMSequence *q = nullptr; if (!ks) return;
                if (guarded(e, [&] { q = nx_kitti_slam_sequence_new(ks, id); })) {
                        nx_kitti_slam_sequence_free(kq); kq = q; std::vector<Ints> ps, cs; Ints tm; for (int i = 0; i < q->length; ++i) { tm.push_back(Q(q->times[i])); if (q->poses) { Ints p; for (int j = 0; j < 12; ++j) p.push_back(Q(q->poses[i][j])); ps.push_back(p); } }
                        std::vector<bool> cams; for (int c = 0; c < 4; ++c) { Ints p; for (int j = 0; j < 12; ++j) p.push_back(Q(q->calib[c][j])); cs.push_back(p); cams.push_back(q->is_cam_available[c]); }
                        e.b("gt", q->is_gt_available).i("len", q->length).ints("times", tm).raw("poses", list(ps)).raw("calib", list(cs)).raw("cams", bools(cams)).b("lidar", q->is_lidar_available);
                }
        } else if (op == "kframe") { if (!kq) return; int c = num(t[1]), f = num(t[2]); e.i("c", c).i("f", f); if (f >= kq->length) return; NXImage *im = nx_image_alloc(); if (guarded(e, [&] { nx_kitti_slam_sequence_xload_frame(kq, c, f, im); })) frame(e, im); nx_image_free(im); }
        else if (op == "vseq") {
                e.str("name", t[1]); NXVGGAffineSequence *q = nullptr; std::vector<Ints> hs;
                if (guarded(e, [&] { q = nx_vgg_affine_sequence_new(base.c_str(), t[1].c_str()); })) { nx_vgg_affine_sequence_free(vq); vq = q; for (int i = 0; i < q->length; ++i) { Ints h; for (int j = 0; j < 9; ++j) h.push_back(Q(q->h[i][j])); hs.push_back(h); } e.i("len", q->length).raw("hs", list(hs)); }
        } else if (op == "vframe") { if (!vq) return; int f = num(t[1]); e.i("f", f); NXImage *im = nx_image_alloc(); if (guarded(e, [&] { nx_vgg_affine_sequence_xload_frame(vq, f, im, f % 2 ? NX_IMAGE_LOAD_AS_IS : NX_IMAGE_LOAD_GRAYSCALE); })) frame(e, im); nx_image_free(im); }
        else if (op == "tseq") {
                e.str("name", t[1]); NXTempleColor128Sequence *q = nullptr; std::vector<Ints> gs;
                if (guarded(e, [&] { q = nx_temple_color_128_sequence_new(base.c_str(), t[1].c_str()); })) { nx_temple_color_128_sequence_free(tq); tq = q; for (int i = 0; i < q->length; ++i) { Ints g; for (int j = 0; j < 4; ++j) g.push_back(Q(q->ground_truth[i][j])); gs.push_back(g); } e.i("s", q->start_frame).i("t", q->end_frame).i("len", q->length).i("attr", q->attributes).raw("gts", list(gs)); }
        } else if (op == "tframe") { if (!tq) return; int f = num(t[1]); e.i("f", f); NXImage *im = nx_image_alloc(); if (guarded(e, [&] { nx_temple_color_128_sequence_xload_frame(tq, f, im, NX_IMAGE_LOAD_AS_IS); })) frame(e, im); nx_image_free(im); }
        else _exit(98);
        emit(e);
}
