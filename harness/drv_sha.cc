// Conformance driver: SHA-256 over one or several buffers, and the gatherer under it.
#include "drv.hpp"
#include "virg/nexus/nx_hash_sha256.h"
#include "virg/nexus/nx_string.h"
#include "virg/nexus/nx_alloc.h"
void begin_case(const Toks &) {}
static std::string chunk_json(const std::vector<std::string> &c)
{
        std::string s = "[";
        for (size_t i = 0; i < c.size(); ++i) { if (i) s += ","; s += Ev::barr(c[i].data(), c[i].size()); }
        return s + "]";
}
void run_op(const Toks &t)
{
        Ev e(t[0]);
        std::vector<std::string> c;
        size_t first = t[0] == "gather" ? 2 : 1;
        for (size_t i = first; i < t.size(); ++i) c.push_back(unhex(t[i]));
        int n = (int)c.size();
        e.raw("chunks", chunk_json(c));
        // exact-size heap copies so that any access outside a buffer is caught
        uint8_t **p = (uint8_t **)malloc(sizeof(uint8_t *) * n);
        size_t *ln = (size_t *)malloc(sizeof(size_t) * n);
        for (int i = 0; i < n; ++i) { ln[i] = c[i].size(); p[i] = (uint8_t *)malloc(ln[i]); memcpy(p[i], c[i].data(), ln[i]); }
        if (t[0] == "sha" || t[0] == "sha1") {
                uint8_t *h = (uint8_t *)malloc(32);
                memset(h, 0xA5, 32);
                if (t[0] == "sha1") { e.s.replace(e.s.find("sha1"), 4, "sha"); nx_sha256(h, p[0], ln[0]); }
                else nx_sha256_multi(h, n, p, ln);
                e.bytes("hash", h, 32);
                char *x = nx_hash_to_str(32, h);
                e.bytes("hex", x, strlen(x));
                nx_free(x);
                free(h);
        } else if (t[0] == "gather") {
                Ints req = nums(t[1]);
                e.ints("req", req);
                int so = 0; size_t off = 0;
                std::vector<std::string> got;
                for (int r : req) {
                        char *d = (char *)malloc(r);
                        size_t k = nx_memncpy_multi(d, n, (const void *const *)p, ln, r, &so, &off);
                        got.push_back(k <= (size_t)r ? std::string(d, k) : std::string("?"));
                        free(d);
                }
                e.raw("got", chunk_json(got));
        } else _exit(98);
        for (int i = 0; i < n; ++i) free(p[i]);
        free(p); free(ln);
        emit(e);
}
void end_case() { Ev e("end"); emit(e); }
