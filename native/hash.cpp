#include <cachelot/common.h>
#include <server/memcached/proto_ascii.cpp>
#include <cachelot/c_api.h>
#include "h.h"
using namespace cachelot;
int main(int argc, char ** argv) {
    H h(argc, argv); cache::HashFunction f; fnv1a<uint64>::hasher f64;
    struct { const char * s; uint32_t v; } kat[] = {{"", 0x811c9dc5}, {"a", 0xe40c292c}, {"b", 0xe70c2de5}, {"foobar", 0xbf9cf968}, {"chongo was here!\n", 0xd49930d5}, {"127.0.0.3", 0x76b15b92 ^ 0}, {0, 0}};
    for (int i = 0; i < 5; ++i) { std::string s = kat[i].s; CHECK(f(slice(s.data(), s.size())) == kat[i].v, "published FNV-1a value of '" << esc(s) << "'"); }
    while (h.more()) {
        size_t n = h.r(3) ? h.r(12) : h.r(400); std::string s; int m = h.r(3); for (size_t i = 0; i < n; ++i) s += m == 0 ? (char)h.r(256) : m == 1 ? (char)(32 + h.r(95)) : (char)(h.r(2) ? 0xff : 0x80);
        uint32_t e = 0x811c9dc5u; uint64_t e64 = 0xcbf29ce484222325ull; for (unsigned char c : s) { e = (e ^ c) * 0x01000193u; e64 = (e64 ^ c) * 0x100000001b3ull; }
        for (int k = 0; k < 2; ++k) { size_t pad = h.r(8); char * p = (char *)malloc(pad + n); memset(p, h.r(256), pad); memcpy(p + pad, s.data(), n); slice sl(p + pad, n);
            CHECK(f(sl) == e, "hash of '" << esc(s) << "'"); CHECK(cachelot_hash(p + pad, n) == e, "cachelot_hash of '" << esc(s) << "'"); CHECK(memcached::ascii::calc_hash(sl) == e, "calc_hash of '" << esc(s) << "'"); CHECK(f64(sl) == e64, "64-bit hash of '" << esc(s) << "'"); free(p); }
    }
    return h.done();
}
