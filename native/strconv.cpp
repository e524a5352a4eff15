#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/string_conv.h>
#include "h.h"
using namespace cachelot;
typedef __int128 i128;
template <class T> void fmt(H & h, T v) {
    char * b = (char *)malloc(64); memset(b, '#', 64); char e[64];
    if (std::is_signed<T>::value) snprintf(e, 64, "%lld", (long long)v); else snprintf(e, 64, "%llu", (unsigned long long)v);
    size_t n = int_to_str(v, b);
    CHECK(n == strlen(e) && !memcmp(b, e, n) && b[n] == '#', "int_to_str(" << e << ") gave '" << esc(std::string(b, n < 60 ? n : 60)) << "'");
    CHECK(n <= internal::numeric<T>::max_str_length, "length of " << e);
    error_code ec; char * c = (char *)malloc(n); memcpy(c, b, n); T back = str_to_int<T>((const char *)c, (const char *)c + n, ec);
    CHECK(!ec && back == v, "round trip of " << e); free(c); free(b);
}
template <class T> void parse(H & h, const std::string & s) {
    bool neg = std::is_signed<T>::value && !s.empty() && s[0] == '-'; std::string d = neg ? s.substr(1) : s;
    bool digits = !d.empty(); for (char c : d) digits = digits && c >= '0' && c <= '9';
    i128 v = 0; bool ok = digits && d.size() <= 20; if (ok) { for (char c : d) v = v * 10 + (c - '0'); if (v >> 64) ok = false; if (neg) v = -v; }
    if (ok) ok = v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max();
    char * c = (char *)malloc(s.size()); memcpy(c, s.data(), s.size()); error_code ec;
    T r = str_to_int<T>((const char *)c, (const char *)c + s.size(), ec);
    CHECK(ok == !ec, "str_to_int<" << sizeof(T) << (std::is_signed<T>::value ? "s" : "u") << ">('" << esc(s) << "') error " << ec.value() << " value " << (long long)r);
    if (ok) CHECK((i128)r == v, "str_to_int('" << esc(s) << "') gave " << (long long)r);
    else if (!digits) CHECK(ec == error::numeric_convert || d.size() > 0, "kind"); free(c);
}
template <class T> void one(H & h) {
    uint64_t v = h.bits(); switch (h.r(4)) { case 0: v = (uint64_t)std::numeric_limits<T>::max() - h.r(3); break; case 1: v = (uint64_t)std::numeric_limits<T>::min() + h.r(3); break; case 2: { uint64_t p = 1; for (int k = h.r(20); k; --k) p *= 10; v = p + h.r(3) - 1; } }
    fmt<T>(h, (T)v); fmt<T>(h, (T)-v);
    char b[80]; std::string s;
    switch (h.r(5)) {
        case 0: { i128 x = (i128)std::numeric_limits<T>::max() + (int)h.r(5) - 2; snprintf(b, 80, "%s%llu", h.r(3) ? "" : "-", (unsigned long long)x); s = b; break; }
        case 1: for (int n = h.r(23); n; --n) s += '0' + h.r(10); break;
        case 2: { s = "18446744073709551615"; int k = h.r(20); s[k] = '0' + h.r(10); if (h.r(2)) for (int j = k + 1; j < 20; ++j) s[j] = '0' + h.r(10); break; }
        case 3: snprintf(b, 80, "%s%llu", h.r(2) ? "-" : "", (unsigned long long)h.bits()); s = b; if (!s.empty() && h.r(2)) s[h.r(s.size())] = (char)h.r(256); break;
        default: for (int n = h.r(5); n; --n) s += "0123456789-+ \x00\x80"[h.r(15)];
    }
    if (h.r(8) == 0) s = std::string(h.r(4), '0') + s;
    parse<T>(h, s);
}
int main(int argc, char ** argv) {
    H h(argc, argv);
    for (int i = 0; i < 65536; ++i) { fmt<uint16>(h, i); fmt<int16>(h, i); if (i < 256) { fmt<uint8>(h, i); fmt<int8>(h, i); } }
    for (uint64_t p = 1, i = 0; i < 20; ++i, p *= 10) for (int k = -1; k <= 1; ++k) { fmt<uint64>(h, p + k); fmt<int64>(h, p + k); fmt<uint32>(h, p + k); fmt<int32>(h, p + k); fmt<int64>(h, -(p + k)); }
    while (h.more()) { one<int8>(h); one<int16>(h); one<int32>(h); one<int64>(h); one<uint8>(h); one<uint16>(h); one<uint32>(h); one<uint64>(h); }
    return h.done();
}
