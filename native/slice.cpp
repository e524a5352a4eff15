#include <cachelot/common.h>
#include <cachelot/slice.h>
#include "h.h"
using namespace cachelot;
// exact-size heap buffers: reads outside a range are caught by the address sanitizer
struct Buf { char * p; size_t n; explicit Buf(const std::string & s) : p((char *)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Buf() { free(p); } slice sl() const { return slice(p, n); } };
static std::string str(const slice s) { return std::string(s.begin(), s.length()); }
int main(int argc, char ** argv) {
    H h(argc, argv);
    while (h.more()) {
        int alpha = 1 + h.r(4); auto gen = [&](size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)(h.r(20) ? "ab \r"[h.r(alpha)] : (char)h.r(256)); return s; };
        std::string a = gen(h.r(20)), b = h.r(2) ? gen(h.r(6)) : a.substr(0, h.r(a.size() + 1));
        if (h.r(3) == 0 && !a.empty()) { size_t q = h.r(a.size()); b = a.substr(q, h.r(a.size() - q + 1)); }
        if (h.r(6) == 0) { b = a; if (!b.empty() && h.r(2)) b[h.r(b.size())] ^= 1 << h.r(8); }
        Buf A(a), B(b); slice sa = A.sl(), sb = B.sl();
        std::string ctx = "a='" + esc(a) + "' b='" + esc(b) + "'";
        CHECK(sa.length() == a.size() && str(sa) == a, ctx);
        CHECK(sa.empty() == a.empty() && bool(sa) == !a.empty(), ctx);
        CHECK((sa == sb) == (a == b) && (sb == sa) == (a == b) && (sa == sa), ctx);
        CHECK((sa != sb) == (a != b), ctx);
        if (!b.empty()) {
            size_t w = a.find(b); slice f = sa.search(sb);
            if (w == std::string::npos) CHECK(!f, ctx << " search found " << (f.begin() - sa.begin()));
            else CHECK(f && f.begin() == sa.begin() + w && f.length() == b.size(), ctx << " search");
        }
        if (sa.length() >= sb.length() || true) {
            bool ends = b.size() <= a.size() && a.compare(a.size() - b.size(), b.size(), b) == 0, starts = b.size() <= a.size() && a.compare(0, b.size(), b) == 0;
            CHECK(sa.endswith(sb) == ends, ctx); CHECK(sa.startswith(sb) == starts, ctx);
        }
        char c = h.r(2) && !a.empty() ? a[h.r(a.size())] : ' ';
        { size_t w = a.find(c); slice l, r; tie(l, r) = sa.split(c);
          if (w == std::string::npos) CHECK(str(l) == a && r.empty(), ctx << " split"); else CHECK(l.begin() == sa.begin() && str(l) == a.substr(0, w) && str(r) == a.substr(w + 1) && (r.empty() || r.begin() == sa.begin() + w + 1), ctx << " split"); }
        if (!b.empty()) { size_t w = a.find(b); slice l, r; tie(l, r) = sa.split(sb);
          if (w == std::string::npos) CHECK(str(l) == a && r.empty(), ctx << " split by range"); else CHECK(l.begin() == sa.begin() && str(l) == a.substr(0, w) && r.end() == sa.end() && str(r) == a.substr(w + b.size()), ctx << " split by range"); }
        if (!a.empty()) { size_t k = h.r(a.size()); slice l, r; tie(l, r) = sa.split_at(k); CHECK(l.begin() == sa.begin() && l.length() == k && r.begin() == l.end() && r.end() == sa.end(), ctx << " split_at " << k);
          tie(l, r) = sa.split_at(sa.begin() + k); CHECK(l.begin() == sa.begin() && l.length() == k && r.begin() == l.end() && r.end() == sa.end(), ctx << " split_at ptr " << k);
          size_t m = h.r(a.size() - k + 1); slice u = sa.subslice(k, m); CHECK(u.begin() == sa.begin() + k && u.length() == m, ctx << " subslice"); CHECK(sa.contains(sa.begin() + k) && !sa.contains(sa.end()), ctx);
          // equality and tests of ranges that share memory
          size_t k2 = h.r(a.size()), m2 = h.r(a.size() - k2 + 1); slice v = sa.subslice(k2, m2); CHECK((u == v) == (a.substr(k, m) == a.substr(k2, m2)), ctx << " shared equality");
          CHECK(sa.startswith(u) == (a.compare(0, m, a, k, m) == 0), ctx << " shared prefix"); CHECK(sa.endswith(u) == (a.compare(a.size() - m, m, a, k, m) == 0), ctx << " shared suffix");
          if (m) CHECK(sa.contains(u), ctx << " contains part"); }
        CHECK(sa.contains(sb) == (!b.empty() && a.find(b) != std::string::npos), ctx);
        CHECK(sa.str() == a, ctx); CHECK(slice().empty() && slice().length() == 0 && (slice() == slice()) && (b.empty() || !slice().startswith(sb)) && (b.empty() || !slice().endswith(sb)) && (b.empty() || !slice().search(sb)), ctx);
        size_t n = h.r(a.size() + 1);
        CHECK(str(sa.rtrim_n(n)) == a.substr(0, a.size() - n), ctx << " rtrim_n " << n);
        if (!a.empty()) { size_t i = h.r(a.size()); CHECK(sa[i] == a[i], ctx); }
        std::string t; for (char x : sa) t += x; CHECK(t == a, ctx << " iteration");
    }
    return h.done();
}
