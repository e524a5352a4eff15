// C03 (layout and accessors), C08 (deadline arithmetic under a controlled clock)
#define FAKE_CLOCK
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include "h.h"
using namespace cachelot; using namespace cachelot::cache;
static std::string str(const slice s) { return std::string(s.begin(), s.length()); }
int main(int argc, char ** argv) {
    H h(argc, argv);
    while (h.more()) try {
        size_t kl = h.r(4) ? 1 + h.r(250) : (h.r(2) ? 1 : 250), vl = h.r(4) ? h.r(300) : h.r(70000); std::string key, val; for (size_t i = 0; i < kl; ++i) key += (char)h.r(256); for (size_t i = 0; i < vl; ++i) val += (char)h.r(256);
        uint32_t hash = h.bits(), s = h.r(3) ? h.r(1000) : (uint32_t)h.bits(); uint16_t fl = h.bits(); uint64_t ts = h.bits(); fake_now = h.r(4) ? h.r(100000) : h.r(2) ? h.r(0xffffffffull) : 0xfffffffeull - h.r(3);
        char * kp = (char *)malloc(kl); memcpy(kp, key.data(), kl); char * vp = (char *)malloc(vl); memcpy(vp, val.data(), vl);
        size_t need = Item::CalcSizeRequired(slice(kp, kl), vl); char * m = (char *)malloc(need); memset(m, 0xAA, need);
        Item * it = new (m) Item(slice(kp, kl), hash, vl, fl, seconds(s), ts); std::ostringstream c; c << "key '" << esc(key) << "' value length " << vl << " flags " << fl << " ttl " << s << " now " << fake_now;
        auto attrs = [&](const char * when, const std::string & v) { CK("C03", str(it->key()) == key && it->key().begin() >= m && it->key().end() <= m + need, c.str() << when << " key"); CK("C03", it->hash() == hash, c.str() << when << " hash"); CK("C03", it->opaque_flags() == fl, c.str() << when << " flags"); CK("C03", it->timestamp() == ts, c.str() << when << " version"); CK("C03", str(it->value()) == v, c.str() << when << " value"); };
        CK("C03", it->value().length() == vl, c.str()); it->assign_value(slice(vp, vl)); attrs(" after assign_value", val);
        auto et = it->expiration_time(); size_t cut = h.r(vl + 1); char * a = (char *)malloc(cut), * b = (char *)malloc(vl - cut); memcpy(a, vp, cut); memcpy(b, vp + cut, vl - cut);
        memset(const_cast<char *>(it->value().begin()), 0, vl); it->assign_compose(slice(a, cut), slice(b, vl - cut)); attrs(" after assign_compose", val); CK("C03", it->expiration_time() == et, c.str() << " deadline changed by assign");
        if (h.r(2)) { std::string v2 = val.substr(0, h.r(vl + 1)); char * q = (char *)malloc(v2.size()); memcpy(q, v2.data(), v2.size()); it->assign_value(slice(q, v2.size())); attrs(" after shorter assign_value", v2); free(q); }
        uint64_t t0 = fake_now; bool inf = s == 0; uint64_t dl = t0 + s;
        if (inf) CK("C08", it->ttl() == Item::infinite_TTL, c.str() << " ttl of infinite");
        else if (dl < 0xffffffffull) { CK("C08", it->ttl().count() == s, c.str() << " ttl " << it->ttl().count()); uint64_t w = t0 + h.r(s); fake_now = w; CK("C08", it->ttl().count() == dl - w, c.str() << " ttl at " << w); fake_now = t0; }
        for (int k = 0; k < 6; ++k) { uint64_t t; switch (h.r(5)) { case 0: t = t0; break; case 1: t = dl ? dl - 1 : 0; break; case 2: t = dl; break; case 3: t = dl + h.r(1000); break; default: t = t0 + h.r(s + 2ull); } if (t < t0) t = t0; if (t > 0xfffffffeull) t = 0xfffffffeull; fake_now = t;
            bool e = !inf && t >= dl; CK("C08", it->is_expired() == e, c.str() << " is_expired at " << t << " stored at " << t0); }
        fake_now = t0 + h.r(10); if (fake_now > 0xfffffffeull) fake_now = 0xfffffffeull; uint32_t s2 = h.r(3) ? h.r(1000) : (uint32_t)h.bits(); uint64_t t1 = fake_now; it->set_ttl(seconds(s2)); CK("C03", str(it->value()).size() <= vl && str(it->key()) == key && it->hash() == hash && it->opaque_flags() == fl && it->timestamp() == ts, c.str() << " set_ttl changed attributes");
        uint64_t d2 = t1 + s2; for (uint64_t t : {t1, d2 - 1, d2, d2 + 5}) { if (t < t1) t = t1; if (t > 0xfffffffeull) t = 0xfffffffeull; fake_now = t; CK("C08", it->is_expired() == (s2 != 0 && t >= d2), c.str() << " after set_ttl(" << s2 << ") at " << t1 << ": is_expired at " << t); }
        free(a); free(b); free(m); free(kp); free(vp);
    } catch (Abandon &) {}
    return h.done();
}
