// C01: hash_table and dict against std::map, adversarial hashes, growth
#include "h.h"
#include <cachelot/common.h>
#include <cachelot/dict.h>
#include <cachelot/slice.h>
using namespace cachelot;
struct O32 { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 93; };
struct O64 { typedef size_t size_type; typedef size_t hash_type; static constexpr size_type max_load_factor_percent = 70; };
typedef uint32 K; typedef uint64 V;
static uint32 pick_hash(H & h, int mode, K k) {
    switch (mode) {
        case 0: return k * 2654435761u;
        case 1: return k % 3;                                  // few values, zero included
        case 2: return (k % 5) << 28;                          // equal low bits, zero included
        case 3: return 0u - (k % 4);                           // end of the table, wraps around
        case 4: return k;                                      // dense runs
        case 5: return (k * 2654435761u) | 0xfffffff0u;
        case 6: return k & 1 ? 0 : 1;                          // zero and the hash it is stored under
        default: return (k / 7) * 0x10001u;
    }
}
template <class O> void table_case(H & h) {
    typedef hash_table<K, V, std::equal_to<K>, internal::hash_table_entry<K, V>, O> T;
    uint32 cap = 2u << h.r(6); int mode = h.r(8); T t(cap); std::map<K, V> m; K nk = 1 + h.r(cap * 2);
    h.log.str(""); h.log << "hash_table cap " << cap << " hash mode " << mode << "\n";
    auto verify = [&](bool all) {
        CK("C01", t.size() == m.size(), "size " << t.size() << " expected " << m.size());
        for (K k = 0; k < nk; ++k) { if (!all && h.r(4)) continue;
            bool f; V v; tie(f, v) = t.get(k, pick_hash(h, mode, k)); auto i = m.find(k);
            CK("C01", f == (i != m.end()) && (!f || v == i->second), "get key " << k << " found " << f << " value " << v << " expected " << (i == m.end() ? -1ll : (long long)i->second));
            CK("C01", t.contains(k, pick_hash(h, mode, k)) == f, "contains key " << k); }
    };
    for (int n = 0; n < 120; ++n) {
        K k = h.r(nk); uint32 hs = pick_hash(h, mode, k); V v = h.rng() >> 1;
        switch (h.r(6)) {
        case 0: case 1: if (t.size() < t.max_size() || m.count(k)) { h.log << "put " << k << "=" << v << "\n"; bool r = t.put(k, hs, v); CK("C01", r == !m.count(k), "put result"); m[k] = v; } break;
        case 2: { h.log << "del " << k << "\n"; bool r = t.del(k, hs); CK("C01", r == (m.erase(k) == 1), "del result"); break; }
        case 3: { bool f; typename O::size_type p; tie(f, p) = t.entry_for(k, hs); CK("C01", f == (m.count(k) == 1), "entry_for key " << k);
                  if (!f && t.size() < t.max_size()) { h.log << "insert " << k << "=" << v << "\n"; p = t.insert(p, k, hs, v); m[k] = v; CK("C01", t.entry_at(p).key() == k && t.entry_at(p).value() == v && !t.empty_at(p), "insert position"); }
                  else if (f) { CK("C01", t.entry_at(p).key() == k && t.entry_at(p).value() == m[k], "entry position"); if (h.r(2)) { h.log << "remove " << k << "\n"; t.remove(p); m.erase(k); if (h.r(2)) { h.log << "reinsert " << k << "=" << v << "\n"; p = t.insert(p, k, hs, v); m[k] = v; CK("C01", t.entry_at(p).key() == k, "insert position"); } } }
                  break; }
        case 4: if (!h.r(10)) { V bit = 1 + h.r(7); h.log << "remove_if v&" << bit << "\n"; t.remove_if([=](V x) { return (x & bit) == bit; }); for (auto i = m.begin(); i != m.end();) if ((i->second & bit) == bit) m.erase(i++); else ++i; } break;
        case 5: if (!h.r(60)) { h.log << "clear\n"; t.clear(); m.clear(); } break;
        }
        verify(n % 16 == 0);
    }
    verify(true);
}
template <class O> void dict_case(H & h) {
    typedef dict<K, V, std::equal_to<K>, internal::hash_table_entry<K, V>, O> D;
    uint32 init = 1 + h.r(h.r(2) ? 4 : 2000); int mode = h.r(8); if (init > 64 && (mode == 1 || mode == 2 || mode == 3 || mode == 5 || mode == 6)) mode = 0;
    bool big = h.r(3) == 0; K nk = big ? 3000 + h.r(6000) : 2 + h.r(150); if (big) mode = h.r(2) ? 4 : 0; unsigned steps = big ? nk * 3 : 400;
    D d(init); std::map<K, V> m; h.log.str(""); h.log << "dict initial " << init << " hash mode " << mode << " keys " << nk << "\n";
    auto one = [&](K k) { bool f; V v; tie(f, v) = d.get(k, pick_hash(h, mode, k)); auto i = m.find(k);
        CK("C01", f == (i != m.end()) && (!f || v == i->second), "get key " << k << " found " << f << " value " << v);
        CK("C01", d.contains(k, pick_hash(h, mode, k)) == f, "contains key " << k); };
    unsigned put_bias = h.r(3);
    for (unsigned n = 0; n < steps; ++n) {
        K k = h.r(nk); uint32 hs = pick_hash(h, mode, k); V v = h.rng() >> 1; unsigned op = h.r(put_bias == 0 ? 9 : 8);
        if (op < 4) { bool f; typename D::iterator at; tie(f, at) = d.entry_for(k, hs); CK("C01", f == (m.count(k) == 1), "entry_for key " << k);
            if (!big) h.log << (f ? "replace " : "insert ") << k << "=" << v << "\n";
            if (f) { CK("C01", at && at.key() == k && at.value() == m[k], "iterator of key " << k); if (h.r(3)) at.unsafe_replace_kv(k, hs, v); else { d.remove(at); at = d.insert(at, k, hs, v); } }
            else at = d.insert(at, k, hs, v);
            m[k] = v; CK("C01", at && at.key() == k && at.value() == v, "position of stored key " << k); }
        else if (op == 4) { bool ro = h.r(2); if (!big) h.log << "lookup " << k << " ro " << ro << "\n"; bool f; typename D::iterator at; tie(f, at) = d.entry_for(k, hs, ro); CK("C01", f == (m.count(k) == 1) && (!f || (at && at.value() == m[k])), "entry_for key " << k); }
        else if (op == 5) { if (!big) h.log << "del " << k << "\n"; bool r = d.del(k, hs); CK("C01", r == (m.erase(k) == 1), "del " << k); }
        else if (op == 6) { bool f; typename D::iterator at; tie(f, at) = d.entry_for(k, hs, true); CK("C01", f == (m.count(k) == 1), "entry_for key " << k); if (f) { if (!big) h.log << "remove " << k << "\n"; d.remove(at); m.erase(k); } }
        else if (op == 7) { if (!h.r(big ? 400 : 60)) { V bit = 1 + h.r(7); h.log << "remove_if v&" << bit << "\n"; d.remove_if([=](V x) { return (x & bit) == bit; }); for (auto i = m.begin(); i != m.end();) if ((i->second & bit) == bit) m.erase(i++); else ++i; } }
        else if (!h.r(300)) { h.log << "clear\n"; d.clear(); m.clear(); }
        CK("C01", d.size() == m.size() && d.empty() == m.empty(), "size " << d.size() << " expected " << m.size());
        one(k); one(h.r(nk));
        if (!big || n % 500 == 0) for (K q = 0; q < nk; ++q) one(q);
    }
    for (K q = 0; q < nk; ++q) one(q);
}
int main(int c, char ** v) { H h(c, v);
    while (h.more()) try { switch (h.r(4)) { case 0: table_case<O32>(h); break; case 1: table_case<O64>(h); break; case 2: dict_case<O32>(h); break; default: dict_case<O64>(h); } } catch (Abandon &) {}
    return h.done(); }
