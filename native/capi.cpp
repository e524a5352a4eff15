// C18: the C interface against the C++ one, with allocation failures injected into the growth of the index
#define FAKE_CLOCK
#include "h.h"
#include <new>
static bool fail_new = false;
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return fail_new ? nullptr : malloc(n); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }
void * operator new[](size_t n) { return malloc(n); }
#include "cachelot/c_api.cpp"
using namespace cachelot; using namespace cachelot::cache;
struct Err { bool set = false; int code = 0; std::string cat, desc; };
template <class F> Err guard(F f) { Err e; try { f(); } catch (const system_error & x) { e.set = true; e.code = x.code().value(); e.cat = x.code().category().name(); e.desc = x.code().message(); } catch (const std::exception & x) { e.set = true; e.code = (int)error::unknown_error; e.cat = "Unknown"; e.desc = x.what(); } return e; }
struct Run { H & h; CachelotPtr p; Cache q; std::vector<std::string> ks;
    Run(H & h, CachelotPtr p, size_t ps, size_t np, size_t d, bool ev) : h(h), p(p), q(Cache::Create(ps * np, ps, d, ev)) {}
    CachelotError ce; CachelotError * ep;
    void junk() { memset(&ce, 0xAB, sizeof ce); ep = h.r(5) ? &ce : nullptr; }
    void same(const Err & e, const char * what) { if (!ep) return;
        if (e.set) { CK("C18", ce.code == e.code, what << ": code " << ce.code << " expected " << e.code); CK("C18", ce.category && e.cat == ce.category, what << ": category"); CK("C18", memchr(ce.desription, 0, sizeof ce.desription), what << ": description not terminated"); CK("C18", e.desc.substr(0, sizeof(ce.desription) - 1) == ce.desription, what << ": description '" << ce.desription << "' expected '" << e.desc << "'"); }
        else CK("C18", ce.code == 0 && ce.category == nullptr && ce.desription[0] == 0, what << " succeeded but the error structure says code " << ce.code); }
    void step() { std::string k = "k" + std::to_string(h.r(60)); if (!h.r(30)) k = std::string(240 + h.r(20), 'x'); uint32 hs = cachelot_hash(k.data(), k.size()); CK("C18", hs == HashFunction()(slice(k.data(), k.size())), "hash"); CachelotItemKey ck{k.data(), k.size(), hs}; slice sk(k.data(), k.size()); unsigned o = h.r(14); std::string v = h.r(2) ? std::to_string(h.bits()) : std::string(h.r(900), 'v'); fail_new = !h.r(8); uint32 ttl = h.r(3) ? 0 : h.r(30); uint64 d = h.r(3) ? h.r(50) : h.bits();
        h.log << "op " << o << " key " << esc(k) << " value " << v.size() << " delta " << d << " ttl " << ttl << (fail_new ? " no memory for the index" : "") << "\n"; junk();
        if (o < 7) { ItemPtr qi = nullptr; Err e = guard([&] { qi = q.create_item(sk, hs, v.size(), 0, Item::infinite_TTL); qi->assign_value(slice(v.data(), v.size())); }); auto pi = cachelot_create_item_raw(p, ck, v.data(), v.size(), ep); same(e, "create_item"); CK("C18", (pi == nullptr) == (qi == nullptr), "create_item result"); if (!pi) { fail_new = false; return; }
            CK("C18", cachelot_item_get_keylen(pi) == k.size() && !memcmp(cachelot_item_get_key(pi), k.data(), k.size()) && cachelot_item_get_valuelen(pi) == v.size() && !memcmp(cachelot_item_get_value(pi), v.data(), v.size()), "item accessors"); cachelot_item_set_ttl_seconds(pi, ttl); qi->set_ttl(seconds(ttl)); CK("C18", cachelot_item_get_ttl_seconds(pi) == qi->ttl().count() && (ttl != 0 || cachelot_item_get_ttl_seconds(pi) == cachelot_infinite_TTL), "ttl");
            junk(); bool r = false, w = false; switch (o) { default: e = guard([&] { q.do_set(qi); w = true; }); r = cachelot_set(p, pi, ep); break; case 1: e = guard([&] { w = q.do_add(qi); }); r = cachelot_add(p, pi, ep); break; case 2: e = guard([&] { w = q.do_replace(qi); }); r = cachelot_replace(p, pi, ep); break; case 3: e = guard([&] { w = q.do_append(qi); }); r = cachelot_append(p, pi, ep); break; case 4: e = guard([&] { w = q.do_prepend(qi); }); r = cachelot_prepend(p, pi, ep); break; case 5: if (!h.r(3)) { q.destroy_item(qi); cachelot_destroy_item(p, pi); cachelot_destroy_item(p, nullptr); fail_new = false; return; } e = guard([&] { q.do_set(qi); w = true; }); r = cachelot_set(p, pi, ep); }
            same(e, "storage command"); CK("C18", r == w, "storage command " << o << " returned " << r << " expected " << w); }
        else { bool r = false, w = false; Err e; switch (o) {
            case 7: case 8: { auto i = q.do_get(sk, hs); auto g = cachelot_get_unsafe(p, ck, ep); same(e, "get"); CK("C18", (i == nullptr) == (g == nullptr), "get"); if (i) CK("C18", std::string(cachelot_item_get_value(g), cachelot_item_get_valuelen(g)) == i->value().str() && std::string(cachelot_item_get_key(g), cachelot_item_get_keylen(g)) == i->key().str(), "get returned another item"); break; }
            case 9: w = q.do_delete(sk, hs); r = cachelot_delete(p, ck, ep); same(e, "delete"); break;
            case 10: w = q.do_touch(sk, hs, seconds(ttl)); r = cachelot_touch(p, ck, ttl, ep); same(e, "touch"); break;
            case 11: case 12: { uint64 x = 0; uint64_t y = 77, * yp = h.r(4) ? &y : nullptr; e = guard([&] { tie(w, x) = o == 11 ? q.do_incr(sk, hs, d) : q.do_decr(sk, hs, d); }); r = o == 11 ? cachelot_incr(p, ck, d, yp, ep) : cachelot_decr(p, ck, d, yp, ep); same(e, "incr/decr"); if (!e.set && w && yp) CK("C18", y == x, "result " << y << " expected " << x); break; }
            default: if (!h.r(4)) { q.do_flush_all(); cachelot_flush_all(p, ep); same(e, "flush_all"); } else fake_now += h.r(10); }
            CK("C18", r == w, "command " << o << " returned " << r << " expected " << w); }
        fail_new = false; }
};
int main(int c, char ** v) { H h(c, v);
    while (h.more()) { try { __stats__ = stats(); fake_now = 1000; h.log.str(""); size_t ps = 256u << h.r(4), np = 4u << h.r(2), d = 1u << h.r(5); bool ev = h.r(3); CachelotError ce; memset(&ce, 0xAB, sizeof ce);
        CachelotOptions bad{h.r(2) ? ps * np + 1 : ps * np, h.r(2) ? 100 : ps, h.r(2) ? 3 : d, ev}; Err e = guard([&] { Cache::Create(bad.memory_limit, bad.mem_page_size, bad.initial_dict_size, ev); }); CachelotError * ep = h.r(4) ? &ce : nullptr; auto b = cachelot_init(bad, ep); CK("C18", (b == nullptr) == e.set, "init of options"); if (ep) { if (e.set) CK("C18", ce.code == e.code && e.cat == ce.category && e.desc == ce.desription, "init error"); else CK("C18", ce.code == 0 && ce.category == nullptr && ce.desription[0] == 0, "init error structure after success"); } cachelot_destroy(b); cachelot_destroy(nullptr);
        h.log << "page " << ps << " pages " << np << " dict " << d << " evictions " << ev << "\n"; auto p = cachelot_init(CachelotOptions{ps * np, ps, d, ev}, nullptr); CK("C18", p, "init"); Run r(h, p, ps, np, d, ev); if (h.r(2)) cachelot_on_eviction_callback(p, [](CachelotConstItemPtr) {}); if (h.r(2)) cachelot_on_eviction_callback(p, nullptr);
        for (int i = 0; i < 200; ++i) r.step(); cachelot_destroy(p); CK("C18", cachelot_version() != nullptr, "version");
    } catch (Abandon &) { fail_new = false; } }
    return h.done(); }
