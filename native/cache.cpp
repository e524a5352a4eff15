// C01 C02 C06 C08 C09 C10 C11 C19: Cache against a model, with the clock under control.  -DBLACKBOX: public interface only
#define FAKE_CLOCK
#include "h.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
using namespace cachelot; using namespace cachelot::cache;
static const uint64 INF = ~0ull;
struct M { std::string val; uint16 flags; uint64 dead; uint64 ver; const void * addr; };
struct Run {
    H & h; size_t ps, np; bool ev; Cache c; int hmode; std::map<std::string, M> m; std::vector<std::string> evicted; std::vector<const void *> evaddr; uint64 lastver = 0; stats want; std::string ctx = "C02";
    Run(H & h, size_t ps, size_t np, size_t dict, bool ev) : h(h), ps(ps), np(np), ev(ev), c(Cache::Create(ps * np, ps, dict, ev)), hmode(h.r(5)) {
        c.on_eviction = [this](ConstItemPtr i) { evicted.push_back(i->key().str()); evaddr.push_back(i);
            auto & h = this->h; auto k = i->key().str(); auto x = m.find(k); if (x == m.end()) { bad = "evicted key " + esc(k) + " is not stored"; return; }
            if (i->value().str() != x->second.val) bad = "evicted item changed"; m.erase(x); };
    }
    std::string bad;
    uint32 hash(const std::string & k) { uint32 f = HashFunction()(slice(k.data(), k.size())); switch (hmode) { case 0: return 0; case 1: return f & 3; case 2: return f << 28; default: return f; } }
    slice sl(const std::string & s) { return slice(s.data(), s.size()); }
    bool liv(const std::string & k) { auto i = m.find(k); return i != m.end() && (i->second.dead == INF || i->second.dead > fake_now); }
    bool look(const std::string & k) { bool l = liv(k); if (!l) m.erase(k); return l; } // a lookup drops the expired item
    uint64 deadline(int64_t ttl) { if (ttl == Item::infinite_TTL.count()) return INF; uint64 d = fake_now + (uint64)ttl; return d >= 0xffffffffull ? INF : d; }
    std::string key() { if (!h.r(30)) return std::string(1 + h.r(252), 'k'); return "key" + std::to_string(h.r(nk)); } unsigned nk = 30;
    void after_alloc(size_t before_evicted) {
        if (!bad.empty()) CK("C06", false, bad);
        if (!evicted.empty()) { ctx += " C06"; CK("C06", ev, "eviction while evictions are disabled"); size_t pg = (size_t)evaddr[0] / ps; for (auto a : evaddr) CK("C06", (size_t)a / ps == pg, "evicted items of several pages"); std::set<std::string> u(evicted.begin(), evicted.end()); CK("C06", u.size() == evicted.size(), "evicted twice");
            for (auto & x : m) CK("C06", (size_t)x.second.addr / ps != pg || x.second.addr == nullptr, "item " << esc(x.first) << " of the recycled page is still stored"); }
        STAT_EV += evicted.size(); evicted.clear(); evaddr.clear();
    }
    uint64 STAT_EV = 0;
    // create an item; nullptr if refused
    ItemPtr make(const std::string & k, const std::string & v, uint16 fl, int64_t ttl) {
        size_t need = Item::CalcSizeRequired(sl(k.substr(0, 250)), v.size()) + (k.size() > 250 ? 0 : 0); size_t n0 = m.size();
        try { ItemPtr i = c.create_item(sl(k), hash(k), v.size(), fl, seconds(ttl)); after_alloc(0);
            CK("C03", k.size() <= 250, "over-long key accepted"); CK("C04", need <= ps - memalloc::header_size(), "too big item accepted");
            i->assign_value(sl(v)); CK("C09", i->timestamp() > lastver, "version " << i->timestamp() << " after " << lastver); lastver = i->timestamp();
            CK("C03", i->key().str() == k && i->value().str() == v && i->opaque_flags() == fl && i->hash() == hash(k), "new item does not hold what it was given");
            return i;
        } catch (const system_error & e) { h.log << "  refused: " << e.what() << "\n";
            auto code = e.code(); CK("C06", m.size() == n0 && evicted.empty(), "refused request changed the cache"); after_alloc(0);
            if (k.size() > 250) CK("C14", code == error::make_error_code(error::key_too_long), "error for over-long key"); else if (need > ps - memalloc::header_size()) CK("C14", code == error::make_error_code(error::item_too_big), "error for too big item");
            else { CK("C06", !ev && code == error::make_error_code(error::out_of_memory), "create_item failed: " << e.what()); }
            return nullptr; } }
    void stored(const std::string & k, const M & x) { m[k] = x; }
#define INC(f) want.cache.f += 1
    void op() {
        std::string k = key(); unsigned o = h.r(22); uint16 fl = h.bits(); int64_t ttl; switch (h.r(4)) { case 0: ttl = 1 + h.r(20); break; case 1: ttl = h.bits() >> 20; break; case 2: ttl = h.r(3); break; default: ttl = Item::infinite_TTL.count(); } if (ttl > 0xffffffffll) ttl = Item::infinite_TTL.count();
        std::string v = h.r(3) ? std::to_string(h.bits()) : std::string(h.r(h.r(2) ? 60 : ps), 'a' + h.r(26)); if (!h.r(40)) v = "99999999999999999999"; if (!h.r(40)) v = "00" + v;
        static const char * cx[] = {"", "", "", "", "", "", " C09", " C11", " C11", " C09", " C08", " C08", "", " C08", " C08", " C08", "", " C10", " C10", " C10", " C10", " C10"}; ctx = std::string("C02") + cx[o];
        if (o < 10 && k.size() <= 250) { static const char * nm[] = {"set", "set", "set", "set", "add", "replace", "cas", "append", "prepend", "cas"};
            h.log << "t=" << fake_now << " " << nm[o] << " " << esc(k) << " flags " << fl << " ttl " << ttl << " value " << v.size() << " " << esc(v.substr(0, 24)) << "\n";
            uint64 cas = 0; if (m.count(k)) { cas = h.r(3) ? m[k].ver : m[k].ver + 1 - h.r(3); } else cas = h.r(100);
            ItemPtr i = make(k, v, fl, ttl); if (!i) return; M x{v, fl, deadline(ttl), i->timestamp(), i}; const void * a = i;
            bool was = liv(k); M old = was ? m[k] : M();
            switch (o) {
            default: c.do_set(i); look(k); INC(cmd_set); if (was) INC(set_existing); else INC(set_new); stored(k, x); break;
            case 4: { bool r = c.do_add(i); look(k); INC(cmd_add); if (!was) { INC(add_stored); stored(k, x); } else INC(add_not_stored); CK("C02", r == !was, "add returned " << r << " for " << (was ? "existing" : "missing") << " key"); break; }
            case 5: { bool r = c.do_replace(i); look(k); INC(cmd_replace); if (was) { INC(replace_stored); stored(k, x); } else INC(replace_not_stored); CK("C02", r == was, "replace returned " << r); break; }
            case 6: case 9: { bool f, s; tie(f, s) = c.do_cas(i, cas); look(k); INC(cmd_cas); bool match = was && old.ver == cas; if (!was) INC(cas_misses); else if (match) { INC(cas_stored); stored(k, x); } else INC(cas_badval); CK("C09", f == was && s == match, "cas " << cas << " returned " << f << "," << s << " item " << (was ? std::to_string(old.ver) : "missing")); break; }
            case 7: case 8: { bool app = o == 7; if (app) INC(cmd_append); else INC(cmd_prepend); look(k);
                std::string nv = app ? old.val + v : v + old.val; size_t need = Item::CalcSizeRequired(sl(k), nv.size());
                try { bool r = app ? c.do_append(i) : c.do_prepend(i); CK("C11", r == was, "returned " << r); if (was) { if (app) INC(append_stored); else INC(prepend_stored); CK("C11", need <= ps - memalloc::header_size(), "too big item stored"); M y{nv, old.flags, old.dead, 0, nullptr}; auto g = c.m_dict.get(sl(k), hash(k)); CK("C11", std::get<0>(g), "item lost"); y.ver = std::get<1>(g)->timestamp(); y.addr = std::get<1>(g); CK("C09", y.ver > lastver, "version " << y.ver << " after " << lastver); lastver = y.ver; stored(k, y); } else { if (app) INC(append_misses); else INC(prepend_misses); } }
                catch (const system_error & e) { h.log << "  refused: " << e.what() << "\n"; CK("C11", was, "error for missing key"); want.cache.append_stored = STAT_GET(cache, append_stored); want.cache.prepend_stored = STAT_GET(cache, prepend_stored); }
                break; }
            } (void)a; if (!evicted.empty()) CK("C06", false, "eviction by a storage command");
        } else if (o < 10) { ItemPtr i = make(k, v, fl, ttl); if (i) { c.destroy_item(i); } }
        else { if (k.size() > 250) k = k.substr(0, 250);
            bool was = liv(k); M old = was ? m[k] : M();
            switch (o) {
            case 10: case 11: { h.log << "t=" << fake_now << " get " << esc(k) << "\n"; auto i = c.do_get(sl(k), hash(k)); look(k); INC(cmd_get); if (was) INC(get_hits); else INC(get_misses); 
                if (i == nullptr) { if (was) CK("C08", false, "item with deadline " << old.dead << " is not served at " << fake_now); }
                else { CK("C08", was, "missing or expired item served at " << fake_now); CK("C02", i->key().str() == k && i->value().str() == old.val && i->opaque_flags() == old.flags, "get returned another item"); CK("C09", i->timestamp() == old.ver, "version changed"); } break; }
            case 12: { h.log << "t=" << fake_now << " delete " << esc(k) << "\n"; bool r = c.do_delete(sl(k), hash(k)); look(k); INC(cmd_delete); if (was) INC(delete_hits); else INC(delete_misses); m.erase(k); CK("C02", r == was, "delete returned " << r); break; }
            case 13: { h.log << "t=" << fake_now << " touch " << esc(k) << " ttl " << ttl << "\n"; bool r = c.do_touch(sl(k), hash(k), seconds(ttl)); look(k); INC(cmd_touch); if (was) { INC(touch_hits); m[k].dead = deadline(ttl); } else INC(touch_misses); CK("C08", r == was, "touch returned " << r); break; }
            case 14: if (!h.r(4)) { h.log << "t=" << fake_now << " flush_all\n"; c.do_flush_all(); INC(cmd_flush); for (auto i = m.begin(); i != m.end();) if (!liv(i->first)) m.erase(i++); else ++i; } break;
            case 15: { uint64 d = h.r(3) == 0 ? h.bits() >> 20 : h.r(25); if (fake_now + d < 0xfffffffeull) fake_now += d; h.log << "t=" << fake_now << "\n"; break; }
            case 16: { // a created item which is not stored
                ItemPtr i = make(k, v, fl, ttl); if (i) { c.destroy_item(i); } break; }
            default: { bool inc = h.r(2); uint64 d = h.r(2) ? h.r(100) : h.bits(); h.log << "t=" << fake_now << (inc ? " incr " : " decr ") << esc(k) << " " << d << "\n"; if (inc) INC(cmd_incr); else INC(cmd_decr);
                bool num = was && !old.val.empty() && old.val.size() <= 20; unsigned __int128 n = 0; if (num) for (char ch : old.val) { if (ch < '0' || ch > '9') num = false; n = n * 10 + (ch - '0'); } if (n > ~0ull) num = false;
                bool l = look(k); (void)l; uint64 hit = inc ? STAT_GET(cache, incr_hits) : STAT_GET(cache, decr_hits); size_t n0 = m.size();
                try { bool f; uint64 r; tie(f, r) = inc ? c.do_incr(sl(k), hash(k), d) : c.do_decr(sl(k), hash(k), d);
                    uint64 w = inc ? (n + d > ~0ull ? ~0ull : (uint64)(n + d)) : (n < d ? 0 : (uint64)n - d);
                    CK("C10", f == was && (!f || num), "found " << f << " expected " << was << " value " << esc(old.val)); if (inc) { if (was) INC(incr_hits); else INC(incr_misses); } else { if (was) INC(decr_hits); else INC(decr_misses); }
                    if (f) { CK("C10", r == w, "returned " << r << " expected " << w); auto ev0 = evicted; M y{std::to_string(w), old.flags, old.dead, 0, nullptr}; m.erase(k); after_alloc(0); auto g = c.m_dict.get(sl(k), hash(k)); CK("C10", std::get<0>(g), "counter lost"); y.ver = std::get<1>(g)->timestamp(); y.addr = std::get<1>(g); CK("C09", y.ver > lastver, "version " << y.ver << " after " << lastver); lastver = y.ver; stored(k, y);
                        auto i = std::get<1>(g); CK("C10", i->key().str() == k && i->value().str() == y.val && i->opaque_flags() == y.flags, "counter item: value " << esc(i->value().str()) << " expected " << y.val << " flags " << i->opaque_flags() << " expected " << y.flags);
                        CK("C10", (y.dead == INF) == (i->expiration_time() == Item::expiration_time_point::max()), "expiration of the counter changed"); }
                } catch (const system_error & e) { h.log << "  error: " << e.what() << "\n"; CK("C10", was, "error for missing key"); if (num) CK("C10", !ev && e.code() == error::make_error_code(error::out_of_memory), "incr/decr of a number failed"); CK("C10", m.size() == n0, "failed incr/decr changed the cache"); want.cache.incr_hits = STAT_GET(cache, incr_hits); want.cache.decr_hits = STAT_GET(cache, decr_hits); }
                break; }
            }
            if (!bad.empty() || !evicted.empty()) after_alloc(0);
        }
    }
    void verify() {
#define SAME(f) CK("C19", STAT_GET(cache, f) == want.cache.f, #f " is " << STAT_GET(cache, f) << " expected " << want.cache.f)
        SAME(cmd_get); SAME(get_hits); SAME(get_misses); SAME(cmd_set); SAME(set_new); SAME(set_existing); SAME(cmd_add); SAME(add_stored); SAME(add_not_stored); SAME(cmd_replace); SAME(replace_stored); SAME(replace_not_stored); SAME(cmd_cas); SAME(cas_misses); SAME(cas_stored); SAME(cas_badval); SAME(cmd_delete); SAME(delete_hits); SAME(delete_misses); SAME(cmd_touch); SAME(touch_hits); SAME(touch_misses); SAME(cmd_incr); SAME(incr_hits); SAME(incr_misses); SAME(cmd_decr); SAME(decr_hits); SAME(decr_misses); SAME(cmd_append); SAME(append_stored); SAME(append_misses); SAME(cmd_prepend); SAME(prepend_stored); SAME(prepend_misses); SAME(cmd_flush);
        c.publish_stats(); CK("C19", STAT_GET(cache, curr_items) == m.size(), "curr_items " << STAT_GET(cache, curr_items) << " stored " << m.size()); CK("C19", STAT_GET(mem, evictions) == STAT_EV, "evictions " << STAT_GET(mem, evictions) << " reported " << STAT_EV);
        CK(ctx, c.m_dict.size() == m.size(), "index holds " << c.m_dict.size() << " entries, expected " << m.size());
        uint64 used = 0; std::set<const void *> addrs;
        for (auto & x : m) { auto g = c.m_dict.get(sl(x.first), hash(x.first)); 
            CK(ctx, std::get<0>(g), "item " << esc(x.first) << " lost"); auto i = std::get<1>(g); CK("C02", addrs.insert(i).second, "two keys share an item");
            CK("C02", i->key().str() == x.first, "key of item changed"); CK(ctx, i->value().str() == x.second.val, "value of " << esc(x.first) << " is " << esc(i->value().str()) << " expected " << esc(x.second.val)); CK(ctx, i->opaque_flags() == x.second.flags, "flags of " << esc(x.first)); CK("C09", i->timestamp() == x.second.ver, "version of " << esc(x.first) << " is " << i->timestamp() << " expected " << x.second.ver);
            bool expired = x.second.dead != INF && x.second.dead <= fake_now; CK("C08", i->is_expired() == expired, "item " << esc(x.first) << " with deadline " << x.second.dead << " is_expired " << i->is_expired() << " at " << fake_now);
            CK("C08 " + ctx, x.second.dead == INF ? i->expiration_time() == Item::expiration_time_point::max() : i->expiration_time().time_since_epoch().count() == (int64_t)x.second.dead, "deadline of " << esc(x.first) << " is " << i->expiration_time().time_since_epoch().count() << " expected " << x.second.dead);
            x.second.addr = i; used += c.m_allocator.reveal_actual_size(i); }
        CK("C02", STAT_GET(mem, num_malloc) - STAT_GET(mem, num_alloc_errors) - STAT_GET(mem, num_free) - STAT_GET(mem, evictions) == m.size(), "allocations " << STAT_GET(mem, num_malloc) << " releases " << STAT_GET(mem, num_free) << " evictions " << STAT_GET(mem, evictions) << " items " << m.size());
        CK("C02", STAT_GET(mem, used_memory) == used, "used memory " << STAT_GET(mem, used_memory) << " items " << used);
    }
};
int main(int c, char ** v) { H h(c, v);
    while (h.more()) { try { ResetStats(); __stats__ = stats(); fake_now = h.r(6) ? 1000 : 0xffffffffull - 200; 
        size_t ps = 256u << h.r(5), np = 4u << h.r(3), d = 1u << h.r(6); bool ev = h.r(4) != 0; h.log.str(""); h.log << "page " << ps << " pages " << np << " dict " << d << " evictions " << ev << "\n";
        Run r(h, ps, np, d, ev); r.nk = h.r(3) ? 4 + h.r(40) : 200 + h.r(700); h.log << "hash mode " << r.hmode << "\n"; unsigned n = r.nk > 100 ? 1500 : 250; bool quiet = h.r(2);
        for (unsigned i = 0; i < n; ++i) { r.op(); if (r.nk < 100 || i % 50 == 0) r.verify(); }
        r.verify();
    } catch (Abandon &) {} }
    return h.done(); }
