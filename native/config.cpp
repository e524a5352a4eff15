// C20: Cache::Create accepts exactly the workable configurations
#include "h.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
using namespace cachelot; using namespace cachelot::cache;
static bool p2(uint64_t x) { return x && !(x & (x - 1)); }
int main(int c, char ** v) { H h(c, v);
    while (h.more()) { auto val = [&](int lo, int hi) -> uint64_t { switch (h.r(7)) { case 0: return h.bits(); case 1: return (1ull << h.r(64)) + h.r(3) - 1; case 2: return 0; default: return 1ull << (lo + h.r(hi - lo)); } };
        uint64_t mem = val(8, 24), page = val(7, 18), dict = val(0, 14); bool ev = h.r(2); bool want = p2(mem) && p2(page) && p2(dict) && page >= 256 && page <= 0xffffffffull && (unsigned __int128)page * 4 <= mem && dict <= 0xffffffffull;
        h.log.str(""); h.log << "memory " << mem << " page " << page << " dict " << dict << "\n"; if (want && (mem > (1ull << 26) || dict > (1u << 20))) { continue; }
        bool threw = false; try { Cache x = Cache::Create(mem, page, dict, ev);
            CHECK(want, "unworkable configuration accepted"); CHECK(x.m_allocator.page_size == page && x.m_allocator.arena_size == mem && x.m_dict.capacity() == dict && x.m_evictions_enabled == ev, "configuration changed");
            // the accepted cache works at its limits
            for (int i = 0; i < 12; ++i) { std::string k = "key" + std::to_string(i); size_t n = h.r(3) ? h.r(100) : page - memalloc::header_size() - Item::CalcSizeRequired(slice(k.data(), k.size()), 0); uint32 hs = HashFunction()(slice(k.data(), k.size())); std::string s(n, 'a' + i); try { auto it = x.create_item(slice(k.data(), k.size()), hs, n, i, Item::infinite_TTL); it->assign_value(slice(s.data(), n)); x.do_set(it); auto g = x.do_get(slice(k.data(), k.size()), hs); CHECK(g && g->value().str() == s, "item lost"); } catch (const system_error & e) { CHECK(!ev || Item::CalcSizeRequired(slice(k.data(), k.size()), n) > page - 8, "refused: " << e.what()); } }
        } catch (const std::invalid_argument & e) { threw = true; CHECK(!want, "workable configuration refused: " << e.what()); }
        catch (const std::bad_alloc &) { CHECK(want, "unworkable configuration not refused as such (allocation attempted)"); }
        catch (const std::exception & e) { CHECK(false, "unexpected exception " << e.what()); }
    }
    return h.done(); }
