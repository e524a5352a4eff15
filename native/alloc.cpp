// C04 C05 C06 C07 C19: the allocator against a model.  -DBLACKBOX: only the public interface (and the arena address) is used
#include "h.h"
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
using namespace cachelot;
struct B { size_t req; size_t act; uint64 seed; };
static unsigned cls(uint32 s) { if (s < 256) return s / 8; unsigned p = 31 - __builtin_clz(s); return (p - 8 + 1) * 32 + ((s >> (p - 5)) - 32); }
struct Run {
    H & h; size_t ps, np; memalloc ma; uint8 * base; std::map<uint8 *, B> live; std::deque<size_t> order; // front = most favoured
    uint64 nm = 0, nf = 0, nr = 0, ne = 0, nae = 0, nre = 0, treq = 0, tserv = 0, tunserv = 0; size_t hs; bool lru_ok = true;
    Run(H & h, size_t ps, size_t np) : h(h), ps(ps), np(np), ma(ps * np, ps), hs(memalloc::header_size()) { base = (uint8 *)ma.m_arena.get(); for (size_t i = 0; i < np; ++i) order.push_front(i); }
    size_t page(const void * p) { return ((uint8 *)p - base) / ps; }
    void fill(uint8 * p, B & b) { b.seed = h.rng(); for (size_t i = 0; i < b.act - hs; ++i) p[i] = (uint8)(b.seed + i * 7); }
    void step(size_t pg) { for (size_t i = 1; i < order.size(); ++i) if (order[i] == pg) { std::swap(order[i], order[i-1]); break; } }
    void check_live(uint8 * except = nullptr) {
        uint8 * end = nullptr; uint64 used = 0;
        for (auto & x : live) {
            CK("C04", x.first >= base + hs && x.first + x.second.act - hs <= base + ps * np, "block outside of the memory");
            CK("C04", page(x.first - hs) == page(x.first + x.second.act - hs - 1), "block crosses a page");
            CK("C04", (size_t)x.first % sizeof(void *) == 0, "alignment");
            CK("C04", x.second.act - hs >= x.second.req, "smaller than requested");
            CK("C04", ma.reveal_actual_size(x.first) == x.second.act, "live block changed size from " << x.second.act << " to " << ma.reveal_actual_size(x.first));
            CK("C04", end == nullptr || x.first - hs >= end, "blocks overlap"); end = x.first + x.second.act - hs; used += x.second.act;
            if (x.first != except) for (size_t i = 0; i < x.second.act - hs; ++i) CK("C04", x.first[i] == (uint8)(x.second.seed + i * 7), "byte " << i << " of a live block was changed");
        }
        CK("C05", STAT_GET(mem, used_memory) == used, "used_memory " << STAT_GET(mem, used_memory) << " live " << used);
        CK("C19", STAT_GET(mem, used_memory) == used, "used_memory " << STAT_GET(mem, used_memory) << " live " << used);
        CK("C19", STAT_GET(mem, num_malloc) == nm && STAT_GET(mem, num_free) == nf && STAT_GET(mem, num_realloc) == nr && STAT_GET(mem, evictions) == ne && STAT_GET(mem, num_alloc_errors) == nae && STAT_GET(mem, num_realloc_errors) == nre, "counters: malloc " << STAT_GET(mem, num_malloc) << "/" << nm << " free " << STAT_GET(mem, num_free) << "/" << nf << " realloc " << STAT_GET(mem, num_realloc) << "/" << nr << " evictions " << STAT_GET(mem, evictions) << "/" << ne << " errors " << STAT_GET(mem, num_alloc_errors) << "/" << nae << " " << STAT_GET(mem, num_realloc_errors) << "/" << nre);
        CK("C19", STAT_GET(mem, total_requested) == treq && STAT_GET(mem, total_served) == tserv && STAT_GET(mem, total_unserved) == tunserv, "totals");
    }
    uint32 biggest = 0; bool whole_page = false; // biggest class with a free block
    void walk() {
        std::vector<char> has(np, 0); for (auto & x : live) has[page(x.first)] = 1;
        whole_page = false; for (size_t i = 0; i < np; ++i) if (!has[i]) whole_page = true;
        biggest = whole_page ? ps - hs : 0;
#ifndef BLACKBOX
        biggest = 0; std::set<memalloc::block *> fr; uint8 * p = base; bool any = false;
        for (size_t pg = 0; pg < np; ++pg) {
            p = base + pg * ps; uint8 * e = p + ps; 
            while (p < e) { auto b = (memalloc::block *)p; CK("C05", b->size_with_header() >= 64 && p + b->size_with_header() <= e, "blocks do not tile page " << pg << " offset " << (p - base) << " size " << b->size());
                if (b->is_free()) { fr.insert(b); biggest = std::max(biggest, b->size()); any = true; } else CK("C05", live.count(p + hs), "used block which is not live at " << (p - base));
                p += b->size_with_header(); }
        }
        size_t nused = 0; std::set<memalloc::block *> listed; auto & t = *ma.m_free_blocks;
        for (size_t c = 0; c < t.size_classes_table.size(); ++c) { auto & l = t.size_classes_table[c]; auto n = l.dummy_link.next; auto pv = &l.dummy_link; size_t guard = 0;
            while (n != &l.dummy_link) { CK("C05", n->prev == pv && ++guard < 1000000, "free list broken"); auto b = (memalloc::block *)((uint8 *)n - hs); CK("C05", fr.count(b) && listed.insert(b).second, "listed block is not a free block"); CK("C05", cls(b->size()) == c, "free block of size " << b->size() << " in class " << c);
                CK("C05", (t.first_level_bit_index >> (c / 32) & 1) && (t.second_level_bit_index[c / 32] >> (c % 32) & 1), "free block not in the index"); pv = n; n = n->next; }
            CK("C05", l.dummy_link.prev == pv, "free list broken"); }
        CK("C05", listed.size() == fr.size(), fr.size() - listed.size() << " free blocks are not findable");
        std::set<size_t> seen; auto & lp = ma.m_pages->lru_pages; std::deque<size_t> o; auto pi0 = &ma.m_pages->all_pages[0];
        for (auto n = lp.dummy_link.next; n != &lp.dummy_link; n = n->next) { size_t k = (memalloc::pages::page_info *)((uint8 *)n - offsetof(memalloc::pages::page_info, lru_link)) - pi0; CK("C07", k < np && seen.insert(k).second, "page order is not a list of the pages"); CK("C07", n->next->prev == n && n->prev->next == n, "page links"); o.push_back(k); }
        CK("C07", o == order, "order of pages differs from the expected one");
#endif
    }
    void alloc(size_t sz, bool evict) {
        h.log << "alloc " << sz << (evict ? " evict" : "") << "\n";
        std::vector<uint8 *> ev; ++nm; treq += sz; uint32 big0 = biggest; bool wp = whole_page;
        auto p = (uint8 *)ma.alloc_or_evict(sz, evict, [&](void * q) { ev.push_back((uint8 *)q); auto i = live.find((uint8 *)q); CK("C06", i != live.end(), "evicted block is not live"); for (size_t k = 0; k < i->second.act - hs; ++k) CK("C06", i->first[k] == (uint8)(i->second.seed + k * 7), "evicted block changed before it is reported"); });
        bool must = cls(big0) > cls(sz);
        if (!evict) CK("C06", ev.empty(), "eviction without permission");
        if (must) { CK("C06", ev.empty(), "needless eviction"); CK("C05", p, "request of " << sz << " refused with a free block of " << big0); }
        if (evict) CK("C05", p, "no memory with evictions enabled");
        ne += ev.size();
        if (!p) { ++nae; tunserv += sz; h.log << " -> none\n"; return; }
        bool evicted = !ev.empty(); size_t victim = order.back();
        if (evicted) { std::set<uint8 *> want; for (auto & x : live) if (page(x.first) == page(ev[0])) want.insert(x.first);
            CK("C06", std::set<uint8 *>(ev.begin(), ev.end()) == want && ev.size() == want.size(), "evicted " << ev.size() << " blocks, the page has " << want.size());
            CK("C07", page(ev[0]) == victim, "evicted page " << page(ev[0]) << " expected " << victim);
            CK("C06", page(p) == page(ev[0]), "evicted one page and used another");
            for (auto q : ev) live.erase(q); order.pop_back(); order.push_front(victim);
        } else {
            size_t pg = page(p); auto o1 = order; step(pg);
            if (evict && !must && pg == victim) { // a page without live blocks may have been recycled
                o1.pop_back(); o1.push_front(victim);
#ifdef BLACKBOX
                throw Abandon();
#else
                auto n = ma.m_pages->lru_pages.dummy_link.next; if ((memalloc::pages::page_info *)((uint8 *)n - offsetof(memalloc::pages::page_info, lru_link)) == &ma.m_pages->all_pages[victim]) order = o1;
#endif
            } }
        CK("C04", !live.count(p), "address of a live block returned");
        B b; b.req = sz; b.act = ma.reveal_actual_size(p); tserv += b.act;
        CK("C04", p >= base && p + b.act - hs <= base + ps * np && b.act - hs >= sz, "block outside or too small"); auto nx = live.lower_bound(p); CK("C04", nx == live.end() || p + b.act - hs <= nx->first - hs, "overlap"); if (nx != live.begin()) { --nx; CK("C04", nx->first + nx->second.act - hs <= p - hs, "overlap"); }
        fill(p, b); live[p] = b; h.log << " -> " << (p - base) << " (" << b.act << ") evicted " << ev.size() << "\n";
    }
    uint8 * any() { auto i = live.begin(); std::advance(i, h.r(live.size())); return i->first; }
    void free(uint8 * p) { h.log << "free " << (p - base) << "\n"; live.erase(p); ++nf; ma.free(p);
#ifndef BLACKBOX
        for (size_t pg = page(p), first = 1; first; first = 0) { uint8 * q = base + pg * ps, * e = q + ps; memalloc::block * prev = nullptr; while (q < e) { auto b = (memalloc::block *)q; if (b->size_with_header() < 16) break; if (p >= q && p < q + b->size_with_header()) { CK("C05", b->is_free(), "released block is not free"); CK("C05", !prev || !prev->is_free(), "not merged with the free left neighbour"); uint8 * r = q + b->size_with_header(); CK("C05", r >= e || !((memalloc::block *)r)->is_free(), "not merged with the free right neighbour"); } prev = b; q += b->size_with_header(); } }
#endif
    }
    void realloc(uint8 * p, size_t nsz) { B o = live[p]; h.log << "realloc " << (p - base) << " " << o.act - hs << " -> " << nsz << "\n"; ++nr;
        std::vector<uint8> was(p, p + o.act - hs); void * r = ma.realloc_inplace(p, nsz);
        if (!r) { ++nre; CK("C05", nsz > o.act - hs, "shrinking failed"); CK("C05", ma.reveal_actual_size(p) == o.act, "failed realloc changed the size"); CK("C04", !memcmp(p, was.data(), was.size()), "failed realloc changed the data"); h.log << " -> none\n"; return; }
        CK("C04", r == p, "moved"); size_t na = ma.reveal_actual_size(p); CK("C04", na - hs >= nsz, "too small after realloc"); size_t keep = std::min(o.act - hs, nsz); CK("C04", !memcmp(p, was.data(), keep), "realloc changed the data");
        auto nx = live.upper_bound(p); CK("C04", nx == live.end() || p + na - hs <= nx->first - hs, "grown over a live block"); CK("C04", page(p) == page(p + na - hs - 1), "grown over the page");
        B b; b.req = nsz; b.act = na; fill(p, b); live[p] = b; }
    void touch(uint8 * p) { h.log << "touch " << (p - base) << "\n"; ma.touch(p); step(page(p)); }
};
int main(int c, char ** v) { H h(c, v);
    while (h.more()) { try {
        __stats__ = stats(); size_t ps = 256u << h.r(h.r(3) ? 4 : 8), np = 4u << h.r(3); h.log.str(""); h.log << "page " << ps << " pages " << np << "\n";
        Run r(h, ps, np); size_t mx = ps - r.hs; int style = h.r(4); unsigned n = 60 + h.r(200); bool evict = h.r(3); size_t base_sz = 1 + h.r(mx);
        for (unsigned i = 0; i < n; ++i) {
            auto sz = [&]() -> size_t { switch (style) { case 0: return 1 + h.r(mx); case 1: return 1 + h.r(std::min<size_t>(mx, 200)); case 2: return h.r(8) ? 1 + h.r(120) : mx - h.r(std::min<size_t>(mx - 1, 70)); default: return std::min<size_t>(mx, std::max<size_t>(1, base_sz + h.r(20))); } };
            unsigned op = h.r(10);
            if (op < 5 || r.live.empty()) { if (r.live.size() < 1500) r.alloc(sz(), evict && h.r(4)); }
            else if (op < 7) r.free(r.any());
            else if (op == 7) { auto p = r.any(); size_t a = r.live[p].act - r.hs; size_t room = mx - ((p - r.hs - r.base) % ps); size_t ns = h.r(2) ? 1 + h.r(a) : std::min(mx, a + 1 + h.r(h.r(2) ? 200 : ps)); r.realloc(p, ns); }
            else r.touch(r.any());
            r.check_live(); r.walk();
        }
        h.log << "free all\n"; while (!r.live.empty()) { r.free(r.any()); if (!h.r(4)) { r.check_live(); r.walk(); } } r.check_live(); r.walk();
        for (size_t i = 0; i < np; ++i) r.alloc(mx, false); r.check_live(); r.walk(); r.alloc(1, false);
        CK("C04", r.live.size() == np, "more blocks than pages");
        CK("C05", r.live.size() == np, "memory lost");
    } catch (Abandon &) {} }
    return h.done(); }
