// odr-uses the real inline functions of /repo so that clang emits their code; contains no logic of its own
#include <cachelot/common.h>
#include <cachelot/cache.h>
using namespace cachelot;
using cachelot::cache::Cache; using cachelot::cache::ItemPtr; using cachelot::cache::seconds;
typedef cachelot::cache::Item Item;
void use_cache(Cache & c, slice key, uint32 h, ItemPtr i, uint64 d, seconds s) {
    c.do_get(key, h); c.do_set(i); c.do_add(i); c.do_replace(i); c.do_cas(i, d); c.do_append(i); c.do_prepend(i); c.do_delete(key, h);
    c.do_touch(key, h, s); c.do_flush_all(); c.do_incr(key, h, d); c.do_decr(key, h, d); c.create_item(key, h, d, d, s); c.destroy_item(i); c.publish_stats();
}
Cache use_create(size_t m, size_t p, size_t d, bool e) { return Cache::Create(m, p, d, e); }
void use_dict(Cache::dict_type & d, Cache::dict_type::hash_table_type & t, slice key, uint32 h, ItemPtr i, Cache::dict_type::iterator w) {
    d.get(key, h); d.contains(key, h); d.clear(); d.capacity(); d.empty(); d.is_expanding(); d.del(key, h); d.insert(w, key, h, i); d.remove(w); w.key(); w.value();
    t.get(key, h); t.contains(key, h); t.put(key, h, i); t.del(key, h);
}
