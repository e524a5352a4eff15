// odr-uses the real inline functions of /repo so that clang emits their code; contains no logic of its own
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/item.h>
using namespace cachelot;
template <class T, T V> struct user { static T get() { return V; } };
#define U(T,f) template struct user<T,f>;
typedef cachelot::cache::Item Item;
void use_item(void * p, slice key, uint32 hash, uint32 vlen, uint16 flags, cache::seconds ttl, uint64 ts) { new (p) Item(key, hash, vlen, flags, ttl, ts); }
U(slice (Item::*)() const noexcept, &Item::key)
U(slice (Item::*)() const noexcept, &Item::value)
U(Item::hash_type (Item::*)() const noexcept, &Item::hash)
U(void (Item::*)(slice) noexcept, &Item::assign_value)
U(void (Item::*)(slice, slice) noexcept, &Item::assign_compose)
U(Item::opaque_flags_type (Item::*)() const noexcept, &Item::opaque_flags)
U(Item::timestamp_type (Item::*)() const noexcept, &Item::timestamp)
U(Item::expiration_time_point (Item::*)() const noexcept, &Item::expiration_time)
U(void (Item::*)(Item::expiration_time_point) noexcept, &Item::set_expiration_time)
U(void (Item::*)(Item::opaque_flags_type) noexcept, &Item::set_opaque_flags)
U(cache::seconds (Item::*)() const noexcept, &Item::ttl)
U(void (Item::*)(cache::seconds) noexcept, &Item::set_ttl)
U(bool (Item::*)() const noexcept, &Item::is_expired)
U(size_t (*)(const slice, const size_t) noexcept, &Item::CalcSizeRequired)
