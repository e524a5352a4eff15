// odr-uses the real inline functions of /repo so that clang emits their code; contains no logic of its own
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/hash_fnv1a.h>
#include <cachelot/cache.h>
using namespace cachelot;
template <class T, T V> struct user { static T get() { return V; } };
#define U(T,f) template struct user<T,f>;
U(cachelot::cache::HashFunction::hash_type (cachelot::cache::HashFunction::*)(const slice) const noexcept, &cachelot::cache::HashFunction::operator())
