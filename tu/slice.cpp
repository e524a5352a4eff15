// odr-uses the real inline functions of /repo so that clang emits their code; contains no logic of its own
#include <cachelot/common.h>
#include <cachelot/slice.h>
using namespace cachelot;
template <class T, T V> struct user { static T get() { return V; } };
#define U(T,f) template struct user<T,f>;
U(bool (slice::*)(const slice &) const noexcept, &slice::operator==)
U(bool (slice::*)(const slice &) const noexcept, &slice::operator!=)
U(slice (slice::*)(const slice) const noexcept, &slice::search)
U(bool (slice::*)(const slice) const noexcept, &slice::contains)
U(bool (slice::*)(const char *) const noexcept, &slice::contains)
U(bool (slice::*)(const slice) const noexcept, &slice::startswith)
U(bool (slice::*)(const slice) const noexcept, &slice::endswith)
U(slice (slice::*)(size_t, size_t) const noexcept, &slice::subslice)
U(slice (slice::*)(const size_t) const noexcept, &slice::rtrim_n)
typedef tuple<slice, slice> slice2;
U(slice2 (slice::*)(const slice) const noexcept, &slice::split)
U(slice2 (slice::*)(const char) const noexcept, &slice::split)
U(slice2 (slice::*)(const char *) const noexcept, &slice::split_at)
U(slice2 (slice::*)(const size_t) const noexcept, &slice::split_at)
U(size_t (slice::*)() const noexcept, &slice::length)
U(bool (slice::*)() const noexcept, &slice::empty)
U(char (slice::*)(size_t) const noexcept, &slice::operator[])
slice use_slice_ctor(const char * b, size_t n) { return slice(b, n); }
slice use_slice_ctor(const char * b, const char * e) { return slice(b, e); }
