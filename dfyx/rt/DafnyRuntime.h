// Runtime for code generated by dfyx: same names the repository's C++ framework
// expects from the (unavailable) Dafny fork's DafnyRuntime.h, with every partial
// operation checked and reported through dfy_trap.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <optional>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <tuple>
#include <limits>
#include <initializer_list>
#include <type_traits>
#include <cassert>
#if defined(__x86_64__)
#include <immintrin.h>
#endif

typedef uint8_t uint8;
typedef uint16_t uint16;
typedef uint32_t uint32;
typedef uint64_t uint64;
typedef int8_t int8;
typedef int16_t int16;
typedef int32_t int32;
typedef int64_t int64;
typedef __int128 dfy_int;

extern void (*dfy_trap_hook)(const char* kind, const char* loc);
[[noreturn]] void dfy_trap(const char* kind, const char* loc);
extern uint64_t dfy_ticks, dfy_tick_limit;
inline void dfy_tick(const char* loc) { if (++dfy_ticks > dfy_tick_limit) dfy_trap("loop-bound", loc); }

// execution counts of the translated callables
extern uint64_t dfy_cov[8192];
#ifdef DFY_NOCOV
#define DFY_COV(i) (void)0
#else
#define DFY_COV(i) (void)++dfy_cov[i]
#endif

#ifndef __GLIBCXX_TYPE_INT_N_0
template <> struct std::hash<__int128> { size_t operator()(__int128 x) const { return (size_t)x ^ (size_t)(x >> 64) * 1000003; } };
#endif

template <typename T> struct get_default { static T call() { return T(); } };
template <typename T> inline void hash_combine(std::size_t& seed, const T& v) {
  seed ^= std::hash<T>()(v) + 0x9e3779b97f4a7c15ULL + (seed << 6) + (seed >> 2);
}
template <typename T> inline void dfy_hash_combine(std::size_t& seed, const T& v) { hash_combine<T>(seed, v); }

struct Tuple0 {};
inline bool operator==(const Tuple0&, const Tuple0&) { return true; }
inline bool operator!=(const Tuple0&, const Tuple0&) { return false; }
template <> struct std::hash<Tuple0> { size_t operator()(const Tuple0&) const { return 0; } };

template <typename... Ts> struct Tuple {
  std::tuple<Ts...> t;
  Tuple() {}
  Tuple(Ts... ts) : t(std::move(ts)...) {}
  template <size_t i> auto& get() { return std::get<i>(t); }
  template <size_t i> const auto& get() const { return std::get<i>(t); }
};
template <typename... Ts> bool operator==(const Tuple<Ts...>& a, const Tuple<Ts...>& b) { return a.t == b.t; }
template <typename... Ts> bool operator!=(const Tuple<Ts...>& a, const Tuple<Ts...>& b) { return !(a.t == b.t); }
template <typename... Ts> struct std::hash<Tuple<Ts...>> {
  size_t operator()(const Tuple<Ts...>& x) const {
    size_t s = 0;
    std::apply([&](const auto&... e) { (dfy_hash_combine(s, e), ...); }, x.t);
    return s;
  }
};

namespace dfy {
// recursive datatype fields
template <typename T> struct Box {
  std::shared_ptr<T> p;
  Box() {}
  Box(T v) : p(std::make_shared<T>(std::move(v))) {}
  Box& operator=(T v) { p = std::make_shared<T>(std::move(v)); return *this; }
  const T& get() const { if (!p) dfy_trap("uninitialised", "Box"); return *p; }
  T& get() { if (!p) p = std::make_shared<T>(); else if (p.use_count() > 1) p = std::make_shared<T>(*p); return *p; }
};
template <typename T> bool operator==(const Box<T>& a, const Box<T>& b) { return a.p == b.p || a.get() == b.get(); }
}

template <typename T> struct DafnySequence {
  std::shared_ptr<T> sptr;
  T* start = nullptr;
  size_t len = 0;
  DafnySequence() {}
  explicit DafnySequence(uint64 n) : sptr(new T[n](), std::default_delete<T[]>()), start(sptr.get()), len(n) {}
  explicit DafnySequence(const std::vector<T>& v) : DafnySequence((uint64)v.size()) { std::copy(v.begin(), v.end(), start); }
  static DafnySequence of(std::initializer_list<T> l) { DafnySequence r((uint64)l.size()); std::copy(l.begin(), l.end(), r.start); return r; }
  T* ptr() const { static typename std::aligned_storage<sizeof(T), alignof(T) < 16 ? 16 : alignof(T)>::type dummy; return start ? start : (T*)&dummy; }
  uint64 size() const { return len; }
  T& select(uint64 i) const { if (i >= len) dfy_trap("seq-index", "select"); return start[i]; }
  const T& select_(dfy_int i, const char* loc) const { if (i < 0 || i >= (dfy_int)len) dfy_trap("seq-index", loc); return start[(size_t)i]; }
  bool equals(const DafnySequence& o) const {
    if (len != o.len) return false;
    if (start == o.start) return true;
    for (size_t i = 0; i < len; i++) if (!(start[i] == o.start[i])) return false;
    return true;
  }
};
template <typename T> bool operator==(const DafnySequence<T>& a, const DafnySequence<T>& b) { return a.equals(b); }
template <typename T> bool operator!=(const DafnySequence<T>& a, const DafnySequence<T>& b) { return !a.equals(b); }
template <typename T> struct std::hash<DafnySequence<T>> {
  size_t operator()(const DafnySequence<T>& x) const {
    size_t s = x.len;
    for (size_t i = 0; i < x.len; i++) dfy_hash_combine(s, x.start[i]);
    return s;
  }
};
inline DafnySequence<char> DafnySequenceFromString(const std::string& s) {
  DafnySequence<char> r((uint64)s.size());
  std::copy(s.begin(), s.end(), r.start);
  return r;
}

template <typename T> struct DafnyArray {
  std::shared_ptr<T> sptr;
  size_t len = 0;
  DafnyArray() {}
  DafnyArray(std::nullptr_t) {}
  explicit DafnyArray(dfy_int n) { if (n < 0) dfy_trap("array-size", ""); sptr = std::shared_ptr<T>(new T[(size_t)n](), std::default_delete<T[]>()); len = (size_t)n; }
  T& at(uint64 i) const { if (i > len) dfy_trap("array-index", "at"); return sptr.get()[i]; }
  T& at_(dfy_int i, const char* loc) const { if (!sptr) dfy_trap("null-array", loc); if (i < 0 || i >= (dfy_int)len) dfy_trap("array-index", loc); return sptr.get()[(size_t)i]; }
  uint64 size() const { return len; }
  T* begin() const { return sptr.get(); }
  T* end() const { return sptr.get() + len; }
  T* ptr() const { return sptr.get(); }
  bool operator==(const DafnyArray& o) const { return sptr == o.sptr; }
  bool operator!=(const DafnyArray& o) const { return sptr != o.sptr; }
};
template <typename T> struct std::hash<DafnyArray<T>> { size_t operator()(const DafnyArray<T>& a) const { return std::hash<std::shared_ptr<T>>()(a.sptr); } };

template <typename T> struct DafnySet {
  std::unordered_set<T> set;
  uint64 size() const { return set.size(); }
};
template <typename T> bool operator==(const DafnySet<T>& a, const DafnySet<T>& b) { return a.set == b.set; }
template <typename T> bool operator!=(const DafnySet<T>& a, const DafnySet<T>& b) { return !(a.set == b.set); }
template <typename T> struct std::hash<DafnySet<T>> { size_t operator()(const DafnySet<T>& x) const { size_t s = 0; for (auto& e : x.set) s += std::hash<T>()(e) * 0x9e3779b97f4a7c15ULL; return s; } };

template <typename K, typename W> struct DafnyMap {
  std::unordered_map<K, W> map;
  uint64 size() const { return map.size(); }
};
template <typename K, typename W> bool operator==(const DafnyMap<K, W>& a, const DafnyMap<K, W>& b) {
  if (a.map.size() != b.map.size()) return false;
  for (auto& e : a.map) { auto i = b.map.find(e.first); if (i == b.map.end() || !(i->second == e.second)) return false; }
  return true;
}
template <typename K, typename W> bool operator!=(const DafnyMap<K, W>& a, const DafnyMap<K, W>& b) { return !(a == b); }
template <typename K, typename W> struct std::hash<DafnyMap<K, W>> { size_t operator()(const DafnyMap<K, W>& x) const { size_t s = 0; for (auto& e : x.map) s += std::hash<K>()(e.first); return s; } };

// --- arithmetic
template <typename T> struct dfy_lim {
  static constexpr dfy_int lo = std::is_same<T, dfy_int>::value ? (dfy_int)((unsigned __int128)1 << 127) : (dfy_int)std::numeric_limits<T>::min();
  static constexpr dfy_int hi = std::is_same<T, dfy_int>::value ? (dfy_int)(((unsigned __int128)1 << 127) - 1) : (dfy_int)std::numeric_limits<T>::max();
};
template <typename T> inline T dfy_fit(dfy_int r, const char* loc) {
  if constexpr (!std::is_same<T, dfy_int>::value) if (r < dfy_lim<T>::lo || r > dfy_lim<T>::hi) dfy_trap("overflow", loc);
  return (T)r;
}
template <typename T, typename A, typename B> inline T dfy_add(A a, B b, const char* loc) { T r; if (__builtin_add_overflow(a, b, &r)) dfy_trap("overflow", loc); return r; }
template <typename T, typename A, typename B> inline T dfy_sub(A a, B b, const char* loc) { T r; if (__builtin_sub_overflow(a, b, &r)) dfy_trap("overflow", loc); return r; }
template <typename T> inline T dfy_mul(dfy_int a, dfy_int b, const char* loc) {
  if constexpr (std::is_same<T, dfy_int>::value) {
    // avoids __muloti4
    unsigned __int128 x = a < 0 ? -(unsigned __int128)a : a, y = b < 0 ? -(unsigned __int128)b : b;
    if (x && y > (((unsigned __int128)1 << 127) - 1) / x) dfy_trap("overflow", loc);
    return a * b;
  } else {
    // operands have at most 64 bits
    unsigned __int128 x = a < 0 ? -(unsigned __int128)a : a, y = b < 0 ? -(unsigned __int128)b : b;
    unsigned __int128 m = x * y;
    bool neg = (a < 0) != (b < 0) && m;
    if (m >> 65) dfy_trap("overflow", loc);
    return dfy_fit<T>(neg ? -(dfy_int)m : (dfy_int)m, loc);
  }
}
template <typename T> inline T dfy_div(dfy_int a, dfy_int b, const char* loc) {
  if (b == 0) dfy_trap("division", loc);
  dfy_int q = a / b, r = a % b;
  if (r < 0) q += b > 0 ? -1 : 1;
  return dfy_fit<T>(q, loc);
}
template <typename T> inline T dfy_mod(dfy_int a, dfy_int b, const char* loc) {
  if (b == 0) dfy_trap("division", loc);
  dfy_int r = a % b;
  if (r < 0) r += b > 0 ? b : -b;
  return dfy_fit<T>(r, loc);
}
template <typename T> inline T dfy_shl(T a, dfy_int n) { return n >= (dfy_int)sizeof(T) * 8 ? 0 : (T)(a << (int)n); }
template <typename T> inline T dfy_shr(T a, dfy_int n) { return n >= (dfy_int)sizeof(T) * 8 ? 0 : (T)(a >> (int)n); }
template <typename T, typename A> inline T dfy_conv(const A& a, const char* loc) { return dfy_fit<T>((dfy_int)a, loc); }
template <typename A> inline dfy_int dfy_idx(A a) { return (dfy_int)a; }
template <typename T> inline T* dfy_nn(const std::shared_ptr<T>& p) { if (!p) dfy_trap("null", "dereference"); return p.get(); }

// --- sequences
template <typename T> DafnySequence<T> dfy_slice(const DafnySequence<T>& s, dfy_int lo, bool has, dfy_int hi, const char* loc) {
  if (!has) hi = (dfy_int)s.len;
  if (lo < 0 || lo > hi || hi > (dfy_int)s.len) dfy_trap("slice", loc);
  DafnySequence<T> r(s);
  if (r.start) r.start += (size_t)lo;
  r.len = (size_t)(hi - lo);
  return r;
}
template <typename T> DafnySequence<T> dfy_slice(const DafnyArray<T>& s, dfy_int lo, bool has, dfy_int hi, const char* loc) {
  if (!s.sptr) dfy_trap("null-array", loc);
  if (!has) hi = (dfy_int)s.len;
  if (lo < 0 || lo > hi || hi > (dfy_int)s.len) dfy_trap("slice", loc);
  DafnySequence<T> r((uint64)(hi - lo));
  std::copy(s.sptr.get() + (size_t)lo, s.sptr.get() + (size_t)hi, r.start);
  return r;
}
template <typename T> DafnySequence<T> dfy_slice(const std::vector<T>* v, dfy_int lo, bool has, dfy_int hi, const char* loc) {
  if (!has) hi = (dfy_int)v->size();
  if (lo < 0 || lo > hi || hi > (dfy_int)v->size()) dfy_trap("slice", loc);
  DafnySequence<T> r((uint64)(hi - lo));
  std::copy(v->begin() + (size_t)lo, v->begin() + (size_t)hi, r.start);
  return r;
}
template <typename T> DafnySequence<T> dfy_concat(const DafnySequence<T>& a, const DafnySequence<T>& b) {
  if (a.len == 0) return b;
  if (b.len == 0) return a;
  DafnySequence<T> r((uint64)(a.len + b.len));
  std::copy(a.start, a.start + a.len, r.start);
  std::copy(b.start, b.start + b.len, r.start + a.len);
  return r;
}
template <typename T> DafnySequence<T> dfy_seq_put(const DafnySequence<T>& a, dfy_int i, const T& v, const char* loc) {
  if (i < 0 || i >= (dfy_int)a.len) dfy_trap("seq-index", loc);
  DafnySequence<T> r((uint64)a.len);
  std::copy(a.start, a.start + a.len, r.start);
  r.start[(size_t)i] = v;
  return r;
}
template <typename T> bool dfy_prefix(const DafnySequence<T>& a, const DafnySequence<T>& b, bool strict) {
  if (a.len > b.len || (strict && a.len == b.len)) return false;
  for (size_t i = 0; i < a.len; i++) if (!(a.start[i] == b.start[i])) return false;
  return true;
}
template <typename T, typename F> DafnySequence<T> dfy_seq_comp(dfy_int n, F f) {
  if (n < 0) dfy_trap("seq-size", "");
  DafnySequence<T> r((uint64)n);
  for (size_t i = 0; i < (size_t)n; i++) r.start[i] = f((dfy_int)i);
  return r;
}
template <typename T, typename F> DafnyArray<T> dfy_new_array(dfy_int n, F f) {
  DafnyArray<T> r(n);
  for (size_t i = 0; i < (size_t)n; i++) r.at(i) = f((dfy_int)i);
  return r;
}

// --- sets, maps
template <typename T> DafnySet<T> dfy_set_of(std::initializer_list<T> l) { DafnySet<T> r; for (auto& x : l) r.set.insert(x); return r; }
template <typename T> DafnySet<T> dfy_set_add(const DafnySet<T>& a, const DafnySet<T>& b) { DafnySet<T> r(a); for (auto& x : b.set) r.set.insert(x); return r; }
template <typename T> DafnySet<T> dfy_set_sub(const DafnySet<T>& a, const DafnySet<T>& b) { DafnySet<T> r(a); for (auto& x : b.set) r.set.erase(x); return r; }
template <typename T> DafnySet<T> dfy_set_mul(const DafnySet<T>& a, const DafnySet<T>& b) { DafnySet<T> r; for (auto& x : a.set) if (b.set.count(x)) r.set.insert(x); return r; }
template <typename T> bool dfy_subset(const DafnySet<T>& a, const DafnySet<T>& b) { for (auto& x : a.set) if (!b.set.count(x)) return false; return true; }
template <typename T> bool dfy_psubset(const DafnySet<T>& a, const DafnySet<T>& b) { return a.size() < b.size() && dfy_subset(a, b); }
template <typename T> bool dfy_disjoint(const DafnySet<T>& a, const DafnySet<T>& b) { for (auto& x : a.set) if (b.set.count(x)) return false; return true; }
template <typename T> bool dfy_contains(const DafnySet<T>& a, const T& x) { return a.set.count(x) != 0; }
template <typename K, typename W> bool dfy_contains(const DafnyMap<K, W>& a, const K& x) { return a.map.count(x) != 0; }
template <typename T> bool dfy_contains(const DafnySequence<T>& a, const T& x) { for (size_t i = 0; i < a.len; i++) if (a.start[i] == x) return true; return false; }
template <typename K, typename W> DafnyMap<K, W> dfy_map_of(std::initializer_list<std::pair<K, W>> l) { DafnyMap<K, W> r; for (auto& x : l) r.map.insert_or_assign(x.first, x.second); return r; }
template <typename K, typename W> DafnyMap<K, W> dfy_map_put(const DafnyMap<K, W>& m, const K& k, const W& v) { DafnyMap<K, W> r(m); r.map.insert_or_assign(k, v); return r; }
template <typename K, typename W> const W& dfy_map_get(const DafnyMap<K, W>& m, const K& k, const char* loc) { auto i = m.map.find(k); if (i == m.map.end()) dfy_trap("map-key", loc); return i->second; }
template <typename K, typename W> DafnyMap<K, W> dfy_map_add(const DafnyMap<K, W>& a, const DafnyMap<K, W>& b) { DafnyMap<K, W> r(a); for (auto& x : b.map) r.map.insert_or_assign(x.first, x.second); return r; }
template <typename K, typename W> DafnyMap<K, W> dfy_map_sub(const DafnyMap<K, W>& a, const DafnySet<K>& b) { DafnyMap<K, W> r(a); for (auto& x : b.set) r.map.erase(x); return r; }
template <typename K, typename W> DafnySet<K> dfy_map_keys(const DafnyMap<K, W>& a) { DafnySet<K> r; for (auto& x : a.map) r.set.insert(x.first); return r; }
template <typename K, typename W> DafnySet<W> dfy_map_values(const DafnyMap<K, W>& a) { DafnySet<W> r; for (auto& x : a.map) r.set.insert(x.second); return r; }

template <typename T> void dfy_print(const T&) {}
