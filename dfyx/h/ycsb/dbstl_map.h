#pragma once
#include "db_cxx.h"
namespace dbstl {
template <class K, class V> struct db_map {
  struct Ref { K k; Ref& operator=(const V& v) { sim_log('w', k, v, 0, true); if (sim_fail()) throw DbException(); return *this; } };
  struct It { int64_t n = 0, avail = 0; bool operator!=(const It& o) const { return n < avail; } It& operator++() { n++; trace.back().n = n; return *this; } };
  db_map(Db*, void*) {}
  V operator[](const K& k) const { sim_log('q', k, "", 0, true); if (sim_fail()) throw DbException(); return V(); }
  Ref operator[](const K& k) { return Ref{k}; }
  It begin() { It i; i.avail = sim_rand(3) ? 1000 : sim_rand(20); sim_log('s', "", std::to_string(i.avail), 0, true); return i; }
  It lower_bound(const K& k) { It i = begin(); trace.back().a = k; return i; }
  It end() { return It(); }
};
}
