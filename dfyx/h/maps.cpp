// D01: the repository's hash maps against std::map. Modes: lin (LinearMutableMap), fix (its fixed-size table), con (LinearContentMutableMap), cls (MutableMapImpl).
#include "Bundle.i.h"
#include "hcommon.h"
using namespace std;
typedef map<uint64_t, uint64_t> Mdl;
typedef DrvL_Compile::__default L; typedef DrvC_Compile::__default C; typedef DrvM_Compile::__default M;
static uint64_t tsize; // slots, to aim keys at the ends and at each other
static vector<uint64_t> pool;
static void mkpool(uint64_t n) {
  pool.clear(); int kind = rng.below(4);
  while (pool.size() < n) {
    uint64_t k = rng.chance(1, 3) ? rng.below(64) : rng.chance(1, 12) ? ~rng.below(3) : rng.next();
    uint64_t s = L::Hash(k) % tsize;
    if (kind == 0 && s > 3 && s + 4 < tsize) { if (rng.chance(15, 16)) continue; }       // clusters over the end of the table
    if (kind == 1 && s % 16 > 1 && rng.chance(15, 16)) continue;                         // clusters
    pool.push_back(k);
  }
}
static uint64_t key() { return pool[rng.below(pool.size())]; }
static uint64_t val() { return rng.chance(1, 6) ? rng.below(3) : rng.next(); }
static string kv(uint64_t k) { return "key " + to_string(k) + " (slot " + to_string(L::Hash(k) % tsize) + ")"; }
template <class O> static void same(const O& o, const Mdl& m, uint64_t k, const char* what) {
  auto p = m.find(k); evaluations++; ev[what]++;
  if (o.is_Some() != (p != m.end())) bad(string(what) + " of " + kv(k) + (o.is_Some() ? " found a value although the key is absent" : " found nothing although the key is present"));
  if (o.is_Some() && o.dtor_value() != p->second) bad(string(what) + " of " + kv(k) + " gave " + to_string(o.dtor_value()) + " instead of " + to_string(p->second));
}
template <class F> static void iter(const Mdl& m, F next, const char* what) { // next(k, v) -> false at the end
  Mdl got; uint64_t k, v;
  while (next(k, v)) { evaluations++; if (!got.insert({k, v}).second) bad(string(what) + " visited " + kv(k) + " twice"); if (got.size() > m.size()) bad(string(what) + " visited more entries than there are, e.g. " + kv(k)); }
  ev[what]++;
  if (got != m) { for (auto& p : m) if (!got.count(p.first)) bad(string(what) + " missed " + kv(p.first)); bad(string(what) + " saw a wrong value"); }
}
static uint64_t size0() { static const uint64_t s[] = {128, 128, 128, 129, 131, 250, 1000}; return s[rng.below(7)]; }
static void lin(uint64_t ops) {
  auto h = L::New(tsize = size0()); Mdl m; mkpool(rng.chance(1, 2) ? rng.range(1, 150) : rng.range(100, 3000));
  int rem = rng.range(1, 5);
  for (uint64_t i = 0; i < ops; i++) { stepno = i; uint64_t k = key(), v = val();
    switch (rng.below(14)) {
      case 0: case 1: case 2: L::Insert(h, k, v); m[k] = v; ev["insert"]++; break;
      case 3: case 4: { auto o = L::InsertOld(h, k, v); same(o, m, k, "insertion's old value"); m[k] = v; break; }
      case 5: if (rng.chance(rem, 3)) { L::Remove(h, k); m.erase(k); ev["remove"]++; } break;
      case 6: if (rng.chance(rem, 3)) { auto o = L::RemoveGet(h, k); same(o, m, k, "removal's old value"); m.erase(k); } break;
      case 7: if (rng.chance(1, 8)) { auto it = L::Start(h); iter(m, [&](uint64_t& a, uint64_t& b) { auto t = L::At(it); if (get<0>(t)) return false; a = get<1>(t); b = get<2>(t); it = L::Inc(h, it); return true; }, "iteration"); } break;
      case 8: if (rng.chance(1, 8)) { bool upd = rng.chance(1, 2); Mdl was = m; auto it = L::SStart(h);
          iter(was, [&](uint64_t& a, uint64_t& b) { auto t = L::SAt(h, it); if (get<0>(t)) return false; a = get<1>(t); b = get<2>(t); if (upd && rng.chance(1, 2)) { uint64_t n = val(); L::SUpdate(h, it, n); m[a] = n; ev["update by iterator"]++; } it = L::SInc(h, it); return true; }, "simple iteration"); } break;
      case 9: { auto it = L::SFind(h, k); auto t = L::SAt(h, it); evaluations++; ev["find"]++; if (get<0>(t) != !m.count(k)) bad("finding " + kv(k) + " was wrong about its presence"); if (!get<0>(t) && (get<1>(t) != k || get<2>(t) != m[k])) bad("finding " + kv(k) + " led to another entry");
          if (!get<0>(t) && rng.chance(1, 2)) { L::SUpdate(h, it, v); m[k] = v; ev["update by iterator"]++; } break; }
      case 10: if (rng.chance(1, 30)) { auto n = L::Clone(h); uint64_t k2 = key(); Mdl was = m; L::Insert(h, k, v); m[k] = v; L::Remove(h, k2); m.erase(k2); for (int j = 0; j < 8; j++) { uint64_t q = key(); same(L::Get(n, q), was, q, "lookup in a clone"); } if (rng.chance(1, 2)) { swap(h, n); m = was; } L::Free(n); } break;
      case 11: if (rng.chance(1, 8) && !m.empty()) { evaluations++; ev["greatest key"]++; uint64_t g = L::MaxKey(h); if (g != m.rbegin()->first) bad("the greatest key is " + to_string(m.rbegin()->first) + ", not " + to_string(g)); } break;
      default: same(L::Get(h, k), m, k, "lookup");
    }
    evaluations++; if (L::Count(h) != m.size()) bad("the map counts " + to_string(L::Count(h)) + " entries instead of " + to_string(m.size()));
  }
  for (uint64_t k : pool) same(L::Get(h, k), m, k, "final lookup");
  L::Free(h); FREED_ALL;
}
static void fix(uint64_t ops) {
  tsize = rng.chance(1, 2) ? 128 : rng.range(128, 160); auto h = L::FNew(tsize); Mdl m; mkpool(rng.range(20, 400)); set<uint64_t> used; // slots used for ever, tombstones included
  for (uint64_t i = 0; i < ops; i++) { stepno = i; uint64_t k = key(), v = val();
    switch (rng.below(4)) {
      case 0: case 1: if (used.size() + 2 < tsize || used.count(k)) { used.insert(k); auto o = L::FInsert(h, k, v); same(o, m, k, "fixed insertion's old value"); m[k] = v; } break;
      case 2: { auto o = L::FRemove(h, k); same(o, m, k, "fixed removal's old value"); m.erase(k); break; }
      default: same(L::FGet(h, k), m, k, "fixed lookup");
    }
    if (L::FCount(h) != used.size()) bad("the table counts " + to_string(L::FCount(h)) + " used slots instead of " + to_string(used.size()));
  }
  for (uint64_t k : pool) same(L::FGet(h, k), m, k, "final fixed lookup");
  if (used.size() > tsize * 9 / 10) ev["nearly full tables"]++;
}
struct TO { bool s; uint64_t v; bool is_Some() const { return s; } uint64_t dtor_value() const { return v; } };
static void con(uint64_t ops) {
  auto h = C::New(tsize = size0()); Mdl m; mkpool(rng.chance(1, 2) ? rng.range(1, 150) : rng.range(100, 2500));
  for (uint64_t i = 0; i < ops; i++) { stepno = i; uint64_t k = key(), v = val();
    switch (rng.below(6)) {
      case 0: case 1: case 2: { auto t = C::Insert(h, k, v); same(TO{get<0>(t), get<1>(t)}, m, k, "linear insertion's old value"); m[k] = v; break; }
      case 3: { auto t = C::Remove(h, k); same(TO{get<0>(t), get<1>(t)}, m, k, "linear removal's old value"); m.erase(k); break; }
      default: { bool b = C::Has(h, k); same(TO{b, b && m.count(k) ? C::Get(h, k) : 0}, m, k, "linear lookup"); }
    }
    if (C::Count(h) != m.size()) bad("the map counts " + to_string(C::Count(h)) + " entries instead of " + to_string(m.size()));
  }
  for (uint64_t k : pool) { bool b = C::Has(h, k); same(TO{b, b && m.count(k) ? C::Get(h, k) : 0}, m, k, "final linear lookup"); }
  for (auto p : Mdl(m)) { auto t = C::Remove(h, p.first); same(TO{get<0>(t), get<1>(t)}, m, p.first, "linear removal's old value"); m.erase(p.first); }
}
static void cls(uint64_t ops) {
  auto h = M::New(tsize = size0()); Mdl m; mkpool(rng.chance(1, 2) ? rng.range(1, 150) : rng.range(100, 2500));
  for (uint64_t i = 0; i < ops; i++) { stepno = i; uint64_t k = key(), v = val();
    switch (rng.below(12)) {
      case 0: case 1: M::Insert(h, k, v); m[k] = v; ev["object insert"]++; break;
      case 2: case 3: { auto o = M::InsertOld(h, k, v); same(o, m, k, "object insertion's old value"); m[k] = v; break; }
      case 4: M::Remove(h, k); m.erase(k); break;
      case 5: { auto o = M::RemoveGet(h, k); same(o, m, k, "object removal's old value"); m.erase(k); break; }
      case 6: if (rng.chance(1, 8)) { Mdl was = m; bool upd = rng.chance(1, 2); auto it = M::SStart(h); iter(was, [&](uint64_t& a, uint64_t& b) { auto t = M::SAt(h, it); if (get<0>(t)) return false; a = get<1>(t); b = get<2>(t); if (upd) { uint64_t n = val(); M::SUpdate(h, it, n); m[a] = n; } it = M::SInc(h, it); return true; }, "object iteration"); } break;
      case 7: { auto it = M::SFind(h, k); auto t = M::SAt(h, it); evaluations++; if (get<0>(t) != !m.count(k)) bad("finding " + kv(k) + " was wrong about its presence"); if (!get<0>(t) && (get<1>(t) != k || get<2>(t) != m[k])) bad("finding " + kv(k) + " led to another entry"); break; }
      case 8: if (rng.chance(1, 30)) { auto n = M::Clone(h); Mdl was = m; M::Insert(h, k, v); m[k] = v; for (int j = 0; j < 8; j++) { uint64_t q = key(); same(M::Get(n, q), was, q, "lookup in an object clone"); } M::Insert(n, k, v + 1); same(M::Get(h, k), m, k, "lookup in the cloned object"); if (rng.chance(1, 2)) { h = n; was[k] = v + 1; m = was; } } break;
      case 9: if (rng.chance(1, 8) && !m.empty()) { evaluations++; if (M::MaxKey(h) != m.rbegin()->first) bad("the greatest key is " + to_string(m.rbegin()->first) + ", not " + to_string(M::MaxKey(h))); } break;
      default: same(M::Get(h, k), m, k, "object lookup");
    }
    if (M::Count(h) != m.size()) bad("the map counts " + to_string(M::Count(h)) + " entries instead of " + to_string(m.size()));
  }
  for (uint64_t k : pool) same(M::Get(h, k), m, k, "final object lookup");
  FREED_ALL;
}
int main(int argc, char** argv) {
  return hmain(argc, argv, [](const string&, uint64_t k) { uint64_t ops = rng.chance(1, 20) ? 20000 : rng.range(20, 1500); switch (k % 4) { case 0: lin(ops); break; case 1: fix(ops); break; case 2: con(ops); break; default: cls(ops); } });
}
