// D02: the in-memory B-tree against std::map, with a structural walk. Three fan-outs.
#include "Bundle.i.h"
#include "hcommon.h"
using namespace std;
typedef map<Bytes, Bytes> Mdl;
struct Gen { // keys that share prefixes, are prefixes of each other, or differ in high bytes
  int kind; uint64_t uni; uint64_t nxt = 0; bool desc;
  Gen() { kind = rng.below(6); uni = rng.chance(1, 3) ? rng.range(1, 40) : rng.range(20, 3000); desc = rng.chance(1, 2); }
  Bytes key() { Bytes k; uint64_t x = rng.below(uni);
    switch (kind) {
      case 0: k = {(uint8_t)(x >> 8), (uint8_t)x}; break;
      case 1: for (uint64_t i = 0; i < x % 40; i++) k.push_back(i % 5 == x % 5 ? 1 : 0); break;                 // prefixes of one another, and the empty key
      case 2: { uint64_t y = nxt++; if (desc) y = 100000 - y % 100000; for (int i = 3; i >= 0; i--) k.push_back(y >> (8 * i)); break; } // ascending or descending
      case 3: k.assign(rng.chance(1, 20) ? 1024 : 200, 7); k[199] = x; k[198] = x >> 8; break;                  // differ late
      case 4: k = {(uint8_t)(x * 37), (uint8_t)(rng.chance(1, 2) ? 255 : 0), (uint8_t)x}; break;
      default: { uint64_t n = rng.below(5); for (uint64_t i = 0; i < n; i++) k.push_back(rng.chance(1, 2) ? 0 : 255 - rng.below(2)); }
    }
    return k; }
};
static Bytes val() { Bytes v(rng.chance(1, 20) ? 1024 : rng.below(6)); for (auto& b : v) b = rng.next(); return v; }
#define TREE(NS, RUN) \
template <class N> static void RUN##_walk(const N& n, const Mdl& m, Mdl::const_iterator& it, int depth, int& leafdepth, uint64_t lmax, uint64_t imax, bool root) { \
  evaluations++; \
  if (n.is_Leaf()) { if (leafdepth < 0) leafdepth = depth; if (leafdepth != depth) bad("leaves at different depths: the tree is out of balance"); \
    auto& ks = *n.dtor_keys(); auto& vs = *n.dtor_values(); \
    if (ks.size() != vs.size()) bad("a leaf has " + to_string(ks.size()) + " keys and " + to_string(vs.size()) + " values"); \
    if (ks.size() > lmax) bad("a leaf with " + to_string(ks.size()) + " keys exceeds the limit " + to_string(lmax)); \
    if (!root && ks.size() == 0) bad("an empty leaf below the root"); \
    for (uint64_t i = 0; i < ks.size(); i++, ++it) { if (it == m.end()) bad("the tree holds more keys than were inserted"); if (byt(ks[i]) != it->first) bad("in key order, " + hex(byt(ks[i])) + " stands where " + hex(it->first) + " belongs"); } \
  } else { auto& ch = *n.dtor_children(); auto& pv = *n.dtor_pivots(); \
    if (ch.size() > imax) bad("an inner node with " + to_string(ch.size()) + " children exceeds the limit " + to_string(imax)); \
    if (ch.size() != pv.size() + 1) bad("an inner node has " + to_string(ch.size()) + " children and " + to_string(pv.size()) + " pivots"); \
    for (uint64_t i = 0; i < ch.size(); i++) { auto b = it; RUN##_walk(ch[i].a, m, it, depth + 1, leafdepth, lmax, imax, false); \
      if (i > 0 && b != m.end() && b->first < byt(pv[i - 1])) bad("the key " + hex(b->first) + " lies right of a pivot greater than it"); \
      if (i + 1 < ch.size() && it != m.begin()) { auto e = it; --e; if (!(e->first < byt(pv[i]))) bad("the key " + hex(e->first) + " lies left of a pivot not greater than it"); } } } } \
static void RUN(uint64_t ops) { typedef NS::__default T; auto t = T::New(); Mdl m; Gen g; uint64_t lmax = T::LeafMax(), imax = T::IndexMax(); uint64_t every = rng.range(1, 200); \
  for (uint64_t i = 0; i < ops; i++) { stepno = i; Bytes k = g.key(), v = val(); \
    if (rng.chance(2, 3)) { auto r = T::Insert(move(t), dseq(k), dseq(v)); t = move(r.template get<0>()); auto p = m.find(k); ev[p == m.end() ? "insertions" : "overwrites"]++; evaluations++; \
      if (r.template get<1>() != (p != m.end()) || (p != m.end() && byt(r.template get<2>()) != p->second)) bad("inserting " + hex(k) + " returned a wrong previous value"); m[k] = v; } \
    else { auto r = T::Query(t, dseq(k)); auto p = m.find(k); evaluations++; ev[p == m.end() ? "absent lookups" : "present lookups"]++; \
      if (r.template get<0>() != (p != m.end())) bad("looking up " + hex(k) + (p == m.end() ? " found a value although the key is absent" : " found nothing although the key is present")); if (p != m.end() && byt(r.template get<1>()) != p->second) bad("looking up " + hex(k) + " gave a wrong value"); } \
    if (i % every == 0 || i + 1 == ops) { CK(T::Empty(t) == m.empty(), "the tree is wrong about being empty"); CK(T::Count(t) == m.size(), "the tree counts " + to_string(T::Count(t)) + " keys instead of " + to_string(m.size())); \
      if (!m.empty()) { CK(byt(T::MinKey(t)) == m.begin()->first, "the least key is wrong"); CK(byt(T::MaxKey(t)) == m.rbegin()->first, "the greatest key is wrong"); } \
      Mdl::const_iterator it = m.begin(); int ld = -1; RUN##_walk(t, (const Mdl&)m, it, 0, ld, lmax, imax, true); ev["walks"]++; if (ld > 1) ev["walks over deep trees"]++; if (ld > 3) ev["walks over very deep trees"]++; } } \
  for (auto& p : m) { auto r = T::Query(t, dseq(p.first)); evaluations++; if (!r.template get<0>() || byt(r.template get<1>()) != p.second) bad("finally looking up " + hex(p.first) + " gave a wrong answer"); } \
  T::Free(move(t)); ev["trees freed"]++; FREED_ALL; }
TREE(DrvBig_Compile, big)
TREE(DrvSmall_Compile, small_)
TREE(DrvOdd_Compile, odd)
int main(int argc, char** argv) {
  return hmain(argc, argv, [](const string&, uint64_t k) { uint64_t ops = rng.chance(1, 12) ? 6000 : rng.range(5, 1200); switch (k % 3) { case 0: big(ops); break; case 1: small_(ops); break; default: odd(ops); } });
}
