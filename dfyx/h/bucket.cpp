// D04: message buffers (and lists of them) against plain maps; flushes are judged by conservation.
#include "Bundle.i.h"
#include "hcommon.h"
using namespace std;
uint64_t cfg_node, cfg_journal, cfg_indtable, cfg_bucket, cfg_cache, cfg_children, cfg_blocks, cfg_maxkey, cfg_maxval;
typedef DrvB_Compile::__default B; typedef vector<Bytes> L; typedef map<Bytes, Bytes> M;
typedef decltype(B::Alloc()) Bk; typedef decltype(B::LNew(1)) Ls; typedef decltype(B::Pkv(declval<DafnySequence<DafnySequence<uint8>>>(), declval<DafnySequence<DafnySequence<uint8>>>())) Pkv;
static DafnySequence<DafnySequence<uint8>> ds(const L& l) { vector<DafnySequence<uint8>> v; for (auto& b : l) v.push_back(dseq(b)); return DafnySequence<DafnySequence<uint8>>(v); }
struct Mb { L k, v; bool raw = false; // raw: content possibly not in order
  M m() const { M r; for (size_t i = 0; i < k.size(); i++) r[k[i]] = v[i]; return r; }
  void set(const M& x) { k.clear(); v.clear(); raw = false; for (auto& p : x) { k.push_back(p.first); v.push_back(p.second); } }
  bool inorder() const { for (size_t i = 1; i < k.size(); i++) if (!(k[i - 1] < k[i])) return false; return true; }
  uint64_t weight() const { uint64_t w = 0; for (size_t i = 0; i < k.size(); i++) w += 8 + k[i].size() + v[i].size(); return w; } };
static int style; static uint64_t uni, vmax;
static Bytes key() { Bytes b; uint64_t x = rng.below(uni); switch (style) { case 0: b.resize(rng.below(4)); for (auto& c : b) c = rng.chance(1, 2) ? 0 : 255; break; case 1: b = {(uint8_t)(x >> 8), (uint8_t)x}; break; case 2: b.assign(x % 7, 9); b.push_back(x / 7); break; default: b.assign(rng.chance(1, 30) ? 1020 : 30, 5); b[20] = x; b[19] = x >> 8; } return b; }
static Bytes val() { Bytes b(rng.chance(1, 30) ? 1024 : rng.below(vmax)); for (auto& c : b) c = rng.next(); return b; }
static M fill(uint64_t n, const Bytes* lo = 0, const Bytes* hi = 0) { M m; for (uint64_t i = 0; i < n; i++) { Bytes k = key(); if (lo && k < *lo) continue; if (hi && !(k < *hi)) continue; m[k] = val(); } return m; }
static void cmp(const Pkv& p, const L& k, const L& v, const string& what) {
  evaluations++; if (B::Num(p) != k.size()) bad(what + " holds " + to_string(B::Num(p)) + " messages instead of " + to_string(k.size()));
  for (size_t i = 0; i < k.size(); i++) { if (byt(B::Key(p, i)) != k[i]) bad(what + " has key " + hex(byt(B::Key(p, i))) + " in place " + to_string(i) + " instead of " + hex(k[i])); auto m = B::Msg(p, i); if (!get<0>(m) || byt(get<1>(m)) != v[i]) bad(what + " has a wrong message for " + hex(k[i])); }
}
static void same(const Bk& b, const Mb& m, const char* what) { ev[what]++; cmp(B::GetPkv(b), m.k, m.v, what); if (B::Weight(b) != m.weight()) bad(string(what) + " has weight " + to_string(B::Weight(b)) + " instead of " + to_string(m.weight())); if (B::Sorted(b) && !m.inorder()) bad(string(what) + " claims to be in order but is not"); }
static Bk mk(Mb& m) { // a tree, a package in order (declared so or not), or an unordered package
  M x = fill(rng.chance(1, 6) ? 0 : rng.chance(1, 5) ? rng.below(300) : rng.below(40)); m.set(x); int f = rng.below(4);
  if (f == 0) { Bk b = B::Alloc(); L o = m.k; for (size_t i = o.size(); i > 1; i--) swap(o[i - 1], o[rng.below(i)]); for (auto& k : o) { if (rng.chance(1, 4)) B::Insert(b, dseq(k), dseq(val())); B::Insert(b, dseq(k), dseq(x[k])); } ev["trees"]++; return b; }
  if (f == 3) { for (size_t i = 0; i < m.k.size(); i++) { size_t j = rng.below(m.k.size()); if (rng.chance(1, 3)) m.k[i] = m.k[j]; else { swap(m.k[i], m.k[j]); swap(m.v[i], m.v[j]); } } m.raw = true; ev["unordered packages"]++; return B::AllocPkv(B::Pkv(ds(m.k), ds(m.v)), false); }
  ev["packages"]++; return B::AllocPkv(B::Pkv(ds(m.k), ds(m.v)), f == 1);
}
static bool noprefix(const Mb& m, const Bytes& p) { for (auto& k : m.k) if (k.size() >= p.size() && equal(p.begin(), p.end(), k.begin())) return false; return true; }
static void one() {
  Mb m; Bk b = mk(m); same(b, m, "buffer");
  for (uint64_t i = 0, n = rng.range(3, 30); i < n; i++) { stepno = i; Bytes k = !m.k.empty() && rng.chance(1, 2) ? m.k[rng.below(m.k.size())] : key(); bool ord = m.inorder(); M mm = m.m(); evaluations++;
    switch (rng.below(12)) {
      case 0: case 1: { Bytes v = val(); B::Insert(b, dseq(k), dseq(v)); mm[k] = v; m.set(mm); same(b, m, "buffer after an insertion"); break; }
      case 2: B::InsertIdentity(b, dseq(k)); m.set(mm); same(b, m, "buffer after an empty update"); break;
      case 3: case 4: if (ord) { auto r = B::Query(b, dseq(k)); ev[mm.count(k) ? "present lookups" : "absent lookups"]++; if (get<0>(r) != (mm.count(k) > 0)) bad("looking up " + hex(k) + " was wrong about its presence"); if (get<0>(r) && byt(get<1>(r)) != mm[k]) bad("looking up " + hex(k) + " gave another message"); } break;
      case 5: case 6: if (ord) { Mb l, r; M a, c; for (auto& p : mm) (p.first < k ? a : c).insert(p); l.set(a); r.set(c); if (rng.chance(1, 2)) { Bk x = B::Left(b, dseq(k)), y = B::Right(b, dseq(k)); same(x, l, "left part"); same(y, r, "right part"); B::Free(move(x)); B::Free(move(y)); }
          else { auto t = B::Both(b, dseq(k)); Bk x = move(t.get<0>()), y = move(t.get<1>()); same(x, l, "left part"); same(y, r, "right part"); if (rng.chance(1, 2)) { swap(b, x); m = l; } B::Free(move(x)); B::Free(move(y)); } same(b, m, "buffer after a split"); } break;
      case 7: { Bk c = B::Clone(b); Mb was = m; same(c, m, "clone"); B::Insert(b, dseq(k), dseq(val())); same(c, was, "clone after a change of the original"); swap(b, c); B::Free(move(c)); break; }
      case 8: { if (B::Marshalled(b) != ord) bad(string("a buffer was judged ") + (ord ? "out of order although it is in order" : "in order although it is not")); if (B::Empty(b) != m.k.empty()) bad("a buffer is wrong about being empty"); ev["judgements"]++; break; }
      case 9: { Bytes p = k; p.resize(rng.below(p.size() + 1)); if (rng.chance(1, 4)) p.push_back(rng.below(3)); bool e = noprefix(m, p); ev[e ? "prefix absent" : "prefix present"]++; if (B::NoPrefix(b, dseq(p)) != e) bad("the prefix " + hex(p) + (e ? " was found although no key has it" : " was missed")); break; }
      case 10: { Bytes e = m.k.empty() ? Bytes{0} : m.k[m.k.size() / 2]; if (e.empty()) e = {0}; if (byt(B::Middle(b)) != e) bad("the middle key is " + hex(byt(B::Middle(b))) + " instead of " + hex(e)); if (ord && !m.k.empty() && (byt(B::First(b)) != m.k[0] || byt(B::Last(b)) != m.k.back())) bad("the least or greatest key is wrong"); ev["middle keys"]++; break; }
      default: { Mb s; s.set(mm); cmp(B::GetPkvSorted(b, true), s.k, s.v, "the ordered content"); ev["ordered contents"]++; }
    } }
  B::Free(move(b));
}
static L pivots(uint64_t n, bool& top) { set<Bytes> s; s.insert(rng.chance(2, 3) ? Bytes() : key()); for (int t = 0; t < 200 && s.size() < n + 1; t++) { Bytes k = key(); if (rng.chance(1, 3)) k.push_back(0); s.insert(k); } L l(s.begin(), s.end()); top = l.size() < 2 || rng.chance(2, 3); return l; }
struct Ml { vector<Mb> b; };
static void same(const Ls& l, const vector<Mb>& m, const char* what) { ev[what]++; evaluations++; if (B::LLen(l) != m.size()) bad(string(what) + " has " + to_string(B::LLen(l)) + " buffers instead of " + to_string(m.size()));
  for (size_t i = 0; i < m.size(); i++) { auto t = B::LGet(l, i); cmp(get<0>(t), m[i].k, m[i].v, string(what) + ": buffer " + to_string(i)); if (get<1>(t) != m[i].weight()) bad(string(what) + ": buffer " + to_string(i) + " has a wrong weight"); if (get<2>(t) && !m[i].inorder()) bad(string(what) + ": a buffer claims to be in order but is not"); } }
static uint64_t wsum(const vector<Mb>& v, size_t a = 0, size_t b = ~0ull) { uint64_t w = 0; for (size_t i = a; i < v.size() && i < b; i++) w += v[i].weight(); return w; }
static void lists() {
  uint64_t n = rng.below(6); Ls l = B::LNew(n); vector<Mb> m(n); same(l, m, "empty list");
  for (uint64_t i = 0; i < n; i++) if (rng.chance(4, 5)) { Bk b = mk(m[i]); B::LPut(l, i, move(b)); } same(l, m, "list");
  for (int i = 0; i < 6; i++) { n = m.size(); Bytes k = key(); stepno = i; evaluations++;
    switch (rng.below(7)) {
      case 0: if (n) { uint64_t s = rng.below(n); if (!m[s].inorder()) break; B::LSplitOne(l, s, dseq(k)); M a, c; for (auto& p : m[s].m()) (p.first < k ? a : c).insert(p); Mb x, y; x.set(a); y.set(c); m[s] = x; m.insert(m.begin() + s + 1, y); same(l, m, "list with one buffer split"); } break;
      case 1: { if (B::LWeight(l) != wsum(m)) bad("the list weighs " + to_string(B::LWeight(l)) + " instead of " + to_string(wsum(m))); uint64_t a = rng.below(n + 1), b = rng.range(a, n); auto t = B::LTryWeight(l, a, b); uint64_t e = wsum(m, a, b); ev[get<0>(t) ? "weighings" : "weighings over the limit"]++; if (get<0>(t) ? get<1>(t) != e : e <= B::Limit()) bad("weighing a part of a list of weight " + to_string(e) + (get<0>(t) ? " gave " + to_string(get<1>(t)) : " failed although it is within the limit")); break; }
      case 2: { uint64_t a = rng.below(n + 1), b = rng.range(a, n); Ls c = B::LClone(l, a, b); vector<Mb> w(m.begin() + a, m.begin() + b); same(c, w, "cloned list"); if (rng.chance(1, 2)) { swap(l, c); m = w; } B::LFree(move(c)); break; }
      case 3: { uint64_t a = rng.below(n + 1); auto t = B::LSplit(move(l), a); l = move(t.get<0>()); Ls r = move(t.get<1>()); vector<Mb> x(m.begin(), m.begin() + a), y(m.begin() + a, m.end()); same(l, x, "head of a list"); same(r, y, "tail of a list"); Mb q; Bk b = mk(q);
          if (rng.chance(1, 2)) { l = B::LConcat(move(l), move(b), move(r)); x.push_back(q); x.insert(x.end(), y.begin(), y.end()); m = x; same(l, m, "joined list"); }
          else { Mb q2; Bk b2 = mk(q2); Ls mid = B::LClone(r, 0, y.size() / 2); vector<Mb> z(y.begin(), y.begin() + y.size() / 2); l = B::LConcat3(move(l), move(b), move(mid), move(b2), move(r)); x.push_back(q); x.insert(x.end(), z.begin(), z.end()); x.push_back(q2); x.insert(x.end(), y.begin(), y.end()); m = x; same(l, m, "joined list of five parts"); } break; }
      case 4: if (n) { Bytes p = k; p.resize(rng.below(p.size() + 1)); uint64_t a = rng.below(n), b = rng.range(a + 1, n); bool e = true; for (uint64_t j = a; j < b; j++) e = e && noprefix(m[j], p); if (B::LNoPrefix(l, dseq(p), a, b) != e) bad("searching a list for the prefix " + hex(p) + " was wrong"); ev["prefixes in lists"]++; } break;
      default: if (n) { uint64_t s = rng.below(n); Mb q; Bk b = mk(q); B::LPut(l, s, move(b)); m[s] = q; same(l, m, "list"); }
    } if (m.size() > 12) break; }
  B::LFree(move(l));
}
static void flush() {
  bool top; uint64_t want = rng.range(1, 7); L pv = pivots(want, top); uint64_t n = pv.size() - (top ? 0 : 1);
  auto route = [&](const Bytes& k) { return (uint64_t)(upper_bound(pv.begin(), pv.end(), k) - pv.begin()) - 1; };
  auto inside = [&](const Bytes& k) { return !(k < pv[0]) && (top || k < pv.back()); };
  vector<Mb> m(n); Ls l = B::LNew(n); uint64_t per = rng.chance(1, 4) ? 2 : rng.below(60);
  for (uint64_t i = 0; i < n; i++) { Bytes* hi = i + 1 < pv.size() ? &pv[i + 1] : 0; m[i].set(fill(rng.chance(1, 5) ? 0 : per, &pv[i], hi)); Bk b = rng.chance(1, 3) ? B::Alloc() : B::AllocPkv(B::Pkv(ds(m[i].k), ds(m[i].v)), rng.chance(2, 3)); if (B::IsTree(b)) for (size_t j = 0; j < m[i].k.size(); j++) B::Insert(b, dseq(m[i].k[j]), dseq(m[i].v[j]));
    else if (B::Empty(b) && !m[i].k.empty()) for (size_t j = 0; j < m[i].k.size(); j++) B::Insert(b, dseq(m[i].k[j]), dseq(m[i].v[j]));
    bool at = rng.chance(1, 2); if (at) { uint64_t j = rng.below(n); bool e = true; for (auto& k : m[i].k) if (route(k) != j) e = false; ev["range judgements"]++; evaluations++; if (B::At(b, ds(pv), top, j) != e) bad(string("a buffer was judged ") + (e ? "outside its range although it lies inside" : "inside its range although a key lies outside")); }
    B::LPut(l, i, move(b)); }
  M t; uint64_t tn = rng.chance(1, 5) ? rng.below(3) : rng.below(120); for (uint64_t i = 0; i < tn; i++) { Bytes k; if (rng.chance(1, 3)) { auto& x = m[rng.below(n)]; if (x.k.empty()) continue; k = x.k[rng.below(x.k.size())]; } else if (rng.chance(1, 6)) k = pv[rng.below(pv.size())]; else k = key(); if (inside(k)) t[k] = val(); }
  Mb tm; tm.set(t); bool decl = rng.chance(2, 3); Bk tb = rng.chance(1, 3) ? B::Alloc() : B::AllocPkv(B::Pkv(ds(tm.k), ds(tm.v)), decl); if (B::Empty(tb)) for (size_t j = 0; j < tm.k.size(); j++) B::Insert(tb, dseq(tm.k[j]), dseq(tm.v[j]));
  uint64_t W = wsum(m), slack = rng.chance(1, 4) ? 0 : rng.chance(1, 3) ? tm.weight() : rng.below(tm.weight() + 40); cfg_bucket = max({W + slack, tm.weight(), (uint64_t)1}); slack = cfg_bucket - W;
  same(l, m, "list before a flush"); Bk u = B::Flush(l, tb, ds(pv), top); same(tb, tm, "flushed buffer itself");
  evaluations++; ev["flushes"]++; if (B::LLen(l) != n) bad("a flush changed the number of buffers"); M rest; { auto p = B::GetPkv(u); for (uint64_t i = 0; i < B::Num(p); i++) { Bytes k = byt(B::Key(p, i)); if (!rest.insert({k, byt(get<1>(B::Msg(p, i)))}).second) bad("the key " + hex(k) + " remained twice after a flush"); } Mb r; r.set(rest); same(u, r, "buffer left by a flush"); }
  for (auto& p : rest) { auto q = t.find(p.first); if (q == t.end()) bad("the key " + hex(p.first) + " appeared from nowhere in the buffer left by a flush"); if (q->second != p.second) bad("the message for " + hex(p.first) + " changed while it stayed behind in a flush"); }
  vector<Mb> e(n); uint64_t moved = 0; for (uint64_t i = 0; i < n; i++) { M x = m[i].m(); for (auto& p : t) if (!rest.count(p.first) && route(p.first) == i) { x[p.first] = p.second; moved++; } e[i].set(x); }
  same(l, e, "list after a flush"); if (wsum(e) > cfg_bucket) bad("a flush filled the buffers to " + to_string(wsum(e)) + ", over the limit " + to_string(cfg_bucket));
  if (tm.weight() <= slack && !rest.empty()) bad("a flush left " + to_string(rest.size()) + " messages behind although there was room for all");
  if (!t.empty() && rest.size() == t.size()) { uint64_t least = ~0ull; auto& f = *t.begin(); auto& x = m[route(f.first)]; M xm = x.m(); least = xm.count(f.first) ? (f.second.size() > xm[f.first].size() ? f.second.size() - xm[f.first].size() : 0) : 8 + f.first.size() + f.second.size(); if (least <= slack) bad("a flush moved nothing although the first message had room"); ev["flushes without room"]++; }
  else ev[rest.empty() ? "complete flushes" : "partial flushes"]++; ev["messages flushed"] += moved;
  B::Free(move(u)); B::Free(move(tb)); B::LFree(move(l)); cfg_bucket = 2097152 - 65536;
}
int main(int argc, char** argv) { return hmain(argc, argv, [](const string&, uint64_t k) { cfg_bucket = rng.chance(1, 2) ? 2097152 - 65536 : rng.range(100, 3000); style = rng.below(4); uni = rng.chance(1, 3) ? rng.range(5, 50) : rng.range(50, 2000); vmax = rng.chance(1, 2) ? 4 : 60;
  for (int i = 0; i < 5; i++) switch (k % 3) { case 0: one(); break; case 1: lists(); break; default: flush(); } FREED_ALL; }); }
