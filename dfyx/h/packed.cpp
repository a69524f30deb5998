// D03: packed string arrays and packed key/message lists against plain vectors.
#include "Bundle.i.h"
#include "hcommon.h"
using namespace std;
typedef DrvP_Compile::__default P; typedef DrvK_Compile::__default K;
typedef vector<Bytes> L; typedef decltype(P::FromSeq(declval<DafnySequence<DafnySequence<uint8>>>())) Psa; typedef decltype(K::Empty()) Pkv;
static DafnySequence<DafnySequence<uint8>> ds(const L& l) { vector<DafnySequence<uint8>> v; for (auto& b : l) v.push_back(dseq(b)); return DafnySequence<DafnySequence<uint8>>(v); }
static int style;
static Bytes str() { Bytes b; switch (style) { case 0: b.resize(rng.below(4)); for (auto& c : b) c = rng.chance(1, 2) ? 0 : 255; break; case 1: b.resize(rng.below(30)); for (auto& c : b) c = rng.below(3); break; case 2: b.resize(rng.chance(1, 8) ? 1024 : rng.below(200)); for (auto& c : b) c = rng.next(); break; default: b = {(uint8_t)rng.next(), (uint8_t)rng.next()}; } return b; }
static L mklist(uint64_t n, bool sorted) { L l(n); for (auto& s : l) s = str(); if (sorted) sort(l.begin(), l.end()); return l; }
static uint64_t total(const L& l, uint64_t n = ~0ull) { uint64_t t = 0; for (size_t i = 0; i < l.size() && i < n; i++) t += l[i].size(); return t; }
static void same(const Psa& p, const L& l, const char* what) {
  evaluations++; ev[what]++;
  if (P::Num(p) != l.size()) bad(string(what) + ": " + to_string(P::Num(p)) + " strings instead of " + to_string(l.size()));
  if (P::Total(p) != total(l)) bad(string(what) + ": total length " + to_string(P::Total(p)) + " instead of " + to_string(total(l)));
  if (P::Size(p) != 4 + 4 * l.size() + total(l)) bad(string(what) + ": wrong packed size");
  auto s = P::ToSeq(p); if (s.size() != l.size()) bad(string(what) + ": unpacked to another number of strings");
  for (size_t i = 0; i < l.size(); i++) { if (byt(P::At(p, i)) != l[i]) bad(string(what) + ": string " + to_string(i) + " is " + hex(byt(P::At(p, i))) + " instead of " + hex(l[i])); if (byt(s.select(i)) != l[i]) bad(string(what) + ": unpacked string " + to_string(i) + " differs"); }
  if (!l.empty()) { if (byt(P::First(p)) != l[0] || byt(P::Last(p)) != l.back()) bad(string(what) + ": wrong first or last string"); }
}
static void psa() {
  style = rng.below(4); bool so = rng.chance(2, 3); uint64_t n = rng.chance(1, 4) ? rng.below(4) : rng.below(60); L l = mklist(n, so);
  Psa p = P::FromSeq(ds(l)); same(p, l, "packed"); CK(P::SeqTotal(ds(l)) == total(l), "the total length of the strings is wrong");
  for (int i = 0; i < 6; i++) { uint64_t a = rng.below(n + 1), b = rng.range(a, n); same(P::Sub(p, a, b), L(l.begin() + a, l.begin() + b), "sub-range"); auto q = P::Sub(p, a, b); uint64_t m = b - a, c = rng.below(m + 1), d = rng.range(c, m); same(P::Sub(q, c, d), L(l.begin() + a + c, l.begin() + a + d), "sub-range of a sub-range"); }
  { uint64_t a = rng.below(n + 1); same(P::Prefix(p, a), L(l.begin(), l.begin() + a), "prefix"); same(P::Suffix(p, a), L(l.begin() + a, l.end()), "suffix"); }
  if (so) for (int i = 0; i < 12; i++) { Bytes k = n && rng.chance(1, 2) ? l[rng.below(n)] : str(); if (rng.chance(1, 4)) k.push_back(0); evaluations += 4; ev["searches"]++;
    uint64_t ge = lower_bound(l.begin(), l.end(), k) - l.begin(), gt = upper_bound(l.begin(), l.end(), k) - l.begin();
    if (P::Lte(p, dseq(k)) != (int64)gt - 1) bad("the last string not above " + hex(k) + " was found at " + to_string(P::Lte(p, dseq(k))) + " instead of " + to_string((int64_t)gt - 1));
    if (P::Gte(p, dseq(k)) != ge) bad("the first string not below " + hex(k) + " was found at " + to_string(P::Gte(p, dseq(k))) + " instead of " + to_string(ge));
    if (P::Gt(p, dseq(k)) != gt) bad("the first string above " + hex(k) + " was found at " + to_string(P::Gt(p, dseq(k))) + " instead of " + to_string(gt));
    if (P::GtePivot(p, false, dseq(k)) != ge) bad("the first string not below the pivot " + hex(k) + " was misplaced"); if (P::GtePivot(p, true, dseq(k)) != n) bad("the greatest pivot did not lie above every string");
    uint64_t lo = rng.below(ge + 1); if (P::GteFrom(p, dseq(k), lo) != ge) bad("searching from " + to_string(lo) + " misplaced " + hex(k)); }
  // growing arrays
  L m; auto d = rng.chance(1, 3) ? (m = l, P::NewFrom(ds(l))) : P::New(rng.below(8), rng.below(200));
  for (uint64_t i = 0, e = rng.below(40); i < e; i++) { stepno = i; Psa snap = P::DTo(d); L was = m; bool chk = rng.chance(1, 4);
    switch (rng.below(6)) {
      case 0: { L x = mklist(rng.below(6), false); P::AppendAll(d, ds(x)); m.insert(m.end(), x.begin(), x.end()); ev["appended lists"]++; break; }
      case 1: { uint64_t c = rng.chance(1, 3) ? rng.below(m.size() + 1) : m.size() - min<uint64_t>(m.size(), rng.below(3)); P::Cut(d, c); m.resize(c); ev["cuts"]++; break; }
      case 2: { Bytes s = str(); bool f = P::Fits(d, dseq(s)); if (f) { P::AppendFit(d, dseq(s)); m.push_back(s); ev["appends in place"]++; } break; }
      default: { Bytes s = str(); P::Append(d, dseq(s)); m.push_back(s); }
    }
    CK(P::DTotal(d) == total(m), "a growing array has total length " + to_string(P::DTotal(d)) + " instead of " + to_string(total(m))); CK(P::DWeight(d) == 4 * m.size() + total(m), "a growing array has a wrong weight");
    if (chk) { same(P::DTo(d), m, "grown"); same(snap, was, "snapshot of a growing array"); } }
  same(P::DTo(d), m, "grown");
  Bytes s = str(); CK(P::CanAppend(P::DTo(d), dseq(s)), "a small array refused an append");
}
static void same(const Pkv& p, const L& k, const L& v, const char* what) {
  evaluations++; ev[what]++;
  if (K::Num(p) != k.size()) bad(string(what) + ": " + to_string(K::Num(p)) + " pairs instead of " + to_string(k.size()));
  for (size_t i = 0; i < k.size(); i++) { if (byt(K::Key(p, i)) != k[i]) bad(string(what) + ": key " + to_string(i) + " is " + hex(byt(K::Key(p, i))) + " instead of " + hex(k[i])); auto m = K::Msg(p, i); if (!get<0>(m) || byt(get<1>(m)) != v[i]) bad(string(what) + ": message " + to_string(i) + " differs"); }
  uint64_t w = 8 * k.size() + total(k) + total(v); if (K::Weight(p) != w) bad(string(what) + ": weight " + to_string(K::Weight(p)) + " instead of " + to_string(w)); if (K::Size(p) != w + 8) bad(string(what) + ": wrong packed size");
  if (!k.empty() && (byt(K::First(p)) != k[0] || byt(K::Last(p)) != k.back())) bad(string(what) + ": wrong first or last key");
}
static void hostile(const Bytes& b, const char* what) {
  auto r = K::Unpack(dseq(b)); evaluations++; ev[get<0>(r) ? "hostile bytes accepted" : "hostile bytes refused"]++;
  if (!get<0>(r)) return;
  auto& p = get<1>(r); auto chk = [&](const Psa& s, const char* n) { uint64_t prev = 0; for (uint64_t i = 0; i < s.dtor_offsets().size(); i++) { uint64_t o = s.dtor_offsets().select(i); if (o < prev) bad(string(what) + " was accepted with " + n + " whose offsets fall"); if (o - prev > 1024) bad(string(what) + " was accepted with an overlong string among its " + n); prev = o; } if (prev != s.dtor_data().size()) bad(string(what) + " was accepted with " + n + " that do not cover the data"); };
  chk(p.dtor_keys(), "keys"); chk(p.dtor_messages(), "messages"); if (P::Num(p.dtor_keys()) != P::Num(p.dtor_messages())) bad(string(what) + " was accepted with more keys than messages or the reverse");
  Bytes again = byt(K::Pack(p)); if (again != b) bad(string(what) + " was accepted but is not what the result packs to");
}
static void pkv() {
  style = rng.below(4); bool so = rng.chance(3, 4); uint64_t n = rng.chance(1, 4) ? rng.below(4) : rng.below(50); L k = mklist(n, so), v = mklist(n, false); if (so) { k.erase(unique(k.begin(), k.end()), k.end()); n = k.size(); v.resize(n); }
  auto d = K::New(rng.below(60), rng.below(300), rng.below(300)); for (uint64_t i = 0; i < n; i++) if (rng.chance(1, 2)) K::Append(d, dseq(k[i]), dseq(v[i])); else K::AppendRaw(d, dseq(k[i]), dseq(v[i]));
  Pkv p = K::To(d); same(p, k, v, "package"); CK(K::DWeight(d) == 8 * n + total(k) + total(v), "a growing package has a wrong weight");
  bool st = true; for (size_t i = 1; i < n; i++) if (!(k[i - 1] < k[i])) st = false; CK(K::Sorted(p) == st, string("a package was judged ") + (st ? "unsorted although it is sorted" : "sorted although it is not"));
  uint64_t mx = 0; for (auto& s : k) mx = max<uint64_t>(mx, s.size()); CK(K::Lens(p, mx), "keys within the limit were judged too long"); if (mx) CK(!K::Lens(p, mx - 1), "a key over the limit was judged short enough");
  { uint64_t a = rng.below(n + 1), b = rng.range(a, n); same(K::Sub(p, a, b), L(k.begin() + a, k.begin() + b), L(v.begin() + a, v.begin() + b), "part of a package");
    auto e = K::New(0, 0, 0); K::AppendPkv(e, p, a, b); same(K::To(e), L(k.begin() + a, k.begin() + b), L(v.begin() + a, v.begin() + b), "package appended to another"); }
  if (so) for (int i = 0; i < 8; i++) { Bytes q = n && rng.chance(1, 2) ? k[rng.below(n)] : str(); uint64_t at = lower_bound(k.begin(), k.end(), q) - k.begin(); bool in = at < n && k[at] == q; auto r = K::Query(p, dseq(q)); evaluations++; ev[in ? "present lookups" : "absent lookups"]++;
    if (get<0>(r) != in) bad("looking up " + hex(q) + (in ? " found nothing although the key is there" : " found a message although the key is not there")); if (in && byt(get<1>(r)) != v[at]) bad("looking up " + hex(q) + " gave another message");
    same(K::Left(p, dseq(q)), L(k.begin(), k.begin() + at), L(v.begin(), v.begin() + at), "left of a split"); same(K::Right(p, dseq(q)), L(k.begin() + at, k.end()), L(v.begin() + at, v.end()), "right of a split"); }
  Bytes b = byt(K::Pack(p)); CK(b.size() == K::PackSize(p), "packing wrote " + to_string(b.size()) + " bytes instead of the announced " + to_string(K::PackSize(p)));
  Bytes t = b; t.resize(b.size() + rng.range(1, 20), 7); CK(!get<0>(K::Unpack(dseq(t))), "a package followed by further bytes was accepted");
  auto r = K::Unpack(dseq(b)); CK(get<0>(r), "a package could not be unpacked again"); same(get<1>(r), k, v, "unpacked package");
  for (int i = 0; i < 6; i++) { Bytes x = b; switch (rng.below(5)) { case 0: x.resize(rng.below(x.size() + 1)); break; case 1: x[rng.below(x.size())] ^= 1 << rng.below(8); break; case 2: { uint64_t at = rng.below(x.size()); x[at] = rng.chance(1, 2) ? 0xff : 0; break; }
      case 3: { uint64_t at = rng.below((x.size() + 7) / 8) * 8; for (uint64_t j = at; j < x.size() && j < at + 8; j++) x[j] = rng.chance(1, 3) ? 0xff : rng.below(3); break; } default: { uint64_t at = rng.below(min<uint64_t>(x.size(), 12 + 4 * n)); x[at] += rng.chance(1, 2) ? 1 : -1; } }
    hostile(x, "a corrupted package"); }
  // well-formed containers, ill-formed content
  for (int i = 0; i < 4; i++) { Bytes x; auto p64 = [&](uint64_t a) { for (int j = 0; j < 8; j++) x.push_back(a >> (8 * j)); }; auto p32 = [&](uint32_t a) { for (int j = 0; j < 4; j++) x.push_back(a >> (8 * j)); };
    uint64_t c0 = rng.below(5); for (int s = 0; s < 2; s++) { uint64_t c = rng.chance(1, 4) ? rng.below(5) : c0; p64(c); uint32_t o = 0; for (uint64_t j = 0; j < c; j++) { if (rng.chance(1, 10)) o -= rng.below(3); else o += rng.chance(1, 8) ? 1020 + rng.below(8) : rng.below(5); p32(o); } uint64_t len = rng.chance(1, 6) ? o + rng.below(4) : o; if (len > 20000) len = 5; p64(len); for (uint64_t j = 0; j < len; j++) x.push_back(rng.next()); }
    hostile(x, "an ill-formed package"); }
}
int main(int argc, char** argv) { return hmain(argc, argv, [](const string&, uint64_t k) { for (int i = 0; i < 10; i++) { if (k % 2) pkv(); else psa(); } if (k % 2) FREED_ALL; }); }
