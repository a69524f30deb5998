// The hand-written native primitives that the Dafny code trusts, against references written from their specifications.
#include "Framework.h"
#include "Application.h"
#include "LinearCongruentialGenerator.h"
#include "hcommon.h"
using namespace std;
typedef DafnySequence<uint8> BS;
static BS bs(const Bytes& v) { BS r((uint64)v.size()); copy(v.begin(), v.end(), r.start); return r; }
static DafnyArray<uint8> arr(const Bytes& v) { DafnyArray<uint8> r((dfy_int)v.size()); copy(v.begin(), v.end(), r.begin()); return r; }
static Bytes by(const BS& s) { return Bytes(s.ptr(), s.ptr() + s.size()); }
static Bytes by(const DafnyArray<uint8>& s) { return Bytes(s.begin(), s.end()); }
static Bytes rb(size_t n) { Bytes r(n); int k = rng.below(4); for (auto& x : r) x = k == 0 ? rng.below(2) : k == 1 ? rng.below(256) : k == 2 ? (rng.chance(1, 2) ? 255 : 127 + rng.below(3)) : 'a' + rng.below(3); return r; }
static uint64 ru() { int k = rng.below(4); return k == 0 ? rng.next() : k == 1 ? rng.below(300) : k == 2 ? ~0ull - rng.below(300) : 1ull << rng.below(64); }
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static int ref_cmp(const Bytes& a, const Bytes& b) { for (size_t i = 0; i < min(a.size(), b.size()); i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return sgn((long)a.size() - (long)b.size()); }

static pair<Bytes, Bytes> two() {
  Bytes a = rb(rng.below(40)), b;
  if (rng.chance(1, 2)) { b = a; if (rng.chance(1, 2)) b.resize(rng.below(b.size() + 1)); if (!b.empty() && rng.chance(1, 2)) b[rng.below(b.size())] ^= 1 << rng.below(8); if (rng.chance(1, 3)) b.push_back(rng.below(3)); }
  else b = rb(rng.below(40));
  if (rng.chance(1, 40)) { Bytes p = rb(rng.below(9000)); a.insert(a.begin(), p.begin(), p.end()); b.insert(b.begin(), p.begin(), p.end()); }
  return {a, b};
}
static void cmp_run() {
  using namespace NativeArrays_Compile;
  auto [a, b] = two(); auto c = rb(rng.below(6));
  CK(sgn(ByteSeqCmpByteSeq(bs(a), bs(b))) == ref_cmp(a, b), "byte-string comparison of " + hex(a) + " and " + hex(b));
  ByteString x(bs(a)), y(bs(b)); string sa(a.begin(), a.end());
  CK((x < y) == (ref_cmp(a, b) < 0), "ordering of application keys " + hex(a) + " and " + hex(b));
  CK((x == y) == (a == b), "equality of application keys " + hex(a) + " and " + hex(b));
  CK(x.as_string() == sa && x.size() == sa.size(), "application key to string");
  if (!sa.empty() || true) CK(by(ByteString(sa).as_dafny_seq()) == a, "application key from string");
  // views: a slice of a larger buffer
  Bytes big = a; big.insert(big.end(), c.begin(), c.end()); big.insert(big.begin(), c.begin(), c.end());
  BS view = dfy_slice<uint8>(bs(big), (dfy_int)c.size(), true, (dfy_int)(c.size() + a.size()), "");
  CK(sgn(ByteSeqCmpByteSeq(view, bs(b))) == ref_cmp(a, b), "byte-string comparison of a slice");
  ev["comparisons"]++;
}
static void arrays_run() {
  using namespace NativeArrays_Compile;
  uint64 n = rng.chance(1, 40) ? rng.below(70000) : rng.below(60);
  uint64 v = ru();
  auto f = newArrayFill<uint64>(n, v);
  CK(f.size() == n && count(f.begin(), f.end(), v) == (long)n, "newArrayFill");
  Bytes a = rb(n), d = rb(rng.chance(1, 40) ? rng.below(70000) : rng.below(60));
  auto ar = arr(a); auto cl = newArrayClone<uint8>(ar);
  CK(by(cl) == a && !(cl == ar), "newArrayClone");
  if (n) { cl.begin()[0] ^= 1; CK(by(ar) == a, "a cloned array shares its storage"); }
  uint64 len = rng.below(min(a.size(), d.size()) + 1), si = rng.below(a.size() - len + 1), di = rng.below(d.size() - len + 1);
  Bytes want = d; copy(a.begin() + si, a.begin() + si + len, want.begin() + di);
  auto dst = arr(d); CopySeqIntoArray<uint8>(bs(a), si, dst, di, len);
  CK(by(dst) == want, "copy of a sequence into an array, src " + hex(a) + " [" + to_string(si) + "," + to_string(len) + ") to " + hex(d) + " at " + to_string(di) + " gave " + hex(by(dst)));
  auto dst2 = arr(d); auto src2 = arr(a); CopyArrayIntoDifferentArray<uint8>(src2, si, dst2, di, len);
  CK(by(dst2) == want && by(src2) == a, "copy of an array into an array");
  ev["array copies"]++;
}
template <typename T> static T le(const Bytes& b, size_t i) { T r = 0; for (size_t k = 0; k < sizeof(T); k++) r |= (T)b[i + k] << (8 * k); return r; }
template <typename T> static void ple(Bytes& b, size_t i, T v) { for (size_t k = 0; k < sizeof(T); k++) b[i + k] = (uint8_t)(v >> (8 * k)); }
static void pack_run() {
  using namespace NativePackedInts_Compile;
  Bytes a = rb(8 + (rng.chance(1, 40) ? rng.below(70000) : rng.below(80))); auto s = bs(a);
  uint64 i4 = rng.below(a.size() - 3), i8 = rng.below(a.size() - 7);
  CK(Unpack__LittleEndian__Uint32(s, i4) == le<uint32>(a, i4), "unpack of a 32-bit integer at " + to_string(i4) + " of " + hex(a));
  CK(Unpack__LittleEndian__Uint64(s, i8) == le<uint64>(a, i8), "unpack of a 64-bit integer at " + to_string(i8) + " of " + hex(a));
  CK(Unpack__LittleEndian__Uint64__From__Array(arr(a), i8) == le<uint64>(a, i8), "unpack of a 64-bit integer from an array");
  uint64 v = ru();
  { auto t = arr(a); Bytes w = a; Pack__LittleEndian__Uint32__into__Array((uint32)v, t, i4); ple<uint32>(w, i4, (uint32)v); CK(by(t) == w, "pack of a 32-bit integer"); }
  { auto t = arr(a); Bytes w = a; Pack__LittleEndian__Uint64__into__Array(v, t, i8); ple<uint64>(w, i8, v); CK(by(t) == w, "pack of a 64-bit integer"); }
  { uint64 i = rng.below(a.size() + 1), l = rng.below((a.size() - i) / 4 + 1); auto r = Unpack__LittleEndian__Uint32__Seq(s, i, l);
    bool ok = r.size() == l; for (uint64 k = 0; ok && k < l; k++) ok = r.ptr()[k] == le<uint32>(a, i + 4 * k); CK(ok, "unpack of a sequence of 32-bit integers"); 
    auto t = arr(rb(a.size())); Bytes w = by(t); Pack__LittleEndian__Uint32__Seq__into__Array(r, t, i); copy(a.begin() + i, a.begin() + i + 4 * l, w.begin() + i); CK(by(t) == w, "pack of a sequence of 32-bit integers"); }
  { uint64 i = rng.below(a.size() + 1), l = rng.below((a.size() - i) / 8 + 1); auto r = Unpack__LittleEndian__Uint64__Seq(s, i, l);
    bool ok = r.size() == l; for (uint64 k = 0; ok && k < l; k++) ok = r.ptr()[k] == le<uint64>(a, i + 8 * k); CK(ok, "unpack of a sequence of 64-bit integers");
    auto t = arr(rb(a.size())); Bytes w = by(t); Pack__LittleEndian__Uint64__Seq__into__Array(r, t, i); copy(a.begin() + i, a.begin() + i + 8 * l, w.begin() + i); CK(by(t) == w, "pack of a sequence of 64-bit integers"); }
  CK(by(s) == a, "unpacking changed its input");
  ev["integer packings"]++;
}
// polynomial arithmetic over GF(2), bit by bit, from the specification in F2_X.s.dfy
typedef vector<bool> Bits;
static Bits bits(unsigned __int128 v, int n) { Bits r(n); for (int i = 0; i < n; i++) r[i] = (v >> i) & 1; return r; }
static unsigned __int128 val(const Bits& b) { unsigned __int128 r = 0; for (size_t i = 0; i < b.size(); i++) if (b[i]) r |= (unsigned __int128)1 << i; return r; }
static Bits rev(Bits b) { reverse(b.begin(), b.end()); return b; }
static Bits bxor(Bits a, Bits b) { if (a.size() < b.size()) swap(a, b); for (size_t i = 0; i < b.size(); i++) a[i] = a[i] != b[i]; return a; }
static Bits shl(Bits a, int n) { a.insert(a.begin(), n, false); return a; }
static Bits modp(Bits p, const Bits& q) { while (p.size() >= q.size()) { if (p.back()) p = bxor(p, shl(q, p.size() - q.size())); p.pop_back(); } p.resize(q.size() - 1); return p; }
static uint32 ref_crc(uint32 acc, uint64 v, int n) { return (uint32)val(rev(modp(bxor(shl(rev(bits(v, n)), 32), shl(rev(bits(acc, 32)), n)), bits(0x11EDC6F41ull, 33)))); }
static unsigned __int128 ref_clmul(uint64 a, uint64 b) { unsigned __int128 r = 0; for (int i = 0; i < 64; i++) if (a >> i & 1) r ^= (unsigned __int128)b << i; return r; }
static __m128i m128(unsigned __int128 v) { __m128i r; memcpy(&r, &v, 16); return r; }
static unsigned __int128 u128(__m128i v) { unsigned __int128 r; memcpy(&r, &v, 16); return r; }
static void bits_run() {
  using namespace F2__X__s_Compile; using namespace Bits__s_Compile;
  uint32 acc = (uint32)ru(); uint64 v = ru();
  CK(intrinsic_mm_crc32_u8(acc, (uint8)v) == ref_crc(acc, (uint8)v, 8), "crc32 of a byte");
  CK(intrinsic_mm_crc32_u64(acc, v) == ref_crc(acc, v, 64), "crc32 of eight bytes");
  uint64 hiacc = ((uint64)ru() << 32) | acc;
  CK(intrinsic_mm_crc32_u64(hiacc, v) == ref_crc(acc, v, 64), "crc32 of eight bytes with junk in the upper half");
  unsigned __int128 a = (unsigned __int128)ru() << 64 | ru(), b = (unsigned __int128)ru() << 64 | ru();
  CK(u128(intrinsic_mm_xor_si128(m128(a), m128(b))) == (a ^ b), "128-bit exclusive or");
  CK(u128(intrinsic_mm_clmulepi64_si128_0(m128(a), m128(b))) == ref_clmul((uint64)a, (uint64)b), "carry-less product of the low halves");
  CK(u128(intrinsic_mm_clmulepi64_si128_16(m128(a), m128(b))) == ref_clmul((uint64)a, (uint64)(b >> 64)), "carry-less product of low and high half");
  CK(bitxor32((uint32)v, acc) == ((uint32)v ^ acc) && bitxor64(v, hiacc) == (v ^ hiacc), "exclusive or");
  uint64 n = 2 + rng.below(20); vector<uint64> xs(n); for (auto& x : xs) x = ru();
  DafnySequence<uint64> s(xs); uint32 i = rng.below(n - 1);
  CK(u128(intrinsic_mm_loadu_si128(s, i)) == ((unsigned __int128)xs[i + 1] << 64 | xs[i]), "128-bit load");
  CK(u128(intrinsic_mm_cvtepu32_epi64(m128(a))) == ((unsigned __int128)(uint32)(a >> 32) << 64 | (uint32)a), "widening of two 32-bit integers");
  CK(u128(intrinsic_mm_cvtsi64_si128(v)) == v && intrinsic_mm_cvtsi128_si64(m128(a)) == (uint64)a, "64/128-bit conversion");
  uint64 y = ru(); CK(NativeArithmetic_Compile::u64add(v, y) == v + y, "64-bit addition");
  ev["bit operations"]++;
}
static uint64_t live = 0;
struct Tok { uint64 v = 0; };
static Tuple0 tok_free(Tok* t) { live--; delete t; return Tuple0(); }
static Tuple0 tok_free_env(Tok* t, uint64 e) { if (e != 77) bad("the environment of a destructor was changed"); live--; delete t; return Tuple0(); }
static void linear_run() {
  using namespace LinearExtern;
  bool wide = rng.chance(1, 60);
  uint64 n = wide ? rng.below(9000) : rng.below(20), init = ru();
  auto s = rng.chance(1, 4) ? seq_empty<uint64>() : seq_alloc<uint64>(n, init);
  vector<uint64> m(s->size() == 0 && n ? 0 : n, init);
  CK(seq_length<uint64>(s) == m.size(), "length of a new linear sequence");
  for (int k = rng.below(40); k > 0; k--) {
    if (rng.chance(1, 6)) { uint64 l = wide ? rng.below(9000) : rng.below(40); uint64 old = m.size(); s = TrustedRuntimeSeqResize<uint64>(s, l); m.resize(l); CK(seq_length<uint64>(s) == l, "resize of a linear sequence"); for (uint64 i = old; i < l; i++) { m[i] = ru(); s = seq_set<uint64>(s, i, m[i]); } }
    else if (!m.empty() && rng.chance(1, 2)) { uint64 i = rng.below(m.size()); m[i] = ru(); s = seq_set<uint64>(s, i, m[i]); }
    else for (uint64 i = 0; i < m.size(); i++) CK(seq_get<uint64>(s, i) == m[i], "element " + to_string(i) + " of a linear sequence");
  }
  if (rng.chance(1, 2)) seq_free<uint64>(s);
  else { auto u = seq_unleash<uint64>(s); bool ok = u.size() == m.size(); for (uint64 i = 0; ok && i < m.size(); i++) ok = u.ptr()[i] == m[i]; CK(ok, "a linear sequence turned into an ordinary one"); }
  // sequences of linear elements: every element is held exactly once
  uint64 ln = wide ? rng.below(600) : rng.below(12);
  auto ls = lseq_alloc_raw<Tok*>(ln);
  vector<Tok*> lm(ln, nullptr);
  CK(lseq_length_raw<Tok*>(ls) == ln, "length of a new sequence of linear elements");
  for (int k = rng.below(60); k > 0; k--) {
    if (rng.chance(1, 8)) { uint64 l = ln + rng.below(6); if (rng.chance(1, 3)) { l = ln; while (l && !lm[l - 1]) l--; } ls = TrustedRuntimeLSeqResize<Tok*>(ls, l); lm.resize(l, nullptr); ln = l; CK(lseq_length_raw<Tok*>(ls) == l, "resize of a sequence of linear elements"); continue; }
    if (!ln) continue;
    uint64 i = rng.below(ln);
    if (!lm[i]) { Tok* t = new Tok{ru()}; live++; auto r = lseq_swap_raw_fun<Tok*>(ls, i, LinearMaybe::give<Tok*>(t)); ls = r.get<0>(); lm[i] = t; }
    else if (rng.chance(1, 2)) { auto r = lseq_swap_raw_fun<Tok*>(ls, i, LinearMaybe::empty<Tok*>()); ls = r.get<0>(); Tok* t = LinearMaybe::unwrap<Tok*>(r.get<1>()); CK(t == lm[i], "an element taken out of a sequence of linear elements"); if (t == lm[i]) tok_free(t); lm[i] = nullptr; }
    else { Tok* t = new Tok{ru()}; live++; auto r = lseq_swap_raw_fun<Tok*>(ls, i, LinearMaybe::give<Tok*>(t)); ls = r.get<0>(); Tok* o = LinearMaybe::unwrap<Tok*>(r.get<1>()); CK(o == lm[i], "an element swapped out of a sequence of linear elements"); tok_free(lm[i]); lm[i] = t; }
    for (uint64 j = 0; j < ln; j++) if (lm[j]) CK(LinearMaybe::peek<Tok*>(lseq_share_raw<Tok*>(ls, j)) == lm[j], "a borrowed element of a sequence of linear elements");
  }
  for (auto t : lm) if (t) tok_free(t);
  lseq_free_raw<Tok*>(ls);
  CK(live == 0, "linear elements lost or duplicated");
  // boxes
  { using namespace LinearBox_s; uint64 cur = ru(); SwapAffine<uint64> b(cur); for (int k = rng.below(6); k > 0; k--) { CK(b.Borrow() == cur, "contents of a box"); uint64 v = ru(); CK(b.Swap(v) == cur, "value swapped out of a box"); cur = v; } }
  { using namespace LinearBox_s; Tok* cur = new Tok; live++;
    { bool env = rng.chance(1, 2); SwapLinear<Tok*> b(cur, env ? ToDestructorEnv<Tok*, uint64>(tok_free_env, 77) : ToDestructor<Tok*>(tok_free));
      for (int k = rng.below(6); k > 0; k--) { CK(b.Borrow() == cur, "contents of an owning box"); Tok* v = new Tok; live++; Tok* o = b.Swap(v); CK(o == cur, "value swapped out of an owning box"); tok_free(o); cur = v; } }
    CK(live == 0, "an owning box must destroy what it holds exactly once"); }
  ev["linear sequence histories"]++;
}
static void misc_run() {
  uint64 seed = ru(), x = seed; LinearCongruentialGenerator_Compile::LCG g(seed), h(seed);
  for (int i = 0; i < 20; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; uint64 a = g.next(); CK(a == x, "pseudo-random sequence of seed " + to_string(seed)); CK(h.next() == a, "pseudo-random sequence is not reproducible"); }
  DafnyMap<uint64, uint64> m; for (int i = rng.below(10); i > 0; i--) m.map[rng.below(12)] = ru();
  auto before = m; uint64 k = rng.below(12); auto r = MapRemove__s_Compile::ComputeMapRemove1(m, k); auto want = m; want.map.erase(k);
  CK(r == want && m == before, "removal of one key from a map");
  ev["other primitives"]++;
}
int main(int argc, char** argv) {
  return hmain(argc, argv, [](const string&, uint64_t) { cmp_run(); arrays_run(); pack_run(); bits_run(); linear_run(); misc_run(); });
}
