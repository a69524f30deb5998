// Shared by the harnesses: reporting, random numbers, main loop.
#pragma once
#include "DafnyRuntime.h"
#include <unistd.h>
#include <csignal>
#include <chrono>
#include <list>
#include <set>
#include <map>
#include <deque>
#include <exception>
#define FREED_ALL (void)0
#ifdef HLEAK
#undef FREED_ALL
#define FREED_ALL freed_all = true
static int64_t live_allocs; static bool freed_all;
void* operator new(size_t n) { live_allocs++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { live_allocs--; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
typedef std::vector<uint8_t> Bytes;
template <size_t i, typename... Ts> const auto& get(const Tuple<Ts...>& x) { return std::get<i>(x.t); }
static std::map<std::string, uint64_t> ev;
static std::vector<std::string> violations, samples;
static std::string ctx; static uint64_t stepno, evaluations, distinct_n;
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
template <typename B> static std::string hex(const B& s) { std::string r; for (unsigned char c : s) { char b[4]; snprintf(b, 4, "%02x", c); r += b; if (r.size() > 60) { r += ".."; break; } } return r + "(" + std::to_string(s.size()) + ")"; }
struct RunAborted {};
static bool aborting;
[[noreturn]] static void bad(const std::string& what) {
  if (!aborting) violations.push_back(what + " [" + ctx + " step=" + std::to_string(stepno) + "]");
  aborting = true;
  throw RunAborted();
}
#define CK(cond, what) do { evaluations++; if (!(cond)) bad(what); } while (0)
[[noreturn]] static void emit_result() {
  using namespace std;
  string o = "RESULT {\"evaluations\": " + to_string(evaluations) + ", \"distinct\": " + to_string(distinct_n) + ", \"events\": {";
  bool f = true;
  for (auto& e : ev) { o += string(f ? "" : ", ") + "\"" + esc(e.first) + "\": " + to_string(e.second); f = false; }
  o += "}, \"samples\": [";
  f = true; for (auto& s : samples) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"violations\": [";
  f = true; for (auto& s : violations) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"cov\": [";
  f = true; for (int i = 0; i < 8192; i++) if (dfy_cov[i]) { o += string(f ? "" : ",") + to_string(i); f = false; }
  o += "]}\n";
  fflush(stdout);
  size_t n = 0; while (n < o.size()) { ssize_t k = write(1, o.data() + n, o.size() - n); if (k <= 0) break; n += k; }
  _exit(0);
}
struct Rng {
  uint64_t s = 0;
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint64_t a, uint64_t b) { return below(b) < a; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
};
static Rng rng;
static void h_trap(const char* kind, const char* loc) {
  if (!aborting) violations.push_back(std::string("run-time failure: ") + kind + " at " + loc + " [" + ctx + " step=" + std::to_string(stepno) + "]");
  aborting = true;
  throw RunAborted();
}
static DafnySequence<uint8> dseq(const Bytes& v) { DafnySequence<uint8> r((uint64)v.size()); std::copy(v.begin(), v.end(), r.start); return r; }
template <typename T> static DafnySequence<T> dseqv(const std::vector<T>& v) { return DafnySequence<T>(v); }
static Bytes byt(const DafnySequence<uint8>& s) { return Bytes(s.ptr(), s.ptr() + s.size()); }
template <typename T> static std::vector<T> vec(const DafnySequence<T>& s) { return std::vector<T>(s.ptr(), s.ptr() + s.size()); }

// usage: h MODE SEED SECS [RUN]
template <typename F> static int hmain(int argc, char** argv, F f) {
  using namespace std;
  string mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10), secs = strtoull(argv[3], 0, 10), only = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
  dfy_trap_hook = h_trap;
  set_terminate([] { if (!aborting) violations.push_back("terminate called [" + ctx + "]"); emit_result(); });
  auto t0 = chrono::steady_clock::now();
  auto left = [&] { return chrono::duration<double>(chrono::steady_clock::now() - t0).count() < secs; };
  for (uint64_t k = 0; left() && violations.size() < 3; k++) {
    if (only && k + 1 != only) { if (k + 1 > only) break; continue; }
    rng.s = seed * 1000003 + k; stepno = 0; aborting = false;
    dfy_ticks = 0; dfy_tick_limit = 2000000000ull;
    ctx = "mode=" + mode + " seed=" + to_string(seed) + " run=" + to_string(k + 1);
    distinct_n++; ev["runs"]++;
#ifdef HLEAK
    int64_t live0 = live_allocs; freed_all = false; size_t ev0 = ev.size();
#endif
    try { f(mode, k); } catch (RunAborted&) {}
#ifdef HLEAK
    if (!aborting && freed_all && violations.empty() && k >= 8 && ev.size() == ev0) { ev["leak checks"]++; if (ev.size() == ev0 && live_allocs > live0) violations.push_back(std::to_string(live_allocs - live0) + " allocations were never given back although everything was freed [" + ctx + "]"); }
#endif
    if (samples.size() < 4) samples.push_back(ctx + " steps=" + to_string(stepno));
  }
  emit_result();
}
