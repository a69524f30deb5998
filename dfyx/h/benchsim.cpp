// Y02: runs the real built-in benchmarks and their command line (framework/Benchmarks.cpp, Main.cpp, Application.h's
// byte strings) over a model of the store that loses what was not synced, and judges what they ask, expect and report.
#include "Application.h"
#include "Benchmarks.h"
#include <chrono>
#include <csetjmp>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using std::string; using std::to_string; using std::vector;
extern "C" int vb_main(int argc, char** argv);
void benchmark_start(string const&); void benchmark_end(string const&); void benchmark_append(string const&, long long); void benchmark_dump(); void benchmark_clear();
static uint64_t rs; static std::map<string, uint64_t> ev; static vector<string> violations, samples; static uint64_t evaluations, distinct_n; static string ctx; static bool aborting;
static jmp_buf out_of_main; static int exit_code; static int64_t sim_ns = 1;
struct RunAborted {};
static void bad(const string& w) { if (!aborting) violations.push_back(w + " [" + ctx + "]"); aborting = true; throw RunAborted(); }
#define CK(c, w) do { evaluations++; if (!(c)) bad(w); } while (0)
static uint64_t rnd(uint64_t n) { rs += 0x9e3779b97f4a7c15ULL; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; return n ? z % n : 0; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(1000000000000 + (sim_ns += 3))); }
system_clock::time_point system_clock::now() noexcept { return time_point(nanoseconds(1700000000000000000 + (sim_ns += 3))); }
} } }
static bool in_main;
extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) { if (!in_main) __real_exit(c); exit_code = c; longjmp(out_of_main, 1); }
static double realtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string esc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
// ---- the store: answers are kept as digests; what was not synced is undone by a crash and by opening anew
typedef unsigned __int128 u128;
static uint64_t dig(const uint8* p, size_t n, uint64_t h) { h ^= n * 0x9e3779b97f4a7c15ULL; for (; n >= 8; n -= 8, p += 8) { uint64_t x; memcpy(&x, p, 8); h = (h ^ x) * 0xff51afd7ed558ccdULL; h ^= h >> 29; } for (; n; n--, p++) h = (h ^ *p) * 0xc4ceb9fe1a85ec53ULL; return h ^ h >> 32; }
static uint64_t dig(const ByteString& b, uint64_t h = 7) { return dig(b.seq.ptr(), b.size(), h); }
struct Store { std::unordered_map<uint64_t, uint64_t> m; std::map<string, string> full; bool ordered = true; struct U { uint64_t k; bool had; uint64_t old; string key, oldv; bool hadf; }; vector<U> undo; bool made = false;
  void rollback() { for (size_t i = undo.size(); i--;) { auto& u = undo[i]; if (u.had) m[u.k] = u.old; else m.erase(u.k); if (ordered) { if (u.hadf) full[u.key] = u.oldv; else full.erase(u.key); } } undo.clear(); } };
static std::map<string, Store> disks; static Store* cur;
static vector<string> log_; // M/F/C/Y events
static uint64_t ops, ins, qry, succ, newins, hitq, syncs, crashes, lies; static int64_t lieAt; static bool lied;
struct OpT { int64_t a, b; }; static vector<int64_t> optime; static int64_t firstop;
static const uint64_t EMPTY = dig(ByteString(0));
static void spend() { if (!ops) firstop = sim_ns; sim_ns += rnd(4000); if (!(ops % 4096)) sim_ns += 700000; ops++; optime.push_back(sim_ns); }
void Mkfs(string f) { log_.push_back("M " + f); disks[f] = Store(); disks[f].made = true; }
Application::Application(string f) : filename(f) { log_.push_back("F " + f); CK(disks.count(f) && disks[f].made, "the store " + f + " is opened before it exists"); cur = &disks[f]; cur->rollback(); }
Application::~Application() {}
void Application::initialize() {}
void Application::crash() { crashes++; cur->rollback(); sim_ns += 1000; }
void Application::Sync(bool) { syncs++; cur->undo.clear(); sim_ns += rnd(3000000); }
void Application::EvictEverything() {} void Application::CountAmassAllocations() {}
void Application::Insert(ByteString k, ByteString v) {
  spend(); ins++; uint64_t d = dig(k); auto i = cur->m.find(d); Store::U u{d, i != cur->m.end(), i != cur->m.end() ? i->second : 0, "", "", false}; if (!u.had) newins++;
  if (cur->ordered) { if (cur->m.size() > 120000) { cur->ordered = false; cur->full.clear(); } else { u.key = k.as_string(); auto j = cur->full.find(u.key); u.hadf = j != cur->full.end(); if (u.hadf) u.oldv = j->second; cur->full[u.key] = v.as_string(); } }
  if (!cur->ordered && cur->undo.size() > 600000) { /* still counted, but what a crash would take away is no longer kept */ } else cur->undo.push_back(u);
  cur->m[d] = dig(v);
}
void Application::Insert(string const& k, string const& v) { Insert(ByteString(k), ByteString(v)); }
static uint64_t answer(const ByteString& k) { auto i = cur->m.find(dig(k)); if (i == cur->m.end()) return EMPTY; hitq++; return i->second; }
ByteString Application::Query(ByteString k) { spend(); qry++; answer(k); return ByteString(0); }
ByteString Application::Query(string const& k) { return Query(ByteString(k)); }
void Application::QueryAndExpect(ByteString k, ByteString v) { spend(); qry++; CK(answer(k) == dig(v), "operation " + to_string(ops) + " expects an answer that the operations before it do not give"); }
vector<std::pair<ByteString, ByteString>> Application::Succ(ByteString k, bool inc, uint64 n) {
  spend(); succ++; vector<std::pair<ByteString, ByteString>> r; CK(cur->ordered, "a scan of a store this large was not foreseen");
  auto i = inc ? cur->full.lower_bound(k.as_string()) : cur->full.upper_bound(k.as_string());
  for (; i != cur->full.end() && r.size() < n; ++i) r.push_back({ByteString(i->first), ByteString(i->second)});
  if (lieAt >= 0 && (int64_t)succ > lieAt && !lied && r.size() > 1) {
    lied = true; lies++; size_t x = rnd(r.size());
    switch (rnd(6)) { case 0: r.pop_back(); break; case 1: r.erase(r.begin() + x); break; case 2: { auto s = r[x].second.as_string(); s[rnd(s.size())] ^= 1; r[x].second = ByteString(s); break; }
      case 3: { auto s = r[x].first.as_string(); s[s.size() - 1] ^= 1; r[x].first = ByteString(s); break; } case 4: std::swap(r[0], r[r.size() - 1]); break; case 5: r.push_back(r.back()); break; } }
  return r;
}
static int fdout; static string outp;
static int call(vector<string> args) { // returns the exit status
  vector<char*> av; for (auto& a : args) av.push_back(&a[0]); av.push_back(nullptr);
  ftruncate(fdout, 0); lseek(fdout, 0, SEEK_SET); std::cout.clear();
  log_.clear(); ops = ins = qry = succ = newins = hitq = syncs = crashes = 0; lied = false; optime.clear(); firstop = sim_ns;
  volatile int rc; in_main = true;
  std::exception_ptr ex;
  if (setjmp(out_of_main) == 0) { try { rc = vb_main(av.size() - 1, av.data()); } catch (RunAborted&) { in_main = false; throw; } } else rc = exit_code & 255;
  in_main = false; std::cout.flush(); fflush(stdout);
  struct stat st; fstat(fdout, &st); outp.assign(st.st_size, 0); pread(fdout, &outp[0], outp.size(), 0);
  return rc;
}
struct Rep { string name; double rate; long long ms, n; };
static vector<Rep> reports() { vector<Rep> r; std::istringstream is(outp); string l; while (std::getline(is, l)) { char nm[100], rt[60]; long long ms, n; if (sscanf(l.c_str(), "Benchmark %99[^:]: %59s ops/s, %lld ms, %lld ops", nm, rt, &ms, &n) == 4) r.push_back({nm, strtod(rt, 0), ms, n}); } return r; }
static void judge(const string& b, bool skip, const string& img) {
  auto r = reports(); CK(r.size() == 1, to_string(r.size()) + " results were reported");
  vector<string> want; if (!skip) want.push_back("M " + img); want.push_back("F " + img);
  CK(log_ == want, skip ? "a benchmark that is not to prepare anything formats the store or opens another one" : "the store named is not formatted once and then opened");
  uint64_t n = r[0].n; CK(n > 0 && n <= ops, "reported " + to_string(n) + " operations, there were " + to_string(ops));
  if (skip) CK(ops >= n && ops <= n + n / 1000, b + " reports " + to_string(n) + " operations, it did " + to_string(ops));
  // the measured part is the end of the run
  double lo = optime[ops - 1] - (ops > n + n / 1000 ? optime[ops - n - 1] : firstop), slack = 4e6 * (1 + syncs) + 5000.0 * n / 1000 + 1e6;
  CK(r[0].ms * 1e6 >= lo - slack - lo / 900 && r[0].ms * 1e6 <= lo + slack, b + " took " + to_string(lo * 1e-6) + " ms and reports " + to_string(r[0].ms));
  if (r[0].ms > 0) CK(r[0].rate >= n / (r[0].ms / 1000.0) * 0.99 && r[0].rate <= n / (r[0].ms / 1000.0) * 1.01, b + " reports a wrong rate");
  ev["reports judged"]++;
}
static void run(const string& mode, uint64_t k) {
  sim_ns = 1 + rnd(1000000); disks.clear(); lieAt = -1; benchmark_clear();
  if (mode == "stopwatch") {
    struct W { int64_t ns = 0, n = 0, at = -1; }; std::map<string, W> w; int steps = 1 + rnd(300);
    for (int i = 0; i < steps; i++) {
      string nm = string(1, 'a' + rnd(5)) + (rnd(3) ? "" : " timer");
      switch (rnd(5)) {
        case 0: if (w.count(nm) && w[nm].at >= 0) break; benchmark_start(nm); w[nm].at = sim_ns; break;
        case 1: if (!w.count(nm) || w[nm].at < 0) break; { auto& x = w[nm]; x.ns += sim_ns + 3 - x.at; x.at = -1; x.n++; } benchmark_end(nm); break;
        case 2: { int64_t d = rnd(40000000); benchmark_append(nm, d); w[nm].ns += d; w[nm].n++; break; }
        case 3: sim_ns += rnd(2) ? rnd(30000000) : rnd(3000000000u); break;
        default: if (!rnd(30)) { benchmark_clear(); w.clear(); ev["stopwatches cleared"]++; } else if (!rnd(10)) {
          ftruncate(fdout, 0); lseek(fdout, 0, SEEK_SET); benchmark_dump(); std::cout.flush(); fflush(stdout);
          struct stat st; fstat(fdout, &st); outp.assign(st.st_size, 0); pread(fdout, &outp[0], outp.size(), 0);
          std::map<string, std::pair<long long, long long>> got; std::istringstream is(outp); string l; size_t rows = 0;
          while (std::getline(is, l)) { size_t e = l.rfind(" ms, "); CK(e != string::npos, "unreadable stopwatch line " + l); size_t b = l.rfind(' ', e - 1); got[l.substr(0, b)] = {atoll(l.c_str() + b), atoll(l.c_str() + e + 5)}; rows++; }
          CK(rows == got.size() && rows == w.size(), to_string(w.size()) + " stopwatches, " + to_string(rows) + " reported");
          for (auto& x : w) { CK(got.count(x.first), "stopwatch " + x.first + " is not reported"); auto g = got[x.first]; long long u = x.second.ns / 1000000; CK(g.first >= u - 1 && g.first <= u + 1, "stopwatch " + x.first + " measured " + to_string(u) + " ms and reports " + to_string(g.first)); CK(g.second == x.second.n, "stopwatch " + x.first + " was used " + to_string(x.second.n) + " times and reports " + to_string(g.second)); ev["stopwatches judged"]++; }
        }
      }
    }
    for (auto& x : w) if (x.second.at >= 0) benchmark_end(x.first);
    return;
  }
  if (mode == "command line") {
    string img = rnd(2) ? "x" + to_string(rnd(99)) + ".img" : ""; vector<string> a{"Veribetrfs"}; int kind = rnd(5);
    if (!img.empty() && rnd(2)) a.push_back(img), img = "";
    if (kind == 0) { if (!img.empty()) a.push_back(img); call(a); CK(log_.empty() && !ops, "without a command the store is touched"); CK(outp.find("Usage") != string::npos, "without a command no usage is shown"); }
    else if (kind == 1) { a.push_back(rnd(2) ? "--skip" : rnd(2) ? "-benchmark=replay" : "--benchmarks"); if (rnd(2)) a.insert(a.begin() + 1, "--benchmark=replay"); int rc = call(a); CK(rc != 0 && log_.empty() && !ops, "an argument that does not exist is accepted"); }
    else if (kind == 2) { a.push_back("--benchmark=" + string(rnd(2) ? "replays" : "no-such")); if (rnd(2)) a.push_back("--skip-prepare"); int rc = call(a); CK(rc != 0 && log_.empty() && !ops, "a benchmark that does not exist is accepted"); }
    else { string im = a.size() > 1 ? a[1] : ""; vector<string> f{"--benchmark=replay"}; if (!img.empty()) f.push_back(img), im = img; if (im.empty()) im = ".veribetrfs.img"; if (f.size() > 1 && rnd(2)) std::swap(f[0], f[1]);
      auto g = a; g.insert(g.end(), f.begin(), f.end()); int rc = call(g); CK(rc == 0, "a benchmark failed over a correct store"); judge("replay", false, im);
      g.push_back("--skip-prepare"); if (rnd(2)) std::swap(g.back(), g[1]); if (rnd(4)) { rc = call(g); CK(rc == 0, "a benchmark failed over a store prepared before"); bool moved = g[1] == "--skip-prepare"; (void)moved; judge("replay", true, im); ev["runs over a store prepared before"]++; } }
    ev["command lines"]++; return;
  }
  string img = ".veribetrfs.img"; 
  if (mode == "all") {
    int rc = call({"Veribetrfs", "--all-benchmarks"}); auto r = reports(); CK(rc == 0, "a benchmark failed over a correct store"); CK(r.size() == 3, "of three benchmarks " + to_string(r.size()) + " reported");
    CK(log_ == (vector<string>{"M " + img, "F " + img, "M " + img, "F " + img, "M " + img, "F " + img}), "each benchmark of a series starts from a new store"); ev["complete series"]++; return; }
  string b = mode;
  if (b == "random-succs" && rnd(3)) { lieAt = rnd(900); int rc = call({"Veribetrfs", "--benchmark=" + b}); CK(!lied || rc != 0, "a wrong answer of a scan went unnoticed"); if (lied) ev["wrong answers noticed"]++; return; }
  CK(call({"Veribetrfs", "--benchmark=" + b}) == 0, b + " failed over a correct store");
  judge(b, false, img); ev[b]++; uint64_t total = ops;
  uint64_t n = reports()[0].n;
  if (b == "random-inserts" || b == "long-random-inserts") { CK(ins == ops && newins == ops, b + " does something else than inserting new keys"); CK(syncs && cur->undo.empty(), b + " ends without a sync"); }
  if (b == "random-queries" || b == "big-tree-queries" || b == "simple-test" || b == "random-succs" || b == "replay") CK(crashes, b + " asks a store that still has everything in memory");
  if (b == "big-tree-queries") CK(qry == n && hitq == n, b + " asks for keys that are not there");
  if (b == "random-queries") CK(qry == n && hitq > n / 3 && hitq < n * 2 / 3, b + " asks for keys in the wrong proportion");
  if (b == "random-succs") CK(succ == n, b + " does not scan");
  if (b == "mixed-update-query" || b == "mixed-insert-query") CK(qry == n / 2 && ins == total - qry, b + " mixes in the wrong proportion");
  if (b == "mixed-update-query") CK(hitq == qry && newins == total - n, b + " touches keys that were not prepared");
  if (b == "mixed-insert-query") { CK(newins == ins, b + " inserts keys that are there"); CK(total - n >= n / 10, b + " starts from a store that was not filled"); }
  if (b == "random-inserts" || b == "long-random-inserts" || rnd(2)) return;
  if (total > n + n / 1000) { CK(call({"Veribetrfs", "--benchmark=" + b, "--skip-prepare"}) == 0, b + " failed over a store prepared before"); judge(b, true, img); ev["runs over a store prepared before"]++; }
}
int main(int argc, char** argv) {
  string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10), secs = strtoull(argv[3], 0, 10), only = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
  for (auto& c : mode) if (c == '_') c = ' ';
  int res = dup(1); fdout = memfd_create("out", 0); dup2(fdout, 1); fcntl(1, F_SETFL, O_APPEND);
  std::ostringstream errs; std::cerr.rdbuf(errs.rdbuf());
  double t0 = realtime();
  for (uint64_t k = 0; (!k || realtime() - t0 < secs) && violations.size() < 3; k++) {
    if (only && k + 1 != only) { if (k + 1 > only) break; continue; }
    rs = seed * 1000003 + k; aborting = false; ctx = mode + " seed=" + argv[2] + " run=" + to_string(k + 1); distinct_n++; ev["runs"]++; errs.str("");
    try { run(mode, k); } catch (RunAborted&) { in_main = false; } catch (std::exception& e) { violations.push_back(string("exception: ") + e.what() + " [" + ctx + "]"); }
  }
  samples.push_back(ctx + ": " + to_string(ops) + " operations in the last run");
  string o = "RESULT {\"evaluations\": " + to_string(evaluations) + ", \"distinct\": " + to_string(distinct_n) + ", \"events\": {"; bool f = true;
  for (auto& e : ev) { o += string(f ? "" : ", ") + "\"" + esc(e.first) + "\": " + to_string(e.second); f = false; }
  o += "}, \"samples\": ["; f = true; for (auto& s : samples) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"violations\": ["; f = true; for (auto& s : violations) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"cov\": []}\n";
  for (size_t n = 0; n < o.size();) { ssize_t k = write(res, o.data() + n, o.size() - n); if (k <= 0) break; n += k; }
  _exit(0);
}
