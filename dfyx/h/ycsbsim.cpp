// Y01: runs the real benchmark driver (ycsb/YcsbMain.cpp, ycsb/wrappers) over stand-ins of the workload
// generator, the stores, the histograms and the clock, and judges what it asked of the store against what
// the generator handed out.
#include "ycsb/sim.h"
#include <chrono>
#include <csetjmp>
#include <iostream>
#include <set>
#include <sstream>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
using std::string; using std::to_string; using std::vector;
extern "C" int ycsb_main(int argc, char** argv);
vector<Ev> trace; int64_t sim_ns;
static uint64_t rs; static std::map<string, uint64_t> ev; static vector<string> violations, samples;
static uint64_t evaluations, distinct_n; static string ctx; static bool aborting; static vector<string> commands;
static jmp_buf out_of_main; static int exit_code;
struct RunAborted {};
static void bad(const string& w) { if (!aborting) violations.push_back(w + " [" + ctx + "]"); aborting = true; throw RunAborted(); }
#define CK(c, w) do { evaluations++; if (!(c)) bad(w); } while (0)
uint64_t sim_rand(uint64_t n) { rs += 0x9e3779b97f4a7c15ULL; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31; return n ? z % n : 0; }
static int slowness; static size_t limit;
void sim_log(char k, const string& a, const string& b, int64_t n, bool slow) {
  if (trace.size() > limit) { exit_code = -999; longjmp(out_of_main, 1); }
  Ev e{k, a, b, n, sim_ns, sim_ns};
  if (slow) { uint64_t r = sim_rand(1000); sim_ns += slowness == 0 ? sim_rand(3000) : r < 900 ? sim_rand(50000) : r < 995 ? sim_rand(30000000) : sim_rand(2500000000u); }
  e.t1 = sim_ns; trace.push_back(e);
}
static int64_t tick() { sim_ns += 20 + sim_ns % 7; return sim_ns; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(1000000000000 + tick())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<system_clock::duration>(nanoseconds(1700000000000000000 + tick()))); }
} } }
extern "C" void __wrap_exit(int c) { exit_code = c; longjmp(out_of_main, 1); }
extern "C" void __wrap_abort() { exit_code = 134; longjmp(out_of_main, 1); }
extern "C" void __wrap___assert_fail(const char*, const char*, unsigned, const char*) { exit_code = 134; longjmp(out_of_main, 1); }
static int64_t fail_in = -1;
bool sim_fail() { if (fail_in < 0 || fail_in-- > 0) return false; sim_log('X'); return true; }
extern "C" int __wrap_system(const char* c) { commands.push_back(c); return 0; }
static double realtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string esc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

#if defined(_YCSB_VERIBETRFS)
static const char* STORE = "veribetrkv";
#elif defined(_YCSB_ROCKS)
static const char* STORE = "rocksdb";
#elif defined(_YCSB_KYOTO)
static const char* STORE = "kyotodb";
#else
static const char* STORE = "berkeleydb";
#endif
struct Spec { string file, name, text; int rec, ops, ms, sops, mix, fields; bool rall, wall; };
static const char* OPN[] = {"insert", "read", "update", "scan", "readmodifywrite"};
static int fdout; static string dir;

static void one(uint64_t k) {
  trace.clear(); commands.clear(); sim_ns = sim_rand(1000000); exit_code = 0;
  bool nop = !sim_rand(9), verbose = !sim_rand(6), pre = !sim_rand(4), filt = !sim_rand(4);
  int nf = 1 + sim_rand(4); if (pre && nf == 1 && sim_rand(3)) nf = 2;
  fail_in = sim_rand(8) ? -1 : sim_rand(3) ? (int64_t)sim_rand(200) : (int64_t)sim_rand(3);
  slowness = sim_rand(4); limit = 20000;
  bool odd = !sim_rand(4); // some file asks for what the driver does not support
  vector<Spec> sp;
  for (int i = 0; i < nf; i++) {
    Spec s; s.file = dir + "/w" + to_string(i) + ".spec"; s.rec = sim_rand(5) ? sim_rand(60) : sim_rand(3); s.ops = sim_rand(6) ? sim_rand(250) : sim_rand(4);
    s.ms = sim_rand(2) ? 0 : sim_rand(3) ? 1 + sim_rand(200) : 1; s.sops = sim_rand(2) ? 0 : 1 + sim_rand(sim_rand(2) ? 5 : 60);
    s.mix = sim_rand(2) ? 31 : 1 + sim_rand(31); if (odd) s.mix = 1 << sim_rand(5);
    s.fields = odd && !sim_rand(3) ? sim_rand(2) * 2 : 1; s.rall = !(odd && !sim_rand(3)); s.wall = !(odd && !sim_rand(3));
    if (s.fields == 0) s.fields = 3;
    vector<string> l{"recordcount=" + to_string(s.rec), "operationcount=" + to_string(s.ops)};
    s.name = s.file;
    if (sim_rand(3)) { s.name = "wl-" + to_string(sim_rand(1000)) + "-" + to_string(i); l.push_back("workloadname=" + s.name); }
    if (s.ms || !sim_rand(3)) l.push_back("syncintervalms=" + to_string(s.ms));
    if (s.sops || !sim_rand(3)) l.push_back("syncintervalops=" + to_string(s.sops));
    if (s.mix != 31) l.push_back("mix=" + to_string(s.mix));
    if (s.fields != 1 || !sim_rand(2)) l.push_back("fieldcount=" + to_string(s.fields));
    if (!s.rall || !sim_rand(2)) l.push_back(string("readallfields=") + (s.rall ? "true" : "false"));
    if (!s.wall || !sim_rand(2)) l.push_back(string("writeallfields=") + (s.wall ? "true" : "false"));
    for (size_t a = l.size(); a > 1; a--) std::swap(l[a - 1], l[sim_rand(a)]);
    if (!sim_rand(2)) l.insert(l.begin(), "# a comment");
    for (auto& x : l) s.text += x + "\n";
    FILE* f = fopen(s.file.c_str(), "w"); fputs(s.text.c_str(), f); fclose(f); sp.push_back(s);
  }
  string dbf = dir + "/store-" + to_string(sim_rand(1000));
  vector<string> args{"ycsb", dbf}, fl;
  if (nop) fl.push_back("--nop"); if (verbose) fl.push_back("--verbose"); if (pre) fl.push_back("--preloaded");
#ifdef _YCSB_ROCKS
  if (filt) fl.push_back("--filters");
#endif
  for (size_t a = fl.size(); a > 1; a--) std::swap(fl[a - 1], fl[sim_rand(a)]);
  for (auto& x : fl) args.push_back(x);
  for (auto& s : sp) args.push_back(s.file);
  if (samples.size() < 4) { string t; for (auto& a : args) t += a.substr(a.rfind('/') + 1) + " "; samples.push_back(t + "rec=" + to_string(sp[0].rec) + " ops=" + to_string(sp.back().ops)); }
  vector<char*> av; for (auto& a : args) av.push_back(&a[0]); av.push_back(nullptr);
  // what it prints is collected from descriptor 1, whatever stream it goes through
  ftruncate(fdout, 0); lseek(fdout, 0, SEEK_SET);
  std::ostringstream errs; auto* oe = std::cerr.rdbuf(errs.rdbuf());
  volatile bool exited = false; volatile int rc = 0;
  if (setjmp(out_of_main) == 0) rc = ycsb_main(av.size() - 1, av.data()); else exited = true;
  std::cout.flush(); fflush(stdout); std::cerr.rdbuf(oe);
  struct stat st; fstat(fdout, &st); string outp(st.st_size, 0); pread(fdout, &outp[0], outp.size(), 0);
  if (exit_code == -999) bad("the driver was still busy after " + to_string(limit) + " events");
  CK(!exited || exit_code != 0, "the driver gave up and reported success");
  for (size_t i = 0; i < trace.size(); i++) if (trace[i].k == 'X') {
    CK(exited && exit_code != 0, "the driver reports success although the store failed");
    for (size_t j = i + 1; j < trace.size(); j++) CK(!strchr("qwsyeOFZ", trace[j].k), "the driver goes on although the store failed");
    ev["store failures noticed"]++; return;
  }
  vector<string> lines; { std::istringstream is(outp); string l; while (std::getline(is, l)) if (l.find("latency_") != string::npos || l.find("[step]") != string::npos) lines.push_back(l); }

  // The database is opened once, and created exactly when it is not preloaded.
  int opened = 0, made = 0; for (auto& e : trace) { if (e.k == 'F') { opened++; CK(e.a == dbf, "the store opened is not the one named"); } if (e.k == 'M' && e.a != "") { made++; CK(e.a == dbf, "the store created is not the one named"); CK(!opened, "the store is created after it was opened"); } }
#ifdef _YCSB_ROCKS
  for (auto& e : trace) if (e.k == 'F') CK((e.b == "filters") == filt, filt ? "the store is opened without filters" : "the store is opened with filters");
#endif
  CK(opened == 1, "the store was opened " + to_string(opened) + " times");
  CK(made == !pre, pre ? "the store is created although it is preloaded" : "the store is not created although it is not preloaded");
  ev[pre ? "preloaded stores" : "created stores"]++;
  // Cut the trace at the workloads.
  vector<std::pair<size_t, size_t>> seg; for (size_t i = 0; i < trace.size(); i++) if (trace[i].k == 'I') { if (seg.size()) seg.back().second = i; seg.push_back({i, trace.size()}); }
  for (size_t i = 0; i < (seg.empty() ? trace.size() : seg[0].first); i++) CK(!strchr("qwsye", trace[i].k), "the store was used before any workload started");
  CK(exited || seg.size() == sp.size(), "of " + to_string(sp.size()) + " workloads " + to_string(seg.size()) + " were started");
  for (size_t w = 0; w < seg.size(); w++) {
    CK(w < sp.size(), "more workloads were started than named");
    Spec& s = sp[w]; auto [b, e] = seg[w]; string in = (w ? "run " : "load ") + to_string(w) + ": ";
    if (e > b && trace[e - 1].k == 'Z') e--;
    string want; { std::istringstream is(s.text); string l; while (std::getline(is, l)) if (l.substr(0, 13) == "workloadname=") want = l.substr(13); }
    CK(trace[b].a == want, in + "the workload file started is not the one named");
    CK(w == 0 || trace[b].n == 1, in + "the generator is reset between the workloads");
    bool last = w + 1 == seg.size() && exited;
    if (pre && w == 0) { bool adv = false; for (size_t i = b; i < e; i++) { CK(!strchr("qwsyeO", trace[i].k), in + "the load phase of a preloaded store touches it"); adv |= trace[i].k == 'A'; } CK(adv, in + "the generator does not learn that the records are there"); ev["load phases skipped"]++; continue; }
    int64_t dirty = 0, since = 0, done = 0, count[5] = {}, sum[5] = {}, hi[5] = {}, syncs = 0, ssum = 0, shi = 0, lsync = 0; bool fullEnd = false;
    vector<int64_t> when; // moments at which the operations were complete
    int64_t start = trace[b].t0, ldone = start; bool began = false;
    size_t i = b + 1;
    auto wcall = [&](size_t& j, const string& key, const string& val, int64_t& dur) {
      CK(j < e && trace[j].k == 'w', in + "a write did not reach the store");
      CK(trace[j].a == key, in + "a write went to key '" + trace[j].a + "' instead of '" + key + "'"); CK(trace[j].b == val, in + "a value written is not the one generated");
      dur += trace[j].t1 - trace[j].t0; j++; };
    if (w == 0) {
      string key, val; bool hk = false, hv = false; int64_t lsum = 0, lhi = 0; 
      for (; i < e;) {
        char kk = trace[i].k;
        if (kk == 'K') { CK(!hk, in + "a generated key was dropped"); CK(trace[i].b == "S", in + "a record of the load has a key that is not the next one of the sequence"); key = trace[i].a; hk = true; i++; }
        else if (kk == 'V') { CK(!hv, in + "a generated value was dropped"); val = trace[i].b.empty() ? trace[i].a : trace[i].b; hv = true; i++; }
        else if (kk == 'w') { CK(!nop, in + "the store is written although it is not to be used"); CK(hk && hv, in + "a write that no record asked for"); int64_t d = 0; wcall(i, key, val, d); lsum += d; lhi = std::max(lhi, d); done++; dirty = 1; hk = hv = false; ldone = trace[i - 1].t1; when.push_back(ldone); fullEnd = false; }
        else if (kk == 'y') { CK(!nop, in + "the store is synced although it is not to be used"); dirty = 0; fullEnd = trace[i].a == "g"; ssum += trace[i].t1 - trace[i].t0; ldone = trace[i].t1; i++; }
        else { CK(!strchr("qs", kk), in + "the load reads from the store"); i++; }
        if (nop && hk && hv) { hk = hv = false; done++; when.push_back(trace[i - 1].t1); }
      }
      if (last) { CK(s.fields != 1, in + "the driver gave up on a workload it supports"); CK(done == 0 || nop, in + "a record of several fields was written"); ev["unsupported workloads refused"]++; return; }
      CK(s.fields == 1 || s.rec == 0, in + "a record of several fields was taken for one of one field");
      CK(done == s.rec && !hk, in + to_string(s.rec) + " records are to be loaded, " + to_string(done) + " were");
      if (!nop) CK(!dirty && fullEnd || s.rec == 0, in + "the load does not end with everything synced");
      ev["load phases"]++; ev["records loaded"] += done;
      // report
      int64_t cc = 0, cs = 0, ch = -1;
      for (auto& l : lines) { char nm[300]; unsigned long long v, n; double fr; if (sscanf(l.c_str(), "%299s latency_ccdf load %llu %lf %llu", nm, &v, &fr, &n) == 4 && nm == s.name) { cc = n; cs = v; } if (sscanf(l.c_str(), "%299s latency_summary load %lf %llu", nm, &fr, &v) == 3 && nm == s.name) ch = v; }
      CK(cc == done, in + to_string(done) + " inserts are reported as " + to_string(cc));
      CK(cs >= lsum && cs <= lsum + 500 * done, in + "the reported latencies of the load do not add up to the time it took");
      if (done) CK(ch >= lhi && ch <= lhi + 500, in + "the reported maximal latency of the load is wrong");
      for (auto& l : lines) {
        char nm[300]; double t; long long ms, n; 
        if (sscanf(l.c_str(), "[step] %299s load throughput %lf", nm, &t) == 2 && nm == s.name) { ev["throughput reports"]++; double dur = (lsum + ssum) * 1e-9; if (dur > 1e-3) CK(t * dur >= s.rec * 0.97 && t * dur <= s.rec * 1.03, in + "the reported throughput is wrong: " + l); }
        if (sscanf(l.c_str(), "[step] %299s load end %lld ms", nm, &ms) == 2 && nm == s.name) { double dur = (lsum + ssum) * 1e-6; CK(ms >= dur - 1.1 && ms <= dur + 2 + 0.001 * s.rec, in + "the reported duration of the load is wrong: " + l); ev["duration reports"]++; }
        if (sscanf(l.c_str(), "[step] %299s load progress %lld ms %lld", nm, &ms, &n) == 3 && nm == s.name) { int64_t lo = 0, hi2 = 0; for (int64_t x : when) { lo += x < start + (ms - 1) * 1000000; hi2 += x <= start + (ms + 1) * 1000000 + 100000; } CK(n >= lo - 1 && n <= hi2 + 1, in + "wrong progress report: " + l); ev["progress reports"]++; }
      }
    } else {
      int64_t runStart = -1, sinceSyncT = 0; int64_t otherdb = 0;
      while (i < e && trace[i].k != 'O') { CK(!strchr("qwsy", trace[i].k), in + "the store is used before the first operation"); i++; }
      runStart = i < e ? trace[i].t0 : trace[b].t0; sinceSyncT = runStart; bool gaveup = false;
      while (i < e) {
        CK(trace[i].k == 'O', in + "the store is used between the operations");
        int kind = trace[i].n; bool isw = kind == 0 || kind == 2 || kind == 4; i++;
        string key, val; int nk = 0, nv = 0, nl = 0, calls = 0, writes = 0; int64_t len = 0, dur = 0; string on = in + string(OPN[kind]) + ": ";
        while (i < e && strchr("KVLqwsA", trace[i].k)) {
          Ev& x = trace[i];
          if (x.k == 'K') { key = x.a; nk++; } else if (x.k == 'V') { val = x.a; nv++; } else if (x.k == 'L') { len = x.n; nl++; }
          else if (x.k != 'A') {
            CK(!nop, on + "the store is used although it is not to be"); calls++; dur += x.t1 - x.t0;
            if (x.k == 'q') { CK(kind == 1 || kind == 4, on + "a read that was not asked for"); CK(x.a == key, on + "the key read is '" + x.a + "', not '" + key + "'"); CK(kind == 4 ? !writes : calls == 1, on + "the store is read again"); }
            if (x.k == 'w') { CK(isw, on + "a write that was not asked for"); CK(!writes, on + "the store is written twice"); writes++; CK(x.a == key, on + "the key written is '" + x.a + "', not '" + key + "'"); CK(x.b == val, on + "the value written is not the one generated"); }
            if (x.k == 's') { CK(kind == 3, on + "a scan that was not asked for"); CK(calls == 1, on + "the store is scanned again");
#ifdef _YCSB_VERIBETRFS
              CK(x.a == key, on + "the scan starts at the wrong key"); CK(x.b == "", on + "the scan leaves out the key it starts from"); CK(x.n == len, on + "the scan asks for " + to_string(x.n) + " entries, not " + to_string(len));
#else
              int64_t av = atoll(x.b.c_str()), m = std::min(av, len);
#ifndef _YCSB_BERKELEYDB
              CK(x.a == key, on + "the scan starts at the wrong key");
#endif
              CK(x.n <= m && x.n >= m - 1, on + "the scan steps over " + to_string(x.n) + " entries; asked for " + to_string(len) + ", there are " + to_string(av));
#endif
            }
          }
          i++;
        }
        bool reads = kind == 1, wall = kind == 2 || kind == 4;
        if (last && i >= e && (nop || !calls)) { gaveup = true; 
          bool why = (reads && !s.rall) || (wall && !s.wall) || (isw && s.fields != 1) || (kind == 3 && (!s.wall || !s.rall));
          CK(why, on + "the driver gave up on a workload it supports"); ev["unsupported workloads refused"]++; break; }
        CK(!(reads && !s.rall), on + "a read of some of the fields was done as one of all"); CK(!(wall && !s.wall), on + "a write of some of the fields was done as one of all"); CK(!(isw && s.fields != 1), on + "a record of several fields was taken for one of one field");
        CK(nk == 1, on + to_string(nk) + " keys were drawn");
        if (isw) CK(nv == 1, on + to_string(nv) + " values were drawn"); if (kind == 3) CK(nl == 1, on + to_string(nl) + " scan lengths were drawn");
        if (!nop) { if (kind == 1) CK(calls == 1, on + "the read did not reach the store"); if (isw) CK(writes == 1, on + "the write did not reach the store"); if (kind == 3) CK(calls == 1, on + "the scan did not reach the store"); }
        done++; since++; count[kind]++; sum[kind] += dur; hi[kind] = std::max(hi[kind], dur); int64_t now = trace[i - 1].t1; when.push_back(now); if (isw) dirty++; ev[OPN[kind]]++;
        bool due = dirty && ((s.sops && since >= s.sops + 1) || (s.ms && now > sinceSyncT + s.ms * 1000000ll + 2000)), early = !s.sops && !s.ms;
        bool synced = i < e && trace[i].k == 'y';
        if (!nop && due && done < s.ops) { CK(synced, on + "no sync although writes have waited for " + to_string(since) + " operations and " + to_string((now - sinceSyncT) / 1000) + " us (limits " + to_string(s.sops) + ", " + to_string(s.ms) + " ms)"); ev["syncs when due"]++; }
        while (i < e && trace[i].k == 'y') {
          CK(!nop, in + "the store is synced although it is not to be used"); CK(dirty, in + "a sync although nothing was written");
          CK(done == s.ops || (s.sops && since >= s.sops) || (s.ms && now + 2000 > sinceSyncT + s.ms * 1000000ll), in + "a sync after " + to_string(since) + " operations and " + to_string((now - sinceSyncT) / 1000) + " us, before either interval is over (" + to_string(s.sops) + ", " + to_string(s.ms) + " ms)");
          int64_t d = trace[i].t1 - trace[i].t0; syncs++; ssum += d; shi = std::max(shi, d); dirty = 0; since = 0; sinceSyncT = trace[i].t1; i++; (void)early;
        }
      }
      if (gaveup) return;
      CK(!last, in + "the driver gave up on a workload it supports");
      CK(done == s.ops, in + to_string(s.ops) + " operations are to be run, " + to_string(done) + " were");
      if (!nop) { CK(!dirty, in + "the run ends with writes that were not synced"); if (syncs) ev["final state synced"]++; }
      ev["run phases"]++; if (nop) ev["phases without a store"]++;
      // report
      for (int o = 0; o < 6; o++) {
        string on = o < 5 ? OPN[o] : "sync"; int64_t n0 = o < 5 ? count[o] : syncs, s0 = o < 5 ? sum[o] : ssum, h0 = o < 5 ? hi[o] : shi, cc = 0, cs = 0, ch = -1;
        if (o == 5 && nop) continue;
        for (auto& l : lines) { char nm[300], p[40]; unsigned long long v, n; double fr; if (sscanf(l.c_str(), "%299s latency_ccdf %39s %llu %lf %llu", nm, p, &v, &fr, &n) == 5 && nm == s.name && p == on) { cc += n; cs += v; } if (sscanf(l.c_str(), "%299s latency_summary %39s %lf %llu", nm, p, &fr, &v) == 4 && nm == s.name && p == on) ch = v; }
        CK(cc == n0, in + to_string(n0) + " x " + on + " is reported as " + to_string(cc)); CK(cs >= s0 && cs <= s0 + 500 * n0, in + "the reported latencies of " + on + " do not add up to the time it took");
        if (n0) { CK(ch >= h0 && ch <= h0 + 500, in + "the reported maximal latency of " + on + " is wrong"); ev["latency reports"]++; }
      }
      double tot = ssum; for (int o = 0; o < 5; o++) tot += sum[o];
      for (auto& l : lines) {
        char nm[300]; double t; long long ms, n;
        if (sscanf(l.c_str(), "[step] %299s run throughput %lf", nm, &t) == 2 && nm == s.name) { ev["throughput reports"]++; double d = tot * 1e-9; if (d > 1e-3) CK(t * d >= s.ops * 0.97 && t * d <= s.ops * 1.03, in + "the reported throughput is wrong: " + l); }
        if (sscanf(l.c_str(), "[step] %299s run progress %lld ms %lld", nm, &ms, &n) == 3 && nm == s.name) { int64_t lo = 0, h2 = 0; for (int64_t x : when) { lo += x < runStart + (ms - 1) * 1000000; h2 += x <= runStart + (ms + 1) * 1000000 + 100000; } CK(n >= lo - 1 && n <= h2 + 1, in + "wrong progress report: " + l); ev["progress reports"]++; }
      }
    }
    for (size_t a = 0, z; a < s.text.size(); a = z + 1) { z = s.text.find('\n', a); CK(outp.find("metadata workload " + s.text.substr(a, z - a) + "\n") != string::npos, in + "the log does not hold the workload's line " + s.text.substr(a, z - a)); }
  }
  CK(!exited, "the driver gave up"); CK(rc == 0, "the driver failed with " + to_string((int)rc));
  if (sp.size() > 2) ev["several runs after one load"]++;
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[2], 0, 10), secs = strtoull(argv[3], 0, 10), only = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
  char t[] = "/tmp/ycsbXXXXXX"; dir = mkdtemp(t);
  int res = dup(1); fdout = memfd_create("out", 0); dup2(fdout, 1); fcntl(1, F_SETFL, O_APPEND);
  double t0 = realtime();
  for (uint64_t k = 0; realtime() - t0 < secs && violations.size() < 3; k++) {
    if (only && k + 1 != only) { if (k + 1 > only) break; continue; }
    rs = seed * 1000003 + k; aborting = false; ctx = string(STORE) + " seed=" + argv[2] + " run=" + to_string(k + 1); distinct_n++; ev["driver runs"]++;
    try { one(k); } catch (RunAborted&) {} catch (std::exception& e) { violations.push_back(string("exception: ") + e.what() + " [" + ctx + "]"); }
  }
  string o = "RESULT {\"evaluations\": " + to_string(evaluations) + ", \"distinct\": " + to_string(distinct_n) + ", \"events\": {"; bool f = true;
  for (auto& e : ev) { o += string(f ? "" : ", ") + "\"" + esc(e.first) + "\": " + to_string(e.second); f = false; }
  o += "}, \"samples\": ["; f = true; for (auto& s : samples) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"violations\": ["; f = true; for (auto& s : violations) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"cov\": []}\n";
  for (size_t n = 0; n < o.size();) { ssize_t k = write(res, o.data() + n, o.size() - n); if (k <= 0) break; n += k; }
  for (int i = 0; i < 4; i++) unlink((dir + "/w" + to_string(i) + ".spec").c_str()); rmdir(dir.c_str());
  _exit(0);
}
