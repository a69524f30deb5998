// Drives the real VeriBetrFS handlers (translated from the repository) against a simulated
// asynchronous disk under random schedules, crashes and read corruption, and checks every
// observable result against an independent sequential model.
#include "Bundle.i.h"
#include "BundleWrapper.h"
#include <unistd.h>
#include <csignal>
#include <csetjmp>
#include <chrono>
#include <malloc.h>
using namespace std;
typedef string Bytes;

uint64_t cfg_node = 2*1024*1024, cfg_journal = 65536, cfg_indtable = 24*1024*1024, cfg_bucket = 2*1024*1024-65536, cfg_cache = 100,
  cfg_children = 8, cfg_blocks = 0x100000, cfg_maxkey = 1024, cfg_maxval = 1024;

// ---- reporting
static map<string, uint64_t> ev;
static vector<string> violations, samples;
static string ctx;            // what run is in progress
static uint64_t stepno;
static chrono::steady_clock::time_point deadline;
struct Overtime {};
static bool overtime() { return chrono::steady_clock::now() > deadline; }
static string where() { return ctx + " step=" + to_string(stepno); }
static set<string> vcats;
static string esc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string hex(const Bytes& s) { string r; for (unsigned char c : s) { char b[4]; snprintf(b, 4, "%02x", c); r += b; if (r.size() > 48) { r += ".."; break; } } return r + "(" + to_string(s.size()) + ")"; }
struct RunAborted {};
static uint64_t distinct_n, runs_n;
static void finish_and_exit(int rc);
static map<string, string> findings;   // recognised defects of the unchanged code: first history seen
static string mode;
[[noreturn]] static void bad(const string& cat, const string& what) {
  if (cat == "LIVE" && mode == "clone") { ev["clone runs cut short without progress"]++; throw RunAborted(); }   // cloning is not reachable from the handlers: only its results are judged
  violations.push_back(cat + ": " + what + " [" + where() + "]");
  vcats.insert(cat);
  throw RunAborted();
}
static void on_trap(const char* kind, const char* loc) { throw make_pair(string(kind), string(loc)); }

// ---- random numbers
struct Rng {
  uint64_t s;
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
};
static Rng rng;

// ---- independent CRC32C (bitwise reflected Castagnoli, table built here)
static uint32_t crct[256];
static void crc_init() { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1; crct[i] = c; } }
static uint32_t crc32c(const uint8_t* p, size_t n) { uint32_t c = ~0u; while (n--) c = crct[(c ^ *p++) & 255] ^ (c >> 8); return ~c; }
static bool checksum_ok(const uint8_t* p, size_t n) {
  if (n < 32) return false;
  for (int i = 4; i < 32; i++) if (p[i]) return false;
  uint32_t c = crc32c(p + 32, n - 32), d; memcpy(&d, p, 4);
  return c == d;
}

// how many nodes are cached or being read, if the state still tells
template <class V> static auto cache_total(V& v, int) -> decltype((uint64_t)v.full->bc.cache.cache.count + v.full->bc.outstandingBlockReads.map.size()) { if (!v.full->bc.is_Ready()) return 0; return (uint64_t)v.full->bc.cache.cache.count + v.full->bc.outstandingBlockReads.map.size(); }
template <class V> static uint64_t cache_total(V&, long) { return 0; }
// ---- simulated disk
typedef array<uint8_t, 4096> Page;
struct Disk {
  unordered_map<uint64_t, shared_ptr<Page>> pages;
  void write(uint64_t a, const uint8_t* p, uint64_t n) {
    while (n) {
      uint64_t pg = a / 4096, off = a % 4096, k = min<uint64_t>(n, 4096 - off);
      auto& q = pages[pg];
      auto nq = make_shared<Page>();
      if (k != 4096) { if (q) *nq = *q; else nq->fill(0); }
      memcpy(nq->data() + off, p, k);
      q = nq; a += k; p += k; n -= k;
    }
  }
  bool read(uint64_t a, uint8_t* p, uint64_t n) const {  // false: some byte was never written
    bool all = true;
    while (n) {
      uint64_t pg = a / 4096, off = a % 4096, k = min<uint64_t>(n, 4096 - off);
      auto i = pages.find(pg);
      if (i == pages.end()) { all = false; memset(p, 0, k); } else memcpy(p, i->second->data() + off, k);
      a += k; p += k; n -= k;
    }
    return all;
  }
};
struct Req { uint64_t id; bool wr; uint64_t addr, len; vector<uint8_t> bytes; bool processed; bool unwritten; uint64_t hold = 0; };
struct Opts {
  bool overlap = true, checksums = true;   // monitors
  int corrupt = 0;                          // per 1000 reads
  int cjournal = 0;                         // the same for reads of the journal, if not 0
  bool ids_random = false;
  int hold = 0;                             // per 1000 requests that the disk keeps for long
};
struct SimWorld {
  Disk disk;
  vector<Req> req;
  Variables vars;
  shared_ptr<MainDiskIOHandler_Compile::DiskIOHandler> io;
  Opts o;
  uint64_t nextid = 0, treew = 0;   // treew: writes of nodes and indirection tables
  Req resp;
  int ops_this_handler = 0;
  bool ready = false;       // some operation has completed since boot: the journal is replayed
  bool looked = false;
  bool corrupted = false;   // some read was corrupted since boot
  Rng wr;                   // randomness of this disk (secondary worlds do not disturb the schedule)
  uint64_t capacity() const { return cfg_node * cfg_blocks; }
  SimWorld(const Disk& d, Opts o, uint64_t seed) : disk(d), o(o) {
    wr.s = seed;
    io = make_shared<MainDiskIOHandler_Compile::DiskIOHandler>(this);
    vars = handle_InitState();
  }
  uint64_t newid(bool) {
    if (!o.ids_random) return nextid++;
    while (true) {
      uint64_t id = wr.chance(1, 2) ? wr.below(24) : wr.next();
      bool used = false;
      for (auto& r : req) used |= r.id == id;
      if (!used) return id;
    }
  }
  void monitor(bool wrq, uint64_t addr, uint64_t len) {
    ev[wrq ? "write requests" : "read requests"]++;
    if (len == 0 || addr + len < addr || addr + len > capacity()) bad("DISK", string(wrq ? "write" : "read") + " outside the device: addr=" + to_string(addr) + " len=" + to_string(len));
    if (addr % 4096) bad("DISK", "unaligned request addr=" + to_string(addr));
    if (len % 4096) ev["requests of unaligned length"]++;
    for (auto& r : req) {
      if (!wrq && !r.wr) continue;
      if (addr < r.addr + r.len && r.addr < addr + len)
        bad("DISK", string(wrq ? "write" : "read") + " [" + to_string(addr) + ",+" + to_string(len) + ") issued while a " + (r.wr ? "write" : "read") + " of [" + to_string(r.addr) + ",+" + to_string(r.len) + ") is outstanding");
      ev["pairs of outstanding requests compared"]++;
    }
    if (++ops_this_handler > 1) bad("DISK", "more than one disk operation in one handler call");
  }
  void checkwrite(uint64_t addr, const DafnySequence<uint8>& b) {
    const uint8_t* p = b.ptr(); uint64_t n = b.size();
    bool ok = checksum_ok(p, n);
    if (!ok && n % 4096 == 0) { ok = true; for (uint64_t i = 0; ok && i < n; i += 4096) ok = checksum_ok(p + i, 4096); if (ok) ev["journal writes of several blocks"]++; }
    ev["written blocks whose checksum was recomputed"]++;
    if (!ok) bad("SUM", "block written at " + to_string(addr) + " (" + to_string(n) + " bytes) does not carry a valid checksum");
    if (n > max(cfg_node, max<uint64_t>(cfg_indtable, cfg_journal * 4096))) bad("DISK", "oversized write of " + to_string(n));
  }
  uint64_t write1(uint64_t addr, const DafnySequence<uint8>& b) {
    checkwrite(addr, b);
    uint64_t id = newid(true);
    Req r{id, true, addr, b.size(), vector<uint8_t>(b.ptr(), b.ptr() + b.size()), false, false};
    ev[addr < 8192 ? "superblock writes" : "other writes"]++;
    if (addr >= 8192 + cfg_journal * 4096) treew++;
    r.hold = holdtime();
    req.push_back(move(r));
    return id;
  }
  uint64_t holdtime() { return o.hold && (int)wr.below(1000) < o.hold ? stepno + (wr.chance(1, 3) ? wr.range(1, 3000) : wr.range(1, 300)) : 0; }
  void process(size_t i) {
    Req& r = req[i];
    if (r.wr) disk.write(r.addr, r.bytes.data(), r.len);
    else { r.bytes.resize(r.len); r.unwritten = !disk.read(r.addr, r.bytes.data(), r.len); }
    r.processed = true;
    if (o.hold && wr.chance(1, 2)) r.hold = 0;
  }
  void corrupt(Req& r) {
    auto orig = r.bytes;
    uint64_t nb = r.len / 4096;
    int how = o.cjournal && wr.chance(1, 3) ? 4 : wr.below(6);
    uint64_t blk = wr.below(max<uint64_t>(nb, 1)) * 4096, lim = min<uint64_t>(4096, r.len - blk);
    if (wr.chance(1, 3)) { blk = 0; }
    auto flip = [&](uint64_t bit) { r.bytes[bit / 8] ^= 1 << (bit % 8); };
    if (how == 0) flip(blk * 8 + wr.below(lim * 8));
    else if (how == 1) { uint64_t b = blk * 8 + wr.below(lim * 8 - 32); flip(b); for (int i = 1; i < 32; i++) if (wr.chance(1, 2)) flip(b + i); }
    else if (how == 2) { flip(blk * 8 + wr.below(64)); }
    else if (how == 3) { flip(blk * 8 + wr.below(32 * 8)); }
    else if (how == 4) {   // changed contents under a checksum that is right in part
      bool whole = r.len == 4096 || wr.chance(1, 3);
      uint64_t at = whole ? 0 : blk, n = whole ? r.len : min<uint64_t>(4096, r.len - blk);
      if (n < 40) return;
      for (int i = wr.chance(3, 4) ? wr.range(1, 4) : wr.range(5, 300), m = wr.chance(1, 2) ? n - 32 : min<uint64_t>(n - 32, 400); i; i--) flip((at + 32) * 8 + wr.below(m * 8));
      uint8_t good[32] = {0}; uint32_t c = crc32c(&r.bytes[at + 32], n - 32); memcpy(good, &c, 4);
      int k = wr.range(1, 3), d = wr.below(3);   // the first k bytes, the last 32 - k, or all but one
      for (int i = 0; i < 32; i++) if (d == 0 ? i < k : d == 1 ? i >= k : i != k) r.bytes[at + i] = good[i];
      if (!memcmp(&r.bytes[at], good, 32)) r.bytes[at + (d == 0 ? k : d == 1 ? k - 1 : k)] ^= 1 << wr.below(8);
      ev["corrupted reads with a partly right checksum"]++;
    }
    else { uint64_t n = wr.range(1, lim); uint64_t s = wr.below(lim - n + 1); uint8_t f = wr.chance(1, 2) ? 0 : 255; for (uint64_t i = 0; i < n; i++) r.bytes[blk + s + i] = f; }
    if (r.bytes == orig) return;
    // the disk may not fail from one checksum-correct state into another
    bool any = checksum_ok(r.bytes.data(), r.len);
    for (uint64_t i = 0; i + 4096 <= r.len; i += 4096) if (memcmp(&r.bytes[i], &orig[i], 4096) && checksum_ok(&r.bytes[i], 4096)) any = true;
    if (any) { r.bytes = orig; return; }
    ev[string("corrupted reads of ") + (r.addr < 8192 ? "superblocks" : r.addr < 8192 + cfg_journal * 4096 ? r.len == 4096 ? "journal blocks" : "several journal blocks" : "other blocks")]++;
    corrupted = true;
  }
  void deliver(size_t i);
  template <class F> auto call(F f) {
    ops_this_handler = 0;
    dfy_ticks = 0;
    struct After { SimWorld* w; ~After() noexcept(false) { if (uncaught_exceptions()) return; uint64_t n = cache_total(w->vars, 0); if (n) { ev["cache sizes checked"]++; if (n >= cfg_cache) ev["cache full"]++; } if (n > cfg_cache) bad("CACHE", to_string(n) + " nodes cached or being read, the bound is " + to_string(cfg_cache)); } } after{this};
    try { return f(); }
    catch (pair<string, string>& t) { bad(t.first == "loop-bound" ? "HANG" : "TRAP", "run-time failure " + t.first + " at " + t.second); }
  }
  bool insert(const Bytes& k, const Bytes& v) { ev["insert attempts"]++; bool r = call([&] { return handle_Insert(vars, io, seq(k), seq(v)); }); ready |= r; return r; }
  optional<Bytes> query(const Bytes& k) { ev["query attempts"]++; auto r = call([&] { return handle_Query(vars, io, seq(k)); }); if (!r) return nullopt; ready = true; return str(*r); }
  optional<UI_Compile::SuccResultList> succ(const UI_Compile::RangeStart& s, uint64_t n) { ev["scan attempts"]++; auto r = call([&] { return handle_Succ(vars, io, s, n); }); ready |= (bool)r; return r; }
  uint64_t push() { return call([&] { return handle_PushSync(vars, io); }); }
  pair<bool, bool> pop(uint64_t id, bool g) { ev["sync attempts"]++; return call([&] { return handle_PopSync(vars, io, id, g); }); }
  static DafnySequence<uint8> seq(const Bytes& b) { DafnySequence<uint8> s((uint64)b.size()); if (b.size()) memcpy(s.ptr(), b.data(), b.size()); return s; }
  static Bytes str(const DafnySequence<uint8>& s) { return Bytes((const char*)s.ptr(), s.size()); }
  void deliver_all() {
    for (size_t i = 0; i < req.size(); i++) if (!req[i].processed) process(i);
    int guard = 0;
    while (!req.empty()) { deliver(0); for (size_t i = 0; i < req.size(); i++) if (!req[i].processed) process(i); if (++guard > 100000) bad("LIVE", "responses keep producing requests"); }
  }
};
namespace MainDiskIOHandler_Compile {
  uint64 DiskIOHandler::write(uint64 addr, DafnySequence<uint8> b) { w->monitor(true, addr, b.size()); return w->write1(addr, b); }
  Tuple<uint64, uint64> DiskIOHandler::write2(uint64 a1, DafnySequence<uint8> b1, uint64 a2, DafnySequence<uint8> b2) {
    ev["double writes"]++;
    w->monitor(true, a1, b1.size()); uint64 i = w->write1(a1, b1);
    w->ops_this_handler = 0;
    w->monitor(true, a2, b2.size()); uint64 j = w->write1(a2, b2);
    return Tuple<uint64, uint64>(i, j);
  }
  uint64 DiskIOHandler::read(uint64 addr, uint64 len) {
    w->monitor(false, addr, len);
    uint64_t id = w->newid(false);
    w->req.push_back(Req{id, false, addr, len, {}, false, false});
    if (w->wr.chance(1, 4)) w->req.back().hold = w->holdtime();
    return id;
  }
  Tuple<uint64, uint64, uint64> DiskIOHandler::getWriteResult() { return Tuple<uint64, uint64, uint64>(w->resp.id, w->resp.addr, w->resp.len); }
  Tuple<uint64, uint64, DafnySequence<uint8>> DiskIOHandler::getReadResult() {
    DafnySequence<uint8> s((uint64)w->resp.len); memcpy(s.ptr(), w->resp.bytes.data(), w->resp.len);
    return Tuple<uint64, uint64, DafnySequence<uint8>>(w->resp.id, w->resp.addr, s);
  }
}
void SimWorld::deliver(size_t i) {
  resp = move(req[i]);
  req.erase(req.begin() + i);
  if (resp.wr) { ev["write responses"]++; call([&] { handle_WriteResponse(vars, io); return 0; }); }
  else {
    ev["read responses"]++;
    if (resp.unwritten && !corrupted && o.checksums) bad("DISK", "read of never-written bytes at " + to_string(resp.addr) + " len " + to_string(resp.len));
    if (o.corrupt && (int)wr.below(1000) < (o.cjournal && resp.addr >= 8192 && resp.addr < 8192 + cfg_journal * 4096 ? o.cjournal : o.corrupt)) corrupt(resp);
    call([&] { handle_ReadResponse(vars, io); return 0; });
  }
}
// framework pieces that are not linked
void benchmark_start(string const&) {} void benchmark_end(string const&) {} void benchmark_append(string const&, long long) {} void benchmark_clear() {} void benchmark_dump() {}
namespace NativeBenchmarking_Compile { void start(DafnySequence<char>) {} void end(DafnySequence<char>) {} }
namespace MallocAccounting_Compile { void set_amass_mode(bool) {} }
namespace AllocationReport_Compile { void start() {} void sampleNode(uint64, shared_ptr<NodeImpl_Compile::Node>) {} void stop() {} }

// ---- model: an operation log over a base dictionary
struct Op { int kind; Bytes a, b; };   // 0 put(a,b)   1 clone(from a, to b)
typedef map<Bytes, Bytes> Dict;
static void do_op(Dict& d, const Op& o) {
  if (o.kind == 0) { if (o.b.empty()) d.erase(o.a); else d[o.a] = o.b; return; }
  // clone: keys with prefix b now read what the keys with prefix a read before
  vector<pair<Bytes, Bytes>> src;
  for (auto i = d.lower_bound(o.a); i != d.end() && i->first.compare(0, o.a.size(), o.a) == 0; ++i) src.push_back({o.b + i->first.substr(o.a.size()), i->second});
  for (auto i = d.lower_bound(o.b); i != d.end() && i->first.compare(0, o.b.size(), o.b) == 0;) i = d.erase(i);
  for (auto& p : src) if (p.first.size() <= cfg_maxkey) d[p.first] = p.second;
}
struct Model {
  Dict base, cur;           // base: version lo
  vector<Op> log;           // versions lo+1 .. lo+log.size()
  uint64_t lo = 0;
  uint64_t version() { return lo + log.size(); }
  void put(const Op& o) { log.push_back(o); do_op(cur, o); }
  void durable(uint64_t v) { if (v <= lo) return; for (uint64_t i = 0; i < v - lo; i++) do_op(base, log[i]); log.erase(log.begin(), log.begin() + (v - lo)); lo = v; }
  // the version whose contents equal d, or -1
  int64_t find(const Dict& d) {
    if (d == base) return lo;
    bool clones = false;
    for (auto& o : log) clones |= o.kind == 1;
    Dict x = base;
    if (clones) { for (size_t i = 0; i < log.size(); i++) { do_op(x, log[i]); if (x == d) return lo + i + 1; } return -1; }
    auto at = [&](const Dict& m, const Bytes& k) -> const Bytes& { static Bytes e; auto i = m.find(k); return i == m.end() ? e : i->second; };
    set<Bytes> diff;
    for (auto& p : x) if (at(d, p.first) != p.second) diff.insert(p.first);
    for (auto& p : d) if (at(x, p.first) != p.second) diff.insert(p.first);
    for (size_t i = 0; i < log.size(); i++) {
      do_op(x, log[i]);
      if (at(x, log[i].a) == at(d, log[i].a)) diff.erase(log[i].a); else diff.insert(log[i].a);
      if (diff.empty()) return lo + i + 1;
    }
    return -1;
  }
  string explain(const Dict& d) {
    Dict x = base; size_t best = 0, bn = ~0ull;
    for (size_t i = 0; i <= log.size(); i++) {
      if (i) do_op(x, log[i - 1]);
      if (i == 0 || i == log.size() || i % 16 == 0) { size_t n = 0; for (auto& p : x) { auto j = d.find(p.first); n += j == d.end() || j->second != p.second; } for (auto& p : d) n += !x.count(p.first); if (n < bn) { bn = n; best = i; } }
    }
    return "recovered " + to_string(d.size()) + " entries; durable version " + to_string(lo) + ", newest " + to_string(version()) + "; nearest sampled version " + to_string(lo + best) + " differs at " + to_string(bn) + " keys";
  }
};

// ---- fair completion: every outstanding request is served before each retry
static uint64_t fair_limit = 20000;
template <class F> static bool fair_n(SimWorld& w, const char* what, uint64_t n, F f) {
  for (uint64_t i = 0; i < n; i++) { if (i % 64 == 63 && overtime()) throw Overtime{}; if (f()) { auto& m = ev[string("max retries of a fair ") + what]; m = max<uint64_t>(m, i); return true; } w.deliver_all(); }
  return false;
}
template <class F> static void fair(SimWorld& w, const char* what, F f) {
  if (fair_n(w, what, fair_limit, f)) return;
  if (getenv("VBDBG")) {
    vector<uint64_t> c0(dfy_cov, dfy_cov + 8192);
    f(); w.deliver_all();
    for (int i = 0; i < 8192; i++) if (dfy_cov[i] != c0[i]) fprintf(stderr, "COV %d x%lu\n", i, (unsigned long)(dfy_cov[i] - c0[i]));
  }
  bad("LIVE", string(what) + " did not complete although every disk request was served (" + to_string(fair_limit) + " retries)");
}
static void check_scan(const Dict& cur, const UI_Compile::RangeStart& s, uint64_t n, const UI_Compile::SuccResultList& r, const char* cat);
template <class F> static void fair_scan(SimWorld& w, const Bytes& near, F f);
static Dict scan_all(SimWorld& w, uint64_t batch, const char* cat) {
  Dict d;
  auto s = UI_Compile::RangeStart::create_NegativeInf();
  while (true) {
    optional<UI_Compile::SuccResultList> r;
    fair_scan(w, s.is_RangeStart_NegativeInf() ? Bytes() : SimWorld::str(s.dtor_key()), [&] { r = w.succ(s, batch); return (bool)r; });
    for (uint64_t i = 0; i < r->results.size(); i++) { auto& e = r->results.select(i); Bytes k = SimWorld::str(e.key); if (d.count(k)) bad(cat, "scan returned a key twice"); d[k] = SimWorld::str(e.value); }
    if (r->end.is_RangeEnd_PositiveInf()) return d;
    s = r->end.is_RangeEnd_EExclusive() ? UI_Compile::RangeStart::create_SInclusive(r->end.dtor_key()) : UI_Compile::RangeStart::create_SExclusive(r->end.dtor_key());
  }
}
static Bytes relief_key;
// A scan never makes room in a full cache (recorded finding); queries of other keys do.
template <class F> static void fair_scan(SimWorld& w, const Bytes& near, F f) {
  if (fair_n(w, "scan", 400, f)) return;
  if (!w.ready) { fair(w, "query", [&] { return (bool)w.query(near); }); if (fair_n(w, "scan", 400, f)) return; }
  uint64_t held = cache_total(w.vars, 0);
  if (held && held < cfg_cache) bad("LIVE", "scan did not complete although every disk request was served and the cache has room (" + to_string(held) + " of " + to_string(cfg_cache) + ")");
  optional<Bytes> q0;
  fair(w, "query", [&] { return (bool)(q0 = w.query(near)); });
  if (fair_n(w, "scan", 400, f)) { findings["scan-never-evicts"] = "a scan that needs a node while the cache is full issues no request and never completes until some query evicts a node"; ev["scans that needed a query to make room"]++; return; }
  uint64_t reqs = ev["read requests"] + ev["write requests"];
  for (int i = 0; i < 50; i++) { if (f()) return; w.deliver_all(); }
  if (ev["read requests"] + ev["write requests"] != reqs) bad("LIVE", "scan did not complete although every disk request was served, and keeps issuing requests");
  Rng r{stepno * 31 + 7};
  for (int i = 0; i < 20000; i++) {
    if (f()) { findings["scan-never-evicts"] = "a scan that needs a node while the cache is full issues no request and never completes until some query evicts a node"; ev["scans that needed a query to make room"]++; return; }
    if (i % 4 == 1) {   // the next key: same leaf, but not answered by a buffered message
      Bytes k = near;
      if (k.size() < cfg_maxkey) k += '\0'; else { while (!k.empty() && (uint8_t)k.back() == 255) k.pop_back(); if (!k.empty()) k.back()++; }
      w.query(k); w.deliver_all(); continue;
    }
    if (i > 4000 && i % 4 == 2 && q0) { if (!w.insert(near, *q0)) w.deliver_all(); ev["neutral inserts to make room"]++; continue; }
    if (i % 4 == 3) { Bytes k = near; uint64_t l = r.range(1, 12), m = r.below(3); while (l-- && k.size() < cfg_maxkey) k += (char)(m == 0 ? r.below(2) : m == 1 ? (r.below(4) ? 0 : r.next()) : r.next()); w.query(k); w.deliver_all(); continue; }
    Bytes k = near; uint64_t n = r.below(4); for (uint64_t j = 0; j < n && !k.empty(); j++) k[r.below(k.size())] = (char)r.next();
    if (r.chance(1, 3)) { k.clear(); uint64_t l = r.below(8); while (k.size() < l) k += (char)r.next(); }
    w.query(k);
    w.deliver_all();
  }
  if (getenv("VBDBG")) {
    vector<uint64_t> c0(dfy_cov, dfy_cov + 8192);
    f(); w.deliver_all();
    for (int i = 0; i < 8192; i++) if (dfy_cov[i] != c0[i]) fprintf(stderr, "COV %d x%lu\n", i, (unsigned long)(dfy_cov[i] - c0[i]));
    fprintf(stderr, "near %s; cache %lu\n", hex(near).c_str(), (unsigned long)0ul);
  }
  bad("LIVE", "scan did not complete although every disk request was served and queries were interleaved");
}
static bool below_end(const Bytes& k, const UI_Compile::RangeEnd& e) { return e.is_RangeEnd_PositiveInf() || (e.is_RangeEnd_EInclusive() ? k <= SimWorld::str(e.dtor_key()) : k < SimWorld::str(e.dtor_key())); }
static void check_scan(const Dict& cur, const UI_Compile::RangeStart& s, uint64_t n, const UI_Compile::SuccResultList& r, const char* cat) {
  bool neg = s.is_RangeStart_NegativeInf(), inc = s.is_RangeStart_SInclusive();
  Bytes lo = neg ? Bytes() : SimWorld::str(s.dtor_key());
  bool pos = r.end.is_RangeEnd_PositiveInf();
  string d = string(" (start ") + (neg ? "-inf" : (inc ? "[" : "(") + hex(lo)) + ", end " + (pos ? "+inf" : hex(SimWorld::str(r.end.dtor_key()))) + ", max " + to_string(n) + ")";
  if (r.results.size() > n) bad(cat, "scan returned " + to_string(r.results.size()) + " entries, more than asked" + d);
  if (!neg && !pos) {
    Bytes e = SimWorld::str(r.end.dtor_key());
    if (!(lo < e || (lo == e && inc && r.end.is_RangeEnd_EInclusive()))) bad(cat, "scan made no progress: empty range" + d);
  }
  auto it = neg ? cur.begin() : inc ? cur.lower_bound(lo) : cur.upper_bound(lo);
  for (uint64_t i = 0; i < r.results.size(); i++, ++it) {
    Bytes k = SimWorld::str(r.results.select(i).key), v = SimWorld::str(r.results.select(i).value);
    if (it == cur.end()) bad(cat, "scan returned " + hex(k) + " beyond the last entry" + d);
    if (it->first != k) bad(cat, "scan result " + to_string(i) + " is " + hex(k) + ", expected " + hex(it->first) + d);
    if (it->second != v) bad(cat, "scan value of " + hex(k) + " is " + hex(v) + ", expected " + hex(it->second) + d);
    if (!below_end(k, r.end)) bad(cat, "scan returned " + hex(k) + " beyond its reported end" + d);
  }
  if (it != cur.end() && below_end(it->first, r.end)) bad(cat, "scan left out " + hex(it->first) + d);
  ev["scan entries compared"] += r.results.size();
}

// ---- workload
struct Prof { int keyset; uint64_t nkeys, vmax; int wi, wq, ws, wsync, wdisk, wcrash, wclone; bool ids_random; int corrupt; uint64_t steps; int batch; bool fairness; };
static Bytes gen_key(const Prof& p) {
  uint64_t i = rng.below(p.nkeys);
  Bytes k;
  auto put = [&](uint64_t x, int n) { for (int j = n - 1; j >= 0; j--) k += (char)(x >> (8 * j)); };
  switch (p.keyset) {
    case 0: k = "k"; put(i, 3); break;                                        // dense, ordered
    case 1: { uint64_t h = i * 0x9e3779b97f4a7c15ULL; put(h, 8); break; }      // scattered
    case 2: { uint64_t n = i % (cfg_maxkey + 1); k = Bytes(n, (char)(i / (cfg_maxkey + 1) * 37)); break; }  // prefixes of one another, all lengths
    case 3: { uint64_t h = (i + 1) * 0x9e3779b97f4a7c15ULL; uint64_t n = h % (cfg_maxkey + 1); Rng r{h}; while (k.size() < n) k += (char)(r.below(3) ? 0 : 255); break; }   // extreme bytes
    case 4: { k = Bytes(min<uint64_t>(cfg_maxkey - 3, 20), 'p'); put(i, 3); if (i % 3 == 0) k.resize(min<uint64_t>(cfg_maxkey, k.size() + 5), 'z'); break; }   // long common prefix
    case 5: { Rng r{i * 77 + 5}; uint64_t n = r.below(min<uint64_t>(cfg_maxkey, 12)); while (k.size() < n) k += "abc"[r.below(3)]; break; }
    default: { k = Bytes(cfg_maxkey, 0); Rng r{i}; for (auto& c : k) c = (char)r.next(); k[0] = (char)i; break; }  // maximum length
  }
  if (k.size() > cfg_maxkey) k.resize(cfg_maxkey);
  return k;
}
static uint64_t vcount;
static Bytes gen_val(const Prof& p) {
  if (rng.chance(1, 8)) return Bytes();
  uint64_t n = rng.chance(1, 20) ? p.vmax : rng.range(1, p.vmax);
  Bytes v; uint64_t c = ++vcount;
  for (int j = 0; j < 8 && v.size() < n; j++) v += (char)(c >> (8 * j));
  while (v.size() < n) v += (char)('A' + v.size() % 26);
  return v;
}
struct Sync { uint64_t id, version; bool graph, idle; uint64_t treew = 0; };   // treew: tree writes before the first operation it covers

struct Run {
  Prof p; Opts o;
  SimWorld* w;
  Model m;
  vector<Sync> syncs;
  vector<Op> pend;     // attempts in progress
  vector<pair<Bytes, int>> pq;
  struct Sc { UI_Compile::RangeStart s; uint64_t n; int tries; };
  vector<Sc> psc;
  uint64_t boots = 0;
  bool no_graph = rng.chance(1, 3);   // only log syncs, until something settles
  uint64_t first_treew = 0;
  uint64_t unsynced = 0;   // operations accepted since the last call that advances the log
  Run(const Prof& p, const Disk& d, const Opts& o) : p(p), o(o) { w = new SimWorld(d, o, rng.next()); }
  ~Run() { delete w; }
  // recovers a copy of the disk, returns its dictionary (and the disk afterwards)
  Dict recover(const Disk& d, Disk* after, bool* stuck, bool use) {
    Opts o2 = o; o2.corrupt = 0;
    SimWorld s(d, o2, rng.next());
    ev["recoveries checked"]++;
    { Bytes k = gen_key(p); optional<Bytes> v; fair_limit = 2000000; fair(s, "recovery", [&] { return (bool)(v = s.query(k)); }); fair_limit = 20000; }
    Dict r = scan_all(s, rng.chance(1, 2) ? 1000 : rng.range(1, 50), "CRASH");
    for (int i = 0; i < 4; i++) { Bytes k = gen_key(p); optional<Bytes> v; fair(s, "query", [&] { return (bool)(v = s.query(k)); }); auto j = r.find(k); if (*v != (j == r.end() ? Bytes() : j->second)) bad("CRASH", "after recovery a query of " + hex(k) + " disagrees with the scan"); }
    if (after) *after = s.disk;
    if (use) {   // the recovered store must be usable and durable again
      Dict e = r;
      for (int i = 0; i < 12; i++) { Op op{0, gen_key(p), gen_val(p)}; fair(s, "insert", [&] { return s.insert(op.a, op.b); }); do_op(e, op); }
      bool g = rng.chance(1, 2);
      uint64_t id = s.push();
      fair(s, "sync", [&] { return s.pop(id, g).second; });
      SimWorld t(s.disk, o2, rng.next());
      if (scan_all(t, 1000, "CRASH") != e) bad("CRASH", "operations synced after a recovery were lost at the next crash");
      ev["recovered stores used, synced and crashed again"]++;
    }
    return r;
  }
  Disk crash_disk() {   // each outstanding write took place or not
    Disk d = w->disk;
    int n = 0;
    vector<size_t> order;
    for (size_t i = 0; i < w->req.size(); i++) if (w->req[i].wr && !w->req[i].processed) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) swap(order[i - 1], order[rng.below(i)]);
    int mode = rng.below(3);
    for (size_t i : order) if (mode == 1 || (mode == 2 && rng.chance(1, 2))) { d.write(w->req[i].addr, w->req[i].bytes.data(), w->req[i].len); n++; }
    ev["writes outstanding at a crash"] += order.size();
    ev["of those applied"] += n;
    return d;
  }
  void probe(bool real) {
    Disk d = crash_disk(), d2;
    Dict r = recover(d, &d2, nullptr, rng.chance(1, 6));
    int64_t v = m.find(r);
    if (v < 0) bad("CRASH", "state after a crash matches no prefix of the history containing what was synced: " + m.explain(r));
    ev["crash states matched to a history prefix"]++;
    if ((uint64_t)v == m.version()) ev["crash kept everything"]++; else if ((uint64_t)v == m.lo) ev["crash kept only what was synced"]++; else ev["crash kept part of the unsynced suffix"]++;
    if (rng.chance(1, 4)) { if (recover(d2, nullptr, nullptr, false) != r) bad("CRASH", "a second crash changed the recovered state"); ev["double crashes"]++; }
    if (real) reboot(d, r, v);
  }
  void reboot(const Disk& d, const Dict& r, int64_t v) {
    delete w;
    w = new SimWorld(d, o, rng.next());
    m.base = m.cur = r; m.log.clear(); m.lo = v;
    syncs.clear(); pend.clear(); pq.clear(); psc.clear(); unsynced = 0;
    boots++; ev["crashes"]++;
  }
  bool try_insert(Op& op) {
    bool ok = op.kind == 0 ? w->insert(op.a, op.b) :
#ifdef HAVE_CLONE
      w->call([&] { return CoordinationImpl_Compile::__default::clone(*w->vars.full, w->io, SimWorld::seq(op.a), SimWorld::seq(op.b)); });
#else
      true;
#endif
    if (!ok) unsynced = 0;
    if (ok) { m.put(op); if (!unsynced++) first_treew = w->treew; for (auto& s : syncs) if (s.idle) { s.idle = false; s.treew = first_treew; } ev[op.kind ? "clones" : op.b.empty() ? "deletions" : "inserts"]++; }
    return ok;
  }
  void check_query(const Bytes& k, const Bytes& v) {
    auto i = m.cur.find(k);
    Bytes want = i == m.cur.end() ? Bytes() : i->second;
    ev["query answers compared"]++;
    if (!want.empty()) ev["query answers with a value"]++;
    if (v != want) bad(w->corrupted ? "CORRUPT" : "QUERY", "query of " + hex(k) + " returned " + hex(v) + ", expected " + hex(want) + (w->corrupted ? " (after corrupted reads)" : ""));
  }
  UI_Compile::RangeStart gen_start() {
    int t = rng.below(5);
    if (t == 0) return UI_Compile::RangeStart::create_NegativeInf();
    Bytes k = gen_key(p);
    return t < 3 ? UI_Compile::RangeStart::create_SInclusive(SimWorld::seq(k)) : UI_Compile::RangeStart::create_SExclusive(SimWorld::seq(k));
  }
  void step() {
    stepno++;
    int tot = p.wi + p.wq + p.ws + p.wsync + p.wdisk + p.wcrash + p.wclone, x = rng.below(tot);
    if ((x -= p.wdisk) < 0) {
      for (int i = 0; i < 3; i++) {
        if (w->req.empty()) return;
        size_t j = rng.below(w->req.size());
        if (w->req[j].hold > stepno) { ev["requests kept by the disk"]++; continue; }
        if (!w->req[j].processed) w->process(j);
        else w->deliver(j);
      }
    } else if ((x -= p.wi) < 0) {
      if (pend.size() < 4 && rng.chance(1, 2)) pend.push_back(Op{0, gen_key(p), gen_val(p)});
      for (int b = 0; b < p.batch && !pend.empty(); b++) {
        size_t j = rng.below(pend.size());
        if (try_insert(pend[j])) { pend[j] = Op{0, gen_key(p), gen_val(p)}; } else break;
      }
    } else if ((x -= p.wclone) < 0) {
      Bytes a = gen_key(p), b = gen_key(p);
      a.resize(min<size_t>(a.size(), rng.below(6))); b.resize(min<size_t>(b.size(), rng.range(a.size(), 8)));
      if (a.size() < b.size()) swap(a, b);   // translated keys never outgrow the key bound
      pend.push_back(Op{1, a, b});
      if (try_insert(pend.back())) pend.pop_back();
    } else if ((x -= p.wq) < 0) {
      if (pq.size() < 4) pq.push_back({gen_key(p), 0});
      size_t j = rng.below(pq.size());
      auto v = w->query(pq[j].first);
      if (v) { check_query(pq[j].first, *v); pq.erase(pq.begin() + j); }
    } else if ((x -= p.ws) < 0) {
      auto s = gen_start();
      uint64_t n = rng.chance(1, 3) ? 1 : rng.chance(1, 4) ? 100000 : rng.range(1, 60);
      optional<UI_Compile::SuccResultList> r;
      if (rng.chance(1, 2)) {   // several scans in progress, responses come when they come
        if (psc.size() < 5) psc.push_back({s, n, 0});
        for (int i = rng.range(1, 5); i && !psc.empty(); i--) {
          size_t j = rng.below(psc.size());
          if ((r = w->succ(psc[j].s, psc[j].n))) { ev["scans compared"]++; ev["scans interleaved"]++; check_scan(m.cur, psc[j].s, psc[j].n, *r, w->corrupted ? "CORRUPT" : "SCAN"); }
          if (r || ++psc[j].tries > 80) psc.erase(psc.begin() + j);
        }
        return;
      }
      for (int i = 0; i < 40 && !(r = w->succ(s, n)); i++) w->deliver_all();
      if (r) { ev["scans compared"]++; check_scan(m.cur, s, n, *r, w->corrupted ? "CORRUPT" : "SCAN"); }
    } else if ((x -= p.wsync) < 0) {
      if (syncs.size() < 5 && rng.chance(1, 3)) {
        uint64_t id = w->push();
        if (id) { for (auto& s : syncs) if (s.id == id) bad("SYNC", "two outstanding syncs share an id"); syncs.push_back({id, m.version(), !no_graph && rng.chance(1, 3), unsynced == 0, first_treew}); ev["syncs requested"]++; }
      }
      if (!syncs.empty()) {
        size_t j = rng.below(syncs.size());
        auto r = w->pop(syncs[j].id, syncs[j].graph);
        unsynced = 0;
        if (r.second) { ev[syncs[j].graph ? "checkpoint syncs completed" : "log syncs completed"]++; m.durable(syncs[j].version); syncs.erase(syncs.begin() + j); if (p.wcrash && rng.chance(1, 3)) probe(false); }
      }
    } else {
      probe(rng.chance(1, 3));
    }
  }
  void do_sync(Sync s) {
    fair_sync(*w, s, [&] { Op op{0, gen_key(p), gen_val(p)}; fair(*w, "insert", [&] { return try_insert(op); }); });
    unsynced = 0;
    m.durable(s.version);
  }
  // the log only advances when something was inserted (recorded finding): insert() is called then
  template <class F> void fair_sync(SimWorld& x, Sync s, F insert) {
    auto f = [&] { return x.pop(s.id, s.graph).second; };
    if (fair_n(x, "sync", s.graph ? 4000 : 300, f)) return;
    uint64_t sb = ev["superblock writes"], ow = ev["other writes"];
    if (fair_n(x, "sync", 120, f)) return;
    bool spin = ev["superblock writes"] > sb + 20 && ev["other writes"] == ow;
    if (!spin) { if (fair_n(x, "sync", 4000, f)) return; sb = ev["superblock writes"], ow = ev["other writes"]; if (fair_n(x, "sync", 1000, f)) return; spin = ev["superblock writes"] > sb + 100 && ev["other writes"] == ow; }
      // the recorded finding: only superblocks are written
    if (getenv("VBDBG")) fprintf(stderr, "STUCK graph=%d idle=%d spin=%d\n", s.graph, s.idle, spin);
    if (!s.graph && spin && !s.idle && x.treew == s.treew) bad("LIVE", "log sync of operations that no checkpoint had taken did not complete although every disk request was served");
    if (!s.graph && spin) {
      insert();
      if (fair_n(x, "sync", 4000, f)) {
        findings["idle-log-sync"] = "a log sync requested when every accepted operation is already in the written log rewrites the superblock for ever and completes only after another operation is accepted";
        ev["log syncs that needed another operation"]++;
        return;
      }
    }
    bad("LIVE", string(s.graph ? "checkpoint" : "log") + " sync did not complete although every disk request was served");
  }
  void settle() {   // fair phase: everything in progress completes
    ev["fair phases"]++;
    w->deliver_all();
    auto ss = syncs;
    syncs.clear();
    if (rng.chance(1, 2)) reverse(ss.begin(), ss.end());
    for (auto& s : ss) do_sync(s);
    // a checkpoint begun on behalf of a full journal is completed by syncing
    uint64_t id = w->push();
    if (!id) bad("LIVE", "sync request refused");
    do_sync(Sync{id, m.version(), true, false});
    for (auto& op : pend) { if (op.kind) { if (!fair_n(*w, "clone", 60, [&] { return try_insert(op); })) ev["clones refused"]++; } else fair(*w, "insert", [&] { return try_insert(op); }); }
    pend.clear();
    for (auto& q : pq) { optional<Bytes> v; fair(*w, "query", [&] { return (bool)(v = w->query(q.first)); }); check_query(q.first, *v); }
    pq.clear();
  }
  void compare_all() {
    Dict d = scan_all(*w, rng.chance(1, 2) ? 100000 : rng.range(1, 200), "SCAN");
    if (d != m.cur) { Dict x = m.cur; size_t miss = 0, extra = 0, diff = 0; for (auto& p : x) { auto i = d.find(p.first); if (i == d.end()) miss++; else if (i->second != p.second) diff++; } for (auto& p : d) extra += !x.count(p.first); bad("SCAN", "full scan disagrees with the model: " + to_string(miss) + " missing, " + to_string(extra) + " extra, " + to_string(diff) + " different of " + to_string(x.size())); }
    ev["full scans compared"]++;
  }
  void go() {
    for (uint64_t i = 0; i < p.steps; i++) {
      if (i % 16 == 0 && overtime()) { ev["runs cut short by the time limit"]++; return; }
      step();
      if (o.cjournal && w->corrupted && w->ready && !w->looked && rng.chance(1, 3)) {   // whatever was replayed must be the history
        w->looked = true;
        Dict d; bool done = false;
        auto s = UI_Compile::RangeStart::create_NegativeInf();
        for (int n = 0; n < 400 && !done; n++) {
          auto r = w->succ(s, 1000);
          if (!r) { w->deliver_all(); continue; }
          check_scan(m.cur, s, 1000, *r, "CORRUPT");
          if (r->end.is_RangeEnd_PositiveInf()) done = true;
          else s = r->end.is_RangeEnd_EExclusive() ? UI_Compile::RangeStart::create_SInclusive(r->end.dtor_key()) : UI_Compile::RangeStart::create_SExclusive(r->end.dtor_key());
        }
        if (done) ev["full scans after corrupted journal reads"]++;
      }
      if ((o.corrupt && w->corrupted && rng.chance(1, 60)) || (o.cjournal && rng.chance(1, 120))) {   // it may be stuck by now: restart it
        Disk d = crash_disk(); Dict r = recover(d, nullptr, nullptr, false);
        int64_t v = m.find(r);
        if (v < 0) bad("CORRUPT", "after corrupted reads and a restart the state matches no prefix of the history: " + m.explain(r));
        ev["restarts after corrupted reads"]++;
        reboot(d, r, v);
      }
      if (p.fairness && rng.chance(1, 500)) settle();
    }
    if (!o.corrupt) {
      settle();
      compare_all();
      if (mode == "dict") for (auto& e : Dict(m.cur)) { optional<Bytes> v; fair(*w, "query", [&] { return (bool)(v = w->query(e.first)); }); check_query(e.first, *v); }
      for (int i = 0; i < 100; i++) { Bytes k = gen_key(p); optional<Bytes> v; fair(*w, "query", [&] { return (bool)(v = w->query(k)); }); check_query(k, *v); }
      uint64_t id = w->push();
      bool g = rng.chance(1, 2);
      do_sync(Sync{id, m.version(), g, unsynced == 0, first_treew});
      if (p.wcrash) probe(false);
    }
  }
};

static Disk mkfs(const char* cat) {
  Disk d;
  DafnyMap<uint64, DafnySequence<uint8>> m;
  try { m = handle_Mkfs(); } catch (pair<string, string>& t) { bad("TRAP", "mkfs: run-time failure " + t.first + " at " + t.second); }
  if (m.map.empty()) bad("MKFS", "mkfs produced no image");
  vector<pair<uint64_t, uint64_t>> ex;
  for (auto& e : m.map) {
    uint64_t a = e.first, n = e.second.size();
    for (auto& x : ex) if (a < x.first + x.second && x.first < a + n) bad("MKFS", "mkfs blocks overlap");
    ex.push_back({a, n});
    if (n % 4096 || a % 4096) ev["mkfs blocks not aligned"]++;
    if (!checksum_ok(e.second.ptr(), n)) bad("MKFS", "mkfs block at " + to_string(a) + " carries no valid checksum");
    if (a + n > cfg_node * cfg_blocks) bad("MKFS", "mkfs block outside the device");
    d.write(a, e.second.ptr(), n);
    ev["mkfs blocks checked"]++;
  }
  return d;
}

static void set_config(int c) {
  cfg_node = 2*1024*1024; cfg_journal = 65536; cfg_indtable = 24*1024*1024; cfg_bucket = 2*1024*1024-65536; cfg_cache = 100; cfg_children = 8; cfg_blocks = 0x100000; cfg_maxkey = 1024; cfg_maxval = 1024;
  auto nodefit = [] {  // the largest node must fit a node block
    uint64_t over = 32 + 8 + (4 + (cfg_children - 1) * (4 + cfg_maxkey)) + (8 + 64) + 8 + 64 + 4 * 600;
    return over;
  };
  (void)nodefit;
  switch (c) {
    case 0: break;                                                                                       // production constants
    case 1: cfg_node = 8192; cfg_bucket = 5120; cfg_cache = 12; cfg_journal = 32; cfg_indtable = 65536; cfg_blocks = 4096; cfg_maxkey = 48; cfg_maxval = 64; break;
    case 2: cfg_node = 4096; cfg_bucket = 2048; cfg_cache = 16; cfg_journal = 16; cfg_indtable = 131072; cfg_blocks = 8192; cfg_maxkey = 24; cfg_maxval = 40; break;
    case 3: cfg_node = 16384; cfg_bucket = 12288; cfg_cache = 8; cfg_journal = 64; cfg_indtable = 32768; cfg_blocks = 2048; cfg_maxkey = 64; cfg_maxval = 200; cfg_children = 6; break;
    case 4: cfg_node = 32768; cfg_bucket = 20480; cfg_cache = 24; cfg_journal = 256; cfg_indtable = 65536; cfg_blocks = 2048; cfg_maxkey = 600; cfg_maxval = 300; cfg_children = 8; break;
    case 5: cfg_node = 8192; cfg_bucket = 5120; cfg_cache = 10; cfg_journal = 24; cfg_indtable = 32768; cfg_blocks = 200; cfg_maxkey = 32; cfg_maxval = 64; break;   // small disk: blocks must be reclaimed
    case 6: cfg_node = 8192; cfg_bucket = 5120; cfg_cache = 10; cfg_journal = 24; cfg_indtable = 32768; cfg_blocks = 100; cfg_maxkey = 32; cfg_maxval = 48; break;
  }
}
static volatile sig_atomic_t timeup;
// an abandoned store (crash) never frees its explicitly managed memory: past a limit the driver starts a fresh process
static bool memstop;
static bool too_big() { long a = 0, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return memstop = b * 4096 > 1500000000L; }
static void finish_and_exit(int rc) {
  string o = "RESULT {\"evaluations\": " + to_string(ev["query answers compared"] + ev["scans compared"] + ev["crash states matched to a history prefix"] + ev["pairs of outstanding requests compared"] + ev["written blocks whose checksum was recomputed"] + ev["corrupted reads of other blocks"]);
  uint64_t cov = 0; string never;
  for (int i = 0; i < 8192; i++) if (dfy_cov[i]) cov++;
  o += ", \"distinct\": " + to_string(distinct_n) + ", \"events\": {";
  ev["runs"] = runs_n; 
  bool f = true;
  for (auto& e : ev) { o += string(f ? "" : ", ") + "\"" + esc(e.first) + "\": " + to_string(e.second); f = false; }
  o += "}, \"samples\": [";
  f = true;
  for (auto& s : samples) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"violations\": [";
  f = true;
  for (auto& s : violations) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  for (auto& x : findings) { o += string(f ? "" : ", ") + "\"FINDING " + esc(x.first + ": " + x.second) + "\""; f = false; }
  o += "], \"cov\": [";
  f = true;
  for (int i = 0; i < 8192; i++) if (dfy_cov[i]) { o += string(f ? "" : ",") + to_string(i); f = false; }
  o += string("], \"memstop\": ") + (memstop ? "true" : "false") + "}";
  puts(o.c_str());
  fflush(stdout);
  _exit(rc);
}
static void fatal_signal(int s) {   // reached only without a sanitizer's own report
  fprintf(stderr, "signal %d %s\n", s, where().c_str());
  _exit(100);
}

int main(int argc, char** argv) {
  mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10), secs = strtoull(argv[3], 0, 10), only = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
  crc_init();
  dfy_trap_hook = on_trap;
  dfy_tick_limit = 300000000;
  auto t0 = chrono::steady_clock::now();
  deadline = t0 + chrono::seconds(secs + 3);
  auto left = [&] { return chrono::duration<double>(chrono::steady_clock::now() - t0).count() < secs; };
  fprintf(stderr, "vbsim %s seed=%lu\n", mode.c_str(), (unsigned long)seed);
  for (uint64_t k = 0; left() && violations.size() < 3 && !too_big(); k++) {
    if (only && k + 1 != only) { if (k + 1 > only) break; continue; }
    rng.s = seed * 1000003 + k;
    stepno = 0; vcount = 0;
    Prof p;
    p.keyset = rng.below(7);
    p.wi = 30; p.wq = 12; p.ws = 3; p.wsync = 4; p.wdisk = 30; p.wcrash = 0; p.wclone = 0; p.ids_random = false; p.corrupt = 0; p.batch = 1 + rng.below(4) * rng.below(8); p.fairness = true; p.steps = 4000;
    int cfg = 1 + rng.below(4);
    p.nkeys = rng.chance(1, 3) ? rng.range(1, 40) : rng.range(40, 1500);
    Opts o;
    if (mode == "dict") { if (rng.chance(1, 4)) p.wdisk = rng.range(2, 120); p.wq = rng.range(5, 40); p.ws = 1; if (rng.chance(1, 3)) p.wsync = 0; }
    else if (mode == "scan") { p.ws = 25; p.wi = 60; p.wq = 2; }
    else if (mode == "crash") { p.wcrash = 1; p.wsync = rng.range(2, 25); p.steps = 2500; p.wi = rng.range(10, 60); o.ids_random = rng.chance(1, 3); }
    else if (mode == "sync") { p.wcrash = 1; p.wsync = 30; p.wq = 3; p.ws = 0; p.steps = 3000; if (rng.chance(1, 2)) cfg = 5; if (rng.chance(1, 2)) { p.batch = rng.range(5, 60); p.wi = rng.range(30, 100); p.wcrash = 0; } }
    else if (mode == "disk") { p.wdisk = rng.range(3, 40); p.wsync = rng.range(4, 30); p.batch = 1 + rng.below(20); p.wq = 20; o.ids_random = rng.chance(1, 2); if (rng.chance(1, 3)) cfg = 5; p.wcrash = rng.chance(1, 4); if (rng.chance(1, 3)) { p.wsync = rng.below(2); p.wi = 60; p.wdisk = 60; o.hold = 200; p.wcrash = 0; p.steps = 12000; } }
    else if (mode == "corrupt") { p.wq = 40; p.wsync = 10; p.steps = 3000; p.fairness = false; o.corrupt = rng.chance(1, 3) ? 5 : rng.chance(1, 2) ? 50 : 300; p.wcrash = 0; if (rng.chance(1, 2)) { o.corrupt = 1; o.cjournal = 500; p.batch = 10 + rng.below(40); } }
    else if (mode == "space") { cfg = 5; p.nkeys = rng.range(20, 150); p.keyset = rng.chance(1, 2) ? 0 : 1; p.steps = 12000; p.batch = 6; p.wsync = 6; p.wq = 2; p.ws = rng.chance(1, 2) ? 0 : rng.range(3, 25); if (rng.chance(1, 2)) { cfg = 6; p.steps = 50000; p.ws = 0; p.nkeys = rng.range(20, 80); } }
    else if (mode == "clone") { p.wclone = 2; p.wcrash = rng.below(2); p.keyset = rng.chance(1, 2) ? 5 : 4; p.nkeys = rng.range(40, 600); p.steps = 2500; }
    else if (mode == "prod") { cfg = 0; p.keyset = rng.chance(1, 3) ? 6 : rng.below(6); p.nkeys = 30000; p.batch = 400; p.steps = 900; p.wcrash = 0; p.ws = 1; }
    if (mode != "prod" && !o.hold && rng.chance(1, 3)) o.hold = rng.chance(1, 2) ? 30 : 250;
    if (p.keyset == 2) p.nkeys = min<uint64_t>(p.nkeys, 7 * (cfg_maxkey + 1));
    set_config(cfg);
    if (p.keyset == 2) p.nkeys = min<uint64_t>(p.nkeys, 7 * (cfg_maxkey + 1));
    p.vmax = rng.chance(1, 4) ? rng.range(1, 12) : cfg_maxval;
    if (cfg == 5) { p.nkeys = min<uint64_t>(p.nkeys, 150); }
    if (cfg == 6) p.nkeys = min<uint64_t>(p.nkeys, 80);
    ctx = "mode=" + mode + " seed=" + to_string(seed) + " run=" + to_string(k + 1) + " config=" + to_string(cfg) + " keyset=" + to_string(p.keyset) + " keys=" + to_string(p.nkeys);
    runs_n++;
    distinct_n++;
    try {
      Disk d = mkfs("MKFS");
      Run r(p, d, o);
      if (mode == "mkfs" || rng.chance(1, 10)) {
        Opts o2;
        SimWorld s(d, o2, 1);
        if (!scan_all(s, 10, "MKFS").empty()) bad("MKFS", "a fresh image is not empty");
        Bytes k = gen_key(p); optional<Bytes> v; fair(s, "query", [&] { return (bool)(v = s.query(k)); });
        if (!v->empty()) bad("MKFS", "a fresh image answers a query with a value");
        ev["fresh images checked empty"]++;
        if (mode == "mkfs") p.steps = 200;
      }
      r.go();
    } catch (RunAborted&) {
    } catch (Overtime&) {
      ev["runs cut short by the time limit"]++;
    } catch (RunAborted&) {
    } catch (pair<string, string>& t) {
      violations.push_back("TRAP: run-time failure " + t.first + " at " + t.second + " [" + where() + "]");
    }
    if (only) break;
  }
  for (auto& c : vcats) (void)c;
  finish_and_exit(0);
}
