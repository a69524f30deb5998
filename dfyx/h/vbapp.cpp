// Drives the real C++ framework (Framework.cpp: DiskIOHandler, Application, Mkfs; row cache; native
// primitives) with the system's asynchronous I/O replaced by a simulated device (link-time wraps).
#include "Bundle.i.h"
#include "BundleWrapper.h"
#include "Application.h"
#include "LinearCongruentialGenerator.h"
#include <unistd.h>
#include <aio.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <csignal>
#include <chrono>
#include <sstream>
#include <list>
#include <cstdarg>
using namespace std;
typedef string Bytes;
uint64_t cfg_node = 2*1024*1024, cfg_journal = 65536, cfg_indtable = 24*1024*1024, cfg_bucket = 2*1024*1024-65536, cfg_cache = 100,
  cfg_children = 8, cfg_blocks = 0x100000, cfg_maxkey = 1024, cfg_maxval = 1024;
void benchmark_start(string const&) {} void benchmark_end(string const&) {} void benchmark_append(string const&, long long) {} void benchmark_clear() {} void benchmark_dump() {}
namespace NativeBenchmarking_Compile { void start(DafnySequence<char>) {} void end(DafnySequence<char>) {} }

// ---- reporting
static map<string, uint64_t> ev;
static vector<string> violations, samples;
static string ctx; static uint64_t stepno, evaluations, distinct_n;
static string mode, scratch_dir;
static string esc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string hex(const Bytes& s) { string r; for (unsigned char c : s) { char b[4]; snprintf(b, 4, "%02x", c); r += b; if (r.size() > 40) { r += ".."; break; } } return r + "(" + to_string(s.size()) + ")"; }
struct RunAborted {};
static bool aborting;
[[noreturn]] static void bad(const string& what) {
  if (!aborting) violations.push_back(what + " [" + ctx + " step=" + to_string(stepno) + "]");
  aborting = true;
  throw RunAborted();
}
static void emit_result() {
  string o = "RESULT {\"evaluations\": " + to_string(evaluations) + ", \"distinct\": " + to_string(distinct_n) + ", \"events\": {";
  bool f = true;
  for (auto& e : ev) { o += string(f ? "" : ", ") + "\"" + esc(e.first) + "\": " + to_string(e.second); f = false; }
  o += "}, \"samples\": [";
  f = true; for (auto& s : samples) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "], \"violations\": [";
  f = true; for (auto& s : violations) { o += string(f ? "" : ", ") + "\"" + esc(s) + "\""; f = false; }
  o += "]}\n";
  fflush(stdout);
  size_t n = 0; while (n < o.size()) { ssize_t k = write(1, o.data() + n, o.size() - n); if (k <= 0) break; n += k; }
  _exit(0);
}
struct Rng {
  uint64_t s;
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint64_t a, uint64_t b) { return below(b) < a; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
};
static Rng rng;

// ---- process exit inside the framework is an observable outcome
struct ExitCalled { int code; };
static bool catch_exit;
static stringstream captured;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" __attribute__((noreturn)) void __wrap_exit(int c) { if (catch_exit) throw ExitCalled{c}; __real_exit(c); }

// ---- simulated device
struct Dev {
  vector<uint8_t> img; bool exists = false; int opens = 0; vector<bool> pages;
  map<uint64_t, vector<uint8_t>> vol;   // pages whose last write is not durable yet: their durable contents (empty: never written)
  void before_volatile(uint64_t o, size_t n) {
    for (uint64_t p = o / 4096; p < (o + n + 4095) / 4096; p++) if (!vol.count(p))
      vol[p] = p < pages.size() && pages[p] ? vector<uint8_t>(img.begin() + p * 4096, img.begin() + min<size_t>(p * 4096 + 4096, img.size())) : vector<uint8_t>();
  }
  void touched(uint64_t o, size_t n) { if (pages.size() < (o + n + 4095) / 4096) pages.resize((o + n + 4095) / 4096); for (uint64_t p = o / 4096; p < (o + n + 4095) / 4096; p++) pages[p] = true; }
};
static bool strict;                 // the application's requests are judged as those of the store
static uint64_t device_bytes;
struct PowerHook { virtual void maybe_powerloss() = 0; };
static PowerHook* power;
static map<string, Dev> devs;
static map<int, string> fds;
static set<int> lazy_fds;           // opened without O_DSYNC: a completed write is durable only after a flush
static int nextfd = 100000;
struct Aio { aiocb* cb; int fd; uint64_t off; size_t n; vector<uint8_t> at_submit; bool done, returned; int err; ssize_t ret; uint64_t seq; };
static list<Aio> inflight;          // submitted, not yet aio_return'ed
static uint64_t aio_seq, aio_limit = 8;
static int p_done = 30;             // percent chance that a request finishes at each opportunity
static int fail_kind = 0;           // 1: next completion fails with EIO, 2: short write
static uint64_t device_done;        // completions so far
static uint64_t written_bytes;
struct SubmitHook { virtual void submitted(Aio&) = 0; };
static SubmitHook* hook;
static void finish(Aio& a) {
  if (a.done) return;
  // the device reads the buffer now: it must still be the bytes that were submitted
  if (memcmp((const void*)a.cb->aio_buf, a.at_submit.data(), a.n)) { a.done = true; bad("the buffer of a write in progress changed before the device read it"); }
  if (a.cb->aio_offset != (off_t)a.off || a.cb->aio_nbytes != a.n || a.cb->aio_fildes != a.fd) bad("the control block of a write in progress changed");
  a.done = true; device_done++;
  if (fail_kind == 1) { a.err = EIO; a.ret = -1; fail_kind = 0; ev["write failures injected"]++; return; }
  size_t n = a.n;
  if (fail_kind == 2) { n = rng.below(a.n); fail_kind = 0; ev["short writes injected"]++; }
  auto& d = devs[fds[a.fd]];
  if (lazy_fds.count(a.fd)) { d.before_volatile(a.off, n); ev["writes the device holds in its cache"]++; }
  else for (uint64_t p = a.off / 4096; p < (a.off + n + 4095) / 4096; p++) d.vol.erase(p);
  if (d.img.size() < a.off + n) d.img.resize(a.off + n);
  memcpy(d.img.data() + a.off, a.at_submit.data(), n); d.touched(a.off, n);
  written_bytes += n;
  a.err = 0; a.ret = n;
  ev["asynchronous writes performed by the device"]++;
}
static void device_moves() {
  if (p_done == 0) return;
  int burst = rng.below(8);
  for (auto& a : inflight) if (!a.done && (burst == 0 || (int)rng.below(100) < p_done)) finish(a);
}
static Aio* find(const aiocb* cb) { for (auto& a : inflight) if (a.cb == cb) return &a; return nullptr; }
extern "C" {
int __real_open(const char*, int, ...); int __real_close(int); ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_pwrite(int, const void*, size_t, off_t);
int __real_aio_write(aiocb*); int __real_aio_error(const aiocb*); ssize_t __real_aio_return(aiocb*); int __real_aio_suspend(const aiocb* const*, int, const timespec*);
static bool simfd(int fd) { return fds.count(fd); }
int __wrap_open(const char* p, int fl, ...) {
  va_list ap; va_start(ap, fl); int m = (fl & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
  string s = p;
  if (s.compare(0, 4, "sim:")) return __real_open(p, fl & ~O_NOATIME, m);
  if (!devs.count(s) || !devs[s].exists) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } devs[s].exists = true; }
  if ((fl & O_ACCMODE) != O_RDWR) bad("the image is not opened for reading and writing");
  if (fl & O_DSYNC) lazy_fds.erase(nextfd); else lazy_fds.insert(nextfd);
  fds[nextfd] = s; devs[s].opens++; return nextfd++;
}
int __wrap_close(int fd) {
  if (!simfd(fd)) return __real_close(fd);
  for (auto& a : inflight) if (a.fd == fd && !a.done) ev["closed with writes in progress"]++;
  devs[fds[fd]].opens--; fds.erase(fd); return 0;
}
int __real_fsync(int); int __real_fdatasync(int); int __real_aio_fsync(int, aiocb*);
int __wrap_fsync(int fd) { if (!simfd(fd)) return __real_fsync(fd); devs[fds[fd]].vol.clear(); return 0; }
int __wrap_fdatasync(int fd) { if (!simfd(fd)) return __real_fdatasync(fd); devs[fds[fd]].vol.clear(); return 0; }
int __wrap_aio_fsync(int op, aiocb* cb) {   // done at once, with everything before it
  if (!simfd(cb->aio_fildes)) return __real_aio_fsync(op, cb);
  for (auto& a : inflight) if (a.fd == cb->aio_fildes) finish(a);
  devs[fds[cb->aio_fildes]].vol.clear();
  inflight.push_back(Aio{cb, cb->aio_fildes, 0, 0, {}, true, false, 0, 0, aio_seq++});
  return 0;
}
off_t __real_lseek(int, off_t, int); int __real_fstat(int, struct stat*); int __real_ftruncate(int, off_t); int __real_stat(const char*, struct stat*); int __real_access(const char*, int);
static std::map<int, off_t> filepos;   // of file descriptors used with read, write and lseek
off_t __wrap_lseek(int fd, off_t o, int w) { if (!simfd(fd)) return __real_lseek(fd, o, w); return filepos[fd] = w == SEEK_END ? (off_t)devs[fds[fd]].img.size() + o : w == SEEK_CUR ? filepos[fd] + o : o; }
static int simstat(Dev& d, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0600; s->st_nlink = 1; s->st_size = d.img.size(); s->st_blksize = 4096; s->st_blocks = d.img.size() / 512; return 0; }
int __wrap_fstat(int fd, struct stat* s) { return simfd(fd) ? simstat(devs[fds[fd]], s) : __real_fstat(fd, s); }
int __wrap_stat(const char* p, struct stat* s) { if (strncmp(p, "sim:", 4)) return __real_stat(p, s); if (!devs.count(p) || !devs[p].exists) { errno = ENOENT; return -1; } return simstat(devs[p], s); }
int __wrap_access(const char* p, int m) { if (strncmp(p, "sim:", 4)) return __real_access(p, m); if (!devs.count(p) || !devs[p].exists) { errno = ENOENT; return -1; } return 0; }
int __wrap_ftruncate(int fd, off_t n) { if (!simfd(fd)) return __real_ftruncate(fd, n); Dev& d = devs[fds[fd]]; d.img.resize(n); if (d.pages.size() > (n + 4095ul) / 4096) d.pages.resize((n + 4095) / 4096); return 0; }
static int read_fault = 0;
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  if (!simfd(fd)) return __real_pread(fd, b, n, o);
  auto& d = devs[fds[fd]];
  if (read_fault == 1) { read_fault = 0; ev["read failures injected"]++; errno = EIO; return -1; }
  if (strict) {
    if (o < 0 || o % 4096 || n == 0 || o + n > device_bytes) bad("a read of " + to_string(n) + " bytes at " + to_string(o) + " is not an aligned request inside the device");
    for (uint64_t p = o / 4096; p < (o + n + 4095) / 4096; p++) if (p >= d.pages.size() || !d.pages[p]) bad("a read of never-written bytes at " + to_string(p * 4096));
    for (auto& a : inflight) if (!a.done && a.fd == fd && a.off < o + n && o < (off_t)(a.off + a.n)) bad("a read at " + to_string(o) + " overlaps an outstanding write at " + to_string(a.off));
    ev["requests of the application judged"]++;
  }
  size_t k = o >= (off_t)d.img.size() ? 0 : min<size_t>(n, d.img.size() - o);
  if (read_fault == 2 && k) { read_fault = 0; ev["short reads injected"]++; k = rng.below(k); }
  memcpy(b, d.img.data() + o, k);
  ev["synchronous reads"]++;
  return k;
}
static int pwrite_fault = 0;
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!simfd(fd)) return __real_pwrite(fd, b, n, o);
  auto& d = devs[fds[fd]];
  if (pwrite_fault == 1) { pwrite_fault = 0; ev["format failures injected"]++; errno = EIO; return -1; }
  if (pwrite_fault == 2) { pwrite_fault = 0; ev["format failures injected"]++; n = rng.below(n); }
  if (d.img.size() < o + n) d.img.resize(o + n);
  memcpy(d.img.data() + o, b, n); d.touched(o, n);
  return n;
}
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) { if (!simfd(fd)) return __real_read(fd, b, n); ssize_t k = __wrap_pread(fd, b, n, filepos[fd]); if (k > 0) filepos[fd] += k; return k; }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (!simfd(fd)) return __real_write(fd, b, n); ssize_t k = __wrap_pwrite(fd, b, n, filepos[fd]); if (k > 0) filepos[fd] += k; return k; }
int __wrap_aio_write(aiocb* cb) {
  if (!simfd(cb->aio_fildes)) return __real_aio_write(cb);
  if (find(cb)) bad("the same control block was submitted twice");
  size_t k = 0; for (auto& a : inflight) if (!a.done) k++;
  (void)k;
  Aio a{cb, cb->aio_fildes, (uint64_t)cb->aio_offset, cb->aio_nbytes, vector<uint8_t>((uint8_t*)cb->aio_buf, (uint8_t*)cb->aio_buf + cb->aio_nbytes), false, false, 0, 0, aio_seq++};
  if (strict) {
    if (a.off % 4096 || a.n == 0 || a.n % 4096 || a.off + a.n > device_bytes) bad("a write of " + to_string(a.n) + " bytes at " + to_string(a.off) + " is not an aligned request inside the device");
    for (auto& x : inflight) if (!x.done && x.fd == a.fd && x.off < a.off + a.n && a.off < x.off + x.n) bad("a write at " + to_string(a.off) + " overlaps an outstanding write at " + to_string(x.off));
    ev["requests of the application judged"]++;
  }
  inflight.push_back(a);
  size_t out = inflight.size();
  ev["asynchronous writes submitted"]++;
  auto& m = ev["max writes in progress"]; m = max<uint64_t>(m, out);
  if (out > aio_limit) bad(to_string(out) + " writes in progress at once");
  if (hook) hook->submitted(inflight.back());
  if (rng.chance(1, 6)) device_moves();
  if (power) power->maybe_powerloss();
  return 0;
}
int __wrap_aio_error(const aiocb* cb) {
  Aio* a = find(cb);
  if (!a) { if (simfd(cb->aio_fildes)) bad("aio_error on a request that is not in progress"); return __real_aio_error(cb); }
  if (rng.chance(1, 4)) device_moves();
  return a->done ? a->err : EINPROGRESS;
}
ssize_t __wrap_aio_return(aiocb* cb) {
  Aio* a = find(cb);
  if (!a) { if (simfd(cb->aio_fildes)) bad("aio_return on a request that is not in progress"); return __real_aio_return(cb); }
  if (!a->done) bad("aio_return before the request completed");
  ssize_t r = a->ret;
  inflight.remove_if([&](const Aio& x) { return x.cb == cb; });
  return r;
}
int __wrap_aio_suspend(const aiocb* const* l, int n, const timespec*) {
  vector<Aio*> w; bool sim = false;
  for (int i = 0; i < n; i++) if (l[i]) { if (Aio* a = find(l[i])) { sim = true; w.push_back(a); } else if (simfd(l[i]->aio_fildes)) sim = true; }
  if (!sim) return __real_aio_suspend(l, n, nullptr);
  ev["waits for the device"]++;
  if (power) power->maybe_powerloss();
  if (w.empty()) bad("waiting for requests of which none is in progress");
  if (rng.chance(1, 20)) { errno = EINTR; ev["waits interrupted"]++; device_moves(); return -1; }
  device_moves();
  for (auto* a : w) if (a->done) return 0;
  int how = rng.below(4);
  if (how == 0) { for (auto& a : inflight) finish(a); }
  else if (how == 1) { for (auto* a : w) finish(*a); }
  else finish(*w[rng.below(w.size())]);
  return 0;
}
}
// what became of the requests a crash left behind: each may or may not have happened
static void drop_dead() {
  for (auto i = inflight.begin(); i != inflight.end();) { if (!fds.count(i->fd)) i = inflight.erase(i); else ++i; }
}

static DafnySequence<uint8> seq(const Bytes& b) { DafnySequence<uint8> s((uint64)b.size()); if (b.size()) memcpy(s.ptr(), b.data(), b.size()); return s; }
static Bytes str(const DafnySequence<uint8>& s) { return Bytes((const char*)s.ptr(), s.size()); }
static Bytes rnd(uint64_t n) { Bytes b; while (b.size() < n) b += (char)rng.next(); return b; }

// ================= io: the disk adapter alone
struct IoRun : SubmitHook {
  struct W { uint64_t id; bool have_id; uint64_t addr; Bytes b; bool submitted; uint64_t seq; };
  vector<W> ws;
  struct R { uint64_t id, addr; Bytes b; };
  vector<R> rs;
  set<uint64_t> used;
  MainDiskIOHandler_Compile::DiskIOHandler* io = nullptr;
  string dev;
  uint64_t size;
  map<uint64_t, Bytes> regions;
  void submitted(Aio& a) override {
    for (auto& w : ws) if (!w.submitted && w.addr == a.off) {
      if (a.n < w.b.size() || a.n >= w.b.size() + 4096 || a.n % 4096) bad("a write of " + to_string(w.b.size()) + " bytes was submitted as " + to_string(a.n));
      if (memcmp(a.at_submit.data(), w.b.data(), w.b.size())) bad("a write was submitted with bytes other than those requested at " + to_string(w.addr));
      w.submitted = true; w.seq = a.seq;
      ev["submitted bytes compared"] += w.b.size();
      evaluations++;
      return;
    }
    bad("a write at " + to_string(a.off) + " was submitted that nobody asked for, or twice");
  }
  bool overlaps(uint64_t a, uint64_t n) { for (auto& w : ws) if (a < w.addr + (w.b.size() + 4095) / 4096 * 4096 && w.addr < a + n) return true; return false; }
  bool device_has(uint64_t addr, const Bytes& b) { auto& d = devs[dev].img; return d.size() >= addr + b.size() && !memcmp(d.data() + addr, b.data(), b.size()); }
  void write_resp() {
    set<uint64_t> could;   // finished before the call
    for (auto& w : ws) if (w.submitted) { bool fin = true; for (auto& a : inflight) if (a.seq == w.seq && !a.done) fin = false; if (fin) could.insert(w.id); }
    bool ok = io->prepareWriteResponse();
    ev["write completions polled"]++;
    if (!ok) { if (!could.empty()) bad("a finished write was not reported"); return; }
    auto t = io->getWriteResult();
    uint64_t id = t.get<0>();
    size_t j = 0; while (j < ws.size() && ws[j].id != id) j++;
    if (j == ws.size()) bad("a completion was reported for id " + to_string(id) + ", which is not outstanding");
    if (t.get<1>() != ws[j].addr || t.get<2>() != ws[j].b.size()) bad("a completion was reported with the wrong address or length");
    if (!ws[j].submitted) bad("a completion was reported for a write that never started");
    for (auto& a : inflight) if (a.seq == ws[j].seq && !a.done) bad("a completion was reported before the device finished");
    if (!device_has(ws[j].addr, ws[j].b)) bad("a completed write is not on the device");
    ws.erase(ws.begin() + j);
    ev["write completions checked"]++; evaluations++;
  }
  void read_resp() {
    bool ok = io->prepareReadResponse();
    if (!ok) { if (!rs.empty()) bad("a finished read was not reported"); return; }
    auto t = io->getReadResult();
    size_t j = 0; while (j < rs.size() && rs[j].id != t.get<0>()) j++;
    if (j == rs.size()) bad("a read completion was reported for an id that is not outstanding");
    if (t.get<1>() != rs[j].addr) bad("a read completion was reported with the wrong address");
    if (str(t.get<2>()) != rs[j].b) bad("a read returned the wrong bytes");
    rs.erase(rs.begin() + j);
    ev["read completions checked"]++; evaluations++;
  }
  void newid(uint64_t id) { if (!used.insert(id).second) bad("request id " + to_string(id) + " was given out twice"); }
  uint64_t pickaddr(uint64_t n) { for (int t = 0; t < 40; t++) { uint64_t a = rng.below(size / 4096) * 4096; if (a + n <= size && !overlaps(a, n)) return a; } return ~0ull; }
  void go() {
    size = 4096 * rng.range(64, 400);
    dev = "sim:io" + to_string(rng.next());
    Dev d; d.exists = true; d.img.resize(size); for (auto& c : d.img) c = rng.next();
    devs[dev] = d;
    hook = this;
    p_done = rng.chance(1, 4) ? 0 : rng.range(1, 70);
    unique_ptr<MainDiskIOHandler_Compile::DiskIOHandler> h(new MainDiskIOHandler_Compile::DiskIOHandler(dev));
    io = h.get();
    uint64_t steps = rng.range(50, 400);
    int wp = rng.range(10, 60);
    bool unaligned = rng.chance(1, 3);
    for (uint64_t i = 0; i < steps; i++) {
      stepno++;
      int x = rng.below(100);
      if (x < wp) {
        bool two = rng.chance(1, 4);
        uint64_t n = 4096 * rng.range(1, 6), n2 = 4096 * rng.range(1, 3);
        if (unaligned) { n -= rng.below(4096); n2 -= rng.below(4096); }
        uint64_t a = pickaddr((n + 4095) / 4096 * 4096);
        if (a == ~0ull) continue;
        Bytes b = rnd(n);
        DafnySequence<uint8> s = seq(b);
        ws.push_back(W{0, false, a, b, false, 0});
        if (two) {
          uint64_t a2 = pickaddr((n2 + 4095) / 4096 * 4096);
          if (a2 == ~0ull) two = false;
          else {
            Bytes b2 = rnd(n2); DafnySequence<uint8> s2 = seq(b2);
            ws.push_back(W{0, false, a2, b2, false, 0});
            auto t = io->write2(a, s, a2, s2);
            memset(s.ptr(), 0xee, s.size()); memset(s2.ptr(), 0xdd, s2.size());
            ws[ws.size() - 2].id = t.get<0>(); ws.back().id = t.get<1>();
            newid(t.get<0>()); newid(t.get<1>());
          }
        }
        if (!two) {
          uint64_t id = io->write(a, s);
          memset(s.ptr(), 0xee, s.size());   // the caller may reuse its memory
          ws.back().id = id; newid(id);
        }
        ev["writes requested"]++;
        if (ws.size() > aio_limit) ev["writes requested beyond the limit in progress"]++;
      } else if (x < wp + 10) {
        uint64_t n = 4096 * rng.range(1, 4), a = pickaddr(n);
        if (a == ~0ull) continue;
        if (unaligned) n -= rng.below(4096);
        Bytes want((const char*)devs[dev].img.data() + a, n);
        uint64_t id = io->read(a, n);
        newid(id);
        rs.push_back(R{id, a, want});
      } else if (x < wp + 18) { if (!rs.empty() || rng.chance(1, 4)) read_resp(); }
      else if (x < wp + 24) { if (!ws.empty()) { uint64_t pend = 0; for (auto& w : ws) { bool fin = w.submitted; for (auto& a : inflight) if (a.seq == w.seq && !a.done) fin = false; pend += !fin; }
          uint64_t before = device_done; io->waitForOne(); ev["waits for one write"]++; (void)before; (void)pend; } }
      else if (x < wp + 28) {
        if (io->has_write_task() != !ws.empty()) bad("has_write_task disagrees with the outstanding requests");
        if (ws.size() > 8) ev["waits for all writes with some not started"]++;
        io->completeWriteTasks();
        ev["waits for all writes"]++;
        for (auto& w : ws) { if (!w.submitted) bad("completeWriteTasks returned before a write was started"); for (auto& a : inflight) if (a.seq == w.seq && !a.done) bad("completeWriteTasks returned before a write finished"); }
      } else {
        if (io->has_read_task() != !rs.empty()) bad("has_read_task disagrees with the outstanding requests");
        write_resp();
      }
    }
    if (rng.chance(1, 3)) {   // drop the handler with requests in progress, as a simulated crash does
      ev["handlers dropped with requests outstanding"] += !ws.empty();
      vector<W> old = ws;
      ws.clear(); hook = nullptr;
      h.reset();
      for (auto& a : inflight) if (!fds.count(a.fd)) finish(a);   // the device finishes what it was given
      drop_dead();
      return;
    }
    uint64_t guard = 0;
    while (!ws.empty()) { if (p_done == 0 || guard % 3 == 2) io->waitForOne(); write_resp(); if (++guard > 3000) bad("a requested write never completed"); }
    while (!rs.empty()) read_resp();
    if (io->prepareWriteResponse() || io->prepareReadResponse()) bad("a completion was reported with nothing outstanding");
    for (auto& a : inflight) if (simfd(a.fd)) bad("a request is still in progress although everything was reported");
    ev["quiescent ends"]++;
    hook = nullptr;
  }
  bool faults() {   // a failed request must never be reported as done
    int k = rng.below(4);
    size = 4096 * 64; dev = "sim:fault" + to_string(rng.next());
    Dev d; d.exists = true; d.img.resize(size); devs[dev] = d;
    auto* h = new MainDiskIOHandler_Compile::DiskIOHandler(dev);
    io = h;
    catch_exit = true;
    bool refused = false;
    try {
      if (k < 2) {
        p_done = 100; fail_kind = k + 1;
        h->write(4096 * rng.below(32), seq(rnd(4096 * rng.range(1, 4))));
        int how = rng.below(3);
        if (how == 0) h->completeWriteTasks(); else if (how == 1) h->waitForOne();
        for (int i = 0; i < 50; i++) if (h->prepareWriteResponse()) break;
      } else {
        read_fault = k - 1;
        h->read(4096 * rng.below(32), 4096 * rng.range(1, 4));
        h->prepareReadResponse();
      }
    } catch (ExitCalled& e) { refused = e.code != 0; }
   
    bool injected = !fail_kind && !read_fault;
    fail_kind = read_fault = 0;
    if (injected && !refused) bad(k < 2 ? "a failed or short write was reported as done" : "a failed or short read was reported as data");
    return injected;
  }
};

// ================= app: Application over the simulated device, against a model
typedef map<Bytes, Bytes> Dict;
static void set_config(int c) {
  cfg_node = 2*1024*1024; cfg_journal = 65536; cfg_indtable = 24*1024*1024; cfg_bucket = 2*1024*1024-65536; cfg_cache = 100; cfg_children = 8; cfg_blocks = 0x100000; cfg_maxkey = 1024; cfg_maxval = 1024;
  switch (c) {
    case 1: cfg_node = 8192; cfg_bucket = 5120; cfg_cache = 400; cfg_journal = 64; cfg_indtable = 65536; cfg_blocks = 4096; cfg_maxkey = 48; cfg_maxval = 64; break;
    case 2: cfg_node = 4096; cfg_bucket = 2048; cfg_cache = 16; cfg_journal = 32; cfg_indtable = 131072; cfg_blocks = 8192; cfg_maxkey = 24; cfg_maxval = 40; break;
    case 3: cfg_node = 16384; cfg_bucket = 12288; cfg_cache = 24; cfg_journal = 128; cfg_indtable = 32768; cfg_blocks = 2048; cfg_maxkey = 64; cfg_maxval = 200; break;
    case 4: cfg_node = 8192; cfg_bucket = 1500; cfg_cache = 900; cfg_children = 5; cfg_journal = 64; cfg_indtable = 131072; cfg_blocks = 8192; cfg_maxkey = 32; cfg_maxval = 48; break;   // deep trees
  }
}
static int keyset; static uint64_t nkeys, vcount;
static Bytes gen_key() {
  uint64_t i = rng.below(nkeys); Bytes k;
  switch (keyset) {
    case 0: k = "k"; for (int j = 2; j >= 0; j--) k += (char)(i >> (8 * j)); break;
    case 1: { uint64_t h = i * 0x9e3779b97f4a7c15ULL; for (int j = 0; j < 8; j++) k += (char)(h >> (8 * j)); break; }
    case 2: k = Bytes(i % (cfg_maxkey + 1), (char)(i / (cfg_maxkey + 1) * 37)); break;
    default: { k = Bytes(cfg_maxkey, 0); Rng r{i}; for (auto& c : k) c = (char)r.next(); break; }
  }
  if (k.size() > cfg_maxkey) k.resize(cfg_maxkey);
  return k;
}
static Bytes gen_val() {
  if (rng.chance(1, 8)) return Bytes();
  uint64_t n = rng.chance(1, 20) ? cfg_maxval : rng.range(1, cfg_maxval), c = ++vcount;
  Bytes v; for (int j = 0; j < 8 && v.size() < n; j++) v += (char)(c >> (8 * j));
  while (v.size() < n) v += (char)('A' + v.size() % 26);
  return v;
}
static ByteString bs(const Bytes& b) { return ByteString(b); }
// the version of log over base that equals d
static int64_t find_version(Dict base, const vector<pair<Bytes, Bytes>>& log, const Dict& d, uint64_t least) {
  auto at = [](const Dict& m, const Bytes& k) -> const Bytes& { static Bytes e; auto i = m.find(k); return i == m.end() ? e : i->second; };
  set<Bytes> diff;
  for (auto& p : base) if (at(d, p.first) != p.second) diff.insert(p.first);
  for (auto& p : d) if (at(base, p.first) != p.second) diff.insert(p.first);
  int64_t seen = diff.empty() ? 0 : -1;
  if (seen == 0 && !least) return 0;
  for (size_t i = 0; i < log.size(); i++) {
    base[log[i].first] = log[i].second;
    if (at(d, log[i].first) == log[i].second) diff.erase(log[i].first); else diff.insert(log[i].first);
    if (diff.empty()) { seen = i + 1; if (i + 1 >= least) return i + 1; }
  }
  return seen;   // -1: no prefix at all; below least: a prefix that lacks synced operations
}
extern "C" char** environ;
struct AppRun : PowerHook {
  uint64_t synced = 0; const pair<Bytes, Bytes>* pending = nullptr; int loss = 0; bool losing = false;
  string dev; Dict base, cur; vector<pair<Bytes, Bytes>> log; Application* app = nullptr; int cfg; bool scans;
  template <class F> void guard(const char* what, F f) {
    catch_exit = true;
    try { f(); } catch (ExitCalled& e) { string m = captured.str(); size_t p = m.rfind("fatal error"); bad(string(what) + " ended the process: " + (p == string::npos ? "" : m.substr(p, 120))); }
   
    captured.str("");
  }
  void put(const Bytes& k, const Bytes& v) { pair<Bytes, Bytes> pd{k, v}; pending = &pd; guard("insert", [&] { app->Insert(bs(k), bs(v)); }); pending = nullptr; log.push_back({k, v}); if (v.empty()) cur.erase(k); else cur[k] = v; ev["inserts"]++; }
  Bytes get(const Bytes& k) { Bytes r; guard("lookup", [&] { r = app->Query(bs(k)).as_string(); }); return r; }
  void check_get(const Bytes& k) { auto i = cur.find(k); Bytes w = i == cur.end() ? Bytes() : i->second; Bytes r = get(k); ev["lookups compared"]++; evaluations++; if (!w.empty()) ev["lookups with a value"]++; if (r != w) bad("lookup of " + hex(k) + " returned " + hex(r) + ", expected " + hex(w)); }
  void check_scan(const Bytes& k, bool inc, uint64_t n) {
    vector<pair<ByteString, ByteString>> r;
    guard("scan", [&] { r = app->Succ(bs(k), inc, n); });
    auto it = inc ? cur.lower_bound(k) : cur.upper_bound(k);
    size_t i = 0;
    for (; i < r.size(); i++, ++it) {
      if (it == cur.end()) bad("scan returned an entry beyond the last: " + hex(r[i].first.as_string()));
      if (r[i].first.as_string() != it->first || r[i].second.as_string() != it->second) bad("scan entry " + to_string(i) + " is " + hex(r[i].first.as_string()) + " -> " + hex(r[i].second.as_string()) + ", expected " + hex(it->first) + " -> " + hex(it->second));
    }
    if (r.size() > n) bad("scan returned more than asked");
    if (r.size() < n && it != cur.end()) bad("scan stopped early, before " + hex(it->first));
    ev["scans compared"]++; ev["scan entries compared"] += r.size(); evaluations++;
  }
  Dict contents() {
    Dict d;
    for (auto& p : base) d[p.first]; for (auto& p : log) d[p.first];
    for (auto i = d.begin(); i != d.end();) { i->second = get(i->first); if (i->second.empty()) i = d.erase(i); else ++i; }
    return d;
  }
  void after_crash(uint64_t min_version) {
    // sometimes the first thing a recovered store does is a scan; it is judged once its contents are known
    bool early = scans && rng.chance(1, 2), inc = rng.chance(1, 2); Bytes k0 = gen_key(); uint64_t n0 = rng.chance(1, 2) ? 1 : rng.range(1, 40);
    vector<pair<ByteString, ByteString>> r0;
    if (early) guard("scan", [&] { r0 = app->Succ(bs(k0), inc, n0); });
    Dict d = contents();
    int64_t v = find_version(base, log, d, min_version);
    if (v < (int64_t)min_version) bad(v < 0 ? "state after a crash matches no prefix of the accepted operations" : "a synced operation was lost in a crash");
    ev["crash states matched"]++; evaluations++;
    if ((size_t)v < log.size()) ev["crash lost an unsynced suffix"]++;
    base = cur = d; log.clear();
    if (early) {
      auto it = inc ? cur.lower_bound(k0) : cur.upper_bound(k0); size_t i = 0;
      for (; i < r0.size() && it != cur.end(); i++, ++it) if (r0[i].first.as_string() != it->first || r0[i].second.as_string() != it->second) break;
      if (i < r0.size() || (r0.size() < n0 && it != cur.end())) bad("scan right after a restart differs from the contents at entry " + to_string(i));
      ev["scans right after a restart"]++; evaluations++;
    }
  }
  // The power fails now: any subset of the writes in progress took place. Another process starts the store on what is left.
  void maybe_powerloss() override { if (loss && !losing && rng.chance(1, loss)) { losing = true; powerloss(); losing = false; } }
  void powerloss() {
    auto log2 = log; if (pending) log2.push_back(*pending);
    string f = scratch_dir + "/pl" + to_string(getpid()), out = f + ".out";
    Dev& d = devs[dev];
    vector<uint8_t> img = d.img; vector<bool> pages = d.pages;
    int how = rng.below(4); size_t lost = 0;
    for (auto& v : d.vol) if (how == 0 || (how > 1 && rng.chance(1, 2))) { lost++; if (v.second.empty()) pages[v.first] = false; else copy(v.second.begin(), v.second.end(), img.begin() + v.first * 4096); }
    for (auto& a : inflight) if (!a.done) {
      if (how == 0 || (how > 1 && rng.chance(1, 2))) { lost++; continue; }
      if (img.size() < a.off + a.n) img.resize(a.off + a.n);
      memcpy(img.data() + a.off, a.at_submit.data(), a.n);
      Dev t; t.touched(a.off, a.n); if (pages.size() < t.pages.size()) pages.resize(t.pages.size());
      for (size_t i = a.off / 4096; i < t.pages.size(); i++) pages[i] = true;
    }
    Dict keys = base; for (auto& p : log2) keys[p.first];
    FILE* fp = fopen(f.c_str(), "wb"); if (!fp) return;
    auto w64 = [&](uint64_t x) { fwrite(&x, 8, 1, fp); };
    w64(cfg); w64(keys.size()); for (auto& k : keys) { w64(k.first.size()); fwrite(k.first.data(), 1, k.first.size(), fp); }
    uint64_t np = 0; for (bool b : pages) np += b;
    w64(np); img.resize(max<size_t>(img.size(), pages.size() * 4096));
    for (size_t i = 0; i < pages.size(); i++) if (pages[i]) { w64(i); fwrite(img.data() + i * 4096, 1, 4096, fp); }
    fclose(fp);
    unlink(out.c_str());
    pid_t c = fork();
    if (c == 0) { string sd = to_string(rng.next()); setenv("ASAN_OPTIONS", "detect_leaks=0", 1); execl("/proc/self/exe", "vbapp", "recover", sd.c_str(), "60", f.c_str(), (char*)0); _exit(99); }
    int st; waitpid(c, &st, 0);
    Bytes o; if ((fp = fopen(out.c_str(), "rb"))) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) o.append(b, n); fclose(fp); }
    unlink(f.c_str()); unlink(out.c_str());
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return; bad("the store could not be opened and read after a power loss (status " + to_string(st) + ") " + o.substr(0, 150)); }
    Dict got; size_t q = 0;
    for (auto& k : keys) { uint32_t l; memcpy(&l, o.data() + q, 4); q += 4; if (l) got[k.first] = o.substr(q, l); q += l; }
    int64_t v = find_version(base, log2, got, synced);
    if (v < (int64_t)synced) bad(v < 0 ? "state after a power loss matches no prefix of the accepted operations" : "a synced operation was lost in a power loss (prefix " + to_string(v) + ", synced " + to_string(synced) + ")");
    ev["power losses matched to a prefix"]++; evaluations++;
    if (lost) ev["power losses that dropped writes in progress"]++;
    if ((size_t)v < log2.size()) ev["power losses that lost an unsynced suffix"]++;
  }
  void go() {
    cfg = mode == "prodapp" ? 0 : 1 + rng.below(4);
    set_config(cfg);
    scans = cfg == 1 || cfg == 4 || cfg == 0;
    keyset = rng.below(4); nkeys = rng.chance(1, 3) ? rng.range(2, 40) : rng.range(40, 900);
    if (keyset == 2) nkeys = min<uint64_t>(nkeys, 7 * (cfg_maxkey + 1));
    p_done = rng.range(2, 70);
    if (rng.chance(1, 4)) { p_done = 0; scans = false; ev["application runs on a device that finishes one write at a time, when waited for"]++; }
    dev = "sim:app";
    devs.erase(dev);
    ctx += " config=" + to_string(cfg) + " keyset=" + to_string(keyset) + " keys=" + to_string(nkeys);
    device_bytes = cfg_blocks * cfg_node; strict = true;
    guard("mkfs", [&] { Mkfs(dev); });
    guard("start", [&] { app = new Application(dev); });
    check_get(gen_key());
    uint64_t steps = rng.range(200, mode == "prodapp" ? 30000 : cfg == 4 ? 6000 : 2500);
    if (cfg == 4) { nkeys = rng.range(300, 6000); if (keyset == 2) nkeys = min<uint64_t>(nkeys, 7 * (cfg_maxkey + 1)); }
    if (mode == "lossapp") { loss = rng.range(10, 120); power = this; steps = rng.range(100, 1200); }
    for (uint64_t i = 0; i < steps; i++) {
      stepno++;
      int x = rng.below(100);
      if (x < 60) put(gen_key(), gen_val());
      else if (x < 85) check_get(gen_key());
      else if (x < 92) { if (scans) check_scan(gen_key(), rng.chance(1, 2), rng.chance(1, 3) ? 1 : rng.range(1, 80)); }
      else if (x < 95) {
        bool g = rng.chance(1, 3);
        put(gen_key(), gen_val());
        guard("sync", [&] { app->Sync(g); });
        synced = log.size();
        ev[g ? "checkpoint syncs" : "log syncs"]++;
      } else if (x < 96 && rng.chance(1, 2)) {
        guard("crash", [&] { app->crash(); });
        for (auto& a : inflight) if (!fds.count(a.fd) && rng.chance(1, 2)) finish(a);
        drop_dead();
        ev["crashes"]++;
        after_crash(synced); synced = 0;
      } else if (x < 97) {   // limits
        bool k = rng.chance(1, 2); string m;
        auto over = [&](uint64_t m) { int h = rng.below(6); return h < 3 ? m + 1 + rng.below(3) : h == 3 ? 256 * rng.range(m / 256 + 1, 400) + rng.below(m + 1) : h == 4 ? 65536 * rng.range(1, 3) + rng.below(m + 1) : rng.range(m + 1, 100000); };
        Bytes key = k ? Bytes(over(cfg_maxkey), 'x') : gen_key(), val = k ? Bytes("v") : Bytes(over(cfg_maxval), 'y');
        bool refused = false;
        catch_exit = true; try { app->Insert(bs(key), bs(val)); } catch (ExitCalled& e) { refused = e.code != 0; }
        if (!refused) bad(string("an over-long ") + (k ? "key" : "value") + " was accepted");
        ev["over-long keys or values refused"]++; evaluations++;
      }
    }
    for (auto& p : Dict(cur)) check_get(p.first);
    if (scans && !cur.empty()) check_scan(Bytes(), true, cur.size() + 5);
    put(gen_key(), gen_val());
    guard("sync", [&] { app->Sync(rng.chance(1, 2)); });
    synced = log.size();
    if (loss) powerloss();
    power = nullptr;
    guard("crash", [&] { app->crash(); });
    drop_dead();
    after_crash(log.size());
    guard("shutdown", [&] { delete app; });
    drop_dead();
    ev["application runs"]++;
  }
};

// ================= mkfsapp: the image that formatting leaves, on a fresh device and over an old store
struct MkfsRun : AppRun {
  void image() {
    DafnyMap<uint64, DafnySequence<uint8>> want;
    guard("mkfs", [&] { want = handle_Mkfs(); });
    Dev& d = devs[dev];
    vector<bool> in;
    for (auto& p : want.map) {
      uint64_t a = p.first, n = ((uint64_t)p.second.size() + 4095) / 4096 * 4096;
      if (a % 4096 || p.second.size() == 0 || a + n > device_bytes) bad("a formatted block at " + to_string(a) + " of " + to_string(p.second.size()) + " bytes is not an aligned block inside the device");
      if (d.img.size() < a + p.second.size() || memcmp(d.img.data() + a, p.second.ptr(), p.second.size())) bad("formatting did not put the block for " + to_string(a) + " there");
      if (in.size() < (a + n) / 4096) in.resize((a + n) / 4096);
      for (uint64_t i = a / 4096; i < (a + n) / 4096; i++) { if (in[i]) bad("formatted blocks overlap at " + to_string(i * 4096)); in[i] = true; }
      ev["formatted blocks compared"]++; evaluations++;
    }
  }
  void empty() {
    for (int i = 0; i < 12; i++) check_get(i ? gen_key() : Bytes());
    if (scans) { check_scan(Bytes(), true, 5); check_scan(gen_key(), rng.chance(1, 2), 3); }
    ev["formatted stores checked empty"]++;
  }
  void go() {
    cfg = rng.chance(1, 40) ? 0 : 1 + rng.below(3);
    set_config(cfg); scans = cfg == 1 || cfg == 0;
    keyset = rng.below(4); nkeys = rng.range(2, 300);
    if (keyset == 2) nkeys = min<uint64_t>(nkeys, 7 * (cfg_maxkey + 1));
    p_done = rng.range(2, 70); dev = "sim:mk"; devs.erase(dev);
    ctx += " config=" + to_string(cfg);
    device_bytes = cfg_blocks * cfg_node; strict = true;
    int rounds = rng.range(1, 4);
    for (int r = 0; r < rounds; r++) {
      stepno = r;
      bool fresh = r == 0;
      guard("mkfs", [&] { Mkfs(dev); });
      image();
      base.clear(); cur.clear(); log.clear(); synced = 0;
      guard("start", [&] { app = new Application(dev); });
      empty();
      if (rng.chance(1, 3)) { guard("crash", [&] { app->crash(); }); drop_dead(); empty(); }
      uint64_t n = rng.below(120);
      for (uint64_t i = 0; i < n; i++) {
        put(gen_key(), gen_val());
        if (rng.chance(1, 12)) { guard("sync", [&] { app->Sync(rng.chance(1, 2)); }); synced = log.size(); }
        if (rng.chance(1, 60)) { guard("crash", [&] { app->crash(); }); drop_dead(); after_crash(synced); synced = 0; }
      }
      for (auto& p : Dict(cur)) check_get(p.first);
      guard("shutdown", [&] { delete app; }); app = nullptr;
      for (auto& a : inflight) finish(a);
      drop_dead(); fds.clear();
      for (auto& x : devs) x.second.opens = 0;
      ev[fresh ? "fresh devices formatted" : "old stores formatted again"]++;
    }
  }
};
static int recover(const char* file) {
  FILE* fp = fopen(file, "rb"); if (!fp) return 90;
  auto r64 = [&]() { uint64_t x = 0; if (fread(&x, 8, 1, fp) != 1) _exit(91); return x; };
  set_config(r64()); device_bytes = cfg_blocks * cfg_node; strict = true; p_done = 50;
  vector<Bytes> keys(r64()); for (auto& k : keys) { k.resize(r64()); if (k.size() && fread(&k[0], 1, k.size(), fp) != k.size()) _exit(91); }
  Dev& d = devs["sim:app"]; d.exists = true;
  for (uint64_t n = r64(); n; n--) { uint64_t i = r64(); if (d.img.size() < (i + 1) * 4096) d.img.resize((i + 1) * 4096); if (fread(d.img.data() + i * 4096, 1, 4096, fp) != 4096) _exit(91); d.touched(i * 4096, 4096); }
  fclose(fp);
  string out, err; int rc = 0;
  try {
    Application* app = new Application("sim:app");
    for (auto& k : keys) { Bytes v = app->Query(bs(k)).as_string(); uint32_t n = v.size(); out.append((char*)&n, 4); out += v; }
  } catch (RunAborted&) { rc = 92; err = violations[0]; } catch (ExitCalled&) { rc = 93; string m = captured.str(); size_t p = m.rfind("fatal error"); err = p == string::npos ? "" : m.substr(p, 120); } catch (...) { rc = 94; }
  fp = fopen((string(file) + ".out").c_str(), "wb"); if (!fp) return 95;
  if (rc) out = err;
  fwrite(out.data(), 1, out.size(), fp); fclose(fp);
  return rc;
}
// ================= kill: a real process on a real file, killed at a random moment
struct Shared { volatile uint64_t acked, synced; };
static void kill_run() {
  set_config(rng.chance(1, 4) ? 0 : 1 + rng.below(3));
  keyset = rng.below(4); nkeys = rng.range(5, 400);
  if (keyset == 2) nkeys = min<uint64_t>(nkeys, 7 * (cfg_maxkey + 1));
  string path = scratch_dir + "/img" + to_string(getpid());
  unlink(path.c_str());
  Mkfs(path);
  Shared* sh = (Shared*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Dict base;
  int rounds = rng.range(1, 4);
  for (int r = 0; r < rounds; r++) {
    stepno = r;
    vector<pair<Bytes, Bytes>> ops; vector<int> sy;
    for (int i = 0; i < 600; i++) { ops.push_back({gen_key(), gen_val()}); sy.push_back(rng.chance(1, 12) ? (rng.chance(1, 4) ? 2 : 1) : 0); }
    sh->acked = sh->synced = 0;
    pid_t c = fork();
    if (c == 0) {
      freopen("/dev/null", "w", stdout);
      Application app(path);
      for (size_t i = 0; i < ops.size(); i++) { app.Insert(bs(ops[i].first), bs(ops[i].second)); sh->acked = i + 1; if (sy[i]) { app.Sync(sy[i] == 2); sh->synced = i + 1; } }
      _exit(0);
    }
    usleep(rng.chance(1, 8) ? 400000 : rng.below(1 << rng.range(8, 17)));
    kill(c, SIGKILL);
    int st; waitpid(c, &st, 0);
    bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
    if (!killed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad("the process failed on its own before it was killed (status " + to_string(st) + ")");
    uint64_t acked = sh->acked, synced = sh->synced;
    ev[killed ? "processes killed" : "processes that finished first"]++;
    if (acked > synced) ev["killed with unsynced operations"]++;
    ops.resize(min<size_t>(ops.size(), acked + 1));   // the one in progress may or may not count
    // recover in another process
    int p[2]; if (pipe(p)) return;
    c = fork();
    if (c == 0) {
      freopen("/dev/null", "w", stdout);
      Application app(path);
      set<Bytes> ks; for (auto& x : base) ks.insert(x.first); for (auto& x : ops) ks.insert(x.first);
      string out;
      for (auto& k : ks) { Bytes v = app.Query(bs(k)).as_string(); uint32_t n = v.size(); out.append((char*)&n, 4); out += v; }
      size_t q = 0; while (q < out.size()) { ssize_t w = write(p[1], out.data() + q, out.size() - q); if (w <= 0) _exit(3); q += w; }
      _exit(0);
    }
    close(p[1]);
    string in; char buf[65536]; ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) in.append(buf, n);
    close(p[0]);
    waitpid(c, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad("the store could not be opened and read after a kill (status " + to_string(st) + ")");
    set<Bytes> ks; for (auto& x : base) ks.insert(x.first); for (auto& x : ops) ks.insert(x.first);
    Dict d; size_t q = 0;
    for (auto& k : ks) { uint32_t l; memcpy(&l, in.data() + q, 4); q += 4; if (l) d[k] = in.substr(q, l); q += l; }
    int64_t v = find_version(base, ops, d, synced);
    if (v < (int64_t)synced) bad(v < 0 ? "after a kill the contents match no prefix of the accepted operations" : "a synced operation was lost in a kill (prefix " + to_string(v) + ", synced " + to_string(synced) + ")");
    ev["killed stores matched to a prefix"]++; evaluations++;
    base = d;
  }
  munmap(sh, 4096);
  unlink(path.c_str());
}


int main(int argc, char** argv) {
  mode = argv[1];
  uint64_t seed = strtoull(argv[2], 0, 10), secs = strtoull(argv[3], 0, 10), only = argc > 4 && mode != "recover" ? strtoull(argv[4], 0, 10) : 0;
  if (const char* s = getenv("VB_SCRATCH")) scratch_dir = s;
  cout.rdbuf(captured.rdbuf());
  catch_exit = mode != "kill";
  set_terminate([] { if (!aborting) violations.push_back("terminate called [" + ctx + "]"); emit_result(); });
  dfy_tick_limit = 3000000000ull;
  if (mode == "recover") { rng.s = seed; _exit(recover(argv[4])); }
  auto t0 = chrono::steady_clock::now();
  auto left = [&] { return chrono::duration<double>(chrono::steady_clock::now() - t0).count() < secs; };
  fprintf(stderr, "vbapp %s seed=%lu\n", mode.c_str(), (unsigned long)seed);
  for (uint64_t k = 0; left() && violations.size() < 3; k++) {
    if (only && k + 1 != only) { if (k + 1 > only) break; continue; }
    rng.s = seed * 1000003 + k; stepno = 0; aborting = false; hook = nullptr; power = nullptr; strict = false; inflight.clear();
    captured.str("");
    ctx = "mode=" + mode + " seed=" + to_string(seed) + " run=" + to_string(k + 1);
    distinct_n++;
    try {
      if (mode == "io") { IoRun r; r.go(); fds.clear(); devs.clear(); if (rng.chance(1, 4)) {   // in a process of its own: the framework is expected to give up
          uint64_t sd = rng.next();
          pid_t c = fork();
          if (c == 0) { rng.s = sd; int rc = 0; try { IoRun f; rc = f.faults() ? 10 : 0; } catch (RunAborted&) { rc = 11; } catch (...) { rc = 12; } _exit(rc); }
          int st; waitpid(c, &st, 0);
          int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
          if (rc == 10) { ev["injected faults refused"]++; evaluations++; }
          else if (rc == 11) bad("a failed or short disk operation was reported as done (fault seed " + to_string(sd) + ")");
          else if (rc != 0) bad("an injected disk fault crashed the process (status " + to_string(st) + ", fault seed " + to_string(sd) + ")");
        } ev["adapter histories"]++; }
      else if (mode == "mkfsapp") { MkfsRun r; r.go(); devs.clear(); fds.clear(); }
      else if (mode == "app" || mode == "prodapp" || mode == "lossapp") { AppRun r; r.go(); devs.clear(); fds.clear(); }
      else if (mode == "kill") kill_run();
    } catch (RunAborted&) { break; }   // the framework keeps global state: stop this process at the first violation
    catch (ExitCalled& e) { string m = captured.str(); size_t p = m.rfind("fatal error"); violations.push_back("the framework ended the process: " + (p == string::npos ? "" : m.substr(p, 120)) + " [" + ctx + " step=" + to_string(stepno) + "]"); break; }
    catch (...) { violations.push_back("exception [" + ctx + "]"); break; }
    if (samples.size() < 4) samples.push_back(ctx + " steps=" + to_string(stepno));
  }
  emit_result();
}
