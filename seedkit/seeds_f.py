S = []
CFG = '''#include "Application.h"
#include <cstdint>
#include <fcntl.h>
#include <sys/resource.h>
#include <csignal>
#include <aio.h>
using namespace std;
uint64_t cfg_node = 8192, cfg_journal = 64, cfg_indtable = 65536, cfg_bucket = 5120, cfg_cache = 400, cfg_children = 8, cfg_blocks = 4096, cfg_maxkey = 48, cfg_maxval = 64;
[[maybe_unused]] static void quiet() { }
void benchmark_start(string const&) {} void benchmark_end(string const&) {} void benchmark_append(string const&, long long) {} void benchmark_clear() {} void benchmark_dump() {}
namespace NativeBenchmarking_Compile { void start(DafnySequence<char>) {} void end(DafnySequence<char>) {} }
'''
def app(id, prop, edits, needs, breaks, main, pre="", defs=""):
    S.append({"id": id, "property": prop, "kit": "app", "edits": edits, "needs": needs, "breaks": breaks, "files": {"demo.cpp": CFG + main},
              "demo": f'{pre} exec python3 "$here/appdemo.py" demo.cpp {defs}'})
IO = '''
using MainDiskIOHandler_Compile::DiskIOHandler;
static DafnySequence<uint8> seq(size_t n, uint8_t f) { DafnySequence<uint8> s((uint64)n); memset(s.ptr(), f, n); return s; }
static void mkfile(const char* f, size_t n) { int fd = open(f, O_CREAT | O_RDWR, 0600); ftruncate(fd, n); close(fd); }
'''
app("F01-resplen", "F01", [("framework/Framework.cpp", "      this->done = false;\n      this->made_req = false;\n\n      nWriteReqsWaiting++;", "      this->done = false;\n      this->made_req = false;\n      this->len = aligned_len;\n\n      nWriteReqsWaiting++;")],
    "a write whose length is not a multiple of 4096", "the response reports another length than the request, so the store takes it for an unknown request", IO + '''
int main() {
  mkfile("d", 1 << 20);
  auto io = make_shared<DiskIOHandler>("d");
  for (uint64 n : {4096, 8192, 5000, 12000}) {
    uint64 id = io->write(8192, seq(n, 7));
    io->completeWriteTasks();
    if (!io->prepareWriteResponse()) { puts("no response"); return 1; }
    auto r = io->getWriteResult();
    if (r.get<0>() != id || r.get<1>() != 8192 || r.get<2>() != n) { printf("response (%lu,%lu,%lu) for a write of %lu at 8192\\n", (unsigned long)r.get<0>(), (unsigned long)r.get<1>(), (unsigned long)r.get<2>(), (unsigned long)n); return 1; }
  }
  return 0;
}
''')
app("F01-short", "F01", [("framework/Framework.cpp", "          if (ret < 0 || (size_t)ret != aligned_len) {", "          if (ret < 0 || ret == 0) {")],
    "the kernel completes a write only partially (disk full, file size limit)", "a partial write is reported to the store as complete", IO + '''
extern "C" ssize_t __real_aio_return(aiocb*);
extern "C" ssize_t __wrap_aio_return(aiocb* a) { ssize_t r = __real_aio_return(a); return r > 4096 ? r - 4096 : r; }
extern "C" void __wrap_exit(int c) { fflush(stdout); _exit(c ? 0 : 1); }   // refusing to go on is right
int main() {
  mkfile("d", 1 << 20);
  signal(SIGABRT, [](int) { _exit(0); });
  auto io = make_shared<DiskIOHandler>("d");
  io->write(8192, seq(8192, 7));
  io->completeWriteTasks();
  if (io->prepareWriteResponse()) { puts("a write that stored 4096 of 8192 bytes was reported complete"); _exit(1); }
  _exit(0);
}
''', pre="WRAPS='aio_return exit'")
ROW = '''#include "Application.h"
#include <list>
#include <unordered_map>
using namespace std;
int main() {
  const uint64_t CAP = 1 << 18;
  RowCache rc; list<uint64_t> lru; unordered_map<uint64_t, list<uint64_t>::iterator> pos;
  auto key = [](uint64_t x) { return ByteString(string((const char*)&x, 8)); };
  auto set = [&](uint64_t x) { rc.set(key(x), key(x)); if (pos.count(x)) lru.splice(lru.begin(), lru, pos[x]); else { if (lru.size() == CAP) { pos.erase(lru.back()); lru.pop_back(); } lru.push_front(x); pos[x] = lru.begin(); } };
  auto get = [&](uint64_t x) { auto r = rc.get(key(x)); if (r.has_value() != (pos.count(x) > 0)) { printf("row %lu is %s\\n", (unsigned long)x, r.has_value() ? "still cached" : "gone"); exit(1); } if (pos.count(x)) lru.splice(lru.begin(), lru, pos[x]); };
  uint64_t s = 1; auto rnd = [&](uint64_t n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (s >> 33) % n; };
  for (uint64_t i = 0; i < CAP; i++) set(i);
  for (uint64_t i = 0; i < 3 * CAP; i++) { uint64_t x = rnd(CAP + CAP / 8); if (rnd(3)) set(x); else get(x); if (i % 1000 == 0) set(lru.back()); }
  for (uint64_t i = 0; i < CAP + CAP / 8; i++) { uint64_t y = i; if (!pos.count(y)) get(y); }
  while (lru.size() > CAP / 2) { uint64_t x = lru.back(); get(x); lru.pop_back(); pos.erase(x); lru.size(); break; }
  return 0;
}
'''
S.append({"id": "F03-tail", "property": "F03", "kit": "app", "edits": [("framework/UnverifiedRowCache.cpp", "    int prev = queue[idx].prev;\n    int next = queue[idx].next;\n    if (prev != -1) {", "    int prev = queue[idx].prev;\n    int next = queue[idx].next;\n    if (prev != -1 && next != -1) {")],
  "needs": "a full cache whose oldest row is written again just before a new row arrives", "breaks": "rewriting the oldest row does not make it recent: it is evicted first", "files": {"demo.cpp": ROW},
  "demo": 'd=$(mktemp -d); trap "/bin/rm -rf $d" EXIT\nclang++ -std=c++17 -msse4.2 -mpclmul -w -O2 -I"$here" -Iframework "$here/demo.cpp" "$here/DafnyRuntime.cpp" framework/UnverifiedRowCache.cpp -o $d/h || exit 1\n$d/h'})
S.append({"id": "F04-cmp", "property": "F04", "kit": "app", "edits": [("framework/NativeArrays.h", "int result = memcmp(b1.ptr(), b2.ptr(), b1", "int result = strncmp((const char*)b1.ptr(), (const char*)b2.ptr(), b1")],
  "needs": "two byte strings that agree up to and including a zero byte and differ later", "breaks": "they compare as equal, or by length only", "files": {"demo.cpp": """#include "Framework.h"
#include <string>
#include <cstdio>
static DafnySequence<uint8> seq(std::string s) { DafnySequence<uint8> r((uint64)s.size()); memcpy(r.ptr(), s.data(), s.size()); return r; }
int main() {
  std::string v[] = {std::string("a\\0b", 3), std::string("a\\0c", 3), std::string("a\\0a", 3), std::string("a\\0", 2), "a", "b", std::string("\\xff\\0", 2)};
  for (auto& x : v) for (auto& y : v) { int c = NativeArrays_Compile::ByteSeqCmpByteSeq(seq(x), seq(y)); int e = x < y ? -1 : x > y ? 1 : 0; if ((c > 0) - (c < 0) != e) { puts("wrong order"); return 1; } }
  return 0;
}
"""},
  "demo": 'd=$(mktemp -d); trap "/bin/rm -rf $d" EXIT\nclang++ -std=c++17 -msse4.2 -mpclmul -w -O1 -I"$here" -Iframework "$here/demo.cpp" "$here/DafnyRuntime.cpp" -o $d/h || exit 1\n$d/h'})
app("F02-succ", "F02", [("framework/Framework.cpp", "    if (srl.end.is_RangeEnd_EExclusive()) {\n      start = UI_Compile::RangeStart::create_SInclusive(srl.end.dtor_key());\n    } else {", "    if (srl.end.is_RangeEnd_EExclusive() && srl.results.size() > 0) {\n      start = UI_Compile::RangeStart::create_SInclusive(srl.end.dtor_key());\n    } else {")],
    "a scan that crosses a leaf holding no live entries, followed by a leaf whose first key is its lower bound", "the application's scan leaves out that key", '''
int main() {
  freopen("/dev/null", "w", stderr);
  Mkfs("d"); truncate("d", 8192 * 4096);
  Application app("d");
  uint64_t s = 7; auto rnd = [&](uint64_t n) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return (s >> 33) % n; };
  map<string, string> m;
  auto key = [&](uint64_t i) { char b[32]; snprintf(b, 32, "k%06lu", (unsigned long)i); return string(b); };
  const uint64_t N = 3000;
  auto put = [&](uint64_t i, string v) { app.Insert(ByteString(key(i)), ByteString(v)); if (v.empty()) m.erase(key(i)); else m[key(i)] = v; };
  for (int r = 0; r < 3; r++) for (uint64_t i = 0; i < N; i++) put(rnd(N), string(20, 'a' + r));
  for (uint64_t b = 0; b + 200 < N; b += 300) for (int r = 0; r < 2; r++) for (uint64_t i = 0; i < 200; i++) put(b + i, "");
  app.Sync(true);
  for (uint64_t st = 0; st < N; st += 50) {
    auto got = app.Succ(ByteString(key(st)), true, 250);
    auto it = m.lower_bound(key(st));
    for (size_t i = 0; i < 250 && it != m.end(); i++, ++it) if (i >= got.size() || got[i].first.as_string() != it->first) { printf("scan from %s: entry %zu should be %s\\n", key(st).c_str(), i, it->first.c_str()); fflush(stdout); _exit(1); }
  }
  _exit(0);
}
''')
