from seeds_f import CFG, IO
S = []
F = "framework/Framework.cpp"
def app(id, prop, edits, needs, breaks, main, pre="", defs=""):
    S.append({"id": id, "property": prop, "kit": "app", "edits": edits, "needs": needs, "breaks": breaks, "files": {"demo.cpp": CFG + main},
              "demo": f'{pre} exec python3 "$here/appdemo.py" demo.cpp {defs}'})
app("V03-lazy", "V03", [(F, "    fd = open(filename.c_str(), O_RDWR | O_DIRECT_FLAG | O_DSYNC | O_NOATIME);", "    fd = open(filename.c_str(), O_RDWR | O_DIRECT_FLAG | O_NOATIME);")],
    "a power loss while the kernel still holds completed writes in its cache", "a sync completes although its data is only in the kernel's cache", '''
#include <cstdarg>
#include <map>
#include <set>
static map<int, bool> sync_fd; static set<int> dirty;
extern "C" { int __real_open(const char*, int, ...); int __real_aio_write(aiocb*); int __real_fsync(int); int __real_fdatasync(int);
int __wrap_open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); int fd = __real_open(p, fl, m); sync_fd[fd] = fl & O_DSYNC; dirty.erase(fd); return fd; }
int __wrap_aio_write(aiocb* c) { if (!sync_fd[c->aio_fildes]) dirty.insert(c->aio_fildes); return __real_aio_write(c); }
int __wrap_fsync(int fd) { dirty.erase(fd); return __real_fsync(fd); }
int __wrap_fdatasync(int fd) { dirty.erase(fd); return __real_fdatasync(fd); } }
int main() {
  Mkfs("d"); truncate("d", 8192 * 4096);
  Application app("d");
  for (int i = 0; i < 200; i++) { app.Insert("k" + to_string(i), "v" + to_string(i)); if (i % 50 == 49) { app.Sync(i % 100 == 99); if (!dirty.empty()) { puts("a sync completed with data only in the kernel's cache"); fflush(stdout); _exit(1); } } }
  _exit(0);
}
''', pre="WRAPS='open aio_write fsync fdatasync'")
app("F01-readround", "F01", [(F, "    DafnySequence<uint8_t> bytes(len);\n    uint64 aligned_len = len;", "    DafnySequence<uint8_t> bytes(len);\n    uint64 aligned_len = (len + 511) & ~511ULL;")],
    "a read whose length is not a multiple of 512", "the read stores bytes beyond the end of the buffer it returns", IO + '''
extern "C" ssize_t __real_pread(int, void*, size_t, off_t);
static size_t most; extern "C" ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { most = n; return __real_pread(fd, b, n, o); }
#include <malloc.h>
int main() {
  mkfile("d", 1 << 20);
  auto io = make_shared<DiskIOHandler>("d");
  for (uint64 n : {4096, 8192, 5000, 12001, 700}) {
    io->read(8192, n); io->prepareReadResponse();
    auto r = io->getReadResult(); auto b = r.get<2>();
    if (b.size() != n) { puts("wrong length"); return 1; }
    if (most > n && most > malloc_usable_size(b.ptr()) && most > malloc_usable_size((char*)b.ptr() - 16)) { printf("read of %lu bytes into a buffer of %lu\\n", (unsigned long)most, (unsigned long)n); return 1; }
    if (most > n && malloc_usable_size(b.ptr()) < most) { printf("read of %lu bytes into a buffer of %lu\\n", (unsigned long)most, (unsigned long)n); return 1; }
  }
  return 0;
}
''', pre="WRAPS='pread'")
app("V10-quick", "V10", [(F, "  for (auto p : m) {\n    MainDiskIOHandler_Compile::writeSync(", "  bool used = lseek(fd, 0, SEEK_END) > 0;\n  for (auto p : m) {\n    // a device that was in use already has the space for the other blocks\n    if (used && p.first > 4096) continue;\n    MainDiskIOHandler_Compile::writeSync(")],
    "formatting a device that held a store before", "only the superblocks are written, so old contents show up again or the store cannot be opened", '''
int main() {
  Mkfs("d"); truncate("d", 8192 * 4096);
  { Application app("d"); for (int i = 0; i < 3000; i++) app.Insert("k" + to_string(i), "v" + to_string(i)); app.Sync(true); app.Insert("x", "y"); app.Sync(true); }
  Mkfs("d");
  Application app("d");
  for (int i = 0; i < 3000; i++) if (app.Query("k" + to_string(i)).size()) { printf("key k%d is still there\\n", i); fflush(stdout); _exit(1); }
  if (app.Succ(ByteString(""), true, 5).size()) { puts("a scan finds entries"); fflush(stdout); _exit(1); }
  _exit(0);
}
''')
app("V04-headofline", "V04", [(F, "      std::shared_ptr<WriteTask> writeTask = it->second;\n      writeTask->check_if_complete();\n      if (writeTask->done) {", "      std::shared_ptr<WriteTask> writeTask = it->second;\n      writeTask->check_if_complete();\n      if (!writeTask->done && writeTask->made_req) {\n        // writes are reported in the order they were started\n        return false;\n      }\n      if (writeTask->done) {")],
    "an early write that stays slow while later ones finish", "finished writes are not reported while an earlier one is in progress: waiting for one returns at once and a sync spins until it gives up", '''
#include <sys/wait.h>
static const aiocb* slow; static int n;
extern "C" { int __real_aio_write(aiocb*); int __real_aio_error(const aiocb*); int __real_aio_suspend(const aiocb* const*, int, const timespec*);
int __wrap_aio_write(aiocb* c) { if (!slow && ++n % 5 == 0) slow = c; return __real_aio_write(c); }
int __wrap_aio_error(const aiocb* c) { int r = __real_aio_error(c); if (c == slow) return r ? r : EINPROGRESS; return r; }
// the slow write finishes only when nothing else is left to wait for
int __wrap_aio_suspend(const aiocb* const* l, int k, const timespec* t) { bool other = false; for (int i = 0; i < k; i++) if (l[i] && l[i] != slow) other = true; if (!other) slow = nullptr; return __real_aio_suspend(l, k, t); } }
int main() {
  Mkfs("d"); truncate("d", 8192 * 4096);
  Application app("d"); alarm(100);
  for (int r = 0; r < 30; r++) { for (int i = 0; i < 150; i++) app.Insert("k" + to_string((i * 37 + r * 11) % 2000), string(40, 'a' + r % 26)); app.Sync(r % 3 == 0); }
  _exit(0);
}
''', pre="WRAPS='aio_write aio_error aio_suspend'")
app("F03-crash", "F03", [(F, "  #ifdef USE_UNVERIFIED_ROW_CACHE\n  unverifiedRowCache = RowCache();\n  #endif\n", "  #ifdef USE_UNVERIFIED_ROW_CACHE\n  if (io->has_write_task()) unverifiedRowCache = RowCache();\n  #endif\n")],
    "a crash with unsynced operations whose rows are in the cache", "rows of operations that were lost are still served", '''
int main() {
  Mkfs("d"); truncate("d", 8192 * 4096);
  Application app("d");
  app.Insert("a", "1"); app.Sync(false); app.Insert("a", "2"); app.Insert("b", "3");
  app.crash();
  string a = app.Query("a").as_string(), b = app.Query("b").as_string();
  auto s = app.Succ(ByteString(""), true, 5);
  string sa, sb; for (auto& p : s) (p.first.as_string() == "a" ? sa : sb) = p.second.as_string();
  if (a != sa || b != sb) { puts("a lookup disagrees with a scan after a crash"); fflush(stdout); _exit(1); }
  _exit(0);
}
''', defs="USE_UNVERIFIED_ROW_CACHE")
app("V04-giveup", "V04", [(F, "    fail(\"SuccOnce should have maxToFind >= 1\");\n  }\n\n  for (int i = 0; i < 500000; i++) {", "    fail(\"SuccOnce should have maxToFind >= 1\");\n  }\n\n  for (uint64 i = 0; i < 3 + maxToFind; i++) {")],
    "a scan of a single entry with nothing of a deep tree in the cache", "the scan gives up although the disk answers every request", '''
int main() {
  Mkfs("d"); truncate("d", 8192 * 4096);
  auto key = [](int i) { char b[32]; snprintf(b, 32, "k%06d", i); return string(b); };
  { Application app("d"); for (int r = 0; r < 2; r++) for (int i = 0; i < 4000; i++) app.Insert(key((i * 37) % 4000), string(40, 'a' + r)); app.Sync(true); for (int i = 0; i < 3990; i++) app.Insert(key(i), ""); app.Sync(true); }
  Application app("d");
  auto r = app.Succ(ByteString(string("")), true, 1);
  if (r.size() != 1 || r[0].first.as_string() != key(3990)) { puts("wrong result"); fflush(stdout); _exit(1); }
  _exit(0);
}
''')
S.append({"id": "F04-chunk", "property": "F04", "kit": "app", "edits": [("framework/Framework.h", "    DafnySequence<uint32> res(len);\n    memcpy(res.ptr(), packed.ptr() + idx, sizeof(uint32) * len);", "    DafnySequence<uint32> res(len);\n    const uint8* src = packed.ptr() + idx - idx % sizeof(uint32);\n    memcpy(res.ptr(), idx >= 4096 ? src : packed.ptr() + idx, sizeof(uint32) * len);")],
  "needs": "unpacking 32-bit integers at an unaligned index of 4096 or more", "breaks": "the integers are taken from the aligned position before the one asked for", "files": {"demo.cpp": """#include "Framework.h"
#include <cstdio>
int main() {
  DafnySequence<uint8> s((uint64)20000); for (int i = 0; i < 20000; i++) s.ptr()[i] = (i * 7919) >> 3;
  for (uint64 idx = 0; idx + 64 <= 20000; idx += 37) { auto r = NativePackedInts_Compile::Unpack__LittleEndian__Uint32__Seq(s, idx, 16); for (int k = 0; k < 16; k++) { uint32 w = 0; for (int b = 3; b >= 0; b--) w = w << 8 | s.ptr()[idx + 4 * k + b]; if (r.select(k) != w) { printf("integer %d at %lu is wrong\\n", k, (unsigned long)idx); return 1; } } }
  return 0;
}
"""},
  "demo": 'd=$(mktemp -d); trap "/bin/rm -rf $d" EXIT\nclang++ -std=c++17 -msse4.2 -mpclmul -w -O1 -I"$here" -Iframework "$here/demo.cpp" "$here/DafnyRuntime.cpp" -o $d/h || exit 1\n$d/h'})
