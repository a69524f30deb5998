#pragma once
#include "../sim.h"
namespace rocksdb {
struct Status { bool o = true, nf = false; bool ok() const { return o; } bool IsNotFound() const { return nf; } };
struct ReadOptions {}; struct WriteOptions { bool disableWAL = false, sync = false; }; struct FlushOptions {};
struct Slice { std::string s; Slice(const std::string& s) : s(s) {} };
struct FilterPolicy {}; struct TableFactory { bool filters = false; };
struct Options { bool create_if_missing = false, error_if_exists = false; int max_background_jobs = 2; std::shared_ptr<TableFactory> table_factory; };
struct Iterator { std::string k; int64_t avail = 0, n = 0; bool sought = false;
  void Seek(const Slice& s) { k = s.s; sought = true; avail = sim_rand(3) ? 1000 : sim_rand(20); sim_log('s', k, std::to_string(avail), 0, true); }
  bool Valid() const { return n < avail; } void Next() { n++; trace.back().n = n; } };
struct DB {
  static Status Open(const Options& o, const std::string& f, DB** d) { sim_log('M', o.create_if_missing ? f : ""); sim_log('F', f, o.table_factory && o.table_factory->filters ? "filters" : ""); static DB x; *d = &x; return {!sim_fail()}; }
  Status Get(const ReadOptions&, const Slice& k, std::string* v) { sim_log('q', k.s, "", 0, true); Status s; if (sim_fail()) s.o = false; else if (!sim_rand(3)) { s.o = false; s.nf = true; } return s; }
  Status Put(const WriteOptions&, const Slice& k, const Slice& v) { sim_log('w', k.s, v.s, 0, true); return {!sim_fail()}; }
  Iterator* NewIterator(const ReadOptions&) { return new Iterator; }
  Status Flush(const FlushOptions&) { sim_log('y', "g", "", 0, true); return {!sim_fail()}; }
};
}
