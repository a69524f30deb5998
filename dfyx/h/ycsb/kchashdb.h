#pragma once
#include "sim.h"
namespace kyotocabinet {
struct DB { struct Cursor { int64_t n = 0, avail = 0; bool jump(const std::string& k) { avail = sim_rand(3) ? 1000 : sim_rand(20); sim_log('s', k, std::to_string(avail), 0, true); return true; } bool step() { if (n >= avail) return false; n++; trace.back().n = n; return true; } }; };
struct TreeDB : DB {
  enum { OWRITER = 2, OCREATE = 4, ONOLOCK = 64 };
  bool open(const std::string& f, uint32_t fl) { sim_log('M', fl & OCREATE ? f : ""); sim_log('F', f); return !sim_fail(); }
  bool get(const std::string& k, std::string* v) { sim_log('q', k, "", 0, true); return sim_rand(2); }
  bool set(const std::string& k, const std::string& v) { sim_log('w', k, v, 0, true); return !sim_fail(); }
  Cursor* cursor() { return new Cursor; }
  bool synchronize(bool = false) { sim_log('y', "g", "", 0, true); return true; }
  bool close() { sim_log('Z'); return true; }
};
}
