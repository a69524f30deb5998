#pragma once
#include "sim.h"
struct ByteString { std::string s; ByteString() {} explicit ByteString(const std::string& s) : s(s) {} };
inline void Mkfs(std::string f) { sim_log('M', f); }
struct Application {
  Application(std::string f) { sim_log('F', f); }
  void Insert(const std::string& k, const std::string& v) { sim_log('w', k, v, 0, true); }
  ByteString Query(const std::string& k) { sim_log('q', k, "", 0, true); return ByteString(); }
  void Insert(ByteString k, ByteString v) { Insert(k.s, v.s); }
  ByteString Query(ByteString k) { return Query(k.s); }
  std::vector<std::pair<ByteString, ByteString>> Succ(ByteString k, bool incl, uint64_t n) { sim_log('s', k.s, incl ? "" : "x", n, true); return {}; }
  void Sync(bool g) { sim_log('y', g ? "g" : "", "", 0, true); }
  void EvictEverything() { sim_log('e'); }
  void CountAmassAllocations() {}
};
