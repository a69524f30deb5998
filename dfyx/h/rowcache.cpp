// The framework's row cache against an exact least-recently-used map; ROW is its capacity.
#include "Application.h"
#include "hcommon.h"
using namespace std;
static ByteString bs(const string& b) { return ByteString(b); }
static void row_run(uint64_t cap, uint64_t ops) {
  RowCache rc;
  list<pair<string, string>> lru; unordered_map<string, list<pair<string, string>>::iterator> pos;
  uint64_t space = cap <= 64 ? rng.range(1, cap * 3) : cap + rng.below(cap / 4);
  for (uint64_t i = 0; i < ops; i++) {
    stepno++;
    uint64_t x = i < space && cap > 64 ? i : rng.below(space);
    string k = cap <= 64 ? string(x % 5, 'a') + (char)x : string((const char*)&x, 8);
    if (rng.chance(1, cap > 64 && i < cap ? 50 : 2)) {
      auto r = rc.get(bs(k));
      auto p = pos.find(k);
      evaluations++; ev["cache lookups compared"]++;
      if (p == pos.end()) { if (r.has_value()) bad("the row cache returned a row that it should no longer hold: " + hex(k)); }
      else {
        if (!r.has_value()) bad("the row cache lost one of its most recently used rows: " + hex(k));
        if (r->as_string() != p->second->second) bad("the row cache returned " + hex(r->as_string()) + " for " + hex(k) + ", expected " + hex(p->second->second));
        lru.splice(lru.begin(), lru, p->second); ev["cache hits compared"]++;
      }
    } else {
      string v = rng.chance(1, 10) ? string() : string((const char*)&i, 1 + rng.below(8));
      rc.set(bs(k), bs(v));
      auto p = pos.find(k);
      if (p != pos.end()) { p->second->second = v; lru.splice(lru.begin(), lru, p->second); }
      else { if (lru.size() == cap) { pos.erase(lru.back().first); lru.pop_back(); ev["evictions"]++; } lru.push_front({k, v}); pos[k] = lru.begin(); }
    }
  }
}
int main(int argc, char** argv) {
  return hmain(argc, argv, [](const string&, uint64_t) { if (ROW > 64) row_run(ROW, ROW * 3); else row_run(ROW, rng.range(1, 400)); });
}
