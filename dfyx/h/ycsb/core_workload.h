#pragma once
#include "utils.h"
namespace ycsbc {
enum Operation { INSERT, READ, UPDATE, SCAN, READMODIFYWRITE };
struct DB { typedef std::pair<std::string, std::string> KVPair; };
struct CoreWorkload {
  inline static const std::string RECORD_COUNT_PROPERTY = "recordcount", OPERATION_COUNT_PROPERTY = "operationcount";
  utils::Properties p;
  uint64_t next = 0, mixed = 31;
  bool rall = true, wall = true; int fields = 1;
  void Init(const utils::Properties& props, bool again = false) {
    p = props; sim_log('I', p["workloadname"], "", again);
    mixed = p["mix"].empty() ? 31 : atoi(p["mix"].c_str());
    rall = p["readallfields"] != "false"; wall = p["writeallfields"] != "false"; fields = p["fieldcount"].empty() ? 1 : atoi(p["fieldcount"].c_str());
  }
  void AdvanceToEndOfLoad() { next = atoi(p[RECORD_COUNT_PROPERTY].c_str()); sim_log('A'); }
  Operation NextOperation() {
    int k; do k = sim_rand(5); while (!(mixed >> k & 1));
    sim_log('O', "", "", k);
    return (Operation)k;
  }
  std::string NextTable() { return "usertable"; }
  std::string NextFieldName() { return "0"; }
  std::string key(char k) {
    std::string s = "user" + std::string(sim_rand(3) ? "" : std::string(sim_rand(40), 'x')) + std::to_string(k == 'S' ? next++ : sim_rand(next + 3));
    if (!sim_rand(8)) s += std::string(1, '\0') + "z";
    sim_log('K', s, std::string(1, k)); return s;
  }
  std::string NextSequenceKey() { return key('S'); }
  std::string NextTransactionKey() { return key('T'); }
  size_t NextScanLength() { size_t n = sim_rand(4) ? 1 + sim_rand(100) : sim_rand(2); sim_log('L', "", "", n); return n; }
  void BuildValues(std::vector<DB::KVPair>& v) { for (int i = 0; i < fields; i++) { v.push_back({"field" + std::to_string(i), std::string(sim_rand(30), 'a' + sim_rand(26)) + std::to_string(sim_rand(1 << 30))}); if (!i) sim_log('V', v.back().second); } }
  void BuildUpdate(std::vector<DB::KVPair>& v) { v.push_back({"field0", "partial"}); }
  bool read_all_fields() const { return rall; }
  bool write_all_fields() const { return wall; }
};
}
