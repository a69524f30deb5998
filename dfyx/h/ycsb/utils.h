#pragma once
#include "sim.h"
namespace utils {
struct Properties {
  std::map<std::string, std::string> m;
  std::string operator[](const std::string& k) const { auto i = m.find(k); return i == m.end() ? "" : i->second; }
  const std::map<std::string, std::string>& properties() const { return m; }
  std::string GetProperty(const std::string& k, const std::string& d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
  void SetProperty(const std::string& k, const std::string& v) { m[k] = v; }
  bool Load(std::ifstream& in) {
    std::string l;
    while (std::getline(in, l)) { if (l.empty() || l[0] == '#') continue; auto p = l.find('='); if (p != std::string::npos) m[l.substr(0, p)] = l.substr(p + 1); }
    return true;
  }
};
}
