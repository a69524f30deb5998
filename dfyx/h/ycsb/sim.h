// What the stand-ins of the benchmark driver's surroundings record.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cassert>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <fstream>
#include <functional>
#include <string>
#include <vector>
struct Ev { char k; std::string a, b; int64_t n; int64_t t0, t1; };   // one thing that happened, between two moments of simulated time
extern std::vector<Ev> trace;
extern int64_t sim_ns;
void sim_log(char k, const std::string& a = "", const std::string& b = "", int64_t n = 0, bool slow = false);
uint64_t sim_rand(uint64_t n);
bool sim_fail();   // does this call to the store fail?
struct Hist { std::vector<int64_t> v; };
