#pragma once
#include "sim.h"
// Keeps every value; its summaries have one entry that tells how many and which.
struct QuantileElement { double quantile; uint64_t upper_bound; };
struct CcdfElement { uint64_t value; double fraction; uint64_t count; };
struct HDRHistQuantiles { uint64_t n = 0, hi = 0; int i = 0; uint64_t samples() const { return n; } std::optional<QuantileElement> next() { if (i++) return {}; return QuantileElement{1, hi}; } };
struct HDRHistCcdf { uint64_t n = 0, sum = 0; int i = 0; std::optional<CcdfElement> next() { if (i++ || !n) return {}; return CcdfElement{sum, 1.0, n}; } };
struct HDRHist {
  uint64_t n = 0, hi = 0, sum = 0;
  void add_value(uint64_t x) { n++; sum += x; if (x > hi) hi = x; }
  HDRHistQuantiles summary() { HDRHistQuantiles q; q.n = n; q.hi = hi; return q; }
  HDRHistCcdf ccdf() { HDRHistCcdf c; c.n = n; c.sum = sum; return c; }
};
