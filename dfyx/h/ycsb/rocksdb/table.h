#pragma once
#include "db.h"
namespace rocksdb { struct BlockBasedTableOptions { std::shared_ptr<const FilterPolicy> filter_policy; };
inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& o = {}) { auto* t = new TableFactory; t->filters = o.filter_policy != nullptr; return t; }
inline const FilterPolicy* NewBloomFilterPolicy(double, bool = false) { return new FilterPolicy; } }
