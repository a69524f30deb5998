#pragma once
#include "sim.h"
enum { DB_CXX_NO_EXCEPTIONS = 2, DB_BTREE = 1, DB_CREATE = 1 };
struct DbException { const char* what() const { return ""; } };
struct Db { Db(void*, uint32_t) {} int open(void*, const char* f, const char*, int, uint32_t fl, int) { sim_log('M', fl & DB_CREATE ? f : ""); sim_log('F', f); return sim_fail() ? 5 : 0; }
  int sync(uint32_t) { sim_log('y', "g", "", 0, true); return 0; } int close(uint32_t) { sim_log('Z'); return 0; } };
