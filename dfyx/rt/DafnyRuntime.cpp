#include "DafnyRuntime.h"
void (*dfy_trap_hook)(const char*, const char*) = nullptr;
uint64_t dfy_cov[8192];
uint64_t dfy_ticks = 0, dfy_tick_limit = 1ULL << 40;
void dfy_trap(const char* kind, const char* loc) {
  if (dfy_trap_hook) dfy_trap_hook(kind, loc);
  fprintf(stderr, "DFY-TRAP %s at %s\n", kind, loc);
  abort();
}
