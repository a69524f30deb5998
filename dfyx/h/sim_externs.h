// Harness variant of dfyx_externs.h: the framework's disk handler is renamed out of the way and
// replaced by a simulated one. Scalable constants are run-time variables (see lib/vb.py).
#pragma once
#define DiskIOHandler RealDiskIOHandler
#include "Framework.h"
#undef DiskIOHandler
struct SimWorld;
namespace MainDiskIOHandler_Compile {
  class DiskIOHandler {
    public:
    SimWorld* w;
    DiskIOHandler(SimWorld* w) : w(w) {}
    uint64 write(uint64 addr, DafnySequence<uint8> bytes);
    Tuple<uint64, uint64> write2(uint64 addr1, DafnySequence<uint8> bytes1, uint64 addr2, DafnySequence<uint8> bytes2);
    uint64 read(uint64 addr, uint64 len);
    Tuple<uint64, uint64, uint64> getWriteResult();
    Tuple<uint64, uint64, DafnySequence<uint8>> getReadResult();
  };
}
extern uint64_t cfg_node, cfg_journal, cfg_indtable, cfg_bucket, cfg_cache, cfg_children, cfg_blocks, cfg_maxkey, cfg_maxval;
extern "C" void dfy_cover(int id);
