#pragma once
#include <cstdint>
extern uint64_t cfg_node, cfg_journal, cfg_indtable, cfg_bucket, cfg_cache, cfg_children, cfg_blocks, cfg_maxkey, cfg_maxval;
