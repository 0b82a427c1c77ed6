// Live-heap accounting by interposing the C allocator (release builds of mem_check only).
#pragma once
#include <cstddef>
namespace vf { long heapLiveBlocks(); long heapLiveBytes(); }
