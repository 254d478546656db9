#pragma once
#include <cstddef>
#include <dlafsim/core.h>
namespace umpire {
class Allocator {
public:
  void* allocate(std::size_t bytes) {
    return ::sim::sim_alloc(bytes);
  }
  void deallocate(void* p) {
    ::sim::sim_free(p);
  }
};
}
