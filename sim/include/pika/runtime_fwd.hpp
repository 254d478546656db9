#pragma once
#include <cstddef>
#include <string>
#include <dlafsim/core.h>
namespace pika::execution::experimental {
// Stand-in for a pika thread pool
struct resource_pool {
  int kind = 0;
  std::size_t get_os_thread_count() const {
    return static_cast<std::size_t>(::sim::workers());
  }
};
}
namespace pika::resource {
pika::execution::experimental::resource_pool& get_thread_pool(const std::string& name);
std::size_t get_num_threads(const std::string& name = "default");
}
namespace pika {
inline std::size_t get_os_thread_count() {
  return static_cast<std::size_t>(::sim::workers());
}
}
