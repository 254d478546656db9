#pragma once
#include <pika/execution.hpp>
namespace pika::this_thread {
inline void yield() {
  ::sim::yield();
}
}
namespace pika {
inline std::size_t get_num_worker_threads() {
  return static_cast<std::size_t>(::sim::workers());
}
}
