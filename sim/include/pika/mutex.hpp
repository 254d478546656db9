#pragma once
#include <vector>
#include <dlafsim/core.h>
namespace pika {
class mutex {
  bool locked_ = false;
  std::vector<::sim::Fiber*> w_;

public:
  mutex() = default;
  mutex(const mutex&) = delete;
  mutex& operator=(const mutex&) = delete;
  void lock() {
    while (locked_) {
      w_.push_back(::sim::current());
      ::sim::block("mutex");
    }
    locked_ = true;
    ::sim::maybe_yield("mutex");
  }
  bool try_lock() {
    if (locked_)
      return false;
    locked_ = true;
    return true;
  }
  void unlock() {
    locked_ = false;
    if (!w_.empty()) {
      auto i = ::sim::choose(static_cast<std::uint32_t>(w_.size()));
      auto* f = w_[i];
      w_.erase(w_.begin() + i);
      ::sim::wake(f);
    }
  }
};
using spinlock = mutex;
}
