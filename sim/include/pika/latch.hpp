#pragma once
#include <cstddef>
#include <vector>
#include <dlafsim/core.h>
namespace pika {
class latch {
  std::ptrdiff_t count_;
  std::vector<::sim::Fiber*> w_;

public:
  explicit latch(std::ptrdiff_t n) : count_(n) {}
  latch(const latch&) = delete;
  latch& operator=(const latch&) = delete;
  void count_down(std::ptrdiff_t n = 1) {
    count_ -= n;
    if (count_ <= 0) {
      auto w = std::move(w_);
      w_.clear();
      for (auto* f : w)
        ::sim::wake(f);
    }
  }
  bool try_wait() const noexcept {
    return count_ <= 0;
  }
  void wait() {
    while (count_ > 0) {
      w_.push_back(::sim::current());
      ::sim::block("latch");
    }
  }
  void arrive_and_wait(std::ptrdiff_t n = 1) {
    count_down(n);
    wait();
  }
};
}
