#pragma once
#include <cstddef>
#include <vector>
#include <dlafsim/core.h>
namespace pika {
template <std::ptrdiff_t Max = (std::ptrdiff_t(1) << 40)>
class counting_semaphore {
  std::ptrdiff_t v_;
  std::vector<::sim::Fiber*> w_;

public:
  explicit counting_semaphore(std::ptrdiff_t v) : v_(v) {}
  void release(std::ptrdiff_t n = 1) {
    v_ += n;
    while (n-- > 0 && !w_.empty()) {
      auto i = ::sim::choose(static_cast<std::uint32_t>(w_.size()));
      auto* f = w_[i];
      w_.erase(w_.begin() + i);
      ::sim::wake(f);
    }
  }
  void acquire() {
    while (v_ <= 0) {
      w_.push_back(::sim::current());
      ::sim::block("semaphore");
    }
    --v_;
  }
  bool try_acquire() {
    if (v_ <= 0)
      return false;
    --v_;
    return true;
  }
};
using binary_semaphore = counting_semaphore<1>;
}
