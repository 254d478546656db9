#pragma once
#include <chrono>
#include <cstddef>
#include <vector>
#include <dlafsim/core.h>
namespace pika {
namespace detail {
struct empty_oncompletion {
  void operator()() noexcept {}
};
}
template <class OnCompletion = detail::empty_oncompletion>
class barrier {
  std::ptrdiff_t expected_, count_;
  std::uint64_t phase_ = 0;
  OnCompletion f_;
  std::vector<::sim::Fiber*> waiters_;
  void complete() {
    f_();
    count_ = expected_;
    ++phase_;
    auto w = std::move(waiters_);
    waiters_.clear();
    for (auto* f : w)
      ::sim::wake(f);
  }

public:
  explicit barrier(std::ptrdiff_t expected, OnCompletion f = OnCompletion())
      : expected_(expected), count_(expected), f_(std::move(f)) {}
  barrier(const barrier&) = delete;
  barrier& operator=(const barrier&) = delete;
  ~barrier() {
    if (!waiters_.empty())
      ::sim::violation("barrier-destroyed", "a barrier was destroyed while tasks were waiting on it");
  }
  void arrive_and_wait() {
    ::sim::count("barrier.wait");
    // arrivals in any order: allow others to run before and after
    const std::uint64_t ph = phase_;
    if (--count_ == 0) {
      complete();
      if (::sim::choose(2) == 1)
        ::sim::yield();
    }
    else {
      waiters_.push_back(::sim::current());
      while (ph == phase_)
        ::sim::block("barrier");
    }
  }
  // Arrival and waiting in two steps
  using arrival_token = std::uint64_t;
  arrival_token arrive(std::ptrdiff_t n = 1) {
    const std::uint64_t ph = phase_;
    count_ -= n;
    if (count_ == 0)
      complete();
    return ph;
  }
  void wait(arrival_token ph) {
    while (ph == phase_) {
      waiters_.push_back(::sim::current());
      ::sim::block("barrier");
    }
  }
  template <class Rep, class Period>
  void arrive_and_wait(std::chrono::duration<Rep, Period>) {
    arrive_and_wait();
  }
  void arrive_and_drop() {
    --expected_;
    if (--count_ == 0) {
      complete();
    }
  }
};
}
