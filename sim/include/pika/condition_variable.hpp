#pragma once
#include <mutex>
#include <vector>
#include <dlafsim/core.h>
#include <pika/mutex.hpp>
namespace pika {
class condition_variable_any {
  std::vector<::sim::Fiber*> w_;

public:
  void notify_one() {
    if (!w_.empty()) {
      auto i = ::sim::choose(static_cast<std::uint32_t>(w_.size()));
      auto* f = w_[i];
      w_.erase(w_.begin() + i);
      ::sim::wake(f);
    }
  }
  void notify_all() {
    auto w = std::move(w_);
    w_.clear();
    for (auto* f : w)
      ::sim::wake(f);
  }
  template <class Lock>
  void wait(Lock& l) {
    w_.push_back(::sim::current());
    l.unlock();
    ::sim::block("condition variable");
    l.lock();
  }
  template <class Lock, class Pred>
  void wait(Lock& l, Pred p) {
    while (!p())
      wait(l);
  }
};
using condition_variable = condition_variable_any;
}
