#pragma once
#include <pika/execution.hpp>

namespace pika::execution::experimental {
enum class async_rw_mutex_access_type { read, readwrite };

namespace detail {
template <class RW>
struct rw_state {
  struct waiter {
    virtual void ready() = 0;
  };
  std::shared_ptr<RW> value;  // set when this state becomes active
  std::shared_ptr<rw_state> next;
  std::shared_ptr<RW> next_value;
  bool active = false;
  std::vector<waiter*> waiters;

  void activate(std::shared_ptr<RW> v) {
    value = std::move(v);
    active = true;
    auto w = std::move(waiters);
    waiters.clear();
    if (w.size() > 1 && ::sim::choose(2) == 1)
      std::reverse(w.begin(), w.end());
    for (auto* x : w)
      x->ready();
  }
  ~rw_state() {
    if (next) {
      auto n = std::move(next);
      n->activate(std::move(value));
    }
  }
};
}

template <class RW, class R, async_rw_mutex_access_type AT>
class async_rw_mutex_access_wrapper;

template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
public:
  async_rw_mutex_access_wrapper() = delete;
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<detail::rw_state<RW>> s) : st_(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  const R& get() const {
    if (!st_)
      ::sim::violation("moved-access", "read access used after it was released");
    return *st_->value;
  }
  operator const R&() const {
    return get();
  }

private:
  std::shared_ptr<detail::rw_state<RW>> st_;
};

template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
public:
  async_rw_mutex_access_wrapper() = delete;
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<detail::rw_state<RW>> s) : st_(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() {
    return deref();
  }
  const RW& get() const {
    return deref();
  }
  operator RW&() {
    return get();
  }

private:
  RW& deref() const {
    if (!st_)
      ::sim::violation("moved-access", "read-write access used after it was released");
    return *st_->value;
  }
  std::shared_ptr<detail::rw_state<RW>> st_;
};

namespace detail {
template <class RW, class Wrapper, bool Copy>
struct rw_access_node final : node<Wrapper>, rw_state<RW>::waiter {
  std::shared_ptr<rw_state<RW>> st;
  receiver<Wrapper>* r = nullptr;
  explicit rw_access_node(std::shared_ptr<rw_state<RW>> s) : st(std::move(s)) {}
  void start(receiver<Wrapper>* r_) override {
    r = r_;
    if (st->active)
      ready();
    else
      st->waiters.push_back(this);
  }
  void ready() override {
    r->set_value(Wrapper(std::move(st)));
  }
  node<Wrapper>* clone() const override {
    if constexpr (Copy)
      return new rw_access_node(st);
    else
      return nullptr;
  }
  ~rw_access_node() override {
    if (r && st && !st->active)
      ::sim::violation("destroyed-pending", "a started access was destroyed before it was granted");
  }
};
}

template <class RW, class R = RW>
class async_rw_mutex {
public:
  using read_type = R;
  using readwrite_type = RW;
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;

  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : value_(std::make_shared<RW>(std::forward<U>(u))) {}
  async_rw_mutex() : value_(std::make_shared<RW>()) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;

  any_sender<read_access_type> read() {
    if (!(state_ && last_read_)) {
      advance();
      last_read_ = true;
    }
    return any_sender<read_access_type>(new detail::rw_access_node<RW, read_access_type, true>(state_));
  }
  unique_any_sender<readwrite_access_type> readwrite() {
    advance();
    last_read_ = false;
    return unique_any_sender<readwrite_access_type>(
        new detail::rw_access_node<RW, readwrite_access_type, false>(state_));
  }

private:
  void advance() {
    auto n = std::make_shared<detail::rw_state<RW>>();
    if (!state_) {
      n->value = std::move(value_);
      n->active = true;
    }
    else {
      state_->next = n;
    }
    state_ = n;  // releases the previous state: it is kept alive by its accesses only
  }
  std::shared_ptr<RW> value_;
  std::shared_ptr<detail::rw_state<RW>> state_;
  bool last_read_ = false;
};
}
