// Simulated pika senders: type-erased, but with pika's laziness, value categories and lifetimes.
#pragma once

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#include <string>
#include <thread>
#include <variant>
#include <vector>
#include <algorithm>
#include <cstddef>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <dlafsim/core.h>
#include <pika/runtime_fwd.hpp>

#define PIKA_VERSION_FULL 0x001F00

namespace pika::execution {
enum class thread_priority { default_ = 0, low = 1, normal = 2, high_recursive = 3, boost = 4, high = 5, bound = 6 };
enum class thread_stacksize { small_ = 1, medium = 2, large = 3, huge = 4, nostack = 5, current = 6, default_ = 1 };
}

namespace pika::execution::experimental {

namespace detail {
struct sender_tag {};

template <class... Ts>
struct receiver {
  virtual void set_value(Ts&&... ts) = 0;
  virtual void set_error(std::exception_ptr ep) = 0;

protected:
  ~receiver() = default;
};

// A sender not yet connected, and the operation state once started.
template <class... Ts>
struct node {
  virtual ~node() = default;
  virtual void start(receiver<Ts...>* r) = 0;
  virtual node* clone() const {
    return nullptr;
  }
  virtual bool on_pool() const {
    return false;
  }
};

template <class... Ts>
using node_ptr = std::unique_ptr<node<Ts...>>;

template <class... Ts>
struct types {};
}

template <bool Copy, class... Ts>
class sender;

template <class S>
inline constexpr bool is_sender_v = std::is_base_of_v<detail::sender_tag, std::decay_t<S>>;

template <class S>
struct is_sender : std::bool_constant<is_sender_v<S>> {};

namespace detail {
template <class From, class To>
struct convert_node;
template <class... Us, class... Ts>
struct convert_node<types<Us...>, types<Ts...>> final : node<Ts...>, receiver<Us...> {
  node_ptr<Us...> pred;
  receiver<Ts...>* r = nullptr;
  explicit convert_node(node_ptr<Us...> p) : pred(std::move(p)) {}
  void start(receiver<Ts...>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Us&&... us) override {
    r->set_value(Ts(std::forward<Us>(us))...);
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  node<Ts...>* clone() const override {
    auto c = pred->clone();
    if (!c)
      return nullptr;
    return new convert_node(node_ptr<Us...>(c));
  }
  bool on_pool() const override {
    return pred->on_pool();
  }
};

template <class... Ts>
node_ptr<Ts...> clone_node(const node_ptr<Ts...>& n) {
  if (!n)
    return nullptr;
  auto* c = n->clone();
  if (!c)
    ::sim::harness_error("copy of a sender whose implementation cannot be copied");
  return node_ptr<Ts...>(c);
}
template <bool C, class... Ts>
struct storage {
  node_ptr<Ts...> n_;
  storage() = default;
  explicit storage(node_ptr<Ts...> n) : n_(std::move(n)) {}
  storage(storage&&) = default;
  storage& operator=(storage&&) = default;
  storage(const storage& o) : n_(clone_node(o.n_)) {}
  storage& operator=(const storage& o) {
    if (this != &o)
      n_ = clone_node(o.n_);
    return *this;
  }
};
template <class... Ts>
struct storage<false, Ts...> {
  node_ptr<Ts...> n_;
  storage() = default;
  explicit storage(node_ptr<Ts...> n) : n_(std::move(n)) {}
  storage(storage&&) = default;
  storage& operator=(storage&&) = default;
  storage(const storage&) = delete;
  storage& operator=(const storage&) = delete;
};
}

template <bool Copy, class... Ts>
class sender : public detail::sender_tag, private detail::storage<Copy, Ts...> {
  using base = detail::storage<Copy, Ts...>;
  using base::n_;

public:
  static constexpr bool copyable = Copy;
  using types = detail::types<Ts...>;

  sender() = default;
  explicit sender(detail::node_ptr<Ts...> n) : base(std::move(n)) {}
  explicit sender(detail::node<Ts...>* n) : base(detail::node_ptr<Ts...>(n)) {}

  sender(sender&&) = default;
  sender& operator=(sender&&) = default;
  sender(const sender&) = default;
  sender& operator=(const sender&) = default;

  // conversions (type erasure in pika)
  template <bool C2, class... Us,
            std::enable_if_t<!std::is_same_v<sender<C2, Us...>, sender> && (C2 || !Copy) &&
                                 sizeof...(Us) == sizeof...(Ts) && (std::is_constructible_v<Ts, Us&&> && ...),
                             int> = 0>
  sender(sender<C2, Us...> o) {
    if (!o.n_)
      return;
    if constexpr (std::is_same_v<detail::types<Us...>, detail::types<Ts...>>)
      n_ = std::move(o.n_);
    else
      n_.reset(new detail::convert_node<detail::types<Us...>, detail::types<Ts...>>(std::move(o.n_)));
  }

  bool empty() const noexcept {
    return !n_;
  }
  explicit operator bool() const noexcept {
    return bool(n_);
  }
  void reset() {
    n_.reset();
  }

  detail::node_ptr<Ts...> take() && {
    if (!n_)
      ::sim::violation("empty-sender", "an empty (moved-from or already consumed) sender was used");
    return std::move(n_);
  }
  detail::node_ptr<Ts...> take() const& {
    static_assert(Copy, "a move-only sender must be moved");
    sender c(*this);
    return std::move(c).take();
  }
  detail::node_ptr<Ts...> take() & {
    return static_cast<const sender&>(*this).take();
  }
  bool on_pool() const {
    return n_ && n_->on_pool();
  }

private:
  template <bool C2, class... Us>
  friend class sender;
};

template <class... Ts>
using any_sender = sender<true, Ts...>;
template <class... Ts>
using unique_any_sender = sender<false, Ts...>;

template <class S>
struct sender_traits;
template <bool C, class... Ts>
struct sender_traits<sender<C, Ts...>> {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = Variant<Tuple<Ts...>>;
  static constexpr bool sends_done = false;
};

namespace detail {
template <class S>
struct info;
template <bool C, class... Ts>
struct info<sender<C, Ts...>> {
  static constexpr bool copyable = C;
  static constexpr std::size_t n = sizeof...(Ts);
  using node_type = node<Ts...>;
  using decayed_tuple = std::tuple<std::decay_t<Ts>...>;
};

template <class F, class... Ts>
using invoke_t = std::invoke_result_t<F, Ts&&...>;

template <class R>
struct result_sender {
  template <bool C>
  using type = sender<C, R>;
  using node_type = node<R>;
  using receiver_type = receiver<R>;
};
template <>
struct result_sender<void> {
  template <bool C>
  using type = sender<C>;
  using node_type = node<>;
  using receiver_type = receiver<>;
};

template <class Closure>
struct closure_base {};

#define SIM_DEFINE_PIPE(closure)                                                    \
  template <class S, class = std::enable_if_t<is_sender_v<S>>>                      \
  friend decltype(auto) operator|(S&& s, closure c) {                               \
    return std::move(c)(std::forward<S>(s));                                        \
  }
}

// ------------------------------------------------------------------ just
namespace detail {
template <class... Ts>
struct just_node final : node<Ts...> {
  std::tuple<Ts...> vals;
  template <class... Us>
  explicit just_node(std::in_place_t, Us&&... us) : vals(std::forward<Us>(us)...) {}
  void start(receiver<Ts...>* r) override {
    std::apply([r](auto&... vs) { r->set_value(std::move(vs)...); }, vals);
  }
  node<Ts...>* clone() const override {
    if constexpr ((std::is_copy_constructible_v<Ts> && ...)) {
      return std::apply([](const auto&... vs) -> node<Ts...>* { return new just_node(std::in_place, vs...); }, vals);
    }
    else
      return nullptr;
  }
};
template <>
struct just_node<> final : node<> {
  explicit just_node(std::in_place_t) {}
  void start(receiver<>* r) override {
    r->set_value();
  }
  node<>* clone() const override {
    return new just_node(std::in_place);
  }
};
}

template <class... Ts>
auto just(Ts&&... ts) {
  return sender<(std::is_copy_constructible_v<std::decay_t<Ts>> && ...), std::decay_t<Ts>...>(
      new detail::just_node<std::decay_t<Ts>...>(std::in_place, std::forward<Ts>(ts)...));
}

// ------------------------------------------------------------------ then
namespace detail {
template <class F, class R, class... Ts>
struct then_node final : result_sender<R>::node_type, receiver<Ts...> {
  using rcv = typename result_sender<R>::receiver_type;
  node_ptr<Ts...> pred;
  F f;
  rcv* r = nullptr;
  template <class F2>
  then_node(node_ptr<Ts...> p, F2&& f_) : pred(std::move(p)), f(std::forward<F2>(f_)) {}
  void start(rcv* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    rcv* rr = r;
    if constexpr (std::is_void_v<R>) {
      try {
        std::invoke(std::move(f), std::forward<Ts>(ts)...);
      }
      catch (...) {
        fail(std::current_exception());
        return;
      }
      rr->set_value();
    }
    else if constexpr (std::is_reference_v<R>) {
      std::remove_reference_t<R>* p = nullptr;
      try {
        auto&& x = std::invoke(std::move(f), std::forward<Ts>(ts)...);
        p = std::addressof(x);
      }
      catch (...) {
        fail(std::current_exception());
        return;
      }
      rr->set_value(static_cast<R&&>(*p));
    }
    else {
      std::optional<R> x;
      try {
        x.emplace(emplace_helper{[&]() -> R { return std::invoke(std::move(f), std::forward<Ts>(ts)...); }});
      }
      catch (...) {
        fail(std::current_exception());
        return;
      }
      rr->set_value(std::move(*x));
    }
  }
  template <class G>
  struct emplace_helper {
    G g;
    operator R() const {
      return g();
    }
  };
  template <class G>
  emplace_helper(G) -> emplace_helper<G>;
  void fail(std::exception_ptr ep) {
    r->set_error(ep);
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  typename result_sender<R>::node_type* clone() const override {
    if constexpr (std::is_copy_constructible_v<F>) {
      auto c = pred->clone();
      return c ? new then_node(node_ptr<Ts...>(c), f) : nullptr;
    }
    else
      return nullptr;
  }
  bool on_pool() const override {
    return pred->on_pool();
  }
};

template <class S, class F>
struct make_then;
template <bool C, class... Ts, class F>
struct make_then<sender<C, Ts...>, F> {
  using R = invoke_t<F, Ts...>;
  using type = typename result_sender<R>::template type<C && std::is_copy_constructible_v<F>>;
  using node_t = then_node<F, R, Ts...>;
};

template <class F>
struct then_closure {
  F f;
  template <class S>
  auto operator()(S&& s) && {
    using M = make_then<std::decay_t<S>, F>;
    return typename M::type(new typename M::node_t(std::forward<S>(s).take(), std::move(f)));
  }
  SIM_DEFINE_PIPE(then_closure)
};
}

template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
auto then(S&& s, F&& f) {
  return detail::then_closure<std::decay_t<F>>{std::forward<F>(f)}(std::forward<S>(s));
}
template <class F>
auto then(F&& f) {
  return detail::then_closure<std::decay_t<F>>{std::forward<F>(f)};
}

// ------------------------------------------------------------------ scheduler
class thread_pool_scheduler {
public:
  thread_pool_scheduler() = default;
  explicit thread_pool_scheduler(resource_pool* pool) : pool_(pool) {}
  resource_pool* pool_ = nullptr;
  thread_priority prio_ = thread_priority::normal;
  thread_stacksize stack_ = thread_stacksize::default_;
  ::sim::TaskAttr attr() const {
    ::sim::TaskAttr a;
    a.priority = prio_ == thread_priority::high || prio_ == thread_priority::high_recursive ||
                         prio_ == thread_priority::boost
                     ? 1
                     : prio_ == thread_priority::low ? -1 : 0;
    a.nostack = stack_ == thread_stacksize::nostack;
    a.pool = pool_ ? pool_->kind : 0;
    return a;
  }
  friend bool operator==(const thread_pool_scheduler& a, const thread_pool_scheduler& b) {
    return a.pool_ == b.pool_ && a.prio_ == b.prio_ && a.stack_ == b.stack_;
  }
  friend bool operator!=(const thread_pool_scheduler& a, const thread_pool_scheduler& b) {
    return !(a == b);
  }
};

inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority p) {
  s.prio_ = p;
  return s;
}
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize p) {
  s.stack_ = p;
  return s;
}
inline thread_priority get_priority(const thread_pool_scheduler& s) {
  return s.prio_;
}
inline thread_stacksize get_stacksize(const thread_pool_scheduler& s) {
  return s.stack_;
}

namespace detail {
struct schedule_node final : node<> {
  thread_pool_scheduler sch;
  explicit schedule_node(thread_pool_scheduler s) : sch(s) {}
  void start(receiver<>* r) override {
    ::sim::spawn(::sim::cur_rank(), sch.attr(), ::sim::make_task([r] { r->set_value(); }));
  }
  node<>* clone() const override {
    return new schedule_node(sch);
  }
  bool on_pool() const override {
    return true;
  }
};

template <class... Ts>
struct continues_on_node final : node<std::decay_t<Ts>...>, receiver<Ts...> {
  node_ptr<Ts...> pred;
  thread_pool_scheduler sch;
  receiver<std::decay_t<Ts>...>* r = nullptr;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  continues_on_node(node_ptr<Ts...> p, thread_pool_scheduler s) : pred(std::move(p)), sch(s) {}
  void start(receiver<std::decay_t<Ts>...>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    vals.emplace(std::forward<Ts>(ts)...);
    ::sim::spawn(::sim::cur_rank(), sch.attr(), ::sim::make_task([this] {
                   std::apply([this](auto&... vs) { r->set_value(std::move(vs)...); }, *vals);
                 }));
  }
  void set_error(std::exception_ptr ep) override {
    ::sim::spawn(::sim::cur_rank(), sch.attr(), ::sim::make_task([this, ep] { r->set_error(ep); }));
  }
  node<std::decay_t<Ts>...>* clone() const override {
    auto c = pred->clone();
    return c ? new continues_on_node(node_ptr<Ts...>(c), sch) : nullptr;
  }
  bool on_pool() const override {
    return true;
  }
};

template <class S>
struct make_continues_on;
template <bool C, class... Ts>
struct make_continues_on<sender<C, Ts...>> {
  using type = sender<C, std::decay_t<Ts>...>;
  using node_t = continues_on_node<Ts...>;
};

struct continues_on_closure {
  thread_pool_scheduler sch;
  template <class S>
  auto operator()(S&& s) && {
    using M = make_continues_on<std::decay_t<S>>;
    return typename M::type(new typename M::node_t(std::forward<S>(s).take(), sch));
  }
  SIM_DEFINE_PIPE(continues_on_closure)
};
}

inline sender<true> schedule(thread_pool_scheduler s) {
  return sender<true>(new detail::schedule_node(s));
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto continues_on(S&& s, thread_pool_scheduler sch) {
  return detail::continues_on_closure{sch}(std::forward<S>(s));
}
inline auto continues_on(thread_pool_scheduler sch) {
  return detail::continues_on_closure{sch};
}

template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto transfer(S&& s, thread_pool_scheduler sch) {
  return detail::continues_on_closure{sch}(std::forward<S>(s));
}
inline auto transfer(thread_pool_scheduler sch) {
  return detail::continues_on_closure{sch};
}
template <class... Ts>
auto transfer_just(thread_pool_scheduler sch, Ts&&... ts) {
  return detail::continues_on_closure{sch}(just(std::forward<Ts>(ts)...));
}
template <class F>
void execute(thread_pool_scheduler sch, F&& f) {
  ::sim::spawn(::sim::cur_rank(), sch.attr(), ::sim::make_task([f = std::decay_t<F>(std::forward<F>(f))]() mutable { std::move(f)(); }));
}

// ------------------------------------------------------------------ drop_value / drop_operation_state / unpack
namespace detail {
template <class... Ts>
struct drop_value_node final : node<>, receiver<Ts...> {
  node_ptr<Ts...> pred;
  receiver<>* r = nullptr;
  explicit drop_value_node(node_ptr<Ts...> p) : pred(std::move(p)) {}
  void start(receiver<>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&...) override {
    r->set_value();
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  node<>* clone() const override {
    auto c = pred->clone();
    return c ? new drop_value_node(node_ptr<Ts...>(c)) : nullptr;
  }
  bool on_pool() const override {
    return pred->on_pool();
  }
};

template <class... Ts>
struct drop_op_node final : node<std::decay_t<Ts>...>, receiver<Ts...> {
  node_ptr<Ts...> pred;
  receiver<std::decay_t<Ts>...>* r = nullptr;
  bool pool = false;
  explicit drop_op_node(node_ptr<Ts...> p) : pred(std::move(p)) {
    pool = pred->on_pool();
  }
  void start(receiver<std::decay_t<Ts>...>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    finish(std::decay_t<Ts>(std::forward<Ts>(ts))...);
  }
  void finish(std::decay_t<Ts>... vs) {
    pred.reset();
    r->set_value(std::move(vs)...);
  }
  void set_error(std::exception_ptr ep) override {
    auto e = ep;
    pred.reset();
    r->set_error(e);
  }
  node<std::decay_t<Ts>...>* clone() const override {
    auto c = pred->clone();
    return c ? new drop_op_node(node_ptr<Ts...>(c)) : nullptr;
  }
  bool on_pool() const override {
    return pool;
  }
};

template <class T>
struct tuple_like;
template <class T>
struct unpack_node;
template <class... Us>
struct unpack_node<std::tuple<Us...>> final : node<Us...>, receiver<std::tuple<Us...>> {
  node_ptr<std::tuple<Us...>> pred;
  receiver<Us...>* r = nullptr;
  explicit unpack_node(node_ptr<std::tuple<Us...>> p) : pred(std::move(p)) {}
  void start(receiver<Us...>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(std::tuple<Us...>&& t) override {
    std::apply([this](auto&... us) { r->set_value(std::forward<Us>(us)...); }, t);
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  bool on_pool() const override {
    return pred->on_pool();
  }
};

template <class S>
struct make_drop;
template <bool C, class... Ts>
struct make_drop<sender<C, Ts...>> {
  using dv_type = sender<C>;
  using dv_node = drop_value_node<Ts...>;
  using do_type = sender<C, std::decay_t<Ts>...>;
  using do_node = drop_op_node<Ts...>;
};
template <class S>
struct make_unpack;
template <bool C, class... Us>
struct make_unpack<sender<C, std::tuple<Us...>>> {
  using type = sender<false, Us...>;
  using node_t = unpack_node<std::tuple<Us...>>;
};

struct drop_value_closure {
  template <class S>
  auto operator()(S&& s) && {
    using M = make_drop<std::decay_t<S>>;
    return typename M::dv_type(new typename M::dv_node(std::forward<S>(s).take()));
  }
  SIM_DEFINE_PIPE(drop_value_closure)
};
struct drop_op_closure {
  template <class S>
  auto operator()(S&& s) && {
    using M = make_drop<std::decay_t<S>>;
    return typename M::do_type(new typename M::do_node(std::forward<S>(s).take()));
  }
  SIM_DEFINE_PIPE(drop_op_closure)
};
struct unpack_closure {
  template <class S>
  auto operator()(S&& s) && {
    using M = make_unpack<std::decay_t<S>>;
    return typename M::type(new typename M::node_t(std::forward<S>(s).take()));
  }
  SIM_DEFINE_PIPE(unpack_closure)
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto drop_value(S&& s) {
  return detail::drop_value_closure{}(std::forward<S>(s));
}
inline auto drop_value() {
  return detail::drop_value_closure{};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto drop_operation_state(S&& s) {
  return detail::drop_op_closure{}(std::forward<S>(s));
}
inline auto drop_operation_state() {
  return detail::drop_op_closure{};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto unpack(S&& s) {
  return detail::unpack_closure{}(std::forward<S>(s));
}
inline auto unpack() {
  return detail::unpack_closure{};
}

// ------------------------------------------------------------------ when_all
namespace detail {
template <class... Ls>
struct concat;
template <>
struct concat<> {
  using type = types<>;
};
template <class... As>
struct concat<types<As...>> {
  using type = types<std::decay_t<As>...>;
};
template <class... As, class... Bs, class... Rest>
struct concat<types<As...>, types<Bs...>, Rest...> : concat<types<As..., Bs...>, Rest...> {};

template <class Out>
struct wa_core;
template <class... Os>
struct wa_core<types<Os...>> : node<Os...> {
  receiver<Os...>* r = nullptr;
  std::size_t remaining = 0;
  std::exception_ptr error;
  virtual void deliver() = 0;
  virtual void start_children() = 0;
  void start(receiver<Os...>* r_) final {
    r = r_;
    start_children();
  }
  void child_done() {
    if (--remaining == 0) {
      if (error)
        r->set_error(error);
      else
        deliver();
    }
  }
  void child_error(std::exception_ptr ep) {
    if (!error)
      error = ep;
    child_done();
  }
};

template <class Core, class L>
struct wa_child;
template <class Core, class... Ts>
struct wa_child<Core, types<Ts...>> final : receiver<Ts...> {
  Core* core = nullptr;
  node_ptr<Ts...> pred;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  void set_value(Ts&&... ts) override {
    vals.emplace(std::forward<Ts>(ts)...);
    core->child_done();
  }
  void set_error(std::exception_ptr ep) override {
    core->child_error(ep);
  }
  auto refs() {
    return std::apply([](auto&... v) { return std::tie(v...); }, *vals);
  }
};

template <class Out, class... Ls>
struct when_all_node final : wa_core<Out> {
  using core = wa_core<Out>;
  std::tuple<wa_child<core, Ls>...> children;
  template <class... Ns>
  explicit when_all_node(std::in_place_t, Ns&&... ns) {
    init(std::index_sequence_for<Ls...>{}, std::move(ns)...);
  }
  template <std::size_t... Is, class... Ns>
  void init(std::index_sequence<Is...>, Ns&&... ns) {
    ((std::get<Is>(children).pred = std::move(ns)), ...);
    ((std::get<Is>(children).core = this), ...);
  }
  void start_children() override {
    this->remaining = sizeof...(Ls);
    std::apply([](auto&... c) { (c.pred->start(&c), ...); }, children);
  }
  void deliver() override {
    auto all = std::apply([](auto&... c) { return std::tuple_cat(c.refs()...); }, children);
    std::apply([this](auto&... v) { this->r->set_value(std::move(v)...); }, all);
  }
};

}

namespace detail {
template <class Out>
struct make_wa;
template <class... Os>
struct make_wa<types<Os...>> {
  static auto make(node<Os...>* n) {
    return sender<false, Os...>(n);
  }
};
}
template <class... Ss, class = std::enable_if_t<(is_sender_v<Ss> && ...) && (sizeof...(Ss) > 0)>>
auto when_all(Ss&&... ss) {
  using Out = typename detail::concat<typename std::decay_t<Ss>::types...>::type;
  using node_t = detail::when_all_node<Out, typename std::decay_t<Ss>::types...>;
  return detail::make_wa<Out>::make(new node_t(std::in_place, std::forward<Ss>(ss).take()...));
}

// ------------------------------------------------------------------ when_all_vector
namespace detail {
template <class T>
struct wav_node final : node<std::vector<T>> {
  struct child final : receiver<T> {
    wav_node* parent = nullptr;
    node_ptr<T> pred;
    std::optional<std::decay_t<T>> val;
    void set_value(T&& t) override {
      val.emplace(std::forward<T>(t));
      parent->done();
    }
    void set_error(std::exception_ptr ep) override {
      if (!parent->error)
        parent->error = ep;
      parent->done();
    }
  };
  std::unique_ptr<child[]> children;
  std::size_t n = 0, remaining = 0;
  std::exception_ptr error;
  receiver<std::vector<T>>* r = nullptr;
  void start(receiver<std::vector<T>>* r_) override {
    r = r_;
    remaining = n;
    if (n == 0) {
      r->set_value(std::vector<T>{});
      return;
    }
    child* c = children.get();
    const std::size_t m = n;
    for (std::size_t i = 0; i < m; ++i)
      c[i].pred->start(&c[i]);
  }
  void done() {
    if (--remaining == 0) {
      if (error) {
        r->set_error(error);
        return;
      }
      std::vector<T> v;
      v.reserve(n);
      for (std::size_t i = 0; i < n; ++i)
        v.push_back(std::move(*children[i].val));
      r->set_value(std::move(v));
    }
  }
};
struct wav_void_node final : node<> {
  struct child final : receiver<> {
    wav_void_node* parent = nullptr;
    node_ptr<> pred;
    void set_value() override {
      parent->done();
    }
    void set_error(std::exception_ptr ep) override {
      if (!parent->error)
        parent->error = ep;
      parent->done();
    }
  };
  std::unique_ptr<child[]> children;
  std::size_t n = 0, remaining = 0;
  std::exception_ptr error;
  receiver<>* r = nullptr;
  void start(receiver<>* r_) override {
    r = r_;
    remaining = n;
    if (n == 0) {
      r->set_value();
      return;
    }
    child* c = children.get();
    const std::size_t m = n;
    for (std::size_t i = 0; i < m; ++i)
      c[i].pred->start(&c[i]);
  }
  void done() {
    if (--remaining == 0) {
      if (error)
        r->set_error(error);
      else
        r->set_value();
    }
  }
};
template <class S>
struct wav;
template <bool C, class T>
struct wav<sender<C, T>> {
  using node_t = wav_node<std::decay_t<T>>;
  using type = sender<false, std::vector<std::decay_t<T>>>;
};
template <bool C>
struct wav<sender<C>> {
  using node_t = wav_void_node;
  using type = sender<false>;
};
template <class S, class V>
auto when_all_vector_impl(V&& ss) {
  auto* n = new typename wav<S>::node_t;
  n->n = ss.size();
  n->children.reset(new typename wav<S>::node_t::child[n->n ? n->n : 1]);
  for (std::size_t i = 0; i < n->n; ++i) {
    n->children[i].parent = n;
    if constexpr (std::is_rvalue_reference_v<V&&>)
      n->children[i].pred = std::move(ss[i]).take();
    else
      n->children[i].pred = ss[i].take();
  }
  return typename wav<S>::type(n);
}
}
template <class S>
auto when_all_vector(std::vector<S>&& ss) {
  return detail::when_all_vector_impl<S>(std::move(ss));
}
template <class S>
auto when_all_vector(const std::vector<S>& ss) {
  return detail::when_all_vector_impl<S>(ss);
}
template <class S>
auto when_all_vector(std::vector<S>& ss) {
  return detail::when_all_vector_impl<S>(static_cast<const std::vector<S>&>(ss));
}

// ------------------------------------------------------------------ let_value
namespace detail {
template <class F, class P, class Succ>
struct let_node;
template <class F, class... Ts, bool C, class... Us>
struct let_node<F, types<Ts...>, sender<C, Us...>> final : node<Us...>, receiver<Ts...> {
  node_ptr<Ts...> pred;
  F f;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  node_ptr<Us...> succ;
  receiver<Us...>* r = nullptr;
  template <class F2>
  let_node(node_ptr<Ts...> p, F2&& f_) : pred(std::move(p)), f(std::forward<F2>(f_)) {}
  void start(receiver<Us...>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    try {
      vals.emplace(std::forward<Ts>(ts)...);
      succ = std::apply([this](auto&... vs) { return std::invoke(std::move(f), vs...).take(); }, *vals);
    }
    catch (...) {
      fail(std::current_exception());
      return;
    }
    succ->start(r);
  }
  void fail(std::exception_ptr ep) {
    r->set_error(ep);
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  node<Us...>* clone() const override {
    if constexpr (std::is_copy_constructible_v<F>) {
      auto c = pred->clone();
      return c ? new let_node(node_ptr<Ts...>(c), f) : nullptr;
    }
    else
      return nullptr;
  }
};

template <class S, class F>
struct make_let;
template <bool C, class... Ts, class F>
struct make_let<sender<C, Ts...>, F> {
  using succ = std::decay_t<std::invoke_result_t<F, std::decay_t<Ts>&...>>;
  template <class X>
  struct out;
  template <bool C2, class... Us>
  struct out<sender<C2, Us...>> {
    using type = sender<C && std::is_copy_constructible_v<F>, Us...>;
  };
  using type = typename out<succ>::type;
  using node_t = let_node<F, types<Ts...>, succ>;
};
template <class F>
struct let_closure {
  F f;
  template <class S>
  auto operator()(S&& s) && {
    using M = make_let<std::decay_t<S>, F>;
    return typename M::type(new typename M::node_t(std::forward<S>(s).take(), std::move(f)));
  }
  SIM_DEFINE_PIPE(let_closure)
};
}
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
auto let_value(S&& s, F&& f) {
  return detail::let_closure<std::decay_t<F>>{std::forward<F>(f)}(std::forward<S>(s));
}
template <class F>
auto let_value(F&& f) {
  return detail::let_closure<std::decay_t<F>>{std::forward<F>(f)};
}

// ------------------------------------------------------------------ split / ensure_started / split_tuple
namespace detail {
template <class... Ts>
struct shared_op final : receiver<Ts...>, std::enable_shared_from_this<shared_op<Ts...>> {
  node_ptr<Ts...> pred;
  bool started = false, done = false, pool = false;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::exception_ptr error;
  struct waiter {
    virtual void ready() = 0;
  };
  std::vector<waiter*> waiters;
  std::shared_ptr<shared_op> self;  // alive while the predecessor runs
  explicit shared_op(node_ptr<Ts...> p) : pred(std::move(p)) {
    pool = pred->on_pool();
  }
  void start() {
    if (started)
      return;
    started = true;
    self = this->shared_from_this();
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    vals.emplace(std::forward<Ts>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr ep) override {
    error = ep;
    finish();
  }
  void finish() {
    auto keep = std::move(self);
    pred.reset();
    done = true;
    auto w = std::move(waiters);
    waiters.clear();
    if (w.size() > 1 && ::sim::choose(2) == 1)
      std::reverse(w.begin(), w.end());
    for (auto* x : w)
      x->ready();
  }
  void wait(waiter* w) {
    if (done)
      w->ready();
    else
      waiters.push_back(w);
  }
};

template <class... Ts>
struct split_node final : node<const std::decay_t<Ts>&...>, shared_op<Ts...>::waiter {
  std::shared_ptr<shared_op<Ts...>> st;
  receiver<const std::decay_t<Ts>&...>* r = nullptr;
  explicit split_node(std::shared_ptr<shared_op<Ts...>> s) : st(std::move(s)) {}
  void start(receiver<const std::decay_t<Ts>&...>* r_) override {
    r = r_;
    auto keep = st;
    keep->start();
    keep->wait(this);
  }
  void ready() override {
    auto keep = st;
    if (keep->error)
      r->set_error(keep->error);
    else
      std::apply([this](const auto&... vs) { r->set_value(vs...); }, *keep->vals);
  }
  node<const std::decay_t<Ts>&...>* clone() const override {
    return new split_node(st);
  }
  bool on_pool() const override {
    return st->pool;
  }
};

template <class... Ts>
struct started_node final : node<std::decay_t<Ts>...>, shared_op<Ts...>::waiter {
  std::shared_ptr<shared_op<Ts...>> st;
  receiver<std::decay_t<Ts>...>* r = nullptr;
  explicit started_node(std::shared_ptr<shared_op<Ts...>> s) : st(std::move(s)) {}
  void start(receiver<std::decay_t<Ts>...>* r_) override {
    r = r_;
    auto keep = st;
    keep->start();
    keep->wait(this);
  }
  void ready() override {
    auto keep = st;
    if (keep->error)
      r->set_error(keep->error);
    else
      std::apply([this](auto&... vs) { r->set_value(std::move(vs)...); }, *keep->vals);
  }
  bool on_pool() const override {
    return st->pool;
  }
};

template <class S>
struct make_shared_op;
template <bool C, class... Ts>
struct make_shared_op<sender<C, Ts...>> {
  using state = shared_op<Ts...>;
  using split_type = sender<true, const std::decay_t<Ts>&...>;
  using split_n = split_node<Ts...>;
  using started_type = sender<false, std::decay_t<Ts>...>;
  using started_n = started_node<Ts...>;
};

struct split_closure {
  template <class S>
  auto operator()(S&& s) && {
    using M = make_shared_op<std::decay_t<S>>;
    return typename M::split_type(
        new typename M::split_n(std::make_shared<typename M::state>(std::forward<S>(s).take())));
  }
  SIM_DEFINE_PIPE(split_closure)
};
struct ensure_started_closure {
  template <class S>
  auto operator()(S&& s) && {
    using M = make_shared_op<std::decay_t<S>>;
    auto st = std::make_shared<typename M::state>(std::forward<S>(s).take());
    st->start();
    return typename M::started_type(new typename M::started_n(std::move(st)));
  }
  SIM_DEFINE_PIPE(ensure_started_closure)
};

template <std::size_t I, class Tup>
struct tuple_elem_node final : node<std::tuple_element_t<I, Tup>>, shared_op<Tup>::waiter {
  using T = std::tuple_element_t<I, Tup>;
  std::shared_ptr<shared_op<Tup>> st;
  receiver<T>* r = nullptr;
  explicit tuple_elem_node(std::shared_ptr<shared_op<Tup>> s) : st(std::move(s)) {}
  void start(receiver<T>* r_) override {
    r = r_;
    auto keep = st;
    keep->start();
    keep->wait(this);
  }
  void ready() override {
    auto keep = st;
    if (keep->error)
      r->set_error(keep->error);
    else
      r->set_value(std::move(std::get<I>(std::get<0>(*keep->vals))));
  }
  bool on_pool() const override {
    return st->pool;
  }
};
template <class S>
struct make_split_tuple;
template <bool C, class... Us>
struct make_split_tuple<sender<C, std::tuple<Us...>>> {
  using Tup = std::tuple<Us...>;
  template <class Ptr, std::size_t... Is>
  static auto make(Ptr st, std::index_sequence<Is...>) {
    return std::make_tuple(sender<false, Us>(new tuple_elem_node<Is, Tup>(st))...);
  }
  template <class S>
  static auto make(S&& s) {
    auto st = std::make_shared<shared_op<Tup>>(std::forward<S>(s).take());
    return make(st, std::index_sequence_for<Us...>{});
  }
};
struct split_tuple_closure {
  template <class S>
  auto operator()(S&& s) && {
    return make_split_tuple<std::decay_t<S>>::make(std::forward<S>(s));
  }
  SIM_DEFINE_PIPE(split_tuple_closure)
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split(S&& s) {
  return detail::split_closure{}(std::forward<S>(s));
}
inline auto split() {
  return detail::split_closure{};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto ensure_started(S&& s) {
  return detail::ensure_started_closure{}(std::forward<S>(s));
}
inline auto ensure_started() {
  return detail::ensure_started_closure{};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split_tuple(S&& s) {
  return detail::split_tuple_closure{}(std::forward<S>(s));
}
inline auto split_tuple() {
  return detail::split_tuple_closure{};
}

// ------------------------------------------------------------------ bulk
namespace detail {
template <class N, class F, class... Ts>
struct bulk_node final : node<std::decay_t<Ts>...>, receiver<Ts...> {
  node_ptr<Ts...> pred;
  N n;
  F f;
  bool pool = false;
  receiver<std::decay_t<Ts>...>* r = nullptr;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::size_t next = 0, total = 0, running = 0;
  std::exception_ptr error;
  bulk_node(node_ptr<Ts...> p, N n_, F f_) : pred(std::move(p)), n(n_), f(std::move(f_)) {
    pool = pred->on_pool();
  }
  void start(receiver<std::decay_t<Ts>...>* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    vals.emplace(std::forward<Ts>(ts)...);
    total = static_cast<std::size_t>(n);
    if (!pool || total == 0) {
      try {
        for (std::size_t i = 0; i < total; ++i)
          call(i);
      }
      catch (...) {
        error = std::current_exception();
      }
      complete();
      return;
    }
    const std::size_t k = std::min<std::size_t>(total, static_cast<std::size_t>(::sim::workers()));
    running = k;
    for (std::size_t w = 0; w < k; ++w)
      ::sim::spawn(::sim::cur_rank(), ::sim::TaskAttr{}, ::sim::make_task([this] { work(); }));
    ::sim::count("bulk");
  }
  void work() {
    while (next < total) {
      const std::size_t i = next++;
      try {
        call(i);
      }
      catch (...) {
        if (!error)
          error = std::current_exception();
      }
    }
    if (--running == 0)
      complete();
  }
  void call(std::size_t i) {
    std::apply([&](auto&... vs) { std::invoke(f, static_cast<N>(i), vs...); }, *vals);
  }
  void complete() {
    if (error)
      r->set_error(error);
    else
      std::apply([this](auto&... vs) { r->set_value(std::move(vs)...); }, *vals);
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  bool on_pool() const override {
    return pool;
  }
};
template <class S, class N, class F>
struct make_bulk;
template <bool C, class... Ts, class N, class F>
struct make_bulk<sender<C, Ts...>, N, F> {
  using type = sender<false, std::decay_t<Ts>...>;
  using node_t = bulk_node<N, F, Ts...>;
};
template <class N, class F>
struct bulk_closure {
  N n;
  F f;
  template <class S>
  auto operator()(S&& s) && {
    using M = make_bulk<std::decay_t<S>, N, F>;
    return typename M::type(new typename M::node_t(std::forward<S>(s).take(), n, std::move(f)));
  }
  SIM_DEFINE_PIPE(bulk_closure)
};
}
template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>>
auto bulk(S&& s, N n, F&& f) {
  return detail::bulk_closure<N, std::decay_t<F>>{n, std::forward<F>(f)}(std::forward<S>(s));
}
template <class N, class F>
auto bulk(N n, F&& f) {
  return detail::bulk_closure<N, std::decay_t<F>>{n, std::forward<F>(f)};
}

// ------------------------------------------------------------------ type erasure helpers
namespace detail {
template <class S>
struct erase;
template <bool C, class... Ts>
struct erase<sender<C, Ts...>> {
  using any = any_sender<std::decay_t<Ts>...>;
  using uniq = unique_any_sender<std::decay_t<Ts>...>;
};
struct make_any_closure {
  template <class S>
  auto operator()(S&& s) && {
    return typename erase<std::decay_t<S>>::any(std::forward<S>(s));
  }
  SIM_DEFINE_PIPE(make_any_closure)
};
struct make_unique_any_closure {
  template <class S>
  auto operator()(S&& s) && {
    return typename erase<std::decay_t<S>>::uniq(std::forward<S>(s));
  }
  SIM_DEFINE_PIPE(make_unique_any_closure)
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto make_any_sender(S&& s) {
  return detail::make_any_closure{}(std::forward<S>(s));
}
inline auto make_any_sender() {
  return detail::make_any_closure{};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto make_unique_any_sender(S&& s) {
  return detail::make_unique_any_closure{}(std::forward<S>(s));
}
inline auto make_unique_any_sender() {
  return detail::make_unique_any_closure{};
}

// ------------------------------------------------------------------ start_detached
namespace detail {
[[noreturn]] inline void detached_error(std::exception_ptr ep) {
  try {
    std::rethrow_exception(ep);
  }
  catch (const std::exception& e) {
    ::sim::uncaught(std::string("exception in detached work: ") + e.what());
  }
  catch (...) {
    ::sim::uncaught("unknown exception in detached work");
  }
}
template <class... Ts>
struct detached final : receiver<Ts...> {
  node_ptr<Ts...> op;
  explicit detached(node_ptr<Ts...> p) : op(std::move(p)) {}
  void set_value(Ts&&...) override {
    delete this;
  }
  void set_error(std::exception_ptr ep) override {
    detached_error(ep);
  }
};
template <class S>
struct make_detached;
template <bool C, class... Ts>
struct make_detached<sender<C, Ts...>> {
  using type = detached<Ts...>;
};
struct start_detached_closure {
  template <class S>
  void operator()(S&& s) && {
    auto* d = new typename make_detached<std::decay_t<S>>::type(std::forward<S>(s).take());
    d->op->start(d);
  }
  SIM_DEFINE_PIPE(start_detached_closure)
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
void start_detached(S&& s) {
  detail::start_detached_closure{}(std::forward<S>(s));
}
inline auto start_detached() {
  return detail::start_detached_closure{};
}
}

// ------------------------------------------------------------------ sync_wait
namespace pika::this_thread::experimental {
namespace detail {
namespace ex = pika::execution::experimental;
template <class S>
struct waiter;
template <bool C, class... Ts>
struct waiter<ex::sender<C, Ts...>> final : ex::detail::receiver<Ts...> {
  ::sim::Fiber* f = nullptr;
  bool done = false;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::exception_ptr error;
  void set_value(Ts&&... ts) override {
    vals.emplace(std::forward<Ts>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr ep) override {
    error = ep;
    finish();
  }
  void finish() {
    done = true;
    if (f)
      ::sim::wake(f);
  }
};
struct sync_wait_closure {
  template <class S>
  auto operator()(S&& s) && {
    waiter<std::decay_t<S>> w;
    {
      auto op = std::forward<S>(s).take();
      op->start(&w);
      while (!w.done) {
        w.f = ::sim::current();
        ::sim::block("sync_wait");
      }
      w.f = nullptr;
    }
    if (w.error)
      std::rethrow_exception(w.error);
    using Tup = typename decltype(w.vals)::value_type;
    static_assert(std::tuple_size_v<Tup> <= 1, "sync_wait of several values");
    if constexpr (std::tuple_size_v<Tup> == 1)
      return std::tuple_element_t<0, Tup>(std::move(std::get<0>(*w.vals)));
  }
  template <class S, class = std::enable_if_t<ex::is_sender_v<S>>>
  friend decltype(auto) operator|(S&& s, sync_wait_closure c) {
    return std::move(c)(std::forward<S>(s));
  }
};
}
template <class S, class = std::enable_if_t<pika::execution::experimental::is_sender_v<S>>>
auto sync_wait(S&& s) {
  return detail::sync_wait_closure{}(std::forward<S>(s));
}
inline auto sync_wait() {
  return detail::sync_wait_closure{};
}
}
