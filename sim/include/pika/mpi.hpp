#pragma once
#include <mpi.h>
#include <stdexcept>
#include <string>
#include <pika/execution.hpp>
#include <dlafsim/mpi_sim.h>

namespace pika::mpi::experimental {
enum class exception_mode { install_handler, no_handler };
void start_polling(exception_mode m = exception_mode::no_handler, std::string pool = "");
void stop_polling();
std::string get_pool_name();

namespace detail {
namespace exd = pika::execution::experimental::detail;

template <class F, class R, class... Ts>
struct mpi_node final : exd::result_sender<R>::node_type, exd::receiver<Ts...> {
  using rcv = typename exd::result_sender<R>::receiver_type;
  exd::node_ptr<Ts...> pred;
  F f;
  rcv* r = nullptr;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::conditional_t<std::is_void_v<R>, std::optional<int>, std::optional<std::conditional_t<std::is_void_v<R>, int, R>>>
      result;
  mpi_node(exd::node_ptr<Ts...> p, F f_) : pred(std::move(p)), f(std::move(f_)) {}
  void start(rcv* r_) override {
    r = r_;
    pred->start(this);
  }
  void set_value(Ts&&... ts) override {
    // The arguments live in the operation state until the request completes
    vals.emplace(std::forward<Ts>(ts)...);
    if (::sim::mpi_post_inline()) {
      post();
    }
    else {
      ::sim::TaskAttr a;
      a.priority = 1;
      a.pool = ::sim::kPoolMpi;
      ::sim::spawn(::sim::cur_rank(), a, ::sim::make_task([this] { post(); }));
    }
  }
  void post() {
    MPI_Request req = MPI_REQUEST_NULL;
    try {
      std::apply(
          [&](auto&... vs) {
            if constexpr (std::is_void_v<R>)
              std::invoke(std::move(f), vs..., &req);
            else
              result.emplace(std::invoke(std::move(f), vs..., &req));
          },
          *vals);
    }
    catch (...) {
      r->set_error(std::current_exception());
      return;
    }
    ::sim::mpi_on_complete(req, ::sim::make_task([this] { complete(); }));
  }
  void complete() {
    if (::sim::mpi_fail_completion()) {
      r->set_error(std::make_exception_ptr(std::runtime_error("simulated error of an MPI request")));
      return;
    }
    if constexpr (std::is_void_v<R>)
      r->set_value();
    else
      r->set_value(std::move(*result));
  }
  void set_error(std::exception_ptr ep) override {
    r->set_error(ep);
  }
  bool on_pool() const override {
    return true;
  }
};

template <class S, class F>
struct make_mpi;
template <bool C, class... Ts, class F>
struct make_mpi<pika::execution::experimental::sender<C, Ts...>, F> {
  using R = std::invoke_result_t<F, std::decay_t<Ts>&..., MPI_Request*>;
  using type = typename exd::result_sender<R>::template type<false>;
  using node_t = mpi_node<F, R, Ts...>;
};
template <class F>
struct mpi_closure {
  F f;
  template <class S>
  auto operator()(S&& s) && {
    using M = make_mpi<std::decay_t<S>, F>;
    return typename M::type(new typename M::node_t(std::forward<S>(s).take(), std::move(f)));
  }
  template <class S, class = std::enable_if_t<pika::execution::experimental::is_sender_v<S>>>
  friend decltype(auto) operator|(S&& s, mpi_closure c) {
    return std::move(c)(std::forward<S>(s));
  }
};
}

template <class S, class F, class = std::enable_if_t<pika::execution::experimental::is_sender_v<S>>>
auto transform_mpi(S&& s, F&& f) {
  return detail::mpi_closure<std::decay_t<F>>{std::forward<F>(f)}(std::forward<S>(s));
}
template <class F>
auto transform_mpi(F&& f) {
  return detail::mpi_closure<std::decay_t<F>>{std::forward<F>(f)};
}
}
