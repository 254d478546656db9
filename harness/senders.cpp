// C26: tasks made with the sender adaptors of the library
#include "common.h"

#include <map>
#include <memory>
#include <optional>
#include <stdexcept>

#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/matrix/copy_tile.h>
#include <dlaf/memory/memory_view.h>
#include <dlaf/sender/policy.h>
#include <dlaf/sender/transform.h>
#include <dlaf/sender/transform_mpi.h>
#include <dlaf/sender/when_all_lift.h>
#include <dlaf/sender/with_temporary_tile.h>

namespace {
using namespace hz;
namespace di = dlaf::internal;
using pika::execution::thread_priority;
using pika::execution::thread_stacksize;
using Tile = dlaf::matrix::Tile<double, Device::CPU>;
using CTile = dlaf::matrix::Tile<const double, Device::CPU>;
const char* const KIND = "wrong-task";

struct Error : std::runtime_error {
  int id;
  explicit Error(int i) : std::runtime_error("task " + std::to_string(i)), id(i) {}
};

// One rank's objects
struct World {
  std::map<int, int> alive;     // valid instances of a token
  std::map<int, int> calls;     // of each task
  std::map<int, int> conts;     // of each continuation
};
struct Token {
  World* w = nullptr;
  int id = 0;
  const Token* self = nullptr;
  Token(World& w_, int id_) : w(&w_), id(id_), self(this) {
    ++w->alive[id];
  }
  Token(const Token& o) : w(o.w), id(o.id), self(this) {
    if (w)
      ++w->alive[id];
  }
  Token(Token&& o) noexcept : w(o.w), id(o.id), self(this) {
    o.w = nullptr;
  }
  Token& operator=(const Token&) = delete;
  ~Token() {
    if (w)
      --w->alive[id];
    w = nullptr;
    self = nullptr;
  }
  void check(int want) const {
    if (self != this || !w || id != want)
      sim::violation("lifetime", "a task uses an object which is not alive (or another one)");
  }
};

struct Plan {
  int id = 0;
  int form = 0, shape = 0;
  SizeType t0 = 0, t1 = 0;
  bool throws = false, nostack = false, lift = false, drop = false;
  int prio = 0;
  int copy_to = 0, copy_from = 0, contiguous = 0;
  bool view = false;
  double see0 = 0, see1 = 0, put0 = 0, put1 = 0;
};
int captured(int id) { return 4 * id; }
int passed(int id) { return 4 * id + 1; }
int referenced(int id) { return 4 * id + 2; }

template <class T>
void expect_tile(const T& t, double x, const char* what) {
  for (auto e : dlaf::common::iterate_range2d(t.size()))
    if (t(e) != x)
      sim::violation("wrong-order", std::string(what) + " sees " + std::to_string(t(e)) + " instead of " + std::to_string(x));
}
void put_tile(const Tile& t, double x) {
  for (auto e : dlaf::common::iterate_range2d(t.size())) {
    t(e) = x;
    sim::maybe_yield("put");
  }
}
thread_priority prio_of(int p) {
  return p == 1 ? thread_priority::high : p == 2 ? thread_priority::low : thread_priority::normal;
}

// The body of a task: called with tiles in the order of the plan and other arguments
struct Body {
  World* w;
  Plan p;
  Token cap;
  Body(World& w_, const Plan& p_) : w(&w_), p(p_), cap(w_, captured(p_.id)) {}

  template <class... Ts>
  int operator()(Ts&&... ts) const {
    cap.check(captured(p.id));
    const sim::TaskAttr a = sim::cur_attr();
    if (a.nostack != p.nostack || a.priority != (p.prio == 1 ? 1 : p.prio == 2 ? -1 : 0))
      sim::violation(KIND, "a task does not run with the priority or stack size of its policy");
    ++w->calls[p.id];
    sim::maybe_yield("task");
    int k = 0;
    (visit(ts, k), ...);
    sim::maybe_yield("task end");
    k = 0;
    (again(ts, k), ...);
    cap.check(captured(p.id));
    if (p.throws)
      throw Error(p.id);
    return p.id * 10 + 7;
  }

private:
  void visit(const Tile& t, int& k) const {
    expect_tile(t, k == 0 ? p.see0 : p.see1, "a task");
    put_tile(t, k == 0 ? p.put0 : p.put1);
    ++k;
  }
  void visit(const CTile& t, int& k) const {
    expect_tile(t, k == 0 ? p.see0 : p.see1, "a task");
    ++k;
  }
  void visit(const Token& t, int&) const {
    t.check(t.id == referenced(p.id) ? referenced(p.id) : passed(p.id));
  }
  void visit(int x, int&) const {
    if (x != p.id)
      sim::violation(KIND, "a task is called with the argument of another one");
  }
  void again(const Tile& t, int& k) const {
    expect_tile(t, k == 0 ? p.put0 : p.put1, "a task (at its end)");
    ++k;
  }
  void again(const CTile& t, int& k) const {
    expect_tile(t, k == 0 ? p.see0 : p.see1, "a task (at its end)");
    ++k;
  }
  template <class U>
  void again(const U& u, int& k) const {
    visit(u, k);
  }
};

enum Form { Detached, TransformDetach, PipeDetach, Waited, PipeWaited, Started, Continued, Partial, Split, Erased, Dropped, Temporary, NForms };

struct Runner {
  World& w;
  Mat<double>& a;
  std::vector<double>& value;
  std::vector<std::pair<int, ex::unique_any_sender<int>>> started;
  std::vector<ex::unique_any_sender<>> lazy;
  std::vector<std::unique_ptr<Token>> refs;
  std::map<int, int> want_calls, want_conts;

  LocalTileIndex at(SizeType i) const {
    const auto n = a.distribution().local_nr_tiles();
    return {i % n.rows(), i / n.rows()};
  }
  void wait(int id, bool throws, ex::unique_any_sender<int> s) {
    bool thrown = false;
    try {
      const int x = tt::sync_wait(std::move(s));
      if (x != id * 10 + 7)
        sim::violation(KIND, "the result of a task is " + std::to_string(x));
    }
    catch (const Error& e) {
      thrown = true;
      if (e.id != id)
        sim::violation(KIND, "the error of another task");
    }
    if (thrown != throws)
      sim::violation(KIND, throws ? "the exception of a task was lost" : "a task reported an exception without having thrown");
  }

  // s: the sender of the arguments
  template <class S>
  void submit(const Plan& p, S&& s, std::optional<ex::unique_any_sender<>> next) {
    const di::Policy<Backend::MC> policy(prio_of(p.prio), p.nostack ? thread_stacksize::nostack : thread_stacksize::default_);
    Body body(w, p);
    want_calls[p.id] = 1;
    switch (p.form) {
      case Detached:
        ex::start_detached(di::transform(policy, std::move(body), std::forward<S>(s)));
        break;
      case TransformDetach:
        di::transformDetach(policy, std::move(body), std::forward<S>(s));
        break;
      case PipeDetach:
        std::forward<S>(s) | di::transformDetach(policy, std::move(body));
        break;
      case Waited:
        wait(p.id, p.throws, ex::unique_any_sender<int>(di::transform(policy, body, std::forward<S>(s))));
        break;
      case PipeWaited:
        wait(p.id, p.throws, ex::unique_any_sender<int>(std::forward<S>(s) | di::transform(policy, std::move(body))));
        break;
      case Started:
        started.emplace_back(p.throws ? -1 - p.id : p.id, ex::unique_any_sender<int>(ex::ensure_started(std::forward<S>(s) | di::transform(policy, std::move(body)))));
        break;
      case Continued:
        // what the task was given is released when the continuation starts, which may wait for a later access to the same tile
        want_conts[p.id] = 1;
        ex::start_detached(std::forward<S>(s) | di::transform(policy, std::move(body)) |
                           ex::then([&w = w, p, next = std::make_shared<ex::unique_any_sender<>>(std::move(*next))](int x) {
                             ++w.conts[p.id];
                             if (x != p.id * 10 + 7)
                               sim::violation(KIND, "the result of a task is " + std::to_string(x));
                             if (w.alive[captured(p.id)] != 0 || w.alive[passed(p.id)] != 0)
                               sim::violation("lifetime", "what a task was given is not released before its continuation starts");
                             if (!p.nostack)
                               tt::sync_wait(std::move(*next));
                             else
                               ex::start_detached(std::move(*next));
                           }));
        break;
      case Partial: {
        auto partial = di::transform(policy, std::move(body));
        auto copy = partial;
        wait(p.id, p.throws, ex::unique_any_sender<int>(std::forward<S>(s) | copy));
        Token other(w, passed(p.id));
        want_calls[p.id] = 2;
        wait(p.id, p.throws, ex::unique_any_sender<int>(di::whenAllLift(std::cref(other), p.id) | std::move(partial)));
        break;
      }
      case Split: {
        auto one = std::forward<S>(s) | di::transform(policy, std::move(body)) | ex::split();
        started.emplace_back(p.throws ? -1 - p.id : p.id, ex::unique_any_sender<int>(one | ex::then([](int x) { return x; })));
        wait(p.id, p.throws, ex::unique_any_sender<int>(one | ex::then([](int x) { return x; })));
        break;
      }
      case Erased:
        // not started before it is asked for
        lazy.emplace_back(std::forward<S>(s) | di::transform(policy, std::move(body)) | ex::drop_value());
        sim::maybe_yield("lazy");
        if (w.calls[p.id] != 0)
          sim::violation(KIND, "a task was run before it was started");
        if (p.drop) {
          lazy.pop_back();
          want_calls[p.id] = 0;
        }
        else {
          ex::start_detached(std::move(lazy.back()));
          lazy.pop_back();
        }
        break;
      case Dropped: {
        auto unused = std::forward<S>(s) | di::transform(policy, std::move(body));
        want_calls[p.id] = 0;
        sim::maybe_yield("lazy");
        break;
      }
      default:
        sim::harness_error("form");
    }
  }
  template <class... Ss>
  void arguments(const Plan& p, std::optional<ex::unique_any_sender<>> next, Ss&&... ss) {
    if (p.lift) {
      refs.push_back(std::make_unique<Token>(w, referenced(p.id)));
      submit(p, di::whenAllLift(std::forward<Ss>(ss)..., Token(w, passed(p.id)), std::cref(*refs.back()), p.id), std::move(next));
    }
    else
      submit(p, ex::when_all(std::forward<Ss>(ss)..., ex::just(Token(w, passed(p.id)))), std::move(next));
  }

  void operator()(Plan p) {
    p.see0 = value[static_cast<std::size_t>(p.t0)];
    p.see1 = value[static_cast<std::size_t>(p.t1)];
    const bool runs = !(p.form == Dropped || (p.form == Erased && p.drop));
    const bool w0 = p.shape == 1 || p.shape == 3, w1 = p.shape == 2 || p.shape == 3;
    if (p.form == Temporary) {
      temporary(p);
      return;
    }
    if (runs && w0)
      value[static_cast<std::size_t>(p.t0)] = p.put0;
    if (runs && w1)
      value[static_cast<std::size_t>(p.t1)] = p.put1;
    auto next = [&]() -> std::optional<ex::unique_any_sender<>> {
      if (p.form != Continued)
        return std::nullopt;
      const double now = value[static_cast<std::size_t>(p.t0)];
      value[static_cast<std::size_t>(p.t0)] = now + 1000;
      return ex::unique_any_sender<>(a.readwrite(at(p.t0)) | ex::then([now](Tile t) {
                                       expect_tile(t, now, "the access of a continuation");
                                       put_tile(t, now + 1000);
                                     }));
    };
    switch (p.shape) {
      case 0: {
        auto s = a.read(at(p.t0));
        arguments(p, next(), std::move(s));
        break;
      }
      case 1: {
        auto s = a.readwrite(at(p.t0));
        arguments(p, next(), std::move(s));
        break;
      }
      case 2: {
        auto s = a.read(at(p.t0));
        auto r = a.readwrite(at(p.t1));
        arguments(p, next(), std::move(s), std::move(r));
        break;
      }
      default: {
        auto s = a.readwrite(at(p.t0));
        auto r = a.readwrite(at(p.t1));
        arguments(p, next(), std::move(s), std::move(r));
      }
    }
  }

  template <di::CopyToDestination To, di::CopyFromDestination From, di::RequireContiguous Cont>
  void with_temporary(const Plan& p) {
    const double now = value[static_cast<std::size_t>(p.t0)];
    const bool strided = p.view;
    // Is a new tile made?
    const bool copied = bool(Cont) && strided;
    const double sees = copied && !bool(To) ? std::nan("") : now;  // or undefined
    want_calls[p.id] = 1;
    Body body(w, p);
    auto f = [&w = w, p, sees, copied, cap = Token(w, captured(p.id))](auto& tile) mutable {
      cap.check(captured(p.id));
      return di::whenAllLift(std::cref(tile), Token(w, passed(p.id))) |
             di::transform(di::Policy<Backend::MC>(p.nostack ? thread_stacksize::nostack : thread_stacksize::default_), [&w, p, sees, copied](const Tile& t, Token&& tok) {
               tok.check(passed(p.id));
               ++w.calls[p.id];
               if (bool(Cont) && !t.is_contiguous())
                 sim::violation(KIND, "a temporary tile is not contiguous");
               if (!std::isnan(sees))
                 expect_tile(t, sees, "a task with a temporary tile");
               put_tile(t, p.put0);
               if (p.throws)
                 throw Error(p.id);
               (void) copied;
             });
    };
    if (!p.throws && (!copied || bool(From)))
      value[static_cast<std::size_t>(p.t0)] = p.put0;
    if (p.throws && !copied)
      value[static_cast<std::size_t>(p.t0)] = p.put0;
    const double after = value[static_cast<std::size_t>(p.t0)];
    auto s = di::withTemporaryTile<Device::CPU, To, From, Cont>(a.readwrite(at(p.t0)), std::move(f)) | ex::then([&w = w, p, after](Tile t) {
               // the input is sent on
               expect_tile(t, after, "the continuation of a temporary tile");
               ++w.conts[p.id];
               return p.id * 10 + 7;
             });
    want_conts[p.id] = p.throws ? 0 : 1;
    if (p.lift || p.throws)
      wait(p.id, p.throws, ex::unique_any_sender<int>(std::move(s)));
    else
      ex::start_detached(std::move(s));
  }
  void temporary(const Plan& p) {
    using To = di::CopyToDestination;
    using From = di::CopyFromDestination;
    using C = di::RequireContiguous;
    switch (p.copy_to + 2 * p.copy_from + 4 * p.contiguous) {
      case 0: return with_temporary<To::No, From::No, C::No>(p);
      case 1: return with_temporary<To::Yes, From::No, C::No>(p);
      case 2: return with_temporary<To::No, From::Yes, C::No>(p);
      case 3: return with_temporary<To::Yes, From::Yes, C::No>(p);
      case 4: return with_temporary<To::No, From::No, C::Yes>(p);
      case 5: return with_temporary<To::Yes, From::No, C::Yes>(p);
      case 6: return with_temporary<To::No, From::Yes, C::Yes>(p);
      default: return with_temporary<To::Yes, From::Yes, C::Yes>(p);
    }
  }
};

void tasks() {
  const Shape sh = draw_local(3);
  const long al = draw_alloc();
  const SizeType mt = sim::param("tiles_m", 1, 3), nt = sim::param("tiles_n", 1, 2), ts = sim::param("ts", 1, 3);
  const int nops = static_cast<int>(sim::param("ops", 1, 14));
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000000)));
  std::vector<Plan> plans;
  for (int k = 0; k < nops; ++k) {
    Plan p;
    p.id = k;
    p.form = static_cast<int>(r.i(0, NForms - 1));
    p.shape = static_cast<int>(r.i(0, mt * nt > 1 ? 3 : 1));
    p.t0 = r.i(0, mt * nt - 1);
    do
      p.t1 = r.i(0, mt * nt - 1);
    while (mt * nt > 1 && p.t1 == p.t0);
    p.lift = r.i(0, 1) != 0;
    p.drop = r.i(0, 3) == 0;
    p.nostack = r.i(0, 2) == 0;
    p.prio = static_cast<int>(r.i(0, 2));
    p.copy_to = static_cast<int>(r.i(0, 1));
    p.copy_from = static_cast<int>(r.i(0, 1));
    p.contiguous = static_cast<int>(r.i(0, 1));
    const bool caught = p.form == Waited || p.form == PipeWaited || p.form == Started || p.form == Partial || p.form == Split || p.form == Temporary;
    p.throws = caught && r.i(0, 3) == 0;
    p.put0 = static_cast<double>(r.i(1, 900));
    p.put1 = static_cast<double>(r.i(1, 900));
    plans.push_back(p);
  }
  run_ranks(sh.cfg, [&](int) {
    World w;
    std::vector<double> value(static_cast<std::size_t>(mt * nt), 0);
    {
      Mat<double> a(Dist(dlaf::LocalElementSize(mt * ts, nt * ts), {ts, ts}), alloc_of(al));
      for (auto ij : dlaf::common::iterate_range2d(a.distribution().local_nr_tiles()))
        ex::start_detached(a.readwrite(ij) | ex::then([](Tile t) { put_tile(t, 0); }));
      std::vector<bool> strided;
      Runner run{w, a, value, {}, {}, {}, {}, {}};
      for (SizeType i = 0; i < mt * nt; ++i)
        strided.push_back(!tt::sync_wait(a.read(run.at(i))).get().is_contiguous());
      for (Plan p : plans) {
        p.view = strided[static_cast<std::size_t>(p.t0)];
        run(p);
        sim::maybe_yield("submitted");
        // the result may be asked for at any later time
        if (!run.started.empty() && sim::choose(3) == 1) {
          auto s = std::move(run.started.front());
          run.started.erase(run.started.begin());
          run.wait(s.first < 0 ? -1 - s.first : s.first, s.first < 0, std::move(s.second));
        }
      }
      for (SizeType i = 0; i < mt * nt; ++i)
        expect_tile(tt::sync_wait(a.read(run.at(i))).get(), value[static_cast<std::size_t>(i)], "a reader at the end");
      for (auto& s : run.started)
        run.wait(s.first < 0 ? -1 - s.first : s.first, s.first < 0, std::move(s.second));
      run.started.clear();
      sim::drain(0);
      run.refs.clear();
      for (const auto& [id, n] : run.want_calls)
        if (w.calls[id] != n)
          sim::violation(KIND, "a task was run " + std::to_string(w.calls[id]) + " times instead of " + std::to_string(n));
      for (const auto& [id, n] : run.want_conts)
        if (w.conts[id] != n)
          sim::violation(KIND, "the continuation of a task was run " + std::to_string(w.conts[id]) + " times instead of " + std::to_string(n));
      for (const auto& [id, n] : w.alive)
        if (n != 0)
          sim::violation("lifetime", "an object given to a task was not released");
    }
  });
}

// Messages posted in another order on each rank, through one communicator: each post must not wait for the completion of those before
void messages() {
  Shape sh = draw_shape(2, 3, 4, 3);
  const int ranks = sh.pr * sh.pc;
  const int nm = static_cast<int>(sim::param("messages", 1, 8));
  const int len = static_cast<int>(sim::param("len", 1, 6));
  Rng r(static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000000)));
  struct Msg {
    int src, dst;
    bool throws;
  };
  std::vector<Msg> ms;
  for (int k = 0; k < nm; ++k)
    ms.push_back({static_cast<int>(r.i(0, ranks - 1)), static_cast<int>(r.i(0, ranks - 1)), false});
  run_ranks(sh.cfg, [&](int world) {
    auto grid = make_grid(sh);
    World w;
    // released before the grid is waited for
    auto own = std::make_unique<std::decay_t<decltype(grid.full_communicator_pipeline())>>(grid.full_communicator_pipeline());
    auto& pipe = *own;
    const int rank = pipe.rank();
    struct Post {
      int msg;
      bool send, shared, throws;
    };
    std::vector<Post> posts;
    Rng q(static_cast<std::uint64_t>(rank) * 131u + r.s);
    for (int k = 0; k < nm; ++k) {
      if (ms[static_cast<std::size_t>(k)].src == rank)
        posts.push_back({k, true, false, false});
      if (ms[static_cast<std::size_t>(k)].dst == rank)
        posts.push_back({k, false, false, false});
    }
    for (std::size_t i = posts.size(); i > 1; --i)
      std::swap(posts[i - 1], posts[static_cast<std::size_t>(q.i(0, static_cast<long>(i) - 1))]);
    for (auto& p : posts)
      p.shared = q.i(0, 2) == 0;
    // some posts fail before they call MPI
    for (int k = static_cast<int>(q.i(0, 2)); k > 0; --k)
      posts.insert(posts.begin() + q.i(0, static_cast<long>(posts.size())), Post{-k, true, q.i(0, 1) != 0, true});
    using View = dlaf::memory::MemoryView<double, Device::CPU>;
    std::vector<ex::unique_any_sender<>> done;
    int id = 0;
    std::map<int, int> want;
    for (const Post& p : posts) {
      const int me = id++;
      want[me] = 1;
      const int peer = p.throws ? 0 : p.send ? ms[static_cast<std::size_t>(p.msg)].dst : ms[static_cast<std::size_t>(p.msg)].src;
      // the sender's data are written by a task
      auto data = ex::just(View(len)) | ex::continues_on(di::getBackendScheduler<Backend::MC>()) | ex::then([p, len](View v) {
                    sim::maybe_yield("data");
                    for (int i = 0; i < len; ++i)
                      *v(i) = p.send ? p.msg * 100 + i : -1;
                    return v;
                  });
      auto body = [&w, me, p, peer, len, cap = Token(w, captured(me))](const Communicator& c, View& v, Token& t, const Token&, MPI_Request* req) -> double* {
        cap.check(captured(me));
        t.check(passed(me));
        ++w.calls[me];
        if (p.throws)
          throw Error(me);
        if (p.send)
          DLAF_MPI_CHECK_ERROR(MPI_Isend(v(), len, MPI_DOUBLE, peer, p.msg, c, req));
        else
          DLAF_MPI_CHECK_ERROR(MPI_Irecv(v(), len, MPI_DOUBLE, peer, p.msg, c, req));
        return v();
      };
      static_assert(std::is_invocable_v<decltype(body), const Communicator&, View&, Token&, const Token&, MPI_Request*>);
      // the buffer is owned by this scope, which lasts until the request has completed
      auto scope = [&](auto comm) {
        return ex::when_all(std::move(data), ex::just(Token(w, referenced(me)))) |
               ex::let_value([&w, me, p, len, comm = std::make_shared<decltype(comm)>(std::move(comm)), body = std::move(body)](View& v, Token& ref) mutable {
                 return di::whenAllLift(std::move(*comm), std::ref(v), Token(w, passed(me)), std::cref(ref)) | dlaf::comm::internal::transformMPI(std::move(body)) |
                        ex::then([&w, me, p, len, &v](double* x) {
                          ++w.conts[me];
                          if (x != v())
                            sim::violation(KIND, "the value returned by the call of MPI was lost");
                          if (w.alive[passed(me)] != 0 || w.alive[captured(me)] != 0)
                            sim::violation("lifetime", "what an operation was given is not released before its continuation starts");
                          for (int i = 0; i < len; ++i)
                            if (*v(i) != p.msg * 100 + i)
                              sim::violation("wrong-message", "element " + std::to_string(i) + " of message " + std::to_string(p.msg) + " is " + std::to_string(*v(i)) + " on completion");
                        });
               });
      };
      if (p.shared)
        done.emplace_back(ex::ensure_started(scope(pipe.shared())));
      else
        done.emplace_back(ex::ensure_started(scope(pipe.exclusive())));
      sim::maybe_yield("posted");
    }
    for (std::size_t i = 0; i < done.size(); ++i) {
      bool thrown = false;
      try {
        tt::sync_wait(std::move(done[i]));
      }
      catch (const Error& e) {
        thrown = e.id == static_cast<int>(i);
      }
      if (thrown != posts[i].throws)
        sim::violation(KIND, "the exception of an operation was lost or is that of another one");
    }
    done.clear();
    own.reset();
    sim::drain(world);
    for (const auto& [k, n] : want)
      if (w.calls[k] != n || w.conts[k] != (posts[static_cast<std::size_t>(k)].throws ? 0 : 1))
        sim::violation(KIND, "an operation was started " + std::to_string(w.calls[k]) + " times and continued " + std::to_string(w.conts[k]) + " times");
    for (const auto& [k, n] : w.alive)
      if (n != 0)
        sim::violation("lifetime", "an object given to an operation was not released");
    grid.wait_all_communicators();
  });
}
}
SIM_SCENARIO("C26", tasks, 2) {
  tasks();
}
SIM_SCENARIO("C26", messages, 1) {
  messages();
}
