// C01: ordering of accesses through pipelines and nested pipelines
#include "common.h"

#include <list>
#include <memory>

#include <dlaf/common/pipeline.h>
#include <dlaf/sender/transform.h>

namespace {
using namespace hz;

struct Val {
  long v = -1;
  int state = 0;  // 0 default constructed, 1 valid, 2 moved from, 3 destroyed
  Val() = default;
  explicit Val(long x) : v(x), state(1) {}
  Val(Val&& o) noexcept : v(o.v), state(o.state) {
    o.state = 2;
    o.v = -2;
  }
  Val& operator=(Val&& o) noexcept {
    v = o.v;
    state = o.state;
    o.state = 2;
    o.v = -2;
    return *this;
  }
  ~Val() {
    state = 3;
    v = -3;
  }
};
using Pipe = dlaf::common::Pipeline<Val>;

enum Kind { W, R, Drop, Sub };
struct Prog;
struct Op {
  Kind kind = W;
  int id = -1;          // access id, in sequential order
  long expect = 0;      // value seen
  std::unique_ptr<Prog> sub;
};
struct Prog {
  std::vector<Op> ops;
};

struct Hist {
  std::vector<int> kind;      // by id
  std::vector<int> begun, ended, dropped;
  int active_w = 0, active_r = 0;
  int low = 0;  // all accesses with id < low have ended
  std::size_t nw = 0;

  void begin(int id, bool write, const Val& val, long expect) {
    sim::log_event(100, static_cast<std::uint64_t>(id));
    check(begun[static_cast<std::size_t>(id)]++ == 0, "granted-twice", "an access was granted twice");
    check(val.state == 1, "lost-value",
          "an access was granted on a value which is " +
              std::string(val.state == 0 ? "not yet available" : val.state == 2 ? "moved away" : "destroyed"));
    check(val.v == expect, "order",
          "access " + std::to_string(id) + " sees the value of write number " + std::to_string(val.v) +
              " instead of " + std::to_string(expect));
    // every earlier conflicting access has ended
    for (int i = low; i < id; ++i)
      if (!ended[static_cast<std::size_t>(i)] && (write || kind[static_cast<std::size_t>(i)] == W))
        sim::violation("order", "access " + std::to_string(id) + " was granted before the conflicting earlier access " +
                                    std::to_string(i) + " was released");
    for (std::size_t i = static_cast<std::size_t>(id) + 1; i < begun.size(); ++i)
      if (begun[i] && (write || kind[i] == W))
        sim::violation("order", "access " + std::to_string(id) + " was granted after the conflicting later access " + std::to_string(i));
    if (write)
      check(active_w == 0 && active_r == 0, "exclusive", "an exclusive access overlaps with another access");
    else
      check(active_w == 0, "exclusive", "a shared access overlaps with an exclusive access");
    (write ? active_w : active_r)++;
    if (active_r > 1)
      sim::count("probe.overlapping_reads");
  }
  void end(int id, bool write) {
    (write ? active_w : active_r)--;
    ended[static_cast<std::size_t>(id)] = 1;
    while (low < static_cast<int>(ended.size()) && ended[static_cast<std::size_t>(low)])
      ++low;
  }
};

void gen(Prog& p, int n, int depth, Rng& r) {
  for (int i = 0; i < n; ++i) {
    Op o;
    const long k = r.i(0, 9);
    if (k < 4)
      o.kind = W;
    else if (k < 7)
      o.kind = R;
    else if (k == 7)
      o.kind = Drop;
    else if (depth > 0) {
      o.kind = Sub;
      o.sub = std::make_unique<Prog>();
      gen(*o.sub, static_cast<int>(r.i(0, 4)), depth - 1, r);
    }
    p.ops.push_back(std::move(o));
  }
}
void number(Prog& p, int& id, long& w, Hist& h) {
  for (auto& o : p.ops) {
    if (o.kind == Sub) {
      number(*o.sub, id, w, h);
      continue;
    }
    o.id = id++;
    o.expect = w;
    if (o.kind == W)
      ++w;
    h.kind.push_back(o.kind);
  }
}

struct Live {
  std::unique_ptr<Pipe> pipe;
  Prog* prog;
  std::size_t next = 0;
};

template <class W_, bool Write>
struct Work {
  Hist* h;
  int id;
  long expect;
  int mode;
  W_ operator()(W_ w) const {
    if constexpr (Write) {
      Val& v = w.get();
      h->begin(id, true, v, expect);
      for (int i = 0; i <= mode; ++i)
        sim::yield();
      v.v = expect + 1;
      if (mode & 1)
        sim::yield();
      h->end(id, true);
    }
    else {
      const Val& v = w.get();
      h->begin(id, false, v, expect);
      for (int i = 0; i <= mode; ++i) {
        sim::yield();
        check(v.v == expect, "exclusive", "the value changed during a shared access");
      }
      h->end(id, false);
    }
    return w;
  }
};

template <bool Write, class S>
void launch(S s, Hist* h, int id, long expect, int mode, int how) {
  using Wr = std::conditional_t<Write, typename Pipe::ReadWriteWrapper, typename Pipe::ReadOnlyWrapper>;
  Work<Wr, Write> work{h, id, expect, mode};
  auto drop = [](Wr) {};
  auto sched = dlaf::internal::getBackendScheduler<Backend::MC>();
  switch (how) {
    case 0:  // on the scheduler
      ex::start_detached(std::move(s) | ex::continues_on(sched) | ex::then(work) | ex::then(drop));
      break;
    case 1:  // released later by another task
      ex::start_detached(std::move(s) | ex::continues_on(sched) | ex::then(work) | ex::continues_on(sched) |
                         ex::then(drop));
      break;
    case 2:  // eagerly started, wrapper kept until the shared state goes
      ex::start_detached(std::move(s) | ex::continues_on(sched) | ex::then(work) | ex::ensure_started() |
                         ex::then(drop));
      break;
    default:  // high priority
      ex::start_detached(std::move(s) |
                         ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>(pika::execution::thread_priority::high)) |
                         ex::then(work) | ex::drop_value());
  }
}

void pipeline_program(int depth) {
  const Shape sh = draw_local();
  const int n = static_cast<int>(sim::param("ops", 1, 14));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000));
  const bool move_pipes = sim::param("move_pipelines", 0, 1);
  Rng r(seed);
  Prog prog;
  gen(prog, n, depth, r);
  auto h = std::make_shared<Hist>();
  int id = 0;
  long w = 0;
  number(prog, id, w, *h);
  h->begun.assign(static_cast<std::size_t>(id), 0);
  h->ended.assign(static_cast<std::size_t>(id), 0);
  run_ranks(sh.cfg, [&](int) {
    std::list<Live> live;
    live.push_back({std::make_unique<Pipe>(Val(0)), &prog, 0});
    std::vector<std::function<void()>> deferred;
    auto start_some = [&](bool all) {
      while (!deferred.empty() && (all || sim::coin(1, 2))) {
        const auto k = sim::choose(static_cast<std::uint32_t>(deferred.size()));
        auto f = std::move(deferred[k]);
        deferred.erase(deferred.begin() + k);
        f();
      }
    };
    long final_value = -100;
    while (!live.empty()) {
      const auto k = sim::choose(static_cast<std::uint32_t>(live.size()));
      auto it = std::next(live.begin(), k);
      if (it->next == it->prog->ops.size()) {
        if (live.size() > 1 && it == live.begin())
          continue;  // the outermost pipeline goes last
        if (it == live.begin()) {
          start_some(true);
          auto wr = tt::sync_wait(it->pipe->read());
          check(wr.get().state == 1, "lost-value", "the value is gone after all accesses");
          final_value = wr.get().v;
        }
        if (move_pipes && sim::coin(1, 2)) {
          Pipe other(std::move(*it->pipe));
          check(!it->pipe->valid(), "order", "a moved-from pipeline is still valid");
          sim::maybe_yield("pipe move");
        }
        else if (move_pipes && sim::coin(1, 3)) {
          // replaced by another pipeline: the same as the end of its life
          sim::count("probe.assigned_over");
          *it->pipe = Pipe(Val(0));
          check(it->pipe->valid(), "order", "an assigned pipeline is not valid");
        }
        else if (sim::coin(1, 2))
          it->pipe->reset();
        live.erase(it);
        continue;
      }
      Op& o = it->prog->ops[it->next++];
      if (move_pipes && sim::coin(1, 4)) {
        auto np = std::make_unique<Pipe>();
        *np = std::move(*it->pipe);
        it->pipe = std::move(np);
      }
      const int mode = static_cast<int>(sim::choose(3));
      const int how = static_cast<int>(sim::choose(4));
      Hist* hp = h.get();
      if (o.kind == W) {
        auto s = std::make_shared<Pipe::ReadWriteSender>(it->pipe->readwrite());
        deferred.push_back([s, hp, &o, mode, how] { launch<true>(std::move(*s), hp, o.id, o.expect, mode, how); });
      }
      else if (o.kind == R) {
        auto s = std::make_shared<Pipe::ReadOnlySender>(it->pipe->read());
        deferred.push_back([s, hp, &o, mode, how] { launch<false>(std::move(*s), hp, o.id, o.expect, mode, how); });
      }
      else if (o.kind == Drop) {
        // requested and never started: counts as released when it is destroyed
        auto s = std::make_shared<Pipe::ReadWriteSender>(it->pipe->readwrite());
        deferred.push_back([s, hp, &o] {
          hp->ended[static_cast<std::size_t>(o.id)] = 1;
          while (hp->low < static_cast<int>(hp->ended.size()) && hp->ended[static_cast<std::size_t>(hp->low)])
            ++hp->low;
          s->reset();
        });
      }
      else {
        live.push_back({std::make_unique<Pipe>(it->pipe->sub_pipeline()), o.sub.get(), 0});
        sim::count("probe.sub_pipelines");
      }
      start_some(false);
      sim::maybe_yield("submit");
    }
    start_some(true);
    sim::drain(0);
    for (std::size_t i = 0; i < h->begun.size(); ++i)
      check(h->kind[i] == Drop || h->begun[i] == 1, "lost-access", "a requested access was never granted");
    check(final_value == w, "order", "the final value does not include all the exclusive accesses");
  });
}
}

SIM_SCENARIO("C01", pipeline_flat, 1) {
  pipeline_program(0);
}
SIM_SCENARIO("C01", pipeline_nested, 3) {
  pipeline_program(static_cast<int>(sim::param("depth", 1, 3)));
}
