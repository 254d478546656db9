// C03: order of the collectives of a communicator
#include "common.h"

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>

#include <dlaf/common/pipeline.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/communication/error.h>
#include <dlaf/communication/functions_sync.h>
#include <dlaf/sender/transform.h>
#include <dlaf/sender/transform_mpi.h>

namespace {
using namespace hz;
using dlaf::comm::CommunicatorPipeline;
using dlaf::comm::CommunicatorType;
namespace di = dlaf::internal;

enum Act { Excl, Shared, Hold, DropSender, Blocking, New, Nest, Close, Move, NAct };
struct Op {
  Act act;
  int id;
  int type;   // 0 full, 1 row, 2 col
  int slot;   // used slot
  int kind;   // collective
  int len, root, shift;
  bool delayed, token, start_late;
};

struct Use {
  int excl = 0, shared = 0;
};
struct History {
  std::map<std::pair<int, MPI_Comm>, Use> use;
  std::map<std::pair<int, MPI_Comm>, std::vector<int>> seq;  // exclusive operations issued
  std::vector<std::map<int, int>> done;                        // per rank: times each operation completed
};

struct Scope {
  Use* u = nullptr;
  bool excl;
  Scope(History& h, MPI_Comm c, bool e, int id) : u(&h.use[{sim::cur_rank(), c}]), excl(e) {
    if (u->excl != 0 || (e && u->shared != 0))
      sim::violation("interleaved-use", "operation " + std::to_string(id) + " uses a communicator during an exclusive use of it");
    (e ? u->excl : u->shared)++;
    if (e)
      h.seq[{sim::cur_rank(), c}].push_back(id);
  }
  ~Scope() {
    (excl ? u->excl : u->shared)--;
  }
};

template <CommunicatorType CT>
struct Slots {
  std::vector<std::optional<CommunicatorPipeline<CT>>> v;
  // data used by some of the operations of a slot (its dependencies agree with the order of the operations)
  std::vector<std::unique_ptr<dlaf::common::Pipeline<int>>> token;
};

struct Ctx {
  History& h;
  const Op& o;
  int rank, size;
};

template <class F>
void post(Ctx x, bool excl, const Communicator& c, F f) {
  Scope s(x.h, static_cast<MPI_Comm>(c), excl, x.o.id);
  sim::maybe_yield("communicator held");
  f();
  sim::maybe_yield("communicator held");
}

template <CommunicatorType CT>
auto delay() {
  return di::transform(di::Policy<Backend::MC>(), [] { sim::maybe_yield("delay"); }, ex::just());
}

void done(History& h, int id) {
  h.done[static_cast<std::size_t>(sim::cur_rank())][id]++;
  sim::log_event(200, static_cast<std::uint64_t>(id));
}

template <CommunicatorType CT>
void collective(History& h, const Op& o, CommunicatorPipeline<CT>& p, dlaf::common::Pipeline<int>& token,
                std::vector<ex::unique_any_sender<>>& late) {
  const int me = p.rank(), n = p.size();
  const int root = o.root % n;
  auto in = std::make_shared<std::vector<long>>(static_cast<std::size_t>(o.len));
  auto out = std::make_shared<std::vector<long>>(static_cast<std::size_t>(o.len), -1);
  const long base = o.id * 1000L;
  for (int k = 0; k < o.len; ++k)
    (*in)[static_cast<std::size_t>(k)] = base + k + (o.kind == 0 ? 0 : me * 7);
  if (o.kind == 0 && me != root)
    std::fill(in->begin(), in->end(), -1);
  const Op* op = &o;
  History* hp = &h;
  auto f = [=](const Communicator& c, MPI_Request* req) {
    post(Ctx{*hp, *op, me, n}, true, c, [&] {
      switch (op->kind) {
        case 0:
          DLAF_MPI_CHECK_ERROR(MPI_Ibcast(in->data(), op->len, MPI_LONG, root, c, req));
          break;
        case 1:
          DLAF_MPI_CHECK_ERROR(MPI_Iallreduce(in->data(), out->data(), op->len, MPI_LONG, MPI_SUM, c, req));
          break;
        case 2:
          DLAF_MPI_CHECK_ERROR(MPI_Ireduce(in->data(), out->data(), op->len, MPI_LONG, MPI_SUM, root, c, req));
          break;
        default:
          DLAF_MPI_CHECK_ERROR(MPI_Ibarrier(c, req));
      }
    });
  };
  auto after = [=] {
    for (int k = 0; k < op->len && op->kind < 3; ++k) {
      const auto kk = static_cast<std::size_t>(k);
      const long want = op->kind == 0 ? base + k : n * (base + k) + 7L * n * (n - 1) / 2;
      if (op->kind == 2 && me != root)
        continue;
      const long got = op->kind == 0 ? (*in)[kk] : (*out)[kk];
      if (got != want)
        sim::violation("wrong-data", "operation " + std::to_string(op->id) + " on rank " + std::to_string(me) + " of the communicator: got " +
                                         std::to_string(got) + " instead of " + std::to_string(want));
    }
    done(*hp, op->id);
  };
  auto comm = p.exclusive();
  ex::unique_any_sender<> s;
  if (o.token) {
    auto g = [f](const Communicator& c, int& t, MPI_Request* req) {
      ++t;
      f(c, req);
    };
    if (o.delayed)
      s = ex::when_all(std::move(comm), token.readwrite(), delay<CT>()) | dlaf::comm::internal::transformMPI(g) | ex::then(after);
    else
      s = ex::when_all(std::move(comm), token.readwrite()) | dlaf::comm::internal::transformMPI(g) | ex::then(after);
  }
  else if (o.delayed)
    s = ex::when_all(delay<CT>(), std::move(comm)) | dlaf::comm::internal::transformMPI(f) | ex::then(after);
  else
    s = std::move(comm) | dlaf::comm::internal::transformMPI(f) | ex::then(after);
  if (o.start_late)
    late.push_back(std::move(s));
  else
    ex::start_detached(std::move(s));
}

template <CommunicatorType CT>
void p2p(History& h, const Op& o, CommunicatorPipeline<CT>& p) {
  const int me = p.rank(), n = p.size();
  const int to = (me + o.shift) % n, from = (me + n - o.shift % n) % n;
  auto sb = std::make_shared<std::vector<long>>(static_cast<std::size_t>(o.len), o.id * 100L + me);
  auto rb = std::make_shared<std::vector<long>>(static_cast<std::size_t>(o.len), -1);
  const Op* op = &o;
  History* hp = &h;
  auto send = [=](const Communicator& c, MPI_Request* req) {
    post(Ctx{*hp, *op, me, n}, false, c,
         [&] { DLAF_MPI_CHECK_ERROR(MPI_Isend(sb->data(), op->len, MPI_LONG, to, op->id, c, req)); });
  };
  auto recv = [=](const Communicator& c, MPI_Request* req) {
    post(Ctx{*hp, *op, me, n}, false, c,
         [&] { DLAF_MPI_CHECK_ERROR(MPI_Irecv(rb->data(), op->len, MPI_LONG, from, op->id, c, req)); });
  };
  auto after = [=] {
    for (long x : *rb)
      if (x != op->id * 100L + from)
        sim::violation("wrong-data", "message of operation " + std::to_string(op->id) + " on rank " + std::to_string(me) + ": got " + std::to_string(x));
    done(*hp, op->id);
  };
  if (o.delayed) {
    ex::start_detached(ex::when_all(delay<CT>(), p.shared()) | dlaf::comm::internal::transformMPI(send) | ex::then([sb] {}));
    ex::start_detached(ex::when_all(delay<CT>(), p.shared()) | dlaf::comm::internal::transformMPI(recv) | ex::then(after));
  }
  else {
    ex::start_detached(p.shared() | dlaf::comm::internal::transformMPI(recv) | ex::then(after));
    ex::start_detached(p.shared() | dlaf::comm::internal::transformMPI(send) | ex::then([sb] {}));
  }
}

template <CommunicatorType CT, class G>
void apply(History& h, const Op& o, Slots<CT>& sl, std::vector<ex::unique_any_sender<>>& late, G&& make) {
  const auto k = static_cast<std::size_t>(o.slot);
  History* hp = &h;
  const Op* op = &o;
  switch (o.act) {
    case New:
      sl.v.emplace_back(make());
      sl.token.push_back(std::make_unique<dlaf::common::Pipeline<int>>(0));
      break;
    case Nest:
      sl.v.emplace_back(sl.v[k]->sub_pipeline());
      sl.token.push_back(std::make_unique<dlaf::common::Pipeline<int>>(0));
      break;
    case Close:
      if (o.kind % 2)
        sl.v[k]->reset();
      sl.v[k].reset();
      break;
    case Move: {
      CommunicatorPipeline<CT> t(std::move(*sl.v[k]));
      check(!sl.v[k]->valid() && t.valid(), "moved-pipeline", "validity of a moved pipeline");
      sl.v[k] = std::move(t);
      break;
    }
    case Excl:
      collective(h, o, *sl.v[k], *sl.token[k], late);
      break;
    case Shared:
      p2p(h, o, *sl.v[k]);
      break;
    case Hold: {
      auto f = [hp, op](const Communicator& c) {
        post(Ctx{*hp, *op, 0, 0}, true, c, [&] {
          for (int i = 0; i < op->len; ++i)
            sim::maybe_yield("long exclusive use");
        });
        done(*hp, op->id);
      };
      ex::start_detached(di::transform(di::Policy<Backend::MC>(), f, sl.v[k]->exclusive()));
      break;
    }
    case DropSender: {
      if (o.kind % 2)
        auto s = sl.v[k]->exclusive();
      else
        auto s = sl.v[k]->shared();
      break;
    }
    case Blocking: {
      const int me = sl.v[k]->rank(), n = sl.v[k]->size();
      auto f = [hp, op, me, n](const Communicator& c) {
        post(Ctx{*hp, *op, me, n}, true, c, [&] {
          long x = op->id * 10L + me, y = -1;
          DLAF_MPI_CHECK_ERROR(MPI_Allreduce(&x, &y, 1, MPI_LONG, MPI_SUM, c));
          if (y != n * op->id * 10L + n * (n - 1) / 2)
            sim::violation("wrong-data", "blocking reduction of operation " + std::to_string(op->id));
        });
        done(*hp, op->id);
      };
      ex::start_detached(di::transform(di::Policy<Backend::MC>(), f, sl.v[k]->exclusive()));
      break;
    }
    default:
      break;
  }
}

void program(bool blocking) {
  Shape sh = draw_shape(3, 3, 6);
  if (blocking)
    sh = two_threads(sh);
  const int nops = static_cast<int>(sim::param("operations", 1, 24));
  const auto seed = static_cast<std::uint64_t>(sim::param("program", 0, 1000000));
  const int held = static_cast<int>(sim::param("keep_order", 0, 1));
  Rng r(seed);
  std::vector<Op> ops;
  // state of the slots: parent index, alive
  struct S {
    int parent, root;
    bool alive;
  };
  std::vector<S> st[3];
  int nroots[3] = {0, 0, 0};
  auto add = [&](Act a, int type, int slot) {
    Op o{};
    o.act = a;
    o.id = static_cast<int>(ops.size());
    o.type = type;
    o.slot = slot;
    o.kind = static_cast<int>(r.i(0, 3));
    o.len = static_cast<int>(r.i(1, 4));
    o.root = static_cast<int>(r.i(0, 5));
    o.shift = static_cast<int>(r.i(0, 5));
    o.delayed = r.i(0, 2) == 0;
    o.token = r.i(0, 3) == 0;
    o.start_late = r.i(0, 7) == 0;
    ops.push_back(o);
  };
  auto live = [&](int t) {
    std::vector<int> v;
    for (std::size_t i = 0; i < st[t].size(); ++i)
      if (st[t][i].alive)
        v.push_back(static_cast<int>(i));
    return v;
  };
  for (int i = 0; i < nops; ++i) {
    const int t = static_cast<int>(r.i(0, 2));
    auto l = live(t);
    if (l.empty() || r.i(0, 9) == 0) {
      add(New, t, 0);
      st[t].push_back({-1, nroots[t]++, true});
      continue;
    }
    const int k = l[static_cast<std::size_t>(r.i(0, static_cast<long>(l.size()) - 1))];
    const long w = r.i(0, 99);
    if (w < 45)
      add(Excl, t, k);
    else if (w < 62)
      add(Shared, t, k);
    else if (w < 70)
      add(Hold, t, k);
    else if (w < 75)
      add(DropSender, t, k);
    else if (w < 80)
      add(Move, t, k);
    else if (w < 88) {
      add(Nest, t, k);
      st[t].push_back({k, st[t][static_cast<std::size_t>(k)].root, true});
    }
    else if (w < 94) {
      add(Close, t, k);
      st[t][static_cast<std::size_t>(k)].alive = false;
    }
    else if (blocking && t == 2 && st[t][static_cast<std::size_t>(k)].root % sh.pipelines == 0)
      add(Blocking, t, k);
    else
      add(Excl, t, k);
  }
  for (std::size_t i = 1; i < ops.size(); ++i)
    if (held)
      ops[i].start_late = false;

  History h;
  h.done.resize(static_cast<std::size_t>(sh.cfg.nranks));
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    {
      Slots<CommunicatorType::Full> full;
      Slots<CommunicatorType::Row> row;
      Slots<CommunicatorType::Col> col;
      std::vector<ex::unique_any_sender<>> late;
      for (const auto& o : ops) {
        if (o.type == 0)
          apply(h, o, full, late, [&] { return grid.full_communicator_pipeline(); });
        else if (o.type == 1)
          apply(h, o, row, late, [&] { return grid.row_communicator_pipeline(); });
        else
          apply(h, o, col, late, [&] { return grid.col_communicator_pipeline(); });
        sim::maybe_yield("submit");
      }
      // operations started after everything was submitted, in an order which depends on the rank
      while (!late.empty()) {
        const auto i = sim::choose(static_cast<std::uint32_t>(late.size()));
        auto s = std::move(late[i]);
        late.erase(late.begin() + i);
        ex::start_detached(std::move(s));
        sim::maybe_yield("start late");
      }
    }
    sim::drain(sim::cur_rank());
    const int me = sim::cur_rank();
    for (const auto& o : ops)
      if (o.act == Excl || o.act == Shared || o.act == Hold || o.act == Blocking) {
        check(h.done[static_cast<std::size_t>(me)][o.id] == 1, "lost-operation",
              "operation " + std::to_string(o.id) + " was executed " + std::to_string(h.done[static_cast<std::size_t>(me)][o.id]) + " times on rank " + std::to_string(me));
        sim::count("probe.communicator_operations");
      }
    sim::harness_barrier();
    grid.wait_all_communicators();
  });
  // the same sequence on each communicator, on all of its ranks. Members of a communicator share its first collective: group by
  // operation and coordinates instead of handles
  std::map<std::tuple<int, int, int>, std::pair<int, const std::vector<int>*>> by_op;  // (type, line, id) -> sequence
  for (const auto& [key, seq] : h.seq) {
    const int rk = key.first;
    const Size2D gs(sh.pr, sh.pc);
    const auto pos = dlaf::common::computeCoords(sh.order, rk, gs);
    for (int id : seq) {
      const int type = ops[static_cast<std::size_t>(id)].type;
      const int line = type == 0 ? 0 : type == 1 ? pos.row() : pos.col();
      auto it = by_op.emplace(std::make_tuple(type, line, id), std::make_pair(rk, &seq)).first;
      if (*it->second.second != seq)
        sim::violation("order-differs", "ranks " + std::to_string(it->second.first) + " and " + std::to_string(rk) +
                                            " issued different sequences of operations on the communicator of operation " + std::to_string(id));
    }
  }
}
}
SIM_SCENARIO("C03", collective_order, 3) {
  program(false);
}
SIM_SCENARIO("C03", collective_order_blocking, 1) {
  program(true);
}
