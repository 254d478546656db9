// C22: communicator grids
#include "common.h"

#include <memory>
#include <optional>
#include <set>

#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/communication/error.h>
#include <dlaf/sender/transform_mpi.h>

namespace {
using namespace hz;
using dlaf::comm::CommunicatorPipeline;
using dlaf::comm::CommunicatorType;
using dlaf::common::Ordering;

struct World {
  int n, base;          // ranks; how the base communicator is made: 0 world, 1 reversed copy, 2 a part of the ranks, 3 rotated copy
  int pr, pc;
  Ordering order;
  std::size_t npipes;
  sim::Config cfg;
};
World draw_world() {
  sim::draw_faults();
  World w;
  w.n = static_cast<int>(sim::param("ranks", 1, 8));
  w.base = static_cast<int>(sim::param("base", 0, 3));
  const int avail = w.base == 2 ? (w.n + 1) / 2 : w.n;
  w.pr = static_cast<int>(sim::param("grid.rows", 1, avail));
  w.pc = static_cast<int>(sim::param("grid.cols", 1, avail / w.pr));
  w.order = sim::param("grid.order", 0, 1) ? Ordering::RowMajor : Ordering::ColumnMajor;
  w.npipes = static_cast<std::size_t>(sim::param("pipelines", 1, 3));
  w.cfg.nranks = w.n;
  w.cfg.workers = static_cast<int>(sim::param("workers", 1, 3));
  w.cfg.mpi_pool = sim::param("mpi_pool", 0, 1) != 0;
  return w;
}
// the communicator which the grid is built from (nullopt: the rank takes no part), to be freed by the caller unless it is the world
MPI_Comm make_base(const World& w, int r) {
  MPI_Comm c = MPI_COMM_WORLD;
  if (w.base == 1)
    MPI_Comm_split(MPI_COMM_WORLD, 0, w.n - r, &c);
  else if (w.base == 2)
    MPI_Comm_split(MPI_COMM_WORLD, r % 2 == 0 ? 0 : MPI_UNDEFINED, r, &c);
  else if (w.base == 3)
    MPI_Comm_split(MPI_COMM_WORLD, 0, (r + w.n / 2) % w.n, &c);
  return c;
}
void fail(int r, const std::string& m) {
  sim::violation("grid-mapping", "rank " + std::to_string(r) + ": " + m);
}
void expect(bool ok, int r, const std::string& m) {
  if (!ok)
    fail(r, m);
}

// Members of a communicator as seen by communicating on it: each rank publishes its coordinates
void check_members(MPI_Comm c, int me, Index2D pos, const std::function<Index2D(int)>& want, const char* what) {
  int n = -1, rank = -1;
  MPI_Comm_size(c, &n);
  MPI_Comm_rank(c, &rank);
  for (int root = 0; root < n; ++root) {
    int buf[2] = {pos.row(), pos.col()};
    MPI_Bcast(buf, 2, MPI_INT, root, c);
    expect(Index2D(buf[0], buf[1]) == want(root), me, std::string(what) + ": rank " + std::to_string(root) + " of the communicator is the process at (" +
                                                          std::to_string(buf[0]) + "," + std::to_string(buf[1]) + ")");
  }
}

template <CommunicatorType CT>
struct Probe {
  // communicator used by the pipeline
  static MPI_Comm handle(CommunicatorPipeline<CT>& p) {
    MPI_Comm h = MPI_COMM_NULL;
    tt::sync_wait(p.exclusive() | ex::then([&](auto w) { h = static_cast<MPI_Comm>(w.get()); }));
    return h;
  }
};

void check_grid(CommunicatorGrid& g, const World& w, int me, int base_rank) {
  const int np = w.pr * w.pc;
  if (base_rank >= np || base_rank < 0) {
    expect(!g.rank().isValid(), me, "a rank outside of the grid got coordinates");
    expect(g.num_pipelines() == 0, me, "a rank outside of the grid got communicators");
    sim::count("probe.rank_outside_grid");
    return;
  }
  const Index2D pos = w.order == Ordering::RowMajor ? Index2D(base_rank / w.pc, base_rank % w.pc) : Index2D(base_rank % w.pr, base_rank / w.pr);
  expect(g.size() == Size2D(w.pr, w.pc), me, "wrong size of the grid");
  expect(g.rank() == pos, me, "wrong coordinates");
  expect(g.fullCommunicator().size() == np && g.fullCommunicator().rank() == pos.row() * w.pc + pos.col(), me, "wrong rank in the full communicator");
  expect(g.rowCommunicator().size() == w.pc && g.rowCommunicator().rank() == pos.col(), me, "wrong rank in the row communicator");
  expect(g.colCommunicator().size() == w.pr && g.colCommunicator().rank() == pos.row(), me, "wrong rank in the column communicator");
  expect(&g.subCommunicator(dlaf::Coord::Row) == &g.rowCommunicator() && &g.subCommunicator(dlaf::Coord::Col) == &g.colCommunicator(), me, "subCommunicator");
  for (int i = 0; i < w.pr; ++i)
    for (int j = 0; j < w.pc; ++j)
      expect(g.rankFullCommunicator({i, j}) == i * w.pc + j, me, "rankFullCommunicator");
  expect(g.num_pipelines() == w.npipes, me, "wrong number of pipelines");
  check_members(g.fullCommunicator(), me, pos, [&](int k) { return Index2D(k / w.pc, k % w.pc); }, "full communicator");
  check_members(g.rowCommunicator(), me, pos, [&](int k) { return Index2D(pos.row(), k); }, "row communicator");
  check_members(g.colCommunicator(), me, pos, [&](int k) { return Index2D(k, pos.col()); }, "column communicator");
  std::set<MPI_Comm> seen;
  auto fresh = [&](MPI_Comm c) {
    expect(c != MPI_COMM_NULL && seen.insert(c).second, me, "a pipeline uses a communicator which is also used by something else");
  };
  fresh(g.fullCommunicator());
  fresh(g.rowCommunicator());
  fresh(g.colCommunicator());
  auto pipe = [&](auto p, int rank, int size, auto want, const char* what) {
    expect(p.valid() && p.rank() == rank && p.size() == size && p.rank_2d() == pos && p.size_2d() == Size2D(w.pr, w.pc), me, std::string("wrong description of a pipeline of the ") + what);
    for (int i = 0; i < w.pr; ++i)
      for (int j = 0; j < w.pc; ++j)
        expect(p.rank_full_communicator({i, j}) == i * w.pc + j, me, "rank_full_communicator of a pipeline");
    const MPI_Comm h = Probe<decltype(p)::communicator_type>::handle(p);
    fresh(h);
    check_members(h, me, pos, want, what);
  };
  for (std::size_t i = 0; i < w.npipes; ++i) {
    pipe(g.full_communicator_pipeline(), pos.row() * w.pc + pos.col(), np, [&](int k) { return Index2D(k / w.pc, k % w.pc); }, "full communicator pipeline");
    pipe(g.communicator_pipeline<dlaf::Coord::Row>(), pos.col(), w.pc, [&](int k) { return Index2D(pos.row(), k); }, "row communicator pipeline");
    pipe(g.communicator_pipeline<dlaf::Coord::Col>(), pos.row(), w.pr, [&](int k) { return Index2D(k, pos.col()); }, "column communicator pipeline");
  }
  sim::count("probe.grid_checked");
}

// One message on each communicator, all with the same tag and sent and received in different orders: each arrives where it was sent to
struct Msg {
  MPI_Comm comm;
  int id;
};
void check_independent(CommunicatorGrid& g, MPI_Comm base, int me, std::uint64_t seed) {
  // between neighbours of the row and of the column (also with myself)
  std::vector<CommunicatorPipeline<CommunicatorType::Full>> fp;
  std::vector<CommunicatorPipeline<CommunicatorType::Row>> rp;
  std::vector<Msg> v;
  int id = 0;
  auto full = [&](MPI_Comm c) { v.push_back({c, ++id}); };
  full(g.fullCommunicator());
  for (std::size_t i = 0; i < g.num_pipelines(); ++i) {
    fp.push_back(g.full_communicator_pipeline());
    full(Probe<CommunicatorType::Full>::handle(fp.back()));
  }
  full(g.rowCommunicator());
  for (std::size_t i = 0; i < g.num_pipelines(); ++i) {
    rp.push_back(g.row_communicator_pipeline());
    full(Probe<CommunicatorType::Row>::handle(rp.back()));
  }
  (void) base;
  const auto n = v.size();
  std::vector<long> sb(n), rb(n, -1);
  std::vector<MPI_Request> reqs(2 * n);
  std::vector<std::size_t> so(n), ro(n);
  for (std::size_t i = 0; i < n; ++i)
    so[i] = ro[i] = i;
  Rng r(seed + static_cast<unsigned>(me));
  for (std::size_t i = n; i > 1; --i) {
    std::swap(so[i - 1], so[static_cast<std::size_t>(r.i(0, static_cast<long>(i) - 1))]);
    std::swap(ro[i - 1], ro[static_cast<std::size_t>(r.i(0, static_cast<long>(i) - 1))]);
  }
  auto size = [](MPI_Comm c) {
    int s;
    MPI_Comm_size(c, &s);
    return s;
  };
  auto rank = [](MPI_Comm c) {
    int s;
    MPI_Comm_rank(c, &s);
    return s;
  };
  for (std::size_t i = 0; i < n; ++i) {
    auto k = so[i];
    sb[k] = v[k].id * 100 + rank(v[k].comm);
    MPI_Isend(&sb[k], 1, MPI_LONG, (rank(v[k].comm) + 1) % size(v[k].comm), 5, v[k].comm, &reqs[i]);
    k = ro[i];
    MPI_Irecv(&rb[k], 1, MPI_LONG, (rank(v[k].comm) + size(v[k].comm) - 1) % size(v[k].comm), 5, v[k].comm, &reqs[n + i]);
  }
  MPI_Waitall(static_cast<int>(2 * n), reqs.data(), MPI_STATUSES_IGNORE);
  for (std::size_t k = 0; k < n; ++k)
    if (rb[k] != v[k].id * 100 + (rank(v[k].comm) + size(v[k].comm) - 1) % size(v[k].comm))
      sim::violation("not-independent", "a message sent on one communicator of the grid was received on another one");
}

// ---------------------------------------------------------------- waiting
struct WOp {
  int type, kind, len, root;
  bool delayed;
  int pipe;
};
struct WHist {
  std::vector<std::vector<char>> issued;
  std::vector<std::vector<std::shared_ptr<std::vector<long>>>> out;
};
template <CommunicatorType CT>
void submit(CommunicatorPipeline<CT> p, const WOp& o, std::size_t id, int me, WHist& h) {
  const int rk = p.rank(), n = p.size(), root = o.root % n;
  auto buf = std::make_shared<std::vector<long>>(static_cast<std::size_t>(o.len), -1);
  auto in = std::make_shared<std::vector<long>>(static_cast<std::size_t>(o.len), static_cast<long>(id));
  if (o.kind == 0 && rk == root)
    *buf = *in;
  if (o.kind != 3)
    h.out[static_cast<std::size_t>(me)][id] = buf;
  auto mark = [&h, id, me] { h.issued[static_cast<std::size_t>(me)][id] = 1; };
  auto delay = dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [o] {
    for (int i = 0; o.delayed && i < 3; ++i)
      sim::maybe_yield("late");
  }, ex::just());
  auto f = [=](const Communicator& c, MPI_Request* req) {
    switch (o.kind) {
      case 0:
        DLAF_MPI_CHECK_ERROR(MPI_Ibcast(buf->data(), o.len, MPI_LONG, root, c, req));
        break;
      case 1:
        DLAF_MPI_CHECK_ERROR(MPI_Iallreduce(in->data(), buf->data(), o.len, MPI_LONG, MPI_MAX, c, req));
        break;
      case 2:
        DLAF_MPI_CHECK_ERROR(MPI_Irecv(buf->data(), o.len, MPI_LONG, (rk + n - 1) % n, static_cast<int>(id), c, req));
        break;
      default:
        DLAF_MPI_CHECK_ERROR(MPI_Isend(in->data(), o.len, MPI_LONG, (rk + 1) % n, static_cast<int>(id) - 1, c, req));
        break;
    }
    mark();
  };
  if (o.kind >= 2)
    ex::start_detached(ex::when_all(p.shared(), std::move(delay)) | dlaf::comm::internal::transformMPI(f) | ex::then([in, buf] {}));
  else
    ex::start_detached(ex::when_all(p.exclusive(), std::move(delay)) | dlaf::comm::internal::transformMPI(f) | ex::then([in, buf] {}));
}

void waiting(bool completion) {
  Shape sh = draw_shape(3, 3, 6, 3);
  const int nops = static_cast<int>(sim::param("operations", 1, 10));
  Rng r(static_cast<std::uint64_t>(sim::param("program", 0, 1000000)));
  std::vector<WOp> ops;
  for (int i = 0; i < nops; ++i) {
    WOp o{static_cast<int>(r.i(0, 2)), static_cast<int>(r.i(0, 2)), static_cast<int>(r.i(1, 3)), static_cast<int>(r.i(0, 5)), r.i(0, 1) != 0, 0};
    ops.push_back(o);
    if (o.kind == 2) {  // a receive and its send
      o.kind = 3;
      ops.push_back(o);
    }
  }
  WHist h;
  const auto nr = static_cast<std::size_t>(sh.cfg.nranks);
  h.issued.assign(nr, std::vector<char>(ops.size(), 0));
  h.out.assign(nr, std::vector<std::shared_ptr<std::vector<long>>>(ops.size()));
  run_ranks(sh.cfg, [&](int me) {
    auto grid = make_grid(sh);
    for (std::size_t i = 0; i < ops.size(); ++i) {
      // the send uses the communicator of its receive: keep both in the same pipeline
      const auto& o = ops[i];
      auto go = [&](auto p) {
        if (o.kind == 2) {
          auto q = p.sub_pipeline();
          submit(std::move(q), o, i, me, h);
          submit(std::move(p), ops[i + 1], i + 1, me, h);
        }
        else
          submit(std::move(p), o, i, me, h);
      };
      if (o.kind == 3)
        continue;
      if (o.type == 0)
        go(grid.full_communicator_pipeline());
      else if (o.type == 1)
        go(grid.row_communicator_pipeline());
      else
        go(grid.col_communicator_pipeline());
      sim::maybe_yield("submit");
    }
    grid.wait_all_communicators();
    const auto pos = grid.rank();
    for (std::size_t i = 0; i < ops.size(); ++i)
      for (int q = 0; q < sh.cfg.nranks; ++q) {
        const auto qp = dlaf::common::computeCoords(sh.order, q, Size2D(sh.pr, sh.pc));
        // ranks which share the communicator of the operation with this one
        if ((ops[i].type == 1 && qp.row() != pos.row()) || (ops[i].type == 2 && qp.col() != pos.col()))
          continue;
        if (!h.issued[static_cast<std::size_t>(q)][i])
          sim::violation("wait-not-issued", "waiting for the grid returned on rank " + std::to_string(me) + " although rank " + std::to_string(q) +
                                                " had not issued operation " + std::to_string(i) + ", which was submitted before the wait");
      }
    sim::count("probe.waits");
    if (completion)
      for (std::size_t i = 0; i < ops.size(); ++i) {
        const auto& o = ops[i];
        if (h.out[static_cast<std::size_t>(me)][i])
          for (long x : *h.out[static_cast<std::size_t>(me)][i])
            if (x != static_cast<long>(o.kind == 2 ? i + 1 : i))
              sim::violation("wait-incomplete", "waiting for the grid returned on rank " + std::to_string(me) + " although operation " + std::to_string(i) +
                                                    ", which was submitted before the wait and issued on all ranks, has not delivered its data");
      }
  });
}
}

SIM_SCENARIO("C22", grid_mapping, 4) {
  const World w = draw_world();
  const bool moved = sim::param("move", 0, 1) != 0;
  run_ranks(w.cfg, [&](int me) {
    MPI_Comm base = make_base(w, me);
    if (base != MPI_COMM_NULL) {
      int br = -1;
      MPI_Comm_rank(base, &br);
      CommunicatorGrid first(base, w.pr, w.pc, w.order, w.npipes);
      if (base != MPI_COMM_WORLD) {
        // "comm must be valid during construction" only
        MPI_Comm_free(&base);
      }
      check_grid(first, w, me, br);
      if (moved) {
        CommunicatorGrid second(std::move(first));
        check_grid(second, w, me, br);
        first = std::move(second);
        check_grid(first, w, me, br);
      }
      first.wait_all_communicators();
    }
  });
}
SIM_SCENARIO("C22", grid_independent, 2) {
  World w = draw_world();
  const auto seed = static_cast<std::uint64_t>(sim::param("program", 0, 1000000));
  const int n2 = static_cast<int>(sim::param("grids", 1, 2));
  run_ranks(w.cfg, [&](int me) {
    MPI_Comm base = make_base(w, me);
    if (base != MPI_COMM_NULL) {
      int br = -1, np = w.pr * w.pc;
      MPI_Comm_rank(base, &br);
      {
        // communication of the user on the base communicator meanwhile
        int bs = -1;
        MPI_Comm_size(base, &bs);
        long x = 7000 + br, y = -1;
        MPI_Request rq[2];
        MPI_Irecv(&y, 1, MPI_LONG, (br + bs - 1) % bs, 5, base, &rq[0]);
        CommunicatorGrid a(base, w.pr, w.pc, w.order, w.npipes);
        std::optional<CommunicatorGrid> b;
        if (n2 == 2)
          b.emplace(base, std::array<dlaf::comm::IndexT_MPI, 2>{w.pr, w.pc}, w.order, w.npipes);
        if (br < np)
          check_independent(a, base, me, seed);
        MPI_Isend(&x, 1, MPI_LONG, (br + 1) % bs, 5, base, &rq[1]);
        if (b && br < np) {
          check_independent(*b, base, me, seed + 77);
          MPI_Comm f[2] = {a.fullCommunicator(), b->fullCommunicator()};
          expect(f[0] != f[1], me, "two grids share a communicator");
        }
        MPI_Waitall(2, rq, MPI_STATUSES_IGNORE);
        if (y != 7000 + (br + bs - 1) % bs)
          sim::violation("not-independent", "a message on the communicator of the user was mixed up with one of the grid");
      }
      if (base != MPI_COMM_WORLD)
        MPI_Comm_free(&base);
    }
  });
}
SIM_SCENARIO("C22", grid_wait, 3) {
  waiting(false);
}
SIM_SCENARIO("C22", grid_wait_completion, 1) {
  waiting(true);
}
SIM_SCENARIO("C22", grid_too_big, 1) {
  World w = draw_world();
  const int extra = static_cast<int>(sim::param("extra", 1, 3));
  run_ranks(w.cfg, [&](int) {
    sim::expect_abort(true, "probe.too_big_grid_refused");
    CommunicatorGrid a(MPI_COMM_WORLD, w.n + extra, 1, w.order, w.npipes);
    sim::expect_abort(false);
    sim::violation("grid-mapping", "a grid bigger than its communicator was accepted");
  });
}
