// C04: asynchronous communication of tiles
#include "common.h"

#include <memory>
#include <optional>

#include <dlaf/blas/tile.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/communication/kernels/all_reduce.h>
#include <dlaf/communication/kernels/broadcast.h>
#include <dlaf/communication/kernels/p2p.h>
#include <dlaf/communication/kernels/p2p_allsum.h>
#include <dlaf/communication/kernels/reduce.h>
#include <dlaf/matrix/tile.h>

namespace {
using namespace hz;
namespace dcm = dlaf::comm;
using dlaf::matrix::splitTile;
using dlaf::matrix::SubTileSpec;

enum Kind { Bcast, ReduceInPlace, AllReduce, AllReduceInPlace, P2P, SumP2P, Write, Exchange, NKinds };
struct Step {
  int kind, comm, root, peer, op;
  SizeType a, b;  // tiles
  bool sub;
  SubTileSpec spec{{0, 0}, {0, 0}};
  bool new_pipe;
  std::uint64_t seed;
};

template <class T>
T val(Rng& r) {
  return mk<T>(static_cast<double>(r.i(-3, 3)), static_cast<double>(r.i(-3, 3)));
}

struct Groups {
  int pr, pc;
  dlaf::common::Ordering order;
  // communicators of the kind: lists of world ranks in the order of their rank in the communicator
  std::vector<std::vector<int>> of(int kind) const {
    auto world = [&](int r, int c) { return order == dlaf::common::Ordering::RowMajor ? r * pc + c : r + c * pr; };
    std::vector<std::vector<int>> g;
    if (kind == 0) {
      g.emplace_back();
      for (int r = 0; r < pr; ++r)
        for (int c = 0; c < pc; ++c)
          g[0].push_back(world(r, c));
    }
    else if (kind == 1)
      for (int r = 0; r < pr; ++r) {
        g.emplace_back();
        for (int c = 0; c < pc; ++c)
          g.back().push_back(world(r, c));
      }
    else
      for (int c = 0; c < pc; ++c) {
        g.emplace_back();
        for (int r = 0; r < pr; ++r)
          g.back().push_back(world(r, c));
      }
    return g;
  }
};

template <class T>
struct Program {
  SizeType mb, nb, mt, nt;
  std::vector<Step> steps;
  Groups groups;
  // reference: values of all tiles on all ranks
  std::vector<Dense<T>> state;

  T& el(int rank, SizeType tile, SizeType i, SizeType j) {
    return state[static_cast<std::size_t>(rank)]((tile % mt) * mb + i, (tile / mt) * nb + j);
  }
  void apply(const Step& s) {
    const SizeType i0 = s.sub ? s.spec.origin.row() : 0, j0 = s.sub ? s.spec.origin.col() : 0;
    const SizeType h = s.sub ? s.spec.size.rows() : mb, w = s.sub ? s.spec.size.cols() : nb;
    if (s.kind == Write) {
      for (std::size_t q = 0; q < state.size(); ++q) {
        Rng r(s.seed + q);
        for (SizeType j = j0; j < j0 + w; ++j)
          for (SizeType i = i0; i < i0 + h; ++i)
            el(static_cast<int>(q), s.a, i, j) = val<T>(r);
      }
      return;
    }
    for (auto& g : groups.of(s.comm)) {
      const int p = static_cast<int>(g.size());
      const int root = g[static_cast<std::size_t>(s.root % p)], peer = g[static_cast<std::size_t>(s.peer % p)];
      auto combine = [&](SizeType i, SizeType j) {
        T x = el(g[0], s.a, i, j);
        for (int q = 1; q < p; ++q) {
          const T y = el(g[static_cast<std::size_t>(q)], s.a, i, j);
          if constexpr (std::is_same_v<T, dlaf::BaseType<T>>)
            x = s.op == 0 ? x + y : s.op == 1 ? std::max(x, y) : std::min(x, y);
          else
            x += y;
        }
        return x;
      };
      for (SizeType j = j0; j < j0 + w; ++j)
        for (SizeType i = i0; i < i0 + h; ++i) {
          switch (s.kind) {
            case Bcast: {  // tile a of the root to tile b of the others
              const T x = el(root, s.a, i, j);
              for (int q : g)
                if (q != root)
                  el(q, s.b, i, j) = x;
              break;
            }
            case ReduceInPlace:
              el(root, s.a, i, j) = combine(i, j);
              break;
            case AllReduce: {
              const T x = combine(i, j);
              for (int q : g)
                el(q, s.b, i, j) = x;
              break;
            }
            case AllReduceInPlace: {
              const T x = combine(i, j);
              for (int q : g)
                el(q, s.a, i, j) = x;
              break;
            }
            case P2P:
              if (root != peer)
                el(peer, s.b, i, j) = el(root, s.a, i, j);
              break;
            case Exchange:  // both directions at once
              if (root != peer) {
                const T x = el(root, s.a, i, j), y = el(peer, s.a, i, j);
                el(peer, s.b, i, j) = x;
                el(root, s.b, i, j) = y;
              }
              break;
            case SumP2P:
              if (root != peer) {
                const T x = el(root, s.a, i, j) + el(peer, s.a, i, j);
                el(root, s.b, i, j) = x;
                el(peer, s.b, i, j) = x;
              }
              break;
          }
        }
    }
  }
};

template <class T>
void program() {
  const Shape sh = draw_shape();
  draw_tune();
  Program<T> p;
  p.mb = sim::param("mb", 1, 4);
  p.nb = sim::param("nb", 1, 4);
  p.mt = sim::param("row_tiles", 1, 3);
  p.nt = sim::param("col_tiles", 2, 3);
  p.groups = {sh.pr, sh.pc, sh.order};
  const int n = static_cast<int>(sim::param("steps", 1, 8));
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 100000));
  const bool destroy = sim::param("destroy_pending", 0, 1) != 0;
  std::vector<long> al;
  for (int i = 0; i < sh.cfg.nranks; ++i)
    al.push_back(draw_alloc("alloc" + std::to_string(i)));
  Rng r(seed);
  const SizeType m = p.mb * p.mt, ncol = p.nb * p.nt;
  for (int q = 0; q < sh.cfg.nranks; ++q) {
    Dense<T> d(m, ncol);
    Rng rr(seed * 13 + static_cast<unsigned>(q));
    for (auto& x : d.v)
      x = val<T>(rr);
    p.state.push_back(d);
  }
  const auto init = p.state;
  for (int i = 0; i < n; ++i) {
    Step s{};
    s.kind = static_cast<int>(r.i(0, NKinds - 1));
    s.comm = static_cast<int>(r.i(0, 2));
    s.root = static_cast<int>(r.i(0, 5));
    s.peer = static_cast<int>(r.i(0, 5));
    s.op = static_cast<int>(r.i(0, 2));
    s.a = r.i(0, p.mt * p.nt - 1);
    s.b = r.i(0, p.mt * p.nt - 1);
    if (s.a == s.b)
      s.b = (s.b + 1) % (p.mt * p.nt);
    s.sub = r.i(0, 2) == 0;
    const SizeType i0 = r.i(0, p.mb - 1), j0 = r.i(0, p.nb - 1);
    s.spec = {{i0, j0}, {r.i(1, p.mb - i0), r.i(1, p.nb - j0)}};
    s.new_pipe = r.i(0, 2) == 0;
    s.seed = r.u() >> 24;
    p.steps.push_back(s);
    p.apply(s);
  }
  std::vector<Dense<T>> out(p.state.size(), Dense<T>(m, ncol));
  // everything outlives the tasks: senders own what they need
  run_ranks(sh.cfg, [&](int w) {
    auto grid = make_grid(sh);
    {
      std::optional<Mat<T>> mat(std::in_place, Dist(dlaf::LocalElementSize{m, ncol}, {p.mb, p.nb}), alloc_of(al[static_cast<std::size_t>(w)]));
      fill(*mat, init[static_cast<std::size_t>(w)], true);
      std::optional<dcm::CommunicatorPipeline<dcm::CommunicatorType::Full>> full;
      std::optional<dcm::CommunicatorPipeline<dcm::CommunicatorType::Row>> row;
      std::optional<dcm::CommunicatorPipeline<dcm::CommunicatorType::Col>> col;
      auto issue = [&](const Step& s, auto& pipe, int tag) {
        const int np = pipe.size(), me = pipe.rank();
        const int root = s.root % np, peer = s.peer % np;
        auto rd = [&](SizeType t) {
          auto x = mat->read(LocalTileIndex(t % p.mt, t / p.mt));
          return s.sub ? splitTile(std::move(x), s.spec) : std::move(x);
        };
        auto rw = [&](SizeType t) {
          auto x = mat->readwrite(LocalTileIndex(t % p.mt, t / p.mt));
          return s.sub ? splitTile(std::move(x), s.spec) : std::move(x);
        };
        MPI_Op op = MPI_SUM;
        if constexpr (std::is_same_v<T, dlaf::BaseType<T>>)
          op = s.op == 0 ? MPI_SUM : s.op == 1 ? MPI_MAX : MPI_MIN;
        switch (s.kind) {
          case Bcast:
            if (np == 1)
              break;
            if (me == root)
              ex::start_detached(dcm::schedule_bcast_send(pipe.exclusive(), rd(s.a)));
            else
              ex::start_detached(dcm::schedule_bcast_recv(pipe.exclusive(), root, rw(s.b)));
            break;
          case ReduceInPlace:
            if (me == root)
              ex::start_detached(dcm::schedule_reduce_recv_in_place(pipe.exclusive(), op, rw(s.a)));
            else
              ex::start_detached(dcm::schedule_reduce_send(pipe.exclusive(), root, op, rd(s.a)));
            break;
          case AllReduce:
            ex::start_detached(dcm::scheduleAllReduce(pipe.exclusive(), op, rd(s.a), rw(s.b)));
            break;
          case AllReduceInPlace:
            ex::start_detached(dcm::schedule_all_reduce_in_place(pipe.exclusive(), op, rw(s.a)));
            break;
          case P2P:
            if (root == peer)
              break;
            if (me == root)
              ex::start_detached(dcm::schedule_send(pipe.shared(), peer, tag, rd(s.a)));
            if (me == peer)
              ex::start_detached(dcm::schedule_recv(pipe.shared(), root, tag, rw(s.b)));
            break;
          case Exchange:
            if (root == peer || (me != root && me != peer))
              break;
            if (s.op == 0) {  // in either order
              ex::start_detached(dcm::schedule_send(pipe.shared(), me == root ? peer : root, tag, rd(s.a)));
              ex::start_detached(dcm::schedule_recv(pipe.shared(), me == root ? peer : root, tag, rw(s.b)));
            }
            else {
              ex::start_detached(dcm::schedule_recv(pipe.shared(), me == root ? peer : root, tag, rw(s.b)));
              ex::start_detached(dcm::schedule_send(pipe.shared(), me == root ? peer : root, tag, rd(s.a)));
            }
            break;
          case SumP2P:
            if (root == peer || (me != root && me != peer))
              break;
            ex::start_detached(dcm::schedule_sum_p2p<Backend::MC>(pipe.shared(), me == root ? peer : root, tag, rd(s.a), rw(s.b)));
            break;
        }
      };
      int tag = 0;
      for (const Step& s : p.steps) {
        ++tag;
        if (s.kind == Write) {
          auto x = mat->readwrite(LocalTileIndex(s.a % p.mt, s.a / p.mt));
          auto y = s.sub ? splitTile(std::move(x), s.spec) : std::move(x);
          ex::start_detached(std::move(y) | ex::continues_on(dlaf::internal::getBackendScheduler<Backend::MC>()) |
                             ex::then([sd = s.seed + static_cast<unsigned>(w)](auto t) {
                               Rng rr(sd);
                               for (SizeType j = 0; j < t.size().cols(); ++j)
                                 for (SizeType i = 0; i < t.size().rows(); ++i)
                                   t({i, j}) = val<T>(rr);
                             }));
        }
        else if (s.comm == 0) {
          if (!full || s.new_pipe) {
            full.reset();
            full.emplace(grid.full_communicator_pipeline());
          }
          issue(s, *full, tag);
        }
        else if (s.comm == 1) {
          if (!row || s.new_pipe) {
            row.reset();
            row.emplace(grid.row_communicator_pipeline());
          }
          issue(s, *row, tag);
        }
        else {
          if (!col || s.new_pipe) {
            col.reset();
            col.emplace(grid.col_communicator_pipeline());
          }
          issue(s, *col, tag);
        }
        sim::maybe_yield("tile comm step");
      }
      if (destroy) {
        // the matrix goes while operations are pending
        std::vector<dlaf::matrix::ReadOnlyTileSender<T, Device::CPU>> keep;
        const Dist d = mat->distribution();
        for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles()))
          keep.push_back(mat->read(ij));
        mat.reset();
        std::size_t k = 0;
        for (auto ij : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
          auto tw = tt::sync_wait(std::move(keep[k++]));
          const auto& t = tw.get();
          for (SizeType j = 0; j < t.size().cols(); ++j)
            for (SizeType i = 0; i < t.size().rows(); ++i)
              out[static_cast<std::size_t>(w)](ij.row() * p.mb + i, ij.col() * p.nb + j) = t({i, j});
        }
      }
      else
        gather<T>(*mat, out[static_cast<std::size_t>(w)]);
    }
    grid.wait_all_communicators();
  });
  for (std::size_t q = 0; q < out.size(); ++q)
    for (std::size_t k = 0; k < out[q].v.size(); ++k)
      if (!(out[q].v[k] == p.state[q].v[k]))
        sim::violation("wrong-data", "rank " + std::to_string(q) + ": element (" + std::to_string(k % static_cast<std::size_t>(m)) + "," +
                                         std::to_string(k / static_cast<std::size_t>(m)) + ") is not the value given by the sequence of operations");
}
}
SIM_SCENARIO("C04", tile_program, 1) {
  switch (sim::param("type", 0, 3)) {
    case 0:
      program<double>();
      break;
    case 1:
      program<zc>();
      break;
    case 2:
      program<float>();
      break;
    default:
      program<std::complex<float>>();
  }
}
