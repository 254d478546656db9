// C20: release of communication and memory resources
#include "program.h"

#include <list>
#include <set>

#include <dlaf/auxiliary/norm/mc.h>
#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/memory/memory_chunk.h>
#include <dlaf/memory/memory_view.h>

namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, double)
DLAF_NORM_ETI(, std::complex<double>)
}
namespace {
using namespace hz;
namespace dm = dlaf::memory;

void expect_live(int r, long blocks, const char* when) {
  const long live = static_cast<long>(sim::mem_stats(r).live_blocks);
  if (live != blocks)
    sim::violation(live > blocks ? "memory-leak" : "early-release", "rank " + std::to_string(r) + ": " + std::to_string(live) + " buffers are allocated " + when +
                                                                        " where the live objects own " + std::to_string(blocks));
}
void expect_mpi(int r, long comms, long types, const char* when) {
  const auto& s = sim::mpi_stats(r);
  if (s.comms_live != comms)
    sim::violation(s.comms_live > comms ? "communicator-leak" : "early-release",
                   "rank " + std::to_string(r) + ": " + std::to_string(s.comms_live) + " communicators are live " + when + " where the live objects own " + std::to_string(comms));
  if (s.types_live != types)
    sim::violation(s.types_live > types ? "datatype-leak" : "early-release",
                   "rank " + std::to_string(r) + ": " + std::to_string(s.types_live) + " datatypes are live " + when + " where the live objects own " + std::to_string(types));
}

// ---------------------------------------------------------------- programs of algorithms
// The objects are destroyed right after the submission, or only after everything completed
template <class T>
void program(bool eig) {
  Program<T> p;
  p.draw(eig, true);
  const bool async = sim::param("async_fill", 0, 1);
  const long when = sim::param("destroy", 0, 3);  // 0: everything at once, 1: objects at once but the grid later, 2: after completion, 3: the grid was moved
  run_ranks(p.sh.cfg, [&](int r) {
    std::optional<CommunicatorGrid> keep;
    std::optional<CommunicatorGrid> grid(make_grid(p.sh));
    const long comms = sim::mpi_stats(r).comms_live;
    using Live = typename Program<T>::Live;
    if (when >= 2) {
      p.at_end = [&, when](Live& l) {
        const int me = sim::cur_rank();
        if (when == 3)
          return;
        sim::drain(me);
        l.eigs.clear();
        expect_live(me, l.blocks, "after the completion of all operations");
        sim::count("probe.release_after_completion");
      };
    }
    if (when == 3) {
      keep.emplace(std::move(*grid));
      grid.reset();
      grid.emplace(std::move(*keep));
    }
    p.run_on(*grid, false, async);
    if (when == 1 || when == 2) {
      sim::drain(r);
      expect_live(r, 0, "after the completion of all operations and the destruction of the matrices");
      expect_mpi(r, comms, 0, "after the completion of all operations");
    }
    grid.reset();
  });
}

// ---------------------------------------------------------------- handles
// Random histories of creation, copy, move, assignment and destruction, against a model of who owns what
void handles() {
  sim::draw_faults();
  sim::Config cfg;
  cfg.nranks = static_cast<int>(sim::param("ranks", 1, 3));
  cfg.workers = 1;
  const long ops = sim::param("operations", 1, 60);
  const auto seed = static_cast<std::uint64_t>(sim::param("history", 0, 1000000));
  run_ranks(cfg, [&](int me) {
    using View = dm::MemoryView<double, Device::CPU>;
    using CView = dm::MemoryView<const double, Device::CPU>;
    using Chunk = dm::MemoryChunk<double, Device::CPU>;
    Rng r(seed);
    // model: resource -> number of references
    struct Mem {
      SizeType size;
      double base;
    };
    std::map<int, Mem> mems;
    int next = 0;
    struct V {
      View v;
      int res = -1;  // -1: owns nothing
      SizeType off = 0, size = 0;
    };
    struct CV {
      CView v;
      int res = -1;
      SizeType off = 0, size = 0;
    };
    std::list<V> vs;
    std::list<CV> cvs;
    struct K {
      Chunk c;
      int res = -1;
      SizeType size = 0;
    };
    std::list<K> ks;
    std::vector<double> foreign(40, 3.5);
    auto pick = [&](auto& l) {
      auto it = l.begin();
      std::advance(it, r.i(0, static_cast<long>(l.size()) - 1));
      return it;
    };
    auto check_all = [&](const char* what) {
      std::set<int> live;
      auto look = [&](const double* p, int res, SizeType off, SizeType size, SizeType got) {
        check(got == size, "wrong-view", std::string("size of a memory view after ") + what);
        if (res >= 0) {
          live.insert(res);
          for (SizeType i = 0; i < size; ++i)
            check(p[i] == mems[res].base + static_cast<double>(off + i), "wrong-view", std::string("contents of a memory view after ") + what);
        }
      };
      for (auto& v : vs)
        look(v.v(), v.res, v.off, v.size, v.v.size());
      for (auto& v : cvs)
        look(v.v(), v.res, v.off, v.size, v.v.size());
      for (auto& k : ks)
        look(k.c(), k.res, 0, k.size, k.c.size());
      expect_live(me, static_cast<long>(live.size()), what);
      for (auto x : foreign)
        check(x == 3.5, "wrong-view", "memory which is not owned was changed");
    };
    auto fresh = [&](double* p, SizeType n) {
      const int id = next++;
      mems[id] = {n, 1000.0 * id};
      for (SizeType i = 0; i < n; ++i)
        p[i] = 1000.0 * id + static_cast<double>(i);
      return id;
    };
    for (long q = 0; q < ops; ++q) {
      const char* what = "";
      switch (r.i(0, 15)) {
        case 0: {
          const SizeType n = r.i(0, 6);
          vs.push_back({View(n), -1, 0, n});
          if (n > 0)
            vs.back().res = fresh(vs.back().v(), n);
          what = "the construction of a view";
          break;
        }
        case 1: {
          const SizeType n = r.i(0, 6);
          ks.push_back({Chunk(n), -1, n});
          if (n > 0)
            ks.back().res = fresh(ks.back().c(), n);
          what = "the construction of a chunk";
          break;
        }
        case 2:
          if (!vs.empty()) {
            auto a = pick(vs);
            vs.push_back(*a);
          }
          what = "the copy of a view";
          break;
        case 3:
          if (!vs.empty()) {
            auto a = pick(vs);
            V n{std::move(a->v), a->res, a->off, a->size};
            a->res = -1, a->size = 0, a->off = 0;
            vs.push_back(std::move(n));
          }
          what = "the move of a view";
          break;
        case 4:
          if (!vs.empty()) {
            auto a = pick(vs), b = pick(vs);
            b->v = a->v;
            b->res = a->res, b->off = a->off, b->size = a->size;
          }
          what = "the assignment of a view";
          break;
        case 5:
          if (vs.size() > 1) {
            auto a = pick(vs), b = pick(vs);
            if (a != b) {
              b->v = std::move(a->v);
              b->res = a->res, b->off = a->off, b->size = a->size;
              a->res = -1, a->size = 0, a->off = 0;
            }
          }
          what = "the move assignment of a view";
          break;
        case 6:
        case 7:
          if (!vs.empty()) {
            auto a = pick(vs);
            const SizeType off = r.i(0, a->size), n = r.i(0, a->size - off);
            V s{View(a->v, off, n), n > 0 ? a->res : -1, n > 0 ? a->off + off : 0, n};
            if (r.i(0, 3) == 0) {
              a->v = s.v;  // a view replaced by a part of itself
              a->res = s.res, a->off = s.off, a->size = s.size;
            }
            else
              vs.push_back(std::move(s));
          }
          what = "taking a part of a view";
          break;
        case 8:
          if (!vs.empty()) {
            auto a = pick(vs);
            if (r.i(0, 1)) {
              cvs.push_back({CView(a->v), a->res, a->off, a->size});
            }
            else {
              const SizeType off = r.i(0, a->size), n = r.i(0, a->size - off);
              cvs.push_back({CView(a->v, off, n), n > 0 ? a->res : -1, n > 0 ? a->off + off : 0, n});
            }
          }
          what = "a constant view of a view";
          break;
        case 9:
          if (!vs.empty() && !cvs.empty()) {
            auto a = pick(vs);
            auto b = pick(cvs);
            const bool mv = r.i(0, 1);
            if (mv)
              b->v = std::move(a->v);
            else
              b->v = a->v;
            b->res = a->res, b->off = a->off, b->size = a->size;
            if (mv)
              a->res = -1, a->size = 0, a->off = 0;
          }
          what = "the assignment of a view to a constant view";
          break;
        case 10:
          if (!cvs.empty()) {
            auto a = pick(cvs), b = pick(cvs);
            if (a == b || r.i(0, 1)) {
              b->v = a->v;
              b->res = a->res, b->off = a->off, b->size = a->size;
            }
            else {
              b->v = std::move(a->v);
              b->res = a->res, b->off = a->off, b->size = a->size;
              a->res = -1, a->size = 0, a->off = 0;
            }
          }
          what = "the assignment of a constant view";
          break;
        case 11:
          if (ks.size() > 1) {
            auto a = pick(ks), b = pick(ks);
            if (a != b) {
              b->c = std::move(a->c);
              b->res = a->res, b->size = a->size;
              a->res = -1, a->size = 0;
            }
          }
          what = "the move assignment of a chunk";
          break;
        case 12:
          if (!ks.empty()) {
            auto a = pick(ks);
            K n{std::move(a->c), a->res, a->size};
            a->res = -1, a->size = 0;
            ks.push_back(std::move(n));
          }
          what = "the move of a chunk";
          break;
        case 13:
          if (!vs.empty())
            vs.erase(pick(vs));
          if (!cvs.empty() && r.i(0, 1))
            cvs.erase(pick(cvs));
          what = "the destruction of a view";
          break;
        case 14:
          if (!ks.empty())
            ks.erase(pick(ks));
          what = "the destruction of a chunk";
          break;
        case 15: {
          // memory of the user is never released
          const SizeType n = r.i(0, 5);
          {
            View v(foreign.data() + r.i(0, 3), n);
            View w(v, 0, n / 2);
            Chunk c(foreign.data() + 8, n);
            Chunk d(std::move(c));
            CView cv(std::as_const(foreign).data(), n);
            check(v.size() == n && w.size() == n / 2 && d.size() == n && cv.size() == n, "wrong-view", "size of a view of the user's memory");
          }
          what = "the use of the user's memory";
          break;
        }
      }
      check_all(what);
    }
    vs.clear();
    ks.clear();
    cvs.clear();
    expect_live(me, 0, "after the destruction of all objects");
    sim::count("probe.histories");
  });
}

// Communicators and messages: the same history on all ranks
void mpi_handles() {
  sim::draw_faults();
  sim::Config cfg;
  cfg.nranks = static_cast<int>(sim::param("ranks", 1, 4));
  cfg.workers = static_cast<int>(sim::param("workers", 1, 3));
  const long ops = sim::param("operations", 1, 40);
  const auto seed = static_cast<std::uint64_t>(sim::param("history", 0, 1000000));
  run_ranks(cfg, [&](int me) {
    Rng r(seed);
    struct C {
      Communicator c;
      int res;  // -1: the world, -2: none
    };
    std::list<C> cs;
    int next = 0;
    using dlaf::common::make_data;
    using D = decltype(make_data(static_cast<double*>(nullptr), SizeType(1), SizeType(1), SizeType(1)));
    using Msg = dlaf::comm::Message<D>;
    struct M {
      Msg m;
      bool derived;
      SizeType nb, bs, st;
      double* p;
    };
    std::list<M> ms;
    std::vector<double> buf(200);
    auto pick = [&](auto& l) {
      auto it = l.begin();
      std::advance(it, r.i(0, static_cast<long>(l.size()) - 1));
      return it;
    };
    const long c0 = sim::mpi_stats(me).comms_live;
    for (long q = 0; q < ops; ++q) {
      const char* what = "";
      switch (r.i(0, 11)) {
        case 0:
          cs.push_back({r.i(0, 1) ? Communicator(MPI_COMM_WORLD) : Communicator(MPI_COMM_WORLD).clone(), -1});
          if (cs.back().c != MPI_COMM_WORLD)
            cs.back().res = next++;
          what = "the construction of a communicator";
          break;
        case 1:
          if (!cs.empty()) {
            auto a = pick(cs);
            if (a->res >= -1)
              cs.push_back({a->c.clone(), next++});
          }
          what = "the clone of a communicator";
          break;
        case 2:
          if (!cs.empty())
            cs.push_back(*pick(cs));
          what = "the copy of a communicator";
          break;
        case 3:
          if (!cs.empty()) {
            auto a = pick(cs);
            cs.push_back({std::move(a->c), a->res});
            cs.erase(a);
          }
          what = "the move of a communicator";
          break;
        case 4:
          if (!cs.empty()) {
            auto a = pick(cs), b = pick(cs);
            b->c = a->c;
            b->res = a->res;
          }
          what = "the assignment of a communicator";
          break;
        case 5:
          if (!cs.empty()) {
            MPI_Comm m;
            MPI_Comm_split(MPI_COMM_WORLD, me % 2, me, &m);
            pick(cs)->c = dlaf::comm::make_communicator_managed(m);
          }
          what = "a managed communicator";
          break;
        case 6:
          if (!cs.empty())
            cs.erase(pick(cs));
          what = "the destruction of a communicator";
          break;
        case 7:
          cs.push_back({Communicator(), -2});
          what = "the construction of a null communicator";
          break;
        case 8: {
          const SizeType nb = r.i(1, 4), bs = r.i(1, 4), st = bs + r.i(0, 3);
          double* p = buf.data() + r.i(0, 20);
          Msg m(make_data(p, nb, bs, st));
          ms.push_back({std::move(m), !(nb == 1 || bs == st), nb, bs, st, p});
          what = "the construction of a message";
          break;
        }
        case 9:
          if (!ms.empty()) {
            auto a = pick(ms);
            M n{std::move(a->m), a->derived, a->nb, a->bs, a->st, a->p};
            ms.erase(a);
            ms.push_back(std::move(n));
          }
          what = "the move of a message";
          break;
        case 10:
          if (ms.size() > 1) {
            auto a = pick(ms), b = pick(ms);
            if (a != b) {
              b->m = std::move(a->m);
              b->derived = a->derived, b->nb = a->nb, b->bs = a->bs, b->st = a->st, b->p = a->p;
              ms.erase(a);
            }
          }
          what = "the move assignment of a message";
          break;
        case 11:
          if (!ms.empty())
            ms.erase(pick(ms));
          what = "the destruction of a message";
          break;
      }
      // ownership: distinct communicators among the handles
      std::set<MPI_Comm> own;
      for (auto& c : cs)
        if (c.c != MPI_COMM_NULL && c.c != MPI_COMM_WORLD)
          own.insert(c.c);
      long types = 0;
      for (auto& m : ms)
        types += m.derived ? 1 : 0;
      expect_mpi(me, c0 + static_cast<long>(own.size()), types, what);
      for (auto& c : cs) {
        if (c.c == MPI_COMM_NULL)
          continue;
        int n = -1, k = -1;
        MPI_Comm_size(c.c, &n);
        MPI_Comm_rank(c.c, &k);
        check(c.c.size() == n && c.c.rank() == k, "wrong-communicator", "size or rank of a communicator");
      }
      for (auto& m : ms) {
        // what the message describes, seen by packing it through a communication with myself
        check(m.m.data() == m.p, "wrong-message", std::string("address of a message after ") + what);
        int sz = 0;
        MPI_Type_size(m.m.mpi_type(), &sz);
        check(static_cast<SizeType>(sz) * m.m.count() == static_cast<SizeType>(sizeof(double)) * m.nb * m.bs, "wrong-message", std::string("number of bytes of a message after ") + what);
      }
      // a communication with each kind of handle
      if (!cs.empty()) {
        auto a = pick(cs);
        if (a->c != MPI_COMM_NULL) {
          int one = 1, sum = 0;
          MPI_Allreduce(&one, &sum, 1, MPI_INT, MPI_SUM, a->c);
          check(sum == a->c.size(), "wrong-communicator", "a reduction on the communicator");
        }
      }
    }
    cs.clear();
    ms.clear();
    expect_mpi(me, c0, 0, "after the destruction of all objects");
    sim::count("probe.histories");
  });
}
}
SIM_SCENARIO("C20", release_program, 6) {
  if (sim::param("complex", 0, 1))
    program<zc>(false);
  else
    program<double>(false);
}
SIM_SCENARIO("C20", release_program_eigensolver, 2) {
  if (sim::param("complex", 0, 1))
    program<zc>(true);
  else
    program<double>(true);
}
SIM_SCENARIO("C20", memory_handles, 1) {
  handles();
}
SIM_SCENARIO("C20", mpi_handles_history, 1) {
  mpi_handles();
}
