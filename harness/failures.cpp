// C21: failures of the environment
#include "program.h"
#include <dlaf/eigensolver/tridiag_solver.h>
#include "tridiag_gen.h"

#include <dlaf/auxiliary/norm/mc.h>
#include <dlaf/common/data.h>
#include <dlaf/communication/init.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/communication/sync/reduce.h>
#include <dlaf_c/grid.h>

namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, double)
DLAF_NORM_ETI(, std::complex<double>)
}
namespace {
using namespace hz;

int draw_code() {
  return static_cast<int>(sim::param_of("error.code", {16, 1, 5, 15, 17, 18, 53, 77, 1 << 20, 0x7fffffff}));
}
void ignored() {
  if (sim::mpi_error_fired())
    sim::violation("silent-error", sim::mpi_error_call() + " reported an error, but the program went on to a normal end");
  sim::count("probe.fault_beyond_the_end");
}

template <class T>
void program(bool eig, int what) {
  Program<T> p;
  p.draw(eig, true);
  const int rank = static_cast<int>(sim::param("error.rank", 0, p.sh.pr * p.sh.pc - 1));
  const long scale = sim::param_of("error.scale", {10, 60, 400, 3000});
  const long nth = sim::param("error.nth", 0, scale);
  const bool late = sim::param("error.after_grid", 0, 1);
  // rare call sites are reached by counting call sites instead of calls
  const bool by_site = what == 0 && sim::param("error.by_site", 0, 2) != 0;
  const long site = by_site ? sim::param("error.site", 0, late ? 15 : 24) : 0;
  const long at_site = by_site ? sim::param("error.at_site", 0, sim::param_of("error.site_scale", {0, 3, 20})) : 0;
  auto inject = [&] {
    if (by_site)
      sim::mpi_inject_error_at(rank, site, at_site, draw_code());
    else if (what == 0)
      sim::mpi_inject_error(rank, nth, draw_code());
    else if (what == 1)
      sim::mpi_inject_completion_error(rank, nth);
    else
      sim::fail_alloc_after(nth, sim::param("error.persistent", 0, 1) != 0);
  };
  // A request that fails in one of the cooperating workers of a panel ends that worker with an exception: the others wait for it
  if (what == 1)
    sim::tolerate_hang_after_fault();
  if (!late)
    inject();
  run_ranks(p.sh.cfg, [&](int r) {
    try {
      auto grid = make_grid(p.sh);
      sim::harness_barrier();
      if (late && r == 0)
        inject();
      sim::harness_barrier();
      p.run_on(grid, true, true);
      sim::drain(r);
    }
    catch (const std::exception&) {
      if (sim::abort_expected())
        sim::finish_ok("probe.failure_reported_to_caller");
      throw;
    }
  });
  p.check_eigs();
  ignored();
  if (what == 2 && sim::abort_expected())
    sim::violation("silent-error", "an allocation failed, but the program went on to a normal end");
}

// The tridiagonal solver alone, on matrices whose deflation makes the ranks exchange columns
template <class T>
void tridiag_solver() {
  const Shape sh = draw_shape();
  draw_tune();
  const SizeType nb = sim::param("nb", 1, 4);
  const SizeType n = sim::param("n", 2, 20);
  const Index2D src = draw_source(sh);
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const long kind = sim::param("kind", 0, 8);
  std::vector<double> d, e;
  make_tridiag(kind, n, nb, seed, d, e);
  Dense<double> in(n, 2);
  for (SizeType i = 0; i < n; ++i) {
    in(i, 0) = d[static_cast<std::size_t>(i)];
    in(i, 1) = e[static_cast<std::size_t>(i)];
  }
  const int rank = static_cast<int>(sim::param("error.rank", 0, sh.pr * sh.pc - 1));
  const long site = sim::param("error.site", 0, 14);
  const long nth = sim::param("error.at_site", 0, sim::param_of("error.site_scale", {0, 3, 20}));
  run_ranks(sh.cfg, [&](int r) {
    auto grid = make_grid(sh);
    Mat<T> evecs(Dist({n, n}, {nb, nb}, grid.size(), grid.rank(), src));
    Mat<double> evals(dlaf::LocalElementSize(n, 1), TileElementSize(nb, 1));
    Mat<double> t(dlaf::LocalElementSize(n, 2), TileElementSize(nb, 2));
    fill(t, in, false);
    sim::harness_barrier();
    if (r == 0)
      sim::mpi_inject_error_at(rank, site, nth, draw_code());
    sim::harness_barrier();
    dlaf::eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(grid, t, evals, evecs);
    evecs.wait_local_tiles();
    evals.wait_local_tiles();
    grid.wait_all_communicators();
  });
  ignored();
}

// blocking primitives
void blocking(bool grid_only) {
  sim::draw_faults();
  sim::Config cfg;
  cfg.nranks = static_cast<int>(sim::param("ranks", 1, 4));
  cfg.workers = 1;
  const int rank = static_cast<int>(sim::param("error.rank", 0, cfg.nranks - 1));
  const long nth = sim::param("error.nth", 0, 24);
  const int code = draw_code();
  const auto seed = static_cast<std::uint64_t>(sim::param("history", 0, 1000000));
  const long ops = sim::param("operations", 1, 8);
  run_ranks(cfg, [&](int r) {
    using namespace dlaf::comm;
    Communicator world(MPI_COMM_WORLD);
    sim::harness_barrier();
    if (r == 0)
      sim::mpi_inject_error(rank, nth, code);
    sim::harness_barrier();
    Rng g(seed);
    if (grid_only) {
      const int pr = cfg.nranks % 2 == 0 ? 2 : 1, pc = cfg.nranks / pr;
      for (long q = 0; q < ops; ++q) {
        const bool row = g.i(0, 1);
        switch (g.i(0, 2)) {
          case 0: {
            CommunicatorGrid gr(world, pr, pc, row ? dlaf::common::Ordering::RowMajor : dlaf::common::Ordering::ColumnMajor, 1 + static_cast<std::size_t>(g.i(0, 2)));
            if (g.i(0, 1))
              gr.wait_all_communicators();
            break;
          }
          case 1: {
            Communicator c = world.clone();
            break;
          }
          case 2: {
            const int i = row ? r / pc : r % pr, j = row ? r % pc : r / pr;
            const char o = grid_ordering(MPI_COMM_WORLD, pr, pc, i, j);
            check(o == (row && pr > 1 && pc > 1 ? 'R' : 'C'), "wrong-result", "order of the grid");
            break;
          }
        }
      }
    }
    else {
      std::vector<double> a(64, 1.0), b(64, 2.0);
      for (long q = 0; q < ops; ++q) {
        const SizeType nb = g.i(1, 3), bs = g.i(1, 3), st = bs + g.i(0, 2);
        auto da = dlaf::common::make_data(a.data(), nb, bs, st);
        auto db = dlaf::common::make_data(b.data(), nb, bs, st);
        const int root = static_cast<int>(g.i(0, cfg.nranks - 1));
        for (auto& x : a)
          x = 1.0 + r;
        switch (g.i(0, 5)) {
          case 0:
            sync::allReduce(world, MPI_SUM, dlaf::common::make_data(static_cast<const double*>(a.data()), nb, bs, st), db);
            break;
          case 1:
            sync::allReduceInPlace(world, MPI_SUM, da);
            break;
          case 2:
            sync::reduce(root, world, MPI_SUM, dlaf::common::make_data(static_cast<const double*>(a.data()), nb, bs, st), db);
            break;
          case 3:
            if (r == root)
              sync::broadcast::send(world, da);
            else
              sync::broadcast::receive_from(root, world, da);
            break;
          case 4:
            if (cfg.nranks > 1) {
              if (r == root)
                sync::send_to((root + 1) % cfg.nranks, world, da);
              else if (r == (root + 1) % cfg.nranks)
                sync::receive_from(root, world, da);
            }
            break;
          case 5:
            sync::reduce(root, world, MPI_MAX, dlaf::common::make_data(static_cast<const double*>(a.data()), SizeType(5)), dlaf::common::make_data(b.data(), SizeType(5)));
            break;
        }
      }
    }
  });
  ignored();
}
}
SIM_SCENARIO("C21", mpi_error_in_program, 4) {
  if (sim::param("complex", 0, 1))
    program<zc>(false, 0);
  else
    program<double>(false, 0);
}
SIM_SCENARIO("C21", mpi_error_in_program_eigensolver, 3) {
  if (sim::param("complex", 0, 1))
    program<zc>(true, 0);
  else
    program<double>(true, 0);
}
SIM_SCENARIO("C21", mpi_error_in_tridiag_solver, 3) {
  if (sim::param("complex", 0, 1))
    tridiag_solver<zc>();
  else
    tridiag_solver<double>();
}
SIM_SCENARIO("C21", mpi_completion_error, 2) {
  program<double>(sim::param("eig", 0, 1) != 0, 1);
}
SIM_SCENARIO("C21", allocation_failure, 2) {
  program<double>(sim::param("eig", 0, 1) != 0, 2);
}
SIM_SCENARIO("C21", mpi_error_in_blocking_primitives, 2) {
  blocking(false);
}
SIM_SCENARIO("C21", mpi_error_in_grids, 2) {
  blocking(true);
}
SIM_SCENARIO("C21", thread_support, 1) {
  sim::draw_faults();
  const int level = static_cast<int>(sim::param("level", 0, 3));
  const bool via_init = sim::param("mpi_init", 0, 1);
  const bool before = sim::param("initialized", 0, 1);
  sim::mpi_set_provided(level);
  sim::mpi_auto_init(false);
  sim::Config cfg;
  cfg.nranks = 1;
  cfg.workers = static_cast<int>(sim::param("workers", 1, 2));
  sim::run(cfg, [&](int) {
    auto must_fail = [&](bool on) {
      sim::expect_abort(on && level < 3, "probe.thread_level_refused");
    };
    std::optional<dlaf::comm::mpi_init> mi;
    if (via_init) {
      must_fail(true);
      mi.emplace(0, nullptr);
      must_fail(false);
      int p = -1;
      MPI_Query_thread(&p);
      if (p < MPI_THREAD_MULTIPLE)
        sim::violation("thread-level", "MPI was initialized with an insufficient level of thread support and used");
    }
    else if (before) {
      int p = -1;
      MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &p);
    }
    pika::start(nullptr, 0, nullptr, pika::init_params{});
    must_fail(via_init || before);
    dlaf::initialize(pika::program_options::variables_map{});
    must_fail(false);
    if ((via_init || before) && level < 3)
      sim::violation("thread-level", "the library started although MPI gives an insufficient level of thread support");
    {
      Mat<double> m({3, 3}, {2, 2});
      fill(m, random_hpd<double>(3, 7), false);
      dlaf::cholesky_factorization<Backend::MC>(blas::Uplo::Lower, m);
      m.wait_local_tiles();
    }
    dlaf::finalize();
    pika::finalize();
    pika::stop();
    mi.reset();
    if (!via_init && before)
      MPI_Finalize();
    sim::count("probe.thread_level_accepted");
  });
}
