// C13: tridiagonal divide and conquer eigensolver
#include <dlaf/eigensolver/tridiag_solver.h>

#include "eig_common.h"
#include "tridiag_gen.h"

namespace {
using namespace hz;

template <class T>
void tridiag(bool local) {
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 1, 6));
  const SizeType n = el_.size(sim::param("n", 0, 24));
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const long al = draw_alloc("alloc_evecs"), bl = draw_alloc("alloc_evals"), tl = draw_alloc("alloc_tridiag");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const long kind = sim::param("kind", 0, 13);
  std::vector<double> d, e;
  const long scale = sim::param("scale", 0, 10);  // norm of the matrix
  const double scales[] = {1, 1e-12, 1e-30, 1e12, 1e30, 1e-100, 1e100, 1e-160, 1e160, 1e-290, 1e290}, sc = scales[scale];
  make_tridiag(kind, n, nb, seed, d, e);
  for (auto& x : d)
    x *= sc;
  for (auto& x : e)
    x *= sc;
  Dense<double> in(n, 2), a(n, n);
  for (SizeType i = 0; i < n; ++i) {
    in(i, 0) = a(i, i) = d[static_cast<std::size_t>(i)];
    in(i, 1) = e[static_cast<std::size_t>(i)];
    if (i + 1 < n)
      a(i + 1, i) = a(i, i + 1) = e[static_cast<std::size_t>(i)];
    else
      in(i, 1) = std::nan("");  // not used
  }
  Dense<T> x(n, n);
  std::vector<Dense<double>> w(static_cast<std::size_t>(sh.cfg.nranks), Dense<double>(n, 1));
  run_ranks(sh.cfg, [&](int rank) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> evecs(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<double> evals(dlaf::LocalElementSize(n, 1), TileElementSize(nb, 1), alloc_of(bl));
      Mat<double> t(dlaf::LocalElementSize(n, 2), TileElementSize(nb, 2), alloc_of(tl));
      fill(t, in, async);
      if (grid)
        dlaf::eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(*grid, t, evals, evecs);
      else
        dlaf::eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(t, evals, evecs);
      gather<T>(evecs, x);
      gather<double>(evals, w[static_cast<std::size_t>(rank)]);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  for (auto& wr : w)
    check_same(wr, w[0], "wrong-result", "eigenvalues of different ranks");
  check_ascending(w[0].v, 0, "tridiagonal solver");
  // Graded: laed4 of LAPACK updates the differences of an eigenvalue with the poles incrementally, which loses
  // the digits of the ratio between its initial guess and the result
  const double tol = (kind == 9 ? 1e-10 : 2e-14) * static_cast<double>(n + 4);
  Dense<T> at(n, n);
  for (std::size_t i = 0; i < at.v.size(); ++i)
    at.v[i] = mk<T>(a.v[i], 0);
  check_eig<T>(at, nullptr, w[0].v, x, tol, "tridiagonal solver");
  check_trace(a, w[0].v, tol * 10, "tridiagonal solver");
}
}
SIM_SCENARIO("C13", tridiag_local, 2) {
  if (sim::param("complex", 0, 1))
    tridiag<zc>(true);
  else
    tridiag<double>(true);
}
SIM_SCENARIO("C13", tridiag_distributed, 3) {
  if (sim::param("complex", 0, 1))
    tridiag<zc>(false);
  else
    tridiag<double>(false);
}
