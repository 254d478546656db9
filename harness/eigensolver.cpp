// C14: Hermitian eigensolver and generalised eigensolver, the whole chain
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>

#include "eig_common.h"
#include "refl.h"

namespace {
using namespace hz;
using dlaf::BaseType;

template <class T>
void eig(bool local, int mode) {  // mode 0: standard, 1: generalised, 2: generalised, factorised
  const Shape sh = local ? draw_local() : two_threads(two_pipelines(draw_shape()));
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 2, 6));
  tune().b1d = std::max<long>(tune().b1d, nb);
  const SizeType n = el_.size(sim::param("n", 0, 16));
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_upper", 0, 1);
  const bool returned = sim::param("returned", 0, 1);  // result returned or stored in given matrices
  const bool all = sim::param("all", 0, 1);
  const SizeType k = all ? n : sim::param("k", 0, 16) % (n + 1);
  const long al = draw_alloc("alloc_a"), bl = draw_alloc("alloc_b"), el = draw_alloc("alloc_evecs"), wl = draw_alloc("alloc_evals");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const long kind = sim::param("kind", 0, 9);
  const long scale = sim::param("scale", 0, 10);
  const double scales[] = {1, 1e-12, 1e-30, 1e12, 1e30, 1e-100, 1e100, 1e-160, 1e160, 1e-290, 1e290}, sc = scales[scale];
  Dense<T> a = herm_kind<T>(kind, n, 2, seed);
  for (auto& x : a.v)
    x *= static_cast<BaseType<T>>(sc);
  Dense<T> b = random_hpd<T>(n, seed + 4), l = random_tri<T>(n, Part::Lower, false, seed + 6);
  if (mode == 2)
    b = mul(l, ctrans(l));
  const Dense<T> in = with_opposite(a, Part::Lower, seed, nan);
  const Dense<T> bin = with_opposite(mode == 2 ? l : b, Part::Lower, seed + 2, nan);
  Dense<T> x(n, n), aout(n, n), bout(n, n);
  std::vector<Dense<double>> w(static_cast<std::size_t>(sh.cfg.nranks), Dense<double>(n, 1));
  run_ranks(sh.cfg, [&](int rank) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      constexpr auto MC = Backend::MC;
      const auto lo = blas::Uplo::Lower;
      Mat<T> ma(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<T> mb(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(bl));
      fill(ma, in, async);
      fill(mb, bin, async);
      auto finish = [&](Mat<T>& me, Mat<double>& mw) {
        gather<T>(me, x);
        gather<double>(mw, w[static_cast<std::size_t>(rank)]);
        gather<T>(ma, aout);
        gather<T>(mb, bout);
      };
      if (returned) {
        auto call = [&] {
          if (mode == 0) {
            if (grid)
              return all ? dlaf::hermitian_eigensolver<MC>(*grid, lo, ma) : dlaf::hermitian_eigensolver<MC>(*grid, lo, ma, 0, k);
            return all ? dlaf::hermitian_eigensolver<MC>(lo, ma) : dlaf::hermitian_eigensolver<MC>(lo, ma, 0, k);
          }
          if (mode == 1) {
            if (grid)
              return all ? dlaf::hermitian_generalized_eigensolver<MC>(*grid, lo, ma, mb)
                         : dlaf::hermitian_generalized_eigensolver<MC>(*grid, lo, ma, mb, 0, k);
            return all ? dlaf::hermitian_generalized_eigensolver<MC>(lo, ma, mb)
                       : dlaf::hermitian_generalized_eigensolver<MC>(lo, ma, mb, 0, k);
          }
          if (grid)
            return all ? dlaf::hermitian_generalized_eigensolver_factorized<MC>(*grid, lo, ma, mb)
                       : dlaf::hermitian_generalized_eigensolver_factorized<MC>(*grid, lo, ma, mb, 0, k);
          return all ? dlaf::hermitian_generalized_eigensolver_factorized<MC>(lo, ma, mb)
                     : dlaf::hermitian_generalized_eigensolver_factorized<MC>(lo, ma, mb, 0, k);
        };
        auto res = call();
        finish(res.eigenvectors, res.eigenvalues);
      }
      else {
        Mat<T> me(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(el));
        Mat<double> mw(dlaf::LocalElementSize(n, 1), TileElementSize(nb, 1), alloc_of(wl));
        if (mode == 0) {
          if (grid)
            all ? dlaf::hermitian_eigensolver<MC>(*grid, lo, ma, mw, me) : dlaf::hermitian_eigensolver<MC>(*grid, lo, ma, mw, me, 0, k);
          else
            all ? dlaf::hermitian_eigensolver<MC>(lo, ma, mw, me) : dlaf::hermitian_eigensolver<MC>(lo, ma, mw, me, 0, k);
        }
        else if (mode == 1) {
          if (grid)
            all ? dlaf::hermitian_generalized_eigensolver<MC>(*grid, lo, ma, mb, mw, me)
                : dlaf::hermitian_generalized_eigensolver<MC>(*grid, lo, ma, mb, mw, me, 0, k);
          else
            all ? dlaf::hermitian_generalized_eigensolver<MC>(lo, ma, mb, mw, me)
                : dlaf::hermitian_generalized_eigensolver<MC>(lo, ma, mb, mw, me, 0, k);
        }
        else {
          if (grid)
            all ? dlaf::hermitian_generalized_eigensolver_factorized<MC>(*grid, lo, ma, mb, mw, me)
                : dlaf::hermitian_generalized_eigensolver_factorized<MC>(*grid, lo, ma, mb, mw, me, 0, k);
          else
            all ? dlaf::hermitian_generalized_eigensolver_factorized<MC>(lo, ma, mb, mw, me)
                : dlaf::hermitian_generalized_eigensolver_factorized<MC>(lo, ma, mb, mw, me, 0, k);
        }
        finish(me, mw);
      }
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  for (auto& wr : w)
    check_same(wr, w[0], "wrong-result", "eigenvalues of different ranks");
  check_ascending(w[0].v, 0, "eigensolver");
  check_opposite(aout, in, Part::Lower, "eigensolver (A)");
  check_opposite(bout, bin, Part::Lower, "eigensolver (B)");
  const double tol = 1e-13 * static_cast<double>(n + 4);
  Dense<T> xk(n, k);
  for (SizeType j = 0; j < k; ++j)
    for (SizeType i = 0; i < n; ++i)
      xk(i, j) = x(i, j);
  std::vector<double> wk(w[0].v.begin(), w[0].v.begin() + k);
  check_eig<T>(a, mode ? &b : nullptr, wk, xk, tol, "eigensolver");
  if (mode == 0)
    check_trace(a, w[0].v, tol * 10, "eigensolver");
  else {
    // factor of B returned; lowest eigenpairs, spectrum through L^-1 A L^-H
    const Dense<T> f = triangle(bout, Part::Lower);
    check_close(mul(f, ctrans(f)), b, tol * 100, "wrong-result", "generalised eigensolver: factor of B");
    Dense<T> c = a;
    for (SizeType j = 0; j < n; ++j)  // L^-1 A
      for (SizeType i = 0; i < n; ++i) {
        for (SizeType p = 0; p < i; ++p)
          c(i, j) -= f(i, p) * c(p, j);
        c(i, j) /= f(i, i);
      }
    c = ctrans(c);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < n; ++i) {
        for (SizeType p = 0; p < i; ++p)
          c(i, j) -= f(i, p) * c(p, j);
        c(i, j) /= f(i, i);
      }
    check_trace(c, w[0].v, tol * 10, "generalised eigensolver");
  }
}
}
#define SC(name, w, l, m)               \
  SIM_SCENARIO("C14", name, w) {        \
    if (sim::param("complex", 0, 1))    \
      eig<zc>(l, m);                    \
    else                                \
      eig<double>(l, m);                \
  }
SC(eigensolver_local, 1, true, 0)
SC(eigensolver_distributed, 3, false, 0)
SC(generalised_local, 1, true, 1)
SC(generalised_distributed, 2, false, 1)
SC(generalised_factorised_local, 1, true, 2)
SC(generalised_factorised_distributed, 2, false, 2)
