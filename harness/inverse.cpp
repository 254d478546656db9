// C09: triangular inverse, inverse from a Cholesky factor, assembly of the inverse
#include "common.h"

#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/cholesky/impl.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/inverse/triangular/impl.h>

namespace dlaf::inverse::internal {
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, double)
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, std::complex<double>)
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, double)
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}

namespace {
using namespace hz;
enum Kind { TriInv, CholInv, Assemble };

template <class T>
void inv(bool local, bool singular = false) {
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const long kind = sim::param("kind", 0, singular ? 1 : 2);
  const SizeType nb = el_.tile(sim::param("nb", 1, 5));
  const SizeType n = el_.size(sim::param("n", singular ? 1 : 0, 20));
  const Part part = sim::param("uplo", 0, 1) ? Part::Upper : Part::Lower;
  const bool unit = kind == TriInv && !singular && sim::param("diag.unit", 0, 1) != 0;
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_opposite", 0, 1);
  const long al = draw_alloc();
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));

  Dense<T> t = random_tri<T>(n, part, unit, seed);
  if (singular) {  // has no inverse
    const SizeType at = sim::param("bad_element", 0, n - 1);
    t(at, at) = T(0);
    sim::expect_abort(true, "probe.singular_refused");
  }
  Dense<T> in = with_opposite(t, part, seed, nan);
  if (unit)
    for (SizeType i = 0; i < n; ++i)
      in(i, i) = nan ? mk<T>(std::nan(""), 0) : mk<T>(7.25, 0);
  Dense<T> out(n, n);
  const blas::Diag diag = unit ? blas::Diag::Unit : blas::Diag::NonUnit;
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> a(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      fill(a, in, async);
      if (kind == TriInv) {
        if (grid)
          dlaf::triangular_inverse<Backend::MC>(*grid, uplo_of(part), diag, a);
        else
          dlaf::triangular_inverse<Backend::MC>(uplo_of(part), diag, a);
      }
      else if (kind == CholInv) {
        if (grid)
          dlaf::inverse_from_cholesky_factor<Backend::MC>(*grid, uplo_of(part), a);
        else
          dlaf::inverse_from_cholesky_factor<Backend::MC>(uplo_of(part), a);
      }
      else {
        using A = dlaf::inverse::internal::AssembleCholeskyInverse<Backend::MC, Device::CPU, T>;
        if (grid)
          part == Part::Lower ? A::call_L(*grid, a) : A::call_U(*grid, a);
        else
          part == Part::Lower ? A::call_L(a) : A::call_U(a);
      }
      gather<T>(a, out);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  if (singular) {
    sim::expect_abort(false);
    sim::violation("wrong-result", "a singular matrix was inverted");
  }
  check_opposite(out, in, part, "inverse");
  if (unit)
    for (SizeType i = 0; i < n; ++i)
      check(same_bits(out(i, i), in(i, i)), "opposite-triangle", "diagonal of a unit triangular matrix was modified");
  const double tol = 1e-11 * static_cast<double>(n + 1);
  if (kind == TriInv) {
    Dense<T> x = triangle(out, part);
    if (unit)
      for (SizeType i = 0; i < n; ++i)
        x(i, i) = T(1);
    check_close(mul(t, x), eye<T>(n), tol, "wrong-result", "triangular inverse");
  }
  else if (kind == CholInv) {
    const Dense<T> a = part == Part::Lower ? mul(t, ctrans(t)) : mul(ctrans(t), t);
    check_close(mul(a, hermitian_of(out, part)), eye<T>(n), tol, "wrong-result", "inverse from Cholesky factor");
  }
  else {
    // lower: L^H L, upper: U U^H
    const Dense<T> want = part == Part::Lower ? mul(ctrans(t), t) : mul(t, ctrans(t));
    check_close(triangle(out, part), triangle(want, part), tol, "wrong-result", "assembly of the inverse");
  }
}
}

SIM_SCENARIO("C09", inverse_local, 1) {
  if (sim::param("complex", 0, 1))
    inv<zc>(true);
  else
    inv<double>(true);
}
SIM_SCENARIO("C09", inverse_distributed, 3) {
  if (sim::param("complex", 0, 1))
    inv<zc>(false);
  else
    inv<double>(false);
}
SIM_SCENARIO("C09", singular, 1) {
  const bool local = sim::param("local", 0, 2) == 0;
  if (sim::param("complex", 0, 1))
    inv<zc>(local, true);
  else
    inv<double>(local, true);
}
