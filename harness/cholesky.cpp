#include "common.h"

#include <dlaf/factorization/cholesky.h>
#include <dlaf/factorization/cholesky/impl.h>

namespace dlaf::factorization::internal {
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, double)
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}

namespace {
using namespace hz;

template <class T>
void cholesky(bool local, bool indefinite = false) {
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 1, 5));
  const SizeType n = el_.size(sim::param("n", indefinite ? 1 : 0, 22));
  const Part part = sim::param("uplo", 0, 1) ? Part::Upper : Part::Lower;
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_opposite", 0, 1);
  const long al = draw_alloc();
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));

  Dense<T> a0 = random_hpd<T>(n, seed);
  if (indefinite) {  // has no factor
    const SizeType at = sim::param("bad_element", 0, n - 1);
    a0(at, at) = sim::param("zero", 0, 1) ? T(0) : -a0(at, at);
    sim::expect_abort(true, "probe.indefinite_refused");
  }
  const Dense<T> in = with_opposite(a0, part, seed, nan);
  Dense<T> out(n, n);
  run_ranks(sh.cfg, [&](int) {
    if (local) {
      Mat<T> a(Dist({n, n}, {nb, nb}, {1, 1}, {0, 0}, {0, 0}), alloc_of(al));
      fill(a, in, async);
      dlaf::cholesky_factorization<Backend::MC>(uplo_of(part), a);
      gather(a, out);
    }
    else {
      auto grid = make_grid(sh);
      Mat<T> a(Dist({n, n}, {nb, nb}, grid.size(), grid.rank(), src), alloc_of(al));
      fill(a, in, async);
      dlaf::cholesky_factorization<Backend::MC>(grid, uplo_of(part), a);
      gather(a, out);
      grid.wait_all_communicators();
    }
  });
  if (indefinite) {
    sim::expect_abort(false);
    sim::violation("wrong-result", "a matrix which is not positive definite was factorised");
  }
  check_opposite(out, in, part, "Cholesky");
  const Dense<T> f = triangle(out, part);
  const Dense<T> prod = part == Part::Lower ? mul(f, ctrans(f)) : mul(ctrans(f), f);
  for (SizeType i = 0; i < n; ++i)
    check(std::real(f(i, i)) > 0, "wrong-result", "Cholesky: non positive diagonal element");
  check_close(prod, a0, 1e-11 * static_cast<double>(n + 1), "wrong-result", "Cholesky");
}
}

SIM_SCENARIO("C08", cholesky_local, 1) {
  if (sim::param("complex", 0, 1))
    cholesky<zc>(true);
  else
    cholesky<double>(true);
}
SIM_SCENARIO("C08", cholesky_distributed, 3) {
  if (sim::param("complex", 0, 1))
    cholesky<zc>(false);
  else
    cholesky<double>(false);
}
SIM_SCENARIO("C08", not_positive_definite, 1) {
  const bool local = sim::param("local", 0, 2) == 0;
  if (sim::param("complex", 0, 1))
    cholesky<zc>(local, true);
  else
    cholesky<double>(local, true);
}
