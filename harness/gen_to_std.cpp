// C10: reduction of a generalized eigenproblem to standard form
#include "common.h"

#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/gen_to_std/impl.h>

namespace dlaf::eigensolver::internal {
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, double)
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}

namespace {
using namespace hz;
template <class T>
void gts(bool local) {
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 1, 5));
  const SizeType n = el_.size(sim::param("n", 0, 18));
  const Part part = sim::param("uplo", 0, 1) ? Part::Upper : Part::Lower;
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_opposite", 0, 1);
  const long al = draw_alloc("alloc_a"), bl = draw_alloc("alloc_b");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));

  const Dense<T> a0 = random_herm<T>(n, seed);
  const Dense<T> f = random_tri<T>(n, part, false, seed + 3);
  const Dense<T> ain = with_opposite(a0, part, seed, nan);
  const Dense<T> fin = with_opposite(f, part, seed + 9, nan);
  Dense<T> out(n, n), fout(n, n);
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> a(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<T> b(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(bl));
      fill(a, ain, async);
      fill(b, fin, async);
      if (grid)
        dlaf::eigensolver::internal::generalized_to_standard<Backend::MC>(*grid, uplo_of(part), a, b);
      else
        dlaf::eigensolver::internal::generalized_to_standard<Backend::MC>(uplo_of(part), a, b);
      gather<T>(a, out);
      gather<T>(b, fout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_opposite(out, ain, part, "A");
  check_same(fout, fin, "operand-modified", "factor");
  const Dense<T> x = hermitian_of(out, part);
  // lower: A = L X L^H, upper: A = U^H X U
  const Dense<T> back = part == Part::Lower ? mul(mul(f, x), ctrans(f)) : mul(mul(ctrans(f), x), f);
  check_close(back, a0, 1e-11 * static_cast<double>(n + 1), "wrong-result", "generalized to standard");
}
}
SIM_SCENARIO("C10", gen_to_std_local, 1) {
  if (sim::param("complex", 0, 1))
    gts<zc>(true);
  else
    gts<double>(true);
}
SIM_SCENARIO("C10", gen_to_std_distributed, 3) {
  if (sim::param("complex", 0, 1))
    gts<zc>(false);
  else
    gts<double>(false);
}
