// C07: triangular solve and triangular multiplication
#include "common.h"

#include <dlaf/multiplication/triangular.h>
#include <dlaf/multiplication/triangular/impl.h>
#include <dlaf/solver/triangular.h>
#include <dlaf/solver/triangular/impl.h>

namespace dlaf::solver::internal {
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, double)
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, double)
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}

namespace {
using namespace hz;

template <class T>
void tri(bool local, bool solve) {
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType mb = el_.tile(sim::param("mb", 1, 4));
  const SizeType nb = el_.tile(sim::param("nb", 1, 4));
  const SizeType m = el_.size(sim::param("m", 0, 14));
  const SizeType n = el_.size(sim::param("n", 0, 14));
  const bool right = sim::param("side.right", 0, 1) != 0;
  const Part part = sim::param("uplo", 0, 1) ? Part::Upper : Part::Lower;
  // transposed multiplications are documented as not implemented for distributed matrices
  const long opi = (local || solve) ? sim::param("op", 0, 2) : 0;
  const blas::Op op = opi == 0 ? blas::Op::NoTrans : opi == 1 ? blas::Op::Trans : blas::Op::ConjTrans;
  const bool unit = sim::param("diag.unit", 0, 1) != 0;
  const T alphas[] = {T(1), T(-1), mk<T>(-1.3, 0.6), mk<T>(0.4, -0.2), T(0)};
  const T alpha = alphas[sim::param("alpha", 0, 4)];
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_opposite", 0, 1);
  const long al = draw_alloc("alloc_a"), bl = draw_alloc("alloc_b");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));

  const SizeType na = right ? n : m, ba = right ? nb : mb;
  const Dense<T> t = random_tri<T>(na, part, unit, seed);
  Dense<T> ain = with_opposite(t, part, seed, nan);
  if (unit)  // not referenced
    for (SizeType i = 0; i < na; ++i)
      ain(i, i) = nan ? mk<T>(std::nan(""), 0) : mk<T>(7.25, 0);
  const Dense<T> b = random_dense<T>(m, n, seed + 5);
  Dense<T> aout(na, na), out(m, n);
  const blas::Side side = right ? blas::Side::Right : blas::Side::Left;
  const blas::Diag diag = unit ? blas::Diag::Unit : blas::Diag::NonUnit;

  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> ma(Dist({na, na}, {ba, ba}, gs, gr, src), alloc_of(al));
      Mat<T> mb_(Dist({m, n}, {mb, nb}, gs, gr, src), alloc_of(bl));
      fill(ma, ain, async);
      fill(mb_, b, async);
      if (grid) {
        if (solve)
          dlaf::triangular_solver<Backend::MC, Device::CPU, T>(*grid, side, uplo_of(part), op, diag, alpha, ma, mb_);
        else
          dlaf::triangular_multiplication<Backend::MC, Device::CPU, T>(*grid, side, uplo_of(part), op, diag, alpha, ma, mb_);
      }
      else {
        if (solve)
          dlaf::triangular_solver<Backend::MC, Device::CPU, T>(side, uplo_of(part), op, diag, alpha, ma, mb_);
        else
          dlaf::triangular_multiplication<Backend::MC, Device::CPU, T>(side, uplo_of(part), op, diag, alpha, ma, mb_);
      }
      gather<T>(mb_, out);
      gather<T>(ma, aout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(aout, ain, "operand-modified", "triangular operand");
  const Dense<T> opt = opi == 0 ? t : opi == 1 ? trans(t) : ctrans(t);
  Dense<T> ab = b;
  for (auto& x : ab.v)
    x *= alpha;
  if (solve) {
    const Dense<T> prod = right ? mul(out, opt) : mul(opt, out);
    check_close(prod, ab, 1e-12 * static_cast<double>(na + 1), "wrong-result", "triangular solve");
  }
  else {
    const Dense<T> want = right ? mul(ab, opt) : mul(opt, ab);
    check_close(out, want, 1e-12 * static_cast<double>(na + 1), "wrong-result", "triangular multiplication");
  }
}
void pick(bool local, bool solve) {
  if (sim::param("complex", 0, 1))
    tri<zc>(local, solve);
  else
    tri<double>(local, solve);
}
}

SIM_SCENARIO("C07", solve_local, 1) {
  pick(true, true);
}
SIM_SCENARIO("C07", solve_distributed, 3) {
  pick(false, true);
}
SIM_SCENARIO("C07", multiply_local, 1) {
  pick(true, false);
}
SIM_SCENARIO("C07", multiply_distributed, 3) {
  pick(false, false);
}
