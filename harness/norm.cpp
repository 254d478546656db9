// C16: max norm
#include "common.h"

#include <dlaf/auxiliary/norm.h>
#include <dlaf/auxiliary/norm/mc.h>

namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, double)
DLAF_NORM_ETI(, std::complex<double>)
}

namespace {
using namespace hz;
template <class T>
void norm() {
  const Shape sh = draw_shape();
  draw_tune();
  Enlarge el_;
  const bool gen = sim::param("general", 0, 1) != 0;
  const SizeType mb = el_.tile(sim::param("mb", 1, 5));
  const SizeType nb = gen ? el_.tile(sim::param("nb", 1, 5)) : mb;
  const SizeType m = el_.size(sim::param("m", 0, 14));
  const SizeType n = gen ? el_.size(sim::param("n", 0, 14)) : m;
  const Index2D src = draw_source(sh);
  const Index2D tgt = draw_source(sh, "target");
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = !gen && sim::param("nan_opposite", 0, 1);
  long al = draw_alloc();
  const SizeType om = draw_offset(al, 6, "row_offset"), on = gen ? draw_offset(al, 6, "col_offset") : om;
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const int reps = static_cast<int>(sim::param("repeat", 1, 3));
  const bool peak = sim::param("peak", 0, 1);
  const bool rewrite = sim::param("rewrite_after", 0, 1);

  std::vector<Dense<T>> ins;
  std::vector<double> want;
  for (int r = 0; r < reps; ++r) {
    Dense<T> a = random_dense<T>(m, n, seed + 17u * static_cast<unsigned>(r));
    Rng g(seed + 1000u + static_cast<unsigned>(r));
    if (m > 0 && n > 0 && peak) {
      SizeType i = g.i(0, m - 1), j = g.i(0, n - 1);
      if (!gen && i < j)
        std::swap(i, j);
      a(i, j) = mk<T>(-5.0 - r, 0);
    }
    double w = 0;
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        if (gen || i >= j)
          w = std::max(w, std::abs(a(i, j)));
    want.push_back(w);
    ins.push_back(gen ? a : with_opposite(a, Part::Lower, seed, nan));
  }
  Dense<T> out(m, n);
  int delivered = 0;
  run_ranks(sh.cfg, [&](int) {
    auto grid = make_grid(sh);
    Mat<T> a = make_mat<T>(Dist({m, n}, {mb, nb}, grid.size(), grid.rank(), src, GlobalElementIndex(om, on)), al);
    using S = decltype(dlaf::auxiliary::max_norm<Backend::MC>(grid, tgt, blas::Uplo::General, a));
    std::vector<S> pending;
    for (int r = 0; r < reps; ++r) {
      fill(a, ins[static_cast<std::size_t>(r)], async || r > 0);
      pending.push_back(
          dlaf::auxiliary::max_norm<Backend::MC>(grid, tgt, gen ? blas::Uplo::General : blas::Uplo::Lower, a));
    }
    if (rewrite)  // later operations on the matrix must not be seen by the norms
      fill(a, ins.back(), true);
    for (int r = 0; r < reps; ++r) {
      const double v = tt::sync_wait(std::move(pending[static_cast<std::size_t>(r)]));
      if (grid.rank() == tgt) {
        ++delivered;
        // complex absolute values: hypot may be rounded differently
        const double w = want[static_cast<std::size_t>(r)];
        check(std::abs(v - w) <= 4e-16 * w, "wrong-result",
              "norm " + std::to_string(v) + " instead of " + std::to_string(w));
      }
    }
    gather<T>(a, out);
    grid.wait_all_communicators();
  });
  check(delivered == reps, "wrong-result", "norm not delivered");
  check_same(out, ins.back(), "operand-modified", "matrix");
}
}
SIM_SCENARIO("C16", max_norm, 1) {
  if (sim::param("complex", 0, 1))
    norm<zc>();
  else
    norm<double>();
}
