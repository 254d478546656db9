// C11: reduction to band form and its back-transformation
#include "refl.h"

#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/reduction_to_band.h>


namespace {
using namespace hz;
using dlaf::matrix::internal::MatrixRef;

template <class T>
void red2band(bool local) {
  const Shape sh = local ? draw_local() : two_threads(two_pipelines(draw_shape()));
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 2, 6));
  const SizeType band = draw_band(nb);
  const SizeType n = el_.size(sim::param("n", 0, 20));
  const SizeType m = el_.size(sim::param("m", 0, 12)), mb = el_.tile(sim::param("mb", 1, 5));
  const SizeType c0 = sim::param("col_begin", 0, 12) % (m + 1), c1 = c0 + sim::param("col_count", 0, 12) % (m - c0 + 1);
  const bool whole = sim::param("whole", 0, 1);
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_upper", 0, 1);
  const long al = draw_alloc("alloc_a"), cl = draw_alloc("alloc_c");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const long kind = sim::param("kind", 0, 9);
  Dense<T> a = herm_kind<T>(kind, n, band, seed);
  const double scales[] = {1, 1e-30, 1e30, 1e-100, 1e100, 1e-160, 1e160, 1e-290, 1e290};
  const double sc = scales[sim::param("scale", 0, 8)];  // norm of the matrix
  for (auto& x : a.v)
    x *= static_cast<dlaf::BaseType<T>>(sc);
  const Dense<T> in = with_opposite(a, Part::Lower, seed, nan);
  const Dense<T> cin = random_dense<T>(n, m, seed + 9);
  const SizeType k = std::max<SizeType>(0, n - band - 1);
  Dense<T> out(n, n), cout(n, m);
  std::vector<Dense<T>> taus(static_cast<std::size_t>(sh.cfg.nranks), Dense<T>(k, 1, mk<T>(std::nan(""), 0)));
  run_ranks(sh.cfg, [&](int rank) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> ma(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<T> mc(Dist({n, m}, {nb, mb}, gs, gr, src), alloc_of(cl));
      fill(ma, in, async);
      fill(mc, cin, async);
      auto mt = grid ? dlaf::eigensolver::internal::reduction_to_band<Backend::MC, Device::CPU, T>(*grid, ma, band)
                     : dlaf::eigensolver::internal::reduction_to_band<Backend::MC, Device::CPU, T>(ma, band);
      check(mt.size() == GlobalElementSize(k, 1), "wrong-result", "reduction to band: number of taus");
      auto bt = [&](MatrixRef<T, Device::CPU> ref) {
        if (grid)
          dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(*grid, band, ref, ma, mt);
        else
          dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(band, ref, ma, mt);
      };
      if (whole)
        bt(MatrixRef<T, Device::CPU>(mc));
      else
        bt(MatrixRef<T, Device::CPU>(mc, {{0, c0}, {n, c1 - c0}}));
      gather<T>(ma, out);
      gather<T>(mc, cout);
      gather<T>(mt, taus[static_cast<std::size_t>(rank)]);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  // taus: every rank of a grid column holds the same values
  std::vector<T> tau(static_cast<std::size_t>(k));
  for (SizeType i = 0; i < k; ++i) {
    bool have = false;
    for (auto& t : taus) {
      const T x = t(i, 0);
      if (std::isnan(std::real(x)))
        continue;
      check(!have || std::abs(tau[static_cast<std::size_t>(i)] - x) <= 1e-13 * std::abs(x), "wrong-result",
            "reduction to band: ranks disagree on tau " + std::to_string(i));
      tau[static_cast<std::size_t>(i)] = x;
      have = true;
    }
    check(have, "wrong-result", "reduction to band: tau " + std::to_string(i) + " missing or not a number");
  }
  check_opposite(out, in, Part::Lower, "reduction to band");
  // Q B Q^H = A
  Dense<T> b(n, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = j; i < std::min(n, j + band + 1); ++i) {
      b(i, j) = out(i, j);
      b(j, i) = cj(out(i, j));
    }
  for (SizeType i = 0; i < n; ++i)
    check(std::abs(std::imag(zc(b(i, i)))) <= 1e-14 * static_cast<double>(n + 4) * (maxabs(a) + 1), "wrong-result",
          "reduction to band: diagonal of the band matrix is not real");
  const double tol = 2e-14 * static_cast<double>(n + 4);
  const Dense<T> q = apply_band_refl(eye<T>(n), out, tau, band);
  check_close(mul(ctrans(q), q), eye<T>(n), tol, "wrong-result", "reduction to band: Q not unitary");
  check_close(mul(mul(q, b), ctrans(q)), a, tol * (maxabs(a) + sc), "wrong-result", "reduction to band: Q B Q^H differs from A");
  // back-transformation
  Dense<T> want = mul(q, cin);
  for (SizeType j = 0; j < m; ++j)
    if (!whole && (j < c0 || j >= c1))
      for (SizeType i = 0; i < n; ++i) {
        check(same_bits(cout(i, j), cin(i, j)), "untouched-part", "back-transformation modified a column outside of the range");
        want(i, j) = cin(i, j);
      }
  check_close(cout, want, tol * 4, "wrong-result", "back-transformation: Q C");
}

// back-transformation of arbitrary reflectors
template <class T>
void bt_only(bool local) {
  const Shape sh = local ? draw_local() : two_pipelines(draw_shape());
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 1, 6));
  const SizeType band = sim::param("b", 1, 7);
  const SizeType n = el_.size(sim::param("n", 0, 20));
  const SizeType m = el_.size(sim::param("m", 0, 14)), mb = el_.tile(sim::param("mb", 1, 6));
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const long al = draw_alloc("alloc_a"), cl = draw_alloc("alloc_c"), tl = draw_alloc("alloc_t");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const Dense<T> v = random_dense<T>(n, n, seed);
  const Dense<T> cin = random_dense<T>(n, m, seed + 9);
  const SizeType k = std::max<SizeType>(0, n - band - 1);
  Rng r(seed + 1);
  Dense<T> tau(k, 1);
  for (SizeType j = 0; j < k; ++j)
    tau(j, 0) = r.i(0, 5) == 0 ? T(0) : unitary_tau(band_refl(v, band, j), r);
  Dense<T> vout(n, n), cout(n, m);
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> mv(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<T> mc(Dist({n, m}, {nb, mb}, gs, gr, src), alloc_of(cl));
      Mat<T> mt(Dist(GlobalElementSize(k, 1), TileElementSize(nb, 1), Size2D(gs.cols(), 1), Index2D(gr.col(), 0), Index2D(src.col(), 0)),
                alloc_of(tl));
      fill(mv, v, async);
      fill(mc, cin, async);
      fill(mt, tau, async);
      MatrixRef<T, Device::CPU> ref(mc);
      if (grid)
        dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(*grid, band, ref, mv, mt);
      else
        dlaf::eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(band, ref, mv, mt);
      gather<T>(mc, cout);
      gather<T>(mv, vout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(vout, v, "input-modified", "reflectors given to the back-transformation");
  check_close(cout, apply_band_refl(cin, v, tau.v, band), 1e-13 * static_cast<double>(n + 4), "wrong-result",
              "back-transformation of given reflectors");
}
}
#define SC(name, w, f, l)               \
  SIM_SCENARIO("C11", name, w) {        \
    if (sim::param("complex", 0, 1))    \
      f<zc>(l);                         \
    else                                \
      f<double>(l);                     \
  }
SC(red2band_local, 2, red2band, true)
SC(red2band_distributed, 4, red2band, false)
SC(bt_local, 1, bt_only, true)
SC(bt_distributed, 2, bt_only, false)
