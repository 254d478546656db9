// C12: band to tridiagonal reduction and its back-transformation
#include "refl.h"

#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>


namespace {
using namespace hz;
using dlaf::matrix::internal::MatrixRef;
using dlaf::BaseType;

template <class T>
void b2t(bool local) {
  const Shape sh = local ? draw_local() : two_pipelines(draw_shape());
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 2, 6));
  const SizeType band = draw_band(nb);
  tune().b1d = std::max<long>(tune().b1d, nb);
  const SizeType n = el_.size(sim::param("n", 0, 24));
  const SizeType m = el_.size(sim::param("m", 0, 12)), mb = el_.tile(sim::param("mb", 1, 5));
  const SizeType c1 = sim::param("col_count", 0, 12) % (m + 1);
  const bool whole = sim::param("whole", 0, 1);
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_outside", 0, 1);
  const long al = draw_alloc("alloc_a"), cl = draw_alloc("alloc_c");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const long kind = sim::param("kind", 0, 9);
  Dense<T> a = herm_kind<T>(kind, n, band, seed);
  const double scales[] = {1, 1e-30, 1e30, 1e-100, 1e100, 1e-160, 1e160, 1e-290, 1e290};
  const double sc = scales[sim::param("scale", 0, 8)];  // norm of the matrix
  for (auto& x : a.v)
    x *= static_cast<dlaf::BaseType<T>>(sc);
  Dense<T> in = with_opposite(a, Part::Lower, seed, nan);
  Rng r(seed + 77);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i)
      if (std::abs(i - j) > band) {
        a(i, j) = T(0);
        if (i > j)
          in(i, j) = nan ? mk<T>(std::nan(""), 0) : rnd<T>(r);
      }
  const Dense<T> cin = random_dense<T>(n, m, seed + 9);
  Dense<T> aout(n, n), hh(n, n), cout(n, m);
  std::vector<Dense<BaseType<T>>> tri(static_cast<std::size_t>(sh.cfg.nranks), Dense<BaseType<T>>(n, 2));
  run_ranks(sh.cfg, [&](int rank) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> ma(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<T> mc(Dist({n, m}, {nb, mb}, gs, gr, src), alloc_of(cl));
      fill(ma, in, async);
      fill(mc, cin, async);
      auto ret = grid ? dlaf::eigensolver::internal::band_to_tridiagonal<Backend::MC, Device::CPU, T>(*grid, blas::Uplo::Lower, band, ma)
                      : dlaf::eigensolver::internal::band_to_tridiagonal<Backend::MC, Device::CPU, T>(blas::Uplo::Lower, band, ma);
      auto bt = [&](MatrixRef<T, Device::CPU> ref) {
        if (grid)
          dlaf::eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(*grid, band, ref, ret.hh_reflectors);
        else
          dlaf::eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(band, ref, ret.hh_reflectors);
      };
      if (whole)
        bt(MatrixRef<T, Device::CPU>(mc));
      else
        bt(MatrixRef<T, Device::CPU>(mc, {{0, 0}, {n, c1}}));
      gather<T>(mc, cout);
      gather<T>(ret.hh_reflectors, hh);
      gather<BaseType<T>>(ret.tridiagonal, tri[static_cast<std::size_t>(rank)]);
      gather<T>(ma, aout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(aout, in, "input-modified", "input of band to tridiagonal");
  for (auto& t : tri)
    for (SizeType i = 0; i < n; ++i)
      check(same_bits(t(i, 0), tri[0](i, 0)) && (i == n - 1 || same_bits(t(i, 1), tri[0](i, 1))), "wrong-result",
            "tridiagonal matrix differs between ranks");
  Dense<T> t(n, n);
  for (SizeType i = 0; i < n; ++i) {
    t(i, i) = tri[0](i, 0);
    if (i + 1 < n)
      t(i + 1, i) = t(i, i + 1) = tri[0](i, 1);
  }
  const double tol = 2e-14 * static_cast<double>(n + 4);
  const Dense<T> q = apply_hh(eye<T>(n), hh, band);
  check_close(mul(ctrans(q), q), eye<T>(n), tol, "wrong-result", "band to tridiagonal: Q not unitary");
  check_close(mul(mul(q, t), ctrans(q)), a, tol * (maxabs(a) + sc), "wrong-result", "band to tridiagonal: Q T Q^H differs from A");
  Dense<T> want = mul(q, cin);
  for (SizeType j = 0; j < m; ++j)
    if (!whole && j >= c1)
      for (SizeType i = 0; i < n; ++i) {
        check(same_bits(cout(i, j), cin(i, j)), "untouched-part", "back-transformation modified a column outside of the range");
        want(i, j) = cin(i, j);
      }
  check_close(cout, want, tol * 4, "wrong-result", "back-transformation: Q C");
}

template <class T>
void bt_only(bool local) {
  const Shape sh = local ? draw_local() : two_pipelines(draw_shape());
  draw_tune();
  Enlarge el_;
  const SizeType nb = el_.tile(sim::param("nb", 2, 8));
  const SizeType band = draw_band(nb);
  tune().b1d = std::max<long>(tune().b1d, nb);
  const SizeType n = el_.size(sim::param("n", 0, 28));
  const SizeType m = el_.size(sim::param("m", 0, 14)), mb = el_.tile(sim::param("mb", 1, 8));
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const long al = draw_alloc("alloc_hh"), cl = draw_alloc("alloc_c");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  Dense<T> hh = random_dense<T>(n, n, seed);
  const Dense<T> cin = random_dense<T>(n, m, seed + 9);
  Rng r(seed + 1);
  for (SizeType sw = 0; sw < n - 1; ++sw)
    for (SizeType st = 0; st < nr_hh_steps<T>(n, band, sw); ++st) {
      const SizeType start = 1 + sw + st * band, len = std::min(band, n - start), pos = (sw / band + st) * band;
      std::vector<T> v(static_cast<std::size_t>(len), T(1));
      for (SizeType i = 1; i < len; ++i)
        v[static_cast<std::size_t>(i)] = hh(pos + i, sw);
      hh(pos, sw) = r.i(0, 7) == 0 ? T(0) : unitary_tau(v, r);
    }
  Dense<T> hout(n, n), cout(n, m);
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> mh(Dist({n, n}, {nb, nb}, gs, gr, src), alloc_of(al));
      Mat<T> mc(Dist({n, m}, {nb, mb}, gs, gr, src), alloc_of(cl));
      fill(mh, hh, async);
      fill(mc, cin, async);
      MatrixRef<T, Device::CPU> ref(mc);
      if (grid)
        dlaf::eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(*grid, band, ref, mh);
      else
        dlaf::eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(band, ref, mh);
      gather<T>(mc, cout);
      gather<T>(mh, hout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(hout, hh, "input-modified", "reflectors given to the back-transformation");
  check_close(cout, apply_hh(cin, hh, band), 1e-13 * static_cast<double>(n + 4), "wrong-result",
              "back-transformation of given reflectors");
}
}
#define SC(name, w, f, l)               \
  SIM_SCENARIO("C12", name, w) {        \
    if (sim::param("complex", 0, 1))    \
      f<zc>(l);                         \
    else                                \
      f<double>(l);                     \
  }
SC(b2t_local, 2, b2t, true)
SC(b2t_distributed, 4, b2t, false)
SC(bt_local, 1, bt_only, true)
SC(bt_distributed, 2, bt_only, false)
