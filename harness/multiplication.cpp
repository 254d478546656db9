// C18: general and Hermitian multiplication
#include "common.h"

#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/general/impl.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/hermitian/impl.h>

namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, double)
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, std::complex<double>)
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, double)
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}

namespace {
using namespace hz;
template <class T>
T factor(const char* nm) {
  const T v[] = {T(1), T(0), T(-1), mk<T>(-1.3, 0.6)};
  return v[sim::param(nm, 0, 3)];
}
template <class T>
Dense<T> axpby(T alpha, const Dense<T>& p, T beta, const Dense<T>& c) {
  Dense<T> r(c.m, c.n);
  for (std::size_t i = 0; i < r.v.size(); ++i)
    r.v[i] = beta == T(0) ? alpha * p.v[i] : alpha * p.v[i] + beta * c.v[i];
  return r;
}
// With beta = 0 the result does not depend on what C contained: it may not have been set to anything (all NaN).
// As in BLAS, that covers every C which gets at least one product.
template <class T>
void unset(Dense<T>& c, T beta, SizeType i0, SizeType j0, SizeType m, SizeType n) {
  if (beta != T(0) || !sim::param("unset_result", 0, 1))
    return;
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      c(i0 + i, j0 + j) = T(std::numeric_limits<double>::quiet_NaN());
}
template <class T>
Dense<T> sub(const Dense<T>& a, SizeType i0, SizeType j0, SizeType m, SizeType n) {
  Dense<T> r(m, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      r(i, j) = a(i0 + i, j0 + j);
  return r;
}

template <class T>
void hermitian(bool local) {
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType mb = el_.tile(sim::param("mb", 1, 4)), nb = el_.tile(sim::param("nb", 1, 4));
  const SizeType m = el_.size(sim::param("m", 0, 14)), n = el_.size(sim::param("n", 0, 14));
  const T alpha = factor<T>("alpha"), beta = factor<T>("beta");
  const Index2D src = draw_source(sh);
  const bool async = sim::param("async_fill", 0, 1);
  const bool nan = sim::param("nan_opposite", 0, 1);
  const long al = draw_alloc("alloc_a"), bl = draw_alloc("alloc_b"), cl = draw_alloc("alloc_c");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const Dense<T> a0 = random_herm<T>(m, seed);
  const Dense<T> ain = with_opposite(a0, Part::Lower, seed, nan);
  const Dense<T> b = random_dense<T>(m, n, seed + 1);
  Dense<T> c = random_dense<T>(m, n, seed + 2);
  unset(c, beta, 0, 0, m, n);
  Dense<T> aout(m, m), bout(m, n), out(m, n);
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> ma(Dist({m, m}, {mb, mb}, gs, gr, src), alloc_of(al));
      Mat<T> mb_(Dist({m, n}, {mb, nb}, gs, gr, src), alloc_of(bl));
      Mat<T> mc(Dist({m, n}, {mb, nb}, gs, gr, src), alloc_of(cl));
      fill(ma, ain, async);
      fill(mb_, b, async);
      fill(mc, c, async);
      if (grid)
        dlaf::hermitian_multiplication<Backend::MC, Device::CPU, T>(*grid, blas::Side::Left, blas::Uplo::Lower, alpha, ma,
                                                                    mb_, beta, mc);
      else
        dlaf::hermitian_multiplication<Backend::MC, Device::CPU, T>(blas::Side::Left, blas::Uplo::Lower, alpha, ma, mb_,
                                                                    beta, mc);
      gather<T>(mc, out);
      gather<T>(ma, aout);
      gather<T>(mb_, bout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(aout, ain, "operand-modified", "Hermitian operand");
  check_same(bout, b, "operand-modified", "general operand");
  check_close(out, axpby(alpha, mul(a0, b), beta, c), 1e-12 * static_cast<double>(m + 1), "wrong-result",
              "Hermitian multiplication");
}

template <class T>
void general(bool local) {
  using dlaf::matrix::internal::MatrixRef;
  const Shape sh = local ? draw_local() : draw_shape();
  draw_tune();
  Enlarge el_;
  const SizeType mb = el_.tile(sim::param("mb", 1, 4)), nb = el_.tile(sim::param("nb", 1, 4)), kb = el_.tile(sim::param("kb", 1, 4));
  const SizeType m = el_.size(sim::param("m", 0, 10)), n = el_.size(sim::param("n", 0, 10)), k = el_.size(sim::param("k", 0, 10));
  // origins: the operands have to agree on the offset within the tile
  const SizeType om = sim::param("off.m", 0, mb - 1), on = sim::param("off.n", 0, nb - 1), ok = sim::param("off.k", 0, kb - 1);
  auto org = [&](const char* nm, SizeType off, SizeType b) { return off + b * sim::param(nm, 0, 2); };
  const SizeType ar = org("a.row_tile", om, mb), ac = org("a.col_tile", ok, kb);
  const SizeType br = org("b.row_tile", ok, kb), bc = org("b.col_tile", on, nb);
  const SizeType cr = org("c.row_tile", om, mb), cc = org("c.col_tile", on, nb);
  const SizeType tail = sim::param("tail", 0, 3);
  const T alpha = factor<T>("alpha"), beta = factor<T>("beta");
  const Index2D src = draw_source(sh);
  const int sac = static_cast<int>(sim::param("srca.col", 0, sh.pc - 1)), sbr = static_cast<int>(sim::param("srcb.row", 0, sh.pr - 1));
  const bool async = sim::param("async_fill", 0, 1);
  const long al = draw_alloc("alloc_a"), bl = draw_alloc("alloc_b"), cl = draw_alloc("alloc_c");
  const auto seed = static_cast<std::uint64_t>(sim::param("dataseed", 0, 1000));
  const Dense<T> a = random_dense<T>(ar + m + tail, ac + k + tail, seed), b = random_dense<T>(br + k + tail, bc + n + tail, seed + 1);
  Dense<T> c = random_dense<T>(cr + m + tail, cc + n + tail, seed + 2);
  if (k > 0)
    unset(c, beta, cr, cc, m, n);
  Dense<T> aout(a.m, a.n), bout(b.m, b.n), out(c.m, c.n);
  // the rows of A are aligned with those of C, the columns of B with those of C
  auto wrap = [](SizeType x, int p) { return static_cast<int>(((x % p) + p) % p); };
  const int rc = wrap(src.row() + cr / mb - ar / mb, sh.pr);
  const int cb = wrap(src.col() + cc / nb - bc / nb, sh.pc);
  run_ranks(sh.cfg, [&](int) {
    auto go = [&](CommunicatorGrid* grid) {
      const Size2D gs = grid ? grid->size() : Size2D{1, 1};
      const Index2D gr = grid ? grid->rank() : Index2D{0, 0};
      Mat<T> ma(Dist({a.m, a.n}, {mb, kb}, gs, gr, Index2D{rc, sac}), alloc_of(al));
      Mat<T> mb_(Dist({b.m, b.n}, {kb, nb}, gs, gr, Index2D{sbr, cb}), alloc_of(bl));
      Mat<T> mc(Dist({c.m, c.n}, {mb, nb}, gs, gr, src), alloc_of(cl));
      fill(ma, a, async);
      fill(mb_, b, async);
      fill(mc, c, async);
      {
        CMat<T>& ca = ma;
        CMat<T>& cb_ = mb_;
        MatrixRef<const T, Device::CPU> ra(ca, {{ar, ac}, {m, k}});
        MatrixRef<const T, Device::CPU> rb(cb_, {{br, bc}, {k, n}});
        MatrixRef<T, Device::CPU> rcm(mc, {{cr, cc}, {m, n}});
        if (grid) {
          auto row = grid->row_communicator_pipeline();
          auto col = grid->col_communicator_pipeline();
          dlaf::multiplication::internal::generalMatrix<Backend::MC>(row, col, alpha, ra, rb, beta, rcm);
        }
        else
          dlaf::multiplication::internal::generalMatrix<Backend::MC>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ra, rb,
                                                                     beta, rcm);
      }
      gather<T>(mc, out);
      gather<T>(ma, aout);
      gather<T>(mb_, bout);
      if (grid)
        grid->wait_all_communicators();
    };
    if (local)
      go(nullptr);
    else {
      auto grid = make_grid(sh);
      go(&grid);
    }
  });
  check_same(aout, a, "operand-modified", "A");
  check_same(bout, b, "operand-modified", "B");
  const Dense<T> r = axpby(alpha, mul(sub(a, ar, ac, m, k), sub(b, br, bc, k, n)), beta, sub(c, cr, cc, m, n));
  check_close(sub(out, cr, cc, m, n), r, 1e-12 * static_cast<double>(k + 1), "wrong-result", "general multiplication");
  for (SizeType j = 0; j < c.n; ++j)
    for (SizeType i = 0; i < c.m; ++i)
      if (!(i >= cr && i < cr + m && j >= cc && j < cc + n))
        check(same_bits(out(i, j), c(i, j)), "outside-modified", "element outside of the sub-matrix was modified");
}
}
SIM_SCENARIO("C18", hermitian_local, 1) {
  sim::param("complex", 0, 1) ? hermitian<zc>(true) : hermitian<double>(true);
}
SIM_SCENARIO("C18", hermitian_distributed, 3) {
  sim::param("complex", 0, 1) ? hermitian<zc>(false) : hermitian<double>(false);
}
SIM_SCENARIO("C18", general_local, 1) {
  sim::param("complex", 0, 1) ? general<zc>(true) : general<double>(true);
}
SIM_SCENARIO("C18", general_distributed, 3) {
  sim::param("complex", 0, 1) ? general<zc>(false) : general<double>(false);
}
