// Householder reflectors, dense reference operations
#pragma once
#include "common.h"
namespace hz {
// C <- (I - tau v v^H) C on rows [r0, r0 + v.size())
template <class T>
void apply_refl(Dense<T>& c, SizeType r0, const std::vector<T>& v, T tau) {
  for (SizeType j = 0; j < c.n; ++j) {
    T s(0);
    for (std::size_t i = 0; i < v.size(); ++i)
      s += cj(v[i]) * c(r0 + static_cast<SizeType>(i), j);
    s *= tau;
    for (std::size_t i = 0; i < v.size(); ++i)
      c(r0 + static_cast<SizeType>(i), j) -= v[i] * s;
  }
}
// Random tau making I - tau v v^H unitary
template <class T>
T unitary_tau(const std::vector<T>& v, Rng& r) {
  double dot = 0;
  for (auto& x : v)
    dot += std::norm(x);
  if constexpr (std::is_same_v<T, dlaf::BaseType<T>>) {
    (void) r;
    return static_cast<T>(2 / dot);
  }
  else {
    const double ti = r.d() / dot;
    return T((1 + std::sqrt(1 - dot * dot * ti * ti)) / dot, ti);
  }
}
// Reflectors as stored by the reduction to band (below the band of v)
template <class T>
std::vector<T> band_refl(const Dense<T>& v, SizeType band, SizeType j) {
  std::vector<T> x(static_cast<std::size_t>(v.m - band - j));
  x[0] = T(1);
  for (SizeType i = band + j + 1; i < v.m; ++i)
    x[static_cast<std::size_t>(i - band - j)] = v(i, j);
  return x;
}
template <class T>
Dense<T> apply_band_refl(Dense<T> c, const Dense<T>& v, const std::vector<T>& taus, SizeType band) {
  for (SizeType j = static_cast<SizeType>(taus.size()) - 1; j >= 0; --j)
    apply_refl(c, band + j, band_refl(v, band, j), taus[static_cast<std::size_t>(j)]);
  return c;
}
// Reflectors as stored by the band to tridiagonal reduction
template <class T>
SizeType nr_hh_steps(SizeType n, SizeType band, SizeType sw) {
  if (sw == n - 2)
    return std::is_same_v<T, dlaf::BaseType<T>> ? 0 : 1;
  return sw < n - 2 ? (n - sw - 2 + band - 1) / band : 0;
}
template <class T>
Dense<T> apply_hh(Dense<T> c, const Dense<T>& hh, SizeType band) {
  const SizeType n = hh.m;
  for (SizeType sw = n - 2; sw >= 0; --sw)
    for (SizeType st = nr_hh_steps<T>(n, band, sw) - 1; st >= 0; --st) {
      const SizeType start = 1 + sw + st * band, len = std::min(band, n - start), pos = (sw / band + st) * band;
      std::vector<T> v(static_cast<std::size_t>(len), T(1));
      for (SizeType i = 1; i < len; ++i)
        v[static_cast<std::size_t>(i)] = hh(pos + i, sw);
      apply_refl(c, start, v, hh(pos, sw));
    }
  return c;
}
// Hermitian matrices with structure (0: random, 1: band, 2: diagonal, 3: zero, 4: low rank, 5: decoupled blocks,
// 6: random with an imaginary subdiagonal, 7: arrow, 8: tiny outside of the band, 9: graded)
template <class T>
Dense<T> herm_kind(long kind, SizeType n, SizeType band, std::uint64_t seed) {
  Dense<T> a = random_herm<T>(n, seed);
  Rng r(seed + 5);
  switch (kind) {
    case 1:
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (std::abs(i - j) > band)
            a(i, j) = T(0);
      break;
    case 2:
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (i != j)
            a(i, j) = T(0);
      break;
    case 3:
      for (auto& x : a.v)
        x = T(0);
      break;
    case 4: {
      Dense<T> u = random_dense<T>(n, 1, seed + 3);
      a = mul(u, ctrans(u));
      break;
    }
    case 5: {
      const SizeType k = r.i(1, std::max<SizeType>(1, n));
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if ((i < k) != (j < k))
            a(i, j) = T(0);
      break;
    }
    case 6:
      for (SizeType j = 0; j + 1 < n; ++j) {
        a(j + 1, j) = mk<T>(0, 1);
        a(j, j + 1) = cj(a(j + 1, j));
      }
      break;
    case 7:
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (i != j && i != n - 1 && j != n - 1)
            a(i, j) = T(0);
      break;
    case 8:  // the squares of the elements underflow
    case 9: {
      const double f = std::pow(10.0, -static_cast<double>(r.i(140, 165)));
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < n; ++i)
          if (kind == 9)
            a(i, j) *= static_cast<dlaf::BaseType<T>>(std::pow(f, static_cast<double>(std::max(i, j)) / static_cast<double>(n)));
          else if (std::abs(i - j) > band)
            a(i, j) *= static_cast<dlaf::BaseType<T>>(f);
      break;
    }
    default:
      break;
  }
  for (SizeType j = 0; j < n; ++j)
    a(j, j) = mk<T>(std::real(a(j, j)), 0);
  return a;
}
inline SizeType draw_band(SizeType nb) {
  std::vector<SizeType> divs;
  for (SizeType b = 2; b <= nb; ++b)
    if (nb % b == 0)
      divs.push_back(b);
  const long i = sim::param("band", 0, 3);
  return divs[static_cast<std::size_t>(i) % divs.size()];
}
}
