// Tridiagonal matrices with the structures that matter to a divide and conquer solver
#pragma once
#include "common.h"
namespace hz {
inline void make_tridiag(long kind, SizeType n, SizeType nb, std::uint64_t seed, std::vector<double>& d, std::vector<double>& e) {
  Rng r(seed + 31);
  d.assign(static_cast<std::size_t>(n), 0);
  e.assign(static_cast<std::size_t>(n), 0);
  kind = kind == 8 ? -1 : kind;
  for (SizeType i = 0; i < n; ++i) {
    auto& di = d[static_cast<std::size_t>(i)];
    auto& ei = e[static_cast<std::size_t>(i)];
    switch (kind) {
      case 0:  // random
        di = r.d();
        ei = r.d();
        break;
      case 1:  // Laplacian
        di = 2;
        ei = -1;
        break;
      case 2:  // diagonal, repeated
        di = static_cast<double>(r.i(0, 2));
        ei = 0;
        break;
      case 3:  // random with decoupled rows
        di = r.d();
        ei = r.i(0, 2) == 0 ? 0.0 : r.d();
        break;
      case 4:  // clustered: glued blocks
        di = static_cast<double>((i % nb) % 3);
        ei = (i % nb == nb - 1) ? 1e-14 : 0.5;
        break;
      case 5:  // constant diagonal, zero diagonal
        di = 0;
        ei = r.i(0, 1) ? 1.0 : -1.0;
        break;
      case 6:  // identity, tiny couplings
        di = 1;
        ei = 1e-17 * r.d();
        break;
      case 7:  // descending diagonal, weak couplings: strong deflation
        di = static_cast<double>(n - i);
        ei = 1e-9 * r.d();
        break;
      case 9:  // graded
        di = r.d() * std::pow(10.0, -static_cast<double>(40 * i) / static_cast<double>(n));
        ei = r.d() * std::pow(10.0, -static_cast<double>(40 * i + 20) / static_cast<double>(n));
        break;
      case 10:  // couplings whose squares underflow
        di = r.d();
        ei = r.d() * std::pow(10.0, static_cast<double>(r.i(-310, 0)));
        break;
      case 11:  // Wilkinson: pairs of very close eigenvalues
        di = std::abs(static_cast<double>(i) - static_cast<double>(n - 1) / 2);
        ei = 1;
        break;
      case 12:  // glued Wilkinson
        di = std::abs(static_cast<double>(i % 7) - 3);
        ei = i % 7 == 6 ? 1e-8 : 1;
        break;
      case 13:  // inner part equal, weakly coupled borders
        di = i == 0 || i == n - 1 ? r.d() : 0.5;
        ei = 1e-3 * static_cast<double>(r.i(0, 2));
        break;
      default:  // widely scaled
        di = r.d() * std::pow(10.0, static_cast<double>(r.i(-6, 6)));
        ei = r.d() * std::pow(10.0, static_cast<double>(r.i(-6, 6)));
    }
  }
}
}
