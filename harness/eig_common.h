// Checks on eigendecompositions
#pragma once
#include "common.h"
namespace hz {
inline void check_ascending(const std::vector<double>& w, double slack, const char* what) {
  for (std::size_t i = 0; i < w.size(); ++i) {
    check(std::isfinite(w[i]), "wrong-result", std::string(what) + ": eigenvalue " + std::to_string(i) + " is not finite");
    if (i)
      check(w[i] >= w[i - 1] - slack, "wrong-result", std::string(what) + ": eigenvalues not in ascending order");
  }
}
// A x = w B x, x^H B x = I for the leading k vectors
template <class T>
void check_eig(const Dense<T>& a, const Dense<T>* b, const std::vector<double>& w, const Dense<T>& x, double tol,
               const char* what) {
  Dense<T> ax = mul(a, x);
  Dense<T> bx = b ? mul(*b, x) : x;
  const Dense<T> xbx = mul(ctrans(x), bx);
  check_close(xbx, eye<T>(x.n), tol, "wrong-result", (std::string(what) + ": orthonormality").c_str());
  Dense<T> r(x.m, x.n);
  for (SizeType j = 0; j < x.n; ++j)
    for (SizeType i = 0; i < x.m; ++i)
      r(i, j) = ax(i, j) - bx(i, j) * static_cast<dlaf::BaseType<T>>(w[static_cast<std::size_t>(j)]);
  const double scale = std::max(maxabs(a), 1e-300);
  for (auto& v : r.v)
    v /= static_cast<dlaf::BaseType<T>>(scale);
  check_close(r, Dense<T>(x.m, x.n), tol, "wrong-result", (std::string(what) + ": eigenvalue equation").c_str());
}
// sum of eigenvalues and of their squares (all eigenvalues)
template <class T>
void check_trace(const Dense<T>& a, const std::vector<double>& w, double tol, const char* what) {
  const double sc = std::max(maxabs(a), 1e-300);  // the squares of the elements must not underflow or overflow
  double tr = 0, fr = 0, s1 = 0, s2 = 0;
  for (SizeType i = 0; i < a.n; ++i)
    tr += std::real(a(i, i)) / sc;
  for (auto& x : a.v)
    fr += std::norm(x / static_cast<dlaf::BaseType<T>>(sc));
  for (double x : w) {
    s1 += x / sc;
    s2 += x / sc * (x / sc);
  }
  check(std::abs(tr - s1) <= tol && std::abs(fr - s2) <= tol * static_cast<double>(a.n + 1), "wrong-result",
        std::string(what) + ": spectrum differs (trace " + str(tr) + " vs " + str(s1) + ", squares " + str(fr) + " vs " + str(s2) + ")");
}
}
