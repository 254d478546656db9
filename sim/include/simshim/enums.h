// Functions of newer blaspp/lapackpp that the sources use and that the installed version spells differently.
#pragma once
#include <string>
#include <blas/util.hh>
#include <lapack/util.hh>
namespace blas {
inline void from_string(const std::string& s, Uplo* u) {
  *u = char2uplo(s.empty() ? ' ' : s[0]);
}
}
namespace lapack {
inline const char* to_c_string(MatrixType t) {
  return matrixtype2str(t);
}
}
