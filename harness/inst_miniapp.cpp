// One program of the miniapp directory, with its main function renamed; MINIAPP: its name.
// The routine it checks is called through a wrapper which can spoil the result.
#include <mpi.h>

#include <cstdlib>
#include <filesystem>
#include <iostream>
#include <utility>

#include <pika/init.hpp>
#include <pika/program_options.hpp>
#include <pika/runtime.hpp>

#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/matrix/matrix.h>

namespace blas {  // spelled differently by the installed version
#define TO_CHAR(E)             \
  inline char to_char(E x) {   \
    return static_cast<char>(x); \
  }
TO_CHAR(Layout)
TO_CHAR(Op)
TO_CHAR(Uplo)
TO_CHAR(Diag)
TO_CHAR(Side)
}

extern "C" int miniapp_spoil(int rank);  // of the harness: index of the element to be spoiled, or -1

namespace dlaf {
template <Backend B, Device D, class T, class... A>
void spoiled_cholesky_factorization(A&&... a) {
  auto& m = std::get<sizeof...(A) - 1>(std::tie(a...));
  cholesky_factorization<B, D, T>(std::forward<A>(a)...);
  const int k = miniapp_spoil(::sim::cur_rank());
  if (k < 0)
    return;
  const auto& d = m.distribution();
  const GlobalElementIndex e(k, k);
  if (d.rank_index() == d.rank_global_tile(d.global_tile_index(e)))
    pika::this_thread::experimental::sync_wait(m.readwrite(d.global_tile_index(e)))(d.tile_element_index(e)) += T(1);
}
template <class R>
R spoil_eigenvalue(R r) {
  const int k = miniapp_spoil(::sim::cur_rank());
  if (k >= 0) {
    const auto& d = r.eigenvalues.distribution();
    const GlobalElementIndex e(k, 0);
    pika::this_thread::experimental::sync_wait(r.eigenvalues.readwrite(d.global_tile_index(e)))(d.tile_element_index(e)) += 1;
  }
  return r;
}
template <Backend B, class... A>
auto spoiled_hermitian_eigensolver(A&&... a) {
  return spoil_eigenvalue(hermitian_eigensolver<B>(std::forward<A>(a)...));
}
template <Backend B, class... A>
auto spoiled_hermitian_generalized_eigensolver(A&&... a) {
  return spoil_eigenvalue(hermitian_generalized_eigensolver<B>(std::forward<A>(a)...));
}
}
#define cholesky_factorization spoiled_cholesky_factorization
#define hermitian_eigensolver spoiled_hermitian_eigensolver
#define hermitian_generalized_eigensolver spoiled_hermitian_generalized_eigensolver

#define TEXT_(x) #x
#define TEXT(x) TEXT_(x)
#define GLUE_(a, b) a##b
#define GLUE(a, b) GLUE_(a, b)
#define FILE_OF(x) TEXT(GLUE(../miniapp/miniapp_, x).cpp)
#define pika_main GLUE(pika_main_, MINIAPP)
#define main GLUE(miniapp_main_, MINIAPP)
#define string_default GLUE(string_default_, MINIAPP)
#include FILE_OF(MINIAPP)
#undef main
extern "C" int GLUE(miniapp_, MINIAPP)(int argc, char** argv) {
  return GLUE(miniapp_main_, MINIAPP)(argc, argv);
}
