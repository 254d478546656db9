// C17: programs of concurrent algorithms
#include "program.h"

#include <dlaf/auxiliary/norm/mc.h>

namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, double)
DLAF_NORM_ETI(, std::complex<double>)
}
namespace {
using namespace hz;
template <class T>
void program(bool eig) {
  Program<T> p;
  p.draw(eig, true);
  const bool async = sim::param("async_fill", 0, 1);
  const bool wait = sim::param("wait_all", 0, 1);
  run_ranks(p.sh.cfg, [&](int) {
    auto grid = make_grid(p.sh);
    p.run_on(grid, true, async);
    if (wait)
      grid.wait_all_communicators();
  });
  p.check_eigs();
}
}
SIM_SCENARIO("C17", program, 4) {
  if (sim::param("complex", 0, 1))
    program<zc>(false);
  else
    program<double>(false);
}
SIM_SCENARIO("C17", program_eigensolver, 1) {
  if (sim::param("complex", 0, 1))
    program<zc>(true);
  else
    program<double>(true);
}
// C03: the collectives which the algorithms submit
SIM_SCENARIO("C03", algorithms, 1) {
  if (sim::param("complex", 0, 1))
    program<zc>(false);
  else
    program<double>(false);
}
SIM_SCENARIO("C03", algorithms_eigensolver, 1) {
  if (sim::param("complex", 0, 1))
    program<zc>(true);
  else
    program<double>(true);
}
