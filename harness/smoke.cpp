#include <dlafsim/core.h>
#include <dlafsim/mpi_sim.h>
#include <dlaf/factorization/cholesky/impl.h>
#include "common.h"
#include <dlaf/matrix/matrix.h>
#include <dlaf/factorization/cholesky.h>
namespace dlaf::factorization::internal { DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, double) }
using namespace dlaf;
using namespace hz;
SIM_SCENARIO("C08",chol,1) {
  auto sh=draw_shape();
  int n = sim::param("n",0,20), nb=sim::param("nb",1,5);
  auto a0=random_hpd<double>(n,1); Dense<double> out(n,n);
  run_ranks(sh.cfg,[&](int r){
    (void) r;
    auto grid=make_grid(sh);
    Mat<double> a(Dist({n,n},{nb,nb},grid.size(),grid.rank(),{0,0}));
    fill(a,a0,true);
    cholesky_factorization<Backend::MC>(grid, blas::Uplo::Lower, a);
    gather(a,out);
    grid.wait_all_communicators();
  });
  for(int j=0;j<n;++j)for(int i=0;i<j;++i)out(i,j)=0;
  check(maxdiff(a0,mul(out,ctrans(out)))<1e-10,"res","wrong");
}
