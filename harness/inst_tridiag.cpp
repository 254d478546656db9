// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/matrix/tile.h>
#include <dlaf/eigensolver/tridiag_solver/coltype.h>

// (makes the tile type of this enumeration complete before the deferred uses in merge.h)
static_assert(std::is_convertible_v<dlaf::matrix::Tile<dlaf::eigensolver::internal::ColType, dlaf::Device::CPU>&,
                                    const dlaf::matrix::Tile<const dlaf::eigensolver::internal::ColType, dlaf::Device::CPU>&>);

#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/eigensolver/tridiag_solver/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::eigensolver::internal {
DLAF_TRIDIAGONAL_EIGENSOLVER_ETI(, Backend::MC, Device::CPU, InstR)
}
