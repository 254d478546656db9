// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/solver/triangular.h>
#include <dlaf/solver/triangular/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::solver::internal {
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, InstC)
}
