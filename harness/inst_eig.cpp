// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/eigensolver/impl.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_EIGENSOLVER_ETI(, Backend::MC, Device::CPU, InstC)
DLAF_EIGENSOLVER_GEN_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_EIGENSOLVER_GEN_ETI(, Backend::MC, Device::CPU, InstC)
}
