// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/eigensolver/band_to_tridiag/mc.h>
#include <dlaf/eigensolver/bt_band_to_tridiag/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_B2T_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_EIGENSOLVER_BT_BAND_TO_TRIDIAGONAL_ETI(, Backend::MC, Device::CPU, InstR)
}
