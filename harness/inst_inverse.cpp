// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/cholesky/impl.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/inverse/triangular/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::inverse::internal {
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, InstC)
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, InstC)
}
