// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/multiplication/triangular/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, InstC)
}
