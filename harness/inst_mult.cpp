// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/multiplication/general/impl.h>
#include <dlaf/permutations/general/impl.h>
#include <dlaf/multiplication/hermitian/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::permutations::internal {
DLAF_PERMUTATIONS_GENERAL_ETI(, Backend::MC, Device::CPU, InstR)
}
namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, InstC)
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, InstC)
}
