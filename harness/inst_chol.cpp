// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/factorization/cholesky/impl.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/gen_to_std/impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::factorization::internal {
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, InstC)
}
namespace dlaf::eigensolver::internal {
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, InstC)
}
