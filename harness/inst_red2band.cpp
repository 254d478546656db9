// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <pika/execution.hpp>
#include <dlaf/eigensolver/bt_reduction_to_band/impl.h>
#include <dlaf/eigensolver/reduction_to_band/impl.h>
#include <dlaf/factorization/qr.h>
#include <dlaf/factorization/qr/t_factor_impl.h>

using dlaf::Backend;
using dlaf::Device;

namespace dlaf::eigensolver::internal {
DLAF_EIGENSOLVER_REDUCTION_TO_BAND_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_EIGENSOLVER_REDUCTION_TO_BAND_ETI(, Backend::MC, Device::CPU, InstC)
DLAF_EIGENSOLVER_BT_REDUCTION_TO_BAND_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_EIGENSOLVER_BT_REDUCTION_TO_BAND_ETI(, Backend::MC, Device::CPU, InstC)
}
namespace dlaf::factorization::internal {
DLAF_FACTORIZATION_QR_TFACTOR_ETI(, Backend::MC, Device::CPU, InstR)
DLAF_FACTORIZATION_QR_TFACTOR_ETI(, Backend::MC, Device::CPU, InstC)
}
