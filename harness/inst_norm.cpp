// Instantiations of the code under test, shared by the harnesses that need them
#include "inst_types.h"

#include <dlaf/auxiliary/norm/mc.h>

namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, InstR)
DLAF_NORM_ETI(, InstC)
}
