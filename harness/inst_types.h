// Element types of the instantiations: double precision, or single precision with -DDLAF_INST_SC
#pragma once
#include <complex>
#ifdef DLAF_INST_SC
using InstR = float;
#else
using InstR = double;
#endif
using InstC = std::complex<InstR>;
