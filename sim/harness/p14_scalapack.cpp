// The distributed (ScaLAPACK) solver of MinSR: the library once more, built with QLPEPS_HAS_SCALAPACK into a namespace of its own.
#define QLPEPS_HAS_SCALAPACK
#define qlpeps qlpeps_sca
#define hx hx_sca
#define P14_SCALAPACK
#include "scalapack_stub.h"
#include "p14_natgrad.cpp"
