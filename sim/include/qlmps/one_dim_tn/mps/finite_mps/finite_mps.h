#ifndef SIM_QLMPS_FMPS_H
#define SIM_QLMPS_FMPS_H
#include "qlmps/one_dim_tn/framework/ten_vec.h"
namespace qlmps {
enum MPSTenCanoType { NONE, LEFT, RIGHT };
const int kUncentralizedCenterIdx = -1;
}
#endif
