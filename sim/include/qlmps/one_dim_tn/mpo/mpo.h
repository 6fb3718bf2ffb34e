#ifndef SIM_QLMPS_MPO_H
#define SIM_QLMPS_MPO_H
#include "qlmps/one_dim_tn/framework/ten_vec.h"
namespace qlmps { template<typename T> class MPO : public TenVec<T> { public: using TenVec<T>::TenVec; }; }
#endif
