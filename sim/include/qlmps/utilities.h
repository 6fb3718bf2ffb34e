#ifndef SIM_QLMPS_UTIL_H
#define SIM_QLMPS_UTIL_H
#include <sys/stat.h>
#include <complex>
#include <string>
#include "qlten/qlten.h"
namespace qlmps {
using qlten::IN;
using qlten::OUT;
inline bool IsPathExist(const std::string &p) { struct stat b; return stat(p.c_str(), &b) == 0; }
inline void CreatPath(const std::string &p) { mkdir(p.c_str(), 0755); }
inline double Real(const double d) { return d; }
inline double Real(const std::complex<double> z) { return z.real(); }
namespace mock_qlten { using qlten::SVD; }
}
#endif
