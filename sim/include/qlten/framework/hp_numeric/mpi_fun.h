#ifndef SIM_QLTEN_MPI_FUN_H
#define SIM_QLTEN_MPI_FUN_H
#include <algorithm>
#include <complex>
#include <cstdint>
#include <iostream>
#include <string>
#include <type_traits>
#include <vector>
#include "mpi.h"
#ifndef HANDLE_MPI_ERROR
#define HANDLE_MPI_ERROR(call)                                           \
  do {                                                                   \
    int sim_err_ = (call);                                               \
    if (sim_err_ != MPI_SUCCESS) {                                       \
      std::cerr << "MPI error " << sim_err_ << std::endl;                \
      MPI_Abort(MPI_COMM_WORLD, sim_err_);                               \
    }                                                                    \
  } while (0)
#endif
namespace qlten {
namespace hp_numeric {
const int kMPIMasterRank = 0;
template<typename T>
MPI_Datatype GetMPIDataType() {
  if constexpr (std::is_same_v<T, double>) return MPI_DOUBLE;
  else if constexpr (std::is_same_v<T, float>) return MPI_FLOAT;
  else if constexpr (std::is_same_v<T, std::complex<double>>) return MPI_CXX_DOUBLE_COMPLEX;
  else if constexpr (std::is_same_v<T, std::complex<float>>) return MPI_CXX_FLOAT_COMPLEX;
  else if constexpr (std::is_same_v<T, char>) return MPI_CHAR;
  else if constexpr (std::is_same_v<T, int>) return MPI_INT;
  else if constexpr (std::is_same_v<T, unsigned>) return MPI_UNSIGNED;
  else if constexpr (std::is_same_v<T, long>) return MPI_LONG;
  else if constexpr (std::is_same_v<T, unsigned long>) return MPI_UNSIGNED_LONG;
  else if constexpr (std::is_same_v<T, unsigned long long>) return MPI_UNSIGNED_LONG_LONG;
  else return MPI_DATATYPE_NULL;
}
template<typename T>
inline void MPI_Bcast(T *data, const size_t n, const int root, const MPI_Comm &comm) {
  const size_t chunk = 1u << 30;
  for (size_t o = 0; o < n; o += chunk)
    ::MPI_Bcast(data + o, int(std::min(chunk, n - o)), GetMPIDataType<T>(), root, comm);
}
template<typename T>
inline void MPI_Bcast(T *data, const size_t n, const MPI_Comm &comm) { MPI_Bcast(data, n, kMPIMasterRank, comm); }
template<typename T>
inline void MPI_Send(const T *data, const size_t n, const int dest, const int tag, const MPI_Comm &comm) {
  ::MPI_Send(data, int(n), GetMPIDataType<T>(), dest, tag, comm);
}
template<typename T>
inline MPI_Status MPI_Recv(T *data, const size_t n, const int src, const int tag, const MPI_Comm &comm) {
  MPI_Status st; ::MPI_Recv(data, int(n), GetMPIDataType<T>(), src, tag, comm, &st); return st;
}
inline void GatherAndPrintErrorMessages(const std::string &msg, const MPI_Comm &comm) {
  int rank, size; MPI_Comm_rank(comm, &rank); MPI_Comm_size(comm, &size);
  int len = int(msg.size());
  std::vector<int> lens(size);
  ::MPI_Gather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, kMPIMasterRank, comm);
  if (rank == kMPIMasterRank) {
    if (len) std::cerr << "rank 0: " << msg << std::endl;
    for (int r = 1; r < size; ++r) if (lens[r] > 0) {
      std::string s(size_t(lens[r]), ' ');
      ::MPI_Recv(s.data(), lens[r], MPI_CHAR, r, 9917, comm, MPI_STATUS_IGNORE);
      std::cerr << "rank " << r << ": " << s << std::endl;
    }
  } else if (len > 0) {
    ::MPI_Send(msg.data(), len, MPI_CHAR, kMPIMasterRank, 9917, comm);
  }
}
}
}
#endif
