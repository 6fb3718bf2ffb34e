// Stand-in for TensorToolkit's qlten/qlten.h, which is not available offline.
// Dense tensors with the API subset QuantumLiquids/PEPS uses.  Semantics follow
// the public documentation of TensorToolkit: Contract keeps the free legs of A
// then of B; the matrix-based Contract<E,Q,bool,bool> keeps free legs in cyclic
// order starting after the contracted block; SVD truncates by relative error
// with Dmin/Dmax bounds.  Bosonic trivial symmetry only.
#ifndef SIM_QLTEN_QLTEN_H
#define SIM_QLTEN_QLTEN_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include "mpi.h"
#include "qlten/utility/timer.h"
#include "qlten/framework/hp_numeric/mpi_fun.h"

namespace qlten {

using QLTEN_Float = float;
using QLTEN_Double = double;
using QLTEN_ComplexFloat = std::complex<float>;
using QLTEN_Complex = std::complex<double>;
using CoorsT = std::vector<size_t>;
using ShapeT = std::vector<size_t>;

template<typename T> struct RealTypeTrait { using type = T; };
template<typename T> struct RealTypeTrait<std::complex<T>> { using type = T; };
template<typename T> struct is_complex_ : std::false_type {};
template<typename T> struct is_complex_<std::complex<T>> : std::true_type {};

inline double Conj(double x) { return x; }
inline std::complex<double> Conj(std::complex<double> x) { return std::conj(x); }

const std::string kQLTenFileSuffix = "qlten";
constexpr double kDoubleEpsilon = 1.0e-13;
constexpr float kFloatEpsilon = 1.0e-5f;
inline std::vector<CoorsT> GenAllCoors(const ShapeT &shape) {
  std::vector<CoorsT> r; CoorsT c(shape.size(), 0);
  for (auto s : shape) if (s == 0) return r;
  while (true) {
    r.push_back(c);
    size_t i = shape.size();
    while (i > 0) { if (++c[i - 1] < shape[i - 1]) break; c[i - 1] = 0; --i; }
    if (i == 0) return r;
  }
}

enum TenIndexDirType { IN = 1, OUT = -1, NDIR = 0 };

class Showable {
 public:
  virtual ~Showable() = default;
  virtual void Show(const size_t indent_level = 0) const = 0;
};
class Streamable {
 public:
  virtual ~Streamable() = default;
  virtual void StreamRead(std::istream &) = 0;
  virtual void StreamWrite(std::ostream &) const = 0;
};
inline std::istream &operator>>(std::istream &is, Streamable &s) { s.StreamRead(is); return is; }
inline std::ostream &operator<<(std::ostream &os, const Streamable &s) { s.StreamWrite(os); return os; }
class Hashable { public: virtual ~Hashable() = default; virtual size_t Hash() const = 0; };
template<typename T> size_t Hash(const T &o) { return o.Hash(); }

class IndentPrinter {
 public:
  explicit IndentPrinter(const size_t l) : level_(l) {}
  friend std::ostream &operator<<(std::ostream &os, const IndentPrinter &p) {
    for (size_t i = 0; i < p.level_; ++i) os << "  ";
    return os;
  }
 private:
  size_t level_;
};

enum ExecutorStatus { INITING, INITED, EXEING, FINISH };
class Executor {
 public:
  Executor() : status_(INITING) {}
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  ExecutorStatus GetStatus() const { return status_; }
  void SetStatus(const ExecutorStatus s) { status_ = s; }
 private:
  ExecutorStatus status_;
};

// ---------------------------------------------------------------- quantum numbers
namespace special_qn {
class TrivialRepQN : public Showable {
 public:
  TrivialRepQN() = default;
  template<typename... A> explicit TrivialRepQN(const A &...) {}
  static TrivialRepQN Zero() { return TrivialRepQN(); }
  TrivialRepQN operator-() const { return *this; }
  TrivialRepQN &operator+=(const TrivialRepQN &) { return *this; }
  TrivialRepQN operator+(const TrivialRepQN &) const { return *this; }
  TrivialRepQN operator-(const TrivialRepQN &) const { return *this; }
  bool operator==(const TrivialRepQN &) const { return true; }
  bool operator!=(const TrivialRepQN &) const { return false; }
  size_t Hash() const { return 0; }
  size_t dim() const { return 1; }
  static constexpr bool IsFermionic() { return false; }
  bool IsFermionParityEven() const { return true; }
  bool IsFermionParityOdd() const { return false; }
  void Show(const size_t = 0) const override {}
};
}
using special_qn::TrivialRepQN;

template<typename QNT>
struct Fermionicable { static constexpr bool IsFermionic() { return false; } };

template<typename QNT>
class QNSector {
 public:
  QNSector() : dgnc_(0) {}
  QNSector(const QNT &qn, const size_t d) : qn_(qn), dgnc_(d) {}
  const QNT &GetQn() const { return qn_; }
  size_t GetDegeneracy() const { return dgnc_; }
  size_t dim() const { return dgnc_; }
  bool IsFermionParityEven() const { return true; }
  bool IsFermionParityOdd() const { return false; }
  bool operator==(const QNSector &o) const { return dgnc_ == o.dgnc_ && qn_ == o.qn_; }
 private:
  QNT qn_;
  size_t dgnc_;
};
template<typename QNT> QNSector(const QNT &, size_t) -> QNSector<QNT>;
template<typename QNT> QNSector(const QNT &, int) -> QNSector<QNT>;

template<typename QNT>
class Index {
 public:
  Index() : dir_(NDIR), dim_(0) {}
  Index(const std::vector<QNSector<QNT>> &s, const TenIndexDirType d) : dir_(d), scts_(s), dim_(0) {
    for (auto &x : scts_) dim_ += x.dim();
  }
  size_t dim() const { return dim_; }
  TenIndexDirType GetDir() const { return dir_; }
  const QNSector<QNT> &GetQNSct(size_t i) const { return scts_.at(i); }
  size_t GetQNSctNum() const { return scts_.size(); }
  QNSector<QNT> GetQNSctFromActualCoor(size_t c) const { return scts_.at(CoorToBlkCoorDataCoor(c).first); }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t c) const {
    for (size_t i = 0; i < scts_.size(); ++i) {
      if (c < scts_[i].dim()) return {i, c};
      c -= scts_[i].dim();
    }
    throw std::out_of_range("Index::CoorToBlkCoorDataCoor");
  }
  static constexpr bool IsFermionic() { return false; }
  void Inverse() { dir_ = (dir_ == IN) ? OUT : (dir_ == OUT ? IN : NDIR); }
  bool operator==(const Index &o) const { return dir_ == o.dir_ && dim_ == o.dim_ && scts_ == o.scts_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const { return dim_ * 3 + size_t(int(dir_) + 1); }
 private:
  TenIndexDirType dir_;
  std::vector<QNSector<QNT>> scts_;
  size_t dim_;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;

template<typename QNT>
Index<QNT> InverseIndex(const Index<QNT> &i) { Index<QNT> r(i); r.Inverse(); return r; }

struct ContractError : std::runtime_error { using std::runtime_error::runtime_error; };

inline std::mt19937_64 &SimQltenRandomEngine() { static std::mt19937_64 e(20240101); return e; }
inline void SetRandomSeed(size_t s) { SimQltenRandomEngine().seed(s); }

template<typename ElemT, typename QNT> class QLTensor;

template<typename ElemT, typename QNT>
class BlockSparseDataTensor {
 public:
  explicit BlockSparseDataTensor(std::vector<ElemT> *d) : d_(d) {}
  void RawDataMPIBcast(const MPI_Comm &comm, const int root) {
    if (!d_->empty()) hp_numeric::MPI_Bcast(d_->data(), d_->size(), root, comm);
  }
  size_t GetActualRawDataSize() const { return d_->size(); }
 private:
  std::vector<ElemT> *d_;
};

template<typename ElemT, typename QNT>
class QLTensor : public Showable {
 public:
  using value_type = ElemT;
  using RealT = typename RealTypeTrait<ElemT>::type;
  using IndexT = Index<QNT>;

  QLTensor() = default;
  QLTensor(const std::vector<IndexT> &idx) : def_(false), idx_(idx) { InitShape_(); }
  QLTensor(std::initializer_list<IndexT> idx) : QLTensor(std::vector<IndexT>(idx)) {}
  QLTensor(const QLTensor &) = default;
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept : def_(o.def_), idx_(std::move(o.idx_)), shape_(std::move(o.shape_)), d_(std::move(o.d_)) { o.Clear_(); }
  QLTensor &operator=(QLTensor &&o) noexcept {
    if (this != &o) {
      def_ = o.def_; idx_ = std::move(o.idx_); shape_ = std::move(o.shape_); d_ = std::move(o.d_); o.Clear_();
    }
    return *this;
  }

  static constexpr bool IsFermionic() { return Fermionicable<QNT>::IsFermionic(); }
  size_t Rank() const { return shape_.size(); }
  size_t size() const { size_t n = def_ ? 0 : 1; for (auto s : shape_) n *= s; return n; }
  const std::vector<IndexT> &GetIndexes() const { return idx_; }
  const IndexT &GetIndex(size_t i) const { return idx_.at(i); }
  const ShapeT &GetShape() const { return shape_; }
  bool IsScalar() const { return !def_ && shape_.empty(); }
  bool IsDefault() const { return def_; }
  QNT Div() const { return QNT::Zero(); }
  size_t GetActualDataSize() const { return d_.size(); }
  ElemT *GetRawDataPtr() { return d_.data(); }
  const ElemT *GetRawDataPtr() const { return d_.data(); }
  BlockSparseDataTensor<ElemT, QNT> GetBlkSparDataTen() { return BlockSparseDataTensor<ElemT, QNT>(&d_); }
  BlockSparseDataTensor<ElemT, QNT> GetBlkSparDataTen() const { return BlockSparseDataTensor<ElemT, QNT>(const_cast<std::vector<ElemT> *>(&d_)); }
  size_t GetQNBlkNum() const { return d_.empty() ? 0 : 1; }

  // element access -----------------------------------------------------------
  struct Ref {
    QLTensor *t; size_t off;
    Ref &operator=(const ElemT &v) { t->Alloc_(); t->d_[off] = v; return *this; }
    Ref &operator=(const Ref &o) { ElemT v = o; return *this = v; }
    Ref &operator+=(const ElemT &v) { t->Alloc_(); t->d_[off] += v; return *this; }
    Ref &operator-=(const ElemT &v) { t->Alloc_(); t->d_[off] -= v; return *this; }
    Ref &operator*=(const ElemT &v) { t->Alloc_(); t->d_[off] *= v; return *this; }
    operator ElemT() const { return t->d_.empty() ? ElemT(0) : t->d_[off]; }
  };
  ElemT GetElem(const std::vector<size_t> &c) const { return d_.empty() ? ElemT(0) : d_[Off_(c)]; }
  void SetElem(const std::vector<size_t> &c, const ElemT v) { Alloc_(); d_[Off_(c)] = v; }
  Ref operator()(const std::vector<size_t> &c) { return Ref{this, Off_(c)}; }
  ElemT operator()(const std::vector<size_t> &c) const { return GetElem(c); }
  Ref operator()(std::initializer_list<size_t> c) { return Ref{this, Off_(std::vector<size_t>(c))}; }
  ElemT operator()(std::initializer_list<size_t> c) const { return GetElem(std::vector<size_t>(c)); }
  Ref operator()() { return Ref{this, Off_({})}; }
  ElemT operator()() const { return GetElem({}); }
  template<typename... I> requires (sizeof...(I) > 0 && (std::is_integral_v<I> && ...))
  Ref operator()(I... i) { return Ref{this, Off_(std::vector<size_t>{size_t(i)...})}; }
  template<typename... I> requires (sizeof...(I) > 0 && (std::is_integral_v<I> && ...))
  ElemT operator()(I... i) const { return GetElem(std::vector<size_t>{size_t(i)...}); }

  // filling ------------------------------------------------------------------
  static ElemT RandElem_() {
    std::uniform_real_distribution<double> u(0.0, 1.0);
    auto &e = SimQltenRandomEngine();
    if constexpr (is_complex_<ElemT>::value) { double a = u(e), b = u(e); return ElemT(a, b); }
    else return ElemT(u(e));
  }
  void Random(const QNT &) { Alloc_(); for (auto &x : d_) x = RandElem_(); }
  void Random() { Random(QNT()); }
  void Fill(const QNT &, const ElemT v) { Alloc_(); for (auto &x : d_) x = v; }

  // unary --------------------------------------------------------------------
  void Transpose(const std::vector<size_t> &ax) {
    if (ax.size() != Rank()) throw ContractError("Transpose: bad axes");
    bool id = true;
    for (size_t i = 0; i < ax.size(); ++i) id &= (ax[i] == i);
    if (id) return;
    std::vector<IndexT> ni(ax.size()); ShapeT ns(ax.size());
    std::vector<bool> seen(ax.size(), false);
    for (size_t i = 0; i < ax.size(); ++i) {
      if (ax[i] >= ax.size() || seen[ax[i]]) throw ContractError("Transpose: bad axes");
      seen[ax[i]] = true; ni[i] = idx_[ax[i]]; ns[i] = shape_[ax[i]];
    }
    if (!d_.empty()) d_ = Permuted_(ax);
    idx_ = std::move(ni); shape_ = std::move(ns);
  }
  std::vector<ElemT> Permuted_(const std::vector<size_t> &ax) const {
    const size_t r = ax.size();
    std::vector<size_t> stride(r, 1), st2(r), ns(r), c(r, 0);
    for (size_t i = r; i-- > 1;) stride[i - 1] = stride[i] * shape_[i];
    for (size_t i = 0; i < r; ++i) { st2[i] = stride[ax[i]]; ns[i] = shape_[ax[i]]; }
    std::vector<ElemT> nd(d_.size());
    size_t off = 0;
    for (size_t k = 0; k < nd.size(); ++k) {
      nd[k] = d_[off];
      for (size_t i = r; i-- > 0;) {
        off += st2[i];
        if (++c[i] < ns[i]) break;
        off -= st2[i] * ns[i]; c[i] = 0;
      }
    }
    return nd;
  }
  void FuseIndex(size_t i, size_t j) {
    // fuse legs i<j into one leg placed first
    std::vector<size_t> ax{i, j};
    for (size_t k = 0; k < Rank(); ++k) if (k != i && k != j) ax.push_back(k);
    Transpose(ax);
    IndexT f({QNSector<QNT>(QNT::Zero(), shape_[0] * shape_[1])}, idx_[0].GetDir());
    std::vector<IndexT> ni{f}; ni.insert(ni.end(), idx_.begin() + 2, idx_.end());
    idx_ = ni; InitShape_();
  }
  void Dag() {
    for (auto &i : idx_) i.Inverse();
    if constexpr (is_complex_<ElemT>::value) for (auto &x : d_) x = std::conj(x);
  }
  void ActFermionPOps() {}
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.d_) x = -x; return r; }
  RealT Get2Norm() const { RealT s = 0; for (auto &x : d_) s += std::norm(x); return std::sqrt(s); }
  RealT GetQuasi2Norm() const { return Get2Norm(); }
  RealT Normalize() { RealT n = Get2Norm(); for (auto &x : d_) x /= n; return n; }
  RealT QuasiNormalize() { return Normalize(); }
  RealT GetMaxAbs() const { RealT m = 0; for (auto &x : d_) m = std::max(m, RealT(std::abs(x))); return m; }
  bool HasNan() const { for (auto &x : d_) if (std::isnan(std::abs(x))) return true; return false; }
  void ElementWiseInv(double tol = 0.0) {
    for (auto &x : d_) x = (std::abs(x) < tol) ? ElemT(0) : ElemT(1) / x;
  }
  void ElementWiseSqrt() { for (auto &x : d_) x = std::sqrt(x); }
  void ElementWiseSquare() { for (auto &x : d_) x = x * x; }
  void ElementWiseSquaredNorm() { for (auto &x : d_) x = ElemT(std::norm(x)); }
  void ElementWiseMultiply(const QLTensor &o) { if (o.d_.empty()) { d_.clear(); return; } for (size_t i = 0; i < d_.size(); ++i) d_[i] *= o.d_.at(i); }
  void ElementWiseClipTo(double lim) {
    for (auto &x : d_) { double a = std::abs(x); if (a > lim) x *= RealT(lim / a); }
  }
  void ElementWiseBoundTo(double lim) { ElementWiseClipTo(lim); }
  template<typename F> void ElementWiseRandomizeMagnitudePreservePhase(F &) {}

  // arithmetic ---------------------------------------------------------------
  bool operator==(const QLTensor &o) const {
    if (def_ != o.def_ || idx_ != o.idx_) return false;
    if (d_.size() == o.d_.size()) return d_ == o.d_;
    const auto &n = d_.empty() ? o.d_ : d_;
    return std::all_of(n.begin(), n.end(), [](const ElemT &x) { return x == ElemT(0); });
  }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  QLTensor &operator+=(const QLTensor &o) { return Acc_(o, ElemT(1)); }
  QLTensor &operator-=(const QLTensor &o) { return Acc_(o, ElemT(-1)); }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor operator-(const QLTensor &o) const { QLTensor r(*this); r -= o; return r; }
  QLTensor &operator*=(const ElemT s) { for (auto &x : d_) x *= s; return *this; }
  QLTensor operator*(const ElemT s) const { QLTensor r(*this); r *= s; return r; }
  QLTensor &operator/=(const ElemT s) { for (auto &x : d_) x /= s; return *this; }
  QLTensor operator/(const ElemT s) const { QLTensor r(*this); r /= s; return r; }

  // I/O ----------------------------------------------------------------------
  void StreamWrite(std::ostream &os) const {
    uint64_t h[3] = {def_ ? 1u : 0u, idx_.size(), d_.size()};
    os.write((const char *) h, sizeof h);
    for (auto &i : idx_) {
      int64_t q[2] = {int64_t(i.GetDir()), int64_t(i.dim())};
      os.write((const char *) q, sizeof q);
    }
    // one write per element keeps partial-write points inside a tensor
    if (!d_.empty()) os.write((const char *) d_.data(), sizeof(ElemT) * d_.size());
  }
  void StreamRead(std::istream &is) {
    uint64_t h[3] = {1, 0, 0};
    is.read((char *) h, sizeof h);
    Clear_();
    if (!is || h[0] > 1 || h[1] > 64 || h[2] > (1u << 28)) { is.setstate(std::ios::failbit); return; }
    std::vector<IndexT> idx;
    size_t tot = 1;
    for (uint64_t i = 0; i < h[1]; ++i) {
      int64_t q[2] = {0, 0};
      is.read((char *) q, sizeof q);
      if (!is || q[1] < 0 || q[1] > (1 << 20)) { is.setstate(std::ios::failbit); return; }
      idx.emplace_back(std::vector<QNSector<QNT>>{QNSector<QNT>(QNT::Zero(), size_t(q[1]))}, TenIndexDirType(q[0]));
      tot *= size_t(q[1]);
    }
    if (h[0]) return;
    if (h[2] != 0 && h[2] != tot) { is.setstate(std::ios::failbit); return; }
    def_ = false; idx_ = idx; InitShape_();
    if (h[2]) {
      d_.assign(h[2], ElemT(0));
      is.read((char *) d_.data(), sizeof(ElemT) * d_.size());
    }
  }
  friend std::ostream &operator<<(std::ostream &os, const QLTensor &t) { t.StreamWrite(os); return os; }
  friend std::istream &operator>>(std::istream &is, QLTensor &t) { t.StreamRead(is); return is; }

  // MPI ----------------------------------------------------------------------
  void PackShellForMPI(std::vector<char> &buf) const {
    auto put = [&buf](uint64_t v) { const char *p = (const char *) &v; buf.insert(buf.end(), p, p + 8); };
    put(def_); put(idx_.size()); put(d_.size());
    for (auto &i : idx_) { put(uint64_t(int64_t(i.GetDir()))); put(i.dim()); }
  }
  void UnpackShellForMPI(const char *&cur, const char *end) {
    auto get = [&]() -> uint64_t {
      if (end - cur < 8) throw std::runtime_error("QLTensor::UnpackShellForMPI: truncated");
      uint64_t v; std::memcpy(&v, cur, 8); cur += 8; return v;
    };
    Clear_();
    bool def = get() != 0; uint64_t nr = get(), nd = get();
    std::vector<IndexT> idx;
    for (uint64_t i = 0; i < nr; ++i) {
      auto dir = TenIndexDirType(int64_t(get())); size_t dim = get();
      idx.emplace_back(std::vector<QNSector<QNT>>{QNSector<QNT>(QNT::Zero(), dim)}, dir);
    }
    if (!def) { def_ = false; idx_ = idx; InitShape_(); d_.assign(nd, ElemT(0)); }
  }
  void MPI_Send(const int dest, const int tag, const MPI_Comm &comm) const {
    std::vector<char> shell; PackShellForMPI(shell);
    uint64_t n = shell.size();
    ::MPI_Send(&n, 1, MPI_UINT64_T, dest, tag, comm);
    ::MPI_Send(shell.data(), int(n), MPI_CHAR, dest, tag, comm);
    if (!d_.empty()) ::MPI_Send(d_.data(), int(d_.size()), hp_numeric::GetMPIDataType<ElemT>(), dest, tag, comm);
  }
  MPI_Status MPI_Recv(int src, const int tag, const MPI_Comm &comm) {
    uint64_t n = 0; MPI_Status st;
    ::MPI_Recv(&n, 1, MPI_UINT64_T, src, tag, comm, &st);
    src = st.MPI_SOURCE;
    const int t = st.MPI_TAG;
    std::vector<char> shell(n);
    ::MPI_Recv(shell.data(), int(n), MPI_CHAR, src, t, comm, &st);
    const char *c = shell.data();
    UnpackShellForMPI(c, c + n);
    if (!d_.empty()) ::MPI_Recv(d_.data(), int(d_.size()), hp_numeric::GetMPIDataType<ElemT>(), src, t, comm, &st);
    return st;
  }
  void MPI_Bcast(const int root, const MPI_Comm &comm) {
    int rank; MPI_Comm_rank(comm, &rank);
    std::vector<char> shell; if (rank == root) PackShellForMPI(shell);
    uint64_t n = shell.size();
    ::MPI_Bcast(&n, 1, MPI_UINT64_T, root, comm);
    shell.resize(n);
    ::MPI_Bcast(shell.data(), int(n), MPI_CHAR, root, comm);
    if (rank != root) { const char *c = shell.data(); UnpackShellForMPI(c, c + n); }
    if (!d_.empty()) ::MPI_Bcast(d_.data(), int(d_.size()), hp_numeric::GetMPIDataType<ElemT>(), root, comm);
  }

  void Show(const size_t = 0) const override {}
  void ConciseShow(const size_t = 0) const {}

  // internals shared with the free functions
  std::vector<ElemT> &Data_() { Alloc_(); return d_; }
  const std::vector<ElemT> &CData_() const { return d_; }
  void Alloc_() { if (d_.empty() && !def_) d_.assign(size(), ElemT(0)); }

 private:
  void Clear_() { def_ = true; idx_.clear(); shape_.clear(); d_.clear(); }
  void InitShape_() { shape_.clear(); for (auto &i : idx_) shape_.push_back(i.dim()); }
  size_t Off_(const std::vector<size_t> &c) const {
    if (c.size() != shape_.size()) throw ContractError("tensor element access: wrong rank");
    size_t o = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] >= shape_[i]) throw ContractError("tensor element access: out of range");
      o = o * shape_[i] + c[i];
    }
    return o;
  }
  QLTensor &Acc_(const QLTensor &o, ElemT s) {
    if (o.def_) throw ContractError("adding a default tensor");
    if (def_) { *this = o; *this *= s; return *this; }
    if (o.shape_ != shape_) throw ContractError("adding tensors of different shape");
    if (o.d_.empty()) return *this;
    Alloc_();
    for (size_t i = 0; i < d_.size(); ++i) d_[i] += s * o.d_[i];
    return *this;
  }
  bool def_ = true;
  std::vector<IndexT> idx_;
  ShapeT shape_;
  std::vector<ElemT> d_;
};

template<typename E, typename Q>
QLTensor<E, Q> operator*(const E s, const QLTensor<E, Q> &t) { return t * s; }
template<typename Q>
QLTensor<std::complex<double>, Q> operator*(const double s, const QLTensor<std::complex<double>, Q> &t) { return t * std::complex<double>(s); }
template<typename E, typename Q> QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.Dag(); return r; }
template<typename E, typename Q> Q Div(const QLTensor<E, Q> &) { return Q::Zero(); }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseMultiply(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { QLTensor<E, Q> r(a); r.ElementWiseMultiply(b); return r; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseSqrt(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.ElementWiseSqrt(); return r; }
template<typename E, typename Q> QLTensor<E, Q> ElementWiseInv(const QLTensor<E, Q> &t, double tol) { QLTensor<E, Q> r(t); r.ElementWiseInv(tol); return r; }
template<typename Q>
QLTensor<std::complex<double>, Q> ToComplex(const QLTensor<double, Q> &t) {
  QLTensor<std::complex<double>, Q> r;
  if (t.IsDefault()) return r;
  r = QLTensor<std::complex<double>, Q>(t.GetIndexes());
  if (t.GetActualDataSize()) { auto &d = r.Data_(); for (size_t i = 0; i < d.size(); ++i) d[i] = t.CData_()[i]; }
  return r;
}
template<typename Q> QLTensor<std::complex<double>, Q> ToComplex(const QLTensor<std::complex<double>, Q> &t) { return t; }

template<typename E, typename Q>
QLTensor<E, Q> Eye(const Index<Q> &idx) {
  QLTensor<E, Q> r({idx, InverseIndex(idx)});
  for (size_t i = 0; i < idx.dim(); ++i) r({i, i}) = E(1);
  return r;
}
template<typename E, typename Q>
E QuasiInnerProduct(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) {
  if (a.GetShape() != b.GetShape()) throw ContractError("QuasiInnerProduct: shape");
  E s(0);
  if (a.GetActualDataSize() == 0 || b.GetActualDataSize() == 0) return s;
  for (size_t i = 0; i < a.CData_().size(); ++i) s += Conj(a.CData_()[i]) * b.CData_()[i];
  return s;
}
template<typename E, typename Q>
void LinearCombine(const size_t n, const E *c, const std::vector<QLTensor<E, Q> *> &ts, const E beta, QLTensor<E, Q> *res) {
  if (res->IsDefault()) *res = (*ts[0]) * E(0); else *res *= beta;
  for (size_t i = 0; i < n; ++i) *res += (*ts[i]) * c[i];
}
template<typename E, typename Q>
void LinearCombine(const std::vector<E> &c, const std::vector<QLTensor<E, Q> *> &ts, const E beta, QLTensor<E, Q> *res) {
  LinearCombine(c.size(), c.data(), ts, beta, res);
}

// ---------------------------------------------------------------- contraction
template<typename A, typename B> struct PromT { using type = decltype(A() * B()); };

template<typename EA, typename EB, typename EC, typename Q>
void ContractCore_(const QLTensor<EA, Q> &a, const std::vector<size_t> &fa, const std::vector<size_t> &ca,
                   const QLTensor<EB, Q> &b, const std::vector<size_t> &fb, const std::vector<size_t> &cb,
                   QLTensor<EC, Q> &out) {
  if (a.IsDefault() || b.IsDefault()) throw ContractError("Contract: default tensor");
  if (ca.size() != cb.size()) throw ContractError("Contract: axes count");
  std::vector<Index<Q>> idx;
  size_t m = 1, n = 1, k = 1;
  for (auto i : fa) { idx.push_back(a.GetIndex(i)); m *= a.GetShape()[i]; }
  for (auto i : fb) { idx.push_back(b.GetIndex(i)); n *= b.GetShape()[i]; }
  for (size_t i = 0; i < ca.size(); ++i) {
    if (ca[i] >= a.Rank() || cb[i] >= b.Rank() || a.GetShape()[ca[i]] != b.GetShape()[cb[i]])
      throw ContractError("Contract: dimension mismatch");
    k *= a.GetShape()[ca[i]];
  }
  QLTensor<EC, Q> c(idx);
  if (a.GetActualDataSize() && b.GetActualDataSize()) {
    std::vector<size_t> pa(fa), pb(cb);
    pa.insert(pa.end(), ca.begin(), ca.end());
    pb.insert(pb.end(), fb.begin(), fb.end());
    auto ida = [](const std::vector<size_t> &p) { for (size_t i = 0; i < p.size(); ++i) if (p[i] != i) return false; return true; };
    std::vector<EA> ta; std::vector<EB> tb;
    const EA *da = a.CData_().data(); const EB *db = b.CData_().data();
    if (!ida(pa)) { ta = a.Permuted_(pa); da = ta.data(); }
    if (!ida(pb)) { tb = b.Permuted_(pb); db = tb.data(); }
    auto &dc = c.Data_();
    for (size_t i = 0; i < m; ++i)
      for (size_t l = 0; l < k; ++l) {
        const EC x = EC(da[i * k + l]);
        if (x == EC(0)) continue;
        EC *row = dc.data() + i * n; const EB *rb = db + l * n;
        for (size_t j = 0; j < n; ++j) row[j] += x * rb[j];
      }
  }
  out = std::move(c);
}
inline std::vector<size_t> FreeAxes_(size_t r, const std::vector<size_t> &c) {
  std::vector<size_t> f;
  for (size_t i = 0; i < r; ++i) if (std::find(c.begin(), c.end(), i) == c.end()) f.push_back(i);
  return f;
}
template<typename EA, typename EB, typename EC, typename Q>
void Contract(const QLTensor<EA, Q> *a, const QLTensor<EB, Q> *b, const std::vector<std::vector<size_t>> &ax, QLTensor<EC, Q> *c) {
  ContractCore_(*a, FreeAxes_(a->Rank(), ax.at(0)), ax.at(0), *b, FreeAxes_(b->Rank(), ax.at(1)), ax.at(1), *c);
}
template<typename EA, typename EB, typename EC, typename Q>
void Contract(const QLTensor<EA, Q> *a, const std::vector<size_t> &axa, const QLTensor<EB, Q> *b, const std::vector<size_t> &axb, QLTensor<EC, Q> *c) {
  ContractCore_(*a, FreeAxes_(a->Rank(), axa), axa, *b, FreeAxes_(b->Rank(), axb), axb, *c);
}
template<typename E, typename Q, bool a_tail = true, bool b_head = true>
void Contract(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b, const size_t sa, const size_t sb, const size_t n, QLTensor<E, Q> &c) {
  std::vector<size_t> ca, cb, fa, fb;
  for (size_t i = 0; i < n; ++i) { ca.push_back((sa + i) % a.Rank()); cb.push_back((sb + i) % b.Rank()); }
  for (size_t i = n; i < a.Rank(); ++i) fa.push_back((sa + i) % a.Rank());
  for (size_t i = n; i < b.Rank(); ++i) fb.push_back((sb + i) % b.Rank());
  ContractCore_(a, fa, ca, b, fb, cb, c);
}

// the same for one real and one complex operand (lambda matrices of a complex state)
template<typename E, typename Q, bool a_tail = true, bool b_head = true, typename EA, typename EB> requires (!std::is_same_v<EA, EB> && std::is_same_v<E, typename PromT<EA, EB>::type>)
void Contract(const QLTensor<EA, Q> &a, const QLTensor<EB, Q> &b, const size_t sa, const size_t sb, const size_t n, QLTensor<E, Q> &c) {
  std::vector<size_t> ca, cb, fa, fb;
  for (size_t i = 0; i < n; ++i) { ca.push_back((sa + i) % a.Rank()); cb.push_back((sb + i) % b.Rank()); }
  for (size_t i = n; i < a.Rank(); ++i) fa.push_back((sa + i) % a.Rank());
  for (size_t i = n; i < b.Rank(); ++i) fb.push_back((sb + i) % b.Rank());
  ContractCore_(a, fa, ca, b, fb, cb, c);
}

// direct-sum expansion on the listed legs
template<typename E, typename Q>
void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &ex, QLTensor<E, Q> *c) {
  std::vector<Index<Q>> idx = a->GetIndexes();
  std::vector<size_t> shift(a->Rank(), 0);
  for (auto e : ex) {
    shift[e] = a->GetShape()[e];
    idx[e] = Index<Q>({QNSector<Q>(Q::Zero(), a->GetShape()[e] + b->GetShape()[e])}, a->GetIndex(e).GetDir());
  }
  QLTensor<E, Q> r(idx);
  auto put = [&](const QLTensor<E, Q> &t, bool sh) {
    if (!t.GetActualDataSize()) return;
    std::vector<size_t> co(t.Rank(), 0);
    for (size_t k = 0; k < t.CData_().size(); ++k) {
      auto cc = co;
      if (sh) for (size_t i = 0; i < cc.size(); ++i) cc[i] += shift[i];
      r.SetElem(cc, t.CData_()[k]);
      for (size_t i = t.Rank(); i-- > 0;) { if (++co[i] < t.GetShape()[i]) break; co[i] = 0; }
    }
  };
  put(*a, false); put(*b, true);
  *c = std::move(r);
}
template<typename E, typename Q>
QLTensor<E, Q> IndexCombine(const Index<Q> &i1, const Index<Q> &i2, const TenIndexDirType dir) {
  Index<Q> f({QNSector<Q>(Q::Zero(), i1.dim() * i2.dim())}, dir);
  QLTensor<E, Q> r({i1, i2, f});
  for (size_t a = 0; a < i1.dim(); ++a) for (size_t b = 0; b < i2.dim(); ++b) r({a, b, a * i2.dim() + b}) = E(1);
  return r;
}

// ---------------------------------------------------------------- dense linear algebra
// one-sided Jacobi SVD of an m x n matrix (row-major): A = U diag(s) V^H, m >= n handled by transposing
template<typename E>
void JacobiSVD_(size_t m, size_t n, const std::vector<E> &A, std::vector<E> &U, std::vector<double> &s, std::vector<E> &Vh) {
  if (m < n) {
    std::vector<E> At(m * n), U2, V2;
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) At[j * m + i] = Conj(A[i * n + j]);
    JacobiSVD_<E>(n, m, At, U2, s, V2);      // A^H = U2 s V2h -> A = V2 s U2^H
    const size_t r = s.size();
    U.assign(m * r, E(0)); Vh.assign(r * n, E(0));
    for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < r; ++k) U[i * r + k] = Conj(V2[k * m + i]);
    for (size_t k = 0; k < r; ++k) for (size_t j = 0; j < n; ++j) Vh[k * n + j] = Conj(U2[j * r + k]);
    return;
  }
  std::vector<E> W(A), V(n * n, E(0));
  for (size_t i = 0; i < n; ++i) V[i * n + i] = E(1);
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (size_t p = 0; p + 1 < n; ++p)
      for (size_t q = p + 1; q < n; ++q) {
        double a = 0, b = 0; E g(0);
        for (size_t i = 0; i < m; ++i) {
          a += std::norm(W[i * n + p]); b += std::norm(W[i * n + q]);
          g += Conj(W[i * n + p]) * W[i * n + q];
        }
        double ag = std::abs(g);
        if (ag < 1e-290 || ag <= 1e-15 * std::sqrt(a * b)) continue;
        off = std::max(off, ag / std::sqrt(a * b));
        E ph = g * E(1.0 / ag);
        double z = (b - a) / (2 * ag);
        double t = (z >= 0 ? 1.0 : -1.0) / (std::abs(z) + std::sqrt(1 + z * z));
        double c = 1 / std::sqrt(1 + t * t), sn = c * t;
        auto rot = [&](std::vector<E> &M, size_t rows) {
          for (size_t i = 0; i < rows; ++i) {
            E x = M[i * n + p], y = M[i * n + q] * Conj(ph);
            M[i * n + p] = E(c) * x - E(sn) * y;
            M[i * n + q] = E(sn) * x + E(c) * y;
          }
        };
        rot(W, m); rot(V, n);
      }
    if (off < 1e-15) break;
  }
  std::vector<double> sv(n); std::vector<size_t> ord(n);
  for (size_t j = 0; j < n; ++j) { double x = 0; for (size_t i = 0; i < m; ++i) x += std::norm(W[i * n + j]); sv[j] = std::sqrt(x); ord[j] = j; }
  std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return sv[x] > sv[y]; });
  s.assign(n, 0); U.assign(m * n, E(0)); Vh.assign(n * n, E(0));
  const double smax = n ? sv[ord[0]] : 0;
  for (size_t k = 0; k < n; ++k) {
    const size_t j = ord[k];
    s[k] = sv[j];
    for (size_t i = 0; i < n; ++i) Vh[k * n + i] = Conj(V[i * n + j]);
    if (sv[j] > smax * 1e-150 && sv[j] > 1e-290) for (size_t i = 0; i < m; ++i) U[i * n + k] = W[i * n + j] * E(1.0 / sv[j]);
  }
  // complete zero-singular-value columns of U to an orthonormal set
  for (size_t k = 0; k < n; ++k) {
    double nn = 0; for (size_t i = 0; i < m; ++i) nn += std::norm(U[i * n + k]);
    if (nn > 0.5) continue;
    for (size_t e = 0; e < m; ++e) {
      std::vector<E> v(m, E(0)); v[e] = E(1);
      for (int rep = 0; rep < 2; ++rep)
        for (size_t l = 0; l < n; ++l) {
          E g(0); for (size_t i = 0; i < m; ++i) g += Conj(U[i * n + l]) * v[i];
          for (size_t i = 0; i < m; ++i) v[i] -= g * U[i * n + l];
        }
      double vn = 0; for (auto &x : v) vn += std::norm(x);
      if (vn > 1e-4) { for (size_t i = 0; i < m; ++i) U[i * n + k] = v[i] * E(1 / std::sqrt(vn)); break; }
    }
  }
}

template<typename E, typename Q>
void SVD(const QLTensor<E, Q> *pt, const size_t ldims, const Q &, const typename RealTypeTrait<E>::type trunc_err,
         const size_t Dmin, const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<typename RealTypeTrait<E>::type, Q> *ps,
         QLTensor<E, Q> *pvt, typename RealTypeTrait<E>::type *pact = nullptr, size_t *pD = nullptr) {
  using R = typename RealTypeTrait<E>::type;
  const auto &t = *pt;
  size_t m = 1, n = 1;
  std::vector<Index<Q>> li, ri;
  for (size_t i = 0; i < t.Rank(); ++i) if (i < ldims) { m *= t.GetShape()[i]; li.push_back(t.GetIndex(i)); } else { n *= t.GetShape()[i]; ri.push_back(t.GetIndex(i)); }
  std::vector<E> A(t.CData_()), U, Vh; std::vector<double> s;
  if (A.empty()) A.assign(m * n, E(0));
  JacobiSVD_<E>(m, n, A, U, s, Vh);
  const size_t r = s.size();
  double tot = 0; for (auto x : s) tot += x * x;
  size_t D = r;
  // drop numerically zero values unless Dmin asks for them (blocks that do not exist)
  while (D > 1 && (s[D - 1] == 0.0) && D > Dmin) --D;
  double disc = 0;
  if (D > Dmax) { for (size_t k = Dmax; k < D; ++k) disc += s[k] * s[k]; D = Dmax; }
  while (D > std::max<size_t>(Dmin, 1)) {
    double nd = disc + s[D - 1] * s[D - 1];
    if (tot > 0 && nd / tot <= trunc_err && trunc_err > 0) { disc = nd; --D; } else break;
  }
  if (D == 0) D = 1;
  Index<Q> so({QNSector<Q>(Q::Zero(), D)}, OUT), si({QNSector<Q>(Q::Zero(), D)}, IN);
  auto ui = li; ui.push_back(so);
  std::vector<Index<Q>> vi{si}; vi.insert(vi.end(), ri.begin(), ri.end());
  QLTensor<E, Q> u(ui), vt(vi); QLTensor<R, Q> st({si, so});
  auto &du = u.Data_(); auto &dv = vt.Data_();
  for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < D; ++k) du[i * D + k] = U[i * r + k];
  for (size_t k = 0; k < D; ++k) for (size_t j = 0; j < n; ++j) dv[k * n + j] = Vh[k * n + j];
  st.Data_();
  for (size_t k = 0; k < D; ++k) st({k, k}) = R(s[k]);
  if (pact) *pact = R(tot > 0 ? disc / tot : 0);
  if (pD) *pD = D;
  *pu = std::move(u); *ps = std::move(st); *pvt = std::move(vt);
}
template<typename E, typename Q>
void SVD(const QLTensor<E, Q> *pt, const size_t ldims, const Q &q, QLTensor<E, Q> *pu,
         QLTensor<typename RealTypeTrait<E>::type, Q> *ps, QLTensor<E, Q> *pvt) {
  using R = typename RealTypeTrait<E>::type;
  size_t D; R e;
  SVD(pt, ldims, q, R(0), size_t(1), std::numeric_limits<size_t>::max(), pu, ps, pvt, &e, &D);
}
template<typename E, typename Q>
void QR(const QLTensor<E, Q> *pt, const size_t ldims, const Q &, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  const auto &t = *pt;
  size_t m = 1, n = 1;
  std::vector<Index<Q>> li, ri;
  for (size_t i = 0; i < t.Rank(); ++i) if (i < ldims) { m *= t.GetShape()[i]; li.push_back(t.GetIndex(i)); } else { n *= t.GetShape()[i]; ri.push_back(t.GetIndex(i)); }
  const size_t k = std::min(m, n);
  std::vector<E> A(t.CData_());
  if (A.empty()) A.assign(m * n, E(0));
  std::vector<std::vector<E>> q;
  for (size_t j = 0; j < n && q.size() < k; ++j) {   // Gram-Schmidt with reorthogonalisation
    std::vector<E> v(m); double n0 = 0, nv = 0;
    for (size_t i = 0; i < m; ++i) { v[i] = A[i * n + j]; n0 += std::norm(v[i]); }
    for (int rep = 0; rep < 3; ++rep)
      for (auto &w : q) { E g(0); for (size_t i = 0; i < m; ++i) g += Conj(w[i]) * v[i]; for (size_t i = 0; i < m; ++i) v[i] -= g * w[i]; }
    for (auto &x : v) nv += std::norm(x);
    if (nv > n0 * 1e-28 && nv > 0) { for (auto &x : v) x *= E(1 / std::sqrt(nv)); q.push_back(v); }
  }
  for (size_t e = 0; e < m && q.size() < k; ++e) {
    std::vector<E> v(m, E(0)); v[e] = E(1); double nv = 0;
    for (int rep = 0; rep < 3; ++rep)
      for (auto &w : q) { E g(0); for (size_t i = 0; i < m; ++i) g += Conj(w[i]) * v[i]; for (size_t i = 0; i < m; ++i) v[i] -= g * w[i]; }
    for (auto &x : v) nv += std::norm(x);
    if (nv > 1e-4) { for (auto &x : v) x *= E(1 / std::sqrt(nv)); q.push_back(v); }
  }
  const size_t D = q.size();
  auto ui = li; ui.push_back(Index<Q>({QNSector<Q>(Q::Zero(), D)}, OUT));
  std::vector<Index<Q>> vi{Index<Q>({QNSector<Q>(Q::Zero(), D)}, IN)}; vi.insert(vi.end(), ri.begin(), ri.end());
  QLTensor<E, Q> qt(ui), rt(vi);
  auto &dq = qt.Data_(); auto &dr = rt.Data_();
  for (size_t i = 0; i < m; ++i) for (size_t c = 0; c < D; ++c) dq[i * D + c] = q[c][i];
  for (size_t c = 0; c < D; ++c) for (size_t j = 0; j < n; ++j) { E g(0); for (size_t i = 0; i < m; ++i) g += Conj(q[c][i]) * A[i * n + j]; dr[c * n + j] = g; }
  *pq = std::move(qt); *pr = std::move(rt);
}
template<typename E, typename Q>
void LQ(const QLTensor<E, Q> *pt, const size_t rdims, const Q &qn, QLTensor<E, Q> *pl, QLTensor<E, Q> *pq) {
  // A = L Q  <=>  A^H = Q^H L^H
  QLTensor<E, Q> t(*pt);
  const size_t r = t.Rank(), ld = r - rdims;
  std::vector<size_t> ax;
  for (size_t i = ld; i < r; ++i) ax.push_back(i);
  for (size_t i = 0; i < ld; ++i) ax.push_back(i);
  t.Transpose(ax); t.Dag();
  QLTensor<E, Q> q, rr;
  QR(&t, rdims, qn, &q, &rr);
  q.Dag(); rr.Dag();
  std::vector<size_t> aq{rdims}; for (size_t i = 0; i < rdims; ++i) aq.push_back(i);
  q.Transpose(aq);
  std::vector<size_t> al; for (size_t i = 1; i <= ld; ++i) al.push_back(i); al.push_back(0);
  rr.Transpose(al);
  // give the new bond the usual OUT (left factor) / IN (right factor) orientation
  auto fix = [](QLTensor<E, Q> &x, size_t leg, TenIndexDirType d) {
    auto idx = x.GetIndexes();
    idx[leg] = Index<Q>({QNSector<Q>(Q::Zero(), idx[leg].dim())}, d);
    QLTensor<E, Q> y(idx); y.Data_() = x.CData_(); x = std::move(y);
  };
  fix(rr, ld, OUT); fix(q, 0, IN);
  *pl = std::move(rr); *pq = std::move(q);
}
template<typename R, typename Q>
QLTensor<R, Q> DiagMatInv(const QLTensor<R, Q> &t, const double tol = 0.0) {
  QLTensor<R, Q> r({InverseIndex(t.GetIndex(1)), InverseIndex(t.GetIndex(0))});
  r.Data_();
  for (size_t i = 0; i < t.GetShape()[0]; ++i) { R x = t.GetElem({i, i}); r({i, i}) = std::abs(x) > tol ? R(1) / x : R(0); }
  return r;
}
template<typename E>
void JacobiEVD_(size_t n, std::vector<E> &A, std::vector<double> &w, std::vector<E> &V) {   // row-major Hermitian, A = V w V^H
  V.assign(n * n, E(0)); for (size_t i = 0; i < n; ++i) V[i * n + i] = E(1);
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, dg = 0;
    for (size_t i = 0; i < n; ++i) { dg += std::norm(A[i * n + i]); for (size_t j = 0; j < n; ++j) if (i != j) off += std::norm(A[i * n + j]); }
    if (!(off > 1e-30 * (dg + off))) break;
    for (size_t p = 0; p + 1 < n; ++p)
      for (size_t q = p + 1; q < n; ++q) {
        double ag = std::abs(A[p * n + q]);
        if (ag == 0) continue;
        E ph = A[p * n + q] * E(1 / ag);
        double a = std::real(A[p * n + p]), b = std::real(A[q * n + q]);
        double z = (b - a) / (2 * ag), t = (z >= 0 ? 1.0 : -1.0) / (std::abs(z) + std::sqrt(1 + z * z));
        double c = 1 / std::sqrt(1 + t * t), s = c * t;
        for (size_t i = 0; i < n; ++i) { E x = A[i * n + p], y = A[i * n + q] * Conj(ph); A[i * n + p] = E(c) * x - E(s) * y; A[i * n + q] = E(s) * x + E(c) * y; }
        for (size_t i = 0; i < n; ++i) { E x = A[p * n + i], y = A[q * n + i] * ph; A[p * n + i] = E(c) * x - E(s) * y; A[q * n + i] = E(s) * x + E(c) * y; }
        for (size_t i = 0; i < n; ++i) { E x = V[i * n + p], y = V[i * n + q] * Conj(ph); V[i * n + p] = E(c) * x - E(s) * y; V[i * n + q] = E(s) * x + E(c) * y; }
      }
  }
  std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return std::real(A[x * n + x]) < std::real(A[y * n + y]); });
  w.resize(n); std::vector<E> V2(n * n);
  for (size_t k = 0; k < n; ++k) { w[k] = std::real(A[o[k] * n + o[k]]); for (size_t i = 0; i < n; ++i) V2[i * n + k] = V[i * n + o[k]]; }
  V = std::move(V2);
}
template<typename E, typename Q>
void SymMatEVD(const QLTensor<E, Q> *pt, QLTensor<E, Q> *pu, QLTensor<typename RealTypeTrait<E>::type, Q> *pd) {
  using R = typename RealTypeTrait<E>::type;
  const size_t n = pt->GetShape()[0];
  std::vector<E> A(pt->CData_()), V; std::vector<double> w;
  if (A.empty()) A.assign(n * n, E(0));
  JacobiEVD_<E>(n, A, w, V);
  Index<Q> o({QNSector<Q>(Q::Zero(), n)}, OUT), i({QNSector<Q>(Q::Zero(), n)}, IN);
  QLTensor<E, Q> u({pt->GetIndex(0), o}); QLTensor<R, Q> d({i, o});
  u.Data_() = V; d.Data_();
  for (size_t k = 0; k < n; ++k) d({k, k}) = R(w[k]);
  *pu = std::move(u); *pd = std::move(d);
}

namespace hp_numeric {
inline void SetTensorManipulationThreads(unsigned) {}
inline unsigned GetTensorManipulationThreads() { return 1; }
inline void SetTensorTransposeNumThreads(unsigned) {}
template<typename E> void VectorCopy(const E *s, size_t n, E *d) { std::copy(s, s + n, d); }
}
}  // namespace qlten
#endif
