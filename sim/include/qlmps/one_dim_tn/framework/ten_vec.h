#ifndef SIM_QLMPS_TENVEC_H
#define SIM_QLMPS_TENVEC_H
#include <vector>
#include "qlmps/utilities.h"
namespace qlmps {
template<typename E>
class DuoVector {
 public:
  DuoVector() = default;
  DuoVector(const size_t n) : v_(n, nullptr) {}
  DuoVector(const DuoVector &o) : v_(o.v_.size(), nullptr) { for (size_t i = 0; i < v_.size(); ++i) if (o.v_[i]) v_[i] = new E(*o.v_[i]); }
  DuoVector(DuoVector &&o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); }
  DuoVector &operator=(const DuoVector &o) {
    if (this == &o) return *this;
    Free_(); v_.assign(o.v_.size(), nullptr);
    for (size_t i = 0; i < v_.size(); ++i) if (o.v_[i]) v_[i] = new E(*o.v_[i]);
    return *this;
  }
  DuoVector &operator=(DuoVector &&o) noexcept { if (this != &o) { Free_(); v_ = std::move(o.v_); o.v_.clear(); } return *this; }
  virtual ~DuoVector() { Free_(); }
  E &operator[](const size_t i) { if (!v_[i]) v_[i] = new E; return *v_[i]; }
  const E &operator[](const size_t i) const { return *v_[i]; }
  E *&operator()(const size_t i) { return v_[i]; }
  const E *operator()(const size_t i) const { return v_[i]; }
  void alloc(const size_t i) { delete v_[i]; v_[i] = new E; }
  void dealloc(const size_t i) { delete v_[i]; v_[i] = nullptr; }
  void dealloc_all() { for (size_t i = 0; i < v_.size(); ++i) dealloc(i); }
  size_t size() const { return v_.size(); }
  bool empty() const { for (auto p : v_) if (p) return false; return true; }
  E &front() { return *v_.front(); }
  const E &front() const { return *v_.front(); }
  E &back() { return *v_.back(); }
  const E &back() const { return *v_.back(); }
 private:
  void Free_() { for (auto &p : v_) { delete p; p = nullptr; } }
  std::vector<E *> v_;
};
template<typename T>
class TenVec : public DuoVector<T> {
 public:
  using DuoVector<T>::DuoVector;
  TenVec(const size_t n) : DuoVector<T>(n) {}
};
}
#endif
