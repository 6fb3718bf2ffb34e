// Stand-in for the BLAS/LAPACK backend: only the LAPACKE calls PEPS makes.
#ifndef SIM_QLTEN_BACKEND_H
#define SIM_QLTEN_BACKEND_H
#include <complex>
#include <vector>
#include "qlten/qlten.h"
typedef int lapack_int;
#define lapack_complex_double std::complex<double>
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
inline lapack_int LAPACKE_dsyev(int layout, char jobz, char uplo, lapack_int n, double *a, lapack_int lda, double *w) {
  std::vector<double> A(size_t(n) * n), V, W;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    bool up = (uplo == 'U' || uplo == 'u');
    int r = i, c = j; if (up ? (r > c) : (r < c)) std::swap(r, c);
    A[size_t(i) * n + j] = layout == LAPACK_ROW_MAJOR ? a[size_t(r) * lda + c] : a[size_t(c) * lda + r];
  }
  for (double x : A) if (!(x == x)) return -5;
  qlten::JacobiEVD_<double>(size_t(n), A, W, V);
  for (int k = 0; k < n; ++k) w[k] = W[k];
  if (jobz == 'V' || jobz == 'v') for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k)
    (layout == LAPACK_ROW_MAJOR ? a[size_t(i) * lda + k] : a[size_t(k) * lda + i]) = V[size_t(i) * n + k];
  return 0;
}
inline lapack_int LAPACKE_zheev(int layout, char jobz, char uplo, lapack_int n, std::complex<double> *a, lapack_int lda, double *w) {
  using C = std::complex<double>;
  std::vector<C> A(size_t(n) * n), V; std::vector<double> W;
  bool up = (uplo == 'U' || uplo == 'u');
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    int r = i, c = j; bool cj = false; if (up ? (r > c) : (r < c)) { std::swap(r, c); cj = true; }
    C v = layout == LAPACK_ROW_MAJOR ? a[size_t(r) * lda + c] : a[size_t(c) * lda + r];
    A[size_t(i) * n + j] = cj ? std::conj(v) : (i == j ? C(v.real()) : v);
  }
  for (C x : A) if (!(x == x)) return -5;
  qlten::JacobiEVD_<C>(size_t(n), A, W, V);
  for (int k = 0; k < n; ++k) w[k] = W[k];
  if (jobz == 'V' || jobz == 'v') for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k)
    (layout == LAPACK_ROW_MAJOR ? a[size_t(i) * lda + k] : a[size_t(k) * lda + i]) = V[size_t(i) * n + k];
  return 0;
}
// General eigenproblem (row major, right eigenvectors only): Hessenberg by Householder, shifted complex QR with Givens rotations, back substitution.
inline bool GeevSim_(size_t n, std::vector<std::complex<double>> &A, std::vector<std::complex<double>> &V) {
  using C = std::complex<double>; V.assign(n * n, C(0)); for (size_t i = 0; i < n; ++i) V[i * n + i] = C(1); auto a = [&](size_t i, size_t j) -> C & { return A[i * n + j]; }; auto q = [&](size_t i, size_t j) -> C & { return V[i * n + j]; };
  for (size_t k = 0; k + 2 < n; ++k) {
    double s = 0; for (size_t i = k + 2; i < n; ++i) s += std::norm(a(i, k)); if (s == 0) continue; double nx = std::sqrt(s + std::norm(a(k + 1, k))); C al = a(k + 1, k); C ph = std::abs(al) > 0 ? al / std::abs(al) : C(1);
    std::vector<C> v(n, C(0)); for (size_t i = k + 1; i < n; ++i) v[i] = a(i, k); v[k + 1] += ph * nx; double vv = 0; for (auto &x : v) vv += std::norm(x); if (vv == 0) continue;
    for (size_t j = 0; j < n; ++j) { C d(0); for (size_t i = k + 1; i < n; ++i) d += std::conj(v[i]) * a(i, j); d *= 2.0 / vv; for (size_t i = k + 1; i < n; ++i) a(i, j) -= v[i] * d; }
    for (size_t i = 0; i < n; ++i) { C d(0), e(0); for (size_t j = k + 1; j < n; ++j) { d += a(i, j) * v[j]; e += q(i, j) * v[j]; } d *= 2.0 / vv; e *= 2.0 / vv; for (size_t j = k + 1; j < n; ++j) { a(i, j) -= d * std::conj(v[j]); q(i, j) -= e * std::conj(v[j]); } }
  }
  double nrm = 0; for (auto &x : A) nrm += std::norm(x); nrm = std::sqrt(nrm); if (!(nrm == nrm) || nrm > 1e300) return false;
  size_t hi = n; int it = 0;
  while (hi > 1) {
    size_t lo = hi - 1; while (lo > 0) { double s = std::abs(a(lo, lo)) + std::abs(a(lo - 1, lo - 1)); if (s == 0) s = nrm; if (std::abs(a(lo, lo - 1)) <= 2.3e-16 * s || std::abs(a(lo, lo - 1)) < 1e-300) { a(lo, lo - 1) = 0; break; } --lo; }
    if (lo == hi - 1) { --hi; it = 0; continue; }
    if (++it > 300) return false;
    C p = a(hi - 2, hi - 2), r = a(hi - 2, hi - 1), t = a(hi - 1, hi - 2), u = a(hi - 1, hi - 1), tr = p + u, de = std::sqrt((p - u) * (p - u) * 0.25 + r * t), m1 = tr * 0.5 + de, m2 = tr * 0.5 - de, mu = std::abs(m1 - u) < std::abs(m2 - u) ? m1 : m2; if (it % 20 == 0) mu += C(std::abs(t), 0);
    std::vector<std::pair<C, C>> g; for (size_t i = lo; i < hi; ++i) a(i, i) -= mu;
    for (size_t i = lo; i + 1 < hi; ++i) { C x = a(i, i), y = a(i + 1, i); double h = std::hypot(std::abs(x), std::abs(y)); C c = h > 0 ? x / h : C(1), s = h > 0 ? y / h : C(0); g.push_back({c, s}); for (size_t j = i; j < n; ++j) { C e = a(i, j), f = a(i + 1, j); a(i, j) = std::conj(c) * e + std::conj(s) * f; a(i + 1, j) = -s * e + c * f; } }
    for (size_t i = lo; i + 1 < hi; ++i) { auto [c, s] = g[i - lo]; for (size_t j = 0; j < std::min(i + 2, hi); ++j) { C e = a(j, i), f = a(j, i + 1); a(j, i) = e * c + f * s; a(j, i + 1) = -e * std::conj(s) + f * std::conj(c); } for (size_t j = 0; j < n; ++j) { C e = q(j, i), f = q(j, i + 1); q(j, i) = e * c + f * s; q(j, i + 1) = -e * std::conj(s) + f * std::conj(c); } }
    for (size_t i = lo; i < hi; ++i) a(i, i) += mu;
  }
  std::vector<C> out(n * n, C(0));
  for (size_t k = 0; k < n; ++k) {
    std::vector<C> y(n, C(0)); y[k] = 1; for (size_t i = k; i-- > 0;) { C s(0); for (size_t j = i + 1; j <= k; ++j) s += a(i, j) * y[j]; C d = a(i, i) - a(k, k); if (std::abs(d) < 2.3e-16 * nrm) d = C(2.3e-16 * nrm); y[i] = -s / d; }
    double m = 0; std::vector<C> x(n, C(0)); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j <= k; ++j) x[i] += q(i, j) * y[j]; m += std::norm(x[i]); } m = std::sqrt(m); for (size_t i = 0; i < n; ++i) out[i * n + k] = x[i] / m;
  }
  V.swap(out); return true;
}
inline lapack_int LAPACKE_zgeev(int, char, char, lapack_int n, std::complex<double> *a, lapack_int lda, std::complex<double> *w, std::complex<double> *, lapack_int, std::complex<double> *vr, lapack_int ldvr) {
  std::vector<std::complex<double>> A(size_t(n) * n), V; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[size_t(i) * n + j] = a[size_t(i) * lda + j];
  if (!GeevSim_(size_t(n), A, V)) return 1; for (int i = 0; i < n; ++i) { w[i] = A[size_t(i) * n + i]; for (int j = 0; j < n; ++j) vr[size_t(i) * ldvr + j] = V[size_t(i) * n + j]; } return 0;
}
inline lapack_int LAPACKE_dgeev(int, char, char, lapack_int n, double *a, lapack_int lda, double *wr, double *wi, double *, lapack_int, double *vr, lapack_int ldvr) {
  std::vector<std::complex<double>> A(size_t(n) * n), V; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[size_t(i) * n + j] = a[size_t(i) * lda + j];
  if (!GeevSim_(size_t(n), A, V)) return 1; double m = 0; for (int i = 0; i < n; ++i) m = std::max(m, std::abs(A[size_t(i) * n + i]));
  for (int k = 0; k < n; ++k) {          // a real eigenvalue has a real eigenvector: turn its largest entry real
    wr[k] = A[size_t(k) * n + k].real(); wi[k] = A[size_t(k) * n + k].imag(); int b = 0; for (int i = 0; i < n; ++i) if (std::abs(V[size_t(i) * n + k]) > std::abs(V[size_t(b) * n + k])) b = i;
    std::complex<double> ph = V[size_t(b) * n + k]; ph = std::conj(ph) / std::abs(ph); double im = 0; for (int i = 0; i < n; ++i) im = std::max(im, std::abs((V[size_t(i) * n + k] * ph).imag())); if (std::abs(wi[k]) < 1e-13 * m && im < 1e-6) wi[k] = 0; for (int i = 0; i < n; ++i) vr[size_t(i) * ldvr + k] = (V[size_t(i) * n + k] * ph).real();
  }
  return 0;
}
#endif
