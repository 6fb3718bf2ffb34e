// Shared by the harnesses: state builders and brute-force reference computations.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "sim.h"
#include "qlten/qlten.h"
#include "qlpeps/qlpeps.h"
#include <cmath>
#include <complex>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

extern "C" char __data_start, _end;

namespace hx {
using namespace qlpeps;
using qlten::QLTensor;
using qlten::Index;
using QNT = qlten::special_qn::TrivialRepQN;
using Z = std::complex<double>;
template<typename E> using Ten = QLTensor<E, QNT>;
template<typename E> using SITPS = SplitIndexTPS<E, QNT>;

inline Index<QNT> leg(size_t d, qlten::TenIndexDirType t) { return Index<QNT>({qlten::QNSector<QNT>(QNT(), d)}, t); }

template<typename E> inline E rnd(sim::SplitMix &g, double lo, double hi);
template<> inline double rnd<double>(sim::SplitMix &g, double lo, double hi) { return lo + (hi - lo) * g.uni(); }
template<> inline Z rnd<Z>(sim::SplitMix &g, double lo, double hi) { double a = lo + (hi - lo) * g.uni(); return Z(a, 0.6 * g.sym()); }

// Random split-index TPS; elements in [lo,hi] so amplitudes stay of order one.
template<typename E>
SITPS<E> make_state(size_t Ly, size_t Lx, size_t phys, size_t D, uint64_t seed, double lo = 0.2, double hi = 1.0,
                    BoundaryCondition bc = BoundaryCondition::Open) {
  sim::SplitMix g(seed);
  SITPS<E> s(Ly, Lx, phys, bc);
  const bool pbc = bc == BoundaryCondition::Periodic;
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) {
    size_t l = (c == 0 && !pbc) ? 1 : D, rt = (c + 1 == Lx && !pbc) ? 1 : D, u = (r == 0 && !pbc) ? 1 : D, d = (r + 1 == Ly && !pbc) ? 1 : D;
    for (size_t k = 0; k < phys; ++k) {
      Ten<E> t({leg(l, qlten::IN), leg(d, qlten::OUT), leg(rt, qlten::OUT), leg(u, qlten::IN)});
      t.Fill(QNT(), E(0));
      for (size_t a = 0; a < l; ++a) for (size_t b = 0; b < d; ++b) for (size_t e = 0; e < rt; ++e) for (size_t f = 0; f < u; ++f)
        t.SetElem({a, b, e, f}, rnd<E>(g, lo, hi));
      s({r, c})[k] = t;
    }
  }
  return s;
}

// Exact amplitude <config|state> by site-by-site contraction with a boundary vector over the open legs;
// independent of the library's contractors.  Works for open boundaries.
template<typename E>
Z amp_obc(const SITPS<E> &s, const std::vector<size_t> &cfg) {
  const size_t Ly = s.rows(), Lx = s.cols();
  // state: map from (vertical legs v_0..v_{Lx-1}, horizontal leg h) to value, mixed radix
  std::vector<size_t> vd(Lx, 1); size_t hd = 1;
  std::vector<Z> cur(1, Z(1));
  for (size_t r = 0; r < Ly; ++r) {
    for (size_t c = 0; c < Lx; ++c) {
      const Ten<E> &t = s({r, c})[cfg[r * Lx + c]];
      const auto sh = t.GetShape();   // l d r u
      size_t pre = 1, post = 1;
      for (size_t i = 0; i < c; ++i) pre *= vd[i];
      for (size_t i = c + 1; i < Lx; ++i) post *= vd[i];
      std::vector<Z> nx(pre * sh[1] * post * sh[2], Z(0));
      for (size_t p = 0; p < pre; ++p) for (size_t q = 0; q < post; ++q) for (size_t u = 0; u < sh[3]; ++u) for (size_t h = 0; h < sh[0]; ++h) {
        Z x = cur[((p * vd[c] + u) * post + q) * hd + h];
        if (x == Z(0)) continue;
        for (size_t d = 0; d < sh[1]; ++d) for (size_t k = 0; k < sh[2]; ++k)
          nx[((p * sh[1] + d) * post + q) * sh[2] + k] += x * Z(t.GetElem({h, d, k, u}));
      }
      vd[c] = sh[1]; hd = sh[2]; cur.swap(nx);
    }
  }
  return cur.at(0);
}
// Any boundary condition: sum over all bond values by brute force over vertical/horizontal legs (tiny lattices only).
template<typename E>
Z amp_any(const SITPS<E> &s, const std::vector<size_t> &cfg) {
  if (s.GetBoundaryCondition() == BoundaryCondition::Open) return amp_obc(s, cfg);
  const size_t Ly = s.rows(), Lx = s.cols();
  // wrap legs: top vertical legs w_c (c<Lx) and, per row, left leg g_r
  const auto sh0 = s({0, 0})[0].GetShape(); const size_t D = sh0[0];
  size_t nv = 1; for (size_t c = 0; c < Lx; ++c) nv *= D;
  Z total(0); std::vector<std::vector<Z>> flatT(Ly * Lx);
  for (size_t i = 0; i < Ly * Lx; ++i) { const Ten<E> &t = s({i / Lx, i % Lx})[cfg[i]]; auto &f = flatT[i]; f.reserve(D * D * D * D); for (size_t h = 0; h < D; ++h) for (size_t u = 0; u < D; ++u) for (size_t d = 0; d < D; ++d) for (size_t k = 0; k < D; ++k) f.push_back(Z(t.GetElem({h, d, k, u}))); }
  for (size_t w = 0; w < nv; ++w) {
    std::vector<Z> cur(nv, Z(0)); cur[w] = Z(1);       // index over vertical legs, c = 0 most significant
    for (size_t r = 0; r < Ly; ++r) {
      std::vector<Z> row(nv, Z(0));
      for (size_t g = 0; g < D; ++g) {
        std::vector<Z> st(nv * D, Z(0));
        for (size_t i = 0; i < nv; ++i) st[i * D + g] = cur[i];
        size_t post = nv;
        for (size_t c = 0; c < Lx; ++c) {
          post /= D; size_t pre = nv / (post * D);
          const Z *t = flatT[r * Lx + c].data();
          std::vector<Z> nx(nv * D, Z(0));
          for (size_t p = 0; p < pre; ++p) for (size_t q = 0; q < post; ++q) for (size_t u = 0; u < D; ++u) for (size_t h = 0; h < D; ++h) {
            Z x = st[((p * D + u) * post + q) * D + h];
            if (x == Z(0)) continue;
            for (size_t d = 0; d < D; ++d) for (size_t k = 0; k < D; ++k) nx[((p * D + d) * post + q) * D + k] += x * t[((h * D + u) * D + d) * D + k];
          }
          st.swap(nx);
        }
        for (size_t i = 0; i < nv; ++i) row[i] += st[i * D + g];
      }
      cur.swap(row);
    }
    total += cur[w];
  }
  return total;
}

// Side of a periodic lattice the library's contractor supports, and a bond dimension that is affordable there.
inline void torus(size_t &L, size_t &D, bool large = true) {
  const size_t ls[] = {2, 2, 3, 3, 4}; L = ls[sim::draw("side", 0, large ? 4 : 3)]; D = size_t(sim::draw("D", 1, 2)); if (L == 4) D = 1; sim::tag(sim::fmt("torus%zu_D%zu", L, D));
}
inline std::vector<size_t> flat(const Configuration &c) {
  std::vector<size_t> v;
  for (size_t r = 0; r < c.rows(); ++r) for (size_t k = 0; k < c.cols(); ++k) v.push_back(c({r, k}));
  return v;
}
inline Configuration conf(size_t Ly, size_t Lx, const std::vector<size_t> &v) {
  Configuration c(Ly, Lx);
  for (size_t r = 0; r < Ly; ++r) for (size_t k = 0; k < Lx; ++k) c({r, k}) = v[r * Lx + k];
  return c;
}
// all configurations of n sites with local dimension d; optionally a fixed sum
inline std::vector<std::vector<size_t>> all_configs(size_t n, size_t d, long sum = -1) {
  std::vector<std::vector<size_t>> out; std::vector<size_t> c(n, 0);
  while (true) {
    long s = 0; for (auto x : c) s += long(x);
    if (sum < 0 || s == sum) out.push_back(c);
    size_t i = n; while (i > 0) { if (++c[i - 1] < d) break; c[--i] = 0; }
    if (i == 0) break;
  }
  return out;
}
template<typename E> std::vector<E> elems(const SITPS<E> &s) {
  std::vector<E> v;
  for (size_t r = 0; r < s.rows(); ++r) for (size_t c = 0; c < s.cols(); ++c) for (size_t k = 0; k < s({r, c}).size(); ++k) {
    const auto &t = s({r, c})[k];
    if (t.IsDefault()) continue;
    for (auto &x : qlten::GenAllCoors(t.GetShape())) v.push_back(t.GetElem(x));
  }
  return v;
}
template<typename E> uint64_t hash_state(const SITPS<E> &s) {
  auto v = elems(s); uint64_t h = v.size();
  h = sim::mix(h, s.rows() * 1000 + s.cols()); h = sim::mix(h, uint64_t(s.GetBoundaryCondition()));
  if (!v.empty()) h = sim::mix(h, sim::hash_bytes(v.data(), v.size() * sizeof(E)));
  return h;
}
template<typename E> bool same_state(const SITPS<E> &a, const SITPS<E> &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || a.GetBoundaryCondition() != b.GetBoundaryCondition()) return false;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) {
    if (a({r, c}).size() != b({r, c}).size()) return false;
    for (size_t k = 0; k < a({r, c}).size(); ++k) {
      const auto &x = a({r, c})[k], &y = b({r, c})[k];
      if (x.IsDefault() != y.IsDefault()) return false;
      if (x.IsDefault()) continue;
      if (x.GetShape() != y.GetShape()) return false;
      for (auto &q : qlten::GenAllCoors(x.GetShape())) { E p = x.GetElem(q), z = y.GetElem(q); if (std::memcmp(&p, &z, sizeof(E)) != 0) return false; }
    }
  }
  return true;
}
// copy without touching library copy code paths (driver side bookkeeping)
template<typename E> double max_diff(const SITPS<E> &a, const SITPS<E> &b) {
  auto x = elems(a), y = elems(b);
  if (x.size() != y.size()) return 1e300;
  double m = 0;
  for (size_t i = 0; i < x.size(); ++i) { double d = std::abs(x[i] - y[i]); if (!(d <= m)) m = std::isnan(d) ? 1e300 : d; }
  return m;
}
inline bool near(Z a, Z b, double tol) { return std::abs(a - b) <= tol * (1.0 + std::abs(a) + std::abs(b)); }
inline std::string zs(Z a) { return sim::fmt("(%.12g,%.12g)", a.real(), a.imag()); }
}  // namespace hx

#define HARNESS_MAIN int main(int argc, char **argv) { return sim::sim_main(argc, argv, &__data_start, &_end); }
#endif
