#pragma once
// Reference Hamiltonians written from the documented formulas, evaluated by brute force.
#ifndef HARNESS_MODELS_H
#define HARNESS_MODELS_H
#include "common.h"
#include <map>
#include <mutex>
namespace hx {
struct RefH {
  struct Bond { size_t a, b; double jz, jxy; };      // jz Sz Sz + jxy (SxSx + SySy), S = 1/2
  std::vector<Bond> bonds;
  std::vector<double> sx;                            // coefficient of sigma^x per site
  std::vector<double> sz;                            // coefficient of S^z per site
  double diag(const std::vector<size_t> &c) const {
    double e = 0;
    for (auto &b : bonds) e += b.jz * (double(c[b.a]) - 0.5) * (double(c[b.b]) - 0.5);
    for (size_t i = 0; i < sz.size(); ++i) e += sz[i] * (double(c[i]) - 0.5);
    return e;
  }
  template<typename F> void off(const std::vector<size_t> &c, F f) const {
    std::vector<size_t> d(c);
    for (auto &b : bonds) if (c[b.a] != c[b.b] && b.jxy != 0) { std::swap(d[b.a], d[b.b]); f(d, 0.5 * b.jxy); std::swap(d[b.a], d[b.b]); }
    for (size_t i = 0; i < sx.size(); ++i) if (sx[i] != 0) { d[i] = 1 - d[i]; f(d, sx[i]); d[i] = 1 - d[i]; }
  }
};
enum class Lat { NN, NNN, TRI, TRIJ1J2 };
inline RefH ref_xxz(size_t Ly, size_t Lx, bool pbc, double jz, double jxy, double jz2, double jxy2, double pin) {
  RefH h; auto id = [&](size_t r, size_t c) { return (r % Ly) * Lx + c % Lx; };
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) {
    if (pbc || c + 1 < Lx) h.bonds.push_back({id(r, c), id(r, c + 1), jz, jxy});
    if (pbc || r + 1 < Ly) h.bonds.push_back({id(r, c), id(r + 1, c), jz, jxy});
    if (jz2 != 0 || jxy2 != 0) {
      if (pbc || (r + 1 < Ly && c + 1 < Lx)) h.bonds.push_back({id(r, c), id(r + 1, c + 1), jz2, jxy2});
      if (pbc || (r + 1 < Ly && c + 1 < Lx)) h.bonds.push_back({id(r + 1, c), id(r, c + 1), jz2, jxy2});
    }
  }
  h.sz.assign(Ly * Lx, 0); h.sz[0] = -pin;
  return h;
}
inline RefH ref_tfim(size_t Ly, size_t Lx, bool pbc, double hx_) {   // -sigma^z sigma^z - h sigma^x
  RefH h = ref_xxz(Ly, Lx, pbc, -4.0, 0, 0, 0, 0);
  h.sx.assign(Ly * Lx, -hx_);
  return h;
}
inline RefH ref_tri(size_t Ly, size_t Lx, double j2) {
  RefH h; auto id = [&](size_t r, size_t c) { return r * Lx + c; };
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) {
    if (c + 1 < Lx) h.bonds.push_back({id(r, c), id(r, c + 1), 1, 1});
    if (r + 1 < Ly) h.bonds.push_back({id(r, c), id(r + 1, c), 1, 1});
    if (c + 1 < Lx && r + 1 < Ly) h.bonds.push_back({id(r + 1, c), id(r, c + 1), 1, 1});
    if (j2 != 0) {
      if (c + 1 < Lx && r + 1 < Ly) h.bonds.push_back({id(r, c), id(r + 1, c + 1), j2, j2});
      if (c + 1 < Lx && r + 2 < Ly) h.bonds.push_back({id(r + 2, c), id(r, c + 1), j2, j2});
      if (c + 2 < Lx && r + 1 < Ly) h.bonds.push_back({id(r + 1, c), id(r, c + 2), j2, j2});
    }
  }
  return h;
}

// Amplitudes, local energies and log-derivatives of one state, memoised per configuration.
template<typename E>
struct RefState {
  const SITPS<E> *s; const RefH *h; size_t Ly, Lx;
  std::map<std::vector<size_t>, Z> amps;
  std::map<std::vector<size_t>, std::vector<Z>> ostars;
  RefState(const SITPS<E> &st, const RefH &ham) : s(&st), h(&ham), Ly(st.rows()), Lx(st.cols()) {}
  Z amp(const std::vector<size_t> &c) { auto it = amps.find(c); if (it != amps.end()) return it->second; return amps[c] = amp_any(*s, c); }
  // library convention: sum_S' <S|H|S'> conj(psi(S')/psi(S))
  Z eloc(const std::vector<size_t> &c) {
    Z p = amp(c), e = h->diag(c);
    h->off(c, [&](const std::vector<size_t> &d, double w) { e += w * std::conj(amp(d) / p); });
    return e;
  }
  // d psi / d T for every element of the tensors selected by c, in elems() order; others zero.
  // Returns O* = conj(d ln psi).
  const std::vector<Z> &ostar(const std::vector<size_t> &c) {
    auto it = ostars.find(c); if (it != ostars.end()) return it->second;
    std::vector<Z> out; Z p = amp(c);
    SITPS<E> t(*s);
    for (size_t r = 0; r < Ly; ++r) for (size_t k = 0; k < Lx; ++k) for (size_t q = 0; q < (*s)({r, k}).size(); ++q) {
      const auto &orig = (*s)({r, k})[q];
      auto cs = qlten::GenAllCoors(orig.GetShape());
      if (q != c[r * Lx + k]) { out.insert(out.end(), cs.size(), Z(0)); continue; }
      for (auto &x : cs) {
        auto unit = orig; unit.Fill(QNT(), E(0)); unit.SetElem(x, E(1));
        t({r, k})[q] = unit;
        out.push_back(std::conj(amp_any(t, c) / p));
      }
      t({r, k})[q] = orig;
    }
    return ostars[c] = out;
  }
};

// An updater that behaves exactly like `Upd` and records where every sweep started and ended, and the acceptance rates handed back.
struct Sweep { std::vector<size_t> from, to; std::vector<double> acc; };
template<typename Upd>
struct RecUpd : Upd {
  std::vector<Sweep> *log = nullptr;
  RecUpd() = default;
  explicit RecUpd(std::vector<Sweep> *l) : log(l) {}
  template<typename S, typename W> auto operator()(const S &s, W &w, std::vector<double> &acc) -> decltype(std::declval<Upd &>()(s, w, acc)) {
    Sweep x; x.from = flat(w.config); Upd::operator()(s, w, acc); x.to = flat(w.config); x.acc = acc; if (log) log->push_back(std::move(x));
  }
};

// A model solver that behaves exactly like `Model` and records the samples it was asked about.
struct Rec { std::vector<size_t> cfg; Z e; Z psi; uint64_t state; bool holes; };
template<typename Model>
struct RecSolver : Model {
  std::vector<Rec> *log = nullptr;
  RecSolver(const Model &m, std::vector<Rec> *l) : Model(m), log(l) {}
  template<typename E, typename Q, bool holes, typename W>
  E CalEnergyAndHoles(const SplitIndexTPS<E, Q> *s, W *w, TensorNetwork2D<E, Q> &h) {
    E e = Model::template CalEnergyAndHoles<E, Q, holes>(s, w, h);
    if (log) log->push_back({flat(w->config), Z(e), Z(w->GetAmplitude()), hash_state(*s), holes});
    return e;
  }
  template<typename E, typename Q, typename W>
  E CalEnergy(const SplitIndexTPS<E, Q> *s, W *w) {
    TensorNetwork2D<E, Q> h(1, 1);
    return CalEnergyAndHoles<E, Q, false>(s, w, h);
  }
};

template<typename E> std::vector<Z> zelems(const SITPS<E> &s) {
  auto v = elems(s); return std::vector<Z>(v.begin(), v.end());
}
inline double rel_diff(const std::vector<Z> &a, const std::vector<Z> &b) {
  if (a.size() != b.size()) return 1e300;
  double m = 0, n = 0;
  for (size_t i = 0; i < a.size(); ++i) { double d = std::abs(a[i] - b[i]); if (std::isnan(d)) return 1e300; m = std::max(m, d); n = std::max({n, std::abs(a[i]), std::abs(b[i])}); }
  return m / (1.0 + n);
}

// ---- common swarm configuration ------------------------------------------------
inline void swarm(bool sched = true) {
  auto &p = sim::profile();
  if (!sched) return;
  p.sched_mode = int(sim::draw("sched_mode", 0, 3));
  const double ps[] = {0.02, 0.1, 0.3, 0.7};
  p.p[sim::K_SCHED] = ps[sim::draw("p_sched", 0, 3)];
  const double pr[] = {0.0, 0.3, 1.0};
  p.p[sim::K_SENDMODE] = pr[sim::draw("p_send", 0, 2)];
  p.p[sim::K_COLLSYNC] = pr[sim::draw("p_coll", 0, 2)];
  p.p[sim::K_REDORDER] = pr[sim::draw("p_red", 0, 2)];
  p.p[sim::K_ANYSRC] = pr[sim::draw("p_any", 0, 2)];
  if (sim::chance("stalls", 0.3)) p.p[sim::K_STALL] = 0.02;
  p.starve = int(sim::draw("starve", 0, 4));
}
inline BMPSTruncateParams<double> bmps_exact(size_t scheme) {
  // generous bond dimension: the truncation is exact on the lattices used
  if (scheme == 0) return BMPSTruncateParams<double>(1, 64, 0.0, CompressMPSScheme::SVD_COMPRESS, std::nullopt, std::nullopt);
  if (scheme == 1) return BMPSTruncateParams<double>(1, 64, 0.0, CompressMPSScheme::VARIATION2Site, std::make_optional<double>(1e-15), std::make_optional<size_t>(20));
  return BMPSTruncateParams<double>(64, 64, 0.0, CompressMPSScheme::VARIATION1Site, std::make_optional<double>(1e-15), std::make_optional<size_t>(20));
}
}  // namespace hx
#endif
namespace hx {
// elements in the order of `like`, absent tensors count as zero
template<typename E> std::vector<Z> zelems_like(const SITPS<E> &like, const SITPS<E> &s) {
  std::vector<Z> v;
  if (s.rows() != like.rows() || s.cols() != like.cols()) return v;
  for (size_t r = 0; r < like.rows(); ++r) for (size_t c = 0; c < like.cols(); ++c) for (size_t k = 0; k < like({r, c}).size(); ++k) {
    const auto &t = like({r, c})[k];
    const bool have = k < s({r, c}).size() && !s({r, c})[k].IsDefault();
    if (have && s({r, c})[k].GetShape() != t.GetShape()) return {};
    for (auto &x : qlten::GenAllCoors(t.GetShape())) v.push_back(have ? Z(s({r, c})[k].GetElem(x)) : Z(0));
  }
  return v;
}
// documented sqrt(N) binning: full bins only, per rank, pooled
inline void ref_binned(const std::vector<std::vector<Z>> &per_rank, Z &mean, double &err) {
  std::vector<Z> b;
  for (auto &s : per_rank) {
    if (s.empty()) continue;
    size_t w = std::max<size_t>(1, size_t(std::sqrt(double(s.size()))));
    for (size_t i = 0; i + w <= s.size(); i += w) { Z x(0); for (size_t j = 0; j < w; ++j) x += s[i + j]; b.push_back(x / double(w)); }
  }
  mean = 0; err = 0;
  for (auto &x : b) mean += x / double(b.size());
  if (b.size() == 1) { err = INFINITY; return; }
  if (b.empty()) return;
  double v = 0; for (auto &x : b) v += std::norm(x - mean);
  err = std::sqrt(v / double(b.size()) / double(b.size() - 1));
}
inline bool same_real(double a, double b, double tol) {
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}
// a random configuration with a given number of up spins (or free when up < 0)
inline std::vector<size_t> rand_cfg(const std::string &nm, size_t n, long up) {
  sim::SplitMix g(sim::stable_seed(nm));
  std::vector<size_t> c(n, 0);
  if (up < 0) { for (auto &x : c) x = g.below(2); return c; }
  for (long i = 0; i < up; ++i) c[i] = 1;
  for (size_t i = n; i > 1; --i) std::swap(c[i - 1], c[g.below(i)]);
  return c;
}
}
