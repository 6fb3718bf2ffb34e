// Dense reference for small PEPS (used by P20 and P21): all amplitudes of a Gamma-Lambda PEPS, a TPS or a split-index TPS, operators on sites.
#pragma once
#include "models.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
namespace {
using namespace hx;
template<typename E> using Peps = SquareLatticePEPS<E, QNT>;
using VZ = std::vector<Z>;
using Mat = std::vector<Z>;                                  // row-major, out x in
struct Term { std::vector<size_t> at; Mat m; };              // m acts on the listed sites (first site most significant)

// ---- dense reference: labelled tensors, contracted one after the other
struct LT { std::vector<int> lab; std::vector<size_t> dim; VZ v; };
LT mul(const LT &a, const LT &b) {
  LT c; std::vector<int> fa, fb, sa, sb;
  for (size_t i = 0; i < a.lab.size(); ++i) { auto it = std::find(b.lab.begin(), b.lab.end(), a.lab[i]); if (it == b.lab.end()) fa.push_back(int(i)); else { sa.push_back(int(i)); sb.push_back(int(it - b.lab.begin())); } }
  for (size_t i = 0; i < b.lab.size(); ++i) if (std::find(a.lab.begin(), a.lab.end(), b.lab[i]) == a.lab.end()) fb.push_back(int(i));
  auto strides = [](const LT &t) { std::vector<size_t> s(t.dim.size(), 1); for (size_t i = t.dim.size(); i-- > 1;) s[i - 1] = s[i] * t.dim[i]; return s; };
  auto st_a = strides(a), st_b = strides(b);
  auto offs = [](const LT &t, const std::vector<size_t> &st, const std::vector<int> &ax) { std::vector<size_t> o{0}; for (int x : ax) { std::vector<size_t> n; for (auto q : o) for (size_t k = 0; k < t.dim[size_t(x)]; ++k) n.push_back(q + k * st[size_t(x)]); o.swap(n); } return o; };
  auto oa = offs(a, st_a, fa), ob = offs(b, st_b, fb), ka = offs(a, st_a, sa), kb = offs(b, st_b, sb);
  for (int x : fa) { c.lab.push_back(a.lab[size_t(x)]); c.dim.push_back(a.dim[size_t(x)]); }
  for (int x : fb) { c.lab.push_back(b.lab[size_t(x)]); c.dim.push_back(b.dim[size_t(x)]); }
  c.v.assign(oa.size() * ob.size(), Z(0));
  for (size_t i = 0; i < oa.size(); ++i) for (size_t k = 0; k < ka.size(); ++k) { const Z x = a.v[oa[i] + ka[k]]; if (x == Z(0)) continue; Z *row = &c.v[i * ob.size()]; for (size_t j = 0; j < ob.size(); ++j) row[j] += x * b.v[ob[j] + kb[k]]; }
  return c;
}
// The wave function (all amplitudes, site 0 most significant); empty when the network is too large for brute force.
template<typename GetT> VZ dense(size_t Ly, size_t Lx, bool pbc, GetT site) {
  const int VB = 1000, PB = 2000; auto H = [&](size_t r, size_t c) { return int(r * (Lx + 1) + (pbc ? c % Lx : c)); }; auto V = [&](size_t r, size_t c) { return VB + int((pbc ? r % Ly : r) * Lx + c); };
  LT cur; cur.v = {Z(1)};
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) {
    LT t = site(r, c); t.lab = {H(r, c), V(r + 1, c), H(r, c + 1), V(r, c), PB + int(r * Lx + c)};
    double sz = 1; for (size_t i = 0; i < t.dim.size(); ++i) if (std::find(cur.lab.begin(), cur.lab.end(), t.lab[i]) == cur.lab.end()) sz *= double(t.dim[i]);
    for (size_t i = 0; i < cur.lab.size(); ++i) if (std::find(t.lab.begin(), t.lab.end(), cur.lab[i]) == t.lab.end()) sz *= double(cur.dim[i]);
    if (sz > 3e5) return {};
    cur = mul(cur, t);
  }
  // bring the physical legs into site order; every other leg has dimension 1 (open boundary)
  std::vector<size_t> st(cur.dim.size(), 1), ps(Ly * Lx), pd(Ly * Lx); for (size_t i = cur.dim.size(); i-- > 1;) st[i - 1] = st[i] * cur.dim[i];
  for (size_t i = 0; i < cur.lab.size(); ++i) { if (cur.lab[i] >= PB) { ps[size_t(cur.lab[i] - PB)] = st[i]; pd[size_t(cur.lab[i] - PB)] = cur.dim[i]; } else SIM_CHECK(cur.dim[i] == 1, "an outer leg of the network has dimension %zu", cur.dim[i]); }
  std::vector<size_t> o{0}; for (size_t i = 0; i < ps.size(); ++i) { std::vector<size_t> n; for (auto q : o) for (size_t k = 0; k < pd[i]; ++k) n.push_back(q + k * ps[i]); o.swap(n); }
  VZ out; for (auto q : o) out.push_back(cur.v[q]); return out;
}
template<typename T> LT raw(const T &t) { LT x; auto sh = t.GetShape(); x.dim.assign(sh.begin(), sh.end()); for (auto &q : qlten::GenAllCoors(sh)) x.v.push_back(Z(t.GetElem(q))); return x; }
template<typename E> VZ vec_peps(const Peps<E> &p, bool pbc) {
  const size_t Ly = p.Rows(), Lx = p.Cols();
  return dense(Ly, Lx, pbc, [&](size_t r, size_t c) {
    LT t = raw(p.Gamma({r, c})); const auto &lh = p.lambda_horiz({r, c}); const auto &lv = p.lambda_vert({r, c});
    size_t k = 0; for (size_t a = 0; a < t.dim[0]; ++a) for (size_t b = 0; b < t.dim[1] * t.dim[2]; ++b) for (size_t u = 0; u < t.dim[3]; ++u) for (size_t s = 0; s < t.dim[4]; ++s, ++k) t.v[k] *= double(lh.GetElem({a, a})) * double(lv.GetElem({u, u}));
    return t; });
}
template<typename E> VZ vec_tps(const TPS<E, QNT> &p, bool pbc) { return dense(p.rows(), p.cols(), pbc, [&](size_t r, size_t c) { return raw(p({r, c})); }); }
template<typename E> VZ vec_sitps(const SITPS<E> &p, bool pbc) {
  return dense(p.rows(), p.cols(), pbc, [&](size_t r, size_t c) {
    const auto &s = p({r, c}); LT t = raw(s[0]); const size_t n = t.v.size(), d = s.size(); t.dim.push_back(d); t.v.assign(n * d, Z(0));
    for (size_t k = 0; k < d; ++k) { LT x = raw(s[k]); SIM_CHECK(x.v.size() == n, "the components of a site have different shapes"); for (size_t i = 0; i < n; ++i) t.v[i * d + k] = x.v[i]; }
    return t; });
}
double nrm(const VZ &a) { double s = 0; for (auto &x : a) s += std::norm(x); return std::sqrt(s); }
// distance between the rays of a and b (both normalised, best phase); with positive: the factor has to be a positive number
double ray(const VZ &a, const VZ &b, bool positive = true) {
  if (a.size() != b.size()) return 9; const double na = nrm(a), nb = nrm(b); if (!(na > 0) || !(nb > 0)) return 9;
  Z o(0); for (size_t i = 0; i < a.size(); ++i) o += std::conj(a[i]) * b[i]; o /= na * nb; if (positive) o = Z(1); else if (std::abs(o) > 1e-12) o /= std::abs(o); else return 9;
  double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::norm(a[i] * o / na - b[i] / nb); return std::sqrt(s);
}
struct Ham { size_t n, d; std::vector<Term> t; double bound = 0; };
VZ happly(const Ham &h, const VZ &x) {
  VZ y(x.size(), Z(0)); std::vector<size_t> st(h.n, 1); for (size_t i = h.n; i-- > 1;) st[i - 1] = st[i] * h.d;
  for (auto &t : h.t) {
    size_t D = 1; for (size_t i = 0; i < t.at.size(); ++i) D *= h.d; std::vector<size_t> off(D, 0); for (size_t q = 0; q < D; ++q) { size_t z = q; for (size_t i = t.at.size(); i-- > 0;) { off[q] += (z % h.d) * st[t.at[i]]; z /= h.d; } }
    for (size_t b = 0; b < x.size(); ++b) { bool base = true; for (auto s : t.at) base &= (b / st[s]) % h.d == 0; if (!base) continue; for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) y[b + off[o]] += t.m[o * D + i] * x[b + off[i]]; }
  }
  return y;
}
VZ evolve(const Ham &h, VZ x, double tau) { VZ r = x; for (int k = 1; k < 80; ++k) { x = happly(h, x); double m = 0; for (auto &q : x) { q *= -tau / k; m = std::max(m, std::abs(q)); } for (size_t i = 0; i < r.size(); ++i) r[i] += x[i]; if (m < 1e-18 * nrm(r)) break; } return r; }
double expect(const Ham &h, const VZ &x) { auto y = happly(h, x); Z s(0); for (size_t i = 0; i < x.size(); ++i) s += std::conj(x[i]) * y[i]; const double n = nrm(x); return s.real() / (n * n); }

template<typename E> E cast(Z z) { if constexpr (std::is_same_v<E, Z>) return z; else return z.real(); }
// k-site operator as library tensor (in_1, out_1, in_2, out_2, ...)
template<typename E> Ten<E> to_ten(const Mat &m, size_t d, size_t k) {
  std::vector<Index<QNT>> idx; for (size_t i = 0; i < k; ++i) { idx.push_back(leg(d, qlten::IN)); idx.push_back(leg(d, qlten::OUT)); } Ten<E> t(idx); size_t D = 1; for (size_t i = 0; i < k; ++i) D *= d;
  for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) { std::vector<size_t> c(2 * k); size_t a = o, b = i; for (size_t q = k; q-- > 0;) { c[2 * q] = b % d; c[2 * q + 1] = a % d; a /= d; b /= d; } t.SetElem(c, cast<E>(m[o * D + i])); }
  return t;
}
template<typename E> struct Gen {
  sim::SplitMix g; size_t d; bool commuting; std::vector<Mat> U;
  Gen(uint64_t s, size_t d, bool c) : g(s), d(d), commuting(c) {
    Mat u(d * d); for (auto &x : u) x = Z(rnd<E>(g, -1, 1));                       // Gram-Schmidt
    for (size_t i = 0; i < d; ++i) { for (size_t j = 0; j < i; ++j) { Z o(0); for (size_t k = 0; k < d; ++k) o += std::conj(u[k * d + j]) * u[k * d + i]; for (size_t k = 0; k < d; ++k) u[k * d + i] -= o * u[k * d + j]; } double n = 0; for (size_t k = 0; k < d; ++k) n += std::norm(u[k * d + i]); for (size_t k = 0; k < d; ++k) u[k * d + i] /= std::sqrt(n); }
    U = {u};
  }
  // random Hermitian operator on k sites; sym: invariant under exchange of its (two) sites
  Mat op(size_t k, bool sym) {
    size_t D = 1; for (size_t i = 0; i < k; ++i) D *= d; Mat m(D * D, Z(0));
    if (commuting) { std::vector<double> f(D); for (auto &x : f) x = g.sym(); if (sym && k == 2) for (size_t a = 0; a < d; ++a) for (size_t b = 0; b < a; ++b) f[a * d + b] = f[b * d + a];
      for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) for (size_t s = 0; s < D; ++s) { Z w(f[s]); size_t a = o, b = i, c = s; for (size_t q = 0; q < k; ++q) { w *= U[0][(a % d) * d + c % d] * std::conj(U[0][(b % d) * d + c % d]); a /= d; b /= d; c /= d; } m[o * D + i] += w; } return m; }
    for (size_t o = 0; o < D; ++o) for (size_t i = 0; i <= o; ++i) { Z x(rnd<E>(g, -1, 1)); if (o == i) x = Z(x.real()); m[o * D + i] = x; m[i * D + o] = std::conj(x); }
    if (sym && k == 2) { Mat s(m); auto sw = [&](size_t q) { return (q % d) * d + q / d; }; for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) s[o * D + i] = 0.5 * (m[o * D + i] + m[sw(o) * D + sw(i)]); return s; }
    return m;
  }
};
template<typename E> Peps<E> make_peps(size_t Ly, size_t Lx, size_t d, bool pbc, int init, uint64_t seed) {
  sim::SplitMix g(seed); Peps<E> p(leg(d, qlten::OUT), Ly, Lx, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  if (init == 0) { std::vector<std::vector<size_t>> a(Ly, std::vector<size_t>(Lx)); for (auto &r : a) for (auto &x : r) x = g.below(d); p.Initial(a); return p; }
  const size_t D = size_t(init); auto dh = [&](size_t c) { return (!pbc && (c == 0 || c == Lx)) ? size_t(1) : D; }; auto dv = [&](size_t r) { return (!pbc && (r == 0 || r == Ly)) ? size_t(1) : D; };
  for (size_t r = 0; r < p.lambda_vert.rows(); ++r) for (size_t c = 0; c < Lx; ++c) { const size_t n = dv(r); auto &x = p.lambda_vert({r, c}); x = std::decay_t<decltype(x)>({leg(n, qlten::IN), leg(n, qlten::OUT)}); for (size_t i = 0; i < n; ++i) x.SetElem({i, i}, n == 1 ? 1.0 : 1.0 - 0.4 * double(i) - 0.2 * g.uni()); }
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < p.lambda_horiz.cols(); ++c) { const size_t n = dh(c); auto &x = p.lambda_horiz({r, c}); x = std::decay_t<decltype(x)>({leg(n, qlten::IN), leg(n, qlten::OUT)}); for (size_t i = 0; i < n; ++i) x.SetElem({i, i}, n == 1 ? 1.0 : 1.0 - 0.4 * double(i) - 0.2 * g.uni()); }
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) { Ten<E> t({leg(dh(c), qlten::IN), leg(dv(r + 1), qlten::OUT), leg(dh(c + 1), qlten::OUT), leg(dv(r), qlten::IN), leg(d, qlten::OUT)}); for (auto &q : qlten::GenAllCoors(t.GetShape())) t.SetElem(q, rnd<E>(g, -1, 1)); p.Gamma({r, c}) = t; }
  return p;
}
template<typename M> bool same_mat(const M &a, const M &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) { if (a({r, c}).GetShape() != b({r, c}).GetShape()) return false; for (auto &q : qlten::GenAllCoors(a({r, c}).GetShape())) if (a({r, c}).GetElem(q) != b({r, c}).GetElem(q)) return false; }
  return true;
}
template<typename E> bool same_peps(const Peps<E> &a, const Peps<E> &b) { return same_mat(a.Gamma, b.Gamma) && same_mat(a.lambda_vert, b.lambda_vert) && same_mat(a.lambda_horiz, b.lambda_horiz); }
template<typename E> std::vector<std::vector<double>> lambdas(const Peps<E> &p) {
  std::vector<std::vector<double>> o; auto f = [&](const auto &m) { for (size_t r = 0; r < m.rows(); ++r) for (size_t c = 0; c < m.cols(); ++c) { std::vector<double> v; const size_t n = m({r, c}).GetShape()[0]; for (size_t i = 0; i < n; ++i) v.push_back(m({r, c}).GetElem({i, i})); o.push_back(v); } }; f(p.lambda_vert); f(p.lambda_horiz); return o;
}
// What one job did, seen from outside (X: executor, M: its metrics).
template<typename E, typename X, typename M> struct SeenBy { std::vector<M> obs, met; std::vector<VZ> psi; std::vector<std::vector<std::vector<double>>> lam; typename X::RunSummary sum; Peps<E> end; double est = 0; SeenBy(const Peps<E> &p) : end(p) {} };
// A stopping rule whose limits lie next to what a recorded run passes through, so that every term of the rule decides some runs.
template<typename Cfg> Cfg close_stop(const auto &s) {
  Cfg c{1e6, 0, 1e6, size_t(sim::draw("patience", 1, 3)), size_t(sim::draw("min_steps", 0, 6))}; const size_t n = s.obs.size(); if (n < 2) return c;
  auto pick = [&](const char *w) { const double f[] = {0.5, 0.97, 1.03, 2}; return f[sim::draw(w, 0, 3)]; }; const size_t k = size_t(sim::draw("at_sweep", 1, long(n) - 1)); const long which = sim::draw("which", 0, 2);
  const double e0 = s.obs[k - 1].estimated_e0, e1 = s.obs[k].estimated_e0, de = std::fabs(e1 - e0);
  if (which != 1) { const double f = pick("fe"); if (sim::chance("relative", 0.5)) { c.energy_abs_tol = 0; c.energy_rel_tol = f * de / std::max({1.0, std::fabs(e0), std::fabs(e1)}); } else c.energy_abs_tol = f * de; }
  if (which != 0) { double drift = 0; for (size_t q = 0; q < s.lam[k].size(); ++q) { if (s.lam[k][q].size() != s.lam[k - 1][q].size()) return c; double a = 0, b = 0; for (size_t j = 0; j < s.lam[k][q].size(); ++j) { a += std::pow(s.lam[k][q][j] - s.lam[k - 1][q][j], 2); b += std::pow(s.lam[k - 1][q][j], 2); } drift = std::max(drift, std::sqrt(a) / std::max(std::sqrt(b), 2.3e-16)); } c.lambda_rel_tol = std::max(1e-9, pick("fl") * drift); }
  return c;
}
void check_stop(const auto &p, const auto &s, bool no_trunc_err) {
  const size_t n = s.obs.size(); SIM_CHECK(s.sum.executed_steps == n, "the summary counts %zu sweeps, %zu were made", s.sum.executed_steps, n);
  SIM_CHECK(s.met.size() == n, "%zu step metrics for %zu sweeps", s.met.size(), n);
  for (size_t i = 0; i < n; ++i) {
    const auto &a = s.obs[i], &b = s.met[i]; SIM_CHECK(a.step_index == i && b.step_index == i && a.tau == p.tau && b.tau == p.tau && a.estimated_e0 == b.estimated_e0 && a.estimated_en == b.estimated_en && a.trunc_err == b.trunc_err && a.bond_dim_changed == b.bond_dim_changed && a.elapsed_sec == b.elapsed_sec, "observer and stored metrics of sweep %zu differ: tau %g/%g e0 %.17g/%.17g en %.17g/%.17g", i, a.tau, b.tau, a.estimated_e0, b.estimated_e0, a.estimated_en, b.estimated_en);
    SIM_CHECK(std::isfinite(a.estimated_e0) && std::isfinite(a.estimated_en) && a.elapsed_sec >= 0, "sweep %zu reports a non-finite estimate", i);
    if (i) { auto mx = [&](size_t q) { size_t m = 0; for (auto &l : s.lam[q]) m = std::max(m, l.size()); return m; }; bool same = true; for (size_t q = 0; q < s.lam[i].size(); ++q) same &= s.lam[i][q].size() == s.lam[i - 1][q].size();
      if (mx(i) != mx(i - 1)) SIM_CHECK(a.bond_dim_changed, "sweep %zu changed the largest bond dimension, its metrics deny it", i); if (same) SIM_CHECK(!a.bond_dim_changed, "sweep %zu changed no bond dimension, its metrics say so", i); } else SIM_CHECK(!a.bond_dim_changed, "the first sweep has no step before it");
    if (a.trunc_err) SIM_CHECK(*a.trunc_err >= -1e-14 && *a.trunc_err <= 1 + 1e-12, "truncation error %g of sweep %zu", *a.trunc_err, i); else SIM_CHECK(no_trunc_err, "sweep %zu reports no truncation error", i);
  }
  if (n) SIM_CHECK(s.sum.final_energy && s.sum.final_estimated_e0 && s.sum.final_estimated_en && *s.sum.final_energy == s.obs[n - 1].estimated_e0 && *s.sum.final_estimated_e0 == s.obs[n - 1].estimated_e0 && *s.sum.final_estimated_en == s.obs[n - 1].estimated_en && s.est == s.obs[n - 1].estimated_e0, "the summary does not hold the estimates of the last sweep");
  // the documented stopping rule, on what the observer saw
  size_t streak = 0, stop = p.steps; bool conv = false;
  if (p.advanced_stop) for (size_t i = 0; i < n; ++i) {
    const auto &c = *p.advanced_stop; bool ok = false;
    if (i > 0) {
      bool stable = true; double drift = 0; for (size_t k = 0; k < s.lam[i].size(); ++k) { if (s.lam[i][k].size() != s.lam[i - 1][k].size()) { stable = false; break; } double a = 0, b = 0; for (size_t j = 0; j < s.lam[i][k].size(); ++j) { a += std::pow(s.lam[i][k][j] - s.lam[i - 1][k][j], 2); b += std::pow(s.lam[i - 1][k][j], 2); } drift = std::max(drift, std::sqrt(a) / std::max(std::sqrt(b), 2.3e-16)); }
      if (stable) {
        const double e0 = s.obs[i - 1].estimated_e0, e1 = s.obs[i].estimated_e0, tol = std::max(c.energy_abs_tol, c.energy_rel_tol * std::max({1.0, std::fabs(e0), std::fabs(e1)}));
        auto tie = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) && a != b; };
        if (tie(std::fabs(e1 - e0), tol) || tie(drift, c.lambda_rel_tol)) { sim::tag("near_tie_skipped"); return; }
        ok = i + 1 >= c.min_steps && std::fabs(e1 - e0) <= tol && drift <= c.lambda_rel_tol;
      } else sim::tag("bond_changed");
    }
    streak = ok ? streak + 1 : 0; if (streak >= c.patience) { stop = i + 1; conv = true; break; }
  }
  SIM_CHECK(n == stop, "%zu sweeps were made, the stopping rule asks for %zu (of at most %zu)", n, stop, p.steps);
  using SR = std::decay_t<decltype(s.sum.stop_reason)>;
  SIM_CHECK(s.sum.converged == conv && s.sum.stop_reason == (conv ? SR::kAdvancedConverged : SR::kMaxSteps), "wrong stop reason or convergence flag"); sim::tag(conv ? "converged" : "max_steps");
}
}  // namespace
