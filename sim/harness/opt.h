// Executable reference model of the iterative optimiser, written from its documentation, and a scripted energy evaluator.
// Everything is kept in plain vectors; the library runs the real code on simulated ranks against the same script.
#ifndef HARNESS_OPT_H
#define HARNESS_OPT_H
#include "meas.h"
#include <deque>
#include <mutex>
namespace hx {
template<typename E> using Vec = std::vector<E>;
template<typename E> E cj(E x) { if constexpr (std::is_same_v<E, double>) return x; else return std::conj(x); }
template<typename E> E dot(const Vec<E> &a, const Vec<E> &b) { E s(0); for (size_t i = 0; i < a.size(); ++i) s += cj(a[i]) * b[i]; return s; }
template<typename E> double nrm(const Vec<E> &a) { return std::sqrt(std::real(dot(a, a))); }
template<typename E> void axpy(Vec<E> &y, E a, const Vec<E> &x) { for (size_t i = 0; i < y.size(); ++i) y[i] += a * x[i]; }
template<typename E> double vdiff(const Vec<E> &a, const Vec<E> &b) {
  if (a.size() != b.size()) return 1e300; double m = 0; for (size_t i = 0; i < a.size(); ++i) { double d = std::abs(a[i] - b[i]); if (!(d <= m)) m = std::isnan(d) ? 1e300 : d; } return m;
}
// All elements, absent tensors as zeros of the shape they have in `like`.
template<typename E> Vec<E> vec(const SITPS<E> &s, const SITPS<E> &like) {
  Vec<E> v;
  for (size_t r = 0; r < like.rows(); ++r) for (size_t c = 0; c < like.cols(); ++c) for (size_t k = 0; k < like({r, c}).size(); ++k) {
    const auto &l = like({r, c})[k]; bool has = r < s.rows() && c < s.cols() && k < s({r, c}).size() && !s({r, c})[k].IsDefault();
    for (auto &q : qlten::GenAllCoors(l.GetShape())) v.push_back(has ? s({r, c})[k].GetElem(q) : E(0));
  }
  return v;
}
template<typename E> SITPS<E> unvec(const Vec<E> &v, const SITPS<E> &like) {
  SITPS<E> s(like.rows(), like.cols(), like.PhysicalDim(), like.GetBoundaryCondition()); size_t i = 0;
  for (size_t r = 0; r < like.rows(); ++r) for (size_t c = 0; c < like.cols(); ++c) for (size_t k = 0; k < like({r, c}).size(); ++k) {
    const auto &l = like({r, c})[k]; Ten<E> t(l.GetIndexes()); bool zero = true; const size_t i0 = i;
    for (auto &q : qlten::GenAllCoors(l.GetShape())) { (void)q; if (v[i++] != E(0)) zero = false; }
    if (!zero) { size_t j = i0; for (auto &q : qlten::GenAllCoors(l.GetShape())) t.SetElem(q, v[j++]); }
    s({r, c})[k] = t;                                   // an all-zero component has indices but no blocks, as after a real evaluation
  }
  return s;
}
// Dense Hermitian positive definite solve and Hermitian eigen-decomposition (Jacobi), for small sizes.
template<typename E> Vec<E> solve(std::vector<Vec<E>> A, Vec<E> b) {
  const size_t n = b.size();
  for (size_t k = 0; k < n; ++k) {
    size_t p = k; for (size_t i = k + 1; i < n; ++i) if (std::abs(A[i][k]) > std::abs(A[p][k])) p = i;
    std::swap(A[k], A[p]); std::swap(b[k], b[p]);
    for (size_t i = k + 1; i < n; ++i) { E f = A[i][k] / A[k][k]; if (f == E(0)) continue; for (size_t j = k; j < n; ++j) A[i][j] -= f * A[k][j]; b[i] -= f * b[k]; }
  }
  for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= A[k][j] * b[j]; b[k] /= A[k][k]; }
  return b;
}
template<typename E> void heig(std::vector<Vec<E>> A, std::vector<double> &w, std::vector<Vec<E>> &V) {  // columns of V are eigenvectors
  const size_t n = A.size(); V.assign(n, Vec<E>(n, E(0))); for (size_t i = 0; i < n; ++i) V[i][i] = E(1);
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, all = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double a = std::norm(A[i][j]); all += a; if (i != j) off += a; }
    if (off <= 1e-32 * all) break;
    for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      double g = std::abs(A[p][q]); if (g == 0) continue;
      E ph = A[p][q] / g; double th = 0.5 * std::atan2(2 * g, std::real(A[q][q]) - std::real(A[p][p])), c = std::cos(th), s = std::sin(th);
      // new p = c*p - s*conj(ph)... : unitary acting on columns p,q
      for (size_t i = 0; i < n; ++i) { E x = A[i][p], y = A[i][q]; A[i][p] = c * x - s * cj(ph) * y; A[i][q] = s * ph * x + c * y; }
      for (size_t i = 0; i < n; ++i) { E x = A[p][i], y = A[q][i]; A[p][i] = c * x - s * ph * y; A[q][i] = s * cj(ph) * x + c * y; }
      for (size_t i = 0; i < n; ++i) { E x = V[i][p], y = V[i][q]; V[i][p] = c * x - s * cj(ph) * y; V[i][q] = s * ph * x + c * y; }
    }
  }
  w.resize(n); for (size_t i = 0; i < n; ++i) w[i] = std::real(A[i][i]);
}

enum class OA { SGD, ADAGRAD, ADAM, SR, MINSR, LBFGS, N };
inline const char *oa_name(OA a) { const char *n[] = {"sgd", "adagrad", "adam", "sr", "minsr", "lbfgs"}; return n[int(a)]; }
struct OptCase {
  int n = 1; size_t iters = 5; OA alg = OA::SGD; double lr = 0.1, etol = 0, gtol = 0; size_t patience = 1000;
  double mom = 0, wd = 0, b1 = 0.9, b2 = 0.999, eps = 1e-8, acc0 = 0; bool nesterov = false;
  double shift = 0.1, rp = 1e-3, ap = 0; bool normalize = false, soft = true; int ns = 3; MinSRSolverMode mode = MinSRSolverMode::kReplicated;
  size_t hist = 3; double maxdir = 1e3; bool damping = false;
  double clipv = -1, clipn = -1;
  int sched = 0; double s_a = 0.5, s_b = 0; size_t s_n = 2; std::vector<size_t> ms;
  bool isel = false, psel = false, det = false; size_t isteps = 3, pevery = 2; double pratio = 0.3; bool eonly = true;
  SpikeRecoveryParams sp; size_t ckpt = 0; std::string ckpt_base = "ck", jsonl; long stop_at = -1;
  int runs = 1;          // optimisations done with the same Optimizer object, one after another
};
template<typename E> struct Sample { E energy; double err; int spikes = 0; Vec<E> grad; std::vector<Vec<E>> O; Vec<E> mean, eloc; };  // O, eloc: rank after rank
template<typename E> struct Script {
  uint64_t seed = 1; size_t dim = 0; int n = 1, ns = 3; bool discrete = false, statedep = false, convex = false, need_o = false, flat_o = false; double p_err = 0, p_grad = 0, p_en = 0, p_zero_err = 0, p_nan = 0, p_zero_comp = 0, drift = 0.3; size_t comp = 0;
  Vec<E> center;
  Sample<E> at(size_t call, const Vec<E> &x, bool trial = false) const {
    sim::SplitMix g(sim::mix(seed, call)); Sample<E> s; double noise = 0.5 * g.sym(), base = -drift * double(call); if (discrete) noise = 0.25 * double(long(g.below(5)) - 2), base = -0.25 * double(call / 3);
    double e = base + noise; s.err = discrete ? 0.125 * double(1 + g.below(3)) : 0.05 + 0.1 * g.uni(); double gs = 0.5 + 0.5 * g.uni();
    const double u1 = g.uni(), u2 = g.uni(), u3 = g.uni(), u4 = g.uni(), u5 = g.uni();
    if (u1 < p_err) s.err *= 50 + 500 * g.uni();
    if (u2 < p_grad) gs *= 50 + 500 * g.uni();
    if (u3 < p_en) e += 5 + 50 * g.uni();
    if (u4 < p_zero_err) s.err = 0;
    s.spikes = (u1 < p_err) | (u2 < p_grad) * 2 | (u3 < p_en) * 4 | (trial && u5 < p_nan) * 8;
    s.grad.resize(dim); for (auto &v : s.grad) v = E(gs) * rnd<E>(g, -1, 1);
    if (convex) for (size_t i = 0; i < dim; ++i) { const double k = 0.5 + double((i * 7) % 5) * 0.4; s.grad[i] = E(k) * (x[i] - center[i]) + E(1e-3) * s.grad[i]; }
    if (comp) for (size_t i = 0; i < dim; i += comp) if (g.uni() < p_zero_comp) for (size_t j = i; j < std::min(dim, i + comp); ++j) s.grad[j] = E(0);
    if (statedep) { e = 0; for (size_t i = 0; i < dim; ++i) e += (0.5 + double((i * 7) % 5) * 0.4) * std::norm(x[i] - center[i]) * 0.5; e += 0.02 * noise * 0; }
    if (trial && u5 < p_nan) e = std::numeric_limits<double>::quiet_NaN();
    s.energy = E(e); if constexpr (!std::is_same_v<E, double>) s.energy += E(0, 0.1 * g.sym());
    if (need_o) {
      s.mean.assign(dim, E(0)); E em(0);
      for (int i = 0; i < n * ns; ++i) { Vec<E> o(dim); for (auto &v : o) v = flat_o ? E(0) : rnd<E>(g, -1, 1); axpy(s.mean, E(1.0 / (n * ns)), o); s.O.push_back(o); s.eloc.push_back(rnd<E>(g, -1, 1)); em += s.eloc.back() / double(n * ns); }
      for (auto &x2 : s.eloc) x2 += s.energy - em;                                    // the energy is the mean of the local energies
      // gradient of these samples, so that SR and MinSR describe the same problem
      if (!flat_o) s.grad.assign(dim, E(0)); for (int i = 0; i < n * ns; ++i) { Vec<E> d = s.O[i]; axpy(d, E(-1), s.mean); axpy(s.grad, cj(s.eloc[i] - s.energy) / double(n * ns) * E(u2 < p_grad ? 200.0 : 1.0), d); }
      if (u2 < p_grad) for (auto &x2 : s.eloc) x2 = s.energy + (x2 - s.energy) * E(200.0);
    }
    return s;
  }
};
struct RefEv { size_t step, attempt; SpikeSignal sig; SpikeAction act; double value, thr; };
template<typename E> struct RefTrace {
  bool skip = false, throws = false; std::string why;
  std::vector<Vec<E>> calls; std::vector<bool> eonly;                    // state handed to the evaluator, call after call
  Vec<E> final_state, lowest; double final_e = std::numeric_limits<double>::max(), min_e = std::numeric_limits<double>::max(); size_t total = 0; bool converged = false;
  std::vector<E> en; std::vector<double> err, gn, lr; std::vector<RefEv> ev; std::vector<std::pair<Vec<E>, double>> low_cb; std::vector<std::pair<size_t, Vec<E>>> ck; std::vector<size_t> ck_len; bool stopped_by_cb = false;
};
struct RefEma { double a, m = 0, v = 0; bool init = false; explicit RefEma(size_t w) : a(2.0 / (double(w) + 1)) {} void up(double x) { if (!init) { m = x; v = 0; init = true; return; } double d = x - m; m += a * d; v = (1 - a) * (v + a * d * d); } };

template<typename E> struct RefOpt {
  const OptCase &o; const Script<E> &sc; size_t call0; RefTrace<E> t;
  bool gt(double a, double b) { if (std::abs(a - b) <= 1e-8 * std::max(std::abs(a), std::abs(b)) && a != b) { t.skip = true; } if (a == b && a != 0) t.skip = true; return a > b; }
  double lrate(size_t it, double e, double &pl, size_t &cnt, double &best) {
    switch (o.sched) {
      case 1: return o.lr * std::pow(o.s_a, double(it) / double(o.s_n));
      case 2: { double l = o.lr; for (size_t k = 0; k < it / o.s_n; ++k) l *= o.s_a; return l; }
      case 3: return o.s_b + 0.5 * (o.lr - o.s_b) * (1 + std::cos(3.14159265358979323846 * double(std::min(it, o.s_n)) / double(o.s_n)));
      case 4: return it >= o.s_n ? o.lr : o.s_b + (o.lr - o.s_b) * double(it + 1) / double(o.s_n);
      case 5: { double l = o.lr; for (auto m : o.ms) if (it >= m) l *= o.s_a; return l; }
      case 6: if (e < best - o.s_b) { best = e; cnt = 0; } else if (++cnt >= o.s_n) { pl *= o.s_a; cnt = 0; best = e; } return pl;
      default: return o.lr;
    }
  }
  Vec<E> natural(const Sample<E> &s) {
    const size_t n = sc.dim, N = s.O.size(); std::vector<Vec<E>> S(n, Vec<E>(n, E(0)));
    if (o.alg == OA::SR) {
      for (auto &x : s.O) { Vec<E> d = x; axpy(d, E(-1), s.mean); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) S[i][j] += d[i] * cj(d[j]) / double(N); }
      for (size_t i = 0; i < n; ++i) S[i][i] += E(o.shift);
      return solve(S, s.grad);
    }
    std::vector<Vec<E>> d = s.O; for (auto &x : d) axpy(x, E(-1), s.mean);
    std::vector<Vec<E>> T(N, Vec<E>(N)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) T[i][j] = dot(d[i], d[j]) / double(N);
    std::vector<double> w; std::vector<Vec<E>> V; heig(T, w, V); double mx = 0; for (double x : w) mx = std::max(mx, std::abs(x)); const double cut = o.rp * mx + o.ap;
    Vec<E> y(N, E(0)), eb(N); for (size_t i = 0; i < N; ++i) eb[i] = cj(s.eloc[i] - s.energy) / double(N);
    for (size_t k = 0; k < N; ++k) {
      double f; if (o.soft) { double r = cut / w[k]; f = (1.0 / w[k]) / (1.0 + std::pow(r, 6)); if (w[k] == 0) f = 0; } else { f = std::abs(w[k]) > cut ? 1.0 / w[k] : 0; if (std::abs(std::abs(w[k]) - cut) < 1e-6 * mx && cut > 1e-8 * mx) t.skip = true; }
      if (!std::isfinite(f)) f = 0;
      E c(0); for (size_t i = 0; i < N; ++i) c += cj(V[i][k]) * eb[i];
      for (size_t i = 0; i < N; ++i) y[i] += E(f) * c * V[i][k];
    }
    Vec<E> r(n, E(0)); for (size_t i = 0; i < N; ++i) axpy(r, y[i], d[i]);
    return r;
  }
  RefTrace<E> run(const Vec<E> &x0) {
    Vec<E> x = x0, prev, vel(sc.dim, E(0)), m1(sc.dim, E(0)), m2(sc.dim, E(0)), acc(sc.dim, E(o.acc0)); size_t adam_t = 0; bool has_prev = false;
    struct Pair { Vec<E> s, y; }; std::deque<Pair> H; Vec<E> an_x, an_g; bool anch = false;
    RefEma fe(o.sp.ema_window), fr(o.sp.ema_window), fg(o.sp.ema_window), fn(o.sp.ema_window);
    const bool nat = o.alg == OA::SR || o.alg == OA::MINSR, sel = o.isel || o.psel; t.lowest = x0; t.final_state = x0; double prev_e = std::numeric_limits<double>::max(), eta = o.lr, pl = o.lr, pbest = std::numeric_limits<double>::max(); size_t pcnt = 0, noimp = 0; long calls = 0;
    auto eval = [&](const Vec<E> &y, bool eo) { t.calls.push_back(y); t.eonly.push_back(eo); ++calls; auto q = sc.at(call0 + t.calls.size() - 1, y, eo); const char *nm[] = {"error_spike", "gradient_spike", "energy_spike", "nan_energy"}; for (int b = 0; b < 4; ++b) if (q.spikes >> b & 1) sim::note_fault(nm[b]); return q; };
    for (size_t it = 0; it < o.iters; ++it) {
      size_t att = 0;
      while (true) {
        if (calls > 400) { t.skip = true; return t; }
        Sample<E> s = eval(x, false); const double e = std::real(s.energy), gn = nrm(s.grad);
        auto decide = [&](SpikeSignal sig, double val, double thr, bool &again) {
          SpikeAction a = att < o.sp.redo_mc_max_retries ? SpikeAction::kResample : (o.sp.enable_rollback && has_prev ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning);
          t.ev.push_back({it, att, sig, a, val, thr});
          if (a == SpikeAction::kResample) { ++att; again = true; }
          if (a == SpikeAction::kRollback) { x = prev; has_prev = false; att = 0; again = true; }
        };
        bool again = false;
        if (o.sp.enable_auto_recover && it > 0) {
          if (fr.m > 0 && gt(s.err, o.sp.factor_err * fr.m)) decide(SpikeSignal::kS1_ErrorbarSpike, s.err, o.sp.factor_err * fr.m, again);
          else if (fg.m > 0 && gt(gn, o.sp.factor_grad * fg.m)) decide(SpikeSignal::kS2_GradientNormSpike, gn, o.sp.factor_grad * fg.m, again);
          if (again) continue;
        }
        double lr = sel ? eta : lrate(it, it == 0 ? e : prev_e, pl, pcnt, pbest);
        Vec<E> g = s.grad;
        if (!nat && o.alg != OA::LBFGS) {
          if (o.clipv > 0) for (auto &v : g) if (std::abs(v) > o.clipv) v *= o.clipv / std::abs(v);
          if (o.clipn > 0) { double r = nrm(g); if (r > o.clipn) for (auto &v : g) v *= o.clipn / r; }
        }
        Vec<E> ng; double ngn = 0; if (nat) { ng = natural(s); ngn = nrm(ng); }
        const bool si = o.isel && it == 0, sp = o.psel && it > 0 && it % o.pevery == 0;
        auto sgd = [&](double a, bool commit) {
          Vec<E> y = x; if (o.wd > 0) for (auto &v : y) v *= 1.0 - a * o.wd;
          Vec<E> v = vel; for (size_t i = 0; i < v.size(); ++i) v[i] = o.mom * v[i] + g[i]; if (commit) vel = v;
          for (size_t i = 0; i < y.size(); ++i) y[i] -= a * (o.mom > 0 ? (o.nesterov ? o.mom * v[i] + g[i] : v[i]) : g[i]);
          return y;
        };
        auto step = [&](double a, bool commit) { if (!nat) return sgd(a, commit); Vec<E> y = x; double q = a; if (o.alg == OA::SR && o.normalize && ngn > 0) q /= ngn; axpy(y, E(-q), ng); return y; };
        if (si || sp) {
          if (!o.det && s.err <= 0) { t.throws = true; return t; }
          std::vector<double> c; if (si) for (size_t i = 1; i <= o.isteps; ++i) c.push_back(eta * double(i)); else c = {eta, 0.5 * eta};
          std::vector<double> ce, cr; for (double a : c) { auto q = eval(step(a, false), o.eonly); if (!std::isfinite(std::real(q.energy))) { t.throws = true; return t; } ce.push_back(std::real(q.energy)); cr.push_back(q.err); }
          double pick = c[0];
          if (si) { double b = ce[0]; for (size_t i = 1; i < c.size(); ++i) if (gt(b, ce[i])) { b = ce[i]; pick = c[i]; } }
          else if (double(it) < o.pratio * double(o.iters)) { if (gt(ce[0], ce[1])) pick = c[1]; }
          else if (gt(ce[0] - ce[1], std::max(cr[0], cr[1]))) pick = c[1];
          eta = pick; lr = eta;
        }
        Vec<E> up = x;
        if (o.alg == OA::SGD || nat) up = step(lr, true);
        else if (o.alg == OA::ADAGRAD) for (size_t i = 0; i < up.size(); ++i) { acc[i] += E(std::norm(g[i])); double q = std::sqrt(std::real(acc[i])); if (q >= o.eps && q > 0) up[i] -= lr * g[i] / q; }
        else if (o.alg == OA::ADAM) {
          ++adam_t; if (o.wd > 0) for (auto &v : up) v *= 1.0 - lr * o.wd;
          for (size_t i = 0; i < up.size(); ++i) {
            m1[i] = o.b1 * m1[i] + (1 - o.b1) * g[i]; m2[i] = o.b2 * m2[i] + (1 - o.b2) * E(std::norm(g[i]));
            double q = std::sqrt(std::real(m2[i]) / (1 - std::pow(o.b2, double(adam_t)))); if (q >= o.eps && q > 0) up[i] -= lr * (m1[i] / (1 - std::pow(o.b1, double(adam_t)))) / q;
          }
        } else if (o.alg == OA::LBFGS) {
          if (o.hist == 0) { t.throws = true; return t; }
          std::deque<Pair> h = H;
          if (anch) { Pair p{x, s.grad}; axpy(p.s, E(-1), an_x); axpy(p.y, E(-1), an_g); double c = std::real(dot(p.s, p.y)); if (std::abs(c) < 1e-8 || std::abs(c) < 1e-3 * nrm(p.s) * nrm(p.y)) { t.skip = true; return t; } if (c < 0 && o.damping) { t.skip = true; return t; } if (c > 0) { h.push_back(p); while (h.size() > o.hist) h.pop_front(); } else sim::tag("curvature_skipped"); }
          Vec<E> q = s.grad; std::vector<double> al(h.size());
          for (size_t i = h.size(); i-- > 0;) { al[i] = std::real(dot(h[i].s, q)) / std::real(dot(h[i].s, h[i].y)); axpy(q, E(-al[i]), h[i].y); }
          if (!h.empty()) { double f = std::real(dot(h.back().s, h.back().y)) / std::real(dot(h.back().y, h.back().y)); for (auto &v : q) v *= f; }
          for (size_t i = 0; i < h.size(); ++i) { double b = std::real(dot(h[i].y, q)) / std::real(dot(h[i].s, h[i].y)); axpy(q, E(al[i] - b), h[i].s); }
          double qn = nrm(q); if (o.maxdir > 0 && qn > o.maxdir) for (auto &v : q) v *= o.maxdir / qn;
          axpy(up, E(-lr), q); H = h; an_x = x; an_g = s.grad; anch = true;              // only reached on accepted evaluations (no rollback with L-BFGS here)
        }
        if (nat && o.sp.enable_auto_recover && it > 0) {
          if (fn.m > 0 && gt(ngn, o.sp.factor_ngrad * fn.m)) decide(SpikeSignal::kS3_NaturalGradientAnomaly, ngn, o.sp.factor_ngrad * fn.m, again);
          else if (o.alg == OA::SR && o.sp.sr_min_iters_suspicious > (sc.flat_o ? 0 : 100000)) decide(SpikeSignal::kS3_NaturalGradientAnomaly, ngn, o.sp.factor_ngrad * fn.m, again);
          if (again) continue;
        }
        if (o.sp.enable_rollback && it > 0) {
          const double sd = std::sqrt(fe.v), thr = fe.m + o.sp.sigma_k * sd;
          if (e > fe.m && sd > 0 && gt(e - fe.m, o.sp.sigma_k * sd)) {
            if (has_prev) { t.ev.push_back({it, att, SpikeSignal::kS4_EMAEnergySpikeUpward, SpikeAction::kRollback, e, thr}); x = prev; has_prev = false; att = 0; continue; }
            t.ev.push_back({it, att, SpikeSignal::kS4_EMAEnergySpikeUpward, SpikeAction::kAcceptWithWarning, e, thr});
          }
        }
        fe.up(e); fr.up(s.err); fg.up(gn); if (nat) fn.up(ngn);
        t.en.push_back(s.energy); t.err.push_back(s.err); t.gn.push_back(gn); t.lr.push_back(lr); t.final_e = e; t.total = it + 1;
        if (sc.statedep && t.min_e < 1e300) gt(t.min_e, e);
        if (e < t.min_e) { t.min_e = e; t.lowest = x; noimp = 0; t.low_cb.push_back({x, e}); } else ++noimp;
        if (it > 0 && ((o.gtol > 0 && gt(o.gtol, gn)) || std::abs(e - prev_e) < o.etol || noimp >= o.patience)) { t.converged = true; t.final_state = x; return t; }
        prev_e = e; prev = x; has_prev = true; x = up; t.final_state = x;
        if (o.stop_at >= 0 && it == size_t(o.stop_at)) { t.stopped_by_cb = true; return t; }
        if (o.ckpt && it > 0 && it % o.ckpt == 0) { t.ck.push_back({it, x}); t.ck_len.push_back(t.en.size()); }
        break;
      }
    }
    return t;
  }
};
inline OptimizerParams opt_params(const OptCase &o) {
  std::unique_ptr<LearningRateScheduler> s;
  switch (o.sched) {
    case 1: s = std::make_unique<ExponentialDecayLR>(o.lr, o.s_a, o.s_n); break;
    case 2: s = std::make_unique<StepLR>(o.lr, o.s_n, o.s_a); break;
    case 3: s = std::make_unique<CosineAnnealingLR>(o.lr, o.s_n, o.s_b); break;
    case 4: s = std::make_unique<WarmupLR>(o.lr, o.s_n, o.s_b); break;
    case 5: s = std::make_unique<MultiStepLR>(o.lr, o.ms, o.s_a); break;
    case 6: s = std::make_unique<PlateauLR>(o.lr, o.s_a, o.s_n, o.s_b); break;
    default: if (o.sched == 7) s = std::make_unique<ConstantLR>(o.lr);
  }
  OptimizerParams::BaseParams b(o.iters, o.etol, o.gtol, o.patience, o.sched ? 123.0 : o.lr, std::move(s));
  if (o.clipv > 0) b.clip_value = o.clipv; if (o.clipn > 0) b.clip_norm = o.clipn;
  b.initial_step_selector.enabled = o.isel; b.initial_step_selector.max_line_search_steps = o.isteps; b.initial_step_selector.enable_in_deterministic = o.det;
  b.periodic_step_selector.enabled = o.psel; b.periodic_step_selector.every_n_steps = o.pevery; b.periodic_step_selector.phase_switch_ratio = o.pratio; b.periodic_step_selector.enable_in_deterministic = o.det;
  b.jsonl_log_path = o.jsonl;
  AlgorithmParams a;
  switch (o.alg) {
    case OA::SGD: a = SGDParams(o.mom, o.nesterov, o.wd); break;
    case OA::ADAGRAD: a = AdaGradParams(o.eps, o.acc0); break;
    case OA::ADAM: a = AdamParams(o.b1, o.b2, o.eps, o.wd); break;
    case OA::SR: { StochasticReconfigurationParams p; p.cg_params.max_iter = 2000; p.cg_params.relative_tolerance = 1e-12; p.diag_shift = o.shift; p.normalize_update = o.normalize; a = p; break; }
    case OA::MINSR: a = MinSRParams(o.rp, o.ap, o.soft, o.mode); break;
    default: { LBFGSParams p(o.hist); p.use_damping = o.damping; p.max_direction_norm = o.maxdir; a = p; }
  }
  CheckpointParams ck; ck.every_n_steps = o.ckpt; ck.base_path = o.ckpt_base;
  // The same settings reach the optimiser through the constructors, the builder (setters in any order) or the factory.
  sim::SplitMix h(sim::stable_seed("params_by")); const uint64_t how = h.below(4); std::unique_ptr<LearningRateScheduler> s2 = b.lr_scheduler ? b.lr_scheduler->Clone() : nullptr;
  if (how == 1 && !(o.alg == OA::SGD && o.wd != 0)) {
    OptimizerParamsBuilder bu; std::vector<int> ord{0, 1, 2, 3}, later{4, 5, 6, 7, 8, 9, 10};
    auto shuffle = [&](std::vector<int> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[h.below(i)]); }; shuffle(ord); shuffle(later); ord.insert(ord.end(), later.begin(), later.end());
    for (int k : ord) switch (k) {
      case 0: bu.SetMaxIterations(o.iters); break;
      case 1: bu.SetEnergyTolerance(o.etol); break;
      case 2: bu.SetLearningRate(b.learning_rate, std::move(s2)); break;
      case 3: bu.SetPlateauPatience(o.patience); break;
      case 4: if (o.clipv > 0) bu.SetClipValue(o.clipv); break;
      case 5: if (o.clipn > 0) bu.SetClipNorm(o.clipn); break;
      case 6: bu.SetPeriodicStepSelector(o.psel, o.pevery, o.pratio, o.det); break;
      case 7: bu.SetInitialStepSelector(o.isel, o.isteps, o.det); break;
      case 8: bu.SetCheckpoint(o.ckpt, o.ckpt_base); break;
      case 9: if (!o.sp.enable_auto_recover && !o.sp.enable_rollback && h.below(2)) bu.DisableSpikeRecovery(); else bu.SetSpikeRecovery(o.sp); break;
      default:
        if (o.alg == OA::SGD) bu.WithSGD(o.mom, o.nesterov); else if (o.alg == OA::ADAGRAD) bu.WithAdaGrad(o.eps, o.acc0); else if (o.alg == OA::ADAM) bu.WithAdam(o.b1, o.b2, o.eps, o.wd);
        else if (o.alg == OA::SR) bu.WithStochasticReconfiguration(std::get<StochasticReconfigurationParams>(a)); else if (o.alg == OA::MINSR) bu.WithMinSR(std::get<MinSRParams>(a)); else bu.WithLBFGS(std::get<LBFGSParams>(a));
    }
    OptimizerParams r = bu.Build(); r.base_params.gradient_tolerance = o.gtol; r.base_params.jsonl_log_path = o.jsonl; return r;
  }
  if (how == 2) {
    const bool plain = o.etol == 0 && o.gtol == 0 && o.patience >= o.iters && !s2 && h.below(2); std::optional<OptimizerParams> r;
    if (o.alg == OA::SR) { auto &p = std::get<StochasticReconfigurationParams>(a); r = plain ? OptimizerFactory::CreateStochasticReconfiguration(o.iters, p, b.learning_rate) : OptimizerFactory::CreateStochasticReconfigurationAdvanced(o.iters, o.etol, o.gtol, o.patience, p, b.learning_rate, std::move(s2)); }
    else if (o.alg == OA::SGD && o.sched == 1 && o.mom == 0 && !o.nesterov && o.wd == 0) { if (o.etol == 0 && o.gtol == 0 && o.patience >= o.iters && h.below(2)) r = OptimizerFactory::CreateSGDWithDecay(o.iters, o.lr, o.s_a, o.s_n); else r = OptimizerFactory::CreateSGDWithDecayAdvanced(o.iters, o.etol, o.gtol, o.patience, o.lr, o.s_a, o.s_n); }
    else if (o.alg == OA::ADAM) { r = plain ? OptimizerFactory::CreateAdam(o.iters, b.learning_rate, o.b1, o.b2) : OptimizerFactory::CreateAdamAdvanced(o.iters, o.etol, o.gtol, o.patience, b.learning_rate, o.b1, o.b2, std::move(s2)); auto &q = std::get<AdamParams>(r->algorithm_params); q.epsilon = o.eps; q.weight_decay = o.wd; }
    else if (o.alg == OA::ADAGRAD && !s2) r = plain ? OptimizerFactory::CreateAdaGrad(o.iters, b.learning_rate, o.eps, o.acc0) : OptimizerFactory::CreateAdaGradAdvanced(o.iters, o.etol, o.gtol, o.patience, b.learning_rate, o.eps, o.acc0);
    else if (o.alg == OA::LBFGS) {
      auto &p = std::get<LBFGSParams>(a); const uint64_t w = h.below(2);
      if (plain) r = OptimizerFactory::CreateLBFGS(o.iters, b.learning_rate, o.hist); else if (w) r = OptimizerFactory::CreateLBFGSAdvanced(o.iters, o.etol, o.gtol, o.patience, b.learning_rate, o.hist, std::move(s2)); else r = OptimizerFactory::CreateLBFGSAdvanced(o.iters, o.etol, o.gtol, o.patience, b.learning_rate, p, std::move(s2));
      auto &q = std::get<LBFGSParams>(r->algorithm_params); q.use_damping = p.use_damping; q.max_direction_norm = p.max_direction_norm;
    }
    if (r) { auto &q = r->base_params; q.clip_value = b.clip_value; q.clip_norm = b.clip_norm; q.initial_step_selector = b.initial_step_selector; q.periodic_step_selector = b.periodic_step_selector; q.jsonl_log_path = o.jsonl; r->checkpoint_params = ck; r->spike_recovery_params = o.sp; return *r; }
  }
  return OptimizerParams(b, a, ck, o.sp);
}
// Runs the library on o.n simulated ranks against the script and compares everything observable with the reference.
template<typename E> void run_opt(const OptCase &o, Script<E> sc, const SITPS<E> &init) {
  struct It { size_t i; double e, err, gn; };
  struct RankLog { std::vector<Vec<E>> calls; std::vector<bool> eonly; std::vector<It> it; std::vector<std::pair<Vec<E>, double>> low; std::vector<int> threw; std::vector<typename Optimizer<E, QNT>::OptimizationResult> res; std::vector<size_t> call_end, it_end, low_end; long late = -1; };
  std::vector<RankLog> L(o.n); sc.dim = vec(init, init).size(); sc.n = o.n; sc.ns = o.ns; sc.need_o = o.alg == OA::SR || o.alg == OA::MINSR;
  if (sc.center.empty()) { sim::SplitMix g(sim::mix(sc.seed, 77)); for (size_t i = 0; i < sc.dim; ++i) sc.center.push_back(rnd<E>(g, -1, 1)); }
  std::vector<Vec<E>> starts; for (int k = 0; k < o.runs; ++k) { auto v = vec(init, init); if (k) for (auto &z : v) z *= 0.7; starts.push_back(v); }
  std::vector<RefTrace<E>> ref; size_t c0 = 0;
  for (int k = 0; k < o.runs; ++k) { RefOpt<E> r{o, sc, c0, {}}; auto t = r.run(starts[k]); c0 += t.calls.size(); ref.push_back(t); if (t.skip) { sim::tag("near_tie_skipped"); return; } if (t.throws) break; }
  sim::WorldOpts w; w.nranks = o.n;
  auto out = sim::run_world(w, [&](int me) {
    auto &l = L[me]; Optimizer<E, QNT> opt(opt_params(o), MPI_COMM_WORLD, me, o.n);
    std::vector<SITPS<E>> Os; SITPS<E> Om; std::vector<E> es; size_t call = 0;
    auto sync = [&](const SITPS<E> &s) { SITPS<E> q = s; if (o.n > 1) MPI_Bcast(q, MPI_COMM_WORLD, 0); return vec(q, init); };   // the evaluator distributes the master's state
    auto full = [&](const SITPS<E> &s) -> std::tuple<E, SITPS<E>, double> {
      auto x = sync(s); l.calls.push_back(x); l.eonly.push_back(false); auto v = sc.at(call++, x);
      if (sc.need_o) { Os.clear(); es.clear(); for (int i = 0; i < o.ns; ++i) { Os.push_back(unvec(v.O[size_t(me * o.ns + i)], init)); es.push_back(v.eloc[size_t(me * o.ns + i)]); } if (me == 0) Om = unvec(v.mean, init); }
      return {v.energy, me == 0 ? unvec(v.grad, init) : SITPS<E>(init.rows(), init.cols(), init.PhysicalDim()), me == 0 ? v.err : 0.0};
    };
    auto eonly = [&](const SITPS<E> &s) -> std::pair<double, double> { auto x = sync(s); l.calls.push_back(x); l.eonly.push_back(true); auto v = sc.at(call++, x, true); Os.clear(); return {std::real(v.energy), me == 0 ? v.err : 0.0}; };
    for (int k = 0; k < int(ref.size()); ++k) {
      typename Optimizer<E, QNT>::OptimizationCallback cb;
      cb.on_iteration = [&](size_t i, double e, double er, double gn) { l.it.push_back({i, e, er, gn}); };
      cb.on_lowest_state_found = [&](const SITPS<E> &s, double e) { l.low.push_back({vec(s, init), e}); };
      if (o.stop_at >= 0) cb.should_stop = [&](size_t i, double, double) { return i == size_t(o.stop_at); };
      SITPS<E> st = unvec(starts[k], init); if (me) st = SITPS<E>(init);
      int th = 0;
      std::function<std::pair<double, double>(const SITPS<E> &)> eo; if (o.eonly) eo = eonly;
      try { l.res.push_back(opt.IterativeOptimize(st, full, cb, sc.need_o ? &Os : nullptr, sc.need_o ? &Om : nullptr, sc.need_o ? &es : nullptr, eo)); }
      catch (const std::exception &ex) { th = 1; sim::event_hash(3); (void)ex; }
      // (an earlier run may already be overwritten by the next one of a faster master)
      if (!th && o.ckpt && k + 1 == o.runs) for (auto &c : ref[size_t(k)].ck) { std::ifstream f(o.ckpt_base + "/step_" + std::to_string(c.first) + "/trajectory_snapshot.csv"); size_t lines = 0; std::string ln; while (std::getline(f, ln)) ++lines; if (lines < c.first + 2) l.late = long(c.first); }
      l.threw.push_back(th); l.call_end.push_back(l.calls.size()); l.it_end.push_back(l.it.size()); l.low_end.push_back(l.low.size());
    }
  });
  SIM_CHECK(out.ok(), "%s on %d ranks: the optimisation ended with %s", oa_name(o.alg), o.n, out.str().c_str());
  for (int r = 0; r < o.n; ++r) SIM_CHECK(L[r].late < 0, "%s: rank %d returns from the optimisation before checkpoint %ld is complete on disk", oa_name(o.alg), r, L[r].late);
  const double tol = (o.alg == OA::SR || o.alg == OA::MINSR) ? 1e-6 : 1e-9; const char *an = oa_name(o.alg);
  auto close = [&](double a, double b, double q) { return same_real(a, b, 0) || std::abs(a - b) <= q * (std::abs(a) + std::abs(b) + 1e-12); };
  auto same_e = [&](double a, double b) { return a == b || (sc.statedep && std::abs(a - b) <= 1e-5 * (1 + std::abs(a) + std::abs(b))); };
  size_t cb0 = 0, ib0 = 0, lb0 = 0;
  for (size_t k = 0; k < ref.size(); ++k) {
    auto &t = ref[k]; sim::event_hash(t.calls.size()); for (auto &e : t.ev) sim::event_hash(uint64_t(e.sig) * 8 + uint64_t(e.act));
    for (int r = 0; r < o.n; ++r) {
      auto &l = L[r];
      SIM_CHECK(bool(l.threw[k]) == t.throws, "%s run %zu: rank %d %s, expected %s", an, k, r, l.threw[k] ? "throws" : "returns", t.throws ? "an exception" : "a result");
      const size_t nc = l.call_end[k] - cb0;
      for (size_t i = 0; i < std::min(nc, t.calls.size()); ++i) { double sc2 = 1; for (auto &z : t.calls[i]) sc2 = std::max(sc2, std::abs(z)); double d = vdiff(l.calls[cb0 + i], t.calls[i]); SIM_CHECK(d <= tol * sc2 * (1 + double(i)), "%s run %zu: evaluation %zu is done at a state that differs by %.3g from the documented update (step %zu of the trajectory)", an, k, i, d, i); }
      SIM_CHECK(nc == t.calls.size(), "%s run %zu: rank %d evaluates the energy %zu times, the policy gives %zu", an, k, r, nc, t.calls.size());
      if (t.throws) continue;
      auto &R = l.res[k];
      SIM_CHECK(R.total_iterations == t.total && R.energy_trajectory.size() == t.en.size(), "%s run %zu rank %d: %zu iterations and %zu energies, expected %zu", an, k, r, R.total_iterations, R.energy_trajectory.size(), t.total);
      for (size_t i = 0; i < t.en.size(); ++i) { SIM_CHECK(same_e(std::real(R.energy_trajectory[i]), std::real(t.en[i])) && same_e(std::imag(R.energy_trajectory[i]), std::imag(t.en[i])), "%s run %zu rank %d: energy %zu of the trajectory is not the accepted one", an, k, r, i); SIM_CHECK(close(R.learning_rate_trajectory[i], t.lr[i], 1e-9), "%s run %zu: learning rate of iteration %zu is %.12g, the schedule gives %.12g", an, k, i, R.learning_rate_trajectory[i], t.lr[i]); }
      SIM_CHECK(same_e(R.final_energy, t.final_e) && same_e(R.min_energy, t.min_e), "%s run %zu rank %d: final energy %.12g and lowest %.12g, expected %.12g and %.12g", an, k, r, R.final_energy, R.min_energy, t.final_e, t.min_e);
      if (r == 0) {
        for (size_t i = 0; i < t.en.size(); ++i) SIM_CHECK(R.energy_error_trajectory.at(i) == t.err[i] && close(R.gradient_norms.at(i), t.gn[i], 1e-9), "%s run %zu: error or gradient norm %zu of the trajectory is not the accepted one", an, k, i);
        SIM_CHECK(R.converged == t.converged, "%s run %zu: converged is %d, the stopping criteria give %d", an, k, int(R.converged), int(t.converged));
        double sc2 = 1; for (auto &z : t.final_state) sc2 = std::max(sc2, std::abs(z));
        SIM_CHECK(vdiff(vec(R.optimized_state, init), t.final_state) <= tol * sc2 * (1 + double(t.calls.size())), "%s run %zu: the final state differs by %.3g from the documented one", an, k, vdiff(vec(R.optimized_state, init), t.final_state));
        SIM_CHECK(vdiff(vec(R.lowest_state, init), t.lowest) <= tol * sc2 * (1 + double(t.calls.size())), "%s run %zu: the state reported as lowest is not the one with the lowest energy (difference %.3g)", an, k, vdiff(vec(R.lowest_state, init), t.lowest));
        const size_t nl = l.low_end[k] - lb0; SIM_CHECK(nl == t.low_cb.size(), "%s run %zu: on_lowest_state_found is called %zu times, expected %zu", an, k, nl, t.low_cb.size());
        for (size_t i = 0; i < nl; ++i) SIM_CHECK(same_e(l.low[lb0 + i].second, t.low_cb[i].second) && vdiff(l.low[lb0 + i].first, t.low_cb[i].first) <= tol * sc2 * (1 + double(t.calls.size())), "%s run %zu: on_lowest_state_found call %zu has a wrong state or energy", an, k, i);
        // spike log
        auto &S = R.spike_stats; size_t rs2 = 0, rb = 0, fa = 0; for (auto &e : t.ev) { rs2 += e.act == SpikeAction::kResample; rb += e.act == SpikeAction::kRollback; fa += e.act == SpikeAction::kAcceptWithWarning; }
        for (size_t i = 0; i < std::min(S.event_log.size(), t.ev.size()); ++i) { auto &a = S.event_log[i]; auto &b = t.ev[i]; SIM_CHECK(a.step == b.step && a.attempt == b.attempt && a.signal == b.sig && a.action == b.act && close(a.value, b.value, 1e-5) && close(a.threshold, b.thr, 1e-5), "%s run %zu: spike event %zu is step %zu attempt %zu %s %s %.6g>%.6g, the policy gives step %zu attempt %zu %s %s %.6g>%.6g", an, k, i, a.step, a.attempt, SignalName(a.signal), ActionName(a.action), a.value, a.threshold, b.step, b.attempt, SignalName(b.sig), ActionName(b.act), b.value, b.thr); }
        SIM_CHECK(S.event_log.size() == t.ev.size() && S.total_resamples == rs2 && S.total_rollbacks == rb && S.total_forced_accepts == fa, "%s run %zu: %zu spike events (%zu resamples, %zu rollbacks, %zu forced), the policy gives %zu (%zu, %zu, %zu)", an, k, S.event_log.size(), S.total_resamples, S.total_rollbacks, S.total_forced_accepts, t.ev.size(), rs2, rb, fa);
      }
      // one on_iteration call per accepted iteration, on every rank
      const size_t ni = l.it_end[k] - ib0; SIM_CHECK(ni == t.en.size(), "%s run %zu rank %d: on_iteration is called %zu times for %zu accepted iterations", an, k, r, ni, t.en.size());
      for (size_t i = 0; i < ni; ++i) { auto &a = l.it[ib0 + i]; SIM_CHECK(a.i == i && same_e(a.e, std::real(t.en[i])) && (r || (a.err == t.err[i] && close(a.gn, t.gn[i], 1e-9))), "%s run %zu rank %d: on_iteration call %zu reports other numbers than the trajectory", an, k, r, i); }
    }
    if (t.throws) break;
    cb0 = L[0].call_end[k]; ib0 = L[0].it_end[k]; lb0 = L[0].low_end[k];
    for (auto &e : t.ev) sim::tag(std::string(SignalName(e.sig)) + "_" + ActionName(e.act));
    if (t.converged) sim::tag("converged"); if (t.stopped_by_cb) sim::tag("stopped_by_user");
  }
  if (ref.back().throws) { sim::tag("throws"); return; }
  // files
  if (!o.jsonl.empty()) {
    auto num = [](const std::string &l, const char *key) { auto a = l.find(std::string("\"") + key + "\":"); return a == std::string::npos ? std::nan("") : strtod(l.c_str() + a + strlen(key) + 3, nullptr); };
    std::vector<std::array<double, 3>> xs, xw; for (auto &t : ref) for (size_t i = 0; i < t.en.size(); ++i) xw.push_back({t.err[i], t.gn[i], t.lr[i]});
    std::vector<std::pair<size_t, double>> rows, want; for (auto &t : ref) for (size_t i = 0; i < t.en.size(); ++i) want.push_back({i, std::real(t.en[i])});
    std::ifstream f(o.jsonl); std::string line; while (std::getline(f, line)) { xs.push_back({num(line, "energy_error"), num(line, "grad_norm"), num(line, "lr")}); auto a = line.find("\"iter\":"), b = line.find("\"energy\":"); if (a == std::string::npos || b == std::string::npos) { rows.push_back({9999, 0}); continue; } rows.push_back({size_t(strtoul(line.c_str() + a + 7, nullptr, 10)), strtod(line.c_str() + b + 9, nullptr)}); }
    SIM_CHECK(rows.size() == want.size(), "the JSONL log has %zu records for %zu accepted iterations", rows.size(), want.size());
    for (size_t i = 0; i < rows.size(); ++i) for (int q = 0; q < 3; ++q) SIM_CHECK(close(xs[i][q], xw[i][q], 1e-5), "JSONL record %zu has %s %.8g, the iteration had %.8g", i, q == 0 ? "energy_error" : q == 1 ? "grad_norm" : "lr", xs[i][q], xw[i][q]);
    for (size_t i = 0; i < rows.size(); ++i) SIM_CHECK(rows[i].first == want[i].first && same_e(rows[i].second, want[i].second), "JSONL record %zu is iteration %zu energy %.17g, expected %zu and %.17g", i, rows[i].first, rows[i].second, want[i].first, want[i].second);
  }
  if (o.ckpt) {
    std::map<size_t, std::pair<Vec<E>, size_t>> last; for (size_t k = 0; k < ref.size(); ++k) for (size_t i = 0; i < ref[k].ck.size(); ++i) last[ref[k].ck[i].first] = {ref[k].ck[i].second, k};
    for (size_t k = 1; k <= o.iters; ++k) {
      const std::string d = o.ckpt_base + "/step_" + std::to_string(k); const bool ex = std::filesystem::exists(d); SIM_CHECK(ex == bool(last.count(k)), "checkpoint %s is %s", d.c_str(), ex ? "there but not due" : "missing");
      if (!ex) continue;
      SITPS<E> s(init.rows(), init.cols()); bool ok = false; auto q = sim::run_world({.nranks = 1}, [&](int) { ok = s.Load(d); }); SIM_CHECK(q.ok() && ok, "checkpoint %s does not load", d.c_str());
      auto &t = ref[last[k].second]; double sc2 = 1; for (auto &z : last[k].first) sc2 = std::max(sc2, std::abs(z));
      SIM_CHECK(vdiff(vec(s, init), last[k].first) <= tol * sc2 * (1 + double(t.calls.size())), "checkpoint %s does not hold the state after step %zu (difference %.3g)", d.c_str(), k, vdiff(vec(s, init), last[k].first));
      auto md = read_meta(d + "/checkpoint_meta.txt"); SIM_CHECK(md["step"] == std::to_string(k) && same_e(strtod(md["energy"].c_str(), nullptr), std::real(t.en[k])) && same_real(strtod(md["error"].c_str(), nullptr), t.err[k], 1e-15), "%s/checkpoint_meta.txt is wrong", d.c_str());
      bool cok; auto rws = csv(d + "/trajectory_snapshot.csv", true, cok); SIM_CHECK(cok && rws.size() == k + 1, "%s/trajectory_snapshot.csv has %zu rows, expected %zu", d.c_str(), rws.size(), k + 1);
      for (size_t i = 0; i <= k; ++i) SIM_CHECK(rws[i].size() == 3 && same_e(rws[i][1].real(), std::real(t.en[i])) && rws[i][2].real() == t.err[i], "%s/trajectory_snapshot.csv row %zu is wrong", d.c_str(), i);
    }
  }
  if (!o.sp.log_trigger_csv_path.empty()) {
    const RefTrace<E> *t = nullptr; for (auto &x : ref) if (!x.ev.empty()) t = &x;       // rewritten by every run that had an event
    std::ifstream f(o.sp.log_trigger_csv_path); std::string line; std::vector<std::string> rows; bool head = bool(std::getline(f, line)); while (std::getline(f, line)) rows.push_back(line);
    SIM_CHECK(t ? (head && rows.size() == t->ev.size()) : rows.empty(), "the spike log file has %zu rows for %zu events", rows.size(), t ? t->ev.size() : 0);
    if (t) for (size_t i = 0; i < rows.size(); ++i) { auto &e = t->ev[i]; std::string want = sim::fmt("%zu,%zu,%s,%s,", e.step, e.attempt, SignalName(e.sig), ActionName(e.act)); SIM_CHECK(rows[i].rfind(want, 0) == 0, "spike log row '%s', the event is %s", rows[i].c_str(), want.c_str()); }
  }
}
}
#endif
