// P13: the distributed conjugate-gradient solver ends on every rank and reports truthfully what it solved.
#include "opt.h"
using namespace hx;
template<typename E> using Mat = std::vector<Vec<E>>;
template<typename E> Vec<E> mul(const Mat<E> &A, const Vec<E> &x) { Vec<E> y(A.size(), E(0)); for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < x.size(); ++j) y[i] += A[i][j] * x[j]; return y; }
template<typename E> Vec<E> sub(Vec<E> a, const Vec<E> &b) { axpy(a, E(-1), b); return a; }

// a user's own vector type with the communication functions the solver asks for
template<typename E> struct UV {
  Vec<E> v;
  double NormSquare() const { return std::real(dot(v, v)); }
  E operator*(const UV &o) const { return dot(v, o.v); }
  UV operator+(const UV &o) const { UV r = *this; axpy(r.v, E(1), o.v); return r; }
  UV operator-(const UV &o) const { UV r = *this; axpy(r.v, E(-1), o.v); return r; }
  UV &operator+=(const UV &o) { axpy(v, E(1), o.v); return *this; }
};
template<typename E> UV<E> operator*(double a, const UV<E> &u) { UV<E> r = u; for (auto &x : r.v) x *= a; return r; }
inline UV<Z> operator*(Z a, const UV<Z> &u) { UV<Z> r = u; for (auto &x : r.v) x *= a; return r; }
template<typename E> MPI_Datatype mt() { return std::is_same_v<E, double> ? MPI_DOUBLE : MPI_DOUBLE_COMPLEX; }
template<typename E> void MPI_Bcast(UV<E> &u, const MPI_Comm &c) { int n = int(u.v.size()); ::MPI_Bcast(&n, 1, MPI_INT, 0, c); u.v.resize(n); ::MPI_Bcast(u.v.data(), n, mt<E>(), 0, c); }
template<typename E> void MPI_Send(const UV<E> &u, int d, const MPI_Comm &c, int tag) { ::MPI_Send(u.v.data(), int(u.v.size()), mt<E>(), d, tag, c); }
template<typename E> MPI_Status MPI_Recv(UV<E> &u, int s, const MPI_Comm &c, int tag) {
  MPI_Status st; ::MPI_Probe(s, tag, c, &st); int n; ::MPI_Get_count(&st, mt<E>(), &n); u.v.resize(n); ::MPI_Recv(u.v.data(), n, mt<E>(), st.MPI_SOURCE, tag, c, &st); return st;
}
template<typename E> struct UM { const Mat<E> *A; UV<E> operator*(const UV<E> &x) const { return {mul(*A, x.v)}; } };
template<typename E> struct TM { const Mat<E> *A; const SITPS<E> *like; SITPS<E> operator*(const SITPS<E> &x) const { return unvec(mul(*A, vec(x, *like)), *like); } };

template<typename E> Mat<E> herm(sim::SplitMix &g, const std::vector<double> &w) {          // Hermitian with the given spectrum
  const size_t n = w.size(); Mat<E> A(n, Vec<E>(n, E(0))); for (size_t i = 0; i < n; ++i) A[i][i] = E(w[i]);
  for (int k = 0; k < 3; ++k) {                                                             // Householder reflections
    Vec<E> u(n); for (auto &x : u) x = rnd<E>(g, -1, 1); double s = nrm(u); for (auto &x : u) x /= s;
    auto left = [&](Mat<E> &M) { for (size_t j = 0; j < n; ++j) { E t(0); for (size_t i = 0; i < n; ++i) t += cj(u[i]) * M[i][j]; for (size_t i = 0; i < n; ++i) M[i][j] -= 2.0 * u[i] * t; } };
    left(A); Mat<E> B(n, Vec<E>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) B[i][j] = cj(A[j][i]); left(B); A = B;
  }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { E x = 0.5 * (A[i][j] + cj(A[j][i])); A[i][j] = x; A[j][i] = cj(x); if (i == j) A[i][i] = E(std::real(x)); }
  return A;
}
enum class CK { PD, CLUSTER, ILL, INDEF, NEG, SING, NANM };
template<typename E> struct Problem { CK k; Mat<E> A; std::vector<Mat<E>> part; Vec<E> b, x0, xs; double lo, hi; ConjugateGradientParams p; bool converges = false; };
template<typename E> Problem<E> problem(int n, size_t dim, uint64_t seed) {
  sim::SplitMix g(seed); Problem<E> q; const double u = sim::draw_real("kind", 0, 1);
  q.k = u < 0.4 ? CK::PD : u < 0.55 ? CK::CLUSTER : u < 0.65 ? CK::ILL : u < 0.8 ? CK::INDEF : u < 0.86 ? CK::NEG : u < 0.93 ? CK::SING : CK::NANM;
  const double scale = std::pow(10.0, double(sim::draw("scale", -6, 8))), bs = std::pow(10.0, double(sim::draw("bscale", -4, 6)));
  std::vector<double> w(dim); const double two[] = {1.0, 3.0 + 4 * g.uni()};
  for (auto &x : w) switch (q.k) {
    case CK::PD: case CK::NANM: x = std::pow(10.0, 1.5 * g.uni()); break;
    case CK::CLUSTER: x = two[g.below(2)]; break;
    case CK::ILL: x = std::pow(10.0, 9 * g.uni()); break;
    case CK::INDEF: x = (g.below(2) ? 1 : -1) * (0.1 + g.uni()); break;
    case CK::NEG: x = -(0.1 + g.uni()); break;
    case CK::SING: x = g.below(3) ? 1 + g.uni() : 0; break;
  }
  for (auto &x : w) x *= scale;
  q.lo = INFINITY; q.hi = 0; for (double x : w) q.lo = std::min(q.lo, std::abs(x)), q.hi = std::max(q.hi, std::abs(x));
  q.A = herm<E>(g, w); q.b.resize(dim); for (auto &x : q.b) x = bs * rnd<E>(g, -1, 1);
  if (q.k == CK::NANM) q.A[g.below(dim)][g.below(dim)] = E(g.below(2) ? NAN : INFINITY);
  const long start = sim::draw("start", 0, 3); q.x0.assign(dim, E(0));
  if (q.k != CK::SING && q.k != CK::NANM) q.xs = solve(q.A, q.b);
  if (start == 1) for (auto &x : q.x0) x = bs / scale * rnd<E>(g, -1, 1);
  if (start == 2 && !q.xs.empty()) q.x0 = q.xs;
  if (start == 3 && !q.xs.empty()) { q.x0 = q.xs; for (auto &x : q.x0) x += 1e-3 * bs / scale * rnd<E>(g, -1, 1); }
  if (sim::chance("zero_rhs", 0.05)) { q.b.assign(dim, E(0)); if (!q.xs.empty()) q.xs = q.b; }
  // The ranks hold summands of A that need not be positive or Hermitian each on their own.
  q.part.assign(n, Mat<E>(dim, Vec<E>(dim, E(0))));
  for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) { E left = q.A[i][j]; for (int r = 0; r + 1 < n; ++r) { q.part[r][i][j] = std::isfinite(std::abs(left)) ? left * rnd<E>(g, -0.5, 1) : left; left -= std::isfinite(std::abs(left)) ? q.part[r][i][j] : E(0); } q.part[n - 1][i][j] = left; }
  q.p.relative_tolerance = std::pow(10.0, -double(sim::draw("rtol", 1, 10))); if (sim::chance("atol", 0.3)) { q.p.absolute_tolerance = bs * std::pow(10.0, -double(sim::draw("atolp", 0, 8))); if (sim::chance("no_rtol", 0.5)) q.p.relative_tolerance = 0; }
  q.p.max_iter = sim::chance("few", 0.3) ? size_t(sim::draw("max_few", 0, 6)) : 2000; q.p.residual_recompute_interval = int(sim::chance("norec", 0.2) ? 0 : sim::draw("rec", 1, 25)); q.p.orthogonality_threshold = sim::chance("ortho_default", 0.6) ? 0.5 : sim::draw_real("ortho", 0.05, 1.0);
  if (nrm(q.b) == 0 && q.p.absolute_tolerance == 0) q.p.absolute_tolerance = 1e-8 * bs;
  q.converges = q.p.max_iter >= 2000 && (q.k == CK::PD || q.k == CK::CLUSTER) && !(q.p.relative_tolerance == 0 && q.p.absolute_tolerance < 1e-10 * bs);
  return q;
}
template<typename E> double resid(const Problem<E> &q, const Vec<E> &x) { return nrm(sub(q.b, mul(q.A, x))); }
template<typename E> void judge(const char *who, const Problem<E> &q, const Vec<E> &x, double rn, size_t it, CGTerminationReason why) {
  const bool nan = q.k == CK::NANM; const double tol = std::max(q.p.relative_tolerance * nrm(q.b), q.p.absolute_tolerance);
  SIM_CHECK(it <= q.p.max_iter, "%s: %zu iterations, at most %zu were allowed", who, it, q.p.max_iter);
  SIM_CHECK(why != CGTerminationReason::kMaxIterations || it == q.p.max_iter, "%s: reports exhaustion after %zu of %zu iterations", who, it, q.p.max_iter);
  if (nan) { SIM_CHECK(why != CGTerminationReason::kConverged, "%s: reports convergence for a matrix with non-finite elements", who); SIM_CHECK(vdiff(x, q.x0) == 0, "%s: a matrix with non-finite elements moved the solution", who); return; }
  double xm = nrm(x), round = 1e-13 * (q.hi * (xm + nrm(q.x0)) + nrm(q.b)) * double(1 + it);
  if (!q.xs.empty()) round += 1e-13 * q.hi * nrm(q.xs) * double(1 + it);
  const double tr = resid(q, x), r0 = resid(q, q.x0);
  SIM_CHECK(tr <= r0 * (1 + 1e-9) + round, "%s: returns a solution with residual %g, worse than the initial guess (%g)", who, tr, r0);
  SIM_CHECK(std::abs(tr - rn) <= 1e-7 * std::max(tr, rn) + round, "%s: reports residual %.12g, the returned solution has %.12g", who, rn, tr);
  if (why == CGTerminationReason::kConverged) SIM_CHECK(rn <= tol * (1 + 1e-9) && tr <= tol * (1 + 1e-7) + round, "%s: reports convergence with residual %g (reported %g), tolerance %g", who, tr, rn, tol);
  else SIM_CHECK(rn > tol * (1 - 1e-9), "%s: residual %g is within the tolerance %g but is not reported as converged", who, rn, tol);
  if (q.converges && r0 > tol) {   // Chebyshev bound of conjugate gradients, with room for restarts
    const double sk = std::sqrt(q.hi / q.lo), rate = std::log((sk + 1) / std::max(sk - 1, 1e-3)), bound = 10 + 1.3 * std::log(2 * sk * r0 / std::max(tol, round)) / rate;
    SIM_CHECK(double(it) <= bound, "%s: %zu iterations, conjugate gradients need at most %.0f (condition number %.1f, reduction %g)", who, it, bound, sk * sk, tol / r0);
  }
  if (q.converges) {
    SIM_CHECK(why == CGTerminationReason::kConverged, "%s: a well-conditioned positive system (%zu unknowns) ended with %s after %zu iterations, residual %g, tolerance %g", who, x.size(), to_string(why), it, rn, tol);
    SIM_CHECK(nrm(sub(x, q.xs)) <= 1.01 * tol / q.lo + round / q.lo, "%s: solution off by %g, tolerance %g", who, nrm(sub(x, q.xs)), tol / q.lo);
  }
  if (q.k == CK::NEG && q.p.max_iter > 0 && why != CGTerminationReason::kConverged) SIM_CHECK(why == CGTerminationReason::kIndefiniteMatrix && it == 0, "%s: a negative matrix ended with %s after %zu iterations", who, to_string(why), it);
  if (q.k == CK::PD || q.k == CK::CLUSTER) SIM_CHECK(why != CGTerminationReason::kIndefiniteMatrix && why != CGTerminationReason::kNumericalBreakdown, "%s: a well-conditioned positive matrix is reported as %s", who, to_string(why));
  sim::tag(to_string(why)); if (rn <= tol && it == 0) sim::tag("start_was_solution");
}
template<typename E> void cg(bool tps) {
  swarm(); const int n = int(sim::draw("ranks", 1, 6)), rounds = int(sim::draw("rounds", 1, 3)); const bool part = n > 1 && sim::chance("sub", 0.25);
  std::vector<Problem<E>> ps; std::vector<SITPS<E>> like; 
  for (int k = 0; k < rounds; ++k) {
    size_t dim; uint64_t sd = sim::mix(sim::stable_seed("p"), k);
    if (tps) { like.push_back(make_state<E>(size_t(sim::draw("Ly", 1, 2)), size_t(sim::draw("Lx", 1, 2)), 2, size_t(sim::draw("D", 1, 2)), 5)); dim = vec(like[k], like[k]).size(); } else dim = size_t(sim::draw("dim", 1, 24));
    ps.push_back(problem<E>(n, dim, sd));
  }
  auto out = sim::run_world({.nranks = part ? n + 1 : n}, [&](int me) {
    MPI_Comm c = MPI_COMM_WORLD; int r = me;
    if (part) { MPI_Comm_split(MPI_COMM_WORLD, me == n ? 1 : 0, -me, &c); if (me == n) { MPI_Comm_free(&c); return; } MPI_Comm_rank(c, &r); }
    for (int k = 0; k < rounds; ++k) {
      auto &q = ps[k];
      if (tps) { TM<E> m{&q.part[r], &like[k]}; auto res = ConjugateGradientSolver(m, unvec(q.b, like[k]), unvec(q.x0, like[k]), q.p, c); if (r == 0) judge("distributed state solve", q, vec(res.x, like[k]), res.residual_norm, res.iterations, res.reason); }
      else { UM<E> m{&q.part[r]}; auto res = ConjugateGradientSolver(m, UV<E>{q.b}, UV<E>{q.x0}, q.p, c); if (r == 0) judge("distributed solve", q, res.x.v, res.residual_norm, res.iterations, res.reason); }
    }
    if (part) MPI_Comm_free(&c);
  });
  SIM_CHECK(out.ok(), "distributed solve ended with %s", out.str().c_str());
  for (int k = 0; k < rounds && !tps; ++k) { UM<E> m{&ps[k].A}; auto res = ConjugateGradientSolver(m, UV<E>{ps[k].b}, UV<E>{ps[k].x0}, ps[k].p); judge("serial solve", ps[k], res.x.v, res.residual_norm, res.iterations, res.reason); }
}
// Small integers, so that every curvature is exact: a direction in which the matrix is exactly flat is met at a known step.
template<typename E> void flat_direction() {
  swarm(); const int n = int(sim::draw("ranks", 1, 5)); const size_t dim = size_t(sim::draw("dim", 1, 8)); sim::SplitMix g(sim::stable_seed("p"));
  Problem<E> q; q.k = CK::SING; q.A.assign(dim, Vec<E>(dim, E(0))); q.b.assign(dim, E(0)); q.x0.assign(dim, E(0)); q.hi = 2; q.lo = 1;
  const bool regular = sim::chance("regular", 0.5); bool zero = true;   // regular: the rest of b is hit exactly in one step first
  for (size_t i = 0; i < dim; ++i) { q.A[i][i] = E(double(g.below(2)) * 2); if (std::real(q.A[i][i]) == 0 ? true : regular) { q.b[i] = E(double(int(g.below(7)) - 3)); } if (std::real(q.A[i][i]) == 0 && q.b[i] != E(0)) zero = false; }
  if (!zero) { if (sim::chance("cancel", 0.5)) for (size_t i = 0; i < dim; ++i) if (q.A[i][i] != E(0)) q.b[i] = E(0); }
  q.part.assign(n, Mat<E>(dim, Vec<E>(dim, E(0)))); for (size_t i = 0; i < dim; ++i) { double left = std::real(q.A[i][i]); for (int r = 0; r + 1 < n; ++r) { double x = double(int(g.below(9)) - 4); q.part[r][i][i] = E(x); left -= x; } q.part[n - 1][i][i] = E(left); }
  q.p.relative_tolerance = 1e-8; q.p.max_iter = 50; q.p.residual_recompute_interval = int(sim::draw("rec", 0, 5)); q.p.orthogonality_threshold = 0.5;
  bool only_flat = !zero; for (size_t i = 0; i < dim; ++i) if (q.A[i][i] != E(0) && q.b[i] != E(0)) only_flat = false;
  auto verdict = [&](const char *who, const Vec<E> &x, double rn, size_t it, CGTerminationReason why) {
    judge(who, q, x, rn, it, why); if (nrm(q.b) == 0) return;
    if (only_flat) SIM_CHECK(why == CGTerminationReason::kIndefiniteMatrix && it == 0, "%s: a search direction without curvature ended with %s after %zu iterations", who, to_string(why), it);
    if (zero) SIM_CHECK(why == CGTerminationReason::kConverged, "%s: a consistent singular system ended with %s", who, to_string(why));
    sim::tag(only_flat ? "flat_direction" : "flat_part");
  };
  auto out = sim::run_world({.nranks = n}, [&](int me) { UM<E> m{&q.part[me]}; auto res = ConjugateGradientSolver(m, UV<E>{q.b}, UV<E>{q.x0}, q.p, MPI_COMM_WORLD); if (!me) verdict("distributed solve", res.x.v, res.residual_norm, res.iterations, res.reason); });
  SIM_CHECK(out.ok(), "distributed solve ended with %s", out.str().c_str());
  UM<E> m{&q.A}; auto res = ConjugateGradientSolver(m, UV<E>{q.b}, UV<E>{q.x0}, q.p); verdict("serial solve", res.x.v, res.residual_norm, res.iterations, res.reason);
}
SCENARIO("P13", flat_directions, 0.4) { if (sim::chance("cplx", 0.5)) flat_direction<Z>(); else flat_direction<double>(); }
SCENARIO("P13", user_vectors, 3) { if (sim::chance("cplx", 0.5)) cg<Z>(false); else cg<double>(false); }
SCENARIO("P13", states, 1) { if (sim::chance("cplx", 0.5)) cg<Z>(true); else cg<double>(true); }
HARNESS_MAIN
