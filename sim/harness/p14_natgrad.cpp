// P14: natural-gradient directions (SR and MinSR) are those of the whole sample set, however it is spread over the ranks.
#include "opt.h"
using namespace hx;
namespace {                                   // this file is compiled twice (see p14_scalapack.cpp)

template<typename E> struct Set { SITPS<E> like; size_t dim; Sample<E> s; };
template<typename E> Set<E> samples(size_t N) {
  Set<E> q{make_state<E>(size_t(sim::draw("Ly", 1, 2)), size_t(sim::draw("Lx", 1, 3)), size_t(sim::draw("phys", 1, 3)), size_t(sim::draw("D", 1, 2)), 7), 0, {}};
  q.dim = vec(q.like, q.like).size(); sim::SplitMix g(sim::stable_seed("samples"));
  const bool sparse = sim::chance("sparse", 0.6), dup = sim::chance("dup", 0.2), common = sim::chance("large_mean", 0.2), eq = sim::chance("equal_energies", 0.05); const double es = std::pow(10.0, double(sim::draw("escale", -3, 3)));
  Vec<E> off(q.dim, E(0)); if (common) for (auto &x : off) x = 10.0 * rnd<E>(g, -1, 1);
  E em(0); q.s.mean.assign(q.dim, E(0));
  for (size_t i = 0; i < N; ++i) {
    Vec<E> o(q.dim); for (auto &x : o) x = rnd<E>(g, -1, 1); axpy(o, E(1), off);
    if (sparse) {                                             // as in a run: only the visited physical component of every site is filled
      size_t k = 0; for (size_t r = 0; r < q.like.rows(); ++r) for (size_t c = 0; c < q.like.cols(); ++c) { const size_t v = g.below(q.like.PhysicalDim()); for (size_t p = 0; p < q.like.PhysicalDim(); ++p) { size_t n = 1; for (auto d : q.like({r, c})[p].GetShape()) n *= d; for (size_t j = 0; j < n; ++j, ++k) if (p != v) o[k] = E(0); } }
    }
    if (dup && i && g.below(2)) o = q.s.O[g.below(i)];
    q.s.O.push_back(o); q.s.eloc.push_back(es * (eq ? E(0.5) : rnd<E>(g, -1, 1)));
  }
  for (size_t i = 0; i < N; ++i) { axpy(q.s.mean, E(1.0 / double(N)), q.s.O[i]); em += q.s.eloc[i] / double(N); }
  q.s.energy = em; q.s.grad.assign(q.dim, E(0));
  for (size_t i = 0; i < N; ++i) { Vec<E> d = q.s.O[i]; axpy(d, E(-1), q.s.mean); axpy(q.s.grad, cj(q.s.eloc[i] - em) / double(N), d); }
  if (sparse) sim::tag("sparse_samples"); if (dup) sim::tag("repeated_samples");
  return q;
}
template<typename E> std::vector<SITPS<E>> local(const Set<E> &q, int r, int n) { const size_t k = q.s.O.size() / size_t(n); std::vector<SITPS<E>> v; for (size_t i = 0; i < k; ++i) v.push_back(unvec(q.s.O[size_t(r) * k + i], q.like)); return v; }
// The same global samples on two layouts of the same job.
static std::pair<int, int> layouts(size_t &N) { const int a = int(sim::draw("ranks", 1, 6)), b = int(sim::draw("ranks2", 1, 6)); const size_t l = size_t(std::lcm(a, b)); N = l * size_t(sim::draw("mult", 1, std::max<long>(1, 18 / long(l)))); return {a, b}; }
template<typename E> double scale(const Vec<E> &v) { double m = 0; for (auto &x : v) m = std::max(m, std::abs(x)); return m; }

#ifndef P14_SCALAPACK
template<typename E> void sr() {
  swarm(); size_t N; auto [a, b] = layouts(N); auto q = samples<E>(N); OptCase o; o.alg = OA::SR; o.shift = std::pow(10.0, -double(sim::draw("shift", 0, 3))); Script<E> sc; sc.dim = q.dim;
  RefOpt<E> ref{o, sc, 0, {}}; const Vec<E> want = ref.natural(q.s); const double lr = sim::draw_real("lr", 0.01, 1); const bool norm = sim::chance("normalize", 0.4), guess = sim::chance("guess", 0.5) && nrm(q.s.grad) > 1e-9; sim::SplitMix gg(sim::stable_seed("guess"));
  Vec<E> x0(q.dim, E(0)), st(q.dim); for (auto &x : st) x = rnd<E>(gg, -1, 1); if (guess) for (auto &x : x0) x = rnd<E>(gg, -1, 1);
  double cond = 0; for (auto &x : q.s.O) cond += std::norm(nrm(x)); cond = (cond / double(N) + o.shift) / o.shift;
  if (cond > 1e5) { sim::tag("ill_conditioned"); return; }      // a residual of 1e-12 is then below round-off
  for (int n : {a, b}) {
    auto out = sim::run_world({.nranks = n}, [&](int me) {
      Optimizer<E, QNT> opt(opt_params(o), MPI_COMM_WORLD, me, n); auto Os = local(q, me, n); SITPS<E> Om, gr(q.like.rows(), q.like.cols(), q.like.PhysicalDim()), dg = gr;
      if (me == 0) { Om = unvec(q.s.mean, q.like); gr = unvec(q.s.grad, q.like); }
      auto up = opt.StochasticReconfigurationUpdate(unvec(st, q.like), gr, Os, Om, lr, guess ? unvec(x0, q.like) : dg, norm);
      if (me) return;
      const double wn = nrm(want), tol = 1e-11 * cond * (wn + (guess ? nrm(x0) : 0)) + 1e-14; Vec<E> ex = st; axpy(ex, E(-(norm && wn > 0 ? lr / wn : lr)), want);
      if (norm && wn < 1e3 * tol) { sim::tag("zero_direction"); return; }
      SIM_CHECK(std::abs(std::get<1>(up) - wn) <= tol, "SR on %d ranks: natural gradient norm %.12g, the samples give %.12g", n, std::get<1>(up), wn);
      SIM_CHECK(vdiff(vec(std::get<0>(up), q.like), ex) <= 10 * tol * (norm ? 1 / wn : 1) + 1e-13, "SR on %d ranks (%zu samples): the update differs by %.3g from that of the whole sample set", n, N, vdiff(vec(std::get<0>(up), q.like), ex));
    });
    SIM_CHECK(out.ok(), "SR on %d ranks ended with %s", n, out.str().c_str());
  }
}
SCENARIO("P14", stochastic_reconfiguration, 3) { if (sim::chance("cplx", 0.5)) sr<Z>(); else sr<double>(); }
#endif

template<typename E> void minsr() {
  swarm(); size_t N; auto [a, b] = layouts(N); auto q = samples<E>(N); OptCase o; o.alg = OA::MINSR; o.rp = std::pow(10.0, -sim::draw_real("rp", 1, 4)); if (sim::chance("ap", 0.3)) o.ap = sim::draw_real("apv", 0, 0.1); o.soft = sim::chance("soft", 0.6); o.mode = sim::chance("auto", 0.3) ? MinSRSolverMode::kAuto : MinSRSolverMode::kReplicated;
#ifdef P14_SCALAPACK
  o.mode = MinSRSolverMode::kDistributed;
#endif
  Script<E> sc; sc.dim = q.dim; RefOpt<E> ref{o, sc, 0, {}}; const Vec<E> want = ref.natural(q.s); if (ref.t.skip) { sim::tag("near_tie_skipped"); return; }
  sim::SplitMix gg(sim::stable_seed("st")); Vec<E> st(q.dim); for (auto &x : st) x = rnd<E>(gg, -1, 1); const double lr = sim::draw_real("lr", 0.01, 1);
  double mx = 0; std::vector<Vec<E>> d = q.s.O; for (auto &x : d) { axpy(x, E(-1), q.s.mean); mx = std::max(mx, nrm(x)); }
  std::vector<Vec<E>> T(N, Vec<E>(N)); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) T[i][j] = dot(d[i], d[j]) / double(N);
  Vec<E> de = q.s.eloc; for (auto &x : de) x -= q.s.energy; double om = 0; for (auto &x : q.s.O) om = std::max(om, nrm(x));
  double lam = 0; for (size_t i = 0; i < N; ++i) lam += std::real(T[i][i]); const double cut = o.rp * lam / double(N) + o.ap;   // a lower bound of the cutoff
  if (lam < 1e-9 * om * om || mx < 1e-6 * om) { sim::tag("no_variance"); }
  for (int n : {a, b}) {
    auto out = sim::run_world({.nranks = n}, [&](int me) {
      Optimizer<E, QNT> opt(opt_params(o), MPI_COMM_WORLD, me, n); auto Os = local(q, me, n); const size_t k = Os.size(); SITPS<E> Om, gr(q.like.rows(), q.like.cols(), q.like.PhysicalDim()); if (me == 0) Om = unvec(q.s.mean, q.like);
      std::vector<E> es(q.s.eloc.begin() + long(size_t(me) * k), q.s.eloc.begin() + long(size_t(me + 1) * k));
      MinSRTMatrix<E, QNT> tm; tm.Construct(Os, MPI_COMM_WORLD);
      SIM_CHECK(tm.LocalRows() == k && tm.GlobalSize() == N, "overlap matrix on %d ranks: %zu x %zu rows", n, tm.LocalRows(), tm.GlobalSize());
      for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < N; ++j) SIM_CHECK(std::abs(tm.RowBlockData()[i * N + j] - T[size_t(me) * k + i][j]) <= 1e-12 * om * om / double(N), "overlap matrix on %d ranks: element (%zu,%zu) is off by %.3g", n, size_t(me) * k + i, j, std::abs(tm.RowBlockData()[i * N + j] - T[size_t(me) * k + i][j]));
      auto up = opt.MinSRUpdate(unvec(st, q.like), gr, Os, Om, es, q.s.energy, lr, std::get<MinSRParams>(opt_params(o).algorithm_params));
      if (me || lam < 1e-9 * om * om) return;
      const double tol = 1e-13 * om * om / (cut * cut) * nrm(de) * om + 1e-13; Vec<E> ex = st; axpy(ex, E(-lr), want);
      if (tol > 1e-3 * (1e-3 + nrm(want))) { sim::tag("ill_conditioned"); return; }
      SIM_CHECK(std::abs(up.second - nrm(want)) <= tol * double(N) + 1e-10 * nrm(want), "MinSR on %d ranks: natural gradient norm %.12g, the samples give %.12g", n, up.second, nrm(want));
      SIM_CHECK(vdiff(vec(up.first, q.like), ex) <= tol * double(N) + 1e-10 * scale(want), "MinSR on %d ranks (%zu samples): the update differs by %.3g from that of the whole sample set", n, N, vdiff(vec(up.first, q.like), ex)); sim::tag("compared");
    });
    SIM_CHECK(out.ok(), "MinSR on %d ranks ended with %s", n, out.str().c_str());
  }
}
#ifdef P14_SCALAPACK
SCENARIO("P14", minimal_sr_scalapack, 2) { if (sim::chance("cplx", 0.5)) minsr<Z>(); else minsr<double>(); }
#else
SCENARIO("P14", minimal_sr, 3) { if (sim::chance("cplx", 0.5)) minsr<Z>(); else minsr<double>(); }
#endif

// The pseudo-inverse solve by itself: a Hermitian matrix of known spectrum, spread over the ranks by rows.
template<typename E> void solve() {
  swarm(); const int n = int(sim::draw("ranks", 1, 6)); size_t k = size_t(sim::draw("rows", 1, 4));
#ifdef P14_SCALAPACK
  if (sim::chance("large", 0.1)) k = (size_t(sim::draw("order", 60, 100)) + size_t(n) - 1) / size_t(n);      // more than one block of the block-cyclic layout
#endif
  const size_t N = size_t(n) * k; const bool soft = sim::chance("soft", 0.5), bad = sim::chance("nan", 0.05);
  const double s = std::pow(10.0, double(sim::draw("scale", -4, 4))), rp = std::pow(10.0, -sim::draw_real("rp", 1, 4)), ap = sim::chance("ap", 0.3) ? s * 0.1 * sim::draw_real("apv", 0, 1) : 0; sim::SplitMix g(sim::stable_seed("matrix"));
  const double cut = rp * 2 * s + ap; std::vector<double> l(N); const bool neg = sim::chance("negative", 0.3);
  for (auto &x : l) { const auto q = g.below(4); x = q == 0 ? 0 : q == 1 ? 0.3 * cut * g.uni() : std::min(2 * s, 3 * cut + (2 * s - 3 * cut) * g.uni()); if (neg && g.below(3) == 0) x = -x; }
  l[g.below(N)] = neg && g.below(2) ? -2 * s : 2 * s;
  std::vector<Vec<E>> h(3, Vec<E>(N)); for (auto &v : h) { for (auto &x : v) x = rnd<E>(g, -1, 1); const double q = nrm(v); if (q == 0) v[0] = E(1); else for (auto &x : v) x /= q; }
  auto Q = [&](Vec<E> x, bool adj) { for (size_t i = 0; i < h.size(); ++i) { auto &v = h[adj ? i : h.size() - 1 - i]; axpy(x, E(-2) * dot(v, x), v); } return x; };
  auto apply = [&](const Vec<E> &x, auto f) { Vec<E> y = Q(x, true); for (size_t i = 0; i < N; ++i) y[i] *= f(l[i]); return Q(y, false); };
  std::vector<Vec<E>> T(N, Vec<E>(N)); for (size_t j = 0; j < N; ++j) { Vec<E> e(N, E(0)); e[j] = E(1); auto c = apply(e, [](double x) { return x; }); for (size_t i = 0; i < N; ++i) T[i][j] = c[i]; }
  for (size_t i = 0; i < N; ++i) { T[i][i] = E(std::real(T[i][i])); for (size_t j = 0; j < i; ++j) T[i][j] = cj(T[j][i]); }
  Vec<E> rhs(N); for (auto &x : rhs) x = rnd<E>(g, -1, 1);
  const auto want = apply(rhs, [&](double x) { if (soft) { const double c6 = std::pow(cut / s, 6), y = x / s, d = std::pow(y, 6) + c6; return d == 0 ? 0 : std::pow(y, 5) / d / s; } return std::abs(x) > cut ? 1 / x : 0.0; });
  if (bad) { const size_t i = g.below(N), j = g.below(N); T[i][j] = T[j][i] = E(NAN); }
  const bool zero = !bad && sim::chance("zero_matrix", 0.04); if (zero) for (auto &v : T) for (auto &x : v) x = E(0);      // no variance at all: the pseudo-inverse of zero is zero
#ifdef P14_SCALAPACK
  const auto mode = MinSRSolverMode::kDistributed; const char *nm = "the distributed solver";
#else
  const auto mode = sim::chance("auto", 0.5) ? MinSRSolverMode::kAuto : MinSRSolverMode::kReplicated; const char *nm = "the replicated solver";
#endif
  std::vector<int> threw(n, 0); std::vector<std::vector<E>> y(n);
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    std::vector<E> rows; for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < N; ++j) rows.push_back(T[size_t(me) * k + i][j]);
    try { y[me] = MinSREigenSolveDispatch<E>(rows.data(), k, N, rhs, MPI_COMM_WORLD, rp, ap, soft, mode); } catch (const std::runtime_error &) { threw[me] = 1; }
  });
  SIM_CHECK(out.ok(), "%s on %d ranks (%zu x %zu) ended with %s", nm, n, N, N, out.str().c_str());
  for (int r = 0; r < n; ++r) SIM_CHECK(threw[r] == threw[0], "%s on %d ranks: rank %d %s, rank 0 %s", nm, n, r, threw[r] ? "fails" : "succeeds", threw[0] ? "fails" : "succeeds");
  if (bad) { sim::note_fault("non_finite_matrix"); if (mode != MinSRSolverMode::kDistributed) SIM_CHECK(threw[0], "%s on %d ranks accepts a matrix with a NaN", nm, n); return; }
  if (zero) { for (int r = 0; r < n; ++r) SIM_CHECK(!threw[0] && y[r].size() == N && nrm(Vec<E>(y[r])) == 0, "%s on %d ranks: the solution for the zero matrix is not zero", nm, n); sim::tag("zero_matrix"); return; }
  SIM_CHECK(!threw[0], "%s on %d ranks fails on a proper %zu x %zu matrix", nm, n, N, N); const double tol = 3e-14 * double(N) * s / (cut * cut) * nrm(rhs);
  for (int r = 0; r < n; ++r) SIM_CHECK(y[r].size() == N && vdiff(Vec<E>(y[r]), want) <= tol + 1e-13 * nrm(want), "%s on %d ranks (%zu x %zu, %s cutoff): the solution of rank %d differs by %.3g of %.3g from the pseudo-inverse", nm, n, N, N, soft ? "soft" : "hard", r, y[r].size() == N ? vdiff(Vec<E>(y[r]), want) : -1, nrm(want));
  if (N > 64) sim::tag("block_cyclic"); sim::tag(soft ? "soft" : "hard");
}
#ifdef P14_SCALAPACK
SCENARIO("P14", pseudo_inverse_scalapack, 2) { if (sim::chance("cplx", 0.5)) solve<Z>(); else solve<double>(); }
#else
SCENARIO("P14", pseudo_inverse, 2) { if (sim::chance("cplx", 0.5)) solve<Z>(); else solve<double>(); }

// The distributed S operator: the ranks' products add up to (S + shift) v for any v.
template<typename E> void smat() {
  swarm(); size_t N; auto [a, b] = layouts(N); auto q = samples<E>(N); const double shift = sim::chance("shift", 0.6) ? sim::draw_real("sh", 0.001, 1) : 0; sim::SplitMix gg(sim::stable_seed("v")); const int reps = int(sim::draw("reps", 1, 3));
  std::vector<Vec<E>> vs(reps, Vec<E>(q.dim)); for (auto &v : vs) for (auto &x : v) x = rnd<E>(gg, -1, 1);
  for (int n : {a, b}) {
    std::vector<std::vector<Vec<E>>> res(n, std::vector<Vec<E>>(reps));
    auto out = sim::run_world({.nranks = n}, [&](int me) {
      auto Os = local(q, me, n); SITPS<E> Om; if (me == 0) Om = unvec(q.s.mean, q.like); SRSMatrix<E, QNT> S(&Os, me == 0 ? &Om : nullptr, size_t(n), MPI_COMM_WORLD); S.diag_shift = shift;
      for (int k = 0; k < reps; ++k) res[me][k] = vec(S * unvec(vs[k], q.like), q.like);
    });
    SIM_CHECK(out.ok(), "S matrix on %d ranks ended with %s", n, out.str().c_str());
    for (int k = 0; k < reps; ++k) {
      Vec<E> w = vs[k]; for (auto &x : w) x *= shift; double om = 0;
      for (auto &x : q.s.O) { Vec<E> d = x; axpy(d, E(-1), q.s.mean); axpy(w, dot(d, vs[k]) / double(N), d); om = std::max(om, nrm(x)); }
      Vec<E> g(q.dim, E(0)); for (int r = 0; r < n; ++r) axpy(g, E(1), res[r][k]);
      SIM_CHECK(vdiff(g, w) <= 1e-12 * (om * om + 1) * nrm(vs[k]), "S matrix on %d ranks: product %d differs by %.3g", n, k, vdiff(g, w));
    }
  }
}
SCENARIO("P14", s_matrix, 1) { if (sim::chance("cplx", 0.5)) smat<Z>(); else smat<double>(); }

// A solve that cannot be done fails on every rank.
template<typename E> void failing() {
  swarm(); size_t N; auto [a, b] = layouts(N); (void)b; auto q = samples<E>(N); const int n = a, kind = int(sim::draw("kind", 0, 2)); OptCase o; o.alg = kind == 2 ? OA::MINSR : OA::SR; o.mode = MinSRSolverMode::kDistributed;
  if (kind == 0) { double m = 0; for (auto &x : q.s.O) m = std::max(m, nrm(x)); o.shift = -10 * m * m - 1; }
  const long bad = sim::draw("bad", 0, long(N) - 1); if (kind == 1) q.s.O[size_t(bad)][size_t(sim::draw("where", 0, long(q.dim) - 1))] = E(NAN);
  for (auto &x : q.s.grad) if (x == E(0) || kind == 1) x = E(0.5);
  std::vector<int> threw(n, 0);
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    Optimizer<E, QNT> opt(opt_params(o), MPI_COMM_WORLD, me, n); auto Os = local(q, me, n); SITPS<E> Om, gr(q.like.rows(), q.like.cols(), q.like.PhysicalDim()), dg = gr; std::vector<E> es(Os.size(), E(1));
    if (me == 0) { Om = unvec(q.s.mean, q.like); gr = unvec(q.s.grad, q.like); }
    try { if (kind == 2) opt.MinSRUpdate(q.like, gr, Os, Om, es, E(0), 0.1, std::get<MinSRParams>(opt_params(o).algorithm_params)); else opt.CalculateNaturalGradient(gr, Os, Om, dg); } catch (const std::runtime_error &) { threw[me] = 1; }
  });
  SIM_CHECK(out.ok(), "a solve that cannot be done on %d ranks ended with %s", n, out.str().c_str());
  const char *nm[] = {"indefinite SR matrix", "non-finite sample", "missing ScaLAPACK"}; sim::note_fault(nm[kind]);
  for (int r = 0; r < n; ++r) SIM_CHECK(threw[r], "%s on %d ranks: rank %d reports success", nm[kind], n, r);
}
SCENARIO("P14", impossible_solves, 1) { if (sim::chance("cplx", 0.5)) failing<Z>(); else failing<double>(); }

// Whole optimisations with natural gradients against the reference optimiser.
template<typename E> void jobs() {
  swarm(); OptCase o; o.alg = sim::chance("minsr", 0.5) ? OA::MINSR : OA::SR; o.n = int(sim::draw("ranks", 1, 6)); o.ns = int(sim::draw("ns", 1, 4)); o.iters = size_t(sim::draw("iters", 1, 5)); o.lr = sim::draw_real("lr", 0.01, 0.3); o.sp.enable_auto_recover = false; o.sp.enable_rollback = false; o.shift = sim::draw_real("shift", 0.01, 1); o.normalize = sim::chance("normalize", 0.3); o.rp = sim::draw_real("rp", 0.01, 0.1); o.soft = sim::chance("soft", 0.5);
  Script<E> s; s.seed = sim::stable_seed("script"); if (o.n * o.ns < 2) o.ns = 2;
  run_opt<E>(o, s, make_state<E>(size_t(sim::draw("Ly", 1, 2)), size_t(sim::draw("Lx", 1, 2)), 2, size_t(sim::draw("D", 1, 2)), sim::stable_seed("start"), -1, 1));
}
SCENARIO("P14", optimisations, 1) { if (sim::chance("cplx", 0.5)) jobs<Z>(); else jobs<double>(); }
#endif
}
#ifndef P14_SCALAPACK
HARNESS_MAIN
#endif
