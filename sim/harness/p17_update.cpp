// P17: every optimiser follows its documented update rule, learning-rate schedule, clipping and step selection.
#include "opt.h"
using namespace hx;

template<typename E> SITPS<E> start_state() { return make_state<E>(size_t(sim::draw("Ly", 1, 2)), size_t(sim::draw("Lx", 1, 2)), 2, size_t(sim::draw("D", 1, 2)), sim::stable_seed("start"), -1, 1); }
static void common(OptCase &o) {
  swarm(); o.n = int(sim::draw("ranks", 1, 4)); o.iters = size_t(sim::draw("iters", 1, 8)); o.lr = sim::draw_real("lr", 0.01, 0.3);
  o.sp.enable_auto_recover = false; o.sp.enable_rollback = false; o.runs = int(sim::draw("runs", 1, 2)); o.eps = 1e-13;
}
template<typename E> Script<E> script() {
  Script<E> s; s.seed = sim::stable_seed("script"); s.drift = 0.3; if (sim::chance("zero_components", 0.3)) { s.p_zero_comp = 0.3; s.comp = size_t(sim::draw("comp", 1, 4)); } return s;
}
static void schedule(OptCase &o) {
  o.sched = int(sim::draw("schedule", 0, 7)); if (o.sched == 6 && o.runs > 1) o.runs = 1;
  o.s_n = size_t(sim::draw("s_n", 1, 5)); o.s_a = sim::draw_real("s_a", 0.2, 0.95); o.s_b = o.sched == 6 ? sim::draw_real("s_thr", 0.0, 0.4) : sim::draw_real("s_b", 0.0, 0.05);
  for (int i = 0, k = int(sim::draw("milestones", 0, 3)); i < k; ++i) o.ms.push_back(size_t(sim::draw("ms", 0, 8)));
}
template<typename E> void first_order() {
  OptCase o; common(o); o.alg = OA(sim::draw("alg", 0, 2)); schedule(o);
  if (sim::chance("clipv", 0.4)) o.clipv = sim::draw_real("clip_value", 0.1, 1.2);
  if (sim::chance("clipn", 0.4)) o.clipn = sim::draw_real("clip_norm", 0.3, 3.0);
  if (sim::chance("momentum", 0.6)) o.mom = sim::draw_real("mom", 0.1, 0.95); o.nesterov = sim::chance("nesterov", 0.4); if (sim::chance("decay", 0.4)) o.wd = sim::draw_real("wd", 0.001, 0.5);
  o.b1 = sim::draw_real("b1", 0.0, 0.95); o.b2 = sim::draw_real("b2", 0.1, 0.999); o.acc0 = sim::chance("acc0", 0.5) ? 0.0 : sim::draw_real("acc", 0.001, 1.0);
  auto s = script<E>(); sim::tag(oa_name(o.alg)); run_opt<E>(o, s, start_state<E>());
}
SCENARIO("P17", first_order, 5) { if (sim::chance("cplx", 0.5)) first_order<Z>(); else first_order<double>(); }

template<typename E> void selectors() {
  OptCase o; common(o); o.alg = sim::chance("natural", 0.35) ? (sim::chance("minsr", 0.5) ? OA::MINSR : OA::SR) : OA::SGD;
  o.isel = sim::chance("initial", 0.6); o.psel = !o.isel || sim::chance("periodic", 0.6); o.isteps = size_t(sim::draw("isteps", 1, 4)); o.pevery = size_t(sim::draw("pevery", 1, 3)); o.pratio = sim::chance("exact_phase", 0.4) ? double(sim::draw("phase", 0, 4)) / 4 : sim::draw_real("pratio", 0, 1); o.det = sim::chance("det", 0.5); o.eonly = sim::chance("eonly", 0.6);
  o.lr = sim::draw_real("lr2", 0.1, 1.5); if (sim::chance("momentum", 0.5)) o.mom = sim::draw_real("mom", 0.1, 0.9); o.nesterov = sim::chance("nesterov", 0.4); if (sim::chance("decay", 0.3)) o.wd = 0.1; if (o.alg == OA::SGD && sim::chance("clipn", 0.3)) o.clipn = 1.0; o.normalize = sim::chance("normalize", 0.3);
  auto s = script<E>(); s.statedep = sim::chance("statedep", 0.6); s.convex = s.statedep; if (sim::chance("zero_err", 0.2)) s.p_zero_err = 0.2; if (sim::chance("nan", 0.15)) s.p_nan = 0.1;
  sim::tag("selector"); run_opt<E>(o, s, start_state<E>());
}
SCENARIO("P17", selectors, 3) { if (sim::chance("cplx", 0.5)) selectors<Z>(); else selectors<double>(); }

template<typename E> void lbfgs() {
  OptCase o; common(o); o.alg = OA::LBFGS; o.hist = size_t(sim::draw("hist", 1, 4)); if (sim::chance("no_history", 0.03)) o.hist = 0; o.iters = size_t(sim::draw("iters2", 1, 10)); o.lr = sim::draw_real("lr2", 0.05, 0.8); if (sim::chance("maxdir", 0.3)) o.maxdir = sim::draw_real("md", 0.2, 2.0);
  if (sim::chance("sched", 0.3)) schedule(o);
  auto s = script<E>(); s.convex = sim::chance("convex", 0.7); o.damping = s.convex && sim::chance("damping", 0.5); s.p_zero_comp = 0; sim::tag("lbfgs"); run_opt<E>(o, s, start_state<E>());
}
SCENARIO("P17", lbfgs, 2) { if (sim::chance("cplx", 0.5)) lbfgs<Z>(); else lbfgs<double>(); }

// L-BFGS with a strong-Wolfe line search on a smooth convex function: judged by what the search promises, not by its path.
template<typename E> void wolfe() {
  swarm(); const int n = int(sim::draw("ranks", 1, 4)); const size_t iters = size_t(sim::draw("iters", 1, 9)); auto init = start_state<E>(); const size_t dim = vec(init, init).size();
  const double quart = sim::chance("quartic", 0.5) ? sim::draw_real("quart", 0.05, 1.0) : 0; Vec<E> center; { sim::SplitMix g(sim::stable_seed("c")); for (size_t i = 0; i < dim; ++i) center.push_back(rnd<E>(g, -1, 1)); }
  auto f = [&](const Vec<E> &x, Vec<E> *g) { double e = 0, q = 0; for (size_t i = 0; i < dim; ++i) q += std::norm(x[i] - center[i]); for (size_t i = 0; i < dim; ++i) { const double k = 0.5 + double((i * 7) % 5) * 0.4; e += 0.5 * k * std::norm(x[i] - center[i]); if (g) (*g)[i] = E(k + quart * q) * (x[i] - center[i]); } return e + 0.25 * quart * q * q; };
  LBFGSParams lp(size_t(sim::draw("hist", 1, 4))); lp.step_mode = LBFGSStepMode::kStrongWolfe; lp.use_damping = false; lp.wolfe_c1 = sim::chance("c1", 0.5) ? 1e-4 : sim::draw_real("c1v", 0.01, 0.3); lp.wolfe_c2 = sim::chance("c2", 0.5) ? 0.9 : sim::draw_real("c2v", 0.35, 0.8);
  lp.max_eval = sim::chance("few", 0.3) ? size_t(sim::draw("max_eval", 1, 4)) : 60; lp.max_step = sim::chance("short_max", 0.3) ? sim::draw_real("max_step", 0.05, 1.0) : 64; lp.min_step = sim::chance("min", 0.3) ? sim::draw_real("min_step", 1e-4, 0.04) : 1e-8; lp.tolerance_grad = sim::chance("tg", 0.3) ? sim::draw_real("tolg", 1e-4, 0.5) : 1e-5;
  lp.max_direction_norm = sim::chance("maxdir", 0.2) ? sim::draw_real("md", 0.5, 3.0) : 1e3; lp.allow_fallback_to_fixed_step = sim::chance("fallback", 0.5); lp.fallback_fixed_step_scale = sim::draw_real("fbs", 0.05, 0.9);
  const double lr = sim::draw_real("lr", 0.005, 3.0); bool bad = false; if (sim::chance("bad_params", 0.06)) { bad = true; if (sim::chance("bad_c", 0.5)) lp.wolfe_c2 = lp.wolfe_c1 * 0.5; else if (sim::chance("bad_h", 0.4)) lp.history_size = 0; else lp.max_eval = 0; }
  OptimizerParams::BaseParams b(iters, 0.0, 0.0, 1000, lr, nullptr); AlgorithmParams ap = lp; SpikeRecoveryParams sp; sp.enable_auto_recover = false; sp.enable_rollback = false; OptimizerParams op(b, ap, CheckpointParams(), sp);
  std::vector<std::vector<Vec<E>>> calls(n); std::vector<std::vector<size_t>> mark(n); std::vector<int> threw(n, 0); Vec<E> fin; std::vector<double> lrs; std::vector<double> ens;
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    Optimizer<E, QNT> opt(op, MPI_COMM_WORLD, me, n); typename Optimizer<E, QNT>::OptimizationCallback cb; cb.on_iteration = [&](size_t, double, double, double) { mark[me].push_back(calls[me].size()); };
    auto full = [&](const SITPS<E> &s) -> std::tuple<E, SITPS<E>, double> { SITPS<E> q = s; if (n > 1) MPI_Bcast(q, MPI_COMM_WORLD, 0); auto x = vec(q, init); calls[me].push_back(x); Vec<E> g(dim); const double e = f(x, &g); return {E(e), me == 0 ? unvec(g, init) : SITPS<E>(init.rows(), init.cols(), init.PhysicalDim()), me == 0 ? 0.1 : 0.0}; };
    try { auto r = opt.IterativeOptimize(init, full, cb); if (me == 0) { fin = vec(r.optimized_state, init); lrs = r.learning_rate_trajectory; for (auto e : r.energy_trajectory) ens.push_back(std::real(e)); } } catch (const std::exception &) { threw[me] = 1; }
  });
  SIM_CHECK(out.ok(), "strong-Wolfe L-BFGS on %d ranks ended with %s", n, out.str().c_str());
  for (int r = 1; r < n; ++r) SIM_CHECK(threw[r] == threw[0] && mark[r] == mark[0] && calls[r].size() == calls[0].size(), "strong-Wolfe L-BFGS: rank %d %s and evaluates %zu times, the master %s and evaluates %zu times", r, threw[r] ? "throws" : "returns", calls[r].size(), threw[0] ? "throws" : "returns", calls[0].size());
  if (bad) { SIM_CHECK(threw[0], "invalid line-search parameters are accepted"); sim::tag("bad_params"); return; }
  struct P { Vec<E> s, y; }; std::deque<P> H; Vec<E> px, pg; auto &C = calls[0]; size_t c0 = 0; const size_t its = mark[0].size() + (threw[0] ? 1 : 0);
  for (size_t k = 0; k < its; ++k) {
    const size_t c1 = k < mark[0].size() ? mark[0][k] : C.size(); SIM_CHECK(c1 > c0, "iteration %zu of strong-Wolfe L-BFGS evaluates nothing", k); const Vec<E> x = C[c0]; Vec<E> g(dim); const double e0 = f(x, &g);
    if (k) { P p{x, g}; axpy(p.s, E(-1), px); axpy(p.y, E(-1), pg); if (std::real(dot(p.s, p.y)) < 1e-7) { sim::tag("converged"); return; } H.push_back(p); while (H.size() > lp.history_size) H.pop_front(); }
    if (nrm(g) < 1e-4) { sim::tag("converged"); return; }
    Vec<E> q = g; std::vector<double> al(H.size()); for (size_t i = H.size(); i-- > 0;) { al[i] = std::real(dot(H[i].s, q)) / std::real(dot(H[i].s, H[i].y)); axpy(q, E(-al[i]), H[i].y); }
    if (!H.empty()) { double z = std::real(dot(H.back().s, H.back().y)) / std::real(dot(H.back().y, H.back().y)); for (auto &v : q) v *= z; }
    for (size_t i = 0; i < H.size(); ++i) { double z = std::real(dot(H[i].y, q)) / std::real(dot(H[i].s, H[i].y)); axpy(q, E(al[i] - z), H[i].s); }
    if (nrm(q) > lp.max_direction_norm) { const double z = lp.max_direction_norm / nrm(q); for (auto &v : q) v *= z; }
    for (auto &v : q) v *= -1.0; const double d0 = std::real(dot(g, q)), qq = nrm(q) * nrm(q);
    SIM_CHECK(c1 - c0 - 1 <= lp.max_eval, "iteration %zu spends %zu line-search evaluations, at most %zu are allowed", k, c1 - c0 - 1, lp.max_eval);
    auto along = [&](const Vec<E> &y, double &a) { Vec<E> d = y; axpy(d, E(-1), x); a = std::real(dot(q, d)) / qq; axpy(d, E(-a), q); return nrm(d) <= 1e-7 * (1 + nrm(q) * std::abs(a)); };
    std::vector<double> as; for (size_t j = c0 + 1; j < c1; ++j) { double a; SIM_CHECK(along(C[j], a) && a > 0 && a <= lp.max_step * (1 + 1e-9), "iteration %zu: line-search evaluation %zu is not at a positive, allowed step (%g, limit %g) along the L-BFGS direction", k, j - c0, a, lp.max_step); as.push_back(a); }
    const double thr = std::max(-lp.wolfe_c2 * d0, lp.tolerance_grad); auto ok = [&](double a, double slack) { Vec<E> y = x, gy(dim); axpy(y, E(a), q); const double e = f(y, &gy); return e <= e0 + lp.wolfe_c1 * a * d0 + slack * (1e-12 * (1 + std::abs(e0))) && std::abs(std::real(dot(gy, q))) <= thr * (1 + slack * 1e-7) + slack * 1e-12; };
    const bool last = k + 1 == its;
    if (last && threw[0]) { SIM_CHECK(!lp.allow_fallback_to_fixed_step, "a failed line search throws although the fixed-step fallback is allowed"); SIM_CHECK(lp.max_eval < 60 || lp.max_step < 64, "a smooth convex function: no acceptable step found in %zu evaluations", as.size()); sim::tag("search_failed"); return; }
    const Vec<E> nx = last ? fin : C[c1]; double a; SIM_CHECK(along(nx, a), "iteration %zu: the accepted state does not lie on the L-BFGS direction", k);
    SIM_CHECK(threw[0] || std::abs(lrs.at(k) - a) <= 1e-7 * (1 + a), "iteration %zu: step %g is taken, %g is reported", k, a, threw[0] ? 0 : lrs[k]);
    const bool tried = !as.empty() && std::abs(as.back() - a) <= 1e-7 * (1e-6 + a); const double fb = std::max(lp.min_step, lr * lp.fallback_fixed_step_scale);
    if (tried && ok(a, 1)) sim::tag(as.size() > 1 ? "searched" : "first_step");
    else {
      SIM_CHECK(lp.allow_fallback_to_fixed_step && std::abs(a - fb) <= 1e-7 * (1e-6 + fb), "iteration %zu: the accepted step %g does not satisfy the strong Wolfe conditions (c1 %g, c2 %g) and is not the fallback step %g", k, a, lp.wolfe_c1, lp.wolfe_c2, fb);
      SIM_CHECK(lp.max_eval < 60 || lp.max_step < 64, "a smooth convex function: no acceptable step found in %zu evaluations", as.size()); sim::tag("fallback");
    }
    if (!threw[0] && std::abs(e0 - ens.at(k)) > 1e-12 * (1 + std::abs(e0))) SIM_CHECK(false, "iteration %zu: energy of the trajectory is not that of the state", k);
    px = x; pg = g; c0 = c1;
  }
}
SCENARIO("P17", strong_wolfe, 1.5) { if (sim::chance("cplx", 0.5)) wolfe<Z>(); else wolfe<double>(); }
// A schedule copied in the middle of a run (a restarted or copied optimiser) goes on exactly like the original.
SCENARIO("P17", schedules, 0.5) {
  const int kind = int(sim::draw("sched", 1, 7)); const double lr = sim::draw_real("lr", 0.01, 1), a = sim::draw_real("a", 0.1, 0.95), b = kind == 6 ? sim::draw_real("thr", 0, 0.3) : sim::draw_real("b", 0, 0.005); const size_t n = size_t(sim::draw("n", 1, 5));
  std::vector<size_t> ms; for (long i = 0, k = sim::draw("nms", 0, 4); i < k; ++i) ms.push_back(size_t(sim::draw("ms", 0, 12)));
  OptCase o; o.sched = kind; o.lr = lr; o.s_a = a; o.s_b = b; o.s_n = n; o.ms = ms; OptimizerParams p0 = opt_params(o);
  struct Track { OptimizerParams p; double cur, best; size_t cnt; };
  std::vector<Track> ts{{p0, lr, std::numeric_limits<double>::max(), 0}};
  const size_t steps = size_t(sim::draw("steps", 1, 24)); const double h = sim::draw_real("slope", -0.1, 0.4);
  for (size_t it = 0; it < steps; ++it) {
    if (ts.size() < 4 && sim::chance("copy", 0.25)) { auto q = ts[size_t(sim::draw("of", 0, long(ts.size()) - 1))]; ts.push_back(q); sim::tag("copied"); }
    for (size_t k = 0; k < ts.size(); ++k) {
      auto &t = ts[k]; const double e = -h * double(it) + 0.25 * double(sim::draw("e", -2, 2)); double w = lr;
      switch (kind) {
        case 1: w = lr * std::pow(a, double(it) / double(n)); break;
        case 2: w = lr * std::pow(a, double(it / n)); break;
        case 3: w = b + 0.5 * (lr - b) * (1 + std::cos(M_PI * double(std::min(it, n)) / double(n))); break;
        case 4: w = it >= n ? lr : b + (lr - b) * double(it + 1) / double(n); break;
        case 5: { size_t c = 0; for (auto m : ms) c += m <= it; w = lr * std::pow(a, double(c)); break; }
        case 6: if (e < t.best - b) { t.best = e; t.cnt = 0; } else if (++t.cnt >= n) { t.cur *= a; t.cnt = 0; t.best = e; } w = t.cur; break;
      }
      const double g = t.p.base_params.lr_scheduler->GetLearningRate(it, e); sim::event_hash(uint64_t(g * 1e9));
      SIM_CHECK(std::abs(g - w) <= 1e-12 * (std::abs(w) + 1e-12), "schedule %d, copy %zu: learning rate of iteration %zu is %.15g, documented %.15g", kind, k, it, g, w);
    }
  }
}
HARNESS_MAIN
