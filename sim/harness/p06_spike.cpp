// P06: spikes in error bar, gradient, natural gradient and energy are handled exactly by the documented policy, within bounded work.
#include "opt.h"
using namespace hx;
template<typename E> void spikes() {
  swarm(); OptCase o; o.n = int(sim::draw("ranks", 1, 4)); o.iters = size_t(sim::draw("iters", 2, 14)); o.lr = sim::draw_real("lr", 0.01, 0.2); o.eps = 1e-13; o.runs = int(sim::draw("runs", 1, 2));
  o.alg = OA(sim::draw("alg", 0, int(OA::N) - 1));
  auto &p = o.sp; p.enable_auto_recover = sim::chance("auto", 0.8); p.enable_rollback = o.alg != OA::LBFGS && sim::chance("rollback", 0.6); p.redo_mc_max_retries = size_t(sim::draw("retries", 0, 3));
  p.factor_err = sim::draw_real("f_err", 1.2, 20); p.factor_grad = sim::draw_real("f_grad", 1.2, 20); p.factor_ngrad = sim::draw_real("f_ng", 1.2, 20); p.sigma_k = sim::draw_real("sigma", 0.3, 6); p.ema_window = size_t(sim::draw("window", 1, 60));
  p.sr_min_iters_suspicious = sim::chance("suspicious", 0.15) ? 1000000 : 0; if (sim::chance("csv", 0.4)) p.log_trigger_csv_path = "spikes.csv";
  // accumulators are documented not to be restored by a rollback, so an energy rollback is only combined with rules that have none
  if (p.enable_rollback && (o.alg == OA::ADAM || o.alg == OA::ADAGRAD)) p.sigma_k = 1e9; else if (o.alg == OA::SGD && sim::chance("momentum", 0.4)) { o.mom = 0.7; if (p.enable_rollback) p.sigma_k = 1e9; }
  const bool flat = o.alg == OA::SR && sim::chance("one_cg_step", 0.4); if (flat) p.sr_min_iters_suspicious = size_t(sim::draw("min_iters", 0, 2));      // S = shift * 1, solved in exactly one CG step
  Script<E> s; s.flat_o = flat; s.seed = sim::stable_seed("script"); s.drift = sim::draw_real("drift", -0.2, 0.5); s.discrete = sim::chance("discrete", 0.3); s.convex = o.alg == OA::LBFGS;
  const double pr[] = {0.0, 0.05, 0.2, 0.6}; s.p_err = pr[sim::draw("p_err", 0, 3)]; s.p_grad = pr[sim::draw("p_grad", 0, 3)]; s.p_en = pr[sim::draw("p_en", 0, 3)];
  sim::tag(oa_name(o.alg)); run_opt<E>(o, s, make_state<E>(size_t(sim::draw("Ly", 1, 2)), size_t(sim::draw("Lx", 1, 2)), 2, 1, sim::stable_seed("start"), -1, 1));
}
SCENARIO("P06", spikes, 1) { if (sim::chance("cplx", 0.5)) spikes<Z>(); else spikes<double>(); }
HARNESS_MAIN
