// P07: what an optimisation reports (lowest and final state, trajectories, callbacks, log, checkpoints) is what happened.
#include "opt.h"
#include "vmc.h"
using namespace hx;

template<typename E> void scripted() {
  swarm(); OptCase o; o.n = int(sim::draw("ranks", 1, 4)); o.iters = size_t(sim::draw("iters", 0, 12)); o.lr = sim::draw_real("lr", 0.01, 0.2); o.eps = 1e-13; o.runs = int(sim::draw("runs", 1, 2));
  o.alg = OA(sim::draw("alg", 0, int(OA::N) - 1)); o.sp.enable_auto_recover = sim::chance("auto", 0.5); o.sp.sr_min_iters_suspicious = 0; o.sp.factor_err = 3; o.sp.factor_grad = 3; o.sp.enable_rollback = o.alg == OA::SGD && sim::chance("rollback", 0.3); o.sp.sigma_k = 3; o.sp.ema_window = 5;
  if (sim::chance("etol", 0.4)) o.etol = sim::draw_real("e_tol", 0.01, 0.4); if (sim::chance("gtol", 0.3)) o.gtol = sim::draw_real("g_tol", 0.2, 2.5); if (sim::chance("plateau", 0.4)) o.patience = size_t(sim::draw("patience", 1, 4)); if (sim::chance("user_stop", 0.25)) o.stop_at = sim::draw("stop_at", 0, 8);
  o.ckpt = size_t(sim::draw("ckpt", 0, 3)); o.ckpt_base = sim::chance("nested", 0.3) ? "a/b/ck" : "ck"; if (sim::chance("jsonl", 0.6)) o.jsonl = sim::chance("nested2", 0.3) ? "log/x/run.jsonl" : "run.jsonl";
  Script<E> s; s.seed = sim::stable_seed("script"); s.drift = sim::draw_real("drift", -0.2, 0.4); s.discrete = sim::chance("discrete", 0.4); s.convex = o.alg == OA::LBFGS; const double pr[] = {0.0, 0.1, 0.3}; s.p_err = pr[sim::draw("p_err", 0, 2)]; s.p_en = pr[sim::draw("p_en", 0, 2)];
  sim::tag(oa_name(o.alg)); run_opt<E>(o, s, make_state<E>(size_t(sim::draw("Ly", 1, 2)), size_t(sim::draw("Lx", 1, 2)), 2, 1, sim::stable_seed("start"), -1, 1));
}
SCENARIO("P07", scripted, 3) { if (sim::chance("cplx", 0.5)) scripted<Z>(); else scripted<double>(); }

// A complete job driven by a scripted evaluator: what it returns and writes must be the scripted trajectory.
template<typename E> void job() {
  swarm(); VJob j = draw_job(8); j.alg = Alg::SGD; OptCase o; o.n = j.n; o.iters = j.iters; o.lr = j.lr; o.sp.enable_auto_recover = sim::chance("auto", 0.5); o.sp.factor_err = 3; o.sp.factor_grad = 3; o.sp.enable_rollback = sim::chance("rollback", 0.3); o.sp.sigma_k = 3; o.sp.ema_window = 5;
  if (sim::chance("etol", 0.5)) o.etol = sim::draw_real("e_tol", 0.01, 0.4); if (sim::chance("plateau", 0.4)) o.patience = size_t(sim::draw("patience", 1, 3));
  Script<E> s; s.seed = sim::stable_seed("script"); s.drift = sim::draw_real("drift", -0.2, 0.4); s.discrete = sim::chance("discrete", 0.4); const double pr[] = {0.0, 0.1, 0.3}; s.p_err = pr[sim::draw("p_err", 0, 2)]; s.p_en = pr[sim::draw("p_en", 0, 2)];
  auto init = make_state<E>(j.Ly, j.Lx, 2, j.D, sim::stable_seed("start"), 0.4, 1.0); s.dim = vec(init, init).size(); { sim::SplitMix g(5); for (size_t i = 0; i < s.dim; ++i) s.center.push_back(E(0)); }
  std::vector<VRes<E>> res(j.n); std::vector<Vec<E>> x0(j.n);
  auto out = sim::run_world({.nranks = j.n}, [&](int me) {
    auto p = job_params(j, me); auto &bp = p.optimizer_params.base_params; bp.energy_tolerance = o.etol; bp.plateau_patience = o.patience; p.optimizer_params.spike_recovery_params = o.sp;
    SquareSpinOneHalfXXZModelOBC m(1, 1, 0); VMCPEPSOptimizer<E, QNT, MCUpdateSquareNNExchangeOBC, SquareSpinOneHalfXXZModelOBC, BMPSContractor> ex(p, SITPS<E>(init), MPI_COMM_WORLD, m, MCUpdateSquareNNExchangeOBC());
    size_t call = 0;
    ex.SetEnergyEvaluator([&](const SITPS<E> &st) -> std::tuple<E, SITPS<E>, double> { SITPS<E> q = st; if (j.n > 1) MPI_Bcast(q, MPI_COMM_WORLD, 0); auto x = vec(q, init); if (!call) x0[me] = x; auto v = s.at(call++, x); return {v.energy, me == 0 ? unvec(v.grad, init) : SITPS<E>(init.rows(), init.cols(), 2), me == 0 ? v.err : 0.0}; });
    ex.Execute();
    auto &r = res[me]; r.state = ex.GetState(); r.lowest_state = ex.GetLowestState(); r.min_energy = ex.GetMinEnergy(); r.energy_trajectory.assign(ex.GetEnergyTrajectory().begin(), ex.GetEnergyTrajectory().end()); r.energy_error_trajectory = ex.GetEnergyErrorTrajectory(); r.gradient_norms = ex.GetGradientNorms();
  });
  SIM_CHECK(out.ok(), "a job with a scripted evaluator ended with %s", out.str().c_str());
  o.ckpt = 0; RefOpt<E> ro{o, s, 0, {}}; auto t = ro.run(x0[0]); if (t.skip) { sim::tag("near_tie_skipped"); return; }
  auto &R = res[0]; SIM_CHECK(R.energy_trajectory.size() == t.en.size(), "the job reports %zu energies for %zu accepted iterations", R.energy_trajectory.size(), t.en.size());
  for (size_t i = 0; i < t.en.size(); ++i) SIM_CHECK(std::real(R.energy_trajectory[i]) == std::real(t.en[i]) && R.energy_error_trajectory[i] == t.err[i] && std::abs(R.gradient_norms[i] - t.gn[i]) <= 1e-9 * (1 + t.gn[i]), "iteration %zu of the job's trajectory is not the accepted one", i);
  SIM_CHECK(R.min_energy == t.min_e, "the job's lowest energy is %.12g, the lowest accepted one %.12g", R.min_energy, t.min_e);
  for (int r = 0; r < j.n; ++r) { SIM_CHECK(vdiff(vec(res[r].lowest_state, init), t.lowest) < 1e-8, "rank %d: the lowest state is not the state of the lowest energy (difference %.3g)", r, vdiff(vec(res[r].lowest_state, init), t.lowest)); SIM_CHECK(same_state(res[r].state, res[0].state), "rank %d returns another final state than rank 0", r); }
  // the final state is the last one up to the normalisation of the amplitude
  auto f = vec(R.state, init); auto &w = t.final_state; E a = dot(w, f), b = dot(w, w); double ratio = std::real(a / b); Vec<E> d = w; for (auto &z : d) z *= ratio; SIM_CHECK(ratio > 0 && vdiff(d, f) <= 1e-8 * (1 + ratio), "the final state is not proportional to the last accepted one (difference %.3g)", vdiff(d, f));
  j.cfgdump = ""; check_vmc_files<E>(j, R, {}, t.converged);
  if (!t.converged) sim::tag("all_iterations"); else sim::tag("converged");
}
SCENARIO("P07", job, 2) { if (sim::chance("cplx", 0.5)) job<Z>(); else job<double>(); }
HARNESS_MAIN
