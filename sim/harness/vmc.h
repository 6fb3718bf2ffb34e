// A randomly configured variational optimisation job and the checks of its result files.
#ifndef HARNESS_VMC_H
#define HARNESS_VMC_H
#include "meas.h"
namespace hx {
enum class Alg { SGD, MOM, NESTEROV, ADAM, ADAGRAD, SR, MINSR, LBFGS, N };
inline const char *alg_name(Alg a) { const char *n[] = {"sgd", "momentum", "nesterov", "adam", "adagrad", "sr", "minsr", "lbfgs"}; return n[int(a)]; }
inline AlgorithmParams alg_params(Alg a) {
  switch (a) {
    case Alg::SGD: return SGDParams();
    case Alg::MOM: return SGDParams(0.5, false, 0.01);
    case Alg::NESTEROV: return SGDParams(0.5, true, 0.0);
    case Alg::ADAM: return AdamParams(0.8, 0.9, 1e-8, 0.01);
    case Alg::ADAGRAD: return AdaGradParams(1e-8, 0.1);
    case Alg::SR: { ConjugateGradientParams cg; cg.max_iter = 60; cg.relative_tolerance = 1e-10; cg.residual_recompute_interval = 20; StochasticReconfigurationParams p; p.cg_params = cg; p.diag_shift = 0.05; p.normalize_update = false; return p; }
    case Alg::MINSR: return MinSRParams(1e-3, 0.0, true, MinSRSolverMode::kReplicated);
    default: return LBFGSParams(3);
  }
}
struct VJob {
  int n; size_t Ly, Lx, D, total, warm, sweeps, iters, ckpt; Alg alg; double lr; std::string base, cfgdump, ckpt_base; bool jsonl;
  std::vector<std::vector<size_t>> init;
};
inline VJob draw_job(size_t maxit = 4, int maxn = 4) {
  VJob j; j.n = int(sim::draw("ranks", 1, maxn)); j.Ly = 2; j.Lx = size_t(sim::draw("Lx", 2, 3)); j.D = size_t(sim::draw("D", 1, 2));
  j.total = size_t(sim::draw("samples", 1, 16)); j.warm = size_t(sim::draw("warmup", 0, 2)); j.sweeps = size_t(sim::draw("sweeps", 1, 2)); j.iters = size_t(sim::draw("iters", 1, long(maxit)));
  j.alg = Alg(sim::draw("alg", 0, int(Alg::N) - 1)); j.lr = sim::draw_real("lr", 0.01, 0.1);
  j.ckpt = size_t(sim::draw("ckpt", 0, 2)); j.base = sim::chance("nodump", 0.2) ? "" : (sim::chance("nested", 0.4) ? "o/x/tps" : "tps"); j.cfgdump = sim::chance("cfgdump", 0.5) ? "cfg/a" : ""; j.ckpt_base = "ck/pt"; j.jsonl = sim::chance("jsonl", 0.3);
  for (int r = 0; r < j.n; ++r) j.init.push_back(rand_cfg("init" + std::to_string(r), j.Ly * j.Lx, long(j.Ly * j.Lx / 2)));
  return j;
}
inline VMCPEPSOptimizerParams job_params(const VJob &j, int me) {
  OptimizerParams::BaseParams b(j.iters, 0.0, 0.0, j.iters + 100, j.lr); OptimizerParams op(b, alg_params(j.alg));
  op.checkpoint_params.every_n_steps = j.ckpt; op.checkpoint_params.base_path = j.ckpt_base;
  if (j.jsonl) op.base_params.jsonl_log_path = "logs/run.jsonl";
  MonteCarloParams mc(j.total, j.warm, j.sweeps, conf(j.Ly, j.Lx, j.init[me]), j.warm == 0, j.cfgdump);
  VMCPEPSOptimizerParams p(op, mc, PEPSParams(bmps_exact(0))); p.tps_dump_base_name = j.base; return p;
}
template<typename E> using VRes = VmcOptimizeResult<E, QNT>;
// Files of a job that returned normally.  States on disk are compared bit for bit with the returned ones.
template<typename E> void check_vmc_files(const VJob &j, const VRes<E> &res, const std::vector<std::vector<size_t>> &last_cfg, bool converged = false) {
  auto load = [&](const std::string &d, const SITPS<E> &want, const char *what) {
    SITPS<E> s(j.Ly, j.Lx); bool ok = false; auto o = sim::run_world({.nranks = 1}, [&](int) { ok = s.Load(d); });
    SIM_CHECK(o.ok() && ok, "the %s state saved in %s does not load (%s)", what, d.c_str(), o.str().c_str());
    SIM_CHECK(same_state(s, want), "the %s state saved in %s differs from the returned one", what, d.c_str());
  };
  if (!j.base.empty()) { load(j.base + "final", res.state, "final"); load(j.base + "lowest", res.lowest_state, "lowest"); }
  auto traj = [&](const std::string &f, size_t len, size_t cols) {
    bool ok; auto r = csv(f, true, ok); SIM_CHECK(ok && r.size() == len, "%s is missing or malformed: %zu of %zu rows", f.c_str(), r.size(), len);
    for (size_t i = 0; i < len; ++i) {
      SIM_CHECK(r[i].size() == cols && r[i][0] == Z(double(i)), "%s has a malformed row", f.c_str());
      SIM_CHECK(r[i][1] == Z(std::real(res.energy_trajectory[i])) && same_real(r[i][2].real(), res.energy_error_trajectory[i], 1e-15), "%s row %zu is %.17g +- %.17g, the result is %.17g +- %.17g", f.c_str(), i, r[i][1].real(), r[i][2].real(), std::real(res.energy_trajectory[i]), res.energy_error_trajectory[i]);
      if (cols > 3) SIM_CHECK(same_real(r[i][3].real(), res.gradient_norms[i], 1e-15), "%s row %zu has another gradient norm", f.c_str(), i);
    }
  };
  traj("energy/energy_trajectory.csv", res.energy_trajectory.size(), 4);
  if (j.ckpt) {
    size_t lastk = 0;
    for (size_t k = j.ckpt; k + (converged ? 1 : 0) < res.energy_trajectory.size(); k += j.ckpt) {
      const std::string d = j.ckpt_base + "/step_" + std::to_string(k); lastk = k;
      SITPS<E> s(j.Ly, j.Lx); bool ok = false; auto o = sim::run_world({.nranks = 1}, [&](int) { ok = s.Load(d); }); SIM_CHECK(o.ok() && ok, "checkpoint %s does not load", d.c_str());
      auto md = read_meta(d + "/checkpoint_meta.txt");
      SIM_CHECK(md["step"] == std::to_string(k) && strtod(md["energy"].c_str(), nullptr) == std::real(res.energy_trajectory[k]) && md.count("error") && same_real(strtod(md["error"].c_str(), nullptr), res.energy_error_trajectory[k], 1e-15), "%s/checkpoint_meta.txt is missing, cut short or wrong: step '%s' energy '%s' error '%s'", d.c_str(), md["step"].c_str(), md["energy"].c_str(), md["error"].c_str());
      traj(d + "/trajectory_snapshot.csv", k + 1, 3);
    }
    if (lastk) traj(j.ckpt_base + "/energy_trajectory.csv", lastk + 1, 3);
  }
  if (!j.cfgdump.empty()) for (int r = 0; r < j.n; ++r) { Configuration c(j.Ly, j.Lx); SIM_CHECK(c.Load(j.cfgdump, r) && (last_cfg.empty() || flat(c) == last_cfg[r]), "the configuration of rank %d is not dumped correctly", r); }
}
}
#endif
