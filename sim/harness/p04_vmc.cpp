// P04: whole optimisation jobs (real sampling, real optimiser) end on all ranks with results that agree with the samples taken.
#include "vmc.h"
using namespace hx;

template<typename Model, typename E> struct VSolver : Model {
  std::vector<Rec> *log; std::map<uint64_t, SITPS<E>> *states;
  VSolver(const Model &m, std::vector<Rec> *l, std::map<uint64_t, SITPS<E>> *s) : Model(m), log(l), states(s) {}
  template<typename T, typename Q, bool holes, typename W>
  T CalEnergyAndHoles(const SplitIndexTPS<T, Q> *s, W *w, TensorNetwork2D<T, Q> &h) {
    T e = Model::template CalEnergyAndHoles<T, Q, holes>(s, w, h); const uint64_t id = hash_state(*s);
    log->push_back({flat(w->config), Z(e), Z(w->GetAmplitude()), id, holes}); if (states && !states->count(id)) (*states)[id] = *s;
    return e;
  }
  template<typename T, typename Q, typename W> T CalEnergy(const SplitIndexTPS<T, Q> *s, W *w) { TensorNetwork2D<T, Q> h(1, 1); return CalEnergyAndHoles<T, Q, false>(s, w, h); }
};
static double propdiff(const std::vector<Z> &a, const std::vector<Z> &b, Z &ratio) {      // a = ratio b
  Z n(0), d(0); for (size_t i = 0; i < b.size(); ++i) n += std::conj(b[i]) * a[i], d += std::norm(b[i]); ratio = n / d; double m = 0, s = 0;
  for (size_t i = 0; i < b.size(); ++i) m = std::max(m, std::abs(a[i] - ratio * b[i])), s = std::max(s, std::abs(a[i])); return m / s;
}
template<typename E, typename Model, typename Upd> void job(const Model &model, const RefH &h, const VJob &j, bool conserve) {
  const size_t N = j.Ly * j.Lx, per = (j.total + j.n - 1) / j.n; const bool again = sim::chance("again", 0.5); if (again) sim::profile().p[sim::K_REDORDER] = 0;
  const bool selok = (j.alg == Alg::SGD || j.alg == Alg::SR || j.alg == Alg::MINSR) && (j.n > 1 || j.total > 7), isel = sim::chance("initial_selector", 0.4) && selok, psel = sim::chance("periodic_selector", 0.4) && selok, load = sim::chance("from_disk", 0.25), spike = sim::chance("spike_off", 0.5); const size_t pn = size_t(sim::draw("every", 1, 3));
  auto st = make_state<E>(j.Ly, j.Lx, 2, j.D, sim::stable_seed("state"), 0.25, 1.0);
  if (load) { auto o = sim::run_world({.nranks = 1}, [&](int) { SITPS<E> s(st); s.Dump("start/state"); }); SIM_CHECK(o.ok(), "saving the start state: %s", o.str().c_str()); }
  std::vector<std::vector<Rec>> log(j.n), log0; std::map<uint64_t, SITPS<E>> states; std::vector<VRes<E>> res(j.n), ref; std::vector<std::vector<size_t>> last(j.n);
  for (int round = 0; round < (again ? 2 : 1); ++round) {
    for (auto &l : log) l.clear(); states.clear(); sim::restart_random();
    auto out = sim::run_world({.nranks = j.n, .step_limit = 4000000}, [&](int me) {
      using S = VSolver<Model, E>; S sol(model, &log[me], me == 0 ? &states : nullptr); auto p = job_params(j, me); auto &b = p.optimizer_params.base_params;
      if (isel) { b.initial_step_selector.enabled = true; b.initial_step_selector.enable_in_deterministic = true; } if (psel) { b.periodic_step_selector.enabled = true; b.periodic_step_selector.every_n_steps = pn; b.periodic_step_selector.enable_in_deterministic = true; }
      if (spike || j.iters > 0) { p.optimizer_params.spike_recovery_params.enable_auto_recover = false; p.optimizer_params.spike_recovery_params.enable_rollback = false; }
      if (load) { using X = VMCPEPSOptimizer<E, QNT, Upd, S>; auto ex = X::CreateByLoadingTPS(p, "start/state", MPI_COMM_WORLD, sol); ex->Execute(); auto &r = res[me]; r.state = ex->GetState(); r.lowest_state = ex->GetLowestState(); r.min_energy = ex->GetMinEnergy(); r.energy_trajectory = ex->GetEnergyTrajectory(); r.energy_error_trajectory = ex->GetEnergyErrorTrajectory(); r.gradient_norms = ex->GetGradientNorms(); }
      else res[me] = VmcOptimize<E, QNT, Upd, S>(p, st, MPI_COMM_WORLD, sol);
    });
    SIM_CHECK(out.ok(), "an optimisation (%s, %d ranks) ended with %s", alg_name(j.alg), j.n, out.str().c_str());
    if (round == 0) { ref = res; log0 = log; continue; }
    bool same_walk = true; for (int r = 0; r < j.n; ++r) for (size_t i = 0; i < log[r].size() && i < log0[r].size(); ++i) same_walk &= log[r][i].cfg == log0[r][i].cfg;
    if (j.alg == Alg::SR && !same_walk) { sim::tag("sr_walks_split"); continue; }     // round-off of the solver's arrival order reached an acceptance decision
    const double tol = j.alg == Alg::SR ? 1e-6 : 0;      // the distributed solver adds contributions in the order they arrive
    // the same random streams under another interleaving give the same result, bit for bit
    for (int r = 0; r < j.n; ++r) { Z q; const double d = same_state(res[r].state, ref[r].state) && same_state(res[r].lowest_state, ref[r].lowest_state) ? 0 : propdiff(zelems(res[r].state), zelems(ref[r].state), q); SIM_CHECK(d <= tol, "rank %d: another interleaving of the ranks changes the optimised state by %g (%s)", r, d, alg_name(j.alg)); }
    if (j.alg != Alg::SR) SIM_CHECK(res[0].energy_trajectory == ref[0].energy_trajectory && res[0].gradient_norms == ref[0].gradient_norms && res[0].min_energy == ref[0].min_energy, "another interleaving of the ranks changes the energies (%s)", alg_name(j.alg)); sim::tag("repeated");
  }
  auto &R = res[0];
  for (int r = 0; r < j.n; ++r) {
    SIM_CHECK(same_state(res[r].state, R.state) && same_state(res[r].lowest_state, R.lowest_state), "rank %d returns another final or lowest state than the master", r);
    SIM_CHECK(log[r].size() == log[0].size() && log[r].size() % per == 0, "rank %d took %zu samples, the master %zu (%zu per evaluation)", r, log[r].size(), log[0].size(), per);
    for (size_t i = 0; i < log[r].size(); ++i) { SIM_CHECK(log[r][i].state == log[0][i - i % per].state && log[r][i].holes == log[0][i].holes, "rank %d sample %zu belongs to another evaluation than the master's", r, i); if (conserve) { size_t u = 0; for (auto q : log[r][i].cfg) u += q; SIM_CHECK(u == N / 2, "rank %d sampled outside its sector", r); } }
  }
  // one gradient evaluation per iteration, whose samples give the reported energy
  size_t it = 0; double lowest = 1e300; uint64_t low_id = 0; std::vector<Z> pred; bool tie = false;
  for (size_t e = 0; e * per < log[0].size(); ++e) {
    const auto &first = log[0][e * per]; if (!first.holes) { sim::tag("selector_trial"); pred.clear(); continue; }
    std::vector<std::vector<Z>> es(j.n); for (int r = 0; r < j.n; ++r) for (size_t i = 0; i < per; ++i) es[r].push_back(log[r][e * per + i].e);
    Z mean; double err; ref_binned(es, mean, err);
    SIM_CHECK(it < R.energy_trajectory.size(), "%zu energies are reported, more evaluations were made", it);
    SIM_CHECK(near(Z(std::real(R.energy_trajectory[it])), Z(mean.real()), 1e-7), "iteration %zu reports energy %.12g, its samples average to %.12g", it, std::real(R.energy_trajectory[it]), mean.real());
    SIM_CHECK(same_real(R.energy_error_trajectory[it], err, 1e-5), "iteration %zu reports error %.12g, its samples give %.12g", it, R.energy_error_trajectory[it], err);
    const double en = std::real(R.energy_trajectory[it]); if (std::abs(en - lowest) < 1e-12) tie = true; if (en < lowest) { lowest = en; low_id = first.state; }
    const auto &cur = states.at(first.state);
    if (!pred.empty()) { Z rat; double d = propdiff(zelems(cur), pred, rat); SIM_CHECK(d < 1e-6 && std::abs(rat - Z(1)) < 1e-6, "iteration %zu evaluates a state that is not the previous one minus the step along the sampled gradient (%g)", it, d); sim::tag("sgd_step"); pred.clear(); }
    if (j.alg == Alg::SGD && !isel && !psel) {
      RefState<E> rs(cur, h); std::vector<Z> so, seo; size_t cnt = 0;
      for (int r = 0; r < j.n; ++r) for (size_t i = 0; i < per; ++i) { const auto &x = log[r][e * per + i]; const auto &os = rs.ostar(x.cfg); if (so.empty()) { so.assign(os.size(), 0); seo = so; } for (size_t q = 0; q < os.size(); ++q) { so[q] += os[q]; seo[q] += std::conj(x.e) * os[q]; } ++cnt; }
      pred = zelems(cur); for (size_t q = 0; q < pred.size(); ++q) pred[q] -= j.lr * (seo[q] / double(cnt) - std::conj(mean) * so[q] / double(cnt));
    }
    ++it;
  }
  SIM_CHECK(it == R.energy_trajectory.size(), "%zu iterations are reported, %zu evaluations were made", R.energy_trajectory.size(), it); SIM_CHECK(it <= j.iters, "%zu iterations, %zu allowed", it, j.iters);
  SIM_CHECK(R.min_energy == lowest, "the lowest energy is reported as %.12g, the trajectory has %.12g", double(R.min_energy), lowest);
  if (!tie) { Z rat; const double d = propdiff(zelems(R.lowest_state), zelems(states.at(low_id)), rat); SIM_CHECK(d < 1e-9, "the lowest state is not the one that had the lowest energy (%g)", d); }
  if (!pred.empty()) { Z rat; double d = propdiff(zelems(R.state), pred, rat); SIM_CHECK(d < 1e-6 && rat.real() > 0, "the final state is not the last update of the trajectory (%g)", d); }
  for (int r = 0; r < j.n; ++r) last[r] = log[r].back().cfg;
  double mx = 0; for (int r = 0; r < j.n; ++r) mx = std::max(mx, std::abs(amp_any(R.state, last[r]))); SIM_CHECK(std::abs(mx - 1) < 1e-6, "the final state is not normalised to the walkers: largest amplitude %.9g", mx);
  check_vmc_files(j, R, last);
  sim::tag(alg_name(j.alg)); sim::tag(j.n == 1 ? "serial" : "parallel"); if (load) sim::tag("from_disk"); sim::event_hash(hash_state(R.state));
}
template<typename E> void pick() {
  swarm(); VJob j = draw_job(4, 5); const int m = int(sim::draw("model", 0, 2)); const double a = sim::draw_real("ja", 0.2, 1), b = sim::draw_real("jb", 0.2, 1), p = sim::draw_real("pin", -0.5, 0.5);
  if (m == 0) job<E, SquareSpinOneHalfXXZModelOBC, MCUpdateSquareNNExchangeOBC>(SquareSpinOneHalfXXZModelOBC(a, b, p), ref_xxz(j.Ly, j.Lx, false, a, b, 0, 0, p), j, true);
  else if (m == 1) job<E, TransverseFieldIsingSquareOBC, MCUpdateSquareNNFullSpaceUpdateOBC>(TransverseFieldIsingSquareOBC(a), ref_tfim(j.Ly, j.Lx, false, a), j, false);
  else job<E, SpinOneHalfTriHeisenbergSqrPEPS, MCUpdateSquareNNExchangeOBC>(SpinOneHalfTriHeisenbergSqrPEPS(), ref_tri(j.Ly, j.Lx, 0), j, true);
}
SCENARIO("P04", optimisation, 1) { if (sim::chance("cplx", 0.4)) pick<Z>(); else pick<double>(); }
HARNESS_MAIN
