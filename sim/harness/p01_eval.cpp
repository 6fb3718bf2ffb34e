// P01: one Monte-Carlo evaluation returns exactly the averages of the samples drawn, on any job layout.
#include "models.h"
using namespace hx;

template<typename E, typename Model, typename Upd, template<typename, typename> class Con = BMPSContractor>
void run_eval(const Model &model, const RefH &h, size_t Ly, size_t Lx, size_t D, const PEPSParams &pp, bool conserve, BoundaryCondition bc) {
  const int n = int(sim::draw("ranks", 1, 6));
  const size_t total = size_t(sim::draw("samples", 1, 30));
  const size_t sweeps = size_t(sim::draw("sweeps", 0, 3));
  const size_t warm = size_t(sim::draw("warmup", 0, 3));
  const bool sr = sim::chance("sr", 0.5);
  const bool warn = sim::chance("psi_warning", 0.5);
  const int rounds = int(sim::draw("rounds", 1, 3));
  const long up = conserve ? long(Ly * Lx / 2) : -1;
  const size_t N = Ly * Lx;
  std::vector<SITPS<E>> states;
  for (int k = 0; k <= rounds; ++k) states.push_back(make_state<E>(Ly, Lx, 2, D, sim::stable_seed("state" + std::to_string(k)), 0.25, 1.0, bc));
  std::vector<std::vector<Rec>> log(n); std::vector<std::vector<Sweep>> sw(n);
  std::vector<std::vector<size_t>> init; for (int r = 0; r < n; ++r) init.push_back(rand_cfg("init" + std::to_string(r), N, up));
  struct Got { E energy; double err; std::vector<Z> grad, omean; double gnorm; std::vector<std::vector<Z>> osamples; std::vector<Z> es; uint64_t state; std::vector<double> acc; };
  std::vector<std::vector<Got>> got(n);
  std::vector<int> only(rounds); for (auto &x : only) x = sim::chance("energy_only", 0.25);
  std::vector<int> alias(rounds); for (auto &x : alias) x = sim::chance("alias", 0.3);
  std::vector<std::vector<uint64_t>> evaluated(rounds, std::vector<uint64_t>(n));
  std::vector<SITPS<E>> used(rounds);
  sim::WorldOpts o; o.nranks = n;
  auto out = sim::run_world(o, [&](int me) {
    MPI_Comm comm = MPI_COMM_WORLD;
    MonteCarloParams mc(total, warm, sweeps, conf(Ly, Lx, init[me]), warm == 0);
    using RU = RecUpd<Upd>;
    MonteCarloEngine<E, QNT, RU, Con> engine(states[0], mc, pp, comm, RU(&sw[me]));
    engine.WarmUp(); auto at = flat(engine.WavefuncComp().config);
    RecSolver<Model> solver(model, &log[me]);
    PsiConsistencyWarningParams pw; pw.enabled = warn; pw.threshold = 1e-3;
    MCEnergyGradEvaluator<E, QNT, RU, RecSolver<Model>, Con> ev(engine, solver, comm, sr, pw);
    for (int k = 0; k < rounds; ++k) {
      // only the master's argument counts; the others pass something stale
      const SITPS<E> &arg = alias[k] ? engine.State() : (me == 0 ? states[k + 1] : states[0]);
      log[me].clear(); sw[me].clear();
      Got g;
      if (me == 0) used[k] = arg;
      if (only[k]) {
        auto r = ev.EvaluateEnergyOnly(arg);
        g.energy = r.energy; g.err = r.energy_error; g.acc = r.accept_rates_avg;
      } else {
        auto r = ev.Evaluate(arg);
        g.energy = r.energy; g.err = r.energy_error; g.gnorm = r.gradient_norm; g.acc = r.accept_rates_avg;
        if (me == 0) { g.grad = zelems_like(states[0], r.gradient); SIM_CHECK(!g.grad.empty(), "the gradient on the master has not the shape of the state"); }
        if (sr) {
          SIM_CHECK(r.Ostar_mean.has_value(), "derivative buffers requested but not returned");
          if (me == 0) g.omean = zelems_like(states[0], *r.Ostar_mean);
          for (auto &s : r.Ostar_samples) g.osamples.push_back(zelems_like(states[0], s));
        }
        for (auto &x : r.energy_samples) g.es.push_back(Z(x));
      }
      const size_t mine_n = (total + size_t(n) - 1) / size_t(n); std::vector<double> acc;
      SIM_CHECK(sw[me].size() == mine_n * sweeps, "rank %d made %zu sweeps for %zu samples of %zu sweeps each", me, sw[me].size(), mine_n, sweeps);
      for (size_t i = 0; i < sw[me].size(); ++i) { SIM_CHECK(sw[me][i].from == at, "rank %d evaluation %d: sweep %zu does not continue where the walker stood", me, k, i); at = sw[me][i].to; if (i % sweeps + 1 == sweeps) { SIM_CHECK(i / sweeps < log[me].size() && log[me][i / sweeps].cfg == at, "rank %d sample %zu is not the configuration after its %zu sweeps", me, i / sweeps, sweeps); if (acc.empty()) acc.assign(sw[me][i].acc.size(), 0); for (size_t q = 0; q < acc.size(); ++q) acc[q] += sw[me][i].acc[q] / double(mine_n); } }
      SIM_CHECK(g.acc.size() == acc.size(), "rank %d returned %zu acceptance rates, the updater has %zu", me, g.acc.size(), acc.size());
      for (size_t q = 0; q < acc.size(); ++q) SIM_CHECK(std::abs(g.acc[q] - acc[q]) < 1e-9, "rank %d acceptance rate %zu is %g, its samples give %g", me, q, g.acc[q], acc[q]);
      g.state = hash_state(engine.State());
      evaluated[k][me] = g.state;
      // keep the recorded samples of this round
      std::vector<Rec> mine = log[me];
      got[me].push_back(g);
      for (auto &r : mine) { SIM_CHECK(r.state == g.state, "rank %d sampled with a state different from the one being evaluated", me); }
      // rank-local record travels through the driver
      got[me].back().es.size();
      log[me] = mine;
      MPI_Barrier(comm);
      if (me == 0) {
        const size_t per = (total + n - 1) / n;
        SITPS<E> st = used[k];
        RefState<E> ref(st, h);
        std::vector<std::vector<Z>> es(n);
        std::vector<Z> so, seo; size_t cnt = 0;
        for (int r = 0; r < n; ++r) {
          SIM_CHECK(log[r].size() == per, "rank %d used %zu samples, expected ceil(%zu/%d)=%zu", r, log[r].size(), total, n, per);
          SIM_CHECK(evaluated[k][r] == hash_state(st), "rank %d evaluated a state different from the master's", r);
          for (size_t i = 0; i < log[r].size(); ++i) {
            auto &x = log[r][i];
            Z e = ref.eloc(x.cfg);
            SIM_CHECK(near(x.psi, ref.amp(x.cfg), 1e-7), "rank %d sample %zu: amplitude %s, exact %s", r, i, zs(x.psi).c_str(), zs(ref.amp(x.cfg)).c_str());
            SIM_CHECK(near(x.e, e, 1e-6), "rank %d sample %zu: local energy %s, exact %s", r, i, zs(x.e).c_str(), zs(e).c_str());
            es[r].push_back(e); ++cnt;
            if (conserve) { long u = 0; for (auto q : x.cfg) u += long(q); SIM_CHECK(u == up, "rank %d sampled a configuration outside its sector", r); }
            if (!only[k]) {
              const auto &os = ref.ostar(x.cfg);
              if (so.empty()) { so.assign(os.size(), 0); seo.assign(os.size(), 0); }
              for (size_t q = 0; q < os.size(); ++q) { so[q] += os[q]; seo[q] += std::conj(e) * os[q]; }
            }
          }
        }
        Z mean; double err; ref_binned(es, mean, err);
        SIM_CHECK(near(Z(got[0][k].energy), mean, 1e-7), "energy %s, average of the samples %s (ranks %d, samples %zu)", zs(got[0][k].energy).c_str(), zs(mean).c_str(), n, total);
        SIM_CHECK(same_real(got[0][k].err, err, 1e-5), "energy error %.10g, from the samples %.10g", got[0][k].err, err);
        for (int r = 1; r < n; ++r) {
          SIM_CHECK(std::memcmp(&got[r][k].energy, &got[0][k].energy, sizeof(E)) == 0, "rank %d has energy %s, master %s", r, zs(got[r][k].energy).c_str(), zs(got[0][k].energy).c_str());
          SIM_CHECK(got[r][k].err == 0, "rank %d reports a non-zero energy error", r);
        }
        for (int r = 0; r < n; ++r) for (double a : got[r][k].acc) SIM_CHECK(a >= 0 && a <= 1, "rank %d acceptance rate %g", r, a);
        if (!only[k]) {
          for (auto &x : so) x /= double(cnt);
          for (size_t q = 0; q < seo.size(); ++q) seo[q] = seo[q] / double(cnt) - std::conj(mean) * so[q];
          double d = rel_diff(got[0][k].grad, seo);
          SIM_CHECK(d < 1e-6, "gradient differs from the sample covariance by %g (ranks %d, samples %zu)", d, n, total);
          double nn = 0; for (auto &x : seo) nn += std::norm(x);
          SIM_CHECK(same_real(got[0][k].gnorm, nn, 1e-6), "gradient norm %g, expected %g", got[0][k].gnorm, nn);
          for (int r = 0; r < n; ++r) {
            SIM_CHECK(got[r][k].es.size() == per, "rank %d returned %zu raw samples", r, got[r][k].es.size());
            for (size_t i = 0; i < per; ++i) SIM_CHECK(near(got[r][k].es[i], es[r][i], 1e-6), "rank %d raw sample %zu is %s, expected %s", r, i, zs(got[r][k].es[i]).c_str(), zs(es[r][i]).c_str());
            if (sr) {
              SIM_CHECK(got[r][k].osamples.size() == per, "rank %d returned %zu derivative samples", r, got[r][k].osamples.size());
              for (size_t i = 0; i < per; ++i) SIM_CHECK(rel_diff(got[r][k].osamples[i], ref.ostar(log[r][i].cfg)) < 1e-6, "rank %d derivative sample %zu differs from the exact log-derivative", r, i);
            }
          }
          if (sr) SIM_CHECK(rel_diff(got[0][k].omean, so) < 1e-6, "mean log-derivative differs from the average over all ranks by %g", rel_diff(got[0][k].omean, so));
        }
        sim::event_hash(sim::hash_bytes(&got[0][k].energy, sizeof(E)));
      }
      MPI_Barrier(comm);
    }
  });
  SIM_CHECK(out.ok(), "evaluation did not finish: %s", out.str().c_str());
  if (sr) sim::tag("sr_buffers");
  if (total % n) sim::tag("uneven_samples");
  sim::tag(n == 1 ? "serial" : "parallel");
}

template<typename E> void obc(int model) {
  swarm();
  size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)), D = size_t(sim::draw("D", 1, 2));
  PEPSParams pp(bmps_exact(size_t(sim::draw("scheme", 0, 1))));
  double a = sim::draw_real("ja", 0.2, 1), b = sim::draw_real("jb", 0.2, 1), c = sim::draw_real("jc", -0.5, 0.5), d = sim::draw_real("jd", -0.5, 0.5), p = sim::draw_real("pin", -0.5, 0.5);
  const auto bc = BoundaryCondition::Open;
  if (model == 0) run_eval<E, TransverseFieldIsingSquareOBC, MCUpdateSquareNNFullSpaceUpdateOBC>(TransverseFieldIsingSquareOBC(a), ref_tfim(Ly, Lx, false, a), Ly, Lx, D, pp, false, bc);
  else if (model == 1) run_eval<E, SquareSpinOneHalfXXZModelOBC, MCUpdateSquareNNExchangeOBC>(SquareSpinOneHalfXXZModelOBC(a, b, p), ref_xxz(Ly, Lx, false, a, b, 0, 0, p), Ly, Lx, D, pp, true, bc);
  else if (Ly < 3 || Lx < 3) run_eval<E, SquareSpinOneHalfJ1J2XXZModelOBC, MCUpdateSquareNNFullSpaceUpdateOBC>(SquareSpinOneHalfJ1J2XXZModelOBC(a, b, c, d, p), ref_xxz(Ly, Lx, false, a, b, c, d, p), Ly, Lx, D, pp, false, bc);
  else run_eval<E, SquareSpinOneHalfJ1J2XXZModelOBC, MCUpdateSquareTNN3SiteExchange>(SquareSpinOneHalfJ1J2XXZModelOBC(a, b, c, d, p), ref_xxz(Ly, Lx, false, a, b, c, d, p), Ly, Lx, D, pp, true, bc);
}
SCENARIO("P01", ising_open, 2) { if (sim::chance("cplx", 0.5)) obc<Z>(0); else obc<double>(0); }
SCENARIO("P01", xxz_open, 2) { if (sim::chance("cplx", 0.5)) obc<Z>(1); else obc<double>(1); }
SCENARIO("P01", j1j2_open, 2) { if (sim::chance("cplx", 0.5)) obc<Z>(2); else obc<double>(2); }
template<typename E> void pbc() {
  swarm();
  size_t L, D; torus(L, D);
  PEPSParams pp(TRGTruncateParams<double>(1, 64, 0.0));
  double a = sim::draw_real("ja", 0.2, 1), b = sim::draw_real("jb", 0.2, 1), c = sim::draw_real("jc", -0.5, 0.5);
  if (sim::chance("ising", 0.4)) run_eval<E, TransverseFieldIsingSquarePBC, MCUpdateSquareNNFullSpaceUpdatePBC, TRGContractor>(TransverseFieldIsingSquarePBC(a), ref_tfim(L, L, true, a), L, L, D, pp, false, BoundaryCondition::Periodic);
  else run_eval<E, SquareSpinOneHalfJ1J2XXZModelPBC, MCUpdateSquareNNExchangePBC, TRGContractor>(SquareSpinOneHalfJ1J2XXZModelPBC(a, b, c, c, 0.1), ref_xxz(L, L, true, a, b, c, c, 0.1), L, L, D, pp, true, BoundaryCondition::Periodic);
}
SCENARIO("P01", periodic, 1) { if (sim::chance("cplx", 0.5)) pbc<Z>(); else pbc<double>(); }
HARNESS_MAIN
