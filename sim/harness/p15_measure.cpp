// P15: a measurement job reports, in memory and on disk, exactly the averages over the samples of all ranks.
#include "meas.h"
using namespace hx;

template<typename E, typename Model, typename Upd, bool PBC = false>
void run_meas(MK kind, const ModelPar &mp, const Model &model_, size_t Ly, size_t Lx, size_t D, const PEPSParams &pp, bool conserve, BoundaryCondition bc) {
  const int n = int(sim::draw("ranks", 1, 6)); const size_t N = Ly * Lx;
  const size_t total = size_t(sim::draw("samples", 1, 30)), per = (total + n - 1) / n, warm = size_t(sim::draw("warmup", 0, 2)), sweeps = size_t(sim::draw("sweeps", 1, 2));
  const bool particles = sim::chance("particles", 0.4), mixkeys = sim::chance("mixkeys", 0.3); const long up = conserve ? long(N / 2) : -1;
  const std::string base = sim::chance("nested", 0.3) ? "res/run7" : (sim::chance("here", 0.3) ? "" : "out");
  const bool dumpcfg = sim::chance("dumpcfg", 0.4); const int rounds = int(sim::draw("rounds", 1, 2));
  Model model(model_); bool sf = false; if constexpr (requires { model.SetEnableStructureFactor(true); }) { sf = sim::chance("structure_factor", 0.35); if (sf) { model.SetEnableStructureFactor(true); sim::tag("structure_factor"); } } bool rows_missing = false, scale_seen = false; Z scale(0);
  const std::vector<size_t> pps = {size_t(sim::draw("p0", 0, 2)), size_t(sim::draw("p1", 0, 2))};
  auto st = make_state<E>(Ly, Lx, 2, D, sim::stable_seed("state"), 0.25, 1.0, bc);
  RefH h = ref_of(kind, Ly, Lx, mp);
  std::vector<std::vector<size_t>> init; for (int r = 0; r < n; ++r) init.push_back(rand_cfg("init" + std::to_string(r), N, up));
  for (int round = 0; round < rounds; ++round) {       // the second job overwrites the files of the first
    scale_seen = false;   // every job normalises the state anew
    std::vector<std::vector<MRec>> log(n); std::vector<std::vector<Sweep>> sw(n); MonteCarloMeasureResult<E, QNT> res; std::vector<std::pair<E, double>> en(n);
    std::vector<ObservableMeta> meta;
    auto out = sim::run_world({.nranks = n}, [&](int me) {
      MonteCarloParams mc(total, warm, sweeps, conf(Ly, Lx, init[me]), warm == 0, dumpcfg ? "cfg/dump" : "");
      MCMeasurementParams p(mc, pp, base);
      p.particle_number_distribution = {particles, pps};
      RecMeas<Model> sol(model, &log[me], mixkeys ? sim::stable_seed("keys" + std::to_string(me)) : 0);
      MonteCarloMeasureResult<E, QNT> r;
      using RU = RecUpd<Upd>; RU ru(&sw[me]);
      if constexpr (PBC) { MCPEPSMeasurer<E, QNT, RU, RecMeas<Model>, TRGContractor> m(st, p, MPI_COMM_WORLD, sol, ru); m.Execute(); r.energy = m.OutputEnergy(); r.registry = m.ObservableRegistry(); }
      else r = MonteCarloMeasure<E, QNT, RU, RecMeas<Model>>(st, p, MPI_COMM_WORLD, sol, ru);
      if (!PBC) SIM_CHECK(r.dump_path == base, "rank %d: the result names %s as its directory, the job wrote to %s", me, r.dump_path.c_str(), base.c_str());
      en[me] = r.energy;
      if (me == 0) { res = r; meta = sol.DescribeObservables(Ly, Lx); }
    });
    SIM_CHECK(out.ok(), "the measurement did not finish: %s", out.str().c_str());
    RefState<E> ref(st, h);
    for (int r = 0; r < n; ++r) {
      SIM_CHECK(log[r].size() == per, "rank %d measured %zu samples, expected ceil(%zu/%d)=%zu", r, log[r].size(), total, n, per);
      SIM_CHECK(sw[r].size() == warm + per * sweeps, "rank %d made %zu sweeps: %zu of warm-up and %zu for each of %zu samples are configured", r, sw[r].size(), warm, sweeps, per);
      for (size_t i = 0; i < sw[r].size(); ++i) { SIM_CHECK(sw[r][i].from == (i ? sw[r][i - 1].to : init[r]), "rank %d: sweep %zu does not continue where the walker stood", r, i); if (i >= warm && (i - warm) % sweeps + 1 == sweeps) SIM_CHECK(log[r][(i - warm) / sweeps].cfg == sw[r][i].to, "rank %d: sample %zu is not the configuration after its sweeps", r, (i - warm) / sweeps); }
      for (size_t i = 0; i < per; ++i) {
        auto &x = log[r][i];
        if (conserve) { long u = 0; for (auto q : x.cfg) u += long(q); SIM_CHECK(u == up, "rank %d measured a configuration outside its sector", r); }
        SIM_CHECK(sf == (x.obs.count("SpSm_cross") == 1), "rank %d sample %zu: structure-factor correlations are %s", r, i, sf ? "missing" : "reported unasked");
        if (sf) {                                        // every pair of a site and a site in a lower row: amplitude of the exchanged configuration, zero where the operators vanish
          const auto &v = x.obs["SpSm_cross"]; size_t q = 0; SIM_CHECK(v.size() == 5 * Lx * Lx * Ly * (Ly - 1) / 2, "SpSm_cross has %zu entries on %zux%zu", v.size(), Ly, Lx);
          for (size_t y1 = 0; y1 + 1 < Ly; ++y1) for (size_t x1 = 0; x1 < Lx; ++x1) for (size_t y2 = y1 + 1; y2 < Ly; ++y2) for (size_t x2 = 0; x2 < Lx; ++x2, q += 5) {
            SIM_CHECK(v[q] == Z(double(y1)) && v[q + 1] == Z(double(x1)) && v[q + 2] == Z(double(y2)) && v[q + 3] == Z(double(x2)), "SpSm_cross entry %zu names another pair of sites", q / 5);
            Z want(0); auto c = x.cfg; if (c[y1 * Lx + x1] == 0 && c[y2 * Lx + x2] == 1) { c[y1 * Lx + x1] = 1; c[y2 * Lx + x2] = 0; want = ref.amp(c) / ref.amp(x.cfg) * x.psi; }
            // known finding: rows below y1 that are not the last one are neither measured nor absorbed
            if (want != Z(0) && Ly > 2 && !(y1 + 2 == Ly) && std::abs(v[q + 4] - want) > 1e-6 * (std::abs(want) + std::abs(x.psi))) {
              if (y2 + 1 < Ly && v[q + 4] == Z(0)) { rows_missing = true; continue; }
              if (y2 + 1 == Ly) { SITPS<E> cut(y1 + 2, Lx, 2); std::vector<size_t> cc(c.begin(), c.begin() + long((y1 + 1) * Lx)); cc.insert(cc.end(), c.end() - long(Lx), c.end()); for (size_t a = 0; a < y1 + 2; ++a) for (size_t b = 0; b < Lx; ++b) cut({a, b}) = st({a <= y1 ? a : Ly - 1, b}); const Z wrong = amp_any(cut, cc) / ref.amp(x.cfg) * x.psi; const Z sc = v[q + 4] / wrong; if (!scale_seen) { scale_seen = true; scale = sc; } if (std::abs(sc - scale) <= 1e-6 * std::abs(scale)) { rows_missing = true; continue; } }
            }
            SIM_CHECK(std::abs(v[q + 4] - want) <= 1e-6 * (std::abs(want) + std::abs(x.psi)), "rank %d sample %zu: SpSm_cross (%zu,%zu)-(%zu,%zu) is %s, exact %s", r, i, y1, x1, y2, x2, zs(v[q + 4]).c_str(), zs(want).c_str());
          }
        }
        for (auto &[k, v] : ref_obs(kind, mp, ref, x.cfg)) {
          auto it = x.obs.find(k); SIM_CHECK(it != x.obs.end() && it->second.size() == v.size(), "rank %d sample %zu: observable %s is missing or of the wrong length", r, i, k.c_str());
          for (size_t q = 0; q < v.size(); ++q) SIM_CHECK(near(it->second[q], v[q], 1e-6), "rank %d sample %zu: %s[%zu] is %s, exact %s", r, i, k.c_str(), q, zs(it->second[q]).c_str(), zs(v[q]).c_str());
        }
      }
    }
    const std::string b = base.empty() ? "./" : base + "/";
    check_registry<E>(res, meta, log, n, N, total, particles, pps, b);
    check_coord_files(b, meta, Ly, Lx);
    check_sample_files(b, n, log, particles, pps, total, warm, sweeps, Ly, Lx, bc == BoundaryCondition::Periodic);
    if (dumpcfg) for (int r = 0; r < n; ++r) { Configuration c(Ly, Lx); SIM_CHECK(c.Load("cfg/dump", r) && flat(c) == log[r].back().cfg, "the dumped configuration of rank %d is not its last one", r); }
    E e0 = res.energy.first; sim::event_hash(sim::hash_bytes(&e0, sizeof e0));
  }
  SIM_CHECK(!rows_missing, "SpSm_cross leaves out the rows between a site and the last row");
  sim::tag(n == 1 ? "serial" : "parallel"); if (mixkeys) sim::tag("key_order"); if (particles) sim::tag("particles");
}
static ModelPar par() { return {sim::draw_real("ja", 0.2, 1), sim::draw_real("jb", 0.2, 1), sim::draw_real("jc", -0.5, 0.5), sim::draw_real("jd", -0.5, 0.5), sim::draw_real("pin", -0.5, 0.5)}; }
template<typename E> void obc(MK k) {
  swarm();
  size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)), D = size_t(sim::draw("D", 1, 2));
  if (Ly == 2 && sim::chance("wide", 0.3)) Lx = 4;
  PEPSParams pp(bmps_exact(size_t(sim::draw("scheme", 0, 1)))); auto m = par(); const auto bc = BoundaryCondition::Open;
  using NN = MCUpdateSquareNNExchangeOBC; using FS = MCUpdateSquareNNFullSpaceUpdateOBC;
  if (k == MK::TFIM) run_meas<E, TransverseFieldIsingSquareOBC, FS>(k, m, TransverseFieldIsingSquareOBC(m.a), Ly, Lx, D, pp, false, bc);
  else if (k == MK::XXZ) run_meas<E, SquareSpinOneHalfXXZModelOBC, NN>(k, m, SquareSpinOneHalfXXZModelOBC(m.a, m.b, m.p), Ly, Lx, D, pp, true, bc);
  else if (k == MK::J1J2) run_meas<E, SquareSpinOneHalfJ1J2XXZModelOBC, FS>(k, m, SquareSpinOneHalfJ1J2XXZModelOBC(m.a, m.b, m.c, m.d, m.p), Ly, Lx, D, pp, false, bc);
  else if (k == MK::TRI) run_meas<E, SpinOneHalfTriHeisenbergSqrPEPS, NN>(k, m, SpinOneHalfTriHeisenbergSqrPEPS(), Ly, Lx, D, pp, true, bc);
  else run_meas<E, SpinOneHalfTriJ1J2HeisenbergSqrPEPS, NN>(k, m, SpinOneHalfTriJ1J2HeisenbergSqrPEPS(m.c), Ly, Lx, D, pp, true, bc);
}
#define BOTH(K) if (sim::chance("cplx", 0.5)) obc<Z>(K); else obc<double>(K);
SCENARIO("P15", ising_open, 2) { BOTH(MK::TFIM) }
SCENARIO("P15", xxz_open, 2) { BOTH(MK::XXZ) }
SCENARIO("P15", j1j2_open, 2) { BOTH(MK::J1J2) }
SCENARIO("P15", triangle, 1) { BOTH(MK::TRI) }
SCENARIO("P15", triangle_j1j2, 1) { BOTH(MK::TRIJ) }
SCENARIO("P15", j1j2_periodic, 1) {
  swarm(); PEPSParams pp(TRGTruncateParams<double>(1, 64, 0.0)); auto m = par(); size_t L, D; torus(L, D);
  run_meas<double, SquareSpinOneHalfJ1J2XXZModelPBC, MCUpdateSquareNNExchangePBC, true>(MK::J1J2_P, m, SquareSpinOneHalfJ1J2XXZModelPBC(m.a, m.b, m.c, m.d, m.p), L, L, D, pp, true, BoundaryCondition::Periodic);
}
SCENARIO("P15", ising_periodic, 1) {
  swarm(); PEPSParams pp(TRGTruncateParams<double>(1, 64, 0.0)); auto m = par(); size_t L, D; torus(L, D);
  run_meas<double, TransverseFieldIsingSquarePBC, MCUpdateSquareNNFullSpaceUpdatePBC, true>(MK::TFIM_P, m, TransverseFieldIsingSquarePBC(m.a), L, L, D, pp, false, BoundaryCondition::Periodic);
}
HARNESS_MAIN
