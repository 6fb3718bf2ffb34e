// P19: the replica test starts all walkers from one configuration and compares ring neighbours after every sweep.
#include "meas.h"
using namespace hx;

template<typename E, typename Model, typename Upd, template<typename, typename> class Con = BMPSContractor>
void replica(const Model &model, size_t Ly, size_t Lx, bool conserve, BoundaryCondition bc, const PEPSParams &pp) {
  swarm(); const int n = int(sim::draw("ranks", 1, 6)); const size_t N = Ly * Lx, total = size_t(sim::draw("samples", 1, 60)), per = (total + size_t(n) - 1) / size_t(n), sweeps = size_t(sim::draw("sweeps", 1, 3)), warm = size_t(sim::draw("warmup", 0, 2));
  const bool dumpcfg = sim::chance("dumpcfg", 0.5); const int runs = int(sim::draw("runs", 1, 2)), before = int(sim::draw("before", 0, 2));
  auto st = make_state<E>(Ly, Lx, 2, size_t(sim::draw("D", 1, 2)), sim::stable_seed("state"), 0.25, 1.0, bc); std::vector<std::vector<size_t>> init; for (int r = 0; r < n; ++r) init.push_back(rand_cfg("init" + std::to_string(r), N, conserve ? long(N / 2) : -1));
  struct Call { std::vector<size_t> a, b; double v; };
  std::vector<std::vector<Sweep>> sw(n); std::vector<std::vector<Call>> ov(n); std::vector<std::vector<MRec>> log(n); std::vector<std::vector<size_t>> last(n), at0(n);
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    MonteCarloParams mc(total, warm, sweeps, conf(Ly, Lx, init[me]), warm == 0, dumpcfg ? "cfg/dump" : ""); MCMeasurementParams p(mc, pp, "out"); RecMeas<Model> sol(model, &log[me]); using RU = RecUpd<Upd>;
    MCPEPSMeasurer<E, QNT, RU, RecMeas<Model>, Con> m(st, p, MPI_COMM_WORLD, sol, RU(&sw[me])); at0[me] = init[me];
    if (before == 1) { m.Execute(); at0[me] = sw[me].back().to; }
    for (int k = 0; k < runs; ++k) {
      sw[me].clear(); ov[me].clear(); sim::SplitMix g(sim::mix(uint64_t(me), uint64_t(k)));
      m.ReplicaTest([&](const Configuration &a, const Configuration &b) { const double v = g.uni() - 0.5; ov[me].push_back({flat(a), flat(b), v}); return v; });
      MPI_Barrier(MPI_COMM_WORLD);
      if (me == 0) for (int r = 0; r < n; ++r) {
        SIM_CHECK(sw[r].size() == per * sweeps, "rank %d made %zu sweeps, %zu samples of %zu sweeps were asked for", r, sw[r].size(), per, sweeps);
        SIM_CHECK(sw[r][0].from == at0[0], "rank %d does not start the replica test from the master's configuration", r);
        SIM_CHECK(ov[r].size() == per, "rank %d computed %zu overlaps for %zu samples", r, ov[r].size(), per);
        const int prev = (r + n - 1) % n;
        for (size_t i = 0; i < per; ++i) { const size_t q = (i + 1) * sweeps - 1; SIM_CHECK(ov[r][i].a == sw[r][q].to && ov[r][i].b == sw[prev][q].to, "overlap %zu of rank %d is not that of its walker and the walker of rank %d after the same sweep", i, r, prev); }
        for (size_t q = 1; q < sw[r].size(); ++q) SIM_CHECK(sw[r][q].from == sw[r][q - 1].to, "rank %d: sweep %zu does not continue where the walker stood", r, q);
        std::ifstream f("replica_overlap/replica_overlap" + std::to_string(r)); std::vector<double> v; double y; while (f >> y) v.push_back(y);
        SIM_CHECK(v.size() == per, "the overlap file of rank %d holds %zu numbers for %zu overlaps", r, v.size(), per);
        for (size_t i = 0; i < per; ++i) SIM_CHECK(std::abs(v[i] - ov[r][i].v) <= 1e-5 * std::abs(v[i]), "entry %zu of the overlap file of rank %d is %.17g, computed was %.17g", i, r, v[i], ov[r][i].v);
        if (dumpcfg) { Configuration c(Ly, Lx); SIM_CHECK(c.Load("cfg/dump", size_t(r)) && flat(c) == sw[r].back().to, "the configuration dumped by rank %d is not its last one", r); }
      }
      MPI_Barrier(MPI_COMM_WORLD); at0[me] = sw[me].back().to; MPI_Barrier(MPI_COMM_WORLD);
    }
    if (before == 2) {                                   // a measurement after the test continues from there with a coherent walker
      sw[me].clear(); log[me].clear(); m.Execute(); SIM_CHECK(log[me].size() == per && !sw[me].empty() && sw[me][0].from == at0[me], "rank %d: the measurement after a replica test does not continue from its walker", me);
    }
  });
  SIM_CHECK(out.ok(), "the replica test of %zu samples on %d ranks ended with %s", per, n, out.str().c_str());
  sim::tag(per < 10 ? "fewer_than_ten" : "ten_or_more"); sim::event_hash(per);
}
template<typename E> void pick() {
  const size_t Ly = 2, Lx = size_t(sim::draw("Lx", 2, 3)); const int k = int(sim::draw("model", 0, 2));
  if (k == 0) replica<E, TransverseFieldIsingSquareOBC, MCUpdateSquareNNFullSpaceUpdateOBC>(TransverseFieldIsingSquareOBC(0.7), Ly, Lx, false, BoundaryCondition::Open, PEPSParams(bmps_exact(0)));
  else if (k == 1) replica<E, SquareSpinOneHalfXXZModelOBC, MCUpdateSquareNNExchangeOBC>(SquareSpinOneHalfXXZModelOBC(0.7, 0.9, 0.1), Ly, Lx, true, BoundaryCondition::Open, PEPSParams(bmps_exact(1)));
  else replica<E, TransverseFieldIsingSquarePBC, MCUpdateSquareNNFullSpaceUpdatePBC, TRGContractor>(TransverseFieldIsingSquarePBC(0.7), 2, 2, false, BoundaryCondition::Periodic, PEPSParams(TRGTruncateParams<double>(1, 64, 0.0)));
}
SCENARIO("P19", replica_test, 1) { if (sim::chance("cplx", 0.4)) pick<Z>(); else pick<double>(); }
HARNESS_MAIN
