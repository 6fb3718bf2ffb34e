#include "common.h"
using namespace hx;
SCENARIO("T00", amp, 1) {
  size_t Ly = sim::draw("Ly", 2, 4), Lx = sim::draw("Lx", 2, 4), D = sim::draw("D", 1, 3);
  auto go = [&](auto e) {
    using E = decltype(e);
    auto s = make_state<E>(Ly, Lx, 2, D, sim::stable_seed("state"), -0.3, 1.0);
    std::vector<size_t> c(Ly * Lx); for (auto &x : c) x = sim::draw("c", 0, 1);
    Z ref = amp_obc(s, c);
    sim::WorldOpts o; o.nranks = 1;
    Outcome: auto r = sim::run_world(o, [&](int) {
      BMPSTruncateParams<double> tp(1, 64, 0.0, CompressMPSScheme::SVD_COMPRESS, std::nullopt, std::nullopt);
      TPSWaveFunctionComponent<E, QNT> w(s, conf(Ly, Lx, c), tp);
      SIM_CHECK(near(Z(w.GetAmplitude()), ref, 1e-9), "amp %s vs %s Ly=%zu Lx=%zu D=%zu", zs(w.GetAmplitude()).c_str(), zs(ref).c_str(), Ly, Lx, D);
    });
    SIM_CHECK(r.ok(), "%s", r.str().c_str());
  };
  if (sim::chance("cplx", 0.5)) go(Z()); else go(double());
}
SCENARIO("T00", vmc, 1) {
  size_t Ly = 2, Lx = 2; int n = sim::draw("n", 1, 4);
  sim::profile().p[sim::K_SCHED] = 0.3; sim::profile().p[sim::K_SENDMODE] = 0.3; sim::profile().p[sim::K_COLLSYNC] = 0.5;
  auto s = make_state<double>(Ly, Lx, 2, 2, sim::stable_seed("state"));
  sim::WorldOpts o; o.nranks = n;
  auto r = sim::run_world(o, [&](int rank) {
    Configuration init = conf(Ly, Lx, {0, 1, 1, 0});
    auto op = OptimizerParamsBuilder().SetMaxIterations(2).SetLearningRate(0.05).WithSGD().Build();
    MonteCarloParams mc(10, 5, 1, init, false);
    PEPSParams pp(BMPSTruncateParams<double>(2, 8, 1e-15, CompressMPSScheme::SVD_COMPRESS, std::make_optional<double>(1e-14), std::make_optional<size_t>(10)));
    VMCPEPSOptimizerParams vp(op, mc, pp);
    auto res = VmcOptimize<double, QNT, MCUpdateSquareNNFullSpaceUpdate, TransverseFieldIsingSquareOBC>(vp, s, MPI_COMM_WORLD, TransverseFieldIsingSquareOBC(1.0), MCUpdateSquareNNFullSpaceUpdate{});
    if (rank == 0) sim::event_hash(hash_state(res.state));
  });
  SIM_CHECK(r.ok(), "%s\n%s", r.str().c_str(), sim::captured().c_str());
}
HARNESS_MAIN
