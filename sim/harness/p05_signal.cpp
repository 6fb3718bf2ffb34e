// P05: a measurement job told to stop by a signal stops on all ranks together and reports what it has.
#include "meas.h"
using namespace hx;

template<typename Model> struct S2 : RecMeas<Model> {
  std::function<void()> hook; S2(const Model &m, std::vector<MRec> *l) : RecMeas<Model>(m, l) {}
  template<typename T, typename Q, typename W> ObservableMap<T> EvaluateObservables(const SplitIndexTPS<T, Q> *s, W *w) { hook(); auto o = RecMeas<Model>::template EvaluateObservables<T, Q>(s, w); sim::yield("sample"); return o; }
};

template<typename E, typename Model, typename Upd>
void stop(MK kind, const ModelPar &mp, const Model &model, size_t Ly, size_t Lx, bool conserve) {
  swarm(); const int n = int(sim::draw("ranks", 1, 6)); const size_t N = Ly * Lx, D = 1; (void) kind; (void) mp;
  const size_t total = size_t(sim::draw("samples", 1, 40)), per = (total + n - 1) / n, warm = size_t(sim::draw("warmup", 0, 2));
  const bool particles = sim::chance("particles", 0.4), dumpcfg = sim::chance("dumpcfg", 0.5), again = sim::chance("again", 0.4); const std::vector<size_t> pps = {0, 1};
  const int where = int(sim::draw("where", 0, 2));       // 0 anywhere, 1 while a sample is evaluated, 2 no signal at all
  const double ps[] = {0.002, 0.01, 0.04, 0.15}; const int many = int(sim::draw("signals", 1, 3)); const long at = sim::draw("at_sample", 1, long(per)), who = sim::draw("who", 0, n - 1);
  auto st = make_state<E>(Ly, Lx, 2, D, sim::stable_seed("state"), 0.25, 1.0);
  std::vector<std::vector<size_t>> init; for (int r = 0; r < n; ++r) init.push_back(rand_cfg("init" + std::to_string(r), N, conserve ? long(N / 2) : -1));
  std::vector<std::vector<MRec>> log(n), first(n); MonteCarloMeasureResult<E, QNT> res, res2; std::vector<ObservableMeta> meta; std::vector<size_t> seen(n, 0); bool inside = false;
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    MonteCarloParams mc(total, warm, 1, conf(Ly, Lx, init[me]), warm == 0, dumpcfg ? "cfg/dump" : "");
    MCMeasurementParams p(mc, PEPSParams(bmps_exact(0)), "out"); p.particle_number_distribution = {particles, pps};
    S2<Model> sol(model, &log[me]); long calls = 0;
    sol.hook = [&, me] { if (!seen[me] && first[0].empty()) for (auto &s : sim::signals_delivered()) if (s.rank == me) seen[me] = log[me].size() + 1; if (where == 1 && me == who && ++calls == at) for (int k = 0; k < many; ++k) sim::deliver_signal(k % 2 ? SIGTERM : SIGINT); };
    std::vector<Sweep> sw; using RU = RecUpd<Upd>;
    MCPEPSMeasurer<E, QNT, RU, S2<Model>> m(st, p, MPI_COMM_WORLD, sol, RU(&sw));
    MPI_Barrier(MPI_COMM_WORLD);                          // every rank has installed its handler
    if (where == 0 && me == 0) { sim::profile().p[sim::K_SIGNAL] = ps[sim::draw("p_signal", 0, 3)]; sim::profile().max_of[sim::K_SIGNAL] = many; inside = true; }
    MPI_Barrier(MPI_COMM_WORLD);
    if (n == 1) sim::clear_captured();
    m.Execute();
    if (n == 1 && !log[0].empty()) {                      // (the prints of several ranks mix)
      const auto t = sim::captured(); const auto q = t.rfind("Accept rate = ["); SIM_CHECK(q != std::string::npos, "no acceptance rates are reported"); std::istringstream is(t.substr(q + 15)); double got = -1, want = 0; is >> got;
      for (size_t i = warm; i < sw.size(); ++i) want += sw[i].acc.at(0) / double(sw.size() - warm);
      SIM_CHECK(std::abs(got - want) < 0.0051, "the reported acceptance rate is %.2f, the %zu samples taken (of %zu) give %.4f", got, log[0].size(), per, want);
    }
    const auto e = m.OutputEnergy(); MPI_Barrier(MPI_COMM_WORLD);
    if (me == 0) { sim::profile().p[sim::K_SIGNAL] = 0; res.energy = e; res.registry = m.ObservableRegistry(); meta = sol.DescribeObservables(Ly, Lx); }
    if (me == 0) {                                        // what the job left on disk, checked before anything else runs
      for (int r = 0; r < n; ++r) SIM_CHECK(log[r].size() == log[0].size(), "rank %d took %zu samples, the master %zu", r, log[r].size(), log[0].size());
      if (log[0].empty()) { SIM_CHECK(res.registry.empty(), "a job without samples reports observables"); auto md = read_meta("out/metadata.txt"); SIM_CHECK(md["samples_collected_total"] == "0", "a job without samples claims %s", md["samples_collected_total"].c_str()); sim::tag("stopped_before_first"); }
      else { check_registry<E>(res, meta, log, n, N, total, particles, pps, "out/"); check_sample_files("out/", n, log, particles, pps, total, warm, 1, Ly, Lx, false); check_coord_files("out/", meta, Ly, Lx); }
      if (dumpcfg && !log[0].empty()) for (int r = 0; r < n; ++r) { Configuration c(Ly, Lx); SIM_CHECK(c.Load("cfg/dump", r) && flat(c) == log[r].back().cfg, "the dumped configuration of rank %d is not its last one", r); }
      first = log; for (auto &l : log) l.clear();
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (again) {                                          // the request is forgotten on demand and the next job runs in full
      SIM_CHECK(!(where == 2 && MPISignalGuard::LocalStopRequested()), "a stop request without a signal"); MPISignalGuard::Reset(); SIM_CHECK(!MPISignalGuard::LocalStopRequested(), "Reset keeps the request");
      MPI_Barrier(MPI_COMM_WORLD); calls = 1000000; MCPEPSMeasurer<E, QNT, Upd, S2<Model>> m2(st, p, MPI_COMM_WORLD, sol); m2.Execute();
      SIM_CHECK(log[me].size() == per, "after a Reset rank %d took %zu of %zu samples", me, log[me].size(), per);
    }
  });
  const auto &sg = sim::signals_delivered(); const size_t k = first[0].size(); (void) inside;
  SIM_CHECK(out.ok(), "after %zu signals the measurement ended with %s", sg.size(), out.str().c_str());
  if (sg.empty()) { SIM_CHECK(k == per, "%zu of %zu samples although no signal was sent", k, per); sim::tag("undisturbed"); }
  // bounded reaction: the rank that was told finishes at most the sample it is working on
  if (where == 1 && !sg.empty()) { SIM_CHECK(k == size_t(at), "rank %ld was signalled during sample %ld, the job took %zu samples of %zu per rank", who, at, k, per); sim::tag(k < per ? "stopped_early" : "signal_in_last"); }
  for (int r = 0; r < n; ++r) SIM_CHECK(!seen[r] || k <= seen[r], "rank %d was signalled before it finished sample %zu, the job took %zu samples per rank", r, seen[r], k);
  if (where == 0 && !sg.empty()) sim::tag(k < per ? "stopped_early" : "signal_late");
  sim::event_hash(k);
}
template<typename E> void pick() {
  const size_t Ly = 2, Lx = size_t(sim::draw("Lx", 2, 3)); ModelPar m{0.7, 0.9, 0.2, 0.1, 0.1};
  if (sim::chance("tfim", 0.5)) stop<E, TransverseFieldIsingSquareOBC, MCUpdateSquareNNFullSpaceUpdateOBC>(MK::TFIM, m, TransverseFieldIsingSquareOBC(m.a), Ly, Lx, false);
  else stop<E, SquareSpinOneHalfXXZModelOBC, MCUpdateSquareNNExchangeOBC>(MK::XXZ, m, SquareSpinOneHalfXXZModelOBC(m.a, m.b, m.p), Ly, Lx, true);
}
SCENARIO("P05", signalled_measurement, 1) { if (sim::chance("cplx", 0.4)) pick<Z>(); else pick<double>(); }
HARNESS_MAIN
