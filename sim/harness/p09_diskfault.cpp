// P09: a job or save call that returns normally on a failing disk has written everything.
#include "vmc.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
using namespace hx;

static void disk_swarm() {
  auto &p = sim::profile(); const double pr[] = {0.003, 0.01, 0.03, 0.1};
  const double q = pr[sim::draw("p_disk", 0, 3)]; long any = 0;
  const sim::Kind ks[] = {sim::K_OPENFAIL, sim::K_WRITEFAIL, sim::K_DISKFULL, sim::K_CLOSEFAIL, sim::K_MKDIRFAIL, sim::K_SHORTWRITE};
  for (auto k : ks) if (sim::chance(std::string("use_") + sim::kind_name(k), 0.4)) { p.p[k] = q; ++any; }
  if (!any) p.p[ks[sim::draw("which", 0, 4)]] = q;
  p.max_of[sim::K_OPENFAIL] = p.max_of[sim::K_WRITEFAIL] = p.max_of[sim::K_CLOSEFAIL] = p.max_of[sim::K_MKDIRFAIL] = int(sim::draw("max", 1, 3)); p.max_of[sim::K_DISKFULL] = 1;
}
static void heal() { auto &p = sim::profile(); for (auto k : {sim::K_OPENFAIL, sim::K_WRITEFAIL, sim::K_DISKFULL, sim::K_CLOSEFAIL, sim::K_MKDIRFAIL, sim::K_SHORTWRITE}) p.p[k] = 0; sim::io_heal(); }
static bool loud(const sim::Outcome &o) { return o.kind == sim::EXCEPTION || o.kind == sim::ABORTED || o.kind == sim::EXITED; }
template<typename F> bool attempt(int n, F f, const char *what) {
  disk_swarm(); sim::WorldOpts o; o.nranks = n; o.io_faults = true; auto out = sim::run_world(o, f); heal();
  SIM_CHECK(out.ok() || loud(out), "%s on a failing disk ends with %s", what, out.str().c_str());
  sim::tag(out.ok() ? "reported_success" : "reported_failure"); sim::event_hash(out.ok());
  return out.ok();
}
template<typename E> SITPS<E> rs(const std::string &nm) {
  return make_state<E>(size_t(sim::draw("Ly", 1, 3)), size_t(sim::draw("Lx", 1, 3)), size_t(sim::draw("d", 1, 3)), size_t(sim::draw("D", 1, 3)), sim::stable_seed(nm), -1, 1, sim::chance("pbc", 0.4) ? BoundaryCondition::Periodic : BoundaryCondition::Open);
}
template<typename E> void states() {
  auto old = rs<E>("old"), a = rs<E>("new"); const bool over = sim::chance("over", 0.5), rel = sim::chance("release", 0.3);
  if (over) { auto o = sim::run_world({.nranks = 1}, [&](int) { SITPS<E>(old).Dump("s/tps"); }); SIM_CHECK(o.ok(), "saving failed on a healthy disk"); }
  if (!attempt(1, [&](int) { SITPS<E> s(a); s.Dump("s/tps", rel); }, "saving a state")) return;
  SITPS<E> g; bool ok = false; auto o = sim::run_world({.nranks = 1}, [&](int) { ok = g.Load("s/tps"); });
  SIM_CHECK(o.ok() && ok && same_state(g, a), "saving a state returned normally on a failing disk, but the state does not load back");
}
SCENARIO("P09", state, 2) { if (sim::chance("cplx", 0.5)) states<Z>(); else states<double>(); }

template<typename E> void tps() {
  const size_t Ly = size_t(sim::draw("Ly", 1, 3)), Lx = size_t(sim::draw("Lx", 1, 3)), D = size_t(sim::draw("D", 1, 3)); sim::SplitMix g(sim::stable_seed("t"));
  const auto bc = sim::chance("pbc", 0.4) ? BoundaryCondition::Periodic : BoundaryCondition::Open; const bool pbc = bc == BoundaryCondition::Periodic;
  TPS<E, QNT> t(Ly, Lx, bc);
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) {
    size_t l = (c == 0 && !pbc) ? 1 : D, rt = (c + 1 == Lx && !pbc) ? 1 : D, u = (r == 0 && !pbc) ? 1 : D, d = (r + 1 == Ly && !pbc) ? 1 : D;
    Ten<E> x({leg(l, qlten::IN), leg(d, qlten::OUT), leg(rt, qlten::OUT), leg(u, qlten::IN), leg(2, qlten::OUT)});
    for (auto &q : qlten::GenAllCoors(x.GetShape())) x.SetElem(q, rnd<E>(g, -1, 1)); t({r, c}) = x;
  }
  if (!attempt(1, [&](int) { TPS<E, QNT> s(t); s.Dump("t/tps"); }, "saving a TPS")) return;
  TPS<E, QNT> s(Ly, Lx, bc); bool ok = false; auto o = sim::run_world({.nranks = 1}, [&](int) { ok = s.Load("t/tps"); });
  SIM_CHECK(o.ok() && ok, "saving a TPS returned normally on a failing disk, but it does not load back (%s)", o.str().c_str());
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) { SIM_CHECK(s({r, c}).GetShape() == t({r, c}).GetShape(), "the loaded TPS has another shape"); for (auto &q : qlten::GenAllCoors(t({r, c}).GetShape())) SIM_CHECK(s({r, c}).GetElem(q) == t({r, c}).GetElem(q), "the loaded TPS differs at site (%zu,%zu)", r, c); }
}
SCENARIO("P09", tps, 1) { if (sim::chance("cplx", 0.5)) tps<Z>(); else tps<double>(); }

template<typename E> void peps() {
  const size_t Ly = size_t(sim::draw("Ly", 1, 3)), Lx = size_t(sim::draw("Lx", 1, 3)), D = size_t(sim::draw("D", 1, 3)); const bool rel = sim::chance("release", 0.3), cst = !rel && sim::chance("const", 0.5); using P = SquareLatticePEPS<E, QNT>;
  auto make = [&](const char *nm) {
    sim::SplitMix g(sim::stable_seed(nm)); P p(leg(2, qlten::OUT), Ly, Lx);
    for (auto *m : {&p.lambda_vert, &p.lambda_horiz}) for (auto &x : *m) { x = std::decay_t<decltype(x)>({leg(D, qlten::IN), leg(D, qlten::OUT)}); for (size_t i = 0; i < D; ++i) x.SetElem({i, i}, rnd<double>(g, 0.1, 1)); }
    for (auto &x : p.Gamma) { x = Ten<E>({leg(D, qlten::IN), leg(D, qlten::OUT), leg(D, qlten::OUT), leg(D, qlten::IN), leg(2, qlten::OUT)}); for (auto &q : qlten::GenAllCoors(x.GetShape())) x.SetElem(q, rnd<E>(g, -1, 1)); }
    return p;
  };
  P a = make("new"), old = make("old"); if (sim::chance("over", 0.5)) { auto o = sim::run_world({.nranks = 1}, [&](int) { P(old).Dump("p/peps", false); }); SIM_CHECK(o.ok(), "saving failed on a healthy disk"); }
  bool said = false; if (!attempt(1, [&](int) { P s(a); const P &c = s; said = cst ? c.Dump("p/peps") : s.Dump("p/peps", rel); }, "saving a PEPS") || !said) return;
  P s = make("held"); bool ok = false; auto o = sim::run_world({.nranks = 1}, [&](int) { ok = s.Load("p/peps"); });
  auto eq = [](auto &x, auto &y) { for (size_t r = 0; r < x.rows(); ++r) for (size_t c = 0; c < x.cols(); ++c) { if (x({r, c}).GetShape() != y({r, c}).GetShape()) return false; for (auto &q : qlten::GenAllCoors(x({r, c}).GetShape())) if (x({r, c}).GetElem(q) != y({r, c}).GetElem(q)) return false; } return true; };
  SIM_CHECK(o.ok() && ok && eq(s.Gamma, a.Gamma) && eq(s.lambda_vert, a.lambda_vert) && eq(s.lambda_horiz, a.lambda_horiz), "saving a PEPS reported success on a failing disk, but it does not load back");
}
SCENARIO("P09", peps, 1) { if (sim::chance("cplx", 0.5)) peps<Z>(); else peps<double>(); }

SCENARIO("P09", configuration, 2) {
  swarm(); const int n = int(sim::draw("ranks", 1, 3)); const size_t Ly = size_t(sim::draw("Ly", 1, 4)), Lx = size_t(sim::draw("Lx", 1, 4));
  std::vector<std::vector<size_t>> v; for (int r = 0; r < n; ++r) v.push_back(rand_cfg("c" + std::to_string(r), Ly * Lx, -1));
  if (sim::chance("over", 0.5)) { size_t a = size_t(sim::draw("oLy", 1, 4)), b = size_t(sim::draw("oLx", 1, 4)); auto o = sim::run_world({.nranks = n}, [&](int me) { conf(a, b, rand_cfg("o", a * b, -1)).Dump("k/cfg", me); }); SIM_CHECK(o.ok(), "dumping failed on a healthy disk"); }
  std::vector<int> fin(n, 0);
  attempt(n, [&](int me) { try { conf(Ly, Lx, v[me]).Dump("k/cfg", me); fin[me] = 1; } catch (const std::exception &) {} }, "dumping configurations");
  for (int r = 0; r < n; ++r) if (fin[r]) { Configuration c(Ly, Lx); SIM_CHECK(c.Load("k/cfg", r) && flat(c) == v[r], "dumping returned normally on a failing disk, but configuration %d does not load back", r); }
}
SCENARIO("P09", vector_data, 1) {
  std::vector<double> d; sim::SplitMix g(sim::stable_seed("v")); const size_t len = size_t(sim::draw("len", 0, 3000)); for (size_t i = 0; i < len; ++i) d.push_back(double(long(g.below(2000000)) - 1000000) / 64);
  std::vector<std::vector<double>> m; for (size_t i = 0; i + 3 <= len; i += 3) m.push_back({d[i], d[i + 1], d[i + 2]});
  const bool vec = sim::chance("vec", 0.5);
  if (!attempt(1, [&](int) { if (vec) DumpVecData("data", d); else DumpSampleData(m, "data"); }, "writing a data file")) return;
  std::stringstream want; if (vec) { for (auto x : d) want << x << '\n'; want << std::endl; } else for (auto &r : m) want << r[0] << ',' << r[1] << ',' << r[2] << '\n';
  SIM_CHECK(slurp("data") == want.str(), "writing a data file returned normally on a failing disk, but the file holds %zu of %zu bytes", slurp("data").size(), want.str().size());
}
SCENARIO("P09", directories, 1) {
  SIM_CHECK(!IsPathExist("") && !EnsureDirectoryExists("") && !CreatePath("") && IsPathExist(".") && EnsureDirectoryExists(".") && !IsPathExist("no/such"), "the empty path exists, or the current directory does not");
  swarm(); const int n = int(sim::draw("ranks", 1, 5)); const char *ds[] = {"a", "a/b", "a/b/c"}; const std::string d = ds[sim::draw("dir", 0, 2)];
  if (sim::chance("some", 0.3)) std::filesystem::create_directories("a");
  const bool healthy = sim::chance("healthy", 0.5);
  auto body = [&](int) { const bool ok = EnsureDirectoryExists(d); if (ok) SIM_CHECK(std::filesystem::is_directory(d), "EnsureDirectoryExists returned true although the directory does not exist"); else SIM_CHECK(!healthy, "EnsureDirectoryExists returned false on a healthy disk"); };
  if (healthy) { auto o = sim::run_world({.nranks = n}, body); SIM_CHECK(o.ok(), "creating a directory ended with %s", o.str().c_str()); } else attempt(n, body, "creating a directory");
}

template<typename E> void measure() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 3)); const size_t Ly = 2, Lx = size_t(sim::draw("Lx", 2, 3)), N = Ly * Lx, total = size_t(sim::draw("samples", 1, 8)), warm = 1, sweeps = 1;
  const bool particles = sim::chance("particles", 0.5), dumpcfg = sim::chance("dumpcfg", 0.5); const std::vector<size_t> pps = {0, 1}; const std::string base = sim::chance("here", 0.3) ? "" : "out/m";
  auto st = make_state<E>(Ly, Lx, 2, 1, sim::stable_seed("state"), 0.25, 1.0);
  std::vector<std::vector<MRec>> log(n); MonteCarloMeasureResult<E, QNT> res; std::vector<ObservableMeta> meta;
  std::vector<std::vector<size_t>> init; for (int r = 0; r < n; ++r) init.push_back(rand_cfg("init" + std::to_string(r), N, long(N / 2)));
  auto job = [&](auto model, auto upd, int me) {
    using M = decltype(model); using U = decltype(upd);
    MonteCarloParams mc(total, warm, sweeps, conf(Ly, Lx, init[me]), false, dumpcfg ? "cfg/dump" : ""); MCMeasurementParams p(mc, PEPSParams(bmps_exact(0)), base); p.particle_number_distribution = {particles, pps};
    RecMeas<M> sol(model, &log[me]); auto r = MonteCarloMeasure<E, QNT, U, RecMeas<M>>(st, p, MPI_COMM_WORLD, sol);
    if (me == 0) { res = r; meta = sol.DescribeObservables(Ly, Lx); }
  };
  const long mk = sim::draw("model", 0, 2);
  if (!attempt(n, [&](int me) { if (mk == 0) job(SquareSpinOneHalfXXZModelOBC(1, 1, 0), MCUpdateSquareNNExchangeOBC(), me); else if (mk == 1) job(TransverseFieldIsingSquareOBC(0.7), MCUpdateSquareNNFullSpaceUpdateOBC(), me); else job(SpinOneHalfTriHeisenbergSqrPEPS(), MCUpdateSquareNNExchangeOBC(), me); }, "a measurement")) return;
  const std::string b = base.empty() ? "./" : base + "/";
  for (auto &[k, me] : res.registry) { const std::vector<size_t> *shape = nullptr; for (auto &d : meta) if (d.key == k) shape = &d.shape; auto bad = check_files(b, k, me.first, me.second, shape && !shape->empty() ? shape : nullptr); SIM_CHECK(bad.empty(), "a measurement returned normally on a failing disk, but %s", bad.c_str());
    for (auto &d : meta) if (d.key == k && !d.index_labels.empty() && d.index_labels[0] == "pair_packed_upper_tri") SIM_CHECK(slurp(b + "stats/" + k + "_index_map.txt").find("length=" + std::to_string(me.first.size()) + "\n") != std::string::npos, "a measurement returned normally on a failing disk, but the index map of %s is missing or cut short", k.c_str()); }
  check_coord_files(b, meta, Ly, Lx);
  check_sample_files(b, n, log, particles, pps, total, warm, sweeps, Ly, Lx, false);
  if (dumpcfg) for (int r = 0; r < n; ++r) { Configuration c(Ly, Lx); SIM_CHECK(c.Load("cfg/dump", r) && flat(c) == log[r].back().cfg, "a measurement returned normally on a failing disk, but the configuration of rank %d is not there", r); }
}
SCENARIO("P09", measurement, 3) { if (sim::chance("cplx", 0.3)) measure<Z>(); else measure<double>(); }

template<typename E> void optimise() {
  swarm(); VJob j = draw_job(4, 3); j.total = std::min<size_t>(j.total, 6); if (j.ckpt) j.iters = 4;
  auto st = make_state<E>(j.Ly, j.Lx, 2, j.D, sim::stable_seed("state"), 0.25, 1.0); VRes<E> res; using M = SquareSpinOneHalfXXZModelOBC;
  if (!attempt(j.n, [&](int me) { auto r = VmcOptimize<E, QNT, MCUpdateSquareNNExchangeOBC, M>(job_params(j, me), st, MPI_COMM_WORLD, M(1, 1, 0)); if (me == 0) res = r; }, "an optimisation")) return;
  check_vmc_files(j, res, {});
  sim::tag(alg_name(j.alg));
}
SCENARIO("P09", optimisation, 3) { if (sim::chance("cplx", 0.3)) optimise<Z>(); else optimise<double>(); }
HARNESS_MAIN
