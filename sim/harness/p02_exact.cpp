// P02: exact summation over a configuration set equals the brute-force sums on every job layout.
#include "obs.h"
using namespace hx;

template<typename E, typename Model, template<typename, typename> class Con = BMPSContractor>
void run_exact(MK kind, const ModelPar &mp, const Model &model, size_t Ly, size_t Lx, size_t D, const typename Con<E, QNT>::TruncateParams &tp, BoundaryCondition bc, size_t max_cfg) {
  const int n = int(sim::draw("ranks", 1, 7));
  const size_t N = Ly * Lx;
  RefH h = ref_of(kind, Ly, Lx, mp);
  auto st = make_state<E>(Ly, Lx, 2, D, sim::stable_seed("state"), 0.2, 1.0, bc);
  if (sim::chance("scaled", 0.3)) st *= E(sim::draw_real("scale", 0.3, 3.0));
  // which configurations: all, one sector, or an arbitrary subset in arbitrary order
  auto all = all_configs(N, 2); std::vector<std::vector<size_t>> set;
  const long mode = sim::draw("set", 0, 2);
  std::vector<Configuration> lib;
  if (mode == 0 && all.size() <= max_cfg) {
    lib = GenerateAllBinaryConfigs(Lx, Ly);
    std::set<std::vector<size_t>> u; for (auto &c : lib) { SIM_CHECK(c.rows() == Ly && c.cols() == Lx, "enumeration returned a %zux%zu configuration", c.rows(), c.cols()); u.insert(flat(c)); }
    SIM_CHECK(u.size() == all.size() && lib.size() == all.size(), "enumeration of %zux%zu gives %zu configurations, %zu distinct, expected %zu", Ly, Lx, lib.size(), u.size(), all.size());
    sim::tag("all_configs");
  } else if (mode == 1 && N <= 6) {
    size_t up = size_t(sim::draw("up", 0, long(N)));
    lib = GenerateAllPermutationConfigs({N - up, up}, Lx, Ly);
    auto want = all_configs(N, 2, long(up));
    std::set<std::vector<size_t>> u; for (auto &c : lib) u.insert(flat(c));
    SIM_CHECK(u == std::set<std::vector<size_t>>(want.begin(), want.end()) && lib.size() == want.size(), "sector enumeration (%zux%zu, %zu up) gives %zu configurations, expected %zu", Ly, Lx, up, lib.size(), want.size());
    sim::tag("sector");
  } else {
    size_t k = size_t(sim::draw("subset", 1, long(std::min<size_t>(max_cfg, 20)))); sim::SplitMix g(sim::stable_seed("subset"));
    for (size_t i = 0; i < k; ++i) lib.push_back(conf(Ly, Lx, all[g.below(all.size())]));
    sim::tag("subset");
  }
  for (auto &c : lib) set.push_back(flat(c));
  if (set.size() < size_t(n)) sim::tag("idle_ranks");
  // reference
  RefState<E> rs(st, h);
  double W = 0; Z e(0); std::vector<Z> so, seo; Obs obs;
  for (auto &c : set) {
    double w = std::norm(rs.amp(c)); Z el = rs.eloc(c); W += w; e += w * el;
    const auto &os = rs.ostar(c);
    if (so.empty()) { so.assign(os.size(), 0); seo.assign(os.size(), 0); }
    for (size_t q = 0; q < os.size(); ++q) { so[q] += w * os[q]; seo[q] += w * std::conj(el) * os[q]; }
    for (auto &[k, v] : ref_obs(kind, mp, rs, c)) { auto &t = obs[k]; t.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) t[i] += w * v[i]; }
  }
  e /= W; for (size_t q = 0; q < so.size(); ++q) seo[q] = (seo[q] - std::conj(e) * so[q]) / W;
  for (auto &[k, v] : obs) for (auto &x : v) x /= W;
  const int reps = int(sim::draw("reps", 1, 2));
  const bool measure_first = sim::chance("measure_first", 0.5);
  sim::WorldOpts o; o.nranks = n;
  auto out = sim::run_world(o, [&](int me) {
    Model mdl(model);
    SITPS<E> mine; if (me == 0) mine = st;          // only the master holds the state
    for (int k = 0; k < reps; ++k) for (int what = 0; what < 2; ++what) {
      if ((what == 0) == measure_first) {
        auto r = ExactSumMeasurerMPI<Model, E, QNT, Con>(mine, lib, tp, mdl, Ly, Lx, MPI_COMM_WORLD, me, n);
        if (me == 0) {
          for (auto &[key, v] : obs) {
            auto it = r.find(key);
            SIM_CHECK(it != r.end(), "observable %s is missing from the result", key.c_str());
            SIM_CHECK(it->second.size() == v.size(), "observable %s has %zu values, expected %zu", key.c_str(), it->second.size(), v.size());
            for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(near(Z(it->second[i]), v[i], 1e-7), "observable %s[%zu] is %s, exact %s (ranks %d, %zu configurations)", key.c_str(), i, zs(it->second[i]).c_str(), zs(v[i]).c_str(), n, set.size());
          }
        } else SIM_CHECK(r.empty(), "rank %d returned observables", me);
      } else {
        auto [en, g, err] = ExactSumEnergyEvaluatorMPI<Model, E, QNT, Con>(mine, lib, tp, mdl, Ly, Lx, MPI_COMM_WORLD, me, n);
        SIM_CHECK(err == 0, "exact summation reports an error bar %g", err);
        if (me == 0) {
          SIM_CHECK(near(Z(en), e, 1e-7), "energy %s, exact %s (ranks %d, %zu configurations)", zs(en).c_str(), zs(e).c_str(), n, set.size());
          double d = rel_diff(zelems_like(st, g), seo);
          SIM_CHECK(d < 1e-6, "gradient differs from the exact one by %g (ranks %d, %zu configurations)", d, n, set.size());
        } else SIM_CHECK(en == E(0), "rank %d returned an energy", me);
      }
    }
    if (me == 0) SIM_CHECK(same_state(mine, st), "the caller's state was modified");
  });
  SIM_CHECK(out.ok(), "exact summation did not finish: %s", out.str().c_str());
  sim::event_hash(sim::hash_bytes(&e, sizeof e));
}

template<typename E> void obc(MK k) {
  swarm();
  size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)), D = size_t(sim::draw("D", 1, 2));
  if (Ly * Lx == 6 && sim::chance("wide", 0.2)) { Ly = Ly == 3 ? 3 : 2; Lx = 4; }
  auto tp = bmps_exact(size_t(sim::draw("scheme", 0, 1)));
  ModelPar m{sim::draw_real("ja", 0.2, 1), sim::draw_real("jb", 0.2, 1), sim::draw_real("jc", -0.5, 0.5), sim::draw_real("jd", -0.5, 0.5), sim::draw_real("pin", -0.5, 0.5)};
  const auto bc = BoundaryCondition::Open; const size_t mx = 64;
  if (k == MK::TFIM) run_exact<E, TransverseFieldIsingSquareOBC>(k, m, TransverseFieldIsingSquareOBC(m.a), Ly, Lx, D, tp, bc, mx);
  else if (k == MK::XXZ) run_exact<E, SquareSpinOneHalfXXZModelOBC>(k, m, SquareSpinOneHalfXXZModelOBC(m.a, m.b, m.p), Ly, Lx, D, tp, bc, mx);
  else if (k == MK::J1J2) run_exact<E, SquareSpinOneHalfJ1J2XXZModelOBC>(k, m, SquareSpinOneHalfJ1J2XXZModelOBC(m.a, m.b, m.c, m.d, m.p), Ly, Lx, D, tp, bc, mx);
  else if (k == MK::TRI) run_exact<E, SpinOneHalfTriHeisenbergSqrPEPS>(k, m, SpinOneHalfTriHeisenbergSqrPEPS(), Ly, Lx, D, tp, bc, mx);
  else run_exact<E, SpinOneHalfTriJ1J2HeisenbergSqrPEPS>(k, m, SpinOneHalfTriJ1J2HeisenbergSqrPEPS(m.c), Ly, Lx, D, tp, bc, mx);
}
#define BOTH(K) if (sim::chance("cplx", 0.5)) obc<Z>(K); else obc<double>(K);
SCENARIO("P02", ising_open, 2) { BOTH(MK::TFIM) }
SCENARIO("P02", xxz_open, 2) { BOTH(MK::XXZ) }
SCENARIO("P02", j1j2_open, 2) { BOTH(MK::J1J2) }
SCENARIO("P02", triangle, 2) { BOTH(MK::TRI) }
SCENARIO("P02", triangle_j1j2, 1) { BOTH(MK::TRIJ) }
template<typename E> void pbc(MK k) {
  swarm();
  size_t L, D; torus(L, D, false);
  TRGTruncateParams<double> tp(1, 64, 0.0);
  ModelPar m{sim::draw_real("ja", 0.2, 1), sim::draw_real("jb", 0.2, 1), sim::draw_real("jc", -0.5, 0.5), sim::draw_real("jd", -0.5, 0.5), sim::draw_real("pin", -0.5, 0.5)};
  const auto bc = BoundaryCondition::Periodic;
  if (k == MK::TFIM_P) run_exact<E, TransverseFieldIsingSquarePBC, TRGContractor>(k, m, TransverseFieldIsingSquarePBC(m.a), L, L, D, tp, bc, 16);
  else run_exact<E, SquareSpinOneHalfJ1J2XXZModelPBC, TRGContractor>(k, m, SquareSpinOneHalfJ1J2XXZModelPBC(m.a, m.b, m.c, m.d, m.p), L, L, D, tp, bc, 16);
}
SCENARIO("P02", ising_periodic, 1) { if (sim::chance("cplx", 0.5)) pbc<Z>(MK::TFIM_P); else pbc<double>(MK::TFIM_P); }
SCENARIO("P02", j1j2_periodic, 1) { if (sim::chance("cplx", 0.5)) pbc<Z>(MK::J1J2_P); else pbc<double>(MK::J1J2_P); }
HARNESS_MAIN
