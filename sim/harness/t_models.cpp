#include "models.h"
using namespace hx;
template<typename E, typename M> void go(const M &m, const RefH &h, size_t Ly, size_t Lx, size_t D, size_t scheme) {
  auto s = make_state<E>(Ly, Lx, 2, D, sim::stable_seed("state"), 0.2, 1.0);
  std::vector<size_t> c(Ly * Lx); for (auto &x : c) x = sim::draw("c", 0, 1);
  RefState<E> rs(s, h);
  auto r = sim::run_world({1}, [&](int) {
    TPSWaveFunctionComponent<E, QNT> w(s, conf(Ly, Lx, c), bmps_exact(scheme));
    SIM_CHECK(near(Z(w.GetAmplitude()), rs.amp(c), 1e-8), "amp scheme %zu: %s vs %s Ly=%zu Lx=%zu D=%zu", scheme, zs(w.GetAmplitude()).c_str(), zs(rs.amp(c)).c_str(), Ly, Lx, D);
    M mm(m); TensorNetwork2D<E, QNT> holes(Ly, Lx);
    E e = mm.template CalEnergyAndHoles<E, QNT, true>(&s, &w, holes);
    SIM_CHECK(near(Z(e), rs.eloc(c), 1e-8), "eloc scheme %zu: %s vs %s Ly=%zu Lx=%zu D=%zu", scheme, zs(e).c_str(), zs(rs.eloc(c)).c_str(), Ly, Lx, D);
    std::vector<Z> o; Z ip = std::conj(1.0 / Z(w.GetAmplitude()));
    for (size_t r = 0; r < Ly; ++r) for (size_t k = 0; k < Lx; ++k) for (size_t q = 0; q < 2; ++q) { auto &t = s({r, k})[q]; for (auto &x : qlten::GenAllCoors(t.GetShape())) o.push_back(q == c[r * Lx + k] ? ip * Z(holes({r, k}).GetElem(x)) : Z(0)); }
    SIM_CHECK(rel_diff(o, rs.ostar(c)) < 1e-7, "holes differ %g", rel_diff(o, rs.ostar(c)));
  });
  SIM_CHECK(r.ok(), "%s", r.str().c_str());
}
template<typename E> void pick() {
  size_t Ly = sim::draw("Ly", 2, 4), Lx = sim::draw("Lx", 2, 4), D = sim::draw("D", 1, 2), sc = sim::draw("scheme", 0, 2);
  double a = sim::draw_real("a", -1, 1), b = sim::draw_real("b", -1, 1), c = sim::draw_real("c", -1, 1), d = sim::draw_real("d", -1, 1), e = sim::draw_real("e", -1, 1);
  switch (sim::draw("model", 0, 4)) {
    case 0: sim::tag("tfim"); go<E>(TransverseFieldIsingSquareOBC(a), ref_tfim(Ly, Lx, false, a), Ly, Lx, D, sc); break;
    case 1: sim::tag("xxz");  go<E>(SquareSpinOneHalfXXZModelOBC(a, b, e), ref_xxz(Ly, Lx, false, a, b, 0, 0, e), Ly, Lx, D, sc); break;
    case 2: sim::tag("j1j2"); go<E>(SquareSpinOneHalfJ1J2XXZModelOBC(a, b, c, d, e), ref_xxz(Ly, Lx, false, a, b, c, d, e), Ly, Lx, D, sc); break;
    case 3: sim::tag("tri"); go<E>(SpinOneHalfTriHeisenbergSqrPEPS(), ref_tri(Ly, Lx, 0), Ly, Lx, D, sc); break;
    case 4: sim::tag("trij2"); go<E>(SpinOneHalfTriJ1J2HeisenbergSqrPEPS(a), ref_tri(Ly, Lx, a), Ly, Lx, D, sc); break;
  }
}
SCENARIO("T01", models, 1) { if (sim::chance("cplx", 0.5)) pick<Z>(); else pick<double>(); }

template<typename E, typename M> void gop(const M &m, const RefH &h, size_t L, size_t D) {
  auto s = make_state<E>(L, L, 2, D, sim::stable_seed("state"), 0.2, 1.0, BoundaryCondition::Periodic);
  std::vector<size_t> c(L * L); for (auto &x : c) x = sim::draw("c", 0, 1);
  RefState<E> rs(s, h);
  auto r = sim::run_world({1}, [&](int) {
    TRGTruncateParams<double> tp(1, 64, 0.0);
    TPSWaveFunctionComponent<E, QNT, NoDress, TRGContractor> w(s, conf(L, L, c), tp);
    SIM_CHECK(near(Z(w.GetAmplitude()), rs.amp(c), 1e-8), "amp: %s vs %s L=%zu D=%zu", zs(w.GetAmplitude()).c_str(), zs(rs.amp(c)).c_str(), L, D);
    M mm(m); TensorNetwork2D<E, QNT> holes(L, L);
    E e = mm.template CalEnergyAndHoles<E, QNT, true>(&s, &w, holes);
    SIM_CHECK(near(Z(e), rs.eloc(c), 1e-8), "eloc: %s vs %s L=%zu D=%zu", zs(e).c_str(), zs(rs.eloc(c)).c_str(), L, D);
    std::vector<Z> o; Z ip = std::conj(1.0 / Z(w.GetAmplitude()));
    for (size_t r = 0; r < L; ++r) for (size_t k = 0; k < L; ++k) for (size_t q = 0; q < 2; ++q) { auto &t = s({r, k})[q]; for (auto &x : qlten::GenAllCoors(t.GetShape())) o.push_back(q == c[r * L + k] ? ip * Z(holes({r, k}).GetElem(x)) : Z(0)); }
    SIM_CHECK(rel_diff(o, rs.ostar(c)) < 1e-7, "holes differ %g", rel_diff(o, rs.ostar(c)));
  });
  SIM_CHECK(r.ok(), "%s", r.str().c_str());
}
template<typename E> void pickp() {
  size_t L = sim::draw("L", 2, 3), D = sim::draw("D", 1, 2);
  double a = sim::draw_real("a", -1, 1), b = sim::draw_real("b", -1, 1), c = sim::draw_real("c", -1, 1), d = sim::draw_real("d", -1, 1), e = sim::draw_real("e", -1, 1);
  if (sim::chance("j2zero", 0.3)) c = d = 0;
  switch (sim::draw("model", 0, 1)) {
    case 0: sim::tag("tfim"); gop<E>(TransverseFieldIsingSquarePBC(a), ref_tfim(L, L, true, a), L, D); break;
    case 1: sim::tag("j1j2"); gop<E>(SquareSpinOneHalfJ1J2XXZModelPBC(a, b, c, d, e), ref_xxz(L, L, true, a, b, c, d, e), L, D); break;
  }
}
SCENARIO("T01", pbc, 1) { if (sim::chance("cplx", 0.5)) pickp<Z>(); else pickp<double>(); }
HARNESS_MAIN
