// P20: imaginary-time simple update: the sweeps apply exactly the gates of the Hamiltonian, the job reports what it did, and a
// chain of jobs handed over through the disk (with kills while saving) ends where the unbroken job ends, on every rank of a VMC job.
#include "peps_dense.h"
#include "qlpeps/algorithm/simple_update/simple_update_model_all.h"
#include "qlpeps/api/conversions.h"
using namespace hx;
namespace {
template<typename E> using Exec = SimpleUpdateExecutor<E, QNT>;
enum Kind { NN, NN_SITE, NN_SITES, NN_BONDS, NN_BONDS_SITE, NNN, NNN_SITE, NNN_SITES, TRI };
const char *kname[] = {"nn", "nn_onsite", "nn_onsites", "nn_bonds", "nn_bonds_onsite", "nnn", "nnn_onsite", "nnn_onsites", "triangle"};
template<typename E> struct Model {
  Kind k; size_t Ly, Lx, d; bool pbc, commuting; Ten<E> nn, nnn, os, tri; TenMatrix<Ten<E>> hb, vb, oss; Ham h, ha, hb2;
  Model() : hb(1, 1), vb(1, 1), oss(1, 1) {}
};
double fro(const Mat &m) { double s = 0; for (auto &x : m) s += std::norm(x); return std::sqrt(s); }
template<typename E> Model<E> make_model(Kind k, size_t Ly, size_t Lx, size_t d, bool pbc, bool commuting, uint64_t seed) {
  Model<E> M; M.k = k; M.Ly = Ly; M.Lx = Lx; M.d = d; M.pbc = pbc; M.commuting = commuting; Gen<E> G(seed, d, commuting); M.h.n = M.ha.n = M.hb2.n = Ly * Lx; M.h.d = M.ha.d = M.hb2.d = d;
  auto at = [&](size_t r, size_t c) { return (r % Ly) * Lx + c % Lx; }; const size_t hc = pbc ? Lx : Lx - 1, vr = pbc ? Ly : Ly - 1;
  auto add = [](Ham &h, std::vector<size_t> s, const Mat &m) { h.t.push_back({s, m}); h.bound += fro(m); };
  if (k == TRI) {
    Mat nn = G.op(2, true), tr = G.op(3, false); M.nn = to_ten<E>(nn, d, 2);
    // a triangle term symmetric under exchange of its end sites (the diagonal neighbours)
    { const size_t D = d * d * d; auto sw = [&](size_t q) { return (q % d) * d * d + (q / d % d) * d + q / (d * d); }; Mat s(tr); for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) s[o * D + i] = 0.5 * (tr[o * D + i] + tr[sw(o) * D + sw(i)]); tr = s; }
    M.tri = to_ten<E>(tr, d, 3);
    for (size_t r = 0; r + 1 < Ly; ++r) { add(M.ha, {at(r, 0), at(r + 1, 0)}, nn); add(M.hb2, {at(r, Lx - 1), at(r + 1, Lx - 1)}, nn); }
    for (size_t c = 0; c + 1 < Lx; ++c) { add(M.ha, {at(0, c), at(0, c + 1)}, nn); add(M.hb2, {at(Ly - 1, c), at(Ly - 1, c + 1)}, nn); }
    for (size_t r = 0; r + 1 < Ly; ++r) for (size_t c = 0; c + 1 < Lx; ++c) { add(M.ha, {at(r, c + 1), at(r + 1, c + 1), at(r + 1, c)}, tr); add(M.hb2, {at(r, c + 1), at(r, c), at(r + 1, c)}, tr); }
    M.h = M.ha; M.h.t.insert(M.h.t.end(), M.hb2.t.begin(), M.hb2.t.end()); M.h.bound += M.hb2.bound; return M;
  }
  const bool nnn = k >= NNN, site = k == NN_SITE || k == NN_BONDS_SITE || k == NNN_SITE, sites = k == NN_SITES || k == NNN_SITES, bonds = k == NN_BONDS || k == NN_BONDS_SITE;
  Mat nn = G.op(2, nnn), m2 = nnn ? G.op(2, true) : Mat(), os = G.op(1, false); M.nn = to_ten<E>(nn, d, 2); if (nnn) M.nnn = to_ten<E>(m2, d, 2); if (site) M.os = to_ten<E>(os, d, 1);
  M.hb = TenMatrix<Ten<E>>(Ly, hc); M.vb = TenMatrix<Ten<E>>(vr, Lx); M.oss = TenMatrix<Ten<E>>(Ly, Lx);
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < hc; ++c) { Mat m = bonds ? G.op(2, false) : nn; if (bonds) M.hb({r, c}) = to_ten<E>(m, d, 2); add(M.h, {at(r, c), at(r, c + 1)}, m); }
  for (size_t r = 0; r < vr; ++r) for (size_t c = 0; c < Lx; ++c) { Mat m = bonds ? G.op(2, false) : nn; if (bonds) M.vb({r, c}) = to_ten<E>(m, d, 2); add(M.h, {at(r, c), at(r + 1, c)}, m); }
  if (nnn) for (size_t r = 0; r < vr; ++r) for (size_t c = 0; c < hc; ++c) { add(M.h, {at(r, c), at(r + 1, c + 1)}, m2); add(M.h, {at(r, c + 1), at(r + 1, c)}, m2); }
  if (site || sites) for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) { Mat m = sites ? G.op(1, false) : os; if (sites) M.oss({r, c}) = to_ten<E>(m, d, 1); add(M.h, {at(r, c)}, m); }
  return M;
}
template<typename E> std::unique_ptr<Exec<E>> make_exec(const Model<E> &M, const SimpleUpdatePara &p, const Peps<E> &s) {
  using A = SquareLatticeNNSimpleUpdateExecutor<E, QNT>; using B = SquareLatticeNNNSimpleUpdateExecutor<E, QNT>; using C = TriangleNNModelSquarePEPSSimpleUpdateExecutor<E, QNT>;
  switch (M.k) {
    case NN: return std::make_unique<A>(p, s, M.nn);
    case NN_SITE: return std::make_unique<A>(p, s, M.nn, M.os);
    case NN_SITES: return std::make_unique<A>(p, s, M.nn, M.oss);
    case NN_BONDS: return std::make_unique<A>(p, s, M.hb, M.vb);
    case NN_BONDS_SITE: return std::make_unique<A>(p, s, M.hb, M.vb, M.os);
    case NNN: return std::make_unique<B>(p, s, M.nn, M.nnn);
    case NNN_SITE: return std::make_unique<B>(p, s, M.nn, M.nnn, M.os);
    case NNN_SITES: return std::make_unique<B>(p, s, M.nn, M.nnn, M.oss);
    default: return std::make_unique<C>(p, s, M.nn, M.tri);
  }
}
template<typename E> using Seen = SeenBy<E, Exec<E>, SimpleUpdateStepMetrics<double>>;
template<typename E> void execute(Exec<E> &x, bool pbc, bool want_psi, Seen<E> &s) {
  x.update_para.step_observer = [&](const SimpleUpdateStepMetrics<double> &m) { s.obs.push_back(m); s.lam.push_back(lambdas(x.GetPEPS())); if (want_psi) s.psi.push_back(vec_peps(x.GetPEPS(), pbc)); sim::yield("sweep"); };
  x.Execute(); for (auto &m : x.GetStepMetrics()) s.met.push_back({m.step_index, m.tau, double(m.estimated_e0), double(m.estimated_en), m.trunc_err ? std::optional<double>(*m.trunc_err) : std::nullopt, m.elapsed_sec, m.bond_dim_changed}); s.sum = x.GetLastRunSummary(); s.end = x.GetPEPS(); s.est = x.GetEstimatedEnergy();
}
template<typename E> void evolution() {
  const Kind k = Kind(sim::draw("model", 0, 8)); const bool pbc = k != TRI && sim::chance("pbc", 0.3), comm = sim::chance("commuting", 0.6);
  const size_t d = (k < NNN && sim::chance("d3", 0.2)) ? 3 : 2; size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3));
  if (d == 3 || pbc) { if (Ly * Lx > 6) Lx = 2; if (d == 3) Ly = Lx = 2; } if (k >= NNN && Ly * Lx > 6) Lx = 2;
  const int init = int(sim::draw("init", 0, pbc || k >= NNN ? 1 : 2));
  auto M = make_model<E>(k, Ly, Lx, d, pbc, comm, sim::stable_seed("ham")); auto p0 = make_peps<E>(Ly, Lx, d, pbc, init, sim::stable_seed("state"));
  const double tau = comm ? sim::draw_real("tau", 0.05, 0.3) : 1e-4; const size_t steps = comm ? size_t(sim::draw("steps", 1, 3)) : 1;
  sim::tag(kname[k]); if (pbc) sim::tag("periodic"); sim::tag(comm ? "commuting" : "generic");
  SimpleUpdatePara para(steps, tau, 1, 64, comm ? 1e-18 : 1e-24); Seen<E> s(p0);
  auto out = sim::run_world({.nranks = 1}, [&](int) { auto x = make_exec(M, para, p0); execute(*x, pbc, true, s); });
  SIM_CHECK(out.ok(), "simple update (%s) ended with %s", kname[k], out.str().c_str()); check_stop(para, s, k == TRI);
  VZ ref = vec_peps(p0, pbc); if (ref.empty()) { sim::tag("too_big"); return; } const VZ start = ref;
  if (!comm && init <= 1) {      // still a product state up to order tau: the local estimates are the energy of the product state
    const double e = k == TRI ? 0.5 * (expect(M.ha, start) + expect(M.hb2, start)) : expect(M.h, start), lim = 8 * tau * M.h.bound * M.h.bound + 1e-6;
    if (k != TRI || init == 0) SIM_CHECK(std::fabs(s.obs[0].estimated_e0 - e) <= lim, "%s: energy estimate %.9g of a product state whose energy is %.9g (allowed %.1e)", kname[k], s.obs[0].estimated_e0, e, lim);
    if (init == 0) SIM_CHECK(std::fabs(s.obs[0].estimated_en - e) <= lim, "%s: norm-based energy estimate %.9g of a product state whose energy is %.9g", kname[k], s.obs[0].estimated_en, e);
    sim::tag("energy_checked");
  }
  for (size_t i = 0; i < steps; ++i) {
    ref = evolve(M.h, ref, tau); if (s.psi[i].empty()) { sim::tag("too_big"); return; }
    double lmin = 9, lmax = 0; for (auto &l : s.lam[i]) for (auto x : l) { lmin = std::min(lmin, x); lmax = std::max(lmax, x); } if (comm && lmin < 1e-6 * lmax) { sim::tag("ill_conditioned"); return; }
    const double df = ray(ref, s.psi[i]), lim = comm ? 1e-6 : 4 * tau * tau * M.h.bound * M.h.bound + 5e-16 * lmax / lmin;
    sim::event_hash(uint64_t(std::hash<double>()(s.obs[i].estimated_e0))); if (df > 0.01 * lim) sim::tag("within_100");
    SIM_CHECK(df <= lim, "%s (%s, %zux%zu%s, d=%zu): after sweep %zu the state is off exp(-tau H)^n by %.3e (allowed %.1e)", kname[k], comm ? "commuting terms" : "generic terms", Ly, Lx, pbc ? " periodic" : "", d, i, df, lim);
  }
  sim::tag("state_checked");
}
// A job chain: every stage loads the last state, evolves and saves into a directory of its own; stages are killed while saving and
// repeated.  The end has to be the end of the unbroken chain, bit for bit, and it has to arrive unchanged on every rank of a VMC job.
template<typename E> void chain() {
  const Kind k = Kind(sim::draw("model", 0, 8)); const bool pbc = k != TRI && sim::chance("pbc", 0.2); const size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = (Ly == 3 && (pbc || k >= NNN)) ? 2 : size_t(sim::draw("Lx", 2, 3)), d = 2;
  auto M = make_model<E>(k, Ly, Lx, d, pbc, sim::chance("commuting", 0.3), sim::stable_seed("ham")); const int init = int(sim::draw("init", 0, 2)); auto p0 = make_peps<E>(Ly, Lx, d, pbc, init, sim::stable_seed("state"));
  const size_t Dmax = size_t(sim::draw("Dmax", 1, 3)), Dmin = size_t(sim::draw("Dmin", 1, long(Dmax))), nst = size_t(sim::draw("stages", 1, 3)); const double te = sim::chance("te", 0.5) ? 1e-13 : 1e-8; sim::tag(kname[k]); if (pbc) sim::tag("periodic");
  std::vector<SimpleUpdatePara> ps; for (size_t i = 0; i < nst; ++i) {
    SimpleUpdatePara p(size_t(sim::draw("steps", 0, 4)), sim::draw_real("tau", 0.01, 0.3), Dmin, Dmax, te);
    if (sim::chance("adv", 0.4)) { const double tol[] = {0, 1e-6, 1e-3, 0.1, 10}; p.steps += 4; p.advanced_stop = SimpleUpdatePara::AdvancedStopConfig{tol[sim::draw("ea", 0, 4)], tol[sim::draw("er", 0, 4)], tol[sim::draw("ld", 1, 4)], size_t(sim::draw("pat", 1, 3)), size_t(sim::draw("min", 1, 5))}; if (sim::chance("drift", 0.5)) { p.advanced_stop->energy_abs_tol = 1e6; p.advanced_stop->lambda_rel_tol = std::pow(10., sim::draw_real("ldx", -5, 0)); } sim::tag("advanced"); }
    if (sim::chance("metrics", 0.2)) p.emit_machine_readable_metrics = true;
    ps.push_back(p);
  }
  // unbroken: one process, one executor per stage or one executor with a new step length
  const bool reuse = sim::chance("reuse", 0.5); Peps<E> want = p0; std::vector<Seen<E>> seen;
  sim::clear_captured();
  auto out = sim::run_world({.nranks = 1}, [&](int) {
    std::unique_ptr<Exec<E>> x;
    for (size_t i = 0; i < nst; ++i) { if (x && reuse) { auto q = ps[i]; x->ResetStepLenth(q.tau); x->update_para = q; } else x = make_exec(M, ps[i], want); Seen<E> s(p0); execute(*x, pbc, false, s); if (!ps[i].steps && !i) s.est = 0; want = s.end; seen.push_back(s); } });
  SIM_CHECK(out.ok(), "simple update (%s) ended with %s", kname[k], out.str().c_str());
  for (size_t i = 0; i < nst; ++i) { check_stop(ps[i], seen[i], k == TRI);
    for (size_t j = 0; j < seen[i].lam.size(); ++j) { size_t lo = SIZE_MAX, hi = 0; for (auto &l : seen[i].lam[j]) { hi = std::max(hi, l.size()); lo = std::min(lo, l.size()); for (size_t q = 0; q < l.size(); ++q) SIM_CHECK(std::isfinite(l[q]) && l[q] >= 0, "a bond weight is %g", l[q]); } SIM_CHECK(hi <= std::max<size_t>(Dmax, j || i ? 0 : 1), "bond dimension %zu above Dmax %zu after sweep %zu", hi, Dmax, j); } }
  { // one machine-readable line per sweep of the stages that ask for it
    std::istringstream is(sim::captured()); std::string l; std::vector<std::pair<size_t, double>> got, exp; while (std::getline(is, l)) { auto q = l.find("SU_METRIC step="); if (q == std::string::npos) continue; size_t st = 0; double tau = 0, e0 = 0; SIM_CHECK(std::sscanf(l.c_str() + q, "SU_METRIC step=%zu tau=%lf e0=%lf", &st, &tau, &e0) == 3, "malformed metrics line: %s", l.c_str()); got.push_back({st, e0}); }
    for (size_t i = 0; i < nst; ++i) if (ps[i].emit_machine_readable_metrics) for (size_t j = 0; j < seen[i].obs.size(); ++j) exp.push_back({j, seen[i].obs[j].estimated_e0});
    bool ok = got.size() == exp.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].first == exp[i].first && std::fabs(got[i].second - exp[i].second) <= 1e-8 * (1 + std::fabs(exp[i].second)); SIM_CHECK(ok, "%zu machine-readable metric lines were printed that do not match the %zu expected", got.size(), exp.size()); }
  // broken: every stage is a job of its own, killed at random while saving
  const double pc[] = {0, 0.01, 0.05}; Peps<E> cur = p0; std::string dir; int tries = 0; const bool rel = sim::chance("release_mem", 0.3);
  for (size_t i = 0; i < nst;) {
    SIM_CHECK(++tries < 60, "the job chain makes no progress"); const bool last_try = tries > 20;
    sim::profile().p[sim::K_CRASH] = last_try ? 0 : pc[sim::draw("p_crash", 0, 2)]; sim::profile().max_of[sim::K_CRASH] = tries; sim::WorldOpts o; o.nranks = 1; o.io_faults = true; const std::string to = "su/stage" + std::to_string(i);
    auto r = sim::run_world(o, [&](int) { Peps<E> s = make_peps<E>(Ly, Lx, d, pbc, 1, 7); if (i) { if (!s.Load(dir)) throw std::runtime_error("the saved state of the stage before does not load"); } else s = p0; auto x = make_exec(M, ps[i], s); Seen<E> sn(p0); execute(*x, pbc, false, sn); if (!x->DumpResult(to, rel)) throw std::runtime_error("DumpResult reports failure on a healthy disk"); });
    sim::profile().p[sim::K_CRASH] = 0;
    if (r.kind == sim::KILLED) { sim::tag("killed"); continue; }
    SIM_CHECK(r.ok(), "stage %zu of the job chain ended with %s", i, r.str().c_str()); dir = to; ++i;
  }
  // hand-over: the master loads the state, converts it and broadcasts it
  const int n = int(sim::draw("ranks", 1, 4)); std::vector<std::optional<SITPS<E>>> got(static_cast<size_t>(n)); std::optional<Peps<E>> fin; std::optional<TPS<E, QNT>> tps; const bool two = sim::chance("two_steps", 0.5);
  auto h = sim::run_world({.nranks = n}, [&](int me) {
    SITPS<E> s(Ly, Lx, d, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
    if (me == 0) { Peps<E> p = make_peps<E>(Ly, Lx, d, pbc, 1, 7); if (!p.Load(dir)) throw std::runtime_error("the final state does not load"); fin = p; tps = ToTPS<E, QNT>(p); s = two ? SplitPhyIndex<E, QNT>(*tps) : ToSplitIndexTPS<E, QNT>(p); }
    qlpeps::MPI_Bcast(s, MPI_COMM_WORLD, 0); got[size_t(me)] = s; });
  SIM_CHECK(h.ok(), "handing the state over to %d ranks ended with %s", n, h.str().c_str());
  SIM_CHECK(same_peps(*fin, want), "a chain of %zu jobs through the disk (%d runs) does not end where the unbroken run ends", nst, tries);
  const VZ ref = vec_peps(want, pbc); if (ref.empty()) { sim::tag("too_big"); return; }
  const VZ a = vec_tps<E>(*tps, pbc); SIM_CHECK(ray(ref, a) <= 1e-9, "the TPS made from the PEPS is another state (distance %.2e)", ray(ref, a));
  for (int r = 0; r < n; ++r) { const VZ b = vec_sitps<E>(*got[size_t(r)], pbc); SIM_CHECK(ray(ref, b) <= 1e-9, "the split-index state on rank %d is not the state of the simple update (distance %.2e)", r, ray(ref, b)); SIM_CHECK(same_state(*got[size_t(r)], *got[0]), "rank %d holds another state than rank 0", r); }
  sim::tag("handed_over"); uint64_t hh = 0; for (auto &x : ref) hh = sim::mix(hh, std::hash<double>()(x.real())); sim::event_hash(hh);
}
// The stopping rule: a run without it shows what it would see, then the rule is put next to what was seen.
template<typename E> void stopping() {
  const Kind k = Kind(sim::draw("model", 0, 8)); const bool pbc = k != TRI && sim::chance("pbc", 0.2); const size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = Ly == 3 ? 2 : size_t(sim::draw("Lx", 2, 3)), d = 2; const int init = int(sim::draw("init", 0, 2));
  auto M = make_model<E>(k, Ly, Lx, d, pbc, sim::chance("commuting", 0.2), sim::stable_seed("ham")); auto p0 = make_peps<E>(Ly, Lx, d, pbc, init, sim::stable_seed("state"));
  SimpleUpdatePara p(size_t(sim::draw("steps", 2, 12)), sim::draw_real("tau", 0.02, 0.5), 1, size_t(sim::draw("Dmax", 1, 2)), 1e-12); Seen<E> s(p0), t(p0);
  auto o = sim::run_world({.nranks = 1}, [&](int) { auto x = make_exec(M, p, p0); execute(*x, pbc, false, s); }); SIM_CHECK(o.ok(), "simple update (%s) ended with %s", kname[k], o.str().c_str()); check_stop(p, s, k == TRI);
  p.advanced_stop = close_stop<SimpleUpdatePara::AdvancedStopConfig>(s); bool refused = false;
  o = sim::run_world({.nranks = 1}, [&](int) { try { auto x = make_exec(M, p, p0); execute(*x, pbc, false, t); } catch (const std::invalid_argument &) { refused = true; } }); SIM_CHECK(o.ok(), "simple update (%s) ended with %s", kname[k], o.str().c_str());
  if (refused) { SIM_CHECK(p.advanced_stop->min_steps == 0, "a valid stopping rule was refused"); sim::tag("refused"); return; }
  check_stop(p, t, k == TRI); for (size_t i = 0; i < t.obs.size(); ++i) SIM_CHECK(t.obs[i].estimated_e0 == s.obs[i].estimated_e0 && t.lam[i] == s.lam[i], "the stopping rule changes sweep %zu", i);
  sim::event_hash(t.obs.size()); sim::tag("stop_checked");
}
}  // namespace
SCENARIO("P20", stopping_rule, 2) { if (sim::chance("cplx", 0.5)) stopping<Z>(); else stopping<double>(); }
SCENARIO("P20", sweeps_apply_the_gates, 3) { if (sim::chance("cplx", 0.5)) evolution<Z>(); else evolution<double>(); }
SCENARIO("P20", job_chain_through_disk, 3) { swarm(); if (sim::chance("cplx", 0.5)) chain<Z>(); else chain<double>(); }
HARNESS_MAIN
