// P21: loop update: a plaquette projection applies its ring gate to the state, truncates without loss where none is needed and reports the
// overlap and norm it met; the executor's sweeps, stopping rule, metrics and job chains follow.
#include "peps_dense.h"
#include "qlpeps/algorithm/loop_update/loop_update.h"
using namespace hx;
namespace {
template<typename E> using Gate = std::array<Ten<E>, 4>;
template<typename E> struct Ring { Gate<E> g; Mat m; };        // the library's four tensors and the same operator on (ul, ur, lr, ll)
enum Form { COMM, GENERIC, ONE_SITE };
// G_k[l][in][out][r]: identity + eps on the (0, 0) link, eps elsewhere. ONE_SITE: product of one-site operators written with a link of dimension chi.
template<typename E> Ring<E> make_gate(size_t d, size_t chi, Form f, double eps, Gen<E> &G) {
  std::array<std::vector<Mat>, 4> w; sim::SplitMix &g = G.g;
  for (auto &x : w) {
    x.assign(chi * chi, Mat(d * d, Z(0)));
    auto site = [&](double e) { Mat m(d * d, Z(0)); if (f == COMM) { for (size_t s = 0; s < d; ++s) { const double v = e * g.sym(); for (size_t o = 0; o < d; ++o) for (size_t i = 0; i < d; ++i) m[o * d + i] += v * G.U[0][o * d + s] * std::conj(G.U[0][i * d + s]); } } else for (auto &y : m) y = e * Z(rnd<E>(g, -1, 1)); return m; };
    if (f == ONE_SITE) { Mat m = site(eps); for (size_t s = 0; s < d; ++s) m[s * d + s] += 1.0; std::vector<Z> a, b; for (size_t i = 0; i < chi; ++i) { a.push_back(Z(rnd<E>(g, 0.3, 1))); b.push_back(Z(rnd<E>(g, 0.3, 1))); } for (size_t l = 0; l < chi; ++l) for (size_t r = 0; r < chi; ++r) { Mat y = m; for (auto &q : y) q *= a[l] * b[r]; x[l * chi + r] = y; } }
    else for (size_t l = 0; l < chi; ++l) for (size_t r = 0; r < chi; ++r) { x[l * chi + r] = site(l || r ? std::sqrt(eps) : eps); if (!l && !r) for (size_t s = 0; s < d; ++s) x[0][s * d + s] += 1.0; }
  }
  Ring<E> R; const size_t D = d * d * d * d; R.m.assign(D * D, Z(0));
  for (size_t k = 0; k < 4; ++k) { Ten<E> t({leg(chi, qlten::IN), leg(d, qlten::IN), leg(d, qlten::OUT), leg(chi, qlten::OUT)}); for (size_t l = 0; l < chi; ++l) for (size_t r = 0; r < chi; ++r) for (size_t i = 0; i < d; ++i) for (size_t o = 0; o < d; ++o) t.SetElem({l, i, o, r}, cast<E>(w[k][l * chi + r][o * d + i])); R.g[k] = t; }
  for (size_t o = 0; o < D; ++o) for (size_t i = 0; i < D; ++i) {
    size_t oo[4], ii[4], a = o, b = i; for (size_t k = 4; k-- > 0;) { oo[k] = a % d; ii[k] = b % d; a /= d; b /= d; }
    for (size_t l0 = 0; l0 < chi; ++l0) { std::vector<Z> v(chi, Z(0)); v[l0] = 1; for (size_t k = 0; k < 4; ++k) { std::vector<Z> n(chi, Z(0)); for (size_t l = 0; l < chi; ++l) for (size_t r = 0; r < chi; ++r) n[r] += v[l] * w[k][l * chi + r][oo[k] * d + ii[k]]; v.swap(n); } R.m[o * D + i] += v[l0]; }
  }
  return R;
}
std::vector<size_t> ring_sites(size_t Ly, size_t Lx, size_t r, size_t c) { const size_t r1 = (r + 1) % Ly, c1 = (c + 1) % Lx; return {r * Lx + c, r * Lx + c1, r1 * Lx + c1, r1 * Lx + c}; }
LoopUpdateTruncatePara trunc_para(size_t Dmin, size_t Dmax, double te, double inv) { return LoopUpdateTruncatePara(ArnoldiParams(1e-10, 100), inv, FullEnvironmentTruncateParams(Dmin, Dmax, te, 1e-12, 30, ConjugateGradientParams{.max_iter = 200, .relative_tolerance = 1e-10, .residual_recompute_interval = 20})); }

// <G> of one plaquette, the rest of the lattice replaced by the weights on the bonds around it (exact when nothing is around it)
template<typename E> double local_overlap(const Peps<E> &p, size_t r, size_t c, bool pbc, const Mat &m, size_t d) {
  const size_t Ly = p.Rows(), Lx = p.Cols(), rr[4] = {r, r, (r + 1) % Ly, (r + 1) % Ly}, cc[4] = {c, (c + 1) % Lx, (c + 1) % Lx, c}; LT cur; cur.v = {Z(1)};
  const int in[4][4] = {{-1, 1, 2, -1}, {2, 3, -1, -1}, {4, -1, -1, 3}, {-1, -1, 4, 1}};      // labels of the inner legs (W, S, E, N)
  for (size_t k = 0; k < 4; ++k) {
    LT t = raw(p.Gamma({rr[k], cc[k]})); const size_t e = pbc ? (cc[k] + 1) % Lx : cc[k] + 1, s = pbc ? (rr[k] + 1) % Ly : rr[k] + 1; const auto &lw = p.lambda_horiz({rr[k], cc[k]}), &le = p.lambda_horiz({rr[k], e}), &ln = p.lambda_vert({rr[k], cc[k]}), &ls = p.lambda_vert({s, cc[k]});
    size_t q = 0; for (size_t a = 0; a < t.dim[0]; ++a) for (size_t b = 0; b < t.dim[1]; ++b) for (size_t x = 0; x < t.dim[2]; ++x) for (size_t u = 0; u < t.dim[3]; ++u) for (size_t y = 0; y < t.dim[4]; ++y, ++q) {   // every inner weight once: at its west or north end
      double f = 1; if (in[k][0] < 0) f *= lw.GetElem({a, a}); if (in[k][1] < 0) f *= ls.GetElem({b, b}); else f *= ls.GetElem({b, b}); f *= le.GetElem({x, x}); if (in[k][3] < 0) f *= ln.GetElem({u, u}); t.v[q] *= f; }
    t.lab.clear(); for (int l = 0; l < 4; ++l) t.lab.push_back(in[k][l] >= 0 ? in[k][l] : int(100 + 10 * k) + l); t.lab.push_back(1000 + int(k)); cur = mul(cur, t);
  }
  // physical index of the plaquette (site 0 most significant) x everything else
  std::vector<size_t> st(cur.dim.size(), 1); for (size_t i = cur.dim.size(); i-- > 1;) st[i - 1] = st[i] * cur.dim[i]; std::vector<size_t> ph{0}, rest{0};
  for (int k = 0; k < 4; ++k) for (size_t i = 0; i < cur.lab.size(); ++i) if (cur.lab[i] == 1000 + k) { std::vector<size_t> n; for (auto q : ph) for (size_t j = 0; j < d; ++j) n.push_back(q + j * st[i]); ph.swap(n); }
  for (size_t i = 0; i < cur.lab.size(); ++i) if (cur.lab[i] < 1000) { std::vector<size_t> n; for (auto q : rest) for (size_t j = 0; j < cur.dim[i]; ++j) n.push_back(q + j * st[i]); rest.swap(n); }
  Z num(0); double den = 0; for (auto q : rest) for (size_t o = 0; o < ph.size(); ++o) { const Z x = cur.v[q + ph[o]]; den += std::norm(x); if (x == Z(0)) continue; Z y(0); for (size_t k = 0; k < ph.size(); ++k) y += m[o * ph.size() + k] * cur.v[q + ph[k]]; num += std::conj(x) * y; }
  return num.real() / den;
}
template<typename E> size_t max_bond(const Peps<E> &p, size_t r, size_t c) { const size_t r1 = (r + 1) % p.Rows(), c1 = (c + 1) % p.Cols(); return std::max({p.lambda_horiz({r, c1}).GetShape()[0], p.lambda_horiz({r1, c1}).GetShape()[0], p.lambda_vert({r1, c}).GetShape()[0], p.lambda_vert({r1, c1}).GetShape()[0]}); }

template<typename E> void one_loop() {
  const bool pbc = sim::chance("pbc", 0.25); size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)); if (pbc) Ly = Lx = 2;
  const size_t d = !pbc && Ly * Lx == 4 && sim::chance("d3", 0.3) ? 3 : 2; const int D = int(sim::draw("D", 1, pbc ? 1 : 2)); const Form f = sim::chance("generic", 0.6) ? GENERIC : COMM; const double eps = sim::draw_real("eps", 0.02, 0.2);
  const bool tight = sim::chance("tight", 0.4) && Ly * Lx + size_t(D) != 6; const size_t chi = tight || d == 3 ? 2 : size_t(sim::draw("chi", 2, 3));   // four sites hardly fill their bonds with D = 2
  Gen<E> G(sim::stable_seed("gate"), d, true); auto R = make_gate<E>(d, chi, f, eps, G); auto p = make_peps<E>(Ly, Lx, d, pbc, D, sim::stable_seed("state"));
  const size_t r = size_t(sim::draw("r", 0, long(pbc ? Ly - 1 : Ly - 2))), c = size_t(sim::draw("c", 0, long(pbc ? Lx - 1 : Lx - 2)));
  const size_t Dmax = tight ? size_t(D) : size_t(D) * chi * chi; auto tp = trunc_para(1, Dmax, 1e-18, 1e-9); sim::tag(tight ? "tight" : "ample"); if (pbc) sim::tag("periodic"); sim::tag(f == COMM ? "commuting" : "generic");
  const VZ a = vec_peps(p, pbc); if (a.empty()) { sim::tag("too_big"); return; } Ham h{Ly * Lx, d, {{ring_sites(Ly, Lx, r, c), R.m}}}; const VZ want = happly(h, a); const double ov = local_overlap(p, r, c, pbc, R.m, d); std::pair<double, double> ret{0, 0};
  auto out = sim::run_world({.nranks = 1}, [&](int) { ret = p.LocalSquareLoopProject(R.g, {r, c}, tp, sim::chance("print", 0.1)); });
  SIM_CHECK(out.ok(), "a plaquette projection ended with %s", out.str().c_str()); SIM_CHECK(max_bond(p, r, c) <= Dmax, "bond dimension %zu above Dmax %zu", max_bond(p, r, c), Dmax);
  SIM_CHECK(std::fabs(ret.second - ov) <= 1e-8 * (1 + std::fabs(ov)), "the projection reports the overlap %.12g with the state before, it is %.12g", ret.second, ov);
  const VZ b = vec_peps(p, pbc); if (b.empty()) { sim::tag("too_big"); return; }
  sim::event_hash(std::hash<double>()(ret.first)); const double df = ray(want, b), da = ray(want, b, false) / ray(want, a, false);
  if (tight) { SIM_CHECK(da <= 2, "a truncated projection (D=%d, eps=%.3f) is %.2f times further from the projected state than the untouched state", D, eps, da); return; }
  SIM_CHECK(df <= 1e-7, "plaquette (%zu, %zu) of %zux%zu%s: with ample bond dimension the new state is off the projected one by %.2e", r, c, Ly, Lx, pbc ? " periodic" : "", df);
  SIM_CHECK(std::fabs(ret.first * nrm(b) / nrm(want) - 1) <= 1e-7, "the reported normalisation factor %.10g does not restore the norm of the projected state (%.10g)", ret.first, nrm(want) / nrm(b)); sim::tag("state_checked");
}
template<typename E> using Exec = LoopUpdateExecutor<E, QNT>;
template<typename E> using Seen = SeenBy<E, Exec<E>, LoopUpdateStepMetrics<double>>;
template<typename E> struct Job { DuoMatrix<Gate<E>> g; std::vector<std::pair<std::vector<size_t>, Mat>> ops; Job(size_t r, size_t c) : g(r, c) {} };
template<typename E> Job<E> make_job(size_t Ly, size_t Lx, size_t d, bool pbc, Form f, double eps, uint64_t seed) {
  Job<E> J(pbc ? Ly : Ly - 1, pbc ? Lx : Lx - 1); Gen<E> G(seed, d, true);
  for (size_t r = 0; r < J.g.rows(); ++r) for (size_t c = 0; c < J.g.cols(); ++c) { auto R = make_gate<E>(d, 2, f, eps, G); J.g({r, c}) = R.g; J.ops.push_back({ring_sites(Ly, Lx, r, c), R.m}); }
  return J;
}
template<typename E> std::unique_ptr<Exec<E>> make_exec(LoopUpdatePara p, const Job<E> &J, const Peps<E> &s0, bool pbc, bool want_psi, Seen<E> &s, Exec<E> *&self) {
  p.step_observer = [&s, &self, pbc, want_psi](const LoopUpdateStepMetrics<double> &m) { s.obs.push_back(m); s.lam.push_back(lambdas(self->GetPEPS())); if (want_psi) s.psi.push_back(vec_peps(self->GetPEPS(), pbc)); sim::yield("sweep"); };
  auto x = std::make_unique<Exec<E>>(p, J.g, s0); self = x.get(); return x;
}
template<typename E> void finish(Exec<E> &x, Seen<E> &s) {
  s.met.clear(); for (auto &m : x.GetStepMetrics()) s.met.push_back({m.step_index, m.tau, double(m.estimated_e0), double(m.estimated_en), m.trunc_err ? std::optional<double>(*m.trunc_err) : std::nullopt, m.elapsed_sec, m.bond_dim_changed}); s.sum = x.GetLastRunSummary(); s.end = x.GetPEPS(); s.est = x.GetEstimatedEnergy();
  SIM_CHECK(x.LastRunConverged() == s.sum.converged && x.LastRunExecutedSteps() == s.sum.executed_steps, "the accessors contradict the summary");
}
// Sweeps with ample bond dimension: every plaquette gate acts exactly once per sweep; the two energy estimates are those of the gates.
template<typename E> void sweeps() {
  const bool pbc = sim::chance("pbc", 0.3); size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 4)); if (pbc || Ly * Lx > 9) Ly = 2; if (pbc) Lx = 2; const size_t d = 2, np = (pbc ? Ly : Ly - 1) * (pbc ? Lx : Lx - 1);
  const bool small = sim::chance("small", 0.4); const double tau = small ? 2e-3 : sim::draw_real("tau", 0.01, 0.1), eps = small ? tau : sim::draw_real("eps", 0.02, 0.1); const size_t steps = 1; const int D = np > 2 ? 1 : int(sim::draw("D", 1, 2));
  const auto gt = sim::chance("exp", 0.5) ? LoopGateType::kExponential : LoopGateType::kFirstOrder; auto J = make_job<E>(Ly, Lx, d, pbc, small && sim::chance("generic", 0.5) ? GENERIC : COMM, eps, sim::stable_seed("gates")); auto p0 = make_peps<E>(Ly, Lx, d, pbc, D, sim::stable_seed("state"));
  LoopUpdatePara para(trunc_para(1, 64, 1e-20, 1e-7), steps, tau, gt); Seen<E> s(p0); Exec<E> *self = nullptr; std::vector<double> ov; for (size_t i = 0; i < J.ops.size(); ++i) ov.push_back(local_overlap(p0, i / J.g.cols(), i % J.g.cols(), pbc, J.ops[i].second, d));
  auto out = sim::run_world({.nranks = 1}, [&](int) { auto x = make_exec(para, J, p0, pbc, true, s, self); x->Execute(); finish(*x, s); });
  if (!out.ok() && np > 1 && (out.kind == sim::EXITED || out.str().find("CG solver") != std::string::npos)) { sim::tag("numerics_refused"); return; }
  SIM_CHECK(out.ok(), "loop update (%zux%zu%s) ended with %s", Ly, Lx, pbc ? " periodic" : "", out.str().c_str()); check_stop(para, s, true); sim::tag(small ? "small_step" : "large_step"); if (pbc) sim::tag("periodic");
  // energies: exact for one plaquette; on a product state up to the change made by the sweep itself
  double e0 = 0; for (auto v : ov) e0 += gt == LoopGateType::kFirstOrder ? (1 - v) / tau : -std::log(v) / tau; const double lim = np == 1 ? 1e-8 * (1 + std::fabs(e0)) / std::min(1.0, tau) : small && D == 1 ? 60 * double(np * np) * eps * eps / tau + 1e-8 : INFINITY;
  if (lim < INFINITY) { SIM_CHECK(std::fabs(s.obs[0].estimated_e0 - e0) <= lim, "energy estimate %.9g of the first sweep, the gates give %.9g (allowed %.1e)", s.obs[0].estimated_e0, e0, lim); sim::tag("energy_checked"); }
  VZ ref = vec_peps(p0, pbc);
  for (size_t i = 0; i < steps; ++i) {
    if (ref.empty() || s.psi[i].empty()) { sim::tag("too_big"); return; } const VZ before = ref; for (auto &o : J.ops) { Ham h{Ly * Lx, d, {{o.first, o.second}}}; ref = happly(h, ref); }
    const double df = ray(ref, s.psi[i]), ok = small ? 60 * double(np * np) * eps * eps + 1e-9 : np > 1 ? 2e-4 : 1e-6; if (df > 0.01 * ok) sim::tag("within_100");

    SIM_CHECK(df <= ok, "%zux%zu%s: after sweep %zu the state is off the product of all plaquette gates by %.2e (allowed %.1e)", Ly, Lx, pbc ? " periodic" : "", i, df, ok);
    const double en = -(std::log(nrm(ref)) - std::log(nrm(s.psi[i]))) / tau; if (!small || np == 1) SIM_CHECK(std::fabs(s.obs[i].estimated_en - en) <= 1e-6 * (1 + std::fabs(en)) / std::min(1.0, tau), "norm-based estimate %.9g, the normalisation taken out of the state gives %.9g", s.obs[i].estimated_en, en);
    ref = s.psi[i];
  }
  sim::tag("state_checked");
}
template<typename E> void chain() {
  const bool pbc = sim::chance("pbc", 0.2); size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)); if (pbc) Ly = Lx = 2; const size_t d = 2; auto J = make_job<E>(Ly, Lx, d, pbc, sim::chance("generic", 0.6) ? GENERIC : COMM, sim::draw_real("eps", 0.005, 0.1), sim::stable_seed("gates"));
  auto p0 = make_peps<E>(Ly, Lx, d, pbc, int(sim::draw("D", 1, 2)), sim::stable_seed("state")); const size_t Dmax = size_t(sim::draw("Dmax", 1, 2)), nst = size_t(sim::draw("stages", 1, 3)); std::vector<LoopUpdatePara> ps;
  for (size_t i = 0; i < nst; ++i) {
    LoopUpdatePara p(trunc_para(1, Dmax, 1e-12, 1e-7), size_t(sim::draw("steps", 0, 3)), sim::draw_real("tau", 0.01, 0.3), sim::chance("exp", 0.3) ? LoopGateType::kExponential : LoopGateType::kFirstOrder); p.truncate_para.fet_params.cg_params.relative_tolerance = 1e-5;
    if (sim::chance("adv", 0.5)) { const double tol[] = {0, 1e-6, 1e-3, 0.1, 10}; p.steps += 3; p.advanced_stop = LoopUpdatePara::AdvancedStopConfig{tol[sim::draw("ea", 0, 4)], tol[sim::draw("er", 0, 4)], tol[sim::draw("ld", 1, 4)], size_t(sim::draw("pat", 1, 3)), size_t(sim::draw("min", 1, 5))}; if (sim::chance("drift", 0.5)) { p.advanced_stop->energy_abs_tol = 1e6; p.advanced_stop->lambda_rel_tol = std::pow(10., sim::draw_real("ldx", -5, 0)); } sim::tag("advanced"); }
    p.emit_machine_readable_metrics = sim::chance("metrics", 0.2); ps.push_back(p);
  }
  Peps<E> want = p0; std::vector<Seen<E>> seen(nst, Seen<E>(p0)); const bool twice = sim::chance("twice", 0.3); sim::clear_captured();
  auto out = sim::run_world({.nranks = 1}, [&](int) { for (size_t i = 0; i < nst; ++i) { Exec<E> *self = nullptr; auto x = make_exec(ps[i], J, want, pbc, false, seen[i], self); x->Execute(); finish(*x, seen[i]); want = x->GetPEPS(); } });
  if (!out.ok()) { sim::tag("numerics_refused"); return; }
  bool fin_ok = true; for (auto &s : seen) for (auto &o : s.obs) fin_ok &= std::isfinite(o.estimated_e0); if (!fin_ok) { sim::tag("overlap_not_positive"); return; }
  for (size_t i = 0; i < nst; ++i) { check_stop(ps[i], seen[i], true); for (auto &sw : seen[i].lam) for (auto &l : sw) SIM_CHECK(l.size() <= std::max<size_t>(Dmax, 1), "bond dimension %zu above Dmax %zu", l.size(), Dmax); }
  { std::istringstream is(sim::captured()); std::string l; std::vector<std::pair<size_t, double>> got, exp; while (std::getline(is, l)) { auto q = l.find("LU_METRIC step="); if (q == std::string::npos) continue; size_t st = 0; double tau = 0, e0 = 0; SIM_CHECK(std::sscanf(l.c_str() + q, "LU_METRIC step=%zu tau=%lf e0=%lf", &st, &tau, &e0) == 3, "malformed metrics line: %s", l.c_str()); got.push_back({st, e0}); }
    for (size_t i = 0; i < nst; ++i) if (ps[i].emit_machine_readable_metrics) for (size_t j = 0; j < seen[i].obs.size(); ++j) exp.push_back({j, seen[i].obs[j].estimated_e0});
    bool ok = got.size() == exp.size(); for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].first == exp[i].first && std::fabs(got[i].second - exp[i].second) <= 1e-8 * (1 + std::fabs(exp[i].second)); SIM_CHECK(ok, "%zu machine-readable metric lines were printed that do not match the %zu expected", got.size(), exp.size()); }
  const double pc[] = {0, 0.01, 0.05}; std::string dir; int tries = 0; const bool rel = sim::chance("release_mem", 0.3);
  for (size_t i = 0; i < nst;) {
    SIM_CHECK(++tries < 60, "the job chain makes no progress"); sim::profile().p[sim::K_CRASH] = tries > 20 ? 0 : pc[sim::draw("p_crash", 0, 2)]; sim::profile().max_of[sim::K_CRASH] = tries; sim::WorldOpts o; o.nranks = 1; o.io_faults = true; const std::string to = "lu/stage" + std::to_string(i);
    auto r = sim::run_world(o, [&](int) { Peps<E> s = make_peps<E>(Ly, Lx, d, pbc, 1, 7); if (i) { if (!s.Load(dir)) throw std::runtime_error("the saved state of the stage before does not load"); } else s = p0; Seen<E> sn(p0); Exec<E> *self = nullptr; auto x = make_exec(ps[i], J, s, pbc, false, sn, self); x->Execute(); if (!x->DumpResult(to, rel)) throw std::runtime_error("DumpResult reports failure on a healthy disk"); });
    sim::profile().p[sim::K_CRASH] = 0; if (r.kind == sim::KILLED) { sim::tag("killed"); continue; }
    SIM_CHECK(r.ok(), "stage %zu of the job chain ended with %s", i, r.str().c_str()); dir = to; ++i;
  }
  std::optional<Peps<E>> fin; auto h = sim::run_world({.nranks = 1}, [&](int) { Peps<E> p = make_peps<E>(Ly, Lx, d, pbc, 1, 7); if (!p.Load(dir)) throw std::runtime_error("the final state does not load"); fin = p; });
  SIM_CHECK(h.ok(), "loading the result ended with %s", h.str().c_str()); SIM_CHECK(same_peps(*fin, want), "a chain of %zu jobs through the disk (%d runs) does not end where the unbroken run ends", nst, tries);
  // a second Execute of one executor is a run of its own
  if (twice && nst) { Seen<E> s(p0); auto r = sim::run_world({.nranks = 1}, [&](int) { Exec<E> *self = nullptr; auto x = make_exec(ps[0], J, p0, pbc, false, s, self); x->Execute(); s.obs.clear(); s.lam.clear(); x->Execute(); finish(*x, s); }); if (!r.ok()) { sim::tag("numerics_refused"); return; } bool f2 = true; for (auto &o : s.obs) f2 &= std::isfinite(o.estimated_e0); if (f2) check_stop(ps[0], s, true); sim::tag("executed_twice"); }
  uint64_t hh = 0; for (auto &l : lambdas(*fin)) for (auto x : l) hh = sim::mix(hh, std::hash<double>()(x)); sim::event_hash(hh); sim::tag("chain_checked");
}
template<typename E> void stopping() {
  const bool pbc = sim::chance("pbc", 0.2); const size_t Ly = pbc ? 2 : size_t(sim::draw("Ly", 2, 3)), Lx = pbc || Ly == 3 ? 2 : size_t(sim::draw("Lx", 2, 3)), d = 2; auto J = make_job<E>(Ly, Lx, d, pbc, sim::chance("generic", 0.8) ? GENERIC : COMM, sim::draw_real("eps", 0.02, 0.1), sim::stable_seed("gates"));
  auto p0 = make_peps<E>(Ly, Lx, d, pbc, 2, sim::stable_seed("state")); Seen<E> s(p0), t(p0);
  LoopUpdatePara p(trunc_para(1, 2, 1e-12, 1e-7), size_t(sim::draw("steps", 2, 8)), sim::draw_real("tau", 0.01, 0.3)); p.truncate_para.fet_params.cg_params.relative_tolerance = 1e-5;
  auto go = [&](Seen<E> &w) { auto o = sim::run_world({.nranks = 1}, [&](int) { Exec<E> *self = nullptr; auto x = make_exec(p, J, p0, pbc, false, w, self); x->Execute(); finish(*x, w); }); bool f = o.ok(); for (auto &m : w.obs) f &= std::isfinite(m.estimated_e0); return f; };
  if (!go(s)) { sim::tag("numerics_refused"); return; } check_stop(p, s, true); p.advanced_stop = close_stop<LoopUpdatePara::AdvancedStopConfig>(s); p.advanced_stop->min_steps = std::max<size_t>(1, p.advanced_stop->min_steps);
  SIM_CHECK(go(t), "a stopping rule breaks a run that works without it"); check_stop(p, t, true); for (size_t i = 0; i < t.obs.size(); ++i) SIM_CHECK(t.obs[i].estimated_e0 == s.obs[i].estimated_e0 && t.lam[i] == s.lam[i], "the stopping rule changes sweep %zu", i);
  sim::event_hash(t.obs.size()); sim::tag("stop_checked");
}
// What cannot be done is refused before any tensor is touched.
template<typename E> void refusals() {
  const int what = int(sim::draw("what", 0, 3)); const size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)); bool refused = false, need = true, touched = false; std::string w;
  auto out = sim::run_world({.nranks = 1}, [&](int) {
    const bool pbc = what == 0 || (what == 1 && sim::chance("pbc", 0.5)); auto p = make_peps<E>(Ly, Lx, 2, pbc, 1, 3); const auto before = p; Exec<E> *self = nullptr; Seen<E> s(p); LoopUpdatePara para(trunc_para(1, 2, 1e-12, 1e-7), 1, 0.1);
    try {
      if (what == 0) { w = "odd periodic lattice"; need = Ly % 2 || Lx % 2; auto J = make_job<E>(Ly, Lx, 2, true, GENERIC, 0.05, 5); make_exec(para, J, p, true, false, s, self); }
      else if (what == 1) { w = "gate matrix of another lattice"; const size_t r = size_t(sim::draw("gr", 1, 4)), c = size_t(sim::draw("gc", 1, 4)); need = (pbc && (Ly % 2 || Lx % 2)) || r != (pbc ? Ly : Ly - 1) || c != (pbc ? Lx : Lx - 1); Job<E> J(r, c); Gen<E> G(5, 2, true); for (size_t a = 0; a < r; ++a) for (size_t b = 0; b < c; ++b) J.g({a, b}) = make_gate<E>(2, 2, GENERIC, 0.05, G).g; make_exec(para, J, p, pbc, false, s, self); }
      else if (what == 2) { w = "plaquette across an open boundary"; const size_t r = size_t(sim::draw("r", 0, 3)), c = size_t(sim::draw("c", 0, 3)); need = r + 1 >= Ly || c + 1 >= Lx; Gen<E> G(5, 2, true); p.LocalSquareLoopProject(make_gate<E>(2, 2, GENERIC, 0.05, G).g, {r, c}, para.truncate_para, false); }
      else { w = "invalid stopping rule"; double v[3] = {0.1, 0.1, 0.1}; size_t pat = 1, mn = 1; const int k = int(sim::draw("k", 0, 5)); if (k < 3) v[k] = -1e-9; else if (k == 3) pat = 0; else if (k == 4) mn = 0; need = k < 5; para = LoopUpdatePara::Advanced(para.truncate_para, 1, 0.1, v[0], v[1], v[2], pat, mn); auto J = make_job<E>(Ly, Lx, 2, false, GENERIC, 0.05, 5); auto x = make_exec(para, J, p, false, false, s, self); try { x->Execute(); } catch (const std::invalid_argument &) { touched = !same_peps(x->GetPEPS(), before) || !s.obs.empty(); throw; } }
    } catch (const std::invalid_argument &) { refused = true; touched |= !same_peps(p, before); } });
  SIM_CHECK(out.ok(), "%s: ended with %s", w.c_str(), out.str().c_str()); SIM_CHECK(refused == need, "%s on %zux%zu: %s", w.c_str(), Ly, Lx, need ? "accepted" : "refused although it fits"); SIM_CHECK(!touched, "%s: refused after the state was changed", w.c_str()); sim::tag(need ? "refused" : "accepted");
}
}  // namespace
SCENARIO("P21", plaquette_projection, 3) { if (sim::chance("cplx", 0.5)) one_loop<Z>(); else one_loop<double>(); }
SCENARIO("P21", sweeps_apply_every_gate_once, 2) { if (sim::chance("cplx", 0.5)) sweeps<Z>(); else sweeps<double>(); }
SCENARIO("P21", job_chain_through_disk, 3) { swarm(); if (sim::chance("cplx", 0.5)) chain<Z>(); else chain<double>(); }
SCENARIO("P21", stopping_rule, 2) { if (sim::chance("cplx", 0.5)) stopping<Z>(); else stopping<double>(); }
SCENARIO("P21", refusals, 1) { if (sim::chance("cplx", 0.5)) refusals<Z>(); else refusals<double>(); }
HARNESS_MAIN
