// P18: the amplitude-consistency diagnostics of every sample are the documented ones, and the warnings stay within their budget.
#include "meas.h"
using namespace hx;
template<typename E> E hx_cj(E x) { if constexpr (std::is_same_v<E, double>) return x; else return std::conj(x); }

// The list of amplitudes that a solver reports for one sample: one value up to noise, signs, phases, zeros.
template<typename E> std::vector<E> psi_list(uint64_t seed, uint64_t rank, uint64_t sample) {
  sim::SplitMix g(sim::mix(sim::mix(seed, rank + 1), sample + 1)); std::vector<E> v; const size_t n = g.uni() < 0.08 ? 0 : 1 + g.below(7);
  const double noise[] = {0, 1e-9, 1e-4, 3e-3, 0.2, 0.9}; const double q = noise[g.below(6)]; E a = rnd<E>(g, 0.2, 1) * E(g.uni() < 0.25 ? std::pow(10.0, double(g.below(19)) - 10) : std::pow(10.0, double(g.below(5)) - 3));
  if (g.uni() < 0.5) a = -a;
  for (size_t i = 0; i < n; ++i) { E x = a * (E(1) + E(q) * rnd<E>(g, -1, 1)); if (g.uni() < 0.25) x = -x; if (g.uni() < 0.03) x = E(0); v.push_back(x); }
  return v;
}
// From the documentation: the largest value is the reference, values with negative overlap are flipped, mean and largest relative deviation.
template<typename E> struct Sum { E mean = E(0); double rel = 0; bool sign_open = false, unsure = false; };
template<typename E> Sum<E> summary(const std::vector<E> &v) {
  Sum<E> s; if (v.empty()) return s;
  size_t r = 0; for (size_t i = 0; i < v.size(); ++i) if (std::abs(v[i]) > std::abs(v[r])) r = i;
  for (size_t i = 0; i < v.size(); ++i) if (i != r && std::abs(v[i]) > std::abs(v[r]) * (1 - 1e-12)) s.sign_open = true;
  std::vector<E> w; for (auto x : v) { double o = std::real(x * hx_cj(v[r])); if (x != E(0) && std::abs(o) < 1e-9 * std::abs(x) * std::abs(v[r])) s.unsure = true; w.push_back(o < 0 ? -x : x); }
  for (auto x : w) s.mean += x / double(w.size());
  double m = 0; for (auto x : w) m = std::max(m, std::abs(x - s.mean));
  if (m == 0) s.rel = 0; else if (std::abs(s.mean) < 1e-9 * std::abs(v[r])) s.unsure = true; else s.rel = m / std::abs(s.mean);
  return s;
}
struct Warn { double rel; std::vector<double> list; bool has_list = false; bool operator<(const Warn &o) const { return rel < o.rel; } };
static std::vector<Warn> warnings(const std::string &out, size_t &notices) {
  std::vector<Warn> w; notices = 0; const std::string k = "[psi_consistency] rel_err=", q = "[psi_consistency] reached max warnings";
  for (size_t p = out.find(k); p != std::string::npos; p = out.find(k, p + 1)) {
    Warn x{strtod(out.c_str() + p + k.size(), nullptr), {}, false}; std::string l = out.substr(p, out.find('\n', p) - p); size_t b = l.find("psi_list=");
    if (b != std::string::npos) { x.has_list = true; l = l.substr(b + 9); if (l.find("...") != std::string::npos) l.resize(l.find("...")); for (auto &c : l) if (strchr("[](),", c)) c = ' '; std::istringstream is(l); for (double v; is >> v;) x.list.push_back(v); }
    w.push_back(x);
  }
  for (size_t p = out.find(q); p != std::string::npos; p = out.find(q, p + 1)) ++notices;
  std::sort(w.begin(), w.end()); return w;
}
// Expected warnings of one executor instance: per permitted rank the first max_warnings inconsistent samples.
template<typename E> bool expect(const PsiConsistencyWarningParams &p, uint64_t seed, int n, const std::vector<std::vector<uint64_t>> &ids, std::vector<Warn> &w, size_t &notices) {
  for (int r = 0; r < n; ++r) {
    size_t c = 0; if (!p.enabled || (p.master_only && r)) continue;
    for (auto id : ids[r]) { auto s = summary(psi_list<E>(seed, r, id)); if (s.unsure || std::abs(s.rel - p.threshold) < 1e-6 * p.threshold) return false; if (p.threshold == 0 && s.rel < 1e-11 && psi_list<E>(seed, r, id).size() > 2) return false; if (s.rel > p.threshold && c < p.max_warnings) { Warn x{s.rel, {}, true}; auto l = psi_list<E>(seed, r, id); for (size_t i = 0; i < l.size() && i < p.max_print_elems; ++i) { x.list.push_back(std::real(l[i])); if (!std::is_same_v<E, double>) x.list.push_back(std::imag(l[i])); } w.push_back(x); if (++c == p.max_warnings) ++notices; } }
  }
  return true;
}
static void check_output(const std::string &out, std::vector<Warn> want, size_t wn, const char *what) {
  size_t notices; auto got = warnings(out, notices); std::sort(want.begin(), want.end());
  SIM_CHECK(got.size() == want.size(), "%s printed %zu amplitude warnings, the policy gives %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    SIM_CHECK(std::abs(got[i].rel - want[i].rel) <= 2e-3 * want[i].rel, "%s warns about a relative error of %.6g, the samples have %.6g", what, got[i].rel, want[i].rel);
    bool tie = false; for (size_t j = 0; j < want.size(); ++j) tie |= j != i && std::abs(want[j].rel - want[i].rel) <= 1e-5 * want[i].rel;
    if (!got[i].has_list || tie) continue;
    SIM_CHECK(got[i].list.size() == want[i].list.size(), "%s prints %zu numbers of the amplitude list, asked for are %zu", what, got[i].list.size(), want[i].list.size());
    for (size_t k = 0; k < want[i].list.size(); ++k) SIM_CHECK(std::abs(got[i].list[k] - want[i].list[k]) <= 2e-5 * std::abs(want[i].list[k]), "%s prints the amplitude %.9g where the solver reported %.9g", what, got[i].list[k], want[i].list[k]);
    sim::tag("list_printed");
  }
  SIM_CHECK(notices == wn, "%s announces the end of the warnings %zu times, expected %zu", what, notices, wn);
  sim::event_hash(got.size()); if (!want.empty()) sim::tag("warned"); if (wn) sim::tag("budget_used_up");
}
static PsiConsistencyWarningParams draw_par() {
  PsiConsistencyWarningParams p; SIM_CHECK(p.enabled && !p.master_only && p.threshold == 1e-3 && p.max_warnings == 50 && p.max_print_elems == 8, "the documented defaults of the amplitude warnings changed"); if (sim::chance("defaults", 0.15)) return p; p.enabled = sim::chance("enabled", 0.85); p.master_only = sim::chance("master_only", 0.4); const double th[] = {1e-12, 1e-6, 1e-3, 1e-2, 0.5, 0}; p.threshold = th[sim::draw("thr", 0, 5)];
  p.max_warnings = size_t(sim::draw("max_warn", 0, 6)); if (sim::chance("many", 0.3)) p.max_warnings = 50; p.max_print_elems = size_t(sim::draw("elems", 0, 8)); return p;
}
template<typename E> struct FakeMeas : ModelMeasurementSolver<FakeMeas<E>> {
  uint64_t seed = 0; int rank = 0; int mode = 0; size_t *count = nullptr;          // mode: 0 cached summary, 1 list on demand, 2 mixed
  template<typename T, typename Q, typename W> ObservableMap<T> EvaluateObservables(const SplitIndexTPS<T, Q> *, W *) {
    const size_t i = (*count)++; ObservableMap<T> o; o["energy"] = {T(double(i))};
    if (mode == 0 || (mode == 2 && i % 2)) { auto s = this->template ComputePsiSummary<T>(psi_list<T>(seed, rank, i)); this->template SetLastPsiSummary<T>(s.psi_mean, s.psi_rel_err); }
    return o;
  }
  template<typename T, typename Q, typename W> std::vector<T> BuildPsiList(const SplitIndexTPS<T, Q> *, W *) const { return psi_list<T>(seed, rank, *count - 1); }
  std::vector<ObservableMeta> DescribeObservables(size_t, size_t) const { return {{"energy", "x", {}, {}, nullptr}}; }
};
template<typename E> void measurement() {
  swarm(); const int n = int(sim::draw("ranks", 1, 4)), jobs = int(sim::draw("jobs", 1, 3)); const size_t total = size_t(sim::draw("samples", 1, 40)), per = (total + n - 1) / n;
  auto p = draw_par(); const uint64_t seed = sim::stable_seed("psi"); const int mode = int(sim::draw("mode", 0, 2)); auto st = make_state<E>(2, 2, 2, 1, sim::stable_seed("state"), 0.25, 1.0);
  std::vector<std::vector<std::vector<Z>>> rows; std::vector<Warn> want; size_t wn = 0; bool sure = true;
  sim::clear_captured();
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    for (int j = 0; j < jobs; ++j) {                           // several jobs in one process: each has its own budget
      size_t count = 0; MonteCarloParams mc(total, 0, 1, conf(2, 2, {0, 1, 0, 1}), true, ""); MCMeasurementParams mp(mc, PEPSParams(bmps_exact(0)), "o" + std::to_string(j)); mp.runtime_params.psi_consistency = p;
      FakeMeas<E> s; s.seed = seed + uint64_t(j); s.rank = me; s.mode = mode; s.count = &count;
      MCPEPSMeasurer<E, QNT, MCUpdateSquareNNExchangeOBC, FakeMeas<E>, BMPSContractor> m(st, mp, MPI_COMM_WORLD, s); m.Execute();
    }
  });
  SIM_CHECK(out.ok(), "the measurement ended with %s", out.str().c_str());
  for (int j = 0; j < jobs; ++j) {
    std::vector<std::vector<uint64_t>> ids(n); for (auto &v : ids) for (size_t i = 0; i < per; ++i) v.push_back(i);
    sure &= expect<E>(p, seed + uint64_t(j), n, ids, want, wn);
    bool ok; auto f = csv("o" + std::to_string(j) + "/samples/psi.csv", true, ok); SIM_CHECK(ok && f.size() == per, "psi.csv is missing, malformed or has %zu rows for %zu samples", f.size(), per);
    for (size_t i = 0; i < per; ++i) {
      auto s = summary(psi_list<E>(seed + uint64_t(j), 0, i)); if (s.unsure) continue; Z g(f[i][1].real(), f[i][2].real()); const double d = std::min(std::abs(g - Z(s.mean)), s.sign_open ? std::abs(g + Z(s.mean)) : 1e300);
      SIM_CHECK(d <= 2e-5 * std::abs(s.mean) && std::abs(f[i][3].real() - s.rel) <= 2e-5 * s.rel + 1e-13, "psi.csv row %zu is %s with relative error %.6g, the amplitudes of the sample give %s and %.6g", i, zs(g).c_str(), f[i][3].real(), zs(Z(s.mean)).c_str(), s.rel);
    }
  }
  if (sure) check_output(sim::captured(), want, wn, "the measurement"); else sim::tag("near_tie");
}
SCENARIO("P18", measurement, 1) { if (sim::chance("cplx", 0.5)) measurement<Z>(); else measurement<double>(); }

template<typename E> struct FakeEnergy : ModelEnergySolver<FakeEnergy<E>> {
  uint64_t seed = 0; int rank = 0; size_t count = 0;
  template<typename T, typename Q, bool holes, typename W> T CalEnergyAndHolesImpl(const SplitIndexTPS<T, Q> *s, W *w, TensorNetwork2D<T, Q> &h, std::vector<T> &list) {
    list = psi_list<T>(seed, uint64_t(rank), count++);
    if constexpr (holes) for (size_t r = 0; r < 2; ++r) for (size_t c = 0; c < 2; ++c) h({r, c}) = (*s)({r, c})[w->config({r, c})];
    return T(1);
  }
};
template<typename E> void evaluation() {
  swarm(); const int n = int(sim::draw("ranks", 1, 4)), evs = int(sim::draw("evaluators", 1, 2)), rounds = int(sim::draw("rounds", 1, 3)); const size_t total = size_t(sim::draw("samples", 1, 30)), per = (total + n - 1) / n;
  auto p = draw_par(); const uint64_t seed = sim::stable_seed("psi"); auto st = make_state<E>(2, 2, 2, 1, sim::stable_seed("state"), 0.25, 1.0); std::vector<int> only(rounds); for (auto &x : only) x = sim::chance("energy_only", 0.3);
  std::vector<Warn> want; size_t wn = 0; bool sure = true; std::vector<std::string> bad(n);
  sim::clear_captured();
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    MonteCarloParams mc(total, 0, 1, conf(2, 2, {0, 1, 0, 1}), true); MonteCarloEngine<E, QNT, MCUpdateSquareNNExchangeOBC, BMPSContractor> eng(st, mc, PEPSParams(bmps_exact(0)), MPI_COMM_WORLD); eng.WarmUp();
    for (int j = 0; j < evs; ++j) {
      FakeEnergy<E> s; s.seed = seed + uint64_t(j); s.rank = me; s.SetPsiConsistencyWarningParams(p);
      MCEnergyGradEvaluator<E, QNT, MCUpdateSquareNNExchangeOBC, FakeEnergy<E>, BMPSContractor> ev(eng, s, MPI_COMM_WORLD, false, p);
      for (int k = 0; k < rounds; ++k) {
        if (only[k]) ev.EvaluateEnergyOnly(st); else ev.Evaluate(st);
        auto l = psi_list<E>(seed + uint64_t(j), uint64_t(me), s.count - 1); auto w = summary(l); auto g = s.template GetLastPsiConsistencySummary<E>(); if (w.unsure) continue;
        const double d = std::min(std::abs(g.psi_mean - w.mean), w.sign_open ? std::abs(g.psi_mean + w.mean) : 1e300); if (!(d <= 1e-12 * std::abs(w.mean) && std::abs(g.psi_rel_err - w.rel) <= 1e-9 * w.rel + 1e-13)) bad[me] = sim::fmt("the summary of the last sample is %s with relative error %.9g, its amplitudes give %s and %.9g", zs(Z(g.psi_mean)).c_str(), g.psi_rel_err, zs(Z(w.mean)).c_str(), w.rel);
      }
    }
  });
  SIM_CHECK(out.ok(), "the evaluation ended with %s", out.str().c_str());
  for (int r = 0; r < n; ++r) SIM_CHECK(bad[r].empty(), "rank %d: %s", r, bad[r].c_str());
  for (int j = 0; j < evs; ++j) { std::vector<std::vector<uint64_t>> ids(n); for (auto &v : ids) for (int k = 0; k < rounds; ++k) if (!only[k]) for (size_t i = 0; i < per; ++i) v.push_back(size_t(k) * per + i); sure &= expect<E>(p, seed + uint64_t(j), n, ids, want, wn); }
  if (sure) check_output(sim::captured(), want, wn, "the evaluation"); else sim::tag("near_tie");
}
SCENARIO("P18", evaluation, 1) { if (sim::chance("cplx", 0.5)) evaluation<Z>(); else evaluation<double>(); }
HARNESS_MAIN
