// P03: Monte-Carlo walkers keep a coherent cache, stay in their sector and sample |psi|^2.
#include "models.h"
#include <map>
using namespace hx;

enum class Sec { Counts, Full, Hubbard };
static std::vector<long> sector(Sec s, const std::vector<size_t> &c, size_t phys) {
  if (s == Sec::Full) return {};
  std::vector<long> n(s == Sec::Hubbard ? 2 : phys, 0);
  for (auto x : c) { if (s == Sec::Counts) ++n[x]; else { n[0] += x == 0 || x == 1; n[1] += x == 0 || x == 2; } }
  return n;
}
template<typename E> SITPS<E> walk_state(size_t Ly, size_t Lx, size_t phys, size_t D, BoundaryCondition bc, int kind) {
  const uint64_t sd = sim::stable_seed("state"); sim::SplitMix g(sim::mix(sd, 5));
  auto s = make_state<E>(Ly, Lx, phys, D, sd, kind == 1 ? -1.0 : 0.3, 1.0, bc);
  if (kind >= 2) for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) for (size_t k = 1; k < phys; ++k) {
    const bool degenerate = kind == 2 || (kind == 3 && g.below(2));         // equal weights up to a phase
    if (degenerate) { s({r, c})[k] = s({r, c})[0]; if constexpr (std::is_same_v<E, double>) s({r, c})[k] *= (g.below(2) ? 1.0 : -1.0); else s({r, c})[k] *= std::polar(1.0, 6.28 * g.uni()); }
    if (kind == 4 && g.below(4) == 0) s({r, c})[k] *= E(0);                     // forbidden local states
  }
  return s;
}
template<typename E, typename Upd, template<typename, typename> class Con = BMPSContractor, typename TP>
void walk(size_t Ly, size_t Lx, size_t phys, size_t D, BoundaryCondition bc, Sec sec, const TP &tp, long budget) {
  swarm(); const int n = int(sim::draw("ranks", 1, 4)), kind = int(sim::draw("state_kind", 0, 4)); const size_t N = Ly * Lx; const auto st = walk_state<E>(Ly, Lx, phys, D, bc, kind);
  // exact distribution of the sector of a random allowed configuration
  std::vector<std::vector<size_t>> all; std::vector<double> w; std::vector<Z> am; double wmax = 0;
  { std::vector<size_t> c(N, 0); while (true) { Z a = amp_any(st, c); all.push_back(c); am.push_back(a); w.push_back(std::norm(a)); wmax = std::max(wmax, w.back()); size_t i = 0; while (i < N && ++c[i] == phys) c[i++] = 0; if (i == N) break; } }
  std::vector<size_t> ok; for (size_t i = 0; i < all.size(); ++i) if (w[i] > 1e-6 * wmax) ok.push_back(i);
  SIM_CHECK(!ok.empty(), "internal: empty state");
  const size_t start = ok[size_t(sim::draw("start", 0, long(ok.size()) - 1))]; const auto sc = sector(sec, all[start], phys);
  std::map<std::vector<size_t>, size_t> id; std::vector<size_t> mem; double tot = 0;
  for (size_t i = 0; i < all.size(); ++i) if (sector(sec, all[i], phys) == sc) { id[all[i]] = i; if (w[i] > 0) { mem.push_back(i); tot += w[i]; } }
  const int mode = int(sim::draw("mode", 0, 1)); const uint64_t pick = sim::stable_seed("pick");   // 0: start from |psi|^2, one sweep; 1: one chain
  const long per = std::max<long>(1, budget / n); std::vector<std::vector<long>> cnt(n, std::vector<long>(all.size(), 0)); std::vector<uint64_t> hist(n, 0);
  const int aps = mode == 0 ? 1 : 0; (void)aps;
  auto out = sim::run_world({.nranks = n, .step_limit = 50000000}, [&](int me) {
    Upd upd; sim::SplitMix g(sim::mix(pick, uint64_t(me)));
    TPSWaveFunctionComponent<E, QNT, NoDress, Con> comp(st, conf(Ly, Lx, all[start]), tp); std::vector<double> acc; size_t cur = start;
    for (long k = 0; k < per; ++k) {
      if (mode == 0) { double u = g.uni() * tot; size_t j = 0; while (j + 1 < mem.size() && (u -= w[mem[j]]) >= 0) ++j; cur = mem[j]; if (w[cur] < 1e-9 * wmax) continue; comp.ReplaceGlobalConfig(st, conf(Ly, Lx, all[cur])); }
      upd(st, comp, acc);
      const auto c = flat(comp.config); auto f = id.find(c);
      SIM_CHECK(f != id.end(), "a sweep left the conserved sector"); const size_t i = f->second;
      SIM_CHECK(w[i] > 1e-13 * wmax, "a sweep moved to a configuration of zero weight (|psi|^2 = %g of at most %g)", w[i], wmax);
      SIM_CHECK(std::abs(Z(comp.amplitude) - am[i]) <= 1e-8 * std::sqrt(wmax), "after a sweep the cached amplitude is %s, the configuration has %s", zs(comp.amplitude).c_str(), zs(am[i]).c_str());
      SIM_CHECK(acc.size() == 1 && acc[0] >= 0 && acc[0] <= 1, "acceptance rate %g", acc.empty() ? -1 : acc[0]);
      SIM_CHECK(!(i != cur && acc[0] == 0), "the configuration changed but no move was accepted");
      if (k % 16 == 0) {                                            // what the component caches describes the configuration it claims
        for (size_t r = 0; r < Ly; ++r) for (size_t cc = 0; cc < Lx; ++cc) { auto d = comp.tn({r, cc}) + (-st({r, cc})[c[r * Lx + cc]]); SIM_CHECK(d.Get2Norm() == 0, "the projected network does not hold the tensor of the configuration at (%zu,%zu)", r, cc); }
        E a = comp.EvaluateAmplitude(); SIM_CHECK(std::abs(Z(a) - am[i]) <= 1e-8 * std::sqrt(wmax), "re-evaluated amplitude %s, the configuration has %s", zs(a).c_str(), zs(am[i]).c_str());
      }
      ++cnt[me][i]; cur = i; hist[me] = sim::mix(hist[me], i); if (k % 32 == 0) sim::yield("walk");
    }
  });
  SIM_CHECK(out.ok(), "walking ended with %s", out.str().c_str());
  const char *kn[] = {"positive", "signed", "degenerate", "partly_degenerate", "forbidden_states"}; sim::tag(kn[kind]); sim::event_hash(hist[0]);
  if (mem.size() > 4 && kind < 2 && mode == 1) for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) SIM_CHECK(hist[a] != hist[b], "ranks %d and %d drew the same sequence of %ld configurations", a, b, per);
  long M = 0; std::vector<long> tc(all.size(), 0); for (auto &v : cnt) for (size_t i = 0; i < v.size(); ++i) tc[i] += v[i], M += v[i];
  if (mode == 1 && kind != 0) return;                  // ergodicity of the chain is only expected for states without nodes
  const double corr = mode == 0 ? 1 : 40;              // allowance for the correlation of successive samples
  auto test = [&](double p, long c, const std::string &what) {
    const double ex = p * double(M), sd = std::sqrt(std::max(1e-12, double(M) * p * (1 - p) * corr));
    if (ex < 20 * corr && mode == 1) return;
    SIM_CHECK(std::abs(double(c) - ex) <= 7.5 * sd + 8, "%s is visited %ld times in %ld sweeps%s, |psi|^2 gives %.1f +- %.1f", what.c_str(), c, M, mode == 0 ? " started from |psi|^2" : "", ex, sd);
  };
  double lump_p = 0; long lump_c = 0;
  for (auto i : mem) { std::string nm; for (auto x : all[i]) nm += char('0' + x); if (w[i] / tot * double(M) < 10) { lump_p += w[i] / tot; lump_c += tc[i]; } else test(w[i] / tot, tc[i], "configuration " + nm); }
  test(lump_p, lump_c, "the set of rare configurations");
  for (size_t s = 0; s < N; ++s) for (size_t v = 0; v < phys; ++v) { double p = 0; long c = 0; for (auto i : mem) if (all[i][s] == v) p += w[i] / tot, c += tc[i]; if (p > 0 && p < 1) test(p, c, "state " + std::to_string(v) + " at site " + std::to_string(s)); }
  sim::tag(mode == 0 ? "stationarity" : "mixing");
}
static BMPSTruncateParams<double> bp() { return bmps_exact(size_t(sim::draw("scheme", 0, 2))); }
template<typename E> void pick_obc() {
  const int k = int(sim::draw("updater", 0, 4)); static const size_t sh[][2] = {{2, 2}, {2, 2}, {2, 3}, {3, 2}}; const auto O = BoundaryCondition::Open;
  auto &q = sh[sim::draw("shape", 0, 3)]; const size_t D = size_t(sim::draw("D", 1, 2)); const long bud = q[0] * q[1] > 4 ? 1500 : 3000;
  if (k == 0) { sim::tag("nn_exchange"); walk<E, MCUpdateSquareNNExchangeOBC>(q[0], q[1], 2, D, O, Sec::Counts, bp(), bud); }
  else if (k == 1) { sim::tag("nn_exchange_spin1"); walk<E, MCUpdateSquareNNExchangeOBC>(2, 2, 3, D, O, Sec::Counts, bp(), bud); }
  else if (k == 2) { sim::tag("nn_full"); walk<E, MCUpdateSquareNNFullSpaceUpdateOBC>(q[0], q[1], 2, D, O, Sec::Full, bp(), bud); }
  else if (k == 3) { sim::tag("hubbard"); walk<E, MCUpdateSquareNNHubbardU1U1OBC>(2, 2, 4, size_t(sim::draw("D4", 1, 2)), O, Sec::Hubbard, bp(), 1500); }
  else { sim::tag("tnn3"); walk<E, MCUpdateSquareTNN3SiteExchange>(3, 3, 2, 1 + (sim::draw("D9", 0, 3) == 0), O, Sec::Counts, bp(), 600); }
}
SCENARIO("P03", open_boundaries, 4) { if (sim::chance("cplx", 0.4)) pick_obc<Z>(); else pick_obc<double>(); }
template<typename E> void pick_pbc() {
  TRGTruncateParams<double> tp(1, 64, 0.0); const size_t L = sim::chance("side3", 0.3) ? 3 : 2; const long bud = L == 3 ? 100 : 400; if (L == 3) sim::tag("torus3");
  if (sim::chance("full", 0.5)) { sim::tag("pbc_full"); walk<E, MCUpdateSquareNNFullSpaceUpdatePBC, TRGContractor>(L, L, 2, size_t(sim::draw("D", 1, 2)), BoundaryCondition::Periodic, Sec::Full, tp, bud); }
  else { sim::tag("pbc_exchange"); walk<E, MCUpdateSquareNNExchangePBC, TRGContractor>(L, L, 2, size_t(sim::draw("D", 1, 2)), BoundaryCondition::Periodic, Sec::Counts, tp, L == 3 ? bud : 600); }
}
SCENARIO("P03", periodic_boundaries, 1) { if (sim::chance("cplx", 0.4)) pick_pbc<Z>(); else pick_pbc<double>(); }

// The local update rule by itself: for any weights, |psi|^2 is stationary under it and states of zero weight are never entered.
SCENARIO("P03", local_rule, 1) {
  const size_t n = size_t(sim::draw("states", 1, 9)); const int kind = int(sim::draw("weights", 0, 5)); sim::SplitMix g(sim::stable_seed("w")); std::vector<double> w(n); const double sc = std::pow(10.0, double(sim::draw("scale", -30, 30)));
  for (size_t i = 0; i < n; ++i) switch (kind) {
    case 0: w[i] = g.uni(); break;
    case 1: w[i] = 1; break;
    case 2: w[i] = double(g.below(4)); break;                             // ties and zeros
    case 3: w[i] = std::exp(-20 * g.uni()); break;
    case 4: w[i] = i % 2 ? 0 : g.uni(); break;
    default: w[i] = g.below(3) ? 0.25 * double(1 + g.below(2)) : g.uni(); }
  w[g.below(n)] += kind == 1 ? 0 : 0.5; double S = 0; for (auto x : w) S += x;
  std::mt19937_64 rng(sim::stable_seed("stream")); const long M = 6000; std::vector<double> flow(n, 0), var(n, 0);
  for (size_t i = 0; i < n; ++i) if (w[i] > 0) {
    auto v = w; const double f = sim::chance("renormalised", 0.5) ? sc / w[i] : sc; for (auto &x : v) x *= f; std::vector<long> c(n, 0);
    for (long k = 0; k < M; ++k) { const size_t j = SuwaTodoStateUpdate(i, v, rng); SIM_CHECK(j < n, "the update of %zu states returned state %zu", n, j); SIM_CHECK(w[j] > 0, "the update moved from state %zu to state %zu of zero weight", i, j); ++c[j]; }
    for (size_t j = 0; j < n; ++j) { const double t = double(c[j]) / double(M), p = w[i] / S; flow[j] += p * t; var[j] += p * p * std::max(t * (1 - t), 1.0 / double(M)) / double(M); }
  }
  for (size_t j = 0; j < n; ++j) SIM_CHECK(std::abs(flow[j] - w[j] / S) <= 7.5 * std::sqrt(var[j]), "one update of %zu states started from the distribution of the weights reaches state %zu with probability %.5f, its weight is %.5f (+- %.5f)", n, j, flow[j], w[j] / S, std::sqrt(var[j]));
  sim::tag("local_rule"); sim::event_hash(rng());
}
HARNESS_MAIN
