// P16: walkers start from valid configurations, are warmed up when they have to be, and share one normalised state.
#include "models.h"
#include <limits>
#include <map>
using namespace hx;

struct CountUpd {                       // counts the sweeps; moves like the exchange updater unless frozen
  long *count = nullptr; bool frozen = true; std::shared_ptr<MCUpdateSquareNNExchangeOBC> in;
  template<typename E, typename Q, template<typename, typename> class C>
  void operator()(const SplitIndexTPS<E, Q> &s, TPSWaveFunctionComponent<E, Q, NoDress, C> &w, std::vector<double> &acc) {
    ++*count; sim::yield("sweep");
    if constexpr (std::is_same_v<C<E, Q>, BMPSContractor<E, Q>>) if (!frozen) { (*in)(s, w, acc); return; }
    acc = {0.0};
  }
};
template<typename E> double ratio_spread(const SITPS<E> &a, const SITPS<E> &b, Z &ratio) {   // a = ratio * b up to the returned error
  auto x = elems(a), y = elems(b); if (x.size() != y.size()) return 1e300; ratio = 0; double big = 0;
  for (size_t i = 0; i < y.size(); ++i) if (std::isfinite(std::abs(y[i])) && std::abs(y[i]) > big) { big = std::abs(y[i]); ratio = Z(x[i]) / Z(y[i]); }
  double d = 0; for (size_t i = 0; i < y.size(); ++i) { if (!std::isfinite(std::abs(y[i]))) { if (std::isfinite(std::abs(x[i]))) return 1e300; continue; } double e = std::abs(Z(x[i]) - ratio * Z(y[i])); if (!(e <= d)) d = e; }
  return big > 0 ? d / (big * std::abs(ratio)) : 0;
}
template<typename E, template<typename, typename> class Con> void startup(size_t Ly, size_t Lx, BoundaryCondition bc, const PEPSParams &pp) {
  swarm(); const size_t N = Ly * Lx, D = size_t(sim::draw("D", 1, 2)); const int n = int(sim::draw("ranks", 1, 6));
  const int kind = int(sim::draw("kind", 0, 4));        // 0 healthy, 1 forbidden local states, 2 NaN/inf entries, 3 thresholds, 4 all dead
  sim::SplitMix g(sim::stable_seed("state"));
  auto st = make_state<E>(Ly, Lx, 2, D, g.next(), 0.3, 1.0, bc);
  const double scales[] = {1, 1e-3, 1e3, 1e-12, 1e12}; const double sc = scales[sim::draw("scale", 0, 4)];
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) for (size_t k = 0; k < 2; ++k) st({r, c})[k] *= E(sc);
  const size_t br = g.below(Ly), bcol = g.below(Lx);
  if (kind == 1 || kind == 4) for (size_t k = 0; k < (kind == 4 ? 2u : 1u); ++k) st({br, bcol})[k] *= E(0);
  if (kind == 2) { auto &t = st({br, bcol})[0]; auto sh = t.GetShape(); for (auto &x : qlten::GenAllCoors(sh)) t.SetElem(x, E(sim::chance("inf", 0.4) ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN())); }
  std::vector<std::vector<size_t>> init; std::vector<Z> amp; std::vector<int> warmed(n);
  for (int r = 0; r < n; ++r) { init.push_back(rand_cfg("init" + std::to_string(r), N, -1)); amp.push_back(amp_any(st, init[r])); warmed[r] = sim::chance("warmed", 0.5); }
  ConfigurationRescueParams rp; if (sim::chance("no_rescue", 0.25)) rp.enabled = false;
  if (kind == 3) {                                     // a limit strictly between two of the amplitudes that occur
    std::vector<double> m; for (auto &a : amp) m.push_back(std::abs(a)); std::sort(m.begin(), m.end());
    const size_t i = size_t(sim::draw("cut", 0, n)); const double lim = i == 0 ? m[0] * 0.5 : i == size_t(n) ? m[n - 1] * 2 : std::sqrt(m[i - 1] * m[i]);
    if (sim::chance("upper", 0.5)) rp.amplitude_max_threshold = lim; else rp.amplitude_min_threshold = lim;
  }
  auto legal = [&](double a) { return std::isfinite(a) && a > rp.amplitude_min_threshold && a < rp.amplitude_max_threshold; };
  bool sharp = true; if (kind == 3) for (auto &a : amp) for (double t : {rp.amplitude_min_threshold, rp.amplitude_max_threshold}) sharp &= std::abs(std::abs(a) - t) > 1e-9 * t;
  if (!sharp) return;
  int src = -1, bad = 0; for (int r = 0; r < n; ++r) { if (legal(std::abs(amp[r]))) { if (src < 0) src = r; } else ++bad; }
  const bool must_abort = bad && (!rp.enabled || src < 0);
  const size_t total = size_t(sim::draw("samples", 1, 20)), warm = size_t(sim::draw("warmup", 0, 3));
  const bool frozen = kind == 2 || kind == 3 || sim::chance("frozen", 0.3), twice = sim::chance("twice", 0.3), assign = sim::chance("assign", 0.4);
  std::vector<long> cnt(n, 0), cnt2(n, -1); std::vector<uint64_t> h(n); std::vector<Z> a1(n), a2(n); bool built = false;
  auto st2 = make_state<E>(Ly, Lx, 2, D, g.next(), 0.3, 1.0, bc);
  // the amplitude limits apply again after warm-up, to the normalised amplitudes
  double mx = 0; for (int r = 0; r < n; ++r) { double a = std::abs(amp[legal(std::abs(amp[r])) ? r : std::max(src, 0)]); mx = std::max(mx, a); }
  bool warm_illegal = false; if (kind == 3 && !must_abort) for (int r = 0; r < n; ++r) { double a = std::abs(amp[legal(std::abs(amp[r])) ? r : src]) / mx; warm_illegal |= !legal(a); for (double t : {rp.amplitude_min_threshold, rp.amplitude_max_threshold}) if (std::abs(a - t) < 1e-9 * t) return; }
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    MPI_Comm comm = MPI_COMM_WORLD; CountUpd u; u.count = &cnt[me]; u.frozen = frozen; u.in = std::make_shared<MCUpdateSquareNNExchangeOBC>();
    MonteCarloParams mc(total, warm, 1, conf(Ly, Lx, init[me]), warmed[me]);
    MonteCarloEngine<E, QNT, CountUpd, Con> en(st, mc, pp, comm, u, rp);
    built = true; SIM_CHECK(!must_abort, "a job with %d invalid start configurations of %d (rescue %s) goes on", bad, n, rp.enabled ? "enabled" : "disabled");
    SIM_CHECK(cnt[me] == 0, "sweeps before warm-up");
    SIM_CHECK(en.SamplesPerRank() == (total + n - 1) / n, "%zu samples per rank for %zu samples on %d ranks", en.SamplesPerRank(), total, n);
    const bool resc = !legal(std::abs(amp[me])); const auto &want = init[resc ? src : me];
    SIM_CHECK(flat(en.WavefuncComp().config) == want, "rank %d does not start from %s configuration", me, resc ? "the first valid rank's" : "its own");
    auto coherent = [&](const char *when, const SITPS<E> &base, bool prop) {
      Z rat; double d = ratio_spread(en.State(), base, rat); SIM_CHECK(!prop || (d < 1e-9 && rat.real() > 0 && std::abs(rat.imag()) <= 1e-9 * rat.real()), "rank %d: the state %s is not a positive multiple of the given one (%g)", me, when, d);
      Z a = amp_any(en.State(), flat(en.WavefuncComp().config)); SIM_CHECK(std::abs(Z(en.WavefuncComp().amplitude) - a) <= 1e-8 * std::abs(a), "rank %d: cached amplitude %s %s, the configuration has %s", me, zs(en.WavefuncComp().amplitude).c_str(), when, zs(a).c_str());
      h[me] = hash_state(en.State()); a1[me] = en.WavefuncComp().amplitude; MPI_Barrier(comm);
      double m = 0; for (int r = 0; r < n; ++r) { m = std::max(m, std::abs(a1[r])); SIM_CHECK(kind == 2 || h[r] == h[0], "the state %s differs between rank %d and the master", when, r); }
      SIM_CHECK(std::abs(m - 1) < 1e-6, "%s the largest amplitude over the ranks is %.9g instead of 1", when, m);
      MPI_Barrier(comm);
    };
    coherent("after start-up", st, true);
    int rc = en.WarmUp(); SIM_CHECK(rc == 0, "warm-up returns %d", rc);
    SIM_CHECK(!warm_illegal, "amplitudes outside the configured limits after warm-up are accepted");
    const long ws = (resc || !warmed[me]) ? long(warm) : 0;
    SIM_CHECK(cnt[me] == ws, "rank %d did %ld warm-up sweeps, expected %ld (%s, %s)", me, cnt[me], ws, warmed[me] ? "marked warmed" : "not warmed", resc ? "rescued" : "own configuration");
    coherent("after warm-up", st, true);
    if (twice) { en.WarmUp(); SIM_CHECK(cnt[me] == ws, "rank %d is warmed up twice", me); coherent("after a second warm-up", st, true); }
    if (assign) {                                        // the walker keeps its configuration when the state changes
      auto before = flat(en.WavefuncComp().config); en.AssignState(st2); en.RefreshWavefunctionComponent();
      SIM_CHECK(same_state(en.State(), st2) && flat(en.WavefuncComp().config) == before, "assigning a state altered it or moved the walker");
      Z a = amp_any(st2, before); SIM_CHECK(std::abs(Z(en.WavefuncComp().amplitude) - a) <= 1e-8 * std::abs(a), "after assigning a state the cached amplitude is %s, the configuration has %s", zs(en.WavefuncComp().amplitude).c_str(), zs(a).c_str());
      MPI_Barrier(comm); en.NormalizeStateOrder1(); coherent("after renormalisation", st2, true);
    }
    auto f = flat(en.WavefuncComp().config); sim::event_hash(sim::hash_bytes(f.data(), f.size() * sizeof(size_t)));
  });
  if (must_abort) { SIM_CHECK(out.kind == sim::ABORTED, "%d of %d start configurations are invalid (rescue %s), the job ends with %s", bad, n, rp.enabled ? "enabled" : "disabled", out.str().c_str()); sim::tag(rp.enabled ? "all_invalid" : "rescue_disabled"); }
  else if (warm_illegal) { SIM_CHECK(out.kind == sim::ABORTED, "amplitudes are outside the configured limits after warm-up, the job ends with %s", out.str().c_str()); sim::tag("warmup_illegal"); }
  else { SIM_CHECK(out.ok(), "starting ended with %s", out.str().c_str()); sim::tag(bad ? "rescued" : "all_valid"); }
  const char *kn[] = {"healthy", "forbidden", "nonfinite", "limits", "dead"}; sim::tag(kn[kind]); (void) built; (void) a2; (void) cnt2;
}
template<typename E> void pick() {
  if (sim::chance("pbc", 0.2)) startup<E, TRGContractor>(2, 2, BoundaryCondition::Periodic, PEPSParams(TRGTruncateParams<double>(1, 64, 0.0)));
  else startup<E, BMPSContractor>(size_t(sim::draw("Ly", 2, 3)), size_t(sim::draw("Lx", 2, 3)), BoundaryCondition::Open, PEPSParams(bmps_exact(size_t(sim::draw("scheme", 0, 1)))));
}
SCENARIO("P16", start_up, 4) { if (sim::chance("cplx", 0.5)) pick<Z>(); else pick<double>(); }

// Boundary condition, contractor and truncation parameters that do not fit together are refused on every rank.
template<template<typename, typename> class Con> void refuse() {
  swarm(); const int n = int(sim::draw("ranks", 1, 4)); const bool trg = std::is_same_v<Con<double, QNT>, TRGContractor<double, QNT>>, pbc = sim::chance("pbc", 0.7) == trg, trgp = sim::chance("trgp", 0.7) == trg;
  const size_t Ly = size_t(sim::draw("Ly", 2, 3)), Lx = size_t(sim::draw("Lx", 2, 3)); const bool ok = pbc == trg && trgp == trg && (!trg || Ly == Lx);
  if (ok && trg && Ly == 3) return;                       // expensive, covered by 2x2
  auto st = make_state<double>(Ly, Lx, 2, 1, sim::stable_seed("s"), 0.3, 1, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  PEPSParams pp = trgp ? PEPSParams(TRGTruncateParams<double>(1, 16, 0.0)) : PEPSParams(bmps_exact(0)); std::vector<int> got(n, 0);
  auto out = sim::run_world({.nranks = n}, [&](int me) { long c = 0; CountUpd u; u.count = &c; MPI_Comm comm = MPI_COMM_WORLD; MonteCarloParams mc(4, 0, 1, conf(Ly, Lx, std::vector<size_t>(Ly * Lx, 1)), true);
    try { MonteCarloEngine<double, QNT, CountUpd, Con> en(st, mc, pp, comm, u); got[me] = 1; } catch (const std::invalid_argument &) { got[me] = 2; } });
  SIM_CHECK(out.ok(), "starting with %s state, %s contractor and %s parameters ended with %s", pbc ? "periodic" : "open", trg ? "TRG" : "BMPS", trgp ? "TRG" : "BMPS", out.str().c_str());
  for (int r = 0; r < n; ++r) SIM_CHECK(got[r] == (ok ? 1 : 2), "rank %d %s a %zux%zu %s state with the %s contractor and %s parameters", r, got[r] == 1 ? "accepts" : "refuses", Ly, Lx, pbc ? "periodic" : "open", trg ? "TRG" : "BMPS", trgp ? "TRG" : "BMPS");
  sim::tag(ok ? "fits" : "misfit"); sim::event_hash(uint64_t(ok));
}
SCENARIO("P16", misfit, 1) { if (sim::chance("trg", 0.5)) refuse<TRGContractor>(); else refuse<BMPSContractor>(); }

// Random start configurations: exactly the requested occupation, drawn anew on every rank; impossible requests are refused.
SCENARIO("P16", random_starts, 2) {
  swarm(); const int n = int(sim::draw("ranks", 1, 5)), how = int(sim::draw("how", 0, 2)); const size_t Ly = size_t(sim::draw("Ly", 1, 4)), Lx = size_t(sim::draw("Lx", 1, 4)), N = Ly * Lx, dim = size_t(sim::draw("dim", 1, 5)); sim::SplitMix g(sim::stable_seed("occ"));
  std::vector<size_t> occ(dim, 0); for (size_t i = 0; i < N; ++i) ++occ[g.below(dim)]; const bool wrong = how && sim::chance("wrong", 0.2); if (wrong) { if (g.below(2) || occ[0] == 0) occ[g.below(dim)] += 1 + g.below(3); else --occ[0]; }
  const int reps = 120; std::vector<std::vector<std::vector<size_t>>> got(n); std::vector<int> threw(n, 0); const size_t off = size_t(sim::draw("gap", 0, 3)); const bool ctor = sim::chance("ctor", 0.5);
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    std::map<size_t, size_t> m; for (size_t k = 0; k < dim; ++k) if (occ[k] || k % 2) m[k + off * k] = occ[k];
    for (int i = 0; i < reps; ++i) {
      try {
        if (ctor) { auto c = how == 0 ? Configuration(Ly, Lx, dim) : how == 1 ? Configuration(Ly, Lx, OccupancyNum(occ)) : Configuration(Ly, Lx, m); got[me].push_back(flat(c)); SIM_CHECK(c.IsValid(), "a random configuration has empty sites"); }
        else { Configuration c(Ly, Lx); for (size_t r = 0; r < Ly; ++r) for (size_t q = 0; q < Lx; ++q) c({r, q}) = 77; if (how == 0) c.Random(dim); else if (how == 1) c.Random(OccupancyNum(occ)); else c.Random(m); got[me].push_back(flat(c)); size_t t = 0; for (auto x : flat(c)) t += x; SIM_CHECK(c.Sum() == t, "Sum is %zu, the sites add up to %zu", c.Sum(), t);
               auto co = c.CountOccupancy(); std::vector<size_t> w; for (auto x : flat(c)) { if (x >= w.size()) w.resize(x + 1, 0); ++w[x]; } SIM_CHECK(co == w, "CountOccupancy is not the number of sites in every state"); }
      } catch (const std::invalid_argument &) { ++threw[me]; }
      if (i % 16 == 0) sim::yield("random");
    }
  });
  SIM_CHECK(out.ok(), "random start configurations ended with %s", out.str().c_str());
  for (int r = 0; r < n; ++r) SIM_CHECK(threw[r] == (wrong ? reps : 0), "rank %d: an occupation %s the number of sites was %s", r, wrong ? "different from" : "equal to", wrong ? "accepted" : "refused");
  if (wrong) { sim::tag("refused"); return; }
  std::vector<std::vector<long>> cnt(N, std::vector<long>(dim, 0));
  for (int r = 0; r < n; ++r) for (auto &c : got[r]) {
    std::vector<size_t> w(dim, 0); for (size_t i = 0; i < N; ++i) { const size_t k = how == 2 ? c[i] / (1 + off) : c[i]; SIM_CHECK(k < dim && (how != 2 || c[i] % (1 + off) == 0), "a random configuration has the state %zu", c[i]); ++w[k]; ++cnt[i][k]; }
    if (how) SIM_CHECK(w == occ, "a random configuration does not have the requested occupation");
  }
  const double M = double(n) * reps; double bits = 0; for (size_t k = 0; k < dim; ++k) { const double p = how ? double(occ[k]) / double(N) : 1.0 / double(dim); if (p > 0) bits -= double(N) * p * std::log2(p); for (size_t i = 0; i < N; ++i) SIM_CHECK(std::abs(double(cnt[i][k]) - p * M) <= 7 * std::sqrt(M * p * (1 - p)) + 1e-9, "state %zu is drawn %ld times at site %zu in %g configurations, expected %g", k, cnt[i][k], i, M, p * M); }
  if (bits > 3) for (int a = 0; a < n; ++a) for (int b = 0; b < a; ++b) SIM_CHECK(got[a] != got[b], "ranks %d and %d draw the same %d configurations", a, b, reps);
  sim::tag("random_start");
}
HARNESS_MAIN
