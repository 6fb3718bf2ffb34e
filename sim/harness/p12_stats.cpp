// P12: statistics gathered over ranks equal the sequential statistics of the same data.
#include "models.h"
using namespace hx;

template<typename T> T val(sim::SplitMix &g, double c, double w);
template<> double val<double>(sim::SplitMix &g, double c, double w) { return c + w * g.sym(); }
template<> Z val<Z>(sim::SplitMix &g, double c, double w) { return Z(c + w * g.sym(), -0.7 * c + w * g.sym()); }

using LZ = std::complex<long double>;
static void ref_stat(const std::vector<Z> &d, Z &mean, double &err) {
  LZ m(0); for (auto &x : d) m += LZ(x); m /= (long double) d.size();
  long double v = 0; for (auto &x : d) v += std::norm(LZ(x) - m);
  mean = Z(m); err = d.size() > 1 ? double(std::sqrt(v / d.size() / (d.size() - 1))) : INFINITY;
}
static double scale(const std::vector<Z> &d) { double s = 0; for (auto &x : d) s = std::max(s, std::abs(x)); return s; }
static void cmp(const char *what, Z m, double e, const std::vector<Z> &d, bool one_inf) {
  Z rm; double re; ref_stat(d, rm, re); const double s = 1e-300 + scale(d);
  SIM_CHECK(std::abs(m - rm) <= 1e-11 * s, "%s: mean %s of %zu values, sequential %s", what, zs(m).c_str(), d.size(), zs(rm).c_str());
  if (d.size() == 1) { if (one_inf) SIM_CHECK(std::isinf(e), "%s: the error of one value is %g", what, e); return; }
  SIM_CHECK(e >= 0 && std::abs(e - re) <= 1e-8 * re + 2e-13 * s, "%s: error %.12g of %zu values, sequential %.12g", what, e, d.size(), re);
}
struct Data { double c, w; };
static Data spread() {   // values may agree exactly, almost, or not at all
  const double cs[] = {0, 1, -37.25, 1e-3, 12345.678}; const double ws[] = {0, 1e-12, 1e-6, 0.3, 10};
  return {cs[sim::draw("centre", 0, 4)], ws[sim::draw("width", 0, 4)]};
}
template<typename T> void gather_one() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 8)); const Data sp = spread(); sim::SplitMix g(sim::stable_seed("v"));
  std::vector<Z> d; std::vector<T> raw; for (int i = 0; i < n; ++i) { raw.push_back(val<T>(g, sp.c, sp.w)); d.push_back(raw.back()); }
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    auto [m, e] = GatherStatisticSingleData(raw[me], MPI_COMM_WORLD);
    if (me == 0) cmp("one value per rank", Z(m), double(e), d, true);
  });
  SIM_CHECK(out.ok(), "gathering ended with %s", out.str().c_str()); sim::tag(sp.w == 0 ? "identical" : "spread");
}
SCENARIO("P12", one_value_per_rank, 1) { if (sim::chance("cplx", 0.5)) gather_one<Z>(); else gather_one<double>(); }

template<typename T> void gather_list() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 7)), len = int(sim::draw("len", 0, 9)), rounds = int(sim::draw("rounds", 1, 3)); const Data sp = spread(); sim::SplitMix g(sim::stable_seed("v"));
  std::vector<std::vector<std::vector<T>>> raw(rounds, std::vector<std::vector<T>>(n));
  for (auto &r : raw) for (auto &v : r) for (int i = 0; i < len; ++i) v.push_back(val<T>(g, sp.c + i, sp.w));
  const bool sub = n > 1 && sim::chance("sub", 0.3);
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    MPI_Comm c = MPI_COMM_WORLD; if (sub) MPI_Comm_split(MPI_COMM_WORLD, me % 2, -me, &c);
    int lr, ln; MPI_Comm_rank(c, &lr); MPI_Comm_size(c, &ln);
    for (int k = 0; k < rounds; ++k) {
      std::vector<T> a(3, T(5)); std::vector<double> e(2, 7.0);
      GatherStatisticListOfData(raw[k][me], c, a, e);
      if (lr != 0) continue;
      SIM_CHECK(int(a.size()) == len, "%zu averages of %d quantities", a.size(), len);
      for (int i = 0; i < len; ++i) {
        std::vector<Z> d; for (int r = 0; r < n; ++r) if (!sub || r % 2 == me % 2) d.push_back(raw[k][r][i]);
        SIM_CHECK(d.size() == 1 || int(e.size()) == len, "%zu errors of %d quantities", e.size(), len);
        cmp("list of quantities", Z(a[i]), d.size() == 1 ? 0 : e[i], d, false);
      }
    }
    if (sub) MPI_Comm_free(&c);
  });
  SIM_CHECK(out.ok(), "gathering ended with %s", out.str().c_str());
}
SCENARIO("P12", list_of_quantities, 2) { if (sim::chance("cplx", 0.5)) gather_list<Z>(); else gather_list<double>(); }

template<typename T> void binned() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 7)), rounds = int(sim::draw("rounds", 1, 2)); const Data sp = spread();
  std::vector<std::vector<std::vector<T>>> raw(rounds, std::vector<std::vector<T>>(n)); sim::SplitMix g(sim::stable_seed("v"));
  const bool uneven = sim::chance("uneven", 0.6); const int cap = int(sim::draw("cap", 1, 60));
  for (auto &r : raw) { int c = int(g.below(cap + 1)); for (auto &v : r) { if (uneven) c = int(g.below(cap + 1)); for (int i = 0; i < c; ++i) v.push_back(val<T>(g, sp.c, sp.w)); } }
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    for (int k = 0; k < rounds; ++k) {
      auto [m, e] = MeanAndBinnedErrorSqrtNUniformBin(raw[k][me], MPI_COMM_WORLD);
      if (me) continue;
      std::vector<Z> b;
      for (auto &s : raw[k]) { if (s.empty()) continue; size_t w = std::max<size_t>(1, size_t(std::sqrt(double(s.size())))); for (size_t i = 0; i + w <= s.size(); i += w) { LZ x(0); for (size_t j = 0; j < w; ++j) x += LZ(Z(s[i + j])); b.push_back(Z(x / (long double) w)); } }
      if (b.empty()) { SIM_CHECK(Z(m) == Z(0) && e == 0, "statistics of no data: %s", zs(m).c_str()); sim::tag("no_data"); continue; }
      cmp("binned samples", Z(m), double(e), b, true);
    }
  });
  SIM_CHECK(out.ok(), "gathering ended with %s", out.str().c_str()); if (uneven) sim::tag("uneven_ranks");
}
SCENARIO("P12", binned_samples, 2) { if (sim::chance("cplx", 0.5)) binned<Z>(); else binned<double>(); }

template<typename T> void tensors() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 6)), rounds = int(sim::draw("rounds", 1, 3));
  std::vector<std::vector<Ten<T>>> ts(rounds); sim::SplitMix g(sim::stable_seed("v"));
  for (auto &r : ts) { size_t a = 1 + g.below(3), b = 1 + g.below(3); for (int i = 0; i < n; ++i) { Ten<T> t({leg(a, qlten::IN), leg(b, qlten::OUT)}); t.Fill(QNT(), T(0)); for (size_t x = 0; x < a; ++x) for (size_t y = 0; y < b; ++y) t.SetElem({x, y}, val<T>(g, 0, 1)); r.push_back(t); } }
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    for (int k = 0; k < rounds; ++k) {
      auto m = MPIMeanTensor(ts[k][me], MPI_COMM_WORLD);
      if (me) continue;
      SIM_CHECK(m.GetShape() == ts[k][0].GetShape(), "the mean tensor has another shape");
      for (auto &x : qlten::GenAllCoors(m.GetShape())) { Z s(0); for (auto &t : ts[k]) s += Z(t.GetElem(x)); s /= double(n); SIM_CHECK(near(Z(m.GetElem(x)), s, 1e-12), "mean tensor element %s, expected %s", zs(m.GetElem(x)).c_str(), zs(s).c_str()); }
    }
  });
  SIM_CHECK(out.ok(), "averaging tensors ended with %s", out.str().c_str());
}
SCENARIO("P12", mean_of_tensors, 1) { if (sim::chance("cplx", 0.5)) tensors<Z>(); else tensors<double>(); }

// the one-rank building blocks, from which the cross-rank results are made
template<typename T> void local_data() {
  const Data sp = spread(); sim::SplitMix g(sim::stable_seed("v")); const int n = int(sim::draw("count", 0, 40)), k = int(sim::draw("quantities", 0, 5));
  const double ar = sim::chance("correlated", 0.5) ? sim::draw_real("ar", -0.95, 0.98) : 0;
  std::vector<T> x; std::vector<Z> d; T prev = T(0); for (int i = 0; i < n; ++i) { prev = T(ar) * prev + val<T>(g, 0, sp.w); x.push_back(T(sp.c) + prev); d.push_back(x.back()); }
  const T m = Mean(x);
  if (n == 0) { SIM_CHECK(Z(m) == Z(0), "the mean of no data is %s", zs(m).c_str()); return; }
  cmp("local data", Z(m), double(StandardError(x, m)), d, true);
  Z rm; double re; ref_stat(d, rm, re); const double s = 1e-300 + scale(d);
  const double var = n > 1 ? re * re * (n - 1) : 0, gv = double(Variance(x)), gv2 = double(Variance(x, m));
  SIM_CHECK(std::abs(gv - var) <= 1e-7 * var + 1e-25 * s * s && std::abs(gv2 - var) <= 1e-7 * var + 1e-25 * s * s, "variance %.12g and %.12g of %d values, expected %.12g", gv, gv2, n, var);
  std::vector<std::vector<T>> table(n, std::vector<T>(k)); for (auto &r : table) for (auto &v : r) v = val<T>(g, sp.c, sp.w);
  auto ave = AveListOfData(table); SIM_CHECK(int(ave.size()) == k, "%zu averages of %d quantities", ave.size(), k);
  for (int i = 0; i < k; ++i) { std::vector<Z> c; for (auto &r : table) c.push_back(r[i]); ref_stat(c, rm, re); SIM_CHECK(std::abs(Z(ave[i]) - rm) <= 1e-11 * (1e-300 + scale(c)), "average %d of a table is %s, expected %s", i, zs(ave[i]).c_str(), zs(rm).c_str()); }
  const double f = IPSInflationFactor(x); SIM_CHECK(f >= 1 && std::isfinite(f), "inflation factor %g", f);
  if (sp.w >= 0.3) {   // initial positive sequence over the first 20 lags, biased autocovariances
    double mu = 0; for (auto &v : d) mu += v.real(); mu /= n; auto gam = [&](int q) { double a = 0; for (int t = 0; t + q < n; ++t) a += (d[t].real() - mu) * (d[t + q].real() - mu); return a / n; };
    double sum = 0; bool sharp = true; for (int q = 1; n >= 3 && q <= std::min(20, n - 2); ++q) { double z = gam(q) + gam(q + 1); if (std::abs(z) < 1e-9 * gam(0)) { sharp = false; break; } if (z <= 0) break; sum += gam(q) / gam(0); }
    if (sharp) SIM_CHECK(std::abs(f - std::max(1.0, 1 + 2 * sum)) < 1e-7, "inflation factor %.12g, expected %.12g", f, 1 + 2 * sum);
    if (n >= 1) SIM_CHECK(std::abs(IPSInflationFactor(x, std::optional<double>(mu)) - f) < 1e-6 || !sharp, "the inflation factor depends on who computes the mean"); sim::tag("inflation");
  }
}
SCENARIO("P12", local_series, 1) { if (sim::chance("cplx", 0.5)) local_data<Z>(); else local_data<double>(); }
HARNESS_MAIN
