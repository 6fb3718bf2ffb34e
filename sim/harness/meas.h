// Recording measurement solver and parsers of the measurement result files.
#ifndef HARNESS_MEAS_H
#define HARNESS_MEAS_H
#include "obs.h"
#include <fstream>
#include <sstream>
namespace hx {
struct MRec { std::vector<size_t> cfg; std::map<std::string, std::vector<Z>> obs; Z psi; };
template<typename Model>
struct RecMeas : Model {
  std::vector<MRec> *log = nullptr;
  uint64_t shuffle = 0;                       // non-zero: hand the observables over in another insertion order
  RecMeas(const Model &m, std::vector<MRec> *l, uint64_t s = 0) : Model(m), log(l), shuffle(s) {}
  template<typename E, typename Q, typename W>
  ObservableMap<E> EvaluateObservables(const SplitIndexTPS<E, Q> *s, W *w) {
    auto o = Model::template EvaluateObservables<E, Q>(s, w);
    MRec r; r.cfg = flat(w->config); r.psi = Z(w->GetAmplitude());
    for (auto &[k, v] : o) r.obs[k] = std::vector<Z>(v.begin(), v.end());
    if (log) log->push_back(r);
    if (!shuffle) return o;
    std::vector<std::string> keys; for (auto &[k, v] : r.obs) keys.push_back(k);
    sim::SplitMix g(shuffle); for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[g.below(i)]);
    ObservableMap<E> p; for (auto &k : keys) p[k] = o[k];
    return p;
  }
};
inline std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline bool exists(const std::string &f) { return std::filesystem::exists(f); }
// numbers of one CSV line; complex values are printed as (re,im)
inline std::vector<Z> csv_line(const std::string &l, bool &ok) {
  std::vector<Z> v; const char *p = l.c_str(); ok = true;
  while (*p) {
    char *e; 
    if (*p == '(') { double a = strtod(p + 1, &e); if (e == p + 1 || *e != ',') { ok = false; return v; } p = e + 1; double b = strtod(p, &e); if (e == p || *e != ')') { ok = false; return v; } v.push_back(Z(a, b)); p = e + 1; }
    else { double a = strtod(p, &e); if (e == p) { ok = false; return v; } v.push_back(a); p = e; }
    if (*p == ',') { ++p; if (!*p) { ok = false; return v; } } else if (*p) { ok = false; return v; }
  }
  return v;
}
inline std::vector<std::vector<Z>> csv(const std::string &f, bool header, bool &ok) {
  std::string t = slurp(f); std::vector<std::vector<Z>> rows; ok = exists(f) && (t.empty() ? !header : t.back() == '\n');
  std::stringstream s(t); std::string l; bool first = header;
  while (std::getline(s, l)) { if (first) { first = false; if (l.find_first_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos) ok = false; continue; } bool k; rows.push_back(csv_line(l, k)); ok &= k; }
  if (first) ok = false;
  return rows;
}
// Everything the job wrote about an observable must repeat the registry.
// Returns an empty string or a description of the difference.
template<typename E>
std::string check_files(const std::string &base, const std::string &key, const std::vector<E> &m, const std::vector<double> &e, const std::vector<size_t> *shape) {
  const double tol = 1e-12; auto same = [&](Z a, Z b) { return std::abs(a - b) <= tol * (1 + std::abs(a)) || (std::isinf(a.real()) && a == b); };
  const std::string d = base + "stats/"; bool ok;
  if (shape && shape->size() == 2) {
    for (int q = 0; q < 2; ++q) {
      const std::string f = d + key + (q ? "_stderr.csv" : "_mean.csv"); auto r = csv(f, false, ok);
      if (!ok || r.size() != (*shape)[0]) return f + " is missing or malformed";
      for (size_t i = 0; i < r.size(); ++i) {
        if (r[i].size() != (*shape)[1]) return f + " has a row of the wrong length";
        for (size_t j = 0; j < r[i].size(); ++j) { size_t x = i * (*shape)[1] + j; Z want = q ? Z(x < e.size() ? e[x] : 0.0) : Z(m[x]); if (!same(r[i][j], want)) return sim::fmt("%s row %zu column %zu is %s, the result is %s", f.c_str(), i, j, zs(r[i][j]).c_str(), zs(want).c_str()); }
      }
    }
    return "";
  }
  const std::string f = d + key + ".csv"; auto r = csv(f, true, ok);
  if (!ok || r.size() != m.size()) return f + " is missing or malformed";
  for (size_t i = 0; i < r.size(); ++i) {
    if (r[i].size() != 3 || r[i][0] != Z(double(i))) return f + " has a malformed row";
    const bool real_only = key == "particle_number_distribution" || key == "psi_rel_err";
    Z want = real_only ? Z(Z(m[i]).real()) : Z(m[i]);
    if (!same(r[i][1], want) || !same(r[i][2], Z(i < e.size() ? e[i] : 0.0))) return sim::fmt("%s entry %zu is %s +- %s, the result is %s", f.c_str(), i, zs(r[i][1]).c_str(), zs(r[i][2]).c_str(), zs(want).c_str());
  }
  return "";
}
inline std::map<std::string, std::string> read_meta(const std::string &f) {
  std::map<std::string, std::string> m; std::stringstream s(slurp(f)); std::string l;
  while (std::getline(s, l)) { auto p = l.find(' '); if (p != std::string::npos) m[l.substr(0, p)] = l.substr(p + 1); }
  return m;
}
inline size_t particle_number(const std::vector<size_t> &c, const std::vector<size_t> &pps) { size_t s = 0; for (auto q : c) s += pps[q]; return s; }
inline void check_coord_files(const std::string &b, const std::vector<ObservableMeta> &meta, size_t Ly, size_t Lx) {
  for (auto &d : meta) if (d.coord_generator) SIM_CHECK(slurp(b + "stats/" + d.key + "_coords.txt") == d.coord_generator(Ly, Lx), "coordinate file of %s differs", d.key.c_str());
}
// per-sample files and metadata of a finished job repeat what the ranks recorded
inline void check_sample_files(const std::string &b, int n, const std::vector<std::vector<MRec>> &log, bool particles, const std::vector<size_t> &pps, size_t total, size_t warm, size_t sweeps, size_t Ly, size_t Lx, bool pbc) {
  const size_t got = log[0].size(), per = (total + n - 1) / n; size_t all = 0; for (auto &l : log) all += l.size();
  bool ok; auto psi = csv(b + "samples/psi.csv", true, ok);
  SIM_CHECK(ok && psi.size() == got, "psi.csv is missing, malformed or has %zu rows, %zu samples were taken", psi.size(), got);
  for (size_t i = 0; i < got; ++i) { SIM_CHECK(psi[i].size() == 4 && psi[i][0] == Z(double(i)), "psi.csv has a malformed row"); Z p(psi[i][1].real(), psi[i][2].real()); SIM_CHECK(std::abs(p - log[0][i].psi) <= 2e-5 * (1e-6 + std::abs(p)), "psi.csv row %zu is %s, the amplitude was %s", i, zs(p).c_str(), zs(log[0][i].psi).c_str()); SIM_CHECK(psi[i][3].real() < 1e-5, "psi.csv row %zu reports inconsistency %g of an exact contraction", i, psi[i][3].real()); }
  if (particles) for (int r = 0; r < n; ++r) {
    auto f = csv(b + "samples/particle_number_rank" + std::to_string(r) + ".csv", true, ok);
    SIM_CHECK(ok && f.size() == log[r].size(), "the particle-number file of rank %d is missing, malformed or has %zu rows, %zu samples were taken", r, f.size(), log[r].size());
    for (size_t i = 0; i < f.size(); ++i) SIM_CHECK(f[i].size() == 2 && f[i][0] == Z(double(i)) && f[i][1] == Z(double(particle_number(log[r][i].cfg, pps))), "the particle-number file of rank %d differs at sample %zu", r, i);
  }
  auto md = read_meta(b + "metadata.txt"); auto eq = [&](const char *k, size_t v) { SIM_CHECK(md.count(k) && md[k] == std::to_string(v), "metadata says %s %s, expected %zu", k, md[k].c_str(), v); };
  eq("total_samples_requested", total); eq("samples_per_rank", per); eq("samples_scheduled_total", per * n); eq("samples_collected_master", got); eq("samples_collected_total", all); eq("mpi_size", n); eq("lx", Lx); eq("ly", Ly); eq("warmup_sweeps", warm); eq("sweeps_between_samples", sweeps);
  SIM_CHECK(md["boundary_condition"] == (pbc ? "Periodic" : "Open"), "metadata has boundary %s", md["boundary_condition"].c_str());
  SIM_CHECK(md.count("particle_number_distribution_enabled"), "metadata is cut short");
  SIM_CHECK(!particles || md.count("particle_number_particles_per_state"), "metadata is cut short");
}
// registry: average over ranks of the per-rank averages, error from their spread; the files repeat it
template<typename E> void check_registry(const MonteCarloMeasureResult<E, QNT> &res0, const std::vector<ObservableMeta> &meta, const std::vector<std::vector<MRec>> &log, int n, size_t N, size_t total, bool particles, const std::vector<size_t> &pps, const std::string &b) {
  auto res = res0; const size_t per = log[0].size();
  std::map<std::string, std::vector<std::vector<Z>>> want;       // key -> [rank][component]
  for (int r = 0; r < n; ++r) for (auto &x : log[r]) for (auto &[k, v] : x.obs) { auto &t = want[k]; t.resize(n); t[r].resize(v.size()); for (size_t q = 0; q < v.size(); ++q) t[r][q] += v[q] / double(per); }
  const size_t bins = N * std::max(pps[0], pps[1]) + 1;
  if (particles) { auto &t = want["particle_number_distribution"]; t.assign(n, std::vector<Z>(bins)); for (int r = 0; r < n; ++r) for (auto &x : log[r]) t[r][particle_number(x.cfg, pps)] += 1.0 / double(per); }
  SIM_CHECK(res.registry.size() == want.size(), "%zu observables reported, %zu measured", res.registry.size(), want.size());
  for (auto &[k, t] : want) {
    auto it = res.registry.find(k); SIM_CHECK(it != res.registry.end(), "observable %s is not reported", k.c_str());
    auto &[m, e] = it->second; const size_t len = t[0].size();
    SIM_CHECK(m.size() == len && (n == 1 || e.size() == len), "observable %s has %zu values and %zu errors, expected %zu", k.c_str(), m.size(), e.size(), len);
    for (size_t q = 0; q < len; ++q) {
      Z mean(0); for (int r = 0; r < n; ++r) mean += t[r][q] / double(n);
      double v = 0; for (int r = 0; r < n; ++r) v += std::norm(t[r][q] - mean);
      SIM_CHECK(near(Z(m[q]), mean, 1e-9), "%s[%zu] is %s, the samples of all ranks average to %s (ranks %d, samples %zu)", k.c_str(), q, zs(m[q]).c_str(), zs(mean).c_str(), n, total);
      if (n > 1) SIM_CHECK(same_real(e[q], std::sqrt(v / n / (n - 1)), 1e-7), "%s[%zu] has error %.12g, the rank averages spread %.12g", k.c_str(), q, e[q], std::sqrt(v / n / (n - 1)));
    }
    const std::vector<size_t> *shape = nullptr; for (auto &d : meta) if (d.key == k) shape = &d.shape;
    auto bad = check_files(b, k, m, e, shape && !shape->empty() ? shape : nullptr);
    SIM_CHECK(bad.empty(), "%s", bad.c_str());
  }
  if (res.registry.count("energy")) { SIM_CHECK(res.energy.first == res.registry["energy"].first[0], "the returned energy is not the reported one"); SIM_CHECK(n == 1 || res.energy.second == res.registry["energy"].second[0], "the returned energy error is not the reported one"); }
}
}
#endif
