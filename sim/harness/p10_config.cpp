// P10: dumped configurations resume exactly, or the load refuses and changes nothing.
#include "meas.h"
using namespace hx;

using Cfg = std::vector<size_t>;
struct Shot { size_t Ly, Lx; Cfg v; };
static Shot shot(const std::string &nm, size_t Ly, size_t Lx, size_t d) {
  sim::SplitMix g(sim::stable_seed(nm)); Shot s{Ly, Lx, Cfg(Ly * Lx)}; for (auto &x : s.v) x = g.below(d); return s;
}
static bool eq(const Configuration &c, const Shot &s) { return c.rows() == s.Ly && c.cols() == s.Lx && flat(c) == s.v; }
// Load in a fresh process into an object holding `before`; result 1 loaded, 0 refused.
static int load(const std::string &dir, size_t label, const Shot &before, Configuration &got) {
  int res = -1;
  auto out = sim::run_world({.nranks = 1}, [&](int) {
    Configuration c = conf(before.Ly, before.Lx, before.v); res = c.Load(dir, label) ? 1 : 0;
    if (!res) SIM_CHECK(eq(c, before), "a refused load changed the configuration it was asked to fill");
    got = c;
  });
  SIM_CHECK(out.ok(), "loading a configuration ended with %s", out.str().c_str());
  return res;
}
// Load through the parameters of the next job (lattice size taken from the files).
static int load_params(const std::string &dir, Configuration &got) {
  auto out = sim::run_world({.nranks = 1}, [&](int) { MonteCarloParams p(8, 0, 1, dir, true, ""); got = p.initial_config; SIM_CHECK(p.is_warmed_up, "a loaded configuration counts as not warmed up"); });
  if (out.kind == sim::EXCEPTION) return 0;
  SIM_CHECK(out.ok(), "loading a configuration into the parameters ended with %s", out.str().c_str());
  return 1;
}
// A job of n ranks dumps its configurations again and again; it may be killed at any file operation.
SCENARIO("P10", killed_while_dumping, 4) {
  swarm();
  const double pc[] = {0.0, 0.01, 0.04, 0.12};
  const int n = int(sim::draw("ranks", 1, 4)), gens = int(sim::draw("generations", 1, 3)); const size_t d = size_t(sim::draw("d", 2, 9));
  const std::string dir = sim::chance("nested", 0.4) ? "run/a/cfg" : "cfg";
  const bool reshape = sim::chance("reshape", 0.4);
  std::vector<std::vector<Shot>> started(n); std::vector<int> done(n, 0);       // per label: dumps that may be on disk; last one completed
  size_t Ly = size_t(sim::draw("Ly", 1, 4)), Lx = size_t(sim::draw("Lx", 1, 4));
  for (int k = 0; k < gens; ++k) {
    if (k && reshape) { if (sim::chance("transpose", 0.5)) std::swap(Ly, Lx); else { Ly = size_t(sim::draw("Ly", 1, 4)); Lx = size_t(sim::draw("Lx", 1, 4)); } }
    std::vector<Shot> now; for (int r = 0; r < n; ++r) now.push_back(shot(sim::fmt("c%d_%d", k, r), Ly, Lx, d));
    sim::profile().p[sim::K_CRASH] = pc[sim::draw("p_crash", 0, 3)]; sim::profile().max_of[sim::K_CRASH] = k + 1;
    sim::profile().p[sim::K_SHORTWRITE] = sim::chance("short", 0.5) ? 0.3 : 0;
    sim::WorldOpts o; o.nranks = n; o.io_faults = true; std::vector<int> begun(n, 0), fin(n, 0);
    auto out = sim::run_world(o, [&](int me) { Configuration c = conf(Ly, Lx, now[me].v); begun[me] = 1; c.Dump(dir, me); fin[me] = 1; SIM_CHECK(eq(c, now[me]), "dumping changed the configuration"); });
    sim::profile().p[sim::K_CRASH] = 0; sim::profile().p[sim::K_SHORTWRITE] = 0;
    SIM_CHECK(out.ok() || out.kind == sim::KILLED, "dumping configurations ended with %s", out.str().c_str());
    for (int r = 0; r < n; ++r) {
      if (fin[r]) { started[r] = {now[r]}; done[r] = 1; } else if (begun[r]) { started[r].push_back(now[r]); done[r] = 0; }
      if (started[r].empty()) { Configuration g; SIM_CHECK(!load(dir, r, shot("b", Ly, Lx, d), g), "a configuration loads that was never dumped"); continue; }
      const Shot &last = started[r].back(); Configuration g;
      const bool other = sim::chance("other_shape", 0.3);
      Shot before = other ? shot("before", size_t(sim::draw("bLy", 1, 4)), size_t(sim::draw("bLx", 1, 4)), d) : shot("before", last.Ly, last.Lx, d);
      const int l = load(dir, r, before, g);
      bool match = false; for (auto &s : started[r]) match |= eq(g, s);
      if (l) SIM_CHECK(match, "loading label %d succeeds with a configuration that was never dumped there (%s)", r, out.ok() ? "no crash" : "job killed while dumping");
      if (done[r] && before.Ly == last.Ly && before.Lx == last.Lx) SIM_CHECK(l == 1, "a completed dump does not load back on the same lattice");
      if (r == 0 && sim::chance("by_params", 0.5)) {
        Configuration p; const int q = load_params(dir, p); bool m = false; for (auto &s : started[r]) m |= eq(p, s);
        if (q) SIM_CHECK(m, "the parameters of the next job hold a %zux%zu configuration that was never dumped", p.rows(), p.cols());
        if (done[r]) SIM_CHECK(q == 1, "the next job refuses a completed dump"); sim::tag("by_params");
      }
      sim::tag(l ? (done[r] ? "loaded" : "interrupted_loaded") : (done[r] ? "shape_refused" : "interrupted_refused")); sim::event_hash(uint64_t(l) * 2 + done[r]);
    }
  }
}
// Files of a finished dump are lost or cut short afterwards.
SCENARIO("P10", damaged, 2) {
  const size_t Ly = size_t(sim::draw("Ly", 1, 4)), Lx = size_t(sim::draw("Lx", 1, 4)), d = size_t(sim::draw("d", 2, 9)), label = size_t(sim::draw("label", 0, 12));
  Shot a = shot("a", Ly, Lx, d);
  auto out = sim::run_world({.nranks = 1}, [&](int) { conf(Ly, Lx, a.v).Dump("cfg", label); });
  SIM_CHECK(out.ok(), "dumping failed on a healthy disk: %s", out.str().c_str());
  std::vector<std::string> files; for (auto &e : std::filesystem::directory_iterator("cfg")) files.push_back(e.path()); std::sort(files.begin(), files.end());
  const std::string f = files[size_t(sim::draw("file", 0, long(files.size()) - 1))]; const size_t len = std::filesystem::file_size(f);
  const bool lose = sim::chance("lose", 0.4);
  if (lose) { std::filesystem::remove(f); sim::note_fault("file_lost"); } else { std::filesystem::resize_file(f, size_t(sim::draw("cut", 0, long(len) - 1))); sim::note_fault("file_truncated"); }
  Configuration g; const int l = load("cfg", label, shot("before", Ly, Lx, d), g);
  if (l) SIM_CHECK(eq(g, a), "loading a damaged dump (%s) succeeds with a different configuration", f.c_str());
  if (label == 0) { Configuration p; if (load_params("cfg", p)) SIM_CHECK(eq(p, a), "the next job accepts a damaged dump (%s) as a %zux%zu configuration", f.c_str(), p.rows(), p.cols()); sim::tag("by_params"); }
  sim::tag(l ? "damaged_loaded" : "damaged_refused"); sim::event_hash(uint64_t(l) + 8 * len);
}
// A second job resumes from the dumps of the first one.
template<typename E> void resume() {
  swarm();
  const size_t Ly = 2, Lx = size_t(sim::draw("Lx", 2, 3)), N = Ly * Lx; const int n = int(sim::draw("ranks", 1, 4));
  auto st = make_state<E>(Ly, Lx, 2, 2, sim::stable_seed("state"), 0.2, 1.0);
  PEPSParams pp(bmps_exact(0)); std::vector<Cfg> last(n), init; for (int r = 0; r < n; ++r) init.push_back(rand_cfg("i" + std::to_string(r), N, long(N / 2)));
  using Upd = MCUpdateSquareNNExchangeOBC; using M = SquareSpinOneHalfXXZModelOBC;
  std::vector<std::vector<MRec>> log(n), log2(n);
  auto job = [&](int me, const Configuration &c, bool warmed, const std::string &dump, std::vector<MRec> *lg) {
    MonteCarloParams mc(size_t(n) * 3, 2, 1, c, warmed, dump); MCMeasurementParams p(mc, pp, "out");
    RecMeas<M> sol(M(1, 1, 0), lg); MonteCarloMeasure<E, QNT, Upd, RecMeas<M>>(st, p, MPI_COMM_WORLD, sol); (void) me;
  };
  auto o1 = sim::run_world({.nranks = n}, [&](int me) { job(me, conf(Ly, Lx, init[me]), false, "cfg/run", &log[me]); });
  SIM_CHECK(o1.ok(), "the first job ended with %s", o1.str().c_str());
  for (int r = 0; r < n; ++r) last[r] = log[r].back().cfg;
  const bool params = sim::chance("by_params", 0.5);
  auto o2 = sim::run_world({.nranks = n}, [&](int me) {
    Configuration c(Ly, Lx); if (!params) SIM_CHECK(c.Load("cfg/run", me), "rank %d cannot resume", me);
    MonteCarloParams mc = params ? MonteCarloParams(size_t(n), 5, 1, std::string("cfg/run")) : MonteCarloParams(size_t(n), 5, 1, c, true, "");
    MonteCarloEngine<E, QNT, Upd, BMPSContractor> eng(st, mc, pp, MPI_COMM_WORLD);
    eng.WarmUp();
    SIM_CHECK(flat(eng.WavefuncComp().config) == (params ? last[0] : last[me]), "rank %d does not resume from the configuration it dumped (a warmed-up configuration is kept)", me);
  });
  SIM_CHECK(o2.ok(), "the resumed job ended with %s", o2.str().c_str());
  sim::event_hash(sim::hash_bytes(last[0].data(), last[0].size() * 8));
}
SCENARIO("P10", resume_job, 1) { if (sim::chance("cplx", 0.5)) resume<Z>(); else resume<double>(); }

// Files of another lattice (also without the shape file, as older versions wrote them) and files that hold garbage.
SCENARIO("P10", foreign_files, 2) {
  const size_t Ly = size_t(sim::draw("Ly", 1, 4)), Lx = size_t(sim::draw("Lx", 1, 4)), bLy = size_t(sim::draw("bLy", 1, 4)), bLx = size_t(sim::draw("bLx", 1, 4)), label = size_t(sim::draw("label", 0, 3)), d = size_t(sim::draw("d", 2, 9));
  Shot a = shot("a", Ly, Lx, d);
  auto out = sim::run_world({.nranks = 1}, [&](int) { conf(Ly, Lx, a.v).Dump("cfg", label); });
  SIM_CHECK(out.ok(), "dumping failed on a healthy disk: %s", out.str().c_str());
  const std::string f = "cfg/configuration" + std::to_string(label); const bool keep = std::filesystem::exists(f + ".shape") && sim::chance("keep_shape", 0.5);
  if (!keep) std::filesystem::remove(f + ".shape");
  if (sim::chance("garbage", 0.5)) {
    const std::string which = keep && sim::chance("shape", 0.3) ? f + ".shape" : f;
    std::string t; { std::ifstream i(which, std::ios::binary); t.assign(std::istreambuf_iterator<char>(i), {}); }
    const char junk[] = {'x', '?', '#', '\x01', '\xff', 'Z'}; const size_t pos = size_t(sim::draw("pos", 0, long(t.size()) - 1));
    t[pos] = junk[sim::draw("junk", 0, 5)]; if (sim::chance("rest", 0.4)) for (size_t i = pos; i < t.size(); ++i) t[i] = t[pos];
    { std::ofstream o(which, std::ios::binary); o << t; } sim::note_fault("file_garbage");
    Configuration g; const int l = load("cfg", label, shot("before", Ly, Lx, d), g);
    if (l) SIM_CHECK(eq(g, a), "a file holding garbage loads as a configuration");   // a damaged separator at the very end harms nothing
    if (label == 0) { Configuration p; if (load_params("cfg", p)) SIM_CHECK(eq(p, a), "the next job accepts a file holding garbage as a %zux%zu configuration", p.rows(), p.cols()); }
    sim::tag(l ? "garbage_harmless" : "garbage_refused"); return;
  }
  Configuration g; const int l = load("cfg", label, shot("before", bLy, bLx, d), g);
  if (bLy == Ly && bLx == Lx) SIM_CHECK(l && eq(g, a), "a completed dump %sdoes not load back on the same lattice", keep ? "" : "(older format, no shape file) ");
  else if (keep || bLy * bLx != Ly * Lx) SIM_CHECK(!l, "a %zux%zu configuration %sloads on a %zux%zu lattice", Ly, Lx, keep ? "" : "(no shape file) ", bLy, bLx);
  sim::tag(keep ? "with_shape" : "no_shape"); sim::event_hash(l);
}
// Every value a label can have, large local spaces included, many labels in one directory.
SCENARIO("P10", round_trip, 1) {
  const int n = int(sim::draw("ranks", 1, 13)); const size_t Ly = size_t(sim::draw("Ly", 1, 5)), Lx = size_t(sim::draw("Lx", 1, 5)), d = size_t(1) << sim::draw("bits", 1, 40);
  auto out = sim::run_world({.nranks = n}, [&](int me) {
    Shot s = shot("c" + std::to_string(me), Ly, Lx, d); conf(Ly, Lx, s.v).Dump("cfg", me); ::MPI_Barrier(MPI_COMM_WORLD);
    Configuration c(Ly, Lx); SIM_CHECK(c.Load("cfg", me) && eq(c, s), "rank %d of %d does not get back the configuration it dumped (values up to %zu)", me, n, d - 1);
    const int o = (me + 1) % n; Configuration e; SIM_CHECK(e.Load("cfg", o) && eq(e, shot("c" + std::to_string(o), Ly, Lx, d)), "an empty configuration does not take over the dump of rank %d", o);
    SIM_CHECK(!c.Load("cfg", n + 1) && eq(c, s), "the dump of a rank that does not exist loads");
  });
  SIM_CHECK(out.ok(), "dumping and loading ended with %s", out.str().c_str());
}
HARNESS_MAIN
