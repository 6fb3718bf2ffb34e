// P08: a state directory written by a job that was killed, or that is damaged, loads exactly or not at all.
#include "models.h"
#include "qlpeps/two_dim_tn/peps/square_lattice_peps.h"
using namespace hx;

template<typename E> SITPS<E> rs(const std::string &nm, size_t Ly, size_t Lx, size_t d, bool pbc) {
  sim::SplitMix g(sim::stable_seed(nm));
  return make_state<E>(Ly, Lx, d, 1 + g.below(3), g.next(), -1, 1, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
}
// outcome of loading in a fresh process: 0 refused, 1 loaded
template<typename E> int load(const std::string &dir, SITPS<E> &got, bool preset, const SITPS<E> &junk) {
  int res = -1;
  auto out = sim::run_world({.nranks = 1}, [&](int) { SITPS<E> s; if (preset) s = junk; res = s.Load(dir) ? 1 : 0; if (res) got = s; });
  if (out.kind == sim::EXCEPTION) { sim::tag("load_throws"); return 0; }      // a loud refusal
  SIM_CHECK(out.ok(), "loading a partly written state ends with %s", out.str().c_str());
  return res;
}
template<typename E> void crash() {
  sim::profile().p[sim::K_SCHED] = 0.3;
  const double pc[] = {0.004, 0.015, 0.05, 0.15};
  const size_t Ly = size_t(sim::draw("Ly", 1, 3)), Lx = size_t(sim::draw("Lx", 1, 3)), d = size_t(sim::draw("d", 1, 2));
  const bool pbc = sim::chance("pbc", 0.5);
  const long mode = sim::draw("target", 0, 2);     // 0 new directory, 1 over an older state of the same shape, 2 over another shape
  const bool rel = sim::chance("release_mem", 0.3);
  const int gens = int(sim::draw("generations", 1, 3));
  std::vector<SITPS<E>> ok;                        // states whose dump completed or was in progress
  auto junk = rs<E>("junk", 2, 2, 2, false);
  const std::string dir = sim::chance("nested", 0.3) ? "out/run1/tpsfinal" : "tps";
  if (mode) {
    auto b = mode == 1 ? rs<E>("old", Ly, Lx, d, pbc) : rs<E>("old", size_t(sim::draw("oLy", 1, 3)), size_t(sim::draw("oLx", 1, 3)), size_t(sim::draw("od", 1, 2)), sim::chance("opbc", 0.5));
    auto out = sim::run_world({.nranks = 1}, [&](int) { SITPS<E> s(b); s.Dump(dir); });
    SIM_CHECK(out.ok(), "saving a state failed on a healthy disk: %s", out.str().c_str());
    ok.push_back(b);
    SITPS<E> g; SIM_CHECK(load(dir, g, false, junk) && same_state(g, b), "a saved state does not load back bit for bit");
  }
  bool may_refuse = mode == 0;
  for (int k = 0; k < gens; ++k) {
    auto a = rs<E>("new" + std::to_string(k), Ly, Lx, d, pbc);
    sim::profile().p[sim::K_CRASH] = pc[sim::draw("p_crash", 0, 3)]; sim::profile().max_of[sim::K_CRASH] = k + 1;
    sim::profile().p[sim::K_SHORTWRITE] = sim::chance("short", 0.5) ? 0.3 : 0;
    sim::WorldOpts o; o.nranks = 1; o.io_faults = true;
    auto out = sim::run_world(o, [&](int) { SITPS<E> s(a); s.Dump(dir, rel); });
    sim::profile().p[sim::K_CRASH] = 0; sim::profile().p[sim::K_SHORTWRITE] = 0;
    SITPS<E> g; const int l = load(dir, g, sim::chance("preset", 0.3), junk);
    if (out.ok()) {
      SIM_CHECK(l == 1 && same_state(g, a), "a completed save does not load back bit for bit (short writes only)");
      ok.clear(); ok.push_back(a); may_refuse = false; sim::tag("completed");
    } else {
      SIM_CHECK(out.kind == sim::KILLED, "saving ended with %s", out.str().c_str());
      may_refuse = true; ok.push_back(a); sim::tag(l ? "killed_loadable" : "killed_refused");
      if (l) {
        bool match = false; for (auto &x : ok) match |= same_state(g, x);
        SIM_CHECK(match, "after the job was killed while saving %s, loading succeeds with a state that was never saved", mode ? "over an older state" : "into a new directory");
      }
    }
    sim::event_hash(uint64_t(l));
  }
  (void) may_refuse;
}
SCENARIO("P08", state_killed_while_saving, 4) { if (sim::chance("cplx", 0.5)) crash<Z>(); else crash<double>(); }

// Files of a finished save are lost, emptied or cut short afterwards.
template<typename E> void damage() {
  const size_t Ly = size_t(sim::draw("Ly", 1, 3)), Lx = size_t(sim::draw("Lx", 1, 3)), d = size_t(sim::draw("d", 1, 3));
  auto a = rs<E>("a", Ly, Lx, d, sim::chance("pbc", 0.5)), junk = rs<E>("junk", 2, 2, 2, false);
  auto out = sim::run_world({.nranks = 1}, [&](int) { SITPS<E> s(a); s.Dump("tps"); });
  SIM_CHECK(out.ok(), "saving a state failed on a healthy disk: %s", out.str().c_str());
  std::vector<std::string> files; for (auto &e : std::filesystem::directory_iterator("tps")) files.push_back(e.path()); std::sort(files.begin(), files.end());
  const std::string f = files[size_t(sim::draw("file", 0, long(files.size()) - 1))];
  const size_t len = std::filesystem::file_size(f);
  if (sim::chance("lose", 0.4)) { std::filesystem::remove(f); sim::note_fault("file_lost"); }
  else { size_t k = size_t(sim::draw("cut", 0, long(len) - 1));
    // metadata without the last field is the older format, which means an open boundary: not recognisable as damage
    if (f.find("meta") != std::string::npos && k >= 5) k = 4;
    std::filesystem::resize_file(f, k); sim::note_fault("file_truncated"); sim::tag(f.find("meta") != std::string::npos ? "cut_meta" : "cut_tensor"); }
  SITPS<E> g; const int l = load("tps", g, sim::chance("preset", 0.3), junk);
  if (l) SIM_CHECK(same_state(g, a), "loading a damaged directory (%s) succeeds with a different state", f.c_str());
  sim::tag(l ? "damaged_loaded" : "damaged_refused");
  sim::event_hash(uint64_t(l) + len);
}
SCENARIO("P08", state_damaged, 2) { if (sim::chance("cplx", 0.5)) damage<Z>(); else damage<double>(); }

// Several states of one run live side by side; the reader process is slow and reads in pieces.
template<typename E> void roundtrip() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 4)), k = int(sim::draw("count", 1, 3));
  std::vector<SITPS<E>> st; for (int i = 0; i < k; ++i) st.push_back(rs<E>("s" + std::to_string(i), size_t(sim::draw("Ly", 1, 3)), size_t(sim::draw("Lx", 1, 3)), size_t(sim::draw("d", 1, 3)), sim::chance("pbc", 0.5)));
  sim::profile().p[sim::K_SHORTWRITE] = 0.2; sim::profile().p[sim::K_SHORTREAD] = 0.2;
  sim::WorldOpts o; o.nranks = n; o.io_faults = true;
  auto out = sim::run_world(o, [&](int me) { for (int i = 0; i < k; ++i) if (i % n == me) { SITPS<E> s(st[i]); s.Dump("r/s" + std::to_string(i)); SIM_CHECK(same_state(s, st[i]), "saving altered the state"); } MPI_Barrier(MPI_COMM_WORLD);
    for (int i = 0; i < k; ++i) { SITPS<E> s; SIM_CHECK(s.Load("r/s" + std::to_string(i)), "rank %d cannot load a saved state", me); SIM_CHECK(same_state(s, st[i]), "rank %d loaded a state that differs from the saved one", me); } });
  SIM_CHECK(out.ok(), "save/load ended with %s", out.str().c_str());
}
SCENARIO("P08", state_roundtrip_slow_disk, 1) { if (sim::chance("cplx", 0.5)) roundtrip<Z>(); else roundtrip<double>(); }

// The unsplit state (TPS): the same promise.
template<typename E> TPS<E, QNT> rt(const std::string &nm, size_t Ly, size_t Lx, size_t dp, bool pbc) {
  sim::SplitMix g(sim::stable_seed(nm)); const size_t D = 1 + g.below(3); TPS<E, QNT> t(Ly, Lx, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open);
  for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) {
    size_t l = (c == 0 && !pbc) ? 1 : D, rr = (c + 1 == Lx && !pbc) ? 1 : D, u = (r == 0 && !pbc) ? 1 : D, d = (r + 1 == Ly && !pbc) ? 1 : D;
    Ten<E> x({leg(l, qlten::IN), leg(d, qlten::OUT), leg(rr, qlten::OUT), leg(u, qlten::IN), leg(dp, qlten::OUT)});
    for (auto &q : qlten::GenAllCoors(x.GetShape())) x.SetElem(q, rnd<E>(g, -1, 1)); t({r, c}) = x;
  }
  return t;
}
template<typename E> bool same_tps(const TPS<E, QNT> &a, const TPS<E, QNT> &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols() || a.GetBoundaryCondition() != b.GetBoundaryCondition()) return false;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) {
    if (a({r, c}).GetShape() != b({r, c}).GetShape()) return false;
    for (auto &q : qlten::GenAllCoors(a({r, c}).GetShape())) if (a({r, c}).GetElem(q) != b({r, c}).GetElem(q)) return false;
  }
  return true;
}
template<typename E> int load_tps(const std::string &dir, TPS<E, QNT> &got, size_t Ly, size_t Lx, int preset) {
  int res = -1;
  auto out = sim::run_world({.nranks = 1}, [&](int) { TPS<E, QNT> s(Ly, Lx); if (preset) s = rt<E>("held", preset == 1 ? Ly : 2, preset == 1 ? Lx : 3, 2, preset == 3); res = s.Load(dir) ? 1 : 0; if (res) got = s; });
  if (out.kind == sim::EXCEPTION) { sim::tag("load_throws"); return 0; }
  SIM_CHECK(out.ok(), "loading a partly written TPS ends with %s", out.str().c_str());
  return res;
}
template<typename E> void tps_crash() {
  sim::profile().p[sim::K_SCHED] = 0.3;
  const double pc[] = {0.004, 0.015, 0.05, 0.15};
  const size_t Ly = size_t(sim::draw("Ly", 1, 3)), Lx = size_t(sim::draw("Lx", 1, 3)), d = size_t(sim::draw("d", 1, 2)); const bool pbc = sim::chance("pbc", 0.5), rel = sim::chance("release_mem", 0.3);
  const long mode = sim::draw("target", 0, 2); const int gens = int(sim::draw("generations", 1, 3)); std::vector<TPS<E, QNT>> ok;
  if (mode) {
    auto b = mode == 1 ? rt<E>("old", Ly, Lx, d, pbc) : rt<E>("old", size_t(sim::draw("oLy", 1, 3)), size_t(sim::draw("oLx", 1, 3)), size_t(sim::draw("od", 1, 2)), sim::chance("opbc", 0.5));
    auto out = sim::run_world({.nranks = 1}, [&](int) { TPS<E, QNT> s(b); s.Dump("t/tps"); }); SIM_CHECK(out.ok(), "saving a TPS failed on a healthy disk: %s", out.str().c_str());
    TPS<E, QNT> g(Ly, Lx); SIM_CHECK(load_tps(std::string("t/tps"), g, Ly, Lx, 0) == 1 && same_tps(g, b), "a saved TPS does not load back bit for bit"); ok.push_back(b);
  }
  for (int k = 0; k < gens; ++k) {
    auto a = rt<E>("new" + std::to_string(k), Ly, Lx, d, pbc);
    sim::profile().p[sim::K_CRASH] = pc[sim::draw("p_crash", 0, 3)]; sim::profile().max_of[sim::K_CRASH] = k + 1; sim::profile().p[sim::K_SHORTWRITE] = sim::chance("short", 0.5) ? 0.3 : 0;
    sim::WorldOpts o; o.nranks = 1; o.io_faults = true; auto out = sim::run_world(o, [&](int) { TPS<E, QNT> s(a); s.Dump("t/tps", rel); });
    sim::profile().p[sim::K_CRASH] = 0; sim::profile().p[sim::K_SHORTWRITE] = 0;
    TPS<E, QNT> g(Ly, Lx); const int l = load_tps(std::string("t/tps"), g, Ly, Lx, int(sim::draw("preset", 0, 3)));
    if (out.ok()) { SIM_CHECK(l == 1 && same_tps(g, a), "a completed save of a TPS does not load back bit for bit (short writes only)"); ok.clear(); ok.push_back(a); sim::tag("completed"); continue; }
    SIM_CHECK(out.kind == sim::KILLED, "saving a TPS ended with %s", out.str().c_str()); ok.push_back(a); sim::tag(l ? "killed_loadable" : "killed_refused"); sim::event_hash(uint64_t(l));
    if (l) { bool match = false; for (auto &x : ok) match |= same_tps(g, x); SIM_CHECK(match, "after the job was killed while saving a TPS %s, loading succeeds with a state that was never saved", mode ? "over an older one" : "into a new directory"); }
  }
}
SCENARIO("P08", tps_killed_while_saving, 2) { if (sim::chance("cplx", 0.5)) tps_crash<Z>(); else tps_crash<double>(); }

// The state of the simple update (SquareLatticePEPS): gamma and lambda tensors, loaded into an object of the same lattice.
template<typename E> void fill(E &t, sim::SplitMix &g) { for (auto &q : qlten::GenAllCoors(t.GetShape())) t.SetElem(q, rnd<std::decay_t<decltype(t.GetElem(q))>>(g, -1, 1)); }
template<typename E> SquareLatticePEPS<E, QNT> rp(const std::string &nm, size_t Ly, size_t Lx, bool pbc) {
  sim::SplitMix g(sim::stable_seed(nm)); SquareLatticePEPS<E, QNT> p(leg(2, qlten::OUT), Ly, Lx, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open); const size_t D = 1 + g.below(3);
  for (auto &x : p.lambda_vert) { x = std::decay_t<decltype(x)>({leg(D, qlten::IN), leg(D, qlten::OUT)}); for (size_t i = 0; i < D; ++i) x.SetElem({i, i}, rnd<double>(g, 0.1, 1)); }
  for (auto &x : p.lambda_horiz) { x = std::decay_t<decltype(x)>({leg(D, qlten::IN), leg(D, qlten::OUT)}); for (size_t i = 0; i < D; ++i) x.SetElem({i, i}, rnd<double>(g, 0.1, 1)); }
  for (auto &x : p.Gamma) { x = Ten<E>({leg(D, qlten::IN), leg(D, qlten::OUT), leg(D, qlten::OUT), leg(D, qlten::IN), leg(2, qlten::OUT)}); fill(x, g); }
  return p;
}
template<typename M> bool same_mat(const M &a, const M &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (size_t r = 0; r < a.rows(); ++r) for (size_t c = 0; c < a.cols(); ++c) { if (a({r, c}).GetShape() != b({r, c}).GetShape()) return false; for (auto &q : qlten::GenAllCoors(a({r, c}).GetShape())) if (a({r, c}).GetElem(q) != b({r, c}).GetElem(q)) return false; }
  return true;
}
template<typename E> bool same_peps(const SquareLatticePEPS<E, QNT> &a, const SquareLatticePEPS<E, QNT> &b) { return same_mat(a.Gamma, b.Gamma) && same_mat(a.lambda_vert, b.lambda_vert) && same_mat(a.lambda_horiz, b.lambda_horiz); }
template<typename E> void peps_crash() {
  sim::profile().p[sim::K_SCHED] = 0.3; const double pc[] = {0.004, 0.015, 0.05, 0.15}; using P = SquareLatticePEPS<E, QNT>;
  const size_t Ly = size_t(sim::draw("Ly", 1, 3)), Lx = size_t(sim::draw("Lx", 1, 3)); const bool pbc = sim::chance("pbc", 0.4), rel = sim::chance("release_mem", 0.3), cst = !rel && sim::chance("const", 0.5); const int gens = int(sim::draw("generations", 1, 3)); std::vector<P> ok;
  auto load = [&](P &g) { int res = -1; auto out = sim::run_world({.nranks = 1}, [&](int) { P s = rp<E>("held", Ly, Lx, pbc); res = s.Load("p/peps"); if (res) g = s; }); if (out.kind == sim::EXCEPTION) return 0; SIM_CHECK(out.ok(), "loading a partly written PEPS ends with %s", out.str().c_str()); return res; };
  for (int k = 0; k < gens; ++k) {
    auto a = rp<E>("new" + std::to_string(k), Ly, Lx, pbc); bool done = false;
    sim::profile().p[sim::K_CRASH] = k == 0 && sim::chance("first_ok", 0.5) ? 0 : pc[sim::draw("p_crash", 0, 3)]; sim::profile().max_of[sim::K_CRASH] = k + 1; sim::profile().p[sim::K_SHORTWRITE] = sim::chance("short", 0.5) ? 0.3 : 0;
    sim::WorldOpts o; o.nranks = 1; o.io_faults = true; auto out = sim::run_world(o, [&](int) { P s(a); const P &cs = s; done = cst ? cs.Dump("p/peps") : s.Dump("p/peps", rel); });
    sim::profile().p[sim::K_CRASH] = 0; sim::profile().p[sim::K_SHORTWRITE] = 0;
    P g = rp<E>("init", Ly, Lx, pbc); const int l = load(g);
    if (out.ok()) { SIM_CHECK(done, "saving a PEPS reports failure on a healthy disk"); SIM_CHECK(l == 1 && same_peps(g, a), "a completed save of a PEPS does not load back bit for bit"); ok.clear(); ok.push_back(a); sim::tag("completed"); continue; }
    SIM_CHECK(out.kind == sim::KILLED, "saving a PEPS ended with %s", out.str().c_str()); ok.push_back(a); sim::tag(l ? "killed_loadable" : "killed_refused"); sim::event_hash(uint64_t(l));
    if (l) { bool match = false; for (auto &x : ok) match |= same_peps(g, x); SIM_CHECK(match, "after the job was killed while saving a PEPS, loading succeeds with a state that was never saved"); }
  }
}
SCENARIO("P08", peps_killed_while_saving, 2) { if (sim::chance("cplx", 0.5)) peps_crash<Z>(); else peps_crash<double>(); }
HARNESS_MAIN
