// P22: the contractors' caches under histories of replacements, commits, updates, windows, copies and re-initialisations: every amplitude, replacement
// amplitude and hole is that of the network the history has led to, computed here by brute force.
#include "peps_dense.h"
using namespace hx;
namespace {
using OpenTrunc = BMPSTruncateParams<double>;
// A network of one-layer tensors with its own bond dimensions.
template<typename E> struct Net {
  size_t R, C; bool pbc; double lo; sim::SplitMix g; std::vector<size_t> dh, dv; TensorNetwork2D<E, QNT> tn; std::vector<LT> ref;
  Net(size_t R, size_t C, bool pbc, double p2, size_t dmax, uint64_t seed) : R(R), C(C), pbc(pbc), lo(0.2), g(seed), tn(R, C, pbc ? BoundaryCondition::Periodic : BoundaryCondition::Open), ref(R * C) {
    dh.assign(R * (C + 1), 1); dv.assign((R + 1) * C, 1);
    for (size_t r = 0; r < R; ++r) for (size_t c = pbc ? 0 : 1; c < C; ++c) if (g.uni() < p2) dh[r * (C + 1) + c] = 2 + size_t(g.below(dmax - 1));
    for (size_t r = pbc ? 0 : 1; r < R; ++r) for (size_t c = 0; c < C; ++c) if (g.uni() < p2) dv[r * C + c] = 2 + size_t(g.below(dmax - 1));
    if (pbc) { for (size_t r = 0; r < R; ++r) dh[r * (C + 1) + C] = dh[r * (C + 1)]; for (size_t c = 0; c < C; ++c) dv[R * C + c] = dv[c]; }
  }
  void fill() { for (size_t s = 0; s < R * C; ++s) set(s, make(s)); }
  Ten<E> make(size_t s) {
    const size_t r = s / C, c = s % C; Ten<E> t({leg(dh[r * (C + 1) + c], qlten::IN), leg(dv[(r + 1) * C + c], qlten::OUT), leg(dh[r * (C + 1) + c + 1], qlten::OUT), leg(dv[r * C + c], qlten::IN)});
    for (auto &q : qlten::GenAllCoors(t.GetShape())) t.SetElem(q, rnd<E>(g, lo, 1)); return t;
  }
  LT lab(size_t s, LT x) const { const size_t r = s / C, c = s % C; auto H = [&](size_t r, size_t c) { return int(r * (C + 1) + (pbc ? c % C : c)); }; auto V = [&](size_t r, size_t c) { return 1000 + int((pbc ? r % R : r) * C + c); }; x.lab = {H(r, c), V(r + 1, c), H(r, c + 1), V(r, c)}; return x; }
  void set(size_t s, const Ten<E> &t) { tn({s / C, s % C}) = t; ref[s] = lab(s, raw(t)); }
  SiteIdx at(size_t s) const { return {s / C, s % C}; }
};
using Repl = std::vector<std::pair<size_t, LT>>;
struct Num { Z v; double scale; };
LT contract(const std::vector<LT> &t, size_t skip, bool mod) { LT cur; cur.v = {Z(1)}; for (size_t s = 0; s < t.size(); ++s) { if (s == skip) continue; LT x = t[s]; if (mod) for (auto &z : x.v) z = std::abs(z); cur = mul(cur, x); } return cur; }
template<typename E> Num amp(const Net<E> &n, const Repl &rep = {}) {
  auto t = n.ref; for (auto &[s, x] : rep) t[s] = x;
  if (t.size() == 1 && n.pbc) { const auto &d = t[0].dim; Num o{Z(0), 0}; for (size_t a = 0; a < d[0]; ++a) for (size_t b = 0; b < d[1]; ++b) { const Z x = t[0].v[((a * d[1] + b) * d[2] + a) * d[3] + b]; o.v += x; o.scale += std::abs(x); } return o; }
  auto one = [&](bool m) { LT x = contract(t, size_t(-1), m); SIM_CHECK(x.v.size() == 1, "open legs are left over in the reference"); return x.v[0]; }; return {one(false), std::abs(one(true))};
}
void same(const char *what, Z got, const Num &want, double tol = 1e-9) { { const float f = float(want.v.real()); sim::event_hash(sim::hash_bytes(&f, sizeof f)); } SIM_CHECK(std::abs(got - want.v) <= tol * std::max(std::abs(want.v), want.scale) && std::isfinite(std::abs(got)), "%s is %.15g%+.15gi, the network gives %.15g%+.15gi", what, got.real(), got.imag(), want.v.real(), want.v.imag()); }
// hole of site s: all others contracted, legs in the order left, down, right, up of the missing tensor
template<typename E> std::pair<VZ, double> hole(const Net<E> &n, size_t s) {
  LT x = contract(n.ref, s, false), m = contract(n.ref, s, true); auto order = [&](const LT &y) { std::vector<size_t> st(y.dim.size(), 1); for (size_t i = y.dim.size(); i-- > 1;) st[i - 1] = st[i] * y.dim[i]; std::vector<size_t> o{0};
    for (size_t k = 0; k < 4; ++k) { size_t a = 0; while (a < y.lab.size() && y.lab[a] != n.ref[s].lab[k]) ++a; std::vector<size_t> q; for (auto b : o) for (size_t i = 0; i < n.ref[s].dim[k]; ++i) q.push_back(b + (a < y.lab.size() ? i * st[a] : 0)); o.swap(q); } VZ v; for (auto b : o) v.push_back(y.v[b]); return v; };
  double sc = 0; for (auto &z : m.v) sc = std::max(sc, std::abs(z)); return {order(x), sc};
}
template<typename E> void same_hole(const char *what, const Ten<E> &got, const Net<E> &n, size_t s) {
  const LT g = raw(got); const auto [w, sc] = hole(n, s); SIM_CHECK(g.dim == n.ref[s].dim, "%s of site (%zu, %zu) has other dimensions than the missing tensor", what, s / n.C, s % n.C); double e = 0; for (size_t i = 0; i < w.size(); ++i) e = std::max(e, std::abs(w[i] - g.v[i])); SIM_CHECK(e <= 1e-8 * sc, "%s of site (%zu, %zu) is off by %g of %g", what, s / n.C, s % n.C, e, sc);
}
template<typename F> bool throws(F f) { try { f(); } catch (const std::logic_error &) { return true; } catch (const std::runtime_error &) { return true; } return false; }

// ---- torus: TRG
template<typename E> struct Torus {
  using K = TRGContractor<E, QNT>; Net<E> n; std::unique_ptr<K> k; bool inited = false, traced = false;
  Torus(Net<E> &&x) : n(std::move(x)), k(std::make_unique<K>(n.R, n.C)) { k->SetTruncateParams(TRGTruncateParams<double>(1, 4096, 0.0)); }
  std::pair<std::vector<std::pair<SiteIdx, Ten<E>>>, Repl> change() {
    std::vector<std::pair<SiteIdx, Ten<E>>> a; Repl b; const size_t N = n.R * n.C, m = std::min<size_t>(N, size_t(sim::draw("replaced", 0, 3))); std::vector<size_t> s; const size_t first = size_t(sim::draw("site", 0, long(N) - 1));
    for (size_t i = 0; i < m; ++i) { size_t q = i == 0 ? first : sim::chance("near", 0.5) ? (i == 1 ? (first % n.C + 1 == n.C ? first + 1 - n.C : first + 1) : (first + n.C) % N) : size_t(sim::draw("site", 0, long(N) - 1)); if (std::find(s.begin(), s.end(), q) == s.end()) s.push_back(q); }
    for (auto q : s) { auto t = n.make(q); a.push_back({n.at(q), t}); b.push_back({q, n.lab(q, raw(t))}); } return {a, b};
  }
  void trace(const char *w) { same(w, Z(k->Trace(n.tn)), amp(n)); traced = true; }
  void holes() {
    auto h = k->PunchAllHoles(n.tn); const bool one = std::all_of(n.dh.begin(), n.dh.end(), [](size_t d) { return d == 1; }) && std::all_of(n.dv.begin(), n.dv.end(), [](size_t d) { return d == 1; });
    SIM_CHECK(h.rows() == n.R && h.cols() == n.C, "the holes form a %zu x %zu lattice", h.rows(), h.cols()); const Num a = amp(n);
    for (size_t s = 0; s < n.R * n.C; ++s) {
      if (n.R < 4 || one) same_hole("the hole", h(n.at(s)), n, s);
      const LT g = raw(h(n.at(s))); SIM_CHECK(g.dim == n.ref[s].dim, "the hole of site (%zu, %zu) has other dimensions than the missing tensor", s / n.C, s % n.C); Z x(0); for (size_t i = 0; i < g.v.size(); ++i) x += g.v[i] * n.ref[s].v[i]; same("a hole closed with its own tensor", x, a, 1e-7);
    }
    if (n.R >= 4 && !one && sim::chance("fresh_holes", 0.4)) {    // larger tori project: a contractor that starts from this network has to agree
      K f(n.R, n.C); f.SetTruncateParams(k->GetTruncateParams()); f.Init(n.tn); f.Trace(n.tn); auto q = f.PunchAllHoles(n.tn); double sc = 0, e = 0;
      for (size_t s = 0; s < n.R * n.C; ++s) { const LT x = raw(h(n.at(s))), y = raw(q(n.at(s))); for (size_t i = 0; i < x.v.size(); ++i) { e = std::max(e, std::abs(x.v[i] - y.v[i])); sc = std::max(sc, std::abs(y.v[i])); } } SIM_CHECK(e <= 1e-6 * sc, "the holes of a contractor with a history differ from those of a fresh one by %g of %g", e, sc);
    }
  }
  void step() {
    if (!inited) { if (sim::chance("too_early", 0.3)) { SIM_CHECK(throws([&] { k->Trace(n.tn); }) && throws([&] { k->EvaluateReplacement({}); }), "a contractor answered before it was initialised"); sim::tag("early_refused"); } k->Init(n.tn); inited = true; return; }
    if (!traced) { if (n.R > 3 && sim::chance("too_early", 0.3)) { auto c = change(); SIM_CHECK(throws([&] { k->EvaluateReplacement(c.first); }) && throws([&] { k->BeginTrialWithReplacement(c.first); }) && throws([&] { k->PunchAllHoles(n.tn); }), "a contractor answered before its cache was filled"); sim::tag("early_refused"); } trace("the first trace"); return; }
    switch (sim::draw("op", 0, 9)) {
      case 0: trace("the trace"); break;
      case 1: case 2: { auto c = change(); same("a replacement amplitude", Z(k->EvaluateReplacement(c.first)), amp(n, c.second)); break; }
      case 3: case 4: case 5: {
        const size_t m = size_t(sim::draw("trials", 1, 3)), keep = size_t(sim::draw("keep", 0, long(m))); std::vector<typename K::Trial> tr; std::vector<std::pair<std::vector<std::pair<SiteIdx, Ten<E>>>, Repl>> ch;
        for (size_t i = 0; i < m; ++i) { ch.push_back(change()); tr.push_back(k->BeginTrialWithReplacement(ch[i].first)); same("a trial amplitude", Z(tr[i].amplitude), amp(n, ch[i].second)); }
        if (sim::chance("peek", 0.3)) trace("the trace with open trials");
        if (keep < m) { k->CommitTrial(std::move(tr[keep])); for (auto &[s, t] : ch[keep].first) n.set(s.row() * n.C + s.col(), t); sim::tag("commits"); if (sim::chance("check_now", 0.5)) trace("the trace after a commit"); } break;
      }
      case 6: if (n.R > 1) { holes(); sim::tag("holes"); } break;
      case 7: { const size_t m = size_t(sim::draw("changed", 1, 4)); for (size_t i = 0; i < m; ++i) { const size_t s = size_t(sim::draw("site", 0, long(n.R * n.C) - 1)); n.set(s, n.make(s)); } k->Init(n.tn); traced = false; sim::tag("reinit"); if (sim::chance("check_now", 0.5)) trace("the trace after a new Init"); break; }
      case 8: { auto c = change(); K o(*k); auto t = o.BeginTrialWithReplacement(c.first); o.CommitTrial(std::move(t)); same("the trace of a copy after its commit", Z(o.Trace(n.tn)), amp(n, c.second)); trace("the trace of the original after a commit to its copy"); if (sim::chance("adopt", 0.5)) { *k = std::move(o); for (auto &[s, t] : c.first) n.set(s.row() * n.C + s.col(), t); } sim::tag("copies"); break; }
      case 9: { typename K::Trial bad; bad.layer_updates.resize(9); SIM_CHECK(throws([&] { k->CommitTrial(std::move(bad)); }), "a trial of another lattice was committed"); trace("the trace after a refused commit"); sim::tag("refused_commits"); break; }
    }
  }
};
template<typename E> Net<E> torus_net() {
  const size_t Ls[] = {1, 2, 3, 4, 4, 6, 8}; const size_t L = Ls[sim::draw("side", 0, 6)]; const double p = L <= 3 ? 0.7 : L == 4 ? 0.45 : L == 6 ? 0.12 : 0.06;
  Net<E> n(L, L, true, p, L <= 2 ? 3 : 2, sim::stable_seed("net")); if (sim::chance("signs", 0.4)) n.lo = -0.5; n.fill(); return n;
}
template<typename E> void torus_history() {
  sim::WorldOpts o; o.nranks = 1; auto out = sim::run_world(o, [&](int) {
    std::vector<Torus<E>> t; const long m = sim::draw("contractors", 1, 2); for (long i = 0; i < m; ++i) t.emplace_back(torus_net<E>());
    const long steps = sim::draw("steps", 4, 24); for (long i = 0; i < steps; ++i) { auto &x = t[size_t(sim::draw("who", 0, m - 1))]; x.step(); }
    for (auto &x : t) if (x.inited) x.trace("the last trace");
  }); SIM_CHECK(out.ok(), "the history ended with %s", out.str().c_str());
}

// ---- open lattice: boundary MPS
template<typename E> struct Open {
  using K = BMPSContractor<E, QNT>; Net<E> n; std::unique_ptr<K> k; int h1 = -1, h2 = -1, v1 = -1, v2 = -1;     // the row/column the boundary tensors belong to
  Open(Net<E> &&x, const OpenTrunc &p) : n(std::move(x)), k(std::make_unique<K>(n.R, n.C)) { k->SetTruncateParams(p); k->Init(n.tn); }
  size_t S(size_t r, size_t c) const { return r * n.C + c; }
  Ten<E> alt(size_t s, Repl &r) { auto t = n.make(s); r.push_back({s, n.lab(s, raw(t))}); return t; }
  void update(size_t s) { n.set(s, n.make(s)); k->EraseEnvsAfterUpdate(n.at(s)); k->CheckInvalidateEnvs(n.at(s)); const int r = int(s / n.C), c = int(s % n.C); if (h1 != r) h1 = -1; if (h2 != r && h2 + 1 != r) h2 = -1; if (v1 != c) v1 = -1; if (v2 != c && v2 + 1 != c) v2 = -1; sim::tag("updates"); }
  // boundary tensors reach every site of the row/column (one layer) or pair of rows/columns (two layers)
  void reach(bool hor, size_t q) { int &at = hor ? h1 : v1; if (hor) k->GrowBMPSForRow(n.tn, q); else k->GrowBMPSForCol(n.tn, q); const bool init = at != int(q); if (!init) sim::tag("btens_reused"); for (auto p : hor ? std::vector<BTenPOSITION>{LEFT, RIGHT} : std::vector<BTenPOSITION>{UP, DOWN}) { k->GrowFullBTen(n.tn, p, q, init ? size_t(sim::draw("remain", 1, 2)) : 1, init); k->GrowFullBTen(n.tn, p, q, 1, false); } at = int(q); }
  void reach2(bool hor, size_t q) { int &at = hor ? h2 : v2; if (hor) { k->GrowBMPSForRow(n.tn, q); k->GrowBMPSForRow(n.tn, q + 1); } else { k->GrowBMPSForCol(n.tn, q); k->GrowBMPSForCol(n.tn, q + 1); } const bool init = at != int(q); if (!init) sim::tag("btens_reused"); for (auto p : hor ? std::vector<BTenPOSITION>{LEFT, RIGHT} : std::vector<BTenPOSITION>{UP, DOWN}) { k->GrowFullBTen2(n.tn, p, q, init ? size_t(sim::draw("remain", 1, 2)) : 1, init); k->GrowFullBTen2(n.tn, p, q, 1, false); } at = int(q); }
  void ask1(bool hor, size_t s) {      // everything about single sites, pairs and triples that lie on the line of s
    const auto o = hor ? HORIZONTAL : VERTICAL; const size_t st = hor ? 1 : n.C, pos = hor ? s % n.C : s / n.C, len = hor ? n.C : n.R; Repl r;
    auto t = alt(s, r); same("a one-site replacement", Z(k->ReplaceOneSiteTrace(n.tn, n.at(s), t, o)), amp(n, r)); same_hole("the hole", k->PunchHole(n.tn, n.at(s), o), n, s);
    if (pos + 1 < len) { same("the trace", Z(k->Trace(n.tn, n.at(s), o)), amp(n)); auto b = alt(s + st, r); same("a pair replacement", Z(k->ReplaceNNSiteTrace(n.tn, n.at(s), n.at(s + st), o, t, b)), amp(n, r));
      if (pos + 2 < len) { auto c = alt(s + 2 * st, r); same("a triple replacement", Z(k->ReplaceTNNSiteTrace(n.tn, n.at(s), o, t, b, c)), amp(n, r)); } }
  }
  void ask2(bool hor, size_t row, size_t col) {   // diagonal pairs in the 2x2, 2x3 or 3x2 block with (row, col) as upper left corner
    const auto o = hor ? HORIZONTAL : VERTICAL; for (auto d : {LEFTUP_TO_RIGHTDOWN, LEFTDOWN_TO_RIGHTUP}) {
      const bool lu = d == LEFTUP_TO_RIGHTDOWN; { Repl r; auto a = alt(S(lu ? row : row + 1, col), r), b = alt(S(lu ? row + 1 : row, col + 1), r); same("a diagonal pair replacement", Z(k->ReplaceNNNSiteTrace(n.tn, {row, col}, d, o, a, b)), amp(n, r)); }
      const size_t h = hor ? 1 : 2, w = hor ? 2 : 1; if (row + h < n.R && col + w < n.C) { Repl r; auto a = alt(S(lu ? row : row + h, col), r), b = alt(S(lu ? row + h : row, col + w), r); same("a knight's move replacement", Z(k->ReplaceSqrt5DistTwoSiteTrace(n.tn, {row, col}, d, o, a, b)), amp(n, r)); }
    }
  }
  void sweep(bool hor) {      // a sweep as the samplers do it: windows shift along, sites change under way
    const size_t A = hor ? n.R : n.C, B = hor ? n.C : n.R; const BMPSPOSITION up = hor ? UP : LEFT, dn = hor ? DOWN : RIGHT; const BTenPOSITION lf = hor ? LEFT : UP, rt = hor ? RIGHT : DOWN; const size_t win = size_t(sim::draw("window", 1, 2)), remain = win;
    k->GenerateBMPSApproach(n.tn, up); if (hor) h1 = -1; else v1 = -1; h2 = v2 = -1; const size_t stop = size_t(sim::draw("stop_at", 0, long(A) - 1));
    for (size_t a = 0; a < A; ++a) {
      k->InitBTen(n.tn, lf, a); k->GrowFullBTen(n.tn, rt, a, remain, true);
      for (size_t b = 0; b + win <= B; ++b) {
        const size_t s = hor ? S(a, b) : S(b, a), s2 = hor ? s + 1 : s + n.C; const auto o = hor ? HORIZONTAL : VERTICAL; Repl r; auto t = alt(s, r);
        if (win == 1) same("a one-site replacement in a sweep", Z(k->ReplaceOneSiteTrace(n.tn, n.at(s), t, o)), amp(n, r)); else { auto t2 = alt(s2, r); same("a pair replacement in a sweep", Z(k->ReplaceNNSiteTrace(n.tn, n.at(s), n.at(s2), o, t, t2)), amp(n, r)); }
        if (sim::chance("accept", 0.4)) { for (auto q : win == 1 ? std::vector<size_t>{s} : std::vector<size_t>{s, s2}) { n.set(q, n.make(q)); k->EraseEnvsAfterUpdate(n.at(q)); } if (win == 1) same_hole("the hole in a sweep", k->PunchHole(n.tn, n.at(s), o), n, s); else same("the trace in a sweep", Z(k->Trace(n.tn, n.at(s), o)), amp(n)); }
        if (b + win < B) k->ShiftBTenWindow(n.tn, rt);
      }
      if (a == stop) break; if (a + 1 < A) k->ShiftBMPSWindow(n.tn, dn);
    }
    if (hor) v1 = -1; else h1 = -1; sim::tag("sweeps");
  }
  void sweep2(bool hor) {     // the same with two lines between the boundaries
    const size_t A = hor ? n.R : n.C, B = hor ? n.C : n.R; const BTenPOSITION lf = hor ? LEFT : UP, rt = hor ? RIGHT : DOWN; const size_t a = size_t(sim::draw("line", 0, long(A) - 2));
    if (hor) { k->GrowBMPSForRow(n.tn, a); k->GrowBMPSForRow(n.tn, a + 1); h2 = -1; } else { k->GrowBMPSForCol(n.tn, a); k->GrowBMPSForCol(n.tn, a + 1); v2 = -1; } k->InitBTen2(n.tn, lf, a); k->GrowFullBTen2(n.tn, rt, a, 2, true);
    for (size_t b = 0; b + 1 < B; ++b) { for (auto d : {LEFTUP_TO_RIGHTDOWN, LEFTDOWN_TO_RIGHTUP}) { const size_t row = hor ? a : b, col = hor ? b : a; const bool lu = d == LEFTUP_TO_RIGHTDOWN; Repl r; auto x = alt(S(lu ? row : row + 1, col), r), y = alt(S(lu ? row + 1 : row, col + 1), r); same("a diagonal pair replacement in a sweep", Z(k->ReplaceNNNSiteTrace(n.tn, {row, col}, d, hor ? HORIZONTAL : VERTICAL, x, y)), amp(n, r)); } if (b + 2 < B) k->ShiftBTen2Window(n.tn, rt, a); }
    sim::tag("sweeps2");
  }
  void walker() {             // a walker leaves the stack at some row, absorbs rows (some of them changed) and closes the network against the lower boundary
    const size_t r0 = size_t(sim::draw("row", 0, long(n.R) - 1)); k->GrowBMPSForRow(n.tn, r0); auto w = k->GetWalker(n.tn, UP); size_t row = w.GetStackSize() - 1; Repl r; std::vector<Ten<E>> keep; keep.reserve(64); std::vector<std::vector<Ten<E> *>> rows;
    auto line = [&](size_t q, bool change) { auto m = n.tn.get_row(q); if (change) for (size_t c = 0; c < n.C; ++c) if (sim::chance("swap", 0.4)) { keep.push_back(alt(S(q, c), r)); m[c] = &keep.back(); } return m; };
    while (row + 1 < n.R && sim::chance("walk", 0.6)) { if (sim::chance("changed_row", 0.5)) w.Evolve(line(row, true)); else if (w.GetStackSize() == row + 1) w.EvolveStep(); else w.Evolve(line(row, false)); ++row; }
    BMPS<E, QNT> down = k->GetBMPSForRow(n.tn, row).second; if (sim::chance("down_walker", 0.4)) { K f(n.R, n.C); f.SetTruncateParams(k->GetTruncateParams()); f.Init(n.tn); auto d = f.GetWalker(n.tn, DOWN); while (d.GetStackSize() + row < n.R) d.EvolveStep(); down = d.GetBMPS(); sim::tag("down_walker"); }
    auto m = line(row, sim::chance("changed_row", 0.5)); same("a walker's row", Z(w.ContractRow(m, down)), amp(n, r));
    auto full = [&](size_t c, Ten<E> &t) { Repl q; for (auto &x : r) if (x.first != S(row, c)) q.push_back(x); q.push_back({S(row, c), n.lab(S(row, c), raw(t))}); return q; };
    SIM_CHECK(throws([&] { Ten<E> t = n.make(S(row, 0)); w.TraceWithBTen(t, 0, down); }), "a walker answered without boundary tensors");
    const bool whole = sim::chance("whole", 0.5); w.InitBTenLeft(m, down, whole ? n.C : 0); w.InitBTenRight(m, down, whole ? 0 : n.C - 1); if (!whole) { w.InitBTenLeft(m, down, n.C - 1); }
    for (size_t c = n.C; c-- > 0;) { auto t = n.make(S(row, c)); same("a walker's replacement", Z(w.TraceWithBTen(t, c, down)), amp(n, full(c, t)));
      if (c + 1 < n.C) { auto u = n.make(S(row, c + 1)); auto q = full(c, t); std::erase_if(q, [&](auto &x) { return x.first == S(row, c + 1); }); q.push_back({S(row, c + 1), n.lab(S(row, c + 1), raw(u))}); same("a walker's pair replacement", Z(w.TraceWithTwoSiteBTen(t, u, c, m, down)), amp(n, q)); }
      if (!whole && c > 0) { if (sim::chance("shift", 0.5)) w.ShiftBTenWindow(m, down, LEFT); else w.GrowBTenRightStep(m, down); } }
    if (!whole && w.GetBTenLeftCol() == 0 && n.C > 1) { w.ShiftBTenWindow(m, down, RIGHT); auto t = n.make(S(row, 1)); same("a walker's replacement after shifting back", Z(w.TraceWithBTen(t, 1, down)), amp(n, full(1, t))); }
    w.ClearBTen(); SIM_CHECK(throws([&] { Ten<E> t = n.make(S(row, 0)); w.TraceWithBTen(t, 0, down); }), "a walker answered from cleared boundary tensors"); sim::tag("walkers");
  }
  void step() {
    const bool hor = sim::chance("horizontal", 0.5); const size_t r = size_t(sim::draw("row", 0, long(n.R) - 1)), c = size_t(sim::draw("col", 0, long(n.C) - 1));
    switch (sim::draw("op", 0, 11)) {
      case 0: case 1: { const size_t q = hor ? (h1 >= 0 && sim::chance("same_line", 0.7) ? size_t(h1) : r) : (v1 >= 0 && sim::chance("same_line", 0.7) ? size_t(v1) : c); reach(hor, q); ask1(hor, hor ? S(q, c) : S(r, q)); break; }
      case 2: case 3: { size_t q = hor ? (h2 >= 0 && sim::chance("same_line", 0.7) ? size_t(h2) : std::min(r, n.R - 2)) : (v2 >= 0 && sim::chance("same_line", 0.7) ? size_t(v2) : std::min(c, n.C - 2)); reach2(hor, q); ask2(hor, hor ? q : std::min(r, n.R - 2), hor ? std::min(c, n.C - 2) : q); break; }
      case 4: case 5: case 6: { size_t s = S(r, c); const long again = sim::draw("then", 0, 3); if (sim::chance("on_line", 0.6)) { if (hor && h1 >= 0) s = S(size_t(h1), c); if (!hor && v1 >= 0) s = S(r, size_t(v1)); if (sim::chance("line2", 0.5)) { if (hor && h2 >= 0) s = S(size_t(h2) + size_t(sim::draw("of2", 0, 1)), c); if (!hor && v2 >= 0) s = S(r, size_t(v2) + size_t(sim::draw("of2", 0, 1))); } } update(s);
        if (again == 1 && h1 >= 0) { reach(true, size_t(h1)); ask1(true, S(size_t(h1), c)); } if (again == 2 && v1 >= 0) { reach(false, size_t(v1)); ask1(false, S(r, size_t(v1))); } if (again == 3 && h2 >= 0) { reach2(true, size_t(h2)); ask2(true, size_t(h2), std::min(c, n.C - 2)); } if (again == 3 && v2 >= 0) { reach2(false, size_t(v2)); ask2(false, std::min(r, n.R - 2), size_t(v2)); } break; }
      case 7: sweep(hor); break;
      case 8: sweep2(hor); break;
      case 9: walker(); break;
      case 10: { const size_t m = size_t(sim::draw("changed", 1, 3)); for (size_t i = 0; i < m; ++i) { const size_t s = size_t(sim::draw("site", 0, long(n.R * n.C) - 1)); n.set(s, n.make(s)); } k->Init(n.tn); h1 = h2 = v1 = v2 = -1; sim::tag("reinit"); break; }
      case 11: { auto o = std::make_unique<K>(*k); const auto keep = n.ref[S(r, c)]; Ten<E> old = n.tn({r, c}); n.set(S(r, c), n.make(S(r, c))); o->EraseEnvsAfterUpdate({r, c}); o->GrowBMPSForRow(n.tn, r); o->GrowFullBTen(n.tn, LEFT, r, 1, true); o->GrowFullBTen(n.tn, RIGHT, r, 1, true); same_hole("the hole of a copy", o->PunchHole(n.tn, {r, c}, HORIZONTAL), n, S(r, c)); Ten<E> now = n.tn({r, c}); same("the trace of a copy", Z(o->ReplaceOneSiteTrace(n.tn, {r, c}, now, HORIZONTAL)), amp(n));
        if (sim::chance("adopt", 0.5)) { *k = std::move(*o); h1 = h2 = v1 = v2 = -1; } else { n.set(S(r, c), old); reach(hor, hor ? r : c); ask1(hor, S(r, c)); } sim::tag("copies"); break; }
    }
  }
};
template<typename E> Open<E> open_net() {
  const long scheme = sim::draw("scheme", 0, 3) == 0 ? sim::draw("variational", 1, 2) : 0; size_t R = size_t(sim::draw("rows", 2, 5)), C = size_t(sim::draw("cols", 2, 5)); if (R * C > 16) R = 3; const bool small = R <= 3 && C <= 3;
  Net<E> n(R, C, false, small ? 0.8 : 0.6, small && scheme == 0 ? 3 : 2, sim::stable_seed("net")); if (scheme == 0 && sim::chance("signs", 0.4)) n.lo = -0.5; n.fill(); return Open<E>(std::move(n), bmps_exact(size_t(scheme)));
}
template<typename E> void open_history() {
  sim::WorldOpts o; o.nranks = 1; auto out = sim::run_world(o, [&](int) {
    std::vector<Open<E>> t; const long m = sim::draw("contractors", 1, 2); for (long i = 0; i < m; ++i) t.push_back(open_net<E>());
    const long steps = sim::draw("steps", 3, 24); for (long i = 0; i < steps; ++i) t[size_t(sim::draw("who", 0, m - 1))].step();
    for (auto &x : t) { x.reach(true, 0); x.ask1(true, 0); }
  }); SIM_CHECK(out.ok(), "the history ended with %s", out.str().c_str());
}
}  // namespace
SCENARIO("P22", torus_histories, 3) { if (sim::chance("cplx", 0.5)) torus_history<Z>(); else torus_history<double>(); }
SCENARIO("P22", open_histories, 4) { if (sim::chance("cplx", 0.5)) open_history<Z>(); else open_history<double>(); }
HARNESS_MAIN
