// P11: states and configurations sent between ranks arrive bit for bit, for any schedule, root, tag and communicator.
#include "models.h"
using namespace hx;

template<typename E> SITPS<E> rand_state(const std::string &nm, bool holes) {
  sim::SplitMix g(sim::stable_seed(nm));
  size_t Ly = 1 + g.below(3), Lx = 1 + g.below(3), d = 1 + g.below(3), D = 1 + g.below(3);
  auto bc = g.below(2) ? BoundaryCondition::Periodic : BoundaryCondition::Open;
  auto s = make_state<E>(Ly, Lx, d, D, g.next(), -1, 1, bc);
  if (holes) for (size_t r = 0; r < Ly; ++r) for (size_t c = 0; c < Lx; ++c) for (size_t k = 0; k < d; ++k) if (g.below(4) == 0) s({r, c})[k] = Ten<E>();
  return s;
}
template<typename E> void bcast() {
  swarm();
  const int n = int(sim::draw("ranks", 1, 6)), rounds = int(sim::draw("rounds", 1, 4));
  std::vector<SITPS<E>> st; std::vector<int> root; std::vector<int> sub;
  for (int k = 0; k < rounds; ++k) { st.push_back(rand_state<E>("s" + std::to_string(k), sim::chance("holes", 0.4))); root.push_back(int(sim::draw("root", 0, n - 1))); sub.push_back(int(sim::draw("comm", 0, 2))); }
  auto stale = rand_state<E>("stale", false);
  sim::WorldOpts o; o.nranks = n;
  auto out = sim::run_world(o, [&](int me) {
    MPI_Comm half, dup; MPI_Comm_split(MPI_COMM_WORLD, me % 2, -me, &half); MPI_Comm_dup(MPI_COMM_WORLD, &dup);
    SITPS<E> v; if (sim::stable_seed("pre") & 1) v = stale;      // whatever the receiver held before must not matter
    for (int k = 0; k < rounds; ++k) {
      MPI_Comm c = sub[k] == 0 ? MPI_COMM_WORLD : sub[k] == 1 ? dup : half;
      int r, sz; MPI_Comm_rank(c, &r); MPI_Comm_size(c, &sz); const int rt = root[k] % sz;
      if (r == rt) v = st[k];
      qlpeps::MPI_Bcast(v, c, rt);
      SIM_CHECK(same_state(v, st[k]), "round %d: rank %d holds a state different from the root's (root %d of %d)", k, me, rt, sz);
    }
    MPI_Barrier(MPI_COMM_WORLD);
  });
  SIM_CHECK(out.ok(), "broadcast did not finish: %s", out.str().c_str());
}
template<typename E> void p2p() {
  swarm();
  const int n = int(sim::draw("ranks", 2, 6)), per = int(sim::draw("per", 1, 3));
  const bool any = sim::chance("any_source", 0.6); const int tag = int(sim::draw("tag", 0, 9)), dest = int(sim::draw("dest", 0, n - 1));
  std::vector<std::vector<SITPS<E>>> st(n);
  for (int r = 0; r < n; ++r) for (int k = 0; k < per; ++k) st[r].push_back(rand_state<E>("s" + std::to_string(r) + "_" + std::to_string(k), sim::chance("holes", 0.4)));
  auto stale = rand_state<E>("stale", false);
  const bool noise = sim::chance("other_tag_traffic", 0.4);
  sim::WorldOpts o; o.nranks = n;
  auto out = sim::run_world(o, [&](int me) {
    if (me != dest) {
      std::vector<double> x(per); std::vector<MPI_Request> rq(per);
      for (int k = 0; k < per; ++k) {
        if (noise) ::MPI_Isend(&x[k], 1, MPI_DOUBLE, dest, tag + 100, MPI_COMM_WORLD, &rq[k]);
        qlpeps::MPI_Send(st[me][k], dest, MPI_COMM_WORLD, tag);
      }
      if (noise) MPI_Waitall(per, rq.data(), MPI_STATUSES_IGNORE);
    } else {
      std::vector<int> seen(n, 0);
      for (int k = 0; k < per * (n - 1); ++k) {
        SITPS<E> v; if (k % 2) v = stale;
        int src = any ? MPI_ANY_SOURCE : (k % (n - 1) + (k % (n - 1) >= dest));
        MPI_Status s = qlpeps::MPI_Recv(v, src, MPI_COMM_WORLD, tag);
        SIM_CHECK(s.MPI_SOURCE >= 0 && s.MPI_SOURCE < n && (any || s.MPI_SOURCE == src), "receive reports source %d", s.MPI_SOURCE);
        int from = s.MPI_SOURCE, i = seen[from]++;
        SIM_CHECK(i < per, "more states than rank %d sent", from);
        SIM_CHECK(same_state(v, st[from][i]), "state %d of rank %d arrived altered (any source %d)", i, from, any);
        sim::event_hash(from);
      }
      if (noise) for (int k = 0; k < per * (n - 1); ++k) { double x; ::MPI_Recv(&x, 1, MPI_DOUBLE, MPI_ANY_SOURCE, tag + 100, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }
    }
  });
  SIM_CHECK(out.ok(), "transfer did not finish: %s", out.str().c_str());
  if (any) sim::tag("any_source");
}
SCENARIO("P11", state_broadcast, 2) { if (sim::chance("cplx", 0.5)) bcast<Z>(); else bcast<double>(); }
SCENARIO("P11", state_point_to_point, 2) { if (sim::chance("cplx", 0.5)) p2p<Z>(); else p2p<double>(); }
SCENARIO("P11", configuration_transfer, 2) {
  swarm();
  const int n = int(sim::draw("ranks", 1, 6)); const size_t Ly = size_t(sim::draw("Ly", 1, 4)), Lx = size_t(sim::draw("Lx", 1, 4));
  const int root = int(sim::draw("root", 0, n - 1)), shift = int(sim::draw("shift", 1, std::max(1, n - 1))), tag = int(sim::draw("tag", 0, 5));
  std::vector<Configuration> c; sim::SplitMix g(sim::stable_seed("c"));
  for (int r = 0; r < n; ++r) { std::vector<size_t> v; for (size_t i = 0; i < Ly * Lx; ++i) v.push_back(g.below(2) ? g.below(5) : g.next()); c.push_back(conf(Ly, Lx, v)); }
  sim::WorldOpts o; o.nranks = n;
  auto out = sim::run_world(o, [&](int me) {
    Configuration a(c[me]);
    MPI_BCast(a, size_t(root), MPI_COMM_WORLD);
    SIM_CHECK(flat(a) == flat(c[root]), "rank %d received a broadcast configuration different from rank %d's", me, root);
    // ring exchange
    Configuration in(Ly, Lx); MPI_Status st; const int dst = (me + shift) % n, src = (me - shift + n) % n;
    MPI_Sendrecv(c[me], size_t(dst), tag, in, size_t(src), tag, MPI_COMM_WORLD, &st);
    SIM_CHECK(flat(in) == flat(c[src]), "rank %d: exchanged configuration is not the one rank %d sent", me, src);
    SIM_CHECK(st.MPI_SOURCE == src, "rank %d: exchange reports source %d, expected %d", me, st.MPI_SOURCE, src);
    // everybody sends to the root
    if (me == root) {
      for (int k = 0; k < n; ++k) if (k != root) { Configuration x(Ly, Lx); MPI_Recv(x, size_t(k), tag + 1, MPI_COMM_WORLD, &st); SIM_CHECK(flat(x) == flat(c[k]), "configuration of rank %d arrived altered", k); }
    } else { Configuration x(c[me]); MPI_Send(x, size_t(root), tag + 1, MPI_COMM_WORLD); }
  });
  SIM_CHECK(out.ok(), "configuration transfer did not finish: %s", out.str().c_str());
}
HARNESS_MAIN
