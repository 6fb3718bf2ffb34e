// Deterministic simulator core: fiber scheduler, simulated MPI, faulty disk, signals, randomness, clock.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "mpi.h"
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <complex>
#include <deque>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
#include <typeinfo>
#include <unordered_map>

struct SimComm { std::vector<int> members; std::vector<uint64_t> seq; int id; };
MPI_Comm sim_comm_world = nullptr, sim_comm_self = nullptr;

namespace sim {
static const char *KN[K_NKINDS] = {"sched_switch", "send_rendezvous", "any_source_order", "collective_sync", "reduce_order", "signal",
                                   "job_kill", "open_fail", "write_error", "short_write", "disk_full", "close_error", "read_error",
                                   "short_read", "mkdir_fail", "rename_fail", "stall", "bitrot"};
const char *kind_name(int k) { return KN[k]; }
static const char *ON[] = {"ok", "deadlock", "mpi_misuse", "mpi_abort", "uncaught_exception", "step_limit", "killed", "exit", "fault", "violation", "leftover_message"};
const char *outcome_name(int k) { return ON[k]; }
std::string Outcome::str() const { return std::string(outcome_name(kind)) + (rank >= 0 ? " on rank " + std::to_string(rank) : "") + (detail.empty() ? "" : ": " + detail); }

std::string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
uint64_t hash_bytes(const void *p, size_t n) {
  const unsigned char *c = (const unsigned char *) p; uint64_t h = 1469598103934665603ull ^ n;
  while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = mix(h, w); c += 8; n -= 8; }
  uint64_t w = 0; if (n) memcpy(&w, c, n);
  return mix(h, w);
}

// ------------------------------------------------------------------ state
struct Fiber {
  ucontext_t ctx;
  bool done = false, blocked = false;
  std::function<bool()> pred;    // valid while blocked
  std::string what;
  std::vector<char> globals;     // private copy of the executable's writable data
  void *eh[2] = {nullptr, nullptr};
  int saved_errno = 0;
  std::map<int, struct sigaction> actions;
  int prio = 0;
  uint64_t stall_until = 0;
};
struct Msg { int src, tag; std::vector<char> data; bool sync; bool taken = false; };
struct Slot {                    // one collective operation instance
  std::string op; int root = -1; long bytes = -1; int rop = 0; int type = 0;
  std::vector<std::vector<char>> contrib; std::vector<std::vector<char>> aux;
  std::vector<char> arrived, left;
  int narr = 0, nleft = 0; bool sync = false; bool reduced = false; std::vector<char> result; MPI_Comm newcomm = nullptr;
};
struct Key { int k, r; uint64_t c; bool operator<(const Key &o) const { return std::tie(k, r, c) < std::tie(o.k, o.r, o.c); } };

struct State {
  // run identity
  uint64_t seed = 0; bool replay = false; bool verbose = false;
  std::map<Key, int> forced;                      // replay decisions
  std::map<Key, int> taken;                       // non-default decisions made
  std::map<std::string, double> draw_override, draws;
  std::map<std::string, uint64_t> draw_count;
  Profile prof;
  std::map<std::pair<int, int>, uint64_t> cnt;    // (kind, rank) -> counter
  int made[K_NKINDS] = {0};
  std::map<std::string, uint64_t> faults;
  std::set<std::string> tags;
  uint64_t hist = 0, sched = 0, ndecide = 0, steps = 0, switches = 0, worlds = 0, maxranks = 0;
  double now = 0;
  std::vector<std::string> tracelines;
  std::vector<Event> events;
  std::vector<SignalEvent> sigs;
  std::map<int, uint64_t> rdev;
  // world
  bool in_world = false; int cur = -1; int n = 0;
  WorldOpts opts; uint64_t world_steps = 0;
  std::vector<std::unique_ptr<Fiber>> fib;
  ucontext_t mainctx; void *main_eh[2]; std::vector<char> main_globals;
  Outcome out;
  const std::function<void(int)> *body = nullptr;
  std::vector<std::unique_ptr<SimComm>> comms;
  std::map<std::pair<int, int>, std::deque<std::shared_ptr<Msg>>> box;   // (comm id, dst) -> messages in arrival order
  std::map<std::pair<int, uint64_t>, std::shared_ptr<Slot>> slots;
  // io
  bool io_faults = false, disk_full = false; uint64_t io_ops = 0; std::string scratch;
  std::map<int, std::string> fds;
};
static State *S = nullptr;
static char *g_data_begin = nullptr, *g_data_end = nullptr;
static std::vector<char> g_pristine;
static std::vector<char *> g_stacks;
static const size_t STACK = 8u << 20;
static std::string g_scratch_root;

struct Capture : std::streambuf {
  std::string s;
  int overflow(int c) override { if (c != EOF && s.size() < (1u << 20)) s.push_back(char(c)); return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { if (s.size() < (1u << 20)) s.append(p, size_t(n)); return n; }
};
static Capture *g_cap = nullptr;
std::string captured() { return g_cap ? g_cap->s : ""; }
void clear_captured() { if (g_cap) g_cap->s.clear(); }

int cur_rank() { return S ? S->cur : -1; }
bool in_world() { return S && S->in_world && S->cur >= 0; }
uint64_t steps() { return S->steps; }
Profile &profile() { return S->prof; }
void note_fault(const std::string &n, uint64_t k) { S->faults[n] += k; }
void tag(const std::string &t) { S->tags.insert(t); }
void restart_random() { S->rdev.clear(); }
void event_hash(uint64_t h) { S->hist = mix(S->hist, h); }
void trace(const std::string &s) { if (S->replay && S->tracelines.size() < 4000) S->tracelines.push_back(s); }
const std::vector<Event> &history() { return S->events; }
void clear_history() { S->events.clear(); }
const std::vector<SignalEvent> &signals_delivered() { return S->sigs; }
uint64_t io_ops() { return S->io_ops; }
void set_io_faults(bool b) { S->io_faults = b; }
void io_heal() { S->disk_full = false; }
std::string scratch() { return S->scratch; }

// ------------------------------------------------------------------ decisions
static int decide_value(Kind k, int n, int rank, std::function<int(SplitMix &)> gen) {
  const uint64_t c = S->cnt[{k, rank}]++;
  Key key{k, rank, c};
  int v = 0;
  if (S->replay) {
    auto it = S->forced.find(key);
    v = it == S->forced.end() ? 0 : it->second;
    if (v >= n) v = n - 1;
  } else {
    SplitMix r(mix(mix(mix(S->seed, uint64_t(k) + 77), uint64_t(rank + 3)), c));
    v = gen(r);
    if (v && S->prof.max_of[k] >= 0 && S->made[k] >= S->prof.max_of[k]) v = 0;
  }
  if (v) { S->taken[key] = v; ++S->made[k]; }
  ++S->ndecide;
  return v;
}
int decide(Kind k, int n) {
  if (n <= 1) return 0;
  const double p = S->prof.p[k];
  return decide_value(k, n, S->cur, [&](SplitMix &r) { return r.uni() < p ? 1 + int(r.below(n - 1)) : 0; });
}
double draw_real(const std::string &name, double lo, double hi) {
  uint64_t c = S->draw_count[name]++;
  std::string full = c ? name + "#" + std::to_string(c) : name;
  uint64_t hs = hash_bytes(full.data(), full.size());
  SplitMix r(mix(S->seed, hs));
  double v = lo + (hi - lo) * r.uni();
  auto it = S->draw_override.find(full);
  if (it != S->draw_override.end()) v = std::min(hi, std::max(lo, it->second));
  S->draws[full] = v;
  return v;
}
long draw(const std::string &name, long lo, long hi) {
  uint64_t c = S->draw_count[name]++;
  std::string full = c ? name + "#" + std::to_string(c) : name;
  SplitMix r(mix(S->seed, hash_bytes(full.data(), full.size())));
  long v = lo + long(r.below(uint64_t(hi - lo + 1)));
  auto it = S->draw_override.find(full);
  if (it != S->draw_override.end()) v = std::min(hi, std::max(lo, long(it->second)));
  S->draws[full] = double(v);
  return v;
}
bool chance(const std::string &name, double p) {
  uint64_t c = S->draw_count[name]++;
  std::string full = c ? name + "#" + std::to_string(c) : name;
  SplitMix r(mix(S->seed, hash_bytes(full.data(), full.size())));
  bool v = r.uni() < p;
  auto it = S->draw_override.find(full);
  if (it != S->draw_override.end()) v = it->second != 0;
  S->draws[full] = v;
  return v;
}
uint64_t stable_seed(const std::string &name) { return mix(S->seed ^ 0x5bd1e995, hash_bytes(name.data(), name.size())); }
uint64_t draw_u64(const std::string &name) { return stable_seed(name + "#" + std::to_string(S->draw_count[name]++)); }

// ------------------------------------------------------------------ fibers
static void swap_out(std::vector<char> &g, void **eh) {
  if (g_data_begin) memcpy(g.data(), g_data_begin, g.size());
  void **p = (void **) abi::__cxa_get_globals();
  eh[0] = p[0]; eh[1] = p[1];
}
static void swap_in(const std::vector<char> &g, void **eh) {
  if (g_data_begin) memcpy(g_data_begin, g.data(), g.size());
  void **p = (void **) abi::__cxa_get_globals();
  p[0] = eh[0]; p[1] = eh[1];
}
[[noreturn]] static void to_main() {
  S->cur = -1; S->in_world = false;
  swap_in(S->main_globals, S->main_eh);
  setcontext(&S->mainctx);
  __builtin_unreachable();
}
[[noreturn]] static void stop_world(OutcomeKind k, int rank, const std::string &d, int code = 0) {
  S->out.kind = k; S->out.rank = rank; S->out.detail = d; S->out.code = code;
  trace(fmt("world stops: %s", S->out.str().c_str()));
  to_main();
}
void violate(const std::string &msg) {
  if (S && S->in_world && S->cur >= 0) stop_world(VIOLATED, S->cur, msg);
  throw Violation{msg};
}
static void switch_to(int r) {
  const int o = S->cur;
  if (o == r) return;
  ++S->switches;
  Fiber &a = *S->fib[o], &b = *S->fib[r];
  swap_out(a.globals, a.eh); a.saved_errno = errno;
  S->cur = r;
  swap_in(b.globals, b.eh);
  swapcontext(&a.ctx, &b.ctx);
  // resumed: whoever switched to us has already restored our globals
  errno = S->fib[S->cur]->saved_errno;
}
static bool runnable(int i) {
  Fiber &f = *S->fib[i];
  if (f.done) return false;
  if (f.blocked) return f.pred();
  return true;
}
static std::string blocked_desc() {
  std::string s;
  for (int i = 0; i < S->n; ++i) s += fmt("%s rank %d %s", i ? ";" : "", i, S->fib[i]->done ? "finished" : ("waits in " + S->fib[i]->what).c_str());
  return s;
}
// choose who runs next; returns only when the current fiber is scheduled again (unless it is done)
static void reschedule() {
  std::vector<int> R;
  const int c = S->cur;
  for (int d = 0; d < S->n; ++d) { int i = (c + d) % S->n; if (runnable(i)) R.push_back(i); }
  if (R.empty()) {
    bool all = true;
    for (auto &f : S->fib) all &= f->done;
    if (all) { S->out = Outcome(); to_main(); }
    stop_world(DEADLOCK, -1, blocked_desc());
  }
  int pick = 0;
  if (R.size() > 1) {
    std::vector<int> A;      // ranks that are not stalled
    for (int i : R) if (S->fib[i]->stall_until <= S->world_steps) A.push_back(i);
    const double p = S->prof.p[K_SCHED]; const int mode = S->prof.sched_mode; const int starve = S->prof.starve;
    pick = decide_value(K_SCHED, int(R.size()), c, [&](SplitMix &r) -> int {
      auto pos = [&](int rk) { return int(std::find(R.begin(), R.end(), rk) - R.begin()); };
      if (mode == 2) {       // priorities, changed at random points
        if (r.uni() < p * 0.3) S->fib[c]->prio = int(r.below(1000)) - 1500;
        int best = A.empty() ? R[0] : A[0];
        for (int i : (A.empty() ? R : A)) if (S->fib[i]->prio > S->fib[best]->prio) best = i;
        return pos(best);
      }
      if (mode == 3) {       // starve one rank
        std::vector<int> B; for (int i : R) if (i != starve) B.push_back(i);
        if (B.empty()) return 0;
        if (R[0] != starve && r.uni() >= p) return 0;
        return pos(B[r.below(B.size())]);
      }
      if (mode == 1 && r.uni() >= p) return 0;
      if (mode == 0 && r.uni() >= std::max(p, 0.05)) return 0;
      return A.empty() ? int(r.below(R.size())) : pos(A[r.below(A.size())]);
    });
  }
  const int nxt = R[pick];
  S->sched = mix(S->sched, uint64_t(nxt) * 131 + 7);
  S->fib[nxt]->blocked = false;
  if (nxt != c) switch_to(nxt);
}
static void step_common(const char *what) {
  ++S->steps; ++S->world_steps; S->now += 1e-3;
  S->sched = mix(S->sched, hash_bytes(what, strlen(what)) + uint64_t(S->cur));
  if (S->world_steps > S->opts.step_limit) stop_world(STEPLIMIT, S->cur, fmt("no completion within %llu scheduling steps; %s", (unsigned long long) S->opts.step_limit, blocked_desc().c_str()));
  if (S->prof.p[K_CRASH] > 0 || S->replay) if (decide(K_CRASH, 2)) { note_fault("job_kill"); stop_world(KILLED, S->cur, std::string("job killed at ") + what); }
  if (S->prof.p[K_SIGNAL] > 0 || S->replay) {
    int d = decide(K_SIGNAL, 3);
    if (d) { int sig = d == 1 ? SIGINT : SIGTERM; deliver_signal(sig); }
  }
  if (S->prof.p[K_STALL] > 0 && S->n > 1) if (decide(K_STALL, 2)) { S->fib[S->cur]->stall_until = S->world_steps + 200; note_fault("stall"); }
}
void yield(const char *what) {
  if (!in_world()) return;
  S->fib[S->cur]->what = what;
  step_common(what);
  if (S->n > 1) reschedule();
}
static void block_until(const std::string &what, std::function<bool()> pred) {
  Fiber &f = *S->fib[S->cur];
  f.what = what;
  if (pred()) return;
  const int me = S->cur;
  while (true) {
    f.pred = pred; f.blocked = true;
    reschedule();
    // we were picked, so pred() held then; nothing ran since
    if (S->cur != me) abort();
    if (pred()) break;
  }
  f.blocked = false;
}
static void fiber_entry() {
  const int me = S->cur;
  try { (*S->body)(me); }
  catch (const Violation &v) { stop_world(VIOLATED, me, v.msg); }
  catch (const std::exception &e) {
    int st; char *dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string d = std::string(dn ? dn : "?") + ": " + e.what(); free(dn);
    stop_world(EXCEPTION, me, d);
  } catch (...) { stop_world(EXCEPTION, me, "unknown exception"); }
  S->fib[me]->done = true; S->fib[me]->what = "done";
  reschedule();
  abort();
}
static MPI_Comm new_comm(const std::vector<int> &m) {
  S->comms.emplace_back(new SimComm{m, std::vector<uint64_t>(m.size(), 0), int(S->comms.size())});
  return S->comms.back().get();
}
Outcome run_world(const WorldOpts &o, const std::function<void(int)> &body) {
  S->opts = o; S->n = o.nranks; S->body = &body; S->world_steps = 0; S->out = Outcome();
  S->io_faults = o.io_faults; S->fib.clear(); S->box.clear(); S->slots.clear(); S->comms.clear();
  std::vector<int> all; for (int i = 0; i < o.nranks; ++i) all.push_back(i);
  sim_comm_world = new_comm(all);
  static SimComm self{{-1}, {0}, -1}; sim_comm_self = &self;
  ++S->worlds; S->maxranks = std::max<uint64_t>(S->maxranks, uint64_t(o.nranks));
  while ((int) g_stacks.size() < o.nranks) g_stacks.push_back((char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  SplitMix pr(mix(S->seed, 4242 + S->worlds));
  for (int i = 0; i < o.nranks; ++i) {
    S->fib.emplace_back(new Fiber);
    Fiber &f = *S->fib.back();
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = g_stacks[i]; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, fiber_entry, 0);
    f.globals = g_pristine; f.prio = int(pr.below(1000));
  }
  S->main_globals.resize(g_pristine.size());
  swap_out(S->main_globals, S->main_eh);
  S->in_world = true;
  S->cur = 0;
  { void *none[2] = {nullptr, nullptr}; swap_in(S->fib[0]->globals, none); }
  if (swapcontext(&S->mainctx, &S->fib[0]->ctx) != 0) abort();
  // back in the driver
  S->in_world = false; S->cur = -1;
  for (auto &kv : S->fds) ::close(kv.first);
  S->fds.clear();
  if (S->out.kind == OK && !o.leftovers_ok) {
    for (auto &kv : S->box) for (auto &m : kv.second) {
      S->out.kind = LEFTOVER; S->out.detail = fmt("message from rank %d to rank %d tag %d (%zu bytes) never received", m->src, kv.first.second, m->tag, m->data.size());
    }
    for (auto &kv : S->slots) if (kv.second->narr > 0) { S->out.kind = LEFTOVER; S->out.detail = "collective " + kv.second->op + " entered by only some ranks"; }
  }
  event_hash(uint64_t(S->out.kind)); event_hash(hash_bytes(S->out.detail.data(), S->out.detail.size()));
  for (auto &m : S->comms) (void) m;
  Outcome r = S->out;
  S->fib.clear();
  if (r.kind == VIOLATED) throw Violation{r.detail};
  return r;
}

// ------------------------------------------------------------------ MPI
static size_t tsize(MPI_Datatype t) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_PACKED: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_CXX_DOUBLE_COMPLEX: case MPI_C_DOUBLE_COMPLEX: case MPI_DOUBLE_COMPLEX: case MPI_DOUBLE_INT: return 16;
    case MPI_DATATYPE_NULL: return 0;
    default: return 8;
  }
}
static int fam(MPI_Datatype t) {   // type family, for signature checks (same-size integer spellings are one family)
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_PACKED: return 0;
    case MPI_DOUBLE: return 3; case MPI_FLOAT: return 4;
    case MPI_CXX_DOUBLE_COMPLEX: case MPI_C_DOUBLE_COMPLEX: case MPI_DOUBLE_COMPLEX: return 5; case MPI_CXX_FLOAT_COMPLEX: return 6;
    default: return 10 + int(tsize(t));
  }
}
static int myrank(MPI_Comm c) {
  if (!c) stop_world(MPI_MISUSE, S->cur, "MPI_COMM_NULL used in communication");
  if (c == sim_comm_self) return 0;
  for (size_t i = 0; i < c->members.size(); ++i) if (c->members[i] == S->cur) return int(i);
  stop_world(MPI_MISUSE, S->cur, "rank not in communicator");
}
static int csize(MPI_Comm c) { return c == sim_comm_self ? 1 : int(c->members.size()); }
static void need_world(const char *f) { if (!in_world()) { fprintf(stderr, "sim: %s outside a simulated world\n", f); _exit(9); } }
static void log_event(const char *op, int a, int b, uint64_t bytes, uint64_t h) {
  S->hist = mix(S->hist, mix(mix(uint64_t(S->cur), hash_bytes(op, strlen(op))), mix(uint64_t(a) * 31 + uint64_t(b), mix(bytes, h))));
  if (S->events.size() < 200000) S->events.push_back(Event{S->cur, op, a, b, bytes, h, S->steps});
  if (S->replay && S->verbose) trace(fmt("[%llu] rank %d %s a=%d b=%d bytes=%llu h=%016llx", (unsigned long long) S->steps, S->cur, op, a, b, (unsigned long long) bytes, (unsigned long long) h));
}

static std::shared_ptr<Msg> post_send(const void *buf, size_t bytes, int dest, int tag, MPI_Comm c, bool sync) {
  const int me = myrank(c);
  if (dest < 0 || dest >= csize(c)) stop_world(MPI_MISUSE, S->cur, fmt("send to invalid rank %d", dest));
  auto m = std::make_shared<Msg>();
  m->src = me; m->tag = tag; m->sync = sync;
  m->data.assign((const char *) buf, (const char *) buf + bytes);
  S->box[{c->id, dest}].push_back(m);
  log_event("send", dest, tag, bytes, hash_bytes(buf, bytes));
  return m;
}
static std::vector<std::shared_ptr<Msg>> candidates(MPI_Comm c, int me, int src, int tag) {
  std::vector<std::shared_ptr<Msg>> r; std::set<int> seen;
  for (auto &m : S->box[{c->id, me}]) {
    if ((src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag)) if (seen.insert(m->src).second) r.push_back(m);
  }
  return r;
}
static void take(MPI_Comm c, int me, const std::shared_ptr<Msg> &m) {
  auto &q = S->box[{c->id, me}];
  q.erase(std::find(q.begin(), q.end(), m)); m->taken = true;
}
static void complete_recv(MPI_Comm c, int me, int src, int tag, void *buf, size_t cap, MPI_Status *st) {
  auto cand = candidates(c, me, src, tag);
  std::sort(cand.begin(), cand.end(), [](auto &a, auto &b) { return a->src < b->src; });
  size_t k = 0;
  if (src == MPI_ANY_SOURCE && cand.size() > 1) { k = size_t(decide(K_ANYSRC, int(cand.size()))); if (k) note_fault("any_source_reorder"); }
  auto m = cand[k];
  take(c, me, m);
  if (m->data.size() > cap) stop_world(MPI_MISUSE, S->cur, fmt("message of %zu bytes truncated by receive of %zu bytes (source %d, tag %d)", m->data.size(), cap, m->src, m->tag));
  memcpy(buf, m->data.data(), m->data.size());
  if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->sim_bytes = m->data.size(); }
  log_event("recv", m->src, m->tag, m->data.size(), hash_bytes(buf, m->data.size()));
}
}  // namespace sim
using namespace sim;

extern "C" {
double sim_now(void) { return S ? S->now : 0.0; }
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int req, int *p) { if (p) *p = req; return 0; }
int MPI_Initialized(int *f) { *f = in_world(); return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int code) { need_world("MPI_Abort"); stop_world(ABORTED, S->cur, fmt("MPI_Abort(%d)", code), code); }
double MPI_Wtime(void) { return sim_now(); }
int MPI_Comm_rank(MPI_Comm c, int *r) { need_world("MPI_Comm_rank"); *r = myrank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { need_world("MPI_Comm_size"); if (!c) stop_world(MPI_MISUSE, S->cur, "MPI_COMM_NULL"); *s = csize(c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? MPI_IDENT : (a && b && a->members == b->members ? MPI_CONGRUENT : MPI_UNEQUAL); return 0; }
int MPI_Error_string(int e, char *s, int *l) { *l = snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", e); return 0; }
int MPI_Get_processor_name(char *s, int *l) { *l = snprintf(s, MPI_MAX_PROCESSOR_NAME, "simhost"); return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = int(tsize(t)); return 0; }
int MPI_Dims_create(int n, int nd, int *d) {
  int fixed = 1, freec = 0;
  for (int i = 0; i < nd; ++i) if (d[i] > 0) fixed *= d[i]; else ++freec;
  int rem = n / fixed;
  if (nd == 2 && freec == 2) { int a = 1; for (int k = 1; k * k <= rem; ++k) if (rem % k == 0) a = k; d[0] = rem / a; d[1] = a; return 0; }
  for (int i = 0; i < nd; ++i) if (d[i] <= 0) { d[i] = rem; rem = 1; }
  return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  need_world("MPI_Send"); yield("MPI_Send");
  if (dest == MPI_PROC_NULL) return 0;
  bool sync = decide(K_SENDMODE, 2) == 1;
  auto m = post_send(b, size_t(n) * tsize(t), dest, tag, c, sync);
  if (sync) { note_fault("send_rendezvous"); block_until(fmt("MPI_Send(dest=%d tag=%d)", dest, tag), [m] { return m->taken; }); }
  return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  need_world("MPI_Ssend"); yield("MPI_Ssend");
  if (dest == MPI_PROC_NULL) return 0;
  auto m = post_send(b, size_t(n) * tsize(t), dest, tag, c, true);
  block_until(fmt("MPI_Ssend(dest=%d tag=%d)", dest, tag), [m] { return m->taken; });
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st) {
  need_world("MPI_Recv"); yield("MPI_Recv");
  if (src == MPI_PROC_NULL) return 0;
  const int me = myrank(c);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= csize(c))) stop_world(MPI_MISUSE, S->cur, fmt("receive from invalid rank %d", src));
  block_until(fmt("MPI_Recv(source=%d tag=%d)", src, tag), [=] { return !candidates(c, me, src, tag).empty(); });
  complete_recv(c, me, src, tag, b, size_t(n) * tsize(t), st);
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
  need_world("MPI_Probe"); yield("MPI_Probe");
  const int me = myrank(c);
  block_until(fmt("MPI_Probe(source=%d tag=%d)", src, tag), [=] { return !candidates(c, me, src, tag).empty(); });
  auto m = candidates(c, me, src, tag)[0];
  if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->sim_bytes = m->data.size(); }
  return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
  need_world("MPI_Iprobe"); yield("MPI_Iprobe");
  auto v = candidates(c, myrank(c), src, tag); *flag = !v.empty();
  if (*flag && st) { st->MPI_SOURCE = v[0]->src; st->MPI_TAG = v[0]->tag; st->MPI_ERROR = 0; st->sim_bytes = v[0]->data.size(); }
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = int(st->sim_bytes / tsize(t)); return 0; }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int dest, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
  need_world("MPI_Sendrecv"); yield("MPI_Sendrecv");
  std::shared_ptr<Msg> m;
  if (dest != MPI_PROC_NULL) m = post_send(sb, size_t(sn) * tsize(stt), dest, stag, c, false);
  if (src != MPI_PROC_NULL) {
    const int me = myrank(c);
    block_until(fmt("MPI_Sendrecv(dest=%d source=%d tag=%d)", dest, src, rtag), [=] { return !candidates(c, me, src, rtag).empty(); });
    complete_recv(c, me, src, rtag, rb, size_t(rn) * tsize(rt), st);
  }
  if (m && decide(K_SENDMODE, 2)) { note_fault("send_rendezvous"); block_until(fmt("MPI_Sendrecv(dest=%d)", dest), [m] { return m->taken; }); }
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int dest, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st) {
  std::vector<char> cp((char *) b, (char *) b + size_t(n) * tsize(t));
  return MPI_Sendrecv(cp.data(), n, t, dest, stag, b, n, t, src, rtag, c, st);
}
struct SimReq { bool send; std::shared_ptr<Msg> m; void *buf; size_t cap; int src, tag; MPI_Comm c; bool sync; };
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request *r) {
  need_world("MPI_Isend"); yield("MPI_Isend");
  bool sync = decide(K_SENDMODE, 2) == 1;
  *r = new SimReq{true, dest == MPI_PROC_NULL ? nullptr : post_send(b, size_t(n) * tsize(t), dest, tag, c, sync), nullptr, 0, 0, 0, c, sync};
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) {
  need_world("MPI_Irecv"); yield("MPI_Irecv");
  *r = new SimReq{false, nullptr, b, size_t(n) * tsize(t), src, tag, c, false};
  return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
  need_world("MPI_Wait"); yield("MPI_Wait");
  if (!*r) return 0;
  SimReq *q = *r;
  if (q->send) { auto m = q->m; if (m && q->sync) block_until("MPI_Wait(send)", [m] { return m->taken; }); }
  else if (q->src != MPI_PROC_NULL) {
    const int me = myrank(q->c); auto c = q->c; int s = q->src, t = q->tag;
    block_until(fmt("MPI_Wait(recv source=%d tag=%d)", s, t), [=] { return !candidates(c, me, s, t).empty(); });
    complete_recv(c, me, s, t, q->buf, q->cap, st);
  }
  delete q; *r = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { for (int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : nullptr); return 0; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st) {
  need_world("MPI_Test"); yield("MPI_Test");
  *flag = 1; if (!*r) return 0;
  SimReq *q = *r;
  if (q->send) { if (q->m && q->sync && !q->m->taken) { *flag = 0; return 0; } }
  else { if (candidates(q->c, myrank(q->c), q->src, q->tag).empty()) { *flag = 0; return 0; } complete_recv(q->c, myrank(q->c), q->src, q->tag, q->buf, q->cap, st); }
  delete q; *r = MPI_REQUEST_NULL; return 0;
}
}  // extern C

// ------------------------------------------------------------------ collectives
namespace sim {
static std::shared_ptr<Slot> enter(MPI_Comm c, const char *op, int root, long bytes, int rop, int type, bool check_bytes) {
  need_world(op); yield(op);
  const int me = myrank(c);
  const int n = csize(c);
  if (c == sim_comm_self) { auto s = std::make_shared<Slot>(); s->op = op; s->contrib.resize(1); s->aux.resize(1); s->arrived.assign(1, 1); s->left.assign(1, 0); s->narr = 1; s->bytes = bytes; s->rop = rop; s->type = type; return s; }
  if (root >= n || root < -1) stop_world(MPI_MISUSE, S->cur, fmt("%s with invalid root %d", op, root));
  const uint64_t q = c->seq[me]++;
  auto &sp = S->slots[{c->id, q}];
  if (!sp) {
    sp = std::make_shared<Slot>();
    sp->op = op; sp->root = root; sp->bytes = check_bytes ? bytes : -1; sp->rop = rop; sp->type = fam(type);
    sp->contrib.resize(n); sp->aux.resize(n); sp->arrived.assign(n, 0); sp->left.assign(n, 0);
    sp->sync = decide(K_COLLSYNC, 2) == 1;
    if (sp->sync && n > 1) note_fault("collective_sync");
  } else {
    if (sp->op != op || sp->root != root || sp->rop != rop)
      stop_world(MPI_MISUSE, S->cur, fmt("mismatched collectives: rank %d calls %s(root=%d) as its collective #%llu where another rank called %s(root=%d)", S->cur, op, root, (unsigned long long) q, sp->op.c_str(), sp->root));
    if (check_bytes && sp->bytes >= 0 && sp->bytes != bytes)
      stop_world(MPI_MISUSE, S->cur, fmt("mismatched collectives: rank %d calls %s with %ld bytes where another rank passed %ld bytes", S->cur, op, bytes, sp->bytes));
    if (check_bytes && bytes > 0 && sp->type != fam(type) && fam(type) != 0 && sp->type != 0)
      stop_world(MPI_MISUSE, S->cur, fmt("mismatched collectives: %s called with different data types", op));
  }
  sp->arrived[me] = 1; ++sp->narr;
  return sp;
}
static void leave(MPI_Comm c, std::shared_ptr<Slot> s) {
  if (c == sim_comm_self) return;
  const int me = myrank(c);
  if (s->sync) { const int n = csize(c); block_until(fmt("%s", s->op.c_str()), [s, n] { return s->narr == n; }); }
  s->left[me] = 1;
  if (++s->nleft == csize(c)) for (auto it = S->slots.begin(); it != S->slots.end(); ++it) if (it->second == s) { S->slots.erase(it); break; }
}
static void wait_all(MPI_Comm c, std::shared_ptr<Slot> s) { const int n = csize(c); block_until(s->op, [s, n] { return s->narr == n; }); }
static void wait_root(std::shared_ptr<Slot> s, int root) { block_until(s->op + "(root " + std::to_string(root) + ")", [s, root] { return s->arrived[root] != 0; }); }

template<typename T> static void red_t(char *a, const char *b, size_t n, int op) {
  T *x = (T *) a; const T *y = (const T *) b;
  for (size_t i = 0; i < n; ++i) switch (op) {
    case MPI_SUM: x[i] = T(x[i] + y[i]); break;
    case MPI_PROD: x[i] = T(x[i] * y[i]); break;
    case MPI_MAX: x[i] = y[i] > x[i] ? y[i] : x[i]; break;
    case MPI_MIN: x[i] = y[i] < x[i] ? y[i] : x[i]; break;
    case MPI_LAND: x[i] = T(x[i] && y[i]); break;
    case MPI_LOR: x[i] = T(x[i] || y[i]); break;
    case MPI_LXOR: x[i] = T(!x[i] != !y[i]); break;
    default:
      if constexpr (std::is_integral_v<T>) { if (op == MPI_BAND) x[i] &= y[i]; else if (op == MPI_BOR) x[i] |= y[i]; else if (op == MPI_BXOR) x[i] ^= y[i]; break; }
  }
}
template<typename T> static void red_c(char *a, const char *b, size_t n, int op) {
  T *x = (T *) a; const T *y = (const T *) b;
  for (size_t i = 0; i < n; ++i) if (op == MPI_PROD) x[i] *= y[i]; else x[i] += y[i];
}
static void red(std::vector<char> &a, const std::vector<char> &b, MPI_Datatype t, int op) {
  size_t n = a.size() / tsize(t);
  char *x = a.data(); const char *y = b.data();
  switch (t) {
    case MPI_DOUBLE: red_t<double>(x, y, n, op); break;
    case MPI_FLOAT: red_t<float>(x, y, n, op); break;
    case MPI_INT: case MPI_INT32_T: red_t<int>(x, y, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: red_t<unsigned>(x, y, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: red_t<long long>(x, y, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red_t<unsigned long long>(x, y, n, op); break;
    case MPI_CXX_DOUBLE_COMPLEX: case MPI_C_DOUBLE_COMPLEX: case MPI_DOUBLE_COMPLEX: red_c<std::complex<double>>(x, y, n, op); break;
    case MPI_CXX_FLOAT_COMPLEX: red_c<std::complex<float>>(x, y, n, op); break;
    case MPI_C_BOOL: case MPI_CXX_BOOL: case MPI_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_UINT8_T: red_t<unsigned char>(x, y, n, op); break;
    case MPI_SIGNED_CHAR: case MPI_INT8_T: red_t<signed char>(x, y, n, op); break;
    case MPI_SHORT: case MPI_INT16_T: red_t<short>(x, y, n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: red_t<unsigned short>(x, y, n, op); break;
    default: stop_world(MPI_MISUSE, S->cur, "reduction on unsupported type");
  }
}
static void reduce_slot(std::shared_ptr<Slot> s, MPI_Datatype t, int op) {
  if (s->reduced) return;
  s->reduced = true;
  const int n = int(s->contrib.size());
  std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = i;
  int k = n > 2 ? decide(K_REDORDER, n) : 0;      // rotate, and reverse on odd choices
  if (k) { std::rotate(ord.begin(), ord.begin() + k, ord.end()); if (k % 2) std::reverse(ord.begin(), ord.end()); note_fault("reduce_order"); }
  s->result = s->contrib[ord[0]];
  for (int i = 1; i < n; ++i) red(s->result, s->contrib[ord[i]], t, op);
}
static std::vector<char> bytes_of(const void *p, size_t n) { return n ? std::vector<char>((const char *) p, (const char *) p + n) : std::vector<char>(); }
}  // namespace sim

extern "C" {
int MPI_Barrier(MPI_Comm c) { auto s = enter(c, "MPI_Barrier", -1, 0, 0, MPI_CHAR, true); log_event("barrier", 0, 0, 0, 0); wait_all(c, s); leave(c, s); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  const size_t nb = size_t(n) * tsize(t);
  auto s = enter(c, "MPI_Bcast", root, long(nb), 0, t, true);
  const int me = myrank(c);
  if (me == root) { s->contrib[root == -1 ? 0 : root] = bytes_of(b, nb); }
  else { wait_root(s, root); if (nb) memcpy(b, s->contrib[root].data(), nb); }
  log_event("bcast", root, 0, nb, hash_bytes(b, nb));
  leave(c, s); return 0;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  const size_t nb = size_t(n) * tsize(t);
  auto s = enter(c, "MPI_Reduce", root, long(nb), op, t, true);
  const int me = myrank(c);
  s->contrib[me] = bytes_of(sb == MPI_IN_PLACE ? rb : sb, nb);
  log_event("reduce", root, op, nb, hash_bytes(s->contrib[me].data(), nb));
  if (me == root) { wait_all(c, s); reduce_slot(s, t, op); if (nb) memcpy(rb, s->result.data(), nb); }
  leave(c, s); return 0;
}
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  const size_t nb = size_t(n) * tsize(t);
  auto s = enter(c, "MPI_Allreduce", -1, long(nb), op, t, true);
  s->contrib[myrank(c)] = bytes_of(sb == MPI_IN_PLACE ? rb : sb, nb);
  log_event("allreduce", 0, op, nb, hash_bytes(s->contrib[myrank(c)].data(), nb));
  wait_all(c, s); reduce_slot(s, t, op); if (nb) memcpy(rb, s->result.data(), nb);
  leave(c, s); return 0;
}
static void scan_impl(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool incl) {
  const size_t nb = size_t(n) * tsize(t);
  auto s = enter(c, incl ? "MPI_Scan" : "MPI_Exscan", -1, long(nb), op, t, true);
  const int me = myrank(c);
  s->contrib[me] = bytes_of(sb == MPI_IN_PLACE ? rb : sb, nb);
  wait_all(c, s);
  std::vector<char> acc; bool have = false;
  for (int i = 0; i < me + (incl ? 1 : 0); ++i) { if (!have) { acc = s->contrib[i]; have = true; } else red(acc, s->contrib[i], t, op); }
  if (have && nb) memcpy(rb, acc.data(), nb);
  leave(c, s);
}
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { scan_impl(sb, rb, n, t, op, c, true); return 0; }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { scan_impl(sb, rb, n, t, op, c, false); return 0; }
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  const size_t nb = size_t(sn) * tsize(st);
  auto s = enter(c, "MPI_Gather", root, sb == MPI_IN_PLACE ? long(size_t(rn) * tsize(rt)) : long(nb), 0, sb == MPI_IN_PLACE ? rt : st, true);
  const int me = myrank(c);
  if (sb != MPI_IN_PLACE) s->contrib[me] = bytes_of(sb, nb);
  log_event("gather", root, 0, nb, hash_bytes(s->contrib[me].data(), s->contrib[me].size()));
  if (me == root) {
    wait_all(c, s);
    const size_t rbs = size_t(rn) * tsize(rt);
    for (int i = 0; i < csize(c); ++i) { if (i == me && sb == MPI_IN_PLACE) continue;
      if (s->contrib[i].size() > rbs) stop_world(MPI_MISUSE, S->cur, "MPI_Gather: contribution larger than the receive slot");
      if (!s->contrib[i].empty()) memcpy((char *) rb + rbs * size_t(i), s->contrib[i].data(), s->contrib[i].size()); }
  }
  leave(c, s); return 0;
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *dis, MPI_Datatype rt, int root, MPI_Comm c) {
  const size_t nb = size_t(sn) * tsize(st);
  auto s = enter(c, "MPI_Gatherv", root, 0, 0, st, false);
  const int me = myrank(c);
  if (sb != MPI_IN_PLACE) s->contrib[me] = bytes_of(sb, nb);
  log_event("gatherv", root, 0, nb, hash_bytes(s->contrib[me].data(), s->contrib[me].size()));
  if (me == root) {
    wait_all(c, s);
    for (int i = 0; i < csize(c); ++i) { if (i == me && sb == MPI_IN_PLACE) continue;
      if (s->contrib[i].size() != size_t(rc[i]) * tsize(rt)) stop_world(MPI_MISUSE, S->cur, fmt("MPI_Gatherv: rank %d sent %zu bytes, %zu expected", i, s->contrib[i].size(), size_t(rc[i]) * tsize(rt)));
      if (!s->contrib[i].empty()) memcpy((char *) rb + tsize(rt) * size_t(dis[i]), s->contrib[i].data(), s->contrib[i].size()); }
  }
  leave(c, s); return 0;
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  const size_t rbs = size_t(rn) * tsize(rt);
  auto s = enter(c, "MPI_Allgather", -1, long(rbs), 0, rt, true);
  const int me = myrank(c);
  s->contrib[me] = sb == MPI_IN_PLACE ? bytes_of((char *) rb + rbs * size_t(me), rbs) : bytes_of(sb, size_t(sn) * tsize(st));
  log_event("allgather", 0, 0, rbs, hash_bytes(s->contrib[me].data(), s->contrib[me].size()));
  wait_all(c, s);
  for (int i = 0; i < csize(c); ++i) {
    if (s->contrib[i].size() != rbs) stop_world(MPI_MISUSE, S->cur, "MPI_Allgather: size mismatch");
    if (rbs) memcpy((char *) rb + rbs * size_t(i), s->contrib[i].data(), rbs); }
  leave(c, s); return 0;
}
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rc, const int *dis, MPI_Datatype rt, MPI_Comm c) {
  auto s = enter(c, "MPI_Allgatherv", -1, 0, 0, rt, false);
  const int me = myrank(c);
  s->contrib[me] = sb == MPI_IN_PLACE ? bytes_of((char *) rb + tsize(rt) * size_t(dis[me]), size_t(rc[me]) * tsize(rt)) : bytes_of(sb, size_t(sn) * tsize(st));
  wait_all(c, s);
  for (int i = 0; i < csize(c); ++i) {
    if (s->contrib[i].size() != size_t(rc[i]) * tsize(rt)) stop_world(MPI_MISUSE, S->cur, "MPI_Allgatherv: size mismatch");
    if (!s->contrib[i].empty()) memcpy((char *) rb + tsize(rt) * size_t(dis[i]), s->contrib[i].data(), s->contrib[i].size()); }
  leave(c, s); return 0;
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  auto s = enter(c, "MPI_Scatter", root, 0, 0, rt, false);
  const int me = myrank(c); const size_t sbs = size_t(sn) * tsize(st);
  if (me == root) for (int i = 0; i < csize(c); ++i) s->contrib[i] = bytes_of((const char *) sb + sbs * size_t(i), sbs);
  else wait_root(s, root);
  if (rb != MPI_IN_PLACE) { if (s->contrib[me].size() > size_t(rn) * tsize(rt)) stop_world(MPI_MISUSE, S->cur, "MPI_Scatter: truncation"); if (!s->contrib[me].empty()) memcpy(rb, s->contrib[me].data(), s->contrib[me].size()); }
  leave(c, s); return 0;
}
int MPI_Scatterv(const void *sb, const int *sc, const int *dis, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  auto s = enter(c, "MPI_Scatterv", root, 0, 0, rt, false);
  const int me = myrank(c);
  if (me == root) for (int i = 0; i < csize(c); ++i) s->contrib[i] = bytes_of((const char *) sb + tsize(st) * size_t(dis[i]), size_t(sc[i]) * tsize(st));
  else wait_root(s, root);
  if (rb != MPI_IN_PLACE) { if (s->contrib[me].size() > size_t(rn) * tsize(rt)) stop_world(MPI_MISUSE, S->cur, "MPI_Scatterv: truncation"); if (!s->contrib[me].empty()) memcpy(rb, s->contrib[me].data(), s->contrib[me].size()); }
  leave(c, s); return 0;
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) {
  const size_t bs = size_t(sn) * tsize(st);
  auto s = enter(c, "MPI_Alltoall", -1, long(bs), 0, st, true);
  const int me = myrank(c);
  s->contrib[me] = bytes_of(sb, bs * size_t(csize(c)));
  wait_all(c, s);
  for (int i = 0; i < csize(c); ++i) memcpy((char *) rb + size_t(rn) * tsize(rt) * size_t(i), s->contrib[i].data() + bs * size_t(me), bs);
  leave(c, s); return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  auto s = enter(c, "MPI_Comm_dup", -1, 0, 0, MPI_CHAR, true);
  wait_all(c, s);
  if (!s->newcomm) s->newcomm = new_comm(c->members);
  *o = s->newcomm; leave(c, s); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
  auto s = enter(c, "MPI_Comm_split", -1, 0, 0, MPI_CHAR, true);
  const int me = myrank(c); int ck[2] = {color, key};
  s->contrib[me] = bytes_of(ck, sizeof ck);
  wait_all(c, s);
  std::vector<std::tuple<int, int>> mem;
  for (int i = 0; i < csize(c); ++i) { int q[2]; memcpy(q, s->contrib[i].data(), sizeof q); if (q[0] == color) mem.emplace_back(q[1], i); }
  std::sort(mem.begin(), mem.end());
  std::vector<int> g; for (auto &m : mem) g.push_back(c->members[std::get<1>(m)]);
  const int lead = std::get<1>(mem[0]);
  if (s->aux[lead].empty()) { MPI_Comm nc = new_comm(g); s->aux[lead] = bytes_of(&nc, sizeof nc); }
  if (color == MPI_UNDEFINED) *o = MPI_COMM_NULL; else memcpy(o, s->aux[lead].data(), sizeof *o);
  leave(c, s); return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  if (!in_world()) return 0;
  // collective in MPI; implementations may return early
  auto s = enter(*c, "MPI_Comm_free", -1, 0, 0, MPI_CHAR, true);
  leave(*c, s); *c = MPI_COMM_NULL; return 0;
}

// ------------------------------------------------------------------ process control
void exit(int code) {
  if (in_world()) stop_world(EXITED, S->cur, fmt("exit(%d)", code), code);
  static void (*real)(int) = (void (*)(int)) dlsym(RTLD_NEXT, "exit"); real(code); __builtin_unreachable();
}
void abort(void) {
  if (in_world()) stop_world(FAULT, S->cur, "abort()");
  static void (*real)(void) = (void (*)(void)) dlsym(RTLD_NEXT, "abort"); real(); __builtin_unreachable();
}
static int real_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  static int (*real)(int, const struct sigaction *, struct sigaction *) = (int (*)(int, const struct sigaction *, struct sigaction *)) dlsym(RTLD_NEXT, "sigaction");
  return real(s, a, o);
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  if (in_world()) {
    auto &m = S->fib[S->cur]->actions;
    if (o) { memset(o, 0, sizeof *o); if (m.count(sig)) *o = m[sig]; }
    if (a) m[sig] = *a;
    return 0;
  }
  return real_sigaction(sig, a, o);
}
sighandler_t signal(int sig, sighandler_t h) {
  if (in_world()) {
    auto &m = S->fib[S->cur]->actions;
    sighandler_t old = m.count(sig) ? m[sig].sa_handler : SIG_DFL;
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; m[sig] = a; return old;
  }
  static sighandler_t (*real)(int, sighandler_t) = (sighandler_t (*)(int, sighandler_t)) dlsym(RTLD_NEXT, "signal");
  return real(sig, h);
}
}  // extern C
namespace sim {
bool signal_handler_installed(int r, int sig) {
  auto &m = S->fib[r]->actions; auto it = m.find(sig);
  return it != m.end() && it->second.sa_handler != SIG_DFL;
}
void deliver_signal(int sig) {
  auto &m = S->fib[S->cur]->actions; auto it = m.find(sig);
  struct sigaction a; memset(&a, 0, sizeof a); if (it != m.end()) a = it->second;
  if (a.sa_handler == SIG_IGN) return;
  S->sigs.push_back({S->cur, sig, S->steps});
  note_fault("signal");
  trace(fmt("signal %d to rank %d at step %llu", sig, S->cur, (unsigned long long) S->steps));
  if (a.sa_handler == SIG_DFL && !(a.sa_flags & SA_SIGINFO)) stop_world(KILLED, S->cur, fmt("signal %d with no handler installed", sig), sig);
  if (a.sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; a.sa_sigaction(sig, &si, nullptr); }
  else a.sa_handler(sig);
}
}

// ------------------------------------------------------------------ randomness
// All std::random_device instances draw from the seeded per-rank stream.
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_init(const char *, size_t) {}
void random_device::_M_init_pretr1(const std::string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  const int r = sim::S ? sim::S->cur : -1;
  uint64_t c = sim::S ? sim::S->rdev[r]++ : 0;
  sim::SplitMix m(sim::mix(sim::mix(sim::S ? sim::S->seed : 0, uint64_t(r + 5)), c + 99));
  return result_type(m.next());
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32.0; }
}

// ------------------------------------------------------------------ disk
namespace sim {
static std::string abspath(const char *p) {
  if (p[0] == '/') return p;
  char b[4096]; if (!getcwd(b, sizeof b)) return p;
  return std::string(b) + "/" + p;
}
static bool ours(const char *p) { return in_world() && !S->scratch.empty() && abspath(p).compare(0, S->scratch.size(), S->scratch) == 0; }
static std::string rel(const std::string &p) { return p.compare(0, S->scratch.size(), S->scratch) == 0 ? p.substr(S->scratch.size()) : p; }
static void io_log(const char *op, const std::string &path, long r) {
  std::string q = rel(path);
  log_event(op, int(r > 1000000 ? 1000000 : r), 0, 0, hash_bytes(q.data(), q.size()));
  if (S->replay) trace(fmt("[%llu] rank %d %s %s -> %ld", (unsigned long long) S->steps, S->cur, op, q.c_str(), r));
}
static bool fault(Kind k) {
  if (!S->io_faults) return false;
  if (decide(k, 2)) { note_fault(kind_name(k)); return true; }
  return false;
}
}
extern "C" {
static FILE *fopen_common(const char *p, const char *m, const char *sym) {
  FILE *(*real)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, sym);
  if (!ours(p)) return real(p, m);
  yield("open"); ++S->io_ops;
  const bool wr = strpbrk(m, "wa+") != nullptr;
  std::string ap = abspath(p);
  if (fault(K_OPENFAIL)) { io_log(wr ? "open_w_FAIL" : "open_r_FAIL", ap, -1); errno = wr ? ENOSPC : EIO; return nullptr; }
  FILE *f = real(p, m);
  if (f) S->fds[fileno(f)] = ap;
  io_log(wr ? "open_w" : "open_r", ap, f ? 0 : -1);
  return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_common(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(p, m, "fopen64"); }
int fclose(FILE *f) {
  static int (*real)(FILE *) = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(f);
  if (in_world()) {
    auto it = S->fds.find(fd);
    if (it != S->fds.end()) {
      yield("close"); ++S->io_ops;
      it = S->fds.find(fd);
      std::string ap = it->second; S->fds.erase(it);
      bool bad = fault(K_CLOSEFAIL);
      int r = real(f);
      io_log(bad ? "close_FAIL" : "close", ap, bad ? -1 : r);
      if (bad) { errno = EIO; return EOF; }
      return r;
    }
  }
  return real(f);
}
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*real)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t)) dlsym(RTLD_NEXT, "write");
  if (!in_world() || !S->fds.count(fd)) return real(fd, b, n);
  yield("write"); ++S->io_ops;
  std::string ap = S->fds[fd];
  if (S->disk_full) { note_fault("disk_full_write"); io_log("write_ENOSPC", ap, -1); errno = ENOSPC; return -1; }
  if (fault(K_DISKFULL)) {       // some bytes fit, then the disk stays full
    S->disk_full = true;
    size_t part = n > 1 ? n / 2 : 0;
    ssize_t r = part ? real(fd, b, part) : -1;
    io_log("write_torn_then_full", ap, r); if (r < 0) errno = ENOSPC; return r;
  }
  if (fault(K_WRITEFAIL)) { io_log("write_EIO", ap, -1); errno = EIO; return -1; }
  size_t m = n;
  if (n > 1 && fault(K_SHORTWRITE)) m = 1 + (n - 1) / 2;
  ssize_t r = real(fd, b, m);
  io_log("write", ap, r);
  return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static ssize_t (*real)(int, const struct iovec *, int) = (ssize_t (*)(int, const struct iovec *, int)) dlsym(RTLD_NEXT, "writev");
  if (!in_world() || !S->fds.count(fd)) return real(fd, v, c);
  std::vector<char> all;
  for (int i = 0; i < c; ++i) all.insert(all.end(), (char *) v[i].iov_base, (char *) v[i].iov_base + v[i].iov_len);
  return write(fd, all.data(), all.size());
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*real)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t)) dlsym(RTLD_NEXT, "read");
  if (!in_world() || !S->fds.count(fd)) return real(fd, b, n);
  yield("read"); ++S->io_ops;
  std::string ap = S->fds[fd];
  if (fault(K_READFAIL)) { io_log("read_EIO", ap, -1); errno = EIO; return -1; }
  size_t m = n;
  if (n > 1 && fault(K_SHORTREAD)) m = 1 + (std::min<size_t>(n, 64)) / 2;
  ssize_t r = real(fd, b, m);
  io_log("read", ap, r);
  return r;
}
int mkdir(const char *p, mode_t m) {
  static int (*real)(const char *, mode_t) = (int (*)(const char *, mode_t)) dlsym(RTLD_NEXT, "mkdir");
  if (!ours(p)) return real(p, m);
  yield("mkdir"); ++S->io_ops;
  if (fault(K_MKDIRFAIL)) { io_log("mkdir_FAIL", abspath(p), -1); errno = ENOSPC; return -1; }
  int r = real(p, m); int e = errno;
  io_log("mkdir", abspath(p), r); errno = e;
  return r;
}
int rename(const char *a, const char *b) {
  static int (*real)(const char *, const char *) = (int (*)(const char *, const char *)) dlsym(RTLD_NEXT, "rename");
  if (!ours(a)) return real(a, b);
  yield("rename"); ++S->io_ops;
  if (fault(K_RENAMEFAIL)) { io_log("rename_FAIL", abspath(a), -1); errno = EIO; return -1; }
  int r = real(a, b); io_log("rename", abspath(b), r); return r;
}
int unlink(const char *a) {
  static int (*real)(const char *) = (int (*)(const char *)) dlsym(RTLD_NEXT, "unlink");
  if (!ours(a)) return real(a);
  yield("unlink"); ++S->io_ops; int r = real(a); io_log("unlink", abspath(a), r); return r;
}
int remove(const char *a) {
  static int (*real)(const char *) = (int (*)(const char *)) dlsym(RTLD_NEXT, "remove");
  if (!ours(a)) return real(a);
  yield("remove"); ++S->io_ops; int r = real(a); io_log("remove", abspath(a), r); return r;
}
int stat(const char *p, struct stat *b) {
  static int (*real)(const char *, struct stat *) = (int (*)(const char *, struct stat *)) dlsym(RTLD_NEXT, "stat");
  if (ours(p)) yield("stat");
  return real(p, b);
}
}

// ------------------------------------------------------------------ guarded heap
// Every block of operator new carries a header and a canary behind its end: writes past the end, double and foreign
// frees end the run as a violation instead of harming a later one.
struct HBlk { HBlk *prev, *next; size_t size; uint64_t magic; };
static const uint64_t H_LIVE = 0x51c0ffee51c0ffeeull, H_FREE = 0xdeadf4eedeadf4eeull, H_TAIL = 0x7a11c0de7a11c0deull;
static HBlk g_heap = {&g_heap, &g_heap, 0, 0};
static char g_heap_damage[128] = "";
static void heap_bad(const char *what, size_t n) { if (!g_heap_damage[0]) snprintf(g_heap_damage, sizeof g_heap_damage, "memory damaged: %s (heap block of %zu bytes)", what, n); }
static bool heap_tail_ok(HBlk *b) { uint64_t t; memcpy(&t, (char *) (b + 1) + b->size, 8); return t == H_TAIL; }
void *operator new(size_t n) {
  HBlk *b = (HBlk *) ::malloc(sizeof(HBlk) + n + 8);
  if (!b) throw std::bad_alloc();
  b->size = n; b->magic = H_LIVE; memcpy((char *) (b + 1) + n, &H_TAIL, 8);
  b->next = g_heap.next; b->prev = &g_heap; g_heap.next->prev = b; g_heap.next = b;
  return b + 1;
}
void operator delete(void *p) noexcept {
  if (!p) return;
  HBlk *b = (HBlk *) p - 1;
  if (b->magic != H_LIVE) { heap_bad(b->magic == H_FREE ? "a block is freed twice" : "a free of something that was not allocated, or a write before its start", 0); return; }
  if (!heap_tail_ok(b)) heap_bad("a write beyond the end", b->size);
  b->prev->next = b->next; b->next->prev = b->prev; b->magic = H_FREE; ::free(b);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
// blocks allocated since `mark` (the head when the run began) that are still alive
static void heap_scan(HBlk *mark) { size_t k = 0; for (HBlk *b = g_heap.next; b != mark && b != &g_heap && k < 200000; b = b->next, ++k) { if (b->magic != H_LIVE) { heap_bad("a write before the start", 0); return; } if (!heap_tail_ok(b)) { heap_bad("a write beyond the end", b->size); return; } } }

// ------------------------------------------------------------------ scratch, scenarios, main
namespace sim {
static void rm_rf(const std::string &d) {
  DIR *h = opendir(d.c_str());
  if (!h) return;
  while (auto *e = readdir(h)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat sb;
    if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) { rm_rf(p); rmdir(p.c_str()); } else ::unlink(p.c_str());
  }
  closedir(h);
}
void reset_scratch() { rm_rf(S->scratch); if (chdir(S->scratch.c_str())) {} }

struct RegScen { std::string prop, name; std::function<void()> fn; double w; };
static std::vector<RegScen> &regs() { static std::vector<RegScen> r; return r; }
void register_scenario(const std::string &p, const std::string &n, std::function<void()> f, double w) { regs().push_back({p, n, f, w}); }

static std::string jesc(const std::string &s) {
  std::string o; for (char ch : s) { unsigned char c = (unsigned char) ch; if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c < 32 || c >= 127) o += fmt("\\u%04x", c); else o += ch; } return o;
}
static void fatal_sig(int sig, siginfo_t *, void *) {
  if (in_world()) {
    S->out.kind = FAULT; S->out.rank = S->cur; S->out.detail = fmt("signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
    to_main();
  }
  const char m[] = "sim: fatal signal in driver code\n"; (void) !::write(2, m, sizeof m - 1);
  _exit(66);
}
static std::string run_json(uint64_t seed, const std::string &scen, const std::string &viol, bool full) {
  std::ostringstream o;
  o << "{\"seed\":" << seed << ",\"scenario\":\"" << scen << "\",\"v\":" << (viol.empty() ? 0 : 1);
  if (!viol.empty()) o << ",\"msg\":\"" << jesc(viol) << "\"";
  o << fmt(",\"hash\":\"%016llx\",\"sched\":\"%016llx\"", (unsigned long long) S->hist, (unsigned long long) S->sched);
  o << ",\"steps\":" << S->steps << ",\"switches\":" << S->switches << ",\"worlds\":" << S->worlds << ",\"ranks\":" << S->maxranks << ",\"events\":" << S->events.size() << ",\"io\":" << S->io_ops << fmt(",\"simt\":%.3f", S->now);
  o << ",\"faults\":{"; bool f = true; for (auto &k : S->faults) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; } o << "}";
  o << ",\"tags\":["; f = true; for (auto &t : S->tags) { o << (f ? "" : ",") << "\"" << jesc(t) << "\""; f = false; } o << "]";
  if (full || !viol.empty()) {
    o << ",\"draws\":{"; f = true; for (auto &d : S->draws) { o << (f ? "" : ",") << "\"" << jesc(d.first) << "\":" << fmt("%.17g", d.second); f = false; } o << "}";
    o << ",\"decisions\":["; f = true;
    for (auto &d : S->taken) { o << (f ? "" : ",") << "[" << d.first.k << "," << d.first.r << "," << d.first.c << "," << d.second << "]"; f = false; }
    o << "]";
  }
  if (full) { o << ",\"trace\":["; f = true; for (auto &t : S->tracelines) { o << (f ? "" : ",") << "\"" << jesc(t) << "\""; f = false; } o << "]"; }
  o << "}";
  return o.str();
}
static std::string run_one(const RegScen &r) {
  std::string viol;
  clear_captured();
  std::ostream *os[3] = {&std::cout, &std::cerr, &std::clog};
  for (auto *o : os) { o->clear(); o->flags(std::ios::dec | std::ios::skipws); o->precision(6); o->fill(' '); }
  reset_scratch(); HBlk *mark = g_heap.next;
  try { r.fn(); }
  catch (const Violation &v) { viol = v.msg.empty() ? "(empty)" : v.msg; }
  catch (const std::exception &e) { viol = std::string("harness driver exception: ") + e.what(); S->tags.insert("HARNESS_ERROR"); }
  heap_scan(mark); if (g_heap_damage[0]) { viol = g_heap_damage; S->out.kind = FAULT; }
  event_hash(hash_bytes(viol.data(), viol.size()));
  return viol;
}
int sim_main(int argc, char **argv, char *b, char *e) {
  g_data_begin = b; g_data_end = e; g_pristine.assign(b, e);
  std::string prop, scen, out, decfile; uint64_t from = 1, count = 1, base = 1; bool replay = false, verbose = false, list = false; double tlimit = 0; uint64_t stride = 1;
  std::map<std::string, double> ov; std::map<Key, int> forced;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = nx(); else if (a == "--scenario") scen = nx(); else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(nx().c_str(), 0, 10); else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
    else if (a == "--base") base = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx(); else if (a == "--time") tlimit = atof(nx().c_str());
    else if (a == "--decisions") { decfile = nx(); replay = true; } else if (a == "--verbose") verbose = true; else if (a == "--list") list = true;
    else if (a == "--scratch") g_scratch_root = nx();
  }
  std::vector<RegScen> sel;
  for (auto &r : regs()) if ((prop.empty() || r.prop == prop) && (scen.empty() || r.name == scen)) sel.push_back(r);
  if (list) { for (auto &r : regs()) printf("%s %s %g\n", r.prop.c_str(), r.name.c_str(), r.w); return 0; }
  if (sel.empty()) { fprintf(stderr, "no scenario for %s %s\n", prop.c_str(), scen.c_str()); return 9; }
  if (replay) {   // text: lines "D kind rank counter value" and "W name value"
    std::ifstream in(decfile); std::string t;
    while (in >> t) {
      if (t == "D") { Key k; int v; in >> k.k >> k.r >> k.c >> v; forced[k] = v; }
      else if (t == "W") { std::string n; double v; in >> n >> v; ov[n] = v; }
    }
  }
  if (g_scratch_root.empty()) g_scratch_root = "/dev/shm";
  std::string dir = g_scratch_root + "/vsim_" + std::to_string(getpid());
  ::mkdir(dir.c_str(), 0700);
  FILE *of = out.empty() ? stdout : fopen(out.c_str(), "a");
  if (!of) { perror("out"); return 9; }
  g_cap = new Capture;
  std::cout.rdbuf(g_cap); std::cerr.rdbuf(g_cap); std::clog.rdbuf(g_cap);
  static char alt[1 << 16];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = fatal_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL}) real_sigaction(s, &sa, nullptr);
  double wsum = 0; for (auto &r : sel) wsum += r.w;
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  int rc = 0;
  for (uint64_t k = 0; k < count; ++k) {
    const uint64_t seed = from + k * stride;
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    if (tlimit > 0 && (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > tlimit) break;
    S = new State; S->seed = mix(base * 1000003ull, seed); S->replay = replay; S->verbose = verbose; S->forced = forced; S->draw_override = ov; S->scratch = dir;
    size_t si = 0;
    { SplitMix r(S->seed ^ 0xabcdef); double x = r.uni() * wsum; for (si = 0; si + 1 < sel.size() && x >= sel[si].w; ++si) x -= sel[si].w; }
    fprintf(of, "@%llu %s\n", (unsigned long long) seed, sel[si].name.c_str()); fflush(of);
    std::string v = run_one(sel[si]);
    const bool fault = S->out.kind == FAULT;
    fprintf(of, "%s\n", run_json(seed, sel[si].name, v, replay).c_str()); fflush(of);
    if (!v.empty()) rc = 1;
    delete S; S = nullptr;
    if (fault) { rm_rf(dir); rmdir(dir.c_str()); _exit(77); }   // memory may be damaged: a fresh process continues
  }
  if (chdir("/")) {}
  rm_rf(dir); rmdir(dir.c_str());
  if (of != stdout) fclose(of);
  fflush(stdout);
  _exit(rc);
}
}
