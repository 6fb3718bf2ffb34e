// Deterministic simulator: public interface used by the harnesses.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// Every nondeterministic choice goes through decide(kind, n); 0 is always the benign default.
enum Kind : int {
  K_SCHED = 0,      // which runnable rank continues at a scheduling point
  K_SENDMODE,       // blocking send buffered (0) or synchronous/rendezvous (1)
  K_ANYSRC,         // which sender an ANY_SOURCE receive matches
  K_COLLSYNC,       // collective returns as early as MPI allows (0) or synchronises (1)
  K_REDORDER,       // order in which a reduction combines contributions
  K_SIGNAL,         // deliver SIGINT/SIGTERM to the current rank here
  K_CRASH,          // kill the whole job here
  K_OPENFAIL, K_WRITEFAIL, K_SHORTWRITE, K_DISKFULL, K_CLOSEFAIL, K_READFAIL, K_SHORTREAD, K_MKDIRFAIL, K_RENAMEFAIL,
  K_STALL,          // a slow rank: not scheduled for a while
  K_BITROT,         // a stored byte is damaged / lost
  K_NKINDS
};
const char *kind_name(int k);

struct Profile {               // swarm configuration of one run: probability per kind
  double p[K_NKINDS] = {0};
  int sched_mode = 0;          // 0 uniform, 1 sticky, 2 priority (PCT-like), 3 starve one rank
  int starve = -1;
  int max_of[K_NKINDS];        // cap on non-default decisions per kind (-1 none)
  Profile() { for (int &m : max_of) m = -1; }
};

enum OutcomeKind { OK = 0, DEADLOCK, MPI_MISUSE, ABORTED, EXCEPTION, STEPLIMIT, KILLED, EXITED, FAULT, VIOLATED, LEFTOVER };
const char *outcome_name(int);
struct Outcome {
  OutcomeKind kind = OK;
  int rank = -1;
  int code = 0;
  std::string detail;
  bool ok() const { return kind == OK; }
  std::string str() const;
};

struct Violation { std::string msg; };
// Ends the scenario.  Safe from a rank fiber (the whole world stops) and from the driver.
[[noreturn]] void violate(const std::string &msg);

struct WorldOpts {
  int nranks = 2;
  uint64_t step_limit = 2000000;
  bool io_faults = false;      // faults enabled for I/O under the scratch directory
  bool leftovers_ok = false;
};
// Run one MPI job to completion under the scheduler.
Outcome run_world(const WorldOpts &, const std::function<void(int rank)> &body);

// current rank inside a world, -1 in the driver
int cur_rank();
bool in_world();
void yield(const char *what);                 // explicit scheduling point
int decide(Kind k, int n);                    // 0..n-1
uint64_t steps();

// workload draws: seeded, recorded by name, overridable by a replay file
long draw(const std::string &name, long lo, long hi);
bool chance(const std::string &name, double p);
double draw_real(const std::string &name, double lo, double hi);
uint64_t draw_u64(const std::string &name);
uint64_t stable_seed(const std::string &name);   // sub-seed for bulk data

Profile &profile();
void note_fault(const std::string &name, uint64_t n = 1);   // count an injected fault / probe
void tag(const std::string &t);               // coverage tag reached in this run
void restart_random();                        // the next world draws the same random_device values as the first
void event_hash(uint64_t h);                  // mix observable history into the run hash
void trace(const std::string &s);             // human-readable trace line (kept in replay runs)

// scratch directory of this run; cwd is set to it
std::string scratch();
void reset_scratch();
void io_heal();                               // clear persistent disk-full state
uint64_t io_ops();
void set_io_faults(bool);

// captured stdout+stderr of the library in this run
std::string captured();
void clear_captured();

// per-rank signal plumbing
bool signal_handler_installed(int rank, int sig);
void deliver_signal(int sig);                 // to current rank, runs its handler
struct SignalEvent { int rank; int sig; uint64_t step; };
const std::vector<SignalEvent> &signals_delivered();

// Message/collective log for history checks
struct Event { int rank; const char *op; int a, b; uint64_t bytes; uint64_t hash; uint64_t step; };
const std::vector<Event> &history();
void clear_history();

struct Scenario { std::string name; std::function<void()> fn; double weight = 1; };
struct Harness {
  std::string property;
  std::vector<Scenario> scenarios;
};
void register_scenario(const std::string &property, const std::string &name, std::function<void()> fn, double weight = 1);
struct Reg { Reg(const char *p, const char *n, std::function<void()> f, double w = 1) { register_scenario(p, n, f, w); } };
#define SCENARIO(prop, name, w) \
  static void scen_##name(); static ::sim::Reg reg_##name(prop, #name, scen_##name, w); static void scen_##name()

int sim_main(int argc, char **argv, char *data_begin, char *data_end);

// helpers ---------------------------------------------------------------
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(cond, ...) do { if (!(cond)) ::sim::violate(::sim::fmt(__VA_ARGS__)); } while (0)

struct SplitMix { uint64_t s; explicit SplitMix(uint64_t x) : s(x) {} uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double sym() { return 2 * uni() - 1; } };
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
uint64_t hash_bytes(const void *p, size_t n);

}  // namespace sim
#endif
