// Stand-in for qlten::Timer: reads the simulated clock (sim_now), never the real one.
#ifndef SIM_QLTEN_TIMER_H
#define SIM_QLTEN_TIMER_H
#include <iostream>
#include <string>
extern "C" double sim_now(void);
namespace qlten {
class Timer {
 public:
  Timer() : Timer("") {}
  explicit Timer(const std::string &notes) : t0_(sim_now()), notes_(notes) {}
  void Restart() { t0_ = sim_now(); }
  void Suspend() {}
  void ClearAndRestart() { Restart(); }
  double Elapsed() const { return sim_now() - t0_; }
  double PrintElapsed(std::size_t = 5) { double e = Elapsed(); std::cout << "[timing] " << notes_ << "\t" << e << std::endl; return e; }
  double PrintElapsed(bool) { return Elapsed(); }
 private:
  double t0_;
  std::string notes_;
};
}
#endif
