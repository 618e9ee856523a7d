// sched.h -- a controlled scheduler for real threads of instrumented code.
// Only one thread runs at a time; at every synchronization operation (and at
// chosen memory accesses) the explorer decides who goes on. Data races are
// found by vector clocks over every instrumented access.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Config {
  int preemptions;      // switches away from a thread that could go on
  int burns;            // times a busy wait may give up although others could run
  bool delays;          // choosing a successor other than the next in turn counts as well
  bool races_fail;      // a data race is a violation
  const char *points;   // comma separated code offsets that are scheduling points too
  Config(): preemptions(1), burns(0), delays(false), races_fail(true), points(NULL) {}
};
struct Race { uint32_t pc1, pc2; bool w1, w2; };
struct Stats { uint64_t points, accesses, switches; std::vector<Race> races; int threads; };
// Runs body as the first thread under the scheduler, in this process.
Stats run(const Config &c, const std::function<void()> &body);
void point(const char *what);      // an explicit scheduling point
int self();                        // number of the running thread
std::string where(uint32_t pc);
}  // namespace sched
#endif
