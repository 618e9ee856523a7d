// Connects the scheduler's runtime with the explorer (include once, in the harness).
#ifndef VERIF_SCHED_GLUE_H_
#define VERIF_SCHED_GLUE_H_
#include "forked.h"
#include "vsched.h"
extern "C" int sched_choose(int n) { return mc::fchoose(n); }
extern "C" void sched_fail(const char *m) { mc::fail("%s", m); }
extern "C" void sched_state(uint64_t h) { mc::step(); mc::state(h); }
extern "C" void sched_note(const char *m) { mc::note("%s", m); }
#endif
