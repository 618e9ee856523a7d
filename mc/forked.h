// forked.h -- run the body of one execution in a process of its own, so that it
// may start threads, change global state and be thrown away. Choices, claims,
// states and notes reach the explorer through shared memory.
#ifndef VERIF_FORKED_H_
#define VERIF_FORKED_H_
#include "mc.h"
namespace mc {
struct ForkBox {
  int64_t ord; int owned, need_claim, split, done;
  uint64_t steps, traces, checks;
  uint32_t nstates, noutcomes;
  uint64_t states[1 << 16], outcomes[256];
  int32_t nclaims;
  char trace[24000];
};
inline ForkBox *&box() { static ForkBox *b = NULL; return b; }
inline bool &in_child() { static bool b = false; return b; }
enum { kExitSkip = 81 };
inline void fork_close() {
  Ctx &c = C(); ForkBox *b = box();
  b->ord = c.ord; b->owned = c.owned; b->need_claim = c.need_claim;
  b->steps = c.my_steps; b->traces = c.my_traces; b->checks = c.my_checks;
  b->nstates = b->noutcomes = 0;
  for (uint64_t s : c.states) if (b->nstates < (1 << 16)) b->states[b->nstates++] = s;
  for (uint64_t s : c.outcomes) if (b->noutcomes < 256) b->outcomes[b->noutcomes++] = s;
  snprintf(b->trace, sizeof b->trace, "%s", c.trace.c_str());
  b->done = 1;
}
// choose() for use on any thread of a forked body
inline int fchoose(int n) {
  try { return choose(n); } catch (const Skip &) { fork_close(); _exit(kExitSkip); }
}
template<typename F> inline void forked(F body) {
  Ctx &c = C();
  if (!box()) box() = (ForkBox *)mmap(NULL, sizeof(ForkBox), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ForkBox *b = box(); b->done = 0;
  std::unordered_set<uint64_t> st, oc; st.swap(c.states); oc.swap(c.outcomes);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); in_child() = true;
    body();
    fork_close(); _exit(0);
  }
  c.slot->child = p;
  int w; while (waitpid(p, &w, 0) < 0 && errno == EINTR) { }
  c.slot->child = 0;
  st.swap(c.states); oc.swap(c.outcomes);
  if (b->done) {
    c.ord = b->ord; c.owned = b->owned; c.need_claim = b->need_claim;
    if (WEXITSTATUS(w) != kExitSkip) { c.my_steps = b->steps; c.my_traces = b->traces; c.my_checks = b->checks;
    c.states.insert(b->states, b->states + b->nstates); c.outcomes.insert(b->outcomes, b->outcomes + b->noutcomes);
    c.trace = b->trace; }
  }
  if (WIFSIGNALED(w)) { fflush(stderr); signal(WTERMSIG(w), SIG_DFL); raise(WTERMSIG(w)); _exit(99); }
  if (WEXITSTATUS(w) == kExitSkip) throw Skip();
  if (WEXITSTATUS(w) != 0) _exit(WEXITSTATUS(w));
}
}  // namespace mc
#endif
