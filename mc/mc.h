// mc.h -- stateless bounded model checker for in-process C++ harnesses.
//
// A scenario is a function whose only source of nondeterminism is
// mc::choose(n).  The explorer enumerates *every* sequence of answers by
// depth-first re-execution.  The first choice of a scenario is the shard:
// shards are handed out to worker processes, so that crashes, aborts and hangs
// of the code under test are caught by the parent, replayed in a fresh process
// and only then reported.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

enum { kMaxDepth = 20000, kMaxClaims = 200000, kClaimTable = 1 << 22, kMaxWorkers = 16, kExitViolation = 77, kExitDiverge = 78 };

struct Slot {
  volatile int32_t len;              // choices taken so far in this execution
  int32_t val[kMaxDepth];
  int32_t arity[kMaxDepth];
  volatile uint64_t heartbeat;
  volatile int32_t nclaims;          // subtrees this worker explored, in order
  int32_t claims[kMaxClaims];
  volatile int32_t child;            // process running this execution, if not the worker itself
  char msg[8192];
};

struct Shared {
  std::atomic<int> stop;
  std::atomic<uint64_t> execs, choices, steps, traces, checks;
  std::atomic<uint8_t> claimed[kClaimTable];
  Slot slot[kMaxWorkers];
};

struct Options {
  std::string tier, out, scratch, only;
  int jobs;
  double deadline;       // seconds per scenario; a hit is reported, not hidden
  double hang;           // seconds without progress in one execution
};

struct Ctx {
  Shared *sh;
  Slot *slot;
  std::vector<int> prefix;           // forced choices
  std::vector<std::string> labels;
  bool tracing;
  std::string trace;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  Options opt;
  uint64_t my_steps, my_traces, my_checks;
  int split;                         // depth at which work is divided
  bool need_claim, owned;
  int64_t ord;                       // ordinal of the current subtree
  const std::vector<int32_t> *forced;  // re-run exactly these subtrees
  int replaying;
  std::string scenario;
};
inline Ctx &C() { static Ctx c; return c; }
struct Skip {};                      // subtree belongs to another worker
bool claim();

inline bool quick() { return C().opt.tier != "thorough"; }
inline bool tracing() { return C().tracing; }
inline double now() {
  struct timeval tv; gettimeofday(&tv, NULL);
  return tv.tv_sec + tv.tv_usec * 1e-6;
}
inline std::string vfmt(const char *f, va_list ap) {
  char buf[6000];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
inline std::string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}

// Append to the human-readable trace (only kept for samples and replays).
inline void note(const char *f, ...) {
  if (!C().tracing || C().trace.size() > 20000) return;
  va_list ap; va_start(ap, f); C().trace += vfmt(f, ap); va_end(ap);
  C().trace += "; ";
}

// Report a violation of the property in this execution.
[[noreturn]] inline void fail(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
  if (C().slot) {
    snprintf(C().slot->msg, sizeof C().slot->msg, "%s", s.c_str());
  }
  if (C().replaying) {
    fprintf(stderr, "violation: %s\ntrace: %s\n", s.c_str(), C().trace.c_str());
    fflush(stderr);
  }
  _exit(kExitViolation);
}
#define MC_CHECK(cond, ...) do { ++mc::C().my_checks; if (!(cond)) mc::fail(__VA_ARGS__); } while (0)

inline void step(uint64_t n = 1) { C().my_steps += n; }
// One execution (or one compared step sequence) was checked against the oracle.
inline void validated(uint64_t n = 1) { C().my_traces += n; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ULL) {
  return fnv(s.data(), s.size(), h);
}
template<typename T> inline uint64_t mix(uint64_t h, const T &v) { return fnv(&v, sizeof v, h); }

// A distinct abstract state was reached / a distinct outcome was observed.
inline void state(uint64_t h) { C().states.insert(h); }
inline void outcome(uint64_t h) { C().outcomes.insert(h); }
inline void outcome(const std::string &s) { C().outcomes.insert(fnv(s)); }

// Take ownership of the current subtree (all executions sharing the first
// `split` choices). Every worker meets the subtrees in the same order.
inline bool claim() {
  Ctx &c = C();
  c.need_claim = false;
  int64_t o = ++c.ord;
  if (c.forced) {
    c.owned = std::binary_search(c.forced->begin(), c.forced->end(), (int32_t)o);
  } else if (o < kClaimTable) {
    uint8_t z = 0;
    c.owned = c.sh->claimed[o].compare_exchange_strong(z, 1);
  } else {
    c.owned = (o % c.opt.jobs) == (c.slot - c.sh->slot);
  }
  if (c.owned && !c.forced && c.slot->nclaims < kMaxClaims) {
    c.slot->claims[c.slot->nclaims] = (int32_t)o;
    c.slot->nclaims = c.slot->nclaims + 1;
  }
  return c.owned;
}

// Nondeterministic choice in [0, n).
inline int choose(int n) {
  Ctx &c = C();
  Slot *s = c.slot;
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(kExitDiverge); }
  int d = s->len;
  if (d == c.split && c.need_claim && !c.replaying) {
    if (!claim()) throw Skip();
  }
  if (d >= kMaxDepth) { fprintf(stderr, "mc: too deep\n"); _exit(kExitDiverge); }
  int v;
  if (d < (int)c.prefix.size()) {
    v = c.prefix[d];
    if (v >= n) {
      fprintf(stderr, "mc: replay diverged at %d: %d of %d\n", d, v, n);
      _exit(kExitDiverge);
    }
  } else {
    v = 0;
  }
  s->val[d] = v;
  s->arity[d] = n;
  s->len = d + 1;
  s->heartbeat = s->heartbeat + 1;
  return v;
}
template<typename T> inline const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
inline bool flip() { return choose(2) != 0; }

typedef std::function<void()> Body;
struct Scenario { std::string name; Body body; std::string bounds; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
inline void add(const std::string &name, const std::string &bounds, Body b) {
  Scenario s; s.name = name; s.body = b; s.bounds = bounds; scenarios().push_back(s);
}

// Scratch directory of this worker (created by the parent, removed at the end).
inline std::string scratch() { return C().opt.scratch; }

inline void run_once(const Body &b) {
  Ctx &c = C();
  c.slot->len = 0;
  c.trace.clear();
  c.slot->heartbeat = c.slot->heartbeat + 1;
  try {
    b();
  } catch (const std::exception &e) {
    fail("uncaught C++ exception escaped: %s", e.what());
  }
}

struct Result {
  std::string scenario, bounds;
  uint64_t execs, choices, steps, traces, checks, states, outcomes;
  bool exhaustive, violated, error;
  std::string msg, replay;
  double wall;
  std::vector<std::string> samples;
};

inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

inline std::string choices_of(Slot *s) {
  std::string r;
  for (int i = 0; i < s->len; ++i) { if (i) r += ","; r += std::to_string(s->val[i]); }
  return r;
}
inline std::vector<int> parse_choices(const std::string &s) {
  std::vector<int> v; std::stringstream ss(s); std::string t;
  while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str()));
  return v;
}

inline void dump_set(const std::string &path, const std::unordered_set<uint64_t> &s) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) return;
  std::vector<uint64_t> v(s.begin(), s.end());
  if (!v.empty()) fwrite(v.data(), 8, v.size(), f);
  fclose(f);
}
inline void load_set(const std::string &path, std::unordered_set<uint64_t> *s) {
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return;
  uint64_t b[4096]; size_t n;
  while ((n = fread(b, 8, 4096, f)) > 0) s->insert(b, b + n);
  fclose(f);
  unlink(path.c_str());
}

// Redirect stdout/stderr of a child to a file so that noise of the code under
// test does not reach our output.
inline void redirect(const std::string &path) {
  fflush(stdout); fflush(stderr);
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

inline void worker_main(int w, const Scenario &sc, const std::vector<int32_t> *forced) {
  Ctx &c = C();
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  c.slot = &c.sh->slot[w];
  c.slot->msg[0] = 0;
  c.slot->nclaims = 0; c.slot->child = 0;
  c.scenario = sc.name;
  c.forced = forced;
  c.ord = -1;
  c.need_claim = true;
  c.opt.scratch += "/w" + std::to_string(w);
  mkdir(c.opt.scratch.c_str(), 0755);
  redirect(c.opt.scratch + ".log");
  uint64_t execs = 0, choices = 0, total = 0;
  uint64_t next_sample = 0;
  auto flush = [&]() {
    c.sh->execs += execs; c.sh->choices += choices; c.sh->steps += c.my_steps;
    c.sh->traces += c.my_traces; c.sh->checks += c.my_checks;
    execs = choices = c.my_steps = c.my_traces = c.my_checks = 0;
  };
  c.prefix.clear();
  for (;;) {
    c.tracing = c.samples.size() < 2 && total >= next_sample;
    bool skipped = false;
    try {
      run_once(sc.body);
    } catch (const Skip &) {
      skipped = true;
    }
    if (!skipped && c.need_claim && !claim()) skipped = true;   // short execution
    if (!skipped) {
      ++execs; ++total;
      choices += c.slot->len;
      if (c.tracing) {
        c.samples.push_back("[" + choices_of(c.slot) + "] " + c.trace);
        next_sample = total * 50 + 10;
      }
    }
    // next choice vector in depth-first order
    int d = c.slot->len - 1;
    while (d >= 0 && c.slot->val[d] + 1 >= c.slot->arity[d]) --d;
    if (d < 0) break;
    c.prefix.assign(c.slot->val, c.slot->val + d + 1);
    c.prefix[d]++;
    if (d < c.split) c.need_claim = true;
    if ((total & 15) == 0 && c.sh->stop) break;
    if (execs >= 1024) flush();
  }
  flush();
  dump_set(c.opt.scratch + ".states", c.states);
  dump_set(c.opt.scratch + ".outcomes", c.outcomes);
  FILE *f = fopen((c.opt.scratch + ".samples").c_str(), "w");
  if (f) {
    for (size_t i = 0; i < c.samples.size(); ++i)
      fprintf(f, "%s\n", c.samples[i].substr(0, 1500).c_str());
    fclose(f);
  }
  fflush(stdout);
  _exit(0);
}

// Memory an execution may use. One that needs more is a failure like one that does
// not end; it must not bring the machine down.
enum { kMaxMb = 3000 };
inline int mem_of(pid_t p) {
  if (p <= 0) return 0;
  FILE *f = fopen(fmt("/proc/%d/statm", (int)p).c_str(), "r");
  if (!f) return 0;
  long size = 0, res = 0, shared = 0; if (fscanf(f, "%ld %ld %ld", &size, &res, &shared) != 3) res = shared = 0;
  fclose(f); return (int)((res - shared) / 256);
}
inline bool too_big(pid_t p, const Slot *s) { return mem_of(p) > kMaxMb || mem_of(s->child) > kMaxMb; }

// Re-run one execution in a fresh process. Returns true if it failed again.
inline bool replay_fails(const Scenario &sc, const std::vector<int> &choices,
                         double limit, std::string *why, std::string *log) {
  Ctx &c = C();
  std::string lp = c.opt.scratch + "/replay.log";
  fflush(stdout); fflush(stderr);
  c.sh->slot[kMaxWorkers - 1].msg[0] = 0;
  c.sh->slot[kMaxWorkers - 1].child = 0;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    c.slot = &c.sh->slot[kMaxWorkers - 1];
    c.opt.scratch += "/replay";
    mkdir(c.opt.scratch.c_str(), 0755);
    redirect(lp);
    c.prefix = choices;
    c.tracing = true;
    c.replaying = 1;
    c.scenario = sc.name;
    run_once(sc.body);
    fflush(stdout);
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool hung = false, big = false; int polls = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    big = ++polls % 16 == 0 && too_big(p, &c.sh->slot[kMaxWorkers - 1]);
    if (big || now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = !big; break; }
    usleep(2000);
  }
  FILE *f = fopen(lp.c_str(), "r");
  if (f) {
    char b[4096]; size_t n; log->clear();
    while ((n = fread(b, 1, sizeof b, f)) > 0 && log->size() < 16000) log->append(b, n);
    fclose(f);
  }
  if (big) { *why = fmt("needs more than %d MB of memory", (int)kMaxMb); return true; }
  if (hung) { *why = "does not terminate"; return true; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == kExitViolation) {
    *why = c.sh->slot[kMaxWorkers - 1].msg; return true;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == kExitDiverge) { *why = "diverged"; return false; }
  std::string head;
  size_t k = log->find("ERROR: AddressSanitizer");
  if (k == std::string::npos) k = log->find("Assertion");
  if (k == std::string::npos) k = log->find("terminate called");
  if (k != std::string::npos) {
    size_t b = log->rfind('\n', k); b = b == std::string::npos ? 0 : b + 1;
    head = log->substr(b, log->find('\n', k) - b);
  }
  if (WIFSIGNALED(st)) *why = fmt("died on signal %d: ", WTERMSIG(st)) + head;
  else *why = fmt("exited with status %d: ", WEXITSTATUS(st)) + head;
  return true;
}

inline Result explore(const Scenario &sc) {
  Ctx &c = C();
  Shared *sh = c.sh;
  Result R;
  R.scenario = sc.name; R.bounds = sc.bounds;
  R.exhaustive = true; R.violated = false; R.error = false;
  double t0 = now();
  sh->stop = 0; sh->execs = 0; sh->choices = 0; sh->steps = 0; sh->traces = 0; sh->checks = 0;
  for (int i = 0; i < kClaimTable; ++i) sh->claimed[i].store(0, std::memory_order_relaxed);
  int jobs = c.opt.jobs;
  std::vector<pid_t> pid(jobs);
  std::vector<uint64_t> hb(jobs, 0);
  std::vector<double> hbt(jobs, t0);
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < jobs; ++w) {
    pid[w] = fork();
    if (pid[w] == 0) worker_main(w, sc, NULL);
  }
  int live = jobs;
  std::vector<int> fail_choices; int fail_w = -1; std::string fail_why;
  bool failed = false, hungf = false; int polls = 0;
  while (live > 0) {
    bool progress = false, measure = ++polls % 32 == 0;
    for (int w = 0; w < jobs; ++w) {
      if (!pid[w]) continue;
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        pid[w] = 0; --live; progress = true;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !failed) {
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !failed) {
            // killed from outside (memory pressure): an error of the run
            if (!sh->stop) { R.error = true; R.msg = "worker was killed"; }
          } else {
            failed = true;
          }
          Slot *s = &sh->slot[w];
          fail_choices.assign(s->val, s->val + s->len);
          fail_w = w;
          fail_why = s->msg;
          if (WIFEXITED(st) && WEXITSTATUS(st) == kExitDiverge) {
            R.error = true; R.msg = "replay of a prefix diverged"; failed = false;
          }
          sh->stop = 1;
        }
        continue;
      }
      Slot *s = &sh->slot[w];
      double t = now();
      if (s->heartbeat != hb[w]) { hb[w] = s->heartbeat; hbt[w] = t; }
      if ((t - hbt[w] > c.opt.hang || (measure && too_big(pid[w], s))) && !failed) {
        failed = true; hungf = true;
        fail_choices.assign(s->val, s->val + s->len);
        fail_w = w;
        sh->stop = 1;
        kill(pid[w], SIGKILL);
      }
      if (!sh->stop && t - t0 > c.opt.deadline) { sh->stop = 1; R.exhaustive = false; }
      if (sh->stop && t - hbt[w] > c.opt.hang) kill(pid[w], SIGKILL);
    }
    if (failed) for (int w = 0; w < jobs; ++w) if (pid[w]) kill(pid[w], SIGKILL);
    if (!progress) usleep(1000);
  }
  if (failed) {
    std::string why, log;
    bool again = replay_fails(sc, fail_choices, hungf ? c.opt.hang * 2 : c.opt.hang, &why, &log);
    if (again) {
      // the same execution must fail every time
      std::string why2, log2;
      if (!replay_fails(sc, fail_choices, hungf ? c.opt.hang * 2 : c.opt.hang, &why2, &log2)) again = false;
    }
    if (!again && fail_w >= 0 && !hungf && sh->slot[fail_w].nclaims < kMaxClaims) {
      // depends on earlier executions in the same process: repeat them all
      std::vector<int32_t> subs(sh->slot[fail_w].claims,
                                sh->slot[fail_w].claims + sh->slot[fail_w].nclaims);
      sh->stop = 0;
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p == 0) worker_main(kMaxWorkers - 1, sc, &subs);
      int st; waitpid(p, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
        again = true;
        Slot *s = &sh->slot[kMaxWorkers - 1];
        fail_choices.assign(s->val, s->val + s->len);
        why = s->msg[0] ? std::string(s->msg) : fmt("process died (wait status %d)", st);
        why += " (only after earlier executions in the same process: state leaks between instances)";
      }
    }
    if (again) {
      R.violated = true;
      R.msg = why;
      std::string cs;
      for (size_t i = 0; i < fail_choices.size(); ++i) cs += (i ? "," : "") + std::to_string(fail_choices[i]);
      R.replay = cs;
      R.samples.push_back(log.substr(0, 6000));
    } else {
      R.error = true;
      R.msg = "a failing execution did not fail again when replayed: " + fail_why;
    }
    R.exhaustive = false;
  }
  std::unordered_set<uint64_t> st, oc;
  for (int w = 0; w < jobs; ++w) {
    std::string b = c.opt.scratch + "/w" + std::to_string(w);
    load_set(b + ".states", &st);
    load_set(b + ".outcomes", &oc);
    FILE *f = fopen((b + ".samples").c_str(), "r");
    if (f) {
      static char line[4096];
      while (fgets(line, sizeof line, f) && R.samples.size() < 4) {
        std::string l = line; while (!l.empty() && l.back() == '\n') l.pop_back();
        R.samples.push_back(l);
      }
      fclose(f);
      unlink((b + ".samples").c_str());
    }
  }
  R.execs = sh->execs; R.choices = sh->choices; R.steps = sh->steps; R.traces = sh->traces;
  R.checks = sh->checks; R.states = st.size(); R.outcomes = oc.size();
  R.wall = now() - t0;
  return R;
}

inline void write_json(const std::string &path, const std::vector<Result> &rs) {
  FILE *f = fopen(path.c_str(), "w");
  fprintf(f, "[");
  for (size_t i = 0; i < rs.size(); ++i) {
    const Result &r = rs[i];
    fprintf(f, "%s{\"scenario\":%s,\"bounds\":%s,\"execs\":%llu,\"choices\":%llu,\"steps\":%llu,"
            "\"traces\":%llu,\"checks\":%llu,\"states\":%llu,\"outcomes\":%llu,\"exhaustive\":%s,"
            "\"violated\":%s,\"error\":%s,\"msg\":%s,\"replay\":%s,\"wall\":%.3f,\"samples\":[",
            i ? "," : "", jstr(r.scenario).c_str(), jstr(r.bounds).c_str(),
            (unsigned long long)r.execs, (unsigned long long)r.choices, (unsigned long long)r.steps,
            (unsigned long long)r.traces, (unsigned long long)r.checks, (unsigned long long)r.states,
            (unsigned long long)r.outcomes, r.exhaustive ? "true" : "false",
            r.violated ? "true" : "false", r.error ? "true" : "false", jstr(r.msg).c_str(),
            jstr(r.replay).c_str(), r.wall);
    for (size_t k = 0; k < r.samples.size(); ++k)
      fprintf(f, "%s%s", k ? "," : "", jstr(r.samples[k]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "]\n");
  fclose(f);
}

// usage: BIN --tier T --out F --scratch D [--jobs N] [--scenario S]
//        BIN --scratch D --scenario S --replay c0,c1,...
inline int main(int argc, char **argv) {
  Ctx &c = C();
  c.opt.tier = "quick"; c.opt.jobs = 8; c.opt.deadline = 600; c.opt.hang = 60;
  c.split = 3; c.forced = NULL;
  c.tracing = false; c.replaying = 0; c.slot = NULL;
  c.my_steps = c.my_traces = c.my_checks = 0;
  std::string replay; bool do_replay = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") c.opt.tier = v;
    else if (a == "--out") c.opt.out = v;
    else if (a == "--scratch") c.opt.scratch = v;
    else if (a == "--jobs") c.opt.jobs = std::min(atoi(v.c_str()), (int)kMaxWorkers - 1);
    else if (a == "--scenario") c.opt.only = v;
    else if (a == "--deadline") c.opt.deadline = atof(v.c_str());
    else if (a == "--split") c.split = atoi(v.c_str());
    else if (a == "--hang") c.opt.hang = atof(v.c_str());
    else if (a == "--replay") { replay = v; do_replay = true; }
  }
  c.sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (do_replay) {
    for (size_t i = 0; i < scenarios().size(); ++i) {
      if (scenarios()[i].name != c.opt.only) continue;
      std::string why, log;
      bool bad = replay_fails(scenarios()[i], parse_choices(replay), c.opt.hang * 2, &why, &log);
      printf("%s\n%s%s\n", log.c_str(), bad ? "REPRODUCED: " : "did not fail", why.c_str());
      return bad ? 1 : 0;
    }
    return 2;
  }
  std::vector<Result> rs;
  for (size_t i = 0; i < scenarios().size(); ++i) {
    if (!c.opt.only.empty() && scenarios()[i].name != c.opt.only) continue;
    Result r = explore(scenarios()[i]);
    fprintf(stderr, "  %-28s execs=%llu choices=%llu states=%llu outcomes=%llu checks=%llu %s%s %.1fs %s\n",
            r.scenario.c_str(), (unsigned long long)r.execs, (unsigned long long)r.choices,
            (unsigned long long)r.states, (unsigned long long)r.outcomes, (unsigned long long)r.checks,
            r.exhaustive ? "exhaustive" : "CAPPED", r.violated ? " VIOLATED" : r.error ? " ERROR" : "",
            r.wall, r.msg.c_str());
    rs.push_back(r);
    if (r.violated || r.error) break;
  }
  write_json(c.opt.out, rs);
  return 0;
}

}  // namespace mc

#endif  // VERIF_MC_H_
