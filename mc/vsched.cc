// Runtime of sched.h: the interface of the compiler's thread instrumentation
// and of pthreads, implemented as a cooperative scheduler with vector clocks.
// Compiled without instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <map>
#include <set>
#include <vector>

// provided by the harness (sched_glue in harness translation unit)
extern "C" int sched_choose(int n);
extern "C" void sched_fail(const char *msg);
extern "C" void sched_state(uint64_t h);
extern "C" void sched_note(const char *msg);
extern "C" char __executable_start;
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

namespace {
enum { kMaxThr = 8 };
struct VC { uint32_t c[kMaxThr]; };
inline void join(VC *a, const VC &b) { for (int i = 0; i < kMaxThr; ++i) if (b.c[i] > a->c[i]) a->c[i] = b.c[i]; }

enum Block { kRun, kMutex, kCond, kJoin, kSpin, kSleep, kGuard, kDone };
struct Thr {
  int id; volatile int go; Block b;
  void *obj; uint64_t val; int width;      // spin: address, value seen
  VC vc, acq, rel; bool has_rel;
  void *last_addr; uint64_t last_val; int same;  // spin detection
  bool burning; void *burn_addr; uint64_t burn_n; int sleeps;
  void *(*fn)(void *); void *arg; pthread_t real; void *ret;
  uint64_t ops, opsum; bool joined, detached; uint64_t sleep_step;
  std::map<uint32_t, uint32_t> *hits;
};
Thr T[kMaxThr];
int nthr;
volatile bool active;            // a scheduled run is going on
__thread Thr *self_;
volatile int in_rt;              // inside the runtime (only one thread runs)
sched::Config cfg;
int pre_left, burn_left;
uint64_t step_no, n_points, n_access, n_switch;
std::map<void *, int> *mowner; std::map<void *, int> *mdepth;
std::map<void *, VC> *sync_vc; std::map<void *, std::vector<int>> *waiters;
std::map<void *, int> *guards; std::set<uint64_t> *race_seen; std::vector<sched::Race> *races;
std::set<uint32_t> *extra; std::map<void *, int> *mkind;

struct In { int old; In() { old = in_rt; in_rt = 1; } ~In() { in_rt = old; } };
inline Thr *me() { return active && !in_rt ? self_ : NULL; }

void futex_wait(volatile int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, NULL, NULL, 0); }
void futex_wake(volatile int *p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

uint64_t peek(void *a, int w) {
  switch (w) { case 1: return *(volatile uint8_t *)a; case 2: return *(volatile uint16_t *)a; case 4: return *(volatile uint32_t *)a; default: return *(volatile uint64_t *)a; }
}
bool enabled(Thr *t) {
  switch (t->b) {
    case kRun: return true;
    case kMutex: return mowner->find(t->obj) == mowner->end();
    case kCond: return false;
    case kJoin: return ((Thr *)t->obj)->b == kDone;
    case kSpin: return peek(t->obj, t->width) != t->val;
    case kSleep: return step_no > t->sleep_step;
    case kGuard: return guards->find(t->obj) == guards->end();
    case kDone: return false;
  }
  return false;
}
uint64_t mixh(uint64_t h, uint64_t v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; return h; }
void note_state() {
  uint64_t h = 1469598103934665603ULL;
  for (int i = 0; i < nthr; ++i) { h = mixh(h, T[i].opsum); h = mixh(h, T[i].b); }
  for (auto &m : *mowner) h = mixh(h, m.second + 1);
  sched_state(h);
}
void hand(Thr *t) {              // from self_ to t; returns when scheduled again
  Thr *s = self_;
  if (t == s) return;
  ++n_switch;
  char b[64]; snprintf(b, sizeof b, "T%d->T%d", s->id, t->id); sched_note(b);
  int keep = in_rt;
  s->go = 0;
  __sync_synchronize();
  bool dead = s->b == kDone;
  t->go = 1; futex_wake(&t->go);
  if (dead) return;
  while (!s->go) futex_wait(&s->go, 0);
  in_rt = keep;
}
void deadlock() {
  std::string m = "no thread can go on:";
  static const char *nm[] = { "runnable", "waits for a mutex", "waits for a condition", "joins", "waits for a variable", "sleeps", "waits for an initialization", "ended" };
  for (int i = 0; i < nthr; ++i) { char b[64]; snprintf(b, sizeof b, " T%d %s;", i, nm[T[i].b]); m += b; }
  sched_fail(m.c_str());
}
// the running thread cannot go on: someone else must
void give_up() {
  Thr *s = self_;
  for (;;) {
    if (s->b != kDone && enabled(s)) {
      // it may, after all (nobody else had to run)
      return;
    }
    int c[kMaxThr], n = 0;
    for (int d = 1; d < nthr; ++d) { int i = (s->id + d) % nthr; if (enabled(&T[i])) c[n++] = i; }
    if (n == 0) {
      // time passes: busy waits give up, sleepers wake
      int k = 0; Thr *w = NULL;
      for (int i = 0; i < nthr; ++i) if (T[i].b == kSpin || T[i].b == kSleep) { if (!w || T[i].sleeps < w->sleeps) w = &T[i]; ++k; }
      if (!w) { if (s->b == kDone) { bool all = true; for (int i = 0; i < nthr; ++i) if (T[i].b != kDone) all = false; if (all) return; } deadlock(); return; }
      if (++w->sleeps > 200) { deadlock(); return; }
      if (w->b == kSpin) { w->burning = true; w->burn_addr = w->obj; w->burn_n = 0; }
      w->b = kRun;
      if (w == s) return;
      hand(w);
      if (s->b == kDone) return;
      continue;
    }
    int k = 0;
    if (n > 1 && (!cfg.delays || pre_left > 0)) { k = sched_choose(n); if (cfg.delays && k) --pre_left; }
    hand(&T[c[k]]);
    if (s->b == kDone) return;
    if (enabled(s)) return;
  }
}
void block(Block b, void *obj) {
  Thr *s = self_;
  s->b = b; s->obj = obj;
  while (!enabled(s)) { give_up(); if (s->b == kRun) return; }
  s->b = kRun;
}
void did(Thr *s, uint64_t op) { ++s->ops; s->opsum = mixh(s->opsum, op); ++step_no; }
// a point where another thread may be preferred
void maybe_switch(uint64_t op) {
  Thr *s = self_;
  ++n_points;
  did(s, op);
  note_state();
  if (pre_left <= 0) return;
  int c[kMaxThr], n = 0;
  for (int i = 0; i < nthr; ++i) if (&T[i] != s && T[i].b != kDone && enabled(&T[i])) c[n++] = i;
  if (!n) return;
  int k = sched_choose(n + 1);
  if (k == 0) return;
  --pre_left;
  hand(&T[c[k - 1]]);
}
void no_spin(Thr *s) { s->last_addr = NULL; s->same = 0; s->burning = false; }

// ---- happens-before ------------------------------------------------------
struct Acc { uint32_t clk, pc; uint8_t tid, mask, wr, atomic; };
enum { kSlots = 8 };
struct Cell { Acc a[kSlots]; };
enum { kPage = 4096 };
struct ShPage { Cell c[kPage / 8]; };
std::map<uintptr_t, ShPage *> *pages; uintptr_t last_pg = 1; ShPage *last_sh;
ShPage **quick; enum { kQuick = 1 << 16 }; uintptr_t *qkey;
ShPage *page(uintptr_t a, bool make) {
  uintptr_t p = a / kPage;
  size_t q = (p ^ (p >> 16)) & (kQuick - 1);
  if (qkey[q] == p && quick[q]) return quick[q];
  auto it = pages->find(p);
  if (it == pages->end()) {
    if (!make) return NULL;
    ShPage *s = (ShPage *)mmap(NULL, sizeof(ShPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    it = pages->insert(std::make_pair(p, s)).first;
  }
  qkey[q] = p; quick[q] = it->second;
  return it->second;
}
void forget(void *p, size_t n) {
  if (!pages || !n) return;
  uintptr_t a = (uintptr_t)p & ~7UL, e = (uintptr_t)p + n;
  while (a < e) {
    uintptr_t pe = (a / kPage + 1) * kPage, x = pe < e ? pe : e;
    if (ShPage *s = page(a, false)) memset(&s->c[(a % kPage) / 8], 0, ((x - a + 7) / 8) * sizeof(Cell));
    a = pe;
  }
}
std::string func(uint32_t pc) {
  Dl_info i; void *p = (char *)&__executable_start + pc;
  if (dladdr(p, &i) && i.dli_sname) {
    int st; char *d = abi::__cxa_demangle(i.dli_sname, NULL, NULL, &st);
    std::string r = d ? d : i.dli_sname; free(d);
    return r.substr(0, 160);
  }
  char b[32]; snprintf(b, sizeof b, "+0x%x", pc); return b;
}
void race(void *addr, const Acc &x, const Acc &y) {
  uint64_t key = ((uint64_t)(x.pc < y.pc ? x.pc : y.pc) << 32) | (x.pc < y.pc ? y.pc : x.pc);
  if (!race_seen->insert(key).second) return;
  sched::Race r = { x.pc, y.pc, (bool)x.wr, (bool)y.wr };
  races->push_back(r);
  if (cfg.races_fail) {
    std::string m = "data race: ";
    m += x.wr ? "write" : "read"; m += " by T" + std::to_string(x.tid) + " in " + func(x.pc) + " and ";
    m += y.wr ? "write" : "read"; m += " by T" + std::to_string(y.tid) + " in " + func(y.pc) + " are not ordered";
    sched_fail(m.c_str());
  }
}
void access1(Thr *s, uintptr_t cell, uint8_t mask, bool wr, bool atomic, uint32_t pc) {
  Cell *c = &page(cell, true)->c[(cell % kPage) / 8];
  uint32_t clk = s->vc.c[s->id];
  int same = -1, oldest = 0;
  for (int i = 0; i < kSlots; ++i) {
    Acc &a = c->a[i];
    if (!a.clk) { if (same < 0) same = i; continue; }
    if (a.tid == s->id) {
      if (a.mask == mask && a.atomic == atomic && (a.wr || !wr) && a.clk == clk) return;   // nothing new
      if ((a.mask & ~mask) == 0 && (!a.wr || wr) && (a.atomic || !atomic)) same = i;
    } else if ((a.mask & mask) && (a.wr || wr) && !(a.atomic && atomic) && a.clk > s->vc.c[a.tid]) {
      Acc n = { clk, pc, (uint8_t)s->id, mask, wr, atomic };
      race((void *)cell, a, n);
    }
    if (c->a[i].clk < c->a[oldest].clk) oldest = i;
  }
  // drop entries that everyone has seen before evicting others
  int k = same;
  if (k < 0) for (int i = 0; i < kSlots && k < 0; ++i) { Acc &a = c->a[i]; if ((a.mask & ~mask) == 0 && a.clk <= s->vc.c[a.tid] && (wr || !a.wr) && (a.atomic || !atomic)) k = i; }
  if (k < 0) k = oldest;
  Acc n = { clk, pc, (uint8_t)s->id, mask, wr, atomic };
  c->a[k] = n;
}
void hot(Thr *s, uint32_t pc) {
  if (!extra || !extra->count(pc)) return;
  uint32_t n = ++(*s->hits)[pc];
  if (n > 12 && (n & (n - 1))) return;
  maybe_switch(0x5000000000ULL + pc);
  no_spin(s);
}
void access(uintptr_t a, size_t n, bool wr, void *ra, bool atomic = false) {
  Thr *s = me();
  if (!s || !n) return;
  In in;
  uint32_t pc = (uint32_t)((char *)ra - &__executable_start);
  if (extra && !atomic) hot(s, pc);
  ++n_access;
  uintptr_t e = a + n;
  for (uintptr_t c = a & ~7UL; c < e; c += 8) {
    int lo = c < a ? a - c : 0, hi = c + 8 > e ? e - c : 8;
    access1(s, c, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), wr, atomic, pc);
  }
}
void tick(Thr *s) { ++s->vc.c[s->id]; }
void acquire(Thr *s, void *o) { auto it = sync_vc->find(o); if (it != sync_vc->end()) join(&s->vc, it->second); }
void release(Thr *s, void *o) { join(&(*sync_vc)[o], s->vc); tick(s); }

// one variable per call site
#define REAL(n, ...) ([]() { typedef __VA_ARGS__; static X f = NULL; if (!f) f = (X)dlsym(RTLD_NEXT, n); return f; }())

void *thread_main(void *p) {
  Thr *s = (Thr *)p;
  while (!s->go) futex_wait(&s->go, 0);
  self_ = s;
  in_rt = 1;
  pthread_attr_t at; void *sa = NULL; size_t sz = 0;
  if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &sa, &sz); pthread_attr_destroy(&at); forget(sa, sz); }
  in_rt = 0;
  void *r = s->fn(s->arg);
  { in_rt = 1; s->ret = r; did(s, 0xE); tick(s); s->b = kDone; note_state(); give_up(); }
  return r;
}
}  // namespace

namespace sched {
int self() { return self_ ? self_->id : -1; }
std::string where(uint32_t pc) { return func(pc); }
void point(const char *what) {
  Thr *s = me(); if (!s) return;
  In in; no_spin(s); maybe_switch(0x100);
  (void)what;
}
Stats run(const Config &c, const std::function<void()> &body) {
  cfg = c; pre_left = c.preemptions; burn_left = c.burns;
  mowner = new std::map<void *, int>; mdepth = new std::map<void *, int>; sync_vc = new std::map<void *, VC>;
  waiters = new std::map<void *, std::vector<int>>; if (!guards) guards = new std::map<void *, int>;
  race_seen = new std::set<uint64_t>; races = new std::vector<Race>; pages = new std::map<uintptr_t, ShPage *>;
  mkind = new std::map<void *, int>;
  quick = (ShPage **)calloc(kQuick, sizeof *quick); qkey = (uintptr_t *)calloc(kQuick, sizeof *qkey);
  extra = NULL;
  if (c.points && *c.points) { extra = new std::set<uint32_t>; std::string s = c.points; char *p = &s[0]; for (char *t = strtok(p, ","); t; t = strtok(NULL, ",")) extra->insert(strtoul(t, NULL, 0)); }
  memset(T, 0, sizeof T); nthr = 1; step_no = 1; n_points = n_access = n_switch = 0;
  T[0].vc.c[0] = 1; T[0].b = kRun; T[0].go = 1; T[0].hits = new std::map<uint32_t, uint32_t>;
  self_ = &T[0]; in_rt = 0;
  __sync_synchronize();
  active = true;
  body();
  in_rt = 1;
  // let the others end or block
  Stats st;
  for (int i = 1; i < nthr; ++i) if (T[i].b != kDone && !T[i].detached) { sched_fail("a thread is still running after everything was released"); }
  active = false;
  st.points = n_points; st.accesses = n_access; st.switches = n_switch; st.races = *races; st.threads = nthr;
  in_rt = 0; self_ = NULL;
  return st;
}
}  // namespace sched

extern "C" {
// ---- threads ---------------------------------------------------------------
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  auto f = REAL("pthread_create", int (*X)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
  Thr *s = me();
  if (!s) return f(t, at, fn, arg);
  In in; no_spin(s);
  if (nthr >= kMaxThr) { sched_fail("too many threads"); return EAGAIN; }
  Thr *n = &T[nthr]; memset(n, 0, sizeof *n);
  n->id = nthr; n->fn = fn; n->arg = arg; n->b = kRun; n->hits = new std::map<uint32_t, uint32_t>;
  n->vc = s->vc; n->vc.c[n->id] = 1; tick(s);
  int r = f(&n->real, at, thread_main, n);
  if (r) return r;
  ++nthr;
  *t = n->real;
  maybe_switch(1);
  return 0;
}
static Thr *thread_of(pthread_t t) { for (int i = 1; i < nthr; ++i) if (!T[i].joined && pthread_equal(T[i].real, t)) return &T[i]; return NULL; }
int pthread_join(pthread_t t, void **ret) {
  auto f = REAL("pthread_join", int (*X)(pthread_t, void **));
  Thr *s = me(); Thr *o = s ? thread_of(t) : NULL;
  if (!o) return f(t, ret);
  In in; no_spin(s); did(s, 2);
  block(kJoin, o);
  join(&s->vc, o->vc); o->joined = true;
  return f(t, ret);
}
int pthread_detach(pthread_t t) {
  auto f = REAL("pthread_detach", int (*X)(pthread_t));
  if (Thr *s = me()) { In in; (void)s; if (Thr *o = thread_of(t)) o->detached = true; }
  return f(t);
}
// ---- mutexes ---------------------------------------------------------------
static int lock(Thr *s, pthread_mutex_t *m) {
  auto it = mowner->find(m);
  if (it != mowner->end() && it->second == s->id) {
    if (((m->__data.__kind) & 3) == PTHREAD_MUTEX_RECURSIVE) { ++(*mdepth)[m]; return 0; }
    sched_fail("a thread locks a mutex that it holds already"); return EDEADLK;
  }
  block(kMutex, m);
  (*mowner)[m] = s->id; (*mdepth)[m] = 1;
  acquire(s, m);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  Thr *s = me(); if (!s) return REAL("pthread_mutex_lock", int (*X)(pthread_mutex_t *))(m);
  In in; no_spin(s); maybe_switch(3);
  return lock(s, m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  Thr *s = me(); if (!s) return REAL("pthread_mutex_trylock", int (*X)(pthread_mutex_t *))(m);
  In in; no_spin(s); maybe_switch(4);
  auto it = mowner->find(m);
  if (it != mowner->end()) { if (it->second == s->id && ((m->__data.__kind) & 3) == PTHREAD_MUTEX_RECURSIVE) { ++(*mdepth)[m]; return 0; } return EBUSY; }
  return lock(s, m);
}
static int unlock(Thr *s, pthread_mutex_t *m) {
  auto it = mowner->find(m);
  if (it == mowner->end() || it->second != s->id) { sched_fail("a thread unlocks a mutex that it does not hold"); return EPERM; }
  if (--(*mdepth)[m]) return 0;
  release(s, m); mowner->erase(it);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  Thr *s = me(); if (!s) return REAL("pthread_mutex_unlock", int (*X)(pthread_mutex_t *))(m);
  In in; no_spin(s); did(s, 5);
  return unlock(s, m);
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  if (Thr *s = me()) { In in; (void)s; mowner->erase(m); sync_vc->erase(m); }
  return REAL("pthread_mutex_init", int (*X)(pthread_mutex_t *, const pthread_mutexattr_t *))(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  Thr *s = me(); if (!s) return REAL("pthread_mutex_destroy", int (*X)(pthread_mutex_t *))(m);
  In in; (void)s; if (mowner->count(m)) { sched_fail("a locked mutex is destroyed"); }
  access((uintptr_t)m, sizeof *m, true, __builtin_return_address(0));
  return 0;
}
// ---- conditions --------------------------------------------------------------
static int cwait(pthread_cond_t *c, pthread_mutex_t *m) {
  Thr *s = me(); In in; no_spin(s); maybe_switch(6);
  int d = (*mdepth)[m]; (*mdepth)[m] = 1;
  if (unlock(s, m)) return EPERM;
  (*waiters)[c].push_back(s->id);
  s->b = kCond; s->obj = c;
  give_up();
  // signalled: get the mutex back
  s->b = kRun;
  block(kMutex, m);
  (*mowner)[m] = s->id; (*mdepth)[m] = d; acquire(s, m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!me()) return REAL("pthread_cond_wait", int (*X)(pthread_cond_t *, pthread_mutex_t *))(c, m);
  return cwait(c, m);
}
static void wake(pthread_cond_t *c, int i) {
  std::vector<int> &w = (*waiters)[c]; int t = w[i]; w.erase(w.begin() + i); T[t].b = kRun;
}
// a timed wait: the time may pass at once
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  Thr *s = me(); if (!s) return REAL("pthread_cond_timedwait", int (*X)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *))(c, m, ts);
  In in; no_spin(s); maybe_switch(6);
  unlock(s, m); s->b = kSleep; s->sleep_step = step_no; s->obj = c; (*waiters)[c].push_back(s->id);
  give_up();
  s->b = kRun; int r = ETIMEDOUT; std::vector<int> &w = (*waiters)[c]; bool still = false;
  for (size_t i = 0; i < w.size(); ++i) if (w[i] == s->id) { w.erase(w.begin() + i); still = true; break; }
  if (!still) r = 0;
  block(kMutex, m); (*mowner)[m] = s->id; (*mdepth)[m] = 1; acquire(s, m);
  return r;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { (void)k; return pthread_cond_timedwait(c, m, ts); }
int pthread_cond_signal(pthread_cond_t *c) {
  Thr *s = me(); if (!s) return REAL("pthread_cond_signal", int (*X)(pthread_cond_t *))(c);
  In in; no_spin(s); maybe_switch(7);
  std::vector<int> &w = (*waiters)[c];
  if (!w.empty()) wake(c, w.size() == 1 ? 0 : sched_choose(w.size()));
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  Thr *s = me(); if (!s) return REAL("pthread_cond_broadcast", int (*X)(pthread_cond_t *))(c);
  In in; no_spin(s); maybe_switch(8);
  while (!(*waiters)[c].empty()) wake(c, 0);
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  if (me()) { In in; waiters->erase(c); }
  return REAL("pthread_cond_init", int (*X)(pthread_cond_t *, const pthread_condattr_t *))(c, a);
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!me()) return REAL("pthread_cond_destroy", int (*X)(pthread_cond_t *))(c);
  In in; if (!(*waiters)[c].empty()) sched_fail("a condition is destroyed while a thread waits for it");
  return 0;
}
// ---- time ----------------------------------------------------------------------
static void doze() { Thr *s = me(); In in; no_spin(s); did(s, 9); s->b = kSleep; s->sleep_step = step_no; s->obj = NULL; give_up(); s->b = kRun; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!me()) return REAL("nanosleep", int (*X)(const struct timespec *, struct timespec *))(a, b); doze(); return 0; }
int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { if (!me()) return REAL("clock_nanosleep", int (*X)(clockid_t, int, const struct timespec *, struct timespec *))(k, f, a, b); doze(); return 0; }
int usleep(useconds_t u) { if (!me()) return REAL("usleep", int (*X)(useconds_t))(u); doze(); return 0; }
int sched_yield() { if (!me()) return REAL("sched_yield", int (*X)())(); doze(); return 0; }
// ---- initialization of statics ------------------------------------------------
static int guard_acquire(char *g, void *key) {
  Thr *s = me();
  if (!s) { if (*g) return 0; return 1; }
  In in; no_spin(s); maybe_switch(10);
  for (;;) {
    if (*g) { acquire(s, key); return 0; }
    if (!guards->count(key)) { (*guards)[key] = s->id; return 1; }
    if ((*guards)[key] == s->id) { sched_fail("recursive initialization of a static"); return 0; }
    block(kGuard, key);
  }
}
int __cxa_guard_acquire(abi::__guard *g) { return guard_acquire((char *)g, g); }
void __cxa_guard_release(abi::__guard *g) noexcept {
  Thr *s = me();
  if (s) { In in; release(s, g); guards->erase(g); did(s, 11); }
  *(char *)g = 1;
}
void __cxa_guard_abort(abi::__guard *g) noexcept { if (me()) { In in; guards->erase(g); } }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!me()) return REAL("pthread_once", int (*X)(pthread_once_t *, void (*)(void)))(o, f);
  static std::map<void *, char> done;
  char *d; { In in; d = &done[o]; if (*o == 2) *d = 1; }
  if (guard_acquire(d, o)) { f(); Thr *s = me(); In in; release(s, o); guards->erase(o); *d = 1; *o = 2; }
  return 0;
}
// ---- memory ----------------------------------------------------------------------
static void fresh(void *p) { if (active && p && pages) { In in; forget(p, malloc_usable_size(p)); } }
void *malloc(size_t n) { void *p = __libc_malloc(n); if (me()) fresh(p); return p; }
void *calloc(size_t n, size_t m) { void *p = __libc_calloc(n, m); if (me()) fresh(p); return p; }
void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (me()) fresh(p); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (me()) fresh(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
// a release is a write to the whole block: anyone who still uses it races
void free(void *p) {
  if (p && me()) { access((uintptr_t)p, malloc_usable_size(p), true, __builtin_return_address(0)); fresh(p); }
  __libc_free(p);
}

// ---- instrumentation ---------------------------------------------------------------
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, RA); } \
  void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, RA); } \
  void __tsan_read_write##n(void *a) { access((uintptr_t)a, n, true, RA); } \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, RA); } \
  void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, RA); } \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, RA); } \
  void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, RA); } \
  void __tsan_unaligned_read_write##n(void *a) { access((uintptr_t)a, n, true, RA); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access((uintptr_t)a, n, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void *a) { access((uintptr_t)a, n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false, RA); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true, RA); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, RA); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access((uintptr_t)a, 8, true, RA); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access((uintptr_t)s, n, false, RA); access((uintptr_t)d, n, true, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access((uintptr_t)d, n, true, RA); return memset(d, c, n); }

// atomics: mo 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo >= 3; }
// Before an atomic operation. Detects busy waits: the third load in a row of
// the same unchanged variable.
static void a_load(Thr *s, void *a, int w) {
  uint64_t v = peek(a, w);
  if (s->burning) {
    if (a == s->burn_addr && v == s->last_val) {
      if (++s->burn_n > 3000000) sched_fail("a busy wait never ends");
      return;
    }
    s->burning = false;
  }
  if (s->last_addr == a && s->last_val == v) {
    if (++s->same >= 2) {
      did(s, 13);
      if (burn_left > 0 && sched_choose(2)) { --burn_left; s->burning = true; s->burn_addr = a; s->burn_n = 0; return; }
      s->b = kSpin; s->obj = a; s->val = v; s->width = w;
      give_up();
      s->b = kRun; s->same = 0;
      s->last_addr = a; s->last_val = peek(a, w);
      return;
    }
    return;       // a repeated look changes nothing for others
  }
  no_spin(s);
  maybe_switch(12);
  s->last_addr = a; s->last_val = peek(a, w); s->same = 0;
}
static void sync_load(Thr *s, void *a, int mo) {
  auto it = sync_vc->find(a);
  if (it == sync_vc->end()) return;
  if (acq(mo)) join(&s->vc, it->second); else join(&s->acq, it->second);
}
static void sync_store(Thr *s, void *a, int mo, bool rmw) {
  VC &v = (*sync_vc)[a];
  if (!rmw) { memset(&v, 0, sizeof v); }
  if (rel(mo)) { join(&v, s->vc); tick(s); }
  else if (s->has_rel) join(&v, s->rel);
}
#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *a, int mo) { \
    Thr *s = me(); \
    if (s && s->burning && (void *)a == s->burn_addr && peek((void *)a, sizeof(type)) == s->last_val && ++s->burn_n < 3000000) return *a; \
    if (s) { In in; a_load(s, (void *)a, sizeof(type)); } \
    access((uintptr_t)a, sizeof(type), false, RA, true); \
    if (s) { In in; sync_load(s, (void *)a, mo); } return *a; } \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { \
    Thr *s = me(); if (s) { In in; no_spin(s); maybe_switch(14); } \
    access((uintptr_t)a, sizeof(type), true, RA, true); \
    if (s) { In in; sync_store(s, (void *)a, mo, false); } *a = v; } \
  static type rmw##bits(volatile type *a, int mo, void *ra, type (*f)(type, type), type v) { \
    Thr *s = me(); if (s) { In in; no_spin(s); maybe_switch(15); } \
    access((uintptr_t)a, sizeof(type), true, ra, true); \
    if (s) { In in; sync_load(s, (void *)a, mo); sync_store(s, (void *)a, mo, true); } \
    type o = *a; while (!__atomic_compare_exchange_n(a, &o, f(o, v), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { } return o; } \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type, type y) -> type { return y; }, v); } \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type x, type y) -> type { return x + y; }, v); } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type x, type y) -> type { return x - y; }, v); } \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type x, type y) -> type { return x & y; }, v); } \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type x, type y) -> type { return x | y; }, v); } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type x, type y) -> type { return x ^ y; }, v); } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int mo) { return rmw##bits(a, mo, RA, [](type x, type y) -> type { return ~(x & y); }, v); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int mo, int fmo) { \
    Thr *s = me(); if (s) { In in; no_spin(s); maybe_switch(16); } \
    if (!s) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    bool ok = *a == *e; \
    access((uintptr_t)a, sizeof(type), ok, RA, true); \
    if (s) { In in; sync_load(s, (void *)a, ok ? mo : fmo); if (ok) sync_store(s, (void *)a, mo, true); } \
    if (ok) *a = v; else *e = *a; \
    return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  Thr *s = me(); if (!s) return;
  In in;
  if (acq(mo)) join(&s->vc, s->acq);
  if (rel(mo)) { s->rel = s->vc; s->has_rel = true; tick(s); }
}
void __tsan_atomic_signal_fence(int) {}

// the matrix product of the BLAS library
struct SgemmArgs;
void __real_cblas_sgemm(int, int, int, int, int, int, float, const float *, int, const float *, int, float, float *, int);
void __wrap_cblas_sgemm(int o, int ta, int tb, int m, int n, int k, float al, const float *a, int lda, const float *b, int ldb, float be, float *c, int ldc) {
  if (me() && o == 101 && ta == 111 && tb == 111) {
    for (int i = 0; i < m; ++i) access((uintptr_t)(a + (size_t)i * lda), 4 * k, false, RA);
    for (int i = 0; i < k; ++i) access((uintptr_t)(b + (size_t)i * ldb), 4 * n, false, RA);
    for (int i = 0; i < m; ++i) access((uintptr_t)(c + (size_t)i * ldc), 4 * n, true, RA);
  }
  __real_cblas_sgemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
}
}  // extern "C"
