// C20: parallel quantized multiplication, every schedule up to a preemption bound.
#include <pthread.h>
#include <memory>
#include <thread>
#include "mc.h"
#include "sched_glue.h"
#include "kit.h"
#include "matrix.h"
#include "gemmlowp/public/gemmlowp.h"
#include "gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.h"
namespace g8 = gemmlowp::eight_bit_int_gemm;
// checks on threads of the execution: without the explorer's counters
#define T_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
namespace {
sched::Config cfg(int pre, int burns, bool delays = false) { sched::Config c; c.preemptions = pre; c.burns = burns; c.delays = delays; return c; }
void execute(const sched::Config &c, const std::function<void()> &f) {
  mc::forked([&]() {
    sched::Stats st = sched::run(c, f);
    mc::validated();
    mc::outcome(mc::fmt("%d threads %d", st.threads, (int)std::min<uint64_t>(st.switches, 40)));
    mc::note("threads %d, scheduling points %d, accesses checked %d", st.threads, (int)st.points, (int)st.accesses);
  });
}

// ---- the worker pool alone, tasks that only count ---------------------------
struct Count : gemmlowp::Task {
  int runs; int value; gemmlowp::Allocator *seen;
  Count() : runs(0), value(0), seen(NULL) {}
  void Run() override { ++runs; seen = local_allocator; value = value * 2 + 1; }
};
// batches: numbers of tasks of the successive calls
void pool(const std::vector<int> &batches, bool legacy) {
  gemmlowp::WorkersPool *p = new gemmlowp::WorkersPool;
  for (size_t b = 0; b < batches.size(); ++b) {
    int n = batches[b];
    if (!legacy) {
      std::vector<Count> ts(n);
      p->Execute(n, ts.data());
      for (int i = 0; i < n; ++i) {
        MC_CHECK(ts[i].runs == 1 && ts[i].value == 1, "batch %d: task %d of %d ran %d times when Execute returned", (int)b, i, n, ts[i].runs);
        for (int k = 0; k < i; ++k) MC_CHECK(ts[i].seen && ts[i].seen != ts[k].seen, "batch %d: tasks %d and %d share an allocator", (int)b, k, i);
      }
    } else {
      // the tasks are destroyed by the pool: they report through counters
      struct Rep : gemmlowp::Task { int *r, *d; Rep(int *a, int *b) : r(a), d(b) {} ~Rep() { ++*d; } void Run() override { ++*r; } };
      std::vector<int> r(n), d(n); std::vector<gemmlowp::Task *> ts;
      for (int i = 0; i < n; ++i) ts.push_back(new Rep(&r[i], &d[i]));
      p->LegacyExecuteAndDestroyTasks(ts);
      for (int i = 0; i < n; ++i) MC_CHECK(r[i] == 1 && d[i] == 1, "batch %d: task %d of %d ran %d times and was destroyed %d times", (int)b, i, n, r[i], d[i]);
    }
  }
  delete p;
}

// ---- multiplication -----------------------------------------------------------
struct Mul {
  int m, n, k; std::vector<uint8_t> a, b; int za, zb;
  std::vector<int32_t> want;
  // all operands row major; c row major
  Mul(int m_, int n_, int k_, int seed) : m(m_), n(n_), k(k_), za(-(seed * 37 % 256)), zb(-(seed * 91 % 256)) {
    kit::Lcg r(seed);
    a.resize(m * k); b.resize(k * n); want.assign(m * n, 0);
    for (auto &x : a) x = r.next() % 256;
    for (auto &x : b) x = r.next() % 256;
    for (int i = 0; i < m; ++i) for (int l = 0; l < k; ++l) { int x = a[i * k + l] + za; for (int j = 0; j < n; ++j) want[i * n + j] += x * (b[l * n + j] + zb); }
  }
  void go() const {
    std::unique_ptr<float[]> c(new float[m * n]);
    for (int i = 0; i < m * n; ++i) c[i] = -7;
    g8::EightBitIntGemm(true, true, true, m, n, k, a.data(), za, k, b.data(), zb, n, c.get(), 0.5f, n, g8::BitDepthSetting::A8B8);
    for (int i = 0; i < m * n; ++i) T_CHECK(c[i] == want[i] * 0.5f, "%dx%dx%d: element (%d,%d) is %g, expected %g", m, n, k, i / n, i % n, c[i], want[i] * 0.5f);
  }
  // 8 bit results: shift so that all values are meaningful
  void go8() const {
    std::unique_ptr<uint8_t[]> c(new uint8_t[m * n]);
    memset(c.get(), 0xa5, m * n);
    g8::EightBitIntGemm(true, true, true, m, n, k, a.data(), za, k, b.data(), zb, n, c.get(), 4096 * 8, 1, 12, n, g8::BitDepthSetting::A8B8);
    for (int i = 0; i < m * n; ++i) {
      int64_t x = (int64_t)want[i] + 4096 * 8; int v = (int)((x + 2048) >> 12); v = v < 0 ? 0 : v > 255 ? 255 : v;
      T_CHECK(c[i] == v, "%dx%dx%d: element (%d,%d) is %d, expected %d", m, n, k, i / n, i % n, c[i], v);
    }
  }
};
const Mul &mul(int m, int n, int k, int seed) {
  static std::map<std::string, std::unique_ptr<Mul>> t;
  std::unique_ptr<Mul> &p = t[mc::fmt("%d %d %d %d", m, n, k, seed)];
  if (!p) p.reset(new Mul(m, n, k, seed));
  return *p;
}
}  // namespace

int main(int argc, char **argv) {
  bool q = true;
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--tier")) q = strcmp(argv[i + 1], "thorough") != 0;

  struct P { const char *name; std::vector<int> batches; int pre, burns, split; };
  std::vector<P> ps = {
    { "pool-2", { 2 }, q ? 4 : 7, 1, 14 },
    { "pool-2-2", { 2, 2 }, q ? 3 : 5, 1, 18 },
    { "pool-2-2-2", { 2, 2, 2 }, q ? 2 : 4, 1, 22 },
    { "pool-3", { 3 }, q ? 2 : 4, 1, 16 },
    { "pool-3-3", { 3, 3 }, q ? 1 : 3, 1, 18 },
    { "pool-2-3", { 2, 3 }, q ? 2 : 3, 1, 18 },
    { "pool-3-2", { 3, 2 }, q ? 1 : 3, 1, 18 },
    { "pool-3-1-2", { 3, 1, 2 }, q ? 2 : 3, 0, 18 },
    { "pool-4", { 4 }, q ? 1 : 2, 1, 14 },
    { "pool-4-2-4", { 4, 2, 4 }, q ? 1 : 3, 0, 18 },
  };
  static std::vector<P> keep; keep = ps;
  for (size_t i = 0; i < keep.size(); ++i)
    for (int legacy = 0; legacy < 2; ++legacy) {
      const P *p = &keep[i];
      std::string nm = std::string(p->name) + (legacy ? "-legacy" : "");
      bool delays = p->name[5] != '2' || strchr(p->name, '3');
      int pre = p->pre - (legacy && q && p->pre > 1);
      mc::add(nm, mc::fmt("all schedules with up to %d %s and %d abandoned busy waits", pre, delays ? "delays" : "preemptions", p->burns), [p, legacy, pre, delays]() {
        mc::C().split = p->split;
        execute(cfg(pre, p->burns, delays), [&]() { pool(p->batches, legacy != 0); });
      });
    }

  // successive calls through the public interface; numbers are thread limits
  struct G { const char *name; std::vector<int> lim; int m, n, k, pre, burns; };
  static std::vector<G> gs = {
    { "gemm-2", { 2 }, 32, 32, 128, q ? 3 : 4, 1 },
    { "gemm-2-2", { 2, 2 }, 32, 32, 128, q ? 2 : 3, 1 },
    { "gemm-3-2-3", { 3, 2, 3 }, 48, 40, 104, q ? 1 : 2, 0 },
    { "gemm-1-4", { 1, 4, 1 }, 64, 33, 125, q ? 1 : 2, 0 },
    { "gemm-tall", { 3, 3 }, 100, 5, 400, q ? 1 : 2, 0 },
    { "gemm-wide", { 3, 2 }, 5, 100, 400, q ? 1 : 2, q ? 0 : 1 },
  };
  for (size_t i = 0; i < gs.size(); ++i) {
    const G *p = &gs[i];
    mc::add(p->name, mc::fmt("%dx%dx%d, all schedules with up to %d delays and %d abandoned busy waits", p->m, p->n, p->k, p->pre, p->burns), [p]() {
      mc::C().split = 12;
      const Mul &a = mul(p->m, p->n, p->k, 1), &b = mul(p->m, p->n, p->k, 2);
      execute(cfg(p->pre, p->burns, true), [&]() {
        for (size_t k = 0; k < p->lim.size(); ++k) { g8::SetMaxNumThreads(p->lim[k]); (k % 2 ? b : a).go(); }
        g8::FreePersistentResources();
      });
    });
  }
  // concurrent callers of the public interface
  struct Op { char c; int v; };
  struct K { const char *name; std::vector<std::vector<Op>> t; int pre, burns; };
  static std::vector<K> ks = {
    { "callers-small", { { { 's', 1 }, { 's', 2 } }, { { 's', 3 }, { 'b', 1 } } }, q ? 3 : 5, 0 },
    { "callers-float-byte", { { { 's', 1 }, { 'b', 2 } }, { { 'b', 3 }, { 's', 1 } } }, q ? 3 : 5, 0 },
    { "callers-three", { { { 's', 1 }, { 'b', 1 } }, { { 'b', 2 }, { 's', 2 } }, { { 's', 3 } } }, q ? 2 : 3, 0 },
    { "callers-free", { { { 's', 1 }, { 'f', 0 }, { 's', 2 } }, { { 's', 3 }, { 'f', 0 } } }, q ? 3 : 5, 0 },
    { "callers-limit", { { { 'l', 2 }, { 'm', 1 } }, { { 'l', 1 }, { 'm', 2 } } }, q ? 1 : 2, 0 },
    { "callers-parallel", { { { 'l', 2 }, { 'm', 1 }, { 'm', 3 } }, { { 'm', 2 }, { 'f', 0 } } }, q ? 1 : 2, 0 },
    { "callers-limit-3", { { { 'm', 1 } }, { { 'l', 3 }, { 'm', 2 }, { 'l', 2 } } }, q ? 1 : 2, 0 },
  };
  for (size_t i = 0; i < ks.size(); ++i) {
    const K *p = &ks[i];
    mc::add(p->name, mc::fmt("%d callers, all schedules with up to %d preemptions", (int)p->t.size(), p->pre), [p]() {
      mc::C().split = 12;
      for (int s = 1; s < 4; ++s) { mul(3 + s, 5 + s, 7 * s, s); mul(32, 32, 128, s); }
      execute(cfg(p->pre, p->burns), [&]() {
        auto body = [&](const std::vector<Op> &ops) {
          for (const Op &o : ops) {
            sched::point("call");
            if (o.c == 's') mul(3 + o.v, 5 + o.v, 7 * o.v, o.v).go();
            else if (o.c == 'b') mul(3 + o.v, 5 + o.v, 7 * o.v, o.v).go8();
            else if (o.c == 'm') mul(32, 32, 128, o.v).go();
            else if (o.c == 'l') g8::SetMaxNumThreads(o.v);
            else g8::FreePersistentResources();
          }
        };
        std::vector<std::thread> ts;
        for (size_t k = 1; k < p->t.size(); ++k) ts.push_back(std::thread(body, std::cref(p->t[k])));
        body(p->t[0]);
        for (auto &t : ts) t.join();
        g8::FreePersistentResources();
      });
    });
  }
  // every shape that is split among workers gives the single-threaded result (default schedule)
  mc::add("shapes", q ? "17..70 rows x 3 columns counts x 4 depths x limits 2..6, 3 kinds of results" : "17..200 rows x 6 x 6 x limits 2..6", [q]() {
    mc::C().split = 2;
    static const int cols[] = { 16, 33, 7, 64, 1, 100 }, deps[] = { 512, 1031, 2048, 700, 301, 128 };
    int rows = 17 + mc::choose(q ? 54 : 184); int ci = mc::choose(q ? 3 : 6), di = mc::choose(q ? 4 : 6);
    int lim = 2 + mc::choose(5); bool byte = mc::flip(), wide = mc::flip();
    if (q && (rows + ci + di + lim + byte) % 5) return;
    int n = cols[ci];
    // no race detection here: the scheduler stays off
    mc::forked([&]() {
      Mul x(wide ? n : rows, wide ? rows : n, deps[di], rows + 100 * n);
      if (byte) x.go8(); else x.go();
      g8::SetMaxNumThreads(lim);
      if (byte) x.go8(); else x.go();
      g8::FreePersistentResources();
      mc::validated(); mc::outcome(mc::fmt("%d %d %d", rows, n, lim)); mc::state(mc::fnv(mc::fmt("%d %d %d %d", rows, n, deps[di], lim)));
    });
  });
  return mc::main(argc, argv);
}
