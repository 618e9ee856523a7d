// C08: every operation sequence on Pool / GCPool against a reference heap.
#include <assert.h>
#include <set>
#include <map>
#include "mc.h"
#include "mem.h"
#include "pool.h"
using namespace pocketkaldi;

// ---- reference bookkeeping, shared by all object types ----------------------
struct Ledger {
  std::map<const void *, int> live;   // address -> serial
  int next, ctor, dtor, collected;
  std::set<int> collected_ids;
  void reset() { live.clear(); next = ctor = dtor = collected = 0; collected_ids.clear(); }
};
static Ledger L;

struct Obj {
  int serial; uint64_t canary; void *self;
  explicit Obj(int tag) : serial(tag), canary(0xC0FFEE00u + tag), self(this) {
    ++L.ctor;
    if (L.live.count(this)) mc::fail("object %d constructed on top of live object %d", tag, L.live[this]);
    L.live[this] = tag;
  }
  ~Obj() {
    ++L.dtor;
    std::map<const void *, int>::iterator it = L.live.find(this);
    if (it == L.live.end()) mc::fail("destructor ran on storage that holds no live object");
    if (it->second != serial) mc::fail("destructor saw object %d where %d lives", serial, it->second);
    L.live.erase(it);
  }
  bool ok(int tag) const { return serial == tag && canary == 0xC0FFEE00u + tag && self == this; }
};

struct Plain { int serial; uint64_t canary; };   // trivially destructible

struct Node : public Collectable {
  Node *prev; Obj o; bool gone;
  Node(Node *p, int tag) : prev(p), o(tag), gone(false) {}
  Node *previous() const { return prev; }
  void OnCollect() override {
    if (gone) mc::fail("OnCollect called twice on node %d", o.serial);
    if (!L.live.count(&o)) mc::fail("OnCollect called on a dead node");
    gone = true;
    ++L.collected;
    L.collected_ids.insert(o.serial);
    (void)(prev && prev->is_freed());   // what the decoder's label nodes do
  }
};

// trivially destructible collectable
struct TNode : public Collectable {
  TNode *prev; int serial; uint64_t canary;
  TNode(TNode *p, int tag) : prev(p), serial(tag), canary(0xC0FFEE00u + tag) {}
  TNode *previous() const { return prev; }
  void OnCollect() override { ++L.collected; L.collected_ids.insert(serial); }
  bool okay(int tag) const { return serial == tag && canary == 0xC0FFEE00u + tag; }
};

static bool ok(Node *n, int tag) { return n->o.ok(tag); }
static bool ok(TNode *n, int tag) { return n->okay(tag); }
static const bool kTracks = true;

// ---- Pool -------------------------------------------------------------------
template<int BS> static void pool_body(int depth) {
  L.reset();
  std::vector<std::pair<Obj *, int>> live;
  int tag = 0, ops = 0;
  {
    Pool<Obj, BS> pool;
    int kinds = 2;
    int first = mc::choose(4);   // shard: pre-population
    for (int i = 0; i < first; ++i) { live.push_back(std::make_pair(pool.Alloc(tag), tag)); ++tag; }
    for (int d = 0; d < depth; ++d) {
      int n = 2 + live.size();
      int op = mc::choose(n + 1);
      if (op == n) break;
      ++ops; mc::step();
      if (op == 0) {
        Obj *o = pool.Alloc(tag);
        for (auto &p : live) if (p.first == o) mc::fail("Alloc returned the address of live object %d", p.second);
        live.push_back(std::make_pair(o, tag)); mc::note("alloc#%d", tag); ++tag;
      } else if (op == 1) {
        pool.Clear(); live.clear(); mc::note("clear");
        MC_CHECK(L.live.empty(), "Clear left %zu objects undestroyed", L.live.size());
      } else {
        int i = op - 2; mc::note("dealloc#%d", live[i].second);
        pool.Dealloc(live[i].first); live.erase(live.begin() + i);
      }
      MC_CHECK(L.live.size() == live.size(), "%zu objects live, %zu expected", L.live.size(), live.size());
      MC_CHECK(pool.allocated_nodes() == (int)live.size(), "allocated_nodes() = %d, %zu live objects",
               pool.allocated_nodes(), live.size());
      MC_CHECK(pool.free_nodes() >= 0, "free_nodes() = %d", pool.free_nodes());
      for (auto &p : live) MC_CHECK(p.first->ok(p.second), "object %d was overwritten", p.second);
      uint64_t h = BS; for (auto &p : live) h = mc::mix(h, p.second);
      h = mc::mix(h, pool.free_nodes()); mc::state(h);
    }
  }
  MC_CHECK(L.live.empty(), "pool destructor left %zu objects undestroyed", L.live.size());
  MC_CHECK(L.ctor == L.dtor, "%d constructions but %d destructions", L.ctor, L.dtor);
  mc::validated();
  mc::outcome(mc::mix(mc::mix(mc::mix(BS, L.ctor), ops), live.size()));
}

// ---- GCPool -----------------------------------------------------------------
template<typename T, int BS> static void gc_body(int depth, int max_live, bool with_dealloc) {
  L.reset();
  struct Ref { T *p; int tag; int prev; };   // prev: tag of predecessor or -1
  std::vector<Ref> live;
  int tag = 0, gcs = 0, freed = 0;
  size_t before = heap_bytes(); (void)before;
  {
    GCPool<T, BS> pool;
    int shard = mc::choose(8);
    int len = 0;
    for (int d = 0; d < depth; ++d) {
      // operations: alloc with each predecessor (or none), GC with each root
      // set, dealloc of each node nobody points to, clear, stop
      int n_alloc = (int)live.size() < max_live ? 1 + (int)live.size() : 0;
      int n_gc = 1 << live.size();
      std::vector<int> dl;
      if (with_dealloc) for (size_t i = 0; i < live.size(); ++i) {
        bool pointed = false;
        for (auto &r : live) if (r.prev == live[i].tag) pointed = true;
        if (!pointed) dl.push_back(i);
      }
      int n = n_alloc + n_gc + (int)dl.size() + (with_dealloc ? 1 : 0);
      int op;
      if (d == 0) {
        // use the shard choice to pre-populate: chain of 0..3 / fan of 0..3
        int k = shard & 3; bool fan = shard >= 4;
        if (fan && k < 2) return;
        for (int i = 0; i < k; ++i) {
          int pi = i == 0 ? -1 : fan ? 0 : i - 1;
          T *p = pool.Alloc(pi < 0 ? (T *)NULL : live[pi].p, tag);
          Ref r = { p, tag, pi < 0 ? -1 : live[pi].tag }; live.push_back(r); ++tag;
        }
        mc::note("prefix %s of %d", fan ? "fan" : "chain", k);
        shard = -1;
        if (k) { n_alloc = (int)live.size() < max_live ? 1 + (int)live.size() : 0; n_gc = 1 << live.size(); dl.clear();
          if (with_dealloc) for (size_t i = 0; i < live.size(); ++i) {
            bool pointed = false;
            for (auto &r : live) if (r.prev == live[i].tag) pointed = true;
            if (!pointed) dl.push_back(i);
          }
          n = n_alloc + n_gc + (int)dl.size() + (with_dealloc ? 1 : 0); }
      }
      op = mc::choose(n);
      mc::step(); ++len;
      if (op < n_alloc) {
        int pi = op - 1;
        T *p = pool.Alloc(pi < 0 ? (T *)NULL : live[pi].p, tag);
        for (auto &r : live) if (r.p == p) mc::fail("Alloc returned the address of live node %d", r.tag);
        MC_CHECK(!p->is_freed(), "fresh node is marked freed");
        Ref r = { p, tag, pi < 0 ? -1 : live[pi].tag };
        mc::note("n%d=alloc(prev %d)", tag, r.prev);
        live.push_back(r); ++tag;
      } else if (op < n_alloc + n_gc) {
        int mask = op - n_alloc;
        std::vector<T *> roots; std::set<int> reach;
        for (size_t i = 0; i < live.size(); ++i) if (mask >> i & 1) roots.push_back(live[i].p), reach.insert(live[i].tag);
        bool grown = true;
        while (grown) { grown = false; for (auto &r : live) if (reach.count(r.tag) && r.prev >= 0 && reach.insert(r.prev).second) grown = true; }
        L.collected = 0; L.collected_ids.clear();
        mc::note("gc(mask %d)", mask);
        pool.GC(roots); ++gcs;
        int dead = 0;
        for (auto &r : live) {
          bool should = !reach.count(r.tag);
          dead += should;
          MC_CHECK(should || !L.collected_ids.count(r.tag), "collection destroyed node %d which is reachable from the roots", r.tag);
          MC_CHECK(!should || L.collected_ids.count(r.tag), "collection kept unreachable node %d", r.tag);
        }
        MC_CHECK(L.collected == dead, "OnCollect ran %d times for %d unreachable nodes", L.collected, dead);
        freed += dead;
        std::vector<Ref> keep;
        for (auto &r : live) if (reach.count(r.tag)) keep.push_back(r);
        live.swap(keep);
      } else if (op < n_alloc + n_gc + (int)dl.size()) {
        int i = dl[op - n_alloc - n_gc]; mc::note("dealloc n%d", live[i].tag);
        pool.Dealloc(live[i].p); live.erase(live.begin() + i);
      } else {
        pool.Clear(); live.clear(); mc::note("clear");
      }
      MC_CHECK(pool.allocated_nodes() == (int)live.size(), "allocated_nodes() = %d, %zu live nodes",
               pool.allocated_nodes(), live.size());
      uint64_t h = mc::mix(BS, pool.free_nodes());
      for (auto &r : live) {
        MC_CHECK(ok(r.p, r.tag), "node %d was overwritten", r.tag);
        MC_CHECK(!r.p->is_freed(), "live node %d is marked freed", r.tag);
        int want = -1; T *wp = NULL;
        for (auto &q : live) if (q.tag == r.prev) { want = q.tag; wp = q.p; }
        MC_CHECK(want == r.prev && r.p->previous() == wp, "predecessor of node %d changed", r.tag);
        h = mc::mix(mc::mix(h, r.tag), r.prev);
      }
      if (sizeof(T) == sizeof(Node) && L.ctor) MC_CHECK(L.live.size() == live.size(), "%zu objects live, %zu expected", L.live.size(), live.size());
      mc::state(h);
    }
  }
  MC_CHECK(L.live.empty(), "pool destructor left %zu objects undestroyed", L.live.size());
  MC_CHECK(L.ctor == L.dtor, "%d constructions but %d destructions", L.ctor, L.dtor);
  mc::validated();
  mc::outcome(mc::mix(mc::mix(mc::mix(tag, gcs), freed), live.size()));
}

// Pools with the default block size, all sequences of large steps.
template<typename P, typename T, typename F> static void large_body(int phases, F make) {
  L.reset();
  {
    std::vector<std::pair<T *, int>> live; live.reserve(100000); P *pool = new P; int tag = 0;
    static const int N[] = { 1, 4095, 4096, 4097, 9000 };
    for (int d = 0; d < phases; ++d) {
      int k = mc::choose(11);
      if (k < 5) { for (int i = 0; i < N[k]; ++i, ++tag) live.push_back(std::make_pair(make(pool, tag), tag)); mc::note("alloc %d", N[k]); }
      else if (k < 10) {
        std::vector<std::pair<T *, int>> keep; size_t n = live.size(); mc::note("dealloc pattern %d", k - 5);
        for (size_t j = 0; j < n; ++j) {
          size_t i = k == 5 ? n - 1 - j : j;               // newest first, otherwise oldest first
          bool go = k <= 6 || (k == 7 && i % 2) || (k == 8 && i < n / 2) || (k == 9 && i % 4096 == 4095);
          if (go) pool->Dealloc(live[i].first); else keep.push_back(live[i]);
        }
        live.swap(keep);
      } else { pool->Clear(); live.clear(); mc::note("clear"); }
      mc::step();
      MC_CHECK(pool->allocated_nodes() == (int)live.size(), "allocated_nodes() = %d, %zu live objects", pool->allocated_nodes(), live.size());
      MC_CHECK(pool->free_nodes() >= 0, "free_nodes() = %d", pool->free_nodes());
      MC_CHECK(L.live.size() == live.size(), "%zu objects live, %zu expected", L.live.size(), live.size());
      for (auto &p : live) MC_CHECK(p.first->ok(p.second), "object %d was overwritten", p.second);
      mc::state(mc::mix(mc::mix(live.size(), tag), pool->free_nodes()));
    }
    delete pool;
  }
  MC_CHECK(L.live.empty(), "pool destructor left %zu objects undestroyed", L.live.size());
  MC_CHECK(L.ctor == L.dtor, "%d constructions but %d destructions", L.ctor, L.dtor);
  L.reset();
  mc::validated(); mc::outcome(L.ctor);
}
// The same with collections: chains of several lengths, roots in patterns.
static void large_gc(int phases) {
  L.reset();
  {
    struct R { Node *p; int tag, prev; }; std::vector<R> live; GCPool<Node> *pool = new GCPool<Node>; int tag = 0;
    static const int N[] = { 1, 4095, 4097, 9000 }; int chain = mc::pick(std::vector<int>{ 1, 3, 5000 });
    for (int d = 0; d < phases; ++d) {
      int k = mc::choose(10); mc::step();
      if (k < 4) {
        int start = live.size();
        for (int i = 0; i < N[k]; ++i, ++tag) {
          int pi = i % chain == 0 ? -1 : (int)live.size() - 1; (void)start;
          R r = { pool->Alloc(pi < 0 ? (Node *)NULL : live[pi].p, tag), tag, pi < 0 ? -1 : live[pi].tag }; live.push_back(r);
        }
        mc::note("alloc %d", N[k]);
      } else if (k < 9) {
        std::vector<Node *> roots; std::map<int, int> at; std::vector<char> reach(live.size(), 0); size_t n = live.size();
        for (size_t i = 0; i < n; ++i) at[live[i].tag] = i;
        for (size_t i = 0; i < n; ++i) {
          bool r = k == 5 || (k == 6 && i % 7 == 3) || (k == 7 && i + 1 == n) || (k == 8 && i % 4096 >= 4094);
          if (r) { roots.push_back(live[i].p); for (int j = i; j >= 0 && !reach[j];) { reach[j] = 1; j = live[j].prev < 0 ? -1 : at[live[j].prev]; } }
        }
        L.collected = 0; L.collected_ids.clear(); pool->GC(roots); mc::note("gc pattern %d", k - 4);
        std::vector<R> keep; int dead = 0;
        for (size_t i = 0; i < n; ++i) {
          MC_CHECK(!reach[i] || !L.collected_ids.count(live[i].tag), "collection destroyed node %d which is reachable", live[i].tag);
          MC_CHECK(reach[i] || L.collected_ids.count(live[i].tag), "collection kept unreachable node %d", live[i].tag);
          if (reach[i]) keep.push_back(live[i]); else ++dead;
        }
        MC_CHECK(L.collected == dead, "OnCollect ran %d times for %d unreachable nodes", L.collected, dead);
        live.swap(keep);
      } else { pool->Clear(); live.clear(); mc::note("clear"); }
      MC_CHECK(pool->allocated_nodes() == (int)live.size(), "allocated_nodes() = %d, %zu live nodes", pool->allocated_nodes(), live.size());
      MC_CHECK(L.live.size() == live.size(), "%zu objects live, %zu expected", L.live.size(), live.size());
      std::map<int, Node *> by; for (auto &r : live) by[r.tag] = r.p;
      for (auto &r : live) { MC_CHECK(r.p->o.ok(r.tag) && !r.p->is_freed(), "node %d was overwritten", r.tag); MC_CHECK(r.p->previous() == (r.prev < 0 ? NULL : by[r.prev]), "predecessor of node %d changed", r.tag); }
      mc::state(mc::mix(mc::mix(live.size(), tag), pool->free_nodes()));
    }
    delete pool;
  }
  MC_CHECK(L.live.empty() && L.ctor == L.dtor, "pool destructor left %zu objects undestroyed", L.live.size());
  L.reset();
  mc::validated();
}
struct Small { int a, b; Small(int x) : a(x), b(~x) {} };
// the storage of a pool goes away with it: no bookkeeping inside the measured region
static void storage() {
  int n = mc::pick(std::vector<int>{ 0, 1, 4095, 4096, 4097, 8192, 8193, 50000 }), pattern = mc::choose(4), again = mc::choose(3);
  std::vector<Small *> v; v.reserve(200000); bool ok = true;
  size_t before = heap_bytes();
  {
    Pool<Small> pool;
    for (int r = 0; r <= again; ++r) {
      size_t base = v.size();
      for (int i = 0; i < n; ++i) v.push_back(pool.Alloc(i));
      for (int i = 0; i < n; ++i) ok = ok && v[base + i]->a == i && v[base + i]->b == ~i;
      if (pattern == 1) for (int i = 0; i < n; ++i) pool.Dealloc(v[base + i]);
      if (pattern == 2) for (int i = n - 1; i >= 0; i -= 2) pool.Dealloc(v[base + i]);
      if (pattern == 3) pool.Clear();
    }
  }
  size_t after = heap_bytes();
  MC_CHECK(ok, "an object was overwritten");
  MC_CHECK(after <= before + 16384, "%zu bytes remain after the pool is destroyed", after - before);
  mc::step(); mc::state(mc::fnv(mc::fmt("st%d %d %d", n, pattern, again))); mc::outcome(mc::fmt("%d %d %d", n, pattern, again)); mc::validated();
}
// Hundreds of thousands of nodes: arrays instead of the ledger.
struct Huge : public Collectable {
  Huge *prev; int tag; std::vector<signed char> *state;       // 1 live, 0 destroyed; counted by the destructor
  std::vector<int> *collects;
  Huge(Huge *p, int t, std::vector<signed char> *s, std::vector<int> *c) : prev(p), tag(t), state(s), collects(c) { ++(*state)[tag]; }
  ~Huge() { --(*state)[tag]; }
  Huge *previous() const { return prev; }
  void OnCollect() override { ++(*collects)[tag]; }
};
static void huge() {
  int n = mc::pick(std::vector<int>{ 60000, 300000, 1100000 }), chain = mc::pick(std::vector<int>{ 1, 5, 1000000 }), keep = mc::choose(4), rounds = 3;
  if (!mc::quick()) rounds = 6;
  std::vector<signed char> state(n * rounds + 1, 0); std::vector<int> collects(n * rounds + 1, 0); std::vector<Huge *> live, roots; int tag = 0;
  {
    GCPool<Huge> pool;
    for (int r = 0; r < rounds; ++r) {
      size_t first = live.size();
      for (int i = 0; i < n; ++i, ++tag) live.push_back(pool.Alloc(i % chain == 0 ? (r && i == 0 && first ? live[0] : NULL) : live.back(), tag, &state, &collects));
      if (pool.allocated_nodes() != (int)live.size()) mc::fail("allocated_nodes() = %d, %zu live nodes", pool.allocated_nodes(), live.size());
      // predecessors come earlier in the list
      std::vector<char> reach(live.size(), 0); std::vector<int> at(tag, -1); roots.clear();
      for (size_t i = 0; i < live.size(); ++i) at[live[i]->tag] = i;
      for (size_t i = live.size(); i-- > 0;) {
        bool root = keep == 0 ? i % 3 == 1 : keep == 1 ? i + 1 == live.size() : keep == 2 ? i % 4096 == 4095 : i < live.size() / 2;
        if (root) { roots.push_back(live[i]); reach[i] = 1; }
        if (reach[i] && live[i]->prev) reach[at[live[i]->prev->tag]] = 1;
      }
      pool.GC(roots); mc::step();
      std::vector<Huge *> left;
      // tags of the destroyed are known from the table, not from their storage
      std::vector<int> of(live.size()); for (int t = 0; t < tag; ++t) if (at[t] >= 0) of[at[t]] = t;
      for (size_t i = 0; i < live.size(); ++i) {
        int t = of[i];
        if (reach[i]) { if (state[t] != 1 || collects[t]) mc::fail("a collection among %zu nodes destroyed node %d, which is reachable", live.size(), t); if (live[i]->tag != t) mc::fail("node %d was overwritten", t); left.push_back(live[i]); }
        else if (state[t] != 0 || collects[t] != 1) mc::fail("a collection among %zu nodes: the unreachable node %d was destroyed %d times and collected %d times", live.size(), t, 1 - state[t], collects[t]);
      }
      live.swap(left);
      if (pool.allocated_nodes() != (int)live.size()) mc::fail("after a collection allocated_nodes() = %d, %zu live nodes", pool.allocated_nodes(), live.size());
      mc::state(mc::mix(mc::mix(live.size(), tag), keep));
    }
  }
  for (int t = 0; t < tag; ++t) if (state[t] != 0) mc::fail("node %d was destroyed %d times in all", t, 1 - state[t]);
  mc::note("%d nodes at a time, chains of %d, roots %d", n, chain, keep); mc::validated(); mc::outcome(mc::fmt("%d %d %d", n, chain, keep));
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  int pd = q ? 8 : 10;
  mc::add("pool/block1", mc::fmt("alloc, dealloc any, clear; up to 3 + %d operations, block size 1", pd), [=] { pool_body<1>(pd); });
  mc::add("pool/block2", mc::fmt("same, block size 2"), [=] { pool_body<2>(pd); });
  mc::add("pool/block3", mc::fmt("same, block size 3"), [=] { pool_body<3>(pd); });
  int gd = q ? 5 : 6;
  mc::add("gc/block1", mc::fmt("alloc with any predecessor, collect with any root set; up to 3 + %d operations, 5 live nodes, block size 1", gd), [=] { gc_body<Node, 1>(gd, 5, false); });
  mc::add("gc/block2", "same, block size 2", [=] { gc_body<Node, 2>(gd, 5, false); });
  mc::add("gc/block4", "same, block size 4", [=] { gc_body<Node, 4>(gd, 5, false); });
  int dd = q ? 5 : 6;
  mc::add("gc+dealloc/block2", mc::fmt("as gc plus dealloc of any unreferenced node and clear; 3 + %d operations", dd), [=] { gc_body<Node, 2>(dd, 4, true); });
  mc::add("gc+dealloc/block3", "same, block size 3", [=] { gc_body<Node, 3>(dd, 4, true); });
  mc::add("gc-trivial/block2", "trivially destructible nodes, dealloc and clear included", [=] { gc_body<TNode, 2>(dd, 4, true); });
  int ld = q ? 3 : 4;
  mc::add("pool/large", mc::fmt("default block size, all sequences of %d steps of up to 9000 allocations, 5 release patterns, clear", ld), [=] { large_body<Pool<Obj>, Obj>(ld, [](Pool<Obj> *p, int t) { return p->Alloc(t); }); });
  mc::add("gc/large", mc::fmt("default block size, all sequences of %d steps of up to 9000 allocations, 5 root patterns, clear, 3 chain lengths", ld), [=] { large_gc(ld); });
  mc::add("gc/huge", "60000 to 1100000 nodes between collections, 3 chain lengths, 4 root patterns", [] { huge(); });
  mc::add("pool/storage", "heap in use before and after pools of up to 150000 objects, 4 release patterns", [] { storage(); });
  return mc::main(argc, argv);
}
