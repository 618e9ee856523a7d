// C09: every operation sequence on HashTable against std::map.
#include <limits.h>
#include <map>
#include <stddef.h>
#include "mc.h"
namespace pocketkaldi {
// a key type with a user-supplied hash, like the decoder's state pairs
struct PairKey {
  int32_t a, b;
  PairKey() : a(0), b(0) {}
  PairKey(int32_t x, int32_t y) : a(x), b(y) {}
  bool operator==(const PairKey &o) const { return a == o.a && b == o.b; }
  bool operator<(const PairKey &o) const { return a != o.a ? a < o.a : b < o.b; }
};
inline int32_t hash(PairKey k) { return k.a; }   // b does not take part: forced collisions
}
#include "hashtable.h"
using namespace pocketkaldi;

static const int kPrimes[] = { 2, 5, 11, 17, 37, 67 };
static int prime_for(int cap) {
  for (int p : kPrimes) if (p >= cap) return p;
  return 2;
}

template<typename K> static void check_all(HashTable<K, int> *t, const std::map<K, int> &ref, const std::vector<K> &keys) {
  uint64_t h = ref.size();
  for (size_t i = 0; i < keys.size(); ++i) {
    typename std::map<K, int>::const_iterator it = ref.find(keys[i]);
    int want = it == ref.end() ? -77 : it->second;
    int got = t->Find(keys[i], -77);
    MC_CHECK(got == want, "Find(key #%zu) = %d, the last inserted value is %d", i, got, want);
    h = mc::mix(h, got);
  }
  mc::state(h);
}

static void seq_body(const std::vector<int> &caps, int depth) {
  int cap = mc::pick(caps);
  int p = prime_for(cap);
  // colliding, neighbouring and negative keys
  std::vector<int> keys;
  keys.push_back(0); keys.push_back(p); keys.push_back(2 * p); keys.push_back(1);
  keys.push_back(-p); keys.push_back(-1); keys.push_back(p == 5 ? 15 : 5);
  mc::note("cap %d", cap);
  HashTable<int, int> t(cap);
  std::map<int, int> ref;
  check_all(&t, ref, keys);
  int val = 0;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose((int)keys.size() + 2);
    mc::step();
    if (op == (int)keys.size() + 1) break;
    if (op == (int)keys.size()) { t.Clear(); ref.clear(); mc::note("clear"); }
    else { ++val; t.Insert(keys[op], val); ref[keys[op]] = val; mc::note("insert(%d,%d)", keys[op], val); }
    check_all(&t, ref, keys);
  }
  mc::validated();
  mc::outcome(mc::mix(ref.size(), val));
}

static void pair_body(int depth) {
  static const int caps[] = { 1, 2, 4, 5, 10 };
  int cap = caps[mc::choose(5)];
  std::vector<PairKey> keys;
  int p = prime_for(cap);
  for (int i = 0; i < 3; ++i) keys.push_back(PairKey(0, i));
  keys.push_back(PairKey(p, 0)); keys.push_back(PairKey(-3, 0)); keys.push_back(PairKey(INT_MIN, 7));
  keys.push_back(PairKey(INT_MAX, 7));
  HashTable<PairKey, int> t(cap);
  std::map<PairKey, int> ref;
  int val = 0;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose((int)keys.size() + 2);
    mc::step();
    if (op == (int)keys.size() + 1) break;
    if (op == (int)keys.size()) { t.Clear(); ref.clear(); }
    else { ++val; t.Insert(keys[op], val); ref[keys[op]] = val; }
    check_all(&t, ref, keys);
  }
  mc::validated();
  mc::outcome(mc::mix(ref.size(), val));
}

// Fill the table through several growth steps; at every size look up every
// present key and several absent ones.
static void fill_body(int maxn) {
  int cap = mc::choose(24);
  static const int strides[] = { 1, 2, 5, 11, 17, 37, 67, 131, -1, -5, 65536, 1031 * 17, 131101, 12345701 };
  int stride = strides[mc::choose(14)];
  static const int bases[] = { 0, 1, -7, INT_MAX - 3, INT_MIN + 9 };
  int base = bases[mc::choose(5)];
  int clear_at = mc::choose(3);      // never, once mid-way, at the end and refill
  mc::note("cap %d stride %d base %d clear %d", cap, stride, base, clear_at);
  HashTable<int, int> t(cap);
  std::map<int, int> ref;
  for (int pass = 0; pass < (clear_at == 2 ? 2 : 1); ++pass) {
    for (int i = 0; i < maxn; ++i) {
      int key = (int)((unsigned)base + (unsigned)i * (unsigned)stride);
      int absent = (int)((unsigned)base + (unsigned)(maxn + i) * (unsigned)stride);
      mc::step(3);
      if (!ref.count(absent)) MC_CHECK(t.Find(absent, -5) == -5, "Find of an absent key returned a value at size %d", i);
      t.Insert(key, i); ref[key] = i;
      MC_CHECK(t.Find(key, -5) == i, "Find after Insert failed at size %d", i);
      if (clear_at == 1 && i == maxn / 2) { t.Clear(); ref.clear(); }
      if (i < 40 || i % 16 == 0 || i == maxn - 1)
        for (auto &kv : ref) MC_CHECK(t.Find(kv.first, -5) == kv.second, "key %d lost at size %d", kv.first, i);
    }
    if (clear_at == 2) { t.Clear(); for (auto &kv : ref) MC_CHECK(t.Find(kv.first, -5) == -5, "key survives Clear"); ref.clear(); }
  }
  mc::validated();
  mc::state(mc::mix(mc::mix(mc::mix(cap, stride), base), clear_at));
  mc::outcome(ref.size());
}

// Few keys in large tables: all sequences of insertions and clearings, keys all
// over the table.
static void sparse_body(int depth) {
  int cap = mc::pick(std::vector<int>{ 100, 1000, 1024, 5000, 70000, 120000 });
  const int b = cap;
  std::vector<int> keys{ 0, 1, b / 2, b - 1, b / 4 * 3 + 1, -1, b / 8 * 7 };
  mc::note("cap %d", cap);
  HashTable<int, int> t(cap); std::map<int, int> ref; int val = 0;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose((int)keys.size() + 3); mc::step();
    if (op == (int)keys.size() + 2) break;
    if (op == (int)keys.size()) { t.Clear(); ref.clear(); mc::note("clear"); }
    else if (op == (int)keys.size() + 1) { for (int i = 0; i < 60; ++i) { int k = (int)((long long)i * b / 60); t.Insert(k, ++val); ref[k] = val; } mc::note("insert 60"); }
    else { ++val; t.Insert(keys[op], val); ref[keys[op]] = val; mc::note("insert(%d,%d)", keys[op], val); }
    check_all(&t, ref, keys);
  }
  for (int i = 0; i < 60; ++i) { int k = (int)((long long)i * b / 60); auto it = ref.find(k); int got = t.Find(k, -77); MC_CHECK(got == (it == ref.end() ? -77 : it->second), "Find(%d) = %d, expected %d", k, got, it == ref.end() ? -77 : it->second); }
  mc::validated(); mc::outcome(mc::mix(ref.size(), val));
}

// Hundreds of thousands of keys: every growth step up to there, every key
// looked up after each of them.
static void big_body(int maxn) {
  int kind = mc::choose(6), cap = mc::pick(std::vector<int>{ 0, 1024, 70000 }), refill = mc::choose(2);
  mc::note("kind %d cap %d refill %d", kind, cap, refill);
  auto key = [&](int i) -> int {
    switch (kind) {
      case 0: return i;
      case 1: return -i;
      case 2: return 3 * i + 1;
      case 3: return INT_MAX - i;
      case 4: return (int)((unsigned)i * 2654435761u);       // injective
      default: return (int)((unsigned)i * 1664525u + 1013904223u);
    }
  };
  HashTable<int, int> t(cap); int next = 64;
  for (int pass = 0; pass < 1 + refill; ++pass) {
    next = 64;
    for (int i = 0; i < maxn; ++i) {
      if (pass && i % 3 == 0) continue;
      t.Insert(key(i), i + pass);
      if (i == next || i == maxn - 1) {
        next = next * 2 - next / 4;
        for (int j = 0; j <= i; ++j) { int want = pass && j % 3 == 0 ? -5 : j + pass; int got = t.Find(key(j), -5); if (got != want) mc::fail("key #%d of %d: Find = %d, expected %d", j, i + 1, got, want); }
        for (int j = i + 1; j < i + 3000 && j < maxn; ++j) { int got = t.Find(key(j), -5); if (got != -5) mc::fail("absent key #%d: Find = %d with %d keys", j, got, i + 1); }
        mc::step(i);
      }
    }
    for (int j = 0; j < maxn; j += 5) t.Insert(key(j), j - 9);
    for (int j = 0; j < maxn; ++j) { int want = j % 5 == 0 ? j - 9 : pass && j % 3 == 0 ? -5 : j + pass; int got = t.Find(key(j), -5); if (got != want) mc::fail("key #%d after updates: Find = %d, expected %d", j, got, want); }
    if (!pass && refill) { t.Clear(); for (int j = 0; j < maxn; ++j) if (t.Find(key(j), -5) != -5) mc::fail("key #%d survives Clear", j); }
  }
  mc::validated(); mc::state(mc::mix(mc::mix(kind, cap), refill)); mc::outcome(kind);
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  std::vector<int> caps;
  for (int i = 0; i <= 12; ++i) caps.push_back(i);
  int d = q ? 6 : 7;
  mc::add("sequences", mc::fmt("capacities 0..12, insert/clear over 7 colliding keys, all lookups after every step, depth %d", d), [=] { seq_body(caps, d); });
  int e = q ? 6 : 7;
  mc::add("pair-keys", mc::fmt("user-defined hash with forced collisions, depth %d", e), [=] { pair_body(e); });
  int n = q ? 500 : 2500;
  mc::add("growth", mc::fmt("24 capacities x 14 strides x 5 bases x 3 clear points, %d insertions each with absent lookups", n), [=] { fill_body(n); });
  int s = q ? 4 : 5;
  mc::add("sparse", mc::fmt("6 capacities up to 120000, few keys, insert/clear/insert 60 keys, depth %d", s), [=] { sparse_body(s); });
  int b = q ? 150000 : 1500000;
  mc::add("big", mc::fmt("6 key families x 3 capacities x refill, %d insertions, all keys looked up at every growth step", b), [=] { big_body(b); });
  return mc::main(argc, argv);
}
