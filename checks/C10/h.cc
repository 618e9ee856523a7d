// C10: back-off LM queries, difference model and cache against a reference
// back-off model (dec::Lm), over all small models and all query sequences.
#include "dec.h"
#include "fst.h"
#include "symbol_table.h"
#include "util.h"
using namespace pocketkaldi;
typedef dec::Lm RLm;

static const int kA = 1, kB = 2;

static void read_lm(const RLm &lm, LmFst *f) {
  std::string p = mc::scratch() + "/lm.bin";
  kit::write_file(p, lm.bytes());
  util::ReadableFile fd;
  Status s = fd.Open(p);
  if (s.ok()) s = f->Read(&fd);
  MC_CHECK(s.ok(), "a well-formed model is not read: %s", s.what().c_str());
}
static void read_sym(SymbolTable *t, int bos, int eos, const std::vector<std::pair<std::string, int>> &words) {
  std::string p = mc::scratch() + "/sym.txt", s = "<eps> 0\n";
  for (auto &w : words) s += mc::fmt("%s %d\n", w.first.c_str(), w.second);
  s += mc::fmt("<s> %d\n</s> %d\n", bos, eos);
  kit::write_file(p, s);
  Status st = t->Read(p);
  MC_CHECK(st.ok(), "symbol table not read: %s", st.what().c_str());
}
static std::string desc(const RLm &lm) {
  std::string s = mc::fmt("start %d ", lm.start);
  for (size_t i = 0; i < lm.st.size(); ++i) {
    s += mc::fmt("[%zu fin %g bo %d/%g", i, lm.st[i].fin, lm.st[i].bo, lm.st[i].bow);
    for (auto &a : lm.st[i].arcs) s += mc::fmt(" %d->%d/%g", a.first, a.second.first, a.second.second);
    s += "] ";
  }
  return s;
}
static void check_get(const RLm &ref, const IFst &f, int h, int w, const char *what, double sub) {
  int n; double c;
  bool want = ref.get(h, w, &n, &c);
  FstArc a(-7, -7, -7, -777.0f);
  bool got = f.GetArc(h, w, &a);
  MC_CHECK(got == want, "%s: word %d in history %d %s, the back-off chain %s", what, w, h, got ? "found" : "not found", want ? "has it" : "ends");
  if (!want) return;
  MC_CHECK(a.next_state == n && a.output_label == w && a.input_label == w, "%s: word %d in history %d leads to %d (label %d), expected %d", what, w, h, a.next_state, a.output_label, n);
  MC_CHECK(fabs(a.weight - (c - sub)) < 1e-5, "%s: word %d in history %d weighs %g, expected %g", what, w, h, a.weight, c - sub);
}

// all models over `n` states, 2 words
static void models(int n) {
  RLm lm; lm.st.resize(n);
  for (int i = 0; i < n; ++i) {
    RLm::S &s = lm.st[i];
    int sub = mc::choose(4);
    if (sub & 1) s.arcs[kA] = std::make_pair((i + 1) % n, 0.25 * (i + 1));
    if (sub & 2) s.arcs[kB] = std::make_pair((i + 2) % n, 1.0 + 0.5 * i);
    s.bo = mc::choose(i + 1) - 1;                 // -1: no back-off arc
    s.bow = 8 << i;
    if (mc::flip()) s.fin = 100 * (i + 1);
  }
  // State numbers: the unigram state first, or last
  int shift = mc::choose(2);
  if (shift) {
    RLm m; m.st.resize(n);
    auto f = [&](int x) { return x < 0 ? x : (n - 1 - x); };
    for (int i = 0; i < n; ++i) {
      RLm::S s = lm.st[i]; s.bo = f(s.bo);
      for (auto &a : s.arcs) a.second.first = f(a.second.first);
      m.st[f(i)] = s;
    }
    lm = m;
  }
  lm.start = mc::pick(std::vector<int>{ 0, n - 1 });
  if (mc::tracing()) mc::note("%s", desc(lm).c_str());
  LmFst f; read_lm(lm, &f);
  MC_CHECK(f.StartState() == lm.start, "start state %d, expected %d", f.StartState(), lm.start);
  for (int bucket = 0; bucket < 2; ++bucket) {
    if (bucket) f.InitBucket0();
    for (int h = 0; h < n; ++h) {
      for (int w = 1; w <= 4; ++w) check_get(lm, f, h, w, bucket ? "indexed" : "plain", 0);
      double want = lm.final(h), got = f.Final(h);
      MC_CHECK((std::isinf(want) && std::isinf(got)) || fabs(want - got) < 1e-5, "final weight of %d is %g, expected %g", h, got, want);
      mc::step(5);
    }
  }
  uint64_t s = n; for (int h = 0; h < n; ++h) for (int w = 1; w <= 2; ++w) { int x = -1; double c = 0; lm.get(h, w, &x, &c); s = mc::mix(s, c); s = mc::mix(s, x); }
  mc::state(s); mc::outcome(mc::fmt("%llx", (unsigned long long)s));
  mc::validated();
}

// sentence begin/end and the subtraction of the small model
static void delta() {
  static const int ids[3][2] = { { 3, 4 }, { 1, 2 }, { 4, 1 } };
  int k = mc::choose(3);
  int bos = ids[k][0], eos = ids[k][1];
  std::vector<int> words; for (int i = 1; i <= 4; ++i) if (i != bos && i != eos) words.push_back(i);
  int a = words[0], b = words[1];
  // 0 unigrams, 1 after <s>, 2 after a, 3 after "a b", 4 sentence end, 5 start
  RLm lm; lm.st.resize(6);
  lm.start = 5;
  lm.st[5].arcs[bos] = std::make_pair(1, 0.0);
  if (mc::flip()) { lm.st[5].arcs.clear(); lm.st[5].bo = 0; lm.st[5].bow = 0; lm.st[0].arcs[bos] = std::make_pair(1, 0.5); }
  lm.st[0].arcs[a] = std::make_pair(2, 1.0); lm.st[0].arcs[b] = std::make_pair(0, 1.5); lm.st[0].arcs[eos] = std::make_pair(4, 2.0);
  lm.st[1].bo = 0; lm.st[1].bow = 0.25; lm.st[2].bo = 0; lm.st[2].bow = 0.5; lm.st[3].bo = 2; lm.st[3].bow = 0.75;
  if (mc::flip()) lm.st[1].arcs[a] = std::make_pair(2, 0.125);
  if (mc::flip()) lm.st[2].arcs[b] = std::make_pair(3, 0.375);
  if (mc::flip()) lm.st[2].arcs[eos] = std::make_pair(4, 4.0);
  if (mc::flip()) lm.st[3].arcs[eos] = std::make_pair(4, 8.0);
  if (mc::flip()) lm.st[3].arcs[a] = std::make_pair(2, 3.0);
  if (mc::flip()) lm.st[0].arcs.erase(eos);
  int fin = mc::choose(3);
  if (fin == 0) lm.st[4].fin = 0; else if (fin == 1) lm.st[4].fin = 0.5; else { lm.st[4].bo = 0; lm.st[4].bow = 0.0625; lm.st[0].fin = 16; }
  std::vector<double> small(5, 0);
  for (int w = 1; w < 5; ++w) small[w] = 10.0 * w + 0.5;
  if (mc::tracing()) mc::note("bos %d eos %d %s", bos, eos, desc(lm).c_str());
  LmFst f; read_lm(lm, &f);
  if (mc::flip()) f.InitBucket0();
  SymbolTable st; read_sym(&st, bos, eos, { { "aa", a }, { "bb", b } });
  Vector<float> sv; dec::set_vec(&sv, small);
  DeltaLmFst d(&sv, &f, &st);
  CachedFst c(&d, 1 + mc::choose(3));
  int n; double w;
  lm.get(lm.start, bos, &n, &w);
  MC_CHECK(d.StartState() == n && c.StartState() == n, "start state %d/%d, expected %d", d.StartState(), c.StartState(), n);
  for (int rep = 0; rep < 2; ++rep) for (int h = 0; h < 6; ++h) {
    for (int x = 1; x < 5; ++x) {
      check_get(lm, d, h, x, "difference", small[x]);
      FstArc p(0, 0, 0, 0), q(0, 0, 0, 0);
      bool r1 = d.GetArc(h, x, &p), r2 = c.GetArc(h, x, &q);
      MC_CHECK(r1 == r2 && (!r1 || (p.next_state == q.next_state && p.weight == q.weight && p.output_label == q.output_label)), "cached answer for word %d in %d differs", x, h);
    }
    double want = INFINITY;
    if (lm.get(h, eos, &n, &w)) want = lm.final(n) + w - small[eos];
    double got = d.Final(h), gc = c.Final(h);
    MC_CHECK((std::isinf(want) && std::isinf(got)) || fabs(want - got) < 1e-5, "final weight of %d is %g, expected %g", h, got, want);
    MC_CHECK(gc == got, "cached final weight of %d differs", h);
    mc::step(6);
    mc::outcome(mc::fmt("%g", want));
  }
  mc::validated();
}

// every sequence of queries through the cache
struct Stub : public IFst {
  std::vector<std::pair<int, int>> fails;
  int StartState() const override { return 7; }
  bool GetArc(int s, int l, FstArc *a) const override {
    if ((s ^ l) % 5 == 3) return false;
    *a = FstArc(s ^ (l << 3) ^ 1, l, l, s * 0.5f + l * 0.25f); return true;
  }
  float Final(int s) const override { return s * 2.0f; }
};
static void cache(int len) {
  Stub f;
  CachedFst c(&f, mc::pick(std::vector<int>{ 1, 2, 3, 7, 64 }));
  int set = mc::choose(3);
  static const int S[3][4] = { { 0, 1, 2, 3 }, { 1, 32, 63, 1000000 }, { 0, 0x7fffffff, 0x40000000, 69273666 } };
  static const int L[3][3] = { { 1, 2, 3 }, { 1, 32, 63 }, { 1, 0x7fffffff, 31 } };
  for (int i = 0; i < len; ++i) {
    int q = mc::choose(12), s = S[set][q / 3], l = L[set][q % 3];
    FstArc a(-9, -9, -9, -9), b(-9, -9, -9, -9);
    bool r = c.GetArc(s, l, &a), w = f.GetArc(s, l, &b);
    mc::step();
    MC_CHECK(r == w, "query %d (%d,%d): cached lookup %s", i, s, l, r ? "succeeds" : "fails");
    if (w) MC_CHECK(a.next_state == b.next_state && a.weight == b.weight && a.input_label == b.input_label && a.output_label == b.output_label,
                    "query %d (%d,%d): cached arc ->%d/%g, expected ->%d/%g", i, s, l, a.next_state, a.weight, b.next_state, b.weight);
    mc::note("(%d,%d)=%d", s, l, (int)r);
  }
  mc::validated();
}

// arc search: every state size, labels with gaps, every label queried
static void sizes(int maxn) {
  int n0 = mc::choose(maxn), n1 = mc::choose(maxn), gap = 1 + mc::choose(3), empty = mc::choose(3), bo = mc::choose(2);
  RLm lm; lm.st.resize(2 + empty + 1); lm.start = 0;
  for (int i = 1; i <= n0; ++i) lm.st[0].arcs[i * gap] = std::make_pair(i % 3, i * 0.5);
  // `empty` states without arcs in between
  int h = 1 + empty;
  for (int i = 1; i <= n1; ++i) lm.st[h].arcs[i * gap + 1] = std::make_pair(i % 2, i * 4.0);
  if (bo) { lm.st[h].bo = 0; lm.st[h].bow = 0.125; }
  lm.st[h + 1].arcs[1] = std::make_pair(h, 1.0);
  if (mc::tracing()) mc::note("%d/%d arcs, gap %d, %d empty states, back-off %d", n0, n1, gap, empty, bo);
  LmFst f; read_lm(lm, &f);
  for (int bucket = 0; bucket < 2; ++bucket) {
    if (bucket) f.InitBucket0();
    for (size_t s = 0; s < lm.st.size(); ++s) for (int w = 1; w <= (maxn + 1) * gap + 2; ++w) { check_get(lm, f, s, w, "search", 0); mc::step(); }
  }
  mc::outcome(mc::fmt("%d %d %d %d %d", n0, n1, gap, empty, bo));
  mc::validated();
}

// states with many arcs and large labels
static void large() {
  static const int N[] = { 0, 1, 31, 63, 64, 65, 127, 128, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4096, 5000 };
  int n0 = N[mc::choose(18)], n1 = N[mc::choose(18)], gap = mc::pick(std::vector<int>{ 1, 3, 40 }), first = mc::pick(std::vector<int>{ 1, 33000 });
  if ((n0 > 2000 || n1 > 2000) && gap == 3) return;
  RLm lm; lm.st.resize(5); lm.start = 4;
  for (int i = 0; i < n0; ++i) lm.st[0].arcs[first + i * gap] = std::make_pair(i % 5, i % 97 * 0.5);
  for (int i = 0; i < n1; ++i) lm.st[2].arcs[first + i * gap + (gap > 1)] = std::make_pair(i % 4, 100 + i % 89 * 0.25);
  lm.st[2].bo = 0; lm.st[2].bow = 0.125; lm.st[3].bo = 2; lm.st[3].bow = 0.25; lm.st[4].arcs[2] = std::make_pair(1, 1.0);
  mc::note("%d/%d arcs, gap %d from %d", n0, n1, gap, first);
  LmFst f; read_lm(lm, &f); if (mc::flip()) f.InitBucket0();
  int top = first + (std::max(n0, n1) + 1) * gap + 2, step = std::max(1, top / 12000);
  for (int s = 0; s < 5; ++s) for (int w = s ? 1 + s % step : 1; w <= top; w += w < first && first > 1 ? 1001 : step) { check_get(lm, f, s, w, "search", 0); mc::step(); }
  for (int s = 0; s < 5; ++s) for (int w : { first - 1, first, first + 1, first + gap * (n0 - 1), first + gap * n0, first + gap * (n1 - 1) + (gap > 1), first + gap * n1 + 1, 2000000000 }) if (w > 0) check_get(lm, f, s, w, "search", 0);
  mc::outcome(mc::fmt("%d %d %d %d", n0, n1, gap, first)); mc::state(mc::fnv(mc::fmt("L%d %d %d %d", n0, n1, gap, first))); mc::validated();
}
// back-off chains of every length
static void chain(int maxlen) {
  int len = 1 + mc::choose(maxlen), has = mc::choose(len + 1), hasfin = mc::choose(len + 1), rev = mc::choose(2);
  RLm lm; lm.st.resize(len);
  auto id = [&](int i) { return rev ? len - 1 - i : i; };
  for (int i = 0; i < len; ++i) {
    RLm::S &s = lm.st[id(i)];
    if (i > 0) { s.bo = id(i - 1); s.bow = i % 7 * 0.5; }
    if (i + 1 <= has && i + 1 == has) s.arcs[5] = std::make_pair(id(i), 1.25);
    if (i + 1 == hasfin) s.fin = 0.75;
    s.arcs[9] = std::make_pair(0, 3.0);
  }
  lm.start = 0;
  LmFst f; read_lm(lm, &f);
  if (mc::flip()) f.InitBucket0();
  for (int i = 0; i < len; ++i) {
    check_get(lm, f, i, 5, "chain", 0); check_get(lm, f, i, 9, "chain", 0); check_get(lm, f, i, 2, "chain", 0); check_get(lm, f, i, 11, "chain", 0);
    double want = lm.final(i), got = f.Final(i);
    MC_CHECK((std::isinf(want) && std::isinf(got)) || fabs(want - got) < 1e-4, "final weight of %d is %g, expected %g", i, got, want);
    mc::step(5);
  }
  mc::outcome(mc::fmt("%d %d %d", len, has, hasfin));
  mc::validated();
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("models-3", "all back-off models over 3 states and 2 words (arc subsets, back-off targets, finals, numbering)", [=] { models(3); });
  mc::add("models-4", "the same over 4 states", [=] { models(4); });
  if (!q) mc::add("models-5", "the same over 5 states", [=] { models(5); });
  mc::add("delta", "sentence begin/end, small-model subtraction, caches of 1-3 buckets over 384 models x 3 symbol layouts", [=] { delta(); });
  mc::add("cache", mc::fmt("all sequences of %d queries over 3 key sets of 12, 5 cache sizes", q ? 5 : 6), [=] { cache(q ? 5 : 6); });
  mc::add("sizes", "all state sizes up to the bound, every label queried", [=] { sizes(q ? 10 : 24); });
  mc::add("chain", "back-off chains of every length up to the bound", [=] { chain(q ? 12 : 40); });
  mc::add("large", "states of up to 5000 arcs (18 x 18 sizes) x 3 gaps x labels up to 200000", [=] { large(); });
  return mc::main(argc, argv);
}
