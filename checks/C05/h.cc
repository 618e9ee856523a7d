// C05: decoding with a large back-off model against the cheapest path of the
// explicitly expanded product of graph and model.
#include "dec.h"
#include "fst.h"
#include "symbol_table.h"
#include "util.h"
using namespace dec;
using pocketkaldi::LmFst;
using pocketkaldi::DeltaLmFst;
using pocketkaldi::SymbolTable;
namespace util = pocketkaldi::util;

static const int kW1 = 1, kW2 = 2, kBos = 3, kEos = 4;

static const SymbolTable &symbols() {
  static SymbolTable *t = NULL;
  if (!t) {
    t = new SymbolTable();
    std::string p = mc::scratch() + "/sym.txt";
    kit::write_file(p, "<eps> 0\nw1 1\nw2 2\n<s> 3\n</s> 4\n");
    MC_CHECK(t->Read(p).ok(), "symbol table not read");
  }
  return *t;
}

static void run(const G &g, const Lm &lm, const std::vector<double> &small, const std::vector<std::vector<double>> &fr) {
  std::vector<int> t2p; t2p.push_back(0); t2p.push_back(0); t2p.push_back(1);
  if (mc::tracing()) {
    mc::note("graph %s", gstr(g).c_str());
    for (size_t h = 0; h < lm.st.size(); ++h) {
      std::string s = mc::fmt("lm %zu bo %d/%g fin %g:", h, lm.st[h].bo, lm.st[h].bow, lm.st[h].fin);
      for (auto &a : lm.st[h].arcs) s += mc::fmt(" %d->%d/%g", a.first, a.second.first, a.second.second);
      mc::note("%s", s.c_str());
    }
    for (auto &f : fr) mc::note("frame %g %g", f[0], f[1]);
  }
  Ref ref(g, t2p, 1.0, lm, kBos, kEos, small);
  std::vector<std::vector<double>> b = ref.best(fr, 0, NULL);
  LmFst f;
  {
    std::string p = mc::scratch() + "/lm.bin";
    kit::write_file(p, lm.bytes());
    util::ReadableFile fd;
    pocketkaldi::Status s = fd.Open(p);
    if (s.ok()) s = f.Read(&fd);
    MC_CHECK(s.ok(), "model not read: %s", s.what().c_str());
    f.InitBucket0();
  }
  Vector<float> sv; set_vec(&sv, small);
  DeltaLmFst d(&sv, &f, &symbols());
  std::unique_ptr<fst::StdVectorFst> hclg = to_fst(g);
  Vector<int32_t> map; set_vec(&map, t2p);
  Decoder dec(hclg.get(), map, 1.0f, &d);
  dec.Initialize();
  for (size_t t = 0; t <= fr.size(); ++t) {
    if (t > 0) { Vector<float> v; set_vec(&v, fr[t - 1]); dec.Process(v); mc::step(); }
    Decoder::Hypothesis h = dec.BestPath();
    double want = ref.total(b[t], false);
    std::vector<int> w = spoken(h);
    if (want == kInf) { MC_CHECK(w.empty(), "words %s reported though no path exists", wstr(w).c_str()); continue; }
    MC_CHECK(fabs(h.weight() - want) < 1e-4, "after %zu frames the running cost is %g, the cheapest path costs %g", t, h.weight(), want);
    double c = ref.best_for_words(head(fr, t), w, false);
    MC_CHECK(fabs(c - want) < 1e-4, "after %zu frames words %s are reported: they cost %g, not %g", t, wstr(w).c_str(), c, want);
    uint64_t s = t; for (double x : b[t]) s = mc::mix(s, x);
    mc::state(s);
  }
  dec.EndOfStream();
  Decoder::Hypothesis h = dec.BestPath();
  std::vector<int> w = spoken(h);
  double want = ref.total(b.back(), true);
  if (want == kInf) {
    MC_CHECK(w.empty(), "no complete path exists but words %s are reported", wstr(w).c_str());
  } else {
    MC_CHECK(fabs(h.weight() - want) < 1e-4, "final cost %g, the cheapest complete path costs %g", h.weight(), want);
    double c = ref.best_for_words(fr, w, true);
    MC_CHECK(fabs(c - want) < 1e-4, "words %s are reported: they cost %g, not %g", wstr(w).c_str(), c, want);
  }
  mc::validated();
  mc::outcome(mc::fmt("%g %s", want, wstr(w).c_str()));
  mc::note("result %s cost %g", wstr(w).c_str(), want);
}

static std::vector<std::vector<double>> frames(int T, int nalpha) {
  static const double al[3][2] = { { 0, -1 }, { -1, 0 }, { -0.5, -0.5 } };
  std::vector<std::vector<double>> fr;
  for (int t = 0; t < T; ++t) { int k = mc::choose(nalpha); fr.push_back(std::vector<double>(al[k], al[k] + 2)); }
  return fr;
}

static G graph(int k, const std::vector<double> &u) {
  G g(3);
  switch (k) {
    case 0:   // one state: every history competes in the same graph state
      g = G(1); g.add(0, 0, 1, kW1, u[1]); g.add(0, 0, 2, kW2, u[2]); g.add(0, 0, 1, 0, 0.5); g.fin[0] = 0; break;
    case 1:   // words on emitting arcs, loop back through an epsilon arc
      g.add(0, 1, 1, kW1, u[1]); g.add(0, 2, 2, kW2, u[2] + 0.25); g.add(1, 1, 1, 0, 0); g.add(2, 2, 2, 0, 0.25);
      g.add(1, 0, 0, 0, 0.25); g.add(2, 0, 0, 0, 0); g.fin[0] = 0.5; g.fin[1] = 0; break;
    case 2:   // words on epsilon arcs, also leaving the start state
      g.add(0, 1, 0, kW1, u[1]); g.add(0, 1, 0, kW2, u[2]); g.add(0, 1, 2, 0, 1); g.add(1, 2, 1, 0, 0); g.add(1, 2, 2, 0, 0.25); g.add(2, 0, 0, 0, 0); g.add(2, 1, 0, kW2, u[2] + 0.5);
      g.fin[2] = 0; break;
  }
  return g;
}

// all subsets of explicit n-gram arcs
static void subsets(int kind, int T, int nalpha, int nb) {
  std::vector<double> small(5, 0); small[1] = 1; small[2] = 1.5; small[4] = 0.75; small[3] = 40;
  // 0 unigram, 1 <s>, 2 w1, 3 w2, 4 "w1 w2", 5 end, 6 start
  Lm lm; lm.st.resize(7); lm.start = 6;
  lm.st[6].arcs[kBos] = std::make_pair(1, 0.0);
  lm.st[5].fin = 0;
  lm.st[0].arcs[kW1] = std::make_pair(2, 1.25); lm.st[0].arcs[kW2] = std::make_pair(3, 1.0); lm.st[0].arcs[kEos] = std::make_pair(5, 1.0);
  for (int h = 1; h <= 3; ++h) { lm.st[h].bo = 0; lm.st[h].bow = 0.25 * h; }
  lm.st[4].bo = 3; lm.st[4].bow = 0.125;
  struct E { int h, w, n; double c; } e[9] = {
    { 2, kW2, 4, 0.25 }, { 1, kW1, 2, 0.5 }, { 1, kW2, 3, 2.0 }, { 2, kW1, 2, 2.5 }, { 3, kW1, 2, 0.25 }, { 4, kW1, 2, 3.0 }, { 2, kEos, 5, 3.0 },
    { 4, kEos, 5, 0.25 }, { 3, kW2, 3, 0.5 } };
  for (int i = 0; i < nb; ++i) if (mc::flip()) lm.st[e[i].h].arcs[e[i].w] = std::make_pair(e[i].n, e[i].c);
  G g = graph(kind, small);
  run(g, lm, small, frames(T, nalpha));
}

// weights of one history swept, so that every order of back-off against
// explicit arcs and of end-of-sentence costs occurs
static void weights(int T) {
  std::vector<double> small(5, 0); small[1] = 0.5; small[2] = 0.25 + mc::choose(2); small[4] = mc::choose(2) * 1.5; small[3] = 40;
  Lm lm; lm.st.resize(5); lm.start = mc::flip() ? 4 : 1;
  static const double ws[3] = { 0, 0.75, 2 };
  if (lm.start == 4) lm.st[4].arcs[kBos] = std::make_pair(1, 0.0);
  else { lm.st[1].arcs[kBos] = std::make_pair(1, 0.0); }
  lm.st[0].arcs[kW1] = std::make_pair(2, 1.0); lm.st[0].arcs[kW2] = std::make_pair(0, ws[mc::choose(3)]);
  lm.st[0].arcs[kEos] = std::make_pair(3, ws[mc::choose(3)]);
  lm.st[1].bo = 0; lm.st[1].bow = ws[mc::choose(3)];
  lm.st[2].bo = 0; lm.st[2].bow = ws[mc::choose(3)];
  if (mc::flip()) lm.st[2].arcs[kEos] = std::make_pair(3, 0.5);
  lm.st[2].arcs[kW1] = std::make_pair(2, ws[mc::choose(3)]);
  lm.st[3].fin = mc::flip() ? 0 : 0.5;
  G g = graph(1, small);
  run(g, lm, small, frames(T, 1));
}

// A large model: every pair of words is spoken in one utterance, so that every bigram of the model
// (explicit or backed off) is used, twice, with all the others in between. The cost is an exact sum.
static void vocabulary(int V, int rounds) {
  int every = mc::pick(std::vector<int>{ 1, 2, 5, 1000000 }), stride = mc::choose(3), big = mc::choose(2);
  long wmul = big ? 37 : 1;                                 // word numbers: 1, 2 are <s>, </s>
  int eos = 2, bos = 1; auto id = [&](int w) { return (int)(3 + w * wmul); };
  std::string t = "<eps> 0\n<s> 1\n</s> 2\n"; for (int w = 0; w < V; ++w) t += mc::fmt("w%d %d\n", w, id(w));
  int top = id(V - 1) + 1;
  // the table of symbols has no gaps
  if (big) { t = "<eps> 0\n<s> 1\n</s> 2\n"; for (int i = 3; i < top; ++i) t += mc::fmt("w%d %d\n", i, i); }
  std::string p = mc::scratch() + "/v.txt"; kit::write_file(p, t); SymbolTable sym; MC_CHECK(sym.Read(p).ok(), "symbols");
  // states: 0 unigram, 1 start, 2 end, 3 after <s>, 4 + w
  Lm lm; lm.st.resize(4 + V); lm.start = 1; lm.st[1].arcs[bos] = std::make_pair(3, 0.0); lm.st[2].fin = 0.5; lm.st[3].bo = 0; lm.st[3].bow = 0.125;
  std::vector<double> small(top, 0); small[eos] = 0.375;
  for (int w = 0; w < V; ++w) {
    lm.st[0].arcs[id(w)] = std::make_pair(4 + w, w % 11 * 0.125); small[id(w)] = w % 5 * 0.25;
    lm.st[4 + w].bo = 0; lm.st[4 + w].bow = w % 7 * 0.125;
    for (int x = 0; x < V; ++x) if ((w * 31 + x * 17) % every == 0) lm.st[4 + w].arcs[id(x)] = std::make_pair(4 + x, (w * 3 + x) % 13 * 0.125);
    if (w % 3 == 0) lm.st[4 + w].arcs[eos] = std::make_pair(2, 0.25);
  }
  lm.st[0].arcs[eos] = std::make_pair(2, 1.0);
  kit::write_file(p, lm.bytes()); LmFst f; { util::ReadableFile fd; MC_CHECK(fd.Open(p).ok() && f.Read(&fd).ok(), "model not read"); f.InitBucket0(); }
  Vector<float> sv; set_vec(&sv, small); DeltaLmFst d(&sv, &f, &sym);
  fst::StdVectorFst g; g.AddState(); g.SetStart(0); g.SetFinal(0, 0.0f);
  std::vector<int> t2p(V + 1, 0);
  for (int w = 0; w < V; ++w) { g.AddArc(0, fst::StdArc(w + 1, id(w), (float)small[id(w)], 0)); t2p[w + 1] = w; }
  Vector<int32_t> map; set_vec(&map, t2p); Decoder dec(&g, map, 1.0f, &d); dec.Initialize();
  // the walk uses each ordered pair (w, w + k) once per round
  Vector<float> v; v.Resize(V); for (int i = 0; i < V; ++i) v(i) = -40;
  double want = 0; int h; { double c; lm.get(1, bos, &h, &c); } int w = 0, at = 0; std::vector<int> said; std::vector<bool> used;
  auto say = [&](int x) {
    v(x) = 0; MC_CHECK(dec.Process(v), "decoding stops after %d words", at); v(x) = -40; double c; int n; MC_CHECK(lm.get(h, id(x), &n, &c), "reference"); want += c; h = n; said.push_back(id(x)); ++at; mc::step();
    if (at % 4001 == 0) MC_CHECK(dec.BestPath().weight() == want, "after %d words the cost is %g, expected %g", at, dec.BestPath().weight(), want);
  };
  say(0);
  for (int r = 0; r < rounds; ++r) {
    used.assign((size_t)V * V, false);
    std::vector<int> next(V, 0);
    // Hierholzer's walk over all ordered pairs
    std::vector<int> stack(1, w), tour;
    while (!stack.empty()) { int u = stack.back(); if (next[u] < V) { int k = next[u]++; stack.push_back(stride == 0 ? (u + k) % V : stride == 1 ? V - 1 - k : (k * 7 + u) % V); } else { tour.push_back(u); stack.pop_back(); } }
    for (size_t i = tour.size() - 1; i-- > 0;) say(tour[i]);
    w = tour[0];
  }
  Decoder::Hypothesis x = dec.BestPath();
  MC_CHECK(x.weight() == want, "after %d words the cost is %g, expected %g", at, x.weight(), want);
  MC_CHECK(spoken(x) == said, "the words differ from the %d spoken ones", at);
  dec.EndOfStream(); int n; double c; MC_CHECK(lm.get(h, eos, &n, &c), "reference"); want += c + lm.final(n) - small[eos];
  MC_CHECK(dec.BestPath().weight() == want, "at the end the cost is %g, expected %g", dec.BestPath().weight(), want);
  mc::note("%d words", at); mc::validated(); mc::state(mc::fnv(mc::fmt("%d %d %d", every, stride, big))); mc::outcome(mc::fmt("%g", want));
}
// Two histories that compete in graph states of their choice: a pair of states of graph and model is
// distinct from every other pair, whatever the numbers. The second word is cheap after one of them only.
static void numbers() {
  static const int big[] = { 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 65599, 131072, 131101 };
  int apart = mc::choose(13), dh = mc::choose(3), good = mc::choose(2), ahead = mc::choose(2);   // which history is cheap later, which first
  int base = 5; std::vector<int> ds;
  if (apart == 0) { int from = 1 + 64 * mc::choose(10); for (int i = 0; i < 64; ++i) ds.push_back(from + i); } else ds.push_back(big[apart - 1]);
  for (int d : ds) {
    int s1 = base, s2 = base + d; if (mc::tracing()) mc::note("states %d and %d of the model, %d apart in the graph", s1, s2, dh);
    Lm lm; lm.st.resize(s2 + 1); lm.start = 1;
    lm.st[0].arcs[1] = std::make_pair(s1, ahead == 0 ? 0.5 : 1.5); lm.st[0].arcs[2] = std::make_pair(s2, ahead == 1 ? 0.5 : 1.5);
    lm.st[0].arcs[3] = std::make_pair(0, 1.0); lm.st[0].arcs[6] = std::make_pair(2, 0.25);
    lm.st[1].arcs[5] = std::make_pair(0, 0.0); lm.st[2].fin = 0;
    lm.st[s1].bo = lm.st[s2].bo = 0; lm.st[s1].bow = 0.5; lm.st[s2].bow = 0.75;
    lm.st[good ? s2 : s1].arcs[3] = std::make_pair(0, 0.125); lm.st[good ? s1 : s2].arcs[3] = std::make_pair(0, 4.0);
    std::string p = mc::scratch() + "/n.txt"; static std::unique_ptr<SymbolTable> sym;
    if (!sym) { sym.reset(new SymbolTable()); kit::write_file(p, "<eps> 0\na 1\nb 2\nc 3\nd 4\n<s> 5\n</s> 6\n"); MC_CHECK(sym->Read(p).ok(), "symbols"); }
    kit::write_file(p, lm.bytes()); LmFst f; { util::ReadableFile fd; MC_CHECK(fd.Open(p).ok() && f.Read(&fd).ok(), "model not read"); f.InitBucket0(); }
    std::vector<double> small(7, 0); small[1] = small[2] = 0.25; small[3] = 0.5; small[6] = 0.125;
    Vector<float> sv; set_vec(&sv, small); DeltaLmFst delta(&sv, &f, sym.get());
    // 0 -a-> h1, 0 -b-> h2 (the same or other states), both with silence, then -c-> end
    int h1 = 3, h2 = 3 + (dh == 2 ? -1 : dh), end = 5; G g(6);
    g.add(0, h1, 1, 1, small[1]); g.add(0, h2, 1, 2, small[2]); g.add(h1, h1, 2, 0, 0); if (h2 != h1) g.add(h2, h2, 2, 0, 0);
    g.add(h1, end, 1, 3, small[3]); if (h2 != h1) g.add(h2, end, 1, 3, small[3]); g.fin[end] = 0;
    auto hclg = to_fst(g); Vector<int32_t> map; set_vec(&map, std::vector<int>{ 0, 0, 1 });
    Decoder dec(hclg.get(), map, 1.0f, &delta); dec.Initialize();
    Vector<float> v; double cost[2] = { ahead == 0 ? 0.5 : 1.5, ahead == 1 ? 0.5 : 1.5 };
    static const double fr[3][2] = { { 0, -2 }, { -3, 0 }, { 0, -3 } };
    for (int t = 0; t < 3; ++t) {
      set_vec(&v, std::vector<double>{ fr[t][0], fr[t][1] }); MC_CHECK(dec.Process(v), "decoding stops at frame %d", t + 1); mc::step();
      if (t == 2) { cost[0] += good == 0 ? 0.125 : 4; cost[1] += good == 1 ? 0.125 : 4; }
      int b = cost[1] < cost[0]; double want = cost[b]; std::vector<int> words(1, b ? 2 : 1); if (t == 2) words.push_back(3);
      Decoder::Hypothesis h = dec.BestPath();
      MC_CHECK(spoken(h) == words && h.weight() == want, "states %d and %d of the model, %d apart in the graph: after %d frames words %s cost %g, expected %s cost %g", s1, s2, dh, t + 1, wstr(spoken(h)).c_str(), h.weight(), wstr(words).c_str(), want);
    }
    dec.EndOfStream(); double want = std::min(cost[0], cost[1]) + 0.25 - small[6];
    MC_CHECK(dec.BestPath().weight() == want, "states %d and %d of the model: final cost %g, expected %g", s1, s2, dec.BestPath().weight(), want);
    mc::state(mc::mix(mc::mix(d, dh), good * 2 + ahead));
  }
  mc::validated(); mc::outcome(mc::fmt("%d %d", good, ahead));
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("one-state", mc::fmt("one-state word loop x %d arc subsets x all score sequences", 512), [=] { subsets(0, q ? 4 : 6, 2, 9); });
  mc::add("loop", mc::fmt("word loop with epsilon return x %d arc subsets", 512), [=] { subsets(1, q ? 4 : 6, 2, 9); });
  mc::add("eps-words", mc::fmt("words on epsilon arcs x %d arc subsets", 512), [=] { subsets(2, q ? 3 : 5, 2, 9); });
  mc::add("weights", "all back-off/end-of-sentence weight combinations", [=] { weights(q ? 3 : 5); });
  mc::add("numbers", "two histories whose states are 1 to 640 and up to 131101 apart in the model and 0 to 1 in the graph, all orders", [=] { numbers(); });
  int V = q ? 120 : 215;
  mc::add("vocabulary", mc::fmt("all ordered pairs of %d words spoken twice in one utterance, 4 densities of the model, 3 orders, 2 numberings", V), [=] { vocabulary(V, 2); });
  return mc::main(argc, argv);
}
