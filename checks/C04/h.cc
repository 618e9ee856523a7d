// C04: all small graphs x all small score sequences; the decoder against exact
// dynamic programming. Costs are small multiples of 1/2, so that nothing is
// pruned (beam 16) and float arithmetic is exact.
#include "dec.h"
using namespace dec;

// The same graph under other numbers: state s is number states[s] of `total`, word w is words(w).
struct Names { std::vector<int> states; int total; long wmul, woff; int tmul; };
static int word(const Names *n, int w) { return !n || w == 0 ? w : (int)(w * n->wmul + n->woff); }
static std::unique_ptr<fst::StdVectorFst> renamed(const G &g, const Names &n) {
  std::unique_ptr<fst::StdVectorFst> f(new fst::StdVectorFst());
  f->ReserveStates(n.total); for (int i = 0; i < n.total; ++i) f->AddState();
  f->SetStart(n.states[0]);
  for (auto &a : g.arcs) f->AddArc(n.states[a.src], fst::StdArc(a.il * n.tmul, word(&n, a.ol), (float)a.w, n.states[a.dst]));
  for (int i = 0; i < g.n; ++i) if (g.fin[i] != kInf) f->SetFinal(n.states[i], (float)g.fin[i]);
  return f;
}
static std::vector<int> plain(const Names *n, std::vector<int> w) { if (n) for (int &x : w) { MC_CHECK((x - n->woff) % n->wmul == 0, "word %d is not in the graph", x); x = (x - n->woff) / n->wmul; } return w; }
static void run(const G &g, const std::vector<int> &t2p, const std::vector<std::vector<double>> &fr, float scale, const Names *names = NULL, int every = 1) {
  if (mc::tracing()) {
    mc::note("graph %s", gstr(g).c_str());
    for (auto &f : fr) { std::string s; for (double x : f) s += mc::fmt("%g ", x); mc::note("frame %s", s.c_str()); }
  }
  Ref ref(g, t2p, scale);
  std::vector<std::vector<double>> b = ref.best(fr, 0, NULL);
  std::unique_ptr<fst::StdVectorFst> f = names ? renamed(g, *names) : to_fst(g);
  std::vector<int> table = t2p;
  if (names) { table.assign(t2p.size() * names->tmul, 0); for (size_t i = 0; i < t2p.size(); ++i) table[i * names->tmul] = t2p[i]; }
  Vector<int32_t> map; set_vec(&map, table);
  Decoder d(f.get(), map, scale);
  d.Initialize();
  double tol = scale == 1.0f ? 1e-6 : 1e-3;
  for (size_t t = 0; t <= fr.size(); ++t) {
    if (t > 0) { Vector<float> v; set_vec(&v, fr[t - 1]); d.Process(v); mc::step(); }
    if (every > 1 && t % every && t + 3 < fr.size()) continue;
    // running hypothesis
    Decoder::Hypothesis h = d.BestPath();
    double want = ref.total(b[t], false);
    std::vector<int> w = plain(names, spoken(h));
    std::vector<std::vector<double>> pre = head(fr, t);
    if (want == kInf) {
      MC_CHECK(w.empty(), "after %zu frames no path exists but words %s are reported", t, wstr(w).c_str());
    } else {
      MC_CHECK(fabs(h.weight() - want) <= tol, "after %zu frames the running cost is %g, the cheapest path costs %g", t, h.weight(), want);
      double c = ref.best_for_words(pre, w, false);
      MC_CHECK(fabs(c - want) <= tol, "after %zu frames words %s are reported: their cheapest path costs %g, not %g", t, wstr(w).c_str(), c, want);
    }
    uint64_t s = t; for (double x : b[t]) s = mc::mix(s, x);
    mc::state(s);
  }
  d.EndOfStream();
  Decoder::Hypothesis h = d.BestPath();
  std::vector<int> w = plain(names, spoken(h));
  double want = ref.total(b.back(), true);
  if (want == kInf) {
    MC_CHECK(w.empty(), "no complete path exists but words %s are reported", wstr(w).c_str());
  } else {
    MC_CHECK(fabs(h.weight() - want) <= tol, "final cost %g, the cheapest complete path costs %g", h.weight(), want);
    double c = ref.best_for_words(fr, w, true);
    MC_CHECK(fabs(c - want) <= tol, "words %s are reported: their cheapest complete path costs %g, not %g", wstr(w).c_str(), c, want);
  }
  mc::validated();
  mc::outcome(mc::fmt("%g %s", want, wstr(w).c_str()));
  mc::note("result %s cost %g", wstr(w).c_str(), want);
}

static std::vector<std::vector<double>> frames(int T, int nalpha) {
  static const double al[4][2] = { { 0, -1 }, { -1, 0 }, { -1.5, -1 }, { 1, -0.5 } };
  std::vector<std::vector<double>> fr;
  for (int t = 0; t < T; ++t) { int k = mc::choose(nalpha); fr.push_back(std::vector<double>(al[k], al[k] + 2)); }
  return fr;
}

// the same with all scores raised or lowered: costs may fall or rise from frame to frame
static std::vector<std::vector<double>> level(std::vector<std::vector<double>> fr) {
  double l = mc::pick(std::vector<double>{ 0, 20, -20 });
  for (auto &f : fr) for (double &x : f) x += l;
  return fr;
}

// every multiset of up to `maxarcs` arcs over two states
static void all_two_state(int maxarcs, int T, int nalpha) {
  static const int lab[6][2] = { { 1, 0 }, { 1, 1 }, { 2, 2 }, { 0, 0 }, { 0, 1 }, { 2, 1 } };
  static const double ws[2] = { 0, 1 };
  G g(2);
  int last = 0, total = 2 * 2 * 6 * 2;
  for (int i = 0; i < maxarcs; ++i) {
    int k = mc::choose(total - last + 1);      // 0: stop
    if (k == 0) break;
    int id = last + k - 1; last = id;
    int w = id % 2, l = id / 2 % 6, d = id / 12 % 2, s = id / 24;
    g.add(s, d, lab[l][0], lab[l][1], ws[w]);
  }
  static const double fin[4][2] = { { kInf, 0 }, { 0.5, kInf }, { 2, 0 }, { kInf, kInf } };
  int k = mc::choose(4);
  g.fin[0] = fin[k][0]; g.fin[1] = fin[k][1];
  std::vector<int> t2p; t2p.push_back(0); t2p.push_back(0); t2p.push_back(1);
  run(g, t2p, frames(T, nalpha), 1.0f);
}

// Epsilon networks: order of arcs, re-expansion when a cheaper epsilon path is
// found late, epsilon diamonds, words on epsilon arcs.
static void eps_network(bool perms) {
  G g(4);
  static const double ws[3] = { 0, 1, 3 };
  std::vector<A> v;
  auto w = [&]() { return ws[mc::choose(3)]; };
  A a0 = { 0, 1, 1, 1, w() }; v.push_back(a0);
  A a1 = { 0, 2, 2, 2, w() }; v.push_back(a1);
  A a2 = { 1, 2, 0, 0, w() }; v.push_back(a2);
  A a3 = { 2, 3, 0, 3, w() }; v.push_back(a3);
  A a4 = { 1, 3, 0, 0, w() }; v.push_back(a4);
  A a5 = { 3, mc::choose(2) ? 0 : 1, 0, 0, 1 }; v.push_back(a5);
  if (perms) {
    std::vector<A> p;
    while (!v.empty()) { int k = mc::choose(v.size()); p.push_back(v[k]); v.erase(v.begin() + k); }
    v = p;
  } else if (mc::flip()) std::reverse(v.begin(), v.end());
  g.arcs = v;
  g.fin[3] = 0; if (mc::flip()) g.fin[2] = 1;
  g.add(3, 3, 1, 0, 0.5); g.add(2, 2, 2, 0, 0);
  std::vector<int> t2p; t2p.push_back(0); t2p.push_back(0); t2p.push_back(1);
  run(g, t2p, perms ? frames(2, 2) : level(frames(2, 4)), 1.0f);
}

// Chains with self-loops and a choice of where words sit; longer score sequences.
static void chains(int T) {
  G g(4);
  int shape = mc::choose(4);
  double c = mc::choose(2) ? 0.5 : 0;
  switch (shape) {
    case 0: g.add(0, 1, 1, 1, 0); g.add(1, 1, 1, 0, c); g.add(1, 2, 2, 0, 0.5); g.add(2, 2, 2, 0, 0); g.add(2, 0, 0, 0, 1); g.fin[2] = 0; break;
    case 1: g.add(0, 0, 1, 0, 0); g.add(0, 1, 2, 1, c); g.add(1, 0, 0, 0, 0); g.add(0, 2, 2, 2, 0.5); g.add(2, 0, 1, 0, 0); g.fin[0] = 0.5; break;
    case 2: g.add(0, 1, 1, 1, 0); g.add(0, 2, 1, 2, c); g.add(1, 3, 2, 0, 0); g.add(2, 3, 2, 0, 0); g.add(3, 0, 0, 0, 0); g.add(3, 3, 1, 3, 1); g.fin[3] = 0; g.fin[0] = 1; break;
    case 3: g.add(0, 1, 1, 1, 1); g.add(0, 1, 2, 2, 0); g.add(0, 1, 1, 3, c); g.add(1, 0, 2, 0, 0); g.add(1, 0, 0, 4, 1); g.add(1, 1, 1, 1, 0.5); g.fin[1] = 0; break;
  }
  std::vector<int> t2p; t2p.push_back(0); t2p.push_back(0); t2p.push_back(1);
  run(g, t2p, level(frames(T, 3)), 1.0f);
}

// Transition ids map to score columns through the table, and scores are scaled.
static void mapping() {
  G g(2);
  int n = 4;
  for (int i = 1; i <= n; ++i) g.add(0, 1, i, i, 0);
  for (int i = 1; i <= n; ++i) g.add(1, 1, i, 10 + i, mc::choose(2) * 0.5);
  g.fin[1] = 0;
  std::vector<int> t2p(1, 0);
  for (int i = 0; i < n; ++i) t2p.push_back(mc::choose(3));
  std::vector<std::vector<double>> fr;
  for (int t = 0; t < 2; ++t) {
    static const double al[3][3] = { { -1, -2, -3 }, { -3, -1, -2 }, { 2, 4, 1 } };
    int k = mc::choose(3); fr.push_back(std::vector<double>(al[k], al[k] + 3));
  }
  run(g, t2p, fr, mc::choose(2) ? 0.1f : 1.0f);
}

// Dead ends: the graph runs out of arcs (or of finite scores) before the frames do.
static void dead_end() {
  G g(3);
  g.add(0, 1, 1, 1, 0);
  if (mc::flip()) g.add(1, 2, 2, 2, 0.5);
  if (mc::flip()) g.add(0, 2, 0, 3, 1);
  if (mc::flip()) g.fin[1] = 0;
  if (mc::flip()) g.fin[2] = 0;
  std::vector<int> t2p; t2p.push_back(0); t2p.push_back(0); t2p.push_back(1);
  run(g, t2p, level(frames(mc::choose(5), 2)), 1.0f);
}

// The chains under large and scattered state, word and transition numbers.
static void names(int T) {
  int k = mc::choose(6);
  static const int S[6][5] = { { 3, 2, 1, 0, 4 }, { 255, 256, 257, 511, 600 }, { 32767, 32768, 65535, 65536, 65600 }, { 70000, 4, 70001, 65540, 70002 }, { 131101, 0, 262202, 393303, 400000 }, { 1, 3, 65537, 131073, 131080 } };
  static const long W[4][2] = { { 1, 0 }, { 65536, 1 }, { 400000000, 7 }, { 1, 32766 } };
  int w = mc::choose(4), t = mc::pick(std::vector<int>{ 1, 130, 33000 });
  Names n = { std::vector<int>(S[k], S[k] + 4), S[k][4] + 1, W[w][0], W[w][1], t };
  mc::note("names %d %d %d", k, w, t);
  G g(4); int shape = mc::choose(2);
  if (shape == 0) { g.add(0, 1, 1, 1, 0); g.add(1, 1, 1, 0, 0.5); g.add(1, 2, 2, 2, 0.5); g.add(2, 2, 2, 0, 0); g.add(2, 0, 0, 3, 1); g.add(2, 3, 0, 4, 0.25); g.fin[2] = 1; g.fin[3] = 0; }
  else { g.add(0, 1, 1, 1, 0); g.add(0, 2, 1, 2, -0.5); g.add(1, 3, 2, 0, 0); g.add(2, 3, 2, 0, 0.25); g.add(3, 0, 0, 0, 0); g.add(3, 3, 1, 3, 1); g.fin[3] = 0; g.fin[0] = 1; }
  run(g, std::vector<int>{ 0, 0, 1 }, frames(T, 3), 1.0f, &n);
}
// Thousands of words side by side, more than a block of the pools: each in a state of its own.
static void wide(int T) {
  int n = mc::pick(std::vector<int>{ 10, 1000, 4095, 4096, 4097, 9000 }), win = mc::choose(5), pat = mc::choose(3), eps = mc::choose(2);
  static const double R[5] = { 0, 0.25, 0.5, 0.999, 1 }; int best = (int)(R[win] * (n - 1));
  G g(2 * n + 2); int end = 2 * n + 1;
  for (int i = 0; i < n; ++i) {
    double w = i == best ? 0.5 : 1 + (pat == 0 ? i % 7 : pat == 1 ? (n - i) % 13 * 0.5 : (i * 37 % n) / (double)n * 4);
    w = floor(w * 64) / 64;
    g.add(0, 1 + i, 1 + i % 2, i + 1, w); g.add(1 + i, 1 + i, 1, 0, 0.25); g.add(1 + i, 1 + n + i, 2, 0, 0); g.add(1 + n + i, end, eps ? 0 : 1, i + 1, i == best ? 3.5 : 0.5);
  }
  g.add(end, 0, 0, 0, 0.5); g.fin[end] = 0; if (eps) g.fin[1 + best] = 2;
  static const double al[2][2] = { { 0, -1 }, { -1, 0 } };
  std::vector<std::vector<double>> fr; for (int t = 0; t < T; ++t) { int k = mc::choose(2); fr.push_back(std::vector<double>(al[k], al[k] + 2)); }
  // not every prefix: the reference takes its time here
  run(g, std::vector<int>{ 0, 0, 1 }, fr, 1.0f, NULL, n > 100 ? 4 : 1);
}
// Long utterances.
static void longer(int T) {
  G g(3); int shape = mc::choose(2);
  if (shape == 0) { g.add(0, 1, 1, 1, 0); g.add(1, 1, 1, 0, 0.5); g.add(1, 2, 2, 2, 0.5); g.add(2, 2, 2, 0, 0); g.add(2, 0, 0, 0, 1); g.add(1, 0, 0, 3, 1.5); g.fin[2] = 1; g.fin[0] = 0; }
  else { g.add(0, 0, 1, 0, 0.25); g.add(0, 1, 2, 1, 0); g.add(1, 0, 0, 0, 0); g.add(0, 2, 2, 2, 0.5); g.add(2, 0, 1, 0, 0); g.fin[0] = 0.5; }
  std::vector<int> t2p{ 0, 0, 1 };
  static const double al[4][2] = { { 0, -1 }, { -1, 0 }, { -1.5, -1 }, { 1, -0.5 } };
  int p[4]; for (int i = 0; i < 4; ++i) p[i] = mc::choose(i < 3 ? 3 : 4);
  std::vector<std::vector<double>> fr; int n = 1 + mc::choose(4) * (T / 4);
  for (int t = 0; t < n; ++t) { int k = p[(t + t / 50) % 4]; fr.push_back(std::vector<double>(al[k], al[k] + 2)); }
  run(g, t2p, level(fr), 1.0f, NULL, 97);
}
// Minutes to hours of speech: small differences between paths still decide,
// however large the cost of the whole utterance has become.
static void precise(int T) {
  int n = 1; for (int k = mc::choose(4); k < 3; ++k) n *= 10; n = T / n;          // T/1000 .. T
  float per = mc::pick(std::vector<float>{ 0.3f, 7.3f, -2.1f, 19.7f }); int kind = mc::choose(2), which = mc::choose(2); float d = mc::pick(std::vector<float>{ 0.004f, 0.25f });
  G g(3); std::vector<int> t2p{ 0, 0, 1, 2 };
  Vector<int32_t> map; set_vec(&map, t2p); double want = 0; int word = 0;
  if (kind == 0) {            // the last words differ by d
    g.add(0, 0, 1, 0, 0); g.add(0, 1, 2, 1, which ? 0 : d); g.add(0, 1, 2, 2, which ? d : 0); g.fin[1] = 0; word = which ? 1 : 2;
  } else {                    // one is ahead by 6 at first, the other gains 6 + d over the utterance
    g.add(0, 1, 0, 1, which ? 6 : 0); g.add(0, 2, 0, 2, which ? 0 : 6); g.add(1, 1, 1, 0, 0); g.add(2, 2, 3, 0, 0); g.add(1, 1, 2, 0, 0); g.add(2, 2, 2, 0, 0); g.fin[1] = g.fin[2] = 0; word = which ? 1 : 2;
  }
  auto f = to_fst(g); Decoder dec(f.get(), map, 1.0f); dec.Initialize(); Vector<float> v(3);
  float gain = (6 + d) / n; float a = -per, b = -per; (which ? b : a) = -per - gain; double ca = 0, cb = 0;
  for (int t = 0; t < n; ++t) { v(0) = a; v(1) = -40; v(2) = b; if (kind == 0) { v(0) = -per; v(2) = -99; } if (!dec.Process(v)) mc::fail("decoding stops at frame %d", t + 1); ca -= v(0); cb -= v(2); }
  if (kind == 0) want = ca + 0.5; else want = 0.5 + std::min(ca + (which ? 6 : 0), cb + (which ? 0 : 6));
  if (kind == 1 && fabs(ca + (which ? 6 : 0) - cb - (which ? 0 : 6)) < d / 2) { mc::outcome("too close"); return; }   // the gain per frame was rounded
  if (kind == 1 && which != (ca + (which ? 6 : 0) < cb + (which ? 0 : 6))) word = 3 - word;
  v(0) = -90; v(1) = -0.5f; v(2) = -90; dec.Process(v); dec.EndOfStream();
  Decoder::Hypothesis h = dec.BestPath(); mc::note("%d frames at %g, kind %d, word %d", n, per, kind, word); mc::step(n);
  std::vector<int> w = spoken(h);
  MC_CHECK(w == std::vector<int>(1, word), "after %d frames at %g each: words %s, word %d is cheaper by %g", n, per, wstr(w).c_str(), word, d);
  MC_CHECK(fabs(h.weight() - want) <= 1e-6 * fabs(want) + 1e-5, "after %d frames at %g each: cost %.9g, expected %.9g", n, per, h.weight(), want);
  mc::validated(); mc::outcome(mc::fmt("%d %d", n, word)); mc::state(mc::fnv(mc::fmt("%d %g %d %d %g", n, per, kind, which, d)));
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("dead-end", "graphs without enough arcs, 0-4 frames", [=] { dead_end(); });
  mc::add("mapping", "4 transition ids x all maps to 3 columns x 9 score sequences x 2 scales", [=] { mapping(); });
  mc::add("chains", mc::fmt("4 looped topologies x all sequences of %d frames over 3 score vectors", q ? 5 : 7), [=] { chains(q ? 5 : 7); });
  mc::add("epsilon", "epsilon networks: 3 weights on 5 arcs, 16 score sequences", [=] { eps_network(false); });
  if (!q) mc::add("epsilon-orders", "as epsilon with all arc orders", [=] { eps_network(true); });
  mc::add("two-state", mc::fmt("all multisets of up to %d arcs over 2 states (6 labels, 2 weights), 4 final patterns", q ? 2 : 3), [=] { all_two_state(q ? 2 : 3, 2, q ? 4 : 2); });
  if (q) mc::add("two-state-3", "all multisets of up to 3 arcs over 2 states, one score sequence", [=] { all_two_state(3, 2, 1); });
  mc::add("names", mc::fmt("2 topologies with 6 numberings of states up to 400000, 4 of words and 3 of transitions, all sequences of %d frames", q ? 2 : 5), [=] { names(q ? 2 : 5); });
  mc::add("wide", mc::fmt("10 to 9000 words side by side, 5 places of the best, 3 cost patterns, all sequences of %d frames", q ? 3 : 5), [=] { wide(q ? 3 : 5); });
  mc::add("long", mc::fmt("all patterns of 4 frames repeated over up to %d frames, 2 topologies", q ? 600 : 2000), [=] { longer(q ? 600 : 2000); });
  mc::add("precise", mc::fmt("utterances of %d to %d frames that end in a small difference, 4 costs per frame", q ? 200 : 1000, q ? 200000 : 1000000), [=] { precise(q ? 200000 : 1000000); });
  return mc::main(argc, argv);
}
