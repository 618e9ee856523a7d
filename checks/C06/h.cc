// C06: beam pruning. Costs sit around the beam width (16); the decoder's answer
// must be a real path with its real cost and at least as good as the best path
// whose every prefix stays within the beam of the frame's cheapest hypothesis.
#include "dec.h"
using namespace dec;

static const double kBeam = 16.0;

static void run(const G &g, std::vector<std::vector<double>> fr, double level = 0) {
  for (auto &f : fr) for (double &x : f) x += level;     // costs may fall or rise from frame to frame
  std::vector<int> t2p; t2p.push_back(0); t2p.push_back(0); t2p.push_back(1); t2p.push_back(2);
  if (mc::tracing()) {
    mc::note("graph %s", gstr(g).c_str());
    for (auto &f : fr) mc::note("frame %g %g %g", f[0], f[1], f[2]);
  }
  Ref ref(g, t2p, 1.0);
  std::vector<std::vector<double>> exact = ref.best(fr, 0, NULL);
  std::vector<double> m = ref.mins(exact);
  std::vector<std::vector<double>> in = ref.best(fr, kBeam, &m);
  std::unique_ptr<fst::StdVectorFst> f = to_fst(g);
  Vector<int32_t> map; set_vec(&map, t2p);
  Decoder d(f.get(), map, 1.0f);
  d.Initialize();
  for (size_t t = 0; t <= fr.size(); ++t) {
    if (t > 0) { Vector<float> v; set_vec(&v, fr[t - 1]); d.Process(v); mc::step(); }
    bool end = t == fr.size();
    for (int fin = 0; fin <= (end ? 1 : 0); ++fin) {
      if (fin) d.EndOfStream();
      Decoder::Hypothesis h = d.BestPath();
      std::vector<int> w = spoken(h);
      double bound = ref.total(in[t], fin), x = ref.total(exact[t], fin);
      bool none = w.empty() && h.weight() == 0;
      if (bound == kInf && none) continue;
      if (none) {
        std::vector<std::vector<double>> pre = head(fr, t);
        if (ref.exists_path(pre, w, fin, 0, 1e-3)) continue;   // a real empty path of cost 0
        mc::fail("after %zu frames%s nothing is reported though a path of cost %g stays within the beam", t, fin ? " and the end" : "", bound);
      }
      MC_CHECK(h.weight() <= bound + 1e-3, "after %zu frames%s the cost is %g, a path of cost %g stays within the beam", t, fin ? " and the end" : "", h.weight(), bound);
      MC_CHECK(h.weight() >= x - 1e-3, "after %zu frames%s the cost is %g, cheaper than the cheapest path (%g)", t, fin ? " and the end" : "", h.weight(), x);
      MC_CHECK(ref.exists_path(head(fr, t), w, fin, h.weight(), 2e-3), "after %zu frames%s words %s are reported with cost %g: no such path", t, fin ? " and the end" : "", wstr(w).c_str(), h.weight());
      if (end && fin) mc::outcome(mc::fmt("%g %g %g %s", h.weight(), bound, x, wstr(w).c_str()));
      if (end) mc::note("cost %g bound %g exact %g %s", h.weight(), bound, x, wstr(w).c_str());
    }
    uint64_t s = t; for (double v : in[t]) s = mc::mix(s, v);
    mc::state(s);
  }
  mc::validated();
}

static const double kW[4] = { 0, 15.5, 16, 17 };

// Two branches: one starts cheap and ends dear, the other is up to `gap` behind
// and wins at the end; arcs and states in every order.
static void branches(bool perms) {
  double a = kW[mc::choose(4)], b = kW[mc::choose(4)], c = kW[mc::choose(4)];
  std::vector<A> v;
  A x0 = { 0, 1, 1, 1, 0 }, x1 = { 0, 2, 1, 2, a }, x2 = { 1, 1, 1, 0, b }, x3 = { 2, 2, 1, 0, 0 }, x4 = { 1, 3, 0, 3, 1 }, x5 = { 2, 3, 0, 4, c };
  v = { x0, x1, x2, x3, x4, x5 };
  if (perms) { std::vector<A> p; while (!v.empty()) { int k = mc::choose(v.size()); p.push_back(v[k]); v.erase(v.begin() + k); } v = p; }
  else if (mc::flip()) std::reverse(v.begin(), v.end());
  G g(4);
  for (auto &q : v) g.arcs.push_back(q);
  g.fin[3] = 0;
  if (mc::flip()) { g.fin[2] = 0; g.fin[1] = 20; }
  int T = 1 + mc::choose(3);
  std::vector<std::vector<double>> fr;
  for (int t = 0; t < T; ++t) fr.push_back(std::vector<double>{ mc::choose(2) * -8.0, 0, 0 });
  run(g, fr, mc::pick(std::vector<double>{ 0, 24, -24, 500 }));
}

// Score-driven competition: three looping words over three score columns, each
// frame moves the columns by amounts around the beam.
static void drift(int T) {
  static const double al[6][3] = { { 0, 0, 0 }, { 0, -15.5, -16 }, { -16, 0, -17 }, { -8, -8, 0 }, { 0, -17, 0 }, { 7.5, -8.5, 8.5 } };
  G g(4);
  int rev = mc::choose(2);
  for (int i = 0; i < 3; ++i) { int k = rev ? 2 - i : i; g.add(0, k + 1, k + 1, k + 1, k * 0.5); }
  for (int i = 0; i < 3; ++i) { int k = rev ? i : 2 - i; g.add(k + 1, k + 1, k + 1, 0, 0); }
  if (mc::flip()) { g.add(1, 2, 3, 9, 0.25); g.add(3, 1, 0, 8, 14); }
  for (int k = 1; k <= 3; ++k) g.fin[k] = k == 2 ? 12 : 0;
  std::vector<std::vector<double>> fr;
  for (int t = 0; t < T; ++t) { int k = mc::choose(6); fr.push_back(std::vector<double>(al[k], al[k] + 3)); }
  run(g, fr, mc::pick(std::vector<double>{ 0, 24, -24 }));
}

// Epsilon chains whose costs add up to around the beam.
static void eps() {
  G g(5);
  g.add(0, 1, 1, 1, 0);
  double a = kW[mc::choose(4)], b = mc::choose(3) * 0.5, c = kW[mc::choose(3)];
  std::vector<A> v;
  A e0 = { 1, 2, 0, 2, a }, e1 = { 2, 3, 0, 3, b }, e2 = { 1, 3, 0, 4, c }, e3 = { 3, 4, 1, 5, 0 }, e4 = { 1, 4, 1, 6, mc::choose(2) * 16.0 }, e5 = { 0, 2, 0, 7, c };
  v = { e0, e1, e2, e3, e4, e5 };
  std::vector<A> p; while (!v.empty()) { int k = mc::choose(v.size()); p.push_back(v[k]); v.erase(v.begin() + k); }
  for (auto &q : p) g.arcs.push_back(q);
  g.add(2, 3, 1, 0, 0); g.add(4, 4, 1, 0, 0);
  g.fin[4] = 0; g.fin[3] = 1;
  int T = 1 + mc::choose(2);
  std::vector<std::vector<double>> fr(T, std::vector<double>{ 0, 0, 0 });
  run(g, fr, mc::choose(2) * 24.0);
}

// More hypotheses than the limit: N parallel words. Below the limit nothing
// within the beam may go; above it, the cheapest must stay, with the order in
// which they are met and their cost profile chosen.
static void crowd() {
  static const int Ns[7] = { 200, 29999, 30000, 30001, 33000, 40000, 70000 };
  int N = Ns[mc::choose(7)];
  int order = mc::choose(3), profile = mc::choose(4);
  static const double probes[7] = { 0, 0.0001, 0.1, 0.2, 0.5, 0.9, 1 };
  double probe = probes[mc::choose(7)];
  // cost of the hypothesis of rank r (0 = cheapest)
  auto cost = [&](int r) {
    double u = r / (double)(N - 1);
    switch (profile) {
      case 0: return u * 15.75;
      case 1: return r == 0 ? 0.0 : 2.0 + u * 8;
      case 2: return u < 0.5 ? u : 8.0 + u * 4;
      default: return 3.0;
    }
  };
  auto rank = [&](int i) -> int { return order == 0 ? i : order == 1 ? N - 1 - i : (int)((i * 7919LL + 13) % N); };
  int target = (int)(probe * (N - 1));
  fst::StdVectorFst f;
  for (int i = 0; i < N + 2; ++i) f.AddState();
  f.SetStart(0);
  f.ReserveArcs(0, N);
  int tstate = -1;
  for (int i = 0; i < N; ++i) {
    int r = rank(i);
    f.AddArc(0, fst::StdArc(1, r + 1, (float)cost(r), i + 1));
    f.AddArc(i + 1, fst::StdArc(1, 0, 0.0f, i + 1));
    if (r == target) { tstate = i + 1; f.AddArc(i + 1, fst::StdArc(2, 0, 0.0f, N + 1)); }
  }
  f.SetFinal(N + 1, 0.0f);
  Vector<int32_t> map; set_vec(&map, std::vector<int>{ 0, 0, 1 });
  Decoder d(&f, map, 1.0f);
  d.Initialize();
  Vector<float> v; set_vec(&v, std::vector<double>{ 0, -100 });
  mc::note("N=%d order=%d profile=%d probe rank %d cost %g (state %d)", N, order, profile, target, cost(target), tstate);
  MC_CHECK(d.Process(v), "no hypothesis after the first of %d", N);
  Decoder::Hypothesis h = d.BestPath();
  MC_CHECK(fabs(h.weight() - cost(0)) < 1e-3, "cheapest of %d hypotheses has cost %g, expected %g", N, h.weight(), cost(0));
  bool ok = d.Process(v);
  h = d.BestPath();
  MC_CHECK(ok && fabs(h.weight() - cost(0)) < 1e-3, "the cheapest of %d hypotheses (cost %g) is lost, %g remains", N, cost(0), h.weight());
  // the probed hypothesis wins from here on
  set_vec(&v, std::vector<double>{ -40, 0 });
  d.Process(v); d.EndOfStream();
  h = d.BestPath();
  bool got = h.words().size() == 1 && h.words()[0] == target + 1;
  bool must = N <= 30000 || (target == 0 && profile != 3);   // above the limit only the cheapest is sure to stay
  mc::note("probe %s", got ? "kept" : "dropped");
  MC_CHECK(got || !must, "%d hypotheses: the one of rank %d (cost %g, cheapest %g) is lost", N, target, cost(target), cost(0));
  if (got) MC_CHECK(fabs(h.weight() - cost(target)) < 1e-3, "the probed hypothesis costs %g, expected %g", h.weight(), cost(target));
  mc::validated(); mc::step(3);
  mc::outcome(mc::fmt("%d %d %d %d %d", N, order, profile, target, (int)got));
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("branches", "two branches with costs {0,15.5,16,17}^3, both arc orders, all score sequences up to 3", [=] { branches(false); });
  if (!q) mc::add("branches-orders", "as branches with all 720 arc orders", [=] { branches(true); });
  mc::add("drift", mc::fmt("three looping words, all sequences of %d frames over 6 score vectors around the beam", q ? 5 : 7), [=] { drift(q ? 5 : 7); });
  mc::add("epsilon", "epsilon chains with costs around the beam, all arc orders", [=] { eps(); });
  mc::add("crowd", "7 hypothesis counts around and above the limit x 3 orders x 4 cost profiles x 7 probed ranks", [=] { crowd(); });
  return mc::main(argc, argv);
}
