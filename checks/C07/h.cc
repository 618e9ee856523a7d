// C07: recognition history across garbage collections. The whole word sequence
// is compared after every frame with a reference Viterbi that keeps words by
// value, over all segment patterns (silence lengths around the collection
// period, words, competing words, switches of the leading hypothesis).
#include <list>
#include "dec.h"
#include "mem.h"
using namespace dec;

// Reference: best (cost, words) per state; ties never occur in these graphs.
struct Vit {
  const G &g; const std::vector<int> &t2p;
  struct N { int w; std::shared_ptr<N> p; N(int x, std::shared_ptr<N> q) : w(x), p(q) {} };
  typedef std::shared_ptr<N> H;
  std::vector<double> c; std::vector<H> h;
  Vit(const G &gg, const std::vector<int> &t) : g(gg), t2p(t), c(gg.n, kInf), h(gg.n) { c[0] = 0; close(); }
  void close() {
    bool more = true;
    for (int it = 0; it <= g.n && more; ++it) { more = false; for (auto &a : g.arcs) if (a.il == 0 && c[a.src] < kInf && c[a.src] + a.w < c[a.dst] - 1e-9) {
      c[a.dst] = c[a.src] + a.w; h[a.dst] = a.ol ? H(new N(a.ol, h[a.src])) : h[a.src]; more = true;
    } }
  }
  void step(const std::vector<double> &f) {
    std::vector<double> c0(g.n, kInf); std::vector<H> h0(g.n);
    c0.swap(c); h0.swap(h);
    double m = kInf;
    for (auto &a : g.arcs) if (a.il != 0 && c0[a.src] < kInf) m = std::min(m, c0[a.src] + a.w - f[t2p[a.il]]);
    for (auto &a : g.arcs) if (a.il != 0 && c0[a.src] < kInf) {
      double v = c0[a.src] + a.w - f[t2p[a.il]];
      if (v < c[a.dst] - 1e-9) { c[a.dst] = v; h[a.dst] = a.ol ? H(new N(a.ol, h0[a.src])) : h0[a.src]; }
    }
    close();
    // keep costs small; drop what is hopelessly behind (far outside the beam)
    for (int i = 0; i < g.n; ++i) if (c[i] > m + 40) { c[i] = kInf; h[i].reset(); }
  }
  int best() const { int b = -1; for (int i = 0; i < g.n; ++i) if (c[i] < kInf && (b < 0 || c[i] < c[b])) b = i; return b; }
  double gap() const { int b = best(); double x = kInf; for (int i = 0; i < g.n; ++i) if (i != b) x = std::min(x, c[i]); return b < 0 ? 0 : x - c[b]; }
  std::vector<int> words() const { std::vector<int> v; int b = best(); if (b < 0) return v; for (const N *n = h[b].get(); n; n = n->p.get()) v.push_back(n->w); return std::vector<int>(v.rbegin(), v.rend()); }
};

struct Run {
  G g; std::vector<int> t2p;
  std::unique_ptr<fst::StdVectorFst> f; Vector<int32_t> map;
  std::unique_ptr<Decoder> d; std::unique_ptr<Vit> ref; int frames;
  Run(const G &gg, const std::vector<int> &t) : g(gg), t2p(t), frames(0) {
    f = to_fst(g); set_vec(&map, t2p);
    d.reset(new Decoder(f.get(), map, 1.0f)); d->Initialize(); ref.reset(new Vit(g, t2p));
    check();
  }
  void check() {
    Decoder::Hypothesis h = d->BestPath();
    if (ref->gap() < 1e-6) return;
    std::vector<int> w = spoken(h), want = ref->words();
    MC_CHECK(w == want, "after frame %d the words are %s, recognized so far: %s", frames, wstr(w).c_str(), wstr(want).c_str());
  }
  int every = 1; double level = 0;               // added to every score: costs may fall or rise all the time
  void frame(std::vector<double> x) {
    for (double &y : x) y += level;
    Vector<float> v; set_vec(&v, x);
    MC_CHECK(d->Process(v), "decoding stops at frame %d", frames + 1);
    ref->step(x); ++frames; mc::step();
    if (frames % every == 0) check();
  }
  void finish() {
    mc::validated(); mc::outcome(wstr(ref->words()).substr(0, 200)); mc::note("%d frames, words %s", frames, wstr(ref->words()).c_str());
    uint64_t s = frames; for (double x : ref->c) s = mc::mix(s, x); mc::state(s);
  }
};

// Two speakers X and Y in separate parts of the graph, kept alive side by side.
// columns: 0 silence, 1/2 words in X, 3/4 words in Y, 5 bias of Y
static double level(int n) { static const double T[] = { 0, 25, -25, 400 }; return T[mc::choose(n)]; }
static void speakers(int L) {
  G g(3);
  g.add(0, 1, 0, 0, 0); g.add(0, 2, 0, 50, 0.125);
  // X: silence and words "1", "2"; Y: silence and words "3", "4"
  g.add(1, 1, 1, 0, 0); g.add(1, 1, 2, 1, 0); g.add(1, 1, 3, 2, 0.25);
  g.add(2, 2, 4, 0, 0); g.add(2, 2, 5, 3, 0.5); g.add(2, 2, 6, 4, 0);
  g.fin[1] = g.fin[2] = 0;
  std::vector<int> t2p{ 0, 0, 1, 2, 3, 4, 5 };
  Run r(g, t2p);
  // X sil, X w1, X w2, Y sil, Y w3, Y w4
  double bias = 0;
  auto fr = [&](int x, int y) { std::vector<double> v(6, -30); v[x] = 0; v[3 + y] = bias; r.frame(v); bias = 0; };
  static const int sil[3] = { 19, 20, 21 };
  int used = 0, ahead = 0;
  for (int i = 0; i < L; ++i) {
    int k = mc::choose(8);
    switch (k) {
      case 0: case 1: case 2: mc::note("silence %d", sil[k]); for (int j = 0; j < sil[k]; ++j) fr(0, 0); used += sil[k]; break;
      case 3: fr(1, 1); mc::note("w1|w3"); break;
      case 4: fr(2, 2); mc::note("w2|w4"); break;
      case 5: fr(1, 0); fr(2, 0); mc::note("w1 w2|-"); break;
      case 6: fr(0, 2); fr(0, 1); mc::note("-|w4 w3"); break;
      case 7: bias = ahead ? -5 : 5; ahead = !ahead; fr(0, 0); mc::note("switch"); break;
    }
  }
  // let the other one win at the end: its history must be intact too
  bias = ahead ? -8 : 8; fr(0, 0);
  bias = ahead ? 16 : -16; fr(1, 1);
  r.finish();
}

// Branching histories: hypotheses share a prefix, fork, and one dies.
static void forks(int L) {
  G g(4);
  // 0 hub; 1 and 2 forks reached by words; returning to the hub
  g.add(0, 0, 1, 0, 0); g.add(0, 1, 2, 1, 0); g.add(0, 2, 2, 2, 0.5); g.add(1, 1, 1, 0, 0.0625); g.add(2, 2, 1, 0, 0);
  g.add(1, 0, 3, 3, 0); g.add(2, 0, 3, 4, 0.25); g.add(1, 3, 0, 5, 1); g.add(3, 3, 1, 0, 0); g.add(3, 0, 3, 6, 0.125); g.add(2, 1, 4, 7, 0);
  for (int i = 0; i < 4; ++i) g.fin[i] = 0;
  std::vector<int> t2p{ 0, 0, 1, 2, 3 };
  Run r(g, t2p); r.level = level(2);
  auto fr = [&](double a, double b, double c, double d) { r.frame(std::vector<double>{ a, b, c, d }); };
  for (int i = 0; i < L; ++i) {
    int k = mc::choose(7);
    switch (k) {
      case 0: for (int j = 0; j < 18; ++j) fr(0, -9, -9, -9); break;
      case 1: for (int j = 0; j < 20; ++j) fr(0, -9, -9, -9); break;
      case 2: fr(-3, 0, -3, -6); break;      // fork
      case 3: fr(-3, -6, 0, -6); break;      // join
      case 4: fr(-6, -3, -3, 0); break;      // cross from one fork to the other
      case 5: fr(0, -20, -20, -20); break;   // one frame of silence
      case 6: for (int j = 0; j < 3; ++j) { fr(-3, 0, -3, -6); fr(-3, -6, 0, -6); } break;
    }
    mc::note("%d", k);
  }
  r.finish();
}

// Long utterances: a phrase repeated up to many hundreds of frames.
static void repeat(int maxframes) {
  G g(3);
  g.add(0, 1, 0, 0, 0); g.add(0, 2, 0, 50, 0.125);
  g.add(1, 1, 1, 0, 0); g.add(1, 1, 2, 1, 0); g.add(1, 1, 3, 2, 0.25);
  g.add(2, 2, 4, 0, 0); g.add(2, 2, 5, 3, 0.5); g.add(2, 2, 6, 4, 0);
  std::vector<int> t2p{ 0, 0, 1, 2, 3, 4, 5 };
  Run r(g, t2p); r.level = level(4);
  int p[4]; for (int i = 0; i < 4; ++i) p[i] = mc::choose(3);
  int pause = mc::pick(std::vector<int>{ 0, 1, 7, 39, 64 });
  for (int n = 0; n < maxframes;) {
    for (int i = 0; i < 4; ++i, ++n) { std::vector<double> v(6, -30); v[p[i]] = 0; v[3 + (p[i] + i) % 3] = (n / 50) % 2 ? 0.25 : -0.25; r.frame(v); }
    for (int j = 0; j < pause; ++j, ++n) { std::vector<double> v(6, -30); v[0] = 0; v[3] = 0; r.frame(v); }
  }
  r.finish();
}

// Thousands of history nodes: a word in every frame, over many blocks of the pool.
static void longer(int maxframes) {
  G g(3);
  g.add(0, 1, 0, 0, 0); g.add(0, 2, 0, 50, 0.125);
  g.add(1, 1, 1, 0, 0); g.add(1, 1, 2, 1, 0); g.add(1, 1, 3, 2, 0.25);
  g.add(2, 2, 4, 0, 0); g.add(2, 2, 5, 3, 0.5); g.add(2, 2, 6, 4, 0);
  std::vector<int> t2p{ 0, 0, 1, 2, 3, 4, 5 };
  Run r(g, t2p); r.every = 37; r.level = level(3);
  int a = 1 + mc::choose(2), b = mc::choose(3), c = mc::choose(3), per = mc::pick(std::vector<int>{ 3, 500, 1500 });
  for (int n = 0; n < maxframes; ++n) {
    std::vector<double> v(6, -30); v[n / per % 2 ? (n % 2 ? b : a) : a] = 0; v[3 + (n % 5 ? c : 1)] = (n / (per + 7)) % 2 ? 1 : -1; r.frame(v);
  }
  r.finish();
}
// Many words compete in every frame; a different one wins each time.
static void fan(int T) {
  int K = mc::pick(std::vector<int>{ 40, 500, 2047, 4096, 5000 }), stay = mc::choose(2), seq = mc::choose(4); G g(K + 1);
  for (int i = 0; i < K; ++i) { g.add(0, i + 1, 1 + i % 5, i + 1, (i * 13 % K) * (4.0 / K)); g.add(i + 1, 0, 0, stay ? K + 1 + i : 0, 0.25); if (stay) g.add(i + 1, i + 1, 6, 0, 0.5); }
  g.add(0, 0, 6, 0, 0);
  std::vector<int> t2p{ 0, 0, 1, 2, 3, 4, 5 }; Run r(g, t2p); r.every = K > 1000 ? 5 : 1; r.level = level(2);
  for (int t = 0; t < T; ++t) { std::vector<double> v(6, -2); v[(t * (seq + 1) + t / 7) % 6] = 0; if (seq == 3 && t % 23 < 20) { v.assign(6, -12); v[5] = 0; } r.frame(v); }
  r.every = 1; r.frame(std::vector<double>{ 0, -1, -2, -3, -4, -5 }); r.finish();
}
// Hours of speech: one loop, the best word of every frame is known.
static void hours(int frames) {
  int pattern = mc::choose(3), words = mc::quick() ? 7 : mc::pick(std::vector<int>{ 2, 7 }), silence = mc::quick() ? 0 : mc::choose(2);
  G g(1); g.add(0, 0, 1, 0, 0); for (int i = 1; i <= words; ++i) g.add(0, 0, i + 1, i, 0);
  std::vector<int> t2p; for (int i = 0; i <= words + 1; ++i) t2p.push_back(i ? i - 1 : 0);
  auto f = to_fst(g); Vector<int32_t> map; set_vec(&map, t2p); Decoder d(f.get(), map, 1.0f); d.Initialize();
  std::vector<int> want; Vector<float> v(words + 1); int next = 1000;
  for (int t = 1; t <= frames; ++t) {
    int k = pattern == 0 ? 1 + t % words : pattern == 1 ? 1 + (t / 777) % words : 1 + (int)((unsigned)t * 2654435761u >> 16) % words;
    if (silence && t % 97 > 60) k = 0;
    for (int i = 0; i <= words; ++i) v(i) = i == k ? 0 : -30;
    if (!d.Process(v)) mc::fail("decoding stops at frame %d", t);
    if (k) want.push_back(k);
    if (t == next || t == frames) {
      next += next / 2; std::vector<int> w = spoken(d.BestPath()); mc::step();
      if (w != want) { size_t i = 0; while (i < w.size() && i < want.size() && w[i] == want[i]) ++i; mc::fail("after frame %d: %zu words, %zu spoken, first difference at word %zu", t, w.size(), want.size(), i); }
    }
  }
  mc::validated(); mc::state(mc::mix(mc::mix(words, pattern), silence)); mc::outcome(want.size()); mc::note("%d frames, %zu words", frames, want.size());
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
#ifdef VERIF_ASAN
  mc::add("speakers", mc::fmt("all sequences of %d segments out of 8 (silence 19/20/21, words, switches)", q ? 5 : 6), [=] { speakers(q ? 5 : 6); });
  mc::add("forks", mc::fmt("all sequences of %d segments out of 7 over forking hypotheses", q ? 5 : 7), [=] { forks(q ? 5 : 7); });
  mc::add("repeat", mc::fmt("81 phrases x 5 pauses repeated over %d frames", q ? 600 : 4000), [=] { repeat(q ? 600 : 4000); });
  mc::add("long", mc::fmt("a word in every frame of %d, 54 patterns", q ? 6000 : 30000), [=] { longer(q ? 6000 : 30000); });
  mc::add("fan", mc::fmt("40 to 5000 competing words in each of %d frames, 8 patterns", q ? 30 : 200), [=] { fan(q ? 30 : 200); });
#else
  int hf = q ? 101000 : 120000;   // quadratic in the length; "long" covers the instrumented build
  mc::add("hours", mc::fmt("%d patterns of up to %d words in one utterance", q ? 3 : 12, hf), [=] { hours(hf); });
#endif
  return mc::main(argc, argv);
}
