// C26: heap held by a decoder and by an utterance after k and 2k repetitions of
// every small cyclic pattern.
#include "api.h"
#include "dec.h"
#include "mem.h"
using dec::A; using dec::G;
using pocketkaldi::Decoder; using pocketkaldi::Vector;

// what the recognized words themselves may take, per word
static const long kPerWord = 512;

struct Machine {
  std::unique_ptr<fst::StdVectorFst> f; Vector<int32_t> map; std::unique_ptr<Decoder> d; std::vector<Vector<float>> fr;
  Machine(const G &g, const std::vector<std::vector<double>> &alphabet) {
    f = dec::to_fst(g); dec::set_vec(&map, std::vector<int>{ 0, 0, 1, 2 });
    d.reset(new Decoder(f.get(), map, 1.0f)); d->Initialize();
    for (auto &a : alphabet) { Vector<float> v; dec::set_vec(&v, a); fr.push_back(std::move(v)); }
  }
  size_t words() { return d->BestPath().words().size(); }
};
// The pattern is repeated; heap after each third of `frames`.
static void cycle(const G &g, const std::vector<std::vector<double>> &alphabet, const std::vector<int> &pat, int frames, long slack) {
  Machine m(g, alphabet); int n = std::max<int>(1, frames / pat.size());
  auto play = [&](int k) { for (int i = 0; i < k; ++i) for (int p : pat) m.d->Process(m.fr[p]); };
  mc::C().trace.reserve(40000);
  play(n / 2 + 1); m.d->BestPath(); size_t w0 = m.words(); long h0 = heap_bytes();
  play(n); m.d->BestPath(); long h1 = heap_bytes(); size_t w1 = m.words();
  long words = w1 > w0 ? w1 - w0 : 0;
  MC_CHECK(h1 - h0 <= slack + words * kPerWord, "%d more frames take %ld more bytes (%ld more words): %s", (int)(n * pat.size()), h1 - h0, words, dec::gstr(g).c_str());
  mc::step(n * pat.size() * 3 / 2); mc::outcome(words ? "words" : m.d->BestPath().weight() == 0 ? "zero" : "cost"); mc::validated();
  mc::state(mc::fnv(dec::gstr(g) + mc::fmt("%zu %d %d", pat.size(), pat[0], pat.back())));
}
static std::vector<int> pattern(int len, int n) { std::vector<int> p; int k = 1 + mc::choose(len); for (int i = 0; i < k; ++i) p.push_back(mc::choose(n)); return p; }
// scores of pdf 0..2: all equal; the first; the second; the third
static const std::vector<std::vector<double>> kFrames = { { 0, 0, 0 }, { 0, -3, -20 }, { -3, 0, -3 }, { -20, -20, 0 } };
// arcs out of a state compete for one other state, in every order of costs
static void rivals(int arcs, int len, int frames, long slack) {
  static const double W[] = { 0, 0.5, 1, 17 };
  G g(2); g.fin[0] = g.fin[1] = 0; bool words = mc::flip(); int eps = mc::choose(3);
  g.add(0, 0, 1, 0, 0);
  for (int i = 0; i < arcs; ++i) g.add(0, 1, eps == 1 ? 0 : 2 + i % 2, words ? 5 + i : 0, W[mc::choose(4)]);
  if (eps == 2) g.add(1, 0, 0, 0, 0.25); else g.add(1, 0, 3, 0, 0.25);
  std::vector<int> p = len ? pattern(len, 4) : mc::pick(std::vector<std::vector<int>>{ { 0 }, { 1 }, { 2 }, { 3 }, { 0, 1 }, { 0, 2, 3 } }); mc::note("%s", dec::gstr(g).c_str());
  cycle(g, kFrames, p, frames, slack);
}
// all graphs of some arcs
static void graphs(int arcs, int frames, long slack) {
  static const std::vector<double> W = mc::quick() ? std::vector<double>{ 0, 17 } : std::vector<double>{ 0, 0.75, 17 };
  G g(2); g.fin[0] = 0; int last = 0; std::vector<A> all;
  for (int s = 0; s < 2; ++s) for (int d = 0; d < 2; ++d) for (int il : { 1, 2, 0 }) for (int ol : { 0, 5 }) for (double w : W) { if (il == 0 && s == d) continue; A a = { s, d, il, ol, w }; all.push_back(a); }
  for (int i = 0; i < arcs; ++i) { last += mc::choose(all.size() - last); g.arcs.push_back(all[last]); }
  // an epsilon cycle with words has no shortest text; it is not a valid graph
  bool e01 = false, e10 = false; for (auto &a : g.arcs) if (a.il == 0) (a.src ? e10 : e01) = true;
  if (e01 && e10) return;
  int p = mc::quick() ? 3 : mc::choose(4); mc::note("%s", dec::gstr(g).c_str());
  cycle(g, kFrames, p == 3 ? std::vector<int>{ 0, 1, 2, 3 } : p == 0 ? std::vector<int>{ 0 } : p == 1 ? std::vector<int>{ 0, 1, 2 } : std::vector<int>{ 2, 3 }, frames, slack);
}
// words that never win, and words that lose again later
static void losers(int len, int frames) {
  int keep = mc::choose(2), many = 1 + mc::choose(3), back = mc::choose(2); G g(2 + many); g.fin[0] = 0;
  g.add(0, 0, 1, 0, 0);
  for (int i = 0; i < many; ++i) {
    g.add(0, 2 + i, 2 + i % 2, 10 + i, 0.5 * i); g.add(2 + i, 2 + i, 3 - i % 2, keep ? 20 + i : 0, 0.5);
    if (back) g.add(2 + i, 0, 0, 30 + i, 8); else g.add(2 + i, 1, 0, 30 + i, 2);
  }
  g.add(1, 1, 1, 0, 0.25);
  std::vector<int> p = pattern(len, 4); mc::note("%s", dec::gstr(g).c_str());
  cycle(g, kFrames, p, frames, 250000);
}
// the best hypothesis of a frame has bad successors only, which another one overtakes in the same frame
static void overtaken(int frames) {
  int many = 1 + mc::choose(3), eps = mc::choose(2), rev = mc::choose(2), words = mc::flip(); double w = mc::pick(std::vector<double>{ 15, 17, 20, 31 });
  G g(3 + many); g.fin[0] = 0;
  auto bad = [&]() { for (int i = 0; i < many; ++i) g.add(0, 3 + i, 1, words ? 10 + i : 0, w + 0.5 * i); };
  if (!rev) bad();
  if (eps) g.add(0, 1, 0, 0, 1); else { g.add(0, 1, 1, 0, w + 0.25); g.add(0, 2, 2, 0, 0.5); }
  g.add(1, 0, 1, words ? 5 : 0, 0); g.add(2, 0, 1, 0, 0.25);
  if (rev) bad();
  if (mc::flip()) for (int i = 0; i < many; ++i) g.add(3 + i, 0, 2, words ? 20 : 0, 0.5);
  std::vector<int> p = mc::pick(std::vector<std::vector<int>>{ { 0 }, { 1 }, { 2 }, { 0, 2 }, { 0, 1, 2 } }); mc::note("%s", dec::gstr(g).c_str());
  cycle(g, kFrames, p, frames, 200000);
}
// thousands of words compete in every frame, or in bursts
static void crowds() {
  int K = mc::pick(std::vector<int>{ 300, 3000, 20000 }), lab = mc::choose(2), burst = mc::choose(3);
  G g(K + 1); g.fin[0] = 0; g.add(0, 0, 1, 0, 0.5);
  for (int i = 0; i < K; ++i) { g.add(0, i + 1, 2, 5 + i, (i * 13 % K) * (8.0 / K)); g.add(i + 1, 0, 1 + i % 2, lab ? 5 + i : 0, 0.25); g.add(i + 1, i + 1, 2, lab ? 5 : 0, 0.5); }
  std::vector<int> p(20, 0); if (burst == 1) p = { 0, 2 }; if (burst == 2) for (int i = 0; i < 10; ++i) p[i] = 1;
  mc::note("%d words, pattern %d, label %d", K, burst, lab);
  Machine m(g, kFrames); auto play = [&](int k) { for (int i = 0; i < k; ++i) for (int x : p) m.d->Process(m.fr[x]); };
  int n = std::max(1, (K > 10000 ? 100 : 400) / (int)p.size());
  play(n); size_t w0 = m.words(); long h0 = heap_bytes(); play(2 * n); size_t w1 = m.words(); long h1 = heap_bytes();
  long room = (long)K * 20 * 64 * 2 + 200000;                 // one period of collection
  MC_CHECK(h1 - h0 <= room + (long)(w1 > w0 ? w1 - w0 : 0) * kPerWord, "%d words side by side: %d more frames take %ld more bytes", K, 2 * n * (int)p.size(), h1 - h0);
  mc::step(3 * n * p.size()); mc::outcome(mc::fmt("%d %d", w1 > w0, K)); mc::state(mc::fnv(mc::fmt("cr %d %d %d", K, lab, burst))); mc::validated();
}
// no hypothesis is left at some point
static void dead(int frames) {
  G g(3); g.add(0, 1, 1, 5, 0); if (mc::flip()) g.add(1, 1, 2, 0, 0); if (mc::flip()) g.add(1, 2, 2, 6, 0); if (mc::flip()) g.fin[2] = 0;
  cycle(g, kFrames, pattern(2, 4), frames, 250000);
}

// ---- whole utterances ----------------------------------------------------
static model::Opt option(int k) { model::Opt o; if (k == 1) o.lm = true; if (k == 2) { o.left = 0; o.right = 0; o.chunk = 1; } if (k == 3) { o.left = 6; o.right = 4; o.chunk = 33; } return o; }
static kit::Bytes segment(int s) {
  static std::map<int, kit::Bytes> c; kit::Bytes &b = c[s]; if (!b.empty()) return b;
  switch (s) {
    case 0: b = model::raw(model::pcm(model::rep('.', 20))); break;             // silence
    case 1: b = kit::Bytes(4001 * 2, '\0'); break;                              // digital silence, no whole number of frames
    case 2: b = model::raw(model::pcm(model::rep('n', 15))); break;
    case 3: b = model::raw(model::pcm("..llllllllllllll...")); break;
    default: b = model::raw(model::pcm("hhhhhhhhhhhh......")); break;
  }
  return b;
}
static size_t count(const std::string &h) { size_t n = h.empty() ? 0 : 1; for (char c : h) n += c == ' '; return n; }
static void stream(int len, int segs, double seconds, const std::vector<int> &models, const std::vector<int> &chunks, long slack) {
  int k = mc::pick(models), c = mc::pick(chunks); kit::Bytes b; std::string t;
  for (int p : pattern(len, segs)) { b += segment(p); t += mc::fmt(" %d", p); }
  ce_stt_t *r = api::recognizer(option(k)); std::vector<char> buf(c); size_t pos = 0;
  mc::C().trace.reserve(40000);
  ce_utt_t *u = api::start(r);
  auto play = [&](double sec) {
    long left = (long)(sec * 32000 / b.size() + 1) * b.size();
    while (left > 0) { int n = std::min<long>(c, left); for (int i = 0; i < n; ++i) { buf[i] = b[pos]; if (++pos == b.size()) pos = 0; } ce_stt_process(u, buf.data(), n); left -= n; }
  };
  play(seconds / 2); long h0 = heap_bytes(); size_t w0 = strlen(u->hyp), n0 = 0;
  play(seconds); long h1 = heap_bytes(); size_t w1 = strlen(u->hyp);
  { std::string h = api::hyp(u); n0 = count(h); }
  long words = w1 > w0 ? (w1 - w0) / 4 + 2 : 0;                                // every word has 4 or more characters with its space
  MC_CHECK(h1 - h0 <= slack + words * kPerWord, "%.0f s more of segments%s in chunks of %d take %ld more bytes (%ld more words)", seconds, t.c_str(), c, h1 - h0, words);
  ce_utt_destroy(u);
  mc::note("model %d segments%s chunks %d: %ld bytes, %ld words", k, t.c_str(), c, h1 - h0, words); mc::outcome(n0 ? "words" : "none"); mc::state(mc::fnv(mc::fmt("%d %d", k, c) + t)); mc::step((uint64_t)(seconds * 150)); mc::validated();
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick(); int f = q ? 12000 : 60000, fg = q ? 8000 : 20000;
  mc::add("rivals", mc::fmt("up to %d competing arcs with all costs x %s x %d frames", q ? 2 : 3, q ? "6 patterns" : "all cyclic patterns of up to 2 frames", f), [=] { rivals(1 + mc::choose(q ? 2 : 3), q ? 0 : 2, f, 200000); });
  mc::add("losers", mc::fmt("losing words x all cyclic patterns of up to %d frames x %d frames", q ? 2 : 5, f), [=] { losers(q ? 2 : 5, f); });
  mc::add("overtaken", mc::fmt("hypotheses that are dropped in the frame after: 1 to 3 at a time, 4 costs, 5 patterns x %d frames", f), [=] { overtaken(f); });
  mc::add("crowds", "300 to 20000 words side by side, all the time and in bursts", [] { crowds(); });
  mc::add("dead", "graphs that end", [=] { dead(f); });
  mc::add("graphs", mc::fmt("all graphs of 2 states and %d arcs x %d patterns x %d frames", q ? 2 : 3, q ? 1 : 4, fg), [=] { graphs(q ? 2 : 3, fg, q ? 120000 : 250000); });
  std::vector<int> ms = { 0, 1, 2, 3 }, two = { 0, 2 };
  mc::add("chunks", "5 segments x 4 models x 10 chunk sizes", [=] { stream(1, 5, q ? 40 : 240, ms, { 1, 3, 160, 318, 320, 322, 800, 1001, 6400, 100000 }, 40000); });
  mc::add("streams", mc::fmt("all cyclic patterns of up to %d segments", q ? 2 : 4), [=] { stream(q ? 2 : 4, 5, q ? 60 : 300, two, { 322, 6400 }, 40000); });
  return mc::main(argc, argv);
}
