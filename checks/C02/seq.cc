// C02, one thread: interleaved utterances, earlier utterances, several recognizers.
// Every execution is a process of its own that inherits recognizers on which
// nothing was ever decoded; the expected results come from processes that
// decoded nothing else.
#include "api.h"
#include "forked.h"
using namespace api;
namespace {
// ---- what can be decoded ---------------------------------------------------
struct Audio { std::string sound; int extra, bits; };
const Audio kAudio[] = {
  { "..llllll....hhhhhhh...llllllll..", 0, 16 },
  { "hhhhhhhhhhhh..llllllllllll......", 37, 16 },
  { "..hhhhhhhhh...hhhhhhhhh.lllllll.", 11, 8 },
  { "llllllllll......llllllllllll..hhhhhh", 0, 32 },
  { "..............................", 5, 16 },
  { "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn", 3, 16 },
  { "l", 0, 16 },
  { "lllllhhhhhhhhhlllllllhhhhhhhhhhhllllllllhhhhhhhhhhhhh............", 159, 16 },
};
const kit::Bytes &bytes(int a) {
  static std::map<int, kit::Bytes> t; kit::Bytes &b = t[a];
  if (b.empty()) b = model::raw(model::pcm(kAudio[a].sound, kAudio[a].extra), kAudio[a].bits);
  return b;
}
// models: 0 plain, 1 with a large LM, 2 other context and batch, 3 other context
// with LM, 4 no path ends, 5 wide (the number of hypotheses exceeds the active limit),
// 6 and 7: other words, pdfs, costs and language model states, without and with LM
model::Opt option(int k) {
  model::Opt o; static const int T[][6] = { { 1, 2, 5, 0, 0, 0 }, { 1, 2, 5, 1, 0, 0 }, { 3, 1, 8, 0, 0, 0 }, { 0, 3, 3, 1, 0, 0 }, { 1, 2, 4, 0, 1, 0 },
    { 0 }, { 1, 2, 5, 0, 0, 1 }, { 1, 2, 5, 1, 0, 1 } };
  o.left = T[k][0]; o.right = T[k][1]; o.chunk = T[k][2]; o.lm = T[k][3]; o.quiet = T[k][4]; o.variant = T[k][5]; return o;
}
enum { kWide = 5, kWideStates = 33000 };
ce_stt_t *wide() {
  static ce_stt_t *r = NULL;
  if (!r) {
    model::Files m = model::files(option(0));
    graph::Graph g; g.start = 0; g.st.resize(kWideStates + 1);
    const float d = 15.0f / kWideStates;
    for (auto &s : g.st) s.fin = INFINITY;
    kit::Bytes w = mc::fmt("<eps> 0\n<s> %d\n</s> %d\n", kWideStates + 1, kWideStates + 2);
    for (int i = 1; i <= kWideStates; ++i) {
      graph::Arc e = { 0, i, i * d, i }, l = { 1, 0, 0.0f, i };
      g.st[0].arcs.push_back(e); g.st[i].arcs.push_back(l); g.st[i].fin = -2 * i * d;
      w += mc::fmt("w%d %d\n", i, i);
    }
    m.f["graph.fst"] = graph::bytes(g, 0); m.f["words.txt"] = w;
    std::string c = model::write(mc::scratch() + "/wide", m);
    r = ce_stt_init(c.c_str());
    MC_CHECK(r != NULL, "a complete model is rejected: %s", ce_stt_last_error());
  }
  return r;
}
ce_stt_t *rec(int k) { return k == kWide ? wide() : recognizer(option(k)); }

// ---- one utterance in pieces ------------------------------------------------
// the text after every piece and the result, as one string
struct Run {
  int model, audio, pieces, at; ce_utt_t *u; std::string log; ce_stt_t *own;
  Run(int m, int a, int p) : model(m), audio(a), pieces(p), at(-1), u(NULL), own(NULL) {}
  int steps() const { return pieces + 3; }      // init, pieces, end, destroy
  bool done() const { return at == pieces + 2; }
  void step() {
    ++at;
    const kit::Bytes &b = bytes(audio);
    if (at == 0) { u = start(own ? own : rec(model), kAudio[audio].bits); log += "[" + std::string(hyp(u)) + "]"; }
    else if (at <= pieces) {
      // odd cuts: a sample is split between two calls
      size_t lo = at == 1 ? 0 : (b.size() * (at - 1) / pieces) | 1, hi = at == pieces ? b.size() : (b.size() * at / pieces) | 1;
      if (hi > b.size()) hi = b.size();
      if (lo < hi) { int k = feed(u, b, lo, hi - lo); log += mc::fmt("%d", k); }
      log += "[" + std::string(hyp(u)) + "]";
    } else if (at == pieces + 1) { ce_stt_end_of_stream(u); Result x = result(u); log += mc::fmt("=%s %a", x.hyp.c_str(), x.ll); }
    else { ce_utt_destroy(u); u = NULL; }
  }
};
std::string alone(int m, int a, int p) { Run r(m, a, p); while (!r.done()) r.step(); return r.log; }

// in a process of its own
std::string fresh(int m, int a, int p) {
  int fd[2]; if (pipe(fd)) _exit(3);
  rec(m);
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c == 0) { close(fd[0]); alarm(60); std::string s = alone(m, a, p); if (write(fd[1], s.data(), s.size()) < 0) _exit(3); _exit(0); }
  close(fd[1]); std::string s; char buf[4096]; ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
  close(fd[0]); int w; waitpid(c, &w, 0);
  MC_CHECK(w == 0, "decoding one utterance alone fails (model %d, audio %d, status %x)", m, a, w);
  return s;
}
const std::string &want(int m, int a, int p) {
  static std::map<std::vector<int>, std::string> t; std::string &s = t[{ m, a, p }];
  if (s.empty()) s = fresh(m, a, p);
  return s;
}
void compare(const Run &r, const char *when) {
  const std::string &w = want(r.model, r.audio, r.pieces);
  MC_CHECK(r.log == w, "%s: the utterance (model %d, audio %d) gives '%s', but '%s' alone", when, r.model, r.audio, r.log.c_str(), w.c_str());
  mc::validated(); mc::outcome(r.log); mc::state(mc::fnv(r.log));
}
// all interleavings of the calls of several utterances
void interleave(std::vector<Run> rs) {
  for (Run &r : rs) want(r.model, r.audio, r.pieces);
  mc::forked([&]() {
    for (;;) {
      std::vector<int> can; for (size_t i = 0; i < rs.size(); ++i) if (!rs[i].done()) can.push_back(i);
      if (can.empty()) break;
      int k = can.size() == 1 ? can[0] : can[mc::fchoose(can.size())];
      mc::note("%d%c", k, "ip"[rs[k].at >= 0]); rs[k].step(); mc::step();
    }
    for (Run &r : rs) compare(r, "interleaved with another utterance");
  });
}

// ---- what may happen before -------------------------------------------------
enum { kEvents = 17 };
void event(int e, int m) {
  switch (e) {
    case 0: alone(m, 0, 1); break;
    case 1: alone(m, 2, 3); break;
    case 2: alone(m, 4, 1); break;                                    // silence
    case 3: alone(m, 6, 1); break;                                    // too short for any output
    case 4: { ce_utt_destroy(start(rec(m))); break; }                 // nothing supplied
    case 5: { ce_utt_t *u = start(rec(m)); ce_stt_end_of_stream(u); ce_utt_destroy(u); break; }
    case 6: { Run r(m, 1, 3); r.step(); r.step(); r.step(); ce_utt_destroy(r.u); break; }   // abandoned, odd byte left over
    case 7: { Run r(m, 7, 1); r.step(); r.step(); break; }            // left open
    case 8: { ce_wave_format_t f = { 2, 16000, 16 }; MC_CHECK(ce_utt_init(rec(m), &f) == NULL, "two channels are accepted"); break; }
    case 9: { MC_CHECK(ce_stt_init((mc::scratch() + "/none.conf").c_str()) == NULL, "a missing model is accepted"); break; }
    case 10: { ce_utt_t *u = start(rec(m)); char c[2] = { 1, 0 }; for (int i = 0; i < 7; ++i) ce_stt_process(u, c, 1); ce_utt_destroy(u); break; }
    case 11: alone(4, 1, 1); break;                                   // a model with which nothing is recognised
    case 12: alone(m == 0 ? 2 : 0, 3, 2); break;                      // another model, 32 bits
    case 13: alone(m, 5, 2); break;                                   // noise
    case 15: alone(6, 0, 1); break;                                   // models with other words and costs
    case 16: alone(m == 7 ? 1 : 7, 7, 2); break;
    case 14: {                                                        // a model loaded and destroyed
      ce_stt_t *r = ce_stt_init((mc::scratch() + "/m-3-1-8-0-0-0/model.conf").c_str());
      MC_CHECK(r != NULL, "a complete model is rejected"); Run x(2, 1, 1); x.own = r; while (!x.done()) x.step(); ce_stt_destroy(r); break;
    }
  }
}
}  // namespace

int main(int argc, char **argv) {
  bool q = true;
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--tier")) q = strcmp(argv[i + 1], "thorough") != 0;
  struct P { const char *name; std::vector<std::vector<int>> u; bool thorough; };   // {model, audio, pieces}
  static const P ps[] = {
    { "two", { { 0, 0, 3 }, { 0, 1, 3 } }, false },
    { "two-widths", { { 0, 2, 3 }, { 0, 3, 3 } }, false },
    { "two-same", { { 0, 7, 3 }, { 0, 7, 3 } }, false },
    { "two-silent", { { 0, 4, 3 }, { 0, 5, 3 } }, false },
    { "two-lm", { { 1, 0, 2 }, { 1, 1, 2 } }, false },
    { "two-lm-3", { { 1, 0, 3 }, { 1, 3, 3 } }, false },
    { "two-lm-same", { { 1, 7, 3 }, { 1, 7, 3 } }, false },
    { "two-four-pieces", { { 0, 0, 4 }, { 0, 2, 4 } }, false },
    { "two-five-pieces", { { 0, 1, 5 }, { 0, 3, 5 } }, true },
    { "models", { { 0, 0, 3 }, { 2, 1, 3 } }, false },
    { "models-lm", { { 1, 0, 2 }, { 3, 1, 2 } }, false },
    { "models-mixed", { { 0, 0, 2 }, { 1, 0, 2 } }, false },
    { "models-dead", { { 4, 0, 2 }, { 0, 1, 2 } }, false },
    { "models-lm-3", { { 1, 7, 3 }, { 3, 0, 3 } }, false },
    { "models-variant", { { 0, 7, 3 }, { 6, 7, 3 } }, false },
    { "models-variant-lm", { { 1, 0, 2 }, { 7, 0, 2 } }, false },
    { "models-variant-lm-3", { { 7, 7, 3 }, { 1, 7, 3 } }, false },
    { "models-variant-mixed", { { 7, 1, 2 }, { 0, 0, 2 } }, false },
    { "three", { { 0, 0, 1 }, { 0, 1, 1 }, { 0, 2, 1 } }, true },
    { "three-models", { { 0, 0, 1 }, { 2, 1, 1 }, { 4, 2, 1 } }, true },
    { "wide", { { kWide, 0, 2 }, { kWide, 1, 2 } }, false },
  };
  for (const P &p : ps) {
    if (p.thorough && q) continue;
    const P *x = &p;
    mc::add(p.name, mc::fmt("all interleavings of the calls of %d utterances", (int)p.u.size()), [x]() {
      mc::C().split = 4;
      std::vector<Run> rs; for (auto &u : x->u) rs.push_back(Run(u[0], u[1], u[2]));
      interleave(rs);
    });
  }
  // all sequences of earlier events, then an utterance
  struct H { const char *name; int model, depth, probe; };
  static const H hs[] = { { "history", 0, 3, 0 }, { "history-widths", 2, q ? 2 : 4, 2 }, { "history-lm", 1, q ? 2 : 3, 1 }, { "history-variant", 7, q ? 1 : 3, 0 } };
  for (const H &h : hs) {
    const H *x = &h;
    mc::add(h.name, mc::fmt("all sequences of up to %d earlier events of %d kinds, then an utterance", h.depth, kEvents), [x]() {
      mc::C().split = 2;
      want(x->model, x->probe, 2); want(x->model, 7, 1); rec(2); rec(4); rec(0); rec(1); rec(6); rec(7);
      mc::forked([&]() {
        int n = mc::fchoose(x->depth + 1);
        for (int i = 0; i < n; ++i) { int e = mc::fchoose(kEvents); mc::note("event %d", e); event(e, x->model); mc::step(); }
        Run a(x->model, x->probe, 2); while (!a.done()) a.step();
        compare(a, "after other utterances");
        Run b(x->model, 7, 1); while (!b.done()) b.step();
        compare(b, "after other utterances");
      });
    });
  }
  // the same around the active limit
  mc::add("wide-history", "all sequences of up to 2 earlier utterances or abandoned utterances on a model that exceeds the active limit", []() {
    mc::C().split = 2;
    want(kWide, 0, 1); want(0, 0, 1);
    mc::forked([&]() {
      int n = mc::fchoose(mc::quick() ? 2 : 3);
      for (int i = 0; i < n; ++i) {
        int e = mc::fchoose(5); mc::note("event %d", e);
        if (e < 3) alone(kWide, e == 0 ? 1 : e == 1 ? 6 : 2, 1);
        else if (e == 3) { Run r(kWide, 0, 3); r.step(); r.step(); r.step(); ce_utt_destroy(r.u); }
        else alone(0, 0, 1);
        mc::step();
      }
      Run a(kWide, 0, 1); while (!a.done()) a.step();
      compare(a, "after other utterances");
    });
  });
  // many utterances open at the same time
  mc::add("many", "2 to 70 utterances open at once (up to 12 with a large language model), 4 orders of their calls, some abandoned half-way", []() {
    mc::C().split = 3;
    int m = mc::choose(2), n = mc::pick(m ? std::vector<int>{ 2, 5, 9, 12 } : std::vector<int>{ 2, 3, 5, 9, 17, 33, 70 }), order = mc::choose(4), drop = mc::choose(3);
    std::vector<Run> rs; for (int i = 0; i < n; ++i) rs.push_back(Run(m, (i * 5 + 1) % 8, 1 + i % 3));
    for (Run &r : rs) want(r.model, r.audio, r.pieces);
    mc::note("%d utterances, order %d, abandoned %d", n, order, drop);
    mc::forked([&]() {
      std::vector<int> gone(n, 0);
      for (int left = n, k = order == 3 ? n - 1 : 0; left > 0;) {
        Run &r = rs[k];
        if (!r.done()) {
          if (drop && r.at == 1 && k % 4 == drop) { ce_utt_destroy(r.u); gone[k] = 1; r.at = r.pieces + 2; }
          else r.step();
          if (r.done()) --left;
          mc::step();
        }
        // 0: one call each in turn. 1: every second, then the others. 2: a moving pair. 3: backwards
        k = order == 0 ? (k + 1) % n : order == 1 ? (k + 2 < n ? k + 2 : (k + 1) % 2) : order == 2 ? (k + (r.at % 2 ? 1 : n - (r.done() ? n - 1 : 1))) % n : (k + n - 1) % n;
        if (order >= 1 && rs[k].done()) for (int i = 0; i < n && rs[k].done(); ++i) k = (k + 1) % n;
      }
      for (int i = 0; i < n; ++i) if (!gone[i]) compare(rs[i], "many utterances are open");
    });
  });
  // the same utterance again and again: nothing accumulates
  mc::add("repeat", "the same utterances up to 60 times in one process, two models", []() {
    mc::C().split = 1;
    int m = mc::choose(2), a = mc::pick(std::vector<int>{ 0, 1, 2, 3, 7 });
    want(m, a, 2); want(m, 5, 1);
    mc::forked([&]() {
      for (int i = 0; i < (m ? 12 : 60); ++i) {
        Run r(m, a, 2); while (!r.done()) r.step();
        compare(r, "repeated"); mc::step();
      }
    });
  });
  return mc::main(argc, argv);
}
