// C03: all sequences of good and bad calls of the C interface.
#include "api.h"
#include "mem.h"
using namespace api;

static model::Opt option(int k) { model::Opt o; o.lm = k == 1; o.quiet = k == 2; o.chunk = k == 3 ? 40 : 5; o.left = k == 3 ? 8 : 1; return o; }
static const kit::Bytes &sound() { static kit::Bytes b = model::raw(model::pcm("..llllllllll.....hhhhhhhhhhh....lllllllllllll....hhhhhhhhhh......")); return b; }
static Result want(ce_stt_t *r, int opt, size_t n) {
  static std::map<std::pair<int, size_t>, Result> c; auto k = std::make_pair(opt, n);
  auto it = c.find(k); if (it != c.end()) return it->second;
  return c[k] = whole(r, sound().substr(0, n));
}
// A failure with a message of our own comes first, so that an old message is
// not taken for a new one.
static int serial = 0;
struct Failing {
  std::string mark;
  Failing() {
    mark = mc::fmt("/nowhere/mark-%d-", ++serial % 1000);
    ce_stt_t *r = ce_stt_init((mark + ".conf").c_str());
    MC_CHECK(r == NULL, "a recognizer without a configuration file");
    const char *e = ce_stt_last_error();
    MC_CHECK(e && *e, "no message for a missing configuration file");
    if (!strstr(e, mark.c_str())) mark = "";
    old = e;
  }
  std::string old;
  void done(const char *what) {
    const char *e = ce_stt_last_error();
    MC_CHECK(e != NULL && *e, "%s: no error message", what);
    MC_CHECK(mark.empty() || !strstr(e, mark.c_str()), "%s: fails without a message of its own", what);
  }
};
struct Utt {
  ce_utt_t *u; size_t fed; bool ended, loose;      // loose: results are not specified any more
  Utt(): u(NULL), fed(0), ended(false), loose(false) {}
};
struct Session {
  ce_stt_t *r; int opt; std::string dir;
  void bad_process(Utt *x, const char *data, int size, const char *what) {
    std::string before = hyp(x->u); float ll = x->u->loglikelihood_per_frame;
    Failing f; int k = ce_stt_process(x->u, data, size);
    MC_CHECK(k == CE_STT_FAILED, "%s returns %d", what, k); f.done(what);
    MC_CHECK(hyp(x->u) == before && memcmp(&ll, &x->u->loglikelihood_per_frame, 4) == 0, "%s changes the hypothesis", what);
  }
  void step(Utt *x, int op) {
    switch (op) {
      case 0: case 1: {
        size_t n = op ? 9001 : 1600; if (x->fed + n > sound().size()) n = sound().size() - x->fed; if (!n) break;
        int k = feed(x->u, sound(), x->fed, n);
        if (!x->ended) { MC_CHECK(k == (int)((x->fed + n) / 2 - x->fed / 2), "process returns %d for %d bytes at %d", k, (int)n, (int)x->fed); x->fed += n; } else x->loose = true;
        break;
      }
      case 2: bad_process(x, NULL, 100, "process without data"); break;
      case 3: { char c[4]; bad_process(x, c, 0, "process of size 0"); break; }
      case 4: { char c[4]; bad_process(x, c, -1, "process of size -1"); break; }
      case 5: { Failing f; char c[4] = ""; int k = ce_stt_process(NULL, c, 4); MC_CHECK(k == CE_STT_FAILED, "process without an utterance returns %d", k); f.done("process without an utterance"); break; }
      case 6: {
        ce_stt_end_of_stream(x->u);
        if (x->ended) x->loose = true;
        x->ended = true;
        if (!x->loose) {
          Result a = result(x->u), w = want(r, opt, x->fed);
          MC_CHECK(a == w, "after failed calls the result is '%s' %.9g, expected '%s' %.9g", a.hyp.c_str(), a.ll, w.hyp.c_str(), w.ll);
          mc::outcome(a.hyp);
        }
        break;
      }
      case 7: { Failing f; ce_stt_end_of_stream(NULL); f.done("end of stream without an utterance"); break; }
      case 8: ce_utt_destroy(NULL); ce_stt_destroy(NULL); break;
      case 9: {
        static const int F[][3] = { { 2, 16000, 16 }, { 1, 8000, 16 }, { 1, 16000, 24 }, { 0, 0, 0 }, { 1, 16000, -16 } };
        for (auto &f : F) { ce_wave_format_t w = { f[0], f[1], f[2] }; Failing e; MC_CHECK(ce_utt_init(r, &w) == NULL, "an utterance with %d channels, %d Hz, %d bits", f[0], f[1], f[2]); e.done("ce_utt_init with an unsupported format"); }
        break;
      }
      case 10: { Failing f; MC_CHECK(ce_stt_init((dir + "/bad.conf").c_str()) == NULL, "a recognizer from a malformed configuration"); f.done("malformed configuration"); break; }
      case 11: {
        FILE *h = fopen((dir + "/bad.wav").c_str(), "rb"); ce_wave_format_t w = { 7, 7, 7 }; Failing f;
        MC_CHECK(ce_read_pcm_header(h, &w) == NULL, "a bad header is accepted"); f.done("bad wave header");
        fclose(h); break;
      }
      case 12: {
        ce_utt_t fake; fake.internal = NULL; fake.hyp = NULL; fake.loglikelihood_per_frame = 0; char c[4] = "";
        Failing f; MC_CHECK(ce_stt_process(&fake, c, 4) == CE_STT_FAILED, "process of an empty utterance succeeds"); f.done("process of an empty utterance");
        Failing g; ce_stt_end_of_stream(&fake); g.done("end of stream of an empty utterance"); break;
      }
    }
    std::string h = hyp(x->u);                     // reads the whole string
    MC_CHECK(std::isfinite(x->u->loglikelihood_per_frame), "loglikelihood_per_frame is %g", x->u->loglikelihood_per_frame);
    mc::state(mc::fnv(mc::fmt("%d %d %d %d %s", opt, (int)x->fed, (int)x->ended, op, h.c_str()))); mc::step();
  }
};
static std::string prepare() {
  static std::string d;
  if (d.empty()) { d = mc::scratch(); kit::write_file(d + "/bad.conf", "fst = \nnonsense\n"); kit::write_file(d + "/bad.wav", "RIFFxxxxWAVE"); }
  return d;
}
static void calls(int len, int opts, const std::vector<int> &ops) {
  int opt = mc::choose(opts); Session s; s.r = recognizer(option(opt)); s.opt = opt; s.dir = prepare();
  std::vector<int> seq; std::string t; for (int i = 0; i < len; ++i) seq.push_back(mc::pick(ops));
  for (int o : seq) t += mc::fmt("%d ", o);
  mc::note("model %d operations %s", opt, t.c_str());
  // expected results first: their memory is not of the utterance
  size_t fed = 0; for (int o : seq) { if (o < 2) fed = std::min(fed + (o ? 9001 : 1600), sound().size()); if (o == 6) want(s.r, opt, fed); }
  want(s.r, opt, fed);
  for (int warm = 0; warm < 2; ++warm) {
    // whatever is kept per process or thread is allocated in the first round
    long before = heap_bytes();
    {
      Utt x; x.u = start(s.r); mc::C().trace.reserve(40000);
      for (int o : seq) s.step(&x, o);
      if (!x.ended) s.step(&x, 6);
      ce_utt_destroy(x.u);
    }
    long after = heap_bytes();
    if (warm) MC_CHECK(after <= before, "%ld bytes are lost by an utterance with operations %s", after - before, t.c_str());
  }
  mc::validated();
}
// two utterances of one recognizer; failing calls on one must not touch the other
static void pairs(int len) {
  Session s; s.opt = 0; s.r = recognizer(option(0)); s.dir = prepare();
  static const int O[] = { 0, 1, 2, 3, 6, 9, 11 }; Utt x[2]; x[0].u = start(s.r); x[1].u = start(s.r);
  for (int i = 0; i < len; ++i) { int k = mc::choose(2), o = O[mc::choose(7)]; mc::note("%d:%d", k, o); s.step(&x[k], o); }
  for (int k : { 0, 1 }) { if (!x[k].ended) s.step(&x[k], 6); ce_utt_destroy(x[k].u); }
  mc::validated();
}
// recognizers come and go, utterances in between, in any order of destruction
static void lifetimes(int len) {
  std::string d = prepare(), c = model::write(d + "/life", model::files(option(0)));
  std::vector<int> seq; for (int i = 0; i < len; ++i) seq.push_back(mc::choose(6));
  long before = 0;
  for (int warm = 0; warm < 3; ++warm) {
    before = heap_bytes();
    {
      ce_stt_t *r = NULL; ce_utt_t *u[2] = { NULL, NULL };
      auto drop = [&](int k) { ce_utt_destroy(u[k]); u[k] = NULL; };
      for (int o : seq) switch (o) {
        case 0: if (!r) { r = ce_stt_init(c.c_str()); MC_CHECK(r != NULL, "a good model is rejected: %s", ce_stt_last_error()); } break;
        case 1: if (r) { drop(0); drop(1); ce_stt_destroy(r); r = NULL; } break;
        case 2: case 3: if (r && !u[o - 2]) u[o - 2] = start(r); break;
        case 4: for (int k = 0; k < 2; ++k) if (u[k]) { feed(u[k], sound(), 0, 7000 + k); std::string h = hyp(u[k]); } break;
        case 5: if (u[0]) { ce_stt_end_of_stream(u[0]); std::string h = hyp(u[0]); drop(0); } break;
      }
      drop(0); drop(1); ce_stt_destroy(r);
    }
    long after = heap_bytes();
    if (warm == 2) MC_CHECK(after <= before, "%ld bytes are lost by recognizers and utterances", after - before);
  }
  std::string t; for (int o : seq) t += mc::fmt("%d", o); mc::note("operations %s", t.c_str()); mc::state(mc::fnv(t)); mc::validated();
}
// every hypothesis length: text buffers, with a scan of the string at every step
static void texts(int max) {
  int n = mc::choose(max), opt = mc::choose(3), tail = mc::choose(3); std::string s;
  for (int i = 0; i < n; ++i) s += i % 3 == 1 ? "hhhhhhhh..." : "lllllllll....";
  s += model::rep('.', tail * 15 + 1);
  ce_stt_t *r = recognizer(option(opt)); kit::Bytes b = model::raw(model::pcm(s)); ce_utt_t *u = start(r);
  for (size_t i = 0; i < b.size(); i += 6400) { feed(u, b, i, std::min<size_t>(6400, b.size() - i)); std::string h = hyp(u); MC_CHECK(h.empty() || (h[0] != ' ' && h[h.size() - 1] != ' '), "the text '%s' is not trimmed", h.c_str()); }
  ce_stt_end_of_stream(u); std::string h = hyp(u);
  MC_CHECK(strlen(u->hyp) == h.size() && (h.empty() || h[h.size() - 1] != ' '), "text '%s'", h.c_str());
  std::stringstream ss(h); std::string w; std::string re;
  while (ss >> w) { MC_CHECK(w == "low" || w == "high" || w == "bass", "the text has the word '%s'", w.c_str()); re += (re.empty() ? "" : " ") + w; }
  MC_CHECK(re == h, "the text is '%s'", h.c_str());
  ce_utt_destroy(u); mc::note("%d words: '%s'", n, h.c_str()); mc::outcome(h); mc::state(mc::fnv(h)); mc::validated();
}
// Words of any spelling and utterances of many of them: the text is the words
// of the plain model, spelled the other way.
static void spelling(int max) {
  static const int Len[] = { 1, 2, 8, 63, 100, 255, 256, 1000, 1024, 2048, 4096, 20000, 70000 };
  int n = mc::pick(std::vector<int>{ 1, 2, 7, max }), la = Len[mc::choose(13)], lb = Len[mc::choose(13)], kind = mc::choose(3);
  if (n == max && (la > 4096 || lb > 4096 || kind)) return;
  auto word = [&](int len, char c) { std::string w(len, c); for (int i = 1; i < len; ++i) w[i] = kind == 0 ? 'a' + (i * 7 + c) % 26 : kind == 1 ? (char)(0x80 + (i * 13 + c) % 64) : "%s\\{}\"#="[(i + c) % 8]; return w; };
  std::map<std::string, std::string> to; to["low"] = word(la, 'L'); to["high"] = word(lb, 'H'); to["bass"] = word(la, 'B');
  std::string base = mc::scratch(); model::Files m = model::files(option(0)); kit::Bytes b;
  for (int i = 0; i < 6; ++i) b += (to.count(model::kWords[i]) ? to[model::kWords[i]] : std::string(model::kWords[i])) + " " + std::to_string(i) + "\n";
  m.f["words.txt"] = b; ce_stt_t *r = ce_stt_init(model::write(base + "/spelled", m).c_str());
  MC_CHECK(r != NULL, "words of %d and %d bytes: no recognizer: %s", la, lb, ce_stt_last_error());
  std::string s; for (int i = 0; i < n; ++i) s += i % 3 == 1 ? "hhhhhhhh..." : "lllllllll....";
  b = model::raw(model::pcm(s)); Result plain = whole(recognizer(option(0)), b);
  ce_utt_t *u = start(r); for (size_t i = 0; i < b.size(); i += 32000) { feed(u, b, i, std::min<size_t>(32000, b.size() - i)); hyp(u); }
  ce_stt_end_of_stream(u); Result x = result(u); ce_utt_destroy(u); ce_stt_destroy(r);
  std::string want, w; std::stringstream ss(plain.hyp); while (ss >> w) want += (want.empty() ? "" : " ") + to[w];
  MC_CHECK(x.hyp == want, "words of %d and %d bytes: text of %zu bytes, expected %zu (%d sounds, '%.60s')", la, lb, x.hyp.size(), want.size(), n, plain.hyp.c_str());
  MC_CHECK(memcmp(&x.ll, &plain.ll, 4) == 0, "the spelling changes the score: %g, expected %g", x.ll, plain.ll);
  mc::note("%d sounds, words of %d/%d bytes", n, la, lb); mc::outcome(want.size()); mc::state(mc::fnv(want)); mc::step(); mc::validated();
}
// Names of any length in failing calls: the message stays a string of bounded size.
static void messages() {
  static const int Len[] = { 1, 100, 900, 1000, 2000, 2010, 2020, 2030, 2040, 2045, 2046, 2047, 2048, 2049, 2050, 2060, 3000, 4000, 4090, 4100, 9000 };
  int n = Len[mc::choose(21)] + mc::choose(3), what = mc::choose(3); std::string name; while ((int)name.size() < n) name += (name.size() % 101 == 100) ? "/" : "x"; name.resize(n); if (name[n - 1] == '/') name[n - 1] = 'y';
  ce_stt_t *r; std::string d = mc::scratch(); Failing f;
  if (what == 0) r = ce_stt_init(("/nowhere/" + name).c_str());
  else if (what == 1) { model::Files m = model::files(); for (auto &p : m.conf) if (p.first == "nnet") p.second = "/nowhere/" + name; r = ce_stt_init(model::write(d + "/long", m).c_str()); }
  else { model::Files m = model::files(); for (auto &p : m.conf) if (p.first == "left_context") p.second = name; r = ce_stt_init(model::write(d + "/long", m).c_str()); }
  MC_CHECK(r == NULL, "a recognizer from a bad configuration"); f.done("a bad configuration");
  const char *e = ce_stt_last_error(); size_t len = strlen(e); MC_CHECK(len > 0 && len < 100000, "message of %zu bytes", len);
  std::string first = e;
  // a shorter message replaces it completely
  MC_CHECK(ce_stt_init("/nowhere/s") == NULL, "a recognizer without a configuration"); std::string second = ce_stt_last_error();
  MC_CHECK(second.size() < 200 && second.find("xxxxxxxx") == std::string::npos, "after a long message: '%.300s'", second.c_str());
  mc::note("name of %d bytes, message of %zu", n, len); mc::outcome(len); mc::state(mc::fnv(first)); mc::step(); mc::validated();
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  std::vector<int> all; for (int i = 0; i < 13; ++i) all.push_back(i);
  std::vector<int> core = { 0, 1, 2, 3, 6, 9, 11 };
  mc::add("texts", mc::fmt("utterances of 0 to %d sounds, 3 models, 3 endings", q ? 16 : 60), [=] { texts(q ? 16 : 60); });
  mc::add("lifetimes", mc::fmt("all sequences of %d operations on a recognizer and two utterances", q ? 4 : 5), [=] { lifetimes(q ? 4 : 5); });
  mc::add("calls", mc::fmt("all sequences of %d calls out of 13, good and bad, 4 models", q ? 2 : 4), [=] { calls(q ? 2 : 4, 4, all); });
  mc::add("calls-deep", mc::fmt("all sequences of %d calls out of 7", q ? 4 : 6), [=] { calls(q ? 4 : 6, 1, core); });
  mc::add("pairs", mc::fmt("all sequences of %d calls on two utterances of one recognizer", q ? 3 : 5), [=] { pairs(q ? 3 : 5); });
  mc::add("spelling", "words of 1 to 70000 bytes in 13 x 13 lengths, letters, UTF-8 and punctuation, utterances of up to many words", [=] { spelling(q ? 40 : 150); });
  mc::add("messages", "failing calls with names of 63 lengths up to 9000 in 3 places", [=] { messages(); });
  return mc::main(argc, argv);
}
