// C01: the real recognizer fed with every chunking of an utterance.
#include "api.h"
using namespace api;

static model::Opt option(int k) {
  model::Opt o; static const int T[][4] = { { 1, 2, 5, 0 }, { 0, 0, 1, 1 }, { 3, 1, 8, 0 }, { 2, 4, 20, 1 }, { 0, 3, 3, 0 }, { 1, 2, 5, 1 } };
  o.left = T[k][0]; o.right = T[k][1]; o.chunk = T[k][2]; o.lm = T[k][3]; return o;
}
static std::string sound(int k) {
  using model::rep;
  switch (k) {
    case 0: return "..llllll....hhhhhhh...llllllll..";
    case 1: return rep('.', 10) + rep('l', 15) + rep('.', 12) + rep('h', 14) + rep('.', 5) + rep('l', 13) + rep('.', 25);
    case 2: return rep('h', 24) + rep('n', 5) + rep('l', 22);
    case 3: return "hhhhhhhhhhhhhhhhhhhhhhhhh";
    case 4: return ".l";
    default: {                             // 20 s of words, pauses of all lengths and noise
      std::string t; kit::Lcg g(7);
      while (t.size() < 2000) { t += rep('.', 1 + g.next() % 17); t += rep("lhlhn"[g.next() % 5], 7 + g.next() % 12); if (t.size() % 700 < 20) t += rep('.', 80); }
      return t;
    }
  }
}
// the reference: everything known about one stream, from one call per byte
struct Stream {
  kit::Bytes b; int bits; ce_stt_t *r;
  std::map<size_t, std::string> partial;   // from this many bytes on
  const std::string &text(size_t n) { return (--partial.upper_bound(n))->second; }
  std::map<size_t, Result> fin;
  Result final(size_t n) { auto it = fin.find(n); if (it != fin.end()) return it->second; return fin[n] = whole(r, b.substr(0, n), bits); }
};
static Stream &stream(int opt, int snd, int bits, int extra) {
  static std::map<std::string, std::unique_ptr<Stream>> cache;
  std::unique_ptr<Stream> &s = cache[mc::fmt("%d %d %d %d", opt, snd, bits, extra)];
  if (!s) {
    s.reset(new Stream); s->bits = bits; s->r = recognizer(option(opt)); s->b = model::raw(model::pcm(sound(snd), extra), bits);
    ce_utt_t *u = start(s->r, bits); s->partial[0] = hyp(u); int per = bits / 8; std::string last = s->partial[0];
    for (size_t i = 0; i < s->b.size(); ++i) {
      int k = feed(u, s->b, i, 1);
      MC_CHECK(k == ((int)(i + 1) % per == 0 ? 1 : 0), "byte %d returns %d samples", (int)i, k);
      if (strcmp(u->hyp, last.c_str())) s->partial[i + 1] = last = hyp(u);
    }
    ce_stt_end_of_stream(u); s->fin[s->b.size()] = result(u); ce_utt_destroy(u);
  }
  return *s;
}
struct Feeder {
  Stream &s; ce_utt_t *u; size_t at; long samples;
  explicit Feeder(Stream &s_): s(s_), u(start(s_.r, s_.bits)), at(0), samples(0) {}
  bool more() const { return at < s.b.size(); }
  void take(size_t n) {
    n = std::min(n, s.b.size() - at); if (!n) return;
    int k = feed(u, s.b, at, n); MC_CHECK(k >= 0, "a chunk of %d bytes at %d fails: %s", (int)n, (int)at, ce_stt_last_error());
    at += n; samples += k; int per = s.bits / 8;
    MC_CHECK(samples == (long)(at / per), "%ld samples are reported for %d bytes of %d", samples, (int)at, per);
    std::string h = hyp(u);
    MC_CHECK(h == s.text(at), "after %d bytes (last chunk of %d) the text is '%s', but '%s' when supplied byte by byte", (int)at, (int)n, h.c_str(), s.text(at).c_str());
    mc::step();
  }
  void end() {
    ce_stt_end_of_stream(u); Result x = result(u), w = s.final(at); ce_utt_destroy(u); u = NULL;
    MC_CHECK(x == w, "after %d bytes the result is '%s' %.9g, but '%s' %.9g in another chunking", (int)at, x.hyp.c_str(), x.ll, w.hyp.c_str(), w.ll);
    mc::outcome(x.hyp); mc::validated();
  }
};
// every number of bytes in one call
static void prefixes(const std::vector<int> &widths) {
  int bits = mc::pick(widths), opt = mc::choose(2) * 3;   // utterances with a large model cost 20 ms each: fewer of them
  Stream &s = stream(opt, 0, bits, 0);
  int blk = mc::choose(64), per = s.b.size() / 64 + 1;
  for (int i = blk * per; i < (blk + 1) * per && i <= (int)s.b.size(); ++i) {
    if (opt == 3 && mc::quick() && i % 31) continue;
    Feeder f(s); f.take(i); mc::note("%d bytes at once", i);
    // the stream ends here: the single-call result is the reference
    f.end(); mc::state(mc::fnv(mc::fmt("p %d %d %d", bits, opt, i)));
  }
}
// every position of a single cut
static void cuts(const std::vector<int> &widths, int step) {
  int bits = mc::pick(widths), snd = mc::choose(3); Stream &s = stream(snd == 1 ? 4 : 0, snd, bits, 57);
  int blk = mc::choose(64), per = s.b.size() / 64 + 1;
  for (int i = blk * per; i < (blk + 1) * per && i <= (int)s.b.size(); ++i) {
    if (i % step && i % 3200 > 8 && (int)s.b.size() - i > 8) continue;
    Feeder f(s); f.take(i); f.take(s.b.size()); mc::note("cut at %d", i); f.end();
    mc::state(mc::fnv(mc::fmt("c %d %d %d", bits, snd, i)));
  }
}
// every constant chunk size
static void constant(int maxsize) {
  int bits = mc::pick(std::vector<int>{ 8, 16, 32 }), opt = mc::choose(6); Stream &s = stream(opt, opt % 4, bits, 3);
  int size = 1 + mc::choose(maxsize); if (size > 700) size = 700 + (size - 700) * 37;
  Feeder f(s); mc::note("chunks of %d", size);
  while (f.more()) f.take(size);
  f.end(); mc::state(mc::fnv(mc::fmt("k %d %d %d", bits, opt, size)));
}
// all sequences of chunk sizes; the rest in one call or in kibibytes
static void sequences(int len) {
  static const int Z[] = { 1, 2, 3, 319, 320, 321, 640, 799, 800, 801, 4801, 6400 };
  int opt = mc::choose(2) * 2; Stream &s = stream(opt, 1, 16, 0);
  Feeder f(s); std::string t;
  for (int i = 0; i < len; ++i) { int n = Z[mc::choose(12)]; f.take(n); t += mc::fmt("%d ", n); }
  mc::note("chunks %s", t.c_str());
  if (mc::flip()) f.take(s.b.size()); else while (f.more()) f.take(1024);
  f.end(); mc::state(mc::fnv(mc::fmt("s %d %s", opt, t.c_str())));
}
// alternating sizes (a, b, a, b ...)
static void alternating(int n) {
  int a = 1 + mc::choose(n) * 97, b = 1 + mc::choose(n) * 131, opt = mc::choose(6); Stream &s = stream(opt, 2, 16, 11);
  Feeder f(s); mc::note("chunks of %d and %d", a, b);
  for (int i = 0; f.more(); ++i) f.take(i & 1 ? b : a);
  f.end(); mc::state(mc::fnv(mc::fmt("a %d %d %d", a, b, opt)));
}
// a long stream in pieces of every scale
static void longer(int widths) {
  static const int Z[] = { 13, 333, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 12800, 16383, 16384, 16385, 31999, 32000, 32768, 64000, 65535, 65536, 65537, 100001, 131072, 262144, 400000, 524289, 3000000 };
  int bits = mc::pick(std::vector<int>{ 16, 8, 32 }) ; if (widths == 1 && bits != 16) return;
  Stream &s = stream(0, 5, bits, 91); Feeder f(s); int a = mc::choose(26), b = mc::choose(4);
  mc::note("pieces of %d", Z[a]);
  for (int i = 0; f.more(); ++i) f.take(b == 1 && i % 2 ? 1 : b == 2 && i % 3 == 0 ? Z[a] / 3 + 1 : b == 3 && i % 2 == 0 ? Z[(a + 9) % 26] : Z[a]);
  f.end(); mc::state(mc::fnv(mc::fmt("l %d %d %d", a, b, bits)));
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  std::vector<int> w = q ? std::vector<int>{ 16 } : std::vector<int>{ 16, 8, 32 };
  mc::add("sequences", mc::fmt("all sequences of %d chunks of 12 sizes x 2 models x 2 rests", q ? 3 : 4), [=] { sequences(q ? 3 : 4); });
  mc::add("alternating", mc::fmt("%d x %d alternating sizes x 6 models", q ? 16 : 40, q ? 16 : 40), [=] { alternating(q ? 16 : 40); });
  mc::add("constant", mc::fmt("%d constant chunk sizes x 3 widths x 6 models", q ? 120 : 800), [=] { constant(q ? 120 : 800); });
  mc::add("cuts", q ? "every 2nd position of a cut and all near block ends, 3 utterances" : "every position of a cut, 3 utterances, 3 widths", [=] { cuts(w, q ? 2 : 1); });
  mc::add("prefixes", q ? "every number of bytes of a stream in one call (every 31st with a large language model)" : "every number of bytes of a stream in one call, 2 models", [=] { prefixes(w); });
  mc::add("long", mc::fmt("a stream of 20 s in pieces of 26 sizes from 13 bytes to all, 4 patterns, %s", q ? "16 bits" : "3 widths"), [=] { longer(q ? 1 : 3); });
  return mc::main(argc, argv);
}
