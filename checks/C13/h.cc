// C13: streaming filterbank features against a reference of a single window,
// for every way of cutting the signal, and interleaved streams.
#include "kit.h"
#include "mc.h"
#include <float.h>
#include <memory>
#include "fbank.h"
#include "matrix.h"
#include "vector.h"
using namespace pocketkaldi;
static const int kLen = 400, kShift = 160, kFft = 512, kDim = 40;
typedef std::vector<double> D;

static int frames(int n) { return n < kLen ? 0 : 1 + (n - kLen) / kShift; }
struct Tables {
  D cs, sn, ham; double w[kDim][kFft / 2];
  Tables() {
    for (int i = 0; i < kFft; ++i) { cs.push_back(cos(2 * M_PI * i / kFft)); sn.push_back(sin(2 * M_PI * i / kFft)); }
    for (int i = 0; i < kLen; ++i) ham.push_back(0.54 - 0.46 * cos(2 * M_PI * i / (kLen - 1)));
    auto mel = [](double f) { return 1127.0 * log(1.0 + f / 700.0); };
    double lo = mel(20), hi = mel(8000), d = (hi - lo) / (kDim + 1);
    for (int b = 0; b < kDim; ++b) for (int i = 0; i < kFft / 2; ++i) {
      double m = mel(16000.0 / kFft * i), l = lo + b * d, c = l + d, r = c + d;
      w[b][i] = m <= l || m >= r ? 0 : m <= c ? (m - l) / d : (r - m) / d;
    }
  }
};
static const Tables &tab() { static Tables t; return t; }
// log mel energies of one window, and what rounding may do to each
static void ref(const float *x, double *out, double *err) {
  const Tables &t = tab();
  double s = 0, raw = 0; for (int i = 0; i < kLen; ++i) { s += x[i]; raw += (double)x[i] * x[i]; }
  double mean = s / kLen; D v(kLen);
  for (int i = 0; i < kLen; ++i) v[i] = x[i] - mean;
  for (int i = kLen - 1; i > 0; --i) v[i] -= 0.97 * v[i - 1];
  v[0] -= 0.97 * v[0];
  for (int i = 0; i < kLen; ++i) v[i] *= t.ham[i];
  double amp = sqrt(raw * kLen) * 3e-7;                 // amplitude error of a spectrum line
  D p(kFft / 2);
  for (int k = 0; k < kFft / 2; ++k) { double re = 0, im = 0; for (int i = 0; i < kLen; ++i) { int a = k * i % kFft; re += v[i] * t.cs[a]; im -= v[i] * t.sn[a]; } p[k] = re * re + im * im; }
  for (int b = 0; b < kDim; ++b) {
    double e = 0, de = 0;
    for (int k = 0; k < kFft / 2; ++k) { e += t.w[b][k] * p[k]; if (t.w[b][k] > 0) de += t.w[b][k] * (2 * sqrt(p[k]) * amp + amp * amp) + 2e-5 * p[k] ; }
    out[b] = log(std::max(e, (double)FLT_EPSILON));
    double hi = log(std::max(e + de, (double)FLT_EPSILON)), lo = log(std::max(e - de, (double)FLT_EPSILON));
    err[b] = std::max(hi - out[b], out[b] - lo) + 1e-4;
  }
}
static const Fbank &fbank() { static Fbank f; return f; }
static float sig(int kind, int i) {
  switch (kind) {
    case 0: return (int)((i * 7919LL + i * (int64_t)i * 31) % 4001) - 2000;
    case 1: return (int)((i * 104729LL) % 60013) - 30000;
    case 2: return 0;
    case 3: return 12345;
    case 4: return i & 1 ? 32767 : -32768;
    case 5: return i % 400 == 7 ? 30000 : 0;
    case 6: return (float)(2.0e9 * sin(i * 0.05));
    default: return roundf(1000 * sin(i * 0.2) + 500 * sin(i * 1.7));
  }
}
struct Stream {
  std::vector<float> x; int fed, rows; Fbank::Instance inst; bool deep;
  std::vector<float> got;
  Stream(): fed(0), rows(0), deep(true) {}
  void feed(int n) {
    std::unique_ptr<float[]> exact(new float[n ? n : 1]); for (int i = 0; i < n; ++i) exact[i] = x[fed + i];
    SubVector<float> v(exact.get(), n);
    Matrix<float> m(3, 2); m(1, 1) = NAN;
    fbank().Process(&inst, v, &m);
    fed += n;
    int want = frames(fed) - rows;
    MC_CHECK(m.NumRows() == want && (want == 0 || m.NumCols() == kDim), "after %d samples (+%d): %d x %d features, expected %d new frames", fed, n, m.NumRows(), m.NumCols(), want);
    for (int r = 0; r < want; ++r) for (int j = 0; j < kDim; ++j) got.push_back(m(r, j));
    rows += want; mc::step(want);
  }
  // every frame against the reference, and bit for bit against `whole`
  void finish(const std::vector<float> *whole) {
    MC_CHECK((int)got.size() == rows * kDim, "sizes");
    if (whole) {
      MC_CHECK(whole->size() == got.size(), "%zu values, expected %zu", got.size(), whole->size());
      for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] == (*whole)[i], "frame %zu value %zu is %.9g streamed, %.9g when the samples come at once", i / kDim, i % kDim, got[i], (*whole)[i]);
      return;
    }
    for (int r = 0; r < rows; ++r) {
      double w[kDim], e[kDim]; ref(&x[r * kShift], w, e);
      for (int j = 0; j < kDim; ++j) MC_CHECK(fabs(got[r * kDim + j] - w[j]) <= e[j], "frame %d value %d is %.7g, expected %.7g (+-%.2g)", r, j, got[r * kDim + j], w[j], e[j]);
    }
  }
};
static const std::vector<float> &whole(int kind, int n) {
  static std::map<std::pair<int, int>, std::vector<float>> cache;
  std::vector<float> &v = cache[std::make_pair(kind, n)];
  if (v.empty() && frames(n) > 0) { Stream s; for (int i = 0; i < n; ++i) s.x.push_back(sig(kind, i)); s.feed(n); s.finish(NULL); v = s.got; }
  return v;
}
static void done(const Stream &s, uint64_t salt) { mc::outcome(mc::mix(mc::fnv(s.got.data(), s.got.size() * 4), s.rows)); mc::state(mc::mix(salt, s.rows)); mc::validated(); }

// the values: one or two windows of every test signal
static void signals() {
  int k = mc::choose(3), p;
  Stream s;
  if (k == 0) { p = mc::choose(8); for (int i = 0; i < 720; ++i) s.x.push_back(sig(p, i)); }
  else if (k == 1) { p = mc::choose(720); for (int i = 0; i < 720; ++i) s.x.push_back(i == p ? 20000 : 0); }
  else { p = mc::choose(257); double a = mc::flip() ? 30000 : 3; for (int i = 0; i < 720; ++i) s.x.push_back(roundf(a * cos(2 * M_PI * p * i / 512 + 0.3))); }
  mc::note("signal %d/%d", k, p);
  s.feed(720); s.finish(NULL); done(s, k * 1000 + p);
}
// every length
static void lengths(int maxn) {
  int n = mc::choose(maxn + 1);
  Stream s; for (int i = 0; i < n; ++i) s.x.push_back(sig(0, i));
  s.feed(n); s.finish(&whole(0, n)); done(s, n);
}
// every single cut, then every fixed chunk size
static void cuts(int n) {
  int c = 1 + mc::choose(n); bool rep = mc::flip(); int kind = mc::pick(std::vector<int>{ 0, 1 });
  Stream s; for (int i = 0; i < n; ++i) s.x.push_back(sig(kind, i));
  if (rep) while (s.fed < n) s.feed(std::min(c, n - s.fed)); else { s.feed(c); s.feed(n - c); }
  mc::note("%s %d", rep ? "chunks of" : "cut at", c);
  s.finish(&whole(kind, n)); done(s, c * 2 + rep);
}
// all sequences of chunk sizes
static void chunks(int depth) {
  static const int S[] = { 0, 1, 79, 159, 160, 161, 240, 399, 400, 401, 560, 1000 };
  Stream s; std::vector<int> c; int n = 0;
  for (int i = 0; i < depth; ++i) { c.push_back(S[mc::choose(12)]); n += c.back(); mc::note("%d", c.back()); }
  for (int i = 0; i < n; ++i) s.x.push_back(sig(0, i));
  for (int k : c) s.feed(k);
  std::vector<float> w = whole(0, 7000); w.resize(frames(n) * kDim);
  s.finish(&w); done(s, n);
}
// two streams through one extractor, all interleavings
static void interleaved(int steps) {
  Stream a, b; for (int i = 0; i < 3000; ++i) { a.x.push_back(sig(0, i)); b.x.push_back(sig(7, i)); }
  static const int S[] = { 159, 401, 250 };
  for (int i = 0; i < steps; ++i) { int c = mc::choose(6); mc::note("%c%d", c < 3 ? 'a' : 'b', S[c % 3]); (c < 3 ? a : b).feed(S[c % 3]); }
  std::vector<float> w = whole(0, 3000); w.resize(a.rows * kDim); a.finish(&w);
  w = whole(7, 3000); w.resize(b.rows * kDim); b.finish(&w);
  done(a, a.fed * 10007 + b.fed);
}
// half a minute of signal in pieces from 10 ms to all of it, steady or mixed
static void longer(int n) {
  static const int S[] = { 160, 400, 1000, 1024, 1600, 3200, 4096, 8000, 8192, 16000, 16384, 32000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 160000, 262144, 300001, 1 << 24 };
  int c = S[mc::choose(24)], pat = mc::choose(4);
  Stream s; for (int i = 0; i < n; ++i) s.x.push_back(sig(0, i));
  mc::note("pieces of %d, pattern %d", c, pat);
  for (int t = 0; s.fed < n; ++t) { int k = pat == 1 && t % 2 ? 1 : pat == 2 && t % 2 == 0 ? 7 : pat == 3 ? c - t % 3 : c; s.feed(std::min(k, n - s.fed)); }
  s.finish(&whole(0, n)); done(s, c * 8 + pat);
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("signals", "8 signals, an impulse at every position, a tone at every FFT bin x 2 amplitudes, against the reference", [=] { signals(); });
  mc::add("lengths", "every length up to the bound", [=] { lengths(q ? 1300 : 4000); });
  mc::add("cuts", "every single cut and every chunk size of 1300 (2500) samples, 2 signals", [=] { cuts(q ? 1300 : 2500); });
  mc::add("chunks", mc::fmt("all sequences of %d chunks of 12 sizes", q ? 3 : 5), [=] { chunks(q ? 3 : 5); });
  mc::add("interleaved", mc::fmt("all sequences of %d steps of two streams x 3 sizes", q ? 5 : 7), [=] { interleaved(q ? 5 : 7); });
  mc::add("long", mc::fmt("%d s in pieces of 24 sizes, 4 patterns", q ? 30 : 120), [=] { longer(q ? 480000 : 1920000); });
  return mc::main(argc, argv);
}
