// C22: sliding-window mean normalization against its definition, on every
// impulse position and around every boundary of the windows.
#include "kit.h"
#include "mc.h"
#include "cmvn.h"
#include "fbank.h"
#include "matrix.h"
#include "vector.h"
using namespace pocketkaldi;
static const int kDim = 40, kWin = 600, kGlob = 200;

// exact: the features are chosen so that sums are exact in single precision;
// otherwise what rounding may do to a sum of the window's values is allowed
static void run(const std::vector<float> &feat, int T, const std::vector<float> &glob, int lo, int hi, const char *what, bool exact = true) {
  Matrix<float> m; if (T) m.Resize(T, kDim);
  for (int i = 0; i < T; ++i) for (int j = 0; j < kDim; ++j) m(i, j) = feat[i * kDim + j];
  Vector<float> g(kDim + 1); for (int j = 0; j <= kDim; ++j) g(j) = glob[j];
  CMVN c(g, m);
  // the object keeps its own copies
  g.Set(NAN); for (int i = 0; i < T; ++i) for (int j = 0; j < kDim; ++j) m(i, j) = NAN;
  std::vector<double> pre((T + 1) * kDim, 0.0);
  for (int i = 0; i < T; ++i) for (int j = 0; j < kDim; ++j) pre[(i + 1) * kDim + j] = pre[i * kDim + j] + feat[i * kDim + j];
  std::vector<double> top(kDim, 1e-30);     // the largest value so far
  Vector<float> out(kDim);
  for (int t = 0; t < T; ++t) {
    out.Set(NAN);
    c.GetFrame(t, &out);
    for (int j = 0; j < kDim; ++j) top[j] = std::max(top[j], fabs((double)feat[t * kDim + j]));
    if (t < lo || t >= hi) continue;
    int from = std::max(0, t + 1 - kWin), n = t + 1 - from;
    double w = std::min(kGlob, kWin - n);
    for (int j = 0; j < kDim; ++j) {
      double sum = pre[(t + 1) * kDim + j] - pre[from * kDim + j];
      double gm = glob[j] / glob[kDim], mean = (sum + w * gm) / (n + w), want = feat[t * kDim + j] - mean;
      double mag = (fabs(sum) + fabs(w * gm)) / (n + w) + fabs(feat[t * kDim + j]) + 1e-30;
      if (!exact) { double a = 0; for (int k = from; k <= t; ++k) a = std::max(a, fabs((double)feat[k * kDim + j])); mag = 10 * (a + fabs(gm)) + 5e-8 * top[j]; }
      MC_CHECK(fabs(out(j) - want) <= 2e-6 * mag, "%s: frame %d value %d is %.9g, expected %.9g", what, t, j, out(j), want);
    }
    mc::step();
  }
  mc::outcome(mc::fmt("%d %.6g", T, T ? (double)out(0) : 0.0)); mc::state(mc::fnv(feat.data(), feat.size() * 4)); mc::validated();
}
static std::vector<float> glob(int k) {
  static const float N[] = { 1, 200, 123456, 3 };
  std::vector<float> g(kDim + 1); float n = N[k % 4]; g[kDim] = n;
  for (int j = 0; j < kDim; ++j) g[j] = k < 4 ? n * (j % 8 - 3) : 0;
  return g;
}
// an impulse at every frame (40 at a time: one per dimension)
static void impulses(int T) {
  int b = mc::choose((T + kDim - 1) / kDim); float amp = mc::pick(std::vector<float>{ 1, -4096 });
  std::vector<float> f(T * kDim, 0.f);
  for (int j = 0; j < kDim; ++j) { int t = b * kDim + j; if (t < T) f[t * kDim + j] = amp; }
  mc::note("impulses at frames %d..", b * kDim);
  run(f, T, glob(mc::choose(5)), 0, T, "impulse");
}
// every length
static void lengths(int maxT, bool all) {
  int T; if (all) T = mc::choose(maxT); else { static const int S[] = { 0, 1, 2, 3, 10, 199, 200, 201, 399, 400, 401, 402, 598, 599, 600, 601, 602, 799, 800, 801, 999, 1000, 1199, 1200, 1201, 1202, 1801, 2401 }; T = S[mc::choose(28)]; }
  int p = mc::choose(7); std::vector<float> f(T * kDim);
  for (int t = 0; t < T; ++t) for (int j = 0; j < kDim; ++j) {
    float &x = f[t * kDim + j];
    switch (p) {
      case 0: x = 0; break; case 1: x = 7 - j; break; case 2: x = t & 1 ? 5 : -5; break; case 3: x = (t * 31 + j * 7) % 23 - 11; break;
      case 4: x = t < 600 ? 100 : -100; break; case 5: x = ((t * 31 + j * 7) % 23 - 11) * 1024.f; break; case 6: x = t % 600 == j ? 64 : t % 601 == j ? -64 : 0; break;
    }
  }
  mc::note("%d frames pattern %d", T, p);
  run(f, T, glob(mc::choose(5)), 0, T, "pattern");
}
// Values of any size: what has left the window has no influence any more.
static void ranges(int T) {
  int e = mc::choose(9), at = mc::pick(std::vector<int>{ 0, 1, 300, 599, 600, 700 }), len = mc::pick(std::vector<int>{ 1, 50, 600 });
  float amp = ldexpf(mc::flip() ? 1 : -1.3f, e * 5); std::vector<float> f(T * kDim);
  for (int t = 0; t < T; ++t) for (int j = 0; j < kDim; ++j) f[t * kDim + j] = (t >= at + j && t < at + j + len ? amp * (1 + 0.37f * (t % 5)) : 0.0f) + 0.1f * ((t * 31 + j * 7) % 23) + 0.013f * j;
  mc::note("%d frames near %g from frame %d", len, amp, at);
  run(f, T, glob(mc::choose(2)), 0, T, "wide range", false);
}
// Long recordings of ordinary features.
static void drift(int T) {
  int p = mc::choose(4); std::vector<float> f(T * kDim);
  for (int t = 0; t < T; ++t) for (int j = 0; j < kDim; ++j) { uint32_t h = (t * 40u + j) * 2654435761u; h ^= h >> 15; float u = (h & 0xffff) / 65536.0f;
    f[t * kDim + j] = p == 0 ? -15.9f + 40 * u : p == 1 ? (t / 900 % 2 ? 12.3f : -15.942385f) + u : p == 2 ? 14.1f + 0.3f * (j % 7) : 1e-3f * u + (t % 600 < 300 ? 20 : 0); }
  mc::note("%d frames pattern %d", T, p);
  run(f, T, glob(0), 0, T, "long", false);
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("impulses", "an impulse at every one of 1300 (2600) frames x 2 amplitudes x 5 global statistics, every frame checked", [=] { impulses(q ? 1300 : 2600); });
  mc::add("lengths", q ? "28 lengths around the window sizes x 7 patterns x 5 statistics" : "every length up to 1300 x 7 patterns x 5 statistics", [=] { lengths(1300, !q); });
  mc::add("ranges", "values up to 2^40 for 1 to 600 frames at 6 places among ordinary ones", [=] { ranges(q ? 2200 : 6000); });
  mc::add("drift", mc::fmt("4 patterns of ordinary features, %d frames", q ? 20000 : 200000), [=] { drift(q ? 20000 : 200000); });
  return mc::main(argc, argv);
}
