// C21: the real FFT of every power-of-two size against the DFT's definition on
// every unit input, both directions, any scratch contents.
#include "kit.h"
#include "mc.h"
#include <complex>
#include <memory>
#include "srfft.h"
using namespace pocketkaldi;
typedef std::vector<double> D;

// by definition; packed as [re0, re(N/2), re1, im1, ...]
static D forward(const std::vector<float> &x) {
  int N = x.size(); D y(N, 0.0);
  static std::map<int, D> cs, sn;
  D &c = cs[N], &s = sn[N];
  if (c.empty()) for (int i = 0; i < N; ++i) { c.push_back(cos(2 * M_PI * i / N)); s.push_back(sin(2 * M_PI * i / N)); }
  for (int k = 0; k <= N / 2; ++k) {
    double re = 0, im = 0;
    for (int n = 0; n < N; ++n) if (x[n] != 0) { int i = (int)((int64_t)k * n % N); re += x[n] * c[i]; im -= x[n] * s[i]; }
    if (k == 0) y[0] = re; else if (k == N / 2) y[1] = re; else { y[2 * k] = re; y[2 * k + 1] = im; }
  }
  return y;
}
static D backward(const std::vector<float> &p) {
  int N = p.size(); D x(N, 0.0);
  for (int j = 0; j < N; ++j) if (p[j] != 0) {
    int k = j == 0 ? 0 : j == 1 ? N / 2 : j / 2;
    double w = (j < 2) ? 1 : 2; bool im = j >= 2 && (j & 1);
    for (int n = 0; n < N; ++n) { double a = 2 * M_PI * ((int64_t)k * n % N) / N; x[n] += w * p[j] * (im ? -sin(a) : cos(a)); }
  }
  return x;
}
// the same by a textbook radix-2 recursion in double precision, for sizes where
// the definition takes too long ("agree" compares the two)
typedef std::complex<double> Z;
static void rec(std::vector<Z> *a, double sign) {
  size_t n = a->size(); if (n == 1) return;
  std::vector<Z> e(n / 2), o(n / 2); for (size_t i = 0; i < n / 2; ++i) { e[i] = (*a)[2 * i]; o[i] = (*a)[2 * i + 1]; }
  rec(&e, sign); rec(&o, sign);
  for (size_t i = 0; i < n / 2; ++i) { Z t = std::polar(1.0, sign * 2 * M_PI * i / n) * o[i]; (*a)[i] = e[i] + t; (*a)[i + n / 2] = e[i] - t; }
}
static D fast(const std::vector<float> &x, bool fwd) {
  int N = x.size(); std::vector<Z> a(N); D y(N);
  if (fwd) { for (int i = 0; i < N; ++i) a[i] = x[i]; rec(&a, -1); y[0] = a[0].real(); y[1] = a[N / 2].real(); for (int k = 1; k < N / 2; ++k) { y[2 * k] = a[k].real(); y[2 * k + 1] = a[k].imag(); } }
  else { a[0] = x[0]; a[N / 2] = x[1]; for (int k = 1; k < N / 2; ++k) { a[k] = Z(x[2 * k], x[2 * k + 1]); a[N - k] = std::conj(a[k]); } rec(&a, 1); for (int i = 0; i < N; ++i) y[i] = a[i].real(); }
  return y;
}
static double norm(const std::vector<float> &x) { double s = 0; for (float v : x) s += (double)v * v; return sqrt(s); }
static const SRFFT &fft(int N) {
  static std::map<int, std::unique_ptr<SRFFT>> m;
  if (!m[N]) m[N].reset(new SRFFT(N));
  return *m[N];
}
static std::vector<float> run(const SRFFT &f, const std::vector<float> &x, bool fwd, int scratch, int extra) {
  int N = x.size();
  // exact sizes, so that any access outside is seen
  std::unique_ptr<float[]> d(new float[N]), b(new float[N / 2 + extra]);
  for (int i = 0; i < N; ++i) d[i] = x[i];
  for (int i = 0; i < N / 2 + extra; ++i) b[i] = scratch == 0 ? 0.0f : scratch == 1 ? NAN : 1e30f;
  f.Compute(d.get(), N, fwd, b.get(), N / 2 + extra);
  return std::vector<float>(d.get(), d.get() + N);
}
static double tol(int N) { return 4e-7 * (8 + log2(N)) * (N > 2048 ? N / 2048.0 : 1); }
static int by_definition = 8192;     // larger sizes: the fast reference
static void compare(const std::vector<float> &x, bool fwd, const SRFFT &f, const char *what) {
  int N = x.size();
  D want = N > by_definition ? fast(x, fwd) : fwd ? forward(x) : backward(x);
  double nx = norm(x), scale = nx * (fwd ? sqrt(N) : 2 * sqrt(N)) + 1e-30;
  std::vector<float> y = run(f, x, fwd, 0, 0);
  for (int i = 0; i < N; ++i)
    MC_CHECK(fabs(y[i] - want[i]) <= tol(N) * scale, "size %d %s %s: output %d is %.8g, expected %.8g", N, fwd ? "forward" : "backward", what, i, y[i], want[i]);
  for (int s = 1; s < 3; ++s) { std::vector<float> z = run(f, x, fwd, s, s == 2 ? N : 0); MC_CHECK(memcmp(z.data(), y.data(), N * 4) == 0, "size %d %s: the result depends on the scratch buffer", N, what); }
  if (fwd) {
    std::vector<float> z = run(f, y, false, 1, 0);
    for (int i = 0; i < N; ++i) MC_CHECK(fabs(z[i] - (double)N * x[i]) <= 4 * tol(N) * N * nx + 1e-30, "size %d %s: forward and backward give %g at %d, expected %g", N, what, z[i], i, (double)N * x[i]);
  }
  mc::step(N); mc::state(mc::fnv(x.data(), N * 4, fwd ? 17 : 18)); mc::outcome(mc::fmt("%d %d %.5g %.5g", N, (int)fwd, want[0], want[1])); mc::validated(4);
}
static void units(int minlog, int maxlog) {
  int N = 1 << (minlog + mc::choose(maxlog - minlog + 1));
  bool fwd = mc::flip(); int k = mc::choose(N); float amp = mc::flip() ? -32767.f : 1.f;
  std::vector<float> x(N, 0.f); x[k] = amp;
  mc::note("size %d unit %d %g", N, k, amp);
  // a new object as well as one already used
  if (mc::flip()) { SRFFT f(N); compare(x, fwd, f, mc::fmt("unit %d", k).c_str()); } else compare(x, fwd, fft(N), mc::fmt("unit %d", k).c_str());
}
static void small() {
  static const float A[] = { 0, 1, -1, 0.5f, 32767, -1e-3f };
  int lg = 2 + mc::choose(2), N = 1 << lg; bool fwd = mc::flip();
  std::vector<float> x(N); for (auto &v : x) v = A[mc::choose(lg == 2 ? 6 : mc::quick() ? 3 : 4)];
  compare(x, fwd, fft(N), "vector");
}
static void dense(int minlog, int maxlog) {
  int N = 1 << (minlog + mc::choose(maxlog - minlog + 1)), k = mc::choose(12); bool fwd = mc::flip();
  std::vector<float> x(N);
  for (int i = 0; i < N; ++i) switch (k) {
    case 0: x[i] = 1; break; case 1: x[i] = i & 1 ? -1 : 1; break; case 2: x[i] = i; break; case 3: x[i] = i % 7 - 3; break;
    case 4: x[i] = sin(i * 0.3); break; case 5: x[i] = i < N / 2 ? 1e4 : -1e4; break; case 6: x[i] = (i * 7919 % 8191) - 4095; break;
    case 7: x[i] = i == N / 2 ? 1e6 : 1e-3; break; case 8: x[i] = cos(2 * M_PI * i * 3 / N); break; case 9: x[i] = 1e-20 * (i % 5); break;
    case 10: x[i] = 1e15 * (i % 3 - 1); break; default: x[i] = 0;
  }
  compare(x, fwd, fft(N), mc::fmt("pattern %d", k).c_str());
  if (N <= 4096) { D a = fwd ? forward(x) : backward(x), b = fast(x, fwd); double nx = norm(x); for (int i = 0; i < N; ++i) if (fabs(a[i] - b[i]) > 1e-10 * N * (nx + 1e-300)) mc::fail("the two references differ"); }
}
// any order of sizes and directions with shared and separate objects
static void orders(int len) {
  std::map<int, std::unique_ptr<SRFFT>> m;
  for (int i = 0; i < len; ++i) {
    int N = 1 << (2 + mc::choose(4)); bool fwd = mc::flip();
    if (!m[N]) m[N].reset(new SRFFT(N)); else if (mc::flip()) m[N].reset(new SRFFT(N));
    std::vector<float> x(N); for (int k = 0; k < N; ++k) x[k] = (k * 37 + i * 11) % 17 - 8;
    compare(x, fwd, *m[N], "in sequence");
  }
}
// objects of very different sizes alive together, made in any order
static void mixed(int maxlog) {
  by_definition = 512;
  std::unique_ptr<SRFFT> m[2]; int lg[2] = { 2 + mc::choose(maxlog - 1), 2 + mc::choose(maxlog - 1) }, drop = mc::choose(2);
  for (int i = 0; i < 2; ++i) {
    m[i].reset(new SRFFT(1 << lg[i]));
    for (int k = 0; k <= i; ++k) for (int fwd = 0; fwd < 2; ++fwd) {
      if (!m[k]) continue;
      int N = 1 << lg[k]; std::vector<float> x(N); for (int j = 0; j < N; ++j) x[j] = (j * 37 + i * 11) % 17 - 8;
      compare(x, fwd, *m[k], "next to another size");
    }
    if (drop) m[i].reset();
  }
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("units", mc::fmt("every unit input of every size from 4 to %d, 2 amplitudes, both directions, new and used objects", q ? 1024 : 4096), [=] { units(2, q ? 10 : 12); });
  mc::add("small", "all vectors of 4 over 6 values and of 8 over 3 (4) values", [=] { small(); });
  mc::add("dense", mc::fmt("12 dense inputs of every size from 4 to %d", q ? 4096 : 8192), [=] { dense(2, q ? 12 : 13); });
  mc::add("dense-large", mc::fmt("12 dense inputs of every size from 16384 to %d", q ? 131072 : 1048576), [=] { dense(14, q ? 17 : 20); });
  mc::add("mixed", mc::fmt("two objects of all pairs of sizes from 4 to %d", q ? 8192 : 16384), [=] { mixed(q ? 13 : 14); });
  mc::add("orders", mc::fmt("all sequences of %d transforms over 4 sizes, both directions", q ? 4 : 5), [=] { orders(q ? 4 : 5); });
  return mc::main(argc, argv);
}
