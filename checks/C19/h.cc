// C19: the real quantizer and quantized multiplication over all small matrices
// of an alphabet and all shapes, against exact integer arithmetic.
#include "kit.h"
#include "mc.h"
#include <float.h>
#include "matrix.h"
#include "gemmlowp/eight_bit_int_gemm/eight_bit_int_gemm.h"
using namespace pocketkaldi;

static const float A[] = { 0, 1, -1, 0.1f, -0.37f, 3.5f, 255, -128, 1e-30f, -1e30f, 1e-44f, 3.4e38f, -3.4e38f, 1e-38f, 1.00001f, -2.5e-10f };
// alphabet of 16 values, ordered so that prefixes are meaningful
static void check_quant(const Matrix<float> &m, Matrix<uint8_t> *q, QuantizationParams *p) {
  double lo = m(0, 0), hi = lo;
  for (int i = 0; i < m.NumRows(); ++i) for (int j = 0; j < m.NumCols(); ++j) { lo = std::min<double>(lo, m(i, j)); hi = std::max<double>(hi, m(i, j)); }
  Quantize(m, q, p);
  MC_CHECK(q->NumRows() == m.NumRows() && q->NumCols() == m.NumCols(), "quantized matrix is %d x %d, expected %d x %d", q->NumRows(), q->NumCols(), m.NumRows(), m.NumCols());
  MC_CHECK(std::isfinite(p->scale) && p->scale > 0, "scale is %g for values in %g..%g", p->scale, lo, hi);
  // one step can never be larger than the range (with zero) over 255, up to rounding and the smallest normal number
  double range = std::max(hi, 0.0) - std::min(lo, 0.0);
  MC_CHECK(p->scale <= range / 255 * (1 + 1e-5) + 2 * (double)FLT_MIN, "scale is %g for values in %g..%g", p->scale, lo, hi);
  if (lo <= 0 && hi >= 0) MC_CHECK(p->zero_point >= 0 && p->zero_point <= 255, "zero point %d is not a byte", p->zero_point);
  for (int i = 0; i < m.NumRows(); ++i) for (int j = 0; j < m.NumCols(); ++j) {
    double v = ((int)(*q)(i, j) - p->zero_point) * (double)p->scale;
    MC_CHECK(fabs(v - m(i, j)) <= p->scale * (1 + 1e-4) + fabs(m(i, j)) * 1e-5, "element %g becomes %g, step %g (values in %g..%g)", m(i, j), v, p->scale, lo, hi);
    if (m(i, j) == 0) MC_CHECK(v == 0, "zero becomes %g, step %g, byte %d, zero point %d", v, p->scale, (int)(*q)(i, j), p->zero_point);
  }
  mc::step(m.NumRows() * m.NumCols());
}
static void quant_small(int n, int alpha) {
  // shapes with n elements
  std::vector<int> rs; for (int r = 1; r <= n; ++r) if (n % r == 0) rs.push_back(r);
  int r = mc::pick(rs); Matrix<float> m(r, n / r);
  std::string t;
  for (int i = 0; i < n; ++i) { float v = A[mc::choose(alpha)]; m(i / (n / r), i % (n / r)) = v; if (mc::tracing()) t += mc::fmt("%g ", v); }
  mc::note("%dx%d: %s", r, n / r, t.c_str());
  Matrix<uint8_t> q; QuantizationParams p;
  if (r == 1 && n > 1) q.Resize(2, 5);       // a used destination
  check_quant(m, &q, &p);
  mc::state(mc::fnv(m.Data(), n * 4, r)); mc::outcome(mc::fmt("%g %d %d", p.scale, p.zero_point, (int)q(0, 0))); mc::validated();
}
// a fine ramp between two values: every quantization step and half step
static void ramps() {
  float a = A[mc::choose(16)], b = A[mc::choose(16)]; int n = 511;
  Matrix<float> m(7, 73);
  for (int i = 0; i < n; ++i) m(i / 73, i % 73) = (float)((double)a + ((double)b - a) * i / (n - 1));
  Matrix<uint8_t> q; QuantizationParams p; mc::note("ramp %g..%g", a, b);
  check_quant(m, &q, &p); mc::state(mc::fnv(m.Data(), n * 4)); mc::outcome(mc::fmt("%g %d", p.scale, p.zero_point)); mc::validated();
}
static void multiply(int m, int k, int n, const std::function<int(int, int)> &fa, const std::function<int(int, int)> &fb, int za, int zb, float sa, float sb) {
  Matrix<uint8_t> a(m, k), b(k, n); Matrix<float> c(m, n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) a(i, j) = fa(i, j);
  for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) b(i, j) = fb(i, j);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) c(i, j) = NAN;
  QuantizationParams pa, pb; pa.scale = sa; pa.zero_point = za; pb.scale = sb; pb.zero_point = zb;
  MatMat_U8U8F32(a, pa, b, pb, &c);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    int64_t s = 0; for (int l = 0; l < k; ++l) s += (int64_t)(fa(i, l) - za) * (fb(l, j) - zb);
    double want = (double)s * ((double)sa * sb);
    MC_CHECK(fabs(c(i, j) - want) <= fabs(want) * 4e-7, "%dx%d * %dx%d, zero points %d %d: element (%d,%d) is %.9g, expected %.9g", m, k, k, n, za, zb, i, j, c(i, j), want);
  }
  for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) MC_CHECK(a(i, j) == fa(i, j), "an operand was changed");
  mc::step(m * n); mc::validated(); mc::outcome(mc::fmt("%g %g", c(0, 0), c(m - 1, n - 1)));
}
static int pattern(int p, int i, int j) { return p == 0 ? (i * 37 + j * 101 + i * j) & 255 : p == 1 ? 255 : p == 2 ? 0 : ((i + j) & 1) * 255; }
static const int Z[] = { 0, 1, 127, 128, 254, 255 };
static void shapes(int mx) {
  int m = 1 + mc::choose(mx), k = 1 + mc::choose(mx), n = 1 + mc::choose(mx), pa = mc::choose(4), pb = mc::choose(4), za = Z[mc::choose(6)], zb = Z[mc::choose(6)];
  if (m * k < 2 || k * n < 2) return;
  mc::note("%dx%d * %dx%d patterns %d %d zero points %d %d", m, k, k, n, pa, pb, za, zb);
  mc::state(mc::fnv(mc::fmt("%d %d %d %d %d %d %d", m, k, n, pa, pb, za, zb)));
  multiply(m, k, n, [=](int i, int j) { return pattern(pa, i, j); }, [=](int i, int j) { return pattern(pb, j, i); }, za, zb, 0.5f, 0.25f);
}
static void shapes_wide(const std::vector<int> &d) {
  int m = mc::pick(d), k = mc::pick(d), n = mc::pick(d), p = mc::choose(2);
  if (m * k < 2 || k * n < 2) return;
  mc::note("%dx%d * %dx%d", m, k, k, n);
  mc::state(mc::fnv(mc::fmt("w %d %d %d %d", m, k, n, p)));
  multiply(m, k, n, [=](int i, int j) { return pattern(p, i, j); }, [=](int i, int j) { return pattern(p, j, i); }, 3, 250, 1e-3f, 7.5f);
}
// every pair of bytes and zero points: each byte pair meets in a product of depth 1
static void bytes() {
  int za = mc::choose(256), zb = mc::pick(std::vector<int>{ 0, 1, 100, 128, 255 });
  mc::note("zero points %d %d", za, zb); mc::state(mc::fnv(mc::fmt("b %d %d", za, zb)));
  multiply(256, 1, 256, [](int i, int) { return i; }, [](int, int j) { return j; }, za, zb, 1.0f, 1.0f);
}
// whole path: float matrices, quantized, multiplied; the error of the result is
// bounded by the quantization steps
static void whole() {
  static const int S[][3] = { { 1, 2, 1 }, { 2, 1, 2 }, { 2, 2, 2 }, { 3, 5, 2 }, { 17, 9, 4 }, { 5, 33, 18 } };
  const int *s = S[mc::choose(6)]; int ka = mc::choose(7), kb = mc::choose(7); int m = s[0], k = s[1], n = s[2];
  auto val = [](int kind, int i, int j) -> float {
    double v = sin(i * 1.7 + j * 0.9 + 0.3);
    switch (kind) { case 0: return v; case 1: return v + 2; case 2: return v - 2; case 3: return 0; case 4: return 4.25f; case 5: return -1e-3f; default: return (i + j) % 2 ? 0 : 100 * v; }
  };
  Matrix<float> a(m, k), b(k, n), c(m, n); Matrix<uint8_t> qa, qb; QuantizationParams pa, pb;
  for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) a(i, j) = val(ka, i, j);
  for (int i = 0; i < k; ++i) for (int j = 0; j < n; ++j) b(i, j) = val(kb, i, j);
  check_quant(a, &qa, &pa); check_quant(b, &qb, &pb);
  MatMat_U8U8F32(qa, pa, qb, pb, &c);
  mc::note("%dx%d * %dx%d kinds %d %d", m, k, k, n, ka, kb);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    int64_t t = 0; double want = 0, err = 0;
    for (int l = 0; l < k; ++l) {
      t += (int64_t)((int)qa(i, l) - pa.zero_point) * ((int)qb(l, j) - pb.zero_point);
      want += (double)a(i, l) * b(l, j); err += fabs(a(i, l)) * pb.scale + fabs(b(l, j)) * pa.scale + (double)pa.scale * pb.scale;
    }
    double ex = (double)t * pa.scale * pb.scale;
    MC_CHECK(fabs(c(i, j) - ex) <= fabs(ex) * 4e-7 + 1e-40, "element (%d,%d) is %.9g, the integer product is %.9g", i, j, c(i, j), ex);
    MC_CHECK(fabs(c(i, j) - want) <= err * 1.01 + 1e-30, "element (%d,%d) is %.9g, expected %.9g within %g", i, j, c(i, j), want, err);
  }
  mc::state(mc::fnv(mc::fmt("e %d %d %d %d", m, k, ka, kb))); mc::validated();
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  for (int n = 1; n <= (q ? 4 : 5); ++n)
    mc::add(mc::fmt("quantize-%d", n), mc::fmt("all matrices of %d elements over %d values from 1e-44 to 3.4e38, all shapes", n, n < 5 ? 16 : 12), [=] { quant_small(n, n < 5 ? 16 : 12); });
  mc::add("ramps", "511 steps between every pair of 16 values", [=] { ramps(); });
  mc::add("shapes", mc::fmt("all shapes up to %d^3 x 16 patterns x 36 zero points", q ? 5 : 7), [=] { shapes(q ? 5 : 7); });
  std::vector<int> d = q ? std::vector<int>{ 1, 2, 3, 4, 7, 8, 12, 15, 16, 17, 31, 33, 64, 70, 129 } : std::vector<int>{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 300 };
  mc::add("shapes-wide", mc::fmt("%d^3 shapes around the block sizes x 2 patterns", (int)d.size()), [=] { shapes_wide(d); });
  mc::add("deep", "inner dimensions up to 3000", [=] { std::vector<int> ks = { 255, 256, 257, 511, 1000, 1024, 2047, 2048, 2049, 3000 }; int k = mc::pick(ks), p = mc::choose(4), z = mc::choose(2); multiply(3 + z * 30, k, 5, [=](int i, int j) { return pattern(p, i, j); }, [=](int i, int j) { return pattern(p, j, i); }, z * 255, z * 255, 1, 1); });
  mc::add("bytes", "every pair of bytes x 256 x 5 zero points", [=] { bytes(); });
  mc::add("whole", "6 shapes x 7 x 7 kinds of float matrices, quantized and multiplied", [=] { whole(); });
  mc::add("threads", "6 shapes x thread limits 2, 3 and 8", [=] {
    static const int S[][3] = { { 256, 64, 64 }, { 300, 33, 70 }, { 64, 256, 256 }, { 40, 200, 40 }, { 17, 300, 33 }, { 129, 129, 129 } };
    const int *s = S[mc::choose(6)]; int t = mc::pick(std::vector<int>{ 2, 3, 8 });
    gemmlowp::eight_bit_int_gemm::SetMaxNumThreads(t);
    multiply(s[0], s[1], s[2], [=](int i, int j) { return pattern(0, i, j); }, [=](int i, int j) { return pattern(0, j, i); }, 7, 200, 1, 1);
    gemmlowp::eight_bit_int_gemm::SetMaxNumThreads(1);
    gemmlowp::eight_bit_int_gemm::FreePersistentResources();
  });
  return mc::main(argc, argv);
}
