// C18: every sequence of container operations against plain std::vector models.
#include "kit.h"
#include "mc.h"
#include "mem.h"
#include <memory>
#include <type_traits>
#include "matrix.h"
#include "vector.h"
using namespace pocketkaldi;

static int g_fill;
template<typename T> T fresh() { ++g_fill; return (T)(g_fill % 97 + 1); }

// ---------------------------------------------------------------- vectors
template<typename T> struct VWorld {
  std::unique_ptr<Vector<T>> v[2];
  std::vector<T> m[2];
  VWorld() { v[0].reset(new Vector<T>()); v[1].reset(new Vector<T>(3)); m[1].assign(3, T(0)); }
  void check(const char *op) {
    for (int i = 0; i < 2; ++i) {
      MC_CHECK(v[i]->Dim() == (int)m[i].size(), "after %s: vector %d has %d elements, expected %zu", op, i, v[i]->Dim(), m[i].size());
      for (size_t k = 0; k < m[i].size(); ++k)
        MC_CHECK((*v[i])(k) == m[i][k], "after %s: element %zu of vector %d is %g, expected %g", op, k, i, (double)(*v[i])(k), (double)m[i][k]);
      if (!m[i].empty()) MC_CHECK(v[i]->Data() != NULL && ((uintptr_t)v[i]->Data() % sizeof(T)) == 0, "no data");
    }
    if (!m[0].empty() && !m[1].empty()) MC_CHECK(v[0]->Data() + m[0].size() <= v[1]->Data() || v[1]->Data() + m[1].size() <= v[0]->Data(), "after %s: two vectors share memory", op);
  }
  void fill(int i) { for (size_t k = 0; k < m[i].size(); ++k) (*v[i])(k) = m[i][k] = fresh<T>(); }
  bool arith(int a, int op);
  void op(int sizes) {
    static const int N[] = { 0, 1, 2, 5, 9 };
    int a = mc::choose(2), b = 1 - a;
    int k = mc::choose(3 * sizes + 7 + (std::is_floating_point<T>::value ? 8 : 0));
    if (k < 3 * sizes) {
      int n = N[k / 3], kind = k % 3; char w[40]; snprintf(w, 40, "resize %d to %d kind %d", a, n, kind);
      mc::note("%s", w);
      if (kind == 0) { v[a]->Resize(n, Vector<T>::kSetZero); m[a].assign(n, T(0)); }
      else if (kind == 1) { v[a]->Resize(n, Vector<T>::kUndefined); MC_CHECK(v[a]->Dim() == n, "after %s: %d elements", w, v[a]->Dim()); m[a].assign(n, T(0)); fill(a); }
      else { v[a]->Resize(n, Vector<T>::kCopyData); m[a].resize(n, T(0)); }
      check(w); return;
    }
    k -= 3 * sizes;
    if (k < 7) {
      static const char *W[] = { "swap", "move assignment", "move construction", "fill", "copy", "sub-range write", "self swap" };
      mc::note("%s %d", W[k], a);
      switch (k) {
        case 0: v[a]->Swap(v[b].get()); m[a].swap(m[b]); break;
        case 1: *v[a] = std::move(*v[b]); m[a] = m[b]; v[b]->Resize(0); m[b].clear(); break;   // what the source holds is not promised
        case 2: v[a].reset(new Vector<T>(std::move(*v[b]))); m[a] = m[b]; v[b]->Resize(0); m[b].clear(); break;
        case 3: fill(a); break;
        case 4: if (m[a].size() == m[b].size() && !m[a].empty()) { v[a]->CopyFromVec(*v[b]); m[a] = m[b]; } break;
        case 5: {
          int n = m[a].size(); if (n == 0) break;
          for (int o = 0; o < n; ++o) for (int l = 1; o + l <= n; ++l) {
            SubVector<T> s = v[a]->Range(o, l);
            MC_CHECK(s.Dim() == l, "range of %d has %d elements", l, s.Dim());
            for (int j = 0; j < l; ++j) { MC_CHECK(s(j) == m[a][o + j], "element %d of a range differs", j); s(j) = m[a][o + j] = fresh<T>(); }
            const Vector<T> &cv = *v[a]; const SubVector<T> cs = cv.Range(o, l);
            for (int j = 0; j < l; ++j) MC_CHECK(cs(j) == m[a][o + j], "element %d of a const range differs", j);
            if (l >= 2) { SubVector<T> s2 = v[a]->Range(o, l / 2), s3 = v[a]->Range(o + l - l / 2, l / 2); s2.CopyFromVec(s3); for (int j = 0; j < l / 2; ++j) m[a][o + j] = m[a][o + l - l / 2 + j]; }
          }
          break;
        }
        case 6: v[a]->Swap(v[a].get()); break;
      }
      check(W[k]); return;
    }
    arith_op(a, b, k - 7);
  }
  template<typename U = T> typename std::enable_if<!std::is_floating_point<U>::value>::type arith_op(int, int, int) {}
  template<typename U = T> typename std::enable_if<std::is_floating_point<U>::value>::type arith_op(int a, int b, int k) {
    static const char *W[] = { "set", "set zero", "scale", "add", "add vector", "multiply elements", "floor", "dot product" };
    mc::note("%s %d", W[k], a);
    bool same = m[a].size() == m[b].size() && !m[a].empty();
    switch (k) {
      case 0: v[a]->Set(T(4)); for (auto &x : m[a]) x = T(4); break;
      case 1: if (!m[a].empty()) v[a]->SetZero(); for (auto &x : m[a]) x = 0; break;
      case 2: v[a]->Scale(T(0.5)); for (auto &x : m[a]) x *= T(0.5); break;
      case 3: v[a]->Add(T(-2)); for (auto &x : m[a]) x += T(-2); break;
      case 4: if (same) { Vector<float> f(m[b].size()); for (size_t i = 0; i < m[b].size(); ++i) f(i) = m[b][i]; v[a]->AddVec(T(2), f); for (size_t i = 0; i < m[a].size(); ++i) m[a][i] += T(2) * m[b][i]; } break;
      case 5: if (same) { v[a]->MulElements(*v[b]); for (size_t i = 0; i < m[a].size(); ++i) m[a][i] *= m[b][i]; } break;
      case 6: { int n = v[a]->ApplyFloor(T(3)), w = 0; for (auto &x : m[a]) if (x < T(3)) { x = T(3); ++w; } MC_CHECK(n == w, "floor reports %d, expected %d", n, w); break; }
      case 7: if (same) { T s = 0; for (size_t i = 0; i < m[a].size(); ++i) s += m[a][i] * m[b][i]; T g = v[a]->VecVec(*v[b]); MC_CHECK(fabs(g - s) <= 1e-5 * (1 + fabs(s)), "dot product %g, expected %g", (double)g, (double)s); } break;
    }
    for (auto &x : m[a]) if (!(fabs(x) < 1e6)) { fill(a); break; }   // stay where float is exact
    bool frac = false; for (auto &x : m[a]) if (x * T(64) != std::floor(x * T(64))) frac = true;
    if (frac) fill(a);
    check(W[k]);
  }
  uint64_t hash() { uint64_t h = 7; for (int i = 0; i < 2; ++i) { h = mc::mix(h, m[i].size()); h = mc::fnv(m[i].data(), m[i].size() * sizeof(T), h); } return h; }
};
template<typename T> static void vectors(int depth, int sizes) {
  uint64_t hs[16];
  std::string keep; keep.swap(mc::C().trace); mc::C().trace.reserve(4096);
  size_t before = heap_bytes();
  {
    g_fill = 0;
    VWorld<T> w; w.check("construction");
    for (int d = 0; d < depth; ++d) { w.op(sizes); mc::step(); hs[d] = w.hash(); }
  }
  size_t after = heap_bytes();
  MC_CHECK(after <= before, "%zu bytes are not released when the vectors are destroyed", after - before);
  for (int d = 0; d < depth; ++d) mc::state(hs[d]);
  mc::outcome(hs[depth - 1]);
  mc::validated();
}

// ---------------------------------------------------------------- matrices
template<typename T> struct RM {
  int r, c; std::vector<T> d; RM(): r(0), c(0) {}
  RM(int r_, int c_): r(r_), c(c_), d(r_ * c_, T(0)) {}
  T &at(int i, int j) { return d[i * c + j]; }
};
template<typename T> struct MWorld {
  std::unique_ptr<Matrix<T>> v[2];
  RM<T> m[2];
  MWorld() { v[0].reset(new Matrix<T>()); v[1].reset(new Matrix<T>(2, 3)); m[1] = RM<T>(2, 3); }
  void check(const char *op) {
    for (int i = 0; i < 2; ++i) {
      MC_CHECK(v[i]->NumRows() == m[i].r && v[i]->NumCols() == m[i].c, "after %s: matrix %d is %d x %d, expected %d x %d", op, i, v[i]->NumRows(), v[i]->NumCols(), m[i].r, m[i].c);
      MC_CHECK(v[i]->Stride() >= v[i]->NumCols(), "after %s: stride %d of %d columns", op, v[i]->Stride(), v[i]->NumCols());
      const Matrix<T> &cm = *v[i];
      for (int r = 0; r < m[i].r; ++r) {
        const SubVector<T> row = cm.Row(r);
        for (int c = 0; c < m[i].c; ++c) {
          MC_CHECK(cm(r, c) == m[i].at(r, c), "after %s: element (%d,%d) of matrix %d is %g, expected %g", op, r, c, i, (double)cm(r, c), (double)m[i].at(r, c));
          MC_CHECK(row(c) == m[i].at(r, c), "after %s: row %d differs", op, r);
        }
      }
    }
  }
  void fill(int i) { for (int r = 0; r < m[i].r; ++r) for (int c = 0; c < m[i].c; ++c) (*v[i])(r, c) = m[i].at(r, c) = fresh<T>(); }
  void op(int nshape) {
    static const int S[][2] = { { 0, 0 }, { 2, 3 }, { 3, 3 }, { 1, 4 }, { 3, 1 }, { 5, 9 } };
    int a = mc::choose(2), b = 1 - a;
    int k = mc::choose(6 * nshape + 8);
    if (k < 6 * nshape) {
      int r = S[k / 6][0], c = S[k / 6][1], kind = k % 3, st = k % 6 / 3; char w[60];
      snprintf(w, 60, "resize %d to %d x %d kind %d stride %d", a, r, c, kind, st); mc::note("%s", w);
      int sk = st ? (int)Matrix<T>::kDefaultStride : (int)Matrix<T>::kStrideEqualNumCols;
      if (kind == 0) { v[a]->Resize(r, c, Matrix<T>::kSetZero, sk); m[a] = RM<T>(r, c); }
      else if (kind == 1) { v[a]->Resize(r, c, Matrix<T>::kUndefined, sk); m[a] = RM<T>(r, c); MC_CHECK(v[a]->NumRows() == r && v[a]->NumCols() == c, "after %s: wrong size", w); fill(a); }
      else { v[a]->Resize(r, c, Matrix<T>::kCopyData, sk); RM<T> n(r, c); for (int i = 0; i < std::min(r, m[a].r); ++i) for (int j = 0; j < std::min(c, m[a].c); ++j) n.at(i, j) = m[a].at(i, j); m[a] = n; }
      check(w); return;
    }
    k -= 6 * nshape;
    static const char *W[] = { "swap", "fill", "copy", "transposed copy", "transpose in place", "set zero", "scale", "windows" };
    mc::note("%s %d", W[k], a);
    switch (k) {
      case 0: v[a]->Swap(v[b].get()); std::swap(m[a], m[b]); break;
      case 1: fill(a); break;
      case 2: if (m[a].r == m[b].r && m[a].c == m[b].c) { v[a]->CopyFromMat(*v[b]); m[a].d = m[b].d; } break;
      case 3: if (m[a].r == m[b].c && m[a].c == m[b].r) { v[a]->CopyFromMat(*v[b], Matrix<T>::kTrans); for (int i = 0; i < m[a].r; ++i) for (int j = 0; j < m[a].c; ++j) m[a].at(i, j) = m[b].at(j, i); } break;
      case 4: if (m[a].r == m[a].c) { v[a]->Transpose(); RM<T> n(m[a].r, m[a].c); for (int i = 0; i < n.r; ++i) for (int j = 0; j < n.c; ++j) n.at(i, j) = m[a].at(j, i); m[a] = n; } break;
      case 5: if (m[a].r) v[a]->SetZero(); for (auto &x : m[a].d) x = 0; break;
      case 6: v[a]->Scale(T(2)); for (auto &x : m[a].d) { x = x * T(2); } for (auto &x : m[a].d) if (x > T(100) || x < T(0)) { fill(a); break; } break;
      case 7: windows(a, b); break;
    }
    check(W[k]);
  }
  template<typename U = T> typename std::enable_if<!std::is_floating_point<U>::value>::type windows(int, int) {}
  template<typename U = T> typename std::enable_if<std::is_floating_point<U>::value>::type windows(int a, int b) {
    RM<T> &A = m[a];
    for (int ro = 0; ro < A.r; ++ro) for (int r = 1; ro + r <= A.r; ++r) for (int co = 0; co < A.c; ++co) for (int c = 1; co + c <= A.c; ++c) {
      SubMatrix<T> s = v[a]->Range(ro, r, co, c);
      MC_CHECK(s.NumRows() == r && s.NumCols() == c, "window is %d x %d, expected %d x %d", s.NumRows(), s.NumCols(), r, c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(s(i, j) == A.at(ro + i, co + j), "element (%d,%d) of a window differs", i, j);
      int what = (ro + r + co + c) % 5;
      if (what == 0) { s.SetZero(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) A.at(ro + i, co + j) = 0; }
      else if (what == 1) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) s(i, j) = A.at(ro + i, co + j) = fresh<T>(); }
      else if (what == 2 && r == c) { s.Transpose(); for (int i = 0; i < r; ++i) for (int j = 0; j < i; ++j) std::swap(A.at(ro + i, co + j), A.at(ro + j, co + i)); }
      else if (what == 3) {       // copies out of and into windows
        Matrix<T> t(c, r); t.CopyFromMat(s, Matrix<T>::kTrans);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) MC_CHECK(t(j, i) == A.at(ro + i, co + j), "transposed copy of a window differs");
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t(j, i) = A.at(ro + i, co + j) = fresh<T>();
        s.CopyFromMat(t, Matrix<T>::kTrans);
      } else {
        SubMatrix<T> z = s.Range(r - 1, 1, c - 1, 1); z(0, 0) = A.at(ro + r - 1, co + c - 1) = fresh<T>();
        SubMatrix<T> e = s.Range(0, 0, 0, 0); MC_CHECK(e.NumRows() == 0 && e.NumCols() == 0, "empty window is not empty");
      }
    }
  }
  uint64_t hash() { uint64_t h = 7; for (int i = 0; i < 2; ++i) { h = mc::mix(h, m[i].r); h = mc::mix(h, m[i].c); h = mc::mix(h, v[i]->Stride()); h = mc::fnv(m[i].d.data(), m[i].d.size() * sizeof(T), h); } return h; }
};
template<typename T> static void matrices(int depth, int nshape) {
  uint64_t hs[16];
  std::string keep; keep.swap(mc::C().trace); mc::C().trace.reserve(4096);
  size_t before = heap_bytes();
  {
    g_fill = 0;
    MWorld<T> w; w.check("construction");
    for (int d = 0; d < depth; ++d) { w.op(nshape); mc::step(); hs[d] = w.hash(); }
  }
  size_t after = heap_bytes();
  MC_CHECK(after <= before, "%zu bytes are not released when the matrices are destroyed", after - before);
  for (int d = 0; d < depth; ++d) mc::state(hs[d]);
  mc::outcome(hs[depth - 1]);
  mc::validated();
}
// every pair of shapes: copying resize keeps the shared part
static void reshape(int maxn) {
  int r1 = mc::choose(maxn), c1 = r1 ? 1 + mc::choose(maxn) : 0, r2 = mc::choose(maxn), c2 = r2 ? 1 + mc::choose(maxn) : 0;
  int st1 = mc::choose(2), st2 = mc::choose(2);
  mc::note("%dx%d -> %dx%d", r1, c1, r2, c2);
  g_fill = 0;
  Matrix<float> m(r1, c1, Matrix<float>::kSetZero, st1 ? (int)Matrix<float>::kDefaultStride : (int)Matrix<float>::kStrideEqualNumCols);
  for (int i = 0; i < r1; ++i) for (int j = 0; j < c1; ++j) { MC_CHECK(m(i, j) == 0, "a new matrix is not zero at (%d,%d)", i, j); m(i, j) = i * 100 + j + 1; }
  m.Resize(r2, c2, Matrix<float>::kCopyData, st2 ? (int)Matrix<float>::kDefaultStride : (int)Matrix<float>::kStrideEqualNumCols);
  MC_CHECK(m.NumRows() == r2 && m.NumCols() == c2, "resized to %d x %d", m.NumRows(), m.NumCols());
  for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) {
    float want = i < r1 && j < c1 ? i * 100 + j + 1 : 0;
    MC_CHECK(m(i, j) == want, "resize %dx%d to %dx%d: element (%d,%d) is %g, expected %g", r1, c1, r2, c2, i, j, m(i, j), want);
  }
  m.Resize(r1, c1, Matrix<float>::kSetZero);
  for (int i = 0; i < r1; ++i) for (int j = 0; j < c1; ++j) MC_CHECK(m(i, j) == 0, "a zeroing resize left %g at (%d,%d)", m(i, j), i, j);
  int n1 = r1 * 3 + c1, n2 = r2 * 3 + c2;
  Vector<float> v(n1); for (int i = 0; i < n1; ++i) { MC_CHECK(v(i) == 0, "a new vector is not zero"); v(i) = i + 1; }
  v.Resize(n2, Vector<float>::kCopyData);
  for (int i = 0; i < n2; ++i) MC_CHECK(v(i) == (i < n1 ? i + 1 : 0), "vector resize %d to %d: element %d is %g", n1, n2, i, v(i));
  mc::outcome(mc::fmt("%d %d %d %d", r1, c1, r2, c2));
  mc::step(); mc::validated();
}

// thousands to a million elements
template<typename T> static void large_vectors() {
  static const int N[] = { 0, 1, 255, 256, 1023, 1025, 4096, 16385, 65535, 65536, 65537, 300000, 1000003 };
  int a = N[mc::choose(13)], b = N[mc::choose(13)], kind = mc::choose(5); mc::note("%d and %d elements, kind %d", a, b, kind);
  auto val = [](int i) { return (T)((i * 7919ll + i / 256) % 251 + 1); };
  auto all = [&](const VectorBase<T> &v, int from, int to, int shift, const char *what) { for (int i = from; i < to; ++i) if (v(i) != val(i + shift)) mc::fail("%s: element %d is %g, expected %g (%d and %d elements)", what, i, (double)v(i), (double)val(i + shift), a, b); };
  auto zero = [&](const VectorBase<T> &v, int from, int to, const char *what) { for (int i = from; i < to; ++i) if (v(i) != 0) mc::fail("%s: element %d is %g, expected 0 (%d and %d elements)", what, i, (double)v(i), a, b); };
  Vector<T> x(a), y(b); zero(x, 0, a, "new"); for (int i = 0; i < a; ++i) x(i) = val(i); for (int i = 0; i < b; ++i) y(i) = val(i + 5);
  switch (kind) {
    case 0: x.Resize(b, Vector<T>::kCopyData); MC_CHECK(x.Dim() == b, "%d elements", x.Dim()); all(x, 0, std::min(a, b), 0, "resize with copy"); zero(x, std::min(a, b), b, "resize with copy"); break;
    case 1: x.Resize(b, Vector<T>::kSetZero); zero(x, 0, b, "zeroing resize"); x.Resize(b, Vector<T>::kUndefined); x.CopyFromVec(y); all(x, 0, b, 5, "copy"); break;
    case 2: x.Swap(&y); MC_CHECK(x.Dim() == b && y.Dim() == a, "swap: %d and %d elements", x.Dim(), y.Dim()); all(x, 0, b, 5, "swap"); all(y, 0, a, 0, "swap"); break;
    case 3: x = std::move(y); MC_CHECK(x.Dim() == b, "move: %d elements", x.Dim()); all(x, 0, b, 5, "move"); { Vector<T> z(std::move(x)); MC_CHECK(z.Dim() == b, "move: %d elements", z.Dim()); all(z, 0, b, 5, "move"); } break;
    default: { int o = b <= a ? a - b : 0, l = std::min(a, b); if (!l) break; x.Range(o, l).CopyFromVec(y.Range(0, l)); all(x, 0, o, 0, "before a range"); for (int i = 0; i < l; ++i) if (x(o + i) != val(i + 5)) mc::fail("range: element %d", o + i); all(x, o + l, a, 0, "after a range"); x.Range(o, l).Set(T(3)); all(x, 0, o, 0, "before a range"); all(x, o + l, a, 0, "after a range"); }
  }
  mc::step(); mc::validated(); mc::outcome(mc::fmt("%d %d %d", a, b, kind)); mc::state(mc::fnv(mc::fmt("lv %d %d %d", a, b, kind)));
}
static void large_matrices() {
  static const int S[][2] = { { 1, 100000 }, { 100000, 1 }, { 257, 255 }, { 1000, 40 }, { 40, 1000 }, { 1025, 129 }, { 64, 4096 }, { 65537, 2 }, { 3, 3 }, { 512, 512 } };
  int a = mc::choose(10), b = mc::choose(10), kind = mc::choose(4), st = mc::choose(2); int r = S[a][0], c = S[a][1], r2 = S[b][0], c2 = S[b][1]; mc::note("%dx%d and %dx%d, kind %d", r, c, r2, c2, kind);
  auto val = [](int i, int j) { return (float)((i * 7919ll + j * 31 + j / 64) % 65521 + 1); };
  int stride = st ? (int)Matrix<float>::kDefaultStride : (int)Matrix<float>::kStrideEqualNumCols;
  Matrix<float> m(r, c, Matrix<float>::kSetZero, stride);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { if (m(i, j) != 0) mc::fail("a new matrix is not zero at (%d,%d)", i, j); m(i, j) = val(i, j); }
  if (kind == 0) {
    m.Resize(r2, c2, Matrix<float>::kCopyData, stride);
    for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) if (m(i, j) != (i < r && j < c ? val(i, j) : 0)) mc::fail("resize %dx%d to %dx%d: element (%d,%d) is %g", r, c, r2, c2, i, j, m(i, j));
  } else if (kind == 1) {
    Matrix<float> t(c, r); t.CopyFromMat(m, Matrix<float>::kTrans); for (int i = 0; i < c; ++i) for (int j = 0; j < r; ++j) if (t(i, j) != val(j, i)) mc::fail("transposed copy of %dx%d: element (%d,%d) is %g", r, c, i, j, t(i, j));
    Matrix<float> n(r, c); n.CopyFromMat(m); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (n(i, j) != val(i, j)) mc::fail("copy of %dx%d: element (%d,%d) is %g", r, c, i, j, n(i, j));
  } else if (kind == 2) {
    Matrix<float> n(r2, c2); for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) n(i, j) = -val(i, j);
    m.Swap(&n); MC_CHECK(m.NumRows() == r2 && n.NumRows() == r && m.NumCols() == c2 && n.NumCols() == c, "swap");
    for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) if (m(i, j) != -val(i, j)) mc::fail("swap: element (%d,%d)", i, j);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (n(i, j) != val(i, j)) mc::fail("swap: element (%d,%d)", i, j);
    if (r == c) { n.Transpose(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (n(i, j) != val(j, i)) mc::fail("transpose of %dx%d: element (%d,%d)", r, c, i, j); }
  } else {
    int h = std::min(r, r2), w = std::min(c, c2), ro = r - h, co = c - w; Matrix<float> n(r2, c2); n.SetZero();
    m.Range(ro, h, co, w).CopyFromMat(n.Range(0, h, 0, w));
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (m(i, j) != (i >= ro && j >= co ? 0 : val(i, j))) mc::fail("range of %dx%d: element (%d,%d) is %g", r, c, i, j, m(i, j));
    m.Resize(r2, c2, Matrix<float>::kSetZero); for (int i = 0; i < r2; ++i) for (int j = 0; j < c2; ++j) if (m(i, j) != 0) mc::fail("a zeroing resize left %g", m(i, j));
  }
  mc::step(); mc::validated(); mc::outcome(mc::fmt("%d %d %d", a, b, kind)); mc::state(mc::fnv(mc::fmt("lm %d %d %d %d", a, b, kind, st)));
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  int d = q ? 3 : 4, dv = 4;
  mc::add("vector-float", mc::fmt("all sequences of %d operations out of 54 on two vectors", dv), [=] { vectors<float>(dv, 4); });
  mc::add("vector-double", mc::fmt("all sequences of %d operations out of 54 on two vectors", dv), [=] { vectors<double>(dv, 4); });
  mc::add("vector-int", mc::fmt("all sequences of %d operations out of 44 on two vectors", dv), [=] { vectors<int32_t>(dv, 5); });
  mc::add("vector-byte", mc::fmt("all sequences of %d operations out of 44 on two vectors", dv), [=] { vectors<uint8_t>(dv, 5); });
  mc::add("matrix-float", mc::fmt("all sequences of %d operations out of 88 on two matrices", d), [=] { matrices<float>(d, q ? 5 : 6); });
  mc::add("matrix-double", mc::fmt("all sequences of %d operations out of 64 on two matrices", d), [=] { matrices<double>(d, q ? 4 : 5); });
  mc::add("matrix-byte", mc::fmt("all sequences of %d operations out of 64 on two matrices", d), [=] { matrices<uint8_t>(d, q ? 4 : 5); });
  mc::add("reshape", "every pair of shapes up to the bound", [=] { reshape(q ? 8 : 18); });
  mc::add("large-vectors", "13 x 13 sizes up to 1000003 elements, 5 operations", [] { if (mc::flip()) large_vectors<float>(); else large_vectors<uint8_t>(); });
  mc::add("large-matrices", "10 x 10 shapes, 4 operations, 2 layouts", [] { large_matrices(); });
  return mc::main(argc, argv);
}
