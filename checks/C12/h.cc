// C12: every layer computes its formula, whatever the shape, the values, the
// input's stride and the previous contents of the output.
#include "nn.h"
#include <float.h>
#include <memory>
#include "nnet.h"
#include "util.h"
using namespace pocketkaldi;

static const float kNaN = NAN;

// An input matrix that may be a window into a larger one (stride > columns).
struct In {
  Matrix<float> whole;
  std::unique_ptr<SubMatrix<float>> sub;
  const MatrixBase<float> &m() const { if (sub) return *sub; return whole; }
  In(const nn::M &x, int kind) {
    int pr = kind ? 2 : 0, pc = kind ? 3 : 0;
    whole.Resize(x.r + pr, x.c + pc);
    for (int i = 0; i < x.r + pr; ++i) for (int j = 0; j < x.c + pc; ++j) whole(i, j) = kNaN;
    for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) whole(i + pr / 2, j + pc / 2) = (float)x.at(i, j);
    if (kind) sub.reset(new SubMatrix<float>(whole, pr / 2, x.r, pc / 2, x.c));
  }
};
// What the output matrix may hold before.
static void dirty(Matrix<float> *o, int kind, const nn::M &y) {
  switch (kind) {
    case 0: return;
    case 1: o->Resize(y.r, y.c); break;
    case 2: o->Resize(y.r + 1, y.c + 2); break;
    case 3: o->Resize(1, 1); break;
  }
  for (int i = 0; i < o->NumRows(); ++i) for (int j = 0; j < o->NumCols(); ++j) (*o)(i, j) = kNaN;
}
static void compare(const nn::M &y, const nn::M &g, const Matrix<float> &o, const nn::L &l, const nn::M &x, double tol = 2e-5) {
  MC_CHECK(o.NumRows() == y.r && o.NumCols() == y.c, "%s: output is %d x %d, expected %d x %d", l.name().c_str(), o.NumRows(), o.NumCols(), y.r, y.c);
  for (int i = 0; i < y.r; ++i) {
    double sum = 0;
    for (int j = 0; j < y.c; ++j) {
      double want = y.at(i, j), mag = g.at(i, j), got = o(i, j);
      sum += got;
      if (!(fabs(mag) < 3.3e38)) continue;           // overflows float by definition
      double eps = tol * (fabs(mag) + (l.type == kit::kSoftmax ? 0 : 0)) + 1e-37;
      MC_CHECK(fabs(got - want) <= eps, "%s: output (%d,%d) is %.9g, expected %.9g (input row starts %g %g)", l.name().c_str(), i, j, got, want,
               x.at(std::min(i, x.r - 1), 0), x.c > 1 ? x.at(std::min(i, x.r - 1), 1) : 0.0);
    }
    if (l.type == kit::kSoftmax) MC_CHECK(fabs(sum - 1) < 1e-4, "softmax row sums to %g", sum);
    mc::step();
  }
  mc::outcome(mc::fmt("%s %d %d %.6g", l.name().c_str(), y.r, y.c, y.at(0, 0)));
}
static std::unique_ptr<Layer> make(const nn::L &l) {
  std::unique_ptr<Layer> p;
  Vector<float> a, b;
  auto fill = [](Vector<float> *v, const std::vector<float> &s) { v->Resize(s.size()); for (size_t i = 0; i < s.size(); ++i) (*v)(i) = s[i]; };
  switch (l.type) {
    case kit::kLinear: {
      Matrix<float> W(l.out, l.in);
      for (int i = 0; i < l.in; ++i) for (int j = 0; j < l.out; ++j) W(j, i) = l.W[(size_t)i * l.out + j];
      fill(&b, l.b); p.reset(new LinearLayer(W, b)); break;
    }
    case kit::kReLU: p.reset(new ReLULayer()); break;
    case kit::kNormalize: p.reset(new NormalizeLayer()); break;
    case kit::kSoftmax: p.reset(new SoftmaxLayer()); break;
    case kit::kLogSoftmax: p.reset(new LogSoftmaxLayer()); break;
    case kit::kSplice: p.reset(new SpliceLayer(l.ix)); break;
    case kit::kBatchNorm: fill(&a, l.W); fill(&b, l.b); p.reset(new BatchNormLayer(a, b)); break;
    case kit::kNarrow: p.reset(new NarrowLayer(l.left, l.right)); break;
  }
  return p;
}
static void run(const nn::L &l, const nn::M &x, int in_kind, int out_kind, double tol = 2e-5) {
  nn::M g, y = l.apply(x, &g);
  In in(x, in_kind);
  Matrix<float> out; dirty(&out, out_kind, y);
  std::unique_ptr<Layer> p = make(l);
  p->Propagate(in.m(), &out);
  compare(y, g, out, l, x, tol);
  // and again into the result of the first call
  p->Propagate(in.m(), &out);
  compare(y, g, out, l, x, tol);
  mc::state(mc::fnv(x.d.data(), x.d.size() * 8, l.type * 131 + in_kind * 7 + out_kind));
  mc::validated(2);
}

static const std::vector<double> &alphabet() {
  static const std::vector<double> v = { 0, 1, -1.5, 30, -104, 89, -1e4, 3e38f, -3e38f, 1e-30f, 1e-45f, 1.5e19f, -3e-20f };
  return v;
}
// row-wise layers without parameters on all rows over the alphabet
static void values(int cols, int nval) {
  static const int T[] = { kit::kReLU, kit::kNormalize, kit::kSoftmax, kit::kLogSoftmax };
  nn::L l(T[mc::choose(4)]);
  nn::M x(2, cols);
  for (int j = 0; j < cols; ++j) x.at(0, j) = alphabet()[mc::choose(nval)];
  // the second row is different: rows must not influence each other
  for (int j = 0; j < cols; ++j) x.at(1, j) = alphabet()[(j * 5 + 3) % alphabet().size()];
  if (mc::tracing()) { mc::note("%s", l.name().c_str()); for (double v : x.d) mc::note("%g", v); }
  run(l, x, 0, 0);
}
// affine layers on all values
static void affine_values() {
  static const float A[] = { 0, 1, -2.5f, 1e20f, -1e-20f, 3e38f };
  if (mc::flip()) {
    nn::L l = nn::batchnorm({ A[mc::choose(6)], A[mc::choose(6)] }, { A[mc::choose(6)], 0.5f });
    nn::M x(1, 2); x.at(0, 0) = A[mc::choose(6)]; x.at(0, 1) = A[mc::choose(6)];
    run(l, x, 0, 0);
  } else {
    nn::L l = nn::linear(2, 1, { A[mc::choose(6)], A[mc::choose(6)] }, { A[mc::choose(6)] });
    nn::M x(1, 2); x.at(0, 0) = A[mc::choose(6)]; x.at(0, 1) = A[mc::choose(6)];
    run(l, x, 0, 0);
  }
}
static double val(int i, int j, int salt) { return ((i * 37 + j * 101 + salt * 13) % 41 - 20) * 0.25; }
// all shapes, all input layouts, all output histories
static void shapes(int mr, int mcn) {
  static const int T[] = { kit::kLinear, kit::kReLU, kit::kNormalize, kit::kSoftmax, kit::kLogSoftmax, kit::kBatchNorm };
  nn::L l(T[mc::choose(6)]);
  int r = 1 + mc::choose(mr), c = 1 + mc::choose(mcn);
  nn::M x(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x.at(i, j) = val(i, j, 1);
  if (l.type == kit::kLinear) {
    l.in = c; l.out = 1 + mc::choose(mcn);
    for (int i = 0; i < l.in * l.out; ++i) l.W.push_back(val(i, 3, 5));
    for (int i = 0; i < l.out; ++i) l.b.push_back(val(7, i, 9));
  } else if (l.type == kit::kBatchNorm) {
    for (int j = 0; j < c; ++j) { l.W.push_back(val(2, j, 3)); l.b.push_back(val(4, j, 8)); }
  }
  int ik = mc::choose(2), ok = mc::choose(4);
  mc::note("%s %dx%d input %d output %d", l.name().c_str(), r, c, ik, ok);
  // quarter integers of this size are exact in float: no tolerance for the affine layers
  bool exact = l.type == kit::kLinear || l.type == kit::kBatchNorm || l.type == kit::kReLU;
  run(l, x, ik, ok, exact ? 0 : 2e-5);
}
static void big() {
  static const int R[] = { 1, 2, 15, 16, 17, 31, 64, 130, 1025 };
  static const int Cn[] = { 1, 3, 40, 64, 127, 256, 440, 1025 };
  static const int T[] = { kit::kLinear, kit::kReLU, kit::kNormalize, kit::kSoftmax, kit::kLogSoftmax, kit::kBatchNorm };
  nn::L l(T[mc::choose(6)]);
  int r = R[mc::choose(9)], c = Cn[mc::choose(8)];
  nn::M x(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x.at(i, j) = val(i, j, 1);
  if (l.type == kit::kLinear) {
    l.in = c; l.out = Cn[mc::choose(8)];
    if ((double)r * c * l.out > 3e7) return;
    for (int i = 0; i < l.in * l.out; ++i) l.W.push_back(val(i, 3, 5));
    for (int i = 0; i < l.out; ++i) l.b.push_back(val(7, i, 9));
  } else if (l.type == kit::kBatchNorm) {
    for (int j = 0; j < c; ++j) { l.W.push_back(val(2, j, 3)); l.b.push_back(val(4, j, 8)); }
  }
  bool exact = l.type == kit::kLinear || l.type == kit::kBatchNorm || l.type == kit::kReLU;
  run(l, x, mc::choose(2), mc::choose(2), exact ? 0 : 2e-5);
}
static void splices(int maxn) {
  static const int I[] = { 0, -1, 1, -3, 2, 1000, -1000 };
  int n = 1 + mc::choose(maxn);
  nn::L l = nn::splice({}); for (int i = 0; i < n; ++i) l.ix.push_back(I[mc::choose(7)]);
  int r = 1 + mc::choose(5), c = 1 + mc::choose(3);
  nn::M x(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x.at(i, j) = i * 10 + j + 1;
  run(l, x, mc::choose(2), mc::choose(4), 0);
}
static void narrows(int maxr) {
  nn::L l = nn::narrow(mc::choose(6), mc::choose(6));
  int r = 1 + mc::choose(maxr), c = 1 + mc::choose(3);
  nn::M x(r, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x.at(i, j) = i * 10 + j + 1;
  run(l, x, mc::choose(2), mc::choose(4), 0);
}
// whole networks read from a file: all sequences of layers
static void nets(int maxlen) {
  int cols = 1 + mc::choose(3), rows = 1 + mc::choose(6), n = mc::choose(maxlen + 1);
  std::vector<nn::L> ls;
  nn::M x(rows, cols), y;
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) x.at(i, j) = val(i, j, 2);
  int c = cols;
  for (int i = 0; i < n; ++i) {
    nn::L l;
    switch (mc::choose(8)) {
      case 0: { int o = c == 2 ? 3 : 2; std::vector<float> W, b; for (int k = 0; k < c * o; ++k) W.push_back(val(k, i, 4)); for (int k = 0; k < o; ++k) b.push_back(val(k, 2, 6)); l = nn::linear(c, o, W, b); c = o; break; }
      case 1: l = nn::L(kit::kReLU); break;
      case 2: l = nn::L(kit::kNormalize); break;
      case 3: l = nn::L(kit::kSoftmax); break;
      case 4: l = nn::splice({ -1, 0, 2 }); c *= 3; break;
      case 5: { std::vector<float> s, o; for (int k = 0; k < c; ++k) { s.push_back(val(k, i, 7)); o.push_back(val(k, i, 2)); } l = nn::batchnorm(s, o); break; }
      case 6: l = nn::L(kit::kLogSoftmax); break;
      case 7: l = nn::narrow(1, 2); break;
    }
    ls.push_back(l);
  }
  y = x; nn::M g = x;
  for (auto &l : ls) y = l.apply(y, &g);
  std::string p = mc::scratch() + "/net.bin";
  kit::write_file(p, nn::net_bytes(3, 5, ls));
  util::ReadableFile fd; Status s = fd.Open(p);
  Nnet net; if (s.ok()) s = net.Read(&fd);
  MC_CHECK(s.ok(), "a well-formed network is rejected: %s", s.what().c_str());
  MC_CHECK(net.left_context() == 3 && net.right_context() == 5, "context %d/%d, expected 3/5", net.left_context(), net.right_context());
  In in(x, mc::choose(2));
  Matrix<float> out; dirty(&out, mc::choose(3), y);
  if (mc::tracing()) { std::string d; for (auto &l : ls) d += l.name() + " "; mc::note("%dx%d %s", rows, cols, d.c_str()); }
  for (int rep = 0; rep < 2; ++rep) {
    net.Propagate(in.m(), &out);
    MC_CHECK(out.NumRows() == y.r && out.NumCols() == y.c, "network output is %d x %d, expected %d x %d", out.NumRows(), out.NumCols(), y.r, y.c);
    double big = 1; for (double v : y.d) big = std::max(big, fabs(v));
    for (int i = 0; i < y.r; ++i) for (int j = 0; j < y.c; ++j)
      MC_CHECK(fabs(out(i, j) - y.at(i, j)) <= 2e-3 * big, "network output (%d,%d) is %g, expected %g", i, j, out(i, j), y.at(i, j));
    mc::step(y.r);
  }
  mc::outcome(mc::fmt("%d %d %.4g", y.r, y.c, y.d[0]));
  mc::validated();
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("values-1", "all rows of 1 value over 13 values from 1e-45 to 3e38, 4 layer types", [=] { values(1, 13); });
  mc::add("values-2", "all rows of 2 values", [=] { values(2, 13); });
  mc::add("values-3", "all rows of 3 values", [=] { values(3, 13); });
  if (!q) mc::add("values-4", "all rows of 4 values", [=] { values(4, 13); });
  mc::add("affine-values", "batch norm and linear layers, all parameters and inputs over 6 values up to 3e38", [=] { affine_values(); });
  mc::add("shapes", "all shapes up to the bound x 2 input layouts x 4 output histories; affine layers exactly", [=] { shapes(q ? 6 : 12, q ? 6 : 12); });
  mc::add("big", "9 batch sizes up to 1025 x 8 widths up to 1025", [=] { big(); });
  mc::add("splice", "all index lists up to length 3 (4) over 7 offsets x 15 shapes x layouts", [=] { splices(q ? 2 : 3); });
  mc::add("narrow", "all narrow widths 0..5/0..5 x rows x layouts", [=] { narrows(q ? 12 : 20); });
  mc::add("nets", "all networks of up to 3 (4) layers of 8 kinds read from files x shapes", [=] { nets(q ? 2 : 4); });
  return mc::main(argc, argv);
}
