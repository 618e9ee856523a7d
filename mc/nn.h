// nn.h -- reference network: the defining formula of each layer, in double.
#ifndef VERIF_NN_H_
#define VERIF_NN_H_
#include <math.h>
#include <algorithm>
#include <vector>
#include "kit.h"
#include "mc.h"

namespace nn {

struct M {
  int r, c; std::vector<double> d;
  M(): r(0), c(0) {}
  M(int r_, int c_): r(r_), c(c_), d((size_t)r_ * c_, 0.0) {}
  double &at(int i, int j) { return d[(size_t)i * c + j]; }
  double at(int i, int j) const { return d[(size_t)i * c + j]; }
};

struct L {
  int type;
  int in, out; std::vector<float> W, b;       // linear: W is in x out; batch norm: scale in W, offset in b
  std::vector<int> ix; int left, right;
  L(int t = kit::kReLU): type(t), in(0), out(0), left(0), right(0) {}
  // also the sum of magnitudes that entered each output, for error bounds
  M apply(const M &x, M *mag) const {
    M y(x.r, x.c); M g(x.r, x.c);
    switch (type) {
      case kit::kLinear:
        y = M(x.r, out); g = M(x.r, out);
        for (int i = 0; i < x.r; ++i) for (int j = 0; j < out; ++j) {
          double s = b[j], a = fabs(b[j]);
          for (int k = 0; k < in; ++k) { double t = x.at(i, k) * W[(size_t)k * out + j]; s += t; a += fabs(t); }
          y.at(i, j) = s; g.at(i, j) = a;
        }
        break;
      case kit::kReLU:
        for (size_t i = 0; i < x.d.size(); ++i) y.d[i] = x.d[i] < 0 ? 0 : x.d[i];
        g = y; break;
      case kit::kNormalize:
        for (int i = 0; i < x.r; ++i) {
          double s = 0; for (int j = 0; j < x.c; ++j) s += x.at(i, j) * x.at(i, j);
          for (int j = 0; j < x.c; ++j) y.at(i, j) = s == 0 ? x.at(i, j) : x.at(i, j) * sqrt(x.c / s);
        }
        g = y; break;
      case kit::kSoftmax: case kit::kLogSoftmax:
        for (int i = 0; i < x.r; ++i) {
          double m = x.at(i, 0), s = 0;
          for (int j = 0; j < x.c; ++j) m = std::max(m, x.at(i, j));
          for (int j = 0; j < x.c; ++j) s += exp(x.at(i, j) - m);
          for (int j = 0; j < x.c; ++j) {
            if (type == kit::kSoftmax) { y.at(i, j) = exp(x.at(i, j) - m) / s; g.at(i, j) = 1; }
            else { y.at(i, j) = x.at(i, j) - m - log(s); g.at(i, j) = fabs(x.at(i, j) - m) + fabs(log(s)) + 1; }
          }
        }
        break;
      case kit::kSplice:
        y = M(x.r, x.c * ix.size());
        for (int i = 0; i < x.r; ++i) for (size_t k = 0; k < ix.size(); ++k) {
          long s = (long)i + ix[k]; if (s < 0) s = 0; if (s > x.r - 1) s = x.r - 1;
          for (int j = 0; j < x.c; ++j) y.at(i, k * x.c + j) = x.at(s, j);
        }
        g = y; break;
      case kit::kBatchNorm:
        for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) {
          y.at(i, j) = x.at(i, j) * W[j] + b[j]; g.at(i, j) = fabs(x.at(i, j) * W[j]) + fabs(b[j]);
        }
        break;
      case kit::kNarrow:
        if (x.r > left + right) {
          y = M(x.r - left - right, x.c);
          for (int i = 0; i < y.r; ++i) for (int j = 0; j < x.c; ++j) y.at(i, j) = x.at(i + left, j);
        } else y = x;
        g = y; break;
    }
    if (mag) *mag = g;
    return y;
  }
  void bytes(kit::Bytes *o) const {
    switch (type) {
      case kit::kLinear: kit::linear(o, in, out, W, b); break;
      case kit::kSplice: kit::splice(o, ix); break;
      case kit::kNarrow: kit::narrow(o, left, right); break;
      case kit::kBatchNorm: kit::layer(o, type); kit::vec(o, W); kit::vec(o, b); break;
      default: kit::layer(o, type);
    }
  }
  std::string name() const {
    static const char *N[] = { "linear", "relu", "normalize", "softmax", "?", "?", "splice", "batchnorm", "logsoftmax", "narrow" };
    return N[type];
  }
};

inline L linear(int in, int out, const std::vector<float> &W, const std::vector<float> &b) {
  L l(kit::kLinear); l.in = in; l.out = out; l.W = W; l.b = b; return l;
}
inline L splice(const std::vector<int> &ix) { L l(kit::kSplice); l.ix = ix; return l; }
inline L narrow(int a, int b) { L l(kit::kNarrow); l.left = a; l.right = b; return l; }
inline L batchnorm(const std::vector<float> &s, const std::vector<float> &o) { L l(kit::kBatchNorm); l.W = s; l.b = o; return l; }

inline kit::Bytes net_bytes(int left, int right, const std::vector<L> &ls) {
  kit::Bytes b; kit::nnet_head(&b, left, right, ls.size());
  for (auto &l : ls) l.bytes(&b);
  return b;
}

}  // namespace nn
#endif
