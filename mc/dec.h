// dec.h -- decoding graphs, language models and the reference decoder
// (exact dynamic programming over the explicitly expanded product graph).
#ifndef VERIF_DEC_H_
#define VERIF_DEC_H_
#include <math.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "mc.h"
#include "kit.h"
#include "decoder.h"
#include "symbol_table.h"

namespace dec {
using pocketkaldi::Decoder;
using pocketkaldi::Vector;
static const double kInf = INFINITY;

struct A { int src, dst, il, ol; double w; };
struct G {
  int n; std::vector<A> arcs; std::vector<double> fin;
  explicit G(int states = 0) : n(states), fin(states, kInf) {}
  void add(int s, int d, int il, int ol, double w) { A a = { s, d, il, ol, w }; arcs.push_back(a); }
};

inline std::unique_ptr<fst::StdVectorFst> to_fst(const G &g) {
  std::unique_ptr<fst::StdVectorFst> f(new fst::StdVectorFst());
  for (int i = 0; i < g.n; ++i) f->AddState();
  f->SetStart(0);
  for (auto &a : g.arcs) f->AddArc(a.src, fst::StdArc(a.il, a.ol, (float)a.w, a.dst));
  for (int i = 0; i < g.n; ++i) if (g.fin[i] != kInf) f->SetFinal(i, (float)g.fin[i]);
  return f;
}

// Reference language model: explicit arcs, back-off arc, words only.
struct Lm {
  struct S { std::map<int, std::pair<int, double>> arcs; int bo; double bow; double fin; S() : bo(-1), bow(0), fin(kInf) {} };
  std::vector<S> st; int start;
  bool get(int h, int w, int *next, double *cost) const {
    *cost = 0;
    for (int guard = 0; guard <= (int)st.size(); ++guard) {
      auto it = st[h].arcs.find(w);
      if (it != st[h].arcs.end()) { *next = it->second.first; *cost += it->second.second; return true; }
      if (st[h].bo < 0) return false;
      *cost += st[h].bow; h = st[h].bo;
    }
    return false;
  }
  double final(int h) const {
    double c = 0;
    for (int guard = 0; guard <= (int)st.size(); ++guard) {
      if (st[h].fin != kInf) return c + st[h].fin;
      if (st[h].bo < 0) return kInf;
      c += st[h].bow; h = st[h].bo;
    }
    return kInf;
  }
  kit::Bytes bytes() const {
    std::vector<kit::LmState> v;
    for (auto &s : st) {
      kit::LmState k; k.final = (float)s.fin;
      if (s.bo >= 0) { kit::Arc a = { s.bo, 0, 0, (float)s.bow }; k.arcs.push_back(a); }
      for (auto &p : s.arcs) { kit::Arc a = { p.second.first, p.first, p.first, (float)p.second.second }; k.arcs.push_back(a); }
      v.push_back(k);
    }
    return kit::lm_fst(start, v);
  }
};

// The product of graph and (optional) language model as one plain graph.
struct Ref {
  int N; std::vector<A> arcs; std::vector<double> fin; int start;
  std::vector<int> tid2pdf; double scale;
  std::vector<std::vector<int>> out_eps, out_em;

  Ref(const G &g, const std::vector<int> &t2p, double am_scale) : tid2pdf(t2p), scale(am_scale) {
    N = g.n; arcs = g.arcs; fin = g.fin; start = 0; index();
  }
  // small: unigram weights already inside the graph, removed per word
  Ref(const G &g, const std::vector<int> &t2p, double am_scale, const Lm &lm, int bos, int eos,
      const std::vector<double> &small) : tid2pdf(t2p), scale(am_scale) {
    int L = lm.st.size();
    N = g.n * L;
    double c; int h0 = lm.start;
    if (lm.get(lm.start, bos, &h0, &c)) {}
    start = 0 * L + h0;
    fin.assign(N, kInf);
    for (int s = 0; s < g.n; ++s) for (int h = 0; h < L; ++h) {
      if (g.fin[s] == kInf) continue;
      int hn; double w;
      if (!lm.get(h, eos, &hn, &w)) continue;
      double f = lm.final(hn);
      if (f == kInf) continue;
      fin[s * L + h] = g.fin[s] + w + f - small[eos];
    }
    for (auto &a : g.arcs) for (int h = 0; h < L; ++h) {
      int hn = h; double w = 0;
      if (a.ol != 0) { if (!lm.get(h, a.ol, &hn, &w)) { hn = h; w = 0; } else w -= small[a.ol]; }
      A b = { a.src * L + h, a.dst * L + hn, a.il, a.ol, a.w + w };
      arcs.push_back(b);
    }
    index();
  }
  void index() {
    out_eps.assign(N, std::vector<int>()); out_em = out_eps;
    for (size_t i = 0; i < arcs.size(); ++i) (arcs[i].il == 0 ? out_eps : out_em)[arcs[i].src].push_back(i);
  }
  double ac(const A &a, const std::vector<double> &f) const { return -scale * f[tid2pdf[a.il]]; }

  // Exact best cost per state after each number of frames, optionally keeping
  // only prefixes within `beam` of lim[t].
  std::vector<std::vector<double>> best(const std::vector<std::vector<double>> &fr, double beam,
                                        const std::vector<double> *lim) const {
    std::vector<std::vector<double>> b(fr.size() + 1, std::vector<double>(N, kInf));
    b[0][start] = 0;
    for (size_t t = 0; t <= fr.size(); ++t) {
      if (t > 0) for (auto &a : arcs) if (a.il != 0 && b[t - 1][a.src] < kInf) {
        double c = b[t - 1][a.src] + a.w + ac(a, fr[t - 1]);
        if (lim && c > (*lim)[t] + beam) continue;
        if (c < b[t][a.dst]) b[t][a.dst] = c;
      }
      // the first closure (before any frame) is never pruned
      for (int it = 0; it <= N + 1; ++it) {
        bool ch = false;
        for (auto &a : arcs) if (a.il == 0 && b[t][a.src] < kInf) {
          double c = b[t][a.src] + a.w;
          if (lim && t > 0 && c > (*lim)[t] + beam) continue;
          if (c < b[t][a.dst] - 1e-12) { b[t][a.dst] = c; ch = true; }
        }
        if (!ch) break;
      }
      // a prefix that falls out of the beam before its next frame is dropped
      if (lim && t < fr.size()) for (int s = 0; s < N; ++s) if (b[t][s] > (*lim)[t] + beam) b[t][s] = kInf;
    }
    return b;
  }
  std::vector<double> mins(const std::vector<std::vector<double>> &b) const {
    std::vector<double> m;
    for (auto &r : b) { double x = kInf; for (double v : r) if (v < x) x = v; m.push_back(x); }
    return m;
  }
  double total(const std::vector<double> &row, bool with_final) const {
    double x = kInf;
    for (int s = 0; s < N; ++s) { double c = row[s] + (with_final ? fin[s] : 0); if (c < x) x = c; }
    return x;
  }
  // Cheapest path producing exactly `words` (spoken order).
  double best_for_words(const std::vector<std::vector<double>> &fr, const std::vector<int> &words, bool with_final) const {
    int W = words.size() + 1;
    std::vector<double> cur(N * W, kInf), nx;
    cur[start * W] = 0;
    auto relax = [&](std::vector<double> &from, std::vector<double> &to, const A &a, double c0, bool *ch) {
      for (int p = 0; p < W; ++p) {
        double c = from[a.src * W + p];
        if (c == kInf) continue;
        int q = p;
        if (a.ol != 0) { if (p + 1 >= W || words[p] != a.ol) continue; q = p + 1; }
        if (c + c0 < to[a.dst * W + q] - 1e-12) { to[a.dst * W + q] = c + c0; if (ch) *ch = true; }
      }
    };
    for (size_t t = 0; t <= fr.size(); ++t) {
      if (t > 0) {
        nx.assign(N * W, kInf);
        for (auto &a : arcs) if (a.il != 0) relax(cur, nx, a, a.w + ac(a, fr[t - 1]), NULL);
        cur.swap(nx);
      }
      for (int it = 0; it <= N * W + 1; ++it) {
        bool ch = false;
        for (auto &a : arcs) if (a.il == 0) relax(cur, cur, a, a.w, &ch);
        if (!ch) break;
      }
    }
    double x = kInf;
    for (int s = 0; s < N; ++s) { double c = cur[s * W + W - 1] + (with_final ? fin[s] : 0); if (c < x) x = c; }
    return x;
  }
  // Is there a path producing `words` with cost `want` (any path, not only a
  // cheapest one)?  Set-valued dynamic programming, costs rounded to 1e-3.
  bool exists_path(const std::vector<std::vector<double>> &fr, const std::vector<int> &words, bool with_final,
                   double want, double tol) const {
    int W = words.size() + 1;
    typedef std::set<long> S;
    auto key = [](double c) { return lround(c * 1024); };
    std::vector<S> cur(N * W), nx;
    cur[start * W].insert(0);
    double gain = 64; for (auto &f : fr) { double x = 0; for (double v : f) x = std::max(x, scale * v); gain += x; }
    long cap = key(want + gain);   // graph costs below -64 in all occur in no harness
    for (size_t t = 0; t <= fr.size(); ++t) {
      if (t > 0) {
        nx.assign(N * W, S());
        for (auto &a : arcs) if (a.il != 0) for (int p = 0; p < W; ++p) for (long c : cur[a.src * W + p]) {
          int q = p;
          if (a.ol != 0) { if (p + 1 >= W || words[p] != a.ol) continue; q = p + 1; }
          long v = c + key(a.w + ac(a, fr[t - 1]));
          if (v <= cap) nx[a.dst * W + q].insert(v);
        }
        cur.swap(nx);
      }
      for (int it = 0; it <= N + 1; ++it) {
        bool ch = false;
        for (auto &a : arcs) if (a.il == 0) for (int p = 0; p < W; ++p) {
          S from = cur[a.src * W + p];
          for (long c : from) {
            int q = p;
            if (a.ol != 0) { if (p + 1 >= W || words[p] != a.ol) continue; q = p + 1; }
            long v = c + key(a.w);
            if (v <= cap && cur[a.dst * W + q].insert(v).second) ch = true;
          }
        }
        if (!ch) break;
      }
    }
    for (int s = 0; s < N; ++s) {
      if (with_final && fin[s] == kInf) continue;
      for (long c : cur[s * W + W - 1]) if (labs(c + (with_final ? key(fin[s]) : 0) - key(want)) <= (long)(tol * 1024) + 2) return true;
    }
    return false;
  }
};

inline std::vector<int> spoken(const Decoder::Hypothesis &h) {
  return std::vector<int>(h.words().rbegin(), h.words().rend());
}
inline std::string wstr(const std::vector<int> &w) {
  std::string s = "["; for (size_t i = 0; i < w.size(); ++i) s += (i ? " " : "") + std::to_string(w[i]); return s + "]";
}
inline std::string gstr(const G &g) {
  std::string s;
  for (auto &a : g.arcs) s += mc::fmt("%d-%d:%d/%g->%d ", a.src, a.il, a.ol, a.w, a.dst);
  for (int i = 0; i < g.n; ++i) if (g.fin[i] != kInf) s += mc::fmt("F%d=%g ", i, g.fin[i]);
  return s;
}
inline void set_vec(Vector<float> *v, const std::vector<double> &d) {
  v->Resize(d.size());
  for (size_t i = 0; i < d.size(); ++i) (*v)(i) = (float)d[i];
}
inline void set_vec(Vector<int32_t> *v, const std::vector<int> &d) {
  v->Resize(d.size());
  for (size_t i = 0; i < d.size(); ++i) (*v)(i) = d[i];
}
inline std::vector<std::vector<double>> head(const std::vector<std::vector<double>> &v, size_t n) {
  return std::vector<std::vector<double>>(v.begin(), v.begin() + n);
}

}  // namespace dec
#endif
