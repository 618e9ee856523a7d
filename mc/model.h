// model.h -- writes a small, complete recognizer model (all files and the
// configuration) and makes audio for it. Independent of the code under test
// except for OpenFst-free file formats written by graph.h / kit.h / nn.h.
//
// Words are sounds: silence, a low tone ("low", "bass") and a high tone
// ("high"). The network looks at the filterbank energies.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_
#include <math.h>
#include <sys/stat.h>
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include "graph.h"
#include "kit.h"
#include "mc.h"
#include "nn.h"

namespace model {

struct Opt {
  int left, right, chunk; bool lm; int layout; bool crlf;
  int quiet;                       // 0: every word can be found; 1: no path ever ends (no final state)
  int variant;                     // 1: other words ids, pdfs, priors, costs and language model states
  Opt(): left(1), right(2), chunk(5), lm(false), layout(0), crlf(false), quiet(0), variant(0) {}
};
// words: 0 <eps>, 1 <s>, 2 </s>, 3 low, 4 high, 5 bass
static const char *kWords[] = { "<eps>", "<s>", "</s>", "low", "high", "bass" };
enum { kLow = 3, kHigh = 4, kBass = 5 };
inline std::vector<float> unigram() { return { 0, 0, 0.7f, 1.2f, 1.4f, 1.0f }; }
// word id in a variant; id 4 of the variant is not a word
inline int word(int w, int variant) { static const int V[] = { 0, 6, 1, 5, 3, 2 }; return variant ? V[w] : w; }
inline std::vector<float> unigram(int variant) {
  if (!variant) return unigram();
  std::vector<float> u(7, 0.0f); u[word(2, 1)] = 0.5f; u[word(kLow, 1)] = 0.9f; u[word(kHigh, 1)] = 1.7f; u[word(kBass, 1)] = 0.8f;
  return u;
}

inline graph::Graph hclg(const Opt &o) {
  graph::Graph g; g.start = 0; g.st.resize(5);
  auto arc = [&](int s, int d, int il, int ol, float w) { graph::Arc a = { il, ol ? word(ol, o.variant) : 0, w, d }; g.st[s].arcs.push_back(a); };
  std::vector<float> u = unigram(); if (o.variant) { std::vector<float> v = unigram(1); for (int w = 2; w < 6; ++w) u[w] = v[word(w, 1)]; }
  // 0: silence. 1: inside low. 2: inside high. 3: inside bass. 4: end of a word
  arc(0, 0, 1, 0, 0.1f);
  arc(0, 1, 2, kLow, 0.5f + u[kLow]); arc(0, 2, 4, kHigh, 0.4f + u[kHigh]); arc(0, 3, 6, kBass, 0.3f + u[kBass]);
  arc(1, 1, 3, 0, 0.2f); arc(1, 4, 0, 0, 0.3f);
  arc(2, 2, 5, 0, 0.2f); arc(2, 4, 0, 0, 0.2f);
  arc(3, 3, 7, 0, 0.2f); arc(3, 4, 0, 0, 0.6f);
  arc(4, 0, 0, 0, 0.1f); arc(4, 0, 1, 0, 0.15f);
  for (auto &s : g.st) s.fin = INFINITY;
  if (!o.quiet) { g.st[0].fin = 0.25f; g.st[4].fin = 0.0f; g.st[1].fin = 1.0f; }
  return g;
}
// 3 pdfs: silence, low, high
inline std::vector<int32_t> tid2pdf(int variant) { return { 0, 2, 0, 0, 1, 1, 0, 0 }; }
inline std::vector<int32_t> tid2pdf() { return { 0, 0, 1, 1, 2, 2, 1, 1 }; }
inline std::vector<nn::L> net(const Opt &o) {
  std::vector<nn::L> ls;
  std::vector<int> ix; for (int i = -o.left; i <= o.right; ++i) ix.push_back(i);
  int n = ix.size();
  ls.push_back(nn::splice(ix)); ls.push_back(nn::narrow(o.left, o.right));
  // per frame in the window, energies of the low and high bins; bin 4 is near
  // 300 Hz, bin 27 near 2500 Hz
  std::vector<float> W(40 * n * 3, 0.f), b = { 30.0f, 0.0f, 0.0f };
  for (int k = 0; k < n; ++k) for (int j = 0; j < 40; ++j) {
    float w = (ix[k] == 0 ? 1.0f : 0.25f) / 6;
    if (j >= 2 && j < 8) W[(k * 40 + j) * 3 + (o.variant ? 0 : 1)] = w;
    if (j >= 24 && j < 30) W[(k * 40 + j) * 3 + (o.variant ? 1 : 2)] = w;
  }
  float norm = 0; for (int k = 0; k < n; ++k) norm += ix[k] == 0 ? 1.0f : 0.25f;
  for (auto &w : W) w *= 3.0f / norm;
  b[0] = 3 * 11.0f; if (o.variant) std::rotate(b.begin(), b.begin() + 1, b.end());
  ls.push_back(nn::linear(40 * n, 3, W, b));
  ls.push_back(nn::L(kit::kLogSoftmax));
  return ls;
}
// bigram model with back-off: bytes of the large LM
inline kit::Bytes large_lm() {
  std::vector<kit::LmState> st(5);
  for (auto &s : st) s.final = INFINITY;
  // 0: start (before <s>); 1: back-off; 2: after <s>; 3: after low; 4: after high
  auto arc = [&](int s, int l, int d, float w) { kit::Arc a = { d, l, l, w }; st[s].arcs.push_back(a); };
  arc(0, 1, 2, 0.0f);
  arc(1, 2, 1, 0.6f); arc(1, kLow, 3, 1.0f); arc(1, kHigh, 4, 1.1f); arc(1, kBass, 1, 1.9f); st[1].final = 0;
  arc(2, 0, 1, 0.3f); arc(2, kHigh, 4, 0.9f);
  arc(3, 0, 1, 0.4f); arc(3, kLow, 3, 4.0f); arc(3, kBass, 1, 0.2f);
  arc(4, 0, 1, 0.2f); arc(4, 2, 1, 0.3f); arc(4, kLow, 3, 6.0f);
  return kit::lm_fst(0, st);
}
// the same words with other costs, other state numbers (the back-off state is 0) and start state 3
inline kit::Bytes large_lm(int variant) {
  if (!variant) return large_lm();
  std::vector<kit::LmState> st(5);
  for (auto &s : st) s.final = INFINITY;
  auto arc = [&](int s, int w, int d, float c) { int l = w ? word(w, 1) : 0; kit::Arc a = { d, l, l, c }; st[s].arcs.push_back(a); };
  arc(3, 1, 4, 0.0f);
  arc(0, 2, 0, 0.9f); arc(0, kBass, 0, 1.2f); arc(0, kHigh, 2, 1.5f); arc(0, kLow, 1, 1.4f); st[0].final = 0;
  arc(4, 0, 0, 0.1f); arc(4, kLow, 1, 0.2f);
  arc(1, 0, 0, 0.5f); arc(1, 2, 0, 0.3f); arc(1, kBass, 0, 5.0f);
  arc(2, 0, 0, 0.6f); arc(2, kBass, 0, 4.0f);
  for (auto &s : st) std::sort(s.arcs.begin(), s.arcs.end(), [](const kit::Arc &a, const kit::Arc &b) { return a.il < b.il; });
  return kit::lm_fst(3, st);
}
struct Files { std::map<std::string, kit::Bytes> f; std::vector<std::pair<std::string, std::string>> conf; };
inline Files files(const Opt &o = Opt()) {
  Files m; kit::Bytes b;
  m.f["graph.fst"] = graph::bytes(hclg(o), o.layout);
  m.f["nnet.bin"] = nn::net_bytes(o.left, o.right, net(o));
  b.clear(); if (o.variant) kit::vec(&b, { 0.375f, 0.5f, 0.125f }); else kit::vec(&b, { 0.5f, 0.25f, 0.25f }); m.f["prior.bin"] = b;
  b.clear(); kit::veci(&b, o.variant ? tid2pdf(1) : tid2pdf()); m.f["tid2pdf.bin"] = b;
  b.clear(); for (int i = 0; i < 6; ++i) b += std::string(kWords[i]) + " " + std::to_string(word(i, o.variant)) + "\n"; m.f["words.txt"] = b;
  m.conf = { { "fst", "graph.fst" }, { "nnet", "nnet.bin" }, { "prior", "prior.bin" }, { "left_context", std::to_string(o.left) },
             { "right_context", std::to_string(o.right) }, { "chunk_size", std::to_string(o.chunk) }, { "num_pdfs", "3" },
             { "tid2pdf", "tid2pdf.bin" }, { "symbol_table", "words.txt" } };
  if (o.lm) {
    m.f["large.lm"] = large_lm(o.variant);
    b.clear(); kit::vec(&b, unigram(o.variant)); m.f["unigram.bin"] = b;
    m.conf.push_back({ "large_lm", "large.lm" }); m.conf.push_back({ "original_lm", "unigram.bin" });
  }
  return m;
}
inline kit::Bytes conf_text(const Files &m) { kit::Bytes b; for (auto &p : m.conf) b += p.first + " = " + p.second + "\n"; return b; }
// returns the name of the configuration file
inline std::string write(const std::string &dir, const Files &m) {
  mkdir(dir.c_str(), 0755);
  for (auto &p : m.f) kit::write_file(dir + "/" + p.first, p.second);
  kit::write_file(dir + "/model.conf", conf_text(m));
  return dir + "/model.conf";
}

// audio: one character per 10 ms of sound (160 samples): '.' silence, 'l' low,
// 'h' high, 'n' loud noise
inline std::vector<int16_t> pcm(const std::string &s, int extra = 0) {
  std::vector<int16_t> v; kit::Lcg r(12345);
  size_t n = s.size() * 160 + extra;
  for (size_t i = 0; i < n; ++i) {
    char c = s[std::min(i / 160, s.size() - 1)]; double x = (int)(r.next() % 21) - 10;
    if (c == 'l') x += 9000 * sin(2 * M_PI * 310 * i / 16000.0);
    else if (c == 'h') x += 8000 * sin(2 * M_PI * 2500 * i / 16000.0);
    else if (c == 'n') x += (int)(r.next() % 20001) - 10000;
    v.push_back((int16_t)x);
  }
  return v;
}
// encoded with the given width
inline kit::Bytes raw(const std::vector<int16_t> &v, int bits = 16) {
  kit::Bytes b;
  for (int16_t x : v) { if (bits == 8) b.push_back((char)(x / 256)); else if (bits == 16) kit::put16(&b, x); else kit::put32(&b, x); }
  return b;
}
inline kit::Bytes wav(const kit::Bytes &raw, int bits = 16) { return kit::wav_header(bits, 16000, 1, raw.size()) + raw; }
inline std::string rep(char c, int n) { return std::string(n, c); }

}  // namespace model
#endif
