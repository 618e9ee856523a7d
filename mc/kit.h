// kit.h -- writers for the documented file formats, and small helpers shared by
// the harnesses. Nothing here depends on the code under test.
#ifndef VERIF_KIT_H_
#define VERIF_KIT_H_
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace kit {

typedef std::string Bytes;
inline void put32(Bytes *b, int32_t v) { b->append((const char *)&v, 4); }
inline void put16(Bytes *b, int16_t v) { b->append((const char *)&v, 2); }
inline void putf(Bytes *b, float v) { b->append((const char *)&v, 4); }

inline void write_file(const std::string &path, const Bytes &b) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) { perror(path.c_str()); _exit(78); }
  if (!b.empty() && fwrite(b.data(), 1, b.size(), f) != b.size()) { perror("write"); _exit(78); }
  fclose(f);
}
inline Bytes read_file(const std::string &path) {
  Bytes b; FILE *f = fopen(path.c_str(), "rb");
  if (!f) { perror(path.c_str()); _exit(78); }
  char buf[65536]; size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, n);
  fclose(f);
  return b;
}

// VEC0: name, section size, dim, data
inline void vec(Bytes *b, const std::vector<float> &v) {
  b->append("VEC0"); put32(b, (int32_t)v.size() * 4 + 4); put32(b, (int32_t)v.size());
  for (float x : v) putf(b, x);
}
inline void veci(Bytes *b, const std::vector<int32_t> &v) {
  b->append("VEC0"); put32(b, (int32_t)v.size() * 4 + 4); put32(b, (int32_t)v.size());
  for (int32_t x : v) put32(b, x);
}
// MAT0: name, size 8, rows, cols, one VEC0 per row
inline void mat(Bytes *b, int r, int c, const std::vector<float> &v) {
  b->append("MAT0"); put32(b, 8); put32(b, r); put32(b, c);
  for (int i = 0; i < r; ++i) vec(b, std::vector<float>(v.begin() + i * c, v.begin() + (i + 1) * c));
}
enum { kLinear = 0, kReLU = 1, kNormalize = 2, kSoftmax = 3, kSplice = 6, kBatchNorm = 7, kLogSoftmax = 8, kNarrow = 9 };
inline void nnet_head(Bytes *b, int left, int right, int layers) {
  b->append("NN02"); put32(b, left); put32(b, right); put32(b, layers);
}
inline void layer(Bytes *b, int type) { b->append("LAY0"); put32(b, type); }
inline void splice(Bytes *b, const std::vector<int> &ix) {
  layer(b, kSplice); put32(b, (int)ix.size()); for (int i : ix) put32(b, i);
}
inline void narrow(Bytes *b, int l, int r) { layer(b, kNarrow); put32(b, l); put32(b, r); }
// W is in x out, row-major
inline void linear(Bytes *b, int in, int out, const std::vector<float> &W, const std::vector<float> &bias) {
  layer(b, kLinear); mat(b, in, out, W); vec(b, bias);
}

struct Arc { int next, il, ol; float w; };
struct LmState { float final; std::vector<Arc> arcs; };   // arcs sorted by il
inline Bytes lm_fst(int start, const std::vector<LmState> &st) {
  Bytes b("pk::fst_0"); b.resize(32, '\0');
  int na = 0; for (auto &s : st) na += s.arcs.size();
  put32(&b, 12 + (int)st.size() * 8 + na * 16);
  put32(&b, st.size()); put32(&b, na); put32(&b, start);
  for (auto &s : st) putf(&b, s.final);
  int k = 0;
  for (auto &s : st) { put32(&b, s.arcs.empty() ? -1 : k); k += s.arcs.size(); }
  for (auto &s : st) for (auto &a : s.arcs) { put32(&b, a.next); put32(&b, a.il); put32(&b, a.ol); putf(&b, a.w); }
  return b;
}

// canonical 44-byte header
inline Bytes wav_header(int bits, int rate, int ch, int data_bytes) {
  Bytes b("RIFF"); put32(&b, 36 + data_bytes); b += "WAVEfmt "; put32(&b, 16); put16(&b, 1); put16(&b, ch);
  put32(&b, rate); put32(&b, rate * ch * bits / 8); put16(&b, ch * bits / 8); put16(&b, bits);
  b += "data"; put32(&b, data_bytes);
  return b;
}

// small deterministic generator (never used to sample the explored space, only
// to fill weights and waveforms with unremarkable values)
struct Lcg {
  uint64_t s; explicit Lcg(uint64_t seed) : s(seed * 2862933555777941757ULL + 3037000493ULL) {}
  uint32_t next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return s >> 33; }
  float uniform() { return next() / 2147483648.0f; }
};

}  // namespace kit
#endif
