// refs.h -- reference parsers for the binary sections, configuration files and
// symbol tables. Independent of the code under test.
#ifndef VERIF_REFS_H_
#define VERIF_REFS_H_
#include <limits.h>
#include <map>
#include "kit.h"
#include "mc.h"
#include "nn.h"
namespace refs {
using kit::Bytes;
enum Kind { kVecF, kVecD, kVecI, kVecU, kMatF, kNet, kLm };
struct P {
  const Bytes &b; size_t p; bool ok;
  explicit P(const Bytes &b_): b(b_), p(0), ok(true) {}
  bool take(void *d, size_t n) {
    if (!ok || p + n > b.size()) { ok = false; return false; }
    if (d) memcpy(d, b.data() + p, n);
    p += n; return true;
  }
  int32_t i() { int32_t v = 0; take(&v, 4); return v; }
  void tag(const char *t) { char x[4]; if (take(x, 4) && memcmp(x, t, 4) != 0) ok = false; }
};
struct Ref { bool ok; size_t end; Bytes content; std::vector<nn::L> layers; int left, right; };
static void ref_vec(P *p, size_t elem, Bytes *out, int *dim) {
  p->tag("VEC0");
  int64_t sz = p->i(), n = p->i();
  if (!p->ok) return;
  if (n < 0 || sz != n * (int64_t)elem + 4) { p->ok = false; return; }
  if (p->p + n * elem > p->b.size()) { p->ok = false; return; }
  out->append(p->b, p->p, n * elem); p->p += n * elem; *dim = (int)n;
}
static void ref_mat(P *p, Bytes *out, int *r, int *c) {
  p->tag("MAT0");
  int64_t sz = p->i(); *r = p->i(); *c = p->i();
  if (!p->ok) return;
  if (sz != 8 || *r < 0 || *c < 0 || (*r == 0) != (*c == 0)) { p->ok = false; return; }
  for (int i = 0; i < *r && p->ok; ++i) { int d = 0; ref_vec(p, 4, out, &d); if (p->ok && d != *c) p->ok = false; }
}
static std::vector<float> floats(const Bytes &b) { std::vector<float> v(b.size() / 4); if (!v.empty()) memcpy(v.data(), b.data(), v.size() * 4); return v; }
static Ref ref(Kind k, const Bytes &b) {
  P p(b); Ref r; r.left = r.right = 0; int d = 0, c = 0;
  switch (k) {
    case kVecF: case kVecI: ref_vec(&p, 4, &r.content, &d); break;
    case kVecD: ref_vec(&p, 8, &r.content, &d); break;
    case kVecU: ref_vec(&p, 1, &r.content, &d); break;
    case kMatF: ref_mat(&p, &r.content, &d, &c); r.content = mc::fmt("%d %d:", d, c) + r.content; break;
    case kNet: {
      p.tag("NN02"); r.left = p.i(); r.right = p.i(); int n = p.i();
      if (n < 0) p.ok = false;
      for (int i = 0; i < n && p.ok; ++i) {
        p.tag("LAY0"); int t = p.i(); if (!p.ok) break;
        nn::L l(t);
        if (t == kit::kLinear) {
          Bytes w, bb; int dim = 0; ref_mat(&p, &w, &l.in, &l.out); if (!p.ok) break; ref_vec(&p, 4, &bb, &dim); if (!p.ok) break;
          if (dim == 0 || dim != l.out) { p.ok = false; break; }
          l.W = floats(w); l.b = floats(bb);
        } else if (t == kit::kSplice) {
          int m = p.i(); if (!p.ok) break; if (m <= 0) { p.ok = false; break; }
          for (int j = 0; j < m && p.ok; ++j) l.ix.push_back(p.i());
        } else if (t == kit::kBatchNorm) {
          Bytes s, o; int d1 = 0, d2 = 0; ref_vec(&p, 4, &s, &d1); if (!p.ok) break; ref_vec(&p, 4, &o, &d2); if (!p.ok) break;
          if (d1 == 0 || d1 != d2) { p.ok = false; break; }
          l.W = floats(s); l.b = floats(o);
        } else if (t == kit::kNarrow) {
          l.left = p.i(); l.right = p.i(); if (l.left < 0 || l.right < 0) p.ok = false;
        } else if (t != kit::kReLU && t != kit::kNormalize && t != kit::kSoftmax && t != kit::kLogSoftmax) p.ok = false;
        if (p.ok) r.layers.push_back(l);
      }
      break;
    }
    case kLm: {
      char name[32] = { 0 }; p.take(name, 32);
      name[31] = 0; if (p.ok && strcmp(name, "pk::fst_0") != 0) p.ok = false;
      int64_t sz = p.i(), ns = p.i(), na = p.i(), st = p.i(); if (!p.ok) break;
      if (ns < 0 || na < 0 || st < 0 || st >= ns || sz != 12 + ns * 8 + na * 16) { p.ok = false; break; }
      if (p.p + ns * 8 + na * 16 > b.size()) { p.ok = false; break; }
      for (int64_t i = 0; i < ns; ++i) { int32_t x; memcpy(&x, b.data() + p.p + ns * 4 + i * 4, 4); if (x < -1 || x >= na) p.ok = false; }
      for (int64_t i = 0; i < na; ++i) { int32_t x; memcpy(&x, b.data() + p.p + ns * 8 + i * 16, 4); if (x < 0 || x >= ns) p.ok = false; }
      r.content.assign(b, p.p, ns * 8 + na * 16); r.content += mc::fmt(" %d", (int)st);
      p.p += ns * 8 + na * 16;
      break;
    }
  }
  r.ok = p.ok; r.end = p.p;
  return r;
}

static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string trim(const std::string &s) { size_t b = 0, e = s.size(); while (b < e && sp(s[b])) ++b; while (e > b && sp(s[e - 1])) --e; return s.substr(b, e - b); }
static std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static std::vector<std::string> lines_of(const Bytes &b) {
  std::vector<std::string> v; std::string cur; bool open = false;
  for (char c : b) { if (c == '\n') { v.push_back(cur); cur.clear(); open = false; } else { cur += c; open = true; } }
  if (open) v.push_back(cur);
  return v;
}
struct RConf { bool ok, vague; std::map<std::string, std::string> t; };
static RConf ref_conf(const Bytes &b) {
  RConf r; r.ok = true; r.vague = false;
  for (std::string l : lines_of(b)) {
    l = trim(l);
    if (l.empty() || l[0] == '#') continue;
    size_t e = l.find('=');
    if (e == std::string::npos || l.find('=', e + 1) != std::string::npos || trim(l.substr(e + 1)).empty()) { r.ok = false; break; }
    std::string k = lower(trim(l.substr(0, e)));
    if (k.empty()) { r.vague = true; continue; }
    r.t[k] = trim(l.substr(e + 1));
  }
  return r;
}
static bool ref_int(const std::string &s, int *v) {
  size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  if (i == s.size()) return false;
  __int128 x = 0; for (size_t k = i; k < s.size(); ++k) { if (s[k] < '0' || s[k] > '9') return false; x = x * 10 + (s[k] - '0'); if (x > (__int128)1 << 100) return false; }
  if (s[0] == '-') x = -x;
  if (x < INT_MIN || x > INT_MAX) return false;
  *v = (int)x; return true;
}
// a symbol table: every line "word id", with <s> and </s>. `vague`: spacing or
// numbers that the format does not define.
struct RSym { bool ok, vague; std::map<int, std::string> w; };
static RSym ref_sym(const Bytes &b) {
  RSym r; r.ok = true; r.vague = false; bool bos = false, eos = false;
  for (std::string l : lines_of(b)) {
    if (!l.empty() && l[l.size() - 1] == '\r') l.resize(l.size() - 1);
    size_t s = l.find(' ');
    bool odd = l.empty() || l != trim(l) || l.find("  ") != std::string::npos || l.find('\t') != std::string::npos;
    for (char c : l) if (c == 0 || c == '\r' || c == '\v' || c == '\f') odd = true;
    if (odd) { r.vague = true; continue; }
    if (s == std::string::npos || l.find(' ', s + 1) != std::string::npos) { r.ok = false; continue; }
    std::string n = l.substr(s + 1); bool dec = true; for (char c : n) if (c < '0' || c > '9') dec = false;
    if (!dec) { char c = n[0]; if (c == '+' || n.substr(0, 2) == "0x" || n.substr(0, 2) == "0X") r.vague = true; else r.ok = false; continue; }
    if (n.size() > 1 && n[0] == '0') { r.vague = true; continue; }
    if (n.size() > 7) { if (n.size() < 9) r.vague = true; else r.ok = false; continue; }
    std::string w = l.substr(0, s); bos |= w == "<s>"; eos |= w == "</s>"; r.w[atoi(n.c_str())] = w;
  }
  if (!bos || !eos) r.ok = false;
  return r;
}
}  // namespace refs
#endif
