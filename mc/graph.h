// graph.h -- writer and independent reader of OpenFst's constant format.
#ifndef VERIF_GRAPH_H_
#define VERIF_GRAPH_H_
#include <math.h>
#include <string>
#include <vector>
#include "kit.h"

namespace graph {
struct Arc { int32_t il, ol; float w; int32_t next; };
struct State { float fin; std::vector<Arc> arcs; };   // fin = INFINITY: not final
struct Graph { int64_t start; std::vector<State> st; Graph(): start(-1) {} };

inline void put64(kit::Bytes *b, int64_t v) { b->append((const char *)&v, 8); }
inline void puts(kit::Bytes *b, const std::string &s) { kit::put32(b, s.size()); *b += s; }
inline void align(kit::Bytes *b) { while (b->size() % 16) b->push_back('\0'); }
enum { kMagic = 2125659606 };
enum { kPlain = 0, kAlignedFlag = 1, kAlignedOld = 2 };   // version 2; version 2 + flag; version 1

inline kit::Bytes bytes(const Graph &g, int layout, const std::string &type = "const", const std::string &arc = "standard") {
  kit::Bytes b; kit::put32(&b, kMagic); puts(&b, type); puts(&b, arc);
  kit::put32(&b, layout == kAlignedOld ? 1 : 2); kit::put32(&b, layout == kAlignedFlag ? 4 : 0);
  put64(&b, 1);                                            // properties: expanded
  int64_t na = 0; for (auto &s : g.st) na += s.arcs.size();
  put64(&b, g.start); put64(&b, g.st.size()); put64(&b, na);
  if (layout) align(&b);
  int32_t pos = 0;
  for (auto &s : g.st) {
    int32_t ni = 0, no = 0; for (auto &a : s.arcs) { ni += a.il == 0; no += a.ol == 0; }
    kit::putf(&b, s.fin); kit::put32(&b, pos); kit::put32(&b, s.arcs.size()); kit::put32(&b, ni); kit::put32(&b, no);
    pos += s.arcs.size();
  }
  if (layout) align(&b);
  for (auto &s : g.st) for (auto &a : s.arcs) { kit::put32(&b, a.il); kit::put32(&b, a.ol); kit::putf(&b, a.w); kit::put32(&b, a.next); }
  return b;
}

// What a file means: readable or not, and its content. `unsure`: the format
// leaves it to the reader (unknown flags and versions).
struct Parsed { bool ok, unsure; Graph g; std::string why; };
inline Parsed parse(const kit::Bytes &b) {
  Parsed r; r.ok = r.unsure = false; size_t p = 0;
  auto fail = [&](const char *w) { r.why = w; return r; };
  auto have = [&](uint64_t n) { return b.size() - p >= n && p <= b.size(); };
  auto i32 = [&]() { int32_t v; memcpy(&v, b.data() + p, 4); p += 4; return v; };
  auto i64 = [&]() { int64_t v; memcpy(&v, b.data() + p, 8); p += 8; return v; };
  auto flt = [&]() { float v; memcpy(&v, b.data() + p, 4); p += 4; return v; };
  if (!have(4) || i32() != kMagic) return fail("not an FST");
  for (int k = 0; k < 2; ++k) {
    if (!have(4)) return fail("truncated"); int32_t n = i32();
    if (n < 0 || !have(n)) return fail("string size");
    std::string s = b.substr(p, n); p += n;
    if (s != (k ? "standard" : "const")) return fail("other type");
  }
  if (!have(40)) return fail("truncated");
  int32_t version = i32(), flags = i32(); i64(); int64_t start = i64(), ns = i64(), na = i64();
  if (version < 1) return fail("version");
  if (version > 2 || (flags & ~4)) r.unsure = true;
  bool al = version == 1 || (flags & 4);
  auto pad = [&]() { size_t q = (p + 15) / 16 * 16; if (q > b.size()) return false; p = q; return true; };
  if (al && !pad()) return fail("truncated");
  if (ns < 0 || ns > 0x7fffffff || (uint64_t)ns > (b.size() - p) / 20) return fail("state count");
  if (start < -1 || start >= ns) return fail("start state");
  std::vector<uint32_t> pos, cnt;
  for (int64_t s = 0; s < ns; ++s) { State x; x.fin = flt(); pos.push_back(i32()); cnt.push_back(i32()); i64(); r.g.st.push_back(x); }
  if (al && !pad()) return fail("truncated");
  if (na < 0 || (uint64_t)na > (b.size() - p) / 16) return fail("arc count");
  std::vector<Arc> as;
  for (int64_t a = 0; a < na; ++a) { Arc x; x.il = i32(); x.ol = i32(); x.w = flt(); x.next = i32(); as.push_back(x); }
  for (int64_t s = 0; s < ns; ++s) {
    if ((uint64_t)pos[s] + cnt[s] > (uint64_t)na) return fail("arcs of a state");
    r.g.st[s].arcs.assign(as.begin() + pos[s], as.begin() + pos[s] + cnt[s]);
  }
  r.g.start = start; r.ok = true;
  return r;
}
}  // namespace graph
#endif
