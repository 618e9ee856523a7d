// C17: binary sections against a reference parser: round trips, truncation at
// every byte, every header byte and header field replaced.
#include "refs.h"
#include "mem.h"
#include <limits.h>
#include <memory>
#include "fst.h"
#include "matrix.h"
#include "nnet.h"
#include "util.h"
#include "vector.h"
using namespace pocketkaldi;
using kit::Bytes;

using namespace refs;
static const char *KN[] = { "vector<float>", "vector<double>", "vector<int>", "vector<uint8>", "matrix<float>", "network", "language model" };

// ---- the code under test --------------------------------------------------
template<typename T> static Status rd_vec(util::ReadableFile *fd, Bytes *o) {
  Vector<T> v(3);                                    // not empty before
  Status s = v.Read(fd);
  if (s.ok() && v.Dim() > 0) o->assign((const char *)v.Data(), v.Dim() * sizeof(T));
  return s;
}
static void check(Kind k, const Bytes &body, bool tail, const char *what) {
  static const char T[] = "tail!";
  Bytes b = body; if (tail) b += T;
  Ref r = ref(k, b);
  std::string p = mc::scratch() + "/sec.bin";
  kit::write_file(p, b);
  Status s; Bytes got; 
  size_t before = heap_bytes();
  {
    util::ReadableFile fd; Status so = fd.Open(p);
    MC_CHECK(so.ok(), "open failed");
    std::unique_ptr<Nnet> net; std::unique_ptr<Fst> fst; 
    switch (k) {
      case kVecF: s = rd_vec<float>(&fd, &got); break;
      case kVecD: s = rd_vec<double>(&fd, &got); break;
      case kVecI: s = rd_vec<int32_t>(&fd, &got); break;
      case kVecU: s = rd_vec<uint8_t>(&fd, &got); break;
      case kMatF: {
        Matrix<float> m(2, 3); s = m.Read(&fd);
        if (s.ok()) { got = mc::fmt("%d %d:", m.NumRows(), m.NumCols()); for (int i = 0; i < m.NumRows(); ++i) got.append((const char *)m.Row(i).Data(), m.NumCols() * 4); }
        break;
      }
      case kNet: net.reset(new Nnet()); s = net->Read(&fd); break;
      case kLm: fst.reset(new Fst()); s = fst->Read(&fd); break;
    }
    MC_CHECK(s.ok() == r.ok, "%s %s: %s, but the section is %s (%s)", KN[k], what, s.ok() ? "accepted" : "rejected", r.ok ? "well-formed" : "damaged", s.what().c_str());
    if (!s.ok()) { MC_CHECK(!s.what().empty(), "%s: rejected without a message", KN[k]); }
    else {
      if (k <= kMatF) MC_CHECK(got == r.content, "%s %s: contents differ from those written", KN[k], what);
      // the reader stops at the end of the section
      size_t rest = b.size() - r.end; char c;
      size_t n = 0; while (n <= rest && fd.Read(&c, 1).ok()) { MC_CHECK(n < rest && c == b[r.end + n], "%s %s: the reader did not stop at the end of the section", KN[k], what); ++n; }
      MC_CHECK(n == rest, "%s %s: the reader consumed %zu bytes too many", KN[k], what, rest - n);
      if (k == kNet) {
        MC_CHECK(net->left_context() == r.left && net->right_context() == r.right, "%s: context %d/%d, expected %d/%d", what, net->left_context(), net->right_context(), r.left, r.right);
        int w = 2, rows = 3; nn::M x(rows, w); bool fits = true;
        for (int i = 0; i < rows * w; ++i) x.d[i] = i * 0.5 - 1;
        nn::M y = x;
        for (auto &l : r.layers) {
          if (l.type == kit::kLinear && l.in != y.c) fits = false;
          if (l.type == kit::kBatchNorm && (int)l.W.size() != y.c) fits = false;
          if (l.type == kit::kNarrow && (l.left > 1000 || l.right > 1000)) fits = false;
          if (l.type == kit::kSplice) for (int i : l.ix) if (i < -100000 || i > 100000) fits = false;
          if (!fits) break;
          y = l.apply(y, NULL);
          for (double v : y.d) if (!(fabs(v) < 1e6)) fits = false;
          if (!fits) break;
        }
        if (fits) {
          Matrix<float> in(rows, w), out; for (int i = 0; i < rows * w; ++i) in(i / w, i % w) = x.d[i];
          net->Propagate(in, &out);
          MC_CHECK(out.NumRows() == y.r && out.NumCols() == y.c, "%s: network gives %d x %d, expected %d x %d", what, out.NumRows(), out.NumCols(), y.r, y.c);
          for (int i = 0; i < y.r; ++i) for (int j = 0; j < y.c; ++j) {
            double want = y.at(i, j), g = out(i, j);
            if (!(fabs(want) < 1e30)) continue;
            MC_CHECK(fabs(g - want) <= 1e-3 * (1 + fabs(want)), "%s: network output (%d,%d) is %g, expected %g", what, i, j, g, want);
          }
        }
      }
      if (k == kLm) {
        int ns = 0, na = 0, st = 0; memcpy(&ns, b.data() + 36, 4); memcpy(&na, b.data() + 40, 4); memcpy(&st, b.data() + 44, 4);
        MC_CHECK(fst->StartState() == st, "%s: start state %d, expected %d", what, fst->StartState(), st);
        std::vector<int> ix(ns); memcpy(ix.data(), b.data() + 48 + ns * 4, ns * 4);
        bool canon = true; int last = 0; for (int x : ix) if (x >= 0) { if (x < last) canon = false; last = std::max(last, x + 1); }
        { int first = -1; for (int x : ix) if (x >= 0) { first = x; break; } if (first > 0) canon = false; }
        for (int i = 0; i < ns; ++i) {
          uint32_t want; memcpy(&want, b.data() + 48 + i * 4, 4); float f = fst->Final(i); uint32_t g; memcpy(&g, &f, 4);
          MC_CHECK(g == want, "%s: final weight of state %d is %g", what, i, f);
          if (!canon) continue;
          int e = na; for (int j = i + 1; j < ns; ++j) if (ix[j] >= 0) { e = ix[j]; break; }
          Fst::ArcIterator it = fst->IterateArcs(i);
          const FstArc *a; int n = 0; const int beg = ix[i] < 0 ? 0 : ix[i], cnt = ix[i] < 0 ? 0 : e - beg;
          while ((a = it.Next()) != NULL) {
            MC_CHECK(n < cnt, "%s: state %d has more than %d arcs", what, i, cnt);
            int32_t t[4]; memcpy(t, b.data() + 48 + ns * 8 + (beg + n) * 16, 16); uint32_t w; memcpy(&w, &a->weight, 4);
            MC_CHECK(a->next_state == t[0] && a->input_label == t[1] && a->output_label == t[2] && w == (uint32_t)t[3], "%s: arc %d of state %d differs", what, n, i);
            ++n;
          }
          MC_CHECK(n == cnt, "%s: state %d has %d arcs, expected %d", what, i, n, cnt);
        }
      }
    }
  }
  Status().what(); 
  size_t held = s.what().capacity() + 64;
  size_t after = heap_bytes();
  MC_CHECK(after <= before + b.size() + r.content.size() + held + 4096, "%s %s: %zu bytes are not released", KN[k], what, after - before);
  mc::step();
  mc::outcome(mc::fmt("%d %d %.40s", (int)k, (int)s.ok(), s.what().c_str()));
  mc::state(mc::fnv(b, k));
  mc::validated();
}

static uint32_t odd(int i) { static const uint32_t v[] = { 0, 0x3f800000, 0x80000000, 0x7f800000, 0x7fc00001, 0xffc12345, 1, 0x00ff0a0d, 0x1a1a1a1a, 0xffffffff }; return v[i % 10]; }
static Bytes vec_bytes(int elem, int dim) {
  Bytes b("VEC0"); kit::put32(&b, dim * elem + 4); kit::put32(&b, dim);
  Bytes d; for (int i = 0; (int)d.size() < dim * elem; ++i) kit::put32(&d, odd(i)); d.resize(dim * elem);
  return b + d;
}
static Bytes mat_bytes(int r, int c) {
  Bytes b("MAT0"); kit::put32(&b, 8); kit::put32(&b, r); kit::put32(&b, c);
  for (int i = 0; i < r; ++i) { Bytes v("VEC0"); kit::put32(&v, c * 4 + 4); kit::put32(&v, c); for (int j = 0; j < c; ++j) kit::put32(&v, odd(i * 3 + j)); b += v; }
  return b;
}
static nn::L layer_of(int kind, int i) {
  switch (kind) {
    case 0: return nn::linear(2, 2, { 1, -0.5f, 0.25f, (float)i }, { 0.5f, -1 });
    case 1: return nn::L(kit::kReLU);
    case 2: return nn::L(kit::kNormalize);
    case 3: return nn::L(kit::kSoftmax);
    case 4: return nn::splice({ -1 });
    case 5: return nn::batchnorm({ 2, 0.5f }, { -1, (float)i });
    case 6: return nn::L(kit::kLogSoftmax);
    default: return nn::narrow(1, 0);
  }
}
static Bytes lm_bytes(int id) {
  std::vector<kit::LmState> st;
  switch (id) {
    case 0: st = { { 0.5f, {} } }; return kit::lm_fst(0, st);
    case 1: st = { { INFINITY, { { 1, 1, 1, 0.5f }, { 0, 2, 2, -1.f } } }, { 0.25f, {} }, { 1.0f, { { 0, 0, 0, 3.f } } } }; return kit::lm_fst(2, st);
    default: st = { { 1, {} }, { 2, {} }, { 3, { { 3, 4, 5, 6.f }, { 2, 7, 8, 9.f }, { 0, 9, 1, 1.f } } }, { INFINITY, { { 0, 1, 2, 3.f } } }, { 5, {} } }; return kit::lm_fst(3, st);
  }
}
struct Sec { Kind k; Bytes b; std::vector<size_t> fields; };   // fields: offsets of 32-bit header fields
static Sec section(bool small) {
  Sec s; s.k = (Kind)mc::choose(7);
  static const int E[] = { 4, 8, 4, 1 };
  if (s.k <= kVecU) { s.b = vec_bytes(E[s.k], mc::choose(small ? 4 : 8)); s.fields = { 0, 4, 8 }; }
  else if (s.k == kMatF) {
    int r = mc::choose(small ? 3 : 4), c = r == 0 ? 0 : 1 + mc::choose(small ? 2 : 5);
    s.b = mat_bytes(r, c); s.fields = { 0, 4, 8, 12 };
    for (int i = 0; i < r; ++i) for (int f = 0; f < 3; ++f) s.fields.push_back(16 + i * (12 + 4 * c) + f * 4);
  } else if (s.k == kNet) {
    int n = mc::choose(3); std::vector<nn::L> ls; for (int i = 0; i < n; ++i) ls.push_back(layer_of(mc::choose(8), i));
    s.b = nn::net_bytes(1, 2, ls);
    for (size_t o = 0; o + 4 <= s.b.size(); o += 4) s.fields.push_back(o);
  } else {
    s.b = lm_bytes(mc::choose(3));
    for (size_t o = 0; o + 4 <= s.b.size(); o += 4) s.fields.push_back(o);
  }
  mc::note("%s of %zu bytes", KN[s.k], s.b.size());
  return s;
}
static void intact() { Sec s = section(false); check(s.k, s.b, mc::flip(), "intact"); }
static void sizes(int maxn) {
  int k = mc::choose(6), n = mc::choose(maxn);
  if (k < 4) { static const int E[] = { 4, 8, 4, 1 }; check((Kind)k, vec_bytes(E[k], n), true, "intact"); }
  else if (n > 0) { int m = 1 + mc::choose(40); check(kMatF, k == 4 ? mat_bytes(n, m) : mat_bytes(m, n), true, "intact"); }
}
static void truncated() {
  Sec s = section(false);
  size_t n = mc::choose((int)s.b.size());
  mc::note("cut to %zu", n);
  check(s.k, s.b.substr(0, n), false, mc::fmt("cut to %zu of %zu bytes", n, s.b.size()).c_str());
}
static void bytes(int nval) {
  Sec s = section(true);
  size_t o = mc::choose((int)s.b.size());
  static const unsigned char V[] = { 0, 1, 2, 3, 4, 7, 8, 12, 16, 31, 32, 64, 127, 128, 129, 192, 254, 255, 'V', 'v', '0', 10 };
  int i = mc::choose(nval);
  unsigned char v = nval == 256 ? i : V[i], old = s.b[o];
  s.b[o] = (char)v;
  check(s.k, s.b, mc::flip(), mc::fmt("byte %zu changed from %d to %d", o, old, v).c_str());
}
static void fields2(bool two) {
  Sec s = section(true);
  if (two && mc::quick()) {
    if (s.k == kNet && s.fields.size() > 16) return;
    if (s.fields.size() > 20) s.fields.resize(20);
  }
  static const int32_t V[] = { 0, -1, 1, 2, 3, INT_MIN, INT_MAX, 0x10000, 1000000, -4, 0x40000000 };
  std::string d;
  for (int t = 0; t < (two ? 2 : 1); ++t) {
    size_t o = s.fields[mc::choose((int)s.fields.size())];
    int32_t old; memcpy(&old, s.b.data() + o, 4);
    int i = mc::choose(16); int32_t v = i < 11 ? V[i] : i == 11 ? old + 1 : i == 12 ? old - 1 : i == 13 ? old * 2 : i == 14 ? old + 4 : old - 4;
    memcpy(&s.b[o], &v, 4);
    d += mc::fmt("field at %zu %d -> %d ", o, old, v);
  }
  mc::note("%s", d.c_str());
  check(s.k, s.b, false, d.c_str());
}
// sizes that agree with each other but not with the file
static void lies() {
  static const int64_t N[] = { 8, 100, 1000000, 0x00ffffff, 0x08000000, 0x10000000, 0x1ffffffe };
  int64_t n = N[mc::choose(7)]; int k = mc::choose(6);
  Bytes b;
  if (k < 4) { static const int E[] = { 4, 8, 4, 1 }; if (n * E[k] + 4 > INT_MAX) return; b = "VEC0"; kit::put32(&b, n * E[k] + 4); kit::put32(&b, n); b.append(20, 'x'); check((Kind)k, b, false, "dimension beyond the file"); }
  else if (k == 4) { b = "MAT0"; kit::put32(&b, 8); bool f = mc::flip(); kit::put32(&b, f ? n : 3); kit::put32(&b, f ? 3 : n); b += vec_bytes(4, 3) + vec_bytes(4, 3); check(kMatF, b, false, "size beyond the file"); }
  else { if (n > 1000000) return; b = "pk::fst_0"; b.resize(32, 0); bool f = mc::flip(); int64_t ns = f ? n : 1, na = f ? 0 : n; kit::put32(&b, 12 + ns * 8 + na * 16); kit::put32(&b, ns); kit::put32(&b, na); kit::put32(&b, 0); b.append(40, 0); check(kLm, b, false, "size beyond the file"); }
}

// sections of up to megabytes: whole, and cut at several places
static void large() {
  static const int D[] = { 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 300000, 1000003 };
  int k = mc::choose(7); Bytes b; Kind kind = (Kind)k; std::string what;
  auto word = [](int i) { uint32_t x = (uint32_t)i * 2654435761u; return (int32_t)(x ^ x >> 15); };
  auto vec = [&](int elem, int dim, int salt) { Bytes v("VEC0"); kit::put32(&v, dim * elem + 4); kit::put32(&v, dim); size_t h = v.size(), n = (size_t)dim * elem; v.reserve(h + n + 4); for (int i = 0; v.size() < h + n; ++i) kit::put32(&v, word(i + salt)); v.resize(h + n); return v; };
  if (k <= kVecU) { static const int E[] = { 4, 8, 4, 1 }; int d = D[mc::choose(19)]; b = vec(E[k], d, 0); what = mc::fmt("dimension %d", d); }
  else if (k == kMatF) {
    static const int S[][2] = { { 1, 100000 }, { 100000, 1 }, { 300, 300 }, { 5000, 40 }, { 2, 65536 }, { 1025, 1023 }, { 65537, 3 }, { 4096, 64 }, { 257, 129 } };
    int i = mc::choose(9), r = S[i][0], c = S[i][1]; b = "MAT0"; kit::put32(&b, 8); kit::put32(&b, r); kit::put32(&b, c); for (int j = 0; j < r; ++j) b += vec(4, c, j * c); what = mc::fmt("%d x %d", r, c);
  } else if (k == kNet) {
    int i = mc::choose(6), w = i == 0 ? 257 : i == 1 ? 1000 : 2, n = i == 2 ? 64 : i == 3 ? 200 : i == 4 ? 1000 : 1; std::vector<nn::L> ls;
    if (w > 2) { std::vector<float> W(2 * w), V(w * 2), x(w), y(2, 0.5f); for (int j = 0; j < 2 * w; ++j) { W[j] = (j * 37 % 101 - 50) / 64.f; V[j] = (j * 53 % 97 - 48) / 1024.f; } for (int j = 0; j < w; ++j) x[j] = j % 7 - 3; ls.push_back(nn::linear(2, w, W, x)); ls.push_back(nn::L(kit::kReLU)); ls.push_back(nn::linear(w, 2, V, y)); }
    else if (i == 5) { std::vector<int> ix; for (int j = 0; j < 1500; ++j) ix.push_back(j % 5 - 2); ls.push_back(nn::splice(ix)); }
    else for (int j = 0; j < n; ++j) ls.push_back(j % 3 == 0 ? nn::linear(2, 2, { 0, 1, 1, 0 }, { 0.0625f * (j % 5), -0.0625f }) : nn::L(j % 3 == 1 ? kit::kReLU : kit::kNormalize));
    b = nn::net_bytes(1, 2, ls); what = mc::fmt("%zu layers of width %d", ls.size(), w);
  } else {
    int ns = mc::pick(std::vector<int>{ 1, 300, 4097, 20000 }), na = mc::pick(std::vector<int>{ 0, 3, 5000 }); if (na == 5000 && ns > 300) na = 20;
    std::vector<kit::LmState> st(ns);
    for (int i = 0; i < ns; ++i) { st[i].final = i % 3 ? i * 0.25f : INFINITY; for (int j = 0; j < (ns == 20000 && i % 2 ? 0 : na); ++j) st[i].arcs.push_back({ (i * 7 + j) % ns, j + (i % 2), 70000 + j, j * 0.5f - i }); }
    b = kit::lm_fst(ns - 1, st); what = mc::fmt("%d states of %d arcs", ns, na);
  }
  int cut = mc::choose(6); size_t n = b.size();
  size_t at = cut == 0 ? n : cut == 1 ? n - 1 : cut == 2 ? n / 2 : cut == 3 ? n - std::min<size_t>(n - 1, 4096) : cut == 4 ? std::min<size_t>(n - 1, 65536) : n;
  mc::note("%s %s, %zu of %zu bytes", KN[k], what.c_str(), at, n);
  check(kind, b.substr(0, at), cut == 5, (what + mc::fmt(", %zu of %zu bytes", at, n)).c_str());
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("intact", "vectors of 4 element types, matrices, networks of up to 2 layers of 8 kinds, 3 language models; odd bit patterns", [=] { intact(); });
  mc::add("sizes", "every vector dimension and matrix shape up to the bound", [=] { sizes(q ? 70 : 300); });
  mc::add("truncated", "every section cut at every byte", [=] { truncated(); });
  mc::add("bytes", mc::fmt("every byte of every section replaced by %d values", q ? 22 : 256), [=] { bytes(q ? 22 : 256); });
  mc::add("field", "every 32-bit field replaced by 16 values", [=] { fields2(false); });
  mc::add("fields", q ? "every pair of the first 20 32-bit fields replaced by 16 x 16 values (networks up to 64 bytes)" : "every pair of 32-bit fields replaced by 16 x 16 values", [=] { fields2(true); });
  mc::add("lies", "sizes that are consistent with each other but larger than the file", [=] { lies(); });
  mc::add("large", "vectors of up to a million values, matrices of 9 shapes, networks of up to 1000 layers, language models of up to 20000 states; whole and cut at 5 places", [=] { large(); });
  return mc::main(argc, argv);
}
