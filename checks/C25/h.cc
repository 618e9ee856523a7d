// C25: the real loader of decoding graphs on every small graph in every layout,
// every truncation, every damaged byte and header field.
#include "graph.h"
#include "kit.h"
#include "mc.h"
#include "mem.h"
#include <memory>
#include <fst/fstlib.h>
typedef fst::ConstFst<fst::StdArc> CF;
using graph::Graph;

static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; }
// the loaded graph through the interface the decoder uses
static void compare(const CF &f, const Graph &g) {
  MC_CHECK(f.Start() == g.start, "start state %d, expected %d", (int)f.Start(), (int)g.start);
  MC_CHECK(f.NumStates() == (int)g.st.size(), "%d states, expected %d", (int)f.NumStates(), (int)g.st.size());
  const fst::Fst<fst::StdArc> &base = f;
  for (int s = 0; s < (int)g.st.size(); ++s) {
    MC_CHECK(same(base.Final(s).Value(), g.st[s].fin), "state %d: final weight %g, expected %g", s, base.Final(s).Value(), g.st[s].fin);
    MC_CHECK(f.NumArcs(s) == g.st[s].arcs.size(), "state %d: %d arcs, expected %d", s, (int)f.NumArcs(s), (int)g.st[s].arcs.size());
    size_t k = 0;
    for (fst::ArcIterator<fst::Fst<fst::StdArc>> it(base, s); !it.Done(); it.Next(), ++k) {
      MC_CHECK(k < g.st[s].arcs.size(), "state %d: too many arcs", s);
      fst::StdArc a = it.Value(); const graph::Arc &w = g.st[s].arcs[k];
      MC_CHECK(a.ilabel == w.il && a.olabel == w.ol && same(a.weight.Value(), w.w) && a.nextstate == w.next, "state %d arc %d: %d:%d/%g->%d, expected %d:%d/%g->%d", s, (int)k, a.ilabel, a.olabel, a.weight.Value(), a.nextstate, w.il, w.ol, w.w, w.next);
    }
    MC_CHECK(k == g.st[s].arcs.size(), "state %d: only %d of %d arcs", s, (int)k, (int)g.st[s].arcs.size());
    mc::step();
  }
}
static std::unique_ptr<CF> load(const kit::Bytes &b) {
  std::string p = mc::scratch() + "/g.fst"; kit::write_file(p, b);
  return std::unique_ptr<CF>(CF::Read(p));
}
// the oracle decides what a file means
static void judge(const kit::Bytes &b, const char *what) {
  graph::Parsed want = graph::parse(b);
  std::unique_ptr<CF> f = load(b);
  if (want.unsure) { mc::outcome("unsure"); }
  else if (!want.ok) { MC_CHECK(!f, "%s: a file with a bad %s is loaded", what, want.why.c_str()); mc::outcome("rejected: " + want.why); }
  else { MC_CHECK((bool)f, "%s: a well-formed graph is rejected", what); compare(*f, want.g); mc::outcome("read"); }
  mc::state(mc::fnv(b)); mc::validated();
}
static const float W[] = { 0.0f, 1.5f, -2.25f, 1e-30f, INFINITY };
static void small(int maxstates, int maxarcs) {
  Graph g; int n = mc::choose(maxstates + 1), layout = mc::choose(3);
  g.start = n ? mc::choose(n + 1) - 1 : -1;
  int arcs = n ? mc::choose(maxarcs + 1) : 0;
  for (int i = 0; i < n; ++i) { graph::State s; s.fin = mc::pick(std::vector<float>{ INFINITY, 0.0f, 3.25f }); g.st.push_back(s); }
  int src = 0;
  for (int k = 0; k < arcs; ++k) {
    src += mc::choose(n - src);              // sources in order
    graph::Arc a; a.il = mc::choose(2) * 7; a.ol = mc::choose(2) * 300; a.w = W[mc::choose(2) + 1]; a.next = mc::choose(n); g.st[src].arcs.push_back(a);
  }
  mc::note("%d states, %d arcs, start %d, layout %d", n, arcs, (int)g.start, layout);
  kit::Bytes b = graph::bytes(g, layout);
  std::unique_ptr<CF> f = load(b);
  MC_CHECK((bool)f, "a well-formed graph with %d states and %d arcs is rejected", n, arcs);
  compare(*f, g); mc::state(mc::fnv(b)); mc::outcome(mc::fmt("%d %d %d", n, arcs, (int)g.start)); mc::validated();
}
// graph number k of a list used for damage
static Graph example(int k) {
  Graph g; int n = k == 0 ? 1 : k == 1 ? 2 : k == 2 ? 3 : k == 3 ? 6 : 40;
  g.start = n / 2;
  for (int s = 0; s < n; ++s) {
    graph::State st; st.fin = s % 2 ? INFINITY : 0.5f * s;
    for (int a = 0; a < (s * 3 + k) % 4; ++a) { graph::Arc x = { a * 5, (s + a) % 3, W[(s + a) % 5], (s * 7 + a) % n }; st.arcs.push_back(x); }
    g.st.push_back(st);
  }
  return g;
}
static void sizes(int maxstates) {
  int n = mc::choose(maxstates + 1), layout = mc::choose(3), per = mc::choose(4); Graph g; g.start = n - 1;
  for (int s = 0; s < n; ++s) {
    graph::State st; st.fin = (s % 3) ? 0.25f * s : INFINITY;
    for (int a = 0; a < (per == 3 ? s % 5 : per); ++a) { graph::Arc x = { s * 3 + a, a ? 0 : s, 0.125f * a - s, (s * 31 + a) % n }; st.arcs.push_back(x); }
    g.st.push_back(st);
  }
  judge(graph::bytes(g, layout), mc::fmt("%d states", n).c_str());
}
static void truncated() {
  int k = mc::choose(5), layout = mc::choose(3); kit::Bytes b = graph::bytes(example(k), layout);
  int n = mc::choose(b.size() + 1);
  mc::note("graph %d layout %d, %d of %d bytes", k, layout, n, (int)b.size());
  std::unique_ptr<CF> f = load(b.substr(0, n));
  if (n < (int)b.size()) MC_CHECK(!f, "a file truncated to %d of %d bytes is loaded", n, (int)b.size());
  else { MC_CHECK((bool)f, "a whole file is rejected"); compare(*f, example(k)); }
  mc::state(mc::fnv(mc::fmt("%d %d %d", k, layout, n))); mc::validated();
}
static void damaged(int values) {
  int k = mc::choose(4), layout = mc::choose(3); kit::Bytes b = graph::bytes(example(k), layout);
  int i = mc::choose(b.size()), v = values == 256 ? mc::choose(256) : mc::pick(std::vector<int>{ 0, 1, 2, 127, 128, 255, (b[i] ^ 1) & 255, (b[i] ^ 128) & 255, (b[i] + 1) & 255, (b[i] - 1) & 255 });
  b[i] = v; mc::note("graph %d layout %d byte %d = %d", k, layout, i, v);
  judge(b, mc::fmt("byte %d = %d", i, v).c_str());
}
// header fields, one and two at a time
static void fields(bool two) {
  static const struct { int off, size; } F[] = { { 0, 4 }, { 4, 4 }, { 13, 4 }, { 25, 4 }, { 29, 4 }, { 41, 8 }, { 49, 8 }, { 57, 8 }, { 69, 4 }, { 73, 4 } };
  static const int64_t V[] = { 0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 65536, 0x7fffffff, -0x7fffffffLL - 1, 0x7fffffffffffffffLL, -0x7fffffffffffffffLL - 1, 0x100000001LL, 1LL << 40, 0x0ccccccccccccccdLL, 0x1000000000000000LL };
  int k = mc::choose(3), layout = mc::choose(3); kit::Bytes b = graph::bytes(example(k), layout);
  int a = mc::choose(10), c = two ? mc::choose(10) : a;
  for (int f : { a, c }) {
    int64_t v = V[mc::choose(21)]; if (F[f].off + F[f].size > (int)b.size()) continue;
    mc::note("byte %d: %lld", F[f].off, (long long)v);
    memcpy(&b[F[f].off], &v, F[f].size); if (!two) break;
  }
  judge(b, "header field");
}
static void types() {
  static const char *T[] = { "const", "vector", "const8", "const16", "Const", "", "compact", "const ", "ngram" }, *A[] = { "standard", "log", "log64", "", "Standard", "standard " };
  int t = mc::choose(9), a = mc::choose(6), layout = mc::choose(3), k = mc::choose(3);
  mc::note("type '%s' arcs '%s'", T[t], A[a]);
  judge(graph::bytes(example(k), layout, T[t], A[a]), "types");
}
// what OpenFst itself writes, from a mutable graph
static void written() {
  int k = mc::choose(5); bool al = mc::flip(); Graph g = example(k);
  fst::StdVectorFst v; for (size_t i = 0; i < g.st.size(); ++i) v.AddState();
  v.SetStart(g.start);
  for (size_t i = 0; i < g.st.size(); ++i) { if (g.st[i].fin != INFINITY) v.SetFinal(i, g.st[i].fin); for (auto &a : g.st[i].arcs) v.AddArc(i, fst::StdArc(a.il, a.ol, a.w, a.next)); }
  std::ostringstream o; fst::FstWriteOptions wo("x"); wo.align = al;
  MC_CHECK(CF(v).Write(o, wo), "writing failed");
  std::unique_ptr<CF> f = load(o.str());
  MC_CHECK((bool)f, "a graph written by OpenFst is rejected"); compare(*f, g);
  graph::Parsed p = graph::parse(o.str()); MC_CHECK(p.ok && !p.unsure, "the reference reader rejects it: %s", p.why.c_str());
  mc::state(mc::fnv(o.str())); mc::validated();
}
static void missing() {
  int k = mc::choose(3); std::string p = mc::scratch() + "/none";
  if (k == 1) { p = mc::scratch() + "/dir"; mkdir(p.c_str(), 0755); }
  if (k == 2) { p = mc::scratch() + "/empty"; kit::write_file(p, ""); }
  std::unique_ptr<CF> f(CF::Read(p)); MC_CHECK(!f, "something is loaded from a %s", k == 0 ? "missing file" : k == 1 ? "directory" : "empty file"); mc::validated();
}
// graphs of the size the decoder is used with, whole and cut
static void large() {
  static const int NS[] = { 1000, 4097, 32769, 65535, 65536, 65537, 100000, 1, 3 };
  int k = mc::choose(9), n = NS[k], layout = mc::choose(3), per = k == 7 ? mc::pick(std::vector<int>{ 4096, 65536, 100001 }) : k == 8 ? 70000 : 1 + 3 * mc::choose(2), cut = mc::choose(5); Graph g; g.start = n / 2;
  for (int s = 0; s < n; ++s) {
    graph::State st; st.fin = (s % 3) ? 0.25f * s : INFINITY; int c = k >= 7 ? per - s : (s * 7 + s / 100) % (per + 1);
    for (int a = 0; a < c; ++a) { graph::Arc x = { (s * 3 + a) % 300000, a % 2 ? 0 : 200000 - a, 0.125f * (a % 1000) - s, (int)((s * 31ll + a * 7) % n) }; st.arcs.push_back(x); }
    g.st.push_back(st);
  }
  kit::Bytes b = graph::bytes(g, layout); size_t z = b.size(), at = cut == 0 ? z : cut == 1 ? z - 1 : cut == 2 ? z / 2 : cut == 3 ? z - std::min<size_t>(z / 2, 4096) : z - 16;
  mc::note("%d states, %d arcs each, layout %d, %zu of %zu bytes", n, per, layout, at, z);
  judge(b.substr(0, at), mc::fmt("%d states, %zu of %zu bytes", n, at, z).c_str());
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("small", mc::fmt("all graphs of up to 2 states and %d arcs x 3 layouts x all start states and final weights", q ? 2 : 3), [=] { small(2, q ? 2 : 3); });
  mc::add("sizes", mc::fmt("every state count up to %d x 4 arc counts x 3 layouts", q ? 120 : 1000), [=] { sizes(q ? 120 : 1000); });
  mc::add("written", "graphs written by OpenFst, aligned and not", [=] { written(); });
  mc::add("types", "9 graph types x 6 arc types x 3 layouts", [=] { types(); });
  mc::add("missing", "missing file, directory, empty file", [=] { missing(); });
  mc::add("truncated", "5 graphs x 3 layouts cut at every byte", [=] { truncated(); });
  mc::add("damaged", mc::fmt("4 graphs x 3 layouts, every byte replaced by %d values", q ? 10 : 256), [=] { damaged(q ? 10 : 256); });
  mc::add("field", "10 header fields x 21 values", [=] { fields(false); });
  mc::add("fields", "all pairs of 10 header fields x 21 x 21 values", [=] { fields(true); });
  mc::add("large", "graphs of up to 100000 states or 210000 arcs x 3 layouts, whole and cut at 4 places", [=] { large(); });
  return mc::main(argc, argv);
}
