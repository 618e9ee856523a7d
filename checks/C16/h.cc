// C16: configuration files and symbol tables against a line-by-line reference.
#include "refs.h"
#include "mc.h"
#include <limits.h>
#include <map>
#include "configuration.h"
#include "symbol_table.h"
#include "util.h"
using namespace pocketkaldi;
using kit::Bytes;

using namespace refs;
static std::string show(const std::string &s) { std::string o; for (unsigned char c : s.substr(0, 60)) { if (c < 32 || c > 126) o += mc::fmt("\\x%02x", c); else o += c; } if (s.size() > 60) o += mc::fmt("...(%zu)", s.size()); return o; }
// `name` is the path handed to the code, `dir` what relative paths resolve to
static void conf(const Bytes &b, const std::vector<std::string> &keys, const std::string &name, const std::string &dir) {
  RConf r = ref_conf(b);
  kit::write_file(name, b);
  Configuration c;
  Status s = c.Read(name);
  if (!r.vague || !r.ok) MC_CHECK(s.ok() == r.ok || (r.vague && !r.ok), "file \"%s\": %s, expected to be %s (%s)", show(b).c_str(), s.ok() ? "read" : "refused", r.ok ? "read" : "refused", s.what().c_str());
  if (!s.ok()) { MC_CHECK(!s.what().empty(), "refused without a message"); mc::outcome("refused"); mc::step(); mc::validated(); return; }
  MC_CHECK(c.filename() == name, "filename is %s", c.filename().c_str());
  if (!r.ok) return;
  for (const std::string &k : keys) {
    auto it = r.t.find(lower(k)); bool has = it != r.t.end();
    std::string want = has ? it->second : "dflt", got = c.GetStringOrElse(k, "dflt");
    MC_CHECK(got == want, "file \"%s\": key %s is \"%s\", expected \"%s\"", show(b).c_str(), k.c_str(), show(got).c_str(), show(want).c_str());
    std::string v = "untouched"; Status t = c.GetString(k, &v);
    MC_CHECK(t.ok() == has && (has ? v == want : !t.what().empty()), "file \"%s\": key %s %s", show(b).c_str(), k.c_str(), t.ok() ? "found" : "not found");
    std::string pw = !has ? "dflt" : want[0] == '/' ? want : dir + want;
    got = c.GetPathOrElse(k, "dflt");
    MC_CHECK(got == pw, "path %s is \"%s\", expected \"%s\"", k.c_str(), show(got).c_str(), show(pw).c_str());
    t = c.GetPath(k, &v);
    MC_CHECK(t.ok() == has && (!has || v == pw), "path %s: %s", k.c_str(), show(v).c_str());
    int iv = -12345, n = 0; bool isint = has && ref_int(want, &n);
    t = c.GetInteger(k, &iv);
    MC_CHECK(t.ok() == isint && (!isint || iv == n) && (isint || !t.what().empty()), "integer %s = \"%s\" is %s %d", k.c_str(), show(want).c_str(), t.ok() ? "read as" : "refused", iv);
    if (isint || !has) { int d = c.GetIntegerOrElse(k, 77); MC_CHECK(d == (has ? n : 77), "integer %s is %d, expected %d", k.c_str(), d, has ? n : 77); }
    mc::outcome(want);
  }
  mc::step(); mc::state(mc::fnv(b)); mc::validated();
}
static std::vector<std::string> keys() { return { "a", "A", "b", "aA", "k1", "zz" }; }
static std::string name() { return mc::scratch() + "/c.conf"; }
static std::string dir() { return mc::scratch() + "/"; }

// all short files over 8 characters
static void raw(int len) {
  static const char A[] = { 'a', 'A', '=', ' ', '\n', '\r', '#', '1' };
  Bytes b; int n = mc::choose(len + 1);
  for (int i = 0; i < n; ++i) b += A[mc::choose(8)];
  mc::note("%s", show(b).c_str());
  conf(b, keys(), name(), dir());
}
// all files of some lines
static void lines(int n) {
  static const std::string L[] = { "a=1", "A = 2 ", "\t a\t=\tx y ", "# a=3", "  #b=4", "", "   ", "b=/abs/p", "b=rel/p", "a", "a=", "a = ", "a=1=2", "aA=caf\xc3\xa9", "a=#5", "k1=-17", "=v", "a==" };
  Bytes b; int k = 1 + mc::choose(n); std::string e = mc::flip() ? "\r\n" : "\n";
  for (int i = 0; i < k; ++i) { b += L[mc::choose(18)]; if (i + 1 < k) b += e; }
  if (mc::flip()) b += e;
  mc::note("%s", show(b).c_str());
  conf(b, keys(), name(), dir());
}
// line lengths around any buffer size, in every position of a three-line file
static void longs(bool all) {
  int base; 
  if (all) base = mc::choose(9000); else { static const int S[] = { 60, 124, 252, 508, 1020, 2044, 4088, 8184, 12280, 16380, 65532 }; base = S[mc::choose(11)] + mc::choose(10); }
  int part = mc::choose(3);
  std::string e = mc::flip() ? "\r\n" : "\n"; bool fin = mc::flip();
  std::string v; for (int i = 0; i < base; ++i) v += (char)('b' + i % 23);
  Bytes b = "a=first" + e;
  switch (part) {
    case 0: b += "k1=" + v + e; break;
    case 1: b += "#" + v + e; break;
    case 2: b += "k1=" + std::string(base, ' ') + "x" + e; break;
  }
  b += "b=last"; if (fin) b += e;
  if (mc::flip()) { b = "a=first" + e + "b=last" + e + (part == 1 ? "#" : "k1=") + v + (part == 2 ? "z" : "") + (fin ? e : ""); if (part != 1 && v.empty() && part != 2) return; }
  mc::note("length %d part %d", base, part);
  conf(b, { "a", "k1", "b" }, name(), dir());
}
static void integers() {
  static const char *V[] = { "0", "1", "-1", "+5", "007", "010", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999999", "12x", "x", "1.5", "1e3", "0x10", "- 1", "1 2", "--1", "4294967297", "\xc3\xa9", "-", "+" };
  std::string v = V[mc::choose(23)];
  Bytes b = "a=" + v + "\n";
  mc::note("%s", v.c_str());
  conf(b, keys(), name(), dir());
}
static void paths() {
  static const char *V[] = { "x", "./x", "../x", "/x", "d/x", "//x", "~/x" };
  std::string v = V[mc::choose(7)]; int k = mc::choose(3);
  std::string s = mc::scratch();
  if (chdir(s.c_str()) != 0) _exit(78);
  mkdir((s + "/sub").c_str(), 0755);
  Bytes b = "a = " + v + "\n";
  if (k == 0) conf(b, keys(), "p.conf", ""); else if (k == 1) conf(b, keys(), "sub/p.conf", "sub/"); else conf(b, keys(), s + "/sub/../sub/p.conf", s + "/sub/../sub/");
}

// ---- symbol tables --------------------------------------------------------
static void symbols(const std::vector<std::pair<std::string, int>> &w, const std::string &e, bool fin) {
  Bytes b; for (size_t i = 0; i < w.size(); ++i) { b += w[i].first + " " + std::to_string(w[i].second); if (i + 1 < w.size() || fin) b += e; }
  std::string p = mc::scratch() + "/sym"; kit::write_file(p, b);
  bool bos = false, eos = false; int bi = 0, ei = 0;
  for (auto &x : w) { if (x.first == "<s>") { bos = true; bi = x.second; } if (x.first == "</s>") { eos = true; ei = x.second; } }
  SymbolTable t; Status s = t.Read(p);
  MC_CHECK(s.ok() == (bos && eos), "symbol table %s: %s", s.ok() ? "read" : "refused", s.what().c_str());
  if (!s.ok()) { MC_CHECK(!s.what().empty(), "refused without a message"); mc::step(); mc::outcome("refused"); return; }
  for (auto &x : w) {
    MC_CHECK(t.GetId(x.first) == x.second, "word %s has id %d, expected %d", show(x.first).c_str(), t.GetId(x.first), x.second);
    MC_CHECK(x.first == t.Get(x.second), "id %d is \"%s\", expected \"%s\"", x.second, show(t.Get(x.second)).c_str(), show(x.first).c_str());
  }
  MC_CHECK(t.bos_id() == bi && t.eos_id() == ei, "sentence begin/end are %d/%d, expected %d/%d", t.bos_id(), t.eos_id(), bi, ei);
  MC_CHECK(t.GetId("not there") == SymbolTable::kNotExist, "an unlisted word has id %d", t.GetId("not there"));
  mc::outcome(mc::fmt("%zu %d %d", w.size(), bi, ei)); mc::step(w.size()); mc::state(mc::fnv(b)); mc::validated();
}
static void sym_orders() {
  std::vector<std::string> words = { "<eps>", "<s>", "</s>", "caf\xc3\xa9", "a" };
  std::vector<int> ids = mc::flip() ? std::vector<int>{ 0, 1, 2, 3, 4 } : std::vector<int>{ 0, 70000, 5, 65536, 131 };
  std::vector<std::pair<std::string, int>> w;
  int n = mc::choose(mc::quick() ? 5 : 6);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose((int)words.size()), j = mc::choose((int)ids.size());
    w.push_back(std::make_pair(words[k], ids[j])); words.erase(words.begin() + k); ids.erase(ids.begin() + j);
  }
  symbols(w, mc::flip() ? "\r\n" : "\n", mc::flip());
}
static void sym_long(bool all) {
  int len; if (all) len = 1 + mc::choose(9000); else { static const int S[] = { 1, 60, 124, 252, 508, 1020, 2044, 4086, 8182, 12280, 16380, 65532 }; len = S[mc::choose(12)] + mc::choose(12); }
  int pos = mc::choose(3); std::string e = mc::flip() ? "\r\n" : "\n"; bool fin = mc::flip();
  std::string word; for (int i = 0; i < len; ++i) word += (char)('a' + i % 26);
  std::vector<std::pair<std::string, int>> w = { { "<s>", 1 }, { "</s>", 2 } };
  w.insert(w.begin() + pos, std::make_pair(word, 12));
  mc::note("length %d at %d", len, pos);
  symbols(w, e, fin);
}
static void sym_count(int maxn) {
  static const int N[] = { 0, 1, 5, 100, 65530, 65534, 65535, 65536, 65537, 70000, 140000 };
  int n = N[mc::choose(maxn)]; bool rev = mc::flip();
  std::vector<std::pair<std::string, int>> w;
  for (int i = 0; i < n; ++i) w.push_back(std::make_pair("w" + std::to_string(i), rev ? n - 1 - i : i));
  w.push_back(std::make_pair("<s>", n)); w.push_back(std::make_pair("</s>", n + 1));
  symbols(w, "\n", true);
}
// damaged lines
static void sym_bad() {
  static const char *L[] = { "word", "word x", "word 3x", "word 3 4", "word -1", "", " ", "word 99999999999999999999", "word 1.5", "word 2000000000" };
  int k = mc::choose(10), pos = mc::choose(3); std::string e = mc::flip() ? "\r\n" : "\n"; bool fin = mc::flip();
  if (pos == 2 && k == 5 && !fin) return;       // nothing there
  std::vector<std::string> v = { "<s> 1", "</s> 2" }; v.insert(v.begin() + pos, L[k]);
  Bytes b; for (size_t i = 0; i < 3; ++i) { b += v[i]; if (i < 2 || fin) b += e; }
  if (pos == 2 && k == 5) return;
  std::string p = mc::scratch() + "/sym"; kit::write_file(p, b);
  SymbolTable t; Status s = t.Read(p);
  MC_CHECK(!s.ok() && !s.what().empty(), "damaged symbol line \"%s\" is accepted", L[k]);
  mc::outcome(s.what()); mc::step(); mc::validated();
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("raw", mc::fmt("all configuration files of up to %d bytes over 8 characters", q ? 6 : 8), [=] { raw(q ? 6 : 8); });
  mc::add("lines", mc::fmt("all configuration files of up to %d lines over 18 lines, LF and CRLF, with and without a final newline", q ? 3 : 5), [=] { lines(q ? 3 : 5); });
  mc::add("long", q ? "configuration lines of 110 lengths around powers of two up to 65540" : "configuration lines of every length up to 9000", [=] { longs(!q); });
  mc::add("integers", "23 spellings of integers and non-integers", [=] { integers(); });
  mc::add("paths", "7 paths x 3 locations of the file", [=] { paths(); });
  mc::add("symbols", "all symbol tables of up to 4 (5) of 5 words with 2 sets of ids in any order, LF and CRLF, final newline or not", [=] { sym_orders(); });
  mc::add("symbols-long", q ? "words of 144 lengths around powers of two up to 65543" : "words of every length up to 9000", [=] { sym_long(!q); });
  mc::add("symbols-count", "tables of 0 to 140000 words", [=] { sym_count(11); });
  mc::add("symbols-damaged", "10 damaged lines at every position", [=] { sym_bad(); });
  return mc::main(argc, argv);
}
