// C15: a complete model with faults in its files, loaded through the C interface.
// Reference parsers say which files are readable.
#include "api.h"
#include "mem.h"
#include "refs.h"
#include <unistd.h>
using namespace refs;

static model::Opt option(int k) { model::Opt o; o.lm = k == 1; o.layout = k; o.crlf = false; return o; }
static const char *kInt[] = { "left_context", "right_context", "chunk_size", "num_pdfs" };
static const char *kFile[] = { "fst", "nnet", "prior", "tid2pdf", "symbol_table", "large_lm", "original_lm" };
static Bytes *find(model::Files &m, const std::string &n) { auto i = m.f.find(n); return i == m.f.end() ? NULL : &i->second; }
// 1: must be refused, 0: complete and readable, -1: not defined
struct Verdict { int bad; std::string why; };
static Verdict judge(model::Files &m, const Bytes &conf) {
  Verdict v = { 0, "" };
  auto bad = [&](const std::string &w) { v.bad = 1; v.why = w; return v; };
  RConf r = ref_conf(conf);
  if (!r.ok) return bad("malformed configuration");
  bool vague = r.vague, lm = r.t.count("large_lm") > 0; int x;
  for (const char *k : kInt) { if (!r.t.count(k)) return bad(std::string("no key ") + k); if (!ref_int(r.t[k], &x)) return bad(std::string(k) + " is not a number"); }
  for (int i = 0; i < 7; ++i) {
    const char *k = kFile[i]; if (i > 4 && !lm) break;
    if (!r.t.count(k)) return bad(std::string("no key ") + k);
    Bytes *b = find(m, r.t[k]); if (!b) return bad(std::string("no file for ") + k);
    if (i == 0) { graph::Parsed p = graph::parse(*b); if (p.unsure) vague = true; else if (!p.ok) return bad("graph: " + p.why); else if (p.g.start < 0) return bad("graph without a start state"); }
    else if (i == 4) { RSym s = ref_sym(*b); if (s.vague) vague = true; else if (!s.ok) return bad("symbol table"); }
    else {
      Ref q = ref(i == 1 ? kNet : i == 3 ? kVecI : i == 5 ? kLm : kVecF, *b);
      if (!q.ok || (i == 1 && q.end != b->size())) return bad(std::string("section in ") + k);
    }
  }
  if (vague) v.bad = -1;
  return v;
}
static int serial = 0;
static std::string mark() {
  std::string m = mc::fmt("/nowhere/mark-%d-", ++serial % 1000);
  ce_stt_t *r = ce_stt_init((m + ".conf").c_str());
  MC_CHECK(r == NULL, "a recognizer without a configuration file");
  const char *e = ce_stt_last_error(); MC_CHECK(e && *e, "no message for a missing configuration file");
  return strstr(e, m.c_str()) ? m : std::string();
}
// one initialization from `path`
static void attempt(const std::string &path, int bad, const std::string &what) {
  std::string mk = mark();
  long before = heap_bytes();
  ce_stt_t *r = ce_stt_init(path.c_str()); bool got = r != NULL;
  ce_stt_destroy(r);
  long after = heap_bytes();
  if (bad == 1) {
    MC_CHECK(!got, "%s: a recognizer is returned", what.c_str());
    const char *e = ce_stt_last_error();
    MC_CHECK(e && *e && (mk.empty() || !strstr(e, mk.c_str())), "%s: fails without a message of its own", what.c_str());
    mc::outcome(std::string(e, std::min<size_t>(strlen(e), 30)));
  }
  MC_CHECK(after <= before, "%s: %ld bytes are not released", what.c_str(), after - before);
  mc::step();
}
static std::string dir(int k) { return mc::scratch() + mc::fmt("/m%d", k); }
// the intact files of configuration k, written once per process
struct Base { model::Files m; std::string conf, path; };
static Base &base(int k) {
  static std::map<int, Base> all; auto it = all.find(k);
  if (it != all.end()) return it->second;
  Base &b = all[k]; b.m = model::files(option(k)); b.path = model::write(dir(k), b.m); b.conf = model::conf_text(b.m);
  for (int i = 0; i < 2; ++i) { ce_stt_t *r = ce_stt_init(b.path.c_str()); MC_CHECK(r != NULL, "an intact model is refused: %s", ce_stt_last_error()); ce_stt_destroy(r); }
  // what a failing attempt allocates once per process
  std::string p = dir(k) + "/broken.conf"; kit::write_file(p, "fst = none\n"); for (int i = 0; i < 2; ++i) ce_stt_init(p.c_str());
  kit::write_file(dir(k) + "/empty", ""); kit::write_file(p, "fst = empty\n"); for (int i = 0; i < 2; ++i) ce_stt_init(p.c_str());
  mark(); mc::C().trace.reserve(40000);
  return b;
}
static std::vector<std::string> names(Base &b) { std::vector<std::string> v; for (auto &p : b.m.f) v.push_back(p.first); return v; }
// the model with one file replaced
static void with_file(int k, const std::string &name, const Bytes &now, const std::string &what) {
  Base &b = base(k); Bytes old = b.m.f[name];
  b.m.f[name] = now; Verdict v = judge(b.m, b.conf);
  kit::write_file(dir(k) + "/" + name, now);
  mc::state(mc::fnv(now, k)); mc::validated();
  b.m.f[name] = old;
  attempt(b.path, v.bad, what + " (" + v.why + ")");
  kit::write_file(dir(k) + "/" + name, old);
}
static void with_conf(int k, const Bytes &conf, const std::string &what) {
  Base &b = base(k); Verdict v = judge(b.m, conf); std::string p = dir(k) + "/try.conf"; kit::write_file(p, conf);
  mc::state(mc::fnv(conf, k)); mc::validated();
  attempt(p, v.bad, what + " (" + v.why + ")");
}
static void intact() {
  int k = mc::choose(2); Base &b = base(k); bool crlf = mc::flip(), last = mc::flip();
  Bytes c = b.conf; if (!last) c.resize(c.size() - 1);
  if (crlf) { Bytes d; for (char x : c) { if (x == '\n') d += '\r'; d += x; } c = d; }
  std::string p = dir(k) + "/try.conf"; kit::write_file(p, c);
  MC_CHECK(judge(b.m, c).bad == 0, "the reference refuses an intact model");
  ce_stt_t *r = ce_stt_init(p.c_str()); MC_CHECK(r != NULL, "an intact model is refused: %s", ce_stt_last_error()); ce_stt_destroy(r); mc::validated();
}
static void truncated() {
  int k = mc::choose(2); Base &b = base(k); std::vector<std::string> v = names(b); std::string n = mc::pick(v); const Bytes &o = b.m.f[n];
  int len = mc::choose(o.size()); mc::note("model %d: %s cut to %d bytes", k, n.c_str(), len);
  with_file(k, n, o.substr(0, len), mc::fmt("%s truncated to %d of %d bytes", n.c_str(), len, (int)o.size()));
}
static void conf_truncated() {
  int k = mc::choose(2); Base &b = base(k); int len = mc::choose(b.conf.size());
  mc::note("model %d: configuration cut to %d bytes", k, len);
  with_conf(k, b.conf.substr(0, len), mc::fmt("configuration truncated to %d bytes", len));
}
static bool data_byte(const std::string &n, const Bytes &b, size_t i) {
  // labels of language model arcs and prior probabilities are not structure
  if (n == "prior.bin" || n == "unigram.bin") return i >= 12;
  if (n != "large.lm") return false;
  int32_t ns; memcpy(&ns, b.data() + 36, 4); size_t a = 48 + ns * 8; return i >= a && (i - a) % 16 >= 4;
}
static void damaged(int values) {
  int k = mc::choose(2); Base &b = base(k); std::vector<std::string> v = names(b); std::string n = mc::pick(v); Bytes o = b.m.f[n];
  int i = mc::choose(o.size()); unsigned char c = o[i];
  int x = values == 256 ? mc::choose(256) : mc::pick(std::vector<int>{ 0, 1, 127, 255, c ^ 1, c ^ 128, (c + 1) & 255, ' ', '\n' });
  if (data_byte(n, o, i)) return;
  o[i] = x; mc::note("model %d: %s byte %d = %d", k, n.c_str(), i, x);
  with_file(k, n, o, mc::fmt("%s with byte %d = %d", n.c_str(), i, x));
}
static void conf_damaged() {
  int k = mc::choose(2); Base &b = base(k); Bytes o = b.conf; int i = mc::choose(o.size());
  static const char A[] = { '=', '\n', ' ', '#', 'x', '9', '-', '\r', '\t', '.' };
  int op = mc::choose(3); char x = op == 1 ? 0 : A[mc::choose(10)];
  if (op == 0) o[i] = x; else if (op == 1) o.erase(i, 1); else o.insert(i, 1, x);
  mc::note("model %d: configuration byte %d %s %d", k, i, op == 0 ? "=" : op == 1 ? "removed" : "inserted", x);
  with_conf(k, o, mc::fmt("configuration with byte %d %s %d", i, op == 0 ? "=" : op == 1 ? "removed" : "inserted", x));
}
// 32-bit fields at every 4-byte position of the header parts
static void fields(bool two) {
  static const int32_t V[] = { 0, 1, -1, 2, 3, 7, 256, 65536, 0x7fffffff, -0x7fffffff - 1, 0x3fffffff, 0x20000000 };
  int k = mc::choose(2); Base &b = base(k); std::vector<std::string> v; for (auto &n : names(b)) if (n != "words.txt") v.push_back(n);
  std::string n = mc::pick(v); Bytes o = b.m.f[n];
  int lim = std::min<int>(o.size(), 100), step = n == "graph.fst" ? 1 : 4; std::string t;
  for (int j = 0; j < (two ? 2 : 1); ++j) {
    int p = mc::choose((lim - 4) / step + 1) * step; int32_t x = V[mc::choose(12)];
    if (data_byte(n, b.m.f[n], p) || data_byte(n, b.m.f[n], p + 3)) return;
    memcpy(&o[p], &x, 4); t += mc::fmt(" %d=%d", p, x);
  }
  mc::note("model %d: %s field%s", k, n.c_str(), t.c_str());
  with_file(k, n, o, n + " with field" + t);
}
// any set of up to three missing keys
static void keys() {
  int k = mc::choose(2); Base &b = base(k); auto &c = b.m.conf; std::vector<int> gone; int from = 0;
  for (int i = 0; i < 3 && from < (int)c.size(); ++i) { int j = from + mc::choose(c.size() - from + 1); if (j >= (int)c.size()) break; gone.push_back(j); from = j + 1; }
  int how = gone.empty() ? 0 : mc::choose(3); Bytes t; std::string w;
  for (size_t i = 0; i < c.size(); ++i) {
    bool g = std::find(gone.begin(), gone.end(), (int)i) != gone.end();
    if (!g) { t += c[i].first + "=" + c[i].second + "\n"; continue; }
    w += " " + c[i].first; if (how == 1) t += "#" + c[i].first + "=" + c[i].second + "\n"; if (how == 2) t += c[i].first + "_ = " + c[i].second + "\n";
  }
  mc::note("model %d: without%s", k, w.c_str()); with_conf(k, t, "configuration without" + w);
}
static void values() {
  static const char *V[] = { "x", "1.5", "12x", "0x10", "1e2", "--1", "- 1", "one", "99999999999", "-99999999999", "9223372036854775808", "1 2", "", "=", "\xc3\xa9", "none", "empty", ".", "graph.fst", "nnet.bin", "prior.bin", "tid2pdf.bin", "words.txt", "large.lm", "unigram.bin", "/nowhere/x", "model.conf", "$HOME", "graph.fst " };
  int k = mc::choose(2); Base &b = base(k); auto c = b.m.conf; int i = mc::choose(c.size()); std::string x = V[mc::choose(29)], was = c[i].second;
  c[i].second = x; model::Files m; m.conf = c; Bytes t = model::conf_text(m);
  mc::note("model %d: %s = %s", k, c[i].first.c_str(), x.c_str());
  if (x == ".") b.m.f.erase("."); 
  bool added = !b.m.f.count("model.conf"); b.m.f["model.conf"] = b.conf; b.m.f["empty"] = "";
  with_conf(k, t, mc::fmt("%s = %s", c[i].first.c_str(), x.c_str()));
  if (added) b.m.f.erase("model.conf"); b.m.f.erase("empty");
}
// files that are not there, or not files; up to two at a time
static void absent() {
  int k = mc::choose(2); Base &b = base(k); std::vector<std::string> v = names(b); v.push_back("model.conf"); std::string w; std::vector<std::pair<std::string, Bytes>> back;
  int a = mc::choose(v.size()), c = mc::choose(v.size()), how = mc::choose(4);
  for (int i : { a, c }) {
    std::string n = v[i], p = dir(k) + "/" + n; if (!w.empty() && i == a) break; w += " " + n;
    Bytes old = i == (int)v.size() - 1 ? b.conf : b.m.f[n]; back.push_back({ n, old });
    unlink(p.c_str());
    if (how == 1) mkdir(p.c_str(), 0755); else if (how == 2) kit::write_file(p, ""); else if (how == 3) { if (symlink("nowhere", p.c_str())) perror("symlink"); }
  }
  static const char *H[] = { "missing", "a directory", "empty", "a dangling link" };
  mc::note("model %d:%s %s", k, w.c_str(), H[how]); mc::state(mc::fnv(mc::fmt("%d%s%d", k, w.c_str(), how)));
  attempt(b.path, 1, w + " " + H[how]);
  for (auto &x : back) { std::string p = dir(k) + "/" + x.first; if (how == 1) rmdir(p.c_str()); else unlink(p.c_str()); kit::write_file(p, x.second); }
  ce_stt_t *r = ce_stt_init(b.path.c_str()); MC_CHECK(r != NULL, "refused after the files were restored: %s", ce_stt_last_error()); ce_stt_destroy(r); mc::validated();
}
// failing initializations between the calls of a working recognizer
static void between() {
  static const kit::Bytes sound = model::raw(model::pcm("...llllllllll.....hhhhhhhhhhh...."));
  int k = mc::choose(2); Base &b = base(k); static std::map<int, api::Result> want; static std::map<int, ce_stt_t *> rec;
  if (!rec[k]) { rec[k] = ce_stt_init(b.path.c_str()); MC_CHECK(rec[k] != NULL, "an intact model is refused"); want[k] = api::whole(rec[k], sound); }
  ce_utt_t *u = api::start(rec[k]); size_t half = 4000;
  api::feed(u, sound, 0, half);
  for (int i = 0; i < 3; ++i) {
    int f = mc::choose(b.m.f.size() + 1); auto it = b.m.f.begin(); std::advance(it, f % b.m.f.size()); std::string p = dir(k) + "/" + it->first;
    if (f < (int)b.m.f.size()) { kit::write_file(p, it->second.substr(0, it->second.size() / 2)); ce_stt_t *r = ce_stt_init(b.path.c_str()); kit::write_file(p, it->second); if (it->first != "words.txt") MC_CHECK(r == NULL, "half of %s is accepted", it->first.c_str()); ce_stt_destroy(r); }
    else { ce_stt_t *r = ce_stt_init((dir(k) + "/none.conf").c_str()); MC_CHECK(r == NULL, "a missing configuration is accepted"); }
  }
  api::feed(u, sound, half, sound.size() - half); ce_stt_end_of_stream(u); api::Result g = api::result(u); ce_utt_destroy(u);
  MC_CHECK(g == want[k], "after failed initializations the result is '%s', expected '%s'", g.hyp.c_str(), want[k].hyp.c_str()); mc::outcome(g.hyp); mc::validated();
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("intact", "2 models, LF and CRLF, with and without a final newline", intact);
  mc::add("absent", "all pairs of files missing, empty, a directory or a dangling link", absent);
  mc::add("keys", "all sets of up to 3 keys removed, commented out or renamed", keys);
  mc::add("values", "every key with each of 29 values", values);
  mc::add("between", "all sequences of 3 failing initializations during an utterance", between);
  mc::add("conf-truncated", "configuration cut at every byte", conf_truncated);
  mc::add("conf-damaged", "every byte of the configuration replaced or preceded by 10 characters, or removed", conf_damaged);
  mc::add("truncated", "every file cut at every byte", truncated);
  mc::add("field", "12 values at every field position of the first 100 bytes of each file", [] { fields(false); });
  mc::add("damaged", mc::fmt("every byte of every file replaced by %d values", q ? 9 : 256), [=] { damaged(q ? 9 : 256); });
  if (!q) mc::add("fields", "all pairs of 12 values at field positions of the first 100 bytes", [] { fields(true); });
  return mc::main(argc, argv);
}
