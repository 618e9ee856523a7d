// C23: the command-line program, run as a process on every small list.
#include "api.h"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace api;

static model::Opt option(int k) { model::Opt o; o.lm = k == 1; if (k == 2) { o.left = 0; o.right = 0; o.chunk = 1; } return o; }
static std::string dir() { return mc::scratch(); }
static std::string conf(int k) {
  static std::map<int, std::string> c; std::string &s = c[k];
  if (s.empty()) s = model::write(dir() + mc::fmt("/m%d", k), model::files(option(k)));
  return s;
}
struct Out { int code; std::string out, err; };
// files: how many files the program may have open at once, 0: no limit
static Out run(const std::vector<std::string> &args, const std::string &cwd = "", int files = 0) {
  const char *bin = getenv("CATEARS_MAIN"); if (!bin) { fprintf(stderr, "CATEARS_MAIN is not set\n"); _exit(78); }
  std::string o = dir() + "/out", e = dir() + "/err";
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (!cwd.empty()) posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
  std::vector<char *> v; v.push_back((char *)bin); for (auto &a : args) v.push_back((char *)a.c_str()); v.push_back(NULL);
  posix_spawn_file_actions_addclosefrom_np(&fa, 3);
  pid_t pid; extern char **environ;
  rlimit was; getrlimit(RLIMIT_NOFILE, &was); if (files) { rlimit few = was; few.rlim_cur = files; setrlimit(RLIMIT_NOFILE, &few); }
  if (posix_spawn(&pid, bin, &fa, NULL, v.data(), environ) != 0) { perror(bin); _exit(78); }
  setrlimit(RLIMIT_NOFILE, &was);
  posix_spawn_file_actions_destroy(&fa);
  int st = 0; double t0 = mc::now();
  for (int us = 500;; us = std::min(us * 2, 8000)) {
    int k = waitpid(pid, &st, WNOHANG); if (k == pid) break;
    if (mc::now() - t0 > 40) { kill(pid, SIGKILL); waitpid(pid, &st, 0); mc::fail("the program does not end"); }
    usleep(us);
  }
  Out r; r.out = kit::read_file(o); r.err = kit::read_file(e); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  MC_CHECK(WIFEXITED(st), "the program is ended by signal %d", WTERMSIG(st));
  MC_CHECK(r.code != 99, "memory error in the program: %.400s", r.err.c_str());
  mc::step();
  return r;
}
// audio files: name, whether it can be recognized
struct Audio { std::string name; kit::Bytes b; bool ok; };
static const std::vector<Audio> &audio() {
  static std::vector<Audio> v;
  if (!v.empty()) return v;
  using model::pcm; using model::raw; using model::wav; using model::rep;
  auto add = [&](const char *n, const kit::Bytes &b, bool ok) { Audio a = { n, b, ok }; v.push_back(a); };
  kit::Bytes two = raw(pcm("..llllllllll........hhhhhhhhhhhh...."));
  add("low.wav", wav(raw(pcm("...llllllllllll..."))), true);
  add("two.wav", wav(two), true);
  add("header.wav", kit::wav_header(16, 16000, 1, 0), true);
  add("missing.wav", "", false);
  add("stereo.wav", kit::wav_header(16, 16000, 2, 400) + two.substr(0, 400), false);
  add("cut.wav", wav(two).substr(0, 30), false);
  add("wide.wav", wav(raw(pcm("...hhhhhhhhhhhh.llllllllllll.."), 32), 32), true);
  add("narrow.wav", wav(raw(pcm("...hhhhhhhhhhhh..."), 8), 8), true);
  add("short.wav", wav(two.substr(0, 500)), true);
  add("odd.wav", wav(two.substr(0, 7001)), true);
  add("silent.wav", wav(raw(pcm(rep('.', 90)))), true);
  add("rate.wav", kit::wav_header(16, 8000, 1, 400) + two.substr(0, 400), false);
  add("depth.wav", kit::wav_header(24, 16000, 1, 400) + two.substr(0, 402), false);
  add("text.wav", "this is not audio\n", false);
  add("dir.wav", "", false);
  add("zero.wav", "", false);
  add("words.wav", wav(raw(pcm("..llllllllll....hhhhhhhhhh.....llllllllll.....hhhhhhhhhhhhh....llllllllllll.....hhhhhhhhhhh...."))), true);
  mkdir((dir() + "/a").c_str(), 0755);
  for (auto &a : v) { std::string p = dir() + "/a/" + a.name; if (a.name == "missing.wav") continue; if (a.name == "dir.wav") mkdir(p.c_str(), 0755); else kit::write_file(p, a.b); }
  return v;
}
static std::string path(const Audio &a) { return dir() + "/a/" + a.name; }
// what the library says about the file alone
static std::string words(int k, const Audio &a) {
  static std::map<std::pair<int, std::string>, std::string> c; auto key = std::make_pair(k, a.name); auto it = c.find(key);
  if (it != c.end()) return it->second;
  int bits = (unsigned char)a.b[34]; kit::Bytes b = a.b.substr(44);
  ce_utt_t *u = start(recognizer(option(k)), bits); if (!b.empty()) feed(u, b, 0, b.size()); ce_stt_end_of_stream(u); std::string h = hyp(u); ce_utt_destroy(u);
  return c[key] = h;
}
static void failed(const Out &r, const std::string &before, const char *what) {
  MC_CHECK(r.code != 0, "%s: exit status 0", what);
  MC_CHECK(r.out.compare(0, before.size(), before) == 0, "%s: the lines before the error are '%s', expected '%s'", what, r.out.c_str(), before.c_str());
  MC_CHECK(r.out.size() > before.size() || !r.err.empty(), "%s: no error is printed", what);
  mc::outcome(mc::fmt("%d ", r.code) + r.out.substr(before.size(), 20));
}
static void single(int models) {
  int k = mc::choose(models); const Audio &a = mc::pick(audio());
  mc::note("model %d %s", k, a.name.c_str());
  Out r = run({ conf(k), path(a) });
  if (a.ok) {
    MC_CHECK(r.code == 0 && r.out == words(k, a) + "\n", "%s alone: exit status %d, '%s', expected '%s'", a.name.c_str(), r.code, r.out.c_str(), words(k, a).c_str());
    mc::outcome(r.out);
  } else failed(r, "", a.name.c_str());
  mc::state(mc::fnv(mc::fmt("%d %s", k, a.name.c_str()))); mc::validated();
}
static void list(int k, const std::vector<int> &es, const std::string &eol, bool last, const std::string &file, int relative = 0, int files = 0) {
  static const char *M[] = { "onlyname", "name file extra", "", "name " };
  std::string t, want; bool bad = false; const auto &v = audio();
  for (size_t i = 0; i < es.size(); ++i) {
    std::string n = mc::fmt("utt-%d", (int)i * 37);
    if (es[i] < 0) { t += M[-1 - es[i]]; if (i + 1 == es.size() && !last && es[i] == -3) return; bad = true; }
    else {
      const Audio &a = v[es[i]]; t += n + " " + (relative ? "a/" + a.name : path(a));
      if (!a.ok) bad = true; else if (!bad) want += n + " " + words(k, a) + "\n";
    }
    if (i + 1 < es.size() || last) t += eol;
  }
  kit::write_file(dir() + "/" + file, t);
  Out r = run({ conf(k), dir() + "/" + file }, relative ? dir() : "", files);
  if (bad) failed(r, want, ("list '" + t + "'").c_str());
  else { MC_CHECK(r.code == 0 && r.out == want, "list '%s': exit status %d, output '%s', expected '%s'", t.c_str(), r.code, r.out.c_str(), want.c_str()); mc::outcome(r.out); }
  mc::state(mc::fnv(t, k)); mc::validated();
}
// entries -4..16; `small` entries only for long lists
static void lists(int len, int good, int models) {
  int k = mc::choose(models); std::vector<int> es; int n = mc::choose(len + 1);
  for (int i = 0; i < n; ++i) es.push_back(mc::choose(good + 4) - 4);
  std::string eol = mc::flip() ? "\r\n" : "\n"; bool last = mc::flip(); if (!n && last) return;
  list(k, es, eol, last, "l.scp");
}
static void names() {
  static const char *N[] = { "l.scp", "list.txt", "noext", "l.wav.scp", ".scp", "l.WAV" };
  std::string f = mc::pick(std::vector<std::string>(N, N + 6)); int a = mc::choose(2), rel = mc::choose(2);
  list(0, { a, 1 - a, a }, "\n", true, f, rel);
}
// every list length; every length of names around line buffers
static void counts(int max) { int n = mc::choose(max + 1); std::vector<int> es; for (int i = 0; i < n; ++i) es.push_back(i % 5 == 3 ? 1 : i % 3 == 2 ? 2 : 8); list(0, es, "\n", n % 2 == 0, "c.scp", 0, 40); }
static void long_names(bool all) {
  static const int S[] = { 1, 120, 250, 505, 1015, 1500, 2040, 3990, 4060, 4080, 8150, 16300 };
  int len = all ? 1 + mc::choose(9000) : S[mc::choose(12)] + mc::choose(all ? 1 : 12), pos = mc::choose(2);
  std::string name; for (int i = 0; i < len; ++i) name += (char)('a' + i % 26);
  std::string p = path(audio()[0]), q = path(audio()[2]), t, want, w = words(0, audio()[0]), e = words(0, audio()[2]);
  for (int i = 0; i < 2; ++i) { t += (i == pos ? name : "x") + " " + (i ? q : p) + "\n"; want += (i == pos ? name : "x") + " " + (i ? e : w) + "\n"; }
  mc::note("name of %d bytes at %d", len, pos);
  kit::write_file(dir() + "/n.scp", t); Out r = run({ conf(0), dir() + "/n.scp" });
  MC_CHECK(r.code == 0 && r.out == want, "a name of %d bytes: exit status %d, %d bytes of output, expected %d: '%.60s'", len, r.code, (int)r.out.size(), (int)want.size(), r.out.c_str());
  mc::state(len * 2 + pos); mc::validated();
}
// a path of any length, through "./" steps
static void long_paths(bool all) {
  int n = all ? mc::choose(1900) : mc::choose(190) * 10; std::string p = dir() + "/a/"; for (int i = 0; i < n; ++i) p += "./"; p += "low.wav";
  if (p.size() >= 4090) return;
  mc::note("path of %d bytes", (int)p.size());
  std::string w = words(0, audio()[0]); kit::write_file(dir() + "/p.scp", "one " + p + "\ntwo " + path(audio()[0]));
  Out r = run({ conf(0), dir() + "/p.scp" }); MC_CHECK(r.code == 0 && r.out == "one " + w + "\ntwo " + w + "\n", "a path of %d bytes: exit status %d, '%.100s'", (int)p.size(), r.code, r.out.c_str());
  mc::state(n); mc::validated();
}
// every number of data bytes around the program's reads
static void sizes(int step) {
  static const kit::Bytes all = model::raw(model::pcm("..llllllllll....hhhhhhhhhh..lllllllll...")); int bits = mc::pick(std::vector<int>{ 16, 8, 32 });
  int n = mc::choose(12800 / step) * step; if (step > 1) n += n % 7;
  Audio a; a.name = mc::fmt("size-%d-%d", bits, n); kit::Bytes d = bits == 16 ? all : model::raw(model::pcm("..llllllllll....hhhhhhhhhh..lllllllll..."), bits);
  if (n > (int)d.size()) return;
  a.b = model::wav(d.substr(0, n), bits); a.ok = true; kit::write_file(dir() + "/a/s.wav", a.b);
  Out r = run({ conf(0), dir() + "/a/s.wav" });
  mc::note("%d bits, %d bytes: '%s'", bits, n, r.out.c_str());
  MC_CHECK(r.code == 0 && r.out == words(0, a) + "\n", "%d bytes of %d bits: exit status %d, '%s', expected '%s'", n, bits, r.code, r.out.c_str(), words(0, a).c_str());
  mc::state(n * 3 + bits); mc::outcome(r.out); mc::validated();
}
// all short texts: recognized alone and in one list with others
static void texts(int len) {
  static const char *S[] = { ".....", "llllllllll", "hhhhhhhhhh" }; std::string s = ".."; int n = 1 + mc::choose(len), k = mc::choose(2);
  for (int i = 0; i < n; ++i) { s += S[mc::choose(3)]; s += "..."; }
  Audio a; a.name = "text-" + s; a.b = model::wav(model::raw(model::pcm(s))); a.ok = true; kit::write_file(dir() + "/a/t.wav", a.b);
  Out r = run({ conf(k), dir() + "/a/t.wav" }); std::string w = words(k, a);
  MC_CHECK(r.code == 0 && r.out == w + "\n", "exit status %d, '%s', expected '%s'", r.code, r.out.c_str(), w.c_str());
  kit::write_file(dir() + "/t.scp", "p " + path(audio()[1]) + "\nq " + dir() + "/a/t.wav\nr " + path(audio()[0]) + "\ns " + dir() + "/a/t.wav\n");
  Out l = run({ conf(k), dir() + "/t.scp" }); std::string want = "p " + words(k, audio()[1]) + "\nq " + w + "\nr " + words(k, audio()[0]) + "\ns " + w + "\n";
  MC_CHECK(l.code == 0 && l.out == want, "in a list: exit status %d, '%s', expected '%s'", l.code, l.out.c_str(), want.c_str());
  mc::note("%s: '%s'", s.c_str(), w.c_str()); mc::outcome(w); mc::state(mc::fnv(s, k)); mc::validated();
}
// every truncation of a header, alone and as an entry of a list
static void headers() {
  int n = mc::choose(44), in = mc::choose(2); kit::Bytes b = audio()[0].b.substr(0, n); kit::write_file(dir() + "/a/h.wav", b);
  if (!in) failed(run({ conf(0), dir() + "/a/h.wav" }), "", mc::fmt("a header of %d bytes", n).c_str());
  else { kit::write_file(dir() + "/h.scp", "a " + path(audio()[0]) + "\nb " + dir() + "/a/h.wav\nc " + path(audio()[0]) + "\n"); failed(run({ conf(0), dir() + "/h.scp" }), "a " + words(0, audio()[0]) + "\n", mc::fmt("a header of %d bytes in a list", n).c_str()); }
  mc::state(n * 2 + in); mc::validated();
}
static void arguments() {
  audio();
  std::vector<std::string> A = { conf(0), dir() + "/none.conf", dir(), path(audio()[0]), dir() + "/none.scp", "x", "", "abcd", dir() + "/m0/words.txt" };
  int n = mc::choose(4); std::vector<std::string> v; std::string t; for (int i = 0; i < n; ++i) { v.push_back(mc::pick(A)); t += " '" + v.back() + "'"; }
  mc::note("%s", t.c_str());
  Out r = run(v); bool good = n == 2 && v[0] == A[0] && v[1] == A[3];
  if (good) MC_CHECK(r.code == 0 && r.out == words(0, audio()[0]) + "\n", "'%s'", r.out.c_str());
  else failed(r, "", t.c_str());
  mc::state(mc::fnv(t)); mc::validated();
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("single", "17 files, good and bad, with 3 models", [] { single(3); });
  mc::add("arguments", "all argument lists of up to 3 out of 9 strings", arguments);
  mc::add("names", "6 names of the list, absolute and relative entries", names);
  mc::add("headers", "a header cut at every byte, alone and in a list", headers);
  mc::add("lists", "all lists of up to 2 entries out of 17 files and 4 malformed lines, LF and CRLF, final newline or not", [] { lists(2, 17, 1); });
  mc::add("lists-deep", mc::fmt("all lists of up to %d entries out of 6 files and 4 malformed lines", q ? 3 : 4), [=] { lists(q ? 3 : 4, 6, 1); });
  if (!q) mc::add("lists-lm", "all lists of up to 2 entries with 3 models", [] { lists(2, 17, 3); });
  mc::add("counts", mc::fmt("lists of 0 to %d entries, the program may have 40 files open", q ? 70 : 400), [=] { counts(q ? 70 : 400); });
  mc::add("long-names", q ? "names of 144 lengths up to 16311" : "names of every length up to 9000", [=] { long_names(!q); });
  mc::add("long-paths", "paths of many lengths up to 4090", [=] { long_paths(!q); });
  mc::add("texts", mc::fmt("all texts of up to %d sounds, alone and in a list", q ? 3 : 6), [=] { texts(q ? 3 : 6); });
  mc::add("sizes", q ? "every 41st number of data bytes x 3 sample sizes" : "every number of data bytes x 3 sample sizes", [=] { sizes(q ? 41 : 1); });
  return mc::main(argc, argv);
}
