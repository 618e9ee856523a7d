// C02, several threads: utterances decoded at the same time on one recognizer,
// every schedule up to a bound. Threads change at the calls of the interface,
// at synchronization operations and at the memory accesses given by VERIF_RACY
// (those found to conflict; check.py repeats until no new ones are found).
#include <fcntl.h>
#include <memory>
#include <thread>
#include "api.h"
#include "sched_glue.h"
namespace {
struct Audio { std::string sound; int extra, bits; };
const Audio kAudio[] = {
  { "..llllllllll...hhhhhhh", 0, 16 },
  { "hhhhhhhhh..lllllllllll", 37, 16 },
  { "..hhhhhhhhh...hhhhhhhh", 11, 8 },
  { "llllllllllnnnnnllhhhhhhh", 0, 32 },
};
const kit::Bytes &bytes(int a) {
  static std::map<int, kit::Bytes> t; kit::Bytes &b = t[a];
  if (b.empty()) b = model::raw(model::pcm(kAudio[a].sound, kAudio[a].extra), kAudio[a].bits);
  return b;
}
model::Opt option(int k) {
  model::Opt o; o.lm = k == 1 || k == 2; o.chunk = k == 2 ? 4 : 5; if (k == 2) { o.left = 2; o.right = 0; }
  if (k == 3) { o.lm = true; o.variant = 1; } return o;
}
// one utterance: everything observable as one string. No explorer's checks here: it runs on any thread
std::string decode(ce_stt_t *r, int a, int pieces, const kit::Bytes &b) {
  std::string log; char t[64];
  ce_wave_format_t f = { 1, 16000, kAudio[a].bits };
  sched::point("init");
  ce_utt_t *u = ce_utt_init(r, &f);
  if (!u) return "no utterance";
  for (int p = 0; p < pieces; ++p) {
    size_t lo = p ? (b.size() * p / pieces) | 1 : 0, hi = p == pieces - 1 ? b.size() : (b.size() * (p + 1) / pieces) | 1;
    sched::point("process");
    snprintf(t, sizeof t, "%d", ce_stt_process(u, b.data() + lo, (int)(hi - lo)));
    log += t; log += "["; log += u->hyp; log += "]";
  }
  sched::point("end");
  ce_stt_end_of_stream(u);
  snprintf(t, sizeof t, " %a", (double)u->loglikelihood_per_frame); log += u->hyp; log += t;
  sched::point("destroy");
  ce_utt_destroy(u);
  return log;
}
ce_stt_t *rec(int k) { return api::recognizer(option(k)); }
std::string fresh(int m, int a, int pieces) {
  int fd[2]; if (pipe(fd)) _exit(3);
  rec(m);
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c == 0) { close(fd[0]); alarm(60); std::string s = decode(rec(m), a, pieces, bytes(a)); if (write(fd[1], s.data(), s.size()) < 0) _exit(3); _exit(0); }
  close(fd[1]); std::string s; char buf[4096]; ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
  close(fd[0]); int w; waitpid(c, &w, 0);
  MC_CHECK(w == 0, "decoding one utterance alone fails (model %d, audio %d, status %x)", m, a, w);
  return s;
}
const std::string &want(int m, int a, int p) {
  static std::map<std::vector<int>, std::string> t; std::string &s = t[{ m, a, p }];
  if (s.empty()) s = fresh(m, a, p);
  return s;
}
struct U { int model, audio, pieces; };
void run(const std::vector<std::vector<U>> &threads, int preemptions) {
  // everything the harness needs is computed before: its own containers are only read by the threads
  struct Job { ce_stt_t *r; int audio, pieces; const kit::Bytes *b; std::string want; };
  std::vector<std::vector<Job>> jobs;
  for (auto &t : threads) {
    jobs.push_back(std::vector<Job>());
    for (auto &u : t) { Job j = { rec(u.model), u.audio, u.pieces, &bytes(u.audio), want(u.model, u.audio, u.pieces) }; jobs.back().push_back(j); }
  }
  const char *racy = getenv("VERIF_RACY"), *out = getenv("VERIF_RACES_OUT");
  mc::forked([&]() {
    sched::Config c; c.preemptions = preemptions; c.races_fail = false; c.points = racy;
    sched::Stats st = sched::run(c, [&]() {
      auto body = [&](const std::vector<Job> &js) {
        for (const Job &j : js) {
          std::string s = decode(j.r, j.audio, j.pieces, *j.b);
          if (s != j.want) mc::fail("decoding at the same time on another thread changes the utterance (audio %d): '%s' instead of '%s'", j.audio, s.c_str(), j.want.c_str());
        }
      };
      std::vector<std::thread> ts;
      for (size_t k = 1; k < jobs.size(); ++k) ts.push_back(std::thread(body, std::cref(jobs[k])));
      body(jobs[0]);
      for (auto &t : ts) t.join();
    });
    if (out && !st.races.empty()) {
      std::string s;
      for (auto &r : st.races) s += mc::fmt("%u %u\n", r.pc1, r.pc2);
      int fd = open(out, O_WRONLY | O_APPEND | O_CREAT, 0644);
      if (fd >= 0) { if (write(fd, s.data(), s.size()) < 0) _exit(3); close(fd); }
    }
    mc::validated(); mc::outcome(mc::fmt("switches %d", (int)std::min<uint64_t>(st.switches, 60)));
    mc::note("accesses %d, points %d, races %d", (int)st.accesses, (int)st.points, (int)st.races.size());
    for (auto &r : st.races) mc::note("race %s / %s", sched::where(r.pc1).c_str(), sched::where(r.pc2).c_str());
  });
}
}  // namespace
int main(int argc, char **argv) {
  bool q = true;
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--tier")) q = strcmp(argv[i + 1], "thorough") != 0;
  struct P { const char *name; std::vector<std::vector<U>> t; int quick, thorough; };
  static const P ps[] = {
    { "threads", { { { 0, 0, 2 } }, { { 0, 1, 2 } } }, 3, 6 },
    { "threads-widths", { { { 0, 2, 2 } }, { { 0, 3, 2 } } }, 2, 6 },
    { "threads-lm", { { { 1, 0, 1 } }, { { 1, 1, 1 } } }, 1, 3 },
    { "threads-models", { { { 0, 0, 1 } }, { { 2, 1, 1 } } }, 1, 3 },
    { "threads-variant", { { { 1, 0, 1 } }, { { 3, 1, 1 } } }, 1, 3 },
    { "threads-twice", { { { 0, 0, 1 }, { 0, 2, 1 } }, { { 0, 1, 1 }, { 0, 3, 1 } } }, 1, 3 },
    { "threads-three", { { { 0, 0, 1 } }, { { 0, 1, 1 } }, { { 0, 2, 1 } } }, 1, 3 },
  };
  for (const P &p : ps) {
    const P *x = &p; int pre = q ? p.quick : p.thorough;
    mc::add(p.name, mc::fmt("%d threads, all schedules with up to %d preemptions", (int)p.t.size(), pre), [x, pre]() {
      mc::C().split = 3;
      run(x->t, pre);
    });
  }
  return mc::main(argc, argv);
}
