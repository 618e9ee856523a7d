// C11: the real AcousticModel over every utterance length, batch size and
// context: one row per frame, equal to the network on the frame's own window.
#include "kit.h"
#include "mc.h"
#include "nn.h"
#include <memory>
#include "am.h"
#include "configuration.h"
using namespace pocketkaldi;
typedef std::vector<float> Row;

struct Net { int L, R; std::vector<nn::L> ls; int in, out; };
static int w(int i, int j) { return (i * 7 + j * 5 + i * j) % 7 - 3; }
static nn::L lin(int in, int out) {
  Row W, b;
  for (int i = 0; i < in; ++i) for (int j = 0; j < out; ++j) W.push_back(w(i, j));
  for (int j = 0; j < out; ++j) b.push_back(j % 3 - 1);
  return nn::linear(in, out, W, b);
}
// kind 0: one splice over the whole context; 1: left and right stages; 2: every
// context frame its own stage; 3: no splice (frames that are not used)
static Net make(int L, int R, int kind, int in, int out) {
  Net n; n.L = L; n.R = R; n.in = in; n.out = out; int c = in;
  auto stage = [&](int l, int r, bool act) {
    std::vector<int> ix; for (int i = -l; i <= r; ++i) ix.push_back(i);
    n.ls.push_back(nn::splice(ix)); n.ls.push_back(nn::narrow(l, r)); n.ls.push_back(lin(c * ix.size(), 3)); c = 3;
    if (act) n.ls.push_back(nn::L(kit::kReLU));
  };
  if (kind == 0) stage(L, R, true);
  else if (kind == 1) { stage(L, 0, false); stage(0, R, true); }
  else if (kind == 2) { for (int i = 0; i < L; ++i) stage(1, 0, false); for (int i = 0; i < R; ++i) stage(0, 1, true); }
  else { n.ls.push_back(nn::narrow(L, R)); }
  n.ls.push_back(lin(c, out));
  return n;
}
static std::vector<float> prior(int n) { Row p; for (int i = 0; i < n; ++i) p.push_back(1.0f / (2 << (i % 4))); return p; }

static std::unique_ptr<AcousticModel> load(const Net &n, int chunk) {
  std::string d = mc::scratch(); kit::Bytes b;
  kit::write_file(d + "/nnet.bin", nn::net_bytes(n.L, n.R, n.ls));
  b.clear(); kit::vec(&b, prior(n.out)); kit::write_file(d + "/prior.bin", b);
  b.clear(); kit::veci(&b, { 0, 1, 0 }); kit::write_file(d + "/tid2pdf.bin", b);
  kit::write_file(d + "/am.conf", mc::fmt("nnet = nnet.bin\nprior = prior.bin\nleft_context = %d\nright_context = %d\nchunk_size = %d\nnum_pdfs = %d\ntid2pdf = tid2pdf.bin\n", n.L, n.R, chunk, n.out));
  Configuration conf; Status s = conf.Read(d + "/am.conf");
  MC_CHECK(s.ok(), "configuration rejected: %s", s.what().c_str());
  std::unique_ptr<AcousticModel> am(new AcousticModel);
  s = am->Read(conf); MC_CHECK(s.ok(), "acoustic model rejected: %s", s.what().c_str());
  MC_CHECK(am->num_pdfs() == n.out, "num_pdfs is %d", am->num_pdfs());
  return am;
}
static Row frame(int t, int dim, int pattern) {
  Row f; for (int j = 0; j < dim; ++j) f.push_back(pattern == 0 ? (t * 3 + j * 5) % 11 - 5 + t / 11 : pattern == 1 ? (t == 0 ? 9 : -(t % 5)) + j : (j == t % dim) * (t + 1));
  return f;
}
struct Want {
  const Net &n; std::vector<double> lp;
  explicit Want(const Net &n_): n(n_) { for (float p : prior(n.out)) lp.push_back(log(p)); }
  std::vector<double> row(const std::vector<Row> &f, int t) {
    nn::M x(n.L + 1 + n.R, n.in);
    for (int i = 0; i < x.r; ++i) { int s = std::min(std::max(t + i - n.L, 0), (int)f.size() - 1); for (int j = 0; j < n.in; ++j) x.at(i, j) = f[s][j]; }
    for (auto &l : n.ls) x = l.apply(x, NULL);
    std::vector<double> y; for (int j = 0; j < n.out; ++j) y.push_back(x.at(0, j) - lp[j]);
    return y;
  }
};
static void fill(Matrix<float> *m, float v) { for (int i = 0; i < m->NumRows(); ++i) for (int j = 0; j < m->NumCols(); ++j) (*m)(i, j) = v; }
// an utterance: frames are fed one by one, rows are collected
struct Utt {
  AcousticModel::Instance inst; std::vector<Row> in, got;
  void take(const Matrix<float> &m, const Net &n) {
    for (int r = 0; r < m.NumRows(); ++r) {
      MC_CHECK(m.NumCols() == n.out, "a score row has %d columns, expected %d", m.NumCols(), n.out);
      Row v; for (int j = 0; j < n.out; ++j) v.push_back(m(r, j));
      got.push_back(v);
    }
  }
  void feed(const AcousticModel &am, const Net &n, const Row &f, int dirty) {
    Vector<float> x(f.size()); for (size_t i = 0; i < f.size(); ++i) x(i) = f[i];
    Matrix<float> out; if (dirty) { out.Resize(3, n.out + 1); fill(&out, 777); }
    am.Process(&inst, x, &out);
    for (size_t i = 0; i < f.size(); ++i) { MC_CHECK(x(i) == f[i], "Process() changed its input"); x(i) = 1e6; }
    in.push_back(f); take(out, n); mc::step();
    MC_CHECK(got.size() <= in.size(), "%d rows after %d frames", (int)got.size(), (int)in.size());
  }
  void end(const AcousticModel &am, const Net &n, int dirty) {
    Matrix<float> out; if (dirty) { out.Resize(2, 2); fill(&out, -5); }
    am.EndOfStream(&inst, &out); take(out, n); mc::step();
  }
  void check(const Net &n) {
    MC_CHECK(got.size() == in.size(), "%d score rows for %d frames", (int)got.size(), (int)in.size());
    Want wt(n);
    for (size_t t = 0; t < in.size(); ++t) {
      std::vector<double> y = wt.row(in, t);
      for (int j = 0; j < n.out; ++j) MC_CHECK(fabs(got[t][j] - y[j]) <= 1e-5 * (1 + fabs(y[j])), "frame %d of %d, pdf %d: score %.7g, expected %.7g", (int)t, (int)in.size(), j, got[t][j], y[j]);
    }
  }
};
static void batches(int ctx, int maxchunk, int maxlen) {
  int L = mc::choose(ctx + 1), R = mc::choose(ctx + 1), kind = mc::choose(4), chunk = 1 + mc::choose(maxchunk);
  Net n = make(L, R, kind, 2, 3); std::unique_ptr<AcousticModel> am = load(n, chunk);
  int pattern = mc::choose(3), dirty = mc::choose(2);
  mc::note("left %d right %d kind %d batch %d", L, R, kind, chunk);
  // every length, on the same acoustic model
  for (int len = 0; len <= maxlen; ++len) {
    Utt u;
    for (int t = 0; t < len; ++t) u.feed(*am, n, frame(t, 2, pattern), dirty);
    u.end(*am, n, dirty); 
    mc::note("length %d", len);
    u.check(n);
    mc::state(mc::fnv(mc::fmt("%d %d %d %d %d", L, R, chunk, len, kind)));
    if (len) mc::outcome(mc::fmt("%.5g %.5g", u.got[len - 1][0], u.got[len / 2][1]));
    mc::validated();
  }
}
// realistic sizes
static void large(int maxlen) {
  static const int C[][2] = { { 15, 10 }, { 0, 12 }, { 13, 0 }, { 5, 20 } };
  static const int B[] = { 1, 7, 8, 16, 50, 64 };
  int c = mc::choose(4), chunk = B[mc::choose(6)];
  Net n = make(C[c][0], C[c][1], mc::choose(2), 40, 9); std::unique_ptr<AcousticModel> am = load(n, chunk);
  int lens[] = { 1, chunk - 1, chunk, chunk + 1, n.R, n.R + 1, n.L + n.R, chunk + n.R - 1, chunk + n.R, chunk + n.R + 1, 2 * chunk + n.R, 2 * chunk + n.R + 1, 3 * chunk + 1, maxlen };
  int len = lens[mc::choose(14)]; Utt u; mc::note("left %d right %d batch %d length %d", n.L, n.R, chunk, len);
  for (int t = 0; t < len; ++t) u.feed(*am, n, frame(t, 40, 0), 0);
  u.end(*am, n, 0); u.check(n); mc::validated();
  mc::state(mc::fnv(mc::fmt("large %d %d %d", c, chunk, len)));
}
// long utterances and large batches
static void longer(int len) {
  static const int C[][2] = { { 15, 10 }, { 0, 12 }, { 40, 40 }, { 0, 0 } }, B[] = { 1, 50, 127, 200, 256, 1000, 1024, 65536 };
  int c = mc::choose(4), chunk = B[mc::choose(8)], cut = mc::choose(3); if (cut == 1) len = len / 2 + 1; if (cut == 2) len = chunk + C[c][1] <= len ? chunk + C[c][1] : len - 1;
  Net n = make(C[c][0], C[c][1], 0, 4, 5); std::unique_ptr<AcousticModel> am = load(n, chunk);
  Utt u; mc::note("left %d right %d batch %d length %d", n.L, n.R, chunk, len);
  auto fr = [](int t) { Row f; for (int j = 0; j < 4; ++j) f.push_back((t * 3 + j * 5) % 11 - 5 + t % 97 * 0.125f); return f; };
  for (int t = 0; t < len; ++t) u.feed(*am, n, fr(t), 0);
  u.end(*am, n, 0); u.check(n); mc::validated(); mc::outcome(mc::fmt("%d %.6g", len, u.got[len / 2][1]));
  mc::state(mc::fnv(mc::fmt("longer %d %d %d", c, chunk, len)));
}
// utterances that share one acoustic model, steps interleaved in every order
static void interleaved(int steps) {
  Net n = make(mc::choose(3), mc::choose(3), 0, 2, 3); int chunk = 1 + mc::choose(3);
  std::unique_ptr<AcousticModel> am = load(n, chunk);
  Utt u[2]; bool ended[2] = { false, false };
  for (int i = 0; i < steps; ++i) {
    int a = mc::choose(3);
    if (a == 2) { int k = ended[0] ? 1 : 0; if (!ended[k]) { u[k].end(*am, n, 0); ended[k] = true; u[k].check(n); mc::note("end %d", k); } continue; }
    if (ended[a]) continue;
    u[a].feed(*am, n, frame(i * 2 + a, 2, 0), 0); mc::note("frame to %d", a);
  }
  for (int k = 0; k < 2; ++k) if (!ended[k]) { u[k].end(*am, n, 0); u[k].check(n); }
  mc::state(mc::fnv(mc::fmt("i %d %d %d", (int)u[0].in.size(), (int)u[1].in.size(), chunk))); mc::validated(2);
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("batches", mc::fmt("left and right context 0..%d x 4 networks x batch 1..%d x every length 0..%d x 3 signals", q ? 4 : 6, q ? 7 : 12, q ? 24 : 60), [=] { batches(q ? 4 : 6, q ? 7 : 12, q ? 24 : 60); });
  mc::add("large", "4 contexts up to 15/20 x 6 batch sizes up to 64 x 14 lengths around the batch ends", [=] { large(q ? 230 : 1000); });
  mc::add("interleaved", mc::fmt("two utterances, all sequences of %d steps, 9 contexts x 3 batch sizes", q ? 7 : 10), [=] { interleaved(q ? 7 : 10); });
  mc::add("long", mc::fmt("4 contexts up to 40/40 x 8 batch sizes up to 65536 x 3 lengths up to %d", q ? 1100 : 8000), [=] { longer(q ? 1100 : 8000); });
  return mc::main(argc, argv);
}
