// C14: WAV headers against a reference parser (every truncation, byte and field
// change) and the sample reader under every way of cutting a stream.
#include "kit.h"
#include "mc.h"
#include <memory>
#include <limits.h>
#include "ce_stt.h"
#include "pcm_reader.h"
#include "util.h"
#include "vector.h"
using namespace pocketkaldi;
using kit::Bytes;

enum Verdict { kReject, kAccept, kEither };
struct Fmt { int ch, rate, bits; };
static int32_t g32(const Bytes &b, int o) { int32_t v; memcpy(&v, b.data() + o, 4); return v; }
static int16_t g16(const Bytes &b, int o) { int16_t v; memcpy(&v, b.data() + o, 2); return v; }
static Verdict judge(const Bytes &b, Fmt *f) {
  if (b.size() < 44) return kReject;
  if (b.compare(0, 4, "RIFF") || b.compare(8, 8, "WAVEfmt ") || b.compare(36, 4, "data")) return kReject;
  if (g32(b, 16) != 16 || g16(b, 20) != 1) return kReject;
  f->ch = g16(b, 22); f->rate = g32(b, 24); f->bits = g16(b, 34);
  int64_t br = g32(b, 28), ba = g16(b, 32);
  bool plain = f->ch == 1 && (f->bits == 8 || f->bits == 16 || f->bits == 24 || f->bits == 32) && f->rate > 0 && (int64_t)f->rate * f->bits <= INT_MAX;
  if (!plain) return kEither;
  if (br != (int64_t)f->rate * f->bits / 8 || ba != f->bits / 8) return kReject;
  int64_t data = (int64_t)b.size() - 44;
  if (g32(b, 40) != data || g32(b, 4) != data + 36) return kEither;
  return kAccept;
}
static void header(const Bytes &b, const char *what) {
  Fmt f = { 0, 0, 0 };
  Verdict v = judge(b, &f);
  std::string p = mc::scratch() + "/h.wav";
  kit::write_file(p, b);
  util::ReadableFile fd; Status s = fd.Open(p);
  MC_CHECK(s.ok(), "open failed");
  ce_wave_format_t w; memset(&w, 0x55, sizeof w);
  s = ReadPcmHeader(&fd, &w);
  if (v == kAccept) MC_CHECK(s.ok(), "%s: a canonical header is rejected: %s", what, s.what().c_str());
  if (v == kReject) MC_CHECK(!s.ok(), "%s: a damaged header is accepted", what);
  if (!s.ok()) { MC_CHECK(!s.what().empty(), "%s: rejected without a message", what); }
  else {
    MC_CHECK(w.num_channels == f.ch && w.sample_rate == f.rate && w.bits_per_sample == f.bits, "%s: reported %d channels, %d Hz, %d bits; the file says %d, %d, %d",
             what, (int)w.num_channels, (int)w.sample_rate, (int)w.bits_per_sample, f.ch, f.rate, f.bits);
    for (size_t i = 44; i <= b.size(); ++i) { char c; bool ok = fd.Read(&c, 1).ok(); MC_CHECK(ok == (i < b.size()) && (!ok || c == b[i]), "%s: not positioned at the first data byte", what); }
    WaveReader r; ce_wave_format_t w2 = w; Status t = r.SetFormat(w2);
    bool sup = f.ch == 1 && f.rate == 16000 && (f.bits == 8 || f.bits == 16 || f.bits == 32);
    MC_CHECK(t.ok() == sup, "%s: %d channels, %d Hz, %d bits is %s", what, f.ch, f.rate, f.bits, t.ok() ? "accepted" : "refused");
  }
  // the whole-file reader agrees
  Vector<float> pcm; Status t = Read16kPcm(p.c_str(), &pcm);
  bool usable = s.ok() && f.ch == 1 && f.rate == 16000 && (f.bits == 8 || f.bits == 16 || f.bits == 32);
  if (!usable) MC_CHECK(!t.ok() && !t.what().empty(), "%s: the whole-file reader accepts the file", what);
  else if (b.size() > 44) {
    MC_CHECK(t.ok(), "%s: the whole-file reader fails: %s", what, t.what().c_str());
    int n = (b.size() - 44) / (f.bits / 8);
    MC_CHECK(pcm.Dim() == n, "%s: %d samples, expected %d", what, pcm.Dim(), n);
    for (int i = 0; i < n; ++i) {
      float want = f.bits == 8 ? (float)(int8_t)b[44 + i] : f.bits == 16 ? (float)g16(b, 44 + 2 * i) : (float)g32(b, 44 + 4 * i);
      MC_CHECK(pcm(i) == want, "%s: sample %d is %g, expected %g", what, i, pcm(i), want);
    }
  }
  mc::step(); mc::outcome(mc::fmt("%d %.30s", (int)s.ok(), s.what().c_str())); mc::state(mc::fnv(b)); mc::validated();
}
static Bytes wav(int bits, int rate, int ch, int data) {
  Bytes b = kit::wav_header(bits, rate, ch, data);
  for (int i = 0; i < data; ++i) b += (char)(i * 57 + 129);
  return b;
}
static Bytes base() {
  static const int B[] = { 16, 8, 32 };
  int bits = B[mc::choose(3)];
  return wav(bits, 16000, 1, mc::pick(std::vector<int>{ 0, 8, 7 }));
}
static void formats() {
  static const int B[] = { 8, 16, 24, 32, 4, 12, 64, 0, 1 };
  static const int R[] = { 16000, 8000, 44100, 15999, 16001, 1, 0, -16000, 96000, 32000 };
  static const int Ch[] = { 1, 2, 0, 3, -1, 257 };
  int bits = B[mc::choose(9)], rate = R[mc::choose(10)], ch = Ch[mc::choose(6)];
  int style = mc::choose(3);      // byte rate per stream, per channel, wrong
  Bytes b = wav(bits, rate, ch, 16);
  if (style) { int32_t br = rate * bits / 8 + (style == 2); int16_t ba = bits / 8; memcpy(&b[28], &br, 4); memcpy(&b[32], &ba, 2); }
  mc::note("%d bits %d Hz %d ch style %d", bits, rate, ch, style);
  header(b, mc::fmt("%d bits %d Hz %d channels style %d", bits, rate, ch, style).c_str());
}
static void truncated() { Bytes b = base(); int n = mc::choose((int)b.size() + 1); mc::note("%d bytes", n); header(b.substr(0, n), mc::fmt("cut to %d bytes", n).c_str()); }
static void bytes() {
  Bytes b = base(); int o = mc::choose((int)std::min<size_t>(b.size(), 46)), v = mc::choose(256);
  if (o >= (int)b.size()) return;
  b[o] = (char)v; mc::note("byte %d = %d", o, v);
  header(b, mc::fmt("byte %d set to %d", o, v).c_str());
}
static void fields() {
  Bytes b = base();
  static const int O[] = { 0, 4, 8, 12, 16, 20, 22, 24, 28, 32, 34, 36, 40 }, W[] = { 4, 4, 4, 4, 4, 2, 2, 4, 4, 2, 2, 4, 4 };
  static const int32_t V[] = { 0, 1, -1, 2, 3, 8, 16, 18, 24, 32, 40, 16000, 32000, 64000, INT_MAX, INT_MIN, 0x7fff, 536870912 };
  std::string d;
  for (int t = 0; t < 2; ++t) { int f = mc::choose(13); int32_t v = V[mc::choose(18)]; memcpy(&b[O[f]], &v, W[f]); d += mc::fmt("field %d = %d ", O[f], v); }
  mc::note("%s", d.c_str());
  header(b, d.c_str());
}

// ---- streams --------------------------------------------------------------
static float sample(const Bytes &b, int bits, int i) { return bits == 8 ? (float)(int8_t)b[i] : bits == 16 ? (float)g16(b, 2 * i) : (float)g32(b, 4 * i); }
static void refuse(WaveReader *r, Vector<float> *out, int k, int bits) {
  char x[4] = { 1, 2, 3, 4 };
  Status s;
  switch (k) {
    case 1: s = r->Process(NULL, 4, out); break;
    case 2: s = r->Process(x, 0, out); break;
    case 3: s = r->Process(x, -1, out); break;
    case 4: { ce_wave_format_t f; memset(&f, 0, sizeof f); f.num_channels = 2; f.sample_rate = 16000; f.bits_per_sample = bits == 8 ? 16 : 8; s = r->SetFormat(f); break; }
    case 5: { ce_wave_format_t f; memset(&f, 0, sizeof f); f.num_channels = 1; f.sample_rate = 8000; f.bits_per_sample = bits == 8 ? 16 : 8; s = r->SetFormat(f); break; }
    case 6: { ce_wave_format_t f; memset(&f, 0, sizeof f); f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = 24; s = r->SetFormat(f); break; }
  }
  MC_CHECK(!s.ok() && !s.what().empty(), "invalid call %d succeeds", k);
}
static void streams(int len, bool errors) {
  static const int B[] = { 8, 16, 32 };
  int bits = B[mc::choose(3)], bps = bits / 8;
  int salt = mc::choose(2);
  WaveReader r;
  Vector<float> out(5);
  { char x[2] = { 0, 0 }; Status s = r.Process(x, 2, &out); MC_CHECK(!s.ok() && !s.what().empty(), "a reader without a format accepts data"); }
  ce_wave_format_t f; memset(&f, 0, sizeof f); f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = bits;
  Status s = r.SetFormat(f); MC_CHECK(s.ok(), "a supported format is refused");
  int rounds = errors ? 2 : 1;
  for (int round = 0; round < rounds; ++round) {
    Bytes b; for (int i = 0; i < len; ++i) b += (char)((i * 73 + 131 + round * 29) ^ (salt ? 0xff : 0));
    int fed = 0, got = 0;
    while (fed < len) {
      if (errors) { int k = mc::choose(7); if (k) { mc::note("invalid %d", k); refuse(&r, &out, k, bits); } }
      int n = 1 + mc::choose(len - fed);
      Bytes part = b.substr(fed, n);                 // exact size: overreads are seen
      char *p = new char[n]; memcpy(p, part.data(), n);
      s = r.Process(p, n, &out);
      delete[] p;
      mc::note("%d bytes", n); mc::step();
      MC_CHECK(s.ok(), "data is refused: %s", s.what().c_str());
      fed += n;
      int whole = fed / bps;
      MC_CHECK(out.Dim() == whole - got, "%d-bit: %d samples after %d bytes, expected %d more than %d", bits, out.Dim(), fed, whole - got, got);
      for (int i = got; i < whole; ++i) MC_CHECK(out(i - got) == sample(b, bits, i), "%d-bit: sample %d is %g, expected %g", bits, i, out(i - got), sample(b, bits, i));
      got = whole;
    }
    if (rounds == 2 && round == 0) r.Reset();
    mc::outcome(mc::fmt("%d %d %d", bits, got, salt));
  }
  mc::validated();
}
// every sample value at both parities of the position
static void values() {
  static const int B[] = { 8, 16, 32 };
  int bits = B[mc::choose(3)], block = mc::choose(256), cut = mc::choose(5);
  Bytes b; b += "";
  if (bits == 8) b += (char)block;
  else if (bits == 16) for (int lo = 0; lo < 256; ++lo) kit::put16(&b, (int16_t)(block << 8 | lo));
  else {
    static const uint32_t E[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x1000001, 0x7fffff80, 0x7fffffff, 0x7fffffbf };
    for (int i = 0; i < 16; ++i) { kit::put32(&b, E[i] ^ (uint32_t)block << 24); kit::put32(&b, -(int32_t)E[i]); kit::put32(&b, ~E[i] + block * 65537u); }
  }
  WaveReader r; ce_wave_format_t f; memset(&f, 0, sizeof f); f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = bits;
  MC_CHECK(r.SetFormat(f).ok(), "a supported format is refused");
  int k = std::min<int>(cut, b.size());
  std::vector<float> all; Vector<float> out;
  for (int part = 0; part < 2; ++part) {
    Bytes x = part ? b.substr(k) : b.substr(0, k); if (x.empty()) continue;
    MC_CHECK(r.Process(x.data(), x.size(), &out).ok(), "data is refused");
    for (int i = 0; i < out.Dim(); ++i) all.push_back(out(i));
  }
  MC_CHECK(all.size() == b.size() / (bits / 8), "%zu samples", all.size());
  for (size_t i = 0; i < all.size(); ++i) { MC_CHECK(all[i] == sample(b, bits, i), "%d-bit sample is %.9g, expected %.9g", bits, all[i], sample(b, bits, i)); mc::outcome(mc::fmt("%g", all[i])); }
  mc::step(all.size()); mc::validated();
}

// calls with up to a megabyte, and streams of many calls
static void large() {
  static const int B[] = { 8, 16, 32 }, S[] = { 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 3200, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 44100, 65535, 65536, 65537, 131072, 131073, 262144, 524289, 1048575, 1048576, 1048577 };
  int bits = B[mc::choose(3)], bps = bits / 8, n = S[mc::choose(31)], off = mc::choose(bits == 8 ? 2 : bps), times = n < 70000 ? 9 : 2;
  WaveReader r; ce_wave_format_t f; memset(&f, 0, sizeof f); f.num_channels = 1; f.sample_rate = 16000; f.bits_per_sample = bits;
  MC_CHECK(r.SetFormat(f).ok(), "a supported format is refused");
  int total = off + n * times; Bytes b(total, 0); for (int i = 0; i < total; ++i) b[i] = (char)(i * 73 + (i >> 8) * 31 + (i >> 16) + 131);
  int fed = 0, got = 0; mc::note("%d-bit, %d bytes then %d calls of %d", bits, off, times, n);
  while (fed < total) {
    int k = fed < off ? off : n; Vector<float> out(5);
    std::unique_ptr<char[]> p(new char[k]); memcpy(p.get(), b.data() + fed, k);
    Status s = r.Process(p.get(), k, &out); MC_CHECK(s.ok(), "%d bytes are refused: %s", k, s.what().c_str());
    fed += k; int whole = fed / bps; mc::step();
    MC_CHECK(out.Dim() == whole - got, "%d-bit: %d samples after %d bytes (+%d), expected %d", bits, out.Dim(), fed, k, whole - got);
    for (int i = got; i < whole; ++i) if (out(i - got) != sample(b, bits, i)) mc::fail("%d-bit: sample %d is %g, expected %g (call of %d bytes)", bits, i, out(i - got), sample(b, bits, i), k);
    got = whole;
  }
  mc::validated(); mc::outcome(mc::fmt("%d %d", bits, got)); mc::state(mc::fnv(mc::fmt("l%d %d %d", bits, n, off)));
}
int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--tier")) mc::C().opt.tier = argv[i + 1];
  bool q = mc::quick();
  mc::add("formats", "9 widths x 10 rates x 6 channel counts x 3 byte rates", [] { formats(); });
  mc::add("truncated", "9 files cut at every byte", [] { truncated(); });
  mc::add("bytes", "every header byte of 9 files replaced by every value", [] { bytes(); });
  mc::add("fields", "every pair of header fields replaced by 18 x 18 values", [] { fields(); });
  mc::add("streams", mc::fmt("every way of cutting %d bytes into chunks, 3 widths", q ? 13 : 18), [=] { streams(q ? 13 : 18, false); });
  mc::add("streams-errors", mc::fmt("every way of cutting two streams of %d bytes with an invalid call or none before each chunk", q ? 3 : 4), [=] { streams(q ? 3 : 4, true); });
  mc::add("values", "every 8- and 16-bit sample value, 48 x 256 32-bit values, 5 offsets of the cut", [] { values(); });
  mc::add("large", "3 widths x calls of 31 sizes up to 1 MiB x offsets", [=] { large(); });
  return mc::main(argc, argv);
}
