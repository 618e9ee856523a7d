// api.h -- helpers to drive the C interface of the recognizer.
#ifndef VERIF_API_H_
#define VERIF_API_H_
#include <memory>
#include "ce_stt.h"
#include "model.h"
namespace api {
struct Result { std::string hyp; float ll; };
inline bool operator==(const Result &a, const Result &b) { return a.hyp == b.hyp && memcmp(&a.ll, &b.ll, 4) == 0; }
inline ce_wave_format_t format(int bits = 16) { ce_wave_format_t f = { 1, 16000, bits }; return f; }
// a recognizer for these options, loaded once per process
inline ce_stt_t *recognizer(const model::Opt &o) {
  static std::map<std::string, ce_stt_t *> cache;
  std::string key = mc::fmt("m-%d-%d-%d-%d-%d-%d%s", o.left, o.right, o.chunk, (int)o.lm, o.layout, o.quiet, o.variant ? "-v" : "");
  ce_stt_t *&r = cache[key];
  if (!r) {
    std::string c = model::write(mc::scratch() + "/" + key, model::files(o));
    r = ce_stt_init(c.c_str());
    MC_CHECK(r != NULL, "a complete model is rejected: %s", ce_stt_last_error());
  }
  return r;
}
// always a NUL-terminated string, also under the address sanitizer
inline std::string hyp(const ce_utt_t *u) { MC_CHECK(u->hyp != NULL, "hyp is NULL"); return std::string(u->hyp); }
inline Result result(const ce_utt_t *u) { Result r; r.hyp = hyp(u); r.ll = u->loglikelihood_per_frame; return r; }
inline int feed(ce_utt_t *u, const kit::Bytes &b, size_t off, size_t n) {
  std::unique_ptr<char[]> p(new char[n]); memcpy(p.get(), b.data() + off, n);   // exact bounds
  return ce_stt_process(u, p.get(), (int)n);
}
inline ce_utt_t *start(ce_stt_t *r, int bits = 16) {
  ce_wave_format_t f = format(bits); ce_utt_t *u = ce_utt_init(r, &f);
  MC_CHECK(u != NULL, "no utterance: %s", ce_stt_last_error());
  return u;
}
// one whole utterance in one call
inline Result whole(ce_stt_t *r, const kit::Bytes &b, int bits = 16) {
  ce_utt_t *u = start(r, bits);
  if (!b.empty()) MC_CHECK(feed(u, b, 0, b.size()) == (int)(b.size() / (bits / 8)), "a whole utterance of %d bytes is not taken: %s", (int)b.size(), ce_stt_last_error());
  ce_stt_end_of_stream(u); Result x = result(u); ce_utt_destroy(u); return x;
}
}  // namespace api
#endif
