// Reads files with the recognizer's own loaders and prints what they hold.
#include <stdio.h>
#include <string.h>
#include <iostream>
#include <sstream>
#include "fst.h"
#include "matrix.h"
#include "nnet.h"
#include "symbol_table.h"
#include "util.h"
#include "vector.h"
using namespace pocketkaldi;
static void hex(float f) { uint32_t u; memcpy(&u, &f, 4); printf(" %08x", u); }
static bool open(util::ReadableFile *fd, const std::string &p) { Status s = fd->Open(p); if (!s.ok()) printf("ERR %s\n", s.what().c_str()); return s.ok(); }
static bool rest(util::ReadableFile *fd) { char c; return fd->Read(&c, 1).ok(); }
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::stringstream ss(line); std::string k, p; ss >> k >> p; util::ReadableFile fd;
    if (!open(&fd, p)) { fflush(stdout); continue; }
    Status s;
    if (k == "vecf") { Vector<float> v; s = v.Read(&fd); if (s.ok()) { printf("OK"); for (int i = 0; i < v.Dim(); ++i) hex(v(i)); } }
    else if (k == "veci") { Vector<int32_t> v; s = v.Read(&fd); if (s.ok()) { printf("OK"); for (int i = 0; i < v.Dim(); ++i) printf(" %d", v(i)); } }
    else if (k == "nnet") {
      int rows, cols; ss >> rows >> cols; Nnet n; s = n.Read(&fd);
      if (s.ok()) {
        printf("OK %d %d", n.left_context(), n.right_context());
        if (rows) {
          Matrix<float> in(rows, cols), out; for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) in(i, j) = (i * 3 + j * 5) % 7 - 3 + 0.25f * j;
          n.Propagate(in, &out); printf(" %d %d", out.NumRows(), out.NumCols()); for (int i = 0; i < out.NumRows(); ++i) for (int j = 0; j < out.NumCols(); ++j) hex(out(i, j));
        }
      }
    } else if (k == "lm") {
      int states; ss >> states; LmFst f; s = f.Read(&fd);
      if (s.ok()) {
        printf("OK %d", f.StartState());
        for (int i = 0; i < states; ++i) { hex(((Fst &)f).Fst::Final(i)); Fst::ArcIterator it = f.IterateArcs(i); const FstArc *a; while ((a = it.Next()) != NULL) { printf(" %d:%d:%d", a->next_state, a->input_label, a->output_label); hex(a->weight); } printf(" |"); }
      }
    }
    if (!s.ok()) printf("ERR %s\n", s.what().c_str()); else printf("%s\n", rest(&fd) ? " REST" : "");
    fflush(stdout);
  }
  return 0;
}
