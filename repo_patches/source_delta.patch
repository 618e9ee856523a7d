From 117856b6190c234cf30312c938485ec8521336c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 01/32] fix: Pool::Clear() must not destruct elements of
 retained, unused blocks

---
 src/pool.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 0fc9198..154cb98 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -84,8 +84,9 @@ class Pool {
         }
       }
 
-      // The last block
-      T *last_block = blocks_.back();
+      // The last block in use. Blocks after it (kept by a previous Clear())
+      // have no constructed elements
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From 59039b56dbed0b5b9a179ef23d883d5e04828d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 02/32] fix: GCPool::GC() must include the most recently
 allocated node

---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 154cb98..1fae86c 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -185,7 +185,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     // Unmark all elements
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
@@ -218,7 +218,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     int free_count = 0;
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
-- 
2.43.0


From ab8d28dd265efd2fea16a1f4e3accaba50a7798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 03/32] fix: HashTable lookups must terminate when half of the
 buckets are in use

---
 src/hashtable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index 61e5169..a53e238 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -54,8 +54,9 @@ class HashTable {
 
   // Insert or update an element in the hash table
   void Insert(K key, V value) {
-    double size = size_;
-    if (size / bucket_size_ > kLoadFactor) {
+    // Keep at most half of the buckets in use. Probing is only guaranteed to
+    // meet an empty bucket below this limit
+    while ((size_ + 1.0) / bucket_size_ > kLoadFactor) {
       ExtendBuckets();
     }
 
-- 
2.43.0


From 8b267935ca8dad61edf7308c5a647bf910470e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 04/32] fix: Decoder::Process() must not read the best token
 when none is active

---
 src/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..d594007 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -70,6 +70,9 @@ Decoder::~Decoder() {
 bool Decoder::Process(const VectorBase<float> &frame_logp) {
   PK_DEBUG(util::Format("frame: {}", num_frames_decoded_));
 
+  // No hypothesis survived the previous frames, there is nothing to extend
+  if (toks_.empty()) return false;
+
   double cutoff = ProcessEmitting(frame_logp);
   if (!std::isfinite(cutoff)) return false;
   
-- 
2.43.0


From a88e70886c67588d0b619d47930f10d897e65afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 05/32] fix: Decoder::BestPath() must count the final weight
 once

---
 src/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index d594007..503f393 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -427,8 +427,8 @@ Decoder::Hypothesis Decoder::BestPath() {
     assert(words.size() < 100000);
   }
 
+  // best_cost already includes the final weight at the end of stream
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From ca4eb7db58440600bba71751ec37a0e8b45aa47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 06/32] fix: return replaced and pruned tokens to the token
 pool

---
 src/decoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 503f393..b08840c 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -173,7 +173,9 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      Token *replaced_tok = toks_[tok_idx];
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
+      toks_pool_.Dealloc(replaced_tok);
     } else {
       return false;
     }
@@ -342,7 +344,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From a6dcaeef136974b266711a07488a3e8eba3a67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 07/32] fix: ReadableFile::Read() of zero bytes is not an error

---
 src/util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..8f8458c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -118,6 +118,9 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
 }
 
 Status ReadableFile::Read(void *ptr, int size) {
+  // An empty item is always readable
+  if (size == 0) return Status::OK();
+
   if (1 != fread(ptr, size, 1, fd_)) {
     return Status::IOError(util::Format("failed to read: {}", filename_));
   } else {
-- 
2.43.0


From bdfd51ee3b0cc61eba199f5b542106d3cc1aae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 08/32] fix: ReadLine() must return whole lines and accept a
 last line without newline

---
 src/util.cc | 35 ++++++++++++++++++++++-------------
 src/util.h  |  3 +++
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 8f8458c..f7fc45e 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -60,11 +60,12 @@ Status StringToLong(const std::string &str, long *val) {
 }
 
 
-ReadableFile::ReadableFile(): fd_(nullptr), file_size_(0), owned_(true) {
+ReadableFile::ReadableFile():
+    fd_(nullptr), file_size_(0), owned_(true), eof_reported_(false) {
 }
 
 ReadableFile::ReadableFile(FILE *fd):
-    fd_(fd), file_size_(0), owned_(false) {
+    fd_(fd), file_size_(0), owned_(false), eof_reported_(false) {
 }
 
 ReadableFile::~ReadableFile() {
@@ -74,6 +75,7 @@ ReadableFile::~ReadableFile() {
 
 Status ReadableFile::Open(const std::string &filename) {
   filename_ = filename;
+  eof_reported_ = false;
   fd_ = fopen(filename.c_str(), "rb");
   if (fd_ == NULL) {
     return Status::IOError(util::Format("Unable to open {}", filename));
@@ -89,27 +91,34 @@ Status ReadableFile::Open(const std::string &filename) {
 
 bool ReadableFile::ReadLine(std::string *line, Status *status) {
   // Failed if it already reached EOF
-  if (feof(fd_)) {
+  if (eof_reported_) {
     *status = Status::IOError(
         util::Format("EOF already reached: {}", filename_));
     return false;
   }
 
-  // Readline
+  // Readline. A line may be longer than the chunk, and the last line may have
+  // no line break
+  line->clear();
   std::array<char, 4096> chunk;
-  char *s = fgets(chunk.data(), chunk.size(), fd_);
-  if (s == NULL) {
-    if (feof(fd_)) {
-      // First time that reached EOF
-      return false;
-    } else {
-      *status = Status::IOError(filename_);
-      return false;
+  while (line->empty() || line->back() != '\n') {
+    char *s = fgets(chunk.data(), chunk.size(), fd_);
+    if (s == NULL) {
+      if (!feof(fd_)) {
+        *status = Status::IOError(filename_);
+        return false;
+      }
+      if (line->empty()) {
+        // First time that reached EOF
+        eof_reported_ = true;
+        return false;
+      }
+      break;
     }
+    *line += s;
   }
 
   // Trim the tailing '\r' or '\n'
-  *line = s;
   while (line->empty() == false &&
          (line->back() == '\r' || line->back() == '\n')) {
     line->pop_back();
diff --git a/src/util.h b/src/util.h
index 3d23407..a85ca87 100644
--- a/src/util.h
+++ b/src/util.h
@@ -162,6 +162,9 @@ class ReadableFile {
   FILE *fd_;
   int64_t file_size_;
   bool owned_;
+
+  // True once ReadLine() has reported the end of file
+  bool eof_reported_;
 };
 
 // To check if a class have 'previous' field
-- 
2.43.0


From cd78bb661700d7d5b6986e1fc4239d3291794b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 09/32] fix: SymbolTable::Read() must reject negative and out
 of range word ids

---
 src/symbol_table.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..5925886 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -11,6 +11,9 @@ namespace pocketkaldi {
 char kBosSymbol[] = "<s>";
 char kEosSymbol[] = "</s>";
 
+// Word ids are indices of a table, a greater value means that file is damaged
+constexpr long kMaxWordId = 1 << 24;
+
 SymbolTable::SymbolTable(): bos_id_(0), eos_id_(0) {}
 
 Status SymbolTable::Read(const std::string &filename) {
@@ -33,6 +36,13 @@ Status SymbolTable::Read(const std::string &filename) {
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
     
+    if (word_id < 0 || word_id > kMaxWordId) {
+      return Status::Corruption(util::Format(
+          "unexpected word id {} found: {}",
+          word_id,
+          line));
+    }
+
     word_ids_[word] = word_id;
     if (word_id >= words_.size()) words_.resize(word_id + 1);
     words_[word_id] = word;
-- 
2.43.0


From 03ed34eaf4513c6e2a2fe01c2d20a620e795a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:08 +0000
Subject: [PATCH 10/32] fix: Vector::Read() must reject negative dimensions

---
 src/vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..47eaaef 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -282,7 +282,7 @@ Status Vector<Real>::Read(util::ReadableFile *fd) {
   int32_t dim;
   status = fd->ReadValue<int32_t>(&dim);
   if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
     return Status::Corruption(util::Format(
         "section_size = {} * {} + 4 expected, but {} found: {}",
         dim,
-- 
2.43.0


From f6e365ae49759df28579d6ab0247622b5a9e1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 11/32] fix: Matrix::Read() must check its size and the status
 of each row

---
 src/matrix.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..e9e200a 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,13 +169,34 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  if (section_size != sizeof(num_rows) + sizeof(num_cols)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: section_size == {} expected, but {} found: {}",
+        sizeof(num_rows) + sizeof(num_cols),
+        section_size,
+        fd->filename()));
+  }
+
+  // Check the size before allocating memory for it: each row is stored as a
+  // vector in the rest of this file. And only rows == 0, cols == 0 is allowed
+  // for an empty matrix
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0) ||
+      static_cast<double>(num_rows) * num_cols * sizeof(Real) >
+          fd->file_size()) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected size {} x {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
   Vector<Real> row_read;
   for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
     SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
+    PK_CHECK_STATUS(row_read.Read(fd));
     if (row_read.Dim() != this->NumCols()) {
       return Status::Corruption(util::Format(
           "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-- 
2.43.0


From aea6f9480cf9c738412dd31614c169af6075af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 12/32] fix: Fst::Read() must check its header and indices

---
 src/fst.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..efd0d8a 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -74,9 +74,17 @@ Status Fst::Read(util::ReadableFile *fd) {
   status = fd->ReadValue<int32_t>(&start_state);
   if (!status.ok()) return status;  
   start_state_ = start_state;
+  if (state_number < 0 || arc_number < 0 ||
+      start_state < 0 || start_state >= state_number) {
+    return Status::Corruption(util::Format(
+        "unexpected state number, arc number or start state: {}, {}, {}",
+        state_number,
+        arc_number,
+        start_state));
+  }
 
   // Check section size
-  int expected_section_size =
+  int64_t expected_section_size =
       sizeof(state_number) +
       sizeof(arc_number) +
       sizeof(start_state) +
@@ -106,6 +114,20 @@ Status Fst::Read(util::ReadableFile *fd) {
   status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
   if (!status.ok()) return status;
 
+  // Indices of arcs and states
+  for (int32_t idx : state_idx_) {
+    if (idx < -1 || idx >= arc_number) {
+      return Status::Corruption(util::Format("unexpected arc index: {}", idx));
+    }
+  }
+  for (const FstArc &arc : arcs_) {
+    if (arc.next_state < 0 || arc.next_state >= state_number) {
+      return Status::Corruption(util::Format(
+          "unexpected next state: {}",
+          arc.next_state));
+    }
+  }
+
   // Success
   return status;
 }
-- 
2.43.0


From dbf96c3dff176f8ff0133dfeb8b7848642f4834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 13/32] fix: Nnet::Read() must reject sizes its layers are not
 able to use

---
 src/nnet.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/nnet.cc b/src/nnet.cc
index 60609fb..d30b943 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -38,6 +38,9 @@ void LinearLayer::Propagate(
 Status LinearLayer::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(W_.Read(fd));
   PK_CHECK_STATUS(b_.Read(fd));
+  if (b_.Dim() == 0 || b_.Dim() != W_.NumCols()) {
+    return Status::Corruption("LinearLayer: dimension mismatch in W and b");
+  }
 
   return Status::OK();
 }
@@ -80,7 +83,7 @@ Status SpliceLayer::Read(util::ReadableFile *fd) {
 
   int32_t num_indcies = 0;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
-  if (num_indcies < 0) {
+  if (num_indcies <= 0) {
     return Status::Corruption("SpliceLayer: unexpected num_indcies");
   }
 
@@ -119,6 +122,10 @@ void BatchNormLayer::Propagate(
 Status BatchNormLayer::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(scale_.Read(fd));
   PK_CHECK_STATUS(offset_.Read(fd));
+  if (scale_.Dim() == 0 || scale_.Dim() != offset_.Dim()) {
+    return Status::Corruption(
+        "BatchNormLayer: dimension mismatch in scale and offset");
+  }
 
   return Status::OK();
 }
@@ -208,6 +215,10 @@ Status NarrowLayer::Read(util::ReadableFile *fd) {
   int32_t narrow_right = 0;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
 
+  if (narrow_left < 0 || narrow_right < 0) {
+    return Status::Corruption("NarrowLayer: unexpected narrow value");
+  }
+
   narrow_right_ = narrow_right;
   narrow_left_ = narrow_left;
 
@@ -283,6 +294,12 @@ Status Nnet::Read(util::ReadableFile *fd) {
 
   int32_t num_layers;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "unexpected number of layers: {} ({})",
+        num_layers,
+        fd->filename()));
+  }
 
   // Read each layers
   for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
-- 
2.43.0


From 0710737719016b23f476e76f0cdd8d696ca3980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 14/32] fix: AcousticModel::Read() must reject data after the
 last layer

---
 src/am.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index f2e4bfa..0616dd1 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -34,6 +34,12 @@ Status AcousticModel::Read(const Configuration &conf) {
   util::ReadableFile fd;
   PK_CHECK_STATUS(fd.Open(nnet_filename));
   PK_CHECK_STATUS(nnet_.Read(&fd));
+  char unexpected_byte = 0;
+  if (fd.Read(&unexpected_byte, 1).ok()) {
+    return Status::Corruption(util::Format(
+        "unexpected data after the last layer: {}",
+        nnet_filename));
+  }
   fd.Close();
 
   // Read prior
-- 
2.43.0


From 95baff6699538921379f1ced3c8bc13b6fb2eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 15/32] fix: empty results of Fbank::Process() and
 ComputeBatch() are 0 x 0 matrices

---
 src/am.cc    | 2 +-
 src/fbank.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/am.cc b/src/am.cc
index 0616dd1..5eb1a96 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -93,7 +93,7 @@ void AcousticModel::ComputeBatch(Instance *inst,
     assert(batch_size > 0 && "ComputeBatch: insufficient data");
   }
   if (batch_size == 0) {
-    log_prob->Resize(0, log_prob->NumCols());
+    log_prob->Resize(0, 0);
     return;
   }
 
diff --git a/src/fbank.cc b/src/fbank.cc
index 578b20e..e601635 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -268,7 +268,7 @@ void Fbank::Process(
     Matrix<float> *fbank_feature) const {
   // Do nothing when wave is empty
   if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, PK_FBANK_DIM);
+    fbank_feature->Resize(0, 0);
     return;
   }
 
-- 
2.43.0


From a4391e3ed76ed24169f86fb47b79df4aa2ff5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:16 +0000
Subject: [PATCH 16/32] fix: configuration values that are not integers must
 not throw

---
 src/configuration.cc | 31 ++++++++++++++++++++++++++++++-
 src/configuration.h  | 10 ++++------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 6a05c20..a8c5f8f 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -2,6 +2,8 @@
 
 #include "configuration.h"
 
+#include <errno.h>
+#include <stdlib.h>
 #include <string>
 #include <vector>
 #include "util.h"
@@ -84,7 +86,34 @@ std::string Configuration::GetStringOrElse(
 int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
   std::string int_string = GetStringOrElse(key, kDefaultString);
   if (int_string == kDefaultString) return default_val;
-  return std::stoi(int_string);
+
+  int val = 0;
+  return ParseInteger(int_string, &val) ? val : default_val;
+}
+
+Status Configuration::GetInteger(const std::string &key, int *val) const {
+  std::string int_string;
+  PK_CHECK_STATUS(GetString(key, &int_string));
+  if (!ParseInteger(int_string, val)) {
+    return Status::Corruption(util::Format(
+        "Integer expected for key '{}', but '{}' found in '{}'",
+        key,
+        int_string,
+        filename()));
+  }
+  return Status::OK();
+}
+
+bool Configuration::ParseInteger(const std::string &str, int *val) {
+  char *end = nullptr;
+  errno = 0;
+  long long_val = strtol(str.c_str(), &end, 10);
+  if (str.empty() || *end != '\0' || errno != 0 ||
+      long_val < INT_MIN || long_val > INT_MAX) {
+    return false;
+  }
+  *val = static_cast<int>(long_val);
+  return true;
 }
 
 }  // namespace pocketkaldi
diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..faf833d 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -44,12 +44,7 @@ class Configuration {
     *val = path;
     return Status::OK();
   }
-  Status GetInteger(const std::string &key, int *val) const {
-    int int_val = GetIntegerOrElse(key, INT_MIN);
-    if (int_val == INT_MIN) return KeyNotFound(key);
-    *val = int_val;
-    return Status::OK();
-  }
+  Status GetInteger(const std::string &key, int *val) const;
 
   // Get filename
   const std::string &filename() const {
@@ -58,6 +53,9 @@ class Configuration {
 
  private:
   static const std::string kDefaultString;
+
+  // Converts the whole string to integer. If it is not an integer, return false
+  static bool ParseInteger(const std::string &str, int *val);
   
   std::string filename_;
   std::unordered_map<std::string, std::string> table_;
-- 
2.43.0


From 62ea4789daaea191faf32e8c5cb748892eda91da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 17/32] fix: ce_stt_destroy() must free the recognizer itself

---
 src/ce_stt.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..d146e07 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -231,6 +231,8 @@ pasco_init_failed:
 }
 
 void ce_stt_destroy(ce_stt_t *recognizer) {
+  if (recognizer == nullptr) return;
+
   delete recognizer->fst;
   recognizer->fst = nullptr;
 
@@ -251,6 +253,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From 2be62c0fc096044088040ccee0bfb3c9460b609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 18/32] fix: ce_stt_end_of_stream() and ce_utt_destroy() must
 check utt before using it

---
 src/ce_stt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index d146e07..563b6dd 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -287,6 +287,8 @@ ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
 }
 
 void ce_utt_destroy(ce_utt_t *c_utt) {
+  if (c_utt == nullptr) return;
+
   delete[] c_utt->hyp;
   c_utt->hyp = nullptr;
 
@@ -345,11 +347,10 @@ pasco_process_failed:
 
 void ce_stt_end_of_stream(ce_utt_t *c_utt) {
   PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
-
   if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
     return;
   }
+  ce_utt_internal_t *utt = c_utt->internal;
   const ce_stt_t *recognizer = c_utt->internal->recognizer;
 
   // Process remained frames in AM
-- 
2.43.0


From 4723324702fc55ef5e61afb437969b736de33e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:11 +0000
Subject: [PATCH 19/32] fix: loglikelihood_per_frame must be finite when no
 frame is decoded

---
 src/ce_stt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 563b6dd..3257401 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -180,7 +180,8 @@ void StoreHypText(ce_utt_t *utt) {
 
     // pasco_strlcpy will fill the last space as '\0' automatically
     pasco_strlcpy(utt->hyp, text.data(), text.size());
-    utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
+    int num_frames = std::max(decoder->NumFramesDecoded(), 1);
+    utt->loglikelihood_per_frame = hyp.weight() / num_frames;
   } else {
     delete[] utt->hyp;
     utt->hyp = new char[1];
-- 
2.43.0


From d989d76522a6999383b7e5f8b8f8a8b77b30ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 20/32] fix: move assignment of Vector must free its old data

---
 src/vector.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector.cc b/src/vector.cc
index 47eaaef..d4ebef8 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -19,6 +19,9 @@ Vector<Real>::Vector(Vector<Real> &&v) {
 
 template<typename Real>
 Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+
+  Destroy();
   this->dim_ = v.dim_;
   this->data_ = v.data_;
 
-- 
2.43.0


From c00bf0903032f740b271e99689ca118a446d0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 21/32] fix: softmax and log-softmax must not overflow

---
 src/vector.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index d4ebef8..e826247 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -4,6 +4,7 @@
 #include <math.h>
 #include <stdlib.h>
 #include <string.h>
+#include <algorithm>
 #include "util.h"
 
 namespace pocketkaldi {
@@ -96,10 +97,14 @@ Real VectorBase<Real>::VecVec(const VectorBase<Real> &r) const {
 
 template<typename Real>
 void VectorBase<Real>::ApplySoftMax() {
+  if (Dim() == 0) return;
+
+  // Subtract the maximum to prevent overflow of exp()
+  Real max = *std::max_element(data_, data_ + dim_);
   Real sum = 0;
 
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
+    Real exp_d = expf((*this)(i) - max);
     (*this)(i) = exp_d;
     sum += exp_d;
   }
@@ -111,16 +116,20 @@ void VectorBase<Real>::ApplySoftMax() {
 
 template<typename Real>
 void VectorBase<Real>::ApplyLogSoftMax() {
+  if (Dim() == 0) return;
+
+  // Subtract the maximum to prevent overflow of exp()
+  Real max = *std::max_element(data_, data_ + dim_);
   Real sum = 0;
 
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
+    Real exp_d = exp((*this)(i) - max);
     sum += exp_d;
   }
   Real logsum = log(sum);
   
   for (int i = 0; i < Dim(); ++i) {
-    (*this)(i) -= logsum;
+    (*this)(i) = (*this)(i) - max - logsum;
   }
 }
 
-- 
2.43.0


From 41b1e2af301526571055f622b21d1f25ae7bdfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 22/32] fix: NormalizeLayer must give finite results for zero
 and extreme rows

---
 src/nnet.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/nnet.cc b/src/nnet.cc
index d30b943..71eb0ff 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -175,9 +175,19 @@ void NormalizeLayer::Propagate(
   for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
     SubVector<float> row = out->Row(row_idx);
 
-    double squared_sum = row.VecVec(row);
-    float scale = static_cast<float>(sqrt(D / squared_sum));
-    row.Scale(scale);
+    // In double, since the squares may be out of the range of float
+    double squared_sum = 0.0;
+    for (int col_idx = 0; col_idx < row.Dim(); ++col_idx) {
+      squared_sum += static_cast<double>(row(col_idx)) * row(col_idx);
+    }
+
+    // There is nothing to scale in a zero row
+    if (squared_sum == 0.0) continue;
+
+    double scale = sqrt(D / squared_sum);
+    for (int col_idx = 0; col_idx < row.Dim(); ++col_idx) {
+      row(col_idx) = static_cast<float>(row(col_idx) * scale);
+    }
   }
 }
 
-- 
2.43.0


From e030ca35c17703091994aeb0b77eddb62b0145e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 23/32] fix: Quantize() must handle constant and one-sided
 matrices

---
 src/matrix.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index e9e200a..0d472b4 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <math.h>
 #include <cblas.h>
+#include <algorithm>
 #include <limits>
 #include "util.h"
 
@@ -349,7 +350,7 @@ namespace {
 // (src.Stride() == src.NumCols())
 void FindMinMax(const MatrixBase<float> &src, float *pmin, float *pmax) {
   float min = std::numeric_limits<float>::max(),
-        max = std::numeric_limits<float>::min();
+        max = std::numeric_limits<float>::lowest();
 
   for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
     float val = src.Data()[i];
@@ -372,7 +373,14 @@ void ComputeQuantizationParams(const MatrixBase<float> &src,
   float min, max;
   FindMinMax(src, &min, &max);
 
-  double scale = (max - min) / 255.0;
+  // Zero is always in the range, then zero_point is a 8-bit integer
+  min = std::min(min, 0.0f);
+  max = std::max(max, 0.0f);
+
+  // scale should be usable as a float divisor, even if all values are (nearly)
+  // zero
+  double scale = (static_cast<double>(max) - min) / 255.0;
+  scale = std::max<double>(scale, std::numeric_limits<float>::min());
 
   // Find zero-point
   double f_zero_point = -min / scale;
-- 
2.43.0


From eddc8b37dc14b0789377043ac266e9b03d6c9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 24/32] fix: prune_lm.py must accept models that have unigrams
 only

---
 tool/prune_lm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index f3541bf..8383d24 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -36,6 +36,10 @@ for line in sys.stdin:
         f = line.strip().split()
         if line.strip() == '':
             print(line.strip())
+        elif line.strip() == '\\end\\':
+            # A model that has unigrams only
+            state = State.END
+            print(line.strip())
         elif line.strip()[0] == '\\':
             state = State.NGRAM
         elif len(f) in {2, 3}:
-- 
2.43.0


From 41ff8cc55a5cee493788cda250c061f129580a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:07 +0000
Subject: [PATCH 25/32] fix: configuration lines that end in a second '=' are
 malformed

---
 src/configuration.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index a8c5f8f..546ff52 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -34,7 +34,7 @@ Status Configuration::Read(const std::string &filename) {
 
     // Parse the line with key=value format
     fields = util::Split(line, "=");
-    if (fields.size() != 2) {
+    if (fields.size() != 2 || line.back() == '=') {
       return Status::Corruption(util::Format(
           "Unexpected line in {}: {}",
           filename_,
-- 
2.43.0


From 873ab6773d639a162794c102dfe85e56aa6370cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 26/32] fix: ConstFst::Read() must check the sizes and the
 start state in its header

---
 src/openfst/include/fst/const-fst.h | 31 +++++++++++++++++++++++++++++
 src/openfst/include/fst/util.h      |  2 +-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/openfst/include/fst/const-fst.h b/src/openfst/include/fst/const-fst.h
index 09c81c7..92dd3dc 100644
--- a/src/openfst/include/fst/const-fst.h
+++ b/src/openfst/include/fst/const-fst.h
@@ -8,6 +8,7 @@
 #define FST_CONST_FST_H_
 
 #include <climits>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -196,6 +197,28 @@ ConstFstImpl<Arc, Unsigned> *ConstFstImpl<Arc, Unsigned>::Read(
       new ConstFstImpl<Arc, Unsigned>());
   FstHeader hdr;
   if (!impl->ReadHeader(strm, opts, kMinFileVersion, &hdr)) return nullptr;
+  // The number of states and arcs should be possible in a file of this size.
+  int64 max_bytes = std::numeric_limits<int64>::max();
+  if (!strm) {
+    LOG(ERROR) << "ConstFst::Read: Read failed: " << opts.source;
+    return nullptr;
+  }
+  const int64 pos = strm.tellg();
+  if (pos >= 0) {
+    strm.seekg(0, std::ios::end);
+    max_bytes = static_cast<int64>(strm.tellg()) - pos;
+    strm.seekg(pos, std::ios::beg);
+  } else {
+    strm.clear();  // Not seekable, the size is unknown.
+  }
+  if (hdr.NumStates() < 0 || hdr.NumArcs() < 0 ||
+      hdr.NumStates() > std::numeric_limits<StateId>::max() ||
+      hdr.NumStates() > max_bytes / static_cast<int64>(sizeof(ConstState)) ||
+      hdr.NumArcs() > max_bytes / static_cast<int64>(sizeof(Arc)) ||
+      hdr.Start() < kNoStateId || hdr.Start() >= hdr.NumStates()) {
+    LOG(ERROR) << "ConstFst::Read: Bad FST header: " << opts.source;
+    return nullptr;
+  }
   impl->start_ = hdr.Start();
   impl->nstates_ = hdr.NumStates();
   impl->narcs_ = hdr.NumArcs();
@@ -228,6 +251,14 @@ ConstFstImpl<Arc, Unsigned> *ConstFstImpl<Arc, Unsigned>::Read(
     return nullptr;
   }
   impl->arcs_ = reinterpret_cast<Arc *>(impl->arcs_region_->mutable_data());
+  for (StateId s = 0; s < impl->nstates_; ++s) {
+    const auto &state = impl->states_[s];
+    if (state.pos > impl->narcs_ || state.narcs > impl->narcs_ - state.pos) {
+      LOG(ERROR) << "ConstFst::Read: Bad arcs of state " << s << ": "
+                 << opts.source;
+      return nullptr;
+    }
+  }
   return impl.release();
 }
 
diff --git a/src/openfst/include/fst/util.h b/src/openfst/include/fst/util.h
index a89b8c1..e914531 100644
--- a/src/openfst/include/fst/util.h
+++ b/src/openfst/include/fst/util.h
@@ -62,7 +62,7 @@ inline std::istream &ReadType(std::istream &strm, string *s) {  // NOLINT
   strm.read(reinterpret_cast<char *>(&ns), sizeof(ns));
   for (int32 i = 0; i < ns; ++i) {
     char c;
-    strm.read(&c, 1);
+    if (!strm.read(&c, 1)) break;
     *s += c;
   }
   return strm;
-- 
2.43.0


From e20f350d4f82270e47b18ef6c94d2dda920f8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 27/32] fix: ce_stt_init() must reject decoding graphs without
 a start state

---
 src/ce_stt.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 3257401..94d6741 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -126,6 +126,9 @@ Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
     return Status::IOError(filename);
   }
   self->fst = fst;
+  if (fst->Start() == fst::kNoStateId) {
+    return Status::Corruption(Format("no start state: {}", filename));
+  }
 
   return Status::OK();
 }
-- 
2.43.0


From e610bd8a2cb80941014a16c4f7b2a2159aea67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 28/32] fix: prune_lm.py must keep the unigram count however it
 is spaced

---
 tool/prune_lm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index 8383d24..31ba464 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -25,7 +25,7 @@ for line in sys.stdin:
         if line.strip() == '':
             print(line.strip())
         elif len(f) == 2:
-            if f[0].strip() == 'ngram 1':
+            if f[0].split() == ['ngram', '1']:
                 print(line.strip())
         elif line.strip() == '\\1-grams:':
             state = State.UNIGRAM
-- 
2.43.0


From 6161c6734da0bd41ee9b679a87bae85df6b2d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 29/32] fix: BestPath() aborted on utterances of 100000 words
 or more

---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index b08840c..530b57c 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -429,7 +429,6 @@ Decoder::Hypothesis Decoder::BestPath() {
     PK_DEBUG(util::Format("Word: {}", olabel->olabel()));
     words.push_back(olabel->olabel());
     olabel = olabel->previous();
-    assert(words.size() < 100000);
   }
 
   // best_cost already includes the final weight at the end of stream
-- 
2.43.0


From c99b7e9019251ae801ff0505225190f39b84d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 30/32] fix: CMVN kept its running sums in single precision and
 drifted

---
 src/cmvn.cc | 4 ++--
 src/cmvn.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmvn.cc b/src/cmvn.cc
index a50a05c..bf75395 100644
--- a/src/cmvn.cc
+++ b/src/cmvn.cc
@@ -63,8 +63,8 @@ void CMVN::ComputeStats(int frame, Vector<float> *stats) {
   stats->Resize(PK_FBANK_DIM + 1, Vector<float>::kUndefined);
   stats->CopyFromVec(stats_dbl);
   cached_frame_ = frame;
-  cached_stats_.Resize(stats->Dim());
-  cached_stats_.CopyFromVec(*stats);
+  cached_stats_.Resize(stats_dbl.Dim());
+  cached_stats_.CopyFromVec(stats_dbl);
 }
 
 void CMVN::SmoothStats(Vector<float> *stats) {
diff --git a/src/cmvn.h b/src/cmvn.h
index 4ffe406..652b72b 100644
--- a/src/cmvn.h
+++ b/src/cmvn.h
@@ -28,7 +28,7 @@ class CMVN {
  private:
   Matrix<float> raw_feats_;
   Vector<float> global_stats_;
-  Vector<float> cached_stats_;
+  Vector<double> cached_stats_;
   int cached_frame_;
 
   // Apply CMVN to frame
-- 
2.43.0


From 4ea6f088d2cff02f01e4f14d4dc3270b74598aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 31/32] fix: path costs were accumulated in single precision

---
 src/decoder.cc |  8 ++++----
 src/decoder.h  | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 530b57c..dc4e0b2 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -17,7 +17,7 @@ Decoder::State::State(int32_t hclg_state, int32_t lm_state):
 
 Decoder::State::State(): hclg_state_(0), lm_state_(0) {}
 
-Decoder::Token::Token(State state, float cost, OLabel *olabel):
+Decoder::Token::Token(State state, double cost, OLabel *olabel):
     state_(state),
     cost_(cost),
     olabel_(olabel) {
@@ -147,7 +147,7 @@ bool Decoder::InsertTok(
     State next_state,
     int output_label,
     OLabel *prev_olabel,
-    float cost) {
+    double cost) {
   // PK_DEBUG(util::Format("insert state = {}", next_state));
   int tok_idx = state_idx_.Find(next_state, kNotExist);
   
@@ -297,7 +297,7 @@ void Decoder::ProcessNonemitting(double cutoff) {
 }
 
 // Process the emitting (non-epsilon) arcs of each states in the beam
-float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
+double Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
   PK_DEBUG("ProcessEmitting()");
   // Clear the prev_toks_
   state_idx_.Clear();
@@ -309,7 +309,7 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
   // Calculate beam_cutoff of beam
   float adaptive_beam = INFINITY;
   Token *best_tok = 0;
-  float weight_cutoff = GetCutoff(&adaptive_beam, &best_tok);
+  double weight_cutoff = GetCutoff(&adaptive_beam, &best_tok);
   PK_DEBUG(util::Format("weight_cutoff = {}", weight_cutoff));
   PK_DEBUG(util::Format("adaptive_beam = {}", adaptive_beam));
   if (!std::isfinite(weight_cutoff)) return INFINITY;
diff --git a/src/decoder.h b/src/decoder.h
index 4bb3b48..885e691 100644
--- a/src/decoder.h
+++ b/src/decoder.h
@@ -111,14 +111,14 @@ class Decoder {
   // return true if successfully inserted. Otherwise, when the cost of
   // existing tok is less than new one, return false
   bool InsertTok(
-      State next_state, int output_label, OLabel *prev_olabel, float cost);
+      State next_state, int output_label, OLabel *prev_olabel, double cost);
 
   // Processes nonemitting arcs for one frame. Propagates within cur_toks_.
   void ProcessNonemitting(double cutoff);
 
   // Process the emitting (non-epsilon) arcs of each states in the beam
   // \return cutoff of next weight
-  float ProcessEmitting(const VectorBase<float> &frame_logp);
+  double ProcessEmitting(const VectorBase<float> &frame_logp);
 
   // Propogate the lm_state with ilabel in DeltaLmFst. Return the next state
   // in DeltaLmFst and set weight to the cost of transition.
@@ -128,7 +128,7 @@ class Decoder {
   float LogLikelihood(const VectorBase<float> &frame_logp, int trans_id) const;
 
   // Only used in get_cutoff()
-  std::vector<float> costs_;
+  std::vector<double> costs_;
 
   // FST graph used for decoding
   const fst::Fst<fst::StdArc> *fst_;
@@ -217,13 +217,13 @@ class Decoder::Hypothesis {
 
 class Decoder::Token {
  public:
-  Token(State state, float cost, OLabel *olabel);
+  Token(State state, double cost, OLabel *olabel);
 
   // The state in FST
   State state() const { return state_; }
 
   // Current cost
-  float cost() const { return cost_; }
+  double cost() const { return cost_; }
 
   // Head of output label chain
   OLabel *olabel() const { return olabel_; }
@@ -231,7 +231,7 @@ class Decoder::Token {
  private:
   OLabel *olabel_;
   State state_;
-  float cost_;
+  double cost_;
 };
 
 class Decoder::OLabel : public Collectable {
-- 
2.43.0


From 43475c985671a57b76dd3ade989aa59af9d11319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:30 +0000
Subject: [PATCH 32/32] fix: labels kept the memory of all their dropped
 successors

---
 src/decoder.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decoder.h b/src/decoder.h
index 885e691..945ce64 100644
--- a/src/decoder.h
+++ b/src/decoder.h
@@ -26,7 +26,7 @@
 #include <stdint.h>
 #include <math.h>
 #include <vector>
-#include <unordered_map>
+#include <map>
 #include <memory>
 #include "hashtable.h"
 #include "vector.h"
@@ -250,7 +250,7 @@ class Decoder::OLabel : public Collectable {
   // Next state with input label. Return nullptr when next state with ilabel
   // not exist 
   OLabel *next(int ilabel) const {
-    std::unordered_map<int, OLabel *>::const_iterator it = nexts_.find(ilabel);
+    std::map<int, OLabel *>::const_iterator it = nexts_.find(ilabel);
     if (it != nexts_.end()) {
       return it->second;
     } else {
@@ -264,7 +264,7 @@ class Decoder::OLabel : public Collectable {
  private:
   OLabel *previous_;
   int olabel_;
-  std::unordered_map<int, OLabel *> nexts_;
+  std::map<int, OLabel *> nexts_;
 };
 
 }  // namespace pocketkaldi
-- 
2.43.0

