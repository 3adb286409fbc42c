From 3188ce89210b2fa6f0104fead59d3da81e2359bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 01/23] fix: decode feature indexes of 2^31 and more without
 losing bits

The 7-bit groups were shifted as int, so a 64-bit index whose gap needs more
than 31 bits came back wrong (and the shift was undefined).
---
 include/sol/pario/compress.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index b014fd7..cc393f9 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -33,8 +33,8 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
 inline const char* run_len_decode(
     const char* p, uint64_t& i) {  // read an int 7 bits at a time.
   size_t count = 0;
-  while (*p & 128) i = i | ((*(p++) & 127) << 7 * count++);
-  i = i | (*(p++) << 7 * count);
+  while (*p & 128) i = i | ((uint64_t)(*(p++) & 127) << 7 * count++);
+  i = i | ((uint64_t)(*(p++)) << 7 * count);
   return p;
 }
 
-- 
2.43.0


From da6feada7e2a562a5eb86a8998f9d45b4559a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 02/23] fix: iterate a default-constructed Vector as an empty
 one

begin() and end() dereferenced the storage that is only allocated by the first
resize, so decoding the (empty) codes of an empty index list crashed.
---
 include/sol/math/vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/sol/math/vector.h b/include/sol/math/vector.h
index ff749f7..a57d3b7 100644
--- a/include/sol/math/vector.h
+++ b/include/sol/math/vector.h
@@ -108,14 +108,16 @@ class Vector : public Matrix<DType> {
   }
   inline size_t size() const { return this->dim(); }
 
-  inline DType* begin() { return this->storage_->begin(); }
-  inline const DType* begin() const { return this->storage_->begin(); }
-
-  inline DType* end() { return this->storage_->begin() + this->size(); }
-  inline const DType* end() const {
-    return this->storage_->begin() + this->size();
+  inline DType* begin() {
+    return this->storage_ == nullptr ? nullptr : this->storage_->begin();
+  }
+  inline const DType* begin() const {
+    return this->storage_ == nullptr ? nullptr : this->storage_->begin();
   }
 
+  inline DType* end() { return this->begin() + this->size(); }
+  inline const DType* end() const { return this->begin() + this->size(); }
+
   inline const DType& front() const { return *(this->begin()); }
   inline DType& front() { return *(this->begin()); }
 
-- 
2.43.0


From 0f824687c1415845ff3ea166355054d5a3b35bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:48 +0000
Subject: [PATCH 03/23] fix: reject index codes that stop inside a number

Decoding ran past the end of the code bytes when the last byte had its
continuation bit set (a damaged binary data file).
---
 include/sol/pario/compress.h   | 19 ++++++++++++++-----
 src/sol/pario/binary_reader.cc |  4 ++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index cc393f9..bfc7fb7 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -14,6 +14,7 @@
 #endif
 
 #include <sol/math/vector.h>
+#include <sol/util/error_code.h>
 #include <sol/util/types.h>
 
 namespace sol {
@@ -30,10 +31,14 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
   codes.push_back((i & 127));
 }
 
+// returns nullptr if the codes stop inside the int or it exceeds 64 bits
 inline const char* run_len_decode(
-    const char* p, uint64_t& i) {  // read an int 7 bits at a time.
+    const char* p, const char* end,
+    uint64_t& i) {  // read an int 7 bits at a time.
   size_t count = 0;
-  while (*p & 128) i = i | ((uint64_t)(*(p++) & 127) << 7 * count++);
+  while (p < end && (*p & 128) && count < 9)
+    i = i | ((uint64_t)(*(p++) & 127) << 7 * count++);
+  if (p >= end || (*p & 128)) return nullptr;
   i = i | ((uint64_t)(*(p++)) << 7 * count);
   return p;
 }
@@ -62,10 +67,12 @@ inline void comp_index(const math::Vector<T>& indexes,
  *
  * @Param codes: input codes
  * @Param indexes: output indexes
+ *
+ * @Return Status_OK, or Status_Invalid_Format if the codes end inside an index
  */
 template <typename T, typename index_type_traits<T>::type* = nullptr>
-inline void decomp_index(const math::Vector<char>& codes,
-                         math::Vector<T>& indexes) {
+inline int decomp_index(const math::Vector<char>& codes,
+                        math::Vector<T>& indexes) {
   // size_t sz = indexes.size();
   indexes.clear();
   uint64_t last = 0;
@@ -74,7 +81,8 @@ inline void decomp_index(const math::Vector<char>& codes,
   const char* p = codes.begin();
   while (p < codes.end()) {
     index = 0;
-    p = run_len_decode(p, index);
+    p = run_len_decode(p, codes.end(), index);
+    if (p == nullptr) return Status_Invalid_Format;
     index += last;
     last = index;
     indexes.push_back(T(index));
@@ -82,6 +90,7 @@ inline void decomp_index(const math::Vector<char>& codes,
 #if defined(_MSC_VER) && defined(_DEBUG)
   assert(p == codes.end());
 #endif
+  return Status_OK;
 }
 
 }  // namespace pario
diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..1e79348 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -48,8 +48,8 @@ int BinaryReader::Next(DataPoint& dst_data) {
       return Status_Invalid_Format;
     }
     dst_data.Resize(feat_num);
-    decomp_index(this->comp_codes_, dst_data.indexes());
-    if (dst_data.indexes().size() != feat_num) {
+    ret = decomp_index(this->comp_codes_, dst_data.indexes());
+    if (ret != Status_OK || dst_data.indexes().size() != feat_num) {
       fprintf(stderr, "decoded index number is not correct!\n");
       return Status_Invalid_Format;
     }
-- 
2.43.0


From 7c0d50b9f782ebe8b0a4b184a863778c42556dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 04/23] fix: report a binary data file that is cut short or
 contradicts itself

A file ending after the label was returned as a good record with no features,
one ending inside the label as a clean end of file, and nonsensical length
fields made the reader allocate whatever they said.
---
 src/sol/pario/binary_reader.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 1e79348..cb3d8b7 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -8,6 +8,7 @@
 
 #include "sol/pario/binary_reader.h"
 
+#include <algorithm>
 #include <cstdlib>
 
 #include "sol/pario/compress.h"
@@ -23,8 +24,14 @@ int BinaryReader::Open(const std::string& path, const char* mode) {
 int BinaryReader::Next(DataPoint& dst_data) {
   dst_data.Clear();
   label_t label;
-  int ret = this->file_reader_.Read((char*)&label, sizeof(label_t));
+  // the file may only end before the first byte of a record
+  int ret = this->file_reader_.Read((char*)&label, 1);
   if (ret != Status_OK) return ret;
+  ret = this->file_reader_.Read((char*)&label + 1, sizeof(label_t) - 1);
+  if (ret != Status_OK) {
+    fprintf(stderr, "load label failed!\n");
+    return Status_Invalid_Format;
+  }
   dst_data.set_label(label);
 
   size_t feat_num;
@@ -32,7 +39,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
@@ -41,12 +48,23 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "read coded index length failed!\n");
       return Status_Invalid_Format;
     }
-    this->comp_codes_.resize(code_len);
-    ret = this->file_reader_.Read(this->comp_codes_.begin(), code_len);
-    if (ret != Status_OK) {
-      fprintf(stderr, "read coded index failed!\n");
+    // an index takes 1 to 10 bytes
+    if (code_len < feat_num || code_len / 10 > feat_num) {
+      fprintf(stderr, "coded index length is not correct!\n");
       return Status_Invalid_Format;
     }
+    // never allocate much more than the file holds
+    this->comp_codes_.clear();
+    while (this->comp_codes_.size() < code_len) {
+      size_t read_len = this->comp_codes_.size();
+      size_t len = (std::min)(code_len - read_len, size_t(1) << 20);
+      this->comp_codes_.resize(read_len + len);
+      ret = this->file_reader_.Read(this->comp_codes_.begin() + read_len, len);
+      if (ret != Status_OK) {
+        fprintf(stderr, "read coded index failed!\n");
+        return Status_Invalid_Format;
+      }
+    }
     dst_data.Resize(feat_num);
     ret = decomp_index(this->comp_codes_, dst_data.indexes());
     if (ret != Status_OK || dst_data.indexes().size() != feat_num) {
-- 
2.43.0


From 462aa9aa3aff32ef6b4f2a76785eea3a937872e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 05/23] fix: let an example without features be sorted, cloned
 and written

A DataPoint that never got a feature dereferenced its missing storage.
---
 src/sol/pario/data_point.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sol/pario/data_point.cc b/src/sol/pario/data_point.cc
index 71aa345..b91ad2a 100755
--- a/src/sol/pario/data_point.cc
+++ b/src/sol/pario/data_point.cc
@@ -13,7 +13,7 @@
 namespace sol {
 namespace pario {
 
-DataPoint::DataPoint() : label_(0) {}
+DataPoint::DataPoint() : label_(0) { this->data_.resize(0); }
 
 void DataPoint::Clone(DataPoint &dst_pt) const {
   dst_pt.label_ = this->label_;
@@ -41,9 +41,8 @@ void DataPoint::Clear() {
 }
 
 bool DataPoint::IsSorted() const {
-  for (auto iter = this->indexes().begin() + 1; iter < this->indexes().end();
-       ++iter) {
-    if (*iter <= *(iter - 1)) return false;
+  for (size_t i = 1; i < this->size(); ++i) {
+    if (this->index(i) <= this->index(i - 1)) return false;
   }
   return true;
 }
-- 
2.43.0


From c705f1baa4d883dae6ebb35cc7fb8c5893bb8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:51 +0000
Subject: [PATCH 06/23] fix: let a vector append one of its own elements

---
 include/sol/math/vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sol/math/vector.h b/include/sol/math/vector.h
index a57d3b7..4ed5f90 100644
--- a/include/sol/math/vector.h
+++ b/include/sol/math/vector.h
@@ -72,8 +72,10 @@ class Vector : public Matrix<DType> {
   ///
   /// \param elem Element to be pushed
   inline void push_back(const DType& elem) {
+    // elem may be stored in this vector, resizing may move it
+    const DType value = elem;
     this->resize(this->size() + 1);
-    this->back() = elem;
+    this->back() = value;
   }
 
   /// \brief  Pop out the last element, work like a stack
-- 
2.43.0


From 3679503f42b3bc0498ee5c25ec39ad6fa264b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:00 +0000
Subject: [PATCH 07/23] fix: return the loss from the gradient of the uniform
 hinge loss

An inner declaration hid the returned variable, so gradient() always returned 0
and models with this loss never updated. It also computed the loss with another
rounding than loss().
---
 src/sol/loss/hinge_loss.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..a9d25f0 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -137,16 +137,16 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
-        0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    loss = (std::max)(
+        0.0f, this->margin_ - predict[label] + false_predict / false_num);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
         gradient[i] = 0;
       }
     }
   } else {
-    float loss = (std::max)(
-        0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    loss = (std::max)(
+        0.0f, this->margin_ - predict[label] + false_predict / false_num);
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
         if (predict[label] <= predict[i]) {
-- 
2.43.0


From 22a335c762e7cc93de1e7fc4c2fefd1239a360df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:00 +0000
Subject: [PATCH 08/23] fix: give the uniform logistic loss a value when no
 other class scores higher

The loss and its gradient were 0/0, not a number, for every example on which the
true class had the single highest score.
---
 src/sol/loss/logistic_loss.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sol/loss/logistic_loss.cc b/src/sol/loss/logistic_loss.cc
index f5dacca..14dc9a6 100644
--- a/src/sol/loss/logistic_loss.cc
+++ b/src/sol/loss/logistic_loss.cc
@@ -107,6 +107,8 @@ float UniformLogisticLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  // no class scores as high as the true one
+  if (false_num <= 0) return 0;
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
@@ -132,6 +134,11 @@ float UniformLogisticLoss::gradient(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  // no class scores as high as the true one
+  if (false_num <= 0) {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
-- 
2.43.0


From 08084d101188d34bc61efe8e808a1db286ccee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:00 +0000
Subject: [PATCH 09/23] fix: clear the gradient of multi-class losses that are
 zero

It was left as it was before the call, while the two-class losses and the
logistic ones set it to zero.
---
 src/sol/loss/bool_loss.cc  | 8 +++++---
 src/sol/loss/hinge_loss.cc | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sol/loss/bool_loss.cc b/src/sol/loss/bool_loss.cc
index bb11f82..4d34830 100644
--- a/src/sol/loss/bool_loss.cc
+++ b/src/sol/loss/bool_loss.cc
@@ -41,10 +41,10 @@ float MaxScoreBoolLoss::gradient(const pario::DataPoint& dp, float* predict,
   label_t label = dp.label();
   float loss = predict_label == label ? 0.f : 1.f;
 
+  for (int i = 0; i < cls_num; ++i) {
+    gradient[i] = 0;
+  }
   if (loss > 0) {
-    for (int i = 0; i < cls_num; ++i) {
-      gradient[i] = 0;
-    }
     gradient[predict_label] = 1;
     gradient[label] = -1;
   }
@@ -77,6 +77,8 @@ float UniformBoolLoss::gradient(const pario::DataPoint& dp, float* predict,
         gradient[i] = 0;
     }
     gradient[label] = -1;
+  } else {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
   }
   return loss;
 }
diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index a9d25f0..208da6a 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -81,8 +81,8 @@ float MaxScoreHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
   } else {
     loss = (std::max)(0.0f,
                       this->margin_ - predict[label] + predict[predict_label]);
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     if (loss > 0) {
-      for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
       gradient[predict_label] = 1;
       gradient[label] = -1;
     }
@@ -156,6 +156,8 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
         }
       }
       gradient[label] = -1;
+    } else {
+      for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     }
   }
   return loss;
-- 
2.43.0


From e6c082aea84d57da66bfa22adc37c276f2f6df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:49 +0000
Subject: [PATCH 10/23] fix: read the addressed row of a constant matrix

---
 include/sol/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..842ba3f 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -168,7 +168,7 @@ class Matrix
   inline DType& operator()(size_t x, size_t y) { return this->data(y)[x]; }
 
   inline const DType& operator()(size_t x, size_t y) const {
-    return this->data()[x];
+    return this->data(y)[x];
   }
 
   inline DType& operator[](size_t idx) { return this->storage_->begin()[idx]; }
-- 
2.43.0


From 50a91f9e624c58e6aa3a21640ae78139199e3d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:49 +0000
Subject: [PATCH 11/23] fix: return the shape of an example by value

---
 include/sol/math/sparse_vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/sol/math/sparse_vector.h b/include/sol/math/sparse_vector.h
index af2cea7..5647bd1 100644
--- a/include/sol/math/sparse_vector.h
+++ b/include/sol/math/sparse_vector.h
@@ -126,9 +126,8 @@ class SVector
     return sz == 0 ? 0 : this->index(sz - 1) + 1;
   }
 
-  inline const Shape<2>& shape() const {
-    static Shape<2> empty_shape;
-    return this->values_ == nullptr ? empty_shape : this->values_->shape();
+  inline Shape<2> shape() const {
+    return this->values_ == nullptr ? Shape<2>() : this->values_->shape();
   }
 
   inline bool empty() const { return this->values_->empty(); }
-- 
2.43.0


From ce78e5f2ba7ea79656b1238f88155672aed9ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:37 +0000
Subject: [PATCH 12/23] fix: let arithmetic on an example without features do
 nothing

---
 include/sol/math/matrix_expression.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sol/math/matrix_expression.h b/include/sol/math/matrix_expression.h
index 27e73ca..3ebdc6f 100644
--- a/include/sol/math/matrix_expression.h
+++ b/include/sol/math/matrix_expression.h
@@ -186,6 +186,7 @@ void CalcExp(MatrixExp<CType, DType, ExprType::kSparse> &dst,
   CType &mat = dst.self();
   const EType &exp_val = exp.self();
   size_t sz = mat.size();
+  if (sz == 0) return;  // there may be no storage yet
   DType *pdata = mat.values().data();
   for (size_t idx = 0; idx < sz; ++idx) {
     OP::template map<DType>(*pdata++, exp_val[idx]);
-- 
2.43.0


From 3382b8ab3195dd1141da4ceba5f29b0663572f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:08 +0000
Subject: [PATCH 13/23] fix: truncate the weights of every class in STG, not
 only of the first

---
 src/sol/model/olm/ogd.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..4fdfc8b 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -93,21 +93,22 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   size_t feat_num = x.size();
   int t = cur_iter_num_ - 1;
   float alpha = this->eta_ * l1_.lambda();
-  for (int c = 0; c < this->clf_num_; ++c) {
-    auto& w1 = w(c);
-    // trucate weights
-    for (size_t i = 0; i < feat_num; ++i) {
-      index_t idx = x.index(i);
-      int step = int(t - last_trunc_time_[idx]);
-      if (step < k_) continue;
-      step -= step % k_;
-      w1[idx] = truncate(w1[idx], step * alpha);
-      last_trunc_time_[idx] += step;
+  // trucate weights
+  for (size_t i = 0; i < feat_num; ++i) {
+    index_t idx = x.index(i);
+    int step = int(t - last_trunc_time_[idx]);
+    if (step < k_) continue;
+    step -= step % k_;
+    for (int c = 0; c < this->clf_num_; ++c) {
+      w(c)[idx] = truncate(w(c)[idx], step * alpha);
     }
-    // truncate bias
-    w1[0] = truncate(w1[0], l1_.lambda() * bias_eta());
-    last_trunc_time_[0] = real_t(t);
+    last_trunc_time_[idx] += step;
+  }
+  // truncate bias
+  for (int c = 0; c < this->clf_num_; ++c) {
+    w(c)[0] = truncate(w(c)[0], l1_.lambda() * bias_eta());
   }
+  last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
-- 
2.43.0


From 9ff7c4f92aea5f1e5c968d01d83ed6bf28369da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:08 +0000
Subject: [PATCH 14/23] fix: let the regularized learners accept an example
 without features

---
 src/sol/model/olm/ada_fobos.cc | 2 +-
 src/sol/model/olm/ada_rda.cc   | 2 +-
 src/sol/model/olm/arow.cc      | 2 +-
 src/sol/model/regularizer.cc   | 7 ++++---
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..989a39e 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -177,7 +177,7 @@ void AdaFOBOS_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
   const auto& x = dp.data();
   // update H and heap
-  size_t feat_num = x.indexes().size();
+  size_t feat_num = x.size();
   if (this->clf_num_ == 1) {
     if (g(0) == 0) return;
     math::Vector<real_t>& H = this->H_[0];
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..cf577bd 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -203,7 +203,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
   const auto& x = dp.data();
   // update H and heap
-  size_t feat_num = x.indexes().size();
+  size_t feat_num = x.size();
   if (this->clf_num_ == 1) {
     if (g(0) == 0) return;
     math::Vector<real_t>& H = this->H_[0];
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..307ef76 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -182,7 +182,7 @@ void SOFS::Update(const pario::DataPoint& dp, const float* predict,
     w(c)[0] -= this->bias_eta() * g(c) * Sigma[0];
   }
   // update sigma and heap
-  size_t feat_num = x.indexes().size();
+  size_t feat_num = x.size();
   if (this->clf_num_ == 1) {
     if (g(0) == 0) return;
     math::Vector<real_t>& Sigma = this->Sigmas_[0];
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..c391147 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -80,9 +80,10 @@ void LazyOnlineL1Regularizer::EndIterate(const pario::DataPoint &dp,
   const auto &x = dp.data();
   auto &last_update_time = this->last_update_time_;
   real_t time_stamp = real_t(cur_iter_num - 1);
-  x.indexes().slice_op([&last_update_time, time_stamp](const index_t &idx) {
-    last_update_time[idx] = time_stamp;
-  });
+  size_t feat_num = x.size();
+  for (size_t i = 0; i < feat_num; ++i) {
+    last_update_time[x.index(i)] = time_stamp;
+  }
   this->last_update_time_[0] = time_stamp;
 }
 
-- 
2.43.0


From dff8581002afcbf9bd625c6e41e535603dfb1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 15/23] fix: keep the rate of RDA with L1 finite at the first
 example

---
 src/sol/model/olm/rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..cb18e41 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -108,7 +108,7 @@ RDA_L1::RDA_L1(int class_num) : RDA(class_num) { this->regularizer_ = &l1_; }
 
 label_t RDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t t = real_t(cur_iter_num_ - 1.f);
+  real_t t = real_t(cur_iter_num_ - 1 + 1e-20);
   real_t trunc_thresh = l1_.lambda() * t;
   eta_ = 1.f / (t * sigma_);
   for (int c = 0; c < this->clf_num_; ++c) {
-- 
2.43.0


From 4de2c6b637199885f5627173a27830a72dcf8e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:25 +0000
Subject: [PATCH 16/23] fix: end the training of lazily truncated models of a
 preset dimension

---
 include/sol/model/regularizer.h | 2 ++
 src/sol/model/olm/ada_fobos.cc  | 1 +
 src/sol/model/olm/ogd.cc        | 1 +
 src/sol/model/regularizer.cc    | 9 ++++++---
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..48d33a8 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -76,6 +76,8 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
     return this->last_update_time_;
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
+  // make sure the update times cover the given dimension
+  void update_dim(size_t dim);
 
  protected:
   real_t initial_t_;
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 989a39e..58678ab 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -113,6 +113,7 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 }
 
 void AdaFOBOS_L1::EndTrain() {
+  l1_.update_dim(this->dim_);
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 4fdfc8b..2f7f3e1 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -157,6 +157,7 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 }
 
 void FOBOS_L1::EndTrain() {
+  l1_.update_dim(this->dim_);
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
     // trucate weights
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c391147..4f2148d 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -65,10 +65,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->update_dim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::update_dim(size_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From e4a1514b34c0ab43dfc446f1cd38274b0f28cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:37 +0000
Subject: [PATCH 17/23] fix: leave examples without any value unchanged when
 normalizing

---
 src/sol/model/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..4942fee 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -302,11 +302,11 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        if (norm > 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm > 0) x.data() /= sqrt(norm);
       default:
         break;
     }
-- 
2.43.0


From af39b04bf225fc4797d04660a7bc95c307215fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:38 +0000
Subject: [PATCH 18/23] fix: refuse empty lists of pre-selected features and
 negative indexes in them

---
 src/sol/model/model.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 4942fee..1bcf23b 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -334,7 +334,6 @@ int Model::LoadPreSelFeatures(const string& path) {
     return Status_IO_Error;
   }
 
-  index_t index = 0;
   string line;
   vector<index_t> indexes;
   // load feature indexes
@@ -344,12 +343,17 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
-    if (index <= 0) {
+    int val = stoi(line);
+    if (val <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
-    indexes.push_back(index);
+    indexes.push_back((index_t)val);
+  }
+
+  if (indexes.empty()) {
+    cerr << "no pre-selected features found in " << path << "\n";
+    return Status_Invalid_Format;
   }
 
   // find the max index
-- 
2.43.0


From 9dc2e5691b71deb19703c4add64e06aae7ca2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:56 +0000
Subject: [PATCH 19/23] fix: check again for elements after every wait in
 BlockQueue::Dequeue of several

---
 include/sol/util/block_queue.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..0d8714f 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -146,14 +146,12 @@ class BlockQueue {
 
     int i = 0;
     for (i = 0; i < num; ++i) {
-      if (this->elem_num_ == 0) {
-        if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
-          this->nonfull_.notify_all();
-          this->nonempty_.wait();
-        } else {
-          break;
-        }
+      while (this->elem_num_ == 0 && force == true && i > 0 &&
+             elem_list[i - 1] != nullptr) {
+        this->nonfull_.notify_all();
+        this->nonempty_.wait();
       }
+      if (this->elem_num_ == 0) break;
       elem_list[i] = this->elems_[this->head_];
       this->head_ = (this->head_ + 1) % this->queue_size_;
       --this->elem_num_;
-- 
2.43.0


From 22efc8c55689f6942c25c76e1ec8d7e5c2a0898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:29 +0000
Subject: [PATCH 20/23] fix: let a data iterator be destroyed while its reader
 still takes batches

---
 include/sol/util/block_queue.h | 18 ++++++++++++++++++
 src/sol/pario/data_iter.cc     |  7 +++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 0d8714f..986e4c7 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  take the first element if there is one, never blocks
+  ///
+  /// \param elem storage to save the element
+  ///
+  /// \return true if an element has been dequeued
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool found = this->elem_num_ > 0;
+    if (found) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return found;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..3a0b98d 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -27,14 +27,13 @@ DataIter::DataIter(int batch_size, int batch_num)
 
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
-  // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  // clear mini_batch_factory_ (a running reader may take from it meanwhile)
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 
   // send exit signal to readers
-  this->mini_batch_factory_.Enqueue(mb);
+  this->mini_batch_factory_.Enqueue(nullptr);
 
   // clear mini_batch_buf_
   int reader_count = static_cast<int>(this->readers_.size());
-- 
2.43.0


From a342a86b23ac3130d19a180b1a4b19e8af804306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:12 +0000
Subject: [PATCH 21/23] fix: refuse a negative number of features in FOFS

---
 src/sol/model/olm/fofs.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..346e317 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -24,8 +24,9 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     this->lambda_ = stof(value);
     Check(this->lambda_ >= 0);
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int B = stoi(value);
+    Check(B > 0);
+    this->B_ = static_cast<index_t>(B);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From 549f5e76eb95f3499c03a749f8b8f2691802477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:26 +0000
Subject: [PATCH 22/23] fix: parse numbers without overflow, loss of digits or
 accepting text as zero

---
 include/sol/pario/numeric_parser.h | 166 ++++++++++++++++-------------
 1 file changed, 93 insertions(+), 73 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..79cf115 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -24,45 +24,68 @@ class SOL_EXPORTS NumericParser {
     return p;
   }
 
+  static inline bool is_digit(char c) { return c >= '0' && c <= '9'; }
+
+  /// \brief  Parse an unsigned integer, which may be written with decimals and
+  /// an exponent as long as its value is an integer
+  ///
+  /// \param p text after the sign
+  /// \param limit maximum value
+  /// \param val parsed value
+  ///
+  /// \return end of the number, nullptr if there is no such number
+  static inline char* ParseNatural(char* p, unsigned int limit,
+                                   unsigned int& val) {
+    unsigned long long acc = 0;
+    int digits = 0, num_dec = 0, exp_acc = 0;
+    for (; is_digit(*p); ++p, ++digits) {
+      acc = acc * 10 + (*p - '0');
+      if (acc > limit) return nullptr;
+    }
+    if (*p == '.') {
+      for (++p; is_digit(*p); ++p, ++num_dec) {
+        acc = acc * 10 + (*p - '0');
+        if (acc > limit) return nullptr;
+      }
+    }
+    if (digits + num_dec == 0) return nullptr;
+    if (*p == 'e' || *p == 'E') {
+      ++p;
+      if (*p == '+') ++p;
+      if (!is_digit(*p)) return nullptr;
+      for (; is_digit(*p); ++p) {
+        exp_acc = exp_acc * 10 + (*p - '0');
+        if (exp_acc > 100000) return nullptr;
+      }
+    }
+    if (exp_acc < num_dec) return nullptr;
+    for (; exp_acc > num_dec && acc > 0; --exp_acc) {
+      acc *= 10;
+      if (acc > limit) return nullptr;
+    }
+    val = (unsigned int)(acc);
+    return p;
+  }
+
   // The following function is a home made strtoi
   static inline int ParseInt(char* p, char*& end) {
     end = p;
     p = strip_line(p);
 
-    // no input, return 0, end == p
-    if (*p == '\0') return 0;
-
-    int s = 1;
+    bool neg = false;
     if (*p == '+')
       p++;
     else if (*p == '-') {
-      s = -1;
-      p++;
-    }
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
-
-    int num_dec = 0;
-    if (*p == '.') {
-      p++;
-      while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
-      }
-    }
-    int exp_acc = 0;
-    if (*p == 'e' || *p == 'E') {
+      neg = true;
       p++;
-      if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
     }
-    if (exp_acc < num_dec)
-      return 0;
-    else if (exp_acc > 0)
-      acc *= (int)(powf(10.f, (float)(exp_acc - num_dec)));
+    unsigned int acc = 0;
+    p = ParseNatural(p, neg ? 0x80000000u : 0x7fffffffu, acc);
+    // no input or out of range, return 0, end is not moved
+    if (p == nullptr) return 0;
 
     end = strip_line(p);
-    return s * acc;
+    return int(neg ? 0u - acc : acc);
   }
 
   // The following function is a home made strtoi
@@ -70,28 +93,11 @@ class SOL_EXPORTS NumericParser {
     end = p;
     p = strip_line(p);
 
-    if (*p == '\0') return 0;
     unsigned int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    p = ParseNatural(p, 0xffffffffu, acc);
+    // no input or out of range, return 0, end is not moved
+    if (p == nullptr) return 0;
 
-    int num_dec = 0;
-    if (*p == '.') {
-      p++;
-      while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
-      }
-    }
-    int exp_acc = 0;
-    if (*p == 'e' || *p == 'E') {
-      p++;
-      if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-    }
-    if (exp_acc < num_dec)
-      return 0;
-    else if (exp_acc > 0)
-      acc *= (unsigned int)(powf(10.f, (float)(exp_acc - num_dec)));
     end = strip_line(p);
     return acc;
   }
@@ -105,47 +111,61 @@ class SOL_EXPORTS NumericParser {
     end = p;
     p = strip_line(p);
 
-    if (*p == '\0') return 0;
-
-    int s = 1;
-    if (*p == '+') p++;
-    if (*p == '-') {
-      s = -1;
+    bool neg = false;
+    if (*p == '+')
+      p++;
+    else if (*p == '-') {
+      neg = true;
       p++;
     }
 
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    double acc = 0;
+    int exp_acc = 0;
+    bool has_digit = false;
+    for (; is_digit(*p); ++p) {
+      has_digit = true;
+      // further digits are beyond the precision
+      if (acc < 1e17)
+        acc = acc * 10 + (*p - '0');
+      else if (exp_acc < 100000)
+        ++exp_acc;
+    }
 
-    int num_dec = 0;
     if (*p == '.') {
-      p++;
-      while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
+      for (++p; is_digit(*p); ++p) {
+        has_digit = true;
+        if (acc < 1e17 && exp_acc > -100000) {
+          acc = acc * 10 + (*p - '0');
+          --exp_acc;
+        }
       }
-      while (*p >= '0' && *p <= '9') p++;
     }
+    // no input, return 0, end is not moved
+    if (!has_digit) return 0;
 
-    int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
-      int exp_s = 1;
-      if (*p == '+') p++;
-      if (*p == '-') {
-        exp_s = -1;
+      bool exp_neg = false;
+      if (*p == '+')
         p++;
+      else if (*p == '-') {
+        exp_neg = true;
+        p++;
+      }
+      if (!is_digit(*p)) return 0;
+      int exp_val = 0;
+      for (; is_digit(*p); ++p) {
+        if (exp_val < 100000) exp_val = exp_val * 10 + (*p - '0');
       }
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-      exp_acc *= exp_s;
+      exp_acc += exp_neg ? -exp_val : exp_val;
     }
-    exp_acc -= num_dec;
     end = strip_line(p);
-    if (exp_acc == 0) {
-      return float(s * acc);
-    } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+    // the scale is applied in two steps as it may be beyond the range of double
+    if (acc != 0 && exp_acc != 0) {
+      int half = exp_acc / 2;
+      acc = acc * std::pow(10.0, half) * std::pow(10.0, exp_acc - half);
     }
+    return float(neg ? -acc : acc);
   }
 
 };  // class NumericParser
-- 
2.43.0


From 0d7e6248f09b9303ca094e2ddd988337b5d837cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:26 +0000
Subject: [PATCH 23/23] fix: write indexes above 2^31 and examples without
 features

---
 src/sol/pario/binary_writer.cc | 2 +-
 src/sol/pario/csv_writer.cc    | 2 +-
 src/sol/pario/svm_writer.cc    | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sol/pario/binary_writer.cc b/src/sol/pario/binary_writer.cc
index b72afec..7ddbea1 100755
--- a/src/sol/pario/binary_writer.cc
+++ b/src/sol/pario/binary_writer.cc
@@ -22,7 +22,7 @@ int BinaryWriter::Open(const std::string& path, const char* mode) {
 int BinaryWriter::Write(const DataPoint& data) {
   label_t label = data.label();
   this->file_writer_.Write((char*)&label, sizeof(label));
-  size_t feat_num = data.indexes().size();
+  size_t feat_num = data.size();
 
   this->file_writer_.Write((char*)&feat_num, sizeof(feat_num));
   if (feat_num > 0) {
diff --git a/src/sol/pario/csv_writer.cc b/src/sol/pario/csv_writer.cc
index aae469c..7a4a0c8 100755
--- a/src/sol/pario/csv_writer.cc
+++ b/src/sol/pario/csv_writer.cc
@@ -14,7 +14,7 @@ namespace sol {
 namespace pario {
 
 int CSVWriter::Write(const DataPoint& data) {
-  size_t feat_num = data.indexes().size();
+  size_t feat_num = data.size();
   this->file_writer_.Printf("%d", data.label());
 
   size_t i = 0;
diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..167327e 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -14,10 +14,10 @@ namespace sol {
 namespace pario {
 
 int SVMWriter::Write(const DataPoint &data) {
-  size_t feat_num = data.indexes().size();
+  size_t feat_num = data.size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return Status_OK;
-- 
2.43.0

