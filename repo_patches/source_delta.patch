From ac78a9b77670f3f55f2284865314d2f4f237e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 01/48] fix: length and backward distance of a day-of-week
 range

---
 src/frequency/f_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frequency/f_base.cpp b/src/frequency/f_base.cpp
index 55d4f3d..24b0023 100644
--- a/src/frequency/f_base.cpp
+++ b/src/frequency/f_base.cpp
@@ -230,7 +230,7 @@ DayOfWeekRange::DayOfWeekRange(DayOfWeek start, DayOfWeek end) {
 Ti DayOfWeekRange::GetLength() const {
   Ti start = (Ti)mStart;
   Ti end = (Ti)mEnd;
-  if (end > start)
+  if (end >= start)
     return (Ti)end - start + 1;
   else
     return 7 - (start - end) + 1;
@@ -248,7 +248,7 @@ Ti DayOfWeekRange::Distance(DayOfWeek start, DayOfWeek end, bool forward) {
     if (s >= e)
       return s - e;
     else
-      return 7 - s + e;
+      return 7 + s - e;
   }
 }
 
-- 
2.43.0


From 5090581feb60aeb2700ac553e822ef0fc1e027a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 02/48] fix: ordering of list frequencies outside the list

---
 src/frequency/f_list.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/frequency/f_list.cpp b/src/frequency/f_list.cpp
index 1d2718c..3f8c245 100644
--- a/src/frequency/f_list.cpp
+++ b/src/frequency/f_list.cpp
@@ -51,13 +51,10 @@ template <typename T> void FrequencyList<T>::Next(Ti steps) {
 }
 
 template <typename T> Ti FrequencyList<T>::CompareTo(Frequency const &other) {
-  CheckClassEquality(*this, other);
-  auto second = dynamic_cast<FrequencyList<T> const &>(other);
-  auto i1 = GetIndex();
-  auto i2 = second.GetIndex();
-  if (i1 > i2)
+  auto diff = Minus(other); // it takes 'OutIndex' into account
+  if (diff > 0)
     return 1;
-  else if (i1 < i2)
+  else if (diff < 0)
     return -1;
   return 0;
 }
-- 
2.43.0


From 453dc22de0944993dc5261317dfd70e1d941701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 03/48] fix: moments of an array without observations

---
 include/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index d74f38d..b1b045c 100644
--- a/include/array.h
+++ b/include/array.h
@@ -651,9 +651,12 @@ public:
 
     if (sumW == 0) {
       mean = NAN;
-      *variance = NAN;
-      *skewness = NAN;
-      *kurtosis = NAN;
+      if (variance)
+        *variance = NAN;
+      if (skewness)
+        *skewness = NAN;
+      if (kurtosis)
+        *kurtosis = NAN;
     } else {
 
       if constexpr (moments >= 2) {
-- 
2.43.0


From 7bdf9e5e727b27e025f01295efaf5e2f56af2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 04/48] fix: range of an empty array

---
 src/array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array.cpp b/src/array.cpp
index 24a4a13..153c878 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -30,6 +30,8 @@ template <typename Tw>
 IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length) {
 
   if constexpr (std::numeric_limits<Tw>::has_quiet_NaN) {
+    if (length == 0)
+      return IndexRange(1, 0);
     Ti start, end;
     for (start = 0; start < length; start++)
       if (std::isnan(data[start]) == false)
@@ -56,6 +58,8 @@ IndexRange Array<Tw>::GetRange(const Tw *data, const Ti &length,
   if constexpr (std::numeric_limits<Tw>::has_quiet_NaN) {
     Ti start, end;
     hasMissing = false;
+    if (length == 0)
+      return IndexRange(1, 0);
     for (start = 0; start < length; start++)
       if (std::isnan(data[start]) == false)
         break;
-- 
2.43.0


From 2e37ccf5c6a662828f2c868beac0e71e8029b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 05/48] fix: equal partitions from the end of a divisible array

---
 src/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 153c878..c2ab991 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -133,7 +133,7 @@ void Array<Tw>::PartitionEqual(const std::vector<Tw> &data,
                                bool fromEnd) {
   result.clear();
   if (fromEnd) {
-    for (Ti i = (Ti)data.size(); i >= 0; i -= size) {
+    for (Ti i = (Ti)data.size(); i > 0; i -= size) {
       int start = std::max(i - size, 0);
       result.insert(result.begin(),
                     std::vector<Tw>(data.begin() + start, data.begin() + i));
-- 
2.43.0


From a74fc690fae9beaa68a8d7a05fc8927066de878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 06/48] fix: upper extreme bound of all-negative estimates

---
 src/ldt_statistics/modeling/search/modelset.cpp | 2 +-
 src/ldt_statistics/modeling/search/summary.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/search/modelset.cpp b/src/ldt_statistics/modeling/search/modelset.cpp
index 10325ad..062eef0 100644
--- a/src/ldt_statistics/modeling/search/modelset.cpp
+++ b/src/ldt_statistics/modeling/search/modelset.cpp
@@ -252,7 +252,7 @@ void ModelSet::CombineExtremeBounds(
                        "list of search summaries is empty!");
 
   min = std::numeric_limits<Tv>::max();
-  max = std::numeric_limits<Tv>::min();
+  max = std::numeric_limits<Tv>::lowest();
 
   for (auto &s : summaries) {
     if (s->Index1 == index1 && s->Index2 == index2 && s->Index3 == index3) {
diff --git a/src/ldt_statistics/modeling/search/summary.cpp b/src/ldt_statistics/modeling/search/summary.cpp
index 1e5ea6b..82e1fe3 100644
--- a/src/ldt_statistics/modeling/search/summary.cpp
+++ b/src/ldt_statistics/modeling/search/summary.cpp
@@ -129,7 +129,7 @@ SearcherSummary::SearcherSummary(Ti Index1, Ti Index2, Ti Index3,
 
   if (pItems->ExtremeBoundsMultiplier > 0)
     ExtremeBounds = std::vector<Tv>(
-        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::min()});
+        {std::numeric_limits<Tv>::max(), std::numeric_limits<Tv>::lowest()});
   if (pItems->KeepInclusionWeights) {
     InclusionsInfo = std::vector<RunningMoments<1, true, false, Tv>>(
         data->NumEndo + data->NumExo);
-- 
2.43.0


From e728e9685b58bbf33177aff2ac4a6591da008410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 07/48] fix: pessimistic ROC curve moves horizontally before
 moving vertically

---
 src/ldt_statistics/scoring/roc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/scoring/roc.cpp b/src/ldt_statistics/scoring/roc.cpp
index fb34cf0..b471b6a 100644
--- a/src/ldt_statistics/scoring/roc.cpp
+++ b/src/ldt_statistics/scoring/roc.cpp
@@ -65,8 +65,8 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
     if (std::abs(th - thPre) > options.Epsilon) { // push new point(s)
       sumTP += verti; // overall vertical move (for the rectangle)
       sumFP += horiz;
-      if (options.Pessimistic)
-        Points.push_back(std::make_tuple(sumFP, 0)); // no vertical move
+      if (options.Pessimistic) // horizontal move before the vertical one
+        Points.push_back(std::make_tuple(sumFP, sumTP - verti));
       Points.push_back(std::make_tuple(sumFP, sumTP));
       thPre = th;
       horiz = 0;
@@ -109,6 +109,8 @@ void ROC<hasWeight, hasCost>::Calculate(const Matrix<Tv> &y,
 
   sumTP += verti;
   sumFP += horiz;
+  if (options.Pessimistic)
+    Points.push_back(std::make_tuple(sumFP, sumTP - verti));
   Points.push_back(std::make_tuple(sumFP, sumTP));
 
   if (normalizePoints) {
-- 
2.43.0


From a19ab4a6fd09c334bb01b737b8e2cd16cfb077fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 08/48] fix: frequency cost of a probability above the last
 threshold

---
 src/ldt_statistics/scoring/frequency_cost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/scoring/frequency_cost.cpp b/src/ldt_statistics/scoring/frequency_cost.cpp
index 43ea9a8..690ce89 100644
--- a/src/ldt_statistics/scoring/frequency_cost.cpp
+++ b/src/ldt_statistics/scoring/frequency_cost.cpp
@@ -42,7 +42,8 @@ void FrequencyCost<hasWeight>::Calculate(const std::vector<Matrix<Tv>> &costs,
       j++;
       // first column of 'c' is the thresholds. e.g. [0.3, 0.7, 1] means four
       // probability bounds
-      for (rowIndex = 0; rowIndex < c.RowsCount; rowIndex++) {
+      // (the last row is used for the values above the last threshold too)
+      for (rowIndex = 0; rowIndex < c.RowsCount - 1; rowIndex++) {
         if (c.Get0(rowIndex, 0) >= maxprob)
           break;
       }
-- 
2.43.0


From c4abd30c3218d01e63dbfeab41083752fc029b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 09/48] fix: scoring name rmspe was read as rmse

---
 include/math/statistics/scoring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/statistics/scoring.h b/include/math/statistics/scoring.h
index b1e66b1..b4df4ac 100644
--- a/include/math/statistics/scoring.h
+++ b/include/math/statistics/scoring.h
@@ -180,10 +180,10 @@ inline ScoringType FromString_ScoringType(const char *v) {
     return ScoringType::kMae;
   else if (StartsWith("map", v))
     return ScoringType::kMape;
-  else if (StartsWith("rms", v))
-    return ScoringType::kRmse;
   else if (StartsWith("rmsp", v))
     return ScoringType::kRmspe;
+  else if (StartsWith("rms", v))
+    return ScoringType::kRmse;
 
   else if (StartsWith("crp", v))
     return ScoringType::kCrps;
-- 
2.43.0


From 8f5ae47dd2d041aa3fab84c9225ac0685b011105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 10/48] fix: stratified split with an invalid training size
 wrote outside its storage

---
 src/ldt_statistics/data_split.cpp | 40 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/ldt_statistics/data_split.cpp b/src/ldt_statistics/data_split.cpp
index 19327aa..692dd24 100644
--- a/src/ldt_statistics/data_split.cpp
+++ b/src/ldt_statistics/data_split.cpp
@@ -33,6 +33,12 @@ void DataSplitDiscrete::Calculate(const Matrix<Tv> &data, Tv *storage,
   Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
                             : static_cast<Ti>(std::round(rows * trainRatio));
   Ti N1 = rows - N0;
+
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "datasplit",
+                       "training sample size is too low/high with respect to "
+                       "the available observations");
+
   Sample0.SetData(storage, N0, cols);
   Sample1.SetData(&storage[N0 * cols], N1, cols);
 
@@ -81,10 +87,20 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
      ii = 0; // index we set rows of x0 and y0 in different groups
   Ti jj = 0; // index we set rows of x1 and y1
 
+  // number of training observations in all groups, except the last one
+  auto trainCount = [this](Ti count) -> Ti {
+    Ti c = static_cast<Ti>(std::round(mTrainRatio * count));
+    if (c >= count)
+      c = count - 1;
+    if (c == 0) // don't use 'else', because it might have just 1 obs. Of
+                // course, there is no change to test this group
+      c = 1;
+    return c;
+  };
+
+  // check the length of the last group before moving any observation
   for (auto a : CountsSortedIndexes) {
-    // Tv aa = static_cast<Tv>(a);
     Mi = Counts.at(a);
-    Rowi = Rows.at(a).get();
     if (b == mNumChoices - 1) {
       Mi0 = N0 - sumM; // fill it
       if (Mi0 <= 0)
@@ -97,15 +113,17 @@ void DataSplitDiscrete::Shuffle(const Matrix<Tv> &data, Ti *workI,
             ErrorType::kLogic, "datasplit",
             "invalid training percentage"); // percentage is too high
                                             // (or maybe too low?!)
-    } else {
-      Mi0 = static_cast<Ti>(std::round(mTrainRatio * Mi));
-      if (Mi0 >= Mi)
-        Mi0 = Mi - 1;
-      if (Mi0 == 0) // don't use 'else', because it might have just 1 obs. Of
-                    // course, there is no change to test this group
-        Mi0 = 1;
-      sumM += Mi0;
-    }
+    } else
+      sumM += trainCount(Mi);
+    b++;
+  }
+
+  b = 0;
+  for (auto a : CountsSortedIndexes) {
+    // Tv aa = static_cast<Tv>(a);
+    Mi = Counts.at(a);
+    Rowi = Rows.at(a).get();
+    Mi0 = b == mNumChoices - 1 ? N0 - sumM : trainCount(Mi);
     b++;
 
     for (i = 0; i < Mi; i++)
-- 
2.43.0


From 66cc7f1510df3fdde9109460e429449beef196b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 11/48] fix: sub-matrix bounds, last element, column from row
 and diagonal product of non-square matrices

---
 src/matrix/matrix.cpp    | 6 +++---
 src/matrix/matrix_la.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 74cfe5a..4bb496e 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -771,7 +771,7 @@ Ti Matrix<Tw>::RemoveNanVector(Matrix<Tw> &data, Matrix<Tw> &storage) {
 
 // #pragma region linq - like functions
 
-template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length()]; }
+template <typename Tw> Tw Matrix<Tw>::Last() { return Data[length() - 1]; }
 template <typename Tw> Tw Matrix<Tw>::First() { return Data[0]; }
 
 template <typename Tw>
@@ -1210,7 +1210,7 @@ void Matrix<Tw>::GetSub(Ti rowstart, Ti colstart, Ti rowcount, Ti colcount,
   auto storreqrow = rowcount + storagerowstart;
   auto storreqcol = colcount + storaecolstart;
 
-  if (storage.RowsCount > storreqrow || storage.ColsCount > storreqcol)
+  if (storage.RowsCount < storreqrow || storage.ColsCount < storreqcol)
     throw std::invalid_argument("inconsistent size in get sub (1). ");
 
   GetSub0(rowstart, colstart, rowcount, colcount, storage, storagerowstart,
@@ -1499,7 +1499,7 @@ void Matrix<Tw>::SetColumnFromRow(Ti j, const Matrix<Tw> &source, Ti k) {
 template <typename Tw>
 void Matrix<Tw>::SetColumnFromRow0(Ti j, const Matrix<Tw> &source, Ti k) {
   auto d = &Data[RowsCount * j];
-  for (Ti i = 0; i < ColsCount; i++)
+  for (Ti i = 0; i < RowsCount; i++)
     d[i] = source.Get0(k, i);
 }
 
diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 6c2ba6e..4a29a06 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -225,7 +225,7 @@ void Matrix<Tw>::TrDotTr0(const Matrix<Tw> &b, Matrix<Tw> &storage, Tw alpha,
 
 template <typename Tw>
 void Matrix<Tw>::DotDiag0(const Matrix<Tw> &b, Matrix<Tw> &storage) const {
-  for (Ti j = 0; j < RowsCount; j++) {
+  for (Ti j = 0; j < ColsCount; j++) {
     for (Ti i = 0; i < RowsCount; i++)
       storage.Set0(i, j, b.Data[j] * Get0(i, j));
   }
-- 
2.43.0


From b3aec3f5ac32b564caabe2c9fbc0f7c9ceeb4127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 12/48] fix: mean of a matrix and variances of the correlation
 with missing values

---
 src/matrix/matrix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 4bb496e..144af97 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2606,13 +2606,15 @@ template <typename Tw> Tw Matrix<Tw>::Mean(bool check_nan) const {
         Tw diff;
         me = 0;
         Tw s;
+        Ti j = 0;
         for (Ti i = 0; i < len; i++) {
           d = Data[i];
           if (std::isnan(d))
             continue;
           diff = d - me;
-          s = diff / (i + 1);
+          s = diff / (j + 1);
           me += s;
+          j++;
         }
       } else {
         Tw d;
@@ -2910,8 +2912,8 @@ Tw Matrix<Tw>::CorrelationColumn(Ti j1, Ti j2, Tw &mean1, Tw &mean2, Tw &var1,
           w1 += dx1 * s1 * (count - 1);
           w2 += dx2 * s2 * (count - 1);
         }
-        var1 = sample ? w1 / (Tw)(RowsCount - 1) : w1 / RowsCount;
-        var2 = sample ? w2 / (Tw)(RowsCount - 1) : w2 / RowsCount;
+        var1 = sample ? w1 / (Tw)(count - 1) : w1 / count;
+        var2 = sample ? w2 / (Tw)(count - 1) : w2 / count;
         if (m2 == (Tw)0 && w1 == (Tw)0 &&
             w2 == (Tw)0) // 0/0 case . both are constant
           cor = (Tw)1;
-- 
2.43.0


From b118f0ac0f136470e2a127f67924734f7feb8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 13/48] fix: QR freed its storage twice

---
 src/matrix/matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/matrix/matrix.cpp b/src/matrix/matrix.cpp
index 144af97..6a04884 100644
--- a/src/matrix/matrix.cpp
+++ b/src/matrix/matrix.cpp
@@ -2384,8 +2384,6 @@ template <typename Tw> Ti Matrix<Tw>::QR(Matrix<Tw> &Q, Matrix<Tw> &R) {
 
   Ti info = QR0(tau);
 
-  delete[] tau;
-
   if (info != 0)
     return info;
 
-- 
2.43.0


From 335c6bc787b45ed08522957a468e07f51c94b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 14/48] fix: DatasetTs::Data forgets the missing-data flags of
 earlier data

---
 src/matrix/dataset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/dataset.cpp b/src/matrix/dataset.cpp
index 5e4c6ed..704c4dc 100644
--- a/src/matrix/dataset.cpp
+++ b/src/matrix/dataset.cpp
@@ -85,6 +85,8 @@ template <bool byRow, typename Tw>
 void DatasetTs<byRow, Tw>::Data(Matrix<Tw> &data) {
   pData = &data;
   Ranges.clear();
+  WithMissingIndexes.clear();
+  HasMissingData = false;
 
   Ti count;
   if constexpr (byRow) {
-- 
2.43.0


From ce0f611f51506155fc6b592ce04d1b6ed13f4f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 15/48] fix: QR0 gives LAPACK a work area of the queried size

---
 src/matrix/matrix_la.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix/matrix_la.cpp b/src/matrix/matrix_la.cpp
index 4a29a06..5973a64 100644
--- a/src/matrix/matrix_la.cpp
+++ b/src/matrix/matrix_la.cpp
@@ -700,13 +700,13 @@ template <typename Tw> Ti Matrix<Tw>::QR0(Tw *tau) {
     return info;
 
   lwork = static_cast<Ti>(dtemp);
-  // auto work0 = std::make_unique<int[]>(lwork);
-  // auto work = work0.get();
+  auto work0 = std::make_unique<Tw[]>(lwork);
+  auto work = work0.get();
 
   if constexpr (std::is_same<Tw, double>()) {
-    dgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    dgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (std::is_same<Tw, float>()) {
-    sgeqrf_(&M, &N, A, &M, tau, &dtemp, &lwork, &info);
+    sgeqrf_(&M, &N, A, &M, tau, work, &lwork, &info);
   } else if constexpr (true) {
     throw LdtException(ErrorType::kLogic, "matrix-la", "not implemented");
   }
-- 
2.43.0


From 6158b907ff5846d61de452300af4563cc3080ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 16/48] fix: GroupData compares the data distances with the
 threshold

---
 src/ldt_statistics/clustering/group_data.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index 4c7f1c5..c7f6f9d 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -48,7 +48,12 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
     }
   }
 
-  cluster.Calculate(distance.Result);
+  // clustering overrides the distances, and we need them for the threshold
+  auto distances = std::vector<Tv>(
+      distance.Result.Data,
+      distance.Result.Data + distance.Result.length_array());
+  auto cluster_distances = MatrixSym<false>(distances.data(), mat.ColsCount);
+  cluster.Calculate(cluster_distances);
 
   // group
   for (Ti i = 0; i < groupCount; i++)
-- 
2.43.0


From aa73094cb1bec54aeeba9a3dc94a5024a6300df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 17/48] fix: GroupData reports the removed columns of its last
 calculation

---
 src/ldt_statistics/clustering/group_data.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/clustering/group_data.cpp b/src/ldt_statistics/clustering/group_data.cpp
index c7f6f9d..3affdd1 100644
--- a/src/ldt_statistics/clustering/group_data.cpp
+++ b/src/ldt_statistics/clustering/group_data.cpp
@@ -32,6 +32,8 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
 
   // clear current storage
   this->Groups.clear();
+  this->Removed.clear();
+  this->NaNDistanceFound = false;
 
   auto distance =
       Distance<true, distMethod, corrMethod>(mat.RowsCount, mat.ColsCount);
@@ -69,7 +71,7 @@ void GroupData<linkMethod, distMethod, corrMethod>::Calculate(
           auto dis = distance.Result.Get0(g->at(i), g->at(j));
           if (dis < removeThreshold) {
             remove.insert(j);
-            this->Removed.insert(j);
+            this->Removed.insert(g->at(j));
           }
         }
       }
-- 
2.43.0


From b90fc1f5900318aae2a206b189dc7feef3eca845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 18/48] fix: Descriptive::MeanVariance honours its sample flag

---
 src/ldt_statistics/statistics/descriptive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 7e349be..9e7a8a3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -86,7 +86,7 @@ std::tuple<double, double> Descriptive::MeanVariance(bool sample) {
       mean += s;
       m2 += diff * s * i;
     }
-    return std::tuple<double, double>(mean, sample ? m2 / L : m2 / (L - 1));
+    return std::tuple<double, double>(mean, sample ? m2 / (L - 1) : m2 / L);
   }
 }
 
-- 
2.43.0


From fd13f04b6bdc07ba2610f7821b429f9ef3a7fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 19/48] fix: Ols and Gls reject storage that is too small, not
 too large

---
 src/ldt_statistics/statistics/statistics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/statistics/statistics.cpp b/src/ldt_statistics/statistics/statistics.cpp
index 6f1b6b3..c69fcd3 100644
--- a/src/ldt_statistics/statistics/statistics.cpp
+++ b/src/ldt_statistics/statistics/statistics.cpp
@@ -101,7 +101,7 @@ void Ols::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Tv *storage,
 
   // check size
   auto temp = Ols(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
@@ -178,8 +178,8 @@ void Gls::Calculate(const Matrix<Tv> &y, const Matrix<Tv> &x, Matrix<Tv> &omega,
                        "low degrees of freedom");
 
   // check size
-  auto temp = Gls(N, m, k, mDoResid, mDoSigma);
-  if (temp.WorkSize < WorkSize || temp.StorageSize < StorageSize)
+  auto temp = Gls(N, m, k, mDoResid, mDoSigma, mIsOmegaInv);
+  if (temp.WorkSize > WorkSize || temp.StorageSize > StorageSize)
     throw LdtException(ErrorType::kLogic, "statistics",
                        "inconsistent arguments");
 
-- 
2.43.0


From 7ee2114b97a24e51b7d7f6d65864b319b93c3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 20/48] fix: Descriptive kurtosis of more than 46340 values
 overflowed

---
 src/ldt_statistics/statistics/descriptive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/statistics/descriptive.cpp b/src/ldt_statistics/statistics/descriptive.cpp
index 9e7a8a3..fc73bf3 100644
--- a/src/ldt_statistics/statistics/descriptive.cpp
+++ b/src/ldt_statistics/statistics/descriptive.cpp
@@ -125,7 +125,7 @@ Descriptive::MeanVarianceKurtosisSkewness(bool sample) {
     t = diff * s * (count - 1);
 
     mean += s;
-    m4 += t * s2 * (count * count - 3 * count + 3) + 6 * s2 * m2 - 4 * s * m3;
+    m4 += t * s2 * ((double)count * count - 3.0 * count + 3) + 6 * s2 * m2 - 4 * s * m3;
     m3 += t * s * (count - 2) - 3 * s * m2;
     m2 += t; // after being used by others
   }
@@ -143,7 +143,7 @@ Descriptive::MeanVarianceKurtosisSkewness(bool sample) {
                         : std::sqrt(count) * m3 / std::pow(m2, 1.5);
       if (count > 3) {
         kurtosis = sample ? ((double)count * count - 1) /
-                                ((count - 2) * (count - 3)) *
+                                ((double)(count - 2) * (count - 3)) *
                                 (count * m4 / (m2 * m2) - 3 + 6.0 / (count + 1))
                           : count * m4 / (m2 * m2) - 3.0;
       }
-- 
2.43.0


From 21d432110d4f6b807ec9f7af06ff032ec1316898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 21/48] fix: power of a polynomial with a maximum length below
 its own length wrote outside its storage

---
 src/ldt_math/polynomials/polynomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_math/polynomials/polynomial.cpp b/src/ldt_math/polynomials/polynomial.cpp
index 9010473..ff7cbbd 100644
--- a/src/ldt_math/polynomials/polynomial.cpp
+++ b/src/ldt_math/polynomials/polynomial.cpp
@@ -108,8 +108,8 @@ void PolynomialPower<Tw>::Calculate(const Polynomial<Tw> &a, Ti power,
     return;
   }
 
-  Result.Coefficients.SetSubVector0(0, a.Coefficients, 0,
-                                    a.Coefficients.length());
+  Result.Coefficients.SetSubVector0(
+      0, a.Coefficients, 0, std::min(a.Coefficients.length(), length));
   auto pm = PolynomialMultiply<Tw>(a_n, length - 1, maxLength);
   auto x = Matrix<Tw>(work, length, 1);
   for (Ti i = 1; i < power; i++) { // TODO: is there a direct formula?
-- 
2.43.0


From 9b47ac705fe8438b60e265e365223aa813eee4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 22/48] fix: matrix polynomials kept their former coefficients
 when data was set again

---
 src/ldt_math/polynomials/mpolynomial.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ldt_math/polynomials/mpolynomial.cpp b/src/ldt_math/polynomials/mpolynomial.cpp
index a09d351..9516dfc 100644
--- a/src/ldt_math/polynomials/mpolynomial.cpp
+++ b/src/ldt_math/polynomials/mpolynomial.cpp
@@ -27,6 +27,11 @@ PolynomialM::~PolynomialM() {
 }
 
 void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
+  if (isOwner) {
+    for (auto i : Coefficients)
+      delete i;
+    Coefficients.clear();
+  }
   isOwner = false;
   Ti j = (Ti)a.size();
   // trim
@@ -39,6 +44,7 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
   if (j == 0)
     throw LdtException(ErrorType::kLogic, "mpoly", "length of 'a' must be > 0");
   j--;
+  Coefficients.clear();
   for (int i = 0; i < j + 1; i++)
     Coefficients.push_back(a.at(i));
 }
@@ -46,6 +52,10 @@ void PolynomialM::Data(std::vector<Matrix<Tv> *> &a, bool trim) {
 Ti PolynomialM::Data(Ti degree, Ti m, Tv *data) {
 
   auto mm = m * m;
+  if (isOwner)
+    for (auto i : Coefficients)
+      delete i;
+  Coefficients.clear();
   isOwner = true; // delete the list
   for (Ti i = 0; i < degree + 1; i++)
     Coefficients.push_back(
-- 
2.43.0


From cc9a16088d27be06dab58d625ea9caca4704047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 23/48] fix: moving-average representation used one matrix more
 than its storage

---
 .../modeling/time_series/varma/varma_arma.cpp               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
index 9f803e3..cb996df 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp
@@ -101,19 +101,19 @@ void VarmaArma::Calculate(const Matrix<Tv> &Pi, Tv *storage, Tv *work) {
 
   // MaInf
   if (mMaInfCount > 0) {
-    MaInf.Data(mMaInfCount, m, &storage[p]);
+    MaInf.Data(mMaInfCount - 1, m, &storage[p]); // degree is length - 1
 
     if (sizes.HasDiff == false && sizes.HasAr == false) { // copy MA
 
       Ti i = 0;
       for (auto &a : Ma.Coefficients) {
-        a->CopyTo00(*MaInf.Coefficients.at(i));
         if (i == mMaInfCount)
           break;
+        a->CopyTo00(*MaInf.Coefficients.at(i));
         i++;
       }
 
-      for (i; i <= mMaInfCount; i++)
+      for (; i < mMaInfCount; i++)
         MaInf.Coefficients.at(i)->SetValue(0); // MA(i)=0 for i > madegree
 
     } else {
-- 
2.43.0


From b349f3f9bbbc58ab01fe2fbc780f890b2956cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 24/48] fix: restrictions were written before their number was
 checked

---
 .../modeling/time_series/varma/varma_restriction.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
index e30fc34..1da70a3 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp
@@ -51,12 +51,12 @@ void VarmaRestriction::Calculate(Tv *storage,
                          "list of restriction indexes is missing");
     Ti r = (Ti)generalRestrictedIndexes->size();
     Ti q = params - r;
-    R.Restructure0(params, q);
-    R.SetData(0, storage);
     if (mGeneralRestrictionCount >
         r) // we can set larger restrictions, but not fewer
       throw LdtException(ErrorType::kLogic, "varma-restriction",
                          "inconsistent number of restrictions");
+    R.Restructure0(params, q);
+    R.SetData(0, storage);
 
     Ti j = -1;
     for (Ti i = 0; i < params; i++) {
-- 
2.43.0


From baee9369429e1a4047dc1648f8236ad3a475a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 25/48] fix: seasonal lags repeated the lags of a higher
 non-seasonal order

---
 src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 5a55be9..07cae79 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -17,7 +17,8 @@ void ExpandPoly(Ti p, Ti P, Ti s, std::vector<Ti> &lags) {
     lags.push_back(i);
   if (s > 0)
     for (Ti i = s; i <= s * P; i += s)
-      lags.push_back(i);
+      if (i > p) // it is already a lag
+        lags.push_back(i);
 }
 
 Ti ExpandPolyDiff_ws(Ti d, Ti D, Ti s) {
-- 
2.43.0


From b2b1967223fefdb4aeaa0508bde70cd5e84e084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 26/48] fix: coefficients of VARMA models without details had
 no storage

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp      | 3 ++-
 .../modeling/time_series/varma/varma_sizes.cpp               | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index f2a51f2..e3f542f 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -468,7 +468,8 @@ void Varma::EstimateMl(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
       Result.sigma2.CopyTo(mcopsigma2);
       CalculateGoodness(*this, T, g, f,
                         std::log(mcopsigma2.Det_pd0()) * Result.y.ColsCount);
-    }
+    } else
+      Result.gamma.CopyTo00(Result.coef); // it is required in forecasting
     return;
   }
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
index 07cae79..6e3cc22 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp
@@ -259,9 +259,10 @@ void VarmaStorage::SetStorage(Tv *storage, const VarmaSizes &sizes,
   gammavar.SetData(&storage[pos], q, q);
   pos += gammavar.length();
 
+  coef.SetData(&storage[pos], g, f);
+  pos += coef.length();
+
   if (mKeepDetails) {
-    coef.SetData(&storage[pos], g, f);
-    pos += coef.length();
     coefstd.SetData(&storage[pos], g, f);
     pos += coefstd.length();
     coeft.SetData(&storage[pos], g, f);
-- 
2.43.0


From 92afc98266d40f8930ea63caba5880e9367245f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:32 +0000
Subject: [PATCH 27/48] fix: yearly conversion of daily data merged the years

---
 src/variable/variable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable.cpp b/src/variable/variable.cpp
index d18790e..037e6db 100644
--- a/src/variable/variable.cpp
+++ b/src/variable/variable.cpp
@@ -404,18 +404,21 @@ void Variable<Tw>::ConvertTo_XxYear(
 
     auto current_part = get_part(start.mDay, x);
     auto part = current_part;
+    auto current_year = start.mDay.year();
 
     for (Ti i = 0; i < (Ti)Data.size(); i++) {
 
       auto day = start.mDay + boost::gregorian::date_duration(i);
       part = get_part(day, x);
 
-      if (part != current_part) {
+      // with one part, the part of the next year is the same
+      if (part != current_part || day.year() != current_year) {
         result.Data.push_back(aggF(partdata));
         partdata.clear();
       }
       partdata.push_back(Data.at(i));
       current_part = part;
+      current_year = day.year();
     }
     if (partdata.size() > 0)
       result.Data.push_back(aggF(partdata));
-- 
2.43.0


From 288d100ca8aedd375bb892e92defcf8d9cb00928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 28/48] fix: restricted SUR used the factors of a singular
 variance matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 61effee..852a342 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -243,7 +243,8 @@ void Sur::estim_r(Ti N, Ti m, Tv *work) {
   auto V_o_xRtz = Matrix<Tv>(&work[q], qStar, (Ti)1);
   q += qStar;
 
-  resid_var.Inv0();             // S^-1
+  if (resid_var.Inv0() != 0)    // S^-1
+    throw LdtException(ErrorType::kLogic, "sur", "matrix singularity");
   x.Dot_AtA(xtx);               // X'X: kxk
   resid_var.Kron(xtx, V_o_xtx); // S^-1 o X'X
   pR->TrDot(V_o_xtx, RV_o_xtx); // R'[S^-1 o X'X]
-- 
2.43.0


From b8ee9c2572fcef4e7c5d0b6102de7de77d6050c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 29/48] fix: significance search without removals left a zero
 restriction matrix

---
 src/ldt_statistics/modeling/linear/sur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur.cpp b/src/ldt_statistics/modeling/linear/sur.cpp
index 852a342..540a180 100644
--- a/src/ldt_statistics/modeling/linear/sur.cpp
+++ b/src/ldt_statistics/modeling/linear/sur.cpp
@@ -312,7 +312,7 @@ void Sur::estim_search(Ti N, Ti m, Tv *work, Tv sigSearchMaxProb) {
   Ti k0 = x.ColsCount;
   Ti k0m = k0 * m;
   Ti q = 0, j;
-  pR->SetValue(0);
+  Matrix<Tv>::Diagonal(*pR); // no restriction (if all are significant)
   auto sig_inds = std::vector<Ti>();
   Ti cs = k0m;
   for (mSigSearchIter = 0; mSigSearchIter < mSigSearchMaxIter;
-- 
2.43.0


From 5b0cef23cc27d6ce3c3542aafb9b97133cd2471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 30/48] fix: SUR search failed for a group of endogenous
 variables without target

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 7f69101..1eb76ce 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -214,7 +214,7 @@ SurModelset::SurModelset(const SearchData &data,
         throw LdtException(ErrorType::kLogic, "sur-modelset",
                            "empty endogenous indexes");
 
-      if (e.at(0) > items.LengthTargets)
+      if (e.at(0) >= items.LengthTargets)
         continue; // no target here
       auto seed = metrics.Seed == 0
                       ? 0
-- 
2.43.0


From 39c1190715983ab07bb2a9fcf729388112e9fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 31/48] fix: Box-Cox parameters of other variables were used
 for the models of a search

---
 src/ldt_statistics/modeling/linear/sur_modelset.cpp        | 7 ++++++-
 .../modeling/time_series/varma/varma_modelset.cpp          | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 1eb76ce..59f00a1 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -94,6 +94,11 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     return "";
 
   if (Model.WorkSize > 0) { // otherwise, not initialized
+    std::vector<Tv> lambdas; // for the endogenous variables of this model
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : InnerIndices)
+        lambdas.push_back(this->pData->Lambdas.at(i));
+
     Model.Calculate(
         Data.Result, InnerIndices.size(), &work[s],
         &work[s + Model.StorageSize], SigSearchMaxIter > 0 ? &R : nullptr,
@@ -101,7 +106,7 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
         SigSearchMaxProb,
         this->pChecks->mCheckCN ? this->pChecks->MaxConditionNumber : INFINITY,
         this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     Ti j = (Ti)this->pMetrics->MetricsIn.size();
 
diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index 1547602..cb60811 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -223,6 +223,11 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     if (this->pOptions->RequestCancel)
       return "";
 
+    std::vector<Tv> lambdas; // for the endogenous variables of this model
+    if (this->pData->Lambdas.size() > 0)
+      for (auto &i : this->CurrentIndices.Vec)
+        lambdas.push_back(this->pData->Lambdas.at(i));
+
     Model.Calculate(
         S_s, W, Y, this->pOptions->RequestCancel, num_exo > 0 ? &X : nullptr,
         Restriction.IsRestricted ? &R : nullptr, nullptr, UsePreviousEstim,
@@ -230,7 +235,7 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
             ? this->pChecks->MaxConditionNumber
             : INFINITY,
         StdMultiplier, false, count0 - this->pChecks->MinOutSim,
-        this->pData->Lambdas.size() == 0 ? nullptr : &this->pData->Lambdas);
+        lambdas.size() == 0 ? nullptr : &lambdas);
 
     if (Model.ValidCounts == 0)
       throw LdtException(ErrorType::kLogic, "varma-modelset",
-- 
2.43.0


From b106c1fdd4d73d508965e7ae37b2adc97206ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 32/48] fix: singular weighted least squares start of binary
 and ordered models is reported

---
 src/ldt_statistics/modeling/discrete/discrete_choice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
index 113cb28..a07dd12 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice.cpp
@@ -429,7 +429,9 @@ void DiscreteChoice<modelType, distType>::EstimateBinary(const Matrix<Tv> &y,
   auto ipiv = std::make_unique<int[]>(k);
 
   this->condition_number = this->BetaVar.Norm('1'); // condition number
-  this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  if (this->BetaVar.Inv00(ipiv.get(), Hi.Data) != 0)
+    throw LdtException(ErrorType::kLogic, "discrete-choice",
+                       "matrix singularity");
   this->condition_number *= this->BetaVar.Norm('1');
 
   this->LogL = -this->Optim.FunctionValue;
@@ -1048,7 +1050,9 @@ void DiscreteChoice<modelType, distType>::EstimateOrdered(const Matrix<Tv> &y,
   hfun(this->Beta, this->BetaVar); // hessian gets destroyed in optimization
   auto ipiv = std::make_unique<int[]>(k);
   Hi.Restructure0(k, k);
-  this->BetaVar.Inv00(ipiv.get(), Hi.Data);
+  if (this->BetaVar.Inv00(ipiv.get(), Hi.Data) != 0)
+    throw LdtException(ErrorType::kLogic, "discrete-choice",
+                       "matrix singularity");
 
   this->LogL = -this->Optim.FunctionValue;
   calculate_goodness(*this);
-- 
2.43.0


From e173807a9d21502dadff06ff771c7583362903a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 33/48] fix: Newton without line search updates the gradient

---
 src/ldt_math/optimization/newton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ldt_math/optimization/newton.cpp b/src/ldt_math/optimization/newton.cpp
index b541700..b9130af 100644
--- a/src/ldt_math/optimization/newton.cpp
+++ b/src/ldt_math/optimization/newton.cpp
@@ -145,6 +145,7 @@ void Newton::minimize(
     } else {
       x0.Add_in0(d);
       FunctionValue = function(x0);
+      gradient(x0, Gradient);
     }
 
     if (checkFtol) {
-- 
2.43.0


From fc7b07d426dd2fbc39d87c200ad2027bd84ad102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 34/48] fix: projections of the discrete choice model are sized
 by the used observations

---
 .../modeling/discrete/discrete_choice_extended.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
index fd5fb40..32520db 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp
@@ -149,8 +149,8 @@ void DiscreteChoiceExtended::Calculate(const Matrix<Tv> &data, Tv *storage,
 
   if (mDoDetails) {
     // Projections
-    Projections = Matrix<Tv>(&storage[p], numObs, mNumChoices);
-    p += numObs * mNumChoices;
+    Projections = Matrix<Tv>(&storage[p], count, mNumChoices);
+    p += count * mNumChoices;
     Model->GetProbabilities(X, Projections, work);
 
     BrierScore = 0;
-- 
2.43.0


From dc01f45327d57fe8d299467a81dc1d5075ea8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 35/48] fix: Brier score of discrete choice simulations is
 weighted on request only

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index b7f8b96..838fc98 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -259,7 +259,8 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
         i++;
         yi = y1.Data[i];
         if constexpr (hasWeight) {
-          wi = w1.Data[i];
+          if (mWeightedEval)
+            wi = w1.Data[i];
         }
         BrierScore += wi * std::pow(yi - *ap, 2);
         sum += wi;
-- 
2.43.0


From 138bb392a6b15497ee61b9d081a97f43d05063c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 36/48] fix: Brier score of discrete choice simulations is the
 average of all simulations

---
 .../modeling/discrete/discrete_choice_sim.cpp            | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 838fc98..0b8af96 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -165,6 +165,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   auto frequencyCost = freqCost0.get();
 
   this->Auc = 0;
+  this->BrierScore = 0;
   auto split = DataSplitDiscrete(rows, cols, mNumChoices);
 
   auto model =
@@ -251,8 +252,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
     }
 
     if (mDoBrier) {
-      BrierScore = 0;
-      Tv yi, wi = 1, sum = 0;
+      Tv yi, wi = 1, sum = 0, brier = 0;
       Ti i = -1;
       for (auto ap = model.PredProbs.ColBegin(1);
            ap != model.PredProbs.ColEnd(1); ++ap) {
@@ -262,10 +262,10 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           if (mWeightedEval)
             wi = w1.Data[i];
         }
-        BrierScore += wi * std::pow(yi - *ap, 2);
+        brier += wi * std::pow(yi - *ap, 2);
         sum += wi;
       }
-      BrierScore /= sum;
+      this->BrierScore += brier / sum; // sum
     }
 
     if (costCount > 0) {
@@ -332,6 +332,7 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
   for (i = 0; i < costCount; i++)
     this->CostRatios.Data[i] /= overall_count.Data[i];
   this->Auc /= this->ValidSimulationCount;
+  this->BrierScore /= this->ValidSimulationCount;
 }
 
 std::unique_ptr<DiscreteChoiceSimBase> DiscreteChoiceSimBase::GetFromType(
-- 
2.43.0


From 2b212e6a1f6105fcac42515cbb6297107921c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 37/48] fix: Brier score alone is a goal of discrete choice
 simulations

---
 src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 0b8af96..77a1990 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -27,7 +27,8 @@ DiscreteChoiceSim<hasWeight, modelType, distType>::DiscreteChoiceSim(
         ErrorType::kLogic, "dc-sim",
         "don't use binary Model when number of choices is larger than 2");
 
-  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false)
+  if (costMatrixCount == 0 && doFrequencyTable == false && doAuc == false &&
+      doBrier == false)
     throw LdtException(ErrorType::kLogic, "dc-sim",
                        "no goal is set in discrete choice simulation");
 
-- 
2.43.0


From be504d117729a2cf382337e5c4c3727387b1e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 38/48] fix: training sample of discrete choice simulations
 follows the rows of the data

---
 .../modeling/discrete/discrete_choice_sim.cpp             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
index 77a1990..f2d3c98 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp
@@ -112,7 +112,13 @@ void DiscreteChoiceSim<hasWeight, modelType, distType>::Calculate(
           "inconsistent arguments in discrete choice simulation");
   }
 
-  Ti N0 = rows - this->N1;
+  // number of observations might be less than the one in the constructor
+  Ti N0 = mTrainFixSize > 0 ? mTrainFixSize
+                            : static_cast<Ti>(std::round(rows * mTrainRatio));
+  if (N0 <= 0 || N0 >= rows)
+    throw LdtException(ErrorType::kLogic, "dc-sim",
+                       "training percentage is not valid");
+  this->N1 = rows - N0;
   // Ti numExo = cols - (hasWeight ? 2 : 1);
   std::mt19937 eng;
   if (this->Seed != 0)
-- 
2.43.0


From dbdf50e8243a60e63571db7b18f30d31dcc4108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 39/48] fix: first metric of a discrete choice search is
 calculated

---
 .../modeling/discrete/discrete_choice_modelset.cpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 690b21d..591c874 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -199,13 +199,13 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kFrequencyCost);
     auto aucInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kAuc);
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
-    if (costInd > 0 || aucInd > 0 || briInd > 0) {
+    if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
       Probs.SetData(&work[s]);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-      if (briInd > 0) {
+      if (briInd >= 0) {
 
         Tv brier = 0;
         Tv yi, wi = 1, sum = 0;
@@ -224,7 +224,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(briInd, 0, brier);
       }
 
-      if (costInd > 0) {
+      if (costInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -235,7 +235,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         metrics.Mat.Set0(costInd, 0, CostIn.get()->AverageRatio);
       }
 
-      if (aucInd > 0) {
+      if (aucInd >= 0) {
         if (this->pOptions->RequestCancel)
           return "";
 
@@ -417,9 +417,9 @@ DiscreteChoiceModelset<hasWeight, modelType>::DiscreteChoiceModelset(
                          "There is no frequency cost metric and yet "
                          "frequency cost matrix list is not "
                          "empty!");
-  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >
+  } else if (metrics.MetricInIndices.at(GoodnessOfFitType::kFrequencyCost) >=
                  0 ||
-             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) > 0) {
+             metrics.MetricOutIndices.at(ScoringType::kFrequencyCost) >= 0) {
     if (costMatrixes.size() == 0)
       throw LdtException(ErrorType::kLogic, "dc-modelset",
                          "Frequency cost metrics are given, "
-- 
2.43.0


From db70db149138024eeaac247b5a2d9a8ed461d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 40/48] fix: arguments of the simulation in discrete choice
 searches

---
 .../modeling/discrete/discrete_choice_modelset.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 591c874..c60bd51 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -179,8 +179,8 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
                     &work[s + Model.StorageSize], &workI[this->NumPartitions],
                     this->pOptions->RequestCancel, *pAucOptions,
-                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim,
-                    nullptr, INT32_MAX);
+                    true, nullptr,
+                    this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
     s += Model.StorageSize;
   }
 
-- 
2.43.0


From 4a275d8b733544623e477344fb35a80471ee53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 41/48] fix: degrees of freedom of discrete choice models in
 searches

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index c60bd51..6825c92 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -139,7 +139,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum no. obs");
       if (this->pChecks->MinDof > 0 &&
-          this->pChecks->MinDof > count - num_exo - this->mNumChoices - 2)
+          this->pChecks->MinDof > count - num_exo - (this->mNumChoices - 2))
         throw LdtException(ErrorType::kLogic, "dc-modelset",
                            "model check: minimum dof");
     }
-- 
2.43.0


From da39db42621218f27993651284bec1b1d371d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 42/48] fix: probabilities in discrete choice searches are
 sized by the used observations

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 6825c92..3b8fa7d 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -201,7 +201,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
     auto briInd = this->pMetrics->MetricInIndices.at(GoodnessOfFitType::kBrier);
     if (costInd >= 0 || aucInd >= 0 || briInd >= 0) {
 
-      Probs.SetData(&work[s]);
+      Probs.SetData(&work[s], count, this->mNumChoices);
       s += Probs.length();
       DModel.GetProbabilities(X, Probs, &work[s]);
 
-- 
2.43.0


From c756a18babe6adea4121f60416d47a066f25dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 43/48] fix: integer work array of simulations in discrete
 choice searches

---
 .../modeling/discrete/discrete_choice_modelset.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
index 3b8fa7d..1060028 100644
--- a/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
+++ b/src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp
@@ -177,7 +177,7 @@ DiscreteChoiceSearcher<hasWeight, modelType, distType>::EstimateOneReg(
       return "";
 
     Model.Calculate(Data.Result, pCostMatrixes, &work[s],
-                    &work[s + Model.StorageSize], &workI[this->NumPartitions],
+                    &work[s + Model.StorageSize], workI,
                     this->pOptions->RequestCancel, *pAucOptions,
                     true, nullptr,
                     this->pMetrics->SimFixSize - this->pChecks->MinOutSim);
-- 
2.43.0


From 658c41b9da0943ba193be4c8bb6917f6de5d1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 44/48] fix: SUR search records the metrics of targets that
 follow other variables

---
 .../modeling/linear/sur_modelset.cpp          | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ldt_statistics/modeling/linear/sur_modelset.cpp b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
index 59f00a1..59485d0 100644
--- a/src/ldt_statistics/modeling/linear/sur_modelset.cpp
+++ b/src/ldt_statistics/modeling/linear/sur_modelset.cpp
@@ -71,6 +71,12 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
   Data.Calculate(*pSource, &ColIndices, &work[s]);
   s += Data.StorageSize;
 
+  // positions of the targets in the endogenous variables of this searcher
+  std::vector<Ti> rows;
+  for (Ti i = 0; i < (Ti)InnerIndices.size(); i++)
+    if (InnerIndices.at(i) < this->pItems->LengthTargets)
+      rows.push_back(i);
+
   if (this->pChecks->Estimation) { // estimate with all data
     DModel.Calculate(Data.Result, InnerIndices.size(), &work[s],
                      &work[s + DModel.StorageSize],
@@ -113,32 +119,32 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMae);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMape);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmse);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmspe);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kCrps);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.Results.Get0(ind, rows.at(t)));
   }
 
   if (this->pOptions->RequestCancel)
@@ -154,9 +160,9 @@ std::string SurSearcher::EstimateOneReg(Tv *work, Ti *workI,
       for (const auto &b : this->CurrentIndices.Vec) {
         i++;
         Ti a = b - this->pData->NumEndo;
-        type1Mean.Mat.Set0(a, t, DModel.Model.beta.Get0(i, t));
-        type1Var.Mat.Set0(a, t,
-                          std::pow(DModel.Model.e_beta_std.Get0(i, t), 2));
+        type1Mean.Mat.Set0(a, t, DModel.Model.beta.Get0(i, rows.at(t)));
+        type1Var.Mat.Set0(
+            a, t, std::pow(DModel.Model.e_beta_std.Get0(i, rows.at(t)), 2));
       }
     }
   }
-- 
2.43.0


From 73d90fb1fe6d481d988efc1f04797f45252667dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:07 +0000
Subject: [PATCH 45/48] fix: VARMA search records the metrics of targets that
 follow other variables

---
 .../time_series/varma/varma_modelset.cpp      | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
index cb60811..1b2e140 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp
@@ -107,6 +107,12 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
   if (this->pOptions->RequestCancel)
     return "";
 
+  // positions of the targets in the current endogenous variables
+  std::vector<Ti> rows;
+  for (Ti i = 0; i < (Ti)this->CurrentIndices.Vec.size(); i++)
+    if (this->CurrentIndices.Vec.at(i) < this->pItems->LengthTargets)
+      rows.push_back(i);
+
   auto R = Restriction.R;
   // auto r = Restriction.r;
 
@@ -246,37 +252,37 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
     auto ind = this->pMetrics->MetricOutIndices.at(ScoringType::kSign);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kDirection);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMae);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kMape);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmse);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kRmspe);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
 
     ind = this->pMetrics->MetricOutIndices.at(ScoringType::kCrps);
     if (ind >= 0)
       for (Ti t = 0; t < (Ti)this->TargetsPositions.size(); t++)
-        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, t));
+        metrics.Mat.Set0(j + ind, t, Model.ResultAggs.Get0(ind, rows.at(t)));
   }
 
   if (this->pOptions->RequestCancel)
@@ -291,8 +297,10 @@ std::string VarmaSearcher::EstimateOneReg(Tv *work, Ti *workI,
       // length1 is the max horizon
       for (Ti i = 0; i < this->pItems->Length1; i++) {
 
-        type1Mean.Mat.Set(i, t, FModel.Forecast.Get(t, i + FModel.StartIndex));
-        type1Var.Mat.Set(i, t, FModel.Variance.Get(t, i + FModel.StartIndex));
+        type1Mean.Mat.Set(
+            i, t, FModel.Forecast.Get(rows.at(t), i + FModel.StartIndex));
+        type1Var.Mat.Set(
+            i, t, FModel.Variance.Get(rows.at(t), i + FModel.StartIndex));
       }
     }
   }
-- 
2.43.0


From 2da4885502a59376999a692713075b99daa2c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:37 +0000
Subject: [PATCH 46/48] fix: VARMA estimation from current estimates keeps
 their variances

---
 src/ldt_statistics/modeling/time_series/varma/varma.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma.cpp b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
index e3f542f..2aa57de 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma.cpp
@@ -84,8 +84,14 @@ void Varma::EstimateOls(const Matrix<Tv> &data, const Matrix<Tv> *exoData,
   if (R)
     q = R->ColsCount;
 
-  // set storage
+  // set storage (the place of 'gammavar' depends on the sample end)
+  std::vector<Tv> var;
+  if (noestimation && Result.gammavar.Data)
+    var.assign(Result.gammavar.Data,
+               Result.gammavar.Data + Result.gammavar.length());
   Result.SetStorage(storage, Sizes, sampleEnd);
+  if (noestimation)
+    std::copy(var.begin(), var.end(), Result.gammavar.Data);
 
   Ti pos = 0;
 
-- 
2.43.0


From e6c6082e2d36adc42e6c80942e8e65847d830998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:37 +0000
Subject: [PATCH 47/48] fix: VARMA simulation does not start from the estimates
 of a failed sample

---
 .../modeling/time_series/varma/varma_simulation.cpp          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
index d37ca81..01cbb1d 100644
--- a/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
+++ b/src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp
@@ -273,6 +273,7 @@ void VarmaSimulation::Calculate(Tv *storage, Tv *work, Matrix<Tv> &data,
         return;
 
     } catch (...) {
+      success = false;
       continue; // will be invalid
     }
     invalidCounts--;
@@ -498,15 +499,19 @@ void VarmaSimulation::CalculateE(Tv *storage, Tv *work, Matrix<Tv> &data,
       forecast0 = &EModel.Forecasts;
     } catch (std::exception &ex) {
       AddError(ex.what());
+      success = false;
       continue;
     } catch (std::string &ex) {
       AddError(ex.c_str());
+      success = false;
       continue;
     } catch (const char *ex) {
       AddError(ex);
+      success = false;
       continue;
     } catch (...) {
       AddError("unknown error!");
+      success = false;
       continue;
     }
     auto forecast = *forecast0;
-- 
2.43.0


From e7ebe6a19ad57ab4642ec3ce10a01380baf5066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:15 +0000
Subject: [PATCH 48/48] fix: L-BFGS-B starts with a cleared work array

---
 src/ldt_math/optimization/lmbfgsb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ldt_math/optimization/lmbfgsb.cpp b/src/ldt_math/optimization/lmbfgsb.cpp
index 64d174a..5c32fa6 100644
--- a/src/ldt_math/optimization/lmbfgsb.cpp
+++ b/src/ldt_math/optimization/lmbfgsb.cpp
@@ -93,6 +93,10 @@ void LimitedMemoryBFGSB::Minimize00(
     nbd[i] = lni && upi ? 0 : lni ? 3 : upi ? 1 : 2;
   }
 
+  // the routine might read the elements that are not yet set
+  auto m = Options.mMaxCorrections;
+  std::fill_n(&WORK[2 * n], 2 * m * n + 11 * m * m + 5 * n + 8 * m, (Tv)0);
+
   FunctionValue = 0;
   Ti csave = 0;
   Task = 1;
-- 
2.43.0

