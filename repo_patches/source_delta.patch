From bfe216e4112038e6ccdfd95a9106279e0536beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 01/46] fix: assignment, clone and toSerie keep the dimension
 of a Serie

---
 src/Serie.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 86c32f2..7cad1e2 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -59,11 +59,12 @@ void Serie::reCount(uint32_t c) {
 Serie &Serie::operator=(const Serie &s) {
     count_ = s.count_;
     itemSize_ = s.itemSize_;
+    dimension_ = s.dimension_;
     s_ = Array(s.s_.cbegin(), s.s_.cend());
     return *this;
 }
 
-Serie Serie::clone() const { return Serie(itemSize_, s_); }
+Serie Serie::clone() const { return Serie(itemSize_, s_, dimension_); }
 
 uint32_t Serie::size() const { return count_ * itemSize_; }
 
@@ -142,7 +143,7 @@ void print(const Array &v) {
 }
 
 Serie toSerie(uint32_t itemSize, const Array &a, uint dim) {
-    return Serie(itemSize, a, 3);
+    return Serie(itemSize, a, dim);
 }
 
 } // namespace df
-- 
2.43.0


From 59537badab564db8c6b68fdc6b66714599696294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 02/46] fix: item and scalar read access to a Serie checks the
 index

---
 include/dataframe/inline/Serie.hxx | 5 +++++
 src/Serie.cxx                      | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 1b7a6ec..b3efa07 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -115,6 +115,11 @@ template <typename T>
 inline auto Serie::get(uint32_t i) const
     -> std::conditional_t<details::is_array_v<T>, Array, double> {
     if constexpr (details::is_array_v<T>) {
+        if (i >= count_) {
+            throw std::invalid_argument("index out of range (" +
+                                        std::to_string(i) +
+                                        ">=" + std::to_string(count_) + ")");
+        }
         if (itemSize_ == 1) {
             return Array{s_[i]};
         }
diff --git a/src/Serie.cxx b/src/Serie.cxx
index 7cad1e2..83b3144 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -87,6 +87,10 @@ void Serie::dump() const {
 }
 
 Array Serie::value(uint32_t i) const {
+    if (i >= count_) {
+        throw std::invalid_argument("index out of range (" + std::to_string(i) +
+                                    ">=" + std::to_string(count_) + ")");
+    }
     auto start = i * itemSize_;
     Array r(itemSize_);
     for (uint32_t j = 0; j < itemSize_; ++j) {
@@ -96,7 +100,7 @@ Array Serie::value(uint32_t i) const {
 }
 
 double Serie::scalar(uint32_t i) const {
-    if (i > size()) {
+    if (i >= size()) {
         throw std::invalid_argument("index out of bounds (" +
                                     std::to_string(i) +
                                     ">=" + std::to_string(size()));
-- 
2.43.0


From 0c260659f750cbfc622f22e81285fa082e5001e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 03/46] fix: a Serie cannot be built from values that do not
 make whole items

---
 src/Serie.cxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Serie.cxx b/src/Serie.cxx
index 83b3144..416e6f5 100644
--- a/src/Serie.cxx
+++ b/src/Serie.cxx
@@ -26,6 +26,23 @@
 
 namespace df {
 
+/**
+ * Number of items made by nbValues values. Throws if they do not make whole
+ * items.
+ */
+static uint32_t countItems(int itemSize, size_t nbValues) {
+    if (nbValues == 0) {
+        return 0;
+    }
+    if (itemSize <= 0 || nbValues % itemSize != 0) {
+        throw std::invalid_argument(
+            "number of values (" + std::to_string(nbValues) +
+            ") is not a multiple of itemSize (" + std::to_string(itemSize) +
+            ")");
+    }
+    return nbValues / itemSize;
+}
+
 Serie::Serie(int itemSize, uint32_t count, uint dimension)
     : itemSize_(itemSize), count_(count), dimension_(dimension) {
     s_ = Array(count * itemSize);
@@ -38,14 +55,14 @@ Serie::Serie(const Serie &s)
 
 Serie::Serie(int itemSize, const Array &values, uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = countItems(itemSize, values.size());
     s_ = values;
 }
 
 Serie::Serie(int itemSize, const std::initializer_list<double> &values,
              uint dimension)
     : itemSize_(itemSize), dimension_(dimension) {
-    count_ = values.size() / itemSize;
+    count_ = countItems(itemSize, values.size());
     s_ = Array(values);
 }
 
-- 
2.43.0


From 6ffe994fb4135f4858d092eec3c60a708547f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 04/46] fix: areas divides the norms by 2 instead of by an
 empty Serie

---
 src/functional/geo/areas.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/geo/areas.cxx b/src/functional/geo/areas.cxx
index 9608050..d4a5c7b 100644
--- a/src/functional/geo/areas.cxx
+++ b/src/functional/geo/areas.cxx
@@ -33,7 +33,7 @@ Serie areas(const Serie &positions, const Serie &indices) {
     if (!positions.isValid() || !indices.isValid()) {
         return Serie();
     }
-    return math::div(algebra::norm(geo::normals(positions, indices)), 2);
+    return math::div(2, algebra::norm(geo::normals(positions, indices)));
 }
 
 } // namespace geo
-- 
2.43.0


From 9ae68a2b9051a693a73f5909cc01b2bd311b375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 05/46] fix: norm2 sizes its result by the number of items and
 squares scalars

---
 src/functional/algebra/norm.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/functional/algebra/norm.cxx b/src/functional/algebra/norm.cxx
index c15085b..0ee2145 100644
--- a/src/functional/algebra/norm.cxx
+++ b/src/functional/algebra/norm.cxx
@@ -39,10 +39,10 @@ Serie norm2(const Serie &s) {
     }
 
     if (s.itemSize() == 1) {
-        return s.clone();
+        return s.map([](double v, uint32_t) { return v * v; });
     }
 
-    Array data = createArray(1, s.count());
+    Array data = createArray(s.count(), 0);
 
     for (uint32_t i = 0; i < s.count(); ++i) {
         Array v = s.value(i);
@@ -54,7 +54,7 @@ Serie norm2(const Serie &s) {
         data[i] = n;
     }
 
-    return Serie(1, data);
+    return Serie(1, data, s.dimension());
 }
 
 } // namespace algebra
-- 
2.43.0


From 0d5361740cae7676ac2e83c45d15c22611f2047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 06/46] fix: cofactor yz of the inverse of a full 3x3 matrix

---
 src/functional/algebra/inv.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/inv.cxx b/src/functional/algebra/inv.cxx
index 23ef040..4151b6e 100644
--- a/src/functional/algebra/inv.cxx
+++ b/src/functional/algebra/inv.cxx
@@ -87,7 +87,7 @@ Serie inv(const Serie &serie) {
         inv[2] = (xy * yz - xz * yy) * invDet; // xz
         inv[3] = (yz * zx - yx * zz) * invDet; // yx
         inv[4] = (xx * zz - xz * zx) * invDet; // yy
-        inv[5] = (zx * xy - xx * zy) * invDet; // yz
+        inv[5] = (xz * yx - xx * yz) * invDet; // yz
         inv[6] = (yx * zy - yy * zx) * invDet; // zx
         inv[7] = (xy * zx - xx * zy) * invDet; // zy
         inv[8] = (xx * yy - xy * yx) * invDet; // zz
-- 
2.43.0


From 283ca89073f3659d917e24e1e7ebd1de7200df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 07/46] fix: Vector::norm does not truncate partial sums to int

---
 src/view/Vector.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index baa50ac..dbdeb05 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -68,7 +68,7 @@ namespace df
     {
         auto op = [](double acc, double v)
         { return acc + v * v; };
-        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0, op));
+        return std::sqrt(std::accumulate(v_.begin(), v_.end(), 0.0, op));
     }
 
     Vector &Vector::mult(double s)
-- 
2.43.0


From 7fd1f7409a8e69155fb0600d9321c93db647ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 08/46] fix: Matrix owns its values instead of keeping a
 dangling reference

---
 include/dataframe/view/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/view/Matrix.h b/include/dataframe/view/Matrix.h
index 9bbbc29..960daf7 100644
--- a/include/dataframe/view/Matrix.h
+++ b/include/dataframe/view/Matrix.h
@@ -45,7 +45,7 @@ namespace df
         Matrix multMat(const Matrix &m) const;
 
     private:
-        const Array &v_;
+        Array v_;
         uint m_;
     };
 
-- 
2.43.0


From f069ff04f0e2590424b4c623388a14e189d58e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 09/46] fix: UserDefinedDecomposer owns its function instead of
 keeping a dangling reference

---
 include/dataframe/attributes/UserDefinedDecomposer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dataframe/attributes/UserDefinedDecomposer.h b/include/dataframe/attributes/UserDefinedDecomposer.h
index dc597dc..52b3cbb 100644
--- a/include/dataframe/attributes/UserDefinedDecomposer.h
+++ b/include/dataframe/attributes/UserDefinedDecomposer.h
@@ -41,7 +41,7 @@ namespace df
     private:
         uint itemSize_{0};
         String name_;
-        F &&cb_;
+        F cb_;
     };
 
     // ------------------------------------------------------------
-- 
2.43.0


From 3db7c53f50ae43da9b7feaea868be6198a151d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 10/46] fix: Decomposer has a virtual destructor since Manager
 deletes through it

---
 include/dataframe/attributes/Decomposer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dataframe/attributes/Decomposer.h b/include/dataframe/attributes/Decomposer.h
index 58956bb..5ac707b 100644
--- a/include/dataframe/attributes/Decomposer.h
+++ b/include/dataframe/attributes/Decomposer.h
@@ -36,6 +36,7 @@ namespace df
     class Decomposer
     {
     public:
+        virtual ~Decomposer() = default;
         virtual Strings names(const Dataframe &dataframe, uint32_t itemSize, const Serie &serie, const String &name) const ;
         virtual Serie serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const ;
     };
-- 
2.43.0


From 977b8faa72b86cae0868335ab500e0c87a4146e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 11/46] fix: Manager::clear deletes the owned decomposers and a
 Manager cannot be copied

---
 include/dataframe/attributes/Manager.h | 2 ++
 src/attributes/Manager.cxx             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/dataframe/attributes/Manager.h b/include/dataframe/attributes/Manager.h
index bd5e7d9..ec2a1e8 100644
--- a/include/dataframe/attributes/Manager.h
+++ b/include/dataframe/attributes/Manager.h
@@ -43,6 +43,8 @@ namespace df
          */
         Manager(const Dataframe &dataframe, const std::vector<Decomposer*> &decomposers = {}, uint dimension=3);
         ~Manager();
+        Manager(const Manager &) = delete;
+        Manager &operator=(const Manager &) = delete;
 
         void add(Decomposer* decomposer);
         void clear();
diff --git a/src/attributes/Manager.cxx b/src/attributes/Manager.cxx
index 6786242..7c04451 100644
--- a/src/attributes/Manager.cxx
+++ b/src/attributes/Manager.cxx
@@ -53,6 +53,9 @@ namespace df
 
     void Manager::clear()
     {
+        for (auto d : ds_) {
+            delete d;
+        }
         ds_.clear();
     }
 
-- 
2.43.0


From 539a099fffa730d99a5cbb04613beffee6f57a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 12/46] fix: dot and cross reject series that do not line up

---
 src/functional/algebra/cross.cxx | 3 +++
 src/functional/algebra/dot.cxx   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/functional/algebra/cross.cxx b/src/functional/algebra/cross.cxx
index 366245c..d18485f 100644
--- a/src/functional/algebra/cross.cxx
+++ b/src/functional/algebra/cross.cxx
@@ -39,6 +39,9 @@ Serie cross(const Serie &a, const Serie &b) {
     if (b.itemSize() != 3) {
         throw std::invalid_argument("cross: serie b must have itemSize=3");
     }
+    if (a.count() != b.count()) {
+        throw std::invalid_argument("cross: series must have the same count");
+    }
 
     return a.map([&](const Array &A, uint32_t i) {
         auto B = b.value(i);
diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index d65a829..95908d4 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -27,6 +27,10 @@ namespace df {
 namespace algebra {
 
 Serie dot(const Serie &a, const Serie &b) {
+    if (a.itemSize() != b.itemSize() || a.count() != b.count()) {
+        throw std::invalid_argument(
+            "dot: series must have same itemSize and count");
+    }
     uint32_t itemSize = a.itemSize();
     return a.map([itemSize, b](const Array &arr, uint32_t i) { // ieme item
         Array r = createArray(1, 0);
-- 
2.43.0


From 7119ef78dac1007ad75ad94672c4ecb6953c810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 13/46] fix: dot of an empty Serie with an array does not read
 a missing item

---
 src/functional/algebra/dot.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/algebra/dot.cxx b/src/functional/algebra/dot.cxx
index 95908d4..f65a1dc 100644
--- a/src/functional/algebra/dot.cxx
+++ b/src/functional/algebra/dot.cxx
@@ -43,7 +43,7 @@ Serie dot(const Serie &a, const Serie &b) {
 }
 
 Serie dot(const Serie &a, const Array &b) {
-    if (a.value(0).size() != b.size()) {
+    if (a.itemSize() != b.size()) {
         return Serie();
     }
 
-- 
2.43.0


From f3b824a9c3d54554d59cb3bd886c1e82fa875ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 14/46] fix: partition_n of one Serie rejects n=0 and is inline

---
 include/dataframe/functional/utils/partition_n.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 57ceb1b..818e226 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -41,7 +41,10 @@ namespace utils {
  *  // parts[2]: {8,9,10}
  * ```
  */
-Series partition_n(uint32_t n, const Serie &serie) {
+inline Series partition_n(uint32_t n, const Serie &serie) {
+    if (n == 0) {
+        throw std::invalid_argument("n must be > 0");
+    }
     uint32_t total = serie.count();
     uint32_t base_size = total / n;
     uint32_t remainder = total % n;
-- 
2.43.0


From b18d4243f1967bc2ff65920d7705b0f3bf01b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 15/46] fix: add, sub and weigthedSum reject an empty list of
 series

---
 src/functional/math/add.cxx         | 3 +++
 src/functional/math/sub.cxx         | 3 +++
 src/functional/math/weightedSum.cxx | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/src/functional/math/add.cxx b/src/functional/math/add.cxx
index 01b8b53..cd31050 100644
--- a/src/functional/math/add.cxx
+++ b/src/functional/math/add.cxx
@@ -27,6 +27,9 @@ namespace df {
 namespace math {
 
 Serie add(const std::initializer_list<Serie> &list) {
+    if (list.size() == 0) {
+        throw std::invalid_argument("(add) At least one Serie is required");
+    }
     Series series(list);
 
     const Serie &firstSerie = series[0];
diff --git a/src/functional/math/sub.cxx b/src/functional/math/sub.cxx
index cbdf0ab..e892ea0 100644
--- a/src/functional/math/sub.cxx
+++ b/src/functional/math/sub.cxx
@@ -27,6 +27,9 @@ namespace df {
 namespace math {
 
 Serie sub(const std::initializer_list<Serie> &list) {
+    if (list.size() == 0) {
+        throw std::invalid_argument("(sub) At least one Serie is required");
+    }
     Series series(list);
 
     const Serie &firstSerie = series[0];
diff --git a/src/functional/math/weightedSum.cxx b/src/functional/math/weightedSum.cxx
index 80ad145..5ecd5bd 100644
--- a/src/functional/math/weightedSum.cxx
+++ b/src/functional/math/weightedSum.cxx
@@ -37,6 +37,11 @@ Serie weigthedSum(const std::initializer_list<Serie> &list,
                                     std::to_string(weights.size()) + ")");
     }
 
+    if (series.empty()) {
+        throw std::invalid_argument(
+            "(weightedSum) At least one Serie is required");
+    }
+
     uint32_t count = series[0].count();
     uint32_t itemSize = series[0].itemSize();
     uint32_t index = -1;
-- 
2.43.0


From 9da60eecf7e0ac272067eadc2575d861eef161ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 16/46] fix: quantile, normalize, bins and multi-series map do
 not read items of empty series

---
 include/dataframe/functional/map.h | 4 ++++
 src/functional/math/normalize.cxx  | 4 ++++
 src/functional/stats/bins.cxx      | 3 +++
 src/functional/stats/quantile.cxx  | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index e1e90a5..b72d835 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -120,6 +120,10 @@ auto map(F &&callback, const Args &...args) {
 
         auto counts = utils::countAndCheck(args...);
 
+        if (counts[0] == 0) {
+            return Serie(0, 0);
+        }
+
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
diff --git a/src/functional/math/normalize.cxx b/src/functional/math/normalize.cxx
index ab5ee9f..06894fa 100644
--- a/src/functional/math/normalize.cxx
+++ b/src/functional/math/normalize.cxx
@@ -37,6 +37,10 @@ Serie normalize(const Serie &serie) {
         throw std::invalid_argument("Serie is invalid");
     }
 
+    if (serie.count() == 0) {
+        return serie;
+    }
+
     if (serie.itemSize() == 1) {
         // auto minmax = df::minMax(serie);
         auto [min, max] = minMax(serie);
diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index 26c9674..a58cf26 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -30,6 +30,9 @@ namespace df {
 namespace stats {
 
 Serie bins(const Serie &serie, uint nb) {
+    if (serie.count() == 0) {
+        return bins(serie, nb, 0, 0);
+    }
     auto [min, max] = math::minMax(serie);
     return bins(serie, nb, min[0], max[0]);
 }
diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index fb39c65..0f6212c 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -39,6 +39,9 @@ double quantile(const Serie &s, double q) {
     if (s.itemSize() != 1) {
         throw std::invalid_argument("quantile algorithm: itemSize must be 1");
     }
+    if (s.count() == 0) {
+        throw std::invalid_argument("quantile: the series is empty");
+    }
     if (q < 0 || q > 1) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
-- 
2.43.0


From 79b486ab6060aad10cd4a8221d5f863ba561a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 17/46] fix: bins leaves out values that are not in the range
 instead of converting them to an index

---
 src/functional/stats/bins.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/functional/stats/bins.cxx b/src/functional/stats/bins.cxx
index a58cf26..2d3887c 100644
--- a/src/functional/stats/bins.cxx
+++ b/src/functional/stats/bins.cxx
@@ -51,7 +51,10 @@ Serie bins(const Serie &serie, uint nb, double start, double stop) {
     // binning
     Array b = createArray(nb, 0);
     serie.forEach([&](double v, uint32_t) {
-        uint32_t i = std::trunc((v - start) / size);
+        if (!(v >= start && v <= stop)) {
+            return; // not in the range (or not a number)
+        }
+        uint32_t i = size > 0 ? std::trunc((v - start) / size) : 0;
         if (i >= nb) {
             i = nb - 1;
         }
-- 
2.43.0


From 2807d1a4dcf9fa71de9deabd9ac97145f1446c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 18/46] fix: normals and Valence check the point indices read
 from the mesh

---
 src/attributes/Valence.cxx     |  9 ++++++---
 src/functional/geo/normals.cxx | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index b0ebfa4..f222552 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -61,9 +61,12 @@ namespace df
         Array ids = createArray(positions.count(), 0);
 
         indices.forEach( [&](const Array& t, uint32_t) {
-            ids[t[0]]++;
-            ids[t[1]]++;
-            ids[t[2]]++;
+            for (double id : t) {
+                if (!(id >= 0 && id < ids.size())) {
+                    throw std::invalid_argument("Valence: index of point (" + std::to_string(id) + ") out of range");
+                }
+                ids[id]++;
+            }
         });
 
         return Serie(1, ids);
diff --git a/src/functional/geo/normals.cxx b/src/functional/geo/normals.cxx
index 8b14e4f..d985b37 100644
--- a/src/functional/geo/normals.cxx
+++ b/src/functional/geo/normals.cxx
@@ -43,13 +43,23 @@ Serie normals(const Serie &positions, const Serie &indices) {
         return Serie();
     }
 
+    // The corner of a triangle
+    auto corner = [&positions](double index) {
+        if (!(index >= 0 && index < positions.count())) {
+            throw std::invalid_argument("normals: index of point (" +
+                                        std::to_string(index) +
+                                        ") out of range");
+        }
+        return positions.value(index);
+    };
+
     Array data = createArray(indices.count() * 3, 0);
 
     uint32_t i = 0;
     indices.forEach([&](const Array &t, uint32_t index) {
-        auto v1 = positions.value(t[0]);
-        auto v2 = positions.value(t[1]);
-        auto v3 = positions.value(t[2]);
+        auto v1 = corner(t[0]);
+        auto v2 = corner(t[1]);
+        auto v3 = corner(t[2]);
         auto n = cross(create(v1, v2), create(v1, v3));
         data[i++] = n[0];
         data[i++] = n[1];
-- 
2.43.0


From 3a77179e108ff1b7f446bfc3ed4ca21c51c7456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 19/46] fix: EigenValues and EigenVectors read the digit of the
 name instead of its character code

---
 src/attributes/EigenValues.cxx  | 2 +-
 src/attributes/EigenVectors.cxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 57a88df..5ee7c2d 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -55,7 +55,7 @@ namespace df
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name.empty() ? 0 : name.back() - '0';
 
         if (serie.isValid() == false) {
             return Serie();
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 6331f71..de3ac88 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -55,7 +55,7 @@ namespace df
         }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
-        uint id = name[name.size() - 1];
+        uint id = name.empty() ? 0 : name.back() - '0';
 
         if (serie.isValid() == false) {
             return Serie();
-- 
2.43.0


From fea980a988369fa51b538cfa9c31881aa92af83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 20/46] fix: EigenVectors returns the eigen vector, also in 2D

---
 src/attributes/EigenVectors.cxx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index de3ac88..770ce55 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -50,9 +50,6 @@ namespace df
 
     Serie EigenVectors::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
     {
-        if (itemSize != 3) {
-            return Serie();
-        }
         String newName = name.substr(0, name.size() - 1);
         const Serie& serie = dataframe[newName];
         uint id = name.empty() ? 0 : name.back() - '0';
@@ -62,14 +59,14 @@ namespace df
         }
 
         if (serie.dimension() == 2) {
-            if (serie.itemSize() != 3) {
+            if (serie.itemSize() != 3 || itemSize != 2) {
                 return Serie();
             }
             if (id < 1 || id > 2) {
                 return Serie();
             }
         } else {
-            if (serie.itemSize() != 6) {
+            if (serie.itemSize() != 6 || itemSize != 3) {
                 return Serie();
             }
             if (id < 1 || id > 3) {
@@ -77,8 +74,9 @@ namespace df
             }
         }
 
-        return algebra::eigenVectors(serie).map( [id](const Array& item, uint32_t) {
-            return Array{item[id-1]};
+        return algebra::eigenVectors(serie).map( [id, itemSize](const Array& item, uint32_t) {
+            auto first = item.begin() + (id - 1) * itemSize;
+            return Array(first, first + itemSize);
         });
     }
 
-- 
2.43.0


From 86c05224a1d8faa0a09b4eb0829fb56b8fb13393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 21/46] fix: Components lists and resolves the components of
 series of any item size, in the packing of the item size

---
 src/attributes/Components.cxx | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 6ae4734..01f95cb 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -50,6 +50,13 @@ static Strings smatrix3Names{"xx", "xy", "xz", "yy", "yz", "zz"};
 static Strings matrix3Names{"xx", "xy", "xz", "yx", "yy",
                             "yz", "zx", "zy", "zz"};
 
+// Whether the components are named with letters instead of integers
+static bool hasLetters(const Serie &serie) {
+    auto n = serie.itemSize();
+    return serie.dimension() == 2 ? (n == 2 || n == 3 || n == 4)
+                                  : (n == 3 || n == 6 || n == 9);
+}
+
 Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
                           const Serie &serie, const String &name) const {
     if (name == "positions" || name == "indices") {
@@ -62,7 +69,7 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
         return Strings();
     }
 
-    if (itemSize > 1) {
+    if (itemSize != 1) {
         return Strings();
     }
 
@@ -94,7 +101,7 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     Strings names;
-    for (uint32_t i = 0; i < itemSize; ++i) {
+    for (uint32_t i = 0; i < serie.itemSize(); ++i) {
         names.push_back(name + std::to_string(i));
     }
 
@@ -103,7 +110,7 @@ Strings Components::names(const Dataframe &dataframe, uint32_t itemSize,
 
 Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
                         const String &name) const {
-    if (itemSize > 1) {
+    if (itemSize != 1) {
         return Serie();
     }
 
@@ -114,7 +121,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
             for (uint32_t i = 0; i < vector2Names.size(); ++i) {
-                if (name == newName + vector2Names[i]) {
+                if (serie.itemSize() == 2 && name == newName + vector2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -122,7 +129,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
             }
         } else {
             for (uint32_t i = 0; i < vector3Names.size(); ++i) {
-                if (name == newName + vector3Names[i]) {
+                if (serie.itemSize() == 3 && name == newName + vector3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -137,14 +144,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     if (serie.isValid()) {
         if (serie.dimension() == 2) {
             for (uint32_t i = 0; i < smatrix2Names.size(); ++i) {
-                if (name == newName + smatrix2Names[i]) {
+                if (serie.itemSize() == 3 && name == newName + smatrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
             for (uint32_t i = 0; i < matrix2Names.size(); ++i) {
-                if (name == newName + matrix2Names[i]) {
+                if (serie.itemSize() == 4 && name == newName + matrix2Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -152,14 +159,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
             }
         } else {
             for (uint32_t i = 0; i < smatrix3Names.size(); ++i) {
-                if (name == newName + smatrix3Names[i]) {
+                if (serie.itemSize() == 6 && name == newName + smatrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
                 }
             }
             for (uint32_t i = 0; i < matrix3Names.size(); ++i) {
-                if (name == newName + matrix3Names[i]) {
+                if (serie.itemSize() == 9 && name == newName + matrix3Names[i]) {
                     return serie.map([i](const Array &item, uint32_t index) {
                         return Array{item[i]};
                     });
@@ -168,11 +175,14 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
         }
     }
 
-    // Others: use integer
-    newName = name.substr(0, name.size() - 1);
-    serie = dataframe[newName];
-    if (serie.isValid()) {
-        for (uint32_t i = 0; i < itemSize; ++i) {
+    // Others: use integer (of one digit or more)
+    for (size_t n = 1; n < name.size(); ++n) {
+        newName = name.substr(0, name.size() - n);
+        serie = dataframe[newName];
+        if (!serie.isValid() || serie.itemSize() == 1 || hasLetters(serie)) {
+            continue;
+        }
+        for (uint32_t i = 0; i < serie.itemSize(); ++i) {
             if (name == newName + std::to_string(i)) {
                 return serie.map([i](const Array &item, uint32_t index) {
                     return Array{item[i]};
-- 
2.43.0


From 25600993ed4a29209373aa58fd0bfc3ab4a832ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 22/46] fix: Normals, Area and Valence list their name only if
 there is a mesh to compute it from

---
 src/attributes/Areas.cxx   | 2 +-
 src/attributes/Normals.cxx | 2 +-
 src/attributes/Valence.cxx | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/attributes/Areas.cxx b/src/attributes/Areas.cxx
index 1a14cf6..e248724 100644
--- a/src/attributes/Areas.cxx
+++ b/src/attributes/Areas.cxx
@@ -41,7 +41,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
diff --git a/src/attributes/Normals.cxx b/src/attributes/Normals.cxx
index ac93d57..f67ee39 100644
--- a/src/attributes/Normals.cxx
+++ b/src/attributes/Normals.cxx
@@ -39,7 +39,7 @@ namespace df
         if (itemSize != 3) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
diff --git a/src/attributes/Valence.cxx b/src/attributes/Valence.cxx
index f222552..f117a50 100644
--- a/src/attributes/Valence.cxx
+++ b/src/attributes/Valence.cxx
@@ -38,7 +38,7 @@ namespace df
         if (itemSize != 1) {
             return Strings();
         }
-        if (!dataframe.contains("positions") && !dataframe.contains("indices")) {
+        if (dataframe["positions"].itemSize() != 3 || dataframe["indices"].itemSize() != 3) {
             return Strings();
         }
 
@@ -54,7 +54,7 @@ namespace df
 
         const Serie& positions = dataframe["positions"];
         const Serie& indices = dataframe["indices"];
-        if (!positions.isValid() || !indices.isValid()) {
+        if (positions.itemSize() != 3 || indices.itemSize() != 3) {
             return Serie();
         }
 
-- 
2.43.0


From eb56cf41b59c4b09d778c422d5da706cd791fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 23/46] fix: Coordinates lists and resolves as many names as
 the positions have components

---
 src/attributes/Coordinates.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/attributes/Coordinates.cxx b/src/attributes/Coordinates.cxx
index c0f479d..50b8b86 100644
--- a/src/attributes/Coordinates.cxx
+++ b/src/attributes/Coordinates.cxx
@@ -38,7 +38,8 @@ namespace df
         if (itemSize != 1 || name != "positions") {
             return Strings();
         }
-        return names_;
+        auto size = std::min<size_t>(names_.size(), dataframe["positions"].itemSize());
+        return Strings(names_.begin(), names_.begin() + size);
     }
 
     Serie Coordinates::serie(const Dataframe &dataframe, uint32_t itemSize, const String &name) const
@@ -46,7 +47,7 @@ namespace df
 
         if (itemSize == 1) {
             const Serie& serie = dataframe["positions"];
-            for (uint i=0; i<3; ++i) {
+            for (uint i=0; i<names_.size() && i<serie.itemSize(); ++i) {
                 if (name == names_[i]) {
                     return serie.map( [i](const Array& item, uint32_t) {
                         return Array{item[i]};
-- 
2.43.0


From 87e01fef7ea938285548f2097aa3a4ac103e4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 24/46] fix: every header can be included by itself and first

---
 include/dataframe/Serie.h                             |  1 +
 include/dataframe/functional/conditional/if.h         |  2 +-
 include/dataframe/functional/filter.h                 |  9 +++++++--
 include/dataframe/functional/forEach.h                |  9 +++++++--
 include/dataframe/functional/macros.h                 |  1 +
 include/dataframe/functional/map.h                    |  8 +++++++-
 include/dataframe/functional/math/sub.h               |  1 +
 include/dataframe/functional/merge.h                  |  1 +
 include/dataframe/functional/pipe.h                   |  7 ++++++-
 include/dataframe/functional/reduce.h                 |  7 ++++++-
 include/dataframe/functional/utils/parallel_execute.h |  1 +
 include/dataframe/inline/Serie.hxx                    |  7 +++++++
 include/dataframe/types.h                             |  2 ++
 include/dataframe/utils.h                             | 11 +++++++++--
 include/dataframe/utils/utils.h                       |  4 +++-
 15 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/include/dataframe/Serie.h b/include/dataframe/Serie.h
index f76b8b4..6c038f9 100644
--- a/include/dataframe/Serie.h
+++ b/include/dataframe/Serie.h
@@ -26,6 +26,7 @@
 
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 #include <variant>
 
 namespace df {
diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c69728d..c421fb6 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -22,7 +22,7 @@
  */
 
 #pragma once
-#include "../Serie.h"
+#include "../../Serie.h"
 
 namespace df {
 namespace cond {
diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index acac4df..27a9e9c 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -21,9 +21,12 @@
  *
  */
 
-#pragma once
-#include <array>
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
 #include <dataframe/Serie.h>
+#ifndef DF_FILTER
+#define DF_FILTER
+#include <array>
 #include <dataframe/utils.h>
 #include <tuple>
 
@@ -276,3 +279,5 @@ template <typename F> auto make_filterAll(F &&cb) {
 }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/forEach.h b/include/dataframe/functional/forEach.h
index 5743070..1f673d7 100644
--- a/include/dataframe/functional/forEach.h
+++ b/include/dataframe/functional/forEach.h
@@ -21,8 +21,11 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
 #include <dataframe/Serie.h>
+#ifndef DF_FOREACH
+#define DF_FOREACH
 #include <dataframe/utils.h>
 #include <dataframe/functional/macros.h>
 
@@ -133,4 +136,6 @@ void forEach(F &&callback, const Args &...args) {
  */
 MAKE_OP(forEach);
 
-} // namespace df
\ No newline at end of file
+} // namespace df
+
+#endif
diff --git a/include/dataframe/functional/macros.h b/include/dataframe/functional/macros.h
index 8098925..c55437c 100644
--- a/include/dataframe/functional/macros.h
+++ b/include/dataframe/functional/macros.h
@@ -22,6 +22,7 @@
  */
 
 #pragma once
+#include <utility>
 
 /**
  * @brief Macro that allows to generate a function to be used in pipe (for example).
diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index b72d835..d720a01 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -21,8 +21,12 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
 #include <dataframe/Serie.h>
+#ifndef DF_MAP
+#define DF_MAP
+#include <dataframe/functional/macros.h>
 #include <dataframe/utils.h>
 #include <functional>
 #include <stdexcept>
@@ -174,3 +178,5 @@ auto map(F &&callback, const Args &...args) {
 MAKE_OP(map);
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 2b97bd7..7cf686a 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/utils.h>
 
 namespace df {
 namespace math {
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index f7512f2..17a7055 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <array>
 #include <functional>
 #include <stdexcept>
 #include <type_traits>
diff --git a/include/dataframe/functional/pipe.h b/include/dataframe/functional/pipe.h
index b7b058f..d911ed8 100644
--- a/include/dataframe/functional/pipe.h
+++ b/include/dataframe/functional/pipe.h
@@ -21,8 +21,11 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
 #include <dataframe/Serie.h>
+#ifndef DF_PIPE
+#define DF_PIPE
 
 namespace df {
 
@@ -144,3 +147,5 @@ template <typename... Fs> auto make_pipe(Fs &&...ops) {
 }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/reduce.h b/include/dataframe/functional/reduce.h
index 94cc3f1..c1e75a7 100644
--- a/include/dataframe/functional/reduce.h
+++ b/include/dataframe/functional/reduce.h
@@ -21,8 +21,11 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
 #include <dataframe/Serie.h>
+#ifndef DF_REDUCE
+#define DF_REDUCE
 
 namespace df {
 namespace detail {
@@ -149,3 +152,5 @@ template <typename F> auto make_reduce(F &&cb, const Array &init) {
 // }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/functional/utils/parallel_execute.h b/include/dataframe/functional/utils/parallel_execute.h
index 79bad06..9721bd5 100644
--- a/include/dataframe/functional/utils/parallel_execute.h
+++ b/include/dataframe/functional/utils/parallel_execute.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <dataframe/functional/utils/concat.h>
 #include <dataframe/functional/utils/partition_n.h>
 #include <dataframe/utils.h>
 #include <future>
diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index b3efa07..df57b40 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -21,6 +21,11 @@
  *
  */
 
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
+#include "../Serie.h"
+#ifndef DF_SERIE_HXX
+#define DF_SERIE_HXX
 #include "../functional/filter.h"
 #include "../functional/forEach.h"
 
@@ -180,3 +185,5 @@ template <typename T> inline void Serie::set(uint32_t i, const T &value) {
 }
 
 } // namespace df
+
+#endif
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 5899a1f..86c895d 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -22,6 +22,8 @@
  */
 
 #pragma once
+#include <algorithm>
+#include <cstdint>
 #include <iostream>
 #include <string>
 #include <vector>
diff --git a/include/dataframe/utils.h b/include/dataframe/utils.h
index 8fa67c9..d4b4b42 100644
--- a/include/dataframe/utils.h
+++ b/include/dataframe/utils.h
@@ -21,8 +21,13 @@
  *
  */
 
-#pragma once
+// Serie.h includes this header: it comes before the guard so that any of the
+// two can be included first
 #include "Serie.h"
+#ifndef DF_UTILS
+#define DF_UTILS
+#include <array>
+#include <stdexcept>
 
 namespace df {
 namespace utils {
@@ -71,4 +76,6 @@ inline std::vector<size_t> countAndCheck(const std::vector<Serie> &series) {
 }
 
 } // namespace utils
-} // namespace df
\ No newline at end of file
+} // namespace df
+
+#endif
diff --git a/include/dataframe/utils/utils.h b/include/dataframe/utils/utils.h
index db5c661..b6c7911 100644
--- a/include/dataframe/utils/utils.h
+++ b/include/dataframe/utils/utils.h
@@ -23,8 +23,10 @@
 
 #pragma once
 
-#include <string>
+#include <algorithm>
 #include <iostream>
+#include <string>
+#include <vector>
 
 namespace df
 {
-- 
2.43.0


From 3a32e762a447b985c4a403bceebbf84bae5470a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 25/46] fix: functions defined in headers are inline

---
 include/dataframe/functional/geo/cartesian_grid.h | 2 +-
 include/dataframe/functional/merge.h              | 2 +-
 include/dataframe/functional/utils/concat.h       | 2 +-
 include/dataframe/functional/utils/unzip.h        | 2 +-
 include/dataframe/functional/utils/zip.h          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dataframe/functional/geo/cartesian_grid.h b/include/dataframe/functional/geo/cartesian_grid.h
index 9073fca..bd4e657 100644
--- a/include/dataframe/functional/geo/cartesian_grid.h
+++ b/include/dataframe/functional/geo/cartesian_grid.h
@@ -110,7 +110,7 @@ inline Serie from_dims(const std::vector<uint32_t> &npts,
  * auto cube = df::grid::cartesian::from_points({3,3,3}, {0,0,0}, {1,1,1});
  * ```
  */
-Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
+inline Serie from_points(const std::vector<uint32_t> &npts, const Array &p1,
                             const Array &p2) {
     if (npts.empty() || npts.size() > 3) {
         throw std::invalid_argument("npts must have 1, 2 or 3 components");
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index 17a7055..9adc3cc 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -33,7 +33,7 @@ namespace df {
 /**
  * If concatenate is false, interleave is used to merge the series
  */
-Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
+inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     if (s1.itemSize() != s2.itemSize()) {
         throw std::invalid_argument("Series must have same itemSize");
     }
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 94d5a01..42ef753 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -33,7 +33,7 @@ namespace utils {
 /**
  * Concatenate 2 or more series
  */
-Serie concat(const std::vector<Serie> &series) {
+inline Serie concat(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("concat requires at least one Serie");
     }
diff --git a/include/dataframe/functional/utils/unzip.h b/include/dataframe/functional/utils/unzip.h
index b00e8fe..076f398 100644
--- a/include/dataframe/functional/utils/unzip.h
+++ b/include/dataframe/functional/utils/unzip.h
@@ -35,7 +35,7 @@ namespace utils {
  * @param itemSizes Vector containing the itemSize for each output Serie
  * @return Series The unzipped Series
  */
-Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
+inline Series unzip(const Serie &zipped, const std::vector<uint32_t> &itemSizes) {
     if (itemSizes.empty()) {
         throw std::invalid_argument("itemSizes cannot be empty");
     }
diff --git a/include/dataframe/functional/utils/zip.h b/include/dataframe/functional/utils/zip.h
index 55e5f07..b38cd41 100644
--- a/include/dataframe/functional/utils/zip.h
+++ b/include/dataframe/functional/utils/zip.h
@@ -108,7 +108,7 @@ MAKE_OP(zip);
  * auto result = zipVector(series);
  * ```
  */
-Serie zipVector(const std::vector<Serie> &series) {
+inline Serie zipVector(const std::vector<Serie> &series) {
     if (series.empty()) {
         throw std::invalid_argument("zipVector requires at least one Serie");
     }
-- 
2.43.0


From acd584126063d06e8ce6ec5da17c55d0479a3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 26/46] fix: stream insertion writes to the stream it is given

---
 include/dataframe/inline/Serie.hxx | 16 ++++++++--------
 include/dataframe/types.h          | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index df57b40..8172d2c 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -72,19 +72,19 @@ inline const Array &Serie::asArray() const { return s_; }
 inline Array &Serie::asArray() { return s_; }
 
 inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
-    std::cerr << "Serie:" << std::endl;
-    std::cerr << "  itemSize : " << s.itemSize() << std::endl;
-    std::cerr << "  count    : " << s.count() << std::endl;
-    std::cerr << "  dimension: " << s.dimension() << std::endl;
+    o << "Serie:" << std::endl;
+    o << "  itemSize : " << s.itemSize() << std::endl;
+    o << "  count    : " << s.count() << std::endl;
+    o << "  dimension: " << s.dimension() << std::endl;
     if (s.count() > 0) {
-        std::cerr << "  values   : [";
+        o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-            std::cerr << v[i] << ", ";
+            o << v[i] << ", ";
         }
-        std::cerr << v[v.size() - 1] << "]";
+        o << v[v.size() - 1] << "]";
     } else {
-        std::cerr << "  values   : []";
+        o << "  values   : []";
     }
     return o;
 }
diff --git a/include/dataframe/types.h b/include/dataframe/types.h
index 86c895d..b8ca3d7 100644
--- a/include/dataframe/types.h
+++ b/include/dataframe/types.h
@@ -53,15 +53,15 @@ inline Array createArray(uint32_t size, double initValue) {
 
 inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
-    std::cout << "[";
+    o << "[";
     if (a.size() > 0) {
         for (size_t j = 0; j < a.size() - 1; ++j) {
-            std::cout << a[j] << ", ";
+            o << a[j] << ", ";
         }
-        std::cout << a.back() << "]";
+        o << a.back() << "]";
     }
     else {
-        std::cout << "[]";
+        o << "[]";
     }
 
     return o;
@@ -69,8 +69,8 @@ inline std::ostream &operator<<(std::ostream &o, const Array &a) {
 
 inline std::ostream &operator<<(std::ostream &o, const Strings &a) {
     for (const String &v : a) {
-        std::cerr << "  " << v << std::endl;
+        o << "  " << v << std::endl;
     }
-    std::cerr << std::endl;
+    o << std::endl;
     return o;
 }
-- 
2.43.0


From bb257cd2a4372a5bb7b39125254c620994880705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 27/46] fix: sort uses the given comparator for scalar series
 too

---
 include/dataframe/functional/utils/sort.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 2fb2d1d..4d43761 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -24,6 +24,9 @@
 #pragma once
 #include <dataframe/Serie.h>
 #include <algorithm>
+#include <functional>
+#include <stdexcept>
+#include <type_traits>
 
 namespace df {
 namespace utils {
@@ -40,7 +43,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        std::sort(values.begin(), values.end());
+        if constexpr (std::is_invocable_v<Comparator &, double, double>) {
+            std::sort(values.begin(), values.end(), comp);
+        } else {
+            std::sort(values.begin(), values.end(), [&comp](double a, double b) {
+                return comp(Array{a}, Array{b});
+            });
+        }
         return Serie(1, values);
     } else {
         std::vector<Array> values;
@@ -49,7 +58,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<Array>(i));
         }
 
-        std::sort(values.begin(), values.end(), comp);
+        if constexpr (std::is_invocable_v<Comparator &, const Array &,
+                                          const Array &>) {
+            std::sort(values.begin(), values.end(), comp);
+        } else {
+            throw std::invalid_argument(
+                "Cannot use scalar comparator for Serie with itemSize > 1");
+        }
 
         Array flattened;
         flattened.reserve(serie.itemSize() * values.size());
-- 
2.43.0


From 015be2c43966de9401fa7d282949d1635d56c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 28/46] fix: memoize tells series apart by their shape and
 bits, not only by their values

---
 include/dataframe/functional/utils/memoize.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/dataframe/functional/utils/memoize.h b/include/dataframe/functional/utils/memoize.h
index d514261..0fcf5bf 100644
--- a/include/dataframe/functional/utils/memoize.h
+++ b/include/dataframe/functional/utils/memoize.h
@@ -22,6 +22,8 @@
  */
 #pragma once
 #include <dataframe/Serie.h>
+#include <bit>
+#include <cstdint>
 #include <map>
 #include <utility>
 #include <vector>
@@ -48,18 +50,14 @@ template <typename F> class Memoized {
 
   private:
     F func;
-    mutable std::map<std::vector<double>, Serie> cache;
+    mutable std::map<std::vector<uint64_t>, Serie> cache;
 
     // Helper to create cache key from Series
-    std::vector<double> make_key(const Serie &s) const {
-        std::vector<double> key;
-        for (uint32_t i = 0; i < s.count(); ++i) {
-            if (s.itemSize() == 1) {
-                key.push_back(s.template get<double>(i));
-            } else {
-                const auto &v = s.template get<Array>(i);
-                key.insert(key.end(), v.begin(), v.end());
-            }
+    // (shape and bits of the values, which also tell NaN apart)
+    std::vector<uint64_t> make_key(const Serie &s) const {
+        std::vector<uint64_t> key{s.itemSize(), s.count(), s.dimension()};
+        for (double v : s.asArray()) {
+            key.push_back(std::bit_cast<uint64_t>(v));
         }
         return key;
     }
-- 
2.43.0


From 23693e4167e01f357b7eb68d82cf7f3b84efbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 29/46] fix: if_then_else can be instantiated

---
 include/dataframe/functional/conditional/if.h | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/dataframe/functional/conditional/if.h b/include/dataframe/functional/conditional/if.h
index c421fb6..e820950 100644
--- a/include/dataframe/functional/conditional/if.h
+++ b/include/dataframe/functional/conditional/if.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include "../../Serie.h"
+#include <type_traits>
 
 namespace df {
 namespace cond {
@@ -55,16 +56,31 @@ namespace cond {
 template <typename Check, typename True, typename False>
 Serie if_then_else(const Serie &serie, Check &&check_fn, True &&true_fn,
                    False &&false_fn) {
-    return map(serie, [check_fn = std::forward<Check>(check_fn),
-                       true_fn = std::forward<True>(true_fn),
-                       false_fn = std::forward<False>(false_fn),
-                       &serie](const auto &value, uint32_t i) {
-        return check_fn(value) ? true_fn(value, i, serie)
-                               : false_fn(value, i, serie);
-    });
+    if constexpr (std::is_invocable_v<Check &, const Array &>) {
+        return map(
+            [&](const Array &value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    } else {
+        return map(
+            [&](double value, uint32_t i) {
+                return check_fn(value) ? true_fn(value, i, serie)
+                                       : false_fn(value, i, serie);
+            },
+            serie);
+    }
 }
 
-MAKE_OP(if_then_else);
+template <typename Check, typename True, typename False>
+auto make_if_then_else(Check &&check_fn, True &&true_fn, False &&false_fn) {
+    return [check_fn = std::forward<Check>(check_fn),
+            true_fn = std::forward<True>(true_fn),
+            false_fn = std::forward<False>(false_fn)](const Serie &serie) {
+        return if_then_else(serie, check_fn, true_fn, false_fn);
+    };
+}
 
 } // namespace cond
 } // namespace df
-- 
2.43.0


From 694521c4378627962291c89c40b6583b6fa6a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 30/46] fix: variadic sub subtracts from the first Serie and is
 called sub; variadic add and sub do not catch numbers

---
 include/dataframe/functional/math/add.h | 17 ++++++-----------
 include/dataframe/functional/math/sub.h | 17 ++++++-----------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 0e3a843..effeaad 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <type_traits>
 #include <dataframe/utils.h>
 
 namespace df {
@@ -55,18 +56,12 @@ inline Serie add(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
+template <typename... Series>
+auto add(const Serie &first, const Series &...series)
+    -> std::enable_if_t<(std::is_same_v<Series, Serie> && ...), Serie> {
+    utils::countAndCheck(first, series...);
 
-    Serie result = Serie(first.itemSize(), first.count());
+    Serie result = first;
     ((result = add(result, series)), ...);
     return result;
 }
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 7cf686a..3f2f26b 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -23,6 +23,7 @@
 
 #pragma once
 #include <dataframe/Serie.h>
+#include <type_traits>
 #include <dataframe/utils.h>
 
 namespace df {
@@ -55,18 +56,12 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
     return result;
 }
 
-template <typename... Series> Serie add(const Series &...series) {
-    if constexpr (sizeof...(series) < 1) {
-        throw std::invalid_argument(
-            "Number of arguments (Serie) must be greater than 1. Got " +
-            std::to_string(sizeof...(series)) + " arguments)");
-    }
-
-    utils::countAndCheck(series...);
-
-    auto first = std::get<0>(std::tuple<const Series &...>(series...));
+template <typename... Series>
+auto sub(const Serie &first, const Series &...series)
+    -> std::enable_if_t<(std::is_same_v<Series, Serie> && ...), Serie> {
+    utils::countAndCheck(first, series...);
 
-    Serie result = Serie(first.itemSize(), first.count());
+    Serie result = first;
     ((result = sub(result, series)), ...);
     return result;
 }
-- 
2.43.0


From 044cf3e9f652989fc2a13cfb277adfbdfb6812ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 31/46] fix: make_ functions of operations on a Serie pass
 their argument in the place the operation expects

---
 include/dataframe/functional/algebra/det.h    |  2 +-
 include/dataframe/functional/algebra/dot.h    |  2 +-
 include/dataframe/functional/algebra/eigen.h  |  6 ++--
 include/dataframe/functional/algebra/inv.h    |  2 +-
 include/dataframe/functional/algebra/norm.h   |  4 +--
 .../dataframe/functional/algebra/transpose.h  |  2 +-
 .../dataframe/functional/conditional/check.h  |  2 +-
 include/dataframe/functional/geo/insar.h      |  4 +--
 include/dataframe/functional/macros.h         | 34 +++++++++++++++++++
 include/dataframe/functional/math/add.h       |  2 +-
 include/dataframe/functional/math/minMax.h    |  2 +-
 include/dataframe/functional/math/mult.h      |  2 +-
 include/dataframe/functional/math/negate.h    |  2 +-
 include/dataframe/functional/math/normalize.h |  2 +-
 include/dataframe/functional/math/scale.h     |  2 +-
 include/dataframe/functional/math/sub.h       |  2 +-
 include/dataframe/functional/stats/bins.h     |  2 +-
 include/dataframe/functional/stats/mean.h     |  2 +-
 include/dataframe/functional/stats/quantile.h | 16 ++++-----
 include/dataframe/functional/utils/sort.h     |  2 +-
 20 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/include/dataframe/functional/algebra/det.h b/include/dataframe/functional/algebra/det.h
index 930f655..e060c72 100644
--- a/include/dataframe/functional/algebra/det.h
+++ b/include/dataframe/functional/algebra/det.h
@@ -29,7 +29,7 @@ namespace algebra {
 
 Serie det(const Serie &a);
 
-MAKE_OP(det);
+MAKE_OP_UNARY(det);
 
 } // namespace algebra
 } // namespace df
diff --git a/include/dataframe/functional/algebra/dot.h b/include/dataframe/functional/algebra/dot.h
index f472899..c0ec88e 100644
--- a/include/dataframe/functional/algebra/dot.h
+++ b/include/dataframe/functional/algebra/dot.h
@@ -30,7 +30,7 @@ namespace algebra {
 Serie dot(const Serie &a, const Serie &b);
 Serie dot(const Serie &a, const Array &b);
 
-MAKE_OP(det);
+MAKE_OP_LAST(dot);
 
 } // namespace algebra
 } // namespace df
diff --git a/include/dataframe/functional/algebra/eigen.h b/include/dataframe/functional/algebra/eigen.h
index aaaf959..2d4cdf4 100644
--- a/include/dataframe/functional/algebra/eigen.h
+++ b/include/dataframe/functional/algebra/eigen.h
@@ -36,9 +36,9 @@ using EigenSystem = std::tuple<Serie, Serie>;
  */
 EigenSystem eigenSystem(const Serie &serie);
 
-MAKE_OP(eigenValues);
-MAKE_OP(eigenVectors);
-MAKE_OP(eigenSystem);
+MAKE_OP_UNARY(eigenValues);
+MAKE_OP_UNARY(eigenVectors);
+MAKE_OP_UNARY(eigenSystem);
 
 } // namespace algebra
 } // namespace df
diff --git a/include/dataframe/functional/algebra/inv.h b/include/dataframe/functional/algebra/inv.h
index 787151a..4853980 100644
--- a/include/dataframe/functional/algebra/inv.h
+++ b/include/dataframe/functional/algebra/inv.h
@@ -29,7 +29,7 @@ namespace algebra {
 
 Serie inv(const Serie &serie);
 
-MAKE_OP(inv);
+MAKE_OP_UNARY(inv);
 
 } // namespace algebra
 } // namespace df
diff --git a/include/dataframe/functional/algebra/norm.h b/include/dataframe/functional/algebra/norm.h
index 6cd03a4..dba5f53 100644
--- a/include/dataframe/functional/algebra/norm.h
+++ b/include/dataframe/functional/algebra/norm.h
@@ -30,8 +30,8 @@ namespace algebra {
 Serie norm(const Serie &s);
 Serie norm2(const Serie &s);
 
-MAKE_OP(norm);
-MAKE_OP(norm2);
+MAKE_OP_UNARY(norm);
+MAKE_OP_UNARY(norm2);
 
 } // namespace algebra
 } // namespace df
diff --git a/include/dataframe/functional/algebra/transpose.h b/include/dataframe/functional/algebra/transpose.h
index b5bcba9..96b11f5 100644
--- a/include/dataframe/functional/algebra/transpose.h
+++ b/include/dataframe/functional/algebra/transpose.h
@@ -29,7 +29,7 @@ namespace algebra {
 
 Serie transpose(const Serie &serie);
 
-MAKE_OP(transpose);
+MAKE_OP_UNARY(transpose);
 
 } // namespace algebra
 } // namespace df
diff --git a/include/dataframe/functional/conditional/check.h b/include/dataframe/functional/conditional/check.h
index 2057325..d8f87ab 100644
--- a/include/dataframe/functional/conditional/check.h
+++ b/include/dataframe/functional/conditional/check.h
@@ -53,7 +53,7 @@ template <typename F> auto check(const Serie &serie, F &&cb) {
 /**
  * @brief Creates a reusable check function
  */
-MAKE_OP(check);
+MAKE_OP_LAST(check);
 
 } // namespace cond
 } // namespace df
diff --git a/include/dataframe/functional/geo/insar.h b/include/dataframe/functional/geo/insar.h
index cdd71bc..aca5ee9 100644
--- a/include/dataframe/functional/geo/insar.h
+++ b/include/dataframe/functional/geo/insar.h
@@ -30,8 +30,8 @@ namespace geo {
 Serie insar(const Serie &u, const Array &los);
 Serie fringes(const Serie &insar, double spacing);
 
-MAKE_OP(insar);
-MAKE_OP(fringes);
+MAKE_OP_LAST(insar);
+MAKE_OP_LAST(fringes);
 
 } // namespace geo
 } // namespace df
diff --git a/include/dataframe/functional/macros.h b/include/dataframe/functional/macros.h
index c55437c..ca79412 100644
--- a/include/dataframe/functional/macros.h
+++ b/include/dataframe/functional/macros.h
@@ -22,6 +22,7 @@
  */
 
 #pragma once
+#include <type_traits>
 #include <utility>
 
 /**
@@ -44,3 +45,36 @@
     { \
         return [cb = std::forward<F>(cb)](const auto &serie) { return op(cb, serie); }; \
     }
+
+/**
+ * @brief Same as MAKE_OP, for an operation on a Serie that takes its argument last
+ * @example
+ * ```cpp
+ * auto half = make_scale(0.5); // half(serie) is scale(serie, 0.5)
+ * ```
+ */
+#define MAKE_OP_LAST(op) \
+    template <typename A> \
+    auto make_##op(A &&arg) \
+    { \
+        return [arg = std::forward<A>(arg)](const auto &serie) { \
+            if constexpr (::df::details::is_serie_v<std::decay_t<A>>) { \
+                return op(arg, serie); \
+            } else { \
+                return op(serie, arg); \
+            } \
+        }; \
+    }
+
+/**
+ * @brief Same as MAKE_OP, for an operation on a Serie without argument
+ * @example
+ * ```cpp
+ * auto opposite = make_negate(); // opposite(serie) is negate(serie)
+ * ```
+ */
+#define MAKE_OP_UNARY(op) \
+    inline auto make_##op() \
+    { \
+        return [](const auto &serie) { return op(serie); }; \
+    }
diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index effeaad..64784ed 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -66,7 +66,7 @@ auto add(const Serie &first, const Series &...series)
     return result;
 }
 
-MAKE_OP(add);
+MAKE_OP_LAST(add);
 
 } // namespace math
 } // namespace df
diff --git a/include/dataframe/functional/math/minMax.h b/include/dataframe/functional/math/minMax.h
index 5f0fea1..707e431 100644
--- a/include/dataframe/functional/math/minMax.h
+++ b/include/dataframe/functional/math/minMax.h
@@ -35,7 +35,7 @@ struct MinMax {
 
 MinMax minMax(const Serie &serie);
 
-MAKE_OP(minMax);
+MAKE_OP_UNARY(minMax);
 
 } // namespace math
 } // namespace df
diff --git a/include/dataframe/functional/math/mult.h b/include/dataframe/functional/math/mult.h
index 1025ff0..f759dff 100644
--- a/include/dataframe/functional/math/mult.h
+++ b/include/dataframe/functional/math/mult.h
@@ -31,7 +31,7 @@ namespace math {
 Serie mult(const Serie &serie, double);
 Serie mult(const Serie &serie, const Serie &divider);
 
-MAKE_OP(mult);
+MAKE_OP_LAST(mult);
 
 // TODO:
 // Serie mult(const Serie &serie, const Array &);
diff --git a/include/dataframe/functional/math/negate.h b/include/dataframe/functional/math/negate.h
index adc0410..f97bd32 100644
--- a/include/dataframe/functional/math/negate.h
+++ b/include/dataframe/functional/math/negate.h
@@ -29,7 +29,7 @@ namespace math {
 
 Serie negate(const Serie &serie);
 
-MAKE_OP(negate);
+MAKE_OP_UNARY(negate);
 
 } // namespace math
 } // namespace df
diff --git a/include/dataframe/functional/math/normalize.h b/include/dataframe/functional/math/normalize.h
index 1a528ad..586d502 100644
--- a/include/dataframe/functional/math/normalize.h
+++ b/include/dataframe/functional/math/normalize.h
@@ -29,7 +29,7 @@ namespace math {
 
 Serie normalize(const Serie &serie);
 
-MAKE_OP(normalize);
+MAKE_OP_UNARY(normalize);
 
 } // namespace math
 } // namespace df
\ No newline at end of file
diff --git a/include/dataframe/functional/math/scale.h b/include/dataframe/functional/math/scale.h
index 9c39c2c..9b4e65f 100644
--- a/include/dataframe/functional/math/scale.h
+++ b/include/dataframe/functional/math/scale.h
@@ -30,7 +30,7 @@ namespace math {
 Serie scale(const Serie &s, double scale);
 Serie scale(const Serie &s, const Array &scales);
 
-MAKE_OP(scale);
+MAKE_OP_LAST(scale);
 
 } // namespace math
 } // namespace df
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 3f2f26b..7303acc 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -66,7 +66,7 @@ auto sub(const Serie &first, const Series &...series)
     return result;
 }
 
-MAKE_OP(sub);
+MAKE_OP_LAST(sub);
 
 } // namespace math
 } // namespace df
diff --git a/include/dataframe/functional/stats/bins.h b/include/dataframe/functional/stats/bins.h
index 97bd644..a9152e5 100644
--- a/include/dataframe/functional/stats/bins.h
+++ b/include/dataframe/functional/stats/bins.h
@@ -39,7 +39,7 @@ Serie bins(const Serie &serie, uint nb);
  */
 Serie bins(const Serie &serie, uint nb, double min, double max);
 
-MAKE_OP(bins);
+MAKE_OP_LAST(bins);
 
 } // namespace stats
 } // namespace df
diff --git a/include/dataframe/functional/stats/mean.h b/include/dataframe/functional/stats/mean.h
index f4a74ea..bbd166c 100644
--- a/include/dataframe/functional/stats/mean.h
+++ b/include/dataframe/functional/stats/mean.h
@@ -35,7 +35,7 @@ namespace stats {
  */
 Tuple mean(const Serie &serie);
 
-MAKE_OP(mean);
+MAKE_OP_UNARY(mean);
 
 } // namespace stats
 } // namespace df
diff --git a/include/dataframe/functional/stats/quantile.h b/include/dataframe/functional/stats/quantile.h
index a832164..dc26210 100644
--- a/include/dataframe/functional/stats/quantile.h
+++ b/include/dataframe/functional/stats/quantile.h
@@ -32,49 +32,49 @@ namespace stats {
  * and q must be in [0,1].
  */
 double quantile(const Serie &serie, double q);
-MAKE_OP(quantile);
+MAKE_OP_LAST(quantile);
 
 /**
  * @brief Get the quantile for q = 0.25
  */
 double q25(const Serie &serie);
-MAKE_OP(q25);
+MAKE_OP_UNARY(q25);
 
 /**
  * @brief Get the quantile for q = 0.5
  */
 double q50(const Serie &serie);
-MAKE_OP(q50);
+MAKE_OP_UNARY(q50);
 
 /**
  * @brief Get the quantile for q = 0.75
  */
 double q75(const Serie &serie);
-MAKE_OP(q75);
+MAKE_OP_UNARY(q75);
 
 /**
  * Get the q75 - q25
  */
 double IQR(const Serie &serie);
-MAKE_OP(IQR);
+MAKE_OP_UNARY(IQR);
 
 /**
  * Get the outliers of a serie given the mustache
  */
 Serie outliers(const Serie &serie, double mustache);
-MAKE_OP(outliers);
+MAKE_OP_LAST(outliers);
 
 /**
  * To be done !
  */
 Serie isOutliers(const Serie &serie, double mustache);
-MAKE_OP(isOutliers);
+MAKE_OP_LAST(isOutliers);
 
 /**
  * To be done !
  */
 Serie notOutliers(const Serie &serie, double mustache = 1.5);
-MAKE_OP(notOutliers);
+MAKE_OP_LAST(notOutliers);
 
 } // namespace stats
 } // namespace df
diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 4d43761..04640de 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -88,7 +88,7 @@ inline Serie sort(const Serie &serie) {
     });
 }
 
-MAKE_OP(sort);
+MAKE_OP_LAST(sort);
 
 } // namespace utils
 } // namespace df
-- 
2.43.0


From 36dd6fa122a0cbcfb2ba25fa3125dc8f3aba59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 32/46] fix: make_filterAll and make_rejectAll take several
 series

---
 include/dataframe/functional/filter.h       | 4 ++--
 include/dataframe/functional/utils/reject.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index 27a9e9c..1eeaf60 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -273,8 +273,8 @@ template <typename F> auto make_filterAll(F &&cb) {
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Filter predicate must return bool");
 
-    return [cb = std::forward<F>(cb)](const auto &serie) {
-        return filterAll(cb, serie);
+    return [cb = std::forward<F>(cb)](const auto &...series) {
+        return filterAll(cb, series...);
     };
 }
 
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index 3171e17..c42d32b 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -157,8 +157,8 @@ template <typename F> auto make_rejectAll(F &&cb) {
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Reject predicate must return bool");
 
-    return [cb = std::forward<F>(cb)](const auto &serie) {
-        return rejectAll(cb, serie);
+    return [cb = std::forward<F>(cb)](const auto &...series) {
+        return rejectAll(cb, series...);
     };
 }
 
-- 
2.43.0


From d0d69973008fd275e0e0441bbdd683851f095972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 33/46] fix: member pipe of one stage can be instantiated and
 reduce works on a constant Serie

---
 include/dataframe/Serie.h          | 4 ++--
 include/dataframe/inline/Serie.hxx | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dataframe/Serie.h b/include/dataframe/Serie.h
index 6c038f9..019d5df 100644
--- a/include/dataframe/Serie.h
+++ b/include/dataframe/Serie.h
@@ -106,8 +106,8 @@ class Serie {
 
     template <typename F> void forEach(F &&cb) const;
     template <typename F> auto map(F &&cb) const;
-    template <typename F> auto reduce(F &&cb, double init);
-    template <typename F> auto reduce(F &&cb, const Array &init);
+    template <typename F> auto reduce(F &&cb, double init) const;
+    template <typename F> auto reduce(F &&cb, const Array &init) const;
     template <typename F> auto filter(F &&reduceFn) const;
     template <typename F> auto pipe(F &&op) const;
     template <typename F, typename... Fs> auto pipe(F &&op, Fs &&...ops) const;
diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 8172d2c..844eb5a 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -46,11 +46,11 @@ template <typename F> auto Serie::map(F &&cb) const {
     return df::map(cb, *this);
 }
 
-template <typename F> auto Serie::reduce(F &&cb, double init) {
+template <typename F> auto Serie::reduce(F &&cb, double init) const {
     return df::reduce(cb, *this, init);
 }
 
-template <typename F> auto Serie::reduce(F &&cb, const Array &init) {
+template <typename F> auto Serie::reduce(F &&cb, const Array &init) const {
     return df::reduce(cb, *this, init);
 }
 
@@ -59,7 +59,7 @@ template <typename F> auto Serie::filter(F &&predicate) const {
 }
 
 template <typename F> auto Serie::pipe(F &&op) const {
-    return df::pipe(op, *this);
+    return df::pipe(*this, op);
 }
 
 template <typename F, typename... Fs>
-- 
2.43.0


From 0409e01c74480ad777cb94461318339dbb53d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 34/46] fix: operations that transform a Serie keep its
 dimension

---
 include/dataframe/functional/filter.h            |  8 ++++----
 include/dataframe/functional/find.h              |  2 +-
 include/dataframe/functional/map.h               | 14 ++++++++------
 include/dataframe/functional/math/add.h          |  2 +-
 include/dataframe/functional/math/sub.h          |  2 +-
 include/dataframe/functional/merge.h             |  8 ++++----
 include/dataframe/functional/utils/concat.h      |  2 +-
 include/dataframe/functional/utils/partition.h   | 10 ++++++----
 include/dataframe/functional/utils/partition_n.h |  4 ++--
 include/dataframe/functional/utils/reject.h      |  8 ++++----
 include/dataframe/functional/utils/sort.h        |  4 ++--
 src/functional/algebra/eigen.cxx                 |  4 ++--
 src/functional/math/mult.cxx                     |  2 +-
 13 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index 1eeaf60..9a660ea 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -100,7 +100,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -120,7 +120,7 @@ auto __filter__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -182,7 +182,7 @@ auto filter(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -256,7 +256,7 @@ Series filterAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto filter_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/find.h b/include/dataframe/functional/find.h
index 0076211..c4fa624 100644
--- a/include/dataframe/functional/find.h
+++ b/include/dataframe/functional/find.h
@@ -106,7 +106,7 @@ template <typename F> Serie findAll(F &&predicate, const Serie &serie) {
     }
 
     // Create result Serie
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         if (serie.itemSize() == 1) {
             result.template set(i, serie.template get<double>(indices[i]));
diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index d720a01..11bf7d3 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -30,6 +30,7 @@
 #include <dataframe/utils.h>
 #include <functional>
 #include <stdexcept>
+#include <tuple>
 #include <type_traits>
 
 namespace df {
@@ -50,7 +51,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 results.push_back(
                     static_cast<double>(cb(serie.template get<double>(i), i)));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Scalar to vector
             if (serie.count() == 0) {
@@ -72,7 +73,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     } else {
         // Input is vector
@@ -85,7 +86,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
             for (uint32_t i = 0; i < serie.count(); ++i) {
                 results.push_back(cb(serie.template get<Array>(i), i));
             }
-            return Serie(1, results);
+            return Serie(1, results, serie.dimension());
         } else {
             // Vector to vector
             if (serie.count() == 0) {
@@ -107,7 +108,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
                 }
                 flattened.insert(flattened.end(), result.begin(), result.end());
             }
-            return Serie(itemSize, flattened);
+            return Serie(itemSize, flattened, serie.dimension());
         }
     }
 }
@@ -131,6 +132,7 @@ auto map(F &&callback, const Args &...args) {
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
+        uint dimension = std::get<0>(std::tie(args...)).dimension();
 
         if constexpr (std::is_arithmetic_v<decltype(first_result)>) {
             // Callback returns scalar
@@ -141,7 +143,7 @@ auto map(F &&callback, const Args &...args) {
             for (uint32_t i = 1; i < counts[0]; ++i) {
                 results.push_back(callback(args.template get<Array>(i)..., i));
             }
-            result = Serie(1, results);
+            result = Serie(1, results, dimension);
         } else {
             // Callback returns Array
             const size_t itemSize = first_result.size();
@@ -159,7 +161,7 @@ auto map(F &&callback, const Args &...args) {
                 flattened.insert(flattened.end(), result_i.begin(),
                                  result_i.end());
             }
-            result = Serie(itemSize, flattened);
+            result = Serie(itemSize, flattened, dimension);
         }
         return result;
 
diff --git a/include/dataframe/functional/math/add.h b/include/dataframe/functional/math/add.h
index 64784ed..bd89660 100644
--- a/include/dataframe/functional/math/add.h
+++ b/include/dataframe/functional/math/add.h
@@ -38,7 +38,7 @@ inline Serie add(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
diff --git a/include/dataframe/functional/math/sub.h b/include/dataframe/functional/math/sub.h
index 7303acc..4215780 100644
--- a/include/dataframe/functional/math/sub.h
+++ b/include/dataframe/functional/math/sub.h
@@ -38,7 +38,7 @@ inline Serie sub(const Serie &s1, const Serie &s2) {
         throw std::invalid_argument("Series must have same itemSize and count");
     }
 
-    Serie result(s1.itemSize(), s1.count());
+    Serie result(s1.itemSize(), s1.count(), s1.dimension());
 
     for (uint32_t i = 0; i < s1.count(); ++i) {
         if (s1.itemSize() == 1) {
diff --git a/include/dataframe/functional/merge.h b/include/dataframe/functional/merge.h
index 9adc3cc..39b5644 100644
--- a/include/dataframe/functional/merge.h
+++ b/include/dataframe/functional/merge.h
@@ -39,7 +39,7 @@ inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
     }
 
     if (concatenate) {
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < s1.count(); ++i, ++idx) {
@@ -50,7 +50,7 @@ inline Serie merge(const Serie &s1, const Serie &s2, bool concatenate = true) {
         }
         return result;
     } else { // Interleave
-        Serie result(s1.itemSize(), s1.count() + s2.count());
+        Serie result(s1.itemSize(), s1.count() + s2.count(), s1.dimension());
         uint32_t idx = 0;
 
         for (uint32_t i = 0; i < std::max(s1.count(), s2.count()); ++i) {
@@ -75,8 +75,8 @@ Serie merge(bool concatenate, const Series &...series) {
     }
 
     uint32_t total_count = (series.count() + ...);
-    Serie result(std::get<0>(std::forward_as_tuple(series...)).itemSize(),
-                 total_count);
+    const auto &first = std::get<0>(std::forward_as_tuple(series...));
+    Serie result(first.itemSize(), total_count, first.dimension());
 
     if (concatenate) {
         uint32_t idx = 0;
diff --git a/include/dataframe/functional/utils/concat.h b/include/dataframe/functional/utils/concat.h
index 42ef753..94fa74b 100644
--- a/include/dataframe/functional/utils/concat.h
+++ b/include/dataframe/functional/utils/concat.h
@@ -50,7 +50,7 @@ inline Serie concat(const std::vector<Serie> &series) {
         totalCount += s.count();
     }
 
-    Serie result(itemSize, totalCount);
+    Serie result(itemSize, totalCount, series[0].dimension());
     uint32_t currentIndex = 0;
 
     for (const auto &s : series) {
diff --git a/include/dataframe/functional/utils/partition.h b/include/dataframe/functional/utils/partition.h
index 45bc1f4..21c7944 100644
--- a/include/dataframe/functional/utils/partition.h
+++ b/include/dataframe/functional/utils/partition.h
@@ -56,8 +56,8 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(1, matched_indices.size());
-        Serie unmatched(1, unmatched_indices.size());
+        Serie matched(1, matched_indices.size(), serie.dimension());
+        Serie unmatched(1, unmatched_indices.size(), serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<double>(matched_indices[i]));
@@ -78,8 +78,10 @@ template <typename F> auto partition(F &&predicate, const Serie &serie) {
             }
         }
 
-        Serie matched(serie.itemSize(), matched_indices.size());
-        Serie unmatched(serie.itemSize(), unmatched_indices.size());
+        Serie matched(serie.itemSize(), matched_indices.size(),
+                serie.dimension());
+        Serie unmatched(serie.itemSize(), unmatched_indices.size(),
+                serie.dimension());
 
         for (uint32_t i = 0; i < matched_indices.size(); ++i) {
             matched.set(i, serie.template get<Array>(matched_indices[i]));
diff --git a/include/dataframe/functional/utils/partition_n.h b/include/dataframe/functional/utils/partition_n.h
index 818e226..e2a2afa 100644
--- a/include/dataframe/functional/utils/partition_n.h
+++ b/include/dataframe/functional/utils/partition_n.h
@@ -55,7 +55,7 @@ inline Series partition_n(uint32_t n, const Serie &serie) {
     uint32_t start = 0;
     for (uint32_t i = 0; i < n; ++i) {
         uint32_t size = base_size + (i < remainder ? 1 : 0);
-        Serie part(serie.itemSize(), size);
+        Serie part(serie.itemSize(), size, serie.dimension());
         for (uint32_t j = 0; j < size; ++j) {
             part.set(j, serie.get<Array>(start + j));
         }
@@ -102,7 +102,7 @@ auto partition_n(uint32_t n, const Series &...series) {
         uint32_t start = 0;
         for (uint32_t i = 0; i < n; ++i) {
             uint32_t size = base_size + (i < remainder ? 1 : 0);
-            Serie part(s.itemSize(), size);
+            Serie part(s.itemSize(), size, s.dimension());
             for (uint32_t j = 0; j < size; ++j) {
                 part.set(j, s.get<Array>(start + j));
             }
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index c42d32b..f219dbc 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -46,7 +46,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(1, indices.size());
+    Serie result(1, indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<double>(indices[i]));
     }
@@ -66,7 +66,7 @@ auto __reject__(F &&cb, const Serie &serie)
         }
     }
 
-    Serie result(serie.itemSize(), indices.size());
+    Serie result(serie.itemSize(), indices.size(), serie.dimension());
     for (uint32_t i = 0; i < indices.size(); ++i) {
         result.template set(i, serie.template get<Array>(indices[i]));
     }
@@ -95,7 +95,7 @@ auto reject(F &&predicate, const Args &...args) {
 
         // Create filtered Series
         auto filter_one = [&indices](const Serie &s) {
-            Serie filtered(s.itemSize(), indices.size());
+            Serie filtered(s.itemSize(), indices.size(), s.dimension());
             for (uint32_t i = 0; i < indices.size(); ++i) {
                 filtered.set(i, s.template get<Array>(indices[i]));
             }
@@ -140,7 +140,7 @@ Series rejectAll(Pred &&predicate, const TheSeries &...series) {
 
     // Create filtered Series
     auto reject_one = [&indices](const Serie &s) {
-        Serie filtered(s.itemSize(), indices.size());
+        Serie filtered(s.itemSize(), indices.size(), s.dimension());
         for (uint32_t i = 0; i < indices.size(); ++i) {
             filtered.set(i, s.template get<Array>(indices[i]));
         }
diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index 04640de..b33d118 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -50,7 +50,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
                 return comp(Array{a}, Array{b});
             });
         }
-        return Serie(1, values);
+        return Serie(1, values, serie.dimension());
     } else {
         std::vector<Array> values;
         values.reserve(serie.count());
@@ -71,7 +71,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
         for (const auto &v : values) {
             flattened.insert(flattened.end(), v.begin(), v.end());
         }
-        return Serie(serie.itemSize(), flattened);
+        return Serie(serie.itemSize(), flattened, serie.dimension());
     }
 }
 
diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index e0e85b1..04a853f 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -133,8 +133,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         double eigen_val[2];
         double m[3];
 
-        Serie values(2, serie.count());
-        Serie vectors(4, serie.count());
+        Serie values(2, serie.count(), serie.dimension());
+        Serie vectors(4, serie.count(), serie.dimension());
 
         for (uint32_t i = 0; i < serie.count(); ++i) {
             Array mat = serie.get<Array>(i);
diff --git a/src/functional/math/mult.cxx b/src/functional/math/mult.cxx
index 04b1c92..83965bc 100644
--- a/src/functional/math/mult.cxx
+++ b/src/functional/math/mult.cxx
@@ -59,7 +59,7 @@ Serie mult(const Serie &serie, const Serie &multiplier) {
         for (uint32_t i = 0; i < a1.size(); ++i) {
             a3[i] = a1[i] * a2[i];
         }
-        return Serie(1, a3);
+        return Serie(1, a3, serie.dimension());
     }
 
     return serie.map(
-- 
2.43.0


From 466dcad5d25c14fc8167a1da773d63a95c57ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 35/46] fix: eigen functions reject dimensions other than 2 and
 3 instead of reading missing components

---
 src/functional/algebra/eigen.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functional/algebra/eigen.cxx b/src/functional/algebra/eigen.cxx
index 04a853f..99162db 100644
--- a/src/functional/algebra/eigen.cxx
+++ b/src/functional/algebra/eigen.cxx
@@ -33,7 +33,8 @@ Serie eigenValues(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 &&
+        (serie.dimension() != 3 || serie.itemSize() != 6)) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
                                  "Since dim=3, itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
@@ -72,7 +73,8 @@ Serie eigenVectors(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 &&
+        (serie.dimension() != 3 || serie.itemSize() != 6)) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
                                  "Since dim=3, itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
@@ -122,7 +124,8 @@ EigenSystem eigenSystem(const Serie &serie) {
         throw std::runtime_error(
             "Inconsistent serie dimension (should be 2 or 3)");
     }
-    if (serie.dimension() == 3 && serie.itemSize() != 6) {
+    if (serie.dimension() != 2 &&
+        (serie.dimension() != 3 || serie.itemSize() != 6)) {
         throw std::runtime_error("Inconsistent symmetric matrix dimension. "
                                  "Since dim=3, itemSize must be 6 (got " +
                                  std::to_string(serie.itemSize()) + ")");
-- 
2.43.0


From f18ec09c0be77fe57ecd4efe79e1c71b74f50862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 36/46] fix: filter, reject, findAll, reduce and check reject a
 callback for numbers on a Serie of vectors

---
 include/dataframe/Serie.h                        | 7 +++++++
 include/dataframe/functional/conditional/check.h | 5 +++++
 include/dataframe/functional/filter.h            | 5 +++++
 include/dataframe/functional/find.h              | 4 ++++
 include/dataframe/functional/reduce.h            | 4 ++++
 include/dataframe/functional/utils/reject.h      | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/include/dataframe/Serie.h b/include/dataframe/Serie.h
index 019d5df..b3ce93b 100644
--- a/include/dataframe/Serie.h
+++ b/include/dataframe/Serie.h
@@ -268,6 +268,13 @@ struct is_generic_callback<
 template <typename F>
 inline constexpr bool is_generic_callback_v = is_generic_callback<F>::value;
 
+/**
+ * @brief Whether F is a callback for numbers only (not a generic one)
+ */
+template <typename F>
+inline constexpr bool is_scalar_only_callback_v =
+    is_scalar_callback_v<F> && requires { &std::decay_t<F>::operator(); };
+
 // ----------------------------------------------
 
 template <typename F> struct callback_traits {
diff --git a/include/dataframe/functional/conditional/check.h b/include/dataframe/functional/conditional/check.h
index d8f87ab..062db3f 100644
--- a/include/dataframe/functional/conditional/check.h
+++ b/include/dataframe/functional/conditional/check.h
@@ -33,6 +33,11 @@ namespace cond {
 template <typename F> auto check(const Serie &serie, F &&cb) {
     if constexpr (details::has_scalar_input_v<F>) {
         // Input is scalar
+        if (details::is_scalar_only_callback_v<F> && serie.itemSize() > 1) {
+            throw std::invalid_argument(
+                "Cannot use scalar callback for Serie with itemSize > 1");
+        }
+
         Array results;
         results.reserve(serie.count());
         for (uint32_t i = 0; i < serie.count(); ++i) {
diff --git a/include/dataframe/functional/filter.h b/include/dataframe/functional/filter.h
index 9a660ea..743a229 100644
--- a/include/dataframe/functional/filter.h
+++ b/include/dataframe/functional/filter.h
@@ -93,6 +93,11 @@ auto __filter__(F &&cb, const Serie &serie)
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Filter predicate must return bool");
 
+    if (serie.itemSize() > 1) {
+        throw std::invalid_argument(
+            "Cannot use scalar callback for Serie with itemSize > 1");
+    }
+
     std::vector<uint32_t> indices;
     for (uint32_t i = 0; i < serie.count(); ++i) {
         if (cb(serie.template get<double>(i), i)) {
diff --git a/include/dataframe/functional/find.h b/include/dataframe/functional/find.h
index c4fa624..6565701 100644
--- a/include/dataframe/functional/find.h
+++ b/include/dataframe/functional/find.h
@@ -92,6 +92,10 @@ template <typename F> Serie findAll(F &&predicate, const Serie &serie) {
     std::vector<uint32_t> indices;
 
     if constexpr (details::is_scalar_callback_v<F>) {
+        if (serie.itemSize() > 1) {
+            throw std::invalid_argument(
+                "Cannot use scalar callback for Serie with itemSize > 1");
+        }
         for (uint32_t i = 0; i < serie.count(); ++i) {
             if (predicate(serie.template get<double>(i), i)) {
                 indices.push_back(i);
diff --git a/include/dataframe/functional/reduce.h b/include/dataframe/functional/reduce.h
index c1e75a7..6028f26 100644
--- a/include/dataframe/functional/reduce.h
+++ b/include/dataframe/functional/reduce.h
@@ -83,6 +83,10 @@ inline constexpr bool is_reduce_scalar_callback_v =
 template <typename F>
 auto reduce(F &&cb, const Serie &serie, double init)
     -> std::enable_if_t<detail::is_reduce_scalar_callback_v<F>, double> {
+    if (serie.itemSize() > 1) {
+        throw std::invalid_argument(
+            "Cannot use scalar callback for Serie with itemSize > 1");
+    }
     double result = init;
     for (uint32_t i = 0; i < serie.count(); ++i) {
         result = cb(result, serie.template get<double>(i), i);
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index f219dbc..732bb6c 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -39,6 +39,11 @@ auto __reject__(F &&cb, const Serie &serie)
     static_assert(details::callback_filter_traits<F>::returns_bool,
                   "Filter predicate must return bool");
 
+    if (serie.itemSize() > 1) {
+        throw std::invalid_argument(
+            "Cannot use scalar callback for Serie with itemSize > 1");
+    }
+
     std::vector<uint32_t> indices;
     for (uint32_t i = 0; i < serie.count(); ++i) {
         if (!cb(serie.template get<double>(i), i)) {
-- 
2.43.0


From f2a018cdab8389a38f68ec3819a94ee0ab4815e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 37/46] fix: approximatelyEqualsAll can be called with more
 than two Series

---
 include/dataframe/functional/math/equals.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/dataframe/functional/math/equals.h b/include/dataframe/functional/math/equals.h
index 00a883f..d0ca75a 100644
--- a/include/dataframe/functional/math/equals.h
+++ b/include/dataframe/functional/math/equals.h
@@ -86,6 +86,18 @@ bool equalsAll(const Serie &first, const Serie &second, const Series &...rest) {
     return equalsAll(second, rest...);
 }
 
+/**
+ * @brief The tolerance among the last arguments of approximatelyEqualsAll
+ */
+inline double toleranceOf() { return DEFAULT_EPSILON; }
+
+inline double toleranceOf(double epsilon) { return epsilon; }
+
+template <typename... Rest>
+double toleranceOf(const Serie &, const Rest &...rest) {
+    return toleranceOf(rest...);
+}
+
 /**
  * @brief Base case for approximatelyEqualsAll recursion
  */
@@ -96,14 +108,14 @@ inline bool approximatelyEqualsAll(const Serie &serie,
 
 /**
  * @brief Recursive case for approximatelyEqualsAll
+ * @param rest The other Series, optionally followed by the tolerance
  */
-template <typename... Series>
+template <typename... Rest>
 bool approximatelyEqualsAll(const Serie &first, const Serie &second,
-                            const Series &...rest,
-                            double epsilon = DEFAULT_EPSILON) {
-    if (!approximatelyEquals(first, second, epsilon))
+                            const Rest &...rest) {
+    if (!approximatelyEquals(first, second, toleranceOf(rest...)))
         return false;
-    return approximatelyEqualsAll(second, rest..., epsilon);
+    return approximatelyEqualsAll(second, rest...);
 }
 
 /**
-- 
2.43.0


From 780831b353bbccd57fd574b1af6be28da815243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 38/46] fix: Components resolves the integer names of a Serie
 with an empty name

---
 src/attributes/Components.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/Components.cxx b/src/attributes/Components.cxx
index 01f95cb..2a1108c 100644
--- a/src/attributes/Components.cxx
+++ b/src/attributes/Components.cxx
@@ -176,7 +176,7 @@ Serie Components::serie(const Dataframe &dataframe, uint32_t itemSize,
     }
 
     // Others: use integer (of one digit or more)
-    for (size_t n = 1; n < name.size(); ++n) {
+    for (size_t n = 1; n <= name.size(); ++n) {
         newName = name.substr(0, name.size() - n);
         serie = dataframe[newName];
         if (!serie.isValid() || serie.itemSize() == 1 || hasLetters(serie)) {
-- 
2.43.0


From 915d496b95e125da15ae37a703e892024838673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 39/46] fix: EigenValues and EigenVectors list no name for a
 Serie that is neither 2D nor 3D

---
 src/attributes/EigenValues.cxx  | 3 +++
 src/attributes/EigenVectors.cxx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/attributes/EigenValues.cxx b/src/attributes/EigenValues.cxx
index 5ee7c2d..6db45eb 100644
--- a/src/attributes/EigenValues.cxx
+++ b/src/attributes/EigenValues.cxx
@@ -35,6 +35,9 @@ namespace df
         if (name == "positions" || name == "indices") {
             return Strings();
         }
+        if (serie.dimension() != 2 && serie.dimension() != 3) {
+            return Strings();
+        }
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 1)) {
             return Strings();
         }
diff --git a/src/attributes/EigenVectors.cxx b/src/attributes/EigenVectors.cxx
index 770ce55..323e225 100644
--- a/src/attributes/EigenVectors.cxx
+++ b/src/attributes/EigenVectors.cxx
@@ -35,6 +35,9 @@ namespace df
         if (name == "positions" || name == "indices") {
             return Strings();
         }
+        if (serie.dimension() != 2 && serie.dimension() != 3) {
+            return Strings();
+        }
         if (serie.dimension() == 2 && (serie.itemSize() != 3 || itemSize != 2)) {
             return Strings();
         }
-- 
2.43.0


From 7980f757533557d557654d2aed5ad79467813111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 40/46] fix: reject.h and partition.h can be included after
 parallel_execute.h

---
 include/dataframe/functional/utils/partition.h | 2 +-
 include/dataframe/functional/utils/reject.h    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dataframe/functional/utils/partition.h b/include/dataframe/functional/utils/partition.h
index 21c7944..5861dae 100644
--- a/include/dataframe/functional/utils/partition.h
+++ b/include/dataframe/functional/utils/partition.h
@@ -40,7 +40,7 @@ namespace utils {
  * ```
  */
 template <typename F> auto partition(F &&predicate, const Serie &serie) {
-    if constexpr (details::is_scalar_callback_v<F>) {
+    if constexpr (df::details::is_scalar_callback_v<F>) {
         // Scalar partition
         if (serie.itemSize() != 1) {
             throw std::invalid_argument(
diff --git a/include/dataframe/functional/utils/reject.h b/include/dataframe/functional/utils/reject.h
index 732bb6c..8468efa 100644
--- a/include/dataframe/functional/utils/reject.h
+++ b/include/dataframe/functional/utils/reject.h
@@ -82,9 +82,9 @@ namespace utils {
 
 template <typename F, typename... Args>
 auto reject(F &&predicate, const Args &...args) {
-    if constexpr (details::is_multi_series_call<Args...>::value) {
+    if constexpr (df::details::is_multi_series_call<Args...>::value) {
         // Multiple Series case
-        static_assert(std::conjunction<details::is_serie<Args>...>::value,
+        static_assert(std::conjunction<df::details::is_serie<Args>...>::value,
                       "All arguments after predicate must be Series");
 
         // Check counts match
@@ -128,7 +128,7 @@ template <typename F> auto make_reject(F &&cb) {
 
 template <typename Pred, typename... TheSeries>
 Series rejectAll(Pred &&predicate, const TheSeries &...series) {
-    static_assert(details::all_are_series<TheSeries...>::value,
+    static_assert(df::details::all_are_series<TheSeries...>::value,
                   "All arguments after predicate must be Series");
     static_assert(sizeof...(series) >= 2,
                   "rejectAll requires at least 2 Series");
@@ -159,7 +159,7 @@ Series rejectAll(Pred &&predicate, const TheSeries &...series) {
  * @brief Creates a reusable filter function
  */
 template <typename F> auto make_rejectAll(F &&cb) {
-    static_assert(details::callback_filter_traits<F>::returns_bool,
+    static_assert(df::details::callback_filter_traits<F>::returns_bool,
                   "Reject predicate must return bool");
 
     return [cb = std::forward<F>(cb)](const auto &...series) {
-- 
2.43.0


From 49eb4bdd7cc26942f774b4ad064b344c03dfb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 41/46] fix: mapping an empty Serie keeps its shape

---
 include/dataframe/functional/map.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/dataframe/functional/map.h b/include/dataframe/functional/map.h
index 11bf7d3..0f3af0e 100644
--- a/include/dataframe/functional/map.h
+++ b/include/dataframe/functional/map.h
@@ -55,7 +55,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
         } else {
             // Scalar to vector
             if (serie.count() == 0) {
-                return Serie(0, 0);
+                return Serie(serie.itemSize(), 0, serie.dimension());
             }
             auto first_result = cb(serie.template get<double>(0), 0);
             size_t itemSize = first_result.size();
@@ -90,7 +90,7 @@ template <typename F> auto __map__(F &&cb, const Serie &serie) {
         } else {
             // Vector to vector
             if (serie.count() == 0) {
-                return Serie(0, 0);
+                return Serie(serie.itemSize(), 0, serie.dimension());
             }
             auto first_result = cb(serie.template get<Array>(0), 0);
             size_t itemSize = first_result.size();
@@ -125,16 +125,22 @@ auto map(F &&callback, const Args &...args) {
 
         auto counts = utils::countAndCheck(args...);
 
+        const Serie &first = std::get<0>(std::tie(args...));
+        uint dimension = first.dimension();
+        using ResultType =
+            decltype(callback(args.template get<Array>(0)..., 0));
+
         if (counts[0] == 0) {
-            return Serie(0, 0);
+            return Serie(std::is_arithmetic_v<ResultType> ? 1
+                                                          : first.itemSize(),
+                         0, dimension);
         }
 
         // Get first result to determine output Serie properties
         auto first_result = callback(args.template get<Array>(0)..., 0);
         Serie result;
-        uint dimension = std::get<0>(std::tie(args...)).dimension();
 
-        if constexpr (std::is_arithmetic_v<decltype(first_result)>) {
+        if constexpr (std::is_arithmetic_v<ResultType>) {
             // Callback returns scalar
             Array results;
             results.reserve(counts[0]);
-- 
2.43.0


From c00dd6daa7a69653a37467a19121fc287082dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 42/46] fix: Vector rejects operands of another length

---
 src/view/Vector.cxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/view/Vector.cxx b/src/view/Vector.cxx
index dbdeb05..1dff626 100644
--- a/src/view/Vector.cxx
+++ b/src/view/Vector.cxx
@@ -23,10 +23,19 @@
 #include <dataframe/view/Vector.h>
 #include <cmath>
 #include <numeric>
+#include <stdexcept>
 
 namespace df
 {
 
+    static void checkLength(const Vector &a, const Vector &b)
+    {
+        if (a.length() != b.length())
+        {
+            throw std::invalid_argument("vectors of different lengths");
+        }
+    }
+
     Vector::Vector()
     {
     }
@@ -81,6 +90,7 @@ namespace df
 
     Vector &Vector::mult(const Vector &s)
     {
+        checkLength(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x * s[id++]; };
@@ -90,6 +100,7 @@ namespace df
 
     Vector &Vector::add(const Vector &s)
     {
+        checkLength(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x + s[id++]; };
@@ -99,6 +110,7 @@ namespace df
 
     Vector &Vector::sub(const Vector &s)
     {
+        checkLength(*this, s);
         uint32_t id = 0;
         auto op = [s, id](double x) mutable
         { return x - s[id++]; };
@@ -108,6 +120,7 @@ namespace df
 
     double Vector::dot(const Vector &s) const
     {
+        checkLength(*this, s);
         double d = 0;
         for (uint32_t i = 0; i < v_.size(); ++i)
         {
-- 
2.43.0


From 2c27d80b494f45f3f20478bb8854ef670540ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 43/46] fix: symSquaredMatrix rejects values that fill no
 symmetric matrix

---
 src/view/Matrix.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/view/Matrix.cxx b/src/view/Matrix.cxx
index b1c6d14..156715d 100644
--- a/src/view/Matrix.cxx
+++ b/src/view/Matrix.cxx
@@ -167,7 +167,11 @@ namespace df
 
     Matrix symSquaredMatrix(const Array &v)
     {
-        auto m = (std::sqrt(8 * v.size() + 1) - 1) / 2;
+        uint m = (std::sqrt(8 * v.size() + 1) - 1) / 2;
+        if (m * (m + 1) / 2 != v.size())
+        {
+            throw std::invalid_argument("not the values of a symmetric matrix");
+        }
         Array w = createArray(m * m, 0);
         for (uint i = 0; i < m; ++i)
         {
-- 
2.43.0


From ec6fa482ce0e6aefb2147da1909d5d750670b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 44/46] fix: quantile rejects a fraction that is not a number

---
 src/functional/stats/quantile.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functional/stats/quantile.cxx b/src/functional/stats/quantile.cxx
index 0f6212c..51bbe98 100644
--- a/src/functional/stats/quantile.cxx
+++ b/src/functional/stats/quantile.cxx
@@ -42,7 +42,7 @@ double quantile(const Serie &s, double q) {
     if (s.count() == 0) {
         throw std::invalid_argument("quantile: the series is empty");
     }
-    if (q < 0 || q > 1) {
+    if (!(q >= 0 && q <= 1)) {
         throw std::invalid_argument("quantile must be in [0,1]");
     }
 
-- 
2.43.0


From 0d9746c027b01e7143131ae5d76928c37b218f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 45/46] fix: sort takes a generic comparator of vectors again

---
 include/dataframe/functional/utils/sort.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dataframe/functional/utils/sort.h b/include/dataframe/functional/utils/sort.h
index b33d118..d0681e4 100644
--- a/include/dataframe/functional/utils/sort.h
+++ b/include/dataframe/functional/utils/sort.h
@@ -43,12 +43,13 @@ Serie sort(const Serie &serie, Comparator &&comp) {
             values.push_back(serie.template get<double>(i));
         }
 
-        if constexpr (std::is_invocable_v<Comparator &, double, double>) {
-            std::sort(values.begin(), values.end(), comp);
-        } else {
+        if constexpr (std::is_invocable_v<Comparator &, const Array &,
+                                          const Array &>) {
             std::sort(values.begin(), values.end(), [&comp](double a, double b) {
                 return comp(Array{a}, Array{b});
             });
+        } else {
+            std::sort(values.begin(), values.end(), comp);
         }
         return Serie(1, values, serie.dimension());
     } else {
@@ -77,7 +78,7 @@ Serie sort(const Serie &serie, Comparator &&comp) {
 
 inline Serie sort(const Serie &serie) {
     if (serie.itemSize() == 1) {
-        return sort(serie, std::less<>{});
+        return sort(serie, std::less<double>{});
     }
     return sort(serie, [](const Array &a, const Array &b) {
         for (size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From db5b207d1ad182eee495110ed791e0aa9f11f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 46/46] fix: printing items without components reads nothing

---
 include/dataframe/functional/utils/print.h | 2 +-
 include/dataframe/inline/Serie.hxx         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dataframe/functional/utils/print.h b/include/dataframe/functional/utils/print.h
index 7779312..7df9a0f 100644
--- a/include/dataframe/functional/utils/print.h
+++ b/include/dataframe/functional/utils/print.h
@@ -35,7 +35,7 @@ inline void print(const Serie &serie) {
               << "  dimension: " << serie.dimension() << std::endl
               << "  values   : [";
 
-    if (serie.count() > 0) {
+    if (serie.size() > 0) {
         for (uint32_t i = 0; i < serie.count() - 1; ++i) {
             if (serie.itemSize() == 1) {
                 std::cout << serie.get<double>(i) << ", ";
diff --git a/include/dataframe/inline/Serie.hxx b/include/dataframe/inline/Serie.hxx
index 844eb5a..5b70d7c 100644
--- a/include/dataframe/inline/Serie.hxx
+++ b/include/dataframe/inline/Serie.hxx
@@ -76,7 +76,7 @@ inline std::ostream &operator<<(std::ostream &o, const Serie &s) {
     o << "  itemSize : " << s.itemSize() << std::endl;
     o << "  count    : " << s.count() << std::endl;
     o << "  dimension: " << s.dimension() << std::endl;
-    if (s.count() > 0) {
+    if (s.size() > 0) {
         o << "  values   : [";
         Array v = s.asArray();
         for (uint32_t i = 0; i < v.size() - 1; ++i) {
-- 
2.43.0

