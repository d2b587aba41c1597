From 5d7d4806d65471ce08bd82746a6b86dd8531b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 01/73] fix: BaseStore::moveit has to exchange the allocated
 flag too

A default constructed Vec that was assigned to twice threw
'try to delete nullptr', as the temporary kept allocated == true
together with a nullptr.
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From ef6b8c25f9e3a9aa841b6e896d18ca948cc6f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 02/73] fix: transfer the capacity when a Vec is constructed
 from an r value

The buffer was taken over without its capacity, thus a copy of the
constructed Vec read and wrote beyond a zero sized allocation.
---
 include/etr_bits/Vector/Constructors.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..66f73e8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -199,13 +199,7 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
   } else {
-    std::size_t temp = other_vec.size();
-    d.allocated = other_vec.d.allocated;
-    other_vec.d.sz = this->size();
-    d.sz = temp;
-    T *tempP = other_vec.d.p;
-    other_vec.d.p = d.p;
-    d.p = tempP;
+    d.moveit(other_vec.d);
     if (other_vec.d.im()) {
       d.setMatrix(true, other_vec.nr(), other_vec.nc());
     }
-- 
2.43.0


From f4af3c0ed712122a840425ed328df03c837b7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 03/73] fix: copies of a BaseStore have to keep size and
 dimensions

The copy and move constructor dropped the matrix parameters. Assigning a
shorter store threw and did not adapt size and dimensions.
---
 include/etr_bits/Core/BaseStore.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..a3907e8 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,17 +34,18 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
-      std::copy(other.p, other.p + capacity, p);
+      std::copy(other.p, other.p + sz, p);
     } else {
       p = nullptr;
     }
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
@@ -137,10 +138,13 @@ template <typename T, typename BaseTrait> struct BaseStore {
       } else {
         resize(other.size());
       }
+    } else {
+      this->sz = other.size();
     }
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
+    mp.setMatrix(other.mp);
     return *this;
   }
 
-- 
2.43.0


From 53282fce9698c9cc76aa797fa18cda8fdc94b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 04/73] fix: an object to which a vector or scalar is assigned
 is no matrix anymore

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..1db4a65 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -19,9 +19,13 @@ Vec &operator=(const TD inp) {
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
       d[0] = inp;
+      d.setMatrix(false, 0, 0);
     } else {
       d.resize(1);
       d[0] = inp;
+      if constexpr (!isVariableType::value) {
+        d.setMatrix(false, 0, 0);
+      }
     }
     return *this;
   } else {
@@ -32,9 +36,13 @@ Vec &operator=(const TD inp) {
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
       d[0] = static_cast<T>(inp);
+      d.setMatrix(false, 0, 0);
     } else {
       d.resize(1);
       d[0] = static_cast<T>(inp);
+      if constexpr (!isVariableType::value) {
+        d.setMatrix(false, 0, 0);
+      }
     }
     return *this;
   }
@@ -105,6 +113,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -230,10 +240,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From 8ac46363cc0c209dd1429797cca96a3786841378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 05/73] fix: the result of an unary calculation of a matrix is
 a matrix

---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..254aede 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -14,7 +14,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   using typeTraitObj = I;
   MatrixParameter mp;
   bool im() const {
-    if constexpr (std::is_arithmetic_v<I>) {
+    if constexpr (!std::is_arithmetic_v<I>) {
       return obj.im();
     } else {
       return false;
-- 
2.43.0


From dd77f6f0cba494a521872dc287d649c5bee2c6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 06/73] fix: the mathematical functions can be called with
 scalars

They called the undeclared functions Sinus, Cosinus etc.
---
 include/etr_bits/UnaryCalculations.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 254aede..3c6c07a 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -107,7 +107,7 @@ template <typename T> auto sinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinus(const T &obj) -> BaseType {
-  return Sinus(obj);
+  return SinusTrait::f(obj);
 }
 
 template <typename T> auto sinush(const T &obj) {
@@ -125,7 +125,7 @@ template <typename T> auto sinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinush(const T &obj) -> BaseType {
-  return SinusH(obj);
+  return SinusHTrait::f(obj);
 }
 
 template <typename T> auto asinus(const T &obj) {
@@ -143,7 +143,7 @@ template <typename T> auto asinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto asinus(const T &obj) -> BaseType {
-  return ASinus(obj);
+  return ASinusTrait::f(obj);
 }
 
 template <typename T> auto cosinus(const T &obj) {
@@ -161,7 +161,7 @@ template <typename T> auto cosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinus(const T &obj) -> BaseType {
-  return Cosinus(obj);
+  return CosinusTrait::f(obj);
 }
 
 template <typename T> auto cosinush(const T &obj) {
@@ -179,7 +179,7 @@ template <typename T> auto cosinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinush(const T &obj) -> BaseType {
-  return CosinusH(obj);
+  return CosinusHTrait::f(obj);
 }
 
 template <typename T> auto acosinus(const T &obj) {
@@ -197,7 +197,7 @@ template <typename T> auto acosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto acosinus(const T &obj) -> BaseType {
-  return ACosinus(obj);
+  return ACosinusTrait::f(obj);
 }
 
 template <typename T> auto tangens(const T &obj) {
@@ -215,7 +215,7 @@ template <typename T> auto tangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangens(const T &obj) -> BaseType {
-  return Tangens(obj);
+  return TangensTrait::f(obj);
 }
 
 template <typename T> auto tangensh(const T &obj) {
@@ -233,7 +233,7 @@ template <typename T> auto tangensh(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangensh(const T &obj) -> BaseType {
-  return TangensH(obj);
+  return TangensHTrait::f(obj);
 }
 
 template <typename T> auto atangens(const T &obj) {
@@ -251,7 +251,7 @@ template <typename T> auto atangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto atangens(const T &obj) -> BaseType {
-  return ATangens(obj);
+  return ATangensTrait::f(obj);
 }
 
 template <typename T> auto ln(const T &obj) {
@@ -288,7 +288,7 @@ template <typename T> auto sqroot(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sqroot(const T &obj) -> BaseType {
-  return SquareRoot(obj);
+  return SquareRootTrait::f(obj);
 }
 
 template <typename T>
@@ -307,7 +307,7 @@ auto exp(const T &obj) { // issue: updae this in the documentation
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto exp(const T &obj) -> BaseType {
-  return Exp(obj);
+  return ExpTrait::f(obj);
 }
 
 } // namespace etr
-- 
2.43.0


From 25e7545385bb954b9cd3405ceb90bfbdd17ec3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 07/73] fix: a subset can contain more elements than its
 variable

The positions were taken modulo the size of the variable instead of the
number of indices, thus the surplus indices were never used.
---
 include/etr_bits/Core/SubsetClass.hpp          | 6 +++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 1db4a65..5ddee66 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -105,8 +105,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 78cd42452b9cd157c2ed2c8e72453ba05ca785cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 08/73] fix: matrix subsetting with two doubles ignored the
 column

Missing parentheses around the column index.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..e16c68b 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -234,7 +234,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
-- 
2.43.0


From ac02ff817a769067f07962585c43af80dd78d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 09/73] fix: truncate a double column index used with double
 rows

m(c(1.0, 2.0), 2.7) selected elements at a fractional position.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index e16c68b..d8f48b2 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -437,7 +437,8 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] =
+            (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
       }
       return;
     } else {
-- 
2.43.0


From eecda5c88530640a095375f3b0e4d2df36013726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 10/73] fix: set the dimensions if logical rows and numeric
 columns are selected

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index d8f48b2..83edcf8 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -522,6 +522,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From 1106d61d959b87ab017517dc8a7a1cada21a6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 11/73] fix: recycle logical matrix indices and refuse too long
 ones

This was only done when the other index is a number.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 83edcf8..dbd694f 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -81,18 +81,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      ass(idxR->size() <= vec.nc(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nc(); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       ass(counter > 0, "subset has to have at least one element");
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0)
           counter2++;
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -293,17 +295,19 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i])
+      ass(idxL->size() <= vec.nr(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nr(); i++) {
+        if ((*idxL)[i % idxL->size()])
           counter++;
       }
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0)
           counter2++;
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -452,36 +456,38 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeR, bool> && is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i] == true) {
+      ass(idxL->size() <= vec.nr() && idxR->size() <= vec.nc(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nr(); i++) {
+        if ((*idxL)[i % idxL->size()] == true) {
           counter++;
         }
       }
       BaseStore<int> positions_rows(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions_rows[counter] = i - counter2 * vec.nr();
           counter++;
         }
       }
       counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      for (std::size_t i = 0; i < vec.nc(); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       BaseStore<int> positions_cols(counter);
       counter = 0;
       counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions_cols[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -499,17 +505,19 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, bool> &&
                          (is<DataTypeC, int> || is<DataTypeC, double>)) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++)
-        if ((*idxL)[i])
+      ass(idxL->size() <= vec.nr(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nr(); i++)
+        if ((*idxL)[i % idxL->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -527,17 +535,19 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++)
-        if ((*idxR)[i])
+      ass(idxR->size() <= vec.nc(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nc(); i++)
+        if ((*idxR)[i % idxR->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
-- 
2.43.0


From 7f9e8130e7dbe10fda83e490074b1b9d50a93579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 12/73] fix: a row beyond the matrix must not alias another
 column

m(3, 1) or at(m, 0, 2) of a matrix with two rows silently accessed
elements of another column.
---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 63 +++++++++----------
 include/etr_bits/Subsetting/at.hpp            | 16 +++++
 2 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index dbd694f..ddd4493 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,6 +35,15 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// NOTE: position (starting at 0) of a row (starting at 1). A row beyond the
+// matrix must not alias an element of another column. Thus, the position is
+// chosen in a way that the access fails.
+template <typename T>
+inline std::size_t rowPosition(const T &vec, std::size_t row) {
+  row--;
+  return (row < vec.nr()) ? row : std::numeric_limits<std::size_t>::max() / 2;
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
@@ -144,32 +153,30 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   }
   // NOTE: int + X
   else if constexpr (isd<R, int, C, bool>) {
-    std::size_t indexRow = static_cast<std::size_t>(*idxL);
+    std::size_t indexRow = rowPosition(vec, static_cast<std::size_t>(*idxL));
     if (!(*idxR)) {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
       return;
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * vec.nr() + (indexRow - 1);
+      ind[j] = j * vec.nr() + indexRow;
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, int, C, int>) {
-    std::size_t indexRow = static_cast<std::size_t>(*idxL);
-    indexRow--;
+    std::size_t indexRow = rowPosition(vec, static_cast<std::size_t>(*idxL));
     ind.resize(1);
     ind[0] = (*idxR - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (isd<R, int, C, double>) {
-    std::size_t indexRow = static_cast<std::size_t>(*idxL);
-    indexRow--;
+    std::size_t indexRow = rowPosition(vec, static_cast<std::size_t>(*idxL));
     ind.resize(1);
     ind[0] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, int> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeC, bool>) {
-      std::size_t indexRow = static_cast<std::size_t>(*idxL);
+      std::size_t indexRow = rowPosition(vec, static_cast<std::size_t>(*idxL));
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
@@ -189,23 +196,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         }
       }
       ind.resize(positions.size());
-      indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
         ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeC, int>) {
-      std::size_t indexRow = static_cast<std::size_t>(*idxL);
+      std::size_t indexRow = rowPosition(vec, static_cast<std::size_t>(*idxL));
       ind.resize(idxR->size());
-      indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
         ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
-      std::size_t indexRow = static_cast<std::size_t>(*idxL);
+      std::size_t indexRow = rowPosition(vec, static_cast<std::size_t>(*idxL));
       ind.resize(idxR->size());
-      indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
         ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
       mp.setMatrix(false, 0, 0);
@@ -216,32 +220,30 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   }
   // NOTE: double + x
   else if constexpr (isd<R, double, C, bool>) {
-    std::size_t indexRow = convertSize(*idxL);
+    std::size_t indexRow = rowPosition(vec, convertSize(*idxL));
     if (!(*idxR)) {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
       return;
     }
     ind.resize(vec.nc());
     for (std::size_t j = 0; j < vec.nc(); j++)
-      ind[j] = j * convertSize(vec.nr()) + (indexRow - 1);
+      ind[j] = j * convertSize(vec.nr()) + indexRow;
     mp.setMatrix(false, 0, 0);
     return;
   } else if constexpr (isd<R, double, C, int>) {
-    std::size_t indexRow = convertSize(*idxL);
-    indexRow--;
+    std::size_t indexRow = rowPosition(vec, convertSize(*idxL));
     ind.resize(1);
     ind[0] = (*idxR - 1) * convertSize(vec.nr()) + indexRow;
     return;
   } else if constexpr (isd<R, double, C, double>) {
-    std::size_t indexRow = convertSize(*idxL);
-    indexRow--;
+    std::size_t indexRow = rowPosition(vec, convertSize(*idxL));
     ind.resize(1);
     ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeC, bool>) {
-      std::size_t indexRow = convertSize(*idxL);
+      std::size_t indexRow = rowPosition(vec, convertSize(*idxL));
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
@@ -261,23 +263,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         }
       }
       ind.resize(positions.size());
-      indexRow--;
       for (std::size_t j = 0; j < positions.size(); j++) {
         ind[j] = (d2i(positions[j])) * vec.nr() + indexRow;
       }
       mp.setMatrix(false, 0, 0);
       return;
     } else if constexpr (is<DataTypeC, int>) {
-      std::size_t indexRow = convertSize(*idxL);
+      std::size_t indexRow = rowPosition(vec, convertSize(*idxL));
       ind.resize(idxR->size());
-      indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
         ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
-      std::size_t indexRow = convertSize(*idxL);
+      std::size_t indexRow = rowPosition(vec, convertSize(*idxL));
       ind.resize(idxR->size());
-      indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
         ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
       mp.setMatrix(false, 0, 0);
@@ -332,7 +331,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + ((*idxL)[j] - 1);
+          ind[counter] = i * vec.nr() + rowPosition(vec, (*idxL)[j]);
           counter++;
         }
       }
@@ -347,7 +346,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + (d2i((*idxL)[j]) - 1);
+          ind[counter] = i * vec.nr() + rowPosition(vec, d2i((*idxL)[j]));
           counter++;
         }
       }
@@ -389,13 +388,13 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = ((*idxR) - 1) * vec.nr() + rowPosition(vec, (*idxL)[j]);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = ((*idxR) - 1) * vec.nr() + rowPosition(vec, d2i((*idxL)[j]));
       }
       return;
     } else {
@@ -435,14 +434,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + rowPosition(vec, (*idxL)[j]);
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
         ind[j] =
-            (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+            (convertSize(*idxR) - 1) * vec.nr() + rowPosition(vec, d2i((*idxL)[j]));
       }
       return;
     } else {
@@ -556,7 +555,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < idxL->size(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + d2i((*idxL)[i]) - 1;
+          ind[counter] = (positions[j]) * vec.nr() + rowPosition(vec, d2i((*idxL)[i]));
           counter++;
         }
       }
@@ -569,7 +568,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       for (std::size_t i = 0; i < idxR->size(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
           ind[counter] =
-              (d2i((*idxR)[i]) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+              (d2i((*idxR)[i]) - 1) * vec.nr() + rowPosition(vec, d2i((*idxL)[j]));
           counter++;
         }
       }
diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..1beb912 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -59,6 +59,8 @@ inline auto &at(T &inp, R r, C c) {
     r--;
     c--;
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r];
@@ -67,6 +69,8 @@ inline auto &at(T &inp, R r, C c) {
     r_--;
     c--;
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r_) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c * inp.nr() + r_];
@@ -75,6 +79,8 @@ inline auto &at(T &inp, R r, C c) {
     int c_ = d2i(c);
     c_--;
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r];
@@ -85,6 +91,8 @@ inline auto &at(T &inp, R r, C c) {
     c_--;
     ass((c_ * inp.nr() + r_) >= 0,
         "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r_) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp.d.p[c_ * inp.nr() + r_];
@@ -101,6 +109,8 @@ inline auto at(const T &inp, R r, C c) {
     r--;
     c--;
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r];
@@ -109,6 +119,8 @@ inline auto at(const T &inp, R r, C c) {
     r_--;
     c--;
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r_) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c * inp.nr() + r_];
@@ -117,6 +129,8 @@ inline auto at(const T &inp, R r, C c) {
     int c_ = d2i(c);
     c_--;
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r];
@@ -127,6 +141,8 @@ inline auto at(const T &inp, R r, C c) {
     c_--;
     ass((c_ * inp.nr() + r_) >= 0,
         "Error: out of boundaries --> value below 1");
+    ass(static_cast<std::size_t>(r_) < inp.nr(),
+        "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
     return inp[c_ * inp.nr() + r_];
-- 
2.43.0


From 1b2d2d48c81c035b0f396d2052549cfcb9a9499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 13/73] fix: refuse an index beyond the size of a subsetted
 calculation

Calculations and subsets recycle their elements. Thus, subset(a + 1, 5)
of a vector with three elements returned the second element.
---
 include/etr_bits/Core/SubsetClass.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 3e0b8c8..5120735 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -66,6 +66,8 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
+    ass(ind[pos % ind.size()] < p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
     return this->p->operator[](ind[pos % ind.size()]);
   }
 
@@ -129,6 +131,8 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
+    ass(ind[pos % ind.size()] < p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
     return this->p->operator[](ind[pos % ind.size()]);
   }
 
-- 
2.43.0


From a3734abb70b7e94f542d995d9b7f3cb6363c8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 14/73] fix: back() has to return the last element

It read one element beyond the end. cmr uses it in the last interval.
---
 include/etr_bits/Core/BaseStore.hpp     | 2 +-
 include/etr_bits/Core/Borrow.hpp        | 2 +-
 include/etr_bits/Core/BorrowSEXP.hpp    | 2 +-
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index a3907e8..7e7aa06 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -313,7 +313,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..eb909e0 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -154,7 +154,7 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 4023ba6..7aa3d8c 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -213,7 +213,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
 
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) {
     if (new_size <= sz) {
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..e7b6b42 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,7 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const { return d.p[this->size() - 1]; }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From cf2f8cad25197aab1f669a7d701d90d9f96e1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 15/73] fix: linear interpolation

li read one element beyond the end of its input and used an
uninitialized slope.
---
 include/etr_bits/Interpolation.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..0046187 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -24,8 +24,8 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
@@ -40,6 +40,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
@@ -51,8 +52,8 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double ret;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
@@ -67,6 +68,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
-- 
2.43.0


From 971d9311b9b043733b0ac946f5ee7458663395fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 16/73] fix: li can be called with a scalar

The branch for scalars could not be instantiated.
---
 include/etr_bits/Interpolation.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 0046187..b451389 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -9,10 +9,9 @@ namespace etr {
 
 template <typename A, typename B, typename C>
 inline double li(const A &t_, const B &timeVec, const C &parVec) {
-  using typeTraitA = std::remove_reference<decltype(t_)>::type::TypeTrait;
   using typeTraitB = std::remove_reference<decltype(timeVec)>::type::TypeTrait;
   using typeTraitC = std::remove_reference<decltype(parVec)>::type::TypeTrait;
-  using isVecA = std::is_same<typeTraitA, VectorTrait>;
+  using isVecA = std::bool_constant<IsVec<A>>;
   using isVecB = std::is_same<typeTraitB, VectorTrait>;
   using isVecC = std::is_same<typeTraitC, VectorTrait>;
 
-- 
2.43.0


From e09510b084058f3d7b7db401dcbd5b80f5b65b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 17/73] fix: colon must not count beyond its end

Counting past the end overflowed for int. For double the accumulated
rounding error could produce one element more than allocated.
---
 include/etr_bits/Allocation/Colon.hpp | 28 ++++++++-------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..eb75ade 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -25,21 +25,15 @@ template <typename T> inline auto colonInternal(T start, T end) {
   if (start < end) {
     std::size_t length = convertSize(end - start + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
+    for (std::size_t counter = 0; counter < length; counter++) {
+      ret[counter] = start + static_cast<T>(counter);
     }
     return ret;
   } else {
     std::size_t length = convertSize(start - end + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+    for (std::size_t counter = 0; counter < length; counter++) {
+      ret[counter] = start - static_cast<T>(counter);
     }
     return ret;
   }
@@ -252,22 +246,16 @@ inline auto colonInternalDerivs(AV &av, T start, T end) {
     std::size_t length = convertSize(end - start + 1);
     av.varConstants[Idx].resize(convertSize(length));
     Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
+    for (std::size_t counter = 0; counter < length; counter++) {
+      av.varConstants[Idx][counter] = start + static_cast<T>(counter);
     }
     return ret;
   }
   std::size_t length = convertSize(start - end + 1);
   av.varConstants[Idx].resize(convertSize(length));
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t counter = 0; counter < length; counter++) {
+    av.varConstants[Idx][counter] = start - static_cast<T>(counter);
   }
   return ret;
 }
-- 
2.43.0


From 0f108f913200b26728f77ae314ad63926bec57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 18/73] fix: a comparison is a logical vector

A comparison had the type of its operands. Therefore, a(a > 2.0) used the
values 0 and 1 as positions instead of selecting elements.
---
 include/etr_bits/BinaryCalculations.hpp | 178 ++++++++++++------------
 1 file changed, 90 insertions(+), 88 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..845acb9 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -270,21 +270,23 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, EqualTrait>>(
-        BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, EqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, EqualTrait,
+                        ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), EqualTrait>>(
-        BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), EqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), EqualTrait,
+                        ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -294,23 +296,23 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
-        BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, UnEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, UnEqualTrait,
+                        ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
-        BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), UnEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), UnEqualTrait,
+                        ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d),
-
-                        UnEqualTrait>(l.d, r.d));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -320,23 +322,23 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerTrait>>(
-        BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, LargerTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, LargerTrait,
+                        ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerTrait>>(
-        BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), LargerTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), LargerTrait,
+                        ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d),
-
-                        LargerTrait>(l.d, r.d));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -346,23 +348,23 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
-        BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, LargerEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, LargerEqualTrait,
+                        ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
-        BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), LargerEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), LargerEqualTrait,
+                        ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d),
-
-                        LargerEqualTrait>(l.d, r.d));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -372,23 +374,23 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerTrait>>(
-        BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, SmallerTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, SmallerTrait,
+                        ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerTrait>>(
-        BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), SmallerTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), SmallerTrait,
+                        ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d),
-
-                        SmallerTrait>(l.d, r.d));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
@@ -398,23 +400,23 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
-        BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), R, SmallerEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), R, SmallerEqualTrait,
+                        ComparisonTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
-        BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
+    return Vec<bool,
+               BinaryOperation<L, decltype(r.d), SmallerEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<L, decltype(r.d), SmallerEqualTrait,
+                        ComparisonTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
-        BinaryOperation<decltype(l.d), decltype(r.d),
-
-                        SmallerEqualTrait>(l.d, r.d));
+    return Vec<bool,
+               BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait,
+                               ComparisonTrait>>(
+        BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait,
+                        ComparisonTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
   }
-- 
2.43.0


From 4a3063064230439572fc7fd5843e5254351cff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 19/73] fix: division, power and mathematical functions of
 integers are numeric

The result had the type of the operands. Thus 2 ^ -1 was 0 and
rep(a / 2, 2) truncated all elements if a contains integers.
---
 include/etr_bits/BinaryCalculations.hpp | 28 +++++++------------------
 include/etr_bits/Core/Traits.hpp        |  2 +-
 include/etr_bits/UnaryCalculations.hpp  | 24 ++++++++++-----------
 3 files changed, 21 insertions(+), 33 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 845acb9..c005afd 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -222,20 +222,14 @@ template <typename L, typename R> auto operator/(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, DivideTrait>>(
+    return Vec<BaseType, BinaryOperation<decltype(l.d), R, DivideTrait>>(
         BinaryOperation<decltype(l.d), R, DivideTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), DivideTrait>>(
+    return Vec<BaseType, BinaryOperation<L, decltype(r.d), DivideTrait>>(
         BinaryOperation<L, decltype(r.d), DivideTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>>(
+    return Vec<BaseType,
+               BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
@@ -246,20 +240,14 @@ template <typename L, typename R> auto operator^(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, PowTrait>>(
+    return Vec<BaseType, BinaryOperation<decltype(l.d), R, PowTrait>>(
         BinaryOperation<decltype(l.d), R, PowTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), PowTrait>>(
+    return Vec<BaseType, BinaryOperation<L, decltype(r.d), PowTrait>>(
         BinaryOperation<L, decltype(r.d), PowTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), PowTrait>>(
+    return Vec<BaseType,
+               BinaryOperation<decltype(l.d), decltype(r.d), PowTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), PowTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..daa9729 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -270,7 +270,7 @@ struct DivideTrait {
 };
 struct PowTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline BaseType f(L l, R r) {
     return std::pow(l, r);
   }
 };
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3c6c07a..1b3be31 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -95,7 +95,7 @@ template <typename T> auto operator-(const T &obj) {
 template <typename T> auto sinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -113,7 +113,7 @@ auto sinus(const T &obj) -> BaseType {
 template <typename T> auto sinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -131,7 +131,7 @@ auto sinush(const T &obj) -> BaseType {
 template <typename T> auto asinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ASinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ASinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -149,7 +149,7 @@ auto asinus(const T &obj) -> BaseType {
 template <typename T> auto cosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -167,7 +167,7 @@ auto cosinus(const T &obj) -> BaseType {
 template <typename T> auto cosinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -185,7 +185,7 @@ auto cosinush(const T &obj) -> BaseType {
 template <typename T> auto acosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ACosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ACosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -203,7 +203,7 @@ auto acosinus(const T &obj) -> BaseType {
 template <typename T> auto tangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -221,7 +221,7 @@ auto tangens(const T &obj) -> BaseType {
 template <typename T> auto tangensh(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -239,7 +239,7 @@ auto tangensh(const T &obj) -> BaseType {
 template <typename T> auto atangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ATangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ATangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -257,7 +257,7 @@ auto atangens(const T &obj) -> BaseType {
 template <typename T> auto ln(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), LogTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), LogTrait>(obj.d));
   } else if constexpr (isDouble) { // issue: this should be never be used. Also
@@ -276,7 +276,7 @@ auto ln(const T &obj) -> BaseType {
 template <typename T> auto sqroot(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SquareRootTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SquareRootTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -295,7 +295,7 @@ template <typename T>
 auto exp(const T &obj) { // issue: updae this in the documentation
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ExpTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ExpTrait>(obj.d));
   } else if constexpr (isDouble) {
-- 
2.43.0


From 96e8680d53174616c69b762621a60ed921a98893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 20/73] fix: calculations with logical values have to be
 integers

TRUE + TRUE was 1 as the result had been a logical value too.
---
 include/etr_bits/BinaryCalculations.hpp | 30 ++++++++++---------------
 include/etr_bits/Core/Traits.hpp        |  6 ++---
 include/etr_bits/Core/Utils.hpp         |  4 ++++
 include/etr_bits/UnaryCalculations.hpp  |  2 +-
 4 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index c005afd..eb597a6 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -150,19 +150,17 @@ template <typename L, typename R> auto operator+(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<arithmeticType<typename ExtractDataType<L>::RetType, R>,
                BinaryOperation<decltype(l.d), R, PlusTrait>>(
         BinaryOperation<decltype(l.d), R, PlusTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<arithmeticType<L, typename ExtractDataType<R>::RetType>,
                BinaryOperation<L, decltype(r.d), PlusTrait>>(
         BinaryOperation<L, decltype(r.d), PlusTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+        arithmeticType<typename ExtractDataType<L>::RetType,
+                       typename ExtractDataType<R>::RetType>,
         BinaryOperation<decltype(l.d), decltype(r.d), PlusTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), PlusTrait>(l.d, r.d));
   } else {
@@ -174,19 +172,17 @@ template <typename L, typename R> auto operator-(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<arithmeticType<typename ExtractDataType<L>::RetType, R>,
                BinaryOperation<decltype(l.d), R, MinusTrait>>(
         BinaryOperation<decltype(l.d), R, MinusTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<arithmeticType<L, typename ExtractDataType<R>::RetType>,
                BinaryOperation<L, decltype(r.d), MinusTrait>>(
         BinaryOperation<L, decltype(r.d), MinusTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+        arithmeticType<typename ExtractDataType<L>::RetType,
+                       typename ExtractDataType<R>::RetType>,
         BinaryOperation<decltype(l.d), decltype(r.d), MinusTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), MinusTrait>(l.d, r.d));
   } else {
@@ -198,19 +194,17 @@ template <typename L, typename R> auto operator*(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
+    return Vec<arithmeticType<typename ExtractDataType<L>::RetType, R>,
                BinaryOperation<decltype(l.d), R, TimesTrait>>(
         BinaryOperation<decltype(l.d), R, TimesTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
+    return Vec<arithmeticType<L, typename ExtractDataType<R>::RetType>,
                BinaryOperation<L, decltype(r.d), TimesTrait>>(
         BinaryOperation<L, decltype(r.d), TimesTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+        arithmeticType<typename ExtractDataType<L>::RetType,
+                       typename ExtractDataType<R>::RetType>,
         BinaryOperation<decltype(l.d), decltype(r.d), TimesTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), TimesTrait>(l.d, r.d));
   } else {
diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index daa9729..186f026 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -234,20 +234,20 @@ struct SinusDerivTrait {
 
 struct PlusTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l + r;
   }
 };
 
 struct MinusTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l - r;
   }
 };
 struct TimesTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l * r;
   }
 };
diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 5161f43..fd2bc1c 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -13,6 +13,10 @@ typename std::common_type<T1, T2>::type CommonType(T1 arg1, T2 arg2) {
   return arg1 + arg2; // Fake function just for getting the common type
 }
 
+// NOTE: the calculation with two logical values is an integer
+template <typename L, typename R>
+using arithmeticType = decltype(std::declval<L>() + std::declval<R>());
+
 template <typename T> inline bool isDoubleInt(const T d) {
   int i = d;
   if ((d - i) > 0) {
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 1b3be31..043a624 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -82,7 +82,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
 template <typename T> auto operator-(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<decltype(-std::declval<typename ExtractDataType<T>::RetType>()),
                UnaryOperation<decltype(obj.d), MinusUnaryTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), MinusUnaryTrait>(obj.d));
   } else if constexpr (isDouble) {
-- 
2.43.0


From 144069197212efacb4401b922cf6ca66c9eec877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 21/73] fix: iterate over the selected elements of a subset

begin() and end() of a subset returned the first elements of the variable.
---
 include/etr_bits/Core/Utils.hpp         | 13 +++++++++++++
 include/etr_bits/Vector/VectorClass.hpp |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index fd2bc1c..32f7711 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -65,6 +65,19 @@ inline void ass(bool inp, std::string message) {
 #endif
 }
 
+// NOTE: iterates over the elements which are selected by a subset
+template <typename D> struct ItSubset {
+  const D *d;
+  std::size_t idx;
+  auto &operator*() {
+    ass(d->ind[idx] < d->p->size(),
+        "Error: out of boundaries --> value beyond size of vector");
+    return d->p->p[d->ind[idx]];
+  }
+  bool operator!=(const ItSubset &rhs) { return idx != rhs.idx; }
+  void operator++() { ++idx; }
+};
+
 inline void warn(bool inp, std::string message) {
 #ifdef STANDALONE_ETR
   if (!inp)
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index e7b6b42..8bed5d1 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,14 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return ItSubset<R>{&d, 0};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return ItSubset<R>{&d, this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
-- 
2.43.0


From db0a6527bf6296447e1714dd2e885f6483212f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 22/73] fix: infinite values are equal and integers do not
 overflow in == and !=

---
 include/etr_bits/Core/Traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 186f026..6e5a940 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -279,7 +279,7 @@ struct EqualTrait {
   static inline bool
   f(L a,
     R b) { // issue: add this to documentationion for package authors
-    if (fabs(a - b) < 1E-3) {
+    if (a == b || fabs(static_cast<BaseType>(a) - b) < 1E-3) {
       return true;
     } else {
       return false;
@@ -329,7 +329,7 @@ struct LargerEqualTrait {
 struct UnEqualTrait {
   template <typename L = BaseType, typename R = BaseType>
   static bool f(L a, R b) {
-    if (fabs(a - b) > 1E-3) {
+    if (fabs(static_cast<BaseType>(a) - b) > 1E-3) {
       return true;
     } else {
       return false;
-- 
2.43.0


From fb55bd700188803479a1f5e63cfc31ab0657c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 23/73] fix: quotient rule divides by the squared divisor

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 6e5a940..e59a51c 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From 36cb13a1be7416ebcb3f4131d0ed7520e25f9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 24/73] fix: apply the chain rule in the derivative of unary
 functions

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..54f30aa 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,7 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From 19f7b491241e1f78de1d7ca4f362a6a7cbd28d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 25/73] fix: a variable can be part of the expression which is
 assigned to it

The derivatives of the variable were resized and overwritten during the
calculation of the new derivatives.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 5ddee66..4f89050 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -208,9 +208,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
-      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
+      // NOTE: the variable itself can be part of the expression
+      Buffer<T> tempDeriv(otherVec.size());
       for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
+        tempDeriv[i] = res.getDeriv(d.AllVarsRef, i);
+      }
+      d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
       d.resize(otherVec.size());
-- 
2.43.0


From bc865f1b483da172009367e47e4ab0c694c61bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 26/73] fix: recycle the derivatives in the same way as the
 values

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 54f30aa..9716d9d 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -23,12 +23,12 @@ struct QuarternyType {
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)), RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
 
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx),
-                      LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    return Op::fDeriv(LDeriv::getVal(av, idx % LDeriv::getSize(av)), RDeriv::getVal(av, idx % RDeriv::getSize(av)),
+                      LDeriv::getDeriv(av, idx % LDeriv::getSize(av)), RDeriv::getDeriv(av, idx % RDeriv::getSize(av)));
   }
 };
 
@@ -50,10 +50,10 @@ struct BinaryType {
                                                      : RDeriv::getSize(av);
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)), RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    return Op::fDeriv(LDeriv::getDeriv(av, idx % LDeriv::getSize(av)), RDeriv::getDeriv(av, idx % RDeriv::getSize(av)));
   }
 };
 
-- 
2.43.0


From fdcf942a3feead909dfd41d8599e5b67e77a9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 27/73] fix: only the independent variable has the derivative 1

The type of the independent variable was ignored. Thus, a borrowed variable and a
buffer with the same index were both treated as the independent variable.
---
 include/etr_bits/Derivatives/VarPointer.hpp    | 9 ++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..c76c147 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -151,7 +151,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +161,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +171,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 4f89050..89883c2 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -189,7 +189,8 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if (d.AllVarsRef.IndepVarIdx == d.I &&
+          d.AllVarsRef.IndepVarTypeIdx == d.TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
           d.setDeriv(d.AllVarsRef, i, 1.0);
         }
-- 
2.43.0


From 8a8fe3bbb92626fb78f0f01fabea2b8ec2a50e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 28/73] fix: assignments to borrowed variables with derivatives

The values were written in the buffer with the same index.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 89883c2..06aab44 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -186,7 +186,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     if constexpr (IsConstant<decltype(otherVec)>) {
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       if (d.AllVarsRef.IndepVarIdx == d.I &&
@@ -221,7 +221,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
 
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+        d.setVal(d.AllVarsRef, i, temp[i]);
       }
 
     }
-- 
2.43.0


From eb5bf7610b5eb5356590abb4c79c3f36bae65cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 29/73] fix: initBorrow has to borrow the memory of the
 arguments

---
 include/etr_bits/Derivatives/AllVars.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 8a0986f..069ee09 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -50,7 +50,7 @@ struct AllVars {
     int idx = 0;
     LoopVariadicT(
         [&](auto arg) {
-          this->varBorrow[idx] = arg;
+          this->varBorrow[idx].d = arg.d;
           idx++;
         },
         args...);
-- 
2.43.0


From 1dd7bc0cb6bc93304d5f808dc24914176962b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 30/73] fix: a calculation with an empty vector is empty

The empty vector was recycled which is a division by zero.
---
 include/etr_bits/BinaryCalculations.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index eb597a6..455bb5e 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -115,6 +115,8 @@ struct BinaryOperation {
     } else if constexpr (isDoubleL && !isDoubleR) {
       return r.size();
     } else if constexpr (!isDoubleL && !isDoubleR) {
+      if (l.size() == 0 || r.size() == 0) // NOTE: nothing can be recycled
+        return 0;
       return l.size() > r.size() ? l.size() : r.size();
     }
   }
-- 
2.43.0


From a3a29b54d64485f212392d9d465e92d5421437e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 31/73] fix: refuse an empty logical index

The index was recycled which is a division by zero.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 10 ++++++++++
 include/etr_bits/Subsetting/VectorSubsetting.hpp |  1 +
 2 files changed, 11 insertions(+)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index ddd4493..0cd94e5 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -92,6 +92,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
+      ass(idxR->size() > 0, "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nc(); i++) {
         if ((*idxR)[i % idxR->size()])
           counter++;
@@ -180,6 +181,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
+      ass(idxR->size() > 0, "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nc(); i++) {
         if ((*idxR)[i % idxR->size()])
           counter++;
@@ -247,6 +249,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
+      ass(idxR->size() > 0, "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nc(); i++) {
         if ((*idxR)[i % idxR->size()])
           counter++;
@@ -296,6 +299,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxL->size() <= vec.nr(),
           "Error in matrix: logical subscript too long");
+      ass(idxL->size() > 0, "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nr(); i++) {
         if ((*idxL)[i % idxL->size()])
           counter++;
@@ -360,6 +364,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   else if constexpr (IsAV<R> && is<C, int>) {
     using DataTypeR = ExtractDataType<R>::RetType;
     if constexpr (is<DataTypeR, bool>) {
+      ass(idxL->size() > 0, "subset has to have at least one element");
       std::size_t counter = 0;
       for (int i = 0; i < vec.nr(); i++) {
         if ((*idxL)[i % idxL->size()])
@@ -406,6 +411,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   else if constexpr (IsAV<R> && is<C, double>) {
     using DataTypeR = ExtractDataType<R>::RetType;
     if constexpr (is<DataTypeR, bool>) {
+      ass(idxL->size() > 0, "subset has to have at least one element");
       std::size_t counter = 0;
       for (int i = 0; i < vec.nr(); i++) {
         if ((*idxL)[i % idxL->size()])
@@ -457,6 +463,8 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxL->size() <= vec.nr() && idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
+      ass(idxL->size() > 0 && idxR->size() > 0,
+          "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nr(); i++) {
         if ((*idxL)[i % idxL->size()] == true) {
           counter++;
@@ -506,6 +514,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxL->size() <= vec.nr(),
           "Error in matrix: logical subscript too long");
+      ass(idxL->size() > 0, "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nr(); i++)
         if ((*idxL)[i % idxL->size()])
           counter++;
@@ -536,6 +545,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
+      ass(idxR->size() > 0, "subset has to have at least one element");
       for (std::size_t i = 0; i < vec.nc(); i++)
         if ((*idxR)[i % idxR->size()])
           counter++;
diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 9af08c7..d528f09 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -38,6 +38,7 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
 
     using IndexType = ExtractDataType<I>::RetType;
     if constexpr (is<IndexType, bool>) {
+      ass(idx->size() > 0, "subset has to have at least one element");
       std::size_t sizeTrue = 0;
       for (std::size_t i = 0; i < vec.size(); i++)
         if ((*idx)[i % idx->size()])
-- 
2.43.0


From 9c4c5a060d85d09a3219a7fefe9dd46fb34be21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 32/73] fix: all rows and columns of a calculation are a matrix

The dimensions of a calculation are computed and not stored.
---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 0cd94e5..c001efe 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -54,7 +54,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.size());
       for (std::size_t i = 0; i < vec.size(); i++)
         ind[i] = i;
-      mp.setMatrix(vec.d.mp);
+      mp.setMatrix(true, vec.nr(), vec.nc());
       return;
     } else {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
-- 
2.43.0


From 94b1ffdcaf66d20eb9a23a7e04e10d939fbdb12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 33/73] fix: fill has to take over the capacity of the r value

---
 include/etr_bits/Core/BaseStore.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 7e7aa06..37d6ec1 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -176,6 +176,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       inp.d.p = nullptr;
       inp.d.allocated = false;
       p = ptr;
+      capacity = inp.d.capacity;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From 76b97cec363afdbd2a44ef827531cdf042194a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 34/73] fix: realloc to a smaller size wrote beyond the new
 memory

---
 include/etr_bits/Core/BaseStore.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 37d6ec1..9f34754 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -321,6 +321,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
     T *temp;
     capacity = static_cast<int>(new_size * 1.15);
     temp = new T[capacity];
+    if (new_size < sz)
+      sz = new_size;
     for (std::size_t i = 0; i < sz; i++)
       temp[i] = p[i];
 
-- 
2.43.0


From 4727b6432b3af583e44f773e91d104837d9fcd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 35/73] fix: fill of a borrowed object must not delete the
 borrowed memory

---
 include/etr_bits/Core/Borrow.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index eb909e0..711aa66 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -103,12 +103,6 @@ template <typename T, typename BorrowTrait> struct Borrow {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From 1e18db4035a5952038b77144b769984a1a47405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 36/73] fix: vector_logical of a variable had always one
 element

---
 include/etr_bits/Allocation/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..841cd45 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From de299adb156fc38ba7f9677147bbc813fc9d2556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 37/73] fix: fewer elements can be assigned to a borrowed
 object

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 06aab44..eead610 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -77,8 +77,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    ass(d.sz <= otherVec.size(),
-        "size cannot be increased above the size of the borrowed object");
     d.sz = otherVec.size();
     for (std::size_t i = 0; i < otherVec.size(); i++)
       d[i] = temp[i];
@@ -146,8 +144,6 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    ass(d.sz <= otherVec.size(),
-        "size cannot be increased above the size of the borrowed object");
     d.sz = otherVec.size();
     for (std::size_t i = 0; i < otherVec.size(); i++)
       d[i] = temp[i];
-- 
2.43.0


From 8109940eabd1eaa4ae8031082ee841e921b4f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 38/73] fix: a refused assignment must not change the
 derivative

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index eead610..5070fd9 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -210,12 +210,12 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
         tempDeriv[i] = res.getDeriv(d.AllVarsRef, i);
       }
+      d.resize(otherVec.size());
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
-      d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         d.setVal(d.AllVarsRef, i, temp[i]);
       }
-- 
2.43.0


From 37abe134af8a136835032b296c2a94afa3f8645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 39/73] fix: writing a subset or a calculation into a stream

---
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index 8bed5d1..cbd4969 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -89,7 +89,7 @@ template <typename T, typename R, typename Trait> struct Vec {
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
     os << "Vec [ ";
     for (std::size_t i = 0; i < vec.size(); i++) {
-      os << vec.d.p[i] << " ";
+      os << vec[i] << " ";
     }
     os << "]";
     return os;
-- 
2.43.0


From cadd4ea26900e306288ff79f3bad56d971c0dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 40/73] fix: borrowing memory as a matrix gave an empty object

---
 include/etr_bits/Vector/Constructors.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 66f73e8..d418078 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -217,8 +217,12 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
   }
 }
 Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
-  for (std::size_t i = 0; i < d.size(); i++)
-    d[i] = ptr[i];
+  if constexpr (isBorrow::value) {
+    d.init(ptr, rows * cols);
+  } else {
+    for (std::size_t i = 0; i < d.size(); i++)
+      d[i] = ptr[i];
+  }
   d.setMatrix(true, rows, cols);
 }
 
-- 
2.43.0


From 9b65036c9e9a2fa0ed00b91cf343be36e0f7830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 41/73] fix: the logical type of an R object was asked with a
 function which does not exist

---
 include/etr_bits/Core/BorrowSEXP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 7aa3d8c..202a5a3 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -58,7 +58,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       todelete = false;
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_IsLogical(inp), "R object is not of type numeric");
+      ass(Rf_isLogical(inp), "R object is not of type numeric");
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
@@ -119,7 +119,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       todelete = false;
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_IsLogical(inp), "R object is not of type numeric");
+      ass(Rf_isLogical(inp), "R object is not of type numeric");
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-- 
2.43.0


From dd3e3e0cd5ac9c7a6e79443b3947b2a3a49bb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 42/73] fix: printing did not compile within R

---
 include/etr_bits/Printing.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 4064028..07f0259 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -10,8 +10,7 @@ namespace etr {
 #ifdef STANDALONE_ETR
 #define PRINT_STREAM std::cout
 #else
-// TODO: find appropriate R variante for printing
-#define PRINT_STREAM PRINT_STREAM
+#define PRINT_STREAM Rcpp::Rcout
 #endif
 
 inline void print() { PRINT_STREAM << std::endl; }
-- 
2.43.0


From bb587d8d9bc4cd1f6fad3aa8cb3de73ecea97fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 43/73] fix: asking whether an R object is a matrix did not
 compile

---
 include/etr_bits/Core/BaseStore.hpp  | 12 ++++++------
 include/etr_bits/Core/BorrowSEXP.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 9f34754..54999f9 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -65,7 +65,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -77,7 +77,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -89,7 +89,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -201,7 +201,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -213,7 +213,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -225,7 +225,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 202a5a3..e8bbc67 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -42,7 +42,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = REAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -52,7 +52,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = INTEGER(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -62,7 +62,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -103,7 +103,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = REAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -113,7 +113,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = INTEGER(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -123,7 +123,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
-- 
2.43.0


From 8d6b661b352ec815f588ab01d520420e6c2a5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 44/73] fix: memory of R was freed by objects which borrow it

---
 include/etr_bits/Core/BorrowSEXP.hpp | 41 ++++++++--------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index e8bbc67..3709c84 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -32,7 +32,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     mp.setMatrix(other.mp);
   }
   BorrowSEXP(SEXP inp) {
-    if (allocated == true) {
+    if (todelete) {
       ass(p != nullptr, "try to delete nullptr");
       delete[] p;
       this->p = nullptr;
@@ -93,7 +93,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   }
 
   BorrowSEXP &operator=(SEXP inp) {
-    if (allocated == true) {
+    if (todelete) {
       ass(p != nullptr, "try to delete nullptr");
       delete[] p;
       this->p = nullptr;
@@ -170,7 +170,8 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     } else {
       if (newSize > capacity) {
         ass(p != nullptr, "try to delete nullptr");
-        delete[] p;
+        if (todelete)
+          delete[] p;
         sz = newSize;
         capacity = static_cast<std::size_t>(newSize * 1.15);
         p = new T[capacity];
@@ -185,29 +186,11 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     }
   }
 
+  // NOTE: the memory belongs to R and cannot be handed over
   template <typename L2> BorrowSEXP &moveit(L2 &other) {
-    if (!todelete) {
-      resize(other.size());
-      T *temporary = other.p;
-      int tempSize = other.sz;
-      int tempCapacity = other.capacity;
-      other.p = this->p;
-      other.sz = this->sz;
-      other.capacity = this->capacity;
-      this->p = temporary;
-      this->sz = tempSize;
-      this->capacity = tempCapacity;
-    } else {
-      T *temporary = other.p;
-      int tempSize = other.sz;
-      int tempCapacity = other.capacity;
-      other.p = this->p;
-      other.sz = this->sz;
-      other.capacity = this->capacity;
-      this->p = temporary;
-      this->sz = tempSize;
-      this->capacity = tempCapacity;
-    }
+    resize(other.size());
+    for (std::size_t i = 0; i < sz; i++)
+      p[i] = other.p[i];
     return *this;
   }
 
@@ -226,7 +209,8 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     for (std::size_t i = sz; i < new_size; i++)
       temp[i] = T();
     sz = new_size;
-    delete[] p;
+    if (todelete)
+      delete[] p;
     p = temp;
     allocated = true;
     temp = nullptr;
@@ -284,11 +268,8 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
         std::copy(ptr, ptr + sz, p);
       }
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
       DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
+      std::copy(ptr, ptr + sz, p);
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From 96ece441950c1283f802c32ffc8612cbc746b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 45/73] fix: R objects could not be borrowed for derivatives
 and a borrowed vector stayed a matrix

---
 include/etr_bits/Core/BorrowSEXP.hpp | 94 +++++++---------------------
 1 file changed, 24 insertions(+), 70 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 3709c84..d5d3bcf 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -31,44 +31,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p[i] = other[i];
     mp.setMatrix(other.mp);
   }
-  BorrowSEXP(SEXP inp) {
-    if (todelete) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      this->p = nullptr;
-    }
-    if constexpr (is<RetType, double>) {
-      ass(Rf_isReal(inp), "R object is not of type numeric");
-      p = REAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else if constexpr (is<RetType, int>) {
-      ass(Rf_isInteger(inp), "R object is not of type numeric");
-      p = INTEGER(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else if constexpr (is<RetType, bool>) {
-      ass(Rf_isLogical(inp), "R object is not of type numeric");
-      p = LOGICAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    }
-  }
+  BorrowSEXP(SEXP inp) { initSEXP(inp); }
   BorrowSEXP(std::size_t i) = delete;
   BorrowSEXP(int i) = delete;
   BorrowSEXP() {}
@@ -93,45 +56,36 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   }
 
   BorrowSEXP &operator=(SEXP inp) {
-    if (todelete) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      this->p = nullptr;
-    }
+    initSEXP(inp);
+    return *this;
+  }
+
+  void initSEXP(SEXP inp) {
+    T *ptr = nullptr;
     if constexpr (is<RetType, double>) {
       ass(Rf_isReal(inp), "R object is not of type numeric");
-      p = REAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
+      ptr = REAL(inp);
     } else if constexpr (is<RetType, int>) {
-      ass(Rf_isInteger(inp), "R object is not of type numeric");
-      p = INTEGER(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
+      ass(Rf_isInteger(inp), "R object is not of type integer");
+      ptr = INTEGER(inp);
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_isLogical(inp), "R object is not of type numeric");
-      p = LOGICAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
+      ass(Rf_isLogical(inp), "R object is not of type logical");
+      ptr = LOGICAL(inp);
     } else {
       static_assert(sizeof(T) == 0, "Unsupported type found");
     }
-    return *this;
+    if (todelete)
+      delete[] p;
+    p = ptr;
+    sz = Rf_length(inp);
+    capacity = Rf_length(inp);
+    if (Rf_isMatrix(inp)) {
+      mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
+    } else {
+      mp.setMatrix(false, 0, 0);
+    }
+    todelete = false;
+    allocated = true;
   }
 
   RetType &operator[](std::size_t pos) {
-- 
2.43.0


From aaa7fec7cd89bbc9866d065a33e13cc8e6a25461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:31 +0000
Subject: [PATCH 46/73] fix: a variable stayed a matrix after the assignment of
 an R vector and lost its memory if the type was refused

---
 include/etr_bits/Core/BaseStore.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 54999f9..c3b384e 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -191,18 +191,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 #ifdef STANDALONE_ETR
 #else
   void initSEXP(SEXP s) {
-    if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      this->p = nullptr;
-    }
     if constexpr (is<RetType, double>) {
       ass(Rf_isReal(s), "R object is not of type numeric");
+      if (allocated)
+        delete[] p;
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
       if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
+      } else {
+        mp.setMatrix(false, 0, 0);
       }
       for (int i = 0; i < sz; i++) {
         p[i] = REAL(s)[i];
@@ -210,11 +209,15 @@ template <typename T, typename BaseTrait> struct BaseStore {
       allocated = true;
     } else if constexpr (is<RetType, int>) {
       ass(Rf_isInteger(s), "R object is not of type integer");
+      if (allocated)
+        delete[] p;
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
       if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
+      } else {
+        mp.setMatrix(false, 0, 0);
       }
       for (int i = 0; i < sz; i++) {
         p[i] = INTEGER(s)[i];
@@ -222,11 +225,15 @@ template <typename T, typename BaseTrait> struct BaseStore {
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
       ass(Rf_isLogical(s), "R object is not of type logical");
+      if (allocated)
+        delete[] p;
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
       if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
+      } else {
+        mp.setMatrix(false, 0, 0);
       }
       for (int i = 0; i < sz; i++) {
         p[i] = LOGICAL(s)[i];
-- 
2.43.0


From 6fc0e6240d1d0d56e142c21b2ef7a6581bf4852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 47/73] fix: distribution functions returned one element for
 vectors

---
 include/etr_bits/Distri.hpp | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 570059a..f9e20a8 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -30,7 +30,7 @@ inline Vec<BaseType> dunif_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -70,7 +70,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -111,7 +111,7 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -154,7 +154,7 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -198,7 +198,7 @@ inline Vec<BaseType> dnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -222,7 +222,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -239,7 +239,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -280,7 +280,7 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -323,7 +323,7 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -367,7 +367,7 @@ inline Vec<BaseType> dlnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -391,7 +391,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -408,7 +408,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -449,7 +449,7 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -493,7 +493,7 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -542,7 +542,7 @@ inline Vec<BaseType> dgamma_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -572,7 +572,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -589,7 +589,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -634,7 +634,7 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -681,7 +681,7 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-- 
2.43.0


From 201e3c83de6f90d4fc9343c741204ee271a57f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 48/73] fix: the length of the second argument of distribution
 functions was ignored

---
 include/etr_bits/Distri.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index f9e20a8..5f3ac67 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -25,7 +25,7 @@ inline Vec<BaseType> dunif_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -65,7 +65,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -106,7 +106,7 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -149,7 +149,7 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -193,7 +193,7 @@ inline Vec<BaseType> dnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -234,7 +234,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -275,7 +275,7 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -318,7 +318,7 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -362,7 +362,7 @@ inline Vec<BaseType> dlnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -403,7 +403,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -444,7 +444,7 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -488,7 +488,7 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -537,7 +537,7 @@ inline Vec<BaseType> dgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -584,7 +584,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size())};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -629,7 +629,7 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lower.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
@@ -676,7 +676,7 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lower.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
-- 
2.43.0


From 5c644a3acb9bacadb7de68a392e4453b39b4777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 49/73] fix: concatenating objects which borrow from R did not
 compile

---
 include/etr_bits/Core/Types.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/etr_bits/Core/Types.hpp b/include/etr_bits/Core/Types.hpp
index 3af4521..1d3790a 100644
--- a/include/etr_bits/Core/Types.hpp
+++ b/include/etr_bits/Core/Types.hpp
@@ -57,6 +57,15 @@ struct ExtractDataType<const Borrow<T, Trait>> {
   using RetType = T const;
 };
 
+template <typename T, typename Trait>
+struct ExtractDataType<BorrowSEXP<T, Trait>> {
+  using RetType = T;
+};
+template <typename T, typename Trait>
+struct ExtractDataType<const BorrowSEXP<T, Trait>> {
+  using RetType = T const;
+};
+
 template <typename Trait = DoubleTrait> struct doubleWrapper {
   using TypeTrait = Trait;
   using Type = DoubleTrait;
-- 
2.43.0


From c5c24672d2503e10727980e3527a87fbbe1f0597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 50/73] fix: the requested number of random numbers was ignored
 for vectors of parameters

---
 include/etr_bits/Distri.hpp | 46 ++++++++-----------------------------
 1 file changed, 9 insertions(+), 37 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 5f3ac67..c1a3dd2 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -51,9 +51,9 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
                                const Vec<BaseType> &max_) {
   std::mutex m;
 
-  if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
-    Vec<BaseType> res(SI{static_cast<int>(x[0])});
+  if (x.size() == 1) {
     std::size_t size = static_cast<std::size_t>(x[0]);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -63,14 +63,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{min_.size(), max_.size()};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -220,7 +213,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
                                const Vec<BaseType> &max_) {
   std::mutex m;
 
-  if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
+  if (x.size() == 1) {
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -232,14 +225,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{min_.size(), max_.size()};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -389,7 +375,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
                                 const Vec<BaseType> &max_) {
   std::mutex m;
 
-  if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
+  if (x.size() == 1) {
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -401,14 +387,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{min_.size(), max_.size()};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -570,7 +549,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   }
 
   // const Vec<BaseType> &scale = 1 / rate;
-  if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1)) {
+  if (x.size() == 1) {
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -582,14 +561,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size())};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-- 
2.43.0


From 6fb528fed419b63102d09c1412a16937052c402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 51/73] fix: a negative number of random numbers requested an
 undefined amount of memory

---
 include/etr_bits/Distri.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index c1a3dd2..71dfe37 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -52,6 +52,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if (x.size() == 1) {
+    ass(x[0] >= 1, "number of random numbers has to be larger than 0");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -214,6 +215,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if (x.size() == 1) {
+    ass(x[0] >= 1, "number of random numbers has to be larger than 0");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -376,6 +378,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if (x.size() == 1) {
+    ass(x[0] >= 1, "number of random numbers has to be larger than 0");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -550,6 +553,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
 
   // const Vec<BaseType> &scale = 1 / rate;
   if (x.size() == 1) {
+    ass(x[0] >= 1, "number of random numbers has to be larger than 0");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
-- 
2.43.0


From dd6be4ee941fde1323d4281504d4a63973c77ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 52/73] fix: a failed allocation left an object with memory
 which was freed already

The old memory was deleted before the new memory was requested. If the request
fails, the destructor freed it again while the exception is handled.
---
 include/etr_bits/Core/BaseStore.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index c3b384e..56f7c04 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -193,11 +193,12 @@ template <typename T, typename BaseTrait> struct BaseStore {
   void initSEXP(SEXP s) {
     if constexpr (is<RetType, double>) {
       ass(Rf_isReal(s), "R object is not of type numeric");
+      T *temp = new T[Rf_length(s)];
       if (allocated)
         delete[] p;
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
+      p = temp;
       if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       } else {
@@ -209,11 +210,12 @@ template <typename T, typename BaseTrait> struct BaseStore {
       allocated = true;
     } else if constexpr (is<RetType, int>) {
       ass(Rf_isInteger(s), "R object is not of type integer");
+      T *temp = new T[Rf_length(s)];
       if (allocated)
         delete[] p;
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
+      p = temp;
       if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       } else {
@@ -225,11 +227,12 @@ template <typename T, typename BaseTrait> struct BaseStore {
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
       ass(Rf_isLogical(s), "R object is not of type logical");
+      T *temp = new T[Rf_length(s)];
       if (allocated)
         delete[] p;
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
+      p = temp;
       if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       } else {
@@ -258,14 +261,14 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
 
   void init(std::size_t size) {
+    // NOTE: nothing is changed if the allocation fails
+    T *temp = new T[static_cast<std::size_t>(1.15 * size)];
     if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
       delete[] p;
-      p = nullptr;
     }
     sz = size;
     capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    p = temp;
     allocated = true;
   }
   void resize(std::size_t newSize) {
@@ -277,11 +280,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
     } else {
       if (newSize > capacity) {
         ass(p != nullptr, "try to delete nullptr");
-        delete[] p;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
-        sz = newSize;
-        allocated = true;
+        init(newSize);
         fill(T());
       } else {
         sz = newSize;
@@ -326,8 +325,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void realloc(std::size_t new_size) {
     T *temp;
+    temp = new T[static_cast<int>(new_size * 1.15)];
     capacity = static_cast<int>(new_size * 1.15);
-    temp = new T[capacity];
     if (new_size < sz)
       sz = new_size;
     for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From e272db9eec994f9950e06a07ec01a8c4cf6da7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 53/73] fix: a failed allocation left a borrowed object with
 freed memory

---
 include/etr_bits/Core/BorrowSEXP.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index d5d3bcf..ed498eb 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -103,14 +103,14 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   }
 
   void init(std::size_t size) {
+    // NOTE: nothing is changed if the allocation fails
+    T *temp = new T[static_cast<std::size_t>(1.15 * size)];
     if (allocated && todelete) {
-      ass(p != nullptr, "try to delete nullptr");
       delete[] p;
-      p = nullptr;
     }
     sz = size;
     capacity = static_cast<std::size_t>(1.15 * sz);
-    p = new T[capacity];
+    p = temp;
     allocated = true;
     todelete = true;
   }
@@ -124,14 +124,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     } else {
       if (newSize > capacity) {
         ass(p != nullptr, "try to delete nullptr");
-        if (todelete)
-          delete[] p;
-        sz = newSize;
-        capacity = static_cast<std::size_t>(newSize * 1.15);
-        p = new T[capacity];
-        allocated = true;
-        todelete = true;
-        sz = newSize;
+        init(newSize);
         fill(T());
       } else {
         sz = newSize;
@@ -156,8 +149,8 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     if (new_size <= sz) {
       return;
     }
+    T *temp = new T[static_cast<int>(new_size * 1.15)];
     capacity = static_cast<int>(new_size * 1.15);
-    T *temp = new T[capacity];
     for (std::size_t i = 0; i < sz; i++)
       temp[i] = p[i];
     for (std::size_t i = sz; i < new_size; i++)
-- 
2.43.0


From 447801ffe970506f426bf8d31d6b69b1000b3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 54/73] fix: the elements of vector_* with derivatives are zero
 when it is called again

---
 include/etr_bits/Allocation/Vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 841cd45..90b18ea 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -104,20 +104,24 @@ inline auto vector_integer(AV &av, const T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -130,20 +134,24 @@ inline auto vector_integer(AV &av, T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -156,20 +164,24 @@ inline auto vector_logical(AV &av, const T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -182,20 +194,24 @@ inline auto vector_logical(AV &av, T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -208,20 +224,24 @@ inline auto vector_numeric(AV &av, const T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -234,20 +254,24 @@ inline auto vector_numeric(AV &av, T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].d.fill(BaseType());
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
-- 
2.43.0


From 88614169098a1afd7d84533bd006f958c6a75232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 55/73] fix: positions of other number types select the element
 instead of nothing

---
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index d528f09..162ec2f 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -30,7 +30,7 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
     ind[0] = *idx - 1;
     ass(ind[0] >= 0, "invalid index argument");
     return;
-  } else if constexpr (is<I, double>) {
+  } else if constexpr (std::is_arithmetic_v<I>) {
     ind.resize(1);
     ind[0] = convertSizeSubsetting(*idx) - 1;
     return;
-- 
2.43.0


From abdd0ba69f60debcc652c7ee4c59be4bdcf360e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 56/73] fix: != is the opposite of == for a difference of
 exactly the tolerance and for NaN

---
 include/etr_bits/Core/Traits.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index e59a51c..10acd6d 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -215,11 +215,7 @@ struct LargerEqualDerivTrait {
 struct UnEqualDerivTrait {
   template <typename L = BaseType, typename R = BaseType>
   static bool f(L a, R b) {
-    if (fabs(a - b) > 1E-3) {
-      return true;
-    } else {
-      return false;
-    }
+    return !EqualDerivTrait::f(a, b);
   }
   template <typename L = BaseType, typename R = BaseType>
   static inline std::common_type<L, R>::type fDeriv(L l, R r) {
@@ -329,11 +325,7 @@ struct LargerEqualTrait {
 struct UnEqualTrait {
   template <typename L = BaseType, typename R = BaseType>
   static bool f(L a, R b) {
-    if (fabs(static_cast<BaseType>(a) - b) > 1E-3) {
-      return true;
-    } else {
-      return false;
-    }
+    return !EqualTrait::f(a, b);
   }
 };
 
-- 
2.43.0


From 2ae703e03ecd573aca8d2214ad7d30d89a8d4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 57/73] fix: derivatives treat equal infinite numbers as equal

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 10acd6d..eb9b280 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -144,7 +144,7 @@ struct EqualDerivTrait {
   static inline bool
   f(L a,
     R b) { // TODO: add this to documentationion for package authors
-    if (fabs(a - b) < 1E-3) {
+    if (a == b || fabs(a - b) < 1E-3) {
       return true;
     } else {
       return false;
-- 
2.43.0


From 686b4f3322fad74c16deb801078c815cbf74687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 58/73] fix: the negation of a negated integer zero was a
 negative zero

---
 include/etr_bits/UnaryCalculations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 043a624..b00b0ba 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -42,7 +42,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   template <typename IType, typename TraitOther>
   UnaryOperation(const UnaryOperation<IType, TraitOther> &other)
       : obj(other.obj) {}
-  RetType operator[](std::size_t i) const {
+  auto operator[](std::size_t i) const {
     constexpr bool isDouble = std::is_same_v<I, double>;
     if constexpr (isDouble) {
       return Trait::f(obj);
-- 
2.43.0


From 0bf92fb9f37764c987cd6d03a269b2cedde3c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 59/73] fix: print changed the format of the stream, and
 logical matrices were printed differently after other calls of print

---
 include/etr_bits/Printing.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 07f0259..2bfeb23 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -13,13 +13,24 @@ namespace etr {
 #define PRINT_STREAM Rcpp::Rcout
 #endif
 
+// NOTE: logical values are printed as true and false. The format of the stream
+// is restored afterwards
+struct PrintFormat {
+  std::ios_base::fmtflags flags;
+  PrintFormat() : flags(PRINT_STREAM.flags()) {
+    PRINT_STREAM << std::boolalpha;
+  }
+  ~PrintFormat() { PRINT_STREAM.flags(flags); }
+};
+
 inline void print() { PRINT_STREAM << std::endl; }
 
 template <typename T>
   requires isBID<T>
 inline void print(const T &inp) {
+  PrintFormat format;
   if constexpr (std::is_same_v<T, bool>) {
-    PRINT_STREAM << std::boolalpha << inp << " ";
+    PRINT_STREAM << inp << " ";
   } else {
     PRINT_STREAM << inp << std::endl;
   }
@@ -38,9 +49,10 @@ inline void print(const char *inp) {
 template <typename L, typename R>
   requires NotOperation<R>
 inline void print(const Vec<L, R> &inp) {
+  PrintFormat format;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << inp[i] << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
@@ -55,9 +67,10 @@ inline void print(const Vec<L, R> &inp) {
 template <typename T, typename Op, typename Trait>
   requires UnaryOrBinaryOperation<Op>
 inline void print(const etr::Vec<T, Op, Trait> &inp) {
+  PrintFormat format;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << inp[i] << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
@@ -73,9 +86,10 @@ template <typename T> // issue: unnecessary new line
   requires(!isBID<T>)
 inline void
 print(const T &inp) { // issue: just a quick fix for printing unary expression
+  PrintFormat format;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << inp[i] << " ";
+      PRINT_STREAM << inp[i] << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
@@ -89,9 +103,10 @@ print(const T &inp) { // issue: just a quick fix for printing unary expression
 
 template <typename T, typename Op, typename Trait, typename AV>
 inline void print(const etr::Vec<T, Op, Trait> &inp, AV &av) {
+  PrintFormat format;
   if (!inp.im()) {
     for (std::size_t i = 0; i < inp.size(); i++)
-      PRINT_STREAM << std::boolalpha << decltype(inp.d)::getVal(av, i) << " ";
+      PRINT_STREAM << decltype(inp.d)::getVal(av, i) << " ";
     PRINT_STREAM << std::endl;
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
-- 
2.43.0


From c0add6b68836dd3833d7670b6efc4b4368fcfdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 60/73] fix: the assignment of a number to empty borrowed
 memory wrote behind its end

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 5070fd9..1819e97 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -17,7 +17,7 @@ Vec &operator=(const TD inp) {
         d[i] = inp;
       }
     } else if constexpr (isBorrow::value) {
-      d.sz = 1;
+      d.resize(1);
       d[0] = inp;
       d.setMatrix(false, 0, 0);
     } else {
@@ -34,7 +34,7 @@ Vec &operator=(const TD inp) {
         d[i] = static_cast<T>(inp);
       }
     } else if constexpr (isBorrow::value) {
-      d.sz = 1;
+      d.resize(1);
       d[0] = static_cast<T>(inp);
       d.setMatrix(false, 0, 0);
     } else {
-- 
2.43.0


From b1f5d0a886c6887a28775efa51353d6c5b1e7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 61/73] fix: reading an element of a calculation or subset
 without elements divided by zero

---
 include/etr_bits/BinaryCalculations.hpp |  6 +++---
 include/etr_bits/Core/SubsetClass.hpp   | 10 +++++-----
 include/etr_bits/Core/Utils.hpp         |  7 +++++++
 include/etr_bits/UnaryCalculations.hpp  |  2 +-
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 455bb5e..b1073c0 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -98,11 +98,11 @@ struct BinaryOperation {
     constexpr bool isDoubleL = std::is_arithmetic_v<L>;
     constexpr bool isDoubleR = std::is_arithmetic_v<R>;
     if constexpr (!isDoubleL && isDoubleR) {
-      return Trait::f(l[i % l.size()], r);
+      return Trait::f(l[recycle(i, l.size())], r);
     } else if constexpr (isDoubleL && !isDoubleR) {
-      return Trait::f(l, r[i % r.size()]);
+      return Trait::f(l, r[recycle(i, r.size())]);
     } else if constexpr (!isDoubleL && !isDoubleR) {
-      return Trait::f(l[i % l.size()], r[i % r.size()]);
+      return Trait::f(l[recycle(i, l.size())], r[recycle(i, r.size())]);
     }
   }
   std::size_t size() const {
diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 5120735..28df0fc 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,14 +61,14 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % ind.size()]);
+    return this->p->operator[](ind[recycle(pos, ind.size())]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    ass(ind[pos % ind.size()] < p->size(),
+    ass(ind[recycle(pos, ind.size())] < p->size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return this->p->operator[](ind[pos % ind.size()]);
+    return this->p->operator[](ind[recycle(pos, ind.size())]);
   }
 
   ~Subset() {}
@@ -131,9 +131,9 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    ass(ind[pos % ind.size()] < p->size(),
+    ass(ind[recycle(pos, ind.size())] < p->size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return this->p->operator[](ind[pos % ind.size()]);
+    return this->p->operator[](ind[recycle(pos, ind.size())]);
   }
 
   ~Subset() {}
diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 32f7711..9f22a6e 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -65,6 +65,13 @@ inline void ass(bool inp, std::string message) {
 #endif
 }
 
+// NOTE: nothing can be recycled if there is no element
+inline std::size_t recycle(std::size_t idx, std::size_t size) {
+  if (size == 0)
+    ass(false, "No memory was allocated");
+  return idx % size;
+}
+
 // NOTE: iterates over the elements which are selected by a subset
 template <typename D> struct ItSubset {
   const D *d;
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index b00b0ba..43e4f4b 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -47,7 +47,7 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
     if constexpr (isDouble) {
       return Trait::f(obj);
     } else if constexpr (!isDouble) {
-      return Trait::f(obj[i % obj.size()]);
+      return Trait::f(obj[recycle(i, obj.size())]);
     }
   }
   std::size_t size() const {
-- 
2.43.0


From cf26706c535738a2fe068cf3965c6bd0f047325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 62/73] fix: matrix and cmr warned about sizes or times with
 one element and kept silent about those with more

---
 include/etr_bits/Allocation/Matrix.hpp | 16 ++++++++--------
 include/etr_bits/Interpolation.hpp     |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/etr_bits/Allocation/Matrix.hpp b/include/etr_bits/Allocation/Matrix.hpp
index 23a1bae..8ce6b66 100644
--- a/include/etr_bits/Allocation/Matrix.hpp
+++ b/include/etr_bits/Allocation/Matrix.hpp
@@ -45,7 +45,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -53,7 +53,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols));
@@ -62,7 +62,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -70,7 +70,7 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 1, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows), convertSize(ncols[0]));
@@ -79,9 +79,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
     }
   } else if constexpr (!std::is_arithmetic_v<R> && !std::is_arithmetic_v<C>) {
     if constexpr (std::is_arithmetic_v<V>) {
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<V, Buffer<V, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
@@ -89,9 +89,9 @@ inline auto matrix(const V &&inp, const R &&nrows, const C &&ncols) {
       return ret;
     } else {
       using DataType = ExtractDataType<std::remove_reference_t<V>>::RetType;
-      warn(ncols.size() > 2, "ncols in fct matrix has more than one element. "
+      warn(ncols.size() == 1, "ncols in fct matrix has more than one element. "
                              "Only the first one is used");
-      warn(nrows.size() > 1, "nrows in fct matrix has more than one element. "
+      warn(nrows.size() == 1, "nrows in fct matrix has more than one element. "
                              "Only the first one is used");
       Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
           convertSize(nrows[0]), convertSize(ncols[0]));
diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index b451389..27c11c5 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -173,7 +173,7 @@ inline double cmr(const A &tInp, const B &timeVec, const C &parVec) {
   using DataTypeTInp = ExtractDataType<std::remove_reference_t<A>>::RetType;
   static_assert(is<DataTypeTInp, double>,
                 "time input vector does not include doubles");
-  warn(tInp.size() > 1,
+  warn(tInp.size() == 1,
        "time point has more than one element only the first one is used");
   return cmrInternal(&tInp, &timeVec, &parVec);
 }
-- 
2.43.0


From 88eabc5343464231bc2bdb6b9a7c2a89df6a725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:02 +0000
Subject: [PATCH 63/73] fix: the test for decimal places converted numbers
 outside of int's range

---
 include/etr_bits/Core/Utils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 9f22a6e..7e40a14 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -18,8 +18,7 @@ template <typename L, typename R>
 using arithmeticType = decltype(std::declval<L>() + std::declval<R>());
 
 template <typename T> inline bool isDoubleInt(const T d) {
-  int i = d;
-  if ((d - i) > 0) {
+  if ((d - std::trunc(d)) > 0) {
     return false;
   }
   return true;
-- 
2.43.0


From 664bc08b11bb568d2b89b9a08eaba8f834978411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 64/73] fix: sums, differences and sines of conditions were cut
 off to logical values in the product rule of derivatives

---
 include/etr_bits/Core/Traits.hpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index eb9b280..157b5fe 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -42,37 +42,36 @@ inline double PlusDeriv(double lDeriv, double rDeriv) {
 
 struct PlusDerivTrait {
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l + r;
   }
 
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type fDeriv(L l, R r) {
+  static inline auto fDeriv(L l, R r) {
     return l + r;
   }
 };
 
 struct MinusDerivTrait {
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l - r;
   }
 
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type fDeriv(L l, R r) {
+  static inline auto fDeriv(L l, R r) {
     return l - r;
   }
 };
 
 struct TimesDerivTrait {
   template <typename L, typename R>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return l * r;
   }
 
   template <typename L, typename R, typename LDeriv, typename RDeriv>
-  static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
-                                                    RDeriv rd) {
+  static inline auto fDeriv(L l, R r, LDeriv ld, RDeriv rd) {
     return ld * r + rd * l;
   }
 };
@@ -95,8 +94,7 @@ struct DivideDerivTrait {
   }
 
   template <typename L, typename R, typename LDeriv, typename RDeriv>
-  static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
-                                                    RDeriv rd) {
+  static inline auto fDeriv(L l, R r, LDeriv ld, RDeriv rd) {
     return (ld * r - l * rd) /
            std::pow(r, 2); // TODO: add check for integral ...
   }
@@ -120,21 +118,19 @@ struct DivideByConstantDerivTrait {
   }
 
   template <typename L, typename R, typename LDeriv, typename RDeriv>
-  static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
-                                                    RDeriv rd) {
+  static inline auto fDeriv(L l, R r, LDeriv ld, RDeriv rd) {
     return ld / r;
   }
 };
 
 struct PowDerivTrait {
   template <typename L = BaseType, typename R = BaseType>
-  static inline std::common_type<L, R>::type f(L l, R r) {
+  static inline auto f(L l, R r) {
     return std::pow(l, r);
   }
 
   template <typename L, typename R, typename LDeriv, typename RDeriv>
-  static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
-                                                    RDeriv rd) {
+  static inline auto fDeriv(L l, R r, LDeriv ld, RDeriv rd) {
     return r * std::pow(l, r - 1) * ld;
   }
 };
@@ -224,8 +220,8 @@ struct UnEqualDerivTrait {
 };
 
 struct SinusDerivTrait {
-  template <typename L> static inline L f(L l) { return sin(l); }
-  template <typename L> static inline L fDeriv(L l) { return cos(l); }
+  template <typename L> static inline auto f(L l) { return sin(l); }
+  template <typename L> static inline auto fDeriv(L l) { return cos(l); }
 };
 
 struct PlusTrait {
-- 
2.43.0


From d20b87a24b2e2dc0d37a66326c79d813f023b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:17 +0000
Subject: [PATCH 65/73] fix: at() of a constant variable allowed to change its
 elements

---
 include/etr_bits/Subsetting/at.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 1beb912..3ceeaed 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -14,6 +14,15 @@ namespace etr {
 - double double
 */
 
+// NOTE: the elements of a constant variable cannot be changed
+template <typename T, typename E> inline auto &elementOf(T &, E &element) {
+  if constexpr (std::is_const_v<T>) {
+    return std::as_const(element);
+  } else {
+    return element;
+  }
+}
+
 template <typename T, typename R>
   requires(IsRVec<T> || IsSubVec<T> ||
            OperationVec<T> && std::is_arithmetic_v<R>)
@@ -35,7 +44,7 @@ inline auto &at(T &inp, R i) {
   ass(i >= 0, "Error: out of boundaries --> value below 1");
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
-  return inp.d.p[i];
+  return elementOf(inp, inp.d.p[i]);
 }
 
 template <typename T, typename R>
@@ -47,7 +56,7 @@ inline auto &at(T &inp, R i_) {
   ass(i >= 0, "Error: out of boundaries --> value below 1");
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
-  return inp.d.p[i];
+  return elementOf(inp, inp.d.p[i]);
 }
 
 template <typename T, typename R, typename C>
@@ -63,7 +72,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c * inp.nr() + r];
+    return elementOf(inp, inp.d.p[c * inp.nr() + r]);
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
     r_--;
@@ -73,7 +82,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c * inp.nr() + r_];
+    return elementOf(inp, inp.d.p[c * inp.nr() + r_]);
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
     int c_ = d2i(c);
@@ -83,7 +92,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c_ * inp.nr() + r];
+    return elementOf(inp, inp.d.p[c_ * inp.nr() + r]);
   } else {
     int r_ = d2i(r);
     int c_ = d2i(c);
@@ -95,7 +104,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return inp.d.p[c_ * inp.nr() + r_];
+    return elementOf(inp, inp.d.p[c_ * inp.nr() + r_]);
   }
 }
 
-- 
2.43.0


From bd95d8e11dbbe87437981d2d7ae46634a59bfbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:02 +0000
Subject: [PATCH 66/73] fix: loops over a constant variable and its last
 element allowed to change it

---
 include/etr_bits/Vector/VectorClass.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index cbd4969..489bbfe 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -59,6 +59,13 @@ template <typename T, typename R, typename Trait> struct Vec {
   std::size_t nr() const { return d.nr(); }
 
   auto begin() const {
+    if constexpr (isSubset::value) {
+      return ItSubset<R>{&d, 0};
+    } else {
+      return It<const T>{d.p};
+    }
+  }
+  auto begin() {
     if constexpr (isSubset::value) {
       return ItSubset<R>{&d, 0};
     } else {
@@ -66,6 +73,13 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
   auto end() const {
+    if constexpr (isSubset::value) {
+      return ItSubset<R>{&d, this->size()};
+    } else {
+      return It<const T>{d.p + this->size()};
+    }
+  }
+  auto end() {
     if constexpr (isSubset::value) {
       return ItSubset<R>{&d, this->size()};
     } else {
@@ -83,7 +97,8 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size() - 1]; }
+  T &back() { return d.p[this->size() - 1]; }
+  const T &back() const { return d.p[this->size() - 1]; }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From b881cb1024425e45791cf26af6875049b16455b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:37 +0000
Subject: [PATCH 67/73] fix: a subset with an index which is no number or
 vector compiled and selected nothing

---
 include/etr_bits/Subsetting/VectorSubsetting.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Subsetting/VectorSubsetting.hpp b/include/etr_bits/Subsetting/VectorSubsetting.hpp
index 162ec2f..d60c8a7 100644
--- a/include/etr_bits/Subsetting/VectorSubsetting.hpp
+++ b/include/etr_bits/Subsetting/VectorSubsetting.hpp
@@ -66,6 +66,8 @@ inline void calcIndVector(T &vec, Indices &ind, const I *idx) {
     } else {
       static_assert(sizeof(T) == 0, "Unknown type of index variable");
     }
+  } else {
+    static_assert(sizeof(T) == 0, "Unsupported argument to indexing");
   }
 }
 
-- 
2.43.0


From f135d98facfaab0ae99e76081f4fb801f925b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 68/73] fix: at() of a constant variable has a constant result
 type

---
 include/etr_bits/Subsetting/at.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 3ceeaed..4a5ec66 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -15,13 +15,11 @@ namespace etr {
 */
 
 // NOTE: the elements of a constant variable cannot be changed
-template <typename T, typename E> inline auto &elementOf(T &, E &element) {
-  if constexpr (std::is_const_v<T>) {
-    return std::as_const(element);
-  } else {
-    return element;
-  }
-}
+template <typename T>
+using ElementRef = std::conditional_t<
+    std::is_const_v<T>,
+    std::add_const_t<std::remove_reference_t<decltype(*std::declval<T &>().d.p)>>,
+    std::remove_reference_t<decltype(*std::declval<T &>().d.p)>> &;
 
 template <typename T, typename R>
   requires(IsRVec<T> || IsSubVec<T> ||
@@ -38,30 +36,30 @@ inline auto at(const T &inp, R i) {
 
 template <typename T, typename R>
   requires IsVec<T> && std::is_integral_v<R>
-inline auto &at(T &inp, R i) {
+inline ElementRef<T> at(T &inp, R i) {
   i--;
   ass(inp.d.allocated, "No memory was allocated");
   ass(i >= 0, "Error: out of boundaries --> value below 1");
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
-  return elementOf(inp, inp.d.p[i]);
+  return inp.d.p[i];
 }
 
 template <typename T, typename R>
   requires IsVec<T> && std::is_floating_point_v<R>
-inline auto &at(T &inp, R i_) {
+inline ElementRef<T> at(T &inp, R i_) {
   int i = d2i(i_);
   i--;
   ass(inp.d.allocated, "No memory was allocated");
   ass(i >= 0, "Error: out of boundaries --> value below 1");
   ass(i < inp.size(),
       "Error: out of boundaries --> value beyond size of vector");
-  return elementOf(inp, inp.d.p[i]);
+  return inp.d.p[i];
 }
 
 template <typename T, typename R, typename C>
   requires(IsVec<T> && std::is_arithmetic_v<C>)
-inline auto &at(T &inp, R r, C c) {
+inline ElementRef<T> at(T &inp, R r, C c) {
   ass(inp.im() == true, "Input is not a matrix!");
   ass(inp.d.allocated, "No memory was allocated");
   if constexpr (std::is_integral_v<R> && std::is_integral_v<C>) {
@@ -72,7 +70,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return elementOf(inp, inp.d.p[c * inp.nr() + r]);
+    return inp.d.p[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
     r_--;
@@ -82,7 +80,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return elementOf(inp, inp.d.p[c * inp.nr() + r_]);
+    return inp.d.p[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
     int c_ = d2i(c);
@@ -92,7 +90,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return elementOf(inp, inp.d.p[c_ * inp.nr() + r]);
+    return inp.d.p[c_ * inp.nr() + r];
   } else {
     int r_ = d2i(r);
     int c_ = d2i(c);
@@ -104,7 +102,7 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value beyond size of vector");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
-    return elementOf(inp, inp.d.p[c_ * inp.nr() + r_]);
+    return inp.d.p[c_ * inp.nr() + r_];
   }
 }
 
-- 
2.43.0


From 67ecbaab2623b75291bcfa9b5d8c121477f356df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 69/73] fix: li returned an undefined value for a missing time

---
 include/etr_bits/Interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index 27c11c5..b4731fd 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -20,7 +20,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = t_[0];
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA; // NOTE: the value at a missing time is missing
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
     if (t >= timeVec[timeVec.size() - 1]) {
@@ -48,7 +48,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = static_cast<BaseType>(t_);
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA; // NOTE: the value at a missing time is missing
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
     if (t >= timeVec[timeVec.size() - 1]) {
-- 
2.43.0


From 3dd9a10f58526ee822188691fd67e1c0bc305ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:28 +0000
Subject: [PATCH 70/73] fix: sizes beyond the memory wrapped around to few
 elements or no memory

---
 include/etr_bits/Allocation/AllocationUtils.hpp | 10 ++++++++--
 include/etr_bits/Allocation/Rep.hpp             |  4 ++--
 include/etr_bits/Core/BaseStore.hpp             |  2 ++
 include/etr_bits/Core/Utils.hpp                 |  9 +++++++++
 include/etr_bits/Vector/Constructors.hpp        |  7 ++++---
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/etr_bits/Allocation/AllocationUtils.hpp b/include/etr_bits/Allocation/AllocationUtils.hpp
index 23aa7ab..370747f 100644
--- a/include/etr_bits/Allocation/AllocationUtils.hpp
+++ b/include/etr_bits/Allocation/AllocationUtils.hpp
@@ -19,22 +19,28 @@ In Operation also Rvecs are included
 
 namespace etr {
 
-template <typename T> inline std::size_t convertSize(const T &inp) {
+template <typename T>
+inline std::size_t
+convertSize(const T &inp, const char *tooLarge = "invalid times argument") {
   if constexpr (std::is_same_v<T, std::size_t>) {
     ass(inp >= 1, "invalid times argument");
+    ass(inp <= maxSize, tooLarge);
     return inp;
   } else if constexpr (std::is_floating_point_v<T>) {
     warn(isDoubleInt(inp),
          "The provided size is a floating-point number with non-zero decimal "
          "places. It has been floored to the nearest integer.");
     ass(inp >= 1.0, "invalid times argument");
+    ass(inp <= static_cast<double>(maxSize), tooLarge);
     return static_cast<std::size_t>(inp);
   } else if constexpr (std::is_integral_v<T>) {
     ass(inp >= 1, "invalid times argument");
+    ass(static_cast<std::size_t>(inp) <= maxSize, tooLarge);
     return static_cast<std::size_t>(inp);
   } else if constexpr (IsVecRorCalc<T>) { // TODO: check does this really
                                           // work for normal l vectors?
     ass(inp.size() == 1 && inp[0] >= 1, "invalid times argument");
+    ass(inp[0] <= maxSize, tooLarge);
     return static_cast<std::size_t>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in rep");
@@ -49,7 +55,7 @@ template <typename T> inline auto createLVec(T s) {
 }
 
 template <typename T, typename VecType = BaseType> inline auto createRVec(T s) {
-  std::size_t size = convertSize(s);
+  std::size_t size = convertSize(s, "invalid length argument");
   ass(size > 0, "invalid length argument");
   return Vec<VecType, Buffer<BaseType, BufferTrait, RBufTrait>, RVecTrait>(
       SI{size});
diff --git a/include/etr_bits/Allocation/Rep.hpp b/include/etr_bits/Allocation/Rep.hpp
index c618b3b..6c75198 100644
--- a/include/etr_bits/Allocation/Rep.hpp
+++ b/include/etr_bits/Allocation/Rep.hpp
@@ -30,7 +30,7 @@ inline auto repInternal(const L *inp, const R *s) {
     ret.fill(*inp);
     return ret;
   } else if constexpr (!std::is_arithmetic_v<L> && std::is_arithmetic_v<R>) {
-    std::size_t length = convertSize(*s) * inp->size();
+    std::size_t length = productSize(convertSize(*s), inp->size());
     using DataType = ExtractDataType<L>::RetType;
     Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
         SI{length});
@@ -54,7 +54,7 @@ inline auto repInternal(const L *inp, const R *s) {
     warn(!(s->size() > 1),
          "times in fct rep has more than one element. Only the "
          "first one is used");
-    std::size_t length = convertSize((*s)[0]) * inp->size();
+    std::size_t length = productSize(convertSize((*s)[0]), inp->size());
     using DataType = ExtractDataType<L>::RetType;
     Vec<DataType, Buffer<DataType, BufferTrait, RBufTrait>, RVecTrait> ret(
         SI{length});
diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 56f7c04..4de3027 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -104,6 +104,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   BaseStore(std::size_t sz_)
       : sz(sz_), capacity(static_cast<std::size_t>(sz_ * 1.15)) {
     ass(sz_ > 0, "Size has to be larger than 0");
+    ass(sz_ <= maxSize, "Size is too large");
     p = new T[capacity];
     for (std::size_t i = 0; i < capacity; i++) {
       p[i] = T();
@@ -262,6 +263,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void init(std::size_t size) {
     // NOTE: nothing is changed if the allocation fails
+    ass(size <= maxSize, "Size is too large");
     T *temp = new T[static_cast<std::size_t>(1.15 * size)];
     if (allocated) {
       delete[] p;
diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 7e40a14..6c5d4ae 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -64,6 +64,15 @@ inline void ass(bool inp, std::string message) {
 #endif
 }
 
+// NOTE: more elements can not be allocated. Without this limit the number of
+// elements, the capacity or the number of bytes wraps around
+inline constexpr std::size_t maxSize =
+    std::numeric_limits<std::size_t>::max() / 32;
+inline std::size_t productSize(std::size_t a, std::size_t b) {
+  ass(b == 0 || a <= maxSize / b, "Size is too large");
+  return a * b;
+}
+
 // NOTE: nothing can be recycled if there is no element
 inline std::size_t recycle(std::size_t idx, std::size_t size) {
   if (size == 0)
diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index d418078..5a5b83c 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -115,11 +115,11 @@ Vec(Rboolean b) : d(1) { d[0] = static_cast<T>(b); }
 explicit Vec() : d() {}
 
 // NOTE: matrix constructors
-explicit Vec(std::size_t rows, std::size_t cols) : d(rows * cols) {
+explicit Vec(std::size_t rows, std::size_t cols) : d(productSize(rows, cols)) {
   d.setMatrix(true, rows, cols);
 }
 explicit Vec(std::size_t rows, std::size_t cols, const double value)
-    : d(rows * cols) {
+    : d(productSize(rows, cols)) {
   d.setMatrix(true, rows, cols);
   d.fill(value);
 }
@@ -216,7 +216,8 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
     d.setMatrix(false, 0, 0);
   }
 }
-Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
+Vec(BaseType *ptr, std::size_t rows, std::size_t cols)
+    : d(productSize(rows, cols)) {
   if constexpr (isBorrow::value) {
     d.init(ptr, rows * cols);
   } else {
-- 
2.43.0


From 72a9db5e3078ba3e8bffa0a40654ec3078e1845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 71/73] fix: vector_integer and vector_logical returned numeric
 vectors

---
 include/etr_bits/Allocation/AllocationUtils.hpp |  8 +++++---
 include/etr_bits/Allocation/Vector.hpp          | 16 ++++++++--------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/etr_bits/Allocation/AllocationUtils.hpp b/include/etr_bits/Allocation/AllocationUtils.hpp
index 370747f..d577f92 100644
--- a/include/etr_bits/Allocation/AllocationUtils.hpp
+++ b/include/etr_bits/Allocation/AllocationUtils.hpp
@@ -54,10 +54,12 @@ template <typename T> inline auto createLVec(T s) {
       SI{size});
 }
 
-template <typename T, typename VecType = BaseType> inline auto createRVec(T s) {
-  std::size_t size = convertSize(s, "invalid length argument");
+template <typename VecType, typename T> inline auto createRVec(T s) {
+  std::size_t size =
+      convertSize(s, std::is_same_v<VecType, BaseType> ? "invalid length argument"
+                                                       : "invalid times argument");
   ass(size > 0, "invalid length argument");
-  return Vec<VecType, Buffer<BaseType, BufferTrait, RBufTrait>, RVecTrait>(
+  return Vec<VecType, Buffer<VecType, BufferTrait, RBufTrait>, RVecTrait>(
       SI{size});
 }
 
diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 90b18ea..cb47fe2 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -39,14 +39,14 @@ template <typename T> inline auto vector_integer(T &inp) {
 
 template <typename T> inline auto vector_logical(const T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<bool>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<bool>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<bool>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<bool>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<int>(inp);
+    return createRVec<bool>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<bool>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<int>(inp);
+    return createRVec<bool>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<int>(inp[0]);
+    return createRVec<bool>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From f2c9dbfbe5428ad63be1b93ad8852825bd1d9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:10 +0000
Subject: [PATCH 72/73] fix: the effort of evaluating a calculation doubled
 with each operation

---
 include/etr_bits/BinaryCalculations.hpp     | 15 +++++++++------
 include/etr_bits/Derivatives/DerivTypes.hpp |  6 ++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b1073c0..7e33ba5 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -52,7 +52,9 @@ struct BinaryOperation {
       return 0;
     } else {
       if (l.im() && r.im()) {
-        return (l.nc() > r.nc()) ? l.nc() : r.nc();
+        // NOTE: the sizes of the operands are determined only once. Otherwise,
+        // the effort doubles with each further operation
+        return std::max<std::size_t>(l.nc(), r.nc());
       } else if (!l.im() && r.im()) {
         return r.nc();
       } else if (l.im() && !r.im()) {
@@ -73,7 +75,7 @@ struct BinaryOperation {
       return 0;
     } else {
       if (l.im() && r.im()) {
-        return (l.nr() > r.nr()) ? l.nr() : r.nr();
+        return std::max<std::size_t>(l.nr(), r.nr());
       } else if (!l.im() && r.im()) {
         return r.nr();
       } else if (l.im() && !r.im()) {
@@ -115,9 +117,11 @@ struct BinaryOperation {
     } else if constexpr (isDoubleL && !isDoubleR) {
       return r.size();
     } else if constexpr (!isDoubleL && !isDoubleR) {
-      if (l.size() == 0 || r.size() == 0) // NOTE: nothing can be recycled
+      const std::size_t sizeL = l.size();
+      const std::size_t sizeR = r.size();
+      if (sizeL == 0 || sizeR == 0) // NOTE: nothing can be recycled
         return 0;
-      return l.size() > r.size() ? l.size() : r.size();
+      return sizeL > sizeR ? sizeL : sizeR;
     }
   }
 
@@ -134,8 +138,7 @@ struct BinaryOperation {
   template <typename AV> static std::size_t getSize(AV &av) {
     using TyL = typename std::remove_reference<typeTraitL>::type;
     using TyR = typename std::remove_reference<typeTraitR>::type;
-    return TyL::getSize(av) > TyR::getSize(av) ? TyL::getSize(av)
-                                               : TyR::getSize(av);
+    return std::max<std::size_t>(TyL::getSize(av), TyR::getSize(av));
   }
   template <typename AV>
   static RetType getVal(AV &av,
diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 9716d9d..9545af8 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -18,8 +18,7 @@ struct QuarternyType {
   using Op = OpTrait;
 
   template <typename AV> static std::size_t getSize(AV &av) {
-    return LDeriv::getSize(av) > RDeriv::getSize(av) ? LDeriv::getSize(av)
-                                                     : RDeriv::getSize(av);
+    return std::max<std::size_t>(LDeriv::getSize(av), RDeriv::getSize(av));
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
@@ -46,8 +45,7 @@ struct BinaryType {
   using TypeTrait = Trait;
   using Op = OpTrait;
   template <typename AV> static std::size_t getSize(AV &av) {
-    return LDeriv::getSize(av) > RDeriv::getSize(av) ? LDeriv::getSize(av)
-                                                     : RDeriv::getSize(av);
+    return std::max<std::size_t>(LDeriv::getSize(av), RDeriv::getSize(av));
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
     return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)), RDeriv::getVal(av, idx % RDeriv::getSize(av)));
-- 
2.43.0


From 541f4bb36fceaacffa2f206e081153c87c94a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 73/73] fix: growing beyond 2^31 elements went wrong because
 sizes were integers

---
 include/etr_bits/Core/BaseStore.hpp  | 7 ++++---
 include/etr_bits/Core/BorrowSEXP.hpp | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 4de3027..9a04699 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -326,9 +326,10 @@ template <typename T, typename BaseTrait> struct BaseStore {
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
+    ass(new_size <= maxSize, "Size is too large");
     T *temp;
-    temp = new T[static_cast<int>(new_size * 1.15)];
-    capacity = static_cast<int>(new_size * 1.15);
+    temp = new T[static_cast<std::size_t>(new_size * 1.15)];
+    capacity = static_cast<std::size_t>(new_size * 1.15);
     if (new_size < sz)
       sz = new_size;
     for (std::size_t i = 0; i < sz; i++)
@@ -347,7 +348,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   void push_back(T input) {
     if (sz == capacity) {
-      int szOld = sz;
+      std::size_t szOld = sz;
       if (sz == 0) {
         realloc(1);
       } else if (sz > 0) {
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index ed498eb..bb1822f 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -145,12 +145,12 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   auto end() const { return It<T>{p + sz}; }
   T &back() { return p[sz - 1]; }
   T *data() const { return p; }
-  void realloc(int new_size) {
+  void realloc(std::size_t new_size) {
     if (new_size <= sz) {
       return;
     }
-    T *temp = new T[static_cast<int>(new_size * 1.15)];
-    capacity = static_cast<int>(new_size * 1.15);
+    T *temp = new T[static_cast<std::size_t>(new_size * 1.15)];
+    capacity = static_cast<std::size_t>(new_size * 1.15);
     for (std::size_t i = 0; i < sz; i++)
       temp[i] = p[i];
     for (std::size_t i = sz; i < new_size; i++)
-- 
2.43.0

