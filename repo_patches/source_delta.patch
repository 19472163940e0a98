From 97779489be4798bee553e05c56d9aa0939781840 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:14:58 +0000
Subject: [PATCH 01/29] fix: IntegerTraits<int64_t>::log2Mod counts leading
 zeros on 64 bits

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 1ecae4ae36911d1929a1131dc75dc0954526f8ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:14:58 +0000
Subject: [PATCH 02/29] fix: FloatTraits<double> has 11 exponent bits

---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..81a61e6 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From 0f9e126a5d5da6618d9ca41f8311ebceab7ec63a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:22:02 +0000
Subject: [PATCH 03/29] fix: intervalPow2Int computes mask and midpoint in the
 unsigned type of full width

---
 common/include/rofl/common/morton_sort.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..552ab77 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -87,7 +87,8 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     using IT = IntegerTraits<I>;
     using IntegerType = typename IT::IntegerType;
     using UnsignedType = typename IT::UnsignedType;
-    IntegerType level, intervMask;
+    IntegerType level;
+    UnsignedType intervMask;
 
     // When i1 and i2 have different signs (their most significant bits are
     // different), then the most significant bit of i1^i2 is equal to 1,
@@ -112,10 +113,10 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
     if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+        intervMask = ((UnsignedType)1 << level) - 1;
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        mid = (level > 0 ? low | ((UnsignedType)1 << (level - 1)) : low);
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
@@ -125,10 +126,9 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         // ROFL_MSG("mid         " << std::bitset<IT::BIT_NUM>(mid));
         // ROFL_MSG("upp         " << std::bitset<IT::BIT_NUM>(upp));
     } else {
-        intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = (UnsignedType)low + ((UnsignedType)1 << (IT::BIT_NUM - 1));
     }
     return (int)level;
 }
-- 
2.43.0


From 09091cf20d35baec15d574191b2c43fbf5bfde4e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:46:09 +0000
Subject: [PATCH 04/29] fix: Morton order of floating point vectors is a strict
 weak order

xorFloat truncated the lower magnitude before negating it, so that the order of
negative vectors was not transitive near powers of two; +0 and -0 were handled
as values with different sign; equal values compared more significant than
values differing by less than 2^-127.
---
 common/include/rofl/common/morton_sort.h | 33 +++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 552ab77..305c810 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -154,8 +154,16 @@ F xorFloat(const F& fin1,
         f2 = fin1;
     }
 
-    FT::decompose(f1, fm1, fe1, fs1);
-    FT::decompose(f2, fm2, fe2, fs2);
+    // Equal values (including +0 and -0) have no different bit: their
+    // exponent is lower than the one of any pair of different values.
+    if (f1 == f2) {
+        mantissaDiff = 0;
+        exponentDiff = FT::EXPONENT_MIN - FT::BIT_NUM;
+        return 0;
+    }
+
+    fs1 = (f1 < 0);
+    fs2 = (f2 < 0);
 
     // If the input numbers have different signs, then the returned value
     // is the infinity.
@@ -170,6 +178,16 @@ F xorFloat(const F& fin1,
         return FT::compose(mantissaDiff, exponentDiff, false);
     }
 
+    // Two's complement on infinite binary expansions: the bits of -x are the
+    // complement of the bits of the value immediately lower than x
+    if (fs1) {
+        f1 = std::nextafter(f1, (F)0);
+        f2 = std::nextafter(f2, (F)0);
+    }
+    bool unused;
+    FT::decompose(f1, fm1, fe1, unused);
+    FT::decompose(f2, fm2, fe2, unused);
+
     // Adding the implicit most significant bit to the two mantissas
     fm1 = fm1 | FT::MANTISSA_IMPLICIT_BIT;
     if (fe1 < fe2 + FT::BIT_NUM) {
@@ -177,17 +195,8 @@ F xorFloat(const F& fin1,
     } else {
         fm2 = 0;
     }
-    // Changes the mantissas sign, if f1 and f2 are both negatives
-    if (fs1) {
-        fm1 = -fm1;
-        fm2 = -fm2;
-    }
     mantissaDiff = fm1 ^ fm2;
 
-    if (mantissaDiff == 0) {
-        exponentDiff = -FT::EXPONENT_BIAS;
-        return FT::compose(mantissaDiff, exponentDiff, false);
-    }
     msbPos = FT::MANTISSA_BITS - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
     exponentDiff = fe1 - msbPos;
     mantissaDiff = (mantissaDiff << msbPos) & FT::MANTISSA_MASK;
@@ -390,7 +399,7 @@ bool mortonCmpFloat(const F* v1, const F* v2) {
     lastXor = xorFloat(v1[0], v2[0], lastMantissa, lastExponent);
     for (int d = 1; d < Dim; ++d) {
         currXor = xorFloat(v1[d], v2[d], currMantissa, currExponent);
-        if (lastXor < currXor && lastExponent < currExponent) {
+        if (lastExponent < currExponent) {
             lastDim = d;
             lastExponent = currExponent;
             lastXor = currXor;
-- 
2.43.0


From 93672ca1b3121cffc5e0a4a81f012b5a1bc1bd82 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 05/29] fix: intervalPow2Float handles equal values, zeros of
 both signs and double mantissas

---
 common/include/rofl/common/morton_sort.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 305c810..c50affe 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -240,6 +240,10 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     FT::decompose(fin1, fm1, fe1, fs1);
     FT::decompose(fin2, fm2, fe2, fs2);
 
+    // Zeros belong to the non negative values whatever their sign bit
+    fs1 = (fin1 < 0);
+    fs2 = (fin2 < 0);
+
     // If signs are different, the tree containing the two items
     // spans the whole floating point range
     if (fs1 ^ fs2) {
@@ -251,7 +255,7 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     }
 
     // Arranges the input floating s.t. fabs(f1) < fabs(f2)
-    f2 = fin1;
+    f1 = fin1;
     f2 = fin2;
     if (fe1 > fe2 || (fe1 == fe2 && fm1 > fm2)) {
         std::swap(fm1, fm2);
@@ -272,10 +276,10 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
         level = IT::BIT_NUM - IT::nlz(fm2);
     }
     ROFL_VAR4(fe1, fe2, fe12, level);
-    intervMask = (1 << level) - 1;
+    intervMask = ((IntegerType)1 << level) - 1;
     mlow = fm2 & (~intervMask);
     mupp = (mlow | intervMask);
-    mmid = mlow | (1 << (level - 1));
+    mmid = (level > 0 ? mlow | ((IntegerType)1 << (level - 1)) : mlow);
     if (mlow != 0) {
         low = FT::compose(mlow ^ FT::MANTISSA_IMPLICIT_BIT, fe2, fs2);
     } else {
@@ -294,7 +298,12 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     if (fs2) {
         std::swap(low, upp);
     }
-    level = fe2 + level - FT::MANTISSA_BITS;
+    // Equal values: the level is lower than the one of any different values
+    if (level == 0) {
+        level = FT::EXPONENT_MIN - FT::BIT_NUM;
+    } else {
+        level = fe2 + level - FT::MANTISSA_BITS;
+    }
     // ROFL_MSG("intervMask  " << std::bitset<FT::BIT_NUM>(intervMask));
     // ROFL_MSG("mlow        " << std::bitset<FT::BIT_NUM>(mlow) << "  " << low);
     // ROFL_MSG("     ->     " << std::bitset<FT::BIT_NUM>(FT::toInt(low)));
-- 
2.43.0


From 31bfb83a027b9d9909da226071e3b4e0f2fb173a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:41:42 +0000
Subject: [PATCH 06/29] fix: MinMaxHeap trickle-down stops after a child swap;
 nextTop/nextBottom return the second extremes

---
 common/include/rofl/common/min_max_heap.h | 26 +++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..293983f 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -133,18 +133,36 @@ namespace rofl {
             } else if (data_.size() < 4) {
                 return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                size_t ichild = childMin(0);
+                size_t igrand = grandchildMin(0);
+                return (cmp_(data_[ichild], data_[igrand]) ? data_[ichild] : data_[igrand]);
             }
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // The second maximum is either the other child of the root or
+                // a child or grandchild of the maximum.
+                size_t imax = childMax(0);
+                size_t inext = (imax == childLeft(0) ? childRight(0) : childLeft(0));
+                if (hasChildren(imax)) {
+                    size_t ichild = childMax(imax);
+                    if (cmp_(data_[inext], data_[ichild])) {
+                        inext = ichild;
+                    }
+                }
+                if (hasGrandchildren(imax)) {
+                    size_t igrand = grandchildMax(imax);
+                    if (cmp_(data_[inext], data_[igrand])) {
+                        inext = igrand;
+                    }
+                }
+                return data_[inext];
             }
         }
 
@@ -368,7 +386,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From 2e0d3ffe28770c5fd11df7c4b91a496d782e54e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:41:42 +0000
Subject: [PATCH 07/29] fix: DisjointSet counts sets created by makeSet and
 rejects invalid ids in join and size

---
 common/include/rofl/common/disjoint_set.h | 1 +
 common/src/disjoint_set.cpp               | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..a27734d 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,7 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root == (id_type) nodes_.size()) return 0;
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..2cd3376 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
@@ -75,6 +76,8 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
+        // If n1 or n2 is not a valid id, there is no set to join
+        if (root1 == (id_type) nodes_.size() || root2 == (id_type) nodes_.size()) return nodes_.size();
         // If n1 and n2 are already in the same set, there is no join to do
         if (root1 == root2) return nodes_.size();
 
-- 
2.43.0


From 5d043b192b478ca82c99638fa4dc3371201b8272 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:41:42 +0000
Subject: [PATCH 08/29] fix: MortonTree keeps the user id of inserted items and
 searchInBox returns the items in the box

---
 common/include/rofl/common/morton_tree.h | 71 +++++++-----------------
 1 file changed, 21 insertions(+), 50 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..d9f6f78 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -173,8 +173,7 @@ class MortonTree {
      * the insertion order into the tree.
      */
     void insert(const Item& item, bool resetId = true) {
-        Item itemCopy;
-        std::copy(item.values, item.values + Dim, itemCopy.values);
+        Item itemCopy = item;
         if (resetId) {
             itemCopy.id = items_.size();
         }
@@ -254,61 +253,33 @@ class MortonTree {
         ordered_ = true;
     }
 
+    /**
+     * @brief Finds all the items inside the box with the given opposite
+     * vertices (the border of the box is included).
+     *
+     * @param boxMin the vertex with minimum coordinates
+     * @param boxMax the vertex with maximum coordinates
+     * @param items the iterators to the items in the box are appended here
+     */
     void searchInBox(const Item& boxMin, const Item& boxMax, std::vector<ConstIterator>& items) {
-        using TreeIntervalQueue = std::deque<TreeInterval>;
-        TreeIntervalQueue queue;
-        TreeInterval cur, low, upp;
-        ConstIterator itLow, itMid, itUpp;
+        ConstIterator first, last;
 
         if (!ordered_) {
             sort();
         }
 
-        ROFL_VAR2(boxMin.toString(), boxMax.toString());
-
-        for (auto it = std::begin(items_); it != std::end(items_); ++it) {
-            ROFL_VAR3(it->toString(), compareItems(*it, boxMin), compareItems(*it, boxMax));
-        }
-        cur.first = std::upper_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
-        cur.second = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
-        queue.push_back(cur);
-
-        ROFL_MSG("initial interval " << cur.first->toString() << " : " << cur.second->toString());
-
-        int count = 0;
-        while (!queue.empty() && count < 10) {
-            cur = queue.back();
-            queue.pop_back();
-            std::cout << "\n---\nEXPLORING " << printInter(cur) << std::endl;
-            findTreeBucket(cur.first, cur.second, itLow, itMid, itUpp);
-            ROFL_MSG("splitting\n"
-                     << "  low " << printIt(itLow)
-                     << "  mid " << printIt(itMid)
-                     << "  upp " << printIt(itUpp));
-            if (cur.first == itLow && cur.second == itUpp) {
-                for (auto it = itLow; it != itUpp; ++it) {
-                    items.push_back(it);
-                }
-            } else {
-                low.first = cur.first;
-                low.second = itMid;
-                upp.first = itMid;
-                upp.second = cur.second;
-                // ROFL_VAR2(printInter(low), printInter(upp));
-                if (low.first != low.second) {
-                    ROFL_MSG("added LOW interval: " << printInter(low));
-                    queue.push_back(low);
-                } else {
-                    ROFL_MSG("discarted LOW interval: " << printInter(low));
-                }
-                if (upp.first != upp.second) {
-                    ROFL_MSG("added UPP interval: " << printInter(upp));
-                    queue.push_back(upp);
-                } else {
-                    ROFL_MSG("discarted UPP interval: " << printInter(upp));
-                }
+        // Morton order is monotone: all the items in the box are between the
+        // two vertices boxMin and boxMax.
+        first = std::lower_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
+        last = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
+        for (auto it = first; it < last; ++it) {
+            bool inside = true;
+            for (size_t d = 0; d < Dim && inside; ++d) {
+                inside = boxMin.values[d] <= it->values[d] && it->values[d] <= boxMax.values[d];
+            }
+            if (inside) {
+                items.push_back(it);
             }
-            count++;
         }
     }
 
-- 
2.43.0


From 1dfeb62dcc4753ff4278386a2bc61eee60f28889 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:44:29 +0000
Subject: [PATCH 09/29] fix: boustrophedon order moves to an adjacent cell at
 every step in any dimension

---
 common/include/rofl/common/interval_indices.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..5925213 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -139,15 +139,9 @@ namespace rofl {
                 for (int d = 0; d < Dim; ++d) {
                     indices[d] = res % dimensions[d];
                     res = res / dimensions[d];
-                }
-                Index odd = 0;
-                for (int d = Dim - 1; d >= 0; --d) {
-                    //ROFL_VAR3(d, indices[d], odd);
-                    if (odd) {
-                        odd = indices[d] % 2;
+                    // res is the number of completed scans of dimension d: odd scans are backward
+                    if (res % 2) {
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
                     indices[d] += minval[d];
                 }
-- 
2.43.0


From bc6f64fad8e6601c6ff0a5229d1c83108b8baf33 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:44:51 +0000
Subject: [PATCH 10/29] fix: LabelSet comparison takes the size of the sets
 into account

---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..5e0d2dd 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ == ls.labels_;
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return labels_ != ls.labels_;
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From c211b8ffe51d3fb584b981abaefa37df33d1f11c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 09:44:51 +0000
Subject: [PATCH 11/29] fix: VectorArray operators assign each component;
 difference subtracts

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From af35ecbd76ac164792adc2e521b11bae25e14362 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 10:10:40 +0000
Subject: [PATCH 12/29] fix: PeakFinderD tests every cell against exactly the
 other cells of its window

---
 common/include/rofl/common/peak_finder_d.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..6d42f3b 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -148,7 +148,6 @@ namespace rofl {
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
             indicesPrev = *domainIt;
-            ++domainIt;
 
             // Moves the window on each cell of domain in boustrophedon order
             for (; domainIt != domainEnd; ++domainIt) {
@@ -173,15 +172,20 @@ namespace rofl {
                 //   !comp_(map(windowItems.top()), map(*domainIt))) -> map(*domainIt) >= map(windowItems.top()
                 if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
                     if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
-                        //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
+                        // Extracts the current cell, which may be stored more than once, and the items outside 
+                        // the window to find the best among the other cells of the window
+                        bool popped = false;
+                        while (!windowItems.empty() && (windowItems.top() == *domainIt || !windowInterval.inside(windowItems.top()))) {
+                            popped = popped || (windowItems.top() == *domainIt);
+                            windowItems.popTop();
+                        }
+                        if (windowItems.empty() || comp_(map(*domainIt), map(windowItems.top()))) {
                             //insertMax = *domainIt;
                             maxima.push(*domainIt);
                         }
-                        //windowItems.push(curTop);
+                        if (popped) {
+                            windowItems.push(*domainIt);
+                        }
                     }
                 }
                 indicesPrev = *domainIt;
-- 
2.43.0


From 8dc2244a30614b92cfd151e19394eca0158edced Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:31:21 +0000
Subject: [PATCH 13/29] fix: evaluatePnebiVector starts the back recursion from
 an order adequate to the argument

---
 common/src/functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..6dc711a 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -181,7 +181,9 @@ namespace rofl {
         seqPrev = 0.0; // bip
         seqCurr = 1.0; // bi
         seqNext = 0.0; // bim
-        for (int k = 2 * (n + (int) sqrt(40.0 * n)); k >= 0; --k) {
+        // The recursion must start from an order whose value is negligible w.r.t. order 0: 
+        // as BesselI(k,x) / BesselI(0,x) ~= exp(-k^2/(2*x)), the starting order depends also on x. 
+        for (int k = 2 * (n + (int) sqrt(40.0 * n * std::min(std::max(x, 1.0), 1e+6))); k >= 0; --k) {
             seqNext = seqPrev + factor * k * seqCurr;
             seqPrev = seqCurr;
             seqCurr = seqNext;
-- 
2.43.0


From a3e432373875ccb2af1df0697615881c378147f7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:31:21 +0000
Subject: [PATCH 14/29] fix: PnebiLUT::eval accepts the maximum order of the
 table

---
 common/src/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 6dc711a..c2266fb 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -276,7 +276,7 @@ namespace rofl {
 
         // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;
         if (x < 0.0) x = -x;
-        ROFL_ASSERT_VAR2(0 <= k && k < orderMax_, k, orderMax_);
+        ROFL_ASSERT_VAR2(0 <= k && k <= orderMax_, k, orderMax_);
 
         PnebiPoint tmp(0, x);
         auto upper = std::upper_bound(lut_.begin(), lut_.end(), tmp);
-- 
2.43.0


From aad06dc6c399476474dd1c40bba4e0c5cf5ff1b3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 11:31:21 +0000
Subject: [PATCH 15/29] fix: PnebiLUT of order 0 does not read past the stored
 orders

---
 common/src/functions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index c2266fb..95694d6 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -250,13 +250,14 @@ namespace rofl {
         tolerance_ = tol;
         lut_.clear();
         lut_.reserve(lutNum);
-        lut_.push_back(PnebiPoint(n, x));
+        // Order 1 is always computed, since it is required by the derivative of order 0
+        lut_.push_back(PnebiPoint(std::max(n, 1), x));
         deriv = lut_.back().y[1] - lut_.back().y[0]; // Initial value of deriv is -2.0
         y0prev = lut_.back().y[0];
         //  std::cout << "x " << x << ", deriv " << deriv << std::endl;
         for (int i = 1; i < lutNum; ++i) {
             x = x - tol / deriv;
-            lut_.push_back(PnebiPoint(n, x));
+            lut_.push_back(PnebiPoint(std::max(n, 1), x));
             ratio = deriv * (y0prev - lut_.back().y[0]) / tol;
             deriv = std::min(std::max(lut_.back().y[1] - lut_.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
             //            std::cout << "x " << x << ", y[0] " << lut_.back().y[0] << " (incr prev y[0] " << (lut_.back().y[0] - y0prev) << "), "
@@ -317,7 +318,7 @@ namespace rofl {
         std::advance(lower, -1);
 
         if (upper == lut_.end()) {
-            std::copy(lower->y.begin(), lower->y.end(), y.begin());
+            std::copy(lower->y.begin(), lower->y.begin() + orderMax_ + 1, y.begin());
             //evaluatePnebiVector(orderMax_,x,y);
         } else {
             w = (x - lower->x) / (upper->x - lower->x);
-- 
2.43.0


From 34032a7850f414e82d89ddd7bb2c8898c56570d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:10:30 +0000
Subject: [PATCH 16/29] fix: Profiler divides the mean increment by the count
 including the new measure

---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..4d4e120 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -31,7 +31,7 @@ namespace rofl {
         } else {
             // Computes mean value and variance with online Welford’s method 
             double timeAvgOld = it->second.timeAvg;
-            it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
+            it->second.timeAvg += (time - timeAvgOld) / (double) (it->second.count + 1);
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
             if (time < it->second.timeMin) {
                 it->second.timeMin = time;
-- 
2.43.0


From c4424f1439c362c9967ec5158ac845fe56dd2324 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:10:30 +0000
Subject: [PATCH 17/29] fix: Profiler variance is computed from the sum of
 squared deviations

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From 826e0f40d5f46fa7e0c09c9b75cba16df3a9b355 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 12:17:32 +0000
Subject: [PATCH 18/29] fix: local XY conversion scales the longitude by the
 degree length at the latitude of the origin

---
 geometry/src/gis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..2543c84 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -44,12 +44,12 @@ namespace rofl {
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From 9ae52c570c418bb27b834ba9de0bc756cc206b1f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:35:09 +0000
Subject: [PATCH 19/29] fix: adaptTildeInPaths assigns the value in place
 instead of erasing the entry under iteration

---
 common/src/param_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..1d2b1fc 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -140,7 +140,7 @@ namespace rofl {
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
+                it->second = second;
             }
         }
     }
-- 
2.43.0


From 6a7feffff751a90951407ee79986e54593a4f621 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:35:09 +0000
Subject: [PATCH 20/29] fix: adaptTildeInPaths expands paths that contain other
 tildes

---
 common/src/param_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 1d2b1fc..d1fd80a 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -136,7 +136,7 @@ namespace rofl {
             std::string homePath = getenv("HOME");
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            if (second.find("~") == 0)
             {
                 second.replace(0, 2, homePath);
                 std::cout << "second WITHOUT tilde: " << second << std::endl;
-- 
2.43.0


From ed297ea82b962c25d602c25fb8d6d1998dc18a0d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:35:13 +0000
Subject: [PATCH 21/29] fix: adaptTildeInPaths leaves the values unchanged when
 HOME is not set

---
 common/src/param_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index d1fd80a..4073a7e 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -133,7 +133,10 @@ namespace rofl {
             auto first = it->first;
             auto second = it->second;
             // std::cout << "second with tilde: " << second << std::endl;
-            std::string homePath = getenv("HOME");
+            const char* homeEnv = getenv("HOME");
+            if (!homeEnv)
+                return;
+            std::string homePath = homeEnv;
             homePath += "/"; // getenv() return only /home/user -> need to add another
             // std::cout << "homePath " << homePath << std::endl;
             if (second.find("~") == 0)
-- 
2.43.0


From 621ede4c2ba3b24c6b20209cea9a21e547ecf716 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:40:28 +0000
Subject: [PATCH 22/29] fix: getPlaneParam(itheta, iphi, irho) takes the
 minimum rho into account

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..b01e3b8 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From 20775eb173d808728f3cacd28ee0141b961d82fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:40:28 +0000
Subject: [PATCH 23/29] fix: HoughPlaneDetector::insert does not divide by zero
 with less than 8 phi bins

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index b01e3b8..c06c896 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -203,7 +203,7 @@ namespace rofl {
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
             for (indicesAngle[1] = 0; indicesAngle[1] < phiNum_; ++indicesAngle[1]) {
-                if (indicesAngle[1] % phiNotify == 0) {
+                if (phiNotify > 0 && indicesAngle[1] % phiNotify == 0) {
                     ROFL_VAR2(indicesAngle[0], indicesAngle[1]);
                 }
                 ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
-- 
2.43.0


From c13a44bd325c37b9f4b2da70de9503e2b3a1a27f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:41:53 +0000
Subject: [PATCH 24/29] fix: HoughLineDetector::insert computes the Hough
 transform and spectrum of the points

---
 geometry/src/hough_line_detector.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..9d1832a 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -128,7 +128,29 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Indices2 indices;
+
+        // Computes the Hough Transform (HT) by incrementing counting cells
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            const Vector2& normal = normalLut_[indices[0]];
+            for (auto& p : points) {
+                Scalar rho = normal(0) * p(0) + normal(1) * p(1);
+                indices[1] = (int) ((rho - rhoMin_) / rhoRes_);
+                if (0 <= indices[1] && indices[1] < rhoNum_) {
+                    houghTransform_.value(indices)++;
+                }
+            }
+        }
 
+        // Computes Hough Spectrum (HS)
+        for (indices[0] = 0; indices[0] < thetaNum_; ++indices[0]) {
+            Counter& hsVal = houghSpectrum_[indices[0]];
+            hsVal = 0;
+            for (indices[1] = 0; indices[1] < rhoNum_; ++indices[1]) {
+                Counter htVal = houghTransform_.value(indices);
+                hsVal += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From 9f52f982dc08dd2067ed2aa7d6f2d7f80e9c0e7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:52:43 +0000
Subject: [PATCH 25/29] fix: executeBronKerbosch does not remove nodes from the
 set under iteration

---
 geometry/src/correspondence_graph_association.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..4d6ee34 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -192,7 +192,9 @@ namespace rofl {
             return;
         }
 
-        for (auto& n : candidateNodes) {
+        // The candidates change in the loop: visits a copy of the set
+        const LabelSet visitNodes = candidateNodes;
+        for (auto& n : visitNodes) {
             ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
-- 
2.43.0


From caaf2fcec8859d5c145828b980b078cefb615d85 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:52:43 +0000
Subject: [PATCH 26/29] fix: executeBronKerbosch visits the whole graph instead
 of 200 nodes per process

---
 geometry/src/correspondence_graph_association.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 4d6ee34..1b9b163 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -178,14 +178,6 @@ namespace rofl {
     }
 
     void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
-            return;
-        }
-
         if (candidateNodes.empty() && excludedNodes.empty()) {
             //return cliqueCur;
             ROFL_MSG("maximum clique: " << cliqueCur);
-- 
2.43.0


From 47fa40b62064432876b49de8fd54385d10f3e9c9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:52:43 +0000
Subject: [PATCH 27/29] fix: associate returns the maximum cliques of the
 correspondence graph

---
 .../geometry/correspondence_graph_association.h |  2 +-
 .../src/correspondence_graph_association.cpp    | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..0b42676 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -195,7 +195,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const;
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 1b9b163..f3dc347 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -114,7 +114,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -177,10 +178,16 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const {
         if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+            ROFL_MSG("maximal clique: " << cliqueCur);
+            // Keeps only the maximal cliques with the maximum number of nodes
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size()) {
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
@@ -192,7 +199,7 @@ namespace rofl {
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
             ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From e67cfdea9d749563cdf38493cd59e8678d2cfc4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 13:52:43 +0000
Subject: [PATCH 28/29] fix: associate builds the correspondence graph from
 scratch at every call

---
 geometry/src/correspondence_graph_association.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index f3dc347..0292bee 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From ec706880e8be71dd9cfec5082d9688c0802179a4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 14:42:46 +0000
Subject: [PATCH 29/29] fix: registration step in 3D flips the direction of the
 smallest singular value

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..4ab7ee5 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d;
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0

