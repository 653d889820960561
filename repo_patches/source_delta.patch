From bb7dd77ec3d96a141afa3cabd5b91770794f1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 01/77] fix: build functionality of circuits with at most one
 operation recursively

The recursive construction skipped the output permutation and the
ancillary/garbage reduction for a single operation and recursed without end
for an empty circuit.
---
 src/dd/FunctionalityConstruction.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..fdd5c89 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -15,6 +15,7 @@
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <stack>
@@ -120,19 +121,18 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   }
 
   auto permutation = qc.initialLayout;
-
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
-    dd.incRef(e);
-    return e;
+  auto e = Package::makeIdent();
+
+  if (!qc.empty()) {
+    std::stack<MatrixDD> s{};
+    // a single operation is handled by the base case of the recursion
+    const auto depth = std::max<std::size_t>(
+        1U, static_cast<std::size_t>(std::ceil(std::log2(qc.size()))));
+    buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
+    e = s.top();
+    s.pop();
   }
 
-  std::stack<MatrixDD> s{};
-  auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
-  buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
-  auto e = s.top();
-  s.pop();
-
   // correct permutation if necessary
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
-- 
2.43.0


From 7e6c2d7bfc8b6e9445344d3b03f1d07b4ce5dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 02/77] fix: account for the global phase when building a
 circuit's functionality

simulate() applies the circuit's global phase; buildFunctionality() and
buildFunctionalityRecursive() dropped it.
---
 src/dd/FunctionalityConstruction.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index fdd5c89..a5cb6b2 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -17,11 +17,27 @@
 
 #include <algorithm>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <stack>
 #include <utility>
 
 namespace dd {
+namespace {
+void applyGlobalPhase(MatrixDD& e, const qc::QuantumComputation& qc,
+                      Package& dd) {
+  if (std::abs(qc.getGlobalPhase()) > 0) {
+    // create a temporary copy for reference counting
+    const auto oldW = e.w;
+    const auto globalPhase = ComplexValue{std::polar(1.0, qc.getGlobalPhase())};
+    e.w = dd.cn.lookup(e.w * globalPhase);
+    // adjust reference count
+    dd.cn.incRef(e.w);
+    dd.cn.decRef(oldW);
+  }
+}
+} // namespace
+
 MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   if (qc.getNqubits() == 0U) {
     return MatrixDD::one();
@@ -44,6 +60,8 @@ MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  // properly account for the global phase of the circuit
+  applyGlobalPhase(e, qc, dd);
 
   return e;
 }
@@ -137,6 +155,8 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  // properly account for the global phase of the circuit
+  applyGlobalPhase(e, qc, dd);
 
   return e;
 }
-- 
2.43.0


From e0bbde4fdf7273124e6e4a0a1e17b6198608aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 03/77] fix: apply the outcome permutation of
 fidelityOfMeasurementOutcomes bitwise

---
 src/dd/Package.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..ec99673 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -991,12 +991,12 @@ fp Package::fidelityOfMeasurementOutcomesRecursive(
   if (e.isTerminal()) {
     auto idx = i;
     if (!permutation.empty()) {
-      const auto binaryString = intToBinaryString(i, nQubits);
-      std::string filteredString(permutation.size(), '0');
+      idx = 0U;
       for (const auto& [physical, logical] : permutation) {
-        filteredString[logical] = binaryString[physical];
+        if ((i & (1ULL << physical)) != 0U) {
+          idx |= 1ULL << logical;
+        }
       }
-      idx = std::stoull(filteredString, nullptr, 2);
     }
     if (auto it = probs.find(idx); it != probs.end()) {
       return top * std::sqrt(it->second);
-- 
2.43.0


From f243541cc7fff24695afd7828a04b3030fdf9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 04/77] fix: shift matrix Kronecker products by the given
 number of qubits

The height of the lower operand was taken from its root node, which is wrong
when the lower operand skips levels on top, and cached results were reused for
a different shift.
---
 include/mqt-core/dd/Package.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..70f94ee 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,9 +1457,24 @@ private:
       }
     }
 
+    // Increase the qubit index
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      // matrix DDs may skip levels on top, so that the index has to be
+      // increased by the given number of qubits
+      if constexpr (std::is_same_v<Node, mNode> ||
+                    std::is_same_v<Node, dNode>) {
+        idx += static_cast<Qubit>(yNumQubits);
+      } else {
+        idx += static_cast<Qubit>(y.p->v + 1U);
+      }
+    }
+
     // check if we already computed the product before and return the result
+    // (the same nodes may have been combined with a different index shift)
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1469,21 +1484,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From 83e74a39392041bd47b160f6643a75acf773ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 05/77] fix: keep level order in partial traces of diagrams
 with skipped levels

---
 include/mqt-core/dd/Package.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 70f94ee..d236a0f 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1577,8 +1577,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1611,9 +1611,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1632,15 +1631,19 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
+    // The remaining qubits move down by the number of eliminated qubits below
+    // them. Levels above may be skipped in the decision diagram.
+    const auto eliminatedBelow = std::count(
+        eliminate.begin(),
+        eliminate.begin() + static_cast<std::vector<bool>::difference_type>(v),
+        true);
     const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+        static_cast<Qubit>(static_cast<std::size_t>(v) -
+                           static_cast<std::size_t>(eliminatedBelow));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From ff3b7b8c9b851f1d8486f692d5bd1eb373e23e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 06/77] fix: keep the size of unary compute tables when
 clearing them

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..89481e5 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid = std::vector(table.size(), false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From 918761bad6e4d9de1a4280258b778af9ae87e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 07/77] fix: do not leak reference counts across a memory
 manager reset

---
 src/dd/MemoryManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..69ea653 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -54,6 +55,9 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     chunks[0].resize(stats.numAllocated * entrySize_);
     ++numAllocations;
   }
+  // previously handed out entries must not leak their state (such as their
+  // reference count) into the entries handed out after the reset
+  std::fill(chunks[0].begin(), chunks[0].end(), std::byte{0});
 
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
-- 
2.43.0


From 57e5dcf0a94e4837e333f80ff89daa584b1b2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 08/77] fix: invalidate all compute tables holding collected
 nodes

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index ec99673..86ebfd9 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
-- 
2.43.0


From d6cda41019a1fde6a5afd88f4074136e49808ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:16 +0000
Subject: [PATCH 09/77] fix: release the operand when reducing an identity

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 86ebfd9..dac5210 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1145,6 +1145,7 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
@@ -1226,6 +1227,7 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
-- 
2.43.0


From 22ea4052b475e5a3ada8ce3df490c0708ce9a667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 10/77] fix: insert numbers near bucket borders on the right
 side of the bucket

---
 src/dd/RealNumberUniqueTable.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..d0196c8 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -134,11 +134,12 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
 
   // Since no match was found, a new value needs to be added
   // Depending on which border of the bucket the value lies, a value either
-  // needs to be inserted in the front or the back of the bucket.
+  // needs to be inserted in the front or the back of the bucket. If the value
+  // belongs to the lower bucket, it lies at the upper border of that bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From 16c5c2e633d3418ed140116cfb9462a29544535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 11/77] fix: sample every measured bit when qubits or bits are
 measured repeatedly

---
 src/dd/Simulation.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..0a7ca64 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,8 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  // maps each measured classical bit to the (last) qubit measured into it
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +65,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit)
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +74,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -133,7 +134,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       if (hasMeasurements) {
         // if the circuit contains measurements, we only want to return the
         // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
+        for (const auto& [bit, qubit] : measurementMap) {
           // measurement map specifies that the circuit `qubit` is measured into
           // a certain `bit`
           measurement[numBits - 1U - bit] =
-- 
2.43.0


From 8e4c036ac961152adf670e8f8fa7414accfe38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 12/77] fix: lay out samples of unmeasured circuits by the
 output permutation

---
 src/dd/Simulation.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 0a7ca64..649f377 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -127,8 +127,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     dd.decRef(e);
 
     std::map<std::string, std::size_t> actualCounts{};
-    const auto numBits =
-        qc.getClassicalRegisters().empty() ? qc.getNqubits() : qc.getNcbits();
+    const auto numBits = hasMeasurements ? qc.getNcbits() : qc.getNqubits();
     for (const auto& [bitstring, count] : counts) {
       std::string measurement(numBits, '0');
       if (hasMeasurements) {
@@ -141,11 +140,11 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
               bitstring[bitstring.size() - 1U - qc.outputPermutation.at(qubit)];
         }
       } else {
-        // otherwise, we consider the output permutation for determining where
-        // to measure the qubits to
+        // otherwise, all qubits are measured according to the output
+        // permutation, which has already been applied to the state
         for (const auto& [qubit, bit] : qc.outputPermutation) {
           measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
+              bitstring[bitstring.size() - 1U - bit];
         }
       }
       actualCounts[measurement] += count;
-- 
2.43.0


From cae235763fb8de1391efef092c3c1dd69ae7ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 13/77] fix: sample the operations inside of compound
 operations individually

---
 src/dd/Simulation.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 649f377..c3dd06e 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -15,8 +15,10 @@
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/ClassicControlledOperation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/NonUnitaryOperation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <array>
@@ -31,6 +33,19 @@
 #include <vector>
 
 namespace dd {
+namespace {
+void flatten(const qc::Operation& op, std::vector<const qc::Operation*>& ops) {
+  if (op.isCompoundOperation()) {
+    for (const auto& operation :
+         dynamic_cast<const qc::CompoundOperation&>(op)) {
+      flatten(*operation, ops);
+    }
+    return;
+  }
+  ops.emplace_back(&op);
+}
+} // namespace
+
 std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
                                           const VectorDD& in, Package& dd,
                                           const std::size_t shots,
@@ -56,8 +71,16 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
   // maps each measured classical bit to the (last) qubit measured into it
   std::map<std::size_t, qc::Qubit> measurementMap{};
 
-  // rudimentary check whether circuit is dynamic
+  // compound operations may contain non-unitary operations, so that their
+  // operations need to be considered individually
+  std::vector<const qc::Operation*> ops{};
+  ops.reserve(qc.getNops());
   for (const auto& op : qc) {
+    flatten(*op, ops);
+  }
+
+  // rudimentary check whether circuit is dynamic
+  for (const auto* op : ops) {
     // if it contains any dynamic circuit primitives, it certainly is dynamic
     if (op->isClassicControlledOperation() || op->getType() == qc::Reset) {
       isDynamicCircuit = true;
@@ -66,7 +89,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
 
     // once a measurement is encountered we store the corresponding mapping
     // (bit -> qubit)
-    if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
+    if (const auto* measure = dynamic_cast<const qc::NonUnitaryOperation*>(op);
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
 
@@ -96,7 +119,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     auto permutation = qc.initialLayout;
     auto e = in;
 
-    for (const auto& op : qc) {
+    for (const auto* op : ops) {
       // simply skip any non-unitary
       if (!op->isUnitary()) {
         continue;
@@ -160,7 +183,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     auto permutation = qc.initialLayout;
     auto e = in;
     dd.incRef(e);
-    for (const auto& op : qc) {
+    for (const auto* op : ops) {
       if (op->isUnitary()) {
         // SWAP gates can be executed virtually by changing the permutation
         if (op->getType() == qc::OpType::SWAP && !op->isControlled()) {
-- 
2.43.0


From eb30689271cd184fd4a60519f316798cadbeb1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 14/77] fix: transfer decision diagrams with shared successors
 and of a single level

The traversal read from an empty stack for nodes of the lowest level and lost
successors that had been transferred in the meantime.
---
 include/mqt-core/dd/Package.hpp | 81 +++++++--------------------------
 1 file changed, 16 insertions(+), 65 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index d236a0f..29b7d78 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1786,75 +1786,26 @@ public:
       return {original.p, cn.lookup(original.w)};
     }
 
-    // POST ORDER TRAVERSAL USING ONE STACK
-    // https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
-    Edge<Node> root{};
-    std::stack<Edge<Node>*> stack;
-
-    std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
-
-    Edge<Node>* currentEdge = &original;
-    constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-do-while)
-    do {
-      while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-        for (std::size_t i = n - 1; i > 0; --i) {
-          auto& edge = currentEdge->p->e[i];
-          if (edge.isTerminal()) {
-            continue;
-          }
-          if (edge.w.approximatelyZero()) {
-            continue;
-          }
-          if (mappedNode.find(edge.p) != mappedNode.end()) {
-            continue;
-          }
-
-          // non-zero edge to be included
-          stack.push(&edge);
-        }
-        stack.push(currentEdge);
-        currentEdge = &currentEdge->p->e[0];
-      }
-      currentEdge = stack.top();
-      stack.pop();
-
-      bool hasChild = false;
-      for (std::size_t i = 1; i < n && !hasChild; ++i) {
-        auto& edge = currentEdge->p->e[i];
-        if (edge.w.approximatelyZero()) {
+    // nodes are created bottom-up, each of them once
+    std::unordered_map<Node*, Node*> mappedNode{};
+    const auto transferNode = [&](const auto& self, Node* node) -> Edge<Node> {
+      std::array<Edge<Node>, std::tuple_size_v<decltype(node->e)>> edges{};
+      for (std::size_t i = 0; i < edges.size(); ++i) {
+        const auto& edge = node->e[i];
+        edges[i] = {edge.p, cn.lookup(edge.w)};
+        if (edge.isTerminal()) {
           continue;
         }
-        if (mappedNode.find(edge.p) != mappedNode.end()) {
-          continue;
-        }
-        hasChild = edge.p == stack.top()->p;
-      }
-
-      if (hasChild) {
-        Edge<Node>* temp = stack.top();
-        stack.pop();
-        stack.push(currentEdge);
-        currentEdge = temp;
-      } else {
-        if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
-          currentEdge = nullptr;
-          continue;
-        }
-        std::array<Edge<Node>, n> edges{};
-        for (std::size_t i = 0; i < n; i++) {
-          if (currentEdge->p->e[i].isTerminal()) {
-            edges[i].p = currentEdge->p->e[i].p;
-          } else {
-            edges[i].p = mappedNode[currentEdge->p->e[i].p];
-          }
-          edges[i].w = cn.lookup(currentEdge->p->e[i].w);
+        auto it = mappedNode.find(edge.p);
+        if (it == mappedNode.end()) {
+          // successors are normalized, i.e., their root weight is one
+          it = mappedNode.emplace(edge.p, self(self, edge.p).p).first;
         }
-        root = makeDDNode(currentEdge->p->v, edges);
-        mappedNode[currentEdge->p] = root.p;
-        currentEdge = nullptr;
+        edges[i].p = it->second;
       }
-    } while (!stack.empty());
+      return makeDDNode(node->v, edges);
+    };
+    auto root = transferNode(transferNode, original.p);
     root.w = cn.lookup(original.w * root.w);
     return root;
   }
-- 
2.43.0


From 20d936586be73a4f5bb524555f16512444f11981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 15/77] fix: read back decision diagrams that consist of a
 terminal only

An identity matrix was written properly, but came back as the zero matrix.
---
 include/mqt-core/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 29b7d78..c1a26b1 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1819,7 +1819,8 @@ public:
   template <class Node, class Edge = Edge<Node>,
             std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   Edge deserialize(std::istream& is, const bool readBinary = false) {
-    auto result = CachedEdge<Node>{};
+    // a diagram without any node is a terminal with the given root weight
+    auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
     std::unordered_map<std::int64_t, Node*> nodes{};
-- 
2.43.0


From a94dbb397c90a712ccd4eee84d883e80a0221e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 16/77] fix: do not overflow the bucket index of large numbers

---
 src/dd/RealNumberUniqueTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index d0196c8..7f0dff5 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -38,8 +38,8 @@ RealNumberUniqueTable::RealNumberUniqueTable(MemoryManager& manager,
 std::int64_t RealNumberUniqueTable::hash(const fp val) noexcept {
   static constexpr std::int64_t MASK = NBUCKET - 1;
   assert(val >= 0);
-  const auto key = static_cast<std::int64_t>(std::nearbyint(val * MASK));
-  return std::min<std::int64_t>(key, MASK);
+  // limit the value first so that large numbers cannot overflow the key
+  return static_cast<std::int64_t>(std::nearbyint(std::min(val, 1.) * MASK));
 }
 
 RealNumber* RealNumberUniqueTable::lookup(const fp val) {
-- 
2.43.0


From 7686ce88e6216233a650b0f54668ac1f5a48e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:25 +0000
Subject: [PATCH 17/77] fix: refuse malformed serialized decision diagrams

Undefined nodes, wrong levels, truncated files and weights that are not finite
were accepted and led to invalid diagrams or invalid memory accesses. Also keep
normalization factors that arise when nodes are recreated (also on transfer).
---
 include/mqt-core/dd/Package.hpp | 84 ++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 18 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index c1a26b1..5c8e013 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1787,7 +1787,7 @@ public:
     }
 
     // nodes are created bottom-up, each of them once
-    std::unordered_map<Node*, Node*> mappedNode{};
+    std::unordered_map<Node*, Edge<Node>> mappedNode{};
     const auto transferNode = [&](const auto& self, Node* node) -> Edge<Node> {
       std::array<Edge<Node>, std::tuple_size_v<decltype(node->e)>> edges{};
       for (std::size_t i = 0; i < edges.size(); ++i) {
@@ -1798,10 +1798,9 @@ public:
         }
         auto it = mappedNode.find(edge.p);
         if (it == mappedNode.end()) {
-          // successors are normalized, i.e., their root weight is one
-          it = mappedNode.emplace(edge.p, self(self, edge.p).p).first;
+          it = mappedNode.emplace(edge.p, self(self, edge.p)).first;
         }
-        edges[i].p = it->second;
+        edges[i] = {it->second.p, cn.lookup(edge.w * it->second.w)};
       }
       return makeDDNode(node->v, edges);
     };
@@ -1823,7 +1822,7 @@ public:
     auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
-    std::unordered_map<std::int64_t, Node*> nodes{};
+    std::unordered_map<std::int64_t, CachedEdge<Node>> nodes{};
     std::int64_t nodeIndex{};
     Qubit v{};
     std::array<ComplexValue, N> edgeWeights{};
@@ -1841,8 +1840,9 @@ public:
             "; current version: " + std::to_string(SERIALIZATION_VERSION));
       }
 
-      if (!is.eof()) {
-        rootweight.readBinary(is);
+      rootweight.readBinary(is);
+      if (!is) {
+        throw std::runtime_error("Unexpected end of serialized file");
       }
 
       while (is.read(reinterpret_cast<char*>(&nodeIndex),
@@ -1853,6 +1853,9 @@ public:
                   sizeof(decltype(edgeIndices[i])));
           edgeWeights[i].readBinary(is);
         }
+        if (!is) {
+          throw std::runtime_error("Unexpected end of serialized file");
+        }
         result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
       }
     } else {
@@ -1882,12 +1885,13 @@ public:
       std::smatch m;
 
       std::string line;
-      if (std::getline(is, line)) {
-        if (!std::regex_match(line, m, complexWeightRegex)) {
-          throw std::runtime_error("Regex did not match second line: " + line);
-        }
-        rootweight.fromString(m.str(1), m.str(2));
+      if (!std::getline(is, line)) {
+        throw std::runtime_error("Unexpected end of serialized file");
       }
+      if (!std::regex_match(line, m, complexWeightRegex)) {
+        throw std::runtime_error("Regex did not match second line: " + line);
+      }
+      rootweight.fromString(m.str(1), m.str(2));
 
       while (std::getline(is, line)) {
         if (line.empty() || line.size() == 1) {
@@ -1908,7 +1912,11 @@ public:
         // match 6: real
         // match 7: imag (without i)
         nodeIndex = std::stoi(m.str(1));
-        v = static_cast<Qubit>(std::stoi(m.str(2)));
+        const auto level = std::stoul(m.str(2));
+        if (level > std::numeric_limits<Qubit>::max()) {
+          throw std::runtime_error("Invalid qubit in line: " + line);
+        }
+        v = static_cast<Qubit>(level);
 
         for (auto edgeIdx = 3U, i = 0U; i < N; i++, edgeIdx += 5) {
           if (m.str(edgeIdx).empty()) {
@@ -1922,7 +1930,11 @@ public:
         result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
       }
     }
-    return {result.p, cn.lookup(result.w * rootweight)};
+    const auto weight = result.w * rootweight;
+    if (!std::isfinite(weight.r) || !std::isfinite(weight.i)) {
+      throw std::runtime_error("Root weight is not a finite number");
+    }
+    return {result.p, cn.lookup(weight)};
   }
 
   template <class Node, class Edge = Edge<Node>>
@@ -1938,15 +1950,43 @@ public:
   }
 
 private:
+  /// Throws if a successor read from a file does not fit below level `v`
+  template <class Node>
+  static void validateDeserializedEdge(const CachedEdge<Node>& edge,
+                                       const Qubit v) {
+    // the squared magnitudes of all weights of a node are summed up
+    if (constexpr auto n = static_cast<fp>(std::tuple_size_v<decltype(Node::e)>);
+        !std::isfinite(n * edge.w.mag2())) {
+      throw std::runtime_error("Edge weight is not a finite number");
+    }
+    if (edge.w.approximatelyZero()) {
+      return;
+    }
+    bool valid = edge.isTerminal() || edge.p->v < v;
+    if constexpr (std::is_same_v<Node, vNode>) {
+      // vector decision diagrams do not skip levels
+      valid = edge.isTerminal() ? v == 0U : edge.p->v + 1U == v;
+    }
+    if (!valid) {
+      throw std::runtime_error("Successor of a node for qubit " +
+                               std::to_string(v) + " has a wrong level");
+    }
+  }
+
   template <class Node, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   CachedEdge<Node>
   deserializeNode(const std::int64_t index, const Qubit v,
                   std::array<std::int64_t, N>& edgeIdx,
                   const std::array<ComplexValue, N>& edgeWeight,
-                  std::unordered_map<std::int64_t, Node*>& nodes) {
+                  std::unordered_map<std::int64_t, CachedEdge<Node>>& nodes) {
     if (index == -1) {
       return CachedEdge<Node>::zero();
     }
+    if (v >= nqubits) {
+      throw std::runtime_error("Node for qubit " + std::to_string(v) +
+                               " does not fit into a package with " +
+                               std::to_string(nqubits) + " qubits");
+    }
 
     std::array<CachedEdge<Node>, N> edges{};
     for (auto i = 0U; i < N; ++i) {
@@ -1955,17 +1995,25 @@ private:
       } else {
         if (edgeIdx[i] == -1) {
           edges[i] = CachedEdge<Node>::one();
+        } else if (const auto it = nodes.find(edgeIdx[i]); it != nodes.end()) {
+          edges[i] = it->second;
         } else {
-          edges[i].p = nodes[edgeIdx[i]];
+          throw std::runtime_error("Edge to undefined node " +
+                                   std::to_string(edgeIdx[i]));
         }
-        edges[i].w = edgeWeight[i];
+        edges[i].w = edges[i].w * edgeWeight[i];
+        validateDeserializedEdge(edges[i], v);
       }
     }
     // reset
     edgeIdx.fill(-2);
 
     auto r = makeDDNode(v, edges);
-    nodes[index] = r.p;
+    if (r.w.exactlyZero()) {
+      throw std::runtime_error("Node " + std::to_string(index) +
+                               " has no non-zero successor");
+    }
+    nodes[index] = r;
     return r;
   }
 };
-- 
2.43.0


From 86f5ebc62e1480f40512b9bbd755023259defdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:46 +0000
Subject: [PATCH 18/77] fix: reduce garbage of terminals when only magnitudes
 are considered

---
 src/dd/Package.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index dac5210..a03e634 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1177,9 +1177,10 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
 vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
                              const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights && (std::none_of(garbage.begin(), garbage.end(),
+                                          [](bool v) { return v; }) ||
+                             e.isTerminal()))) {
     return e;
   }
   Qubit lowerbound = 0;
@@ -1206,15 +1207,18 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
 mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
                              const bool regular, const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isZeroTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights && std::none_of(garbage.begin(), garbage.end(),
+                                         [](bool v) { return v; }))) {
     return e;
   }
 
   // if we have only identities and no other nodes
   if (e.isIdentity()) {
     auto g = e;
+    if (normalizeWeights) {
+      g.w = cn.lookup(ComplexNumbers::mag(e.w), 0.);
+    }
     for (auto i = 0U; i < garbage.size(); ++i) {
       if (garbage[i]) {
         if (regular) {
-- 
2.43.0


From 2952dc88ae895d775823d8a735af4c7b0d2eb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 19/77] fix: keep temporary flags in the key of density matrix
 compute table entries

---
 include/mqt-core/dd/ComputeTable.hpp | 33 +++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 50ec59e..da0425e 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -20,6 +20,7 @@
 #include "ir/Definitions.hpp"
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iostream>
 #include <stdexcept>
@@ -60,8 +61,34 @@ public:
     LeftOperandType leftOperand;
     RightOperandType rightOperand;
     ResultType result;
+    std::uintptr_t flags;
   };
 
+  /**
+   * @brief Get the temporary flags of the given operands
+   * @details The meaning of a density matrix node depends on its temporary
+   * flags. Thus, they are part of the key of an entry.
+   * @param leftOperand The left operand
+   * @param rightOperand The right operand
+   * @return The combined flags (zero for anything but density matrix nodes)
+   */
+  [[nodiscard]] static std::uintptr_t
+  getFlags([[maybe_unused]] const LeftOperandType& leftOperand,
+           [[maybe_unused]] const RightOperandType& rightOperand) {
+    std::uintptr_t flags = 0U;
+    if constexpr (std::is_same_v<LeftOperandType, dNode*>) {
+      if (!dNode::isTerminal(leftOperand)) {
+        flags |= dNode::getDensityMatrixTempFlags(leftOperand->flags);
+      }
+    }
+    if constexpr (std::is_same_v<RightOperandType, dNode*>) {
+      if (!dNode::isTerminal(rightOperand)) {
+        flags |= dNode::getDensityMatrixTempFlags(rightOperand->flags) << 3U;
+      }
+    }
+    return flags;
+  }
+
   /**
    * @brief Compute the hash value for a given pair of operands
    * @param leftOperand The left operand
@@ -111,7 +138,8 @@ public:
       stats.trackInsert();
       valid[key] = true;
     }
-    table[key] = {leftOperand, rightOperand, result};
+    table[key] = {leftOperand, rightOperand, result,
+                  getFlags(leftOperand, rightOperand)};
   }
 
   /**
@@ -138,6 +166,9 @@ public:
     if (entry.rightOperand != rightOperand) {
       return result;
     }
+    if (entry.flags != getFlags(leftOperand, rightOperand)) {
+      return result;
+    }
 
     if constexpr (std::is_same_v<RightOperandType, dNode*> ||
                   std::is_same_v<RightOperandType, dCachedEdge>) {
-- 
2.43.0


From 61bb1524ca3b440b7698f565968aa2a3121cd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 20/77] fix: read entries of density matrices and skipped
 levels correctly

---
 src/dd/Edge.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..96365e6 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,8 +43,10 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
-    return c;
+  if constexpr (std::is_same_v<Node, vNode>) {
+    if (isTerminal()) {
+      return c;
+    }
   }
 
   auto r = *this;
@@ -59,7 +61,8 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
     // node is not at the expected level (skipped node)
     if (r.isTerminal() || r.p->v != level - 1U) {
       if (r.isZeroTerminal() || tmp == 1U || tmp == 2U) {
-        return 0.;
+        c = 0.;
+        break;
       }
       --level;
       continue;
@@ -78,6 +81,9 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
     c *= static_cast<std::complex<fp>>(r.w);
     --level;
   }
+  if constexpr (std::is_same_v<Node, dNode>) {
+    Edge<dNode>::revertDmChangesToEdge(r);
+  }
   return c;
 }
 
@@ -356,10 +362,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
@@ -493,7 +495,7 @@ auto Edge<Node>::traverseMatrix(const std::complex<fp>& amp,
   const auto coords = {std::pair{i, j}, {i, y}, {x, j}, {x, y}};
   std::size_t k = 0U;
   for (const auto& [a, b] : coords) {
-    if (auto& e = p->e[k++]; !e.w.exactlyZero()) {
+    if (auto e = p->e[k++]; !e.w.exactlyZero()) {
       if constexpr (std::is_same_v<Node, dNode>) {
         Edge<dNode>::applyDmChangesToEdge(e);
       }
@@ -542,13 +544,12 @@ auto Edge<Node>::getSparseProbabilityVectorStrKeys(const std::size_t numQubits,
 
   auto e = *this;
   Edge<dNode>::alignDensityEdge(e);
-  const auto nqubits = static_cast<std::size_t>(e.p->v) + 1U;
 
   auto probabilities = SparsePVecStrKeys{};
   e.traverseDiagonal(
       1, 0,
-      [&probabilities, &nqubits](const std::size_t i, const fp& prob) {
-        probabilities[intToBinaryString(i, nqubits)] = prob;
+      [&probabilities, &numQubits](const std::size_t i, const fp& prob) {
+        probabilities[intToBinaryString(i, numQubits)] = prob;
       },
       numQubits, threshold);
   return probabilities;
-- 
2.43.0


From 78a14f3e8429cd501299a8ab9ffee99e94402841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 21/77] fix: realize the declared noise channels

---
 src/dd/NoiseFunctionality.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..276cf1e 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
@@ -113,6 +113,9 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
+    // If amplitude damping has to be applied after all, exactly the same
+    // realization of the remaining noise effects needs to be used.
+    auto retryGenerator = generator;
     auto stackedOperation = generateNoiseOperation(operation, target, generator,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
@@ -123,8 +126,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
-                                                true, multiQubitOperation);
+      stackedOperation = generateNoiseOperation(
+          operation, target, retryGenerator, true, multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
     tmp.w = Complex::one();
@@ -141,6 +144,12 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
 mEdge StochasticNoiseFunctionality::stackOperation(
     const mEdge& operation, const qc::Qubit target,
     const qc::OpType noiseOperation, const GateMatrix& matrix) const {
+  if (noiseOperation != qc::X && noiseOperation != qc::Y &&
+      noiseOperation != qc::Z) {
+    // The amplitude damping matrices depend on the probabilities of this
+    // instance while the cache is shared by all instances of a package.
+    return package->multiply(package->makeGateDD(matrix, target), operation);
+  }
   if (const auto* op =
           package->stochasticNoiseOperationCache.lookup(noiseOperation, target);
       op != nullptr) {
@@ -255,6 +264,9 @@ DeterministicNoiseFunctionality::DeterministicNoiseFunctionality(
 void DeterministicNoiseFunctionality::applyNoiseEffects(
     dEdge& originalEdge, const std::unique_ptr<qc::Operation>& qcOperation) {
   const auto usedQubits = qcOperation->getUsedQubits();
+  if (usedQubits.empty()) {
+    return;
+  }
   dCachedEdge nodeAfterNoise = {};
   dEdge::applyDmChangesToEdge(originalEdge);
   nodeAfterNoise = applyNoiseEffects(originalEdge, usedQubits, false,
@@ -280,14 +292,14 @@ dCachedEdge DeterministicNoiseFunctionality::applyNoiseEffects(
   auto originalCopy = dEdge{originalEdge.p, Complex::one()};
   ArrayOfEdges newEdges{};
   const auto nextLevel = static_cast<dd::Qubit>(level - 1U);
-  if (originalEdge.isIdentity()) {
+  if (originalEdge.isIdentity() || originalEdge.p->v < nextLevel) {
     newEdges[0] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
     newEdges[3] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
   } else {
     for (std::size_t i = 0; i < newEdges.size(); i++) {
-      auto& successor = originalCopy.p->e[i];
+      auto successor = originalCopy.p->e[i];
       if (firstPathEdge || i == 1) {
         // If I am to the firstPathEdge I cannot minimize the necessary
         // operations anymore
-- 
2.43.0


From 61544988bd8477cd05e6f91872cb8d70ba3239b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 22/77] fix: density matrix products, traces and collections
 with skipped levels

---
 include/mqt-core/dd/Package.hpp | 36 ++++++++++++++++++++++++++-------
 src/dd/Package.cpp              |  8 ++++----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 5c8e013..dd2d1bb 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1235,8 +1235,15 @@ private:
               dNode::revertDmChangesToNode(m.p);
               dNode::revertDmChangesToNode(edge[idx].p);
             }
-            // Undo modifications on density matrices
-            dEdge::revertDmChangesToEdges(e1, e2);
+            // Undo modifications on density matrices. If an operand skips this
+            // level, it is passed on as is and its modifications have to
+            // remain in place for the remaining products.
+            if (e2.p != y.p) {
+              dEdge::revertDmChangesToEdge(e2);
+            }
+            if (e1.p != x.p) {
+              dEdge::revertDmChangesToEdge(e1);
+            }
           } else {
             auto m = multiply2(e1, e2, v);
 
@@ -1532,8 +1539,10 @@ public:
    */
   template <class Node>
   ComplexValue trace(const Edge<Node>& a, const std::size_t numQubits) {
-    if (a.isIdentity()) {
-      return static_cast<ComplexValue>(a.w);
+    if constexpr (std::is_same_v<Node, mNode>) {
+      if (a.isIdentity()) {
+        return static_cast<ComplexValue>(a.w);
+      }
     }
     const auto eliminate = std::vector<bool>(numQubits, true);
     return trace(a, eliminate, numQubits).w;
@@ -1579,11 +1588,21 @@ private:
   CachedEdge<Node> trace(const Edge<Node>& a,
                          const std::vector<bool>& eliminate,
                          std::size_t level) {
-    const auto aWeight = static_cast<ComplexValue>(a.w);
+    auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
     }
 
+    if constexpr (std::is_same_v<Node, dNode>) {
+      // The trace of density matrices is not normalized. Hence, every skipped
+      // (identity) level that is eliminated contributes a factor of two.
+      for (auto i = a.isTerminal() ? 0U : a.p->v + 1U; i < level; ++i) {
+        if (eliminate[i]) {
+          aWeight *= 2.;
+        }
+      }
+    }
+
     // If `a` is the identity matrix or there is nothing left to eliminate,
     // then simply return `a`
     if (a.isIdentity() ||
@@ -1611,8 +1630,11 @@ private:
         }
       }
 
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
-                    trace(a.p->e[3], eliminate, level - 1), v - 1);
+      const auto nextLevel = std::is_same_v<Node, dNode>
+                                 ? static_cast<std::size_t>(v)
+                                 : level - 1;
+      auto r = add2(trace(a.p->e[0], eliminate, nextLevel),
+                    trace(a.p->e[3], eliminate, nextLevel), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index a03e634..cd586ee 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -132,6 +132,8 @@ bool Package::garbageCollect(bool force) {
     matrixVectorMultiplication.clear();
     matrixMatrixMultiplication.clear();
     stochasticNoiseOperationCache.clear();
+    // operations are applied to density matrices as matrix nodes
+    densityDensityMultiplication.clear();
   }
   // invalidate all compute tables involving density matrices if any density
   // matrix node has been collected
@@ -157,7 +159,7 @@ bool Package::garbageCollect(bool force) {
     densityNoise.clear();
     densityTrace.clear();
   }
-  return vCollect > 0 || mCollect > 0 || cCollect > 0;
+  return vCollect > 0 || mCollect > 0 || dCollect > 0 || cCollect > 0;
 }
 
 dEdge Package::makeZeroDensityOperator(const std::size_t n) {
@@ -789,9 +791,7 @@ char Package::measureOneCollapsing(vEdge& rootEdge, const Qubit index,
 char Package::measureOneCollapsing(dEdge& e, const Qubit index,
                                    std::mt19937_64& mt) {
   char measuredResult = '0';
-  dEdge::alignDensityEdge(e);
-  const auto nrQubits = e.p->v + 1U;
-  dEdge::setDensityMatrixTrue(e);
+  const auto nrQubits = nqubits;
 
   auto const measZeroDd = makeGateDD(MEAS_ZERO_MAT, index);
 
-- 
2.43.0


From 05e58dd375ef4e2061b63d9952d7d5f2a98adabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 23/77] fix: validate the sizes of vectors, matrices and basis
 states

---
 src/dd/Package.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index cd586ee..1c8962d 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -163,6 +163,13 @@ bool Package::garbageCollect(bool force) {
 }
 
 dEdge Package::makeZeroDensityOperator(const std::size_t n) {
+  if (n > nqubits) {
+    throw std::runtime_error{
+        "Requested density operator with " + std::to_string(n) +
+        " qubits, but current package configuration only supports up to " +
+        std::to_string(nqubits) +
+        " qubits. Please allocate a larger package instance."};
+  }
   auto f = dEdge::one();
   for (std::size_t p = 0; p < n; p++) {
     f = makeDDNode(static_cast<Qubit>(p),
@@ -198,9 +205,14 @@ vEdge Package::makeBasisState(const std::size_t n,
         std::to_string(nqubits) +
         " qubits. Please allocate a larger package instance."};
   }
+  if (state.size() < n) {
+    throw std::runtime_error("Insufficient qubit states provided. Requested " +
+                             std::to_string(n) + ", but received " +
+                             std::to_string(state.size()));
+  }
   auto f = vEdge::one();
   for (std::size_t p = start; p < n + start; ++p) {
-    if (!state[p]) {
+    if (!state[p - start]) {
       f = makeDDNode(static_cast<Qubit>(p), std::array{f, vEdge::zero()});
     } else {
       f = makeDDNode(static_cast<Qubit>(p), std::array{vEdge::zero(), f});
@@ -227,7 +239,7 @@ vEdge Package::makeBasisState(const std::size_t n,
 
   auto f = vCachedEdge::one();
   for (std::size_t p = start; p < n + start; ++p) {
-    switch (state[p]) {
+    switch (state[p - start]) {
     case BasisStates::zero:
       f = makeDDNode(static_cast<Qubit>(p), std::array{f, vCachedEdge::zero()});
       break;
@@ -338,10 +350,16 @@ vEdge Package::makeStateFromVector(const CVec& stateVector) {
   }
 
   if (length == 1) {
-    return vEdge::terminal(cn.lookup(stateVector[0]));
+    const auto e = vEdge::terminal(cn.lookup(stateVector[0]));
+    incRef(e);
+    return e;
   }
 
   const auto level = static_cast<Qubit>(std::log2(length) - 1);
+  if (level >= nqubits) {
+    throw std::invalid_argument(
+        "State vector is too large for the current package configuration.");
+  }
   const auto state =
       makeStateFromVector(stateVector.begin(), stateVector.end(), level);
   const vEdge e{state.p, cn.lookup(state.w)};
@@ -551,8 +569,9 @@ mEdge Package::makeDDFromMatrix(const CMat& matrix) {
     throw std::invalid_argument("Matrix must have a length of a power of two.");
   }
 
-  const auto& width = matrix[0].size();
-  if (length != width) {
+  if (std::any_of(matrix.begin(), matrix.end(), [&length](const auto& row) {
+        return row.size() != length;
+      })) {
     throw std::invalid_argument("Matrix must be square.");
   }
 
@@ -561,7 +580,11 @@ mEdge Package::makeDDFromMatrix(const CMat& matrix) {
   }
 
   const auto level = static_cast<Qubit>(std::log2(length) - 1);
-  const auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, width);
+  if (level >= nqubits) {
+    throw std::invalid_argument(
+        "Matrix is too large for the current package configuration.");
+  }
+  const auto matrixDD = makeDDFromMatrix(matrix, level, 0, length, 0, length);
   return {matrixDD.p, cn.lookup(matrixDD.w)};
 }
 vCachedEdge Package::makeStateFromVector(const CVec::const_iterator& begin,
-- 
2.43.0


From 97965cf76812da67b9b826266143ee7f7c36fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 24/77] fix: keep the transitive closure of acyclic graphs
 complete

---
 .../mqt-core/datastructures/DirectedAcyclicGraph.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
index aeaae63..5a1b823 100644
--- a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
+++ b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
@@ -52,12 +52,14 @@ public:
       throw std::logic_error(oss.str());
     }
     DirectedGraph<V>::addEdge(u, v);
+    // everything that reaches u now also reaches everything reachable from v
     for (std::size_t k = 0; k < this->nVertices; ++k) {
       if (closureMatrix[k][i]) {
-        closureMatrix[k][j] = true;
-      }
-      if (closureMatrix[j][k]) {
-        closureMatrix[i][k] = true;
+        for (std::size_t l = 0; l < this->nVertices; ++l) {
+          if (closureMatrix[j][l]) {
+            closureMatrix[k][l] = true;
+          }
+        }
       }
     }
   }
-- 
2.43.0


From c9f7799a4e7ea4b8f87d792f6572121c1fdc809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 25/77] fix: report self-loops of undirected graphs in
 isAdjacent and the DOT export

---
 include/mqt-core/datastructures/UndirectedGraph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/datastructures/UndirectedGraph.hpp b/include/mqt-core/datastructures/UndirectedGraph.hpp
index 5ff24b6..cdafe42 100644
--- a/include/mqt-core/datastructures/UndirectedGraph.hpp
+++ b/include/mqt-core/datastructures/UndirectedGraph.hpp
@@ -194,8 +194,8 @@ public:
     }
     const auto i = mapping.at(u);
     const auto j = mapping.at(v);
-    return (i < j && adjacencyMatrix[i][j - i] != std::nullopt) or
-           (j < i && adjacencyMatrix[j][i - j] != std::nullopt);
+    return i < j ? adjacencyMatrix[i][j - i] != std::nullopt
+                 : adjacencyMatrix[j][i - j] != std::nullopt;
   }
   [[nodiscard]] static auto isAdjacentEdge(const std::pair<V, V>& e,
                                            const std::pair<V, V>& f) -> bool {
@@ -210,7 +210,7 @@ public:
       ss << "  " << i << " [label=\"" << v << "\"];\n";
     }
     for (std::size_t i = 0; i < nVertices; ++i) {
-      for (std::size_t j = i + 1; j < nVertices; ++j) {
+      for (std::size_t j = i; j < nVertices; ++j) {
         if (adjacencyMatrix[i][j - i] != std::nullopt) {
           ss << "  " << i << " -- " << j << ";\n";
         }
-- 
2.43.0


From dd9b451d8cba1b206f703f6357140d9abf5fba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 26/77] fix: reduce, subtract, divide and convert angles
 exactly

---
 include/mqt-core/zx/Rational.hpp | 13 +++++++------
 src/zx/Rational.cpp              | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/mqt-core/zx/Rational.hpp b/include/mqt-core/zx/Rational.hpp
index 2a4b198..25bf852 100644
--- a/include/mqt-core/zx/Rational.hpp
+++ b/include/mqt-core/zx/Rational.hpp
@@ -207,9 +207,8 @@ inline PiRational operator-(PiRational lhs, const int64_t rhs) {
   lhs -= rhs;
   return lhs;
 }
-inline PiRational operator-(const int64_t lhs, PiRational rhs) {
-  rhs -= lhs;
-  return rhs;
+inline PiRational operator-(const int64_t lhs, const PiRational& rhs) {
+  return -rhs + lhs;
 }
 
 inline PiRational operator*(PiRational lhs, const PiRational& rhs) {
@@ -233,9 +232,11 @@ inline PiRational operator/(PiRational lhs, const int64_t rhs) {
   lhs /= rhs;
   return lhs;
 }
-inline PiRational operator/(const int64_t lhs, PiRational rhs) {
-  rhs /= lhs;
-  return rhs;
+inline PiRational operator/(const int64_t lhs, const PiRational& rhs) {
+  PiRational result(1, 1);
+  result /= rhs;
+  result *= lhs;
+  return result;
 }
 
 inline bool operator<(const PiRational& lhs, const PiRational& rhs) {
diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..e090526 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -26,21 +26,21 @@ PiRational::PiRational(double val) {
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
   if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
+    auto denom = static_cast<int64_t>(nearest);
     frac = Rational(1, denom);
     modPi();
     return;
   }
 
   val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
+  val -= 2 * std::trunc(val / 2);
   if (val > 1) {
     val -= 2;
   } else if (val <= -1) {
     val += 2;
   }
 
-  frac = Rational(val * MAX_DENOM, MAX_DENOM);
+  frac = Rational(std::round(val * MAX_DENOM), MAX_DENOM);
   modPi();
 }
 
@@ -92,10 +92,17 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
-  if (*this > 1) {
-    frac = Rational(getNum() - (2 * getDenom()), getDenom());
-  } else if (*this <= -1) {
-    frac = Rational(getNum() + (2 * getDenom()), getDenom());
+  if (*this > 1 || *this <= -1) {
+    // reduce to the representative in (-1, 1]
+    const BigInt denom = getDenom();
+    const BigInt period = 2 * denom;
+    BigInt num = getNum() % period;
+    if (num > denom) {
+      num -= period;
+    } else if (num <= -denom) {
+      num += period;
+    }
+    frac = Rational(num, denom);
   }
   if (getNum() == 0) {
     setDenom(1);
-- 
2.43.0


From 803f93be00072b018d58320d5676a21b97b76fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 27/77] fix: order locations consistently

---
 include/mqt-core/na/entities/Location.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/na/entities/Location.hpp b/include/mqt-core/na/entities/Location.hpp
index f2e36aa..0cebd81 100644
--- a/include/mqt-core/na/entities/Location.hpp
+++ b/include/mqt-core/na/entities/Location.hpp
@@ -105,14 +105,14 @@ struct Location final {
   /// @param other The location to compare with.
   /// @return True if this location is greater than or equal to the other
   [[nodiscard]] auto operator>=(const Location& other) const -> bool {
-    return !(other < *this);
+    return !(*this < other);
   }
 
   /// Compares two locations for less than or equal.
   /// @param other The location to compare with.
   /// @return True if this location is less than or equal to the other location,
   [[nodiscard]] auto operator<=(const Location& other) const -> bool {
-    return *this >= other;
+    return other >= *this;
   }
 
   /// Computes the Euclidean distance between this location and the given
-- 
2.43.0


From a5e3531a163e0be0635ee6563de8fe46d918fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 28/77] fix: validate and print neutral atom computations
 completely

---
 src/na/NAComputation.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 4c6ba04..f07db1f 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -55,12 +55,14 @@ auto NAComputation::getLocationOfAtomAfterOperation(const Atom& atom,
 }
 auto NAComputation::toString() const -> std::string {
   std::stringstream ss;
-  std::map<Location, const Atom*> initialLocationsAsc;
+  // several atoms may share a location, hence the name as second key
+  std::multimap<std::pair<Location, std::string>, const Atom*>
+      initialLocationsAsc;
   for (const auto& [atom, loc] : initialLocations_) {
-    initialLocationsAsc.emplace(loc, atom);
+    initialLocationsAsc.emplace(std::make_pair(loc, atom->getName()), atom);
   }
-  for (const auto& [loc, atom] : initialLocationsAsc) {
-    ss << "atom " << loc << " " << *atom << "\n";
+  for (const auto& [key, atom] : initialLocationsAsc) {
+    ss << "atom " << key.first << " " << *atom << "\n";
   }
   for (const auto& op : operations_) {
     ss << *op << "\n";
@@ -95,6 +97,11 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
       //===----------------------------------------------------------------===//
       const auto& shuttlingOp = op->as<ShuttlingOp>();
       const auto& opAtoms = shuttlingOp.getAtoms();
+      if (std::unordered_set<const Atom*>(opAtoms.begin(), opAtoms.end())
+              .size() != opAtoms.size()) {
+        ss << "Error in op number " << counter << " (two atoms identical)\n";
+        return {false, ss.str()};
+      }
       if (shuttlingOp.is<LoadOp>()) {
         //===-----------------------------------------------------------------//
         // Load Operations
@@ -132,11 +139,6 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
           const auto* a = opAtoms[i];
           for (std::size_t j = i + 1; j < opAtoms.size(); ++j) {
             const auto* b = opAtoms[j];
-            if (a == b) {
-              ss << "Error in op number " << counter
-                 << " (two atoms identical)\n";
-              return {false, ss.str()};
-            }
             const auto& s1 = currentLocations[a];
             const auto& s2 = currentLocations[b];
             const auto& e1 = targetLocations[i];
-- 
2.43.0


From 56729004b4c91ac1a5fe60979e7c303d728a009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 29/77] fix: only cancel local operations qubit-wise and never
 lock up the executable set

---
 include/mqt-core/datastructures/Layer.hpp |  6 ++-
 src/datastructures/Layer.cpp              | 51 ++++++++++++-----------
 2 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/include/mqt-core/datastructures/Layer.hpp b/include/mqt-core/datastructures/Layer.hpp
index 0db8864..13eed17 100644
--- a/include/mqt-core/datastructures/Layer.hpp
+++ b/include/mqt-core/datastructures/Layer.hpp
@@ -134,7 +134,9 @@ public:
   };
 
 protected:
-  ExecutableSet executableSet;
+  // the vertices refer to the set; hence, it must not move with the layer
+  std::shared_ptr<ExecutableSet> executableSet =
+      std::make_shared<ExecutableSet>();
   auto constructDAG(const QuantumComputation& qc, bool commutable) -> void;
 
 public:
@@ -160,7 +162,7 @@ public:
     constructDAG(qc, commutable);
   }
   [[nodiscard]] auto getExecutableSet() const -> const ExecutableSet& {
-    return executableSet;
+    return *executableSet;
   }
   [[nodiscard]] auto constructInteractionGraph(OpType opType,
                                                std::size_t nControls) const
diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 8fceb6a..eec1337 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -12,7 +12,9 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cstddef>
@@ -22,6 +24,18 @@
 #include <vector>
 
 namespace qc {
+namespace {
+/// Checks whether the operation is a tensor product of single-qubit operations.
+auto isLocal(const Operation& op) -> bool {
+  if (op.isCompoundOperation()) {
+    const auto& compound = dynamic_cast<const CompoundOperation&>(op);
+    return std::all_of(compound.cbegin(), compound.cend(),
+                       [](const auto& child) { return isLocal(*child); });
+  }
+  return op.isStandardOperation() && !op.isControlled() &&
+         isSingleQubitGate(op.getType());
+}
+} // namespace
 
 auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
     -> void {
@@ -43,14 +57,10 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // the predecessor of the current group members
   std::vector predecessorGroup(nQubits,
                                std::vector<std::shared_ptr<DAGVertex>>());
-  // all operations acting on a qubit (processed so far) excluding
-  // constructive and destructive operations
-  std::vector qubitOperations(nQubits,
-                              std::vector<std::shared_ptr<DAGVertex>>());
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
-    const auto vertex = DAGVertex::create(op.get(), executableSet);
+    const auto vertex = DAGVertex::create(op.get(), *executableSet);
     // iterate over all qubits the operation acts on
     for (const auto& qubit : op->getUsedQubits()) {
       // check whether the lookahead is empty
@@ -69,31 +79,24 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         auto current = lookahead[qubit];
         lookahead[qubit] = vertex;
         // check whether the current operation is the inverse of the
-        // lookahead
-        if (current->getOperation()->isInverseOf(
+        // lookahead and both cancel on this qubit regardless of the others
+        if (isLocal(*current->getOperation()) &&
+            current->getOperation()->isInverseOf(
                 *lookahead[qubit]->getOperation()) &&
             (currentGroup[qubit].empty() ||
              !(currentGroup[qubit][0]->getOperation())
                   ->commutesAtQubit(*current->getOperation(), qubit))) {
           // here: the current operation is the inverse of the lookahead
-          // add an enabling edge from the lookahead to all operations on this
-          // qubit including the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+          // add an enabling edge from all operations that precede the pair on
+          // this qubit, i.e., from the current group and the previous pairs
+          for (const auto& predecessor : currentGroup[qubit]) {
+            predecessor->addEnabledSuccessor(current);
           }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
+          for (const auto& constructiveOp : constructive[qubit]) {
+            constructiveOp->addEnabledSuccessor(current);
           }
           // add the lookahead to the constructive group
           constructive[qubit].emplace_back(lookahead[qubit]);
-          // add a disabling edge to all operations on this qubit including
-          // the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
-          }
           // add an enabling edge to the lookahead
           current->addEnabledSuccessor(lookahead[qubit]);
           // add the current vertex to the destructive group
@@ -136,7 +139,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
           }
           // add the current vertex to the current group
           currentGroup[qubit].emplace_back(current);
-          qubitOperations[qubit].emplace_back(current);
         }
       }
     }
@@ -173,7 +175,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       }
       // add the current vertex to the current group
       currentGroup[qubit].emplace_back(current);
-      qubitOperations[qubit].emplace_back(current);
     }
   }
 }
@@ -214,7 +215,7 @@ auto Layer::constructInteractionGraph(const OpType opType,
     throw std::invalid_argument(ss.str());
   }
   InteractionGraph graph;
-  for (const auto& vertex : executableSet) {
+  for (const auto& vertex : *executableSet) {
     const auto& gate = vertex->getOperation();
     if (gate->getType() == opType && gate->getNcontrols() == nControls) {
       const auto& usedQubits = gate->getUsedQubits();
@@ -232,7 +233,7 @@ auto Layer::getExecutablesOfType(const OpType opType,
                                  const std::size_t nControls) const
     -> std::vector<std::shared_ptr<DAGVertex>> {
   std::vector<std::shared_ptr<DAGVertex>> executables;
-  for (const auto& vertex : executableSet) {
+  for (const auto& vertex : *executableSet) {
     if ((vertex->getOperation())->getType() == opType and
         (vertex->getOperation())->getNcontrols() == nControls) {
       executables.emplace_back(vertex);
-- 
2.43.0


From c1a72c313f9d210344f6dadcb264bcb4cc846d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 30/77] fix: copy comparison kind and relabel body of
 conditional operations

---
 .../ir/operations/ClassicControlledOperation.hpp  | 15 +++++++++++++++
 src/ir/operations/ClassicControlledOperation.cpp  |  4 +++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..b2fb77a 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -22,7 +22,9 @@
 #include <memory>
 #include <optional>
 #include <ostream>
+#include <set>
 #include <string>
+#include <vector>
 
 namespace qc {
 
@@ -115,6 +117,19 @@ public:
     return op->removeControl(it);
   }
 
+  [[nodiscard]] std::set<Qubit>
+  getUsedQubitsPermuted(const Permutation& perm) const override {
+    return op->getUsedQubitsPermuted(perm);
+  }
+
+  void addDepthContribution(std::vector<std::size_t>& depths) const override {
+    op->addDepthContribution(depths);
+  }
+
+  void apply(const Permutation& permutation) override {
+    op->apply(permutation);
+  }
+
   [[nodiscard]] bool equals(const Operation& operation,
                             const Permutation& perm1,
                             const Permutation& perm2) const override;
diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From ecb05a29c6a8c96fc5f2f395caa7a5f35c252617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 31/77] fix: make operation equality and hashing agree with the
 effect

---
 .../ir/operations/NonUnitaryOperation.hpp     | 16 +++++++++--
 include/mqt-core/ir/operations/Operation.hpp  | 28 +++++++++++++++----
 src/ir/operations/Operation.cpp               | 16 ++++++++++-
 3 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
index 02dada2..54b20cc 100644
--- a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
+++ b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
@@ -23,6 +23,7 @@
 #include <ostream>
 #include <set>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace qc {
@@ -107,12 +108,21 @@ template <> struct std::hash<qc::NonUnitaryOperation> {
   std::size_t operator()(qc::NonUnitaryOperation const& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, op.getType());
+    if (op.getType() == qc::Measure) {
+      // the order of the individual measurements is irrelevant
+      std::set<std::pair<qc::Qubit, qc::Bit>> measurements{};
+      for (std::size_t i = 0; i < op.getTargets().size(); ++i) {
+        measurements.emplace(op.getTargets()[i], op.getClassics()[i]);
+      }
+      for (const auto& [q, c] : measurements) {
+        qc::hashCombine(seed, q);
+        qc::hashCombine(seed, c);
+      }
+      return seed;
+    }
     for (const auto& q : op.getTargets()) {
       qc::hashCombine(seed, q);
     }
-    for (const auto& c : op.getClassics()) {
-      qc::hashCombine(seed, c);
-    }
     return seed;
   }
 };
diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 746a0a4..eb8ee29 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -16,6 +16,7 @@
 #include "ir/operations/Control.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <iostream>
@@ -149,6 +150,17 @@ public:
     return (+type & OpTypeDiag) != 0;
   }
 
+  /**
+   * @brief Checks whether positive controls and targets may be interchanged
+   * without changing the effect of the operation.
+   * @details This is the case for all diagonal gates that only add a phase if
+   * all involved qubits are in state |1>. It is not the case for (controlled)
+   * RZ and RZZ gates.
+   */
+  [[nodiscard]] auto hasInterchangeableControls() const -> bool {
+    return isDiagonalGate() && type != RZ && type != RZZ;
+  }
+
   [[nodiscard]] virtual auto isSingleQubitGate() const -> bool {
     return !isControlled() && qc::isSingleQubitGate(type);
   }
@@ -228,15 +240,21 @@ template <> struct std::hash<qc::Operation> {
   std::size_t operator()(const qc::Operation& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, hash<qc::OpType>{}(op.getType()));
+    // whether the order of the involved qubits matters depends on the kind of
+    // operation, so it must not influence the hash
+    auto qubits = op.getTargets();
+    for (const auto& control : op.getControls()) {
+      qubits.emplace_back(control.qubit);
+    }
+    std::sort(qubits.begin(), qubits.end());
+    for (const auto& qubit : qubits) {
+      qc::hashCombine(seed, hash<qc::Qubit>{}(qubit));
+    }
     for (const auto& control : op.getControls()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
       if (control.type == qc::Control::Type::Neg) {
-        seed ^= 1ULL;
+        qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
       }
     }
-    for (const auto& target : op.getTargets()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(target));
-    }
     for (const auto& param : op.getParameter()) {
       qc::hashCombine(seed, hash<qc::fp>{}(param));
     }
diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..7f12cd1 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -134,7 +134,12 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  if (isDiagonalGate()) {
+  // symbolic parameters are not part of the numeric ones
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
+    return false;
+  }
+
+  if (hasInterchangeableControls()) {
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
     const auto& usedQubits2 = op.getUsedQubitsPermuted(perm2);
@@ -162,6 +167,15 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
+  if (getType() == RZZ) {
+    // the order of the targets does not matter
+    auto targets1 = perm1.apply(getTargets());
+    auto targets2 = perm2.apply(op.getTargets());
+    std::sort(targets1.begin(), targets1.end());
+    std::sort(targets2.begin(), targets2.end());
+    return targets1 == targets2;
+  }
+
   return perm1.apply(getTargets()) == perm2.apply(op.getTargets());
 }
 
-- 
2.43.0


From 5534e15ccb9d8cdf3d0ecb79ea164de5c3f4cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 32/77] fix: compare all details of symbolic operations

---
 include/mqt-core/ir/operations/Expression.hpp |  2 +-
 src/ir/operations/SymbolicOperation.cpp       | 27 ++++---------------
 2 files changed, 6 insertions(+), 23 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..4430add 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -794,7 +794,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..d24e89c 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -331,32 +331,15 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
+  // this compares everything but the symbolic parameters
+  if (!StandardOperation::equals(op, perm1, perm2)) {
     return false;
   }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
+  if (isStandardOperation()) {
     return true;
   }
-
-  if (!op.isSymbolicOperation()) {
-    return false;
-  }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
-      return false;
-    }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
-  }
-  return true;
+  const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+  return symOp != nullptr && symbolicParameter == symOp->symbolicParameter;
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From 4c64413a17a942db78fb8a176844eaa5eec2c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 33/77] fix: compare the start index of registers

---
 include/mqt-core/ir/Register.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/Register.hpp b/include/mqt-core/ir/Register.hpp
index 2163d6b..98ba23b 100644
--- a/include/mqt-core/ir/Register.hpp
+++ b/include/mqt-core/ir/Register.hpp
@@ -38,7 +38,8 @@ public:
   }
 
   [[nodiscard]] bool operator==(const Register& other) const {
-    return name == other.name && size == other.size;
+    return name == other.name && startIndex == other.startIndex &&
+           size == other.size;
   }
   [[nodiscard]] bool operator!=(const Register& other) const {
     return !(*this == other);
-- 
2.43.0


From 764b6cd69705b93b76851cb93bcb1e4723fd9e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 34/77] fix: invert circuits including their global phase, keep
 names and never half-invert; reorder respects classical bits and keeps
 operations without qubits

---
 .../operations/ClassicControlledOperation.hpp |   5 +-
 src/algorithms/StatePreparation.cpp           |   2 +-
 src/ir/QuantumComputation.cpp                 | 176 +++++++++---------
 src/ir/operations/CompoundOperation.cpp       |  18 +-
 src/ir/operations/StandardOperation.cpp       |   1 +
 5 files changed, 110 insertions(+), 92 deletions(-)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index b2fb77a..26efccf 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -141,7 +141,10 @@ public:
                     const BitIndexToRegisterMap& bitMap, std::size_t indent,
                     bool openQASM3) const override;
 
-  void invert() override { op->invert(); }
+  void invert() override {
+    op->invert();
+    name = "c_" + shortName(op->getType());
+  }
 
 private:
   std::unique_ptr<Operation> op;
diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..3c19e85 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,7 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..0758776 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -545,10 +545,14 @@ QuantumComputation::instantiate(const VariableAssignment& assignment) const {
 }
 
 void QuantumComputation::invert() {
-  for (const auto& op : ops) {
-    op->invert();
+  // do not alter the circuit if one of the operations cannot be inverted
+  std::vector<std::unique_ptr<Operation>> inverted{};
+  inverted.reserve(ops.size());
+  for (auto it = ops.crbegin(); it != ops.crend(); ++it) {
+    inverted.emplace_back((*it)->getInverted());
   }
-  std::reverse(ops.begin(), ops.end());
+  ops = std::move(inverted);
+  gphase(-2. * globalPhase);
 
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
@@ -1114,103 +1118,110 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
-void QuantumComputation::reorderOperations() {
-  using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
-  using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
-  using DAGIterators = std::vector<DAGIterator>;
+namespace {
+/// Collects all classical bits an operation writes to or depends on.
+void collectClassicalBits(const Operation& op, std::set<Bit>& bits) {
+  if (const auto* measure = dynamic_cast<const NonUnitaryOperation*>(&op);
+      measure != nullptr) {
+    bits.insert(measure->getClassics().cbegin(), measure->getClassics().cend());
+  } else if (const auto* comp = dynamic_cast<const CompoundOperation*>(&op);
+             comp != nullptr) {
+    for (const auto& subOp : *comp) {
+      collectClassicalBits(*subOp, bits);
+    }
+  } else if (const auto* cond =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             cond != nullptr) {
+    if (const auto& bit = cond->getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    if (const auto& reg = cond->getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    collectClassicalBits(*cond->getOperation(), bits);
+  }
+}
+} // namespace
 
-  Qubit highestPhysicalQubit = 0;
+void QuantumComputation::reorderOperations() {
+  // Every qubit and every classical bit is represented by a wire that contains
+  // (the indices of) all operations that involve it. The wires of the classical
+  // bits follow those of the qubits.
+  std::size_t nqubitWires = 1;
   for (const auto& q : initialLayout) {
-    highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
+    nqubitWires =
+        std::max(nqubitWires, static_cast<std::size_t>(q.first) + 1U);
   }
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+  std::vector<std::vector<std::size_t>> opWires(ops.size());
+  std::vector<std::deque<std::size_t>> wires(nqubitWires);
 
-  for (auto& op : ops) {
-    const auto usedQubits = op->getUsedQubits();
-    for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
-    }
-  }
+  std::vector<std::unique_ptr<Operation>> newOps{};
+  newOps.reserve(ops.size());
 
-  // initialize iterators
-  DAGIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty()) {
-      // qubit is idle
-      dagIterators.at(q) = dag.at(q).end();
-    } else {
-      // point to first operation
-      dagIterators.at(q) = dag.at(q).begin();
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    for (const auto q : ops[i]->getUsedQubits()) {
+      if (q >= nqubitWires) {
+        throw std::out_of_range("Operation acts on a qubit out of range.");
+      }
+      opWires[i].emplace_back(q);
+    }
+    std::set<Bit> bits{};
+    collectClassicalBits(*ops[i], bits);
+    for (const auto b : bits) {
+      opWires[i].emplace_back(nqubitWires + b);
+    }
+    if (opWires[i].empty()) {
+      // operations that involve neither qubits nor bits commute with everything
+      newOps.emplace_back(std::move(ops[i]));
+      continue;
+    }
+    wires.resize(std::max(wires.size(), opWires[i].back() + 1U));
+    for (const auto w : opWires[i]) {
+      wires[w].push_back(i);
     }
   }
 
-  std::vector<std::unique_ptr<Operation>> newOps{};
+  // traverse the wires starting from the top-most qubit
+  std::vector<std::size_t> order{};
+  order.reserve(wires.size());
+  for (std::size_t q = nqubitWires; q > 0; --q) {
+    order.emplace_back(q - 1);
+  }
+  for (std::size_t w = nqubitWires; w < wires.size(); ++w) {
+    order.emplace_back(w);
+  }
 
-  // iterate over DAG in depth-first fashion starting from the top-most qubit
-  const auto msq = dag.size() - 1;
   bool done = false;
   while (!done) {
     // assume that everything is done
     done = true;
 
-    // iterate over qubits in reverse order
-    for (auto q = static_cast<std::make_signed_t<Qubit>>(msq); q >= 0; --q) {
-      // nothing to be done for this qubit
-      if (dagIterators.at(static_cast<std::size_t>(q)) ==
-          dag.at(static_cast<std::size_t>(q)).end()) {
+    for (const auto w : order) {
+      // nothing to be done for this wire
+      if (wires[w].empty()) {
         continue;
       }
       done = false;
 
-      // get the current operation on the qubit
-      auto& it = dagIterators.at(static_cast<std::size_t>(q));
-      auto& op = **it;
-
-      // check whether the gate can be scheduled, i.e. whether all qubits it
-      // acts on are at this operation
-      bool executable = true;
-      std::vector<bool> actsOn(dag.size());
-      actsOn[static_cast<std::size_t>(q)] = true;
-      for (std::size_t i = 0; i < dag.size(); ++i) {
-        // actually check in reverse order
-        const auto qb =
-            static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
-          actsOn[static_cast<std::size_t>(qb)] = true;
-
-          assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
-                 dag.at(static_cast<std::size_t>(qb)).end());
-          // check whether operation is executable for the currently considered
-          // qubit
-          if (*dagIterators.at(static_cast<std::size_t>(qb)) != *it) {
-            executable = false;
-            break;
-          }
-        }
-      }
-
-      // continue, if this gate is not yet executable
-      if (!executable) {
+      // check whether the operation can be scheduled, i.e., whether it is next
+      // on all the wires it involves
+      const auto i = wires[w].front();
+      if (std::any_of(opWires[i].cbegin(), opWires[i].cend(),
+                      [&](const auto v) { return wires[v].front() != i; })) {
         continue;
       }
 
-      // gate is executable, move it to the new vector
-      newOps.emplace_back(std::move(op));
-
-      // now increase all corresponding iterators
-      for (std::size_t i = 0; i < dag.size(); ++i) {
-        if (actsOn[i]) {
-          ++(dagIterators.at(i));
-        }
+      newOps.emplace_back(std::move(ops[i]));
+      for (const auto v : opWires[i]) {
+        wires[v].pop_front();
       }
     }
   }
 
-  // clear all the operations from the quantum circuit
-  ops.clear();
-  // move all operations from the newly created vector to the original one
-  std::move(newOps.begin(), newOps.end(), std::back_inserter(ops));
+  ops = std::move(newOps);
 }
 
 namespace {
@@ -1269,13 +1280,11 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
+    // update the maximum classical bit index
+    std::set<Bit> bits{};
+    collectClassicalBits(*g, bits);
+    if (!bits.empty()) {
+      maxBitIndex = std::max(maxBitIndex, *bits.crbegin());
     }
   }
 
@@ -1301,10 +1310,11 @@ std::size_t QuantumComputation::getNgarbageQubits() const {
 void QuantumComputation::gphase(const fp angle) {
   globalPhase += angle;
   // normalize to [0, 2pi)
-  while (globalPhase < 0) {
+  globalPhase = std::fmod(globalPhase, 2 * PI);
+  if (globalPhase < 0) {
     globalPhase += 2 * PI;
   }
-  while (globalPhase >= 2 * PI) {
+  if (globalPhase >= 2 * PI) {
     globalPhase -= 2 * PI;
   }
 }
diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..935038d 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -77,6 +77,9 @@ bool CompoundOperation::isCompoundOperation() const noexcept { return true; }
 bool CompoundOperation::isCustomGate() const noexcept { return customGate; }
 
 bool CompoundOperation::isGlobal(const size_t nQubits) const noexcept {
+  if (ops.empty()) {
+    return nQubits == 0;
+  }
   const auto& params = ops.front()->getParameter();
   const auto& t = ops.front()->getType();
   return getUsedQubits().size() == nQubits &&
@@ -220,16 +223,14 @@ auto CompoundOperation::isInverseOf(const Operation& other) const -> bool {
     // and the reorderOperations method can be used to get a canonical form of
     // the compound operations
     const auto& thisUsedQubits = getUsedQubits();
-    assert(!thisUsedQubits.empty());
     const auto thisMaxQubit =
-        *std::max_element(thisUsedQubits.cbegin(), thisUsedQubits.cend());
+        thisUsedQubits.empty() ? Qubit{0} : *thisUsedQubits.crbegin();
     QuantumComputation thisQc(thisMaxQubit + 1);
     std::for_each(cbegin(), cend(),
                   [&](const auto& op) { thisQc.emplace_back(op->clone()); });
     const auto& otherUsedQubits = co.getUsedQubits();
-    assert(!otherUsedQubits.empty());
     const auto otherMaxQubit =
-        *std::max_element(otherUsedQubits.cbegin(), otherUsedQubits.cend());
+        otherUsedQubits.empty() ? Qubit{0} : *otherUsedQubits.crbegin();
     QuantumComputation otherQc(otherMaxQubit + 1);
     std::for_each(co.cbegin(), co.cend(),
                   [&](const auto& op) { otherQc.emplace_back(op->clone()); });
@@ -244,10 +245,13 @@ auto CompoundOperation::isInverseOf(const Operation& other) const -> bool {
 }
 
 void CompoundOperation::invert() {
-  for (const auto& op : ops) {
-    op->invert();
+  // do not alter any operation if one of them cannot be inverted
+  std::vector<std::unique_ptr<Operation>> inverted{};
+  inverted.reserve(ops.size());
+  for (auto it = ops.crbegin(); it != ops.crend(); ++it) {
+    inverted.emplace_back((*it)->getInverted());
   }
-  std::reverse(ops.begin(), ops.end());
+  ops = std::move(inverted);
 }
 
 void CompoundOperation::apply(const Permutation& permutation) {
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..c800c22 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -640,6 +640,7 @@ void StandardOperation::invert() {
     throw std::runtime_error("Inverting gate" + toString(type) +
                              " is not supported.");
   }
+  name = toString(type);
 }
 
 void StandardOperation::dumpControls(std::ostringstream& op) const {
-- 
2.43.0


From a587973fe93d450a9a31ed6d54314b85a8864029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 35/77] fix: drop fixed parameters of simplified symbolic U
 gates

---
 src/ir/operations/SymbolicOperation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index d24e89c..8dcff3b 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -241,6 +241,14 @@ void SymbolicOperation::setup(const std::vector<SymbolOrNumber>& params) {
     storeSymbolOrNumber(params[i], i);
   }
   checkSymbolicUgate();
+  // remove the parameters that are fixed by the simplified gate type
+  if (numParams == 3U && (type == U2 || type == P) && isSymbolicOperation()) {
+    const auto numFixed = type == U2 ? 1 : 2;
+    parameter.erase(parameter.begin(), parameter.begin() + numFixed);
+    symbolicParameter.erase(symbolicParameter.begin(),
+                            symbolicParameter.begin() + numFixed);
+  }
+  symbolicParameter.resize(parameter.size());
   name = toString(type);
 }
 
@@ -373,6 +381,7 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  name = toString(type);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From e4f0b8bd4ccbb9674b080e455fd84fe66667ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 36/77] fix: keep layouts, registers and flags consistent after
 removing qubits and when inferring the output permutation

---
 include/mqt-core/ir/QuantumComputation.hpp |   2 +
 src/ir/QuantumComputation.cpp              | 182 +++++++++++++--------
 2 files changed, 117 insertions(+), 67 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index bbd9a2d..59eaf79 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -508,6 +508,8 @@ protected:
     const auto end = ops.cend();
     return isLastOperationOnQubit(opIt, end);
   }
+  /// Returns the physical and the logical index of the next qubit to be added
+  [[nodiscard]] std::pair<Qubit, Qubit> nextFreeQubit() const;
   void checkQubitRange(Qubit qubit) const;
   void checkQubitRange(Qubit qubit, const Controls& controls) const;
   void checkQubitRange(Qubit qubit0, Qubit qubit1,
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 0758776..8825b5e 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -73,6 +73,15 @@ void printSortedRegisters(
   }
 }
 
+/// Returns a register name based on the given one that is not in use yet
+std::string uniqueRegisterName(const QuantumRegisterMap& regs,
+                               std::string name) {
+  while (regs.find(name) != regs.end()) {
+    name += '_';
+  }
+  return name;
+}
+
 void consolidateRegister(QuantumRegisterMap& regs) {
   bool finished = regs.empty();
   while (!finished) {
@@ -88,18 +97,20 @@ void consolidateRegister(QuantumRegisterMap& regs) {
           auto& highReg = it->second;
           auto highidx = highReg.getStartIndex();
           auto highnum = highReg.getSize();
+          auto targetname = name.substr(0, name.size() - 2);
           // fusion of registers possible
-          if (lowidx + lownum == highidx) {
+          if (lowidx + lownum == highidx &&
+              regs.find(targetname) == regs.end()) {
             finished = false;
-            auto targetname = name.substr(0, name.size() - 2);
             auto targetidx = lowidx;
             auto targetnum = lownum + highnum;
             regs.erase(name);
             regs.erase(highname);
             regs.try_emplace(targetname, targetidx, targetnum, targetname);
+            // the iteration needs to be restarted since entries were removed
+            break;
           }
         }
-        break;
       }
     }
   }
@@ -136,10 +147,10 @@ void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
   } else {
     const auto startIndex = reg.getStartIndex();
     const auto count = reg.getSize();
-    const auto lowPart = reg.getName() + "_l";
+    const auto lowPart = uniqueRegisterName(regs, reg.getName() + "_l");
     const auto lowIndex = startIndex;
     const auto lowCount = idx;
-    const auto highPart = reg.getName() + "_h";
+    const auto highPart = uniqueRegisterName(regs, reg.getName() + "_h");
     const auto highIndex = startIndex + idx + 1;
     const auto highCount = count - idx - 1;
 
@@ -185,8 +196,8 @@ void addQubitToQubitRegister(QuantumRegisterMap& regs, Qubit physicalQubitIndex,
   if (regs.empty()) {
     regs.try_emplace(defaultRegName, physicalQubitIndex, 1, defaultRegName);
   } else if (!fusionPossible) {
-    const auto newRegName =
-        defaultRegName + "_" + std::to_string(physicalQubitIndex);
+    const auto newRegName = uniqueRegisterName(
+        regs, defaultRegName + "_" + std::to_string(physicalQubitIndex));
     regs.try_emplace(newRegName, physicalQubitIndex, 1, newRegName);
   }
 }
@@ -240,7 +251,9 @@ std::size_t QuantumComputation::getDepth() const {
     return 0U;
   }
 
-  std::vector<std::size_t> depths(getNqubits(), 0U);
+  // the physical qubit indices do not have to be consecutive
+  std::vector<std::size_t> depths(
+      static_cast<std::size_t>(getHighestPhysicalQubitIndex()) + 1U, 0U);
   for (const auto& op : ops) {
     op->addDepthContribution(depths);
   }
@@ -270,32 +283,37 @@ void QuantumComputation::initializeIOMapping() {
       auto classicIt = op->getClassics().cbegin();
       for (const auto& q : op->getTargets()) {
         const auto qubitidx = q;
+        const auto bitidx = *classicIt++;
         // only the first measurement of a qubit is used to determine the output
         // permutation
-        if (measuredQubits.count(qubitidx) != 0) {
+        if (!measuredQubits.emplace(qubitidx).second) {
+          continue;
+        }
+
+        if (!outputPermutationFound && outputPermutation.empty()) {
+          // no output permutation was set before -> start from the layout
+          outputPermutation = initialLayout;
+        }
+
+        // qubits that are explicitly not part of the output as well as
+        // classical bits that do not correspond to any output are of no
+        // relevance for the output permutation
+        const auto it = outputPermutation.find(qubitidx);
+        if (it == outputPermutation.end() || bitidx >= nqubits + nancillae) {
           continue;
         }
 
-        const auto bitidx = *classicIt;
-        if (outputPermutationFound) {
-          // output permutation was already set before -> permute existing
-          // values
-          if (const auto current = outputPermutation.at(qubitidx);
-              static_cast<std::size_t>(current) != bitidx) {
-            for (auto& p : outputPermutation) {
-              if (static_cast<std::size_t>(p.second) == bitidx) {
-                p.second = current;
-                break;
-              }
+        // permute existing values
+        const auto current = it->second;
+        if (static_cast<std::size_t>(current) != bitidx) {
+          for (auto& p : outputPermutation) {
+            if (static_cast<std::size_t>(p.second) == bitidx) {
+              p.second = current;
+              break;
             }
-            outputPermutation.at(qubitidx) = static_cast<Qubit>(bitidx);
           }
-        } else {
-          // directly set permutation if none was set beforehand
-          outputPermutation[qubitidx] = static_cast<Qubit>(bitidx);
+          it->second = static_cast<Qubit>(bitidx);
         }
-        measuredQubits.emplace(qubitidx);
-        ++classicIt;
       }
     }
   }
@@ -331,6 +349,16 @@ void QuantumComputation::initializeIOMapping() {
   }
 }
 
+std::pair<Qubit, Qubit> QuantumComputation::nextFreeQubit() const {
+  // the indices in use do not have to be consecutive due to qubit removals
+  const auto total = static_cast<Qubit>(getNqubits());
+  if (initialLayout.empty()) {
+    return {total, total};
+  }
+  return {std::max(total, getHighestPhysicalQubitIndex() + 1U),
+          std::max(total, getHighestLogicalQubitIndex() + 1U)};
+}
+
 const QuantumRegister&
 QuantumComputation::addQubitRegister(std::size_t nq,
                                      const std::string& regName) {
@@ -350,16 +378,17 @@ QuantumComputation::addQubitRegister(std::size_t nq,
         "qubits have been added");
   }
 
-  quantumRegisters.try_emplace(regName, static_cast<Qubit>(nqubits), nq,
-                               regName);
+  const auto [physical, logical] = nextFreeQubit();
+  quantumRegisters.try_emplace(regName, physical, nq, regName);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(nqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
+    const auto p = static_cast<Qubit>(physical + i);
+    const auto l = static_cast<Qubit>(logical + i);
+    initialLayout.emplace(p, l);
+    outputPermutation.emplace(p, l);
   }
   nqubits += nq;
-  ancillary.resize(nqubits + nancillae);
-  garbage.resize(nqubits + nancillae);
+  ancillary.resize(logical + nq);
+  garbage.resize(logical + nq);
   return quantumRegisters.at(regName);
 }
 
@@ -395,15 +424,16 @@ QuantumComputation::addAncillaryRegister(std::size_t nq,
         "[addAncillaryRegister] New register size must be larger than 0");
   }
 
-  const auto totalqubits = static_cast<Qubit>(nqubits + nancillae);
-  ancillaRegisters.try_emplace(regName, totalqubits, nq, regName);
-  ancillary.resize(totalqubits + nq);
-  garbage.resize(totalqubits + nq);
+  const auto [physical, logical] = nextFreeQubit();
+  ancillaRegisters.try_emplace(regName, physical, nq, regName);
+  ancillary.resize(logical + nq);
+  garbage.resize(logical + nq);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(totalqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
-    ancillary[j] = true;
+    const auto p = static_cast<Qubit>(physical + i);
+    const auto l = static_cast<Qubit>(logical + i);
+    initialLayout.emplace(p, l);
+    outputPermutation.emplace(p, l);
+    ancillary[l] = true;
   }
   nancillae += nq;
   return ancillaRegisters.at(regName);
@@ -445,15 +475,10 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
     outputPermutation.erase(physicalQubitIndex);
   }
 
-  // update ancillary and garbage tracking
-  const auto totalQubits = nqubits + nancillae;
-  for (std::size_t i = logicalQubitIndex; i < totalQubits; ++i) {
-    ancillary[i] = ancillary[i + 1];
-    garbage[i] = garbage[i + 1];
-  }
-  // unset last entry
-  ancillary[totalQubits] = false;
-  garbage[totalQubits] = false;
+  // update ancillary and garbage tracking. The remaining logical qubits keep
+  // their index.
+  ancillary.at(logicalQubitIndex) = false;
+  garbage.at(logicalQubitIndex) = false;
 
   return {physicalQubitIndex, outputQubitIndex};
 }
@@ -471,12 +496,15 @@ void QuantumComputation::addAncillaryQubit(
 
   addQubitToQubitRegister(ancillaRegisters, physicalQubitIndex, "anc");
 
-  // index of logical qubit
-  const auto logicalQubitIndex = nqubits + nancillae;
+  // index of logical qubit (which must not be in use already)
+  auto logicalQubitIndex = nqubits + nancillae;
+  while (containsLogicalQubit(static_cast<Qubit>(logicalQubitIndex)).first) {
+    ++logicalQubitIndex;
+  }
 
   // resize ancillary and garbage tracking vectors
-  ancillary.resize(logicalQubitIndex + 1U);
-  garbage.resize(logicalQubitIndex + 1U);
+  ancillary.resize(std::max(ancillary.size(), logicalQubitIndex + 1U));
+  garbage.resize(std::max(garbage.size(), logicalQubitIndex + 1U));
 
   // increase ancillae count and mark as ancillary
   nancillae++;
@@ -505,6 +533,11 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
         "already assigned");
   }
 
+  if (containsLogicalQubit(logicalQubitIndex).first) {
+    throw std::runtime_error("[addQubit] Attempting to insert logical qubit "
+                             "that is already assigned");
+  }
+
   if (logicalQubitIndex > nqubits) {
     throw std::runtime_error(
         "[addQubit] There are currently only " + std::to_string(nqubits) +
@@ -526,13 +559,11 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
   }
 
   // update ancillary and garbage tracking
-  const auto totalQubits = nqubits + nancillae;
-  ancillary.resize(totalQubits);
-  garbage.resize(totalQubits);
-  for (auto i = totalQubits - 1; i > logicalQubitIndex; --i) {
-    ancillary[i] = ancillary[i - 1];
-    garbage[i] = garbage[i - 1];
-  }
+  const auto nlogical =
+      std::max(nqubits + nancillae,
+               static_cast<std::size_t>(getHighestLogicalQubitIndex()) + 1U);
+  ancillary.resize(std::max(ancillary.size(), nlogical));
+  garbage.resize(std::max(garbage.size(), nlogical));
   // unset new entry
   ancillary[logicalQubitIndex] = false;
   garbage[logicalQubitIndex] = false;
@@ -731,6 +762,10 @@ void QuantumComputation::reset() {
   ancillaRegisters.clear();
   initialLayout.clear();
   outputPermutation.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
 }
 
 void QuantumComputation::dump(const std::string& filename,
@@ -792,6 +827,9 @@ void QuantumComputation::stripIdleQubits(bool force) {
           }
         }
       }
+      // the flags of the renumbered qubits move along
+      ancillary.erase(ancillary.begin() + logicalQubitIndex);
+      garbage.erase(garbage.begin() + logicalQubitIndex);
     }
   }
 }
@@ -909,7 +947,9 @@ bool QuantumComputation::isLastOperationOnQubit(
   }
 
   // determine which qubits the gate acts on
-  std::vector<bool> actson(nqubits + nancillae);
+  // the physical qubit indices do not have to be consecutive
+  std::vector<bool> actson(
+      static_cast<std::size_t>(getHighestPhysicalQubitIndex()) + 1U);
   for (std::size_t i = 0; i < actson.size(); ++i) {
     if ((*opIt)->actsOn(static_cast<Qubit>(i))) {
       actson[i] = true;
@@ -937,23 +977,31 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
+  // all qubits are regular qubits from here on
+  std::fill(ancillary.begin(), ancillary.end(), false);
   quantumRegisters.try_emplace(regName, 0, nqubits, regName);
   return quantumRegisters.at(regName);
 }
 
 void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
     const std::string& registerName) {
-  // ensure that the circuit contains enough classical registers
+  // nothing to be measured
+  if (outputPermutation.empty()) {
+    return;
+  }
+  // ensure that the circuit contains enough classical registers, i.e., that
+  // every value of the output permutation is a valid classical bit
+  const auto nbits = static_cast<std::size_t>(outputPermutation.maxValue()) + 1;
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
-    addClassicalRegister(outputPermutation.size(), registerName);
-  } else if (nclassics < outputPermutation.size()) {
+    addClassicalRegister(nbits, registerName);
+  } else if (nclassics < nbits) {
     if (classicalRegisters.find(registerName) != classicalRegisters.end()) {
       throw std::runtime_error(
           "[appendMeasurementsAccordingToOutputPermutation] Register " +
           registerName + " already exists but is too small");
     }
-    addClassicalRegister(outputPermutation.size() - nclassics, registerName);
+    addClassicalRegister(nbits - nclassics, registerName);
   }
   barrier();
   // append measurements according to output permutation
@@ -1235,7 +1283,7 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
+  if (it->isStandardOperation() || it->isSymbolicOperation()) {
     // Whenever a qubit has already been measured, the circuit is dynamic
     const auto& usedQubits = it->getUsedQubits();
     return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-- 
2.43.0


From 8237f6e8812b869fdfa372064def9256ad86bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 37/77] fix: correct symbolic subtraction and addition order
 and instantiate nested symbolic operations atomically

---
 .../operations/ClassicControlledOperation.hpp |  4 ++
 include/mqt-core/ir/operations/Expression.hpp | 24 ++++----
 src/ir/QuantumComputation.cpp                 | 59 +++++++++++++++----
 src/ir/operations/SymbolicOperation.cpp       | 11 +++-
 4 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index 26efccf..8d3fc57 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -103,6 +103,10 @@ public:
     return true;
   }
 
+  [[nodiscard]] bool isSymbolicOperation() const override {
+    return op->isSymbolicOperation();
+  }
+
   [[nodiscard]] bool actsOn(const Qubit i) const override {
     return op->actsOn(i);
   }
diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 4430add..0e4637f 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -353,7 +353,10 @@ public:
    * @param con Constant of the expression.
    */
   Expression(const std::vector<Term<T>>& ts, const U& con)
-      : terms(ts), constant(con) {};
+      : terms(ts), constant(con) {
+    sortTerms();
+    aggregateEqualTerms();
+  }
 
   /**
    * @brief Default constructor. Expression has no Terms and a constant of 0.
@@ -702,9 +705,8 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
 }
 
 template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
@@ -719,14 +721,16 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
   return lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const Term<T>& lhs, const Expression<T, U>& rhs) {
+  auto result = -rhs;
+  result += lhs;
+  return result;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const U& lhs, const Expression<T, U>& rhs) {
+  auto result = -rhs;
+  result += lhs;
+  return result;
 }
 
 template <typename T, typename U>
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 8825b5e..80bfb4d 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1144,19 +1144,58 @@ bool QuantumComputation::isVariableFree() const {
                      [](const auto& op) { return !op->isSymbolicOperation(); });
 }
 
+namespace {
+/// Returns the instantiated version of the given operation
+std::unique_ptr<Operation>
+instantiateOperation(const Operation& op,
+                     const VariableAssignment& assignment) {
+  if (const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+      symOp != nullptr) {
+    // as the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
+    auto instantiated = *symOp;
+    instantiated.instantiate(assignment);
+    return std::make_unique<StandardOperation>(
+        static_cast<const StandardOperation&>(instantiated));
+  }
+  if (const auto* comp = dynamic_cast<const CompoundOperation*>(&op);
+      comp != nullptr && comp->isSymbolicOperation()) {
+    auto instantiated = *comp;
+    for (auto& subOp : instantiated) {
+      subOp = instantiateOperation(*subOp, assignment);
+    }
+    return std::make_unique<CompoundOperation>(std::move(instantiated));
+  }
+  if (const auto* cond = dynamic_cast<const ClassicControlledOperation*>(&op);
+      cond != nullptr && cond->isSymbolicOperation()) {
+    auto body = instantiateOperation(*cond->getOperation(), assignment);
+    if (const auto& reg = cond->getControlRegister(); reg.has_value()) {
+      return std::make_unique<ClassicControlledOperation>(
+          std::move(body), *reg, cond->getExpectedValue(),
+          cond->getComparisonKind());
+    }
+    return std::make_unique<ClassicControlledOperation>(
+        std::move(body), cond->getControlBit().value(),
+        cond->getExpectedValue(), cond->getComparisonKind());
+  }
+  return op.clone();
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
-  for (auto& op : ops) {
-    if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
+  // do not alter the circuit if the assignment is incomplete
+  std::vector<std::unique_ptr<Operation>> instantiated{};
+  instantiated.reserve(ops.size());
+  for (const auto& op : ops) {
+    instantiated.emplace_back(
+        op->isSymbolicOperation() ? instantiateOperation(*op, assignment)
+                                  : nullptr);
+  }
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    if (instantiated[i] != nullptr) {
+      ops[i] = std::move(instantiated[i]);
     }
   }
   // after an operation is instantiated, the respective parameters can be
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 8dcff3b..53db08f 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -376,9 +376,16 @@ StandardOperation SymbolicOperation::getInstantiatedOperation(
 // Instantiates this Operation
 // Afterward casting to StandardOperation can be done if assignment is total
 void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
+  // evaluate all parameters first so that the operation is not altered if the
+  // assignment is incomplete
+  std::vector<fp> values{};
+  values.reserve(symbolicParameter.size());
   for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    parameter.at(i) = getInstantiation(getParameter(i), assignment);
-    symbolicParameter.at(i).reset();
+    values.emplace_back(getInstantiation(getParameter(i), assignment));
+  }
+  parameter = std::move(values);
+  for (auto& param : symbolicParameter) {
+    param.reset();
   }
   checkUgate();
   name = toString(type);
-- 
2.43.0


From e7da6dcb7c008ed67eb48d78a30ba8009e794bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 38/77] fix: make dumped OpenQASM programs faithful (register
 operands, Peres roles, global phase, OpenQASM 2 conditions, huge angles)

---
 include/mqt-core/ir/operations/Operation.hpp  | 20 ++++++++---
 .../ir/operations/StandardOperation.hpp       |  2 +-
 src/ir/QuantumComputation.cpp                 |  8 +++++
 .../operations/ClassicControlledOperation.cpp | 29 +++++++++------
 src/ir/operations/NonUnitaryOperation.cpp     | 28 +++++++++------
 src/ir/operations/StandardOperation.cpp       | 36 ++++++++-----------
 6 files changed, 76 insertions(+), 47 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index eb8ee29..d18119d 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -37,12 +37,22 @@ protected:
 
   static constexpr size_t OUTPUT_INDENT_SIZE = 2;
 
+  /// @returns whether the qubits are all qubits of one register in order
   static bool isWholeQubitRegister(const QubitIndexToRegisterMap& regMap,
-                                   const Qubit start, const Qubit end) {
-    const auto& startReg = regMap.at(start).first;
-    const auto& endReg = regMap.at(end).first;
-    return startReg == endReg && startReg.getStartIndex() == start &&
-           endReg.getEndIndex() == end;
+                                   const std::vector<Qubit>& qubits) {
+    if (qubits.empty()) {
+      return false;
+    }
+    const auto& reg = regMap.at(qubits.front()).first;
+    if (reg.getSize() != qubits.size()) {
+      return false;
+    }
+    for (std::size_t i = 0; i < qubits.size(); ++i) {
+      if (qubits[i] != reg.getStartIndex() + i) {
+        return false;
+      }
+    }
+    return true;
   }
 
 public:
diff --git a/include/mqt-core/ir/operations/StandardOperation.hpp b/include/mqt-core/ir/operations/StandardOperation.hpp
index b488c4d..299cd7b 100644
--- a/include/mqt-core/ir/operations/StandardOperation.hpp
+++ b/include/mqt-core/ir/operations/StandardOperation.hpp
@@ -41,7 +41,7 @@ protected:
   static void checkFractionPi(fp& ld) {
     const fp div = PI / ld;
     const fp nearest = std::nearbyint(div);
-    if (std::abs(div - nearest) < PARAMETER_TOLERANCE) {
+    if (nearest != 0. && std::abs(div - nearest) < PARAMETER_TOLERANCE) {
       ld = PI / nearest;
     }
   }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 80bfb4d..d9d14c0 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -32,6 +32,7 @@
 #include <iomanip>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <map>
 #include <memory>
 #include <numeric>
@@ -731,6 +732,13 @@ void QuantumComputation::dumpOpenQASM(std::ostream& of, bool openQASM3) const {
     }
   }
 
+  if (globalPhase != 0.) {
+    std::ostringstream phase;
+    phase << std::setprecision(std::numeric_limits<fp>::digits10)
+          << globalPhase;
+    of << "gphase(" << phase.str() << ");\n";
+  }
+
   for (const auto& op : ops) {
     op->dumpOpenQASM(of, qubitMap, bitMap, 0, openQASM3);
   }
diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 33b2499..287efd2 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -133,24 +134,32 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::ostringstream condition;
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
+  condition << ") ";
   if (openQASM3) {
-    of << "{\n";
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+    of << std::string(indent * OUTPUT_INDENT_SIZE, ' ') << "}\n";
+    return;
   }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
-  if (openQASM3) {
-    of << "}\n";
+  // an `if` controls exactly one statement in OpenQASM 2. Thus, the condition
+  // has to be repeated if the operation consists of several statements.
+  std::stringstream body;
+  op->dumpOpenQASM(body, qubitMap, bitMap, 0, openQASM3);
+  for (std::string statement; std::getline(body, statement);) {
+    of << condition.str() << statement << "\n";
   }
 }
 
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..c5cf90e 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -78,12 +78,18 @@ NonUnitaryOperation::print(std::ostream& os, const Permutation& permutation,
 }
 
 namespace {
-bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
-                              const Bit end) {
-  const auto& startReg = reg.at(start).first;
-  const auto& endReg = reg.at(end).first;
-  return startReg == endReg && startReg.getStartIndex() == start &&
-         endReg.getEndIndex() == end;
+bool isWholeClassicalRegister(const BitIndexToRegisterMap& regMap,
+                              const std::vector<Bit>& bits) {
+  const auto& reg = regMap.at(bits.front()).first;
+  if (reg.getSize() != bits.size()) {
+    return false;
+  }
+  for (std::size_t i = 0; i < bits.size(); ++i) {
+    if (bits[i] != reg.getStartIndex() + i) {
+      return false;
+    }
+  }
+  return true;
 }
 } // namespace
 
@@ -92,11 +98,11 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        const BitIndexToRegisterMap& bitMap,
                                        std::size_t indent,
                                        bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  const auto indentation = std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
-      (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+  if (isWholeQubitRegister(qubitMap, targets) &&
+      (type != Measure || isWholeClassicalRegister(bitMap, classics))) {
+    of << indentation;
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
@@ -110,10 +116,12 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
   }
   auto classicsIt = classics.cbegin();
   for (const auto& q : targets) {
+    of << indentation;
     const auto& qreg = qubitMap.at(q);
     if (type == Measure && openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << creg.second << " = ";
+      ++classicsIt;
     }
     of << toString(type) << " " << qreg.second;
     if (type == Measure && !openQASM3) {
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index c800c22..0dd10fe 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
@@ -439,28 +433,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
@@ -480,7 +474,7 @@ void StandardOperation::dumpGateType(
   }
   // Print target qubits.
   if (!targets.empty() && type == Barrier &&
-      isWholeQubitRegister(qubitMap, targets.front(), targets.back())) {
+      isWholeQubitRegister(qubitMap, targets)) {
     of << " " << qubitMap.at(targets.front()).first.getName();
   } else {
     for (auto it = targets.begin(); it != targets.end();) {
-- 
2.43.0


From 20a0cfa84b73e0e7fef94daac01adc56413650af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 39/77] fix: correct expression evaluation, scoping,
 conditions, layouts and error handling of the OpenQASM importer

---
 include/mqt-core/qasm3/Importer.hpp           |  36 +++-
 include/mqt-core/qasm3/NestedEnvironment.hpp  |  12 +-
 include/mqt-core/qasm3/Parser.hpp             |   7 +-
 include/mqt-core/qasm3/Scanner.hpp            |   2 +
 .../mqt-core/qasm3/passes/ConstEvalPass.hpp   |   4 +
 src/qasm3/Importer.cpp                        | 196 ++++++++++++++----
 src/qasm3/Parser.cpp                          |  59 +++++-
 src/qasm3/Scanner.cpp                         |  97 +++++----
 src/qasm3/passes/ConstEvalPass.cpp            | 147 ++++++++++---
 src/qasm3/passes/TypeCheckPass.cpp            |  51 +++--
 10 files changed, 461 insertions(+), 150 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..b750dac 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -23,6 +23,7 @@
 #include <iosfwd>
 #include <map>
 #include <memory>
+#include <set>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -51,16 +52,16 @@ public:
    * @param filename The path to the QASM3 file to import
    * @return The imported @ref qc::QuantumComputation instance
    */
-  [[nodiscard]] static auto importf(const std::string& filename)
-      -> qc::QuantumComputation;
+  [[nodiscard]] static auto
+  importf(const std::string& filename) -> qc::QuantumComputation;
 
   /**
    * Imports a QASM3 program from a string into a @ref qc::QuantumComputation
    * @param qasm The QASM3 program to import
    * @return The imported @ref qc::QuantumComputation instance
    */
-  [[nodiscard]] static auto imports(const std::string& qasm)
-      -> qc::QuantumComputation;
+  [[nodiscard]] static auto
+  imports(const std::string& qasm) -> qc::QuantumComputation;
 
   /**
    * Imports a QASM3 program from a stream into a @ref qc::QuantumComputation
@@ -91,6 +92,9 @@ private:
 
   std::map<std::string, std::shared_ptr<Gate>> gates;
 
+  // the user-defined gates that are currently being expanded
+  std::set<const Gate*> activeGates;
+
   bool openQASM2CompatMode{false};
 
   qc::Permutation initialLayout;
@@ -124,6 +128,17 @@ private:
   translateCondition(const std::shared_ptr<Expression>& condition,
                      const std::shared_ptr<DebugInfo>& debugInfo) const;
 
+  /**
+   * @brief Translates an expression that must denote a single classical bit
+   * @param expression The expression to translate.
+   * @param debugInfo The debug information of the expression.
+   * @return The classical bit.
+   * @throws CompilerError If the expression is not a single bit.
+   */
+  [[nodiscard]] qc::Bit
+  translateSingleBit(const std::shared_ptr<Expression>& expression,
+                     const std::shared_ptr<DebugInfo>& debugInfo) const;
+
   static uint64_t
   evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
                            const std::shared_ptr<DebugInfo>& debugInfo,
@@ -149,13 +164,12 @@ private:
   void visitGateCallStatement(
       std::shared_ptr<GateCallStatement> gateCallStatement) override;
 
-  auto
-  evaluateGateCall(const std::shared_ptr<GateCallStatement>& gateCallStatement,
-                   const std::string& identifier,
-                   const std::vector<std::shared_ptr<Expression>>& parameters,
-                   std::vector<std::shared_ptr<GateOperand>> targets,
-                   const qc::QuantumRegisterMap& qregs)
-      -> std::unique_ptr<qc::Operation>;
+  auto evaluateGateCall(
+      const std::shared_ptr<GateCallStatement>& gateCallStatement,
+      const std::string& identifier,
+      const std::vector<std::shared_ptr<Expression>>& parameters,
+      std::vector<std::shared_ptr<GateOperand>> targets,
+      const qc::QuantumRegisterMap& qregs) -> std::unique_ptr<qc::Operation>;
 
   static std::shared_ptr<Gate>
   getMcGateDefinition(const std::string& identifier, size_t operandSize,
diff --git a/include/mqt-core/qasm3/NestedEnvironment.hpp b/include/mqt-core/qasm3/NestedEnvironment.hpp
index 34d0034..4ba4613 100644
--- a/include/mqt-core/qasm3/NestedEnvironment.hpp
+++ b/include/mqt-core/qasm3/NestedEnvironment.hpp
@@ -26,12 +26,14 @@ public:
 
   void pop() { env.pop_back(); }
 
+  // Scopes are lexical: in addition to the identifiers of the innermost scope,
+  // only the identifiers of the global scope are visible.
   std::optional<T> find(std::string key) {
-    for (auto it = env.rbegin(); it != env.rend(); ++it) {
-      auto found = it->find(key);
-      if (found != it->end()) {
-        return found->second;
-      }
+    if (const auto found = env.back().find(key); found != env.back().end()) {
+      return found->second;
+    }
+    if (const auto found = env.front().find(key); found != env.front().end()) {
+      return found->second;
     }
     return std::nullopt;
   }
diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..767e1ce 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -21,6 +21,7 @@
 #include "Token.hpp"
 #include "Types_fwd.hpp"
 
+#include <cstddef>
 #include <istream>
 #include <memory>
 #include <optional>
@@ -79,6 +80,8 @@ class Parser final {
 
   std::stack<ScannerState> scanner;
   std::shared_ptr<DebugInfo> includeDebugInfo{nullptr};
+  // current nesting depth of the parsed expression
+  size_t nesting = 0;
 
   [[noreturn]] void error(const Token& token, const std::string& msg);
 
@@ -136,6 +139,8 @@ public:
 
   std::shared_ptr<Expression> exponentiation();
 
+  std::shared_ptr<Expression> primary();
+
   std::shared_ptr<Expression> factor();
 
   std::shared_ptr<Expression> term();
@@ -151,7 +156,7 @@ public:
 
   std::shared_ptr<Expression> parseTypeDesignator();
 
-  static qc::Permutation parsePermutation(std::string s);
+  qc::Permutation parsePermutation(const Token& token);
 
   void scan();
 
diff --git a/include/mqt-core/qasm3/Scanner.hpp b/include/mqt-core/qasm3/Scanner.hpp
index e4c864e..662ffff 100644
--- a/include/mqt-core/qasm3/Scanner.hpp
+++ b/include/mqt-core/qasm3/Scanner.hpp
@@ -45,6 +45,8 @@ class Scanner {
 
   std::optional<Token> consumeWhitespaceAndComments();
 
+  std::optional<Token> consumeLineComment();
+
   static bool isValidDigit(uint8_t base, char c);
 
   std::string consumeNumberLiteral(uint8_t base);
diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index 333762b..8406fbd 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -54,6 +54,8 @@ class ConstEvalPass final
       public ExpressionVisitor<std::optional<ConstEvalValue>>,
       public TypeVisitor<std::shared_ptr<Expression>> {
   NestedEnvironment<ConstEvalValue> env;
+  // whether the division of integers yields a real number (OpenQASM 2)
+  bool realArithmetic = false;
 
 public:
   ConstEvalPass() = default;
@@ -69,6 +71,8 @@ public:
 
   void processStatement(Statement& statement) override;
 
+  void setRealArithmetic(const bool real) { realArithmetic = real; }
+
   void pushEnv() { env.push(); }
   void popEnv() { env.pop(); }
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..c87a620 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -34,6 +34,7 @@
 #include <cstdint>
 #include <fstream>
 #include <istream>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -121,6 +122,9 @@ void Importer::translateGateOperand(
     throw CompilerError("Usage of unknown quantum register.", debugInfo);
   }
   const auto& qreg = qregIterator->second;
+  if (qreg.getSize() == 0) {
+    throw CompilerError("Usage of empty quantum register.", debugInfo);
+  }
 
   // full register
   if (indexedIdentifier->indices.empty()) {
@@ -135,7 +139,7 @@ void Importer::translateGateOperand(
                         debugInfo);
   }
   const auto indexOperator = indexedIdentifier->indices[0];
-  if (indexOperator->indexExpressions.size() > 1) {
+  if (indexOperator->indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
@@ -175,7 +179,7 @@ void Importer::translateBitOperand(
                         debugInfo);
   }
   const auto& indexExpressions = indices[0]->indexExpressions;
-  if (indexExpressions.size() > 1) {
+  if (indexExpressions.size() != 1) {
     throw CompilerError("Only single index expressions are supported.",
                         debugInfo);
   }
@@ -190,6 +194,42 @@ void Importer::translateBitOperand(
   bits.emplace_back(creg.getStartIndex() + index);
 }
 
+namespace {
+qc::ComparisonKind mirrorComparison(const qc::ComparisonKind kind) {
+  switch (kind) {
+  case qc::ComparisonKind::Lt:
+    return qc::ComparisonKind::Gt;
+  case qc::ComparisonKind::Leq:
+    return qc::ComparisonKind::Geq;
+  case qc::ComparisonKind::Gt:
+    return qc::ComparisonKind::Lt;
+  case qc::ComparisonKind::Geq:
+    return qc::ComparisonKind::Leq;
+  default:
+    return kind;
+  }
+}
+
+bool compare(const uint64_t lhs, const uint64_t rhs,
+             const qc::ComparisonKind kind) {
+  switch (kind) {
+  case qc::ComparisonKind::Eq:
+    return lhs == rhs;
+  case qc::ComparisonKind::Neq:
+    return lhs != rhs;
+  case qc::ComparisonKind::Lt:
+    return lhs < rhs;
+  case qc::ComparisonKind::Leq:
+    return lhs <= rhs;
+  case qc::ComparisonKind::Gt:
+    return lhs > rhs;
+  case qc::ComparisonKind::Geq:
+    return lhs >= rhs;
+  }
+  qc::unreachable();
+}
+} // namespace
+
 std::variant<std::pair<qc::Bit, bool>,
              std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
 Importer::translateCondition(
@@ -225,9 +265,31 @@ Importer::translateCondition(
         lhsIsIdentifier ? std::dynamic_pointer_cast<IndexedIdentifier>(lhs)
                         : std::dynamic_pointer_cast<IndexedIdentifier>(rhs);
     const auto& identifier = indexedIdentifier->identifier;
-    const auto val = lhsIsIdentifier
-                         ? std::dynamic_pointer_cast<Constant>(rhs)->getUInt()
-                         : std::dynamic_pointer_cast<Constant>(lhs)->getUInt();
+    const auto constant =
+        std::dynamic_pointer_cast<Constant>(lhsIsIdentifier ? rhs : lhs);
+    if (constant->isFP() || constant->isBool() ||
+        (constant->isSInt() && constant->getSInt() < 0)) {
+      throw CompilerError(
+          "Only non-negative integer constants are supported in conditions.",
+          debugInfo);
+    }
+    const auto val = constant->getUInt();
+    // `constant op register` is equivalent to `register mirrored(op) constant`
+    const auto kind =
+        lhsIsIdentifier ? *comparisonKind : mirrorComparison(*comparisonKind);
+
+    if (!indexedIdentifier->indices.empty()) {
+      // The comparison of a single bit to a constant.
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      const auto trueForZero = compare(0, val, kind);
+      const auto trueForOne = compare(1, val, kind);
+      if (trueForZero == trueForOne) {
+        throw CompilerError(
+            "Condition does not depend on the value of the bit.", debugInfo);
+      }
+      return std::pair{bits[0], trueForOne};
+    }
 
     const auto creg = qc->getClassicalRegisters().find(identifier);
     if (creg == qc->getClassicalRegisters().end()) {
@@ -235,32 +297,39 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
-    return std::tuple{creg->second, *comparisonKind, val};
+    return std::tuple{creg->second, kind, val};
   }
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
       unaryExpression != nullptr) {
-    // This should already be caught by the type checker.
-    assert(unaryExpression->op == UnaryExpression::LogicalNot ||
-           unaryExpression->op == UnaryExpression::BitwiseNot);
-    const auto& indexedIdentifier =
-        std::dynamic_pointer_cast<IndexedIdentifier>(unaryExpression->operand);
-    std::vector<qc::Bit> bits{};
-    translateBitOperand(indexedIdentifier, bits, debugInfo);
-    // This should already be caught by the type checker.
-    assert(bits.size() == 1);
-    return std::pair{bits[0], false};
+    if (unaryExpression->op != UnaryExpression::LogicalNot &&
+        unaryExpression->op != UnaryExpression::BitwiseNot) {
+      throw CompilerError("Unsupported unary operator in condition.",
+                          debugInfo);
+    }
+    return std::pair{translateSingleBit(unaryExpression->operand, debugInfo),
+                     false};
   }
   // must be a single bit at this point
+  return std::pair{translateSingleBit(condition, debugInfo), true};
+}
+
+qc::Bit Importer::translateSingleBit(
+    const std::shared_ptr<Expression>& expression,
+    const std::shared_ptr<DebugInfo>& debugInfo) const {
   const auto& indexedIdentifier =
-      std::dynamic_pointer_cast<IndexedIdentifier>(condition);
-  // should also be caught by the type checker
-  assert(indexedIdentifier != nullptr);
+      std::dynamic_pointer_cast<IndexedIdentifier>(expression);
+  if (indexedIdentifier == nullptr) {
+    throw CompilerError("Only bits and comparisons of classical registers with "
+                        "constants are supported in conditions.",
+                        debugInfo);
+  }
   std::vector<qc::Bit> bits{};
   translateBitOperand(indexedIdentifier, bits, debugInfo);
-  // This should already be caught by the type checker.
-  assert(bits.size() == 1);
-  return std::pair{bits[0], true};
+  if (bits.size() != 1) {
+    throw CompilerError("Expected a single bit in condition.", debugInfo);
+  }
+  return bits[0];
 }
 
 uint64_t
@@ -272,7 +341,8 @@ Importer::evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
   }
 
   const auto constInt = std::dynamic_pointer_cast<Constant>(expr);
-  if (!constInt) {
+  if (!constInt || constInt->isFP() || constInt->isBool() ||
+      (constInt->isSInt() && constInt->getSInt() < 0)) {
     throw CompilerError("Expected a constant integer expression.", debugInfo);
   }
 
@@ -303,11 +373,26 @@ void Importer::visitProgram(
 
   // Finally, if we have a initial layout and output permutation specified,
   // apply them.
-  if (!initialLayout.empty()) {
-    qc->initialLayout = initialLayout;
-  }
-  if (!outputPermutation.empty()) {
-    qc->outputPermutation = outputPermutation;
+  const auto checkPermutation = [&](const qc::Permutation& permutation,
+                                    const bool complete,
+                                    const std::shared_ptr<DebugInfo>& info) {
+    const auto nq = qc->getNqubits();
+    if ((complete && permutation.size() != nq) ||
+        std::any_of(permutation.begin(), permutation.end(),
+                    [nq](const auto& entry) { return entry.first >= nq; })) {
+      throw CompilerError("Permutation does not match the number of qubits.",
+                          info);
+    }
+  };
+  for (const auto& statement : program) {
+    if (std::dynamic_pointer_cast<InitialLayout>(statement) != nullptr) {
+      checkPermutation(initialLayout, true, statement->debugInfo);
+      qc->initialLayout = initialLayout;
+    } else if (std::dynamic_pointer_cast<OutputPermutation>(statement) !=
+               nullptr) {
+      checkPermutation(outputPermutation, false, statement->debugInfo);
+      qc->outputPermutation = outputPermutation;
+    }
   }
 }
 
@@ -315,6 +400,7 @@ void Importer::visitVersionDeclaration(
     const std::shared_ptr<VersionDeclaration> versionDeclaration) {
   if (versionDeclaration->version < 3) {
     openQASM2CompatMode = true;
+    constEvalPass.setRealArithmetic(true);
   }
 }
 
@@ -333,6 +419,10 @@ void Importer::visitDeclarationStatement(
   if (const auto sizedTy =
           std::dynamic_pointer_cast<DesignatedType<uint64_t>>(ty)) {
     const auto designator = sizedTy->getDesignator();
+    if (designator > std::numeric_limits<qc::Qubit>::max()) {
+      throw CompilerError("Register size is too large.",
+                          declarationStatement->debugInfo);
+    }
     switch (sizedTy->type) {
     case Qubit:
       qc->addQubitRegister(designator, identifier);
@@ -362,8 +452,10 @@ void Importer::visitDeclarationStatement(
   if (const auto measureExpression =
           std::dynamic_pointer_cast<MeasureExpression>(
               declarationStatement->expression->expression)) {
-    assert(!declarationStatement->isConst &&
-           "Type check pass should catch this");
+    if (declarationStatement->isConst) {
+      throw CompilerError("Constants cannot be initialized by a measurement.",
+                          declarationStatement->debugInfo);
+    }
     visitMeasureAssignment(std::make_shared<IndexedIdentifier>(identifier),
                            measureExpression, declarationStatement->debugInfo);
     return;
@@ -382,8 +474,10 @@ void Importer::visitAssignmentStatement(
     const std::shared_ptr<AssignmentStatement> assignmentStatement) {
   const auto identifier = assignmentStatement->identifier->identifier;
   const auto declaration = declarations.find(identifier);
-  assert(declaration.has_value() && "Checked by type check pass");
-  assert(!declaration->get()->isConst && "Checked by type check pass");
+  if (!declaration.has_value() || declaration->get()->isConst) {
+    throw CompilerError("Cannot assign to '" + identifier + "'.",
+                        assignmentStatement->debugInfo);
+  }
 
   if (const auto measureExpression =
           std::dynamic_pointer_cast<MeasureExpression>(
@@ -429,8 +523,13 @@ void Importer::visitGateStatement(
   }
 
   if (openQASM2CompatMode) {
-    // we need to check if this is a standard gate
-    identifier = parseGateIdentifierCompatMode(identifier).first;
+    // we need to check if this is a (controlled) standard gate
+    const auto baseIdentifier = parseGateIdentifierCompatMode(identifier).first;
+    if (const auto it = gates.find(baseIdentifier);
+        it != gates.end() &&
+        std::dynamic_pointer_cast<StandardGate>(it->second) != nullptr) {
+      identifier = baseIdentifier;
+    }
   }
 
   if (auto prevDeclaration = gates.find(identifier);
@@ -542,10 +641,11 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                         gateCallStatement->debugInfo);
   }
 
+  // qubits are assigned to the modifiers from left to right, followed by the
+  // operands of the gate itself
   controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
+  const auto nGateControls = nControls;
+  size_t nModifierControls = 0;
 
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
@@ -556,7 +656,7 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                                                 gateCallStatement->debugInfo,
                                                 /*defaultValue=*/
                                                 1);
-      if (targets.size() < n + nControls) {
+      if (n > targets.size() || targets.size() - n < nControls) {
         throw CompilerError(
             "Gate '" + identifier + "' takes " + std::to_string(n + nControls) +
                 " controls, but only " + std::to_string(targets.size()) +
@@ -565,8 +665,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
       }
 
       for (size_t i = 0; i < n; ++i) {
-        controls.emplace_back(targets[nControls + i], ctrlModifier->ctrlType);
+        controls.emplace_back(targets[nModifierControls + i],
+                              ctrlModifier->ctrlType);
       }
+      nModifierControls += n;
       nControls += n;
     } else if (auto invModifier =
                    std::dynamic_pointer_cast<InvGateModifier>(modifier);
@@ -579,6 +681,9 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+  for (size_t i = 0; i < nGateControls; ++i) {
+    controls.emplace_back(targets[nModifierControls + i], true);
+  }
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
@@ -701,7 +806,7 @@ Importer::getMcGateDefinition(const std::string& identifier, size_t operandSize,
   std::vector<std::string> targetParams{};
   std::vector<std::shared_ptr<GateOperand>> operands;
   size_t nTargets = operandSize;
-  if (identifier == "mcx_vchain") {
+  if (identifier == "mcx_vchain" && nTargets > 3) {
     nTargets -= (nTargets + 1) / 2 - 2;
   } else if (identifier == "mcx_recursive" && nTargets > 5) {
     nTargets -= 1;
@@ -752,6 +857,11 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    // gates may not be defined (directly or indirectly) in terms of themselves
+    if (!activeGates.emplace(compoundGate).second) {
+      throw CompilerError("Recursive gate definitions are not supported.",
+                          debugInfo);
+    }
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -823,6 +933,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    activeGates.erase(compoundGate);
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
@@ -878,6 +989,11 @@ void Importer::visitBarrierStatement(
     translateGateOperand(gate, qubits, qc->getQuantumRegisters(),
                          barrierStatement->debugInfo);
   }
+  if (barrierStatement->gates.empty()) {
+    // a barrier without operands applies to all qubits
+    qc->barrier();
+    return;
+  }
   qc->barrier(qubits);
 }
 
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..0b58846 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -18,6 +18,8 @@
 #include "qasm3/Token.hpp"
 #include "qasm3/Types.hpp"
 
+#include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <fstream>
 #include <istream>
@@ -143,13 +145,19 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
       }
     }
 
+    // An include statement just adds a new file to the scanner.
+    if (current().kind == Token::Kind::Include) {
+      parseInclude();
+      continue;
+    }
+
     statements.push_back(parseStatement());
   }
   return statements;
 }
 
 std::shared_ptr<Statement> Parser::parseStatement() {
-  if (current().kind == Token::Kind::Include) {
+  while (current().kind == Token::Kind::Include) {
     // We parse include and then continue in parseStatement, as the include
     // statement just adds a new file to the scanner.
     parseInclude();
@@ -177,13 +185,13 @@ std::shared_ptr<Statement> Parser::parseStatement() {
     const auto tBegin = current();
     scan();
     return std::make_shared<InitialLayout>(
-        InitialLayout{makeDebugInfo(tBegin), parsePermutation(tBegin.str)});
+        InitialLayout{makeDebugInfo(tBegin), parsePermutation(tBegin)});
   }
   if (current().kind == Token::Kind::OutputPermutation) {
     const auto tBegin = current();
     scan();
     return std::make_shared<OutputPermutation>(
-        OutputPermutation{makeDebugInfo(tBegin), parsePermutation(tBegin.str)});
+        OutputPermutation{makeDebugInfo(tBegin), parsePermutation(tBegin)});
   }
 
   if (current().kind == Token::Kind::Gate) {
@@ -652,6 +660,18 @@ std::shared_ptr<MeasureExpression> Parser::parseMeasureExpression() {
 }
 
 std::shared_ptr<Expression> Parser::exponentiation() {
+  // bound the recursion depth of the parser
+  constexpr size_t maxNesting = 1000;
+  if (nesting >= maxNesting) {
+    error(current(), "Expression is nested too deeply.");
+  }
+  ++nesting;
+  auto x = primary();
+  --nesting;
+  return x;
+}
+
+std::shared_ptr<Expression> Parser::primary() {
   switch (current().kind) {
   case Token::Kind::Minus: {
     scan();
@@ -790,6 +810,14 @@ std::shared_ptr<Expression> Parser::comparison() {
   return x;
 }
 
+namespace {
+bool isNegativeLiteral(const Token& token) {
+  return (token.kind == Token::Kind::IntegerLiteral && token.isSigned) ||
+         (token.kind == Token::Kind::FloatLiteral &&
+          std::signbit(token.valReal));
+}
+} // namespace
+
 std::shared_ptr<Expression> Parser::parseExpression() {
   std::shared_ptr<Expression> x{};
   if (current().kind == Token::Kind::Minus) {
@@ -809,11 +837,20 @@ std::shared_ptr<Expression> Parser::parseExpression() {
   }
 
   while (current().kind == Token::Kind::Plus ||
-         current().kind == Token::Kind::Minus) {
+         current().kind == Token::Kind::Minus || isNegativeLiteral(current())) {
     auto const op = current().kind == Token::Kind::Plus
                         ? BinaryExpression::Op::Add
                         : BinaryExpression::Op::Subtract;
-    scan();
+    if (auto& token = scanner.top().t; isNegativeLiteral(token)) {
+      // The scanner includes a minus sign in the literal it precedes. After an
+      // operand, it is the binary operator.
+      token.val =
+          static_cast<int64_t>(uint64_t{0} - static_cast<uint64_t>(token.val));
+      token.valReal = -token.valReal;
+      token.isSigned = false;
+    } else {
+      scan();
+    }
     const auto y = comparison();
     x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
   }
@@ -898,13 +935,19 @@ std::shared_ptr<Expression> Parser::parseTypeDesignator() {
   return expr;
 }
 
-qc::Permutation Parser::parsePermutation(std::string s) {
+qc::Permutation Parser::parsePermutation(const Token& token) {
+  auto s = token.str;
   qc::Permutation permutation{};
   static const auto QUBIT_REGEX = std::regex("\\d+");
   qc::Qubit logicalQubit = 0;
   for (std::smatch m; std::regex_search(s, m, QUBIT_REGEX); s = m.suffix()) {
-    auto physicalQubit = static_cast<qc::Qubit>(std::stoul(m.str()));
-    permutation.emplace(physicalQubit, logicalQubit);
+    qc::Qubit physicalQubit{};
+    if (!(std::istringstream(m.str()) >> physicalQubit)) {
+      error(token, "Invalid qubit '" + m.str() + "' in permutation.");
+    }
+    if (!permutation.emplace(physicalQubit, logicalQubit).second) {
+      error(token, "Duplicate qubit '" + m.str() + "' in permutation.");
+    }
     ++logicalQubit;
   }
   return permutation;
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..04f4bac 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cctype>
 #include <cstdint>
+#include <exception>
 #include <iostream>
 #include <istream>
 #include <optional>
@@ -54,54 +55,61 @@ char Scanner::peek() const {
 }
 
 std::optional<Token> Scanner::consumeWhitespaceAndComments() {
-  while (isSpace(ch)) {
-    nextCh();
-  }
-  if (ch == '/' && peek() == '/') {
-    Token t(line, col);
-    // consume until newline
-    std::stringstream content;
-    while (ch != '\n' && ch != 0) {
-      content << ch;
+  while (true) {
+    while (isSpace(ch)) {
       nextCh();
     }
-    if (ch == '\n') {
+    if (ch == '/' && peek() == '/') {
+      if (auto commentToken = consumeLineComment()) {
+        return commentToken;
+      }
+    } else if (ch == '/' && peek() == '*') {
+      // consume /*
       nextCh();
-    }
-
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
-
-    const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
-      t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
-      t.kind = Token::Kind::OutputPermutation;
+      nextCh();
+      while (ch != 0 && (ch != '*' || peek() != '/')) {
+        nextCh();
+      }
+      // consume */
+      expect('*');
+      expect('/');
     } else {
-      return consumeWhitespaceAndComments();
+      return {};
     }
-
-    t.str = content.str();
-    t.endCol = col;
-    t.endLine = line;
-    return t;
   }
-  if (ch == '/' && peek() == '*') {
-    // consume /*
+}
+
+std::optional<Token> Scanner::consumeLineComment() {
+  Token t(line, col);
+  // consume until newline
+  std::stringstream content;
+  while (ch != '\n' && ch != 0) {
+    content << ch;
     nextCh();
+  }
+  if (ch == '\n') {
     nextCh();
-    while (ch != 0 && (ch != '*' || peek() != '/')) {
-      nextCh();
-    }
-    // consume */
-    expect('*');
-    expect('/');
+  }
 
-    // tail calls should be optimized away
-    return consumeWhitespaceAndComments();
+  // only comments solely consisting of a layout have a special meaning
+  static const auto INITIAL_LAYOUT_REGEX =
+      std::regex("//\\s*i (\\d+ )*(\\d+)\\s*");
+  static const auto OUTPUT_PERMUTATION_REGEX =
+      std::regex("//\\s*o (\\d+ )*(\\d+)\\s*");
+
+  const auto str = content.str();
+  if (std::regex_match(str, INITIAL_LAYOUT_REGEX)) {
+    t.kind = Token::Kind::InitialLayout;
+  } else if (std::regex_match(str, OUTPUT_PERMUTATION_REGEX)) {
+    t.kind = Token::Kind::OutputPermutation;
+  } else {
+    return {};
   }
 
-  return {};
+  t.str = content.str();
+  t.endCol = col;
+  t.endLine = line;
+  return t;
 }
 
 Token Scanner::consumeName() {
@@ -174,7 +182,7 @@ uint64_t Scanner::parseIntegerLiteral(const std::string& str,
       val += static_cast<uint64_t>(c) - '0';
     } else {
       val *= base;
-      val += static_cast<uint64_t>(c) - 'a' + 10;
+      val += static_cast<uint64_t>(c) - (c >= 'a' ? 'a' : 'A') + 10;
     }
   }
   return val;
@@ -246,7 +254,7 @@ Token Scanner::consumeNumberLiteral() {
 
     try {
       t.valReal = std::stod(ss.str());
-    } catch (std::invalid_argument&) {
+    } catch (std::exception&) {
       error("Unable to parse float literal");
     }
 
@@ -328,10 +336,15 @@ Token Scanner::consumeString() {
   nextCh();
 
   std::stringstream content;
-  while (ch != delim) {
+  while (ch != delim && ch != 0) {
     content << ch;
     nextCh();
   }
+  if (ch == 0) {
+    error("Unterminated string literal");
+    t.kind = Token::Kind::None;
+    return t;
+  }
 
   t.str = content.str();
 
@@ -656,7 +669,9 @@ bool Scanner::isSpace(const char c) {
 }
 
 bool Scanner::isFirstIdChar(const char c) {
-  return isalpha(c) != 0 || c == '_';
+  // any non-ASCII character is part of a UTF-8 encoded identifier, e.g., `π`
+  const auto u = static_cast<unsigned char>(c);
+  return isalpha(u) != 0 || c == '_' || u >= 0x80U;
 }
 
 bool Scanner::isNum(const char c) { return c >= '0' && c <= '9'; }
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..2025475 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -28,19 +28,34 @@
 
 namespace qasm3::const_eval {
 namespace {
-template <typename T> T power(T base, T exponent) {
-  if (exponent == 0) {
-    return 1;
+uint64_t checkedMultiply(const uint64_t a, const uint64_t b,
+                         const uint64_t limit) {
+  if (a != 0 && b > limit / a) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
   }
+  return a * b;
+}
 
-  T result = 1;
-  for (T i = 0; i < exponent; ++i) {
-    if (result > std::numeric_limits<T>::max() / base) {
-      throw ConstEvalError("Integer overflow in constant evaluation.");
+template <typename T> T power(const T base, const T exponent) {
+  const auto negative = base < 0 && exponent % 2 != 0;
+  auto limit = static_cast<uint64_t>(std::numeric_limits<T>::max());
+  if (negative) {
+    ++limit;
+  }
+  auto factor = base < 0 ? uint64_t{0} - static_cast<uint64_t>(base)
+                         : static_cast<uint64_t>(base);
+  auto remaining = static_cast<uint64_t>(exponent);
+  uint64_t result = 1;
+  while (remaining != 0) {
+    if (remaining % 2 != 0) {
+      result = checkedMultiply(result, factor, limit);
+    }
+    remaining /= 2;
+    if (remaining != 0) {
+      factor = checkedMultiply(factor, factor, limit);
     }
-    result *= base;
   }
-  return result;
+  return static_cast<T>(negative ? uint64_t{0} - result : result);
 }
 } // namespace
 
@@ -191,36 +206,46 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     break;
   case BinaryExpression::Subtract:
     result.value = static_cast<int64_t>(lhsU - rhsU);
+    if (!isSigned && lhsU < rhsU) {
+      // the difference of two unsigned literals may be negative
+      result.type = ConstEvalValue::Type::ConstInt;
+    }
     break;
   case BinaryExpression::Multiply:
-    if (isSigned) {
-      result.value = lhs * rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU * rhsU);
-    }
+    result.value = static_cast<int64_t>(lhsU * rhsU);
     break;
   case BinaryExpression::Divide:
+    if (rhs == 0) {
+      throw ConstEvalError("Division by zero in constant evaluation.");
+    }
     if (isSigned) {
-      result.value = lhs / rhs;
+      // avoid the overflow of `INT64_MIN / -1`
+      result.value =
+          rhs == -1 ? static_cast<int64_t>(uint64_t{0} - lhsU) : lhs / rhs;
     } else {
       result.value = static_cast<int64_t>(lhsU / rhsU);
     }
     break;
   case BinaryExpression::Modulo:
+    if (rhs == 0) {
+      throw ConstEvalError("Division by zero in constant evaluation.");
+    }
     if (isSigned) {
-      result.value = lhs % rhs;
+      result.value = rhs == -1 ? int64_t{0} : lhs % rhs;
     } else {
       result.value = static_cast<int64_t>(lhsU % rhsU);
     }
     break;
   case BinaryExpression::LeftShift:
-    if (isSigned) {
-      result.value = lhs << rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU << rhsU);
+    if (rhsU >= 64) {
+      throw ConstEvalError("Invalid shift amount in constant evaluation.");
     }
+    result.value = static_cast<int64_t>(lhsU << rhsU);
     break;
   case BinaryExpression::RightShift:
+    if (rhsU >= 64) {
+      throw ConstEvalError("Invalid shift amount in constant evaluation.");
+    }
     if (isSigned) {
       result.value = lhs >> rhs;
     } else {
@@ -400,6 +425,44 @@ ConstEvalValue evalBoolExpression(const BinaryExpression::Op op, const bool lhs,
 
   return result;
 }
+
+bool isInteger(const ConstEvalValue& val) {
+  return val.type == ConstEvalValue::Type::ConstInt ||
+         val.type == ConstEvalValue::Type::ConstUint;
+}
+
+void toFloat(ConstEvalValue& val) {
+  if (val.type == ConstEvalValue::Type::ConstUint) {
+    val.value =
+        static_cast<double>(static_cast<uint64_t>(std::get<0>(val.value)));
+  } else {
+    val.value = static_cast<double>(std::get<0>(val.value));
+  }
+  val.type = ConstEvalValue::Type::ConstFloat;
+}
+
+// A negative exponent always yields a real number. In addition, any division is
+// a real-valued division in OpenQASM 2.
+bool needsRealArithmetic(const BinaryExpression::Op op,
+                         const ConstEvalValue& lhs, const ConstEvalValue& rhs,
+                         const bool realArithmetic) {
+  const auto lhsInt = std::get<0>(lhs.value);
+  const auto rhsInt = std::get<0>(rhs.value);
+  if (op == BinaryExpression::Power) {
+    return rhs.type == ConstEvalValue::Type::ConstInt && rhsInt < 0;
+  }
+  if (op == BinaryExpression::Divide && realArithmetic) {
+    if (rhsInt == 0) {
+      return false;
+    }
+    return lhs.type == ConstEvalValue::Type::ConstUint
+               ? static_cast<uint64_t>(lhsInt) %
+                         static_cast<uint64_t>(rhsInt) !=
+                     0
+               : rhsInt != -1 && lhsInt % rhsInt != 0;
+  }
+  return false;
+}
 } // namespace
 
 std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
@@ -428,17 +491,11 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
   } else if ((lhsVal->type == ConstEvalValue::Type::ConstUint ||
               lhsVal->type == ConstEvalValue::Type::ConstInt) &&
              rhsVal->type == ConstEvalValue::Type::ConstFloat) {
-    lhsVal->value = static_cast<double>(std::get<0>(lhsVal->value));
-    lhsVal->type = ConstEvalValue::Type::ConstFloat;
+    toFloat(*lhsVal);
   } else if (lhsVal->type == ConstEvalValue::Type::ConstFloat &&
-             rhsVal->type == ConstEvalValue::Type::ConstUint) {
-    rhsVal->value =
-        static_cast<double>(static_cast<uint64_t>(std::get<0>(rhsVal->value)));
-    rhsVal->type = ConstEvalValue::Type::ConstFloat;
-  } else if (lhsVal->type == ConstEvalValue::Type::ConstFloat &&
-             rhsVal->type == ConstEvalValue::Type::ConstInt) {
-    rhsVal->value = static_cast<double>(std::get<0>(rhsVal->value));
-    rhsVal->type = ConstEvalValue::Type::ConstFloat;
+             (rhsVal->type == ConstEvalValue::Type::ConstUint ||
+              rhsVal->type == ConstEvalValue::Type::ConstInt)) {
+    toFloat(*rhsVal);
   } else if (lhsVal->type != rhsVal->type) {
     throw ConstEvalError(
         "Type mismatch, cannot evaluate binary expression on types " +
@@ -446,6 +503,13 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
         ".");
   }
 
+  // Some integer operations do not have an integer result.
+  if (isInteger(*lhsVal) && needsRealArithmetic(binaryExpression->op, *lhsVal,
+                                                *rhsVal, realArithmetic)) {
+    toFloat(*lhsVal);
+    toFloat(*rhsVal);
+  }
+
   // If we are operating on two types with different width, coerce to the wider.
   size_t const width = std::max(lhsVal->width, rhsVal->width);
 
@@ -475,6 +539,23 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     return std::nullopt;
   }
 
+  // Integers are implicitly converted to floating point numbers when used as
+  // arguments of mathematical functions.
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    if (isInteger(*val)) {
+      toFloat(*val);
+    }
+    break;
+  default:
+    break;
+  }
+
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
   switch (unaryExpression->op) {
@@ -493,8 +574,10 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (val->type == ConstEvalValue::Type::ConstInt) {
-      val->value = -std::get<0>(val->value);
+    if (isInteger(*val)) {
+      val->value = static_cast<int64_t>(
+          uint64_t{0} - static_cast<uint64_t>(std::get<0>(val->value)));
+      val->type = ConstEvalValue::Type::ConstInt;
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..5bc6e6c 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -24,6 +24,19 @@
 #include <string>
 
 namespace qasm3::type_checking {
+namespace {
+// Types are shared between expressions and declarations. Hence, any adaptation
+// of the designator has to be performed on a copy.
+InferredType withDesignator(const InferredType& inferred,
+                            const uint64_t designator) {
+  if (const auto ty =
+          std::dynamic_pointer_cast<DesignatedType<uint64_t>>(inferred.type)) {
+    return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+        std::make_shared<DesignatedType<uint64_t>>(ty->type, designator))};
+  }
+  return inferred;
+}
+} // namespace
 
 InferredType TypeCheckPass::error(const std::string& msg,
                                   const std::shared_ptr<DebugInfo>& debugInfo) {
@@ -78,15 +91,16 @@ void TypeCheckPass::visitGateStatement(
   // we save the current environment to restore it afterward
   const auto oldEnv = env;
 
+  // parameters and qubits shadow global identifiers of the same name
   for (const auto& param : gateStatement->parameters->identifiers) {
-    env.emplace(param->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
-                    DesignatedType<uint64_t>::getFloatTy(64))});
+    env.insert_or_assign(param->identifier,
+                         InferredType{std::dynamic_pointer_cast<ResolvedType>(
+                             DesignatedType<uint64_t>::getFloatTy(64))});
   }
   for (const auto& operand : gateStatement->qubits->identifiers) {
-    env.emplace(operand->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
-                    DesignatedType<uint64_t>::getQubitTy(1))});
+    env.insert_or_assign(operand->identifier,
+                         InferredType{std::dynamic_pointer_cast<ResolvedType>(
+                             DesignatedType<uint64_t>::getQubitTy(1))});
   }
 
   for (const auto& stmt : gateStatement->statements) {
@@ -166,7 +180,7 @@ void TypeCheckPass::visitAssignmentStatement(
     return;
   }
 
-  if (!idTy->second.type->fits(*exprTy.type)) {
+  if (!exprTy.isError && !idTy->second.type->fits(*exprTy.type)) {
     std::stringstream ss;
     ss << "Type mismatch in assignment. Expected '";
     ss << idTy->second.type->toString();
@@ -208,8 +222,8 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    ty = withDesignator(
+        ty, std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
@@ -266,6 +280,9 @@ InferredType TypeCheckPass::visitBinaryExpression(
 InferredType TypeCheckPass::visitUnaryExpression(
     const std::shared_ptr<UnaryExpression> unaryExpression) {
   auto type = visit(unaryExpression->operand);
+  if (type.isError) {
+    return type;
+  }
 
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
@@ -279,6 +296,14 @@ InferredType TypeCheckPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
+    if (!type.type->isNumber() || type.type->isBit()) {
+      return error("Cannot negate non-numeric type.");
+    }
+    if (type.type->isUint()) {
+      // the result is potentially negative
+      return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+          DesignatedType<uint64_t>::getIntTy(type.type->getDesignator()))};
+    }
     break;
   case UnaryExpression::DurationOf:
     return InferredType{UnsizedType<uint64_t>::getDurationTy()};
@@ -344,12 +369,14 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
     const std::shared_ptr<IndexedIdentifier> indexedIdentifier) {
   auto type = visitIdentifierExpression(
       std::make_shared<IdentifierExpression>(indexedIdentifier->identifier));
-  if (indexedIdentifier->indices.empty()) {
+  if (type.isError || indexedIdentifier->indices.empty()) {
     return type;
   }
+  for (const auto& index : indexedIdentifier->indices) {
+    checkIndexOperator(*index);
+  }
   // Assume that indexed access always results in a single element
-  type.type->setDesignator(1);
-  return type;
+  return withDesignator(type, 1);
 }
 
 InferredType TypeCheckPass::visitMeasureExpression(
-- 
2.43.0


From 4652be13afe7a4e657a2e2992792d14a820061eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 40/77] fix: evaluate constant expressions and modifiers
 uniformly in the OpenQASM importer

---
 include/mqt-core/qasm3/Importer.hpp | 16 +++++-----
 src/qasm3/Importer.cpp              | 37 ++++++++++++++++-------
 src/qasm3/Scanner.cpp               | 14 ++++-----
 src/qasm3/passes/ConstEvalPass.cpp  | 46 +++++++++++++++++++----------
 4 files changed, 69 insertions(+), 44 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index b750dac..9acd06a 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -107,12 +107,11 @@ private:
   void translateGateOperand(const std::shared_ptr<GateOperand>& gateOperand,
                             std::vector<qc::Qubit>& qubits,
                             const qc::QuantumRegisterMap& qregs,
-                            const std::shared_ptr<DebugInfo>& debugInfo) const;
+                            const std::shared_ptr<DebugInfo>& debugInfo);
 
   void translateBitOperand(
       const std::shared_ptr<IndexedIdentifier>& indexedIdentifier,
-      std::vector<qc::Bit>& bits,
-      const std::shared_ptr<DebugInfo>& debugInfo) const;
+      std::vector<qc::Bit>& bits, const std::shared_ptr<DebugInfo>& debugInfo);
 
   /**
    * @brief Translates a condition expression
@@ -126,7 +125,7 @@ private:
       std::pair<qc::Bit, bool>,
       std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
   translateCondition(const std::shared_ptr<Expression>& condition,
-                     const std::shared_ptr<DebugInfo>& debugInfo) const;
+                     const std::shared_ptr<DebugInfo>& debugInfo);
 
   /**
    * @brief Translates an expression that must denote a single classical bit
@@ -137,12 +136,11 @@ private:
    */
   [[nodiscard]] qc::Bit
   translateSingleBit(const std::shared_ptr<Expression>& expression,
-                     const std::shared_ptr<DebugInfo>& debugInfo) const;
+                     const std::shared_ptr<DebugInfo>& debugInfo);
 
-  static uint64_t
-  evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
-                           const std::shared_ptr<DebugInfo>& debugInfo,
-                           uint64_t defaultValue = 0);
+  uint64_t evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
+                                    const std::shared_ptr<DebugInfo>& debugInfo,
+                                    uint64_t defaultValue = 0);
 
   void visitVersionDeclaration(
       std::shared_ptr<VersionDeclaration> versionDeclaration) override;
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index c87a620..cdfc7c1 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -102,7 +102,7 @@ Importer::initializeBuiltins() {
 void Importer::translateGateOperand(
     const std::shared_ptr<GateOperand>& gateOperand,
     std::vector<qc::Qubit>& qubits, const qc::QuantumRegisterMap& qregs,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+    const std::shared_ptr<DebugInfo>& debugInfo) {
   if (gateOperand->isHardwareQubit()) {
     const auto hardwareQubit = gateOperand->getHardwareQubit();
     // Ensure that the circuit has enough qubits.
@@ -157,8 +157,7 @@ void Importer::translateGateOperand(
 
 void Importer::translateBitOperand(
     const std::shared_ptr<IndexedIdentifier>& indexedIdentifier,
-    std::vector<qc::Bit>& bits,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+    std::vector<qc::Bit>& bits, const std::shared_ptr<DebugInfo>& debugInfo) {
   const auto iter =
       qc->getClassicalRegisters().find(indexedIdentifier->identifier);
   if (iter == qc->getClassicalRegisters().end()) {
@@ -232,9 +231,8 @@ bool compare(const uint64_t lhs, const uint64_t rhs,
 
 std::variant<std::pair<qc::Bit, bool>,
              std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
-Importer::translateCondition(
-    const std::shared_ptr<Expression>& condition,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+Importer::translateCondition(const std::shared_ptr<Expression>& condition,
+                             const std::shared_ptr<DebugInfo>& debugInfo) {
   if (const auto binaryExpression =
           std::dynamic_pointer_cast<BinaryExpression>(condition);
       binaryExpression != nullptr) {
@@ -314,9 +312,9 @@ Importer::translateCondition(
   return std::pair{translateSingleBit(condition, debugInfo), true};
 }
 
-qc::Bit Importer::translateSingleBit(
-    const std::shared_ptr<Expression>& expression,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+qc::Bit
+Importer::translateSingleBit(const std::shared_ptr<Expression>& expression,
+                             const std::shared_ptr<DebugInfo>& debugInfo) {
   const auto& indexedIdentifier =
       std::dynamic_pointer_cast<IndexedIdentifier>(expression);
   if (indexedIdentifier == nullptr) {
@@ -340,7 +338,8 @@ Importer::evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
     return defaultValue;
   }
 
-  const auto constInt = std::dynamic_pointer_cast<Constant>(expr);
+  const auto value = constEvalPass.visit(expr);
+  const auto constInt = value ? value->toExpr() : nullptr;
   if (!constInt || constInt->isFP() || constInt->isBool() ||
       (constInt->isSInt() && constInt->getSInt() < 0)) {
     throw CompilerError("Expected a constant integer expression.", debugInfo);
@@ -599,7 +598,23 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
         identifier == "mcx_vchain" || identifier == "mcx_recursive" ||
         identifier == "mcphase") {
       // we create a temp gate definition for these gates
-      gate = getMcGateDefinition(identifier, gateCallStatement->operands.size(),
+      // whose number of qubits excludes the ones assigned to the modifiers
+      auto nOperands = targets.size();
+      for (const auto& modifier : gateCallStatement->modifiers) {
+        if (const auto ctrlModifier =
+                std::dynamic_pointer_cast<CtrlGateModifier>(modifier);
+            ctrlModifier != nullptr) {
+          const auto n = evaluatePositiveConstant(
+              ctrlModifier->expression, gateCallStatement->debugInfo, 1);
+          if (n >= nOperands) {
+            throw CompilerError("Not enough qubits were supplied to gate '" +
+                                    identifier + "'.",
+                                gateCallStatement->debugInfo);
+          }
+          nOperands -= n;
+        }
+      }
+      gate = getMcGateDefinition(identifier, nOperands,
                                  gateCallStatement->debugInfo);
     } else if (openQASM2CompatMode) {
       auto [updatedIdentifier, nControls] =
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 04f4bac..f48a477 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -192,6 +192,12 @@ Token Scanner::consumeNumberLiteral() {
   Token t(line, col);
   uint8_t base = 10;
 
+  bool negative = false;
+  if (ch == '-') {
+    negative = true;
+    nextCh();
+  }
+
   if (ch == '0') {
     switch (peek()) {
     case 'b':
@@ -215,14 +221,6 @@ Token Scanner::consumeNumberLiteral() {
       break;
     }
   }
-  bool negative = false;
-  if (ch == '-') {
-    if (base != 10) {
-      error("Negative numbers are only allowed in base 10");
-    }
-    negative = true;
-    nextCh();
-  }
 
   const auto valBeforeDecimalSeparator = consumeNumberLiteral(base);
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 2025475..b23ace2 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -57,6 +57,30 @@ template <typename T> T power(const T base, const T exponent) {
   }
   return static_cast<T>(negative ? uint64_t{0} - result : result);
 }
+
+bool isInteger(const ConstEvalValue& val) {
+  return val.type == ConstEvalValue::Type::ConstInt ||
+         val.type == ConstEvalValue::Type::ConstUint;
+}
+
+void toFloat(ConstEvalValue& val) {
+  if (val.type == ConstEvalValue::Type::ConstUint) {
+    val.value =
+        static_cast<double>(static_cast<uint64_t>(std::get<0>(val.value)));
+  } else {
+    val.value = static_cast<double>(std::get<0>(val.value));
+  }
+  val.type = ConstEvalValue::Type::ConstFloat;
+}
+
+bool isFloatDeclaration(const DeclarationStatement& statement) {
+  if (std::holds_alternative<std::shared_ptr<TypeExpr>>(statement.type)) {
+    const auto& type = std::get<std::shared_ptr<TypeExpr>>(statement.type);
+    return type != nullptr && type->isFP();
+  }
+  const auto& type = std::get<std::shared_ptr<ResolvedType>>(statement.type);
+  return type != nullptr && type->isFP();
+}
 } // namespace
 
 void ConstEvalPass::processStatement(Statement& statement) {
@@ -78,12 +102,17 @@ void ConstEvalPass::visitDeclarationStatement(
         "Constant declaration initialization expression must be initialized.");
   }
 
-  const auto value = visit(declarationStatement->expression->expression);
+  auto value = visit(declarationStatement->expression->expression);
   if (!value) {
     throw ConstEvalError(
         "Constant declaration initialization expression must be const.");
   }
 
+  // An integer is converted when initializing a floating point constant.
+  if (isInteger(*value) && isFloatDeclaration(*declarationStatement)) {
+    toFloat(*value);
+  }
+
   declarationStatement->expression->expression = value->toExpr();
 
   this->env.emplace(declarationStatement->identifier, *value);
@@ -426,21 +455,6 @@ ConstEvalValue evalBoolExpression(const BinaryExpression::Op op, const bool lhs,
   return result;
 }
 
-bool isInteger(const ConstEvalValue& val) {
-  return val.type == ConstEvalValue::Type::ConstInt ||
-         val.type == ConstEvalValue::Type::ConstUint;
-}
-
-void toFloat(ConstEvalValue& val) {
-  if (val.type == ConstEvalValue::Type::ConstUint) {
-    val.value =
-        static_cast<double>(static_cast<uint64_t>(std::get<0>(val.value)));
-  } else {
-    val.value = static_cast<double>(std::get<0>(val.value));
-  }
-  val.type = ConstEvalValue::Type::ConstFloat;
-}
-
 // A negative exponent always yields a real number. In addition, any division is
 // a real-valued division in OpenQASM 2.
 bool needsRealArithmetic(const BinaryExpression::Op op,
-- 
2.43.0


From 277f822bea9e2567225e5f87e0d38692749a972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 41/77] fix: reject out-of-range literals and overly deep or
 long input of the OpenQASM importer instead of overflowing

---
 include/mqt-core/qasm3/Parser.hpp  | 13 +++++-
 include/mqt-core/qasm3/Scanner.hpp |  3 +-
 src/qasm3/Importer.cpp             |  3 ++
 src/qasm3/Parser.cpp               | 31 ++++++++++++---
 src/qasm3/Scanner.cpp              | 64 +++++++++++++++++++-----------
 5 files changed, 81 insertions(+), 33 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 767e1ce..661dd34 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -17,7 +17,7 @@
 #pragma once
 
 #include "Scanner.hpp"
-#include "Statement_fwd.hpp"
+#include "Statement.hpp"
 #include "Token.hpp"
 #include "Types_fwd.hpp"
 
@@ -80,9 +80,18 @@ class Parser final {
 
   std::stack<ScannerState> scanner;
   std::shared_ptr<DebugInfo> includeDebugInfo{nullptr};
-  // current nesting depth of the parsed expression
+  // current nesting depth of the parsed expressions and statements
   size_t nesting = 0;
 
+  // number of binary operators parsed within the current statement
+  size_t operators = 0;
+
+  void enterNesting();
+
+  std::shared_ptr<Expression> combine(BinaryExpression::Op op,
+                                      const std::shared_ptr<Expression>& lhs,
+                                      const std::shared_ptr<Expression>& rhs);
+
   [[noreturn]] void error(const Token& token, const std::string& msg);
 
   [[nodiscard]] Token last() const;
diff --git a/include/mqt-core/qasm3/Scanner.hpp b/include/mqt-core/qasm3/Scanner.hpp
index 662ffff..f85f2b9 100644
--- a/include/mqt-core/qasm3/Scanner.hpp
+++ b/include/mqt-core/qasm3/Scanner.hpp
@@ -51,7 +51,8 @@ class Scanner {
 
   std::string consumeNumberLiteral(uint8_t base);
 
-  static uint64_t parseIntegerLiteral(const std::string& str, uint8_t base);
+  static std::optional<uint64_t> parseIntegerLiteral(const std::string& str,
+                                                     uint8_t base);
 
   Token consumeNumberLiteral();
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index cdfc7c1..39f34f7 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -105,6 +105,9 @@ void Importer::translateGateOperand(
     const std::shared_ptr<DebugInfo>& debugInfo) {
   if (gateOperand->isHardwareQubit()) {
     const auto hardwareQubit = gateOperand->getHardwareQubit();
+    if (hardwareQubit >= std::numeric_limits<qc::Qubit>::max()) {
+      throw CompilerError("Hardware qubit index out of bounds.", debugInfo);
+    }
     // Ensure that the circuit has enough qubits.
     // Currently, we emulate hardware qubits via a single quantum register q.
     for (size_t i = qc->getNqubits(); i <= hardwareQubit; ++i) {
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 0b58846..6d88990 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -157,6 +157,7 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
 }
 
 std::shared_ptr<Statement> Parser::parseStatement() {
+  operators = 0;
   while (current().kind == Token::Kind::Include) {
     // We parse include and then continue in parseStatement, as the include
     // statement just adds a new file to the scanner.
@@ -416,6 +417,7 @@ std::shared_ptr<IfStatement> Parser::parseIfStatement() {
 }
 
 std::vector<std::shared_ptr<Statement>> Parser::parseBlockOrStatement() {
+  enterNesting();
   std::vector<std::shared_ptr<Statement>> statements;
 
   if (current().kind == Token::Kind::LBrace) {
@@ -430,6 +432,7 @@ std::vector<std::shared_ptr<Statement>> Parser::parseBlockOrStatement() {
     statements.push_back(parseStatement());
   }
 
+  --nesting;
   return statements;
 }
 
@@ -659,13 +662,17 @@ std::shared_ptr<MeasureExpression> Parser::parseMeasureExpression() {
   return std::make_shared<MeasureExpression>(MeasureExpression{gateOperand});
 }
 
-std::shared_ptr<Expression> Parser::exponentiation() {
+void Parser::enterNesting() {
   // bound the recursion depth of the parser
   constexpr size_t maxNesting = 1000;
   if (nesting >= maxNesting) {
-    error(current(), "Expression is nested too deeply.");
+    error(current(), "Program is nested too deeply.");
   }
   ++nesting;
+}
+
+std::shared_ptr<Expression> Parser::exponentiation() {
+  enterNesting();
   auto x = primary();
   --nesting;
   return x;
@@ -748,12 +755,24 @@ std::shared_ptr<Expression> Parser::primary() {
   }
 }
 
+std::shared_ptr<Expression>
+Parser::combine(const BinaryExpression::Op op,
+                const std::shared_ptr<Expression>& lhs,
+                const std::shared_ptr<Expression>& rhs) {
+  // bound the height of the expression tree
+  constexpr size_t maxOperators = 5000;
+  if (++operators > maxOperators) {
+    error(current(), "Expression has too many operators.");
+  }
+  return std::make_shared<BinaryExpression>(op, lhs, rhs);
+}
+
 std::shared_ptr<Expression> Parser::factor() {
   auto x = exponentiation();
   while (current().kind == Token::Kind::Caret) {
     scan();
     const auto y = exponentiation();
-    x = std::make_shared<BinaryExpression>(BinaryExpression::Op::Power, x, y);
+    x = combine(BinaryExpression::Op::Power, x, y);
   }
   return x;
 }
@@ -767,7 +786,7 @@ std::shared_ptr<Expression> Parser::term() {
                         : BinaryExpression::Op::Divide;
     scan();
     const auto y = factor();
-    x = std::make_shared<BinaryExpression>(op, x, y);
+    x = combine(op, x, y);
   }
   return x;
 }
@@ -805,7 +824,7 @@ std::shared_ptr<Expression> Parser::comparison() {
     }
     scan();
     const auto y = term();
-    x = std::make_shared<BinaryExpression>(op, x, y);
+    x = combine(op, x, y);
   }
   return x;
 }
@@ -852,7 +871,7 @@ std::shared_ptr<Expression> Parser::parseExpression() {
       scan();
     }
     const auto y = comparison();
-    x = std::make_shared<BinaryExpression>(BinaryExpression{op, x, y});
+    x = combine(op, x, y);
   }
 
   return x;
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index f48a477..d14d62b 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -15,10 +15,12 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cmath>
 #include <cstdint>
-#include <exception>
+#include <cstdlib>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <optional>
 #include <regex>
 #include <sstream>
@@ -173,17 +175,20 @@ std::string Scanner::consumeNumberLiteral(const uint8_t base) {
   return ss.str();
 }
 
-uint64_t Scanner::parseIntegerLiteral(const std::string& str,
-                                      const uint8_t base) {
+std::optional<uint64_t> Scanner::parseIntegerLiteral(const std::string& str,
+                                                     const uint8_t base) {
+  if (str.empty()) {
+    return std::nullopt;
+  }
   uint64_t val = 0;
   for (const auto c : str) {
-    if (isNum(c)) {
-      val *= base;
-      val += static_cast<uint64_t>(c) - '0';
-    } else {
-      val *= base;
-      val += static_cast<uint64_t>(c) - (c >= 'a' ? 'a' : 'A') + 10;
+    const auto digit =
+        isNum(c) ? static_cast<uint64_t>(c) - '0'
+                 : static_cast<uint64_t>(c) - (c >= 'a' ? 'a' : 'A') + 10;
+    if (val > (std::numeric_limits<uint64_t>::max() - digit) / base) {
+      return std::nullopt;
     }
+    val = val * base + digit;
   }
   return val;
 }
@@ -250,29 +255,33 @@ Token Scanner::consumeNumberLiteral() {
       ss << valAfterExponent;
     }
 
-    try {
-      t.valReal = std::stod(ss.str());
-    } catch (std::exception&) {
+    t.kind = Token::Kind::FloatLiteral;
+    const auto literal = ss.str();
+    char* end = nullptr;
+    t.valReal = std::strtod(literal.c_str(), &end);
+    if (end != literal.c_str() + literal.size() || std::isinf(t.valReal)) {
       error("Unable to parse float literal");
+      t.kind = Token::Kind::None;
     }
-
-    t.kind = Token::Kind::FloatLiteral;
     if (negative) {
       t.valReal *= -1;
     }
   } else {
-    t.val = static_cast<int64_t>(
-        parseIntegerLiteral(valBeforeDecimalSeparator, base));
-    t.kind = Token::Kind::IntegerLiteral;
-    if (negative) {
-      t.val *= -1;
-      t.isSigned = true;
+    const auto val = parseIntegerLiteral(valBeforeDecimalSeparator, base);
+    constexpr auto maxNegative = static_cast<uint64_t>(1) << 63U;
+    if (val.has_value() && !(negative && *val > maxNegative)) {
+      t.kind = Token::Kind::IntegerLiteral;
+      t.val = static_cast<int64_t>(negative ? 0 - *val : *val);
+      t.isSigned = negative;
+    } else {
+      error("Unable to parse integer literal");
+      t.kind = Token::Kind::None;
     }
   }
 
   const auto suffix1 = ch;
   const auto suffix2 = peek();
-  if (hasTimingSuffix(suffix1, suffix2)) {
+  if (t.kind != Token::Kind::None && hasTimingSuffix(suffix1, suffix2)) {
     double factor = 1.0;
     nextCh();
     if (suffix1 != 's' && (suffix1 != 'd' || suffix2 != 't')) {
@@ -308,12 +317,19 @@ Token Scanner::consumeHardwareQubit() {
   expect('$');
 
   t.kind = Token::Kind::HardwareQubit;
-  t.val = 0;
+  std::string digits;
   while (isNum(ch)) {
-    t.val *= 10;
-    t.val += static_cast<int64_t>(ch - '0');
+    digits += ch;
     nextCh();
   }
+  const auto index = parseIntegerLiteral(digits, 10);
+  if (index.has_value() &&
+      *index <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) {
+    t.val = static_cast<int64_t>(*index);
+  } else {
+    error("Unable to parse hardware qubit");
+    t.kind = Token::Kind::None;
+  }
 
   t.endCol = col;
   t.endLine = line;
-- 
2.43.0


From 7eb03eec74c62e2d2af70bd27272734531e0fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 42/77] fix: make the gate removal, fusion and SWAP
 decomposition passes sound on nested, controlled and non-unitary operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 140 ++++++++++-----------
 1 file changed, 63 insertions(+), 77 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..4232db9 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -50,33 +50,27 @@ void CircuitOptimizer::removeIdentities(QuantumComputation& qc) {
   removeOperation(qc, {I}, 0);
 }
 
-void CircuitOptimizer::removeOperation(
-    QuantumComputation& qc, const std::unordered_set<OpType>& opTypes,
-    const size_t opSize) {
+namespace {
+/// Remove all matching operations, recursing into compound operations
+template <class Container>
+void removeOperation(Container& ops, const std::unordered_set<OpType>& opTypes,
+                     const size_t opSize) {
   // opSize = 0 means that the operation can have any number of qubits
-  auto it = qc.begin();
-  while (it != qc.end()) {
+  auto it = ops.begin();
+  while (it != ops.end()) {
     if (opTypes.find((*it)->getType()) != opTypes.end() &&
-        (opSize == 0 || it->get()->getNqubits() == opSize)) {
-      it = qc.erase(it);
+        (opSize == 0 || (*it)->getNqubits() == opSize)) {
+      it = ops.erase(it);
     } else if ((*it)->isCompoundOperation()) {
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-      auto cit = compOp.cbegin();
-      while (cit != compOp.cend()) {
-        if (const auto* cop = cit->get();
-            opTypes.find(cop->getType()) != opTypes.end() &&
-            (opSize == 0 || cop->getNqubits() == opSize)) {
-          cit = compOp.erase(cit);
-        } else {
-          ++cit;
-        }
-      }
+      removeOperation(compOp, opTypes, opSize);
       if (compOp.empty()) {
-        it = qc.erase(it);
+        it = ops.erase(it);
       } else {
         if (compOp.size() == 1) {
           // CompoundOperation has degraded to single Operation
-          (*it) = std::move(*(compOp.begin()));
+          auto single = std::move(*(compOp.begin()));
+          (*it) = std::move(single);
         }
         ++it;
       }
@@ -85,6 +79,13 @@ void CircuitOptimizer::removeOperation(
     }
   }
 }
+} // namespace
+
+void CircuitOptimizer::removeOperation(
+    QuantumComputation& qc, const std::unordered_set<OpType>& opTypes,
+    const size_t opSize) {
+  ::qc::removeOperation(qc, opTypes, opSize);
+}
 
 void CircuitOptimizer::swapReconstruction(QuantumComputation& qc) {
   auto dag = DAG(qc.getHighestPhysicalQubitIndex() + 1);
@@ -186,7 +187,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +205,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
@@ -588,69 +590,53 @@ void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
   removeIdentities(qc);
 }
 
-void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
-                                     bool isDirectedArchitecture) {
-  // decompose SWAPS in three cnot and optionally in four H
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
-        const auto targets = (*it)->getTargets();
-        it = qc.erase(it);
-        it = qc.insert(it, std::make_unique<StandardOperation>(
-                               Control{targets[0]}, targets[1], X));
-        if (isDirectedArchitecture) {
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[0]}, targets[1], X));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-        } else {
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[1]}, targets[0], X));
-        }
-        it = qc.insert(it, std::make_unique<StandardOperation>(
-                               Control{targets[0]}, targets[1], X));
+namespace {
+/// Decompose all SWAPs, recursing into compound operations
+template <class Container>
+void decomposeSWAP(Container& ops, const bool isDirectedArchitecture) {
+  const auto insert = [&ops](auto it, std::unique_ptr<Operation>&& op) {
+    return ops.insert(it, std::move(op));
+  };
+  auto it = ops.begin();
+  while (it != ops.end()) {
+    if ((*it)->isStandardOperation() && (*it)->getType() == SWAP &&
+        !(*it)->isControlled()) {
+      const auto targets = (*it)->getTargets();
+      const auto cx = [&targets](const std::size_t c, const std::size_t t) {
+        return std::make_unique<StandardOperation>(Control{targets[c]},
+                                                   targets[t], X);
+      };
+      const auto h = [&targets](const std::size_t t) {
+        return std::make_unique<StandardOperation>(targets[t], H);
+      };
+      it = ops.erase(it);
+      it = insert(it, cx(0, 1));
+      if (isDirectedArchitecture) {
+        it = insert(it, h(0));
+        it = insert(it, h(1));
+        it = insert(it, cx(0, 1));
+        it = insert(it, h(0));
+        it = insert(it, h(1));
       } else {
-        ++it;
+        it = insert(it, cx(1, 0));
       }
-    } else if ((*it)->isCompoundOperation()) {
-      auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-      auto cit = compOp.begin();
-      while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
-          const auto targets = (*cit)->getTargets();
-          cit = compOp.erase(cit);
-          cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                 targets[1], X);
-          if (isDirectedArchitecture) {
-            cit = compOp.insert<StandardOperation>(cit, targets[0], H);
-            cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                   targets[1], X);
-            cit = compOp.insert<StandardOperation>(cit, targets[0], H);
-            cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-          } else {
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[1]},
-                                                   targets[0], X);
-          }
-          cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                 targets[1], X);
-        } else {
-          ++cit;
-        }
-      }
-      ++it;
+      it = insert(it, cx(0, 1));
     } else {
+      if ((*it)->isCompoundOperation()) {
+        decomposeSWAP(dynamic_cast<CompoundOperation&>(**it),
+                      isDirectedArchitecture);
+      }
       ++it;
     }
   }
 }
+} // namespace
+
+void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
+                                     bool isDirectedArchitecture) {
+  // decompose SWAPS in three cnot and optionally in four H
+  ::qc::decomposeSWAP(qc, isDirectedArchitecture);
+}
 
 namespace {
 void changeTargets(Targets& targets,
-- 
2.43.0


From 4aa46a84e96fe8085872584ec8b77f7924d7c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 43/77] fix: Passes around measurements and resets preserve the
 outcome distribution

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 867 +++++++++------------
 1 file changed, 350 insertions(+), 517 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 4232db9..4b2f05e 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -274,318 +274,141 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 }
 
 namespace {
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op);
-
-void removeDiagonalGatesBeforeMeasureRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend()) {
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                                nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
+/// Whether any gate before this point of a qubit may be removed
+enum class QubitState : std::uint8_t {
+  /// no operation encountered so far (seen from the end of the circuit)
+  Untouched,
+  /// only removed operations between this point and the final measurement
+  Measured,
+  /// an operation prevents further removals
+  Blocked
+};
 
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    // check if desired operation was reached
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
+/// Remove diagonal gates in front of final measurements (in reverse order),
+/// recursing into compound operations. Removed gates are set to the identity.
+template <class Container>
+void removeDiagonalGatesBeforeMeasure(Container& ops,
+                                      std::vector<QubitState>& states) {
+  for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
+    auto* op = it->get();
+    if (op->isCompoundOperation()) {
+      auto& compOp = dynamic_cast<CompoundOperation&>(*op);
+      removeDiagonalGatesBeforeMeasure(compOp, states);
+      continue;
     }
-    auto* op = (*it)->get();
-    if (op->isStandardOperation()) {
-      // try removing gate and upon success increase all corresponding iterators
-      auto onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, op);
-      if (onlyDiagonalGates) {
-        for (const auto& control : op->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : op->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-
-    } else if (op->isCompoundOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyDiagonalGates = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        onlyDiagonalGates = removeDiagonalGate(dag, dagIterators, idx, it, cop);
-        if (!onlyDiagonalGates) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyDiagonalGates) {
-        for (size_t q = 0; q < dag.size(); ++q) {
-          if (compOp->actsOn(static_cast<Qubit>(q))) {
-            ++(dagIterators.at(q));
-          }
-        }
-      }
-    } else if (op->isClassicControlledOperation()) {
-      // consider the operation that is classically controlled and proceed as
-      // above
-      auto* cop = dynamic_cast<ClassicControlledOperation*>(op)->getOperation();
-      const bool onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, cop);
-      if (onlyDiagonalGates) {
-        for (const auto& control : cop->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : cop->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isNonUnitaryOperation()) {
-      // non-unitary operation is not diagonal
-      it = dag.at(idx).rend();
-    } else {
-      throw std::runtime_error("Unexpected operation encountered");
-    }
-  }
-
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                              nullptr);
-  }
-}
-
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op) {
-  // not a diagonal gate
-  if (!op->isDiagonalGate()) {
-    it = dag.at(idx).rend();
-    return false;
-  }
-
-  if (op->getNcontrols() != 0) {
-    // need to check all controls and targets
-    bool onlyDiagonalGates = true;
-    for (const auto& control : op->getControls()) {
-      auto controlQubit = control.qubit;
-      if (controlQubit == idx) {
-        continue;
-      }
-      if (control.type == Control::Type::Neg) {
-        dagIterators.at(controlQubit) = dag.at(controlQubit).rend();
-        onlyDiagonalGates = false;
-        break;
-      }
-      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at control with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
-                                                (*it)->get());
-      // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
-        onlyDiagonalGates = false;
-        break;
+    if (op->getType() == Measure) {
+      for (const auto target : op->getTargets()) {
+        auto& state = states.at(target);
+        state = state == QubitState::Untouched ? QubitState::Measured
+                                               : QubitState::Blocked;
       }
+      continue;
     }
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
-                                                (*it)->get());
-      // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
+    auto* gate = op;
+    if (op->isClassicControlledOperation()) {
+      gate = dynamic_cast<ClassicControlledOperation*>(op)->getOperation();
     }
-    if (!onlyDiagonalGates) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
+    const auto usedQubits = gate->getUsedQubits();
+    // diagonal gates may be removed if all their qubits are measured afterwards
+    if (gate->isUnitary() && !gate->isCompoundOperation() &&
+        gate->getType() != Barrier && gate->isDiagonalGate() &&
+        !usedQubits.empty() &&
+        std::all_of(usedQubits.begin(), usedQubits.end(), [&](const auto q) {
+          return states.at(q) == QubitState::Measured;
+        })) {
       // set operation to identity so that it can be collected by the
       // removeIdentities pass
-      op->setGate(I);
+      gate->clearControls();
+      gate->setGate(I);
+      if (gate != op) {
+        *it = gate->clone();
+      }
+      continue;
+    }
+    for (const auto q : usedQubits) {
+      states.at(q) = QubitState::Blocked;
     }
-    return onlyDiagonalGates;
   }
-  // set operation to identity so that it can be collected by the
-  // removeIdentities pass
-  op->setGate(I);
-  return true;
 }
 } // namespace
 
 void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
     QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-
-  // initialize iterators
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty() || dag.at(q).back()->get()->getType() != Measure) {
-      // qubit is not measured and thus does not have to be considered
-      dagIterators.at(q) = dag.at(q).rend();
-    } else {
-      // point to operation before measurement
-      dagIterators.at(q) = ++(dag.at(q).rbegin());
-    }
-  }
-  // iterate over DAG in depth-first fashion
-  removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, 0, nullptr);
+  std::vector<QubitState> states(qc.getHighestPhysicalQubitIndex() + 1U,
+                                 QubitState::Untouched);
+  ::qc::removeDiagonalGatesBeforeMeasure(qc, states);
 
   // remove resulting identities from circuit
   removeIdentities(qc);
 }
 
 namespace {
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op);
-
-void removeFinalMeasurementsRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  if (dagIterators.at(idx) == dag.at(idx).rend()) { // we reached the end
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
+/// Collect all classical bits that are read by an operation
+void collectReadBits(const Operation& op, std::unordered_set<Bit>& bits) {
+  if (op.isCompoundOperation()) {
+    for (const auto& inner : dynamic_cast<const CompoundOperation&>(op)) {
+      collectReadBits(*inner, bits);
     }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
+  } else if (op.isClassicControlledOperation()) {
+    const auto& classic = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& bit = classic.getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
     }
-  }
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
+    if (const auto& reg = classic.getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
       }
     }
-    auto* op = (*it)->get();
-    if (op->getType() == Measure || op->getType() == Barrier) {
-      const bool onlyMeasurement =
-          removeFinalMeasurement(dag, dagIterators, idx, it, op);
-      if (onlyMeasurement) {
-        for (const auto& target : op->getTargets()) {
-          if (dagIterators.at(target) == dag.at(target).rend()) {
-            break;
-          }
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyMeasurement = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
-          ++cit;
-          continue;
-        }
-        onlyMeasurement =
-            removeFinalMeasurement(dag, dagIterators, idx, it, cop);
-        if (!onlyMeasurement) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyMeasurement) {
-        ++(dagIterators.at(idx));
-      }
-    } else {
-      // not a measurement, we are done
-      dagIterators.at(idx) = dag.at(idx).rend();
-      break;
-    }
-  }
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
+    collectReadBits(*classic.getOperation(), bits);
   }
 }
 
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            const Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op) {
-  if (op->getNtargets() != 0) {
-    // need to check all targets
-    bool onlyMeasurements = true;
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyMeasurements = false;
-        break;
+/// Remove measurements and barriers that are not followed by any other
+/// operation (in reverse order), recursing into compound operations. Removed
+/// operations are set to the identity.
+template <class Container>
+void removeFinalMeasurements(Container& ops, std::vector<bool>& used,
+                             std::unordered_set<Bit>& readBits) {
+  for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
+    auto* op = it->get();
+    if (op->isCompoundOperation()) {
+      removeFinalMeasurements(dynamic_cast<CompoundOperation&>(*op), used,
+                              readBits);
+      continue;
+    }
+    if (op->getType() == Measure || op->getType() == Barrier) {
+      const auto& targets = op->getTargets();
+      bool removable =
+          !targets.empty() &&
+          std::none_of(targets.begin(), targets.end(),
+                       [&used](const auto q) { return used.at(q); });
+      if (op->getType() == Measure) {
+        // measurements whose result is needed later on have to be kept
+        const auto& classics =
+            dynamic_cast<NonUnitaryOperation*>(op)->getClassics();
+        removable &=
+            std::none_of(classics.begin(), classics.end(),
+                         [&](const auto c) { return readBits.count(c) > 0; });
       }
-      // recursive call at target with this operation as goal
-      removeFinalMeasurementsRecursive(dag, dagIterators, target, (*it)->get());
-      // check if iteration of target qubit was successful
-      if (dagIterators.at(target) == dag.at(target).rend() ||
-          *dagIterators.at(target) != *it) {
-        onlyMeasurements = false;
-        break;
+      if (removable) {
+        // set operation to identity so that it can be collected by the
+        // removeIdentities pass
+        op->setGate(I);
+        continue;
       }
     }
-    if (!onlyMeasurements) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
-      // set operation to identity so that it can be collected by the
-      // removeIdentities pass
-      op->setGate(I);
+    collectReadBits(*op, readBits);
+    for (const auto q : op->getUsedQubits()) {
+      used.at(q) = true;
     }
-    return onlyMeasurements;
   }
-  return false;
 }
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    dagIterators.at(q) = (dag.at(q).rbegin());
-  }
-
-  removeFinalMeasurementsRecursive(dag, dagIterators, 0, nullptr);
+  std::vector<bool> used(qc.getHighestPhysicalQubitIndex() + 1U, false);
+  std::unordered_set<Bit> readBits{};
+  ::qc::removeFinalMeasurements(qc, used, readBits);
 
   removeIdentities(qc);
 }
@@ -639,30 +462,33 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
 }
 
 namespace {
-void changeTargets(Targets& targets,
-                   const std::map<Qubit, Qubit>& replacementMap) {
-  for (auto& target : targets) {
-    auto newTargetIt = replacementMap.find(target);
-    if (newTargetIt != replacementMap.end()) {
-      target = newTargetIt->second;
+/// Replace every reset by the use of a fresh qubit, recursing into compound
+/// operations. The replacements map every qubit to the one currently used.
+template <class Container>
+void eliminateResets(QuantumComputation& qc, Container& ops,
+                     Permutation& replacements) {
+  auto it = ops.begin();
+  while (it != ops.end()) {
+    if ((*it)->getType() == Reset) {
+      for (const auto target : (*it)->getTargets()) {
+        const auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
+        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
+        replacements[target] = indexAddQubit;
+      }
+      it = ops.erase(it);
+      continue;
     }
-  }
-}
-
-void changeControls(Controls& controls,
-                    const std::map<Qubit, Qubit>& replacementMap) {
-  if (controls.empty() || replacementMap.empty()) {
-    return;
-  }
-
-  // iterate over the replacement map and see if any control matches
-  for (const auto& [from, to] : replacementMap) {
-    auto controlIt = controls.find(from);
-    if (controlIt != controls.end()) {
-      const auto controlType = controlIt->type;
-      controls.erase(controlIt);
-      controls.insert(Control{to, controlType});
+    if ((*it)->isCompoundOperation()) {
+      auto& compOp = dynamic_cast<CompoundOperation&>(**it);
+      eliminateResets(qc, compOp, replacements);
+      if (compOp.empty()) {
+        it = ops.erase(it);
+        continue;
+      }
+    } else {
+      (*it)->apply(replacements);
     }
+    ++it;
   }
 }
 } // namespace
@@ -675,69 +501,67 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   //            0            1                   ║  ░ └───┘└╥┘
   //                                  c: 2/══════╩══════════╩═
   //                                             0          1
-  auto replacementMap = std::map<Qubit, Qubit>();
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->getType() == Reset) {
-      for (const auto& target : (*it)->getTargets()) {
-        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-        auto oldReset = replacementMap.find(target);
-        if (oldReset != replacementMap.end()) {
-          oldReset->second = indexAddQubit;
-        } else {
-          replacementMap.try_emplace(target, indexAddQubit);
-        }
-      }
-      it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
-      if ((*it)->isCompoundOperation()) {
-        auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-        auto compOpIt = compOp.begin();
-        while (compOpIt != compOp.end()) {
-          if ((*compOpIt)->getType() == Reset) {
-            for (const auto& compTarget : (*compOpIt)->getTargets()) {
-              auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-              qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-              if (auto oldReset = replacementMap.find(compTarget);
-                  oldReset != replacementMap.end()) {
-                oldReset->second = indexAddQubit;
-              } else {
-                replacementMap.try_emplace(compTarget, indexAddQubit);
-              }
-            }
-            compOpIt = compOp.erase(compOpIt);
-          } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
-            ++compOpIt;
-          }
-        }
-      }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
-      }
-      ++it;
-    } else {
-      ++it;
-    }
+  Permutation replacements{};
+  for (const auto& [physical, _] : qc.initialLayout) {
+    replacements[physical] = physical;
+  }
+  ::qc::eliminateResets(qc, qc, replacements);
+}
+
+namespace {
+/// Whether the operation does not change the measurement result of the qubit
+bool preservesMeasurement(const Operation& op, const Qubit qubit) {
+  if (!op.actsOn(qubit) || op.getType() == Barrier || op.getType() == Measure) {
+    return true;
+  }
+  if (op.isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(op);
+    return std::all_of(compOp.begin(), compOp.end(), [&](const auto& inner) {
+      return preservesMeasurement(*inner, qubit);
+    });
+  }
+  if (op.isClassicControlledOperation()) {
+    return preservesMeasurement(
+        *dynamic_cast<const ClassicControlledOperation&>(op).getOperation(),
+        qubit);
+  }
+  const auto& targets = op.getTargets();
+  return op.isUnitary() &&
+         (op.isDiagonalGate() ||
+          std::find(targets.begin(), targets.end(), qubit) == targets.end());
+}
+
+/// Whether the operation only consists of unitary operations
+bool isPurelyUnitary(const Operation& op) {
+  if (op.isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(op);
+    return std::all_of(compOp.begin(), compOp.end(), [](const auto& inner) {
+      return isPurelyUnitary(*inner);
+    });
+  }
+  return op.isUnitary();
+}
+
+bool evaluateCondition(const ClassicControlledOperation& op,
+                       const std::uint64_t value) {
+  const auto expected = op.getExpectedValue();
+  switch (op.getComparisonKind()) {
+  case Eq:
+    return value == expected;
+  case Neq:
+    return value != expected;
+  case Lt:
+    return value < expected;
+  case Leq:
+    return value <= expected;
+  case Gt:
+    return value > expected;
+  case Geq:
+    return value >= expected;
   }
+  return false;
 }
+} // namespace
 
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
@@ -748,183 +572,192 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
-        measurement != nullptr && measurement->getType() == Measure) {
-      const auto targets = measurement->getTargets();
-      const auto classics = measurement->getClassics();
+  struct DeferredMeasurement {
+    Qubit qubit;
+    Bit bit;
+    // number of operations preceding the measurement
+    std::size_t position;
+  };
+  std::vector<DeferredMeasurement> deferred{};
+  // the resulting operations without any of the deferred measurements
+  std::vector<std::unique_ptr<Operation>> ops{};
+  bool changed = false;
+
+  // get the first operation that disturbs the qubit after its measurement
+  const auto firstDisturbance = [&ops](const DeferredMeasurement& m) {
+    auto pos = m.position;
+    while (pos < ops.size() && preservesMeasurement(*ops[pos], m.qubit)) {
+      ++pos;
+    }
+    return pos;
+  };
 
-      if (targets.size() != 1 && classics.size() != 1) {
+  std::size_t remaining = qc.getNops();
+  for (const auto& operation : qc) {
+    --remaining;
+    if (operation->getType() == Reset) {
+      if (deferred.empty()) {
+        ops.emplace_back(operation->clone());
+        continue;
+      }
+      throw std::runtime_error(
+          "Reset encountered in deferMeasurements routine. Please use the "
+          "eliminateResets method before deferring measurements.");
+    }
+
+    if (operation->getType() == Measure) {
+      const auto& measurement =
+          dynamic_cast<const NonUnitaryOperation&>(*operation);
+      const auto& targets = measurement.getTargets();
+      const auto& classics = measurement.getClassics();
+      if (targets.size() != 1 || classics.size() != 1) {
         throw std::runtime_error(
             "Deferring measurements with more than 1 target is not yet "
             "supported. Try decomposing your measurements.");
       }
-
-      // if this is the last operation, nothing has to be done
-      if (*it == qc.back()) {
-        break;
-      }
-
-      const auto measurementQubit = targets[0];
-      const auto measurementBit = classics[0];
-
-      // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
-
-      // remove the measurement from the vector of operations
-      it = qc.erase(it);
-
-      // starting from the next operation after the measurement (if there is
-      // any)
-      auto opIt = it;
-      auto currentInsertionPoint = it;
-
-      // iterate over all subsequent operations
-      while (opIt != qc.end()) {
-        const auto* operation = opIt->get();
-        if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
-          // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
-            ++currentInsertionPoint;
-          }
-          ++opIt;
-          continue;
-        }
-
-        if (operation->getType() == Reset) {
+      for (const auto& m : deferred) {
+        if (m.qubit == targets[0] && firstDisturbance(m) < ops.size()) {
           throw std::runtime_error(
-              "Reset encountered in deferMeasurements routine. Please use the "
-              "eliminateResets method before deferring measurements.");
-        }
-
-        if (const auto* measurement2 =
-                dynamic_cast<NonUnitaryOperation*>(opIt->get());
-            measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
-          const auto& classics2 = measurement2->getClassics();
-
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
-            break;
-          }
-
-          ++currentInsertionPoint;
-          ++opIt;
-          continue;
+              "Qubit is measured again after being acted upon. Deferring both "
+              "measurements is not possible.");
         }
+      }
+      // if this is the last operation, nothing has to be done
+      changed |= remaining != 0;
+      // measuring the qubit again yields the same result
+      deferred.erase(std::remove_if(deferred.begin(), deferred.end(),
+                                    [&](const auto& m) {
+                                      return m.qubit == targets[0] &&
+                                             m.bit == classics[0];
+                                    }),
+                     deferred.end());
+      deferred.push_back({targets[0], classics[0], ops.size()});
+      continue;
+    }
 
-        if (const auto* classicOp =
-                dynamic_cast<ClassicControlledOperation*>(opIt->get());
-            classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
-          Bit cBit = 0;
-          if (const auto& controlRegister = classicOp->getControlRegister();
-              controlRegister.has_value()) {
-            assert(!classicOp->getControlBit().has_value());
-            if (controlRegister->getSize() != 1) {
-              throw std::runtime_error(
-                  "Classic-controlled operations targeted at more than one bit "
-                  "are currently not supported. Try decomposing the operation "
-                  "into individual contributions.");
-            }
-            cBit = controlRegister->getStartIndex();
-          }
-          if (const auto& controlBit = classicOp->getControlBit();
-              controlBit.has_value()) {
-            assert(!classicOp->getControlRegister().has_value());
-            cBit = controlBit.value();
-          }
-
-          // if this is not the classical bit that is measured, continue
-          if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
-              ++currentInsertionPoint;
-            }
-            ++opIt;
-            continue;
-          }
-
-          // get the underlying operation
-          const auto* standardOp =
-              dynamic_cast<StandardOperation*>(classicOp->getOperation());
-          if (standardOp == nullptr) {
-            std::stringstream ss{};
-            ss << "Underlying operation of classic-controlled operation is "
-                  "not a StandardOperation.\n";
-            classicOp->print(ss, qc.getNqubits());
-            throw std::runtime_error(ss.str());
-          }
-
-          // get all the necessary information for reconstructing the
-          // operation
-          const auto type = standardOp->getType();
-          const auto targs = standardOp->getTargets();
-          for (const auto& target : targs) {
-            if (target == measurementQubit) {
-              throw std::runtime_error(
-                  "Implicit reset operation in circuit detected. Measuring a "
-                  "qubit and then targeting the same qubit with a "
-                  "classic-controlled operation is not allowed at the "
-                  "moment.");
-            }
-          }
-
-          // determine the appropriate control to add
-          auto controls = standardOp->getControls();
-          const auto controlQubit = measurementQubit;
-          const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
-          controls.emplace(controlQubit, controlType);
-
-          const auto parameters = standardOp->getParameter();
-
-          // remove the classic-controlled operation
-          // carefully handle iterator invalidation.
-          // if the current insertion point is the same as the current
-          // iterator the insertion point has to be updated to the new
-          // operation as well.
-          auto itInvalidated = (it >= opIt);
-          const auto insertionPointInvalidated =
-              (currentInsertionPoint >= opIt);
+    const auto* classicOp =
+        dynamic_cast<const ClassicControlledOperation*>(operation.get());
+    if (classicOp == nullptr) {
+      if (!deferred.empty() && !isPurelyUnitary(*operation)) {
+        throw std::runtime_error(
+            "Non-unitary operation in a compound operation encountered in "
+            "deferMeasurements routine. Please flatten the circuit before "
+            "deferring measurements.");
+      }
+      ops.emplace_back(operation->clone());
+      continue;
+    }
 
-          opIt = qc.erase(opIt);
+    std::vector<Bit> bits{};
+    if (const auto& controlRegister = classicOp->getControlRegister();
+        controlRegister.has_value()) {
+      for (std::size_t i = 0; i < controlRegister->getSize(); ++i) {
+        bits.emplace_back(controlRegister->getStartIndex() + i);
+      }
+    } else {
+      bits.emplace_back(classicOp->getControlBit().value());
+    }
+    const auto isMeasured = [&deferred](const Bit bit) {
+      return std::any_of(deferred.begin(), deferred.end(),
+                         [bit](const auto& m) { return m.bit == bit; });
+    };
+    if (bits.size() != 1 && !deferred.empty()) {
+      throw std::runtime_error(
+          "Classic-controlled operations targeted at more than one bit "
+          "are currently not supported. Try decomposing the operation "
+          "into individual contributions.");
+    }
+    // if none of the bits has been measured, nothing has to be done
+    if (std::none_of(bits.begin(), bits.end(), isMeasured)) {
+      ops.emplace_back(operation->clone());
+      continue;
+    }
 
-          if (itInvalidated) {
-            it = opIt;
-          }
-          if (insertionPointInvalidated) {
-            currentInsertionPoint = opIt;
-          }
+    // the most recent measurement determines the value of the bit
+    const auto measurement =
+        std::find_if(deferred.rbegin(), deferred.rend(),
+                     [&bits](const auto& m) { return m.bit == bits[0]; });
+    const auto controlQubit = measurement->qubit;
+
+    // get the underlying operation
+    auto* innerOp = classicOp->getOperation();
+    if (dynamic_cast<const StandardOperation*>(innerOp) == nullptr) {
+      std::stringstream ss{};
+      ss << "Underlying operation of classic-controlled operation is "
+            "not a StandardOperation.\n";
+      classicOp->print(ss, qc.getNqubits());
+      throw std::runtime_error(ss.str());
+    }
+    const auto& targets = innerOp->getTargets();
+    if (std::find(targets.begin(), targets.end(), controlQubit) !=
+        targets.end()) {
+      throw std::runtime_error(
+          "Implicit reset operation in circuit detected. Measuring a "
+          "qubit and then targeting the same qubit with a "
+          "classic-controlled operation is not allowed at the "
+          "moment.");
+    }
 
-          itInvalidated = (it >= currentInsertionPoint);
-          // insert the new operation (invalidated all pointer onwards)
-          currentInsertionPoint = qc.insert(
-              currentInsertionPoint, std::make_unique<StandardOperation>(
-                                         controls, targs, type, parameters));
+    // determine the appropriate control to add
+    const auto appliedIfZero = evaluateCondition(*classicOp, 0U);
+    const auto appliedIfOne = evaluateCondition(*classicOp, 1U);
+    if (!appliedIfZero && !appliedIfOne) {
+      continue;
+    }
+    auto newOp = innerOp->clone();
+    if (appliedIfZero != appliedIfOne && newOp->getType() != Barrier) {
+      const Control control{controlQubit, appliedIfOne ? Control::Type::Pos
+                                                       : Control::Type::Neg};
+      const Control opposite{controlQubit, appliedIfOne ? Control::Type::Neg
+                                                        : Control::Type::Pos};
+      if (newOp->getControls().count(opposite) > 0) {
+        // both conditions are never satisfied at the same time
+        continue;
+      }
+      if (newOp->getControls().count(control) == 0) {
+        newOp->addControl(control);
+      }
+    }
 
-          if (itInvalidated) {
-            it = currentInsertionPoint;
-          }
-          // advance just after the currently inserted operation
-          ++currentInsertionPoint;
-          // the inner loop also has to restart from here due to the
-          // invalidation of the iterators
-          opIt = currentInsertionPoint;
+    // the operation has to be applied before the measured qubit is disturbed
+    const auto insertionPoint = firstDisturbance(*measurement);
+    const auto usedQubits = innerOp->getUsedQubits();
+    for (auto pos = insertionPoint; pos < ops.size(); ++pos) {
+      for (const auto q : usedQubits) {
+        if (q != controlQubit && ops[pos]->actsOn(q)) {
+          throw std::runtime_error(
+              "Classic-controlled operation cannot be moved before an "
+              "operation that acts on the measured qubit.");
         }
       }
     }
-    ++it;
+    for (const auto& m : deferred) {
+      if (m.position > insertionPoint &&
+          !preservesMeasurement(*newOp, m.qubit)) {
+        throw std::runtime_error(
+            "Classic-controlled operation cannot be moved before a "
+            "measurement of one of its qubits.");
+      }
+    }
+    ops.insert(ops.begin() + static_cast<std::ptrdiff_t>(insertionPoint),
+               std::move(newOp));
+    for (auto& m : deferred) {
+      if (m.position > insertionPoint) {
+        ++m.position;
+      }
+    }
   }
-  if (qubitsToAddMeasurements.empty()) {
+
+  if (!changed) {
     return;
   }
+  qc.erase(qc.begin(), qc.end());
+  for (auto& op : ops) {
+    qc.emplace_back(std::move(op));
+  }
   qc.outputPermutation.clear();
-  for (const auto& [qubit, clbit] : qubitsToAddMeasurements) {
-    qc.measure(qubit, clbit);
+  for (const auto& m : deferred) {
+    qc.measure(m.qubit, m.bit);
   }
   qc.initializeIOMapping();
 }
-- 
2.43.0


From 06ad3fe7ee97592c9bd604441b3809e06445772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 44/77] fix: Block collection keeps the order of operations on
 shared qubits

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 33 ++++++++++++----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 4b2f05e..9ed7bdd 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1195,11 +1195,18 @@ struct DSU {
     bitBlocks[parent1].insert(bitBlocks[parent1].end(),
                               bitBlocks[parent2].begin(),
                               bitBlocks[parent2].end());
-    if (currentBlockInCircuit[parent2] != nullptr) {
-      (*currentBlockInCircuit[parent2]) =
-          std::make_unique<StandardOperation>(0, I);
-    }
-    currentBlockInCircuit[parent2] = nullptr;
+    auto*& position1 = currentBlockInCircuit[parent1];
+    auto*& position2 = currentBlockInCircuit[parent2];
+    // the merged block has to be placed at the later one of both positions
+    // since there might be operations on its qubits in between them
+    if (position1 != nullptr && position2 != nullptr &&
+        std::less<>{}(position1, position2)) {
+      std::swap(position1, position2);
+    }
+    if (position2 != nullptr) {
+      (*position2) = std::make_unique<StandardOperation>(0, I);
+    }
+    position2 = nullptr;
     currentBlockOperations[parent2] = std::make_unique<CompoundOperation>();
     bitBlocks[parent2].clear();
   }
@@ -1254,7 +1261,7 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
     bool makesTooBig = false;
 
     // check if the operation can be processed
-    if (!op->isUnitary()) {
+    if (!isPurelyUnitary(*op)) {
       canProcess = false;
     }
 
@@ -1367,18 +1374,14 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
       }
       const auto block = dsu.findBlock(static_cast<Qubit>(prev));
       const auto empty = dsu.blockEmpty(block);
-      if (empty) {
-        dsu.currentBlockInCircuit[block] = &(*opIt);
-      }
       dsu.currentBlockOperations[block]->emplace_back(std::move(op));
-      // if this is not the first operation in a block, remove it from the
-      // circuit
+      // the block is moved to the position of its last operation since there
+      // might be operations on the newly added qubits in between
       if (!empty) {
-        opIt = qc.erase(opIt);
-        // this can only ever be called on at least the second operation in a
-        // circuit, so it is safe to decrement the iterator here.
-        --opIt;
+        *dsu.currentBlockInCircuit[block] =
+            std::make_unique<StandardOperation>(0, I);
       }
+      dsu.currentBlockInCircuit[block] = &(*opIt);
     }
   }
 
-- 
2.43.0


From 9944f7e2d162d22326ac621d4b725c54091ba89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 45/77] fix: The ZX diagram of a circuit denotes the circuit
 for negative controls, ECR, XXplusYY and large angles

---
 .../mqt-core/zx/FunctionalityConstruction.hpp |  5 +-
 src/zx/FunctionalityConstruction.cpp          | 90 +++++++++++++------
 2 files changed, 68 insertions(+), 27 deletions(-)

diff --git a/include/mqt-core/zx/FunctionalityConstruction.hpp b/include/mqt-core/zx/FunctionalityConstruction.hpp
index ac7817f..fbf384f 100644
--- a/include/mqt-core/zx/FunctionalityConstruction.hpp
+++ b/include/mqt-core/zx/FunctionalityConstruction.hpp
@@ -102,12 +102,12 @@ protected:
   static void addDcx(ZXDiagram& diag, Qubit qubit1, Qubit qubit2,
                      std::vector<Vertex>& qubits);
   static void
-  addXXplusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXplusYY(ZXDiagram& diag, const PiExpression& halfTheta,
               const PiExpression& beta, Qubit qubit0, Qubit qubit1,
               std::vector<Vertex>& qubits,
               const std::optional<double>& unconvertedBeta = std::nullopt);
   static void
-  addXXminusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXminusYY(ZXDiagram& diag, const PiExpression& halfTheta,
                const PiExpression& beta, Qubit qubit0, Qubit qubit1,
                std::vector<Vertex>& qubits,
                const std::optional<double>& unconvertedBeta = std::nullopt);
@@ -121,5 +121,6 @@ protected:
 
   static PiExpression toPiExpr(const qc::SymbolOrNumber& param);
   static PiExpression parseParam(const qc::Operation* op, std::size_t i);
+  static PiExpression parseHalfParam(const qc::Operation* op, std::size_t i);
 };
 } // namespace zx
diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..74aeb75 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -13,6 +13,7 @@
 #include "ir/Permutation.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
+#include "ir/operations/Control.hpp"
 #include "ir/operations/Expression.hpp"
 #include "ir/operations/OpType.hpp"
 #include "ir/operations/SymbolicOperation.hpp"
@@ -36,7 +37,9 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
     if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
-        op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
+        op1->getNcontrols() == 1 && op2->getNcontrols() == 1 &&
+        op1->getControls().begin()->type == qc::Control::Type::Pos &&
+        op2->getControls().begin()->type == qc::Control::Type::Pos) {
       const auto tar1 = p.at(op1->getTargets().front());
       const auto tar2 = p.at(op2->getTargets().front());
       const auto ctrl1 = p.at((*op1->getControls().begin()).qubit);
@@ -214,32 +217,38 @@ void FunctionalityConstruction::addDcx(ZXDiagram& diag, const Qubit qubit1,
 }
 
 void FunctionalityConstruction::addXXplusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
+  // conjugating with RZ(angle) turns the phase of the XX+YY interaction
+  const auto angle = PiExpression(PiRational(1, 1)) - beta;
+  const auto unconvertedAngle =
+      unconvertedBeta.has_value()
+          ? std::optional<double>(PI - unconvertedBeta.value())
+          : std::nullopt;
+  addRz(diag, angle, qubit1, qubits, unconvertedAngle);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
-  if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
+  if (unconvertedAngle.has_value()) {
+    addRz(diag, -angle, qubit1, qubits, -unconvertedAngle.value());
   } else {
-    addRz(diag, -beta, qubit1, qubits);
+    addRz(diag, -angle, qubit1, qubits);
   }
 
   addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
 }
 
 void FunctionalityConstruction::addXXminusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   if (unconvertedBeta.has_value()) {
@@ -252,8 +261,8 @@ void FunctionalityConstruction::addXXminusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, -halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -316,9 +325,27 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // negative controls are positive controls surrounded by X gates
+  std::vector<Qubit> negativeControls;
+  for (const auto& control : op->getControls()) {
+    if (control.type == qc::Control::Type::Neg) {
+      negativeControls.emplace_back(static_cast<Qubit>(p.at(control.qubit)));
+    }
+  }
+  const auto flipNegativeControls = [&] {
+    for (const auto control : negativeControls) {
+      addXSpider(diag, control, qubits, PiExpression(PiRational(1, 1)));
+    }
+  };
+  flipNegativeControls();
+
   if (!op->isControlled()) {
     // single qubit gates
-    const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
+    // (global phases do not act on any qubit)
+    const auto target =
+        op->getTargets().empty()
+            ? Qubit{0}
+            : static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
     case qc::OpType::GPhase: {
       const auto& param = parseParam(op.get(), 0);
@@ -459,31 +486,31 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
     case qc::OpType::XXplusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits, op->getParameter().at(0));
+        addXXplusYY(diag, parseHalfParam(op.get(), 0), betaExpr, target,
+                    target2, qubits, op->getParameter().at(1));
       } else {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits);
+        addXXplusYY(diag, parseHalfParam(op.get(), 0), betaExpr, target,
+                    target2, qubits);
       }
       break;
     }
     case qc::OpType::XXminusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits, op->getParameter().at(0));
+        addXXminusYY(diag, parseHalfParam(op.get(), 0), betaExpr, target,
+                     target2, qubits, op->getParameter().at(1));
       } else {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits);
+        addXXminusYY(diag, parseHalfParam(op.get(), 0), betaExpr, target,
+                     target2, qubits);
       }
       break;
     }
@@ -511,7 +538,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     switch (op->getType()) { // TODO: any gate can be controlled
     case qc::OpType::X:
       // check if swap
-      if (checkSwap(it, end, ctrl, target, p)) {
+      if (negativeControls.empty() && checkSwap(it, end, ctrl, target, p)) {
         addSwap(diag, target, ctrl, qubits);
         return it + 3;
       } else {
@@ -553,7 +580,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
       throw ZXException("Unsupported Controlled Operation: " +
                         qc::toString(op->getType()));
     }
-  } else if (op->getNcontrols() == 2) {
+  } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     // three-qubit controlled gates (ccx or ccz)
     Qubit ctrl0 = 0;
     Qubit ctrl1 = 0;
@@ -585,6 +612,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
                       std::to_string(op->getNcontrols()) + " ctrls)" +
                       qc::toString(op->getType()));
   }
+  flipNegativeControls();
   return it + 1;
 }
 
@@ -714,6 +742,18 @@ PiExpression FunctionalityConstruction::parseParam(const qc::Operation* op,
   }
   return PiExpression{PiRational{op->getParameter().at(i)}};
 }
+PiExpression FunctionalityConstruction::parseHalfParam(const qc::Operation* op,
+                                                       const std::size_t i) {
+  // Angles are represented modulo 2 pi. Hence, they must be halved beforehand.
+  if (const auto* symbOp = dynamic_cast<const qc::SymbolicOperation*>(op)) {
+    const auto param = symbOp->getParameter(i);
+    if (std::holds_alternative<qc::Symbolic>(param)) {
+      return toPiExpr(std::get<qc::Symbolic>(param) / 2.);
+    }
+    return toPiExpr(std::get<double>(param) / 2.);
+  }
+  return PiExpression{PiRational{op->getParameter().at(i) / 2.}};
+}
 PiExpression
 FunctionalityConstruction::toPiExpr(const qc::SymbolOrNumber& param) {
   if (std::holds_alternative<double>(param)) {
-- 
2.43.0


From 675b03ca3fd766e32151edb4ee9788cad942fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 46/77] fix: Composing ZX diagrams and recognising identities
 work on all diagrams

---
 src/zx/Utils.cpp     | 10 ++++++---
 src/zx/ZXDiagram.cpp | 48 ++++++++++++++++++++++++++------------------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..135e028 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -63,8 +63,10 @@ void Vertices::VertexIterator::nextValidVertex() {
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts)
-    : v(0), currentPos(es[0].begin()), edgesPos(es.begin()), edges(es),
-      vertices(verts) {
+    : v(0), edgesPos(es.begin()), edges(es), vertices(verts) {
+  if (edges.empty()) {
+    return;
+  }
   if (!vertices.empty()) {
     while (v < edges.size() && !vertices[v].has_value()) {
       ++v;
@@ -89,7 +91,9 @@ Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::optional<VertexData>>& verts, const Vertex vertex)
     : v(vertex), edges(es), vertices(verts) {
   if (v >= edges.size()) {
-    currentPos = edges.back().end();
+    if (!edges.empty()) {
+      currentPos = edges.back().end();
+    }
     edgesPos = edges.end();
     this->v = edges.size();
   } else {
diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..bd7487c 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -241,7 +241,19 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
         "Cannot concatenate Diagrams with differing number of qubits!");
   }
 
+  if (&rhs == this) {
+    const auto copy = rhs;
+    return concat(copy);
+  }
+
+  // the outputs of this diagram and the inputs of the other one are merged
   std::unordered_map<Vertex, Vertex> newVs;
+  const auto nOutputs = outputs.size();
+  for (std::size_t i = 0; i < nOutputs; ++i) {
+    newVs[rhs.inputs[i]] = outputs[i];
+    setType(outputs[i], VertexType::Z);
+  }
+
   const auto nverts = rhs.vertices.size();
   for (std::size_t i = 0; i < nverts; ++i) {
     const auto& vertex = rhs.vertices[i];
@@ -254,33 +266,28 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
   }
 
   for (std::size_t i = 0; i < nverts; ++i) { // add new edges
-    if (!rhs.vertices[i].has_value() || rhs.isInput(i)) {
+    if (!rhs.vertices[i].has_value()) {
       continue;
     }
 
     for (const auto& [to, type] : rhs.edges[i]) {
-      if (!rhs.isInput(to)) {
-        if (i < to) { // make sure not to add edge twice
-          addEdge(newVs[i], newVs[to], type);
-        }
-      } else {
-        const auto outV = outputs[static_cast<std::size_t>(rhs.qubit(to))];
-        for (const auto& [interior_v, interior_type] :
-             edges[outV]) { // redirect edges going to outputs
-          if (interior_type == type) {
-            addEdge(interior_v, newVs[i], EdgeType::Simple);
-          } else {
-            addEdge(interior_v, newVs[i], EdgeType::Hadamard);
-          }
-        }
+      if (i < to) { // make sure not to add edge twice
+        addEdge(newVs[i], newVs[to], type);
       }
     }
-  } // add new edges
+  }
 
-  const auto nOutputs = outputs.size();
-  for (size_t i = 0; i < nOutputs; ++i) {
-    removeVertex(outputs[i]);
+  for (std::size_t i = 0; i < nOutputs; ++i) { // remove the merged vertices
+    const auto merged = outputs[i];
     outputs[i] = newVs[rhs.outputs[i]];
+    const auto incident = edges[merged];
+    if (incident.size() == 2) {
+      addEdgeParallelAware(incident[0].to, incident[1].to,
+                           incident[0].type == incident[1].type
+                               ? EdgeType::Simple
+                               : EdgeType::Hadamard);
+    }
+    removeVertex(merged);
   }
 
   this->addGlobalPhase(-rhs.globalPhase);
@@ -294,7 +301,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From 84220c3aedddacbf04ef901e90d820b8ce8cad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 47/77] fix: Fusing phase gadgets requires a proper gadget

---
 src/zx/Rules.cpp | 12 +++++++++---
 src/zx/Utils.cpp |  3 ++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..a4c4b20 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -155,7 +155,7 @@ void localComp(ZXDiagram& diag, const Vertex v) { // TODO:scalars
 bool checkPivotPauli(const ZXDiagram& diag, const Vertex v0, const Vertex v1) {
   const auto v0Data = diag.getVData(v0).value_or(
       VertexData{0, 0, PiExpression(), VertexType::X});
-  const auto v1Data = diag.getVData(v0).value_or(
+  const auto v1Data = diag.getVData(v1).value_or(
       VertexData{0, 0, PiExpression(), VertexType::X});
 
   if (v0Data.type != VertexType::Z || // maybe problem if there is a self-loop?
@@ -302,7 +302,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.isBoundaryVertex(v0)) {
       return false;
     }
 
@@ -345,6 +345,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
 
     foundGadget = true;
     id1 = n;
+    phaseSpider.reset();
 
     for (const auto& [nn, nnEtype] :
          diag.incidentEdges(id1.value())) { // Todo: maybe problem with parallel
@@ -356,7 +357,11 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
 
       if (diag.degree(nn) == 1 && !diag.isBoundaryVertex(nn)) {
-        foundGadget = true;
+        if (phaseSpider.has_value()) {
+          // not a phase gadget since there is more than one leaf
+          foundGadget = false;
+          break;
+        }
         phaseSpider = nn;
         continue;
       }
@@ -370,6 +375,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
     }
 
+    foundGadget = foundGadget && phaseSpider.has_value();
     if (foundGadget) {
       break;
     }
diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index 135e028..2044d72 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -172,7 +172,8 @@ void roundToClifford(PiExpression& expr, const fp tolerance) {
     expr.setConst(PiRational(1, 2));
   } else if (expr.getConst().isCloseDivPi(-0.5, tolerance)) {
     expr.setConst(PiRational(-1, 2));
-  } else if (expr.getConst().isCloseDivPi(1, tolerance)) {
+  } else if (expr.getConst().isCloseDivPi(1, tolerance) ||
+             expr.getConst().isCloseDivPi(-1, tolerance)) {
     expr.setConst(PiRational(1, 1));
   }
 }
-- 
2.43.0


From 5dbf65f9b989d15062f5cafdc3606b2da663d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 48/77] fix: Symbolic and integer parameters of Qiskit gates
 keep their value

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 65 ++++++--------------
 1 file changed, 18 insertions(+), 47 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 3abd368..110d16d 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -10,11 +10,10 @@
 
 from __future__ import annotations
 
-import re
 import warnings
 from typing import TYPE_CHECKING, cast
 
-from qiskit.circuit import AncillaRegister, Clbit, Qubit
+from qiskit.circuit import AncillaRegister, Clbit, ParameterExpression, Qubit
 
 from ...ir import QuantumComputation
 from ...ir.operations import (
@@ -30,7 +29,7 @@ from ...ir.symbolic import Expression, Term, Variable
 if TYPE_CHECKING:
     from collections.abc import Mapping, Sequence
 
-    from qiskit.circuit import Instruction, ParameterExpression, QuantumCircuit
+    from qiskit.circuit import Instruction, QuantumCircuit
 
 
 __all__ = ["qiskit_to_mqt"]
@@ -301,53 +300,25 @@ def _emplace_operation(
     raise NotImplementedError(msg)
 
 
-_SUM_REGEX = re.compile(r"[+|-]?[^+-]+")
-_PROD_REGEX = re.compile(r"[*/]?[^*/]+")
-
-
 def _parse_symbolic_expression(qiskit_expr: ParameterExpression | float) -> float | Expression:
-    if isinstance(qiskit_expr, float):
-        return qiskit_expr
+    if not isinstance(qiskit_expr, ParameterExpression):
+        return float(qiskit_expr)
 
-    expr_str = str(qiskit_expr).strip()
+    # determine the coefficients of the variables; they are only constant if the expression is linear
     expr = Expression()
-    is_const = True
-    for summand in _SUM_REGEX.findall(expr_str):
-        sign = 1
-        summand_no_operator = summand
-        if summand[0] == "+":
-            summand_no_operator = summand[1:]
-        elif summand[0] == "-":
-            summand_no_operator = summand[1:]
-            sign = -1
-
-        coeff = 1.0
-        var = ""
-        for factor in _PROD_REGEX.findall(summand_no_operator):
-            is_div = False
-            factor_no_operator = factor
-            if factor[0] == "*":
-                factor_no_operator = factor[1:]
-            elif factor[0] == "/":
-                factor_no_operator = factor[1:]
-                is_div = True
-
-            factor_no_operator = factor_no_operator.strip()
-            if factor_no_operator.replace(".", "").isnumeric():
-                f = float(factor_no_operator)
-                coeff *= 1.0 / f if is_div else f
-            else:
-                var = factor_no_operator
-
-        if not var:
-            expr += coeff
-        else:
-            is_const = False
-            expr += Term(Variable(var), sign * coeff)
-
-    if is_const:
-        return expr.constant
-    return expr
+    for parameter in sorted(qiskit_expr.parameters, key=lambda p: p.name):
+        coeff = qiskit_expr.gradient(parameter)
+        if isinstance(coeff, ParameterExpression):
+            if coeff.parameters:
+                msg = f"Non-linear symbolic expressions are not supported: {qiskit_expr}"
+                raise NotImplementedError(msg)
+            coeff = coeff.numeric()
+        expr += Term(Variable(parameter.name), float(coeff))
+
+    constant = float(qiskit_expr.bind(dict.fromkeys(qiskit_expr.parameters, 0)))
+    if expr.num_terms() == 0:
+        return constant
+    return expr + constant
 
 
 def _add_operation(
-- 
2.43.0


From b749b08d3411ce7b6bc6a4fa25a244a863fd9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 49/77] fix: Import the sxdg gate from Qiskit

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 110d16d..91afe65 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -233,6 +233,9 @@ def _emplace_operation(
     if name in {"sx", "csx"}:
         return _add_operation(qc, OpType.sx, qargs, params, qubit_map)
 
+    if name == "sxdg":
+        return _add_operation(qc, OpType.sxdg, qargs, params, qubit_map)
+
     if name == "mcx_recursive":
         if len(qargs) <= 5:
             return _add_operation(qc, OpType.x, qargs, params, qubit_map)
-- 
2.43.0


From 18228b78312973399d57dcea0a2cb8fdeca82507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 50/77] fix: Import the global phase of Qiskit gate definitions

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 29 +++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 91afe65..fe37b13 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -78,18 +78,11 @@ def qiskit_to_mqt(circ: QuantumCircuit) -> QuantumComputation:
             clbit_map[bit] = clbit_index
             clbit_index += 1
 
-    try:
-        qc.global_phase = circ.global_phase
-    except TypeError:
-        warnings.warn(
-            "Symbolic global phase values are not supported yet. Setting global phase to 0.",
-            RuntimeWarning,
-            stacklevel=2,
-        )
-        qc.global_phase = 0
+    _add_global_phase(qc, circ)
 
     for instruction in circ.data:
         symb_params = _emplace_operation(
+            qc,
             qc,
             instruction.operation,
             instruction.qubits,
@@ -109,6 +102,17 @@ def qiskit_to_mqt(circ: QuantumCircuit) -> QuantumComputation:
     return qc
 
 
+def _add_global_phase(qc: QuantumComputation, circ: QuantumCircuit) -> None:
+    try:
+        qc.gphase(circ.global_phase)
+    except TypeError:
+        warnings.warn(
+            "Symbolic global phase values are not supported yet. Setting global phase to 0.",
+            RuntimeWarning,
+            stacklevel=3,
+        )
+
+
 _NATIVELY_SUPPORTED_GATES = frozenset({
     "i",
     "id",
@@ -171,6 +175,7 @@ _NATIVELY_SUPPORTED_GATES = frozenset({
 
 
 def _emplace_operation(
+    root: QuantumComputation,
     qc: QuantumComputation | CompoundOperation,
     instr: Instruction,
     qargs: Sequence[Qubit],
@@ -183,7 +188,7 @@ def _emplace_operation(
 
     if name not in _NATIVELY_SUPPORTED_GATES:
         try:
-            return _import_definition(qc, instr.definition, qargs, cargs, qubit_map, clbit_map)
+            return _import_definition(root, qc, instr.definition, qargs, cargs, qubit_map, clbit_map)
         except Exception as ex:  # PRAGMA: NO COVER
             msg = f"Unsupported gate {name} with definition {instr.definition}"
             raise NotImplementedError(msg) from ex
@@ -392,6 +397,7 @@ def _import_layouts(qc: QuantumComputation, circ: QuantumCircuit) -> None:
 
 
 def _import_definition(
+    root: QuantumComputation,
     qc: QuantumComputation | CompoundOperation,
     circ: QuantumCircuit,
     qargs: Sequence[Qubit],
@@ -402,6 +408,8 @@ def _import_definition(
     qarg_map = dict(zip(circ.qubits, qargs))
     carg_map = dict(zip(circ.clbits, cargs))
 
+    _add_global_phase(root, circ)
+
     qc.append(CompoundOperation())
     comp_op = cast("CompoundOperation", qc[-1])
 
@@ -411,6 +419,7 @@ def _import_definition(
         mapped_cargs = [carg_map[carg] for carg in instruction.clbits]
         operation = instruction.operation
         new_params = _emplace_operation(
+            root,
             comp_op,
             operation,
             mapped_qargs,
-- 
2.43.0


From db5767625195d055093675cfce721e95ec43026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 51/77] fix: Export the global phase of a circuit to Qiskit

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 1073097..03f4924 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -315,6 +315,8 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
         for i, clbit in enumerate(qiskit_creg):
             clbit_map[creg.start + i] = clbit
 
+    circ.global_phase = qc.global_phase
+
     for op in qc:
         _add_operation(circ, op, qubit_map, clbit_map)
 
-- 
2.43.0


From 8eb11f38fbacd24eccbade93893f630d20bee350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 52/77] fix: Export rotations around X by pi/2 to Qiskit

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 03f4924..b551f2a 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -10,6 +10,7 @@
 
 from __future__ import annotations
 
+import math
 from typing import TYPE_CHECKING
 
 from qiskit.circuit import AncillaRegister, ClassicalRegister, Clbit, QuantumCircuit, QuantumRegister, Qubit
@@ -58,7 +59,7 @@ from ...ir.operations import (
 if TYPE_CHECKING:
     from collections.abc import Mapping, Sequence
 
-    from qiskit.circuit.singleton import SingletonGate
+    from qiskit.circuit import Gate
 
     from ...ir import QuantumComputation
 
@@ -121,7 +122,7 @@ def _add_standard_operation(circ: QuantumCircuit, op: StandardOperation, qubit_m
 
     controls, ctrl_state = _translate_controls(op.controls, qubit_map)
 
-    gate_map_singleton: dict[OpType, SingletonGate] = {
+    gate_map_singleton: dict[OpType, Gate] = {
         OpType.i: IGate(),
         OpType.x: XGate(),
         OpType.y: YGate(),
@@ -133,6 +134,8 @@ def _add_standard_operation(circ: QuantumCircuit, op: StandardOperation, qubit_m
         OpType.tdg: TdgGate(),
         OpType.sx: SXGate(),
         OpType.sxdg: SXdgGate(),
+        OpType.v: RXGate(math.pi / 2),
+        OpType.vdg: RXGate(-math.pi / 2),
         OpType.dcx: DCXGate(),
         OpType.ecr: ECRGate(),
         OpType.swap: SwapGate(),
-- 
2.43.0


From db4e747400904a0ee12bc0dc9e20d060c7d659ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 53/77] fix: The final layout exported to Qiskit follows the
 output permutation

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index b551f2a..485bb1e 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -346,6 +346,9 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
     # fill the list with the correct virtual qubits
     for physical, virtual in permutation.items():
         p2v[virtual] = qubit_map[physical]
+    # qubits that are not part of the output permutation take the remaining positions
+    remaining = [qubit for qubit in circ.qubits if qubit not in p2v]
+    p2v = [qubit if qubit is not None else remaining.pop(0) for qubit in p2v]
     final_layout = Layout().from_qubit_list(p2v, *circ.qregs)
 
     circ._layout = TranspileLayout(  # noqa: SLF001
@@ -353,7 +356,7 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
         input_qubit_mapping={qubit: idx for idx, qubit in qubit_map.items()},
         final_layout=final_layout,
         _input_qubit_count=qc.num_qubits,
-        _output_qubit_list=list(final_layout.get_virtual_bits()),
+        _output_qubit_list=list(circ.qubits),
     )
 
     return circ
-- 
2.43.0


From 837e5e3f186ab47fa760dfaacfe60fa4a714f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 54/77] fix: Slices with a negative step select the right
 operations in Python

---
 .../ir/operations/register_compound_operation.cpp  | 13 ++++++++-----
 src/python/ir/register_quantum_computation.cpp     | 14 ++++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 6eba958..f7193c8 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -65,8 +65,9 @@ void registerCompoundOperation(const py::module& m) {
             }
             auto ops = std::vector<qc::Operation*>();
             ops.reserve(sliceLength);
-            for (std::size_t i = start; i < stop; i += step) {
-              ops.emplace_back(op.at(i).get());
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              ops.emplace_back(op.at(start).get());
+              start += step;
             }
             return ops;
           },
@@ -119,10 +120,12 @@ void registerCompoundOperation(const py::module& m) {
                                &sliceLength)) {
               throw py::error_already_set();
             }
-            // delete in reverse order to not invalidate indices
-            for (std::size_t i = sliceLength; i > 0; --i) {
+            // delete from the back to not invalidate indices
+            const auto descending = static_cast<DiffType>(step) < 0;
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              const auto k = descending ? i : sliceLength - 1 - i;
               compOp.erase(compOp.begin() +
-                           static_cast<int64_t>(start + (i - 1) * step));
+                           static_cast<DiffType>(start + k * step));
             }
           },
           "slice"_a)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 41f5e7b..6894821 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -104,8 +104,9 @@ void registerQuantumComputation(py::module& m) {
         }
         auto ops = std::vector<qc::Operation*>();
         ops.reserve(sliceLength);
-        for (std::size_t i = start; i < stop; i += step) {
-          ops.emplace_back(circ.at(i).get());
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          ops.emplace_back(circ.at(start).get());
+          start += step;
         }
         return ops;
       },
@@ -158,10 +159,11 @@ void registerQuantumComputation(py::module& m) {
                            &sliceLength)) {
           throw py::error_already_set();
         }
-        // delete in reverse order to not invalidate indices
-        for (std::size_t i = sliceLength; i > 0; --i) {
-          circ.erase(circ.begin() +
-                     static_cast<int64_t>(start + (i - 1) * step));
+        // delete from the back to not invalidate indices
+        const auto descending = static_cast<DiffType>(step) < 0;
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          const auto k = descending ? i : sliceLength - 1 - i;
+          circ.erase(circ.begin() + static_cast<DiffType>(start + k * step));
         }
       },
       "slice"_a);
-- 
2.43.0


From ac9542075fdd769ce3f5be3a9bc0ee8674fe42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 55/77] fix: Assigning a slice of a circuit to itself does not
 read freed operations

---
 .../ir/operations/register_compound_operation.cpp      | 10 ++++++++--
 src/python/ir/register_quantum_computation.cpp         | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index f7193c8..4521444 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -96,8 +96,14 @@ void registerCompoundOperation(const py::module& m) {
               throw std::runtime_error(
                   "Length of slice and number of operations do not match.");
             }
-            for (std::size_t i = 0; i < sliceLength; ++i) {
-              compOp[start] = ops[i]->clone();
+            // clone first, since the operations may belong to this operation
+            std::vector<std::unique_ptr<qc::Operation>> clones;
+            clones.reserve(sliceLength);
+            for (const auto* op : ops) {
+              clones.emplace_back(op->clone());
+            }
+            for (auto& clone : clones) {
+              compOp[start] = std::move(clone);
               start += step;
             }
           },
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 6894821..16b8e6f 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -135,8 +135,14 @@ void registerQuantumComputation(py::module& m) {
           throw std::runtime_error(
               "Length of slice and number of operations do not match.");
         }
-        for (std::size_t i = 0; i < sliceLength; ++i) {
-          circ.at(start) = ops[i]->clone();
+        // clone first, since the operations may belong to this circuit
+        std::vector<std::unique_ptr<qc::Operation>> clones;
+        clones.reserve(sliceLength);
+        for (const auto* op : ops) {
+          clones.emplace_back(op->clone());
+        }
+        for (auto& clone : clones) {
+          circ.at(start) = std::move(clone);
           start += step;
         }
       },
-- 
2.43.0


From af75d7d2f9b2beef212a688fce0f296a4984ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 56/77] fix: Inserting operations past the end or before the
 beginning from Python

---
 .../ir/operations/register_compound_operation.cpp    | 12 +++++++++---
 src/python/ir/register_quantum_computation.cpp       | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 4521444..d02f9b7 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -12,6 +12,7 @@
 #include "ir/operations/Operation.hpp"
 #include "python/pybind11.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <sstream>
@@ -143,10 +144,15 @@ void registerCompoundOperation(const py::module& m) {
           "op"_a)
       .def(
           "insert",
-          [](qc::CompoundOperation& compOp, const std::size_t idx,
+          [](qc::CompoundOperation& compOp, DiffType idx,
              const qc::Operation& op) {
-            compOp.insert(compOp.begin() + static_cast<int64_t>(idx),
-                          op.clone());
+            // out-of-range indices are clamped as for Python lists
+            const auto size = static_cast<DiffType>(compOp.size());
+            if (idx < 0) {
+              idx += size;
+            }
+            idx = std::clamp<DiffType>(idx, 0, size);
+            compOp.insert(compOp.begin() + idx, op.clone());
           },
           "idx"_a, "op"_a)
       .def("empty", &qc::CompoundOperation::empty)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 16b8e6f..51774c5 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -18,6 +18,7 @@
 #include "python/pybind11.hpp"
 #include "qasm3/Importer.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
@@ -176,9 +177,14 @@ void registerQuantumComputation(py::module& m) {
   qc.def("__len__", &qc::QuantumComputation::getNops);
   qc.def(
       "insert",
-      [](qc::QuantumComputation& circ, std::size_t idx,
-         const qc::Operation& op) {
-        circ.insert(circ.begin() + static_cast<int64_t>(idx), op.clone());
+      [](qc::QuantumComputation& circ, DiffType idx, const qc::Operation& op) {
+        // out-of-range indices are clamped as for Python lists
+        const auto size = static_cast<DiffType>(circ.getNops());
+        if (idx < 0) {
+          idx += size;
+        }
+        idx = std::clamp<DiffType>(idx, 0, size);
+        circ.insert(circ.begin() + idx, op.clone());
       },
       "idx"_a, "op"_a);
   qc.def(
-- 
2.43.0


From 4dea3dbe3ad9f20eb5f5b0920e85f2afd93b4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 57/77] fix: Assigning the global phase of a circuit in Python
 replaces it

---
 src/python/ir/register_quantum_computation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 51774c5..0a479d9 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -77,7 +77,11 @@ void registerQuantumComputation(py::module& m) {
   qc.def("num_total_ops", &qc::QuantumComputation::getNindividualOps);
   qc.def("depth", &qc::QuantumComputation::getDepth);
   qc.def_property("global_phase", &qc::QuantumComputation::getGlobalPhase,
-                  &qc::QuantumComputation::gphase);
+                  [](qc::QuantumComputation& circ, const qc::fp phase) {
+                    // replace the phase instead of adding to it
+                    circ.gphase(-circ.getGlobalPhase());
+                    circ.gphase(phase);
+                  });
   qc.def("invert", &qc::QuantumComputation::invert);
   qc.def("to_operation", &qc::QuantumComputation::asOperation);
 
-- 
2.43.0


From 5be8553b898b5df561ab06fad933c43b88a58ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 58/77] fix: Documented methods missing from the Python
 interface

---
 src/python/ir/register_quantum_computation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 0a479d9..1f9e0ee 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -238,7 +238,7 @@ void registerQuantumComputation(py::module& m) {
       "ancillary", py::overload_cast<>(&qc::QuantumComputation::getAncillary));
   qc.def("set_circuit_qubit_ancillary",
          &qc::QuantumComputation::setLogicalQubitAncillary, "q"_a);
-  qc.def("se_circuit_qubits_ancillary",
+  qc.def("set_circuit_qubits_ancillary",
          &qc::QuantumComputation::setLogicalQubitsAncillary, "q_min"_a,
          "q_max"_a);
   qc.def("is_circuit_qubit_ancillary",
@@ -374,6 +374,7 @@ void registerQuantumComputation(py::module& m) {
   DEFINE_TWO_TARGET_OPERATION(dcx)
   DEFINE_TWO_TARGET_OPERATION(ecr)
   DEFINE_TWO_TARGET_OPERATION(iswap)
+  DEFINE_TWO_TARGET_OPERATION(iswapdg)
   DEFINE_TWO_TARGET_OPERATION(peres)
   DEFINE_TWO_TARGET_OPERATION(peresdg)
 
-- 
2.43.0


From 26510306654506025c078de87e732ce265dd3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 59/77] fix: Iterators over permutations keep the permutation
 alive in Python

---
 src/python/ir/register_permutation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/register_permutation.cpp b/src/python/ir/register_permutation.cpp
index ee34b46..24dd939 100644
--- a/src/python/ir/register_permutation.cpp
+++ b/src/python/ir/register_permutation.cpp
@@ -45,10 +45,12 @@ void registerPermutation(py::module& m) {
       .def("__delitem__",
            [](qc::Permutation& p, const qc::Qubit q) { p.erase(q); })
       .def("__len__", &qc::Permutation::size)
-      .def("__iter__",
-           [](const qc::Permutation& p) {
-             return py::make_key_iterator(p.begin(), p.end());
-           })
+      .def(
+          "__iter__",
+          [](const qc::Permutation& p) {
+            return py::make_key_iterator(p.begin(), p.end());
+          },
+          py::keep_alive<0, 1>())
       .def(
           "items",
           [](const qc::Permutation& p) {
-- 
2.43.0


From 816cfc04323f7afacba08db7c057eadcaa1e78fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 60/77] fix: Results of simulate and build_functionality keep
 the DD package alive in Python

---
 src/python/dd/register_dd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/dd/register_dd.cpp b/src/python/dd/register_dd.cpp
index 2cfc07c..b1765c9 100644
--- a/src/python/dd/register_dd.cpp
+++ b/src/python/dd/register_dd.cpp
@@ -80,7 +80,9 @@ PYBIND11_MODULE(dd, mod, py::mod_gil_not_used()) {
       },
       "qc"_a, "recursive"_a = false);
 
-  mod.def("simulate", &dd::simulate, "qc"_a, "initial_state"_a, "dd_package"_a);
+  mod.def("simulate", &dd::simulate, "qc"_a, "initial_state"_a, "dd_package"_a,
+          // keep the DD package alive while the returned vector DD is alive.
+          py::keep_alive<0, 3>());
 
   mod.def(
       "build_functionality",
@@ -91,7 +93,9 @@ PYBIND11_MODULE(dd, mod, py::mod_gil_not_used()) {
         }
         return dd::buildFunctionality(qc, p);
       },
-      "qc"_a, "dd_package"_a, "recursive"_a = false);
+      "qc"_a, "dd_package"_a, "recursive"_a = false,
+      // keep the DD package alive while the returned matrix DD is alive.
+      py::keep_alive<0, 2>());
 }
 
 } // namespace mqt
-- 
2.43.0


From b3810457f1d7e6e704e6bc0fa1bceefefcdc1786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 61/77] fix: DDPackage.apply_measurement can be called from
 Python

---
 src/python/dd/register_dd_package.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/python/dd/register_dd_package.cpp b/src/python/dd/register_dd_package.cpp
index b7bb57e..5af74f1 100644
--- a/src/python/dd/register_dd_package.cpp
+++ b/src/python/dd/register_dd_package.cpp
@@ -189,14 +189,15 @@ void registerDDPackage(const py::module& mod) {
          const qc::Permutation& perm = {}) {
         static std::mt19937_64 rng(std::random_device{}());
         auto measurementsCopy = measurements;
-        return std::pair{
-            dd::applyMeasurement(op, v, p, rng, measurementsCopy, perm),
-            measurementsCopy};
+        auto vec = py::cast(
+            dd::applyMeasurement(op, v, p, rng, measurementsCopy, perm));
+        // keep the DD package alive while the returned vector DD is alive.
+        py::detail::keep_alive_impl(
+            vec, py::cast(&p, py::return_value_policy::reference));
+        return std::pair{std::move(vec), std::move(measurementsCopy)};
       },
       "vec"_a, "operation"_a, "measurements"_a,
-      "permutation"_a = qc::Permutation{},
-      // keep the DD package alive while the returned vector DD is alive.
-      py::keep_alive<0, 1>());
+      "permutation"_a = qc::Permutation{});
 
   dd.def(
       "apply_reset",
-- 
2.43.0


From d654a4bb64f113d6045006515fff3f2af4dd78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 62/77] fix: Documented keyword arguments of the Python
 interface

---
 src/mqt/core/ir/__init__.pyi                             | 4 ++--
 src/python/ir/operations/register_symbolic_operation.cpp | 2 +-
 src/python/ir/register_permutation.cpp                   | 2 +-
 src/python/ir/register_quantum_computation.cpp           | 6 ++++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mqt/core/ir/__init__.pyi b/src/mqt/core/ir/__init__.pyi
index 16285a6..c781dbe 100644
--- a/src/mqt/core/ir/__init__.pyi
+++ b/src/mqt/core/ir/__init__.pyi
@@ -1783,14 +1783,14 @@ class QuantumComputation(MutableSequence[Operation]):
             :meth:`xx_plus_yy`
         """
 
-    def gphase(self, theta: float) -> None:
+    def gphase(self, phase: float) -> None:
         r"""Apply a global phase gate.
 
         .. math::
             GPhase(\theta) = (e^{i\theta})
 
         Args:
-            theta: The rotation angle
+            phase: The rotation angle
         """
 
     @overload
diff --git a/src/python/ir/operations/register_symbolic_operation.cpp b/src/python/ir/operations/register_symbolic_operation.cpp
index 06e3152..3f0216c 100644
--- a/src/python/ir/operations/register_symbolic_operation.cpp
+++ b/src/python/ir/operations/register_symbolic_operation.cpp
@@ -55,7 +55,7 @@ void registerSymbolicOperation(const py::module& m) {
                     const std::vector<qc::SymbolOrNumber>&>(),
            "controls"_a, "target0"_a, "target1"_a, "op_type"_a,
            "params"_a = std::vector<qc::SymbolOrNumber>{})
-      .def("get_parameter", &qc::SymbolicOperation::getParameter)
+      .def("get_parameter", &qc::SymbolicOperation::getParameter, "idx"_a)
       .def("get_parameters", &qc::SymbolicOperation::getParameters)
       .def("get_instantiated_operation",
            &qc::SymbolicOperation::getInstantiatedOperation, "assignment"_a)
diff --git a/src/python/ir/register_permutation.cpp b/src/python/ir/register_permutation.cpp
index 24dd939..5eae4c6 100644
--- a/src/python/ir/register_permutation.cpp
+++ b/src/python/ir/register_permutation.cpp
@@ -28,7 +28,7 @@ void registerPermutation(py::module& m) {
              }
              return perm;
            }),
-           "perm"_a, "Create a permutation from a dictionary.")
+           "permutation"_a, "Create a permutation from a dictionary.")
       .def("apply",
            py::overload_cast<const qc::Controls&>(&qc::Permutation::apply,
                                                   py::const_),
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 1f9e0ee..1431660 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -434,8 +434,10 @@ void registerQuantumComputation(py::module& m) {
   qc.def("barrier", py::overload_cast<>(&qc::QuantumComputation::barrier));
   qc.def("barrier",
          py::overload_cast<qc::Qubit>(&qc::QuantumComputation::barrier), "q"_a);
-  qc.def("barrier", py::overload_cast<const std::vector<qc::Qubit>&>(
-                        &qc::QuantumComputation::barrier));
+  qc.def("barrier",
+         py::overload_cast<const std::vector<qc::Qubit>&>(
+             &qc::QuantumComputation::barrier),
+         "qubits"_a);
 
   qc.def(
       "classic_controlled",
-- 
2.43.0


From 97b488b9c9937a0a00e818362dbe015a0c2774ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 63/77] fix: Comparing an operation with an object of another
 type in Python

---
 src/python/ir/operations/register_operation.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/operations/register_operation.cpp b/src/python/ir/operations/register_operation.cpp
index 9c23a9d..75db45b 100644
--- a/src/python/ir/operations/register_operation.cpp
+++ b/src/python/ir/operations/register_operation.cpp
@@ -52,10 +52,18 @@ void registerOperation(const py::module& m) {
       .def("is_controlled", &qc::Operation::isControlled)
       .def("get_inverted", &qc::Operation::getInverted)
       .def("invert", &qc::Operation::invert)
-      .def("__eq__", [](const qc::Operation& op,
-                        const qc::Operation& other) { return op == other; })
-      .def("__ne__", [](const qc::Operation& op,
-                        const qc::Operation& other) { return op != other; })
+      .def(
+          "__eq__",
+          [](const qc::Operation& op, const qc::Operation& other) {
+            return op == other;
+          },
+          py::is_operator())
+      .def(
+          "__ne__",
+          [](const qc::Operation& op, const qc::Operation& other) {
+            return op != other;
+          },
+          py::is_operator())
       .def("__hash__",
            [](const qc::Operation& op) {
              return std::hash<qc::Operation>{}(op);
-- 
2.43.0


From d37168c26d33cbc4980821febee6896cf912a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 64/77] fix: Missing keys of a permutation raise a KeyError in
 Python

---
 src/python/ir/register_permutation.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/python/ir/register_permutation.cpp b/src/python/ir/register_permutation.cpp
index 5eae4c6..381af07 100644
--- a/src/python/ir/register_permutation.cpp
+++ b/src/python/ir/register_permutation.cpp
@@ -15,6 +15,7 @@
 
 #include <pybind11/operators.h>
 #include <sstream>
+#include <string>
 
 namespace mqt {
 
@@ -39,11 +40,21 @@ void registerPermutation(py::module& m) {
            "targets"_a)
       .def("clear", [](qc::Permutation& p) { p.clear(); })
       .def("__getitem__",
-           [](const qc::Permutation& p, const qc::Qubit q) { return p.at(q); })
+           [](const qc::Permutation& p, const qc::Qubit q) {
+             const auto it = p.find(q);
+             if (it == p.end()) {
+               throw py::key_error(std::to_string(q));
+             }
+             return it->second;
+           })
       .def("__setitem__", [](qc::Permutation& p, const qc::Qubit q,
                              const qc::Qubit r) { p[q] = r; })
       .def("__delitem__",
-           [](qc::Permutation& p, const qc::Qubit q) { p.erase(q); })
+           [](qc::Permutation& p, const qc::Qubit q) {
+             if (p.erase(q) == 0U) {
+               throw py::key_error(std::to_string(q));
+             }
+           })
       .def("__len__", &qc::Permutation::size)
       .def(
           "__iter__",
-- 
2.43.0


From 7226fdc847bde3a674a181166dcb2e7c22e9a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 65/77] fix: Removing a set of controls from an operation

---
 include/mqt-core/ir/operations/Operation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index d18119d..cbd28c6 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -126,7 +126,9 @@ public:
 
   void removeControls(const Controls& c) {
     for (auto it = c.begin(); it != c.end();) {
-      it = removeControl(it);
+      // the given set may be the set of controls that is being changed
+      const auto control = *it++;
+      removeControl(control);
     }
   }
 
-- 
2.43.0


From 36c148d0038eafd6a772dceddeefdf0927e6dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 66/77] fix: to_operation does not return a freed operation in
 Python

---
 src/python/ir/register_quantum_computation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 1431660..aaf813d 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -83,7 +83,12 @@ void registerQuantumComputation(py::module& m) {
                     circ.gphase(phase);
                   });
   qc.def("invert", &qc::QuantumComputation::invert);
-  qc.def("to_operation", &qc::QuantumComputation::asOperation);
+  qc.def("to_operation", [](qc::QuantumComputation& circ) {
+    const auto single = circ.getNops() == 1;
+    auto op = circ.asOperation();
+    // Python objects that refer to the operation must not become the result
+    return single ? op->clone() : std::move(op);
+  });
 
   ///---------------------------------------------------------------------------
   ///                  \n Mutable Sequence Interface \n
-- 
2.43.0


From b3ef2ca520bc644756ef31b218e5d0a354ddf4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 67/77] fix: Inverting a circuit keeps references to its
 operations valid

---
 src/ir/QuantumComputation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index d9d14c0..5c977ff 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -578,12 +578,14 @@ QuantumComputation::instantiate(const VariableAssignment& assignment) const {
 
 void QuantumComputation::invert() {
   // do not alter the circuit if one of the operations cannot be inverted
-  std::vector<std::unique_ptr<Operation>> inverted{};
-  inverted.reserve(ops.size());
-  for (auto it = ops.crbegin(); it != ops.crend(); ++it) {
-    inverted.emplace_back((*it)->getInverted());
+  for (const auto& op : ops) {
+    static_cast<void>(op->getInverted());
+  }
+  // invert in place so that references to the operations remain valid
+  for (const auto& op : ops) {
+    op->invert();
   }
-  ops = std::move(inverted);
+  std::reverse(ops.begin(), ops.end());
   gphase(-2. * globalPhase);
 
   if (initialLayout.size() == outputPermutation.size()) {
-- 
2.43.0


From 841ea005e322612a26c6e68281ae528d14073e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:24 +0000
Subject: [PATCH 68/77] fix: Inverting a compound operation keeps references to
 its operations valid

---
 .../ir/operations/CompoundOperation.hpp       |  3 +++
 src/ir/operations/CompoundOperation.cpp       | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/mqt-core/ir/operations/CompoundOperation.hpp b/include/mqt-core/ir/operations/CompoundOperation.hpp
index d0d6599..11a314b 100644
--- a/include/mqt-core/ir/operations/CompoundOperation.hpp
+++ b/include/mqt-core/ir/operations/CompoundOperation.hpp
@@ -35,6 +35,9 @@ private:
   std::vector<std::unique_ptr<Operation>> ops;
   bool customGate;
 
+  /// Inverts the operations without checking that all of them can be inverted
+  void invertOperations();
+
 public:
   explicit CompoundOperation(bool isCustom = false);
 
diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index 935038d..258e59d 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -246,12 +246,21 @@ auto CompoundOperation::isInverseOf(const Operation& other) const -> bool {
 
 void CompoundOperation::invert() {
   // do not alter any operation if one of them cannot be inverted
-  std::vector<std::unique_ptr<Operation>> inverted{};
-  inverted.reserve(ops.size());
-  for (auto it = ops.crbegin(); it != ops.crend(); ++it) {
-    inverted.emplace_back((*it)->getInverted());
+  CompoundOperation(*this).invertOperations();
+  invertOperations();
+}
+
+void CompoundOperation::invertOperations() {
+  // invert in place so that references to the operations remain valid
+  for (const auto& op : ops) {
+    if (auto* compound = dynamic_cast<CompoundOperation*>(op.get());
+        compound != nullptr) {
+      compound->invertOperations();
+    } else {
+      op->invert();
+    }
   }
-  ops = std::move(inverted);
+  std::reverse(ops.begin(), ops.end());
 }
 
 void CompoundOperation::apply(const Permutation& permutation) {
-- 
2.43.0


From 88e80c805c1fa40e384ee7cd8d7b129914e8b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 69/77] fix: Printing a compound operation without a prefix

---
 src/ir/operations/CompoundOperation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index 258e59d..c2784b6 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -158,7 +158,7 @@ std::ostream& CompoundOperation::print(std::ostream& os,
                                        const Permutation& permutation,
                                        const std::size_t prefixWidth,
                                        const std::size_t nqubits) const {
-  const auto prefix = std::string(prefixWidth - 1, ' ');
+  const auto prefix = std::string(prefixWidth > 0 ? prefixWidth - 1 : 0, ' ');
   os << std::string(4 * nqubits, '-') << "\n";
   for (const auto& op : ops) {
     os << prefix << ":";
-- 
2.43.0


From 52f3e8cb9bae0413cdf1b2366e967e598c4c1e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 70/77] fix: Consider the first operation when checking whether
 a compound operation is global

---
 src/ir/operations/CompoundOperation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index c2784b6..f8dbdf2 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -80,10 +80,13 @@ bool CompoundOperation::isGlobal(const size_t nQubits) const noexcept {
   if (ops.empty()) {
     return nQubits == 0;
   }
+  if (ops.size() == 1) {
+    return ops.front()->isGlobal(nQubits);
+  }
   const auto& params = ops.front()->getParameter();
   const auto& t = ops.front()->getType();
   return getUsedQubits().size() == nQubits &&
-         std::all_of(ops.cbegin() + 1, ops.cend(), [&](const auto& operation) {
+         std::all_of(ops.cbegin(), ops.cend(), [&](const auto& operation) {
            return operation->isStandardOperation() &&
                   operation->getNcontrols() == 0 && operation->getType() == t &&
                   operation->getParameter() == params;
-- 
2.43.0


From bff092af19c0a42133373bd309b9f8270c5b4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 71/77] fix: Refused changes of the controls of a compound
 operation leave it unchanged

---
 src/ir/operations/CompoundOperation.cpp | 36 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index f8dbdf2..50567c5 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -99,12 +99,19 @@ bool CompoundOperation::isSymbolicOperation() const {
 }
 
 void CompoundOperation::addControl(const Control c) {
-  controls.insert(c);
   // we can just add the controls to each operation, as the operations will
   // check if they already act on the control qubits.
-  for (const auto& op : ops) {
-    op->addControl(c);
+  for (auto it = ops.begin(); it != ops.end(); ++it) {
+    try {
+      (*it)->addControl(c);
+    } catch (...) {
+      // do not leave the control on some of the operations only
+      std::for_each(ops.begin(), it,
+                    [&c](const auto& op) { op->removeControl(c); });
+      throw;
+    }
   }
+  controls.insert(c);
 }
 
 void CompoundOperation::clearControls() {
@@ -113,23 +120,28 @@ void CompoundOperation::clearControls() {
 }
 
 void CompoundOperation::removeControl(const Control c) {
-  // first we iterate over our controls and check if we are actually allowed
-  // to remove them
-  if (controls.erase(c) == 0) {
+  // first we check if we are actually allowed to remove the control
+  const auto it = controls.find(c);
+  if (it == controls.end()) {
     throw std::runtime_error(
         "Cannot remove control from compound operation as it "
         "is not a control.");
   }
-
-  for (const auto& op : ops) {
-    op->removeControl(c);
-  }
+  removeControl(it);
 }
 
 Controls::iterator
 CompoundOperation::removeControl(const Controls::iterator it) {
-  for (const auto& op : ops) {
-    op->removeControl(*it);
+  const auto c = *it;
+  for (auto op = ops.begin(); op != ops.end(); ++op) {
+    try {
+      (*op)->removeControl(c);
+    } catch (...) {
+      // do not remove the control from some of the operations only
+      std::for_each(ops.begin(), op,
+                    [&c](const auto& other) { other->addControl(c); });
+      throw;
+    }
   }
 
   return controls.erase(it);
-- 
2.43.0


From 98b61116758681cd1117c1e09bd22120da27126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 72/77] fix: Symbolic operations with different parameters do
 not commute

---
 src/ir/operations/StandardOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 0dd10fe..ae1f43a 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -547,7 +547,9 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
-  return type == other.getType() && targets == other.getTargets() &&
+  // symbolic parameters are not part of the numeric ones
+  return !isSymbolicOperation() && !other.isSymbolicOperation() &&
+         type == other.getType() && targets == other.getTargets() &&
          parameter == other.getParameter();
 }
 
-- 
2.43.0


From c17e754d1d4db0d157450d367a77194bb198bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 73/77] fix: check the arity traits of the MQTOpt dialect

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
index 128b2d7..fecb0e7 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
@@ -20,6 +20,7 @@ template <size_t N> class TargetArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto unitaryOp = mlir::cast<ConcreteOp>(op);
       if (const auto size = unitaryOp.getInQubits().size(); size != N) {
@@ -35,6 +36,7 @@ template <size_t N> class ParameterArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto paramOp = mlir::cast<ConcreteOp>(op);
       const auto& params = paramOp.getParams();
@@ -59,13 +61,13 @@ public:
       if (paramsMask.has_value()) {
         const auto trueEntries = static_cast<std::size_t>(std::count_if(
             paramsMask->begin(), paramsMask->end(), [](bool b) { return b; }));
-        if ((!staticParams.has_value() || staticParams->empty()) &&
-            trueEntries != 0) {
+        const auto size = staticParams.has_value() ? staticParams->size() : 0;
+        if (size == 0 && trueEntries != 0) {
           return op->emitError() << "operation has no static parameter but has "
                                     "a parameter mask with "
                                  << trueEntries << " true entries";
         }
-        if (const auto size = staticParams->size(); size != trueEntries) {
+        if (size != trueEntries) {
           return op->emitError()
                  << "operation has " << size
                  << " static parameter(s) but has a parameter mask with "
-- 
2.43.0


From eac523c13d32ef93a554933b1a695850adbacaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 74/77] fix: make the textual form of gates without qubits
 parsable

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
index c6c0572..dfe12a7 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
@@ -132,7 +132,7 @@ class UnitaryOp<string mnemonic, list<Trait> traits = []> :
 
     let assemblyFormat = [{
         `(` $params ( `static` $static_params^ )? ( `mask` $params_mask^ )? `)` attr-dict $in_qubits ( `ctrl` $pos_ctrl_qubits^ )? ( `nctrl` $neg_ctrl_qubits^ )?
-        `:` type($out_qubits)
+        ( `:` type($out_qubits)^ )?
     }];
 }
 
@@ -148,6 +148,12 @@ def GPhaseOp : UnitaryOp<"GPhase", [NoTarget, OneParameter]> {
         An analogous example can be seen in the description of XOp.
     }];
 
+    // Without targets, the next SSA name could be mistaken for an operand.
+    let assemblyFormat = [{
+        `(` $params ( `static` $static_params^ )? ( `mask` $params_mask^ )? `)` attr-dict ( `targets` $in_qubits^ )? ( `ctrl` $pos_ctrl_qubits^ )? ( `nctrl` $neg_ctrl_qubits^ )?
+        ( `:` type($out_qubits)^ )?
+    }];
+
     // This operation has a verifier that checks if the gate has no input or output
     // qubits. It is implemented in the corresponding .cpp file.
     let hasVerifier = 1;
-- 
2.43.0


From 11026120fdcbdfc0aade38d0eec94e54f9b72d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 75/77] fix: cancel inverse gates without users and with
 repeated users correctly

---
 .../CancelConsecutiveInversesPattern.cpp      | 23 +++----------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
index c29760f..10280f8 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
@@ -45,7 +45,7 @@ struct CancelConsecutiveInversesPattern final
                                             mlir::Operation& b) {
     static const std::map<std::string, std::string> INVERSE_PAIRS = {
         {"x", "x"},           {"y", "y"},   {"z", "z"},
-        {"h", "h"},           {"i", "i"},   {"swap", "swap"},
+        {"H", "H"},           {"I", "I"},   {"swap", "swap"},
         {"ecr", "ecr"},       {"t", "tdg"}, {"s", "sdg"},
         {"sx", "sxdg"},       {"v", "vdg"}, {"iswap", "iswapdg"},
         {"peres", "peresdg"},
@@ -74,7 +74,7 @@ struct CancelConsecutiveInversesPattern final
 
   mlir::LogicalResult match(UnitaryInterface op) const override {
     const auto& users = op->getUsers();
-    if (!areUsersUnique(users)) {
+    if (users.empty() || !areUsersUnique(users)) {
       return mlir::failure();
     }
     auto* user = *users.begin();
@@ -98,24 +98,7 @@ struct CancelConsecutiveInversesPattern final
                mlir::PatternRewriter& rewriter) const override {
     auto user = mlir::dyn_cast<UnitaryInterface>(
         *op->getUsers().begin()); // We always have exactly one user.
-    const auto& childUsers = user->getUsers();
-
-    for (const auto& childUser : childUsers) {
-      for (size_t i = 0; i < childUser->getOperands().size(); i++) {
-        const auto& operand = childUser->getOperand(i);
-        const auto found = std::find(user.getOutQubits().begin(),
-                                     user.getOutQubits().end(), operand);
-        if (found == user.getOutQubits().end()) {
-          continue;
-        }
-        const auto idx = std::distance(user.getOutQubits().begin(), found);
-        rewriter.modifyOpInPlace(childUser, [&] {
-          childUser->setOperand(i, op.getAllInQubits()[idx]);
-        });
-      }
-    }
-
-    rewriter.eraseOp(user);
+    rewriter.replaceOp(user, op.getAllInQubits());
     rewriter.eraseOp(op);
   }
 };
-- 
2.43.0


From ed7db10c37f8cf86c61c7929d9cbc7d9181780b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 76/77] fix: keep the meaning of programs with loops and
 several block arguments when sinking gates

---
 .../Transforms/QuantumSinkPushPattern.cpp     | 39 ++++++----
 .../Transforms/QuantumSinkShiftPattern.cpp    | 72 +++++++++++++------
 2 files changed, 74 insertions(+), 37 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index 75ef434..1bbb589 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -23,6 +23,7 @@
 #include <mlir/Support/LLVM.h>
 #include <mlir/Support/LogicalResult.h>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 namespace mqt::ir::opt {
@@ -51,22 +52,25 @@ struct QuantumSinkPushPattern final
    */
   int getDepth(mlir::Block& toCheck, const UnitaryInterface& op) const {
     auto* originalBlock = op->getBlock();
-    if (&toCheck == originalBlock) {
-      return 0;
-    }
-    int depth = -1;
-    for (auto* pred : toCheck.getPredecessors()) {
-      const auto result = getDepth(*pred, op);
-      if (result == -1) {
-        continue;
-      }
-      if (depth == -1) {
-        depth = result + 1;
-      } else {
-        depth = std::min(depth, result + 1);
+    // Breadth-first search through the predecessors. Every block is visited at
+    // most once because the control flow may contain loops.
+    std::unordered_set<mlir::Block*> visited{&toCheck};
+    std::vector<mlir::Block*> current{&toCheck};
+    for (int depth = 0; !current.empty(); ++depth) {
+      std::vector<mlir::Block*> next;
+      for (auto* block : current) {
+        if (block == originalBlock) {
+          return depth;
+        }
+        for (auto* pred : block->getPredecessors()) {
+          if (visited.insert(pred).second) {
+            next.emplace_back(pred);
+          }
+        }
       }
+      current = std::move(next);
     }
-    return depth;
+    return -1;
   }
 
   /**
@@ -229,7 +233,12 @@ struct QuantumSinkPushPattern final
       block.eraseArgument(i);
     }
 
-    std::unordered_set<mlir::Block*> visited;
+    // The remaining arguments were collected from last to first.
+    std::reverse(newBlockArgs.begin(), newBlockArgs.end());
+
+    // The block of the original operation (which may follow in a loop) still
+    // refers to the original operation.
+    std::unordered_set<mlir::Block*> visited{op->getBlock()};
     replaceAllChildUsesWith(*op, *clone, block, visited);
 
     // Now, the block instead needs to be passed the inputs of the pushed
diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
index 54486cf..ef76bac 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
@@ -59,27 +59,52 @@ struct QuantumSinkShiftPattern final
   }
 
   /**
-   * @brief Returns the earliest users of a given operation.
+   * @brief Returns the distinct users of a given operation.
    *
-   * In this case, "earliest" denotes all operations that are not preceded
-   * another operation in the list of users.
+   * An operation (e.g., a conditional branch) may use a result several times.
    *
-   * @param users The users to find the earliest users for.
-   * @return A vector of all earliest users of the given operation.
+   * @param op The operation to find the users of.
+   * @return A vector of all distinct users of the given operation.
    */
-  [[nodiscard]] std::vector<mlir::Operation*>
-  getEarliestUsers(mlir::ResultRange::user_range users) const {
-    std::vector<mlir::Operation*> earliestUsers;
-    std::copy_if(
-        users.begin(), users.end(), std::back_inserter(earliestUsers),
-        [&](auto* user) {
-          return std::none_of(users.begin(), users.end(), [&](auto* other) {
-            std::unordered_set<mlir::Block*> visited;
-            return user != other && isAfterOrEqual(*user->getBlock(),
-                                                   *other->getBlock(), visited);
-          });
+  [[nodiscard]] static std::vector<mlir::Operation*>
+  getDistinctUsers(UnitaryInterface op) {
+    std::vector<mlir::Operation*> distinctUsers;
+    for (auto* user : op->getUsers()) {
+      if (std::find(distinctUsers.begin(), distinctUsers.end(), user) ==
+          distinctUsers.end()) {
+        distinctUsers.emplace_back(user);
+      }
+    }
+    return distinctUsers;
+  }
+
+  /**
+   * @brief Checks if one of the users of an operation precedes another one or
+   * itself (in a loop).
+   *
+   * Paths through the block of the operation itself are not considered, as they
+   * execute the operation again.
+   *
+   * @param op The operation to check.
+   * @param users The distinct users of the operation.
+   * @return True if one of the users precedes another one or itself, false
+   * otherwise.
+   */
+  [[nodiscard]] bool
+  areUsersOrdered(UnitaryInterface op,
+                  const std::vector<mlir::Operation*>& users) const {
+    return std::any_of(users.begin(), users.end(), [&](auto* user) {
+      return std::any_of(users.begin(), users.end(), [&](auto* other) {
+        std::unordered_set<mlir::Block*> visited{op->getBlock()};
+        if (user != other) {
+          return isAfterOrEqual(*user->getBlock(), *other->getBlock(), visited);
+        }
+        auto parents = user->getBlock()->getPredecessors();
+        return std::any_of(parents.begin(), parents.end(), [&](auto* parent) {
+          return isAfterOrEqual(*parent, *user->getBlock(), visited);
         });
-    return earliestUsers;
+      });
+    });
   }
 
   mlir::LogicalResult match(UnitaryInterface op) const override {
@@ -97,10 +122,13 @@ struct QuantumSinkShiftPattern final
     // There may be multiple users if canonicalization has deemed a branch
     // operand as pass-through and therefore removed it. If more than one user
     // is in the same block, then the `QuantumSinkShiftPattern` cannot be
-    // applied
-    return std::all_of(
-               users.begin(), users.end(),
-               [&](auto* user) { return user->getBlock() != op->getBlock(); })
+    // applied. The same holds if a user may be executed after another one or
+    // repeatedly.
+    return std::all_of(users.begin(), users.end(),
+                       [&](auto* user) {
+                         return user->getBlock() != op->getBlock();
+                       }) &&
+                   !areUsersOrdered(op, getDistinctUsers(op))
                ? mlir::success()
                : mlir::failure();
   }
@@ -132,7 +160,7 @@ struct QuantumSinkShiftPattern final
 
   void rewrite(UnitaryInterface op,
                mlir::PatternRewriter& rewriter) const override {
-    auto users = getEarliestUsers(op->getUsers());
+    const auto users = getDistinctUsers(op);
 
     for (auto* user : users) {
       auto* block = user->getBlock();
-- 
2.43.0


From 580376dcf335c2fc6beb124b29c3c7621b37107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 77/77] fix: visit operations after their inputs in the MLIR
 round trip and support all documented gates

---
 .../FromQuantumComputationPattern.cpp         |  19 ++-
 .../ToQuantumComputationPattern.cpp           | 123 ++++++++++--------
 2 files changed, 82 insertions(+), 60 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
index 631720a..a39803c 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
@@ -84,12 +84,21 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
                                   inQubit.getType());
     const mlir::TypeRange outTypes(resultTypes);
 
+    const auto create = [&](auto tag) -> UnitaryInterface {
+      return rewriter.create<decltype(tag)>(
+          loc, outTypes, mlir::DenseF64ArrayAttr{}, mlir::DenseBoolArrayAttr{},
+          mlir::ValueRange{}, mlir::ValueRange{inQubit}, controlQubitsPositive,
+          controlQubitsNegative);
+    };
     switch (type) {
     case qc::OpType::X:
-      return rewriter.create<XOp>(loc, outTypes, mlir::DenseF64ArrayAttr{},
-                                  mlir::DenseBoolArrayAttr{},
-                                  mlir::ValueRange{}, mlir::ValueRange{inQubit},
-                                  controlQubitsPositive, controlQubitsNegative);
+      return create(XOp{});
+    case qc::OpType::Y:
+      return create(YOp{});
+    case qc::OpType::Z:
+      return create(ZOp{});
+    case qc::OpType::H:
+      return create(HOp{});
     default:
       throw std::runtime_error("Unsupported operation type");
     }
@@ -183,7 +192,7 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         }
       }
 
-      if (o->getType() == qc::OpType::X) {
+      if (o->isUnitary()) {
         // For unitary operations, we call the `createUnitaryOp` function. We
         // then have to update the `currentQubitVariables` vector with the new
         // qubit values.
diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 9c76d78..1045a9c 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -53,10 +53,6 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
    * @brief Finds the index of a qubit in the list of previously defined qubit
    * variables.
    *
-   * In particular, this function checks if two value definitions are the same,
-   * and, in case of array-style variables, also checks if the result index is
-   * the same.
-   *
    * @param input The qubit to find.
    * @param currentQubitVariables The list of previously defined qubit
    * variables.
@@ -67,24 +63,8 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
   static size_t
   findQubitIndex(const mlir::Value& input,
                  std::vector<mlir::Value>& currentQubitVariables) {
-    size_t arrayIndex = 0;
-    if (const auto opResult = llvm::dyn_cast<mlir::OpResult>(input)) {
-      arrayIndex = opResult.getResultNumber();
-    } else {
-      throw std::runtime_error(
-          "Operand is not an operation result. This should never happen!");
-    }
     for (size_t i = 0; i < currentQubitVariables.size(); i++) {
-      size_t qubitArrayIndex = 0;
-      if (auto opResult =
-              llvm::dyn_cast<mlir::OpResult>(currentQubitVariables[i])) {
-        qubitArrayIndex = opResult.getResultNumber();
-      } else {
-        throw std::runtime_error(
-            "Qubit is not an operation result. This should never happen!");
-      }
-
-      if (currentQubitVariables[i] == input && arrayIndex == qubitArrayIndex) {
+      if (currentQubitVariables[i] == input) {
         return i;
       }
     }
@@ -93,6 +73,26 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         "Qubit was not found in list of previously defined qubits");
   }
 
+  /**
+   * @brief Checks whether all input qubits of an operation are among the
+   * previously defined qubit variables.
+   *
+   * @param op The operation to check.
+   * @param currentQubitVariables The list of previously defined qubit
+   * variables.
+   */
+  static bool
+  areInputsKnown(mlir::Operation& op,
+                 const std::vector<mlir::Value>& currentQubitVariables) {
+    const auto& ins = op.getOperands();
+    return std::all_of(ins.begin(), ins.end(), [&](const mlir::Value in) {
+      return !llvm::isa<QubitType>(in.getType()) ||
+             std::find(currentQubitVariables.begin(),
+                       currentQubitVariables.end(),
+                       in) != currentQubitVariables.end();
+    });
+  }
+
   /**
    * @brief Converts a measurement to an operation on the
    * `qc::QuantumComputation` and updates the `currentQubitVariables`.
@@ -123,10 +123,11 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
    * `qc::QuantumComputation` and updates the `currentQubitVariables`.
    *
    * @param op The operation to convert.
+   * @param type The type of the operation.
    * @param currentQubitVariables The list of previously defined qubit
    * variables.
    */
-  void handleUnitaryOp(UnitaryInterface& op,
+  void handleUnitaryOp(UnitaryInterface& op, const qc::OpType type,
                        std::vector<mlir::Value>& currentQubitVariables) const {
     const auto in = op.getInQubits()[0];
     const auto ctrlIns = op.getCtrlQubits();
@@ -149,38 +150,39 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     currentQubitVariables[targetIndex] = outs[0];
 
     // Add the operation to the QuantumComputation.
+    const auto numPosCtrls = op.getPosCtrlQubits().size();
+    qc::Controls controls{};
+    for (size_t i = 0; i < ctrlInsIndices.size(); i++) {
+      controls.emplace(static_cast<qc::Qubit>(ctrlInsIndices[i]),
+                       i < numPosCtrls ? qc::Control::Type::Pos
+                                       : qc::Control::Type::Neg);
+    }
     auto operation = qc::StandardOperation(
-        qc::Controls{ctrlInsIndices.cbegin(), ctrlInsIndices.cend()},
-        targetIndex, qc::OpType::X);
+        controls, static_cast<qc::Qubit>(targetIndex), type);
     circuit.push_back(operation);
   }
 
   /**
-   * @brief Recursively deletes an operation and all its defining operations if
-   * they have no users.
-   *
-   * This procedure cleans up the AST so that only the base `alloc` operation
-   * remains. Operations that still have users are ignored so that their users
-   * can be handled first in a later step.
+   * @brief Returns the type of a supported unitary operation.
    *
-   * @param op The operation to delete.
-   * @param rewriter The pattern rewriter to use for deleting the operation.
+   * @param op The operation to check.
+   * @return The type of the operation or `qc::OpType::None` if the operation is
+   * not supported.
    */
-  static void deleteRecursively(mlir::Operation& op,
-                                mlir::PatternRewriter& rewriter) {
-    if (llvm::isa<AllocOp>(op)) {
-      return; // Do not delete extract operations.
+  static qc::OpType getUnitaryType(const mlir::Operation* op) {
+    if (llvm::isa<XOp>(op)) {
+      return qc::OpType::X;
     }
-    if (!op.getUsers().empty()) {
-      return; // Do not delete operations with users.
+    if (llvm::isa<YOp>(op)) {
+      return qc::OpType::Y;
     }
-
-    rewriter.eraseOp(&op);
-    for (auto operand : op.getOperands()) {
-      if (auto* defOp = operand.getDefiningOp()) {
-        deleteRecursively(*defOp, rewriter);
-      }
+    if (llvm::isa<ZOp>(op)) {
+      return qc::OpType::Z;
     }
+    if (llvm::isa<HOp>(op)) {
+      return qc::OpType::H;
+    }
+    return qc::OpType::None;
   }
 
   /**
@@ -267,6 +269,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     circuit.addClassicalRegister(numQubits);
 
     std::unordered_set<mlir::Operation*> visited{};
+    std::vector<mlir::Operation*> operations{};
 
     // Visit all operations in the AST using Breadth-First Search.
     while (!toVisit.empty()) {
@@ -275,11 +278,19 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
       if (visited.find(current) != visited.end()) {
         continue;
       }
+
+      const auto type = getUnitaryType(current);
+      if ((type != qc::OpType::None || llvm::isa<MeasureOp>(current)) &&
+          !areInputsKnown(*current, currentQubitVariables)) {
+        // The operation is visited again as a user of the missing inputs.
+        continue;
+      }
       visited.insert(current);
+      operations.emplace_back(current);
 
-      if (llvm::isa<XOp>(current)) {
+      if (type != qc::OpType::None) {
         auto unitaryOp = llvm::dyn_cast<UnitaryInterface>(current);
-        handleUnitaryOp(unitaryOp, currentQubitVariables);
+        handleUnitaryOp(unitaryOp, type, currentQubitVariables);
       } else if (llvm::isa<ExtractOp>(current)) {
         auto extractOp = llvm::dyn_cast<ExtractOp>(current);
         if (const auto indexAttr = extractOp.getIndexAttr();
@@ -321,22 +332,24 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
 
     // Update the inputs of all non-mqtopt operations that use mqtopt operations
     // as inputs, as these will be deleted later.
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
+    std::vector<mlir::Operation*> mqtoptOperations;
+    for (auto* operation : operations) {
       if (operation->getDialect()->getNamespace() != DIALECT_NAME_MQTOPT) {
         updateMQTOptInputs(*operation, rewriter, newAlloc.getQureg(),
                            measureCount);
+      } else if (!llvm::isa<AllocOp>(operation)) {
+        mqtoptOperations.emplace_back(operation);
       }
     }
 
     // Delete all operations that are part of the mqtopt dialect (except for
-    // `AllocOp`).
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
-      if (operation->getDialect()->getNamespace() == DIALECT_NAME_MQTOPT) {
-        deleteRecursively(*operation, rewriter);
-      }
-    }
+    // `AllocOp`). Users of an operation are visited after it and deleted first.
+    std::for_each(mqtoptOperations.rbegin(), mqtoptOperations.rend(),
+                  [&rewriter](auto* operation) {
+                    if (operation->use_empty()) {
+                      rewriter.eraseOp(operation);
+                    }
+                  });
 
     rewriter.replaceOp(op, newAlloc);
 
-- 
2.43.0

