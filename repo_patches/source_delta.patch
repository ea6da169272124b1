From 4b49fb81ad9e42d8b9a7b7327a91a836b9a547f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 01/74] fix: do not propagate values into callees replaced by a
 special summary

Phase I of the IDE solver does not enter a callee for which the problem
provides a special summary flow function, but phase II still propagated
values into its start points (and from there into its callees).
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..d7a5e1a 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -609,6 +609,11 @@ protected:
     PAMM_GET_INSTANCE;
     d_t Fact = NAndD.second;
     for (const f_t Callee : ICF->getCalleesOfCallAt(Stmt)) {
+      // Calls with a special summary are not entered in phase I (see
+      // processCall()), so no values flow into the callee from here.
+      if (CachedFlowEdgeFunctions.getSummaryFlowFunction(Stmt, Callee)) {
+        continue;
+      }
       FlowFunctionPtrType CallFlowFunction =
           CachedFlowEdgeFunctions.getCallFlowFunction(Stmt, Callee);
       INC_COUNTER("FF Queries", 1, Full);
-- 
2.43.0


From 021aad4bc0656d4238297b7f7cf47add64b25b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 02/74] fix: solveUntil() and continueUntil() always make
 progress

With an Interval of 0ms, or as soon as a single propagation took longer than
the Interval, the number of iterations between two cancellation checks became
(and stayed) 0, such that the solver never terminated.
---
 .../phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..ae645d7 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,9 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    // Note: Always make progress, even if a single propagation takes longer
+    // than the Interval
+    size_t NumIterations = std::max<size_t>(Interval.count() * 500, 1);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -479,7 +482,8 @@ private:
       auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
       auto NewNumIterations =
           size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      NumIterations =
+          std::max<size_t>((NumIterations + 2 * NewNumIterations) / 3, 1);
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From 614bb0404294ce8d6f914584c26ef21315103b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 03/74] fix: allow continuing an IDESolver that was cancelled
 after its last step

solveUntil() and solveWithAsyncCancellation() also return std::nullopt when the
cancellation is requested during the last propagation. Continuing from there
accessed an empty worklist.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index d7a5e1a..41b0ec0 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1761,7 +1761,12 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    // May happen, if the solving process got cancelled right after processing
+    // the last propagation and is continued now
+    if (WorkList.empty()) {
+      return false;
+    }
+
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
-- 
2.43.0


From 70556cd73dd942aa9a435998d0c97ac95ed5ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:33 +0000
Subject: [PATCH 04/74] fix: PathAwareIDESolver does not require an ESG node
 for seeds at call sites

If the first instruction of a seeded function is a call that generates no other
edges, there is no node for the seed yet when the call-to-return edge of the
zero value is recorded.
---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..257db70 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -315,8 +315,8 @@ private:
 
     if (MaySkipEdge && SuccNode == CurrNode) {
       // This CTR edge carries no information, so skip it.
-      // We still want to create the destination node for the ret-FF later
-      assert(PredId);
+      // We still want to create the destination node for the ret-FF later.
+      // Note: There is no predecessor, if Curr is a seed
       if (Inserted) {
         SuccVtxNode = makeNode();
         NodeAdjOwner.back().PredecessorIdx = Node::NoPredId;
-- 
2.43.0


From aa0e9e2277029c29969847daaba6357c6963e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:54 +0000
Subject: [PATCH 05/74] fix: keep facts that leave their function by an
 unbalanced return

The values at unbalanced return sites were computed from top, so all facts
with a strict jump function (e.g., all facts of an IFDS problem) were silently
dropped from the results although FollowReturnsPastSeeds was set.
---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 41b0ec0..ec13ef9 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -794,9 +794,16 @@ protected:
 
   void submitInitialValues() {
     std::map<n_t, std::map<d_t, l_t>> AllSeeds = Seeds.getSeeds();
+    // The jump functions at statements reached by an unbalanced return originate
+    // from zero. As the final values are computed relative to the start points
+    // of the surrounding function, zero needs a non-top value there; otherwise,
+    // the propagated facts would get lost.
     for (n_t UnbalancedRetSite : UnbalancedRetSites) {
-      if (AllSeeds.find(UnbalancedRetSite) == AllSeeds.end()) {
-        AllSeeds[UnbalancedRetSite][ZeroValue] = IDEProblem.topElement();
+      f_t Fun = ICF->getFunctionOf(UnbalancedRetSite);
+      for (n_t SP : ICF->getStartPointsOf(Fun)) {
+        setVal(SP, ZeroValue,
+               IDEProblem.join(val(SP, ZeroValue), IDEProblem.bottomElement()));
+        propagateValueAtStart({SP, ZeroValue}, SP);
       }
     }
     // do processing
-- 
2.43.0


From c2af751a62cbebd3ddb09b0c3e027fd8b04fec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 06/74] fix: mapFactsToCaller() does not return the zero fact
 when told not to

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..95d9c83 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From bba527d69c76b15f232c10fa49d60622f63fd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 07/74] fix: compute linear constants in the width and
 signedness of their type

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 54 +++++++++++++------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..4281133 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -41,7 +41,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/MathExtras.h"
 
-#include <limits>
+#include <algorithm>
 #include <memory>
 #include <utility>
 
@@ -95,9 +95,11 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
+ * @param BitWidth the width of the integer type the operation works on
  * @return Result of binary operation
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned BitWidth) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -108,6 +110,17 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  // Operations that overflow the type of their operands yield Bottom
+  auto BottomOnOverflow = [BitWidth](int64_t Res) -> l_t {
+    if (!llvm::isIntN(BitWidth, Res)) {
+      return Bottom{};
+    }
+    return Res;
+  };
+  auto ToUnsigned = [BitWidth](int64_t Val) {
+    return uint64_t(Val) & llvm::maskTrailingOnes<uint64_t>(BitWidth);
+  };
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
@@ -115,23 +128,34 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return BottomOnOverflow(Res);
 
   case llvm::Instruction::Sub:
     if (llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return BottomOnOverflow(Res);
 
   case llvm::Instruction::Mul:
     if (llvm::MulOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return BottomOnOverflow(Res);
 
   case llvm::Instruction::UDiv:
+  case llvm::Instruction::URem: {
+    if (Rop == 0 || BitWidth > 64) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    auto ULop = ToUnsigned(Lop);
+    auto URop = ToUnsigned(Rop);
+    return llvm::SignExtend64(
+        Op == llvm::Instruction::UDiv ? ULop / URop : ULop % URop, BitWidth);
+  }
+
   case llvm::Instruction::SDiv:
-    if (Lop == std::numeric_limits<int64_t>::min() &&
+  case llvm::Instruction::SRem:
+    if (Lop == llvm::minIntN(std::min(BitWidth, 64U)) &&
         Rop == -1) { // Would produce and overflow, as the complement of min is
                      // not representable in a signed type.
       return Bottom{};
@@ -139,14 +163,7 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    return Lop / Rop;
-
-  case llvm::Instruction::URem:
-  case llvm::Instruction::SRem:
-    if (Rop == 0) { // Division by zero is UB, so we return Bot
-      return Bottom{};
-    }
-    return Lop % Rop;
+    return Op == llvm::Instruction::SDiv ? Lop / Rop : Lop % Rop;
 
   case llvm::Instruction::And:
     return Lop & Rop;
@@ -205,23 +222,26 @@ struct BinOp {
     PHASAR_LOG_LEVEL(DEBUG, "Curr Node : " << llvmIRToString(CurrNode));
     PHASAR_LOG_LEVEL(DEBUG, ' ');
 
+    auto BitWidth = Lop->getType()->getScalarSizeInBits();
+
     if (LLVMZeroValue::isLLVMZeroValue(CurrNode) &&
         llvm::isa<llvm::ConstantInt>(Lop) &&
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 BitWidth);
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(), BitWidth);
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source, BitWidth);
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From 9b9418ae31012836c3e3babb0b0a0e32253305ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:25 +0000
Subject: [PATCH 08/74] fix: operands of a non-linear overflow intrinsic keep
 their constant value

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 4281133..0f76fb8 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -592,13 +592,14 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     auto *Rop = BinIntrinsic->getRHS();
     unsigned OP = BinIntrinsic->getBinaryOp();
 
-    // For non linear constant computation we propagate bottom
-    if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
-        (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
-      return AllBottom<l_t>{};
-    }
-
+    // The operands themselves keep their values
     if (Curr == SuccNode && CurrNode != SuccNode) {
+      // For non linear constant computation we propagate bottom
+      if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
+          (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
+        return AllBottom<l_t>{};
+      }
+
       return lca::BinOp{OP, Lop, Rop, CurrNode};
     }
   }
-- 
2.43.0


From 31e0cc1ec601fe2c3de906e9755d4520ac9c1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 09/74] fix: the overflow flag of an overflow intrinsic is not
 its arithmetic result

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 0f76fb8..acb6128 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -371,7 +371,7 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     /// no error occured during the operation
     if (const auto *BinIntrinsic =
             llvm::dyn_cast<llvm::BinaryOpIntrinsic>(Agg)) {
-      if (Extract->getType()->isIntegerTy()) {
+      if (Extract->getIndices() == llvm::makeArrayRef(0U)) {
         return generateFlow(Curr, Agg);
       }
     }
-- 
2.43.0


From 5c7446144ba99563e67e7bfaf52fd9bcccf320bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 10/74] fix: linear constant analysis treats casts, phis and
 other unmodelled integers as unknown

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index acb6128..eaf20dd 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -377,6 +377,12 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     }
   }
 
+  // The values of all other integer-typed instructions are unknown
+  if (Curr->getType()->isIntegerTy() && !llvm::isa<llvm::LoadInst>(Curr) &&
+      !llvm::isa<llvm::CallBase>(Curr)) {
+    return generateFromZero(Curr);
+  }
+
   return identityFlow();
 }
 
@@ -485,7 +491,9 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
   }
 
   // ALL_BOTTOM for zero value
-  if ((llvm::isa<llvm::AllocaInst>(Curr) && isZeroValue(CurrNode))) {
+  if (isZeroValue(CurrNode) &&
+      (llvm::isa<llvm::AllocaInst>(Curr) ||
+       (Curr == SuccNode && !llvm::isa<llvm::BinaryOperator>(Curr)))) {
     PHASAR_LOG_LEVEL(DEBUG, "Case: Zero value.");
     PHASAR_LOG_LEVEL(DEBUG, ' ');
     return AllBottom<l_t>{};
-- 
2.43.0


From a4b32e06d06a3530db823422f6785ed5be59f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 11/74] fix: equal (empty) BitVectorSets have equal hash values

---
 include/phasar/Utils/BitVectorSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..e9dc9f7 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -304,7 +304,7 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
+    if (BV.empty()) {
       return {};
     }
     auto Words = BV.Bits.getData();
-- 
2.43.0


From d407085f2c940f71ae245e1a58e87da0ae4d4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 12/74] fix: BitVectorSet iterators stay valid when another set
 of the same type grows

---
 include/phasar/Utils/BitVectorSet.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index e9dc9f7..eda3c6f 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -105,7 +105,7 @@ private:
         int NextIdx = Bits.find_next(PosPtr->first);
 
         if (NextIdx <= static_cast<int>(PosPtr->first)) {
-          PosPtr = Position.right.find(Bits.size());
+          PosPtr = Position.right.end();
           break;
         }
 
@@ -336,7 +336,7 @@ public:
   [[nodiscard]] iterator begin() {
     int Index = Bits.find_first();
     if (Index == -1) {
-      Index = Bits.size();
+      return end();
     }
     iterator BeginIter(Position.right.find(Index));
     BeginIter.setBits(Bits);
@@ -344,7 +344,7 @@ public:
   }
 
   [[nodiscard]] iterator end() {
-    iterator EndIter(Position.right.find(Bits.size()));
+    iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
@@ -352,7 +352,7 @@ public:
   [[nodiscard]] const_iterator begin() const {
     int Index = Bits.find_first();
     if (Index == -1) {
-      Index = Bits.size();
+      return end();
     }
     const_iterator BeginIter(Position.right.find(Index));
     BeginIter.setBits(Bits);
@@ -360,7 +360,7 @@ public:
   }
 
   [[nodiscard]] const_iterator end() const {
-    const_iterator EndIter(Position.right.find(Bits.size()));
+    const_iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
-- 
2.43.0


From 662ff87d84c53fbd8a3f2bef26f5da6bd9ab16db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 13/74] fix: advancing BitVectorSet iterators walks the set and
 not the global element table

---
 include/phasar/Utils/BitVectorSet.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index eda3c6f..5a515e7 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -95,7 +95,7 @@ private:
 
     BitVectorSetIterator<D> &operator+=(const difference_type &Movement) {
       for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
+        ++*this;
       }
       return *this;
     }
@@ -125,17 +125,17 @@ private:
     }
 
     BitVectorSetIterator<D> operator+(const difference_type &Movement) {
-      auto OldPtr = PosPtr;
-      for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
-      }
       auto Temp(*this);
-      PosPtr = OldPtr;
+      Temp += Movement;
       return Temp;
     }
 
     difference_type operator-(const BitVectorSetIterator<D> &OtherIterator) {
-      return std::distance(OtherIterator.getPtr(), this->getPtr());
+      difference_type Ret = 0;
+      for (auto It = OtherIterator; It != *this; ++It) {
+        ++Ret;
+      }
+      return Ret;
     }
 
     // T& operator*(){return pos_ptr->second;}
-- 
2.43.0


From 850f55647c12815676804d02d0eac2aae34be12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 14/74] fix: StableVector does not reuse memory released by
 shrink_to_fit()

---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From 5404524c719751ad91ac7abc745d596d4d9e507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 15/74] fix: StringIDLess distinguishes non-numeric ids

---
 lib/Utils/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Utilities.cpp b/lib/Utils/Utilities.cpp
index 28e8d37..d48f6f5 100644
--- a/lib/Utils/Utilities.cpp
+++ b/lib/Utils/Utilities.cpp
@@ -102,7 +102,7 @@ bool StringIDLess::operator()(const std::string &Lhs,
   char *Endptr2;
   long LhsVal = strtol(Lhs.c_str(), &Endptr1, 10);
   long RhsVal = strtol(Rhs.c_str(), &Endptr2, 10);
-  if (Lhs.c_str() == Endptr1 && Lhs.c_str() == Endptr2) {
+  if (Lhs.c_str() == Endptr1 && Rhs.c_str() == Endptr2) {
     return Lhs < Rhs;
   }
   if (Lhs.c_str() == Endptr1 && Rhs.c_str() != Endptr2) {
-- 
2.43.0


From e650df6a9c5f19ad1a8248d7d817cbb5f138a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 16/74] fix: the power set of the empty set contains the empty
 set

---
 include/phasar/Utils/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/Utilities.h b/include/phasar/Utils/Utilities.h
index 6be3445..19e005f 100644
--- a/include/phasar/Utils/Utilities.h
+++ b/include/phasar/Utils/Utilities.h
@@ -77,8 +77,8 @@ std::set<std::set<T>> computePowerSet(const std::set<T> &S) {
         advance(It, J);
         Subset.insert(*It);
       }
-      Powerset.insert(Subset);
     }
+    Powerset.insert(std::move(Subset));
   }
   return Powerset;
 }
-- 
2.43.0


From e2607a389dcaa6273f278ba9d862cc742a622d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 17/74] fix: remove_by_index() removes all given indices for
 forward iterators

---
 include/phasar/Utils/Utilities.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/phasar/Utils/Utilities.h b/include/phasar/Utils/Utilities.h
index 19e005f..ee9cc62 100644
--- a/include/phasar/Utils/Utilities.h
+++ b/include/phasar/Utils/Utilities.h
@@ -237,9 +237,8 @@ It remove_by_index(It First, EndIt Last, IdxIt FirstIndex, IdxEndIt LastIndex) {
     for (auto I = First; I != Last; ++CurrIdx, ++I) {
       if (CurrIdx != *FirstIndex) {
         *First++ = std::move(*I);
-        if (++FirstIndex == LastIndex) {
-          return std::move(std::next(I), Last, First);
-        }
+      } else if (++FirstIndex == LastIndex) {
+        return std::move(std::next(I), Last, First);
       }
     }
     return First;
-- 
2.43.0


From ce430149669f7ad2a6bafea33a399a860c6ff3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 18/74] fix: make Table::column() compile

---
 include/phasar/Utils/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/Utils/Table.h b/include/phasar/Utils/Table.h
index 24ac50a..75dd807 100644
--- a/include/phasar/Utils/Table.h
+++ b/include/phasar/Utils/Table.h
@@ -124,8 +124,8 @@ public:
     // Returns a view of all mappings that have the given column key.
     std::unordered_map<R, V> Column;
     for (const auto &Row : Tab) {
-      if (Row.second.count(ColumnKey)) {
-        Column[Row.first] = Row.second[ColumnKey];
+      if (auto It = Row.second.find(ColumnKey); It != Row.second.end()) {
+        Column.try_emplace(Row.first, It->second);
       }
     }
     return Column;
-- 
2.43.0


From 1fc02c6f2b7c2913b2ba53a587758536708e1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 19/74] fix: make printing a Table::Cell compile

---
 include/phasar/Utils/Table.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/Utils/Table.h b/include/phasar/Utils/Table.h
index 75dd807..d15e9c6 100644
--- a/include/phasar/Utils/Table.h
+++ b/include/phasar/Utils/Table.h
@@ -45,7 +45,8 @@ public:
 
     friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS,
                                          const Cell &Cell) {
-      return OS << "Cell: " << Cell.r << ", " << Cell.c << ", " << Cell.v;
+      return OS << "Cell: " << Cell.Row << ", " << Cell.Column << ", "
+                << Cell.Value;
     }
     friend bool operator<(const Cell &Lhs, const Cell &Rhs) noexcept {
       return std::tie(Lhs.Row, Lhs.Column, Lhs.Value) <
-- 
2.43.0


From 861aa1a8f7c291df976e5aa9e45d193cca10185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 20/74] fix: make moving a MaybeUniquePtr compile

---
 include/phasar/Utils/MaybeUniquePtr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/phasar/Utils/MaybeUniquePtr.h b/include/phasar/Utils/MaybeUniquePtr.h
index fe086fc..969fabf 100644
--- a/include/phasar/Utils/MaybeUniquePtr.h
+++ b/include/phasar/Utils/MaybeUniquePtr.h
@@ -79,8 +79,9 @@ public:
       : MaybeUniquePtr(Owner.release(), true) {}
 
   constexpr MaybeUniquePtr(MaybeUniquePtr &&Other) noexcept
-      : detail::MaybeUniquePtrBase<T, RequireAlignment>(
-            std::exchange(Other.Data, {})) {}
+      : MaybeUniquePtr() {
+    swap(Other);
+  }
 
   constexpr void swap(MaybeUniquePtr &Other) noexcept {
     std::swap(Data, Other.Data);
-- 
2.43.0


From 3df64ada8862351a40638e1a1dea8b1f7d631c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 21/74] fix: predecessors of the artificial exit in the
 backward CFG

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..a52e2d2 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -39,10 +39,8 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
-  if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+  if (const auto *Fun = BackwardRetToFunction.lookup(Inst)) {
+    return this->base_t::getStartPointsOfImpl(Fun);
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
-- 
2.43.0


From 8db3468db58354ae2e0004f9f2520b956202dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 22/74] fix: backward CFG edges skip all debug intrinsics when
 ignoring them

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index a52e2d2..2d5a4fa 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -69,13 +70,8 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
-- 
2.43.0


From 35a10c9c1106e95c6256c09ba6299857073ce126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 23/74] fix: branch targets behind leading debug intrinsics

---
 .../ControlFlow/LLVMBasedBackwardCFG.cpp          | 10 ++--------
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp       | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 2d5a4fa..b3dd135 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -112,14 +112,8 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
-  }
-  return false;
+  return llvm::isa<llvm::BranchInst>(Succ) &&
+         this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..d48321c 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -198,15 +198,24 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFieldStoreImpl(
   return false;
 }
 
+static const llvm::Instruction *
+getFirstInstOf(const llvm::BasicBlock *BB, bool IgnoreDbgInstructions) {
+  const auto *Inst = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(Inst)) {
+    Inst = Inst->getNextNonDebugInstruction(false /*Only debug instructions*/);
+  }
+  return Inst;
+}
+
 template <typename Derived>
 bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
     n_t Inst, n_t Succ) const noexcept {
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
     if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
+      return getFirstInstOf(B->getSuccessor(1), IgnoreDbgInstructions) == Succ;
     }
-    return &B->getSuccessor(0)->front() == Succ;
+    return getFirstInstOf(B->getSuccessor(0), IgnoreDbgInstructions) == Succ;
   }
   return false;
 }
@@ -216,7 +225,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (getFirstInstOf(BB, IgnoreDbgInstructions) == Succ) {
         return true;
       }
     }
-- 
2.43.0


From acdf305ff8cf458d89a6f519044ecd55af45311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:28 +0000
Subject: [PATCH 24/74] fix: special member function detection hangs and
 misreads long names

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index d48321c..c0b6e19 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -255,14 +255,13 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
   std::size_t Blacklist = 0;
   const auto *It = std::begin(Codes);
   while (It != std::end(Codes)) {
-    if (std::size_t Index = FunctionName.find(It->first, Blacklist)) {
-      if (Index != llvm::StringRef::npos) {
-        Found.emplace_back(Index, It->second);
-        Blacklist = Index + 1;
-      } else {
-        ++It;
-        Blacklist = 0;
-      }
+    std::size_t Index = FunctionName.find(It->first, Blacklist);
+    if (Index != llvm::StringRef::npos) {
+      Found.emplace_back(Index, It->second);
+      Blacklist = Index + 1;
+    } else {
+      ++It;
+      Blacklist = 0;
     }
   }
   if (Found.empty()) {
@@ -280,11 +279,12 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
           ++I;
         }
         std::string ST(C, C + I);
-        if (Index.first <= std::distance(FunctionName.begin(), C) + stoul(ST)) {
+        if (Index.first < std::distance(FunctionName.begin(), C) + I + stoul(ST)) {
           NoName = false;
           break;
         }
-        C = C + *C;
+        // Skip the source name; the loop header skips its last character
+        C += std::min<std::size_t>(I + stoul(ST), Index.first) - 1;
       }
     }
     if (NoName) {
-- 
2.43.0


From a4cd02c4825c1746a6ba627e43b1832d2ff41084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:27 +0000
Subject: [PATCH 25/74] fix: may-alias pairs missing from the alias sets

The representants of an alias set were dropped as soon as another pointer of the
same type was in the set. As may-alias is not transitive, pointers that only
alias a dropped representant did not end up in the same alias set.
---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 71 ++++---------------------
 1 file changed, 11 insertions(+), 60 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..ff7ba5f 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -344,71 +344,22 @@ static bool mayAlias(llvm::AAResults &AA, const llvm::DataLayout &DL,
 void LLVMAliasSet::addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
                               const llvm::Value *V,
                               std::vector<const llvm::Value *> &Reps) {
-  llvm::SmallVector<unsigned> ToMerge;
-
-  for (unsigned It = 0, End = Reps.size(); It < End; ++It) {
-    if (mayAlias(AA, DL, V, Reps[It])) {
-      ToMerge.push_back(It);
-    }
-  }
+  addSingletonAliasSet(V);
 
   // If we find several alias sets that may alias V, we must merge them.
-  // However, we cannot simply remove all respective representants (except for
-  // one), because for interprocedural flows, LLVM assumes all possible
-  // aliases and i8* is treated as void* making every pointer-type a matching
-  // type.
-  // This destroys the transitivity of the mayAlias relation partially. We can
-  // still remove a representant, if we have another rep of the same type
-  // within the same alias set.
-
-  if (ToMerge.empty()) {
-    Reps.push_back(V);
-    addSingletonAliasSet(V);
-  } else if (ToMerge.size() == 1) {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    assert(PTS && "Only added to Reps together with a "
-                  "\"addSingletonAliasSet\" call");
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
+  // The mayAlias relation is not transitive, so even after the merge, none of
+  // the pointers can represent the others in the comparison with pointers that
+  // get added later on. However, a pointer that already is in the same alias
+  // set as V does not need to be compared anymore.
 
-    if (V->getType() != Reps[ToMerge[0]]->getType()) {
-      Reps.push_back(V);
-    }
-
-  } else {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    llvm::SmallPtrSet<const llvm::Type *, 6> OccurringTypes{
-        Reps[ToMerge[0]]->getType()};
-    llvm::SmallVector<unsigned> ToRemove;
-
-    for (auto Idx : llvm::makeArrayRef(ToMerge).slice(1)) {
-      mergeAliasSets(PTS, AliasSets[Reps[Idx]]);
-      if (auto [Unused, Inserted] = OccurringTypes.insert(Reps[Idx]->getType());
-          !Inserted) {
-        ToRemove.push_back(Idx);
-      }
-    }
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    Reps.erase(remove_by_index(Reps, ToRemove.begin(), ToRemove.end()),
-               Reps.end());
-
-    if (auto [Unused, Inserted] = OccurringTypes.insert(V->getType());
-        Inserted) {
-      Reps.push_back(V);
+  for (const auto *Rep : Reps) {
+    if (AliasSets[V].get() != AliasSets[Rep].get() &&
+        mayAlias(AA, DL, V, Rep)) {
+      mergeAliasSets(V, Rep);
     }
   }
+
+  Reps.push_back(V);
 }
 
 static void addIfGlobal(llvm::DenseSet<const llvm::Value *> &UsedGlobals,
-- 
2.43.0


From 6b0f3c00dde753cba6ed0d73fc318154c0c23808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 26/74] fix: RTA misses types of globals, arrays, and members

and dereferences null, if a value of struct-pointer type is passed to a function without parameters.
---
 .../ControlFlow/Resolver/RTAResolver.cpp      | 66 ++++++++++++-------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..d3b0182 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -94,6 +94,30 @@ auto RTAResolver::resolveVirtualCall(const llvm::CallBase *CallSite)
 
 std::string RTAResolver::str() const { return "RTA"; }
 
+/// Collects the struct types, of which an object gets created together with an
+/// object of type Ty, i.e. also considers array elements and data members
+static void
+collectAllocatedStructTypes(llvm::DenseSet<const llvm::StructType *> &Into,
+                            const llvm::Type *Ty, const LLVMTypeHierarchy &TH) {
+  while (const auto *ArrayTy = llvm::dyn_cast<llvm::ArrayType>(Ty)) {
+    Ty = ArrayTy->getElementType();
+  }
+
+  const auto *StructTy = llvm::dyn_cast<llvm::StructType>(Ty);
+  if (!StructTy || !Into.insert(StructTy).second) {
+    return;
+  }
+
+  for (const auto *ElemTy : StructTy->elements()) {
+    const auto *ElemStructTy = llvm::dyn_cast<llvm::StructType>(ElemTy);
+    if (ElemStructTy && TH.getSubTypes(ElemStructTy).count(StructTy)) {
+      // A base-class subobject
+      continue;
+    }
+    collectAllocatedStructTypes(Into, ElemTy, TH);
+  }
+}
+
 /// More or less copied from GeneralStatisticsAnalysis
 void RTAResolver::resolveAllocatedStructTypes() {
   if (!AllocatedStructTypes.empty()) {
@@ -102,13 +126,15 @@ void RTAResolver::resolveAllocatedStructTypes() {
 
   llvm::DenseSet<const llvm::StructType *> AllocatedStructTypes;
 
+  for (const auto &Glob : IRDB->getModule()->globals()) {
+    collectAllocatedStructTypes(AllocatedStructTypes, Glob.getValueType(), *TH);
+  }
+
   for (const auto *Fun : IRDB->getAllFunctions()) {
     for (const auto &Inst : llvm::instructions(Fun)) {
       if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(&Inst)) {
-        if (const auto *StructTy =
-                llvm::dyn_cast<llvm::StructType>(Alloca->getAllocatedType())) {
-          AllocatedStructTypes.insert(StructTy);
-        }
+        collectAllocatedStructTypes(AllocatedStructTypes,
+                                    Alloca->getAllocatedType(), *TH);
       } else if (const auto *CallSite = llvm::dyn_cast<llvm::CallBase>(&Inst);
                  CallSite && CallSite->getCalledFunction()) {
         // check if an instance of a user-defined type is allocated on the
@@ -120,29 +146,21 @@ void RTAResolver::resolveAllocatedStructTypes() {
         /// TODO: Does this iteration over the users make sense?
         /// After LLVM 15 we will probably not be able to access the
         /// PointerElementType anyway...
-        for (const auto *User : Inst.users()) {
-          const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User);
-          if (!Cast || Cast->getDestTy()->isOpaquePointerTy() ||
-              !Cast->getDestTy()
-                   ->getNonOpaquePointerElementType()
-                   ->isStructTy()) {
+        llvm::SmallVector<const llvm::User *> Users(Inst.users());
+        while (!Users.empty()) {
+          const auto *User = Users.pop_back_val();
+          if (llvm::isa<llvm::GetElementPtrInst>(User)) {
+            // skip the array cookie
+            Users.append(User->user_begin(), User->user_end());
             continue;
           }
-          // finally check for ctor call
-          for (const auto *User : Cast->users()) {
-            if (const auto *CTor = llvm::dyn_cast<llvm::CallBase>(User)) {
-              // potential call to the structures ctor
-              if (CTor->getCalledFunction() &&
-                  getNthFunctionArgument(CTor->getCalledFunction(), 0)
-                          ->getType() == Cast->getDestTy() &&
-                  !Cast->getDestTy()->isOpaquePointerTy()) {
-                if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(
-                        Cast->getDestTy()->getNonOpaquePointerElementType())) {
-                  AllocatedStructTypes.insert(StructTy);
-                }
-              }
-            }
+          const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User);
+          if (!Cast || Cast->getDestTy()->isOpaquePointerTy()) {
+            continue;
           }
+          collectAllocatedStructTypes(
+              AllocatedStructTypes,
+              Cast->getDestTy()->getNonOpaquePointerElementType(), *TH);
         }
       }
     }
-- 
2.43.0


From 29e6916f5b4195ec235e3361484dadce4d80f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 27/74] fix: DTA misses casts found after the call and casts of
 globals

---
 .../ControlFlow/Resolver/DTAResolver.h        |  8 +++-
 .../ControlFlow/Resolver/DTAResolver.cpp      | 38 +++++++++++++++----
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
index 371b6cf..1d8b30e 100644
--- a/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
+++ b/include/phasar/PhasarLLVM/ControlFlow/Resolver/DTAResolver.h
@@ -44,18 +44,24 @@ public:
 
   FunctionSetTy resolveVirtualCall(const llvm::CallBase *CallSite) override;
 
+  void preCall(const llvm::Instruction *Inst) override;
+
   void otherInst(const llvm::Instruction *Inst) override;
 
   [[nodiscard]] std::string str() const override;
 
   [[nodiscard]] bool
   mutatesHelperAnalysisInformation() const noexcept override {
-    return false;
+    // Casts that are found later may introduce new targets
+    return true;
   }
 
 protected:
   TypeGraph_t TypeGraph;
 
+  /// Considers the casts in the constant operands of Inst
+  void addConstantCasts(const llvm::Instruction *Inst);
+
   /**
    * An heuristic that return true if the bitcast instruction is interesting to
    * take into the DTA relational graph
diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
index eed1094..1628077 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
@@ -141,7 +141,36 @@ bool DTAResolver::heuristicAntiConstructorVtablePos(
   return (BitcastNum > VtableNum);
 }
 
+static const llvm::StructType *getPointeeStructType(llvm::Type *Ty) {
+  return llvm::dyn_cast<llvm::StructType>(
+      psr::legacy::stripPointer(Ty)); // NOLINT
+}
+
+void DTAResolver::addConstantCasts(const llvm::Instruction *Inst) {
+  // Pointers to global objects are cast by constant expressions
+  for (const auto &Op : Inst->operands()) {
+    const auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(Op.get());
+    if (!CE || CE->getOpcode() != llvm::Instruction::BitCast ||
+        CE->getType()->isOpaquePointerTy()) {
+      continue;
+    }
+
+    const auto *SrcStructType =
+        getPointeeStructType(CE->getOperand(0)->getType());
+    const auto *DestStructType = getPointeeStructType(CE->getType());
+    if (SrcStructType && DestStructType) {
+      TypeGraph.addLink(DestStructType, SrcStructType);
+    }
+  }
+}
+
+void DTAResolver::preCall(const llvm::Instruction *Inst) {
+  addConstantCasts(Inst);
+}
+
 void DTAResolver::otherInst(const llvm::Instruction *Inst) {
+  addConstantCasts(Inst);
+
   if (Inst->getType()->isOpaquePointerTy()) {
     /// XXX: We may want to get these information on a different way, e.g. by
     /// analyzing the debug info
@@ -149,13 +178,8 @@ void DTAResolver::otherInst(const llvm::Instruction *Inst) {
   }
   if (const auto *BitCast = llvm::dyn_cast<llvm::BitCastInst>(Inst)) {
     // We add the connection between the two types in the DTA graph
-    auto *Src = BitCast->getSrcTy();
-    auto *Dest = BitCast->getDestTy();
-
-    const auto *SrcStructType = llvm::dyn_cast<llvm::StructType>(
-        psr::legacy::stripPointer(Src)); // NOLINT
-    const auto *DestStructType = llvm::dyn_cast<llvm::StructType>(
-        psr::legacy::stripPointer(Dest)); // NOLINT
+    const auto *SrcStructType = getPointeeStructType(BitCast->getSrcTy());
+    const auto *DestStructType = getPointeeStructType(BitCast->getDestTy());
 
     if (SrcStructType && DestStructType &&
         heuristicAntiConstructorVtablePos(BitCast)) {
-- 
2.43.0


From 43bb1f69cf8cb60e10a97361758968e78f5e34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 28/74] fix: calls of function-pointer members are no virtual
 calls

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e55edef..a309deb 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -48,7 +48,14 @@ std::optional<unsigned> psr::getVFTIndex(const llvm::CallBase *CallSite) {
   }
   const auto *GEP =
       llvm::dyn_cast<llvm::GetElementPtrInst>(Load->getPointerOperand());
-  if (GEP == nullptr) {
+  if (GEP == nullptr || GEP->getNumIndices() != 1) {
+    // no array of function pointers
+    return std::nullopt;
+  }
+  const auto *VTable = llvm::dyn_cast<llvm::LoadInst>(GEP->getPointerOperand());
+  if (VTable == nullptr ||
+      !llvm::isa<llvm::BitCastInst>(VTable->getPointerOperand())) {
+    // the vtable is always loaded from the beginning of the receiver object
     return std::nullopt;
   }
   if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(GEP->getOperand(1))) {
-- 
2.43.0


From 67a262b64aefd83c31c7857eb36b559f8bd85054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 29/74] fix: pass the alias information to the resolver in
 buildLLVMBasedCallGraph

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From 0b1cfaf288f010e9d11670f1830c3690f2cd7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:08 +0000
Subject: [PATCH 30/74] fix: callees with covariant return types missing in the
 call graph

---
 lib/PhasarLLVM/Utils/LLVMShorthands.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
index 99f8095..6fe7117 100644
--- a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
@@ -111,8 +111,12 @@ bool psr::matchesSignature(const llvm::Function *F,
   if (F == nullptr || FType == nullptr) {
     return false;
   }
-  if (F->arg_size() == FType->getNumParams() &&
-      F->getReturnType() == FType->getReturnType()) {
+  // The return type of an overrider may be covariant
+  bool ReturnTypeMatch =
+      ExactMatch ? F->getReturnType() == FType->getReturnType()
+                 : isTypeMatchForFunctionArgument(F->getReturnType(),
+                                                  FType->getReturnType());
+  if (F->arg_size() == FType->getNumParams() && ReturnTypeMatch) {
     unsigned Idx = 0;
     for (const auto &Arg : F->args()) {
       bool TypeMissMatch =
-- 
2.43.0


From a720d4fc713f6e9f7c40f2f98f5d87b4d7d273fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 31/74] fix: DTA misses the casts of global objects to their
 first base class

---
 lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
index 1628077..50430e9 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/DTAResolver.cpp
@@ -147,14 +147,21 @@ static const llvm::StructType *getPointeeStructType(llvm::Type *Ty) {
 }
 
 void DTAResolver::addConstantCasts(const llvm::Instruction *Inst) {
-  // Pointers to global objects are cast by constant expressions
+  // Pointers to global objects are cast by constant expressions; LLVM folds the
+  // casts to the type of a first member (or base class) to GEPs
   for (const auto &Op : Inst->operands()) {
     const auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(Op.get());
-    if (!CE || CE->getOpcode() != llvm::Instruction::BitCast ||
+    if (!CE || !CE->getType()->isPointerTy() ||
         CE->getType()->isOpaquePointerTy()) {
       continue;
     }
 
+    const auto *GEP = llvm::dyn_cast<llvm::GEPOperator>(CE);
+    if (CE->getOpcode() != llvm::Instruction::BitCast &&
+        !(GEP && GEP->hasAllZeroIndices())) {
+      continue;
+    }
+
     const auto *SrcStructType =
         getPointeeStructType(CE->getOperand(0)->getType());
     const auto *DestStructType = getPointeeStructType(CE->getType());
-- 
2.43.0


From f80258305757c9fdbc31938c3cba699d4e2b4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 32/74] fix: LLVMAliasSet::mergeWith must merge the alias sets
 of all common pointers

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 30 ++++++++-----------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index ff7ba5f..f5bdcd4 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -606,30 +606,18 @@ void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
   // merge analyzed functions
   AnalyzedFunctions.insert(OtherPTI.AnalyzedFunctions.begin(),
                            OtherPTI.AnalyzedFunctions.end());
-  // merge points-to sets
-  for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
+  // merge points-to sets: all pointers of a set of other alias each other, so
+  // all sets of this that contain any of them must be merged
+  for (const AliasSetTy *Set : OtherPTI.Owner.getAllAliasSets()) {
+    const llvm::Value *Rep = nullptr;
     for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
+      addSingletonAliasSet(ElemPtr);
+      if (Rep) {
+        mergeAliasSets(Rep, ElemPtr);
+      } else {
+        Rep = ElemPtr;
       }
     }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
-    }
   }
 }
 
-- 
2.43.0


From 5e99b7f1b5926c85c45801f2736a3b614868eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 33/74] fix: call graphs deserialised from JSON skip unknown
 call sites and may be empty

---
 include/phasar/ControlFlow/CallGraph.h | 1 +
 lib/ControlFlow/CallGraphData.cpp      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..4e1eb2a 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -297,6 +297,7 @@ CallGraph<N, F>::deserialize(const CallGraphData &PrecomputedCG,
       if (!CS) {
         PHASAR_LOG_LEVEL_CAT(WARNING, "CallGraph",
                              "Invalid Call-Instruction Id: " << JId);
+        continue;
       }
 
       CGBuilder.addCallEdge(CS, Fun);
diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..84db00c 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  auto JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
-- 
2.43.0


From 7b3be47fbf19f59ba4a824eed44932854efd43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 34/74] fix: alias sets of modules without pointers can be read
 back from JSON

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp     | 4 ++--
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index f5bdcd4..252125c 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -639,7 +639,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   nlohmann::json J;
 
   /// Serialize the AliasSets
-  auto &Sets = J["AliasSets"];
+  auto &Sets = J["AliasSets"] = nlohmann::json::array();
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
     auto PtsJson = nlohmann::json::array();
@@ -655,7 +655,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   }
 
   /// Serialize the AnalyzedFunctions
-  auto &Fns = J["AnalyzedFunctions"];
+  auto &Fns = J["AnalyzedFunctions"] = nlohmann::json::array();
   for (const auto *F : AnalyzedFunctions) {
     Fns.push_back(F->getName());
   }
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..8252504 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -30,6 +30,8 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
 
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json JSON;
+  JSON["AliasSets"] = nlohmann::json::array();
+  JSON["AnalyzedFunctions"] = nlohmann::json::array();
 
   for (const auto &Curr : AliasSets) {
     JSON["AliasSets"].push_back(Curr);
-- 
2.43.0


From cdebaef2ef26e7edf407f6b52320729f1607c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 35/74] fix: fromMetaDataId for arguments of functions with a
 dot in their name

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..6e40309 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,8 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  // Note: The function name may contain dots, too
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From fd0250846052a36a6077c0bc397109c4bfe1172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:18 +0000
Subject: [PATCH 36/74] fix: functions in alias sets survive the JSON round
 trip

---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 58 +++++++++++++++++--------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 252125c..6829942 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -95,6 +95,39 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB, bool UseLazyEvaluation,
           << std::chrono::steady_clock::now().time_since_epoch().count());
 }
 
+/// Functions do not have a metadata id, so refer to them by name
+static std::string getSerializedId(const llvm::Value *V) {
+  if (const auto *F = llvm::dyn_cast<llvm::Function>(V)) {
+    return "@" + F->getName().str();
+  }
+  return getMetaDataID(V);
+}
+
+static const llvm::Value *fromSerializedId(const LLVMProjectIRDB &IRDB,
+                                           llvm::StringRef Id) {
+  if (Id.consume_front("@")) {
+    return IRDB.getFunction(Id);
+  }
+  return fromMetaDataId(IRDB, Id);
+}
+
+static std::vector<std::string>
+getSerializedAliasSet(const LLVMAliasInfo::AliasSetTy &PTS) {
+  std::vector<std::string> Ret;
+  if (PTS.size() == 1 && llvm::isa<llvm::Function>(*PTS.begin())) {
+    // Functions without aliases do not need to be serialized
+    return Ret;
+  }
+
+  for (const auto *Alias : PTS) {
+    auto Id = getSerializedId(Alias);
+    if (Id != "-1") {
+      Ret.push_back(std::move(Id));
+    }
+  }
+  return Ret;
+}
+
 LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
                            const nlohmann::json &SerializedPTS)
     : PTA(*IRDB, true) {
@@ -118,7 +151,7 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
     auto PTS = Owner.acquire();
     for (const auto &Alias : PtsJson) {
       const auto AliasStr = Alias.get<std::string>();
-      const auto *Inst = fromMetaDataId(*IRDB, AliasStr);
+      const auto *Inst = fromSerializedId(*IRDB, AliasStr);
       if (!Inst) {
         PHASAR_LOG_LEVEL(WARNING, "Invalid Value-Id: " << AliasStr);
         continue;
@@ -178,7 +211,11 @@ void LLVMAliasSet::computeValuesAliasSet(const llvm::Value *V) {
                          llvm::dyn_cast<llvm::StoreInst>(User)) {
             if (isInterestingPointer(Store->getValueOperand())) {
               // Store->getPointerOperand() doesn't require checking: it is
-              // always an interesting pointer
+              // always an interesting pointer.
+              // Constant expressions may be missing in alias sets that were
+              // loaded from JSON
+              addSingletonAliasSet(Store->getValueOperand());
+              addSingletonAliasSet(Store->getPointerOperand());
               mergeAliasSets(Store->getValueOperand(),
                              Store->getPointerOperand());
             }
@@ -642,13 +679,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   auto &Sets = J["AliasSets"] = nlohmann::json::array();
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
-    auto PtsJson = nlohmann::json::array();
-    for (const auto *Alias : *PTS) {
-      auto Id = getMetaDataID(Alias);
-      if (Id != "-1") {
-        PtsJson.push_back(std::move(Id));
-      }
-    }
+    auto PtsJson = getSerializedAliasSet(*PTS);
     if (!PtsJson.empty()) {
       Sets.push_back(std::move(PtsJson));
     }
@@ -667,14 +698,7 @@ LLVMAliasSetData LLVMAliasSet::getLLVMAliasSetData() const {
 
   /// Serialize the AliasSets
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
-
-    std::vector<std::string> PtsJson{};
-    for (const auto *Alias : *PTS) {
-      auto Id = getMetaDataID(Alias);
-      if (Id != "-1") {
-        PtsJson.push_back(std::move(Id));
-      }
-    }
+    auto PtsJson = getSerializedAliasSet(*PTS);
     if (!PtsJson.empty()) {
       Data.AliasSets.push_back(std::move(PtsJson));
     }
-- 
2.43.0


From 1e141811b2861c86928594a4d97eb341d1687264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 37/74] fix: empty type hierarchies and vtables can be read
 back from JSON

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp | 2 ++
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
index 5247e8f..b342be8 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.cpp
@@ -38,6 +38,8 @@ void LLVMTypeHierarchyData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json Json;
 
   Json["PhasarConfigJsonTypeHierarchyID"] = PhasarConfigJsonTypeHierarchyID;
+  // Must be present, even if there are no types
+  Json[PhasarConfigJsonTypeHierarchyID] = nlohmann::json::object();
 
   for (const auto &Curr : TypeGraph) {
     auto &DataPos =
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
index 69d2a8d..b41d4d2 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTableData.cpp
@@ -26,6 +26,8 @@ static LLVMVFTableData getDataFromJson(const nlohmann::json &Json) {
 
 void LLVMVFTableData::printAsJson(llvm::raw_ostream &OS) const {
   nlohmann::json JSON;
+  // Must be present, even if the table is empty
+  JSON["VFT"] = nlohmann::json::array();
 
   for (const auto &Curr : VFT) {
     JSON["VFT"].push_back(Curr);
-- 
2.43.0


From 303dda1b172c05329cc1dabbefc651894bee7201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 38/74] fix: skip unknown sub types when deserialising the
 LLVMTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 23dbdcc..b4d2484 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -121,7 +121,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
     auto Vtx = TypeVertexMap.at(SrcType);
     for (const auto &CurrEdge : SerElement.getValue()) {
       const auto *DestType = NameToStructType[CurrEdge];
-      if (!SrcType) {
+      if (!DestType) {
         continue;
       }
       auto DestVtx = TypeVertexMap.at(DestType);
-- 
2.43.0


From 462d310c267f1036748cb4e63f14c82fce4124b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:46 +0000
Subject: [PATCH 39/74] fix: vtables of a deserialised LLVMTypeHierarchy are
 empty

---
 .../TypeHierarchy/LLVMTypeHierarchy.h         |  2 ++
 .../TypeHierarchy/LLVMTypeHierarchy.cpp       | 25 +++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h b/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
index 3678dfa..6c4a347 100644
--- a/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
+++ b/include/phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h
@@ -116,6 +116,8 @@ private:
   std::vector<const llvm::Function *>
   getVirtualFunctions(const llvm::Module &M, const llvm::StructType &Type);
 
+  void collectTypeInfosAndVTables(const llvm::Module &M);
+
 protected:
   void buildLLVMTypeHierarchy(const llvm::Module &M);
 
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index b4d2484..e84d884 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -82,6 +82,7 @@ LLVMTypeHierarchy::LLVMTypeHierarchy(
   const auto &IRDBModule = IRDB.getModule();
 
   VisitedModules.insert(IRDBModule);
+  collectTypeInfosAndVTables(*IRDBModule);
   auto StructTypes = IRDBModule->getIdentifiedStructTypes();
 
   // find all struct types by name
@@ -273,16 +274,7 @@ LLVMTypeHierarchy::getVirtualFunctions(const llvm::Module &M,
   return VFS;
 }
 
-void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
-  PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMTypeHierarchy",
-                       "Analyze types in module: " << M.getModuleIdentifier());
-  // store analyzed module
-  VisitedModules.insert(&M);
-  auto StructTypes = M.getIdentifiedStructTypes();
-  // build helper maps
-  for (auto *StructType : StructTypes) {
-    ClearNameTypeMap[removeStructOrClassPrefix(*StructType)] = StructType;
-  }
+void LLVMTypeHierarchy::collectTypeInfosAndVTables(const llvm::Module &M) {
   for (const auto &Global : M.globals()) {
     if (Global.hasName()) {
       if (isTypeInfo(Global.getName())) {
@@ -297,6 +289,19 @@ void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
       }
     }
   }
+}
+
+void LLVMTypeHierarchy::constructHierarchy(const llvm::Module &M) {
+  PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMTypeHierarchy",
+                       "Analyze types in module: " << M.getModuleIdentifier());
+  // store analyzed module
+  VisitedModules.insert(&M);
+  auto StructTypes = M.getIdentifiedStructTypes();
+  // build helper maps
+  for (auto *StructType : StructTypes) {
+    ClearNameTypeMap[removeStructOrClassPrefix(*StructType)] = StructType;
+  }
+  collectTypeInfosAndVTables(M);
   // iterate struct types and add vertices
   for (auto *StructType : StructTypes) {
     if (!TypeVertexMap.count(StructType)) {
-- 
2.43.0


From 943b0478204f6806fcb837f7014839457379cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:46 +0000
Subject: [PATCH 40/74] fix: null entries are duplicated in vtables of a
 deserialised DIBasedTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index be0f02c..dcb5a37 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -286,6 +286,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     for (const auto &FuncName : Curr) {
       if (FuncName == LLVMVFTable::NullFunName) {
         CurrVTable.push_back(nullptr);
+        continue;
       }
       CurrVTable.push_back(IRDB->getFunction(FuncName));
     }
-- 
2.43.0


From 1091928a5c186aa55581a67aea7b3192bac94cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 41/74] fix: deserialising a DIBasedTypeHierarchy confuses or
 rejects types with equal names

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp    | 134 ++++++++----------
 1 file changed, 63 insertions(+), 71 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index dcb5a37..c896490 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -170,39 +170,55 @@ static llvm::StringRef getCompositeTypeName(const llvm::DICompositeType *Ty) {
   return Ident.empty() ? Ty->getName() : Ident;
 }
 
+/// All struct- or class types of the module
+static std::vector<const llvm::DICompositeType *>
+collectClassTypes(const llvm::DebugInfoFinder &DIF) {
+  // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
+  static constexpr llvm::dwarf::Tag DwarfTags[] = {
+      llvm::dwarf::DW_TAG_class_type,
+      llvm::dwarf::DW_TAG_structure_type,
+      llvm::dwarf::DW_TAG_union_type,
+  };
+
+  std::vector<const llvm::DICompositeType *> Ret;
+  Ret.reserve(DIF.type_count()); // upper bound
+  for (const auto *Ty : DIF.types()) {
+    if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty)) {
+      if (llvm::is_contained(DwarfTags, Composite->getTag())) {
+        Ret.push_back(Composite);
+      }
+    }
+  }
+  return Ret;
+}
+
+/// The names of all types; as types without identifier may have the same name
+/// as others, a suffix makes them unique.
+static std::vector<std::string>
+getUniqueTypeNames(llvm::ArrayRef<const llvm::DICompositeType *> Types) {
+  std::vector<std::string> Ret;
+  Ret.reserve(Types.size());
+  llvm::StringMap<unsigned> NumSeen;
+  for (const auto *Ty : Types) {
+    auto Name = getCompositeTypeName(Ty);
+    auto Ctr = NumSeen[Name]++;
+    Ret.push_back(Ctr == 0 ? Name.str()
+                           : Name.str() + '#' + std::to_string(Ctr));
+  }
+  return Ret;
+}
+
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   // -- Find all types
   {
     llvm::DebugInfoFinder DIF;
     DIF.processModule(*IRDB.getModule());
-    {
-      size_t NumTypes = DIF.type_count(); // upper bound
-
-      TypeToVertex.reserve(NumTypes);
-      VertexTypes.reserve(NumTypes);
-    }
-
-    // -- Filter all struct- or class types
-
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
-    static constexpr llvm::dwarf::Tag DwarfTags[] = {
-        llvm::dwarf::DW_TAG_class_type,
-        llvm::dwarf::DW_TAG_structure_type,
-        llvm::dwarf::DW_TAG_union_type,
-    };
-
-    for (const auto *Ty : DIF.types()) {
-      if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty)) {
-        if (!llvm::is_contained(DwarfTags, Composite->getTag())) {
-          continue;
-        }
-        if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
-          VertexTypes.push_back(Composite);
-          NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
 
-          assert(!getCompositeTypeName(Composite).empty());
-        }
-      }
+    VertexTypes = collectClassTypes(DIF);
+    TypeToVertex.reserve(VertexTypes.size());
+    for (const auto *Composite : VertexTypes) {
+      TypeToVertex.try_emplace(Composite, TypeToVertex.size());
+      NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
     }
 
     // -- Construct VTables
@@ -219,41 +235,6 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   buildTypeHierarchy(TG, VertexTypes, TransitiveDerivedIndex, Hierarchy);
 }
 
-static const llvm::DICompositeType *
-stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
-                        llvm::StringRef DITypeName) {
-  const llvm::DICompositeType *ByName = nullptr;
-  bool HasUniqueByName = false;
-  for (const auto *Type : DIF.types()) {
-    if (const auto *DICT = llvm::dyn_cast<llvm::DICompositeType>(Type)) {
-      auto Ident = DICT->getIdentifier();
-      if (Ident == DITypeName) {
-        return DICT;
-      }
-      if (DICT->getName() == DITypeName) {
-        HasUniqueByName = ByName == nullptr;
-        ByName = DICT;
-      }
-    }
-  }
-  if (HasUniqueByName) {
-    return ByName;
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist: " + DITypeName);
-}
-
-static const llvm::DIType *stringToDIType(const llvm::DebugInfoFinder &DIF,
-                                          llvm::StringRef DITypeName) {
-  for (const auto *Type : DIF.types()) {
-    if (Type->getName() == DITypeName) {
-      return Type;
-    }
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist " + DITypeName);
-}
-
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     const LLVMProjectIRDB *IRDB, const DIBasedTypeHierarchyData &SerializedData)
     : TransitiveDerivedIndex(SerializedData.TransitiveDerivedIndex) {
@@ -262,21 +243,36 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
   const auto *Module = IRDB->getModule();
   DIF.processModule(*Module);
 
+  llvm::StringMap<const llvm::DICompositeType *> UniqueNameToType;
+  {
+    auto Types = collectClassTypes(DIF);
+    for (const auto &[Ty, Name] : llvm::zip(Types, getUniqueTypeNames(Types))) {
+      UniqueNameToType.try_emplace(Name, Ty);
+    }
+  }
+  auto GetType = [&UniqueNameToType](llvm::StringRef Name) {
+    const auto *Ty = UniqueNameToType.lookup(Name);
+    if (!Ty) {
+      llvm::report_fatal_error("DIType doesn't exist: " + Name);
+    }
+    return Ty;
+  };
+
   VertexTypes.reserve(SerializedData.VertexTypes.size());
   TypeToVertex.reserve(SerializedData.VertexTypes.size());
   size_t Idx = 0;
   for (const auto &Curr : SerializedData.VertexTypes) {
-    const auto *Ty = stringToDICompositeType(DIF, Curr);
+    const auto *Ty = GetType(Curr);
     VertexTypes.push_back(Ty);
     TypeToVertex.try_emplace(Ty, Idx);
-    NameToType.try_emplace(Curr, Ty);
+    NameToType.try_emplace(getCompositeTypeName(Ty), Ty);
 
     ++Idx;
   }
 
   Hierarchy.reserve(SerializedData.Hierarchy.size());
   for (const auto &Curr : SerializedData.Hierarchy) {
-    Hierarchy.push_back(stringToDIType(DIF, Curr));
+    Hierarchy.push_back(GetType(Curr));
   }
 
   for (const auto &Curr : SerializedData.VTables) {
@@ -351,17 +347,13 @@ DIBasedTypeHierarchy::getAsJson() const {
 DIBasedTypeHierarchyData DIBasedTypeHierarchy::getTypeHierarchyData() const {
   DIBasedTypeHierarchyData Data;
 
-  Data.VertexTypes.reserve(VertexTypes.size());
-
-  for (const auto &Curr : VertexTypes) {
-    Data.VertexTypes.push_back(getTypeName(Curr).str());
-  }
+  Data.VertexTypes = getUniqueTypeNames(VertexTypes);
 
   Data.TransitiveDerivedIndex = TransitiveDerivedIndex;
 
   Data.Hierarchy.reserve(Hierarchy.size());
   for (const auto &Curr : Hierarchy) {
-    Data.Hierarchy.push_back(Curr->getName().str());
+    Data.Hierarchy.push_back(Data.VertexTypes[TypeToVertex.lookup(Curr)]);
   }
 
   for (const auto &Curr : VTables) {
-- 
2.43.0


From e386baf200ae5f51eb65aa7f7432dbc9ec034603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 42/74] fix: printing a vtable with null entries dereferences a
 null pointer

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index e84d884..cae63b7 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -378,7 +378,7 @@ void LLVMTypeHierarchy::print(llvm::raw_ostream &OS) const {
   for (const auto &[Ty, VFT] : TypeVFTMap) {
     OS << "Virtual function table for: " << Ty->getName() << '\n';
     for (const auto *F : VFT) {
-      OS << "\t-" << F->getName() << '\n';
+      OS << "\t-" << (F ? F->getName() : "<null>") << '\n';
     }
   }
 }
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 2b6b443..4f645a9 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -41,7 +41,7 @@ int LLVMVFTable::getIndex(const llvm::Function *F) const {
 
 void LLVMVFTable::print(llvm::raw_ostream &OS) const {
   for (const auto *F : VFT) {
-    OS << F->getName();
+    OS << (F ? F->getName() : "<null>");
     if (F != VFT.back()) {
       OS << '\n';
     }
-- 
2.43.0


From 03863ff104bb509218c53534e600878f77be57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 43/74] fix: vtables of classes with virtual bases contain
 their virtual base offsets

---
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 4f645a9..953f48c 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/TypeHierarchy/LLVMVFTableData.h"
 #include "phasar/Utils/NlohmannLogging.h"
 
+#include "llvm/ADT/STLExtras.h"
 #include "llvm/IR/Function.h"
 #include "llvm/IR/GlobalAlias.h"
 #include "llvm/IR/Operator.h"
@@ -78,9 +79,15 @@ LLVMVFTable::getVFVectorFromIRVTable(const llvm::ConstantStruct &VT) {
   std::vector<const llvm::Function *> VFS;
   for (const auto &Op : VT.operands()) {
     if (const auto *CA = llvm::dyn_cast<llvm::ConstantArray>(Op)) {
-      // Start iterating at offset 2, because offset 0 is vbase offset, offset 1
-      // is RTTI
-      for (const auto *It = std::next(CA->operands().begin(), 2);
+      // Start iterating after the offset-to-top and the RTTI; with virtual
+      // bases, further offsets may precede them
+      const auto *RTTI = llvm::find_if(CA->operands(), [](const auto &Op) {
+        return Op->stripPointerCasts()->getName().startswith("_ZTI");
+      });
+      if (RTTI == CA->operands().end()) {
+        RTTI = std::next(CA->operands().begin());
+      }
+      for (const auto *It = std::next(RTTI);
            It != CA->operands().end(); ++It) {
         const auto &COp = *It;
         if (const auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(COp)) {
-- 
2.43.0


From 0b17370f90ed0e1583f9e1a7630300738f6190e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 44/74] fix: constant expressions in alias sets survive the
 JSON round trip

---
 .../phasar/PhasarLLVM/Pointer/LLVMAliasSet.h  |  5 +++
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp       | 39 ++++++++++++++++---
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
index 55c150d..fb93d61 100644
--- a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
+++ b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
@@ -129,6 +129,11 @@ public:
   [[nodiscard]] inline bool empty() const { return AnalyzedFunctions.empty(); }
 
 private:
+  [[nodiscard]] std::string getSerializedId(const llvm::Value *V) const;
+
+  [[nodiscard]] std::vector<std::string>
+  getSerializedAliasSet(const AliasSetTy &PTS) const;
+
   void computeValuesAliasSet(const llvm::Value *V);
 
   void computeFunctionsAliasSet(llvm::Function *F);
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 6829942..1ce2c4a 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -95,12 +95,31 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB, bool UseLazyEvaluation,
           << std::chrono::steady_clock::now().time_since_epoch().count());
 }
 
-/// Functions do not have a metadata id, so refer to them by name
-static std::string getSerializedId(const llvm::Value *V) {
+/// Functions do not have a metadata id, so refer to them by name. Constant
+/// expressions are denoted as "/OperandNo/IdOfUser"
+std::string LLVMAliasSet::getSerializedId(const llvm::Value *V) const {
   if (const auto *F = llvm::dyn_cast<llvm::Function>(V)) {
     return "@" + F->getName().str();
   }
-  return getMetaDataID(V);
+  if (!llvm::isa<llvm::ConstantExpr, llvm::ConstantAggregate>(V)) {
+    return getMetaDataID(V);
+  }
+
+  for (const auto &Use : V->uses()) {
+    const auto *User = Use.getUser();
+    const auto *Inst = llvm::dyn_cast<llvm::Instruction>(User);
+    // Constant expressions may be used in other modules, too
+    if (Inst ? !AnalyzedFunctions.count(Inst->getFunction())
+             : !llvm::isa<llvm::ConstantExpr, llvm::ConstantAggregate>(User) &&
+                   !AliasSets.count(User)) {
+      continue;
+    }
+    auto UserId = getSerializedId(User);
+    if (UserId != "-1") {
+      return '/' + std::to_string(Use.getOperandNo()) + '/' + UserId;
+    }
+  }
+  return "-1";
 }
 
 static const llvm::Value *fromSerializedId(const LLVMProjectIRDB &IRDB,
@@ -108,11 +127,21 @@ static const llvm::Value *fromSerializedId(const LLVMProjectIRDB &IRDB,
   if (Id.consume_front("@")) {
     return IRDB.getFunction(Id);
   }
+  if (Id.consume_front("/")) {
+    unsigned OpNo{};
+    if (Id.consumeInteger(10, OpNo) || !Id.consume_front("/")) {
+      return nullptr;
+    }
+    const auto *User =
+        llvm::dyn_cast_or_null<llvm::User>(fromSerializedId(IRDB, Id));
+    return User && OpNo < User->getNumOperands() ? User->getOperand(OpNo)
+                                                 : nullptr;
+  }
   return fromMetaDataId(IRDB, Id);
 }
 
-static std::vector<std::string>
-getSerializedAliasSet(const LLVMAliasInfo::AliasSetTy &PTS) {
+std::vector<std::string> LLVMAliasSet::getSerializedAliasSet(
+    const LLVMAliasInfo::AliasSetTy &PTS) const {
   std::vector<std::string> Ret;
   if (PTS.size() == 1 && llvm::isa<llvm::Function>(*PTS.begin())) {
     // Functions without aliases do not need to be serialized
-- 
2.43.0


From 63239b99d1c629e4a7170e9f4416651a49afbb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:48 +0000
Subject: [PATCH 45/74] fix: isPhasarGenerated misses the caller of the
 registered destructors

---
 lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index e6a5324..f2564a1 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -355,9 +355,10 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
     const llvm::Function &F) noexcept {
   if (F.hasName()) {
     llvm::StringRef FunctionName = F.getName();
+    // Note: The DtorsCallerName is followed by the name of the module
     return llvm::StringSwitch<bool>(FunctionName)
-        .Cases(ModelName, DtorModelName, DtorsCallerName, UserEntrySelectorName,
-               true)
+        .Cases(ModelName, DtorModelName, UserEntrySelectorName, true)
+        .StartsWith(DtorsCallerName, true)
         .Default(false);
   }
 
-- 
2.43.0


From edd7d9d4ead5bdced8ffe11034a4dee9cf205371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:31 +0000
Subject: [PATCH 46/74] fix: order of the global destructors in the model of
 the C runtime

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 76 +++++++++++++------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index f2564a1..5af28e4 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -15,7 +15,9 @@
 #include "phasar/Utils/Logger.h"
 
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/IR/IRBuilder.h"
+#include "llvm/IR/InstIterator.h"
 
 #include <functional>
 
@@ -56,16 +58,41 @@ collectGlobalCtors(const llvm::Module &Mod) {
 
 static std::multimap<size_t, llvm::Function *, std::greater<>>
 collectGlobalDtors(const llvm::Module &Mod) {
-  std::multimap<size_t, llvm::Function *, std::greater<>> Ret;
-  insertGlobalCtorsDtorsImpl(Ret, Mod, "llvm.global_dtors");
-  return Ret;
+  // Dtors run in the opposite order, also among those with the same priority
+  std::multimap<size_t, llvm::Function *> Dtors;
+  insertGlobalCtorsDtorsImpl(Dtors, Mod, "llvm.global_dtors");
+  return {Dtors.rbegin(), Dtors.rend()};
+}
+
+/// Collects the calls to __cxa_atexit in Fun and in the functions it directly
+/// calls in the order in which Fun executes them
+static void
+collectAtExitCalls(const llvm::Function &Fun, const llvm::Function *CxaAtExitFn,
+                   llvm::SmallPtrSetImpl<const llvm::Function *> &Seen,
+                   llvm::SmallVectorImpl<const llvm::CallBase *> &Into) {
+  if (!Seen.insert(&Fun).second) {
+    return;
+  }
+  for (const auto &Inst : llvm::instructions(Fun)) {
+    const auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+    const auto *Callee = Call ? Call->getCalledFunction() : nullptr;
+    if (!Callee) {
+      continue;
+    }
+    if (Callee == CxaAtExitFn) {
+      Into.push_back(Call);
+    } else {
+      collectAtExitCalls(*Callee, CxaAtExitFn, Seen, Into);
+    }
+  }
 }
 
 static llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-collectRegisteredDtorsForModule(const llvm::Module &Mod) {
-  // NOLINTNEXTLINE
+collectRegisteredDtorsForModule(
+    const llvm::Module &Mod,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
   llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-      RegisteredDtors, RegisteredLocalStaticDtors;
+      RegisteredDtors;
 
   auto *CxaAtExitFn = Mod.getFunction("__cxa_atexit");
   if (!CxaAtExitFn) {
@@ -82,12 +109,18 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
     return CE->getOperand(0);
   };
 
-  for (auto *User : CxaAtExitFn->users()) {
-    auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
-    if (!Call) {
-      continue;
-    }
+  // Everything that is not registered by a global ctor is registered later, no
+  // matter where it is declared in the source code
+  llvm::SmallPtrSet<const llvm::Function *, 16> Seen;
+  llvm::SmallVector<const llvm::CallBase *> AtExitCalls;
+  for (auto [unused, Ctor] : GlobalCtors) {
+    collectAtExitCalls(*Ctor, CxaAtExitFn, Seen, AtExitCalls);
+  }
+  for (const auto &Fun : Mod) {
+    collectAtExitCalls(Fun, CxaAtExitFn, Seen, AtExitCalls);
+  }
 
+  for (const auto *Call : AtExitCalls) {
     auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
         getConstantBitcastArgument(Call->getArgOperand(0)));
     auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
@@ -96,18 +129,9 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
       continue;
     }
 
-    if (Call->getFunction()->getName().contains("__cxx_global_var_init")) {
-      RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
-    } else {
-      RegisteredLocalStaticDtors.emplace_back(DtorOp, DtorArgOp);
-    }
+    RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
   }
 
-  // Destructors of local static variables are registered last, no matter where
-  // they are declared in the source code
-  RegisteredDtors.append(RegisteredLocalStaticDtors.begin(),
-                         RegisteredLocalStaticDtors.end());
-
   return RegisteredDtors;
 }
 
@@ -166,11 +190,12 @@ static llvm::Function *createDtorCallerForModule(
 
 [[nodiscard]] static llvm::Function *collectRegisteredDtors(
     std::multimap<size_t, llvm::Function *, std::greater<>> &GlobalDtors,
-    llvm::Module &Mod) {
+    llvm::Module &Mod,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
                        "Collect Registered Dtors for Module " << Mod.getName());
 
-  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod);
+  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod, GlobalCtors);
 
   if (RegisteredDtors.empty()) {
     return nullptr;
@@ -182,7 +207,8 @@ static llvm::Function *createDtorCallerForModule(
 
   auto *RegisteredDtorCaller = createDtorCallerForModule(Mod, RegisteredDtors);
   // auto It =
-  GlobalDtors.emplace(0, RegisteredDtorCaller);
+  // The registered dtors run before all functions in llvm.global_dtors
+  GlobalDtors.emplace(SIZE_MAX, RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
   return RegisteredDtorCaller;
@@ -224,7 +250,7 @@ llvm::Function *GlobalCtorsDtorsModel::buildModel(
   auto &M = *IRDB.getModule();
   auto GlobalCtors = collectGlobalCtors(M);
   auto GlobalDtors = collectGlobalDtors(M);
-  auto *RegisteredDtorCaller = collectRegisteredDtors(GlobalDtors, M);
+  auto *RegisteredDtorCaller = collectRegisteredDtors(GlobalDtors, M, GlobalCtors);
   if (RegisteredDtorCaller) {
     IRDB.insertFunction(RegisteredDtorCaller);
   }
-- 
2.43.0


From d64ec4c620fc32727f5ad7058795d50259c7d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:31 +0000
Subject: [PATCH 47/74] fix: invalid model of the C runtime for local values
 registered with __cxa_atexit

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp       | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index 5af28e4..11949f5 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -164,9 +164,24 @@ static llvm::Function *createDtorCallerForModule(
   for (auto It = RegisteredDtors.rbegin(), End = RegisteredDtors.rend();
        It != End; ++It) {
     auto FunCallee = It->first;
-    assert(FunCallee.getFunctionType()->getNumParams() == 1);
+    auto NumParams = FunCallee.getFunctionType()->getNumParams();
+    if (NumParams == 0) {
+      IRB.CreateCall(FunCallee);
+      continue;
+    }
+    if (NumParams > 1) {
+      PHASAR_LOG_LEVEL(WARNING,
+                       "Detected registered dtor with incompatible signature: "
+                       "Function "
+                           << FunCallee.getCallee()->getName());
+      continue;
+    }
     auto *ExpectedArgType = FunCallee.getFunctionType()->getParamType(0);
     auto *Arg = It->second;
+    if (!llvm::isa<llvm::Constant>(Arg)) {
+      // The value is not available in the model
+      Arg = llvm::UndefValue::get(ExpectedArgType);
+    }
     if (Arg->getType() != ExpectedArgType) {
       if (!Arg->getType()->canLosslesslyBitCastTo(ExpectedArgType)) {
         PHASAR_LOG_LEVEL(
-- 
2.43.0


From 7a426cff24742e97c4fc6f6879199a20f07e6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:03 +0000
Subject: [PATCH 48/74] fix: building the model of the C runtime twice on the
 same IRDB

A second call to buildModel() appended a second entry block and a second set
of calls to the already existing functions, yielding invalid IR.
---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 110 +++++++++++++++---
 1 file changed, 92 insertions(+), 18 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index 11949f5..ef99790 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -144,15 +144,27 @@ static std::string getReducedModuleName(const llvm::Module &M) {
   return Name;
 }
 
+/// The function with the given name, if it has already been defined by an
+/// earlier call to buildModel()
+static llvm::Function *getExistingFunction(llvm::Module &Mod,
+                                           const llvm::Twine &Name) {
+  auto *Fun = Mod.getFunction(Name.str());
+  return Fun && !Fun->isDeclaration() ? Fun : nullptr;
+}
+
+static std::string getDtorsCallerName(const llvm::Module &Mod) {
+  return (GlobalCtorsDtorsModel::DtorsCallerName + llvm::Twine('.') +
+          getReducedModuleName(Mod))
+      .str();
+}
+
 static llvm::Function *createDtorCallerForModule(
     llvm::Module &Mod,
     const llvm::SmallVectorImpl<std::pair<llvm::FunctionCallee, llvm::Value *>>
         &RegisteredDtors) {
 
   auto *PhasarDtorCaller = llvm::cast<llvm::Function>(
-      Mod.getOrInsertFunction((GlobalCtorsDtorsModel::DtorsCallerName +
-                               llvm::Twine('.') + getReducedModuleName(Mod))
-                                  .str(),
+      Mod.getOrInsertFunction(getDtorsCallerName(Mod),
                               llvm::Type::getVoidTy(Mod.getContext()))
           .getCallee());
 
@@ -203,17 +215,22 @@ static llvm::Function *createDtorCallerForModule(
   return PhasarDtorCaller;
 }
 
-[[nodiscard]] static llvm::Function *collectRegisteredDtors(
+[[nodiscard]] static std::pair<llvm::Function *, bool> collectRegisteredDtors(
     std::multimap<size_t, llvm::Function *, std::greater<>> &GlobalDtors,
     llvm::Module &Mod,
     const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
                        "Collect Registered Dtors for Module " << Mod.getName());
 
+  if (auto *Existing = getExistingFunction(Mod, getDtorsCallerName(Mod))) {
+    GlobalDtors.emplace(SIZE_MAX, Existing);
+    return {Existing, false};
+  }
+
   auto RegisteredDtors = collectRegisteredDtorsForModule(Mod, GlobalCtors);
 
   if (RegisteredDtors.empty()) {
-    return nullptr;
+    return {nullptr, false};
   }
 
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
@@ -226,7 +243,7 @@ static llvm::Function *createDtorCallerForModule(
   GlobalDtors.emplace(SIZE_MAX, RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
-  return RegisteredDtorCaller;
+  return {RegisteredDtorCaller, true};
 }
 
 static std::pair<llvm::Function *, bool> buildCRuntimeGlobalDtorsModel(
@@ -237,6 +254,11 @@ static std::pair<llvm::Function *, bool> buildCRuntimeGlobalDtorsModel(
     return {GlobalDtors.begin()->second, false};
   }
 
+  if (auto *Existing =
+          getExistingFunction(M, GlobalCtorsDtorsModel::DtorModelName)) {
+    return {Existing, false};
+  }
+
   auto &CTX = M.getContext();
   auto *Cleanup = llvm::cast<llvm::Function>(
       M.getOrInsertFunction(GlobalCtorsDtorsModel::DtorModelName,
@@ -260,13 +282,56 @@ static std::pair<llvm::Function *, bool> buildCRuntimeGlobalDtorsModel(
   return {Cleanup, true};
 }
 
+/// The model that has been built for the same entry points before, if any
+static llvm::Function *
+findExistingModel(llvm::Module &M,
+                  const std::multimap<size_t, llvm::Function *> &GlobalCtors,
+                  llvm::ArrayRef<llvm::Function *> UserEntryPoints,
+                  const llvm::Function *GlobalCleanupFn) {
+  llvm::SmallVector<const llvm::Function *> Callees;
+  for (auto [unused, Ctor] : GlobalCtors) {
+    Callees.push_back(Ctor);
+  }
+  for (const auto *UEntry : UserEntryPoints) {
+    bool IsMain = UEntry->getName() == "main";
+    if (UEntry->arg_empty() || (IsMain && UEntry->arg_size() == 2)) {
+      Callees.push_back(UEntry);
+    }
+    if (IsMain) {
+      Callees.push_back(GlobalCleanupFn);
+    }
+  }
+
+  for (auto &Fun : M) {
+    if (Fun.isDeclaration() ||
+        !Fun.getName().startswith(GlobalCtorsDtorsModel::ModelName) ||
+        (Fun.size() == 1) != (UserEntryPoints.size() == 1)) {
+      continue;
+    }
+    llvm::SmallVector<const llvm::Function *> FunCallees;
+    for (const auto &Inst : llvm::instructions(Fun)) {
+      const auto *Call = llvm::dyn_cast<llvm::CallBase>(&Inst);
+      const auto *Callee = Call ? Call->getCalledFunction() : nullptr;
+      if (Callee && Callee->getName() !=
+                        GlobalCtorsDtorsModel::UserEntrySelectorName) {
+        FunCallees.push_back(Callee);
+      }
+    }
+    if (FunCallees == Callees) {
+      return &Fun;
+    }
+  }
+  return nullptr;
+}
+
 llvm::Function *GlobalCtorsDtorsModel::buildModel(
     LLVMProjectIRDB &IRDB, llvm::ArrayRef<llvm::Function *> UserEntryPoints) {
   auto &M = *IRDB.getModule();
   auto GlobalCtors = collectGlobalCtors(M);
   auto GlobalDtors = collectGlobalDtors(M);
-  auto *RegisteredDtorCaller = collectRegisteredDtors(GlobalDtors, M, GlobalCtors);
-  if (RegisteredDtorCaller) {
+  auto [RegisteredDtorCaller, InsertedCaller] =
+      collectRegisteredDtors(GlobalDtors, M, GlobalCtors);
+  if (InsertedCaller) {
     IRDB.insertFunction(RegisteredDtorCaller);
   }
 
@@ -276,16 +341,24 @@ llvm::Function *GlobalCtorsDtorsModel::buildModel(
     IRDB.insertFunction(GlobalCleanupFn);
   }
 
+  if (auto *Existing = findExistingModel(M, GlobalCtors, UserEntryPoints,
+                                         GlobalCleanupFn)) {
+    return Existing;
+  }
+
   auto &CTX = M.getContext();
-  auto *GlobModel = llvm::cast<llvm::Function>(
-      M.getOrInsertFunction(ModelName,
-                            /*retTy*/
-                            llvm::Type::getVoidTy(CTX),
-                            /*argc*/
-                            llvm::Type::getInt32Ty(CTX),
-                            /*argv*/
-                            llvm::Type::getInt8PtrTy(CTX)->getPointerTo())
-          .getCallee());
+  // Note: If there is a model for other entry points already, the new one gets
+  // a unique suffix
+  auto *GlobModel = llvm::Function::Create(
+      llvm::FunctionType::get(
+          /*retTy*/
+          llvm::Type::getVoidTy(CTX),
+          {/*argc*/
+           llvm::Type::getInt32Ty(CTX),
+           /*argv*/
+           llvm::Type::getInt8PtrTy(CTX)->getPointerTo()},
+          false),
+      llvm::Function::ExternalLinkage, ModelName, M);
 
   auto *EntryBB = llvm::BasicBlock::Create(CTX, "entry", GlobModel);
 
@@ -398,7 +471,8 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
     llvm::StringRef FunctionName = F.getName();
     // Note: The DtorsCallerName is followed by the name of the module
     return llvm::StringSwitch<bool>(FunctionName)
-        .Cases(ModelName, DtorModelName, UserEntrySelectorName, true)
+        .Cases(DtorModelName, UserEntrySelectorName, true)
+        .StartsWith(ModelName, true)
         .StartsWith(DtorsCallerName, true)
         .Default(false);
   }
-- 
2.43.0


From a0a316f6c2366dcd0d7cadc30b56b86290a5d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:53 +0000
Subject: [PATCH 49/74] fix: IFDSTaintAnalysis skips the bodies of functions
 returning a struct

The kill of the sret argument made the summary flow function of every call with
an sret argument non-null, such that the callee was never analyzed.
---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..e3f7e7b 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -395,7 +395,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // populateWithMayAliases(Leak, CallSite);
   populateWithMustAliases(Kill, CallSite);
 
-  if (CS->hasStructRetAttr()) {
+  // Note: If we have a summary flow-function, the callee's body is not analyzed
+  if (CS->hasStructRetAttr() &&
+      (DestFun->isDeclaration() || !Gen.empty() || !Leak.empty() ||
+       !Kill.empty())) {
     const auto *SRet = CS->getArgOperand(0);
     if (!Gen.count(SRet)) {
       // SRet is guaranteed to be written to by the call. If it does not
-- 
2.43.0


From 6edc874dbf790ede92f8e8973fe3b22405c12c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:53 +0000
Subject: [PATCH 50/74] fix: IFDSTaintAnalysis ignores sanitized parameters of
 source functions

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index e3f7e7b..1c5f6ec 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -465,7 +465,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -478,6 +479,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From d0dd6f58e2a2a9fd9d58e8ef863e1273969cf91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:53 +0000
Subject: [PATCH 51/74] fix: the sanitizer callback of a taint configuration is
 ignored at calls

---
 .../phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
index aa7941d..40933f4 100644
--- a/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
+++ b/include/phasar/PhasarLLVM/TaintConfig/TaintConfigUtilities.h
@@ -79,6 +79,12 @@ template <typename ContainerTy,
 void collectSanitizedFacts(ContainerTy &Dest, const LLVMTaintConfig &Config,
                            const llvm::CallBase *CB,
                            const llvm::Function *Callee) {
+  const auto &Callback = Config.getRegisteredSanitizerCallBack();
+  if (Callback) {
+    auto CBSanitized = Callback(CB);
+    Dest.insert(CBSanitized.begin(), CBSanitized.end());
+  }
+
   for (unsigned I = 0, End = Callee->arg_size(); I < End; ++I) {
     if (Config.isSanitizer(Callee->getArg(I))) {
       Dest.insert(CB->getArgOperand(I));
-- 
2.43.0


From 7312d6d14d7191c1d4ea58b16a29354d1e765f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:53 +0000
Subject: [PATCH 52/74] fix: IFDSTaintAnalysis loses the taint of pointer
 parameters with a single use

A fact for a pointer parameter has to survive until the function returns, where
it is mapped back to the caller.
---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 1c5f6ec..b0ea35e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -183,9 +183,16 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
+/// Whether a fact is still needed after one of the uses of Val
+static bool isNeededAfterUse(d_t Val) {
+  // Note: Pointer parameters are mapped back to the caller when returning
+  return Val->hasNUsesOrMore(2) ||
+         (llvm::isa<llvm::Argument>(Val) && Val->getType()->isPointerTy());
+}
+
 static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
                                                                   d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+  if (isNeededAfterUse(From)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -202,8 +209,8 @@ static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
 
 static IFDSTaintAnalysis::FlowFunctionPtrType
 transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
-  bool KillFrom1 = !From1->hasNUsesOrMore(2);
-  bool KillFrom2 = !From2->hasNUsesOrMore(2);
+  bool KillFrom1 = !isNeededAfterUse(From1);
+  bool KillFrom2 = !isNeededAfterUse(From2);
 
   if (KillFrom1) {
     if (KillFrom2) {
@@ -270,7 +277,7 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (isNeededAfterUse(Store->getValueOperand())) {
       Gen.insert(Store->getValueOperand());
     }
 
-- 
2.43.0


From 67aeceb93b297a9c505209a783ff73a38fc12619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:29 +0000
Subject: [PATCH 53/74] fix: sanitizers without a body have no effect in
 IFDSTaintAnalysis

The call-to-return flow function let the sanitized facts bypass the call.
---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index b0ea35e..cd0ae2b 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -366,9 +366,24 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
-    return HasDeclOnly || !Arg->getType()->isPointerTy();
-  });
+  // Facts that are sanitized by all callees must not bypass the call
+  container_type Kill;
+  if (!Callees.empty()) {
+    collectSanitizedFacts(Kill, *Config, CS, Callees.front());
+    for (const auto *DestFun : Callees.drop_front()) {
+      container_type CurrKill;
+      collectSanitizedFacts(CurrKill, *Config, CS, DestFun);
+      for (auto It = Kill.begin(); It != Kill.end();) {
+        It = CurrKill.count(*It) ? std::next(It) : Kill.erase(It);
+      }
+    }
+  }
+
+  return mapFactsAlongsideCallSite(
+      CS, [HasDeclOnly, Kill{std::move(Kill)}](d_t Arg) {
+        return !Kill.count(Arg) &&
+               (HasDeclOnly || !Arg->getType()->isPointerTy());
+      });
 }
 
 auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
-- 
2.43.0


From 88a1e77484f668d5c01b7377fbef80f87a60bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 54/74] fix: IFDSUninitializedVariables loses pointer
 parameters returned from indirect calls

---
 .../Problems/IFDSUninitializedVariables.cpp   | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 68e360b..385a4b3 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -321,15 +321,18 @@ IFDSUninitializedVariables::getRetFlowFunction(
         //----------------------------------------------------------------------
         // Handle pointer/reference parameters
         //----------------------------------------------------------------------
-        if (Call->getCalledFunction()) {
-          unsigned I = 0;
-          for (const auto &Arg : Call->getCalledFunction()->args()) {
-            // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
-            if (&Arg == Source && Arg.getType()->isPointerTy()) {
-              Ret.insert(Call->getArgOperand(I));
-            }
-            I++;
+        // Note: Use the actual callee here, since there is no called function
+        // for indirect calls
+        unsigned I = 0;
+        for (const auto &Arg : Exit->getFunction()->args()) {
+          // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
+          if (I >= Call->arg_size()) {
+            break;
+          }
+          if (&Arg == Source && Arg.getType()->isPointerTy()) {
+            Ret.insert(Call->getArgOperand(I));
           }
+          I++;
         }
 
         // kill all other facts
-- 
2.43.0


From 574673367fe8ee5615adbfece90e7103b3f81ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 55/74] fix: IFDSUninitializedVariables ignores undef literals
 passed to and returned from functions

---
 .../Problems/IFDSUninitializedVariables.cpp   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 385a4b3..2ad31d3 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -288,8 +288,15 @@ IFDSUninitializedVariables::getCallFlowFunction(
         }
         return res;*/
 
-        // propagate zero
-        return {Source};
+        // propagate zero and all formals that directly receive an undef literal
+        std::set<const llvm::Value *> Res = {Source};
+        for (unsigned Idx = 0; Idx < Formals.size() && Idx < Actuals.size();
+             ++Idx) {
+          if (llvm::isa<llvm::UndefValue>(Actuals[Idx])) {
+            Res.insert(Formals[Idx]);
+          }
+        }
+        return Res;
       }
     };
     return std::make_shared<UVFF>(DestFun, CS, getZeroValue());
@@ -309,13 +316,18 @@ IFDSUninitializedVariables::getRetFlowFunction(
     struct UVFF : FlowFunction<IFDSUninitializedVariables::d_t> {
       const llvm::CallBase *Call;
       const llvm::Instruction *Exit;
-      UVFF(const llvm::CallBase *C, const llvm::Instruction *E)
-          : Call(C), Exit(E) {}
+      const llvm::Value *Zero;
+      UVFF(const llvm::CallBase *C, const llvm::Instruction *E,
+           const llvm::Value *Zero)
+          : Call(C), Exit(E), Zero(Zero) {}
       std::set<IFDSUninitializedVariables::d_t>
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
         std::set<IFDSUninitializedVariables::d_t> Ret;
-        if (Exit->getNumOperands() > 0 && Exit->getOperand(0) == Source) {
+        if (Exit->getNumOperands() > 0 &&
+            (Exit->getOperand(0) == Source ||
+             (Source == Zero &&
+              llvm::isa<llvm::UndefValue>(Exit->getOperand(0))))) {
           Ret.insert(Call);
         }
         //----------------------------------------------------------------------
@@ -339,7 +351,7 @@ IFDSUninitializedVariables::getRetFlowFunction(
         return Ret;
       }
     };
-    return std::make_shared<UVFF>(CS, ExitStmt);
+    return std::make_shared<UVFF>(CS, ExitStmt, getZeroValue());
   }
   // kill everything else
   return killAllFlows();
-- 
2.43.0


From 267486cf83f0e5063872b3ce8db7099ebde35964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 56/74] fix: IFDSUninitializedVariables loses uninitialized
 global variables at calls

---
 .../IfdsIde/Problems/IFDSUninitializedVariables.cpp      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 2ad31d3..062105c 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -257,6 +257,10 @@ IFDSUninitializedVariables::getCallFlowFunction(
               Res.insert(Formals[Idx]);
             }
           }
+          // global variables are visible in the callee, too
+          if (llvm::isa<llvm::GlobalVariable>(Source)) {
+            Res.insert(Source);
+          }
           return Res;
         }
 
@@ -347,6 +351,11 @@ IFDSUninitializedVariables::getRetFlowFunction(
           I++;
         }
 
+        // global variables are still visible in the caller
+        if (Source != Zero && llvm::isa<llvm::GlobalVariable>(Source)) {
+          Ret.insert(Source);
+        }
+
         // kill all other facts
         return Ret;
       }
-- 
2.43.0


From 1ec72835cf009da4e1c4eb13f0100972f21082ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:55 +0000
Subject: [PATCH 57/74] fix: IntraMonoFullConstantPropagation keeps the old
 constant of a variable that is overwritten with an unknown value

---
 .../Mono/Problems/IntraMonoFullConstantPropagation.cpp         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp b/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp
index 41aeb91..9d3a99c 100644
--- a/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp
+++ b/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp
@@ -127,6 +127,9 @@ IntraMonoFullConstantPropagation::normalFlow(
           Out[Store->getPointerOperand()] = LatticeVal;
           return Out;
         }
+      } else if (In.count(Store->getPointerOperand())) {
+        // The stored value is unknown, so the variable's old value is gone
+        Out[Store->getPointerOperand()] = Bottom{};
       }
     }
   }
-- 
2.43.0


From 6230522b254c420e8f809fa78aff82c4d1de70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:44 +0000
Subject: [PATCH 58/74] fix: IntraMonoFullConstantPropagation evaluates
 unsigned division as signed and overflows

---
 .../IntraMonoFullConstantPropagation.cpp      | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp b/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp
index 9d3a99c..40bcfe5 100644
--- a/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp
+++ b/lib/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.cpp
@@ -21,9 +21,11 @@
 #include "llvm/IR/Instruction.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Value.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 #include <algorithm>
+#include <limits>
 #include <ostream>
 #include <utility>
 
@@ -194,31 +196,43 @@ IntraMonoFullConstantPropagation::executeBinOperation(
     IntraMonoFullConstantPropagation::plain_d_t Rop) {
   // default initialize with BOTTOM (all information)
   LatticeDomain<IntraMonoFullConstantPropagation::plain_d_t> Res = Bottom{};
+  plain_d_t Val{};
   switch (Op) {
   case llvm::Instruction::Add:
-    Res = Lop + Rop;
+    if (!llvm::AddOverflow(Lop, Rop, Val)) {
+      Res = Val;
+    }
     break;
 
   case llvm::Instruction::Sub:
-    Res = Lop - Rop;
+    if (!llvm::SubOverflow(Lop, Rop, Val)) {
+      Res = Val;
+    }
     break;
 
   case llvm::Instruction::Mul:
-    Res = Lop * Rop;
-    break;
-
-  case llvm::Instruction::UDiv:
-  case llvm::Instruction::SDiv:
-    if (Rop != 0) {
-      Res = Lop / Rop;
+    if (!llvm::MulOverflow(Lop, Rop, Val)) {
+      Res = Val;
     }
     break;
 
+  case llvm::Instruction::UDiv:
   case llvm::Instruction::URem:
+    // The operands are sign-extended, so the unsigned value of a negative
+    // operand depends on the type's width, which we do not know here
+    if (Lop < 0 || Rop < 0) {
+      break;
+    }
+    [[fallthrough]];
+  case llvm::Instruction::SDiv:
   case llvm::Instruction::SRem:
-    if (Rop != 0) {
-      Res = Lop % Rop;
+    if (Rop == 0 ||
+        (Rop == -1 && Lop == std::numeric_limits<plain_d_t>::min())) {
+      break;
     }
+    Res = Op == llvm::Instruction::UDiv || Op == llvm::Instruction::SDiv
+              ? Lop / Rop
+              : Lop % Rop;
     break;
 
   default:
-- 
2.43.0


From 0980ceea369fcab74198e4c85d2f9d3acf5918d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:59 +0000
Subject: [PATCH 59/74] fix: IDETypeStateAnalysis loses the state of a
 parameter that is passed on to another function

---
 .../DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
index 4580fda..5d8b3c3 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
@@ -170,6 +170,14 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
       for (const auto *Fact : Res) {
         const auto &Allocas = getRelevantAllocas(Fact);
         RelAllocas.insert(Allocas.begin(), Allocas.end());
+        // The caller may have received the object as a parameter itself
+        for (const auto *Alias : getWMAliasSet(Fact)) {
+          const auto *Arg = llvm::dyn_cast<llvm::Argument>(Alias);
+          if (Arg && Arg->getParent() == CS->getFunction() &&
+              hasMatchingType(Arg)) {
+            RelAllocas.insert(Arg);
+          }
+        }
       }
       Res.insert(RelAllocas.begin(), RelAllocas.end());
     }
-- 
2.43.0


From ac7e4ccbe7352b073db15e3ec9574d1b61bec906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:34 +0000
Subject: [PATCH 60/74] fix: llvmIRToString prints <badref> for local values
 after a function was printed

---
 lib/PhasarLLVM/Utils/LLVMShorthands.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
index 6fe7117..c88866f 100644
--- a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
@@ -155,6 +155,16 @@ llvm::ModuleSlotTracker &psr::getModuleSlotTrackerFor(const llvm::Value *V) {
   return ModulesToSlotTracker::getSlotTrackerForModule(M);
 }
 
+static void printWithCachedSlots(llvm::raw_ostream &OS, const llvm::Value *V) {
+  if (llvm::isa<llvm::Function>(V)) {
+    // Printing a function clears the slots of the function that the cached
+    // tracker has currently loaded, without letting the tracker know
+    V->print(OS);
+    return;
+  }
+  V->print(OS, getModuleSlotTrackerFor(V));
+}
+
 std::string psr::llvmIRToString(const llvm::Value *V) {
   if (!V) {
     return "<null>";
@@ -162,7 +172,7 @@ std::string psr::llvmIRToString(const llvm::Value *V) {
 
   std::string IRBuffer;
   llvm::raw_string_ostream RSO(IRBuffer);
-  V->print(RSO, getModuleSlotTrackerFor(V));
+  printWithCachedSlots(RSO, V);
   RSO << " | ID: " << getMetaDataID(V);
   RSO.flush();
   return llvm::StringRef(IRBuffer).ltrim().str();
@@ -174,7 +184,7 @@ std::string psr::llvmIRToStableString(const llvm::Value *V) {
   }
   std::string IRBuffer;
   llvm::raw_string_ostream RSO(IRBuffer);
-  V->print(RSO, getModuleSlotTrackerFor(V));
+  printWithCachedSlots(RSO, V);
   RSO.flush();
 
   auto IRBufferRef = llvm::StringRef(IRBuffer).ltrim();
@@ -207,7 +217,7 @@ std::string psr::llvmIRToShortString(const llvm::Value *V) {
   } else if (const auto *F = llvm::dyn_cast<llvm::Function>(V)) {
     RSO << F->getName();
   } else {
-    V->print(RSO, getModuleSlotTrackerFor(V));
+    printWithCachedSlots(RSO, V);
   }
   RSO << " | ID: " << getMetaDataID(V);
   RSO.flush();
-- 
2.43.0


From 03ec430235fe0037c99bbf383b15dd1ab7049319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:11 +0000
Subject: [PATCH 61/74] fix: taint configurations with several struct members
 applied all categories to the first member

---
 .../TaintConfig/LLVMTaintConfig.cpp           | 39 +++++++------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index c7465cd..e759cd1 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -16,6 +16,7 @@
 #include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
 #include "phasar/Utils/Logger.h"
 
+#include "llvm/ADT/StringSet.h"
 #include "llvm/BinaryFormat/Dwarf.h"
 #include "llvm/IR/DebugInfo.h"
 #include "llvm/IR/Function.h"
@@ -128,29 +129,21 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
 
   // handle variables
   // scope can be a function name or a struct.
-  std::unordered_map<const llvm::Type *, const std::string> StructConfigMap;
-
-  // read all struct types from config
-  for (const auto &VarDesc : Config.Variables) {
+  llvm::StringSet<> StructNames;
+  if (!Config.Variables.empty()) {
     llvm::DebugInfoFinder DIF;
-    const auto *M = Code.getModule();
-
-    DIF.processModule(*M);
+    DIF.processModule(*Code.getModule());
     for (const auto &Ty : DIF.types()) {
-      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type &&
-          Ty->getName().equals(VarDesc.Scope)) {
-        for (const auto &LlvmStructTy : M->getIdentifiedStructTypes()) {
-          StructConfigMap.insert(
-              std::pair<const llvm::Type *, const std::string>(LlvmStructTy,
-                                                               VarDesc.Name));
-        }
+      if (Ty->getTag() == llvm::dwarf::DW_TAG_structure_type) {
+        StructNames.insert(Ty->getName());
       }
     }
-    DIF.reset();
   }
+
   // add corresponding Allocas or getElementPtr instructions to the taint
   // category
   for (const auto &VarDesc : Config.Variables) {
+    const bool IsStructMember = StructNames.count(VarDesc.Scope);
     for (const auto &Fun : Code.getAllFunctions()) {
       for (const auto &I : llvm::instructions(Fun)) {
         if (const auto *DbgDeclare = llvm::dyn_cast<llvm::DbgDeclareInst>(&I)) {
@@ -160,19 +153,17 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &Code,
               LocalVar->getLine() == VarDesc.Line) {
             addTaintCategory(DbgDeclare->getAddress(), VarDesc.Cat);
           }
-        } else if (!StructConfigMap.empty()) {
+        } else if (IsStructMember) {
           // Ignorning line numbers for getElementPtr instructions
           if (const auto *Gep = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) {
             const auto *StType =
                 llvm::dyn_cast<llvm::StructType>(Gep->getSourceElementType());
-            if (StType && StructConfigMap.count(StType)) {
-              auto VarName = StructConfigMap.at(StType);
-              // using substr to cover the edge case in which same variable
-              // name is present as a local variable and also as a struct
-              // member variable. (Ex. JsonConfig/fun_member_02.cpp)
-              if (Gep->getName().substr(0, VarName.size()).equals(VarName)) {
-                addTaintCategory(Gep, VarDesc.Cat);
-              }
+            // using startswith to cover the edge case in which same variable
+            // name is present as a local variable and also as a struct
+            // member variable. (Ex. JsonConfig/fun_member_02.cpp)
+            if (StType && StType->hasName() &&
+                Gep->getName().startswith(VarDesc.Name)) {
+              addTaintCategory(Gep, VarDesc.Cat);
             }
           }
         }
-- 
2.43.0


From 25e59a7467952463d3b642ec24ef86b47f08224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:11 +0000
Subject: [PATCH 62/74] fix: taint configurations crashed on functions that
 only exist in the debug info

---
 lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index e759cd1..ca87cdb 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -38,7 +38,10 @@ findAllFunctionDefs(const LLVMProjectIRDB &IRDB, llvm::StringRef Name) {
     if (SubProgram->isDistinct() && !SubProgram->getLinkageName().empty() &&
         (SubProgram->getName() == Name ||
          SubProgram->getLinkageName() == Name)) {
-      FnDefs.push_back(IRDB.getFunction(SubProgram->getLinkageName()));
+      // The function may have been inlined and removed from the module
+      if (const auto *F = IRDB.getFunction(SubProgram->getLinkageName())) {
+        FnDefs.push_back(F);
+      }
     }
   }
   DIF.reset();
-- 
2.43.0


From 33ab8b7baccd3b24fdfca2b62c11b6f0a3c2d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:11 +0000
Subject: [PATCH 63/74] fix: annotated variables of character type, and
 annotated global variables, crashed the taint configuration

---
 .../TaintConfig/LLVMTaintConfig.cpp           |  4 ++++
 lib/PhasarLLVM/Utils/Annotation.cpp           | 19 ++++++++++---------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index ca87cdb..65bf713 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -204,6 +204,10 @@ LLVMTaintConfig::LLVMTaintConfig(const psr::LLVMProjectIRDB &AnnotatedCode) {
             // get annotation string an remove prefix "psr."
             auto AnnotationStr = A.getAnnotationString().substr(4);
             const auto *Fun = A.getFunction();
+            if (!Fun) {
+              // annotated global variable
+              continue;
+            }
             for (const auto &User : Fun->users()) {
               if (llvm::isa<llvm::CallBase>(User)) {
                 addTaintCategory(User, AnnotationStr);
diff --git a/lib/PhasarLLVM/Utils/Annotation.cpp b/lib/PhasarLLVM/Utils/Annotation.cpp
index 07b5127..3f1ef42 100644
--- a/lib/PhasarLLVM/Utils/Annotation.cpp
+++ b/lib/PhasarLLVM/Utils/Annotation.cpp
@@ -75,20 +75,21 @@ llvm::StringRef VarAnnotation::retrieveString(unsigned Idx) const {
 const llvm::Value *VarAnnotation::getOriginalValueOrOriginalArg(
     const llvm::Value *AnnotatedValue) {
 
+  // the annotated value is only casted, if it is not an i8* anyway
+  const auto *Value = AnnotatedValue;
   if (const auto *BitCast =
           llvm::dyn_cast<llvm::BitCastOperator>(AnnotatedValue)) {
     // this may be already the original value
-    const auto *Value = BitCast->getOperand(0);
-    // check if that values originates from a formal parameter
-    for (const auto &User : Value->users()) {
-      if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
-          Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
-        return Store->getValueOperand();
-      }
+    Value = BitCast->getOperand(0);
+  }
+  // check if that values originates from a formal parameter
+  for (const auto &User : Value->users()) {
+    if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(User);
+        Store && llvm::isa<llvm::Argument>(Store->getValueOperand())) {
+      return Store->getValueOperand();
     }
-    return Value;
   }
-  return nullptr;
+  return Value;
 }
 
 GlobalAnnotation::GlobalAnnotation(
-- 
2.43.0


From b41dce7b9f6750bd12017a367a6f1f74643ba128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:32 +0000
Subject: [PATCH 64/74] fix: taint configurations read past the arguments of
 calls with less arguments than the callee has parameters

---
 .../TaintConfig/LLVMTaintConfig.cpp           | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
index 65bf713..2a5bdcd 100644
--- a/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
+++ b/lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp
@@ -299,6 +299,24 @@ void LLVMTaintConfig::addTaintCategory(const llvm::Value *Val,
 // --- TaintConfigBase API function implementations
 //
 
+/// Calls Handler for all actual arguments of the call Inst, whose formal
+/// parameter in Callee is contained in Values. There may be less actuals than
+/// formals, if a function is called through a casted pointer.
+static void forAllArgumentsIn(
+    const llvm::Instruction *Inst, const llvm::Function *Callee,
+    const std::unordered_set<const llvm::Value *> &Values,
+    llvm::function_ref<void(const llvm::Value *)> Handler) {
+  const auto *CS = llvm::cast<llvm::CallBase>(Inst);
+  for (const auto &Arg : Callee->args()) {
+    if (Arg.getArgNo() >= CS->arg_size()) {
+      break;
+    }
+    if (Values.count(&Arg)) {
+      Handler(CS->getArgOperand(Arg.getArgNo()));
+    }
+  }
+}
+
 bool LLVMTaintConfig::isSourceImpl(const llvm::Value *V) const {
   return SourceValues.count(V);
 }
@@ -322,11 +340,7 @@ void LLVMTaintConfig::forAllGeneratedValuesAtImpl(
   }
 
   if (Callee) {
-    for (const auto &Arg : Callee->args()) {
-      if (SourceValues.count(&Arg)) {
-        Handler(Inst->getOperand(Arg.getArgNo()));
-      }
-    }
+    forAllArgumentsIn(Inst, Callee, SourceValues, Handler);
   } else {
     /// If we have a call to a source function, we would generate via formal
     /// parameter instead via actual argument.
@@ -357,11 +371,7 @@ void LLVMTaintConfig::forAllLeakCandidatesAtImpl(
   }
 
   if (Callee) {
-    for (const auto &Arg : Callee->args()) {
-      if (SinkValues.count(&Arg)) {
-        Handler(Inst->getOperand(Arg.getArgNo()));
-      }
-    }
+    forAllArgumentsIn(Inst, Callee, SinkValues, Handler);
   }
 
   // Do not iterate over the actual paramaters of Inst as we did in
@@ -383,11 +393,7 @@ void LLVMTaintConfig::forAllSanitizedValuesAtImpl(
   }
 
   if (Callee) {
-    for (const auto &Arg : Callee->args()) {
-      if (SanitizerValues.count(&Arg)) {
-        Handler(Inst->getOperand(Arg.getArgNo()));
-      }
-    }
+    forAllArgumentsIn(Inst, Callee, SanitizerValues, Handler);
   }
 }
 
-- 
2.43.0


From e8a3bddfe3d8e686295e9dad9a8dcc908cec4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:46 +0000
Subject: [PATCH 65/74] fix: SourceCodeInfo lost its function name on the way
 through JSON

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 01dd076..57f98c5 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -307,7 +307,7 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
 void psr::from_json(const nlohmann::json &J, SourceCodeInfo &Info) {
   J.at("sourceCodeLine").get_to(Info.SourceCodeLine);
   J.at("sourceCodeFileName").get_to(Info.SourceCodeFilename);
-  if (auto Fn = J.find("sourceCode"); Fn != J.end()) {
+  if (auto Fn = J.find("sourceCodeFunctionName"); Fn != J.end()) {
     Fn->get_to(Info.SourceCodeFunctionName);
   }
   J.at("line").get_to(Info.Line);
-- 
2.43.0


From 046d980e08b89d4913d3d6cc541706f30f59f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:46 +0000
Subject: [PATCH 66/74] fix: the file of instructions that are used by
 metadata, but have no variable, was not found

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 57f98c5..c81a2b0 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -184,7 +184,8 @@ const llvm::DIFile *psr::getDIFileFromIR(const llvm::Value *V) {
       if (auto *LocVar = getDILocalVariable(I)) {
         return LocVar->getFile();
       }
-    } else if (I->getMetadata(llvm::LLVMContext::MD_dbg)) {
+    }
+    if (I->getMetadata(llvm::LLVMContext::MD_dbg)) {
       return I->getDebugLoc()->getFile();
     }
   }
-- 
2.43.0


From 1f3f649ecbf3ae408acefa33b5c9f91d7eea4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:46 +0000
Subject: [PATCH 67/74] fix: getSrcCodeFromIR threw an exception for paths that
 cannot be looked up

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index c81a2b0..8978218 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -246,7 +246,9 @@ std::string psr::getSrcCodeFromIR(const llvm::Value *V, bool Trim) {
   unsigned int LineNr = getLineFromIR(V);
   if (LineNr > 0) {
     std::filesystem::path Path(getFilePathFromIR(V));
-    if (std::filesystem::exists(Path) && !std::filesystem::is_directory(Path)) {
+    std::error_code EC;
+    if (std::filesystem::exists(Path, EC) &&
+        !std::filesystem::is_directory(Path, EC)) {
       std::ifstream Ifs(Path.string(), std::ios::binary);
       if (Ifs.is_open()) {
         Ifs.seekg(std::ios::beg);
-- 
2.43.0


From bc4f733b0e10e8833a7c7723633e0a05ee794389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:46 +0000
Subject: [PATCH 68/74] fix: SourceCodeInfo::equivalentWith accepted other
 files with similar names

---
 lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
index 8978218..1b2b63d 100644
--- a/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMIRToSrc.cpp
@@ -296,15 +296,8 @@ bool SourceCodeInfo::equivalentWith(const SourceCodeInfo &Other) const {
     return false;
   }
 
-  auto Pos = SourceCodeFilename.find_last_of(
-      std::filesystem::path::preferred_separator);
-  if (Pos == std::string::npos) {
-    Pos = 0;
-  }
-
-  return llvm::StringRef(Other.SourceCodeFilename)
-      .endswith(llvm::StringRef(SourceCodeFilename)
-                    .slice(Pos + 1, llvm::StringRef::npos));
+  return llvm::sys::path::filename(SourceCodeFilename) ==
+         llvm::sys::path::filename(Other.SourceCodeFilename);
 }
 
 void psr::from_json(const nlohmann::json &J, SourceCodeInfo &Info) {
-- 
2.43.0


From cfc404eddbeb7f257bd4c5c9816ef75390536c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:46 +0000
Subject: [PATCH 69/74] fix: LLVMSourceManager crashed on functions without a
 file

---
 lib/PhasarLLVM/Utils/LLVMSourceManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PhasarLLVM/Utils/LLVMSourceManager.cpp b/lib/PhasarLLVM/Utils/LLVMSourceManager.cpp
index dba8f48..291fd7d 100644
--- a/lib/PhasarLLVM/Utils/LLVMSourceManager.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMSourceManager.cpp
@@ -13,6 +13,10 @@ static std::optional<unsigned>
 getSourceBufId(const llvm::DIFile *File,
                llvm::DenseMap<const llvm::DIFile *, unsigned> &FileIdMap,
                llvm::SourceMgr &SrcMgr) {
+  if (!File) {
+    return std::nullopt;
+  }
+
   if (auto It = FileIdMap.find(File); It != FileIdMap.end()) {
     return It->second;
   }
-- 
2.43.0


From 73c1632430d264b8c4096441fb9a0a136c587a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:13 +0000
Subject: [PATCH 70/74] fix: Hexastore queries for the predicates between a
 subject and an object missed entries

---
 lib/DB/Queries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DB/Queries.cpp b/lib/DB/Queries.cpp
index 671a9db..d80c10b 100644
--- a/lib/DB/Queries.cpp
+++ b/lib/DB/Queries.cpp
@@ -110,7 +110,7 @@ const string SearchSXO =
     "select sop_subject.name, sop_predicate.name, sop_object.name from "
     "sop_subject "
     "inner join sop_object on sop_subject.id=sop_object.sid "
-    "inner join sop_predicate on sop_object.id=sop_predicate.id and "
+    "inner join sop_predicate on sop_object.id=sop_predicate.oid and "
     "sop_subject.id=sop_predicate.sid "
     "where sop_subject.name=\"%1%\" and sop_object.name=\"%3%\";";
 
-- 
2.43.0


From e314fac2f5ca689b4b7178750373b2263533fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:13 +0000
Subject: [PATCH 71/74] fix: Hexastore lost or mixed up nodes whose names
 contain quotes or equal an SQL column

---
 lib/DB/Hexastore.cpp | 21 ++++++++++--
 lib/DB/Queries.cpp   | 80 ++++++++++++++++++++++----------------------
 2 files changed, 58 insertions(+), 43 deletions(-)

diff --git a/lib/DB/Hexastore.cpp b/lib/DB/Hexastore.cpp
index a912b46..e577b3f 100644
--- a/lib/DB/Hexastore.cpp
+++ b/lib/DB/Hexastore.cpp
@@ -37,6 +37,19 @@ int Hexastore::callback(void * /*NotUsed*/, int Argc, char **Argv,
   return 0;
 }
 
+/// Escapes the given string for the use within an SQL string literal
+static std::string escapeSQL(const std::string &Str) {
+  std::string Ret;
+  Ret.reserve(Str.size());
+  for (char Chr : Str) {
+    if (Chr == '\'') {
+      Ret += Chr;
+    }
+    Ret += Chr;
+  }
+  return Ret;
+}
+
 void Hexastore::put(const std::array<std::string, 3> &Edge) {
   doPut(SPOInsert, Edge);
   doPut(SOPInsert, Edge);
@@ -49,7 +62,8 @@ void Hexastore::put(const std::array<std::string, 3> &Edge) {
 void Hexastore::doPut(const std::string &Query,
                       std::array<std::string, 3> Edge) {
   std::string CompiledQuery =
-      str(boost::format(Query) % Edge[0] % Edge[1] % Edge[2]);
+      str(boost::format(Query) % escapeSQL(Edge[0]) % escapeSQL(Edge[1]) %
+          escapeSQL(Edge[2]));
   char *Err;
   sqlite3_exec(HSInternalDB, CompiledQuery.c_str(), callback, nullptr, &Err);
   if (Err != nullptr) {
@@ -91,8 +105,9 @@ std::vector<HSResult> Hexastore::get(std::array<std::string, 3> EdgeQuery,
       }
     }
   }
-  std::string CompiledQuery = str(boost::format(QueryString) % EdgeQuery[0] %
-                                  EdgeQuery[1] % EdgeQuery[2]);
+  std::string CompiledQuery =
+      str(boost::format(QueryString) % escapeSQL(EdgeQuery[0]) %
+          escapeSQL(EdgeQuery[1]) % escapeSQL(EdgeQuery[2]));
   // this lambda will collect all of our results, since it is called on every
   // row of the result set
   auto SqliteCBResultCollector = [](void *CB, int /*Argc*/, char **Argv,
diff --git a/lib/DB/Queries.cpp b/lib/DB/Queries.cpp
index d80c10b..01147a2 100644
--- a/lib/DB/Queries.cpp
+++ b/lib/DB/Queries.cpp
@@ -16,86 +16,86 @@ namespace psr {
 
 const string SPOInsert =
     "insert or ignore into spo_subject (name) "
-    "values (\"%1%\");"
+    "values ('%1%');"
 
     "insert or ignore into spo_predicate (name, sid) "
-    "values (\"%2%\", (select id from spo_subject where name=\"%1%\"));"
+    "values ('%2%', (select id from spo_subject where name='%1%'));"
 
     "insert or ignore into spo_object (name, sid, pid) "
-    "values (\"%3%\", (select id from spo_subject where name=\"%1%\"), "
-    "(select id from spo_predicate where name=\"%2%\" and sid=(select id from "
-    "spo_subject where name=\"%1%\")));";
+    "values ('%3%', (select id from spo_subject where name='%1%'), "
+    "(select id from spo_predicate where name='%2%' and sid=(select id from "
+    "spo_subject where name='%1%')));";
 
 const string SOPInsert =
     "insert or ignore into sop_subject (name) "
-    "values (\"%1%\");"
+    "values ('%1%');"
 
     "insert or ignore into sop_object (name, sid) "
-    "values (\"%3%\", (select id from sop_subject where name=\"%1%\"));"
+    "values ('%3%', (select id from sop_subject where name='%1%'));"
 
     "insert or ignore into sop_predicate (name, sid, oid) "
-    "values (\"%2%\", (select id from sop_subject where name=\"%1%\"), "
-    "(select id from sop_object where name=\"%3%\" and sid=(select id from "
-    "sop_subject where name=\"%1%\")));";
+    "values ('%2%', (select id from sop_subject where name='%1%'), "
+    "(select id from sop_object where name='%3%' and sid=(select id from "
+    "sop_subject where name='%1%')));";
 
 const string PSOInsert =
     "insert or ignore into pso_predicate (name) "
-    "values (\"%2%\");"
+    "values ('%2%');"
 
     "insert or ignore into pso_subject (name, pid) "
-    "values (\"%1%\", (select id from pso_predicate where name=\"%2%\"));"
+    "values ('%1%', (select id from pso_predicate where name='%2%'));"
 
     "insert or ignore into pso_object (name, pid, sid) "
-    "values (\"%3%\", (select id from pso_predicate where name=\"%2%\"), "
-    "(select id from pso_subject where name=\"%1%\" and pid=(select id from "
-    "pso_predicate where name=\"%2%\")));";
+    "values ('%3%', (select id from pso_predicate where name='%2%'), "
+    "(select id from pso_subject where name='%1%' and pid=(select id from "
+    "pso_predicate where name='%2%')));";
 
 const string POSInsert =
     "insert or ignore into pos_predicate (name) "
-    "values (\"%2%\");"
+    "values ('%2%');"
 
     "insert or ignore into pos_object (name, pid) "
-    "values (\"%3%\", (select id from pos_predicate where name=\"%2%\"));"
+    "values ('%3%', (select id from pos_predicate where name='%2%'));"
 
     "insert or ignore into pos_subject (name, oid, pid) "
-    "values (\"%1%\", (select id from pos_object where pos_object.name=\"%3%\" "
+    "values ('%1%', (select id from pos_object where pos_object.name='%3%' "
     "and "
-    "pos_object.pid=(select id from pos_predicate where name=\"%2%\")), "
-    "(select pid from pos_object where name=\"%3%\" and pid=(select id from "
-    "pos_predicate where name=\"%2%\")));";
+    "pos_object.pid=(select id from pos_predicate where name='%2%')), "
+    "(select pid from pos_object where name='%3%' and pid=(select id from "
+    "pos_predicate where name='%2%')));";
 
 const string OSPInsert =
     "insert or ignore into osp_object (name) "
-    "values (\"%3%\");"
+    "values ('%3%');"
 
     "insert or ignore into osp_subject (name, oid) "
-    "values (\"%1%\", (select id from osp_object where name=\"%3%\"));"
+    "values ('%1%', (select id from osp_object where name='%3%'));"
 
     "insert or ignore into osp_predicate (name, sid, oid) "
-    "values (\"%2%\", (select id from osp_subject where name=\"%1%\" and "
-    "oid=(select id from osp_object where name=\"%3%\")), "
-    "(select id from osp_object where name=\"%3%\" and oid=(select id from "
-    "osp_object where name=\"%3%\")));";
+    "values ('%2%', (select id from osp_subject where name='%1%' and "
+    "oid=(select id from osp_object where name='%3%')), "
+    "(select id from osp_object where name='%3%' and oid=(select id from "
+    "osp_object where name='%3%')));";
 
 const string OPSInsert =
     "insert or ignore into ops_object (name) "
-    "values (\"%3%\");"
+    "values ('%3%');"
 
     "insert or ignore into ops_predicate (name, oid) "
-    "values (\"%2%\", (select id from ops_object where name=\"%3%\"));"
+    "values ('%2%', (select id from ops_object where name='%3%'));"
 
     "insert or ignore into ops_subject (name, pid, oid) "
-    "values (\"%1%\", (select id from ops_predicate where name=\"%2%\"), "
-    "(select id from pos_object where name=\"%3%\" and oid=(select id from "
-    "osp_object where name=\"%3%\")));";
+    "values ('%1%', (select id from ops_predicate where name='%2%'), "
+    "(select id from pos_object where name='%3%' and oid=(select id from "
+    "osp_object where name='%3%')));";
 
 const string SearchSPO =
     "select spo_subject.name, spo_predicate.name, spo_object.name from "
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\" and spo_predicate.name=\"%2%\" and "
-    "spo_object.name=\"%3%\";";
+    "where spo_subject.name='%1%' and spo_predicate.name='%2%' and "
+    "spo_object.name='%3%';";
 
 const string SearchSPX =
     "-- %3%\n"
@@ -103,7 +103,7 @@ const string SearchSPX =
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\" and spo_predicate.name=\"%2%\";";
+    "where spo_subject.name='%1%' and spo_predicate.name='%2%';";
 
 const string SearchSXO =
     "-- %2%\n"
@@ -112,7 +112,7 @@ const string SearchSXO =
     "inner join sop_object on sop_subject.id=sop_object.sid "
     "inner join sop_predicate on sop_object.id=sop_predicate.oid and "
     "sop_subject.id=sop_predicate.sid "
-    "where sop_subject.name=\"%1%\" and sop_object.name=\"%3%\";";
+    "where sop_subject.name='%1%' and sop_object.name='%3%';";
 
 const string SearchXPO =
     "-- %1%\n"
@@ -121,7 +121,7 @@ const string SearchXPO =
     "inner join pos_object on pos_object.pid=pos_predicate.id "
     "inner join pos_subject on pos_subject.pid=pos_predicate.id and "
     "pos_subject.oid=pos_object.id "
-    "where pos_predicate.name=\"%2%\" and pos_object.name=\"%3%\";";
+    "where pos_predicate.name='%2%' and pos_object.name='%3%';";
 
 const string SearchSXX =
     "-- %2%%3%\n"
@@ -129,7 +129,7 @@ const string SearchSXX =
     "spo_subject inner join spo_predicate on spo_subject.id=spo_predicate.sid "
     "inner join spo_object on spo_predicate.id=spo_object.pid and "
     "spo_subject.id=spo_object.sid "
-    "where spo_subject.name=\"%1%\";";
+    "where spo_subject.name='%1%';";
 
 const string SearchXPX =
     "-- %1%%3%\n"
@@ -137,7 +137,7 @@ const string SearchXPX =
     "pso_predicate inner join pso_subject on pso_predicate.id=pso_subject.pid "
     "inner join pso_object on pso_predicate.id=pso_object.pid and "
     "pso_subject.id=pso_object.sid "
-    "where pso_predicate.name=\"%2%\";";
+    "where pso_predicate.name='%2%';";
 
 const string SearchXXO =
     "-- %1%%2%\n"
@@ -145,7 +145,7 @@ const string SearchXXO =
     "osp_object inner join osp_subject on osp_object.id=osp_subject.oid "
     "inner join osp_predicate on osp_subject.id=osp_predicate.sid and "
     "osp_object.id=osp_predicate.oid "
-    "where osp_object.name=\"%3%\";";
+    "where osp_object.name='%3%';";
 
 const string SearchXXX =
     "-- %1%%2%%3%\n"
-- 
2.43.0


From 9a943184844e63203726658cf5bf1cd6c4fa795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 72/74] fix: the maxima in the general statistics counted new
 records instead of keeping the maximum

---
 lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
index ed64e47..76e2803 100644
--- a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
+++ b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
@@ -94,10 +94,10 @@ GeneralStatistics GeneralStatisticsAnalysis::runOnModule(llvm::Module &M) {
         Stats.TotalNumPredecessorBBs += PredSize;
         Stats.TotalNumSuccessorBBs += SuccSize;
         if (PredSize > Stats.MaxNumPredecessorBBs) {
-          ++Stats.MaxNumPredecessorBBs;
+          Stats.MaxNumPredecessorBBs = PredSize;
         }
         if (SuccSize > Stats.MaxNumSuccessorBBs) {
-          ++Stats.MaxNumSuccessorBBs;
+          Stats.MaxNumSuccessorBBs = SuccSize;
         }
       }
 
@@ -111,10 +111,10 @@ GeneralStatistics GeneralStatisticsAnalysis::runOnModule(llvm::Module &M) {
           Stats.TotalNumOperands += NumOps;
           Stats.TotalNumUses += NumUses;
           if (NumOps > Stats.MaxNumOperands) {
-            ++Stats.MaxNumOperands;
+            Stats.MaxNumOperands = NumOps;
           }
           if (NumUses > Stats.MaxNumUses) {
-            ++Stats.MaxNumUses;
+            Stats.MaxNumUses = NumUses;
           }
           if (NumUses > 1) {
             ++Stats.NumInstWithMultipleUses;
-- 
2.43.0


From dc37739ac7a12efa515814dceec63c453eed89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 73/74] fix: GeneralStatisticsAnalysis added up the numbers of
 all modules it was run on

---
 lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
index 76e2803..b6bf9cb 100644
--- a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
+++ b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
@@ -70,6 +70,7 @@ static void collectAllocatedTypes(const llvm::CallBase *CallSite, Set &Into) {
 llvm::AnalysisKey GeneralStatisticsAnalysis::Key; // NOLINT
 GeneralStatistics GeneralStatisticsAnalysis::runOnModule(llvm::Module &M) {
   PHASAR_LOG_LEVEL(INFO, "Running GeneralStatisticsAnalysis");
+  Stats = {};
   Stats.ModuleName = M.getName().str();
   for (auto &F : M) {
     ++Stats.Functions;
-- 
2.43.0


From c9d3bfdddc8296b3137d7071ac77f6c310e03059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 74/74] fix: general statistics crashed on allocated objects
 passed to functions without fixed parameters

---
 lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
index b6bf9cb..4f37cd3 100644
--- a/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
+++ b/lib/PhasarLLVM/Passes/GeneralStatisticsAnalysis.cpp
@@ -56,6 +56,7 @@ static void collectAllocatedTypes(const llvm::CallBase *CallSite, Set &Into) {
             // potential call to the structures ctor
             const auto *CTor = llvm::cast<llvm::CallBase>(User);
             if (CTor->getCalledFunction() &&
+                CTor->getCalledFunction()->arg_size() != 0 &&
                 CTor->getCalledFunction()->getArg(0)->getType() ==
                     Cast->getDestTy()) {
               Into.insert(ElemTy);
-- 
2.43.0

