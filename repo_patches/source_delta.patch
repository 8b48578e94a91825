From 8ad942283dad4584400df50caca672a1778eec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 01/26] fix: round denormal and zero inputs correctly when both
 formats share an exponent width

__truncsfbf2 treated a denormal or zero float as if it had an implicit
integer bit, so 0.0f converted to the bfloat16 0x0040.
---
 codon/runtime/floatlib/fp_trunc_impl.inc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/codon/runtime/floatlib/fp_trunc_impl.inc b/codon/runtime/floatlib/fp_trunc_impl.inc
index 6662be7..4013411 100644
--- a/codon/runtime/floatlib/fp_trunc_impl.inc
+++ b/codon/runtime/floatlib/fp_trunc_impl.inc
@@ -105,15 +105,21 @@ static __inline dst_t __truncXfYf2__(src_t a) {
     // zero.  The result may be a denormal or zero.  Extract the exponent
     // to get the shift amount for the denormalization.
     const int aExp = aAbs >> srcSigBits;
-    const int shift = srcExpBias - dstExpBias - aExp + 1;
+    int shift = srcExpBias - dstExpBias - aExp;
 
-    const src_rep_t significand = (aRep & srcSignificandMask) | srcMinNormal;
+    src_rep_t significand = aRep & srcSignificandMask;
+    // A normal number has an implicit integer bit; a denormal has none, and
+    // its exponent is that of the smallest normal number.
+    if (aExp) {
+      significand |= srcMinNormal;
+      shift++;
+    }
 
     // Right shift by the denormalization amount with sticky.
     if (shift > srcSigBits) {
       absResult = 0;
     } else {
-      const bool sticky = (significand << (srcBits - shift)) != 0;
+      const bool sticky = shift && (significand << (srcBits - shift)) != 0;
       src_rep_t denormalizedSignificand = significand >> shift | sticky;
       absResult = denormalizedSignificand >> (srcSigBits - dstSigBits);
       const src_rep_t roundBits = denormalizedSignificand & roundMask;
-- 
2.43.0


From e843fbd6fcee0cd1f6c96cc961198dfe3948f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 02/26] fix: widen LEB128 groups before shifting in the
 exception table readers

---
 codon/runtime/exc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codon/runtime/exc.cpp b/codon/runtime/exc.cpp
index dfb6a1f..422d5a4 100644
--- a/codon/runtime/exc.cpp
+++ b/codon/runtime/exc.cpp
@@ -333,7 +333,7 @@ static uintptr_t readULEB128(const uint8_t **data) {
 
   do {
     byte = *p++;
-    result |= (byte & 0x7f) << shift;
+    result |= (uintptr_t)(byte & 0x7f) << shift;
     shift += 7;
   } while (byte & 0x80);
 
@@ -350,14 +350,14 @@ static uintptr_t readSLEB128(const uint8_t **data) {
 
   do {
     byte = *p++;
-    result |= (byte & 0x7f) << shift;
+    result |= (uintptr_t)(byte & 0x7f) << shift;
     shift += 7;
   } while (byte & 0x80);
 
   *data = p;
 
   if ((byte & 0x40) && (shift < (sizeof(result) << 3))) {
-    result |= (~0 << shift);
+    result |= (~(uintptr_t)0 << shift);
   }
 
   return result;
-- 
2.43.0


From 711e25aa61b1e6e464a70a21f7f17d88a06f6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 03/26] fix: keep effects of the operand dropped by
 multiply-by-zero and zero-floor-div folding

---
 codon/cir/transform/folding/const_fold.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 1146d9a..77ef36e 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -100,6 +100,16 @@ auto id_val(Module *m) {
   };
 }
 
+/// Result for rules that discard the other operand altogether, which is only possible
+/// if evaluating that operand has no effects.
+auto zero_val(Module *m) {
+  return [=](Value *v) -> Value * {
+    if (!isA<Const>(v) && !isA<VarValue>(v))
+      return nullptr;
+    return m->N<IntConst>(v->getSrcInfo(), 0, m->getIntType());
+  };
+}
+
 int64_t int_pow(int64_t base, int64_t exp) {
   if (exp < 0)
     return 0;
@@ -225,7 +235,8 @@ void FoldingPass::registerStandardRules(Module *m) {
   // binary, single constant, int->int
   using Kind = SingleConstantCommutativeRule<int64_t>::Kind;
   registerRule("int-multiply-by-zero",
-               intSingleRule(m, 0, 0, Module::MUL_MAGIC_NAME, Kind::COMMUTATIVE));
+               intSingleRule(m, 0, zero_val(m), Module::MUL_MAGIC_NAME,
+                             Kind::COMMUTATIVE));
   registerRule(
       "int-multiply-by-one",
       intSingleRule(m, 1, id_val(m), Module::MUL_MAGIC_NAME, Kind::COMMUTATIVE));
@@ -237,7 +248,8 @@ void FoldingPass::registerStandardRules(Module *m) {
       "int-floor-div-by-one",
       intSingleRule(m, 1, id_val(m), Module::FLOOR_DIV_MAGIC_NAME, Kind::RIGHT));
   registerRule("int-zero-floor-div",
-               intSingleRule(m, 0, 0, Module::FLOOR_DIV_MAGIC_NAME, Kind::LEFT));
+               intSingleRule(m, 0, zero_val(m), Module::FLOOR_DIV_MAGIC_NAME,
+                             Kind::LEFT));
   registerRule("int-pos", intNoOp(m, Module::POS_MAGIC_NAME));
   registerRule("int-double-neg", intDoubleApplyNoOp(m, Module::NEG_MAGIC_NAME));
   registerRule("int-double-inv", intDoubleApplyNoOp(m, Module::INVERT_MAGIC_NAME));
-- 
2.43.0


From ee570b33d10fd42888beb4544488e6ca903239c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 04/26] fix: do not fold 0 // x under Python numerics, where x
 == 0 must raise

---
 codon/cir/transform/folding/const_fold.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 77ef36e..9452af8 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -247,9 +247,12 @@ void FoldingPass::registerStandardRules(Module *m) {
   registerRule(
       "int-floor-div-by-one",
       intSingleRule(m, 1, id_val(m), Module::FLOOR_DIV_MAGIC_NAME, Kind::RIGHT));
-  registerRule("int-zero-floor-div",
-               intSingleRule(m, 0, zero_val(m), Module::FLOOR_DIV_MAGIC_NAME,
-                             Kind::LEFT));
+  // 0 // x raises for x == 0 under Python numerics
+  if (!pyNumerics) {
+    registerRule("int-zero-floor-div",
+                 intSingleRule(m, 0, zero_val(m), Module::FLOOR_DIV_MAGIC_NAME,
+                               Kind::LEFT));
+  }
   registerRule("int-pos", intNoOp(m, Module::POS_MAGIC_NAME));
   registerRule("int-double-neg", intDoubleApplyNoOp(m, Module::NEG_MAGIC_NAME));
   registerRule("int-double-inv", intDoubleApplyNoOp(m, Module::INVERT_MAGIC_NAME));
-- 
2.43.0


From 3b28d23e03d11a7180907654cec88d40af10bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 05/26] fix: do not evaluate the overflowing integer division
 at compile time

---
 codon/cir/transform/folding/const_fold.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/codon/cir/transform/folding/const_fold.cpp b/codon/cir/transform/folding/const_fold.cpp
index 9452af8..30f7051 100644
--- a/codon/cir/transform/folding/const_fold.cpp
+++ b/codon/cir/transform/folding/const_fold.cpp
@@ -3,6 +3,8 @@
 #include "const_fold.h"
 
 #include <cmath>
+#include <limits>
+#include <type_traits>
 #include <utility>
 
 #include "codon/cir/util/cloning.h"
@@ -88,6 +90,13 @@ public:
       auto *rightConst = cast<TemplatedConst<ConstantType>>(v->back());
       if (rightConst && rightConst->getVal() == ConstantType())
         return;
+      // the quotient of the smallest integer and -1 does not exist; dividing traps
+      if constexpr (std::is_integral_v<ConstantType>) {
+        auto *leftConst = cast<TemplatedConst<ConstantType>>(v->front());
+        if (leftConst && rightConst && rightConst->getVal() == ConstantType(-1) &&
+            leftConst->getVal() == std::numeric_limits<ConstantType>::min())
+          return;
+      }
     }
     DoubleConstantBinaryRule<ConstantType, Func, OutputType>::visit(v);
   }
-- 
2.43.0


From e3779e5f0a44de7b9cbb79a448ba45638452c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 06/26] fix: only treat methods as comparison operators when
 reordering comparisons

---
 codon/cir/transform/cleanup/canonical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/transform/cleanup/canonical.cpp b/codon/cir/transform/cleanup/canonical.cpp
index 3f70053..17a4444 100644
--- a/codon/cir/transform/cleanup/canonical.cpp
+++ b/codon/cir/transform/cleanup/canonical.cpp
@@ -79,7 +79,7 @@ bool isInequalityOp(Func *fn) {
   static const std::unordered_set<std::string> ops = {
       Module::EQ_MAGIC_NAME, Module::NE_MAGIC_NAME, Module::LT_MAGIC_NAME,
       Module::LE_MAGIC_NAME, Module::GT_MAGIC_NAME, Module::GE_MAGIC_NAME};
-  return fn && ops.find(fn->getUnmangledName()) != ops.end();
+  return fn && fn->getParentType() && ops.find(fn->getUnmangledName()) != ops.end();
 }
 
 // c + b + a --> a + b + c
-- 
2.43.0


From 107746fd66dccdadb2c94ec787c03b98263592e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 07/26] fix: replace types and variables in try flows with
 catch-all or unnamed handlers

---
 codon/cir/flow.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codon/cir/flow.cpp b/codon/cir/flow.cpp
index 172be5e..56af198 100644
--- a/codon/cir/flow.cpp
+++ b/codon/cir/flow.cpp
@@ -219,7 +219,7 @@ std::vector<types::Type *> TryCatchFlow::doGetUsedTypes() const {
 int TryCatchFlow::doReplaceUsedType(const std::string &name, types::Type *newType) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getType()->getName() == name) {
+    if (c.getType() && c.getType()->getName() == name) {
       c.setType(newType);
       ++count;
     }
@@ -239,7 +239,7 @@ std::vector<Var *> TryCatchFlow::doGetUsedVariables() const {
 int TryCatchFlow::doReplaceUsedVariable(id_t id, Var *newVar) {
   auto count = 0;
   for (auto &c : catches) {
-    if (c.getVar()->getId() == id) {
+    if (c.getVar() && c.getVar()->getId() == id) {
       c.setVar(newVar);
       ++count;
     }
-- 
2.43.0


From 3ebe05a6ad4ae12f67b1703ea2c58f935619614c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 08/26] fix: used types of functions recursed without end and
 missed the parent type of LLVM functions

---
 codon/cir/func.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codon/cir/func.cpp b/codon/cir/func.cpp
index 061f557..f0196ed 100644
--- a/codon/cir/func.cpp
+++ b/codon/cir/func.cpp
@@ -61,7 +61,7 @@ int Func::doReplaceUsedVariable(id_t id, Var *newVar) {
 std::vector<types::Type *> Func::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Var::getUsedTypes())
+  for (auto *t : Var::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   if (parentType)
@@ -71,7 +71,7 @@ std::vector<types::Type *> Func::doGetUsedTypes() const {
 }
 
 int Func::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::replaceUsedType(name, newType);
+  auto count = Var::doReplaceUsedType(name, newType);
   if (parentType && parentType->getName() == name) {
     parentType = newType;
     ++count;
@@ -110,7 +110,7 @@ const char LLVMFunc::NodeId = 0;
 std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
   std::vector<types::Type *> ret;
 
-  for (auto *t : Func::getUsedTypes())
+  for (auto *t : Func::doGetUsedTypes())
     ret.push_back(const_cast<types::Type *>(t));
 
   for (auto &l : llvmLiterals)
@@ -121,7 +121,7 @@ std::vector<types::Type *> LLVMFunc::doGetUsedTypes() const {
 }
 
 int LLVMFunc::doReplaceUsedType(const std::string &name, types::Type *newType) {
-  auto count = Var::doReplaceUsedType(name, newType);
+  auto count = Func::doReplaceUsedType(name, newType);
   for (auto &l : llvmLiterals)
     if (l.isType() && l.getTypeValue()->getName() == name) {
       l = newType;
-- 
2.43.0


From 478657c89ced01c58e7ec3eabc7a781a00a9b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 09/26] fix: operand queries of a replaced variable must act on
 its replacement

---
 codon/cir/var.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codon/cir/var.h b/codon/cir/var.h
index aece4e5..bb58a4a 100644
--- a/codon/cir/var.h
+++ b/codon/cir/var.h
@@ -50,7 +50,7 @@ public:
     return std::vector<const Value *>(ret.begin(), ret.end());
   }
   int replaceUsedValue(id_t id, Value *newValue) final {
-    return doReplaceUsedValue(id, newValue);
+    return getActual()->doReplaceUsedValue(id, newValue);
   }
   using Node::replaceUsedValue;
 
@@ -62,9 +62,11 @@ public:
   }
   using Node::replaceUsedType;
 
-  std::vector<Var *> getUsedVariables() final { return doGetUsedVariables(); }
+  std::vector<Var *> getUsedVariables() final {
+    return getActual()->doGetUsedVariables();
+  }
   std::vector<const Var *> getUsedVariables() const final {
-    auto ret = doGetUsedVariables();
+    auto ret = getActual()->doGetUsedVariables();
     return std::vector<const Var *>(ret.begin(), ret.end());
   }
   int replaceUsedVariable(id_t id, Var *newVar) final {
-- 
2.43.0


From 57fa40c4138b20f75764db30a33957af1e44ded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 10/26] fix: escape() must write two hex digits so that the
 escaped text decodes back

---
 codon/parser/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/parser/common.cpp b/codon/parser/common.cpp
index 8f81c9d..5221d5c 100644
--- a/codon/parser/common.cpp
+++ b/codon/parser/common.cpp
@@ -172,7 +172,7 @@ std::string escape(const std::string &str) {
     case '\\': r += "\\\\"; break;
     default:
       if (c < 32 || c >= 127)
-        r += fmt::format("\\x{:x}", c);
+        r += fmt::format("\\x{:02x}", c);
       else
         r += c;
     }
-- 
2.43.0


From 94482c4492a8e9c3daa8370c6680b1371f51fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 11/26] fix: compile-time INT64_MIN // -1 and % -1 killed the
 compiler with SIGFPE

---
 codon/parser/visitors/typecheck/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codon/parser/visitors/typecheck/op.cpp b/codon/parser/visitors/typecheck/op.cpp
index ed25faa..2267a10 100644
--- a/codon/parser/visitors/typecheck/op.cpp
+++ b/codon/parser/visitors/typecheck/op.cpp
@@ -624,6 +624,9 @@ std::pair<int64_t, int64_t> divMod(const std::shared_ptr<TypeContext> &ctx, int6
   if (!b) {
     E(Error::STATIC_DIV_ZERO, ctx->getSrcInfo());
     return {0, 0};
+  } else if (b == -1) {
+    // The smallest integer divided by -1 does not fit and traps: negate with wrap-around.
+    return {static_cast<int64_t>(0 - static_cast<uint64_t>(a)), 0};
   } else if (ctx->cache->pythonCompat) {
     // Use Python implementation.
     int64_t d = a / b;
-- 
2.43.0


From 31bc34e088d59274cb2e980fde44fc602a70b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 12/26] fix: cloning a break or continue kept no target when
 its loop encloses the cloned code

---
 codon/cir/util/cloning.cpp | 13 +++++++++++--
 codon/cir/util/cloning.h   |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/codon/cir/util/cloning.cpp b/codon/cir/util/cloning.cpp
index 3ea1b2f..1e01d18 100644
--- a/codon/cir/util/cloning.cpp
+++ b/codon/cir/util/cloning.cpp
@@ -311,12 +311,21 @@ void CloneVisitor::visit(const TernaryInstr *v) {
       Nt(v, clone(v->getCond()), clone(v->getTrueValue()), clone(v->getFalseValue()));
 }
 
+Value *CloneVisitor::remapLoop(Value *loop) {
+  // an enclosing loop that is cloned as well has been remapped before its body is
+  // visited; any other loop encloses the cloned code and stays the target
+  if (!cloneLoop || !loop)
+    return loop;
+  auto it = ctx.find(loop->getId());
+  return it != ctx.end() ? cast<Value>(it->second) : loop;
+}
+
 void CloneVisitor::visit(const BreakInstr *v) {
-  result = Nt(v, cloneLoop ? clone(v->getLoop()) : v->getLoop());
+  result = Nt(v, remapLoop(v->getLoop()));
 }
 
 void CloneVisitor::visit(const ContinueInstr *v) {
-  result = Nt(v, cloneLoop ? clone(v->getLoop()) : v->getLoop());
+  result = Nt(v, remapLoop(v->getLoop()));
 }
 
 void CloneVisitor::visit(const ReturnInstr *v) { result = Nt(v, clone(v->getValue())); }
diff --git a/codon/cir/util/cloning.h b/codon/cir/util/cloning.h
index 0253935..2518fec 100644
--- a/codon/cir/util/cloning.h
+++ b/codon/cir/util/cloning.h
@@ -133,6 +133,8 @@ public:
   }
 
 private:
+  Value *remapLoop(Value *loop);
+
   template <typename NodeType, typename... Args>
   NodeType *Nt(const NodeType *source, Args... args) {
     return module->N<NodeType>(source, std::forward<Args>(args)..., source->getName());
-- 
2.43.0


From 5d655c48699fbd7f0312c541a079def678a1c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 13/26] fix: code after break, continue or return shared the
 jump's basic block, so its assignments replaced the definitions that reach
 the jump target

---
 codon/cir/analyze/dataflow/cfg.cpp       | 8 ++++++++
 codon/cir/analyze/dataflow/cfg.h         | 1 +
 codon/cir/analyze/dataflow/dominator.cpp | 6 +++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 6563f9a..b49868a 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -392,12 +392,14 @@ void CFVisitor::visit(const BreakInstr *v) {
   auto &loop = v->getLoop() ? findLoop(v->getLoop()->getId()) : loopStack.back();
   defaultJump(loop.end, loop.tcIndex);
   defaultInsert(v);
+  startUnreachable();
 }
 
 void CFVisitor::visit(const ContinueInstr *v) {
   auto &loop = v->getLoop() ? findLoop(v->getLoop()->getId()) : loopStack.back();
   defaultJump(loop.nextIt, loop.tcIndex);
   defaultInsert(v);
+  startUnreachable();
 }
 
 void CFVisitor::visit(const ReturnInstr *v) {
@@ -405,6 +407,7 @@ void CFVisitor::visit(const ReturnInstr *v) {
     process(v->getValue());
   defaultJump(nullptr, -1);
   defaultInsert(v);
+  startUnreachable();
 }
 
 void CFVisitor::visit(const YieldInstr *v) {
@@ -473,6 +476,11 @@ void CFVisitor::defaultJump(const CFBlock *cf, int newTcLevel) {
   }
 }
 
+void CFVisitor::startUnreachable() {
+  // code after a jump must not share the block the jump leaves from
+  graph->newBlock("unreachable", true);
+}
+
 CFVisitor::Loop &CFVisitor::findLoop(id_t id) {
   return *std::find_if(loopStack.begin(), loopStack.end(),
                        [=](auto &it) { return it.loopId == id; });
diff --git a/codon/cir/analyze/dataflow/cfg.h b/codon/cir/analyze/dataflow/cfg.h
index 7a5d16a..ee67d37 100644
--- a/codon/cir/analyze/dataflow/cfg.h
+++ b/codon/cir/analyze/dataflow/cfg.h
@@ -536,6 +536,7 @@ public:
 
   void defaultInsert(const Value *v);
   void defaultJump(const CFBlock *cf, int newTcLevel = -1);
+  void startUnreachable();
 
 private:
   Loop &findLoop(id_t id);
diff --git a/codon/cir/analyze/dataflow/dominator.cpp b/codon/cir/analyze/dataflow/dominator.cpp
index 5466f0c..572feea 100644
--- a/codon/cir/analyze/dataflow/dominator.cpp
+++ b/codon/cir/analyze/dataflow/dominator.cpp
@@ -44,8 +44,12 @@ void DominatorInspector::analyze() {
       llvm::BitVector old = bitvecs[id];
       llvm::BitVector newSet;
 
-      if (blk->predecessors_begin() == blk->predecessors_end())
+      // unreachable blocks keep the universal set so they do not affect joins
+      if (blk->predecessors_begin() == blk->predecessors_end()) {
+        if (blk != cfg->getEntryBlock())
+          continue;
         newSet.resize(numBlocks);
+      }
 
       bool first = true;
       for (auto it = blk->predecessors_begin(); it != blk->predecessors_end(); ++it) {
-- 
2.43.0


From 3ae1ad4d5b4fff5898ca93fc30b831bf6c4413d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 14/26] fix: capture info of a vararg C function was read past
 its end

---
 codon/cir/analyze/dataflow/capture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codon/cir/analyze/dataflow/capture.cpp b/codon/cir/analyze/dataflow/capture.cpp
index ce40a45..86ccaaa 100644
--- a/codon/cir/analyze/dataflow/capture.cpp
+++ b/codon/cir/analyze/dataflow/capture.cpp
@@ -335,7 +335,7 @@ struct ExtractVars : public util::ConstVisitor {
         // note possibly capInfo.size() != v->numArgs() if calling vararg C function
         auto info = (i < capInfo.size()) ? capInfo[i]
                                          : CaptureInfo::unknown(func, arg->getType());
-        if (shouldTrack(arg) && capInfo[i].returnCaptures)
+        if (shouldTrack(arg) && info.returnCaptures)
           process(arg);
         ++i;
       }
-- 
2.43.0


From cda3bf52c3247f86bde699215212c58b2babb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 15/26] fix: while loop body follows the end of its condition
 in the control-flow graph

---
 codon/cir/analyze/dataflow/cfg.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index b49868a..5f8cd87 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -195,11 +195,12 @@ void CFVisitor::visit(const WhileFlow *v) {
   auto *loopBegin = graph->newBlock("whileBegin", true);
   original->successors_insert(loopBegin);
   process(v->getCond());
-  graph->getCurrentBlock()->successors_insert(end);
+  auto *condEnd = graph->getCurrentBlock();
+  condEnd->successors_insert(end);
 
   loopStack.emplace_back(loopBegin, end, v->getId(), tryCatchStack.size() - 1);
   auto *body = graph->newBlock("whileBody", true);
-  loopBegin->successors_insert(body);
+  condEnd->successors_insert(body);
   process(v->getBody());
   loopStack.pop_back();
   graph->getCurrentBlock()->successors_insert(loopBegin);
-- 
2.43.0


From 08834bc11afb18e6f84e726eece2bc5d3d3ca15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 16/26] fix: counted loop variable is assigned after its bounds
 are evaluated and only if the loop is entered

---
 codon/cir/analyze/dataflow/cfg.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index 5f8cd87..afd465b 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -252,14 +252,20 @@ void CFVisitor::visit(const ImperativeForFlow *v) {
 
   auto *loopBegin = graph->newBlock("forBegin", true);
   original->successors_insert(loopBegin);
-  loopBegin->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
-      v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getStart()),
-      analyze::dataflow::SyntheticAssignInstr::KNOWN));
   process(v->getStart());
   process(v->getEnd());
 
+  // the loop variable is assigned after the bounds are evaluated, and only if the
+  // loop is entered
+  auto *loopInit = graph->newBlock("forInit");
+  graph->getCurrentBlock()->successors_insert(loopInit);
+  graph->getCurrentBlock()->successors_insert(end);
+  loopInit->push_back(graph->N<analyze::dataflow::SyntheticAssignInstr>(
+      v, const_cast<Var *>(v->getVar()), const_cast<Value *>(v->getStart()),
+      analyze::dataflow::SyntheticAssignInstr::KNOWN));
+
   auto *loopCheck = graph->newBlock("forCheck");
-  graph->getCurrentBlock()->successors_insert(loopCheck);
+  loopInit->successors_insert(loopCheck);
   loopCheck->successors_insert(end);
 
   auto *loopNext = graph->newBlock("forUpdate");
-- 
2.43.0


From e57fbe356ffd6bffcbbcc4ea7ffc2d9ee752d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 17/26] fix: jumps leave a finally block from its end in the
 control-flow graph

---
 codon/cir/analyze/dataflow/cfg.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codon/cir/analyze/dataflow/cfg.cpp b/codon/cir/analyze/dataflow/cfg.cpp
index afd465b..9efc6d3 100644
--- a/codon/cir/analyze/dataflow/cfg.cpp
+++ b/codon/cir/analyze/dataflow/cfg.cpp
@@ -288,14 +288,18 @@ void CFVisitor::visit(const TryCatchFlow *v) {
   auto *end = graph->newBlock("tcEnd");
   analyze::dataflow::CFBlock *else_ = nullptr;
   analyze::dataflow::CFBlock *finally = nullptr;
+  analyze::dataflow::CFBlock *finallyEnd = nullptr;
   if (v->getElse())
     else_ = graph->newBlock("tcElse");
-  if (v->getFinally())
+  if (v->getFinally()) {
     finally = graph->newBlock("tcFinally");
+    // control leaves the 'finally' from here, after all of it was executed
+    finallyEnd = graph->newBlock("tcFinallyEnd");
+  }
 
   auto *dst = finally ? finally : end;
 
-  tryCatchStack.emplace_back(routeBlock, finally);
+  tryCatchStack.emplace_back(routeBlock, finallyEnd);
   process(v->getBody());
   graph->getCurrentBlock()->successors_insert(else_ ? else_ : dst);
 
@@ -320,13 +324,14 @@ void CFVisitor::visit(const TryCatchFlow *v) {
   if (v->getFinally()) {
     graph->setCurrentBlock(finally);
     process(v->getFinally());
-    graph->getCurrentBlock()->successors_insert(end);
+    graph->getCurrentBlock()->successors_insert(finallyEnd);
+    finallyEnd->successors_insert(end);
     routeBlock->successors_insert(finally);
   }
 
   if (!tryCatchStack.empty()) {
-    if (finally)
-      finally->successors_insert(tryCatchStack.back().first);
+    if (finallyEnd)
+      finallyEnd->successors_insert(tryCatchStack.back().first);
     else
       routeBlock->successors_insert(tryCatchStack.back().first);
   }
-- 
2.43.0


From 748c34367bb877be20cce5504b3cb52ad11dc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:20 +0000
Subject: [PATCH 18/26] fix: globals assigned by loops and exception handlers
 are not constants

---
 codon/cir/analyze/module/global_vars.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/codon/cir/analyze/module/global_vars.cpp b/codon/cir/analyze/module/global_vars.cpp
index 3cd81c0..46299fb 100644
--- a/codon/cir/analyze/module/global_vars.cpp
+++ b/codon/cir/analyze/module/global_vars.cpp
@@ -12,9 +12,20 @@ namespace {
 struct GlobalVarAnalyzer : public util::Operator {
   std::unordered_map<id_t, id_t> assignments;
 
-  void handle(PointerValue *v) override {
-    if (v->getVar()->isGlobal())
-      assignments[v->getVar()->getId()] = -1;
+  void invalidate(Var *v) {
+    if (v && v->isGlobal())
+      assignments[v->getId()] = -1;
+  }
+
+  void handle(PointerValue *v) override { invalidate(v->getVar()); }
+
+  void handle(ForFlow *v) override { invalidate(v->getVar()); }
+
+  void handle(ImperativeForFlow *v) override { invalidate(v->getVar()); }
+
+  void handle(TryCatchFlow *v) override {
+    for (auto &c : *v)
+      invalidate(c.getVar());
   }
 
   void handle(AssignInstr *v) override {
-- 
2.43.0


From 7471c42fa20b5214377361cb431a9c4547ef487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 19/26] fix: deque.append/appendleft: grow before trimming to
 maxlen so a bounded deque never exceeds it

---
 stdlib/collections.codon | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/collections.codon b/stdlib/collections.codon
index 90ce5ec..5b2b782 100644
--- a/stdlib/collections.codon
+++ b/stdlib/collections.codon
@@ -70,18 +70,18 @@ class deque:
     def appendleft(self, x: T):
         self._head = (self._head - 1) & (len(self._arr) - 1)
         self._arr[self._head] = x
-        if self._maxlen >= 0 and len(self) > self._maxlen:
-            self.pop()
         if self._head == self._tail:
             self._double_cap()
+        if self._maxlen >= 0 and len(self) > self._maxlen:
+            self.pop()
 
     def append(self, x: T):
         self._arr[self._tail] = x
         self._tail = (self._tail + 1) & (len(self._arr) - 1)
-        if self._maxlen >= 0 and len(self) > self._maxlen:
-            self.popleft()
         if self._head == self._tail:
             self._double_cap()
+        if self._maxlen >= 0 and len(self) > self._maxlen:
+            self.popleft()
 
     def popleft(self) -> T:
         self._check_not_empty()
-- 
2.43.0


From 248f3432ac2c4f22b0f2ecf2354cef32f7525b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 20/26] fix: static slices: step by count so extreme steps
 neither overflow nor read past the sequence

---
 codon/parser/visitors/typecheck/op.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/codon/parser/visitors/typecheck/op.cpp b/codon/parser/visitors/typecheck/op.cpp
index 2267a10..57207e3 100644
--- a/codon/parser/visitors/typecheck/op.cpp
+++ b/codon/parser/visitors/typecheck/op.cpp
@@ -1,5 +1,6 @@
 // Copyright (C) 2022-2026 Exaloop Inc. <https://exaloop.io>
 
+#include <limits>
 #include <string>
 #include <tuple>
 
@@ -1041,7 +1042,7 @@ TypecheckVisitor::transformStaticTupleIndex(ClassType *tuple, Expr *expr, Expr *
   std::string str = isStaticString ? getStrLiteral(expr->getType()) : "";
   auto sz =
       static_cast<int64_t>(isStaticString ? str.size() : getClassFields(tuple).size());
-  int64_t start = 0, stop = sz, step = 1, multiple = 0;
+  int64_t start = 0, stop = sz, step = 1, multiple = 0, count = 0;
   if (getInt(&start, index)) {
     // Case: `tuple[int]`
     auto i = translateIndex(start, stop);
@@ -1059,7 +1060,7 @@ TypecheckVisitor::transformStaticTupleIndex(ClassType *tuple, Expr *expr, Expr *
       start = step > 0 ? 0 : (sz - 1);
     if (slice->getStep() && !slice->getStop())
       stop = step > 0 ? sz : -(sz + 1);
-    sliceAdjustIndices(sz, &start, &stop, step);
+    count = sliceAdjustIndices(sz, &start, &stop, step);
     multiple = 1;
   } else {
     return {false, nullptr};
@@ -1070,8 +1071,8 @@ TypecheckVisitor::transformStaticTupleIndex(ClassType *tuple, Expr *expr, Expr *
       return {true, transform(N<StringExpr>(str.substr(start, 1)))};
     } else {
       std::string newStr;
-      for (auto i = start; (step > 0) ? (i < stop) : (i > stop); i += step)
-        newStr += str[i];
+      for (int64_t i = 0; i < count; i++)
+        newStr += str[start + i * step];
       return {true, transform(N<StringExpr>(newStr))};
     }
   } else {
@@ -1083,7 +1084,8 @@ TypecheckVisitor::transformStaticTupleIndex(ClassType *tuple, Expr *expr, Expr *
       auto var = N<IdExpr>(getTemporaryVar("tup"));
       auto ass = N<AssignStmt>(var, expr);
       std::vector<Expr *> te;
-      for (auto i = start; (step > 0) ? (i < stop) : (i > stop); i += step) {
+      for (int64_t k = 0; k < count; k++) {
+        auto i = start + k * step;
         if (i < 0 || i >= sz)
           E(Error::TUPLE_RANGE_BOUNDS, index, sz - 1, i);
         te.push_back(N<DotExpr>(clone(var), classFields[i].name));
@@ -1119,6 +1121,9 @@ int64_t TypecheckVisitor::sliceAdjustIndices(int64_t length, int64_t *start,
                                              int64_t *stop, int64_t step) const {
   if (step == 0)
     E(Error::SLICE_STEP_ZERO, getSrcInfo());
+  // Same elements, but -step is representable (sliceobject.c does the same)
+  if (step == std::numeric_limits<int64_t>::min())
+    step++;
 
   if (*start < 0) {
     *start += length;
-- 
2.43.0


From 2edcd770d64601fef26c041227fbdc730ddca130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 21/26] fix: slice.adjust_indices: clamp a step of INT64_MIN,
 whose negation overflows

---
 stdlib/internal/types/slice.codon | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/internal/types/slice.codon b/stdlib/internal/types/slice.codon
index 0a1f029..9d88a73 100644
--- a/stdlib/internal/types/slice.codon
+++ b/stdlib/internal/types/slice.codon
@@ -39,6 +39,8 @@ class Slice:
         stop: int = 0
         if step == 0:
             raise ValueError("slice step cannot be zero")
+        if step < -0x7FFFFFFFFFFFFFFF:
+            step = -0x7FFFFFFFFFFFFFFF  # same elements, but -step is representable
         if step > 0:
             start = self.start if self.start is not None else 0
             stop = self.stop if self.stop is not None else length
-- 
2.43.0


From 968da753ab0768de73625b7488a2cf862fadd605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 22/26] fix: range iteration: stop before the next value would
 overflow int

---
 stdlib/internal/types/range.codon | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/internal/types/range.codon b/stdlib/internal/types/range.codon
index 0c995c1..fddf1bb 100644
--- a/stdlib/internal/types/range.codon
+++ b/stdlib/internal/types/range.codon
@@ -72,10 +72,14 @@ class range:
         if step > 0:
             while i < stop:
                 yield i
+                if i > 0x7FFFFFFFFFFFFFFF - step:
+                    break  # the next value is not representable
                 i += step
         else:
             while i > stop:
                 yield i
+                if i < -0x7FFFFFFFFFFFFFFF - 1 - step:
+                    break
                 i += step
 
     @overload
-- 
2.43.0


From 231f41ddc3f00d2361a7a00182502a747ada4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 23/26] fix: list[:] = itself kept no element: copy the source
 before clearing

---
 stdlib/internal/types/collections/list.codon | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 80bd536..da110b9 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -101,6 +101,8 @@ class List:
 
     def __setitem__(self, s: Slice, other: List[T]):
         if s.start is None and s.stop is None and s.step is None:
+            if other.__raw__() == self.__raw__():
+                other = other.__copy__()
             self.clear()
             for a in other:
                 self.append(a)
-- 
2.43.0


From f9da39c021e691972e29b4b728ef699e2c9a4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 24/26] fix: del list[a:b:step] with a huge step overflowed the
 position and moved memory outside the list

---
 stdlib/internal/types/collections/list.codon | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index da110b9..7b85f99 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -147,7 +147,7 @@ class List:
             if s.step is None or step == 1:
                 self._assign_slice(start, stop, Ptr[T](), 0)
             else:
-                if length < 0:
+                if length <= 0:
                     return
 
                 if step < 0:
@@ -155,6 +155,9 @@ class List:
                     start = stop + step * (length - 1) - 1
                     step = -step
 
+                if step > self.__len__():
+                    step = self.__len__()
+
                 cur = start
                 i = 0
                 while cur < stop:
-- 
2.43.0


From ce66df63ef3390ec544742e83a0dfc337e04c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 25/26] fix: iterating over a list while it grows or shrinks
 read released or removed storage

---
 stdlib/internal/types/collections/list.codon | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index 7b85f99..e3f956f 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -198,9 +198,9 @@ class List:
     def __iter__(self) -> Generator[T]:
         i = 0
         N = self.len
-        p = self.arr.ptr
-        while i < N:
-            yield p[i]
+        # the list might be changed (and its storage moved) between two elements
+        while i < N and i < self.len:
+            yield self._get(i)
             i += 1
 
     def __reversed__(self) -> Generator[T]:
-- 
2.43.0


From e7cb736cb36b58b258740b59db340727ca580554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:39 +0000
Subject: [PATCH 26/26] fix: concatenation with an empty slice whose stop lies
 before its start copied a negative size

---
 stdlib/internal/types/collections/list.codon | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stdlib/internal/types/collections/list.codon b/stdlib/internal/types/collections/list.codon
index e3f956f..1d1bdb1 100644
--- a/stdlib/internal/types/collections/list.codon
+++ b/stdlib/internal/types/collections/list.codon
@@ -511,9 +511,8 @@ class List:
             ans.len += n
         elif s.step is None:
             start, stop, step, length = s.adjust_indices(v.__len__())
-            n = stop - start
-            str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), n * sizeof(T))
-            ans.len += n
+            str.memcpy((ans.arr.ptr + ans.len).as_byte(), (v.arr.ptr + start).as_byte(), length * sizeof(T))
+            ans.len += length
         else:
             start, stop, step, length = s.adjust_indices(v.__len__())
             for i in range(start, stop, step):
-- 
2.43.0

