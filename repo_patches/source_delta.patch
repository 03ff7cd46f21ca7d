From fe429b461477e43d770c00d42cfb3feb7d80a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 01/30] fix: avoid host trap when folding or simulating
 INT64_MIN divided by -1

---
 cmmc/ExecutionEngine/Interpreter.cpp            | 9 +++++++--
 cmmc/Transforms/Combine/ConstantPropagation.cpp | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index a7f99ef..04e5f89 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -821,7 +821,11 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
                 const auto val = getInt(1);
                 if(!val)
                     return SimulationFailReason::DividedByZero;
-                addInt(getInt(0) / val);
+                // avoid the host trap of INT64_MIN / -1
+                if(val == -1)
+                    addInt(static_cast<intmax_t>(-static_cast<uintmax_t>(getInt(0))));
+                else
+                    addInt(getInt(0) / val);
                 break;
             }
             case InstructionID::UDiv: {
@@ -835,7 +839,8 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
                 const auto val = getInt(1);
                 if(!val)
                     return SimulationFailReason::DividedByZero;
-                addInt(getInt(0) % val);
+                // avoid the host trap of INT64_MIN % -1
+                addInt(val == -1 ? 0 : getInt(0) % val);
                 break;
             }
             case InstructionID::URem: {
diff --git a/cmmc/Transforms/Combine/ConstantPropagation.cpp b/cmmc/Transforms/Combine/ConstantPropagation.cpp
index e00d7df..c31fd6d 100644
--- a/cmmc/Transforms/Combine/ConstantPropagation.cpp
+++ b/cmmc/Transforms/Combine/ConstantPropagation.cpp
@@ -100,8 +100,11 @@ class ConstantPropagation final : public TransformPass<Function> {
                 }
                 if(udiv(uint_(u1), uint_(u2))(matchCtx) && u2)
                     return makeUInt(inst, u1 / u2);
-                if(srem(int_(i1), int_(i2))(matchCtx) && i2)
+                if(srem(int_(i1), int_(i2))(matchCtx) && i2) {
+                    if(i2 == -1)
+                        return makeInt(inst, 0);
                     return makeInt(inst, i1 % i2);
+                }
                 if(urem(uint_(u1), uint_(u2))(matchCtx) && u2)
                     return makeUInt(inst, u1 % u2);
                 if(shl(uint_(u1), uint_(u2))(matchCtx))
-- 
2.43.0


From d3b1ad26068d912c78bc21b42a332a6e387d19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 02/30] fix: leave a switch without default label and fall
 through into default

---
 cmmc/Frontend/EmitIR.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 19385a0..908f0c7 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -2118,6 +2118,11 @@ QualifiedValue SwitchExpr::emit(EmitContext& ctx) const {
     mBody->emitWithLoc(ctx);
     ctx.popSwitch();
     ctx.makeOp<BranchInst>(epilog);
+    if(defaultBlock->instructions().empty()) {
+        // no default label: leave the switch
+        ctx.setCurrentBlock(defaultBlock);
+        ctx.makeOp<BranchInst>(epilog);
+    }
     ctx.setCurrentBlock(epilog);
     return QualifiedValue::getNull();
 }
@@ -2147,6 +2152,8 @@ QualifiedValue CaseExpr::emit(EmitContext& ctx) const {
         if(!defaultBlock->instructions().empty()) {
             DiagnosticsContext::get().attach<Reason>("redefinition of default label").reportFatal();
         }
+        // fallthrough
+        ctx.makeOp<BranchInst>(defaultBlock);
         ctx.setCurrentBlock(defaultBlock);
     }
 
-- 
2.43.0


From c2ec7a2d1defbd1dcf6ddfb1b6ef0dd632891f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 03/30] fix: compare switch instructions by their targets
 before merging blocks

---
 cmmc/IR/Instruction.cpp | 7 +++++++
 cmmc/IR/Instruction.hpp | 1 +
 2 files changed, 8 insertions(+)

diff --git a/cmmc/IR/Instruction.cpp b/cmmc/IR/Instruction.cpp
index ad79e60..321c9fb 100644
--- a/cmmc/IR/Instruction.cpp
+++ b/cmmc/IR/Instruction.cpp
@@ -797,6 +797,13 @@ bool BranchInst::isEqual(const Instruction* rhs) const {
     return mTrueTarget == rhsBranch->mTrueTarget && mFalseTarget == rhsBranch->mFalseTarget;
 }
 
+bool SwitchInst::isEqual(const Instruction* rhs) const {
+    if(!Instruction::isEqual(rhs))
+        return false;
+    const auto rhsSwitch = rhs->as<SwitchInst>();
+    return mDefaultBlock == rhsSwitch->mDefaultBlock && mEdges == rhsSwitch->mEdges;
+}
+
 bool LoadInst::verify(std::ostream& out) const {
     if(!getType()->isPrimitive()) {
         out << "Cannot load non-primitive values"sv;
diff --git a/cmmc/IR/Instruction.hpp b/cmmc/IR/Instruction.hpp
index abd0110..dd21db9 100644
--- a/cmmc/IR/Instruction.hpp
+++ b/cmmc/IR/Instruction.hpp
@@ -674,6 +674,7 @@ public:
     std::unordered_set<Block*> getUniqueSuccessors() const;
     void dumpInst(std::ostream& out) const override;
     [[nodiscard]] Instruction* clone() const override;
+    bool isEqual(const Instruction* rhs) const override;
 };
 
 class FunctionCallInst final : public Instruction {
-- 
2.43.0


From f53828e45d4c380db22c11ff66a0b9fda88bfb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 04/30] fix: 0xffffffff is not all ones in 64-bit RISC-V
 operations

---
 cmmc/Target/RISCV/RISCVISelInfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmc/Target/RISCV/RISCVISelInfo.cpp b/cmmc/Target/RISCV/RISCVISelInfo.cpp
index f7bab72..ea78977 100644
--- a/cmmc/Target/RISCV/RISCVISelInfo.cpp
+++ b/cmmc/Target/RISCV/RISCVISelInfo.cpp
@@ -247,9 +247,13 @@ static bool isOne(const MIROperand& op) {
     return op.isImm() && op.imm() == 1;
 }
 static bool isNegativeOne(const MIROperand& op) {
+    if(op.type() == OperandType::Int64)
+        return op.isImm() && op.imm() == -1;
     return op.isImm() && static_cast<uint32_t>(op.imm()) == 0xffffffff;
 }
 static bool isNotImm(OperandType type, const MIROperand& op) {
+    if(type == OperandType::Int64)
+        return op.isImm() && op.imm() == -1;
     return op.isImm() && static_cast<uint32_t>(op.imm()) == (type == OperandType::Bool ? 1 : 0xffffffff);
 }
 
-- 
2.43.0


From 77d9f83c4ee469c33adddbc80b65c01d140b9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 05/30] fix: XNOR does not negate a truth value

---
 cmmc/Target/RISCV/RISCV.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCV.yml b/cmmc/Target/RISCV/RISCV.yml
index eadd8fb..f8738de 100644
--- a/cmmc/Target/RISCV/RISCV.yml
+++ b/cmmc/Target/RISCV/RISCV.yml
@@ -656,7 +656,7 @@ InstSelection:
             Lhs: $Lhs
             Rhs: $Rhs
         Rhs: $Imm
-        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNotImm(($Dst).type(), $Imm)
+        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNegativeOne($Imm)
     Replace:
       XNOR:
         Rd: $Dst
@@ -670,7 +670,7 @@ InstSelection:
           InstXor:
             Lhs: $Rhs
             Rhs: $Imm
-        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNotImm(($Dst).type(), $Imm)
+        $Predicate: isOperandIReg($Lhs) && isOperandIReg($Rhs) && isNegativeOne($Imm)
     Replace:
       XNOR:
         Rd: $Dst
-- 
2.43.0


From 944e6f7b778df1de468812c7cb726b680e023c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 06/30] fix: a combined 'not less' bound stays a lower bound

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index d624a2e..cc22b17 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1291,7 +1291,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                             break;
                         }
                         case CompareOp::ICmpSignedGreaterEqual: {
-                            op = CompareOp::ICmpSignedLessThan;
+                            op = CompareOp::ICmpSignedGreaterThan;
                             val = addOffset(val, -1);
                             break;
                         }
-- 
2.43.0


From 8346b5871d514ad2973405aaff1fdf2030ee9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 07/30] fix: x <= max and x >= min have no strict form

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index cc22b17..b514fe9 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1192,12 +1192,15 @@ class ArithmeticReduce final : public TransformPass<Function> {
 
             // le x c -> lt x c+1, ge x c -> gt x c-1
             if(icmp(cmp, any(v1), int_(i1))(matchCtx)) {
-                // TODO: check overflow
-                if(cmp == CompareOp::ICmpSignedLessEqual) {
+                const auto bitwidth = v1->getType()->as<IntegerType>()->getBitwidth();
+                const auto maxVal = bitwidth < 64 ? (static_cast<intmax_t>(1) << (bitwidth - 1)) - 1 :
+                                                    std::numeric_limits<intmax_t>::max();
+                const auto minVal = -maxVal - 1;
+                if(cmp == CompareOp::ICmpSignedLessEqual && i1 < maxVal) {
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, v1,
                                                        makeIntLike(i1 + 1, v1));
                 }
-                if(cmp == CompareOp::ICmpSignedGreaterEqual) {
+                if(cmp == CompareOp::ICmpSignedGreaterEqual && i1 > minVal) {
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedGreaterThan, v1,
                                                        makeIntLike(i1 - 1, v1));
                 }
-- 
2.43.0


From 9459ad9246e4e5f837b965e5f3e89925132be867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 08/30] fix: the range of a quotient must not wrap around

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index b514fe9..152e333 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1065,7 +1065,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                         ++upper;
                     }
 
-                    if(upper - lower <= static_cast<intmax_t>(std::numeric_limits<uint32_t>::max()) &&
+                    if(upper <= static_cast<intmax_t>(std::numeric_limits<int32_t>::max()) + 1 &&
                        (-std::numeric_limits<int32_t>::max() <= lower && lower <= std::numeric_limits<int32_t>::max())) {
                         Value* val = v1;
                         if(lower != 0)
-- 
2.43.0


From 3017040b0db564e431c755ee480cbd7b10f7a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 09/30] fix: alternating between two booleans needs
 complementary values

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 152e333..0ad4820 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -734,7 +734,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
             // 2-21 Alternating among Two or More Values
             // x == a ? b : a -> a ^ b ^ x / a + b - x
             if(inst->getType()->isBoolean() && select(oneUse(icmp(cmp, any(v1), any(v2))), any(v3), any(v4))(matchCtx) &&
-               ((v1 == v4 || v2 == v4) && cmp == CompareOp::ICmpEqual)) {
+               ((v1 == v4 || v2 == v4) && cmp == CompareOp::ICmpEqual) && not_(exactly(v4))(MatchContext<Value>{ v3 })) {
                 auto x = (v1 == v4 ? v2 : v1);
                 auto b = v3;
                 auto a = v4;
-- 
2.43.0


From c42ae62332ec41e43c3cef2dd5a21f0971854a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 10/30] fix: nested arithmetic shifts keep the sign

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 0ad4820..bc2eab6 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -510,7 +510,9 @@ class ArithmeticReduce final : public TransformPass<Function> {
                 const auto shamt = i1 + i2;
                 if(isLegalShamt(shamt, v1->getType()))
                     return builder.makeOp<BinaryInst>(InstructionID::AShr, v1, makeIntLike(shamt, v1));
-                return makeIntLike(0, v1);
+                // all bits are copies of the sign bit
+                return builder.makeOp<BinaryInst>(
+                    InstructionID::AShr, v1, makeIntLike(v1->getType()->as<IntegerType>()->getBitwidth() - 1, v1));
             }
 
             // select c1, c2, false -> c1 & c2
-- 
2.43.0


From 21bf7a4f0d9c7e6d1452a36e94a6a0161de4e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 11/30] fix: nested remainders keep the sum of the offsets

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index bc2eab6..611e05d 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -461,7 +461,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                     int_(i5))(matchCtx) &&
                (i1 > 0 && i1 == i3 && i3 == i5) && (i2 >= 0 && i4 >= 0 && i1 + i2 + i4 < std::numeric_limits<int32_t>::max())) {
                 return builder.makeOp<BinaryInst>(
-                    InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Add, v2, makeIntLike((i2 + i4) % i1, v2)), v3);
+                    InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Add, v2, makeIntLike(i2 + i4, v2)), v3);
             }
 
             // (a == c1) & (b == c2) -> ((a^c1) | (b^c2)) == 0
-- 
2.43.0


From 4da3ae225ad76adc0ca1961ae333d6438af3824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 12/30] fix: the smallest integer has no negation to compare
 with

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 611e05d..8096d8d 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -440,7 +440,8 @@ class ArithmeticReduce final : public TransformPass<Function> {
             */
 
             // -x cmp c -> -c cmp x
-            if(icmp(cmp, neg(any(v1)), int_(i1))(matchCtx)) {
+            if(icmp(cmp, neg(any(v1)), int_(i1))(matchCtx) &&
+               i1 != -(1LL << (v1->getType()->as<IntegerType>()->getBitwidth() - 1))) {
                 switch(cmp) {
                     case CompareOp::ICmpEqual:
                     case CompareOp::ICmpNotEqual:
-- 
2.43.0


From 1a78ff6dcbd41fb1a2bf144f2f763131f9b126c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 13/30] fix: min / (max + 1) is -1

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 8096d8d..ca4d029 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -178,15 +178,16 @@ class ArithmeticReduce final : public TransformPass<Function> {
                                                   make<ConstantFloatingPoint>(inst->getType(), reciprocal));
             }
             // a / c1 / c2 -> a / (c1 * c2)
-            if(sdiv(sdiv(any(v1), int_(i1)), int_(i2))(matchCtx)) {
-                const auto val = i1 * i2;
+            if(intmax_t val; sdiv(sdiv(any(v1), int_(i1)), int_(i2))(matchCtx) && !__builtin_mul_overflow(i1, i2, &val)) {
                 const auto width = v1->getType()->as<IntegerType>()->getBitwidth();
                 const auto min = -(1LL << (width - 1));
                 const auto max = -(min + 1);
                 if(min <= val && val <= max) {
                     return builder.makeOp<BinaryInst>(InstructionID::SDiv, v1, makeIntLike(val, inst));
                 }
-                return ConstantInteger::get(inst->getType(), 0);
+                // min / (max + 1) is -1
+                if(val != max + 1)
+                    return ConstantInteger::get(inst->getType(), 0);
             }
             // 0 % a -> 0
             if(srem(cint_(0), any(v1))(matchCtx) || urem(cuint_(0), any(v1))(matchCtx))
-- 
2.43.0


From 6dc56bad074b3a810b874c0c26564cedd06b59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 14/30] fix: range of a signed division by -1 when the dividend
 may be INT32_MIN

---
 cmmc/Analysis/IntegerRange.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/cmmc/Analysis/IntegerRange.cpp b/cmmc/Analysis/IntegerRange.cpp
index a9af490..2ee51ad 100644
--- a/cmmc/Analysis/IntegerRange.cpp
+++ b/cmmc/Analysis/IntegerRange.cpp
@@ -288,10 +288,10 @@ IntegerRange IntegerRange::sdiv(const IntegerRange& rhs) const {
     if(rhs.mMinSignedValue == 0 && rhs.mMaxSignedValue == 0)
         return ret;
 
-    const auto wrap = [](int64_t& x) {
-        if(x == -static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
-            x = std::numeric_limits<int32_t>::min();
-    };
+    // INT32_MIN / -1 wraps around, while its neighbours are close to INT32_MAX
+    if(mMinSignedValue == std::numeric_limits<int32_t>::min() && rhs.mMinSignedValue <= -1 && rhs.mMaxSignedValue >= -1)
+        return ret;
+
     if(rhs.mMinSignedValue >= 0) {
         const auto s1 = mMinSignedValue / std::max(static_cast<int64_t>(1), rhs.mMinSignedValue),
                    s2 = mMinSignedValue / std::max(static_cast<int64_t>(1), rhs.mMaxSignedValue),
@@ -299,14 +299,10 @@ IntegerRange IntegerRange::sdiv(const IntegerRange& rhs) const {
                    s4 = mMaxSignedValue / std::max(static_cast<int64_t>(1), rhs.mMaxSignedValue);
         ret.setSignedRange(std::min(std::min(s1, s2), std::min(s3, s4)), std::max(std::max(s1, s2), std::max(s3, s4)));
     } else if(rhs.mMaxSignedValue <= 0) {
-        auto s1 = mMinSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMinSignedValue),
-             s2 = mMinSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMaxSignedValue),
-             s3 = mMaxSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMinSignedValue),
-             s4 = mMaxSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMaxSignedValue);
-        wrap(s1);
-        wrap(s2);
-        wrap(s3);
-        wrap(s4);
+        const auto s1 = mMinSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMinSignedValue),
+                   s2 = mMinSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMaxSignedValue),
+                   s3 = mMaxSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMinSignedValue),
+                   s4 = mMaxSignedValue / std::min(static_cast<int64_t>(-1), rhs.mMaxSignedValue);
         ret.setSignedRange(std::min(std::min(s1, s2), std::min(s3, s4)), std::max(std::max(s1, s2), std::max(s3, s4)));
     } else {
         std::array<int64_t, 2> lhs = { mMinSignedValue, mMaxSignedValue };
@@ -316,8 +312,7 @@ IntegerRange IntegerRange::sdiv(const IntegerRange& rhs) const {
             for(auto rhsVal : rhsList) {
                 if(!rhsVal)
                     continue;
-                auto val = lhsVal / rhsVal;
-                wrap(val);
+                const auto val = lhsVal / rhsVal;
                 minV = std::min(minV, val);
                 maxV = std::max(maxV, val);
             }
-- 
2.43.0


From e4d7a664b704dd43e0bf78f3dc6800ab799477b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:55 +0000
Subject: [PATCH 15/30] fix: reject continue in a switch outside of a loop

The continue target of such a switch is null, the front end built a branch to it.
---
 cmmc/Frontend/EmitIR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 908f0c7..5f8b0c1 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1554,7 +1554,7 @@ void EmitContext::popLoop() {
     mTerminatorTarget.pop_back();
 }
 Block* EmitContext::getContinueTarget() {
-    if(!mTerminatorTarget.empty())
+    if(!mTerminatorTarget.empty() && mTerminatorTarget.back().first)  // a switch is not a continue target
         return mTerminatorTarget.back().first;
     DiagnosticsContext::get().attach<Reason>("no continue target").reportFatal();
 }
-- 
2.43.0


From befd3ea0374d8badcc51355733d662fa6100e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:55 +0000
Subject: [PATCH 16/30] fix: reject consecutive default labels

An empty default block was taken for one without a label.
---
 cmmc/Frontend/EmitIR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 5f8b0c1..7bc9c97 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -2149,7 +2149,7 @@ QualifiedValue CaseExpr::emit(EmitContext& ctx) const {
     } else {
         // default:
         const auto defaultBlock = switchInst->defaultTarget();
-        if(!defaultBlock->instructions().empty()) {
+        if(ctx.getCurrentBlock() == defaultBlock || !defaultBlock->instructions().empty()) {
             DiagnosticsContext::get().attach<Reason>("redefinition of default label").reportFatal();
         }
         // fallthrough
-- 
2.43.0


From 629d8b1cf8688b15d9bf8ad1a1581405af2e929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 17/30] fix: promote the key of a switch to int

The labels were converted to the type of a char key, so that case 300 matched 44.
---
 cmmc/Frontend/EmitIR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 7bc9c97..aa33755 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -2107,10 +2107,14 @@ void EmitContext::popSwitch() {
 }
 
 QualifiedValue SwitchExpr::emit(EmitContext& ctx) const {
-    const auto key = ctx.getRValue(mKey);
+    auto key = ctx.getRValue(mKey);
     if(!key.first->getType()->isInteger()) {
         DiagnosticsContext::get().attach<Reason>("switch requires an integer").reportFatal();
     }
+    // integer promotion
+    if(key.first->getType()->getFixedSize() < sizeof(int32_t))
+        key.first =
+            ctx.convertTo(key.first, IntegerType::get(32), key.second, Qualifier::getDefault(), ConversionUsage::Implicit);
     const auto defaultBlock = ctx.addBlock();
     const auto epilog = ctx.addBlock();
     const auto switchInst = ctx.makeOp<SwitchInst>(key.first, defaultBlock);
-- 
2.43.0


From 4a409e1ada168dad68e1db7daa7bed5812638941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 18/30] fix: srem of a possibly negative dividend by a variable
 is not an unsigned remainder

---
 cmmc/Transforms/Combine/RangeAwareArithReduce.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
index 0efb800..f86aa37 100644
--- a/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
+++ b/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp
@@ -149,13 +149,16 @@ class RangeAwareArithReduce final : public TransformPass<Function> {
             if(srem(any(v1), any(v2))(matchCtx)) {
                 auto rhs = rangeAnalysis.query(v2, dom, inst, depth);
                 auto self = rangeAnalysis.query(inst, dom, inst, depth);
+                auto lhs = rangeAnalysis.query(v1, dom, inst, depth);
                 auto isNonPowerOf2Constant = [](Value* val) {
                     if(auto cval = dynamic_cast<ConstantInteger*>(val))
                         return !isPowerOf2(static_cast<size_t>(cval->getSignExtended()));
                     return false;
                 };
 
-                if(rhs.isPositive() && self.isNonNegative() && !isNonPowerOf2Constant(v2)) {
+                // a negative multiple of the divisor also leaves 0: only a power of 2 divides its unsigned value
+                if(rhs.isPositive() && self.isNonNegative() && !isNonPowerOf2Constant(v2) &&
+                   (v2->is<ConstantInteger>() || lhs.isNonNegative())) {
                     return builder.makeOp<BinaryInst>(InstructionID::URem, v1, v2);
                 }
             }
-- 
2.43.0


From bba9b22e9cef8eb3272c28dbf4627f8fc0dd27c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 19/30] fix: a zero signed remainder says nothing about the
 sign of the dividend

---
 cmmc/Analysis/IntegerRangeAnalysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Analysis/IntegerRangeAnalysis.cpp b/cmmc/Analysis/IntegerRangeAnalysis.cpp
index 1dfc5ef..a4e698b 100644
--- a/cmmc/Analysis/IntegerRangeAnalysis.cpp
+++ b/cmmc/Analysis/IntegerRangeAnalysis.cpp
@@ -376,7 +376,7 @@ IntegerRangeAnalysisResult IntegerRangeAnalysis::run(Function& func, AnalysisPas
             case InstructionID::SRem: {
                 update(inst, getOperandRange(0).srem(getOperandRange(1)));
                 // TODO: contextual
-                if(getOperandRange(1).isPositive() && getRange(inst, inst).isNonNegative()) {
+                if(getOperandRange(1).isPositive() && getRange(inst, inst).isPositive()) {
                     updateContextual(inst->getOperand(0), inst->getBlock(), IntegerRange::getNonNegative());
                 }
                 break;
-- 
2.43.0


From 32806d3c40a71eda814cdee3020ee2768e6afc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:43 +0000
Subject: [PATCH 20/30] fix: a string literal ends at its own closing quote

---
 cmmc/Frontend/ScannerSysY.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Frontend/ScannerSysY.ll b/cmmc/Frontend/ScannerSysY.ll
index ee15d0d..fc53248 100644
--- a/cmmc/Frontend/ScannerSysY.ll
+++ b/cmmc/Frontend/ScannerSysY.ll
@@ -207,7 +207,7 @@ FIXED_WIDTH_INTEGER_TYPE u?int(8|16|32|64)_t
 0[xX][0-9a-fA-F]*"."[0-9a-fA-F]*[pP][+-]?[0-9]+(f|F)? { return emitFp(); }
 [a-zA-Z_][a-zA-Z_0-9]* { String val = String::get(yytext); return Parser::make_ID(val, {CMMC_RECORD(ID, val), loc}); }
 "'"."'" { char ch = yytext[1]; return Parser::make_CHAR(ch, {CMMC_RECORD(CHAR, ch), loc}); }
-"\"".*"\"" { std::string_view text{yytext}; String str = String::get(text.substr(1, text.size()-2)); return Parser::make_STRING(str, {CMMC_RECORD(STRING, str), loc}); }
+"\""([^"\\\n]|\\.)*"\"" { std::string_view text{yytext}; String str = String::get(text.substr(1, text.size()-2)); return Parser::make_STRING(str, {CMMC_RECORD(STRING, str), loc}); }
 "'\\x"[0-9a-fA-F][0-9a-fA-F]"'" { char ch = strtol(yytext+3, NULL, 16); return Parser::make_CHAR(ch, {CMMC_RECORD(CHAR, ch), loc}); }
 
 <<EOF>> return Parser::make_END({0,loc});
-- 
2.43.0


From 6dc1174b4c4cdd10eab743075c78c7218d09a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:43 +0000
Subject: [PATCH 21/30] fix: two hexadecimal character constants on a line are
 not one malformed one

---
 cmmc/Frontend/ScannerSpl.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Frontend/ScannerSpl.ll b/cmmc/Frontend/ScannerSpl.ll
index d7d5591..248df7d 100644
--- a/cmmc/Frontend/ScannerSpl.ll
+++ b/cmmc/Frontend/ScannerSpl.ll
@@ -136,7 +136,7 @@
 
 <<EOF>> return Parser::make_END({0,loc});
 
-"'\\x".+"'" { CMMC_LEXER_ERROR(yytext); }
+"'\\x"[^'\n]+"'" { CMMC_LEXER_ERROR(yytext); }
 [a-zA-Z_0-9]+ { CMMC_LEXER_ERROR(yytext); }
 . { CMMC_LEXER_ERROR(yytext); }
 %%
-- 
2.43.0


From 2a59d449641b40a2412c05785c80210216dfb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:37 +0000
Subject: [PATCH 22/30] fix: slli.uw, rori and roriw take an immediate and
 fsgnj.s two sources

---
 cmmc/Target/RISCV/RISCV.yml | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCV.yml b/cmmc/Target/RISCV/RISCV.yml
index f8738de..73b9ff4 100644
--- a/cmmc/Target/RISCV/RISCV.yml
+++ b/cmmc/Target/RISCV/RISCV.yml
@@ -245,14 +245,14 @@ InstInfo:
       Mnemonic: fmin.s
     FMAX_S:
       Mnemonic: fmax.s
+    FSGNJ_S:
+      Mnemonic: fsgnj.s
   InstanceFF:
     Template: FFType
     FNEG_S:
       Mnemonic: fneg.s
     FABS_S:
       Mnemonic: fabs.s
-    FSGNJ_S:
-      Mnemonic: fsgnj.s
     FMV_S:
       Mnemonic: fmv.s
       Flag: [RegCopy]
@@ -314,8 +314,6 @@ InstInfo:
       Mnemonic: sh3add
     SH3ADD_UW:
       Mnemonic: sh3add.uw
-    SLLI_UW:
-      Mnemonic: slli.uw
     # Zbb
     ANDN:
       Mnemonic: andn
@@ -337,12 +335,20 @@ InstInfo:
       Mnemonic: rolw
     ROR:
       Mnemonic: ror
+    RORW:
+      Mnemonic: rorw
+  InstanceBRI:
+    Template: ShiftImm
+    # Zba
+    SLLI_UW:
+      Mnemonic: slli.uw
+    # Zbb
     RORI:
       Mnemonic: rori
+  InstanceBRIW:
+    Template: ShiftImmW
     RORIW:
       Mnemonic: roriw
-    RORW:
-      Mnemonic: rorw
   InstanceBRSExt:
     Template: R2Type
     SEXT_B:
-- 
2.43.0


From 7d6a057bde1ca753de2082863e629daea72a576a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:08:56 +0000
Subject: [PATCH 23/30] fix: 0.0 and -0.0 are different constants

---
 cmmc/IR/ConstantValue.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmmc/IR/ConstantValue.cpp b/cmmc/IR/ConstantValue.cpp
index dca3b80..8c5384e 100644
--- a/cmmc/IR/ConstantValue.cpp
+++ b/cmmc/IR/ConstantValue.cpp
@@ -15,6 +15,7 @@
 #include <cmmc/IR/ConstantValue.hpp>
 #include <cmmc/IR/Type.hpp>
 #include <cmmc/Support/Diagnostics.hpp>
+#include <cmath>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -150,8 +151,10 @@ size_t ConstantFloatingPoint::hash() const {
     return std::hash<double>{}(getValue());
 }
 bool ConstantFloatingPoint::isEqual(const ConstantValue* rhs) const {
-    return isEqualImpl<ConstantFloatingPoint>(
-        rhs, [&](const ConstantFloatingPoint* rhsVal) { return getValue() == rhsVal->getValue(); });
+    // 0.0 and -0.0 compare equal but they are different constants
+    return isEqualImpl<ConstantFloatingPoint>(rhs, [&](const ConstantFloatingPoint* rhsVal) {
+        return getValue() == rhsVal->getValue() && std::signbit(getValue()) == std::signbit(rhsVal->getValue());
+    });
 }
 
 size_t ConstantOffset::hash() const {
-- 
2.43.0


From e77c57a77af7dae65d80085488745a84973141b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:08:56 +0000
Subject: [PATCH 24/30] fix: ARM maximum and minimum with an inverted constant
 are legalised

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index b1b8235..ce884e8 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -994,6 +994,25 @@ void ARMISelInfo::preRALegalizeInst(const InstLegalizeContext& ctx) const {
                 MIRInst{ MOV_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
             break;
         }
+        case PseudoSMax_Inverted:
+        case PseudoSMin_Inverted: {
+            // the flags are those of lhs - (~inverted + 1)
+            auto dst = inst.getOperand(0);
+            auto lhs = inst.getOperand(1);
+            auto inverted = inst.getOperand(2);
+            auto cc = inst.getOperand(3);
+
+            ctx.instructions.insert(ctx.iter, MIRInst{ MoveGPR }.setOperand<0>(dst).setOperand<1>(lhs));
+            auto cf =
+                MIROperand::asImm(inst.opcode() == PseudoSMin_Inverted ? CondField::GE : CondField::LT, OperandType::CondField);
+            *ctx.iter = MIRInst{ MVN_Cond }
+                            .setOperand<0>(cf)
+                            .setOperand<1>(dst)
+                            .setOperand<2>(inverted)
+                            .setOperand<3>(cc)
+                            .setOperand<4>(dst);
+            break;
+        }
         case PseudoFMA: {
             auto dst = inst.getOperand(0);
             auto x = inst.getOperand(1);
-- 
2.43.0


From 04f769b59df507e93009695ef840a7f05c60a929 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:08:56 +0000
Subject: [PATCH 25/30] fix: MIPS unsigned loads from the stack are legalised

---
 cmmc/Target/MIPS/MIPSISelInfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmc/Target/MIPS/MIPSISelInfo.cpp b/cmmc/Target/MIPS/MIPSISelInfo.cpp
index 8918b10..fb45381 100644
--- a/cmmc/Target/MIPS/MIPSISelInfo.cpp
+++ b/cmmc/Target/MIPS/MIPSISelInfo.cpp
@@ -641,7 +641,9 @@ void MIPSISelInfo::legalizeInstWithStackOperand(const InstLegalizeContext& ctx,
         case SWC1:
         case LW:
         case LH:
+        case LHU:
         case LB:
+        case LBU:
         case LWC1: {
             assert(checkOpIdx(2));
             inst.setOperand<2>(base).setOperand<1>(imm);
-- 
2.43.0


From bd508dee25cfb7d5148d1a8602e07a0ed6c25a7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:33:31 +0000
Subject: [PATCH 26/30] fix: ARM byte loads have no scaled index

---
 cmmc/Target/ARM/ARM.yml         |  2 ++
 cmmc/Target/ARM/ARMISelInfo.cpp |  3 ++-
 cmmc/Target/ARM/ARMInstInfo.cpp | 28 ++++++++++++++++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARM.yml b/cmmc/Target/ARM/ARM.yml
index 234d768..33f0926 100644
--- a/cmmc/Target/ARM/ARM.yml
+++ b/cmmc/Target/ARM/ARM.yml
@@ -221,6 +221,7 @@ InstInfo:
   LoadFused:
     Format: $Mnemonic:Template $Rd:GPR[Def], [$Rn:GPR[Use], $Rm:GPR[Use]$Sh:LoadStoreShamt[Metadata]]
     Flag: [Load]
+    CustomVerifier: true
     Instances:
       LDR_Fused:
         Mnemonic: ldr
@@ -240,6 +241,7 @@ InstInfo:
   StoreFused:
     Format: $Mnemonic:Template $Rd:GPR[Use], [$Rn:GPR[Use], $Rm:GPR[Use]$Sh:LoadStoreShamt[Metadata]]
     Flag: [Store]
+    CustomVerifier: true
     Instances:
       STR_Fused:
         Mnemonic: str
diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index ce884e8..53bb04a 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -319,7 +319,8 @@ static bool selectFusedAddrOffset(const MIROperand& addr, ISelContext& ctx, cons
         index = offInst->getOperand(1);
         scale = offInst->getOperand(2);
 
-        if(isOperandLoadStoreShamt(scale) && isOperandGPR(index)) {
+        // sign-extending loads of a byte have no scaled index
+        if(dst.type() == OperandType::Int32 && isOperandLoadStoreShamt(scale) && isOperandGPR(index)) {
             if(auto indexReg = ctx.getRegRef(index, *offInst)) {
                 index = *indexReg;
                 scale = MIROperand::asImm(scale.imm(), OperandType::LoadStoreShamt);
diff --git a/cmmc/Target/ARM/ARMInstInfo.cpp b/cmmc/Target/ARM/ARMInstInfo.cpp
index cd83906..21053a3 100644
--- a/cmmc/Target/ARM/ARMInstInfo.cpp
+++ b/cmmc/Target/ARM/ARMInstInfo.cpp
@@ -271,6 +271,34 @@ static bool verifyInstSTRH(const MIRInst& inst) {
     return verifyInstAddrImm9(inst);
 }
 
+static bool verifyInstUnscaledIndex(const MIRInst& inst) {
+    return inst.getOperand(3).imm() == 0;
+}
+static bool verifyInstLDR_Fused(const MIRInst&) {
+    return true;
+}
+static bool verifyInstLDRB_Fused(const MIRInst&) {
+    return true;
+}
+static bool verifyInstLDRSB_Fused(const MIRInst& inst) {
+    return verifyInstUnscaledIndex(inst);
+}
+static bool verifyInstLDRH_Fused(const MIRInst& inst) {
+    return verifyInstUnscaledIndex(inst);
+}
+static bool verifyInstLDRSH_Fused(const MIRInst& inst) {
+    return verifyInstUnscaledIndex(inst);
+}
+static bool verifyInstSTR_Fused(const MIRInst&) {
+    return true;
+}
+static bool verifyInstSTRB_Fused(const MIRInst&) {
+    return true;
+}
+static bool verifyInstSTRH_Fused(const MIRInst& inst) {
+    return verifyInstUnscaledIndex(inst);
+}
+
 static void inverseBranchImpl(MIRInst& inst, MIRBasicBlock* newTarget) {
     inst.setOperand<0>(getInvertedCondField(inst.getOperand(0)));
     inst.setOperand<1>(MIROperand::asReloc(newTarget));
-- 
2.43.0


From b4031ede9d41ecbcf63d815c787ac9df563c9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:08 +0000
Subject: [PATCH 27/30] fix: memoised calls with a negative second argument do
 not share a key

cmmcCacheLookup sign-extended the second key, so the first one was lost:
f(1, -1) and f(2, -1) were answered with the same result.
---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index b98b724..220ee7a 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -271,7 +271,7 @@ struct LUTEntry final {
 };
 static_assert(sizeof(LUTEntry) == sizeof(uint32_t) * 4);
 LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
-    const auto key = static_cast<uint64_t>(key1) << 32 | static_cast<uint64_t>(key2);
+    const auto key = static_cast<uint64_t>(static_cast<uint32_t>(key1)) << 32 | static_cast<uint32_t>(key2);
     const auto ha = key % m1, hb = 1 + key % m2;
     auto cur = ha;
     constexpr uint32_t maxLookupCount = 5;
-- 
2.43.0


From 2949fef75a344467e0cb0c6c67b3bfc343fed39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:08 +0000
Subject: [PATCH 28/30] fix: a memoised call does not take over the entry of
 one still running

The caller stores its result through the entry it got at entry. When a nested
call with colliding arguments had taken that entry over meanwhile, the result
was recorded under the nested call's key and returned for it later.
---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index 220ee7a..dc01cfd 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -279,10 +279,13 @@ LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
     while(true) {
         auto& ref = table[cur];
         if(!ref.hasVal) {
-            ref.key = key;
-            return &ref;
-        }
-        if(ref.key == key) {
+            // val marks an entry whose result is still being computed, it must not be reused
+            if(!ref.val) {
+                ref.key = key;
+                ref.val = 1;
+                return &ref;
+            }
+        } else if(ref.key == key) {
             return &ref;
         }
         if(++count >= maxLookupCount)
@@ -293,8 +296,14 @@ LUTEntry* cmmcCacheLookup(LUTEntry* table, int key1, int key2) {
     }
     // evict, FIFO
     auto& ref = table[ha];
+    if(!ref.hasVal) {
+        static LUTEntry uncached;
+        uncached.hasVal = 0;
+        return &uncached;
+    }
     ref.hasVal = 0;
     ref.key = key;
+    ref.val = 1;
     return &ref;
 }
 int32_t cmmcAddRec3SRem(int32_t x, int32_t rem) {
-- 
2.43.0


From eac63574628d09ee119c5aa6516876ca56981c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:08 +0000
Subject: [PATCH 29/30] fix: pieces of a parallel range do not overflow

Near INT32_MAX the start of a worker's piece wrapped to a negative number and
the worker ran the loop's body from there.
---
 cmmc/Runtime/cmmc_sysy_rt.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmc/Runtime/cmmc_sysy_rt.cpp b/cmmc/Runtime/cmmc_sysy_rt.cpp
index dc01cfd..4224a61 100644
--- a/cmmc/Runtime/cmmc_sysy_rt.cpp
+++ b/cmmc/Runtime/cmmc_sysy_rt.cpp
@@ -207,7 +207,7 @@ static ParallelForEntry& selectNumberOfThreads(CmmcForLoop func, uint32_t size,
 void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
     if(end <= beg)
         return;
-    const auto size = static_cast<uint32_t>(end - beg);
+    const auto size = static_cast<uint32_t>(end) - static_cast<uint32_t>(beg);
     constexpr uint32_t smallTask = 16;
     if(size < smallTask) {
         func(beg, end);
@@ -224,11 +224,11 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
         std::atomic_thread_fence(std::memory_order_seq_cst);
 
         constexpr uint32_t alignment = 4;
-        const auto inc = static_cast<int32_t>(((size / threads) + alignment - 1) / alignment * alignment);
+        const auto inc = static_cast<int64_t>(((size / threads) + alignment - 1) / alignment * alignment);
         std::array<bool, maxThreads> assigned{};
         for(int32_t i = 0; i < static_cast<int32_t>(threads); ++i) {
             const auto subBeg = beg + i * inc;
-            auto subEnd = std::min(subBeg + inc, end);
+            auto subEnd = std::min(subBeg + inc, static_cast<int64_t>(end));
             if(static_cast<uint32_t>(i) == threads - 1)
                 subEnd = end;
             if(subBeg >= subEnd)
@@ -237,8 +237,8 @@ void cmmcParallelFor(int32_t beg, int32_t end, CmmcForLoop func) {
             // cmmc_exec_for(subBeg, subEnd, func, payload);
             auto& worker = workers[static_cast<size_t>(i)];
             worker.func = func;
-            worker.beg = subBeg;
-            worker.end = subEnd;
+            worker.beg = static_cast<int32_t>(subBeg);
+            worker.end = static_cast<int32_t>(subEnd);
             // signal worker
             worker.ready.post();
             assigned[static_cast<size_t>(i)] = true;
-- 
2.43.0


From d237a169504a527535fb876017f335ca5b579b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:36 +0000
Subject: [PATCH 30/30] fix: output that cannot be written is an error

---
 cmmc/Driver/CMMCDriver.cpp           | 9 +++++++++
 cmmc/ExecutionEngine/Interpreter.cpp | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmmc/Driver/CMMCDriver.cpp b/cmmc/Driver/CMMCDriver.cpp
index 64d0be9..142997b 100644
--- a/cmmc/Driver/CMMCDriver.cpp
+++ b/cmmc/Driver/CMMCDriver.cpp
@@ -128,6 +128,12 @@ static std::string getOutputPath(const std::string& defaultPath) {
     return path.empty() ? defaultPath : path;
 }
 
+static void finishOutput(std::ofstream& out, const std::string& path) {
+    out.close();
+    if(!out)
+        DiagnosticsContext::get().attach<Reason>("Failed to write output file").attach<Reason>(path).reportFatal();
+}
+
 static int runIRPipeline(Module& module, const std::string& base, const std::string& filePath, FrontEndLang lang) {
     initTune(filePath, mir::targetName.get());
     if(!module.verify(std::cerr)) {
@@ -152,6 +158,7 @@ static int runIRPipeline(Module& module, const std::string& base, const std::str
         reportDebug() << "emitIR >> "sv << path << std::endl;
         std::ofstream out{ path };
         module.dump(out);
+        finishOutput(out, path);
         return EXIT_SUCCESS;
     }
 
@@ -195,6 +202,7 @@ static int runIRPipeline(Module& module, const std::string& base, const std::str
                 runtime = mir::RuntimeType::SysYRuntime;
         }
         target.emitAssembly(*machineModule, out, runtime);
+        finishOutput(out, path);
     }
 
     return EXIT_SUCCESS;
@@ -279,6 +287,7 @@ int mainImpl(int argc, char** argv) {
                     reportDebug() << "emitAST >> "sv << outputFilePath << std::endl;
                     std::ofstream out{ outputFilePath };
                     driver.dump(out);
+                    finishOutput(out, outputFilePath);
                     return EXIT_SUCCESS;
                 }
 
diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index 04e5f89..aab9243 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -1205,7 +1205,9 @@ OutputStream::OutputStream(const std::string& path) {
 }
 
 OutputStream::~OutputStream() {
-    fclose(mFile);  // NOLINT
+    const auto failed = ferror(mFile);
+    if(fclose(mFile) != 0 || failed)  // NOLINT
+        DiagnosticsContext::get().attach<Reason>("Failed to write output file").reportFatal();
 }
 
 InputStream::InputStream(const std::string& path) {
-- 
2.43.0

