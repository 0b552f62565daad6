From aa287609238cea972a87ce7d30b976dc171f6eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 01/31] fix: memory.read into a null reference reports an error
 instead of crashing

---
 NULLC/includes/memory.cpp | 42 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/NULLC/includes/memory.cpp b/NULLC/includes/memory.cpp
index 6d8e886..1cc44e9 100644
--- a/NULLC/includes/memory.cpp
+++ b/NULLC/includes/memory.cpp
@@ -212,6 +212,12 @@ namespace NULLCMemory
 
 	void read_into_bool(NULLCArray buffer, int offset, bool* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 0, 1))
 			return;
 
@@ -220,6 +226,12 @@ namespace NULLCMemory
 
 	void read_into_char(NULLCArray buffer, int offset, char* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 0, 1))
 			return;
 
@@ -228,6 +240,12 @@ namespace NULLCMemory
 
 	void read_into_short(NULLCArray buffer, int offset, short* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 1, 1))
 			return;
 
@@ -236,6 +254,12 @@ namespace NULLCMemory
 
 	void read_into_int(NULLCArray buffer, int offset, int* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 2, 1))
 			return;
 
@@ -244,6 +268,12 @@ namespace NULLCMemory
 
 	void read_into_long(NULLCArray buffer, int offset, long long* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 3, 1))
 			return;
 
@@ -252,6 +282,12 @@ namespace NULLCMemory
 
 	void read_into_float(NULLCArray buffer, int offset, float* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 2, 1))
 			return;
 
@@ -260,6 +296,12 @@ namespace NULLCMemory
 
 	void read_into_double(NULLCArray buffer, int offset, double* result)
 	{
+		if(!result)
+		{
+			nullcThrowError("result is empty");
+			return;
+		}
+
 		if(!check_access(buffer, offset, 3, 1))
 			return;
 
-- 
2.43.0


From fb0970df2b8e69b71126c4c451f6f513ce7ba8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 02/31] fix: memory.read_*_array does not write through null
 when the allocation fails

---
 NULLC/includes/memory.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/NULLC/includes/memory.cpp b/NULLC/includes/memory.cpp
index 1cc44e9..67b03f6 100644
--- a/NULLC/includes/memory.cpp
+++ b/NULLC/includes/memory.cpp
@@ -128,6 +128,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_BOOL, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(bool) * elements);
 		return result;
 	}
@@ -141,6 +144,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(char) * elements);
 		return result;
 	}
@@ -154,6 +160,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_SHORT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(short) * elements);
 		return result;
 	}
@@ -167,6 +176,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_INT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(int) * elements);
 		return result;
 	}
@@ -180,6 +192,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_LONG, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(long long) * elements);
 		return result;
 	}
@@ -193,6 +208,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_FLOAT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(float) * elements);
 		return result;
 	}
@@ -206,6 +224,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_DOUBLE, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(double) * elements);
 		return result;
 	}
-- 
2.43.0


From a02e2a7b6f8d98100a61e349284a757dc60101ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 03/31] fix: memory.copy handles overlapping ranges of the same
 array

---
 NULLC/includes/memory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/includes/memory.cpp b/NULLC/includes/memory.cpp
index 67b03f6..60fbb09 100644
--- a/NULLC/includes/memory.cpp
+++ b/NULLC/includes/memory.cpp
@@ -547,7 +547,7 @@ namespace NULLCMemory
 		if(!check_access(src, srcOffset, 0, size))
 			return;
 
-		memcpy(dst.ptr + dstOffset, src.ptr + srcOffset, size);
+		memmove(dst.ptr + dstOffset, src.ptr + srcOffset, size);
 	}
 
 	void set(NULLCArray dst, int dstOffset, char value, int size)
-- 
2.43.0


From 5b764544c71358b60dd45d82eb32105dba34b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:35 +0000
Subject: [PATCH 04/31] fix: integer overflow in division stops the interpreter
 with an error instead of crashing

---
 NULLC/Executor_RegVm.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index bfef0da..c952fa1 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1,5 +1,7 @@
 #include "Executor_RegVm.h"
 
+#include <limits.h>
+
 #include "Executor_Common.h"
 
 #include "nullc.h"
@@ -841,6 +843,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].intValue == INT_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue / *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -858,6 +863,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].intValue == INT_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].intValue = regFilePtr[cmd.rB].intValue % *(int*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -970,6 +978,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue / *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
@@ -987,6 +998,9 @@ RegVmReturnType ExecutorRegVm::RunCode(RegVmCmd *instruction, RegVmRegister * co
 			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == 0)
 				return rvm->ExecError(instruction, "ERROR: integer division by zero");
 
+			if(*(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument) == -1 && regFilePtr[cmd.rB].longValue == LLONG_MIN)
+				return rvm->ExecError(instruction, "ERROR: integer overflow");
+
 			regFilePtr[cmd.rA].longValue = regFilePtr[cmd.rB].longValue % *(long long*)(uintptr_t)(regFilePtr[cmd.rC].ptrValue + cmd.argument);
 			instruction++;
 			BREAK;
-- 
2.43.0


From f4c94888a3cf9ccabc0c1fdd9cfee1490677ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:52 +0000
Subject: [PATCH 05/31] fix: constant propagation leaves an overflowing integer
 division to run time instead of crashing the compiler

---
 NULLC/InstructionTreeVm.cpp       | 4 ++--
 NULLC/InstructionTreeVmCommon.cpp | 8 ++++++++
 NULLC/InstructionTreeVmCommon.h   | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 59e3cbd..13629e1 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4698,7 +4698,7 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 				ReplaceValueUsersWith(module, inst, CreateConstantLong(module->allocator, inst->source, consts[0]->lValue * consts[1]->lValue), &module->constantPropagations);
 			break;
 		case VM_INST_DIV:
-			if(!IsConstantZero(consts[1]))
+			if(!IsConstantZero(consts[1]) && !IsDivisionOverflow(consts[0], consts[1]))
 			{
 				if(inst->type == VmType::Int)
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue / consts[1]->iValue), &module->constantPropagations);
@@ -4709,7 +4709,7 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 			}
 			break;
 		case VM_INST_MOD:
-			if(!IsConstantZero(consts[1]))
+			if(!IsConstantZero(consts[1]) && !IsDivisionOverflow(consts[0], consts[1]))
 			{
 				if(inst->type == VmType::Int)
 					ReplaceValueUsersWith(module, inst, CreateConstantInt(module->allocator, inst->source, consts[0]->iValue % consts[1]->iValue), &module->constantPropagations);
diff --git a/NULLC/InstructionTreeVmCommon.cpp b/NULLC/InstructionTreeVmCommon.cpp
index 005f06f..d404264 100644
--- a/NULLC/InstructionTreeVmCommon.cpp
+++ b/NULLC/InstructionTreeVmCommon.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeVmCommon.h"
 
+#include <limits.h>
+
 #include "TypeTree.h"
 #include "InstructionTreeVm.h"
 #include "ExpressionTree.h"
@@ -204,6 +206,12 @@ bool IsConstantOne(VmValue* value)
 	return DoesConstantMatchEither(value, 1, 1.0, 1ll);
 }
 
+bool IsDivisionOverflow(VmValue* lhs, VmValue* rhs)
+{
+	// Result of dividing the smallest integer by -1 is not representable
+	return DoesConstantIntegerMatch(lhs, lhs->type == VmType::Int ? INT_MIN : LLONG_MIN) && DoesConstantIntegerMatch(rhs, -1);
+}
+
 unsigned GetAccessSize(VmInstruction *inst)
 {
 	switch(inst->cmd)
diff --git a/NULLC/InstructionTreeVmCommon.h b/NULLC/InstructionTreeVmCommon.h
index 092aecf..18c103b 100644
--- a/NULLC/InstructionTreeVmCommon.h
+++ b/NULLC/InstructionTreeVmCommon.h
@@ -38,6 +38,8 @@ bool DoesConstantMatchEither(VmValue* value, int iValue, double dValue, long lon
 bool IsConstantZero(VmValue* value);
 bool IsConstantOne(VmValue* value);
 
+bool IsDivisionOverflow(VmValue* lhs, VmValue* rhs);
+
 unsigned GetAccessSize(VmInstruction *inst);
 
 bool HasAddressTaken(VariableData *container);
-- 
2.43.0


From 1c44dd844435bee9d67311de3c38ec9495de85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:19 +0000
Subject: [PATCH 06/31] fix: compile-time function evaluation reports integer
 division overflow instead of crashing the compiler

---
 NULLC/InstructionTreeVmEval.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/InstructionTreeVmEval.cpp b/NULLC/InstructionTreeVmEval.cpp
index 1770a2e..be3f3a9 100644
--- a/NULLC/InstructionTreeVmEval.cpp
+++ b/NULLC/InstructionTreeVmEval.cpp
@@ -991,6 +991,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		if(arguments[0]->type != VmType::Double && IsConstantZero(arguments[1]))
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+		if(IsDivisionOverflow(arguments[0], arguments[1]))
+			return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 		if(arguments[0]->type == VmType::Int)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / arguments[1]->iValue);
 		else if(arguments[0]->type == VmType::Double)
@@ -1016,6 +1019,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 		if(arguments[0]->type != VmType::Double && IsConstantZero(arguments[1]))
 			return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+		if(IsDivisionOverflow(arguments[0], arguments[1]))
+			return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 		if(arguments[0]->type == VmType::Int)
 			return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % arguments[1]->iValue);
 		else if(arguments[0]->type == VmType::Double)
@@ -1220,6 +1226,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			if(arguments[0]->type != VmType::Double && IsConstantZero(rhs))
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+			if(IsDivisionOverflow(arguments[0], rhs))
+				return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 			if(arguments[0]->type == VmType::Int)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue / rhs->iValue);
 			else if(arguments[0]->type == VmType::Double)
@@ -1258,6 +1267,9 @@ VmConstant* EvaluateInstruction(InstructionVMEvalContext &ctx, VmInstruction *in
 			if(arguments[0]->type != VmType::Double && IsConstantZero(rhs))
 				return (VmConstant*)Report(ctx, "ERROR: division by zero");
 
+			if(IsDivisionOverflow(arguments[0], rhs))
+				return (VmConstant*)Report(ctx, "ERROR: integer overflow");
+
 			if(arguments[0]->type == VmType::Int)
 				return CreateConstantInt(ctx.allocator, NULL, arguments[0]->iValue % rhs->iValue);
 			else if(arguments[0]->type == VmType::Double)
-- 
2.43.0


From 5387fd329c8121c551b45181eec659eca682a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 07/31] fix: constant expressions with an overflowing integer
 division report an error instead of crashing the compiler

---
 NULLC/ExpressionEval.cpp | 6815 +++++++++++++++++++-------------------
 1 file changed, 3414 insertions(+), 3401 deletions(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index aa1f38c..f870b59 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1,3401 +1,3414 @@
-#include "ExpressionEval.h"
-
-#include <math.h>
-
-#include "ExpressionTree.h"
-
-#define FMT_ISTR(x) unsigned(x.end - x.begin), x.begin
-
-namespace
-{
-	void* ReadVmMemoryPointer(void* address)
-	{
-		void *result;
-		memcpy(&result, address, sizeof(void*));
-		return result;
-	}
-
-	void WriteVmMemoryPointer(void* address, void *value)
-	{
-		memcpy(address, &value, sizeof(void*));
-	}
-}
-
-NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* Report(ExpressionEvalContext &ctx, const char *msg, ...)
-{
-	if(ctx.errorBuf && ctx.errorBufSize)
-	{
-		va_list args;
-		va_start(args, msg);
-
-		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
-
-		va_end(args);
-
-		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
-	}
-
-	ctx.errorCritical = false;
-
-	return NULL;
-}
-
-NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* ReportCritical(ExpressionEvalContext &ctx, const char *msg, ...)
-{
-	if(ctx.errorBuf && ctx.errorBufSize)
-	{
-		va_list args;
-		va_start(args, msg);
-
-		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
-
-		va_end(args);
-
-		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
-	}
-
-	ctx.errorCritical = true;
-
-	return NULL;
-}
-
-bool AddInstruction(ExpressionEvalContext &ctx)
-{
-	if(ctx.instruction < ctx.instructionsLimit)
-	{
-		ctx.instruction++;
-		return true;
-	}
-
-	Report(ctx, "ERROR: instruction limit reached");
-
-	return false;
-}
-
-ExprPointerLiteral* AllocateTypeStorage(ExpressionEvalContext &ctx, SynBase *source, TypeBase *type)
-{
-	if(isType<TypeError>(type))
-		return NULL;
-
-	for(unsigned i = 0; i < ctx.abandonedMemory.size(); i++)
-	{
-		ExprPointerLiteral *ptr = ctx.abandonedMemory[i];
-
-		if(ptr->end - ptr->ptr == type->size)
-		{
-			ptr->type = ctx.ctx.GetReferenceType(type);
-
-			memset(ptr->ptr, 0, unsigned(type->size));
-
-			ctx.abandonedMemory[i] = ctx.abandonedMemory.back();
-			ctx.abandonedMemory.pop_back();
-
-			return ptr;
-		}
-	}
-
-	if(type->size > ctx.variableMemoryLimit)
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: single variable memory limit");
-
-	if(ctx.totalMemory + type->size > ctx.totalMemoryLimit)
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: total variable memory limit");
-
-	ctx.totalMemory += unsigned(type->size);
-
-	unsigned char *memory = (unsigned char*)ctx.ctx.allocator->alloc(unsigned(type->size));
-
-	memset(memory, 0, unsigned(type->size));
-
-	return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(source, ctx.ctx.GetReferenceType(type), memory, memory + type->size);
-}
-
-void FreeMemoryLiteral(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory)
-{
-	ctx.abandonedMemory.push_back(memory->ptr);
-}
-
-bool CreateStore(ExpressionEvalContext &ctx, ExprBase *target, ExprBase *value)
-{
-	// No side-effects while coroutine is skipping to target node
-	if(!ctx.stackFrames.empty())
-		assert(ctx.stackFrames.back()->targetYield == 0);
-
-	if(isType<ExprNullptrLiteral>(target))
-	{
-		Report(ctx, "ERROR: store to null pointer");
-
-		return false;
-	}
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
-
-	assert(ptr);
-	assert(ptr->ptr + value->type->size <= ptr->end);
-
-	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
-	{
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(value))
-	{
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprStringLiteral *expr = getType<ExprStringLiteral>(value))
-	{
-		memcpy(ptr->ptr, expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
-	{
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
-	{
-		if(expr->type == ctx.ctx.typeFloat)
-		{
-			float tmp = float(expr->value);
-			memcpy(ptr->ptr, &tmp, unsigned(value->type->size));
-			return true;
-		}
-
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(value))
-	{
-		if(isType<TypeError>(expr->value))
-			return false;
-
-		if(isType<TypeArgumentSet>(expr->value) || isType<TypeMemberSet>(expr->value))
-			return false;
-
-		unsigned index = ctx.ctx.GetTypeIndex(expr->value);
-		memcpy(ptr->ptr, &index, unsigned(value->type->size));
-		return true;
-	}
-
-	if(isType<ExprNullptrLiteral>(value))
-	{
-		memset(ptr->ptr, 0, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprFunctionIndexLiteral *expr = getType<ExprFunctionIndexLiteral>(value))
-	{
-		unsigned index = expr->function ? ctx.ctx.GetFunctionIndex(expr->function) + 1 : 0;
-		memcpy(ptr->ptr, &index, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprFunctionLiteral *expr = getType<ExprFunctionLiteral>(value))
-	{
-		unsigned index = expr->data ? ctx.ctx.GetFunctionIndex(expr->data) + 1 : 0;
-		memcpy(ptr->ptr, &index, sizeof(unsigned));
-
-		if(isType<ExprNullptrLiteral>(expr->context))
-			memset(ptr->ptr + 4, 0, sizeof(void*));
-		else if(ExprPointerLiteral *context = getType<ExprPointerLiteral>(expr->context))
-			memcpy(ptr->ptr + 4, &context->ptr, sizeof(void*));
-		else
-			return false;
-
-		return true;
-	}
-
-	if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(value))
-	{
-		TypeRef *ptrType = getType<TypeRef>(expr->type);
-
-		(void)ptrType;
-		assert(ptrType);
-		assert(expr->ptr + ptrType->subType->size <= expr->end);
-
-		memcpy(ptr->ptr, &expr->ptr, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprMemoryLiteral *expr = getType<ExprMemoryLiteral>(value))
-	{
-		memcpy(ptr->ptr, expr->ptr->ptr, unsigned(value->type->size));
-		return true;
-	}
-
-	Report(ctx, "ERROR: unknown store type");
-
-	return false;
-}
-
-ExprBase* CreateLoad(ExpressionEvalContext &ctx, ExprBase *target)
-{
-	// No side-effects while coroutine is skipping to target node
-	if(!ctx.stackFrames.empty())
-		assert(ctx.stackFrames.back()->targetYield == 0);
-
-	if(isType<ExprNullptrLiteral>(target))
-	{
-		Report(ctx, "ERROR: load from null pointer");
-
-		return NULL;
-	}
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
-
-	assert(ptr);
-
-	TypeRef *refType = getType<TypeRef>(target->type);
-
-	assert(refType);
-
-	TypeBase *type = refType->subType;
-
-	assert(ptr->ptr + type->size <= ptr->end);
-
-	if(type == ctx.ctx.typeBool)
-	{
-		bool value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeChar)
-	{
-		signed char value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeShort)
-	{
-		short value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeInt)
-	{
-		int value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeLong)
-	{
-		long long value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeFloat)
-	{
-		float value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeDouble)
-	{
-		double value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeTypeID)
-	{
-		unsigned index = 0;
-		memcpy(&index, ptr->ptr, sizeof(unsigned));
-
-		TypeBase *data = ctx.ctx.types[index];
-
-		return new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(target->source, type, data);
-	}
-
-	if(type == ctx.ctx.typeFunctionID)
-	{
-		unsigned index = 0;
-		memcpy(&index, ptr->ptr, sizeof(unsigned));
-
-		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
-
-		return new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(target->source, type, data);
-	}
-
-	if(type == ctx.ctx.typeNullPtr)
-	{
-		return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
-	}
-
-	if(isType<TypeFunction>(type))
-	{
-		unsigned index = 0;
-		memcpy(&index, ptr->ptr, sizeof(unsigned));
-
-		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
-
-		unsigned char *value = 0;
-		memcpy(&value, ptr->ptr + 4, sizeof(value));
-		
-		if(!data)
-		{
-			assert(value == NULL);
-
-			return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-		}
-
-		TypeRef *ptrType = getType<TypeRef>(data->contextType);
-
-		assert(ptrType);
-
-		ExprBase *context = NULL;
-
-		if(value == NULL)
-			context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ptrType);
-		else
-			context = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, ptrType, value, value + ptrType->subType->size);
-
-		return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, data, context);
-	}
-
-	if(TypeRef *ptrType = getType<TypeRef>(type))
-	{
-		unsigned char *value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-		
-		if(value == NULL)
-			return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
-
-		return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, type, value, value + ptrType->subType->size);
-	}
-
-	if(isType<TypeEnum>(type))
-	{
-		int value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, target->source, type);
-
-	if(!storage)
-		return NULL;
-
-	memcpy(storage->ptr, ptr->ptr, unsigned(type->size));
-
-	return new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(target->source, type, storage);
-}
-
-bool CreateInsert(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, ExprBase *value)
-{
-	assert(memory->ptr->ptr + value->type->size <= memory->ptr->end);
-
-	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(value->type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + value->type->size);
-
-	if(!CreateStore(ctx, &addr, value))
-		return false;
-
-	return true;
-}
-
-ExprBase* CreateExtract(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, TypeBase *type)
-{
-	assert(memory->ptr->ptr + type->size <= memory->ptr->end);
-
-	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + type->size);
-
-	return CreateLoad(ctx, &addr);
-}
-
-ExprMemoryLiteral* CreateConstruct(ExpressionEvalContext &ctx, TypeBase *type, ExprBase *el0, ExprBase *el1, ExprBase *el2)
-{
-	long long size = 0;
-	
-	if(el0)
-		size += el0->type->size;
-
-	if(el1)
-		size += el1->type->size;
-
-	if(el2)
-		size += el2->type->size;
-
-	assert(type->size == size);
-
-	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, el0->source, type);
-
-	if(!storage)
-		return NULL;
-
-	ExprMemoryLiteral *memory = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(el0->source, type, storage);
-
-	unsigned offset = 0;
-
-	if(el0 && !CreateInsert(ctx, memory, offset, el0))
-		return NULL;
-	else if(el0)
-		offset += unsigned(el0->type->size);
-
-	if(el1 && !CreateInsert(ctx, memory, offset, el1))
-		return NULL;
-	else if(el1)
-		offset += unsigned(el1->type->size);
-
-	if(el2 && !CreateInsert(ctx, memory, offset, el2))
-		return NULL;
-	else if(el2)
-		offset += unsigned(el2->type->size);
-
-	return memory;
-}
-
-ExprPointerLiteral* FindVariableStorage(ExpressionEvalContext &ctx, VariableData *data, bool skipMissing)
-{
-	if(ctx.stackFrames.empty())
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: no stack frame");
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(unsigned i = 0; i < frame->variables.size(); i++)
-	{
-		ExpressionEvalContext::StackVariable &variable = frame->variables[i];
-
-		if(variable.variable == data)
-			return variable.ptr;
-	}
-
-	if(ctx.globalFrame)
-	{
-		for(unsigned i = 0; i < ctx.globalFrame->variables.size(); i++)
-		{
-			ExpressionEvalContext::StackVariable &variable = ctx.globalFrame->variables[i];
-
-			if(variable.variable == data)
-				return variable.ptr;
-		}
-	}
-
-	if(data->importModule != NULL)
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: can't access external variable '%.*s'", FMT_ISTR(data->name->name));
-
-	if(skipMissing)
-		return NULL;
-
-	return (ExprPointerLiteral*)Report(ctx, "ERROR: variable '%.*s' not found", FMT_ISTR(data->name->name));
-}
-
-bool TryTakeLong(ExprBase *expression, long long &result)
-{
-	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
-	{
-		result = expr->value ? 1 : 0;
-		return true;
-	}
-
-	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
-	{
-		result = (long long)expr->value;
-		return true;
-	}
-
-	return false;
-}
-
-bool TryTakeDouble(ExprBase *expression, double &result)
-{
-	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
-	{
-		result = expr->value ? 1.0 : 0.0;
-		return true;
-	}
-
-	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
-	{
-		result = (double)expr->value;
-		return true;
-	}
-
-	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
-	{
-		result = (double)expr->value;
-		return true;
-	}
-
-	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	return false;
-}
-
-bool TryTakeTypeId(ExprBase *expression, TypeBase* &result)
-{
-	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	return false;
-}
-
-bool TryTakePointer(ExprBase *expression, void* &result)
-{
-	if(isType<ExprNullptrLiteral>(expression))
-	{
-		result = 0;
-		return true;
-	}
-	else if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(expression))
-	{
-		result = expr->ptr;
-		return true;
-	}
-
-	return false;
-}
-
-ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *lhs, ExprBase *unevaluatedRhs, SynBinaryOpType op)
-{
-	if(isType<TypeError>(lhs->type) || isType<TypeError>(unevaluatedRhs->type))
-		return Report(ctx, "ERROR: encountered an error node");
-
-	assert(lhs->type == unevaluatedRhs->type);
-
-	if((ctx.ctx.IsIntegerType(lhs->type) || isType<TypeEnum>(lhs->type)) && (ctx.ctx.IsIntegerType(unevaluatedRhs->type) || isType<TypeEnum>(unevaluatedRhs->type)))
-	{
-		long long lhsValue = 0;
-		long long rhsValue = 0;
-
-		// Short-circuit behaviour
-		if(op == SYN_BINARY_OP_LOGICAL_AND)
-		{
-			if(TryTakeLong(lhs, lhsValue))
-			{
-				if(lhsValue == 0)
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, false);
-
-				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-				if(!rhs)
-					return NULL;
-
-				if(TryTakeLong(rhs, rhsValue))
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
-			}
-
-			return NULL;
-		}
-
-		if(op == SYN_BINARY_OP_LOGICAL_OR)
-		{
-			if(TryTakeLong(lhs, lhsValue))
-			{
-				if(lhsValue == 1)
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, true);
-
-				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-				if(!rhs)
-					return NULL;
-
-				if(TryTakeLong(rhs, rhsValue))
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
-			}
-
-			return NULL;
-		}
-
-		ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-		if(!rhs)
-			return NULL;
-
-		assert(lhs->type == rhs->type);
-
-		TypeBase *resultType = ctx.ctx.typeInt;
-
-		if(lhs->type == ctx.ctx.typeLong || rhs->type == ctx.ctx.typeLong)
-			resultType = ctx.ctx.typeLong;
-
-		if(TryTakeLong(lhs, lhsValue) && TryTakeLong(rhs, rhsValue))
-		{
-			if(resultType == ctx.ctx.typeInt)
-			{
-				int lhsValueInt = int(lhsValue);
-				int rhsValueInt = int(rhsValue);
-
-				switch(op)
-				{
-				case SYN_BINARY_OP_ADD:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt + rhsValueInt);
-				case SYN_BINARY_OP_SUB:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt - rhsValueInt);
-				case SYN_BINARY_OP_MUL:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, int(lhsValueInt * rhsValueInt));
-				case SYN_BINARY_OP_DIV:
-					if(rhsValueInt == 0)
-						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
-				case SYN_BINARY_OP_MOD:
-					if(rhsValueInt == 0)
-						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
-				case SYN_BINARY_OP_POW:
-					if(rhsValueInt < 0)
-						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
-
-					int result, power;
-
-					result = 1;
-					power = rhsValueInt;
-
-					while(power)
-					{
-						if(power & 1)
-						{
-							result *= lhsValueInt;
-							power--;
-						}
-						lhsValueInt *= lhsValueInt;
-						power >>= 1;
-					}
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
-				case SYN_BINARY_OP_SHL:
-					if(rhsValueInt < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt << rhsValueInt);
-				case SYN_BINARY_OP_SHR:
-					if(rhsValueInt < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt >> rhsValueInt);
-				case SYN_BINARY_OP_LESS:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt < rhsValueInt);
-				case SYN_BINARY_OP_LESS_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt <= rhsValueInt);
-				case SYN_BINARY_OP_GREATER:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt > rhsValueInt);
-				case SYN_BINARY_OP_GREATER_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt >= rhsValueInt);
-				case SYN_BINARY_OP_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt == rhsValueInt);
-				case SYN_BINARY_OP_NOT_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt != rhsValueInt);
-				case SYN_BINARY_OP_BIT_AND:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt & rhsValueInt);
-				case SYN_BINARY_OP_BIT_OR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt | rhsValueInt);
-				case SYN_BINARY_OP_BIT_XOR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt ^ rhsValueInt);
-				case SYN_BINARY_OP_LOGICAL_XOR:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValueInt != !!rhsValueInt);
-				default:
-					assert(!"unexpected type");
-					break;
-				}
-			}
-			else
-			{
-				switch(op)
-				{
-				case SYN_BINARY_OP_ADD:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue + rhsValue);
-				case SYN_BINARY_OP_SUB:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue - rhsValue);
-				case SYN_BINARY_OP_MUL:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue * rhsValue);
-				case SYN_BINARY_OP_DIV:
-					if(rhsValue == 0)
-						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
-				case SYN_BINARY_OP_MOD:
-					if(rhsValue == 0)
-						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
-				case SYN_BINARY_OP_POW:
-					if(rhsValue < 0)
-						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
-
-					long long result, power;
-
-					result = 1;
-					power = rhsValue;
-
-					while(power)
-					{
-						if(power & 1)
-						{
-							result *= lhsValue;
-							power--;
-						}
-						lhsValue *= lhsValue;
-						power >>= 1;
-					}
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
-				case SYN_BINARY_OP_SHL:
-					if(rhsValue < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue << rhsValue);
-				case SYN_BINARY_OP_SHR:
-					if(rhsValue < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue >> rhsValue);
-				case SYN_BINARY_OP_LESS:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
-				case SYN_BINARY_OP_LESS_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
-				case SYN_BINARY_OP_GREATER:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
-				case SYN_BINARY_OP_GREATER_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
-				case SYN_BINARY_OP_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
-				case SYN_BINARY_OP_NOT_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
-				case SYN_BINARY_OP_BIT_AND:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue & rhsValue);
-				case SYN_BINARY_OP_BIT_OR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue | rhsValue);
-				case SYN_BINARY_OP_BIT_XOR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue ^ rhsValue);
-				case SYN_BINARY_OP_LOGICAL_XOR:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValue != !!rhsValue);
-				default:
-					assert(!"unexpected type");
-					break;
-				}
-			}
-		}
-
-		return Report(ctx, "ERROR: failed to eval binary op");
-	}
-
-	ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-	if(!rhs)
-		return NULL;
-
-	if(ctx.ctx.IsFloatingPointType(lhs->type) && ctx.ctx.IsFloatingPointType(rhs->type))
-	{
-		assert(lhs->type == rhs->type);
-
-		double lhsValue = 0;
-		double rhsValue = 0;
-
-		if(TryTakeDouble(lhs, lhsValue) && TryTakeDouble(rhs, rhsValue))
-		{
-			switch(op)
-			{
-			case SYN_BINARY_OP_ADD:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue + rhsValue);
-			case SYN_BINARY_OP_SUB:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue - rhsValue);
-			case SYN_BINARY_OP_MUL:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue * rhsValue);
-			case SYN_BINARY_OP_DIV:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue / rhsValue);
-			case SYN_BINARY_OP_MOD:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, fmod(lhsValue, rhsValue));
-			case SYN_BINARY_OP_POW:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, pow(lhsValue, rhsValue));
-			case SYN_BINARY_OP_LESS:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
-			case SYN_BINARY_OP_LESS_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
-			case SYN_BINARY_OP_GREATER:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
-			case SYN_BINARY_OP_GREATER_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
-			case SYN_BINARY_OP_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
-			case SYN_BINARY_OP_NOT_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
-			default:
-				assert(!"unexpected type");
-				break;
-			}
-		}
-	}
-	else if(lhs->type == ctx.ctx.typeTypeID && rhs->type == ctx.ctx.typeTypeID)
-	{
-		TypeBase *lhsValue = NULL;
-		TypeBase *rhsValue = NULL;
-
-		if(TryTakeTypeId(lhs, lhsValue) && TryTakeTypeId(rhs, rhsValue))
-		{
-			if(op == SYN_BINARY_OP_EQUAL)
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
-
-			if(op == SYN_BINARY_OP_NOT_EQUAL)
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
-		}
-	}
-	else if(isType<TypeRef>(lhs->type) && isType<TypeRef>(rhs->type))
-	{
-		assert(lhs->type == rhs->type);
-
-		void *lPtr = NULL;
-
-		if(isType<ExprNullptrLiteral>(lhs))
-			lPtr = NULL;
-		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(lhs))
-			lPtr = value->ptr;
-		else
-			assert(!"unknown type");
-
-		void *rPtr = NULL;
-
-		if(isType<ExprNullptrLiteral>(rhs))
-			rPtr = NULL;
-		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(rhs))
-			rPtr = value->ptr;
-		else
-			assert(!"unknown type");
-
-		if(op == SYN_BINARY_OP_EQUAL)
-			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr == rPtr);
-
-		if(op == SYN_BINARY_OP_NOT_EQUAL)
-			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr != rPtr);
-	}
-
-	return Report(ctx, "ERROR: failed to eval binary op");
-}
-
-ExprBase* CheckType(ExprBase* expression, ExprBase *value)
-{
-	if(isType<TypeError>(expression->type))
-		return NULL;
-
-	assert(expression->type == value->type);
-
-	return value;
-}
-
-ExprBase* EvaluateVoid(ExpressionEvalContext &ctx, ExprBase *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateBoolLiteral(ExpressionEvalContext &ctx, ExprBoolLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateCharacterLiteral(ExpressionEvalContext &ctx, ExprCharacterLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateStringLiteral(ExpressionEvalContext &ctx, ExprStringLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprStringLiteral>()) ExprStringLiteral(expression->source, expression->type, expression->value, expression->length));
-}
-
-ExprBase* EvaluateIntegerLiteral(ExpressionEvalContext &ctx, ExprIntegerLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateRationalLiteral(ExpressionEvalContext &ctx, ExprRationalLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateTypeLiteral(ExpressionEvalContext &ctx, ExprTypeLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateNullptrLiteral(ExpressionEvalContext &ctx, ExprNullptrLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
-}
-
-ExprBase* EvaluateFunctionIndexLiteral(ExpressionEvalContext &ctx, ExprFunctionIndexLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(expression->source, expression->type, expression->function));
-}
-
-ExprBase* EvaluateArray(ExpressionEvalContext &ctx, ExprArray *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, expression->type);
-
-	if(!storage)
-		return NULL;
-
-	TypeArray *arrayType = getType<TypeArray>(expression->type);
-
-	assert(arrayType);
-
-	unsigned offset = 0;
-
-	for(ExprBase *value = expression->values.head; value; value = value->next)
-	{
-		ExprBase *element = Evaluate(ctx, value);
-
-		if(!element)
-			return NULL;
-
-		assert(storage->ptr + offset + arrayType->subType->size <= storage->end);
-
-		unsigned char *targetPtr = storage->ptr + offset;
-
-		ExprPointerLiteral *target = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-		if(!CreateStore(ctx, target, element))
-			return NULL;
-
-		offset += unsigned(arrayType->subType->size);
-	}
-
-	ExprBase *load = CreateLoad(ctx, storage);
-
-	if(!load)
-		return NULL;
-
-	return CheckType(expression, load);
-}
-
-ExprBase* EvaluatePreModify(ExpressionEvalContext &ctx, ExprPreModify *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *ptr = Evaluate(ctx, expression->value);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
-
-	if(!modified)
-		return NULL;
-
-	if(!CreateStore(ctx, ptr, modified))
-		return NULL;
-
-	return CheckType(expression, modified);
-}
-
-ExprBase* EvaluatePostModify(ExpressionEvalContext &ctx, ExprPostModify *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *ptr = Evaluate(ctx, expression->value);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
-
-	if(!modified)
-		return NULL;
-
-	if(!CreateStore(ctx, ptr, modified))
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	switch(expression->category)
-	{
-	case EXPR_CAST_NUMERICAL:
-		if(ctx.ctx.IsIntegerType(expression->type))
-		{
-			long long result = 0;
-
-			if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
-			{
-				if(expression->type == ctx.ctx.typeBool)
-					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, expr->value != 0.0));
-
-				if(expression->type == ctx.ctx.typeChar)
-					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)expr->value));
-
-				if(expression->type == ctx.ctx.typeShort)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)expr->value));
-
-				if(expression->type == ctx.ctx.typeInt)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)expr->value));
-
-				if(expression->type == ctx.ctx.typeLong)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, (long long)expr->value));
-			}
-			else if(TryTakeLong(value, result))
-			{
-				if(expression->type == ctx.ctx.typeBool)
-					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, result != 0));
-
-				if(expression->type == ctx.ctx.typeChar)
-					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)result));
-
-				if(expression->type == ctx.ctx.typeShort)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)result));
-
-				if(expression->type == ctx.ctx.typeInt)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)result));
-
-				if(expression->type == ctx.ctx.typeLong)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, result));
-			}
-		}
-		else if(ctx.ctx.IsFloatingPointType(expression->type))
-		{
-			double result = 0.0;
-
-			if(TryTakeDouble(value, result))
-			{
-				if(expression->type == ctx.ctx.typeFloat)
-					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, (float)result));
-
-				if(expression->type == ctx.ctx.typeDouble)
-					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, result));
-			}
-		}
-		break;
-	case EXPR_CAST_PTR_TO_BOOL:
-		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(value)));
-	case EXPR_CAST_UNSIZED_TO_BOOL:
-		{
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(ptr)));
-		}
-		break;
-	case EXPR_CAST_FUNCTION_TO_BOOL:
-		{
-			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, funcLiteral->data != NULL));
-		}
-		break;
-	case EXPR_CAST_NULL_TO_PTR:
-		return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
-	case EXPR_CAST_NULL_TO_AUTO_PTR:
-		{
-			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
-			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_NULL_TO_UNSIZED:
-		{
-			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-			ExprBase *size = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, ptr, size, NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_NULL_TO_AUTO_ARRAY:
-		{
-			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
-			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-			ExprBase *length = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_NULL_TO_FUNCTION:
-		{
-			ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-			ExprFunctionLiteral *result = new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, context);
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_ARRAY_PTR_TO_UNSIZED:
-		{
-			TypeRef *refType = getType<TypeRef>(value->type);
-
-			assert(refType);
-
-			TypeArray *arrType = getType<TypeArray>(refType->subType);
-
-			assert(arrType);
-			assert(unsigned(arrType->length) == arrType->length);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrType->length), NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_PTR_TO_AUTO_PTR:
-		{
-			TypeRef *refType = getType<TypeRef>(value->type);
-
-			assert(refType);
-
-			TypeClass *classType = getType<TypeClass>(refType->subType);
-
-			ExprBase *typeId = NULL;
-
-			if(classType && (classType->extendable || classType->baseClass))
-			{
-				if(isType<ExprNullptrLiteral>(value))
-					return Report(ctx, "ERROR: null pointer access");
-
-				ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-				assert(ptr);
-				assert(ptr->end - ptr->ptr >= 4);
-
-				typeId = CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), ptr->ptr, ptr->ptr + 4));
-			}
-			else
-			{
-				typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, refType->subType);
-			}
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, value, NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_AUTO_PTR_TO_PTR:
-		{
-			TypeRef *refType = getType<TypeRef>(expression->type);
-
-			assert(refType);
-
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			ExprTypeLiteral *typeId = getType<ExprTypeLiteral>(CreateExtract(ctx, memLiteral, 0, ctx.ctx.typeTypeID));
-
-			if(typeId->value != refType->subType)
-				return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
-
-			ExprBase *ptr = CreateExtract(ctx, memLiteral, 4, refType);
-
-			if(!ptr)
-				return NULL;
-
-			return CheckType(expression, ptr);
-		}
-		break;
-	case EXPR_CAST_UNSIZED_TO_AUTO_ARRAY:
-		{
-			TypeUnsizedArray *arrType = getType<TypeUnsizedArray>(value->type);
-
-			assert(arrType);
-
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrType->subType);
-			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-			ExprBase *length = CreateExtract(ctx, memLiteral, sizeof(void*), ctx.ctx.typeInt);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_REINTERPRET:
-		if(expression->type == ctx.ctx.typeInt && value->type == ctx.ctx.typeTypeID)
-		{
-			ExprTypeLiteral *typeLiteral = getType<ExprTypeLiteral>(value);
-
-			if(isType<TypeError>(typeLiteral->value))
-				return NULL;
-
-			if(isType<TypeArgumentSet>(typeLiteral->value) || isType<TypeMemberSet>(typeLiteral->value))
-				return NULL;
-
-			unsigned index = ctx.ctx.GetTypeIndex(typeLiteral->value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, index));
-		}
-		else if(isType<TypeRef>(expression->type) && isType<TypeRef>(value->type))
-		{
-			TypeRef *refType = getType<TypeRef>(expression->type);
-
-			if(isType<ExprNullptrLiteral>(value))
-				return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
-			
-			if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
-			{
-				(void)refType;
-				assert(uintptr_t(tmp->end - tmp->ptr) >= uintptr_t(refType->subType->size));
-
-				return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, expression->type, tmp->ptr, tmp->end));
-			}
-		}
-		else if(isType<TypeUnsizedArray>(expression->type) && isType<TypeUnsizedArray>(value->type))
-		{
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, expression->type, memLiteral->ptr));
-		}
-		else if(isType<TypeFunction>(expression->type) && isType<TypeFunction>(value->type))
-		{
-			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, funcLiteral->data, funcLiteral->context));
-		}
-		else if(isType<TypeInt>(expression->type) && isType<TypeEnum>(value->type))
-		{
-			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
-		}
-		else if(isType<TypeEnum>(expression->type) && isType<TypeInt>(value->type))
-		{
-			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
-		}
-		break;
-	}
-
-	return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
-}
-
-ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(value->type == ctx.ctx.typeBool)
-	{
-		if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
-		{
-			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
-				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
-		}
-		else if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
-		{
-			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
-				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
-		}
-	}
-	else if(ctx.ctx.IsIntegerType(value->type))
-	{
-		long long result = 0;
-
-		if(TryTakeLong(value, result))
-		{
-			switch(expression->op)
-			{
-			case SYN_UNARY_OP_PLUS:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
-			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
-			case SYN_UNARY_OP_BIT_NOT:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
-			case SYN_UNARY_OP_LOGICAL_NOT:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, !result));
-			default:
-				assert(!"unknown unary operation");
-			}
-		}
-	}
-	else if(ctx.ctx.IsFloatingPointType(value->type))
-	{
-		double result = 0.0;
-
-		if(TryTakeDouble(value, result))
-		{
-			switch(expression->op)
-			{
-			case SYN_UNARY_OP_PLUS:
-				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, result));
-			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, -result));
-			case SYN_UNARY_OP_BIT_NOT:
-			case SYN_UNARY_OP_LOGICAL_NOT:
-				return NULL;
-			default:
-				assert(!"unknown unary operation");
-			}
-		}
-	}
-	else if(isType<TypeRef>(value->type))
-	{
-		void *lPtr = NULL;
-
-		if(isType<ExprNullptrLiteral>(value))
-			lPtr = NULL;
-		else if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
-			lPtr = tmp->ptr;
-		else
-			assert(!"unknown type");
-
-		if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
-			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
-	}
-	else if(value->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-		void *lPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, memLiteral, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
-			return Report(ctx, "ERROR: failed to evaluate auto ref value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
-
-	}
-
-	return Report(ctx, "ERROR: failed to eval unary op");
-}
-
-ExprBase* EvaluateBinaryOp(ExpressionEvalContext &ctx, ExprBinaryOp *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *lhs = Evaluate(ctx, expression->lhs);
-
-	if(!lhs)
-		return NULL;
-
-	// rhs remain unevaluated
-	ExprBase *result = CreateBinaryOp(ctx, expression->source, lhs, expression->rhs, expression->op);
-
-	if(!result)
-		return result;
-
-	return CheckType(expression, result);
-}
-
-ExprBase* EvaluateGetAddress(ExpressionEvalContext &ctx, ExprGetAddress *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable->variable, false);
-
-	if(!ptr)
-		return NULL;
-
-	return CheckType(expression, ptr);
-}
-
-ExprBase* EvaluateDereference(ExpressionEvalContext &ctx, ExprDereference *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *ptr = Evaluate(ctx, expression->value);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateConditional(ExpressionEvalContext &ctx, ExprConditional *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *condition = Evaluate(ctx, expression->condition);
-
-	if(!condition)
-		return NULL;
-
-	long long result;
-	if(!TryTakeLong(condition, result))
-		return Report(ctx, "ERROR: failed to evaluate ternary operator condition");
-
-	ExprBase *value = Evaluate(ctx, result ? expression->trueBlock : expression->falseBlock);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateAssignment(ExpressionEvalContext &ctx, ExprAssignment *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *lhs = Evaluate(ctx, expression->lhs);
-	ExprBase *rhs = Evaluate(ctx, expression->rhs);
-
-	if(!lhs || !rhs)
-		return NULL;
-
-	if(!CreateStore(ctx, lhs, rhs))
-		return NULL;
-
-	return CheckType(expression, rhs);
-}
-
-ExprBase* EvaluateMemberAccess(ExpressionEvalContext &ctx, ExprMemberAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(isType<ExprNullptrLiteral>(value))
-		return Report(ctx, "ERROR: member access of null pointer");
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-	assert(ptr);
-	assert(ptr->ptr + expression->member->variable->offset + expression->member->variable->type->size <= ptr->end);
-
-	unsigned char *targetPtr = ptr->ptr + expression->member->variable->offset;
-
-	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(expression->member->variable->type), targetPtr, targetPtr + expression->member->variable->type->size);
-
-	return CheckType(expression, shifted);
-}
-
-ExprBase* EvaluateArrayIndex(ExpressionEvalContext &ctx, ExprArrayIndex *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	ExprBase *index = Evaluate(ctx, expression->index);
-
-	if(!index)
-		return NULL;
-
-	long long result;
-	if(!TryTakeLong(index, result))
-		return Report(ctx, "ERROR: failed to evaluate array index");
-
-	if(TypeUnsizedArray *arrayType = getType<TypeUnsizedArray>(value->type))
-	{
-		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(value);
-
-		assert(memory);
-
-		ExprBase *value = CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(arrayType->subType));
-
-		if(!value)
-			return NULL;
-
-		if(isType<ExprNullptrLiteral>(value))
-			return Report(ctx, "ERROR: array index of a null array");
-
-		ExprIntegerLiteral *size = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
-
-		if(!size)
-			return NULL;
-
-		if(result < 0 || result >= size->value)
-			return ReportCritical(ctx, "ERROR: array index out of bounds");
-
-		ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-		assert(ptr);
-
-		unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
-
-		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-		return CheckType(expression, shifted);
-	}
-
-	TypeRef *refType = getType<TypeRef>(value->type);
-
-	assert(refType);
-
-	TypeArray *arrayType = getType<TypeArray>(refType->subType);
-
-	assert(arrayType);
-
-	if(isType<ExprNullptrLiteral>(value))
-		return Report(ctx, "ERROR: array index of a null array");
-
-	if(result < 0 || result >= arrayType->length)
-		return ReportCritical(ctx, "ERROR: array index out of bounds");
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-	assert(ptr);
-	assert(ptr->ptr + result * arrayType->subType->size + arrayType->subType->size <= ptr->end);
-
-	unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
-
-	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-	return CheckType(expression, shifted);
-}
-
-ExprBase* EvaluateReturn(ExpressionEvalContext &ctx, ExprReturn *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(frame->targetYield)
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(ctx.stackFrames.empty())
-		return Report(ctx, "ERROR: no stack frame to return from");
-
-	frame->returnValue = value;
-
-	if(expression->coroutineStateUpdate)
-	{
-		if(!Evaluate(ctx, expression->coroutineStateUpdate))
-			return NULL;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateYield(ExpressionEvalContext &ctx, ExprYield *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	// Check if we reached target yield
-	if(frame->targetYield == expression->order)
-	{
-		frame->targetYield = 0;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-
-	if(frame->targetYield)
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(ctx.stackFrames.empty())
-		return Report(ctx, "ERROR: no stack frame to return from");
-
-	frame->returnValue = value;
-
-	if(expression->coroutineStateUpdate)
-	{
-		if(!Evaluate(ctx, expression->coroutineStateUpdate))
-			return NULL;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateVariableDefinition(ExpressionEvalContext &ctx, ExprVariableDefinition *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(FindVariableStorage(ctx, expression->variable->variable, true) == NULL)
-	{
-		TypeBase *type = expression->variable->variable->type;
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, type);
-
-		if(!storage)
-			return NULL;
-
-		frame->variables.push_back(ExpressionEvalContext::StackVariable(expression->variable->variable, storage));
-	}
-
-	if(!frame->targetYield)
-	{
-		if(expression->initializer)
-		{
-			if(!Evaluate(ctx, expression->initializer))
-				return NULL;
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateZeroInitialize(ExpressionEvalContext &ctx, ExprZeroInitialize *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	TypeRef *refType = getType<TypeRef>(expression->address->type);
-
-	assert(refType);
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->address));
-
-	if(!ptr)
-		return NULL;
-
-	assert(ptr->ptr);
-	assert(uintptr_t(ptr->end - ptr->ptr) == unsigned(refType->subType->size));
-
-	memset(ptr->ptr, 0, unsigned(refType->subType->size));
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateArraySetup(ExpressionEvalContext &ctx, ExprArraySetup *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	TypeRef *refType = getType<TypeRef>(expression->lhs->type);
-
-	assert(refType);
-
-	TypeArray *arrayType = getType<TypeArray>(refType->subType);
-
-	assert(arrayType);
-
-	ExprBase *initializer = Evaluate(ctx, expression->initializer);
-
-	if(!initializer)
-		return NULL;
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->lhs));
-
-	if(!ptr)
-		return NULL;
-
-	for(unsigned i = 0; i < unsigned(arrayType->length); i++)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		assert(ptr);
-		assert(ptr->ptr + i * arrayType->subType->size + arrayType->subType->size <= ptr->end);
-
-		unsigned char *targetPtr = ptr->ptr + i * arrayType->subType->size;
-
-		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-		if(!CreateStore(ctx, shifted, initializer))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateVariableDefinitions(ExpressionEvalContext &ctx, ExprVariableDefinitions *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	for(ExprBase *definition = expression->definitions.head; definition; definition = definition->next)
-	{
-		if(!Evaluate(ctx, definition))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateVariableAccess(ExpressionEvalContext &ctx, ExprVariableAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable, false);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateFunctionContextAccess(ExpressionEvalContext &ctx, ExprFunctionContextAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->contextVariable, false);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = NULL;
-
-	TypeRef *refType = getType<TypeRef>(expression->function->contextType);
-
-	assert(refType);
-
-	TypeClass *classType = getType<TypeClass>(refType->subType);
-
-	assert(classType);
-
-	if(classType->members.empty())
-		value = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->function->contextType);
-	else
-		value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateFunctionDefinition(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->function->type, expression->function, context));
-}
-
-ExprBase* EvaluateGenericFunctionPrototype(ExpressionEvalContext &ctx, ExprGenericFunctionPrototype *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	for(ExprBase *expr = expression->contextVariables.head; expr; expr = expr->next)
-	{
-		if(!Evaluate(ctx, expr))
-			return NULL;
-	}
-
-	return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-}
-
-ExprBase* EvaluateFunction(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression, ExprBase *context, ArrayView<ExprBase*> arguments)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	if(ctx.stackFrames.size() >= ctx.stackDepthLimit)
-		return Report(ctx, "ERROR: stack depth limit");
-
-	ctx.stackFrames.push_back(new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, expression->function));
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(ExprVariableDefinition *curr = expression->contextArgument)
-	{
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
-
-		if(!storage)
-			return NULL;
-
-		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
-
-		if(!CreateStore(ctx, storage, context))
-			return NULL;
-	}
-
-	unsigned pos = 0;
-
-	for(ExprVariableDefinition *curr = expression->arguments.head; curr; curr = getType<ExprVariableDefinition>(curr->next))
-	{
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
-
-		if(!storage)
-			return NULL;
-
-		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
-
-		if(!CreateStore(ctx, storage, arguments[pos]))
-			return NULL;
-
-		pos++;
-	}
-
-	if(expression->coroutineStateRead)
-	{
-		if(ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(Evaluate(ctx, expression->coroutineStateRead)))
-		{
-			frame->targetYield = unsigned(jmpOffset->value);
-		}
-		else
-		{
-			return NULL;
-		}
-	}
-
-	for(ExprBase *value = expression->expressions.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-
-		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
-
-		if(frame->returnValue)
-			break;
-	}
-
-	ExprBase *result = frame->returnValue;
-
-	if(!result)
-		return ReportCritical(ctx, "ERROR: function didn't return a value");
-
-	ctx.stackFrames.pop_back();
-
-	return result;
-}
-
-ExprBase* EvaluateFunctionAccess(ExpressionEvalContext &ctx, ExprFunctionAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *context = Evaluate(ctx, expression->context);
-
-	if(!context)
-		return NULL;
-
-	FunctionData *function = expression->function;
-
-	if(function->implementation)
-		function = function->implementation;
-
-	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, function->type, function, context));
-}
-
-ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression, ExprFunctionLiteral *ptr, ArrayView<ExprBase*> arguments)
-{
-	if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		if(value == 0)
-			return Report(ctx, "ERROR: Assertion failed");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeInt && arguments[1]->type == ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeChar))
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(arguments[1]);
-
-		ExprPointerLiteral *str = getType<ExprPointerLiteral>(CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeChar)));
-		ExprIntegerLiteral *length = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
-
-		if(!str)
-			return Report(ctx, "ERROR: null pointer access");
-
-		assert(length);
-
-		if(value == 0)
-			return Report(ctx, "ERROR: %.*s", int(length->value), str->ptr);
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("bool") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, value != 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("char") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeChar, char(value)));
-	}
-	else if(ptr->data->name->name == InplaceStr("short") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, short(value)));
-	}
-	else if(ptr->data->name->name == InplaceStr("int") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, int(value)));
-	}
-	else if(ptr->data->name->name == InplaceStr("long") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, value));
-	}
-	else if(ptr->data->name->name == InplaceStr("float") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
-	{
-		double value;
-		if(!TryTakeDouble(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, value));
-	}
-	else if(ptr->data->name->name == InplaceStr("double") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
-	{
-		double value;
-		if(!TryTakeDouble(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, value));
-	}
-	else if(ptr->data->name->name == InplaceStr("bool::bool") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("char::char") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("short::short") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("int::int") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("long::long") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("float::float") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("double::double") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("__newS"))
-	{
-		long long size;
-		if(!TryTakeLong(arguments[0], size))
-			return Report(ctx, "ERROR: failed to evaluate type size");
-
-		long long type;
-		if(!TryTakeLong(arguments[1], type))
-			return Report(ctx, "ERROR: failed to evaluate type ID");
-
-		TypeBase *target = ctx.ctx.types[unsigned(type)];
-
-		assert(target->size == size);
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, target);
-
-		if(!storage)
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), storage->ptr, storage->end));
-	}
-	else if(ptr->data->name->name == InplaceStr("__newA"))
-	{
-		long long size;
-		if(!TryTakeLong(arguments[0], size))
-			return Report(ctx, "ERROR: failed to evaluate type size");
-
-		long long count;
-		if(!TryTakeLong(arguments[1], count))
-			return Report(ctx, "ERROR: failed to evaluate element count");
-
-		long long type;
-		if(!TryTakeLong(arguments[2], type))
-			return Report(ctx, "ERROR: failed to evaluate type ID");
-
-		TypeBase *target = ctx.ctx.types[unsigned(type)];
-
-		assert(target->size == size);
-
-		if(target->size * unsigned(count) > ctx.variableMemoryLimit)
-			return Report(ctx, "ERROR: single variable memory limit");
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(target, count));
-
-		if(!storage)
-			return NULL;
-
-		ExprBase *result = CreateConstruct(ctx, ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeInt), storage, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count), NULL);
-
-		if(!result)
-			return NULL;
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("__rcomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *lPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *rPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr == rPtr));
-	}
-	else if(ptr->data->name->name == InplaceStr("__rncomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *lPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *rPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr != rPtr));
-	}
-	else if(ptr->data->name->name == InplaceStr("__pcomp"))
-	{
-		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
-		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *aContext = 0;
-		if(a->context && !TryTakePointer(a->context, aContext))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *bContext = 0;
-		if(b->context && !TryTakePointer(b->context, bContext))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data == b->data && aContext == bContext));
-	}
-	else if(ptr->data->name->name == InplaceStr("__pncomp"))
-	{
-		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
-		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *aContext = 0;
-		if(a->context && !TryTakePointer(a->context, aContext))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *bContext = 0;
-		if(b->context && !TryTakePointer(b->context, bContext))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data != b->data || aContext != bContext));
-	}
-	else if(ptr->data->name->name == InplaceStr("__acomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-		assert(a->type->size == b->type->size);
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) == 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("__ancomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-		assert(a->type->size == b->type->size);
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) != 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("__typeCount"))
-	{
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, ctx.ctx.types.size()));
-	}
-	else if(ptr->data->name->name == InplaceStr("__redirect") || ptr->data->name->name == InplaceStr("__redirect_ptr"))
-	{
-		ExprMemoryLiteral *autoRef = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprPointerLiteral *tableRef = getType<ExprPointerLiteral>(arguments[1]);
-
-		if(!tableRef)
-			return Report(ctx, "ERROR: null pointer access");
-
-		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, autoRef, 0, ctx.ctx.typeTypeID));
-
-		assert(typeID);
-
-		unsigned typeIndex = ctx.ctx.GetTypeIndex(typeID->value);
-
-		ExprBase *context = CreateExtract(ctx, autoRef, 4, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]));
-
-		assert(context);
-
-		ExprBase *tableRefLoad = CreateLoad(ctx, tableRef);
-
-		if(!tableRefLoad)
-			return NULL;
-
-		ExprMemoryLiteral *table = getType<ExprMemoryLiteral>(tableRefLoad);
-
-		ExprPointerLiteral *tableArray = getType<ExprPointerLiteral>(CreateExtract(ctx, table, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeFunctionID)));
-		ExprIntegerLiteral *tableSize = getType<ExprIntegerLiteral>(CreateExtract(ctx, table, sizeof(void*), ctx.ctx.typeInt));
-
-		assert(tableArray && tableSize);
-
-		if(typeIndex >= tableSize->value)
-			return Report(ctx, "ERROR: type index is out of bounds of redirection table");
-
-		unsigned char *targetPtr = tableArray->ptr + typeIndex * ctx.ctx.typeTypeID->size;
-
-		unsigned index = 0;
-		memcpy(&index, targetPtr, sizeof(unsigned));
-
-		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
-
-		if(!data)
-		{
-			if(ptr->data->name->name == InplaceStr("__redirect_ptr"))
-				return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]))));
-
-			return Report(ctx, "ERROR: type '%.*s' doesn't implement method", FMT_ISTR(ctx.ctx.types[typeIndex]->name));
-		}
-
-		return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, data, context));
-	}
-	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *object = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(object);
-
-		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, object, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, object, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
-
-		if(!storage)
-			return NULL;
-
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
-
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ptrTypeID->value));
-
-		if(!ptrPtr)
-		{
-			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-			return CheckType(expression, result);
-		}
-
-		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ptrTypeID->value);
-
-		if(!resultPtr)
-			return NULL;
-
-		CreateInsert(ctx, result, 4, resultPtr);
-
-		ExprBase *ptrPtrLoad = CreateLoad(ctx, ptrPtr);
-
-		if(!ptrPtrLoad)
-			return NULL;
-
-		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
-			return NULL;
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoArray)
-	{
-		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(arr);
-
-		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
-		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
-		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
-
-		if(!storage)
-			return NULL;
-
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
-
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
-		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrLen->value));
-
-		if(!arrPtr)
-		{
-			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-
-			return CheckType(expression, result);
-		}
-
-		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value));
-
-		if(!resultPtr)
-			return NULL;
-
-		CreateInsert(ctx, result, 4, resultPtr);
-
-		ExprBase *ptrPtrLoad = CreateLoad(ctx, arrPtr);
-
-		if(!ptrPtrLoad)
-			return NULL;
-
-		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
-			return NULL;
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("typeid") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *reference = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(reference);
-
-		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, reference, 0, ctx.ctx.typeTypeID));
-
-		return CheckType(expression, typeID);
-	}
-	else if(ptr->data->name->name == InplaceStr("auto_array") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeTypeID && arguments[1]->type == ctx.ctx.typeInt)
-	{
-		ExprTypeLiteral *type = getType<ExprTypeLiteral>(arguments[0]);
-		ExprIntegerLiteral *count = getType<ExprIntegerLiteral>(arguments[1]);
-
-		assert(type && count);
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
-
-		if(!storage)
-			return NULL;
-
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
-
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, type->value));
-
-		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(type->value, count->value));
-
-		if(!resultPtr)
-			return NULL;
-
-		CreateInsert(ctx, result, 4, resultPtr);
-		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count->value));
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("array_copy") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeAutoArray && arguments[1]->type == ctx.ctx.typeAutoArray)
-	{
-		ExprMemoryLiteral *dst = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *src = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(dst && src);
-
-		ExprTypeLiteral *dstTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, dst, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *dstPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, dst, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-		ExprIntegerLiteral *dstLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, dst, 4 + sizeof(void*), ctx.ctx.typeInt));
-
-		ExprTypeLiteral *srcTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, src, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *srcPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, src, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-		ExprIntegerLiteral *srcLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, src, 4 + sizeof(void*), ctx.ctx.typeInt));
-
-		if(!dstPtr && !srcPtr)
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-		if(!srcPtr || dstPtr->ptr == srcPtr->ptr)
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-		if(dstTypeID->value != srcTypeID->value)
-			return Report(ctx, "ERROR: destination element type '%.*s' doesn't match source element type '%.*s'", FMT_ISTR(dstTypeID->value->name), FMT_ISTR(srcTypeID->value->name));
-
-		if(dstLen->value < srcLen->value)
-			return Report(ctx, "ERROR: destination array size '%d' is smaller than source array size '%d'", unsigned(dstLen->value), unsigned(srcLen->value));
-
-		memcpy(dstPtr->ptr, srcPtr->ptr, unsigned(dstTypeID->value->size * srcLen->value));
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("[]") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeAutoArray) && arguments[1]->type == ctx.ctx.typeInt)
-	{
-		// Get arguments
-		ExprPointerLiteral *arrPtrArg = getType<ExprPointerLiteral>(arguments[0]);
-
-		if(!arrPtrArg)
-			return Report(ctx, "ERROR: null pointer access");
-
-		ExprIntegerLiteral *indexArg = getType<ExprIntegerLiteral>(arguments[1]);
-
-		assert(indexArg);
-
-		ExprBase *arrPtrLoad = CreateLoad(ctx, arrPtrArg);
-
-		if(!arrPtrLoad)
-			return NULL;
-
-		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arrPtrLoad);
-
-		assert(arr);
-
-		// Check index
-		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
-
-		if(unsigned(indexArg->value) >= arrLen->value)
-			return Report(ctx, "ERROR: array index out of bounds");
-
-		// Load auto[] array type and pointer members
-		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
-
-		// Create storage for result
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
-
-		if(!storage)
-			return NULL;
-
-		// Create result in that storage
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
-
-		// Save typeid
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
-
-		// Save pointer to array element
-		assert(arrPtr->ptr + indexArg->value * arrTypeID->value->size + arrTypeID->value->size <= arrPtr->end);
-
-		unsigned char *targetPtr = arrPtr->ptr + indexArg->value * arrTypeID->value->size;
-
-		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrTypeID->value), targetPtr, targetPtr + arrTypeID->value->size);
-
-		CreateInsert(ctx, result, 4, shifted);
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("__assertCoroutine") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(functionPtr);
-
-		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
-
-		if(!isType<TypeFunction>(ptrTypeID->value))
-			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
-
-		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-		assert(ptrPtr);
-
-		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
-
-		if(!function->data)
-			return Report(ctx, "ERROR: function is not a coroutine'");
-
-		if(!function->data->coroutine)
-			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("isCoroutineReset") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(functionPtr);
-
-		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
-
-		if(!isType<TypeFunction>(ptrTypeID->value))
-			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
-
-		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-		assert(ptrPtr);
-
-		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
-
-		if(!function->data->coroutine)
-			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
-
-		ExprBase *contextLoad = CreateLoad(ctx, function->context);
-
-		if(!contextLoad)
-			return NULL;
-
-		ExprMemoryLiteral *context = getType<ExprMemoryLiteral>(contextLoad);
-
-		// TODO: remove this check, all coroutines must have a context
-		if(!context)
-			return Report(ctx, "ERROR: '%.*s' coroutine has no context'", FMT_ISTR(function->data->name->name));
-
-		ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(CreateExtract(ctx, context, 0, ctx.ctx.typeInt));
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, jmpOffset->value == 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("__assert_derived_from") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeVoid) && arguments[1]->type == ctx.ctx.typeTypeID)
-	{
-		ExprPointerLiteral *object = getType<ExprPointerLiteral>(arguments[0]);
-		ExprTypeLiteral *base = getType<ExprTypeLiteral>(arguments[1]);
-
-		if(!object)
-			return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-
-		assert(uintptr_t(object->end - object->ptr) >= sizeof(unsigned));
-
-		ExprTypeLiteral *derived = getType<ExprTypeLiteral>(CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), object->ptr, object->end)));
-
-		assert(derived);
-
-		TypeBase *curr = derived->value;
-
-		while(curr)
-		{
-			if(curr == base->value)
-				return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(curr), object->ptr, object->ptr + curr->size);
-
-			if(TypeClass *classType = getType<TypeClass>(curr))
-				curr = classType->baseClass;
-			else
-				curr = NULL;
-		}
-
-		return Report(ctx, "ERROR: cannot convert from '%.*s' to '%.*s'", FMT_ISTR(derived->value->name), FMT_ISTR(base->value->name));
-	}
-	else if(ptr->data->name->name == InplaceStr("__closeUpvalue") && arguments.size() == 4)
-	{
-		ExprPointerLiteral *upvalueListLocation = getType<ExprPointerLiteral>(arguments[0]);
-		ExprPointerLiteral *variableLocation = getType<ExprPointerLiteral>(arguments[1]);
-		ExprIntegerLiteral *offsetToCopy = getType<ExprIntegerLiteral>(arguments[2]);
-		ExprIntegerLiteral *copySize = getType<ExprIntegerLiteral>(arguments[3]);
-
-		assert(upvalueListLocation);
-		assert(variableLocation);
-		assert(offsetToCopy);
-		assert(copySize);
-
-		ExprBase *upvalueListHeadBase = CreateLoad(ctx, upvalueListLocation);
-
-		// Nothing to close if the list is empty
-		if(getType<ExprNullptrLiteral>(upvalueListHeadBase))
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-		ExprPointerLiteral *upvalueListHead = getType<ExprPointerLiteral>(upvalueListHeadBase);
-
-		assert(upvalueListHead);
-
-		struct Upvalue
-		{
-			void *target;
-			Upvalue *next;
-		};
-
-		Upvalue *upvalue = (Upvalue*)upvalueListHead->ptr;
-
-		assert(upvalue);
-
-		while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
-		{
-			Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
-
-			unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
-			memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
-			WriteVmMemoryPointer(&upvalue->target, copy);
-			WriteVmMemoryPointer(&upvalue->next, NULL);
-
-			upvalue = next;
-		}
-
-		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)upvalue, (unsigned char*)upvalue + NULLC_PTR_SIZE)))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-
-	return NULL;
-}
-
-ExprBase* EvaluateFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-	
-	ExprBase *function = Evaluate(ctx, expression->function);
-
-	if(!function)
-		return NULL;
-
-	SmallArray<ExprBase*, 8> arguments(ctx.ctx.allocator);
-
-	for(ExprBase *curr = expression->arguments.head; curr; curr = curr->next)
-	{
-		ExprBase *value = Evaluate(ctx, curr);
-
-		if(!value)
-			return NULL;
-
-		arguments.push_back(value);
-	}
-
-	ExprFunctionLiteral *ptr = getType<ExprFunctionLiteral>(function);
-
-	if(!ptr)
-		return NULL;
-
-	if(!ptr->data)
-		return Report(ctx, "ERROR: null function pointer call");
-
-	if(!ptr->data->declaration)
-	{
-		if(ctx.emulateKnownExternals && ctx.ctx.GetFunctionIndex(ptr->data) < ctx.ctx.baseModuleFunctionCount)
-		{
-			if(ExprBase *result = EvaluateKnownExternalFunctionCall(ctx, expression, ptr, arguments))
-				return result;
-		}
-
-		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
-	}
-
-	if(ptr->data->isPrototype)
-		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
-
-	ExprFunctionDefinition *declaration = getType<ExprFunctionDefinition>(ptr->data->declaration);
-
-	assert(declaration);
-
-	if(declaration->arguments.size() != arguments.size())
-		return NULL;
-
-	ExprBase *call = EvaluateFunction(ctx, declaration, ptr->context, arguments);
-
-	if(!call)
-		return NULL;
-
-	return CheckType(expression, call);
-}
-
-ExprBase* EvaluateIfElse(ExpressionEvalContext &ctx, ExprIfElse *expression)
-{
-	if(ctx.stackFrames.back()->targetYield)
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *condition = Evaluate(ctx, expression->condition);
-
-	if(!condition)
-		return NULL;
-
-	long long result;
-	if(!TryTakeLong(condition, result))
-		return Report(ctx, "ERROR: failed to evaluate 'if' condition");
-
-	if(result)
-	{
-		if(!Evaluate(ctx, expression->trueBlock))
-			return NULL;
-	}
-	else if(expression->falseBlock)
-	{
-		if(!Evaluate(ctx, expression->falseBlock))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateFor(ExpressionEvalContext &ctx, ExprFor *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(!frame->targetYield)
-	{
-		if(!Evaluate(ctx, expression->initializer))
-			return NULL;
-	}
-
-	for(;;)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!frame->targetYield)
-		{
-			if(!expression->condition)
-				return NULL;
-
-			ExprBase *condition = Evaluate(ctx, expression->condition);
-
-			if(!condition)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(condition, result))
-				return Report(ctx, "ERROR: failed to evaluate 'for' condition");
-
-			if(!result)
-				break;
-		}
-
-		if(!Evaluate(ctx, expression->body))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-			break;
-		}
-
-		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
-		if(frame->continueDepth)
-		{
-			frame->continueDepth--;
-
-			if(frame->continueDepth)
-				break;
-		}
-
-		if(frame->returnValue)
-			break;
-
-		if(!frame->targetYield)
-		{
-			if(!Evaluate(ctx, expression->increment))
-				return NULL;
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateWhile(ExpressionEvalContext &ctx, ExprWhile *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(;;)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!frame->targetYield)
-		{
-			ExprBase *condition = Evaluate(ctx, expression->condition);
-
-			if(!condition)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(condition, result))
-				return Report(ctx, "ERROR: failed to evaluate 'while' condition");
-
-			if(!result)
-				break;
-		}
-
-		if(!Evaluate(ctx, expression->body))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-			break;
-		}
-
-		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
-		if(frame->continueDepth)
-		{
-			frame->continueDepth--;
-
-			if(frame->continueDepth)
-				break;
-		}
-
-		if(frame->returnValue)
-			break;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateDoWhile(ExpressionEvalContext &ctx, ExprDoWhile *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(;;)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!Evaluate(ctx, expression->body))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-			break;
-		}
-
-		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
-		if(frame->continueDepth)
-		{
-			frame->continueDepth--;
-
-			if(frame->continueDepth)
-				break;
-		}
-
-		if(frame->returnValue)
-			break;
-
-		if(!frame->targetYield)
-		{
-			ExprBase *condition = Evaluate(ctx, expression->condition);
-
-			if(!condition)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(condition, result))
-				return Report(ctx, "ERROR: failed to evaluate 'do' condition");
-
-			if(!result)
-				break;
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateSwitch(ExpressionEvalContext &ctx, ExprSwitch *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(frame->targetYield)
-		return Report(ctx, "ERROR: can't yield back into a switch statement");
-
-	ExprBase *condition = Evaluate(ctx, expression->condition);
-
-	if(!condition)
-		return NULL;
-
-	bool matched = false;
-
-	for(ExprBase *currCase = expression->cases.head, *currBlock = expression->blocks.head; currCase && currBlock; currCase = currCase->next, currBlock = currBlock->next)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!matched)
-		{
-			ExprBase *value = Evaluate(ctx, currCase);
-
-			if(!value)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(value, result))
-				return Report(ctx, "ERROR: failed to evaluate 'case' value");
-
-			// Try next case
-			if(!result)
-				continue;
-
-			matched = true;
-		}
-
-		if(!Evaluate(ctx, currBlock))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-		}
-	}
-
-	if(expression->defaultBlock)
-	{
-		if(!Evaluate(ctx, expression->defaultBlock))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateBreak(ExpressionEvalContext &ctx, ExprBreak *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(!frame->targetYield)
-	{
-		assert(frame->breakDepth == 0);
-
-		frame->breakDepth = expression->depth;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateContinue(ExpressionEvalContext &ctx, ExprContinue *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(!frame->targetYield)
-	{
-		assert(frame->continueDepth == 0);
-
-		frame->continueDepth = expression->depth;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateBlock(ExpressionEvalContext &ctx, ExprBlock *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(ExprBase *value = expression->expressions.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-
-		if(frame->continueDepth || frame->breakDepth || frame->returnValue)
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateSequence(ExpressionEvalContext &ctx, ExprSequence *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *result = new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	for(unsigned i = 0; i < expression->expressions.size(); i++)
-	{
-		result = Evaluate(ctx, expression->expressions[i]);
-
-		if(!result)
-			return NULL;
-	}
-
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	return CheckType(expression, result);
-}
-
-ExprBase* EvaluateModule(ExpressionEvalContext &ctx, ExprModule *expression)
-{
-	ctx.globalFrame = new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, NULL);
-	ctx.stackFrames.push_back(ctx.globalFrame);
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(ExprBase *value = expression->setup.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-	}
-
-	for(ExprBase *value = expression->expressions.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-
-		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
-
-		if(frame->returnValue)
-			return frame->returnValue;
-	}
-
-	ctx.stackFrames.pop_back();
-
-	assert(ctx.stackFrames.empty());
-
-	return NULL;
-}
-
-ExprBase* Evaluate(ExpressionEvalContext &ctx, ExprBase *expression)
-{
-	if(isType<TypeError>(expression->type))
-		return NULL;
-
-	ctx.expressionDepth++;
-
-	if(ctx.expressionDepth > ctx.expressionDepthLimit)
-		return Report(ctx, "ERROR: expression depth limit reached");
-
-	ExprBase *result = NULL;
-
-	switch(expression->typeID)
-	{
-	case ExprError::myTypeID:
-		result = Report(ctx, "ERROR: invalid expression");
-		break;
-	case ExprErrorTypeMemberAccess::myTypeID:
-		result = Report(ctx, "ERROR: invalid expression");
-		break;
-	case ExprVoid::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprBoolLiteral::myTypeID:
-		result = EvaluateBoolLiteral(ctx, (ExprBoolLiteral*)expression);
-		break;
-	case ExprCharacterLiteral::myTypeID:
-		result = EvaluateCharacterLiteral(ctx, (ExprCharacterLiteral*)expression);
-		break;
-	case ExprStringLiteral::myTypeID:
-		result = EvaluateStringLiteral(ctx, (ExprStringLiteral*)expression);
-		break;
-	case ExprIntegerLiteral::myTypeID:
-		result = EvaluateIntegerLiteral(ctx, (ExprIntegerLiteral*)expression);
-		break;
-	case ExprRationalLiteral::myTypeID:
-		result = EvaluateRationalLiteral(ctx, (ExprRationalLiteral*)expression);
-		break;
-	case ExprTypeLiteral::myTypeID:
-		result = EvaluateTypeLiteral(ctx, (ExprTypeLiteral*)expression);
-		break;
-	case ExprNullptrLiteral::myTypeID:
-		result = EvaluateNullptrLiteral(ctx, (ExprNullptrLiteral*)expression);
-		break;
-	case ExprFunctionIndexLiteral::myTypeID:
-		result = EvaluateFunctionIndexLiteral(ctx, (ExprFunctionIndexLiteral*)expression);
-		break;
-	case ExprPassthrough::myTypeID:
-		result = Evaluate(ctx, ((ExprPassthrough*)expression)->value);
-		break;
-	case ExprArray::myTypeID:
-		result = EvaluateArray(ctx, (ExprArray*)expression);
-		break;
-	case ExprPreModify::myTypeID:
-		result = EvaluatePreModify(ctx, (ExprPreModify*)expression);
-		break;
-	case ExprPostModify::myTypeID:
-		result = EvaluatePostModify(ctx, (ExprPostModify*)expression);
-		break;
-	case ExprTypeCast::myTypeID:
-		result = EvaluateCast(ctx, (ExprTypeCast*)expression);
-		break;
-	case ExprUnaryOp::myTypeID:
-		result = EvaluateUnaryOp(ctx, (ExprUnaryOp*)expression);
-		break;
-	case ExprBinaryOp::myTypeID:
-		result = EvaluateBinaryOp(ctx, (ExprBinaryOp*)expression);
-		break;
-	case ExprGetAddress::myTypeID:
-		result = EvaluateGetAddress(ctx, (ExprGetAddress*)expression);
-		break;
-	case ExprDereference::myTypeID:
-		result = EvaluateDereference(ctx, (ExprDereference*)expression);
-		break;
-	case ExprUnboxing::myTypeID:
-		result = Evaluate(ctx, ((ExprUnboxing*)expression)->value);
-		break;
-	case ExprConditional::myTypeID:
-		result = EvaluateConditional(ctx, (ExprConditional*)expression);
-		break;
-	case ExprAssignment::myTypeID:
-		result = EvaluateAssignment(ctx, (ExprAssignment*)expression);
-		break;
-	case ExprMemberAccess::myTypeID:
-		result = EvaluateMemberAccess(ctx, (ExprMemberAccess*)expression);
-		break;
-	case ExprArrayIndex::myTypeID:
-		result = EvaluateArrayIndex(ctx, (ExprArrayIndex*)expression);
-		break;
-	case ExprReturn::myTypeID:
-		result = EvaluateReturn(ctx, (ExprReturn*)expression);
-		break;
-	case ExprYield::myTypeID:
-		result = EvaluateYield(ctx, (ExprYield*)expression);
-		break;
-	case ExprVariableDefinition::myTypeID:
-		result = EvaluateVariableDefinition(ctx, (ExprVariableDefinition*)expression);
-		break;
-	case ExprZeroInitialize::myTypeID:
-		result = EvaluateZeroInitialize(ctx, (ExprZeroInitialize*)expression);
-		break;
-	case ExprArraySetup::myTypeID:
-		result = EvaluateArraySetup(ctx, (ExprArraySetup*)expression);
-		break;
-	case ExprVariableDefinitions::myTypeID:
-		result = EvaluateVariableDefinitions(ctx, (ExprVariableDefinitions*)expression);
-		break;
-	case ExprVariableAccess::myTypeID:
-		result = EvaluateVariableAccess(ctx, (ExprVariableAccess*)expression);
-		break;
-	case ExprFunctionContextAccess::myTypeID:
-		result = EvaluateFunctionContextAccess(ctx, (ExprFunctionContextAccess*)expression);
-		break;
-	case ExprFunctionDefinition::myTypeID:
-		result = EvaluateFunctionDefinition(ctx, (ExprFunctionDefinition*)expression);
-		break;
-	case ExprGenericFunctionPrototype::myTypeID:
-		result = EvaluateGenericFunctionPrototype(ctx, (ExprGenericFunctionPrototype*)expression);
-		break;
-	case ExprFunctionAccess::myTypeID:
-		result = EvaluateFunctionAccess(ctx, (ExprFunctionAccess*)expression);
-		break;
-	case ExprFunctionOverloadSet::myTypeID:
-		result = NULL;
-		break;
-	case ExprShortFunctionOverloadSet::myTypeID:
-		result = NULL;
-		break;
-	case ExprFunctionCall::myTypeID:
-		result = EvaluateFunctionCall(ctx, (ExprFunctionCall*)expression);
-		break;
-	case ExprAliasDefinition::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprClassPrototype::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprGenericClassPrototype::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprClassDefinition::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprEnumDefinition::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprIfElse::myTypeID:
-		result = EvaluateIfElse(ctx, (ExprIfElse*)expression);
-		break;
-	case ExprFor::myTypeID:
-		result = EvaluateFor(ctx, (ExprFor*)expression);
-		break;
-	case ExprWhile::myTypeID:
-		result = EvaluateWhile(ctx, (ExprWhile*)expression);
-		break;
-	case ExprDoWhile::myTypeID:
-		result = EvaluateDoWhile(ctx, (ExprDoWhile*)expression);
-		break;
-	case ExprSwitch::myTypeID:
-		result = EvaluateSwitch(ctx, (ExprSwitch*)expression);
-		break;
-	case ExprBreak::myTypeID:
-		result = EvaluateBreak(ctx, (ExprBreak*)expression);
-		break;
-	case ExprContinue::myTypeID:
-		result = EvaluateContinue(ctx, (ExprContinue*)expression);
-		break;
-	case ExprBlock::myTypeID:
-		result = EvaluateBlock(ctx, (ExprBlock*)expression);
-		break;
-	case ExprSequence::myTypeID:
-		result = EvaluateSequence(ctx, (ExprSequence*)expression);
-		break;
-	case ExprModule::myTypeID:
-		result = EvaluateModule(ctx, (ExprModule*)expression);
-		break;
-	default:
-		assert(!"unknown type");
-		break;
-	}
-
-	ctx.expressionDepth--;
-
-	return result;
-}
-
-bool EvaluateToBuffer(ExpressionEvalContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize)
-{
-	if(ExprBase *value = Evaluate(ctx, expression))
-	{
-		if(ExprBoolLiteral *result = getType<ExprBoolLiteral>(value))
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value ? 1 : 0);
-		}
-		else if(ExprCharacterLiteral *result = getType<ExprCharacterLiteral>(value))
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value);
-		}
-		else if(ExprIntegerLiteral *result = getType<ExprIntegerLiteral>(value))
-		{
-			if(result->type == ctx.ctx.typeLong)
-				NULLC::SafeSprintf(resultBuf, resultBufSize, "%lldL", result->value);
-			else
-				NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", int(result->value));
-		}
-		else if(ExprRationalLiteral *result = getType<ExprRationalLiteral>(value))
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "%f", result->value);
-		}
-		else
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "unknown");
-		}
-
-		return true;
-	}
-
-	return false;
-}
-
-bool TestEvaluation(ExpressionContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize, char *errorBuf, unsigned errorBufSize)
-{
-	if(!expression)
-		return false;
-
-	ExpressionEvalContext evalCtx(ctx, ctx.allocator);
-
-	evalCtx.errorBuf = errorBuf;
-	evalCtx.errorBufSize = errorBufSize;
-
-	evalCtx.emulateKnownExternals = true;
-
-	return EvaluateToBuffer(evalCtx, expression, resultBuf, resultBufSize);
-}
+#include "ExpressionEval.h"
+
+#include <limits.h>
+#include <math.h>
+
+#include "ExpressionTree.h"
+
+#define FMT_ISTR(x) unsigned(x.end - x.begin), x.begin
+
+namespace
+{
+	void* ReadVmMemoryPointer(void* address)
+	{
+		void *result;
+		memcpy(&result, address, sizeof(void*));
+		return result;
+	}
+
+	void WriteVmMemoryPointer(void* address, void *value)
+	{
+		memcpy(address, &value, sizeof(void*));
+	}
+}
+
+NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* Report(ExpressionEvalContext &ctx, const char *msg, ...)
+{
+	if(ctx.errorBuf && ctx.errorBufSize)
+	{
+		va_list args;
+		va_start(args, msg);
+
+		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
+
+		va_end(args);
+
+		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
+	}
+
+	ctx.errorCritical = false;
+
+	return NULL;
+}
+
+NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* ReportCritical(ExpressionEvalContext &ctx, const char *msg, ...)
+{
+	if(ctx.errorBuf && ctx.errorBufSize)
+	{
+		va_list args;
+		va_start(args, msg);
+
+		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
+
+		va_end(args);
+
+		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
+	}
+
+	ctx.errorCritical = true;
+
+	return NULL;
+}
+
+bool AddInstruction(ExpressionEvalContext &ctx)
+{
+	if(ctx.instruction < ctx.instructionsLimit)
+	{
+		ctx.instruction++;
+		return true;
+	}
+
+	Report(ctx, "ERROR: instruction limit reached");
+
+	return false;
+}
+
+ExprPointerLiteral* AllocateTypeStorage(ExpressionEvalContext &ctx, SynBase *source, TypeBase *type)
+{
+	if(isType<TypeError>(type))
+		return NULL;
+
+	for(unsigned i = 0; i < ctx.abandonedMemory.size(); i++)
+	{
+		ExprPointerLiteral *ptr = ctx.abandonedMemory[i];
+
+		if(ptr->end - ptr->ptr == type->size)
+		{
+			ptr->type = ctx.ctx.GetReferenceType(type);
+
+			memset(ptr->ptr, 0, unsigned(type->size));
+
+			ctx.abandonedMemory[i] = ctx.abandonedMemory.back();
+			ctx.abandonedMemory.pop_back();
+
+			return ptr;
+		}
+	}
+
+	if(type->size > ctx.variableMemoryLimit)
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: single variable memory limit");
+
+	if(ctx.totalMemory + type->size > ctx.totalMemoryLimit)
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: total variable memory limit");
+
+	ctx.totalMemory += unsigned(type->size);
+
+	unsigned char *memory = (unsigned char*)ctx.ctx.allocator->alloc(unsigned(type->size));
+
+	memset(memory, 0, unsigned(type->size));
+
+	return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(source, ctx.ctx.GetReferenceType(type), memory, memory + type->size);
+}
+
+void FreeMemoryLiteral(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory)
+{
+	ctx.abandonedMemory.push_back(memory->ptr);
+}
+
+bool CreateStore(ExpressionEvalContext &ctx, ExprBase *target, ExprBase *value)
+{
+	// No side-effects while coroutine is skipping to target node
+	if(!ctx.stackFrames.empty())
+		assert(ctx.stackFrames.back()->targetYield == 0);
+
+	if(isType<ExprNullptrLiteral>(target))
+	{
+		Report(ctx, "ERROR: store to null pointer");
+
+		return false;
+	}
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
+
+	assert(ptr);
+	assert(ptr->ptr + value->type->size <= ptr->end);
+
+	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
+	{
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(value))
+	{
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprStringLiteral *expr = getType<ExprStringLiteral>(value))
+	{
+		memcpy(ptr->ptr, expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
+	{
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
+	{
+		if(expr->type == ctx.ctx.typeFloat)
+		{
+			float tmp = float(expr->value);
+			memcpy(ptr->ptr, &tmp, unsigned(value->type->size));
+			return true;
+		}
+
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(value))
+	{
+		if(isType<TypeError>(expr->value))
+			return false;
+
+		if(isType<TypeArgumentSet>(expr->value) || isType<TypeMemberSet>(expr->value))
+			return false;
+
+		unsigned index = ctx.ctx.GetTypeIndex(expr->value);
+		memcpy(ptr->ptr, &index, unsigned(value->type->size));
+		return true;
+	}
+
+	if(isType<ExprNullptrLiteral>(value))
+	{
+		memset(ptr->ptr, 0, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprFunctionIndexLiteral *expr = getType<ExprFunctionIndexLiteral>(value))
+	{
+		unsigned index = expr->function ? ctx.ctx.GetFunctionIndex(expr->function) + 1 : 0;
+		memcpy(ptr->ptr, &index, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprFunctionLiteral *expr = getType<ExprFunctionLiteral>(value))
+	{
+		unsigned index = expr->data ? ctx.ctx.GetFunctionIndex(expr->data) + 1 : 0;
+		memcpy(ptr->ptr, &index, sizeof(unsigned));
+
+		if(isType<ExprNullptrLiteral>(expr->context))
+			memset(ptr->ptr + 4, 0, sizeof(void*));
+		else if(ExprPointerLiteral *context = getType<ExprPointerLiteral>(expr->context))
+			memcpy(ptr->ptr + 4, &context->ptr, sizeof(void*));
+		else
+			return false;
+
+		return true;
+	}
+
+	if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(value))
+	{
+		TypeRef *ptrType = getType<TypeRef>(expr->type);
+
+		(void)ptrType;
+		assert(ptrType);
+		assert(expr->ptr + ptrType->subType->size <= expr->end);
+
+		memcpy(ptr->ptr, &expr->ptr, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprMemoryLiteral *expr = getType<ExprMemoryLiteral>(value))
+	{
+		memcpy(ptr->ptr, expr->ptr->ptr, unsigned(value->type->size));
+		return true;
+	}
+
+	Report(ctx, "ERROR: unknown store type");
+
+	return false;
+}
+
+ExprBase* CreateLoad(ExpressionEvalContext &ctx, ExprBase *target)
+{
+	// No side-effects while coroutine is skipping to target node
+	if(!ctx.stackFrames.empty())
+		assert(ctx.stackFrames.back()->targetYield == 0);
+
+	if(isType<ExprNullptrLiteral>(target))
+	{
+		Report(ctx, "ERROR: load from null pointer");
+
+		return NULL;
+	}
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
+
+	assert(ptr);
+
+	TypeRef *refType = getType<TypeRef>(target->type);
+
+	assert(refType);
+
+	TypeBase *type = refType->subType;
+
+	assert(ptr->ptr + type->size <= ptr->end);
+
+	if(type == ctx.ctx.typeBool)
+	{
+		bool value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeChar)
+	{
+		signed char value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeShort)
+	{
+		short value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeInt)
+	{
+		int value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeLong)
+	{
+		long long value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeFloat)
+	{
+		float value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeDouble)
+	{
+		double value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeTypeID)
+	{
+		unsigned index = 0;
+		memcpy(&index, ptr->ptr, sizeof(unsigned));
+
+		TypeBase *data = ctx.ctx.types[index];
+
+		return new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(target->source, type, data);
+	}
+
+	if(type == ctx.ctx.typeFunctionID)
+	{
+		unsigned index = 0;
+		memcpy(&index, ptr->ptr, sizeof(unsigned));
+
+		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
+
+		return new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(target->source, type, data);
+	}
+
+	if(type == ctx.ctx.typeNullPtr)
+	{
+		return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
+	}
+
+	if(isType<TypeFunction>(type))
+	{
+		unsigned index = 0;
+		memcpy(&index, ptr->ptr, sizeof(unsigned));
+
+		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
+
+		unsigned char *value = 0;
+		memcpy(&value, ptr->ptr + 4, sizeof(value));
+		
+		if(!data)
+		{
+			assert(value == NULL);
+
+			return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+		}
+
+		TypeRef *ptrType = getType<TypeRef>(data->contextType);
+
+		assert(ptrType);
+
+		ExprBase *context = NULL;
+
+		if(value == NULL)
+			context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ptrType);
+		else
+			context = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, ptrType, value, value + ptrType->subType->size);
+
+		return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, data, context);
+	}
+
+	if(TypeRef *ptrType = getType<TypeRef>(type))
+	{
+		unsigned char *value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+		
+		if(value == NULL)
+			return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
+
+		return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, type, value, value + ptrType->subType->size);
+	}
+
+	if(isType<TypeEnum>(type))
+	{
+		int value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, target->source, type);
+
+	if(!storage)
+		return NULL;
+
+	memcpy(storage->ptr, ptr->ptr, unsigned(type->size));
+
+	return new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(target->source, type, storage);
+}
+
+bool CreateInsert(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, ExprBase *value)
+{
+	assert(memory->ptr->ptr + value->type->size <= memory->ptr->end);
+
+	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(value->type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + value->type->size);
+
+	if(!CreateStore(ctx, &addr, value))
+		return false;
+
+	return true;
+}
+
+ExprBase* CreateExtract(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, TypeBase *type)
+{
+	assert(memory->ptr->ptr + type->size <= memory->ptr->end);
+
+	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + type->size);
+
+	return CreateLoad(ctx, &addr);
+}
+
+ExprMemoryLiteral* CreateConstruct(ExpressionEvalContext &ctx, TypeBase *type, ExprBase *el0, ExprBase *el1, ExprBase *el2)
+{
+	long long size = 0;
+	
+	if(el0)
+		size += el0->type->size;
+
+	if(el1)
+		size += el1->type->size;
+
+	if(el2)
+		size += el2->type->size;
+
+	assert(type->size == size);
+
+	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, el0->source, type);
+
+	if(!storage)
+		return NULL;
+
+	ExprMemoryLiteral *memory = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(el0->source, type, storage);
+
+	unsigned offset = 0;
+
+	if(el0 && !CreateInsert(ctx, memory, offset, el0))
+		return NULL;
+	else if(el0)
+		offset += unsigned(el0->type->size);
+
+	if(el1 && !CreateInsert(ctx, memory, offset, el1))
+		return NULL;
+	else if(el1)
+		offset += unsigned(el1->type->size);
+
+	if(el2 && !CreateInsert(ctx, memory, offset, el2))
+		return NULL;
+	else if(el2)
+		offset += unsigned(el2->type->size);
+
+	return memory;
+}
+
+ExprPointerLiteral* FindVariableStorage(ExpressionEvalContext &ctx, VariableData *data, bool skipMissing)
+{
+	if(ctx.stackFrames.empty())
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: no stack frame");
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(unsigned i = 0; i < frame->variables.size(); i++)
+	{
+		ExpressionEvalContext::StackVariable &variable = frame->variables[i];
+
+		if(variable.variable == data)
+			return variable.ptr;
+	}
+
+	if(ctx.globalFrame)
+	{
+		for(unsigned i = 0; i < ctx.globalFrame->variables.size(); i++)
+		{
+			ExpressionEvalContext::StackVariable &variable = ctx.globalFrame->variables[i];
+
+			if(variable.variable == data)
+				return variable.ptr;
+		}
+	}
+
+	if(data->importModule != NULL)
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: can't access external variable '%.*s'", FMT_ISTR(data->name->name));
+
+	if(skipMissing)
+		return NULL;
+
+	return (ExprPointerLiteral*)Report(ctx, "ERROR: variable '%.*s' not found", FMT_ISTR(data->name->name));
+}
+
+bool TryTakeLong(ExprBase *expression, long long &result)
+{
+	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
+	{
+		result = expr->value ? 1 : 0;
+		return true;
+	}
+
+	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
+	{
+		result = (long long)expr->value;
+		return true;
+	}
+
+	return false;
+}
+
+bool TryTakeDouble(ExprBase *expression, double &result)
+{
+	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
+	{
+		result = expr->value ? 1.0 : 0.0;
+		return true;
+	}
+
+	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
+	{
+		result = (double)expr->value;
+		return true;
+	}
+
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
+	{
+		result = (double)expr->value;
+		return true;
+	}
+
+	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	return false;
+}
+
+bool TryTakeTypeId(ExprBase *expression, TypeBase* &result)
+{
+	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	return false;
+}
+
+bool TryTakePointer(ExprBase *expression, void* &result)
+{
+	if(isType<ExprNullptrLiteral>(expression))
+	{
+		result = 0;
+		return true;
+	}
+	else if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(expression))
+	{
+		result = expr->ptr;
+		return true;
+	}
+
+	return false;
+}
+
+ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *lhs, ExprBase *unevaluatedRhs, SynBinaryOpType op)
+{
+	if(isType<TypeError>(lhs->type) || isType<TypeError>(unevaluatedRhs->type))
+		return Report(ctx, "ERROR: encountered an error node");
+
+	assert(lhs->type == unevaluatedRhs->type);
+
+	if((ctx.ctx.IsIntegerType(lhs->type) || isType<TypeEnum>(lhs->type)) && (ctx.ctx.IsIntegerType(unevaluatedRhs->type) || isType<TypeEnum>(unevaluatedRhs->type)))
+	{
+		long long lhsValue = 0;
+		long long rhsValue = 0;
+
+		// Short-circuit behaviour
+		if(op == SYN_BINARY_OP_LOGICAL_AND)
+		{
+			if(TryTakeLong(lhs, lhsValue))
+			{
+				if(lhsValue == 0)
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, false);
+
+				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+				if(!rhs)
+					return NULL;
+
+				if(TryTakeLong(rhs, rhsValue))
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
+			}
+
+			return NULL;
+		}
+
+		if(op == SYN_BINARY_OP_LOGICAL_OR)
+		{
+			if(TryTakeLong(lhs, lhsValue))
+			{
+				if(lhsValue == 1)
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, true);
+
+				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+				if(!rhs)
+					return NULL;
+
+				if(TryTakeLong(rhs, rhsValue))
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
+			}
+
+			return NULL;
+		}
+
+		ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+		if(!rhs)
+			return NULL;
+
+		assert(lhs->type == rhs->type);
+
+		TypeBase *resultType = ctx.ctx.typeInt;
+
+		if(lhs->type == ctx.ctx.typeLong || rhs->type == ctx.ctx.typeLong)
+			resultType = ctx.ctx.typeLong;
+
+		if(TryTakeLong(lhs, lhsValue) && TryTakeLong(rhs, rhsValue))
+		{
+			if(resultType == ctx.ctx.typeInt)
+			{
+				int lhsValueInt = int(lhsValue);
+				int rhsValueInt = int(rhsValue);
+
+				switch(op)
+				{
+				case SYN_BINARY_OP_ADD:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt + rhsValueInt);
+				case SYN_BINARY_OP_SUB:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt - rhsValueInt);
+				case SYN_BINARY_OP_MUL:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, int(lhsValueInt * rhsValueInt));
+				case SYN_BINARY_OP_DIV:
+					if(rhsValueInt == 0)
+						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
+
+					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
+				case SYN_BINARY_OP_MOD:
+					if(rhsValueInt == 0)
+						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
+
+					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
+				case SYN_BINARY_OP_POW:
+					if(rhsValueInt < 0)
+						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
+
+					int result, power;
+
+					result = 1;
+					power = rhsValueInt;
+
+					while(power)
+					{
+						if(power & 1)
+						{
+							result *= lhsValueInt;
+							power--;
+						}
+						lhsValueInt *= lhsValueInt;
+						power >>= 1;
+					}
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
+				case SYN_BINARY_OP_SHL:
+					if(rhsValueInt < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt << rhsValueInt);
+				case SYN_BINARY_OP_SHR:
+					if(rhsValueInt < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt >> rhsValueInt);
+				case SYN_BINARY_OP_LESS:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt < rhsValueInt);
+				case SYN_BINARY_OP_LESS_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt <= rhsValueInt);
+				case SYN_BINARY_OP_GREATER:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt > rhsValueInt);
+				case SYN_BINARY_OP_GREATER_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt >= rhsValueInt);
+				case SYN_BINARY_OP_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt == rhsValueInt);
+				case SYN_BINARY_OP_NOT_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt != rhsValueInt);
+				case SYN_BINARY_OP_BIT_AND:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt & rhsValueInt);
+				case SYN_BINARY_OP_BIT_OR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt | rhsValueInt);
+				case SYN_BINARY_OP_BIT_XOR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt ^ rhsValueInt);
+				case SYN_BINARY_OP_LOGICAL_XOR:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValueInt != !!rhsValueInt);
+				default:
+					assert(!"unexpected type");
+					break;
+				}
+			}
+			else
+			{
+				switch(op)
+				{
+				case SYN_BINARY_OP_ADD:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue + rhsValue);
+				case SYN_BINARY_OP_SUB:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue - rhsValue);
+				case SYN_BINARY_OP_MUL:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue * rhsValue);
+				case SYN_BINARY_OP_DIV:
+					if(rhsValue == 0)
+						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
+
+					if(lhsValue == LLONG_MIN && rhsValue == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
+				case SYN_BINARY_OP_MOD:
+					if(rhsValue == 0)
+						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
+
+					if(lhsValue == LLONG_MIN && rhsValue == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
+				case SYN_BINARY_OP_POW:
+					if(rhsValue < 0)
+						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
+
+					long long result, power;
+
+					result = 1;
+					power = rhsValue;
+
+					while(power)
+					{
+						if(power & 1)
+						{
+							result *= lhsValue;
+							power--;
+						}
+						lhsValue *= lhsValue;
+						power >>= 1;
+					}
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
+				case SYN_BINARY_OP_SHL:
+					if(rhsValue < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue << rhsValue);
+				case SYN_BINARY_OP_SHR:
+					if(rhsValue < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue >> rhsValue);
+				case SYN_BINARY_OP_LESS:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
+				case SYN_BINARY_OP_LESS_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
+				case SYN_BINARY_OP_GREATER:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
+				case SYN_BINARY_OP_GREATER_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
+				case SYN_BINARY_OP_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
+				case SYN_BINARY_OP_NOT_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
+				case SYN_BINARY_OP_BIT_AND:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue & rhsValue);
+				case SYN_BINARY_OP_BIT_OR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue | rhsValue);
+				case SYN_BINARY_OP_BIT_XOR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue ^ rhsValue);
+				case SYN_BINARY_OP_LOGICAL_XOR:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValue != !!rhsValue);
+				default:
+					assert(!"unexpected type");
+					break;
+				}
+			}
+		}
+
+		return Report(ctx, "ERROR: failed to eval binary op");
+	}
+
+	ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+	if(!rhs)
+		return NULL;
+
+	if(ctx.ctx.IsFloatingPointType(lhs->type) && ctx.ctx.IsFloatingPointType(rhs->type))
+	{
+		assert(lhs->type == rhs->type);
+
+		double lhsValue = 0;
+		double rhsValue = 0;
+
+		if(TryTakeDouble(lhs, lhsValue) && TryTakeDouble(rhs, rhsValue))
+		{
+			switch(op)
+			{
+			case SYN_BINARY_OP_ADD:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue + rhsValue);
+			case SYN_BINARY_OP_SUB:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue - rhsValue);
+			case SYN_BINARY_OP_MUL:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue * rhsValue);
+			case SYN_BINARY_OP_DIV:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue / rhsValue);
+			case SYN_BINARY_OP_MOD:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, fmod(lhsValue, rhsValue));
+			case SYN_BINARY_OP_POW:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, pow(lhsValue, rhsValue));
+			case SYN_BINARY_OP_LESS:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
+			case SYN_BINARY_OP_LESS_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
+			case SYN_BINARY_OP_GREATER:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
+			case SYN_BINARY_OP_GREATER_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
+			case SYN_BINARY_OP_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
+			case SYN_BINARY_OP_NOT_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
+			default:
+				assert(!"unexpected type");
+				break;
+			}
+		}
+	}
+	else if(lhs->type == ctx.ctx.typeTypeID && rhs->type == ctx.ctx.typeTypeID)
+	{
+		TypeBase *lhsValue = NULL;
+		TypeBase *rhsValue = NULL;
+
+		if(TryTakeTypeId(lhs, lhsValue) && TryTakeTypeId(rhs, rhsValue))
+		{
+			if(op == SYN_BINARY_OP_EQUAL)
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
+
+			if(op == SYN_BINARY_OP_NOT_EQUAL)
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
+		}
+	}
+	else if(isType<TypeRef>(lhs->type) && isType<TypeRef>(rhs->type))
+	{
+		assert(lhs->type == rhs->type);
+
+		void *lPtr = NULL;
+
+		if(isType<ExprNullptrLiteral>(lhs))
+			lPtr = NULL;
+		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(lhs))
+			lPtr = value->ptr;
+		else
+			assert(!"unknown type");
+
+		void *rPtr = NULL;
+
+		if(isType<ExprNullptrLiteral>(rhs))
+			rPtr = NULL;
+		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(rhs))
+			rPtr = value->ptr;
+		else
+			assert(!"unknown type");
+
+		if(op == SYN_BINARY_OP_EQUAL)
+			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr == rPtr);
+
+		if(op == SYN_BINARY_OP_NOT_EQUAL)
+			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr != rPtr);
+	}
+
+	return Report(ctx, "ERROR: failed to eval binary op");
+}
+
+ExprBase* CheckType(ExprBase* expression, ExprBase *value)
+{
+	if(isType<TypeError>(expression->type))
+		return NULL;
+
+	assert(expression->type == value->type);
+
+	return value;
+}
+
+ExprBase* EvaluateVoid(ExpressionEvalContext &ctx, ExprBase *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateBoolLiteral(ExpressionEvalContext &ctx, ExprBoolLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateCharacterLiteral(ExpressionEvalContext &ctx, ExprCharacterLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateStringLiteral(ExpressionEvalContext &ctx, ExprStringLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprStringLiteral>()) ExprStringLiteral(expression->source, expression->type, expression->value, expression->length));
+}
+
+ExprBase* EvaluateIntegerLiteral(ExpressionEvalContext &ctx, ExprIntegerLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateRationalLiteral(ExpressionEvalContext &ctx, ExprRationalLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateTypeLiteral(ExpressionEvalContext &ctx, ExprTypeLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateNullptrLiteral(ExpressionEvalContext &ctx, ExprNullptrLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
+}
+
+ExprBase* EvaluateFunctionIndexLiteral(ExpressionEvalContext &ctx, ExprFunctionIndexLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(expression->source, expression->type, expression->function));
+}
+
+ExprBase* EvaluateArray(ExpressionEvalContext &ctx, ExprArray *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, expression->type);
+
+	if(!storage)
+		return NULL;
+
+	TypeArray *arrayType = getType<TypeArray>(expression->type);
+
+	assert(arrayType);
+
+	unsigned offset = 0;
+
+	for(ExprBase *value = expression->values.head; value; value = value->next)
+	{
+		ExprBase *element = Evaluate(ctx, value);
+
+		if(!element)
+			return NULL;
+
+		assert(storage->ptr + offset + arrayType->subType->size <= storage->end);
+
+		unsigned char *targetPtr = storage->ptr + offset;
+
+		ExprPointerLiteral *target = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+		if(!CreateStore(ctx, target, element))
+			return NULL;
+
+		offset += unsigned(arrayType->subType->size);
+	}
+
+	ExprBase *load = CreateLoad(ctx, storage);
+
+	if(!load)
+		return NULL;
+
+	return CheckType(expression, load);
+}
+
+ExprBase* EvaluatePreModify(ExpressionEvalContext &ctx, ExprPreModify *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *ptr = Evaluate(ctx, expression->value);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
+
+	if(!modified)
+		return NULL;
+
+	if(!CreateStore(ctx, ptr, modified))
+		return NULL;
+
+	return CheckType(expression, modified);
+}
+
+ExprBase* EvaluatePostModify(ExpressionEvalContext &ctx, ExprPostModify *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *ptr = Evaluate(ctx, expression->value);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
+
+	if(!modified)
+		return NULL;
+
+	if(!CreateStore(ctx, ptr, modified))
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	switch(expression->category)
+	{
+	case EXPR_CAST_NUMERICAL:
+		if(ctx.ctx.IsIntegerType(expression->type))
+		{
+			long long result = 0;
+
+			if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
+			{
+				if(expression->type == ctx.ctx.typeBool)
+					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, expr->value != 0.0));
+
+				if(expression->type == ctx.ctx.typeChar)
+					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)expr->value));
+
+				if(expression->type == ctx.ctx.typeShort)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)expr->value));
+
+				if(expression->type == ctx.ctx.typeInt)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)expr->value));
+
+				if(expression->type == ctx.ctx.typeLong)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, (long long)expr->value));
+			}
+			else if(TryTakeLong(value, result))
+			{
+				if(expression->type == ctx.ctx.typeBool)
+					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, result != 0));
+
+				if(expression->type == ctx.ctx.typeChar)
+					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)result));
+
+				if(expression->type == ctx.ctx.typeShort)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)result));
+
+				if(expression->type == ctx.ctx.typeInt)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)result));
+
+				if(expression->type == ctx.ctx.typeLong)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, result));
+			}
+		}
+		else if(ctx.ctx.IsFloatingPointType(expression->type))
+		{
+			double result = 0.0;
+
+			if(TryTakeDouble(value, result))
+			{
+				if(expression->type == ctx.ctx.typeFloat)
+					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, (float)result));
+
+				if(expression->type == ctx.ctx.typeDouble)
+					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, result));
+			}
+		}
+		break;
+	case EXPR_CAST_PTR_TO_BOOL:
+		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(value)));
+	case EXPR_CAST_UNSIZED_TO_BOOL:
+		{
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(ptr)));
+		}
+		break;
+	case EXPR_CAST_FUNCTION_TO_BOOL:
+		{
+			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, funcLiteral->data != NULL));
+		}
+		break;
+	case EXPR_CAST_NULL_TO_PTR:
+		return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
+	case EXPR_CAST_NULL_TO_AUTO_PTR:
+		{
+			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
+			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_NULL_TO_UNSIZED:
+		{
+			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+			ExprBase *size = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, ptr, size, NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_NULL_TO_AUTO_ARRAY:
+		{
+			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
+			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+			ExprBase *length = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_NULL_TO_FUNCTION:
+		{
+			ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+			ExprFunctionLiteral *result = new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, context);
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_ARRAY_PTR_TO_UNSIZED:
+		{
+			TypeRef *refType = getType<TypeRef>(value->type);
+
+			assert(refType);
+
+			TypeArray *arrType = getType<TypeArray>(refType->subType);
+
+			assert(arrType);
+			assert(unsigned(arrType->length) == arrType->length);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrType->length), NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_PTR_TO_AUTO_PTR:
+		{
+			TypeRef *refType = getType<TypeRef>(value->type);
+
+			assert(refType);
+
+			TypeClass *classType = getType<TypeClass>(refType->subType);
+
+			ExprBase *typeId = NULL;
+
+			if(classType && (classType->extendable || classType->baseClass))
+			{
+				if(isType<ExprNullptrLiteral>(value))
+					return Report(ctx, "ERROR: null pointer access");
+
+				ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+				assert(ptr);
+				assert(ptr->end - ptr->ptr >= 4);
+
+				typeId = CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), ptr->ptr, ptr->ptr + 4));
+			}
+			else
+			{
+				typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, refType->subType);
+			}
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, value, NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_AUTO_PTR_TO_PTR:
+		{
+			TypeRef *refType = getType<TypeRef>(expression->type);
+
+			assert(refType);
+
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			ExprTypeLiteral *typeId = getType<ExprTypeLiteral>(CreateExtract(ctx, memLiteral, 0, ctx.ctx.typeTypeID));
+
+			if(typeId->value != refType->subType)
+				return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
+
+			ExprBase *ptr = CreateExtract(ctx, memLiteral, 4, refType);
+
+			if(!ptr)
+				return NULL;
+
+			return CheckType(expression, ptr);
+		}
+		break;
+	case EXPR_CAST_UNSIZED_TO_AUTO_ARRAY:
+		{
+			TypeUnsizedArray *arrType = getType<TypeUnsizedArray>(value->type);
+
+			assert(arrType);
+
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrType->subType);
+			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+			ExprBase *length = CreateExtract(ctx, memLiteral, sizeof(void*), ctx.ctx.typeInt);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_REINTERPRET:
+		if(expression->type == ctx.ctx.typeInt && value->type == ctx.ctx.typeTypeID)
+		{
+			ExprTypeLiteral *typeLiteral = getType<ExprTypeLiteral>(value);
+
+			if(isType<TypeError>(typeLiteral->value))
+				return NULL;
+
+			if(isType<TypeArgumentSet>(typeLiteral->value) || isType<TypeMemberSet>(typeLiteral->value))
+				return NULL;
+
+			unsigned index = ctx.ctx.GetTypeIndex(typeLiteral->value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, index));
+		}
+		else if(isType<TypeRef>(expression->type) && isType<TypeRef>(value->type))
+		{
+			TypeRef *refType = getType<TypeRef>(expression->type);
+
+			if(isType<ExprNullptrLiteral>(value))
+				return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
+			
+			if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
+			{
+				(void)refType;
+				assert(uintptr_t(tmp->end - tmp->ptr) >= uintptr_t(refType->subType->size));
+
+				return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, expression->type, tmp->ptr, tmp->end));
+			}
+		}
+		else if(isType<TypeUnsizedArray>(expression->type) && isType<TypeUnsizedArray>(value->type))
+		{
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, expression->type, memLiteral->ptr));
+		}
+		else if(isType<TypeFunction>(expression->type) && isType<TypeFunction>(value->type))
+		{
+			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, funcLiteral->data, funcLiteral->context));
+		}
+		else if(isType<TypeInt>(expression->type) && isType<TypeEnum>(value->type))
+		{
+			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
+		}
+		else if(isType<TypeEnum>(expression->type) && isType<TypeInt>(value->type))
+		{
+			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
+		}
+		break;
+	}
+
+	return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
+}
+
+ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(value->type == ctx.ctx.typeBool)
+	{
+		if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
+		{
+			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
+				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
+		}
+		else if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
+		{
+			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
+				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
+		}
+	}
+	else if(ctx.ctx.IsIntegerType(value->type))
+	{
+		long long result = 0;
+
+		if(TryTakeLong(value, result))
+		{
+			switch(expression->op)
+			{
+			case SYN_UNARY_OP_PLUS:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
+			case SYN_UNARY_OP_NEGATE:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
+			case SYN_UNARY_OP_BIT_NOT:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
+			case SYN_UNARY_OP_LOGICAL_NOT:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, !result));
+			default:
+				assert(!"unknown unary operation");
+			}
+		}
+	}
+	else if(ctx.ctx.IsFloatingPointType(value->type))
+	{
+		double result = 0.0;
+
+		if(TryTakeDouble(value, result))
+		{
+			switch(expression->op)
+			{
+			case SYN_UNARY_OP_PLUS:
+				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, result));
+			case SYN_UNARY_OP_NEGATE:
+				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, -result));
+			case SYN_UNARY_OP_BIT_NOT:
+			case SYN_UNARY_OP_LOGICAL_NOT:
+				return NULL;
+			default:
+				assert(!"unknown unary operation");
+			}
+		}
+	}
+	else if(isType<TypeRef>(value->type))
+	{
+		void *lPtr = NULL;
+
+		if(isType<ExprNullptrLiteral>(value))
+			lPtr = NULL;
+		else if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
+			lPtr = tmp->ptr;
+		else
+			assert(!"unknown type");
+
+		if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
+			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
+	}
+	else if(value->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+		void *lPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, memLiteral, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
+			return Report(ctx, "ERROR: failed to evaluate auto ref value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
+
+	}
+
+	return Report(ctx, "ERROR: failed to eval unary op");
+}
+
+ExprBase* EvaluateBinaryOp(ExpressionEvalContext &ctx, ExprBinaryOp *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *lhs = Evaluate(ctx, expression->lhs);
+
+	if(!lhs)
+		return NULL;
+
+	// rhs remain unevaluated
+	ExprBase *result = CreateBinaryOp(ctx, expression->source, lhs, expression->rhs, expression->op);
+
+	if(!result)
+		return result;
+
+	return CheckType(expression, result);
+}
+
+ExprBase* EvaluateGetAddress(ExpressionEvalContext &ctx, ExprGetAddress *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable->variable, false);
+
+	if(!ptr)
+		return NULL;
+
+	return CheckType(expression, ptr);
+}
+
+ExprBase* EvaluateDereference(ExpressionEvalContext &ctx, ExprDereference *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *ptr = Evaluate(ctx, expression->value);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateConditional(ExpressionEvalContext &ctx, ExprConditional *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *condition = Evaluate(ctx, expression->condition);
+
+	if(!condition)
+		return NULL;
+
+	long long result;
+	if(!TryTakeLong(condition, result))
+		return Report(ctx, "ERROR: failed to evaluate ternary operator condition");
+
+	ExprBase *value = Evaluate(ctx, result ? expression->trueBlock : expression->falseBlock);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateAssignment(ExpressionEvalContext &ctx, ExprAssignment *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *lhs = Evaluate(ctx, expression->lhs);
+	ExprBase *rhs = Evaluate(ctx, expression->rhs);
+
+	if(!lhs || !rhs)
+		return NULL;
+
+	if(!CreateStore(ctx, lhs, rhs))
+		return NULL;
+
+	return CheckType(expression, rhs);
+}
+
+ExprBase* EvaluateMemberAccess(ExpressionEvalContext &ctx, ExprMemberAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(isType<ExprNullptrLiteral>(value))
+		return Report(ctx, "ERROR: member access of null pointer");
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+	assert(ptr);
+	assert(ptr->ptr + expression->member->variable->offset + expression->member->variable->type->size <= ptr->end);
+
+	unsigned char *targetPtr = ptr->ptr + expression->member->variable->offset;
+
+	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(expression->member->variable->type), targetPtr, targetPtr + expression->member->variable->type->size);
+
+	return CheckType(expression, shifted);
+}
+
+ExprBase* EvaluateArrayIndex(ExpressionEvalContext &ctx, ExprArrayIndex *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	ExprBase *index = Evaluate(ctx, expression->index);
+
+	if(!index)
+		return NULL;
+
+	long long result;
+	if(!TryTakeLong(index, result))
+		return Report(ctx, "ERROR: failed to evaluate array index");
+
+	if(TypeUnsizedArray *arrayType = getType<TypeUnsizedArray>(value->type))
+	{
+		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(value);
+
+		assert(memory);
+
+		ExprBase *value = CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(arrayType->subType));
+
+		if(!value)
+			return NULL;
+
+		if(isType<ExprNullptrLiteral>(value))
+			return Report(ctx, "ERROR: array index of a null array");
+
+		ExprIntegerLiteral *size = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
+
+		if(!size)
+			return NULL;
+
+		if(result < 0 || result >= size->value)
+			return ReportCritical(ctx, "ERROR: array index out of bounds");
+
+		ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+		assert(ptr);
+
+		unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
+
+		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+		return CheckType(expression, shifted);
+	}
+
+	TypeRef *refType = getType<TypeRef>(value->type);
+
+	assert(refType);
+
+	TypeArray *arrayType = getType<TypeArray>(refType->subType);
+
+	assert(arrayType);
+
+	if(isType<ExprNullptrLiteral>(value))
+		return Report(ctx, "ERROR: array index of a null array");
+
+	if(result < 0 || result >= arrayType->length)
+		return ReportCritical(ctx, "ERROR: array index out of bounds");
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+	assert(ptr);
+	assert(ptr->ptr + result * arrayType->subType->size + arrayType->subType->size <= ptr->end);
+
+	unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
+
+	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+	return CheckType(expression, shifted);
+}
+
+ExprBase* EvaluateReturn(ExpressionEvalContext &ctx, ExprReturn *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(frame->targetYield)
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(ctx.stackFrames.empty())
+		return Report(ctx, "ERROR: no stack frame to return from");
+
+	frame->returnValue = value;
+
+	if(expression->coroutineStateUpdate)
+	{
+		if(!Evaluate(ctx, expression->coroutineStateUpdate))
+			return NULL;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateYield(ExpressionEvalContext &ctx, ExprYield *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	// Check if we reached target yield
+	if(frame->targetYield == expression->order)
+	{
+		frame->targetYield = 0;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+
+	if(frame->targetYield)
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(ctx.stackFrames.empty())
+		return Report(ctx, "ERROR: no stack frame to return from");
+
+	frame->returnValue = value;
+
+	if(expression->coroutineStateUpdate)
+	{
+		if(!Evaluate(ctx, expression->coroutineStateUpdate))
+			return NULL;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateVariableDefinition(ExpressionEvalContext &ctx, ExprVariableDefinition *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(FindVariableStorage(ctx, expression->variable->variable, true) == NULL)
+	{
+		TypeBase *type = expression->variable->variable->type;
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, type);
+
+		if(!storage)
+			return NULL;
+
+		frame->variables.push_back(ExpressionEvalContext::StackVariable(expression->variable->variable, storage));
+	}
+
+	if(!frame->targetYield)
+	{
+		if(expression->initializer)
+		{
+			if(!Evaluate(ctx, expression->initializer))
+				return NULL;
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateZeroInitialize(ExpressionEvalContext &ctx, ExprZeroInitialize *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	TypeRef *refType = getType<TypeRef>(expression->address->type);
+
+	assert(refType);
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->address));
+
+	if(!ptr)
+		return NULL;
+
+	assert(ptr->ptr);
+	assert(uintptr_t(ptr->end - ptr->ptr) == unsigned(refType->subType->size));
+
+	memset(ptr->ptr, 0, unsigned(refType->subType->size));
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateArraySetup(ExpressionEvalContext &ctx, ExprArraySetup *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	TypeRef *refType = getType<TypeRef>(expression->lhs->type);
+
+	assert(refType);
+
+	TypeArray *arrayType = getType<TypeArray>(refType->subType);
+
+	assert(arrayType);
+
+	ExprBase *initializer = Evaluate(ctx, expression->initializer);
+
+	if(!initializer)
+		return NULL;
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->lhs));
+
+	if(!ptr)
+		return NULL;
+
+	for(unsigned i = 0; i < unsigned(arrayType->length); i++)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		assert(ptr);
+		assert(ptr->ptr + i * arrayType->subType->size + arrayType->subType->size <= ptr->end);
+
+		unsigned char *targetPtr = ptr->ptr + i * arrayType->subType->size;
+
+		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+		if(!CreateStore(ctx, shifted, initializer))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateVariableDefinitions(ExpressionEvalContext &ctx, ExprVariableDefinitions *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	for(ExprBase *definition = expression->definitions.head; definition; definition = definition->next)
+	{
+		if(!Evaluate(ctx, definition))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateVariableAccess(ExpressionEvalContext &ctx, ExprVariableAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable, false);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateFunctionContextAccess(ExpressionEvalContext &ctx, ExprFunctionContextAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->contextVariable, false);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = NULL;
+
+	TypeRef *refType = getType<TypeRef>(expression->function->contextType);
+
+	assert(refType);
+
+	TypeClass *classType = getType<TypeClass>(refType->subType);
+
+	assert(classType);
+
+	if(classType->members.empty())
+		value = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->function->contextType);
+	else
+		value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateFunctionDefinition(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->function->type, expression->function, context));
+}
+
+ExprBase* EvaluateGenericFunctionPrototype(ExpressionEvalContext &ctx, ExprGenericFunctionPrototype *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	for(ExprBase *expr = expression->contextVariables.head; expr; expr = expr->next)
+	{
+		if(!Evaluate(ctx, expr))
+			return NULL;
+	}
+
+	return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+}
+
+ExprBase* EvaluateFunction(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression, ExprBase *context, ArrayView<ExprBase*> arguments)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	if(ctx.stackFrames.size() >= ctx.stackDepthLimit)
+		return Report(ctx, "ERROR: stack depth limit");
+
+	ctx.stackFrames.push_back(new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, expression->function));
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(ExprVariableDefinition *curr = expression->contextArgument)
+	{
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
+
+		if(!storage)
+			return NULL;
+
+		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
+
+		if(!CreateStore(ctx, storage, context))
+			return NULL;
+	}
+
+	unsigned pos = 0;
+
+	for(ExprVariableDefinition *curr = expression->arguments.head; curr; curr = getType<ExprVariableDefinition>(curr->next))
+	{
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
+
+		if(!storage)
+			return NULL;
+
+		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
+
+		if(!CreateStore(ctx, storage, arguments[pos]))
+			return NULL;
+
+		pos++;
+	}
+
+	if(expression->coroutineStateRead)
+	{
+		if(ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(Evaluate(ctx, expression->coroutineStateRead)))
+		{
+			frame->targetYield = unsigned(jmpOffset->value);
+		}
+		else
+		{
+			return NULL;
+		}
+	}
+
+	for(ExprBase *value = expression->expressions.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+
+		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
+
+		if(frame->returnValue)
+			break;
+	}
+
+	ExprBase *result = frame->returnValue;
+
+	if(!result)
+		return ReportCritical(ctx, "ERROR: function didn't return a value");
+
+	ctx.stackFrames.pop_back();
+
+	return result;
+}
+
+ExprBase* EvaluateFunctionAccess(ExpressionEvalContext &ctx, ExprFunctionAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *context = Evaluate(ctx, expression->context);
+
+	if(!context)
+		return NULL;
+
+	FunctionData *function = expression->function;
+
+	if(function->implementation)
+		function = function->implementation;
+
+	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, function->type, function, context));
+}
+
+ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression, ExprFunctionLiteral *ptr, ArrayView<ExprBase*> arguments)
+{
+	if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		if(value == 0)
+			return Report(ctx, "ERROR: Assertion failed");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeInt && arguments[1]->type == ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeChar))
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(arguments[1]);
+
+		ExprPointerLiteral *str = getType<ExprPointerLiteral>(CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeChar)));
+		ExprIntegerLiteral *length = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
+
+		if(!str)
+			return Report(ctx, "ERROR: null pointer access");
+
+		assert(length);
+
+		if(value == 0)
+			return Report(ctx, "ERROR: %.*s", int(length->value), str->ptr);
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("bool") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, value != 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("char") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeChar, char(value)));
+	}
+	else if(ptr->data->name->name == InplaceStr("short") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, short(value)));
+	}
+	else if(ptr->data->name->name == InplaceStr("int") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, int(value)));
+	}
+	else if(ptr->data->name->name == InplaceStr("long") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, value));
+	}
+	else if(ptr->data->name->name == InplaceStr("float") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
+	{
+		double value;
+		if(!TryTakeDouble(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, value));
+	}
+	else if(ptr->data->name->name == InplaceStr("double") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
+	{
+		double value;
+		if(!TryTakeDouble(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, value));
+	}
+	else if(ptr->data->name->name == InplaceStr("bool::bool") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("char::char") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("short::short") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("int::int") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("long::long") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("float::float") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("double::double") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("__newS"))
+	{
+		long long size;
+		if(!TryTakeLong(arguments[0], size))
+			return Report(ctx, "ERROR: failed to evaluate type size");
+
+		long long type;
+		if(!TryTakeLong(arguments[1], type))
+			return Report(ctx, "ERROR: failed to evaluate type ID");
+
+		TypeBase *target = ctx.ctx.types[unsigned(type)];
+
+		assert(target->size == size);
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, target);
+
+		if(!storage)
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), storage->ptr, storage->end));
+	}
+	else if(ptr->data->name->name == InplaceStr("__newA"))
+	{
+		long long size;
+		if(!TryTakeLong(arguments[0], size))
+			return Report(ctx, "ERROR: failed to evaluate type size");
+
+		long long count;
+		if(!TryTakeLong(arguments[1], count))
+			return Report(ctx, "ERROR: failed to evaluate element count");
+
+		long long type;
+		if(!TryTakeLong(arguments[2], type))
+			return Report(ctx, "ERROR: failed to evaluate type ID");
+
+		TypeBase *target = ctx.ctx.types[unsigned(type)];
+
+		assert(target->size == size);
+
+		if(target->size * unsigned(count) > ctx.variableMemoryLimit)
+			return Report(ctx, "ERROR: single variable memory limit");
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(target, count));
+
+		if(!storage)
+			return NULL;
+
+		ExprBase *result = CreateConstruct(ctx, ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeInt), storage, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count), NULL);
+
+		if(!result)
+			return NULL;
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("__rcomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *lPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *rPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr == rPtr));
+	}
+	else if(ptr->data->name->name == InplaceStr("__rncomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *lPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *rPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr != rPtr));
+	}
+	else if(ptr->data->name->name == InplaceStr("__pcomp"))
+	{
+		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
+		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *aContext = 0;
+		if(a->context && !TryTakePointer(a->context, aContext))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *bContext = 0;
+		if(b->context && !TryTakePointer(b->context, bContext))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data == b->data && aContext == bContext));
+	}
+	else if(ptr->data->name->name == InplaceStr("__pncomp"))
+	{
+		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
+		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *aContext = 0;
+		if(a->context && !TryTakePointer(a->context, aContext))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *bContext = 0;
+		if(b->context && !TryTakePointer(b->context, bContext))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data != b->data || aContext != bContext));
+	}
+	else if(ptr->data->name->name == InplaceStr("__acomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+		assert(a->type->size == b->type->size);
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) == 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("__ancomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+		assert(a->type->size == b->type->size);
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) != 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("__typeCount"))
+	{
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, ctx.ctx.types.size()));
+	}
+	else if(ptr->data->name->name == InplaceStr("__redirect") || ptr->data->name->name == InplaceStr("__redirect_ptr"))
+	{
+		ExprMemoryLiteral *autoRef = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprPointerLiteral *tableRef = getType<ExprPointerLiteral>(arguments[1]);
+
+		if(!tableRef)
+			return Report(ctx, "ERROR: null pointer access");
+
+		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, autoRef, 0, ctx.ctx.typeTypeID));
+
+		assert(typeID);
+
+		unsigned typeIndex = ctx.ctx.GetTypeIndex(typeID->value);
+
+		ExprBase *context = CreateExtract(ctx, autoRef, 4, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]));
+
+		assert(context);
+
+		ExprBase *tableRefLoad = CreateLoad(ctx, tableRef);
+
+		if(!tableRefLoad)
+			return NULL;
+
+		ExprMemoryLiteral *table = getType<ExprMemoryLiteral>(tableRefLoad);
+
+		ExprPointerLiteral *tableArray = getType<ExprPointerLiteral>(CreateExtract(ctx, table, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeFunctionID)));
+		ExprIntegerLiteral *tableSize = getType<ExprIntegerLiteral>(CreateExtract(ctx, table, sizeof(void*), ctx.ctx.typeInt));
+
+		assert(tableArray && tableSize);
+
+		if(typeIndex >= tableSize->value)
+			return Report(ctx, "ERROR: type index is out of bounds of redirection table");
+
+		unsigned char *targetPtr = tableArray->ptr + typeIndex * ctx.ctx.typeTypeID->size;
+
+		unsigned index = 0;
+		memcpy(&index, targetPtr, sizeof(unsigned));
+
+		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
+
+		if(!data)
+		{
+			if(ptr->data->name->name == InplaceStr("__redirect_ptr"))
+				return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]))));
+
+			return Report(ctx, "ERROR: type '%.*s' doesn't implement method", FMT_ISTR(ctx.ctx.types[typeIndex]->name));
+		}
+
+		return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, data, context));
+	}
+	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *object = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(object);
+
+		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, object, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, object, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
+
+		if(!storage)
+			return NULL;
+
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
+
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ptrTypeID->value));
+
+		if(!ptrPtr)
+		{
+			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+			return CheckType(expression, result);
+		}
+
+		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ptrTypeID->value);
+
+		if(!resultPtr)
+			return NULL;
+
+		CreateInsert(ctx, result, 4, resultPtr);
+
+		ExprBase *ptrPtrLoad = CreateLoad(ctx, ptrPtr);
+
+		if(!ptrPtrLoad)
+			return NULL;
+
+		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
+			return NULL;
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoArray)
+	{
+		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(arr);
+
+		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
+		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
+		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
+
+		if(!storage)
+			return NULL;
+
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
+
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
+		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrLen->value));
+
+		if(!arrPtr)
+		{
+			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+
+			return CheckType(expression, result);
+		}
+
+		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value));
+
+		if(!resultPtr)
+			return NULL;
+
+		CreateInsert(ctx, result, 4, resultPtr);
+
+		ExprBase *ptrPtrLoad = CreateLoad(ctx, arrPtr);
+
+		if(!ptrPtrLoad)
+			return NULL;
+
+		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
+			return NULL;
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("typeid") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *reference = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(reference);
+
+		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, reference, 0, ctx.ctx.typeTypeID));
+
+		return CheckType(expression, typeID);
+	}
+	else if(ptr->data->name->name == InplaceStr("auto_array") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeTypeID && arguments[1]->type == ctx.ctx.typeInt)
+	{
+		ExprTypeLiteral *type = getType<ExprTypeLiteral>(arguments[0]);
+		ExprIntegerLiteral *count = getType<ExprIntegerLiteral>(arguments[1]);
+
+		assert(type && count);
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
+
+		if(!storage)
+			return NULL;
+
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
+
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, type->value));
+
+		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(type->value, count->value));
+
+		if(!resultPtr)
+			return NULL;
+
+		CreateInsert(ctx, result, 4, resultPtr);
+		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count->value));
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("array_copy") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeAutoArray && arguments[1]->type == ctx.ctx.typeAutoArray)
+	{
+		ExprMemoryLiteral *dst = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *src = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(dst && src);
+
+		ExprTypeLiteral *dstTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, dst, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *dstPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, dst, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+		ExprIntegerLiteral *dstLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, dst, 4 + sizeof(void*), ctx.ctx.typeInt));
+
+		ExprTypeLiteral *srcTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, src, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *srcPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, src, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+		ExprIntegerLiteral *srcLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, src, 4 + sizeof(void*), ctx.ctx.typeInt));
+
+		if(!dstPtr && !srcPtr)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+		if(!srcPtr || dstPtr->ptr == srcPtr->ptr)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+		if(dstTypeID->value != srcTypeID->value)
+			return Report(ctx, "ERROR: destination element type '%.*s' doesn't match source element type '%.*s'", FMT_ISTR(dstTypeID->value->name), FMT_ISTR(srcTypeID->value->name));
+
+		if(dstLen->value < srcLen->value)
+			return Report(ctx, "ERROR: destination array size '%d' is smaller than source array size '%d'", unsigned(dstLen->value), unsigned(srcLen->value));
+
+		memcpy(dstPtr->ptr, srcPtr->ptr, unsigned(dstTypeID->value->size * srcLen->value));
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("[]") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeAutoArray) && arguments[1]->type == ctx.ctx.typeInt)
+	{
+		// Get arguments
+		ExprPointerLiteral *arrPtrArg = getType<ExprPointerLiteral>(arguments[0]);
+
+		if(!arrPtrArg)
+			return Report(ctx, "ERROR: null pointer access");
+
+		ExprIntegerLiteral *indexArg = getType<ExprIntegerLiteral>(arguments[1]);
+
+		assert(indexArg);
+
+		ExprBase *arrPtrLoad = CreateLoad(ctx, arrPtrArg);
+
+		if(!arrPtrLoad)
+			return NULL;
+
+		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arrPtrLoad);
+
+		assert(arr);
+
+		// Check index
+		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
+
+		if(unsigned(indexArg->value) >= arrLen->value)
+			return Report(ctx, "ERROR: array index out of bounds");
+
+		// Load auto[] array type and pointer members
+		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
+
+		// Create storage for result
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
+
+		if(!storage)
+			return NULL;
+
+		// Create result in that storage
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
+
+		// Save typeid
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
+
+		// Save pointer to array element
+		assert(arrPtr->ptr + indexArg->value * arrTypeID->value->size + arrTypeID->value->size <= arrPtr->end);
+
+		unsigned char *targetPtr = arrPtr->ptr + indexArg->value * arrTypeID->value->size;
+
+		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrTypeID->value), targetPtr, targetPtr + arrTypeID->value->size);
+
+		CreateInsert(ctx, result, 4, shifted);
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("__assertCoroutine") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(functionPtr);
+
+		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
+
+		if(!isType<TypeFunction>(ptrTypeID->value))
+			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
+
+		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+		assert(ptrPtr);
+
+		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
+
+		if(!function->data)
+			return Report(ctx, "ERROR: function is not a coroutine'");
+
+		if(!function->data->coroutine)
+			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("isCoroutineReset") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(functionPtr);
+
+		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
+
+		if(!isType<TypeFunction>(ptrTypeID->value))
+			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
+
+		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+		assert(ptrPtr);
+
+		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
+
+		if(!function->data->coroutine)
+			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
+
+		ExprBase *contextLoad = CreateLoad(ctx, function->context);
+
+		if(!contextLoad)
+			return NULL;
+
+		ExprMemoryLiteral *context = getType<ExprMemoryLiteral>(contextLoad);
+
+		// TODO: remove this check, all coroutines must have a context
+		if(!context)
+			return Report(ctx, "ERROR: '%.*s' coroutine has no context'", FMT_ISTR(function->data->name->name));
+
+		ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(CreateExtract(ctx, context, 0, ctx.ctx.typeInt));
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, jmpOffset->value == 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("__assert_derived_from") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeVoid) && arguments[1]->type == ctx.ctx.typeTypeID)
+	{
+		ExprPointerLiteral *object = getType<ExprPointerLiteral>(arguments[0]);
+		ExprTypeLiteral *base = getType<ExprTypeLiteral>(arguments[1]);
+
+		if(!object)
+			return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+
+		assert(uintptr_t(object->end - object->ptr) >= sizeof(unsigned));
+
+		ExprTypeLiteral *derived = getType<ExprTypeLiteral>(CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), object->ptr, object->end)));
+
+		assert(derived);
+
+		TypeBase *curr = derived->value;
+
+		while(curr)
+		{
+			if(curr == base->value)
+				return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(curr), object->ptr, object->ptr + curr->size);
+
+			if(TypeClass *classType = getType<TypeClass>(curr))
+				curr = classType->baseClass;
+			else
+				curr = NULL;
+		}
+
+		return Report(ctx, "ERROR: cannot convert from '%.*s' to '%.*s'", FMT_ISTR(derived->value->name), FMT_ISTR(base->value->name));
+	}
+	else if(ptr->data->name->name == InplaceStr("__closeUpvalue") && arguments.size() == 4)
+	{
+		ExprPointerLiteral *upvalueListLocation = getType<ExprPointerLiteral>(arguments[0]);
+		ExprPointerLiteral *variableLocation = getType<ExprPointerLiteral>(arguments[1]);
+		ExprIntegerLiteral *offsetToCopy = getType<ExprIntegerLiteral>(arguments[2]);
+		ExprIntegerLiteral *copySize = getType<ExprIntegerLiteral>(arguments[3]);
+
+		assert(upvalueListLocation);
+		assert(variableLocation);
+		assert(offsetToCopy);
+		assert(copySize);
+
+		ExprBase *upvalueListHeadBase = CreateLoad(ctx, upvalueListLocation);
+
+		// Nothing to close if the list is empty
+		if(getType<ExprNullptrLiteral>(upvalueListHeadBase))
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+		ExprPointerLiteral *upvalueListHead = getType<ExprPointerLiteral>(upvalueListHeadBase);
+
+		assert(upvalueListHead);
+
+		struct Upvalue
+		{
+			void *target;
+			Upvalue *next;
+		};
+
+		Upvalue *upvalue = (Upvalue*)upvalueListHead->ptr;
+
+		assert(upvalue);
+
+		while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
+		{
+			Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
+
+			unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
+			memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
+			WriteVmMemoryPointer(&upvalue->target, copy);
+			WriteVmMemoryPointer(&upvalue->next, NULL);
+
+			upvalue = next;
+		}
+
+		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)upvalue, (unsigned char*)upvalue + NULLC_PTR_SIZE)))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+
+	return NULL;
+}
+
+ExprBase* EvaluateFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+	
+	ExprBase *function = Evaluate(ctx, expression->function);
+
+	if(!function)
+		return NULL;
+
+	SmallArray<ExprBase*, 8> arguments(ctx.ctx.allocator);
+
+	for(ExprBase *curr = expression->arguments.head; curr; curr = curr->next)
+	{
+		ExprBase *value = Evaluate(ctx, curr);
+
+		if(!value)
+			return NULL;
+
+		arguments.push_back(value);
+	}
+
+	ExprFunctionLiteral *ptr = getType<ExprFunctionLiteral>(function);
+
+	if(!ptr)
+		return NULL;
+
+	if(!ptr->data)
+		return Report(ctx, "ERROR: null function pointer call");
+
+	if(!ptr->data->declaration)
+	{
+		if(ctx.emulateKnownExternals && ctx.ctx.GetFunctionIndex(ptr->data) < ctx.ctx.baseModuleFunctionCount)
+		{
+			if(ExprBase *result = EvaluateKnownExternalFunctionCall(ctx, expression, ptr, arguments))
+				return result;
+		}
+
+		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
+	}
+
+	if(ptr->data->isPrototype)
+		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
+
+	ExprFunctionDefinition *declaration = getType<ExprFunctionDefinition>(ptr->data->declaration);
+
+	assert(declaration);
+
+	if(declaration->arguments.size() != arguments.size())
+		return NULL;
+
+	ExprBase *call = EvaluateFunction(ctx, declaration, ptr->context, arguments);
+
+	if(!call)
+		return NULL;
+
+	return CheckType(expression, call);
+}
+
+ExprBase* EvaluateIfElse(ExpressionEvalContext &ctx, ExprIfElse *expression)
+{
+	if(ctx.stackFrames.back()->targetYield)
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *condition = Evaluate(ctx, expression->condition);
+
+	if(!condition)
+		return NULL;
+
+	long long result;
+	if(!TryTakeLong(condition, result))
+		return Report(ctx, "ERROR: failed to evaluate 'if' condition");
+
+	if(result)
+	{
+		if(!Evaluate(ctx, expression->trueBlock))
+			return NULL;
+	}
+	else if(expression->falseBlock)
+	{
+		if(!Evaluate(ctx, expression->falseBlock))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateFor(ExpressionEvalContext &ctx, ExprFor *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(!frame->targetYield)
+	{
+		if(!Evaluate(ctx, expression->initializer))
+			return NULL;
+	}
+
+	for(;;)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!frame->targetYield)
+		{
+			if(!expression->condition)
+				return NULL;
+
+			ExprBase *condition = Evaluate(ctx, expression->condition);
+
+			if(!condition)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(condition, result))
+				return Report(ctx, "ERROR: failed to evaluate 'for' condition");
+
+			if(!result)
+				break;
+		}
+
+		if(!Evaluate(ctx, expression->body))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+			break;
+		}
+
+		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
+		if(frame->continueDepth)
+		{
+			frame->continueDepth--;
+
+			if(frame->continueDepth)
+				break;
+		}
+
+		if(frame->returnValue)
+			break;
+
+		if(!frame->targetYield)
+		{
+			if(!Evaluate(ctx, expression->increment))
+				return NULL;
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateWhile(ExpressionEvalContext &ctx, ExprWhile *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(;;)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!frame->targetYield)
+		{
+			ExprBase *condition = Evaluate(ctx, expression->condition);
+
+			if(!condition)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(condition, result))
+				return Report(ctx, "ERROR: failed to evaluate 'while' condition");
+
+			if(!result)
+				break;
+		}
+
+		if(!Evaluate(ctx, expression->body))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+			break;
+		}
+
+		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
+		if(frame->continueDepth)
+		{
+			frame->continueDepth--;
+
+			if(frame->continueDepth)
+				break;
+		}
+
+		if(frame->returnValue)
+			break;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateDoWhile(ExpressionEvalContext &ctx, ExprDoWhile *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(;;)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!Evaluate(ctx, expression->body))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+			break;
+		}
+
+		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
+		if(frame->continueDepth)
+		{
+			frame->continueDepth--;
+
+			if(frame->continueDepth)
+				break;
+		}
+
+		if(frame->returnValue)
+			break;
+
+		if(!frame->targetYield)
+		{
+			ExprBase *condition = Evaluate(ctx, expression->condition);
+
+			if(!condition)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(condition, result))
+				return Report(ctx, "ERROR: failed to evaluate 'do' condition");
+
+			if(!result)
+				break;
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateSwitch(ExpressionEvalContext &ctx, ExprSwitch *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(frame->targetYield)
+		return Report(ctx, "ERROR: can't yield back into a switch statement");
+
+	ExprBase *condition = Evaluate(ctx, expression->condition);
+
+	if(!condition)
+		return NULL;
+
+	bool matched = false;
+
+	for(ExprBase *currCase = expression->cases.head, *currBlock = expression->blocks.head; currCase && currBlock; currCase = currCase->next, currBlock = currBlock->next)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!matched)
+		{
+			ExprBase *value = Evaluate(ctx, currCase);
+
+			if(!value)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(value, result))
+				return Report(ctx, "ERROR: failed to evaluate 'case' value");
+
+			// Try next case
+			if(!result)
+				continue;
+
+			matched = true;
+		}
+
+		if(!Evaluate(ctx, currBlock))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+		}
+	}
+
+	if(expression->defaultBlock)
+	{
+		if(!Evaluate(ctx, expression->defaultBlock))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateBreak(ExpressionEvalContext &ctx, ExprBreak *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(!frame->targetYield)
+	{
+		assert(frame->breakDepth == 0);
+
+		frame->breakDepth = expression->depth;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateContinue(ExpressionEvalContext &ctx, ExprContinue *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(!frame->targetYield)
+	{
+		assert(frame->continueDepth == 0);
+
+		frame->continueDepth = expression->depth;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateBlock(ExpressionEvalContext &ctx, ExprBlock *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(ExprBase *value = expression->expressions.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+
+		if(frame->continueDepth || frame->breakDepth || frame->returnValue)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateSequence(ExpressionEvalContext &ctx, ExprSequence *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *result = new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	for(unsigned i = 0; i < expression->expressions.size(); i++)
+	{
+		result = Evaluate(ctx, expression->expressions[i]);
+
+		if(!result)
+			return NULL;
+	}
+
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	return CheckType(expression, result);
+}
+
+ExprBase* EvaluateModule(ExpressionEvalContext &ctx, ExprModule *expression)
+{
+	ctx.globalFrame = new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, NULL);
+	ctx.stackFrames.push_back(ctx.globalFrame);
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(ExprBase *value = expression->setup.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+	}
+
+	for(ExprBase *value = expression->expressions.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+
+		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
+
+		if(frame->returnValue)
+			return frame->returnValue;
+	}
+
+	ctx.stackFrames.pop_back();
+
+	assert(ctx.stackFrames.empty());
+
+	return NULL;
+}
+
+ExprBase* Evaluate(ExpressionEvalContext &ctx, ExprBase *expression)
+{
+	if(isType<TypeError>(expression->type))
+		return NULL;
+
+	ctx.expressionDepth++;
+
+	if(ctx.expressionDepth > ctx.expressionDepthLimit)
+		return Report(ctx, "ERROR: expression depth limit reached");
+
+	ExprBase *result = NULL;
+
+	switch(expression->typeID)
+	{
+	case ExprError::myTypeID:
+		result = Report(ctx, "ERROR: invalid expression");
+		break;
+	case ExprErrorTypeMemberAccess::myTypeID:
+		result = Report(ctx, "ERROR: invalid expression");
+		break;
+	case ExprVoid::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprBoolLiteral::myTypeID:
+		result = EvaluateBoolLiteral(ctx, (ExprBoolLiteral*)expression);
+		break;
+	case ExprCharacterLiteral::myTypeID:
+		result = EvaluateCharacterLiteral(ctx, (ExprCharacterLiteral*)expression);
+		break;
+	case ExprStringLiteral::myTypeID:
+		result = EvaluateStringLiteral(ctx, (ExprStringLiteral*)expression);
+		break;
+	case ExprIntegerLiteral::myTypeID:
+		result = EvaluateIntegerLiteral(ctx, (ExprIntegerLiteral*)expression);
+		break;
+	case ExprRationalLiteral::myTypeID:
+		result = EvaluateRationalLiteral(ctx, (ExprRationalLiteral*)expression);
+		break;
+	case ExprTypeLiteral::myTypeID:
+		result = EvaluateTypeLiteral(ctx, (ExprTypeLiteral*)expression);
+		break;
+	case ExprNullptrLiteral::myTypeID:
+		result = EvaluateNullptrLiteral(ctx, (ExprNullptrLiteral*)expression);
+		break;
+	case ExprFunctionIndexLiteral::myTypeID:
+		result = EvaluateFunctionIndexLiteral(ctx, (ExprFunctionIndexLiteral*)expression);
+		break;
+	case ExprPassthrough::myTypeID:
+		result = Evaluate(ctx, ((ExprPassthrough*)expression)->value);
+		break;
+	case ExprArray::myTypeID:
+		result = EvaluateArray(ctx, (ExprArray*)expression);
+		break;
+	case ExprPreModify::myTypeID:
+		result = EvaluatePreModify(ctx, (ExprPreModify*)expression);
+		break;
+	case ExprPostModify::myTypeID:
+		result = EvaluatePostModify(ctx, (ExprPostModify*)expression);
+		break;
+	case ExprTypeCast::myTypeID:
+		result = EvaluateCast(ctx, (ExprTypeCast*)expression);
+		break;
+	case ExprUnaryOp::myTypeID:
+		result = EvaluateUnaryOp(ctx, (ExprUnaryOp*)expression);
+		break;
+	case ExprBinaryOp::myTypeID:
+		result = EvaluateBinaryOp(ctx, (ExprBinaryOp*)expression);
+		break;
+	case ExprGetAddress::myTypeID:
+		result = EvaluateGetAddress(ctx, (ExprGetAddress*)expression);
+		break;
+	case ExprDereference::myTypeID:
+		result = EvaluateDereference(ctx, (ExprDereference*)expression);
+		break;
+	case ExprUnboxing::myTypeID:
+		result = Evaluate(ctx, ((ExprUnboxing*)expression)->value);
+		break;
+	case ExprConditional::myTypeID:
+		result = EvaluateConditional(ctx, (ExprConditional*)expression);
+		break;
+	case ExprAssignment::myTypeID:
+		result = EvaluateAssignment(ctx, (ExprAssignment*)expression);
+		break;
+	case ExprMemberAccess::myTypeID:
+		result = EvaluateMemberAccess(ctx, (ExprMemberAccess*)expression);
+		break;
+	case ExprArrayIndex::myTypeID:
+		result = EvaluateArrayIndex(ctx, (ExprArrayIndex*)expression);
+		break;
+	case ExprReturn::myTypeID:
+		result = EvaluateReturn(ctx, (ExprReturn*)expression);
+		break;
+	case ExprYield::myTypeID:
+		result = EvaluateYield(ctx, (ExprYield*)expression);
+		break;
+	case ExprVariableDefinition::myTypeID:
+		result = EvaluateVariableDefinition(ctx, (ExprVariableDefinition*)expression);
+		break;
+	case ExprZeroInitialize::myTypeID:
+		result = EvaluateZeroInitialize(ctx, (ExprZeroInitialize*)expression);
+		break;
+	case ExprArraySetup::myTypeID:
+		result = EvaluateArraySetup(ctx, (ExprArraySetup*)expression);
+		break;
+	case ExprVariableDefinitions::myTypeID:
+		result = EvaluateVariableDefinitions(ctx, (ExprVariableDefinitions*)expression);
+		break;
+	case ExprVariableAccess::myTypeID:
+		result = EvaluateVariableAccess(ctx, (ExprVariableAccess*)expression);
+		break;
+	case ExprFunctionContextAccess::myTypeID:
+		result = EvaluateFunctionContextAccess(ctx, (ExprFunctionContextAccess*)expression);
+		break;
+	case ExprFunctionDefinition::myTypeID:
+		result = EvaluateFunctionDefinition(ctx, (ExprFunctionDefinition*)expression);
+		break;
+	case ExprGenericFunctionPrototype::myTypeID:
+		result = EvaluateGenericFunctionPrototype(ctx, (ExprGenericFunctionPrototype*)expression);
+		break;
+	case ExprFunctionAccess::myTypeID:
+		result = EvaluateFunctionAccess(ctx, (ExprFunctionAccess*)expression);
+		break;
+	case ExprFunctionOverloadSet::myTypeID:
+		result = NULL;
+		break;
+	case ExprShortFunctionOverloadSet::myTypeID:
+		result = NULL;
+		break;
+	case ExprFunctionCall::myTypeID:
+		result = EvaluateFunctionCall(ctx, (ExprFunctionCall*)expression);
+		break;
+	case ExprAliasDefinition::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprClassPrototype::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprGenericClassPrototype::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprClassDefinition::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprEnumDefinition::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprIfElse::myTypeID:
+		result = EvaluateIfElse(ctx, (ExprIfElse*)expression);
+		break;
+	case ExprFor::myTypeID:
+		result = EvaluateFor(ctx, (ExprFor*)expression);
+		break;
+	case ExprWhile::myTypeID:
+		result = EvaluateWhile(ctx, (ExprWhile*)expression);
+		break;
+	case ExprDoWhile::myTypeID:
+		result = EvaluateDoWhile(ctx, (ExprDoWhile*)expression);
+		break;
+	case ExprSwitch::myTypeID:
+		result = EvaluateSwitch(ctx, (ExprSwitch*)expression);
+		break;
+	case ExprBreak::myTypeID:
+		result = EvaluateBreak(ctx, (ExprBreak*)expression);
+		break;
+	case ExprContinue::myTypeID:
+		result = EvaluateContinue(ctx, (ExprContinue*)expression);
+		break;
+	case ExprBlock::myTypeID:
+		result = EvaluateBlock(ctx, (ExprBlock*)expression);
+		break;
+	case ExprSequence::myTypeID:
+		result = EvaluateSequence(ctx, (ExprSequence*)expression);
+		break;
+	case ExprModule::myTypeID:
+		result = EvaluateModule(ctx, (ExprModule*)expression);
+		break;
+	default:
+		assert(!"unknown type");
+		break;
+	}
+
+	ctx.expressionDepth--;
+
+	return result;
+}
+
+bool EvaluateToBuffer(ExpressionEvalContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize)
+{
+	if(ExprBase *value = Evaluate(ctx, expression))
+	{
+		if(ExprBoolLiteral *result = getType<ExprBoolLiteral>(value))
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value ? 1 : 0);
+		}
+		else if(ExprCharacterLiteral *result = getType<ExprCharacterLiteral>(value))
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value);
+		}
+		else if(ExprIntegerLiteral *result = getType<ExprIntegerLiteral>(value))
+		{
+			if(result->type == ctx.ctx.typeLong)
+				NULLC::SafeSprintf(resultBuf, resultBufSize, "%lldL", result->value);
+			else
+				NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", int(result->value));
+		}
+		else if(ExprRationalLiteral *result = getType<ExprRationalLiteral>(value))
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "%f", result->value);
+		}
+		else
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "unknown");
+		}
+
+		return true;
+	}
+
+	return false;
+}
+
+bool TestEvaluation(ExpressionContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize, char *errorBuf, unsigned errorBufSize)
+{
+	if(!expression)
+		return false;
+
+	ExpressionEvalContext evalCtx(ctx, ctx.allocator);
+
+	evalCtx.errorBuf = errorBuf;
+	evalCtx.errorBufSize = errorBufSize;
+
+	evalCtx.emulateKnownExternals = true;
+
+	return EvaluateToBuffer(evalCtx, expression, resultBuf, resultBufSize);
+}
-- 
2.43.0


From b2abafe77d3e49cb925ea38a9e10e23528ec20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 08/31] fix: subtraction of the constant -2147483648 from a
 long was lowered to an addition of it

---
 NULLC/InstructionTreeRegVmLower.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2648433..447764c 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1,5 +1,7 @@
 #include "InstructionTreeRegVmLower.h"
 
+#include <limits.h>
+
 #include "ExpressionTree.h"
 #include "InstructionTreeVm.h"
 #include "InstructionTreeVmCommon.h"
@@ -2345,7 +2347,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				lowBlock->AddInstruction(ctx, inst->source, rviAddImm, targetReg, lhsReg, 0, -constant->iValue);
 				break;
 			}
-			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue)
+			else if((inst->type == VmType::Long || (inst->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8)) && (constant->type == VmType::Int || inst->type == VmType::Long) && int(constant->lValue) == constant->lValue && int(constant->lValue) != INT_MIN)
 			{
 				unsigned char targetReg = lowFunction->AllocateRegister(inst);
 
-- 
2.43.0


From 1a9c68a62d8e2e468a0345bdf5942679fc05ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 09/31] fix: peephole optimizer keeps the sign of zero in
 double addition and subtraction

---
 NULLC/InstructionTreeVm.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 13629e1..79e5c4f 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4310,15 +4310,19 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		switch(inst->cmd)
 		{
 		case VM_INST_ADD:
-			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types
+			// For double type, -0.0 + 0.0 is 0.0
+			if(inst->type == VmType::Double)
+				break;
+
+			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types except double
 				ReplaceValueUsersWith(module, inst, inst->arguments[1], &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types
+			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types except double
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_SUB:
 			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 - x, integer types
 				ChangeInstructionTo(module, inst, VM_INST_NEG, inst->arguments[1], NULL, NULL, NULL, NULL, &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x - 0, all types
+			else if(inst->type != VmType::Double && IsConstantZero(inst->arguments[1])) // x - 0, all types except double (-0.0 - -0.0 is 0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_MUL:
-- 
2.43.0


From 8d2d099136cf3823c0500b07dee6b87f0495ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 10/31] fix: correct the halves and the registers of bitcasts
 between structs and auto ref/auto[]

The lowering assumed rviBreakupdd places the low half in rA, while both
back ends place the high half there, and it allowed result registers to
reuse source registers that the sequence still reads.
---
 NULLC/InstructionTreeRegVmLower.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 447764c..8e64013 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -2901,23 +2901,23 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				else if(inst->arguments[0]->type.type == VM_TYPE_AUTO_REF)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
 					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, resRegB, sourceRegs[1], 32u);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegB, tempRegA, sourceRegs[1], 32u);
 
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegA);
 				}
 				else if(inst->arguments[0]->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
 					unsigned char tempRegA = lowFunction->GetRegisterForConstant();
 					unsigned char tempRegB = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegA, tempRegB, sourceRegs[1], 32u);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempRegB, tempRegA, sourceRegs[1], 32u);
 
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegA, sourceRegs[0], tempRegA);
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, tempRegB, sourceRegs[2]);
@@ -2981,21 +2981,21 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				else if(inst->type.type == VM_TYPE_AUTO_REF)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegB, resRegA, sourceRegs[0]);
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, resRegB, sourceRegs[1]);
 				}
 				else if(inst->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
 					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
-					unsigned char resRegC = lowFunction->AllocateRegister(inst, 2, true);
+					unsigned char resRegC = lowFunction->AllocateRegister(inst, 2, false);
 
 					unsigned char tempReg = lowFunction->GetRegisterForConstant();
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, tempReg, resRegC, sourceRegs[1]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegB, resRegA, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegC, tempReg, sourceRegs[1]);
 					lowBlock->AddInstruction(ctx, inst->source, rviCombinedd, resRegB, resRegB, tempReg);
 				}
 			}
@@ -3004,16 +3004,16 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 				if(inst->type.type == VM_TYPE_FUNCTION_REF || inst->type.type == VM_TYPE_ARRAY_REF || inst->type.type == VM_TYPE_AUTO_REF)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegB, resRegA, sourceRegs[0]);
 				}
 				else if(inst->type.type == VM_TYPE_AUTO_ARRAY)
 				{
 					unsigned char resRegA = lowFunction->AllocateRegister(inst, 0, false);
-					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, true);
+					unsigned char resRegB = lowFunction->AllocateRegister(inst, 1, false);
 
-					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegA, resRegB, sourceRegs[0]);
+					lowBlock->AddInstruction(ctx, inst->source, rviBreakupdd, resRegB, resRegA, sourceRegs[0]);
 
 					if(!lowFunction->TransferRegisterTo(inst, sourceRegs[1]))
 					{
-- 
2.43.0


From c9642fe5112d8eb0c8fc1890c8ce0c5be22dffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:38 +0000
Subject: [PATCH 11/31] fix: relocate global memory pushed by the return
 microcode

A function returning a large global by value pushes it from memory, and
the linker left the offset relative to the module's own globals.
---
 NULLC/Linker.cpp | 34 ++++++++++++++++++++++++++++++++++
 NULLC/Linker.h   |  1 +
 2 files changed, 35 insertions(+)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index e638069..9bed746 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -788,6 +788,8 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			cmd.argument += oldRegVmConstantsSize;
 
 			exRegVmConstants[cmd.argument] = typeRemap[exRegVmConstants[cmd.argument]];
+
+			FixupReturnMicrocode(cmd.argument, oldGlobalSize);
 			break;
 		case rviConvertPtr:
 			cmd.argument = typeRemap[cmd.argument];
@@ -1144,3 +1146,35 @@ void Linker::FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize)
 	}
 }
 
+
+void Linker::FixupReturnMicrocode(unsigned microcode, unsigned oldGlobalSize)
+{
+	// Skip result type and size
+	microcode += 2;
+
+	while(exRegVmConstants[microcode] != rvmiReturn)
+	{
+		switch(exRegVmConstants[microcode++])
+		{
+		case rvmiPush:
+		case rvmiPushQword:
+		case rvmiPushImm:
+		case rvmiPushImmq:
+			microcode++;
+			break;
+		case rvmiPushMem:
+			if(exRegVmConstants[microcode] == rvrrGlobals)
+			{
+				unsigned &offset = exRegVmConstants[microcode + 1];
+
+				if(offset >> 24)
+					offset = (offset & 0x00ffffff) + exModules[moduleRemap[(offset >> 24) - 1]].variableOffset;
+				else
+					offset += oldGlobalSize;
+			}
+
+			microcode += 3;
+			break;
+		}
+	}
+}
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index cc8a3f6..2dd5848 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -25,6 +25,7 @@ public:
 	const char*	GetLinkError();
 
 	void	FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize);
+	void	FixupReturnMicrocode(unsigned microcode, unsigned oldGlobalSize);
 public:
 	char		linkError[LINK_ERROR_BUFFER_SIZE];
 
-- 
2.43.0


From e3c0a78b016b1d1b9a8196484e42f7c71115b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:10 +0000
Subject: [PATCH 12/31] fix: keep the module of an imported global in call and
 return microcode

A large global of an imported module passed by value was read at the
offset of the importing module's own globals.
---
 NULLC/InstructionTreeRegVmLower.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 8e64013..8291928 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -398,6 +398,15 @@ void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFun
 	}
 }
 
+unsigned GetContainerMemoryOffset(VmConstant *constant)
+{
+	VariableData *container = constant->container;
+
+	unsigned moduleId = container->importModule ? container->importModule->importIndex << 24 : 0;
+
+	return constant->iValue + container->offset + moduleId;
+}
+
 bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 {
 	if(VmConstant *constant = getType<VmConstant>(value))
@@ -408,7 +417,7 @@ bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 		{
 			lowModule->constants.push_back(rvmiPushMem);
 			lowModule->constants.push_back(IsLocalScope(constant->container->scope) ? rvrrFrame : rvrrGlobals);
-			lowModule->constants.push_back(constant->container->offset + constant->iValue);
+			lowModule->constants.push_back(GetContainerMemoryOffset(constant));
 			lowModule->constants.push_back(int(constant->type.size));
 
 			return true;
@@ -2088,7 +2097,7 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 
 			lowModule->constants.push_back(rvmiPopMem);
 			lowModule->constants.push_back(IsLocalScope(resultAddress->container->scope) ? rvrrFrame : rvrrGlobals);
-			lowModule->constants.push_back(resultAddress->container->offset + resultAddress->iValue);
+			lowModule->constants.push_back(GetContainerMemoryOffset(resultAddress));
 			lowModule->constants.push_back(int(resultAddress->type.size));
 
 		}
-- 
2.43.0


From 8a3bd233e94341492d3632d1f59c6e343741e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 13/31] fix: restore the line endings of ExpressionEval.cpp

---
 NULLC/ExpressionEval.cpp | 6828 +++++++++++++++++++-------------------
 1 file changed, 3414 insertions(+), 3414 deletions(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index f870b59..52b2a98 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1,3414 +1,3414 @@
-#include "ExpressionEval.h"
-
-#include <limits.h>
-#include <math.h>
-
-#include "ExpressionTree.h"
-
-#define FMT_ISTR(x) unsigned(x.end - x.begin), x.begin
-
-namespace
-{
-	void* ReadVmMemoryPointer(void* address)
-	{
-		void *result;
-		memcpy(&result, address, sizeof(void*));
-		return result;
-	}
-
-	void WriteVmMemoryPointer(void* address, void *value)
-	{
-		memcpy(address, &value, sizeof(void*));
-	}
-}
-
-NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* Report(ExpressionEvalContext &ctx, const char *msg, ...)
-{
-	if(ctx.errorBuf && ctx.errorBufSize)
-	{
-		va_list args;
-		va_start(args, msg);
-
-		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
-
-		va_end(args);
-
-		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
-	}
-
-	ctx.errorCritical = false;
-
-	return NULL;
-}
-
-NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* ReportCritical(ExpressionEvalContext &ctx, const char *msg, ...)
-{
-	if(ctx.errorBuf && ctx.errorBufSize)
-	{
-		va_list args;
-		va_start(args, msg);
-
-		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
-
-		va_end(args);
-
-		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
-	}
-
-	ctx.errorCritical = true;
-
-	return NULL;
-}
-
-bool AddInstruction(ExpressionEvalContext &ctx)
-{
-	if(ctx.instruction < ctx.instructionsLimit)
-	{
-		ctx.instruction++;
-		return true;
-	}
-
-	Report(ctx, "ERROR: instruction limit reached");
-
-	return false;
-}
-
-ExprPointerLiteral* AllocateTypeStorage(ExpressionEvalContext &ctx, SynBase *source, TypeBase *type)
-{
-	if(isType<TypeError>(type))
-		return NULL;
-
-	for(unsigned i = 0; i < ctx.abandonedMemory.size(); i++)
-	{
-		ExprPointerLiteral *ptr = ctx.abandonedMemory[i];
-
-		if(ptr->end - ptr->ptr == type->size)
-		{
-			ptr->type = ctx.ctx.GetReferenceType(type);
-
-			memset(ptr->ptr, 0, unsigned(type->size));
-
-			ctx.abandonedMemory[i] = ctx.abandonedMemory.back();
-			ctx.abandonedMemory.pop_back();
-
-			return ptr;
-		}
-	}
-
-	if(type->size > ctx.variableMemoryLimit)
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: single variable memory limit");
-
-	if(ctx.totalMemory + type->size > ctx.totalMemoryLimit)
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: total variable memory limit");
-
-	ctx.totalMemory += unsigned(type->size);
-
-	unsigned char *memory = (unsigned char*)ctx.ctx.allocator->alloc(unsigned(type->size));
-
-	memset(memory, 0, unsigned(type->size));
-
-	return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(source, ctx.ctx.GetReferenceType(type), memory, memory + type->size);
-}
-
-void FreeMemoryLiteral(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory)
-{
-	ctx.abandonedMemory.push_back(memory->ptr);
-}
-
-bool CreateStore(ExpressionEvalContext &ctx, ExprBase *target, ExprBase *value)
-{
-	// No side-effects while coroutine is skipping to target node
-	if(!ctx.stackFrames.empty())
-		assert(ctx.stackFrames.back()->targetYield == 0);
-
-	if(isType<ExprNullptrLiteral>(target))
-	{
-		Report(ctx, "ERROR: store to null pointer");
-
-		return false;
-	}
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
-
-	assert(ptr);
-	assert(ptr->ptr + value->type->size <= ptr->end);
-
-	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
-	{
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(value))
-	{
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprStringLiteral *expr = getType<ExprStringLiteral>(value))
-	{
-		memcpy(ptr->ptr, expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
-	{
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
-	{
-		if(expr->type == ctx.ctx.typeFloat)
-		{
-			float tmp = float(expr->value);
-			memcpy(ptr->ptr, &tmp, unsigned(value->type->size));
-			return true;
-		}
-
-		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(value))
-	{
-		if(isType<TypeError>(expr->value))
-			return false;
-
-		if(isType<TypeArgumentSet>(expr->value) || isType<TypeMemberSet>(expr->value))
-			return false;
-
-		unsigned index = ctx.ctx.GetTypeIndex(expr->value);
-		memcpy(ptr->ptr, &index, unsigned(value->type->size));
-		return true;
-	}
-
-	if(isType<ExprNullptrLiteral>(value))
-	{
-		memset(ptr->ptr, 0, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprFunctionIndexLiteral *expr = getType<ExprFunctionIndexLiteral>(value))
-	{
-		unsigned index = expr->function ? ctx.ctx.GetFunctionIndex(expr->function) + 1 : 0;
-		memcpy(ptr->ptr, &index, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprFunctionLiteral *expr = getType<ExprFunctionLiteral>(value))
-	{
-		unsigned index = expr->data ? ctx.ctx.GetFunctionIndex(expr->data) + 1 : 0;
-		memcpy(ptr->ptr, &index, sizeof(unsigned));
-
-		if(isType<ExprNullptrLiteral>(expr->context))
-			memset(ptr->ptr + 4, 0, sizeof(void*));
-		else if(ExprPointerLiteral *context = getType<ExprPointerLiteral>(expr->context))
-			memcpy(ptr->ptr + 4, &context->ptr, sizeof(void*));
-		else
-			return false;
-
-		return true;
-	}
-
-	if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(value))
-	{
-		TypeRef *ptrType = getType<TypeRef>(expr->type);
-
-		(void)ptrType;
-		assert(ptrType);
-		assert(expr->ptr + ptrType->subType->size <= expr->end);
-
-		memcpy(ptr->ptr, &expr->ptr, unsigned(value->type->size));
-		return true;
-	}
-
-	if(ExprMemoryLiteral *expr = getType<ExprMemoryLiteral>(value))
-	{
-		memcpy(ptr->ptr, expr->ptr->ptr, unsigned(value->type->size));
-		return true;
-	}
-
-	Report(ctx, "ERROR: unknown store type");
-
-	return false;
-}
-
-ExprBase* CreateLoad(ExpressionEvalContext &ctx, ExprBase *target)
-{
-	// No side-effects while coroutine is skipping to target node
-	if(!ctx.stackFrames.empty())
-		assert(ctx.stackFrames.back()->targetYield == 0);
-
-	if(isType<ExprNullptrLiteral>(target))
-	{
-		Report(ctx, "ERROR: load from null pointer");
-
-		return NULL;
-	}
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
-
-	assert(ptr);
-
-	TypeRef *refType = getType<TypeRef>(target->type);
-
-	assert(refType);
-
-	TypeBase *type = refType->subType;
-
-	assert(ptr->ptr + type->size <= ptr->end);
-
-	if(type == ctx.ctx.typeBool)
-	{
-		bool value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeChar)
-	{
-		signed char value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeShort)
-	{
-		short value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeInt)
-	{
-		int value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeLong)
-	{
-		long long value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeFloat)
-	{
-		float value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeDouble)
-	{
-		double value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
-	}
-
-	if(type == ctx.ctx.typeTypeID)
-	{
-		unsigned index = 0;
-		memcpy(&index, ptr->ptr, sizeof(unsigned));
-
-		TypeBase *data = ctx.ctx.types[index];
-
-		return new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(target->source, type, data);
-	}
-
-	if(type == ctx.ctx.typeFunctionID)
-	{
-		unsigned index = 0;
-		memcpy(&index, ptr->ptr, sizeof(unsigned));
-
-		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
-
-		return new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(target->source, type, data);
-	}
-
-	if(type == ctx.ctx.typeNullPtr)
-	{
-		return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
-	}
-
-	if(isType<TypeFunction>(type))
-	{
-		unsigned index = 0;
-		memcpy(&index, ptr->ptr, sizeof(unsigned));
-
-		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
-
-		unsigned char *value = 0;
-		memcpy(&value, ptr->ptr + 4, sizeof(value));
-		
-		if(!data)
-		{
-			assert(value == NULL);
-
-			return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-		}
-
-		TypeRef *ptrType = getType<TypeRef>(data->contextType);
-
-		assert(ptrType);
-
-		ExprBase *context = NULL;
-
-		if(value == NULL)
-			context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ptrType);
-		else
-			context = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, ptrType, value, value + ptrType->subType->size);
-
-		return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, data, context);
-	}
-
-	if(TypeRef *ptrType = getType<TypeRef>(type))
-	{
-		unsigned char *value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-		
-		if(value == NULL)
-			return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
-
-		return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, type, value, value + ptrType->subType->size);
-	}
-
-	if(isType<TypeEnum>(type))
-	{
-		int value;
-		assert(type->size == sizeof(value));
-		memcpy(&value, ptr->ptr, unsigned(type->size));
-
-		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
-	}
-
-	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, target->source, type);
-
-	if(!storage)
-		return NULL;
-
-	memcpy(storage->ptr, ptr->ptr, unsigned(type->size));
-
-	return new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(target->source, type, storage);
-}
-
-bool CreateInsert(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, ExprBase *value)
-{
-	assert(memory->ptr->ptr + value->type->size <= memory->ptr->end);
-
-	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(value->type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + value->type->size);
-
-	if(!CreateStore(ctx, &addr, value))
-		return false;
-
-	return true;
-}
-
-ExprBase* CreateExtract(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, TypeBase *type)
-{
-	assert(memory->ptr->ptr + type->size <= memory->ptr->end);
-
-	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + type->size);
-
-	return CreateLoad(ctx, &addr);
-}
-
-ExprMemoryLiteral* CreateConstruct(ExpressionEvalContext &ctx, TypeBase *type, ExprBase *el0, ExprBase *el1, ExprBase *el2)
-{
-	long long size = 0;
-	
-	if(el0)
-		size += el0->type->size;
-
-	if(el1)
-		size += el1->type->size;
-
-	if(el2)
-		size += el2->type->size;
-
-	assert(type->size == size);
-
-	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, el0->source, type);
-
-	if(!storage)
-		return NULL;
-
-	ExprMemoryLiteral *memory = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(el0->source, type, storage);
-
-	unsigned offset = 0;
-
-	if(el0 && !CreateInsert(ctx, memory, offset, el0))
-		return NULL;
-	else if(el0)
-		offset += unsigned(el0->type->size);
-
-	if(el1 && !CreateInsert(ctx, memory, offset, el1))
-		return NULL;
-	else if(el1)
-		offset += unsigned(el1->type->size);
-
-	if(el2 && !CreateInsert(ctx, memory, offset, el2))
-		return NULL;
-	else if(el2)
-		offset += unsigned(el2->type->size);
-
-	return memory;
-}
-
-ExprPointerLiteral* FindVariableStorage(ExpressionEvalContext &ctx, VariableData *data, bool skipMissing)
-{
-	if(ctx.stackFrames.empty())
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: no stack frame");
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(unsigned i = 0; i < frame->variables.size(); i++)
-	{
-		ExpressionEvalContext::StackVariable &variable = frame->variables[i];
-
-		if(variable.variable == data)
-			return variable.ptr;
-	}
-
-	if(ctx.globalFrame)
-	{
-		for(unsigned i = 0; i < ctx.globalFrame->variables.size(); i++)
-		{
-			ExpressionEvalContext::StackVariable &variable = ctx.globalFrame->variables[i];
-
-			if(variable.variable == data)
-				return variable.ptr;
-		}
-	}
-
-	if(data->importModule != NULL)
-		return (ExprPointerLiteral*)Report(ctx, "ERROR: can't access external variable '%.*s'", FMT_ISTR(data->name->name));
-
-	if(skipMissing)
-		return NULL;
-
-	return (ExprPointerLiteral*)Report(ctx, "ERROR: variable '%.*s' not found", FMT_ISTR(data->name->name));
-}
-
-bool TryTakeLong(ExprBase *expression, long long &result)
-{
-	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
-	{
-		result = expr->value ? 1 : 0;
-		return true;
-	}
-
-	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
-	{
-		result = (long long)expr->value;
-		return true;
-	}
-
-	return false;
-}
-
-bool TryTakeDouble(ExprBase *expression, double &result)
-{
-	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
-	{
-		result = expr->value ? 1.0 : 0.0;
-		return true;
-	}
-
-	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
-	{
-		result = (double)expr->value;
-		return true;
-	}
-
-	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
-	{
-		result = (double)expr->value;
-		return true;
-	}
-
-	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	return false;
-}
-
-bool TryTakeTypeId(ExprBase *expression, TypeBase* &result)
-{
-	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(expression))
-	{
-		result = expr->value;
-		return true;
-	}
-
-	return false;
-}
-
-bool TryTakePointer(ExprBase *expression, void* &result)
-{
-	if(isType<ExprNullptrLiteral>(expression))
-	{
-		result = 0;
-		return true;
-	}
-	else if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(expression))
-	{
-		result = expr->ptr;
-		return true;
-	}
-
-	return false;
-}
-
-ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *lhs, ExprBase *unevaluatedRhs, SynBinaryOpType op)
-{
-	if(isType<TypeError>(lhs->type) || isType<TypeError>(unevaluatedRhs->type))
-		return Report(ctx, "ERROR: encountered an error node");
-
-	assert(lhs->type == unevaluatedRhs->type);
-
-	if((ctx.ctx.IsIntegerType(lhs->type) || isType<TypeEnum>(lhs->type)) && (ctx.ctx.IsIntegerType(unevaluatedRhs->type) || isType<TypeEnum>(unevaluatedRhs->type)))
-	{
-		long long lhsValue = 0;
-		long long rhsValue = 0;
-
-		// Short-circuit behaviour
-		if(op == SYN_BINARY_OP_LOGICAL_AND)
-		{
-			if(TryTakeLong(lhs, lhsValue))
-			{
-				if(lhsValue == 0)
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, false);
-
-				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-				if(!rhs)
-					return NULL;
-
-				if(TryTakeLong(rhs, rhsValue))
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
-			}
-
-			return NULL;
-		}
-
-		if(op == SYN_BINARY_OP_LOGICAL_OR)
-		{
-			if(TryTakeLong(lhs, lhsValue))
-			{
-				if(lhsValue == 1)
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, true);
-
-				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-				if(!rhs)
-					return NULL;
-
-				if(TryTakeLong(rhs, rhsValue))
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
-			}
-
-			return NULL;
-		}
-
-		ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-		if(!rhs)
-			return NULL;
-
-		assert(lhs->type == rhs->type);
-
-		TypeBase *resultType = ctx.ctx.typeInt;
-
-		if(lhs->type == ctx.ctx.typeLong || rhs->type == ctx.ctx.typeLong)
-			resultType = ctx.ctx.typeLong;
-
-		if(TryTakeLong(lhs, lhsValue) && TryTakeLong(rhs, rhsValue))
-		{
-			if(resultType == ctx.ctx.typeInt)
-			{
-				int lhsValueInt = int(lhsValue);
-				int rhsValueInt = int(rhsValue);
-
-				switch(op)
-				{
-				case SYN_BINARY_OP_ADD:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt + rhsValueInt);
-				case SYN_BINARY_OP_SUB:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt - rhsValueInt);
-				case SYN_BINARY_OP_MUL:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, int(lhsValueInt * rhsValueInt));
-				case SYN_BINARY_OP_DIV:
-					if(rhsValueInt == 0)
-						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
-
-					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
-						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
-				case SYN_BINARY_OP_MOD:
-					if(rhsValueInt == 0)
-						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
-
-					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
-						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
-				case SYN_BINARY_OP_POW:
-					if(rhsValueInt < 0)
-						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
-
-					int result, power;
-
-					result = 1;
-					power = rhsValueInt;
-
-					while(power)
-					{
-						if(power & 1)
-						{
-							result *= lhsValueInt;
-							power--;
-						}
-						lhsValueInt *= lhsValueInt;
-						power >>= 1;
-					}
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
-				case SYN_BINARY_OP_SHL:
-					if(rhsValueInt < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt << rhsValueInt);
-				case SYN_BINARY_OP_SHR:
-					if(rhsValueInt < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt >> rhsValueInt);
-				case SYN_BINARY_OP_LESS:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt < rhsValueInt);
-				case SYN_BINARY_OP_LESS_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt <= rhsValueInt);
-				case SYN_BINARY_OP_GREATER:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt > rhsValueInt);
-				case SYN_BINARY_OP_GREATER_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt >= rhsValueInt);
-				case SYN_BINARY_OP_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt == rhsValueInt);
-				case SYN_BINARY_OP_NOT_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt != rhsValueInt);
-				case SYN_BINARY_OP_BIT_AND:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt & rhsValueInt);
-				case SYN_BINARY_OP_BIT_OR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt | rhsValueInt);
-				case SYN_BINARY_OP_BIT_XOR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt ^ rhsValueInt);
-				case SYN_BINARY_OP_LOGICAL_XOR:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValueInt != !!rhsValueInt);
-				default:
-					assert(!"unexpected type");
-					break;
-				}
-			}
-			else
-			{
-				switch(op)
-				{
-				case SYN_BINARY_OP_ADD:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue + rhsValue);
-				case SYN_BINARY_OP_SUB:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue - rhsValue);
-				case SYN_BINARY_OP_MUL:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue * rhsValue);
-				case SYN_BINARY_OP_DIV:
-					if(rhsValue == 0)
-						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
-
-					if(lhsValue == LLONG_MIN && rhsValue == -1)
-						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
-				case SYN_BINARY_OP_MOD:
-					if(rhsValue == 0)
-						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
-
-					if(lhsValue == LLONG_MIN && rhsValue == -1)
-						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
-				case SYN_BINARY_OP_POW:
-					if(rhsValue < 0)
-						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
-
-					long long result, power;
-
-					result = 1;
-					power = rhsValue;
-
-					while(power)
-					{
-						if(power & 1)
-						{
-							result *= lhsValue;
-							power--;
-						}
-						lhsValue *= lhsValue;
-						power >>= 1;
-					}
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
-				case SYN_BINARY_OP_SHL:
-					if(rhsValue < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue << rhsValue);
-				case SYN_BINARY_OP_SHR:
-					if(rhsValue < 0)
-						return ReportCritical(ctx, "ERROR: negative shift value");
-
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue >> rhsValue);
-				case SYN_BINARY_OP_LESS:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
-				case SYN_BINARY_OP_LESS_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
-				case SYN_BINARY_OP_GREATER:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
-				case SYN_BINARY_OP_GREATER_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
-				case SYN_BINARY_OP_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
-				case SYN_BINARY_OP_NOT_EQUAL:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
-				case SYN_BINARY_OP_BIT_AND:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue & rhsValue);
-				case SYN_BINARY_OP_BIT_OR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue | rhsValue);
-				case SYN_BINARY_OP_BIT_XOR:
-					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue ^ rhsValue);
-				case SYN_BINARY_OP_LOGICAL_XOR:
-					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValue != !!rhsValue);
-				default:
-					assert(!"unexpected type");
-					break;
-				}
-			}
-		}
-
-		return Report(ctx, "ERROR: failed to eval binary op");
-	}
-
-	ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
-
-	if(!rhs)
-		return NULL;
-
-	if(ctx.ctx.IsFloatingPointType(lhs->type) && ctx.ctx.IsFloatingPointType(rhs->type))
-	{
-		assert(lhs->type == rhs->type);
-
-		double lhsValue = 0;
-		double rhsValue = 0;
-
-		if(TryTakeDouble(lhs, lhsValue) && TryTakeDouble(rhs, rhsValue))
-		{
-			switch(op)
-			{
-			case SYN_BINARY_OP_ADD:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue + rhsValue);
-			case SYN_BINARY_OP_SUB:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue - rhsValue);
-			case SYN_BINARY_OP_MUL:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue * rhsValue);
-			case SYN_BINARY_OP_DIV:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue / rhsValue);
-			case SYN_BINARY_OP_MOD:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, fmod(lhsValue, rhsValue));
-			case SYN_BINARY_OP_POW:
-				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, pow(lhsValue, rhsValue));
-			case SYN_BINARY_OP_LESS:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
-			case SYN_BINARY_OP_LESS_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
-			case SYN_BINARY_OP_GREATER:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
-			case SYN_BINARY_OP_GREATER_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
-			case SYN_BINARY_OP_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
-			case SYN_BINARY_OP_NOT_EQUAL:
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
-			default:
-				assert(!"unexpected type");
-				break;
-			}
-		}
-	}
-	else if(lhs->type == ctx.ctx.typeTypeID && rhs->type == ctx.ctx.typeTypeID)
-	{
-		TypeBase *lhsValue = NULL;
-		TypeBase *rhsValue = NULL;
-
-		if(TryTakeTypeId(lhs, lhsValue) && TryTakeTypeId(rhs, rhsValue))
-		{
-			if(op == SYN_BINARY_OP_EQUAL)
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
-
-			if(op == SYN_BINARY_OP_NOT_EQUAL)
-				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
-		}
-	}
-	else if(isType<TypeRef>(lhs->type) && isType<TypeRef>(rhs->type))
-	{
-		assert(lhs->type == rhs->type);
-
-		void *lPtr = NULL;
-
-		if(isType<ExprNullptrLiteral>(lhs))
-			lPtr = NULL;
-		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(lhs))
-			lPtr = value->ptr;
-		else
-			assert(!"unknown type");
-
-		void *rPtr = NULL;
-
-		if(isType<ExprNullptrLiteral>(rhs))
-			rPtr = NULL;
-		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(rhs))
-			rPtr = value->ptr;
-		else
-			assert(!"unknown type");
-
-		if(op == SYN_BINARY_OP_EQUAL)
-			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr == rPtr);
-
-		if(op == SYN_BINARY_OP_NOT_EQUAL)
-			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr != rPtr);
-	}
-
-	return Report(ctx, "ERROR: failed to eval binary op");
-}
-
-ExprBase* CheckType(ExprBase* expression, ExprBase *value)
-{
-	if(isType<TypeError>(expression->type))
-		return NULL;
-
-	assert(expression->type == value->type);
-
-	return value;
-}
-
-ExprBase* EvaluateVoid(ExpressionEvalContext &ctx, ExprBase *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateBoolLiteral(ExpressionEvalContext &ctx, ExprBoolLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateCharacterLiteral(ExpressionEvalContext &ctx, ExprCharacterLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateStringLiteral(ExpressionEvalContext &ctx, ExprStringLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprStringLiteral>()) ExprStringLiteral(expression->source, expression->type, expression->value, expression->length));
-}
-
-ExprBase* EvaluateIntegerLiteral(ExpressionEvalContext &ctx, ExprIntegerLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateRationalLiteral(ExpressionEvalContext &ctx, ExprRationalLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateTypeLiteral(ExpressionEvalContext &ctx, ExprTypeLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, expression->type, expression->value));
-}
-
-ExprBase* EvaluateNullptrLiteral(ExpressionEvalContext &ctx, ExprNullptrLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
-}
-
-ExprBase* EvaluateFunctionIndexLiteral(ExpressionEvalContext &ctx, ExprFunctionIndexLiteral *expression)
-{
-	return CheckType(expression, new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(expression->source, expression->type, expression->function));
-}
-
-ExprBase* EvaluateArray(ExpressionEvalContext &ctx, ExprArray *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, expression->type);
-
-	if(!storage)
-		return NULL;
-
-	TypeArray *arrayType = getType<TypeArray>(expression->type);
-
-	assert(arrayType);
-
-	unsigned offset = 0;
-
-	for(ExprBase *value = expression->values.head; value; value = value->next)
-	{
-		ExprBase *element = Evaluate(ctx, value);
-
-		if(!element)
-			return NULL;
-
-		assert(storage->ptr + offset + arrayType->subType->size <= storage->end);
-
-		unsigned char *targetPtr = storage->ptr + offset;
-
-		ExprPointerLiteral *target = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-		if(!CreateStore(ctx, target, element))
-			return NULL;
-
-		offset += unsigned(arrayType->subType->size);
-	}
-
-	ExprBase *load = CreateLoad(ctx, storage);
-
-	if(!load)
-		return NULL;
-
-	return CheckType(expression, load);
-}
-
-ExprBase* EvaluatePreModify(ExpressionEvalContext &ctx, ExprPreModify *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *ptr = Evaluate(ctx, expression->value);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
-
-	if(!modified)
-		return NULL;
-
-	if(!CreateStore(ctx, ptr, modified))
-		return NULL;
-
-	return CheckType(expression, modified);
-}
-
-ExprBase* EvaluatePostModify(ExpressionEvalContext &ctx, ExprPostModify *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *ptr = Evaluate(ctx, expression->value);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
-
-	if(!modified)
-		return NULL;
-
-	if(!CreateStore(ctx, ptr, modified))
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	switch(expression->category)
-	{
-	case EXPR_CAST_NUMERICAL:
-		if(ctx.ctx.IsIntegerType(expression->type))
-		{
-			long long result = 0;
-
-			if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
-			{
-				if(expression->type == ctx.ctx.typeBool)
-					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, expr->value != 0.0));
-
-				if(expression->type == ctx.ctx.typeChar)
-					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)expr->value));
-
-				if(expression->type == ctx.ctx.typeShort)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)expr->value));
-
-				if(expression->type == ctx.ctx.typeInt)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)expr->value));
-
-				if(expression->type == ctx.ctx.typeLong)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, (long long)expr->value));
-			}
-			else if(TryTakeLong(value, result))
-			{
-				if(expression->type == ctx.ctx.typeBool)
-					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, result != 0));
-
-				if(expression->type == ctx.ctx.typeChar)
-					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)result));
-
-				if(expression->type == ctx.ctx.typeShort)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)result));
-
-				if(expression->type == ctx.ctx.typeInt)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)result));
-
-				if(expression->type == ctx.ctx.typeLong)
-					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, result));
-			}
-		}
-		else if(ctx.ctx.IsFloatingPointType(expression->type))
-		{
-			double result = 0.0;
-
-			if(TryTakeDouble(value, result))
-			{
-				if(expression->type == ctx.ctx.typeFloat)
-					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, (float)result));
-
-				if(expression->type == ctx.ctx.typeDouble)
-					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, result));
-			}
-		}
-		break;
-	case EXPR_CAST_PTR_TO_BOOL:
-		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(value)));
-	case EXPR_CAST_UNSIZED_TO_BOOL:
-		{
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(ptr)));
-		}
-		break;
-	case EXPR_CAST_FUNCTION_TO_BOOL:
-		{
-			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, funcLiteral->data != NULL));
-		}
-		break;
-	case EXPR_CAST_NULL_TO_PTR:
-		return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
-	case EXPR_CAST_NULL_TO_AUTO_PTR:
-		{
-			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
-			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_NULL_TO_UNSIZED:
-		{
-			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-			ExprBase *size = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, ptr, size, NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_NULL_TO_AUTO_ARRAY:
-		{
-			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
-			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-			ExprBase *length = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_NULL_TO_FUNCTION:
-		{
-			ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-			ExprFunctionLiteral *result = new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, context);
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_ARRAY_PTR_TO_UNSIZED:
-		{
-			TypeRef *refType = getType<TypeRef>(value->type);
-
-			assert(refType);
-
-			TypeArray *arrType = getType<TypeArray>(refType->subType);
-
-			assert(arrType);
-			assert(unsigned(arrType->length) == arrType->length);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrType->length), NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_PTR_TO_AUTO_PTR:
-		{
-			TypeRef *refType = getType<TypeRef>(value->type);
-
-			assert(refType);
-
-			TypeClass *classType = getType<TypeClass>(refType->subType);
-
-			ExprBase *typeId = NULL;
-
-			if(classType && (classType->extendable || classType->baseClass))
-			{
-				if(isType<ExprNullptrLiteral>(value))
-					return Report(ctx, "ERROR: null pointer access");
-
-				ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-				assert(ptr);
-				assert(ptr->end - ptr->ptr >= 4);
-
-				typeId = CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), ptr->ptr, ptr->ptr + 4));
-			}
-			else
-			{
-				typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, refType->subType);
-			}
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, value, NULL);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_AUTO_PTR_TO_PTR:
-		{
-			TypeRef *refType = getType<TypeRef>(expression->type);
-
-			assert(refType);
-
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			ExprTypeLiteral *typeId = getType<ExprTypeLiteral>(CreateExtract(ctx, memLiteral, 0, ctx.ctx.typeTypeID));
-
-			if(typeId->value != refType->subType)
-				return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
-
-			ExprBase *ptr = CreateExtract(ctx, memLiteral, 4, refType);
-
-			if(!ptr)
-				return NULL;
-
-			return CheckType(expression, ptr);
-		}
-		break;
-	case EXPR_CAST_UNSIZED_TO_AUTO_ARRAY:
-		{
-			TypeUnsizedArray *arrType = getType<TypeUnsizedArray>(value->type);
-
-			assert(arrType);
-
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrType->subType);
-			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-			ExprBase *length = CreateExtract(ctx, memLiteral, sizeof(void*), ctx.ctx.typeInt);
-
-			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
-
-			if(!result)
-				return NULL;
-
-			return CheckType(expression, result);
-		}
-		break;
-	case EXPR_CAST_REINTERPRET:
-		if(expression->type == ctx.ctx.typeInt && value->type == ctx.ctx.typeTypeID)
-		{
-			ExprTypeLiteral *typeLiteral = getType<ExprTypeLiteral>(value);
-
-			if(isType<TypeError>(typeLiteral->value))
-				return NULL;
-
-			if(isType<TypeArgumentSet>(typeLiteral->value) || isType<TypeMemberSet>(typeLiteral->value))
-				return NULL;
-
-			unsigned index = ctx.ctx.GetTypeIndex(typeLiteral->value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, index));
-		}
-		else if(isType<TypeRef>(expression->type) && isType<TypeRef>(value->type))
-		{
-			TypeRef *refType = getType<TypeRef>(expression->type);
-
-			if(isType<ExprNullptrLiteral>(value))
-				return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
-			
-			if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
-			{
-				(void)refType;
-				assert(uintptr_t(tmp->end - tmp->ptr) >= uintptr_t(refType->subType->size));
-
-				return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, expression->type, tmp->ptr, tmp->end));
-			}
-		}
-		else if(isType<TypeUnsizedArray>(expression->type) && isType<TypeUnsizedArray>(value->type))
-		{
-			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, expression->type, memLiteral->ptr));
-		}
-		else if(isType<TypeFunction>(expression->type) && isType<TypeFunction>(value->type))
-		{
-			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, funcLiteral->data, funcLiteral->context));
-		}
-		else if(isType<TypeInt>(expression->type) && isType<TypeEnum>(value->type))
-		{
-			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
-		}
-		else if(isType<TypeEnum>(expression->type) && isType<TypeInt>(value->type))
-		{
-			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
-
-			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
-		}
-		break;
-	}
-
-	return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
-}
-
-ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(value->type == ctx.ctx.typeBool)
-	{
-		if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
-		{
-			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
-				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
-		}
-		else if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
-		{
-			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
-				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
-		}
-	}
-	else if(ctx.ctx.IsIntegerType(value->type))
-	{
-		long long result = 0;
-
-		if(TryTakeLong(value, result))
-		{
-			switch(expression->op)
-			{
-			case SYN_UNARY_OP_PLUS:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
-			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
-			case SYN_UNARY_OP_BIT_NOT:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
-			case SYN_UNARY_OP_LOGICAL_NOT:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, !result));
-			default:
-				assert(!"unknown unary operation");
-			}
-		}
-	}
-	else if(ctx.ctx.IsFloatingPointType(value->type))
-	{
-		double result = 0.0;
-
-		if(TryTakeDouble(value, result))
-		{
-			switch(expression->op)
-			{
-			case SYN_UNARY_OP_PLUS:
-				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, result));
-			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, -result));
-			case SYN_UNARY_OP_BIT_NOT:
-			case SYN_UNARY_OP_LOGICAL_NOT:
-				return NULL;
-			default:
-				assert(!"unknown unary operation");
-			}
-		}
-	}
-	else if(isType<TypeRef>(value->type))
-	{
-		void *lPtr = NULL;
-
-		if(isType<ExprNullptrLiteral>(value))
-			lPtr = NULL;
-		else if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
-			lPtr = tmp->ptr;
-		else
-			assert(!"unknown type");
-
-		if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
-			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
-	}
-	else if(value->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
-
-		void *lPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, memLiteral, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
-			return Report(ctx, "ERROR: failed to evaluate auto ref value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
-
-	}
-
-	return Report(ctx, "ERROR: failed to eval unary op");
-}
-
-ExprBase* EvaluateBinaryOp(ExpressionEvalContext &ctx, ExprBinaryOp *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *lhs = Evaluate(ctx, expression->lhs);
-
-	if(!lhs)
-		return NULL;
-
-	// rhs remain unevaluated
-	ExprBase *result = CreateBinaryOp(ctx, expression->source, lhs, expression->rhs, expression->op);
-
-	if(!result)
-		return result;
-
-	return CheckType(expression, result);
-}
-
-ExprBase* EvaluateGetAddress(ExpressionEvalContext &ctx, ExprGetAddress *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable->variable, false);
-
-	if(!ptr)
-		return NULL;
-
-	return CheckType(expression, ptr);
-}
-
-ExprBase* EvaluateDereference(ExpressionEvalContext &ctx, ExprDereference *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *ptr = Evaluate(ctx, expression->value);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateConditional(ExpressionEvalContext &ctx, ExprConditional *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *condition = Evaluate(ctx, expression->condition);
-
-	if(!condition)
-		return NULL;
-
-	long long result;
-	if(!TryTakeLong(condition, result))
-		return Report(ctx, "ERROR: failed to evaluate ternary operator condition");
-
-	ExprBase *value = Evaluate(ctx, result ? expression->trueBlock : expression->falseBlock);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateAssignment(ExpressionEvalContext &ctx, ExprAssignment *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *lhs = Evaluate(ctx, expression->lhs);
-	ExprBase *rhs = Evaluate(ctx, expression->rhs);
-
-	if(!lhs || !rhs)
-		return NULL;
-
-	if(!CreateStore(ctx, lhs, rhs))
-		return NULL;
-
-	return CheckType(expression, rhs);
-}
-
-ExprBase* EvaluateMemberAccess(ExpressionEvalContext &ctx, ExprMemberAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(isType<ExprNullptrLiteral>(value))
-		return Report(ctx, "ERROR: member access of null pointer");
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-	assert(ptr);
-	assert(ptr->ptr + expression->member->variable->offset + expression->member->variable->type->size <= ptr->end);
-
-	unsigned char *targetPtr = ptr->ptr + expression->member->variable->offset;
-
-	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(expression->member->variable->type), targetPtr, targetPtr + expression->member->variable->type->size);
-
-	return CheckType(expression, shifted);
-}
-
-ExprBase* EvaluateArrayIndex(ExpressionEvalContext &ctx, ExprArrayIndex *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	ExprBase *index = Evaluate(ctx, expression->index);
-
-	if(!index)
-		return NULL;
-
-	long long result;
-	if(!TryTakeLong(index, result))
-		return Report(ctx, "ERROR: failed to evaluate array index");
-
-	if(TypeUnsizedArray *arrayType = getType<TypeUnsizedArray>(value->type))
-	{
-		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(value);
-
-		assert(memory);
-
-		ExprBase *value = CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(arrayType->subType));
-
-		if(!value)
-			return NULL;
-
-		if(isType<ExprNullptrLiteral>(value))
-			return Report(ctx, "ERROR: array index of a null array");
-
-		ExprIntegerLiteral *size = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
-
-		if(!size)
-			return NULL;
-
-		if(result < 0 || result >= size->value)
-			return ReportCritical(ctx, "ERROR: array index out of bounds");
-
-		ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-		assert(ptr);
-
-		unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
-
-		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-		return CheckType(expression, shifted);
-	}
-
-	TypeRef *refType = getType<TypeRef>(value->type);
-
-	assert(refType);
-
-	TypeArray *arrayType = getType<TypeArray>(refType->subType);
-
-	assert(arrayType);
-
-	if(isType<ExprNullptrLiteral>(value))
-		return Report(ctx, "ERROR: array index of a null array");
-
-	if(result < 0 || result >= arrayType->length)
-		return ReportCritical(ctx, "ERROR: array index out of bounds");
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
-
-	assert(ptr);
-	assert(ptr->ptr + result * arrayType->subType->size + arrayType->subType->size <= ptr->end);
-
-	unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
-
-	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-	return CheckType(expression, shifted);
-}
-
-ExprBase* EvaluateReturn(ExpressionEvalContext &ctx, ExprReturn *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(frame->targetYield)
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(ctx.stackFrames.empty())
-		return Report(ctx, "ERROR: no stack frame to return from");
-
-	frame->returnValue = value;
-
-	if(expression->coroutineStateUpdate)
-	{
-		if(!Evaluate(ctx, expression->coroutineStateUpdate))
-			return NULL;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateYield(ExpressionEvalContext &ctx, ExprYield *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	// Check if we reached target yield
-	if(frame->targetYield == expression->order)
-	{
-		frame->targetYield = 0;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-
-	if(frame->targetYield)
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-	ExprBase *value = Evaluate(ctx, expression->value);
-
-	if(!value)
-		return NULL;
-
-	if(ctx.stackFrames.empty())
-		return Report(ctx, "ERROR: no stack frame to return from");
-
-	frame->returnValue = value;
-
-	if(expression->coroutineStateUpdate)
-	{
-		if(!Evaluate(ctx, expression->coroutineStateUpdate))
-			return NULL;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateVariableDefinition(ExpressionEvalContext &ctx, ExprVariableDefinition *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(FindVariableStorage(ctx, expression->variable->variable, true) == NULL)
-	{
-		TypeBase *type = expression->variable->variable->type;
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, type);
-
-		if(!storage)
-			return NULL;
-
-		frame->variables.push_back(ExpressionEvalContext::StackVariable(expression->variable->variable, storage));
-	}
-
-	if(!frame->targetYield)
-	{
-		if(expression->initializer)
-		{
-			if(!Evaluate(ctx, expression->initializer))
-				return NULL;
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateZeroInitialize(ExpressionEvalContext &ctx, ExprZeroInitialize *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	TypeRef *refType = getType<TypeRef>(expression->address->type);
-
-	assert(refType);
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->address));
-
-	if(!ptr)
-		return NULL;
-
-	assert(ptr->ptr);
-	assert(uintptr_t(ptr->end - ptr->ptr) == unsigned(refType->subType->size));
-
-	memset(ptr->ptr, 0, unsigned(refType->subType->size));
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateArraySetup(ExpressionEvalContext &ctx, ExprArraySetup *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	TypeRef *refType = getType<TypeRef>(expression->lhs->type);
-
-	assert(refType);
-
-	TypeArray *arrayType = getType<TypeArray>(refType->subType);
-
-	assert(arrayType);
-
-	ExprBase *initializer = Evaluate(ctx, expression->initializer);
-
-	if(!initializer)
-		return NULL;
-
-	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->lhs));
-
-	if(!ptr)
-		return NULL;
-
-	for(unsigned i = 0; i < unsigned(arrayType->length); i++)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		assert(ptr);
-		assert(ptr->ptr + i * arrayType->subType->size + arrayType->subType->size <= ptr->end);
-
-		unsigned char *targetPtr = ptr->ptr + i * arrayType->subType->size;
-
-		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
-
-		if(!CreateStore(ctx, shifted, initializer))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateVariableDefinitions(ExpressionEvalContext &ctx, ExprVariableDefinitions *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	for(ExprBase *definition = expression->definitions.head; definition; definition = definition->next)
-	{
-		if(!Evaluate(ctx, definition))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateVariableAccess(ExpressionEvalContext &ctx, ExprVariableAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable, false);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateFunctionContextAccess(ExpressionEvalContext &ctx, ExprFunctionContextAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->contextVariable, false);
-
-	if(!ptr)
-		return NULL;
-
-	ExprBase *value = NULL;
-
-	TypeRef *refType = getType<TypeRef>(expression->function->contextType);
-
-	assert(refType);
-
-	TypeClass *classType = getType<TypeClass>(refType->subType);
-
-	assert(classType);
-
-	if(classType->members.empty())
-		value = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->function->contextType);
-	else
-		value = CreateLoad(ctx, ptr);
-
-	if(!value)
-		return NULL;
-
-	return CheckType(expression, value);
-}
-
-ExprBase* EvaluateFunctionDefinition(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
-
-	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->function->type, expression->function, context));
-}
-
-ExprBase* EvaluateGenericFunctionPrototype(ExpressionEvalContext &ctx, ExprGenericFunctionPrototype *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	for(ExprBase *expr = expression->contextVariables.head; expr; expr = expr->next)
-	{
-		if(!Evaluate(ctx, expr))
-			return NULL;
-	}
-
-	return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-}
-
-ExprBase* EvaluateFunction(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression, ExprBase *context, ArrayView<ExprBase*> arguments)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	if(ctx.stackFrames.size() >= ctx.stackDepthLimit)
-		return Report(ctx, "ERROR: stack depth limit");
-
-	ctx.stackFrames.push_back(new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, expression->function));
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(ExprVariableDefinition *curr = expression->contextArgument)
-	{
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
-
-		if(!storage)
-			return NULL;
-
-		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
-
-		if(!CreateStore(ctx, storage, context))
-			return NULL;
-	}
-
-	unsigned pos = 0;
-
-	for(ExprVariableDefinition *curr = expression->arguments.head; curr; curr = getType<ExprVariableDefinition>(curr->next))
-	{
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
-
-		if(!storage)
-			return NULL;
-
-		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
-
-		if(!CreateStore(ctx, storage, arguments[pos]))
-			return NULL;
-
-		pos++;
-	}
-
-	if(expression->coroutineStateRead)
-	{
-		if(ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(Evaluate(ctx, expression->coroutineStateRead)))
-		{
-			frame->targetYield = unsigned(jmpOffset->value);
-		}
-		else
-		{
-			return NULL;
-		}
-	}
-
-	for(ExprBase *value = expression->expressions.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-
-		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
-
-		if(frame->returnValue)
-			break;
-	}
-
-	ExprBase *result = frame->returnValue;
-
-	if(!result)
-		return ReportCritical(ctx, "ERROR: function didn't return a value");
-
-	ctx.stackFrames.pop_back();
-
-	return result;
-}
-
-ExprBase* EvaluateFunctionAccess(ExpressionEvalContext &ctx, ExprFunctionAccess *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *context = Evaluate(ctx, expression->context);
-
-	if(!context)
-		return NULL;
-
-	FunctionData *function = expression->function;
-
-	if(function->implementation)
-		function = function->implementation;
-
-	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, function->type, function, context));
-}
-
-ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression, ExprFunctionLiteral *ptr, ArrayView<ExprBase*> arguments)
-{
-	if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		if(value == 0)
-			return Report(ctx, "ERROR: Assertion failed");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeInt && arguments[1]->type == ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeChar))
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(arguments[1]);
-
-		ExprPointerLiteral *str = getType<ExprPointerLiteral>(CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeChar)));
-		ExprIntegerLiteral *length = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
-
-		if(!str)
-			return Report(ctx, "ERROR: null pointer access");
-
-		assert(length);
-
-		if(value == 0)
-			return Report(ctx, "ERROR: %.*s", int(length->value), str->ptr);
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("bool") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, value != 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("char") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeChar, char(value)));
-	}
-	else if(ptr->data->name->name == InplaceStr("short") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, short(value)));
-	}
-	else if(ptr->data->name->name == InplaceStr("int") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, int(value)));
-	}
-	else if(ptr->data->name->name == InplaceStr("long") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
-	{
-		long long value;
-		if(!TryTakeLong(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, value));
-	}
-	else if(ptr->data->name->name == InplaceStr("float") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
-	{
-		double value;
-		if(!TryTakeDouble(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, value));
-	}
-	else if(ptr->data->name->name == InplaceStr("double") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
-	{
-		double value;
-		if(!TryTakeDouble(arguments[0], value))
-			return Report(ctx, "ERROR: failed to evaluate value");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, value));
-	}
-	else if(ptr->data->name->name == InplaceStr("bool::bool") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("char::char") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("short::short") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("int::int") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("long::long") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("float::float") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("double::double") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
-	{
-		if(!CreateStore(ctx, ptr->context, arguments[0]))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("__newS"))
-	{
-		long long size;
-		if(!TryTakeLong(arguments[0], size))
-			return Report(ctx, "ERROR: failed to evaluate type size");
-
-		long long type;
-		if(!TryTakeLong(arguments[1], type))
-			return Report(ctx, "ERROR: failed to evaluate type ID");
-
-		TypeBase *target = ctx.ctx.types[unsigned(type)];
-
-		assert(target->size == size);
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, target);
-
-		if(!storage)
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), storage->ptr, storage->end));
-	}
-	else if(ptr->data->name->name == InplaceStr("__newA"))
-	{
-		long long size;
-		if(!TryTakeLong(arguments[0], size))
-			return Report(ctx, "ERROR: failed to evaluate type size");
-
-		long long count;
-		if(!TryTakeLong(arguments[1], count))
-			return Report(ctx, "ERROR: failed to evaluate element count");
-
-		long long type;
-		if(!TryTakeLong(arguments[2], type))
-			return Report(ctx, "ERROR: failed to evaluate type ID");
-
-		TypeBase *target = ctx.ctx.types[unsigned(type)];
-
-		assert(target->size == size);
-
-		if(target->size * unsigned(count) > ctx.variableMemoryLimit)
-			return Report(ctx, "ERROR: single variable memory limit");
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(target, count));
-
-		if(!storage)
-			return NULL;
-
-		ExprBase *result = CreateConstruct(ctx, ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeInt), storage, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count), NULL);
-
-		if(!result)
-			return NULL;
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("__rcomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *lPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *rPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr == rPtr));
-	}
-	else if(ptr->data->name->name == InplaceStr("__rncomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *lPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *rPtr = 0;
-		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr != rPtr));
-	}
-	else if(ptr->data->name->name == InplaceStr("__pcomp"))
-	{
-		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
-		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *aContext = 0;
-		if(a->context && !TryTakePointer(a->context, aContext))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *bContext = 0;
-		if(b->context && !TryTakePointer(b->context, bContext))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data == b->data && aContext == bContext));
-	}
-	else if(ptr->data->name->name == InplaceStr("__pncomp"))
-	{
-		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
-		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
-
-		assert(a && b);
-
-		void *aContext = 0;
-		if(a->context && !TryTakePointer(a->context, aContext))
-			return Report(ctx, "ERROR: failed to evaluate first argument");
-
-		void *bContext = 0;
-		if(b->context && !TryTakePointer(b->context, bContext))
-			return Report(ctx, "ERROR: failed to evaluate second argument");
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data != b->data || aContext != bContext));
-	}
-	else if(ptr->data->name->name == InplaceStr("__acomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-		assert(a->type->size == b->type->size);
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) == 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("__ancomp"))
-	{
-		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(a && b);
-		assert(a->type->size == b->type->size);
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) != 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("__typeCount"))
-	{
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, ctx.ctx.types.size()));
-	}
-	else if(ptr->data->name->name == InplaceStr("__redirect") || ptr->data->name->name == InplaceStr("__redirect_ptr"))
-	{
-		ExprMemoryLiteral *autoRef = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprPointerLiteral *tableRef = getType<ExprPointerLiteral>(arguments[1]);
-
-		if(!tableRef)
-			return Report(ctx, "ERROR: null pointer access");
-
-		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, autoRef, 0, ctx.ctx.typeTypeID));
-
-		assert(typeID);
-
-		unsigned typeIndex = ctx.ctx.GetTypeIndex(typeID->value);
-
-		ExprBase *context = CreateExtract(ctx, autoRef, 4, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]));
-
-		assert(context);
-
-		ExprBase *tableRefLoad = CreateLoad(ctx, tableRef);
-
-		if(!tableRefLoad)
-			return NULL;
-
-		ExprMemoryLiteral *table = getType<ExprMemoryLiteral>(tableRefLoad);
-
-		ExprPointerLiteral *tableArray = getType<ExprPointerLiteral>(CreateExtract(ctx, table, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeFunctionID)));
-		ExprIntegerLiteral *tableSize = getType<ExprIntegerLiteral>(CreateExtract(ctx, table, sizeof(void*), ctx.ctx.typeInt));
-
-		assert(tableArray && tableSize);
-
-		if(typeIndex >= tableSize->value)
-			return Report(ctx, "ERROR: type index is out of bounds of redirection table");
-
-		unsigned char *targetPtr = tableArray->ptr + typeIndex * ctx.ctx.typeTypeID->size;
-
-		unsigned index = 0;
-		memcpy(&index, targetPtr, sizeof(unsigned));
-
-		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
-
-		if(!data)
-		{
-			if(ptr->data->name->name == InplaceStr("__redirect_ptr"))
-				return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]))));
-
-			return Report(ctx, "ERROR: type '%.*s' doesn't implement method", FMT_ISTR(ctx.ctx.types[typeIndex]->name));
-		}
-
-		return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, data, context));
-	}
-	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *object = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(object);
-
-		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, object, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, object, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
-
-		if(!storage)
-			return NULL;
-
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
-
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ptrTypeID->value));
-
-		if(!ptrPtr)
-		{
-			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-			return CheckType(expression, result);
-		}
-
-		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ptrTypeID->value);
-
-		if(!resultPtr)
-			return NULL;
-
-		CreateInsert(ctx, result, 4, resultPtr);
-
-		ExprBase *ptrPtrLoad = CreateLoad(ctx, ptrPtr);
-
-		if(!ptrPtrLoad)
-			return NULL;
-
-		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
-			return NULL;
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoArray)
-	{
-		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(arr);
-
-		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
-		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
-		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
-
-		if(!storage)
-			return NULL;
-
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
-
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
-		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrLen->value));
-
-		if(!arrPtr)
-		{
-			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-
-			return CheckType(expression, result);
-		}
-
-		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value));
-
-		if(!resultPtr)
-			return NULL;
-
-		CreateInsert(ctx, result, 4, resultPtr);
-
-		ExprBase *ptrPtrLoad = CreateLoad(ctx, arrPtr);
-
-		if(!ptrPtrLoad)
-			return NULL;
-
-		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
-			return NULL;
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("typeid") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *reference = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(reference);
-
-		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, reference, 0, ctx.ctx.typeTypeID));
-
-		return CheckType(expression, typeID);
-	}
-	else if(ptr->data->name->name == InplaceStr("auto_array") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeTypeID && arguments[1]->type == ctx.ctx.typeInt)
-	{
-		ExprTypeLiteral *type = getType<ExprTypeLiteral>(arguments[0]);
-		ExprIntegerLiteral *count = getType<ExprIntegerLiteral>(arguments[1]);
-
-		assert(type && count);
-
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
-
-		if(!storage)
-			return NULL;
-
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
-
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, type->value));
-
-		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(type->value, count->value));
-
-		if(!resultPtr)
-			return NULL;
-
-		CreateInsert(ctx, result, 4, resultPtr);
-		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count->value));
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("array_copy") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeAutoArray && arguments[1]->type == ctx.ctx.typeAutoArray)
-	{
-		ExprMemoryLiteral *dst = getType<ExprMemoryLiteral>(arguments[0]);
-		ExprMemoryLiteral *src = getType<ExprMemoryLiteral>(arguments[1]);
-
-		assert(dst && src);
-
-		ExprTypeLiteral *dstTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, dst, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *dstPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, dst, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-		ExprIntegerLiteral *dstLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, dst, 4 + sizeof(void*), ctx.ctx.typeInt));
-
-		ExprTypeLiteral *srcTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, src, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *srcPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, src, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-		ExprIntegerLiteral *srcLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, src, 4 + sizeof(void*), ctx.ctx.typeInt));
-
-		if(!dstPtr && !srcPtr)
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-		if(!srcPtr || dstPtr->ptr == srcPtr->ptr)
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-		if(dstTypeID->value != srcTypeID->value)
-			return Report(ctx, "ERROR: destination element type '%.*s' doesn't match source element type '%.*s'", FMT_ISTR(dstTypeID->value->name), FMT_ISTR(srcTypeID->value->name));
-
-		if(dstLen->value < srcLen->value)
-			return Report(ctx, "ERROR: destination array size '%d' is smaller than source array size '%d'", unsigned(dstLen->value), unsigned(srcLen->value));
-
-		memcpy(dstPtr->ptr, srcPtr->ptr, unsigned(dstTypeID->value->size * srcLen->value));
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("[]") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeAutoArray) && arguments[1]->type == ctx.ctx.typeInt)
-	{
-		// Get arguments
-		ExprPointerLiteral *arrPtrArg = getType<ExprPointerLiteral>(arguments[0]);
-
-		if(!arrPtrArg)
-			return Report(ctx, "ERROR: null pointer access");
-
-		ExprIntegerLiteral *indexArg = getType<ExprIntegerLiteral>(arguments[1]);
-
-		assert(indexArg);
-
-		ExprBase *arrPtrLoad = CreateLoad(ctx, arrPtrArg);
-
-		if(!arrPtrLoad)
-			return NULL;
-
-		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arrPtrLoad);
-
-		assert(arr);
-
-		// Check index
-		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
-
-		if(unsigned(indexArg->value) >= arrLen->value)
-			return Report(ctx, "ERROR: array index out of bounds");
-
-		// Load auto[] array type and pointer members
-		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
-		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
-
-		// Create storage for result
-		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
-
-		if(!storage)
-			return NULL;
-
-		// Create result in that storage
-		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
-
-		// Save typeid
-		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
-
-		// Save pointer to array element
-		assert(arrPtr->ptr + indexArg->value * arrTypeID->value->size + arrTypeID->value->size <= arrPtr->end);
-
-		unsigned char *targetPtr = arrPtr->ptr + indexArg->value * arrTypeID->value->size;
-
-		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrTypeID->value), targetPtr, targetPtr + arrTypeID->value->size);
-
-		CreateInsert(ctx, result, 4, shifted);
-
-		return CheckType(expression, result);
-	}
-	else if(ptr->data->name->name == InplaceStr("__assertCoroutine") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(functionPtr);
-
-		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
-
-		if(!isType<TypeFunction>(ptrTypeID->value))
-			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
-
-		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-		assert(ptrPtr);
-
-		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
-
-		if(!function->data)
-			return Report(ctx, "ERROR: function is not a coroutine'");
-
-		if(!function->data->coroutine)
-			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-	else if(ptr->data->name->name == InplaceStr("isCoroutineReset") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
-	{
-		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
-
-		assert(functionPtr);
-
-		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
-
-		if(!isType<TypeFunction>(ptrTypeID->value))
-			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
-
-		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
-
-		assert(ptrPtr);
-
-		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
-
-		if(!function->data->coroutine)
-			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
-
-		ExprBase *contextLoad = CreateLoad(ctx, function->context);
-
-		if(!contextLoad)
-			return NULL;
-
-		ExprMemoryLiteral *context = getType<ExprMemoryLiteral>(contextLoad);
-
-		// TODO: remove this check, all coroutines must have a context
-		if(!context)
-			return Report(ctx, "ERROR: '%.*s' coroutine has no context'", FMT_ISTR(function->data->name->name));
-
-		ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(CreateExtract(ctx, context, 0, ctx.ctx.typeInt));
-
-		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, jmpOffset->value == 0));
-	}
-	else if(ptr->data->name->name == InplaceStr("__assert_derived_from") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeVoid) && arguments[1]->type == ctx.ctx.typeTypeID)
-	{
-		ExprPointerLiteral *object = getType<ExprPointerLiteral>(arguments[0]);
-		ExprTypeLiteral *base = getType<ExprTypeLiteral>(arguments[1]);
-
-		if(!object)
-			return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
-
-		assert(uintptr_t(object->end - object->ptr) >= sizeof(unsigned));
-
-		ExprTypeLiteral *derived = getType<ExprTypeLiteral>(CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), object->ptr, object->end)));
-
-		assert(derived);
-
-		TypeBase *curr = derived->value;
-
-		while(curr)
-		{
-			if(curr == base->value)
-				return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(curr), object->ptr, object->ptr + curr->size);
-
-			if(TypeClass *classType = getType<TypeClass>(curr))
-				curr = classType->baseClass;
-			else
-				curr = NULL;
-		}
-
-		return Report(ctx, "ERROR: cannot convert from '%.*s' to '%.*s'", FMT_ISTR(derived->value->name), FMT_ISTR(base->value->name));
-	}
-	else if(ptr->data->name->name == InplaceStr("__closeUpvalue") && arguments.size() == 4)
-	{
-		ExprPointerLiteral *upvalueListLocation = getType<ExprPointerLiteral>(arguments[0]);
-		ExprPointerLiteral *variableLocation = getType<ExprPointerLiteral>(arguments[1]);
-		ExprIntegerLiteral *offsetToCopy = getType<ExprIntegerLiteral>(arguments[2]);
-		ExprIntegerLiteral *copySize = getType<ExprIntegerLiteral>(arguments[3]);
-
-		assert(upvalueListLocation);
-		assert(variableLocation);
-		assert(offsetToCopy);
-		assert(copySize);
-
-		ExprBase *upvalueListHeadBase = CreateLoad(ctx, upvalueListLocation);
-
-		// Nothing to close if the list is empty
-		if(getType<ExprNullptrLiteral>(upvalueListHeadBase))
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-		ExprPointerLiteral *upvalueListHead = getType<ExprPointerLiteral>(upvalueListHeadBase);
-
-		assert(upvalueListHead);
-
-		struct Upvalue
-		{
-			void *target;
-			Upvalue *next;
-		};
-
-		Upvalue *upvalue = (Upvalue*)upvalueListHead->ptr;
-
-		assert(upvalue);
-
-		while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
-		{
-			Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
-
-			unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
-			memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
-			WriteVmMemoryPointer(&upvalue->target, copy);
-			WriteVmMemoryPointer(&upvalue->next, NULL);
-
-			upvalue = next;
-		}
-
-		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)upvalue, (unsigned char*)upvalue + NULLC_PTR_SIZE)))
-			return NULL;
-
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-
-	return NULL;
-}
-
-ExprBase* EvaluateFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression)
-{
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	if(!AddInstruction(ctx))
-		return NULL;
-	
-	ExprBase *function = Evaluate(ctx, expression->function);
-
-	if(!function)
-		return NULL;
-
-	SmallArray<ExprBase*, 8> arguments(ctx.ctx.allocator);
-
-	for(ExprBase *curr = expression->arguments.head; curr; curr = curr->next)
-	{
-		ExprBase *value = Evaluate(ctx, curr);
-
-		if(!value)
-			return NULL;
-
-		arguments.push_back(value);
-	}
-
-	ExprFunctionLiteral *ptr = getType<ExprFunctionLiteral>(function);
-
-	if(!ptr)
-		return NULL;
-
-	if(!ptr->data)
-		return Report(ctx, "ERROR: null function pointer call");
-
-	if(!ptr->data->declaration)
-	{
-		if(ctx.emulateKnownExternals && ctx.ctx.GetFunctionIndex(ptr->data) < ctx.ctx.baseModuleFunctionCount)
-		{
-			if(ExprBase *result = EvaluateKnownExternalFunctionCall(ctx, expression, ptr, arguments))
-				return result;
-		}
-
-		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
-	}
-
-	if(ptr->data->isPrototype)
-		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
-
-	ExprFunctionDefinition *declaration = getType<ExprFunctionDefinition>(ptr->data->declaration);
-
-	assert(declaration);
-
-	if(declaration->arguments.size() != arguments.size())
-		return NULL;
-
-	ExprBase *call = EvaluateFunction(ctx, declaration, ptr->context, arguments);
-
-	if(!call)
-		return NULL;
-
-	return CheckType(expression, call);
-}
-
-ExprBase* EvaluateIfElse(ExpressionEvalContext &ctx, ExprIfElse *expression)
-{
-	if(ctx.stackFrames.back()->targetYield)
-		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *condition = Evaluate(ctx, expression->condition);
-
-	if(!condition)
-		return NULL;
-
-	long long result;
-	if(!TryTakeLong(condition, result))
-		return Report(ctx, "ERROR: failed to evaluate 'if' condition");
-
-	if(result)
-	{
-		if(!Evaluate(ctx, expression->trueBlock))
-			return NULL;
-	}
-	else if(expression->falseBlock)
-	{
-		if(!Evaluate(ctx, expression->falseBlock))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateFor(ExpressionEvalContext &ctx, ExprFor *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(!frame->targetYield)
-	{
-		if(!Evaluate(ctx, expression->initializer))
-			return NULL;
-	}
-
-	for(;;)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!frame->targetYield)
-		{
-			if(!expression->condition)
-				return NULL;
-
-			ExprBase *condition = Evaluate(ctx, expression->condition);
-
-			if(!condition)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(condition, result))
-				return Report(ctx, "ERROR: failed to evaluate 'for' condition");
-
-			if(!result)
-				break;
-		}
-
-		if(!Evaluate(ctx, expression->body))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-			break;
-		}
-
-		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
-		if(frame->continueDepth)
-		{
-			frame->continueDepth--;
-
-			if(frame->continueDepth)
-				break;
-		}
-
-		if(frame->returnValue)
-			break;
-
-		if(!frame->targetYield)
-		{
-			if(!Evaluate(ctx, expression->increment))
-				return NULL;
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateWhile(ExpressionEvalContext &ctx, ExprWhile *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(;;)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!frame->targetYield)
-		{
-			ExprBase *condition = Evaluate(ctx, expression->condition);
-
-			if(!condition)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(condition, result))
-				return Report(ctx, "ERROR: failed to evaluate 'while' condition");
-
-			if(!result)
-				break;
-		}
-
-		if(!Evaluate(ctx, expression->body))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-			break;
-		}
-
-		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
-		if(frame->continueDepth)
-		{
-			frame->continueDepth--;
-
-			if(frame->continueDepth)
-				break;
-		}
-
-		if(frame->returnValue)
-			break;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateDoWhile(ExpressionEvalContext &ctx, ExprDoWhile *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(;;)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!Evaluate(ctx, expression->body))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-			break;
-		}
-
-		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
-		if(frame->continueDepth)
-		{
-			frame->continueDepth--;
-
-			if(frame->continueDepth)
-				break;
-		}
-
-		if(frame->returnValue)
-			break;
-
-		if(!frame->targetYield)
-		{
-			ExprBase *condition = Evaluate(ctx, expression->condition);
-
-			if(!condition)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(condition, result))
-				return Report(ctx, "ERROR: failed to evaluate 'do' condition");
-
-			if(!result)
-				break;
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateSwitch(ExpressionEvalContext &ctx, ExprSwitch *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(frame->targetYield)
-		return Report(ctx, "ERROR: can't yield back into a switch statement");
-
-	ExprBase *condition = Evaluate(ctx, expression->condition);
-
-	if(!condition)
-		return NULL;
-
-	bool matched = false;
-
-	for(ExprBase *currCase = expression->cases.head, *currBlock = expression->blocks.head; currCase && currBlock; currCase = currCase->next, currBlock = currBlock->next)
-	{
-		if(!AddInstruction(ctx))
-			return NULL;
-
-		if(!matched)
-		{
-			ExprBase *value = Evaluate(ctx, currCase);
-
-			if(!value)
-				return NULL;
-
-			long long result;
-			if(!TryTakeLong(value, result))
-				return Report(ctx, "ERROR: failed to evaluate 'case' value");
-
-			// Try next case
-			if(!result)
-				continue;
-
-			matched = true;
-		}
-
-		if(!Evaluate(ctx, currBlock))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-		}
-	}
-
-	if(expression->defaultBlock)
-	{
-		if(!Evaluate(ctx, expression->defaultBlock))
-			return NULL;
-
-		// On break, decrease depth and exit
-		if(frame->breakDepth)
-		{
-			frame->breakDepth--;
-
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-		}
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateBreak(ExpressionEvalContext &ctx, ExprBreak *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(!frame->targetYield)
-	{
-		assert(frame->breakDepth == 0);
-
-		frame->breakDepth = expression->depth;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateContinue(ExpressionEvalContext &ctx, ExprContinue *expression)
-{
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	if(!frame->targetYield)
-	{
-		assert(frame->continueDepth == 0);
-
-		frame->continueDepth = expression->depth;
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateBlock(ExpressionEvalContext &ctx, ExprBlock *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(ExprBase *value = expression->expressions.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-
-		if(frame->continueDepth || frame->breakDepth || frame->returnValue)
-			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-	}
-
-	if(expression->closures)
-	{
-		if(!Evaluate(ctx, expression->closures))
-			return NULL;
-	}
-
-	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
-}
-
-ExprBase* EvaluateSequence(ExpressionEvalContext &ctx, ExprSequence *expression)
-{
-	if(!AddInstruction(ctx))
-		return NULL;
-
-	ExprBase *result = new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	for(unsigned i = 0; i < expression->expressions.size(); i++)
-	{
-		result = Evaluate(ctx, expression->expressions[i]);
-
-		if(!result)
-			return NULL;
-	}
-
-	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
-		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
-
-	return CheckType(expression, result);
-}
-
-ExprBase* EvaluateModule(ExpressionEvalContext &ctx, ExprModule *expression)
-{
-	ctx.globalFrame = new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, NULL);
-	ctx.stackFrames.push_back(ctx.globalFrame);
-
-	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
-
-	for(ExprBase *value = expression->setup.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-	}
-
-	for(ExprBase *value = expression->expressions.head; value; value = value->next)
-	{
-		if(!Evaluate(ctx, value))
-			return NULL;
-
-		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
-
-		if(frame->returnValue)
-			return frame->returnValue;
-	}
-
-	ctx.stackFrames.pop_back();
-
-	assert(ctx.stackFrames.empty());
-
-	return NULL;
-}
-
-ExprBase* Evaluate(ExpressionEvalContext &ctx, ExprBase *expression)
-{
-	if(isType<TypeError>(expression->type))
-		return NULL;
-
-	ctx.expressionDepth++;
-
-	if(ctx.expressionDepth > ctx.expressionDepthLimit)
-		return Report(ctx, "ERROR: expression depth limit reached");
-
-	ExprBase *result = NULL;
-
-	switch(expression->typeID)
-	{
-	case ExprError::myTypeID:
-		result = Report(ctx, "ERROR: invalid expression");
-		break;
-	case ExprErrorTypeMemberAccess::myTypeID:
-		result = Report(ctx, "ERROR: invalid expression");
-		break;
-	case ExprVoid::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprBoolLiteral::myTypeID:
-		result = EvaluateBoolLiteral(ctx, (ExprBoolLiteral*)expression);
-		break;
-	case ExprCharacterLiteral::myTypeID:
-		result = EvaluateCharacterLiteral(ctx, (ExprCharacterLiteral*)expression);
-		break;
-	case ExprStringLiteral::myTypeID:
-		result = EvaluateStringLiteral(ctx, (ExprStringLiteral*)expression);
-		break;
-	case ExprIntegerLiteral::myTypeID:
-		result = EvaluateIntegerLiteral(ctx, (ExprIntegerLiteral*)expression);
-		break;
-	case ExprRationalLiteral::myTypeID:
-		result = EvaluateRationalLiteral(ctx, (ExprRationalLiteral*)expression);
-		break;
-	case ExprTypeLiteral::myTypeID:
-		result = EvaluateTypeLiteral(ctx, (ExprTypeLiteral*)expression);
-		break;
-	case ExprNullptrLiteral::myTypeID:
-		result = EvaluateNullptrLiteral(ctx, (ExprNullptrLiteral*)expression);
-		break;
-	case ExprFunctionIndexLiteral::myTypeID:
-		result = EvaluateFunctionIndexLiteral(ctx, (ExprFunctionIndexLiteral*)expression);
-		break;
-	case ExprPassthrough::myTypeID:
-		result = Evaluate(ctx, ((ExprPassthrough*)expression)->value);
-		break;
-	case ExprArray::myTypeID:
-		result = EvaluateArray(ctx, (ExprArray*)expression);
-		break;
-	case ExprPreModify::myTypeID:
-		result = EvaluatePreModify(ctx, (ExprPreModify*)expression);
-		break;
-	case ExprPostModify::myTypeID:
-		result = EvaluatePostModify(ctx, (ExprPostModify*)expression);
-		break;
-	case ExprTypeCast::myTypeID:
-		result = EvaluateCast(ctx, (ExprTypeCast*)expression);
-		break;
-	case ExprUnaryOp::myTypeID:
-		result = EvaluateUnaryOp(ctx, (ExprUnaryOp*)expression);
-		break;
-	case ExprBinaryOp::myTypeID:
-		result = EvaluateBinaryOp(ctx, (ExprBinaryOp*)expression);
-		break;
-	case ExprGetAddress::myTypeID:
-		result = EvaluateGetAddress(ctx, (ExprGetAddress*)expression);
-		break;
-	case ExprDereference::myTypeID:
-		result = EvaluateDereference(ctx, (ExprDereference*)expression);
-		break;
-	case ExprUnboxing::myTypeID:
-		result = Evaluate(ctx, ((ExprUnboxing*)expression)->value);
-		break;
-	case ExprConditional::myTypeID:
-		result = EvaluateConditional(ctx, (ExprConditional*)expression);
-		break;
-	case ExprAssignment::myTypeID:
-		result = EvaluateAssignment(ctx, (ExprAssignment*)expression);
-		break;
-	case ExprMemberAccess::myTypeID:
-		result = EvaluateMemberAccess(ctx, (ExprMemberAccess*)expression);
-		break;
-	case ExprArrayIndex::myTypeID:
-		result = EvaluateArrayIndex(ctx, (ExprArrayIndex*)expression);
-		break;
-	case ExprReturn::myTypeID:
-		result = EvaluateReturn(ctx, (ExprReturn*)expression);
-		break;
-	case ExprYield::myTypeID:
-		result = EvaluateYield(ctx, (ExprYield*)expression);
-		break;
-	case ExprVariableDefinition::myTypeID:
-		result = EvaluateVariableDefinition(ctx, (ExprVariableDefinition*)expression);
-		break;
-	case ExprZeroInitialize::myTypeID:
-		result = EvaluateZeroInitialize(ctx, (ExprZeroInitialize*)expression);
-		break;
-	case ExprArraySetup::myTypeID:
-		result = EvaluateArraySetup(ctx, (ExprArraySetup*)expression);
-		break;
-	case ExprVariableDefinitions::myTypeID:
-		result = EvaluateVariableDefinitions(ctx, (ExprVariableDefinitions*)expression);
-		break;
-	case ExprVariableAccess::myTypeID:
-		result = EvaluateVariableAccess(ctx, (ExprVariableAccess*)expression);
-		break;
-	case ExprFunctionContextAccess::myTypeID:
-		result = EvaluateFunctionContextAccess(ctx, (ExprFunctionContextAccess*)expression);
-		break;
-	case ExprFunctionDefinition::myTypeID:
-		result = EvaluateFunctionDefinition(ctx, (ExprFunctionDefinition*)expression);
-		break;
-	case ExprGenericFunctionPrototype::myTypeID:
-		result = EvaluateGenericFunctionPrototype(ctx, (ExprGenericFunctionPrototype*)expression);
-		break;
-	case ExprFunctionAccess::myTypeID:
-		result = EvaluateFunctionAccess(ctx, (ExprFunctionAccess*)expression);
-		break;
-	case ExprFunctionOverloadSet::myTypeID:
-		result = NULL;
-		break;
-	case ExprShortFunctionOverloadSet::myTypeID:
-		result = NULL;
-		break;
-	case ExprFunctionCall::myTypeID:
-		result = EvaluateFunctionCall(ctx, (ExprFunctionCall*)expression);
-		break;
-	case ExprAliasDefinition::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprClassPrototype::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprGenericClassPrototype::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprClassDefinition::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprEnumDefinition::myTypeID:
-		result = EvaluateVoid(ctx, expression);
-		break;
-	case ExprIfElse::myTypeID:
-		result = EvaluateIfElse(ctx, (ExprIfElse*)expression);
-		break;
-	case ExprFor::myTypeID:
-		result = EvaluateFor(ctx, (ExprFor*)expression);
-		break;
-	case ExprWhile::myTypeID:
-		result = EvaluateWhile(ctx, (ExprWhile*)expression);
-		break;
-	case ExprDoWhile::myTypeID:
-		result = EvaluateDoWhile(ctx, (ExprDoWhile*)expression);
-		break;
-	case ExprSwitch::myTypeID:
-		result = EvaluateSwitch(ctx, (ExprSwitch*)expression);
-		break;
-	case ExprBreak::myTypeID:
-		result = EvaluateBreak(ctx, (ExprBreak*)expression);
-		break;
-	case ExprContinue::myTypeID:
-		result = EvaluateContinue(ctx, (ExprContinue*)expression);
-		break;
-	case ExprBlock::myTypeID:
-		result = EvaluateBlock(ctx, (ExprBlock*)expression);
-		break;
-	case ExprSequence::myTypeID:
-		result = EvaluateSequence(ctx, (ExprSequence*)expression);
-		break;
-	case ExprModule::myTypeID:
-		result = EvaluateModule(ctx, (ExprModule*)expression);
-		break;
-	default:
-		assert(!"unknown type");
-		break;
-	}
-
-	ctx.expressionDepth--;
-
-	return result;
-}
-
-bool EvaluateToBuffer(ExpressionEvalContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize)
-{
-	if(ExprBase *value = Evaluate(ctx, expression))
-	{
-		if(ExprBoolLiteral *result = getType<ExprBoolLiteral>(value))
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value ? 1 : 0);
-		}
-		else if(ExprCharacterLiteral *result = getType<ExprCharacterLiteral>(value))
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value);
-		}
-		else if(ExprIntegerLiteral *result = getType<ExprIntegerLiteral>(value))
-		{
-			if(result->type == ctx.ctx.typeLong)
-				NULLC::SafeSprintf(resultBuf, resultBufSize, "%lldL", result->value);
-			else
-				NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", int(result->value));
-		}
-		else if(ExprRationalLiteral *result = getType<ExprRationalLiteral>(value))
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "%f", result->value);
-		}
-		else
-		{
-			NULLC::SafeSprintf(resultBuf, resultBufSize, "unknown");
-		}
-
-		return true;
-	}
-
-	return false;
-}
-
-bool TestEvaluation(ExpressionContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize, char *errorBuf, unsigned errorBufSize)
-{
-	if(!expression)
-		return false;
-
-	ExpressionEvalContext evalCtx(ctx, ctx.allocator);
-
-	evalCtx.errorBuf = errorBuf;
-	evalCtx.errorBufSize = errorBufSize;
-
-	evalCtx.emulateKnownExternals = true;
-
-	return EvaluateToBuffer(evalCtx, expression, resultBuf, resultBufSize);
-}
+#include "ExpressionEval.h"
+
+#include <limits.h>
+#include <math.h>
+
+#include "ExpressionTree.h"
+
+#define FMT_ISTR(x) unsigned(x.end - x.begin), x.begin
+
+namespace
+{
+	void* ReadVmMemoryPointer(void* address)
+	{
+		void *result;
+		memcpy(&result, address, sizeof(void*));
+		return result;
+	}
+
+	void WriteVmMemoryPointer(void* address, void *value)
+	{
+		memcpy(address, &value, sizeof(void*));
+	}
+}
+
+NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* Report(ExpressionEvalContext &ctx, const char *msg, ...)
+{
+	if(ctx.errorBuf && ctx.errorBufSize)
+	{
+		va_list args;
+		va_start(args, msg);
+
+		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
+
+		va_end(args);
+
+		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
+	}
+
+	ctx.errorCritical = false;
+
+	return NULL;
+}
+
+NULLC_PRINT_FORMAT_CHECK(2, 3) ExprBase* ReportCritical(ExpressionEvalContext &ctx, const char *msg, ...)
+{
+	if(ctx.errorBuf && ctx.errorBufSize)
+	{
+		va_list args;
+		va_start(args, msg);
+
+		vsnprintf(ctx.errorBuf, ctx.errorBufSize, msg, args);
+
+		va_end(args);
+
+		ctx.errorBuf[ctx.errorBufSize - 1] = '\0';
+	}
+
+	ctx.errorCritical = true;
+
+	return NULL;
+}
+
+bool AddInstruction(ExpressionEvalContext &ctx)
+{
+	if(ctx.instruction < ctx.instructionsLimit)
+	{
+		ctx.instruction++;
+		return true;
+	}
+
+	Report(ctx, "ERROR: instruction limit reached");
+
+	return false;
+}
+
+ExprPointerLiteral* AllocateTypeStorage(ExpressionEvalContext &ctx, SynBase *source, TypeBase *type)
+{
+	if(isType<TypeError>(type))
+		return NULL;
+
+	for(unsigned i = 0; i < ctx.abandonedMemory.size(); i++)
+	{
+		ExprPointerLiteral *ptr = ctx.abandonedMemory[i];
+
+		if(ptr->end - ptr->ptr == type->size)
+		{
+			ptr->type = ctx.ctx.GetReferenceType(type);
+
+			memset(ptr->ptr, 0, unsigned(type->size));
+
+			ctx.abandonedMemory[i] = ctx.abandonedMemory.back();
+			ctx.abandonedMemory.pop_back();
+
+			return ptr;
+		}
+	}
+
+	if(type->size > ctx.variableMemoryLimit)
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: single variable memory limit");
+
+	if(ctx.totalMemory + type->size > ctx.totalMemoryLimit)
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: total variable memory limit");
+
+	ctx.totalMemory += unsigned(type->size);
+
+	unsigned char *memory = (unsigned char*)ctx.ctx.allocator->alloc(unsigned(type->size));
+
+	memset(memory, 0, unsigned(type->size));
+
+	return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(source, ctx.ctx.GetReferenceType(type), memory, memory + type->size);
+}
+
+void FreeMemoryLiteral(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory)
+{
+	ctx.abandonedMemory.push_back(memory->ptr);
+}
+
+bool CreateStore(ExpressionEvalContext &ctx, ExprBase *target, ExprBase *value)
+{
+	// No side-effects while coroutine is skipping to target node
+	if(!ctx.stackFrames.empty())
+		assert(ctx.stackFrames.back()->targetYield == 0);
+
+	if(isType<ExprNullptrLiteral>(target))
+	{
+		Report(ctx, "ERROR: store to null pointer");
+
+		return false;
+	}
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
+
+	assert(ptr);
+	assert(ptr->ptr + value->type->size <= ptr->end);
+
+	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
+	{
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(value))
+	{
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprStringLiteral *expr = getType<ExprStringLiteral>(value))
+	{
+		memcpy(ptr->ptr, expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
+	{
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
+	{
+		if(expr->type == ctx.ctx.typeFloat)
+		{
+			float tmp = float(expr->value);
+			memcpy(ptr->ptr, &tmp, unsigned(value->type->size));
+			return true;
+		}
+
+		memcpy(ptr->ptr, &expr->value, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(value))
+	{
+		if(isType<TypeError>(expr->value))
+			return false;
+
+		if(isType<TypeArgumentSet>(expr->value) || isType<TypeMemberSet>(expr->value))
+			return false;
+
+		unsigned index = ctx.ctx.GetTypeIndex(expr->value);
+		memcpy(ptr->ptr, &index, unsigned(value->type->size));
+		return true;
+	}
+
+	if(isType<ExprNullptrLiteral>(value))
+	{
+		memset(ptr->ptr, 0, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprFunctionIndexLiteral *expr = getType<ExprFunctionIndexLiteral>(value))
+	{
+		unsigned index = expr->function ? ctx.ctx.GetFunctionIndex(expr->function) + 1 : 0;
+		memcpy(ptr->ptr, &index, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprFunctionLiteral *expr = getType<ExprFunctionLiteral>(value))
+	{
+		unsigned index = expr->data ? ctx.ctx.GetFunctionIndex(expr->data) + 1 : 0;
+		memcpy(ptr->ptr, &index, sizeof(unsigned));
+
+		if(isType<ExprNullptrLiteral>(expr->context))
+			memset(ptr->ptr + 4, 0, sizeof(void*));
+		else if(ExprPointerLiteral *context = getType<ExprPointerLiteral>(expr->context))
+			memcpy(ptr->ptr + 4, &context->ptr, sizeof(void*));
+		else
+			return false;
+
+		return true;
+	}
+
+	if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(value))
+	{
+		TypeRef *ptrType = getType<TypeRef>(expr->type);
+
+		(void)ptrType;
+		assert(ptrType);
+		assert(expr->ptr + ptrType->subType->size <= expr->end);
+
+		memcpy(ptr->ptr, &expr->ptr, unsigned(value->type->size));
+		return true;
+	}
+
+	if(ExprMemoryLiteral *expr = getType<ExprMemoryLiteral>(value))
+	{
+		memcpy(ptr->ptr, expr->ptr->ptr, unsigned(value->type->size));
+		return true;
+	}
+
+	Report(ctx, "ERROR: unknown store type");
+
+	return false;
+}
+
+ExprBase* CreateLoad(ExpressionEvalContext &ctx, ExprBase *target)
+{
+	// No side-effects while coroutine is skipping to target node
+	if(!ctx.stackFrames.empty())
+		assert(ctx.stackFrames.back()->targetYield == 0);
+
+	if(isType<ExprNullptrLiteral>(target))
+	{
+		Report(ctx, "ERROR: load from null pointer");
+
+		return NULL;
+	}
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(target);
+
+	assert(ptr);
+
+	TypeRef *refType = getType<TypeRef>(target->type);
+
+	assert(refType);
+
+	TypeBase *type = refType->subType;
+
+	assert(ptr->ptr + type->size <= ptr->end);
+
+	if(type == ctx.ctx.typeBool)
+	{
+		bool value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeChar)
+	{
+		signed char value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeShort)
+	{
+		short value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeInt)
+	{
+		int value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeLong)
+	{
+		long long value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeFloat)
+	{
+		float value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeDouble)
+	{
+		double value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(target->source, type, value);
+	}
+
+	if(type == ctx.ctx.typeTypeID)
+	{
+		unsigned index = 0;
+		memcpy(&index, ptr->ptr, sizeof(unsigned));
+
+		TypeBase *data = ctx.ctx.types[index];
+
+		return new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(target->source, type, data);
+	}
+
+	if(type == ctx.ctx.typeFunctionID)
+	{
+		unsigned index = 0;
+		memcpy(&index, ptr->ptr, sizeof(unsigned));
+
+		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
+
+		return new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(target->source, type, data);
+	}
+
+	if(type == ctx.ctx.typeNullPtr)
+	{
+		return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
+	}
+
+	if(isType<TypeFunction>(type))
+	{
+		unsigned index = 0;
+		memcpy(&index, ptr->ptr, sizeof(unsigned));
+
+		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
+
+		unsigned char *value = 0;
+		memcpy(&value, ptr->ptr + 4, sizeof(value));
+		
+		if(!data)
+		{
+			assert(value == NULL);
+
+			return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+		}
+
+		TypeRef *ptrType = getType<TypeRef>(data->contextType);
+
+		assert(ptrType);
+
+		ExprBase *context = NULL;
+
+		if(value == NULL)
+			context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, ptrType);
+		else
+			context = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, ptrType, value, value + ptrType->subType->size);
+
+		return new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(target->source, type, data, context);
+	}
+
+	if(TypeRef *ptrType = getType<TypeRef>(type))
+	{
+		unsigned char *value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+		
+		if(value == NULL)
+			return new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(target->source, type);
+
+		return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(target->source, type, value, value + ptrType->subType->size);
+	}
+
+	if(isType<TypeEnum>(type))
+	{
+		int value;
+		assert(type->size == sizeof(value));
+		memcpy(&value, ptr->ptr, unsigned(type->size));
+
+		return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(target->source, type, value);
+	}
+
+	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, target->source, type);
+
+	if(!storage)
+		return NULL;
+
+	memcpy(storage->ptr, ptr->ptr, unsigned(type->size));
+
+	return new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(target->source, type, storage);
+}
+
+bool CreateInsert(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, ExprBase *value)
+{
+	assert(memory->ptr->ptr + value->type->size <= memory->ptr->end);
+
+	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(value->type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + value->type->size);
+
+	if(!CreateStore(ctx, &addr, value))
+		return false;
+
+	return true;
+}
+
+ExprBase* CreateExtract(ExpressionEvalContext &ctx, ExprMemoryLiteral *memory, unsigned offset, TypeBase *type)
+{
+	assert(memory->ptr->ptr + type->size <= memory->ptr->end);
+
+	ExprPointerLiteral addr(memory->source, ctx.ctx.GetReferenceType(type), memory->ptr->ptr + offset, memory->ptr->ptr + offset + type->size);
+
+	return CreateLoad(ctx, &addr);
+}
+
+ExprMemoryLiteral* CreateConstruct(ExpressionEvalContext &ctx, TypeBase *type, ExprBase *el0, ExprBase *el1, ExprBase *el2)
+{
+	long long size = 0;
+	
+	if(el0)
+		size += el0->type->size;
+
+	if(el1)
+		size += el1->type->size;
+
+	if(el2)
+		size += el2->type->size;
+
+	assert(type->size == size);
+
+	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, el0->source, type);
+
+	if(!storage)
+		return NULL;
+
+	ExprMemoryLiteral *memory = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(el0->source, type, storage);
+
+	unsigned offset = 0;
+
+	if(el0 && !CreateInsert(ctx, memory, offset, el0))
+		return NULL;
+	else if(el0)
+		offset += unsigned(el0->type->size);
+
+	if(el1 && !CreateInsert(ctx, memory, offset, el1))
+		return NULL;
+	else if(el1)
+		offset += unsigned(el1->type->size);
+
+	if(el2 && !CreateInsert(ctx, memory, offset, el2))
+		return NULL;
+	else if(el2)
+		offset += unsigned(el2->type->size);
+
+	return memory;
+}
+
+ExprPointerLiteral* FindVariableStorage(ExpressionEvalContext &ctx, VariableData *data, bool skipMissing)
+{
+	if(ctx.stackFrames.empty())
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: no stack frame");
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(unsigned i = 0; i < frame->variables.size(); i++)
+	{
+		ExpressionEvalContext::StackVariable &variable = frame->variables[i];
+
+		if(variable.variable == data)
+			return variable.ptr;
+	}
+
+	if(ctx.globalFrame)
+	{
+		for(unsigned i = 0; i < ctx.globalFrame->variables.size(); i++)
+		{
+			ExpressionEvalContext::StackVariable &variable = ctx.globalFrame->variables[i];
+
+			if(variable.variable == data)
+				return variable.ptr;
+		}
+	}
+
+	if(data->importModule != NULL)
+		return (ExprPointerLiteral*)Report(ctx, "ERROR: can't access external variable '%.*s'", FMT_ISTR(data->name->name));
+
+	if(skipMissing)
+		return NULL;
+
+	return (ExprPointerLiteral*)Report(ctx, "ERROR: variable '%.*s' not found", FMT_ISTR(data->name->name));
+}
+
+bool TryTakeLong(ExprBase *expression, long long &result)
+{
+	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
+	{
+		result = expr->value ? 1 : 0;
+		return true;
+	}
+
+	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
+	{
+		result = (long long)expr->value;
+		return true;
+	}
+
+	return false;
+}
+
+bool TryTakeDouble(ExprBase *expression, double &result)
+{
+	if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(expression))
+	{
+		result = expr->value ? 1.0 : 0.0;
+		return true;
+	}
+
+	if(ExprCharacterLiteral *expr = getType<ExprCharacterLiteral>(expression))
+	{
+		result = (double)expr->value;
+		return true;
+	}
+
+	if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(expression))
+	{
+		result = (double)expr->value;
+		return true;
+	}
+
+	if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	return false;
+}
+
+bool TryTakeTypeId(ExprBase *expression, TypeBase* &result)
+{
+	if(ExprTypeLiteral *expr = getType<ExprTypeLiteral>(expression))
+	{
+		result = expr->value;
+		return true;
+	}
+
+	return false;
+}
+
+bool TryTakePointer(ExprBase *expression, void* &result)
+{
+	if(isType<ExprNullptrLiteral>(expression))
+	{
+		result = 0;
+		return true;
+	}
+	else if(ExprPointerLiteral *expr = getType<ExprPointerLiteral>(expression))
+	{
+		result = expr->ptr;
+		return true;
+	}
+
+	return false;
+}
+
+ExprBase* CreateBinaryOp(ExpressionEvalContext &ctx, SynBase *source, ExprBase *lhs, ExprBase *unevaluatedRhs, SynBinaryOpType op)
+{
+	if(isType<TypeError>(lhs->type) || isType<TypeError>(unevaluatedRhs->type))
+		return Report(ctx, "ERROR: encountered an error node");
+
+	assert(lhs->type == unevaluatedRhs->type);
+
+	if((ctx.ctx.IsIntegerType(lhs->type) || isType<TypeEnum>(lhs->type)) && (ctx.ctx.IsIntegerType(unevaluatedRhs->type) || isType<TypeEnum>(unevaluatedRhs->type)))
+	{
+		long long lhsValue = 0;
+		long long rhsValue = 0;
+
+		// Short-circuit behaviour
+		if(op == SYN_BINARY_OP_LOGICAL_AND)
+		{
+			if(TryTakeLong(lhs, lhsValue))
+			{
+				if(lhsValue == 0)
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, false);
+
+				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+				if(!rhs)
+					return NULL;
+
+				if(TryTakeLong(rhs, rhsValue))
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
+			}
+
+			return NULL;
+		}
+
+		if(op == SYN_BINARY_OP_LOGICAL_OR)
+		{
+			if(TryTakeLong(lhs, lhsValue))
+			{
+				if(lhsValue == 1)
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, true);
+
+				ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+				if(!rhs)
+					return NULL;
+
+				if(TryTakeLong(rhs, rhsValue))
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, rhsValue != 0);
+			}
+
+			return NULL;
+		}
+
+		ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+		if(!rhs)
+			return NULL;
+
+		assert(lhs->type == rhs->type);
+
+		TypeBase *resultType = ctx.ctx.typeInt;
+
+		if(lhs->type == ctx.ctx.typeLong || rhs->type == ctx.ctx.typeLong)
+			resultType = ctx.ctx.typeLong;
+
+		if(TryTakeLong(lhs, lhsValue) && TryTakeLong(rhs, rhsValue))
+		{
+			if(resultType == ctx.ctx.typeInt)
+			{
+				int lhsValueInt = int(lhsValue);
+				int rhsValueInt = int(rhsValue);
+
+				switch(op)
+				{
+				case SYN_BINARY_OP_ADD:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt + rhsValueInt);
+				case SYN_BINARY_OP_SUB:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt - rhsValueInt);
+				case SYN_BINARY_OP_MUL:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, int(lhsValueInt * rhsValueInt));
+				case SYN_BINARY_OP_DIV:
+					if(rhsValueInt == 0)
+						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
+
+					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt / rhsValueInt);
+				case SYN_BINARY_OP_MOD:
+					if(rhsValueInt == 0)
+						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
+
+					if(lhsValueInt == INT_MIN && rhsValueInt == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt % rhsValueInt);
+				case SYN_BINARY_OP_POW:
+					if(rhsValueInt < 0)
+						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
+
+					int result, power;
+
+					result = 1;
+					power = rhsValueInt;
+
+					while(power)
+					{
+						if(power & 1)
+						{
+							result *= lhsValueInt;
+							power--;
+						}
+						lhsValueInt *= lhsValueInt;
+						power >>= 1;
+					}
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
+				case SYN_BINARY_OP_SHL:
+					if(rhsValueInt < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt << rhsValueInt);
+				case SYN_BINARY_OP_SHR:
+					if(rhsValueInt < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt >> rhsValueInt);
+				case SYN_BINARY_OP_LESS:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt < rhsValueInt);
+				case SYN_BINARY_OP_LESS_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt <= rhsValueInt);
+				case SYN_BINARY_OP_GREATER:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt > rhsValueInt);
+				case SYN_BINARY_OP_GREATER_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt >= rhsValueInt);
+				case SYN_BINARY_OP_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt == rhsValueInt);
+				case SYN_BINARY_OP_NOT_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValueInt != rhsValueInt);
+				case SYN_BINARY_OP_BIT_AND:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt & rhsValueInt);
+				case SYN_BINARY_OP_BIT_OR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt | rhsValueInt);
+				case SYN_BINARY_OP_BIT_XOR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValueInt ^ rhsValueInt);
+				case SYN_BINARY_OP_LOGICAL_XOR:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValueInt != !!rhsValueInt);
+				default:
+					assert(!"unexpected type");
+					break;
+				}
+			}
+			else
+			{
+				switch(op)
+				{
+				case SYN_BINARY_OP_ADD:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue + rhsValue);
+				case SYN_BINARY_OP_SUB:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue - rhsValue);
+				case SYN_BINARY_OP_MUL:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue * rhsValue);
+				case SYN_BINARY_OP_DIV:
+					if(rhsValue == 0)
+						return ReportCritical(ctx, "ERROR: division by zero during constant folding");
+
+					if(lhsValue == LLONG_MIN && rhsValue == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue / rhsValue);
+				case SYN_BINARY_OP_MOD:
+					if(rhsValue == 0)
+						return ReportCritical(ctx, "ERROR: modulus division by zero during constant folding");
+
+					if(lhsValue == LLONG_MIN && rhsValue == -1)
+						return ReportCritical(ctx, "ERROR: integer overflow during constant folding");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue % rhsValue);
+				case SYN_BINARY_OP_POW:
+					if(rhsValue < 0)
+						return ReportCritical(ctx, "ERROR: negative power on integer number in exponentiation during constant folding");
+
+					long long result, power;
+
+					result = 1;
+					power = rhsValue;
+
+					while(power)
+					{
+						if(power & 1)
+						{
+							result *= lhsValue;
+							power--;
+						}
+						lhsValue *= lhsValue;
+						power >>= 1;
+					}
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, result);
+				case SYN_BINARY_OP_SHL:
+					if(rhsValue < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue << rhsValue);
+				case SYN_BINARY_OP_SHR:
+					if(rhsValue < 0)
+						return ReportCritical(ctx, "ERROR: negative shift value");
+
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue >> rhsValue);
+				case SYN_BINARY_OP_LESS:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
+				case SYN_BINARY_OP_LESS_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
+				case SYN_BINARY_OP_GREATER:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
+				case SYN_BINARY_OP_GREATER_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
+				case SYN_BINARY_OP_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
+				case SYN_BINARY_OP_NOT_EQUAL:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
+				case SYN_BINARY_OP_BIT_AND:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue & rhsValue);
+				case SYN_BINARY_OP_BIT_OR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue | rhsValue);
+				case SYN_BINARY_OP_BIT_XOR:
+					return new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(source, lhs->type, lhsValue ^ rhsValue);
+				case SYN_BINARY_OP_LOGICAL_XOR:
+					return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, !!lhsValue != !!rhsValue);
+				default:
+					assert(!"unexpected type");
+					break;
+				}
+			}
+		}
+
+		return Report(ctx, "ERROR: failed to eval binary op");
+	}
+
+	ExprBase *rhs = Evaluate(ctx, unevaluatedRhs);
+
+	if(!rhs)
+		return NULL;
+
+	if(ctx.ctx.IsFloatingPointType(lhs->type) && ctx.ctx.IsFloatingPointType(rhs->type))
+	{
+		assert(lhs->type == rhs->type);
+
+		double lhsValue = 0;
+		double rhsValue = 0;
+
+		if(TryTakeDouble(lhs, lhsValue) && TryTakeDouble(rhs, rhsValue))
+		{
+			switch(op)
+			{
+			case SYN_BINARY_OP_ADD:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue + rhsValue);
+			case SYN_BINARY_OP_SUB:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue - rhsValue);
+			case SYN_BINARY_OP_MUL:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue * rhsValue);
+			case SYN_BINARY_OP_DIV:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, lhsValue / rhsValue);
+			case SYN_BINARY_OP_MOD:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, fmod(lhsValue, rhsValue));
+			case SYN_BINARY_OP_POW:
+				return new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(source, lhs->type, pow(lhsValue, rhsValue));
+			case SYN_BINARY_OP_LESS:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue < rhsValue);
+			case SYN_BINARY_OP_LESS_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue <= rhsValue);
+			case SYN_BINARY_OP_GREATER:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue > rhsValue);
+			case SYN_BINARY_OP_GREATER_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue >= rhsValue);
+			case SYN_BINARY_OP_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
+			case SYN_BINARY_OP_NOT_EQUAL:
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
+			default:
+				assert(!"unexpected type");
+				break;
+			}
+		}
+	}
+	else if(lhs->type == ctx.ctx.typeTypeID && rhs->type == ctx.ctx.typeTypeID)
+	{
+		TypeBase *lhsValue = NULL;
+		TypeBase *rhsValue = NULL;
+
+		if(TryTakeTypeId(lhs, lhsValue) && TryTakeTypeId(rhs, rhsValue))
+		{
+			if(op == SYN_BINARY_OP_EQUAL)
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue == rhsValue);
+
+			if(op == SYN_BINARY_OP_NOT_EQUAL)
+				return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lhsValue != rhsValue);
+		}
+	}
+	else if(isType<TypeRef>(lhs->type) && isType<TypeRef>(rhs->type))
+	{
+		assert(lhs->type == rhs->type);
+
+		void *lPtr = NULL;
+
+		if(isType<ExprNullptrLiteral>(lhs))
+			lPtr = NULL;
+		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(lhs))
+			lPtr = value->ptr;
+		else
+			assert(!"unknown type");
+
+		void *rPtr = NULL;
+
+		if(isType<ExprNullptrLiteral>(rhs))
+			rPtr = NULL;
+		else if(ExprPointerLiteral *value = getType<ExprPointerLiteral>(rhs))
+			rPtr = value->ptr;
+		else
+			assert(!"unknown type");
+
+		if(op == SYN_BINARY_OP_EQUAL)
+			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr == rPtr);
+
+		if(op == SYN_BINARY_OP_NOT_EQUAL)
+			return new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(source, ctx.ctx.typeBool, lPtr != rPtr);
+	}
+
+	return Report(ctx, "ERROR: failed to eval binary op");
+}
+
+ExprBase* CheckType(ExprBase* expression, ExprBase *value)
+{
+	if(isType<TypeError>(expression->type))
+		return NULL;
+
+	assert(expression->type == value->type);
+
+	return value;
+}
+
+ExprBase* EvaluateVoid(ExpressionEvalContext &ctx, ExprBase *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateBoolLiteral(ExpressionEvalContext &ctx, ExprBoolLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateCharacterLiteral(ExpressionEvalContext &ctx, ExprCharacterLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateStringLiteral(ExpressionEvalContext &ctx, ExprStringLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprStringLiteral>()) ExprStringLiteral(expression->source, expression->type, expression->value, expression->length));
+}
+
+ExprBase* EvaluateIntegerLiteral(ExpressionEvalContext &ctx, ExprIntegerLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateRationalLiteral(ExpressionEvalContext &ctx, ExprRationalLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateTypeLiteral(ExpressionEvalContext &ctx, ExprTypeLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, expression->type, expression->value));
+}
+
+ExprBase* EvaluateNullptrLiteral(ExpressionEvalContext &ctx, ExprNullptrLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
+}
+
+ExprBase* EvaluateFunctionIndexLiteral(ExpressionEvalContext &ctx, ExprFunctionIndexLiteral *expression)
+{
+	return CheckType(expression, new (ctx.ctx.get<ExprFunctionIndexLiteral>()) ExprFunctionIndexLiteral(expression->source, expression->type, expression->function));
+}
+
+ExprBase* EvaluateArray(ExpressionEvalContext &ctx, ExprArray *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, expression->type);
+
+	if(!storage)
+		return NULL;
+
+	TypeArray *arrayType = getType<TypeArray>(expression->type);
+
+	assert(arrayType);
+
+	unsigned offset = 0;
+
+	for(ExprBase *value = expression->values.head; value; value = value->next)
+	{
+		ExprBase *element = Evaluate(ctx, value);
+
+		if(!element)
+			return NULL;
+
+		assert(storage->ptr + offset + arrayType->subType->size <= storage->end);
+
+		unsigned char *targetPtr = storage->ptr + offset;
+
+		ExprPointerLiteral *target = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+		if(!CreateStore(ctx, target, element))
+			return NULL;
+
+		offset += unsigned(arrayType->subType->size);
+	}
+
+	ExprBase *load = CreateLoad(ctx, storage);
+
+	if(!load)
+		return NULL;
+
+	return CheckType(expression, load);
+}
+
+ExprBase* EvaluatePreModify(ExpressionEvalContext &ctx, ExprPreModify *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *ptr = Evaluate(ctx, expression->value);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
+
+	if(!modified)
+		return NULL;
+
+	if(!CreateStore(ctx, ptr, modified))
+		return NULL;
+
+	return CheckType(expression, modified);
+}
+
+ExprBase* EvaluatePostModify(ExpressionEvalContext &ctx, ExprPostModify *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *ptr = Evaluate(ctx, expression->value);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	ExprBase *modified = CreateBinaryOp(ctx, expression->source, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, value->type, 1), expression->isIncrement ? SYN_BINARY_OP_ADD : SYN_BINARY_OP_SUB);
+
+	if(!modified)
+		return NULL;
+
+	if(!CreateStore(ctx, ptr, modified))
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateCast(ExpressionEvalContext &ctx, ExprTypeCast *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	switch(expression->category)
+	{
+	case EXPR_CAST_NUMERICAL:
+		if(ctx.ctx.IsIntegerType(expression->type))
+		{
+			long long result = 0;
+
+			if(ExprRationalLiteral *expr = getType<ExprRationalLiteral>(value))
+			{
+				if(expression->type == ctx.ctx.typeBool)
+					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, expr->value != 0.0));
+
+				if(expression->type == ctx.ctx.typeChar)
+					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)expr->value));
+
+				if(expression->type == ctx.ctx.typeShort)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)expr->value));
+
+				if(expression->type == ctx.ctx.typeInt)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)expr->value));
+
+				if(expression->type == ctx.ctx.typeLong)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, (long long)expr->value));
+			}
+			else if(TryTakeLong(value, result))
+			{
+				if(expression->type == ctx.ctx.typeBool)
+					return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, result != 0));
+
+				if(expression->type == ctx.ctx.typeChar)
+					return CheckType(expression, new (ctx.ctx.get<ExprCharacterLiteral>()) ExprCharacterLiteral(expression->source, ctx.ctx.typeChar, (char)result));
+
+				if(expression->type == ctx.ctx.typeShort)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, (short)result));
+
+				if(expression->type == ctx.ctx.typeInt)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, (int)result));
+
+				if(expression->type == ctx.ctx.typeLong)
+					return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, result));
+			}
+		}
+		else if(ctx.ctx.IsFloatingPointType(expression->type))
+		{
+			double result = 0.0;
+
+			if(TryTakeDouble(value, result))
+			{
+				if(expression->type == ctx.ctx.typeFloat)
+					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, (float)result));
+
+				if(expression->type == ctx.ctx.typeDouble)
+					return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, result));
+			}
+		}
+		break;
+	case EXPR_CAST_PTR_TO_BOOL:
+		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(value)));
+	case EXPR_CAST_UNSIZED_TO_BOOL:
+		{
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !isType<ExprNullptrLiteral>(ptr)));
+		}
+		break;
+	case EXPR_CAST_FUNCTION_TO_BOOL:
+		{
+			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, funcLiteral->data != NULL));
+		}
+		break;
+	case EXPR_CAST_NULL_TO_PTR:
+		return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
+	case EXPR_CAST_NULL_TO_AUTO_PTR:
+		{
+			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
+			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_NULL_TO_UNSIZED:
+		{
+			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+			ExprBase *size = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, ptr, size, NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_NULL_TO_AUTO_ARRAY:
+		{
+			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ctx.ctx.typeVoid);
+			ExprBase *ptr = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+			ExprBase *length = new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, 0);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_NULL_TO_FUNCTION:
+		{
+			ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+			ExprFunctionLiteral *result = new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, context);
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_ARRAY_PTR_TO_UNSIZED:
+		{
+			TypeRef *refType = getType<TypeRef>(value->type);
+
+			assert(refType);
+
+			TypeArray *arrType = getType<TypeArray>(refType->subType);
+
+			assert(arrType);
+			assert(unsigned(arrType->length) == arrType->length);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, value, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrType->length), NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_PTR_TO_AUTO_PTR:
+		{
+			TypeRef *refType = getType<TypeRef>(value->type);
+
+			assert(refType);
+
+			TypeClass *classType = getType<TypeClass>(refType->subType);
+
+			ExprBase *typeId = NULL;
+
+			if(classType && (classType->extendable || classType->baseClass))
+			{
+				if(isType<ExprNullptrLiteral>(value))
+					return Report(ctx, "ERROR: null pointer access");
+
+				ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+				assert(ptr);
+				assert(ptr->end - ptr->ptr >= 4);
+
+				typeId = CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), ptr->ptr, ptr->ptr + 4));
+			}
+			else
+			{
+				typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, refType->subType);
+			}
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, value, NULL);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_AUTO_PTR_TO_PTR:
+		{
+			TypeRef *refType = getType<TypeRef>(expression->type);
+
+			assert(refType);
+
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			ExprTypeLiteral *typeId = getType<ExprTypeLiteral>(CreateExtract(ctx, memLiteral, 0, ctx.ctx.typeTypeID));
+
+			if(typeId->value != refType->subType)
+				return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
+
+			ExprBase *ptr = CreateExtract(ctx, memLiteral, 4, refType);
+
+			if(!ptr)
+				return NULL;
+
+			return CheckType(expression, ptr);
+		}
+		break;
+	case EXPR_CAST_UNSIZED_TO_AUTO_ARRAY:
+		{
+			TypeUnsizedArray *arrType = getType<TypeUnsizedArray>(value->type);
+
+			assert(arrType);
+
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			ExprBase *typeId = new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrType->subType);
+			ExprBase *ptr = CreateExtract(ctx, memLiteral, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+			ExprBase *length = CreateExtract(ctx, memLiteral, sizeof(void*), ctx.ctx.typeInt);
+
+			ExprBase *result = CreateConstruct(ctx, expression->type, typeId, ptr, length);
+
+			if(!result)
+				return NULL;
+
+			return CheckType(expression, result);
+		}
+		break;
+	case EXPR_CAST_REINTERPRET:
+		if(expression->type == ctx.ctx.typeInt && value->type == ctx.ctx.typeTypeID)
+		{
+			ExprTypeLiteral *typeLiteral = getType<ExprTypeLiteral>(value);
+
+			if(isType<TypeError>(typeLiteral->value))
+				return NULL;
+
+			if(isType<TypeArgumentSet>(typeLiteral->value) || isType<TypeMemberSet>(typeLiteral->value))
+				return NULL;
+
+			unsigned index = ctx.ctx.GetTypeIndex(typeLiteral->value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, index));
+		}
+		else if(isType<TypeRef>(expression->type) && isType<TypeRef>(value->type))
+		{
+			TypeRef *refType = getType<TypeRef>(expression->type);
+
+			if(isType<ExprNullptrLiteral>(value))
+				return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->type));
+			
+			if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
+			{
+				(void)refType;
+				assert(uintptr_t(tmp->end - tmp->ptr) >= uintptr_t(refType->subType->size));
+
+				return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, expression->type, tmp->ptr, tmp->end));
+			}
+		}
+		else if(isType<TypeUnsizedArray>(expression->type) && isType<TypeUnsizedArray>(value->type))
+		{
+			ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, expression->type, memLiteral->ptr));
+		}
+		else if(isType<TypeFunction>(expression->type) && isType<TypeFunction>(value->type))
+		{
+			ExprFunctionLiteral *funcLiteral = getType<ExprFunctionLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, funcLiteral->data, funcLiteral->context));
+		}
+		else if(isType<TypeInt>(expression->type) && isType<TypeEnum>(value->type))
+		{
+			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
+		}
+		else if(isType<TypeEnum>(expression->type) && isType<TypeInt>(value->type))
+		{
+			ExprIntegerLiteral *intLiteral = getType<ExprIntegerLiteral>(value);
+
+			return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, intLiteral->value));
+		}
+		break;
+	}
+
+	return Report(ctx, "ERROR: failed to cast '%.*s' to '%.*s'", FMT_ISTR(value->type->name), FMT_ISTR(expression->type->name));
+}
+
+ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(value->type == ctx.ctx.typeBool)
+	{
+		if(ExprBoolLiteral *expr = getType<ExprBoolLiteral>(value))
+		{
+			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
+				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
+		}
+		else if(ExprIntegerLiteral *expr = getType<ExprIntegerLiteral>(value))
+		{
+			if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
+				return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, expression->type, !expr->value));
+		}
+	}
+	else if(ctx.ctx.IsIntegerType(value->type))
+	{
+		long long result = 0;
+
+		if(TryTakeLong(value, result))
+		{
+			switch(expression->op)
+			{
+			case SYN_UNARY_OP_PLUS:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
+			case SYN_UNARY_OP_NEGATE:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
+			case SYN_UNARY_OP_BIT_NOT:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
+			case SYN_UNARY_OP_LOGICAL_NOT:
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, !result));
+			default:
+				assert(!"unknown unary operation");
+			}
+		}
+	}
+	else if(ctx.ctx.IsFloatingPointType(value->type))
+	{
+		double result = 0.0;
+
+		if(TryTakeDouble(value, result))
+		{
+			switch(expression->op)
+			{
+			case SYN_UNARY_OP_PLUS:
+				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, result));
+			case SYN_UNARY_OP_NEGATE:
+				return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, expression->type, -result));
+			case SYN_UNARY_OP_BIT_NOT:
+			case SYN_UNARY_OP_LOGICAL_NOT:
+				return NULL;
+			default:
+				assert(!"unknown unary operation");
+			}
+		}
+	}
+	else if(isType<TypeRef>(value->type))
+	{
+		void *lPtr = NULL;
+
+		if(isType<ExprNullptrLiteral>(value))
+			lPtr = NULL;
+		else if(ExprPointerLiteral *tmp = getType<ExprPointerLiteral>(value))
+			lPtr = tmp->ptr;
+		else
+			assert(!"unknown type");
+
+		if(expression->op == SYN_UNARY_OP_LOGICAL_NOT)
+			return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
+	}
+	else if(value->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *memLiteral = getType<ExprMemoryLiteral>(value);
+
+		void *lPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, memLiteral, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
+			return Report(ctx, "ERROR: failed to evaluate auto ref value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, !lPtr));
+
+	}
+
+	return Report(ctx, "ERROR: failed to eval unary op");
+}
+
+ExprBase* EvaluateBinaryOp(ExpressionEvalContext &ctx, ExprBinaryOp *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *lhs = Evaluate(ctx, expression->lhs);
+
+	if(!lhs)
+		return NULL;
+
+	// rhs remain unevaluated
+	ExprBase *result = CreateBinaryOp(ctx, expression->source, lhs, expression->rhs, expression->op);
+
+	if(!result)
+		return result;
+
+	return CheckType(expression, result);
+}
+
+ExprBase* EvaluateGetAddress(ExpressionEvalContext &ctx, ExprGetAddress *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable->variable, false);
+
+	if(!ptr)
+		return NULL;
+
+	return CheckType(expression, ptr);
+}
+
+ExprBase* EvaluateDereference(ExpressionEvalContext &ctx, ExprDereference *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *ptr = Evaluate(ctx, expression->value);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateConditional(ExpressionEvalContext &ctx, ExprConditional *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *condition = Evaluate(ctx, expression->condition);
+
+	if(!condition)
+		return NULL;
+
+	long long result;
+	if(!TryTakeLong(condition, result))
+		return Report(ctx, "ERROR: failed to evaluate ternary operator condition");
+
+	ExprBase *value = Evaluate(ctx, result ? expression->trueBlock : expression->falseBlock);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateAssignment(ExpressionEvalContext &ctx, ExprAssignment *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *lhs = Evaluate(ctx, expression->lhs);
+	ExprBase *rhs = Evaluate(ctx, expression->rhs);
+
+	if(!lhs || !rhs)
+		return NULL;
+
+	if(!CreateStore(ctx, lhs, rhs))
+		return NULL;
+
+	return CheckType(expression, rhs);
+}
+
+ExprBase* EvaluateMemberAccess(ExpressionEvalContext &ctx, ExprMemberAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(isType<ExprNullptrLiteral>(value))
+		return Report(ctx, "ERROR: member access of null pointer");
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+	assert(ptr);
+	assert(ptr->ptr + expression->member->variable->offset + expression->member->variable->type->size <= ptr->end);
+
+	unsigned char *targetPtr = ptr->ptr + expression->member->variable->offset;
+
+	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(expression->member->variable->type), targetPtr, targetPtr + expression->member->variable->type->size);
+
+	return CheckType(expression, shifted);
+}
+
+ExprBase* EvaluateArrayIndex(ExpressionEvalContext &ctx, ExprArrayIndex *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	ExprBase *index = Evaluate(ctx, expression->index);
+
+	if(!index)
+		return NULL;
+
+	long long result;
+	if(!TryTakeLong(index, result))
+		return Report(ctx, "ERROR: failed to evaluate array index");
+
+	if(TypeUnsizedArray *arrayType = getType<TypeUnsizedArray>(value->type))
+	{
+		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(value);
+
+		assert(memory);
+
+		ExprBase *value = CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(arrayType->subType));
+
+		if(!value)
+			return NULL;
+
+		if(isType<ExprNullptrLiteral>(value))
+			return Report(ctx, "ERROR: array index of a null array");
+
+		ExprIntegerLiteral *size = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
+
+		if(!size)
+			return NULL;
+
+		if(result < 0 || result >= size->value)
+			return ReportCritical(ctx, "ERROR: array index out of bounds");
+
+		ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+		assert(ptr);
+
+		unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
+
+		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+		return CheckType(expression, shifted);
+	}
+
+	TypeRef *refType = getType<TypeRef>(value->type);
+
+	assert(refType);
+
+	TypeArray *arrayType = getType<TypeArray>(refType->subType);
+
+	assert(arrayType);
+
+	if(isType<ExprNullptrLiteral>(value))
+		return Report(ctx, "ERROR: array index of a null array");
+
+	if(result < 0 || result >= arrayType->length)
+		return ReportCritical(ctx, "ERROR: array index out of bounds");
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(value);
+
+	assert(ptr);
+	assert(ptr->ptr + result * arrayType->subType->size + arrayType->subType->size <= ptr->end);
+
+	unsigned char *targetPtr = ptr->ptr + result * arrayType->subType->size;
+
+	ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+	return CheckType(expression, shifted);
+}
+
+ExprBase* EvaluateReturn(ExpressionEvalContext &ctx, ExprReturn *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(frame->targetYield)
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(ctx.stackFrames.empty())
+		return Report(ctx, "ERROR: no stack frame to return from");
+
+	frame->returnValue = value;
+
+	if(expression->coroutineStateUpdate)
+	{
+		if(!Evaluate(ctx, expression->coroutineStateUpdate))
+			return NULL;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateYield(ExpressionEvalContext &ctx, ExprYield *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	// Check if we reached target yield
+	if(frame->targetYield == expression->order)
+	{
+		frame->targetYield = 0;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+
+	if(frame->targetYield)
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+	ExprBase *value = Evaluate(ctx, expression->value);
+
+	if(!value)
+		return NULL;
+
+	if(ctx.stackFrames.empty())
+		return Report(ctx, "ERROR: no stack frame to return from");
+
+	frame->returnValue = value;
+
+	if(expression->coroutineStateUpdate)
+	{
+		if(!Evaluate(ctx, expression->coroutineStateUpdate))
+			return NULL;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateVariableDefinition(ExpressionEvalContext &ctx, ExprVariableDefinition *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(FindVariableStorage(ctx, expression->variable->variable, true) == NULL)
+	{
+		TypeBase *type = expression->variable->variable->type;
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, type);
+
+		if(!storage)
+			return NULL;
+
+		frame->variables.push_back(ExpressionEvalContext::StackVariable(expression->variable->variable, storage));
+	}
+
+	if(!frame->targetYield)
+	{
+		if(expression->initializer)
+		{
+			if(!Evaluate(ctx, expression->initializer))
+				return NULL;
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateZeroInitialize(ExpressionEvalContext &ctx, ExprZeroInitialize *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	TypeRef *refType = getType<TypeRef>(expression->address->type);
+
+	assert(refType);
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->address));
+
+	if(!ptr)
+		return NULL;
+
+	assert(ptr->ptr);
+	assert(uintptr_t(ptr->end - ptr->ptr) == unsigned(refType->subType->size));
+
+	memset(ptr->ptr, 0, unsigned(refType->subType->size));
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateArraySetup(ExpressionEvalContext &ctx, ExprArraySetup *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	TypeRef *refType = getType<TypeRef>(expression->lhs->type);
+
+	assert(refType);
+
+	TypeArray *arrayType = getType<TypeArray>(refType->subType);
+
+	assert(arrayType);
+
+	ExprBase *initializer = Evaluate(ctx, expression->initializer);
+
+	if(!initializer)
+		return NULL;
+
+	ExprPointerLiteral *ptr = getType<ExprPointerLiteral>(Evaluate(ctx, expression->lhs));
+
+	if(!ptr)
+		return NULL;
+
+	for(unsigned i = 0; i < unsigned(arrayType->length); i++)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		assert(ptr);
+		assert(ptr->ptr + i * arrayType->subType->size + arrayType->subType->size <= ptr->end);
+
+		unsigned char *targetPtr = ptr->ptr + i * arrayType->subType->size;
+
+		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrayType->subType), targetPtr, targetPtr + arrayType->subType->size);
+
+		if(!CreateStore(ctx, shifted, initializer))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateVariableDefinitions(ExpressionEvalContext &ctx, ExprVariableDefinitions *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	for(ExprBase *definition = expression->definitions.head; definition; definition = definition->next)
+	{
+		if(!Evaluate(ctx, definition))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateVariableAccess(ExpressionEvalContext &ctx, ExprVariableAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->variable, false);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateFunctionContextAccess(ExpressionEvalContext &ctx, ExprFunctionContextAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprPointerLiteral *ptr = FindVariableStorage(ctx, expression->contextVariable, false);
+
+	if(!ptr)
+		return NULL;
+
+	ExprBase *value = NULL;
+
+	TypeRef *refType = getType<TypeRef>(expression->function->contextType);
+
+	assert(refType);
+
+	TypeClass *classType = getType<TypeClass>(refType->subType);
+
+	assert(classType);
+
+	if(classType->members.empty())
+		value = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, expression->function->contextType);
+	else
+		value = CreateLoad(ctx, ptr);
+
+	if(!value)
+		return NULL;
+
+	return CheckType(expression, value);
+}
+
+ExprBase* EvaluateFunctionDefinition(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *context = new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid));
+
+	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->function->type, expression->function, context));
+}
+
+ExprBase* EvaluateGenericFunctionPrototype(ExpressionEvalContext &ctx, ExprGenericFunctionPrototype *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	for(ExprBase *expr = expression->contextVariables.head; expr; expr = expr->next)
+	{
+		if(!Evaluate(ctx, expr))
+			return NULL;
+	}
+
+	return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+}
+
+ExprBase* EvaluateFunction(ExpressionEvalContext &ctx, ExprFunctionDefinition *expression, ExprBase *context, ArrayView<ExprBase*> arguments)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	if(ctx.stackFrames.size() >= ctx.stackDepthLimit)
+		return Report(ctx, "ERROR: stack depth limit");
+
+	ctx.stackFrames.push_back(new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, expression->function));
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(ExprVariableDefinition *curr = expression->contextArgument)
+	{
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
+
+		if(!storage)
+			return NULL;
+
+		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
+
+		if(!CreateStore(ctx, storage, context))
+			return NULL;
+	}
+
+	unsigned pos = 0;
+
+	for(ExprVariableDefinition *curr = expression->arguments.head; curr; curr = getType<ExprVariableDefinition>(curr->next))
+	{
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, curr->source, curr->variable->variable->type);
+
+		if(!storage)
+			return NULL;
+
+		frame->variables.push_back(ExpressionEvalContext::StackVariable(curr->variable->variable, storage));
+
+		if(!CreateStore(ctx, storage, arguments[pos]))
+			return NULL;
+
+		pos++;
+	}
+
+	if(expression->coroutineStateRead)
+	{
+		if(ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(Evaluate(ctx, expression->coroutineStateRead)))
+		{
+			frame->targetYield = unsigned(jmpOffset->value);
+		}
+		else
+		{
+			return NULL;
+		}
+	}
+
+	for(ExprBase *value = expression->expressions.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+
+		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
+
+		if(frame->returnValue)
+			break;
+	}
+
+	ExprBase *result = frame->returnValue;
+
+	if(!result)
+		return ReportCritical(ctx, "ERROR: function didn't return a value");
+
+	ctx.stackFrames.pop_back();
+
+	return result;
+}
+
+ExprBase* EvaluateFunctionAccess(ExpressionEvalContext &ctx, ExprFunctionAccess *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *context = Evaluate(ctx, expression->context);
+
+	if(!context)
+		return NULL;
+
+	FunctionData *function = expression->function;
+
+	if(function->implementation)
+		function = function->implementation;
+
+	return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, function->type, function, context));
+}
+
+ExprBase* EvaluateKnownExternalFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression, ExprFunctionLiteral *ptr, ArrayView<ExprBase*> arguments)
+{
+	if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		if(value == 0)
+			return Report(ctx, "ERROR: Assertion failed");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("assert") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeInt && arguments[1]->type == ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeChar))
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		ExprMemoryLiteral *memory = getType<ExprMemoryLiteral>(arguments[1]);
+
+		ExprPointerLiteral *str = getType<ExprPointerLiteral>(CreateExtract(ctx, memory, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeChar)));
+		ExprIntegerLiteral *length = getType<ExprIntegerLiteral>(CreateExtract(ctx, memory, sizeof(void*), ctx.ctx.typeInt));
+
+		if(!str)
+			return Report(ctx, "ERROR: null pointer access");
+
+		assert(length);
+
+		if(value == 0)
+			return Report(ctx, "ERROR: %.*s", int(length->value), str->ptr);
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("bool") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprBoolLiteral>()) ExprBoolLiteral(expression->source, ctx.ctx.typeBool, value != 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("char") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeChar, char(value)));
+	}
+	else if(ptr->data->name->name == InplaceStr("short") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeShort, short(value)));
+	}
+	else if(ptr->data->name->name == InplaceStr("int") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, int(value)));
+	}
+	else if(ptr->data->name->name == InplaceStr("long") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
+	{
+		long long value;
+		if(!TryTakeLong(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeLong, value));
+	}
+	else if(ptr->data->name->name == InplaceStr("float") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
+	{
+		double value;
+		if(!TryTakeDouble(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeFloat, value));
+	}
+	else if(ptr->data->name->name == InplaceStr("double") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
+	{
+		double value;
+		if(!TryTakeDouble(arguments[0], value))
+			return Report(ctx, "ERROR: failed to evaluate value");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprRationalLiteral>()) ExprRationalLiteral(expression->source, ctx.ctx.typeDouble, value));
+	}
+	else if(ptr->data->name->name == InplaceStr("bool::bool") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeBool)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("char::char") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeChar)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("short::short") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeShort)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("int::int") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeInt)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("long::long") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeLong)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("float::float") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeFloat)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("double::double") && ptr->context && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeDouble)
+	{
+		if(!CreateStore(ctx, ptr->context, arguments[0]))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("__newS"))
+	{
+		long long size;
+		if(!TryTakeLong(arguments[0], size))
+			return Report(ctx, "ERROR: failed to evaluate type size");
+
+		long long type;
+		if(!TryTakeLong(arguments[1], type))
+			return Report(ctx, "ERROR: failed to evaluate type ID");
+
+		TypeBase *target = ctx.ctx.types[unsigned(type)];
+
+		assert(target->size == size);
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, target);
+
+		if(!storage)
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), storage->ptr, storage->end));
+	}
+	else if(ptr->data->name->name == InplaceStr("__newA"))
+	{
+		long long size;
+		if(!TryTakeLong(arguments[0], size))
+			return Report(ctx, "ERROR: failed to evaluate type size");
+
+		long long count;
+		if(!TryTakeLong(arguments[1], count))
+			return Report(ctx, "ERROR: failed to evaluate element count");
+
+		long long type;
+		if(!TryTakeLong(arguments[2], type))
+			return Report(ctx, "ERROR: failed to evaluate type ID");
+
+		TypeBase *target = ctx.ctx.types[unsigned(type)];
+
+		assert(target->size == size);
+
+		if(target->size * unsigned(count) > ctx.variableMemoryLimit)
+			return Report(ctx, "ERROR: single variable memory limit");
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(target, count));
+
+		if(!storage)
+			return NULL;
+
+		ExprBase *result = CreateConstruct(ctx, ctx.ctx.GetUnsizedArrayType(ctx.ctx.typeInt), storage, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count), NULL);
+
+		if(!result)
+			return NULL;
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("__rcomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *lPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *rPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr == rPtr));
+	}
+	else if(ptr->data->name->name == InplaceStr("__rncomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *lPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, a, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), lPtr))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *rPtr = 0;
+		if(!TryTakePointer(CreateExtract(ctx, b, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)), rPtr))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, lPtr != rPtr));
+	}
+	else if(ptr->data->name->name == InplaceStr("__pcomp"))
+	{
+		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
+		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *aContext = 0;
+		if(a->context && !TryTakePointer(a->context, aContext))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *bContext = 0;
+		if(b->context && !TryTakePointer(b->context, bContext))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data == b->data && aContext == bContext));
+	}
+	else if(ptr->data->name->name == InplaceStr("__pncomp"))
+	{
+		ExprFunctionLiteral *a = getType<ExprFunctionLiteral>(arguments[0]);
+		ExprFunctionLiteral *b = getType<ExprFunctionLiteral>(arguments[1]);
+
+		assert(a && b);
+
+		void *aContext = 0;
+		if(a->context && !TryTakePointer(a->context, aContext))
+			return Report(ctx, "ERROR: failed to evaluate first argument");
+
+		void *bContext = 0;
+		if(b->context && !TryTakePointer(b->context, bContext))
+			return Report(ctx, "ERROR: failed to evaluate second argument");
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, a->data != b->data || aContext != bContext));
+	}
+	else if(ptr->data->name->name == InplaceStr("__acomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+		assert(a->type->size == b->type->size);
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) == 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("__ancomp"))
+	{
+		ExprMemoryLiteral *a = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *b = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(a && b);
+		assert(a->type->size == b->type->size);
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, memcmp(a->ptr->ptr, b->ptr->ptr, unsigned(a->type->size)) != 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("__typeCount"))
+	{
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, ctx.ctx.types.size()));
+	}
+	else if(ptr->data->name->name == InplaceStr("__redirect") || ptr->data->name->name == InplaceStr("__redirect_ptr"))
+	{
+		ExprMemoryLiteral *autoRef = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprPointerLiteral *tableRef = getType<ExprPointerLiteral>(arguments[1]);
+
+		if(!tableRef)
+			return Report(ctx, "ERROR: null pointer access");
+
+		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, autoRef, 0, ctx.ctx.typeTypeID));
+
+		assert(typeID);
+
+		unsigned typeIndex = ctx.ctx.GetTypeIndex(typeID->value);
+
+		ExprBase *context = CreateExtract(ctx, autoRef, 4, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]));
+
+		assert(context);
+
+		ExprBase *tableRefLoad = CreateLoad(ctx, tableRef);
+
+		if(!tableRefLoad)
+			return NULL;
+
+		ExprMemoryLiteral *table = getType<ExprMemoryLiteral>(tableRefLoad);
+
+		ExprPointerLiteral *tableArray = getType<ExprPointerLiteral>(CreateExtract(ctx, table, 0, ctx.ctx.GetReferenceType(ctx.ctx.typeFunctionID)));
+		ExprIntegerLiteral *tableSize = getType<ExprIntegerLiteral>(CreateExtract(ctx, table, sizeof(void*), ctx.ctx.typeInt));
+
+		assert(tableArray && tableSize);
+
+		if(typeIndex >= tableSize->value)
+			return Report(ctx, "ERROR: type index is out of bounds of redirection table");
+
+		unsigned char *targetPtr = tableArray->ptr + typeIndex * ctx.ctx.typeTypeID->size;
+
+		unsigned index = 0;
+		memcpy(&index, targetPtr, sizeof(unsigned));
+
+		FunctionData *data = index != 0 ? ctx.ctx.functions[index - 1] : NULL;
+
+		if(!data)
+		{
+			if(ptr->data->name->name == InplaceStr("__redirect_ptr"))
+				return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, NULL, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.types[typeIndex]))));
+
+			return Report(ctx, "ERROR: type '%.*s' doesn't implement method", FMT_ISTR(ctx.ctx.types[typeIndex]->name));
+		}
+
+		return CheckType(expression, new (ctx.ctx.get<ExprFunctionLiteral>()) ExprFunctionLiteral(expression->source, expression->type, data, context));
+	}
+	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *object = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(object);
+
+		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, object, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, object, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
+
+		if(!storage)
+			return NULL;
+
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
+
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, ptrTypeID->value));
+
+		if(!ptrPtr)
+		{
+			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+			return CheckType(expression, result);
+		}
+
+		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ptrTypeID->value);
+
+		if(!resultPtr)
+			return NULL;
+
+		CreateInsert(ctx, result, 4, resultPtr);
+
+		ExprBase *ptrPtrLoad = CreateLoad(ctx, ptrPtr);
+
+		if(!ptrPtrLoad)
+			return NULL;
+
+		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
+			return NULL;
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("duplicate") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoArray)
+	{
+		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(arr);
+
+		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
+		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
+		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
+
+		if(!storage)
+			return NULL;
+
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
+
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
+		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, arrLen->value));
+
+		if(!arrPtr)
+		{
+			CreateInsert(ctx, result, 4, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+
+			return CheckType(expression, result);
+		}
+
+		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value));
+
+		if(!resultPtr)
+			return NULL;
+
+		CreateInsert(ctx, result, 4, resultPtr);
+
+		ExprBase *ptrPtrLoad = CreateLoad(ctx, arrPtr);
+
+		if(!ptrPtrLoad)
+			return NULL;
+
+		if(!CreateStore(ctx, resultPtr, ptrPtrLoad))
+			return NULL;
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("typeid") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *reference = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(reference);
+
+		ExprTypeLiteral *typeID = getType<ExprTypeLiteral>(CreateExtract(ctx, reference, 0, ctx.ctx.typeTypeID));
+
+		return CheckType(expression, typeID);
+	}
+	else if(ptr->data->name->name == InplaceStr("auto_array") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeTypeID && arguments[1]->type == ctx.ctx.typeInt)
+	{
+		ExprTypeLiteral *type = getType<ExprTypeLiteral>(arguments[0]);
+		ExprIntegerLiteral *count = getType<ExprIntegerLiteral>(arguments[1]);
+
+		assert(type && count);
+
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoArray);
+
+		if(!storage)
+			return NULL;
+
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoArray, storage);
+
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, type->value));
+
+		ExprPointerLiteral *resultPtr = AllocateTypeStorage(ctx, expression->source, ctx.ctx.GetArrayType(type->value, count->value));
+
+		if(!resultPtr)
+			return NULL;
+
+		CreateInsert(ctx, result, 4, resultPtr);
+		CreateInsert(ctx, result, 4 + sizeof(void*), new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, count->value));
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("array_copy") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.typeAutoArray && arguments[1]->type == ctx.ctx.typeAutoArray)
+	{
+		ExprMemoryLiteral *dst = getType<ExprMemoryLiteral>(arguments[0]);
+		ExprMemoryLiteral *src = getType<ExprMemoryLiteral>(arguments[1]);
+
+		assert(dst && src);
+
+		ExprTypeLiteral *dstTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, dst, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *dstPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, dst, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+		ExprIntegerLiteral *dstLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, dst, 4 + sizeof(void*), ctx.ctx.typeInt));
+
+		ExprTypeLiteral *srcTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, src, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *srcPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, src, 4, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+		ExprIntegerLiteral *srcLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, src, 4 + sizeof(void*), ctx.ctx.typeInt));
+
+		if(!dstPtr && !srcPtr)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+		if(!srcPtr || dstPtr->ptr == srcPtr->ptr)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+		if(dstTypeID->value != srcTypeID->value)
+			return Report(ctx, "ERROR: destination element type '%.*s' doesn't match source element type '%.*s'", FMT_ISTR(dstTypeID->value->name), FMT_ISTR(srcTypeID->value->name));
+
+		if(dstLen->value < srcLen->value)
+			return Report(ctx, "ERROR: destination array size '%d' is smaller than source array size '%d'", unsigned(dstLen->value), unsigned(srcLen->value));
+
+		memcpy(dstPtr->ptr, srcPtr->ptr, unsigned(dstTypeID->value->size * srcLen->value));
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("[]") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeAutoArray) && arguments[1]->type == ctx.ctx.typeInt)
+	{
+		// Get arguments
+		ExprPointerLiteral *arrPtrArg = getType<ExprPointerLiteral>(arguments[0]);
+
+		if(!arrPtrArg)
+			return Report(ctx, "ERROR: null pointer access");
+
+		ExprIntegerLiteral *indexArg = getType<ExprIntegerLiteral>(arguments[1]);
+
+		assert(indexArg);
+
+		ExprBase *arrPtrLoad = CreateLoad(ctx, arrPtrArg);
+
+		if(!arrPtrLoad)
+			return NULL;
+
+		ExprMemoryLiteral *arr = getType<ExprMemoryLiteral>(arrPtrLoad);
+
+		assert(arr);
+
+		// Check index
+		ExprIntegerLiteral *arrLen = getType<ExprIntegerLiteral>(CreateExtract(ctx, arr, 4 + sizeof(void*), ctx.ctx.typeInt));
+
+		if(unsigned(indexArg->value) >= arrLen->value)
+			return Report(ctx, "ERROR: array index out of bounds");
+
+		// Load auto[] array type and pointer members
+		ExprTypeLiteral *arrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, arr, 0, ctx.ctx.typeTypeID));
+		ExprPointerLiteral *arrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, arr, 4, ctx.ctx.GetReferenceType(ctx.ctx.GetArrayType(arrTypeID->value, arrLen->value))));
+
+		// Create storage for result
+		ExprPointerLiteral *storage = AllocateTypeStorage(ctx, expression->source, ctx.ctx.typeAutoRef);
+
+		if(!storage)
+			return NULL;
+
+		// Create result in that storage
+		ExprMemoryLiteral *result = new (ctx.ctx.get<ExprMemoryLiteral>()) ExprMemoryLiteral(expression->source, ctx.ctx.typeAutoRef, storage);
+
+		// Save typeid
+		CreateInsert(ctx, result, 0, new (ctx.ctx.get<ExprTypeLiteral>()) ExprTypeLiteral(expression->source, ctx.ctx.typeTypeID, arrTypeID->value));
+
+		// Save pointer to array element
+		assert(arrPtr->ptr + indexArg->value * arrTypeID->value->size + arrTypeID->value->size <= arrPtr->end);
+
+		unsigned char *targetPtr = arrPtr->ptr + indexArg->value * arrTypeID->value->size;
+
+		ExprPointerLiteral *shifted = new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(arrTypeID->value), targetPtr, targetPtr + arrTypeID->value->size);
+
+		CreateInsert(ctx, result, 4, shifted);
+
+		return CheckType(expression, result);
+	}
+	else if(ptr->data->name->name == InplaceStr("__assertCoroutine") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(functionPtr);
+
+		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
+
+		if(!isType<TypeFunction>(ptrTypeID->value))
+			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
+
+		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+		assert(ptrPtr);
+
+		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
+
+		if(!function->data)
+			return Report(ctx, "ERROR: function is not a coroutine'");
+
+		if(!function->data->coroutine)
+			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+	else if(ptr->data->name->name == InplaceStr("isCoroutineReset") && arguments.size() == 1 && arguments[0]->type == ctx.ctx.typeAutoRef)
+	{
+		ExprMemoryLiteral *functionPtr = getType<ExprMemoryLiteral>(arguments[0]);
+
+		assert(functionPtr);
+
+		ExprTypeLiteral *ptrTypeID = getType<ExprTypeLiteral>(CreateExtract(ctx, functionPtr, 0, ctx.ctx.typeTypeID));
+
+		if(!isType<TypeFunction>(ptrTypeID->value))
+			return Report(ctx, "ERROR: '%.*s' is not a function'", FMT_ISTR(ptrTypeID->value->name));
+
+		ExprPointerLiteral *ptrPtr = getType<ExprPointerLiteral>(CreateExtract(ctx, functionPtr, 4, ctx.ctx.GetReferenceType(ptrTypeID->value)));
+
+		assert(ptrPtr);
+
+		ExprFunctionLiteral *function = getType<ExprFunctionLiteral>(CreateLoad(ctx, ptrPtr));
+
+		if(!function->data->coroutine)
+			return Report(ctx, "ERROR: '%.*s' is not a coroutine'", FMT_ISTR(function->data->name->name));
+
+		ExprBase *contextLoad = CreateLoad(ctx, function->context);
+
+		if(!contextLoad)
+			return NULL;
+
+		ExprMemoryLiteral *context = getType<ExprMemoryLiteral>(contextLoad);
+
+		// TODO: remove this check, all coroutines must have a context
+		if(!context)
+			return Report(ctx, "ERROR: '%.*s' coroutine has no context'", FMT_ISTR(function->data->name->name));
+
+		ExprIntegerLiteral *jmpOffset = getType<ExprIntegerLiteral>(CreateExtract(ctx, context, 0, ctx.ctx.typeInt));
+
+		return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, ctx.ctx.typeInt, jmpOffset->value == 0));
+	}
+	else if(ptr->data->name->name == InplaceStr("__assert_derived_from") && arguments.size() == 2 && arguments[0]->type == ctx.ctx.GetReferenceType(ctx.ctx.typeVoid) && arguments[1]->type == ctx.ctx.typeTypeID)
+	{
+		ExprPointerLiteral *object = getType<ExprPointerLiteral>(arguments[0]);
+		ExprTypeLiteral *base = getType<ExprTypeLiteral>(arguments[1]);
+
+		if(!object)
+			return CheckType(expression, new (ctx.ctx.get<ExprNullptrLiteral>()) ExprNullptrLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid)));
+
+		assert(uintptr_t(object->end - object->ptr) >= sizeof(unsigned));
+
+		ExprTypeLiteral *derived = getType<ExprTypeLiteral>(CreateLoad(ctx, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeTypeID), object->ptr, object->end)));
+
+		assert(derived);
+
+		TypeBase *curr = derived->value;
+
+		while(curr)
+		{
+			if(curr == base->value)
+				return new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(curr), object->ptr, object->ptr + curr->size);
+
+			if(TypeClass *classType = getType<TypeClass>(curr))
+				curr = classType->baseClass;
+			else
+				curr = NULL;
+		}
+
+		return Report(ctx, "ERROR: cannot convert from '%.*s' to '%.*s'", FMT_ISTR(derived->value->name), FMT_ISTR(base->value->name));
+	}
+	else if(ptr->data->name->name == InplaceStr("__closeUpvalue") && arguments.size() == 4)
+	{
+		ExprPointerLiteral *upvalueListLocation = getType<ExprPointerLiteral>(arguments[0]);
+		ExprPointerLiteral *variableLocation = getType<ExprPointerLiteral>(arguments[1]);
+		ExprIntegerLiteral *offsetToCopy = getType<ExprIntegerLiteral>(arguments[2]);
+		ExprIntegerLiteral *copySize = getType<ExprIntegerLiteral>(arguments[3]);
+
+		assert(upvalueListLocation);
+		assert(variableLocation);
+		assert(offsetToCopy);
+		assert(copySize);
+
+		ExprBase *upvalueListHeadBase = CreateLoad(ctx, upvalueListLocation);
+
+		// Nothing to close if the list is empty
+		if(getType<ExprNullptrLiteral>(upvalueListHeadBase))
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+		ExprPointerLiteral *upvalueListHead = getType<ExprPointerLiteral>(upvalueListHeadBase);
+
+		assert(upvalueListHead);
+
+		struct Upvalue
+		{
+			void *target;
+			Upvalue *next;
+		};
+
+		Upvalue *upvalue = (Upvalue*)upvalueListHead->ptr;
+
+		assert(upvalue);
+
+		while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variableLocation->ptr)
+		{
+			Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
+
+			unsigned char *copy = (unsigned char*)upvalue + offsetToCopy->value;
+			memcpy(copy, variableLocation->ptr, unsigned(copySize->value));
+			WriteVmMemoryPointer(&upvalue->target, copy);
+			WriteVmMemoryPointer(&upvalue->next, NULL);
+
+			upvalue = next;
+		}
+
+		if(!CreateStore(ctx, upvalueListLocation, new (ctx.ctx.get<ExprPointerLiteral>()) ExprPointerLiteral(expression->source, ctx.ctx.GetReferenceType(ctx.ctx.typeVoid), (unsigned char*)upvalue, (unsigned char*)upvalue + NULLC_PTR_SIZE)))
+			return NULL;
+
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+
+	return NULL;
+}
+
+ExprBase* EvaluateFunctionCall(ExpressionEvalContext &ctx, ExprFunctionCall *expression)
+{
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	if(!AddInstruction(ctx))
+		return NULL;
+	
+	ExprBase *function = Evaluate(ctx, expression->function);
+
+	if(!function)
+		return NULL;
+
+	SmallArray<ExprBase*, 8> arguments(ctx.ctx.allocator);
+
+	for(ExprBase *curr = expression->arguments.head; curr; curr = curr->next)
+	{
+		ExprBase *value = Evaluate(ctx, curr);
+
+		if(!value)
+			return NULL;
+
+		arguments.push_back(value);
+	}
+
+	ExprFunctionLiteral *ptr = getType<ExprFunctionLiteral>(function);
+
+	if(!ptr)
+		return NULL;
+
+	if(!ptr->data)
+		return Report(ctx, "ERROR: null function pointer call");
+
+	if(!ptr->data->declaration)
+	{
+		if(ctx.emulateKnownExternals && ctx.ctx.GetFunctionIndex(ptr->data) < ctx.ctx.baseModuleFunctionCount)
+		{
+			if(ExprBase *result = EvaluateKnownExternalFunctionCall(ctx, expression, ptr, arguments))
+				return result;
+		}
+
+		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
+	}
+
+	if(ptr->data->isPrototype)
+		return Report(ctx, "ERROR: function '%.*s' has no source", FMT_ISTR(ptr->data->name->name));
+
+	ExprFunctionDefinition *declaration = getType<ExprFunctionDefinition>(ptr->data->declaration);
+
+	assert(declaration);
+
+	if(declaration->arguments.size() != arguments.size())
+		return NULL;
+
+	ExprBase *call = EvaluateFunction(ctx, declaration, ptr->context, arguments);
+
+	if(!call)
+		return NULL;
+
+	return CheckType(expression, call);
+}
+
+ExprBase* EvaluateIfElse(ExpressionEvalContext &ctx, ExprIfElse *expression)
+{
+	if(ctx.stackFrames.back()->targetYield)
+		return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *condition = Evaluate(ctx, expression->condition);
+
+	if(!condition)
+		return NULL;
+
+	long long result;
+	if(!TryTakeLong(condition, result))
+		return Report(ctx, "ERROR: failed to evaluate 'if' condition");
+
+	if(result)
+	{
+		if(!Evaluate(ctx, expression->trueBlock))
+			return NULL;
+	}
+	else if(expression->falseBlock)
+	{
+		if(!Evaluate(ctx, expression->falseBlock))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateFor(ExpressionEvalContext &ctx, ExprFor *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(!frame->targetYield)
+	{
+		if(!Evaluate(ctx, expression->initializer))
+			return NULL;
+	}
+
+	for(;;)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!frame->targetYield)
+		{
+			if(!expression->condition)
+				return NULL;
+
+			ExprBase *condition = Evaluate(ctx, expression->condition);
+
+			if(!condition)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(condition, result))
+				return Report(ctx, "ERROR: failed to evaluate 'for' condition");
+
+			if(!result)
+				break;
+		}
+
+		if(!Evaluate(ctx, expression->body))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+			break;
+		}
+
+		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
+		if(frame->continueDepth)
+		{
+			frame->continueDepth--;
+
+			if(frame->continueDepth)
+				break;
+		}
+
+		if(frame->returnValue)
+			break;
+
+		if(!frame->targetYield)
+		{
+			if(!Evaluate(ctx, expression->increment))
+				return NULL;
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateWhile(ExpressionEvalContext &ctx, ExprWhile *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(;;)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!frame->targetYield)
+		{
+			ExprBase *condition = Evaluate(ctx, expression->condition);
+
+			if(!condition)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(condition, result))
+				return Report(ctx, "ERROR: failed to evaluate 'while' condition");
+
+			if(!result)
+				break;
+		}
+
+		if(!Evaluate(ctx, expression->body))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+			break;
+		}
+
+		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
+		if(frame->continueDepth)
+		{
+			frame->continueDepth--;
+
+			if(frame->continueDepth)
+				break;
+		}
+
+		if(frame->returnValue)
+			break;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateDoWhile(ExpressionEvalContext &ctx, ExprDoWhile *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(;;)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!Evaluate(ctx, expression->body))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+			break;
+		}
+
+		// On continue, decrease depth and proceed to next iteration, unless it's a multi-level continue
+		if(frame->continueDepth)
+		{
+			frame->continueDepth--;
+
+			if(frame->continueDepth)
+				break;
+		}
+
+		if(frame->returnValue)
+			break;
+
+		if(!frame->targetYield)
+		{
+			ExprBase *condition = Evaluate(ctx, expression->condition);
+
+			if(!condition)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(condition, result))
+				return Report(ctx, "ERROR: failed to evaluate 'do' condition");
+
+			if(!result)
+				break;
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateSwitch(ExpressionEvalContext &ctx, ExprSwitch *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(frame->targetYield)
+		return Report(ctx, "ERROR: can't yield back into a switch statement");
+
+	ExprBase *condition = Evaluate(ctx, expression->condition);
+
+	if(!condition)
+		return NULL;
+
+	bool matched = false;
+
+	for(ExprBase *currCase = expression->cases.head, *currBlock = expression->blocks.head; currCase && currBlock; currCase = currCase->next, currBlock = currBlock->next)
+	{
+		if(!AddInstruction(ctx))
+			return NULL;
+
+		if(!matched)
+		{
+			ExprBase *value = Evaluate(ctx, currCase);
+
+			if(!value)
+				return NULL;
+
+			long long result;
+			if(!TryTakeLong(value, result))
+				return Report(ctx, "ERROR: failed to evaluate 'case' value");
+
+			// Try next case
+			if(!result)
+				continue;
+
+			matched = true;
+		}
+
+		if(!Evaluate(ctx, currBlock))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+		}
+	}
+
+	if(expression->defaultBlock)
+	{
+		if(!Evaluate(ctx, expression->defaultBlock))
+			return NULL;
+
+		// On break, decrease depth and exit
+		if(frame->breakDepth)
+		{
+			frame->breakDepth--;
+
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+		}
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateBreak(ExpressionEvalContext &ctx, ExprBreak *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(!frame->targetYield)
+	{
+		assert(frame->breakDepth == 0);
+
+		frame->breakDepth = expression->depth;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateContinue(ExpressionEvalContext &ctx, ExprContinue *expression)
+{
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	if(!frame->targetYield)
+	{
+		assert(frame->continueDepth == 0);
+
+		frame->continueDepth = expression->depth;
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateBlock(ExpressionEvalContext &ctx, ExprBlock *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(ExprBase *value = expression->expressions.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+
+		if(frame->continueDepth || frame->breakDepth || frame->returnValue)
+			return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+	}
+
+	if(expression->closures)
+	{
+		if(!Evaluate(ctx, expression->closures))
+			return NULL;
+	}
+
+	return CheckType(expression, new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid));
+}
+
+ExprBase* EvaluateSequence(ExpressionEvalContext &ctx, ExprSequence *expression)
+{
+	if(!AddInstruction(ctx))
+		return NULL;
+
+	ExprBase *result = new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	for(unsigned i = 0; i < expression->expressions.size(); i++)
+	{
+		result = Evaluate(ctx, expression->expressions[i]);
+
+		if(!result)
+			return NULL;
+	}
+
+	if(!ctx.stackFrames.empty() && ctx.stackFrames.back()->targetYield)
+		return new (ctx.ctx.get<ExprVoid>()) ExprVoid(expression->source, ctx.ctx.typeVoid);
+
+	return CheckType(expression, result);
+}
+
+ExprBase* EvaluateModule(ExpressionEvalContext &ctx, ExprModule *expression)
+{
+	ctx.globalFrame = new (ctx.ctx.get<ExpressionEvalContext::StackFrame>()) ExpressionEvalContext::StackFrame(ctx.ctx.allocator, NULL);
+	ctx.stackFrames.push_back(ctx.globalFrame);
+
+	ExpressionEvalContext::StackFrame *frame = ctx.stackFrames.back();
+
+	for(ExprBase *value = expression->setup.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+	}
+
+	for(ExprBase *value = expression->expressions.head; value; value = value->next)
+	{
+		if(!Evaluate(ctx, value))
+			return NULL;
+
+		assert(frame->breakDepth == 0 && frame->continueDepth == 0);
+
+		if(frame->returnValue)
+			return frame->returnValue;
+	}
+
+	ctx.stackFrames.pop_back();
+
+	assert(ctx.stackFrames.empty());
+
+	return NULL;
+}
+
+ExprBase* Evaluate(ExpressionEvalContext &ctx, ExprBase *expression)
+{
+	if(isType<TypeError>(expression->type))
+		return NULL;
+
+	ctx.expressionDepth++;
+
+	if(ctx.expressionDepth > ctx.expressionDepthLimit)
+		return Report(ctx, "ERROR: expression depth limit reached");
+
+	ExprBase *result = NULL;
+
+	switch(expression->typeID)
+	{
+	case ExprError::myTypeID:
+		result = Report(ctx, "ERROR: invalid expression");
+		break;
+	case ExprErrorTypeMemberAccess::myTypeID:
+		result = Report(ctx, "ERROR: invalid expression");
+		break;
+	case ExprVoid::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprBoolLiteral::myTypeID:
+		result = EvaluateBoolLiteral(ctx, (ExprBoolLiteral*)expression);
+		break;
+	case ExprCharacterLiteral::myTypeID:
+		result = EvaluateCharacterLiteral(ctx, (ExprCharacterLiteral*)expression);
+		break;
+	case ExprStringLiteral::myTypeID:
+		result = EvaluateStringLiteral(ctx, (ExprStringLiteral*)expression);
+		break;
+	case ExprIntegerLiteral::myTypeID:
+		result = EvaluateIntegerLiteral(ctx, (ExprIntegerLiteral*)expression);
+		break;
+	case ExprRationalLiteral::myTypeID:
+		result = EvaluateRationalLiteral(ctx, (ExprRationalLiteral*)expression);
+		break;
+	case ExprTypeLiteral::myTypeID:
+		result = EvaluateTypeLiteral(ctx, (ExprTypeLiteral*)expression);
+		break;
+	case ExprNullptrLiteral::myTypeID:
+		result = EvaluateNullptrLiteral(ctx, (ExprNullptrLiteral*)expression);
+		break;
+	case ExprFunctionIndexLiteral::myTypeID:
+		result = EvaluateFunctionIndexLiteral(ctx, (ExprFunctionIndexLiteral*)expression);
+		break;
+	case ExprPassthrough::myTypeID:
+		result = Evaluate(ctx, ((ExprPassthrough*)expression)->value);
+		break;
+	case ExprArray::myTypeID:
+		result = EvaluateArray(ctx, (ExprArray*)expression);
+		break;
+	case ExprPreModify::myTypeID:
+		result = EvaluatePreModify(ctx, (ExprPreModify*)expression);
+		break;
+	case ExprPostModify::myTypeID:
+		result = EvaluatePostModify(ctx, (ExprPostModify*)expression);
+		break;
+	case ExprTypeCast::myTypeID:
+		result = EvaluateCast(ctx, (ExprTypeCast*)expression);
+		break;
+	case ExprUnaryOp::myTypeID:
+		result = EvaluateUnaryOp(ctx, (ExprUnaryOp*)expression);
+		break;
+	case ExprBinaryOp::myTypeID:
+		result = EvaluateBinaryOp(ctx, (ExprBinaryOp*)expression);
+		break;
+	case ExprGetAddress::myTypeID:
+		result = EvaluateGetAddress(ctx, (ExprGetAddress*)expression);
+		break;
+	case ExprDereference::myTypeID:
+		result = EvaluateDereference(ctx, (ExprDereference*)expression);
+		break;
+	case ExprUnboxing::myTypeID:
+		result = Evaluate(ctx, ((ExprUnboxing*)expression)->value);
+		break;
+	case ExprConditional::myTypeID:
+		result = EvaluateConditional(ctx, (ExprConditional*)expression);
+		break;
+	case ExprAssignment::myTypeID:
+		result = EvaluateAssignment(ctx, (ExprAssignment*)expression);
+		break;
+	case ExprMemberAccess::myTypeID:
+		result = EvaluateMemberAccess(ctx, (ExprMemberAccess*)expression);
+		break;
+	case ExprArrayIndex::myTypeID:
+		result = EvaluateArrayIndex(ctx, (ExprArrayIndex*)expression);
+		break;
+	case ExprReturn::myTypeID:
+		result = EvaluateReturn(ctx, (ExprReturn*)expression);
+		break;
+	case ExprYield::myTypeID:
+		result = EvaluateYield(ctx, (ExprYield*)expression);
+		break;
+	case ExprVariableDefinition::myTypeID:
+		result = EvaluateVariableDefinition(ctx, (ExprVariableDefinition*)expression);
+		break;
+	case ExprZeroInitialize::myTypeID:
+		result = EvaluateZeroInitialize(ctx, (ExprZeroInitialize*)expression);
+		break;
+	case ExprArraySetup::myTypeID:
+		result = EvaluateArraySetup(ctx, (ExprArraySetup*)expression);
+		break;
+	case ExprVariableDefinitions::myTypeID:
+		result = EvaluateVariableDefinitions(ctx, (ExprVariableDefinitions*)expression);
+		break;
+	case ExprVariableAccess::myTypeID:
+		result = EvaluateVariableAccess(ctx, (ExprVariableAccess*)expression);
+		break;
+	case ExprFunctionContextAccess::myTypeID:
+		result = EvaluateFunctionContextAccess(ctx, (ExprFunctionContextAccess*)expression);
+		break;
+	case ExprFunctionDefinition::myTypeID:
+		result = EvaluateFunctionDefinition(ctx, (ExprFunctionDefinition*)expression);
+		break;
+	case ExprGenericFunctionPrototype::myTypeID:
+		result = EvaluateGenericFunctionPrototype(ctx, (ExprGenericFunctionPrototype*)expression);
+		break;
+	case ExprFunctionAccess::myTypeID:
+		result = EvaluateFunctionAccess(ctx, (ExprFunctionAccess*)expression);
+		break;
+	case ExprFunctionOverloadSet::myTypeID:
+		result = NULL;
+		break;
+	case ExprShortFunctionOverloadSet::myTypeID:
+		result = NULL;
+		break;
+	case ExprFunctionCall::myTypeID:
+		result = EvaluateFunctionCall(ctx, (ExprFunctionCall*)expression);
+		break;
+	case ExprAliasDefinition::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprClassPrototype::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprGenericClassPrototype::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprClassDefinition::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprEnumDefinition::myTypeID:
+		result = EvaluateVoid(ctx, expression);
+		break;
+	case ExprIfElse::myTypeID:
+		result = EvaluateIfElse(ctx, (ExprIfElse*)expression);
+		break;
+	case ExprFor::myTypeID:
+		result = EvaluateFor(ctx, (ExprFor*)expression);
+		break;
+	case ExprWhile::myTypeID:
+		result = EvaluateWhile(ctx, (ExprWhile*)expression);
+		break;
+	case ExprDoWhile::myTypeID:
+		result = EvaluateDoWhile(ctx, (ExprDoWhile*)expression);
+		break;
+	case ExprSwitch::myTypeID:
+		result = EvaluateSwitch(ctx, (ExprSwitch*)expression);
+		break;
+	case ExprBreak::myTypeID:
+		result = EvaluateBreak(ctx, (ExprBreak*)expression);
+		break;
+	case ExprContinue::myTypeID:
+		result = EvaluateContinue(ctx, (ExprContinue*)expression);
+		break;
+	case ExprBlock::myTypeID:
+		result = EvaluateBlock(ctx, (ExprBlock*)expression);
+		break;
+	case ExprSequence::myTypeID:
+		result = EvaluateSequence(ctx, (ExprSequence*)expression);
+		break;
+	case ExprModule::myTypeID:
+		result = EvaluateModule(ctx, (ExprModule*)expression);
+		break;
+	default:
+		assert(!"unknown type");
+		break;
+	}
+
+	ctx.expressionDepth--;
+
+	return result;
+}
+
+bool EvaluateToBuffer(ExpressionEvalContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize)
+{
+	if(ExprBase *value = Evaluate(ctx, expression))
+	{
+		if(ExprBoolLiteral *result = getType<ExprBoolLiteral>(value))
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value ? 1 : 0);
+		}
+		else if(ExprCharacterLiteral *result = getType<ExprCharacterLiteral>(value))
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", result->value);
+		}
+		else if(ExprIntegerLiteral *result = getType<ExprIntegerLiteral>(value))
+		{
+			if(result->type == ctx.ctx.typeLong)
+				NULLC::SafeSprintf(resultBuf, resultBufSize, "%lldL", result->value);
+			else
+				NULLC::SafeSprintf(resultBuf, resultBufSize, "%d", int(result->value));
+		}
+		else if(ExprRationalLiteral *result = getType<ExprRationalLiteral>(value))
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "%f", result->value);
+		}
+		else
+		{
+			NULLC::SafeSprintf(resultBuf, resultBufSize, "unknown");
+		}
+
+		return true;
+	}
+
+	return false;
+}
+
+bool TestEvaluation(ExpressionContext &ctx, ExprBase *expression, char *resultBuf, unsigned resultBufSize, char *errorBuf, unsigned errorBufSize)
+{
+	if(!expression)
+		return false;
+
+	ExpressionEvalContext evalCtx(ctx, ctx.allocator);
+
+	evalCtx.errorBuf = errorBuf;
+	evalCtx.errorBufSize = errorBufSize;
+
+	evalCtx.emulateKnownExternals = true;
+
+	return EvaluateToBuffer(evalCtx, expression, resultBuf, resultBufSize);
+}
-- 
2.43.0


From f27591fc6ef1a298247f0e11e3a4c7aaa608cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:39 +0000
Subject: [PATCH 14/31] fix: compile-time negation of an int wraps around like
 at run time

---
 NULLC/ExpressionEval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NULLC/ExpressionEval.cpp b/NULLC/ExpressionEval.cpp
index 52b2a98..83fe916 100644
--- a/NULLC/ExpressionEval.cpp
+++ b/NULLC/ExpressionEval.cpp
@@ -1407,7 +1407,9 @@ ExprBase* EvaluateUnaryOp(ExpressionEvalContext &ctx, ExprUnaryOp *expression)
 			case SYN_UNARY_OP_PLUS:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
 			case SYN_UNARY_OP_NEGATE:
-				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, -result));
+				result = value->type == ctx.ctx.typeLong ? (long long)(0ull - (unsigned long long)result) : int(0u - unsigned(result));
+
+				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, result));
 			case SYN_UNARY_OP_BIT_NOT:
 				return CheckType(expression, new (ctx.ctx.get<ExprIntegerLiteral>()) ExprIntegerLiteral(expression->source, expression->type, ~result));
 			case SYN_UNARY_OP_LOGICAL_NOT:
-- 
2.43.0


From f19deaacef1c2736fb213cc3fc43f1fc2e77fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 15/31] fix: x86 register reserved for a comparison result is
 not reused as its operand

---
 NULLC/CodeGen_X86.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NULLC/CodeGen_X86.cpp b/NULLC/CodeGen_X86.cpp
index 087239a..55bcb51 100644
--- a/NULLC/CodeGen_X86.cpp
+++ b/NULLC/CodeGen_X86.cpp
@@ -613,6 +613,9 @@ void CodeGenGenericContext::LockAndInvalidateReg(x86Reg reg)
 {
 	LockReg(reg);
 	InvalidateDependand(reg);
+
+	// Register is about to be overwritten, it can't be used as a source of its current value
+	genReg[reg].type = x86Argument::argNone;
 }
 
 bool CodeGenGenericContext::IsRegLocked(x86Reg reg)
-- 
2.43.0


From 6facb107a754fc30cf0ddb1c0d9d11ee1bcd0b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 16/31] fix: x86 move of a long register copies both halves
 when only the low one is known

---
 NULLC/CodeGenRegVm_X86.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 3d4f502..560f41f 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -1186,17 +1186,6 @@ void GetCodeCmdMovHelper(CodeGenRegVmContext &ctx, unsigned char lhs, unsigned c
 		return;
 	}
 
-	// Maybe last write was of dword size
-	sourceReg = ctx.ctx.FindRegAtMemory(sDWORD, rNONE, 1, rREG, rhs * 8, true);
-
-	if(sourceReg != rRegCount)
-	{
-		ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
-
-		EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, lhs * 8, sourceReg); // Store to target
-		return;
-	}
-
 	sourceReg = ctx.ctx.GetReg();
 
 	EMIT_OP_REG_RPTR(ctx.ctx, o_mov64, sourceReg, sQWORD, rREG, rhs * 8); // Load source
-- 
2.43.0


From ce169796bcc804a284e94a6339dce2cf38cf7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:54 +0000
Subject: [PATCH 17/31] fix: x86 logical not of a long checks all of its bits

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 560f41f..45dad6a 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -4289,7 +4289,7 @@ void GenCodeCmdLogNotl(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 	ctx.ctx.KillEarlyUnreadRegVmRegisters(ctx.exRegVmRegKillInfo + ctx.currInstructionRegKillOffset);
 
 	EMIT_OP_REG_REG(ctx.ctx, o_xor64, rRCX, rRCX);
-	EMIT_OP_REG_REG(ctx.ctx, o_cmp, rRAX, rRCX);
+	EMIT_OP_REG_REG(ctx.ctx, o_cmp64, rRAX, rRCX);
 	EMIT_OP_REG(ctx.ctx, o_sete, rECX);
 
 	EMIT_OP_RPTR_REG(ctx.ctx, o_mov, sDWORD, rREG, cmd.rA * 8, rECX); // Store int to target
-- 
2.43.0


From d2caf250ed6c6a8a4b3304bbe6be712cca98d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:33 +0000
Subject: [PATCH 18/31] fix: x86 checked return enables garbage collection
 again

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 45dad6a..8579b75 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2346,7 +2346,7 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
 
-		NULLC::SetCollectMemory(false);
+		NULLC::SetCollectMemory(true);
 	}
 }
 
-- 
2.43.0


From a21cfbb020647236f5314461089e465b380eba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:58 +0000
Subject: [PATCH 19/31] fix: returned reference to a local object copies the
 object it points to, not the size of the reference

---
 NULLC/CodeGenRegVm_X86.cpp | 4 ++--
 NULLC/Executor_RegVm.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 8579b75..a0611a2 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2339,9 +2339,9 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 		}
 		else
 		{
-			unsigned objSize = type.size;
+			unsigned objSize = ctx.exTypes[type.subType].size;
 
-			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+			char *copy = (char*)NULLC::AllocObject(objSize, type.subType);
 			memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index c952fa1..c2e2540 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1691,9 +1691,9 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 		}
 		else
 		{
-			unsigned objSize = type.size;
+			unsigned objSize = exLinker->exTypes[type.subType].size;
 
-			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+			char *copy = (char*)NULLC::AllocObject(objSize, type.subType);
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
-- 
2.43.0


From 92e45f8570aa4c28cc28d374962e72a62916b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:15 +0000
Subject: [PATCH 20/31] fix: returned reference to a local object of a derived
 class copies the whole object

---
 NULLC/CodeGenRegVm_X86.cpp | 10 ++++++++--
 NULLC/Executor_RegVm.cpp   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index a0611a2..dec69e1 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2339,9 +2339,15 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 		}
 		else
 		{
-			unsigned objSize = ctx.exTypes[type.subType].size;
+			unsigned objType = type.subType;
 
-			char *copy = (char*)NULLC::AllocObject(objSize, type.subType);
+			// Real type of an extendable class object is stored in the object
+			if(ctx.exTypes[objType].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+				memcpy(&objType, ptr, sizeof(objType));
+
+			unsigned objSize = ctx.exTypes[objType].size;
+
+			char *copy = (char*)NULLC::AllocObject(objSize, objType);
 			memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index c2e2540..0915229 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1691,9 +1691,15 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 		}
 		else
 		{
-			unsigned objSize = exLinker->exTypes[type.subType].size;
+			unsigned objType = type.subType;
 
-			char *copy = (char*)NULLC::AllocObject(objSize, type.subType);
+			// Real type of an extendable class object is stored in the object
+			if(exLinker->exTypes[objType].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE)
+				memcpy(&objType, ptr, sizeof(objType));
+
+			unsigned objSize = exLinker->exTypes[objType].size;
+
+			char *copy = (char*)NULLC::AllocObject(objSize, objType);
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
-- 
2.43.0


From 541ff907b1c31d7c2739664de481540259bcb025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:44 +0000
Subject: [PATCH 21/31] fix: array copied out by a checked return is allocated
 as an array, so that the garbage collector keeps its elements

---
 NULLC/CodeGenRegVm_X86.cpp | 6 +++---
 NULLC/Executor_RegVm.cpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index dec69e1..c72afdc 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2333,9 +2333,9 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
-			char *copy = (char*)NULLC::AllocObject(ctx.exTypes[type.subType].size * length, type.subType);
-			memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
-			memcpy(returnValuePtr, &copy, sizeof(copy));
+			NULLCArray copy = NULLC::AllocArray(ctx.exTypes[type.subType].size, length, type.subType);
+			memcpy(copy.ptr, ptr, unsigned(ctx.exTypes[type.subType].size * length));
+			memcpy(returnValuePtr, &copy.ptr, sizeof(copy.ptr));
 		}
 		else
 		{
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 0915229..7473b0c 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1685,9 +1685,9 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 		{
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
-			char *copy = (char*)NULLC::AllocObject(exLinker->exTypes[type.subType].size * length, type.subType);
-			memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
-			vmStorePointer(returnValuePtr, copy);
+			NULLCArray copy = NULLC::AllocArray(exLinker->exTypes[type.subType].size, length, type.subType);
+			memcpy(copy.ptr, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
+			vmStorePointer(returnValuePtr, copy.ptr);
 		}
 		else
 		{
-- 
2.43.0


From 86307d6b7e05253d25fa3c4f6f2ccec93e4ee1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:52 +0000
Subject: [PATCH 22/31] fix: failed allocation of the copy in a checked return
 stops with an error instead of a crash

---
 NULLC/CodeGenRegVm_X86.cpp | 14 ++++++++++++++
 NULLC/Executor_RegVm.cpp   | 26 +++++++++++++++++++++++---
 NULLC/Executor_RegVm.h     |  2 +-
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index c72afdc..fc56b6d 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2334,6 +2334,13 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			NULLCArray copy = NULLC::AllocArray(ctx.exTypes[type.subType].size, length, type.subType);
+
+			if(!copy.ptr)
+			{
+				NULLC::SetCollectMemory(true);
+				longjmp(vmState->errorHandler, 1);
+			}
+
 			memcpy(copy.ptr, ptr, unsigned(ctx.exTypes[type.subType].size * length));
 			memcpy(returnValuePtr, &copy.ptr, sizeof(copy.ptr));
 		}
@@ -2348,6 +2355,13 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned objSize = ctx.exTypes[objType].size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, objType);
+
+			if(!copy)
+			{
+				NULLC::SetCollectMemory(true);
+				longjmp(vmState->errorHandler, 1);
+			}
+
 			memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 7473b0c..2ded330 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1627,8 +1627,12 @@ RegVmReturnType ExecutorRegVm::ExecReturn(const RegVmCmd cmd, RegVmCmd * const i
 			}
 		}
 
-		if(cmd.rC)
-			ExecCheckedReturn(typeId, regFilePtr);
+		if(cmd.rC && !ExecCheckedReturn(typeId, regFilePtr))
+		{
+			callStack.push_back(instruction + 1);
+
+			return rvrError;
+		}
 	}
 
 	if(callStack.size() == lastFinalReturn)
@@ -1665,7 +1669,7 @@ bool ExecutorRegVm::ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruct
 	return true;
 }
 
-void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
+bool ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
 {
 	uintptr_t frameBase = regFilePtr[rvrrFrame].ptrValue;
 	uintptr_t frameEnd = regFilePtr[rvrrGlobals].ptrValue + dataStack.size();
@@ -1686,6 +1690,13 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			NULLCArray copy = NULLC::AllocArray(exLinker->exTypes[type.subType].size, length, type.subType);
+
+			if(!copy.ptr)
+			{
+				NULLC::SetCollectMemory(true);
+				return false;
+			}
+
 			memcpy(copy.ptr, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
 			vmStorePointer(returnValuePtr, copy.ptr);
 		}
@@ -1700,12 +1711,21 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned objSize = exLinker->exTypes[objType].size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, objType);
+
+			if(!copy)
+			{
+				NULLC::SetCollectMemory(true);
+				return false;
+			}
+
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
 
 		NULLC::SetCollectMemory(true);
 	}
+
+	return true;
 }
 
 RegVmReturnType ExecutorRegVm::ExecError(RegVmCmd * const instruction, const char *errorMessage)
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index fe9aad7..1f513cb 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -109,7 +109,7 @@ private:
 	bool ExecCall(unsigned microcodePos, unsigned functionId, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	RegVmReturnType ExecReturn(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	bool ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
-	void ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
+	bool ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
 
 	RegVmReturnType ExecError(RegVmCmd * const instruction, const char *errorMessage);
 
-- 
2.43.0


From 1fd8b57464ab3758fbff2dabf306f396c19e368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:10 +0000
Subject: [PATCH 23/31] fix: remap base type of a class completed by another
 module

---
 NULLC/Linker.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index 9bed746..6e29fba 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -328,6 +328,9 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 	for(unsigned int i = 0; i < oldTypeCount; i++)
 		typeMap.insert(exTypes[i].nameHash, i);
 
+	// Types that were only declared before and are completed by this bytecode
+	FastVector<unsigned> completedTypes;
+
 	// Add all types from bytecode to the list
 	tInfo = tStart;
 	for(unsigned int i = 0; i < bCode->typeCount; i++)
@@ -364,6 +367,8 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			{
 				assert(tInfo->subCat == ExternTypeInfo::CAT_CLASS);
 
+				completedTypes.push_back(*lastType);
+
 				lastTypeInfo = *tInfo;
 				lastTypeInfo.offsetToName += oldSymbolSize;
 
@@ -398,6 +403,15 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			exTypes[i].baseType = typeRemap[exTypes[i].baseType];
 	}
 
+	// Remap base types of completed types (base type might be placed after the completed type in the bytecode)
+	for(unsigned int i = 0; i < completedTypes.size(); i++)
+	{
+		ExternTypeInfo &typeInfo = exTypes[completedTypes[i]];
+
+		if(typeInfo.baseType)
+			typeInfo.baseType = typeRemap[typeInfo.baseType];
+	}
+
 	// Remap new member types (while skipping member offsets)
 	for(unsigned int i = oldMemberSize; i < exTypeExtra.size(); i++)
 		exTypeExtra[i].type = typeRemap[exTypeExtra[i].type];
-- 
2.43.0


From 29ce18e94fce3c44aad70c0b8461228ab18b172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:13 +0000
Subject: [PATCH 24/31] fix: report an error when duplicate, replace, swap,
 equal or assign is given a null object

---
 NULLC/StdLib.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4534252..52b9795 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -860,7 +860,12 @@ void NULLC::Assert2(int val, NULLCArray message)
 
 NULLCRef NULLC::CopyObject(NULLCRef ptr)
 {
-	NULLCRef ret;
+	NULLCRef ret = { 0, 0 };
+	if(!ptr.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	ret.typeID = ptr.typeID;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
@@ -890,6 +895,11 @@ NULLCRef NULLC::ReplaceObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: cannot convert from %s ref to %s ref", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return l;
 	}
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return l;
+	}
 	memcpy(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
 	return l;
 }
@@ -901,6 +911,11 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	unsigned size = linker->exTypes[l.typeID].size;
 
 	char tmpStack[512];
@@ -918,6 +933,11 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return 0;
 	}
+	if(!l.ptr || !r.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	return 0 == memcmp(l.ptr, r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -928,6 +948,11 @@ void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	memcpy(l.ptr, &r.ptr, linker->exTypes[l.typeID].size);
 }
 
-- 
2.43.0


From 4f8123f5560413f42e38fd2306fd2e1f7e206941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:21 +0000
Subject: [PATCH 25/31] fix: assign overwrites arrays, functions and classes
 that are not pointers

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 52b9795..eda51bb 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -943,7 +943,7 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 
 void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 {
-	if(linker->exTypes[l.typeID].subType != r.typeID)
+	if(linker->exTypes[l.typeID].subCat != ExternTypeInfo::CAT_POINTER || linker->exTypes[l.typeID].subType != r.typeID)
 	{
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
-- 
2.43.0


From 02ae7d493536cf7f9ee2359274bcad40662efa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:28 +0000
Subject: [PATCH 26/31] fix: isCoroutineReset and __assertCoroutine stop with
 an error for a null function or a value that is not a function

---
 NULLC/StdLib.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index eda51bb..9322f1b 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1525,12 +1525,23 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 		return 0;
 	}
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
+	if(!fPtr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
 	{
 		nullcThrowError("Function is not a coroutine");
 		return 0;
 	}
 
+	if(!fPtr->context)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
+
 	unsigned jmpOffset = *(unsigned*)fPtr->context;
 	return jmpOffset == 0;
 }
@@ -1538,9 +1549,17 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 void NULLC::AssertCoroutine(NULLCRef f)
 {
 	if(linker->exTypes[f.typeID].subCat != ExternTypeInfo::CAT_FUNCTION)
+	{
 		nullcThrowError("Argument is not a function");
+		return;
+	}
 
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
+	if(!fPtr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
 		nullcThrowError("ERROR: function is not a coroutine");
 }
-- 
2.43.0


From 7ca791d7ecd4aec06639da3182dc7d534ca65fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:37 +0000
Subject: [PATCH 27/31] fix: auto[]::set writes outside of the array it has
 extended

---
 NULLC/StdLib.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 9322f1b..67ec23d 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1486,13 +1486,24 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 		return;
 	}
 
+	if(!x.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+
 	unsigned elemSize = linker->exTypes[arr->typeID].size;
 	if(pos >= arr->len)
 	{
+		if(pos == ~0u)
+		{
+			nullcThrowError("ERROR: array index out of bounds");
+			return;
+		}
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
-			newSize = pos;
-		NULLCAutoArray n;
+			newSize = pos + 1;
+		NULLCAutoArray n = { 0, NULL, 0 };
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
 			return;
-- 
2.43.0


From 45e33fb8590c7f9e836271a6ce62665ebf947ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:45 +0000
Subject: [PATCH 28/31] fix: a failed allocation in a built-in function crashes
 the host instead of stopping the script

---
 NULLC/StdLib.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 67ec23d..89f2376 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -869,6 +869,8 @@ NULLCRef NULLC::CopyObject(NULLCRef ptr)
 	ret.typeID = ptr.typeID;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
+	if(!ret.ptr)
+		return ret;
 	memcpy(ret.ptr, ptr.ptr, objSize);
 	return ret;
 }
@@ -880,9 +882,13 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 		nullcThrowError("ERROR: null pointer access");
 		return;
 	}
+	char *copy = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
+	if(!copy)
+		return;
+
 	dst->typeID = src.typeID;
 	dst->len = src.len;
-	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
+	dst->ptr = copy;
 
 	if(src.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
@@ -921,6 +927,8 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
 	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, l.typeID);
+	if(!tmp)
+		return;
 	memcpy(tmp, l.ptr, size);
 	memcpy(l.ptr, r.ptr, size);
 	memcpy(r.ptr, tmp, size);
@@ -1068,6 +1076,8 @@ NULLCArray NULLC::ShortToStr(short* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1104,6 +1114,8 @@ NULLCArray NULLC::IntToStr(int* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1153,6 +1165,8 @@ NULLCArray NULLC::LongToStr(long long* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1179,6 +1193,8 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
@@ -1200,6 +1216,8 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
@@ -1468,9 +1486,13 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 		return;
 	}
 
+	char *data = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	if(!data)
+		return;
+
 	arr->typeID = type;
 	arr->len = count;
-	arr->ptr = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	arr->ptr = data;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
-- 
2.43.0


From c37f15d33ed3c6f7f2ef440bbf6df08d8e21d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:53 +0000
Subject: [PATCH 29/31] fix: string concatenation writes past the end of the
 result

---
 NULLC/StdLib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 89f2376..e25f6c4 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -988,10 +988,13 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 	ret.len = a.len + b.len - shift;
 	ret.ptr = (char*)AllocObject(ret.len, NULLC_TYPE_CHAR);
 	if(!ret.ptr)
+	{
+		ret.len = 0;
 		return ret;
+	}
 
 	if(a.len)
-		memcpy(ret.ptr, a.ptr, a.len);
+		memcpy(ret.ptr, a.ptr, a.len - shift);
 
 	if(b.len)
 		memcpy(ret.ptr + a.len - shift, b.ptr, b.len);
-- 
2.43.0


From 26f654f14af8bad9fc45e206e200ee74e82682b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:59 +0000
Subject: [PATCH 30/31] fix: conversion between auto[] and an array through a
 null reference crashes the host

---
 NULLC/StdLib.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index e25f6c4..0a06308 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1388,6 +1388,11 @@ NULLCAutoArray* NULLC::AutoArrayAssign(NULLCAutoArray* left, NULLCRef right)
 		nullcThrowError("ERROR: null pointer access");
 		return 0;
 	}
+	if(!right.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	if(right.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*left = *(NULLCAutoArray*)right.ptr;
@@ -1422,6 +1427,11 @@ NULLCRef NULLC::AutoArrayAssignRev(NULLCRef left, NULLCAutoArray *right)
 		nullcThrowError("ERROR: null pointer access");
 		return ret;
 	}
+	if(!left.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	if(left.typeID == NULLC_TYPE_AUTO_ARRAY)
 	{
 		*(NULLCAutoArray*)left.ptr = *right;
-- 
2.43.0


From f5161c07538a4378d0c975b9ad08a45ae38209bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:12 +0000
Subject: [PATCH 31/31] fix: appending to a string through a null reference
 crashes the host

---
 NULLC/StdLib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 0a06308..bf32bff 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1004,6 +1004,12 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 
 NULLCArray NULLC::StrConcatenateAndSet(NULLCArray *a, NULLCArray b)
 {
+	if(!a)
+	{
+		NULLCArray ret = { 0, 0 };
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	return *a = StrConcatenate(*a, b);
 }
 
-- 
2.43.0

