From eac0078813d41008fb11a7961f2b8fa3b3589b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 01/88] sim: guarded allocation and free seams in the object
 allocator (NULLC_SIM_HOOKS)

---
 NULLC/StdLib.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 4534252..7255232 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -17,6 +17,12 @@
 
 typedef uintptr_t markerType;
 
+#ifdef NULLC_SIM_HOOKS
+// Simulation seam, defined by the simulator: decides if an allocation triggers a collection or fails and observes freed blocks
+int nullcSimOnAlloc(int size, unsigned type);
+void nullcSimOnFree(void *ptr, unsigned size);
+#endif
+
 // memory structure				   |base->
 // small object storage:			marker, data...
 // big object storage:		size,	marker, data...
@@ -171,6 +177,9 @@ public:
 		if(!ptr)
 			return;
 		MySmallBlock* freedBlock = static_cast<MySmallBlock*>(static_cast<void*>(ptr));
+#ifdef NULLC_SIM_HOOKS
+		nullcSimOnFree(ptr, elemSize);
+#endif
 		freedBlock->next = (MySmallBlock*)((intptr_t)freeBlocks | NULLC::OBJECT_FREED);
 		freeBlocks = freedBlock;
 	}
@@ -410,6 +419,19 @@ void* NULLC::AllocObject(int size, unsigned type)
 		return NULL;
 	}
 
+#ifdef NULLC_SIM_HOOKS
+	if(int simAction = nullcSimOnAlloc(size, type))
+	{
+		if(simAction == 2)
+		{
+			nullcThrowError("ERROR: reached global memory maximum");
+			return NULL;
+		}
+
+		CollectMemory();
+	}
+#endif
+
 	void *data = NULL;
 	size += sizeof(markerType);
 
-- 
2.43.0


From 1f9b4b1b9213b911725c734a5e945021696eb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 02/88] fix: keep phi options in step with predecessor edges in
 control flow optimization

Removing or redirecting a predecessor left phi instructions with options from
blocks that no longer transfer control to them, and redirecting into a block
with phi instructions left it without an option for the new predecessor. Code
like 'return int(a || (c ? f() : 7));' failed an assertion or was lowered with
the wrong values at optimization levels 1 and 2.
---
 NULLC/InstructionTreeVm.cpp | 75 +++++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 59e3cbd..fc746de 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4833,6 +4833,52 @@ void RunConstantPropagation(ExpressionContext &ctx, VmModule *module, VmValue* v
 	}
 }
 
+void RemovePhiOption(VmInstruction *phi, unsigned index)
+{
+	VmValue *option = phi->arguments[index];
+	VmValue *edge = phi->arguments[index + 1];
+
+	option->RemoveUse(phi);
+	edge->RemoveUse(phi);
+
+	phi->arguments[index] = phi->arguments[phi->arguments.size() - 2];
+	phi->arguments[index + 1] = phi->arguments[phi->arguments.size() - 1];
+
+	phi->arguments.pop_back();
+	phi->arguments.pop_back();
+}
+
+// Remove phi instruction options from blocks that no longer transfer control to the current block
+void RemoveStalePhiOptions(VmBlock *block)
+{
+	for(VmInstruction *inst = block->firstInstruction; inst; inst = inst->nextSibling)
+	{
+		if(inst->cmd != VM_INST_PHI)
+			continue;
+
+		for(unsigned i = 0; i < inst->arguments.size();)
+		{
+			bool isPredecessor = false;
+
+			for(unsigned k = 0; k < block->users.size(); k++)
+			{
+				VmInstruction *user = getType<VmInstruction>(block->users[k]);
+
+				if(user && user->cmd != VM_INST_PHI && user->parent == inst->arguments[i + 1])
+				{
+					isPredecessor = true;
+					break;
+				}
+			}
+
+			if(isPredecessor)
+				i += 2;
+			else
+				RemovePhiOption(inst, i);
+		}
+	}
+}
+
 void MarkReachableBlocks(VmBlock *block)
 {
 	if(block->visited)
@@ -4940,6 +4986,9 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		curr = next;
 	}
 
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+		RemoveStalePhiOptions(curr);
+
 	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 	{
 		// Check that only reachable blocks remain
@@ -5119,13 +5168,16 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
 
 						if(option->cmd != VM_INST_LOAD_IMMEDIATE)
+						{
+							i += 2;
 							continue;
+						}
 
 						VmConstant *condition = getType<VmConstant>(option->arguments[0]);
 
@@ -5133,14 +5185,25 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 						VmInstruction *terminator = edge->lastInstruction;
 
-						if(terminator->cmd == VM_INST_JUMP)
+						VmBlock *targetBlock = getType<VmBlock>(target);
+
+						// Phi instructions of the target block have no option for a new predecessor
+						bool targetHasPhi = targetBlock && targetBlock->firstInstruction && targetBlock->firstInstruction->cmd == VM_INST_PHI;
+
+						if(terminator->cmd == VM_INST_JUMP && !targetHasPhi)
 						{
 							assert(terminator->arguments[0] == curr);
 
 							ReplaceValue(module, terminator, terminator->arguments[0], target);
 
+							RemovePhiOption(phi, i);
+
 							module->controlFlowSimplifications++;
 						}
+						else
+						{
+							i += 2;
+						}
 					}
 				}
 			}
@@ -5152,7 +5215,7 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 				if(phi && phi->cmd == VM_INST_PHI && phi == currLastInst->prevSibling && phi == curr->firstInstruction)
 				{
-					for(unsigned i = 0; i < phi->arguments.size(); i += 2)
+					for(unsigned i = 0; i < phi->arguments.size();)
 					{
 						VmInstruction *option = getType<VmInstruction>(phi->arguments[i]);
 						VmBlock *edge = getType<VmBlock>(phi->arguments[i + 1]);
@@ -5164,6 +5227,12 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 							assert(terminator->arguments[0] == curr);
 
 							ChangeInstructionTo(module, terminator, VM_INST_RETURN, option, NULL, NULL, NULL, NULL, &module->controlFlowSimplifications);
+
+							RemovePhiOption(phi, i);
+						}
+						else
+						{
+							i += 2;
 						}
 					}
 				}
-- 
2.43.0


From 32ff31ed1fc702523b1ac9c2201cfd7c9496e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 03/88] fix: fold constant branches and remove unreachable
 blocks in user order in dead code elimination

A block that became unreachable only after a constant conditional branch was
folded kept live-out registers with no definition (assertion in register
allocation), and unreachable blocks were visited before their users.
---
 NULLC/InstructionTreeVm.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index fc746de..6deb6f4 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4898,6 +4898,13 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 	if(!function->firstBlock)
 		return;
 
+	// Remove conditional branches with constant condition first, blocks on the branch that is never taken might become unreachable
+	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+	{
+		if(curr->lastInstruction && (curr->lastInstruction->cmd == VM_INST_JUMP_Z || curr->lastInstruction->cmd == VM_INST_JUMP_NZ))
+			RunDeadCodeElimiation(ctx, module, curr->lastInstruction);
+	}
+
 	for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
 	{
 		curr->predecessors.clear();
@@ -4977,6 +4984,28 @@ void RunDeadCodeElimiation(ExpressionContext &ctx, VmModule *module, VmFunction*
 		curr = next;
 	}
 
+	// Unreachable block can be removed only after other unreachable blocks that use its values
+	for(bool removed = true; removed;)
+	{
+		removed = false;
+
+		for(VmBlock *curr = function->firstBlock->nextSibling; curr;)
+		{
+			VmBlock *next = curr->nextSibling;
+
+			if(!curr->visited && curr->users.empty() && !curr->HasExternalInstructionUsers())
+			{
+				module->deadCodeEliminations++;
+
+				curr->parent->RemoveBlock(curr);
+
+				removed = true;
+			}
+
+			curr = next;
+		}
+	}
+
 	VmBlock *curr = function->firstBlock;
 
 	while(curr)
-- 
2.43.0


From 259d38e9e0e025c58fab5c51fda9d14b48c87283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 04/88] fix: restore the error handler of the outer run when a
 nested x86 run is stopped by a signal

---
 NULLC/Executor_X86.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 52b9b90..e59f2a6 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1004,13 +1004,14 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		NULLC::JmpBufData data;
 		NULLC::copyMemory(data.data, NULLC::errorHandler, sizeof(sigjmp_buf));
 
+		// Both handlers point to the current frame and have to be restored even if the execution is stopped by a signal
+		jmp_buf prevErrorHandler;
+		NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
+
 		if(!(errorCode = sigsetjmp(NULLC::errorHandler, 1)))
 		{
 			unsigned char *codeStart = instAddress[instructionPos];
 
-			jmp_buf prevErrorHandler;
-			NULLC::copyMemory(&prevErrorHandler, &vmState.errorHandler, sizeof(jmp_buf));
-
 			if(!setjmp(vmState.errorHandler))
 			{
 				typedef	uintptr_t(*nullcFunc)(unsigned char *codeStart, RegVmRegister *regFilePtr);
@@ -1021,14 +1022,14 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 			{
 				resultType = rvrError;
 			}
-
-			NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
 		}
 		else
 		{
 			resultType = rvrError;
 		}
 
+		NULLC::copyMemory(&vmState.errorHandler, &prevErrorHandler, sizeof(jmp_buf));
+
 		// Disable signal handlers only from top-level Run
 		if(lastFinalReturn == 0)
 		{
-- 
2.43.0


From 196f1dcf9aae4782641c29d11241fa854ef4dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 05/88] fix: do not export unused temporary globals that have
 no storage

Garbage collector reads them as roots at an unassigned offset.
---
 NULLC/Compiler.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index a815c02..ea268da 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -867,6 +867,10 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
 			continue;
 
+		// Temporary variable that is not used has no storage
+		if(variable->isAlloca && variable->users.empty())
+			continue;
+
 		externVariableInfoCount++;
 
 		globalVarCount++;
@@ -1475,6 +1479,10 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
 			continue;
 
+		// Temporary variable that is not used has no storage
+		if(variable->isAlloca && variable->users.empty())
+			continue;
+
 		if(variable->scope != ctx.exprCtx.globalScope && !variable->scope->ownerNamespace)
 			continue;
 
@@ -1500,6 +1508,10 @@ unsigned GetBytecode(CompilerContext &ctx, char **bytecode)
 		if(!ctx.exprCtx.GlobalScopeFrom(variable->scope))
 			continue;
 
+		// Temporary variable that is not used has no storage
+		if(variable->isAlloca && variable->users.empty())
+			continue;
+
 		if(variable->scope == ctx.exprCtx.globalScope || variable->scope->ownerNamespace)
 			continue;
 
-- 
2.43.0


From 81ac375799f950835219d67344ec53c146b516c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 06/88] fix: do not write past the end of the result when an
 empty string is appended

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 7255232..02f79bc 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -980,7 +980,7 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 		return ret;
 
 	if(a.len)
-		memcpy(ret.ptr, a.ptr, a.len);
+		memcpy(ret.ptr, a.ptr, a.len - shift);
 
 	if(b.len)
 		memcpy(ret.ptr + a.len - shift, b.ptr, b.len);
-- 
2.43.0


From dce4ddc3e9b704af9043dfdb61fdded9752233e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 07/88] fix: keep pending results, errors and finalizable
 objects alive when a collection runs finalizers

A collection that starts while a result object, an error object or a try result
is being created runs finalizers, which overwrote the pending data. Objects
waiting for a finalizer were not roots, and a nested collection ran the
finalizers of the outer one again.
---
 NULLC/Executor_Common.cpp | 114 +++++++++++++++++++++++++-------------
 NULLC/Executor_Common.h   |   2 +
 NULLC/Executor_RegVm.cpp  |  18 ++++--
 NULLC/Executor_X86.cpp    |  18 ++++--
 NULLC/StdLib.cpp          |  50 +++++++++++++++--
 NULLC/StdLib.h            |   2 +
 NULLC/includes/error.cpp  |  28 +++++++---
 7 files changed, 169 insertions(+), 63 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index a193582..a49696f 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -42,6 +42,9 @@ namespace GC
 	// Range of memory that is not checked. Used to exclude pointers to stack from marking and GC
 	char	*unmanageableBase = NULL;
 	char	*unmanageableTop = NULL;
+
+	char	*pendingBase = NULL;
+	char	*pendingTop = NULL;
 }
 
 unsigned ConvertFromAutoRef(unsigned int target, unsigned int source)
@@ -994,6 +997,58 @@ int GC::IsPointerUnmanaged(NULLCRef ptr)
 	return ptr.ptr >= GC::unmanageableBase && ptr.ptr <= GC::unmanageableTop;
 }
 
+// Set memory outside of the executor stack that contains pointers to objects in use
+void GC::SetPendingData(char* base, unsigned size)
+{
+	GC::pendingBase = base;
+	GC::pendingTop = base + size;
+}
+
+// Mark everything that looks like a pointer to an object in the memory range
+void GC::MarkMemoryRange(char *tempStackBase, char *tempStackTop)
+{
+	while(tempStackBase + sizeof(void*) <= tempStackTop)
+	{
+		char *ptr = GC::ReadVmMemoryPointer(tempStackBase);
+
+		// Check for unmanageable ranges. Range of 0x00000000-0x00010000 is unmanageable by default due to upvalues with offsets inside closures.
+		if(ptr > (char*)0x00010000 && (ptr < GC::unmanageableBase || ptr > GC::unmanageableTop))
+		{
+			// Get pointer base
+			unsigned int *basePtr = (unsigned int*)NULLC::GetBasePointer(ptr);
+			// If there is no base, this pointer points to memory that is not GCs memory
+			if(basePtr)
+			{
+				GC_DEBUG_PRINT("\tGlobal pointer [stack] %p\n", ptr);
+
+				GC_DEBUG_PRINT("\tPointer base is %p\n", basePtr);
+
+				markerType *marker = (markerType*)((char*)basePtr - sizeof(markerType));
+
+				// Might step on a left-over pointer in stale registers
+				if(*marker & OBJECT_FREED)
+				{
+					tempStackBase += 4;
+					continue;
+				}
+
+				GC::PrintMarker(*marker);
+
+				// If block is unmarked, mark it as used
+				if(!(*marker & OBJECT_VISIBLE))
+				{
+					*marker |= OBJECT_VISIBLE;
+
+					GC_DEBUG_PRINT("\tMarked as used, checking content\n");
+
+					GC::CheckBasePointer((char*)basePtr);
+				}
+			}
+		}
+		tempStackBase += 4;
+	}
+}
+
 // Main function for marking all pointers in a program
 void GC::MarkUsedBlocks()
 {
@@ -1171,46 +1226,12 @@ void GC::MarkUsedBlocks()
 	assert(tempStackTop >= tempStackBase);
 
 	// Check temporary stack for pointers
-	while(tempStackBase + sizeof(void*) <= tempStackTop)
-	{
-		char *ptr = GC::ReadVmMemoryPointer(tempStackBase);
+	GC::MarkMemoryRange(tempStackBase, tempStackTop);
 
-		// Check for unmanageable ranges. Range of 0x00000000-0x00010000 is unmanageable by default due to upvalues with offsets inside closures.
-		if(ptr > (char*)0x00010000 && (ptr < GC::unmanageableBase || ptr > GC::unmanageableTop))
-		{
-			// Get pointer base
-			unsigned int *basePtr = (unsigned int*)NULLC::GetBasePointer(ptr);
-			// If there is no base, this pointer points to memory that is not GCs memory
-			if(basePtr)
-			{
-				GC_DEBUG_PRINT("\tGlobal pointer [stack] %p\n", ptr);
-
-				GC_DEBUG_PRINT("\tPointer base is %p\n", basePtr);
+	// Check data that is being copied into an object
+	GC::MarkMemoryRange(GC::pendingBase, GC::pendingTop);
 
-				markerType *marker = (markerType*)((char*)basePtr - sizeof(markerType));
-
-				// Might step on a left-over pointer in stale registers
-				if(*marker & OBJECT_FREED)
-				{
-					tempStackBase += 4;
-					continue;
-				}
-
-				GC::PrintMarker(*marker);
-
-				// If block is unmarked, mark it as used
-				if(!(*marker & OBJECT_VISIBLE))
-				{
-					*marker |= OBJECT_VISIBLE;
-
-					GC_DEBUG_PRINT("\tMarked as used, checking content\n");
-
-					GC::CheckBasePointer((char*)basePtr);
-				}
-			}
-		}
-		tempStackBase += 4;
-	}
+	NULLC::MarkFinalizers();
 
 	GC::MarkPendingRoots();
 }
@@ -1687,9 +1708,22 @@ NULLCRef GetExecutorResultObject(unsigned tempStackType, unsigned *tempStackArra
 		return result;
 	}
 
-	NULLCRef tmp = { tempStackType, (char*)tempStackArrayBase };
+	// Allocation might run finalizers that place their results in the same location
+	unsigned size = NULLC::commonLinker->exTypes[tempStackType].size;
 
-	return NULLC::CopyObject(tmp);
+	char *data = (char*)NULLC::alloc(size);
+	memcpy(data, tempStackArrayBase, size);
+
+	NULLCRef tmp = { tempStackType, data };
+
+	GC::SetPendingData(data, size);
+	NULLCRef result = NULLC::CopyObject(tmp);
+	GC::SetPendingData(NULL, 0);
+
+	memcpy(tempStackArrayBase, data, size);
+	NULLC::dealloc(data);
+
+	return result;
 }
 
 const char* GetExecutorResult(char *execResult, unsigned execResultSize, unsigned tempStackType, unsigned *tempStackArrayBase, char *exSymbols, ExternTypeInfo *exTypes)
diff --git a/NULLC/Executor_Common.h b/NULLC/Executor_Common.h
index 849de98..c9a67ed 100644
--- a/NULLC/Executor_Common.h
+++ b/NULLC/Executor_Common.h
@@ -35,6 +35,8 @@ namespace GC
 
 	void SetUnmanagableRange(char* base, unsigned int size);
 	int IsPointerUnmanaged(NULLCRef ptr);
+	void SetPendingData(char* base, unsigned size);
+	void MarkMemoryRange(char *tempStackBase, char *tempStackTop);
 	void MarkUsedBlocks();
 	void MarkPendingRoots();
 	void ResetGC();
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index bfef0da..932319e 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -382,6 +382,10 @@ void ExecutorRegVm::Stop(const char* error)
 
 void ExecutorRegVm::Stop(NULLCRef error)
 {
+	// Object allocation might run finalizers, so it has to be completed before the execution is stopped
+	if(nullcIsStackPointer(error.ptr))
+		error = NULLC::CopyObject(error);
+
 	codeRunning = false;
 
 	callContinue = false;
@@ -390,10 +394,7 @@ void ExecutorRegVm::Stop(NULLCRef error)
 
 	execErrorMessage = execErrorBuffer;
 
-	if(nullcIsStackPointer(error.ptr))
-		execErrorObject = NULLC::CopyObject(error);
-	else
-		execErrorObject = error;
+	execErrorObject = error;
 }
 
 void ExecutorRegVm::Resume()
@@ -1704,7 +1705,14 @@ unsigned ExecutorRegVm::GetResultType()
 
 NULLCRef ExecutorRegVm::GetResultObject()
 {
-	return GetExecutorResultObject(tempStackType, tempStackArrayBase);
+	unsigned resultType = tempStackType;
+
+	NULLCRef result = GetExecutorResultObject(resultType, tempStackArrayBase);
+
+	// Result is still available after the object is created
+	tempStackType = resultType;
+
+	return result;
 }
 
 const char* ExecutorRegVm::GetResult()
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index e59f2a6..5675c1c 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1163,6 +1163,10 @@ void ExecutorX86::Stop(const char* error)
 
 void ExecutorX86::Stop(NULLCRef error)
 {
+	// Object allocation might run finalizers, so it has to be completed before the execution is stopped
+	if(nullcIsStackPointer(error.ptr))
+		error = NULLC::CopyObject(error);
+
 	codeRunning = false;
 
 	callContinue = false;
@@ -1171,10 +1175,7 @@ void ExecutorX86::Stop(NULLCRef error)
 
 	execErrorMessage = execErrorBuffer;
 
-	if(nullcIsStackPointer(error.ptr))
-		execErrorObject = NULLC::CopyObject(error);
-	else
-		execErrorObject = error;
+	execErrorObject = error;
 }
 
 void ExecutorX86::Resume()
@@ -2099,7 +2100,14 @@ unsigned ExecutorX86::GetResultType()
 
 NULLCRef ExecutorX86::GetResultObject()
 {
-	return GetExecutorResultObject(vmState.tempStackType, vmState.tempStackArrayBase);
+	unsigned resultType = vmState.tempStackType;
+
+	NULLCRef result = GetExecutorResultObject(resultType, vmState.tempStackArrayBase);
+
+	// Result is still available after the object is created
+	vmState.tempStackType = resultType;
+
+	return result;
 }
 
 const char* ExecutorX86::GetResult()
diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 02f79bc..3cdb2fc 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -48,6 +48,8 @@ namespace NULLC
 {
 	static Linker	*linker = NULL;
 	FastVector<NULLCRef>	finalizeList;
+	FastVector<NULLCRef>	activeFinalizeList;
+	bool					finalizersActive = false;
 
 	static uintptr_t OBJECT_VISIBLE		= 1 << 0;
 	static uintptr_t OBJECT_FREED		= 1 << 1;
@@ -795,8 +797,44 @@ void NULLC::CollectMemory()
 	if(usedMemory + (usedMemory >> 1) >= collectableMinimum)
 		collectableMinimum <<= 1;
 
-	(void)nullcRunFunction("__finalizeObjects");
+	RunFinalizers();
+}
+
+void NULLC::MarkFinalizers()
+{
+	// Objects that wait for their finalizer are used even when they cannot be reached from the program
+	for(unsigned i = 0; i < finalizeList.size(); i++)
+		GC::CheckPointer((char*)&finalizeList[i].ptr);
+
+	for(unsigned i = 0; i < activeFinalizeList.size(); i++)
+		GC::CheckPointer((char*)&activeFinalizeList[i].ptr);
+}
+
+void NULLC::RunFinalizers()
+{
+	// When a finalizer starts a collection, new objects are handled after the current ones
+	if(finalizersActive)
+		return;
+
+	finalizersActive = true;
+
+	while(!finalizeList.empty())
+	{
+		activeFinalizeList.clear();
+
+		for(unsigned i = 0; i < finalizeList.size(); i++)
+			activeFinalizeList.push_back(finalizeList[i]);
+
+		finalizeList.clear();
+
+		if(!nullcRunFunction("__finalizeObjects"))
+			break;
+	}
+
+	activeFinalizeList.clear();
 	finalizeList.clear();
+
+	finalizersActive = false;
 }
 
 double NULLC::MarkTime()
@@ -816,8 +854,7 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
-	(void)nullcRunFunction("__finalizeObjects");
-	finalizeList.clear();
+	RunFinalizers();
 }
 
 void NULLC::ClearBlock(Range& curr)
@@ -846,6 +883,8 @@ void NULLC::ClearMemory()
 	blocksToFree.clear();
 
 	finalizeList.clear();
+	activeFinalizeList.clear();
+	finalizersActive = false;
 }
 
 void NULLC::ResetMemory()
@@ -858,6 +897,7 @@ void NULLC::ResetMemory()
 	blocksToFree.reset();
 
 	finalizeList.reset();
+	activeFinalizeList.reset();
 
 	GC::ResetGC();
 }
@@ -1545,8 +1585,8 @@ void NULLC::AssertCoroutine(NULLCRef f)
 NULLCArray NULLC::GetFinalizationList()
 {
 	NULLCArray arr;
-	arr.ptr = (char*)finalizeList.data;
-	arr.len = finalizeList.size();
+	arr.ptr = (char*)activeFinalizeList.data;
+	arr.len = activeFinalizeList.size();
 	return arr;
 }
 
diff --git a/NULLC/StdLib.h b/NULLC/StdLib.h
index 068b7c1..37e32fc 100644
--- a/NULLC/StdLib.h
+++ b/NULLC/StdLib.h
@@ -113,6 +113,8 @@ namespace NULLC
 	void AssertCoroutine(NULLCRef f);
 
 	NULLCArray GetFinalizationList();
+	void	MarkFinalizers();
+	void	RunFinalizers();
 
 	void	ArrayCopy(NULLCAutoArray dst, NULLCAutoArray src);
 
diff --git a/NULLC/includes/error.cpp b/NULLC/includes/error.cpp
index e175dfe..7c5d88c 100644
--- a/NULLC/includes/error.cpp
+++ b/NULLC/includes/error.cpp
@@ -3,6 +3,7 @@
 #include "../../NULLC/nullc.h"
 #include "../../NULLC/nullbind.h"
 #include "../../NULLC/nullc_debug.h"
+#include "../../NULLC/Allocator.h"
 
 namespace NULLCError
 {
@@ -42,18 +43,29 @@ namespace NULLCError
 
 		if(!nullcCallFunction(functionValue))
 		{
-			if(message)
-			{
-				const char *rawMessage = nullcGetLastError();
-				unsigned rawLength = unsigned(strlen(rawMessage));
+			*exception = nullcGetLastErrorObject();
 
-				*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawLength + 1);
-				strcpy(message->ptr, rawMessage);
-			}
+			const char *rawMessage = nullcGetLastError();
+			unsigned rawLength = unsigned(strlen(rawMessage));
 
-			*exception = nullcGetLastErrorObject();
+			// Error state has to be taken before it's cleared and cleared before memory is allocated, allocation might run finalizers
+			char *messageCopy = message ? (char*)NULLC::alloc(rawLength + 1) : NULL;
+
+			if(messageCopy)
+				memcpy(messageCopy, rawMessage, rawLength + 1);
 
 			nullcClearError();
+
+			if(messageCopy)
+			{
+				*message = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, rawLength + 1);
+
+				if(message->ptr)
+					memcpy(message->ptr, messageCopy, rawLength + 1);
+
+				NULLC::dealloc(messageCopy);
+			}
+
 			return false;
 		}
 
-- 
2.43.0


From 8cd6fec2e3cbf5813d56bfbdc2ddcb7fc8634c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 08/88] fix: do not use call and return microcode as
 instruction constants

Microcode is patched at link time (type and global offset remap), an integer
constant that shared its location was changed as well.
---
 NULLC/InstructionTreeRegVmLower.cpp | 32 ++++++++++++++++++-----------
 NULLC/InstructionTreeRegVmLower.h   |  7 ++++++-
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2648433..2d8df86 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -283,10 +283,10 @@ bool RegVmLoweredFunction::TransferRegisterTo(VmValue *value, unsigned char reg)
 
 unsigned RegVmLoweredModule::FindConstant(unsigned value)
 {
-	for(unsigned i = 0; i < constants.size(); i++)
+	for(unsigned i = 0; i < sharedConstants.size(); i++)
 	{
-		if(constants[i] == value)
-			return i + 1;
+		if(constants[sharedConstants[i]] == value)
+			return sharedConstants[i] + 1;
 	}
 
 	return 0;
@@ -294,15 +294,23 @@ unsigned RegVmLoweredModule::FindConstant(unsigned value)
 
 unsigned RegVmLoweredModule::FindConstant(unsigned value1, unsigned value2)
 {
-	for(unsigned i = 0; i + 1 < constants.size(); i += 2)
+	for(unsigned i = 0; i + 1 < sharedConstants.size(); i++)
 	{
-		if(constants[i] == value1 && constants[i + 1] == value2)
-			return i + 1;
+		unsigned pos = sharedConstants[i];
+
+		if(pos % 2 == 0 && sharedConstants[i + 1] == pos + 1 && constants[pos] == value1 && constants[pos + 1] == value2)
+			return pos + 1;
 	}
 
 	return 0;
 }
 
+void RegVmLoweredModule::AddSharedConstant(unsigned value)
+{
+	sharedConstants.push_back(constants.size());
+	constants.push_back(value);
+}
+
 unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value);
 
 void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFunction, RegVmLoweredBlock *lowBlock, SmallArray<unsigned char, 32> &result, VmValue *value)
@@ -509,7 +517,7 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 			unsigned index = lowModule->constants.size() + 1;
 
-			lowModule->constants.push_back(constant->iValue);
+			lowModule->AddSharedConstant(constant->iValue);
 
 			return index;
 		}
@@ -526,8 +534,8 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 			unsigned index = lowModule->constants.size() + 1;
 
-			lowModule->constants.push_back(data[0]);
-			lowModule->constants.push_back(data[1]);
+			lowModule->AddSharedConstant(data[0]);
+			lowModule->AddSharedConstant(data[1]);
 
 			return index;
 		}
@@ -547,8 +555,8 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 			unsigned index = lowModule->constants.size() + 1;
 
-			lowModule->constants.push_back(data[0]);
-			lowModule->constants.push_back(data[1]);
+			lowModule->AddSharedConstant(data[0]);
+			lowModule->AddSharedConstant(data[1]);
 
 			return index;
 		}
@@ -562,7 +570,7 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 			{
 				unsigned elementValue;
 				memcpy(&elementValue, constant->sValue + i * 4, 4);
-				lowModule->constants.push_back(elementValue);
+				lowModule->AddSharedConstant(elementValue);
 			}
 
 			return index;
diff --git a/NULLC/InstructionTreeRegVmLower.h b/NULLC/InstructionTreeRegVmLower.h
index 859d52e..70b3f3b 100644
--- a/NULLC/InstructionTreeRegVmLower.h
+++ b/NULLC/InstructionTreeRegVmLower.h
@@ -125,7 +125,7 @@ struct RegVmLoweredFunction
 
 struct RegVmLoweredModule
 {
-	RegVmLoweredModule(Allocator *allocator, VmModule *vmModule): allocator(allocator), vmModule(vmModule), functions(allocator), constants(allocator)
+	RegVmLoweredModule(Allocator *allocator, VmModule *vmModule): allocator(allocator), vmModule(vmModule), functions(allocator), constants(allocator), sharedConstants(allocator)
 	{
 	}
 
@@ -133,6 +133,8 @@ struct RegVmLoweredModule
 	unsigned FindConstant(unsigned value);
 	unsigned FindConstant(unsigned value1, unsigned value2);
 
+	void AddSharedConstant(unsigned value);
+
 	Allocator *allocator;
 
 	VmModule *vmModule;
@@ -140,6 +142,9 @@ struct RegVmLoweredModule
 	SmallArray<RegVmLoweredFunction*, 32> functions;
 
 	SmallArray<unsigned, 256> constants;
+
+	// Positions of constants that are operands of instructions, microcode can't be used as an operand because it is patched when a module is linked
+	SmallArray<unsigned, 256> sharedConstants;
 };
 
 RegVmLoweredModule* RegVmLowerModule(ExpressionContext &ctx, VmModule *module);
-- 
2.43.0


From 0baf96c11a2f104916bff4dd5f5102cc3e67cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:26 +0000
Subject: [PATCH 09/88] fix: do not move a load past a call that changes the
 global or past earlier stores

---
 NULLC/InstructionTreeVm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 6deb6f4..b21081a 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -6434,8 +6434,9 @@ bool IsReachableLoadValue(VmInstruction *user, VmInstruction *load)
 		case VM_INST_MEM_COPY:
 			return false;
 		case VM_INST_CALL:
-			if(loadAddressConstant && loadAddressConstant->container && !HasAddressTaken(loadAddressConstant->container))
-				return true;
+			// Global variable can be changed by the function, local variable can't be changed unless the address is taken
+			if(loadAddressConstant && loadAddressConstant->container && !IsGlobalScope(loadAddressConstant->container->scope) && !HasAddressTaken(loadAddressConstant->container))
+				break;
 
 			return false;
 		default:
-- 
2.43.0


From 92f6f11600f9ce82a8872b0ba902d556ef79638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 10/88] fix: keep a jump to the next block when it is followed
 by unreachable code

A loop body that always ends in break continued looping without optimizations.
---
 NULLC/InstructionTreeRegVmLower.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 2d8df86..92e7903 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -1658,8 +1658,8 @@ void LowerInstructionIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *low
 	}
 	break;
 	case VM_INST_JUMP:
-		// Check if jump is fall-through (except for fallthrough from empty entry block)
-		if(!(lowBlock->vmBlock->nextSibling && lowBlock->vmBlock->nextSibling == inst->arguments[0]) || (lowBlock->vmBlock->prevSibling == NULL && lowBlock->firstInstruction == NULL))
+		// Check if jump is fall-through (except for fallthrough from empty entry block and for a jump that is followed by unreachable code)
+		if(inst->nextSibling || !(lowBlock->vmBlock->nextSibling && lowBlock->vmBlock->nextSibling == inst->arguments[0]) || (lowBlock->vmBlock->prevSibling == NULL && lowBlock->firstInstruction == NULL))
 		{
 			lowBlock->AddInstruction(ctx, inst->source, rviJmp, 0, 0, 0, getType<VmBlock>(inst->arguments[0]));
 		}
-- 
2.43.0


From 1f3691698f8ad4ea4309ba3c149e902532254642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:12 +0000
Subject: [PATCH 11/88] fix: lower a null pointer with an offset as a constant

---
 NULLC/InstructionTreeRegVmLower.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index 92e7903..c0c18f8 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -357,8 +357,6 @@ void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFun
 
 		if(!constant->container)
 		{
-			assert(constant->iValue == 0);
-
 			if(NULLC_PTR_SIZE == 8)
 			{
 				unsigned constantIndex = TryLowerConstantToMemory(lowBlock, constant);
@@ -369,7 +367,7 @@ void LowerConstantIntoBlock(ExpressionContext &ctx, RegVmLoweredFunction *lowFun
 			}
 			else
 			{
-				lowBlock->AddInstruction(ctx, constant->source, rviLoadImm, targetReg, 0, 0, 0u);
+				lowBlock->AddInstruction(ctx, constant->source, rviLoadImm, targetReg, 0, 0, constant->iValue);
 			}
 		}
 		else
@@ -465,17 +463,15 @@ bool TryLowerConstantPushIntoBlock(RegVmLoweredBlock *lowBlock, VmValue *value)
 		{
 			if(!constant->container)
 			{
-				assert(constant->iValue == 0);
-
 				if(NULLC_PTR_SIZE == 8)
 				{
 					lowModule->constants.push_back(rvmiPushImmq);
-					lowModule->constants.push_back(0);
+					lowModule->constants.push_back(constant->iValue);
 				}
 				else
 				{
 					lowModule->constants.push_back(rvmiPushImm);
-					lowModule->constants.push_back(0);
+					lowModule->constants.push_back(constant->iValue);
 				}
 
 				return true;
@@ -509,9 +505,6 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 
 		if(constant->type == VmType::Int || (constant->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 4 && !constant->container))
 		{
-			if(constant->type.type == VM_TYPE_POINTER)
-				assert(constant->iValue == 0);
-
 			if(unsigned index = lowModule->FindConstant(constant->iValue))
 				return index;
 
@@ -541,12 +534,16 @@ unsigned TryLowerConstantToMemory(RegVmLoweredBlock *lowBlock, VmValue *value)
 		}
 		else if(constant->type == VmType::Long || (constant->type.type == VM_TYPE_POINTER && NULLC_PTR_SIZE == 8 && !constant->container))
 		{
-			if(constant->type.type == VM_TYPE_POINTER)
-				assert(constant->iValue == 0);
-
 			unsigned data[2];
 			memcpy(data, &constant->lValue, 8);
 
+			// Address without a container is a null pointer with an offset
+			if(constant->type.type == VM_TYPE_POINTER)
+			{
+				data[0] = unsigned(constant->iValue);
+				data[1] = 0;
+			}
+
 			if(unsigned index = lowModule->FindConstant(data[0], data[1]))
 				return index;
 
-- 
2.43.0


From a0e90bbde0f58023637e823a30ea521536180928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:01 +0000
Subject: [PATCH 12/88] fix: give an empty object a location inside of its
 memory block

---
 NULLC/StdLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 3cdb2fc..a48926a 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -435,6 +435,11 @@ void* NULLC::AllocObject(int size, unsigned type)
 #endif
 
 	void *data = NULL;
+
+	// Empty object still needs a location inside of its memory block
+	if(size == 0)
+		size += 4;
+
 	size += sizeof(markerType);
 
 	if((unsigned int)(usedMemory + size) > globalMemoryLimit)
-- 
2.43.0


From b5357600069c6cf898d1189758f1786dd024d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:56 +0000
Subject: [PATCH 13/88] fix: keep registers shared through phi instructions
 reserved for all dominated blocks

---
 NULLC/InstructionTreeRegVmLower.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/NULLC/InstructionTreeRegVmLower.cpp b/NULLC/InstructionTreeRegVmLower.cpp
index c0c18f8..4619fb2 100644
--- a/NULLC/InstructionTreeRegVmLower.cpp
+++ b/NULLC/InstructionTreeRegVmLower.cpp
@@ -3350,23 +3350,27 @@ void AllocateLiveInOutRegisters(ExpressionContext &ctx, RegVmLoweredFunction *lo
 		}
 	}
 
-	for(unsigned i = 0; i < reservedRegisters.size(); i++)
-	{
-		unsigned char reg = reservedRegisters[i];
-
-		assert(lowFunction->registerUsers[reg]);
-
-		lowFunction->registerUsers[reg]--;
-	}
-
 	// Proceed to children in dominance tree
 	for(unsigned i = 0; i < vmBlock->dominanceChildren.size(); i++)
 	{
 		VmBlock *curr = vmBlock->dominanceChildren[i];
 
+		// Registers of one child cannot be taken by another one, because they might be shared with a block that follows both of them through phi instructions
+		unsigned reservedCount = reservedRegisters.size();
+
+		for(unsigned k = 0; k < vmBlock->dominanceChildren.size(); k++)
+			CollectReservedRegisters(vmBlock->dominanceChildren[k], reservedRegisters, usedRegisters);
+
+		for(unsigned k = reservedCount; k < reservedRegisters.size(); k++)
+			lowFunction->registerUsers[reservedRegisters[k]]++;
+
 		AllocateLiveInOutRegisters(ctx, lowFunction, curr);
 	}
 
+	// Release registers reserved for children together with the registers of current block
+	for(unsigned i = 0; i < reservedRegisters.size(); i++)
+		usedRegisters.push_back(reservedRegisters[i]);
+
 	// Clear register users
 	for(unsigned i = 0; i < usedRegisters.size(); i++)
 	{
-- 
2.43.0


From 6f46e6bf12514e0f486927253282510ea0d0c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 14/88] fix: close every captured variable instance wherever it
 is in the upvalue list

---
 NULLC/StdLib.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index a48926a..564b365 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1682,19 +1682,28 @@ void NULLC::CloseUpvalue(void **upvalueList, void *variable, int offset, int siz
 		Upvalue *next;
 	};
 
-	Upvalue *upvalue = (Upvalue*)ReadVmMemoryPointer(upvalueList);
+	// Upvalues of other variable instances can be anywhere in the list, closures might be created after their parent variable is gone or while a different call is active
+	void *link = upvalueList;
+	Upvalue *upvalue = (Upvalue*)ReadVmMemoryPointer(link);
 
-	while (upvalue && ReadVmMemoryPointer(&upvalue->target) == variable)
+	while (upvalue)
 	{
 		Upvalue *next = (Upvalue*)ReadVmMemoryPointer(&upvalue->next);
 
-		char *copy = (char*)upvalue + offset;
-		memcpy(copy, variable, unsigned(size));
-		WriteVmMemoryPointer(&upvalue->target, copy);
-		WriteVmMemoryPointer(&upvalue->next, NULL);
+		if (ReadVmMemoryPointer(&upvalue->target) == variable)
+		{
+			char *copy = (char*)upvalue + offset;
+			memcpy(copy, variable, unsigned(size));
+			WriteVmMemoryPointer(&upvalue->target, copy);
+			WriteVmMemoryPointer(&upvalue->next, NULL);
+
+			WriteVmMemoryPointer(link, next);
+		}
+		else
+		{
+			link = &upvalue->next;
+		}
 
 		upvalue = next;
 	}
-
-	WriteVmMemoryPointer(upvalueList, upvalue);
 }
-- 
2.43.0


From b52b38f2c990d9676cab22858a2f6369e64cbf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:44 +0000
Subject: [PATCH 15/88] fix: add the call stack entry of an invalid function
 pointer call only once on x86

---
 NULLC/CodeGenRegVm_X86.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index 3d4f502..f447641 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2229,8 +2229,7 @@ void ErrorInvalidFunctionPointer(CodeGenRegVmStateContext *vmState)
 {
 	CodeGenRegVmContext &ctx = *vmState->ctx;
 
-	vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
-	vmState->callStackTop++;
+	// Call stack entry of this call is already in place
 
 	ctx.x86rvm->Stop("ERROR: invalid function pointer");
 	longjmp(vmState->errorHandler, 1);
-- 
2.43.0


From 21fc9b2db68c8847776e0520372898761c7d78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 16/88] fix: do not fold an addition of zero to a floating
 point value that can be -0.0

---
 NULLC/InstructionTreeVm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index b21081a..1508680 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -4310,15 +4310,15 @@ void RunPeepholeOptimizations(ExpressionContext &ctx, VmModule *module, VmValue*
 		switch(inst->cmd)
 		{
 		case VM_INST_ADD:
-			if(IsConstantZero(inst->arguments[0])) // 0 + x, all types
+			if(inst->type != VmType::Double && IsConstantZero(inst->arguments[0])) // 0 + x, all integer types (double can be -0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[1], &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x + 0, all types
+			else if(inst->type != VmType::Double && IsConstantZero(inst->arguments[1])) // x + 0, all integer types (double can be -0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_SUB:
 			if(DoesConstantIntegerMatch(inst->arguments[0], 0)) // 0 - x, integer types
 				ChangeInstructionTo(module, inst, VM_INST_NEG, inst->arguments[1], NULL, NULL, NULL, NULL, &module->peepholeOptimizations);
-			else if(IsConstantZero(inst->arguments[1])) // x - 0, all types
+			else if(inst->type != VmType::Double && IsConstantZero(inst->arguments[1])) // x - 0, all integer types (double constant can be -0.0)
 				ReplaceValueUsersWith(module, inst, inst->arguments[0], &module->peepholeOptimizations);
 			break;
 		case VM_INST_MUL:
-- 
2.43.0


From c096bf33b01bf3aabd7c69965a67dc4c6af3ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 17/88] fix: follow phi options only from the block of the phi
 in live set analysis

---
 NULLC/InstructionTreeVm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 1508680..294230a 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -2348,7 +2348,7 @@ void VmFunction::UpdateLiveSets(VmModule *module)
 
 				bool found = false;
 
-				if(liveIn->cmd == VM_INST_PHI)
+				if(liveIn->cmd == VM_INST_PHI && liveIn->parent == successor)
 				{
 					for(unsigned argument = 0; argument < liveIn->arguments.size(); argument += 2)
 					{
@@ -2357,7 +2357,7 @@ void VmFunction::UpdateLiveSets(VmModule *module)
 
 						if(edge == curr)
 						{
-							if(!curr->liveOut.contains(instruction))
+							if(instruction && !curr->liveOut.contains(instruction))
 								curr->liveOut.push_back(instruction);
 
 							found = true;
-- 
2.43.0


From 2cf3ccbb0e2073e97d830b76251e7621b002d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 18/88] fix: fill phi options for both edges of a conditional
 branch to the same block

---
 NULLC/InstructionTreeVm.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 294230a..3d46f22 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -6078,17 +6078,6 @@ void RenameMemoryToRegister(ExpressionContext &ctx, VmModule *module, VmBlock *b
 	{
 		VmBlock *successor = block->successors[i];
 
-		// Find which predecessor is the X for Y
-		unsigned j = ~0u;
-
-		for(unsigned k = 0; k < successor->predecessors.size() && j == ~0u; k++)
-		{
-			if(block == successor->predecessors[k])
-				j = k;
-		}
-
-		assert(j != ~0u);
-
 		// Find phi node for current variable
 		for(VmInstruction *inst = successor->firstInstruction; inst; inst = inst->nextSibling)
 		{
@@ -6098,6 +6087,14 @@ void RenameMemoryToRegister(ExpressionContext &ctx, VmModule *module, VmBlock *b
 
 			if(IsPhiOfVariable(inst, phiNodes))
 			{
+				// Find the option for this edge, both edges of a conditional branch might lead to the same successor
+				unsigned j = 0;
+
+				while(j < successor->predecessors.size() && (successor->predecessors[j] != block || inst->arguments[j * 2]))
+					j++;
+
+				assert(j != successor->predecessors.size());
+
 				inst->arguments[j * 2] = stack.back();
 
 				stack.back()->AddUse(inst);
-- 
2.43.0


From 8c27b420cc20a54c937dfe689ed2986145ac52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:53 +0000
Subject: [PATCH 19/88] fix: relocate global variables in return microcode

---
 NULLC/Linker.cpp | 32 ++++++++++++++++++++++++++++++++
 NULLC/Linker.h   |  1 +
 2 files changed, 33 insertions(+)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index e638069..d9c47ad 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -788,6 +788,9 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			cmd.argument += oldRegVmConstantsSize;
 
 			exRegVmConstants[cmd.argument] = typeRemap[exRegVmConstants[cmd.argument]];
+
+			if(cmd.rB != rvrVoid && cmd.rB != rvrError)
+				FixupReturnMicrocode(cmd.argument + 2, oldGlobalSize);
 			break;
 		case rviConvertPtr:
 			cmd.argument = typeRemap[cmd.argument];
@@ -1144,3 +1147,32 @@ void Linker::FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize)
 	}
 }
 
+void Linker::FixupReturnMicrocode(unsigned microcode, unsigned oldGlobalSize)
+{
+	while(exRegVmConstants[microcode] != rvmiReturn)
+	{
+		switch(exRegVmConstants[microcode++])
+		{
+		case rvmiPush:
+		case rvmiPushQword:
+		case rvmiPushImm:
+		case rvmiPushImmq:
+			microcode++;
+			break;
+		case rvmiPushMem:
+			if(exRegVmConstants[microcode] == rvrrGlobals)
+			{
+				unsigned &offset = exRegVmConstants[microcode + 1];
+
+				if(offset >> 24)
+					offset = (offset & 0x00ffffff) + exModules[moduleRemap[(offset >> 24) - 1]].variableOffset;
+				else
+					offset += oldGlobalSize;
+			}
+
+			microcode += 3;
+			break;
+		}
+	}
+}
+
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index cc8a3f6..2dd5848 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -25,6 +25,7 @@ public:
 	const char*	GetLinkError();
 
 	void	FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize);
+	void	FixupReturnMicrocode(unsigned microcode, unsigned oldGlobalSize);
 public:
 	char		linkError[LINK_ERROR_BUFFER_SIZE];
 
-- 
2.43.0


From 9a902c8c82769910d180e72f3bbf6482a8c7c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:58 +0000
Subject: [PATCH 20/88] fix: place code that follows a block terminator into a
 separate unreachable block

---
 NULLC/InstructionTreeVm.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 3d46f22..00cdaae 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -3612,6 +3612,20 @@ VmValue* CompileVmFunctionContextAccess(ExpressionContext &ctx, VmModule *module
 	return CheckType(ctx, node, value);
 }
 
+// Code that follows a block terminator is never executed, it is placed in a separate block so that control flow stays explicit
+void StartUnreachableBlock(VmModule *module, ExprBase *node)
+{
+	VmInstruction *lastInstruction = module->currentBlock->lastInstruction;
+
+	if(!lastInstruction || !IsBlockTerminator(lastInstruction->cmd))
+		return;
+
+	VmBlock *block = CreateBlock(module, node->source, "unreachable");
+
+	module->currentFunction->AddBlock(block);
+	module->currentBlock = block;
+}
+
 VmValue* CompileVmFunctionDefinition(ExpressionContext &ctx, VmModule *module, ExprFunctionDefinition *node)
 {
 	VmFunction *function = node->function->vmFunction;
@@ -3670,7 +3684,11 @@ VmValue* CompileVmFunctionDefinition(ExpressionContext &ctx, VmModule *module, E
 	}
 
 	for(ExprBase *value = node->expressions.head; value; value = value->next)
+	{
+		StartUnreachableBlock(module, value);
+
 		CompileVm(ctx, module, value);
+	}
 
 	CreateAbortNoReturn(module, NULL);
 
@@ -4062,7 +4080,11 @@ VmValue* CompileVmContinue(ExpressionContext &ctx, VmModule *module, ExprContinu
 VmValue* CompileVmBlock(ExpressionContext &ctx, VmModule *module, ExprBlock *node)
 {
 	for(ExprBase *value = node->expressions.head; value; value = value->next)
+	{
+		StartUnreachableBlock(module, value);
+
 		CompileVm(ctx, module, value);
+	}
 
 	if(node->closures)
 		CompileVm(ctx, module, node->closures);
@@ -4268,7 +4290,11 @@ VmModule* CompileVm(ExpressionContext &ctx, ExprBase *expression, const char *co
 			CompileVm(ctx, module, value);
 
 		for(ExprBase *value = node->expressions.head; value; value = value->next)
+		{
+			StartUnreachableBlock(module, value);
+
 			CompileVm(ctx, module, value);
+		}
 
 		module->functions.push_back(global);
 
-- 
2.43.0


From e10c1b18b774387a00839aba6be7c5402e9d95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 21/88] fix: keep coroutine restore points in different blocks
 in control flow optimization

---
 NULLC/InstructionTreeVm.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 00cdaae..b2a4f74 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5323,8 +5323,8 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 				assert(target);
 
-				// Do not replace block if it is an incoming phi instruction argument
-				bool hasPhiUser = false;
+				// Do not replace block if it is an incoming phi instruction argument or a separate coroutine restore point
+				bool hasRequiredUser = false;
 
 				for(unsigned i = 0; i < curr->users.size(); i++)
 				{
@@ -5332,13 +5332,20 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 					{
 						if(inst->cmd == VM_INST_PHI)
 						{
-							hasPhiUser = true;
+							hasRequiredUser = true;
+							break;
+						}
+
+						// Coroutine restore points must lead to different blocks, so that there is a single edge between two blocks
+						if(inst->cmd == VM_INST_UNYIELD && inst->arguments.contains(target))
+						{
+							hasRequiredUser = true;
 							break;
 						}
 					}
 				}
 
-				if(!hasPhiUser)
+				if(!hasRequiredUser)
 					ReplaceValueUsersWith(module, curr, target, &module->controlFlowSimplifications);
 			}
 
-- 
2.43.0


From 3ce595ff7ec30fac0c415131fbcdd67c334b4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 22/88] fix: fold conditional branches to the same block
 created by block removal

---
 NULLC/InstructionTreeVm.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index b2a4f74..8599c5c 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -5359,6 +5359,21 @@ void RunControlFlowOptimization(ExpressionContext &ctx, VmModule *module, VmValu
 
 			curr = next;
 		}
+
+		// Block removal could have made both targets of a conditional jump the same
+		for(VmBlock *curr = function->firstBlock; curr; curr = curr->nextSibling)
+		{
+			VmInstruction *currLastInst = curr->lastInstruction;
+
+			if(currLastInst && (currLastInst->cmd == VM_INST_JUMP_Z || currLastInst->cmd == VM_INST_JUMP_NZ))
+			{
+				VmValue *trueBlock = currLastInst->arguments[1];
+				VmValue *falseBlock = currLastInst->arguments[2];
+
+				if(trueBlock == falseBlock)
+					ChangeInstructionTo(module, currLastInst, VM_INST_JUMP, trueBlock, NULL, NULL, NULL, NULL, &module->controlFlowSimplifications);
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 7d4a3a8e2a710dcb8f04e8ed94d012f915bb18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 23/88] fix: keep x86 stores that precede an integer division
 that can fail

---
 NULLC/CodeGen_X86.cpp | 22 ++++++++++++++++++++++
 NULLC/CodeGen_X86.h   |  1 +
 2 files changed, 23 insertions(+)

diff --git a/NULLC/CodeGen_X86.cpp b/NULLC/CodeGen_X86.cpp
index 087239a..ba9cb6b 100644
--- a/NULLC/CodeGen_X86.cpp
+++ b/NULLC/CodeGen_X86.cpp
@@ -75,6 +75,23 @@ void CodeGenGenericContext::MemRead(const x86Argument &address)
 	}
 }
 
+// When execution can be stopped by an error, all previous memory writes outside of the register file can be observed
+void CodeGenGenericContext::MemReadByErrorExit()
+{
+	for(unsigned i = 0; i < memoryStateSize; i++)
+	{
+		MemCache &entry = memCache[i];
+
+		if(entry.address.type == x86Argument::argNone)
+			continue;
+
+		if(entry.address.ptrIndex == rNONE && entry.address.ptrBase == rEBX)
+			continue;
+
+		entry.read = true;
+	}
+}
+
 void CodeGenGenericContext::MemWrite(const x86Argument &address, const x86Argument &value)
 {
 	MemInvalidate(address);
@@ -923,6 +940,8 @@ void EMIT_OP_REG(CodeGenGenericContext &ctx, x86Command op, x86Reg reg1)
 	case o_idiv64:
 		// TODO: check if direct operation with memory is possible
 
+		ctx.MemReadByErrorExit();
+
 		ctx.ReadRegister(reg1);
 
 		ctx.ReadAndModifyRegister(rEAX);
@@ -1015,6 +1034,9 @@ void EMIT_OP_NUM(CodeGenGenericContext &ctx, x86Command op, unsigned num)
 		break;
 	case o_set_tracking:
 		ctx.skipTracking = num == 0;
+
+		if(ctx.skipTracking)
+			ctx.MemReadByErrorExit();
 		break;
 	default:
 		assert(!"unknown instruction");
diff --git a/NULLC/CodeGen_X86.h b/NULLC/CodeGen_X86.h
index 06d2c71..b01cfbc 100644
--- a/NULLC/CodeGen_X86.h
+++ b/NULLC/CodeGen_X86.h
@@ -57,6 +57,7 @@ struct CodeGenGenericContext
 	unsigned MemIntersectFind(const x86Argument &address);
 
 	void MemRead(const x86Argument &address);
+	void MemReadByErrorExit();
 	void MemWrite(const x86Argument &address, const x86Argument &value);
 	void MemInvalidate(const x86Argument &address);
 	void MemKillDeadStore(const x86Argument &address);
-- 
2.43.0


From c1290585539b82715a3b7ed814acd5a8c06366a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:26 +0000
Subject: [PATCH 24/88] fix: do not remove a store that is followed by an
 operation that can fail

---
 NULLC/InstructionTreeVm.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 8599c5c..3fd965f 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -136,6 +136,24 @@ namespace
 		return false;
 	}
 
+	// Instructions that might stop the execution with an error, memory state at that point is observable
+	bool HasErrorExit(VmInstructionType cmd)
+	{
+		switch(cmd)
+		{
+		case VM_INST_INDEX:
+		case VM_INST_INDEX_UNSIZED:
+		case VM_INST_DIV:
+		case VM_INST_MOD:
+		case VM_INST_CONVERT_POINTER:
+			return true;
+		default:
+			break;
+		}
+
+		return false;
+	}
+
 	bool IsLoad(VmInstructionType cmd)
 	{
 		switch(cmd)
@@ -5712,7 +5730,7 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 				// Walk up until a memory write is reached
 				VmInstruction *prev = curr->prevSibling;
 
-				while(prev && !HasMemoryAccess(prev->cmd))
+				while(prev && !HasMemoryAccess(prev->cmd) && !HasErrorExit(prev->cmd))
 					prev = prev->prevSibling;
 
 				if(prev && prev->cmd == curr->cmd)
-- 
2.43.0


From b9c8ced2f95e6c22fcc330ca369599786d7f50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 25/88] fix: round a value to float when a store to float
 variable is forwarded to a load

---
 NULLC/InstructionTreeVm.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/NULLC/InstructionTreeVm.cpp b/NULLC/InstructionTreeVm.cpp
index 3fd965f..8c99930 100644
--- a/NULLC/InstructionTreeVm.cpp
+++ b/NULLC/InstructionTreeVm.cpp
@@ -1690,6 +1690,21 @@ namespace
 		return NULL;
 	}
 
+	VmValue* GetValueRoundedToFloat(VmModule *module, VmValue* value)
+	{
+		if(VmConstant *constant = getType<VmConstant>(value))
+			return CreateConstantDouble(module->allocator, value->source, double(float(constant->dValue)));
+
+		// Value that was loaded from a float is not changed by the rounding
+		if(VmInstruction *inst = getType<VmInstruction>(value))
+		{
+			if(inst->cmd == VM_INST_LOAD_FLOAT)
+				return value;
+		}
+
+		return NULL;
+	}
+
 	VmValue* GetLoadStoreInfo(VmModule *module, VmValue *loadPointer, VmConstant *loadOffset, unsigned loadSize, unsigned accessSize, VmInstructionType loadCmd)
 	{
 		if(VmConstant *loadAddress = getType<VmConstant>(loadPointer))
@@ -1725,6 +1740,10 @@ namespace
 						if(value->type.size != loadSize)
 							return NULL;
 
+						// Value that is loaded back is rounded to float by the store
+						if(el.storeInst->cmd == VM_INST_STORE_FLOAT)
+							return GetValueRoundedToFloat(module, value);
+
 						return value;
 					}
 
@@ -5790,7 +5809,11 @@ void RunLoadStorePropagation(ExpressionContext &ctx, VmModule *module, VmValue *
 					VmConstant *storeOffset = getType<VmConstant>(prev->arguments[1]);
 					VmValue *storeValue = prev->arguments[2];
 
-					if(GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
+					// Value that is loaded back is rounded to float by the store
+					if(prev->cmd == VM_INST_STORE_FLOAT)
+						storeValue = GetValueRoundedToFloat(module, storeValue);
+
+					if(storeValue && GetAccessSize(prev) == GetAccessSize(curr) && storePointer == loadPointer && storeOffset->iValue == loadOffset->iValue && curr->type.size == storeValue->type.size)
 					{
 						if(curr->type != storeValue->type)
 						{
-- 
2.43.0


From 258e6c72d7eea4aab546af98fdc044cff2b3b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:04 +0000
Subject: [PATCH 26/88] fix: correct the inverted buffer bound assertion of the
 x86 instruction decoder

---
 NULLC/Instruction_X86.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/Instruction_X86.cpp b/NULLC/Instruction_X86.cpp
index 32bafc6..55e225f 100644
--- a/NULLC/Instruction_X86.cpp
+++ b/NULLC/Instruction_X86.cpp
@@ -207,7 +207,7 @@ int x86Argument::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bufSi
 			curr += NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf), "%lld", (long long)imm64Arg);
 	}
 
-	assert(buf + bufSize <= curr);
+	assert(curr <= buf + bufSize);
 	return int(curr - buf);
 }
 
@@ -274,6 +274,6 @@ int	x86Instruction::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bu
 		*curr = 0;
 	}
 
-	assert(buf + bufSize <= curr);
+	assert(curr <= buf + bufSize);
 	return int(curr - buf);
 }
-- 
2.43.0


From ead360663e0a8d7746a268e3d3ff063161c19e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 27/88] fix: mark all elements of auto[] and duplicated arrays
 during garbage collection

---
 NULLC/StdLib.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 564b365..045d867 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -942,11 +942,13 @@ void NULLC::CopyArray(NULLCAutoArray* dst, NULLCAutoArray src)
 		nullcThrowError("ERROR: null pointer access");
 		return;
 	}
+	NULLCArray data = AllocArray(linker->exTypes[src.typeID].size, src.len, src.typeID);
+
 	dst->typeID = src.typeID;
-	dst->len = src.len;
-	dst->ptr = (char*)NULLC::AllocObject(src.len * linker->exTypes[src.typeID].size, src.typeID);
+	dst->len = data.len;
+	dst->ptr = data.ptr;
 
-	if(src.len)
+	if(data.len)
 		memcpy(dst->ptr, src.ptr, unsigned(src.len * linker->exTypes[src.typeID].size));
 }
 
@@ -1510,9 +1512,11 @@ void NULLC::AutoArray(NULLCAutoArray* arr, int type, unsigned count)
 		return;
 	}
 
+	NULLCArray data = AllocArray(linker->exTypes[type].size, count, type);
+
 	arr->typeID = type;
-	arr->len = count;
-	arr->ptr = (char*)AllocObject(count * linker->exTypes[type].size, type);
+	arr->len = data.len;
+	arr->ptr = data.ptr;
 }
 
 void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
-- 
2.43.0


From 8263be3cf4e09a75d49e6594237a4c8ba9a03282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 28/88] fix: auto[] set past the grown size wrote one element
 outside of the array

---
 NULLC/StdLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 045d867..e435d96 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1537,7 +1537,7 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 	{
 		unsigned newSize = 1 + arr->len + (arr->len >> 1);
 		if(pos >= newSize)
-			newSize = pos;
+			newSize = pos == ~0u ? pos : pos + 1;
 		NULLCAutoArray n;
 		AutoArray(&n, arr->typeID, newSize);
 		if(!n.ptr)
-- 
2.43.0


From 1a0a1496c16135db80f611e8b56fb45aa0a57474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 29/88] fix: keep used memory below the limit when an object
 takes a whole pool block

---
 NULLC/StdLib.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index e435d96..8248fcb 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -442,11 +442,20 @@ void* NULLC::AllocObject(int size, unsigned type)
 
 	size += sizeof(markerType);
 
-	if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+	// Small objects occupy a whole pool block
+	unsigned int blockSize = size;
+	if(size <= 512)
+	{
+		blockSize = 8;
+		while(blockSize < (unsigned int)size)
+			blockSize *= 2;
+	}
+
+	if((unsigned int)(usedMemory + blockSize) > globalMemoryLimit)
 	{
 		CollectMemory();
 
-		if((unsigned int)(usedMemory + size) > globalMemoryLimit)
+		if((unsigned int)(usedMemory + blockSize) > globalMemoryLimit)
 		{
 			nullcThrowError("ERROR: reached global memory maximum");
 			return NULL;
-- 
2.43.0


From 7a258baccfd7dc46b3fd9de7a0fe9d609d2c857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 30/88] fix: return after reporting an error in coroutine and
 base type checks

---
 NULLC/StdLib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 8248fcb..3b41b27 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -1593,7 +1593,10 @@ int NULLC::IsCoroutineReset(NULLCRef f)
 void NULLC::AssertCoroutine(NULLCRef f)
 {
 	if(linker->exTypes[f.typeID].subCat != ExternTypeInfo::CAT_FUNCTION)
+	{
 		nullcThrowError("Argument is not a function");
+		return;
+	}
 
 	NULLCFuncPtr *fPtr = (NULLCFuncPtr*)f.ptr;
 	if(linker->exFunctions[fPtr->id].funcCat != ExternFuncInfo::COROUTINE)
@@ -1633,7 +1636,10 @@ void NULLC::ArrayCopy(NULLCAutoArray dst, NULLCAutoArray src)
 bool NULLC::IsDerivedFrom(NULLCRef derived, unsigned base)
 {
 	if((linker->exTypes[base].typeFlags & ExternTypeInfo::TYPE_IS_EXTENDABLE) == 0)
+	{
 		nullcThrowError("ERROR: type '%s' is not extendable", nullcGetTypeName(base));
+		return false;
+	}
 
 	unsigned typeId = derived.typeID;
 
-- 
2.43.0


From 1104ae1d17da0ab8c5de53b8da0bc26c75bbca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 31/88] fix: do not write through a failed allocation and do
 not account it

---
 NULLC/StdLib.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 3b41b27..93ce9b8 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -154,7 +154,10 @@ public:
 		}else{
 			if(lastNum == countInBlock)
 			{
-				MyLargeBlock* newPage = new(NULLC::alignedAlloc(sizeof(MyLargeBlock))) MyLargeBlock;
+				void *pageMemory = NULLC::alignedAlloc(sizeof(MyLargeBlock));
+				if(!pageMemory)
+					return NULL;
+				MyLargeBlock* newPage = new(pageMemory) MyLargeBlock;
 				memset(newPage, 0, sizeof(MyLargeBlock));
 				newPage->next = activePages;
 				activePages = newPage;
@@ -521,13 +524,14 @@ void* NULLC::AllocObject(int size, unsigned type)
 			}
 		}
 	}
-	usedMemory += realSize;
-
 	if(data == NULL)
 	{
 		nullcThrowError("ERROR: allocation failed");
 		return NULL;
 	}
+
+	usedMemory += realSize;
+
 	int finalize = 0;
 	if(type && (linker->exTypes[type].typeFlags & ExternTypeInfo::TYPE_HAS_FINALIZER))
 		finalize = (int)OBJECT_FINALIZABLE;
@@ -940,7 +944,8 @@ NULLCRef NULLC::CopyObject(NULLCRef ptr)
 	ret.typeID = ptr.typeID;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
-	memcpy(ret.ptr, ptr.ptr, objSize);
+	if(ret.ptr && objSize)
+		memcpy(ret.ptr, ptr.ptr, objSize);
 	return ret;
 }
 
@@ -983,7 +988,9 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
-	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, l.typeID);
+	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, 0);
+	if(!tmp)
+		return;
 	memcpy(tmp, l.ptr, size);
 	memcpy(l.ptr, r.ptr, size);
 	memcpy(r.ptr, tmp, size);
@@ -1033,7 +1040,10 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 	ret.len = a.len + b.len - shift;
 	ret.ptr = (char*)AllocObject(ret.len, NULLC_TYPE_CHAR);
 	if(!ret.ptr)
+	{
+		ret.len = 0;
 		return ret;
+	}
 
 	if(a.len)
 		memcpy(ret.ptr, a.ptr, a.len - shift);
@@ -1046,7 +1056,10 @@ NULLCArray NULLC::StrConcatenate(NULLCArray a, NULLCArray b)
 
 NULLCArray NULLC::StrConcatenateAndSet(NULLCArray *a, NULLCArray b)
 {
-	return *a = StrConcatenate(*a, b);
+	NULLCArray ret = StrConcatenate(*a, b);
+	if(ret.ptr)
+		*a = ret;
+	return ret;
 }
 
 int NULLC::Char(char a)
@@ -1121,6 +1134,8 @@ NULLCArray NULLC::ShortToStr(short* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1157,6 +1172,8 @@ NULLCArray NULLC::IntToStr(int* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1206,6 +1223,8 @@ NULLCArray NULLC::LongToStr(long long* r)
 	if(sign)
 		*curr++ = '-';
 	arr = AllocArray(1, (int)(curr - buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	char *str = arr.ptr;
 	do 
 	{
@@ -1232,6 +1251,8 @@ NULLCArray NULLC::FloatToStr(int precision, bool exponent, float* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
@@ -1253,6 +1274,8 @@ NULLCArray NULLC::DoubleToStr(int precision, bool exponent, double* r)
 	char buf[256];
 	SafeSprintf(buf, 256, exponent ? "%.*e" : "%.*f", precision, *r);
 	arr = AllocArray(1, (int)strlen(buf) + 1, NULLC_TYPE_CHAR);
+	if(!arr.ptr)
+		return arr;
 	memcpy(arr.ptr, buf, arr.len);
 	return arr;
 }
-- 
2.43.0


From 54a9f4c2d3e51375ff9190a800d5cdf0f2e0424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 32/88] fix: report null pointer access in duplicate, replace,
 swap, equal, assign and auto[] set

---
 NULLC/StdLib.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 93ce9b8..80c3262 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -942,7 +942,13 @@ NULLCRef NULLC::CopyObject(NULLCRef ptr)
 {
 	NULLCRef ret;
 	ret.typeID = ptr.typeID;
+	ret.ptr = NULL;
 	unsigned int objSize = linker->exTypes[ret.typeID].size;
+	if(!ptr.ptr && objSize)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return ret;
+	}
 	ret.ptr = (char*)AllocObject(objSize, ptr.typeID);
 	if(ret.ptr && objSize)
 		memcpy(ret.ptr, ptr.ptr, objSize);
@@ -973,6 +979,11 @@ NULLCRef NULLC::ReplaceObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: cannot convert from %s ref to %s ref", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return l;
 	}
+	if((!l.ptr || !r.ptr) && linker->exTypes[r.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return l;
+	}
 	memcpy(l.ptr, r.ptr, linker->exTypes[r.typeID].size);
 	return l;
 }
@@ -986,6 +997,12 @@ void NULLC::SwapObjects(NULLCRef l, NULLCRef r)
 	}
 	unsigned size = linker->exTypes[l.typeID].size;
 
+	if((!l.ptr || !r.ptr) && size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+
 	char tmpStack[512];
 	// $$ should use some extendable static storage for big objects
 	char *tmp = size < 512 ? tmpStack : (char*)NULLC::AllocObject(size, 0);
@@ -1003,6 +1020,11 @@ int NULLC::CompareObjects(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: types don't match (%s ref, %s ref)", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return 0;
 	}
+	if((!l.ptr || !r.ptr) && linker->exTypes[l.typeID].size)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return 0;
+	}
 	return 0 == memcmp(l.ptr, r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -1013,6 +1035,11 @@ void NULLC::AssignObject(NULLCRef l, NULLCRef r)
 		nullcThrowError("ERROR: can't assign value of type %s to a pointer of type %s", &linker->exSymbols[linker->exTypes[r.typeID].offsetToName], &linker->exSymbols[linker->exTypes[l.typeID].offsetToName]);
 		return;
 	}
+	if(!l.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
 	memcpy(l.ptr, &r.ptr, linker->exTypes[l.typeID].size);
 }
 
@@ -1564,6 +1591,12 @@ void NULLC::AutoArraySet(NULLCRef x, unsigned pos, NULLCAutoArray* arr)
 		return;
 	}
 
+	if(!x.ptr)
+	{
+		nullcThrowError("ERROR: null pointer access");
+		return;
+	}
+
 	unsigned elemSize = linker->exTypes[arr->typeID].size;
 	if(pos >= arr->len)
 	{
-- 
2.43.0


From d228b7e5c4fc8ef3cc64849c7c50ada9e854a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:02 +0000
Subject: [PATCH 33/88] fix: enable collections again after a checked return in
 x86 code

---
 NULLC/CodeGenRegVm_X86.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index f447641..ee49291 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2356,7 +2356,7 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
 
-		NULLC::SetCollectMemory(false);
+		NULLC::SetCollectMemory(true);
 	}
 }
 
-- 
2.43.0


From db64dc3020eeeddd8c66f94822baa9949f9a809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:15 +0000
Subject: [PATCH 34/88] fix: stop when the copy made by a checked return can't
 be allocated

---
 NULLC/CodeGenRegVm_X86.cpp | 20 ++++++++++++++++++++
 NULLC/Executor_RegVm.cpp   | 28 +++++++++++++++++++++++++---
 NULLC/Executor_RegVm.h     |  2 +-
 3 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/NULLC/CodeGenRegVm_X86.cpp b/NULLC/CodeGenRegVm_X86.cpp
index ee49291..65a0018 100644
--- a/NULLC/CodeGenRegVm_X86.cpp
+++ b/NULLC/CodeGenRegVm_X86.cpp
@@ -2321,6 +2321,16 @@ void GenCodeCmdCallPtr(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 	GetCodeCmdCallEpilogue(ctx, microcode, resultReg, resultType);
 }
 
+void CheckedReturnFailWrap(CodeGenRegVmStateContext *vmState)
+{
+	NULLC::SetCollectMemory(true);
+
+	vmState->callStackTop->instruction = vmState->callInstructionPos + 1;
+	vmState->callStackTop++;
+
+	longjmp(vmState->errorHandler, 1);
+}
+
 void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, unsigned typeId)
 {
 	CodeGenRegVmContext &ctx = *vmState->ctx;
@@ -2344,6 +2354,10 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			char *copy = (char*)NULLC::AllocObject(ctx.exTypes[type.subType].size * length, type.subType);
+
+			if(!copy)
+				CheckedReturnFailWrap(vmState);
+
 			memcpy(copy, ptr, unsigned(ctx.exTypes[type.subType].size * length));
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
@@ -2352,6 +2366,10 @@ void CheckedReturnWrap(CodeGenRegVmStateContext *vmState, uintptr_t frameBase, u
 			unsigned objSize = type.size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+
+			if(!copy)
+				CheckedReturnFailWrap(vmState);
+
 			memcpy(copy, ptr, objSize);
 			memcpy(returnValuePtr, &copy, sizeof(copy));
 		}
@@ -2472,6 +2490,7 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		if(cmd.rC)
 		{
 			EMIT_OP_REG_NUM64(ctx.ctx, o_mov64, rArg1, uintptr_t(ctx.vmState));
+			EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, rArg1, unsigned(uintptr_t(&ctx.vmState->callInstructionPos) - uintptr_t(ctx.vmState)), ctx.currInstructionPos);
 			EMIT_OP_REG_REG(ctx.ctx, o_mov64, rArg2, rR15);
 			EMIT_OP_REG_NUM(ctx.ctx, o_mov, rArg3, typeId);
 			EMIT_REG_READ(ctx.ctx, rArg2);
@@ -2569,6 +2588,7 @@ void GenCodeCmdReturn(CodeGenRegVmContext &ctx, RegVmCmd cmd)
 		// Checked return value
 		if(cmd.rC)
 		{
+			EMIT_OP_RPTR_NUM(ctx.ctx, o_mov, sDWORD, uintptr_t(&ctx.vmState->callInstructionPos), ctx.currInstructionPos);
 			EMIT_OP_NUM(ctx.ctx, o_push, typeId);
 			EMIT_OP_REG(ctx.ctx, o_push, rESI);
 			EMIT_OP_NUM(ctx.ctx, o_push, uintptr_t(ctx.vmState));
diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 932319e..9d49098 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1614,8 +1614,12 @@ RegVmReturnType ExecutorRegVm::ExecReturn(const RegVmCmd cmd, RegVmCmd * const i
 			}
 		}
 
-		if(cmd.rC)
-			ExecCheckedReturn(typeId, regFilePtr);
+		if(cmd.rC && !ExecCheckedReturn(typeId, regFilePtr))
+		{
+			callStack.push_back(instruction + 1);
+
+			return rvrError;
+		}
 	}
 
 	if(callStack.size() == lastFinalReturn)
@@ -1652,7 +1656,7 @@ bool ExecutorRegVm::ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruct
 	return true;
 }
 
-void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
+bool ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr)
 {
 	uintptr_t frameBase = regFilePtr[rvrrFrame].ptrValue;
 	uintptr_t frameEnd = regFilePtr[rvrrGlobals].ptrValue + dataStack.size();
@@ -1673,6 +1677,14 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned length = *(int*)(returnValuePtr + sizeof(void*));
 
 			char *copy = (char*)NULLC::AllocObject(exLinker->exTypes[type.subType].size * length, type.subType);
+
+			if(!copy)
+			{
+				NULLC::SetCollectMemory(true);
+
+				return false;
+			}
+
 			memcpy(copy, ptr, unsigned(exLinker->exTypes[type.subType].size * length));
 			vmStorePointer(returnValuePtr, copy);
 		}
@@ -1681,12 +1693,22 @@ void ExecutorRegVm::ExecCheckedReturn(unsigned typeId, RegVmRegister * const reg
 			unsigned objSize = type.size;
 
 			char *copy = (char*)NULLC::AllocObject(objSize, typeId);
+
+			if(!copy)
+			{
+				NULLC::SetCollectMemory(true);
+
+				return false;
+			}
+
 			memcpy(copy, ptr, objSize);
 			vmStorePointer(returnValuePtr, copy);
 		}
 
 		NULLC::SetCollectMemory(true);
 	}
+
+	return true;
 }
 
 RegVmReturnType ExecutorRegVm::ExecError(RegVmCmd * const instruction, const char *errorMessage)
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index fe9aad7..1f513cb 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -109,7 +109,7 @@ private:
 	bool ExecCall(unsigned microcodePos, unsigned functionId, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	RegVmReturnType ExecReturn(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	bool ExecConvertPtr(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
-	void ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
+	bool ExecCheckedReturn(unsigned typeId, RegVmRegister * const regFilePtr);
 
 	RegVmReturnType ExecError(RegVmCmd * const instruction, const char *errorMessage);
 
-- 
2.43.0


From a5e53e53d1d649d5ff2b2fca9efb0292beee05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:34 +0000
Subject: [PATCH 35/88] fix: check the result of allocations in standard
 modules and for float results

---
 NULLC/Executor_Common.cpp |  3 +++
 NULLC/includes/memory.cpp | 21 +++++++++++++++++++++
 NULLC/includes/pugi.cpp   | 38 ++++++++++++++++++++++++++++----------
 NULLC/includes/vector.cpp |  4 ++++
 4 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index a49696f..b049cb3 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -1691,6 +1691,9 @@ NULLCRef GetExecutorResultObject(unsigned tempStackType, unsigned *tempStackArra
 		// 'float' is placed as a 'double' value on the stack
 		NULLCRef result = { NULLC_TYPE_FLOAT, (char*)nullcAllocateTyped(NULLC_TYPE_FLOAT) };
 
+		if(!result.ptr)
+			return result;
+
 		double tmpDouble;
 		memcpy(&tmpDouble, tempStackArrayBase, sizeof(tmpDouble));
 
diff --git a/NULLC/includes/memory.cpp b/NULLC/includes/memory.cpp
index 6d8e886..bf22a08 100644
--- a/NULLC/includes/memory.cpp
+++ b/NULLC/includes/memory.cpp
@@ -128,6 +128,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_BOOL, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(bool) * elements);
 		return result;
 	}
@@ -141,6 +144,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_CHAR, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(char) * elements);
 		return result;
 	}
@@ -154,6 +160,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_SHORT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(short) * elements);
 		return result;
 	}
@@ -167,6 +176,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_INT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(int) * elements);
 		return result;
 	}
@@ -180,6 +192,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_LONG, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(long long) * elements);
 		return result;
 	}
@@ -193,6 +208,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_FLOAT, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(float) * elements);
 		return result;
 	}
@@ -206,6 +224,9 @@ namespace NULLCMemory
 
 		result = nullcAllocateArrayTyped(NULLC_TYPE_DOUBLE, elements);
 
+		if(!result.ptr)
+			return result;
+
 		memcpy(result.ptr, buffer.ptr + offset, sizeof(double) * elements);
 		return result;
 	}
diff --git a/NULLC/includes/pugi.cpp b/NULLC/includes/pugi.cpp
index ad79817..5e5def5 100644
--- a/NULLC/includes/pugi.cpp
+++ b/NULLC/includes/pugi.cpp
@@ -798,10 +798,14 @@ namespace NULLCPugiXML
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
-			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
-			::new(doc) pugi::xml_document();
+			doc = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
+			document->impl->document = ::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_string(contents.ptr, options);
 		return res;
 	}
@@ -812,10 +816,14 @@ namespace NULLCPugiXML
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
-			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
-			::new(doc) pugi::xml_document();
+			doc = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
+			document->impl->document = ::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_file(name.ptr, options, encoding);
 		return res;
 	}
@@ -826,10 +834,14 @@ namespace NULLCPugiXML
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
-			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
-			::new(doc) pugi::xml_document();
+			doc = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
+			document->impl->document = ::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_buffer(contents.ptr, size, options, encoding);
 		return res;
 	}
@@ -840,10 +852,14 @@ namespace NULLCPugiXML
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
-			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
-			::new(doc) pugi::xml_document();
+			doc = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return NULL;
+			document->impl->document = ::new(doc) pugi::xml_document();
 		}
 		xml_parse_result *res = (xml_parse_result*)nullcAllocate(sizeof(xml_parse_result));
+		if(!res)
+			return NULL;
 		*res = doc->load_buffer_inplace(contents.ptr, size, options, encoding);
 		return res;
 	}
@@ -879,8 +895,10 @@ namespace NULLCPugiXML
 		pugi::xml_document *doc = document->impl->document;
 		if(!doc)
 		{
-			doc = document->impl->document = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
-			::new(doc) pugi::xml_document();
+			doc = (pugi::xml_document*)nullcAllocate(sizeof(pugi::xml_document));
+			if(!doc)
+				return xml_node();
+			document->impl->document = ::new(doc) pugi::xml_document();
 		}
 		xml_node ret;
 		ret.node = doc->root();
diff --git a/NULLC/includes/vector.cpp b/NULLC/includes/vector.cpp
index 11b5bab..a15b66c 100644
--- a/NULLC/includes/vector.cpp
+++ b/NULLC/includes/vector.cpp
@@ -143,6 +143,10 @@ namespace NULLCVector
 	void VectorResize(unsigned int size, vector* vec)
 	{
 		VectorReserve(size, vec);
+
+		if(size > vec->data.len)
+			return;
+
 		vec->size = size;
 	}
 
-- 
2.43.0


From 446abfda72968fb00873986a89b8db62c667080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:57 +0000
Subject: [PATCH 36/88] fix: pass the remaining buffer size when x86
 instruction arguments are printed

---
 NULLC/Instruction_X86.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/NULLC/Instruction_X86.cpp b/NULLC/Instruction_X86.cpp
index 55e225f..c5310a1 100644
--- a/NULLC/Instruction_X86.cpp
+++ b/NULLC/Instruction_X86.cpp
@@ -224,10 +224,8 @@ int	x86Instruction::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bu
 	}
 	else if(name == o_other)
 	{
-		strcpy(curr, "  ; ");
-		curr += strlen(curr);
-
-		strcpy(curr, comment);
+		// Comment can contain names of any length
+		NULLC::SafeSprintf(curr, bufSize - unsigned(curr - buf) - 2, "  ; %s", comment);
 		curr += strlen(curr);
 	}
 	else
@@ -251,7 +249,7 @@ int	x86Instruction::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bu
 			bool usex64 = name >= o_mov64 || name == o_movsxd || ((argA.type == x86Argument::argPtr || name == o_call || name == o_push || name == o_pop) && sizeof(void*) == 8) || (argB.type == x86Argument::argPtr && argB.ptrSize == sQWORD && name != o_cvttsd2si);
 			bool useMmWord = ctx.vsAsmStyle && argB.type == x86Argument::argXmmReg;
 
-			curr += argA.Decode(ctx, curr, bufSize, usex64, useMmWord, name == o_lea);
+			curr += argA.Decode(ctx, curr, bufSize - unsigned(curr - buf), usex64, useMmWord, name == o_lea);
 		}
 		if(argB.type != x86Argument::argNone)
 		{
@@ -263,7 +261,7 @@ int	x86Instruction::Decode(CodeGenRegVmStateContext &ctx, char *buf, unsigned bu
 			bool usex64 = name >= o_mov64 || (argB.type == x86Argument::argPtr && sizeof(void*) == 8) || name == o_movsxd || (argA.type == x86Argument::argPtr && argA.ptrSize == sQWORD);
 			bool useMmWord = ctx.vsAsmStyle && (argA.type == x86Argument::argXmmReg || name == o_cvttsd2si || name == o_cvttsd2si64);
 
-			curr += argB.Decode(ctx, curr, bufSize, usex64, useMmWord, name == o_lea);
+			curr += argB.Decode(ctx, curr, bufSize - unsigned(curr - buf), usex64, useMmWord, name == o_lea);
 		}
 	}
 
-- 
2.43.0


From ede8c827ffacd8132d3d24b379036f8a552b8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:07 +0000
Subject: [PATCH 37/88] fix: drop pending blocks when memory is finalized so
 that collections in finalizers don't free them twice

---
 NULLC/StdLib.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 80c3262..0919ce4 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -872,6 +872,17 @@ void NULLC::FinalizeMemory()
 	CollectUnmarked();
 	FinalizePending();
 
+	// Blocks are not freed here, a collection started by a finalizer finds the ones that are unreachable
+	blocksToFree.clear();
+
+	pool8.objectsToFree.clear();
+	pool16.objectsToFree.clear();
+	pool32.objectsToFree.clear();
+	pool64.objectsToFree.clear();
+	pool128.objectsToFree.clear();
+	pool256.objectsToFree.clear();
+	pool512.objectsToFree.clear();
+
 	RunFinalizers();
 }
 
-- 
2.43.0


From eea6deefe6f31daba0b0340962ec4676ae732d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:05 +0000
Subject: [PATCH 38/88] fix: finalize remaining objects when a finalizer fails

---
 NULLC/Compiler.cpp |  6 +++++-
 NULLC/StdLib.cpp   | 21 +++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index ea268da..c4d843a 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -143,8 +143,12 @@ class __FinalizeProxy{ void finalize(){} }\r\n\
 void	__finalizeObjects()\r\n\
 {\r\n\
 	auto l = __getFinalizeList();\r\n\
-	for(i in l)\r\n\
+	for(int k = 0; k < l.size; k++)\r\n\
+	{\r\n\
+		auto ref i = l[k];\r\n\
+		l[k] = nullptr;\r\n\
 		i.finalize();\r\n\
+	}\r\n\
 }\r\n\
 bool operator in(generic x, typeof(x)[] arr)\r\n\
 {\r\n\
diff --git a/NULLC/StdLib.cpp b/NULLC/StdLib.cpp
index 0919ce4..074017e 100644
--- a/NULLC/StdLib.cpp
+++ b/NULLC/StdLib.cpp
@@ -846,11 +846,19 @@ void NULLC::RunFinalizers()
 		finalizeList.clear();
 
 		if(!nullcRunFunction("__finalizeObjects"))
+		{
+			// Objects that were not handled because of the error remain in the list
+			for(unsigned i = 0; i < activeFinalizeList.size(); i++)
+			{
+				if(activeFinalizeList[i].ptr)
+					finalizeList.push_back(activeFinalizeList[i]);
+			}
+
 			break;
+		}
 	}
 
 	activeFinalizeList.clear();
-	finalizeList.clear();
 
 	finalizersActive = false;
 }
@@ -883,7 +891,16 @@ void NULLC::FinalizeMemory()
 	pool256.objectsToFree.clear();
 	pool512.objectsToFree.clear();
 
-	RunFinalizers();
+	// Finalizer that fails must not prevent other objects from being finalized
+	while(!finalizersActive && !finalizeList.empty())
+	{
+		unsigned pending = finalizeList.size();
+
+		RunFinalizers();
+
+		if(finalizeList.size() >= pending)
+			break;
+	}
 }
 
 void NULLC::ClearBlock(Range& curr)
-- 
2.43.0


From 9bc917fcc0e955eb44adc64b481c3f0210cffb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:22 +0000
Subject: [PATCH 39/88] fix: remove a namespace variable with a broken
 initializer from the scope it was added to

---
 NULLC/ExpressionTree.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index eea27c5..6e360f2 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -8472,7 +8472,12 @@ ExprBase* AnalyzeVariableDefinition(ExpressionContext &ctx, SynVariableDefinitio
 		if(isType<TypeError>(initializer->type))
 		{
 			if(!conflict)
-				ctx.scope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+			{
+				if(ctx.scope->type == SCOPE_NAMESPACE)
+					ctx.globalScope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+				else
+					ctx.scope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+			}
 
 			return new (ctx.get<ExprError>()) ExprError(syntax, ctx.GetErrorType(), initializer);
 		}
@@ -8484,7 +8489,12 @@ ExprBase* AnalyzeVariableDefinition(ExpressionContext &ctx, SynVariableDefinitio
 		if(isType<TypeError>(initializer->type))
 		{
 			if(!conflict)
-				ctx.scope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+			{
+				if(ctx.scope->type == SCOPE_NAMESPACE)
+					ctx.globalScope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+				else
+					ctx.scope->idLookupMap.remove(variable->nameHash, IdentifierLookupResult(variable));
+			}
 
 			return new (ctx.get<ExprError>()) ExprError(syntax, ctx.GetErrorType(), initializer);
 		}
-- 
2.43.0


From 5392eb684673961b265efe214bfbd562f2d108a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:30 +0000
Subject: [PATCH 40/88] fix: keep the linked program when a module is loaded
 from source

---
 NULLC/nullc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 5e2b026..3df8331 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -447,7 +447,12 @@ nullres nullcLoadModuleBySource(const char* module, const char* code)
 
 	char *bytecode = NULL;
 	nullcGetBytecode(&bytecode);
-	nullcClean();
+
+	// Code that is already linked has to remain
+	NULLC::destruct(compilerCtx);
+	compilerCtx = NULL;
+
+	allocator.Clear();
 
 	BinaryCache::PutBytecode(path, bytecode, NULL, 0);
 	return 1;
-- 
2.43.0


From fb6f90dd25d0a94889efef9e7a0eb74b52b5e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:30 +0000
Subject: [PATCH 41/88] fix: allocate the copy of a binary module the way the
 module cache releases it

---
 NULLC/nullc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 3df8331..0be9ed7 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -486,7 +486,7 @@ nullres nullcLoadModuleByBinary(const char* module, const char* binary)
 		return false;
 	}
 	// Duplicate binary
-	char *copy = (char*)NULLC::alloc(((ByteCode*)binary)->size);
+	char *copy = new char[((ByteCode*)binary)->size];
 	memcpy(copy, binary, ((ByteCode*)binary)->size);
 	binary = copy;
 	// Load it into cache
-- 
2.43.0


From 61cd1c8580653b47e176b02761858bd85e977e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:20 +0000
Subject: [PATCH 42/88] fix: reset the file release function together with the
 file load function

---
 NULLC/nullc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 0be9ed7..d5d8910 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -101,6 +101,7 @@ nullres nullcInitCustomAlloc(void* (*allocFunc)(int), void (*deallocFunc)(void*)
 	NULLC::alloc = allocFunc ? allocFunc : NULLC::defaultAlloc;
 	NULLC::dealloc = deallocFunc ? deallocFunc : NULLC::defaultDealloc;
 	NULLC::fileLoad = NULLC::defaultFileLoad;
+	NULLC::fileFree = NULLC::defaultFileFree;
 
 	errorBuf = (char*)NULLC::alloc(NULLC_ERROR_BUFFER_SIZE);
 	outputBuf = (char*)NULLC::alloc(NULLC_OUTPUT_BUFFER_SIZE);
-- 
2.43.0


From 08b9b3f47cf99d76da2444d29768006b3244a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:20 +0000
Subject: [PATCH 43/88] fix: keep the order of import paths when one is removed

---
 NULLC/BinaryCache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NULLC/BinaryCache.cpp b/NULLC/BinaryCache.cpp
index 1ce84ea..bd17a56 100644
--- a/NULLC/BinaryCache.cpp
+++ b/NULLC/BinaryCache.cpp
@@ -41,7 +41,10 @@ void BinaryCache::RemoveImportPath(const char* path)
 		{
 			NULLC::dealloc(importPaths[i]);
 
-			importPaths[i] = importPaths.back();
+			// Paths are checked in the order they were added
+			for(unsigned k = i + 1; k < importPaths.size(); k++)
+				importPaths[k - 1] = importPaths[k];
+
 			importPaths.pop_back();
 			return;
 		}
-- 
2.43.0


From 19a5fa83ff232ee08e920e19a3acd03d5d535745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:20 +0000
Subject: [PATCH 44/88] fix: resolve imports of a module loaded for binding
 from the folder of the module

---
 NULLC/Compiler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/NULLC/Compiler.cpp b/NULLC/Compiler.cpp
index c4d843a..a3132cd 100644
--- a/NULLC/Compiler.cpp
+++ b/NULLC/Compiler.cpp
@@ -2230,10 +2230,19 @@ char* BuildModuleFromPath(Allocator *allocator, InplaceStr moduleName, const cha
 
 		if(fileContent)
 		{
-			if(const char *pos = moduleName.rfind('/'))
+			if(const char *pos = moduleName.rfind(addExtension ? '.' : '/'))
 			{
 				NULLC::SafeSprintf(nextModuleRootBuf, nextModuleRootLength, "%.*s", unsigned(pos - moduleName.begin), moduleName.begin);
 
+				if(addExtension)
+				{
+					for(unsigned i = 0, e = (unsigned)strlen(nextModuleRootBuf); i != e; i++)
+					{
+						if(nextModuleRootBuf[i] == '.')
+							nextModuleRootBuf[i] = '/';
+					}
+				}
+
 				nextModuleRoot = nextModuleRootBuf;
 			}
 		}
-- 
2.43.0


From 6a8ef632f8fc6d24596622da4c604aab4067405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 45/88] fix: lay out host-provided class arguments by their
 member offsets

---
 NULLC/nullc.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index d5d8910..c0c4ab8 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -969,31 +969,36 @@ const char*	nullcGetArgumentVector(unsigned functionID, uintptr_t extra, va_list
 				for(unsigned k = 0; k < tInfo.memberCount; k++)
 				{
 					const ExternTypeInfo &subType = linker->exTypes[memberList[k].type];
+
+					char *memberPos = argPos + memberList[k].offset;
+
 					switch(subType.type)
 					{
 					case ExternTypeInfo::TYPE_CHAR:
+						*memberPos = (char)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_SHORT:
+						*(short*)memberPos = (short)va_arg(args, int);
+						break;
 					case ExternTypeInfo::TYPE_INT:
-						*(int*)argPos = va_arg(args, int);
-						argPos += 4;
+						*(int*)memberPos = va_arg(args, int);
 						break;
 					case ExternTypeInfo::TYPE_LONG:
-						*(long long*)argPos = va_arg(args, long long);
-						argPos += 8;
+						*(long long*)memberPos = va_arg(args, long long);
 						break;
 					case ExternTypeInfo::TYPE_FLOAT:
-						*(float*)argPos = (float)va_arg(args, double);
-						argPos += 4;
+						*(float*)memberPos = (float)va_arg(args, double);
 						break;
 					case ExternTypeInfo::TYPE_DOUBLE:
-						*(double*)argPos = va_arg(args, double);
-						argPos += 8;
+						*(double*)memberPos = va_arg(args, double);
 						break;
 					default:
 						nullcLastError = "ERROR: unsupported complex function parameter";
 						return NULL;
 					}
 				}
+
+				argPos += tInfo.size;
 			}else{
 				nullcLastError = "ERROR: unsupported complex function parameter";
 				return NULL;
-- 
2.43.0


From 4d79eb0574b6212c3d85a9ebd6ed18b90aac8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 46/88] fix: make the raw call return buffer large enough for
 every return size

---
 NULLC/Executor_Common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index b049cb3..55832b8 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -1346,7 +1346,8 @@ void RunRawExternalFunction(DCCallVM *dcCallVM, ExternFuncInfo &func, ExternLoca
 	bool secondQwordInteger = opaqueType || HasIntegerMembersInRange(returnType, 8, 16, exTypes, exTypeExtra);
 #endif
 
-	unsigned ret[128];
+	// Enough for the largest value of 'returnShift'
+	unsigned ret[256];
 
 	if(retType == ExternFuncInfo::RETURN_UNKNOWN && returnByPointer)
 		dcArgPointer(dcCallVM, ret);
-- 
2.43.0


From 762f39f0afefb70f10a8d925ab898e1da960a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:56 +0000
Subject: [PATCH 47/88] fix: check the register file limit when a function is
 called by the host

---
 NULLC/Executor_RegVm.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 9d49098..cfd0c68 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -252,6 +252,13 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 					Stop("ERROR: stack overflow");
 					retType = rvrError;
 				}
+				else if(regFileTop >= regFileArrayEnd)
+				{
+					callStack.push_back(instruction + 1);
+					instruction = NULL;
+					Stop("ERROR: register overflow");
+					retType = rvrError;
+				}
 				else
 				{
 					dataStack.resize(dataStack.size() + stackSize);
-- 
2.43.0


From b72ce899031600d0a3f2b9097c9bd9350776270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:56 +0000
Subject: [PATCH 48/88] fix: keep the call stack entry of a failed instruction
 out of the guard page

---
 NULLC/Executor_X86.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 5675c1c..1769490 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -141,7 +141,10 @@ namespace NULLC
 
 	void AddCrashStackFrame(unsigned instruction)
 	{
-		if(instruction != ~0u)
+		// The entry can't be placed in the guard page, faults are blocked while one is being handled
+		uintptr_t guardStart = (uintptr_t(currExecutor->vmState.callStackEnd) & ~4095) + 4096;
+
+		if(instruction != ~0u && uintptr_t(currExecutor->vmState.callStackTop + 1) <= guardStart)
 		{
 			currExecutor->vmState.callStackTop->instruction = instruction;
 			currExecutor->vmState.callStackTop++;
-- 
2.43.0


From ac26c3945115add426ae93fdc975d6f12f490f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:56 +0000
Subject: [PATCH 49/88] fix: report too many nested host calls instead of
 running out of the native stack

---
 NULLC/Executor_RegVm.cpp | 25 +++++++++++++++++++++++--
 NULLC/Executor_RegVm.h   |  2 ++
 NULLC/Executor_X86.cpp   | 24 ++++++++++++++++++++++++
 NULLC/Executor_X86.h     |  2 ++
 NULLC/nullcdef.h         |  1 +
 5 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index cfd0c68..57ebcb5 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -60,6 +60,10 @@ ExecutorRegVm::ExecutorRegVm(Linker* linker) : exLinker(linker), exTypes(linker-
 
 	codeRunning = false;
 
+	lastFinalReturn = 0;
+
+	runDepth = 0;
+
 	symbols = NULL;
 
 	codeBase = NULL;
@@ -104,6 +108,8 @@ void ExecutorRegVm::InitExecution()
 
 	lastFinalReturn = 0;
 
+	runDepth = 0;
+
 	CommonSetLinker(exLinker);
 
 	dataStack.reserve(minStackSize);
@@ -272,9 +278,9 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 					regFilePtr[rvrrFrame].ptrValue = uintptr_t(dataStack.data + prevDataSize);
 					regFilePtr[rvrrConstants].ptrValue = uintptr_t(exLinker->exRegVmConstants.data);
 					regFilePtr[rvrrRegisters].ptrValue = uintptr_t(regFilePtr);
-				}
 
-				memset(regFilePtr + rvrrCount, 0, (regFileTop - regFilePtr - rvrrCount) * sizeof(regFilePtr[0]));
+					memset(regFilePtr + rvrrCount, 0, (regFileTop - regFilePtr - rvrrCount) * sizeof(regFilePtr[0]));
+				}
 			}
 		}
 	}
@@ -292,6 +298,15 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 		memset(regFilePtr + rvrrCount, 0, (regFileTop - regFilePtr - rvrrCount) * sizeof(regFilePtr[0]));
 	}
 
+	// Every host function that calls back takes a part of the native stack, which has to be left with enough space to report an error
+	if(instruction && runDepth >= NULLC_MAX_NESTED_RUNS)
+	{
+		callStack.push_back(instruction + 1);
+		instruction = NULL;
+		Stop("ERROR: call stack overflow");
+		retType = rvrError;
+	}
+
 	RegVmRegister *prevRegFileLastTop = regFileLastTop;
 
 	regFileLastTop = regFileTop;
@@ -299,8 +314,14 @@ bool ExecutorRegVm::Run(unsigned functionID, const char *arguments)
 	RegVmReturnType resultType = retType;
 
 	if(instruction)
+	{
+		runDepth++;
+
 		resultType = RunCode(instruction, regFilePtr, this, codeBase);
 
+		runDepth--;
+	}
+
 	regFileLastTop = prevRegFileLastTop;
 
 	dataStack.shrink(prevDataSize);
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 1f513cb..0f06459 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -80,6 +80,8 @@ private:
 	unsigned	minStackSize;
 	unsigned	lastFinalReturn;
 
+	unsigned	runDepth;
+
 	// Stack for call argument/return result data
 	unsigned	tempStackType;
 	unsigned	*tempStackArrayBase;
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 1769490..35288e6 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -404,6 +404,8 @@ ExecutorX86::ExecutorX86(Linker *linker): exLinker(linker), exTypes(linker->exTy
 
 	lastFinalReturn = 0;
 
+	runDepth = 0;
+
 	callContinue = true;
 
 #if !defined(NULLC_NO_RAW_EXTERNAL_CALL)
@@ -785,6 +787,8 @@ bool ExecutorX86::InitExecution()
 
 	lastFinalReturn = 0;
 
+	runDepth = 0;
+
 	CommonSetLinker(exLinker);
 
 	vmState.dataStackTop = vmState.dataStackBase + ((exLinker->globalVarSize + 0xf) & ~0xf);
@@ -972,6 +976,20 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		NULLC::fillMemory(regFilePtr + rvrrCount, 0, (256 - rvrrCount) * sizeof(regFilePtr[0]));
 	}
 
+	// Every host function that calls back takes a part of the native stack, which has to be left with enough space to report an error
+	if(instructionPos != ~0u && runDepth >= NULLC_MAX_NESTED_RUNS)
+	{
+		CodeGenRegVmCallStackEntry *entry = vmState.callStackTop;
+
+		entry->instruction = instructionPos + 1;
+
+		vmState.callStackTop++;
+
+		instructionPos = ~0u;
+		Stop("ERROR: call stack overflow");
+		retType = rvrError;
+	}
+
 	RegVmRegister *prevRegFilePtr = vmState.regFileLastPtr;
 
 	vmState.regFileLastPtr = regFilePtr;
@@ -985,6 +1003,10 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 	{
 		vmState.jitCodeActive = true;
 
+		runDepth++;
+
+		runDepth++;
+
 #ifdef __linux
 		struct sigaction sa;
 		struct sigaction sigFPE;
@@ -1069,6 +1091,8 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 		}
 #endif
 
+		runDepth--;
+
 		vmState.jitCodeActive = false;
 	}
 
diff --git a/NULLC/Executor_X86.h b/NULLC/Executor_X86.h
index d2e5d39..ef32ac6 100644
--- a/NULLC/Executor_X86.h
+++ b/NULLC/Executor_X86.h
@@ -96,6 +96,8 @@ private:
 
 	unsigned	lastFinalReturn;
 
+	unsigned	runDepth;
+
 public:
 	CodeGenRegVmStateContext vmState;
 
diff --git a/NULLC/nullcdef.h b/NULLC/nullcdef.h
index fdc1f87..280c0c6 100644
--- a/NULLC/nullcdef.h
+++ b/NULLC/nullcdef.h
@@ -42,6 +42,7 @@ struct NULLCAutoArray
 #define NULLC_TEMP_OUTPUT_BUFFER_SIZE 16 * 1024
 #define NULLC_MAX_GENERIC_INSTANCE_DEPTH 64
 #define NULLC_MAX_EXPRESSION_DEPTH 2048
+#define NULLC_MAX_NESTED_RUNS 1024
 #define NULLC_MAX_TYPE_SIZE	256 * 1024 * 1024
 
 //#define NULLC_STACK_TRACE_WITH_LOCALS
-- 
2.43.0


From bf8e8df75b7be4c0822224a0089c99639716ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:23 +0000
Subject: [PATCH 50/88] fix: return the number of characters placed in the
 array by console input

---
 NULLC/includes/io.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/NULLC/includes/io.cpp b/NULLC/includes/io.cpp
index 210174a..1ea1a4c 100644
--- a/NULLC/includes/io.cpp
+++ b/NULLC/includes/io.cpp
@@ -220,13 +220,16 @@ namespace NULLCIO
 		if(!data.len)
 			return 0;
 
-		unsigned int len = (unsigned int)strlen(buf) + 1;
-		char *target = data.ptr;
-		for(unsigned int i = 0; i < (data.len < len ? data.len : len); i++)
-			target[i] = buf[i];
-		target[data.len - 1] = 0;
-		
-		return ((unsigned int)len < data.len - 1 ? len : data.len - 1);
+		// Result doesn't include the zero-termination character
+		unsigned int len = (unsigned int)strlen(buf);
+
+		if(len > data.len - 1)
+			len = data.len - 1;
+
+		memcpy(data.ptr, buf, len);
+		data.ptr[len] = 0;
+
+		return len;
 	}
 
 	void WriteToConsoleExact(NULLCArray data)
-- 
2.43.0


From ba6abf747e6720ba8841b05037012324e1634b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:23 +0000
Subject: [PATCH 51/88] fix: report a failure to measure a file instead of its
 current position as its size

---
 NULLC/includes/file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/NULLC/includes/file.cpp b/NULLC/includes/file.cpp
index 7890586..2a3f684 100644
--- a/NULLC/includes/file.cpp
+++ b/NULLC/includes/file.cpp
@@ -300,9 +300,14 @@ namespace NULLCFile
 		}
 
 		long pos = ftell(file->handle);
-		fseek(file->handle, 0, SEEK_END);
+
+		if(pos < 0 || fseek(file->handle, 0, SEEK_END) != 0)
+			return -1;
+
 		long res = ftell(file->handle);
-		fseek(file->handle, pos, SEEK_SET);
+
+		if(fseek(file->handle, pos, SEEK_SET) != 0)
+			return -1;
 
 		return res;
 	}
-- 
2.43.0


From a087e86076be2caadeababbd11f1a2619a45e045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:18 +0000
Subject: [PATCH 52/88] fix: do not resume execution stopped by a debugger when
 the error is handled

---
 NULLC/Executor_RegVm.cpp | 14 ++++++++++++++
 NULLC/Executor_RegVm.h   |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 57ebcb5..caab136 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -86,6 +86,8 @@ ExecutorRegVm::ExecutorRegVm(Linker* linker) : exLinker(linker), exTypes(linker-
 
 	breakFunctionContext = NULL;
 	breakFunction = NULL;
+
+	breakStopped = false;
 }
 
 ExecutorRegVm::~ExecutorRegVm()
@@ -127,6 +129,8 @@ void ExecutorRegVm::InitExecution()
 
 	callContinue = true;
 
+	breakStopped = false;
+
 	// Add return after the last instruction to end execution of code with no return at the end
 	exLinker->exRegVmCode.push_back(RegVmCmd(rviReturn, 0, rvrError, 0, 0));
 	exLinker->exRegVmExecCount.push_back(0);
@@ -1304,6 +1308,8 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 
 		if(response == NULLC_BREAK_STOP)
 		{
+			breakStopped = true;
+
 			ExecError(instruction, "ERROR: execution was stopped after breakpoint");
 			return NULL;
 		}
@@ -1434,6 +1440,14 @@ bool ExecutorRegVm::ExecCall(unsigned microcodePos, unsigned functionId, RegVmCm
 				return false;
 		}
 
+		// Execution that was stopped by a debugger is not resumed if a function handles the error
+		if(breakStopped)
+		{
+			Stop("ERROR: execution was stopped after breakpoint");
+
+			return false;
+		}
+
 		callStack.pop_back();
 
 		switch(resultType)
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 0f06459..1dd1fe2 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -101,6 +101,8 @@ private:
 	void *breakFunctionContext;
 	unsigned (*breakFunction)(void*, unsigned);
 
+	bool	breakStopped;
+
 	FastVector<RegVmCmd>	breakCode;
 
 	static RegVmReturnType RunCode(RegVmCmd *instruction, RegVmRegister * const regFilePtr, ExecutorRegVm *rvm, RegVmCmd *codeBase);
-- 
2.43.0


From 9fe2d69af06986f2e93f2c98a6b554c13bf96fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:18 +0000
Subject: [PATCH 53/88] fix: keep instructions replaced by breakpoints in place
 while breakpoints are changed during execution

---
 NULLC/Executor_RegVm.cpp | 108 +++++++++++++++++++++------------------
 NULLC/Executor_RegVm.h   |   8 ++-
 2 files changed, 64 insertions(+), 52 deletions(-)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index caab136..700cbed 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -98,6 +98,9 @@ ExecutorRegVm::~ExecutorRegVm()
 
 	NULLC::dealloc(regFileArrayBase);
 
+	for(unsigned i = 0; i < breakCodePages.size(); i++)
+		NULLC::dealloc(breakCodePages[i]);
+
 #if !defined(NULLC_NO_RAW_EXTERNAL_CALL)
 	if(dcCallVM)
 		dcFree(dcCallVM);
@@ -1294,7 +1297,6 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			return NULL;
 		}
 
-		unsigned target = cmd.argument;
 		callStack.push_back(instruction + 1);
 
 		if(instruction < codeBase || instruction > exLinker->exRegVmCode.data + exLinker->exRegVmCode.size())
@@ -1303,6 +1305,14 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 			return NULL;
 		}
 
+		// Breakpoints can be added and removed by the callback, but original instruction stays the same
+		RegVmCmd *breakCode = GetBreakCode(unsigned(instruction - codeBase));
+		const RegVmCmd &breakCmd = breakCode[0];
+
+		// This flag means that breakpoint works only once
+		if(cmd.rB == EXEC_BREAK_ONCE)
+			*instruction = breakCmd;
+
 		unsigned response = breakFunction(breakFunctionContext, unsigned(instruction - codeBase));
 		callStack.pop_back();
 
@@ -1319,52 +1329,38 @@ RegVmCmd* ExecutorRegVm::ExecNop(const RegVmCmd cmd, RegVmCmd * const instructio
 		{
 			// Next instruction for step command
 			RegVmCmd *nextCommand = instruction + 1;
-			RegVmCmd& breakCmd = breakCode[target];
 
 			// Step command - handle unconditional jump step
 			if(breakCmd.code == rviJmp)
 				nextCommand = codeBase + breakCmd.argument;
 			// Step command - handle conditional "jump on false" step
-			if(breakCmd.code == rviJmpz && regFilePtr[cmd.rC].intValue == 0)
+			if(breakCmd.code == rviJmpz && regFilePtr[breakCmd.rC].intValue == 0)
 				nextCommand = codeBase + breakCmd.argument;
 			// Step command - handle conditional "jump on true" step
-			if(breakCmd.code == rviJmpnz && regFilePtr[cmd.rC].intValue != 0)
+			if(breakCmd.code == rviJmpnz && regFilePtr[breakCmd.rC].intValue != 0)
 				nextCommand = codeBase + breakCmd.argument;
-			// Step command - handle "return" step
-			if(breakCmd.code == rviReturn && callStack.size() != lastFinalReturn)
-				nextCommand = callStack.back();
+			// Step command - handle "return" step, return from the first function of the run continues in a function that started the run
+			if(breakCmd.code == rviReturn)
+				nextCommand = callStack.size() ? callStack.back() : NULL;
 
 			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCall && exFunctions[breakCmd.argument].regVmAddress != -1)
 				nextCommand = codeBase + exFunctions[breakCmd.argument].regVmAddress;
-			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCallPtr && regFilePtr[cmd.rC].intValue && exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress != -1)
-				nextCommand = codeBase + exFunctions[regFilePtr[cmd.rC].intValue].regVmAddress;
+			if(response == NULLC_BREAK_STEP_INTO && breakCmd.code == rviCallPtr && regFilePtr[breakCmd.rC].intValue && exFunctions[regFilePtr[breakCmd.rC].intValue].regVmAddress != -1)
+				nextCommand = codeBase + exFunctions[regFilePtr[breakCmd.rC].intValue].regVmAddress;
 
 			if(response == NULLC_BREAK_STEP_OUT && callStack.size() != lastFinalReturn)
 				nextCommand = callStack.back();
 
 			// If the next instruction is the breakpoint pseudo-command to return to regular code, place a one time breakpoint on its target
-			if(nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
+			if(nextCommand && nextCommand->code == rviNop && nextCommand->rB == EXEC_BREAK_RETURN)
 				nextCommand = &exLinker->exRegVmCode[nextCommand->argument];
 
-			if(nextCommand->code != rviNop)
-			{
-				unsigned pos = breakCode.size();
-				breakCode.push_back(*nextCommand);
-				nextCommand->code = rviNop;
-				nextCommand->rB = EXEC_BREAK_ONCE;
-				nextCommand->argument = pos;
-			}
-		}
-		// This flag means that breakpoint works only once
-		if(cmd.rB == EXEC_BREAK_ONCE)
-		{
-			*instruction = breakCode[target];
-
-			return instruction;
+			if(nextCommand && nextCommand->code != rviNop)
+				SetBreakCode(unsigned(nextCommand - codeBase), EXEC_BREAK_ONCE);
 		}
 
 		// Jump to external code
-		return &breakCode[target];
+		return breakCode;
 	}
 
 	return codeBase + cmd.argument;
@@ -1824,11 +1820,14 @@ unsigned ExecutorRegVm::GetCallStackAddress(unsigned frame)
 
 	RegVmCmd *instruction = callStack[frame];
 
-	if(instruction >= breakCode.data && instruction < breakCode.data + breakCode.count)
+	for(unsigned i = 0; i < breakCodePages.size(); i++)
 	{
-		assert(instruction->code == rviNop);
+		if(breakCodePages[i] && instruction >= breakCodePages[i] && instruction < breakCodePages[i] + breakCodePageSize * 2)
+		{
+			assert(instruction->code == rviNop);
 
-		return instruction->argument;
+			return instruction->argument;
+		}
 	}
 
 	return unsigned(instruction - codeBase);
@@ -1858,9 +1857,33 @@ void ExecutorRegVm::ClearBreakpoints()
 		// nop instruction is used for breaks
 		// break structure: cmdOriginal, cmdNop
 		if(exLinker->exRegVmCode[i].code == rviNop)
-			exLinker->exRegVmCode[i] = breakCode[exLinker->exRegVmCode[i].argument];	// replace it with original instruction
+			exLinker->exRegVmCode[i] = GetBreakCode(i)[0];	// replace it with original instruction
 	}
-	breakCode.clear();
+}
+
+RegVmCmd* ExecutorRegVm::GetBreakCode(unsigned instruction)
+{
+	unsigned page = instruction / breakCodePageSize;
+
+	while(breakCodePages.size() <= page)
+		breakCodePages.push_back(NULL);
+
+	if(!breakCodePages[page])
+		breakCodePages[page] = (RegVmCmd*)NULLC::alloc(sizeof(RegVmCmd) * breakCodePageSize * 2);
+
+	return breakCodePages[page] + (instruction % breakCodePageSize) * 2;
+}
+
+void ExecutorRegVm::SetBreakCode(unsigned instruction, unsigned char type)
+{
+	RegVmCmd *breakCode = GetBreakCode(instruction);
+
+	breakCode[0] = exLinker->exRegVmCode[instruction];
+	breakCode[1] = RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1);
+
+	exLinker->exRegVmCode[instruction].code = rviNop;
+	exLinker->exRegVmCode[instruction].rB = type;
+	exLinker->exRegVmCode[instruction].argument = 0;
 }
 
 bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
@@ -1872,8 +1895,6 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	unsigned pos = breakCode.size();
-
 	if(exLinker->exRegVmCode[instruction].code == rviNop)
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: cannot set breakpoint on breakpoint");
@@ -1881,28 +1902,13 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
-	if(oneHit)
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_ONCE;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
-	else
-	{
-		breakCode.push_back(exLinker->exRegVmCode[instruction]);
-		breakCode.push_back(RegVmCmd(rviNop, 0, EXEC_BREAK_RETURN, 0, instruction + 1));
-
-		exLinker->exRegVmCode[instruction].code = rviNop;
-		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_SIGNAL;
-		exLinker->exRegVmCode[instruction].argument = pos;
-	}
+	SetBreakCode(instruction, oneHit ? EXEC_BREAK_ONCE : EXEC_BREAK_SIGNAL);
 	return true;
 }
 
 bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 {
-	if(instruction > exLinker->exRegVmCode.size())
+	if(instruction >= exLinker->exRegVmCode.size())
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: break position out of code range");
 		execErrorMessage = execErrorBuffer;
@@ -1916,7 +1922,7 @@ bool ExecutorRegVm::RemoveBreakpoint(unsigned instruction)
 		return false;
 	}
 
-	exLinker->exRegVmCode[instruction] = breakCode[exLinker->exRegVmCode[instruction].argument];
+	exLinker->exRegVmCode[instruction] = GetBreakCode(instruction)[0];
 	return true;
 }
 
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 1dd1fe2..7b26bf7 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -103,12 +103,16 @@ private:
 
 	bool	breakStopped;
 
-	FastVector<RegVmCmd>	breakCode;
+	// Instructions replaced by breakpoints, code that is being executed might be inside so the location of an entry never changes
+	FastVector<RegVmCmd*>	breakCodePages;
 
 	static RegVmReturnType RunCode(RegVmCmd *instruction, RegVmRegister * const regFilePtr, ExecutorRegVm *rvm, RegVmCmd *codeBase);
 
 	bool RunExternalFunction(unsigned funcID, unsigned *callStorage);
 
+	RegVmCmd* GetBreakCode(unsigned instruction);
+	void SetBreakCode(unsigned instruction, unsigned char type);
+
 	RegVmCmd* ExecNop(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	bool ExecCall(unsigned microcodePos, unsigned functionId, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
 	RegVmReturnType ExecReturn(const RegVmCmd cmd, RegVmCmd * const instruction, RegVmRegister * const regFilePtr);
@@ -121,6 +125,8 @@ private:
 	static const unsigned EXEC_BREAK_RETURN = 1;
 	static const unsigned EXEC_BREAK_ONCE = 2;
 
+	static const unsigned breakCodePageSize = 256;
+
 private:
 	ExecutorRegVm(const ExecutorRegVm&);
 	ExecutorRegVm& operator=(const ExecutorRegVm&);
-- 
2.43.0


From 3a8e8649dce87689228e2d50f40d89d0f19eaec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:08 +0000
Subject: [PATCH 54/88] fix: string comparison, appending, erase and replace
 with empty strings

---
 Modules/std/string.nc | 55 +++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/Modules/std/string.nc b/Modules/std/string.nc
index c351e97..412c322 100644
--- a/Modules/std/string.nc
+++ b/Modules/std/string.nc
@@ -199,7 +199,8 @@ char ref string:back()
 // Appends the string at the end
 string ref operator+=(string ref left, string ref right)
 {
-	left.data = left.data + right.data;
+	if(right.data.size)
+		left.data = left.data + right.data;
 	return left;
 }
 
@@ -252,7 +253,7 @@ string ref string:insert(int offset, int count, char ch)
 // If the length is not specified, erases all the characters starting from the specified character
 string ref string:erase(int offset, int length = -1)
 {
-	if(length < 0 || length > data.size - offset)
+	if(length < 0 || length >= data.size - offset)
 		length = data.size - offset - 1;
 	if(length == 0)
 		return this;
@@ -282,16 +283,16 @@ string ref string:replace(int offset, int length, string ref str)
 	if(length < 0 || length >= data.size - offset)
 		length = data.size - offset - 1;
 
-	auto buf = new char[data.size - length + str.data.size - 1];
+	auto buf = new char[data.size - length + str.size];
 	
 	for(int i = 0; i < offset; i++)
 		buf[i] = data[i];
 
-	for(int i = 0; i < str.data.size - 1; i++)
+	for(int i = 0; i < str.size; i++)
 		buf[i + offset] = str.data[i];
 
 	for(int i = offset + length; i < data.size - 1; i++)
-		buf[i - length + str.data.size - 1] = data[i];
+		buf[i - length + str.size] = data[i];
 
 	data = buf;
 	return this;
@@ -570,19 +571,27 @@ string operator+(string ref left, char[] right)
 	return left + string(right);
 }
 
+// Find relation between two character arrays, empty arrays are equal to an empty string
+int string_compare(char[] left, right)
+{
+	char[] empty = "";
+
+	return strcmp(left.size ? left : empty, right.size ? right : empty);
+}
+
 // Compare strings for equality
 bool operator==(string ref left, string ref right)
 {
 	if(left.size != right.size)
 		return false;
 
-	return left.data == right.data;
+	return left.size == 0 || left.data == right.data;
 }
 
 bool operator==(string ref left, char[] right)
 {
 	if(right.size > 1)
-		return strcmp(left.data, right) == 0;
+		return string_compare(left.data, right) == 0;
 
 	return left.size == 0;
 }
@@ -590,7 +599,7 @@ bool operator==(string ref left, char[] right)
 bool operator==(char[] left, string ref right)
 {
 	if(left.size > 1)
-		return strcmp(left, right.data) == 0;
+		return string_compare(left, right.data) == 0;
 
 	return right.size == 0;
 }
@@ -601,13 +610,13 @@ bool operator!=(string ref left, string ref right)
 	if(left.size != right.size)
 		return true;
 	
-	return left.data != right.data;
+	return left.size != 0 && left.data != right.data;
 }
 
 bool operator!=(string ref left, char[] right)
 {
 	if(right.size > 1)
-		return strcmp(left.data, right) != 0;
+		return string_compare(left.data, right) != 0;
 	
 	return left.size != 0;
 }
@@ -615,7 +624,7 @@ bool operator!=(string ref left, char[] right)
 bool operator!=(char[] left, string ref right)
 {
 	if(left.size > 1)
-		return strcmp(left, right.data) != 0;
+		return string_compare(left, right.data) != 0;
 	
 	return right.size != 0;
 }
@@ -623,60 +632,60 @@ bool operator!=(char[] left, string ref right)
 // String ordering
 bool operator<(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) < 0;
+	return string_compare(left.data, right.data) < 0;
 }
 
 bool operator<(string ref left, char[] right)
 {
-	return strcmp(left.data, right) < 0;
+	return string_compare(left.data, right) < 0;
 }
 
 bool operator<(char[] left, string ref right)
 {
-	return strcmp(left, right.data) < 0;
+	return string_compare(left, right.data) < 0;
 }
 
 bool operator<=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) <= 0;
+	return string_compare(left.data, right.data) <= 0;
 }
 
 bool operator<=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) <= 0;
+	return string_compare(left.data, right) <= 0;
 }
 
 bool operator<=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) <= 0;
+	return string_compare(left, right.data) <= 0;
 }
 
 bool operator>(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) > 0;
+	return string_compare(left.data, right.data) > 0;
 }
 
 bool operator>(string ref left, char[] right)
 {
-	return strcmp(left.data, right) > 0;
+	return string_compare(left.data, right) > 0;
 }
 
 bool operator>(char[] left, string ref right)
 {
-	return strcmp(left, right.data) > 0;
+	return string_compare(left, right.data) > 0;
 }
 
 bool operator>=(string ref left, string ref right)
 {
-	return strcmp(left.data, right.data) >= 0;
+	return string_compare(left.data, right.data) >= 0;
 }
 
 bool operator>=(string ref left, char[] right)
 {
-	return strcmp(left.data, right) >= 0;
+	return string_compare(left.data, right) >= 0;
 }
 
 bool operator>=(char[] left, string ref right)
 {
-	return strcmp(left, right.data) >= 0;
+	return string_compare(left, right.data) >= 0;
 }
-- 
2.43.0


From 8d50d84382c9f3df6c10127d10a7a1a7c218aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:08 +0000
Subject: [PATCH 55/88] fix: list removal and insertion at the ends keeps
 first, last and links in order

---
 Modules/std/list.nc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Modules/std/list.nc b/Modules/std/list.nc
index 626f653..dfdd00c 100644
--- a/Modules/std/list.nc
+++ b/Modules/std/list.nc
@@ -61,12 +61,20 @@ void list:pop_back()
 	if(!last)
 		assert(0, "list::pop_back list is empty");
 	last = last.prev;
+	if(last)
+		last.next = nullptr;
+	else
+		first = nullptr;
 }
 void list:pop_front()
 {
 	if(!first)
 		assert(0, "list::pop_back list is empty");
 	first = first.next;
+	if(first)
+		first.prev = nullptr;
+	else
+		last = nullptr;
 }
 void list:insert(list_node<T> ref it, T elem)
 {
@@ -80,6 +88,8 @@ void list:insert(list_node<T> ref it, T elem)
 	it.next.parent = this;
 	if(next)
 		next.prev = it.next;
+	else
+		last = it.next;
 }
 void list:erase(list_node<T> ref it)
 {
-- 
2.43.0


From 284e792dc50abc14b6245f0e4ec7845dae51fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:08 +0000
Subject: [PATCH 56/88] fix: add an element to a vector or list only after its
 value was copied

---
 Modules/std/list.nc   | 53 ++++++++++++++++++++-----------------------
 Modules/std/vector.nc |  3 ++-
 2 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/Modules/std/list.nc b/Modules/std/list.nc
index dfdd00c..cfc69ec 100644
--- a/Modules/std/list.nc
+++ b/Modules/std/list.nc
@@ -28,33 +28,27 @@ void list:list()
 
 void list:push_back(T elem)
 {
+	auto node = new list_node<T>;
+	node.elem = elem;
+	node.parent = this;
+	node.prev = last;
 	if(!first)
-	{
-		first = last = new list_node<T>;
-		last.prev = last.next = nullptr;
-	}else{
-		last.next = new list_node<T>;
-		last.next.prev = last;
-		last.next.next = nullptr;
-		last = last.next;
-	}
-	last.elem = elem;
-	last.parent = this;
+		first = node;
+	else
+		last.next = node;
+	last = node;
 }
 void list:push_front(T elem)
 {
+	auto node = new list_node<T>;
+	node.elem = elem;
+	node.parent = this;
+	node.next = first;
 	if(!first)
-	{
-		first = last = new list_node<T>;
-		first.prev = first.next = nullptr;
-	}else{
-		first.prev = new list_node<T>;
-		first.prev.next = first;
-		first.prev.prev = nullptr;
-		first = first.prev;
-	}
-	first.elem = elem;
-	first.parent = this;
+		last = node;
+	else
+		first.prev = node;
+	first = node;
 }
 void list:pop_back()
 {
@@ -81,15 +75,16 @@ void list:insert(list_node<T> ref it, T elem)
 	if(it.parent != this)
 		assert(0, "list::insert iterator is from a different list");
 	auto next = it.next;
-	it.next = new list_node<T>;
-	it.next.elem = elem;
-	it.next.prev = it;
-	it.next.next = next;
-	it.next.parent = this;
+	auto node = new list_node<T>;
+	node.elem = elem;
+	node.prev = it;
+	node.next = next;
+	node.parent = this;
+	it.next = node;
 	if(next)
-		next.prev = it.next;
+		next.prev = node;
 	else
-		last = it.next;
+		last = node;
 }
 void list:erase(list_node<T> ref it)
 {
diff --git a/Modules/std/vector.nc b/Modules/std/vector.nc
index f66d2a7..3144292 100644
--- a/Modules/std/vector.nc
+++ b/Modules/std/vector.nc
@@ -25,7 +25,8 @@ void vector:push_back(T val)
 	if(count == data.size)
 		this.grow(count);
 
-	data[count++] = val;
+	data[count] = val;
+	count++;
 }
 
 void vector:pop_back()
-- 
2.43.0


From 204b33ff46acf6d98b8dab8322a031376f5562a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:02 +0000
Subject: [PATCH 57/88] fix: count every nested x86 run once

---
 NULLC/Executor_X86.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 35288e6..6a4528c 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1005,8 +1005,6 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 		runDepth++;
 
-		runDepth++;
-
 #ifdef __linux
 		struct sigaction sa;
 		struct sigaction sigFPE;
-- 
2.43.0


From 1314510029f2d6e56dd800297dd2a2f984093f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:27 +0000
Subject: [PATCH 58/88] fix: redirected function takes the frame size of its
 new implementation

---
 NULLC/Executor_Common.cpp | 24 +++++++++++++++---------
 NULLC/Linker.cpp          | 12 ++++++++++++
 NULLC/Linker.h            |  3 +++
 NULLC/nullc.cpp           | 15 ++++++++++++++-
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 55832b8..6b7ecf4 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -151,15 +151,18 @@ unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, b
 
 	char *source = nullcDebugSource();
 
-	int funcID = -1;
+	ExternFuncInfo *function = NULL;
 	for(unsigned int i = 0; i < exFunctionsSize; i++)
 	{
 		if(address >= exFunctions[i].regVmAddress && address < (exFunctions[i].regVmAddress + exFunctions[i].regVmCodeSize))
-			funcID = i;
+			function = &exFunctions[i];
 	}
 
-	if(funcID != -1)
-		current += NULLC::SafeSprintf(current, bufSize - int(current - start), "%s", &exSymbols[exFunctions[funcID].offsetToName]);
+	if(!function && address != -1)
+		function = NULLC::commonLinker->FindReplacedFunction(address);
+
+	if(function)
+		current += NULLC::SafeSprintf(current, bufSize - int(current - start), "%s", &exSymbols[function->offsetToName]);
 	else
 		current += NULLC::SafeSprintf(current, bufSize - int(current - start), "%s", address == -1 ? "external" : "global scope");
 
@@ -219,14 +222,14 @@ unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, b
 		unsigned exTypesSize = 0;
 		ExternTypeInfo *exTypes = nullcDebugTypeInfo(&exTypesSize);
 
-		if(funcID != -1)
+		if(function)
 		{
 			unsigned exLocalsSize = 0;
 			ExternLocalInfo *exLocals = nullcDebugLocalInfo(&exLocalsSize);
 
-			for(unsigned int i = 0; i < exFunctions[funcID].localCount + exFunctions[funcID].externCount; i++)
+			for(unsigned int i = 0; i < function->localCount + function->externCount; i++)
 			{
-				ExternLocalInfo &lInfo = exLocals[exFunctions[funcID].offsetToFirstLocal + i];
+				ExternLocalInfo &lInfo = exLocals[function->offsetToFirstLocal + i];
 				const char *typeName = &exSymbols[exTypes[lInfo.type].offsetToName];
 				const char *localName = &exSymbols[lInfo.offsetToName];
 				const char *localType = lInfo.paramType == ExternLocalInfo::PARAMETER ? "param" : (lInfo.paramType == ExternLocalInfo::EXTERNAL ? "extern" : "local");
@@ -1156,10 +1159,13 @@ void GC::MarkUsedBlocks()
 			GC::functionIDs.insert(address, funcID);
 		}
 
+		// Function could be replaced while it was executing
+		ExternFuncInfo *replaced = funcID == -1 ? NULLC::commonLinker->FindReplacedFunction(address) : NULL;
+
 		// If we are not in global scope
-		if(funcID != -1)
+		if(funcID != -1 || replaced)
 		{
-			ExternFuncInfo &function = functions[funcID];
+			ExternFuncInfo &function = replaced ? *replaced : functions[funcID];
 
 			// Align offset to the first variable (by 16 byte boundary)
 			int alignOffset = (offset % 16 != 0) ? (16 - (offset % 16)) : 0;
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index d9c47ad..08e9fb0 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -63,6 +63,7 @@ void Linker::CleanCode()
 	exTypeConstants.clear();
 	exVariables.clear();
 	exFunctions.clear();
+	exReplacedFunctions.clear();
 	exFunctionExplicitTypeArrayOffsets.clear();
 	exFunctionExplicitTypes.clear();
 	exSymbols.clear();
@@ -1012,6 +1013,17 @@ bool Linker::SaveRegVmListing(OutputContext &output, bool withProfileInfo)
 	return true;
 }
 
+ExternFuncInfo* Linker::FindReplacedFunction(int instruction)
+{
+	for(unsigned i = 0; i < exReplacedFunctions.size(); i++)
+	{
+		if(instruction >= exReplacedFunctions[i].regVmAddress && instruction < exReplacedFunctions[i].regVmAddress + exReplacedFunctions[i].regVmCodeSize)
+			return &exReplacedFunctions[i];
+	}
+
+	return NULL;
+}
+
 void Linker::CollectDebugInfo(FastVector<unsigned char*> *instAddress)
 {
 	nullcModuleBytecodeSize = 0;
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index 2dd5848..6dccd5b 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -26,6 +26,8 @@ public:
 
 	void	FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize);
 	void	FixupReturnMicrocode(unsigned microcode, unsigned oldGlobalSize);
+
+	ExternFuncInfo*	FindReplacedFunction(int instruction);
 public:
 	char		linkError[LINK_ERROR_BUFFER_SIZE];
 
@@ -34,6 +36,7 @@ public:
 	FastVector<ExternConstantInfo>	exTypeConstants;
 	FastVector<ExternVarInfo>		exVariables;
 	FastVector<ExternFuncInfo>		exFunctions;
+	FastVector<ExternFuncInfo>		exReplacedFunctions; // Original information about functions that were redirected
 	FastVector<unsigned>			exFunctionExplicitTypeArrayOffsets;
 	FastVector<unsigned>			exFunctionExplicitTypes;
 	FastVector<ExternLocalInfo>		exLocals;
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index c0c4ab8..0d0f80c 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -1421,10 +1421,23 @@ nullres nullcRedirectFunction(unsigned sourceId, unsigned targetId)
 	ExternFuncInfo &destFunc = linker->exFunctions[sourceId];
 	ExternFuncInfo &srcFunc = linker->exFunctions[targetId];
 
+	if(destFunc.regVmAddress == srcFunc.regVmAddress && destFunc.regVmAddress != -1)
+		return true;
+
+	// Function that is replaced might be executing at the moment
+	if(destFunc.regVmAddress != -1 && !linker->FindReplacedFunction(destFunc.regVmAddress))
+		linker->exReplacedFunctions.push_back(destFunc);
+
 	destFunc.regVmAddress = srcFunc.regVmAddress;
 	destFunc.regVmCodeSize = srcFunc.regVmCodeSize;
 	destFunc.regVmRegisters = srcFunc.regVmRegisters;
 
+	destFunc.stackSize = srcFunc.stackSize;
+
+	destFunc.offsetToFirstLocal = srcFunc.offsetToFirstLocal;
+	destFunc.localCount = srcFunc.localCount;
+	destFunc.externCount = srcFunc.externCount;
+
 	destFunc.funcPtrRaw = srcFunc.funcPtrRaw;
 	destFunc.funcPtrWrapTarget = srcFunc.funcPtrWrapTarget;
 	destFunc.funcPtrWrap = srcFunc.funcPtrWrap;
@@ -2091,7 +2104,7 @@ ExternFuncInfo* nullcDebugConvertAddressToFunction(int instruction, ExternFuncIn
 			return &codeFunctions[i];
 	}
 
-	return NULL;
+	return linker ? linker->FindReplacedFunction(instruction) : NULL;
 }
 
 namespace
-- 
2.43.0


From 57cdee923cc687d54f943eab1a8840f596d89098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:55 +0000
Subject: [PATCH 59/88] fix: find call stack entries of functions in relocated
 register VM code

---
 NULLC/Executor_RegVm.cpp | 9 +++++++++
 NULLC/Linker.cpp         | 2 ++
 NULLC/Linker.h           | 1 +
 3 files changed, 12 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 700cbed..1f94caa 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1830,6 +1830,15 @@ unsigned ExecutorRegVm::GetCallStackAddress(unsigned frame)
 		}
 	}
 
+	// Code that was relocated while it was executing
+	for(unsigned i = 0; i < exLinker->expiredRegVmCode.size(); i++)
+	{
+		RegVmCmd *expiredCode = exLinker->expiredRegVmCode[i];
+
+		if(instruction >= expiredCode && instruction < expiredCode + exLinker->expiredRegVmCodeSizes[i])
+			return unsigned(instruction - expiredCode);
+	}
+
 	return unsigned(instruction - codeBase);
 }
 
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index 08e9fb0..47b4f6a 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -83,6 +83,7 @@ void Linker::CleanCode()
 	for(unsigned i = 0; i < expiredRegVmCode.size(); i++)
 		NULLC::dealloc(expiredRegVmCode[i]);
 	expiredRegVmCode.clear();
+	expiredRegVmCodeSizes.clear();
 
 	for(unsigned i = 0; i < expiredRegVmConstants.size(); i++)
 		NULLC::dealloc(expiredRegVmConstants[i]);
@@ -467,6 +468,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 
 		oldRegVmCode = exRegVmCode.data;
 		expiredRegVmCode.push_back(oldRegVmCode);
+		expiredRegVmCodeSizes.push_back(oldRegVmCodeSize);
 
 		exRegVmCode.data = NULL;
 		exRegVmCode.count = 0;
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index 6dccd5b..26fce62 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -56,6 +56,7 @@ public:
 	FastVector<unsigned int>		regVmJumpTargets;
 
 	FastVector<RegVmCmd*>			expiredRegVmCode;
+	FastVector<unsigned>			expiredRegVmCodeSizes;
 	FastVector<unsigned*>			expiredRegVmConstants;
 
 	unsigned int					globalVarSize;
-- 
2.43.0


From f74d787ad29762ea4ba75b3a9ed18634e3e7fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:15 +0000
Subject: [PATCH 60/88] fix: override a function with code of any length that
 defines other functions

---
 NULLC/includes/dynamic.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/NULLC/includes/dynamic.cpp b/NULLC/includes/dynamic.cpp
index 0054747..929ad2e 100644
--- a/NULLC/includes/dynamic.cpp
+++ b/NULLC/includes/dynamic.cpp
@@ -43,15 +43,29 @@ namespace NULLCDynamic
 			return;
 		}
 
-		char tmp[2048];
-		char *it = tmp;
 		ExternMemberInfo *memberList = &linker->exTypeExtra[linker->exTypes[dest.typeID].memberOffset];
 		ExternTypeInfo &returnType = linker->exTypes[memberList[0].type];
-		it += NULLC::SafeSprintf(it, 2048 - int(it - tmp), "import __last;\r\n%s __override%d(", &linker->exSymbols[0] + returnType.offsetToName, overrideID);
+
+		char name[32];
+		NULLC::SafeSprintf(name, 32, "__override%d", overrideID);
+
+		// Find how much space the function will take
+		unsigned size = 64 + unsigned(strlen(&linker->exSymbols[0] + returnType.offsetToName)) + code.len;
 
 		for(unsigned int i = 0, memberCount = linker->exTypes[dest.typeID].memberCount; i != memberCount; i++)
-			it += NULLC::SafeSprintf(it, 2048 - int(it - tmp), "%s arg%d%s", &linker->exSymbols[0] + linker->exTypes[memberList[i + 1].type].offsetToName, i, i == memberCount - 1 ? "" : ", ");
-		it += NULLC::SafeSprintf(it, 2048 - int(it - tmp), "){ %s }", code.ptr);
+			size += 32 + unsigned(strlen(&linker->exSymbols[0] + linker->exTypes[memberList[i + 1].type].offsetToName));
+
+		FastVector<char> text;
+		text.resize(size);
+
+		char *tmp = text.data;
+		char *it = tmp;
+
+		it += NULLC::SafeSprintf(it, size - int(it - tmp), "import __last;\r\n%s %s(", &linker->exSymbols[0] + returnType.offsetToName, name);
+
+		for(unsigned int i = 0, memberCount = linker->exTypes[dest.typeID].memberCount; i != memberCount; i++)
+			it += NULLC::SafeSprintf(it, size - int(it - tmp), "%s arg%d%s", &linker->exSymbols[0] + linker->exTypes[memberList[i + 1].type].offsetToName, i, i == memberCount - 1 ? "" : ", ");
+		it += NULLC::SafeSprintf(it, size - int(it - tmp), "){ %.*s }", int(code.len), code.ptr);
 		overrideID++;
 
 		if(!nullcCompile(tmp))
@@ -69,7 +83,13 @@ namespace NULLCDynamic
 		}
 		delete[] bytecode;
 
-		nullcRedirectFunction(((NULLCFuncPtr*)dest.ptr)->id, linker->exFunctions.size() - 1);
+		// Code might contain other functions
+		unsigned index = linker->exFunctions.size() - 1;
+
+		while(index != 0 && linker->exFunctions[index].nameHash != NULLC::GetStringHash(name))
+			index--;
+
+		nullcRedirectFunction(((NULLCFuncPtr*)dest.ptr)->id, index);
 	}
 }
 
-- 
2.43.0


From 9a93490e2bab9daecc5f4f2e97539db456d9c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:38 +0000
Subject: [PATCH 61/88] fix: remember where the last module was linked

---
 NULLC/Linker.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 NULLC/Linker.h   |  5 +++++
 2 files changed, 43 insertions(+)

diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index 47b4f6a..b60899f 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -46,6 +46,10 @@ Linker::Linker(): exTypes(128), exTypeExtra(256), exTypeConstants(256), exVariab
 	typeMap.init();
 	funcMap.init();
 
+	lastFunctionStart = 0;
+	lastVariableOffset = 0;
+	lastSourceOffset = 0;
+
 	debugOutputIndent = 0;
 
 	NULLC::SetLinker(this);
@@ -112,6 +116,10 @@ void Linker::CleanCode()
 
 	funcMap.clear();
 
+	lastFunctionStart = 0;
+	lastVariableOffset = 0;
+	lastSourceOffset = 0;
+
 	debugOutputIndent = 0;
 
 	NULLC::ClearMemory();
@@ -220,6 +228,14 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			exModules.back().sourceOffset = exSource.size() - ((ByteCode*)bytecode)->sourceSize;
 			exModules.back().sourceSize = ((ByteCode*)bytecode)->sourceSize;
 
+			// Last module was linked earlier
+			if(strcmp(path, "__last.nc") == 0)
+			{
+				exModules.back().funcStart = lastFunctionStart;
+				exModules.back().variableOffset = lastVariableOffset;
+				exModules.back().sourceOffset = lastSourceOffset;
+			}
+
 #ifdef VERBOSE_DEBUG_OUTPUT
 			for(unsigned indent = 0; indent < debugOutputIndent; indent++)
 				printf("  ");
@@ -820,6 +836,28 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 		}
 	}
 
+	// Remember the position of the last module
+	const char *lastBytecode = rootModule ? BinaryCache::GetBytecode("__last.nc") : NULL;
+
+	if(lastBytecode && ((ByteCode*)lastBytecode)->size == bCode->size && memcmp(lastBytecode, code, bCode->size) == 0)
+	{
+		lastFunctionStart = oldFunctionCount;
+		lastVariableOffset = oldGlobalSize;
+		lastSourceOffset = oldSourceSize;
+
+		for(unsigned i = 0; i < exModules.size(); i++)
+		{
+			if(exModules[i].nameHash == NULLC::GetStringHash("__last.nc"))
+			{
+				exModules[i].funcStart = lastFunctionStart;
+				exModules[i].funcCount = bCode->functionCount - bCode->moduleFunctionCount;
+				exModules[i].variableOffset = lastVariableOffset;
+				exModules[i].sourceOffset = lastSourceOffset;
+				exModules[i].sourceSize = bCode->sourceSize;
+			}
+		}
+	}
+
 	if(rootModule && moduleName)
 	{
 		exMainModuleName.clear();
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index 26fce62..00e9f65 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -83,5 +83,10 @@ public:
 
 	FastVector<unsigned char>	fullLinkerData;
 
+	// Position of the code that can be imported as '__last'
+	unsigned lastFunctionStart;
+	unsigned lastVariableOffset;
+	unsigned lastSourceOffset;
+
 	unsigned debugOutputIndent;
 };
-- 
2.43.0


From 730875a819e5bf866822e07a90d2aa9f8c5f4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:59 +0000
Subject: [PATCH 62/88] fix: restore the linker when linking of a module fails

---
 NULLC/Executor_X86.cpp | 12 +++++++++++
 NULLC/Executor_X86.h   |  1 +
 NULLC/Linker.cpp       | 45 ++++++++++++++++++++++++++++++++++++++++++
 NULLC/Linker.h         | 22 +++++++++++++++++++++
 NULLC/nullc.cpp        |  6 ++++++
 5 files changed, 86 insertions(+)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 6a4528c..ce068b2 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -2012,6 +2012,18 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 	return true;
 }
 
+void ExecutorX86::UpdateLinkerData()
+{
+	if(!codeGenCtx)
+		return;
+
+	codeGenCtx->exFunctions = exFunctions.data;
+	codeGenCtx->exTypes = exTypes.data;
+	codeGenCtx->exTypeExtra = exLinker->exTypeExtra.data;
+	codeGenCtx->exLocals = exLinker->exLocals.data;
+	codeGenCtx->exSymbols = exLinker->exSymbols.data;
+}
+
 void ExecutorX86::UpdateFunctionPointer(unsigned source, unsigned target)
 {
 	functionAddress[source] = functionAddress[target];
diff --git a/NULLC/Executor_X86.h b/NULLC/Executor_X86.h
index ef32ac6..61a331d 100644
--- a/NULLC/Executor_X86.h
+++ b/NULLC/Executor_X86.h
@@ -36,6 +36,7 @@ public:
 	void	ClearNative();
 	bool	TranslateToNative(bool enableLogFiles, OutputContext &output);
 	void	UpdateFunctionPointer(unsigned source, unsigned target);
+	void	UpdateLinkerData();
 	void	SaveListing(OutputContext &output);
 
 	bool	Run(unsigned int functionID, const char *arguments);
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index b60899f..b685732 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -336,6 +336,24 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 
 	typeRemap.clear();
 
+	// Code that can't be linked in completely is removed
+	LinkerState state;
+	state.types = oldTypeCount;
+	state.typeExtra = oldMemberSize;
+	state.typeConstants = oldConstantSize;
+	state.variables = exVariables.size();
+	state.functions = oldFunctionCount;
+	state.functionExplicitTypeArrayOffsets = exFunctionExplicitTypeArrayOffsets.size();
+	state.functionExplicitTypes = exFunctionExplicitTypes.size();
+	state.locals = exLocals.size();
+	state.source = exSource.size();
+	state.regVmCode = exRegVmCode.size();
+	state.regVmSourceInfo = exRegVmSourceInfo.size();
+	state.regVmConstants = exRegVmConstants.size();
+	state.regVmRegKillInfo = exRegVmRegKillInfo.size();
+	state.regVmJumpTargets = regVmJumpTargets.size();
+	state.globalVarSize = globalVarSize;
+
 	// Add new symbols
 	exSymbols.resize(oldSymbolSize + bCode->symbolLength);
 	memcpy(&exSymbols[oldSymbolSize], FindSymbols(bCode), bCode->symbolLength);
@@ -400,6 +418,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 				debugOutputIndent--;
 
 				NULLC::SafeSprintf(linkError, LINK_ERROR_BUFFER_SIZE, "Link Error: type %s is redefined (%s) with a different size (%d != %d)", lastTypeInfo.offsetToName + &exSymbols[0], tInfo->offsetToName + symbolInfo, lastTypeInfo.size, tInfo->size);
+				UndoLink(state);
 				return false;
 			}
 
@@ -622,6 +641,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 					if(exModules[k].funcStart >= index && index < exModules[k].funcStart + exModules[k].funcCount)
 						NULLC::SafeSprintf(linkError, LINK_ERROR_BUFFER_SIZE, "Link Error: redefinition of module %s function '%s'", symbolInfo + exModules[k].nameOffset, symbolInfo + fInfo->offsetToName);
 				}
+				UndoLink(state);
 				return false;
 			}
 		}
@@ -647,6 +667,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 				else
 				{
 					NULLC::SafeSprintf(linkError, LINK_ERROR_BUFFER_SIZE, "Link Error: External function '%s' '%s' doesn't have implementation", FindSymbols(bCode) + exFunctions.back().offsetToName, &exSymbols[0] + exTypes[typeRemap[exFunctions.back().funcType]].offsetToName);
+					UndoLink(state);
 					return false;
 				}
 			}
@@ -1053,6 +1074,30 @@ bool Linker::SaveRegVmListing(OutputContext &output, bool withProfileInfo)
 	return true;
 }
 
+void Linker::UndoLink(const LinkerState &state)
+{
+	for(unsigned i = state.functions; i < exFunctions.size(); i++)
+		funcMap.remove(exFunctions[i].nameHash, i);
+
+	exTypes.shrink(state.types);
+	exTypeExtra.shrink(state.typeExtra);
+	exTypeConstants.shrink(state.typeConstants);
+	exVariables.shrink(state.variables);
+	exFunctions.shrink(state.functions);
+	exFunctionExplicitTypeArrayOffsets.shrink(state.functionExplicitTypeArrayOffsets);
+	exFunctionExplicitTypes.shrink(state.functionExplicitTypes);
+	exLocals.shrink(state.locals);
+	exSource.shrink(state.source);
+	exRegVmCode.shrink(state.regVmCode);
+	exRegVmExecCount.shrink(state.regVmCode);
+	exRegVmSourceInfo.shrink(state.regVmSourceInfo);
+	exRegVmConstants.shrink(state.regVmConstants);
+	exRegVmRegKillInfo.shrink(state.regVmRegKillInfo);
+	regVmJumpTargets.shrink(state.regVmJumpTargets);
+
+	globalVarSize = state.globalVarSize;
+}
+
 ExternFuncInfo* Linker::FindReplacedFunction(int instruction)
 {
 	for(unsigned i = 0; i < exReplacedFunctions.size(); i++)
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index 00e9f65..92fc6be 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -10,6 +10,26 @@ struct OutputContext;
 
 const int LINK_ERROR_BUFFER_SIZE = 512;
 
+// Amount of linked data
+struct LinkerState
+{
+	unsigned types;
+	unsigned typeExtra;
+	unsigned typeConstants;
+	unsigned variables;
+	unsigned functions;
+	unsigned functionExplicitTypeArrayOffsets;
+	unsigned functionExplicitTypes;
+	unsigned locals;
+	unsigned source;
+	unsigned regVmCode;
+	unsigned regVmSourceInfo;
+	unsigned regVmConstants;
+	unsigned regVmRegKillInfo;
+	unsigned regVmJumpTargets;
+	unsigned globalVarSize;
+};
+
 class Linker
 {
 public:
@@ -27,6 +47,8 @@ public:
 	void	FixupCallMicrocode(unsigned microcode, unsigned oldGlobalSize);
 	void	FixupReturnMicrocode(unsigned microcode, unsigned oldGlobalSize);
 
+	void	UndoLink(const LinkerState &state);
+
 	ExternFuncInfo*	FindReplacedFunction(int instruction);
 public:
 	char		linkError[LINK_ERROR_BUFFER_SIZE];
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index 0d0f80c..e4a17db 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -740,6 +740,12 @@ nullres nullcLinkCodeWithModuleName(const char *bytecode, const char *moduleName
 #ifndef NULLC_NO_EXECUTOR
 	if(!linker->LinkCode(bytecode, moduleName, true))
 	{
+#ifdef NULLC_BUILD_X86_JIT
+		// Code that is executing might have to use the data that was relocated
+		if(currExec == NULLC_X86)
+			executorX86->UpdateLinkerData();
+#endif
+
 		nullcLastError = linker->GetLinkError();
 		return false;
 	}
-- 
2.43.0


From c3585f5bd2713d7082cf344d1e9e4fe8405aadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:23 +0000
Subject: [PATCH 63/88] fix: initialize global variables of code linked after
 the last run

---
 NULLC/Executor_RegVm.cpp | 6 ++++++
 NULLC/Executor_X86.cpp   | 6 ++++++
 NULLC/Linker.cpp         | 2 ++
 NULLC/Linker.h           | 1 +
 4 files changed, 15 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 1f94caa..b49b8f4 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -121,6 +121,12 @@ void ExecutorRegVm::InitExecution()
 	dataStack.clear();
 	dataStack.resize((exLinker->globalVarSize + 0xf) & ~0xf);
 
+	// Initialize global variables of the code that was linked in since the last run
+	if(exLinker->globalVarInitSize < exLinker->globalVarSize)
+		memset(dataStack.data + exLinker->globalVarInitSize, 0, exLinker->globalVarSize - exLinker->globalVarInitSize);
+
+	exLinker->globalVarInitSize = exLinker->globalVarSize;
+
 	GC::SetUnmanagableRange(dataStack.data, dataStack.max);
 
 	execErrorMessage = NULL;
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index ce068b2..43c24cd 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -799,6 +799,12 @@ bool ExecutorX86::InitExecution()
 		return false;
 	}
 
+	// Initialize global variables of the code that was linked in since the last run
+	if(exLinker->globalVarInitSize < exLinker->globalVarSize)
+		NULLC::fillMemory(vmState.dataStackBase + exLinker->globalVarInitSize, 0, exLinker->globalVarSize - exLinker->globalVarInitSize);
+
+	exLinker->globalVarInitSize = exLinker->globalVarSize;
+
 	GC::SetUnmanagableRange(vmState.dataStackBase, unsigned(vmState.dataStackEnd - vmState.dataStackBase));
 
 	execErrorMessage = NULL;
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index b685732..60e8a2e 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -42,6 +42,7 @@ namespace NULLC
 Linker::Linker(): exTypes(128), exTypeExtra(256), exTypeConstants(256), exVariables(128), exFunctions(256), exLocals(1024), exSymbols(8192), regVmJumpTargets(1024)
 {
 	globalVarSize = 0;
+	globalVarInitSize = 0;
 
 	typeMap.init();
 	funcMap.init();
@@ -109,6 +110,7 @@ void Linker::CleanCode()
 	regVmJumpTargets.clear();
 
 	globalVarSize = 0;
+	globalVarInitSize = 0;
 
 	typeRemap.clear();
 	funcRemap.clear();
diff --git a/NULLC/Linker.h b/NULLC/Linker.h
index 92fc6be..15761ac 100644
--- a/NULLC/Linker.h
+++ b/NULLC/Linker.h
@@ -82,6 +82,7 @@ public:
 	FastVector<unsigned*>			expiredRegVmConstants;
 
 	unsigned int					globalVarSize;
+	unsigned int					globalVarInitSize; // Amount of global variable memory that is initialized
 
 #ifdef NULLC_LLVM_SUPPORT
 	FastVector<unsigned int>	llvmModuleSizes;
-- 
2.43.0


From 5a1be8b29fc9296f0defed8893f6265005701135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:46 +0000
Subject: [PATCH 64/88] fix: start every x86 translation with a clean optimizer
 state

---
 NULLC/Executor_X86.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 43c24cd..659e24d 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1336,6 +1336,9 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 	vmState.ctx = codeGenCtx;
 	vmState.exRegVmConstants = exRegVmConstants.data;
 
+	// Optimizer state of the previous translation refers to instructions that are no longer in the list
+	codeGenCtx->ctx = CodeGenGenericContext();
+
 	codeGenCtx->ctx.SetLastInstruction(instList.data, instList.data);
 
 	CommonSetLinker(exLinker);
-- 
2.43.0


From a9ff7f792e806c957c53c43e060b571e86d11a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:08 +0000
Subject: [PATCH 65/88] fix: use constants of the linked code in x86 functions
 linked while others are active

---
 NULLC/Executor_X86.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index 659e24d..f297717 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1470,6 +1470,9 @@ bool ExecutorX86::TranslateToNative(bool enableLogFiles, OutputContext &output)
 				EMIT_OP_REG_RPTR(codeGenCtx->ctx, o_mov64, rRBX, sQWORD, rR13, nullcOffsetOf(&vmState, regFileLastTop));
 				EMIT_OP_REG_RPTR(codeGenCtx->ctx, o_mov64, rR15, sQWORD, rR13, nullcOffsetOf(&vmState, dataStackTop));
 
+				// Constants are moved when new code is linked while other functions are active
+				EMIT_OP_REG_RPTR(codeGenCtx->ctx, o_mov64, rR14, sQWORD, rR13, nullcOffsetOf(&vmState, exRegVmConstants));
+
 				EMIT_OP_REG_RPTR(codeGenCtx->ctx, o_mov64, rRAX, sQWORD, rR13, nullcOffsetOf(&vmState, dataStackBase));
 				EMIT_OP_RPTR_REG(codeGenCtx->ctx, o_mov64, sQWORD, rRBX, 0, rRAX);
 
-- 
2.43.0


From fd108dc96d122e88c9708c4b5a4d2d6c0959b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:22 +0000
Subject: [PATCH 66/88] fix: skip globals without a value and find active
 frames when code was linked after the start of execution

---
 NULLC/Executor_Common.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 6b7ecf4..c70fb76 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -1081,6 +1081,10 @@ void GC::MarkUsedBlocks()
 		// Mark global variables
 		for(unsigned int i = 0; i < NULLC::commonLinker->exVariables.size(); i++)
 		{
+			// Variables of the code that was linked in after the start of execution do not have a value yet
+			if(vars[i].offset >= NULLC::commonLinker->globalVarInitSize)
+				continue;
+
 			GC_DEBUG_PRINT("Global %s %s (with offset of %d)\n", symbols + types[vars[i].type].offsetToName, symbols + vars[i].offsetToName, vars[i].offset);
 			GC::CheckVariable(GC::unmanageableBase + vars[i].offset, types[vars[i].type]);
 		}
@@ -1101,8 +1105,8 @@ void GC::MarkUsedBlocks()
 #endif
 	}
 
-	// Starting stack offset is equal to global variable size
-	int offset = NULLC::commonLinker->globalVarSize;
+	// Starting stack offset is equal to global variable size at the start of execution
+	int offset = NULLC::commonLinker->globalVarInitSize;
 
 	// Init stack trace
 	unsigned currentFrame = 0;
-- 
2.43.0


From 2cd5bac77d2f5f2ca0cea4b383f34b1764bfbc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:06 +0000
Subject: [PATCH 67/88] fix: drop the call stack of a failed run when code is
 cleaned

---
 NULLC/Executor_RegVm.cpp | 5 +++++
 NULLC/Executor_RegVm.h   | 1 +
 NULLC/Executor_X86.cpp   | 5 +++++
 NULLC/Executor_X86.h     | 1 +
 NULLC/nullc.cpp          | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index b49b8f4..090417f 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1864,6 +1864,11 @@ void ExecutorRegVm::SetBreakFunction(void *context, unsigned (*callback)(void*,
 	breakFunction = callback;
 }
 
+void ExecutorRegVm::ClearCallStack()
+{
+	callStack.clear();
+}
+
 void ExecutorRegVm::ClearBreakpoints()
 {
 	// Check all instructions for break instructions
diff --git a/NULLC/Executor_RegVm.h b/NULLC/Executor_RegVm.h
index 7b26bf7..7809883 100644
--- a/NULLC/Executor_RegVm.h
+++ b/NULLC/Executor_RegVm.h
@@ -42,6 +42,7 @@ public:
 	void*		GetStackEnd();
 
 	void	SetBreakFunction(void *context, unsigned (*callback)(void*, unsigned));
+	void	ClearCallStack();
 	void	ClearBreakpoints();
 	bool	AddBreakpoint(unsigned instruction, bool oneHit);
 	bool	RemoveBreakpoint(unsigned instruction);
diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index f297717..b425fd1 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -2218,6 +2218,11 @@ void ExecutorX86::SetBreakFunction(void *context, unsigned (*callback)(void*, un
 	breakFunction = callback;
 }
 
+void ExecutorX86::ClearCallStack()
+{
+	vmState.callStackTop = vmState.callStackBase;
+}
+
 void ExecutorX86::ClearBreakpoints()
 {
 	for(unsigned i = 0; i < breakInstructions.size(); i++)
diff --git a/NULLC/Executor_X86.h b/NULLC/Executor_X86.h
index 61a331d..699fd2b 100644
--- a/NULLC/Executor_X86.h
+++ b/NULLC/Executor_X86.h
@@ -64,6 +64,7 @@ public:
 	void*		GetStackEnd();
 
 	void	SetBreakFunction(void *context, unsigned (*callback)(void*, unsigned));
+	void	ClearCallStack();
 	void	ClearBreakpoints();
 	bool	AddBreakpoint(unsigned int instruction, bool oneHit);
 	bool	RemoveBreakpoint(unsigned int instruction);
diff --git a/NULLC/nullc.cpp b/NULLC/nullc.cpp
index e4a17db..3d1aabb 100644
--- a/NULLC/nullc.cpp
+++ b/NULLC/nullc.cpp
@@ -710,11 +710,14 @@ void nullcClean()
 #ifndef NULLC_NO_EXECUTOR
 	linker->CleanCode();
 
+	// Call stack of the last execution might have been left for an error report
 	#ifdef NULLC_BUILD_X86_JIT
 	executorX86->ClearNative();
+	executorX86->ClearCallStack();
 	#endif
 
 	executorRegVm->ClearBreakpoints();
+	executorRegVm->ClearCallStack();
 #endif
 
 	nullcLastError = "";
-- 
2.43.0


From ed6f6b4e55397624df96a0fff1c039361d75280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:56 +0000
Subject: [PATCH 68/88] fix: language server ignores a message that was cut by
 the end of the input

---
 vscode/nullc_lang_server/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vscode/nullc_lang_server/main.cpp b/vscode/nullc_lang_server/main.cpp
index f4c7f71..732380e 100644
--- a/vscode/nullc_lang_server/main.cpp
+++ b/vscode/nullc_lang_server/main.cpp
@@ -81,6 +81,10 @@ int main(int argc, char **argv)
 
 				std::cin.read(message.data(), expectedLength);
 
+				// Input has ended inside the message
+				if((unsigned)std::cin.gcount() != expectedLength)
+					break;
+
 				if(ctx.debugMode)
 					fprintf(stderr, "DEBUG: Received message '%.*s'\n", (int)expectedLength, message.data());
 
-- 
2.43.0


From 2cba8e8db053813499d055c9746136caf80c77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:56 +0000
Subject: [PATCH 69/88] fix: language server -mp option loses the first
 character of the path

---
 vscode/nullc_lang_server/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode/nullc_lang_server/main.cpp b/vscode/nullc_lang_server/main.cpp
index 732380e..8130264 100644
--- a/vscode/nullc_lang_server/main.cpp
+++ b/vscode/nullc_lang_server/main.cpp
@@ -34,7 +34,7 @@ int main(int argc, char **argv)
 		}
 		else if(strncmp(argv[i], "-mp=", strlen("-mp=")) == 0)
 		{
-			ctx.defaultModulePath = argv[i] + strlen("--mp=");
+			ctx.defaultModulePath = argv[i] + strlen("-mp=");
 		}
 		else if(strcmp(argv[i], "--debug_full_messages") == 0)
 		{
-- 
2.43.0


From 5d93e8dfb71b085f05cda438b2052e24907b7553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:56 +0000
Subject: [PATCH 70/88] fix: language server limits change positions by the
 line length

---
 vscode/nullc_lang_server/handler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vscode/nullc_lang_server/handler.cpp b/vscode/nullc_lang_server/handler.cpp
index 4f6672d..015e5e2 100644
--- a/vscode/nullc_lang_server/handler.cpp
+++ b/vscode/nullc_lang_server/handler.cpp
@@ -2925,8 +2925,12 @@ bool HandleDidChange(Context& ctx, rapidjson::Value& arguments)
 				}
 			}
 
-			start += range.start.character;
-			end += range.end.character;
+			// Character position is limited by the line length
+			for(int i = 0; i < range.start.character && *start && *start != '\r' && *start != '\n'; i++)
+				start++;
+
+			for(int i = 0; i < range.end.character && *end && *end != '\r' && *end != '\n'; i++)
+				end++;
 
 			const char *replacement = el["text"].GetString();
 
-- 
2.43.0


From 20780a62a594a05524dc2b8a0eaad7f4af871696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:56 +0000
Subject: [PATCH 71/88] fix: language server keeps working when the client has
 no configuration or refuses to provide it

---
 vscode/nullc_lang_server/handler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vscode/nullc_lang_server/handler.cpp b/vscode/nullc_lang_server/handler.cpp
index 015e5e2..b6c1d61 100644
--- a/vscode/nullc_lang_server/handler.cpp
+++ b/vscode/nullc_lang_server/handler.cpp
@@ -1031,11 +1031,15 @@ bool HandleConfigurationResponse(Context& ctx, rapidjson::Value& response)
 
 	for(auto &&el : response.GetArray())
 	{
+		// Configuration section might be missing
+		if(!el.IsObject())
+			continue;
+
 		if(el.HasMember("trace"))
 		{
 			auto &trace = el["trace"];
 
-			if(trace.HasMember("server") && trace["server"].IsString())
+			if(trace.IsObject() && trace.HasMember("server") && trace["server"].IsString())
 			{
 				if(ctx.debugMode)
 					fprintf(stderr, "DEBUG: Switching trace level to '%s'\n", trace["server"].GetString());
@@ -3021,8 +3025,8 @@ bool HandleMessage(Context& ctx, char *message, unsigned length)
 
 	if(doc.HasMember("error"))
 	{
-		fprintf(stderr, "ERROR: Server request resulted in an error\n");
-		return false;
+		fprintf(stderr, "WARNING: Server request resulted in an error\n");
+		return true;
 	}
 
 	if(!doc.HasMember("method"))
-- 
2.43.0


From d0544890dbc2971ec879535be1f689cc6ec08edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:56 +0000
Subject: [PATCH 72/88] fix: language server forgets the text of a closed
 document

---
 vscode/nullc_lang_server/handler.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vscode/nullc_lang_server/handler.cpp b/vscode/nullc_lang_server/handler.cpp
index b6c1d61..0da7178 100644
--- a/vscode/nullc_lang_server/handler.cpp
+++ b/vscode/nullc_lang_server/handler.cpp
@@ -2954,6 +2954,18 @@ bool HandleDidChange(Context& ctx, rapidjson::Value& arguments)
 	return true;
 }
 
+bool HandleDidClose(Context& ctx, rapidjson::Value& arguments)
+{
+	std::string uri = arguments["textDocument"]["uri"].GetString();
+
+	if(ctx.debugMode)
+		fprintf(stderr, "DEBUG: Closed document '%s'\n", uri.c_str());
+
+	ctx.documents.erase(uri);
+
+	return true;
+}
+
 bool HandleMessage(Context& ctx, unsigned idNumber, const char *idString, const char *method, rapidjson::Value& arguments)
 {
 	rapidjson::Document response;
@@ -2996,6 +3008,8 @@ bool HandleNotification(Context& ctx, const char *method, rapidjson::Value& argu
 		return HandleDidOpen(ctx, arguments);
 	else if(strcmp(method, "textDocument/didChange") == 0)
 		return HandleDidChange(ctx, arguments);
+	else if(strcmp(method, "textDocument/didClose") == 0)
+		return HandleDidClose(ctx, arguments);
 
 	return true;
 }
-- 
2.43.0


From 3979f3878adc08a1e04813b36eb3e641d838f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:12 +0000
Subject: [PATCH 73/88] fix: type constructor name lookup does not read past
 the end of the type name

---
 NULLC/ExpressionTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 6e360f2..a3beda3 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -9865,9 +9865,9 @@ InplaceStr GetTypeConstructorName(InplaceStr functionName)
 	// TODO: add type scopes and lookup owner namespace
 	for(const char *pos = functionName.end; pos > functionName.begin; pos--)
 	{
-		if(*pos == '.')
+		if(pos[-1] == '.')
 		{
-			functionName = InplaceStr(pos + 1, functionName.end);
+			functionName = InplaceStr(pos, functionName.end);
 			break;
 		}
 	}
-- 
2.43.0


From 5311ba5c536af14aceee590bac33aaa652839ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 74/88] fix: a breakpoint replaces a one time breakpoint left
 by a step command

---
 NULLC/Executor_RegVm.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/NULLC/Executor_RegVm.cpp b/NULLC/Executor_RegVm.cpp
index 090417f..cddcec7 100644
--- a/NULLC/Executor_RegVm.cpp
+++ b/NULLC/Executor_RegVm.cpp
@@ -1915,6 +1915,13 @@ bool ExecutorRegVm::AddBreakpoint(unsigned instruction, bool oneHit)
 		return false;
 	}
 
+	// A one time breakpoint that was left by a step command is replaced by a regular breakpoint
+	if(!oneHit && exLinker->exRegVmCode[instruction].code == rviNop && exLinker->exRegVmCode[instruction].rB == EXEC_BREAK_ONCE)
+	{
+		exLinker->exRegVmCode[instruction].rB = EXEC_BREAK_SIGNAL;
+		return true;
+	}
+
 	if(exLinker->exRegVmCode[instruction].code == rviNop)
 	{
 		NULLC::SafeSprintf(execErrorBuffer, NULLC_ERROR_BUFFER_SIZE, "ERROR: cannot set breakpoint on breakpoint");
-- 
2.43.0


From 62fef5cdb2a212255480b5a0f42e44b30f7979d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 75/88] fix: debug adapter hands commands over to the
 application thread under a lock and stops the application at the end of the
 input

---
 vscode/nullc_lang_debugger/context.h   | 16 +++--
 vscode/nullc_lang_debugger/debug.cpp   | 53 ++++++++++++++--
 vscode/nullc_lang_debugger/debug.h     |  3 +
 vscode/nullc_lang_debugger/handler.cpp | 87 +++-----------------------
 vscode/nullc_lang_debugger/main.cpp    |  7 +++
 5 files changed, 76 insertions(+), 90 deletions(-)

diff --git a/vscode/nullc_lang_debugger/context.h b/vscode/nullc_lang_debugger/context.h
index fe8f150..1feacda 100644
--- a/vscode/nullc_lang_debugger/context.h
+++ b/vscode/nullc_lang_debugger/context.h
@@ -30,19 +30,23 @@ struct Context
 
 	std::mutex outputMutex;
 
-	std::atomic<bool> running;
+	std::atomic<bool> running{ false };
 
+	// Protects the hand-over of commands from the request thread to the application thread (breakpointActive, breakpointAction and pendingStop)
 	std::mutex breakpointMutex;
 	std::condition_variable breakpointWait;
 
-	std::atomic<bool> breakpointActive;
-	std::atomic<unsigned> breakpointLastModule;
-	std::atomic<unsigned> breakpointLastLine;
-	std::atomic<unsigned> breakpointAction;
+	std::atomic<bool> breakpointActive{ false };
+	std::atomic<unsigned> breakpointLastModule{ ~0u };
+	std::atomic<unsigned> breakpointLastLine{ ~0u };
+	std::atomic<unsigned> breakpointAction{ 0 };
+
+	// Application has to stop at the first opportunity
+	std::atomic<bool> pendingStop{ false };
 
 	std::thread applicationThread;
 
-	std::atomic<bool> pendingRestart;
+	std::atomic<bool> pendingRestart{ false };
 
 	struct VariableReference
 	{
diff --git a/vscode/nullc_lang_debugger/debug.cpp b/vscode/nullc_lang_debugger/debug.cpp
index 9c0110a..289ed2f 100644
--- a/vscode/nullc_lang_debugger/debug.cpp
+++ b/vscode/nullc_lang_debugger/debug.cpp
@@ -28,7 +28,14 @@ unsigned OnDebugBreak(void *context, unsigned instruction)
 
 	//SendEventStopped(ctx, StoppedEventData("breakpoint", "Breakpoint Hit", 1, false, "Manual Breakpoint", true));
 
-	ctx.breakpointActive.store(true);
+	{
+		std::lock_guard<std::mutex> lock(ctx.breakpointMutex);
+
+		if(ctx.pendingStop.load())
+			return NULLC_BREAK_STOP;
+
+		ctx.breakpointActive.store(true);
+	}
 
 	ctx.breakpointLastLine.store(line);
 	ctx.breakpointLastModule.store(moduleIndex);
@@ -38,15 +45,51 @@ unsigned OnDebugBreak(void *context, unsigned instruction)
 
 	SendEventStopped(ctx, StoppedEventData("breakpoint", 1));
 
+	std::unique_lock<std::mutex> lock(ctx.breakpointMutex);
+
+	// Command might arrive before the wait
+	ctx.breakpointWait.wait(lock, [&ctx]{
+		return !ctx.breakpointActive.load();
+	});
+
+	return ctx.breakpointAction.load();
+}
+
+bool ResumeApplication(Context &ctx, unsigned action)
+{
+	std::lock_guard<std::mutex> lock(ctx.breakpointMutex);
+
+	if(!ctx.breakpointActive.load())
+		return false;
+
+	ctx.breakpointAction.store(action);
+	ctx.breakpointActive.store(false);
+
+	ctx.breakpointWait.notify_one();
+
+	return true;
+}
+
+void StopApplication(Context &ctx)
+{
+	if(!ctx.applicationThread.joinable())
+		return;
+
+	if(ctx.debugMode)
+		fprintf(stderr, "DEBUG: Stopping application\r\n");
+
+	// If the application is not waiting at a breakpoint, it will stop when it reaches one
 	{
-		std::unique_lock<std::mutex> lock(ctx.breakpointMutex);
+		std::lock_guard<std::mutex> lock(ctx.breakpointMutex);
 
-		ctx.breakpointWait.wait(lock);
+		ctx.pendingStop.store(true);
 	}
 
-	ctx.breakpointActive.store(false);
+	ResumeApplication(ctx, NULLC_BREAK_STOP);
 
-	return ctx.breakpointAction.load();
+	ctx.applicationThread.join();
+
+	ctx.pendingStop.store(false);
 }
 
 void ApplicationThread(Context &ctx)
diff --git a/vscode/nullc_lang_debugger/debug.h b/vscode/nullc_lang_debugger/debug.h
index 6024353..d2a7332 100644
--- a/vscode/nullc_lang_debugger/debug.h
+++ b/vscode/nullc_lang_debugger/debug.h
@@ -8,6 +8,9 @@ unsigned OnDebugBreak(void *context, unsigned instruction);
 
 void LaunchApplicationThread(Context &ctx);
 
+bool ResumeApplication(Context &ctx, unsigned action);
+void StopApplication(Context &ctx);
+
 struct Source;
 const char* GetModuleSourceCode(Context &ctx, const Source& source);
 
diff --git a/vscode/nullc_lang_debugger/handler.cpp b/vscode/nullc_lang_debugger/handler.cpp
index 563923a..443934d 100644
--- a/vscode/nullc_lang_debugger/handler.cpp
+++ b/vscode/nullc_lang_debugger/handler.cpp
@@ -1856,12 +1856,7 @@ bool HandleRequestContinue(Context& ctx, rapidjson::Document &response, rapidjso
 
 	ContinueResponseData data;
 
-	if(ctx.breakpointActive.load())
-	{
-		ctx.breakpointAction = NULLC_BREAK_PROCEED;
-
-		ctx.breakpointWait.notify_one();
-	}
+	ResumeApplication(ctx, NULLC_BREAK_PROCEED);
 
 	data.allThreadsContinued = true;
 
@@ -1877,12 +1872,7 @@ bool HandleRequestNext(Context& ctx, rapidjson::Document &response, rapidjson::V
 {
 	NextArguments args{arguments};
 
-	if(ctx.breakpointActive.load())
-	{
-		ctx.breakpointAction = NULLC_BREAK_STEP;
-
-		ctx.breakpointWait.notify_one();
-	}
+	ResumeApplication(ctx, NULLC_BREAK_STEP);
 
 	response.AddMember("success", true, response.GetAllocator());
 
@@ -1895,12 +1885,7 @@ bool HandleRequestStepIn(Context& ctx, rapidjson::Document &response, rapidjson:
 {
 	StepInArguments args{arguments};
 
-	if(ctx.breakpointActive.load())
-	{
-		ctx.breakpointAction = NULLC_BREAK_STEP_INTO;
-
-		ctx.breakpointWait.notify_one();
-	}
+	ResumeApplication(ctx, NULLC_BREAK_STEP_INTO);
 
 	response.AddMember("success", true, response.GetAllocator());
 
@@ -1913,12 +1898,7 @@ bool HandleRequestStepOut(Context& ctx, rapidjson::Document &response, rapidjson
 {
 	StepOutArguments args{arguments};
 
-	if(ctx.breakpointActive.load())
-	{
-		ctx.breakpointAction = NULLC_BREAK_STEP_OUT;
-
-		ctx.breakpointWait.notify_one();
-	}
+	ResumeApplication(ctx, NULLC_BREAK_STEP_OUT);
 
 	response.AddMember("success", true, response.GetAllocator());
 
@@ -1933,26 +1913,9 @@ bool HandleRequestRestart(Context& ctx, rapidjson::Document &response, rapidjson
 
 	response.AddMember("success", true, response.GetAllocator());
 
-	if(ctx.applicationThread.joinable())
-	{
-		if(ctx.debugMode)
-			fprintf(stderr, "DEBUG: Stopping application\r\n");
-
-		ctx.pendingRestart.store(true);
+	ctx.pendingRestart.store(true);
 
-		if(ctx.breakpointActive.load())
-		{
-			ctx.breakpointAction = NULLC_BREAK_STOP;
-
-			ctx.breakpointWait.notify_one();
-		}
-		else
-		{
-			// TODO: stop application thread if it still exists
-		}
-
-		ctx.applicationThread.join();
-	}
+	StopApplication(ctx);
 
 	ctx.variableReferences.clear();
 	ctx.sourceBreakpoints.clear();
@@ -1975,24 +1938,7 @@ bool HandleRequestTerminate(Context& ctx, rapidjson::Document &response, rapidjs
 {
 	TerminateArguments args{arguments};
 
-	if(ctx.applicationThread.joinable())
-	{
-		if(ctx.debugMode)
-			fprintf(stderr, "DEBUG: Stopping application\r\n");
-
-		if(ctx.breakpointActive.load())
-		{
-			ctx.breakpointAction = NULLC_BREAK_STOP;
-
-			ctx.breakpointWait.notify_one();
-		}
-		else
-		{
-			// TODO: stop application thread if it still exists
-		}
-
-		ctx.applicationThread.join();
-	}
+	StopApplication(ctx);
 
 	if(ctx.nullcInitialized)
 	{
@@ -2014,24 +1960,7 @@ bool HandleRequestDisconnect(Context& ctx, rapidjson::Document &response, rapidj
 {
 	DisconnectArguments args{arguments};
 
-	if(ctx.applicationThread.joinable())
-	{
-		if(ctx.debugMode)
-			fprintf(stderr, "DEBUG: Stopping application\r\n");
-
-		if(ctx.breakpointActive.load())
-		{
-			ctx.breakpointAction = NULLC_BREAK_STOP;
-
-			ctx.breakpointWait.notify_one();
-		}
-		else
-		{
-			// TODO: stop application thread if it still exists
-		}
-
-		ctx.applicationThread.join();
-	}
+	StopApplication(ctx);
 
 	if(ctx.nullcInitialized)
 	{
diff --git a/vscode/nullc_lang_debugger/main.cpp b/vscode/nullc_lang_debugger/main.cpp
index 06a58a3..34f4b44 100644
--- a/vscode/nullc_lang_debugger/main.cpp
+++ b/vscode/nullc_lang_debugger/main.cpp
@@ -13,6 +13,7 @@
 #include "../../NULLC/nullc.h"
 
 #include "context.h"
+#include "debug.h"
 #include "handler.h"
 
 #pragma warning(disable: 4996)
@@ -83,7 +84,11 @@ int main(int argc, char **argv)
 				message.back() = 0;
 
 				if(!HandleMessage(ctx, message.data(), expectedLength))
+				{
+					StopApplication(ctx);
+
 					return 1;
+				}
 
 				expectedLength = 0;
 			}
@@ -125,6 +130,8 @@ int main(int argc, char **argv)
 		}
 	}
 
+	StopApplication(ctx);
+
 	if(ctx.nullcInitialized)
 		nullcTerminate();
 }
-- 
2.43.0


From 99e074e7e333894c8b3759f84a4fb2200d9d6ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 76/88] fix: debug adapter sends the terminated event once for
 each launch

---
 vscode/nullc_lang_debugger/context.h   | 3 +++
 vscode/nullc_lang_debugger/debug.cpp   | 6 +++++-
 vscode/nullc_lang_debugger/handler.cpp | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/vscode/nullc_lang_debugger/context.h b/vscode/nullc_lang_debugger/context.h
index 1feacda..ba60a69 100644
--- a/vscode/nullc_lang_debugger/context.h
+++ b/vscode/nullc_lang_debugger/context.h
@@ -48,6 +48,9 @@ struct Context
 
 	std::atomic<bool> pendingRestart{ false };
 
+	// Terminated event is sent once for each application launch
+	std::atomic<bool> terminatedSent{ false };
+
 	struct VariableReference
 	{
 		VariableReference() = default;
diff --git a/vscode/nullc_lang_debugger/debug.cpp b/vscode/nullc_lang_debugger/debug.cpp
index 289ed2f..ab96fd6 100644
--- a/vscode/nullc_lang_debugger/debug.cpp
+++ b/vscode/nullc_lang_debugger/debug.cpp
@@ -106,7 +106,9 @@ void ApplicationThread(Context &ctx)
 
 		SendEventThread(ctx, ThreadEventData("exited", 1));
 		SendEventExited(ctx, atoi(val));
-		SendEventTerminated(ctx);
+
+		if(!ctx.pendingRestart.load())
+			SendEventTerminated(ctx);
 	}
 	else
 	{
@@ -124,6 +126,8 @@ void ApplicationThread(Context &ctx)
 
 void LaunchApplicationThread(Context &ctx)
 {
+	ctx.terminatedSent.store(false);
+
 	ctx.applicationThread = std::thread([&ctx]{
 		ApplicationThread(ctx);
 	});
diff --git a/vscode/nullc_lang_debugger/handler.cpp b/vscode/nullc_lang_debugger/handler.cpp
index 443934d..fa8be05 100644
--- a/vscode/nullc_lang_debugger/handler.cpp
+++ b/vscode/nullc_lang_debugger/handler.cpp
@@ -150,6 +150,9 @@ void SendEventThread(Context& ctx, const ThreadEventData& data)
 
 void SendEventTerminated(Context& ctx)
 {
+	if(ctx.terminatedSent.exchange(true))
+		return;
+
 	rapidjson::Document response;
 	response.SetObject();
 
-- 
2.43.0


From 11596262fd0179c99904fcdcba852fc2a029fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 77/88] fix: debug adapter starts each launch with a clean step
 state and keeps breakpoints on restart

---
 vscode/nullc_lang_debugger/debug.cpp   | 4 ++++
 vscode/nullc_lang_debugger/handler.cpp | 1 -
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/vscode/nullc_lang_debugger/debug.cpp b/vscode/nullc_lang_debugger/debug.cpp
index ab96fd6..3ada5cd 100644
--- a/vscode/nullc_lang_debugger/debug.cpp
+++ b/vscode/nullc_lang_debugger/debug.cpp
@@ -126,6 +126,10 @@ void ApplicationThread(Context &ctx)
 
 void LaunchApplicationThread(Context &ctx)
 {
+	ctx.breakpointAction.store(NULLC_BREAK_PROCEED);
+	ctx.breakpointLastLine.store(~0u);
+	ctx.breakpointLastModule.store(~0u);
+
 	ctx.terminatedSent.store(false);
 
 	ctx.applicationThread = std::thread([&ctx]{
diff --git a/vscode/nullc_lang_debugger/handler.cpp b/vscode/nullc_lang_debugger/handler.cpp
index fa8be05..66fed0d 100644
--- a/vscode/nullc_lang_debugger/handler.cpp
+++ b/vscode/nullc_lang_debugger/handler.cpp
@@ -1921,7 +1921,6 @@ bool HandleRequestRestart(Context& ctx, rapidjson::Document &response, rapidjson
 	StopApplication(ctx);
 
 	ctx.variableReferences.clear();
-	ctx.sourceBreakpoints.clear();
 
 	ctx.pendingRestart.store(false);
 
-- 
2.43.0


From fc3028872306288cedfd953d1dc069d7efcaf5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 78/88] fix: debug adapter treats 'lines' breakpoints the same
 way as 'breakpoints', lines start at 1 by default

---
 vscode/nullc_lang_debugger/handler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vscode/nullc_lang_debugger/handler.cpp b/vscode/nullc_lang_debugger/handler.cpp
index 66fed0d..149555b 100644
--- a/vscode/nullc_lang_debugger/handler.cpp
+++ b/vscode/nullc_lang_debugger/handler.cpp
@@ -285,7 +285,7 @@ bool HandleRequestSetBreakpoints(Context& ctx, rapidjson::Document &response, ra
 			{
 				if(moduleSource)
 				{
-					unsigned zeroBasedLine = el.line - (ctx.initArgs.linesStartAt1 && *ctx.initArgs.linesStartAt1 ? 1 : 0);
+					unsigned zeroBasedLine = el.line - (!ctx.initArgs.linesStartAt1 || *ctx.initArgs.linesStartAt1 ? 1 : 0);
 
 					if(unsigned instruction = ConvertLineToInstruction(moduleSource, zeroBasedLine))
 					{
@@ -335,11 +335,15 @@ bool HandleRequestSetBreakpoints(Context& ctx, rapidjson::Document &response, ra
 
 			if(moduleSource)
 			{
-				if(unsigned instruction = ConvertLineToInstruction(moduleSource, el))
+				unsigned zeroBasedLine = el - (!ctx.initArgs.linesStartAt1 || *ctx.initArgs.linesStartAt1 ? 1 : 0);
+
+				if(unsigned instruction = ConvertLineToInstruction(moduleSource, zeroBasedLine))
 				{
 					if(nullcDebugAddBreakpoint(instruction))
 					{
-						breakpoint.line = el - (ctx.initArgs.linesStartAt1 && *ctx.initArgs.linesStartAt1 ? 1 : 0);
+						activeBreakpoints.push_back(instruction);
+
+						breakpoint.line = el;
 
 						breakpoint.verified = true;
 					}
-- 
2.43.0


From bdb9dfbbde97f96f26673bad6e5076714505003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 79/88] fix: debug adapter ignores a message that was cut by
 the end of the input

---
 vscode/nullc_lang_debugger/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vscode/nullc_lang_debugger/main.cpp b/vscode/nullc_lang_debugger/main.cpp
index 34f4b44..76d9a76 100644
--- a/vscode/nullc_lang_debugger/main.cpp
+++ b/vscode/nullc_lang_debugger/main.cpp
@@ -78,6 +78,10 @@ int main(int argc, char **argv)
 
 				std::cin.read(message.data(), expectedLength);
 
+				// Input has ended before the whole message was received
+				if((unsigned)std::cin.gcount() != expectedLength)
+					break;
+
 				if(ctx.debugMode)
 					fprintf(stderr, "DEBUG: Received message '%.*s'\r\n", (int)expectedLength, message.data());
 
-- 
2.43.0


From 4f4c2ee20375d0484255d87c9303dd8e18e8dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 80/88] fix: debug adapter -mp option loses the first character
 of the path

---
 vscode/nullc_lang_debugger/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode/nullc_lang_debugger/main.cpp b/vscode/nullc_lang_debugger/main.cpp
index 76d9a76..8faa752 100644
--- a/vscode/nullc_lang_debugger/main.cpp
+++ b/vscode/nullc_lang_debugger/main.cpp
@@ -35,7 +35,7 @@ int main(int argc, char **argv)
 		}
 		else if(strncmp(argv[i], "-mp=", strlen("-mp=")) == 0)
 		{
-			ctx.defaultModulePath = argv[i] + strlen("--mp=");
+			ctx.defaultModulePath = argv[i] + strlen("-mp=");
 		}
 	}
 
-- 
2.43.0


From cb93b799b9bc1bd10e832c7d63d2286c15d95b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 81/88] fix: debug adapter gives out each sequence number once

---
 vscode/nullc_lang_debugger/context.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode/nullc_lang_debugger/context.h b/vscode/nullc_lang_debugger/context.h
index ba60a69..5d2f943 100644
--- a/vscode/nullc_lang_debugger/context.h
+++ b/vscode/nullc_lang_debugger/context.h
@@ -19,7 +19,7 @@ struct Context
 
 	bool nullcInitialized = false;
 
-	int seq = 1;
+	std::atomic<int> seq{ 1 };
 
 	InitializeRequestArguments initArgs;
 	LaunchRequestArguments launchArgs;
-- 
2.43.0


From 05947466154a150df2be4e3693f16d09f1b5e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:10 +0000
Subject: [PATCH 82/88] fix: debug adapter refuses requests that are not
 possible in the current state

---
 vscode/nullc_lang_debugger/handler.cpp | 27 ++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/vscode/nullc_lang_debugger/handler.cpp b/vscode/nullc_lang_debugger/handler.cpp
index 149555b..141b455 100644
--- a/vscode/nullc_lang_debugger/handler.cpp
+++ b/vscode/nullc_lang_debugger/handler.cpp
@@ -258,6 +258,9 @@ bool HandleRequestInitialize(Context& ctx, rapidjson::Document &response, rapidj
 
 bool HandleRequestSetBreakpoints(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.nullcInitialized)
+		return RespondWithError(ctx, response, "application is not launched");
+
 	SetBreakpointsArguments args{arguments};
 
 	std::vector<Breakpoint> breakpoints;
@@ -449,6 +452,9 @@ bool HandleRequestSetExceptionBreakpoints(Context& ctx, rapidjson::Document &res
 
 bool HandleRequestConfigurationDone(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.nullcInitialized || ctx.applicationThread.joinable())
+		return RespondWithError(ctx, response, "application is not launched or is already running");
+
 	(void)arguments;
 
 	response.AddMember("success", true, response.GetAllocator());
@@ -775,6 +781,9 @@ Source GetModuleSourceInfo(Context& ctx, unsigned moduleIndex)
 
 bool HandleRequestLoadedSources(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.nullcInitialized)
+		return RespondWithError(ctx, response, "application is not launched");
+
 	(void)arguments;
 
 	LoadedSourcesResponseData data;
@@ -797,6 +806,9 @@ bool HandleRequestLoadedSources(Context& ctx, rapidjson::Document &response, rap
 
 bool HandleRequestSource(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.nullcInitialized)
+		return RespondWithError(ctx, response, "application is not launched");
+
 	SourceArguments args{arguments};
 
 	SourceResponseData data;
@@ -868,6 +880,9 @@ bool HandleRequestThreads(Context& ctx, rapidjson::Document &response, rapidjson
 
 bool HandleRequestStackTrace(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.breakpointActive.load())
+		return RespondWithError(ctx, response, "application is not stopped");
+
 	StackTraceArguments args{arguments};
 
 	StackTraceResponseData data;
@@ -1007,6 +1022,9 @@ bool HandleRequestStackTrace(Context& ctx, rapidjson::Document &response, rapidj
 
 bool HandleRequestScopes(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.breakpointActive.load())
+		return RespondWithError(ctx, response, "application is not stopped");
+
 	ScopesArguments args{arguments};
 
 	ScopesResponseData data;
@@ -1287,6 +1305,9 @@ Variable GetVariableInfo(Context& ctx, unsigned typeIndex, const char *name, cha
 
 bool HandleRequestVariables(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.breakpointActive.load())
+		return RespondWithError(ctx, response, "application is not stopped");
+
 	VariablesArguments args{arguments};
 
 	VariablesResponseData data;
@@ -1608,6 +1629,9 @@ bool HandleRequestVariables(Context& ctx, rapidjson::Document &response, rapidjs
 
 bool HandleRequestSetVariable(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.breakpointActive.load())
+		return RespondWithError(ctx, response, "application is not stopped");
+
 	SetVariableArguments args{arguments};
 
 	SetVariableResponseData data;
@@ -1916,6 +1940,9 @@ bool HandleRequestStepOut(Context& ctx, rapidjson::Document &response, rapidjson
 
 bool HandleRequestRestart(Context& ctx, rapidjson::Document &response, rapidjson::Value &arguments)
 {
+	if(!ctx.nullcInitialized)
+		return RespondWithError(ctx, response, "application is not launched");
+
 	(void)arguments;
 
 	response.AddMember("success", true, response.GetAllocator());
-- 
2.43.0


From 0016aefdf6e92486f7730a32a4fa599d3d38f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:19 +0000
Subject: [PATCH 83/88] fix: release register file of interrupted functions
 after an error in x86 executor

---
 NULLC/Executor_X86.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/Executor_X86.cpp b/NULLC/Executor_X86.cpp
index b425fd1..7c00c6c 100644
--- a/NULLC/Executor_X86.cpp
+++ b/NULLC/Executor_X86.cpp
@@ -1102,8 +1102,8 @@ bool ExecutorX86::Run(unsigned int functionID, const char *arguments)
 
 	vmState.regFileLastPtr = prevRegFilePtr;
 
-	if(functionID == ~0u)
-		vmState.regFileLastTop -= 256;
+	// If there was an execution error, register file still contains all interrupted functions
+	vmState.regFileLastTop = regFilePtr;
 
 	vmState.dataStackTop = vmState.dataStackBase + prevDataSize;
 
-- 
2.43.0


From 66ae45f67c7a83866549922c85ff7960f7161756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:18 +0000
Subject: [PATCH 84/88] fix: reject functions with one argument in a guarded
 call

---
 NULLC/includes/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NULLC/includes/error.cpp b/NULLC/includes/error.cpp
index 7c5d88c..cfbe919 100644
--- a/NULLC/includes/error.cpp
+++ b/NULLC/includes/error.cpp
@@ -33,7 +33,7 @@ namespace NULLCError
 			return false;
 		}
 
-		if(exTypes[function.typeID].memberCount > 1)
+		if(exTypes[function.typeID].memberCount != 0)
 		{
 			nullcThrowError("ERROR: can't call function with arguments");
 			return false;
-- 
2.43.0


From 9635306e758576501e150bf91e53b9a8c6a517e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:50 +0000
Subject: [PATCH 85/88] fix: closure types of different modules had the same
 name and were merged by the linker

---
 NULLC/ExpressionTree.cpp | 2 ++
 NULLC/ExpressionTree.h   | 1 +
 NULLC/TypeTree.cpp       | 4 ++++
 3 files changed, 7 insertions(+)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index a3beda3..3717c04 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -1063,6 +1063,7 @@ namespace
 ExpressionContext::ExpressionContext(Allocator *allocator, int optimizationLevel): optimizationLevel(optimizationLevel), functionTypeMap(allocator), allocator(allocator)
 {
 	code = NULL;
+	codeHash = 0;
 	codeEnd = NULL;
 
 	moduleRoot = NULL;
@@ -13660,6 +13661,7 @@ ExprModule* Analyze(ExpressionContext &ctx, SynModule *syntax, const char *code,
 	assert(!ctx.globalScope);
 
 	ctx.code = code;
+	ctx.codeHash = NULLC::GetStringHash(code);
 	ctx.codeEnd = code + strlen(code);
 
 	ctx.moduleRoot = moduleRoot;
diff --git a/NULLC/ExpressionTree.h b/NULLC/ExpressionTree.h
index e7c612f..5def505 100644
--- a/NULLC/ExpressionTree.h
+++ b/NULLC/ExpressionTree.h
@@ -274,6 +274,7 @@ struct ExpressionContext
 
 	// Full state info
 	const char *code;
+	unsigned codeHash;
 	const char *codeEnd;
 
 	const char *moduleRoot;
diff --git a/NULLC/TypeTree.cpp b/NULLC/TypeTree.cpp
index 9784c3f..84c6e00 100644
--- a/NULLC/TypeTree.cpp
+++ b/NULLC/TypeTree.cpp
@@ -390,6 +390,10 @@ InplaceStr GetFunctionContextTypeName(ExpressionContext &ctx, InplaceStr functio
 	*pos++ = '_';
 	pos = NameWriteUnsigned(pos, index);
 
+	// Types are matched by name during linking, contexts from different modules have to remain different
+	*pos++ = '_';
+	pos = NameWriteUnsigned(pos, ctx.codeHash);
+
 	strcpy(pos, "_cls");
 	pos += strlen("_cls");
 
-- 
2.43.0


From a195b6b700758cfeda4070c38a9e1554333d2985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:29 +0000
Subject: [PATCH 86/88] fix: local functions of a module conflicted with
 functions of other modules

---
 NULLC/ExpressionTree.cpp | 2 +-
 NULLC/Linker.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NULLC/ExpressionTree.cpp b/NULLC/ExpressionTree.cpp
index 3717c04..a8bf6eb 100644
--- a/NULLC/ExpressionTree.cpp
+++ b/NULLC/ExpressionTree.cpp
@@ -13090,7 +13090,7 @@ void ImportModuleFunctions(ExpressionContext &ctx, SynBase *source, ModuleContex
 		if(data->name->name == InplaceStr("__newS") || data->name->name == InplaceStr("__newA") || data->name->name == InplaceStr("__closeUpvalue"))
 			data->isInternal = true;
 
-		if(function.funcCat == ExternFuncInfo::LOCAL)
+		if(function.funcCat == ExternFuncInfo::LOCAL || (function.funcCat == ExternFuncInfo::COROUTINE && !function.isVisible))
 			data->isHidden = true;
 
 		data->attributes = function.attributes;
diff --git a/NULLC/Linker.cpp b/NULLC/Linker.cpp
index 60e8a2e..83ce210 100644
--- a/NULLC/Linker.cpp
+++ b/NULLC/Linker.cpp
@@ -588,7 +588,7 @@ bool Linker::LinkCode(const char *code, const char *moduleName, bool rootModule)
 			{
 				ExternFuncInfo &prev = exFunctions[curr->value];
 
-				if(curr->value < oldFunctionCount && prev.funcType == remappedType && prev.explicitTypeCount == fInfo->explicitTypeCount)
+				if(curr->value < oldFunctionCount && prev.isVisible && prev.funcType == remappedType && prev.explicitTypeCount == fInfo->explicitTypeCount)
 				{
 					bool explicitTypeMatch = true;
 
-- 
2.43.0


From debd3f8364182c95d2bd324a1a724dc3b4edb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:46 +0000
Subject: [PATCH 87/88] fix: find integer members of nested classes when class
 arguments are passed to external functions

HasIntegerMembersInRange subtracted the offset of the nested member from
unsigned bounds. When the nested class did not start at the beginning of
the examined eightbyte, the lower bound wrapped around and its integer
members were missed, so the eightbyte was passed (and returned) in a
floating point register.
---
 NULLC/Executor_Common.cpp | 8 ++++----
 NULLC/Executor_Common.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index c70fb76..0f23188 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -100,7 +100,7 @@ bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMem
 	return aligned;
 }
 
-bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+bool HasIntegerMembersInRange(ExternTypeInfo &type, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
 {
 	for(unsigned m = 0; m < type.memberCount; m++)
 	{
@@ -115,18 +115,18 @@ bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigne
 
 			if(opaqueType)
 			{
-				if(member.offset + memberType.size > fromOffset && member.offset < toOffset)
+				if(int(member.offset + memberType.size) > fromOffset && int(member.offset) < toOffset)
 					return true;
 			}
 			else
 			{
-				if(HasIntegerMembersInRange(memberType, fromOffset - member.offset, toOffset - member.offset, exTypes, exTypeExtra))
+				if(HasIntegerMembersInRange(memberType, fromOffset - int(member.offset), toOffset - int(member.offset), exTypes, exTypeExtra))
 					return true;
 			}
 		}
 		else if(memberType.type != ExternTypeInfo::TYPE_FLOAT && memberType.type != ExternTypeInfo::TYPE_DOUBLE)
 		{
-			if(member.offset + memberType.size > fromOffset && member.offset < toOffset)
+			if(int(member.offset + memberType.size) > fromOffset && int(member.offset) < toOffset)
 				return true;
 		}
 	}
diff --git a/NULLC/Executor_Common.h b/NULLC/Executor_Common.h
index c9a67ed..0c9bc45 100644
--- a/NULLC/Executor_Common.h
+++ b/NULLC/Executor_Common.h
@@ -15,7 +15,7 @@ unsigned ConvertFromAutoRef(unsigned int source, unsigned int target);
 
 bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
 
-bool HasIntegerMembersInRange(ExternTypeInfo &type, unsigned fromOffset, unsigned toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
+bool HasIntegerMembersInRange(ExternTypeInfo &type, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra);
 
 unsigned int PrintStackFrame(int address, char* current, unsigned int bufSize, bool withVariables);
 void DumpStackFrames();
-- 
2.43.0


From 8c9f5988aed30b538ff030e70663a7f9158c4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:49 +0000
Subject: [PATCH 88/88] fix: pass and return classes with arrays of floating
 point numbers to external functions in the registers the platform ABI
 requires

Array members of explicit size were treated as opaque integer data, but
the System V ABI classifies every element of the array.
---
 NULLC/Executor_Common.cpp | 50 +++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/NULLC/Executor_Common.cpp b/NULLC/Executor_Common.cpp
index 0f23188..0b76a39 100644
--- a/NULLC/Executor_Common.cpp
+++ b/NULLC/Executor_Common.cpp
@@ -100,35 +100,43 @@ bool AreMembersAligned(ExternTypeInfo *lType, ExternTypeInfo *exTypes, ExternMem
 	return aligned;
 }
 
-bool HasIntegerMembersInRange(ExternTypeInfo &type, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+static bool HasIntegersInRange(ExternTypeInfo &type, int offset, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
 {
-	for(unsigned m = 0; m < type.memberCount; m++)
-	{
-		ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
+	if(type.type == ExternTypeInfo::TYPE_FLOAT || type.type == ExternTypeInfo::TYPE_DOUBLE)
+		return false;
 
-		ExternTypeInfo &memberType = exTypes[member.type];
-
-		if(memberType.type == ExternTypeInfo::TYPE_COMPLEX)
+	if(type.type == ExternTypeInfo::TYPE_COMPLEX)
+	{
+		// Handle arrays of explicit size
+		if(type.subCat == ExternTypeInfo::CAT_ARRAY && type.arrSize != ~0u)
 		{
-			// Handle opaque types
-			bool opaqueType = memberType.subCat != ExternTypeInfo::CAT_CLASS || memberType.memberCount == 0;
+			ExternTypeInfo &elementType = exTypes[type.subType];
 
-			if(opaqueType)
+			for(unsigned i = 0; i < type.arrSize && offset + int(i * elementType.size) < toOffset; i++)
 			{
-				if(int(member.offset + memberType.size) > fromOffset && int(member.offset) < toOffset)
+				if(HasIntegersInRange(elementType, offset + int(i * elementType.size), fromOffset, toOffset, exTypes, exTypeExtra))
 					return true;
 			}
-			else
-			{
-				if(HasIntegerMembersInRange(memberType, fromOffset - int(member.offset), toOffset - int(member.offset), exTypes, exTypeExtra))
-					return true;
-			}
-		}
-		else if(memberType.type != ExternTypeInfo::TYPE_FLOAT && memberType.type != ExternTypeInfo::TYPE_DOUBLE)
-		{
-			if(int(member.offset + memberType.size) > fromOffset && int(member.offset) < toOffset)
-				return true;
+
+			return false;
 		}
+
+		// Types other than classes with members are opaque
+		if(type.subCat == ExternTypeInfo::CAT_CLASS && type.memberCount != 0)
+			return HasIntegerMembersInRange(type, fromOffset - offset, toOffset - offset, exTypes, exTypeExtra);
+	}
+
+	return offset + int(type.size) > fromOffset && offset < toOffset;
+}
+
+bool HasIntegerMembersInRange(ExternTypeInfo &type, int fromOffset, int toOffset, ExternTypeInfo *exTypes, ExternMemberInfo *exTypeExtra)
+{
+	for(unsigned m = 0; m < type.memberCount; m++)
+	{
+		ExternMemberInfo &member = exTypeExtra[type.memberOffset + m];
+
+		if(HasIntegersInRange(exTypes[member.type], int(member.offset), fromOffset, toOffset, exTypes, exTypeExtra))
+			return true;
 	}
 
 	return false;
-- 
2.43.0

