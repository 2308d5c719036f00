From e0c2a274b05572b3e698d031df8383e1b66bc6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 01/82] fix: integer division by zero is a runtime error
 instead of a process-killing trap

---
 duckVM.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..732223c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2058,9 +2058,21 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.integer;
 				break;
 			case duckVM_object_type_bool:
+				if (object2.value.boolean == dl_false) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2076,10 +2088,22 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (object2.value.boolean == dl_false) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
@@ -2130,9 +2154,21 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.integer;
 				break;
 			case duckVM_object_type_bool:
+				if (object2.value.boolean == dl_false) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2148,10 +2184,22 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (object2.value.boolean == dl_false) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
@@ -2199,9 +2247,21 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.integer;
 				break;
 			case duckVM_object_type_bool:
+				if (object2.value.boolean == dl_false) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2217,10 +2277,22 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (object2.value.boolean == dl_false) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->divide: Division by zero."));
+					if (!e) e = eError;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
-- 
2.43.0


From 3b086dabee064cbaee4003387ac7ff36a14fb07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 02/82] fix: concatenate of string slices uses the slice's own
 bounds and accepts empty tails

---
 duckVM.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 732223c..05a55a9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3633,6 +3633,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3641,6 +3643,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    /* -1 because we are going to try to get the cdr, which is the next element after. */
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length - 1)) {
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					/* cdr can't be anything other than a string. */
 					else {
@@ -3738,6 +3742,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3745,6 +3751,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length)) {
 						object2.type = duckVM_object_type_string;
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					else {
 						object2.type = duckVM_object_type_integer;
@@ -4463,18 +4471,26 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				/* `internalString` is null if the string is the empty tail of another string. `length` is the index of the end
+				   of the slice. */
+				if (object1.value.string.internalString != dl_null) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+					object1_string_length = object1.value.string.length - object1.value.string.offset;
+				}
 			}
 			else {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				/* `internalString` is null if the string is the empty tail of another string. `length` is the index of the end
+				   of the slice. */
+				if (object2.value.string.internalString != dl_null) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+					object2_string_length = object2.value.string.length - object2.value.string.offset;
+				}
 			}
 			else {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
-- 
2.43.0


From 27617a9440baed14ddf05530490c976cac87be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 03/82] fix: bounds-check get-vector-element and
 set-vector-element on empty tails and negative indices

---
 duckVM.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 05a55a9..02f5b60 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3433,6 +3433,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
+			    || (object1.value.vector.internal_vector == dl_null)
 			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
@@ -3544,8 +3545,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
-- 
2.43.0


From d236870e975ce1585c4710ea0416e32d09df2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 04/82] fix: set-car of an empty vector is a runtime error
 instead of a null store

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 02f5b60..ec29c25 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3819,7 +3819,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
-- 
2.43.0


From 521bf0b62439f7ccca2e3292a718f48089316608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:12 +0000
Subject: [PATCH 05/82] fix: make-string accepts empty tails and reports
 non-integer elements instead of using the freed buffer

---
 duckVM.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ec29c25..6674fff 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4314,8 +4314,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
+				/* `internal_vector` is null if the vector is the empty tail of another vector. */
+				dl_size_t vector_length = 0;
+				if (object1.value.vector.internal_vector != dl_null) {
+					vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
+					string_length = vector_length - object1.value.vector.offset;
+				}
 				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
 				if (e) break;
 				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
@@ -4332,6 +4336,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					/* Truncate to 8 bits. */
 					string[i - object1.value.vector.offset] = element->value.integer;
 				}
+				if (e) break;
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
@@ -4343,7 +4348,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
@@ -4372,6 +4377,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						break;
 					}
 				}
+				if (e) break;
 				string = string_array.elements;
 				string_length = string_array.elements_length;
 			}
@@ -4393,8 +4399,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (eError) e = eError;
 				break;
 			}
-			e = DL_FREE(duckVM->memoryAllocation, &string);
-			if (e) break;
+			if (string != dl_null) {
+				e = DL_FREE(duckVM->memoryAllocation, &string);
+				if (e) break;
+			}
 			object1.type = duckVM_object_type_string;
 			object1.value.string.internalString = objectPtr1;
 			object1.value.string.offset = 0;
-- 
2.43.0


From 016cce1472f8ff32b03c66bb4b34e24016b88e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 06/82] fix: DuckLib allocator accepts zero-byte requests, like
 malloc in the other configuration

---
 DuckLib/memory.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..23c344d 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -713,11 +713,7 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 
 	dl_ptrdiff_t block = -1;
 
-	if (size == 0) {
-		error = dl_error_invalidValue;
-		goto cleanup;
-	}
-
+	/* A request for zero bytes gets a unique block, like `malloc` usually does. Empty strings and vectors need this. */
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
-- 
2.43.0


From d5f24a56997dc793b1b12433fa9d00134fc35d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 07/82] fix: DuckLib allocator no longer reads blockList[-1]
 when the last block is in use

---
 DuckLib/memory.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 23c344d..9e3dc71 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -550,7 +550,8 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
-		if (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1) {
+		if ((memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock == -1)
+		    || (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1)) {
 			memoryAllocation->used = (char *) memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].block - (char *) memoryAllocation->memory;
 		}
 		
@@ -774,7 +775,8 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 		
 	memoryAllocation->blockList[block].allocated = dl_false;
 
-	if (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[block].nextBlock == -1)
+	    || (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
 	}
 	
@@ -824,7 +826,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
-	if (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[currentBlock].nextBlock == -1)
+	    || (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
 	}
 	
-- 
2.43.0


From f7fa7c8ed5e133188a3ba288fae764941c74c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 08/82] fix: duckVM_call inside a callback keeps the running
 bytecodes visible to the garbage collector

The shim bytecode object was on the C stack but was marked as if it were a heap
object, the caller's bytecode lost its root, and a closure created by a function
from another bytecode was given the wrong bytecode object.
---
 duckVM.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 6674fff..7feb641 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -743,12 +743,13 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 
 
 int duckVM_executeInstruction(duckVM_t *duckVM,
-                              duckVM_object_t *bytecode,
+                              duckVM_object_t **bytecodePtr,
                               unsigned char **ipPtr,
                               duckVM_halt_mode_t *halt) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+	duckVM_object_t *bytecode = *bytecodePtr;
 	dl_uint8_t *ptr1 = dl_null;
 	dl_ptrdiff_t ptrdiff1 = 0;
 	dl_ptrdiff_t ptrdiff2 = 0;
@@ -4732,6 +4733,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	}
  cleanup:
 	*ipPtr = ip;
+	*bytecodePtr = bytecode;
 	return e;
 }
 
@@ -4761,12 +4763,16 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 		if (e) goto cleanup;
 	}
 	ip = &bytecodeObject->value.bytecode.bytecode[ipOffset];
+	/* The VM is reentrant, so the caller's bytecode has to be restored afterward. */
+	duckVM_object_t *callerBytecode = duckVM->currentBytecode;
 	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		e = duckVM_executeInstruction(duckVM, &bytecodeObject, &ip, &halt);
+		/* Keep whichever bytecode is being executed visible to the garbage collector. */
+		duckVM->currentBytecode = bytecodeObject;
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = callerBytecode;
 
  cleanup: return e;
 }
@@ -5687,8 +5693,6 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		{
 			/* Call bytecode. */
 			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
 			dl_uint8_t *shim_ip = shim_bytecode;
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
@@ -5696,7 +5700,9 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
 			e = call_stack_push(duckVM,
 			                    shim_ip,
-			                    shim_bytecode_object,
+			                    /* The shim isn't a heap object, so use the caller's bytecode. This also keeps the caller's
+			                       bytecode visible to the garbage collector. */
+			                    duckVM->currentBytecode,
 			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
-- 
2.43.0


From 8928218948c39e2f650ff4f33a93d011be50d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 09/82] fix: keep the upvalues of an executing closure alive
 when its last reference is overwritten

---
 duckVM.c | 18 +++++++++++++-----
 duckVM.h |  2 ++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 7feb641..27bb477 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -257,6 +257,12 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
 			if (e) goto cleanup;
 		}
+		object = (DL_ARRAY_GETADDRESS(duckVM->call_stack, duckVM_callFrame_t, i)
+		          .upvalue_array);
+		if (object != dl_null) {
+			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
+			if (e) goto cleanup;
+		}
 	}
 
 	/* Current bytecode */
@@ -550,14 +556,16 @@ static dl_error_t stack_set(duckVM_t *duckVM, duckVM_object_t *element, dl_ptrdi
 static dl_error_t call_stack_push(duckVM_t *duckVM,
                                   dl_uint8_t *ip,
                                   duckVM_object_t *bytecode,
-                                  duckVM_upvalueArray_t *upvalueArray) {
+                                  duckVM_object_t *upvalueArray) {
 	dl_error_t e = dl_error_ok;
 	duckVM_callFrame_t frame;
 	frame.ip = ip;
 	frame.bytecode = bytecode;
+	frame.upvalue_array = upvalueArray;
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack,
+	                         upvalueArray ? &upvalueArray->value.upvalue_array : dl_null);
 	if (e) goto cleanup;
  cleanup:
 	if (e) {
@@ -1403,7 +1411,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			break;
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -1534,7 +1542,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -5703,7 +5711,7 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			                    /* The shim isn't a heap object, so use the caller's bytecode. This also keeps the caller's
 			                       bytecode visible to the garbage collector. */
 			                    duckVM->currentBytecode,
-			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
+			                    functionObject.value.closure.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
 			e = duckVM_executeWithIp(duckVM, bytecode.bytecode, bytecode_offset, bytecode.bytecode_length);
diff --git a/duckVM.h b/duckVM.h
index d2153ce..d2c920d 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -49,6 +49,8 @@ typedef struct duckVM_gclist_s {
 typedef struct {
 	dl_uint8_t *ip;
 	struct duckVM_object_s *bytecode;
+	/* Upvalue array of the called closure, or null. Keeps the array alive if nothing else references the closure. */
+	struct duckVM_object_s *upvalue_array;
 } duckVM_callFrame_t;
 
 typedef struct duckVM_s {
-- 
2.43.0


From 2e25d55da6a6709173fbd47fa8d0f9b844b57d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 10/82] fix: the reader no longer looks past the end of the
 source

Whitespace, comments, hexadecimal integers and floats that ran up to the end of
the source were read one or more bytes too far, and "1." at the end of the
source was read as 0.0.
---
 parser.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/parser.c b/parser.c
index 594c512..bcc5705 100644
--- a/parser.c
+++ b/parser.c
@@ -155,7 +155,7 @@ static dl_error_t parse_comment(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t stop_index = start_index;
 
-	if (source[stop_index] != ';') {
+	if ((stop_index >= (dl_ptrdiff_t) source_length) || (source[stop_index] != ';')) {
 		return dl_error_invalidValue;
 	}
 
@@ -182,7 +182,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
 			return dl_error_invalidValue;
 		}
-		while (dl_string_isSpace(source[indexCopy])) indexCopy++;
+		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
 		dl_error_t e = parse_comment(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 		if (e) break;
 	}
@@ -850,7 +850,7 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 			indexCopy++;
 			hexadecimal = dl_true;
 
-			if (!dl_string_isHexadecimalDigit(source[indexCopy])) {
+			if ((indexCopy >= (dl_ptrdiff_t) source_length) || !dl_string_isHexadecimalDigit(source[indexCopy])) {
 				eError = duckLisp_error_pushSyntax(duckLisp,
 				                                   DL_STR("Expected a digit in integer."),
 				                                   fileName,
@@ -1043,16 +1043,10 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (source[indexCopy] == '.') {
+		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
-
-			if (indexCopy >= (dl_ptrdiff_t) source_length) {
-				// eError = duckLisp_error_pushSyntax(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				/* This is expected. 1. 234.e61 435. for example. */
-				goto cleanup;
-			}
+			/* Running out of characters here is expected. 1. 234.e61 435. for example. */
 		}
 
 		while ((indexCopy < (dl_ptrdiff_t) source_length)
@@ -1064,7 +1058,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 	}
 
 	/* …e3 */
-	if (dl_string_toLower(source[indexCopy]) == 'e') {
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (dl_string_toLower(source[indexCopy]) == 'e')) {
 		hasDecimalPointOrExponent = dl_true;
 		indexCopy++;
 
-- 
2.43.0


From 4ff9f83f1e544e116592842b0c54f16edca1b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 11/82] fix: a string or boolean may be the last token of the
 source

---
 parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index bcc5705..d38be35 100644
--- a/parser.c
+++ b/parser.c
@@ -687,7 +687,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 	const dl_size_t sizeOfTrue = sizeof("true") - 1;
 	const dl_size_t sizeOfFalse = sizeof("false") - 1;
 
-	if (source_length <= indexCopy + sizeOfTrue) {
+	if (source_length < indexCopy + sizeOfTrue) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Encountered EOF"),
 		                                   fileName,
@@ -705,7 +705,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		stop_index += sizeOfTrue;
 	}
 	else {
-		if (source_length <= indexCopy + sizeOfFalse) {
+		if (source_length < indexCopy + sizeOfFalse) {
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("Encountered EOF"),
 			                                   fileName,
@@ -1200,6 +1200,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 	}
 
 	if (source[indexCopy] == '"') {
+		dl_bool_t closed = dl_false;
 		indexCopy++;
 
 		while (indexCopy < (dl_ptrdiff_t) source_length) {
@@ -1222,6 +1223,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 				}
 			}
 			else if (source[indexCopy] == '"') {
+				closed = dl_true;
 				indexCopy++;
 				break;
 			}
@@ -1229,7 +1231,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (indexCopy >= (dl_ptrdiff_t) source_length) {
+		if (!closed) {
 			e = dl_error_invalidValue;
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("String missing closing quote."),
-- 
2.43.0


From a9660c02478ee447d2f5d416fbef5311b45f93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 12/82] fix: identifiers that begin with "true" or "false" are
 not split into a boolean and another token

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index d38be35..01b76ee 100644
--- a/parser.c
+++ b/parser.c
@@ -737,6 +737,12 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		}
 	}
 
+	/* "true" and "false" can be the beginning of a longer identifier. */
+	if (((dl_size_t) stop_index < source_length) && isIdentifierSymbol(source[stop_index])) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_bool_t boolean;
 	e = dl_string_toBool(&boolean.value, &source[start_index], stop_index - start_index);
 	if (e) {
-- 
2.43.0


From bb24658a3894f543fe08c0e21a2bb2e73dae3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 13/82] fix: skipping leading whitespace shortens the remaining
 source

---
 duckLisp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index b4e164e..e4d4184 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2141,7 +2141,7 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
                                dl_uint8_t **bytecode,
                                dl_size_t *bytecode_length,
                                const dl_uint8_t *source,
-                               const dl_size_t source_length,
+                               dl_size_t source_length,
                                const dl_uint8_t *fileName,
                                const dl_size_t fileName_length) {
 	dl_error_t e = dl_error_ok;
@@ -2150,14 +2150,14 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
-	dl_bool_t result = dl_false;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
 	// Trim whitespace from the beginning of the file.
-	do {
-		if (dl_string_isSpace(*source)) source++;
-	} while (result);
+	while ((source_length > 0) && dl_string_isSpace(*source)) {
+		source++;
+		source_length--;
+	}
 
 	index = 0;
 
-- 
2.43.0


From 1d07c4c5d5c46134ad9e8054506a636cb8fbc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 14/82] fix: var and global reject a name that is not an
 identifier

---
 generators.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generators.c b/generators.c
index 58a4722..c90ff0d 100644
--- a/generators.c
+++ b/generators.c
@@ -1741,7 +1741,7 @@ dl_error_t duckLisp_generator_createVar_raw(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = (eError ? eError : dl_error_invalidValue);
 		goto cleanup;
 	}
 
@@ -1830,7 +1830,7 @@ dl_error_t duckLisp_generator_global(duckLisp_t *duckLisp,
 		e = dl_array_pushElements(&eString, DL_STR("\" should be an identifier."));
 		if (e) goto cleanup;
 		eError = duckLisp_error_pushRuntime(duckLisp, eString.elements, eString.elements_length * eString.element_size);
-		if (eError) e = eError;
+		e = (eError ? eError : dl_error_invalidValue);
 		goto cleanup;
 	}
 
-- 
2.43.0


From 40ad48f06bc524a05d49cf21df0604b1fcf01ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 15/82] fix: releasing upvalues works when a captured variable
 or their count needs more than 8 bits

---
 assembler.c | 28 +++++++++++++++-------------
 duckVM.c    |  8 ++++++++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/assembler.c b/assembler.c
index 4132d82..f13832f 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2128,21 +2128,23 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			break;
 		}
 		case duckLisp_instructionClass_releaseUpvalues: {
-			byte_length = 1;
+			/* The count and all indices have the same width, so the largest of them decides. */
+			dl_size_t largest = instruction.args.elements_length;
 			DL_DOTIMES(k, instruction.args.elements_length) {
 				dl_size_t arg = args[k].value.integer;
-				if (arg < 0x00000100UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
-					byte_length = 1;
-				}
-				else if (arg < 0x00010000UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
-					byte_length = 2;
-				}
-				else {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
-					byte_length = 4;
-				}
+				if (arg > largest) largest = arg;
+			}
+			if (largest < 0x00000100UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
+				byte_length = 1;
+			}
+			else if (largest < 0x00010000UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
+				byte_length = 2;
+			}
+			else {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
+				byte_length = 4;
 			}
 			dl_ptrdiff_t index = 0;
 			// Number of upvalues
diff --git a/duckVM.c b/duckVM.c
index 27bb477..4fbb46e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1248,6 +1248,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_releaseUpvalues16:
 	case duckLisp_instruction_releaseUpvalues8:
 		size1 = *(ip++);
+		if (opcode != duckLisp_instruction_releaseUpvalues8) {
+			/* The count is as wide as the indices. */
+			size1 = *(ip++) + (size1 << 8);
+			if (opcode == duckLisp_instruction_releaseUpvalues32) {
+				size1 = *(ip++) + (size1 << 8);
+				size1 = *(ip++) + (size1 << 8);
+			}
+		}
 
 		DL_DOTIMES(k, size1) {
 			ptrdiff1 = *(ip++);
-- 
2.43.0


From c85ab5a481d3dc9f827dfa629c2955e808b9be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 16/82] fix: calls with more than 255 arguments and assignments
 beyond the 256th captured variable are compile errors instead of wrong code

---
 assembler.c | 11 +++++++++--
 emitters.c  | 14 ++++++++++++--
 emitters.h  |  4 ++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/assembler.c b/assembler.c
index f13832f..45283e7 100644
--- a/assembler.c
+++ b/assembler.c
@@ -777,6 +777,13 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_setUpvalue: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t offset = 0;
+				/* The upvalue index is always a single byte. The other argument decides the width. */
+				if (args[0].value.index > DL_UINT8_MAX) {
+					e = dl_error_invalidValue;
+					eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("setq: Too many captured variables."));
+					if (eError) e = eError;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
@@ -787,11 +794,11 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				}
 				offset += byte_length;
 				/* I'm not checking if it's negative since I'm lazy and that should never happen. */
-				if (args[0].value.index < 0x100LL) {
+				if (args[1].value.index < 0x100LL) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue8;
 					byte_length = 1;
 				}
-				else if (args[0].value.index < 0x10000LL) {
+				else if (args[1].value.index < 0x10000LL) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue16;
 					byte_length = 2;
 				}
diff --git a/emitters.c b/emitters.c
index 5e48a69..1da50d6 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1197,9 +1197,14 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity) {
+                                 dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
+	if (arity > DL_UINT8_MAX) {
+		/* The instruction has one byte for the arity. */
+		dl_error_t eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("funcall: Too many arguments."));
+		return (eError ? eError : dl_error_invalidValue);
+	}
 	/* Function index. */
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - index;
@@ -1218,9 +1223,14 @@ dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity) {
+                               dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
+	if (arity > DL_UINT8_MAX) {
+		/* The instruction has one byte for the arity. */
+		dl_error_t eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("apply: Too many arguments."));
+		return (eError ? eError : dl_error_invalidValue);
+	}
 	/* Function index. */
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - index;
diff --git a/emitters.h b/emitters.h
index f5d009a..1350968 100644
--- a/emitters.h
+++ b/emitters.h
@@ -358,13 +358,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity);
+                                 dl_size_t arity);
 
 dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity);
+                               dl_size_t arity);
 
 dl_error_t duckLisp_emit_acall(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
-- 
2.43.0


From f6e8cf8be28bc017c9082a250c4f3056480bd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 17/82] fix: a global is set even when its number equals the
 stack index of the value

---
 emitters.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/emitters.c b/emitters.c
index 1da50d6..002e1fd 100644
--- a/emitters.c
+++ b/emitters.c
@@ -768,8 +768,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 
-	if (destination_static_index == source_stack_index) goto cleanup;
-
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - source_stack_index;
 	argument1.type = duckLisp_instructionArgClass_type_index;
@@ -781,7 +779,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	                                 argument0,
 	                                 argument1);
 	duckLisp_localsLength_decrement(compileState);
- cleanup:
 	return e;
 }
 
-- 
2.43.0


From 2626a3076bc92897ae8393e79ed9f2426cf921d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 18/82] fix: equality of values more than 255 stack slots away
 compares the right slots

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index 4fbb46e..177b044 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2865,6 +2865,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From 3380ac9673fcb582b3f642cfe0e03f4f50c75b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 19/82] fix: the list of jumps is freed when jump optimization
 is off

---
 assembler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assembler.c b/assembler.c
index 45283e7..ab3bc0c 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2817,6 +2817,9 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				DL_ARRAY_GETADDRESS(bytecodeList, byteLink_t, source + j).byte = byte;
 			}
 		}
+
+		e = dl_free(duckLisp->memoryAllocation, (void *) &linkArray.links);
+		if (e) goto cleanup;
 	}
 #endif
 
-- 
2.43.0


From 89e44168dfb277fd059640b2d671380acd58aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 20/82] fix: vector, set-vector-element and substring reach
 operands more than 255 stack slots away

---
 assembler.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/assembler.c b/assembler.c
index ab3bc0c..fe98238 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1308,11 +1308,16 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_vector: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
-				if ((unsigned long) args[0].value.index < 0x100UL) {
+				/* The length and the indices all have the width of the largest of them. */
+				dl_ptrdiff_t largest = 0;
+				DL_DOTIMES(l, instruction.args.elements_length) {
+					if (args[l].value.index > largest) largest = args[l].value.index;
+				}
+				if ((unsigned long) largest < 0x100UL) {
 					currentInstruction.byte = duckLisp_instruction_vector8;
 					byte_length = 1;
 				}
-				else if ((unsigned int) args[0].value.index < 0x10000UL) {
+				else if ((unsigned int) largest < 0x10000UL) {
 					currentInstruction.byte = duckLisp_instruction_vector16;
 					byte_length = 2;
 				}
@@ -1438,12 +1443,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt16;
 					byte_length = 2;
 				}
@@ -2085,12 +2092,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    && (args[2].type == duckLisp_instructionArgClass_type_index)) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring16;
 					byte_length = 2;
 				}
-- 
2.43.0


From e77ede6373cb997488be0d0eea88d323a7898dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 21/82] fix: set-cdr truncates a vector right after the current
 element, and shorter views of it are empty

---
 duckVM.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 177b044..ce2695c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3897,10 +3897,16 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		else if ((object2.type == duckVM_object_type_vector)
 		         && (object2.value.vector.internal_vector != dl_null)
 		         && (((object1.type == duckVM_object_type_vector)
-		              && (object1.value.vector.internal_vector == dl_null))
+		              && ((object1.value.vector.internal_vector == dl_null)
+		                  || ((dl_size_t) object1.value.vector.offset
+		                      >= object1.value.vector.internal_vector->value.internal_vector.length)))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			/* Truncate right after the current element. */
+			if ((dl_size_t) object2.value.vector.offset
+			    < object2.value.vector.internal_vector->value.internal_vector.length) {
+				object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
+			}
 		}
 		else {
 			e = dl_error_invalidValue;
@@ -4244,7 +4250,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
+				/* The vector might have been truncated before this element. */
+				object2.value.integer = ((object1.value.vector.internal_vector
+				                          && ((dl_size_t) object1.value.vector.offset
+				                              < object1.value.vector.internal_vector->value.internal_vector.length))
 				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
 				                            - object1.value.vector.offset)
 				                         : 0);
@@ -4334,7 +4343,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.type == duckVM_object_type_vector) {
 				/* `internal_vector` is null if the vector is the empty tail of another vector. */
 				dl_size_t vector_length = 0;
-				if (object1.value.vector.internal_vector != dl_null) {
+				if ((object1.value.vector.internal_vector != dl_null)
+				    && ((dl_size_t) object1.value.vector.offset
+				        < object1.value.vector.internal_vector->value.internal_vector.length)) {
 					vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
 					string_length = vector_length - object1.value.vector.offset;
 				}
@@ -6915,7 +6926,8 @@ dl_error_t duckVM_length(duckVM_t *duckVM, dl_size_t *length) {
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
 			duckVM_object_t *internal_vector = vector.internal_vector;
-			local_length = (internal_vector
+			local_length = ((internal_vector
+			                 && ((dl_size_t) vector.offset < internal_vector->value.internal_vector.length))
 			                ? (internal_vector->value.internal_vector.length - vector.offset)
 			                : 0);
 			break;
-- 
2.43.0


From be0cb26ea9bd2367c84c4da8a553b00ae96af8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 22/82] fix: not of an empty vector is true, as for every other
 null value

---
 duckVM.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ce2695c..1b2b6c5 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1790,8 +1790,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_vector:
-			object1.type = duckVM_object_type_bool;
-			object1.value.boolean = object1.value.vector.internal_vector == dl_null;
+			object2.type = duckVM_object_type_bool;
+			/* As in `null?` and the conditionals. */
+			object2.value.boolean = !((object1.value.vector.internal_vector != dl_null)
+			                          && ((dl_size_t) object1.value.vector.offset
+			                              < object1.value.vector.internal_vector->value.internal_vector.length));
+			object1 = object2;
 			break;
 		case duckVM_object_type_list:
 			object1.type = duckVM_object_type_bool;
-- 
2.43.0


From fbe2274ffc52f0db5e7bd6747318bf2d71b1c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 23/82] fix: apply works on callbacks

---
 duckVM.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 1b2b6c5..88161e7 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1440,6 +1440,51 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		while (object1.type == duckVM_object_type_composite) {
 			object1 = *object1.value.composite->value.internalComposite.function;
 		}
+		if (object1.type == duckVM_object_type_function) {
+			/* A callback finds all its arguments on the stack. */
+			duckVM_object_t list;
+			duckVM_object_t *listPtr = dl_null;
+			e = stack_pop(duckVM, &list);
+			if (e) break;
+			if (list.type != duckVM_object_type_list) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->apply: Last argument is not a list."));
+				if (eError) e = eError;
+				break;
+			}
+			listPtr = list.value.list;
+			while (listPtr != dl_null) {
+				if (listPtr->type != duckVM_object_type_cons) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM,
+					                                  DL_STR("duckVM_execute->apply: Last argument is not a proper list."));
+					if (eError) e = eError;
+					break;
+				}
+				{
+					duckVM_object_t *car = listPtr->value.cons.car;
+					if ((car == dl_null) || (car->type == duckVM_object_type_cons)) {
+						duckVM_object_t carList = duckVM_object_makeList(car);
+						e = stack_push(duckVM, &carList);
+					}
+					else {
+						e = stack_push(duckVM, car);
+					}
+					if (e) break;
+				}
+				listPtr = listPtr->value.cons.cdr;
+			}
+			if (e) break;
+			e = object1.value.function.callback(duckVM);
+			if (e) {
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->apply: C callback returned error."));
+				if (!e) e = eError;
+				break;
+			}
+			break;
+		}
 		if (object1.type != duckVM_object_type_closure) {
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-- 
2.43.0


From 9e3b17e03c71fc0c529e260dbeafdad4d2cbade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 24/82] fix: apply rejects too many arguments, as funcall does

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 88161e7..a4b5203 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1589,8 +1589,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 		}
 		else {
-			if (object1.value.closure.arity != uint8) {
+			if ((object1.value.closure.arity != uint8) || (rest.value.list != dl_null)) {
 				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->apply: Incorrect number of arguments."));
+				if (eError) e = eError;
 				break;
 			}
 		}
-- 
2.43.0


From 802cb85ba0fa0f34328b61dad5979a9caf48df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:44 +0000
Subject: [PATCH 25/82] fix: comptime yields the symbol, not the value of the
 variable it names

---
 duckLisp.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index e4d4184..6004a43 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -743,6 +743,36 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
   =======
 */
 
+/* (__quote symbol) */
+static dl_error_t duckLisp_symbolToQuoteAST(duckLisp_t *duckLisp,
+                                            duckLisp_ast_compoundExpression_t *ast,
+                                            duckVM_object_t *object) {
+	dl_error_t e = dl_error_ok;
+
+	ast->type = duckLisp_ast_type_expression;
+	ast->value.expression.compoundExpressions_length = 0;
+	e = DL_MALLOC(duckLisp->memoryAllocation,
+	              (void **) &ast->value.expression.compoundExpressions,
+	              2,
+	              duckLisp_ast_compoundExpression_t);
+	if (e) goto cleanup;
+
+	duckLisp_ast_compoundExpression_t *op = &ast->value.expression.compoundExpressions[0];
+	e = dl_malloc(duckLisp->memoryAllocation, (void **) &op->value.identifier.value, sizeof("__quote") - 1);
+	if (e) goto cleanup;
+	/**/ dl_memcopy_noOverlap(op->value.identifier.value, DL_STR("__quote"));
+	op->value.identifier.value_length = sizeof("__quote") - 1;
+	op->type = duckLisp_ast_type_identifier;
+	ast->value.expression.compoundExpressions_length = 1;
+
+	e = duckLisp_objectToAST(duckLisp, &ast->value.expression.compoundExpressions[1], object, dl_true);
+	if (e) goto cleanup;
+	ast->value.expression.compoundExpressions_length = 2;
+
+ cleanup:
+	return e;
+}
+
 dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
                                 duckLisp_ast_compoundExpression_t *ast,
                                 duckVM_object_t *object,
@@ -789,6 +819,11 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		}
 		break;
 	case duckVM_object_type_symbol:
+		if (!useExprs) {
+			/* The symbol itself is wanted, not the value of the variable it names. */
+			e = duckLisp_symbolToQuoteAST(duckLisp, ast, object);
+			break;
+		}
 		ast->value.identifier.value_length = object->value.symbol.internalString->value.internalString.value_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &ast->value.identifier.value,
-- 
2.43.0


From 8ff5ba8803f39a1c6471e993852af7243ea4df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:20 +0000
Subject: [PATCH 26/82] fix: an expression may have white space or comments
 after its opening parenthesis only

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index 01b76ee..fb9680f 100644
--- a/parser.c
+++ b/parser.c
@@ -294,6 +294,9 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* There might not be anything else before the closing parenthesis. */
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
@@ -419,6 +422,9 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* There might not be anything else before the closing parenthesis. */
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
-- 
2.43.0


From c902a1caf3580dc7a096f982dea8bf29d2a1db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 27/82] fix: a negative float that ends in its decimal point
 keeps its sign

---
 DuckLib/string.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index de6bcea..ba1aa0e 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -327,13 +327,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		if (string[index] == '.') {
 			index++;
 
-			if ((dl_size_t) index >= string_length) {
-				// eError = duckLisp_error_push(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				// This is expected. 1. 234.e61  435. for example.
-				goto cleanup;
-			}
-
+			// Running out of characters here is expected. 1. 234.e61  435. for example.
 			power = 1;
 		}
 
-- 
2.43.0


From 5d1c192d8739db59507fa582adafa4cb0fa2ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 28/82] fix: converting a string to a float does not read past
 its end

---
 DuckLib/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index ba1aa0e..1f48cd8 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -324,7 +324,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 		}
 
-		if (string[index] == '.') {
+		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
 
 			// Running out of characters here is expected. 1. 234.e61  435. for example.
@@ -345,7 +345,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	}
 
 	// …e3
-	if (dl_string_toLower(string[index]) == 'e') {
+	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
 		index++;
 
 		if ((dl_size_t) index >= string_length) {
-- 
2.43.0


From f44314d76aecdad1380d7b5c9f56d9180ed05e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 29/82] fix: an exponent of -0 is a valid exponent

---
 DuckLib/string.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 1f48cd8..913c4c7 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -385,11 +385,6 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		}
 
 		if (power_negative) {
-			if (power == 0) {
-				e = dl_error_invalidValue;
-				goto cleanup;
-			}
-
 			for (dl_ptrdiff_t i = 0; i < power; i++) {
 				*result /= 10.0;
 			}
-- 
2.43.0


From 4ee5ace4453444dda8026a83f6bce010c10960e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 30/82] fix: a float with more than 18 digits after its point
 has the right value

---
 DuckLib/string.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 913c4c7..e7d963b 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -252,6 +252,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	dl_bool_t tempBool;
 	dl_bool_t negative = dl_false;
 	dl_ptrdiff_t power = 0;
+	double place = 1.0;
 	dl_bool_t power_negative = dl_false;
 
 	*result = 0.0;
@@ -276,19 +277,19 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		power = 10;
+		place = 10.0;
 
 		if (!dl_string_isDigit(string[index])) {
 			e = dl_error_invalidValue;
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / (double) power;
+		*result += (double) (string[index] - '0') / place;
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			place = 10.0 * place;
 
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
@@ -296,7 +297,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / place;
 			index++;
 		}
 	}
@@ -328,17 +329,17 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 
 			// Running out of characters here is expected. 1. 234.e61  435. for example.
-			power = 1;
+			place = 1.0;
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			place = 10.0 * place;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / place;
 
 			index++;
 		}
-- 
2.43.0


From 3b5f204fcab554349b019fb027b54737cd83a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 31/82] fix: a float with a huge exponent does not hang the
 reader

---
 DuckLib/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index e7d963b..83430cc 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -380,7 +380,8 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			power = power * 10 + string[index] - '0';
+			/* Far beyond what a double can hold. */
+			if (power < 10000) power = power * 10 + string[index] - '0';
 
 			index++;
 		}
-- 
2.43.0


From 1227c8b720b4e67fcbe3ee6cd3f8c4fce46f309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 32/82] fix: closures keep the variables that a reset of the
 stack discards

---
 duckVM.c | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index a4b5203..9c4c4b9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -535,6 +535,32 @@ static dl_error_t stack_pop_multiple(duckVM_t *duckVM, dl_size_t pops) {
 	return e;
 }
 
+/* Pop several objects. Those that are captured by closures are moved to the heap first, so that the closures can outlive
+   them. All the objects are popped, even when an error is returned. */
+static dl_error_t stack_releaseAndPopMultiple(duckVM_t *duckVM, dl_size_t pops) {
+	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+	if (pops > duckVM->stack.elements_length) return stack_pop_multiple(duckVM, pops);
+	while (pops--) {
+		duckVM_object_t *upvalue = DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_stack, duckVM_object_t *);
+		if (upvalue != dl_null) {
+			duckVM_object_t object = DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t);
+			duckVM_object_t *heapObject = dl_null;
+			eError = duckVM_gclist_pushObject(duckVM, &heapObject, object);
+			if (eError) {
+				if (!e) e = eError;
+			}
+			else {
+				upvalue->value.upvalue.value.heap_object = heapObject;
+				upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
+			}
+		}
+		eError = stack_pop(duckVM, dl_null);
+		if (eError) return eError;
+	}
+	return e;
+}
+
 static dl_error_t stack_getTop(duckVM_t *duckVM, duckVM_object_t *element) {
 	return dl_array_getTop(&duckVM->stack, element);
 }
@@ -4909,7 +4935,7 @@ dl_error_t duckVM_object_pop(duckVM_t *duckVM, duckVM_object_t *object) {
 }
 
 dl_error_t duckVM_popAll(duckVM_t *duckVM) {
-	return stack_pop_multiple(duckVM, duckVM->stack.elements_length);
+	return stack_releaseAndPopMultiple(duckVM, duckVM->stack.elements_length);
 }
 
 dl_error_t duckVM_object_push(duckVM_t *duckVM, duckVM_object_t *object) {
@@ -4922,15 +4948,14 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
-	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (e) goto cleanup;
- cleanup:
+	dl_error_t eError = dl_error_ok;
+	e = stack_releaseAndPopMultiple(duckVM, duckVM->stack.elements_length);
+	eError = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
+	if (!e) e = eError;
+	eError = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
+	if (!e) e = eError;
 	if (e) {
-		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
+		eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
 		if (!e) e = eError;
 	}
 	return e;
@@ -5707,12 +5732,12 @@ dl_error_t duckVM_push(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 
 /* Pop an object off of the stack. */
 dl_error_t duckVM_pop(duckVM_t *duckVM) {
-	return stack_pop(duckVM, dl_null);
+	return stack_releaseAndPopMultiple(duckVM, 1);
 }
 
 /* Pop the specified number of objects off of the stack. */
 dl_error_t duckVM_popSeveral(duckVM_t *duckVM, dl_size_t number_to_pop) {
-	return stack_pop_multiple(duckVM, number_to_pop);
+	return stack_releaseAndPopMultiple(duckVM, number_to_pop);
 }
 
 /* Copy a stack object from the top to the specified position, overwriting the destination object. */
-- 
2.43.0


From c6e0fd73843b50d203c4edc72cf1eb25a2a3e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 33/82] fix: a load discards its compile-time variables

---
 duckLisp.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 6004a43..ef0eb50 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2185,6 +2185,8 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
+	/* The stack of the compile-time VM belongs to the scopes of this string. */
+	dl_size_t comptimeStack_length = duckVM_stackLength(&duckLisp->vm);
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
@@ -2217,6 +2219,7 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 
 	duckLisp_compileState_t compileState;
 	duckLisp_compileState_init(duckLisp, &compileState);
+	compileState.comptimeCompileState.locals_length = comptimeStack_length;
 	e = duckLisp_compileAST(duckLisp, &compileState, &bytecodeArray, ast, duckLisp->stripSymbolNames);
 	if (e) goto cleanup;
 	e = duckLisp_compileState_quit(duckLisp, &compileState);
@@ -2243,6 +2246,12 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 		*bytecode_length = 0;
 	}
 
+	/* Discard the compile-time variables and whatever a failed compile-time expression left behind. */
+	if (duckVM_stackLength(&duckLisp->vm) > comptimeStack_length) {
+		eError = duckVM_popSeveral(&duckLisp->vm, duckVM_stackLength(&duckLisp->vm) - comptimeStack_length);
+		if (!e) e = eError;
+	}
+
 	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
 	if (eError) e = eError;
 
-- 
2.43.0


From d52e99d7b53e80ec94723588dde7245d90509582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 34/82] fix: a macro that expands to the name of a variable
 gives that variable's value as a statement

---
 generators.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index c90ff0d..257dbc4 100644
--- a/generators.c
+++ b/generators.c
@@ -3707,8 +3707,12 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	                                        &ast,
 	                                        index,
 	                                        dl_null,
-	                                        dl_false);
+	                                        dl_true);
 	if (e) goto cleanupAST;
+	/* The caller only knows that this is a form, so it expects the value of a variable on top of the stack too. */
+	if ((index != dl_null) && (ast.type == duckLisp_ast_type_identifier)) {
+		*index = duckLisp_localsLength_get(compileState) - 1;
+	}
 
 	/* HACK: We can't pass a compound expression up, but we can replace an expression. This is so the noscope generator
 	   can inspect the returned expression and act if it sees a `__var`, `__defun`, or `__noscope`. */
-- 
2.43.0


From 32949283ead71feab0353b9be8b2636db58e4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 35/82] fix: no use after free when compilation fails after a
 macro call in a body

---
 generators.c | 33 ++++++---------------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/generators.c b/generators.c
index 257dbc4..7419ee5 100644
--- a/generators.c
+++ b/generators.c
@@ -1021,14 +1021,13 @@ dl_error_t duckLisp_generator_noscope2(duckLisp_t *duckLisp,
 	subExpression.compoundExpressions_length = expression->compoundExpressions_length - 1;
 
 	e = duckLisp_generator_noscope(duckLisp, compileState, assembly, &subExpression);
-	if (e) goto cleanup;
 
+	/* Macros may have replaced their calls, even if compilation failed later. */
 	(void) dl_memcopy_noOverlap(&expression->compoundExpressions[1],
 	                            subExpression.compoundExpressions,
 	                            ((expression->compoundExpressions_length - 1)
 	                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
- cleanup:
 	eError = DL_FREE(duckLisp->memoryAllocation, &subExpression.compoundExpressions);
 	if (eError) e = eError;
 
@@ -1579,14 +1578,11 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, &bodyAssembly, &progn);
-			if (e) goto cleanupProgn;
 
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup_gensym;
@@ -1920,16 +1916,17 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	var.compoundExpressions[2].value.expression = lambda;
 	{
 		e = duckLisp_generator_createVar_raw(duckLisp, compileState, assembly, &var);
-		if (e) goto cleanup;
 
+		/* Macros may have replaced their calls, even if compilation failed later. */
 		for (dl_ptrdiff_t i = 2; (dl_size_t) i < expression->compoundExpressions_length; i++) {
 			expression->compoundExpressions[i] = lambda.compoundExpressions[i - 1];
 		}
 		expression->compoundExpressions[1] = var.compoundExpressions[1];
 
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
-		if (e) goto cleanup;
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
+		if (!e) e = eError;
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		if (!e) e = eError;
 		if (e) goto cleanup;
 
 		/* HACK */
@@ -2186,14 +2183,11 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn1;
 
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-			cleanupProgn1:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_start;
@@ -2264,14 +2258,11 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn2;
 
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-			cleanupProgn2:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_end;
@@ -2436,14 +2427,11 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
 
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2484,14 +2472,11 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
 
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
@@ -2618,14 +2603,11 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
 
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2676,14 +2658,11 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
 
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
-- 
2.43.0


From aa6d89e8026d419c293fe42bc66316a38960b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 36/82] fix: the optimizer keeps accesses to global variables
 that may not exist

---
 assembler.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/assembler.c b/assembler.c
index fe98238..7ffc274 100644
--- a/assembler.c
+++ b/assembler.c
@@ -328,8 +328,8 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    || (class == duckLisp_instructionClass_pushStrippedSymbol)
 			    || (class == duckLisp_instructionClass_pushUpvalue)
 			    || (class == duckLisp_instructionClass_pushClosure)
-			    || (class == duckLisp_instructionClass_pushVaClosure)
-			    || (class == duckLisp_instructionClass_pushGlobal)) {
+			    /* Not `pushGlobal`, since it fails if the variable doesn't exist. */
+			    || (class == duckLisp_instructionClass_pushVaClosure)) {
 				duckLisp_instructionObject_t nextInstruction = DL_ARRAY_GETADDRESS(*assembly,
 				                                                                   duckLisp_instructionObject_t,
 				                                                                   i + 1);
@@ -374,9 +374,6 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 					case duckLisp_instructionClass_pushVaClosure:
 						puts("PUSH VA CLOSURE");
 						break;
-					case duckLisp_instructionClass_pushGlobal:
-						puts("PUSH GLOBAL");
-						break;
 					default:;
 					}
 #endif
-- 
2.43.0


From b01d2d01e9817c028a21c5b6d2301cc71c093c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 37/82] fix: comptime looks at its result only after it has
 succeeded

---
 generators.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 7419ee5..1fc7e0f 100644
--- a/generators.c
+++ b/generators.c
@@ -1261,7 +1261,6 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		eError = dl_array_pushElements(&duckLisp->errors,
 		                               duckLisp->vm.errors.elements,
 		                               duckLisp->vm.errors.elements_length);
@@ -1269,6 +1268,8 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 		if (eError) e = eError;
 		if (e) goto cleanup;
+		/* Execution succeeded, so there is a value on the stack. */
+		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
-- 
2.43.0


From 4ff5d7fe58396eada68f21c43a8dc9e568bbc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 38/82] fix: functions named var, defun, or noscope can be
 called as statements

---
 generators.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/generators.c b/generators.c
index 1fc7e0f..f82bec2 100644
--- a/generators.c
+++ b/generators.c
@@ -880,6 +880,8 @@ dl_error_t duckLisp_generator_noscope(duckLisp_t *duckLisp,
 	dl_bool_t foundVar = dl_false;
 	dl_bool_t foundDefun = dl_false;
 	dl_bool_t foundNoscope = dl_false;
+	duckLisp_functionType_t functionType;
+	dl_ptrdiff_t functionIndex;
 	dl_ptrdiff_t pops = 0;
 
 	/* Compile */
@@ -902,10 +904,23 @@ dl_error_t duckLisp_generator_noscope(duckLisp_t *duckLisp,
 		foundDefun = dl_false;
 		foundVar = dl_false;
 		foundNoscope = dl_false;
+		functionType = duckLisp_functionType_none;
 		currentExpression = expression->compoundExpressions[i];
 		if ((currentExpression.type == duckLisp_ast_type_expression)
 		    && (currentExpression.value.expression.compoundExpressions_length > 0)
 		    && (currentExpression.value.expression.compoundExpressions[0].type == duckLisp_ast_type_identifier)) {
+			/* The keywords may have been redefined as functions. */
+			e = duckLisp_scope_getFunctionFromName(duckLisp,
+			                                       compileState->currentCompileState,
+			                                       &functionType,
+			                                       &functionIndex,
+			                                       (currentExpression.value.expression.compoundExpressions[0]
+			                                        .value.identifier.value),
+			                                       (currentExpression.value.expression.compoundExpressions[0]
+			                                        .value.identifier.value_length));
+			if (e) goto cleanup;
+		}
+		if (functionType == duckLisp_functionType_generator) {
 			/* Only one of these can return true. */
 			(void) dl_string_compare(&foundVar,
 			                         currentExpression.value.expression.compoundExpressions[0].value.identifier.value,
-- 
2.43.0


From 8a43388c9acc0972262f742837adad90a2c7bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 39/82] fix: reporting an unmatched parenthesis does not read
 past the end of the source

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index fb9680f..75d8d38 100644
--- a/parser.c
+++ b/parser.c
@@ -309,7 +309,7 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 			                                   fileName_length,
 			                                   source,
 			                                   source_length,
-			                                   -1,
+			                                   start_index,
 			                                   -1,
 			                                   dl_true);
 			if (eError) e = eError;
@@ -437,7 +437,7 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 			                                   fileName_length,
 			                                   source,
 			                                   source_length,
-			                                   -1,
+			                                   *index,
 			                                   -1,
 			                                   dl_true);
 			if (eError) e = eError;
-- 
2.43.0


From a917215bbfb8b633575f5e8b54e6b1ae142263b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 40/82] fix: an empty source and a source that ends in an
 opening parenthesis are reported

---
 parser.c | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/parser.c b/parser.c
index 75d8d38..9e629bf 100644
--- a/parser.c
+++ b/parser.c
@@ -387,7 +387,7 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		                                   source_length,
 		                                   *index,
 		                                   indexCopy,
-		                                   throwErrors);
+		                                   dl_true);
 		e = eError ? eError : dl_error_invalidValue;
 		goto cleanup;
 	}
@@ -408,20 +408,6 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 
 	indexCopy++;
 
-	if (indexCopy >= (dl_ptrdiff_t) source_length) {
-		eError = duckLisp_error_pushSyntax(duckLisp,
-		                                   DL_STR("Not an expression: file too short."),
-		                                   fileName,
-		                                   fileName_length,
-		                                   source,
-		                                   source_length,
-		                                   *index,
-		                                   indexCopy,
-		                                   throwErrors);
-		e = eError ? eError : dl_error_invalidValue;
-		goto cleanup;
-	}
-
 	/* There might not be anything else before the closing parenthesis. */
 	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 
-- 
2.43.0


From 504dc74b0505631f26629f3c2c9f5b92fc3df98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 41/82] fix: calling a callback's name after it has been
 assigned something else is a run-time error

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 9c4c4b9..20de4a0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1689,6 +1689,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			/* The program may have assigned something else to the name of the callback. */
+			if (global->type != duckVM_object_type_function) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: Object is not a callback."));
+				if (eError) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From 25bbbfcd022add4bb5003e0f9eeb0a1a7038f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 42/82] fix: an improper list returned by a macro is rejected
 without writing past the end of its source

---
 generators.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generators.c b/generators.c
index f82bec2..8cb80de 100644
--- a/generators.c
+++ b/generators.c
@@ -1077,7 +1077,9 @@ dl_size_t duckLisp_consList_length(duckVM_object_t *cons) {
 			length++;
 		}
 		else {
+			/* An improper list still has this element. */
 			cons = dl_null;
+			length++;
 		}
 	}
 	return length;
-- 
2.43.0


From 5837fd09d3bc6fe1c0225295eb44e5de1e3daa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 43/82] fix: a bare form as the whole source leaves one value
 on the stack

---
 duckLisp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index ef0eb50..d15d15e 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1292,10 +1292,10 @@ dl_error_t duckLisp_compileAST(duckLisp_t *duckLisp,
 		e = duckLisp_emit_move(duckLisp,
 		                       compileState,
 		                       assembly,
-		                       duckLisp_localsLength_get(compileState) - 2,
+		                       0,
 		                       duckLisp_localsLength_get(compileState) - 1);
 		if (e) goto cleanup;
-		e = duckLisp_emit_pop(duckLisp, compileState, assembly, 1);
+		e = duckLisp_emit_pop(duckLisp, compileState, assembly, duckLisp_localsLength_get(compileState) - 1);
 		if (e) goto cleanup;
 	}
 	e = duckLisp_emit_exit(duckLisp, compileState, assembly);
-- 
2.43.0


From b3ab1e8f403f0bcd8c0833ff90ebffe08db991f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 44/82] fix: nested duckVM_execute keeps the calling bytecode
 visible to the garbage collector

---
 duckVM.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 20de4a0..e845db8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4891,7 +4891,28 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 }
 
 dl_error_t duckVM_execute(duckVM_t *duckVM, dl_uint8_t *bytecode, dl_size_t bytecode_length) {
-	return duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+	dl_bool_t nested = (duckVM->currentBytecode != dl_null);
+	dl_size_t frames_length = duckVM->call_stack.elements_length;
+
+	if (nested) {
+		/* Called from a callback. Keep the bytecode that called it visible to the garbage collector. */
+		e = call_stack_push(duckVM, dl_null, duckVM->currentBytecode, dl_null);
+		if (e) goto cleanup;
+	}
+
+	e = duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+
+	if (nested) {
+		dl_size_t extraFrames = duckVM->call_stack.elements_length - frames_length;
+		eError = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, extraFrames);
+		if (!e) e = eError;
+		eError = dl_array_popElements(&duckVM->call_stack, dl_null, extraFrames);
+		if (!e) e = eError;
+	}
+
+ cleanup: return e;
 }
 
 dl_error_t duckVM_linkCFunction(duckVM_t *duckVM, dl_ptrdiff_t key, dl_error_t (*callback)(duckVM_t *)) {
-- 
2.43.0


From 1f733da4e5146ee3a3df9e3b859794214c74d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 45/82] fix: funcall without operands is rejected instead of
 reading past the expression

---
 generators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators.c b/generators.c
index 8cb80de..674708e 100644
--- a/generators.c
+++ b/generators.c
@@ -3331,6 +3331,9 @@ dl_error_t duckLisp_generator_funcall2(duckLisp_t *duckLisp,
 	dl_ptrdiff_t innerStartStack_length;
 	dl_ptrdiff_t outerStartStack_length;
 
+	e = duckLisp_checkArgsAndReportError(duckLisp, *expression, 2, dl_true);
+	if (e) goto cleanup;
+
 	e = duckLisp_compile_compoundExpression(duckLisp,
 	                                        compileState,
 	                                        assembly,
-- 
2.43.0


From ea581ca5fcb80dc2de55016b6293ff2d24b13b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 46/82] fix: the reader keeps the objects it is building
 visible to the garbage collector

---
 duckLisp.c | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index d15d15e..900b2e0 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -868,6 +868,12 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 		/* Fall through */
 	case duckLisp_ast_type_literalExpression: {
 		duckVM_object_t *tailPointer = dl_null;
+		/* Everything built so far is kept on the stack so that the garbage collector doesn't free it. */
+		const dl_size_t stack_length = duckVM->stack.elements_length;
+		duckVM_object_t list = duckVM_object_makeList(dl_null);
+		e = duckVM_object_push(duckVM, &list);
+		if (e) break;
+		/* stack: list */
 		DL_DOTIMES(j, ast.value.expression.compoundExpressions_length) {
 			duckVM_object_t head;
 			e = duckLisp_astToObject(duckLisp,
@@ -878,13 +884,24 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 			                           - 1
 			                           - j]));
 			if (e) break;
+			e = duckVM_object_push(duckVM, &head);
+			if (e) break;
+			/* stack: list head */
+			duckVM_object_t tail = duckVM_object_makeCons(dl_null, tailPointer);
+			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			if (e) break;
+			DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, stack_length).value.list = tailPointer;
 			duckVM_object_t *headPointer;
 			e = duckVM_allocateHeapObject(duckVM, &headPointer, head);
 			if (e) break;
-			duckVM_object_t tail = duckVM_object_makeCons(headPointer, tailPointer);
-			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			tailPointer->value.cons.car = headPointer;
+			e = duckVM_pop(duckVM);
 			if (e) break;
+			/* stack: list */
 		}
+		eError = duckVM_popSeveral(duckVM, duckVM->stack.elements_length - stack_length);
+		if (eError) e = eError;
+		/* stack: _ */
 		object->type = duckVM_object_type_list;
 		object->value.list = tailPointer;
 		break;
@@ -1598,29 +1615,41 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 			if (e) goto cleanupString;
 		}
 
+		/* Keep the AST visible to the garbage collector. */
+		e = duckVM_object_push(duckVM, &astObject);
+		if (e) goto cleanupString;
+		/* stack: ast */
 		e = duckVM_pushCons(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) */
+		/* stack: ast (()) */
 		e = duckVM_pushInteger(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) 0 */
+		/* stack: ast (()) 0 */
 		e = duckVM_setInteger(duckVM, status);
 		if (e) goto cleanupString;
-		/* stack: (()) status */
+		/* stack: ast (()) status */
 		e = duckVM_setRest(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) status */
+		/* stack: ast (() . status) status */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (() . status) */
+		/* stack: ast (() . status) */
 		e = duckVM_object_push(duckVM, &astObject);
 		if (e) goto cleanupString;
-		/* stack: (() . status) ast */
+		/* stack: ast (() . status) ast */
 		e = duckVM_setFirst(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (ast . status) ast */
+		/* stack: ast (ast . status) ast */
+		e = duckVM_pop(duckVM);
+		if (e) goto cleanupString;
+		/* stack: ast (ast . status) */
+		duckVM_object_t result;
+		e = duckVM_object_pop(duckVM, &result);
+		if (e) goto cleanupString;
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
+		e = duckVM_object_push(duckVM, &result);
+		if (e) goto cleanupString;
 		/* stack: (ast . status) */
 
 	cleanupString:
-- 
2.43.0


From 4dc67535bc0fa56d35590c9950d4ca808417c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 47/82] fix: push-string stops when the string cannot be
 allocated

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index e845db8..af5a830 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -889,6 +889,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0


From 120e3df03f0e7de610f2f8bc1c1b86767d238e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 48/82] fix: vectors under construction are visible to the
 garbage collector, and a failure leaves both stacks balanced

---
 duckVM.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index af5a830..a5b6aec 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3342,9 +3342,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			internal_vector.value.internal_vector.length = size1;
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
+			/* The elements that exist so far have to be visible to the GC too. */
+			DL_DOTIMES(k, size1) {
+				object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+			}
+			object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		}
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
-		e = dl_array_pushElement(&duckVM->stack, &object1);
+		e = stack_push(duckVM, &object1);
 		if (e) break;
 		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
 			ptrdiff1 = *(ip++);
@@ -3378,13 +3383,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			                             object2);
 			if (e) break;
 		}
-		if (e) break;
-
-		/* Break push_scope abstraction. */
-		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
-		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
-		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
 	case duckLisp_instruction_makeVector32:
@@ -3450,9 +3448,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			internal_vector.value.internal_vector.length = size1;
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
+			/* The elements that exist so far have to be visible to the GC too. */
+			DL_DOTIMES(k, size1) {
+				object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+			}
+			object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		}
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
-		e = dl_array_pushElement(&duckVM->stack, &object1);
+		e = stack_push(duckVM, &object1);
 		if (e) break;
 		e = duckVM_gclist_pushObject(duckVM,
 		                             &objectPtr1,
@@ -3462,13 +3465,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			object1.value.vector.internal_vector->value.internal_vector.values[k] = objectPtr1;
 		}
 
-		if (e) break;
-
-		/* Break push_scope abstraction. */
-		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
-		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
-		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
 	case duckLisp_instruction_getVecElt32:
-- 
2.43.0


From 17dbadcc2ebe117a2b99e838b0f71c66e8cbe6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 49/82] fix: a closure that cannot be built leaves the stack
 and the upvalue stack at the same height

---
 duckVM.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index a5b6aec..09626cf 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1218,7 +1218,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 			upvalueArray.upvalues[k] = upvalue_pointer;
 		}
-		if (e) break;
+		if (e) {
+			/* Keep the stack and the upvalue stack at the same height. */
+			if (duckVM->stack.elements_length > duckVM->upvalue_stack.elements_length) {
+				(void) dl_array_popElement(&duckVM->stack, dl_null);
+			}
+			break;
+		}
 		if (!recursive) {
 			/* Break push_scope abstraction. */
 			e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
-- 
2.43.0


From 1670d7ca1de57b31ffcb30f149f804ab21b82ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 50/82] fix: a stack reset with an exhausted heap leaves no
 closure referring to the popped stack

---
 duckVM.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 09626cf..92682b9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -547,13 +547,11 @@ static dl_error_t stack_releaseAndPopMultiple(duckVM_t *duckVM, dl_size_t pops)
 			duckVM_object_t object = DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t);
 			duckVM_object_t *heapObject = dl_null;
 			eError = duckVM_gclist_pushObject(duckVM, &heapObject, object);
-			if (eError) {
-				if (!e) e = eError;
-			}
-			else {
-				upvalue->value.upvalue.value.heap_object = heapObject;
-				upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
-			}
+			if (eError && !e) e = eError;
+			/* When there was no room for the object it is lost, but the upvalue must not refer to a stack slot that no
+			   longer belongs to it. */
+			upvalue->value.upvalue.value.heap_object = heapObject;
+			upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
 		}
 		eError = stack_pop(duckVM, dl_null);
 		if (eError) return eError;
@@ -1368,6 +1366,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (e) break;
 			}
 			else if (upvalue->value.upvalue.type == duckVM_upvalue_type_heap_object) {
+				if (upvalue->value.upvalue.value.heap_object == dl_null) {
+					e = dl_error_nullPointer;
+					break;
+				}
 				*upvalue->value.upvalue.value.heap_object = object1;
 			}
 			else {
@@ -1378,6 +1380,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					e = dl_array_set(&duckVM->stack, &object1, upvalue->value.upvalue.value.stack_index);
 					if (e) break;
 				}
+				else if (upvalue->value.upvalue.value.heap_object == dl_null) {
+					e = dl_error_nullPointer;
+					break;
+				}
 				else {
 					*upvalue->value.upvalue.value.heap_object = object1;
 				}
@@ -4980,11 +4986,17 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
-	e = stack_releaseAndPopMultiple(duckVM, duckVM->stack.elements_length);
-	eError = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (!e) e = eError;
+	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
 	eError = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
 	if (!e) e = eError;
+	/* Moving captured objects to the heap may require a collection. Don't hold on to what is about to be dropped. */
+	DL_DOTIMES(k, duckVM->stack.elements_length) {
+		if (DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, k) == dl_null) {
+			DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, k) = duckVM_object_makeList(dl_null);
+		}
+	}
+	eError = stack_releaseAndPopMultiple(duckVM, duckVM->stack.elements_length);
+	if (!e) e = eError;
 	if (e) {
 		eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
 		if (!e) e = eError;
@@ -5425,6 +5437,7 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 		if (e) return e;
 	}
 	else if (upvalue.type == duckVM_upvalue_type_heap_object) {
+		if (upvalue.value.heap_object == dl_null) return dl_error_nullPointer;
 		*object = *upvalue.value.heap_object;
 	}
 	return dl_error_ok;
@@ -5461,6 +5474,7 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 		if (e) return e;
 	}
 	else if (upvalue.type == duckVM_upvalue_type_heap_object) {
+		if (upvalue.value.heap_object == dl_null) return dl_error_nullPointer;
 		*upvalue.value.heap_object = *object;
 	}
 	return dl_error_ok;
-- 
2.43.0


From 50b3d58d73c896768901ebf299a5e1fafbe63d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 51/82] fix: the disassembler reads as many bytes per vector
 element as the instruction has

---
 assembler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assembler.c b/assembler.c
index 7ffc274..9c369c0 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2974,9 +2974,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_cons8, DL_STR("cons.8 1 1")},
 		{duckLisp_instruction_cons16, DL_STR("cons.16 2 2")},
 		{duckLisp_instruction_cons32, DL_STR("cons.32 4 4")},
-		{duckLisp_instruction_vector8, DL_STR("vector.8 1 V0")},
-		{duckLisp_instruction_vector16, DL_STR("vector.16 2 V0")},
-		{duckLisp_instruction_vector32, DL_STR("vector.32 4 V0")},
+		{duckLisp_instruction_vector8, DL_STR("vector.8 1 v0")},
+		{duckLisp_instruction_vector16, DL_STR("vector.16 2 v0")},
+		{duckLisp_instruction_vector32, DL_STR("vector.32 4 v0")},
 		{duckLisp_instruction_makeVector8, DL_STR("makeVector.8 1 1")},
 		{duckLisp_instruction_makeVector16, DL_STR("makeVector.16 2 2")},
 		{duckLisp_instruction_makeVector32, DL_STR("makeVector.32 4 4")},
-- 
2.43.0


From 812ef81b4bf9b3cddad8526d8e04cec83dbce805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:28 +0000
Subject: [PATCH 52/82] fix: a branch that pops more than 255 objects pops them
 all

---
 emitters.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/emitters.c b/emitters.c
index 002e1fd..7ae8118 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1442,6 +1442,16 @@ dl_error_t duckLisp_emit_brnz(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* The pop count of the instruction is a single byte. */
+	if (pops > 0xFF) {
+		dl_size_t locals_length = duckLisp_localsLength_get(compileState);
+		e = duckLisp_emit_move(duckLisp, compileState, assembly, locals_length - pops, locals_length - 1);
+		if (e) goto cleanup;
+		e = duckLisp_emit_pop(duckLisp, compileState, assembly, pops - 1);
+		if (e) goto cleanup;
+		pops = 1;
+	}
+
 	/* `label_index` should never equal -1 after this function exits. */
 	e = duckLisp_scope_getLabelFromName(compileState->currentCompileState, &label_index, label, label_length);
 	if (e) goto cleanup;
-- 
2.43.0


From 4353a7f3c83b59f5745063518a8cd95f6ea5f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 53/82] fix: intern, read and declarations of the empty string
 work with DuckLib's allocator

---
 duckLisp.c             | 14 ++++++++++----
 parenthesis-inferrer.c |  7 +++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 900b2e0..7e805cd 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1517,8 +1517,11 @@ dl_error_t duckLisp_callback_intern(duckVM_t *duckVM) {
 		if (e) goto cleanupString;
 
 	cleanupString:
-		e = DL_FREE(duckVM->memoryAllocation, &string);
-		if (e) goto cleanup;
+		/* The empty string is null. */
+		if (string) {
+			eError = DL_FREE(duckVM->memoryAllocation, &string);
+			if (eError) e = eError;
+		}
 	}
 
  cleanup: return e;
@@ -1653,8 +1656,11 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 		/* stack: (ast . status) */
 
 	cleanupString:
-		eError = DL_FREE(duckVM->memoryAllocation, &string);
-		if (eError) e = eError;
+		/* The empty string is null. */
+		if (string) {
+			eError = DL_FREE(duckVM->memoryAllocation, &string);
+			if (eError) e = eError;
+		}
 		if (e) goto cleanup;
 	}
 
diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index dfd82d8..6d7a381 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1738,8 +1738,11 @@ static dl_error_t callback_declareIdentifier(duckVM_t *vm) {
 		/* stack: _ */
 		e = addDeclaration(state, string, length, typeAst, dl_null, 0);
 		if (e) goto cleanup;
-		e = DL_FREE(vm->memoryAllocation, &string);
-		if (e) goto cleanup;
+		/* The empty string is null. */
+		if (string) {
+			e = DL_FREE(vm->memoryAllocation, &string);
+			if (e) goto cleanup;
+		}
 	}
 	/* stack: _ */
 
-- 
2.43.0


From 102ec18d8c29cde8a9fef5db7527f92d3254b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 54/82] fix: symbols whose names are stripped have the empty
 string as their name at run time

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 92682b9..182c7ee 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4390,7 +4390,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-		object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		/* `internalString` is null if the name has been stripped. */
+		object2.value.string.length = (object1.value.symbol.internalString
+		                               ? object1.value.symbol.internalString->value.internalString.value_length
+		                               : 0);
 		e = stack_push(duckVM, &object2);
 		if (e) break;
 		break;
@@ -4615,7 +4618,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					object1_string_length = object1.value.string.length - object1.value.string.offset;
 				}
 			}
-			else {
+			else if (object1.value.symbol.internalString != dl_null) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
@@ -4628,7 +4631,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					object2_string_length = object2.value.string.length - object2.value.string.offset;
 				}
 			}
-			else {
+			else if (object2.value.symbol.internalString != dl_null) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
-- 
2.43.0


From c3298ccd0503b59ea96d23238321d164019eb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 55/82] fix: the disassembler knows the format of stripped
 symbols

---
 assembler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assembler.c b/assembler.c
index 9c369c0..0c2a682 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2887,9 +2887,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushSymbol8, DL_STR("symbol.8 1 1 s1")},
 		{duckLisp_instruction_pushSymbol16, DL_STR("symbol.16 2 2 s1")},
 		{duckLisp_instruction_pushSymbol32, DL_STR("symbol.32 4 4 s1")},
-		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1 1 s1")},
-		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2 2 s1")},
-		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4 4 s1")},
+		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1")},
+		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2")},
+		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4")},
 		{duckLisp_instruction_pushBooleanFalse, DL_STR("false")},
 		{duckLisp_instruction_pushBooleanTrue, DL_STR("true")},
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
-- 
2.43.0


From 80e636912b0e17c6118bbaffc9542346afba907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 56/82] fix: shutting down a trie frees all of it with
 DuckLib's allocator

---
 DuckLib/trie.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 9ca3f95..bcd599c 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -43,19 +43,26 @@ static dl_error_t dl_trie_quit_node(dl_trie_t *trie, dl_trie_node_t *trieNode) {
 		}
 	} // Fall through.
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
-	if (e) {
-		goto l_cleanup;
+	/* A leaf has no children, and freeing null is an error in DuckLib's allocator. */
+	if (trieNode->value.nodes_name_lengths != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes_name != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
 	trieNode->index = -1;
-- 
2.43.0


From 36148e8b2ffbfdef03baf5b485e577cdb3acccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 57/82] fix: the outermost scope of a compilation is freed with
 the compile state

---
 duckLisp.c | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 7e805cd..51fff10 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -719,6 +719,7 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
                                    dl_uint8_t *name,
                                    const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -726,12 +727,12 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
 	if (e) goto l_cleanup;
 
 	e = dl_trie_insert(&scope.labels_trie, name, name_length, subCompileState->label_number);
+	/* Store the scope even if the insertion failed. The trie may have been moved. */
+	eError = scope_setTop(subCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto l_cleanup;
 	subCompileState->label_number++;
 
-	e = scope_setTop(subCompileState, &scope);
-	if (e) goto l_cleanup;
-
  l_cleanup:
 
 	return e;
@@ -2178,7 +2179,16 @@ void duckLisp_subCompileState_init(dl_memoryAllocation_t *memoryAllocation,
 dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompileState_t *subCompileState) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
-	e = dl_array_quit(&subCompileState->scope_stack);
+	/* The outermost scope is created implicitly, so nothing else pops it. */
+	while (subCompileState->scope_stack.elements_length > 0) {
+		duckLisp_scope_t scope;
+		e = dl_array_popElement(&subCompileState->scope_stack, &scope);
+		if (e) break;
+		eError = scope_quit(duckLisp, &scope);
+		if (eError) e = eError;
+	}
+	eError = dl_array_quit(&subCompileState->scope_stack);
+	if (eError) e = eError;
 	eError = duckLisp_assembly_quit(duckLisp, &subCompileState->assembly);
 	if (eError) e = eError;
 	return e;
@@ -2298,6 +2308,7 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
                                     const dl_uint8_t *name,
                                     const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2306,9 +2317,9 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
 	e = dl_trie_insert(&scope.locals_trie, name, name_length, duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	/* Store the scope even if the insertion failed. The trie may have been moved. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto cleanup;
 
  cleanup:
@@ -2340,6 +2351,7 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
                                            duckLisp_compileState_t *compileState,
                                            const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2352,12 +2364,12 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
 	                   name.value,
 	                   name.value_length,
 	                   duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) {
+		e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
+	}
+	/* Store the scope even if an insertion failed. The tries may have been moved. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (!e) e = eError;
 	if (e) goto cleanup;
 
  cleanup: return e;
@@ -2368,6 +2380,7 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
                                             duckLisp_compileState_t *compileState,
                                             const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 	duckLisp_subCompileState_t *originalSubCompileState = compileState->currentCompileState;
@@ -2382,9 +2395,9 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
 		                   name.value,
 		                   name.value_length,
 		                   duckLisp_functionType_macro);
-		if (e) goto cleanup;
-
-		e = scope_setTop(compileState->currentCompileState, &scope);
+		/* Store the scope even if the insertion failed. The trie may have been moved. */
+		eError = scope_setTop(compileState->currentCompileState, &scope);
+		if (!e) e = eError;
 		if (e) goto cleanup;
 	}
 	if (compileState->currentCompileState == &compileState->runtimeCompileState) {
-- 
2.43.0


From c736df451978954aef02e2517ce93cf92fd40422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 58/82] fix: an unterminated literal expression is an error,
 and #() is one at the end of the source

---
 parser.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 9e629bf..cbeae06 100644
--- a/parser.c
+++ b/parser.c
@@ -233,7 +233,7 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	expression.compoundExpressions_length = 0;
 
 	/* Basic syntax checks. Need space for two parentheses and the first character must be a parenthesis. */
-	if (indexCopy + 3 >= (dl_ptrdiff_t) source_length) {
+	if (indexCopy + 3 > (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Not an expression: file too short."),
 		                                   fileName,
@@ -544,6 +544,14 @@ static dl_error_t parse_identifier(duckLisp_t *duckLisp,
 	}
 	indexCopy++;
 
+	/* "#(" always begins a literal expression. */
+	if ((source[start_index] == '#')
+	    && (indexCopy < (dl_ptrdiff_t) source_length)
+	    && (source[indexCopy] == '(')) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	while ((indexCopy < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[indexCopy])) {
 		indexCopy++;
 	}
@@ -619,6 +627,12 @@ static dl_error_t parse_callback(duckLisp_t *duckLisp,
 	start_index++;
 	indexCopy++;
 
+	/* "#(" always begins a literal expression. If we get here then it is malformed. */
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '(')) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	while ((indexCopy < (dl_ptrdiff_t) source_length)
 	       && (dl_string_isAlpha(source[indexCopy])
 	           || dl_string_isDigit(source[indexCopy])
-- 
2.43.0


From a6643b091bc049b77a91bcd00123eb6719359d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 59/82] fix: inference leaves the head of a literal expression
 alone unless it is a callback

---
 parenthesis-inferrer.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index 6d7a381..34e3df1 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1565,12 +1565,27 @@ static dl_error_t infer_expression(inferrerState_t *state,
 
 	if (compoundExpression->type == duckLisp_ast_type_literalExpression) {
 		/* Don't type-check. */
-		e = infer_callback(state, head, dl_false);
-		if (e) goto cleanup;
-		/* Run argument inference */
+		if ((head->type == duckLisp_ast_type_callback) || (head->type == duckLisp_ast_type_identifier)) {
+			e = infer_callback(state, head, dl_false);
+			if (e) goto cleanup;
+			/* Run argument inference */
 
-		e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
-		if (e) goto cleanup;
+			e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
+			if (e) goto cleanup;
+		}
+		else {
+			/* This is a scope. */
+			inferrerScope_t scope;
+			(void) inferrerScope_init(&scope, state->memoryAllocation);
+			e = pushDeclarationScope(state, &scope);
+			if (e) goto cleanup;
+
+			e = inferArguments(state, fileName, fileName_length, expression, 0, dl_false);
+			if (e) goto cleanup;
+
+			e = popDeclarationScope(state, dl_null);
+			if (e) goto cleanup;
+		}
 
 		compoundExpression->type = duckLisp_ast_type_expression;
 	}
-- 
2.43.0


From 04cdb1d5358faa8b9894b233eab76c8363f1710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 60/82] fix: heapsort of an empty array returns

---
 DuckLib/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DuckLib/sort.c b/DuckLib/sort.c
index 8cb341d..435d91f 100644
--- a/DuckLib/sort.c
+++ b/DuckLib/sort.c
@@ -29,6 +29,8 @@ void max_heapify(void *array, const dl_size_t length, dl_size_t size, const dl_p
 }
 
 void heapify(void *array, dl_size_t length, dl_size_t size, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
+	if (length == 0) return;
+
 	for (dl_ptrdiff_t i = (length - 1)/2; i >= 0; --i) {
 		/**/ max_heapify(array, length, size, i, comparison, context);
 	}
-- 
2.43.0


From 1bd8d76bfe9c636088f304643da8bebb7124cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 61/82] fix: empty text is not a float, and isn't read

---
 DuckLib/string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 83430cc..b024e45 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -257,6 +257,11 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 
 	*result = 0.0;
 
+	if (string_length == 0) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	if (string[index] == '-') {
 		index++;
 
-- 
2.43.0


From 3a69c1b9dc5d649e504b9614c42aa7690dbc9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 62/82] fix: best and worst fit consider every block, next fit
 continues at the most recent block and wraps

---
 DuckLib/memory.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 9e3dc71..4571caa 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -373,9 +373,11 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	dl_ptrdiff_t optimumBlock = -1;
 	dl_ptrdiff_t currentBlock = -1;
 	dl_bool_t found = dl_false;
+	dl_bool_t wrapped = dl_false;
 	
 	if (fit == dl_memoryFit_next) {
 		currentBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
+		if (currentBlock == -1) currentBlock = memoryAllocation->firstBlock;
 	}
 	else {
 		currentBlock = memoryAllocation->firstBlock;
@@ -386,7 +388,7 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 		if (!memoryAllocation->blockList[currentBlock].allocated && (memoryAllocation->blockList[currentBlock].block_size >= size)) {
 			if (optimumBlock == -1) {
 				optimumBlock = currentBlock;
-				found = dl_true;
+				found = (fit == dl_memoryFit_first) || (fit == dl_memoryFit_next);
 			}
 			else switch (fit) {
 			case dl_memoryFit_first:
@@ -415,6 +417,11 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 			}
 		}
 		currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
+		// Next fit has to look at the blocks before the most recent one too.
+		if ((currentBlock == -1) && (fit == dl_memoryFit_next) && !wrapped) {
+			currentBlock = memoryAllocation->firstBlock;
+			wrapped = dl_true;
+		}
 	}
 	
 	if (optimumBlock == -1) {
@@ -452,6 +459,7 @@ void dl_memory_mergeBlockAfter(dl_memoryAllocation_t *memoryAllocation, dl_bool_
 		}
 		// Free nextBlock's entry.
 		memoryAllocation->blockList[nextBlock].unlinked = dl_true;
+		if (memoryAllocation->mostRecentBlock == nextBlock) memoryAllocation->mostRecentBlock = block;
 		
 		if (merged) {
 			*merged = dl_true;
@@ -482,6 +490,7 @@ void dl_memory_mergeBlockBefore(dl_memoryAllocation_t *memoryAllocation, dl_bool
 		}
 		// Free previousBlock's entry.
 		memoryAllocation->blockList[previousBlock].unlinked = dl_true;
+		if (memoryAllocation->mostRecentBlock == previousBlock) memoryAllocation->mostRecentBlock = block;
 		
 		if (merged) {
 			*merged = dl_true;
@@ -732,6 +741,7 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 
 	// Mark allocated.
 	memoryAllocation->blockList[block].allocated = dl_true;
+	memoryAllocation->mostRecentBlock = block;
 
 	// Pass the memory.
 	*memory = memoryAllocation->blockList[block].block;
@@ -896,6 +906,7 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	
 	// Mark allocated.
 	memoryAllocation->blockList[newBlock].allocated = dl_true;
+	memoryAllocation->mostRecentBlock = newBlock;
     
 	// Pass the memory.
 	*memory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 2b5782cafa262153a2209611674cffca5fcbe035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 63/82] fix: memory usage counts no unused block descriptors

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 4571caa..c4679d0 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -928,7 +928,7 @@ void dl_memory_usage(dl_size_t *bytes, const dl_memoryAllocation_t memoryAllocat
 	const dl_size_t blockList_length = memoryAllocation.blockList_length;
 	dl_size_t sum = 0;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < blockList_length; i++) {
-		if (blockList[i].allocated) {
+		if (!blockList[i].unlinked && blockList[i].allocated) {
 			sum += blockList[i].block_size;
 		}
 	}
-- 
2.43.0


From d572cdd4d73b512703fa3d758eb3d163adc4ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 64/82] fix: requests for nearly SIZE_MAX bytes fail

---
 DuckLib/memory.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index c4679d0..5ff1927 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -724,6 +724,10 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 	dl_ptrdiff_t block = -1;
 
 	/* A request for zero bytes gets a unique block, like `malloc` usually does. Empty strings and vectors need this. */
+	if (size + DL_ALIGNMENT < size) {
+		error = dl_error_outOfMemory;
+		goto cleanup;
+	}
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
@@ -821,6 +825,10 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 	
+	if (size + DL_ALIGNMENT < size) {
+		error = dl_error_outOfMemory;
+		goto l_cleanup;
+	}
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 	
 	error = dl_memory_pointerToBlock(*memoryAllocation, &currentBlock, memory);
-- 
2.43.0


From b63c1f6658c6cd9c87e2c22039b6af3260005ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 65/82] fix: failure to enlarge the allocation table changes
 nothing

---
 DuckLib/memory.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 5ff1927..995ff71 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -544,6 +544,10 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	void *tempMemory = dl_null;
 	dl_ptrdiff_t extraBlock = -1;
 	dl_memoryBlock_t *blockListEntry = dl_null;
+	dl_ptrdiff_t nextBlock = -1;
+	dl_ptrdiff_t previousBlock = -1;
+	dl_size_t available = 0;
+	dl_size_t needed = 0;
 	
 	// Use unlinked descriptors if possible.
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < memoryAllocation->blockList_length; i++) {
@@ -557,6 +561,29 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	// If we still need descriptors, then realloc the table.
 	if (entries_left) {
 		
+		// Make sure that there is a place for the larger table before changing anything.
+		blockListEntry = &memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList];
+		nextBlock = blockListEntry->nextBlock;
+		if ((nextBlock != -1) && memoryAllocation->blockList[nextBlock].allocated) nextBlock = -1;
+		previousBlock = blockListEntry->previousBlock;
+		if ((previousBlock != -1) && memoryAllocation->blockList[previousBlock].allocated) previousBlock = -1;
+		available = blockListEntry->block_size;
+		if (nextBlock != -1) available += memoryAllocation->blockList[nextBlock].block_size;
+		if (available < (memoryAllocation->blockList_length + entries_left) * sizeof(dl_memoryBlock_t)) {
+			// Moving the table takes another descriptor, and merging blocks gives some back.
+			needed = entries_left + 1;
+			if (nextBlock != -1) --needed;
+			if (previousBlock != -1) {
+				needed = (needed > 1) ? needed - 1 : 0;
+				available += memoryAllocation->blockList[previousBlock].block_size;
+			}
+			needed = (memoryAllocation->blockList_length + needed) * sizeof(dl_memoryBlock_t);
+			if (available < needed) {
+				error = dl_memory_findBlock(memoryAllocation, &newBlock, needed, memoryAllocation->fit);
+				if (error) goto cleanup;
+			}
+		}
+		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
 		if ((memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock == -1)
-- 
2.43.0


From 9794958b622ab0db182cc1379040a193e8b336d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 66/82] fix: dl_realloc leaves the block as it was when memory
 runs out, and copies no more than it held

---
 DuckLib/memory.c | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 995ff71..4fb218a 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -838,9 +838,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	dl_ptrdiff_t newBlock = -1;
 
 	dl_bool_t blockFits = dl_false;
-#ifdef MEMCHECK
+	dl_bool_t nextFree = dl_false;
+	dl_bool_t previousFree = dl_false;
+	dl_memoryBlock_t *blockList = dl_null;
+	dl_size_t available;
 	dl_size_t oldSize;
-#endif
 	
 	if (*memory == dl_null) {
 		error = dl_malloc(memoryAllocation, memory, size);
@@ -864,9 +866,29 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-#ifdef MEMCHECK
 	oldSize = memoryAllocation->blockList[currentBlock].block_size;
-#endif
+	
+	// Make sure that there is enough memory before changing anything. The caller's block has to survive a failure.
+	for (dl_uint8_t i = 0; i < 2; i++) {
+		blockList = memoryAllocation->blockList;
+		nextFree = (blockList[currentBlock].nextBlock != -1)
+			&& !blockList[blockList[currentBlock].nextBlock].allocated;
+		previousFree = (blockList[currentBlock].previousBlock != -1)
+			&& !blockList[blockList[currentBlock].previousBlock].allocated;
+		// Splitting a block takes a descriptor. Merging blocks frees one.
+		if ((i > 0) || nextFree || ((oldSize < size) && previousFree)) break;
+		error = dl_memory_reserveTableEntries(memoryAllocation, 1);
+		if (error) goto l_cleanup;
+	}
+	available = oldSize;
+	if (nextFree) available += blockList[blockList[currentBlock].nextBlock].block_size;
+	if (available < size) {
+		if (previousFree) available += blockList[blockList[currentBlock].previousBlock].block_size;
+		if (available < size) {
+			error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
+			if (error) goto l_cleanup;
+		}
+	}
 	
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
@@ -884,14 +906,6 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
 	}
 	
-	memoryAllocation->blockList[currentBlock].allocated = dl_true;
-	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
-	if (error) {
-		goto l_cleanup;
-	}
-	memoryAllocation->blockList[currentBlock].allocated = dl_false;
-	
-	
 	newBlock = currentBlock;
 	if (!blockFits) {
 		error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
@@ -915,7 +929,7 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 #endif /* MEMCHECK */
 		dl_memcopy(memoryAllocation->blockList[newBlock].block,
 		           *memory,
-		           dl_min(size, memoryAllocation->blockList[currentBlock].block_size));
+		           dl_min(size, oldSize));
 		if (error) {
 			goto l_cleanup;
 		}
-- 
2.43.0


From 0beb12a5484e33d0e179642ed57ef5f0558eda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 67/82] fix: duckVM_setGlobal stores the value instead of
 writing to a null pointer

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 182c7ee..0a23ba8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5017,10 +5017,13 @@ dl_error_t duckVM_pushGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
 
 /* Set the specified global variable to the value of the object on top of the stack. */
 dl_error_t duckVM_setGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
-	duckVM_object_t *object = dl_null;
-	dl_error_t e = stack_getTop(duckVM, object);
+	duckVM_object_t object;
+	duckVM_object_t *heapObject = dl_null;
+	dl_error_t e = stack_getTop(duckVM, &object);
+	if (e) return e;
+	e = duckVM_gclist_pushObject(duckVM, &heapObject, object);
 	if (e) return e;
-	return duckVM_global_set(duckVM, object, key);
+	return duckVM_global_set(duckVM, heapObject, key);
 }
 
 
-- 
2.43.0


From 748ceb204b2d7b29b9a6bb5670e4e5c8082a112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 68/82] fix: duckVM_pushFirst and duckVM_pushRest push nothing
 when they fail

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 0a23ba8..d6ba8c3 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6578,6 +6578,7 @@ dl_error_t duckVM_pushFirst(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &first);
 		if (e) break;
 	} while (0);
@@ -6682,6 +6683,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &rest);
 		if (e) break;
 	} while (0);
-- 
2.43.0


From 26959c8a42f04227a03dded615fa452c1f7e4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 69/82] fix: duckVM_pushRest of a sequence of one element is an
 empty sequence

---
 duckVM.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index d6ba8c3..014264f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6643,7 +6643,14 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = vector.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length) {
+			if ((vector.internal_vector != dl_null)
+			    && ((dl_size_t) offset == vector.internal_vector->value.internal_vector.length)) {
+				/* `offset` would be just past the end. */
+				rest.value.vector.internal_vector = dl_null;
+				break;
+			}
+			if ((vector.internal_vector == dl_null)
+			    || ((dl_size_t) offset > vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                             DL_STR("duckVM_pushRest: Vector is empty."));
@@ -6658,7 +6665,14 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = string.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= string.length) {
+			if ((string.internalString != dl_null) && ((dl_size_t) offset == string.length)) {
+				/* `offset` would be just past the end. */
+				rest.value.string.internalString = dl_null;
+				rest.value.string.offset = 0;
+				rest.value.string.length = 0;
+				break;
+			}
+			if ((dl_size_t) offset > string.length) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_pushRest: String is empty."));
-- 
2.43.0


From 7608f33b4c3cc47b007949fdb86a1d08448e9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 70/82] fix: duckVM_setRest links lists so that they are found
 by list operations

---
 duckVM.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 014264f..1f611c2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6796,8 +6796,13 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
-		if (e) break;
+		if (duckVM_object_type_list == value.type) {
+			value_pointer = value.value.list;
+		}
+		else {
+			e = duckVM_allocateHeapObject(duckVM, &value_pointer, value);
+			if (e) break;
+		}
 		e = stack_get(duckVM, &sequence, stack_index);
 		if (e) break;
 		type = sequence.type;
-- 
2.43.0


From 4a20c5ca37caf2dfcafc321a02ded3f15961aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 71/82] fix: duckVM_pushElement pushes the element of a list
 and fails outside of it

---
 duckVM.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 1f611c2..e165cd6 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6891,7 +6891,25 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 				}
 			}
 			if (e) break;
-			element = *element_pointer;
+			if ((sequence_index < 0)
+			    || (element_pointer == dl_null)
+			    || (duckVM_object_type_cons != element_pointer->type)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Index out of bounds."));
+				if (eError) e = eError;
+				break;
+			}
+			element_pointer = element_pointer->value.cons.car;
+			if (element_pointer == dl_null) {
+				element = duckVM_object_makeList(dl_null);
+			}
+			else if (duckVM_object_type_cons == element_pointer->type) {
+				element = duckVM_object_makeList(element_pointer);
+			}
+			else {
+				element = *element_pointer;
+			}
 			break;
 		}
 		case duckVM_object_type_vector: {
-- 
2.43.0


From 41700a2d0e01e39d873c80fe6b1f7791f41e9030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 72/82] fix: duckVM_setElement sets the indexed element of a
 list and fails on what isn't a sequence

---
 duckVM.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e165cd6..b56f640 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6971,19 +6971,13 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_list_t list = sequence.value.list;
-			if (list) {
-				list->value.cons.car = value_pointer;
-			}
-			else {
-				/* Nil */
+			if (sequence_index < 0) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: List is nil."));
+				                                  DL_STR("duckVM_setElement: Negative index."));
+				if (eError) e = eError;
 				break;
 			}
-			break;
-			/* This looks like a bug: */ }{
 			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
 				if (element_pointer) {
@@ -7048,6 +7042,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			break;
 		}
 		default: {
+			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
 			                                  DL_STR("duckVM_setElement: Unsupported object type."));
 			if (eError) e = eError;
-- 
2.43.0


From e16f68e265e85648da3ac841f3b4a542281aa794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 73/82] fix: duckVM_setCompositeFunction accepts indices
 relative to the top of the stack

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index b56f640..2f6742b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6341,7 +6341,7 @@ dl_error_t duckVM_setCompositeFunction(duckVM_t *duckVM, dl_ptrdiff_t stack_inde
 		duckVM_object_t *heap_value = dl_null;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = dl_array_get(&duckVM->stack, &composite, stack_index);
+		e = stack_get(duckVM, &composite, stack_index);
 		if (e) break;
 		if (duckVM_object_type_composite != composite.type) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 9ab448c7797029927b7b9d14e128a83e4d72501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 74/82] fix: duckVM_copySymbolName reports length 0 for a
 symbol without name

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 2f6742b..ddb5cc1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6143,7 +6143,7 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		}
 		else {
 			*name = dl_null;
-			name_length = 0;
+			*name_length = 0;
 			/* OK: This is symbol "compression". */
 		}
 	} while (0);
-- 
2.43.0


From 1242d34de1c185fa1e2279ca7bf638f38f76fc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 75/82] fix: duckVM_isEmpty takes the offset of a vector into
 account

---
 duckVM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ddb5cc1..964af36 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5687,7 +5687,8 @@ dl_error_t duckVM_isEmptyVector(duckVM_t *duckVM, dl_bool_t *result) {
 	if (object.type == duckVM_object_type_vector) {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -5739,7 +5740,8 @@ dl_error_t duckVM_isEmpty(duckVM_t *duckVM, dl_bool_t *result) {
 	case duckVM_object_type_vector: {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
-- 
2.43.0


From 6a6802636acf214891312a350d0d0b8b29cc7ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 76/82] fix: elements of strings are counted from the start of
 the slice and checked against its end

---
 duckVM.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 964af36..2500816 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5334,7 +5334,8 @@ dl_error_t duckVM_string_getElement(duckVM_string_t string, dl_uint8_t *byte, dl
 	duckVM_internalString_t internalString;
 	dl_error_t e = duckVM_string_getInternalString(string, &internalString);
 	if (e) return e;
-	*byte = internalString.value[index];
+	if ((index < 0) || ((dl_size_t) index >= string.length - string.offset)) return dl_error_invalidValue;
+	*byte = internalString.value[string.offset + index];
 	return e;
 }
 
-- 
2.43.0


From c4f85c79b5026945f50b4fa883707b59f74f5bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 77/82] fix: indices of captured variables are checked

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 2500816..bd3b667 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5420,6 +5420,7 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	if (object == dl_null) return dl_error_nullPointer;
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
 
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
@@ -5457,6 +5458,7 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	if (object == dl_null) return dl_error_nullPointer;
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
 
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
-- 
2.43.0


From 74d07499dd96b3b9a549dd9dbc74f6f1d901f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 78/82] fix: duckVM_pushVector fills the vector with nil and
 keeps it from being collected

---
 duckVM.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index bd3b667..5ac2f7b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6400,6 +6400,7 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 		duckVM_object_t vector;
 		dl_array_t array;
 		duckVM_object_t *nil_pointer = dl_null;
+		dl_error_t eError = dl_error_ok;
 		(void) dl_array_init(&array, duckVM->memoryAllocation, sizeof(duckVM_object_t *), dl_array_strategy_fit);
 		do {
 			DL_DOTIMES(k, length) {
@@ -6407,14 +6408,22 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 				if (e) break;
 			}
 			if (e) break;
-			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
-			if (e) break;
 			e = duckVM_object_makeVector(duckVM, &vector, array);
 			if (e) break;
+			/* The vector has to be visible to the garbage collector when nil is allocated. */
 			e = stack_push(duckVM, &vector);
 			if (e) break;
+			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+			if (e) {
+				(void) stack_pop(duckVM, dl_null);
+				break;
+			}
+			DL_DOTIMES(k, length) {
+				vector.value.vector.internal_vector->value.internal_vector.values[k] = nil_pointer;
+			}
 		} while (0);
-		e = dl_array_quit(&array);
+		eError = dl_array_quit(&array);
+		if (eError && !e) e = eError;
 		if (e) break;
 	} while (0);
 	return e;
-- 
2.43.0


From 35abdb99932f891d01aee76ffbba3a552e8c64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 79/82] fix: nothing of a composite made by
 duckVM_pushComposite is collected while it is made

---
 duckVM.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 5ac2f7b..45a9ee2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6237,12 +6237,18 @@ dl_error_t duckVM_pushComposite(duckVM_t *duckVM, dl_size_t type) {
 		duckVM_object_t object;
 		nil.type = duckVM_object_type_list;
 		nil.value.list = dl_null;
-		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
-		if (e) break;
-		e = duckVM_object_makeComposite(duckVM, &object, type, nil_pointer, nil_pointer);
+		e = duckVM_object_makeComposite(duckVM, &object, type, dl_null, dl_null);
 		if (e) break;
 		e = duckVM_object_push(duckVM, &object);
 		if (e) break;
+		/* The composite is now visible to the garbage collector. */
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
+		if (e) {
+			(void) stack_pop(duckVM, dl_null);
+			break;
+		}
+		object.value.composite->value.internalComposite.value = nil_pointer;
+		object.value.composite->value.internalComposite.function = nil_pointer;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From 09b36783de80d7ecf8114fbb0f38cef2919a3164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 80/82] fix: duckVM_pushElement refuses a negative index before
 it walks the list

---
 duckVM.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 45a9ee2..346b6fb 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6892,6 +6892,13 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
+			if (sequence_index < 0) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Negative index."));
+				if (eError) e = eError;
+				break;
+			}
 			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
 				if (element_pointer) {
@@ -6911,8 +6918,7 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 				}
 			}
 			if (e) break;
-			if ((sequence_index < 0)
-			    || (element_pointer == dl_null)
+			if ((element_pointer == dl_null)
 			    || (duckVM_object_type_cons != element_pointer->type)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
-- 
2.43.0


From a83331da9a7ea67e261ce2706d9956f6e7c94b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 81/82] fix: an expression that cannot be read frees the
 elements read before the error

---
 parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser.c b/parser.c
index cbeae06..3fd654a 100644
--- a/parser.c
+++ b/parser.c
@@ -350,6 +350,12 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		/* Nobody above looks at the elements that were read before the error. */
+		(void) duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		expression.compoundExpressions = dl_null;
+		expression.compoundExpressions_length = 0;
+	}
 	compoundExpression->type = duckLisp_ast_type_literalExpression;
 	compoundExpression->value.expression = expression;
 
@@ -464,6 +470,12 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		/* Nobody above looks at the elements that were read before the error. */
+		(void) duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		expression.compoundExpressions = dl_null;
+		expression.compoundExpressions_length = 0;
+	}
 	compoundExpression->type = duckLisp_ast_type_expression;
 	compoundExpression->value.expression = expression;
 
-- 
2.43.0


From b1980ee0f6a55a0d499aa4f987f8170bcca7fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 82/82] fix: the disassembler names the wide global
 instructions by their width

---
 assembler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index 0c2a682..bafc292 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2909,8 +2909,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushVaClosure16, DL_STR("variadic-closure.16 2 1 4 V2")},
 		{duckLisp_instruction_pushVaClosure32, DL_STR("variadic-closure.32 4 1 4 V2")},
 		{duckLisp_instruction_pushGlobal8, DL_STR("global.8 1")},
-		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
-		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
+		{duckLisp_instruction_pushGlobal16, DL_STR("global.16 2")},
+		{duckLisp_instruction_pushGlobal32, DL_STR("global.32 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
 		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 1 2")},
 		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 1 4")},
-- 
2.43.0

