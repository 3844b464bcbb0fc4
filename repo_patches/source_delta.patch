From f0c0dd67b212d98b1fb9d29b9adff03832757c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 01/68] Add guarded hooks for deterministic simulation
 (DUCKLISP_SIM, off by default)

---
 duckVM.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..df7adff 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -210,9 +210,26 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	return e;
 }
 
+#ifdef DUCKLISP_SIM
+/* Hooks for the deterministic simulator. They are defined by the simulator, never by duck-lisp. */
+/* Should the next allocation run the collector even though there are free objects? */
+extern dl_bool_t duckLispSim_forceCollection(duckVM_t *duckVM);
+/* The collector is about to look at (and after the end no longer looks at) freed objects. */
+extern void duckLispSim_collectionBegin(duckVM_t *duckVM);
+extern void duckLispSim_collectionEnd(duckVM_t *duckVM, dl_error_t result);
+/* An object was taken from the list of free objects. */
+extern void duckLispSim_objectAllocated(duckVM_t *duckVM, duckVM_object_t *object);
+/* Called before each instruction. A nonzero result stops the VM as if the instruction had failed. */
+extern dl_error_t duckLispSim_step(duckVM_t *duckVM);
+#endif /* DUCKLISP_SIM */
+
 static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
 
+#ifdef DUCKLISP_SIM
+	/**/ duckLispSim_collectionBegin(duckVM);
+#endif /* DUCKLISP_SIM */
+
 	/* Clear the in use flags. */
 	duckVM_gclist_t *gclistPointer = &duckVM->gclist;
 	duckVM_gclist_t gclistCopy = duckVM->gclist;
@@ -308,6 +325,9 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 	}
 
  cleanup:
+#ifdef DUCKLISP_SIM
+	/**/ duckLispSim_collectionEnd(duckVM, e);
+#endif /* DUCKLISP_SIM */
 	return e;
 }
 
@@ -317,6 +337,10 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 
 	duckVM_gclist_t *gclist = &duckVM->gclist;
 
+#ifdef DUCKLISP_SIM
+	if (duckLispSim_forceCollection(duckVM)) gclist->freeObjects_length = 0;
+#endif /* DUCKLISP_SIM */
+
 	// Try once
 	if (gclist->freeObjects_length == 0) {
 		// STOP THE WORLD
@@ -338,6 +362,9 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	}
 
 	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
+#ifdef DUCKLISP_SIM
+	/**/ duckLispSim_objectAllocated(duckVM, heapObject);
+#endif /* DUCKLISP_SIM */
 	*heapObject = objectIn;
 	if (objectIn.type == duckVM_object_type_upvalueArray) {
 		if (objectIn.value.upvalue_array.length > 0) {
@@ -4663,6 +4690,10 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
+#ifdef DUCKLISP_SIM
+		e = duckLispSim_step(duckVM);
+		if (e) break;
+#endif /* DUCKLISP_SIM */
 		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
 	duckVM->currentBytecode = dl_null;
-- 
2.43.0


From 5203cd35404869adce525dc82fa3fbfa07da7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 02/68] fix: keep track of the bytecode object that is
 executing

duckVM_executeInstruction switched to the bytecode of a called closure in a
local copy only, so closures created and calls made by a function of another
load were tied to (and kept alive) the wrong bytecode.
---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index df7adff..e938076 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -770,7 +770,7 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 
 
 int duckVM_executeInstruction(duckVM_t *duckVM,
-                              duckVM_object_t *bytecode,
+                              duckVM_object_t **bytecodePtr,
                               unsigned char **ipPtr,
                               duckVM_halt_mode_t *halt) {
 	dl_error_t e = dl_error_ok;
@@ -791,6 +791,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	duckVM_object_t cons1 = {0};
 	dl_bool_t bool1 = dl_false;
 	dl_bool_t parsedBytecode = dl_false;
+	duckVM_object_t *bytecode = *bytecodePtr;
 	unsigned char *ip = *ipPtr;
 	unsigned char opcode = *(ip++);
 	switch (opcode) {
@@ -4657,6 +4658,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		goto cleanup;
 	}
  cleanup:
+	*bytecodePtr = bytecode;
 	*ipPtr = ip;
 	return e;
 }
@@ -4687,14 +4689,15 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 		if (e) goto cleanup;
 	}
 	ip = &bytecodeObject->value.bytecode.bytecode[ipOffset];
-	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
 #ifdef DUCKLISP_SIM
 		e = duckLispSim_step(duckVM);
 		if (e) break;
 #endif /* DUCKLISP_SIM */
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		/* The bytecode that is currently executing is a GC root. */
+		duckVM->currentBytecode = bytecodeObject;
+		e = duckVM_executeInstruction(duckVM, &bytecodeObject, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
 	duckVM->currentBytecode = dl_null;
 
-- 
2.43.0


From 0257b907be79e669314f1dd0635e769a22fdcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 03/68] fix: keep heap invariants when the host calls a closure

duckVM_call pushed a frame whose bytecode object lived on the C stack, which
the garbage collector then treated as a heap object, and the nested execution
left the calling bytecode unrooted.
---
 duckVM.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e938076..1f79db5 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4672,6 +4672,8 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM_halt_mode_t halt = duckVM_halt_mode_run;
 	/* Why a reference to bytecode? So it can be switched out with other bytecodes by `duckVM_executeInstruction`. */
 	duckVM_object_t *bytecodeObject;
+	/* Callbacks can execute code. The bytecode that called them has to stay a GC root afterward. */
+	duckVM_object_t *previousBytecode = duckVM->currentBytecode;
 	dl_uint8_t *ip = dl_null;
 	if ((ipOffset < 0) || (bytecode_length <= (dl_size_t) ipOffset)) {
 		dl_error_t eError = dl_error_ok;
@@ -4699,7 +4701,7 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 		duckVM->currentBytecode = bytecodeObject;
 		e = duckVM_executeInstruction(duckVM, &bytecodeObject, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = previousBytecode;
 
  cleanup: return e;
 }
@@ -5620,8 +5622,6 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		{
 			/* Call bytecode. */
 			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
 			dl_uint8_t *shim_ip = shim_bytecode;
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
@@ -5629,7 +5629,8 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
 			e = call_stack_push(duckVM,
 			                    shim_ip,
-			                    shim_bytecode_object,
+			                    /* The shim isn't a heap object. The GC must not see it. */
+			                    duckVM->currentBytecode,
 			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
-- 
2.43.0


From 799eb6b41fb4e3945e25bbf611ba18856cc7d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 04/68] fix: variables captured by surviving closures survive a
 soft reset

After a runtime error, closures that had escaped still referred to stack slots
that duckVM_softReset discarded, and read or overwrote unrelated values later.
---
 duckVM.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 1f79db5..7eeeb5e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4769,8 +4769,26 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 	return duckVM_gclist_pushObject(duckVM, heapObjectOut, objectIn);
 }
 
+/* Move variables that closures still refer to off of the part of the stack that is about to be discarded. */
+static dl_error_t duckVM_releaseOpenUpvalues(duckVM_t *duckVM, dl_size_t stack_length) {
+	dl_error_t e = dl_error_ok;
+	for (dl_size_t i = stack_length; i < duckVM->upvalue_stack.elements_length; i++) {
+		duckVM_object_t *upvalue = DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i);
+		if (upvalue == dl_null) continue;
+		duckVM_object_t *heapObject = dl_null;
+		e = duckVM_gclist_pushObject(duckVM, &heapObject, DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i));
+		if (e) goto cleanup;
+		upvalue->value.upvalue.value.heap_object = heapObject;
+		upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
+		DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) = dl_null;
+	}
+ cleanup: return e;
+}
+
 dl_error_t duckVM_softReset(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
+	e = duckVM_releaseOpenUpvalues(duckVM, 0);
+	if (e) goto cleanup;
 	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
 	if (e) goto cleanup;
 	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
-- 
2.43.0


From 08b89b43abf0c2b113a561cd5c71472cfd4497a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 05/68] fix: report allocation failure while marking

A failed allocation during the mark phase was forgotten, and the objects that
were not reached were freed while still in use.
---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 7eeeb5e..766bbb7 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -107,6 +107,7 @@ static dl_error_t duckVM_gclist_quit(duckVM_gclist_t *gclist) {
 
 static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_object_t *object, dl_bool_t stack) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	/* Array of pointers that need to be traced. */
 	dl_array_t dispatchStack;
@@ -206,7 +207,8 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	}
 
  cleanup:
-	e = dl_array_quit(&dispatchStack);
+	eError = dl_array_quit(&dispatchStack);
+	if (!e) e = eError;
 	return e;
 }
 
-- 
2.43.0


From 660f86902c90ea67eb7d32a5c1c5f26487892b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 06/68] fix: give the heap object back when its contents can't
 be allocated

The half-made object kept the caller's pointer, which a later collection could
free.
---
 duckVM.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 766bbb7..655f43a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -338,6 +338,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	dl_error_t eError = dl_error_ok;
 
 	duckVM_gclist_t *gclist = &duckVM->gclist;
+	duckVM_object_t *heapObject = dl_null;
 
 #ifdef DUCKLISP_SIM
 	if (duckLispSim_forceCollection(duckVM)) gclist->freeObjects_length = 0;
@@ -363,7 +364,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		}
 	}
 
-	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
+	heapObject = gclist->freeObjects[--gclist->freeObjects_length];
 #ifdef DUCKLISP_SIM
 	/**/ duckLispSim_objectAllocated(duckVM, heapObject);
 #endif /* DUCKLISP_SIM */
@@ -457,6 +458,11 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	*objectOut = heapObject;
 
  cleanup:
+	if (e && heapObject) {
+		/* The object owns nothing. Don't let the GC free something that belongs to someone else. */
+		heapObject->type = duckVM_object_type_none;
+		gclist->freeObjects[gclist->freeObjects_length++] = heapObject;
+	}
 
 	return e;
 }
-- 
2.43.0


From 764dff403ea5212608b4aca1386a66e4ec315441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 07/68] fix: keep paired stacks the same length when a push
 fails

The object stack and the upvalue stack, the call stack and its upvalue arrays,
and the globals and their keys are pairs. When only the first of a pair could
grow, duckVM_softReset and later lookups failed.
---
 duckVM.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 655f43a..870ad08 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -529,6 +529,8 @@ static dl_error_t stack_push(duckVM_t *duckVM, duckVM_object_t *object) {
 	e = dl_array_pushElement(&duckVM->stack, object);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
+	/* Both stacks must always be the same length. */
+	if (e) (void) dl_array_popElement(&duckVM->stack, dl_null);
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("stack_push: Failed."));
@@ -593,7 +595,8 @@ static dl_error_t call_stack_push(duckVM_t *duckVM,
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
-	if (e) goto cleanup;
+	/* Both stacks must always grow together. */
+	if (e) (void) dl_array_popElement(&duckVM->call_stack, dl_null);
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("call_stack_push: Failed."));
@@ -644,7 +647,10 @@ dl_error_t duckVM_global_set(duckVM_t *duckVM, duckVM_object_t *value, dl_ptrdif
 	e = dl_array_pushElement(globals, &value);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(globals_map, &key);
-	if (e) goto cleanup;
+	if (e) {
+		(void) dl_array_popElement(globals, dl_null);
+		goto cleanup;
+	}
 
  cleanup:
 	return e;
-- 
2.43.0


From 008278cdeea55644e686d061b7628e7cfca00c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 08/68] fix: keep the elements of a vector alive while it is
 created

Elements of a vector under construction were not traced, so a collection
between two of them freed and reused the earlier ones. Also use stack_push, so
that a failure doesn't leave the upvalue stack shorter than the stack.
---
 duckVM.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 870ad08..70ac80e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3209,8 +3209,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
 		}
+		/* The GC has to trace the elements that already exist, so the vector has to be valid from the start. */
+		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
+			object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+		}
+		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
-		e = dl_array_pushElement(&duckVM->stack, &object1);
+		e = stack_push(duckVM, &object1);
 		if (e) break;
 		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
 			ptrdiff1 = *(ip++);
@@ -3244,13 +3249,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			                             object2);
 			if (e) break;
 		}
-		if (e) break;
-
-		/* Break push_scope abstraction. */
-		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
-		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
-		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
 	case duckLisp_instruction_makeVector32:
@@ -3317,8 +3315,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
 		}
+		/* The GC has to trace the elements that already exist, so the vector has to be valid from the start. */
+		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
+			object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+		}
+		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
-		e = dl_array_pushElement(&duckVM->stack, &object1);
+		e = stack_push(duckVM, &object1);
 		if (e) break;
 		e = duckVM_gclist_pushObject(duckVM,
 		                             &objectPtr1,
@@ -3327,14 +3330,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		DL_DOTIMES(k, object1.value.vector.internal_vector->value.internal_vector.length) {
 			object1.value.vector.internal_vector->value.internal_vector.values[k] = objectPtr1;
 		}
-
-		if (e) break;
-
-		/* Break push_scope abstraction. */
-		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
-		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
-		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
 	case duckLisp_instruction_getVecElt32:
-- 
2.43.0


From 056d75e1c3ecf72e876746a429b3cdb64320d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 09/68] fix: a closure that can't be created leaves the stacks
 paired

---
 duckVM.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 70ac80e..2fee388 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1224,17 +1224,22 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 			upvalueArray.upvalues[k] = upvalue_pointer;
 		}
-		if (e) break;
-		if (!recursive) {
+		if (!e && !recursive) {
 			/* Break push_scope abstraction. */
 			e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->push-closure: dl_array_pushElement failed."));
 				if (!e) e = eError;
-				break;
 			}
 		}
+		if (e) {
+			/* Both stacks must always be the same length. */
+			if (duckVM->stack.elements_length > duckVM->upvalue_stack.elements_length) {
+				(void) dl_array_popElement(&duckVM->stack, dl_null);
+			}
+			break;
+		}
 		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 
 		break;
-- 
2.43.0


From d4031861a1eb5b3544f9dca771fbd77c03223c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 10/68] fix: free the scopes that remain after a compile

---
 duckLisp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/duckLisp.c b/duckLisp.c
index b4e164e..7ead24c 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2108,7 +2108,13 @@ void duckLisp_subCompileState_init(dl_memoryAllocation_t *memoryAllocation,
 dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompileState_t *subCompileState) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
-	e = dl_array_quit(&subCompileState->scope_stack);
+	/* Failed compiles and scripts that aren't compound expressions leave scopes behind. */
+	DL_DOTIMES(i, subCompileState->scope_stack.elements_length) {
+		eError = scope_quit(duckLisp, &DL_ARRAY_GETADDRESS(subCompileState->scope_stack, duckLisp_scope_t, i));
+		if (eError) e = eError;
+	}
+	eError = dl_array_quit(&subCompileState->scope_stack);
+	if (eError) e = eError;
 	eError = duckLisp_assembly_quit(duckLisp, &subCompileState->assembly);
 	if (eError) e = eError;
 	return e;
-- 
2.43.0


From d5de66b3382f1564247aaad6ff263cbca575b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 11/68] fix: never read past the end of the source

The end was not checked in several places of the parser, and leading whitespace
was skipped without shortening the source. Sources need not be terminated, and
"read" passes strings that aren't. A float like "1." at the end of the source
was accepted without a value.
---
 duckLisp.c |  6 ------
 parser.c   | 18 ++++++------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 7ead24c..8b50925 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2156,15 +2156,9 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
-	dl_bool_t result = dl_false;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
-	// Trim whitespace from the beginning of the file.
-	do {
-		if (dl_string_isSpace(*source)) source++;
-	} while (result);
-
 	index = 0;
 
 	/* Parse. */
diff --git a/parser.c b/parser.c
index 594c512..904fbdf 100644
--- a/parser.c
+++ b/parser.c
@@ -155,7 +155,7 @@ static dl_error_t parse_comment(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t stop_index = start_index;
 
-	if (source[stop_index] != ';') {
+	if ((stop_index >= (dl_ptrdiff_t) source_length) || (source[stop_index] != ';')) {
 		return dl_error_invalidValue;
 	}
 
@@ -182,7 +182,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
 			return dl_error_invalidValue;
 		}
-		while (dl_string_isSpace(source[indexCopy])) indexCopy++;
+		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
 		dl_error_t e = parse_comment(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 		if (e) break;
 	}
@@ -850,7 +850,7 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 			indexCopy++;
 			hexadecimal = dl_true;
 
-			if (!dl_string_isHexadecimalDigit(source[indexCopy])) {
+			if ((indexCopy >= (dl_ptrdiff_t) source_length) || !dl_string_isHexadecimalDigit(source[indexCopy])) {
 				eError = duckLisp_error_pushSyntax(duckLisp,
 				                                   DL_STR("Expected a digit in integer."),
 				                                   fileName,
@@ -1043,16 +1043,10 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (source[indexCopy] == '.') {
+		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
+			/* The end of the file is allowed here. 1. 234.e61 435. for example. */
 			indexCopy++;
-
-			if (indexCopy >= (dl_ptrdiff_t) source_length) {
-				// eError = duckLisp_error_pushSyntax(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				/* This is expected. 1. 234.e61 435. for example. */
-				goto cleanup;
-			}
 		}
 
 		while ((indexCopy < (dl_ptrdiff_t) source_length)
@@ -1064,7 +1058,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 	}
 
 	/* …e3 */
-	if (dl_string_toLower(source[indexCopy]) == 'e') {
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (dl_string_toLower(source[indexCopy]) == 'e')) {
 		hasDecimalPointOrExponent = dl_true;
 		indexCopy++;
 
-- 
2.43.0


From 7373b08a787237fc9c899c06da9ac883f41e4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 12/68] fix: free what was parsed of an expression that turns
 out to be malformed

---
 parser.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 904fbdf..6449f3b 100644
--- a/parser.c
+++ b/parser.c
@@ -334,7 +334,10 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		               &expression.compoundExpressions,
 		               expressionMemorySize,
 		               duckLisp_ast_compoundExpression_t);
-		if (e) goto cleanup;
+		if (e) {
+			(void) duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &subCompoundExpression);
+			goto cleanup;
+		}
 
 		expression.compoundExpressions[expression.compoundExpressions_length] = subCompoundExpression;
 		expression.compoundExpressions_length++;
@@ -347,6 +350,12 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		/* The caller can't tell how much was parsed. */
+		eError = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		if (eError) e = eError;
+		/**/ ast_expression_init(&expression);
+	}
 	compoundExpression->type = duckLisp_ast_type_literalExpression;
 	compoundExpression->value.expression = expression;
 
@@ -459,7 +468,10 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		               &expression.compoundExpressions,
 		               expressionMemorySize,
 		               duckLisp_ast_compoundExpression_t);
-		if (e) goto cleanup;
+		if (e) {
+			(void) duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &subCompoundExpression);
+			goto cleanup;
+		}
 
 		expression.compoundExpressions[expression.compoundExpressions_length] = subCompoundExpression;
 		expression.compoundExpressions_length++;
@@ -472,6 +484,12 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		/* The caller can't tell how much was parsed. */
+		eError = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		if (eError) e = eError;
+		/**/ ast_expression_init(&expression);
+	}
 	compoundExpression->type = duckLisp_ast_type_expression;
 	compoundExpression->value.expression = expression;
 
-- 
2.43.0


From 7c68db507dc7f49c29b836b7300bc266fa976427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 13/68] fix: reporting an unmatched parenthesis read past the
 source

---
 parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 6449f3b..7336ed8 100644
--- a/parser.c
+++ b/parser.c
@@ -54,7 +54,8 @@ static dl_error_t duckLisp_error_pushSyntax(duckLisp_t *duckLisp,
 	}
 
 	/* This is inefficient. That should be OK as this is only run a few times max per compile. */
-	DL_DOTIMES(i, start_index) {
+	/* `start_index` is -1 if the location isn't known. */
+	for (dl_ptrdiff_t i = 0; (i < start_index) && (i < (dl_ptrdiff_t) source_length); i++) {
 		if (source[i] == '\n') {
 			line++;
 			start_column = 0;
-- 
2.43.0


From 001b7fec1af2dd9827a1ec626268946ffbedfe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 14/68] fix: macros of a load are independent of the macros and
 failures of earlier loads

---
 duckLisp.c |  7 +++++++
 duckVM.c   | 30 ++++++++++++++++++++----------
 duckVM.h   |  3 +++
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 8b50925..fcd2cf4 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2156,6 +2156,9 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
+	/* Macros and compile-time variables live on the stack of the compile-time VM until the end of the load. */
+	const dl_size_t comptimeStack_length = duckLisp->vm.stack.elements_length;
+	const dl_size_t comptimeCallStack_length = duckLisp->vm.call_stack.elements_length;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
@@ -2182,6 +2185,7 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 
 	duckLisp_compileState_t compileState;
 	duckLisp_compileState_init(duckLisp, &compileState);
+	compileState.comptimeCompileState.locals_length = comptimeStack_length;
 	e = duckLisp_compileAST(duckLisp, &compileState, &bytecodeArray, ast, duckLisp->stripSymbolNames);
 	if (e) goto cleanup;
 	e = duckLisp_compileState_quit(duckLisp, &compileState);
@@ -2208,6 +2212,9 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 		*bytecode_length = 0;
 	}
 
+	eError = duckVM_unwind(&duckLisp->vm, comptimeStack_length, comptimeCallStack_length);
+	if (eError) e = eError;
+
 	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
 	if (eError) e = eError;
 
diff --git a/duckVM.c b/duckVM.c
index 2fee388..b40a02a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4799,17 +4799,27 @@ static dl_error_t duckVM_releaseOpenUpvalues(duckVM_t *duckVM, dl_size_t stack_l
  cleanup: return e;
 }
 
-dl_error_t duckVM_softReset(duckVM_t *duckVM) {
+/* Discard everything that was pushed since the stacks had the given lengths. */
+dl_error_t duckVM_unwind(duckVM_t *duckVM, dl_size_t stack_length, dl_size_t callStack_length) {
 	dl_error_t e = dl_error_ok;
-	e = duckVM_releaseOpenUpvalues(duckVM, 0);
-	if (e) goto cleanup;
-	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (e) goto cleanup;
- cleanup:
+	if (duckVM->stack.elements_length > stack_length) {
+		e = duckVM_releaseOpenUpvalues(duckVM, stack_length);
+		if (e) goto cleanup;
+		e = stack_pop_multiple(duckVM, duckVM->stack.elements_length - stack_length);
+		if (e) goto cleanup;
+	}
+	if (duckVM->call_stack.elements_length > callStack_length) {
+		dl_size_t pops = duckVM->call_stack.elements_length - callStack_length;
+		e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, pops);
+		if (e) goto cleanup;
+		e = dl_array_popElements(&duckVM->call_stack, dl_null, pops);
+		if (e) goto cleanup;
+	}
+ cleanup: return e;
+}
+
+dl_error_t duckVM_softReset(duckVM_t *duckVM) {
+	dl_error_t e = duckVM_unwind(duckVM, 0, 0);
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
 		if (!e) e = eError;
diff --git a/duckVM.h b/duckVM.h
index d2153ce..9a820c6 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -246,6 +246,9 @@ dl_error_t duckVM_popAll(duckVM_t *duckVM);
 dl_error_t duckVM_garbageCollect(duckVM_t *duckVM);
 /* Reset the VM, but retain global variables and the contents of the heap. */
 dl_error_t duckVM_softReset(duckVM_t *duckVM);
+/* Pop objects and call frames until the stacks have the specified lengths. Variables that are captured by closures live
+   on. */
+dl_error_t duckVM_unwind(duckVM_t *duckVM, dl_size_t stack_length, dl_size_t callStack_length);
 
 
 /* Functions intended for C callbacks */
-- 
2.43.0


From 3f1006385b15c482a266db7f336182e7f9529532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 15/68] fix: failing macros and compile-time expressions clean
 up after themselves

---
 duckLisp.c   |  1 +
 generators.c | 48 +++++++++++++++++++++++++++++++-----------------
 parser.c     |  2 ++
 3 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index fcd2cf4..a8670e8 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -750,6 +750,7 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+	/**/ duckLisp_ast_compoundExpression_init(ast);
 	switch (object->type) {
 	case duckVM_object_type_bool:
 		ast->value.boolean.value = object->value.boolean;
diff --git a/generators.c b/generators.c
index 58a4722..9a23597 100644
--- a/generators.c
+++ b/generators.c
@@ -1021,14 +1021,13 @@ dl_error_t duckLisp_generator_noscope2(duckLisp_t *duckLisp,
 	subExpression.compoundExpressions_length = expression->compoundExpressions_length - 1;
 
 	e = duckLisp_generator_noscope(duckLisp, compileState, assembly, &subExpression);
-	if (e) goto cleanup;
 
+	/* Macro expansion may have replaced some of the forms, even if there was an error afterward. */
 	(void) dl_memcopy_noOverlap(&expression->compoundExpressions[1],
 	                            subExpression.compoundExpressions,
 	                            ((expression->compoundExpressions_length - 1)
 	                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
- cleanup:
 	eError = DL_FREE(duckLisp->memoryAllocation, &subExpression.compoundExpressions);
 	if (eError) e = eError;
 
@@ -1064,6 +1063,7 @@ dl_size_t duckLisp_consList_length(duckVM_object_t *cons) {
 		}
 		else {
 			cons = dl_null;
+			length++;
 		}
 	}
 	return length;
@@ -1077,6 +1077,7 @@ dl_error_t duckLisp_consToExprAST(duckLisp_t *duckLisp,
 
 	/* (cons a b) */
 
+	/**/ duckLisp_ast_compoundExpression_init(ast);
 	if (cons != dl_null) {
 		const dl_size_t length = duckLisp_consList_length(cons);
 		e = DL_MALLOC(duckLisp->memoryAllocation,
@@ -1084,6 +1085,9 @@ dl_error_t duckLisp_consToExprAST(duckLisp_t *duckLisp,
 		              length,
 		              duckLisp_ast_compoundExpression_t);
 		if (e) goto cleanup;
+		DL_DOTIMES(k, length) {
+			/**/ duckLisp_ast_compoundExpression_init(&ast->value.expression.compoundExpressions[k]);
+		}
 		ast->value.expression.compoundExpressions_length = length;
 		ast->type = duckLisp_ast_type_expression;
 		dl_ptrdiff_t j = 0;
@@ -1134,6 +1138,10 @@ dl_error_t duckLisp_consToExprAST(duckLisp_t *duckLisp,
 	}
 
  cleanup:
+	if (e) {
+		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, ast);
+		if (eError) e = eError;
+	}
 	return e;
 }
 
@@ -1141,9 +1149,11 @@ dl_error_t duckLisp_consToConsAST(duckLisp_t *duckLisp,
                                   duckLisp_ast_compoundExpression_t *ast,
                                   duckVM_object_t *cons) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	/* (cons a b) */
 
+	/**/ duckLisp_ast_compoundExpression_init(ast);
 	if (cons != dl_null) {
 		const dl_uint8_t op = 0;
 		const dl_uint8_t car = 1;
@@ -1153,6 +1163,9 @@ dl_error_t duckLisp_consToConsAST(duckLisp_t *duckLisp,
 		              (void **) &ast->value.expression.compoundExpressions,
 		              3 * sizeof(duckLisp_ast_compoundExpression_t));
 		if (e) goto cleanup;
+		DL_DOTIMES(k, 3) {
+			/**/ duckLisp_ast_compoundExpression_init(&ast->value.expression.compoundExpressions[k]);
+		}
 		ast->value.expression.compoundExpressions_length = 3;
 		ast->type = duckLisp_ast_type_expression;
 
@@ -1195,6 +1208,10 @@ dl_error_t duckLisp_consToConsAST(duckLisp_t *duckLisp,
 	}
 
  cleanup:
+	if (e) {
+		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, ast);
+		if (eError) e = eError;
+	}
 	return e;
 }
 
@@ -1219,6 +1236,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 	                   dl_array_strategy_double);
 	duckVM_object_t returnValue;
 	duckLisp_ast_compoundExpression_t returnCompoundExpression;
+	/**/ duckLisp_ast_compoundExpression_init(&returnCompoundExpression);
 	dl_uint8_t haltInstruction = duckLisp_instruction_halt;
 
 	duckLisp_subCompileState_t *lastSubCompileState = compileState->currentCompileState;
@@ -1262,7 +1280,6 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		eError = dl_array_pushElements(&duckLisp->errors,
 		                               duckLisp->vm.errors.elements,
 		                               duckLisp->vm.errors.elements_length);
@@ -1270,6 +1287,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 		if (eError) e = eError;
 		if (e) goto cleanup;
+		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
@@ -1291,14 +1309,14 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		                                        dl_null,
 		                                        dl_true);
 		if (e) goto cleanup;
-
-		e = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &returnCompoundExpression);
-		if (e) goto cleanup;
 	}
 
  cleanup:
 	compileState->currentCompileState = lastSubCompileState;
 
+	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &returnCompoundExpression);
+	if (eError) e = eError;
+
 	eError = dl_array_quit(&compAssembly);
 	if (eError) e = eError;
 
@@ -3646,12 +3664,9 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 		compileState->currentCompileState->locals_length = outerStartStack_length + 1;
 
 	cleanupArguments:
+		eError = DL_FREE(duckLisp->memoryAllocation, &quote.value.expression.compoundExpressions);
+		if (eError) e = eError;
 		if (e) goto cleanupArrays;
-
-		if (quote.value.expression.compoundExpressions) {
-			e = DL_FREE(duckLisp->memoryAllocation, &quote.value.expression.compoundExpressions);
-			if (e) goto cleanupArrays;
-		}
 	}
 
 	/* Assemble. */
@@ -3687,10 +3702,10 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	/* Compile macro expansion. */
 
 	e = duckLisp_objectToAST(duckLisp, &ast, &return_value, dl_true);
-	if (e) goto cleanupArrays;
+	if (e) goto cleanupAST;
 	/* Pop return value. */
 	e = duckVM_pop(&duckLisp->vm);
-	if (e) goto cleanupArrays;
+	if (e) goto cleanupAST;
 
 	/* duckLisp_ast_print(duckLisp, ast); */
 
@@ -3716,14 +3731,13 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 		e = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, expression);
 		if (e) goto cleanupAST;
 		*expression = ast.value.expression;
+		/**/ duckLisp_ast_compoundExpression_init(&ast);
 	}
 
  cleanupAST:
 
-	if (ast.type != duckLisp_ast_type_expression) {
-		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
-		if (eError) e = eError;
-	}
+	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
+	if (eError) e = eError;
 
  cleanupArrays:
 
diff --git a/parser.c b/parser.c
index 7336ed8..ac36443 100644
--- a/parser.c
+++ b/parser.c
@@ -1333,6 +1333,8 @@ dl_error_t duckLisp_ast_compoundExpression_quit(dl_memoryAllocation_t *memoryAll
 	dl_error_t e = dl_error_ok;
 
 	switch (compoundExpression->type) {
+	case duckLisp_ast_type_none:
+		break;
 	case duckLisp_ast_type_string:
 		(void) ast_string_quit(memoryAllocation, &compoundExpression->value.string);
 		break;
-- 
2.43.0


From 8bf334aac8185fa574e68d4870a619777fe89583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 16/68] fix: free the instructions and forms of a compile that
 fails

---
 emitters.c   | 33 ++++++++++++++++++++++++----
 generators.c | 62 +++++++++++++++++++---------------------------------
 2 files changed, 51 insertions(+), 44 deletions(-)

diff --git a/emitters.c b/emitters.c
index 5e48a69..80b7f90 100644
--- a/emitters.c
+++ b/emitters.c
@@ -45,6 +45,7 @@ dl_error_t duckLisp_emit_nullaryOperator(duckLisp_t *duckLisp,
 	/**/ duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 	return e;
 }
 
@@ -75,6 +76,7 @@ dl_error_t duckLisp_emit_unaryOperator(duckLisp_t *duckLisp,
 	/**/ duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 	return e;
 }
 
@@ -109,6 +111,7 @@ dl_error_t duckLisp_emit_binaryOperator(duckLisp_t *duckLisp,
 	/**/ duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 	return e;
 }
 
@@ -147,6 +150,7 @@ dl_error_t duckLisp_emit_ternaryOperator(duckLisp_t *duckLisp,
 	/**/ duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 	return e;
 }
 
@@ -497,6 +501,7 @@ dl_error_t duckLisp_emit_vector(duckLisp_t *duckLisp,
 	/**/ duckLisp_localsLength_increment(compileState);
 
  l_cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	return e;
 }
@@ -590,7 +595,9 @@ dl_error_t duckLisp_emit_return(duckLisp_t *duckLisp,
 
 	compileState->currentCompileState->locals_length -= count;
 
- cleanup: return e;
+ cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
+	return e;
 }
 
 dl_error_t duckLisp_emit_exit(duckLisp_t *duckLisp,
@@ -613,7 +620,9 @@ dl_error_t duckLisp_emit_exit(duckLisp_t *duckLisp,
 
 	compileState->currentCompileState->locals_length -= 1;
 
- cleanup: return e;
+ cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
+	return e;
 }
 
 dl_error_t duckLisp_emit_pop(duckLisp_t *duckLisp,
@@ -651,6 +660,7 @@ dl_error_t duckLisp_emit_pop(duckLisp_t *duckLisp,
 	compileState->currentCompileState->locals_length -= count;
 
  l_cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	return e;
 }
@@ -935,7 +945,10 @@ dl_error_t duckLisp_emit_pushString(duckLisp_t *duckLisp,
 	argument.type = duckLisp_instructionArgClass_type_string;
 	argument.value.string.value_length = string_length;
 	e = dl_array_pushElement(&instruction.args, &argument);
-	if (e) goto cleanup;
+	if (e) {
+		if (argument.value.string.value) (void) DL_FREE(duckLisp->memoryAllocation, &argument.value.string.value);
+		goto cleanup;
+	}
 
 	// Push instruction into list.
 	e = dl_array_pushElement(assembly, &instruction);
@@ -945,6 +958,7 @@ dl_error_t duckLisp_emit_pushString(duckLisp_t *duckLisp,
 	duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 	return e;
 }
 
@@ -998,7 +1012,10 @@ dl_error_t duckLisp_emit_pushSymbol(duckLisp_t *duckLisp,
 	argument.type = duckLisp_instructionArgClass_type_string;
 	argument.value.string.value_length = string_length;
 	e = dl_array_pushElement(&instruction.args, &argument);
-	if (e) goto cleanup;
+	if (e) {
+		if (argument.value.string.value) (void) DL_FREE(duckLisp->memoryAllocation, &argument.value.string.value);
+		goto cleanup;
+	}
 
 	// Push instruction into list.
 	e = dl_array_pushElement(assembly, &instruction);
@@ -1010,6 +1027,7 @@ dl_error_t duckLisp_emit_pushSymbol(duckLisp_t *duckLisp,
 	duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 	return e;
 }
 
@@ -1073,6 +1091,7 @@ dl_error_t duckLisp_emit_pushClosure(duckLisp_t *duckLisp,
 	duckLisp_localsLength_increment(compileState);
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
@@ -1123,6 +1142,7 @@ dl_error_t duckLisp_emit_releaseUpvalues(duckLisp_t *duckLisp,
 	}
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
@@ -1319,6 +1339,7 @@ dl_error_t duckLisp_emit_call(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
@@ -1399,6 +1420,7 @@ dl_error_t duckLisp_emit_brz(duckLisp_t *duckLisp,
 	compileState->currentCompileState->locals_length -= pops;
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
@@ -1479,6 +1501,7 @@ dl_error_t duckLisp_emit_brnz(duckLisp_t *duckLisp,
 	compileState->currentCompileState->locals_length -= pops;
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
@@ -1544,6 +1567,7 @@ dl_error_t duckLisp_emit_jump(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
@@ -1613,6 +1637,7 @@ dl_error_t duckLisp_emit_label(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
  cleanup:
+	if (e) (void) duckLisp_instructionObject_quit(duckLisp, &instruction);
 
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
diff --git a/generators.c b/generators.c
index 9a23597..59870c6 100644
--- a/generators.c
+++ b/generators.c
@@ -1254,6 +1254,9 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		                          compAssembly.elements,
 		                          compAssembly.elements_length);
 		if (e) goto cleanup;
+		/* The instructions have a new owner. */
+		e = dl_array_popElements(&compAssembly, dl_null, compAssembly.elements_length);
+		if (e) goto cleanup;
 
 		e = duckLisp_assemble(duckLisp,
 		                      compileState,
@@ -1317,7 +1320,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &returnCompoundExpression);
 	if (eError) e = eError;
 
-	eError = dl_array_quit(&compAssembly);
+	eError = duckLisp_assembly_quit(duckLisp, &compAssembly);
 	if (eError) e = eError;
 
 	eError = dl_array_quit(&bytecode);
@@ -1562,9 +1565,7 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 						e = duckLisp_error_pushRuntime(duckLisp,
 						                               DL_STR("lambda: "
 						                                      "\"&rest\" must be the second to last parameter."));
-						if (e) goto cleanup;
-						e = dl_error_invalidValue;
-						goto cleanup;
+						if (e) goto cleanup_gensym;
 						e = dl_error_invalidValue;
 						goto cleanup_gensym;
 					}
@@ -1597,14 +1598,10 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, &bodyAssembly, &progn);
-			if (e) goto cleanupProgn;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup_gensym;
@@ -1647,6 +1644,9 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 		                          bodyAssembly.elements,
 		                          bodyAssembly.elements_length);
 		if (e) goto cleanup_gensym;
+		/* The instructions have a new owner. */
+		e = dl_array_popElements(&bodyAssembly, dl_null, bodyAssembly.elements_length);
+		if (e) goto cleanup_gensym;
 
 		{
 			/* This needs to be in the same scope or outer than the function arguments so that they don't get
@@ -1718,7 +1718,7 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 		if (eError) e = eError;
 	}
 
-	eError = dl_array_quit(&bodyAssembly);
+	eError = duckLisp_assembly_quit(duckLisp, &bodyAssembly);
 	if (eError) e = eError;
 
 	eError = dl_array_quit(&eString);
@@ -1892,6 +1892,9 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	dl_array_t eString;
 	/**/ dl_array_init(&eString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
 
+	duckLisp_ast_expression_t lambda = {0};
+	duckLisp_ast_expression_t var = {0};
+
 	e = duckLisp_checkArgsAndReportError(duckLisp, *expression, 4, dl_true);
 	if (e) goto cleanup;
 
@@ -1913,7 +1916,6 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
-	duckLisp_ast_expression_t lambda;
 	e = DL_MALLOC(duckLisp->memoryAllocation,
 	              (void **) &lambda.compoundExpressions,
 	              expression->compoundExpressions_length - 1,
@@ -1926,7 +1928,6 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	for (dl_ptrdiff_t i = 2; (dl_size_t) i < expression->compoundExpressions_length; i++) {
 		lambda.compoundExpressions[i - 1] = expression->compoundExpressions[i];
 	}
-	duckLisp_ast_expression_t var;
 	e = DL_MALLOC(duckLisp->memoryAllocation, (void **) &var.compoundExpressions, 3, duckLisp_ast_compoundExpression_t);
 	if (e) goto cleanup;
 	var.compoundExpressions_length = 3;
@@ -1938,16 +1939,12 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	var.compoundExpressions[2].value.expression = lambda;
 	{
 		e = duckLisp_generator_createVar_raw(duckLisp, compileState, assembly, &var);
-		if (e) goto cleanup;
 
+		/* Macro expansion may have replaced some of the forms, even if there was an error afterward. */
 		for (dl_ptrdiff_t i = 2; (dl_size_t) i < expression->compoundExpressions_length; i++) {
 			expression->compoundExpressions[i] = lambda.compoundExpressions[i - 1];
 		}
 		expression->compoundExpressions[1] = var.compoundExpressions[1];
-
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
-		if (e) goto cleanup;
-		e = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
 		if (e) goto cleanup;
 
 		/* HACK */
@@ -1964,6 +1961,15 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 
  cleanup:
 
+	if (var.compoundExpressions != dl_null) {
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &var.compoundExpressions);
+		if (eError) e = eError;
+	}
+	if (lambda.compoundExpressions != dl_null) {
+		eError = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
+		if (eError) e = eError;
+	}
+
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
 
@@ -2204,14 +2210,10 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn1;
-
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-			cleanupProgn1:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_start;
@@ -2282,14 +2284,10 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn2;
-
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-			cleanupProgn2:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_end;
@@ -2454,14 +2452,10 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2502,14 +2496,10 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
@@ -2636,14 +2626,10 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2694,14 +2680,10 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
-
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
-
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
-- 
2.43.0


From 5daf9b15be4767cd27ebb7075480909105a69cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 17/68] fix: a failed reallocation doesn't lose the block

---
 DuckLib/memory.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..61a2f60 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -944,10 +944,12 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	(void) memoryAllocation;
-	*(dl_uint8_t **) memory = realloc(*(dl_uint8_t **) memory, size);
-	if (*(dl_uint8_t **) memory == NULL) {
+	/* The original block is still valid if this fails. */
+	dl_uint8_t *new_memory = realloc(*(dl_uint8_t **) memory, size);
+	if (new_memory == NULL) {
 		return dl_error_outOfMemory;
 	}
+	*(dl_uint8_t **) memory = new_memory;
 	return dl_error_ok;
 }
 
-- 
2.43.0


From 1f64c7063b71f52a7d61f58d26a65c30772f9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 18/68] fix: a failed trie insertion leaves the mapping as it
 was

---
 DuckLib/trie.c | 127 ++++++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 69 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 9ca3f95..ba8f020 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -43,19 +43,25 @@ static dl_error_t dl_trie_quit_node(dl_trie_t *trie, dl_trie_node_t *trieNode) {
 		}
 	} // Fall through.
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes_name_lengths != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name_lengths);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes_name != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes_name);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
-	e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
-	if (e) {
-		goto l_cleanup;
+	if (trieNode->value.nodes != dl_null) {
+		e = dl_free(trie->memoryAllocation, (void **) &trieNode->value.nodes);
+		if (e) {
+			goto l_cleanup;
+		}
 	}
 
 	trieNode->index = -1;
@@ -95,13 +101,6 @@ static dl_error_t dl_trie_pushNode(dl_trie_t *trie,
 		goto l_cleanup;
 	}
 
-	/**/ dl_trie_init_node(&trieNode->value.nodes[trieNode->value.nodes_length],
-	                       index,
-	                       dl_null,
-	                       0,
-	                       dl_null,
-	                       dl_null);
-
 	// Assume that nothing has been allocated for the key either.
 
 	// Key lengths.
@@ -112,9 +111,6 @@ static dl_error_t dl_trie_pushNode(dl_trie_t *trie,
 		goto l_cleanup;
 	}
 
-	// This key length.
-	trieNode->value.nodes_name_lengths[trieNode->value.nodes_length] = key_length;
-
 	// Keys array.
 	e = dl_realloc(trie->memoryAllocation,
 	               (void **) &trieNode->value.nodes_name,
@@ -131,13 +127,50 @@ static dl_error_t dl_trie_pushNode(dl_trie_t *trie,
 		goto l_cleanup;
 	}
 
+	/* Nothing below can fail, so the new node is either complete or doesn't exist. */
 	/**/ dl_memcopy_noOverlap(trieNode->value.nodes_name[trieNode->value.nodes_length], key, key_length);
+	trieNode->value.nodes_name_lengths[trieNode->value.nodes_length] = key_length;
+	/**/ dl_trie_init_node(&trieNode->value.nodes[trieNode->value.nodes_length],
+	                       index,
+	                       dl_null,
+	                       0,
+	                       dl_null,
+	                       dl_null);
 	trieNode->value.nodes_length++;
 
 	l_cleanup:
 
 	return e;
-        }
+}
+
+/* Cut the node's name at `name_index` and move everything below the cut into a child. The mapping isn't altered. */
+static dl_error_t dl_trie_splitNode(dl_trie_t *trie,
+                                    dl_trie_node_t *node,
+                                    dl_uint8_t **node_name,
+                                    dl_size_t *node_name_length,
+                                    const dl_ptrdiff_t name_index) {
+	dl_error_t e = dl_error_ok;
+
+	dl_trie_node_t newNode;
+	/**/ dl_trie_init_node(&newNode, -1, dl_null, 0, dl_null, dl_null);
+	e = dl_trie_pushNode(trie,
+	                     &newNode,
+	                     &(*node_name)[name_index],
+	                     *node_name_length - name_index,
+	                     -1);
+	if (e) {
+		(void) dl_trie_quit_node(trie, &newNode);
+		return e;
+	}
+	newNode.value.nodes[0] = *node;
+	*node = newNode;
+
+	/* Trim current node's name. The name is merely larger than it needs to be if this fails. */
+	*node_name_length = name_index;
+	(void) dl_realloc(trie->memoryAllocation, (void **) node_name, name_index * sizeof(dl_uint8_t));
+
+	return e;
+}
 
 static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
                                         dl_bool_t *success,
@@ -171,8 +204,9 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                          &key[name_index],
 				                          key_length - name_index,
 				                          index);
-				if (*success) break;
+				if (e || *success) break;
 			}
+			if (e) break;
 			if (!*success) {
 				/* No child nodes match at all, so create a new one. */
 				e = dl_trie_pushNode(trie, node, &key[name_index], key_length - name_index, index);
@@ -183,31 +217,9 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		}
 		/* Correct, but key is too short for this node. */
 		else if ((dl_size_t) name_index == key_length) {
-			/* Split. */
-			/* Save current node. (Save the children!) */
-			dl_trie_node_t tempNode = *node;
-			/* Reinitialize the node. Put the index here. */
-			/**/ dl_trie_init_node(node,
-			                       index,
-			                       dl_null,
-			                       0,
-			                       dl_null,
-			                       dl_null);
-			/* Push the saved node into the newly initialized node. */
-			e = dl_trie_pushNode(trie,
-			                     node,
-			                     &(*node_name)[name_index],
-			                     *node_name_length - name_index,
-			                     tempNode.index);
+			e = dl_trie_splitNode(trie, node, node_name, node_name_length, name_index);
 			if (e) break;
-			node->value.nodes[0] = tempNode;
-
-			e = dl_realloc(trie->memoryAllocation,
-			               (void **) node_name,
-			               name_index * sizeof(dl_uint8_t));
-			if (e) break;
-			/* Trim current node's name to match key. */
-			*node_name_length = name_index;
+			node->index = index;
 
 			*success = dl_true;
 			break;
@@ -215,19 +227,7 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		/* Key mismatch */
 		else if (key[name_index] != (*node_name)[name_index]) {  /* Exit point */
 			if (name_index != 0) {
-				/* Split. */
-				dl_trie_node_t tempNode = *node;
-				dl_trie_init_node(node,
-				                  -1,
-				                  dl_null,
-				                  0,
-				                  dl_null,
-				                  dl_null);
-				e = dl_trie_pushNode(trie,
-				                     node,
-				                     &(*node_name)[name_index],
-				                     *node_name_length - name_index,
-				                     100);  /* Index doesn't seem to matter here. */
+				e = dl_trie_splitNode(trie, node, node_name, node_name_length, name_index);
 				if (e) break;
 
 				/* Add node. */
@@ -237,17 +237,6 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                     key_length - name_index,
 				                     index);
 				if (e) break;
-				/* Next node. */
-				// node = &node->value.nodes[0];
-				/* Splice to finish split. */
-				node->value.nodes[0] = tempNode;
-
-				/* Delete the redundant end of the original node's key. */
-				e = dl_realloc(trie->memoryAllocation,
-				               (void **) node_name,
-				               name_index * sizeof(dl_uint8_t));
-				if (e) break;
-				*node_name_length = name_index;
 
 				*success = dl_true;
 				break;
-- 
2.43.0


From 96e6d262fc31d84ff462f0a65a84182d2b09dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 19/68] fix: free the link arrays of the assembler when it
 fails

---
 assembler.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/assembler.c b/assembler.c
index 4132d82..8ab420c 100644
--- a/assembler.c
+++ b/assembler.c
@@ -256,6 +256,10 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 	} byteLink_t;
 
 	linkArray_t linkArray = {0};
+#ifndef NO_OPTIMIZE_JUMPS
+	linkArray_t newLinkArray = {0};
+	jumpLinkPointer_t *jumpLinkPointers = dl_null;
+#endif
 	dl_array_t bytecodeList;  /* byteLink_t */
 	/**/ dl_array_init(&bytecodeList, duckLisp->memoryAllocation, sizeof(byteLink_t), dl_array_strategy_double);
 	dl_array_t currentArgs;  /* unsigned char */
@@ -2579,8 +2583,6 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 					linkArray.links[index].forward = label.target > linkArray.links[index].source;
 					index++;
 				}
-				e = dl_array_quit(&label.sources);
-				if (e) goto cleanup;
 			}
 		}
 	}
@@ -2592,7 +2594,6 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		/* Create a copy of the original linkArray. This gives us a one-to-one mapping of the new goto addresses to the
 		   current goto addresses. */
 
-		linkArray_t newLinkArray;
 		newLinkArray.links_length = linkArray.links_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &newLinkArray.links,
@@ -2603,7 +2604,6 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 
 		/* Create array double the size as jumpLink. */
 
-		jumpLinkPointer_t *jumpLinkPointers = dl_null;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &jumpLinkPointers,
 		              2 * linkArray.links_length * sizeof(jumpLinkPointer_t));
@@ -2708,8 +2708,6 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			} while ((offset != 0) && (iteration < 10));
 		}
 
-		e = dl_free(duckLisp->memoryAllocation, (void *) &jumpLinkPointers);
-		if (e) goto cleanup;
 		/* putchar('\n'); */
 
 		/* printf("old: "); */
@@ -2788,12 +2786,6 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (array_end) DL_ARRAY_GETADDRESS(bytecodeList, byteLink_t, bytecodeList.elements_length - 1).next = -1;
 		}
 
-		/* Clean up, clean up, everybody do your share… */
-		e = dl_free(duckLisp->memoryAllocation, (void *) &newLinkArray.links);
-		if (e) goto cleanup;
-
-		e = dl_free(duckLisp->memoryAllocation, (void *) &linkArray.links);
-		if (e) goto cleanup;
 	} /* End address space optimization. */
 #else
 	if (linkArray.links_length) {
@@ -2839,9 +2831,29 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 	eError = dl_array_quit(&eString);
 	if (eError) e = eError;
 
+	DL_DOTIMES(i, labels.elements_length) {
+		eError = dl_array_quit(&DL_ARRAY_GETADDRESS(labels, duckLisp_label_t, i).sources);
+		if (eError) e = eError;
+	}
 	eError = dl_array_quit(&labels);
 	if (eError) e = eError;
 
+	/* Clean up, clean up, everybody do your share… */
+#ifndef NO_OPTIMIZE_JUMPS
+	if (jumpLinkPointers != dl_null) {
+		eError = dl_free(duckLisp->memoryAllocation, (void *) &jumpLinkPointers);
+		if (eError) e = eError;
+	}
+	if (newLinkArray.links != dl_null) {
+		eError = dl_free(duckLisp->memoryAllocation, (void *) &newLinkArray.links);
+		if (eError) e = eError;
+	}
+#endif
+	if (linkArray.links != dl_null) {
+		eError = dl_free(duckLisp->memoryAllocation, (void *) &linkArray.links);
+		if (eError) e = eError;
+	}
+
 	return e;
 }
 
-- 
2.43.0


From 9fbc9695b3f46c29b059f3e24828f3dfc2a0e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:55 +0000
Subject: [PATCH 20/68] fix: symbols, scopes and declarations stay consistent
 when an allocation fails

---
 duckLisp.c   | 123 +++++++++++++++++++++++++++++++++++----------------
 generators.c |  34 ++++----------
 2 files changed, 95 insertions(+), 62 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index a8670e8..5878e38 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -124,6 +124,7 @@ dl_error_t duckLisp_checkTypeAndReportError(duckLisp_t *duckLisp,
                                             duckLisp_ast_compoundExpression_t astCompoundExpression,
                                             const duckLisp_ast_type_t type) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	dl_array_t string;
 	/**/ dl_array_init(&string, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
@@ -177,6 +178,9 @@ dl_error_t duckLisp_checkTypeAndReportError(duckLisp_t *duckLisp,
 
  l_cleanup:
 
+	eError = dl_array_quit(&string);
+	if (eError) e = eError;
+
 	return e;
 }
 
@@ -202,18 +206,30 @@ dl_error_t duckLisp_symbol_create(duckLisp_t *duckLisp, const dl_uint8_t *name,
 
 	dl_ptrdiff_t key = duckLisp_symbol_nameToValue(duckLisp, name, name_length);
 	if (key == -1) {
+		/* The trie must not know about the symbol if the array doesn't, otherwise the next symbol gets the same number. */
 		duckLisp_ast_identifier_t tempIdentifier;
+		tempIdentifier.value = dl_null;
+		tempIdentifier.value_length = name_length;
+		if (name_length > 0) {
+			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
+			if (e) goto l_cleanup;
+			/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
+		}
+		e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+		if (e) goto symbol_cleanup;
 		e = dl_trie_insert(&duckLisp->symbols_trie,
 		                   name,
 		                   name_length,
-		                   duckLisp->symbols_array.elements_length);
-		if (e) goto l_cleanup;
-		tempIdentifier.value_length = name_length;
-		e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
-		if (e) goto l_cleanup;
-		/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
-		e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
-		if (e) goto l_cleanup;
+		                   duckLisp->symbols_array.elements_length - 1);
+		if (e) {
+			(void) dl_array_popElement(&duckLisp->symbols_array, dl_null);
+			goto symbol_cleanup;
+		}
+
+	symbol_cleanup:
+		if (e && tempIdentifier.value) {
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+		}
 	}
 
  l_cleanup:
@@ -701,6 +717,7 @@ dl_error_t duckLisp_gensym(duckLisp_t *duckLisp, duckLisp_ast_identifier_t *iden
 	identifier->value_length = 1 + 8/4*sizeof(dl_size_t);  // This is dependent on the size of the gensym number.
 	e = DL_MALLOC(duckLisp->memoryAllocation, (void **) &identifier->value, identifier->value_length, char);
 	if (e) {
+		identifier->value = dl_null;
 		identifier->value_length = 0;
 		return dl_error_outOfMemory;
 	}
@@ -719,17 +736,19 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
                                    dl_uint8_t *name,
                                    const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
 	e = duckLisp_scope_getTop(duckLisp, subCompileState, &scope);
 	if (e) goto l_cleanup;
 
+	/* The scope is a copy, so it has to be written back even if there was an error. */
 	e = dl_trie_insert(&scope.labels_trie, name, name_length, subCompileState->label_number);
-	if (e) goto l_cleanup;
-	subCompileState->label_number++;
+	if (!e) subCompileState->label_number++;
 
-	e = scope_setTop(subCompileState, &scope);
+	eError = scope_setTop(subCompileState, &scope);
+	if (eError) e = eError;
 	if (e) goto l_cleanup;
 
  l_cleanup:
@@ -1466,8 +1485,10 @@ dl_error_t duckLisp_callback_intern(duckVM_t *duckVM) {
 		if (e) goto cleanupString;
 
 	cleanupString:
-		e = DL_FREE(duckVM->memoryAllocation, &string);
-		if (e) goto cleanup;
+		if (string != dl_null) {
+			eError = DL_FREE(duckVM->memoryAllocation, &string);
+			if (eError) e = eError;
+		}
 	}
 
  cleanup: return e;
@@ -2044,6 +2065,16 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 	return error;
 }
 
+#ifdef USE_PARENTHESIS_INFERENCE
+/* Unset fields must be null. */
+static void declarationPrototype_quit(duckLisp_t *duckLisp,
+                                      duckLisp_parenthesisInferrer_declarationPrototype_t *prototype) {
+	if (prototype->name != dl_null) (void) DL_FREE(duckLisp->memoryAllocation, &prototype->name);
+	if (prototype->type != dl_null) (void) DL_FREE(duckLisp->memoryAllocation, &prototype->type);
+	if (prototype->script != dl_null) (void) DL_FREE(duckLisp->memoryAllocation, &prototype->script);
+}
+#endif /* USE_PARENTHESIS_INFERENCE */
+
 void duckLisp_quit(duckLisp_t *duckLisp) {
 	dl_error_t e;
 
@@ -2057,11 +2088,7 @@ void duckLisp_quit(duckLisp_t *duckLisp) {
 	DL_DOTIMES(i, duckLisp->parenthesisInferrerTypes_array.elements_length) {
 		duckLisp_parenthesisInferrer_declarationPrototype_t prototype;
 		e = dl_array_get(&duckLisp->parenthesisInferrerTypes_array, &prototype, i);
-		e = DL_FREE(memoryAllocation, &prototype.name);
-		e = DL_FREE(memoryAllocation, &prototype.type);
-		if (prototype.script != dl_null) {
-			e = DL_FREE(memoryAllocation, &prototype.script);
-		}
+		/**/ declarationPrototype_quit(duckLisp, &prototype);
 	}
 	e = dl_array_quit(&duckLisp->parenthesisInferrerTypes_array);
 	e = dl_array_quit(&duckLisp->inferrerLog);
@@ -2070,8 +2097,8 @@ void duckLisp_quit(duckLisp_t *duckLisp) {
 	e = dl_trie_quit(&duckLisp->runtimeGlobals_trie);
 	e = dl_trie_quit(&duckLisp->symbols_trie);
 	DL_DOTIMES(i, duckLisp->symbols_array.elements_length) {
-		e = DL_FREE(memoryAllocation,
-		            &DL_ARRAY_GETADDRESS(duckLisp->symbols_array, duckLisp_ast_identifier_t, i).value);
+		dl_uint8_t **name = &DL_ARRAY_GETADDRESS(duckLisp->symbols_array, duckLisp_ast_identifier_t, i).value;
+		if (*name != dl_null) e = DL_FREE(memoryAllocation, name);
 	}
 	e = dl_array_quit(&duckLisp->symbols_array);
 	e = dl_array_quit(&duckLisp->errors);
@@ -2157,6 +2184,7 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
+	/**/ dl_array_init(&bytecodeArray, duckLisp->memoryAllocation, sizeof(dl_uint8_t), dl_array_strategy_double);
 	/* Macros and compile-time variables live on the stack of the compile-time VM until the end of the load. */
 	const dl_size_t comptimeStack_length = duckLisp->vm.stack.elements_length;
 	const dl_size_t comptimeCallStack_length = duckLisp->vm.call_stack.elements_length;
@@ -2200,9 +2228,12 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 		                         duckLisp->memoryAllocation,
 		                         bytecodeArray.elements,
 		                         bytecodeArray.elements_length);
-		if (e) goto cleanup;
-		e = dl_array_pushElement(&duckLisp->disassemblies, &string);
-		if (e) goto cleanup;
+		if (!e) e = dl_array_pushElement(&duckLisp->disassemblies, &string);
+		if (e) {
+			eError = dl_array_quit(&string);
+			if (eError) e = eError;
+			goto cleanup;
+		}
 	}
 
 	*bytecode = ((unsigned char*) bytecodeArray.elements);
@@ -2210,6 +2241,8 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 
  cleanup:
 	if (e) {
+		eError = dl_array_quit(&bytecodeArray);
+		if (eError) e = eError;
 		*bytecode_length = 0;
 	}
 
@@ -2227,6 +2260,7 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
                                     const dl_uint8_t *name,
                                     const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2234,10 +2268,10 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
 	e = duckLisp_scope_getTop(duckLisp, compileState->currentCompileState, &scope);
 	if (e) goto cleanup;
 
+	/* The scope is a copy, so it has to be written back even if there was an error. */
 	e = dl_trie_insert(&scope.locals_trie, name, name_length, duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (eError) e = eError;
 	if (e) goto cleanup;
 
  cleanup:
@@ -2269,6 +2303,7 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
                                            duckLisp_compileState_t *compileState,
                                            const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2281,12 +2316,13 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
 	                   name.value,
 	                   name.value_length,
 	                   duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
-	if (e) goto cleanup;
+	if (!e) {
+		e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
+	}
 
-	e = scope_setTop(compileState->currentCompileState, &scope);
+	/* The scope is a copy, so it has to be written back even if there was an error. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (eError) e = eError;
 	if (e) goto cleanup;
 
  cleanup: return e;
@@ -2297,6 +2333,7 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
                                             duckLisp_compileState_t *compileState,
                                             const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 	duckLisp_subCompileState_t *originalSubCompileState = compileState->currentCompileState;
@@ -2311,9 +2348,9 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
 		                   name.value,
 		                   name.value_length,
 		                   duckLisp_functionType_macro);
-		if (e) goto cleanup;
-
-		e = scope_setTop(compileState->currentCompileState, &scope);
+		/* The scope is a copy, so it has to be written back even if there was an error. */
+		eError = scope_setTop(compileState->currentCompileState, &scope);
+		if (eError) e = eError;
 		if (e) goto cleanup;
 	}
 	if (compileState->currentCompileState == &compileState->runtimeCompileState) {
@@ -2374,18 +2411,20 @@ dl_error_t duckLisp_addGenerator(duckLisp_t *duckLisp,
 #ifdef USE_PARENTHESIS_INFERENCE
 	if (typeString_length > 0) {
 		duckLisp_parenthesisInferrer_declarationPrototype_t prototype;
+		prototype.type = dl_null;
+		prototype.script = dl_null;
 		e = DL_MALLOC(duckLisp->memoryAllocation, &prototype.name, name_length, dl_uint8_t);
 		if (e) goto cleanup;
 		(void) dl_memcopy_noOverlap(prototype.name, name, name_length);
 		prototype.name_length = name_length;
 		e = DL_MALLOC(duckLisp->memoryAllocation, &prototype.type, typeString_length, dl_uint8_t);
-		if (e) goto cleanup;
+		if (e) goto prototype_cleanup;
 		(void) dl_memcopy_noOverlap(prototype.type, typeString, typeString_length);
 		prototype.type_length = typeString_length;
 		/* Functions can't declare variables, except globals, which I'm ignoring for now. */
 		if (declarationScript_length > 0) {
 			e = DL_MALLOC(duckLisp->memoryAllocation, &prototype.script, declarationScript_length, dl_uint8_t);
-			if (e) goto cleanup;
+			if (e) goto prototype_cleanup;
 			(void) dl_memcopy_noOverlap(prototype.script, declarationScript, declarationScript_length);
 		}
 		else {
@@ -2393,6 +2432,10 @@ dl_error_t duckLisp_addGenerator(duckLisp_t *duckLisp,
 		}
 		prototype.script_length = declarationScript_length;
 		e = dl_array_pushElement(&duckLisp->parenthesisInferrerTypes_array, &prototype);
+		if (e) goto prototype_cleanup;
+
+	prototype_cleanup:
+		if (e) /**/ declarationPrototype_quit(duckLisp, &prototype);
 		if (e) goto cleanup;
 	}
 #endif /* USE_PARENTHESIS_INFERENCE */
@@ -2423,13 +2466,15 @@ dl_error_t duckLisp_linkCFunction(duckLisp_t *duckLisp,
 
 #ifdef USE_PARENTHESIS_INFERENCE
 	duckLisp_parenthesisInferrer_declarationPrototype_t prototype;
+	prototype.type = dl_null;
+	prototype.script = dl_null;
 	e = DL_MALLOC(duckLisp->memoryAllocation, &prototype.name, name_length, dl_uint8_t);
 	if (e) goto cleanup;
 	(void) dl_memcopy_noOverlap(prototype.name, name, name_length);
 	prototype.name_length = name_length;
 	if (typeString_length > 0) {
 		e = DL_MALLOC(duckLisp->memoryAllocation, &prototype.type, typeString_length, dl_uint8_t);
-		if (e) goto cleanup;
+		if (e) goto prototype_cleanup;
 		(void) dl_memcopy_noOverlap(prototype.type, typeString, typeString_length);
 	}
 	else {
@@ -2440,6 +2485,10 @@ dl_error_t duckLisp_linkCFunction(duckLisp_t *duckLisp,
 	prototype.script = dl_null;
 	prototype.script_length = 0;
 	e = dl_array_pushElement(&duckLisp->parenthesisInferrerTypes_array, &prototype);
+	if (e) goto prototype_cleanup;
+
+ prototype_cleanup:
+	if (e) /**/ declarationPrototype_quit(duckLisp, &prototype);
 	if (e) goto cleanup;
 #endif /* USE_PARENTHESIS_INFERENCE */
 
diff --git a/generators.c b/generators.c
index 59870c6..30dc1ec 100644
--- a/generators.c
+++ b/generators.c
@@ -624,7 +624,6 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 	dl_array_t tempString;
 	dl_ptrdiff_t temp_index;
 	/**/ dl_array_init(&tempString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -664,18 +663,11 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 		                  tree->value.identifier.value_length);
 		if (temp_index < 0) {
 			/* It's not. Intern it. */
-			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp, tree->value.identifier.value, tree->value.identifier.value_length);
 			if (e) goto cleanup;
+			temp_index = duckLisp_symbol_nameToValue(duckLisp,
+			                                         tree->value.identifier.value,
+			                                         tree->value.identifier.value_length);
 		}
 		/* Push symbol */
 		e = duckLisp_emit_pushSymbol(duckLisp,
@@ -752,7 +744,6 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 	dl_ptrdiff_t temp_index = -1;
 	dl_uint8_t *functionName = expression->compoundExpressions[0].value.identifier.value;
 	dl_size_t functionName_length = expression->compoundExpressions[0].value.identifier.value_length;
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -794,19 +785,12 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 		                  tree->value.identifier.value,
 		                  tree->value.identifier.value_length);
 		if (temp_index < 0) {
-			// It's not. Intern it.
-			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			/* It's not. Intern it. */
+			e = duckLisp_symbol_create(duckLisp, tree->value.identifier.value, tree->value.identifier.value_length);
 			if (e) goto cleanup;
+			temp_index = duckLisp_symbol_nameToValue(duckLisp,
+			                                         tree->value.identifier.value,
+			                                         tree->value.identifier.value_length);
 		}
 		// Push symbol
 		e = duckLisp_emit_pushSymbol(duckLisp,
-- 
2.43.0


From 015e8c49f0c595738d2ea3a0245fd61f37531749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 21/68] fix: the pool allocator stays intact when a request
 fails

---
 DuckLib/memory.c | 164 ++++++++++++++++++++++++++---------------------
 1 file changed, 91 insertions(+), 73 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 61a2f60..4edb1e9 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -417,6 +417,12 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 		currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
 	}
 	
+	if ((optimumBlock == -1) && (fit == dl_memoryFit_next)) {
+		/* The block may be before the most recent one. */
+		error = dl_memory_findBlock(memoryAllocation, &optimumBlock, size, dl_memoryFit_first);
+		if (error) goto l_cleanup;
+	}
+
 	if (optimumBlock == -1) {
 		error = dl_error_outOfMemory;
 		goto l_cleanup;
@@ -452,6 +458,7 @@ void dl_memory_mergeBlockAfter(dl_memoryAllocation_t *memoryAllocation, dl_bool_
 		}
 		// Free nextBlock's entry.
 		memoryAllocation->blockList[nextBlock].unlinked = dl_true;
+		if (memoryAllocation->mostRecentBlock == nextBlock) memoryAllocation->mostRecentBlock = block;
 		
 		if (merged) {
 			*merged = dl_true;
@@ -482,6 +489,7 @@ void dl_memory_mergeBlockBefore(dl_memoryAllocation_t *memoryAllocation, dl_bool
 		}
 		// Free previousBlock's entry.
 		memoryAllocation->blockList[previousBlock].unlinked = dl_true;
+		if (memoryAllocation->mostRecentBlock == previousBlock) memoryAllocation->mostRecentBlock = block;
 		
 		if (merged) {
 			*merged = dl_true;
@@ -525,6 +533,16 @@ void dl_memory_mergeBlocks(dl_memoryAllocation_t *memoryAllocation, dl_bool_t *m
 // 	return error;
 // }
 
+/* Call this when freeing a block, before it is merged. */
+static void dl_memory_lowerUsed(dl_memoryAllocation_t *memoryAllocation, const dl_ptrdiff_t block) {
+	const dl_ptrdiff_t nextBlock = memoryAllocation->blockList[block].nextBlock;
+	if ((nextBlock == -1) || (memoryAllocation->blockList[nextBlock].nextBlock == -1)) {
+		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
+	}
+}
+
+dl_error_t dl_memory_splitBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdiff_t block, dl_size_t index);
+
 dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation, dl_size_t entries_number) {
 	dl_error_t error = dl_error_ok;
 	
@@ -550,9 +568,7 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
-		if (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1) {
-			memoryAllocation->used = (char *) memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].block - (char *) memoryAllocation->memory;
-		}
+		/**/ dl_memory_lowerUsed(memoryAllocation, memoryAllocation->blockList_indexOfBlockList);
 		
 		
 		/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, &merged, memoryAllocation->blockList_indexOfBlockList);
@@ -576,7 +592,7 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 			// Find a larger memory block for the table.
 			error = dl_memory_findBlock(memoryAllocation, &newBlock, (memoryAllocation->blockList_length + entries_left) * sizeof(dl_memoryBlock_t),
 			                            memoryAllocation->fit);
-			if (error) goto cleanup;
+			if (error) goto restore;
 			
 			// Copy block list to new location.
 			tempMemory = memoryAllocation->blockList[newBlock].block;
@@ -655,6 +671,23 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	}
 	
 	error = dl_error_ok;
+	goto cleanup;
+
+ restore: {
+		/* The table hasn't moved. Give its neighbors back. Each of them left a descriptor behind when it was merged. */
+		dl_ptrdiff_t table = memoryAllocation->blockList_indexOfBlockList;
+		const dl_size_t table_size = memoryAllocation->blockList_length * sizeof(dl_memoryBlock_t);
+		const dl_size_t offset = (char *) memoryAllocation->blockList - (char *) memoryAllocation->blockList[table].block;
+		if (offset != 0) {
+			(void) dl_memory_splitBlock(memoryAllocation, table, offset);
+			table = memoryAllocation->blockList[table].nextBlock;
+			memoryAllocation->blockList_indexOfBlockList = table;
+		}
+		if (memoryAllocation->blockList[table].block_size != table_size) {
+			(void) dl_memory_splitBlock(memoryAllocation, table, table_size);
+		}
+		memoryAllocation->blockList[table].allocated = dl_true;
+	}
  cleanup: return error;
 }
 
@@ -749,7 +782,7 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 
  cleanup:
 
-	if (error) memory = dl_null;
+	if (error) *memory = dl_null;
 
 	return error;
 }
@@ -778,9 +811,7 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 		
 	memoryAllocation->blockList[block].allocated = dl_false;
 
-	if (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1) {
-		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
-	}
+	/**/ dl_memory_lowerUsed(memoryAllocation, block);
 	
 	/* No error */ dl_memory_mergeBlocks(memoryAllocation, dl_null, block);
 
@@ -792,16 +823,15 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 	return error;
 }
 
+/* The original block is untouched if this fails. */
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	dl_error_t error = dl_error_ok;
 	
 	dl_ptrdiff_t currentBlock = -1;
+	dl_ptrdiff_t neighbor = -1;
 	dl_ptrdiff_t newBlock = -1;
-
-	dl_bool_t blockFits = dl_false;
-#ifdef MEMCHECK
-	dl_size_t oldSize;
-#endif
+	dl_size_t oldSize = 0;
+	dl_size_t availableSize = 0;
 	
 	if (*memory == dl_null) {
 		error = dl_malloc(memoryAllocation, memory, size);
@@ -821,83 +851,75 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-#ifdef MEMCHECK
-	oldSize = memoryAllocation->blockList[currentBlock].block_size;
-#endif
-	
-	// Mark deleted just in case we find that we can expand our block.
-	memoryAllocation->blockList[currentBlock].allocated = dl_false;
-	
-	if (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1) {
-		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
-	}
-	
-	/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, dl_null, currentBlock);
-	
-	blockFits = (memoryAllocation->blockList[currentBlock].block_size >= size);
-	
-	if (!blockFits) {
-		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
-	}
-	
-	memoryAllocation->blockList[currentBlock].allocated = dl_true;
+	/* This can use the free memory around the block, so it has to be done before looking at it. */
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
-	if (error) {
-		goto l_cleanup;
+	if (error) goto l_cleanup;
+
+	oldSize = memoryAllocation->blockList[currentBlock].block_size;
+	availableSize = oldSize;
+	neighbor = memoryAllocation->blockList[currentBlock].nextBlock;
+	if ((neighbor != -1) && !memoryAllocation->blockList[neighbor].allocated) {
+		availableSize += memoryAllocation->blockList[neighbor].block_size;
 	}
-	memoryAllocation->blockList[currentBlock].allocated = dl_false;
-	
-	
+
 	newBlock = currentBlock;
-	if (!blockFits) {
+	if (availableSize < size) {
+		/* Need to move. */
 		error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
 		if (error) {
-			goto l_cleanup;
-		}
-	}
-	
-	if (memoryAllocation->blockList[newBlock].block_size != size) {
-		error = dl_memory_splitBlock(memoryAllocation, newBlock, size);
-		if (error) {
-			goto l_cleanup;
+			/* Nothing is large enough, but maybe the block can slide into free memory in front of it. */
+			neighbor = memoryAllocation->blockList[currentBlock].previousBlock;
+			if ((neighbor == -1)
+			    || memoryAllocation->blockList[neighbor].allocated
+			    || (availableSize + memoryAllocation->blockList[neighbor].block_size < size)) {
+				goto l_cleanup;
+			}
+			newBlock = currentBlock;
 		}
 	}
 
-	if (!blockFits) {
-		// Copy.
+	if (newBlock == currentBlock) {
+		/**/ dl_memory_lowerUsed(memoryAllocation, currentBlock);
+		/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, dl_null, currentBlock);
+		if (availableSize < size) {
+			/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
 #ifdef MEMCHECK
-		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block, size);
-		VALGRIND_MAKE_MEM_DEFINED(*memory, memoryAllocation->blockList[currentBlock].block_size);
+			VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[currentBlock].block,
+			                            (char *) *memory - (char *) memoryAllocation->blockList[currentBlock].block);
 #endif /* MEMCHECK */
-		dl_memcopy(memoryAllocation->blockList[newBlock].block,
-		           *memory,
-		           dl_min(size, memoryAllocation->blockList[currentBlock].block_size));
-		if (error) {
-			goto l_cleanup;
+			(void) dl_memcopy(memoryAllocation->blockList[currentBlock].block, *memory, oldSize);
 		}
+	}
+	else {
 #ifdef MEMCHECK
-		VALGRIND_MAKE_MEM_NOACCESS(*memory, oldSize);
-		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block + oldSize, size - oldSize);
-		VALGRIND_MAKE_MEM_DEFINED(memoryAllocation->blockList[newBlock].block, oldSize);
+		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block, size);
 #endif /* MEMCHECK */
+		(void) dl_memcopy(memoryAllocation->blockList[newBlock].block, *memory, oldSize);
+	}
+
+	if (memoryAllocation->blockList[newBlock].block_size != size) {
+		error = dl_memory_splitBlock(memoryAllocation, newBlock, size);
+		if (error) goto l_cleanup;
+	}
+	memoryAllocation->blockList[newBlock].allocated = dl_true;
+
+	if (newBlock != currentBlock) {
+		error = dl_free(memoryAllocation, memory);
+		if (error) goto l_cleanup;
 	}
 #ifdef MEMCHECK
 	else {
-		if (size > oldSize) {
-			VALGRIND_MAKE_MEM_NOACCESS(*memory, oldSize);
-			VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block + oldSize, size - oldSize);
-			VALGRIND_MAKE_MEM_DEFINED(memoryAllocation->blockList[newBlock].block, oldSize);
+		const dl_memoryBlock_t block = memoryAllocation->blockList[newBlock];
+		if (block.block_size > oldSize) {
+			VALGRIND_MAKE_MEM_UNDEFINED((char *) block.block + oldSize, block.block_size - oldSize);
 		}
-		else {
-			VALGRIND_MAKE_MEM_NOACCESS(*memory, oldSize);
-			VALGRIND_MAKE_MEM_DEFINED(memoryAllocation->blockList[newBlock].block, size);
+		if (block.nextBlock != -1 && !memoryAllocation->blockList[block.nextBlock].allocated) {
+			VALGRIND_MAKE_MEM_NOACCESS(memoryAllocation->blockList[block.nextBlock].block,
+			                           memoryAllocation->blockList[block.nextBlock].block_size);
 		}
 	}
 #endif /* MEMCHECK */
 	
-	// Mark allocated.
-	memoryAllocation->blockList[newBlock].allocated = dl_true;
-    
 	// Pass the memory.
 	*memory = memoryAllocation->blockList[newBlock].block;
 	memoryAllocation->used = dl_max(memoryAllocation->used, (dl_size_t) (memoryAllocation->blockList[newBlock].block_size + (char *) memoryAllocation->blockList[newBlock].block - (char *) memoryAllocation->memory));
@@ -906,10 +928,6 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	error = dl_error_ok;
 	l_cleanup:
 	
-	if (error) {
-		memory = dl_null;
-	}
-	
 	return error;
 }
 
-- 
2.43.0


From becb95bcf63249faaac5632fb53fb30f62d88992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 22/68] fix: integer division by zero is an error instead of a
 crash

---
 duckVM.c | 72 +++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index b40a02a..e3bf569 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2105,9 +2105,23 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
+				/* The most negative integer divided by -1 traps. Wrap like the other operators do. */
+				if (object2.value.integer == -1) {
+					object1.value.integer = (dl_ptrdiff_t) (0 - (dl_size_t) object1.value.integer);
+				}
+				else {
+					object1.value.integer /= object2.value.integer;
+				}
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2123,10 +2137,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
@@ -2177,9 +2199,23 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
+				/* The most negative integer divided by -1 traps. Wrap like the other operators do. */
+				if (object2.value.integer == -1) {
+					object1.value.integer = (dl_ptrdiff_t) (0 - (dl_size_t) object1.value.integer);
+				}
+				else {
+					object1.value.integer /= object2.value.integer;
+				}
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2195,10 +2231,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
@@ -2246,9 +2290,23 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				break;
 			case duckVM_object_type_integer:
 				/* Type already set. */
-				object1.value.integer /= object2.value.integer;
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
+				/* The most negative integer divided by -1 traps. Wrap like the other operators do. */
+				if (object2.value.integer == -1) {
+					object1.value.integer = (dl_ptrdiff_t) (0 - (dl_size_t) object1.value.integer);
+				}
+				else {
+					object1.value.integer /= object2.value.integer;
+				}
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer /= object2.value.boolean;
 				object1.type = duckVM_object_type_integer;
 				break;
@@ -2264,10 +2322,18 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				object1.type = duckVM_object_type_float;
 				break;
 			case duckVM_object_type_integer:
+				if (object2.value.integer == 0) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.integer = object1.value.boolean / object2.value.integer;
 				object1.type = duckVM_object_type_integer;
 				break;
 			case duckVM_object_type_bool:
+				if (!object2.value.boolean) {
+					e = dl_error_invalidValue;
+					goto cleanup;
+				}
 				object1.value.boolean /= object2.value.boolean;
 				break;
 			default:
-- 
2.43.0


From 35a54fe319925088f9d63d49372df1a2f3868f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 23/68] fix: notice when a call can't push its return address

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index e3bf569..b56fb71 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1597,7 +1597,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_call8:
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
-		call_stack_push(duckVM, ip, bytecode, dl_null);
+		e = call_stack_push(duckVM, ip, bytecode, dl_null);
 		if (e) break;
 		if (opcode == duckLisp_instruction_call32) {
 			if (ptrdiff1 & 0x80000000ULL) {
-- 
2.43.0


From 2ac89c9a4f6052666577f685e5d1d6da4a61a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 24/68] fix: calling a callback whose global was overwritten is
 an error

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index b56fb71..c389f01 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1645,6 +1645,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			if (global->type != duckVM_object_type_function) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_execute->c-call: Global is not a callback."));
+				if (!e) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From 0173f7226ea84f5fbe47f9ce5e1d79346523a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 25/68] fix: don't push a string that couldn't be created

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index c389f01..aa097ca 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -896,6 +896,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0


From 8f5a4cbdcfde3dea4f26475b5d3a3b96bb1746d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 26/68] fix: vector accesses check the bounds of the vector

---
 duckVM.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index aa097ca..5a23342 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3477,7 +3477,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
-			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
+			    || (object1.value.vector.internal_vector == dl_null)
+			    || ((dl_size_t) ptrdiff1 + object1.value.vector.offset
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
@@ -3588,8 +3589,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) ptrdiff2 + object1.value.vector.offset
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
@@ -3852,7 +3855,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
-- 
2.43.0


From 9d7c25f8ea17eaee88d746ad443e9fe139669603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 27/68] fix: set-cdr on a vector keeps the first element and
 never makes the vector longer

---
 duckVM.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 5a23342..4eb3b51 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3918,7 +3918,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		              && (object1.value.vector.internal_vector == dl_null))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			/* The first element stays, as it does for lists. Never make the vector longer. */
+			if ((dl_size_t) object2.value.vector.offset
+			    < object2.value.vector.internal_vector->value.internal_vector.length) {
+				object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
+			}
 		}
 		else {
 			e = dl_error_invalidValue;
@@ -4262,7 +4266,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
+				/* Another reference might have shortened the vector. */
+				object2.value.integer = ((object1.value.vector.internal_vector
+				                          && ((dl_size_t) object1.value.vector.offset
+				                              < (object1.value.vector.internal_vector
+				                                 ->value.internal_vector.length)))
 				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
 				                            - object1.value.vector.offset)
 				                         : 0);
-- 
2.43.0


From 6970ebb7d0631568b5d87d2fc6d1024d53d2527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 28/68] fix: empty strings and vectors made by car and cdr have
 no undefined parts

---
 duckVM.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 4eb3b51..6aaa0fc 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3654,6 +3654,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.vector.internal_vector == dl_null) {
 				object2.type = duckVM_object_type_vector;
 				object2.value.vector.internal_vector = dl_null;
+				object2.value.vector.offset = 0;
 			}
 			else {
 				if (object1.value.vector.internal_vector->type == duckVM_object_type_internalVector) {
@@ -3663,6 +3664,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    || ((dl_size_t) object1.value.vector.offset
 					        >= object1.value.vector.internal_vector->value.internal_vector.length - 1)) {
 						object2.value.vector.internal_vector = dl_null;
+						object2.value.vector.offset = 0;
 					}
 					/* cdr can't be anything other than a vector. */
 					else {
@@ -3680,6 +3682,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3688,6 +3692,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    /* -1 because we are going to try to get the cdr, which is the next element after. */
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length - 1)) {
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					/* cdr can't be anything other than a string. */
 					else {
@@ -3761,6 +3767,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.vector.internal_vector == dl_null) {
 				object2.type = duckVM_object_type_vector;
 				object2.value.vector.internal_vector = dl_null;
+				object2.value.vector.offset = 0;
 			}
 			else {
 				if (object1.value.vector.internal_vector->type == duckVM_object_type_internalVector) {
@@ -3769,6 +3776,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 						object2.type = duckVM_object_type_vector;
 						object2.value.vector.internal_vector = dl_null;
+						object2.value.vector.offset = 0;
 					}
 					else {
 						object2 = *(object1.value.vector.internal_vector
@@ -3785,6 +3793,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (object1.value.string.internalString == dl_null) {
 				object2.type = duckVM_object_type_string;
 				object2.value.string.internalString = dl_null;
+				object2.value.string.offset = 0;
+				object2.value.string.length = 0;
 			}
 			else {
 				if (object1.value.string.internalString->type == duckVM_object_type_internalString) {
@@ -3792,6 +3802,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					    || ((dl_size_t) object1.value.string.offset >= object1.value.string.length)) {
 						object2.type = duckVM_object_type_string;
 						object2.value.string.internalString = dl_null;
+						object2.value.string.offset = 0;
+						object2.value.string.length = 0;
 					}
 					else {
 						object2.type = duckVM_object_type_integer;
-- 
2.43.0


From 3c531dca530d42b7b5b1b62f0884c48ea617598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 29/68] fix: the name of a symbol without a name is an error

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 6aaa0fc..b69836f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4322,6 +4322,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (eError) e = eError;
 			break;
 		}
+		if (object1.value.symbol.internalString == dl_null) {
+			e = dl_error_invalidValue;
+			eError = duckVM_error_pushRuntime(duckVM,
+			                                  DL_STR("duckVM_execute->symbol-string: Symbol has no name."));
+			if (eError) e = eError;
+			break;
+		}
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-- 
2.43.0


From fdb1e6ace352850d5d04e92db3d9e2b3b90e707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 30/68] fix: concatenate joins exactly the bytes of its
 arguments and survives allocation failure

---
 duckVM.c | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index b69836f..8e6157c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4538,38 +4538,47 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_size_t object1_string_length = 0;
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
+			dl_uint8_t *string = dl_null;
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				if (object1.value.string.internalString != dl_null) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+					object1_string_length = object1.value.string.length - object1.value.string.offset;
+				}
 			}
-			else {
+			else if (object1.value.symbol.internalString != dl_null) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				if (object2.value.string.internalString != dl_null) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+					object2_string_length = object2.value.string.length - object2.value.string.offset;
+				}
 			}
-			else {
+			else if (object2.value.symbol.internalString != dl_null) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
 			object3.type = duckVM_object_type_internalString;
-			object3.value.internalString.value = object1_string;
-			object3.value.internalString.value_length = object1_string_length;
+			object3.value.internalString.value_length = object1_string_length + object2_string_length;
+			if (object3.value.internalString.value_length > 0) {
+				e = DL_MALLOC(duckVM->memoryAllocation,
+				              &string,
+				              object3.value.internalString.value_length,
+				              dl_uint8_t);
+				if (e) break;
+				/**/ dl_memcopy_noOverlap(string, object1_string, object1_string_length);
+				/**/ dl_memcopy_noOverlap(string + object1_string_length, object2_string, object2_string_length);
+			}
+			object3.value.internalString.value = string;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object3);
+			if (string != dl_null) {
+				eError = DL_FREE(duckVM->memoryAllocation, &string);
+				if (!e) e = eError;
+			}
 			if (e) break;
-			objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
-			e = DL_REALLOC(duckVM->memoryAllocation,
-			               &objectPtr1->value.internalString.value,
-			               objectPtr1->value.internalString.value_length,
-			               dl_uint8_t);
-			if (e) break;
-			/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
-			                          object2_string,
-			                          object2_string_length);
 			object3.type = duckVM_object_type_string;
 			object3.value.string.offset = 0;
 			object3.value.string.length = objectPtr1->value.internalString.value_length;
-- 
2.43.0


From 7884bc145dd217656d9e9ef8b2392e87bd5708cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 31/68] fix: make-string reports unsuitable elements, handles
 empty sequences and doesn't leak

---
 duckVM.c | 63 ++++++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8e6157c..4ef1f89 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4377,52 +4377,56 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
-				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
-				if (e) break;
-				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
-					duckVM_object_t *element = object1.value.vector.internal_vector->value.internal_vector.values[i];
-					if (element->type != duckVM_object_type_integer) {
+				dl_size_t vector_length = 0;
+				if (object1.value.vector.internal_vector != dl_null) {
+					vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
+				}
+				if ((dl_size_t) object1.value.vector.offset < vector_length) {
+					string_length = vector_length - object1.value.vector.offset;
+					e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
+					if (e) break;
+				}
+				for (dl_size_t i = 0; i < string_length; i++) {
+					duckVM_object_t *element = (object1.value.vector.internal_vector
+					                            ->value.internal_vector.values[object1.value.vector.offset + i]);
+					if ((element == dl_null) || (element->type != duckVM_object_type_integer)) {
 						e = dl_error_invalidValue;
 						eError = duckVM_error_pushRuntime(duckVM,
 						                                  DL_STR("duckVM_execute->make-string: All elements of vector must be integers."));
 						if (eError) e = eError;
-						eError = DL_FREE(duckVM->memoryAllocation, &string);
-						if (eError) e = eError;
 						break;
 					}
 					/* Truncate to 8 bits. */
-					string[i - object1.value.vector.offset] = element->value.integer;
+					string[i] = element->value.integer;
 				}
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
 				/**/ dl_array_init(&string_array, duckVM->memoryAllocation, sizeof(char), dl_array_strategy_double);
 				objectPtr1 = object1.value.list;
+				if (duckVM_listIsCyclic(objectPtr1)) {
+					e = dl_error_invalidValue;
+					eError = duckVM_error_pushRuntime(duckVM,
+					                                  DL_STR("duckVM_execute->make-string: List must not be circular."));
+					if (eError) e = eError;
+					break;
+				}
 				while (objectPtr1 != dl_null) {
 					if (objectPtr1->type == duckVM_object_type_list) {
 						objectPtr1 = objectPtr1->value.list;
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
 							if (eError) e = eError;
-							eError = dl_array_quit(&string_array);
-							if (eError) e = eError;
 							break;
 						}
 						uint8 = car->value.integer & 0xFF;
 						e = dl_array_pushElement(&string_array, &uint8);
-						if (e) {
-							e = dl_error_invalidValue;
-							eError = dl_array_quit(&string_array);
-							if (eError) e = eError;
-							break;
-						}
+						if (e) break;
 						objectPtr1 = objectPtr1->value.cons.cdr;
 					}
 					else {
@@ -4430,8 +4434,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						eError = duckVM_error_pushRuntime(duckVM,
 						                                  DL_STR("duckVM_execute->make-string: Not a proper list."));
 						if (eError) e = eError;
-						eError = dl_array_quit(&string_array);
-						if (eError) e = eError;
 						break;
 					}
 				}
@@ -4443,20 +4445,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->make-string: Only vector arguments are supported."));
 				if (eError) e = eError;
-				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
-				break;
 			}
-			object1.type = duckVM_object_type_internalString;
-			object1.value.internalString.value = string;
-			object1.value.internalString.value_length = string_length;
-			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
-			if (e) {
+			if (!e) {
+				object1.type = duckVM_object_type_internalString;
+				object1.value.internalString.value = string;
+				object1.value.internalString.value_length = string_length;
+				e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
+			}
+			if (string != dl_null) {
 				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
-				break;
+				if (!e) e = eError;
 			}
-			e = DL_FREE(duckVM->memoryAllocation, &string);
 			if (e) break;
 			object1.type = duckVM_object_type_string;
 			object1.value.string.internalString = objectPtr1;
-- 
2.43.0


From 28ebddfa95c5a5331ec8c498611f6fc3bb903456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 32/68] fix: setting a global was dropped when its key equalled
 a stack index

---
 emitters.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/emitters.c b/emitters.c
index 80b7f90..6758c92 100644
--- a/emitters.c
+++ b/emitters.c
@@ -778,8 +778,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 
-	if (destination_static_index == source_stack_index) goto cleanup;
-
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - source_stack_index;
 	argument1.type = duckLisp_instructionArgClass_type_index;
@@ -791,7 +789,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	                                 argument0,
 	                                 argument1);
 	duckLisp_localsLength_decrement(compileState);
- cleanup:
 	return e;
 }
 
-- 
2.43.0


From 99bc0e6bd0e3b55b82a77b7a5ffa32a5972d811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 33/68] fix: a macro that expands to an identifier produces its
 value

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 30dc1ec..90af1d1 100644
--- a/generators.c
+++ b/generators.c
@@ -3688,7 +3688,7 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	                                        &ast,
 	                                        index,
 	                                        dl_null,
-	                                        dl_false);
+	                                        dl_true);
 	if (e) goto cleanupAST;
 
 	/* HACK: We can't pass a compound expression up, but we can replace an expression. This is so the noscope generator
-- 
2.43.0


From 480a11d6433d4ba1db6058b2f98b747c9a6daa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 34/68] fix: apply doesn't make a list of the tail of a dotted
 list

---
 duckVM.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 4ef1f89..ad91f3a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1511,6 +1511,13 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			uint8++;
 		}
 		if (e) break;
+		if ((rest.value.list != dl_null) && (rest.value.list->type != duckVM_object_type_cons)) {
+			e = dl_error_invalidValue;
+			eError = duckVM_error_pushRuntime(duckVM,
+			                                  DL_STR("duckVM_execute->apply: Last argument is not a proper list."));
+			if (eError) e = eError;
+			break;
+		}
 		if (object1.value.closure.variadic) {
 			if (uint8 < object1.value.closure.arity) {
 				e = dl_error_invalidValue;
-- 
2.43.0


From 5bde6e6fb3ab325583b17f7bd11886298fa3be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 35/68] fix: a soft reset frees what is on the stack before it
 saves captured variables

---
 duckVM.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ad91f3a..e0b56d3 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4907,6 +4907,12 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 /* Move variables that closures still refer to off of the part of the stack that is about to be discarded. */
 static dl_error_t duckVM_releaseOpenUpvalues(duckVM_t *duckVM, dl_size_t stack_length) {
 	dl_error_t e = dl_error_ok;
+	/* Everything else is garbage. Let the collector have it if there isn't enough space. */
+	for (dl_size_t i = stack_length; i < duckVM->upvalue_stack.elements_length; i++) {
+		if (DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) == dl_null) {
+			DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i) = duckVM_object_makeList(dl_null);
+		}
+	}
 	for (dl_size_t i = stack_length; i < duckVM->upvalue_stack.elements_length; i++) {
 		duckVM_object_t *upvalue = DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i);
 		if (upvalue == dl_null) continue;
@@ -4923,12 +4929,6 @@ static dl_error_t duckVM_releaseOpenUpvalues(duckVM_t *duckVM, dl_size_t stack_l
 /* Discard everything that was pushed since the stacks had the given lengths. */
 dl_error_t duckVM_unwind(duckVM_t *duckVM, dl_size_t stack_length, dl_size_t callStack_length) {
 	dl_error_t e = dl_error_ok;
-	if (duckVM->stack.elements_length > stack_length) {
-		e = duckVM_releaseOpenUpvalues(duckVM, stack_length);
-		if (e) goto cleanup;
-		e = stack_pop_multiple(duckVM, duckVM->stack.elements_length - stack_length);
-		if (e) goto cleanup;
-	}
 	if (duckVM->call_stack.elements_length > callStack_length) {
 		dl_size_t pops = duckVM->call_stack.elements_length - callStack_length;
 		e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, pops);
@@ -4936,6 +4936,12 @@ dl_error_t duckVM_unwind(duckVM_t *duckVM, dl_size_t stack_length, dl_size_t cal
 		e = dl_array_popElements(&duckVM->call_stack, dl_null, pops);
 		if (e) goto cleanup;
 	}
+	if (duckVM->stack.elements_length > stack_length) {
+		e = duckVM_releaseOpenUpvalues(duckVM, stack_length);
+		if (e) goto cleanup;
+		e = stack_pop_multiple(duckVM, duckVM->stack.elements_length - stack_length);
+		if (e) goto cleanup;
+	}
  cleanup: return e;
 }
 
-- 
2.43.0


From 14eee19624b780fefa3c8d6ada47ef3d9bab71e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 36/68] fix: a VM whose initialisation failed can be destroyed

---
 duckVM.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index e0b56d3..eccb00e 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -53,25 +53,31 @@ dl_error_t duckVM_gclist_init(duckVM_gclist_t *gclist,
 
 	gclist->memoryAllocation = memoryAllocation;
 	gclist->duckVM = duckVM;
+	/* If an allocation fails, then the list has to look empty to `duckVM_quit`. */
+	gclist->objects = dl_null;
+	gclist->objects_length = 0;
+	gclist->freeObjects = dl_null;
+	gclist->freeObjects_length = 0;
+	gclist->objectInUse = dl_null;
 
 
 	e = dl_malloc(gclist->memoryAllocation,
 				  (void **) &gclist->objects,
 				  maxObjects * sizeof(duckVM_object_t));
 	if (e) goto cleanup;
-	gclist->objects_length = maxObjects;
 
 	e = dl_malloc(gclist->memoryAllocation,
 				  (void **) &gclist->freeObjects,
 				  maxObjects * sizeof(duckVM_object_t *));
 	if (e) goto cleanup;
-	gclist->freeObjects_length = maxObjects;
 
 
 	e = dl_malloc(gclist->memoryAllocation,
 				  (void **) &gclist->objectInUse,
 				  maxObjects * sizeof(dl_bool_t));
 	if (e) goto cleanup;
+	gclist->objects_length = maxObjects;
+	gclist->freeObjects_length = maxObjects;
 
 
 	/**/ dl_memclear(gclist->objects, gclist->objects_length * sizeof(duckVM_object_t));
@@ -488,8 +494,6 @@ dl_error_t duckVM_init(duckVM_t *duckVM, dl_memoryAllocation_t *memoryAllocation
 	                   duckVM->memoryAllocation,
 	                   sizeof(duckVM_upvalueArray_t),
 	                   dl_array_strategy_double);
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, dl_null);
-	if (e) goto cleanup;
 	/**/ dl_array_init(&duckVM->globals,
 	                   duckVM->memoryAllocation,
 	                   sizeof(duckVM_object_t *),
@@ -500,6 +504,8 @@ dl_error_t duckVM_init(duckVM_t *duckVM, dl_memoryAllocation_t *memoryAllocation
 	                   dl_array_strategy_double);
 	e = duckVM_gclist_init(&duckVM->gclist, duckVM->memoryAllocation, duckVM, maxObjects);
 	if (e) goto cleanup;
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, dl_null);
+	if (e) goto cleanup;
 	duckVM->duckLisp = dl_null;
 	duckVM->userData = dl_null;
 
-- 
2.43.0


From 85646244e0c50ad438a88f721479c864b956f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 37/68] fix: keep the captured variables of a running closure
 that was replaced

---
 duckVM.c | 19 ++++++++++++++-----
 duckVM.h |  1 +
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index eccb00e..7585884 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -282,6 +282,13 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
 			if (e) goto cleanup;
 		}
+		/* A running closure can have been replaced everywhere else. */
+		object = (DL_ARRAY_GETADDRESS(duckVM->call_stack, duckVM_callFrame_t, i)
+		          .upvalueArray);
+		if (object != dl_null) {
+			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
+			if (e) goto cleanup;
+		}
 	}
 
 	/* Current bytecode */
@@ -593,14 +600,16 @@ static dl_error_t stack_set(duckVM_t *duckVM, duckVM_object_t *element, dl_ptrdi
 static dl_error_t call_stack_push(duckVM_t *duckVM,
                                   dl_uint8_t *ip,
                                   duckVM_object_t *bytecode,
-                                  duckVM_upvalueArray_t *upvalueArray) {
+                                  duckVM_object_t *upvalueArray) {
 	dl_error_t e = dl_error_ok;
 	duckVM_callFrame_t frame;
 	frame.ip = ip;
 	frame.bytecode = bytecode;
+	frame.upvalueArray = upvalueArray;
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack,
+	                         upvalueArray ? &upvalueArray->value.upvalue_array : dl_null);
 	/* Both stacks must always grow together. */
 	if (e) (void) dl_array_popElement(&duckVM->call_stack, dl_null);
  cleanup:
@@ -1456,7 +1465,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			break;
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -1594,7 +1603,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -5806,7 +5815,7 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			                    shim_ip,
 			                    /* The shim isn't a heap object. The GC must not see it. */
 			                    duckVM->currentBytecode,
-			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
+			                    functionObject.value.closure.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
 			e = duckVM_executeWithIp(duckVM, bytecode.bytecode, bytecode_offset, bytecode.bytecode_length);
diff --git a/duckVM.h b/duckVM.h
index 9a820c6..292d629 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -49,6 +49,7 @@ typedef struct duckVM_gclist_s {
 typedef struct {
 	dl_uint8_t *ip;
 	struct duckVM_object_s *bytecode;
+	struct duckVM_object_s *upvalueArray;  /* Of the called closure. */
 } duckVM_callFrame_t;
 
 typedef struct duckVM_s {
-- 
2.43.0


From a48a25a9d8f1257b6101238ef66ec7284d22e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 38/68] fix: a 16 bit = decoded its operands a second time as 8
 bit

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index 7585884..884f69d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2919,6 +2919,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From 7c873ec65745398b9e79c863b3629241d2cf93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 39/68] fix: operands past 255 are encoded and decoded with the
 same width

vector, set-vector-element! and substring chose the width from some of
their operands, release-upvalues from the last one, and set-upvalue from
the wrong one and cut off the index of the upvalue. The VM read one byte of
the count of release-upvalues.
---
 assembler.c | 75 ++++++++++++++++++++++++++++++-----------------------
 duckVM.c    | 15 +++++++++++
 2 files changed, 57 insertions(+), 33 deletions(-)

diff --git a/assembler.c b/assembler.c
index 8ab420c..b6164a1 100644
--- a/assembler.c
+++ b/assembler.c
@@ -781,21 +781,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_setUpvalue: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t offset = 0;
-				byte_length = 1;
-				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
-				if (e) goto cleanup;
-				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
-					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
-					                                                    >> 8*(byte_length - n - 1))
-					                                                   & 0xFFU);
-				}
-				offset += byte_length;
 				/* I'm not checking if it's negative since I'm lazy and that should never happen. */
-				if (args[0].value.index < 0x100LL) {
+				if ((args[0].value.index < 0x100LL) && (args[1].value.index < 0x100LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue8;
 					byte_length = 1;
 				}
-				else if (args[0].value.index < 0x10000LL) {
+				else if ((args[0].value.index < 0x10000LL) && (args[1].value.index < 0x10000LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue16;
 					byte_length = 2;
 				}
@@ -805,6 +796,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
+				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
+					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
+					                                                    >> 8*(byte_length - n - 1))
+					                                                   & 0xFFU);
+				}
+				offset += byte_length;
+				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
+				if (e) goto cleanup;
 				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
 					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, offset + n) = ((args[1].value.integer
 					                                                             >> 8*(byte_length - n - 1))
@@ -1305,11 +1304,16 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_vector: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
-				if ((unsigned long) args[0].value.index < 0x100UL) {
+				/* All operands have the width of the widest. */
+				dl_size_t widest = 0;
+				DL_DOTIMES(l, instruction.args.elements_length) {
+					if ((dl_size_t) args[l].value.index > widest) widest = args[l].value.index;
+				}
+				if (widest < 0x100UL) {
 					currentInstruction.byte = duckLisp_instruction_vector8;
 					byte_length = 1;
 				}
-				else if ((unsigned int) args[0].value.index < 0x10000UL) {
+				else if (widest < 0x10000UL) {
 					currentInstruction.byte = duckLisp_instruction_vector16;
 					byte_length = 2;
 				}
@@ -1435,12 +1439,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt16;
 					byte_length = 2;
 				}
@@ -2082,12 +2088,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    && (args[2].type == duckLisp_instructionArgClass_type_index)) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring16;
 					byte_length = 2;
 				}
@@ -2132,21 +2140,22 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			break;
 		}
 		case duckLisp_instructionClass_releaseUpvalues: {
-			byte_length = 1;
+			/* The count and the upvalues have the width of the widest. */
+			dl_size_t widest = instruction.args.elements_length;
 			DL_DOTIMES(k, instruction.args.elements_length) {
-				dl_size_t arg = args[k].value.integer;
-				if (arg < 0x00000100UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
-					byte_length = 1;
-				}
-				else if (arg < 0x00010000UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
-					byte_length = 2;
-				}
-				else {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
-					byte_length = 4;
-				}
+				if ((dl_size_t) args[k].value.integer > widest) widest = args[k].value.integer;
+			}
+			if (widest < 0x00000100UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
+				byte_length = 1;
+			}
+			else if (widest < 0x00010000UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
+				byte_length = 2;
+			}
+			else {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
+				byte_length = 4;
 			}
 			dl_ptrdiff_t index = 0;
 			// Number of upvalues
@@ -2906,8 +2915,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
 		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
-		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 1 2")},
-		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 1 4")},
+		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
+		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
 		{duckLisp_instruction_setGlobal8, DL_STR("set-global.8 1 1")},
 		{duckLisp_instruction_setGlobal16, DL_STR("set-global.16 2 2")},
 		{duckLisp_instruction_setGlobal32, DL_STR("set-global.32 4 4")},
diff --git a/duckVM.c b/duckVM.c
index 884f69d..209f1bb 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1302,6 +1302,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_releaseUpvalues16:
 	case duckLisp_instruction_releaseUpvalues8:
 		size1 = *(ip++);
+		switch (opcode) {
+		case duckLisp_instruction_releaseUpvalues32:
+			size1 = *(ip++) + (size1 << 8);
+			size1 = *(ip++) + (size1 << 8);
+			/* Fall through */
+		case duckLisp_instruction_releaseUpvalues16:
+			size1 = *(ip++) + (size1 << 8);
+			/* Fall through */
+		default:
+			break;
+		}
 
 		DL_DOTIMES(k, size1) {
 			ptrdiff1 = *(ip++);
@@ -1346,6 +1357,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 	case duckLisp_instruction_setUpvalue32:
 		ptrdiff1 = *(ip++);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
@@ -1355,6 +1369,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_setUpvalue16:
 		if (!parsedBytecode) {
 			ptrdiff1 = *(ip++);
+			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 			parsedBytecode = dl_true;
-- 
2.43.0


From 080db7bf4930f1e01e556767344110936e1ec6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 40/68] fix: freeing a stale pointer never frees the pool
 allocator's table

---
 DuckLib/memory.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 4edb1e9..9f8d97f 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -351,7 +351,10 @@ dl_error_t dl_memory_pointerToBlock(dl_memoryAllocation_t memoryAllocation, dl_p
 	
 	*block = -1;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < memoryAllocation.blockList_length; i++) {
-		if (!memoryAllocation.blockList[i].unlinked && (memoryAllocation.blockList[i].block == *memory)) {
+		/* The block list isn't the user's to free, and may have moved to where a block used to be. */
+		if (!memoryAllocation.blockList[i].unlinked
+		    && (i != memoryAllocation.blockList_indexOfBlockList)
+		    && (memoryAllocation.blockList[i].block == *memory)) {
 			*block = i;
 		}
 	}
-- 
2.43.0


From 2174989de383043b338bb498b499018a6676f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 41/68] fix: huge requests to the pool allocator fail instead
 of wrapping around

---
 DuckLib/memory.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 9f8d97f..74f3ab5 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -754,6 +754,12 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 		goto cleanup;
 	}
 
+	if (size > memoryAllocation->size) {
+		/* Rounding up could overflow. */
+		error = dl_error_outOfMemory;
+		goto cleanup;
+	}
+
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
@@ -846,6 +852,12 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 	
+	if (size > memoryAllocation->size) {
+		/* Rounding up could overflow. */
+		error = dl_error_outOfMemory;
+		goto l_cleanup;
+	}
+
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 	
 	error = dl_memory_pointerToBlock(*memoryAllocation, &currentBlock, memory);
-- 
2.43.0


From 270b591996f2f7541cf1f28697e45eb655b2e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 42/68] fix: unlinked descriptors don't count as used memory

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 74f3ab5..bd60f07 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -951,7 +951,7 @@ void dl_memory_usage(dl_size_t *bytes, const dl_memoryAllocation_t memoryAllocat
 	const dl_size_t blockList_length = memoryAllocation.blockList_length;
 	dl_size_t sum = 0;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < blockList_length; i++) {
-		if (blockList[i].allocated) {
+		if (!blockList[i].unlinked && blockList[i].allocated) {
 			sum += blockList[i].block_size;
 		}
 	}
-- 
2.43.0


From 89b4036c034c508fbaf9c0c05f36c531635dbd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 43/68] fix: a script executed by a callback returns to the
 callback

---
 duckVM.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 209f1bb..c5bf0ee 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4873,7 +4873,27 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 }
 
 dl_error_t duckVM_execute(duckVM_t *duckVM, dl_uint8_t *bytecode, dl_size_t bytecode_length) {
-	return duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	dl_error_t e = dl_error_ok;
+
+	/* Callbacks can execute code. The script has to return to its caller instead of to the code that called the
+	   callback, and that code has to stay a GC root. */
+	dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
+	dl_size_t callStack_length = duckVM->call_stack.elements_length;
+	if (duckVM->currentBytecode != dl_null) {
+		e = call_stack_push(duckVM, shim_bytecode, duckVM->currentBytecode, dl_null);
+		if (e) goto cleanup;
+	}
+	e = duckVM_executeWithIp(duckVM, bytecode, 0, bytecode_length);
+	if (e) goto cleanup;
+	if (duckVM->call_stack.elements_length > callStack_length) {
+		/* The script halted instead of returning. */
+		dl_uint8_t *ip = dl_null;
+		duckVM_object_t *bytecodeObject = dl_null;
+		e = call_stack_pop(duckVM, &ip, &bytecodeObject);
+		if (e) goto cleanup;
+	}
+
+ cleanup: return e;
 }
 
 dl_error_t duckVM_linkCFunction(duckVM_t *duckVM, dl_ptrdiff_t key, dl_error_t (*callback)(duckVM_t *)) {
-- 
2.43.0


From 74bde78c516343c3cea31beade9f4f0969e6b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 44/68] fix: a nameless symbol has a name of length zero

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index c5bf0ee..9866c13 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6135,7 +6135,7 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		}
 		else {
 			*name = dl_null;
-			name_length = 0;
+			*name_length = 0;
 			/* OK: This is symbol "compression". */
 		}
 	} while (0);
-- 
2.43.0


From 5f76c9d127b9aa1594a4c40945aa5ff717e07ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 45/68] fix: keep the parts of a list rooted while it is made
 from an AST

---
 duckLisp.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 5878e38..21941ad 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -854,6 +854,11 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 	case duckLisp_ast_type_literalExpression: {
 		duckVM_object_t *tailPointer = dl_null;
 		DL_DOTIMES(j, ast.value.expression.compoundExpressions_length) {
+			/* Allocation can collect garbage, so everything that is incomplete stays on the stack. */
+			duckVM_object_t list = duckVM_object_makeList(tailPointer);
+			e = duckVM_object_push(duckVM, &list);
+			if (e) break;
+			/* stack: tail */
 			duckVM_object_t head;
 			e = duckLisp_astToObject(duckLisp,
 			                         duckVM,
@@ -863,12 +868,26 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 			                           - 1
 			                           - j]));
 			if (e) break;
+			e = duckVM_object_push(duckVM, &head);
+			if (e) break;
+			/* stack: tail head */
 			duckVM_object_t *headPointer;
 			e = duckVM_allocateHeapObject(duckVM, &headPointer, head);
 			if (e) break;
+			e = duckVM_object_pop(duckVM, dl_null);
+			if (e) break;
+			list = duckVM_object_makeList(headPointer);
+			e = duckVM_object_push(duckVM, &list);
+			if (e) break;
+			/* stack: tail headPointer */
 			duckVM_object_t tail = duckVM_object_makeCons(headPointer, tailPointer);
 			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
 			if (e) break;
+			e = duckVM_object_pop(duckVM, dl_null);
+			if (e) break;
+			e = duckVM_object_pop(duckVM, dl_null);
+			if (e) break;
+			/* stack: _ */
 		}
 		object->type = duckVM_object_type_list;
 		object->value.list = tailPointer;
-- 
2.43.0


From 8e857b2b6fac46e6a0b014953eddf7ae330f42ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 46/68] fix: symbols without names cannot become source code

---
 duckLisp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 21941ad..f53f6a1 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -809,6 +809,12 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		}
 		break;
 	case duckVM_object_type_symbol:
+		if (object->value.symbol.internalString == dl_null) {
+			e = dl_error_invalidValue;
+			eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("objectToAST: Symbol has no name."));
+			if (eError) e = eError;
+			break;
+		}
 		ast->value.identifier.value_length = object->value.symbol.internalString->value.internalString.value_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &ast->value.identifier.value,
-- 
2.43.0


From 5d32f242accd9c57cca1dda56ab2872739023e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 47/68] fix: a compiler that failed to initialize can be torn
 down

---
 duckLisp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckLisp.c b/duckLisp.c
index f53f6a1..0270f0c 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -1655,7 +1655,7 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 	dl_error_t error = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 	dl_array_t eString;
-	(void) dl_array_init(&eString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
+	(void) dl_array_init(&eString, memoryAllocation, sizeof(char), dl_array_strategy_double);
 
 	/* All language-defined generators go here. */
 	struct {
@@ -1979,6 +1979,8 @@ dl_error_t duckLisp_init(duckLisp_t *duckLisp,
 	duckLisp->datalog.pushpop_instructions_removed = 0;
 #endif /* USE_DATALOGGING */
 
+	/* If initialization fails before it gets to the VM, then `duckLisp_quit` still has to work. */
+	(void) dl_memclear(&duckLisp->vm, sizeof(duckVM_t));
 	/* No error */ dl_array_init(&duckLisp->errors,
 	                             duckLisp->memoryAllocation,
 	                             sizeof(dl_uint8_t),
-- 
2.43.0


From 39df913d7518d945c756b52b4139ab37c4b89092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 48/68] fix: floats are read within their bounds, in bounded
 time and with their sign

---
 DuckLib/string.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index de6bcea..fc09d2f 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -251,11 +251,19 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	dl_ptrdiff_t index = 0;
 	dl_bool_t tempBool;
 	dl_bool_t negative = dl_false;
+	double place = 1;
 	dl_ptrdiff_t power = 0;
+	/* Past this, every number has become zero or infinity. */
+	const dl_ptrdiff_t maxPower = 10000;
 	dl_bool_t power_negative = dl_false;
 
 	*result = 0.0;
 
+	if ((dl_size_t) index >= string_length) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	if (string[index] == '-') {
 		index++;
 
@@ -276,19 +284,19 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		power = 10;
+		place = 10;
 
 		if (!dl_string_isDigit(string[index])) {
 			e = dl_error_invalidValue;
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / (double) power;
+		*result += (double) (string[index] - '0') / place;
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			place = 10 * place;
 
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
@@ -296,7 +304,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / place;
 			index++;
 		}
 	}
@@ -324,34 +332,28 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 		}
 
-		if (string[index] == '.') {
+		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
+			// Nothing has to follow the decimal point. 1. 234.e61  435. for example.
 			index++;
 
-			if ((dl_size_t) index >= string_length) {
-				// eError = duckLisp_error_push(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				// This is expected. 1. 234.e61  435. for example.
-				goto cleanup;
-			}
-
-			power = 1;
+			place = 1;
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			place = 10 * place;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / place;
 
 			index++;
 		}
 	}
 
 	// …e3
-	if (dl_string_toLower(string[index]) == 'e') {
+	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
 		index++;
 
 		if ((dl_size_t) index >= string_length) {
@@ -386,6 +388,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			}
 
 			power = power * 10 + string[index] - '0';
+			if (power > maxPower) power = maxPower;
 
 			index++;
 		}
-- 
2.43.0


From 2880f59e26f0f5ac4f27004e4566fcf57f9889d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 49/68] fix: parenthesis inference cleans up after errors

---
 parenthesis-inferrer.c | 280 +++++++++++++++++++++--------------------
 1 file changed, 146 insertions(+), 134 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index dfd82d8..cd945fc 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -742,6 +742,8 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 		                     sizeof(inferrerTypeSignature_t),
 		                     dl_array_strategy_double);
 		dl_bool_t variadic = dl_false;
+		inferrerTypeSignature_t *restSignature = dl_null;
+		dl_ptrdiff_t defaultRestLength = 0;
 		dl_ptrdiff_t variadic_arg = 0;
 		DL_DOTIMES(j, expression.compoundExpressions_length) {
 			if (variadic_arg == 1) {
@@ -752,20 +754,18 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 					if (eError) e = eError;
 					goto expressionCleanup;
 				}
-				inferrerTypeSignature->value.expression.defaultRestLength = (expression.compoundExpressions[j]
-				                                                             .value.integer.value);
+				defaultRestLength = expression.compoundExpressions[j].value.integer.value;
 				continue;
 			}
 			if (variadic_arg == 2) {
 				variadic_arg++;
+				(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 				e = inferrerTypeSignature_fromAst(state, &subInferrerTypeSignature, expression.compoundExpressions[j]);
 				if (e) goto expressionCleanup;
-				e = DL_MALLOC(state->memoryAllocation,
-				              &inferrerTypeSignature->value.expression.restSignature,
-				              1,
-				              inferrerTypeSignature_t);
+				e = DL_MALLOC(state->memoryAllocation, &restSignature, 1, inferrerTypeSignature_t);
 				if (e) goto expressionCleanup;
-				*inferrerTypeSignature->value.expression.restSignature = subInferrerTypeSignature;
+				*restSignature = subInferrerTypeSignature;
+				(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 				continue;
 			}
 			if ((expression.compoundExpressions[j].type == duckLisp_ast_type_identifier)
@@ -795,10 +795,13 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 					continue;
 				}
 			}
+			(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 			e = inferrerTypeSignature_fromAst(state, &subInferrerTypeSignature, expression.compoundExpressions[j]);
 			if (e) goto expressionCleanup;
 			e = dl_array_pushElement(&subInferrerTypeSignaturesArray, &subInferrerTypeSignature);
 			if (e) goto expressionCleanup;
+			/* The array owns it now. */
+			(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 		}
 
 		inferrerTypeSignature->type = inferrerTypeSignature_type_expression;
@@ -806,8 +809,17 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 		(inferrerTypeSignature
 		 ->value.expression.positionalSignatures_length) = subInferrerTypeSignaturesArray.elements_length;
 		inferrerTypeSignature->value.expression.variadic = variadic;
+		inferrerTypeSignature->value.expression.restSignature = restSignature;
+		inferrerTypeSignature->value.expression.defaultRestLength = defaultRestLength;
 		expressionCleanup:
 		if (e) {
+			DL_DOTIMES(j, subInferrerTypeSignaturesArray.elements_length) {
+				eError = inferrerTypeSignature_quit(&DL_ARRAY_GETADDRESS(subInferrerTypeSignaturesArray,
+				                                                         inferrerTypeSignature_t,
+				                                                         j),
+				                                    state->memoryAllocation);
+				if (eError) e = eError;
+			}
 			eError = dl_array_quit(&subInferrerTypeSignaturesArray);
 			if (eError) e = eError;
 			eError = inferrerTypeSignature_quit(&subInferrerTypeSignature, state->memoryAllocation);
@@ -831,12 +843,7 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 		goto cleanup;
 	}
 
- cleanup:
-	if (e) {
-		eError = inferrerTypeSignature_quit(inferrerTypeSignature, state->memoryAllocation);
-		if (eError) e = eError;
-	}
-	return e;
+ cleanup: return e;
 }
 
 static void inferrerType_init(inferrerType_t *inferrerType) {
@@ -881,7 +888,7 @@ static dl_error_t inferrerState_init(inferrerState_t *inferrerState,
 	dl_error_t e = dl_error_ok;
 
 	dl_array_t *inferrerContext = dl_null;
-	e = DL_MALLOC(memoryAllocation, &inferrerContext, 1, vmContext_t);
+	e = DL_MALLOC(memoryAllocation, &inferrerContext, 1, dl_array_t);
 	if (e) goto cleanup;
 	(void) dl_array_init(inferrerContext,
 	                     memoryAllocation,
@@ -889,9 +896,9 @@ static dl_error_t inferrerState_init(inferrerState_t *inferrerState,
 	                     dl_array_strategy_double);
 	inferrerState->memoryAllocation = memoryAllocation;
 	e = duckLisp_init(&inferrerState->duckLisp, memoryAllocation, maxComptimeVmObjects, maxComptimeVmObjects);
-	if (e) goto cleanup;
+	if (e) goto duckLispCleanup;
 	e = duckVM_init(&inferrerState->duckVM, memoryAllocation, maxComptimeVmObjects);
-	if (e) goto cleanup;
+	if (e) goto duckVMCleanup;
 	inferrerState->duckVM.inferrerContext = inferrerContext;
 	inferrerState->errors = errors;
 	inferrerState->log = log;
@@ -901,7 +908,13 @@ static dl_error_t inferrerState_init(inferrerState_t *inferrerState,
 	                     memoryAllocation,
 	                     sizeof(inferrerScope_t),
 	                     dl_array_strategy_double);
+	goto cleanup;
 
+ duckVMCleanup:
+	(void) duckVM_quit(&inferrerState->duckVM);
+ duckLispCleanup:
+	(void) duckLisp_quit(&inferrerState->duckLisp);
+	(void) DL_FREE(memoryAllocation, &inferrerContext);
  cleanup: return e;
 }
 
@@ -987,15 +1000,19 @@ static dl_error_t addDeclaration(inferrerState_t *state,
 	dl_error_t eError = dl_error_ok;
 
 	inferrerType_t type;
-	inferrerScope_t scope;
+	inferrerScope_t *scope = dl_null;
 	(void) inferrerType_init(&type);
 
-	e = popDeclarationScope(state, &scope);
-	if (e) goto cleanup;
-
+	/* The type owns the bytecode. */
 	type.bytecode = bytecode;
 	type.bytecode_length = bytecode_length;
 
+	if (state->scopeStack.elements_length == 0) {
+		e = dl_error_bufferUnderflow;
+		goto cleanup;
+	}
+	scope = &DL_ARRAY_GETTOPADDRESS(state->scopeStack, inferrerScope_t);
+
 	e = inferrerTypeSignature_fromAst(state, &type.type, typeAst);
 	if (e) goto cleanup;
 	if ((type.type.type == inferrerTypeSignature_type_symbol) && (bytecode_length > 0)) {
@@ -1007,15 +1024,19 @@ static dl_error_t addDeclaration(inferrerState_t *state,
 		goto cleanup;
 	}
 
-	e = dl_trie_insert(&scope.identifiersTrie, name, name_length, scope.types.elements_length);
+	e = dl_array_pushElement(&scope->types, &type);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&scope.types, &type);
-	if (e) goto cleanup;
-
-	e = pushDeclarationScope(state, &scope);
+	/* The scope owns the type. */
+	(void) inferrerType_init(&type);
+	e = dl_trie_insert(&scope->identifiersTrie, name, name_length, scope->types.elements_length - 1);
 	if (e) goto cleanup;
 
- cleanup: return e;
+ cleanup:
+	if (e) {
+		eError = inferrerType_quit(&type, state->memoryAllocation);
+		if (eError) e = eError;
+	}
+	return e;
 }
 
 static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
@@ -1033,14 +1054,23 @@ static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
 	dl_size_t bytecode_length = 0;
 
 	if (scriptAst.type != duckLisp_ast_type_none) {
+		dl_error_t eError = dl_error_ok;
 		dl_array_t bytecodeArray;
 		duckLisp_compileState_t compileState;
+		const dl_size_t comptimeStack_length = state->duckLisp.vm.stack.elements_length;
+		const dl_size_t comptimeCallStack_length = state->duckLisp.vm.call_stack.elements_length;
 
+		(void) dl_array_init(&bytecodeArray, state->memoryAllocation, sizeof(dl_uint8_t), dl_array_strategy_double);
 		(void) duckLisp_compileState_init(&state->duckLisp, &compileState);
+		compileState.comptimeCompileState.locals_length = comptimeStack_length;
 		e = duckLisp_compileAST(&state->duckLisp, &compileState, &bytecodeArray, scriptAst, dl_false);
-		if (e) goto cleanup;
-		e = duckLisp_compileState_quit(&state->duckLisp, &compileState);
-		if (e) goto cleanup;
+		eError = duckVM_unwind(&state->duckLisp.vm, comptimeStack_length, comptimeCallStack_length);
+		if (eError) e = eError;
+		if (e) {
+			eError = dl_array_quit(&bytecodeArray);
+			if (eError) e = eError;
+			goto cleanup;
+		}
 
 		bytecode = bytecodeArray.elements;
 		bytecode_length = bytecodeArray.elements_length;
@@ -1388,7 +1418,7 @@ static dl_error_t inferArgument(inferrerState_t *state,
 					          &newLength,
 					          parenthesized,
 					          infer);
-					if (e) goto cleanup;
+					if (e) goto expressionCleanup;
 				}
 
 				/* This part does whatever inference the script didn't do. */
@@ -1718,7 +1748,11 @@ static dl_error_t callback_declareIdentifier(duckVM_t *vm) {
 
 	duckLisp_ast_compoundExpression_t typeAst;
 	e = duckLisp_objectToAST(&state->duckLisp, &typeAst, &typeObject, dl_true);
-	if (e) goto cleanup;
+	if (e) {
+		eError = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &typeAst);
+		if (eError) e = eError;
+		goto cleanup;
+	}
 
 	{
 		/* stack: identifier */
@@ -1726,24 +1760,23 @@ static dl_error_t callback_declareIdentifier(duckVM_t *vm) {
 		dl_size_t length = 0;
 		if (identifierObject_type == duckVM_object_type_symbol) {
 			e = duckVM_copySymbolName(vm, &string, &length);
-			if (e) goto cleanup;
 		}
 		else {
 			e = duckVM_copyString(vm, &string, &length);
-			if (e) goto cleanup;
 		}
 		/* stack: identifier */
-		e = duckVM_pop(vm);
-		if (e) goto cleanup;
+		if (!e) e = duckVM_pop(vm);
 		/* stack: _ */
-		e = addDeclaration(state, string, length, typeAst, dl_null, 0);
-		if (e) goto cleanup;
-		e = DL_FREE(vm->memoryAllocation, &string);
-		if (e) goto cleanup;
+		if (!e) e = addDeclaration(state, string, length, typeAst, dl_null, 0);
+		if (string != dl_null) {
+			eError = DL_FREE(vm->memoryAllocation, &string);
+			if (eError) e = eError;
+		}
 	}
 	/* stack: _ */
 
-	e = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &typeAst);
+	eError = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &typeAst);
+	if (eError) e = eError;
 	if (e) goto cleanup;
 
 	e = duckVM_pushNil(vm);
@@ -1929,6 +1962,61 @@ static dl_error_t generator_declarationScope(duckLisp_t *duckLisp,
 }
 
 
+static dl_error_t readAndAddDeclaration(inferrerState_t *state,
+                                        const dl_uint8_t *fileName,
+                                        const dl_size_t fileName_length,
+                                        const dl_uint8_t *name,
+                                        const dl_size_t name_length,
+                                        const dl_uint8_t *type,
+                                        const dl_size_t type_length,
+                                        const dl_uint8_t *script,
+                                        const dl_size_t script_length) {
+	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+
+	duckLisp_ast_compoundExpression_t typeAst;
+	duckLisp_ast_compoundExpression_t scriptAst;
+	(void) duckLisp_ast_compoundExpression_init(&typeAst);
+	(void) duckLisp_ast_compoundExpression_init(&scriptAst);
+
+	e = duckLisp_read(&state->duckLisp,
+	                  dl_false,
+	                  0,
+	                  dl_null,
+	                  DL_STR("<INFERRER>"),
+	                  type,
+	                  type_length,
+	                  &typeAst,
+	                  0,
+	                  dl_true);
+	if (e) goto cleanup;
+
+	if (script_length > 0) {
+		e = duckLisp_read(&state->duckLisp,
+		                  dl_false,
+		                  0,
+		                  dl_null,
+		                  DL_STR("<INFERRER>"),
+		                  script,
+		                  script_length,
+		                  &scriptAst,
+		                  0,
+		                  dl_true);
+		if (e) goto cleanup;
+	}
+
+	e = compileAndAddDeclaration(state, fileName, fileName_length, name, name_length, typeAst, scriptAst);
+	if (e) goto cleanup;
+
+ cleanup:
+	eError = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &typeAst);
+	if (eError) e = eError;
+	eError = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &scriptAst);
+	if (eError) e = eError;
+	return e;
+}
+
+
 dl_error_t duckLisp_inferParentheses(dl_memoryAllocation_t *memoryAllocation,
                                      const dl_size_t maxComptimeVmObjects,
                                      dl_array_t *errors,
@@ -2004,105 +2092,33 @@ dl_error_t duckLisp_inferParentheses(dl_memoryAllocation_t *memoryAllocation,
 			{DL_STR("__declaration-scope"),           DL_STR("(&rest 1 I)"),     dl_null, 0},
 			{DL_STR("declaration-scope"),             DL_STR("(&rest 1 I)"),     dl_null, 0}};
 		DL_DOTIMES(i, sizeof(declarations)/sizeof(*declarations)) {
-			duckLisp_ast_compoundExpression_t typeAst;
-			duckLisp_ast_compoundExpression_t scriptAst;
-			(void) duckLisp_ast_compoundExpression_init(&typeAst);
-			(void) duckLisp_ast_compoundExpression_init(&scriptAst);
-
-			e = duckLisp_read(&state.duckLisp,
-			                  dl_false,
-			                  0,
-			                  dl_null,
-			                  DL_STR("<INFERRER>"),
-			                  declarations[i].type,
-			                  declarations[i].type_length,
-			                  &typeAst,
-			                  0,
-			                  dl_true);
-			if (e) goto cleanup;
-
-			if (declarations[i].script_length > 0) {
-				e = duckLisp_read(&state.duckLisp,
-				                  dl_false,
-				                  0,
-				                  dl_null,
-				                  DL_STR("<INFERRER>"),
-				                  declarations[i].script,
-				                  declarations[i].script_length,
-				                  &scriptAst,
-				                  0,
-				                  dl_true);
-				if (e) goto cleanup;
-			}
-
-			e = compileAndAddDeclaration(&state,
-			                             fileName,
-			                             fileName_length,
-			                             declarations[i].name,
-			                             declarations[i].name_length,
-			                             typeAst,
-			                             scriptAst);
-			if (e) goto cleanup;
-
-			e = duckLisp_ast_compoundExpression_quit(memoryAllocation, &typeAst);
+			e = readAndAddDeclaration(&state,
+			                          fileName,
+			                          fileName_length,
+			                          declarations[i].name,
+			                          declarations[i].name_length,
+			                          declarations[i].type,
+			                          declarations[i].type_length,
+			                          declarations[i].script,
+			                          declarations[i].script_length);
 			if (e) goto cleanup;
-			if (scriptAst.type != duckLisp_ast_type_none) {
-				e = duckLisp_ast_compoundExpression_quit(memoryAllocation, &scriptAst);
-				if (e) goto cleanup;
-			}
 		}
 		if (externalDeclarations) {
 			DL_DOTIMES(i, externalDeclarations->elements_length) {
 				duckLisp_parenthesisInferrer_declarationPrototype_t prototype;
-				duckLisp_ast_compoundExpression_t typeAst;
-				duckLisp_ast_compoundExpression_t scriptAst;
-				(void) duckLisp_ast_compoundExpression_init(&typeAst);
-				(void) duckLisp_ast_compoundExpression_init(&scriptAst);
-
 				e = dl_array_get(externalDeclarations, &prototype, i);
 				if (e) goto cleanup;
 
-				e = duckLisp_read(&state.duckLisp,
-				                  dl_false,
-				                  0,
-				                  dl_null,
-				                  DL_STR("<INFERRER>"),
-				                  prototype.type,
-				                  prototype.type_length,
-				                  &typeAst,
-				                  0,
-				                  dl_true);
+				e = readAndAddDeclaration(&state,
+				                          fileName,
+				                          fileName_length,
+				                          prototype.name,
+				                          prototype.name_length,
+				                          prototype.type,
+				                          prototype.type_length,
+				                          prototype.script,
+				                          prototype.script_length);
 				if (e) goto cleanup;
-
-				if (prototype.script_length > 0) {
-					e = duckLisp_read(&state.duckLisp,
-					                  dl_false,
-					                  0,
-					                  dl_null,
-					                  DL_STR("<INFERRER>"),
-					                  prototype.script,
-					                  prototype.script_length,
-					                  &scriptAst,
-					                  0,
-					                  dl_true);
-					if (e) goto cleanup;
-				}
-
-				e = compileAndAddDeclaration(&state,
-				                             fileName,
-				                             fileName_length,
-				                             prototype.name,
-				                             prototype.name_length,
-				                             typeAst,
-				                             scriptAst);
-				if (e) goto cleanup;
-
-				e = duckLisp_ast_compoundExpression_quit(memoryAllocation, &typeAst);
-				if (e) goto cleanup;
-				if (scriptAst.type != duckLisp_ast_type_none) {
-					e = duckLisp_ast_compoundExpression_quit(memoryAllocation, &scriptAst);
-					if (e) goto cleanup;
-				}
 			}
 		}
 	}
@@ -2114,12 +2130,8 @@ dl_error_t duckLisp_inferParentheses(dl_memoryAllocation_t *memoryAllocation,
  cleanup:
 	eError = dl_array_pushElements(errors, state.duckLisp.errors.elements, state.duckLisp.errors.elements_length);
 	if (eError) e = eError;
-	state.duckLisp.errors.elements = dl_null;
-	state.duckLisp.errors.elements_length = 0;
 	eError = dl_array_pushElements(errors, state.duckVM.errors.elements, state.duckVM.errors.elements_length);
 	if (eError) e = eError;
-	state.duckVM.errors.elements = dl_null;
-	state.duckVM.errors.elements_length = 0;
 
 	eError = inferrerState_quit(&state);
 	if (eError) e = eError;
-- 
2.43.0


From 213e313d0ddc50c7e905834a35ce5d880580705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 50/68] fix: literal expressions keep the type of a head that
 is not a callback when parentheses are inferred

---
 parenthesis-inferrer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index cd945fc..97233b2 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1595,8 +1595,10 @@ static dl_error_t infer_expression(inferrerState_t *state,
 
 	if (compoundExpression->type == duckLisp_ast_type_literalExpression) {
 		/* Don't type-check. */
-		e = infer_callback(state, head, dl_false);
-		if (e) goto cleanup;
+		if (head->type == duckLisp_ast_type_callback) {
+			e = infer_callback(state, head, dl_false);
+			if (e) goto cleanup;
+		}
 		/* Run argument inference */
 
 		e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
-- 
2.43.0


From 837f1edbe7406868ad39fcce23b64b0937d3c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 51/68] fix: duckVM_pushFirst and duckVM_pushRest push nothing
 when they fail, and the rest of one element is empty

---
 duckVM.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 9866c13..b61e11a 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6570,6 +6570,7 @@ dl_error_t duckVM_pushFirst(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &first);
 		if (e) break;
 	} while (0);
@@ -6634,13 +6635,19 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = vector.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length) {
+			if ((vector.internal_vector == dl_null)
+			    || ((dl_size_t) offset > vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                             DL_STR("duckVM_pushRest: Vector is empty."));
 				if (eError) e = eError;
 				break;
 			}
+			if ((dl_size_t) offset == vector.internal_vector->value.internal_vector.length) {
+				/* Nothing is left. */
+				rest.value.vector.internal_vector = dl_null;
+				offset = 0;
+			}
 			rest.value.vector.offset = offset;
 			break;
 		}
@@ -6649,13 +6656,19 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = string.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= string.length) {
+			if ((dl_size_t) offset > string.length) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_pushRest: String is empty."));
 				if (eError) e = eError;
 				break;
 			}
+			if ((dl_size_t) offset == string.length) {
+				/* Nothing is left. */
+				rest.value.string.internalString = dl_null;
+				rest.value.string.length = 0;
+				offset = 0;
+			}
 			rest.value.string.offset = offset;
 			break;
 		}
@@ -6674,6 +6687,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &rest);
 		if (e) break;
 	} while (0);
-- 
2.43.0


From a73abf8d88e209c616cd17f711a68f549a77f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 52/68] fix: elements of strings are read within bounds and
 from where a slice starts

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index b61e11a..758d7ff 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5329,7 +5329,10 @@ dl_error_t duckVM_string_getElement(duckVM_string_t string, dl_uint8_t *byte, dl
 	duckVM_internalString_t internalString;
 	dl_error_t e = duckVM_string_getInternalString(string, &internalString);
 	if (e) return e;
-	*byte = internalString.value[index];
+	if ((index < 0) || ((dl_size_t) index >= string.length - string.offset)) {
+		return dl_error_invalidValue;
+	}
+	*byte = internalString.value[string.offset + index];
 	return e;
 }
 
-- 
2.43.0


From 837d931a56786a9b1424087720c42e55db7ab4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 53/68] fix: the host reads and writes upvalues of closures
 within bounds

---
 duckVM.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 758d7ff..b93f22d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5381,6 +5381,9 @@ dl_error_t duckVM_closure_getUpvalue(duckVM_t *duckVM,
 		return dl_error_invalidValue;
 	}
 	duckVM_upvalueArray_t upvalueArray = upvalueArrayObject->value.upvalue_array;
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) {
+		return dl_error_invalidValue;
+	}
 	return duckVM_upvalueArray_getUpvalue(duckVM, upvalueArray, object, index);
 }
 
@@ -5398,6 +5401,9 @@ dl_error_t duckVM_closure_setUpvalue(duckVM_t *duckVM,
 		return dl_error_invalidValue;
 	}
 	duckVM_upvalueArray_t upvalueArray = upvalueArrayObject->value.upvalue_array;
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) {
+		return dl_error_invalidValue;
+	}
 	return duckVM_upvalueArray_setUpvalue(duckVM, upvalueArray, object, index);
 }
 
-- 
2.43.0


From d0124f48ca73ed45da1d9ace775f7897e7e65e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 54/68] fix: duckVM_pushElement pushes the element of a list
 and fails past its end

---
 duckVM.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index b93f22d..7e6340d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6868,24 +6868,24 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		case duckVM_object_type_list: {
 			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
-				if (element_pointer) {
-					if (duckVM_object_type_cons == element_pointer->type) {
-						element_pointer = element_pointer->value.cons.cdr;
-					}
-					else {
-						e = dl_error_invalidValue;
-						eError = duckVM_error_pushRuntime(duckVM,
-						                                  DL_STR("duckVM_pushElement: Ran out of elements in improper list."));
-						if (eError) e = eError;
-						break;
-					}
-				}
-				else {
-					break;
-				}
+				if ((element_pointer == dl_null) || (duckVM_object_type_cons != element_pointer->type)) break;
+				element_pointer = element_pointer->value.cons.cdr;
+			}
+			if ((sequence_index < 0)
+			    || (element_pointer == dl_null)
+			    || (duckVM_object_type_cons != element_pointer->type)) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_pushElement: Ran out of elements in list."));
+				if (eError) e = eError;
+				break;
+			}
+			element_pointer = element_pointer->value.cons.car;
+			if ((element_pointer == dl_null) || (duckVM_object_type_cons == element_pointer->type)) {
+				element = duckVM_object_makeList(element_pointer);
+			}
+			else {
+				element = *element_pointer;
 			}
-			if (e) break;
-			element = *element_pointer;
 			break;
 		}
 		case duckVM_object_type_vector: {
-- 
2.43.0


From bef780932d7dcf9d89c751586c56729c1ed35faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 55/68] fix: duckVM_setElement sets the element of a list that
 was asked for and fails on what has no elements

---
 duckVM.c | 56 ++++++++------------------------------------------------
 1 file changed, 8 insertions(+), 48 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 7e6340d..a4e0c7b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6947,61 +6947,20 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_list_t list = sequence.value.list;
-			if (list) {
-				list->value.cons.car = value_pointer;
-			}
-			else {
-				/* Nil */
-				e = dl_error_invalidValue;
-				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: List is nil."));
-				break;
-			}
-			break;
-			/* This looks like a bug: */ }{
 			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
-				if (element_pointer) {
-					if (duckVM_object_type_cons == element_pointer->type) {
-						element_pointer = element_pointer->value.cons.cdr;
-					}
-					else {
-						e = dl_error_invalidValue;
-						eError = duckVM_error_pushRuntime(duckVM,
-						                                  DL_STR("duckVM_setElement: Ran out of elements in improper list."));
-						if (eError) e = eError;
-						break;
-					}
-				}
-				else {
-					e = dl_error_invalidValue;
-					eError = duckVM_error_pushRuntime(duckVM,
-					                                  DL_STR("duckVM_setElement: Ran out of elements in list."));
-					if (eError) e = eError;
-					break;
-				}
-			}
-			if (e) break;
-			if (element_pointer) {
-				if (duckVM_object_type_cons == element_pointer->type) {
-					element_pointer->value.cons.car = value_pointer;
-				}
-				else {
-					e = dl_error_invalidValue;
-					eError = duckVM_error_pushRuntime(duckVM,
-					                                  DL_STR("duckVM_setElement: Ran out of elements in improper list."));
-					if (eError) e = eError;
-					break;
-				}
+				if ((element_pointer == dl_null) || (duckVM_object_type_cons != element_pointer->type)) break;
+				element_pointer = element_pointer->value.cons.cdr;
 			}
-			else {
+			if ((sequence_index < 0)
+			    || (element_pointer == dl_null)
+			    || (duckVM_object_type_cons != element_pointer->type)) {
 				e = dl_error_invalidValue;
-				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: Ran out of elements in list."));
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_setElement: Ran out of elements in list."));
 				if (eError) e = eError;
 				break;
 			}
+			element_pointer->value.cons.car = (duckVM_object_type_list == value.type) ? value.value.list : value_pointer;
 			break;
 		}
 		case duckVM_object_type_vector: {
@@ -7024,6 +6983,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			break;
 		}
 		default: {
+			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
 			                                  DL_STR("duckVM_setElement: Unsupported object type."));
 			if (eError) e = eError;
-- 
2.43.0


From 0c8fbea59e0ee33fcc11081785d9d53c1151559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 56/68] fix: duckVM_setFirst and duckVM_setRest link lists as
 scripts do

---
 duckVM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index a4e0c7b..8960194 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6732,7 +6732,8 @@ dl_error_t duckVM_setFirst(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
-				list->value.cons.car = value_pointer;
+				/* Lists are referred to by their conses. */
+				list->value.cons.car = (duckVM_object_type_list == value.type) ? value.value.list : value_pointer;
 			}
 			else {
 				/* Nil */
@@ -6804,7 +6805,8 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
-				list->value.cons.cdr = value_pointer;
+				/* Lists are referred to by their conses. */
+				list->value.cons.cdr = (duckVM_object_type_list == value.type) ? value.value.list : value_pointer;
 			}
 			else {
 				e = dl_error_invalidValue;
-- 
2.43.0


From a3101bf6b2cbf0c799639c64b8042aad024ed2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 57/68] fix: the slots of a composite that the host makes
 survive collections

---
 duckVM.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 8960194..2a735f5 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6228,17 +6228,20 @@ dl_error_t duckVM_copyType(duckVM_t *duckVM, dl_size_t *type) {
 dl_error_t duckVM_pushComposite(duckVM_t *duckVM, dl_size_t type) {
 	dl_error_t e = dl_error_ok;
 	do {
-		duckVM_object_t nil;
-		duckVM_object_t *nil_pointer;
+		duckVM_object_t *nil_pointer = dl_null;
 		duckVM_object_t object;
-		nil.type = duckVM_object_type_list;
-		nil.value.list = dl_null;
-		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
-		if (e) break;
-		e = duckVM_object_makeComposite(duckVM, &object, type, nil_pointer, nil_pointer);
+		e = duckVM_object_makeComposite(duckVM, &object, type, dl_null, dl_null);
 		if (e) break;
+		/* The GC has to see the composite while its slots are allocated. */
 		e = duckVM_object_push(duckVM, &object);
 		if (e) break;
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+		if (e) {
+			(void) stack_pop(duckVM, dl_null);
+			break;
+		}
+		object.value.composite->value.internalComposite.value = nil_pointer;
+		object.value.composite->value.internalComposite.function = nil_pointer;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From 07511a76d9584269a24c076d3a80d8a5a3352656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 58/68] fix: duckVM_pushVector makes elements of nil and
 reports its errors

---
 duckVM.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 2a735f5..2fd9492 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6395,6 +6395,7 @@ dl_error_t duckVM_pushCons(duckVM_t *duckVM) {
 /* Push a vector with the specified length onto the stack with each element to nil. */
 dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 	do {
 		duckVM_object_t vector;
 		dl_array_t array;
@@ -6406,15 +6407,22 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 				if (e) break;
 			}
 			if (e) break;
-			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
-			if (e) break;
 			e = duckVM_object_makeVector(duckVM, &vector, array);
 			if (e) break;
+			/* The GC has to see the vector while its elements are allocated. */
 			e = stack_push(duckVM, &vector);
 			if (e) break;
+			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+			if (e) {
+				(void) stack_pop(duckVM, dl_null);
+				break;
+			}
+			DL_DOTIMES(k, length) {
+				vector.value.vector.internal_vector->value.internal_vector.values[k] = nil_pointer;
+			}
 		} while (0);
-		e = dl_array_quit(&array);
-		if (e) break;
+		eError = dl_array_quit(&array);
+		if (!e) e = eError;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From e73be6957cad4b49d81b41691be9cbc312ee0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 59/68] fix: duckVM_setGlobal sets the global

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 2fd9492..8933237 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5015,10 +5015,13 @@ dl_error_t duckVM_pushGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
 
 /* Set the specified global variable to the value of the object on top of the stack. */
 dl_error_t duckVM_setGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
-	duckVM_object_t *object = dl_null;
-	dl_error_t e = stack_getTop(duckVM, object);
+	duckVM_object_t object;
+	duckVM_object_t *heapObject = dl_null;
+	dl_error_t e = stack_getTop(duckVM, &object);
+	if (e) return e;
+	e = duckVM_allocateHeapObject(duckVM, &heapObject, object);
 	if (e) return e;
-	return duckVM_global_set(duckVM, object, key);
+	return duckVM_global_set(duckVM, heapObject, key);
 }
 
 
-- 
2.43.0


From 9b8d4136041bffd2880d834a15a9f1f3a2f650a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 60/68] fix: duckVM_setCompositeFunction takes stack indices
 from both ends

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 8933237..721feac 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6348,7 +6348,7 @@ dl_error_t duckVM_setCompositeFunction(duckVM_t *duckVM, dl_ptrdiff_t stack_inde
 		duckVM_object_t *heap_value = dl_null;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = dl_array_get(&duckVM->stack, &composite, stack_index);
+		e = stack_get(duckVM, &composite, stack_index);
 		if (e) break;
 		if (duckVM_object_type_composite != composite.type) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From ce856ea5ed46779bc9f43560f2d822c2433597ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 61/68] fix: the empty name of a symbol is copied without a
 request for nothing

---
 duckVM.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 721feac..454260c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6140,9 +6140,14 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		if (object.value.symbol.internalString != dl_null) {
 			e = duckVM_symbol_getInternalString(object.value.symbol, &internal_string);
 			if (e) break;
-			e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
-			if (e) break;
-			(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			if (internal_string.value_length) {
+				e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
+				if (e) break;
+				(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			}
+			else {
+				*name = dl_null;
+			}
 			*name_length = internal_string.value_length;
 		}
 		else {
-- 
2.43.0


From 34300fdf9409aea8fdbdfc28df66ccc4ff5bd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 62/68] fix: elements of lists before the first one do not
 exist

---
 duckVM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 454260c..869bb96 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6888,7 +6888,7 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		switch (type) {
 		case duckVM_object_type_list: {
 			duckVM_object_t *element_pointer = sequence.value.list;
-			DL_DOTIMES(k, sequence_index) {
+			for (dl_ptrdiff_t k = 0; k < sequence_index; k++) {
 				if ((element_pointer == dl_null) || (duckVM_object_type_cons != element_pointer->type)) break;
 				element_pointer = element_pointer->value.cons.cdr;
 			}
@@ -6969,7 +6969,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		switch (type) {
 		case duckVM_object_type_list: {
 			duckVM_object_t *element_pointer = sequence.value.list;
-			DL_DOTIMES(k, sequence_index) {
+			for (dl_ptrdiff_t k = 0; k < sequence_index; k++) {
 				if ((element_pointer == dl_null) || (duckVM_object_type_cons != element_pointer->type)) break;
 				element_pointer = element_pointer->value.cons.cdr;
 			}
-- 
2.43.0


From 3a5529c696a6e40e14016654f760c1b81376d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 63/68] fix: the host sees slices of shortened vectors as
 scripts do

---
 duckVM.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 869bb96..bd772df 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5514,7 +5514,8 @@ dl_error_t duckVM_vector_getLength(duckVM_vector_t vector, dl_size_t *length) {
 	duckVM_internalVector_t internalVector;
 	dl_error_t e = duckVM_vector_getInternalVector(vector, &internalVector);
 	if (e) return e;
-	*length = internalVector.length - vector.offset;
+	/* The vector may have been shortened since this slice was made. */
+	*length = ((dl_size_t) vector.offset < internalVector.length) ? internalVector.length - vector.offset : 0;
 	return e;
 }
 
@@ -5692,7 +5693,8 @@ dl_error_t duckVM_isEmptyVector(duckVM_t *duckVM, dl_bool_t *result) {
 	if (object.type == duckVM_object_type_vector) {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -5744,7 +5746,8 @@ dl_error_t duckVM_isEmpty(duckVM_t *duckVM, dl_bool_t *result) {
 	case duckVM_object_type_vector: {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -7050,7 +7053,8 @@ dl_error_t duckVM_length(duckVM_t *duckVM, dl_size_t *length) {
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
 			duckVM_object_t *internal_vector = vector.internal_vector;
-			local_length = (internal_vector
+			local_length = ((internal_vector
+			                 && ((dl_size_t) vector.offset < internal_vector->value.internal_vector.length))
 			                ? (internal_vector->value.internal_vector.length - vector.offset)
 			                : 0);
 			break;
-- 
2.43.0


From a8d788078f205bb8aefc8128da08f8658e147934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 64/68] fix: a funcall without a function is a syntax error

The argument count wasn't checked, so the compiler read the element after the end of the
expression.
---
 generators.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generators.c b/generators.c
index 90af1d1..90bb206 100644
--- a/generators.c
+++ b/generators.c
@@ -3318,6 +3318,10 @@ dl_error_t duckLisp_generator_funcall2(duckLisp_t *duckLisp,
 	dl_ptrdiff_t innerStartStack_length;
 	dl_ptrdiff_t outerStartStack_length;
 
+	/* At least the function has to be there. */
+	e = duckLisp_checkArgsAndReportError(duckLisp, *expression, 2, dl_true);
+	if (e) goto cleanup;
+
 	e = duckLisp_compile_compoundExpression(duckLisp,
 	                                        compileState,
 	                                        assembly,
-- 
2.43.0


From 3026709d1ad93455f2dac9b95438c105d34c2e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 65/68] fix: listings of bytecode follow its layout and don't
 leak

The elements of vectors are as wide as the instruction, and stripped symbols have no name, so the
listing read past the end of the bytecode or rejected it. A listing that couldn't be finished or
kept was lost.
---
 assembler.c  | 20 ++++++++++++--------
 generators.c | 27 ++++++++++++++++++---------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/assembler.c b/assembler.c
index b6164a1..e42741d 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2890,9 +2890,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushSymbol8, DL_STR("symbol.8 1 1 s1")},
 		{duckLisp_instruction_pushSymbol16, DL_STR("symbol.16 2 2 s1")},
 		{duckLisp_instruction_pushSymbol32, DL_STR("symbol.32 4 4 s1")},
-		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1 1 s1")},
-		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2 2 s1")},
-		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4 4 s1")},
+		{duckLisp_instruction_pushStrippedSymbol8, DL_STR("stripped-symbol.8 1")},
+		{duckLisp_instruction_pushStrippedSymbol16, DL_STR("stripped-symbol.16 2")},
+		{duckLisp_instruction_pushStrippedSymbol32, DL_STR("stripped-symbol.32 4")},
 		{duckLisp_instruction_pushBooleanFalse, DL_STR("false")},
 		{duckLisp_instruction_pushBooleanTrue, DL_STR("true")},
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
@@ -2912,8 +2912,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushVaClosure16, DL_STR("variadic-closure.16 2 1 4 V2")},
 		{duckLisp_instruction_pushVaClosure32, DL_STR("variadic-closure.32 4 1 4 V2")},
 		{duckLisp_instruction_pushGlobal8, DL_STR("global.8 1")},
-		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
-		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
+		{duckLisp_instruction_pushGlobal16, DL_STR("global.16 2")},
+		{duckLisp_instruction_pushGlobal32, DL_STR("global.32 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
 		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
 		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
@@ -2977,9 +2977,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_cons8, DL_STR("cons.8 1 1")},
 		{duckLisp_instruction_cons16, DL_STR("cons.16 2 2")},
 		{duckLisp_instruction_cons32, DL_STR("cons.32 4 4")},
-		{duckLisp_instruction_vector8, DL_STR("vector.8 1 V0")},
-		{duckLisp_instruction_vector16, DL_STR("vector.16 2 V0")},
-		{duckLisp_instruction_vector32, DL_STR("vector.32 4 V0")},
+		{duckLisp_instruction_vector8, DL_STR("vector.8 1 v0")},
+		{duckLisp_instruction_vector16, DL_STR("vector.16 2 v0")},
+		{duckLisp_instruction_vector32, DL_STR("vector.32 4 v0")},
 		{duckLisp_instruction_makeVector8, DL_STR("makeVector.8 1 1")},
 		{duckLisp_instruction_makeVector16, DL_STR("makeVector.16 2 2")},
 		{duckLisp_instruction_makeVector32, DL_STR("makeVector.32 4 4")},
@@ -3282,5 +3282,9 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
  cleanup:
 	eError = DL_FREE(memoryAllocation, &template_array);
 	if (eError) e = eError;
+	if (e) {
+		eError = dl_array_quit(&disassembly);
+		if (eError) e = eError;
+	}
 	return e;
 }
diff --git a/generators.c b/generators.c
index 90bb206..30f5767 100644
--- a/generators.c
+++ b/generators.c
@@ -1261,9 +1261,12 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 			dl_array_t string;
 			(void) dl_array_init(&string, duckLisp->memoryAllocation, sizeof(dl_uint8_t), dl_array_strategy_double);
 			e = duckLisp_disassemble(&string, duckLisp->memoryAllocation, bytecode.elements, bytecode.elements_length);
-			if (e) goto cleanup;
-			e = dl_array_pushElement(&duckLisp->disassemblies, &string);
-			if (e) goto cleanup;
+			if (!e) e = dl_array_pushElement(&duckLisp->disassemblies, &string);
+			if (e) {
+				eError = dl_array_quit(&string);
+				if (eError) e = eError;
+				goto cleanup;
+			}
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
@@ -1386,9 +1389,12 @@ dl_error_t duckLisp_generator_defmacro(duckLisp_t *duckLisp,
 		                         duckLisp->memoryAllocation,
 		                         macroBytecode.elements,
 		                         macroBytecode.elements_length);
-		if (e) goto cleanup;
-		e = dl_array_pushElement(&duckLisp->disassemblies, &string);
-		if (e) goto cleanup;
+		if (!e) e = dl_array_pushElement(&duckLisp->disassemblies, &string);
+		if (e) {
+			eError = dl_array_quit(&string);
+			if (eError) e = eError;
+			goto cleanup;
+		}
 	}
 
 	e = duckVM_execute(&duckLisp->vm, macroBytecode.elements, macroBytecode.elements_length);
@@ -3652,9 +3658,12 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 		dl_array_t string;
 		(void) dl_array_init(&string, duckLisp->memoryAllocation, sizeof(dl_uint8_t), dl_array_strategy_double);
 		e = duckLisp_disassemble(&string, duckLisp->memoryAllocation, bytecode.elements, bytecode.elements_length);
-		if (e) goto cleanupArrays;
-		e = dl_array_pushElement(&duckLisp->disassemblies, &string);
-		if (e) goto cleanupArrays;
+		if (!e) e = dl_array_pushElement(&duckLisp->disassemblies, &string);
+		if (e) {
+			eError = dl_array_quit(&string);
+			if (eError) e = eError;
+			goto cleanupArrays;
+		}
 	}
 
 	/* Execute macro. */
-- 
2.43.0


From 0cd4baf24933a122b5e32c78608dda9e5534a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 66/68] fix: compile-time results that contain themselves are
 reported

---
 duckVM.h     |  2 ++
 generators.c | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/duckVM.h b/duckVM.h
index 292d629..3652301 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -455,6 +455,8 @@ dl_error_t duckVM_object_makeSymbol(duckVM_t *duckVM,
 void duckVM_object_makeCompressedSymbol(duckVM_object_t *symbolOut, dl_size_t id);
 duckVM_object_t duckVM_object_makeList(duckVM_object_t *cons);
 duckVM_object_t duckVM_object_makeCons(duckVM_object_t *car, duckVM_object_t *cdr);
+/* Does following the CDRs of this list never end? */
+dl_bool_t duckVM_listIsCyclic(duckVM_object_t *rootCons);
 duckVM_object_t duckVM_object_makeClosure(dl_ptrdiff_t name,
                                           duckVM_object_t *bytecode,
                                           duckVM_object_t *upvalueArray,
diff --git a/generators.c b/generators.c
index 30f5767..7752b3c 100644
--- a/generators.c
+++ b/generators.c
@@ -1062,6 +1062,22 @@ dl_error_t duckLisp_consToExprAST(duckLisp_t *duckLisp,
 	/* (cons a b) */
 
 	/**/ duckLisp_ast_compoundExpression_init(ast);
+	/* Data can be nested deeper than any code, and it can contain itself. */
+	duckLisp->generators_recursion_depth++;
+	if (duckLisp->generators_recursion_depth >= duckLisp->generators_max_recursion_depth) {
+		e = dl_error_bufferOverflow;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Max generator recursion depth met."));
+		if (eError) e = eError;
+		goto cleanup;
+	}
+
+	if (duckVM_listIsCyclic(cons)) {
+		e = dl_error_invalidValue;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Cannot return a cyclic list."));
+		if (eError) e = eError;
+		goto cleanup;
+	}
+
 	if (cons != dl_null) {
 		const dl_size_t length = duckLisp_consList_length(cons);
 		e = DL_MALLOC(duckLisp->memoryAllocation,
@@ -1126,6 +1142,7 @@ dl_error_t duckLisp_consToExprAST(duckLisp_t *duckLisp,
 		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, ast);
 		if (eError) e = eError;
 	}
+	--duckLisp->generators_recursion_depth;
 	return e;
 }
 
@@ -1138,6 +1155,15 @@ dl_error_t duckLisp_consToConsAST(duckLisp_t *duckLisp,
 	/* (cons a b) */
 
 	/**/ duckLisp_ast_compoundExpression_init(ast);
+	/* Data can be nested deeper than any code, and it can contain itself. */
+	duckLisp->generators_recursion_depth++;
+	if (duckLisp->generators_recursion_depth >= duckLisp->generators_max_recursion_depth) {
+		e = dl_error_bufferOverflow;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Max generator recursion depth met."));
+		if (eError) e = eError;
+		goto cleanup;
+	}
+
 	if (cons != dl_null) {
 		const dl_uint8_t op = 0;
 		const dl_uint8_t car = 1;
@@ -1196,6 +1222,7 @@ dl_error_t duckLisp_consToConsAST(duckLisp_t *duckLisp,
 		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, ast);
 		if (eError) e = eError;
 	}
+	--duckLisp->generators_recursion_depth;
 	return e;
 }
 
-- 
2.43.0


From 2c9325f245fb6bca24624d9207b50d3991bcaded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:41 +0000
Subject: [PATCH 67/68] fix: literals longer than 65535 bytes aren't cut

---
 DuckLib/core.h | 1 +
 emitters.c     | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/DuckLib/core.h b/DuckLib/core.h
index 26a8a49..917f417 100644
--- a/DuckLib/core.h
+++ b/DuckLib/core.h
@@ -41,6 +41,7 @@ typedef int dl_int32_t;
 
 #define DL_UINT8_MAX    255U
 #define DL_UINT16_MAX 65535U
+#define DL_UINT32_MAX 4294967295U
 
 #define DL_INT8_MAX     127
 #define DL_INT16_MAX  32767
diff --git a/emitters.c b/emitters.c
index 6758c92..1e9bd44 100644
--- a/emitters.c
+++ b/emitters.c
@@ -914,14 +914,14 @@ dl_error_t duckLisp_emit_pushString(duckLisp_t *duckLisp,
 
 	/* Write string length. */
 
-	if (string_length > DL_UINT16_MAX) {
+	if (string_length > DL_UINT32_MAX) {
 		eError = duckLisp_error_pushRuntime(duckLisp,
 		                                    DL_STR("String longer than DL_UINT_MAX. Truncating string to fit."));
 		if (eError) {
 			e = eError;
 			goto cleanup;
 		}
-		string_length = DL_UINT16_MAX;
+		string_length = DL_UINT32_MAX;
 	}
 
 	/* Push arguments into instruction. */
@@ -981,14 +981,14 @@ dl_error_t duckLisp_emit_pushSymbol(duckLisp_t *duckLisp,
 
 	// Write string length.
 
-	if (string_length > DL_UINT16_MAX) {
+	if (string_length > DL_UINT32_MAX) {
 		eError = duckLisp_error_pushRuntime(duckLisp,
 		                                    DL_STR("String longer than DL_UINT_MAX. Truncating string to fit."));
 		if (eError) {
 			e = eError;
 			goto cleanup;
 		}
-		string_length = DL_UINT16_MAX;
+		string_length = DL_UINT32_MAX;
 	}
 
 	// Push arguments into instruction.
-- 
2.43.0


From a685204216c2cbf100f4f741c4b206464f5a292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:46 +0000
Subject: [PATCH 68/68] fix: report calls and functions with more arguments
 than an instruction can hold

The number of arguments was cut down to a byte, so a call with 300 arguments
passed the last 44 of them and left the others on the stack.
---
 emitters.c | 25 +++++++++++++++++++++++--
 emitters.h |  4 ++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/emitters.c b/emitters.c
index 1e9bd44..191f560 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1028,6 +1028,18 @@ dl_error_t duckLisp_emit_pushSymbol(duckLisp_t *duckLisp,
 	return e;
 }
 
+/* The number of arguments is stored in a single byte. */
+static dl_error_t checkArity(duckLisp_t *duckLisp, const dl_size_t arity) {
+	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+	if (arity > DL_UINT8_MAX) {
+		e = dl_error_invalidValue;
+		eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many arguments."));
+		if (eError) e = eError;
+	}
+	return e;
+}
+
 dl_error_t duckLisp_emit_pushClosure(duckLisp_t *duckLisp,
                                      duckLisp_compileState_t *compileState,
                                      dl_array_t *assembly,
@@ -1049,6 +1061,9 @@ dl_error_t duckLisp_emit_pushClosure(duckLisp_t *duckLisp,
 	                   sizeof(duckLisp_instructionArgClass_t),
 	                   dl_array_strategy_double);
 
+	e = checkArity(duckLisp, arity);
+	if (e) goto cleanup;
+
 	// Write instruction.
 	instruction.instructionClass = (variadic
 	                                ? duckLisp_instructionClass_pushVaClosure
@@ -1214,7 +1229,10 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity) {
+                                 const dl_size_t arity) {
+	dl_error_t e = checkArity(duckLisp, arity);
+	if (e) return e;
+
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
@@ -1235,7 +1253,10 @@ dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity) {
+                               const dl_size_t arity) {
+	dl_error_t e = checkArity(duckLisp, arity);
+	if (e) return e;
+
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
diff --git a/emitters.h b/emitters.h
index f5d009a..85b5e09 100644
--- a/emitters.h
+++ b/emitters.h
@@ -358,13 +358,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity);
+                                 const dl_size_t arity);
 
 dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity);
+                               const dl_size_t arity);
 
 dl_error_t duckLisp_emit_acall(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
-- 
2.43.0

