From df420cac70d7b8bcacaccaf058d005aeda6e8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 01/84] hooks: MJS_VERIF-guarded observation points for runtime
 monitoring

---
 src/mjs_core.c   | 23 +++++++++++++++++++++++
 src/mjs_exec.c   |  8 ++++++++
 src/mjs_ffi.c    |  8 ++++++++
 src/mjs_gc.c     | 16 ++++++++++++++++
 src/mjs_object.c |  8 ++++++++
 5 files changed, 63 insertions(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..8a1b4bb 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -384,3 +384,26 @@ MJS_PRIVATE void mjs_push(struct mjs *mjs, mjs_val_t v) {
 void mjs_set_generate_jsc(struct mjs *mjs, int generate_jsc) {
   mjs->generate_jsc = generate_jsc;
 }
+
+#ifdef MJS_VERIF
+/*
+ * Verification hook: snapshot of the sizes of the interpreter's stacks (data,
+ * call, arg, scope and loop), the number of owned values, and of the heap
+ * (live objects, properties, ffi signatures, bytes of owned strings)
+ */
+void mjs_verif_snapshot(struct mjs *mjs, unsigned long out[10]);
+void mjs_verif_snapshot(struct mjs *mjs, unsigned long out[10]) {
+  out[0] = mjs->stack.len / sizeof(mjs_val_t);
+  out[1] = mjs->call_stack.len / sizeof(mjs_val_t);
+  out[2] = mjs->arg_stack.len / sizeof(mjs_val_t);
+  out[3] = mjs->scopes.len / sizeof(mjs_val_t);
+  out[4] = mjs->loop_addresses.len / sizeof(mjs_val_t);
+  out[5] = mjs->owned_values.len / sizeof(mjs_val_t *);
+#if MJS_MEMORY_STATS
+  out[6] = mjs->object_arena.alive;
+  out[7] = mjs->property_arena.alive;
+  out[8] = mjs->ffi_sig_arena.alive;
+#endif
+  out[9] = mjs->owned_strings.len;
+}
+#endif
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..06407e4 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -23,6 +23,11 @@
 #include <sys/mman.h>
 #endif
 
+#ifdef MJS_VERIF
+/* Verification hook, provided by the harness: called before each opcode */
+extern void mjs_verif_step(struct mjs *mjs);
+#endif
+
 /*
  * Pushes call stack frame. Offset is a global bcode offset. Retval_stack_idx
  * is an index in mjs->stack at which return value should be written later.
@@ -582,6 +587,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 #if MJS_AGGRESSIVE_GC
     maybe_gc(mjs);
 #endif
+#ifdef MJS_VERIF
+    mjs_verif_step(mjs);
+#endif
 
     code = (const uint8_t *) bp.data.p;
 #if MJS_ENABLE_DEBUG
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 129bd1f..f32282c 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -615,10 +615,18 @@ MJS_PRIVATE int mjs_is_ffi_sig(mjs_val_t v) {
   return (v & MJS_TAG_MASK) == MJS_TAG_FUNCTION_FFI;
 }
 
+#ifdef MJS_VERIF
+/* Verification hook, provided by the harness: a cell is being dereferenced */
+extern void mjs_verif_cell_use(void *cell);
+#endif
+
 MJS_PRIVATE struct mjs_ffi_sig *mjs_get_ffi_sig_struct(mjs_val_t v) {
   struct mjs_ffi_sig *ret = NULL;
   assert(mjs_is_ffi_sig(v));
   ret = (struct mjs_ffi_sig *) get_ptr(v);
+#ifdef MJS_VERIF
+  mjs_verif_cell_use(ret);
+#endif
   return ret;
 }
 
diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index a129fa2..47edb93 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -37,6 +37,13 @@
  */
 #define GC_ARENA_CELLS_RESERVE 2
 
+#ifdef MJS_VERIF
+/* Verification hooks, provided by the harness */
+extern void mjs_verif_cell_alloc(void *cell, size_t size);
+extern void mjs_verif_cell_free(void *cell, size_t size);
+extern void mjs_verif_gc_done(struct mjs *mjs, struct mbuf *strings);
+#endif
+
 static struct gc_block *gc_new_block(struct gc_arena *a, size_t size);
 static void gc_free_block(struct gc_block *b);
 static void gc_mark_mbuf_pt(struct mjs *mjs, const struct mbuf *mbuf);
@@ -154,6 +161,9 @@ MJS_PRIVATE void *gc_alloc_cell(struct mjs *mjs, struct gc_arena *a) {
    * TODO(mkm): minor opt possible since most of the fields
    * are overwritten downstream, but not worth the yak shave time
    * when fields are added to GC-able structures */
+#ifdef MJS_VERIF
+  mjs_verif_cell_alloc(r, a->cell_size);
+#endif
   memset(r, 0, a->cell_size);
   return (void *) r;
 }
@@ -226,6 +236,9 @@ void gc_sweep(struct mjs *mjs, struct gc_arena *a, size_t start) {
             a->destructor(mjs, cur);
           }
           memset(cur, 0, a->cell_size);
+#ifdef MJS_VERIF
+          mjs_verif_cell_free(cur, a->cell_size);
+#endif
         }
 
         /* Add this cell to the `free` list */
@@ -514,6 +527,9 @@ void mjs_gc(struct mjs *mjs, int full) {
       mbuf_resize(&mjs->owned_strings, trimmed_size);
     }
   }
+#ifdef MJS_VERIF
+  mjs_verif_gc_done(mjs, &mjs->owned_strings);
+#endif
 }
 
 MJS_PRIVATE int gc_check_val(struct mjs *mjs, mjs_val_t v) {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..a954a38 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -21,6 +21,11 @@ MJS_PRIVATE mjs_val_t mjs_object_to_value(struct mjs_object *o) {
   }
 }
 
+#ifdef MJS_VERIF
+/* Verification hook, provided by the harness: a cell is being dereferenced */
+extern void mjs_verif_cell_use(void *cell);
+#endif
+
 MJS_PRIVATE struct mjs_object *get_object_struct(mjs_val_t v) {
   struct mjs_object *ret = NULL;
   if (mjs_is_null(v)) {
@@ -28,6 +33,9 @@ MJS_PRIVATE struct mjs_object *get_object_struct(mjs_val_t v) {
   } else {
     assert(mjs_is_object(v));
     ret = (struct mjs_object *) get_ptr(v);
+#ifdef MJS_VERIF
+    mjs_verif_cell_use(ret);
+#endif
   }
   return ret;
 }
-- 
2.43.0


From 9420923524c100e57aa2be9e2bed0099728a9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:56 +0000
Subject: [PATCH 02/84] fix: mjs_apply() of a native function left its call
 frame and read a stale stack pointer

---
 src/mjs_exec.c | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 06407e4..44aaa07 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1129,7 +1129,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r = MJS_UNDEFINED, prev_this_val, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1143,7 +1143,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1159,28 +1158,36 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+
+    /*
+     * There's no OP_RETURN for a native function, so restore frame and pop the
+     * cell with the returned value here. NOTE: the data stack might have been
+     * reallocated during the call.
+     */
+    call_stack_restore_frame(mjs);
+    r = mjs_pop(mjs);
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
-  }
 
-  /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
-   */
-  if (mjs->error != MJS_OK) {
-    call_stack_restore_frame(mjs);
+    /*
+     * If there was an error, we need to restore frame and do the cleanup
+     * which is otherwise done by OP_RETURN
+     */
+    if (mjs->error != MJS_OK) {
+      call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+      // Pop cell at which the returned value should've been written
+      mjs_pop(mjs);
+    }
   }
+  if (res != NULL) *res = r;
   mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
-- 
2.43.0


From 53326a160bec9eeb14459820b63a14531e411d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:28 +0000
Subject: [PATCH 03/84] fix: keep the receiver of a pending method call alive
 during garbage collection

---
 src/mjs_gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index 47edb93..01ee565 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -507,6 +507,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
-- 
2.43.0


From 28e725ab49714f83f095ec37da55f97f7999ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 04/84] fix: taking the type of an ffi-ed function aborted the
 process

---
 src/mjs_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 8a1b4bb..5016de0 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -215,6 +215,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From b77781d57bc92ae6288885d6c45d9c77a9f3b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 05/84] fix: do not call the C function when an int or bool
 argument has a wrong type

---
 src/mjs_ffi.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index f32282c..f62a31f 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -775,6 +775,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -806,6 +807,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
-- 
2.43.0


From bbd5f18db20034e2e039fe9bca8b4015e1d8dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 06/84] fix: name the actual type when a callback argument is
 not a function

---
 src/mjs_ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index f62a31f..a5c49cf 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -868,7 +868,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           ret = MJS_TYPE_ERROR;
           mjs_prepend_errorf(mjs, ret,
                              "actual arg #%d is not a function, but %s", i,
-                             mjs_stringify_type((enum mjs_type) arg));
+                             mjs_typeof(arg));
           goto clean;
         }
         break;
-- 
2.43.0


From 7a67396878acefbda457cd683d2575392248c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 07/84] fix: negative int arguments of ffi callbacks became
 large positive numbers

---
 src/mjs_ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index a5c49cf..a750c8b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -349,7 +349,7 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
         args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
-- 
2.43.0


From 3b301c5d9c2936cf59d5e5e599c781e684072f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 08/84] fix: report an error for ffi signatures which can't be
 called instead of calling them wrongly or not at all

---
 src/ffi/ffi.c | 6 ++++++
 src/mjs_ffi.c | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ffi/ffi.c b/src/ffi/ffi.c
index 42cd771..d01c65c 100644
--- a/src/ffi/ffi.c
+++ b/src/ffi/ffi.c
@@ -180,6 +180,12 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     return -1;
   }
 
+  /* Neither are mixed in the arguments and the return value */
+  if ((res->ctype == FFI_CTYPE_DOUBLE && floats > 0) ||
+      (res->ctype == FFI_CTYPE_FLOAT && doubles > 0)) {
+    return -1;
+  }
+
   switch (res->ctype) {
     case FFI_CTYPE_WORD: { /* {{{ */
       ffi_word_t r;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index a750c8b..0467d8f 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -928,7 +928,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
-- 
2.43.0


From 11cdb8d72b57ceee3b4c4ee20dbbb2983a57970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:40 +0000
Subject: [PATCH 09/84] fix: a callback registered with two ffi signatures was
 always called with the first one

---
 src/mjs_ffi.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 0467d8f..a9b570b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -517,9 +517,12 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -893,7 +896,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -989,14 +993,15 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
 
   if (mjs_is_function(func)) {
     struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
+        ffi_get_matching(&mjs->ffi_cb_args, func, userdata, NULL);
+    while (*pitem != NULL) {
       /* Found matching item: remove it from the linked list, and free */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
       mjs_ffi_sig_free(&cbargs->sig);
       free(cbargs);
       ret = mjs_mk_number(mjs, 1);
+      pitem = ffi_get_matching(pitem, func, userdata, NULL);
     }
   } else {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "missing argument 'func'");
-- 
2.43.0


From f36179a4727268dc1f9068de61f5f5b0f16e5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:19 +0000
Subject: [PATCH 10/84] fix: JSON.parse() lost or misplaced values under long,
 empty and dot-terminated keys, or aborted

---
 src/frozen/frozen.c | 11 +++++++----
 src/mjs_json.c      |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 06f3389..6e3c5a5 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -79,6 +79,9 @@ struct frozen {
   const char *cur_name;
   size_t cur_name_len;
 
+  /* Set while parsing an object's key, which is not reported as a value */
+  int in_key;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -97,8 +100,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->in_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -303,8 +305,7 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
@@ -399,7 +400,9 @@ static int json_parse_pair(struct frozen *f) {
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
+  f->in_key = 1;
   TRY(json_parse_key(f));
+  f->in_key = 0;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..0d89e9d 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -387,7 +387,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (name != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
         mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
-- 
2.43.0


From dfeb388a2bb54543f260e754ede573d2d12c8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:19 +0000
Subject: [PATCH 11/84] fix: JSON.parse() leaked the buffer of a string which
 can't be unescaped

---
 src/mjs_json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 0d89e9d..866db47 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -342,7 +342,8 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
       if (token->len > 0 && (dst = malloc(token->len)) != NULL) {
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
-          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
+          ctx->rcode = MJS_TYPE_ERROR;
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
-- 
2.43.0


From 4731352406a54841294333a243991547af02786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:19 +0000
Subject: [PATCH 12/84] fix: JSON.parse() read past the end of its buffer when
 the text ends with a number

---
 src/mjs_json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 866db47..84e08bf 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -446,8 +446,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    stmp[len] = '\0'; /* frozen_cb uses strtod() on numbers */
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From 89bbf4d649d85fff3afdae99defdcff6f05da633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:57 +0000
Subject: [PATCH 13/84] fix: a deeply nested JSON text overflowed the native
 stack

---
 src/frozen/frozen.c | 7 +++++++
 src/frozen/frozen.h | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 6e3c5a5..254864a 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -79,6 +79,9 @@ struct frozen {
   const char *cur_name;
   size_t cur_name_len;
 
+  /* Nesting level of arrays and objects */
+  int depth;
+
   /* Set while parsing an object's key, which is not reported as a value */
   int in_key;
 
@@ -345,11 +348,15 @@ static int json_parse_value(struct frozen *f) {
       TRY(json_parse_string(f));
       break;
     case '{':
+      EXPECT(++f->depth <= JSON_MAX_DEPTH, JSON_STRING_INVALID);
       TRY(json_parse_object(f));
+      f->depth--;
       break;
 #if JSON_ENABLE_ARRAY
     case '[':
+      EXPECT(++f->depth <= JSON_MAX_DEPTH, JSON_STRING_INVALID);
       TRY(json_parse_array(f));
+      f->depth--;
       break;
 #endif
     case 'n':
diff --git a/src/frozen/frozen.h b/src/frozen/frozen.h
index 97643be..cea550e 100644
--- a/src/frozen/frozen.h
+++ b/src/frozen/frozen.h
@@ -310,6 +310,11 @@ void *json_next_elem(const char *s, int len, void *handle, const char *path,
 #define JSON_MAX_PATH_LEN 256
 #endif
 
+/* Documents nested deeper than that are rejected */
+#ifndef JSON_MAX_DEPTH
+#define JSON_MAX_DEPTH 1000
+#endif
+
 #ifndef JSON_MINIMAL
 #define JSON_MINIMAL 0
 #endif
-- 
2.43.0


From 46d713025e69618454026092542b0854b1883671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:57 +0000
Subject: [PATCH 14/84] fix: JSON.stringify() produced invalid JSON for keys
 with special characters and for \v

---
 src/mjs_json.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 84e08bf..9924f7b 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -67,7 +67,7 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
+   * 0xb -> \u000b (JSON has no \v)
    * 0xc -> \f
    * 0xd -> \r
    */
@@ -81,12 +81,13 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < '\b' || *s == '\v' ||
+               (*s > '\r' && *s < ' ')) {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
@@ -187,7 +188,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
-- 
2.43.0


From 583bf1dfd09e2f3f07313b6f8c173b4d69f7b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:22 +0000
Subject: [PATCH 15/84] fix: numbers beyond the int64 range and non-finite
 numbers were printed as garbage

---
 src/mjs_json.c | 5 ++++-
 src/mjs_util.c | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 9924f7b..23977e7 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -140,9 +140,12 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
   }
 
   switch (mjs_get_type(v)) {
+    case MJS_TYPE_NUMBER:
+      /* JSON has no NaN and infinities */
+      if (!is_debug && !isfinite(mjs_get_double(mjs, v))) v = MJS_NULL;
+    /* fallthrough */
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
-    case MJS_TYPE_NUMBER:
     case MJS_TYPE_UNDEFINED:
     case MJS_TYPE_FOREIGN:
       /* For those types, regular `mjs_to_string()` works */
diff --git a/src/mjs_util.c b/src/mjs_util.c
index b14a18d..3951e59 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -47,8 +47,10 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (modf(d, &iv) == 0 && fabs(d) < 9223372036854775808.0) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
+    } else if (fabs(d) >= 9223372036854775808.0) {
+      json_printf(out, "%.17g", d);
     } else {
       json_printf(out, "%f", mjs_get_double(mjs, v));
     }
-- 
2.43.0


From 8eb7146c0a5ed6fd1910bd7544c46a4e29ec2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:22 +0000
Subject: [PATCH 16/84] fix: JSON.parse() did not unescape object keys

---
 src/mjs_json.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 23977e7..7b7d9f0 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -396,7 +396,14 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
     if (name != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          ctx->rcode = MJS_TYPE_ERROR;
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
-- 
2.43.0


From afc907461639e8d90b18804ef0330e3f57fda9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:22 +0000
Subject: [PATCH 17/84] fix: json_escape() produced wrong escapes and over-read
 truncated UTF-8

---
 src/frozen/frozen.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 254864a..d4489bc 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -455,16 +455,17 @@ int json_escape(struct json_out *out, const char *p, size_t len) {
     if (ch == '"' || ch == '\\') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, p + i, 1);
-    } else if (ch >= '\b' && ch <= '\r') {
+    } else if (ch >= '\b' && ch <= '\r' && ch != '\v') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
     } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
       n += out->printer(out, "\\u00", 4);
-      n += out->printer(out, &hex_digits[(ch >> 4) % 0xf], 1);
-      n += out->printer(out, &hex_digits[ch % 0xf], 1);
+      n += out->printer(out, &hex_digits[ch >> 4], 1);
+      n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
+      if (cl > len - i) cl = len - i; /* Truncated UTF-8 sequence */
       n += out->printer(out, p + i, cl);
       i += cl - 1;
     }
-- 
2.43.0


From 2224009dbc6436eebb38ed6dd1e545f22736285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:54 +0000
Subject: [PATCH 18/84] fix: sources with more than 512 blocks were rejected as
 too deeply nested

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7d9f383..24ff9c1 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -173,6 +173,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  p->depth--;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
-- 
2.43.0


From 79057b6d47c4b4ac6f5b47dca39045656de7482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 19/84] fix: deeply nested statements, unary operators,
 assignments, conditionals and member chains overflowed the native stack

---
 src/mjs_parser.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 24ff9c1..a052c0e 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -73,6 +73,15 @@ static void emit_op(struct pstate *pstate, int tok) {
 #define BINOP_STACK_FRAME_SIZE 16
 #define STACK_LIMIT 8192
 
+/* Accounts for one more level of recursion in the parser */
+static mjs_err_t enter_level(struct pstate *p) {
+  if (++p->depth > STACK_LIMIT / BINOP_STACK_FRAME_SIZE) {
+    mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow");
+    return MJS_SYNTAX_ERROR;
+  }
+  return MJS_OK;
+}
+
 // Intentionally left as macro rather than a function, to let the
 // compiler to inline calls and mimimize runtime stack usage.
 #define PARSE_LTR_BINOP(p, f1, f2, ops, prev_op)                               \
@@ -122,7 +131,9 @@ static void emit_op(struct pstate *pstate, int tok) {
     if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
       int op = p->tok.tok;                              \
       pnext1(p);                                        \
+      if ((res = enter_level(p)) != MJS_OK) return res; \
       if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
+      p->depth--;                                       \
       emit_op(p, op);                                   \
     }                                                   \
     return res;                                         \
@@ -374,7 +385,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -400,7 +411,9 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
+    if ((res = enter_level(p)) != MJS_OK) return res;
     res = parse_unary(p, prev_op);
+    p->depth--;
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -474,6 +487,7 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
+    if ((res = enter_level(p)) != MJS_OK) return res;
     if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
@@ -485,6 +499,7 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
 
     EXPECT(p, TOK_COLON);
     if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    p->depth--;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -897,7 +912,7 @@ static mjs_err_t parse_return(struct pstate *p) {
   return MJS_OK;
 }
 
-static mjs_err_t parse_statement(struct pstate *p) {
+static mjs_err_t parse_statement2(struct pstate *p) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   switch (p->tok.tok) {
     case TOK_SEMICOLON:
@@ -953,6 +968,14 @@ static mjs_err_t parse_statement(struct pstate *p) {
   }
 }
 
+static mjs_err_t parse_statement(struct pstate *p) {
+  mjs_err_t res;
+  if ((res = enter_level(p)) != MJS_OK) return res;
+  res = parse_statement2(p);
+  p->depth--;
+  return res;
+}
+
 MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
-- 
2.43.0


From 5fed4a94c30e49cd35e336be0382f8f6316e0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 20/84] fix: integer literals of 2^63 and above became negative

---
 src/mjs_parser.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index a052c0e..f413151 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -315,9 +315,10 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
     }
     case TOK_NUM: {
       double iv, d = strtod(t->ptr, NULL);
-      unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
-      if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
-      if (modf(d, &iv) == 0) {
+      if (t->ptr[0] == '0' && t->ptr[1] == 'x') {
+        d = strtoul(t->ptr + 2, NULL, 16);
+      }
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
-- 
2.43.0


From 4b3aac961d59d049357f852ce64101829d238d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 21/84] fix: for..in without a valid expression was accepted
 and corrupted the stack

---
 src/mjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index f413151..07d612c 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -585,7 +585,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
-- 
2.43.0


From 1e871371586ecdc61a5b2cecd7ffc96724046b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 22/84] fix: stray or missing commas in let statements
 corrupted the stack

---
 src/mjs_parser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 07d612c..e20ad3f 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -547,11 +547,9 @@ static mjs_err_t parse_let(struct pstate *p) {
     } else {
       emit_byte(p, OP_PUSH_UNDEF);
     }
-    if (p->tok.tok == TOK_COMMA) {
-      emit_byte(p, OP_DROP);
-      pnext1(p);
-    }
     if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_EOF) break;
+    EXPECT(p, TOK_COMMA);
+    emit_byte(p, OP_DROP);
   }
   return res;
 }
-- 
2.43.0


From 8d792899b35400c6d317e2d9c771ecf90d7d4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 23/84] fix: parse time was exponential in the nesting of
 functions in return statements

---
 src/mjs_parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index e20ad3f..5dd8fe7 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -895,12 +895,15 @@ static void pstate_revert(struct pstate *p, struct pstate *old,
 static mjs_err_t parse_return(struct pstate *p) {
   int old_bcode_gen_len;
   struct pstate p_saved;
+  mjs_err_t res;
   EXPECT(p, TOK_KEYWORD_RETURN);
   p_saved = *p;
   old_bcode_gen_len = p->mjs->bcode_gen.len;
-  if (parse_expr(p) != MJS_OK) {
+  if ((res = parse_expr(p)) != MJS_OK) {
+    /* A malformed expression is an error */
+    if (p->tok.ptr != p_saved.tok.ptr) return res;
     /*
-     * Failed to parse an expression to return, so return the parser to the
+     * There is no expression to return, so return the parser to the
      * prior state and push undefined.
      */
     pstate_revert(p, &p_saved, old_bcode_gen_len);
-- 
2.43.0


From 7bc1349489a5b80efcc91a1a46a41f237de79c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:05 +0000
Subject: [PATCH 24/84] fix: escapes in quoted object literal keys were not
 processed

---
 src/mjs_parser.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 5dd8fe7..0312580 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -244,6 +244,13 @@ static mjs_err_t parse_function(struct pstate *p) {
   return res;
 }
 
+static void emit_unescaped_str(struct pstate *p, const struct tok *t) {
+  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+  size_t oldlen = bcode_gen->len;
+  embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
+  p->cur_idx += bcode_gen->len - oldlen;
+}
+
 static mjs_err_t parse_object_literal(struct pstate *p) {
   mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_OPEN_CURLY);
@@ -252,7 +259,11 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
     emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      emit_unescaped_str(p, &p->tok);
+    } else {
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
@@ -282,7 +293,6 @@ static mjs_err_t parse_array_literal(struct pstate *p) {
 }
 
 static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
-  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
   enum mjs_err res = MJS_OK;
   int tok = t->tok;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s] %p", p->tok.len, p->tok.ptr, (void *) &t));
@@ -327,13 +337,10 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       }
       break;
     }
-    case TOK_STR: {
-      size_t oldlen;
+    case TOK_STR:
       emit_byte(p, OP_PUSH_STR);
-      oldlen = bcode_gen->len;
-      embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
-      p->cur_idx += bcode_gen->len - oldlen;
-    } break;
+      emit_unescaped_str(p, t);
+      break;
     case TOK_OPEN_BRACKET:
       res = parse_array_literal(p);
       break;
-- 
2.43.0


From 791b3da97a43cab4db0c11c2cab2521dd3503eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 25/84] fix: the value of a compound assignment was the old
 value of its target

---
 src/mjs_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 44aaa07..734f94f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -213,8 +213,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    mjs_val_t v = do_op(mjs, mjs_get_v(mjs, obj, key), val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
-- 
2.43.0


From 815a91276ab11f642e32b5489c393450b4a709a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 26/84] fix: 0 === -0 was false

---
 src/mjs_exec.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 734f94f..68846a8 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -228,11 +228,8 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
   } else if (a == b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
-    /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
-     */
-    ret = 0;
+    /* Positive and negative zero are equal, but have different encodings */
+    ret = (mjs_get_double(mjs, a) == mjs_get_double(mjs, b));
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
-- 
2.43.0


From 8dbc4138b07fb6862ee278677c926b01fcf6677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 27/84] fix: break and continue outside of a loop used the loop
 of the calling function

---
 src/mjs_exec.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 68846a8..46b4bca 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -85,6 +85,18 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns whether the current function (not one of its callers) is in a loop
+ */
+static int is_in_loop(struct mjs *mjs) {
+  size_t outer = 0;
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    outer = mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                   -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+  }
+  return mjs_stack_size(&mjs->loop_addresses) >= outer + 3;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -929,7 +941,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_in_loop(mjs)) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -941,7 +953,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_in_loop(mjs)) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
-- 
2.43.0


From a8ef4d406e088e5422ad3591ef1f18c14088ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 28/84] fix: a return statement at the top level of a loaded
 file corrupted the stack

---
 src/mjs_exec.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 46b4bca..1252ed8 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -574,6 +574,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int arg_stack_len = mjs->arg_stack.len;
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
+  int min_call_stack_len = 0;
   size_t start_off = off;
   const uint8_t *code;
 
@@ -585,6 +586,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
   off -= bp.start_idx;
 
+  /* Top-level code of a script must not return from the function it's run by */
+  if (bp.data.p[off] == OP_BCODE_HEADER) min_call_stack_len = call_stack_len;
+
   for (i = off; i < bp.data.len; i++) {
     mjs->cur_bcode_offset = i;
 
@@ -888,7 +892,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        if (mjs->call_stack.len <
+            min_call_stack_len +
+                CALL_STACK_FRAME_ITEMS_CNT * sizeof(mjs_val_t)) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
-- 
2.43.0


From ab148fb89a03aee0741690da6d062ee874cd02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 29/84] fix: `this` was not restored after an error, or was
 restored to a stale value

---
 src/mjs_exec.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 1252ed8..49cd4fc 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -994,6 +994,15 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
     if (mjs->error != MJS_OK) {
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
+      /* restore `this`, it's saved in the first frame pushed here */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj =
+            *vptr(&mjs->call_stack,
+                  (int) (call_stack_len / sizeof(mjs_val_t)) +
+                      CALL_STACK_FRAME_ITEMS_CNT - 1 -
+                      CALL_STACK_FRAME_ITEM_THIS);
+      }
+
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
       mjs->call_stack.len = call_stack_len;
@@ -1144,7 +1153,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r = MJS_UNDEFINED, prev_this_val, retval_stack_idx;
+  mjs_val_t r = MJS_UNDEFINED, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1154,8 +1163,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
 
@@ -1203,7 +1210,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
     }
   }
   if (res != NULL) *res = r;
-  mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
 }
-- 
2.43.0


From 1b09a2df403f2cb3ef26a2535e787413cad42bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 30/84] fix: a lookup in a cyclic prototype chain overflowed
 the native stack

---
 src/mjs_object.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index a954a38..fec4d85 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -147,9 +147,16 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t slow = obj; /* Goes twice as slow as obj, to detect cycles */
+  int i;
+  for (i = 1; mjs_is_object(obj); i++) {
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+    if (i % 2 == 0) slow = mjs_get_own_property_v(mjs, slow, pn)->value;
+    if (obj == slow) break;
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
-- 
2.43.0


From 08bbc38c299e46ee7a4115ba185577a6773aaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 31/84] fix: `this` was not restored after an error (read it
 before the frames are dropped)

---
 src/mjs_exec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 49cd4fc..168b266 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -992,8 +992,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
-
       /* restore `this`, it's saved in the first frame pushed here */
       if ((int) mjs->call_stack.len > call_stack_len) {
         mjs->vals.this_obj =
@@ -1003,6 +1001,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
                       CALL_STACK_FRAME_ITEM_THIS);
       }
 
+      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
       mjs->call_stack.len = call_stack_len;
-- 
2.43.0


From e3e277cdda1a518a3eb57463ded96b826d4486b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 32/84] fix: file descriptors leaked when reading a directory
 and when mapping a .jsc file

---
 src/common/cs_file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 24d0ce9..df49d80 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -24,6 +24,7 @@
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #ifndef EXCLUDE_COMMON
@@ -40,6 +41,7 @@ char *cs_read_file(const char *path, size_t *size) {
     if (data != NULL) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
+        fclose(fp);
         free(data);
         return NULL;
       }
@@ -61,6 +63,7 @@ char *cs_mmap_file(const char *path, size_t *size) {
   fstat(fd, &st);
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  close(fd);
   if (r == MAP_FAILED) return NULL;
   return r;
 }
-- 
2.43.0


From ef47da04cc699928b7487c5193a85ca13bcc20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 33/84] fix: load() of a file name with an embedded NUL crashed

---
 src/mjs_builtin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 6f51e08..c147eeb 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -59,6 +59,10 @@ static void mjs_load(struct mjs *mjs) {
     struct mjs_bcode_part *bp = NULL;
     mjs_err_t ret;
 
+    if (path == NULL) {
+      mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "invalid file name");
+      goto clean;
+    }
     if (mjs_is_object(arg1)) {
       custom_global = 1;
       push_mjs_val(&mjs->scopes, arg1);
-- 
2.43.0


From 84f72b6ae0a252e6b8762a89a1626a116f916867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 34/84] fix: mjs_disown() read out of bounds when no value is
 owned

---
 src/mjs_core.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 5016de0..a8c5e9e 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -286,9 +286,12 @@ void mjs_own(struct mjs *mjs, mjs_val_t *v) {
 }
 
 int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
-  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
-                                   mjs->owned_values.len - sizeof(v));
+  mjs_val_t **vp;
 
+  if (mjs->owned_values.len == 0) return 0;
+
+  vp = (mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
+                       sizeof(v));
   for (; (char *) vp >= mjs->owned_values.buf; vp--) {
     if (*vp == v) {
       *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
-- 
2.43.0


From d3c0c634a12056acf716e3c7c9f1f766d0705479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:18 +0000
Subject: [PATCH 35/84] fix: for..in used freed memory if properties are
 removed in the loop

---
 src/mjs_object.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index fec4d85..7864703 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -235,6 +235,7 @@ MJS_PRIVATE void mjs_destroy_property(struct mjs_property **p) {
  */
 int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
   struct mjs_property *prop, *prev;
+  mjs_val_t *it;
 
   if (!mjs_is_object(obj)) {
     return -1;
@@ -252,6 +253,13 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
       } else {
         get_object_struct(obj)->properties = prop->next;
       }
+      /* for..in loops must not refer to the property which is now garbage */
+      for (it = (mjs_val_t *) mjs->stack.buf;
+           (char *) it < mjs->stack.buf + mjs->stack.len; it++) {
+        if (*it == mjs_mk_foreign(mjs, prop)) {
+          *it = prev != NULL ? mjs_mk_foreign(mjs, prev) : MJS_UNDEFINED;
+        }
+      }
       mjs_destroy_property(&prop);
       return 0;
     }
-- 
2.43.0


From 868018e0473ff9865681e6e9145be70518446d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:43 +0000
Subject: [PATCH 36/84] fix: names which differ only after an embedded NUL were
 considered equal

---
 src/mjs_object.c | 2 +-
 src/mjs_string.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 7864703..96063a9 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -247,7 +247,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
diff --git a/src/mjs_string.c b/src/mjs_string.c
index b8f9ce1..bfd1af6 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -224,7 +224,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-- 
2.43.0


From d01891e1bf427fdb932308e3d55f7e7ac85353fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:43 +0000
Subject: [PATCH 37/84] fix: properties set by a short foreign string could not
 be found

---
 src/mjs_object.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 96063a9..77ae251 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -202,10 +202,11 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
     }
 
     /*
-     * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * name_v might be not a string here, or be a foreign string. In this case,
+     * we need to create a new `name_v`, which will be an owned string.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) ||
+        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From 66170c2052de3dfbb340c2580f5af4d0d74077f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:13 +0000
Subject: [PATCH 38/84] fix: string indexes were truncated to int, and property
 names compared up to a NUL

---
 src/mjs_exec.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 168b266..577c3d3 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -447,24 +447,29 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+static int name_is(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (name_is(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (name_is(name, name_len, "at") ||
+             name_is(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (name_is(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (name_is(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -474,7 +479,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -487,18 +492,16 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (name_is(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (name_is(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (name_is(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
-
-  (void) name_len;
   return 0;
 }
 
-- 
2.43.0


From d7566da4a0a20a52feb8cfee1d6b50f1948f6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:13 +0000
Subject: [PATCH 39/84] fix: errors on the last line of a script were reported
 at line 1

---
 src/mjs_util.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index 3951e59..5aa0d78 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -397,7 +397,7 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
     p += llen;
     pe = p + map_len;
 
-    prev_line_no = 1;
+    prev_line_no = ret;
     while (p < pe) {
       uint64_t cur_offset, line_no;
       cs_varint_decode(p, ~0, &cur_offset, &llen);
@@ -405,12 +405,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset >= (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
-- 
2.43.0


From 7073fde4bb2049d13bc46aa2c35a829dd800325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:20 +0000
Subject: [PATCH 40/84] fix: line numbers in stack traces were off after long
 jumps

---
 src/mjs_bcode.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/mjs_bcode.c b/src/mjs_bcode.c
index 835f6c6..de12955 100644
--- a/src/mjs_bcode.c
+++ b/src/mjs_bcode.c
@@ -60,6 +60,33 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/*
+ * Adjusts the line number map after the code following the given index has
+ * been moved by `diff` bytes
+ */
+static void shift_lineno_map(struct pstate *p, size_t idx, int diff) {
+  struct mbuf map;
+  uint8_t *s = (uint8_t *) p->offset_lineno_map.buf;
+  uint8_t *e = s + p->offset_lineno_map.len;
+  size_t start = idx - p->start_bcode_idx;
+  mbuf_init(&map, p->offset_lineno_map.size);
+  while (s < e) {
+    uint64_t off, line_no;
+    size_t llen;
+    uint8_t buf[20];
+    cs_varint_decode(s, e - s, &off, &llen);
+    s += llen;
+    cs_varint_decode(s, e - s, &line_no, &llen);
+    s += llen;
+    if (off > start) off += diff;
+    llen = cs_varint_encode(off, buf, sizeof(buf));
+    llen += cs_varint_encode(line_no, buf + llen, sizeof(buf) - llen);
+    mbuf_append(&map, buf, llen);
+  }
+  mbuf_free(&p->offset_lineno_map);
+  p->offset_lineno_map = map;
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -85,6 +112,7 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   if (p->cur_idx >= (int) offset) {
     p->cur_idx += diff;
   }
+  if (diff != 0) shift_lineno_map(p, offset, diff);
   return diff;
 }
 
-- 
2.43.0


From f37425cfc6c16e4c38d4735add0ca81ea0dd92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:06 +0000
Subject: [PATCH 41/84] fix: `if (x) return {...};` was parsed as a block

---
 src/mjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 0312580..1df5782 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -562,7 +562,7 @@ static mjs_err_t parse_let(struct pstate *p) {
 }
 
 static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
-  if (ptest(p) == TOK_OPEN_CURLY) {
+  if (p->tok.tok == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
     return parse_statement(p);
-- 
2.43.0


From 1d96b14282abf61894c45d61c3f27467fdcb7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:27 +0000
Subject: [PATCH 42/84] fix: mjs_apply() of a function without a return
 statement returned the function itself

---
 src/mjs_exec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 577c3d3..11efad0 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1166,8 +1166,11 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  /* Push callable which will be later replaced with the return value */
-  mjs_push(mjs, func);
+  /*
+   * Push callable which will be later replaced with the return value. A
+   * function without a return statement returns undefined, like in OP_CALL.
+   */
+  mjs_push(mjs, mjs_is_function(func) ? MJS_UNDEFINED : func);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
-- 
2.43.0


From 63ab36c77c43a279e98184795af26659a6ecce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:37 +0000
Subject: [PATCH 43/84] fix: mjs_set_v() leaked the converted name when the
 target is not an object

---
 src/mjs_object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 77ae251..865eaf6 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -198,7 +198,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
-- 
2.43.0


From bdbbef2ce9186cec13b5068d9aca98b675fa3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:56 +0000
Subject: [PATCH 44/84] fix: mjs_sprintf() of an empty string left the buffer
 unterminated

---
 src/mjs_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index 5aa0d78..023f5e5 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -87,6 +87,7 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  if (n > 0) buf[0] = '\0'; /* Nothing is printed for an empty string */
   mjs_jprintf(v, mjs, &out);
 }
 
-- 
2.43.0


From dc28df4eedc3e1407638a43607d38c1b4d17596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 45/84] fix: calling a function of a file from C changed
 whether load() considers the file as loaded

---
 src/mjs_exec.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 11efad0..2f382e9 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1020,8 +1020,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
-  /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  /*
+   * Remember result of the evaluation of this bcode part. Calling a function
+   * from it is not an evaluation of the part.
+   */
+  {
+    struct mjs_bcode_part *part = mjs_bcode_part_get_by_offset(mjs, start_off);
+    if (part->start_idx == start_off) part->exec_res = mjs->error;
+  }
 
   *res = mjs_pop(mjs);
   return mjs->error;
-- 
2.43.0


From 41dfc5f4e9ad85e98c7713abf2344fb118336d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 46/84] fix: rewriting a .jsc file corrupted the code which was
 mapped from its previous version

---
 src/mjs_exec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 2f382e9..b1c9794 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1086,7 +1086,10 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
 
         /* try to open .jsc file for writing */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp;
+          /* the old file might be mapped, so it must not be overwritten */
+          remove(filename_jsc);
+          fp = fopen(filename_jsc, "wb");
           if (fp != NULL) {
             /* write last bcode part to .jsc */
             fwrite(bp->data.p, bp->data.len, 1, fp);
-- 
2.43.0


From 565711c0c48632b30367c575988a970f955a24a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 47/84] fix: a .jsc file which could not be written completely
 was executed nevertheless

---
 src/mjs_exec.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index b1c9794..d73a5e9 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1092,8 +1092,13 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
           fp = fopen(filename_jsc, "wb");
           if (fp != NULL) {
             /* write last bcode part to .jsc */
-            fwrite(bp->data.p, bp->data.len, 1, fp);
-            fclose(fp);
+            int ok = fwrite(bp->data.p, bp->data.len, 1, fp) == 1;
+            if (fclose(fp) != 0) ok = 0;
+            if (!ok) {
+              LOG(LL_WARN, ("Failed to write %s", filename_jsc));
+              remove(filename_jsc);
+              read_mmapped = 0;
+            }
           } else {
             LOG(LL_WARN, ("Failed to open %s for writing", filename_jsc));
             read_mmapped = 0;
@@ -1101,12 +1106,17 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
           /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else if (data != NULL) {
+            munmap(data, size);
+          }
         }
       }
     }
-- 
2.43.0


From 5301fe9de3f241294cb6586eed968800fe3627a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 48/84] fix: mapped .jsc files stayed mapped after
 mjs_destroy()

---
 src/mjs_core.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index a8c5e9e..51bf0f1 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -17,6 +17,10 @@
 #include "mjs_string.h"
 #include "mjs_util.h"
 
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <sys/mman.h>
+#endif
+
 #ifndef MJS_OBJECT_ARENA_SIZE
 #define MJS_OBJECT_ARENA_SIZE 20
 #endif
@@ -46,6 +50,11 @@ void mjs_destroy(struct mjs *mjs) {
       if (!bp->in_rom) {
         free((void *) bp->data.p);
       }
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+      else {
+        munmap((void *) bp->data.p, bp->data.len);
+      }
+#endif
     }
   }
 
-- 
2.43.0


From f77b0a1de7b319afb05bce584bcf39284c83cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:21 +0000
Subject: [PATCH 49/84] fix: mjs_exec_file() of a missing file reported the
 previous error, too

---
 src/mjs_exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index d73a5e9..907364e 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1142,7 +1142,8 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
-    mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
+    /* do not mix with the error of an earlier call, which might be there */
+    mjs_set_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
 
-- 
2.43.0


From 5d9fba6a329e996aaa2c9ced266f8d88c6f44cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 50/84] fix: mjs_apply() of a native function returned the
 error of an earlier call

---
 src/mjs_exec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 907364e..556c0ef 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1207,6 +1207,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
   if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    /* forget the error of an earlier call, like mjs_execute() does */
+    mjs_set_errorf(mjs, MJS_OK, NULL);
     if (mjs_is_foreign(func)) {
       ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
     } else {
-- 
2.43.0


From e395b43988e9d2ad545c0c4b11d703a57687f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 51/84] fix: a syntax error or a file error was reported with
 the stack trace of an earlier error

---
 src/mjs_core.c | 3 +++
 src/mjs_exec.c | 2 --
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 51bf0f1..908528f 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -127,6 +127,9 @@ mjs_err_t mjs_set_errorf(struct mjs *mjs, mjs_err_t err, const char *fmt, ...) {
   va_start(ap, fmt);
   free(mjs->error_msg);
   mjs->error_msg = NULL;
+  /* the trace of another error doesn't apply anymore */
+  free(mjs->stack_trace);
+  mjs->stack_trace = NULL;
   mjs->error = err;
   if (fmt != NULL) {
     mg_avprintf(&mjs->error_msg, 0, fmt, ap);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 556c0ef..50f2669 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -584,8 +584,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
 
   mjs_set_errorf(mjs, MJS_OK, NULL);
-  free(mjs->stack_trace);
-  mjs->stack_trace = NULL;
 
   off -= bp.start_idx;
 
-- 
2.43.0


From 4a32bc6afcb888c692ca67ca7b962a54394b96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:16 +0000
Subject: [PATCH 52/84] fix: stack traces repeated the outer frames of errors
 in callbacks and loaded files

---
 src/mjs_exec.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 50f2669..3b7fc0e 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1002,7 +1002,13 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
                       CALL_STACK_FRAME_ITEM_THIS);
       }
 
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      /*
+       * If the error comes from a nested call of this function, the trace of
+       * all frames is already there.
+       */
+      if (mjs->stack_trace == NULL) {
+        mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      }
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
-- 
2.43.0


From 3c8a91817c7161b2b210a33595f49d77780b666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:27 +0000
Subject: [PATCH 53/84] fix: the offset of the current function was wrong
 unless it is in the first script

---
 src/mjs_core.h | 2 +-
 src/mjs_exec.c | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mjs_core.h b/src/mjs_core.h
index 855790e..1c9d203 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -127,7 +127,7 @@ struct mjs {
   enum mjs_err error;
   mjs_ffi_resolver_t *dlsym;  /* Symbol resolver function for FFI */
   ffi_cb_args_t *ffi_cb_args; /* List of FFI args descriptors */
-  size_t cur_bcode_offset;
+  size_t cur_bcode_offset; /* global bcode offset */
 
   struct gc_arena object_arena;
   struct gc_arena property_arena;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 3b7fc0e..4656d69 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -579,6 +579,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int loop_addresses_len = mjs->loop_addresses.len;
   int min_call_stack_len = 0;
   size_t start_off = off;
+  size_t caller_bcode_offset = mjs->cur_bcode_offset;
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
@@ -591,7 +592,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   if (bp.data.p[off] == OP_BCODE_HEADER) min_call_stack_len = call_stack_len;
 
   for (i = off; i < bp.data.len; i++) {
-    mjs->cur_bcode_offset = i;
+    mjs->cur_bcode_offset = bp.start_idx + i;
 
     if (mjs->need_gc) {
       if (maybe_gc(mjs)) {
@@ -1024,6 +1025,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
+  mjs->cur_bcode_offset = caller_bcode_offset;
+
   /*
    * Remember result of the evaluation of this bcode part. Calling a function
    * from it is not an evaluation of the part.
-- 
2.43.0


From 80d5cc9c1005e1543ed5212031eb250875c950f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 54/84] fix: FFI callbacks with a double and further arguments
 got wrong arguments

---
 src/mjs_ffi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index a9b570b..b629f12 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -587,7 +587,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument: implemented only for (userdata, double) */
+            if (sig->args_cnt != 2) break;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
-- 
2.43.0


From 854391916a884523040396505b0ca3f518806226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 55/84] fix: ffi() of a function pointer type aborted, a
 callback of a function type was not called

---
 src/mjs_ffi.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index b629f12..58a101f 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -134,6 +134,12 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
 
   /* Now see if we have a second set of parens */
   args.p = find_paren(tmp + 1, e);
+  if ((args.p != NULL) != (sig_type == FFI_SIG_CALLBACK)) {
+    /* Callbacks must be function pointers, other functions must not */
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "4");
+    goto clean;
+  }
   if (args.p == NULL) {
     /* We don't - it's a regular function signature */
     fn.p = tmp_e - 1;
-- 
2.43.0


From 65458476ed5cc6808b97030f0ee1971709f161bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 56/84] fix: functions returned by ffi() were falsy

---
 src/mjs_conversion.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mjs_conversion.c b/src/mjs_conversion.c
index 2dec2dd..d1ad985 100644
--- a/src/mjs_conversion.c
+++ b/src/mjs_conversion.c
@@ -4,6 +4,7 @@
  */
 
 #include "mjs_conversion.h"
+#include "mjs_ffi.h"
 #include "mjs_object.h"
 #include "mjs_primitive.h"
 #include "mjs_string.h"
@@ -69,7 +70,8 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) ||
+       (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
-- 
2.43.0


From 1cfa449bc261caa0fe56b2a1d324c04ba1cfb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:37 +0000
Subject: [PATCH 57/84] fix: collecting garbage with a long linked list of
 objects overflowed the C stack

---
 src/mjs_core.c |  1 +
 src/mjs_core.h |  1 +
 src/mjs_gc.c   | 51 ++++++++++++++++++++++++++++++++++++--------------
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 908528f..aaec669 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -92,6 +92,7 @@ struct mjs *mjs_create(void) {
   mbuf_init(&mjs->scopes, 0);
   mbuf_init(&mjs->loop_addresses, 0);
   mbuf_init(&mjs->json_visited_stack, 0);
+  mbuf_init(&mjs->gc_queue, 0);
 
   mjs->bcode_len = 0;
 
diff --git a/src/mjs_core.h b/src/mjs_core.h
index 1c9d203..372630e 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -121,6 +121,7 @@ struct mjs {
   struct mbuf foreign_strings; /* Sequence of (varint len, char *data) */
   struct mbuf owned_values;
   struct mbuf json_visited_stack;
+  struct mbuf gc_queue; /* Pointers to property lists which GC has to mark */
   struct mjs_vals vals;
   char *error_msg;
   char *stack_trace;
diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index 01ee565..272bedc 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -289,11 +289,30 @@ static void gc_mark_ffi_sig(struct mjs *mjs, mjs_val_t *v) {
   MARK(psig);
 }
 
-/* Mark an object */
+/* Mark a list of properties, with their names and values */
+static void gc_mark_properties(struct mjs *mjs, struct mjs_property *prop) {
+  struct mjs_property *next;
+
+  for (; prop != NULL; prop = next) {
+    if (!gc_check_ptr(&mjs->property_arena, prop)) {
+      abort();
+    }
+
+    gc_mark(mjs, &prop->name);
+    gc_mark(mjs, &prop->value);
+
+    next = prop->next;
+    MARK(prop);
+  }
+}
+
+/*
+ * Mark an object. Its properties are only queued here: marking them right away
+ * would need C stack in proportion to the depth of the object graph.
+ */
 static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
   struct mjs_object *obj_base;
   struct mjs_property *prop;
-  struct mjs_property *next;
 
   assert(mjs_is_object(*v));
 
@@ -309,18 +328,13 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
 
   if (MARKED(obj_base)) return;
 
-  /* mark object itself, and its properties */
-  for ((prop = obj_base->properties), MARK(obj_base); prop != NULL;
-       prop = next) {
-    if (!gc_check_ptr(&mjs->property_arena, prop)) {
-      abort();
-    }
-
-    gc_mark(mjs, &prop->name);
-    gc_mark(mjs, &prop->value);
-
-    next = prop->next;
-    MARK(prop);
+  /* mark object itself, and queue its properties */
+  prop = obj_base->properties;
+  MARK(obj_base);
+  if (prop != NULL &&
+      mbuf_append(&mjs->gc_queue, &prop, sizeof(prop)) != sizeof(prop)) {
+    /* No memory for the queue */
+    gc_mark_properties(mjs, prop);
   }
 
   /* mark object's prototype */
@@ -511,6 +525,15 @@ void mjs_gc(struct mjs *mjs, int full) {
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
+  /* Mark properties of the objects found so far, which may find others */
+  while (mjs->gc_queue.len > 0) {
+    struct mjs_property *prop;
+    mjs->gc_queue.len -= sizeof(prop);
+    memcpy(&prop, mjs->gc_queue.buf + mjs->gc_queue.len, sizeof(prop));
+    gc_mark_properties(mjs, prop);
+  }
+  mbuf_free(&mjs->gc_queue);
+
   gc_compact_strings(mjs);
 
   gc_sweep(mjs, &mjs->object_arena, 0);
-- 
2.43.0


From e5d6feab113267d289c80fb1a5006f16215cc407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:36 +0000
Subject: [PATCH 58/84] fix: endless recursion through native functions (apply,
 load, callbacks) overflowed the C stack

---
 src/mjs_core.h     | 1 +
 src/mjs_exec.c     | 6 ++++++
 src/mjs_features.h | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/mjs_core.h b/src/mjs_core.h
index 372630e..2870b15 100644
--- a/src/mjs_core.h
+++ b/src/mjs_core.h
@@ -129,6 +129,7 @@ struct mjs {
   mjs_ffi_resolver_t *dlsym;  /* Symbol resolver function for FFI */
   ffi_cb_args_t *ffi_cb_args; /* List of FFI args descriptors */
   size_t cur_bcode_offset; /* global bcode offset */
+  int exec_depth; /* number of nested mjs_execute() calls */
 
   struct gc_arena object_arena;
   struct gc_arena property_arena;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 4656d69..9fa82fb 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -584,6 +584,11 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
 
+  if (mjs->exec_depth >= MJS_MAX_EXEC_DEPTH) {
+    return mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "too many nested calls");
+  }
+  mjs->exec_depth++;
+
   mjs_set_errorf(mjs, MJS_OK, NULL);
 
   off -= bp.start_idx;
@@ -1025,6 +1030,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
+  mjs->exec_depth--;
   mjs->cur_bcode_offset = caller_bcode_offset;
 
   /*
diff --git a/src/mjs_features.h b/src/mjs_features.h
index 6706f32..3672858 100644
--- a/src/mjs_features.h
+++ b/src/mjs_features.h
@@ -14,6 +14,14 @@
 #define MJS_MEMORY_STATS 0
 #endif
 
+/*
+ * Maximum nesting of scripts run by native functions, like load() or apply():
+ * each level takes C stack.
+ */
+#if !defined(MJS_MAX_EXEC_DEPTH)
+#define MJS_MAX_EXEC_DEPTH 1000
+#endif
+
 /*
  * MJS_GENERATE_JSC: if enabled, and if mmapping is also enabled (CS_MMAP),
  * then execution of any .js file will result in creation of a .jsc file with
-- 
2.43.0


From 968d703e20cb8d44ead3f79a97757707c1d0ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:49 +0000
Subject: [PATCH 59/84] verification hook: pointers on top of the operand stack

---
 src/mjs_core.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index aaec669..6f61a85 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -423,4 +423,13 @@ void mjs_verif_snapshot(struct mjs *mjs, unsigned long out[10]) {
 #endif
   out[9] = mjs->owned_strings.len;
 }
+
+/* Is there a pointer on top of the operand stack (other than an iterator)? */
+int mjs_verif_top_ptr(struct mjs *mjs, void **p);
+int mjs_verif_top_ptr(struct mjs *mjs, void **p) {
+  mjs_val_t v = mjs->stack.len < sizeof(v) ? MJS_UNDEFINED : vtop(&mjs->stack);
+  if (!mjs_is_foreign(v)) return 0;
+  *p = mjs_get_ptr(mjs, v);
+  return !gc_check_ptr(&mjs->property_arena, *p);
+}
 #endif
-- 
2.43.0


From 5e4f19fc948a487ac4c68539967cacbeb0a42319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 60/84] fix: a member access without a name left a value on the
 operand stack

---
 src/mjs_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 1df5782..7742da6 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -393,6 +393,7 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
+      if (p->tok.tok != TOK_IDENT) SYNTAX_ERROR(p);
       if ((res = parse_literal(p, &p->tok)) != MJS_OK) return res;
     }
   }
-- 
2.43.0


From 19ba805b541fdcfe6e5a4cb0c5c15b7a51ea76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:53 +0000
Subject: [PATCH 61/84] fix: >>> gave different results on 32-bit platforms for
 operands outside of 32 bits

---
 src/mjs_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 9fa82fb..5dfc7d9 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -162,7 +162,7 @@ static double do_arith_op(double da, double db, int op, bool *resnan) {
     case TOK_XOR:     return (double) ((int64_t) da ^ (int64_t) db);
     case TOK_LSHIFT:  return (double) ((int64_t) da << (int64_t) db);
     case TOK_RSHIFT:  return (double) ((int64_t) da >> (int64_t) db);
-    case TOK_URSHIFT: return (double) ((uint32_t) da >> (uint32_t) db);
+    case TOK_URSHIFT: return (double) ((uint32_t)(int64_t) da >> (uint32_t) db);
   }
   /* clang-format on */
   *resnan = true;
-- 
2.43.0


From 030851ef1dccfd022c4cae6508ce4fcd1ab02df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:50 +0000
Subject: [PATCH 62/84] fix: converting a struct with a NULL string crashed

---
 src/mjs_object.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 865eaf6..77b99c0 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -361,7 +361,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = value != NULL ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
-- 
2.43.0


From adf152238fe622a71b26edf9f2d4499c988a3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 63/84] fix: mg_strchr did not find characters above 127 given
 as unsigned

---
 src/common/mg_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mg_str.c b/src/common/mg_str.c
index 6f7d028..25f7d75 100644
--- a/src/common/mg_str.c
+++ b/src/common/mg_str.c
@@ -87,7 +87,7 @@ const char *mg_strchr(const struct mg_str s, int c) WEAK;
 const char *mg_strchr(const struct mg_str s, int c) {
   size_t i;
   for (i = 0; i < s.len; i++) {
-    if (s.p[i] == c) return &s.p[i];
+    if (s.p[i] == (char) c) return &s.p[i];
   }
   return NULL;
 }
-- 
2.43.0


From 8dd558cac54c1efd7505c99c21cfd01e384ff2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 64/84] fix: mg_strcmp ordered bytes above 127 before ASCII

---
 src/common/mg_str.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/mg_str.c b/src/common/mg_str.c
index 25f7d75..c8d5bbd 100644
--- a/src/common/mg_str.c
+++ b/src/common/mg_str.c
@@ -96,8 +96,8 @@ int mg_strcmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = str1.p[i];
-    int c2 = str2.p[i];
+    int c1 = (unsigned char) str1.p[i];
+    int c2 = (unsigned char) str2.p[i];
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -125,8 +125,8 @@ int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = tolower((int) str1.p[i]);
-    int c2 = tolower((int) str2.p[i]);
+    int c1 = tolower((unsigned char) str1.p[i]);
+    int c2 = tolower((unsigned char) str2.p[i]);
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
-- 
2.43.0


From 0b82a81498a48a05113e6ccfa94796a92b394705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 65/84] fix: ? in a glob matched a slash

---
 src/common/str_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index 2f325fb..a0f6bff 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -491,7 +491,7 @@ size_t mg_match_prefix_n(const struct mg_str pattern, const struct mg_str str) {
   }
 
   for (; i < pattern.len && j < str.len; i++, j++) {
-    if (pattern.p[i] == '?') {
+    if (pattern.p[i] == '?' && str.p[j] != '/') {
       continue;
     } else if (pattern.p[i] == '*') {
       i++;
-- 
2.43.0


From bfbff166459de822d18b4405d3ad97cab13be8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 66/84] fix: a * at the end of the string did not match zero
 characters

---
 src/common/str_util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index a0f6bff..12fbcf6 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -515,6 +515,8 @@ size_t mg_match_prefix_n(const struct mg_str pattern, const struct mg_str str) {
       break;
     }
   }
+  /* At the end of the string, stars match zero characters */
+  while (j == str.len && i < pattern.len && pattern.p[i] == '*') i++;
   if (i < pattern.len && pattern.p[i] == '$') {
     return j == str.len ? str.len : 0;
   }
-- 
2.43.0


From bdf57d50e0b0493d67715cca1f29218ad2a6e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 67/84] fix: c_snprintf %5s padded by the whole width

---
 src/common/str_util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index 12fbcf6..787d984 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -164,7 +164,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
       if (ch == 's') {
         const char *s = va_arg(ap, const char *); /* Always fetch parameter */
         int j;
-        int pad = field_width - (precision >= 0 ? c_strnlen(s, precision) : 0);
+        int pad = field_width;
+        if (s != NULL && pad > 0) {
+          pad -= (int) (precision > 0 ? c_strnlen(s, precision) : strlen(s));
+        }
         for (j = 0; j < pad; j++) {
           C_SNPRINTF_APPEND_CHAR(' ');
         }
-- 
2.43.0


From c129ca79e8831a7f50f63ca0f08479c63215b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 68/84] fix: c_snprintf printed big unsigned and the lowest
 integers wrong, ignored the sign in the width

---
 src/common/str_util.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/common/str_util.c b/src/common/str_util.c
index 787d984..1b49ec8 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -49,15 +49,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   return vsnprintf(buf, buf_size, fmt, ap);
 }
 #else
-static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
-                  int field_width) {
+static int c_utoa(char *buf, size_t buf_size, uint64_t num, int neg, int base,
+                  int flags, int field_width) {
   char tmp[40];
-  int i = 0, k = 0, neg = 0;
-
-  if (num < 0) {
-    neg++;
-    num = -num;
-  }
+  int i = 0, k = 0;
 
   /* Print into temporary buffer - in reverse order */
   do {
@@ -72,7 +67,7 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
 
   /* Zero padding */
   if (flags && C_SNPRINTF_FLAG_ZERO) {
-    while (k < field_width && k < (int) sizeof(tmp) - 1) {
+    while (k + neg < field_width && k < (int) sizeof(tmp) - 1) {
       tmp[k++] = '0';
     }
   }
@@ -90,6 +85,13 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
   return i;
 }
 
+static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
+                  int field_width) {
+  int neg = num < 0;
+  return c_utoa(buf, buf_size, neg ? 0 - (uint64_t) num : (uint64_t) num, neg,
+                base, flags, field_width);
+}
+
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) WEAK;
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   int ch, i = 0, len_mod, flags, precision, field_width;
@@ -197,19 +199,19 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int64_t), 10, flags,
                     field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 0) {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'l') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned long),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned long), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'z') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, size_t),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, size_t), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if (ch == 'p') {
         unsigned long num = (unsigned long) (uintptr_t) va_arg(ap, void *);
         C_SNPRINTF_APPEND_CHAR('0');
         C_SNPRINTF_APPEND_CHAR('x');
-        i += c_itoa(buf + i, buf_size - i, num, 16, flags, 0);
+        i += c_utoa(buf + i, buf_size - i, num, 0, 16, flags, 0);
       } else {
 #ifndef NO_LIBC
         /*
-- 
2.43.0


From e219405f166261a5c263a79b3d326fd5654cabab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 69/84] fix: the JSON parser read past the buffer after a
 trailing backslash

---
 src/frozen/frozen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index d4489bc..4bf32d4 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -247,6 +247,7 @@ static int json_parse_string(struct frozen *f) {
       EXPECT(ch >= 32 && len > 0, JSON_STRING_INVALID); /* No control chars */
       EXPECT(len <= json_left(f), JSON_STRING_INCOMPLETE);
       if (ch == '\\') {
+        EXPECT(json_left(f) > 1, JSON_STRING_INCOMPLETE);
         EXPECT((n = json_get_escape_len(f->cur + 1, json_left(f))) > 0, n);
         len += n;
       } else if (ch == '"') {
-- 
2.43.0


From 3b5bf16dd6a21ac126acf0aff2c101ed0d1424b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 70/84] fix: json_printf mishandled %e %E %F %G and hung on %p
 %X %o %i %%

---
 src/frozen/frozen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 4bf32d4..77d4200 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -651,8 +651,9 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
          * TODO(dfrank): reimplement %s and %.*s in order to avoid that.
          */
 
-        const char *end_of_format_specifier = "sdfFeEgGlhuIcx.*-0123456789";
-        int n = strspn(fmt + 1, end_of_format_specifier);
+        const char *end_of_format_specifier =
+            "sdifFeEgGlhuIcxXop.*-0123456789";
+        int n = fmt[1] == '%' ? 1 : strspn(fmt + 1, end_of_format_specifier);
         char *pbuf = buf;
         int need_len, size = sizeof(buf);
         char fmt2[20];
@@ -713,6 +714,12 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
             case 'd':
               (void) va_arg(ap, int);
               break;
+            case '%':
+              break; /* No argument */
+            case 'e':
+            case 'E':
+            case 'F':
+            case 'G':
             case 'g':
             case 'f':
               (void) va_arg(ap, double);
-- 
2.43.0


From fdcadcc5c65bebd2b55e4ae9571bbc1ccd8d05f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 71/84] fix: json_next_key took keys with the path as prefix
 for members

---
 src/frozen/frozen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 77d4200..17ca6c5 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1416,6 +1416,7 @@ static void json_next_cb(void *userdata, const char *name, size_t name_len,
   if (d->found) return;
   if (d->path_len >= (int) strlen(path)) return;
   if (strncmp(d->path, path, d->path_len) != 0) return;
+  if (p[0] != '.' && p[0] != '[') return; /* Just a key with that prefix */
   if (strchr(p + 1, '.') != NULL) return; /* More nested objects - skip */
   if (strchr(p + 1, '[') != NULL) return; /* Ditto for arrays */
   // {OBJECT,ARRAY}_END types do not pass name, _START does. Save key.
-- 
2.43.0


From 833c0ec1ad1eb928dff2ea6ec22fc6d784370fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 72/84] fix: json_scanf did not leave an object after a plain
 conversion

---
 src/frozen/frozen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 17ca6c5..e1fdc7d 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1083,7 +1083,8 @@ int json_vscanf(const char *s, int len, const char *fmt, va_list ap) {
           memcpy(fmtbuf, fmt + i, conv_len);
           fmtbuf[conv_len] = '\0';
           i += conv_len;
-          i += strspn(fmt + i, delims);
+          /* A closing brace is needed to leave the object's path */
+          i += strspn(fmt + i, ", \t\r\n]");
           break;
         }
       }
-- 
2.43.0


From 58cf345fcd7a2b8c1468bbc3c37d408552fa007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 73/84] fix: json_scanf ignored quotes around keys and keys
 starting with _

---
 src/frozen/frozen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index e1fdc7d..b70aee3 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1089,9 +1089,10 @@ int json_vscanf(const char *s, int len, const char *fmt, va_list ap) {
         }
       }
       json_walk(s, len, json_scanf_cb, &info);
-    } else if (json_isalpha(fmt[i]) || json_get_utf8_char_len(fmt[i]) > 1) {
+    } else if (fmt[i] == '_' || json_isalpha(fmt[i]) ||
+               json_get_utf8_char_len(fmt[i]) > 1) {
       char *pe;
-      const char *delims = ": \r\n\t";
+      const char *delims = "\": \r\n\t"; /* Keys may be quoted */
       int key_len = strcspn(&fmt[i], delims);
       if ((p = strrchr(path, '.')) != NULL) p[1] = '\0';
       pe = path + strlen(path);
-- 
2.43.0


From 69441481f41afe32ce387596e47151a59a91b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:53 +0000
Subject: [PATCH 74/84] fix: json_setf corrupted strings, containers and keys
 with common prefixes

---
 src/frozen/frozen.c | 129 ++++++++++++++++++++------------------------
 1 file changed, 58 insertions(+), 71 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index b70aee3..aee28c5 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1165,56 +1165,50 @@ char *json_fread(const char *path) {
 struct json_setf_data {
   const char *json_path;
   const char *base; /* Pointer to the source JSON string */
-  int matched;      /* Matched part of json_path */
-  int pos;          /* Offset of the mutated value begin */
-  int end;          /* Offset of the mutated value end */
-  int prev;         /* Offset of the previous token end */
+  int found;        /* Non-0 if there is a value at json_path */
+  int pos;          /* Offset of that value begin */
+  int end;          /* Offset of that value end */
+  int prev;         /* Offset where the previous value or its container begin */
+  int last;         /* Offset of the last seen token end */
+  int matched;      /* Length of the innermost container's path, or -1 */
+  int ins;          /* Offset where new values of that container go */
+  int empty;        /* Non-0 if that container is empty */
 };
 
-static int get_matched_prefix_len(const char *s1, const char *s2) {
-  int i = 0;
-  while (s1[i] && s2[i] && s1[i] == s2[i]) i++;
-  return i;
-}
-
 static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
                           const char *path, const struct json_token *t) {
   struct json_setf_data *data = (struct json_setf_data *) userdata;
-  int off, len = get_matched_prefix_len(path, data->json_path);
+  int off, end, len = (int) strlen(path);
+  int is_end = t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END;
+  int is_match = strcmp(path, data->json_path) == 0;
+
+  /* For deletion, we need to know where the previous value ends */
+  if (is_match && !is_end) data->prev = data->last;
   if (t->ptr == NULL) return;
+
   off = t->ptr - data->base;
-  if (len > data->matched) data->matched = len;
-
-  /*
-   * If there is no exact path match, set the mutation position to tbe end
-   * of the object or array
-   */
-  if (len < data->matched && data->pos == 0 &&
-      (t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END)) {
-    data->pos = data->end = data->prev;
+  end = off + t->len;
+  if (t->type == JSON_TYPE_STRING) { /* Include quotes */
+    off--;
+    end++;
   }
-
-  /* Exact path match. Set mutation position to the value of this token */
-  if (strcmp(path, data->json_path) == 0 && t->type != JSON_TYPE_OBJECT_START &&
-      t->type != JSON_TYPE_ARRAY_START) {
+  if (is_match) {
+    data->found = 1;
     data->pos = off;
-    data->end = off + t->len;
-  }
-
-  /*
-   * For deletion, we need to know where the previous value ends, because
-   * we don't know where matched value key starts.
-   * When the mutation position is not yet set, remember each value end.
-   * When the mutation position is already set, but it is at the beginning
-   * of the object/array, we catch the end of the object/array and see
-   * whether the object/array start is closer then previously stored prev.
-   */
-  if (data->pos == 0) {
-    data->prev = off + t->len; /* pos is not yet set */
-  } else if ((t->ptr[0] == '[' || t->ptr[0] == '{') && off + 1 < data->pos &&
-             off + 1 > data->prev) {
-    data->prev = off + 1;
+    data->end = end;
+  } else if (is_end) {
+    /* The first value of a container follows the container's beginning */
+    if (data->found && off < data->pos && off >= data->prev) {
+      data->prev = off + 1;
+    }
+    if (data->matched < 0 && strncmp(path, data->json_path, len) == 0 &&
+        data->json_path[len] == (t->type == JSON_TYPE_OBJECT_END ? '.' : '[')) {
+      data->matched = len;
+      data->empty = data->last <= off;
+      data->ins = data->empty ? off + 1 : data->last;
+    }
   }
+  data->last = end;
   (void) name;
   (void) name_len;
 }
@@ -1227,53 +1221,46 @@ int json_vsetf(const char *s, int len, struct json_out *out,
   memset(&data, 0, sizeof(data));
   data.json_path = json_path;
   data.base = s;
-  data.end = len;
+  data.matched = -1;
   json_walk(s, len, json_vsetf_cb, &data);
-  if (json_fmt == NULL) {
+  if (json_fmt == NULL && data.found) {
     /* Deletion codepath */
     json_printf(out, "%.*s", data.prev, s);
     /* Trim comma after the value that begins at object/array start */
-    if (s[data.prev - 1] == '{' || s[data.prev - 1] == '[') {
+    if (data.prev > 0 && (s[data.prev - 1] == '{' || s[data.prev - 1] == '[')) {
       int i = data.end;
       while (i < len && json_isspace(s[i])) i++;
-      if (s[i] == ',') data.end = i + 1; /* Point after comma */
+      if (i < len && s[i] == ',') data.end = i + 1; /* Point after comma */
     }
     json_printf(out, "%.*s", len - data.end, s + data.end);
-  } else {
+  } else if (json_fmt != NULL && data.found) {
     /* Modification codepath */
-    int n, off = data.matched, depth = 0;
-
-    /* Print the unchanged beginning */
     json_printf(out, "%.*s", data.pos, s);
-
+    json_vprintf(out, json_fmt, ap);
+    json_printf(out, "%.*s", len - data.end, s + data.end);
+  } else if (json_fmt != NULL && data.matched >= 0) {
     /* Add missing keys */
-    while ((n = strcspn(&json_path[off], ".[")) > 0) {
-      if (s[data.prev - 1] != '{' && s[data.prev - 1] != '[' && depth == 0) {
-        json_printf(out, ",");
-      }
-      if (off > 0 && json_path[off - 1] != '.') break;
-      json_printf(out, "%.*Q:", n, json_path + off);
-      off += n;
-      if (json_path[off] != '\0') {
-        json_printf(out, "%c", json_path[off] == '.' ? '{' : '[');
-        depth++;
-        off++;
-      }
+    int i, n;
+    json_printf(out, "%.*s", data.ins, s);
+    if (!data.empty) json_printf(out, ",");
+    for (i = data.matched; json_path[i] != '\0'; i += n) {
+      int is_key = json_path[i] == '.';
+      if (i > data.matched) json_printf(out, is_key ? "{" : "[");
+      n = (int) strcspn(&json_path[i + 1], ".[") + 1;
+      if (is_key) json_printf(out, "%.*Q:", n - 1, &json_path[i + 1]);
     }
-    /* Print the new value */
     json_vprintf(out, json_fmt, ap);
-
     /* Close brackets/braces of the added missing keys */
-    for (; off > data.matched; off--) {
-      int ch = json_path[off];
-      const char *p = ch == '.' ? "}" : ch == '[' ? "]" : "";
-      json_printf(out, "%s", p);
+    while (--i > data.matched) {
+      if (json_path[i] == '.') json_printf(out, "}");
+      if (json_path[i] == '[') json_printf(out, "]");
     }
-
-    /* Print the rest of the unchanged string */
-    json_printf(out, "%.*s", len - data.end, s + data.end);
+    json_printf(out, "%.*s", len - data.ins, s + data.ins);
+  } else {
+    /* Nothing to change */
+    json_printf(out, "%.*s", len, s);
   }
-  return data.end > data.pos ? 1 : 0;
+  return data.found;
 }
 
 int json_setf(const char *s, int len, struct json_out *out,
-- 
2.43.0


From 088b4f3f6411e4a0d0a6901f787b9f5cfcbe2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 75/84] fix: DataView accepted negative offsets

---
 lib/api_dataview.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_dataview.js b/lib/api_dataview.js
index 428216a..570ac65 100644
--- a/lib/api_dataview.js
+++ b/lib/api_dataview.js
@@ -206,7 +206,7 @@ let DataView = {
   },
 
   _cl: function(idx, len, ilen) {
-    if (len !== undefined && idx + ilen > len) {
+    if (len !== undefined && !(idx >= 0 && idx + ilen <= len)) {
       die(DataView._errm);
       return false;
     }
-- 
2.43.0


From 22967547e6e6f06f5dbafe7fab753edc05d3c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 76/84] fix: File.write did not end when writing failed

---
 lib/api_file.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_file.js b/lib/api_file.js
index ea01b8d..b2c2f43 100644
--- a/lib/api_file.js
+++ b/lib/api_file.js
@@ -49,7 +49,7 @@ let File = {
       let len = 5;  // Use light 5-byte strings for writing
       if (off + len > tot) len = tot - off;
       let n = File.fwrite(str.slice(off, off + len), 1, len, fp);
-      // if (n <= 0) break;
+      if (n <= 0) break;
       off += n;
     }
     File.fclose(fp);
-- 
2.43.0


From c8910f7b6e1a75be1f42061ba4a81e6e821f5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:37 +0000
Subject: [PATCH 77/84] fix: C functions got a script's NaN as a signaling NaN

---
 src/mjs_primitive.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_primitive.c b/src/mjs_primitive.c
index ae28188..91538db 100644
--- a/src/mjs_primitive.c
+++ b/src/mjs_primitive.c
@@ -52,7 +52,8 @@ static double get_double(mjs_val_t v) {
 
 double mjs_get_double(struct mjs *mjs, mjs_val_t v) {
   (void) mjs;
-  return get_double(v);
+  /* The packed NaN is a signaling one, C functions expect a quiet one */
+  return v == MJS_TAG_NAN ? NAN : get_double(v);
 }
 
 int mjs_get_int(struct mjs *mjs, mjs_val_t v) {
-- 
2.43.0


From 820d50149cce65ec988aaf9ac5f9bcb25724b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 78/84] fix: the disassembler decoded the last byte of the line
 map as an instruction

---
 src/mjs_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index 023f5e5..c867535 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -270,7 +270,7 @@ void mjs_disasm(const uint8_t *code, size_t len) {
     i += delta;
 
     if (map_offset > 0 && i == start + map_offset) {
-      i = start + total_size - 1;
+      i = start + total_size;
       continue;
     }
   }
-- 
2.43.0


From 34570f639f181e8a51401528f1bee2fc0a6fa8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:35 +0000
Subject: [PATCH 79/84] fix: array indexes of twenty digits were cut and mixed
 up

---
 src/mjs_array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mjs_array.c b/src/mjs_array.c
index 649819a..8e95d8d 100644
--- a/src/mjs_array.c
+++ b/src/mjs_array.c
@@ -54,7 +54,7 @@ mjs_val_t mjs_array_get2(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 
   if (mjs_is_object(arr)) {
     struct mjs_property *p;
-    char buf[20];
+    char buf[21]; /* 64 bits in decimal, and the terminator */
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     p = mjs_get_own_property(mjs, arr, buf, n);
     if (p != NULL) {
@@ -95,7 +95,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
   mjs_err_t ret = MJS_OK;
 
   if (mjs_is_object(arr)) {
-    char buf[20];
+    char buf[21]; /* 64 bits in decimal, and the terminator */
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     ret = mjs_set(mjs, arr, buf, n, v);
   } else {
@@ -106,7 +106,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 }
 
 void mjs_array_del(struct mjs *mjs, mjs_val_t arr, unsigned long index) {
-  char buf[20];
+  char buf[21]; /* 64 bits in decimal, and the terminator */
   int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
   mjs_del(mjs, arr, buf, n);
 }
-- 
2.43.0


From 7c988d28fbf1698b0af9d070b93b8f83b6a71850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 80/84] fix: conditional and logical expressions passed on
 `this` of their last operand

---
 src/mjs_parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7742da6..f765972 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -116,6 +116,8 @@ static mjs_err_t enter_level(struct pstate *p) {
       if (off_if != 0) {                                                       \
         mjs_bcode_insert_offset(p, p->mjs, off_if,                             \
                                 p->cur_idx - off_if - MJS_INIT_OFFSET_SIZE);   \
+        /* A property in the 2nd operand does not set `this` of a call */      \
+        emit_byte(p, OP_NOP);                                                  \
       }                                                                        \
     }                                                                          \
   binop_clean:                                                                 \
@@ -519,6 +521,9 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
 
     mjs_bcode_insert_offset(p, p->mjs, off_if,
                             off_endif - off_if - MJS_INIT_OFFSET_SIZE);
+
+    /* A property in the last operand does not set `this` of a call */
+    emit_byte(p, OP_NOP);
   }
 
   return res;
-- 
2.43.0


From 50bb5f35bc336534fc9d737795c168bb483368d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 81/84] fix: remainder of a division by a number beyond 31 bits
 was wrong

---
 src/mjs_exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 5dfc7d9..2457ff7 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -138,7 +138,7 @@ static double do_arith_op(double da, double db, int op, bool *resnan) {
        * TODO(dfrank): probably support remainder operation as it is in JS
        * (which works with non-integer divisor).
        */
-      db = (int) db;
+      db = (double) (int64_t) db;
       if (db != 0) {
         bool neg = false;
         if (da < 0) {
-- 
2.43.0


From 075d259b4a47abb9823a42a73c4494399292524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:03 +0000
Subject: [PATCH 82/84] fix: property names with blanks, signs or leading zeros
 counted as array indexes

---
 src/mjs_string.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mjs_string.c b/src/mjs_string.c
index bfd1af6..fb21627 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -240,6 +240,10 @@ str_to_ulong(struct mjs *mjs, mjs_val_t v, int *ok, unsigned long *res) {
   size_t len = 0;
   const char *p = mjs_get_string(mjs, &v, &len);
   *res = cstr_to_ulong(p, len, ok);
+  /* Names with a sign, blanks or leading zeros are not array indexes */
+  if (*ok && (!isdigit((unsigned char) p[0]) || (p[0] == '0' && len > 1))) {
+    *ok = 0;
+  }
 
   return ret;
 }
-- 
2.43.0


From fd98ee330a2a6b5b8e7e08bb4390282736fb8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:37 +0000
Subject: [PATCH 83/84] fix: line breaks inside of string literals were not
 counted

---
 src/mjs_tok.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_tok.c b/src/mjs_tok.c
index da85f44..e830d29 100644
--- a/src/mjs_tok.c
+++ b/src/mjs_tok.c
@@ -114,6 +114,7 @@ static int getstr(struct pstate *p) {
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
     } else {
+      if (p->pos[0] == '\n') p->line_no++;
       p->pos++;
     }
   }
-- 
2.43.0


From e7bebbf3fc08e65cf0bf8ba4dadd61ea43394587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 84/84] fix: names of foreign functions were cut to 99
 characters

---
 src/mjs_ffi.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 58a101f..e1f766b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -185,7 +185,7 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
 
   /* Parse function name {{{ */
   if (!sig->is_callback) {
-    char buf[100];
+    char *name;
     if (mjs->dlsym == NULL) {
       ret = MJS_TYPE_ERROR;
       mjs_prepend_errorf(mjs, ret,
@@ -193,13 +193,15 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
       goto clean;
     }
 
-    snprintf(buf, sizeof(buf), "%.*s", (int) fn.len, fn.p);
-    sig->fn = (ffi_fn_t *) mjs->dlsym(RTLD_DEFAULT, buf);
+    name = (char *) calloc(1, fn.len + 1);
+    memcpy(name, fn.p, fn.len);
+    sig->fn = (ffi_fn_t *) mjs->dlsym(RTLD_DEFAULT, name);
     if (sig->fn == NULL) {
       ret = MJS_TYPE_ERROR;
-      mjs_prepend_errorf(mjs, ret, "dlsym('%s') failed", buf);
-      goto clean;
+      mjs_prepend_errorf(mjs, ret, "dlsym('%s') failed", name);
     }
+    free(name);
+    if (ret != MJS_OK) goto clean;
   } else {
     tmp_e = strchr(tmp_e, ')');
     if (tmp_e == NULL) {
-- 
2.43.0

