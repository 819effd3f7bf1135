From 34a82d1faad91551520b1f34ccc7ac51fb1a71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 01/39] sim: guarded hooks (MJS_SIM) in the instruction loop

---
 src/mjs_exec.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..1c38ced 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -23,6 +23,16 @@
 #include <sys/mman.h>
 #endif
 
+#ifdef MJS_SIM
+/*
+ * Deterministic simulation seam (off unless MJS_SIM is defined): a simulator
+ * linked with the engine decides, before each instruction, whether garbage
+ * collection is due, and after it, whether the instruction fails.
+ */
+int mjs_sim_before_op(struct mjs *mjs);
+int mjs_sim_after_op(struct mjs *mjs);
+#endif
+
 /*
  * Pushes call stack frame. Offset is a global bcode offset. Retval_stack_idx
  * is an index in mjs->stack at which return value should be written later.
@@ -574,6 +584,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   for (i = off; i < bp.data.len; i++) {
     mjs->cur_bcode_offset = i;
 
+#ifdef MJS_SIM
+    if (mjs_sim_before_op(mjs)) mjs->need_gc = 1;
+#endif
     if (mjs->need_gc) {
       if (maybe_gc(mjs)) {
         mjs->need_gc = 0;
@@ -968,6 +981,11 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         i = bp.data.len;
         break;
     }
+#ifdef MJS_SIM
+    if (mjs->error == MJS_OK && mjs_sim_after_op(mjs)) {
+      mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "simulated failure");
+    }
+#endif
     if (mjs->error != MJS_OK) {
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
-- 
2.43.0


From ccd83c3a64bd08c141a8b518c010bd16788a0b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:31 +0000
Subject: [PATCH 02/39] fix: keep pending call receivers alive across garbage
 collection

The receiver of a method call lives only in arg_stack while the call's
arguments are evaluated; mjs_gc did not treat arg_stack as a root, so a
collection at that moment freed or moved it.
---
 src/mjs_gc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index a129fa2..75052db 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -494,6 +494,8 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  /* receivers of calls whose arguments are still being evaluated */
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
-- 
2.43.0


From 8e162f0aecad68bc35a680df3ee457b80f4026cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:38 +0000
Subject: [PATCH 03/39] fix: mjs_disown on an engine that owns no values read
 before the list

---
 src/mjs_core.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..09f4c8d 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -285,8 +285,12 @@ void mjs_own(struct mjs *mjs, mjs_val_t *v) {
 }
 
 int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
-  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
-                                   mjs->owned_values.len - sizeof(v));
+  mjs_val_t **vp;
+
+  if (mjs->owned_values.len < sizeof(v)) return 0;
+
+  vp = (mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
+                       sizeof(v));
 
   for (; (char *) vp >= mjs->owned_values.buf; vp--) {
     if (*vp == v) {
-- 
2.43.0


From 621ca0c83659ebd956b565fd27345e0c4f831f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 04/39] fix: cs_read_file leaked the file on a short read and
 ignored ftell and seek failures

---
 src/common/cs_file.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 24d0ce9..030284c 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -31,19 +31,22 @@ char *cs_read_file(const char *path, size_t *size) WEAK;
 char *cs_read_file(const char *path, size_t *size) {
   FILE *fp;
   char *data = NULL;
+  long len;
   if ((fp = fopen(path, "rb")) == NULL) {
-  } else if (fseek(fp, 0, SEEK_END) != 0) {
+  } else if (fseek(fp, 0, SEEK_END) != 0 || (len = ftell(fp)) < 0 ||
+             fseek(fp, 0, SEEK_SET) != 0) {
+    /* Some platforms might not have rewind(), hence fseek(), Oo */
     fclose(fp);
   } else {
-    *size = ftell(fp);
+    *size = (size_t) len;
     data = (char *) malloc(*size + 1);
     if (data != NULL) {
-      fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
-        return NULL;
+        data = NULL;
+      } else {
+        data[*size] = '\0';
       }
-      data[*size] = '\0';
     }
     fclose(fp);
   }
-- 
2.43.0


From 43920336a316e671411df301000a20419d610416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:26 +0000
Subject: [PATCH 05/39] fix: calling a function of a file no longer changes
 whether load() considers the file loaded

---
 src/mjs_exec.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 1c38ced..2afe87c 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1003,8 +1003,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
-  /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  /*
+   * Remember result of the evaluation of this bcode part, unless only one of
+   * its functions was called: that doesn't evaluate the part
+   */
+  {
+    struct mjs_bcode_part *part = mjs_bcode_part_get_by_offset(mjs, start_off);
+    if (start_off == part->start_idx) part->exec_res = mjs->error;
+  }
 
   *res = mjs_pop(mjs);
   return mjs->error;
-- 
2.43.0


From 9eab990a16516afbd00b148b4a38babb2cb56f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 06/39] fix: a failed script left 'this' of the failing call
 behind

---
 src/mjs_exec.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 2afe87c..18e5f37 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -570,6 +570,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int arg_stack_len = mjs->arg_stack.len;
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
+  mjs_val_t this_obj = mjs->vals.this_obj;
   size_t start_off = off;
   const uint8_t *code;
 
@@ -995,6 +996,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
       mjs->arg_stack.len = arg_stack_len;
       mjs->scopes.len = scopes_len;
       mjs->loop_addresses.len = loop_addresses_len;
+      mjs->vals.this_obj = this_obj;
 
       /* script will evaluate to `undefined` */
       mjs_push(mjs, MJS_UNDEFINED);
-- 
2.43.0


From e3732f740871547c31147bf389af63c3eb31c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:21 +0000
Subject: [PATCH 07/39] fix: applying a host or imported function left its call
 frame behind, read a stale result slot and returned an earlier error

---
 src/mjs_exec.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 18e5f37..a4bb8a1 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1147,7 +1147,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
+  mjs_val_t r = MJS_UNDEFINED, prev_this_val, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1161,7 +1161,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1177,17 +1176,23 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
-  if (mjs_is_foreign(func)) {
-    ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
-  } else if (mjs_is_ffi_sig(func)) {
-    mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
+  if (mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
+    /* There's no OP_RETURN to restore the frame, unlike for a JS function */
+    mjs_set_errorf(mjs, MJS_OK, NULL);
+    if (mjs_is_foreign(func)) {
+      ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
+    } else {
+      mjs_ffi_call2(mjs);
+    }
+    if (mjs->error == MJS_OK) {
+      call_stack_restore_frame(mjs);
+      r = mjs_pop(mjs);
+    }
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
-    if (res != NULL) *res = r;
   }
+  if (res != NULL) *res = r;
 
   /*
    * If there was an error, we need to restore frame and do the cleanup
-- 
2.43.0


From 404db1f0448b6d5f487ac4dd160efb08cd9a2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:23 +0000
Subject: [PATCH 08/39] fix: ffi_cb_free rejected host and imported functions,
 which can be registered as callbacks

---
 src/mjs_ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 129bd1f..76a251d 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -973,7 +973,7 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
   mjs_val_t func = mjs_arg(mjs, 0);
   mjs_val_t userdata = mjs_arg(mjs, 1);
 
-  if (mjs_is_function(func)) {
+  if (mjs_is_function(func) || mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
     struct mjs_ffi_cb_args **pitem =
         ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
     if (*pitem != NULL) {
-- 
2.43.0


From 55cdd1e03d28537aee29d55e15f48b3f68733d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:31 +0000
Subject: [PATCH 09/39] fix: negative int arguments of callbacks arrived as
 large positive numbers

---
 src/mjs_ffi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 76a251d..89cbc6c 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -349,7 +349,7 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
         args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
-- 
2.43.0


From df06382a8145a5cf4135fc1a9b5387f2e099a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:47 +0000
Subject: [PATCH 10/39] fix: a callback registered with a second signature was
 called with the first one's argument types

---
 src/mjs_ffi.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 89cbc6c..32bbed5 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -515,11 +515,18 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 }
 /* }}} */
 
+/*
+ * Finds the item with the given function and userdata and, unless `sig` is
+ * NULL, the same callback signature.
+ */
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -883,7 +890,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -974,9 +982,9 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
   mjs_val_t userdata = mjs_arg(mjs, 1);
 
   if (mjs_is_function(func) || mjs_is_foreign(func) || mjs_is_ffi_sig(func)) {
-    struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
+    struct mjs_ffi_cb_args **pitem = &mjs->ffi_cb_args;
+    /* The pair could be registered with more than one callback signature */
+    while (*(pitem = ffi_get_matching(pitem, func, userdata, NULL)) != NULL) {
       /* Found matching item: remove it from the linked list, and free */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
-- 
2.43.0


From 98c52bb2a9fc345cf6750fbda3984ff3089013bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 11/39] fix: callback signatures mixing a double with further
 arguments were accepted and delivered wrongly

---
 src/mjs_ffi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 32bbed5..05f9bb4 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -591,7 +591,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument: implemented only next to a lone userdata */
+            if (sig->args_cnt != 2) break;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
-- 
2.43.0


From baf83df9756cfa8e4e7735320f4ad636df23b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:58 +0000
Subject: [PATCH 12/39] fix: for-in loop keeps no reference to a deleted
 property

---
 src/mjs_object.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..a2655b4 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -215,6 +215,22 @@ MJS_PRIVATE void mjs_destroy_property(struct mjs_property **p) {
   *p = NULL;
 }
 
+/*
+ * A `for in` loop which currently stands on a property that gets deleted keeps
+ * a reference to the property to visit next instead: the deleted one may be
+ * reclaimed and reused any time. Such references have the lowest bit set.
+ */
+static void mjs_iterators_skip(struct mjs *mjs, struct mjs_property *prop) {
+  mjs_val_t cur = mjs_mk_foreign(mjs, prop);
+  mjs_val_t ahead = mjs_mk_foreign(mjs, (void *) ((uintptr_t) prop | 1));
+  mjs_val_t next = mjs_mk_foreign(mjs, (void *) ((uintptr_t) prop->next | 1));
+  mjs_val_t *v = (mjs_val_t *) mjs->stack.buf;
+  mjs_val_t *end = (mjs_val_t *) (mjs->stack.buf + mjs->stack.len);
+  for (; v < end; v++) {
+    if (*v == cur || *v == ahead) *v = next;
+  }
+}
+
 /*
  * See comments in `object_public.h`
  */
@@ -237,6 +253,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
       } else {
         get_object_struct(obj)->properties = prop->next;
       }
+      mjs_iterators_skip(mjs, prop);
       mjs_destroy_property(&prop);
       return 0;
     }
@@ -252,7 +269,13 @@ mjs_val_t mjs_next(struct mjs *mjs, mjs_val_t obj, mjs_val_t *iterator) {
     struct mjs_object *o = get_object_struct(obj);
     p = o->properties;
   } else {
-    p = ((struct mjs_property *) get_ptr(*iterator))->next;
+    uintptr_t cur = (uintptr_t) get_ptr(*iterator);
+    if (cur & 1) {
+      /* The current property was deleted, see `mjs_iterators_skip()` */
+      p = (struct mjs_property *) (cur & ~(uintptr_t) 1);
+    } else {
+      p = ((struct mjs_property *) cur)->next;
+    }
   }
 
   if (p == NULL) {
-- 
2.43.0


From bdd08677ed200009b69a7641558fd3958e1c0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 13/39] fix: cs_mmap_file left its descriptor open and used the
 size of a failed fstat

---
 src/common/cs_file.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 030284c..200bc6c 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -24,6 +24,7 @@
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #endif
 
 #ifndef EXCLUDE_COMMON
@@ -57,14 +58,16 @@ char *cs_read_file(const char *path, size_t *size) {
 #ifdef CS_MMAP
 char *cs_mmap_file(const char *path, size_t *size) WEAK;
 char *cs_mmap_file(const char *path, size_t *size) {
-  char *r;
+  char *r = (char *) MAP_FAILED;
   int fd = open(path, O_RDONLY, 0);
   struct stat st;
   if (fd < 0) return NULL;
-  fstat(fd, &st);
-  *size = (size_t) st.st_size;
-  r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
-  if (r == MAP_FAILED) return NULL;
-  return r;
+  if (fstat(fd, &st) == 0) {
+    *size = (size_t) st.st_size;
+    r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  }
+  /* The mapping, if any, outlives the descriptor */
+  close(fd);
+  return r == (char *) MAP_FAILED ? NULL : r;
 }
 #endif
-- 
2.43.0


From cb6360eea073251314583598de5d9b1617e2ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 14/39] fix: compiled-code cache: keep the program in RAM
 unless the cache file was written and mapped intact, never change a mapped
 cache file in place

---
 src/mjs_exec.c | 140 ++++++++++++++++++++++++++++---------------------
 1 file changed, 80 insertions(+), 60 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index a4bb8a1..6cadb53 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1018,6 +1018,84 @@ clean:
   return mjs->error;
 }
 
+#if MJS_GENERATE_JSC && defined(CS_MMAP)
+/*
+ * mmap the given .jsc file; returns NULL unless it contains exactly the given
+ * bcode.
+ */
+static const char *mjs_map_jsc(const char *filename,
+                               const struct mjs_bcode_part *bp) {
+  size_t size = 0;
+  char *data = cs_mmap_file(filename, &size);
+  if (data != NULL &&
+      (size != bp->data.len || memcmp(data, bp->data.p, size) != 0)) {
+    munmap(data, size);
+    data = NULL;
+  }
+  return data;
+}
+
+/*
+ * Replace the RAM buffer of the bcode part which belongs to the source file
+ * `path` with the mmapped .jsc counterpart of that file, after creating or
+ * updating it if needed. If anything goes wrong, the bcode part stays in RAM.
+ */
+static void mjs_bcode_part_to_jsc(struct mjs_bcode_part *bp, const char *path) {
+  const char *jsext = ".js";
+  const char *jscext = ".jsc";
+  const char *tmpext = ".jsc.tmp";
+  const char *data = NULL;
+  int basename_len = (int) strlen(path) - strlen(jsext);
+  if (basename_len > 0 && strcmp(path + basename_len, jsext) == 0) {
+    /* source file has a .js extension: construct .jsc filename */
+    char filename_jsc[basename_len + strlen(jscext) + 1 /* nul-term */];
+    char filename_tmp[basename_len + strlen(tmpext) + 1 /* nul-term */];
+    memcpy(filename_jsc, path, basename_len);
+    strcpy(filename_jsc + basename_len, jscext);
+    memcpy(filename_tmp, path, basename_len);
+    strcpy(filename_tmp + basename_len, tmpext);
+
+    /*
+     * before writing .jsc file, check if it already exists and has the
+     * same contents
+     *
+     * TODO(dfrank): probably store crc32 before the bcode data, and only
+     * compare it.
+     */
+    data = mjs_map_jsc(filename_jsc, bp);
+
+    if (data == NULL) {
+      /*
+       * The existing .jsc file might be mmapped already, so never change it in
+       * place: write a new file and move it over.
+       */
+      FILE *fp;
+      remove(filename_tmp);
+      fp = fopen(filename_tmp, "wbx");
+      if (fp != NULL) {
+        int ok = fwrite(bp->data.p, 1, bp->data.len, fp) == bp->data.len;
+        if (fclose(fp) != 0) ok = 0;
+        if (ok && rename(filename_tmp, filename_jsc) == 0) {
+          data = mjs_map_jsc(filename_jsc, bp);
+        } else {
+          remove(filename_tmp);
+        }
+      }
+      if (data == NULL) {
+        LOG(LL_WARN, ("Failed to write %s", filename_jsc));
+      }
+    }
+
+    if (data != NULL) {
+      /* free RAM buffer with the bcode part */
+      free((void *) bp->data.p);
+      bp->data.p = data;
+      bp->in_rom = 1;
+    }
+  }
+}
+#endif
+
 MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
                                         const char *src, int generate_jsc,
                                         mjs_val_t *res) {
@@ -1031,66 +1109,8 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
   if (mjs->error == MJS_OK) {
 #if MJS_GENERATE_JSC && defined(CS_MMAP)
     if (generate_jsc && path != NULL) {
-      const char *jsext = ".js";
-      int basename_len = (int) strlen(path) - strlen(jsext);
-      if (basename_len > 0 && strcmp(path + basename_len, jsext) == 0) {
-        /* source file has a .js extension: create a .jsc counterpart */
-        int rewrite = 1;
-        int read_mmapped = 1;
-
-        /* construct .jsc filename */
-        const char *jscext = ".jsc";
-        char filename_jsc[basename_len + strlen(jscext) + 1 /* nul-term */];
-        memcpy(filename_jsc, path, basename_len);
-        strcpy(filename_jsc + basename_len, jscext);
-
-        /* get last bcode part */
-        struct mjs_bcode_part *bp =
-            mjs_bcode_part_get(mjs, mjs_bcode_parts_cnt(mjs) - 1);
-
-        /*
-         * before writing .jsc file, check if it already exists and has the
-         * same contents
-         *
-         * TODO(dfrank): probably store crc32 before the bcode data, and only
-         * compare it.
-         */
-        {
-          size_t size;
-          char *data = cs_mmap_file(filename_jsc, &size);
-          if (data != NULL) {
-            if (size == bp->data.len) {
-              if (memcmp(data, bp->data.p, size) == 0) {
-                /* .jsc file is up to date, so don't rewrite it */
-                rewrite = 0;
-              }
-            }
-            munmap(data, size);
-          }
-        }
-
-        /* try to open .jsc file for writing */
-        if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
-          if (fp != NULL) {
-            /* write last bcode part to .jsc */
-            fwrite(bp->data.p, bp->data.len, 1, fp);
-            fclose(fp);
-          } else {
-            LOG(LL_WARN, ("Failed to open %s for writing", filename_jsc));
-            read_mmapped = 0;
-          }
-        }
-
-        if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
-          /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
-        }
-      }
+      mjs_bcode_part_to_jsc(
+          mjs_bcode_part_get(mjs, mjs_bcode_parts_cnt(mjs) - 1), path);
     }
 #else
     (void) generate_jsc;
-- 
2.43.0


From e66f6f9ff8a450480414c2f6a87a5f791e17d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 15/39] fix: mjs_destroy left the mappings of cached code
 behind

---
 src/mjs_core.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 09f4c8d..80df32a 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -17,6 +17,10 @@
 #include "mjs_string.h"
 #include "mjs_util.h"
 
+#ifdef CS_MMAP
+#include <sys/mman.h>
+#endif
+
 #ifndef MJS_OBJECT_ARENA_SIZE
 #define MJS_OBJECT_ARENA_SIZE 20
 #endif
@@ -45,6 +49,10 @@ void mjs_destroy(struct mjs *mjs) {
       struct mjs_bcode_part *bp = mjs_bcode_part_get(mjs, i);
       if (!bp->in_rom) {
         free((void *) bp->data.p);
+#ifdef CS_MMAP
+      } else {
+        munmap((void *) bp->data.p, bp->data.len);
+#endif
       }
     }
   }
-- 
2.43.0


From c2f167943d78e2ba3d70f5b5ae51f0194f864d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 16/39] fix: imported functions had no type: JSON.stringify and
 argument checks of one aborted

---
 src/mjs_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 80df32a..cf2a427 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -223,6 +223,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From 261156585f2347271a15e350090393dce5b7b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 17/39] fix: mjs_set_internal leaked the converted property
 name when the target is not an object

---
 src/mjs_object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index a2655b4..88d4bde 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -183,7 +183,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
-- 
2.43.0


From 935f2c96a285b03ccaf4e84c9dc900a3a9029676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 18/39] fix: stack trace and message of an earlier error
 survived into later ones

---
 src/mjs_core.c | 3 +++
 src/mjs_exec.c | 5 ++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index cf2a427..50be5f8 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -126,6 +126,9 @@ mjs_err_t mjs_set_errorf(struct mjs *mjs, mjs_err_t err, const char *fmt, ...) {
   va_start(ap, fmt);
   free(mjs->error_msg);
   mjs->error_msg = NULL;
+  /* The stack trace, if any, belongs to some previous error */
+  free(mjs->stack_trace);
+  mjs->stack_trace = NULL;
   mjs->error = err;
   if (fmt != NULL) {
     mg_avprintf(&mjs->error_msg, 0, fmt, ap);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 6cadb53..98ff096 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -577,8 +577,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
 
   mjs_set_errorf(mjs, MJS_OK, NULL);
-  free(mjs->stack_trace);
-  mjs->stack_trace = NULL;
 
   off -= bp.start_idx;
 
@@ -1134,7 +1132,8 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
-    mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
+    /* Nothing has been executed: an existing error is one of an earlier run */
+    mjs_set_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
 
-- 
2.43.0


From d590aac1c80200a49717338edcd0673343447317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 19/39] fix: line number lookup was off by one map entry and
 answered 1 past the end of the map

---
 src/mjs_util.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mjs_util.c b/src/mjs_util.c
index b14a18d..a04f9b5 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -403,12 +403,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset > (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
-- 
2.43.0


From 0ba59c2fa6d4572c78d50484d1f6870dc6a9b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 20/39] fix: line number map was not adjusted when jump offsets
 wider than a byte move code

---
 src/mjs_bcode.c  | 61 ++++++++++++++++++++++++++++++++++--------------
 src/mjs_bcode.h  |  5 ++++
 src/mjs_parser.c | 16 +++----------
 src/mjs_tok.h    |  8 ++++++-
 4 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/src/mjs_bcode.c b/src/mjs_bcode.c
index 835f6c6..d0c1f89 100644
--- a/src/mjs_bcode.c
+++ b/src/mjs_bcode.c
@@ -12,24 +12,10 @@
 
 static void add_lineno_map_item(struct pstate *pstate) {
   if (pstate->last_emitted_line_no < pstate->line_no) {
-    int offset = pstate->cur_idx - pstate->start_bcode_idx;
-    size_t offset_llen = cs_varint_llen(offset);
-    size_t lineno_llen = cs_varint_llen(pstate->line_no);
-    mbuf_resize(&pstate->offset_lineno_map,
-                pstate->offset_lineno_map.size + offset_llen + lineno_llen);
-
-    /* put offset */
-    cs_varint_encode(offset, (uint8_t *) pstate->offset_lineno_map.buf +
-                                 pstate->offset_lineno_map.len,
-                     offset_llen);
-    pstate->offset_lineno_map.len += offset_llen;
-
-    /* put line_no */
-    cs_varint_encode(pstate->line_no,
-                     (uint8_t *) pstate->offset_lineno_map.buf +
-                         pstate->offset_lineno_map.len,
-                     lineno_llen);
-    pstate->offset_lineno_map.len += lineno_llen;
+    struct lineno_map_item item;
+    item.offset = pstate->cur_idx - pstate->start_bcode_idx;
+    item.line_no = pstate->line_no;
+    mbuf_append(&pstate->offset_lineno_map, &item, sizeof(item));
 
     pstate->last_emitted_line_no = pstate->line_no;
   }
@@ -60,6 +46,31 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+MJS_PRIVATE void mjs_bcode_append_lineno_map(struct pstate *p) {
+  struct mbuf *b = &p->mjs->bcode_gen;
+  const struct lineno_map_item *item =
+      (const struct lineno_map_item *) p->offset_lineno_map.buf;
+  const struct lineno_map_item *end =
+      item + p->offset_lineno_map.len / sizeof(*item);
+  const struct lineno_map_item *it;
+  size_t map_len = 0;
+  uint8_t *dst;
+
+  for (it = item; it < end; it++) {
+    map_len += cs_varint_llen(it->offset) + cs_varint_llen(it->line_no);
+  }
+
+  if (mbuf_append(b, NULL, cs_varint_llen(map_len) + map_len) == 0) return;
+  dst = (uint8_t *) b->buf + b->len - cs_varint_llen(map_len) - map_len;
+
+  /* put map length varint, followed by the map itself */
+  dst += cs_varint_encode(map_len, dst, cs_varint_llen(map_len));
+  for (it = item; it < end; it++) {
+    dst += cs_varint_encode(it->offset, dst, cs_varint_llen(it->offset));
+    dst += cs_varint_encode(it->line_no, dst, cs_varint_llen(it->line_no));
+  }
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -85,6 +96,20 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
   if (p->cur_idx >= (int) offset) {
     p->cur_idx += diff;
   }
+
+  /* The same goes for the line numbers of the code which has moved */
+  if (diff != 0) {
+    struct lineno_map_item *item =
+        (struct lineno_map_item *) p->offset_lineno_map.buf;
+    struct lineno_map_item *end =
+        item + p->offset_lineno_map.len / sizeof(*item);
+    for (; item < end; item++) {
+      if (item->offset + p->start_bcode_idx >=
+          (int) (offset + MJS_INIT_OFFSET_SIZE)) {
+        item->offset += diff;
+      }
+    }
+  }
   return diff;
 }
 
diff --git a/src/mjs_bcode.h b/src/mjs_bcode.h
index 19db78a..e25e398 100644
--- a/src/mjs_bcode.h
+++ b/src/mjs_bcode.h
@@ -64,6 +64,11 @@ MJS_PRIVATE void emit_byte(struct pstate *pstate, uint8_t byte);
 MJS_PRIVATE void emit_int(struct pstate *pstate, int64_t n);
 MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len);
 
+/*
+ * Appends the collected offset-to-line_no mapping to the bcode being generated.
+ */
+MJS_PRIVATE void mjs_bcode_append_lineno_map(struct pstate *p);
+
 /*
  * Inserts provided offset `v` at the offset `offset`.
  *
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7d9f383..9dc860b 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -956,8 +956,7 @@ MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
   struct pstate p;
-  size_t start_idx, llen;
-  int map_len;
+  size_t start_idx;
   mjs_header_item_t bcode_offset, map_offset, total_size;
 
   pinit(path, buf, &p);
@@ -995,17 +994,8 @@ mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
              sizeof(mjs_header_item_t) * MJS_HDR_ITEM_MAP_OFFSET,
          &map_offset, sizeof(mjs_header_item_t));
 
-  /* put map length varint */
-  map_len = p.offset_lineno_map.len;
-  llen = cs_varint_llen(map_len);
-  mbuf_resize(&p.mjs->bcode_gen, p.mjs->bcode_gen.size + llen);
-  cs_varint_encode(
-      map_len, (uint8_t *) p.mjs->bcode_gen.buf + p.mjs->bcode_gen.len, llen);
-  p.mjs->bcode_gen.len += llen;
-
-  /* put the map itself */
-  mbuf_append(&p.mjs->bcode_gen, p.offset_lineno_map.buf,
-              p.offset_lineno_map.len);
+  /* put the map */
+  mjs_bcode_append_lineno_map(&p);
 
   total_size = p.mjs->bcode_gen.len - start_idx;
   memcpy(p.mjs->bcode_gen.buf + start_idx +
diff --git a/src/mjs_tok.h b/src/mjs_tok.h
index 5891164..fbf17a4 100644
--- a/src/mjs_tok.h
+++ b/src/mjs_tok.h
@@ -18,13 +18,19 @@ struct tok {
   const char *ptr;
 };
 
+/* Code at `offset` (from start_bcode_idx) and on belongs to line `line_no` */
+struct lineno_map_item {
+  int offset;
+  int line_no;
+};
+
 struct pstate {
   const char *file_name; /* Source code file name */
   const char *buf;       /* Nul-terminated source code buffer */
   const char *pos;       /* Current position */
   int line_no;           /* Line number */
   int last_emitted_line_no;
-  struct mbuf offset_lineno_map;
+  struct mbuf offset_lineno_map; /* Array of struct lineno_map_item */
   int prev_tok;   /* Previous token, for prefix increment / decrement */
   struct tok tok; /* Parsed token */
   struct mjs *mjs;
-- 
2.43.0


From 34e9bcf3ce62c712d9d5ec18943c7e1233e5f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:26 +0000
Subject: [PATCH 21/39] fix: newlines inside string literals were not counted

---
 src/mjs_tok.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_tok.c b/src/mjs_tok.c
index da85f44..e830d29 100644
--- a/src/mjs_tok.c
+++ b/src/mjs_tok.c
@@ -114,6 +114,7 @@ static int getstr(struct pstate *p) {
         (p->pos[1] == quote || strchr("bfnrtv\\", p->pos[1]) != NULL)) {
       p->pos += 2;
     } else {
+      if (p->pos[0] == '\n') p->line_no++;
       p->pos++;
     }
   }
-- 
2.43.0


From a4ad76b2a88d5406ebb075ee41b81be359b63f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:36 +0000
Subject: [PATCH 22/39] fix: stack trace repeated the outer frames of nested
 executions and used offsets not relative to the code part

---
 src/mjs_exec.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 98ff096..c1925fb 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -581,7 +581,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   off -= bp.start_idx;
 
   for (i = off; i < bp.data.len; i++) {
-    mjs->cur_bcode_offset = i;
+    mjs->cur_bcode_offset = bp.start_idx + i;
 
 #ifdef MJS_SIM
     if (mjs_sim_before_op(mjs)) mjs->need_gc = 1;
@@ -986,7 +986,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
     }
 #endif
     if (mjs->error != MJS_OK) {
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      /*
+       * Nested execution, if any, has already generated the whole trace,
+       * including the frames below it
+       */
+      if (mjs->stack_trace == NULL) {
+        mjs_gen_stack_trace(
+            mjs, bp.start_idx + (i < bp.data.len ? i : bp.data.len - 1));
+      }
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
-- 
2.43.0


From 08df7c428bdc92864c1b0190618fa2abaa1ceb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:36 +0000
Subject: [PATCH 23/39] fix: return, break and continue outside of a function
 or loop acted on the caller's frame or loop

---
 src/mjs_exec.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index c1925fb..a724ff6 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -90,6 +90,21 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns whether the code being executed is inside of a loop which belongs to
+ * the same function, or to the same file if it's not in a function. The
+ * arguments are lengths of the stacks at the moment when mjs_execute() started.
+ */
+static int is_inside_loop(struct mjs *mjs, int call_stack_len,
+                          int loop_addresses_len) {
+  int own = loop_addresses_len / (int) sizeof(mjs_val_t);
+  if ((int) mjs->call_stack.len > call_stack_len) {
+    own = mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                 -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+  }
+  return (int) mjs_stack_size(&mjs->loop_addresses) >= own + 3;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -576,6 +591,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
 
+  /* whether it's a function what gets executed, as opposed to the whole part */
+  bool is_func = (start_off != bp.start_idx);
+
   mjs_set_errorf(mjs, MJS_OK, NULL);
 
   off -= bp.start_idx;
@@ -883,7 +901,8 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        /* the frame on top of the call stack may belong to our caller */
+        if (!is_func && (int) mjs->call_stack.len <= call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
@@ -936,7 +955,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs, call_stack_len, loop_addresses_len)) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -948,7 +967,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs, call_stack_len, loop_addresses_len)) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
-- 
2.43.0


From 65ec3097fd6a962696b0d8cc79e8c2e40d12a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:27 +0000
Subject: [PATCH 24/39] fix: terminate the copy of the JSON text being parsed

JSON.parse() hands the text of a number to strtod(), which went on reading
after the end of the copied text when the number is the last thing in it.
---
 src/mjs_json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..329030e 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -445,8 +445,10 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    /* Numbers are converted by strtod(), which needs a terminated string */
+    stmp[len] = '\0';
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From 9ad31c0c3a5062ca039f20de48b9b60a9e5eeb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:27 +0000
Subject: [PATCH 25/39] fix: JSON.parse() leaked the string with a wrong escape

The unescaped copy was not freed when a string could not be unescaped, and
the parser went on building a value without it.
---
 src/mjs_json.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 329030e..349f27f 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -334,6 +334,9 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
 
   (void) path;
 
+  /* Nothing is built any more once the conversion has failed */
+  if (ctx->rcode != MJS_OK) return;
+
   mjs_own(ctx->mjs, &v);
 
   switch (token->type) {
@@ -342,10 +345,10 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
       if (token->len > 0 && (dst = malloc(token->len)) != NULL) {
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
-          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
-          break;
+          ctx->rcode = MJS_TYPE_ERROR;
+        } else {
+          v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
         }
-        v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
         free(dst);
       } else {
         /*
-- 
2.43.0


From 0d43aa18f2ecc4bb18315ed7993c116bf6fd9f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:27 +0000
Subject: [PATCH 26/39] fix: JSON.parse() of an object with an empty key

A property with an empty name was taken for the root value, which failed an
assertion.
---
 src/mjs_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 349f27f..8639213 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -390,7 +390,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (name != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
         mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
-- 
2.43.0


From dfa9fb264199eb3f930abd7971f675577e476be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:27 +0000
Subject: [PATCH 27/39] fix: JSON.parse() when memory runs out

Allocations were not checked; a string which could not be allocated silently
became an empty one.
---
 src/mjs_json.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 8639213..52463aa 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -312,6 +312,7 @@ static struct json_parse_frame *alloc_json_frame(struct json_parse_ctx *ctx,
                                                  mjs_val_t v) {
   struct json_parse_frame *frame =
       (struct json_parse_frame *) calloc(sizeof(struct json_parse_frame), 1);
+  if (frame == NULL) return NULL;
   frame->val = v;
   mjs_own(ctx->mjs, &frame->val);
   return frame;
@@ -342,8 +343,13 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   switch (token->type) {
     case JSON_TYPE_STRING: {
       char *dst;
-      if (token->len > 0 && (dst = malloc(token->len)) != NULL) {
-        int len = json_unescape(token->ptr, token->len, dst, token->len);
+      if (token->len > 0) {
+        int len;
+        if ((dst = malloc(token->len)) == NULL) {
+          ctx->rcode = MJS_OUT_OF_MEMORY;
+          break;
+        }
+        len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           ctx->rcode = MJS_TYPE_ERROR;
         } else {
@@ -351,10 +357,6 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         }
         free(dst);
       } else {
-        /*
-         * This branch is for 0-len strings, and for malloc errors
-         * TODO(lsm): on malloc error, propagate the error upstream
-         */
         v = mjs_mk_string(ctx->mjs, "", 0, 1 /* copy */);
       }
       break;
@@ -420,8 +422,12 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
       /* New object or array has just started, so we need to allocate a frame
        * for it */
       struct json_parse_frame *new_frame = alloc_json_frame(ctx, v);
-      new_frame->up = ctx->frame;
-      ctx->frame = new_frame;
+      if (new_frame == NULL) {
+        ctx->rcode = MJS_OUT_OF_MEMORY;
+      } else {
+        new_frame->up = ctx->frame;
+        ctx->frame = new_frame;
+      }
     }
   }
 
@@ -434,6 +440,15 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
       (struct json_parse_ctx *) calloc(sizeof(struct json_parse_ctx), 1);
   int json_res;
   enum mjs_err rcode = MJS_OK;
+  char *stmp = malloc(len + 1);
+
+  if (ctx == NULL || stmp == NULL) {
+    free(ctx);
+    free(stmp);
+    rcode = MJS_OUT_OF_MEMORY;
+    mjs_prepend_errorf(mjs, rcode, "failed to parse JSON");
+    return rcode;
+  }
 
   ctx->mjs = mjs;
   ctx->result = MJS_UNDEFINED;
@@ -448,7 +463,6 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
     /* Numbers are converted by strtod(), which needs a terminated string */
     stmp[len] = '\0';
@@ -462,7 +476,9 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
 
   if (ctx->rcode != MJS_OK) {
     rcode = ctx->rcode;
-    mjs_prepend_errorf(mjs, rcode, "invalid JSON string");
+    mjs_prepend_errorf(mjs, rcode, rcode == MJS_OUT_OF_MEMORY
+                                       ? "failed to parse JSON"
+                                       : "invalid JSON string");
   } else if (json_res < 0) {
     /* There was an error during parsing */
     rcode = MJS_TYPE_ERROR;
-- 
2.43.0


From 2b27abdee4711a208bf7d626f5360e7d95d1fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:27 +0000
Subject: [PATCH 28/39] fix: JSON.stringify() when memory runs out

Allocations were not checked, an object whose conversion failed stayed on the
stack of objects being converted (so that it was taken for a circular one
later on), and the error was lost.
---
 src/mjs_json.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mjs_json.c b/src/mjs_json.c
index 52463aa..0476ccd 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -150,6 +150,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
         char *p = NULL;
         int need_free = 0;
         rcode = mjs_to_string(mjs, &v, &p, &len, &need_free);
+        if (rcode != MJS_OK) goto clean;
         c_snprintf(buf, size, "%.*s", (int) len, p);
         if (need_free) {
           free(p);
@@ -174,7 +175,10 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
       struct mjs_property *prop = NULL;
       struct mjs_object *o = NULL;
 
-      mbuf_append(&mjs->json_visited_stack, (char *) &v, sizeof(v));
+      if (mbuf_append(&mjs->json_visited_stack, (char *) &v, sizeof(v)) == 0) {
+        rcode = MJS_OUT_OF_MEMORY;
+        goto clean;
+      }
       b += c_snprintf(b, BUF_LEFT(size, b - buf), "{");
       o = get_object_struct(v);
       for (prop = o->properties; prop != NULL; prop = prop->next) {
@@ -200,9 +204,9 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
       }
 
       b += c_snprintf(b, BUF_LEFT(size, b - buf), "}");
-      mjs->json_visited_stack.len -= sizeof(v);
 
     clean_iter:
+      mjs->json_visited_stack.len -= sizeof(v);
       len = b - buf;
       goto clean;
     }
@@ -210,7 +214,10 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
       int has;
       char *b = buf;
       size_t i, alen = mjs_array_length(mjs, v);
-      mbuf_append(&mjs->json_visited_stack, (char *) &v, sizeof(v));
+      if (mbuf_append(&mjs->json_visited_stack, (char *) &v, sizeof(v)) == 0) {
+        rcode = MJS_OUT_OF_MEMORY;
+        goto clean;
+      }
       b += c_snprintf(b, BUF_LEFT(size, b - buf), "[");
       for (i = 0; i < alen; i++) {
         el = mjs_array_get2(mjs, v, i, &has);
@@ -222,6 +229,7 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
             rcode = to_json_or_debug(mjs, el, b, BUF_LEFT(size, b - buf), &tmp,
                                      is_debug);
             if (rcode != MJS_OK) {
+              mjs->json_visited_stack.len -= sizeof(v);
               goto clean;
             }
           }
@@ -264,13 +272,18 @@ MJS_PRIVATE mjs_err_t mjs_json_stringify(struct mjs *mjs, mjs_val_t v,
   char *p = buf;
   size_t len;
 
-  to_json_or_debug(mjs, v, buf, size, &len, 0);
+  rcode = to_json_or_debug(mjs, v, buf, size, &len, 0);
+  if (rcode != MJS_OK) goto clean;
 
   if (len >= size) {
     /* Buffer is not large enough. Allocate a bigger one */
     p = (char *) malloc(len + 1);
+    if (p == NULL) {
+      rcode = MJS_OUT_OF_MEMORY;
+      goto clean;
+    }
     rcode = mjs_json_stringify(mjs, v, p, len + 1, res);
-    assert(*res == p);
+    assert(rcode != MJS_OK || *res == p);
     goto clean;
   } else {
     *res = p;
@@ -512,9 +525,12 @@ MJS_PRIVATE void mjs_op_json_stringify(struct mjs *mjs) {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "missing a value to stringify");
   } else {
     char *p = NULL;
-    if (mjs_json_stringify(mjs, val, NULL, 0, &p) == MJS_OK) {
+    mjs_err_t rcode = mjs_json_stringify(mjs, val, NULL, 0, &p);
+    if (rcode == MJS_OK) {
       ret = mjs_mk_string(mjs, p, ~0, 1 /* copy */);
       free(p);
+    } else {
+      mjs_prepend_errorf(mjs, rcode, "failed to make JSON");
     }
   }
 
-- 
2.43.0


From 513a94efeeab8337c1d6046851d2ba709772157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 29/39] fix: JSON array indices under a long path

The index of an array element was taken from the end of the path, which is
cut at 255 characters: in deep or long-named places JSON.parse() stored array
elements at wrong indices.
---
 src/frozen/frozen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 06f3389..db2a077 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -303,8 +303,8 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        /* The path may be too long for its buffer, so don't look there */
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
-- 
2.43.0


From e8c64bfb72c7371df23a611170bac2365a72954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:28 +0000
Subject: [PATCH 30/39] fix: JSON keys and values under a long or dotted path

Keys were told from values by the last character of the path. That character
is not the dot when the path is cut at 255 characters, so JSON.parse() took the
key for a value, and it is a dot when the key itself ends with one, so the
value got lost.
---
 src/frozen/frozen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index db2a077..9cb5ba4 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -79,6 +79,8 @@ struct frozen {
   const char *cur_name;
   size_t cur_name_len;
 
+  int in_key; /* Set while a key is being parsed: keys are not reported */
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -97,8 +99,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->in_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -399,7 +400,9 @@ static int json_parse_pair(struct frozen *f) {
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
+  f->in_key = 1;
   TRY(json_parse_key(f));
+  f->in_key = 0;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
-- 
2.43.0


From 5db601cb1a84b35b724e2a64bdd697dbc81665a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 31/39] fix: File.write() never returned when nothing could be
 written

fwrite() stores nothing on a full disk, a failing device or a stream opened for
reading, and the loop tried again forever.
---
 lib/api_file.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_file.js b/lib/api_file.js
index ea01b8d..b2c2f43 100644
--- a/lib/api_file.js
+++ b/lib/api_file.js
@@ -49,7 +49,7 @@ let File = {
       let len = 5;  // Use light 5-byte strings for writing
       if (off + len > tot) len = tot - off;
       let n = File.fwrite(str.slice(off, off + len), 1, len, fp);
-      // if (n <= 0) break;
+      if (n <= 0) break;
       off += n;
     }
     File.fclose(fp);
-- 
2.43.0


From 127a842630528bb5f71cb4fe699227b827ba6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 32/39] fix: File.write() reported data that never reached the
 file

Data accepted by fwrite() stays in the stream's buffer until fclose(), whose
failure was ignored, so a full disk or a write error went unnoticed.
---
 lib/api_file.js | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/api_file.js b/lib/api_file.js
index b2c2f43..8bca507 100644
--- a/lib/api_file.js
+++ b/lib/api_file.js
@@ -35,7 +35,8 @@ let File = {
   // If file does not exist, it is created. `mode` is an optional file open
   // mode argument, `'w'` by default, which means that previous content is
   // deleted. Set `mode` to `'a'` in order to append to the existing content.
-  // Return value: number of bytes written.
+  // Return value: number of bytes written, 0 if the file cannot be opened or
+  // its last data cannot be stored when it is closed.
   //
   // Example - write a configuration object into a file:
   // ```javascript
@@ -52,12 +53,13 @@ let File = {
       if (n <= 0) break;
       off += n;
     }
-    File.fclose(fp);
+    // What fwrite() took may still be buffered: it is lost if that fails
+    if (File.fclose(fp) !== 0) return 0;
     return off;
   },
 
   fopen: ffi('void *fopen(char *, char *)'),
-  fclose: ffi('void fclose(void *)'),
+  fclose: ffi('int fclose(void *)'),
   fread: ffi('int fread(char *, int, int, void *)'),
   fwrite: ffi('int fwrite(char *, int, int, void *)'),
 };
-- 
2.43.0


From 136d4a9c356efda6ae3e98cc75865f4eeef84f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 33/39] fix: a property set under a short name held in foreign
 memory could not be found

---
 src/mjs_object.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mjs_object.c b/src/mjs_object.c
index 88d4bde..eeb2478 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -189,9 +189,10 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. Short names are looked up by value, so
+     * they have to be inlined even if name_v refers to a foreign string.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) || name_len <= 5) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From e0dcf539dcffb054dd3bc7583bbcf1471f5605d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:59 +0000
Subject: [PATCH 34/39] fix: gc() returned a stale string when given one

---
 src/mjs_builtin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 6f51e08..e13981a 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -118,7 +118,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* The collector may have moved the argument */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
-- 
2.43.0


From a52c7a8bb9daee51b63ade9ded0023e047f99c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:00 +0000
Subject: [PATCH 35/39] fix: keep the receiver of a host function valid across
 nested calls

mjs_apply() and a failed mjs_execute() restored `this` from a C local
variable. GC moves strings, so if `this` was a string and the nested code
collected garbage, the host function which made the nested call got a dangling
string from mjs_get_this(). The saved value is in the call stack already.
---
 src/mjs_exec.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index a724ff6..2556c8d 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -585,7 +585,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int arg_stack_len = mjs->arg_stack.len;
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
-  mjs_val_t this_obj = mjs->vals.this_obj;
   size_t start_off = off;
   const uint8_t *code;
 
@@ -1005,6 +1004,17 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
     }
 #endif
     if (mjs->error != MJS_OK) {
+      /*
+       * `this` of this execution is in the first of the frames to be dropped,
+       * if any (not in a local variable, because GC moves strings)
+       */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj =
+            *vptr(&mjs->call_stack, call_stack_len / sizeof(mjs_val_t) +
+                                        CALL_STACK_FRAME_ITEMS_CNT - 1 -
+                                        CALL_STACK_FRAME_ITEM_THIS);
+      }
+
       /*
        * Nested execution, if any, has already generated the whole trace,
        * including the frames below it
@@ -1020,7 +1030,6 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
       mjs->arg_stack.len = arg_stack_len;
       mjs->scopes.len = scopes_len;
       mjs->loop_addresses.len = loop_addresses_len;
-      mjs->vals.this_obj = this_obj;
 
       /* script will evaluate to `undefined` */
       mjs_push(mjs, MJS_UNDEFINED);
@@ -1192,7 +1201,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r = MJS_UNDEFINED, prev_this_val, retval_stack_idx;
+  mjs_val_t r = MJS_UNDEFINED, retval_stack_idx;
   int i;
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1202,8 +1211,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
 
@@ -1249,7 +1256,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
     // Pop cell at which the returned value should've been written
     mjs_pop(mjs);
   }
-  mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
 }
-- 
2.43.0


From 56b768097cf89379019352eba860e350a6dea25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 36/39] fix: a failure lost its message or read a null pointer
 when memory ran out while reporting it

---
 src/mjs_core.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/mjs_core.c b/src/mjs_core.c
index 50be5f8..7c7f5a1 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -156,7 +156,13 @@ mjs_err_t mjs_prepend_errorf(struct mjs *mjs, mjs_err_t err, const char *fmt,
   va_end(ap);
 
   if (old_error_msg != NULL) {
-    mg_asprintf(&mjs->error_msg, 0, "%s: %s", new_error_msg, old_error_msg);
+    if (new_error_msg == NULL ||
+        mg_asprintf(&mjs->error_msg, 0, "%s: %s", new_error_msg,
+                    old_error_msg) < 0) {
+      /* Out of memory: at least keep the message which is already there */
+      mjs->error_msg = old_error_msg;
+      old_error_msg = NULL;
+    }
     free(new_error_msg);
     free(old_error_msg);
   } else {
@@ -260,12 +266,18 @@ static void mjs_append_stack_trace_line(struct mjs *mjs, size_t offset) {
               (int) offset);
       filename = "<unknown-filename>";
     }
-    mg_asprintf(&new_line, 0, fmt, filename, line_no);
+    if (mg_asprintf(&new_line, 0, fmt, filename, line_no) < 0) {
+      /* Out of memory: the line is omitted */
+      return;
+    }
 
     if (mjs->stack_trace != NULL) {
       char *old = mjs->stack_trace;
-      mg_asprintf(&mjs->stack_trace, 0, "%s%s", mjs->stack_trace, new_line);
-      free(old);
+      char *joined = NULL;
+      if (mg_asprintf(&joined, 0, "%s%s", old, new_line) >= 0) {
+        mjs->stack_trace = joined;
+        free(old);
+      }
       free(new_line);
     } else {
       mjs->stack_trace = new_line;
-- 
2.43.0


From 954d9e2d749bee2a100476de00987b77b8f42ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 37/39] fix: a property key that could not be converted for
 lack of memory was not reported

---
 src/mjs_conversion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mjs_conversion.c b/src/mjs_conversion.c
index 2dec2dd..9607407 100644
--- a/src/mjs_conversion.c
+++ b/src/mjs_conversion.c
@@ -27,6 +27,7 @@ MJS_PRIVATE mjs_err_t mjs_to_string(struct mjs *mjs, mjs_val_t *v, char **p,
     *p = malloc(*sizep + 1);
     if (*p == NULL) {
       ret = MJS_OUT_OF_MEMORY;
+      mjs_set_errorf(mjs, ret, "out of memory");
       goto clean;
     }
     memmove(*p, buf, *sizep + 1);
-- 
2.43.0


From e0bd23bb0c51d54ca5a6a567e2bebdf400a15825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 38/39] fix: calls with arguments when memory runs out

---
 src/mjs_exec.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 2556c8d..bc01f25 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -535,10 +535,16 @@ static void mjs_apply_(struct mjs *mjs) {
   if (mjs_is_array(v)) {
     nargs = mjs_array_length(mjs, v);
     args = calloc(nargs, sizeof(args[0]));
+    if (args == NULL && nargs > 0) {
+      mjs_set_errorf(mjs, MJS_OUT_OF_MEMORY, "out of memory");
+      goto clean;
+    }
     for (i = 0; i < nargs; i++) args[i] = mjs_array_get(mjs, v, i);
   }
   mjs_apply(mjs, &res, func, mjs_arg(mjs, 0), nargs, args);
   free(args);
+
+clean:
   mjs_return(mjs, res);
 }
 
@@ -1187,6 +1193,9 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   int i;
   mjs_err_t ret;
   mjs_val_t *args = calloc(nargs, sizeof(mjs_val_t));
+  if (args == NULL && nargs > 0) {
+    return mjs_set_errorf(mjs, MJS_OUT_OF_MEMORY, "out of memory");
+  }
   va_start(ap, nargs);
   for (i = 0; i < nargs; i++) {
     args[i] = va_arg(ap, mjs_val_t);
-- 
2.43.0


From 4393d620d41881248e5e1625f4854b0e71bb9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 39/39] fix: imports and callbacks when memory runs out

---
 src/mjs_ffi.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 05f9bb4..7d19e79 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -246,6 +246,11 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
       }
 
       sig->cb_sig = calloc(sizeof(*sig->cb_sig), 1);
+      if (sig->cb_sig == NULL) {
+        ret = MJS_OUT_OF_MEMORY;
+        mjs_prepend_errorf(mjs, ret, "out of memory");
+        goto clean;
+      }
       ret = mjs_parse_ffi_signature(mjs, cur, tmp_e - cur, sig->cb_sig,
                                     FFI_SIG_CALLBACK);
       if (ret != MJS_OK) {
@@ -341,6 +346,12 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
 
   /* Create JS arguments */
   args = calloc(1, sizeof(mjs_val_t) * cbargs->sig.args_cnt);
+  if (args == NULL) {
+    mjs_set_errorf(mjs, MJS_OUT_OF_MEMORY, "out of memory");
+    mjs_print_error(mjs, stderr, "MJS callback error",
+                    1 /* print_stack_trace */);
+    goto clean;
+  }
   for (i = 0; i < cbargs->sig.args_cnt; i++) {
     mjs_ffi_ctype_t val_type =
         cbargs->sig.val_types[i + 1 /* first val_type is return value type */];
@@ -896,6 +907,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
+      if (cbargs == NULL) {
+        ret = MJS_OUT_OF_MEMORY;
+        mjs_prepend_errorf(mjs, ret, "out of memory");
+        goto clean;
+      }
       cbargs->mjs = mjs;
       cbargs->func = cbdata.func;
       cbargs->userdata = cbdata.userdata;
@@ -1019,7 +1035,7 @@ MJS_PRIVATE void mjs_ffi_sig_copy(mjs_ffi_sig_t *to,
   memcpy(to, from, sizeof(*to));
   if (from->cb_sig != NULL) {
     to->cb_sig = calloc(sizeof(*to->cb_sig), 1);
-    mjs_ffi_sig_copy(to->cb_sig, from->cb_sig);
+    if (to->cb_sig != NULL) mjs_ffi_sig_copy(to->cb_sig, from->cb_sig);
   }
 }
 
-- 
2.43.0

