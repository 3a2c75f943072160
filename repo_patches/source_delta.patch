From dcdc701d4edef3e9dd796be137c44c1cfdb85d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 01/47] fix: release the accumulator in fold, dispatch builtins
 in fold-left through binary_call

---
 core/iter.c | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 2630c6f..5c48183 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -837,7 +837,7 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
 
 obj_p ray_fold(obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p f, v, x1, x2;
+    obj_p f, v, r, x1, x2;
     i8_t xt, yt;
 
     if (n < 2)
@@ -883,7 +883,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    r = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    drop_obj(v);
+                    v = r;
 
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
@@ -910,7 +912,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    r = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    drop_obj(v);
+                    v = r;
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
 
@@ -934,7 +938,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    r = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    drop_obj(v);
+                    v = r;
                     if (yt != TYPE_LIST)
                         drop_obj(x2);
 
@@ -971,6 +977,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (j = 0; j < n; j++)
                     vm_stack_push(at_idx(x[j], i));
 
+                drop_obj(v);
                 v = vary_call(f, x, n);
 
                 // cleanup stack
@@ -998,7 +1005,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[0], i);
                     vm_stack_push(x2);
 
@@ -1020,7 +1027,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[1], i);
                     vm_stack_push(x2);
 
@@ -1067,23 +1074,11 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
 
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
                 x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                x2 = v;
+                v = binary_call(f, x1, x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1106,8 +1101,7 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
                 x1 = at_idx(x[0], i);
                 vm_stack_push(x1);
                 // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
+                vm_stack_push(v);
                 // Push all other arguments in between
                 for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
-- 
2.43.0


From b0011830ec1f17a308952f10d6ed6c3cb776ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 02/47] fix: keep a called lambda alive while it runs, bound
 the operand stack, unwind operands and frames left by a failed call

---
 core/eval.c | 23 ++++++++++++++++-------
 core/eval.h |  6 ++++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 7bcbac5..7d14666 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -301,10 +301,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     while (vm->rp > 0) {
         rs = &vm->rs[vm->rp - 1];
         if (rs->ip == -1) {
-            // External call marker - stop unwinding
-            vm->rp--;
-            vm->fn = rs->fn;
-            vm->fp = rs->fp;
+            // External call marker - stop unwinding, call() pops it
             break;
         }
         // Add caller's location to trace
@@ -312,6 +309,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         vm->rp--;
         vm->fn = rs->fn;
         vm->fp = rs->fp;
+        drop_obj(rs->callee);
     }
     return err;
 }
@@ -378,6 +376,7 @@ OP_RET:
         ip = rs->ip;
         vm->fp = rs->fp;
         vm->fn = rs->fn;
+        drop_obj(rs->callee);
         bc = AS_U8(AS_LAMBDA(vm->fn)->bc);
         consts = AS_LIST(AS_LAMBDA(vm->fn)->consts);
         // Add caller's location to trace if error is propagating
@@ -489,7 +488,7 @@ callf:
         }
     }
     // Check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE || !vm_stack_enough(VM_STACK_RESERVE))) {
         drop_obj(x);
         r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
@@ -500,18 +499,18 @@ callf:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->callee = x;  // dropped when the callee returns
     // Switch to new function
     vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
     vm->fn = x;
     bc = AS_U8(AS_LAMBDA(x)->bc);
     consts = AS_LIST(AS_LAMBDA(x)->consts);
     ip = 0;
-    drop_obj(x);  // Safe because it's on the constants pool
     next();
 
 OP_CALLS:
     // Self-recursive call - check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE || !vm_stack_enough(VM_STACK_RESERVE))) {
         r = err_limit(VM_STACK_SIZE);
         bc_error_add_loc(r, vm->fn, ip - 1);
         return vm_error_unwind(vm, r);
@@ -520,6 +519,7 @@ OP_CALLS:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->callee = NULL_OBJ;
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
     ip = 0;
     next();
@@ -672,6 +672,7 @@ obj_p call(obj_p fn, i64_t arity) {
     vm_p vm = VM;
     obj_p saved_fn = vm->fn;
     i64_t saved_fp = vm->fp;
+    i64_t saved_sp = vm->sp;
     UNUSED(arity);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
@@ -681,16 +682,24 @@ obj_p call(obj_p fn, i64_t arity) {
             return res;
     }
 
+    if (vm->rp >= VM_STACK_SIZE || !vm_stack_enough(VM_STACK_RESERVE))
+        return err_limit(VM_STACK_SIZE);
+
     // Push to return stack - this lets resolve() find parent scope
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
     vm->rs[vm->rp].fn = saved_fn;
     vm->rs[vm->rp].fp = saved_fp;
     vm->rs[vm->rp].ip = -1;  // External call marker
+    vm->rs[vm->rp].callee = NULL_OBJ;
     vm->rp++;
 
     // Execute bytecode
     res = vm_eval(fn);
 
+    // A failed evaluation leaves its operands behind
+    while (vm->sp > saved_sp)
+        drop_obj(vm->ps[--vm->sp]);
+
     // Pop frame and restore context
     vm->rp--;
     vm->fn = saved_fn;
diff --git a/core/eval.h b/core/eval.h
index 96307f6..82c19f0 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -36,6 +36,7 @@
 struct query_ctx_t;
 
 #define VM_STACK_SIZE 1024
+#define VM_STACK_RESERVE 64  // operand slots a call must find free
 
 // Bytecode opcodes - grouped by category
 typedef enum op_type_t {
@@ -66,9 +67,10 @@ typedef enum op_type_t {
 struct pool_t;
 struct heap_t;
 
-// Return stack frame - compact for cache efficiency (16 bytes)
+// Return stack frame - compact for cache efficiency (24 bytes)
 typedef struct ctx_t {
-    obj_p fn;  // function pointer (lambda->env has the environment)
+    obj_p fn;      // function pointer (lambda->env has the environment)
+    obj_p callee;  // reference that keeps the called lambda alive while it runs (NULL_OBJ if the caller holds it)
     i32_t fp;  // frame pointer (max VM_STACK_SIZE = 1024)
     i32_t ip;  // instruction pointer (max bytecode ~64KB)
 } ctx_t;
-- 
2.43.0


From f8a84ed094e887cbdbdd0ab9646ac0d43429198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 03/47] fix: release values on error paths of
 ins_obj/set_obj/set_ids/at_ids, copy date and time vectors

---
 core/rayforce.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..696fa2b 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -679,8 +679,10 @@ obj_p ins_obj(obj_p* obj, i64_t idx, obj_p val) {
         return ins_obj(obj, 0, val);
     }
 
-    if (!IS_VECTOR(*obj))
+    if (!IS_VECTOR(*obj)) {
+        drop_obj(val);
         return *obj;
+    }
 
     // we need to convert vector to list
     if (((*obj)->type - (-val->type) != 0) && (*obj)->type != TYPE_LIST) {
@@ -1150,8 +1152,11 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
                 pool_add_task(pool, at_ids_partial, 5, obj, ids, len - offset, offset, out);
 
             v = pool_run(pool);
-            if (IS_ERR(v))
+            if (IS_ERR(v)) {
+                out->len = 0;
+                drop_obj(out);
                 return v;
+            }
 
             drop_obj(v);
 
@@ -1566,7 +1571,11 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 return *obj;
             }
 
-            return err_type((*obj)->type, vals->type, 0, 0);
+            {
+                i8_t got = vals->type;
+                drop_obj(vals);
+                return err_type((*obj)->type, got, 0, 0);
+            }
     }
 }
 
@@ -1737,8 +1746,10 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
             // Key not found, add it
             if (i == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
-                if (IS_ERR(res))
+                if (IS_ERR(res)) {
+                    drop_obj(val);
                     return res;
+                }
 
                 res = push_obj(&AS_LIST(*obj)[1], val);
                 if (IS_ERR(res))
@@ -1756,14 +1767,17 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
             ids = find_obj_ids(AS_LIST(*obj)[0], idx);
-            if (IS_ERR(ids))
+            if (IS_ERR(ids)) {
+                drop_obj(val);
                 return ids;
+            }
 
             res = set_ids(&AS_LIST(*obj)[1], AS_I64(ids), ids->len, val);
             drop_obj(ids);
 
             return res;
         default:
+            drop_obj(val);
             return err_type(TYPE_SYMBOL, idx->type, 0, 0);
     }
 
@@ -1818,8 +1832,10 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             j = find_obj_idx(AS_LIST(*obj)[0], idx);
             if (j == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
-                if (IS_ERR(res))
+                if (IS_ERR(res)) {
+                    drop_obj(val);
                     return res;
+                }
 
                 res = push_obj(&AS_LIST(*obj)[1], val);
                 if (IS_ERR(res))
@@ -1878,13 +1894,7 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             return *obj;
         default:
             if ((*obj)->type == TYPE_DICT) {
-                res = set_dict_obj(obj, idx, val);
-                if (IS_ERR(res)) {
-                    drop_obj(val);
-                    return res;
-                }
-
-                return res;
+                return set_dict_obj(obj, idx, val);
             }
 
             // Diverse to a list then
@@ -2973,6 +2983,8 @@ obj_p copy_obj(obj_p obj) {
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 2701f8874ba68a62d8c4df3078c6146b315b795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 04/47] fix: comparison tasks must not return their output
 buffer; pass it for a common column on the right

---
 core/cmp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..24242b7 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -278,7 +278,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                     out[i] = xi[ei[i]] == si;                                                  \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
                 return ray_##op##_partial(y, x, len, offset, res);                             \
             case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
@@ -302,7 +302,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                     out[i] = xi[i] == ei[si];                                                  \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
                 return ray_##op##_partial(y, x, len, offset, res);                             \
                                                                                                \
@@ -312,17 +312,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
             case MTYPE2(TYPE_NULL, TYPE_NULL):                                                 \
@@ -359,7 +359,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
-- 
2.43.0


From 590aaf123f437223720fcf6f3d9af30e49f0ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 05/47] fix: remove/diverse/unify must not modify or return
 their argument; table releases its wrapped column

---
 core/compose.c | 51 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..fcc83fd 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -271,33 +271,43 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_LIST:
             case TYPE_GUID:
                 j = AS_LIST(y)[i]->len;
-                if (cl != 0 && j != cl)
+                if (cl != 0 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
                 j = AS_LIST(AS_LIST(y)[i])[1]->len;
-                if (cl != 0 && j != cl)
+                if (cl != 0 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
                 j = AS_LIST(AS_LIST(y)[i])[0]->len;
-                if (cl != 0 && j != cl)
+                if (cl != 0 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
                 break;
-            default:
-                return err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
+            default: {
+                i8_t got = AS_LIST(y)[i]->type;
+                drop_obj(l);
+                return err_type(TYPE_LIST, got, 0, 0);
+            }
         }
     }
 
     // there are no atoms, no lazytypes and all columns are of the same length
     if (synergy) {
+        lst = table(clone_obj(x), clone_obj(y));
         drop_obj(l);
-        return table(clone_obj(x), clone_obj(y));
+        return lst;
     }
 
     // otherwise we need to expand atoms to vectors
@@ -397,8 +407,9 @@ obj_p ray_enum(obj_p x, obj_p y) {
                 return s;
 
             if (!s || s->type != TYPE_SYMBOL) {
+                i8_t got = s ? s->type : 0;
                 drop_obj(s);
-                return err_type(TYPE_SYMBOL, s ? s->type : 0, 0, 0);
+                return err_type(TYPE_SYMBOL, got, 0, 0);
             }
 
             v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
@@ -823,17 +834,29 @@ obj_p ray_concat(obj_p x, obj_p y) {
 }
 
 obj_p ray_remove(obj_p x, obj_p y) {
-    obj_p r;
+    obj_p r, v;
+    i64_t i;
+
     switch (y->type) {
         case -TYPE_I32:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i32);
+            i = y->i32;
+            break;
         case -TYPE_I64:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i64);
+            i = y->i64;
+            break;
         default:
             return err_type(-TYPE_I64, y->type, 0, 0);
     }
+
+    r = copy_obj(x);
+    if (IS_ERR(r))
+        return r;
+
+    v = remove_idx(&r, i);
+    if (IS_ERR(v))
+        drop_obj(r);
+
+    return v;
 }
 
 obj_p ray_distinct(obj_p x) {
@@ -1082,14 +1105,14 @@ obj_p ray_group(obj_p x) {
 obj_p ray_diverse(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return diverse_obj(&res);
 }
 
 obj_p ray_unify(obj_p x) {
     obj_p res;
 
-    res = cow_obj(x);
+    res = clone_obj(x);
     return unify_list(&res);
 }
 
-- 
2.43.0


From 9868b10f4caa0d35e3e88c5efb7cf4578a0436fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 06/47] fix: release intermediate results in take and bin, keep
 the enum domain until its type is read

---
 core/items.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..e6765fb 100644
--- a/core/items.c
+++ b/core/items.c
@@ -593,13 +593,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
@@ -628,12 +628,13 @@ obj_p ray_take(obj_p from, obj_p count) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
-            drop_obj(s);
             if (s->type != TYPE_SYMBOL) {
+                drop_obj(s);
                 drop_obj(k);
                 return res;
-            } else
-                return enumerate(k, res);
+            }
+            drop_obj(s);
+            return enumerate(k, res);
 
         case TYPE_MAPLIST:
             k = MAPLIST_KEY(from);
@@ -1541,8 +1542,11 @@ static obj_p bin_map(raw_p op, obj_p x, obj_p y) {
         pool_add_task(pool, op, 5, x, y, l - offset, offset, out);
 
     v = pool_run(pool);
-    if (IS_ERR(v))
+    if (IS_ERR(v)) {
+        out->len = 0;
+        drop_obj(out);
         return v;
+    }
 
     drop_obj(v);
 
-- 
2.43.0


From f2af6080fb74861afaf7d934e8a9d3e70628e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 07/47] fix: release intermediate results on error paths of
 splayed and csv io

---
 core/binary.c |  7 ++++++-
 core/io.c     | 12 ++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..a49cccb 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -205,8 +205,10 @@ obj_p binary_set(obj_p x, obj_p y) {
                     drop_obj(col);
                     drop_obj(buf);
 
-                    if (IS_ERR(res))
+                    if (IS_ERR(res)) {
+                        drop_obj(k);
                         return res;
+                    }
 
                     drop_obj(res);
 
@@ -217,6 +219,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                     if (fd == -1) {
                         res = err_os();
                         drop_obj(path);
+                        drop_obj(k);
                         return res;
                     }
 
@@ -230,6 +233,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                         res = err_os();
                         fs_fclose(fd);
                         drop_obj(path);
+                        drop_obj(k);
                         return res;
                     }
 
@@ -241,6 +245,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                         res = err_os();
                         fs_fclose(fd);
                         drop_obj(path);
+                        drop_obj(k);
                         return res;
                     }
 
diff --git a/core/io.c b/core/io.c
index 5f87b11..08d87cb 100644
--- a/core/io.c
+++ b/core/io.c
@@ -733,6 +733,7 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             if (buf == NULL) {
                 drop_obj(types);
                 fs_fclose(fd);
+                drop_obj(path);
                 return err_os();
             }
 
@@ -771,6 +772,7 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                         drop_obj(names);
                         fs_fclose(fd);
                         mmap_free(buf, size);
+                        drop_obj(path);
                         heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
                         return err_length(0, 0, 0, 0, 0, 0);
                     }
@@ -1251,8 +1253,11 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
                 return err_type(TYPE_C8, symfile->type, 0, 0);
         }
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(cols);
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
 
@@ -1261,8 +1266,11 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
         drop_obj(s);
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(cols);
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
     }
-- 
2.43.0


From b584706e23f2d12963ad91b274a2ceae1bc594f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 08/47] fix: release the temporary indices of dictionary and
 small-array sorts

---
 core/sort.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index a202a20..1469bba 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -140,6 +140,7 @@ obj_p mergesort_generic_obj(obj_p vec, i64_t asc) {
             compare_fn = compare_lists;
             break;
         default:
+            drop_obj(indices);
             return I64(0);
     }
 
@@ -429,7 +430,7 @@ obj_p ray_sort_asc_f64(obj_p vec) {
 
 obj_p ray_sort_asc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, res;
 
     if (len == 0)
         return I64(0);
@@ -472,7 +473,12 @@ obj_p ray_sort_asc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, 1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_asc(AS_LIST(vec)[1]));
+            indices = ray_sort_asc(AS_LIST(vec)[1]);
+            if (IS_ERR(indices))
+                return indices;
+            res = at_obj(AS_LIST(vec)[0], indices);
+            drop_obj(indices);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -690,7 +696,7 @@ obj_p ray_sort_desc_f64(obj_p vec) {
 
 obj_p ray_sort_desc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, res;
 
     if (len == 0)
         return I64(0);
@@ -733,7 +739,12 @@ obj_p ray_sort_desc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, -1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_desc(AS_LIST(vec)[1]));
+            indices = ray_sort_desc(AS_LIST(vec)[1]);
+            if (IS_ERR(indices))
+                return indices;
+            res = at_obj(AS_LIST(vec)[0], indices);
+            drop_obj(indices);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -908,6 +919,8 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
                 binary_insertion_sort_symbols(result, vec, len, asc);
                 return indices;
         }
+
+        drop_obj(indices);
     }
 
     // For larger arrays: try counting sort first for integer types
-- 
2.43.0


From c13244e01e36f80d612b59397e2b4c8f982e2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 09/47] fix: joins copy the key list before trimming it,
 release intermediates on error

---
 core/join.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/join.c b/core/join.c
index 81ed2e2..6ab3076 100644
--- a/core/join.c
+++ b/core/join.c
@@ -234,8 +234,10 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return idx;
 
     un = ray_union(AS_LIST(x[1])[0], AS_LIST(x[2])[0]);
-    if (IS_ERR(un))
+    if (IS_ERR(un)) {
+        drop_obj(idx);
         return un;
+    }
 
     // exclude columns that we are joining on
     cols = ray_except(un, x[0]);
@@ -331,8 +333,8 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
-    keys = remove_idx(&keys, keys->len - 1);
+    keys = copy_obj(x[0]);
+    remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
 
@@ -390,6 +392,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     if (is_null(wjkl) || is_null(wjkr)) {
         drop_obj(wjkl);
         drop_obj(wjkr);
+        drop_obj(jtab);
         return err_value(0);
     }
 
@@ -398,11 +401,12 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         i8_t actual = wjkr->type;
         drop_obj(wjkl);
         drop_obj(wjkr);
+        drop_obj(jtab);
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
-    keys = remove_idx(&keys, keys->len - 1);
+    keys = copy_obj(x[0]);
+    remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
 
@@ -414,6 +418,11 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     drop_obj(wjkl);
     drop_obj(wjkr);
 
+    if (IS_ERR(idx)) {
+        drop_obj(jtab);
+        return idx;
+    }
+
     rtab = group_map(jtab, idx);
 
     // Use query context for column resolution during aggregation
-- 
2.43.0


From 4f6fbb03add225eb07934170e2a5b59153dfb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 10/47] fix: release counts and averages used by med and dev,
 output of failed maps

---
 core/math.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/core/math.c b/core/math.c
index 09cbee2..2c19396 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2269,8 +2269,10 @@ obj_p unop_map(raw_p op, obj_p x) {
         pool_add_task(pool, op, 4, x, l - offset, offset, out);
 
     v = pool_run(pool);
-    if (IS_ERR(v))
+    if (IS_ERR(v)) {
+        drop_obj(out);
         return v;
+    }
 
     drop_obj(v);
 
@@ -2527,7 +2529,10 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
+    obj_p cnt = ray_cnt(x);
+    i64_t l = IS_ERR(cnt) ? NULL_I64 : cnt->i64;  // lazy columns are counted by their own cases
+
+    drop_obj(cnt);
     if (l == 0)
         return f64(NULL_F64);
 
@@ -2627,7 +2632,7 @@ obj_p ray_med(obj_p x) {
 
 obj_p ray_dev(obj_p x) {
     obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
+    i64_t l = IS_ERR(cnt_obj) ? NULL_I64 : cnt_obj->i64;  // lazy columns are counted by their own cases
     drop_obj(cnt_obj);
 
     if (l == 0)
@@ -2696,5 +2701,14 @@ obj_p ray_dev(obj_p x) {
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
 
-    return f64(sqrt(ray_sq_sub(x, f64(favg))->f64 / (f64_t)l));
+    obj_p avg = f64(favg);
+    obj_p sq = ray_sq_sub(x, avg);
+    drop_obj(avg);
+    if (IS_ERR(sq))
+        return sq;
+
+    f64_t dev = sqrt(sq->f64 / (f64_t)l);
+    drop_obj(sq);
+
+    return f64(dev);
 }
-- 
2.43.0


From 62174d9c269e1527a51d4887e1e70ef043931e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 11/47] fix: release partial columns and null parameters of
 select

---
 core/query.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/query.c b/core/query.c
index 6a36c02..f824277 100644
--- a/core/query.c
+++ b/core/query.c
@@ -128,6 +128,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
                     if (IS_ERR(v)) {
                         lst->len = i;
+                        drop_obj(lst);
                         drop_obj(res);
                         drop_obj(index);
                         if (!is_null(actual_ids)) drop_obj(actual_ids);
@@ -145,6 +146,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
                     if (IS_ERR(v)) {
                         lst->len = i;
+                        drop_obj(lst);
                         drop_obj(res);
                         drop_obj(index);
                         return v;
@@ -273,8 +275,10 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
 
     prm = at_sym(obj, "from", 4);
 
-    if (is_null(prm))
+    if (is_null(prm)) {
+        drop_obj(prm);
         return err_value(symbols_intern("from", 4));
+    }
 
     val = eval(prm);
     drop_obj(prm);
@@ -301,7 +305,8 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
             return val;
 
         ctx->take = val;
-    }
+    } else
+        drop_obj(prm);
 
     timeit_tick("fetch table");
 
-- 
2.43.0


From 7a7e059e45c1aba9df0d503fe3197b16688a8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 12/47] fix: release aggregation output, timers, commands and
 connection names on error paths

---
 core/aggr.c   | 8 ++++++--
 core/chrono.c | 6 +++++-
 core/ipc.c    | 1 +
 core/sys.c    | 7 +++++--
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index e876b48..5333665 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -3054,14 +3054,18 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             return res;
         case TYPE_ENUM:
             k = ray_key(val);
-            if (IS_ERR(k))
+            if (IS_ERR(k)) {
+                drop_obj(res);
                 return k;
+            }
 
             v = ray_get(k);
             drop_obj(k);
 
-            if (IS_ERR(v))
+            if (IS_ERR(v)) {
+                drop_obj(res);
                 return v;
+            }
 
             if (v->type != TYPE_SYMBOL) {
                 drop_obj(v);
diff --git a/core/chrono.c b/core/chrono.c
index f89a20f..942f957 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -286,7 +286,11 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
 
-    return timer_push(timers, timer);
+    id = timer_push(timers, timer);
+    if (id == -1)
+        timer_free(timer);
+
+    return id;
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..b3195f3 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -148,6 +148,7 @@ option_t ipc_listener_accept(poll_p poll, selector_p selector) {
 
         if (poll_register(poll, &registry) == -1) {
             LOG_ERROR("Failed to register new connection in poll registry");
+            drop_obj(ctx->name);
             heap_free(ctx);
             return option_error(err_os());
         }
diff --git a/core/sys.c b/core/sys.c
index 9024bb5..5d2e296 100644
--- a/core/sys.c
+++ b/core/sys.c
@@ -377,8 +377,11 @@ obj_p ray_system(obj_p cmd) {
     c = str_fmt(-1, "%.*s 2>&1", (i32_t)cmd->len, (lit_p)AS_U8(cmd));
 
     fp = popen(AS_C8(c), "r");
-    if (fp == NULL)
-        return err_os();
+    if (fp == NULL) {
+        res = err_os();
+        drop_obj(c);
+        return res;
+    }
 
     res = LIST(0);
 
-- 
2.43.0


From 85fee154fc8bc7b627023ef1898ef44aca47bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 13/47] fix: timer_add/ray_at: keep the index bound before the
 enum domain is dropped, release the callback when the timer table is full

---
 core/chrono.c | 11 ++++++-----
 core/items.c  |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/chrono.c b/core/chrono.c
index 942f957..5694609 100644
--- a/core/chrono.c
+++ b/core/chrono.c
@@ -283,14 +283,15 @@ i64_t timer_add(timers_p timers, i64_t tic, i64_t exp, i64_t num, obj_p clb) {
     i64_t id;
     ray_timer_p timer;
 
+    if (timers->size == timers->capacity) {
+        drop_obj(clb);
+        return -1;
+    }
+
     id = timers->counter++;
     timer = ray_timer_create(id, tic, exp, num, clb);
 
-    id = timer_push(timers, timer);
-    if (id == -1)
-        timer_free(timer);
-
-    return id;
+    return timer_push(timers, timer);
 }
 
 nil_t timer_del(timers_p timers, i64_t id) {
diff --git a/core/items.c b/core/items.c
index e6765fb..139e449 100644
--- a/core/items.c
+++ b/core/items.c
@@ -198,8 +198,9 @@ obj_p ray_at(obj_p x, obj_p y) {
             }
 
             if (AS_I64(v)[y->i64] >= (i64_t)s->len) {
+                xl = s->len;
                 drop_obj(s);
-                return err_index(AS_I64(v)[y->i64], s->len, 0, 0);
+                return err_index(AS_I64(v)[y->i64], xl, 0, 0);
             }
 
             res = at_idx(s, AS_I64(v)[y->i64]);
-- 
2.43.0


From d558e92c26b79b6c37680612b3445b44891ec573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 14/47] fix: element-wise functions must not update list
 elements in place, and/or must not write into their first operand

---
 core/iter.c  | 48 ++++++++++++++++++++++--------------------------
 core/logic.c | 28 ++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 5c48183..ceabab2 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -54,7 +54,9 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
                 return NULL_OBJ;
 
             v = AS_LIST(x);
-            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[0]) : fn(v[0]);
+            a = clone_obj(v[0]);
+            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+            drop_obj(a);
 
             if (IS_ERR(item))
                 return item;
@@ -63,7 +65,9 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
             ins_obj(&res, 0, item);
 
             for (i = 1; i < l; i++) {
-                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[i]) : fn(v[i]);
+                a = clone_obj(v[i]);
+                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+                drop_obj(a);
                 if (IS_ERR(item)) {
                     res->len = i;
                     drop_obj(res);
@@ -307,14 +311,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        a = xt == TYPE_LIST ? clone_obj(AS_LIST(x)[0]) : at_idx(x, 0);
+        b = yt == TYPE_LIST ? clone_obj(AS_LIST(y)[0]) : at_idx(y, 0);
         item = map_binary_fn(fn, attrs, a, b);
 
-        if (xt != TYPE_LIST)
-            drop_obj(a);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(a);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -324,14 +326,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            a = xt == TYPE_LIST ? clone_obj(AS_LIST(x)[i]) : at_idx(x, i);
+            b = yt == TYPE_LIST ? clone_obj(AS_LIST(y)[i]) : at_idx(y, i);
             item = map_binary_fn(fn, attrs, a, b);
 
-            if (xt != TYPE_LIST)
-                drop_obj(a);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(a);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -349,10 +349,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             return fn(x, y);
         }
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
+        a = xt == TYPE_LIST ? clone_obj(AS_LIST(x)[0]) : at_idx(x, 0);
         item = map_binary_fn(fn, attrs, a, y);
-        if (xt != TYPE_LIST)
-            drop_obj(a);
+        drop_obj(a);
 
         if (IS_ERR(item))
             return item;
@@ -362,10 +361,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
+            a = xt == TYPE_LIST ? clone_obj(AS_LIST(x)[i]) : at_idx(x, i);
             item = map_binary_fn(fn, attrs, a, y);
-            if (xt != TYPE_LIST)
-                drop_obj(a);
+            drop_obj(a);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -382,10 +380,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        b = yt == TYPE_LIST ? clone_obj(AS_LIST(y)[0]) : at_idx(y, 0);
         item = map_binary_fn(fn, attrs, x, b);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -395,10 +392,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            b = yt == TYPE_LIST ? clone_obj(AS_LIST(y)[i]) : at_idx(y, i);
             item = map_binary_fn(fn, attrs, x, b);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
diff --git a/core/logic.c b/core/logic.c
index 1bc3316..2a2a751 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -85,6 +85,28 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     return NULL_OBJ;
 }
 
+// The masks are combined in place: take a private copy of a value something else still refers to
+static obj_p own_mask(obj_p x) {
+    i64_t i, l;
+    obj_p res;
+
+    if (rc_obj(x) == 1)
+        return x;
+
+    if (x->type == TYPE_PARTEDB8) {
+        l = x->len;
+        res = LIST(l);
+        res->type = TYPE_PARTEDB8;
+        for (i = 0; i < l; i++)
+            AS_LIST(res)[i] = (AS_LIST(x)[i] == NULL_OBJ) ? NULL_OBJ : copy_obj(AS_LIST(x)[i]);
+    } else
+        res = copy_obj(x);
+
+    drop_obj(x);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -111,6 +133,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
         switch (MTYPE2(res->type, next->type)) {
             case MTYPE2(-TYPE_B8, -TYPE_B8):
+                res = own_mask(res);
                 op_func(&res->b8, &next->b8, (raw_p)1, (raw_p)0, (raw_p)1);
                 drop_obj(next);
                 break;
@@ -125,6 +148,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                 }
 
                 // Perform element-wise operation using the provided function
+                res = own_mask(res);
                 m = pool_split_by(pool, l, 0);
                 if (m == 1) {
                     op_func(AS_B8(res), AS_B8(next), (raw_p)l, (raw_p)0, (raw_p)1);
@@ -154,6 +178,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
             case MTYPE2(TYPE_B8, -TYPE_B8):
             va:
+                res = own_mask(res);
                 l = ops_count(res);
                 m = pool_split_by(pool, l, 0);
 
@@ -199,6 +224,9 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
+                res = own_mask(res);
+                next = own_mask(next);
+
                 for (j = 0; j < l; j++) {
                     obj_p a = AS_LIST(res)[j];
                     obj_p b = AS_LIST(next)[j];
-- 
2.43.0


From 54ecdf2a131e7c1910459c9bad56d30c1841de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 15/47] fix: unop_map: hand on the argument of an operation
 with nothing to compute instead of leaking it

---
 core/math.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/math.c b/core/math.c
index 2c19396..3668b06 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2253,6 +2253,10 @@ obj_p unop_map(raw_p op, obj_p x) {
             drop_obj(out);
             return v;
         }
+        if (v != NULL_OBJ) {  // nothing to compute: the operation handed back its argument
+            drop_obj(out);
+            return v;
+        }
         return out;
     }
 
@@ -2274,6 +2278,11 @@ obj_p unop_map(raw_p op, obj_p x) {
         return v;
     }
 
+    if (AS_LIST(v)[0] != NULL_OBJ) {
+        drop_obj(out);
+        out = clone_obj(AS_LIST(v)[0]);
+    }
+
     drop_obj(v);
 
     return out;
-- 
2.43.0


From b9034fd1763a49463252173c393bae648496b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 16/47] fix: alter/insert/upsert: do not update an argument
 that stays on the caller's stack, nor an element something else refers to

---
 core/update.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/core/update.c b/core/update.c
index 4faccdd..d64c993 100644
--- a/core/update.c
+++ b/core/update.c
@@ -55,9 +55,10 @@ obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
         *original = **val;
         obj = cow_obj(**val);
     } else {
+        // the argument stays on the caller's stack: update a copy, growing it may move it
         *val = NULL;
         *original = obj;
-        obj = cow_obj(obj);
+        obj = copy_obj(obj);
     }
 
     return obj;
@@ -203,13 +204,27 @@ obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, ob
     return reordered;
 }
 
+// The value in a slot is about to be updated in place: replace it with a copy if something else refers to it
+static obj_p *own_ref(obj_p *p) {
+    obj_p v;
+
+    v = cow_obj(*p);
+    if (v != *p) {
+        drop_obj(*p);
+        *p = v;
+    }
+
+    return p;
+}
+
 obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     i64_t j;
-    obj_p v, *p;
 
     switch (MTYPE2(obj->type, idx->type)) {
         case MTYPE2(TYPE_LIST, -TYPE_I64):
-            return &AS_LIST(obj)[idx->i64];
+            if (idx->i64 < 0 || idx->i64 >= (i64_t)obj->len)
+                return NULL;
+            return own_ref(&AS_LIST(obj)[idx->i64]);
         default:
             if (obj->type == TYPE_DICT) {
                 j = find_obj_idx(AS_LIST(obj)[0], idx);
@@ -219,14 +234,7 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
                     if (AS_LIST(obj)[1]->type != TYPE_LIST)
                         diverse_obj(AS_LIST(obj) + 1);
 
-                    p = AS_LIST(AS_LIST(obj)[1]) + j;
-                    v = cow_obj(*p);
-                    if (v != *p) {
-                        drop_obj(*p);
-                        *p = v;
-                    }
-
-                    return p;
+                    return own_ref(AS_LIST(*own_ref(AS_LIST(obj) + 1)) + j);
                 }
             }
 
@@ -281,9 +289,10 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
         if (p == NULL)
             return err_value(0);
         if (IS_ERR(*p))
-            return *p;
+            return clone_obj(*p);
 
-        return push_obj(p, clone_obj(val));
+        res = push_obj(p, clone_obj(val));
+        return IS_ERR(res) ? res : *obj;
     }
 
     // special case for remove
@@ -324,14 +333,17 @@ obj_p ray_alter(obj_p *x, i64_t n) {
             return err_value(0);
         obj = cow_obj(*cur);
     } else {
-        obj = cow_obj(x[0]);
+        obj = copy_obj(x[0]);
     }
 
+    if (IS_ERR(obj))
+        return obj;
+
     res = obj;
     res = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
 
     if (IS_ERR(res)) {
-        if (x[0]->type != -TYPE_SYMBOL)
+        if (x[0]->type != -TYPE_SYMBOL || obj != *cur)
             drop_obj(obj);
 
         return res;
@@ -373,7 +385,7 @@ obj_p ray_modify(obj_p *x, i64_t n) {
             return err_value(0);
         obj = cow_obj(*cur);
     } else {
-        obj = cow_obj(x[0]);
+        obj = copy_obj(x[0]);
     }
 
     res = dot_obj(obj, x[2]);
-- 
2.43.0


From 5d4f7cae1386547260db515bc6bcc871bead5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 17/47] fix: modify: update the addressed element through its
 slot instead of a shared or lost copy

---
 core/update.c | 54 ++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/core/update.c b/core/update.c
index d64c993..539ca8d 100644
--- a/core/update.c
+++ b/core/update.c
@@ -242,9 +242,9 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     }
 }
 
-obj_p dot_obj(obj_p obj, obj_p idx) {
+// The slot the last index of a path applies to
+static obj_p *dot_ref(obj_p *obj, obj_p idx) {
     i64_t i, l;
-    obj_p *ref;
 
     switch (idx->type) {
         case TYPE_NULL:
@@ -252,24 +252,16 @@ obj_p dot_obj(obj_p obj, obj_p idx) {
         case TYPE_LIST:
             l = idx->len;
             if (l < 2)
-                return err_value(0);
+                return NULL;
 
             l--;  // skip last element
 
-            for (i = 0; i < l; i++) {
-                obj = cow_obj(obj);
-                obj = dot_obj(obj, AS_LIST(idx)[i]);
-                if (obj == NULL)
-                    return err_value(0);
-            }
+            for (i = 0; i < l && obj != NULL; i++)
+                obj = dot_ref(obj, AS_LIST(idx)[i]);
 
             return obj;
-
         default:
-            ref = at_obj_ref(cow_obj(obj), idx);
-            if (ref == NULL)
-                return err_value(0);
-            return *ref;
+            return at_obj_ref(*obj, idx);
     }
 }
 
@@ -369,7 +361,8 @@ obj_p ray_alter(obj_p *x, i64_t n) {
 }
 
 obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur, idx;
+    obj_p obj, res, *cur, *ref, idx;
+    b8_t copied;
 
     cur = NULL;
 
@@ -388,27 +381,36 @@ obj_p ray_modify(obj_p *x, i64_t n) {
         obj = copy_obj(x[0]);
     }
 
-    res = dot_obj(obj, x[2]);
-    if (IS_ERR(res))
-        return res;
+    if (IS_ERR(obj))
+        return obj;
+
+    copied = (cur == NULL) || (obj != *cur);
+    ref = dot_ref(&obj, x[2]);
+    idx = (ref == NULL) ? err_value(0) : ray_last(x[2]);
 
-    idx = ray_last(x[2]);
     if (IS_ERR(idx))
-        return idx;
+        res = idx;
+    else {
+        res = __alter(ref, x[1], idx, x[3]);
+        drop_obj(idx);
+    }
 
-    res = __alter(&res, x[1], idx, x[3]);
-    drop_obj(idx);
+    if (IS_ERR(res)) {
+        if (copied)
+            drop_obj(obj);
+        else
+            *cur = obj;
 
-    if (IS_ERR(res))
         return res;
+    }
 
     if (x[0]->type != -TYPE_SYMBOL)
         return obj;
 
-    if (cur != NULL && (*cur) != obj) {
+    if (copied)
         drop_obj(*cur);
-        *cur = obj;
-    }
+
+    *cur = obj;
 
     return clone_obj(x[0]);
 }
-- 
2.43.0


From f79d9806adf47a5b05db0dd82772481f5afe8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 18/47] fix: updates of a variable do not reach the names and
 values its table or dict shares with others

---
 core/update.c | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/core/update.c b/core/update.c
index 539ca8d..3810dc3 100644
--- a/core/update.c
+++ b/core/update.c
@@ -46,6 +46,33 @@
         return r;                \
     };
 
+static obj_p own_obj(obj_p obj);
+
+// The value in a slot is about to be updated in place: replace it with a copy if something else refers to it
+static obj_p *own_ref(obj_p *p) {
+    obj_p v;
+
+    v = own_obj(*p);
+    if (v != *p) {
+        drop_obj(*p);
+        *p = v;
+    }
+
+    return p;
+}
+
+// The names and values of a table or a dict are updated along with it, and may be shared on their own
+static obj_p own_obj(obj_p obj) {
+    obj = cow_obj(obj);
+
+    if (obj->type == TYPE_TABLE || obj->type == TYPE_DICT) {
+        own_ref(AS_LIST(obj));
+        own_ref(AS_LIST(obj) + 1);
+    }
+
+    return obj;
+}
+
 obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
     if (obj->type == -TYPE_SYMBOL) {
         *val = resolve(obj->i64);
@@ -53,7 +80,7 @@ obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
             return err_value(0);
 
         *original = **val;
-        obj = cow_obj(**val);
+        obj = own_obj(**val);
     } else {
         // the argument stays on the caller's stack: update a copy, growing it may move it
         *val = NULL;
@@ -204,19 +231,6 @@ obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, ob
     return reordered;
 }
 
-// The value in a slot is about to be updated in place: replace it with a copy if something else refers to it
-static obj_p *own_ref(obj_p *p) {
-    obj_p v;
-
-    v = cow_obj(*p);
-    if (v != *p) {
-        drop_obj(*p);
-        *p = v;
-    }
-
-    return p;
-}
-
 obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     i64_t j;
 
@@ -323,7 +337,7 @@ obj_p ray_alter(obj_p *x, i64_t n) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
+        obj = own_obj(*cur);
     } else {
         obj = copy_obj(x[0]);
     }
@@ -376,7 +390,7 @@ obj_p ray_modify(obj_p *x, i64_t n) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
+        obj = own_obj(*cur);
     } else {
         obj = copy_obj(x[0]);
     }
-- 
2.43.0


From 4e596176b93e14fc859d11134cf11e7896a4e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 19/47] fix: and/or take private copies of the parts of a
 parted mask

---
 core/logic.c  | 9 +++++----
 core/update.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 2a2a751..b1f65f5 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -90,17 +90,18 @@ static obj_p own_mask(obj_p x) {
     i64_t i, l;
     obj_p res;
 
-    if (rc_obj(x) == 1)
-        return x;
-
     if (x->type == TYPE_PARTEDB8) {
         l = x->len;
         res = LIST(l);
         res->type = TYPE_PARTEDB8;
         for (i = 0; i < l; i++)
             AS_LIST(res)[i] = (AS_LIST(x)[i] == NULL_OBJ) ? NULL_OBJ : copy_obj(AS_LIST(x)[i]);
-    } else
+    } else {
+        if (rc_obj(x) == 1)
+            return x;
+
         res = copy_obj(x);
+    }
 
     drop_obj(x);
 
diff --git a/core/update.c b/core/update.c
index 3810dc3..b81d13d 100644
--- a/core/update.c
+++ b/core/update.c
@@ -50,11 +50,12 @@ static obj_p own_obj(obj_p obj);
 
 // The value in a slot is about to be updated in place: replace it with a copy if something else refers to it
 static obj_p *own_ref(obj_p *p) {
-    obj_p v;
+    obj_p o, v;
 
-    v = own_obj(*p);
-    if (v != *p) {
-        drop_obj(*p);
+    o = *p;
+    v = own_obj(o);
+    if (v != o) {
+        drop_obj(o);
         *p = v;
     }
 
-- 
2.43.0


From e19e89116c7a871b6d923fda98263edafd8c5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 20/47] fix: i64 vector with i32 atom reads the atom as an i32

---
 core/math.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/math.c b/core/math.c
index 3668b06..e9ae6f0 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-- 
2.43.0


From 1a182125e163074c838ba8bcfb9ec919dbe79f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 21/47] fix: indexing a b8 vector reads its i64 indices as i64

---
 core/items.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/items.c b/core/items.c
index 139e449..cea13d0 100644
--- a/core/items.c
+++ b/core/items.c
@@ -95,10 +95,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = B8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_B8(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_B8(res)[i] = B8_FALSE;
                 else
-                    AS_B8(res)[i] = AS_B8(x)[(i32_t)AS_B8(y)[i]];
+                    AS_B8(res)[i] = AS_B8(x)[AS_I64(y)[i]];
             }
 
             return res;
-- 
2.43.0


From d01653bb983612fc2c6dee5be3e567d93a760fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 22/47] fix: selecting from a parted column makes a result of
 its element type

---
 core/rayforce.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 696fa2b..1395b40 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1207,7 +1207,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return table(clone_obj(AS_LIST(obj)[0]), cols);
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1233,7 +1233,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
         case TYPE_PARTEDI32:
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
@@ -1246,7 +1246,7 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            res = vector(obj->type - TYPE_MAPLIST, len);
+            res = vector(obj->type - TYPE_PARTEDLIST, len);
             n = AS_LIST(obj)[0]->len;
             for (i = 0, mapid = 0, m = 0; i < len; i++) {
                 while (ids[i] >= n) {
-- 
2.43.0


From 85f4e6eca086f8ccf07b60f9c28def08824ae568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 23/47] fix: aggregates over parted columns return the error of
 a part

---
 core/aggr.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/core/aggr.c b/core/aggr.c
index 5333665..b33fa91 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -193,6 +193,11 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
             /* Aggregate all partitions into single result, no filter */                                             \
             for ($$i = 0; $$i < $$l; $$i++) {                                                                        \
                 $$parts = aggr_map(preaggr, AS_LIST(val)[$$i], AS_LIST(val)[$$i]->type, index);                      \
+                if (IS_ERR($$parts)) {                                                                               \
+                    drop_obj($$res);                                                                                 \
+                    $$res = $$parts;                                                                                 \
+                    break;                                                                                           \
+                }                                                                                                    \
                 $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                       \
                 drop_obj($$parts);                                                                                   \
                 if ($$first) {                                                                                       \
@@ -226,6 +231,11 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
                     $$parts = aggr_map(preaggr, $$pdata, $$pdata->type, $$pindex);                                   \
                     drop_obj($$pdata);                                                                               \
                 }                                                                                                    \
+                if (IS_ERR($$parts)) {                                                                               \
+                    drop_obj($$res);                                                                                 \
+                    $$res = $$parts;                                                                                 \
+                    break;                                                                                           \
+                }                                                                                                    \
                 $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                       \
                 drop_obj($$parts);                                                                                   \
                 if (groups == 1) {                                                                                   \
@@ -249,6 +259,11 @@ i64_t indexl_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
             for ($$i = 0, $$j = 0; $$i < $$l; $$i++) {                                                               \
                 if ($$filter == NULL_OBJ || AS_LIST($$filter)[$$i] != NULL_OBJ) {                                    \
                     $$parts = aggr_map(preaggr, AS_LIST(val)[$$i], AS_LIST(val)[$$i]->type, index);                  \
+                    if (IS_ERR($$parts)) {                                                                           \
+                        drop_obj($$res);                                                                             \
+                        $$res = $$parts;                                                                             \
+                        break;                                                                                       \
+                    }                                                                                                \
                     $$v = AGGR_COLLECT($$parts, 1, incoerse, outcoerse, postaggr);                                   \
                     drop_obj($$parts);                                                                               \
                     memcpy(__AS_##outcoerse($$res) + $$j++, __AS_##incoerse($$v), __SIZE_OF_##outcoerse);            \
-- 
2.43.0


From b2ee31b158b12a27d87ef541dc3fdab97961b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 24/47] fix: a received error restores its context instead of
 writing into the shared error value

---
 core/serde.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index c5ef252..e6f1a42 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -27,6 +27,7 @@
 #include "lambda.h"
 #include "env.h"
 #include "error.h"
+#include "eval.h"
 
 i64_t size_of_type(i8_t type) {
     switch (type) {
@@ -321,7 +322,9 @@ i64_t ser_raw(u8_t *buf, obj_p obj) {
             err_code_t code = err_code(obj);
             buf[0] = (u8_t)code;
             c = 1;
-            memcpy(buf + c, &obj->i64, 8);  // Copy context directly
+            // The context of the error lives in the VM (a symbol id means nothing to the receiver)
+            i64_t ctx_val = code == EC_VALUE ? 0 : VM->err.value.sym;
+            memcpy(buf + c, &ctx_val, 8);
             c += 8;
             if (code == EC_USER) {
                 lit_p m = err_msg(obj);
@@ -668,9 +671,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             }
             
             // Reconstruct error with context
-            obj_p err = err_raw(code);
-            err->i64 = ctx_val;
-            return err;
+            VM->err.value.sym = ctx_val;
+            return err_raw(code);
         }
 
         default:
-- 
2.43.0


From 254ab427665647029235fbf8ffa0d26dd9dfa4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:27 +0000
Subject: [PATCH 25/47] fix: storing a local of a function without locals does
 not look into the missing environment

---
 core/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/eval.c b/core/eval.c
index 7d14666..e09b47f 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -627,6 +627,7 @@ OP_STOREENV:
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
         obj_p env = AS_LAMBDA(vm->fn)->env;
         x = pop();  // value to store
+        y = clone_obj(x);
 
         if (n < nargs) {
             // Storing to arg slot - update stack
@@ -652,7 +653,7 @@ OP_STOREENV:
             drop_obj(x);
         }
         // Push the value back (let returns the value)
-        push(clone_obj(n < nargs ? vm->ps[vm->fp + n] : AS_LIST(AS_LIST(env)[1])[n - nargs]));
+        push(y);
     }
     next();
 
-- 
2.43.0


From 2d8ca5ac180ed42977155350c633a87d32e82706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 26/47] fix: merging dicts returns the error of unsupported
 keys and takes values of any kind

---
 core/compose.c | 64 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index fcc83fd..56d96b9 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -474,7 +474,7 @@ obj_p ray_rand(obj_p x, obj_p y) {
 }
 
 obj_p ray_concat(obj_p x, obj_p y) {
-    i64_t i, xl, yl;
+    i64_t i, l, n, xl, yl;
     obj_p vec, kx, kxy, ix, iy, dx, dy;
 
     switch (MTYPE2(x->type, y->type)) {
@@ -735,35 +735,51 @@ obj_p ray_concat(obj_p x, obj_p y) {
 
         case MTYPE2(TYPE_DICT, TYPE_DICT):
             kxy = ray_sect(AS_LIST(x)[0], AS_LIST(y)[0]);
+            if (IS_ERR(kxy))
+                return kxy;
             dx = ray_except(AS_LIST(x)[0], kxy);
-            dy = ray_except(AS_LIST(y)[0], kxy);
-
-            vec = vector(TYPE_LIST, dx->len + kxy->len + dy->len);
-
-            // add items in x that are not in y
-            ix = ray_find(AS_LIST(x)[0], dx);
-            for (i = 0; i < (i64_t)dx->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(x)[1])[AS_I64(ix)[i]]);
+            if (IS_ERR(dx)) {
+                drop_obj(kxy);
+                return dx;
             }
-            drop_obj(ix);
-
-            // add items in x and y with the same key
-            ix = ray_find(AS_LIST(x)[0], kxy);
-            iy = ray_find(AS_LIST(y)[0], kxy);
-            for (i = 0; i < (i64_t)kxy->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+            dy = ray_except(AS_LIST(y)[0], kxy);
+            if (IS_ERR(dy)) {
+                drop_obj(kxy);
+                drop_obj(dx);
+                return dy;
             }
-            drop_obj(ix);
-            drop_obj(iy);
 
-            // add items in y that are not in x
-            iy = ray_find(AS_LIST(y)[0], dy);
-            for (i = 0; i < (i64_t)dy->len; i++) {
-                AS_LIST(vec)[i + dx->len + kxy->len] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+            vec = LIST(0);
+
+            // items of x, taken from y when y has the same key
+            kx = AS_LIST(x)[0];
+            ix = ray_find(AS_LIST(y)[0], kx);
+            if (IS_ERR(ix)) {
+                drop_obj(vec);
+                vec = ix;
+            } else {
+                l = ops_count(kx);
+                for (i = 0; i < l; i++) {
+                    n = AS_I64(ix)[i];
+                    push_obj(&vec, n == NULL_I64 ? at_idx(AS_LIST(x)[1], i) : at_idx(AS_LIST(y)[1], n));
+                }
+                drop_obj(ix);
+
+                // add items in y that are not in x
+                iy = ray_find(AS_LIST(y)[0], dy);
+                if (IS_ERR(iy)) {
+                    drop_obj(vec);
+                    vec = iy;
+                } else {
+                    l = ops_count(dy);
+                    for (i = 0; i < l; i++)
+                        push_obj(&vec, at_idx(AS_LIST(y)[1], AS_I64(iy)[i]));
+                    drop_obj(iy);
+                }
             }
-            drop_obj(iy);
 
-            vec = dict(ray_concat(AS_LIST(x)[0], dy), vec);
+            if (!IS_ERR(vec))
+                vec = dict(ray_concat(AS_LIST(x)[0], dy), vec);
             drop_obj(kxy);
             drop_obj(dx);
             drop_obj(dy);
-- 
2.43.0


From a4c3b3f5f605a55c7f6baa479cbb8bddb5c9cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 27/47] fix: reading a csv in parallel returns the error of a
 failed part

---
 core/io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/io.c b/core/io.c
index 08d87cb..a43d4d1 100644
--- a/core/io.c
+++ b/core/io.c
@@ -616,6 +616,8 @@ obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t tot
     }
 
     res = pool_run(pool);
+    if (IS_ERR(res))
+        return res;
 
     l = res->len;
     for (i = 0; i < l; i++) {
-- 
2.43.0


From 330e02540f1e3713fd28d59ecf15cb352fbf0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 28/47] fix: hashing an enum whose domain is not a symbol
 vector

---
 core/index.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/index.c b/core/index.c
index 4d27587..ba2680a 100644
--- a/core/index.c
+++ b/core/index.c
@@ -197,6 +197,7 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                     out[i] = hash_index_u64(hash_index_obj(l64v[i]), out[i]);
             break;
         case TYPE_ENUM:
+            v = NULL_OBJ;
             if (resolve) {
                 // NOTE: ray_key/ray_get must be called BEFORE parallel execution starts
                 // because they access global state. The caller should ensure this is
@@ -204,6 +205,9 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 k = ray_key(obj);
                 v = ray_get(k);
                 drop_obj(k);
+            }
+            // an enum whose domain is gone is hashed by its raw values
+            if (v->type == TYPE_SYMBOL) {
                 u64v = (i64_t *)AS_SYMBOL(v);
                 ids = AS_I64(ENUM_VAL(obj));
                 if (filter)
@@ -212,7 +216,6 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 else
                     for (i = offset; i < len + offset; i++)
                         out[i] = hash_index_u64(u64v[ids[i]], out[i]);
-                drop_obj(v);
             } else {
                 u64v = (i64_t *)AS_I64(ENUM_VAL(obj));
                 if (filter)
@@ -222,6 +225,7 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                     for (i = offset; i < len + offset; i++)
                         out[i] = hash_index_u64(u64v[i], out[i]);
             }
+            drop_obj(v);
             break;
         case TYPE_MAPLIST:
             if (filter)
-- 
2.43.0


From ebb71844e859c8147d6aab00b5d36580e4d1cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 29/47] fix: rows of an enum without its domain are not equal
 to anything

---
 core/ops.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ops.c b/core/ops.c
index a859406..a1d7b9a 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -140,18 +140,18 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_ENUM, TYPE_ENUM):
             lv = at_idx(a, ai);
             rv = at_idx(b, bi);
-            eq = lv->i64 == rv->i64;
+            eq = !IS_ERR(lv) && !IS_ERR(rv) && lv->i64 == rv->i64;
             drop_obj(lv);
             drop_obj(rv);
             return eq;
         case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):
             lv = at_idx(a, ai);
-            eq = lv->i64 == AS_I64(b)[bi];
+            eq = !IS_ERR(lv) && lv->i64 == AS_I64(b)[bi];
             drop_obj(lv);
             return eq;
         case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):
             rv = at_idx(b, bi);
-            eq = AS_I64(a)[ai] == rv->i64;
+            eq = !IS_ERR(rv) && AS_I64(a)[ai] == rv->i64;
             drop_obj(rv);
             return eq;
         case MTYPE2(TYPE_MAPLIST, TYPE_MAPLIST):
-- 
2.43.0


From a9f8d7262b69d2a359db7e017be828f0f133627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 30/47] fix: value of a parted enum returns the error of a part

---
 core/items.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/items.c b/core/items.c
index cea13d0..ffeb8e1 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1332,6 +1332,10 @@ obj_p ray_value(obj_p x) {
             // TODO: optimise enums
             for (i = 0; i < l; i++) {
                 v = ray_value(AS_LIST(x)[i]);
+                if (IS_ERR(v)) {
+                    drop_obj(res);
+                    return v;
+                }
                 n = v->len;
                 memcpy(i64ptr, AS_I64(v), n * sizeof(i64_t));
                 drop_obj(v);
-- 
2.43.0


From 4660283298d2d1723f0453417f8e3f85950d4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 31/47] fix: reverse of i16 vectors (the median of a descending
 one read the error)

---
 core/compose.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 56d96b9..2b79d22 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -156,6 +156,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
             break;
 
+        case TYPE_I16:
+            l = x->len;
+            res = vector(x->type, l);
+
+            for (i = 0; i < l; i++)
+                AS_I16(res)[i] = AS_I16(x)[l - i - 1];
+            break;
+
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-- 
2.43.0


From 0daad5f004e9e485e86a01ec5020507534fcd547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 32/47] fix: an error of one element is the result of the
 operation instead of an element of its result

---
 core/aggr.c     | 68 +++++++++++++++++++++++++++++++++++++++++--------
 core/compose.c  | 52 +++++++++++++++++++++++++++++--------
 core/filter.c   | 12 ++++++++-
 core/items.c    | 27 +++++++++++++++++---
 core/logic.c    |  9 +++++--
 core/rayforce.c | 40 ++++++++++++++++++++++++-----
 6 files changed, 173 insertions(+), 35 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index b33fa91..f093740 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -691,8 +691,15 @@ obj_p aggr_first(obj_p val, obj_p index) {
             res = LIST(n);
             if (filter == NULL_OBJ) {
                 // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], 0);
+                for (i = 0; i < n; i++) {
+                    obj_p v = at_idx(AS_LIST(val)[i], 0);
+                    if (IS_ERR(v)) {
+                        res->len = i;
+                        drop_obj(res);
+                        return v;
+                    }
+                    AS_LIST(res)[i] = v;
+                }
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
@@ -701,7 +708,13 @@ obj_p aggr_first(obj_p val, obj_p index) {
                     // Check for non-null AND non-empty filter entry
                     if (fentry != NULL_OBJ) {
                         if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], 0);
+                            obj_p v = at_idx(AS_LIST(val)[i], 0);
+                            if (IS_ERR(v)) {
+                                res->len = j;
+                                drop_obj(res);
+                                return v;
+                            }
+                            AS_LIST(res)[j++] = v;
                         }
                     }
                 }
@@ -1002,7 +1015,13 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
                     if (filter == NULL_OBJ ||
                         (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_LIST(res)[0] = at_idx(AS_LIST(val)[i], -1);
+                        obj_p v = at_idx(AS_LIST(val)[i], -1);
+                        if (IS_ERR(v)) {
+                            res->len = 0;
+                            drop_obj(res);
+                            return v;
+                        }
+                        AS_LIST(res)[0] = v;
                         break;
                     }
                 }
@@ -1011,8 +1030,15 @@ obj_p aggr_last(obj_p val, obj_p index) {
             res = LIST(n);
             if (filter == NULL_OBJ) {
                 // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], -1);
+                for (i = 0; i < n; i++) {
+                    obj_p v = at_idx(AS_LIST(val)[i], -1);
+                    if (IS_ERR(v)) {
+                        res->len = i;
+                        drop_obj(res);
+                        return v;
+                    }
+                    AS_LIST(res)[i] = v;
+                }
             } else {
                 // With filter - iterate all partitions, only take matching ones
                 l = filter->len;
@@ -1020,7 +1046,13 @@ obj_p aggr_last(obj_p val, obj_p index) {
                     obj_p fentry = AS_LIST(filter)[i];
                     if (fentry != NULL_OBJ) {
                         if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], -1);
+                            obj_p v = at_idx(AS_LIST(val)[i], -1);
+                            if (IS_ERR(v)) {
+                                res->len = j;
+                                drop_obj(res);
+                                return v;
+                            }
+                            AS_LIST(res)[j++] = v;
                         }
                     }
                 }
@@ -3116,14 +3148,28 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             res = LIST(n);
             if (filter == NULL_OBJ) {
                 // No filter - each partition is a group
-                for (i = 0; i < (i64_t)val->len; i++)
-                    AS_LIST(res)[i] = ray_value(AS_LIST(val)[i]);
+                for (i = 0; i < (i64_t)val->len; i++) {
+                    obj_p v = ray_value(AS_LIST(val)[i]);
+                    if (IS_ERR(v)) {
+                        res->len = i;
+                        drop_obj(res);
+                        return v;
+                    }
+                    AS_LIST(res)[i] = v;
+                }
             } else {
                 // With filter - only include matching partitions
                 l = filter->len;
                 for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_LIST(res)[j++] = ray_value(AS_LIST(val)[i]);
+                    if (AS_LIST(filter)[i] != NULL_OBJ) {
+                        obj_p v = ray_value(AS_LIST(val)[i]);
+                        if (IS_ERR(v)) {
+                            res->len = j;
+                            drop_obj(res);
+                            return v;
+                        }
+                        AS_LIST(res)[j++] = v;
+                    }
                 }
                 res->len = j;
             }
diff --git a/core/compose.c b/core/compose.c
index 2b79d22..d8454e1 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -225,7 +225,7 @@ obj_p ray_dict(obj_p x, obj_p y) {
 obj_p ray_table(obj_p x, obj_p y) {
     b8_t synergy = B8_TRUE;
     i64_t i, j, len, cl = 0;
-    obj_p lst, c, l = NULL_OBJ;
+    obj_p lst, c, v, l = NULL_OBJ;
 
     if (x->type != TYPE_SYMBOL)
         return err_type(TYPE_SYMBOL, x->type, 0, 0);
@@ -339,18 +339,27 @@ obj_p ray_table(obj_p x, obj_p y) {
             case -TYPE_F64:
             case -TYPE_GUID:
                 c = i64(cl);
-                AS_LIST(lst)[i] = ray_take(AS_LIST(y)[i], c);
+                v = ray_take(AS_LIST(y)[i], c);
                 drop_obj(c);
                 break;
             case TYPE_ENUM:
-                AS_LIST(lst)[i] = ray_value(AS_LIST(y)[i]);
+                v = ray_value(AS_LIST(y)[i]);
                 break;
             case TYPE_MAPCOMMON:
-                AS_LIST(lst)[i] = ray_value(AS_LIST(y)[i]);
+                v = ray_value(AS_LIST(y)[i]);
                 break;
             default:
-                AS_LIST(lst)[i] = clone_obj(AS_LIST(y)[i]);
+                v = clone_obj(AS_LIST(y)[i]);
         }
+
+        if (IS_ERR(v)) {
+            lst->len = i;
+            drop_obj(lst);
+            drop_obj(l);
+            return v;
+        }
+
+        AS_LIST(lst)[i] = v;
     }
 
     drop_obj(l);
@@ -483,7 +492,7 @@ obj_p ray_rand(obj_p x, obj_p y) {
 
 obj_p ray_concat(obj_p x, obj_p y) {
     i64_t i, l, n, xl, yl;
-    obj_p vec, kx, kxy, ix, iy, dx, dy;
+    obj_p v, vec, kx, kxy, ix, iy, dx, dy;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
@@ -815,7 +824,16 @@ obj_p ray_concat(obj_p x, obj_p y) {
             }
             vec = vector(TYPE_LIST, kx->len);
             for (i = 0; i < (i64_t)kx->len; i++) {
-                AS_LIST(vec)[i] = ray_concat(AS_LIST(AS_LIST(x)[1])[i], AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+                v = ray_concat(AS_LIST(AS_LIST(x)[1])[i], AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+                if (IS_ERR(v)) {
+                    vec->len = i;
+                    drop_obj(vec);
+                    drop_obj(kx);
+                    drop_obj(kxy);
+                    drop_obj(iy);
+                    return v;
+                }
+                AS_LIST(vec)[i] = v;
             }
             drop_obj(kx);
             drop_obj(kxy);
@@ -933,7 +951,14 @@ obj_p ray_distinct(obj_p x) {
                 i64_t offset = AS_I64(distinct_idx)[i];
                 u8_t *buf = AS_U8(key) + offset;
                 i64_t size = sl;
-                AS_LIST(res)[i] = de_raw(buf, &size);
+                obj_p e = de_raw(buf, &size);
+                if (IS_ERR(e)) {
+                    res->len = i;
+                    drop_obj(res);
+                    drop_obj(distinct_idx);
+                    return e;
+                }
+                AS_LIST(res)[i] = e;
             }
             drop_obj(distinct_idx);
             return res;
@@ -1199,8 +1224,15 @@ obj_p ray_raze(obj_p x) {
             for (j = 0; j < v[i]->len; j++)
                 AS_LIST(res)[off++] = clone_obj(AS_LIST(v[i])[j]);
         } else if (IS_VECTOR(v[i])) {
-            for (j = 0; j < v[i]->len; j++)
-                AS_LIST(res)[off++] = at_idx(v[i], j);
+            for (j = 0; j < v[i]->len; j++) {
+                obj_p e = at_idx(v[i], j);
+                if (IS_ERR(e)) {
+                    res->len = off;
+                    drop_obj(res);
+                    return e;
+                }
+                AS_LIST(res)[off++] = e;
+            }
         } else {
             AS_LIST(res)[off++] = clone_obj(v[i]);
         }
diff --git a/core/filter.c b/core/filter.c
index 5c88df3..ace905f 100644
--- a/core/filter.c
+++ b/core/filter.c
@@ -137,6 +137,11 @@ obj_p filter_collect(obj_p val, obj_p index) {
                 // Marker -1 means "take all rows from this partition"
                 v = AS_LIST(val)[i];
                 res = ray_value(v);
+                if (IS_ERR(res)) {
+                    parts->len = n;
+                    drop_obj(parts);
+                    return res;
+                }
                 if (res != NULL_OBJ && ops_count(res) > 0) {
                     AS_LIST(parts)[n++] = res;
                 } else if (res != NULL_OBJ) {
@@ -149,7 +154,12 @@ obj_p filter_collect(obj_p val, obj_p index) {
                 // Use index list to select specific rows
                 v = AS_LIST(val)[i];
                 res = at_ids(v, AS_I64(idx), idx->len);
-                if (res != NULL_OBJ && !IS_ERR(res)) {
+                if (IS_ERR(res)) {
+                    parts->len = n;
+                    drop_obj(parts);
+                    return res;
+                }
+                if (res != NULL_OBJ) {
                     AS_LIST(parts)[n++] = res;
                 }
             }
diff --git a/core/items.c b/core/items.c
index ffeb8e1..086f62e 100644
--- a/core/items.c
+++ b/core/items.c
@@ -290,7 +290,13 @@ obj_p ray_at(obj_p x, obj_p y) {
                 }
 
                 buf = AS_U8(k) + AS_I64(v)[AS_I64(y)[i]];
-                AS_LIST(res)[i] = de_raw(buf, &size);
+                obj_p e = de_raw(buf, &size);
+                if (IS_ERR(e)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return e;
+                }
+                AS_LIST(res)[i] = e;
             }
 
             return res;
@@ -387,7 +393,13 @@ obj_p ray_filter(obj_p x, obj_p y) {
             l = vals->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
-                AS_LIST(res)[i] = ray_filter(AS_LIST(vals)[i], y);
+                obj_p v = ray_filter(AS_LIST(vals)[i], y);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
+                }
+                AS_LIST(res)[i] = v;
             }
             return table(clone_obj(AS_LIST(x)[0]), res);
 
@@ -830,8 +842,15 @@ obj_p ray_in(obj_p x, obj_p y) {
 
             if (x->type == TYPE_LIST) {
                 vec = LIST(x->len);
-                for (i = 0; i < (i64_t)x->len; i++)
-                    AS_LIST(vec)[i] = ray_in(AS_LIST(x)[i], y);
+                for (i = 0; i < (i64_t)x->len; i++) {
+                    obj_p v = ray_in(AS_LIST(x)[i], y);
+                    if (IS_ERR(v)) {
+                        vec->len = i;
+                        drop_obj(vec);
+                        return v;
+                    }
+                    AS_LIST(vec)[i] = v;
+                }
                 return vec;
             }
 
diff --git a/core/logic.c b/core/logic.c
index b1f65f5..1d34c5b 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -337,8 +337,13 @@ obj_p ray_like(obj_p x, obj_p y) {
             l = x->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
-                e = AS_LIST(x)[i];
-                AS_LIST(res)[i] = ray_like(e, y);
+                e = ray_like(AS_LIST(x)[i], y);
+                if (IS_ERR(e)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return e;
+                }
+                AS_LIST(res)[i] = e;
             }
 
             return res;
diff --git a/core/rayforce.c b/core/rayforce.c
index 1395b40..b340666 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -570,8 +570,14 @@ obj_p append_list(obj_p* obj, obj_p vals) {
                 l = (*obj)->len;
                 c = ops_count(vals);
                 res = resize_obj(obj, l + c);
-                for (i = 0; i < c; i++)
-                    AS_LIST(res)[l + i] = at_idx(vals, i);
+                for (i = 0; i < c; i++) {
+                    obj_p v = at_idx(vals, i);
+                    if (IS_ERR(v)) {
+                        res->len = l + i;
+                        return v;
+                    }
+                    AS_LIST(res)[l + i] = v;
+                }
 
                 return res;
             }
@@ -689,8 +695,16 @@ obj_p ins_obj(obj_p* obj, i64_t idx, obj_p val) {
         l = ops_count(*obj);
         ret = LIST(l);
 
-        for (i = 0; i < idx; i++)
-            AS_LIST(ret)[i] = at_idx(*obj, i);
+        for (i = 0; i < idx; i++) {
+            obj_p v = at_idx(*obj, i);
+            if (IS_ERR(v)) {
+                ret->len = i;
+                drop_obj(ret);
+                drop_obj(val);
+                return v;
+            }
+            AS_LIST(ret)[i] = v;
+        }
 
         AS_LIST(ret)[idx] = val;
 
@@ -1377,8 +1391,15 @@ obj_p at_obj(obj_p obj, obj_p idx) {
                 j = find_raw(AS_LIST(obj)[0], &AS_SYMBOL(idx)[i]);
                 if (j == NULL_I64)
                     AS_LIST(v)[i] = null(0);
-                else
-                    AS_LIST(v)[i] = at_idx(AS_LIST(obj)[1], j);
+                else {
+                    obj_p e = at_idx(AS_LIST(obj)[1], j);
+                    if (IS_ERR(e)) {
+                        v->len = i;
+                        drop_obj(v);
+                        return e;
+                    }
+                    AS_LIST(v)[i] = e;
+                }
             }
             return v;
         default:
@@ -1561,8 +1582,13 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                     }
                 } else {
                     for (i = 0; i < len; i++) {
+                        obj_p v = at_idx(vals, i);
+                        if (IS_ERR(v)) {
+                            drop_obj(vals);
+                            return v;
+                        }
                         drop_obj(AS_LIST(*obj)[ids[i]]);
-                        AS_LIST(*obj)[ids[i]] = at_idx(vals, i);
+                        AS_LIST(*obj)[ids[i]] = v;
                     }
                 }
 
-- 
2.43.0


From b13ea540f007f9f4dcf98466ce1f05e8fef6bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 33/47] fix: failures of elements, parts and key types are
 returned by join, dict, take, scan, asof instead of ending up in the result

---
 core/compose.c  | 37 +++++++++++++++++++++++++++++++------
 core/index.c    |  6 +++++-
 core/items.c    | 44 ++++++++++++++++++++++++++++++++++++++++----
 core/iter.c     | 10 +++++++++-
 core/join.c     | 12 ++++++++++++
 core/order.c    | 22 ++++++++++++++++++++++
 core/rayforce.c | 23 +++++++++++++++++++----
 core/sort.c     |  2 --
 8 files changed, 138 insertions(+), 18 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index d8454e1..a05344f 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -778,25 +778,44 @@ obj_p ray_concat(obj_p x, obj_p y) {
                 l = ops_count(kx);
                 for (i = 0; i < l; i++) {
                     n = AS_I64(ix)[i];
-                    push_obj(&vec, n == NULL_I64 ? at_idx(AS_LIST(x)[1], i) : at_idx(AS_LIST(y)[1], n));
+                    v = n == NULL_I64 ? at_idx(AS_LIST(x)[1], i) : at_idx(AS_LIST(y)[1], n);
+                    if (IS_ERR(v)) {
+                        drop_obj(vec);
+                        vec = v;
+                        break;
+                    }
+                    push_obj(&vec, v);
                 }
                 drop_obj(ix);
 
                 // add items in y that are not in x
-                iy = ray_find(AS_LIST(y)[0], dy);
+                iy = IS_ERR(vec) ? vec : ray_find(AS_LIST(y)[0], dy);
                 if (IS_ERR(iy)) {
                     drop_obj(vec);
                     vec = iy;
                 } else {
                     l = ops_count(dy);
-                    for (i = 0; i < l; i++)
-                        push_obj(&vec, at_idx(AS_LIST(y)[1], AS_I64(iy)[i]));
+                    for (i = 0; i < l; i++) {
+                        v = at_idx(AS_LIST(y)[1], AS_I64(iy)[i]);
+                        if (IS_ERR(v)) {
+                            drop_obj(vec);
+                            vec = v;
+                            break;
+                        }
+                        push_obj(&vec, v);
+                    }
                     drop_obj(iy);
                 }
             }
 
-            if (!IS_ERR(vec))
-                vec = dict(ray_concat(AS_LIST(x)[0], dy), vec);
+            if (!IS_ERR(vec)) {
+                v = ray_concat(AS_LIST(x)[0], dy);
+                if (IS_ERR(v)) {
+                    drop_obj(vec);
+                    vec = v;
+                } else
+                    vec = dict(v, vec);
+            }
             drop_obj(kxy);
             drop_obj(dx);
             drop_obj(dy);
@@ -1148,6 +1167,12 @@ obj_p ray_group(obj_p x) {
     k = aggr_first(x, index);
     drop_obj(index);
 
+    if (IS_ERR(k) || IS_ERR(v)) {
+        obj_p err = IS_ERR(k) ? k : v;
+        drop_obj(IS_ERR(k) ? v : k);
+        return err;
+    }
+
     return dict(k, v);
 }
 
diff --git a/core/index.c b/core/index.c
index ba2680a..11b1abe 100644
--- a/core/index.c
+++ b/core/index.c
@@ -3237,7 +3237,11 @@ obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
     n = pool_split_by(pool, ll, 0);
 
     if (n == 1) {
-        __asof_ids_partial(&ctx, lxcol, rxcol, ht, ll, 0, ids);
+        v = __asof_ids_partial(&ctx, lxcol, rxcol, ht, ll, 0, ids);
+        if (IS_ERR(v)) {
+            drop_obj(ids);
+            ids = v;
+        }
         goto clean;
     } else {
         pool_prepare(pool);
diff --git a/core/items.c b/core/items.c
index 086f62e..e05aca7 100644
--- a/core/items.c
+++ b/core/items.c
@@ -606,13 +606,37 @@ obj_p ray_take(obj_p from, obj_p count) {
                 if (start + m > (i64_t)l)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
-                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
+                    obj_p k = at_idx(AS_LIST(from)[0], start + i);
+                    if (IS_ERR(k)) {
+                        drop_obj(keys_res);
+                        drop_obj(vals_res);
+                        return k;
+                    }
+                    push_obj(&keys_res, k);
+                    obj_p v = at_idx(AS_LIST(from)[1], start + i);
+                    if (IS_ERR(v)) {
+                        drop_obj(keys_res);
+                        drop_obj(vals_res);
+                        return v;
+                    }
+                    push_obj(&vals_res, v);
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
-                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
+                    obj_p k = at_idx(AS_LIST(from)[0], j % l);
+                    if (IS_ERR(k)) {
+                        drop_obj(keys_res);
+                        drop_obj(vals_res);
+                        return k;
+                    }
+                    push_obj(&keys_res, k);
+                    obj_p v = at_idx(AS_LIST(from)[1], j % l);
+                    if (IS_ERR(v)) {
+                        drop_obj(keys_res);
+                        drop_obj(vals_res);
+                        return v;
+                    }
+                    push_obj(&vals_res, v);
                 }
             }
             return dict(keys_res, vals_res);
@@ -982,6 +1006,12 @@ obj_p ray_except(obj_p x, obj_p y) {
             v = ray_at(AS_LIST(x)[1], ids);
             drop_obj(ids);
 
+            if (IS_ERR(k) || IS_ERR(v)) {
+                res = IS_ERR(k) ? k : v;
+                drop_obj(IS_ERR(k) ? v : k);
+                return res;
+            }
+
             return table(k, v);
         case MTYPE2(TYPE_TABLE, TYPE_SYMBOL):
             mask = ray_in(AS_LIST(x)[0], y);
@@ -1005,6 +1035,12 @@ obj_p ray_except(obj_p x, obj_p y) {
 
             drop_obj(ids);
 
+            if (IS_ERR(k) || IS_ERR(v)) {
+                res = IS_ERR(k) ? k : v;
+                drop_obj(IS_ERR(k) ? v : k);
+                return res;
+            }
+
             return table(k, v);
         default:
             if (x->type == TYPE_LIST) {
diff --git a/core/iter.c b/core/iter.c
index ceabab2..10e824b 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -429,8 +429,12 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
 
     v = fn(x + n, n);
 
+    // cleanup stack
+    for (j = 0; j < n; j++)
+        drop_obj(vm_stack_pop());
+
     if (IS_ERR(v))
-        res = v;
+        return v;
 
     res = v->type < 0 ? vector(v->type, l) : LIST(l);
 
@@ -1406,6 +1410,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                     return LIST(0);
 
                 v = at_idx(x[0], 0);
+                if (IS_ERR(v))
+                    return v;
                 res = LIST(l);
                 ins_obj(&res, 0, v);
 
@@ -1437,6 +1443,8 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                     return LIST(0);
 
                 v = at_idx(x[0], 0);
+                if (IS_ERR(v))
+                    return v;
                 res = LIST(l);
                 ins_obj(&res, 0, v);
 
diff --git a/core/join.c b/core/join.c
index 6ab3076..4e813ef 100644
--- a/core/join.c
+++ b/core/join.c
@@ -59,6 +59,12 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
         else
             v = at_idx(left_col, i);
 
+        if (IS_ERR(v)) {
+            res->len = i;
+            drop_obj(res);
+            return v;
+        }
+
         ins_obj(&res, i, v);
     }
 
@@ -490,6 +496,12 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     drop_obj(agrvals);
     drop_obj(idx);
 
+    if (IS_ERR(resyms) || IS_ERR(recols)) {
+        v = IS_ERR(resyms) ? resyms : recols;
+        drop_obj(IS_ERR(resyms) ? recols : resyms);
+        return v;
+    }
+
     return table(resyms, recols);
 }
 
diff --git a/core/order.c b/core/order.c
index ba35120..3d76291 100644
--- a/core/order.c
+++ b/core/order.c
@@ -143,8 +143,19 @@ obj_p ray_asc(obj_p x) {
 
         case TYPE_DICT: {
             idx = ray_sort_asc(AS_LIST(x)[1]);
+            if (IS_ERR(idx))
+                return idx;
             obj_p sorted_keys = at_obj(AS_LIST(x)[0], idx);
+            if (IS_ERR(sorted_keys)) {
+                drop_obj(idx);
+                return sorted_keys;
+            }
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
+            if (IS_ERR(sorted_vals)) {
+                drop_obj(idx);
+                drop_obj(sorted_keys);
+                return sorted_vals;
+            }
 
             res = dict(sorted_keys, sorted_vals);
             res->attrs |= ATTR_ASC | distinct;
@@ -229,8 +240,19 @@ obj_p ray_desc(obj_p x) {
 
         case TYPE_DICT: {
             idx = ray_sort_desc(AS_LIST(x)[1]);
+            if (IS_ERR(idx))
+                return idx;
             obj_p sorted_keys = at_obj(AS_LIST(x)[0], idx);
+            if (IS_ERR(sorted_keys)) {
+                drop_obj(idx);
+                return sorted_keys;
+            }
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
+            if (IS_ERR(sorted_vals)) {
+                drop_obj(idx);
+                drop_obj(sorted_keys);
+                return sorted_vals;
+            }
 
             res = dict(sorted_keys, sorted_vals);
             res->attrs |= ATTR_DESC | distinct;
diff --git a/core/rayforce.c b/core/rayforce.c
index b340666..cb03796 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -433,8 +433,16 @@ obj_p push_obj(obj_p* obj, obj_p val) {
         else
             lst = LIST(l + 1);
 
-        for (i = 0; i < l; i++)
-            ins_obj(&lst, i, at_idx(*obj, i));
+        for (i = 0; i < l; i++) {
+            res = at_idx(*obj, i);
+            if (IS_ERR(res)) {
+                lst->len = i;
+                drop_obj(lst);
+                drop_obj(val);
+                return res;
+            }
+            ins_obj(&lst, i, res);
+        }
 
         ins_obj(&lst, i, val);
 
@@ -1327,8 +1335,15 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
 
         default:
             res = vector(TYPE_LIST, len);
-            for (i = 0; i < len; i++)
-                ins_obj(&res, i, at_idx(obj, ids[i]));
+            for (i = 0; i < len; i++) {
+                obj_p v = at_idx(obj, ids[i]);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
+                }
+                ins_obj(&res, i, v);
+            }
 
             return res;
     }
diff --git a/core/sort.c b/core/sort.c
index 1469bba..4d4b264 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -911,7 +911,6 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
 
         switch (vec->type) {
             case TYPE_I64:
-            case TYPE_TIME:
                 binary_insertion_sort_numeric(result, AS_I64(vec), len, asc);
                 return indices;
             case TYPE_SYMBOL:
@@ -926,7 +925,6 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     // For larger arrays: try counting sort first for integer types
     switch (vec->type) {
         case TYPE_I64:
-        case TYPE_TIME:
         case TYPE_SYMBOL:
             res = counting_sort_i64(vec, asc);
             if (res)
-- 
2.43.0


From 4172ce9897e94b0ce25785b27ec97c7afa6a71d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 34/47] fix: membership of i32 values in a byte vector was
 always false

---
 core/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/index.c b/core/index.c
index 11b1abe..71d3587 100644
--- a/core/index.c
+++ b/core/index.c
@@ -959,7 +959,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        val = y[i] - min;
+        s[y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
-- 
2.43.0


From 2b96b3ff026bcb89ceab5817efc5133992a61b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 35/47] fix: select of something that is not a query no longer
 leaves a dead query context behind

---
 core/query.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/query.c b/core/query.c
index f824277..2c3d25e 100644
--- a/core/query.c
+++ b/core/query.c
@@ -613,14 +613,14 @@ obj_p ray_select(obj_p obj) {
     obj_p res;
     struct query_ctx_t ctx;
 
-    query_ctx_init(&ctx);
-
     if (obj->type != TYPE_DICT)
         return err_type(0, 0, 0, 0);
 
     if (AS_LIST(obj)[0]->type != TYPE_SYMBOL)
         return err_type(0, 0, 0, 0);
 
+    query_ctx_init(&ctx);
+
     timeit_span_start("select");
 
     // Fetch table - ctx.table is set, resolve() will find columns via query_ctx
-- 
2.43.0


From c56c5b2f697219fea5925233514f06cc127186f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 36/47] fix: timing spans are ended on the error paths as well

---
 core/eval.c  | 1 +
 core/query.c | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index e09b47f..612850f 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -956,6 +956,7 @@ obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
 
     if (IS_ERR(parsed)) {
         drop_obj(nfo_arg);
+        timeit_span_end("top-level");
         return parsed;
     }
 
diff --git a/core/query.c b/core/query.c
index 2c3d25e..a5ed85e 100644
--- a/core/query.c
+++ b/core/query.c
@@ -324,15 +324,19 @@ obj_p select_apply_filters(obj_p obj, query_ctx_p ctx) {
         timeit_tick("eval filters");
         drop_obj(prm);
 
-        if (IS_ERR(val))
+        if (IS_ERR(val)) {
+            timeit_span_end("filters");
             return val;
+        }
 
         fil = ray_where(val);
         timeit_tick("find indices");
         drop_obj(val);
 
-        if (IS_ERR(fil))
+        if (IS_ERR(fil)) {
+            timeit_span_end("filters");
             return fil;
+        }
 
         ctx->filter = fil;
     }
-- 
2.43.0


From b095870e979cc3d9e75128c42276c344c36ced42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:30 +0000
Subject: [PATCH 37/47] fix: sockets are closed when their connection ends or
 cannot be set up

---
 core/epoll.c | 3 +++
 core/ipc.c   | 9 +++++++--
 core/sock.c  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1a92a36..46fe809 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -187,6 +187,9 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     epoll_ctl(poll->fd, EPOLL_CTL_DEL, selector->fd, NULL);
 
+    if (selector->type == SELECTOR_TYPE_SOCKET)
+        close(selector->fd);
+
     if (selector->rx.buf != NULL) {
         heap_free(selector->rx.buf);
         selector->rx.buf = NULL;
diff --git a/core/ipc.c b/core/ipc.c
index b3195f3..0302b75 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -150,6 +150,7 @@ option_t ipc_listener_accept(poll_p poll, selector_p selector) {
             LOG_ERROR("Failed to register new connection in poll registry");
             drop_obj(ctx->name);
             heap_free(ctx);
+            sock_close(fd);
             return option_error(err_os());
         }
 
@@ -239,11 +240,15 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     if (fd == -1)
         return -1;
 
-    if (sock_send(fd, buf, 2) == -1)
+    if (sock_send(fd, buf, 2) == -1) {
+        sock_close(fd);
         return -1;
+    }
 
-    if (sock_recv(fd, buf, 1) == -1)
+    if (sock_recv(fd, buf, 1) == -1) {
+        sock_close(fd);
         return -1;
+    }
 
     LOG_TRACE("Setting socket to non-blocking mode");
     sock_set_nonblocking(fd, B8_TRUE);
diff --git a/core/sock.c b/core/sock.c
index b6bf056..fa8b775 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -348,6 +348,7 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         tm.tv_usec = 0;       // Timeout in microseconds
         if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0) {
             close(fd);
+            fd = -1;
             continue;
         }
 
@@ -356,6 +357,7 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
         if (setsockopt(fd, SOL_SOCKET, SO_LINGER, &linger_opt, sizeof(linger_opt))) {
             close(fd);
+            fd = -1;
             continue;
         }
 
@@ -388,8 +390,10 @@ i64_t sock_accept(i64_t fd) {
         LOG_ERROR("Failed to accept connection: %s", strerror(errno));
         return -1;
     }
-    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1)
+    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1) {
+        close(acc_fd);
         return -1;
+    }
 
     linger_opt.l_onoff = 1;   // Enable SO_LINGER
     linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
-- 
2.43.0


From 01d61967426a5daa4ceb7ca8af3230de731b852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 38/47] fix: files that turn out not to hold a value are closed
 and unmapped again

---
 core/unary.c | 296 ++++++++++++++++++++++++++-------------------------
 1 file changed, 149 insertions(+), 147 deletions(-)

diff --git a/core/unary.c b/core/unary.c
index 744c363..eefb8cc 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -1,147 +1,149 @@
-/*
- *   Copyright (c) 2023 Anton Kundenko <singaraiona@gmail.com>
- *   All rights reserved.
-
- *   Permission is hereby granted, free of charge, to any person obtaining a copy
- *   of this software and associated documentation files (the "Software"), to deal
- *   in the Software without restriction, including without limitation the rights
- *   to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
- *   copies of the Software, and to permit persons to whom the Software is
- *   furnished to do so, subject to the following conditions:
-
- *   The above copyright notice and this permission notice shall be included in all
- *   copies or substantial portions of the Software.
-
- *   THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
- *   IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
- *   FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
- *   AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
- *   LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
- *   OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
- *   SOFTWARE.
- */
-
-#include <time.h>
-#include "unary.h"
-#include "runtime.h"
-#include "eval.h"
-#include "format.h"
-#include "fs.h"
-#include "ops.h"
-#include "serde.h"
-#include "compose.h"
-#include "error.h"
-#include "string.h"
-#include "fdmap.h"
-#include "iter.h"
-
-obj_p unary_call(obj_p f, obj_p x) {
-    unary_f fn;
-
-    if (f->attrs & FN_ATOMIC)
-        return map_unary(f, x);
-
-    fn = (unary_f)f->i64;
-    return fn(x);
-}
-
-obj_p ray_get(obj_p x) {
-    i64_t fd;
-    obj_p res, col, keys, s, v, *sym, path, fdmap;
-    i64_t sz, size;
-
-    switch (x->type) {
-        case -TYPE_SYMBOL:
-            sym = resolve(x->i64);
-            if (sym == NULL)
-                return err_type(0, 0, 0, 0);
-
-            return clone_obj(*sym);
-        case TYPE_C8:
-            if (x->len == 0)
-                return err_type(0, 0, 0, 0);
-
-            path = cstring_from_obj(x);
-            fd = fs_fopen(AS_C8(path), ATTR_RDWR);
-
-            if (fd == -1) {
-                res = err_os();
-                drop_obj(path);
-                return res;
-            }
-
-            size = fs_fsize(fd);
-
-            if (size < ISIZEOF(struct obj_t)) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
-            res = (obj_p)mmap_file(fd, NULL, size, 0);
-
-            if (res == NULL) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
-            if (IS_EXTERNAL_SERIALIZED(res)) {
-                sz = size - ISIZEOF(struct obj_t);
-                v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
-                mmap_free(res, size);
-                fs_fclose(fd);
-                drop_obj(path);
-                return v;
-            } else if (IS_EXTERNAL_COMPOUND(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else if (IS_EXTERNAL_SIMPLE(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                return res;
-            }
-
-            drop_obj(path);
-
-            // anymap needs additional nested mapping of dependencies
-            if (res->type == TYPE_MAPLIST) {
-                s = cstring_from_str("#", 1);
-                col = ray_concat(x, s);
-                keys = ray_get(col);
-                drop_obj(s);
-                drop_obj(col);
-
-                if (keys->type != TYPE_U8) {
-                    drop_obj(keys);
-                    mmap_free(res, size);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                ((obj_p)((str_p)res - RAY_PAGE_SIZE))->obj = keys;
-            }
-            return clone_obj(res);  // increment ref count
-
-        default:
-            return err_type(0, 0, 0, 0);
-    }
-}
-
-obj_p ray_resolve(obj_p x) {
-    if (x->type != -TYPE_SYMBOL)
-        return err_type(0, 0, 0, 0);
-
-    obj_p *res = resolve(x->i64);
-
-    return (res == NULL) ? NULL_OBJ : clone_obj(*res);
-}
-
-obj_p ray_is_null(obj_p x) { return b8(is_null(x)); }
+/*
+ *   Copyright (c) 2023 Anton Kundenko <singaraiona@gmail.com>
+ *   All rights reserved.
+
+ *   Permission is hereby granted, free of charge, to any person obtaining a copy
+ *   of this software and associated documentation files (the "Software"), to deal
+ *   in the Software without restriction, including without limitation the rights
+ *   to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+ *   copies of the Software, and to permit persons to whom the Software is
+ *   furnished to do so, subject to the following conditions:
+
+ *   The above copyright notice and this permission notice shall be included in all
+ *   copies or substantial portions of the Software.
+
+ *   THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+ *   IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+ *   FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+ *   AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+ *   LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+ *   OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+ *   SOFTWARE.
+ */
+
+#include <time.h>
+#include "unary.h"
+#include "runtime.h"
+#include "eval.h"
+#include "format.h"
+#include "fs.h"
+#include "ops.h"
+#include "serde.h"
+#include "compose.h"
+#include "error.h"
+#include "string.h"
+#include "fdmap.h"
+#include "iter.h"
+
+obj_p unary_call(obj_p f, obj_p x) {
+    unary_f fn;
+
+    if (f->attrs & FN_ATOMIC)
+        return map_unary(f, x);
+
+    fn = (unary_f)f->i64;
+    return fn(x);
+}
+
+obj_p ray_get(obj_p x) {
+    i64_t fd;
+    obj_p res, col, keys, s, v, *sym, path, fdmap;
+    i64_t sz, size;
+
+    switch (x->type) {
+        case -TYPE_SYMBOL:
+            sym = resolve(x->i64);
+            if (sym == NULL)
+                return err_type(0, 0, 0, 0);
+
+            return clone_obj(*sym);
+        case TYPE_C8:
+            if (x->len == 0)
+                return err_type(0, 0, 0, 0);
+
+            path = cstring_from_obj(x);
+            fd = fs_fopen(AS_C8(path), ATTR_RDWR);
+
+            if (fd == -1) {
+                res = err_os();
+                drop_obj(path);
+                return res;
+            }
+
+            size = fs_fsize(fd);
+
+            if (size < ISIZEOF(struct obj_t)) {
+                res = err_type(0, 0, 0, 0);
+                drop_obj(path);
+                fs_fclose(fd);
+                return res;
+            }
+
+            res = (obj_p)mmap_file(fd, NULL, size, 0);
+
+            if (res == NULL) {
+                res = err_type(0, 0, 0, 0);
+                drop_obj(path);
+                fs_fclose(fd);
+                return res;
+            }
+
+            if (IS_EXTERNAL_SERIALIZED(res)) {
+                sz = size - ISIZEOF(struct obj_t);
+                v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
+                mmap_free(res, size);
+                fs_fclose(fd);
+                drop_obj(path);
+                return v;
+            } else if (IS_EXTERNAL_COMPOUND(res)) {
+                fdmap = fdmap_create();
+                fdmap_add_fd(&fdmap, res, fd, size);
+                res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
+                runtime_fdmap_push(runtime_get(), res, fdmap);
+            } else if (IS_EXTERNAL_SIMPLE(res)) {
+                fdmap = fdmap_create();
+                fdmap_add_fd(&fdmap, res, fd, size);
+                runtime_fdmap_push(runtime_get(), res, fdmap);
+            } else {
+                mmap_free(res, size);
+                fs_fclose(fd);
+                res = err_type(0, 0, 0, 0);
+                drop_obj(path);
+                return res;
+            }
+
+            drop_obj(path);
+
+            // anymap needs additional nested mapping of dependencies
+            if (res->type == TYPE_MAPLIST) {
+                s = cstring_from_str("#", 1);
+                col = ray_concat(x, s);
+                keys = ray_get(col);
+                drop_obj(s);
+                drop_obj(col);
+
+                if (keys->type != TYPE_U8) {
+                    drop_obj(keys);
+                    runtime_fdmap_pop(runtime_get(), res);
+                    return err_type(0, 0, 0, 0);
+                }
+
+                ((obj_p)((str_p)res - RAY_PAGE_SIZE))->obj = keys;
+            }
+            return clone_obj(res);  // increment ref count
+
+        default:
+            return err_type(0, 0, 0, 0);
+    }
+}
+
+obj_p ray_resolve(obj_p x) {
+    if (x->type != -TYPE_SYMBOL)
+        return err_type(0, 0, 0, 0);
+
+    obj_p *res = resolve(x->i64);
+
+    return (res == NULL) ? NULL_OBJ : clone_obj(*res);
+}
+
+obj_p ray_is_null(obj_p x) { return b8(is_null(x)); }
-- 
2.43.0


From ade590d056baf1dbb95d40ee650baa644e2504ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:38 +0000
Subject: [PATCH 39/47] fix: executors do not lose wake-ups and leave the
 queues before they are replaced

A wake-up sent while an executor was not waiting was lost (the process could hang at exit), and a late
executor could still use the queues of the last run while they were replaced.
---
 core/pool.c    | 54 +++++++++++++++++++++++++++++++++-----------------
 core/pool.h    |  3 +++
 core/symbols.c |  2 +-
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index 9450dcd..0f36937 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -168,7 +168,8 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
-    i64_t i, tasks_count;
+    i64_t i, tasks_count, round = 0;
+    mpmc_p task_queue, result_queue;
     obj_p res;
     vm_p vm;
 
@@ -176,24 +177,32 @@ raw_p executor_run(raw_p arg) {
     vm = vm_create(executor->id, executor->pool);
     vm->rc_sync = 1;  // Enable atomic RC for worker threads
 
-    __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELAXED);
-    __atomic_store_n(&executor->vm, vm, __ATOMIC_RELAXED);
+    __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELEASE);
+    __atomic_store_n(&executor->vm, vm, __ATOMIC_RELEASE);
 
     for (;;) {
         mutex_lock(&executor->pool->mutex);
-        cond_wait(&executor->pool->run, &executor->pool->mutex);
+
+        // wait for a run this executor has not seen yet (a wake-up may have been sent before the lock was taken)
+        while (executor->pool->state != RUN_STATE_STOPPED &&
+               (!executor->pool->running || executor->pool->round == round))
+            cond_wait(&executor->pool->run, &executor->pool->mutex);
 
         if (executor->pool->state == RUN_STATE_STOPPED) {
             mutex_unlock(&executor->pool->mutex);
             break;
         }
 
+        round = executor->pool->round;
+        executor->pool->busy++;
         tasks_count = executor->pool->tasks_count;
+        task_queue = executor->pool->task_queue;
+        result_queue = executor->pool->result_queue;
         mutex_unlock(&executor->pool->mutex);
 
         // process tasks
         for (i = 0; i < tasks_count; i++) {
-            data = mpmc_pop(executor->pool->task_queue);
+            data = mpmc_pop(task_queue);
 
             // Nothing to do
             if (data.id == -1)
@@ -202,15 +211,14 @@ raw_p executor_run(raw_p arg) {
             // execute task
             res = pool_call_task_fn(data.fn, data.argc, data.argv);
             data.result = res;
-            mpmc_push(executor->pool->result_queue, data);
+            mpmc_push(result_queue, data);
         }
 
-        if (i > 0) {
-            mutex_lock(&executor->pool->mutex);
-            executor->pool->done_count += i;
-            cond_signal(&executor->pool->done);
-            mutex_unlock(&executor->pool->mutex);
-        }
+        mutex_lock(&executor->pool->mutex);
+        executor->pool->done_count += i;
+        executor->pool->busy--;
+        cond_signal(&executor->pool->done);
+        mutex_unlock(&executor->pool->mutex);
     }
 
     vm_destroy(__VM);
@@ -228,6 +236,9 @@ pool_p pool_create(i64_t thread_count) {
     pool->executors_count = thread_count;
     pool->done_count = 0;
     pool->tasks_count = 0;
+    pool->round = 0;
+    pool->running = 0;
+    pool->busy = 0;
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
@@ -261,7 +272,7 @@ pool_p pool_create(i64_t thread_count) {
 
     // Wait for worker threads to initialize
     for (i = 1; i < thread_count; i++) {
-        while (__atomic_load_n(&pool->executors[i].vm, __ATOMIC_RELAXED) == NULL)
+        while (__atomic_load_n(&pool->executors[i].vm, __ATOMIC_ACQUIRE) == NULL)
             backoff_spin(&rounds);
     }
 
@@ -368,6 +379,7 @@ nil_t pool_add_task(pool_p pool, raw_p fn, i64_t argc, ...) {
 
 obj_p pool_run(pool_p pool) {
     i64_t i, n, tasks_count, executors_count;
+    mpmc_p task_queue, result_queue;
     obj_p e, res;
     task_data_t data;
 
@@ -380,6 +392,10 @@ obj_p pool_run(pool_p pool) {
 
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
+    task_queue = pool->task_queue;
+    result_queue = pool->result_queue;
+    pool->running = 1;
+    pool->round++;
 
     // wake up needed executors
     if (executors_count < tasks_count) {
@@ -392,7 +408,7 @@ obj_p pool_run(pool_p pool) {
 
     // process tasks on self too
     for (i = 0; i < tasks_count; i++) {
-        data = mpmc_pop(pool->task_queue);
+        data = mpmc_pop(task_queue);
 
         // Nothing to do
         if (data.id == -1)
@@ -401,22 +417,24 @@ obj_p pool_run(pool_p pool) {
         // execute task
         res = pool_call_task_fn(data.fn, data.argc, data.argv);
         data.result = res;
-        mpmc_push(pool->result_queue, data);
+        mpmc_push(result_queue, data);
     }
 
     mutex_lock(&pool->mutex);
 
     pool->done_count += i;
 
-    // wait for all tasks to be done
-    while (pool->done_count < tasks_count)
+    // wait for all tasks to be done, and for the executors to be through with the queues
+    while (pool->done_count < tasks_count || pool->busy > 0)
         cond_wait(&pool->done, &pool->mutex);
 
+    pool->running = 0;
+
     // collect results
     res = LIST(tasks_count);
 
     for (i = 0; i < tasks_count; i++) {
-        data = mpmc_pop(pool->result_queue);
+        data = mpmc_pop(result_queue);
         if (data.id < 0 || data.id >= (i64_t)tasks_count)
             PANIC("corrupted: %lld", data.id);
 
diff --git a/core/pool.h b/core/pool.h
index cac2f16..070432c 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -87,6 +87,9 @@ typedef struct pool_t {
     i64_t done_count;        // Number of done VMs
     i64_t executors_count;   // Number of executors
     i64_t tasks_count;       // Number of tasks
+    i64_t round;             // Number of the latest run
+    i64_t running;           // A run is in progress
+    i64_t busy;              // Number of executors using the queues
     mpmc_p task_queue;       // Pool's task queue
     mpmc_p result_queue;     // Pool's result queue
     executor_t executors[];  // Array of executors
diff --git a/core/symbols.c b/core/symbols.c
index 10f12ef..b055411 100644
--- a/core/symbols.c
+++ b/core/symbols.c
@@ -226,7 +226,7 @@ i64_t symbol_strlen(i64_t compact_id) {
     return *((u32_t *)(s - sizeof(u32_t)));
 }
 
-i64_t symbols_count(symbols_p symbols) { return symbols->count; }
+i64_t symbols_count(symbols_p symbols) { return __atomic_load_n(&symbols->count, __ATOMIC_RELAXED); }
 
 // TODO
 nil_t symbols_rebuild(symbols_p symbols) {
-- 
2.43.0


From 4558efcda680915133abf79a44f4803f3fe043ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 40/47] fix: serialisation: i16 vectors, size of functions and
 nested values, decoding stays within the given bytes

---
 core/serde.c | 62 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/core/serde.c b/core/serde.c
index e6f1a42..6f42d49 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -88,7 +88,7 @@ i64_t size_of(obj_p obj) {
  * Returns size (in bytes) that an obj occupy in memory via serialization
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, size, sz;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -118,6 +118,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -138,14 +140,22 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                sz = size_obj(AS_LIST(obj)[i]);
+                if (sz == 0)
+                    return 0;  // an element that can not be serialized
+                size += sz;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            size = size_obj(AS_LIST(obj)[0]);
+            sz = size_obj(AS_LIST(obj)[1]);
+            return (size == 0 || sz == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + sz;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            size = size_obj(AS_LAMBDA(obj)->args);
+            sz = size_obj(AS_LAMBDA(obj)->body);
+            return (size == 0 || sz == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + sz;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
@@ -370,8 +380,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (*len < 1)
+        return err_domain(0, 0);
 
     type = buf[0];
     buf++;
@@ -459,6 +469,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -468,7 +479,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -477,7 +488,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             (*len) -= ISIZEOF(i64_t) + 1;
 
             // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            if (l < 0 || l > *len)  // every element takes at least one byte
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -504,6 +515,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
@@ -593,6 +614,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
@@ -608,12 +631,19 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                 return v;
             }
 
-            if (type == TYPE_TABLE)
+            if (type == TYPE_TABLE) {
+                if (k->type != TYPE_SYMBOL || v->type != TYPE_LIST || k->len != v->len) {
+                    drop_obj(k);
+                    drop_obj(v);
+                    return err_domain(0, 0);
+                }
                 return table(k, v);
-            else
+            } else
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
@@ -629,6 +659,12 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                 return v;
             }
 
+            if (k->type != TYPE_SYMBOL) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
@@ -664,7 +700,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len((str_p)msg, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
-- 
2.43.0


From 1816699eca255a9dc999a05e986d452065fb8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:48 +0000
Subject: [PATCH 41/47] fix: elements of map lists are decoded within their
 data, malformed message headers are refused, unserialisable messages are
 answered with an error

---
 core/binary.c   |   6 ++-
 core/cmp.c      |  34 ++++++++--------
 core/compose.c  |   6 +--
 core/epoll.c    |   2 +-
 core/io.c       |   4 +-
 core/ipc.c      |  15 ++++++-
 core/items.c    | 106 ++++++++++++------------------------------------
 core/rayforce.c |  10 +----
 core/serde.c    |  32 ++++++++++++++-
 core/serde.h    |   3 ++
 10 files changed, 103 insertions(+), 115 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index a49cccb..bbfb02c 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -172,12 +172,16 @@ obj_p binary_set(obj_p x, obj_p y) {
                     return clone_obj(x);
 
                 case TYPE_LIST:
+                    size = size_obj(y);
+                    if (size == 0)
+                        return err_type(0, 0, 0, 0);
+
                     s = cstring_from_str("#", 1);
                     col = ray_concat(x, s);
                     drop_obj(s);
 
                     l = y->len;
-                    size = size_obj(y) - sizeof(i8_t) - sizeof(i64_t);
+                    size -= ISIZEOF(i8_t) + ISIZEOF(i64_t);
                     buf = U8(size);
                     b = AS_U8(buf);
                     k = I64(l);
diff --git a/core/cmp.c b/core/cmp.c
index 24242b7..dc60dc9 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -379,21 +379,20 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     // Handle TYPE_MAPLIST (lazy list type)
     // Optimization: for MAPLIST comparison with atom, avoid full materialization
     if (x->type == TYPE_MAPLIST && IS_ATOM(y) && y->type < 0) {
-        obj_p key = MAPLIST_KEY(x);
-        obj_p offsets = MAPLIST_VAL(x);
-        l = offsets->len;
+        i64_t size;
+        l = MAPLIST_VAL(x)->len;
 
         // Check the type of the first element
         if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
+            u8_t *buf = maplist_data(x, 0, &size);
+            i8_t elem_type = size > 0 ? (i8_t)buf[0] : TYPE_NULL;
 
             // If MAPLIST contains i64 atoms, extract directly to typed vector
             if (elem_type == -TYPE_I64 && y->type == -TYPE_I64) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
+                    buf = maplist_data(x, i, &size);
+                    if (size > ISIZEOF(i64_t) && buf[0] == (u8_t)(-TYPE_I64)) {
                         memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
                     } else {
                         AS_I64(vec)[i] = NULL_I64;
@@ -407,8 +406,8 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             if (elem_type == -TYPE_F64 && y->type == -TYPE_F64) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
+                    buf = maplist_data(x, i, &size);
+                    if (size > ISIZEOF(f64_t) && buf[0] == (u8_t)(-TYPE_F64)) {
                         memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
                     } else {
                         AS_F64(vec)[i] = NULL_F64;
@@ -435,19 +434,18 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         drop_obj(v);
         return res;
     } else if (y->type == TYPE_MAPLIST && IS_ATOM(x) && x->type < 0) {
-        obj_p key = MAPLIST_KEY(y);
-        obj_p offsets = MAPLIST_VAL(y);
-        l = offsets->len;
+        i64_t size;
+        l = MAPLIST_VAL(y)->len;
 
         if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
+            u8_t *buf = maplist_data(y, 0, &size);
+            i8_t elem_type = size > 0 ? (i8_t)buf[0] : TYPE_NULL;
 
             if (elem_type == -TYPE_I64 && x->type == -TYPE_I64) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_I64)) {
+                    buf = maplist_data(y, i, &size);
+                    if (size > ISIZEOF(i64_t) && buf[0] == (u8_t)(-TYPE_I64)) {
                         memcpy(&AS_I64(vec)[i], buf + 1, sizeof(i64_t));
                     } else {
                         AS_I64(vec)[i] = NULL_I64;
@@ -460,8 +458,8 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             if (elem_type == -TYPE_F64 && x->type == -TYPE_F64) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
-                    buf = AS_U8(key) + AS_I64(offsets)[i];
-                    if (buf[0] == (u8_t)(-TYPE_F64)) {
+                    buf = maplist_data(y, i, &size);
+                    if (size > ISIZEOF(f64_t) && buf[0] == (u8_t)(-TYPE_F64)) {
                         memcpy(&AS_F64(vec)[i], buf + 1, sizeof(f64_t));
                     } else {
                         AS_F64(vec)[i] = NULL_F64;
diff --git a/core/compose.c b/core/compose.c
index a05344f..3dda925 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -961,16 +961,14 @@ obj_p ray_distinct(obj_p x) {
             // Get distinct indices, then expand to actual values
             obj_p val = MAPLIST_VAL(x);
             obj_p key = MAPLIST_KEY(x);
-            i64_t sl = key->len;
             l = val->len;
             obj_p distinct_idx = index_distinct_i64(AS_I64(val), l);
             i64_t dl = distinct_idx->len;
             res = LIST(dl);
             for (i64_t i = 0; i < dl; i++) {
                 i64_t offset = AS_I64(distinct_idx)[i];
-                u8_t *buf = AS_U8(key) + offset;
-                i64_t size = sl;
-                obj_p e = de_raw(buf, &size);
+                i64_t size = key->len - offset;
+                obj_p e = (offset < 0 || size < 0) ? err_domain(0, 0) : de_raw(AS_U8(key) + offset, &size);
                 if (IS_ERR(e)) {
                     res->len = i;
                     drop_obj(res);
diff --git a/core/epoll.c b/core/epoll.c
index 46fe809..db5a514 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -412,7 +412,7 @@ i64_t poll_run(poll_p poll) {
 }
 
 option_t poll_block_on(poll_p poll, selector_p selector) {
-    option_t result;
+    option_t result = option_none();
     fd_set readfds;
     struct timeval timeout;
     i64_t nbytes, ret;
diff --git a/core/io.c b/core/io.c
index a43d4d1..357d647 100644
--- a/core/io.c
+++ b/core/io.c
@@ -244,7 +244,7 @@ obj_p ray_read(obj_p x) {
             sz = size;
 
             while (sz > 0) {
-                cur = map + sz;
+                cur = map + (size - sz);
                 val = de_raw(cur, &sz);
 
                 if (IS_ERR(val)) {
@@ -348,6 +348,8 @@ obj_p ray_write(obj_p x, obj_p y) {
     switch (x->type) {
         case -TYPE_I32:
             size = size_obj(y);
+            if (size == 0)
+                return err_type(0, 0, 0, 0);
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
             fs_fwrite(x->i32, AS_C8(buf), size);
diff --git a/core/ipc.c b/core/ipc.c
index 0302b75..80b9cd0 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -292,7 +292,6 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
     if (selector->rx.buf == NULL) {
         LOG_DEBUG("No handshake buffer received, closing connection");
-        poll_deregister(poll, selector->id);
         return option_error(err_os());
     }
 
@@ -339,9 +338,16 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
+    // not a message of ours, or one of unreasonable size
+    if (header->prefix != SERDE_PREFIX || msgsize < 0 || msgsize > SERDE_MAX_SIZE) {
+        LOG_ERROR("Malformed message header from connection %lld", selector->id);
+        return option_error(err_domain(0, 0));
+    }
+
     // request the buffer for the entire message (including the header)
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
@@ -407,6 +413,11 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+    if (size == 0) {
+        // the message can not be serialized, let the other side know
+        msg = err_type(0, 0, 0, 0);
+        size = size_obj(msg);
+    }
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
diff --git a/core/items.c b/core/items.c
index e05aca7..19fce1e 100644
--- a/core/items.c
+++ b/core/items.c
@@ -72,9 +72,8 @@ static inline obj_p at_vec_f64_by_i64(obj_p x, obj_p y) {
 }
 
 obj_p ray_at(obj_p x, obj_p y) {
-    i64_t i, j, yl, xl, n, size;
+    i64_t i, j, yl, xl, n;
     obj_p res, k, s, v, cols;
-    u8_t *buf;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_I64):
@@ -258,39 +257,15 @@ obj_p ray_at(obj_p x, obj_p y) {
             return res;
 
         case MTYPE2(TYPE_MAPLIST, -TYPE_I64):
-            k = MAPLIST_KEY(x);
-            v = MAPLIST_VAL(x);
-
-            xl = k->len;
-            yl = v->len;
-
-            if (y->i64 >= (i64_t)v->len)
-                return err_index(y->i64, v->len, 0, 0);
-
-            buf = AS_U8(k) + AS_I64(v)[y->i64];
-
-            return de_raw(buf, &xl);
+            return maplist_elem(x, y->i64);
 
         case MTYPE2(TYPE_MAPLIST, TYPE_I64):
-            k = MAPLIST_KEY(x);
-            v = MAPLIST_VAL(x);
-
-            size = k->len;
-
-            n = v->len;
             yl = y->len;
 
             res = vector(TYPE_LIST, yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)n) {
-                    res->len = i;
-                    drop_obj(res);
-                    return err_index(AS_I64(y)[i], n, 0, 0);
-                }
-
-                buf = AS_U8(k) + AS_I64(v)[AS_I64(y)[i]];
-                obj_p e = de_raw(buf, &size);
+                obj_p e = maplist_elem(x, AS_I64(y)[i]);
                 if (IS_ERR(e)) {
                     res->len = i;
                     drop_obj(res);
@@ -409,9 +384,8 @@ obj_p ray_filter(obj_p x, obj_p y) {
 }
 
 obj_p ray_take(obj_p from, obj_p count) {
-    i64_t i, j, f, l, m, n, size, start;
+    i64_t i, j, f, l, m, n, start;
     obj_p k, s, v, res;
-    u8_t *buf;
     int is_range = 0;
 
     // Check if count is a 2-element vector [start amount] for range take
@@ -674,9 +648,7 @@ obj_p ray_take(obj_p from, obj_p count) {
             return enumerate(k, res);
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(from);
             s = MAPLIST_VAL(from);
-            n = k->len;
             l = s->len;
             if (is_range) {
                 if (start < 0)
@@ -689,42 +661,26 @@ obj_p ray_take(obj_p from, obj_p count) {
                     m = l - start;
             }
             res = vector(TYPE_LIST, m);
-            size = m;
 
             if (is_range) {
                 for (i = 0; i < m; i++) {
-                    j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
+                    v = maplist_elem(from, start + i);
+                    if (IS_ERR(v)) {
                         res->len = i;
                         drop_obj(res);
-                        return err_index(AS_I64(s)[j], n, 0, 0);
+                        return v;
                     }
+                    AS_LIST(res)[i] = v;
                 }
             } else {
                 for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j % l];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
+                    v = maplist_elem(from, j % l);
+                    if (IS_ERR(v)) {
                         res->len = i;
                         drop_obj(res);
-                        return err_index(AS_I64(s)[j % l], n, 0, 0);
+                        return v;
                     }
+                    AS_LIST(res)[i] = v;
                 }
             }
             return res;
@@ -1193,8 +1149,7 @@ obj_p ray_key(obj_p x) {
 
 obj_p ray_value(obj_p x) {
     obj_p sym, k, v, res, e, *objptr;
-    u8_t *u8ptr, *buf;
-    i64_t size;
+    u8_t *u8ptr;
     i64_t i, j, l, n, sl, xl, *i64ptr;
     i16_t *i16ptr;
     i32_t *i32ptr;
@@ -1238,33 +1193,22 @@ obj_p ray_value(obj_p x) {
             return res;
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(x);
             e = MAPLIST_VAL(x);
 
             xl = e->len;
-            sl = k->len;
-
-            size = sl;
 
             res = vector(TYPE_LIST, xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl) {
-                    buf = AS_U8(k) + AS_I64(e)[i];
-                    v = de_raw(buf, &size);
+                v = maplist_elem(x, i);
 
-                    if (IS_ERR(v)) {
-                        res->len = i;
-                        drop_obj(res);
-                        return v;
-                    }
-
-                    AS_LIST(res)[i] = v;
-                } else {
+                if (IS_ERR(v)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(e)[i], sl, 0, 0);
+                    return v;
                 }
+
+                AS_LIST(res)[i] = v;
             }
 
             return res;
@@ -1282,13 +1226,17 @@ obj_p ray_value(obj_p x) {
             // WARNING: here is assumed that inside parted list there are only map lists
             for (i = 0; i < l; i++) {
                 n = ops_count(AS_LIST(x)[i]);
-                k = MAPLIST_KEY(AS_LIST(x)[i]);
-                v = MAPLIST_VAL(AS_LIST(x)[i]);
-                size = k->len;
 
                 for (j = 0; j < n; j++) {
-                    buf = AS_U8(k) + AS_I64(v)[j];
-                    objptr[j] = de_raw(buf, &size);
+                    v = maplist_elem(AS_LIST(x)[i], j);
+
+                    if (IS_ERR(v)) {
+                        res->len = (objptr - AS_LIST(res)) + j;
+                        drop_obj(res);
+                        return v;
+                    }
+
+                    objptr[j] = v;
                 }
 
                 objptr += n;
diff --git a/core/rayforce.c b/core/rayforce.c
index cb03796..c10f995 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -779,10 +779,8 @@ obj_p ins_sym(obj_p* obj, i64_t idx, lit_p str) {
 }
 
 obj_p at_idx(obj_p obj, i64_t idx) {
-    i64_t size;
     i64_t i, m, n, l;
     obj_p k, v, res;
-    u8_t* buf;
 
     if (idx == NULL_I64)
         return null(obj->type);
@@ -886,15 +884,11 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return symboli64(NULL_I64);
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(obj);
             v = MAPLIST_VAL(obj);
-            size = k->len;
             if (idx < 0)
                 idx = obj->len + idx;
-            if (idx >= 0 && idx < (i64_t)v->len) {
-                buf = AS_U8(k) + AS_I64(v)[idx];
-                return de_raw(buf, &size);
-            }
+            if (idx >= 0 && idx < (i64_t)v->len)
+                return maplist_elem(obj, idx);
 
             return NULL_OBJ;
 
diff --git a/core/serde.c b/core/serde.c
index 6f42d49..ace60c3 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -718,6 +718,36 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+// Serialized form of an element of a map list, size is what is left of the data from there
+u8_t *maplist_data(obj_p x, i64_t idx, i64_t *size) {
+    obj_p k = MAPLIST_KEY(x);
+    obj_p v = MAPLIST_VAL(x);
+    i64_t offset;
+
+    *size = 0;
+
+    if (idx < 0 || idx >= v->len)
+        return NULL;
+
+    offset = AS_I64(v)[idx];
+    if (offset < 0 || offset > k->len)
+        return NULL;
+
+    *size = k->len - offset;
+
+    return AS_U8(k) + offset;
+}
+
+obj_p maplist_elem(obj_p x, i64_t idx) {
+    i64_t size;
+    u8_t *buf = maplist_data(x, idx, &size);
+
+    if (buf == NULL)
+        return err_index(idx, x->len, 0, 0);
+
+    return de_raw(buf, &size);
+}
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
@@ -740,7 +770,7 @@ obj_p de_obj(obj_p obj) {
         return err_type(0, 0, 0, 0);
 
     // Check for reasonable size values
-    if (header->size > 1000000000)  // 1GB max size
+    if (header->size > SERDE_MAX_SIZE)
         return err_domain(0, 0);
 
     if (header->size + ISIZEOF(struct ipc_header_t) != len)
diff --git a/core/serde.h b/core/serde.h
index fbb51fb..bb9e391 100644
--- a/core/serde.h
+++ b/core/serde.h
@@ -28,6 +28,7 @@
 #include "util.h"
 
 #define SERDE_PREFIX 0xcefadefa
+#define SERDE_MAX_SIZE 1000000000  // 1GB
 
 typedef struct ipc_header_t {
     u32_t prefix;  // marker
@@ -41,6 +42,8 @@ typedef struct ipc_header_t {
 RAY_ASSERT(sizeof(ipc_header_t) == 16, "ipc_header_t must be 16 bytes");
 
 obj_p de_raw(u8_t *buf, i64_t *len);
+u8_t *maplist_data(obj_p x, i64_t idx, i64_t *size);
+obj_p maplist_elem(obj_p x, i64_t idx);
 i64_t ser_raw(u8_t *buf, obj_p obj);
 i64_t size_of_type(i8_t type);
 i64_t size_of(obj_p obj);
-- 
2.43.0


From b516e9983a5f671d20bc8dfcc453ee8c9a1e6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:30 +0000
Subject: [PATCH 42/47] fix: decoding checks that it is given bytes, compound
 files are long enough for their header

---
 core/serde.c | 3 +++
 core/unary.c | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/serde.c b/core/serde.c
index ace60c3..0d04b5b 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -753,6 +753,9 @@ obj_p de_obj(obj_p obj) {
     u8_t *buf;
     ipc_header_t *header;
 
+    if (obj->type != TYPE_U8)
+        return err_type(TYPE_U8, obj->type, 0, 0);
+
     len = obj->len;
     buf = AS_U8(obj);
 
diff --git a/core/unary.c b/core/unary.c
index eefb8cc..4e2cfff 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -95,7 +95,7 @@ obj_p ray_get(obj_p x) {
                 fs_fclose(fd);
                 drop_obj(path);
                 return v;
-            } else if (IS_EXTERNAL_COMPOUND(res)) {
+            } else if (IS_EXTERNAL_COMPOUND(res) && size >= RAY_PAGE_SIZE + ISIZEOF(struct obj_t)) {
                 fdmap = fdmap_create();
                 fdmap_add_fd(&fdmap, res, fd, size);
                 res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
-- 
2.43.0


From 2a5d00ebdf383baf017ffd00aa45d0eb032eea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:17 +0000
Subject: [PATCH 43/47] fix: comparisons of enumerations, of guid vectors in
 parts, and of dates with timestamps

---
 core/cmp.c | 65 +++++++++++++++++++-----------------------------------
 1 file changed, 23 insertions(+), 42 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index dc60dc9..203ade5 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -241,7 +241,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, f64, f64, f64, op##F64, len, offset, res);              \
                                                                                                \
             case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):                                          \
-                return b8(op##F64(date_to_timestamp(x->i32), y->i64));                         \
+                return b8(op##I64(date_to_timestamp(x->i32), y->i64));                         \
             case MTYPE2(-TYPE_DATE, TYPE_TIMESTAMP):                                           \
                 return __CMP_A_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_DATE, -TYPE_TIMESTAMP):                                           \
@@ -249,7 +249,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_DATE, TYPE_TIMESTAMP):                                            \
                 return __CMP_V_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):                                          \
-                return b8(op##F64(x->i64, date_to_timestamp(y->i32)));                         \
+                return b8(op##I64(x->i64, date_to_timestamp(y->i32)));                         \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_DATE):                                           \
                 return __CMP_A_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_DATE):                                           \
@@ -258,70 +258,50 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
                                                                                                \
             case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
-                k = ray_key(x);                                                                \
+            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
+            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
+            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
+                e = (x->type == TYPE_ENUM) ? x : y;                                            \
+                k = ray_key(e);                                                                \
                 sym = ray_get(k);                                                              \
                 drop_obj(k);                                                                   \
                                                                                                \
-                e = ENUM_VAL(x);                                                               \
-                                                                                               \
                 if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
                     drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
+                    return err_type(0, 0, 0, 0);                                               \
                 }                                                                              \
                                                                                                \
                 xi = AS_I64(sym);                                                              \
-                ei = AS_I64(e) + offset;                                                       \
-                si = y->i64;                                                                   \
+                ei = AS_I64(ENUM_VAL(e)) + offset;                                             \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
-                                                                                               \
-                drop_obj(sym);                                                                 \
-                return NULL_OBJ;                                                               \
-            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
-            case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
-                k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
-                                                                                               \
-                e = ENUM_VAL(y);                                                               \
-                                                                                               \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
+                for (i = 0; i < len; i++) {                                                    \
+                    si = (ei[i] >= 0 && ei[i] < sym->len) ? xi[ei[i]] : NULL_I64;              \
+                    if (e == x)                                                                \
+                        out[i] = op##I64(si, (y->type < 0) ? y->i64 : AS_I64(y)[i + offset]);  \
+                    else                                                                       \
+                        out[i] = op##I64((x->type < 0) ? x->i64 : AS_I64(x)[i + offset], si);  \
                 }                                                                              \
                                                                                                \
-                xi = AS_I64(x);                                                                \
-                ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
-                out = AS_B8(res) + offset;                                                     \
-                                                                                               \
-                for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
-                                                                                               \
                 drop_obj(sym);                                                                 \
                 return NULL_OBJ;                                                               \
-            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
                                                                                                \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i + offset]);                  \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[i + offset], AS_GUID(y)[0]);                  \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[i + offset], AS_GUID(y)[i + offset]);         \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
@@ -628,15 +608,16 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             return b8(cmp_obj(x, y) == 0);
     }
 
+    // the length of an enumeration is that of its indices
     if (IS_VECTOR(x) && IS_VECTOR(y)) {
-        if (x->len != y->len)
+        if (ops_count(x) != ops_count(y))
             return err_length(0, 0, 0, 0, 0, 0);
 
-        l = x->len;
+        l = ops_count(x);
     } else if (IS_VECTOR(x))
-        l = x->len;
+        l = ops_count(x);
     else if (IS_VECTOR(y))
-        l = y->len;
+        l = ops_count(y);
     else {
         return cmp_fn(x, y, 1, 0, NULL_OBJ);
     }
-- 
2.43.0


From 03c7e7815421cb61e3a91ce628535f793d238171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:17 +0000
Subject: [PATCH 44/47] fix: fdiv of integers is a float division, b8*i64, time
 by i64 and timestamp xbar time compute in the wider type

---
 core/math.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/core/math.c b/core/math.c
index e9ae6f0..ddc4863 100644
--- a/core/math.c
+++ b/core/math.c
@@ -998,7 +998,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(TYPE_F64, -TYPE_F64):
             return __BINOP_V_A(x, y, f64, f64, f64, f64, MULF64, len, offset, out);
         case MTYPE2(TYPE_B8, TYPE_I64):
-            return __BINOP_V_V(x, y, b8, i64, b8, i64, MULI64, len, offset, out);
+            return __BINOP_V_V(x, y, b8, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_B8):
             return __BINOP_V_V(x, y, i64, b8, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_F64, TYPE_I32):
@@ -1221,13 +1221,13 @@ obj_p ray_div_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
             return atime(DIVI32(x->i32, y->i32));
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
-            return atime(DIVI32(x->i32, i64_to_i32(y->i64)));
+            return atime(i64_to_i32(DIVI64(i32_to_i64(x->i32), y->i64)));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
             return atime(f64_to_i32(DIVF64(i32_to_f64(x->i32), y->f64)));
         case MTYPE2(-TYPE_TIME, TYPE_I32):
             return __BINOP_A_V(x, y, time, i32, time, time, DIVI32, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_I64):
-            return __BINOP_A_V(x, y, time, i64, time, time, DIVI32, len, offset, out);
+            return __BINOP_A_V(x, y, time, i64, time, i64, DIVI64, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_F64):
             return __BINOP_A_V(x, y, time, f64, time, f64, DIVF64, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I32):
@@ -1374,9 +1374,9 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I32, -TYPE_F64):
             return f64(FDIVF64(i32_to_f64(x->i32), y->f64));
         case MTYPE2(-TYPE_I32, TYPE_I32):
-            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_I64):
-            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_F64):
             return __BINOP_A_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -1385,13 +1385,13 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I64, -TYPE_I64):
             return f64(FDIVI64(x->i64, y->i64));
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return f64(FDIVI64(x->i64, y->f64));
+            return f64(FDIVF64(i64_to_f64(x->i64), y->f64));
         case MTYPE2(-TYPE_I64, TYPE_I32):
-            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_I64):
-            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_F64):
-            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(-TYPE_F64, -TYPE_I32):
             return f64(FDIVF64(x->f64, i32_to_f64(y->i32)));
@@ -1407,30 +1407,30 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_A_V(x, y, f64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I32, -TYPE_I32):
-            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_I64):
-            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_F64):
             return __BINOP_V_A(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I32):
-            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I64):
-            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_F64):
             return __BINOP_V_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
-            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
-            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I32):
-            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I64):
-            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_F64):
-            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_F64, -TYPE_I32):
             return __BINOP_V_A(x, y, f64, i32, f64, f64, FDIVF64, len, offset, out);
@@ -1532,11 +1532,11 @@ obj_p ray_mod_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
             return atime(MODI32(x->i32, y->i32));
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
-            return atime(MODI32(x->i32, i64_to_i32(y->i64)));
+            return atime(i64_to_i32(MODI64(i32_to_i64(x->i32), y->i64)));
         case MTYPE2(-TYPE_TIME, TYPE_I32):
             return __BINOP_A_V(x, y, time, i32, time, time, MODI32, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_I64):
-            return __BINOP_A_V(x, y, time, i64, time, time, MODI32, len, offset, out);
+            return __BINOP_A_V(x, y, time, i64, time, i64, MODI64, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I32):
             return __BINOP_V_A(x, y, time, i32, time, time, MODI32, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I64):
@@ -1759,7 +1759,7 @@ obj_p ray_xbar_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(XBARI64(x->i64, y->i64));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp(XBARI32(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
+            return timestamp(XBARI64(x->i64, time_to_timestamp(y->i32)));
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, timestamp, timestamp, XBARI64, len, offset, out);
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I64):
-- 
2.43.0


From 164105125261fde23359f47ea31216f5b119ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:52 +0000
Subject: [PATCH 45/47] fix: chunks of whole pages of the index functions must
 not reach beyond the end of the data

---
 core/index.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/index.c b/core/index.c
index 71d3587..1f78773 100644
--- a/core/index.c
+++ b/core/index.c
@@ -273,6 +273,13 @@ obj_p __hash_cols_partial(i64_t len, i64_t offset, __hash_cols_ctx_t *ctx) {
     return NULL_OBJ;
 }
 
+// Page aligned length of all the chunks but the last one, which takes the rest.
+// Rounding up to whole pages must not let them reach beyond the end.
+static i64_t index_chunk_size(i64_t len, i64_t chunks, i64_t elem_size) {
+    i64_t chunk = pool_chunk_aligned(len, chunks, elem_size);
+    return (chunk * (chunks - 1) < len) ? chunk : len / chunks;
+}
+
 nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrows, i64_t filter[], b8_t resolve) {
     i64_t i, j, chunks, base_chunk;
     pool_p pool;
@@ -280,7 +287,7 @@ nil_t __index_list_precalc_hash(obj_p cols, i64_t out[], i64_t ncols, i64_t nrow
 
     pool = pool_get();
     chunks = pool_split_by(pool, nrows, 0);
-    base_chunk = pool_chunk_aligned(nrows, chunks, sizeof(i64_t));
+    base_chunk = index_chunk_size(nrows, chunks, sizeof(i64_t));
 
     // Initialize hashes
     for (i = 0; i < nrows; i++)
@@ -352,7 +359,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
         return (index_scope_t){NULL_I64, NULL_I64, 0};
 
     chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i32_t));
+    base_chunk = index_chunk_size(len, chunks, sizeof(i32_t));
 
     if (chunks == 1)
         index_scope_partial_i32(len, values, indices, 0, &min, &max);
@@ -413,7 +420,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
         return (index_scope_t){NULL_I64, NULL_I64, 0};
 
     chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    base_chunk = index_chunk_size(len, chunks, sizeof(i64_t));
 
     if (chunks == 1)
         index_scope_partial_i64(len, values, indices, 0, &min, &max);
@@ -2024,7 +2031,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
             for (i = 0; i < scope.range; i++)
                 hk[i] = NULL_I64;
         } else {
-            base_chunk = pool_chunk_aligned(scope.range, chunks, sizeof(i64_t));
+            base_chunk = index_chunk_size(scope.range, chunks, sizeof(i64_t));
             pool_prepare(pool);
             for (i = 0; i < chunks - 1; i++)
                 pool_add_task(pool, (raw_p)fill_null_i64, 3, hk, base_chunk, i * base_chunk);
@@ -2075,7 +2082,7 @@ obj_p index_group_i64_scoped(obj_p obj, obj_p filter, const index_scope_t scope)
         hv = AS_I64(vals);
         pool = pool_get();
         chunks = pool_split_by(pool, len, 0);
-        base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+        base_chunk = index_chunk_size(len, chunks, sizeof(i64_t));
         if (chunks == 1)
             index_group_i64_scoped_partial(values, indices, hk, len, 0, scope.min, hv);
         else {
@@ -2406,7 +2413,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     pool = pool_get();
     chunks = pool_split_by(pool, len, 0);
-    base_chunk = pool_chunk_aligned(len, chunks, sizeof(i64_t));
+    base_chunk = index_chunk_size(len, chunks, sizeof(i64_t));
 
     if (chunks == 1) {
         index_group_list_perfect_partial(len, 0, &ctx);
-- 
2.43.0


From 9db22bdcf562dda39c74d61478cb9d6df737ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:30 +0000
Subject: [PATCH 46/47] fix: and/or of a long mask and a single value take the
 value itself in every part

---
 core/logic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1d34c5b..61e4528 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -51,7 +51,7 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] && m;
 
@@ -78,7 +78,7 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] || m;
 
-- 
2.43.0


From 4be49538785979729e83faa49f34adfaf769de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:46 +0000
Subject: [PATCH 47/47] fix: last of a group takes the last part that has a
 value, not the first

---
 core/aggr.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index f093740..c953f4b 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -934,7 +934,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i16, i16, if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -944,7 +944,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i32, i32, if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -955,7 +955,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
@@ -986,7 +986,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, f64, f64, if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
             drop_obj(parts);
             return res;
         case TYPE_GUID:
@@ -994,7 +994,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                               if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                    memcpy($out[$y], $in[$x], sizeof(guid_t)));
             drop_obj(parts);
             return res;
@@ -1002,7 +1002,11 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, list, list, if ($out[$y] == NULL_OBJ) $out[$y] = clone_obj($in[$x]));
+            res = AGGR_COLLECT(
+                parts, n, list, list, if ($in[$x] != NULL_OBJ) {
+                    drop_obj($out[$y]);
+                    $out[$y] = clone_obj($in[$x]);
+                });
             drop_obj(parts);
             return res;
         case TYPE_PARTEDLIST:
@@ -1101,22 +1105,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
-                              if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
-                              if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+                              if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
-                              if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                              if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
-                              if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
-                              if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0

