From d432f9cc183051837006be930d289b0608981179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:02 +0000
Subject: [PATCH 01/68] fix: retry buffer reserve when another thread replaced
 the storage

---
 core/kos_buffer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 1fc6da7..6ce33da 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -202,9 +202,12 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
                 if (size)
                     memcpy(buf->ptr, OBJPTR(BUFFER_STORAGE, old_buf.o)->ptr, size);
 
-                (void)KOS_atomic_cas_strong_ptr(OBJPTR(BUFFER, obj.o)->data,
-                                                old_buf.o,
-                                                OBJID(BUFFER_STORAGE, buf));
+                /* If another thread replaced the storage in the meantime,
+                 * the new storage could still be too small, so try again. */
+                if ( ! KOS_atomic_cas_strong_ptr(OBJPTR(BUFFER, obj.o)->data,
+                                                 old_buf.o,
+                                                 OBJID(BUFFER_STORAGE, buf)))
+                    continue;
             }
 
             error = KOS_SUCCESS;
-- 
2.43.0


From 73e16dac6323a403dcdb4a93334ed83e07a77b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 02/68] fix: compute missing hash when salvaging object
 properties

---
 core/kos_object.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_object.c b/core/kos_object.c
index 43b26ba..2820468 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -224,6 +224,10 @@ static int salvage_item(KOS_CONTEXT ctx,
     key  = KOS_atomic_read_relaxed_obj(old_item->key);
     assert( ! IS_BAD_PTR(key));
     hash = KOS_atomic_read_relaxed_u32(old_item->hash.hash);
+    /* Another thread may have claimed this slot by writing the key,
+     * but it may not have written the hash yet */
+    if ( ! hash)
+        hash = KOS_string_get_hash(key);
     idx  = hash & mask;
 
     /* Claim a slot in the new table */
-- 
2.43.0


From fd81bcca3af6c7054e38e4a8c0934cfeb7add1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 03/68] fix: don't copy array storage grown by another thread
 to a smaller one

---
 core/kos_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/kos_array.c b/core/kos_array.c
index 9483df7..2aef2aa 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -380,6 +380,10 @@ static int resize_storage(KOS_CONTEXT ctx,
 
         if ( ! old_buf)
             (void)KOS_atomic_cas_strong_ptr(OBJPTR(ARRAY, array.o)->data, KOS_BADPTR, OBJID(ARRAY_STORAGE, new_buf));
+        else if (KOS_atomic_read_relaxed_u32(old_buf->capacity) > KOS_atomic_read_relaxed_u32(new_buf->capacity)) {
+            /* Another thread has already grown the storage beyond the requested capacity.
+             * The contents would not fit in the new storage, so leave the current one. */
+        }
         else if (KOS_atomic_cas_strong_ptr(old_buf->next, KOS_BADPTR, OBJID(ARRAY_STORAGE, new_buf)))
             copy_buf(ctx, OBJPTR(ARRAY, array.o), old_buf, new_buf);
         else {
-- 
2.43.0


From cfd3990fbc08c70bf28e6fe7abdaaa1ed4039502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 04/68] fix: don't truncate array slice while another thread
 grows the array

---
 core/kos_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 2aef2aa..2a46fa2 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -573,7 +573,11 @@ KOS_OBJ_ID KOS_array_slice(KOS_CONTEXT ctx,
                         }
 
                         if (value == CLOSED) {
-                            src_buf = get_next(src_buf);
+                            KOS_ARRAY_STORAGE *const next_buf = get_next(src_buf);
+
+                            /* Make sure all elements are in the new storage */
+                            copy_buf(ctx, OBJPTR(ARRAY, array.o), src_buf, next_buf);
+                            src_buf = next_buf;
                             continue;
                         }
 
-- 
2.43.0


From b56bf39fb5b077c362e2b29cf38148847d68f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:03 +0000
Subject: [PATCH 05/68] fix: keep 0.0 and -0.0 as separate constants

---
 core/kos_compiler.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 410e142..8f2e567 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -450,6 +450,20 @@ static void get_token_str(const KOS_TOKEN *token,
     *out_length = length;
 }
 
+/* Compares representations, so that 0.0 and -0.0 are separate constants and
+ * NaN is equal to itself. */
+static int compare_floats(double a, double b)
+{
+    KOS_NUMERIC_VALUE value_a;
+    KOS_NUMERIC_VALUE value_b;
+
+    value_a.d = a;
+    value_b.d = b;
+
+    return value_a.i < value_b.i ? -1 :
+           value_a.i > value_b.i ? 1 : 0;
+}
+
 static int numbers_compare_item(void               *what,
                                 KOS_RED_BLACK_NODE *node)
 {
@@ -466,8 +480,7 @@ static int numbers_compare_item(void               *what,
         return numeric->u.i < ((const KOS_COMP_INTEGER *)constant)->value ? -1 :
                numeric->u.i > ((const KOS_COMP_INTEGER *)constant)->value ? 1 : 0;
     else
-        return numeric->u.d == ((const KOS_COMP_FLOAT *)constant)->value ? 0 :
-               numeric->u.d <  ((const KOS_COMP_FLOAT *)constant)->value ? -1 : 1;
+        return compare_floats(numeric->u.d, ((const KOS_COMP_FLOAT *)constant)->value);
 }
 
 static int strings_compare_item(void               *what,
@@ -506,8 +519,8 @@ static int constants_compare_node(KOS_RED_BLACK_NODE *a,
                  ? -1 : 0;
 
         case KOS_COMP_CONST_FLOAT:
-            return ((const KOS_COMP_FLOAT *)const_a)->value
-                 < ((const KOS_COMP_FLOAT *)const_b)->value
+            return compare_floats(((const KOS_COMP_FLOAT *)const_a)->value,
+                                  ((const KOS_COMP_FLOAT *)const_b)->value) < 0
                  ? -1 : 0;
 
         case KOS_COMP_CONST_STRING: {
-- 
2.43.0


From 3806d8d0630c49931af62f6ffa3c89b290025efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:03 +0000
Subject: [PATCH 06/68] fix: negate sign of zero in unary minus

---
 core/kos_compiler.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 8f2e567..02fdc86 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -4329,10 +4329,11 @@ static int pos_neg(KOS_COMP_UNIT      *program,
         TRY(gen_dest_reg(program, reg, src));
 
         TRY(gen_reg(program, &val));
-        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, 0));
+        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, -1));
 
+        /* Multiply instead of subtracting from 0, to negate the sign of 0.0 */
         TRY(gen_instr3(program,
-                       INSTR_SUB,
+                       INSTR_MUL,
                        (*reg)->reg,
                        val->reg,
                        src->reg));
-- 
2.43.0


From d7a3cf13f720688c988b930580942eece798c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:03 +0000
Subject: [PATCH 07/68] fix: reject non-numeric operand of unary plus

---
 core/kos_compiler.c | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 02fdc86..0eec196 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -4310,6 +4310,7 @@ static int pos_neg(KOS_COMP_UNIT      *program,
     int                     error;
     const KOS_OPERATOR_TYPE op  = (KOS_OPERATOR_TYPE)node->token.op;
     KOS_REG                *src = *reg;
+    KOS_REG                *val = KOS_NULL;
 
     assert(op == OT_ADD || op == OT_SUB);
 
@@ -4322,30 +4323,22 @@ static int pos_neg(KOS_COMP_UNIT      *program,
     TRY(visit_node(program, node, &src));
     assert(src);
 
-    if (op == OT_SUB) {
-
-        KOS_REG *val = KOS_NULL;
-
-        TRY(gen_dest_reg(program, reg, src));
+    TRY(gen_dest_reg(program, reg, src));
 
-        TRY(gen_reg(program, &val));
-        TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, -1));
+    TRY(gen_reg(program, &val));
+    TRY(gen_instr2(program, INSTR_LOAD_INT8, val->reg, op == OT_SUB ? -1 : 1));
 
-        /* Multiply instead of subtracting from 0, to negate the sign of 0.0 */
-        TRY(gen_instr3(program,
-                       INSTR_MUL,
-                       (*reg)->reg,
-                       val->reg,
-                       src->reg));
+    /* Multiply instead of subtracting from 0, to negate the sign of 0.0 */
+    TRY(gen_instr3(program,
+                   INSTR_MUL,
+                   (*reg)->reg,
+                   val->reg,
+                   src->reg));
 
-        free_reg(program, val);
+    free_reg(program, val);
 
-        if (src != *reg)
-            free_reg(program, src);
-    }
-    else
-        /* TODO: enforce numeric */
-        *reg = src;
+    if (src != *reg)
+        free_reg(program, src);
 
 cleanup:
     return error;
-- 
2.43.0


From b2e3a4d55c5631abcc1492ef3f8d0dd50170ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:44 +0000
Subject: [PATCH 08/68] fix: account for break and continue inside a loop or
 switch when removing dead code

---
 core/kos_compiler.h       |  1 +
 core/kos_compiler_optim.c | 53 +++++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/core/kos_compiler.h b/core/kos_compiler.h
index 15458ef..e8084bc 100644
--- a/core/kos_compiler.h
+++ b/core/kos_compiler.h
@@ -237,6 +237,7 @@ typedef struct KOS_COMP_UNIT_S {
 
     int                  optimize;
     int                  num_optimizations;
+    int                  loop_exits; /* Optimizer: break/continue found in the current loop or switch */
 
     uint16_t             file_id;
     int                  cur_offs;
diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index e8a5a86..2520344 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -26,6 +26,11 @@ enum KOS_TERMINATOR_E {
     TERM_RETURN = 4
 };
 
+enum KOS_LOOP_EXIT_E {
+    EXIT_BREAK    = 1,
+    EXIT_CONTINUE = 2
+};
+
 static int visit_node(KOS_COMP_UNIT *program,
                       KOS_AST_NODE  *node,
                       int           *is_terminal);
@@ -517,17 +522,24 @@ static int repeat_stmt(KOS_COMP_UNIT *program,
                        KOS_AST_NODE  *node,
                        int           *is_terminal)
 {
-    int error = KOS_SUCCESS;
+    int       error      = KOS_SUCCESS;
+    const int prev_exits = program->loop_exits;
+    int       exits;
+
+    program->loop_exits = 0;
 
     node = node->children;
     assert(node);
     TRY(visit_node(program, node, is_terminal));
 
+    exits               = program->loop_exits;
+    program->loop_exits = prev_exits;
+
     node = node->next;
     assert(node);
     assert( ! node->next);
 
-    if (*is_terminal && program->optimize) {
+    if (*is_terminal && ! (exits & EXIT_CONTINUE) && program->optimize) {
         if (node->token.keyword != KW_FALSE) {
             collapse(node, NT_BOOL_LITERAL, TT_KEYWORD, KW_FALSE, KOS_NULL, 0);
             ++program->num_optimizations;
@@ -539,7 +551,7 @@ static int repeat_stmt(KOS_COMP_UNIT *program,
         assert(t == TERM_NONE);
     }
 
-    if (*is_terminal & TERM_BREAK)
+    if (exits)
         *is_terminal = TERM_NONE;
 
 cleanup:
@@ -550,10 +562,12 @@ static int while_stmt(KOS_COMP_UNIT *program,
                       KOS_AST_NODE  *node,
                       int           *is_terminal)
 {
-    int error     = KOS_SUCCESS;
-    int is_truthy = 0;
-    int is_falsy  = 0;
-    int t;
+    int       error      = KOS_SUCCESS;
+    int       is_truthy  = 0;
+    int       is_falsy   = 0;
+    const int prev_exits = program->loop_exits;
+    int       exits;
+    int       t;
 
     node = node->children;
     assert(node);
@@ -573,9 +587,14 @@ static int while_stmt(KOS_COMP_UNIT *program,
         ++program->num_optimizations;
     }
 
+    program->loop_exits = 0;
+
     TRY(visit_node(program, node->next, is_terminal));
 
-    if ( ! is_truthy || (*is_terminal & TERM_BREAK))
+    exits               = program->loop_exits;
+    program->loop_exits = prev_exits;
+
+    if ( ! is_truthy || (exits & EXIT_BREAK) || (*is_terminal & TERM_BREAK))
         *is_terminal = TERM_NONE;
 
     if (*is_terminal && program->optimize && node->type != NT_BOOL_LITERAL) {
@@ -672,6 +691,7 @@ static int switch_stmt(KOS_COMP_UNIT *program,
     int num_cases      = 0;
     int num_terminated = 0;
     int has_default    = 0;
+    int prev_exits     = 0;
     int t;
 
     node = node->children;
@@ -681,6 +701,9 @@ static int switch_stmt(KOS_COMP_UNIT *program,
 
     t = TERM_NONE;
 
+    prev_exits           = program->loop_exits;
+    program->loop_exits &= ~EXIT_BREAK;
+
     for (node = node->next; node; node = node->next) {
 
         int next_t;
@@ -700,7 +723,11 @@ static int switch_stmt(KOS_COMP_UNIT *program,
         }
     }
 
-    *is_terminal = (num_cases == num_terminated && has_default) ? t : TERM_NONE;
+    *is_terminal = (num_cases == num_terminated && has_default &&
+                    ! (program->loop_exits & EXIT_BREAK)) ? t : TERM_NONE;
+
+    /* The switch statement intercepts break, but not continue */
+    program->loop_exits = (program->loop_exits & ~EXIT_BREAK) | prev_exits;
 
 cleanup:
     return error;
@@ -801,6 +828,7 @@ static int for_in_stmt(KOS_COMP_UNIT *program,
     KOS_NODE_TYPE lhs_type;
     int           is_terminal;
     int           error;
+    const int     prev_exits = program->loop_exits;
 
     push_scope(program, node);
 
@@ -857,6 +885,8 @@ static int for_in_stmt(KOS_COMP_UNIT *program,
     if ( ! error)
         error = visit_node(program, scope_node, &is_terminal);
 
+    program->loop_exits = prev_exits;
+
     pop_scope(program);
 
     return error;
@@ -2097,8 +2127,9 @@ static int visit_node(KOS_COMP_UNIT *program,
             /* fall through */
         case NT_CONTINUE:
             assert( ! node->children);
-            error        = KOS_SUCCESS;
-            *is_terminal = TERM_BREAK;
+            error                = KOS_SUCCESS;
+            *is_terminal         = TERM_BREAK;
+            program->loop_exits |= (node->type == NT_BREAK) ? EXIT_BREAK : EXIT_CONTINUE;
             break;
 
         case NT_SCOPE:
-- 
2.43.0


From 58708d4cffad391df3acd702f865d10d1877f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:28 +0000
Subject: [PATCH 09/68] fix: restore the right catch handler on break, continue
 and fallthrough

---
 core/kos_compiler.c | 109 +++++++++++++++++++++++++++++++++++---------
 core/kos_compiler.h |   9 +++-
 2 files changed, 95 insertions(+), 23 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 0eec196..f763aeb 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2155,16 +2155,28 @@ static void finish_fallthrough(KOS_COMP_UNIT *program)
     }
 }
 
-/* Saves last try scope before the loop, used for restoring catch offset */
-static KOS_SCOPE *push_try_scope(KOS_COMP_UNIT *program)
+/* Saves try scope before the loop, used for restoring catch offset */
+static KOS_JUMP_SCOPES push_loop_scopes(KOS_COMP_UNIT *program)
 {
-    KOS_SCOPE *prev_try_scope = program->cur_frame->last_try_scope;
-    KOS_SCOPE *scope          = find_try_scope(program->scope_stack);
+    const KOS_JUMP_SCOPES prev_scopes = program->cur_frame->jump_scopes;
+    KOS_SCOPE *const      scope       = find_try_scope(program->scope_stack);
 
-    if (scope)
-        program->cur_frame->last_try_scope = scope;
+    program->cur_frame->jump_scopes.break_scope    = scope;
+    program->cur_frame->jump_scopes.continue_scope = scope;
 
-    return prev_try_scope;
+    return prev_scopes;
+}
+
+/* Saves try scope before the switch, used for restoring catch offset */
+static KOS_JUMP_SCOPES push_switch_scopes(KOS_COMP_UNIT *program)
+{
+    const KOS_JUMP_SCOPES prev_scopes = program->cur_frame->jump_scopes;
+    KOS_SCOPE *const      scope       = find_try_scope(program->scope_stack);
+
+    program->cur_frame->jump_scopes.break_scope       = scope;
+    program->cur_frame->jump_scopes.fallthrough_scope = scope;
+
+    return prev_scopes;
 }
 
 static int repeat(KOS_COMP_UNIT      *program,
@@ -2175,7 +2187,7 @@ static int repeat(KOS_COMP_UNIT      *program,
     const int       loop_start_offs = program->cur_offs;
     KOS_REG        *reg             = KOS_NULL;
     KOS_BREAK_OFFS *old_break_offs  = program->cur_frame->break_offs;
-    KOS_SCOPE      *prev_try_scope  = push_try_scope(program);
+    const KOS_JUMP_SCOPES prev_scopes     = push_loop_scopes(program);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2211,7 +2223,7 @@ static int repeat(KOS_COMP_UNIT      *program,
     if (reg)
         free_reg(program, reg);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    program->cur_frame->jump_scopes = prev_scopes;
 
 cleanup:
     return error;
@@ -2223,7 +2235,7 @@ static int while_stmt(KOS_COMP_UNIT      *program,
     int                 error          = KOS_SUCCESS;
     const KOS_AST_NODE *cond_node      = node->children;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    const KOS_JUMP_SCOPES prev_scopes    = push_loop_scopes(program);
 
     assert(cond_node);
 
@@ -2263,7 +2275,7 @@ static int while_stmt(KOS_COMP_UNIT      *program,
         finish_break_continue(program, continue_tgt_offs, old_break_offs);
     }
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    program->cur_frame->jump_scopes = prev_scopes;
 
 cleanup:
     return error;
@@ -2460,7 +2472,7 @@ static int for_in(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    const KOS_JUMP_SCOPES prev_scopes    = push_loop_scopes(program);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -2644,7 +2656,7 @@ static int for_in(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    program->cur_frame->jump_scopes = prev_scopes;
 
 cleanup:
     return error;
@@ -2663,7 +2675,7 @@ static int for_range(KOS_COMP_UNIT      *program,
     KOS_REG            *item_cont_reg  = KOS_NULL;
     KOS_VAR            *item_var       = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs = program->cur_frame->break_offs;
-    KOS_SCOPE          *prev_try_scope = push_try_scope(program);
+    const KOS_JUMP_SCOPES prev_scopes    = push_loop_scopes(program);
     KOS_NODE_TYPE       lhs_type;
     int                 decrement      = 0;
     uint32_t            initial_jump_entry;
@@ -2860,7 +2872,7 @@ static int for_range(KOS_COMP_UNIT      *program,
 
     pop_scope(program);
 
-    program->cur_frame->last_try_scope = prev_try_scope;
+    program->cur_frame->jump_scopes = prev_scopes;
 
 cleanup:
     return error;
@@ -2918,6 +2930,54 @@ static int restore_parent_scope_catch(KOS_COMP_UNIT *program)
     return restore_catch(program, scope);
 }
 
+/* Restores catch at the target of break, continue or fallthrough, if it is
+ * different than the current catch */
+static int restore_jump_catch(KOS_COMP_UNIT *program,
+                              KOS_NODE_TYPE  type)
+{
+    const KOS_JUMP_SCOPES *jump_scopes = &program->cur_frame->jump_scopes;
+    KOS_SCOPE *const       scope       = (type == NT_BREAK)    ? jump_scopes->break_scope    :
+                                         (type == NT_CONTINUE) ? jump_scopes->continue_scope :
+                                                                 jump_scopes->fallthrough_scope;
+
+    if (scope == find_try_scope(program->scope_stack))
+        return KOS_SUCCESS;
+
+    return restore_catch(program, scope);
+}
+
+/* Restores catch after execution of defer section, before jumping to
+ * the target of break, continue or fallthrough */
+static int restore_catch_after_defer(KOS_COMP_UNIT *program,
+                                     KOS_NODE_TYPE  type)
+{
+    KOS_SCOPE *scope;
+    size_t     i;
+    int        error;
+
+    /* Create fake scope just for catch refs */
+    scope = (KOS_SCOPE *)KOS_mempool_alloc(&program->allocator, sizeof(KOS_SCOPE));
+
+    if ( ! scope)
+        return KOS_ERROR_OUT_OF_MEMORY;
+
+    memset(scope, 0, sizeof(*scope));
+
+    for (i = 0; i < sizeof(scope->catch_ref.catch_entry) / sizeof(uint32_t); i++)
+        scope->catch_ref.catch_entry[i] = KOS_NO_JUMP;
+
+    scope->scope_node    = program->scope_stack->scope_node;
+    scope->parent_scope  = program->scope_stack;
+    scope->owning_frame  = program->scope_stack->owning_frame;
+    program->scope_stack = scope;
+
+    error = restore_jump_catch(program, type);
+
+    program->scope_stack = scope->parent_scope;
+
+    return error;
+}
+
 static int push_break_offs(KOS_COMP_UNIT *program,
                            KOS_NODE_TYPE  type)
 {
@@ -2943,14 +3003,11 @@ static int break_continue_fallthrough(KOS_COMP_UNIT      *program,
 
     TRY(push_break_offs(program, (KOS_NODE_TYPE)node->type));
 
-    if (program->cur_frame->last_try_scope) {
-
-        push_scope(program, node);
+    push_scope(program, node);
 
-        TRY(restore_catch(program, program->cur_frame->last_try_scope));
+    TRY(restore_jump_catch(program, (KOS_NODE_TYPE)node->type));
 
-        pop_scope(program);
-    }
+    pop_scope(program);
 
     TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
     TRY(gen_instr1(program, INSTR_JUMP, 0));
@@ -2988,6 +3045,7 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
     uint32_t            final_jump_entry = KOS_NO_JUMP;
     KOS_SWITCH_CASE    *cases            = KOS_NULL;
     KOS_BREAK_OFFS     *old_break_offs   = program->cur_frame->break_offs;
+    const KOS_JUMP_SCOPES prev_scopes    = push_switch_scopes(program);
 
     program->cur_frame->break_offs = KOS_NULL;
 
@@ -3002,7 +3060,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
     if ( ! node) {
         free_reg(program, value_reg);
 
-        program->cur_frame->break_offs = old_break_offs;
+        program->cur_frame->break_offs  = old_break_offs;
+        program->cur_frame->jump_scopes = prev_scopes;
 
         return error;
     }
@@ -3034,6 +3093,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
         finish_break_continue(program, -1, old_break_offs);
 
+        program->cur_frame->jump_scopes = prev_scopes;
+
         return error;
     }
 
@@ -3165,6 +3226,8 @@ static int switch_stmt(KOS_COMP_UNIT      *program,
 
     finish_break_continue(program, -1, old_break_offs);
 
+    program->cur_frame->jump_scopes = prev_scopes;
+
 cleanup:
     return error;
 }
@@ -3386,6 +3449,8 @@ static int try_stmt(KOS_COMP_UNIT      *program,
 
                 TRY(process_scope(program, defer_node));
 
+                TRY(restore_catch_after_defer(program, type));
+
                 TRY(push_break_offs(program, type));
 
                 TRY(add_jump_instr(program, &program->cur_frame->break_offs->entry));
diff --git a/core/kos_compiler.h b/core/kos_compiler.h
index e8084bc..e37c057 100644
--- a/core/kos_compiler.h
+++ b/core/kos_compiler.h
@@ -102,6 +102,13 @@ typedef struct KOS_SCOPE_S {
     unsigned            have_rest   : 1; /* Has more args than fit in registers */
 } KOS_SCOPE;
 
+/* Try scopes which are active at the targets of break, continue and fallthrough */
+typedef struct KOS_JUMP_SCOPES_S {
+    KOS_SCOPE *break_scope;
+    KOS_SCOPE *continue_scope;
+    KOS_SCOPE *fallthrough_scope;
+} KOS_JUMP_SCOPES;
+
 typedef struct KOS_FRAME_S {
     KOS_SCOPE                   scope;
     KOS_REG                    *free_regs;        /* Allocated registers which are currently unused */
@@ -115,7 +122,7 @@ typedef struct KOS_FRAME_S {
     const KOS_TOKEN            *fun_token;
     KOS_BREAK_OFFS             *break_offs;
     KOS_RETURN_OFFS            *return_offs;      /* For return statements inside finally clause (defer) */
-    KOS_SCOPE                  *last_try_scope;
+    KOS_JUMP_SCOPES             jump_scopes;      /* Used for restoring catch offset */
     const KOS_TOKEN            *yield_token;
     struct KOS_COMP_FUNCTION_S *constant;         /* The template for the constant object, used with LOAD.CONST */
     int                         num_def_used;     /* Number of used default args, for optimization              */
-- 
2.43.0


From 98b71cfce7e7c5843f7cd02a340d001adbc4d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:56 +0000
Subject: [PATCH 10/68] fix: report out of range operand of constant bitwise
 not

---
 core/kos_compiler_optim.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index 2520344..d135d43 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -1491,6 +1491,11 @@ static int optimize_unary_op(KOS_COMP_UNIT      *program,
         assert(op == OT_NOT);
 
         if (numeric_a.type == KOS_FLOAT_VALUE) {
+            if (numeric_a.u.d <= -9223372036854775808.0 || numeric_a.u.d >= 9223372036854775808.0) {
+                program->error_str   = str_err_number_out_of_range;
+                program->error_token = &a->token;
+                return KOS_ERROR_COMPILE_FAILED;
+            }
             numeric_a.u.i = (int64_t)floor(numeric_a.u.d);
             numeric_a.type = KOS_INTEGER_VALUE;
         }
-- 
2.43.0


From cb2ce6c440daefb57b509b702768c2e1953c1991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:54 +0000
Subject: [PATCH 11/68] fix: don't remove literals with side effects

---
 core/kos_compiler_optim.c | 95 +++++++++++++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 13 deletions(-)

diff --git a/core/kos_compiler_optim.c b/core/kos_compiler_optim.c
index d135d43..8fb5800 100644
--- a/core/kos_compiler_optim.c
+++ b/core/kos_compiler_optim.c
@@ -187,6 +187,75 @@ const KOS_AST_NODE *kos_get_const(KOS_COMP_UNIT      *program,
     return var->is_const ? var->value : KOS_NULL;
 }
 
+/* Checks if removing this literal could remove any observable side effects,
+ * such as evaluation of default arguments or of array elements. */
+static int has_side_effects(const KOS_AST_NODE *node)
+{
+    switch (node->type) {
+
+        case NT_EMPTY:
+            /* fall through */
+        case NT_IDENTIFIER:
+            /* fall through */
+        case NT_NUMERIC_LITERAL:
+            /* fall through */
+        case NT_STRING_LITERAL:
+            /* fall through */
+        case NT_THIS_LITERAL:
+            /* fall through */
+        case NT_SUPER_CTOR_LITERAL:
+            /* fall through */
+        case NT_SUPER_PROTO_LITERAL:
+            /* fall through */
+        case NT_LINE_LITERAL:
+            /* fall through */
+        case NT_BOOL_LITERAL:
+            /* fall through */
+        case NT_VOID_LITERAL:
+            return 0;
+
+        case NT_FUNCTION_LITERAL:
+            /* fall through */
+        case NT_CONSTRUCTOR_LITERAL:
+            /* Check default arguments */
+            node = node->children;
+            assert(node);
+            node = node->next;
+            assert(node);
+            assert(node->type == NT_PARAMETERS);
+            for (node = node->children; node; node = node->next)
+                if (node->type == NT_ASSIGNMENT) {
+                    assert(node->children);
+                    assert(node->children->next);
+                    if (has_side_effects(node->children->next))
+                        return 1;
+                }
+            return 0;
+
+        case NT_CLASS_LITERAL:
+            /* Check extends clause, which may fail */
+            assert(node->children);
+            if (node->children->type != NT_EMPTY)
+                return 1;
+            /* fall through */
+        case NT_ARRAY_LITERAL:
+            /* fall through */
+        case NT_OBJECT_LITERAL:
+            for (node = node->children; node; node = node->next)
+                if (has_side_effects(node))
+                    return 1;
+            return 0;
+
+        case NT_PROPERTY:
+            assert(node->children);
+            assert(node->children->next);
+            return has_side_effects(node->children->next);
+
+        default:
+            return 1;
+    }
+}
+
 int kos_node_is_truthy(KOS_COMP_UNIT      *program,
                        const KOS_AST_NODE *node)
 {
@@ -197,17 +266,19 @@ int kos_node_is_truthy(KOS_COMP_UNIT      *program,
 
     if ((node->type == NT_BOOL_LITERAL    && node->token.keyword == KW_TRUE) ||
         (node->type == NT_NUMERIC_LITERAL && node->token.length == 1 && *node->token.begin != '0') ||
-        (node->type == NT_STRING_LITERAL)      ||
-        (node->type == NT_FUNCTION_LITERAL)    ||
-        /* Note: optimizer will remove side effects for these: */
-        (node->type == NT_CLASS_LITERAL)       ||
-        (node->type == NT_ARRAY_LITERAL)       ||
-        (node->type == NT_OBJECT_LITERAL)      ||
-        (node->type == NT_INTERPOLATED_STRING)) {
+        (node->type == NT_STRING_LITERAL)) {
 
         return 1;
     }
 
+    if (node->type == NT_FUNCTION_LITERAL ||
+        node->type == NT_CLASS_LITERAL    ||
+        node->type == NT_ARRAY_LITERAL    ||
+        node->type == NT_OBJECT_LITERAL) {
+
+        return ! has_side_effects(node);
+    }
+
     if (node->type == NT_NUMERIC_LITERAL) {
         int       value = 0;
         const int error = get_nonzero(&node->token, &value);
@@ -363,14 +434,14 @@ static int is_dummy_load(KOS_AST_NODE *node)
         case NT_BOOL_LITERAL:
             /* fall through */
         case NT_VOID_LITERAL:
-            /* fall through */
+            return 1;
+
         case NT_FUNCTION_LITERAL:
             /* fall through */
         case NT_CONSTRUCTOR_LITERAL:
             /* fall through */
         case NT_CLASS_LITERAL:
-            /* fall through */
-            return 1;
+            return ! has_side_effects(node);
 
         default:
             break;
@@ -1649,9 +1720,7 @@ static void collapse_typeof(KOS_COMP_UNIT      *program,
             break;
         }
 
-        case NT_STRING_LITERAL:
-            /* fall through */
-        case NT_INTERPOLATED_STRING: {
+        case NT_STRING_LITERAL: {
             static const char quoted_string[] = "\"string\"";
             type     = quoted_string;
             type_len = sizeof(quoted_string) - 1;
-- 
2.43.0


From 525a189d61d26eb1841ebaa4648e0ffc065958fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 12/68] fix: evaluate nested logical operators in conditions
 correctly

---
 core/kos_compiler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index f763aeb..4fcd645 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -1765,6 +1765,11 @@ static int32_t negate_jump_opcode(int32_t opcode)
     return (opcode == INSTR_JUMP_COND) ? INSTR_JUMP_NOT_COND : INSTR_JUMP_COND;
 }
 
+static int gen_cond_jump(KOS_COMP_UNIT      *program,
+                         const KOS_AST_NODE *node,
+                         int32_t             opcode,
+                         JUMP_ARRAY         *jump_array);
+
 static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
                                const KOS_AST_NODE *node,
                                int32_t             opcode,
@@ -1790,7 +1795,7 @@ static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
 
             node = node->children;
             assert(node);
-            TRY(gen_cond_jump_inner(program, node, opcode, jump_array, near_jump_array));
+            TRY(gen_cond_jump(program, node, opcode, jump_array));
 
             node = node->next;
             assert(node);
@@ -1801,7 +1806,7 @@ static int gen_cond_jump_inner(KOS_COMP_UNIT      *program,
 
             node = node->children;
             assert(node);
-            TRY(gen_cond_jump_inner(program, node, negate_jump_opcode(opcode), near_jump_array, jump_array));
+            TRY(gen_cond_jump(program, node, negate_jump_opcode(opcode), near_jump_array));
 
             node = node->next;
             assert(node);
-- 
2.43.0


From 8ce54e903023a5feddfad8900c8936768a3a54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:16 +0000
Subject: [PATCH 13/68] fix: use the right default values for arguments passed
 in the rest array

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 1ae70ec..856c7dd 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -646,7 +646,7 @@ static int init_registers(KOS_CONTEXT ctx,
 
                 const uint32_t def_src_offs = num_input_args < num_reg_args
                                               ? num_reg_args - num_non_def_args
-                                              : num_input_args - num_reg_args;
+                                              : num_input_args - num_non_def_args;
 
                 TRY(KOS_array_insert(ctx,
                                      rest.o,
-- 
2.43.0


From 3cb4051e06856096cbc38e4452b100dcc3bcef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:11 +0000
Subject: [PATCH 14/68] fix: don't use optimized range loop when step is zero
 or there are surplus arguments

---
 core/kos_compiler.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 4fcd645..f26d9fe 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2452,9 +2452,13 @@ static int is_for_range(KOS_COMP_UNIT      *program,
         if ( ! node)
             return 1;
 
-        /* The third argument must be a numeric constant in order to be optimized */
+        /* No more arguments are supported */
+        if (node->next)
+            return 0;
+
+        /* The third argument must be a non-zero numeric constant in order to be optimized */
         node = kos_get_const(program, node);
-        if (node && (node->type == NT_NUMERIC_LITERAL))
+        if (node && (node->type == NT_NUMERIC_LITERAL) && ! kos_node_is_falsy(program, node))
             return 1;
     }
 
-- 
2.43.0


From 252f2b9cb30e071a12e21ff19a42393104236a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:32 +0000
Subject: [PATCH 15/68] fix: don't treat base functions named with a prefix of
 range as range

---
 core/kos_compiler.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index f26d9fe..21a522c 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -2352,6 +2352,14 @@ cleanup:
     return error;
 }
 
+static int is_range_token(const KOS_TOKEN *token)
+{
+    static const char str_range[] = "range";
+
+    return token->length == sizeof(str_range) - 1 &&
+           memcmp(token->begin, str_range, sizeof(str_range) - 1) == 0;
+}
+
 static int is_for_range(KOS_COMP_UNIT      *program,
                         const KOS_AST_NODE *node)
 {
@@ -2398,7 +2406,7 @@ static int is_for_range(KOS_COMP_UNIT      *program,
                 return 0;
         }
 
-        if (strncmp(var->token->begin, "range", var->token->length) != 0)
+        if ( ! is_range_token(var->token))
             return 0;
     }
     /* Detect reference via base.range() */
@@ -2424,7 +2432,7 @@ static int is_for_range(KOS_COMP_UNIT      *program,
         if ((ref_node->type != NT_IDENTIFIER) && (ref_node->type != NT_STRING_LITERAL))
             return 0;
 
-        if (strncmp(ref_node->token.begin, "range", ref_node->token.length) != 0)
+        if ( ! is_range_token(&ref_node->token))
             return 0;
     }
     else
-- 
2.43.0


From c5255a57b79567894626440a55c8d3d49b4ea431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 16/68] fix: don't skip characters wider than the pattern in
 exclusive string scan

---
 core/kos_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 00147ff..2e49508 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1430,14 +1430,14 @@ int KOS_string_scan(KOS_CONTEXT             ctx,
 
                 case KOS_STRING_ELEM_16:
                     code = *(const uint16_t *)location;
-                    if (code & c_mask)
+                    if (include && (code & c_mask))
                         continue;
                     break;
 
                 default:
                     assert(text_elem_size == KOS_STRING_ELEM_32);
                     code = *(const uint32_t *)location;
-                    if (code & c_mask)
+                    if (include && (code & c_mask))
                         continue;
                     break;
             }
-- 
2.43.0


From 40c7f8b97ee2c00dfa9bf717c6e9499afd5ecb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 17/68] fix: count negative position in rfind from the end of
 the string

---
 modules/kos_mod_base.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 417981c..dffe675 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4192,10 +4192,13 @@ static KOS_OBJ_ID find_dir(KOS_CONTEXT         ctx,
                           args_obj,
                           1,
                           reverse ? -1 : 0,
-                          reverse ? KOS_max((int)(this_len - KOS_get_string_length(pattern)), 0) : (int)this_len,
+                          (int)this_len,
                           reverse ? KOS_VOID_INDEX_IS_END : KOS_VOID_INDEX_IS_BEGIN,
                           &pos));
 
+    if (reverse)
+        pos = KOS_min(pos, KOS_max((int)(this_len - KOS_get_string_length(pattern)), 0));
+
     TRY(KOS_string_find(ctx, this_obj, pattern, reverse, &pos));
 
 cleanup:
-- 
2.43.0


From c38207b38d0fd74efa3fd9de50f22debefefafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:11 +0000
Subject: [PATCH 18/68] fix: don't truncate uppercase letters which don't fit
 in 8 bits

---
 core/kos_string.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 2e49508..3432ec4 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -1711,6 +1711,17 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     if (len == 0)
         return KOS_STR_EMPTY;
 
+    /* Some letters, e.g. 0xFF, have uppercase counterparts which don't fit in 8 bits */
+    if (elem_size == KOS_STRING_ELEM_8) {
+        const uint8_t *src = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
+
+        for (i = 0; i < len; i++)
+            if (kos_unicode_to_upper(src[i]) > 0xFFU) {
+                elem_size = KOS_STRING_ELEM_16;
+                break;
+            }
+    }
+
     KOS_init_local_with(ctx, &save_obj_id, obj_id);
 
     new_str = new_empty_string(ctx, len, (KOS_STRING_FLAGS)elem_size);
@@ -1720,12 +1731,22 @@ KOS_OBJ_ID KOS_string_uppercase(KOS_CONTEXT ctx, KOS_OBJ_ID obj_id)
     if ( ! new_str)
         return OBJID(STRING, new_str);
 
-    switch (elem_size & KOS_STRING_ELEM_MASK) {
+    switch (kos_get_string_elem_size(OBJPTR(STRING, obj_id))) {
 
         case KOS_STRING_ELEM_8: {
             const uint8_t *src  = (const uint8_t *)kos_get_string_buffer(OBJPTR(STRING, obj_id));
             uint8_t       *dest = (uint8_t *)kos_get_string_buffer(new_str);
 
+            if (elem_size == KOS_STRING_ELEM_16) {
+                uint16_t *dest16 = (uint16_t *)dest;
+
+                for (i = 0; i < len; i++) {
+                    const uint8_t c = *(src++);
+                    *(dest16++) = (uint16_t)kos_unicode_to_upper(c);
+                }
+                break;
+            }
+
             for (i = 0; i < len; i++) {
                 const uint8_t c = *(src++);
                 *(dest++) = (uint8_t)kos_unicode_to_upper(c);
-- 
2.43.0


From 9b0204e267e5f68c992e29e3584580cbe91f826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:41 +0000
Subject: [PATCH 19/68] fix: report slices of non-ASCII strings which are ASCII
 as ASCII

---
 modules/kos_mod_base.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index dffe675..f4b6ea1 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -4574,8 +4574,24 @@ static KOS_OBJ_ID get_string_ascii(KOS_CONTEXT ctx,
 {
     KOS_OBJ_ID ret;
 
-    if (GET_OBJ_TYPE(this_obj) == OBJ_STRING)
-        ret = KOS_BOOL(OBJPTR(STRING, this_obj)->header.flags & KOS_STRING_ASCII);
+    if (GET_OBJ_TYPE(this_obj) == OBJ_STRING) {
+        KOS_STRING_ITER iter;
+
+        ret = KOS_TRUE;
+
+        /* The ASCII flag may be missing, e.g. in a slice of a non-ASCII string */
+        if ( ! (OBJPTR(STRING, this_obj)->header.flags & KOS_STRING_ASCII)) {
+            KOS_init_string_iter(&iter, this_obj);
+
+            while ( ! KOS_is_string_iter_end(&iter)) {
+                if (KOS_string_iter_peek_next_code(&iter) > 0x7FU) {
+                    ret = KOS_FALSE;
+                    break;
+                }
+                KOS_string_iter_advance(&iter);
+            }
+        }
+    }
     else {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_string));
         ret = KOS_BADPTR;
-- 
2.43.0


From 8dc82ad49c073179f588a20c3ef132f58a18e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:20 +0000
Subject: [PATCH 20/68] fix: accept empty strings and buffers when the
 destination buffer is empty

---
 modules/kos_mod_base.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index f4b6ea1..d2742b4 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1480,6 +1480,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 if (size == ~0U)
                     RAISE_EXCEPTION_STR(str_err_invalid_string);
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -1495,6 +1498,9 @@ static KOS_OBJ_ID buffer_constructor(KOS_CONTEXT ctx,
                 const uint32_t size = KOS_get_buffer_size(arg.o);
                 uint8_t       *data;
 
+                if ( ! size)
+                    break;
+
                 TRY(KOS_buffer_resize(ctx, buffer.o, cur_size + size));
 
                 data = KOS_buffer_data_volatile(ctx, buffer.o);
@@ -3193,7 +3199,7 @@ static int pack_format(KOS_CONTEXT               ctx,
 
                 copy_size = size > str_buf.size-1 ? (uint32_t)str_buf.size-1 : size;
 
-                if (size == ~0U) {
+                if (size == ~0U && copy_size) {
                     dst = KOS_buffer_make_room(ctx, buffer.o, copy_size);
                     if ( ! dst)
                         RAISE_ERROR(KOS_ERROR_EXCEPTION);
-- 
2.43.0


From 0674e1d8d0dbc70d7551894d17b050232dd87e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:58 +0000
Subject: [PATCH 21/68] fix: don't overflow string created from buffer with
 longer than needed UTF-8 sequences

---
 core/kos_string.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/kos_string.c b/core/kos_string.c
index 3432ec4..1fbb22f 100644
--- a/core/kos_string.c
+++ b/core/kos_string.c
@@ -362,9 +362,12 @@ KOS_OBJ_ID KOS_new_string_from_buffer(KOS_CONTEXT ctx,
 
     switch (elem_size) {
         case KOS_STRING_ASCII:
-            memcpy(ptr, &OBJPTR(BUFFER_STORAGE, utf8_buf.o)->buf[begin], size);
-            break;
-
+            /* ASCII characters can also be encoded in longer UTF-8 sequences */
+            if (length == size) {
+                memcpy(ptr, &OBJPTR(BUFFER_STORAGE, utf8_buf.o)->buf[begin], size);
+                break;
+            }
+            /* fall through */
         case KOS_STRING_ELEM_8:
             KOS_utf8_decode_8((const char *)&OBJPTR(BUFFER_STORAGE, utf8_buf.o)->buf[begin],
                               size, KOS_UTF8_NO_ESCAPE, (uint8_t *)ptr);
-- 
2.43.0


From 47b60169b37d8a257905c24440ab024b79fc0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:58 +0000
Subject: [PATCH 22/68] fix: don't loop forever in raw lexer ignoring errors on
 invalid UTF-8 sequence

---
 doc/modules.md        | 3 ++-
 modules/kos_mod_kos.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/doc/modules.md b/doc/modules.md
index 822e4be..5d2199f 100644
--- a/doc/modules.md
+++ b/doc/modules.md
@@ -4087,7 +4087,8 @@ subsequently parsed for consecutive tokens.  The occurrence of EOL characters is
 to signify ends of lines.  Tokens cannot span across subsequent strings.
 
 `ignore_errors` is a boolean specifying whether any errors that occur should be ignored
-or not.  If `ignore_errors` is `true`, any invalid characters will be returned as whitespace.
+or not.  If `ignore_errors` is `true`, any invalid characters will be returned as whitespace,
+except for invalid UTF-8 sequences, which always trigger an exception.
 If `ignore_errors` is `false`, which is the default, lexing error will trigger an exception.
 
 See `lexer` for documentation of the generator's output.
diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index 7a29e0f..f75f46b 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -88,7 +88,8 @@ static const KOS_CONVERT raw_lexer_args[3] = {
  * to signify ends of lines.  Tokens cannot span across subsequent strings.
  *
  * `ignore_errors` is a boolean specifying whether any errors that occur should be ignored
- * or not.  If `ignore_errors` is `true`, any invalid characters will be returned as whitespace.
+ * or not.  If `ignore_errors` is `true`, any invalid characters will be returned as whitespace,
+ * except for invalid UTF-8 sequences, which always trigger an exception.
  * If `ignore_errors` is `false`, which is the default, lexing error will trigger an exception.
  *
  * See `lexer` for documentation of the generator's output.
@@ -288,7 +289,8 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
     }
 
     if (error) {
-        if (kos_lexer->ignore_errors) {
+        /* Lexer makes no progress on invalid UTF-8 sequences, so they cannot be ignored */
+        if (kos_lexer->ignore_errors && kos_lexer->token.length) {
 
             KOS_TOKEN *cur_token = &kos_lexer->token;
 
-- 
2.43.0


From 7f4f170abf022b8c7045487af56fcb4ac98f4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 23/68] fix: escape strings and handle any property names in
 json.dump

---
 modules/json.kos | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 0f3520e..f6b3f2b 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -2,7 +2,7 @@
 # Copyright (c) 2014-2023 Chris Dragan
 
 import kos
-import base: array, generator, join, number, string
+import base: array, generator, join, number, range, shallow, string
 
 const separator_map = {
     "{": void,
@@ -327,6 +327,45 @@ fun parse_array(json)
     lexer.drain_whitespace()
 }
 
+const dump_escapes = {
+    "\"": "\\\"",
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t"
+}
+
+for const code in range(0x20) {
+    const chr = string([code])
+    if ! (chr in dump_escapes) {
+        dump_escapes[chr] = "\\u00" + (code < 0x10 ? "0" : "1") + "0123456789abcdef"[code & 0xF]
+    }
+}
+
+const must_escape = string([range(0x20) ...], "\"\\")
+
+fun dump_string(text)
+{
+    var pos = text.scan(must_escape)
+
+    if pos < 0 {
+        return "\"\(text)\""
+    }
+
+    const parts = []
+    var   begin = 0
+
+    while pos >= 0 {
+        parts.push(text[begin : pos], dump_escapes[text[pos]])
+        begin = pos + 1
+        pos   = begin < text.size ? text.scan(must_escape, begin) : -1
+    }
+
+    parts.push(text[begin : ])
+
+    return "\"\( parts -> join("") )\""
+}
+
 /* @item json dump()
  *
  *     dump(object)
@@ -368,7 +407,7 @@ fun dump(object)
         }
 
         case "string" {
-            return "\"\(object)\""
+            return dump_string(object)
         }
 
         case "array" {
@@ -376,7 +415,7 @@ fun dump(object)
         }
 
         case "object" {
-            return "{\( object.map(kv => "\( dump(kv[0]) ):\( dump(kv[1]) )") -> join(",") )}"
+            return "{\( shallow(object).map(kv => "\( dump(kv[0]) ):\( dump(kv[1]) )") -> join(",") )}"
         }
 
         case "function" {
-- 
2.43.0


From 198a24870d5a0ead81de5e50010f8bdff6be2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 24/68] fix: process escapes and reject invalid strings,
 numbers and characters in json.parse

---
 modules/json.kos | 116 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 109 insertions(+), 7 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index f6b3f2b..2b7371f 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -33,8 +33,105 @@ fun bad_token(token, desc = void)
     throw "\(token.line):\(token.column): \(desc)"
 }
 
+const escapes = {
+    "\"": "\"",
+    "\\": "\\",
+    "/": "/",
+    "b": "\x08",
+    "f": "\f",
+    "n": "\n",
+    "r": "\r",
+    "t": "\t"
+}
+
+const control_chars = string([range(0x20) ...])
+const whitespace    = " \t\v\f\x{A0}\x{2028}\x{2029}\x{FEFF}"
+const hex_digits    = "0123456789ABCDEFabcdef"
+
+fun parse_unicode(text, pos)
+{
+    const end = pos + 4
+
+    if text[pos : pos + 1] != "u" || end >= text.size {
+        return -1
+    }
+
+    const digits = text[pos + 1 : end + 1]
+
+    return digits.scan(hex_digits, 0, false) < 0 ? number("0x" + digits) : -1
+}
+
+fun parse_string(token)
+{
+    const text = token.token[1 : -1]
+
+    # Reject raw strings and control characters
+    if token.token[0] != "\"" || text.scan(control_chars) >= 0 {
+        bad_token(token)
+    }
+
+    var pos = text.find("\\")
+
+    if pos < 0 {
+        return text
+    }
+
+    const parts = []
+    var   begin = 0
+
+    while pos >= 0 {
+        parts.push(text[begin : pos])
+        pos += 1
+
+        if text[pos] in escapes {
+            parts.push(escapes[text[pos]])
+            begin = pos + 1
+        }
+        else {
+            var code = parse_unicode(text, pos)
+
+            if code < 0 {
+                bad_token(token)
+            }
+
+            begin = pos + 5
+
+            # Combine surrogate pair
+            if code >= 0xD800 && code < 0xDC00 && text[begin : begin + 1] == "\\" {
+                const low = parse_unicode(text, begin + 1)
+                if low >= 0xDC00 && low < 0xE000 {
+                    code  = 0x10000 + ((code - 0xD800) << 10) + low - 0xDC00
+                    begin += 6
+                }
+            }
+
+            parts.push(string([code]))
+        }
+
+        pos = text.find("\\", begin)
+    }
+
+    parts.push(text[begin : ])
+
+    return string.apply(void, parts)
+}
+
+fun parse_number(token, minus)
+{
+    const text = token.token
+    const dot  = text.find(".")
+
+    # Reject Kos-specific number formats
+    if text.scan("_xXbBpP") >= 0 || (dot >= 0 && text.scan("0123456789", dot + 1) != dot + 1) {
+        bad_token(token)
+    }
+
+    return number(minus ? "-" + text : text)
+}
+
 fun tokenize(text)
 {
+    # Ignore errors, because the Kos lexer does not permit tabs
     const lexer = kos.raw_lexer(text, true)
 
     var had_minus = false
@@ -46,7 +143,15 @@ fun tokenize(text)
 
         switch token.type {
 
-            case kos.token_comment, kos.token_whitespace, kos.token_eol {
+            case kos.token_whitespace {
+                # Reject invalid characters, which are also returned as whitespace
+                if token.token.scan(whitespace, 0, false) >= 0 {
+                    bad_token(token)
+                }
+                continue
+            }
+
+            case kos.token_comment, kos.token_eol {
                 # Ignore whitespace
                 continue
             }
@@ -80,16 +185,13 @@ fun tokenize(text)
             }
 
             case kos.token_numeric {
-                token.value = number(token.token)
-                if had_minus {
-                    token.value = -token.value
-                    had_minus = false
-                }
+                token.value = parse_number(token, had_minus)
+                had_minus   = false
                 yield token
             }
 
             case kos.token_string {
-                token.value = string(token.token[1:-1])
+                token.value = parse_string(token)
                 yield token
             }
 
-- 
2.43.0


From 17b1ce108a37b19599825ef85d2410559889e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 25/68] fix: don't crash when comparing empty buffers

---
 core/kos_utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 765b4cd..20f758b 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1521,11 +1521,11 @@ static KOS_COMPARE_RESULT compare_buf(KOS_OBJ_ID a, KOS_OBJ_ID b)
     const uint32_t a_size   = KOS_get_buffer_size(a);
     const uint32_t b_size   = KOS_get_buffer_size(b);
     const uint32_t cmp_size = KOS_min(a_size, b_size);
-    const int      min_cmp  = memcmp(KOS_buffer_data_const(a),
-                                     KOS_buffer_data_const(b),
-                                     cmp_size);
 
-    const int cmp = cmp_size ? min_cmp : 0;
+    /* Empty buffers may have no storage */
+    const int cmp = cmp_size ? memcmp(KOS_buffer_data_const(a),
+                                      KOS_buffer_data_const(b),
+                                      cmp_size) : 0;
 
     if (cmp)
         return cmp > 0 ? KOS_GREATER_THAN : KOS_LESS_THAN;
-- 
2.43.0


From c587e623bf050c03cde4314dfcfa4b1003204a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:34 +0000
Subject: [PATCH 26/68] fix: don't crash when lexing an empty buffer

---
 modules/kos_mod_kos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_kos.c b/modules/kos_mod_kos.c
index f75f46b..b32e8c6 100644
--- a/modules/kos_mod_kos.c
+++ b/modules/kos_mod_kos.c
@@ -179,7 +179,8 @@ static KOS_OBJ_ID raw_lexer(KOS_CONTEXT ctx,
         switch (GET_OBJ_TYPE(init.o)) {
 
             case OBJ_BUFFER:
-                memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
+                if (buf_size)
+                    memcpy(&kos_lexer->buf[0], KOS_buffer_data_const(init.o), buf_size);
                 kos_lexer->from_generator = 0;
                 break;
 
-- 
2.43.0


From c662a1350bbf7f82b5ace828ef18568eac71f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:27 +0000
Subject: [PATCH 27/68] fix: reject truncated arrays in json.parse_array

---
 modules/json.kos | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/json.kos b/modules/json.kos
index 2b7371f..34d8514 100644
--- a/modules/json.kos
+++ b/modules/json.kos
@@ -220,12 +220,16 @@ class json_lexer {
             return peeked
         }
 
-        return this.lexer()
+        for const token in this.lexer {
+            return token
+        }
+
+        throw "unexpected end of JSON text"
     }
 
     fun peek {
         if ! this.peeked {
-            this.peeked = this.lexer()
+            this.peeked = this.next()
         }
 
         return this.peeked
-- 
2.43.0


From eb2facef0e43f9c643ce25cdbb7a3c4b28b15f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 28/68] fix: don't overwrite variable before the value assigned
 to it is computed

---
 core/kos_compiler.c | 58 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 21a522c..4fad5df 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -5196,6 +5196,62 @@ cleanup:
     return error;
 }
 
+/* Checks if the destination register is only written after the entire
+ * expression has been evaluated successfully.  If it is not, then code inside
+ * the expression or an exception handler could see an intermediate value
+ * in the variable being assigned. */
+static int writes_dest_last(const KOS_AST_NODE *node)
+{
+    const KOS_AST_NODE *child = node->children;
+
+    switch (node->type) {
+
+        case NT_ARRAY_LITERAL:
+            return ! child;
+
+        case NT_OBJECT_LITERAL:
+            return ! child;
+
+        case NT_CLASS_LITERAL:
+            /* fall through */
+        case NT_YIELD:
+            /* fall through */
+        case NT_ASYNC:
+            return 0;
+
+        case NT_FUNCTION_LITERAL:
+            assert(child);
+            assert(child->next);
+            for (child = child->next->children; child; child = child->next)
+                if (child->type == NT_ASSIGNMENT)
+                    return 0; /* default argument values */
+            return 1;
+
+        case NT_INTERPOLATED_STRING:
+            return count_contig_arg_siblings(child) <= MAX_CONTIG_REGS;
+
+        case NT_INVOCATION:
+            assert(child);
+            if (child->type == NT_SUPER_CTOR_LITERAL)
+                return 0;
+            child = child->next;
+            if (child && child->type == NT_NAMED_ARGUMENTS)
+                return 0;
+            return count_contig_arg_siblings(child) <= MAX_CONTIG_REGS;
+
+        case NT_OPERATOR:
+            assert(child);
+            if (node->token.op == OT_LOGTRI)
+                return writes_dest_last(child->next) && writes_dest_last(child->next->next);
+            if ( ! child->next && (node->token.op == OT_ADD || node->token.op == OT_SUB))
+                return child->type == NT_IDENTIFIER || child->type == NT_NUMERIC_LITERAL;
+            return writes_dest_last(child);
+
+        default:
+            return 1;
+    }
+}
+
 static int assignment(KOS_COMP_UNIT      *program,
                       const KOS_AST_NODE *assg_node)
 {
@@ -5245,7 +5301,7 @@ static int assignment(KOS_COMP_UNIT      *program,
         if (node->type == NT_IDENTIFIER)
             TRY(lookup_local_var_even_inactive(program, node, is_lhs, &reg));
 
-        if (reg && assg_node->token.op == OT_SET)
+        if (reg && assg_node->token.op == OT_SET && ( ! is_lhs || writes_dest_last(rhs_node)))
             rhs = reg;
     }
 
-- 
2.43.0


From 5d385b31d5d9f3bb49e812778095c8820cdc19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 29/68] fix: print big floating-point numbers with exponent
 instead of losing digits

---
 core/kos_misc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 02c8569..e2dedda 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -559,11 +559,18 @@ unsigned kos_print_float(char *buf, unsigned size, double value)
         }
     }
     else {
-        const int len = snprintf(buf, size, "%.15f", value);
+        int len = snprintf(buf, size, "%.15f", value);
 
         if (len < 0)
             return 0U;
 
+        /* Use exponent if the integer part of the number does not fit */
+        if ((unsigned)len >= size && ! memchr(buf, '.', size - 1)) {
+            len = snprintf(buf, size, "%.17g", value);
+
+            return ((len < 0) || ((unsigned)len >= size)) ? 0U : (unsigned)len;
+        }
+
         for (end = buf + KOS_min((unsigned)len, size - 1) - 1; end > buf && *end == '0'; --end);
         if (*end == '.')
             ++end;
-- 
2.43.0


From 631ebce0aa3321c5acdf2e094df9318090372a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:51 +0000
Subject: [PATCH 30/68] fix: handle numbers which round up to the next exponent
 at the limits of the exponent range

---
 core/kos_misc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index e2dedda..bf5a3ef 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -477,6 +477,12 @@ int kos_parse_double(const char *begin,
             mantissa >>= 1;
             ++exponent;
         }
+        /* Denormalized number became a normal number after carry */
+        else if ((exponent == -0x3FF) && (mantissa >> 52))
+            ++exponent;
+
+        if (exponent > 0x3FF)
+            RAISE_ERROR(KOS_ERROR_NUMBER_TOO_BIG);
     }
 
     {
-- 
2.43.0


From 67d8a609e930ffa5a3a36b43ce1fa149253f2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:01 +0000
Subject: [PATCH 31/68] fix: reject numbers with two decimal points before the
 first digit

---
 core/kos_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index bf5a3ef..28ec9d6 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -297,6 +297,8 @@ int kos_parse_double(const char *begin,
         }
 
         if (c == '.') {
+            if (dot_pos != -1)
+                RAISE_ERROR(KOS_ERROR_INVALID_NUMBER);
             dot_pos = 0;
             continue;
         }
-- 
2.43.0


From 103e5512f50ace744d256afd937a0fe5e9a34e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 32/68] fix: reject buffer capacity which overflows when
 rounded up

---
 core/kos_buffer.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/kos_buffer.c b/core/kos_buffer.c
index 6ce33da..c516372 100644
--- a/core/kos_buffer.c
+++ b/core/kos_buffer.c
@@ -17,6 +17,9 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_make_room_size,   "buffer size limit exc
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_buffer,       "object is not a buffer");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_read_only,        "buffer is read-only");
 
+/* Leave room for the header and alignment of the storage */
+#define MAX_BUFFER_CAPACITY 0xFFFF0000U
+
 #define KOS_buffer_alloc_size(cap) (sizeof(KOS_BUFFER_STORAGE) + ((cap) - 1U))
 
 static KOS_BUFFER_STORAGE *alloc_buffer(KOS_CONTEXT ctx, unsigned capacity)
@@ -77,6 +80,11 @@ KOS_OBJ_ID KOS_new_buffer(KOS_CONTEXT ctx,
     const unsigned capacity = (size + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
     KOS_LOCAL      obj;
 
+    if (size > MAX_BUFFER_CAPACITY) {
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_make_room_size));
+        return KOS_BADPTR;
+    }
+
     KOS_init_local_with(ctx, &obj, OBJID(BUFFER, (KOS_BUFFER *)
                 kos_alloc_object(ctx,
                                  KOS_ALLOC_MOVABLE,
@@ -171,15 +179,17 @@ int KOS_buffer_reserve(KOS_CONTEXT ctx,
     KOS_init_local_with(ctx, &obj, obj_id);
     KOS_init_local(ctx, &old_buf);
 
-    new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
-
     if (GET_OBJ_TYPE(obj.o) != OBJ_BUFFER)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_not_buffer));
     else if (KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER, obj.o)->flags) & KOS_READ_ONLY)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_read_only));
     else if (KOS_atomic_read_relaxed_u32(OBJPTR(BUFFER, obj.o)->flags) & KOS_EXTERNAL_STORAGE)
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_external_storage));
+    else if (new_capacity > MAX_BUFFER_CAPACITY)
+        KOS_raise_exception(ctx, KOS_CONST_ID(str_err_make_room_size));
     else {
+        new_capacity = (new_capacity + (KOS_BUFFER_CAPACITY_ALIGN-1)) & ~(KOS_BUFFER_CAPACITY_ALIGN-1);
+
         for (;;) {
             uint32_t capacity;
 
-- 
2.43.0


From 9c60551431f8f3bd36244e68c572d1f41d1c4d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 33/68] fix: don't overflow size multiplied by count in buffer
 pack and unpack

---
 modules/kos_mod_base.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index d2742b4..341cc3e 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2995,6 +2995,12 @@ static int pack_format(KOS_CONTEXT               ctx,
     assert(size != ~0U || value_fmt == 's');
 
     if (size != ~0U && size && count) {
+        if (count > ~0U / size) {
+            KOS_raise_printf(ctx, "invalid count %u for '%c%u' at position %u",
+                             count, (char)value_fmt, size, fmt_offs + 1);
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+        }
+
         dst = KOS_buffer_make_room(ctx, buffer.o, size * count);
         if ( ! dst)
             RAISE_ERROR(KOS_ERROR_EXCEPTION);
@@ -3022,7 +3028,7 @@ static int pack_format(KOS_CONTEXT               ctx,
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
 
-            if ((unsigned)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
+            if ((uint64_t)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
                 KOS_raise_printf(ctx,
                     "not enough values to pack '%c%u' count %u at position %u; input has %u elements but required %u",
                     (char)value_fmt, size, count, fmt_offs + 1,
@@ -3066,7 +3072,7 @@ static int pack_format(KOS_CONTEXT               ctx,
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
 
-            if ((unsigned)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
+            if ((uint64_t)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
                 KOS_raise_printf(ctx,
                     "not enough values to pack '%c%u' count %u at position %u; input has %u elements but required %u",
                     (char)value_fmt, size, count, fmt_offs + 1,
@@ -3122,7 +3128,7 @@ static int pack_format(KOS_CONTEXT               ctx,
         case 'b': {
 
             assert(size != ~0U);
-            if ((unsigned)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
+            if ((uint64_t)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
                 KOS_raise_printf(ctx,
                     "not enough values to pack '%c%u' count %u at position %u; input has %u elements but required %u",
                     (char)value_fmt, size, count, fmt_offs + 1,
@@ -3174,7 +3180,7 @@ static int pack_format(KOS_CONTEXT               ctx,
 
             assert(value_fmt == 's');
 
-            if ((unsigned)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
+            if ((uint64_t)fmt->idx + count > KOS_get_array_size(fmt->data.o)) {
                 KOS_raise_printf(ctx,
                     "not enough values to pack '%c%u' count %u at position %u; input has %u elements but required %u",
                     (char)value_fmt, size, count, fmt_offs + 1,
@@ -3257,11 +3263,11 @@ static int unpack_format(KOS_CONTEXT               ctx,
         size = data_size - fmt->idx;
     }
 
-    if (fmt->idx + size * count > data_size) {
+    if (size && count > (data_size - (unsigned)fmt->idx) / size) {
         KOS_raise_printf(ctx,
             "buffer with size %u too short to unpack data for format character "
-            "'%c%u' at position %u, need size to be at least %u",
-            data_size, (char)value_fmt, size, fmt_offs + 1, fmt->idx + size * count);
+            "'%c%u' count %u at position %u",
+            data_size, (char)value_fmt, size, count, fmt_offs + 1);
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
-- 
2.43.0


From 46d603874d1b425e7f1cfc5e1d23875b161f15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:17 +0000
Subject: [PATCH 34/68] fix: insert buffer into itself and past the end
 correctly

---
 modules/base.kos | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index 991c4c2..15517ca 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -462,6 +462,9 @@ buffer.prototype.insert = fun(begin, iterable, args...)
     if begin < 0 {
         begin = 0
     }
+    if begin > size {
+        begin = size
+    }
     if end > size {
         end = size
     }
@@ -472,6 +475,9 @@ buffer.prototype.insert = fun(begin, iterable, args...)
     if typeof iterable != "buffer" {
         iterable = buffer(typeof iterable == "string" ? iterable : iterable.iterator())
     }
+    else if iterable == this {
+        iterable = this[:]
+    }
 
     const new_size = this.size + iterable.size + begin - end
     if new_size > size {
-- 
2.43.0


From 5e08f08272ef70b8765c3dcff7b7921de5d6b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 35/68] fix: don't wrap source index when array is replaced
 with its own shorter part

---
 core/kos_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_array.c b/core/kos_array.c
index 2a46fa2..58a1665 100644
--- a/core/kos_array.c
+++ b/core/kos_array.c
@@ -670,7 +670,7 @@ int KOS_array_insert(KOS_CONTEXT ctx,
                                 (unsigned)(dest_len - dest_end));
 
         if (src.o == dest.o && src_begin >= dest_end)
-            src_begin += src_delta - dest_delta;
+            src_begin += (int64_t)src_delta - (int64_t)dest_delta;
 
         if (src_delta)
             kos_atomic_move_ptr((KOS_ATOMIC(void *) *)&dest_buf->buf[dest_begin],
-- 
2.43.0


From fca3b5d14d7a6aa472aec5135a0d90fa1bffc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:48 +0000
Subject: [PATCH 36/68] fix: let sort key function resize the array being
 sorted

---
 modules/kos_mod_base.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 341cc3e..9b9097c 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2203,19 +2203,28 @@ static KOS_OBJ_ID expand_for_sort(KOS_CONTEXT ctx,
             KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest + 1], TO_SMALL_INT(i));
         }
         else {
+            KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest + 1], TO_SMALL_INT(i));
+            KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest + 2], val.o);
+        }
+
+        ++i;
+        i_dest += step;
+    }
+
+    /* The key function can modify the array being sorted, so it is only called
+     * after all elements have been retrieved. */
+    if (key_func.o != KOS_VOID) {
+        for (i = 0, i_dest = 0; i < size; ++i, i_dest += step) {
             KOS_OBJ_ID key;
 
+            val.o = KOS_atomic_read_relaxed_obj(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest + 2]);
+
             TRY(KOS_array_write(ctx, key_args.o, 0, val.o));
             key = KOS_call_function(ctx, key_func.o, KOS_VOID, key_args.o);
             TRY_OBJID(key);
 
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest],     key);
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest + 1], TO_SMALL_INT(i));
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest + 2], val.o);
+            KOS_atomic_write_relaxed_ptr(OBJPTR(ARRAY_STORAGE, dest.o)->buf[i_dest], key);
         }
-
-        ++i;
-        i_dest += step;
     }
 
 cleanup:
@@ -2321,17 +2330,20 @@ static void copy_sort_results(KOS_CONTEXT ctx,
     KOS_ATOMIC(KOS_OBJ_ID) *src;
     KOS_ATOMIC(KOS_OBJ_ID) *src_end;
     KOS_ATOMIC(KOS_OBJ_ID) *dest;
+    const uint32_t          ret_size = KOS_get_array_size(ret);
 
     assert(GET_OBJ_TYPE(ret) == OBJ_ARRAY);
     assert(GET_OBJ_TYPE(sorted) == OBJ_ARRAY);
     assert(step == 2 || step == 3);
 
+    /* The array could have been resized by the key function */
+    if ( ! ret_size)
+        return;
+
     src     = kos_get_array_buffer(OBJPTR(ARRAY, sorted));
-    src_end = src + KOS_get_array_size(sorted);
+    src_end = src + KOS_min(KOS_get_array_size(sorted), ret_size * step);
     dest    = kos_get_array_buffer(OBJPTR(ARRAY, ret));
 
-    assert(KOS_get_array_size(ret) * step == KOS_get_array_size(sorted));
-
     if (step == 3)
         src += 2;
 
-- 
2.43.0


From 46ed7fb0c783fb4756275c96be24c49148bb7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 37/68] fix: limit stack usage when sorting long arrays

---
 modules/kos_mod_base.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 9b9097c..d4e4d71 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -2254,10 +2254,10 @@ static int is_less_for_sort(KOS_OBJ_ID         left_key,
         return (intptr_t)left_idx > (intptr_t)right_idx;
 }
 
-static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
-                       KOS_ATOMIC(KOS_OBJ_ID) *end,
-                       int                     step,
-                       int                     reverse)
+static KOS_ATOMIC(KOS_OBJ_ID) *partition_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
+                                               KOS_ATOMIC(KOS_OBJ_ID) *end,
+                                               int                     step,
+                                               int                     reverse)
 {
     const KOS_OBJ_ID pivot_key = KOS_atomic_read_relaxed_obj(*(end - step));
     const KOS_OBJ_ID pivot_idx = KOS_atomic_read_relaxed_obj(*(end - step + 1));
@@ -2316,10 +2316,27 @@ static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
         }
     }
 
-    if (begin + step < mid)
-        sort_range(begin, mid, step, reverse);
-    if (mid + step < end)
-        sort_range(mid + step, end + step, step, reverse);
+    return mid;
+}
+
+static void sort_range(KOS_ATOMIC(KOS_OBJ_ID) *begin,
+                       KOS_ATOMIC(KOS_OBJ_ID) *end,
+                       int                     step,
+                       int                     reverse)
+{
+    while (begin + step < end) {
+        KOS_ATOMIC(KOS_OBJ_ID) *mid = partition_range(begin, end, step, reverse);
+
+        /* Only recurse into the shorter part to limit stack usage */
+        if (mid - begin < end - mid) {
+            sort_range(begin, mid, step, reverse);
+            begin = mid + step;
+        }
+        else {
+            sort_range(mid + step, end, step, reverse);
+            end = mid;
+        }
+    }
 }
 
 static void copy_sort_results(KOS_CONTEXT ctx,
-- 
2.43.0


From 548f803bc2f1b7ded149c1795ea70ffde5b5d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:07 +0000
Subject: [PATCH 38/68] fix: don't pack uninitialized bytes when packing empty
 buffer into itself

---
 modules/kos_mod_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index d4e4d71..33cee81 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -3189,7 +3189,7 @@ static int pack_format(KOS_CONTEXT               ctx,
                 if (copy_size) {
                     const uint8_t *const src_end = src + copy_size;
 
-                    if (src_end > dst && src < dst)
+                    if (src_end > dst && src <= dst)
                         copy_size = (uint32_t)(dst - src);
 
                     memcpy(dst, src, copy_size);
-- 
2.43.0


From ac861f2fdd61cd00129ac068399888d3e55350f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:44 +0000
Subject: [PATCH 39/68] fix: don't sort read-only arrays

---
 modules/kos_mod_base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 33cee81..7f0bd70 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -46,6 +46,7 @@ KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_string,           "invalid strin
 KOS_DECLARE_STATIC_CONST_STRING(str_err_invalid_string_idx,       "string index is out of range");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_join_self,                "thread cannot join itself");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_array,                "object is not an array");
+KOS_DECLARE_STATIC_CONST_STRING(str_err_read_only,                "array is read-only");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_boolean,              "object is not a boolean");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_buffer,               "object is not a buffer");
 KOS_DECLARE_STATIC_CONST_STRING(str_err_not_class,                "object is not a class");
@@ -2425,6 +2426,9 @@ static KOS_OBJ_ID sort(KOS_CONTEXT ctx,
     if (GET_OBJ_TYPE(this_obj) != OBJ_ARRAY)
         RAISE_EXCEPTION_STR(str_err_not_array);
 
+    if (KOS_atomic_read_relaxed_u32(OBJPTR(ARRAY, this_obj)->flags) & KOS_READ_ONLY)
+        RAISE_EXCEPTION_STR(str_err_read_only);
+
     key = KOS_array_read(ctx, args_obj, 0);
     TRY_OBJID(key);
 
-- 
2.43.0


From bcc392da33974e36be6e51207c3ebf36a8841104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 40/68] fix: reject day 31 in 30-day months and day after end
 of February

---
 modules/datetime.kos | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datetime.kos b/modules/datetime.kos
index 9b1275d..801bfd9 100644
--- a/modules/datetime.kos
+++ b/modules/datetime.kos
@@ -195,7 +195,7 @@ public class datetime
             const first_days = (leap ? first_day_leap : first_day)
             timestamp += first_days[month - 1]
 
-            date_check("day", day, 1, first_days[month] - first_days[month - 1] + 1)
+            date_check("day", day, 1, first_days[month] - first_days[month - 1])
 
             timestamp += day - 1
 
-- 
2.43.0


From 7e388f1490785627918ff2368097805a8f9e6934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:42 +0000
Subject: [PATCH 41/68] fix: terminate range when integer overflows past stop

---
 modules/base.kos | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/base.kos b/modules/base.kos
index 15517ca..aabb882 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -61,13 +61,21 @@ public fun range(start, args...)
     if step > 0 {
         while start < stop {
             yield start
+            const prev = start
             start += step
+            if start < prev { // integer overflow
+                break
+            }
         }
     }
     else if step < 0 {
         while start > stop {
             yield start
+            const prev = start
             start += step
+            if start > prev { // integer overflow
+                break
+            }
         }
     }
 }
-- 
2.43.0


From 80187d3f4566ff6b4af2930ce38afdb623e2b3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:08 +0000
Subject: [PATCH 42/68] fix: repeat, reverse and join elements of any iterable
 object

---
 modules/base.kos | 2 +-
 modules/iter.kos | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/base.kos b/modules/base.kos
index aabb882..929065d 100644
--- a/modules/base.kos
+++ b/modules/base.kos
@@ -2117,7 +2117,7 @@ public fun join(sep, args...)
     fun join(to_join)
     {
         if typeof to_join != "array" {
-            to_join = [ to_join ... ]
+            to_join = [ to_join.iterator() ... ]
         }
 
         const num_in = to_join.size
diff --git a/modules/iter.kos b/modules/iter.kos
index da9167d..9bec40d 100644
--- a/modules/iter.kos
+++ b/modules/iter.kos
@@ -100,7 +100,7 @@ public fun repeats(count, iterable...)
             }
 
             default {
-                iterable = [ iterable ... ]
+                iterable = [ iterable.iterator() ... ]
             }
         }
 
@@ -310,7 +310,7 @@ public fun reverse(iterable)
 
     fun reverse(iterable)
     {
-        const copy = [ iterable ... ]
+        const copy = [ iterable.iterator() ... ]
         while copy.size {
             yield copy.pop()
         }
-- 
2.43.0


From c4310b945c7b46f923291df2ccd238c78f6b1ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:17 +0000
Subject: [PATCH 43/68] fix: refuse escaped NUL character in regular
 expressions

---
 modules/kos_mod_re.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index e0a5e5a..4342bb2 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -489,7 +489,7 @@ static int parse_class_char_escape_seq(struct RE_PARSE_CTX *re_ctx, uint32_t *ou
             break;
 
         default: {
-            const char *const found_esc = (code < 0x7F) ? strchr(esc_whitespace, (char)code) : KOS_NULL;
+            const char *const found_esc = (code && (code < 0x7F)) ? strchr(esc_whitespace, (char)code) : KOS_NULL;
 
             if (found_esc) {
                 *out_code = 9 + (uint32_t)(found_esc - esc_whitespace);
@@ -870,7 +870,7 @@ static int parse_escape_seq(struct RE_PARSE_CTX *re_ctx)
         }
 
         default: {
-            const char *const found_esc = (code < 0x7F) ? strchr(esc_whitespace, (char)code) : KOS_NULL;
+            const char *const found_esc = (code && (code < 0x7F)) ? strchr(esc_whitespace, (char)code) : KOS_NULL;
 
             if (found_esc) {
                 const uint32_t actual_code = 9 + (uint32_t)(found_esc - esc_whitespace);
-- 
2.43.0


From b2f9575d12a912269637fa62487b16bd7c264e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:17 +0000
Subject: [PATCH 44/68] fix: keep wider range when merging ranges in a regular
 expression class

---
 modules/kos_mod_re.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index 4342bb2..eb535cd 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -626,8 +626,11 @@ static int add_class_range(struct RE_PARSE_CTX *re_ctx,
 
     assert(begin_code <= range[begin].begin_code);
 
-    if (begin && (begin_code <= range[begin - 1].end_code + 1))
-        range[--begin].end_code = end_code;
+    if (begin && (begin_code <= range[begin - 1].end_code + 1)) {
+        --begin;
+        if (end_code > range[begin].end_code)
+            range[begin].end_code = end_code;
+    }
 
     for ( ; end < desc->num_ranges; ++end)
         if (end_code + 1 < range[end].begin_code)
-- 
2.43.0


From a54ed3a2ffb2121809c731a71343dc1071a35b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:17 +0000
Subject: [PATCH 45/68] fix: report regular expression groups which end at
 position 65535

---
 modules/kos_mod_re.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index eb535cd..ba7726f 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1437,14 +1437,19 @@ static int reset_possibility_stack(struct RE_POSS_STACK *poss_stack,
     memset(poss_stack->current, 0, item_size - group_size);
 
     if (group_size) {
-        memset(&poss_stack->current->counts_and_groups[re->num_counts], 0xFFU, group_size);
+        unsigned i;
+
+        for (i = 0; i < re->num_groups * 2U; i += 2) {
+            poss_stack->current->counts_and_groups[re->num_counts + i]     = 0xFFFFU;
+            poss_stack->current->counts_and_groups[re->num_counts + i + 1] = 0U;
+        }
 
         if (re->num_counts) {
             assert(poss_stack->current->counts_and_groups[0] == 0);
             assert(poss_stack->current->counts_and_groups[re->num_counts - 1] == 0);
         }
         assert(poss_stack->current->counts_and_groups[re->num_counts] == 0xFFFFU);
-        assert(poss_stack->current->counts_and_groups[re->num_counts + re->num_groups * 2 - 1] == 0xFFFFU);
+        assert(poss_stack->current->counts_and_groups[re->num_counts + re->num_groups * 2 - 1] == 0U);
     }
 
     return KOS_SUCCESS;
@@ -1566,7 +1571,8 @@ static int create_found_groups(KOS_CONTEXT                      ctx,
 
         group.o = KOS_VOID;
 
-        if ((begin != 0xFFFFU) && (end != 0xFFFFU)) {
+        /* Initially begin is greater than end for groups which didn't match anything */
+        if (begin <= end) {
 
             KOS_OBJ_ID match_obj;
 
-- 
2.43.0


From 689bd2d64221d1b8118e0392240b7ccb09ad3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:26 +0000
Subject: [PATCH 46/68] fix: do not repeat empty iterations in regular
 expressions

---
 modules/kos_mod_re.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_re.c b/modules/kos_mod_re.c
index ba7726f..0860386 100644
--- a/modules/kos_mod_re.c
+++ b/modules/kos_mod_re.c
@@ -1346,7 +1346,8 @@ static int parse_re(KOS_CONTEXT ctx, KOS_OBJ_ID regex_str, KOS_OBJ_ID regex)
     re->class_descs   = KOS_NULL;
     re->class_data    = KOS_NULL;
     re->num_groups    = (uint16_t)re_ctx.num_groups;
-    re->num_counts    = (uint16_t)re_ctx.num_counts;
+    /* Iteration counts are followed by positions at which the iterations began */
+    re->num_counts    = (uint16_t)(re_ctx.num_counts * 2);
     re->num_classes   = (class_descs_size && class_data_size) ? (uint16_t)(class_descs_size / sizeof(struct RE_CLASS_DESC)) : 0;
     re->bytecode_size = (uint16_t)(re_ctx.buf.size / sizeof(uint16_t));
     memcpy(re->bytecode, re_ctx.buf.buffer, re_ctx.buf.size);
@@ -1614,6 +1615,18 @@ static uint16_t *get_group(struct RE_POSS_STACK *poss_stack, uint16_t num_counts
     return &poss_stack->current->counts_and_groups[num_counts + group_id * 2];
 }
 
+/* An iteration which did not consume any characters is never repeated beyond
+ * the minimum count, because it would only be repeated at the same position. */
+static int is_empty_iteration(struct RE_POSS_STACK *poss_stack, uint16_t num_counts, uint16_t count_id, uint16_t pos)
+{
+    uint16_t *const begin_pos = &poss_stack->current->counts_and_groups[count_id + num_counts / 2];
+    const int       empty     = *begin_pos == pos;
+
+    *begin_pos = pos;
+
+    return empty;
+}
+
 static int is_word_char(uint32_t code)
 {
     return ((code >= 'A') && (code <= 'Z')) ||
@@ -1825,6 +1838,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 assert(delta);
 
                 poss_stack->current->counts_and_groups[count_id] = 0;
+                poss_stack->current->counts_and_groups[count_id + re->num_counts / 2] = get_iter_pos(str.o, &iter);
 
                 if (min_count == 0)
                     TRY(push_possibility(poss_stack, ctx, re, bytecode + delta, &iter));
@@ -1841,6 +1855,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 assert(delta);
 
                 poss_stack->current->counts_and_groups[count_id] = 0;
+                poss_stack->current->counts_and_groups[count_id + re->num_counts / 2] = get_iter_pos(str.o, &iter);
 
                 if (min_count)
                     bytecode += 4;
@@ -1858,6 +1873,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t min_count = bytecode[3];
                 const uint16_t max_count = bytecode[4];
                 unsigned       count;
+                int            empty;
 
                 assert(delta);
                 assert(poss_stack->current);
@@ -1866,10 +1882,11 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                     RAISE_ERROR(KOS_ERROR_INTERNAL);
 
                 count = ++poss_stack->current->counts_and_groups[count_id];
+                empty = is_empty_iteration(poss_stack, re->num_counts, count_id, get_iter_pos(str.o, &iter));
 
                 if (count < min_count)
                     bytecode += delta;
-                else if (count < max_count) {
+                else if ((count < max_count) && ! empty) {
                     TRY(push_possibility(poss_stack, ctx, re, bytecode + 5, &iter));
                     bytecode += delta;
                 }
@@ -1885,6 +1902,7 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                 const uint16_t min_count = bytecode[3];
                 const uint16_t max_count = bytecode[4];
                 unsigned       count;
+                int            empty;
 
                 assert(delta);
                 assert(poss_stack->current);
@@ -1893,11 +1911,12 @@ static KOS_OBJ_ID match_string(KOS_CONTEXT           ctx,
                     RAISE_ERROR(KOS_ERROR_INTERNAL);
 
                 count = ++poss_stack->current->counts_and_groups[count_id];
+                empty = is_empty_iteration(poss_stack, re->num_counts, count_id, get_iter_pos(str.o, &iter));
 
                 if (count < min_count)
                     bytecode += delta;
                 else {
-                    if (count < max_count)
+                    if ((count < max_count) && ! empty)
                         TRY(push_possibility(poss_stack, ctx, re, bytecode + delta, &iter));
                     bytecode += 5;
                 }
-- 
2.43.0


From ca366502df5f438f19c588f64cc41401a0bc1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:17 +0000
Subject: [PATCH 47/68] fix: keep printed array alive across allocations in
 KOS_print_to_cstr_vec

---
 core/kos_utils.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/core/kos_utils.c b/core/kos_utils.c
index 20f758b..50d59b4 100644
--- a/core/kos_utils.c
+++ b/core/kos_utils.c
@@ -1273,32 +1273,35 @@ KOS_OBJ_ID KOS_object_to_string(KOS_CONTEXT ctx,
 }
 
 int KOS_print_to_cstr_vec(KOS_CONTEXT   ctx,
-                          KOS_OBJ_ID    array,
+                          KOS_OBJ_ID    array_obj,
                           KOS_QUOTE_STR quote_str,
                           KOS_VECTOR   *cstr_vec,
                           const char   *sep,
                           unsigned      sep_len)
 {
-    int      error = KOS_SUCCESS;
-    uint32_t len;
-    uint32_t i;
-    uint32_t first_sep_i;
+    int       error = KOS_SUCCESS;
+    uint32_t  len;
+    uint32_t  i;
+    uint32_t  first_sep_i;
+    KOS_LOCAL array;
 
     assert(cstr_vec);
-    assert(GET_OBJ_TYPE(array) == OBJ_ARRAY);
+    assert(GET_OBJ_TYPE(array_obj) == OBJ_ARRAY);
 
-    if (GET_OBJ_TYPE(array) != OBJ_ARRAY)
+    KOS_init_local_with(ctx, &array, array_obj);
+
+    if (GET_OBJ_TYPE(array.o) != OBJ_ARRAY)
         RAISE_EXCEPTION_STR(str_err_not_array);
 
     first_sep_i = cstr_vec->size ? 0U : 1U;
 
-    len = KOS_get_array_size(array);
+    len = KOS_get_array_size(array.o);
 
     if (len)
         TRY(KOS_vector_reserve(cstr_vec, cstr_vec->size + 128U));
 
     for (i = 0; i < len; i++) {
-        KOS_OBJ_ID obj = KOS_array_read(ctx, array, (int)i);
+        KOS_OBJ_ID obj = KOS_array_read(ctx, array.o, (int)i);
         TRY_OBJID(obj);
 
         if (i >= first_sep_i && sep_len) {
@@ -1311,6 +1314,8 @@ int KOS_print_to_cstr_vec(KOS_CONTEXT   ctx,
     }
 
 cleanup:
+    KOS_destroy_top_local(ctx, &array);
+
     if (error == KOS_ERROR_OUT_OF_MEMORY) {
         KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
         error = KOS_ERROR_EXCEPTION;
-- 
2.43.0


From 564d69ad48e4d63360d841acd6b95dee774c87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 48/68] fix: do not hide inherited properties behind deleted
 ones in deep()

---
 core/kos_object.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/core/kos_object.c b/core/kos_object.c
index 2820468..fba7890 100644
--- a/core/kos_object.c
+++ b/core/kos_object.c
@@ -1182,10 +1182,6 @@ int kos_object_walk(KOS_CONTEXT ctx,
                 continue;
 
             KOS_clear_exception(ctx);
-
-            error = KOS_set_property(ctx, returned_keys.o, key.o, KOS_VOID);
-            if (error)
-                break;
         }
 
         value = KOS_atomic_read_acquire_obj(OBJPTR(OBJECT_STORAGE, table.o)->items[index].value);
@@ -1195,23 +1191,23 @@ int kos_object_walk(KOS_CONTEXT ctx,
         if (value == TOMBSTONE)
             continue;
 
-        if ((value != CLOSED) && (value != RESERVED)) {
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_key,   key.o);
-            KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value);
-            error = KOS_SUCCESS;
-            break;
-        }
-
-        value = KOS_get_property_shallow(ctx, OBJPTR(ITERATOR, walk.o)->prop_obj, key.o);
+        if ((value == CLOSED) || (value == RESERVED)) {
+            value = KOS_get_property_shallow(ctx, OBJPTR(ITERATOR, walk.o)->prop_obj, key.o);
 
-        if (IS_BAD_PTR(value)) {
-            KOS_clear_exception(ctx);
-            continue;
+            if (IS_BAD_PTR(value)) {
+                KOS_clear_exception(ctx);
+                continue;
+            }
         }
 
         KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_key,   key.o);
         KOS_atomic_write_relaxed_ptr(OBJPTR(ITERATOR, walk.o)->last_value, value);
         error = KOS_SUCCESS;
+
+        /* Deleted properties do not hide properties of prototypes */
+        if ( ! IS_BAD_PTR(returned_keys.o))
+            error = KOS_set_property(ctx, returned_keys.o, key.o, KOS_VOID);
+
         break;
     }
 
-- 
2.43.0


From 0be91409caa9bcb4cd26b0f23b32f5f84ca9f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 49/68] fix: store result of base constructor invocation in its
 destination

---
 core/kos_compiler.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/core/kos_compiler.c b/core/kos_compiler.c
index 4fad5df..3c515e4 100644
--- a/core/kos_compiler.c
+++ b/core/kos_compiler.c
@@ -4061,20 +4061,10 @@ static int super_invocation(KOS_COMP_UNIT      *program,
 
     base_ctor_reg = program->cur_frame->base_ctor_reg;
 
-    if (reg && is_var_used(program, inv_node, *reg)) {
-        TRY(gen_reg(program, &apply_fun));
-        assert(apply_fun);
-        assert(*reg);
-    }
-    else {
-        if ( ! reg || ! *reg) {
-            TRY(gen_reg(program, &apply_fun));
-            if (reg)
-                *reg = apply_fun;
-        }
-        else
-            apply_fun = *reg;
-    }
+    /* The destination can be a variable, it must not receive the apply function */
+    TRY(gen_reg(program, &apply_fun));
+    if (reg && ! *reg)
+        *reg = apply_fun;
 
     TRY(gen_get_prop_instr(program, NT_REFINEMENT, apply_fun->reg, base_ctor_reg->reg, str_idx));
 
@@ -4085,7 +4075,7 @@ static int super_invocation(KOS_COMP_UNIT      *program,
      * a new 'this' object and force it to use the current 'this' object
      * being created by the derived class' constructor.
      */
-    TRY(gen_instr5(program, INSTR_CALL_N, apply_fun->reg, apply_fun->reg, base_ctor_reg->reg, args_regs[0]->reg, 2));
+    TRY(gen_instr5(program, INSTR_CALL_N, reg ? (*reg)->reg : apply_fun->reg, apply_fun->reg, base_ctor_reg->reg, args_regs[0]->reg, 2));
 
 cleanup:
     if (args_regs[0])
-- 
2.43.0


From 8a15c351f6e9c5000138e7edba0065bc8112a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 50/68] fix: allow constructors invoked via apply to throw

---
 core/kos_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/kos_vm.c b/core/kos_vm.c
index 856c7dd..395e2c7 100644
--- a/core/kos_vm.c
+++ b/core/kos_vm.c
@@ -3873,7 +3873,7 @@ KOS_OBJ_ID kos_call_function(KOS_CONTEXT            ctx,
             assert(ctx->local_list == &func);
 
             assert(IS_BAD_PTR(ret.o) || GET_OBJ_TYPE(ret.o) <= OBJ_LAST_TYPE);
-            assert((state != KOS_CTOR) || (ret.o == this_.o));
+            assert(IS_BAD_PTR(ret.o) || (state != KOS_CTOR) || (ret.o == this_.o));
         }
 
         finish_call(ctx, get_current_stack_frame(ctx),
-- 
2.43.0


From bab37dad13b8e7959a8cd9fa417f809692538024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 51/68] fix: do not overwrite class prototype when constructor
 has closures

---
 core/kos_stack.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/kos_stack.c b/core/kos_stack.c
index 5a0c965..ddc687b 100644
--- a/core/kos_stack.c
+++ b/core/kos_stack.c
@@ -256,7 +256,9 @@ int kos_stack_push(KOS_CONTEXT ctx,
          * we still need to have 'room' left */
         TRY(push_new_reentrant_stack(ctx, room + 1));
 
-        OBJPTR(FUNCTION, func.o)->generator_stack_frame = ctx->stack;
+        /* Classes have no generator frame, they keep their prototype there */
+        if (state == KOS_GEN_INIT)
+            OBJPTR(FUNCTION, func.o)->generator_stack_frame = ctx->stack;
 
         new_stack = OBJPTR(STACK, ctx->stack);
         base_idx  = KOS_atomic_read_relaxed_u32(new_stack->size);
-- 
2.43.0


From b16931100a3ca191d229823858146853c3e5b9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 52/68] fix: support named arguments in super() and async
 invocations

---
 modules/kos_mod_base.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 7f0bd70..20fbbb3 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -1874,8 +1874,11 @@ static KOS_OBJ_ID apply(KOS_CONTEXT ctx,
     arg_args.o = KOS_array_read(ctx, arg_args.o, 1);
     TRY_OBJID(arg_args.o);
 
-    arg_args.o = KOS_array_slice(ctx, arg_args.o, 0, MAX_INT64);
-    TRY_OBJID(arg_args.o);
+    /* Named arguments are passed in an object */
+    if (GET_OBJ_TYPE(arg_args.o) != OBJ_OBJECT) {
+        arg_args.o = KOS_array_slice(ctx, arg_args.o, 0, MAX_INT64);
+        TRY_OBJID(arg_args.o);
+    }
 
     ret = KOS_apply_function(ctx, func.o, arg_this.o, arg_args.o);
 
@@ -1948,7 +1951,10 @@ static KOS_OBJ_ID async(KOS_CONTEXT ctx,
 
     arg_args.o = KOS_array_read(ctx, arg_args.o, 1);
     TRY_OBJID(arg_args.o);
-    if (GET_OBJ_TYPE(arg_args.o) != OBJ_ARRAY)
+    /* Named arguments are passed in an object */
+    if (GET_OBJ_TYPE(arg_args.o) != OBJ_ARRAY &&
+        (GET_OBJ_TYPE(arg_args.o) != OBJ_OBJECT ||
+         OBJPTR(FUNCTION, func.o)->arg_map == KOS_VOID))
         RAISE_EXCEPTION_STR(str_err_args_not_array);
 
     thread = kos_thread_create(ctx, func.o, arg_this.o, arg_args.o);
-- 
2.43.0


From bc9e8528a0b145cc4641b6212af7ad0c9d9526be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:13 +0000
Subject: [PATCH 53/68] fix: do not execute modules again when module.load() is
 given a path

---
 modules/kos_mod_base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/kos_mod_base.c b/modules/kos_mod_base.c
index 20fbbb3..7d719f7 100644
--- a/modules/kos_mod_base.c
+++ b/modules/kos_mod_base.c
@@ -5040,6 +5040,7 @@ static KOS_OBJ_ID module_load(KOS_CONTEXT ctx,
     KOS_LOCAL  name;
     KOS_LOCAL  module;
     KOS_VECTOR path_cstr;
+    uint32_t   num_modules;
     int        error = KOS_SUCCESS;
 
     assert(GET_OBJ_TYPE(args_obj) == OBJ_ARRAY);
@@ -5060,10 +5061,14 @@ static KOS_OBJ_ID module_load(KOS_CONTEXT ctx,
 
         TRY(KOS_string_to_cstr_vec(ctx, name.o, &path_cstr));
 
+        num_modules = KOS_get_array_size(ctx->inst->modules.modules);
+
         module.o = KOS_load_module(ctx, path_cstr.buffer, (uint32_t)(path_cstr.size - 1));
         TRY_OBJID(module.o);
 
-        TRY_OBJID(KOS_run_module(ctx, module.o));
+        /* The path can refer to a module which has already been loaded and executed */
+        if (KOS_get_array_size(ctx->inst->modules.modules) != num_modules)
+            TRY_OBJID(KOS_run_module(ctx, module.o));
     }
     else {
 
-- 
2.43.0


From 7a2dfe3a5f915580e5d18bb9371968ed799fad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 54/68] fix: reject end of line after backslash in strings

---
 core/kos_lexer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index cfc1ce4..6aa58a5 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -453,6 +453,14 @@ static int collect_escape(KOS_LEXER *lexer, int *format)
         lexer->error_str = str_err_eof_esc;
         error = KOS_ERROR_SCANNING_FAILED;
     }
+    else if (c == LT_EOL) {
+        lexer->error_str = str_err_eol_str;
+        error = KOS_ERROR_SCANNING_FAILED;
+    }
+    else if (c == LT_INVALID_UTF8) {
+        lexer->error_str = str_err_invalid_utf8;
+        error = KOS_ERROR_SCANNING_FAILED;
+    }
     else {
         const char esc_type = kos_escape_sequence_map[(unsigned char)*begin];
         if (esc_type == KOS_ET_HEX) {
-- 
2.43.0


From bfc6e664bf22a0cedd1e0d9b81b44cef99f81cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 55/68] fix: require a digit in exponents of numeric literals

---
 core/kos_lexer.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index 6aa58a5..cc9494d 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -653,9 +653,14 @@ static int collect_decimal(KOS_LEXER *lexer)
 
         if (is_digit_or_underscore(c)) {
             if (*begin != '0') {
-                do
+                int have_digit = 0;
+                do {
+                    if (c == LT_DIGIT)
+                        have_digit = 1;
                     c = prefetch_next(lexer, &begin, &end);
-                while (is_digit_or_underscore(c));
+                } while (is_digit_or_underscore(c));
+                if ( ! have_digit)
+                    c = LT_DIGIT; /* trigger error */
             }
             else
                 c = prefetch_next(lexer, &begin, &end);
-- 
2.43.0


From 9481923c0c589020ad94d8e69d5d6c2564a9e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 56/68] fix: reject unfinished block comments

---
 core/kos_lexer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index cc9494d..162563d 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -16,6 +16,7 @@ static const char str_err_bin[]                 = "unexpected character, binary
 static const char str_err_char[]                = "unexpected character";
 static const char str_err_cont[]                = "unexpected character, ')' expected as string continuation";
 static const char str_err_eof_bin[]             = "unexpected end of file, binary digit expected";
+static const char str_err_eof_comment[]         = "unexpected end of file, unfinished comment, expected '*/'";
 static const char str_err_eof_cont[]            = "unexpected end of file, string continuation expected";
 static const char str_err_eof_esc[]             = "unexpected end of file, unfinished escape sequence";
 static const char str_err_eof_hex[]             = "unexpected end of file, hexadecimal digit expected";
@@ -600,7 +601,7 @@ static void collect_identifier(KOS_LEXER *lexer)
     retract(lexer, begin);
 }
 
-static void collect_block_comment(KOS_LEXER *lexer)
+static int collect_block_comment(KOS_LEXER *lexer)
 {
     const char *begin, *end;
 
@@ -613,12 +614,15 @@ static void collect_block_comment(KOS_LEXER *lexer)
 
         if (c == LT_INVALID_UTF8) {
             retract(lexer, begin);
-            break;
+            return KOS_SUCCESS;
         }
 
         if (prev == '*' && c != LT_EOF && *begin == '/')
-            break;
+            return KOS_SUCCESS;
     }
+
+    lexer->error_str = str_err_eof_comment;
+    return KOS_ERROR_SCANNING_FAILED;
 }
 
 static int is_digit_or_underscore(unsigned c)
@@ -1008,7 +1012,7 @@ int kos_lexer_next_token(KOS_LEXER          *lexer,
                     }
                     else if (*begin2 == '*') {
                         token->type = TT_COMMENT;
-                        collect_block_comment(lexer);
+                        error = collect_block_comment(lexer);
                         end = lexer->prefetch_end;
                         set_seq_fail(begin2 + 1, end - 2);
                     }
-- 
2.43.0


From 93f610d6d2acdadf05659e26b7f52596b7fbe4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 57/68] fix: reject optional refinements with slices

---
 core/kos_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/kos_parser.c b/core/kos_parser.c
index 9362082..03a7444 100644
--- a/core/kos_parser.c
+++ b/core/kos_parser.c
@@ -1710,7 +1710,7 @@ static int refinement_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
         goto cleanup;
     }
 
-    else if (parser->token.sep == ST_COLON) {
+    else if (parser->token.sep == ST_COLON && (*ret)->type != NT_OPT_REFINEMENT) {
 
         (*ret)->type = NT_SLICE;
 
@@ -1747,7 +1747,7 @@ static int refinement_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
 
         TRY(next_token(parser));
 
-        if (parser->token.sep == ST_COLON) {
+        if (parser->token.sep == ST_COLON && (*ret)->type != NT_OPT_REFINEMENT) {
 
             (*ret)->type = NT_SLICE;
 
-- 
2.43.0


From 5496849282aa4df8041256cf35eaeae67463fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 58/68] fix: do not take ">==" for ">>=" and ">=>" for ">>>"

---
 core/kos_lexer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/kos_lexer.c b/core/kos_lexer.c
index 162563d..983c18a 100644
--- a/core/kos_lexer.c
+++ b/core/kos_lexer.c
@@ -755,8 +755,11 @@ static KOS_OPERATOR_TYPE collect_operator(KOS_LEXER *lexer)
             break;
 
         while (*begin > cur) {
+            const char prev = op_group->str[idx - 1];
+
+            /* Operators which differ in the preceding character do not match */
             ++op_group;
-            if (op_group->type == OT_NONE) {
+            if (op_group->type == OT_NONE || op_group->str[idx - 1] != prev) {
                 cur = 0;
                 break;
             }
-- 
2.43.0


From 3a1b848eb1d42f2bc766cc9e3f2899ac22886b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:56 +0000
Subject: [PATCH 59/68] fix: support binary exponents in numeric literals

---
 core/kos_misc.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/core/kos_misc.c b/core/kos_misc.c
index 28ec9d6..8811206 100644
--- a/core/kos_misc.c
+++ b/core/kos_misc.c
@@ -44,7 +44,7 @@ int kos_is_integer(const char *begin,
         const char c = *begin;
         if (c == 'x' || c == 'X' || c == 'b' || c == 'B')
             break;
-        if (c == '.' || c == 'e' || c == 'E') {
+        if (c == '.' || c == 'e' || c == 'E' || c == 'p' || c == 'P') {
             ret = 0;
             break;
         }
@@ -263,6 +263,7 @@ int kos_parse_double(const char *begin,
     int      exponent          = 0;
     uint64_t mantissa          = 0;
     int      decimal_exponent  = 0;
+    int      binary_exponent   = 0;
     int      num_digits        = 0;
     int      dot_pos           = -1;
 
@@ -312,7 +313,7 @@ int kos_parse_double(const char *begin,
         const char *first_digit = begin;
         const char *exponent_pos;
 
-        /* Find decimal exponent */
+        /* Find exponent */
         while (begin < end) {
 
             const char c = *(begin++);
@@ -322,7 +323,7 @@ int kos_parse_double(const char *begin,
                 continue;
             }
 
-            if (c == 'e' || c == 'E') {
+            if (c == 'e' || c == 'E' || c == 'p' || c == 'P') {
                 --begin;
                 break;
             }
@@ -342,12 +343,13 @@ int kos_parse_double(const char *begin,
 
         exponent_pos = begin;
 
-        /* Parse decimal exponent */
+        /* Parse decimal or binary exponent */
         if (begin < end) {
 
-            int64_t e = 0;
+            int64_t   e         = 0;
+            const int is_binary = (*begin == 'p' || *begin == 'P') ? 1 : 0;
 
-            assert(*begin == 'e' || *begin == 'E');
+            assert(is_binary || *begin == 'e' || *begin == 'E');
             ++begin;
 
             if (begin == end)
@@ -358,10 +360,18 @@ int kos_parse_double(const char *begin,
             if (error)
                 RAISE_ERROR(KOS_ERROR_INVALID_EXPONENT);
 
-            if (e > 308 || e < -324)
-                RAISE_ERROR(KOS_ERROR_EXPONENT_OUT_OF_RANGE);
+            if (is_binary) {
+                if (e > 1023 || e < -1074)
+                    RAISE_ERROR(KOS_ERROR_EXPONENT_OUT_OF_RANGE);
 
-            decimal_exponent += (int)e;
+                binary_exponent = (int)e;
+            }
+            else {
+                if (e > 308 || e < -324)
+                    RAISE_ERROR(KOS_ERROR_EXPONENT_OUT_OF_RANGE);
+
+                decimal_exponent += (int)e;
+            }
         }
 
         begin = first_digit;
@@ -443,6 +453,10 @@ int kos_parse_double(const char *begin,
                 --decimal_exponent;
             }
         }
+
+        /* Apply binary exponent */
+        if (mantissa)
+            exponent += binary_exponent;
     }
 
     if (exponent > 0x3FF)
-- 
2.43.0


From b7fc5698a9b4f1b64670743dc4c2ff1be2a7e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 60/68] fix: limit lengths of chains of refinements and of
 else-if branches

Very long chains overflowed the native stack in the compiler.
---
 core/kos_config.h |  1 +
 core/kos_parser.c | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/core/kos_config.h b/core/kos_config.h
index 36e9a54..c39988a 100644
--- a/core/kos_config.h
+++ b/core/kos_config.h
@@ -32,6 +32,7 @@
 #define KOS_STACK_OBJ_SIZE      4096U
 
 #define KOS_MAX_AST_DEPTH       100
+#define KOS_MAX_CHAIN_LENGTH    255 /* Max number of chained refinements/invocations or else-if branches */
 #define KOS_BUF_ALLOC_SIZE      0x10000U
 #define KOS_VEC_MAX_INC_SIZE    262144U
 #ifdef CONFIG_FUZZ
diff --git a/core/kos_parser.c b/core/kos_parser.c
index 03a7444..3939658 100644
--- a/core/kos_parser.c
+++ b/core/kos_parser.c
@@ -183,6 +183,16 @@ static int increase_ast_depth(KOS_PARSER *parser)
     return error;
 }
 
+static int check_chain_length(KOS_PARSER *parser, int length)
+{
+    if (length > KOS_MAX_CHAIN_LENGTH) {
+        parser->error_str = str_err_exceeded_ast_depth;
+        return KOS_ERROR_PARSE_FAILED;
+    }
+
+    return KOS_SUCCESS;
+}
+
 static int new_node(KOS_PARSER    *parser,
                     KOS_AST_NODE **node,
                     KOS_NODE_TYPE  type)
@@ -1902,6 +1912,7 @@ cleanup:
 static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
 {
     int       error;
+    int       chain_length      = 0;
     const int saved_unary_depth = parser->state.unary_depth;
 
     error = primary_expr(parser, ret);
@@ -1937,6 +1948,9 @@ static int member_expr(KOS_PARSER *parser, KOS_AST_NODE **ret)
                 parser->unget = 1;
                 break;
             }
+
+            if (!error)
+                error = check_chain_length(parser, ++chain_length);
         }
     }
 
@@ -2288,12 +2302,14 @@ static int do_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
     return compound_stmt(parser, ret);
 }
 
-static int if_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
+static int if_stmt(KOS_PARSER *parser, int chain_length, KOS_AST_NODE **ret)
 {
     int error = KOS_SUCCESS;
 
     KOS_AST_NODE *node = KOS_NULL;
 
+    TRY(check_chain_length(parser, chain_length));
+
     TRY(new_node(parser, ret, NT_IF));
 
     TRY(right_hand_side_expr(parser, &node));
@@ -2313,7 +2329,7 @@ static int if_stmt(KOS_PARSER *parser, KOS_AST_NODE **ret)
         TRY(next_token(parser));
 
         if (parser->token.keyword == KW_IF)
-            TRY(if_stmt(parser, &node));
+            TRY(if_stmt(parser, chain_length + 1, &node));
 
         else {
 
@@ -3298,7 +3314,7 @@ static int next_statement(KOS_PARSER *parser, KOS_AST_NODE **ret)
                 error = do_stmt(parser, ret);
                 break;
             case KW_IF:
-                error = if_stmt(parser, ret);
+                error = if_stmt(parser, 0, ret);
                 break;
             case KW_TRY:
                 error = try_stmt(parser, ret);
-- 
2.43.0


From 969f67fedef29cf72c822490765e6572278d8348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 61/68] fix: release mutexes only when held by the current
 thread

---
 modules/kos_mod_threads.c | 56 ++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/modules/kos_mod_threads.c b/modules/kos_mod_threads.c
index 814f1a3..e848033 100644
--- a/modules/kos_mod_threads.c
+++ b/modules/kos_mod_threads.c
@@ -34,11 +34,22 @@ KOS_DECLARE_STATIC_CONST_STRING(str_seconds,             "seconds");
 
 KOS_DECLARE_PRIVATE_CLASS(mutex_priv_class);
 
+typedef struct KOS_OWNED_MUTEX_S {
+    KOS_MUTEX                                 mutex;
+    KOS_ATOMIC(struct KOS_THREAD_CONTEXT_S *) owner;
+} KOS_OWNED_MUTEX;
+
 static void mutex_finalize(KOS_CONTEXT ctx,
                            void       *priv)
 {
-    if (priv)
-        kos_destroy_mutex((KOS_MUTEX *)&priv);
+    if (priv) {
+        KOS_OWNED_MUTEX *const mutex_obj = (KOS_OWNED_MUTEX *)priv;
+
+        if (mutex_obj->mutex)
+            kos_destroy_mutex(&mutex_obj->mutex);
+
+        KOS_free(mutex_obj);
+    }
 }
 
 /* @item threads mutex()
@@ -53,14 +64,22 @@ static KOS_OBJ_ID mutex_ctor(KOS_CONTEXT ctx,
                              KOS_OBJ_ID  this_obj,
                              KOS_OBJ_ID  args_obj)
 {
-    KOS_LOCAL  mutex;
-    KOS_OBJ_ID proto;
-    KOS_MUTEX  mutex_obj = KOS_NULL;
-    int        error     = KOS_SUCCESS;
+    KOS_LOCAL        mutex;
+    KOS_OBJ_ID       proto;
+    KOS_OWNED_MUTEX *mutex_obj = KOS_NULL;
+    int              error     = KOS_SUCCESS;
 
     KOS_init_local(ctx, &mutex);
 
-    error = kos_create_mutex(&mutex_obj);
+    mutex_obj = (KOS_OWNED_MUTEX *)KOS_malloc(sizeof(KOS_OWNED_MUTEX));
+
+    if ( ! mutex_obj)
+        RAISE_EXCEPTION_STR(str_err_mutex_failed);
+
+    mutex_obj->mutex = KOS_NULL;
+    KOS_atomic_write_relaxed_ptr(mutex_obj->owner, (KOS_CONTEXT)KOS_NULL);
+
+    error = kos_create_mutex(&mutex_obj->mutex);
 
     if (error)
         RAISE_EXCEPTION_STR(str_err_mutex_failed);
@@ -85,8 +104,7 @@ static KOS_OBJ_ID mutex_ctor(KOS_CONTEXT ctx,
     mutex_obj = KOS_NULL;
 
 cleanup:
-    if (mutex_obj)
-        kos_destroy_mutex(&mutex_obj);
+    mutex_finalize(ctx, mutex_obj);
 
     mutex.o = KOS_destroy_top_local(ctx, &mutex);
 
@@ -108,17 +126,19 @@ static KOS_OBJ_ID mutex_acquire(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  this_obj,
                                 KOS_OBJ_ID  args_obj)
 {
-    KOS_LOCAL mutex;
-    KOS_MUTEX mutex_obj;
+    KOS_LOCAL        mutex;
+    KOS_OWNED_MUTEX *mutex_obj;
 
     KOS_init_local_with(ctx, &mutex, this_obj);
 
-    mutex_obj = (KOS_MUTEX)KOS_object_get_private(mutex.o, &mutex_priv_class);
+    mutex_obj = (KOS_OWNED_MUTEX *)KOS_object_get_private(mutex.o, &mutex_priv_class);
 
     if (mutex_obj) {
         KOS_suspend_context(ctx);
 
-        kos_lock_mutex(mutex_obj);
+        kos_lock_mutex(mutex_obj->mutex);
+
+        KOS_atomic_write_relaxed_ptr(mutex_obj->owner, ctx);
 
         KOS_resume_context(ctx);
     }
@@ -140,10 +160,14 @@ static KOS_OBJ_ID mutex_release(KOS_CONTEXT ctx,
                                 KOS_OBJ_ID  this_obj,
                                 KOS_OBJ_ID  args_obj)
 {
-    const KOS_MUTEX mutex_obj = (KOS_MUTEX)KOS_object_get_private(this_obj, &mutex_priv_class);
+    KOS_OWNED_MUTEX *const mutex_obj = (KOS_OWNED_MUTEX *)KOS_object_get_private(this_obj, &mutex_priv_class);
 
-    if (mutex_obj)
-        kos_unlock_mutex(mutex_obj);
+    if (mutex_obj && KOS_atomic_read_relaxed_ptr(mutex_obj->owner) == ctx) {
+
+        KOS_atomic_write_relaxed_ptr(mutex_obj->owner, (KOS_CONTEXT)KOS_NULL);
+
+        kos_unlock_mutex(mutex_obj->mutex);
+    }
 
     return this_obj;
 }
-- 
2.43.0


From 48275ede8d6088f0c3e374137e3478de98c776ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 62/68] fix: unregister local when setting position or size of
 a file fails

---
 modules/kos_mod_io.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 0324bf8..8553a60 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -1510,6 +1510,8 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
+    KOS_init_local_with(ctx, &this_, this_obj);
+
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
@@ -1521,8 +1523,6 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
     if (pos < 0)
         whence = SEEK_END;
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1536,12 +1536,12 @@ static KOS_OBJ_ID set_file_pos(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
+    this_.o = KOS_destroy_top_local(ctx, &this_);
+
     release_file(file_holder);
 
-    return error ? KOS_BADPTR : this_obj;
+    return error ? KOS_BADPTR : this_.o;
 }
 
 /* @item io file.prototype.resize()
@@ -1576,6 +1576,8 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
+    KOS_init_local_with(ctx, &this_, this_obj);
+
     TRY(acquire_file_object(ctx, this_obj, &file_holder));
 
     arg = KOS_array_read(ctx, args_obj, 0);
@@ -1596,8 +1598,6 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
 #undef BAD_SIZE_CHECK
 
-    KOS_init_local_with(ctx, &this_, this_obj);
-
     KOS_suspend_context(ctx);
 
     errno = 0;
@@ -1662,12 +1662,12 @@ static KOS_OBJ_ID set_file_size(KOS_CONTEXT ctx,
 
     KOS_resume_context(ctx);
 
-    this_obj = KOS_destroy_top_local(ctx, &this_);
-
 cleanup:
+    this_.o = KOS_destroy_top_local(ctx, &this_);
+
     release_file(file_holder);
 
-    return error ? KOS_BADPTR : this_obj;
+    return error ? KOS_BADPTR : this_.o;
 }
 
 /* @item io file_lock()
-- 
2.43.0


From aef40fec1b1044466e17e3bc70d962ac9a670fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 63/68] fix: don't write contents of a buffer again with the
 string that follows it

---
 modules/kos_mod_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 8553a60..d0c0942 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -947,6 +947,8 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
         size_t num_writ     = 0;
         int    stored_errno = 0;
 
+        cstr.size = 0;
+
         arg.o = KOS_array_read(ctx, args.o, i_arg);
         TRY_OBJID(arg.o);
 
@@ -1018,8 +1020,6 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
                 KOS_raise_errno_value(ctx, "fwrite", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
-
-            cstr.size = 0;
         }
         else
             RAISE_EXCEPTION_STR(str_err_not_buffer_or_str);
-- 
2.43.0


From 3dac4ec5c302bf72ee78157a0708a61852fcb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 64/68] fix: report write errors from print() on files

---
 modules/kos_mod_io.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index d0c0942..b1c9cd2 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -611,8 +611,9 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 {
     KOS_VECTOR       cstr;
     KOS_LOCAL        this_;
-    KOS_FILE_HOLDER *file_holder = KOS_NULL;
-    int              error       = KOS_SUCCESS;
+    KOS_FILE_HOLDER *file_holder  = KOS_NULL;
+    int              stored_errno = 0;
+    int              error        = KOS_SUCCESS;
 
     KOS_init_local_with(ctx, &this_, this_obj);
 
@@ -624,15 +625,23 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 
     KOS_suspend_context(ctx);
 
+    errno = 0;
+
     if (cstr.size) {
         cstr.buffer[cstr.size - 1] = '\n';
-        fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder));
+        if (fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder)) < cstr.size)
+            stored_errno = errno;
     }
-    else
-        fprintf(get_file(file_holder), "\n");
+    else if (fprintf(get_file(file_holder), "\n") < 0)
+        stored_errno = errno;
 
     KOS_resume_context(ctx);
 
+    if (stored_errno) {
+        KOS_raise_errno_value(ctx, "fwrite", stored_errno);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
+
 cleanup:
     KOS_vector_destroy(&cstr);
 
-- 
2.43.0


From c06067fcab8c132ef1878e3af50023d457ddbd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 65/68] fix: read_line() returns whole lines also with NUL
 bytes and CR characters

---
 modules/kos_mod_io.c | 47 +++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index b1c9cd2..3cc19ee 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -703,11 +703,6 @@ cleanup:
     return error ? KOS_BADPTR : this_.o;
 }
 
-static int is_eol(char c)
-{
-    return c == '\n' || c == '\r';
-}
-
 /* @item io file.prototype.read_line()
  *
  *     file.prototype.read_line(reserved_size = 4096)
@@ -741,9 +736,8 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
     KOS_VECTOR       buf;
     KOS_OBJ_ID       line        = KOS_BADPTR;
     int              error       = KOS_SUCCESS;
-    int              size_delta;
-    int              last_size   = 0;
-    int              num_read;
+    size_t           reserved_size;
+    int              c;
 
     assert(KOS_get_array_size(args_obj) >= 1);
 
@@ -759,44 +753,43 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
     if (iarg <= 0 || iarg > INT_MAX-1)
         RAISE_EXCEPTION_STR(str_err_invalid_buffer_size);
 
-    size_delta = (int)iarg + 1;
+    reserved_size = (size_t)iarg;
 
     KOS_suspend_context(ctx);
 
-    do {
-        char *ret;
-
-        if (KOS_vector_resize(&buf, (size_t)(last_size + size_delta))) {
-            KOS_resume_context(ctx);
-            KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
-            RAISE_ERROR(KOS_ERROR_EXCEPTION);
-        }
+    if (KOS_vector_reserve(&buf, reserved_size)) {
+        KOS_resume_context(ctx);
+        KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
 
+    do {
         errno = 0;
 
-        ret = fgets(buf.buffer + last_size, size_delta, get_file(file_holder));
+        c = getc(get_file(file_holder));
 
-        if ( ! ret) {
+        if (c == EOF) {
             if (ferror(get_file(file_holder))) {
                 const int stored_errno = errno;
                 KOS_resume_context(ctx);
                 KOS_raise_errno_value(ctx, "fgets", stored_errno);
                 RAISE_ERROR(KOS_ERROR_EXCEPTION);
             }
-            else
-                break;
+            break;
         }
 
-        num_read = (int)strlen(buf.buffer + last_size);
+        if (KOS_vector_resize(&buf, buf.size + 1U)) {
+            KOS_resume_context(ctx);
+            KOS_raise_exception(ctx, KOS_STR_OUT_OF_MEMORY);
+            RAISE_ERROR(KOS_ERROR_EXCEPTION);
+        }
 
-        last_size += num_read;
-    } while (num_read != 0 &&
-             num_read+1 == size_delta &&
-             ! is_eol(buf.buffer[last_size-1]));
+        buf.buffer[buf.size - 1U] = (char)c;
+    } while (c != '\n');
 
     KOS_resume_context(ctx);
 
-    line = KOS_new_string(ctx, buf.buffer, (unsigned)last_size);
+    line = KOS_new_string(ctx, buf.buffer, (unsigned)buf.size);
 
 cleanup:
     KOS_vector_destroy(&buf);
-- 
2.43.0


From 134987a9b09b0211cb3ea8cad3320a62974ff869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:36 +0000
Subject: [PATCH 66/68] fix: report write errors when closing a file

---
 modules/kos_mod_io.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index 3cc19ee..d124a9d 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -96,8 +96,11 @@ static int acquire_file(KOS_FILE_HOLDER *file_holder)
     return (int)ref_count;
 }
 
-static void release_file(KOS_FILE_HOLDER *file_holder)
+/* Returns errno if closing the file fails */
+static int release_file(KOS_FILE_HOLDER *file_holder)
 {
+    int stored_errno = 0;
+
     if (file_holder) {
         const int ref_count = KOS_atomic_add_i32(file_holder->ref_count, -1);
 
@@ -106,12 +109,18 @@ static void release_file(KOS_FILE_HOLDER *file_holder)
         if (ref_count == 1) {
             FILE *const file = (FILE *)KOS_atomic_swap_ptr(file_holder->file, (FILE *)KOS_NULL);
 
-            if (file && file_holder->owner)
-                fclose(file);
+            if (file && file_holder->owner) {
+                errno = 0;
+
+                if (fclose(file))
+                    stored_errno = errno;
+            }
 
             KOS_free(file_holder);
         }
     }
+
+    return stored_errno;
 }
 
 static KOS_FILE_HOLDER *make_file_holder(KOS_CONTEXT ctx,
@@ -153,7 +162,7 @@ static void file_finalize(KOS_CONTEXT ctx,
                           void       *priv)
 {
     if (priv)
-        release_file((KOS_FILE_HOLDER *)priv);
+        (void)release_file((KOS_FILE_HOLDER *)priv);
 }
 
 KOS_DECLARE_PRIVATE_CLASS(file_priv_class);
@@ -572,6 +581,7 @@ static KOS_OBJ_ID kos_close(KOS_CONTEXT ctx,
 {
     KOS_FILE_HOLDER *closed_holder;
     KOS_FILE_HOLDER *file_holder;
+    int              stored_errno = 0;
 
     if (GET_OBJ_TYPE(this_obj) != OBJ_OBJECT) {
         KOS_raise_exception(ctx, KOS_CONST_ID(str_err_file_not_open));
@@ -585,7 +595,12 @@ static KOS_OBJ_ID kos_close(KOS_CONTEXT ctx,
     file_holder = (KOS_FILE_HOLDER *)KOS_object_swap_private(this_obj, &file_priv_class, closed_holder);
 
     if (file_holder)
-        release_file(file_holder);
+        stored_errno = release_file(file_holder);
+
+    if (stored_errno) {
+        KOS_raise_errno_value(ctx, "fclose", stored_errno);
+        return KOS_BADPTR;
+    }
 
     return this_obj;
 }
-- 
2.43.0


From 0a2f6e8e2a7d89e0dd366e834a62b930d6bf36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 67/68] fix: don't split UTF-8 sequences when reading lines
 from files

---
 modules/io.kos | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/modules/io.kos b/modules/io.kos
index d41eed1..1a9c8ac 100644
--- a/modules/io.kos
+++ b/modules/io.kos
@@ -155,6 +155,39 @@ file.prototype.read = fun(in_size = 0x7FFFFFFFFFFFFFFF, in_buf = void)
     return buf
 }
 
+# Reads a portion of text.  If the portion ends with an incomplete UTF-8
+# sequence, leaves that sequence in the buffer for the next portion.
+# Returns empty string on end of file.
+fun read_text(in_file, gran, buf)
+{
+    loop {
+        const prev_size = buf.size
+        in_file.read_some(gran, buf)
+        const size = buf.size
+        var   end  = size
+
+        if size > prev_size {
+            var pos = size - 1
+            while pos > 0 && size - pos < 4 && (buf[pos] & 0xC0) == 0x80 {
+                pos -= 1
+            }
+
+            const lead = buf[pos]
+            const len  = lead >= 0xF0 ? 4 : lead >= 0xE0 ? 3 : lead >= 0xC0 ? 2 : 1
+            if pos + len > size {
+                end = pos
+            }
+        }
+
+        if end > 0 || size == prev_size {
+            const str = string(buf.slice(0, end))
+            buf.copy_buffer(0, buf, end)
+            buf.resize(size - end)
+            return str
+        }
+    }
+}
+
 /* @item io file.prototype.read_lines()
  *
  *     file.prototype.read_lines(keep_ends = false, gran = 0x1000)
@@ -181,9 +214,7 @@ file.prototype.read_lines = fun(keep_ends = false, gran = 0x1000)
     var   prev = ""
 
     loop {
-        buf.resize(0)
-
-        const str = string(this.read_some(gran, buf))
+        const str = read_text(this, gran, buf)
 
         var pos = 0
 
-- 
2.43.0


From 8b160621ce0f32addbac8b02515ed167949698fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 68/68] fix: flush written data before reading from the same
 file

---
 modules/kos_mod_io.c | 55 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/modules/kos_mod_io.c b/modules/kos_mod_io.c
index d124a9d..7891fb5 100644
--- a/modules/kos_mod_io.c
+++ b/modules/kos_mod_io.c
@@ -75,9 +75,10 @@ static void fix_path_separators(KOS_VECTOR *buf)
 }
 
 typedef struct KOS_FILE_HOLDER_S {
-    KOS_ATOMIC(FILE *)  file;
-    KOS_ATOMIC(int32_t) ref_count;
-    int                 owner;
+    KOS_ATOMIC(FILE *)   file;
+    KOS_ATOMIC(int32_t)  ref_count;
+    KOS_ATOMIC(uint32_t) written; /* Set if the last operation was a write */
+    int                  owner;
 } KOS_FILE_HOLDER;
 
 static int acquire_file(KOS_FILE_HOLDER *file_holder)
@@ -132,6 +133,7 @@ static KOS_FILE_HOLDER *make_file_holder(KOS_CONTEXT ctx,
     if (file_holder) {
         file_holder->file      = file;
         file_holder->ref_count = 1;
+        file_holder->written   = 0;
         file_holder->owner     = owner;
     }
     else
@@ -158,6 +160,24 @@ static FILE *get_file(KOS_FILE_HOLDER *file_holder)
     return file_holder ? (FILE *)KOS_atomic_read_relaxed_ptr(file_holder->file) : KOS_NULL;
 }
 
+/* Returns file for writing */
+static FILE *get_file_for_write(KOS_FILE_HOLDER *file_holder)
+{
+    (void)KOS_atomic_swap_u32(file_holder->written, 1);
+
+    return get_file(file_holder);
+}
+
+/* A read must not directly follow a write, the file has to be flushed first.
+ * Returns non-zero and sets errno if flushing the file fails. */
+static int flush_before_read(KOS_FILE_HOLDER *file_holder)
+{
+    if (KOS_atomic_swap_u32(file_holder->written, 0))
+        return fflush(get_file(file_holder));
+
+    return 0;
+}
+
 static void file_finalize(KOS_CONTEXT ctx,
                           void       *priv)
 {
@@ -644,10 +664,10 @@ static KOS_OBJ_ID print(KOS_CONTEXT ctx,
 
     if (cstr.size) {
         cstr.buffer[cstr.size - 1] = '\n';
-        if (fwrite(cstr.buffer, 1, cstr.size, get_file(file_holder)) < cstr.size)
+        if (fwrite(cstr.buffer, 1, cstr.size, get_file_for_write(file_holder)) < cstr.size)
             stored_errno = errno;
     }
-    else if (fprintf(get_file(file_holder), "\n") < 0)
+    else if (fprintf(get_file_for_write(file_holder), "\n") < 0)
         stored_errno = errno;
 
     KOS_resume_context(ctx);
@@ -778,6 +798,15 @@ static KOS_OBJ_ID read_line(KOS_CONTEXT ctx,
         RAISE_ERROR(KOS_ERROR_EXCEPTION);
     }
 
+    errno = 0;
+
+    if (flush_before_read(file_holder)) {
+        const int stored_errno = errno;
+        KOS_resume_context(ctx);
+        KOS_raise_errno_value(ctx, "fflush", stored_errno);
+        RAISE_ERROR(KOS_ERROR_EXCEPTION);
+    }
+
     do {
         errno = 0;
 
@@ -895,10 +924,16 @@ static KOS_OBJ_ID read_some(KOS_CONTEXT ctx,
 
     errno = 0;
 
-    num_read = fread(data + offset, 1, (size_t)to_read, get_file(file_holder));
-
-    if (num_read < (size_t)to_read && ferror(get_file(file_holder)))
+    if (flush_before_read(file_holder)) {
         stored_errno = errno;
+        num_read     = 0;
+    }
+    else {
+        num_read = fread(data + offset, 1, (size_t)to_read, get_file(file_holder));
+
+        if (num_read < (size_t)to_read && ferror(get_file(file_holder)))
+            stored_errno = errno;
+    }
 
     KOS_resume_context(ctx);
 
@@ -996,7 +1031,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
                 errno = 0;
 
-                num_writ = fwrite(data, 1, to_write, get_file(file_holder));
+                num_writ = fwrite(data, 1, to_write, get_file_for_write(file_holder));
 
                 if (num_writ < to_write)
                     stored_errno = errno;
@@ -1025,7 +1060,7 @@ static KOS_OBJ_ID kos_write(KOS_CONTEXT ctx,
 
                 errno = 0;
 
-                num_writ = fwrite(cstr.buffer, 1, cstr.size - 1, get_file(file_holder));
+                num_writ = fwrite(cstr.buffer, 1, cstr.size - 1, get_file_for_write(file_holder));
 
                 if (num_writ < cstr.size - 1)
                     stored_errno = errno;
-- 
2.43.0

