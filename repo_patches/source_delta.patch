From ca3afc0895aadac2458bbf23a460178e30dc5ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 001/119] fix: evaluate the expression of a return statement
 each time it runs

eval_return() replaced the expression in the parse tree with the value it
had evaluated to, so every later execution of the same statement returned
that first value (e.g. a second call to a recursive function).
---
 src/evaluate.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..54a682d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,15 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Don't store the result of the evaluation in `t' itself, as that would
+     * replace the expression that needs to be evaluated the next time this
+     * statement is executed. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tLOCUS(ret) = tLOCUS(t);
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From f56d393c9e984744afb55592ceab587ffc1b0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:10 +0000
Subject: [PATCH 002/119] fix: execute return and break as the unbraced body of
 an if or a loop

__evaluate() threw away the result of a statement that isn't part of a
chain, so in e.g. 'if (x) return y;' the return had no effect.
---
 src/evaluate.c | 65 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 54a682d..465f9fe 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -42,7 +42,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -2718,39 +2718,56 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+/* Evaluate a single statement.  If it's a `return' then unwind to the function
+ * that is being executed.  If it's a `break', return it so that it reaches the
+ * loop that encloses it. */
+static tree eval_stmt(tree stmt, int depth)
 {
-    tree i;
+    tree result = __evaluate_1(stmt, depth);
 
-    if (!head)
-        return;
+    if (is_T_RETURN(result)) {
+        tree fn_ctx = cur_ctx;
 
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+        while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+            fn_ctx = tECTX_PARENT_CTX(fn_ctx);
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+        /* If we reach the top of the evaluation stack, we have been
+         * executing a cscript and the top-level of it has called return. In
+         * that case, just return the result.
+         */
+        if (!fn_ctx)
+            cscript_exit(tRET_EXP(result));
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+        tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
+        longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+    }
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+    if (is_T_BREAK(result))
+        return result;
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+    return NULL;
+}
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+/* Evaluate a chain of statements, or just a single one if `head' isn't a chain.
+ * Returns the T_BREAK that stopped the evaluation, if any. */
+static tree __evaluate(tree head, int depth)
+{
+    tree i;
+
+    if (!head)
+        return NULL;
+
+    if (!is_CHAIN_HEAD(head))
+        return eval_stmt(head, depth);
 
-        if (is_T_BREAK(result))
-            return;
+    for_each_tree(i, head) {
+        tree result = eval_stmt(i, depth);
+
+        if (result)
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From 7ebf1f272d554b3191498fc245df9bd7c743c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 003/119] fix: make break leave exactly the loop that encloses
 it

A break inside an if only marked the context of the if, so the loop kept
going; and a loop that did see its break returned without popping the
context of its body, which left that body's variables in scope.
---
 src/c.lang     |  1 -
 src/evaluate.c | 29 ++++++++++++++---------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..ad1a96f 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -232,7 +232,6 @@
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
-          ("SHOULD_BREAK" flag)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 465f9fe..36017cf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1695,8 +1695,6 @@ static tree eval_gteq(tree t, int depth)
 
 static tree eval_break(tree t, int depth)
 {
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
     return t;
 }
 
@@ -1994,13 +1992,12 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        tree result = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
@@ -2024,13 +2021,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        tree result = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
     } while (1);
 
     return NULL;
@@ -2056,14 +2052,17 @@ static tree eval_if(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
+    tree result;
+
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    /* Let a `break' through to the loop that encloses this statement. */
+    return result;
 }
 
 static tree eval_return(tree t, int depth)
-- 
2.43.0


From 1f71222d181fbd5fa4f354610d2873a035a397f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 004/119] fix: execute compound statements that are nested in a
 block

A '{ ... }' used as a statement was skipped altogether, since the evaluator
had no case for it.  Give it a context of its own, as a C block scope.
---
 src/evaluate.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 36017cf..fe7297a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2632,6 +2632,18 @@ static tree eval_evaluator_ctx(tree t, int depth)
     return ret;
 }
 
+/* Evaluate a compound statement that's nested in another one. */
+static tree eval_block(tree t, int depth)
+{
+    tree result;
+
+    push_ctx("Block");
+    result = __evaluate(t, depth + 1);
+    pop_ctx();
+
+    return result;
+}
+
 static tree eval_self(tree t, int depth)
 {
     return t;
@@ -2707,6 +2719,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_EXT_FUNC:   result = eval_ext_func(t, depth + 1);   break;
     case T_INSPECT:    result = eval_inspect(t, depth + 1);     break;
     case T_EXPR_LIST:  result = eval_expr_list(t, depth + 1);  break;
+    case CHAIN_HEAD:   result = eval_block(t, depth + 1);      break;
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)                      \
     case TNAME:        result = eval_##TNAME(t, depth + 1);    break;
 #include "ctypes.def"
-- 
2.43.0


From cc51a8290774d3ca8c35281a2a1045f4539295aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 005/119] fix: limit the scope of a for loop's declaration to
 the loop

'for (int i = 0; ...)' declared i in the context around the loop, so a
second such loop in the same block was rejected as a redeclaration.
---
 src/evaluate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index fe7297a..c479f52 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1976,6 +1976,9 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    /* A variable that's declared by the loop is local to the loop. */
+    push_ctx("For Loop Init");
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
@@ -2002,6 +2005,8 @@ static tree eval_loop_for(tree t, int depth)
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
-- 
2.43.0


From 32605de2b9fe34027154ca23f6a30bb7cc30091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:19 +0000
Subject: [PATCH 006/119] fix: evaluate all arguments of a call before
 declaring the parameters

Each argument was evaluated with the parameters to its left already
declared, so an argument that uses a variable of the caller with the same
name as one of those parameters got the value of the parameter.
---
 src/evaluate.c | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c479f52..507eab2 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -421,10 +421,29 @@ static tree eval_fn_call(tree t, int depth)
 
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
-            tree arg_decls = tFN_ARGS(function),
-                arg_vals = tFNCALL_ARGS(t),
+            tree arg_decls = tFN_ARGS(function), arg_vals,
                 arg_decl, arg_val, return_val, fn_ctx;
 
+            /* Evaluate all of the arguments in the context of the caller,
+             * before the context of the function exists.  This prevents bugs
+             * with things such as:
+             *
+             * 0: int foo(int a, int b)
+             * 1: {
+             * 2:      use(a, b);
+             * 3: }
+             * 4:
+             * 5: int main()
+             * 6: {
+             * 7:     int a = 10, b = 20;
+             * 8:     foo(b, a);
+             * 9: }
+             *
+             * Notice that if the declaration of 'a' on line 0 was on the
+             * context stack, the 'a' on line 8 would evaluate to that, rather
+             * than to the variable of main(). */
+            arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth);
+
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
 
@@ -438,9 +457,8 @@ static tree eval_fn_call(tree t, int depth)
                 for_each_tree(arg_decl, arg_decls)
                     no_decls++;
 
-                if (arg_vals)
-                    for_each_tree(arg_val, arg_vals)
-                        no_vals++;
+                for_each_tree(arg_val, arg_vals)
+                    no_vals++;
 
                 if (no_vals != no_decls)
                     eval_die(t, "Invalid number of parameters to function\n");
@@ -449,40 +467,17 @@ static tree eval_fn_call(tree t, int depth)
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
+                    tree decl_identifier,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
             }
-- 
2.43.0


From f7e4dfff2b913674e328dbbc34f9c793191b697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 007/119] fix: keep nested compound statements out of the
 enclosing chain

The head of a nested block's chain was linked straight into the chain of
the block around it, which drops the nested statements.  Wrap it in a
T_BLOCK instead.
---
 src/c.lang     |  3 +++
 src/evaluate.c |  4 ++--
 src/parser.m4  | 21 +++++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index ad1a96f..541db05 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -142,6 +142,9 @@
 (deftype T_EXPR_LIST "Expression List" "tEXPR_LIST"
          ("CHAIN"))
 
+(deftype T_BLOCK "Compound statement" "tBLOCK"
+         ("STMTS"))
+
 (deftype T_INLINE "inline function specifier")
 
 (deftype T_BITFIELD "Bitfield declarator" "tBITFIELD"
diff --git a/src/evaluate.c b/src/evaluate.c
index 507eab2..f24bbe4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2638,7 +2638,7 @@ static tree eval_block(tree t, int depth)
     tree result;
 
     push_ctx("Block");
-    result = __evaluate(t, depth + 1);
+    result = __evaluate(tBLOCK_STMTS(t), depth + 1);
     pop_ctx();
 
     return result;
@@ -2719,7 +2719,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_EXT_FUNC:   result = eval_ext_func(t, depth + 1);   break;
     case T_INSPECT:    result = eval_inspect(t, depth + 1);     break;
     case T_EXPR_LIST:  result = eval_expr_list(t, depth + 1);  break;
-    case CHAIN_HEAD:   result = eval_block(t, depth + 1);      break;
+    case T_BLOCK:      result = eval_block(t, depth + 1);      break;
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)                      \
     case TNAME:        result = eval_##TNAME(t, depth + 1);    break;
 #include "ctypes.def"
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..ed2adc4 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -59,6 +59,21 @@ static void maybe_add_typenames(tree decl)
 }
 
 CSCRIPT_ONLY
+    /* The head of the chain of a compound statement can't be an element of
+     * the chain of the enclosing block at the same time. */
+    static tree make_block_item(tree stmt)
+    {
+        tree block;
+
+        if (!is_CHAIN_HEAD(stmt))
+            return stmt;
+
+        block = tree_make(T_BLOCK);
+        tBLOCK_STMTS(block) = stmt;
+        tLOCUS(block) = tLOCUS(stmt);
+        return block;
+    }
+
     void TARGET()_parser_set_file(const char *fname)
     {
         TARGET()_current_file = fname;
@@ -1454,6 +1469,9 @@ CSCRIPT_ONLY
     block_item
     : declaration
     | statement
+    {
+        $$ = make_block_item($1);
+    }
     ;
 
     selection_statement
@@ -1587,6 +1605,9 @@ CSCRIPT_ONLY
     cscript_external_declaration
     : external_declaration
     | statement
+    {
+        $$ = make_block_item($1);
+    }
     ;
 
     cscript_translation_unit
-- 
2.43.0


From d16a6dba97bae274fb5ff514b76bb81dde01acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 008/119] fix: resolve the identifiers of a function in the
 scope of its definition

A function body was evaluated with the variables of its callers in scope,
so e.g. a local variable of the caller took the place of a global of the
same name.
---
 src/c.lang     |  2 +-
 src/evaluate.c | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 541db05..9fb4e96 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -233,7 +233,7 @@
 (deftype CHAIN_HEAD "Tree Chain Head")
 
 (deftype E_CTX "Evaluator Context" "tECTX"
-         ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
+         ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "SCOPE_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
diff --git a/src/evaluate.c b/src/evaluate.c
index f24bbe4..32b92c0 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -156,6 +156,34 @@ static tree resolve_id(tree id, tree ectx, enum idmap_type map_type)
     return __resolve_id(id, idmap);
 }
 
+/* Find the next context in which to look for an identifier that isn't in `ctx'.
+ * The body of a function doesn't see the variables of its caller, but those of
+ * the context the function was defined in. */
+static tree get_enclosing_scope(tree ctx)
+{
+    if (tECTX_IS_FN_CALL(ctx))
+        return tECTX_SCOPE_CTX(ctx);
+
+    return tECTX_PARENT_CTX(ctx);
+}
+
+/* Find the context that `function' was defined in.  If it isn't on the context
+ * stack (it came from an #include), this is the top-level context. */
+static tree get_defining_ctx(tree function)
+{
+    tree ctx, toplevel = cur_ctx;
+
+    for (ctx = cur_ctx; ctx; ctx = tECTX_PARENT_CTX(ctx)) {
+        if (resolve_id(tFN_DECL(function), ctx, NORMAL_TYPE) == function)
+            return ctx;
+
+        if (tECTX_PARENT_CTX(ctx))
+            toplevel = ctx;
+    }
+
+    return toplevel;
+}
+
 static tree __resolve_identifier(tree id,
                                  enum identifier_search_scope scope,
                                  enum idmap_type map_type)
@@ -173,7 +201,7 @@ static tree __resolve_identifier(tree id,
         if (search_result)
             return search_result;
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        search_ctx = get_enclosing_scope(search_ctx);
     }
 
     /* Also search the include_ctx if it exists. */
@@ -422,7 +450,8 @@ static tree eval_fn_call(tree t, int depth)
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
             tree arg_decls = tFN_ARGS(function), arg_vals,
-                arg_decl, arg_val, return_val, fn_ctx;
+                arg_decl, arg_val, return_val, fn_ctx,
+                scope_ctx = get_defining_ctx(function);
 
             /* Evaluate all of the arguments in the context of the caller,
              * before the context of the function exists.  This prevents bugs
@@ -446,6 +475,7 @@ static tree eval_fn_call(tree t, int depth)
 
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
+            tECTX_SCOPE_CTX(cur_ctx) = scope_ctx;
 
             fn_ctx = cur_ctx;
 
-- 
2.43.0


From 5c891f4b3ced231b3b4ad4305c6fcf8e9c6bfc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 009/119] fix: convert the value of a variable to the type it
 is assigned to

assign_integer() and assign_float() read the source variable as a long or
a double whatever its type was, so an assignment between variables of
different types stored garbage (e.g. a negative int to a long, or a float
to a double).
---
 src/evaluate.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 32b92c0..5f4ff64 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1178,7 +1178,16 @@ static void assign_integer(tree var, tree right)
          val = mpz_get_si(tINT_VAL(right));
          break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
+        switch (TYPE(tLV_TYPE(right))) {
+#define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)         \
+            case TNAME:                                  \
+                val = (signed long int)tLV_VAL(right)->TNAME; \
+                break;
+        #include "ctypes.def"
+        #undef DEFCTYPE
+        default:
+            eval_die(right, "unknown rvalue assignment to integer.\n");
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to integer.\n");
@@ -1210,7 +1219,28 @@ static void assign_float(tree var, tree right)
         val = (double)mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
+        switch (TYPE(tLV_TYPE(right))) {
+#define ASSIGN_FLOAT(TNAME)                              \
+            case TNAME:                                  \
+                val = (double)tLV_VAL(right)->TNAME;     \
+                break;
+        ASSIGN_FLOAT(D_T_CHAR);
+        ASSIGN_FLOAT(D_T_SHORT);
+        ASSIGN_FLOAT(D_T_INT);
+        ASSIGN_FLOAT(D_T_LONG);
+        ASSIGN_FLOAT(D_T_LONGLONG);
+        ASSIGN_FLOAT(D_T_UCHAR);
+        ASSIGN_FLOAT(D_T_USHORT);
+        ASSIGN_FLOAT(D_T_UINT);
+        ASSIGN_FLOAT(D_T_ULONG);
+        ASSIGN_FLOAT(D_T_ULONGLONG);
+        ASSIGN_FLOAT(D_T_FLOAT);
+        ASSIGN_FLOAT(D_T_DOUBLE);
+        ASSIGN_FLOAT(D_T_LONGDOUBLE);
+#undef ASSIGN_FLOAT
+        default:
+            eval_die(right, "unknown rvalue assignment to float.\n");
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to float.\n");
-- 
2.43.0


From 34e41aaa9d1df5892279ca2b46910584e768d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 010/119] fix: make the value of an assignment the value that
 was stored

The value of 'i = c = 300' was the right-hand side before its conversion
to the type of c.
---
 src/evaluate.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5f4ff64..cf2b195 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1280,15 +1280,10 @@ static void assign_ptr(tree var, tree right)
     tLV_VAL(var)->D_T_PTR = ptr;
 }
 
-static tree eval_assign(tree t, int depth)
+/* Store the value of `right' in the live variable `left', converting it to the
+ * type of `left'. */
+static void assign_live_var(tree t, tree left, tree right)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
-
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
@@ -1302,10 +1297,29 @@ static tree eval_assign(tree t, int depth)
     default:
         eval_die(t, "Unknown assignment rvalue type.");
     }
+}
+
+static tree eval_assign(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+    tree ret;
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    assign_live_var(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
-     * a rvalue. */
-    return right;
+     * a rvalue.  That is the value after it has been converted to the type of
+     * the lvalue. */
+    if (!is_T_INTEGER(right) && !is_T_FLOAT(right) && !is_T_LIVE_VAR(right))
+        return right;
+
+    ret = make_live_var(tLV_TYPE(left));
+    assign_live_var(t, ret, left);
+    return ret;
 }
 
 static void live_var_add(tree var, unsigned long int val)
-- 
2.43.0


From b6d192ed2ea2409a805e69f436beb63c389456ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 011/119] fix: truncate the quotient of a division towards zero

mpz_div() rounds down, so -7 / 2 was -4.
---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index cf2b195..5ca3d59 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1633,7 +1633,7 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
-- 
2.43.0


From 826d854efad62c326eae047382df09bb0e94a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:28 +0000
Subject: [PATCH 012/119] fix: shift negative values to the right
 arithmetically

mpz_tdiv_q_2exp() rounds towards zero, so -1 >> 1 was 0.
---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5ca3d59..91e531a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1521,7 +1521,7 @@ static tree eval_rshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_tdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
 
     return ret;
 }
-- 
2.43.0


From 4b9607bc337b978b7af1ca7b437531ac5eac4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 013/119] fix: keep integers that don't fit in a long intact

Unsigned variables with the top bit set were read as negative numbers,
mpz_get_si() and mpz_get_ui() drop the top bit or the sign of values out
of their range, and the conditions of if and the loops only looked at the
low bits.  Negative array indices and enumerators lost their sign as well.
---
 src/evaluate.c      | 62 ++++++++++++++++++++++++++++++---------------
 src/evaluate.h      |  1 +
 src/function-call.c |  2 +-
 3 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 91e531a..606dca1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -334,6 +334,15 @@ tree make_live_var(tree type)
     return live_var;
 }
 
+/* Obtain the value of an integer, reduced to the width of a long.  mpz_get_si()
+ * doesn't do this for values that are out of the range of a long. */
+signed long int get_int_value(tree t)
+{
+    unsigned long int val = mpz_get_ui(tINT_VAL(t));
+
+    return mpz_sgn(tINT_VAL(t)) < 0 ? -val : val;
+}
+
 static tree make_int_from_live_var(tree var)
 {
     tree ret = tree_make(T_INTEGER);
@@ -344,18 +353,23 @@ static tree make_int_from_live_var(tree var)
         case type:                                                         \
             mpz_init_set_si(tINT_VAL(ret), (ptrdiff_t)tLV_VAL(var)->type); \
             break;
+#define SETUINT(type)                                                      \
+        case type:                                                         \
+            mpz_init_set_ui(tINT_VAL(ret), (size_t)tLV_VAL(var)->type);    \
+            break;
         SETINT(D_T_CHAR);
         SETINT(D_T_SHORT);
         SETINT(D_T_INT);
         SETINT(D_T_LONG);
         SETINT(D_T_LONGLONG);
-        SETINT(D_T_UCHAR);
-        SETINT(D_T_USHORT);
-        SETINT(D_T_UINT);
-        SETINT(D_T_ULONG);
-        SETINT(D_T_ULONGLONG);
-        SETINT(D_T_PTR);
+        SETUINT(D_T_UCHAR);
+        SETUINT(D_T_USHORT);
+        SETUINT(D_T_UINT);
+        SETUINT(D_T_ULONG);
+        SETUINT(D_T_ULONGLONG);
+        SETUINT(D_T_PTR);
 #undef SETINT
+#undef SETUINT
     default:
         eval_die(var, "Could not create integer type from live var.");
     }
@@ -396,7 +410,7 @@ static tree convert_to_comparable_type(tree t, int depth)
         tree ret = make_live_var(dest_type);                            \
         if (!is_T_INTEGER(intval))                                      \
             eval_die(intval, "attempted to convert from non-integer\n"); \
-        tLV_VAL(ret)->tname = (ctype)mpz_get_si(tINT_VAL(intval));          \
+        tLV_VAL(ret)->tname = (ctype)get_int_value(intval);                \
         return ret;                                                     \
     }
 #include "ctypes.def"
@@ -1175,7 +1189,7 @@ static void assign_integer(tree var, tree right)
     switch (TYPE(right))
     {
     case T_INTEGER:
-         val = mpz_get_si(tINT_VAL(right));
+         val = get_int_value(right);
          break;
     case T_LIVE_VAR:
         switch (TYPE(tLV_TYPE(right))) {
@@ -1213,7 +1227,10 @@ static void assign_float(tree var, tree right)
     switch (TYPE(right))
     {
     case T_INTEGER:
-        val = (double)mpz_get_si(tINT_VAL(right));
+        if (mpz_fits_slong_p(tINT_VAL(right)))
+            val = (double)get_int_value(right);
+        else
+            val = (double)(unsigned long int)get_int_value(right);
          break;
     case T_FLOAT:
         val = (double)mpf_get_d(tFLOAT_VAL(right));
@@ -1271,7 +1288,7 @@ static void assign_ptr(tree var, tree right)
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
         break;
     case T_INTEGER:
-        ptr = (void *)mpz_get_ui(tINT_VAL(right));
+        ptr = (void *)get_int_value(right);
         break;
     default:
         eval_die(right, "Could not assign to non-pointer type");
@@ -1912,7 +1929,12 @@ static tree eval_cast(tree t, int depth)
 
     if (is_T_INTEGER(source)) {
         tree lv = make_live_var(dest_type);
-        assign_integer(lv, source);
+
+        if (is_D_T_FLOAT(dest_type) || is_D_T_DOUBLE(dest_type))
+            assign_float(lv, source);
+        else
+            assign_integer(lv, source);
+
         return lv;
     }
 
@@ -2060,7 +2082,7 @@ static tree eval_loop_for(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("For Loop");
@@ -2091,7 +2113,7 @@ static tree eval_loop_while(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("While Loop");
@@ -2113,7 +2135,7 @@ static tree eval_infix(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         return __evaluate_1(tINFIX_TRUE_STMT(t), depth + 1);
     else
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
@@ -2129,7 +2151,7 @@ static tree eval_if(tree t, int depth)
     tree result;
 
     push_ctx("If statement");
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
         result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
@@ -2355,7 +2377,7 @@ static tree eval_decl_compound(tree t, int depth)
 static tree eval_enumerator(tree t, int depth)
 {
     tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
-    unsigned int enum_val = 0;
+    int enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
     if (!tENUM_ENUMS(t))
@@ -2385,7 +2407,7 @@ static tree eval_enumerator(tree t, int depth)
                 convert_to_comparable_type(tASSIGN_RHS(enum_expr), depth);
 
             enum_id = tASSIGN_LHS(enum_expr);
-            enum_val = (unsigned int)mpz_get_ui(tINT_VAL(new_val));
+            enum_val = get_int_value(new_val);
 
             break;
         }
@@ -2393,7 +2415,7 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
-        mpz_init_set_ui(tINT_VAL(integer), enum_val);
+        mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
     }
@@ -2442,7 +2464,7 @@ static tree eval_array_access(tree t, int depth)
     if (!is_T_INTEGER(index))
         eval_die(index, "Unknown index type\n");
 
-    idx = mpz_get_ui(tINT_VAL(index));
+    idx = get_int_value(index);
 
     base = tLV_VAL(array)->D_T_PTR;
 
@@ -2864,7 +2886,7 @@ int get_c_main_return_value(tree t)
     if (!is_T_INTEGER(retnum))
         return 1;
 
-    ret = mpz_get_si(tINT_VAL(retnum));
+    ret = get_int_value(retnum);
 
     return ret;
 }
diff --git a/src/evaluate.h b/src/evaluate.h
index 2be051a..55886f4 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,7 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+signed long int get_int_value(tree t);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..581226d 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -90,7 +90,7 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
             case T_INTEGER:
                 {
                     int *buf = alloca(sizeof(int));
-                    *buf = mpz_get_si(tINT_VAL(arg));
+                    *buf = get_int_value(arg);
                     push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
                     break;
                 }
-- 
2.43.0


From 0bcf8dc479fa6c2ae53ed698daf3515766d62ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 014/119] fix: perform unsigned arithmetic modulo the width of
 its type

Integers were of unlimited size within an expression, so e.g. a - 1 was
negative for an unsigned a of 0.  Give each integer the type that the C
integer promotions and the usual arithmetic conversions say it has.
---
 src/c.lang     |   4 +-
 src/evaluate.c | 123 +++++++++++++++++++++++++++++++++++++++++++------
 src/evaluate.h |   1 +
 3 files changed, 114 insertions(+), 14 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 9fb4e96..81150e2 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -5,6 +5,7 @@
   (jmp_buf "jmp_buf")
   (ptr "void *")
   (sz "size_t")
+  (int "int")
   (flag "bool")
   (ffi_cif "ffi_cif *")
   (ffi_types "ffi_type **")
@@ -13,7 +14,8 @@
   (live_var_val "union value *"))
 
 (deftype T_INTEGER "Constant integer" "tINT"
-         (("VAL" integer)))
+         (("VAL" integer)
+          ("TYPE" int)))
 
 (deftype T_FLOAT "Constant floating point" "tFLOAT"
          (("VAL" ffloat)))
diff --git a/src/evaluate.c b/src/evaluate.c
index 606dca1..e059039 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -343,31 +343,95 @@ signed long int get_int_value(tree t)
     return mpz_sgn(tINT_VAL(t)) < 0 ? -val : val;
 }
 
+/* Find the type, after the integer promotions, of an integer.  There are only
+ * four that behave differently: D_T_INT, D_T_UINT, D_T_LONG and D_T_ULONG. */
+enum tree_type get_int_type(tree t)
+{
+    /* A constant doesn't have a type set, it has the first one its value fits
+     * in. */
+    if (tINT_TYPE(t))
+        return tINT_TYPE(t);
+
+    if (mpz_fits_sint_p(tINT_VAL(t)))
+        return D_T_INT;
+
+    if (mpz_fits_slong_p(tINT_VAL(t)))
+        return D_T_LONG;
+
+    return D_T_ULONG;
+}
+
+/* Set the type of an integer.  Unsigned values wrap around. */
+static void set_int_type(tree t, enum tree_type type)
+{
+    tINT_TYPE(t) = type;
+
+    if (type == D_T_UINT)
+        mpz_fdiv_r_2exp(tINT_VAL(t), tINT_VAL(t), sizeof(int) * 8);
+
+    if (type == D_T_ULONG)
+        mpz_fdiv_r_2exp(tINT_VAL(t), tINT_VAL(t), sizeof(long) * 8);
+}
+
+static tree convert_int(tree t, enum tree_type type)
+{
+    tree ret = tree_make(T_INTEGER);
+    mpz_init_set(tINT_VAL(ret), tINT_VAL(t));
+    set_int_type(ret, type);
+    return ret;
+}
+
+/* Perform the usual arithmetic conversions on the operands of a binary
+ * operator.  Returns the type they have been converted to. */
+static enum tree_type convert_operands(tree *left, tree *right)
+{
+    static const enum tree_type types[] = {D_T_ULONG, D_T_LONG, D_T_UINT};
+    enum tree_type left_type = get_int_type(*left),
+        right_type = get_int_type(*right), type = D_T_INT;
+    size_t i;
+
+    for (i = 0; i < sizeof(types) / sizeof(*types); i++)
+        if (left_type == types[i] || right_type == types[i]) {
+            type = types[i];
+            break;
+        }
+
+    if (left_type != type)
+        *left = convert_int(*left, type);
+
+    if (right_type != type)
+        *right = convert_int(*right, type);
+
+    return type;
+}
+
 static tree make_int_from_live_var(tree var)
 {
     tree ret = tree_make(T_INTEGER);
     tree type = tLV_TYPE(var);
 
     switch (TYPE(type)) {
-#define SETINT(type)                                                       \
+#define SETINT(type, int_type)                                             \
         case type:                                                         \
             mpz_init_set_si(tINT_VAL(ret), (ptrdiff_t)tLV_VAL(var)->type); \
+            tINT_TYPE(ret) = int_type;                                     \
             break;
-#define SETUINT(type)                                                      \
+#define SETUINT(type, int_type)                                            \
         case type:                                                         \
             mpz_init_set_ui(tINT_VAL(ret), (size_t)tLV_VAL(var)->type);    \
+            tINT_TYPE(ret) = int_type;                                     \
             break;
-        SETINT(D_T_CHAR);
-        SETINT(D_T_SHORT);
-        SETINT(D_T_INT);
-        SETINT(D_T_LONG);
-        SETINT(D_T_LONGLONG);
-        SETUINT(D_T_UCHAR);
-        SETUINT(D_T_USHORT);
-        SETUINT(D_T_UINT);
-        SETUINT(D_T_ULONG);
-        SETUINT(D_T_ULONGLONG);
-        SETUINT(D_T_PTR);
+        SETINT(D_T_CHAR, D_T_INT);
+        SETINT(D_T_SHORT, D_T_INT);
+        SETINT(D_T_INT, D_T_INT);
+        SETINT(D_T_LONG, D_T_LONG);
+        SETINT(D_T_LONGLONG, D_T_LONG);
+        SETUINT(D_T_UCHAR, D_T_INT);
+        SETUINT(D_T_USHORT, D_T_INT);
+        SETUINT(D_T_UINT, D_T_UINT);
+        SETUINT(D_T_ULONG, D_T_ULONG);
+        SETUINT(D_T_ULONGLONG, D_T_ULONG);
+        SETUINT(D_T_PTR, D_T_ULONG);
 #undef SETINT
 #undef SETUINT
     default:
@@ -1450,6 +1514,7 @@ static tree eval_ones_comp(tree t, int depth)
       eval_die(t, "Can't take one's complement of non-integer type.");
 
   mpz_com(tINT_VAL(ret), tINT_VAL(exp));
+  set_int_type(ret, get_int_type(exp));
 
   return ret;
 }
@@ -1460,6 +1525,7 @@ static tree eval_add(tree t, int depth)
     tree right = __evaluate_1(tADD_RHS(t), depth + 1);
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     /* Resolve all identifiers. */
@@ -1472,7 +1538,9 @@ static tree eval_add(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not add to non integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_add(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1483,6 +1551,7 @@ static tree eval_sub(tree t, int depth)
     tree right = __evaluate_1(tSUB_RHS(t), depth + 1);
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1494,7 +1563,9 @@ static tree eval_sub(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_sub(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1517,6 +1588,7 @@ static tree eval_lshift(tree t, int depth)
         eval_die(t, "Could not subtract to non integer type\n");
 
     mpz_mul_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    set_int_type(ret, get_int_type(left));
 
     return ret;
 }
@@ -1539,6 +1611,7 @@ static tree eval_rshift(tree t, int depth)
         eval_die(t, "Could not subtract to non integer type\n");
 
     mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    set_int_type(ret, get_int_type(left));
 
     return ret;
 }
@@ -1549,6 +1622,7 @@ static tree eval_ior(tree t, int depth)
     tree right = __evaluate_1(tI_OR_RHS(t), depth + 1);
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1560,7 +1634,9 @@ static tree eval_ior(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not perform inclusive or on non-integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_ior(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1571,6 +1647,7 @@ static tree eval_xor(tree t, int depth)
     tree right = __evaluate_1(tX_OR_RHS(t), depth + 1);
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1582,7 +1659,9 @@ static tree eval_xor(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not perform inclusive or on non-integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_xor(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1593,6 +1672,7 @@ static tree eval_iand(tree t, int depth)
     tree right = __evaluate_1(tI_AND_RHS(t), depth + 1);
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1604,7 +1684,9 @@ static tree eval_iand(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not perform inclusive and on non-integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_and(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1616,6 +1698,7 @@ static tree eval_mul(tree t, int depth)
 
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1627,7 +1710,9 @@ static tree eval_mul(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_mul(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1639,6 +1724,7 @@ static tree eval_div(tree t, int depth)
 
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1650,7 +1736,9 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1661,6 +1749,7 @@ static tree eval_mod(tree t, int depth)
     tree right = __evaluate_1(tMOD_RHS(t), depth + 1);
 
     tree ret = tree_make(T_INTEGER);
+    enum tree_type type;
     mpz_init(tINT_VAL(ret));
 
     if (is_T_LIVE_VAR(left))
@@ -1672,7 +1761,9 @@ static tree eval_mod(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not modulus to non integer type\n");
 
+    type = convert_operands(&left, &right);
     mpz_tdiv_r(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    set_int_type(ret, type);
 
     return ret;
 }
@@ -1695,6 +1786,7 @@ static tree eval_lt(tree t, int depth)
     switch (TYPE(left)) {
     case T_INTEGER:
     {
+        convert_operands(&left, &right);
         int result = mpz_cmp(tINT_VAL(left), tINT_VAL(right));
         ret = tree_make(T_INTEGER);
         mpz_init_set_ui(tINT_VAL(ret), result < 0 ? 1 : 0);
@@ -1719,6 +1811,7 @@ static tree eval_gt(tree t, int depth)
     switch (TYPE(left)) {
     case T_INTEGER:
     {
+        convert_operands(&left, &right);
         int result = mpz_cmp(tINT_VAL(left), tINT_VAL(right));
         ret = tree_make(T_INTEGER);
         mpz_init_set_ui(tINT_VAL(ret), result > 0 ? 1 : 0);
@@ -1743,6 +1836,7 @@ static tree eval_lteq(tree t, int depth)
     switch (TYPE(left)) {
     case T_INTEGER:
     {
+        convert_operands(&left, &right);
         int result = mpz_cmp(tINT_VAL(left), tINT_VAL(right));
         ret = tree_make(T_INTEGER);
         mpz_init_set_ui(tINT_VAL(ret), result <= 0 ? 1 : 0);
@@ -1767,6 +1861,7 @@ static tree eval_gteq(tree t, int depth)
     switch (TYPE(left)) {
     case T_INTEGER:
     {
+        convert_operands(&left, &right);
         int result = mpz_cmp(tINT_VAL(left), tINT_VAL(right));
         ret = tree_make(T_INTEGER);
         mpz_init_set_ui(tINT_VAL(ret), result >= 0 ? 1 : 0);
@@ -1797,6 +1892,7 @@ static tree eval_eq(tree t, int depth)
     case T_INTEGER:
     {
         int val;
+        convert_operands(&left, &right);
         if (!mpz_cmp(tINT_VAL(left), tINT_VAL(right)))
             val = 1;
         else
@@ -1825,6 +1921,7 @@ static tree eval_n_eq(tree t, int depth)
     case T_INTEGER:
     {
         int val;
+        convert_operands(&left, &right);
         if (!mpz_cmp(tINT_VAL(left), tINT_VAL(right)))
             val = 0;
         else
diff --git a/src/evaluate.h b/src/evaluate.h
index 55886f4..723cd3e 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -18,6 +18,7 @@ void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
 signed long int get_int_value(tree t);
+enum tree_type get_int_type(tree t);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
-- 
2.43.0


From 4cf8bd396774d2dc6a32d79df61feb351691f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 015/119] fix: don't let a minus sign be part of a number

'a-1' was a syntax error, as the lexer took '-1' for a constant, and so
was the negation of anything else than a constant.
---
 src/lex.m4    |  4 ++--
 src/parser.m4 | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..a35180a 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,8 +195,8 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
--?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
diff --git a/src/parser.m4 b/src/parser.m4
index ed2adc4..4d0861d 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -345,6 +345,22 @@ unary_expression
     set_locus(deref, @1);
     $$ = deref;
 }
+| '-' cast_expression
+{
+    if (is_T_INTEGER($2)) {
+        mpz_neg(tINT_VAL($2), tINT_VAL($2));
+        $$ = $2;
+    } else if (is_T_FLOAT($2)) {
+        mpf_neg(tFLOAT_VAL($2), tFLOAT_VAL($2));
+        $$ = $2;
+    } else {
+        tree sub = tree_make(T_SUB);
+        tSUB_LHS(sub) = get_integer(0);
+        tSUB_RHS(sub) = $2;
+        set_locus(sub, @1);
+        $$ = sub;
+    }
+}
 | '~' unary_expression
 {
     tree comp = tree_make(T_ONES_COMP);
-- 
2.43.0


From 8acc474f3d24a7c285ffeee8bff1423a09c150e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 016/119] fix: read constants with a leading zero as octal

---
 src/lex.m4 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.m4 b/src/lex.m4
index a35180a..bc0ea12 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,6 +195,7 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
+0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
 [0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
 [0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
-- 
2.43.0


From 88ef8bcf00160668895c553ef57f7b63c2663686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 017/119] fix: give hexadecimal and octal constants their
 unsigned type

0xFFFFFFFF is an unsigned int, so that 0xFFFFFFFF + 1 is 0.
---
 src/lex.m4    | 13 +++++++++++--
 src/parser.m4 | 12 +++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index bc0ea12..2fea3a1 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -59,6 +59,13 @@ CSCRIPT_ONLY
     }
 ALL_TARGETS
 
+/* A constant that isn't decimal and doesn't fit in an int is unsigned if it
+ * fits in an unsigned int. */
+static int is_unsigned_constant(mpz_t val)
+{
+    return !mpz_fits_sint_p(val) && mpz_fits_uint_p(val);
+}
+
 static void sl_begin(void)
 {
     if (!sl_buf)
@@ -195,10 +202,12 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
-0[0-7]+                         mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8); return INTEGER;
+0[0-7]+                         {mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 8);
+                                 return is_unsigned_constant(LEXLVAL.integer) ? UINTEGER : INTEGER;}
 [0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
 [0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
-0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
+0x{X}+                          {mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0);
+                                 return is_unsigned_constant(LEXLVAL.integer) ? UINTEGER : INTEGER;}
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
diff --git a/src/parser.m4 b/src/parser.m4
index 4d0861d..450fb67 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -118,6 +118,7 @@ ALL_TARGETS
 %token <string> CONST_BITS
 %token <string> CONST_STRING
 %token <integer> INTEGER;
+%token <integer> UINTEGER;
 %token <ffloat> FLOAT_CST;
 %type <tree> primary_expression
 %type <tree> postfix_expression
@@ -204,6 +205,15 @@ primary_expression
     set_locus(number, @1);
     $$ = number;
 }
+| UINTEGER
+{
+    tree number = tree_make(T_INTEGER);
+    mpz_init_set(tINT_VAL(number), $1);
+    mpz_clear($1);
+    tINT_TYPE(number) = D_T_UINT;
+    set_locus(number, @1);
+    $$ = number;
+}
 | FLOAT_CST
 {
     tree ffloat = tree_make(T_FLOAT);
@@ -347,7 +357,7 @@ unary_expression
 }
 | '-' cast_expression
 {
-    if (is_T_INTEGER($2)) {
+    if (is_T_INTEGER($2) && !tINT_TYPE($2)) {
         mpz_neg(tINT_VAL($2), tINT_VAL($2));
         $$ = $2;
     } else if (is_T_FLOAT($2)) {
-- 
2.43.0


From 59bd6f1b163ac30472a1c17533f85dcb682274dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 018/119] fix: copy the return value of a function before its
 context goes away

The value of a call was the tree that the return statement had evaluated
to.  For a local variable, its memory is free'd when the context of the
function is collected, so the result of a call could turn into garbage
before it was used.  Nor was the value converted to the return type.
---
 src/evaluate.c | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e059039..7e91e4e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -44,6 +44,8 @@ static const char *current_filename;
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
 
+static void assign_live_var(tree t, tree left, tree right);
+
 enum identifier_search_scope
 {
     SCOPE_CURRENT_CTX,
@@ -497,6 +499,43 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+/* Convert the value of a `return' statement to the return type of the function.
+ *
+ * The result has to be a copy that belongs to the context of the caller: the
+ * value could be a variable of the function, which is free'd along with the
+ * function's context (fn_ctx), or one that's modified before the result of this
+ * call is used. */
+static tree make_return_value(tree fncall, tree ret_type, tree fn_ctx,
+                              tree value)
+{
+    tree ret;
+
+    if (!value)
+        return NULL;
+
+    switch (TYPE(value)) {
+    case T_INTEGER:
+    case T_FLOAT:
+    case T_STRING:
+    case T_LIVE_VAR:
+        break;
+    default:
+        return value;
+    }
+
+    switch (TYPE(ret_type)) {
+    case D_T_CHAR ... D_T_DOUBLE:
+    case D_T_PTR:
+        break;
+    default:
+        return value;
+    }
+
+    ret = make_live_var(ret_type);
+    assign_live_var(fncall, ret, tECTX_RETVAL(fn_ctx));
+    return ret;
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -609,7 +648,8 @@ static tree eval_fn_call(tree t, int depth)
 
             pop_ctx();
 
-            return return_val;
+            return make_return_value(t, tFN_RET_TYPE(function), fn_ctx,
+                                     return_val);
         } else {
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
             char *function_name = tID_STR(tFN_DECL(function));
@@ -1255,6 +1295,9 @@ static void assign_integer(tree var, tree right)
     case T_INTEGER:
          val = get_int_value(right);
          break;
+    case T_FLOAT:
+        val = (signed long int)mpf_get_d(tFLOAT_VAL(right));
+        break;
     case T_LIVE_VAR:
         switch (TYPE(tLV_TYPE(right))) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)         \
-- 
2.43.0


From 6799fc1fbd8dd93941bccc133015ee88e8bb75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 019/119] fix: keep the pointers of an initialised declarator
 for its next evaluation

---
 src/evaluate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7e91e4e..3ea70f3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -952,10 +952,14 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
-
-        __evaluate_1(decl, depth + 1);
+         * Therefore ret becomes the LHS of the assignment.  Don't change `decl'
+         * itself, its pointers are needed the next time it's evaluated. */
+        tree assign = tree_make(T_ASSIGN);
+        tLOCUS(assign) = tLOCUS(decl);
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From 961dd39ff6fcdd1f64ff02af3c37e44d505892c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 020/119] fix: don't count a lone void as a parameter of a
 function

---
 src/parser.m4 | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 450fb67..e8819eb 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -58,6 +58,32 @@ static void maybe_add_typenames(tree decl)
         find_ids_to_map_to_typenames(decl);
 }
 
+/* A parameter list that consists of a lone `void' declares that the function
+ * has no parameters. */
+static tree make_fn_args(tree args)
+{
+    tree arg, spec;
+    int no_args = 0, no_specs = 0;
+    bool is_void = false;
+
+    for_each_tree(arg, args) {
+        no_args++;
+
+        if (!is_T_DECL(arg) || tDECL_DECLS(arg))
+            continue;
+
+        for_each_tree(spec, tDECL_SPECS(arg)) {
+            no_specs++;
+            is_void = is_T_VOID_TS(spec);
+        }
+    }
+
+    if (no_args == 1 && no_specs == 1 && is_void)
+        return NULL;
+
+    return args;
+}
+
 CSCRIPT_ONLY
     /* The head of the chain of a compound statement can't be an element of
      * the chain of the enclosing block at the same time. */
@@ -1113,7 +1139,7 @@ direct_declarator
 {
     tree fn = tree_make(T_FN);
     tFN_DECL(fn) = $1;
-    tFN_ARGS(fn) = $3;
+    tFN_ARGS(fn) = make_fn_args($3);
     set_locus(fn, @2);
     $$ = fn;
 }
@@ -1321,7 +1347,7 @@ direct_abstract_declarator
 | '(' parameter_type_list ')'
 {
     tree fn = tree_make(T_FN);
-    tFN_ARGS(fn) = $2;
+    tFN_ARGS(fn) = make_fn_args($2);
     set_locus(fn, @1);
     $$ = fn;
 }
@@ -1336,7 +1362,7 @@ direct_abstract_declarator
 {
     tree fn = tree_make(T_FN);
     tFN_DECL(fn) = $1;
-    tFN_ARGS(fn) = $3;
+    tFN_ARGS(fn) = make_fn_args($3);
     set_locus(fn, @2);
     $$ = fn;
 }
-- 
2.43.0


From 08f760be1fce83453e8ba2a9e43fdea4a6d353d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 021/119] fix: allow a function that has been declared to be
 defined

---
 src/evaluate.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3ea70f3..8922a26 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -932,12 +932,17 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         }
 
         /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+        previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
 
-            if (previous_decl)
-                return previous_decl;
-    }
+        if (previous_decl && !tFN_STMTS(fn))
+            return previous_decl;
+
+        /* This is the definition of a function that has been declared.  Replace
+         * the declaration so that all references to it see the definition. */
+        if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+            tree_copy(previous_decl, fn);
+            return decl;
+        }
 
         map_identifier(tFN_DECL(fn), fn);
         return decl;
-- 
2.43.0


From d2c625f037785a813f48d3424884494c198fbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 022/119] fix: allow the definition of functions that return a
 pointer

---
 src/parser.m4 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index e8819eb..7175ce1 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -100,6 +100,16 @@ CSCRIPT_ONLY
         return block;
     }
 
+    /* The declarator of a function that returns a pointer is wrapped in the
+     * pointers of its return type. */
+    static void set_fn_stmts(tree declarator, tree stmts)
+    {
+        while (is_T_POINTER(declarator))
+            declarator = tPTR_EXP(declarator);
+
+        tFN_STMTS(declarator) = stmts;
+    }
+
     void TARGET()_parser_set_file(const char *fname)
     {
         TARGET()_current_file = fname;
@@ -1628,7 +1638,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $4;
+        set_fn_stmts($2, $4);
         set_locus(decl, @2);
         $$ = decl;
     }
@@ -1637,7 +1647,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $3;
+        set_fn_stmts($2, $3);
         set_locus(decl, @2);
         $$ = decl;
     }
-- 
2.43.0


From 87bb5a26469482153c14f7f35322f24a54ee52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 023/119] fix: execute for loops that have no condition

---
 src/evaluate.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8922a26..3cb88d8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2223,16 +2223,19 @@ static tree eval_loop_for(tree t, int depth)
 
     do {
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
+        /* A loop without a condition is only left by a jump. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            tree cond_result = __evaluate_1(tFLOOP_COND(t),
+                                            depth + 1);
 
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            cond_result = convert_to_comparable_type(cond_result, depth + 1);
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
 
-        if (!mpz_sgn(tINT_VAL(cond_result)))
-            break;
+            if (!mpz_sgn(tINT_VAL(cond_result)))
+                break;
+        }
 
         push_ctx("For Loop");
         tree result = __evaluate(tFLOOP_STMTS(t), depth + 1);
-- 
2.43.0


From 744eb3484ef3c2a55c80a1c6cf4d5bf20fc6358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 024/119] fix: exit with the value that main() returns

---
 src/cscript.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..5012515 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -105,7 +105,7 @@ static void create_arguments(int argc, char *argv[])
     evaluate(chain, "<COMPOSE ARGS>");
 }
 
-static void add_call_to_main(tree head, int num_args)
+static tree make_call_to_main(int num_args)
 {
     tree main_fncall = tree_make(T_FN_CALL);
 
@@ -121,7 +121,7 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    return main_fncall;
 }
 
 static void __evaluate_cscript(tree head, const char *fname, int argc,
@@ -179,10 +179,16 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
 
     create_arguments(argc, argv);
 
-    if (has_main)
-        add_call_to_main(head, num_main_args);
-
     evaluate(head, fname);
+
+    if (has_main) {
+        tree result = evaluate_expr(make_call_to_main(num_main_args));
+
+        /* The value that main() returns is the exit status.  If it doesn't
+         * return one, that's 0. */
+        if (result)
+            cscript_exit(result);
+    }
 }
 
 void cscript_exit(tree result)
-- 
2.43.0


From eaa7d7cae00ef0808322845ee19ed21f01522547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 025/119] fix: give string literals static storage duration

---
 src/evaluate.c | 3 ++-
 src/gc.c       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3cb88d8..4fda07d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1398,7 +1398,8 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        /* The characters of a string literal exist until the program ends. */
+        ptr = tSTRING_VAL(right);
         break;
     case T_LIVE_VAR:
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
diff --git a/src/gc.c b/src/gc.c
index 3498258..dcd3980 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -96,7 +96,8 @@ static void dealloc_object(gc_obj obj)
         free(tID_STR(t));
         break;
     case T_STRING:
-        free(tSTRING_VAL(t));
+        /* The program could still have a pointer to the characters of a string
+         * literal. */
         break;
     case E_ALLOC:
         free(tALLOC_PTR(t));
-- 
2.43.0


From 05e6f23de5f1e0ebb5a8d707dc24a10fb2b520a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 026/119] fix: pass integers to external functions with the
 width of their type

---
 src/function-call.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/function-call.c b/src/function-call.c
index 581226d..2618f88 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -89,9 +89,12 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
                 break;
             case T_INTEGER:
                 {
-                    int *buf = alloca(sizeof(int));
-                    *buf = get_int_value(arg);
-                    push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
+                    enum tree_type type = get_int_type(arg);
+                    tree lv = make_live_var(tree_make(type));
+
+                    tLV_VAL(lv)->D_T_LONG = get_int_value(arg);
+                    push_arg(types, vals, &n, get_ffi_type(type), tLV_VAL(lv),
+                             should_promote);
                     break;
                 }
             case T_FLOAT:
-- 
2.43.0


From 688acb9a1cc47a3fe27c9c698a715d0b87008f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 027/119] fix: convert the arguments of an external call to the
 types of its parameters

---
 src/evaluate.c | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 4fda07d..1b17228 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -499,6 +499,52 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+/* Convert the arguments of a call to an external function to the types of the
+ * parameters of its declaration. */
+static void convert_ext_args(tree function, tree args, int depth)
+{
+    tree decl, arg = args;
+
+    if (!args)
+        return;
+
+    for_each_tree(decl, tFN_ARGS(function)) {
+        tree type, lv;
+
+        arg = list_entry(arg->chain.next, typeof(*arg), chain);
+
+        if (arg == args || !is_T_DECL(decl))
+            break;
+
+        if (tDECL_DECLS(decl) && !is_T_IDENTIFIER(tDECL_DECLS(decl)))
+            continue;
+
+        type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
+
+        if (is_T_IDENTIFIER(type))
+            type = __evaluate_1(type, depth + 1);
+
+        switch (TYPE(type)) {
+        case D_T_CHAR ... D_T_DOUBLE:
+            break;
+        default:
+            continue;
+        }
+
+        switch (TYPE(tFNARG_EXP(arg))) {
+        case T_INTEGER:
+        case T_FLOAT:
+        case T_LIVE_VAR:
+            lv = make_live_var(type);
+            assign_live_var(decl, lv, tFNARG_EXP(arg));
+            tFNARG_EXP(arg) = lv;
+            break;
+        default:
+            break;
+        }
+    }
+}
+
 /* Convert the value of a `return' statement to the return type of the function.
  *
  * The result has to be a copy that belongs to the context of the caller: the
@@ -675,6 +721,7 @@ static tree eval_fn_call(tree t, int depth)
             /* Evaluate all arguments before passing into the marshalling
              * function. */
             fn_arg_chain = eval_fn_args(args, depth);
+            convert_ext_args(function, fn_arg_chain, depth);
 
             if (!is_D_T_VOID(tFN_RET_TYPE(function)))
                 ret_lv = make_live_var(tFN_RET_TYPE(function));
@@ -717,6 +764,7 @@ static tree eval_fn_call(tree t, int depth)
         /* Evaluate all arguments before passing into the marshalling
          * function. */
         fn_arg_chain = eval_fn_args(args, depth);
+        convert_ext_args(function_type, fn_arg_chain, depth);
 
         do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
                     is_variadic ? &variadic_pos : NULL);
-- 
2.43.0


From e3cdf8dc6efdde5c91cb1f0249a38dfdfa6db24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 028/119] fix: keep the closure of a function whose address has
 been taken

---
 src/c.lang          |  3 ++-
 src/function-call.c | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 81150e2..8f1a667 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -196,7 +196,8 @@
          ("ARG_TYPES" "RET_TYPE" "FN"
           ("CIF" ffi_cif)
           ("TYPES" ffi_types)
-          ("CLOSURE" ffi_closure)))
+          ("CLOSURE" ffi_closure)
+          ("ENTRY" ptr)))
 
 (deftype T_FN_ARG "Function Argument" "tFNARG"
          ("EXP"))
diff --git a/src/function-call.c b/src/function-call.c
index 2618f88..7f694ba 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -12,6 +12,11 @@
 
 #define ARG_STACK_SZ 32
 
+/* The closures of all functions that have had their address taken.  The program
+ * could keep that address anywhere, so they are never free'd. */
+static tree closures = NULL;
+GC_STATIC_TREE(closures);
+
 static void push_arg(ffi_type **type_stack,
                      void **val_stack,
                      int *n,
@@ -165,9 +170,18 @@ void *get_entry_point_for_fn(tree fndef)
     void *ret;
     tree arg, args = tFN_ARGS(fndef),
         ret_type = tFN_RET_TYPE(fndef);
-    tree arg_chain = tree_make(CHAIN_HEAD),
-        closure = tree_make(T_CLOSURE);
+    tree arg_chain, closure;
     ffi_type *ffi_ret_type = &ffi_type_void;
+
+    if (!closures)
+        closures = tree_make(CHAIN_HEAD);
+
+    for_each_tree(closure, closures)
+        if (tCLOSURE_FN(closure) == fndef)
+            return tCLOSURE_ENTRY(closure);
+
+    arg_chain = tree_make(CHAIN_HEAD);
+    closure = tree_make(T_CLOSURE);
     tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
     tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
 
@@ -214,5 +228,8 @@ void *get_entry_point_for_fn(tree fndef)
                          (void *)closure,
                          ret);
 
+    tCLOSURE_ENTRY(closure) = ret;
+    tree_chain(closure, closures);
+
     return ret;
 }
-- 
2.43.0


From a96583d3d93edfe999a035ef2b645bd48c85440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 029/119] fix: hand the return value of a callback to its
 external caller

---
 src/function-call.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/function-call.c b/src/function-call.c
index 7f694ba..d65f3d0 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -131,13 +131,46 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
     enable_gc();
 }
 
+/* Hand the value that a function returned to the external caller.  libffi
+ * expects integers that are smaller than a ffi_arg to be widened to one. */
+static void set_closure_result(tree ret_type, tree result, void *ret)
+{
+    switch (TYPE(ret_type)) {
+#define SET_INT_RESULT(TNAME)                             \
+    case TNAME:                                           \
+        *((ffi_arg *)ret) = (ffi_arg)tLV_VAL(result)->TNAME; \
+        break;
+    SET_INT_RESULT(D_T_CHAR);
+    SET_INT_RESULT(D_T_SHORT);
+    SET_INT_RESULT(D_T_INT);
+    SET_INT_RESULT(D_T_LONG);
+    SET_INT_RESULT(D_T_LONGLONG);
+    SET_INT_RESULT(D_T_UCHAR);
+    SET_INT_RESULT(D_T_USHORT);
+    SET_INT_RESULT(D_T_UINT);
+    SET_INT_RESULT(D_T_ULONG);
+    SET_INT_RESULT(D_T_ULONGLONG);
+    SET_INT_RESULT(D_T_PTR);
+#undef SET_INT_RESULT
+    case D_T_FLOAT:
+        *((float *)ret) = tLV_VAL(result)->D_T_FLOAT;
+        break;
+    case D_T_DOUBLE:
+        *((double *)ret) = tLV_VAL(result)->D_T_DOUBLE;
+        break;
+    default:
+        break;
+    }
+}
+
 static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
 {
     tree closure = (tree)user;
     tree arg,
         args = tCLOSURE_ARG_TYPES(closure),
         arg_chain = tree_make(CHAIN_HEAD),
-        fn_call = tree_make(T_FN_CALL);
+        fn_call = tree_make(T_FN_CALL),
+        result;
     int n = 0;
 
     for_each_tree(arg, args) {
@@ -162,7 +195,10 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    result = evaluate_expr(fn_call);
+
+    if (result)
+        set_closure_result(tCLOSURE_RET_TYPE(closure), result, ret);
 }
 
 void *get_entry_point_for_fn(tree fndef)
-- 
2.43.0


From d5da1b61194e45aad7b25b310cb77c88fce61243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 030/119] fix: lay out the members of a compound with the
 alignment of their types

---
 src/c.lang     |  1 +
 src/evaluate.c | 33 +++++++++++++++++----------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 8f1a667..5c7fb92 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -180,6 +180,7 @@
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
          ("ID" "DECLS"
                ("SZ" sz)
+               ("ALIGN" sz)
                ("EXPANDED" flag)
                ("TYPE"  comp_decl_type)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 1b17228..1cff1cd 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2439,27 +2439,18 @@ static size_t get_alignment_for_type(tree t, int depth)
              * array's base type. */
             tree array_type = tDTPTR_EXP(tLV_TYPE(t));
 
-            alignment = get_size_of_type(array_type, depth);
+            alignment = get_alignment_for_type(array_type, depth);
         }
         else
             alignment = get_size_of_type(tLV_TYPE(t), depth);
         break;
     }
     case T_LIVE_COMPOUND:
-    {
-        tree first_member = NULL;
-
-        for_each_tree(first_member, tLV_COMP_MEMBERS(t))
-            break;
-
-        if (!first_member)
-            eval_die(t, "First member not found in live compound");
-
-        first_member = tEMAP_RIGHT(first_member);
-
-        alignment = get_alignment_for_type(first_member, depth);
-    }
-    break;
+        alignment = get_alignment_for_type(tLV_COMP_DECL(t), depth);
+        break;
+    case T_DECL_COMPOUND:
+        alignment = tCOMP_DECL_ALIGN(t);
+        break;
     case D_T_CHAR...D_T_PTR:
         alignment = get_size_of_type(t, depth);
         break;
@@ -2474,7 +2465,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
-    size_t max_member_sz = 0;
+    size_t max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -2547,6 +2538,9 @@ static tree eval_decl_compound(tree t, int depth)
         member_size = get_size_of_type(live_var, depth);
         member_alignment = get_alignment_for_type(live_var, depth);
 
+        if (member_alignment > max_alignment)
+            max_alignment = member_alignment;
+
         if (offset == 0)
             padding_size = 0;
         else
@@ -2570,6 +2564,13 @@ static tree eval_decl_compound(tree t, int depth)
     else
         tCOMP_DECL_SZ(t) = max_member_sz;
 
+    /* The alignment of a compound is that of its most strictly aligned member.
+     * Its size is a multiple of the alignment, so that each element of an array
+     * is aligned. */
+    tCOMP_DECL_ALIGN(t) = max_alignment;
+    tCOMP_DECL_SZ(t) = (tCOMP_DECL_SZ(t) + max_alignment - 1) &
+        ~(max_alignment - 1);
+
     tCOMP_DECL_EXPANDED(t) = 1;
 
     return t;
-- 
2.43.0


From edc6fb2c3b46a73db544b3aa2d6b4a0cd8d6ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 031/119] fix: scale pointer arithmetic by the size of the type
 that is pointed to

---
 src/evaluate.c | 104 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 92 insertions(+), 12 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1cff1cd..949be70 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1504,6 +1504,66 @@ static tree eval_assign(tree t, int depth)
     return ret;
 }
 
+static bool is_pointer(tree t)
+{
+    return is_T_LIVE_VAR(t) && is_D_T_PTR(tLV_TYPE(t));
+}
+
+/* The number of bytes between two consecutive elements that a pointer points
+ * to. */
+static signed long int get_ptr_step(tree ptr, int depth)
+{
+    tree type = tDTPTR_EXP(tLV_TYPE(ptr));
+
+    if (is_D_T_VOID(type) || is_T_FN(type))
+        return 1;
+
+    return get_size_of_type(type, depth);
+}
+
+/* Make a pointer that points `n' elements past what `ptr' points to. */
+static tree make_ptr_offset(tree t, tree ptr, tree n, bool backward, int depth)
+{
+    tree ret, ptr_type;
+    signed long int offset;
+
+    if (is_T_LIVE_VAR(n))
+        n = make_int_from_live_var(n);
+
+    if (!is_T_INTEGER(n))
+        eval_die(t, "Could not offset a pointer by a non integer type\n");
+
+    offset = get_int_value(n) * get_ptr_step(ptr, depth);
+
+    ptr_type = tree_make(D_T_PTR);
+    tDTPTR_EXP(ptr_type) = tDTPTR_EXP(tLV_TYPE(ptr));
+    ret = make_live_var(ptr_type);
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(ptr)->D_T_PTR +
+        (backward ? -offset : offset);
+
+    return ret;
+}
+
+/* Obtain the value of a variable that is incremented or decremented. */
+static tree get_step_value(tree var)
+{
+    tree ret;
+
+    if (!is_pointer(var))
+        return make_int_from_live_var(var);
+
+    ret = make_live_var(tLV_TYPE(var));
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(var)->D_T_PTR;
+
+    return ret;
+}
+
+/* Obtain the amount by which a variable is incremented or decremented. */
+static unsigned long int get_step(tree var, int depth)
+{
+    return is_pointer(var) ? get_ptr_step(var, depth) : 1;
+}
+
 static void live_var_add(tree var, unsigned long int val)
 {
     tree type = tLV_TYPE(var);
@@ -1541,9 +1601,9 @@ static tree eval_post_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = get_step_value(exp);
 
-    live_var_add(exp, 1);
+    live_var_add(exp, get_step(exp, depth));
 
     return ret;
 }
@@ -1555,9 +1615,9 @@ static tree eval_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    live_var_add(exp, 1);
+    live_var_add(exp, get_step(exp, depth));
 
-    ret = make_int_from_live_var(exp);
+    ret = get_step_value(exp);
 
     return ret;
 }
@@ -1569,8 +1629,8 @@ static tree eval_post_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
-    live_var_sub(exp, 1);
+    ret = get_step_value(exp);
+    live_var_sub(exp, get_step(exp, depth));
     return ret;
 }
 
@@ -1581,8 +1641,8 @@ static tree eval_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    live_var_sub(exp, 1);
-    ret = make_int_from_live_var(exp);
+    live_var_sub(exp, get_step(exp, depth));
+    ret = get_step_value(exp);
     return ret;
 }
 
@@ -1624,9 +1684,16 @@ static tree eval_add(tree t, int depth)
 {
     tree left = __evaluate_1(tADD_LHS(t), depth + 1);
     tree right = __evaluate_1(tADD_RHS(t), depth + 1);
-
-    tree ret = tree_make(T_INTEGER);
+    tree ret;
     enum tree_type type;
+
+    if (is_pointer(left))
+        return make_ptr_offset(t, left, right, false, depth);
+
+    if (is_pointer(right))
+        return make_ptr_offset(t, right, left, false, depth);
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
     /* Resolve all identifiers. */
@@ -1650,11 +1717,24 @@ static tree eval_sub(tree t, int depth)
 {
     tree left = __evaluate_1(tSUB_LHS(t), depth + 1);
     tree right = __evaluate_1(tSUB_RHS(t), depth + 1);
-
-    tree ret = tree_make(T_INTEGER);
+    tree ret;
     enum tree_type type;
+
+    if (is_pointer(left) && !is_pointer(right))
+        return make_ptr_offset(t, left, right, true, depth);
+
+    ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
+    if (is_pointer(left)) {
+        signed long int distance = (char *)tLV_VAL(left)->D_T_PTR -
+            (char *)tLV_VAL(right)->D_T_PTR;
+
+        mpz_set_si(tINT_VAL(ret), distance / get_ptr_step(left, depth));
+        tINT_TYPE(ret) = D_T_LONG;
+        return ret;
+    }
+
     if (is_T_LIVE_VAR(left))
         left = make_int_from_live_var(left);
 
-- 
2.43.0


From cd13f43552969a69aa471184591f5f49b9f895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 032/119] fix: make an enumeration with negative enumerators
 signed

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 949be70..01c467f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2697,6 +2697,10 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
+        /* The type has to be able to represent all of its enumerators. */
+        if (enum_val < 0)
+            TYPE(enum_base_type) = D_T_INT;
+
         mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
-- 
2.43.0


From db11d7458df8aecc0441b89b38caba98e1567e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 033/119] fix: don't use uninitialised elements of the
 allocation array of the collector

---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index dcd3980..6124290 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -135,10 +135,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -173,7 +171,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * (alloc_array_sz - old_alloc_array_sz));
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From 0049c15be68c61962bba0d32a76eee59869d98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 034/119] fix: evaluate the left operand of a compound
 assignment once

---
 src/evaluate.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 01c467f..81edfe1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1481,10 +1481,41 @@ static void assign_live_var(tree t, tree left, tree right)
     }
 }
 
+/* The operator of a compound assignment shares its left operand with the
+ * assignment (see tree_make_binmod).  That operand is only evaluated once, so
+ * make an operator that works on the result of the evaluation. */
+static tree bind_binmod(tree op, tree left, tree evaluated)
+{
+    tree ret;
+
+    if (!op)
+        return op;
+
+    switch (TYPE(op)) {
+#define BIND(type, prefix)                      \
+    case type:                                  \
+        if (prefix##_LHS(op) != left)           \
+            return op;                          \
+        ret = alloc_copy_tree(op);              \
+        prefix##_LHS(ret) = evaluated;          \
+        return ret;
+    BIND(T_ADD, tADD);
+    BIND(T_SUB, tSUB);
+    BIND(T_DIV, tDIV);
+    BIND(T_LSHIFT, tLSHIFT);
+    BIND(T_RSHIFT, tRSHIFT);
+    BIND(T_X_OR, tX_OR);
+#undef BIND
+    default:
+        return op;
+    }
+}
+
 static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+    tree right = __evaluate_1(bind_binmod(tASSIGN_RHS(t), tASSIGN_LHS(t), left),
+                              depth + 1);
     tree ret;
 
     /* Ensure we have a valid lvalue. */
-- 
2.43.0


From 5cacea672402638d18cd25d38dcfac9d752ee669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 035/119] fix: give all operators a source location

---
 src/parser.m4 | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 7175ce1..3c7dcb9 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -517,6 +517,7 @@ relational_expression
     tree lt = tree_make(T_LT);
     tLT_LHS(lt) = $1;
     tLT_RHS(lt) = $3;
+    set_locus(lt, @2);
     $$ = lt;
 }
 | relational_expression '>' shift_expression
@@ -631,6 +632,7 @@ conditional_expression
     tINFIX_COND(infix) = $1;
     tINFIX_TRUE_STMT(infix) = $3;
     tINFIX_FALSE_STMT(infix) = $5;
+    set_locus(infix, @2);
     $$ = infix;
 }
 
@@ -651,26 +653,38 @@ assignment_expression
 | unary_expression ADD_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_ADD, tADD, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression SUB_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_SUB, tSUB, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression  DIV_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_DIV, tDIV, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression LSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_LSHIFT, tLSHIFT, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression RSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_RSHIFT, tRSHIFT, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression XOR_ASSIGN assignment_expression
 {
-$$ = tree_make_binmod(T_X_OR, tX_OR, $1, $3);
+    $$ = tree_make_binmod(T_X_OR, tX_OR, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 ;
 
-- 
2.43.0


From d526a45a3b88431524c9bb23a38ae770931a971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 036/119] fix: don't let a minus sign change the type of a
 constant

---
 src/parser.m4 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index 3c7dcb9..6afb433 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -8,6 +8,7 @@ divert(0)dnl
 `#'include <stdbool.h>
 `#'include "tree.h"
 `#'include "typename.h"
+`#'include "evaluate.h"
 `#'include "util.h"
 `#'include "TARGET()parser.h"
 
@@ -394,6 +395,8 @@ unary_expression
 | '-' cast_expression
 {
     if (is_T_INTEGER($2) && !tINT_TYPE($2)) {
+        /* The type is that of the constant, without the minus sign. */
+        tINT_TYPE($2) = get_int_type($2);
         mpz_neg(tINT_VAL($2), tINT_VAL($2));
         $$ = $2;
     } else if (is_T_FLOAT($2)) {
-- 
2.43.0


From e09aae668957b471f516421c832bf18b4a6426d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 037/119] fix: read at most three digits of an octal escape
 sequence

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 2fea3a1..c71d75d 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -213,7 +213,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
-<str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
+<str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
-- 
2.43.0


From 2ad7c06cf3e761bb18c28eec9d6b9213facc6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 038/119] fix: complete the members of compounds

---
 src/repl.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index c64d807..9f58375 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -91,7 +91,7 @@ static int split_compound_access_text(const char *text,
             break;
         }
 
-        if (strstr(&text[i], "->")) {
+        if (strncmp(&text[i], "->", 2) == 0) {
             comp_access->obj_expr = strdup(text);
             comp_access->obj_expr[i] = '\0';
 
@@ -99,6 +99,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
@@ -111,6 +112,7 @@ static int split_compound_access_text(const char *text,
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
     char *comp_obj_expr = strdup(comp_access.obj_expr);
+    tree stmt;
 
     if (comp_access.needs_deref) {
         comp_obj_expr = concat_strings("*(", comp_obj_expr);
@@ -130,7 +132,11 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
     if (parse_result)
         return NULL;
 
-    return evaluate_expr(repl_parse_head);
+    /* The parser returns a chain of statements, there's only one here. */
+    for_each_tree(stmt, repl_parse_head)
+        return evaluate_expr(stmt);
+
+    return NULL;
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
@@ -250,9 +256,8 @@ static char **recieve_matches(int fd)
     size_t n;
     int i;
 
-    read(fd, &n, sizeof(n));
-
-    if (!n)
+    /* If the expression couldn't be evaluated, nothing is sent. */
+    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
-- 
2.43.0


From f95bbe8a6a33e35c153e2127f4ededa408ee67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 039/119] fix: don't move identifiers out of their declaration
 when completing them

---
 src/repl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 9f58375..8e8ec8a 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -147,7 +147,8 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
         if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+            /* The identifier could be an element of a declaration's chain. */
+            tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
-- 
2.43.0


From e38d48ac4b43402cefb8360689f2d875a73e1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 040/119] fix: name the REPL as the source of its errors

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 81edfe1..5bc6d35 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -39,7 +39,7 @@ const tree get_include_chain(void)
     return include_chain;
 }
 
-static const char *current_filename;
+static const char *current_filename = "<REPL>";
 
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
-- 
2.43.0


From 2c2d029c68afecc00e96aec7344a119c54df1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 041/119] fix: search the include directories when executing a
 script

---
 src/cscript.c    |  8 ++++++--
 src/preprocess.c | 42 ++++++++++++++++++++++++------------------
 src/preprocess.h |  1 +
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 5012515..a7e066f 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -3,6 +3,7 @@
 #include "cscriptparser.h"
 #include "evaluate.h"
 #include "gc.h"
+#include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include <string.h>
@@ -28,9 +29,12 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command;
+    char *command, *include_opts = preprocessor_get_include_opts();
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"", include_opts,
+             fname);
+
+    free(include_opts);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..c6ff696 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,12 +10,34 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* Build the options that tell the preprocessor about the include directories.
+ * The caller has to free the result. */
+char *preprocessor_get_include_opts(void)
+{
+    char *ret;
+    size_t include_len = 0;
+    tree i;
+
+    for_each_tree(i, include_dirs)
+        include_len += strlen(tSTRING_VAL(i)) + 4;
+
+    ret = malloc(include_len + 1);
+    ret[0] = '\0';
+
+    for_each_tree(i, include_dirs) {
+        strcat(ret, " -I ");
+        strcat(ret, tSTRING_VAL(i));
+    }
+
+    return ret;
+}
+
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char out_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
   char *command;
-  char *include_dir_opts = NULL;
+  char *include_dir_opts;
   FILE *out_file_stream;
   int cpp_file_fd, out_file_fd, ret;
   tree i;
@@ -51,23 +73,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   close(cpp_file_fd);
 
-  if (include_dirs) {
-      size_t include_len = 0;
-
-      for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 4;
-
-      include_dir_opts = malloc(include_len + 1);
-      include_dir_opts[0] = '\0';
-
-      for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I ");
-          strcat(include_dir_opts, tSTRING_VAL(i));
-      }
-  } else {
-      include_dir_opts = malloc(1);
-      include_dir_opts[0] = '\0';
-  }
+  include_dir_opts = preprocessor_get_include_opts();
 
   ret = asprintf(&command, "gcc %s %s %s > %s", opts, include_dir_opts,
           cpp_file_name, out_file_name);
diff --git a/src/preprocess.h b/src/preprocess.h
index a6050a9..bc142e4 100644
--- a/src/preprocess.h
+++ b/src/preprocess.h
@@ -1,2 +1,3 @@
 FILE *run_cpp(tree include_chain, char *opts, char *line);
 void preprocessor_add_include_dir(char *dir);
+char *preprocessor_get_include_opts(void);
-- 
2.43.0


From 2422bc6ca1475ed72f9f4532c886ec79278df911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 042/119] fix: accept headers and scripts without any
 declarations

---
 src/cscript.c | 4 +++-
 src/parser.m4 | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index a7e066f..627b9ff 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -55,7 +55,9 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    /* Don't execute what's left of a file that couldn't be preprocessed. */
+    if (pclose(f))
+        return 1;
 
     return parse_result;
 }
diff --git a/src/parser.m4 b/src/parser.m4
index 6afb433..18620b6 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1690,9 +1690,10 @@ CSCRIPT_ONLY
     ;
 
     cscript_translation_unit
-    : cscript_external_declaration
+    : %empty
     {
-        TARGET()_parse_head = tree_chain_head($1);
+        /* A header that only contains preprocessor directives is empty. */
+        TARGET()_parse_head = tree_make(CHAIN_HEAD);
         $$ = TARGET()_parse_head;
     }
     | cscript_translation_unit cscript_external_declaration
-- 
2.43.0


From 8ad866f55dfdc1a1a9615af6066c53f8b6171b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 043/119] fix: traverse shared objects once when marking

---
 src/gengc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gengc.cpp b/src/gengc.cpp
index a3a70b9..5c3899a 100644
--- a/src/gengc.cpp
+++ b/src/gengc.cpp
@@ -51,7 +51,8 @@ static void outputPreamble(FILE *f)
           "{\n"
           "    tree t;\n"
           "\n"
-          "    if (!obj)\n"
+          "    /* An object that is shared only needs to be traversed once. */\n"
+          "    if (!obj || obj->reachable)\n"
           "        return;\n"
           "\n"
           "    obj->reachable = 1;\n"
-- 
2.43.0


From 4e5aad51434ba766b7cce6c4ce00ca9e0c298daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 044/119] fix: start objects without an initialiser off as zero

---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5bc6d35..1058b16 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -323,7 +323,7 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+    tLV_VAL(live_var) = calloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -912,7 +912,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = calloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -922,7 +922,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = calloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From c3034f747640c1da333518b06a15e814f724df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 045/119] Add verification hooks to the garbage collector
 (BIC_VERIF)

---
 src/gc.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 6124290..250c6b4 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -2,12 +2,65 @@
 #include "gc.h"
 #include "gc-internal.h"
 
+#ifdef BIC_VERIF
+#include <malloc.h>
+#endif
+
 static int gc_inhibited = 0;
 static size_t alloc_array_sz = 10000;
 static size_t alloc_ptr = 0;
 static gc_obj *allocs = NULL;
 static const int COLLECT_TREE_ALLOC = 2000;
 
+#ifdef BIC_VERIF
+/* Verification hooks: the number of allocations between collections can be
+ * chosen with an environment variable, freed memory is poisoned (and never
+ * reused) and the result of each collection can be logged. */
+static long verif_threshold(void)
+{
+    static long threshold = -1;
+
+    if (threshold == -1) {
+        const char *env = getenv("BIC_VERIF_GC");
+        threshold = env ? atol(env) : COLLECT_TREE_ALLOC;
+    }
+
+    return threshold;
+}
+
+static void verif_free(void *ptr)
+{
+    if (ptr)
+        memset(ptr, 0x5a, malloc_usable_size(ptr));
+
+    if (!getenv("BIC_VERIF_GC"))
+        (free)(ptr);
+}
+
+static void verif_log_collection(void)
+{
+    const char *log = getenv("BIC_VERIF_GC_LOG");
+    size_t i, before = alloc_ptr, live = 0;
+    static size_t last_live = 0;
+    FILE *f;
+
+    for (i = 0; i < alloc_ptr; i++)
+        if (allocs[i])
+            live++;
+
+    if (log && (f = fopen(log, "a"))) {
+        fprintf(f, "{\"before\": %zu, \"live\": %zu, \"last\": %zu}\n",
+                before, live, last_live);
+        fclose(f);
+    }
+
+    last_live = live;
+}
+
+# define COLLECT_TREE_ALLOC verif_threshold()
+# define free verif_free
+#endif
+
 void mark_tree(tree obj)
 {
     if (!obj)
@@ -150,6 +203,9 @@ static void collect(void)
     mark_stack();
     mark_static();
     sweep();
+#ifdef BIC_VERIF
+    verif_log_collection();
+#endif
 }
 
 static void maybe_collect()
-- 
2.43.0


From 4b6d606cf96d45c7e15475591dad25eef5d09899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 046/119] fix: keep objects that are still in use from being
 collected

---
 src/evaluate.c | 29 +++++++++++++++++------------
 src/gc.c       | 29 +++++++++++++++++++++--------
 src/tree.c     |  5 ++++-
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1058b16..81eef5c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -549,10 +549,9 @@ static void convert_ext_args(tree function, tree args, int depth)
  *
  * The result has to be a copy that belongs to the context of the caller: the
  * value could be a variable of the function, which is free'd along with the
- * function's context (fn_ctx), or one that's modified before the result of this
- * call is used. */
-static tree make_return_value(tree fncall, tree ret_type, tree fn_ctx,
-                              tree value)
+ * function's context, or one that's modified before the result of this call is
+ * used. */
+static tree make_return_value(tree fncall, tree ret_type, tree value)
 {
     tree ret;
 
@@ -577,8 +576,13 @@ static tree make_return_value(tree fncall, tree ret_type, tree fn_ctx,
         return value;
     }
 
+    /* The value could also belong to the context of a block of the function,
+     * nothing refers to that any more. */
+    inhibit_gc();
     ret = make_live_var(ret_type);
-    assign_live_var(fncall, ret, tECTX_RETVAL(fn_ctx));
+    assign_live_var(fncall, ret, value);
+    enable_gc();
+
     return ret;
 }
 
@@ -656,15 +660,17 @@ static tree eval_fn_call(tree t, int depth)
                 if (no_vals != no_decls)
                     eval_die(t, "Invalid number of parameters to function\n");
 
-                /* Evaluate an assignment for each passed value. */
-                arg_val = arg_vals;
+                /* Evaluate an assignment for each passed value.  It's the chain
+                 * of values that has to be iterated over, nothing else keeps
+                 * it from being collected. */
+                arg_decl = arg_decls;
 
-                for_each_tree(arg_decl, arg_decls) {
+                for_each_tree(arg_val, arg_vals) {
                     tree decl_identifier,
                         assign;
 
-                    arg_val = list_entry(arg_val->chain.next,
-                                         typeof(*arg_val), chain);
+                    arg_decl = list_entry(arg_decl->chain.next,
+                                          typeof(*arg_decl), chain);
 
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
@@ -694,8 +700,7 @@ static tree eval_fn_call(tree t, int depth)
 
             pop_ctx();
 
-            return make_return_value(t, tFN_RET_TYPE(function), fn_ctx,
-                                     return_val);
+            return make_return_value(t, tFN_RET_TYPE(function), return_val);
         } else {
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
             char *function_name = tID_STR(tFN_DECL(function));
diff --git a/src/gc.c b/src/gc.c
index 250c6b4..20ed519 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -87,23 +87,36 @@ static int compare_allocs(const void *a1, const void *a2)
         return 0;
 }
 
-static int is_object(void *addr)
+/* Find the object that contains `addr'.  The compiler is free to only keep a
+ * pointer to the inside of an object, to its chain for instance. */
+static int compare_addr(const void *addr, const void *alloc)
 {
-    if (bsearch(&addr, allocs, alloc_ptr,
-                sizeof(*allocs), compare_allocs))
+    char *a = *(char **)addr;
+    char *obj = *(char **)alloc;
+
+    if (!obj || a >= obj + sizeof(struct gc_obj))
+        return -1;
+    else if (a < obj)
         return 1;
+    else
+        return 0;
+}
+
+static gc_obj find_object(void *addr)
+{
+    gc_obj *obj = bsearch(&addr, allocs, alloc_ptr, sizeof(*allocs),
+                          compare_addr);
 
-    return 0;
+    return obj ? *obj : NULL;
 }
 
 static void mark_potential_root(void *addr)
 {
-    gc_obj obj;
+    gc_obj obj = find_object(addr);
 
-    if (!is_object(addr))
+    if (!obj)
         return;
 
-    obj = (gc_obj)addr;
     mark_object(obj);
 }
 
@@ -132,7 +145,7 @@ static void mark_static(void)
 {
     tree **i;
     for (i = &__start_static_trees; i < &__stop_static_trees; i++)
-        if (is_object(**i))
+        if (find_object(**i))
             mark_tree(**i);
 }
 
diff --git a/src/tree.c b/src/tree.c
index dfdac93..8ce766b 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -12,8 +12,11 @@ tree tree_make(enum tree_type type)
 
 tree get_identifier(const char *name)
 {
+    /* The name could be that of an identifier which isn't referenced any more,
+     * copy it before anything is collected. */
+    char *str = strdup(name);
     tree ret = tree_make(T_IDENTIFIER);
-    tID_STR(ret) = strdup(name);
+    tID_STR(ret) = str;
     return ret;
 }
 
-- 
2.43.0


From 3170e7c1b25ec7518f1fbf733ba2a4c12a3f63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 047/119] fix: resolve the types of a compound's members where
 it is declared

The types and array sizes of the members were resolved again by name
whenever an object was instantiated, in the scope of that object, where the
names could mean something else.  A pointer to a compound that had only been
declared so far never referred to the definition.
---
 src/c.lang     |  2 +-
 src/evaluate.c | 46 +++++++++++++++++++++++++++++++++-------------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 5c7fb92..b59c1fe 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -171,7 +171,7 @@
          ("BASE_TYPE" "SZ"))
 
 (deftype T_DECL "Declaration" "tDECL"
-         ("SPECS" "DECLS"
+         ("SPECS" "DECLS" "TYPE"
           ("OFFSET" sz)))
 
 (deftype T_TYPE_SPECIFIER "Type specifier" "tTYPE_SPECIFIER"
diff --git a/src/evaluate.c b/src/evaluate.c
index 81eef5c..966b46a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -846,12 +846,9 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base);
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
-        decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+        decl_type = tDECL_TYPE(decl),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
-
     void *base = tLV_COMP_BASE(live_struct);
 
     if (is_T_FN(decl_element)) {
@@ -2577,6 +2574,18 @@ static size_t get_alignment_for_type(tree t, int depth)
     return alignment;
 }
 
+/* Find the type that the declaration specifiers of a member denote. */
+static tree resolve_member_type(tree specs, int depth)
+{
+    tree type = resolve_decl_specs_to_type(specs);
+
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
+        type = __evaluate_1(type, depth + 1);
+
+    return type;
+}
+
 static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
@@ -2591,10 +2600,11 @@ static tree eval_decl_compound(tree t, int depth)
     if (!tCOMP_DECL_DECLS(t)) {
         tree ret = resolve_compound(t, SCOPE_GLOBAL);
 
-        if (!ret)
-            return handle_forward_decl(t);
+        if (ret)
+            return ret;
 
-        return ret;
+        handle_forward_decl(t);
+        return resolve_compound(t, SCOPE_CURRENT_CTX);
     }
 
     /* We map to ourselves here so that any references to the same
@@ -2624,7 +2634,7 @@ static tree eval_decl_compound(tree t, int depth)
     /* Populate the decls with their offsets, as well as the total
      * size of the compound. */
     for_each_tree(i, tCOMP_DECL_DECLS(t)) {
-        tree id, live_var, decl = i;
+        tree id, live_var, decl = i, array;
         size_t member_size, member_alignment, padding_size;
 
         /* To calculate the size of each element of the compound, we
@@ -2633,13 +2643,23 @@ static tree eval_decl_compound(tree t, int depth)
          * to it's live var and finally pass that through a sizeof()
          * evaluation.
          *
-         * NOTE: we don't evaluate the types of the decls here as we
-         * could create a loop back to ourselves (when declaring a
-         * pointer to the same struct).  Instead, we evaluate all decl
-         * types at struct installation time. */
+         * The type of the member is kept for the instantiation of the
+         * compound, as the names it consists of could mean something
+         * else in the scope of the object that is instantiated. */
+        tDECL_TYPE(decl) = resolve_member_type(tDECL_SPECS(decl), depth);
+
         push_ctx("Compound Declaration");
 
-        id = __evaluate_1(decl, depth + 1);
+        /* The same applies to the size of an array. */
+        array = tDECL_DECLS(decl);
+        while (is_T_POINTER(array))
+            array = tPTR_EXP(array);
+
+        if (is_T_ARRAY(array) && tARRAY_SZ(array))
+            tARRAY_SZ(array) = convert_to_comparable_type(tARRAY_SZ(array),
+                                                          depth);
+
+        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
-- 
2.43.0


From a9aeb34e51f4ba72ce2c4502a6c5295a4dbce32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 048/119] fix: evaluate the size of an array type where it is
 declared

---
 src/evaluate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 966b46a..7bac3c8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1042,7 +1042,11 @@ static tree map_typedef(tree id, tree type)
     if (is_T_ARRAY(id)) {
         tree array_type = tree_make(T_ARRAY_TYPE);
         tARRAY_TYPE_BASE_TYPE(array_type) = type;
-        tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(id);
+        /* Evaluate the size here: the names it consists of could mean something
+         * else where the type is used. */
+        if (tARRAY_SZ(id))
+            tARRAY_TYPE_SZ(array_type) =
+                convert_to_comparable_type(tARRAY_SZ(id), 0);
         id = tARRAY_DECL(id);
         type = array_type;
     }
-- 
2.43.0


From 333233b4e0952f6079cf8a8387a905f092f6f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 049/119] fix: allow members that have an array type

---
 src/evaluate.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7bac3c8..f17f2eb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -841,6 +841,22 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     return live_var;
 }
 
+/* Turn the declaration of an object that has an array type (a typedef) into the
+ * declaration of an array. */
+static void resolve_array_type(tree *decl, tree *decl_type)
+{
+    tree array;
+
+    if (!is_T_ARRAY_TYPE(*decl_type))
+        return;
+
+    array = tree_make(T_ARRAY);
+    tARRAY_DECL(array) = *decl;
+    tARRAY_SZ(array) = tARRAY_TYPE_SZ(*decl_type);
+    *decl_type = tARRAY_TYPE_BASE_TYPE(*decl_type);
+    *decl = array;
+}
+
 static tree instantiate_struct(tree struct_decl, int depth, void *base);
 
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
@@ -863,6 +879,8 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     if (is_T_BITFIELD(decl_element))
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
+    resolve_array_type(&decl_element, &decl_type);
+
     if (is_T_ARRAY(decl_element)) {
         size_t array_sz = get_array_size(decl_element, decl_type, depth);
         live_element = instantiate_array(decl_element, decl_type,
@@ -946,13 +964,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return decl;
     }
 
-    if (is_T_ARRAY_TYPE(decl_type)) {
-        tree array = tree_make(T_ARRAY);
-        tARRAY_DECL(array) = decl;
-        tARRAY_SZ(array) = tARRAY_TYPE_SZ(decl_type);
-        decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
-        decl = array;
-    }
+    resolve_array_type(&decl, &decl_type);
 
     if (is_T_ARRAY(decl)) {
         tree live_var = alloc_array(decl, decl_type, depth);
-- 
2.43.0


From e87fa009913e00dcd46dab4d5772c732c0aa75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 050/119] fix: allow an enumeration as the type of a cast or of
 sizeof

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f17f2eb..78ec503 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2905,7 +2905,8 @@ static tree eval_type_specifier(tree t, int depth)
     tree type =  resolve_decl_specs_to_type(tTYPE_SPECIFIER_SPECS(t)),
         decl = tTYPE_SPECIFIER_DECL(t);
 
-    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
     while (is_T_POINTER(decl)) {
-- 
2.43.0


From 1026b131031db9fb3997e89e4b6b4bcdf187ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 051/119] fix: accept the storage classes auto and register

---
 src/c.lang | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index b59c1fe..4341415 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -317,6 +317,8 @@
 (defspecifier :ignore T_EXTERN)
 (defspecifier :ignore T_TYPEDEF)
 (defspecifier :ignore T_STATIC)
+(defspecifier :ignore T_AUTO)
+(defspecifier :ignore T_REGISTER)
 (defspecifier :self T_IDENTIFIER)
 (defspecifier :self T_DECL_COMPOUND)
 (defspecifier :self T_ENUMERATOR)
-- 
2.43.0


From e9e5f59aa2526c6e02e7ecb74e1bd2b28f4f0cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 052/119] fix: call functions through dereferenced pointers

---
 src/evaluate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 78ec503..80d50bc 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2993,6 +2993,11 @@ static tree eval_deref(tree t, int depth)
 
     new_type = tDTPTR_EXP(tLV_TYPE(exp));
 
+    /* The function that a pointer points to is only of use as a pointer to
+     * it. */
+    if (is_T_FN(new_type))
+        return exp;
+
     if (is_T_DECL_COMPOUND(new_type))
         return instantiate_struct(new_type, depth,
                                   tLV_VAL(exp)->D_T_PTR);
-- 
2.43.0


From df38953a222cc4a799656be2556f6e828f2d3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 053/119] fix: keep the tags of enumerations apart from other
 identifiers

---
 src/evaluate.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 80d50bc..1ce758e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2734,13 +2734,28 @@ static tree eval_enumerator(tree t, int depth)
     int enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
-    if (!tENUM_ENUMS(t))
-        return __evaluate_1(tENUM_NAME(t), depth + 1);
+    if (!tENUM_ENUMS(t)) {
+        tree type = __resolve_identifier(tENUM_NAME(t), SCOPE_GLOBAL,
+                                         STRUCT_TYPE);
+
+        if (!type)
+            eval_die(t, "Could not resolve identifier %s.\n",
+                     tID_STR(tENUM_NAME(t)));
+
+        return type;
+    }
 
     /* Whenever we encounter this decl, we wish to treat it as just a
      * normal integer. */
-    if (tENUM_NAME(t))
-        map_identifier(tENUM_NAME(t), enum_base_type);
+    if (tENUM_NAME(t)) {
+        if (__resolve_identifier(tENUM_NAME(t), SCOPE_CURRENT_CTX, STRUCT_TYPE))
+            eval_die(t, "Attempted to map already existing identifier %s.\n",
+                     tID_STR(tENUM_NAME(t)));
+
+        /* The names of enumerations are tags, as those of structures are. */
+        __map_identifer(tENUM_NAME(t), enum_base_type,
+                        tECTX_STRUCT_ID_MAP(cur_ctx));
+    }
 
     /* Allocate a number for each member of the enumerator and map the
      * identifier to the value. */
-- 
2.43.0


From e88fb610a25c578a0f18144c6f402097e264075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 054/119] fix: report the file that an evaluation error is in

---
 src/evaluate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1ce758e..53edcb5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -108,8 +108,9 @@ static void ctx_backtrace(void)
 
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
-    fprintf(stderr, "%s:%zu:%zu: error: ", current_filename, t->locus.line_no,
-            t->locus.column_no);
+    fprintf(stderr, "%s:%zu:%zu: error: ",
+            t->locus.file ? tID_STR(t->locus.file) : current_filename,
+            t->locus.line_no, t->locus.column_no);
     va_list args;
     va_start(args, format);
     vfprintf(stderr, format, args);
-- 
2.43.0


From 60936c69052f2ade8eed404a793c4f4dbf6d2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 055/119] fix: accept any file name in line markers, and keep
 it

---
 src/lex.m4 | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index c71d75d..163ae02 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -30,32 +30,26 @@ CSCRIPT_ONLY
 
     static void handle_line_marker(char *s)
     {
-        /* Lex the '#' */
-        s = strtok(s, " ");
+        char *name, *to;
 
-        if (!s)
-            return;
-
-        /* Now the line number. */
-        s = strtok(NULL, " ");
-
-        if (!s)
-            return;
-
-        linenum = atoi(s) - 1;
+        /* Lex the '#' and the line number. */
+        linenum = strtol(strpbrk(s, "0123456789"), &s, 10) - 1;
 
         /* Now the file name.
          *
-         * Note that the filename is sourrounded by quotes. Remove that here.*/
-        s = strtok(NULL, " ");
+         * Note that the filename is sourrounded by quotes, and that quotes and
+         * backslashes within it are escaped. Remove that here.*/
+        name = to = strdup(strchr(s, '"') + 1);
 
-        if (!s)
-            return;
+        for (s = name; *s != '"'; s++) {
+            if (*s == 92)
+                s++;
+            *to++ = *s;
+        }
 
-        s += 1;
-        s[strlen(s) - 1] = 0;
+        *to = 0;
 
-        TARGET()_parser_set_file(s);
+        TARGET()_parser_set_file(name);
     }
 ALL_TARGETS
 
@@ -194,7 +188,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"([^\"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From c45dab1c89ac15c4d716d857c13414eed7a6297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 056/119] fix: quote file names in the commands of the
 preprocessor

---
 src/cscript.c    |  9 ++++++---
 src/preprocess.c |  9 +++++++--
 src/util.c       | 21 +++++++++++++++++++++
 src/util.h       |  1 +
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 627b9ff..b661f15 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -6,6 +6,7 @@
 #include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
+#include "util.h"
 #include <string.h>
 
 extern FILE *cscriptin;
@@ -29,12 +30,14 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command, *include_opts = preprocessor_get_include_opts();
+    char *command, *include_opts = preprocessor_get_include_opts(),
+        *quoted_fname = quote_for_shell(fname);
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"", include_opts,
-             fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s %s", include_opts,
+             quoted_fname);
 
     free(include_opts);
+    free(quoted_fname);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index c6ff696..c2ff256 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -6,6 +6,7 @@
 #include "tree.h"
 #include "gc.h"
 #include "preprocess.h"
+#include "util.h"
 
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
@@ -18,15 +19,19 @@ char *preprocessor_get_include_opts(void)
     size_t include_len = 0;
     tree i;
 
+    /* Quoting makes a string at most four times as long. */
     for_each_tree(i, include_dirs)
-        include_len += strlen(tSTRING_VAL(i)) + 4;
+        include_len += 4 * strlen(tSTRING_VAL(i)) + 6;
 
     ret = malloc(include_len + 1);
     ret[0] = '\0';
 
     for_each_tree(i, include_dirs) {
+        char *quoted_dir = quote_for_shell(tSTRING_VAL(i));
+
         strcat(ret, " -I ");
-        strcat(ret, tSTRING_VAL(i));
+        strcat(ret, quoted_dir);
+        free(quoted_dir);
     }
 
     return ret;
diff --git a/src/util.c b/src/util.c
index 43d0233..4e3512a 100644
--- a/src/util.c
+++ b/src/util.c
@@ -13,3 +13,24 @@ char *concat_strings(const char *s1, const char *s2)
 
     return ret;
 }
+
+/* Quote a string so that the shell takes it as a single word. */
+char *quote_for_shell(const char *s)
+{
+    char *ret = malloc(4 * strlen(s) + 3), *to = ret;
+
+    *to++ = '\'';
+
+    for (; *s; s++) {
+        if (*s == '\'') {
+            strcpy(to, "'\\'");
+            to += 3;
+        }
+        *to++ = *s;
+    }
+
+    *to++ = '\'';
+    *to = '\0';
+
+    return ret;
+}
diff --git a/src/util.h b/src/util.h
index 96e0960..c574f45 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,3 +1,4 @@
 #pragma once
 
 char *concat_strings(const char *s1, const char *s2);
+char *quote_for_shell(const char *s);
-- 
2.43.0


From 02c82b6d4bcd87226a171c5de75b3aa9d2b91094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 057/119] fix: accept all simple and octal escape sequences

---
 src/lex.m4 | 50 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 163ae02..ce123c6 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -94,30 +94,42 @@ static void  __attribute__((noreturn))lex_err(char *fmt, ...)
     exit(EXIT_FAILURE);
 }
 
+/* The character that the escape sequence after a backslash denotes.  It ends at
+ * the first character that isn't part of it. */
+static char lex_escape(char *str)
+{
+    static const char escapes[] = "n\nr\rt\ta\ab\bf\fv\v";
+    size_t i;
+
+    if (str[0] >= '0' && str[0] <= '7')
+        return strtol(str, NULL, 8);
+
+    if (strchr("\"?\x27\\", str[0]))
+        return str[0];
+
+    for (i = 0; escapes[i]; i += 2)
+        if (escapes[i] == str[0])
+            return escapes[i + 1];
+
+    lex_err("Unknown char escapse sequence `%c'\n", str[0]);
+}
+
 static char lex_char(char *str)
 {
     size_t char_str_len = strlen(str);
 
-    if (!(char_str_len == 3 || char_str_len == 4))
-       lex_err("character string %s does not contain three or four chars.\n",
-               str);
-
     if (str[0] != '\'')
         lex_err("first char in char string %s is not a `'`.\n", str);
 
-    if (str[1] != ''\\')
-        return str[1];
-
-    switch (str[2]) {
-    case 'n':
-        return '\n';
-    case '\\':
-        return '\\';
-    case 'r':
-        return '\r';
-    default:
-        lex_err("Unknown char escapse sequence `%c'\n", str[2]);
-    }
+    if (str[1] == ''\\' && (char_str_len == 4 ||
+        strspn(str + 2, "01234567") == char_str_len - 3))
+        return lex_escape(str + 2);
+
+    if (char_str_len != 3)
+       lex_err("character string %s does not contain three or four chars.\n",
+               str);
+
+    return str[1];
 }
 
 int TARGET()wrap(void) {
@@ -205,10 +217,8 @@ ALL_TARGETS
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
 <str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
-<str_lit>\\n                    { sl_append_char('\n'); }
-<str_lit>\\t                    { sl_append_char('\t'); }
 <str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
-<str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
+<str_lit>\\[nrtabfv?\\"\x27]      { sl_append_char(lex_escape(LEXTEXT + 1)); }
 <str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
-- 
2.43.0


From b0c5825c17260460b58bfcec433a025651daf97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 058/119] fix: keep what follows a null character in a string
 literal

---
 src/lex.m4 | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index ce123c6..23477dd 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -25,6 +25,7 @@ static int linenum = 1;
 
 
 static char *sl_buf = NULL;
+static size_t sl_len;
 CSCRIPT_ONLY
     extern void TARGET()_parser_set_file(const char *fname);
 
@@ -66,22 +67,28 @@ static void sl_begin(void)
         sl_buf = malloc(1);
 
     sl_buf[0] = '\0';
+    sl_len = 0;
 }
 
-static void sl_append_str(const char *s)
+/* The contents of a string literal can contain null characters. */
+static void sl_append(const char *s, size_t len)
 {
-    char *old_sl_buf = sl_buf;
-    sl_buf = concat_strings(sl_buf, s);
-    free(old_sl_buf);
+    sl_buf = realloc(sl_buf, sl_len + len + 1);
+    memcpy(sl_buf + sl_len, s, len);
+    sl_len += len;
+    sl_buf[sl_len] = '\0';
 }
 
 static void sl_append_char(char c)
 {
-    char *s = malloc(2);
-    s[0] = c;
-    s[1] = '\0';
-    sl_append_str(s);
-    free(s);
+    sl_append(&c, 1);
+}
+
+static char *sl_end(void)
+{
+    char *str = malloc(sl_len + 1);
+
+    return memcpy(str, sl_buf, sl_len + 1);
 }
 
 static void  __attribute__((noreturn))lex_err(char *fmt, ...)
@@ -216,10 +223,10 @@ ALL_TARGETS
                                  return is_unsigned_constant(LEXLVAL.integer) ? UINTEGER : INTEGER;}
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-<str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
+<str_lit>[^\\"\n]*              { sl_append(LEXTEXT, TARGET()leng); }
 <str_lit>\\[0-7]{1,3}           { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[nrtabfv?\\"\x27]      { sl_append_char(lex_escape(LEXTEXT + 1)); }
-<str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
+<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
-- 
2.43.0


From c3f83b0ccb484ad12ee46199bcda042d3ce2c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 059/119] fix: cast floating point constants to integer types

---
 src/evaluate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 53edcb5..72961d4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2268,7 +2268,12 @@ static tree eval_cast(tree t, int depth)
 
     if (is_T_FLOAT(source)) {
         tree lv = make_live_var(dest_type);
-        assign_float(lv, source);
+
+        if (is_D_T_FLOAT(dest_type) || is_D_T_DOUBLE(dest_type))
+            assign_float(lv, source);
+        else
+            assign_integer(lv, source);
+
         return lv;
     }
 
-- 
2.43.0


From 68f6fe88f911afe58c2d62adfa1d63061589ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 060/119] fix: convert large floating point values to unsigned
 long

---
 src/evaluate.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 72961d4..7c75384 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1361,6 +1361,16 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
+/* The conversion to a signed type isn't defined for values that only fit into
+ * the unsigned one. */
+static signed long int float_to_long(double val)
+{
+    if (val >= 9223372036854775808.0)
+        return (signed long int)(unsigned long int)val;
+
+    return (signed long int)val;
+}
+
 static void assign_integer(tree var, tree right)
 {
     signed long int val;
@@ -1372,9 +1382,19 @@ static void assign_integer(tree var, tree right)
          val = get_int_value(right);
          break;
     case T_FLOAT:
-        val = (signed long int)mpf_get_d(tFLOAT_VAL(right));
+        val = float_to_long(mpf_get_d(tFLOAT_VAL(right)));
         break;
     case T_LIVE_VAR:
+        if (is_D_T_FLOAT(tLV_TYPE(right))) {
+            val = float_to_long(tLV_VAL(right)->D_T_FLOAT);
+            break;
+        }
+
+        if (is_D_T_DOUBLE(tLV_TYPE(right))) {
+            val = float_to_long(tLV_VAL(right)->D_T_DOUBLE);
+            break;
+        }
+
         switch (TYPE(tLV_TYPE(right))) {
 #define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)         \
             case TNAME:                                  \
-- 
2.43.0


From b0bc8b932410932e4e73c009bba0954beb662493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:38 +0000
Subject: [PATCH 061/119] fix: accept floating point conditions

---
 src/evaluate.c | 52 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7c75384..f6efa63 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -444,10 +444,10 @@ static tree make_int_from_live_var(tree var)
     return ret;
 }
 
-static tree convert_to_comparable_type(tree t, int depth)
+/* Convert the result of the evaluation of `t' to an integer. */
+static tree make_comparable(tree t, tree evaluated)
 {
-    tree evaluated = __evaluate_1(t, depth + 1),
-        ret;
+    tree ret;
 
     switch (TYPE(evaluated)) {
     case T_INTEGER:
@@ -470,6 +470,34 @@ static tree convert_to_comparable_type(tree t, int depth)
     return ret;
 }
 
+static tree convert_to_comparable_type(tree t, int depth)
+{
+    return make_comparable(t, __evaluate_1(t, depth + 1));
+}
+
+/* The value of an expression that's a condition, which can have any scalar
+ * type: an integer that isn't zero if the condition holds. */
+static tree eval_condition(tree t, int depth)
+{
+    tree evaluated = __evaluate_1(t, depth + 1);
+
+    if (is_T_FLOAT(evaluated))
+        return get_integer(mpf_sgn(tFLOAT_VAL(evaluated)) != 0);
+
+    if (is_T_LIVE_VAR(evaluated)) {
+        switch (TYPE(tLV_TYPE(evaluated))) {
+        case D_T_FLOAT:
+            return get_integer(tLV_VAL(evaluated)->D_T_FLOAT != 0);
+        case D_T_DOUBLE:
+            return get_integer(tLV_VAL(evaluated)->D_T_DOUBLE != 0);
+        default:
+            break;
+        }
+    }
+
+    return make_comparable(t, evaluated);
+}
+
 #define DEFCTYPE(tname, desc, ctype, fmt, ffmem)                        \
     static inline tree convert_int_to_##tname(tree intval)              \
     {                                                                   \
@@ -1722,7 +1750,7 @@ static tree eval_negate(tree t, int depth)
     tree intval;
     tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
 
-    intval = convert_to_comparable_type(exp, depth);
+    intval = eval_condition(exp, depth);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
         mpz_init_set_ui(tINT_VAL(ret), 1);
@@ -2191,7 +2219,7 @@ static tree eval_n_eq(tree t, int depth)
 static tree eval_logic_or(tree t, int depth)
 {
     int iret = 0;
-    tree left  = convert_to_comparable_type(tL_OR_LHS(t), depth),
+    tree left  = eval_condition(tL_OR_LHS(t), depth),
         right,
         ret;
 
@@ -2209,7 +2237,7 @@ static tree eval_logic_or(tree t, int depth)
         eval_die(t, "Unknown comparable types for gt\n");
     }
 
-    right = convert_to_comparable_type(tL_OR_RHS(t), depth);
+    right = eval_condition(tL_OR_RHS(t), depth);
 
     switch (TYPE(right)) {
     case T_INTEGER:
@@ -2232,7 +2260,7 @@ out:
 static tree eval_logic_and(tree t, int depth)
 {
     int iret = 0;
-    tree left  = convert_to_comparable_type(tL_AND_LHS(t), depth),
+    tree left  = eval_condition(tL_AND_LHS(t), depth),
         right,
         ret;
 
@@ -2249,7 +2277,7 @@ static tree eval_logic_and(tree t, int depth)
         eval_die(t, "Unknown comparable types for gt\n");
     }
 
-    right = convert_to_comparable_type(tL_AND_RHS(t), depth);
+    right = eval_condition(tL_AND_RHS(t), depth);
 
     switch (TYPE(right)) {
     case T_INTEGER:
@@ -2432,7 +2460,7 @@ static tree eval_loop_for(tree t, int depth)
             tree cond_result = __evaluate_1(tFLOOP_COND(t),
                                             depth + 1);
 
-            cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            cond_result = eval_condition(cond_result, depth + 1);
 
             if (!is_T_INTEGER(cond_result))
                 eval_die(t, "Unknown condition result");
@@ -2464,7 +2492,7 @@ static tree eval_loop_while(tree t, int depth)
         tree cond_result = __evaluate_1(tWLOOP_COND(t),
                                         depth + 1);
 
-        cond_result = convert_to_comparable_type(cond_result, depth);
+        cond_result = eval_condition(cond_result, depth);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
@@ -2486,7 +2514,7 @@ static tree eval_loop_while(tree t, int depth)
 
 static tree eval_infix(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tINFIX_COND(t), depth);
+    tree cond_result = eval_condition(tINFIX_COND(t), depth);
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
@@ -2499,7 +2527,7 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
+    tree cond_result = eval_condition(tIF_COND(t), depth);
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
-- 
2.43.0


From 7a1778386d91e1cb837b3f184edf36c2320f36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 062/119] fix: take the address of external functions

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index f6efa63..0378268 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3022,6 +3022,10 @@ static tree eval_addr(tree t, int depth)
     if (is_T_FN(exp))
         return handle_addr_fn_def(exp);
 
+    /* The value of an external function is a pointer to it. */
+    if (is_T_EXT_FUNC(exp))
+        return __evaluate_1(exp, depth + 1);
+
     if (!is_LIVE(exp))
         eval_die(t, "attempted to take address of non-live variable.\n");
 
-- 
2.43.0


From c7c9048c0d17c919bc46dea8fae8a6eab47570a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:52 +0000
Subject: [PATCH 063/119] fix: access external structs and unions

---
 src/evaluate.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0378268..61469a4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1200,8 +1200,13 @@ static tree handle_extern_decl(tree extern_type, tree decl)
      */
     previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
+    if (is_T_LIVE_COMPOUND(previous_decl) &&
+        tLV_COMP_DECL(previous_decl) == extern_type)
+        return id;
+
     if (previous_decl) {
-        if (TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
+        if (!is_T_LIVE_VAR(previous_decl) ||
+            TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
             eval_die(decl, "Attempted to redeclare %s with a different type", tID_STR(id));
         }
 
@@ -1211,6 +1216,11 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     /* Handle all other types. */
     sym_addr = resolve_symbol(decl);
 
+    if (is_T_DECL_COMPOUND(extern_type)) {
+        map_identifier(id, instantiate_struct(extern_type, 0, sym_addr));
+        return id;
+    }
+
     live_var = tree_make(T_LIVE_VAR);
     tLV_TYPE(live_var) = extern_type;
     tLV_VAL(live_var) = sym_addr;
-- 
2.43.0


From de5216ca57611f2655933cb17973f156f0687233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 064/119] fix: intercept atexit() and alloca() however they are
 declared

---
 src/evaluate.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 61469a4..1e087c7 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -615,6 +615,8 @@ static tree make_return_value(tree fncall, tree ret_type, tree value)
     return ret;
 }
 
+static void *resolve_ext_function(const char *name);
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -734,7 +736,7 @@ static tree eval_fn_call(tree t, int depth)
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
             char *function_name = tID_STR(tFN_DECL(function));
             tree i;
-            void *function_address = dlsym(RTLD_DEFAULT, function_name);
+            void *function_address = resolve_ext_function(function_name);
             bool is_variadic = false;
             int variadic_pos = 0;
             tree ret_lv = NULL;
@@ -1231,6 +1233,22 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     return id;
 }
 
+static void *resolve_ext_function(const char *name)
+{
+    /* Intercept calls to alloca, atexit and at_quick_exit to provide
+     * our own implementation of these functions.. */
+    if (strcmp(name, "alloca") == 0)
+        return &__evaluator_alloca;
+    if (strcmp(name, "atexit") == 0)
+        return &atexit;
+#if defined(BUILD_LINUX)
+    if (strcmp(name, "at_quick_exit") == 0)
+        return &at_quick_exit;
+#endif
+
+    return dlsym(RTLD_DEFAULT, name);
+}
+
 static tree eval_ext_func(tree t, int depth)
 {
     void *func_addr;
@@ -1240,18 +1258,7 @@ static tree eval_ext_func(tree t, int depth)
     tDTPTR_EXP(func_ptr_type) = tEXT_FUNC_FN(t);
     id = tFN_DECL(tEXT_FUNC_FN(t));
 
-    /* Intercept calls to alloca, atexit and at_quick_exit to provide
-     * our own implementation of these functions.. */
-    if (strcmp(tID_STR(id), "alloca") == 0)
-        func_addr = &__evaluator_alloca;
-    else if (strcmp(tID_STR(id), "atexit") == 0)
-        func_addr = &atexit;
-#if defined(BUILD_LINUX)
-    else if (strcmp(tID_STR(id), "at_quick_exit") == 0)
-        func_addr = &at_quick_exit;
-#endif
-    else
-        func_addr = dlsym(RTLD_DEFAULT, tID_STR(id));
+    func_addr = resolve_ext_function(tID_STR(id));
 
     if (!func_addr)
         eval_die(t, "Could not resolve external function %s\n",
-- 
2.43.0


From 11f430cd218a3495d14b64dca9ee3156aad47984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 065/119] fix: allow external arrays to be declared more than
 once

---
 src/evaluate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1e087c7..38aa405 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1189,6 +1189,11 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     if (is_T_ARRAY(decl)) {
         tree id = tARRAY_DECL(decl);
         size_t array_sz = get_array_size(decl, extern_type, 0);
+
+        previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
+        if (is_T_LIVE_VAR(previous_decl) && tLV_IS_ARRAY(previous_decl))
+            return id;
+
         sym_addr = resolve_symbol(tARRAY_DECL(decl));
 
         map_identifier(id, instantiate_array(decl, extern_type,
-- 
2.43.0


From 5766e41eb75e75f485330fea92c65f92159590da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 066/119] fix: pointers to functions with parameters of all
 types

---
 src/function-call.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/function-call.c b/src/function-call.c
index d65f3d0..a3ee0c5 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -233,10 +233,30 @@ void *get_entry_point_for_fn(tree fndef)
         arg_type = resolve_decl_specs_to_type(tDECL_SPECS(arg));
         declarator = tDECL_DECLS(arg);
 
-        if (is_T_POINTER(tDECL_DECLS(arg)))
-            resolve_ptr_type(&declarator, &arg_type);
-
-        if (!is_T_IDENTIFIER(declarator))
+        /* (the type that a name stands for is shared, it can't be chained) */
+        if (is_T_IDENTIFIER(arg_type) || is_T_ENUMERATOR(arg_type))
+            arg_type = alloc_copy_tree(evaluate_expr(arg_type));
+
+        resolve_ptr_type(&declarator, &arg_type);
+
+        /* Parameters that are declared as arrays or functions are pointers. */
+        if (is_T_ARRAY(declarator) || is_T_FN(declarator) ||
+            is_T_ARRAY_TYPE(arg_type)) {
+            tree ptr_type = tree_make(D_T_PTR);
+
+            if (is_T_FN(declarator)) {
+                tree fn = tree_make(T_FN);
+
+                tFN_RET_TYPE(fn) = arg_type;
+                tFN_ARGS(fn) = tFN_ARGS(declarator);
+                arg_type = fn;
+            } else if (is_T_ARRAY_TYPE(arg_type))
+                arg_type = tARRAY_TYPE_BASE_TYPE(arg_type);
+
+            tDTPTR_EXP(ptr_type) = arg_type;
+            arg_type = ptr_type;
+        } else if (declarator && !is_T_IDENTIFIER(declarator))
+            /* (the parameters of a declaration need not have a name) */
             eval_die(arg, "Unknown declarator type in closure allocation");
 
         tCLOSURE_TYPES(closure)[n++] = get_ffi_type(TYPE(arg_type));
-- 
2.43.0


From c67f330b306545b4f53958de99f797fbcc54d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 067/119] fix: release what the condition of a loop allocates

---
 src/evaluate.c | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 38aa405..a115059 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2468,6 +2468,27 @@ static tree eval_cast(tree t, int depth)
 #include "ctypes.def"
 #undef DEFCTYPE
 
+/* Evaluate the condition of a loop.  It has got a context of its own so that
+ * what it allocates is released before it's evaluated the next time. */
+static bool eval_loop_condition(tree t, tree cond, int depth)
+{
+    tree cond_result;
+    bool holds;
+
+    push_ctx("Loop Condition");
+
+    cond_result = eval_condition(cond, depth + 1);
+
+    if (!is_T_INTEGER(cond_result))
+        eval_die(t, "Unknown condition result");
+
+    holds = mpz_sgn(tINT_VAL(cond_result)) != 0;
+
+    pop_ctx();
+
+    return holds;
+}
+
 static tree eval_loop_for(tree t, int depth)
 {
     /* A variable that's declared by the loop is local to the loop. */
@@ -2478,18 +2499,9 @@ static tree eval_loop_for(tree t, int depth)
     do {
 
         /* A loop without a condition is only left by a jump. */
-        if (!is_T_EMPTY(tFLOOP_COND(t))) {
-            tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                            depth + 1);
-
-            cond_result = eval_condition(cond_result, depth + 1);
-
-            if (!is_T_INTEGER(cond_result))
-                eval_die(t, "Unknown condition result");
-
-            if (!mpz_sgn(tINT_VAL(cond_result)))
-                break;
-        }
+        if (!is_T_EMPTY(tFLOOP_COND(t)) &&
+            !eval_loop_condition(t, tFLOOP_COND(t), depth))
+            break;
 
         push_ctx("For Loop");
         tree result = __evaluate(tFLOOP_STMTS(t), depth + 1);
@@ -2498,7 +2510,9 @@ static tree eval_loop_for(tree t, int depth)
         if (is_T_BREAK(result))
             break;
 
+        push_ctx("For Loop");
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
+        pop_ctx();
 
     } while (1);
 
@@ -2510,16 +2524,7 @@ static tree eval_loop_for(tree t, int depth)
 static tree eval_loop_while(tree t, int depth)
 {
     do {
-
-        tree cond_result = __evaluate_1(tWLOOP_COND(t),
-                                        depth + 1);
-
-        cond_result = eval_condition(cond_result, depth);
-
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
-
-        if (!mpz_sgn(tINT_VAL(cond_result)))
+        if (!eval_loop_condition(t, tWLOOP_COND(t), depth))
             break;
 
         push_ctx("While Loop");
-- 
2.43.0


From fb8eb25b84e79a2c6e84b873f3660c1517aec8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 068/119] fix: release the memory of alloca() when the function
 returns

---
 src/evaluate.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a115059..aeff7e1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -84,17 +84,22 @@ static void push_ctx(const char *name)
     cur_ctx = new_ctx;
 }
 
-static void *track_alloc(void *ptr)
+static void *track_alloc_in(tree ctx, void *ptr)
 {
     tree alloc = tree_make(E_ALLOC);
 
     tALLOC_PTR(alloc) = ptr;
 
-    tree_chain(alloc, tECTX_ALLOC_CHAIN(cur_ctx));
+    tree_chain(alloc, tECTX_ALLOC_CHAIN(ctx));
 
     return ptr;
 }
 
+static void *track_alloc(void *ptr)
+{
+    return track_alloc_in(cur_ctx, ptr);
+}
+
 static void ctx_backtrace(void)
 {
     fprintf(stderr, "Evaluator Backtrace:\n");
@@ -1104,7 +1109,13 @@ static tree map_typedef(tree id, tree type)
 
 static void *__evaluator_alloca(size_t sz)
 {
-    return malloc(sz);
+    tree fn_ctx = cur_ctx;
+
+    /* The memory is released once the function that asked for it returns. */
+    while (!tECTX_IS_FN_CALL(fn_ctx) && tECTX_PARENT_CTX(fn_ctx))
+        fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+
+    return track_alloc_in(fn_ctx, malloc(sz));
 }
 
 static tree handle_extern_fn(tree return_type, tree fndecl)
-- 
2.43.0


From 9df0470c68ec2e75d59f89f71097213d9a949098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 069/119] fix: collect garbage while an external function calls
 back

---
 src/evaluate.c      | 11 +++++++++++
 src/evaluate.h      |  2 ++
 src/function-call.c | 11 ++++++++---
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index aeff7e1..0cb8129 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3377,6 +3377,17 @@ tree evaluate_expr(tree t)
     return __evaluate_1(t, 0);
 }
 
+/* What is allocated between these two is released along with the context. */
+void eval_begin_callback(void)
+{
+    push_ctx("Callback");
+}
+
+void eval_end_callback(void)
+{
+    pop_ctx();
+}
+
 static tree handle_builtin_strcpy_chk(tree args)
 {
     /* Transform into a normal call to strcpy, stripping off the last argument.
diff --git a/src/evaluate.h b/src/evaluate.h
index 723cd3e..139cee1 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -22,4 +22,6 @@ enum tree_type get_int_type(tree t);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
+void eval_begin_callback(void);
+void eval_end_callback(void);
 void eval_init(void);
diff --git a/src/function-call.c b/src/function-call.c
index a3ee0c5..759cc30 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -66,7 +66,7 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
     // Prevent GC here, we could potentially create temporary LV for the default
     // argument promotions. FFI would have a reference to the LVs but the trees
     // would be dangling, making them a candidate for GC. Prevent that until
-    // after function calling is complete.
+    // the arguments have been passed; the function could call back for long.
     inhibit_gc();
 
     if (args)
@@ -123,12 +123,13 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
     else
         ffi_prep_cif(&cif, FFI_DEFAULT_ABI, n, ret_type, types);
 
+    /* No tree is made between here and the call. */
+    enable_gc();
+
     ffi_call(&cif, function_address, ret_lv ? (void *)tLV_VAL(ret_lv) : NULL, vals);
 
     free(types);
     free(vals);
-
-    enable_gc();
 }
 
 /* Hand the value that a function returned to the external caller.  libffi
@@ -173,6 +174,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
         result;
     int n = 0;
 
+    eval_begin_callback();
+
     for_each_tree(arg, args) {
         tree new_arg;
 
@@ -199,6 +202,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
 
     if (result)
         set_closure_result(tCLOSURE_RET_TYPE(closure), result, ret);
+
+    eval_end_callback();
 }
 
 void *get_entry_point_for_fn(tree fndef)
-- 
2.43.0


From 23e596e11c18a0b5eabe85d013193eba88191c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 070/119] fix: typedefs in the REPL

---
 src/repl.c     |  7 ++++++-
 src/typename.c | 16 ++++++++++++++++
 src/typename.h |  2 ++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 8e8ec8a..e58d2b1 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -405,7 +405,7 @@ static tree repl_do_parse(char *line)
 
 static tree repl_parse_line(char *line)
 {
-    tree stmt;
+    tree stmt, typenames;
     char *line_after_cpp;
     /* Parsing a line happens in two passes.  We firstly parse the
      * line as given by the user to see whether we are including a
@@ -419,8 +419,13 @@ static tree repl_parse_line(char *line)
      * preprocess it and then parse that as the tree to be
      * evaluated. */
 
+    typenames = typename_save();
     stmt = repl_do_parse(line);
 
+    /* What the line declares as a typename isn't one yet when it is parsed
+     * again. */
+    typename_restore(typenames);
+
     if (!stmt)
         return NULL;
 
diff --git a/src/typename.c b/src/typename.c
index edc5b79..5cb8cd7 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -54,6 +54,22 @@ void typename_init(void)
     add_typename(get_identifier("_Float128"));
 }
 
+/* The typenames so far, for typename_restore(). */
+tree typename_save(void)
+{
+    tree i, ret = tree_make(CHAIN_HEAD);
+
+    for_each_tree(i, type_names)
+        tree_chain(get_identifier(tID_STR(i)), ret);
+
+    return ret;
+}
+
+void typename_restore(tree saved)
+{
+    type_names = saved;
+}
+
 int is_typename(tree typename)
 {
     tree i;
diff --git a/src/typename.h b/src/typename.h
index cd9af85..3be8c49 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -5,4 +5,6 @@ void typename_unset_include_file(void);
 void reset_include_typenames(void);
 void add_typename(tree typename);
 void typename_init(void);
+tree typename_save(void);
+void typename_restore(tree saved);
 int is_typename(tree typename);
-- 
2.43.0


From 9d7b8edcf6f5949c341a855b88ca519513795c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 071/119] fix: a line that can't be parsed has no influence on
 the next one

---
 src/lex.m4 | 9 +++++++++
 src/repl.c | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 23477dd..ac4787e 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -278,3 +278,12 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
 %%
+REPL_ONLY
+    /* What is left of a line that couldn't be parsed has no influence on the
+     * next one. */
+    void repl_lex_reset(void)
+    {
+        BEGIN(INITIAL);
+        colnum = 1;
+    }
+ALL_TARGETS
diff --git a/src/repl.c b/src/repl.c
index e58d2b1..c16a6d6 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -37,6 +37,8 @@ extern void add_history (const char *);
 #  endif /* HAVE_READLINE_HISTORY_H */
 #endif /* HAVE_READLINE_HISTORY */
 
+void repl_lex_reset(void);
+
 tree repl_parse_head;
 GC_STATIC_TREE(repl_parse_head);
 
@@ -124,6 +126,7 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
     comp_obj_expr = concat_strings(comp_obj_expr, ";");
 
     YY_BUFFER_STATE lex_buffer = repl_scan_string(comp_obj_expr);
+    repl_lex_reset();
     inhibit_gc();
     int parse_result = replparse();
     enable_gc();
@@ -381,6 +384,7 @@ static tree repl_do_parse(char *line)
     tree i, ret = NULL;
 
     YY_BUFFER_STATE buffer = repl_scan_string(line);
+    repl_lex_reset();
     inhibit_gc();
     parse_result = replparse();
     enable_gc();
-- 
2.43.0


From 0191abb56ef31c163525f18ca22a13905cf92b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 072/119] fix: the REPL leaked temporary files and their
 descriptors

---
 src/preprocess.c | 4 ++++
 src/repl.c       | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index c2ff256..eb0fa10 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -95,6 +95,10 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   free(command);
 
+  /* The output can still be read from the stream. */
+  unlink(cpp_file_name);
+  unlink(out_file_name);
+
   if (ret < 0) {
     fprintf(stderr, "Invocation of preprocessor process failed\n");
     exit (1);
diff --git a/src/repl.c b/src/repl.c
index c16a6d6..1c6119a 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -375,6 +375,8 @@ static char *run_cpp_on_line(char *line)
     while (pos != line_len)
         ret[pos++] = fgetc(output);
 
+    fclose(output);
+
     return ret;
 }
 
-- 
2.43.0


From aa1b9e6b6d1f3faa0a519ae135b94a602de0a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 073/119] fix: stray characters were printed and otherwise
 ignored

---
 src/lex.m4 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index ac4787e..d21d157 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -230,7 +230,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
-<INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
+<INITIAL,compound_start_cond>[ \t\r\f\v]                     /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
 
 "..."                           return ELLIPSIS;
@@ -277,6 +277,8 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
+
+<INITIAL,compound_start_cond>.  /* Not a token. */ return (unsigned char)LEXTEXT[0];
 %%
 REPL_ONLY
     /* What is left of a line that couldn't be parsed has no influence on the
-- 
2.43.0


From dc7b5d4fd0012ccb1d7809bddfcb4d8e1d7d10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 074/119] fix: comments and blank lines in the REPL

---
 src/lex.m4    | 4 ++++
 src/parser.m4 | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index d21d157..8315d9d 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -230,6 +230,10 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
+REPL_ONLY
+<INITIAL,compound_start_cond>"//".*                          /* skip comments */
+<INITIAL,compound_start_cond>"/*"([^*]|\*+[^*/])*\*+"/"      /* skip comments */
+ALL_TARGETS
 <INITIAL,compound_start_cond>[ \t\r\f\v]                     /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
 
diff --git a/src/parser.m4 b/src/parser.m4
index 18620b6..8725983 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1496,9 +1496,9 @@ REPL_ONLY
     ;
 
     repl_translation_unit
-    : repl_statement
+    : /* A blank line. */
     {
-        TARGET()_parse_head = tree_chain_head($1);
+        TARGET()_parse_head = tree_make(CHAIN_HEAD);
         $$ = TARGET()_parse_head;
     }
     | repl_translation_unit repl_statement
-- 
2.43.0


From a395ffab72b4b505fe88dc7fb1b6b33ba4f8585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 075/119] fix: headers with other characters in their names
 couldn't be included in the REPL

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 8315d9d..822d60a 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -204,7 +204,7 @@ X                               [0-9A-Fa-f]
 "while"				return WHILE;
 
 REPL_ONLY
-"`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
+"`#'include"[ \t]*"<"[^>\n]+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
 "`#'"[ \t]*[0-9]+[ \t]*\"([^\"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
-- 
2.43.0


From 2bcc23d60a74bb68e0b55d652f131c27d8d8dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 076/119] fix: inspecting an array crashed

---
 src/evaluate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0cb8129..5a15350 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -868,6 +868,7 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     tDTPTR_EXP(ptr) = base_type;
     live_var = make_live_var(ptr);
     tLV_VAL(live_var)->D_T_PTR = base;
+    tLOCUS(live_var) = tLOCUS(id);
 
     /* These are used by the sizeof() expression to return the correct
      * size. */
-- 
2.43.0


From 9da2b728370c34d58ed1fcbbca89b0a701aa2251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 077/119] fix: the inspector called an unsigned short signed

---
 src/c.lang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.lang b/src/c.lang
index 4341415..c0328c2 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -264,7 +264,7 @@
 (defctype D_T_LONG "signed long" "long" "ld" "ival" ffi_type_slong)
 (defctype D_T_LONGLONG "signed long long" "long long" "lld" "ival" ffi_type_slong)
 (defctype D_T_UCHAR "unsigned char" "unsigned char" "u" "ival" ffi_type_uchar)
-(defctype D_T_USHORT "signed short" "unsigned short" "hu" "ival" ffi_type_ushort)
+(defctype D_T_USHORT "unsigned short" "unsigned short" "hu" "ival" ffi_type_ushort)
 (defctype D_T_UINT "unsigned integer" "unsigned int" "u" "ival" ffi_type_uint)
 (defctype D_T_ULONG "unsigned long" "unsigned long" "lu" "ival" ffi_type_ulong)
 (defctype D_T_ULONGLONG "unsigned long long" "unsigned long long" "llu" "ival" ffi_type_ulong)
-- 
2.43.0


From cc270790ed536426dc949e03ef95142c50549d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 078/119] fix: inspecting a pointer to an anonymous struct
 crashed

---
 src/inspect.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/inspect.c b/src/inspect.c
index 937dccc..5276a0f 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -39,9 +39,7 @@ static tree handle_pointer_type(tree ptr_type)
 
 static void print_object_type(tree inspect_id, tree resolved_object)
 {
-    tree object_type = resolved_object,
-        sizeof_obj = tree_make(T_SIZEOF);
-    const char *object_name;
+    tree object_type = resolved_object;
 
     if (!is_T_IDENTIFIER(inspect_id))
         return;
@@ -53,13 +51,17 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
     object_type = handle_pointer_type(object_type);
 
-    if (is_T_DECL_COMPOUND(object_type))
-        object_name = tID_STR(tCOMP_DECL_ID(object_type));
-    else
-        object_name = tree_description_string(object_type);
-
-    tSZOF_EXP(sizeof_obj) = inspect_id;
-    printf("%s.\n", object_name);
+    if (is_T_DECL_COMPOUND(object_type)) {
+        const char *kind =
+            tCOMP_DECL_TYPE(object_type) == uunion ? "union" : "struct";
+
+        /* Not all of them have a tag. */
+        if (tCOMP_DECL_ID(object_type))
+            printf("%s %s.\n", kind, tID_STR(tCOMP_DECL_ID(object_type)));
+        else
+            printf("%s.\n", kind);
+    } else
+        printf("%s.\n", tree_description_string(object_type));
 }
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
-- 
2.43.0


From df017c87c316db567a8c274b08ae4865c18b3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 079/119] fix: typenames couldn't be inspected

---
 src/parser.m4 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index 8725983..0244650 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1493,6 +1493,12 @@ REPL_ONLY
         tINSPECT_EXP(inspect) = $2;
         $$ = inspect;
     }
+    | '?' TYPE_NAME
+    {
+        tree inspect = tree_make(T_INSPECT);
+        tINSPECT_EXP(inspect) = $2;
+        $$ = inspect;
+    }
     ;
 
     repl_translation_unit
-- 
2.43.0


From 77be19c299503d87a5a7fd5a01f1c3bb98419ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 080/119] fix: the startup file ended programs that start the
 REPL

---
 src/evaluate.c | 14 ++++++++++++++
 src/evaluate.h |  1 +
 src/repl.c     |  9 ++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5a15350..9a53aed 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2903,6 +2903,20 @@ static tree eval_comp_access(tree t, int depth)
     return __resolve_id(id, tLV_COMP_MEMBERS(left));
 }
 
+/* The names of the startup file enclose those of the program in which the REPL
+ * has been started. */
+void evaluate_startup(char *fname)
+{
+    tree ctx = cur_ctx;
+
+    while (tECTX_PARENT_CTX(cur_ctx))
+        cur_ctx = tECTX_PARENT_CTX(cur_ctx);
+
+    evaluate_cscript(fname, false, TEXTUAL, 1, &fname);
+
+    cur_ctx = ctx;
+}
+
 static tree eval_repl(tree t, int depth)
 {
     bic_repl();
diff --git a/src/evaluate.h b/src/evaluate.h
index 139cee1..144da00 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -21,6 +21,7 @@ signed long int get_int_value(tree t);
 enum tree_type get_int_type(tree t);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
+void evaluate_startup(char *fname);
 tree evaluate_expr(tree t);
 void eval_begin_callback(void);
 void eval_end_callback(void);
diff --git a/src/repl.c b/src/repl.c
index 1c6119a..9b36e92 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -449,9 +449,16 @@ static tree repl_parse_line(char *line)
 
 static void evaluate_startup_file()
 {
+    static bool evaluated = false;
     const char *homedir;
     char *dotfile;
 
+    /* A program can start the REPL more than once. */
+    if (evaluated)
+        return;
+
+    evaluated = true;
+
     if ((homedir = getenv("HOME")) == NULL) {
         homedir = getpwuid(getuid())->pw_dir;
     }
@@ -468,7 +475,7 @@ static void evaluate_startup_file()
     if (access(dotfile, R_OK))
         return;
 
-    evaluate_cscript(dotfile, false, TEXTUAL, 1, &dotfile);
+    evaluate_startup(dotfile);
 }
 
 void bic_repl()
-- 
2.43.0


From 87fa5b7f2ed4a90363098db400707894368566ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 081/119] fix: an unterminated string in the REPL was accepted

---
 src/lex.m4 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 822d60a..4189b9c 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -229,6 +229,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
+<str_lit><<EOF>>                { /* An unterminated string isn't a token. */ BEGIN 0; return '"'; }
 
 REPL_ONLY
 <INITIAL,compound_start_cond>"//".*                          /* skip comments */
-- 
2.43.0


From 1e4f0f9acf2d9015919d598b26dc51f363f10072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 082/119] fix: accessing a member that doesn't exist wasn't an
 error

---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9a53aed..c883bd5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2892,7 +2892,7 @@ static tree eval_enumerator(tree t, int depth)
 static tree eval_comp_access(tree t, int depth)
 {
     tree left = __evaluate_1(tCOMP_ACCESS_OBJ(t), depth + 1),
-        id = tCOMP_ACCESS_MEMBER(t);
+        id = tCOMP_ACCESS_MEMBER(t), member;
 
     if (!is_T_LIVE_COMPOUND(left))
         eval_die(t, "Unknown compound type in compound access\n");
@@ -2900,7 +2900,12 @@ static tree eval_comp_access(tree t, int depth)
     if (!is_T_IDENTIFIER(id))
         eval_die(t, "Unknown accessor in compound access\n");
 
-    return __resolve_id(id, tLV_COMP_MEMBERS(left));
+    member = __resolve_id(id, tLV_COMP_MEMBERS(left));
+
+    if (!member)
+        eval_die(t, "Could not resolve member %s.\n", tID_STR(id));
+
+    return member;
 }
 
 /* The names of the startup file enclose those of the program in which the REPL
-- 
2.43.0


From ce70c8fd5c657d81d08367f11fe5d68b3825ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 083/119] fix: inspecting argc or argv crashed

---
 src/inspect.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/inspect.c b/src/inspect.c
index 5276a0f..018a408 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -66,6 +66,10 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
 {
+    /* Not everything has been declared by the program. */
+    if (!tLOCUS(resolved_object).file)
+        return;
+
     printf("%s was declared at: %s:%ld\n", tID_STR(inspect_id),
            tID_STR(tLOCUS(resolved_object).file),
            tLOCUS(resolved_object).line_no);
-- 
2.43.0


From 781be812cebaf9ac942cf2e8c804274eb184604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 084/119] fix: the storage of a static object declared in the
 REPL was collected

---
 src/evaluate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index c883bd5..990db71 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -34,6 +34,12 @@ GC_STATIC_TREE(include_ctx);
 static tree include_chain = NULL;
 GC_STATIC_TREE(include_chain);
 
+/* The allocations made by static declarations.  The objects live for as long
+ * as the program, even if the declaration itself doesn't (when it was entered
+ * into the REPL). */
+static tree static_allocs = NULL;
+GC_STATIC_TREE(static_allocs);
+
 const tree get_include_chain(void)
 {
     return include_chain;
@@ -1366,6 +1372,7 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
    * decls and retain the id_map and alloc chain.  We then use them
    * to construct the E_CTX object. */
   push_ctx("Static declaration");
+  tECTX_ALLOC_CHAIN(cur_ctx) = static_allocs;
   if (is_CHAIN_HEAD(decls)) {
     for_each_tree(i, decls) ret = handle_declarator(i, base_type, depth);
   } else
@@ -3468,4 +3475,5 @@ void eval_init(void)
     eval_init_builtins();
     push_ctx("Toplevel");
     include_chain = tree_make(CHAIN_HEAD);
+    static_allocs = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 9fc1abf0c978ed96ee8ebeca1093252acfed2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 085/119] fix: report where an error is if only a value is at
 hand

---
 src/evaluate.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 990db71..f685b6f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -40,6 +40,10 @@ GC_STATIC_TREE(include_chain);
 static tree static_allocs = NULL;
 GC_STATIC_TREE(static_allocs);
 
+/* The last thing of the program's text of which the evaluation began. */
+static tree last_evaluated = NULL;
+GC_STATIC_TREE(last_evaluated);
+
 const tree get_include_chain(void)
 {
     return include_chain;
@@ -117,8 +121,17 @@ static void ctx_backtrace(void)
     }
 }
 
+/* Values have either no location or that of the declaration of an object. */
+static bool has_locus(tree t)
+{
+    return t->locus.line_no && !is_T_LIVE_VAR(t) && !is_T_LIVE_COMPOUND(t);
+}
+
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
+    if (!has_locus(t) && last_evaluated)
+        t = last_evaluated;
+
     fprintf(stderr, "%s:%zu:%zu: error: ",
             t->locus.file ? tID_STR(t->locus.file) : current_filename,
             t->locus.line_no, t->locus.column_no);
@@ -3254,6 +3267,9 @@ static tree __evaluate_1(tree t, int depth)
     if (!t)
         return result;
 
+    if (has_locus(t))
+        last_evaluated = t;
+
     switch (TYPE(t))
     {
     case T_IDENTIFIER: result = eval_identifier(t, depth + 1); break;
-- 
2.43.0


From bad75acf3cf3c8ea149bcc21f31ce652b3edf39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 086/119] fix: a line marker between struct and the tag was a
 syntax error

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 4189b9c..d27175d 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -207,7 +207,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"[^>\n]+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"([^\"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+<INITIAL,compound_start_cond>"`#'"[ \t]*[0-9]+[ \t]*\"([^\"\\\n]|\\.)*\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From 434a578b5dd223c7268a92a1b011dfd98daf7e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 087/119] fix: argv didn't end with a null pointer

---
 src/cscript.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index b661f15..13f096f 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -83,24 +83,26 @@ static void create_arguments(int argc, char *argv[])
 
     chain = tree_chain_head(argc_decl);
 
-    /* char *argv[n]; */
+    /* char *argv[n + 1];
+     *
+     * As in C, the last element is a null pointer. */
     tree argv_decl = tree_make(T_DECL);
     tree array = tree_make(T_ARRAY);
     tree ptr = tree_make(T_POINTER);
 
     tDECL_SPECS(argv_decl) = tree_chain_head(tree_make(T_CHAR_TS));
 
-    tARRAY_SZ(array) = get_integer(argc);
+    tARRAY_SZ(array) = get_integer(argc + 1);
     tARRAY_DECL(array) = get_identifier("argv");
     tPTR_EXP(ptr) = array;
     tDECL_DECLS(argv_decl) = ptr;
 
     tree_chain(argv_decl, chain);
 
-    /* for (int i = 0; i < n; i++)
+    /* for (int i = 0; i <= n; i++)
      *    argv[i] = <char * address>;
      */
-    for (int i = 0; i < argc; i++)
+    for (int i = 0; i <= argc; i++)
     {
         tree assign = tree_make(T_ASSIGN);
         tree array_access = tree_make(T_ARRAY_ACCESS);
-- 
2.43.0


From be8df5b51d0216d87805d77554f3bf5587ff1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 088/119] fix: argv[0] was the option if the script's name was
 attached to -s

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 422c67f..710552a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -155,6 +155,8 @@ int main(int argc, char *argv[])
         /* Decrement the option index to include the script name as a
          * parameter. */
         opt_idx--;
+        /* It could have been written without a space after the -s. */
+        argv[opt_idx] = (char *)cscript_file;
         return evaluate_cscript(cscript_file, flag_print_ast, dump_type,
                                 argc - opt_idx, &argv[opt_idx]);
     }
-- 
2.43.0


From 6cbf7574750246cd610003c5f4f6878655fda378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 089/119] fix: scripts whose names start with a dash couldn't
 be run

---
 src/cscript.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 13f096f..6e152f1 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -32,9 +32,11 @@ static int parse_cscript(const char *fname)
     FILE *f;
     char *command, *include_opts = preprocessor_get_include_opts(),
         *quoted_fname = quote_for_shell(fname);
+    /* Don't let a file name look like an option, "-" is the standard input. */
+    const char *dir = fname[0] == '-' && fname[1] ? "./" : "";
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s %s", include_opts,
-             quoted_fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s %s%s", include_opts,
+             dir, quoted_fname);
 
     free(include_opts);
     free(quoted_fname);
-- 
2.43.0


From 113286859d2badad5cf35ac614e15be5dbf75ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 090/119] fix: dumps of trees were ambiguous, and not valid
 graphs, if a string had a quote

---
 src/tree-dump-primitives.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index c134a9c..39de3a0 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -28,9 +28,21 @@ static inline void tree_dump_flag(tree t, bool flag, enum DUMP_TYPE dt)
 static inline void tree_dump_string(tree t, const char *s, enum DUMP_TYPE dt)
 {
     if (dt == TEXTUAL)
-        fprintf(stderr, "\"%s\"", s);
-    else
-        fprintf(stderr, "%s", s);
+        fputc('"', stderr);
+
+    /* Both kinds of dumps delimit strings by double quotes. */
+    for (; *s; s++)
+        if (*s == '\n')
+            fputs("\\n", stderr);
+        else {
+            if (*s == '"' || *s == '\\')
+                fputc('\\', stderr);
+
+            fputc(*s, stderr);
+        }
+
+    if (dt == TEXTUAL)
+        fputc('"', stderr);
 }
 
 static inline void tree_dump_jmp_buf(tree t, jmp_buf b, enum DUMP_TYPE dt)
-- 
2.43.0


From 868dcae0de6fad7901a1c48125d51beddf254a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 091/119] fix: all scalar properties of a node had the value of
 the last one in graphs

---
 src/gendot.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index e644d86..924f9a6 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -44,13 +44,14 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        }\n");
         } else {
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p_val [label=\\\"\", head);\n");
+            fprintf(f, "        fprintf(stderr, \"tree_%%p_%s [label=\\\"\", head);\n",
+                    prop.first.c_str());
             fprintf(f, "        tree_dump_%s(head, %s(head), DOT);\n",
                     prop.second.baseType.name.c_str(), type.getPropAccessor(prop.first).c_str());
             fprintf(f, "        fprintf(stderr, \"\\\"];\\n\");\n");
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_val [label=\\\"%s\\\"];\\n\", head, head);\n",
-                    prop.first.c_str());
+            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_%s [label=\\\"%s\\\"];\\n\", head, head);\n",
+                    prop.first.c_str(), prop.first.c_str());
         }
     }
 
-- 
2.43.0


From 28e07910cc03bd752205d28437678850bf644154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:31 +0000
Subject: [PATCH 092/119] fix: the body of something that isn't a function was
 an internal error

---
 src/parser.m4 | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 0244650..acf7a30 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -103,12 +103,19 @@ CSCRIPT_ONLY
 
     /* The declarator of a function that returns a pointer is wrapped in the
      * pointers of its return type. */
-    static void set_fn_stmts(tree declarator, tree stmts)
+    static tree fn_declarator(tree declarator)
     {
         while (is_T_POINTER(declarator))
             declarator = tPTR_EXP(declarator);
 
-        tFN_STMTS(declarator) = stmts;
+        return declarator;
+    }
+
+    /* Called at the '{' of the body of a declarator. */
+    static void check_fn_declarator(tree declarator)
+    {
+        if (!is_T_FN(fn_declarator(declarator)))
+            TARGET()error("syntax error, unexpected '{' after something that isn't a function");
     }
 
     void TARGET()_parser_set_file(const char *fname)
@@ -1656,21 +1663,29 @@ CSCRIPT_ONLY
     ;
 
     function_definition
-    : declaration_specifiers declarator declaration_list compound_statement
+    : declaration_specifiers declarator declaration_list
+    {
+        check_fn_declarator($2);
+    }
+    compound_statement
     {
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        set_fn_stmts($2, $4);
+        tFN_STMTS(fn_declarator($2)) = $5;
         set_locus(decl, @2);
         $$ = decl;
     }
-    | declaration_specifiers declarator compound_statement
+    | declaration_specifiers declarator
+    {
+        check_fn_declarator($2);
+    }
+    compound_statement
     {
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        set_fn_stmts($2, $3);
+        tFN_STMTS(fn_declarator($2)) = $4;
         set_locus(decl, @2);
         $$ = decl;
     }
-- 
2.43.0


From b8eadcbd1ba2ace15e4e6d747e5fb90bbc5f662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 093/119] fix: a tag declared in a block meant the type of that
 name outside of it

---
 src/evaluate.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f685b6f..beef063 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1344,7 +1344,8 @@ static tree handle_typedef(tree type, tree decls, int depth)
 
 static tree handle_forward_decl(tree type)
 {
-    tree id;
+    enum identifier_search_scope scope = SCOPE_GLOBAL;
+    tree id, parent = tECTX_PARENT_CTX(cur_ctx);
 
     assert(is_T_DECL_COMPOUND(type));
     assert(tCOMP_DECL_DECLS(type) == NULL);
@@ -1352,9 +1353,14 @@ static tree handle_forward_decl(tree type)
 
     id = tCOMP_DECL_ID(type);
 
+    /* In a block, this declares another type than one of the same name
+     * outside of it. */
+    if (parent && tECTX_PARENT_CTX(parent))
+        scope = SCOPE_CURRENT_CTX;
+
     /* If the declaration already exists, don't attempt to map it
      * again. */
-    if (resolve_compound(type, SCOPE_GLOBAL))
+    if (resolve_compound(type, scope))
         return id;
 
     tree forward_decl = tree_make(E_INCOMP_TYPE);
-- 
2.43.0


From 38c390d210b8ba40af46383493949a3931e0419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:36 +0000
Subject: [PATCH 094/119] fix: completing a member doesn't show output or run
 atexit functions

---
 src/repl.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 9b36e92..8a24761 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -281,6 +281,11 @@ static char **recieve_matches(int fd)
     return ret;
 }
 
+static void exit_completion(void)
+{
+    _exit(0);
+}
+
 static char **bic_completion(const char *text, int start, int end)
 {
     char **matches = NULL;
@@ -310,6 +315,13 @@ static char **bic_completion(const char *text, int start, int end)
             close(pfds[0]);
             char **local_matches = NULL;
 
+            /* Neither the output of the expression nor that of its errors is
+             * of interest, and what the program has registered with atexit()
+             * isn't to be called when this process exits. */
+            freopen("/dev/null", "w", stdout);
+            freopen("/dev/null", "w", stderr);
+            atexit(exit_completion);
+
             live_compound = get_compound_completion_object(comp_access);
 
             if (is_T_LIVE_COMPOUND(live_compound))
-- 
2.43.0


From 2bbf58e312f96e8266c2bb478892da78d8bb5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:40 +0000
Subject: [PATCH 095/119] fix: completing a member leaks no file descriptor and
 no process

---
 src/repl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 8a24761..490ff25 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -2,6 +2,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <pwd.h>
 
 #include "config.h"
@@ -342,7 +343,8 @@ static char **bic_completion(const char *text, int start, int end)
             free(comp_access.access_operator);
             free(comp_access.member_prefix);
 
-            close(pfds[1]);
+            close(pfds[0]);
+            waitpid(ret, NULL, 0);
         }
     }
     else
-- 
2.43.0


From 51a0bff1b39bb92858de0aade1887b0f7c68cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:46 +0000
Subject: [PATCH 096/119] fix: complete only names that are visible

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index beef063..9e8caee 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -271,7 +271,7 @@ tree find_global_identifiers(const char *prefix)
     while (search_ctx) {
         match_identifiers_for_idmap(chain, tECTX_ID_MAP(search_ctx), prefix);
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        search_ctx = get_enclosing_scope(search_ctx);
     }
 
     if (include_ctx)
-- 
2.43.0


From 8d2869bc16813ac0ab84433d0f9d1ce5a8df000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:11 +0000
Subject: [PATCH 097/119] fix: give type names with array and function
 declarators their type

sizeof(int[3]) yielded the size of an int, and a cast to a pointer to a
function cut the address down to an integer: the declarators of a type name
were dropped from the first one that isn't a pointer.
---
 src/evaluate.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9e8caee..2537f59 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3053,6 +3053,31 @@ static tree eval_sizeof(tree t, int depth)
     eval_die(t, "Could not calculate size of expression");
 }
 
+/* The type that an abstract declarator makes of `type'. */
+static tree resolve_abstract_decl(tree decl, tree type)
+{
+    if (!decl)
+        return type;
+
+    resolve_ptr_type(&decl, &type);
+
+    if (is_T_FN(decl)) {
+        tree fn = alloc_copy_tree(decl);
+        tFN_RET_TYPE(fn) = type;
+        tFN_DECL(fn) = NULL;
+        return resolve_abstract_decl(tFN_DECL(decl), fn);
+    }
+
+    if (is_T_ARRAY(decl)) {
+        tree array_type = tree_make(T_ARRAY_TYPE);
+        tARRAY_TYPE_BASE_TYPE(array_type) = type;
+        tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(decl);
+        return resolve_abstract_decl(tARRAY_DECL(decl), array_type);
+    }
+
+    return type;
+}
+
 static tree eval_type_specifier(tree t, int depth)
 {
     tree type =  resolve_decl_specs_to_type(tTYPE_SPECIFIER_SPECS(t)),
@@ -3062,14 +3087,7 @@ static tree eval_type_specifier(tree t, int depth)
         is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
-    while (is_T_POINTER(decl)) {
-        tree ptr = tree_make(D_T_PTR);
-        tDTPTR_EXP(ptr) = type;
-        type = ptr;
-        decl = tPTR_EXP(decl);
-    }
-
-    return type;
+    return resolve_abstract_decl(decl, type);
 }
 
 static tree handle_addr_fn_def(tree fndef)
-- 
2.43.0


From 19d7f0379c6581d88aa3a8a0afd93e50cdad1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 098/119] fix: accept casts to void

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2537f59..5e6ecd2 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2363,6 +2363,10 @@ static tree eval_cast(tree t, int depth)
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
+    /* Such an expression only has side effects. */
+    if (is_D_T_VOID(dest_type))
+        return NULL;
+
     if (is_T_INTEGER(source)) {
         tree lv = make_live_var(dest_type);
 
-- 
2.43.0


From d2dab4c613beff98c908ff2d1e3c15bad3672786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 099/119] fix: accept casts of string literals

---
 src/evaluate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5e6ecd2..f19013b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2367,6 +2367,13 @@ static tree eval_cast(tree t, int depth)
     if (is_D_T_VOID(dest_type))
         return NULL;
 
+    if (is_T_STRING(source)) {
+        tree str = make_live_var(tree_make(D_T_PTR));
+        tDTPTR_EXP(tLV_TYPE(str)) = tree_make(D_T_CHAR);
+        assign_ptr(str, source);
+        source = str;
+    }
+
     if (is_T_INTEGER(source)) {
         tree lv = make_live_var(dest_type);
 
-- 
2.43.0


From 0add19b0877ad530599b45c1297e2859ebd48840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 100/119] fix: accept the operands of a subscript in either
 order

---
 src/evaluate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index f19013b..9322bbc 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2974,6 +2974,13 @@ static tree eval_array_access(tree t, int depth)
     size_t idx, base_type_length;
     void *base;
 
+    /* The operands can have either order. */
+    if (is_pointer(index)) {
+        tree ptr = index;
+        index = array;
+        array = ptr;
+    }
+
     if (!is_T_LIVE_VAR(array))
         eval_die(t, "Attempted to access non-live variable.\n");
 
-- 
2.43.0


From 69f8953d3dbc74814be3b5f015dd26c10de00bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 101/119] fix: using an expression without a value was an
 internal error

---
 src/evaluate.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9322bbc..3318156 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -468,6 +468,18 @@ static tree make_int_from_live_var(tree var)
     return ret;
 }
 
+/* Evaluate `t', whose value is needed. */
+static tree evaluate_value(tree t, int depth)
+{
+    tree evaluated = __evaluate_1(t, depth);
+
+    /* (a call of a function that doesn't return anything) */
+    if (!evaluated)
+        eval_die(t, "Expression has no value.\n");
+
+    return evaluated;
+}
+
 /* Convert the result of the evaluation of `t' to an integer. */
 static tree make_comparable(tree t, tree evaluated)
 {
@@ -496,14 +508,14 @@ static tree make_comparable(tree t, tree evaluated)
 
 static tree convert_to_comparable_type(tree t, int depth)
 {
-    return make_comparable(t, __evaluate_1(t, depth + 1));
+    return make_comparable(t, evaluate_value(t, depth + 1));
 }
 
 /* The value of an expression that's a condition, which can have any scalar
  * type: an integer that isn't zero if the condition holds. */
 static tree eval_condition(tree t, int depth)
 {
-    tree evaluated = __evaluate_1(t, depth + 1);
+    tree evaluated = evaluate_value(t, depth + 1);
 
     if (is_T_FLOAT(evaluated))
         return get_integer(mpf_sgn(tFLOAT_VAL(evaluated)) != 0);
@@ -545,7 +557,7 @@ static tree eval_fn_args(tree args, int depth)
 
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
-        tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+        tFNARG_EXP(fn_arg) = evaluate_value(arg, depth + 1);
         tree_chain(fn_arg, ret);
     }
 
@@ -1641,8 +1653,8 @@ static tree bind_binmod(tree op, tree left, tree evaluated)
 static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(bind_binmod(tASSIGN_RHS(t), tASSIGN_LHS(t), left),
-                              depth + 1);
+    tree right = evaluate_value(bind_binmod(tASSIGN_RHS(t), tASSIGN_LHS(t), left),
+                                depth + 1);
     tree ret;
 
     /* Ensure we have a valid lvalue. */
@@ -1807,10 +1819,7 @@ static tree eval_dec(tree t, int depth)
 static tree eval_negate(tree t, int depth)
 {
     tree ret = tree_make(T_INTEGER);
-    tree intval;
-    tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
-
-    intval = eval_condition(exp, depth);
+    tree intval = eval_condition(tNEGATE_EXP(t), depth);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
         mpz_init_set_ui(tINT_VAL(ret), 1);
@@ -2968,8 +2977,8 @@ static tree eval_repl(tree t, int depth)
 
 static tree eval_array_access(tree t, int depth)
 {
-    tree array = __evaluate_1(tARR_ACCESS_OBJ(t), depth + 1),
-        index = __evaluate_1(tARR_ACCESS_IDX(t), depth + 1),
+    tree array = evaluate_value(tARR_ACCESS_OBJ(t), depth + 1),
+        index = evaluate_value(tARR_ACCESS_IDX(t), depth + 1),
         new_ptr, deref;
     size_t idx, base_type_length;
     void *base;
-- 
2.43.0


From 735bd737304bb9e8a6f1b130df07f9b669d777df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 102/119] fix: diagnose calls of something that isn't a
 function

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3318156..a16cfe1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -849,7 +849,7 @@ static tree eval_fn_call(tree t, int depth)
         return handler(tFNCALL_ARGS(t));
     }
 
-    return NULL;
+    eval_die(t, "could not call something that isn't a function\n");
 }
 
 static void make_and_map_live_var(tree id, tree type)
-- 
2.43.0


From 8bb23cd5851d07117059dfafe5419d0536279273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 103/119] fix: parameters declared as arrays or functions are
 pointers

---
 src/evaluate.c | 52 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a16cfe1..61c2945 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -652,6 +652,7 @@ static tree make_return_value(tree fncall, tree ret_type, tree value)
 }
 
 static void *resolve_ext_function(const char *name);
+static tree eval_parameter(tree param, int depth);
 
 static tree eval_fn_call(tree t, int depth)
 {
@@ -739,7 +740,7 @@ static tree eval_fn_call(tree t, int depth)
                     arg_decl = list_entry(arg_decl->chain.next,
                                           typeof(*arg_decl), chain);
 
-                    decl_identifier = __evaluate_1(arg_decl, depth + 1);
+                    decl_identifier = eval_parameter(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
@@ -1461,6 +1462,55 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
+/* Declare a parameter of a function that is called.  Parameters that are
+ * declared as arrays or functions are pointers. */
+static tree eval_parameter(tree param, int depth)
+{
+    tree type, id, ptr_type = tree_make(D_T_PTR);
+
+    if (!is_T_DECL(param) || !tDECL_DECLS(param) ||
+        is_CHAIN_HEAD(tDECL_DECLS(param)))
+        return __evaluate_1(param, depth + 1);
+
+    type = resolve_decl_specs_to_type(tDECL_SPECS(param));
+    id = tDECL_DECLS(param);
+
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
+        type = __evaluate_1(type, depth + 1);
+
+    resolve_ptr_type(&id, &type);
+
+    /* The declarator of a pointer to a function is within that function's. */
+    while (is_T_FN(id) && is_T_POINTER(tFN_DECL(id))) {
+        tree fn = alloc_copy_tree(id);
+
+        tFN_RET_TYPE(fn) = type;
+        id = tFN_DECL(fn);
+        tFN_DECL(fn) = NULL;
+        type = fn;
+        resolve_ptr_type(&id, &type);
+    }
+
+    resolve_array_type(&id, &type);
+
+    if (is_T_ARRAY(id)) {
+        tDTPTR_EXP(ptr_type) = type;
+        id = tARRAY_DECL(id);
+    } else if (is_T_FN(id)) {
+        tree fn = alloc_copy_tree(id);
+
+        tFN_RET_TYPE(fn) = type;
+        id = tFN_DECL(fn);
+        tDTPTR_EXP(ptr_type) = fn;
+    } else if (is_T_FN(type))
+        tDTPTR_EXP(ptr_type) = type;
+    else
+        return handle_declarator(id, type, depth);
+
+    return handle_declarator(id, ptr_type, depth);
+}
+
 /* The conversion to a signed type isn't defined for values that only fit into
  * the unsigned one. */
 static signed long int float_to_long(double val)
-- 
2.43.0


From 3c798e1b52564bda32d6753891ebd05db5ce8189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:51 +0000
Subject: [PATCH 104/119] fix: diagnose wrong numbers of arguments of all kinds
 of calls

---
 src/evaluate.c | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 61c2945..35cfa45 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -564,6 +564,31 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+/* The number of arguments of a call to an external function has to be that of
+ * the parameters of its declaration, if it has any. */
+static void check_no_ext_args(tree fncall, tree function)
+{
+    tree i;
+    size_t no_params = 0, no_args = 0;
+    bool is_variadic = false;
+
+    if (!tFN_ARGS(function))
+        return;
+
+    for_each_tree(i, tFN_ARGS(function)) {
+        if (is_T_VARIADIC(i))
+            is_variadic = true;
+        else
+            no_params++;
+    }
+
+    for_each_tree(i, tFNCALL_ARGS(fncall))
+        no_args++;
+
+    if (no_args < no_params || (no_args > no_params && !is_variadic))
+        eval_die(fncall, "Invalid number of parameters to function\n");
+}
+
 /* Convert the arguments of a call to an external function to the types of the
  * parameters of its declaration. */
 static void convert_ext_args(tree function, tree args, int depth)
@@ -687,6 +712,7 @@ static tree eval_fn_call(tree t, int depth)
             tree arg_decls = tFN_ARGS(function), arg_vals,
                 arg_decl, arg_val, return_val, fn_ctx,
                 scope_ctx = get_defining_ctx(function);
+            size_t no_decls = 0, no_vals = 0;
 
             /* Evaluate all of the arguments in the context of the caller,
              * before the context of the function exists.  This prevents bugs
@@ -714,20 +740,18 @@ static tree eval_fn_call(tree t, int depth)
 
             fn_ctx = cur_ctx;
 
-            if (arg_decls) {
-                size_t no_decls = 0, no_vals = 0;
-                /* Ensure that the number of parameters passed to the
-                 * function matches the number in the function
-                 * declaration. */
-                for_each_tree(arg_decl, arg_decls)
-                    no_decls++;
+            /* Ensure that the number of parameters passed to the function
+             * matches the number in the function declaration. */
+            for_each_tree(arg_decl, arg_decls)
+                no_decls++;
 
-                for_each_tree(arg_val, arg_vals)
-                    no_vals++;
+            for_each_tree(arg_val, arg_vals)
+                no_vals++;
 
-                if (no_vals != no_decls)
-                    eval_die(t, "Invalid number of parameters to function\n");
+            if (no_vals != no_decls)
+                eval_die(t, "Invalid number of parameters to function\n");
 
+            if (arg_decls) {
                 /* Evaluate an assignment for each passed value.  It's the chain
                  * of values that has to be iterated over, nothing else keeps
                  * it from being collected. */
@@ -794,6 +818,7 @@ static tree eval_fn_call(tree t, int depth)
             /* Evaluate all arguments before passing into the marshalling
              * function. */
             fn_arg_chain = eval_fn_args(args, depth);
+            check_no_ext_args(t, function);
             convert_ext_args(function, fn_arg_chain, depth);
 
             if (!is_D_T_VOID(tFN_RET_TYPE(function)))
@@ -837,6 +862,7 @@ static tree eval_fn_call(tree t, int depth)
         /* Evaluate all arguments before passing into the marshalling
          * function. */
         fn_arg_chain = eval_fn_args(args, depth);
+        check_no_ext_args(t, function_type);
         convert_ext_args(function_type, fn_arg_chain, depth);
 
         do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
-- 
2.43.0


From db0bebc58e1d63bb6562bca637d838503b679c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:16 +0000
Subject: [PATCH 105/119] fix: diagnose members that are declared twice

---
 src/evaluate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 35cfa45..915ec15 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2819,7 +2819,7 @@ static tree resolve_member_type(tree specs, int depth)
 
 static tree eval_decl_compound(tree t, int depth)
 {
-    tree i, struct_id = tCOMP_DECL_ID(t);
+    tree i, struct_id = tCOMP_DECL_ID(t), members = tree_make(CHAIN_HEAD);
     int offset = 0;
     size_t max_member_sz = 0, max_alignment = 1;
 
@@ -2894,6 +2894,11 @@ static tree eval_decl_compound(tree t, int depth)
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
+        if (__resolve_id(id, members))
+            eval_die(id, "Duplicate member %s.\n", tID_STR(id));
+
+        __map_identifer(id, live_var, members);
+
         /* Calculate the offset of the member within the struct.
          *
          * The algorithm we use to calculate the offset of a given
-- 
2.43.0


From e80b45098fdd51c07a56208b3b14ed54ea46fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 106/119] fix: diagnose compounds that are defined twice

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 915ec15..82bab05 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2848,6 +2848,9 @@ static tree eval_decl_compound(tree t, int depth)
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
         if (forward_decl) {
+            if (forward_decl != t && is_T_DECL_COMPOUND(forward_decl))
+                eval_die(t, "Attempted to redefine %s.\n", tID_STR(struct_id));
+
             tree_copy(forward_decl, t);
             t = forward_decl;
         } else
-- 
2.43.0


From 0c41d3032be2bbb439df2aad131b08cd17fbcad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:34 +0000
Subject: [PATCH 107/119] fix: report where a function is misused, not where it
 is declared

---
 src/evaluate.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 82bab05..7b4fa2d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -121,10 +121,12 @@ static void ctx_backtrace(void)
     }
 }
 
-/* Values have either no location or that of the declaration of an object. */
+/* Values have either no location or that of the declaration of an object or a
+ * function. */
 static bool has_locus(tree t)
 {
-    return t->locus.line_no && !is_T_LIVE_VAR(t) && !is_T_LIVE_COMPOUND(t);
+    return t->locus.line_no && !is_T_LIVE_VAR(t) && !is_T_LIVE_COMPOUND(t) &&
+        !is_T_FN(t) && !is_T_EXT_FUNC(t);
 }
 
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
@@ -1205,11 +1207,11 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
         tree live_var_type = tLV_TYPE(previous_decl);
 
         if (!is_D_T_PTR(live_var_type))
-            eval_die(fndecl, "attempted to re-declare %s as different type",
+            eval_die(id, "attempted to re-declare %s as different type",
                      tID_STR(id));
 
         if (!is_T_FN(tDTPTR_EXP(live_var_type)))
-            eval_die(fndecl, "attempted to re-declare %s as different type",
+            eval_die(id, "attempted to re-declare %s as different type",
                      tID_STR(id));
 
         return id;
-- 
2.43.0


From 5905f1c0842f388e7341c4db2f1256492d6f4cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:14 +0000
Subject: [PATCH 108/119] fix: accept an extern declaration of a function that
 has been declared

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7b4fa2d..9180d82 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1217,7 +1217,8 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
         return id;
     }
 
-    if (is_T_EXT_FUNC(previous_decl))
+    /* It could also have been declared, or even defined, without `extern'. */
+    if (is_T_EXT_FUNC(previous_decl) || is_T_FN(previous_decl))
         return id;
 
 
-- 
2.43.0


From 91835aacae11d4f00920abd2a1f9ed3e91b61c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 109/119] fix: accept the definition of a function that has
 been declared extern

---
 src/evaluate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9180d82..9803a5b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1098,7 +1098,8 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
         /* This is the definition of a function that has been declared.  Replace
          * the declaration so that all references to it see the definition. */
-        if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+        if (is_T_EXT_FUNC(previous_decl) ||
+            (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl))) {
             tree_copy(previous_decl, fn);
             return decl;
         }
-- 
2.43.0


From 6d60ab6d007ea3e840363632dc033828d11bb5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:14 +0000
Subject: [PATCH 110/119] fix: let the declaration of a function in a block
 refer to the function

---
 src/evaluate.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 9803a5b..fde159f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1096,6 +1096,16 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         if (previous_decl && !tFN_STMTS(fn))
             return previous_decl;
 
+        /* A declaration within a block refers to the function of that name. */
+        if (!tFN_STMTS(fn)) {
+            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_GLOBAL);
+
+            if (is_T_FN(previous_decl) || is_T_EXT_FUNC(previous_decl))
+                return previous_decl;
+
+            previous_decl = NULL;
+        }
+
         /* This is the definition of a function that has been declared.  Replace
          * the declaration so that all references to it see the definition. */
         if (is_T_EXT_FUNC(previous_decl) ||
@@ -1218,7 +1228,10 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
         return id;
     }
 
-    /* It could also have been declared, or even defined, without `extern'. */
+    /* It could also have been declared, or even defined, without `extern', and
+     * in an enclosing scope. */
+    previous_decl = resolve_identifier(id, SCOPE_GLOBAL);
+
     if (is_T_EXT_FUNC(previous_decl) || is_T_FN(previous_decl))
         return id;
 
-- 
2.43.0


From 228fe9d4dc9f470173b51dcbb6c1b1564cb83c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:17 +0000
Subject: [PATCH 111/119] fix: declare the types that the members of a
 structure declare in each scope

The types and the enumerators that are declared within the declaration of a
structure were only known the first time a block was entered, and an enumeration
of which two members were declared at once was declared twice.
---
 src/evaluate.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index fde159f..3f718a1 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2836,7 +2836,7 @@ static tree resolve_member_type(tree specs, int depth)
 
 static tree eval_decl_compound(tree t, int depth)
 {
-    tree i, struct_id = tCOMP_DECL_ID(t), members = tree_make(CHAIN_HEAD);
+    tree prev = NULL, i, struct_id = tCOMP_DECL_ID(t), members = tree_make(CHAIN_HEAD);
     int offset = 0;
     size_t max_member_sz = 0, max_alignment = 1;
 
@@ -2874,9 +2874,19 @@ static tree eval_decl_compound(tree t, int depth)
             map_compound(t, t);
     }
 
-    /* Don't attempt to expand an already expanded struct. */
-    if (tCOMP_DECL_EXPANDED(t))
+    /* Don't attempt to expand an already expanded struct.  The types and the
+     * enumerators that its members declare have to be declared again, though,
+     * if this is another scope than the last time. */
+    if (tCOMP_DECL_EXPANDED(t)) {
+        for_each_tree(i, tCOMP_DECL_DECLS(t)) {
+            if (!prev || tDECL_SPECS(prev) != tDECL_SPECS(i))
+                resolve_member_type(tDECL_SPECS(i), depth);
+
+            prev = i;
+        }
+
         return t;
+    }
 
     /* Expand the compound decl chain so each decl can have it's own
      * offset.  */
@@ -2896,8 +2906,14 @@ static tree eval_decl_compound(tree t, int depth)
          *
          * The type of the member is kept for the instantiation of the
          * compound, as the names it consists of could mean something
-         * else in the scope of the object that is instantiated. */
-        tDECL_TYPE(decl) = resolve_member_type(tDECL_SPECS(decl), depth);
+         * else in the scope of the object that is instantiated.  Members that
+         * are declared together share it. */
+        if (prev && tDECL_SPECS(prev) == tDECL_SPECS(decl))
+            tDECL_TYPE(decl) = tDECL_TYPE(prev);
+        else
+            tDECL_TYPE(decl) = resolve_member_type(tDECL_SPECS(decl), depth);
+
+        prev = decl;
 
         push_ctx("Compound Declaration");
 
-- 
2.43.0


From f0d27d88b615719c5d319c4b1b9fe39171bf4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 112/119] fix: declare the types of static declarations each
 time

A static declaration was replaced by its objects when it was evaluated for the
first time; the structure or the enumerators that it had declared were unknown
when its block was entered again.  One that only declares a type was an internal
error.
---
 src/c.lang     |  1 +
 src/evaluate.c | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index c0328c2..7872ed7 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -238,6 +238,7 @@
 
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "SCOPE_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
+          "STATIC_TYPE"
           ("JMP_BUF" jmp_buf)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
diff --git a/src/evaluate.c b/src/evaluate.c
index 3f718a1..ec4dd68 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1428,7 +1428,8 @@ static tree handle_forward_decl(tree type)
 
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
-  tree decls = tDECL_DECLS(decl), i, ret = NULL;
+  tree decls = tDECL_DECLS(decl), i, ret = NULL,
+      type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
 
   /* See if the decl defines a function. If so, just evaluate it as normal.
    * `static' functions have no real meaning in bic. */
@@ -1460,11 +1461,18 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
   tECTX_PARENT_CTX(decl) = NULL;
   tECTX_NAME(decl) = get_identifier("Static declaration");
   tECTX_IS_STATIC(decl) = 1;
+  tECTX_STATIC_TYPE(decl) = NULL;
 
   pop_ctx();
 
   __evaluate_1(decl, depth + 1);
 
+  /* The types and the enumerators that the specifiers declare are to be found
+   * the next time, too. */
+  if ((is_T_DECL_COMPOUND(type) && tCOMP_DECL_DECLS(type)) ||
+      (is_T_ENUMERATOR(type) && tENUM_ENUMS(type)))
+      tECTX_STATIC_TYPE(decl) = type;
+
   return ret;
 }
 
@@ -1484,6 +1492,10 @@ static tree eval_decl(tree t, int depth)
         || is_T_ENUMERATOR(decl_type))
         decl_type = __evaluate_1(decl_type, depth + 1);
 
+    /* This only declares a type or enumerators, whatever its storage class. */
+    if (!decls)
+        return NULL;
+
     if (chain_has_T_TYPEDEF(decl_specs))
         return handle_typedef(decl_type, decls, depth + 1);
 
@@ -1493,9 +1505,6 @@ static tree eval_decl(tree t, int depth)
     if (chain_has_T_STATIC(decl_specs))
         return handle_static_decl(decl_type, t, depth + 1);
 
-    if (!decls)
-        return NULL;
-
     if (is_CHAIN_HEAD(decls)) {
         for_each_tree(decl, decls)
             ret = handle_declarator(decl, decl_type, depth);
@@ -3395,6 +3404,8 @@ static tree eval_evaluator_ctx(tree t, int depth)
     if (!tECTX_IS_STATIC(t))
         eval_die(t, "Non static E_CTX object evaluated.\n");
 
+    __evaluate_1(tECTX_STATIC_TYPE(t), depth + 1);
+
     for_each_tree(mapping, tECTX_ID_MAP(t)) {
         tree id;
 
-- 
2.43.0


From 9693abd1712a199aa7b11af710ca82f503213302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:42 +0000
Subject: [PATCH 113/119] fix: the members of anonymous structures are members

A structure or union without a name in another one was ignored, so that the size
and the offsets were wrong and its members unknown; types and enumerators that
were declared in this way were unknown, too.
---
 src/evaluate.c | 61 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index ec4dd68..7eb8ef4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -956,6 +956,28 @@ static void resolve_array_type(tree *decl, tree *decl_type)
 
 static tree instantiate_struct(tree struct_decl, int depth, void *base);
 
+/* Is `decl', a declaration in a compound, that of a compound without a name
+ * whose members are members of the enclosing one? */
+static bool is_anonymous_member(tree decl)
+{
+    return !tDECL_DECLS(decl) && is_T_DECL_COMPOUND(tDECL_TYPE(decl)) &&
+        !tCOMP_DECL_ID(tDECL_TYPE(decl));
+}
+
+/* Make the members of `live_compound' known in `members'. */
+static void map_anonymous_members(tree live_compound, tree members)
+{
+    tree i;
+
+    for_each_tree(i, tLV_COMP_MEMBERS(live_compound)) {
+        if (__resolve_id(tEMAP_LEFT(i), members))
+            eval_die(tEMAP_LEFT(i), "Duplicate member %s.\n",
+                     tID_STR(tEMAP_LEFT(i)));
+
+        __map_identifer(tEMAP_LEFT(i), tEMAP_RIGHT(i), members);
+    }
+}
+
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
@@ -964,6 +986,14 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 
     void *base = tLV_COMP_BASE(live_struct);
 
+    if (!decl_element) {
+        if (is_anonymous_member(decl))
+            map_anonymous_members(instantiate_struct(decl_type, depth,
+                                                     base + tDECL_OFFSET(decl)),
+                                  tLV_COMP_MEMBERS(live_struct));
+        return;
+    }
+
     if (is_T_FN(decl_element)) {
         tree fn = alloc_copy_tree(decl_element);
         tFN_RET_TYPE(fn) = decl_type;
@@ -2772,7 +2802,15 @@ static tree expand_decl_chain(tree decl_chain)
     tree tmp, decl, declarator, new_chain = tree_make(CHAIN_HEAD);
 
     for_each_tree_safe(decl, tmp, decl_chain) {
-        if (is_T_DECL(decl) && tDECL_DECLS(decl))
+        if (!is_T_DECL(decl))
+            continue;
+
+        /* This declares a type, or an anonymous member. */
+        if (!tDECL_DECLS(decl)) {
+            tree new_decl = tree_make(T_DECL);
+            tDECL_SPECS(new_decl) = tDECL_SPECS(decl);
+            tree_chain(new_decl, new_chain);
+        } else
             for_each_tree(declarator, tDECL_DECLS(decl)) {
                 tree new_decl = tree_make(T_DECL);
 
@@ -2924,6 +2962,11 @@ static tree eval_decl_compound(tree t, int depth)
 
         prev = decl;
 
+        /* Declarations without a declarator aren't members, unless they're
+         * anonymous ones. */
+        if (!tDECL_DECLS(decl) && !is_anonymous_member(decl))
+            continue;
+
         push_ctx("Compound Declaration");
 
         /* The same applies to the size of an array. */
@@ -2935,14 +2978,20 @@ static tree eval_decl_compound(tree t, int depth)
             tARRAY_SZ(array) = convert_to_comparable_type(tARRAY_SZ(array),
                                                           depth);
 
-        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
+        if (tDECL_DECLS(decl)) {
+            id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
-        live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
+            live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
-        if (__resolve_id(id, members))
-            eval_die(id, "Duplicate member %s.\n", tID_STR(id));
+            if (__resolve_id(id, members))
+                eval_die(id, "Duplicate member %s.\n", tID_STR(id));
 
-        __map_identifer(id, live_var, members);
+            __map_identifer(id, live_var, members);
+        } else {
+            live_var = alloc_struct(tDECL_TYPE(decl), depth);
+
+            map_anonymous_members(live_var, members);
+        }
 
         /* Calculate the offset of the member within the struct.
          *
-- 
2.43.0


From ceb6acccaa17584b4b1a8a5d64d741476a28650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:48 +0000
Subject: [PATCH 114/119] fix: let the script use getopt

The state of getopt() was that in which the parsing of bic's own options had
left it, so that a script that parses its options with it missed them.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 710552a..69e5df5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -151,6 +151,10 @@ int main(int argc, char *argv[])
 
     int opt_idx = parse_args(argc, argv);
 
+    /* The script can use getopt() for its own options. */
+    optind = 1;
+    optarg = NULL;
+
     if (cscript_file) {
         /* Decrement the option index to include the script name as a
          * parameter. */
-- 
2.43.0


From f88a7d83c5086f2de128d308fd38ec9361fc0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:56 +0000
Subject: [PATCH 115/119] fix: end the scope of a typedef name with the block
 that declares it

---
 src/lex.m4     |  6 +++---
 src/repl.c     |  4 ++++
 src/typename.c | 25 +++++++++++++++++++++++++
 src/typename.h |  2 ++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index d27175d..264da40 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,7 +195,7 @@ X                               [0-9A-Fa-f]
 <compound_start_cond>{L}({L}|{D})* {BEGIN 0;
                         LEXLVAL.tree = get_identifier(LEXTEXT);
                         return IDENTIFIER; }
-<compound_start_cond>"{"  {BEGIN 0; return '{';}
+<compound_start_cond>"{"  {BEGIN 0; typename_scope_begin(); return '{';}
 "switch"			return SWITCH;
 "typedef"			return TYPEDEF;
 "union"			{ BEGIN compound_start_cond; return UNION;}
@@ -267,8 +267,8 @@ ALL_TARGETS
 "*"                             return '*';
 "/"                             return '/';
 "%"                             return '%';
-"{"                             return '{';
-"}"                             return '}';
+"{"                             typename_scope_begin(); return '{';
+"}"                             typename_scope_end(); return '}';
 "&"                             return '&';
 "|"                             return '|';
 "\?"                             return '?';
diff --git a/src/repl.c b/src/repl.c
index 490ff25..9b95d1d 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -454,8 +454,12 @@ static tree repl_parse_line(char *line)
 
     line_after_cpp = run_cpp_on_line(line);
 
+    typenames = typename_save();
     stmt = repl_do_parse(line_after_cpp);
 
+    if (!stmt)
+        typename_restore(typenames);
+
     free(line_after_cpp);
 
     return stmt;
diff --git a/src/typename.c b/src/typename.c
index 5cb8cd7..5f5f112 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -38,6 +38,31 @@ void typename_unset_include_file(void)
     in_include_file = 0;
 }
 
+/* What is declared within braces isn't a typename after them.  The beginning of
+ * a scope is marked with something that isn't a name. */
+void typename_scope_begin(void)
+{
+    __add_typename(get_identifier("{"));
+}
+
+void typename_scope_end(void)
+{
+    tree names = in_include_file ? include_type_names : type_names;
+    tree i, n, begin = NULL;
+    bool in_scope = false;
+
+    for_each_tree(i, names)
+        if (strcmp(tID_STR(i), "{") == 0)
+            begin = i;
+
+    for_each_tree_safe(i, n, names) {
+        in_scope = in_scope || i == begin;
+
+        if (in_scope)
+            tree_unchain(i);
+    }
+}
+
 void reset_include_typenames(void)
 {
     include_type_names = tree_make(CHAIN_HEAD);
diff --git a/src/typename.h b/src/typename.h
index 3be8c49..4bb8f39 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -4,6 +4,8 @@ void typename_set_include_file(void);
 void typename_unset_include_file(void);
 void reset_include_typenames(void);
 void add_typename(tree typename);
+void typename_scope_begin(void);
+void typename_scope_end(void);
 void typename_init(void);
 tree typename_save(void);
 void typename_restore(tree saved);
-- 
2.43.0


From 85a9dbec16737bf5e285b26af571823dd6662b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:22 +0000
Subject: [PATCH 116/119] fix: let declarations in a block refer to functions
 that objects hide

---
 src/evaluate.c | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7eb8ef4..8e7fb1a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -200,17 +200,18 @@ static tree get_enclosing_scope(tree ctx)
  * stack (it came from an #include), this is the top-level context. */
 static tree get_defining_ctx(tree function)
 {
-    tree ctx, toplevel = cur_ctx;
+    tree ctx, defining = NULL, toplevel = cur_ctx;
 
+    /* A block can have declared it, too: the outermost one is its own. */
     for (ctx = cur_ctx; ctx; ctx = tECTX_PARENT_CTX(ctx)) {
         if (resolve_id(tFN_DECL(function), ctx, NORMAL_TYPE) == function)
-            return ctx;
+            defining = ctx;
 
         if (tECTX_PARENT_CTX(ctx))
             toplevel = ctx;
     }
 
-    return toplevel;
+    return defining ? defining : toplevel;
 }
 
 static tree __resolve_identifier(tree id,
@@ -332,6 +333,33 @@ static void map_compound(tree comp_decl, tree t)
     __map_identifer(id, t, idmap);
 }
 
+/* A function that has been declared in this or an enclosing scope, NULL if there
+ * is none.  If there is an object of that name in between, the name means the
+ * function again. */
+static tree declare_function_again(tree id)
+{
+    tree ctx, fn = NULL;
+
+    for (ctx = cur_ctx; ctx && !fn; ctx = get_enclosing_scope(ctx)) {
+        tree object = resolve_id(id, ctx, NORMAL_TYPE);
+
+        if (is_T_FN(object) || is_T_EXT_FUNC(object))
+            fn = object;
+    }
+
+    if (!fn && include_ctx) {
+        tree object = resolve_id(id, include_ctx, NORMAL_TYPE);
+
+        if (is_T_FN(object) || is_T_EXT_FUNC(object))
+            fn = object;
+    }
+
+    if (fn && resolve_identifier(id, SCOPE_GLOBAL) != fn)
+        map_identifier(id, fn);
+
+    return fn;
+}
+
 static tree eval_identifier(tree t, int depth)
 {
     /* Search through the identifier mappings of the current context
@@ -1128,12 +1156,10 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
         /* A declaration within a block refers to the function of that name. */
         if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_GLOBAL);
+            previous_decl = declare_function_again(id);
 
-            if (is_T_FN(previous_decl) || is_T_EXT_FUNC(previous_decl))
+            if (previous_decl)
                 return previous_decl;
-
-            previous_decl = NULL;
         }
 
         /* This is the definition of a function that has been declared.  Replace
@@ -1260,12 +1286,9 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
 
     /* It could also have been declared, or even defined, without `extern', and
      * in an enclosing scope. */
-    previous_decl = resolve_identifier(id, SCOPE_GLOBAL);
-
-    if (is_T_EXT_FUNC(previous_decl) || is_T_FN(previous_decl))
+    if (declare_function_again(id))
         return id;
 
-
     ext_func = tree_make(T_EXT_FUNC);
     tEXT_FUNC_FN(ext_func) = fndecl;
 
-- 
2.43.0


From 85f98b677611b13c66f155d0feff6d2d07ba5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:16 +0000
Subject: [PATCH 117/119] fix: let extern declarations in a block refer to the
 program's own objects

---
 src/evaluate.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8e7fb1a..607492e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1314,6 +1314,30 @@ static void *resolve_symbol(tree id)
     return sym_addr;
 }
 
+/* In a block, an object that the program itself has at file scope is what an
+ * extern declaration refers to. */
+static bool declare_object_again(tree id)
+{
+    tree toplevel = cur_ctx, object;
+
+    while (tECTX_PARENT_CTX(toplevel) &&
+           tECTX_PARENT_CTX(tECTX_PARENT_CTX(toplevel)))
+        toplevel = tECTX_PARENT_CTX(toplevel);
+
+    if (toplevel == cur_ctx || !is_T_IDENTIFIER(id))
+        return false;
+
+    object = resolve_id(id, toplevel, NORMAL_TYPE);
+
+    if (!is_T_LIVE_VAR(object) && !is_T_LIVE_COMPOUND(object))
+        return false;
+
+    if (resolve_identifier(id, SCOPE_CURRENT_CTX) != object)
+        map_identifier(id, object);
+
+    return true;
+}
+
 static tree handle_extern_decl(tree extern_type, tree decl)
 {
     tree live_var, id, previous_decl;
@@ -1321,13 +1345,15 @@ static tree handle_extern_decl(tree extern_type, tree decl)
 
     resolve_ptr_type(&decl, &extern_type);
 
-    id = decl;
+    id = is_T_ARRAY(decl) ? tARRAY_DECL(decl) : decl;
 
     if (is_T_FN(decl))
         return handle_extern_fn(extern_type, decl);
 
+    if (declare_object_again(id))
+        return id;
+
     if (is_T_ARRAY(decl)) {
-        tree id = tARRAY_DECL(decl);
         size_t array_sz = get_array_size(decl, extern_type, 0);
 
         previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
-- 
2.43.0


From b734cf2425e4b7aa5dd5864c9a11c510c298cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:57 +0000
Subject: [PATCH 118/119] fix: allow the definition of functions that return
 pointers to functions

---
 src/parser.m4 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index acf7a30..952eb18 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -105,8 +105,10 @@ CSCRIPT_ONLY
      * pointers of its return type. */
     static tree fn_declarator(tree declarator)
     {
-        while (is_T_POINTER(declarator))
-            declarator = tPTR_EXP(declarator);
+        while (is_T_POINTER(declarator) ||
+               (is_T_FN(declarator) && is_T_POINTER(tFN_DECL(declarator))))
+            declarator = is_T_FN(declarator) ? tFN_DECL(declarator)
+                                             : tPTR_EXP(declarator);
 
         return declarator;
     }
-- 
2.43.0


From e4200028621dc1be34f0366f8457f9bd288f2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:13 +0000
Subject: [PATCH 119/119] fix: let extern declarations declare function
 pointers and functions that return them

---
 src/evaluate.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 607492e..88bb41f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1345,6 +1345,19 @@ static tree handle_extern_decl(tree extern_type, tree decl)
 
     resolve_ptr_type(&decl, &extern_type);
 
+    /* This declares a pointer to a function, or something that yields one. */
+    while (is_T_FN(decl) && is_T_POINTER(tFN_DECL(decl))) {
+        tree fn = alloc_copy_tree(decl);
+
+        tFN_RET_TYPE(fn) = extern_type;
+        tFN_DECL(fn) = NULL;
+
+        decl = tFN_DECL(decl);
+        extern_type = fn;
+
+        resolve_ptr_type(&decl, &extern_type);
+    }
+
     id = is_T_ARRAY(decl) ? tARRAY_DECL(decl) : decl;
 
     if (is_T_FN(decl))
-- 
2.43.0

