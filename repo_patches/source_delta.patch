From f278bbe66080c380ac400320cd4f55b38e52fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:27 +0000
Subject: [PATCH 01/56] fix: initialise every code generator field, so checked
 arithmetic does not depend on stack garbage

---
 grayc/src/codegen/codegen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 8f433e2..60084bc 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9345,6 +9345,9 @@ CodeGen codegen_create(const char *file) {
     codegen.has_c_imports = false;
     codegen.wildcard_binding = NULL;
     codegen.pending_call_typed_sig = NULL;
+    codegen.current_var_name = NULL;
+    codegen.current_var_type = NULL;
+    codegen.in_const_decl = false;
     codegen.scope_arenas = NULL;
     codegen.scope_arena_count = 0;
     codegen.scope_arena_cap = 0;
-- 
2.43.0


From 904bae814b3e208cc31b768a2d46089d27bd646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:34 +0000
Subject: [PATCH 02/56] fix: initialisers of mutable globals are C constants
 too

---
 grayc/src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 60084bc..a274d02 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -7417,7 +7417,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
          * runtime function calls; C rejects them as file-scope initializers.
          * The typechecker has already verified no overflow for such exprs. */
         bool prev_in_const_decl = codegen->in_const_decl;
-        if (codegen->indent == 0 && !node->data.var_decl.mutable)
+        if (codegen->indent == 0)
             codegen->in_const_decl = true;
         /* Bigint literal zero: emit zero constant instead of plain 0 */
         if (type_name && is_bigint_type(type_name) &&
-- 
2.43.0


From 2971c90305aa2637cd2801e097991e6d2164b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:32 +0000
Subject: [PATCH 03/56] fix: compound assignment and ++/-- are checked for
 every place (elements, map values, fields through pointers)

---
 grayc/src/codegen/codegen.c | 326 ++++++++++++++++++++----------------
 1 file changed, 186 insertions(+), 140 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index a274d02..0c4ff80 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -438,6 +438,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
  * Uses gray_type_to_c_codegen for struct/array/map types, hardcoded for primitives.
  * Routes the input through codegen_effective_type_string so '?' inside a generic
  * instantiation resolves to the active wildcard binding. */
+static bool is_bigint_type(const char *type_str);
 static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn) return "int64_t";
     gray_tn = codegen_effective_type_string(codegen, gray_tn);
@@ -452,6 +453,7 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     case TK_BOOL:    return "bool";
     case TK_CHAR:    return "int32_t";
     case TK_BYTE:    return "uint8_t";
+    case TK_UINT:    return is_bigint_type(gray_tn) ? "int64_t" : "uint64_t";
     case TK_ARRAY:   return "GrayArray";
     case TK_MAP:     return "GrayMap";
     case TK_STRUCT:  return gray_type_to_c_codegen(codegen, gray_tn);
@@ -915,6 +917,121 @@ static void emit_bigint_operand(CodeGen *codegen, AstNode *operand,
     emit_expression(codegen, operand);
 }
 
+/* C type an element occupies inside a GrayArray. Integer elements narrower
+ * than 64 bits are stored widened, so reads and writes must use this type and
+ * not the element's own C type. */
+static const char *array_element_c_type(CodeGen *codegen, const char *element_type) {
+    const char *elem_tn = codegen_effective_type_string(codegen, element_type);
+    if (!elem_tn) return "int64_t";
+    if (strcmp(elem_tn, "func") == 0 || strncmp(elem_tn, "func(", 5) == 0) return "void *";
+    if (is_bigint_type(elem_tn)) return bigint_prefix(elem_tn);
+    GrayType *type = type_from_name(elem_tn);
+    switch (type->kind) {
+    case TK_FLOAT:   return "double";
+    case TK_BOOL:    return "bool";
+    case TK_STRING:  return "GrayString";
+    case TK_CHAR:    return "int32_t";
+    case TK_BYTE:    return "uint8_t";
+    case TK_UINT:    return "uint64_t";
+    case TK_ARRAY:   return "GrayArray";
+    case TK_MAP:     return "GrayMap";
+    case TK_STRUCT:  return gray_type_to_c_codegen(codegen, elem_tn);
+    case TK_ENUM:
+        return codegen_enum_is_string(codegen, elem_tn)
+            ? "GrayString" : gray_type_to_c_codegen(codegen, elem_tn);
+    case TK_POINTER: return gray_type_to_c_codegen(codegen, elem_tn);
+    default:         return "int64_t";
+    }
+}
+
+/* Emit the checked result of `cur op= value` for one value of the named type;
+ * `cur` is C text for the current value. Mirrors the direct form (a = a op b). */
+static void emit_compound_result(CodeGen *codegen, TokenType op, const char *type_name,
+                                 const char *cur, AstNode *value, int line) {
+    type_name = codegen_effective_type_string(codegen, type_name);
+    bool is_div = (op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN);
+    const char *bin = op == TOK_PLUS_ASSIGN ? "+" : op == TOK_MINUS_ASSIGN ? "-"
+        : op == TOK_ASTERISK_ASSIGN ? "*" : op == TOK_SLASH_ASSIGN ? "/" : "%";
+    const char *fn = op == TOK_PLUS_ASSIGN ? "add" : op == TOK_MINUS_ASSIGN ? "sub"
+        : op == TOK_ASTERISK_ASSIGN ? "mul" : op == TOK_SLASH_ASSIGN ? "div" : "mod";
+    if (type_name && is_bigint_type(type_name)) {
+        const char *pfx = bigint_prefix(type_name);
+        emit_formatted(codegen, "%s_%s%s(%s, ", pfx, fn, is_div ? "" : "_checked", cur);
+        emit_bigint_operand(codegen, value, pfx, type_name, NULL);
+        if (is_div) emit(codegen, ")");
+        else emit_formatted(codegen, ", \"%s\", %d)", codegen->file, line);
+        return;
+    }
+    GrayType *type = type_name ? type_from_name(type_name) : NULL;
+    bool is_unsigned = type && (type->kind == TK_UINT || type->kind == TK_BYTE);
+    bool is_int = type && (type->kind == TK_INT || is_unsigned);
+    if (is_div && type && (is_int || type->kind == TK_FLOAT)) {
+        const char *smin = NULL, *smax = NULL; bool su = false;
+        emit_formatted(codegen, "({ __auto_type _cn = %s; ", cur);
+        emit_formatted(codegen, "%s _cv = ", is_int ? (is_unsigned ? "uint64_t" : "int64_t") : "double");
+        emit_expression(codegen, value);
+        emit_formatted(codegen, "; if (!_cv) { gray_panic_code_at(\"%s\", %d, \"P0078\", \"division by zero\"); } ", codegen->file, line);
+        if (is_int && !is_unsigned) {
+            if (!sized_int_bounds(type_name, &smin, &smax, &su)) smin = "(-9223372036854775807LL - 1)";
+            emit_formatted(codegen, "if ((int64_t)_cn == %s && _cv == -1) { gray_panic_code_at(\"%s\", %d, \"P0079\", \"%s result is too large; value exceeds the range of this type\"); } ",
+                smin, codegen->file, line, op == TOK_SLASH_ASSIGN ? "division" : "modulo");
+        }
+        emit_formatted(codegen, "_cn %s _cv; })", bin);
+        return;
+    }
+    if (is_int && !is_div) {
+        const char *smin = NULL, *smax = NULL; bool su = false;
+        if (sized_int_bounds(type_name, &smin, &smax, &su)) {
+            emit_formatted(codegen, "%s(%s, ", sized_check_func(op, su), cur);
+            emit_expression(codegen, value);
+            if (su) emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, type_name, codegen->file, line);
+            else emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d)", smin, smax, type_name, codegen->file, line);
+        } else {
+            emit_formatted(codegen, "gray_%s%s_check(%s, ", is_unsigned ? "u" : "", fn, cur);
+            emit_expression(codegen, value);
+            emit_formatted(codegen, ", \"%s\", %d)", codegen->file, line);
+        }
+        return;
+    }
+    emit_formatted(codegen, "%s %s (", cur, bin);
+    emit_expression(codegen, value);
+    emit(codegen, ")");
+}
+
+static bool is_compound_assign(TokenType op) {
+    return op == TOK_PLUS_ASSIGN || op == TOK_MINUS_ASSIGN || op == TOK_ASTERISK_ASSIGN ||
+           op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN;
+}
+
+/* Emit the rest of `arr[i] op= value` once _ca points at the array: array and
+ * index are evaluated once, and the element is located again for the store in
+ * case evaluating the value grew the array. Closes the block. */
+static void emit_element_compound(CodeGen *codegen, AstNode *node, const char *element_type, const char *c_elem) {
+    char cur[MSG_BUF_SIZE];
+    snprintf(cur, sizeof(cur), "GRAY_ARRAY_GET(*_ca, %s, _ci)", c_elem);
+    emit(codegen, "int64_t _ci = (int64_t)(");
+    emit_expression(codegen, node->data.assign.target->data.index_expr.index);
+    emit_formatted(codegen, "); GRAY_ARRAY_SET(*_ca, %s, _ci, ", c_elem);
+    emit_compound_result(codegen, node->data.assign.op, element_type, cur, node->data.assign.value, node->token.line);
+    emit(codegen, "); }\n");
+}
+
+/* Emit `lvalue op= value` for an assignable C place written as text. */
+static void emit_place_assign(CodeGen *codegen, AstNode *node, const char *type_name, const char *place) {
+    TokenType op = node->data.assign.op;
+    if (is_compound_assign(op)) {
+        emit_formatted(codegen, "__auto_type _tgt = &(%s); *_tgt = ", place);
+        emit_compound_result(codegen, op, type_name, "*_tgt", node->data.assign.value, node->token.line);
+        return;
+    }
+    emit_formatted(codegen, "%s %s ", place, operator_to_c_string(op));
+    if (type_name && is_bigint_type(type_name)) {
+        emit_bigint_operand(codegen, node->data.assign.value, bigint_prefix(type_name), type_name, NULL);
+    } else {
+        emit_expression(codegen, node->data.assign.value);
+    }
+}
+
 static bool is_mutable_parameter(CodeGen *codegen, const char *name) {
     if (!codegen->current_func) return false;
     for (int i = 0; i < codegen->current_func->data.func_decl.param_count; i++) {
@@ -1712,7 +1829,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
          * promises arithmetic panics rather than silent wrap on overflow. */
         if (node->data.prefix.op == TOK_MINUS) {
             GrayType *ot = codegen->type_table ? typetable_get(codegen->type_table, node->data.prefix.right) : NULL;
-            if (ot && ot->kind == TK_INT) {
+            if (ot && ot->kind == TK_INT && !codegen->in_const_decl) {
                 const char *sized_name = ot->name;
                 const char *smin = NULL, *smax = NULL;
                 if (sized_name) {
@@ -2007,7 +2124,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 /* For signed integer division, also guard the TYPE_MIN / -1
                  * case; that quotient overflows (it's |TYPE_MIN| which has
                  * no positive representation), and in C it's UB. */
-                bool is_signed = (left_type && left_type->kind == TK_INT) || (right_type && right_type->kind == TK_INT);
+                bool is_signed = !(left_type && left_type->kind == TK_UINT) && !(right_type && right_type->kind == TK_UINT) &&
+                    ((left_type && left_type->kind == TK_INT) || (right_type && right_type->kind == TK_INT));
                 const char *signed_min = NULL;
                 if (is_signed) {
                     const char *sized_name = (left_type && left_type->name) ? left_type->name : ((right_type && right_type->name) ? right_type->name : NULL);
@@ -2458,36 +2576,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             ? typetable_get(codegen->type_table, node->data.index_expr.left)
             : NULL;
         if (left_t && left_t->kind == TK_ARRAY) {
-            /* Determine element C type */
-            const char *c_elem = "int64_t";
-            const char *elem_tn = codegen_effective_type_string(codegen, left_t->element_type);
-            if (elem_tn && (strcmp(elem_tn, "func") == 0 || strncmp(elem_tn, "func(", 5) == 0)) {
-                c_elem = "void *";
-            } else if (elem_tn) {
-                GrayType *et = type_from_name(elem_tn);
-                if (et->kind == TK_FLOAT) c_elem = "double";
-                else if (et->kind == TK_BOOL) c_elem = "bool";
-                else if (et->kind == TK_STRING) c_elem = "GrayString";
-                else if (et->kind == TK_CHAR) c_elem = "int32_t";
-                else if (et->kind == TK_BYTE) c_elem = "uint8_t";
-                else if (et->kind == TK_ARRAY) c_elem = "GrayArray";
-                else if (et->kind == TK_MAP) c_elem = "GrayMap";
-                else if (et->kind == TK_STRUCT) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
-                else if (et->kind == TK_ENUM) {
-                    c_elem = codegen_enum_is_string(codegen, elem_tn)
-                        ? "GrayString" : gray_type_to_c_codegen(codegen, elem_tn);
-                }
-                else if (et->kind == TK_POINTER) {
-                    static char idx_ptr_buf[MSG_BUF_SIZE];
-                    const char *pointee = et->element_type ? et->element_type : "void";
-                    snprintf(idx_ptr_buf, sizeof(idx_ptr_buf), "%s *", gray_type_to_c_codegen(codegen, pointee));
-                    c_elem = idx_ptr_buf;
-                }
-            }
-            /* Check for bigint element types */
-            if (left_t->element_type && is_bigint_type(left_t->element_type)) {
-                c_elem = bigint_prefix(left_t->element_type);
-            }
+            const char *c_elem = array_element_c_type(codegen, left_t->element_type);
             /* If left is an rvalue, GRAY_ARRAY_GET's &(arr) would be invalid.
              * Handles three rvalue sources:
              *  1. function call result (NODE_CALL_EXPR)
@@ -7565,6 +7654,11 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
+static const char *assign_target_type_name(CodeGen *codegen, AstNode *node) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+    return type ? type->name : NULL;
+}
+
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
@@ -7573,14 +7667,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         AstNode *left = node->data.assign.target->data.index_expr.left;
         GrayType *left_t = codegen->type_table ? typetable_get(codegen->type_table, left) : NULL;
         if (left_t && left_t->kind == TK_ARRAY) {
-            const char *c_elem = "int64_t";
-            if (left_t->element_type) {
-                if (strcmp(left_t->element_type, "func") == 0 || strncmp(left_t->element_type, "func(", 5) == 0) {
-                    c_elem = "void *";
-                } else {
-                    c_elem = gray_type_to_c_codegen(codegen, left_t->element_type);
-                }
-            }
+            const char *c_elem = array_element_c_type(codegen, left_t->element_type);
             /* Check for array field through struct pointer (rvalue assignability issue).
              * b.items[i] = val where b: ^Bag — the normal member emit produces a
              * GCC statement expression (rvalue); GRAY_ARRAY_SET's &(arr) would fail.
@@ -7603,82 +7690,40 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (_set_ptr_obj) {
                     static int arr_set_dp_ctr = 0;
                     int my_dp = arr_set_dp_ctr++;
-                    TokenType aop2 = node->data.assign.op;
-                    bool is_compound2 = (aop2 == TOK_PLUS_ASSIGN || aop2 == TOK_MINUS_ASSIGN || aop2 == TOK_ASTERISK_ASSIGN);
                     emit_formatted(codegen, "{ __auto_type _asdp%d = ", my_dp);
                     emit_expression(codegen, _set_ptr_obj);
-                    emit_formatted(codegen, "; if (!_asdp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                              "GRAY_ARRAY_SET(_asdp%d->%s, %s, ",
-                          my_dp, codegen->file, node->token.line, my_dp, sanitize_name(_set_ptr_field), c_elem);
+                    emit_formatted(codegen, "; if (!_asdp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ",
+                          my_dp, codegen->file, node->token.line);
+                    char arr_text[MSG_BUF_SIZE];
+                    snprintf(arr_text, sizeof(arr_text), "_asdp%d->%s", my_dp, sanitize_name(_set_ptr_field));
+                    if (is_compound_assign(node->data.assign.op)) {
+                        emit_formatted(codegen, "GrayArray *_ca = &(%s); ", arr_text);
+                        emit_element_compound(codegen, node, left_t->element_type, c_elem);
+                        return;
+                    }
+                    emit_formatted(codegen, "GRAY_ARRAY_SET(%s, %s, ", arr_text, c_elem);
                     emit_expression(codegen, node->data.assign.target->data.index_expr.index);
                     emit(codegen, ", ");
-                    if (is_compound2) {
-                        const char *binop = "+";
-                        if (aop2 == TOK_MINUS_ASSIGN) binop = "-";
-                        else if (aop2 == TOK_ASTERISK_ASSIGN) binop = "*";
-                        emit_formatted(codegen, "GRAY_ARRAY_GET(_asdp%d->%s, %s, ", my_dp, sanitize_name(_set_ptr_field), c_elem);
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit_formatted(codegen, ") %s (", binop);
-                        emit_expression(codegen, node->data.assign.value);
-                        emit(codegen, ")");
-                    } else {
-                        emit_expression(codegen, node->data.assign.value);
-                    }
+                    emit_expression(codegen, node->data.assign.value);
                     emit(codegen, "); }\n");
                     return;
                 }
             }
-            /* Compound assignment on array element with sized-type overflow check */
-            TokenType aop = node->data.assign.op;
-            bool is_compound = (aop == TOK_PLUS_ASSIGN || aop == TOK_MINUS_ASSIGN || aop == TOK_ASTERISK_ASSIGN);
-            if (is_compound && left_t->element_type) {
-                const char *sn = left_t->element_type;
-                const char *smin = NULL, *smax = NULL;
-                bool su = false;
-                sized_int_bounds(sn, &smin, &smax, &su);
-                if (smax) {
-                    const char *function_name = sized_check_func(aop, su);
-                    if (function_name) {
-                        /* GRAY_ARRAY_SET/GET use int64_t (internal storage width) */
-                        emit_formatted(codegen, "GRAY_ARRAY_SET(");
-                        emit_expression(codegen, left);
-                        emit(codegen, ", int64_t, ");
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit_formatted(codegen, ", %s(GRAY_ARRAY_GET(", function_name);
-                        emit_expression(codegen, left);
-                        emit(codegen, ", int64_t, ");
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit(codegen, "), ");
-                        emit_expression(codegen, node->data.assign.value);
-                        if (su) {
-                            emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d));\n", smax, sn, codegen->file, node->token.line);
-                        } else {
-                            emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d));\n", smin, smax, sn, codegen->file, node->token.line);
-                        }
-                        return;
-                    }
-                }
+            /* Compound assignment on an array element: the element is located
+             * once, so index expressions take effect once. */
+            if (is_compound_assign(node->data.assign.op)) {
+                emit(codegen, "{ GrayArray *_ca = &(");
+                emit_expression(codegen, left);
+                emit(codegen, "); ");
+                emit_element_compound(codegen, node, left_t->element_type, c_elem);
+                return;
             }
             emit_formatted(codegen, "GRAY_ARRAY_SET(");
             emit_expression(codegen, left);
             emit_formatted(codegen, ", %s, ", c_elem);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, ", ");
-            /* Non-sized compound assignment on array element: read-modify-write */
-            if (is_compound) {
-                const char *binop = "+";
-                if (aop == TOK_MINUS_ASSIGN) binop = "-";
-                else if (aop == TOK_ASTERISK_ASSIGN) binop = "*";
-                emit_formatted(codegen, "GRAY_ARRAY_GET(");
-                emit_expression(codegen, left);
-                emit_formatted(codegen, ", %s, ", c_elem);
-                emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                emit_formatted(codegen, ") %s (", binop);
-                emit_expression(codegen, node->data.assign.value);
-                emit(codegen, ")");
-            } else {
-                emit_expression(codegen, node->data.assign.value);
-            }
+            emit_expression(codegen, node->data.assign.value);
             emit(codegen, ");\n");
             return;
         }
@@ -7707,18 +7752,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (obj_t && obj_t->kind == TK_POINTER) map_via_ptr = true;
             }
 
-            bool ms_compound = (node->data.assign.op != TOK_ASSIGN);
-            const char *ms_base_op = NULL;
-            if (ms_compound) {
-                switch (node->data.assign.op) {
-                    case TOK_PLUS_ASSIGN:     ms_base_op = "+"; break;
-                    case TOK_MINUS_ASSIGN:    ms_base_op = "-"; break;
-                    case TOK_ASTERISK_ASSIGN: ms_base_op = "*"; break;
-                    case TOK_SLASH_ASSIGN:    ms_base_op = "/"; break;
-                    case TOK_PERCENT_ASSIGN:  ms_base_op = "%"; break;
-                    default: ms_compound = false; break;
-                }
-            }
+            bool ms_compound = is_compound_assign(node->data.assign.op);
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, "; ");
@@ -7752,9 +7786,10 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             }
             emit_formatted(codegen, "%s _mv = ", c_val);
             if (ms_compound) {
-                emit_formatted(codegen, "*(%s*)_cur %s (", c_val, ms_base_op);
-                emit_expression(codegen, node->data.assign.value);
-                emit(codegen, ")");
+                char cur_text[MSG_BUF_SIZE];
+                snprintf(cur_text, sizeof(cur_text), "*(%s *)_cur", c_val);
+                emit_compound_result(codegen, node->data.assign.op, left_t->value_type, cur_text,
+                                     node->data.assign.value, node->token.line);
             } else {
                 emit_expression(codegen, node->data.assign.value);
             }
@@ -7795,19 +7830,10 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         node->data.assign.target->data.postfix.op == TOK_CARET) {
         AstNode *ptr_node = node->data.assign.target->data.postfix.left;
         GrayType *ptr_t = codegen->type_table ? typetable_get(codegen->type_table, ptr_node) : NULL;
-        const char *bi_elem = (ptr_t && ptr_t->kind == TK_POINTER && ptr_t->element_type &&
-                               is_bigint_type(ptr_t->element_type))
-                              ? ptr_t->element_type : NULL;
         emit(codegen, "{ __auto_type _dp = ");
         emit_expression(codegen, ptr_node);
-        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } *_dp", codegen->file, node->token.line);
-        emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-        if (bi_elem) {
-            emit_bigint_operand(codegen, node->data.assign.value,
-                                bigint_prefix(bi_elem), bi_elem, NULL);
-        } else {
-            emit_expression(codegen, node->data.assign.value);
-        }
+        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
+        emit_place_assign(codegen, node, ptr_t && ptr_t->kind == TK_POINTER ? ptr_t->element_type : NULL, "*_dp");
         emit(codegen, "; }\n");
         return;
     }
@@ -7819,9 +7845,10 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         const char *field = node->data.assign.target->data.member.member;
         emit(codegen, "{ __auto_type _dp = ");
         emit_expression(codegen, ptr);
-        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, field);
-        emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-        emit_expression(codegen, node->data.assign.value);
+        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
+        char place[MSG_BUF_SIZE];
+        snprintf(place, sizeof(place), "_dp->%s", sanitize_name(field));
+        emit_place_assign(codegen, node, assign_target_type_name(codegen, node), place);
         emit(codegen, "; }\n");
         return;
     }
@@ -7846,14 +7873,14 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         if (ptr_root && depth > 1) {
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, ptr_root);
-            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->", codegen->file, node->token.line);
+            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
             /* Emit chain in reverse: chain[depth-1] is closest to root */
-            for (int i = depth - 1; i >= 0; i--) {
-                emit(codegen, sanitize_name(chain[i]));
-                if (i > 0) emit(codegen, ".");
+            char place[MAX_MEMBER_CHAIN * MSG_BUF_SIZE];
+            size_t plen = (size_t)snprintf(place, sizeof(place), "_dp->");
+            for (int i = depth - 1; i >= 0 && plen < sizeof(place); i--) {
+                plen += (size_t)snprintf(place + plen, sizeof(place) - plen, "%s%s", sanitize_name(chain[i]), i > 0 ? "." : "");
             }
-            emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-            emit_expression(codegen, node->data.assign.value);
+            emit_place_assign(codegen, node, assign_target_type_name(codegen, node), place);
             emit(codegen, "; }\n");
             return;
         }
@@ -7897,9 +7924,10 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             }
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, obj);
-            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, sanitize_name(field));
-            emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-            emit_expression(codegen, node->data.assign.value);
+            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
+            char place[MSG_BUF_SIZE];
+            snprintf(place, sizeof(place), "_dp->%s", sanitize_name(field));
+            emit_place_assign(codegen, node, assign_target_type_name(codegen, node), place);
             emit(codegen, "; }\n");
             return;
         }
@@ -8794,6 +8822,24 @@ static void emit_function_declaration(CodeGen *codegen, AstNode *node, bool is_m
 }
 
 static void emit_expression_statement(CodeGen *codegen, AstNode *node) {
+    /* x++ and x-- as statements are x += 1 and x -= 1: the compound path knows
+     * every assignable place and evaluates it once. */
+    AstNode *expr = node->data.expr_stmt.expr;
+    if (expr && expr->kind == NODE_POSTFIX_EXPR &&
+        (expr->data.postfix.op == TOK_INCREMENT || expr->data.postfix.op == TOK_DECREMENT)) {
+        AstNode one = {0}, assign = {0};
+        one.kind = NODE_INT_VALUE;
+        one.token = expr->token;
+        one.data.int_value.value = 1;
+        one.data.int_value.literal = "1";
+        assign.kind = NODE_ASSIGN_STMT;
+        assign.token = node->token;
+        assign.data.assign.target = expr->data.postfix.left;
+        assign.data.assign.op = expr->data.postfix.op == TOK_INCREMENT ? TOK_PLUS_ASSIGN : TOK_MINUS_ASSIGN;
+        assign.data.assign.value = &one;
+        emit_assign_statement(codegen, &assign);
+        return;
+    }
     emit_indent(codegen);
     emit_expression(codegen, node->data.expr_stmt.expr);
     emit(codegen, ";\n");
-- 
2.43.0


From 6dbab3aed1914d8f8365d13ed082028de251eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:50 +0000
Subject: [PATCH 04/56] fix: sized integer checks detect 64-bit overflow of a
 wider operand

---
 grayc/src/runtime/runtime.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index a180ac8..3bd1911 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -226,24 +226,24 @@ static inline uint64_t gray_umul_check(uint64_t a, uint64_t b, const char *file,
 /* Sized signed integer overflow checks (i8, i16, i32) */
 static inline int64_t gray_sized_add_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a + b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_add_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0011", "%s addition result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_sub_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a - b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_sub_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0012", "%s subtraction result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_mul_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a * b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_mul_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0013", "%s multiplication result is too large; value exceeds the range of this type", type_name);
     return result;
 }
@@ -262,7 +262,9 @@ static inline int64_t gray_sized_neg_check(int64_t a, int64_t min_val, int64_t m
  * silently wrap to a large uint64 and trigger the wrong P0015 path. */
 static inline uint64_t gray_usized_add_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a + b;
+    int64_t result;
+    if (__builtin_add_overflow(a, b, &result))
+        gray_panic_code_at(file, line, "P0015", "%s addition result is too large; value exceeds the range of this unsigned type", type_name);
     if (result < 0)
         gray_panic_code_at(file, line, "P0016", "%s addition result is negative, but this unsigned type cannot hold negative values", type_name);
     if ((uint64_t)result > max_val)
@@ -272,7 +274,9 @@ static inline uint64_t gray_usized_add_check(int64_t a, int64_t b, uint64_t max_
 
 static inline uint64_t gray_usized_sub_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a - b;
+    int64_t result;
+    if (__builtin_sub_overflow(a, b, &result))
+        gray_panic_code_at(file, line, "P0015", "%s subtraction result is too large; value exceeds the range of this unsigned type", type_name);
     if (result < 0)
         gray_panic_code_at(file, line, "P0016", "%s subtraction result is negative, but this unsigned type cannot hold negative values", type_name);
     if ((uint64_t)result > max_val)
@@ -282,7 +286,9 @@ static inline uint64_t gray_usized_sub_check(int64_t a, int64_t b, uint64_t max_
 
 static inline uint64_t gray_usized_mul_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a * b;
+    int64_t result;
+    if (__builtin_mul_overflow(a, b, &result))
+        gray_panic_code_at(file, line, "P0017", "%s multiplication result is too large; value exceeds the range of this unsigned type", type_name);
     if (result < 0)
         gray_panic_code_at(file, line, "P0016", "%s multiplication result is negative, but this unsigned type cannot hold negative values", type_name);
     if ((uint64_t)result > max_val)
-- 
2.43.0


From 44f838113c0042832f045f9fefc75cc0d71c4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:46 +0000
Subject: [PATCH 05/56] fix: dividing an unsigned value by a negative one
 panics instead of wrapping

---
 grayc/src/codegen/codegen.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 0c4ff80..37aef7e 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2143,6 +2143,18 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "; if ((int64_t)_dn == %s && _dv == -1) { gray_panic_code_at(\"%s\", %d, \"P0079\", \"%s result is too large; value exceeds the range of this type\"); } _dn %s _dv; })",
                         signed_min, codegen->file, node->token.line, opname, operator_to_c_string(op));
                 } else {
+                    /* One side signed: the result has the unsigned side's type,
+                     * which cannot hold what a negative operand would give. */
+                    bool left_signed = left_type && left_type->kind == TK_INT && node->data.infix.left->kind != NODE_INT_VALUE;
+                    bool right_signed = right_type && right_type->kind == TK_INT && node->data.infix.right->kind != NODE_INT_VALUE;
+                    if (left_signed || right_signed) {
+                        emit(codegen, "__auto_type _dn = ");
+                        emit_expression(codegen, node->data.infix.left);
+                        emit_formatted(codegen, "; if (%s < 0) { gray_panic_code_at(\"%s\", %d, \"P0016\", \"%s with a negative operand, but this unsigned type cannot hold negative values\"); } _dn %s _dv; })",
+                            left_signed ? "_dn" : "_dv", codegen->file, node->token.line,
+                            (op == TOK_SLASH) ? "division" : "modulo", operator_to_c_string(op));
+                        break;
+                    }
                     emit_expression(codegen, node->data.infix.left);
                     emit_formatted(codegen, " %s _dv; })", operator_to_c_string(op));
                 }
-- 
2.43.0


From 20bc86d6883f2b21db731be0c4acd73397097886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:40 +0000
Subject: [PATCH 06/56] fix: temporaries passed by address live until the call
 ends

---
 grayc/src/codegen/codegen.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 37aef7e..2758189 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4235,11 +4235,23 @@ static bool expression_is_assignable(AstNode *expr) {
 
 /* Emit &expr, materialising rvalues into a statement-expression temporary.
  * `tmp` is the temp variable name (must be unique within the enclosing expr). */
+/* Address of a temporary holding an array or map rvalue. A compound literal
+ * lives until the enclosing block ends; a variable inside a statement
+ * expression would already be dead when the callee reads it. */
+static bool emit_rvalue_address(CodeGen *codegen, AstNode *expr) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, expr) : NULL;
+    if (!type || (type->kind != TK_ARRAY && type->kind != TK_MAP)) return false;
+    emit_formatted(codegen, "(%s[]){", type->kind == TK_ARRAY ? "GrayArray" : "GrayMap");
+    emit_expression(codegen, expr);
+    emit(codegen, "}");
+    return true;
+}
+
 static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *tmp) {
     if (expression_is_assignable(expr)) {
         emit(codegen, "&");
         emit_expression(codegen, expr);
-    } else {
+    } else if (!emit_rvalue_address(codegen, expr)) {
         emit_formatted(codegen, "({ __auto_type %s = ", tmp);
         emit_expression(codegen, expr);
         emit_formatted(codegen, "; &%s; })", tmp);
@@ -5102,7 +5114,7 @@ static void emit_array_argument_address(CodeGen *codegen, AstNode *arg) {
     if (arg->kind == NODE_LABEL || arg->kind == NODE_MEMBER_EXPR || arg->kind == NODE_INDEX_EXPR) {
         emit(codegen, "&");
         emit_expression(codegen, arg);
-    } else {
+    } else if (!emit_rvalue_address(codegen, arg)) {
         emit(codegen, "({ __auto_type _aa = ");
         emit_expression(codegen, arg);
         emit(codegen, "; &_aa; })");
@@ -5483,7 +5495,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             if (rarg->kind == NODE_LABEL || rarg->kind == NODE_MEMBER_EXPR || rarg->kind == NODE_INDEX_EXPR) {
                 emit(codegen, "&");
                 emit_expression(codegen, rarg);
-            } else {
+            } else if (!emit_rvalue_address(codegen, rarg)) {
                 emit(codegen, "({ __auto_type _aa = ");
                 emit_expression(codegen, rarg);
                 emit(codegen, "; &_aa; })");
-- 
2.43.0


From 76b3664327dfe253fdbef13cbf1657fb644ccea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:14 +0000
Subject: [PATCH 07/56] fix: string and array indices are compared at full
 width; bytes iterate unsigned; repeat cannot overflow

---
 grayc/src/codegen/codegen.c |  6 +++---
 grayc/src/runtime/array.c   |  8 ++++----
 grayc/src/runtime/array.h   |  4 ++--
 grayc/src/stdlib/strings.c  | 13 ++++++-------
 grayc/src/stdlib/strings.h  |  2 +-
 5 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 2758189..6b85d2c 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2674,9 +2674,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* String indexing with bounds check: s.data[i] */
             emit_formatted(codegen, "({ GrayString _es = ");
             emit_expression(codegen, node->data.index_expr.left);
-            emit_formatted(codegen, "; int32_t _ei = (int32_t)(");
+            emit_formatted(codegen, "; int64_t _ei = (int64_t)(");
             emit_expression(codegen, node->data.index_expr.index);
-            emit_formatted(codegen, "); if (_ei < 0 || _ei >= _es.len) { gray_panic_code_at(\"%s\", %d, \"P0082\", \"string index %%d out of bounds (length %%d)\", _ei, _es.len); } ", codegen->file, node->token.line);
+            emit_formatted(codegen, "); if (_ei < 0 || _ei >= _es.len) { gray_panic_code_at(\"%s\", %d, \"P0082\", \"string index %%lld out of bounds (length %%d)\", (long long)_ei, _es.len); } ", codegen->file, node->token.line);
             emit(codegen, "(int32_t)(unsigned char)_es.data[_ei]; })");
         } else {
             /* Fallback */
@@ -8988,7 +8988,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "for (int32_t %s = 0; %s < _gray_str.len; %s++) {\n", idx_name, idx_name, idx_name);
             codegen->indent++;
             emit_indent(codegen);
-            emit_formatted(codegen, "int32_t %s = _gray_str.data[%s];\n", sanitize_name(node->data.for_each.var_name), idx_name);
+            emit_formatted(codegen, "int32_t %s = (int32_t)(unsigned char)_gray_str.data[%s];\n", sanitize_name(node->data.for_each.var_name), idx_name);
         } else {
             /* for_each item in array → iterate GrayArray */
             const char *c_elem = "int64_t";
diff --git a/grayc/src/runtime/array.c b/grayc/src/runtime/array.c
index 0df9c17..e891299 100644
--- a/grayc/src/runtime/array.c
+++ b/grayc/src/runtime/array.c
@@ -34,18 +34,18 @@ GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size,
     return arr;
 }
 
-void *gray_array_get_ptr(GrayArray *arr, int32_t index, const char *file, int line) {
+void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line) {
     if (index < 0 || index >= arr->len) {
-        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", index, arr->len);
+        gray_panic_code("P0033", "index out of bounds; tried to access index %lld but the length is %d", (long long)index, arr->len);
     }
     return (char *)arr->data + (size_t)index * (size_t)arr->elem_size;
 }
 
-void gray_array_set(GrayArray *arr, int32_t index, const void *value, const char *file, int line) {
+void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index >= arr->len) {
-        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", index, arr->len);
+        gray_panic_code("P0033", "index out of bounds; tried to access index %lld but the length is %d", (long long)index, arr->len);
     }
     memcpy((char *)arr->data + (size_t)index * (size_t)arr->elem_size,
            value, (size_t)arr->elem_size);
diff --git a/grayc/src/runtime/array.h b/grayc/src/runtime/array.h
index 218e92b..7fa8813 100644
--- a/grayc/src/runtime/array.h
+++ b/grayc/src/runtime/array.h
@@ -31,10 +31,10 @@ GrayArray gray_array_new(GrayArena *arena, int32_t elem_size, int32_t initial_ca
 GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size, int32_t count);
 
 /* Get a pointer to element at index (with bounds checking) */
-void *gray_array_get_ptr(GrayArray *arr, int32_t index, const char *file, int line);
+void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line);
 
 /* Set element at index (with bounds checking) */
-void gray_array_set(GrayArray *arr, int32_t index, const void *value, const char *file, int line);
+void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line);
 
 /* Append an element (may reallocate on the arena) */
 void gray_array_push(GrayArena *arena, GrayArray *arr, const void *value);
diff --git a/grayc/src/stdlib/strings.c b/grayc/src/stdlib/strings.c
index ee21bfb..baea4d4 100644
--- a/grayc/src/stdlib/strings.c
+++ b/grayc/src/stdlib/strings.c
@@ -142,11 +142,10 @@ GrayString gray_strings_replace(GrayArena *arena, GrayString s, GrayString old_s
 GrayString gray_strings_repeat(GrayArena *arena, GrayString s, int64_t count) {
     if (count < 0) gray_panic_code("P0072", "strings.repeat() count cannot be negative (%lld)", (long long)count);
     if (count == 0 || s.len == 0) return gray_string_lit("");
-    int64_t new_len64 = (int64_t)s.len * count;
-    if (new_len64 > INT32_MAX) {
+    if (count > INT32_MAX / s.len) {
         gray_panic_code("P0073", "strings.repeat() result exceeds maximum string length");
     }
-    int32_t new_len = (int32_t)new_len64;
+    int32_t new_len = (int32_t)(s.len * count);
     char *buf = gray_arena_alloc(arena, (size_t)new_len + 1);
     for (int64_t i = 0; i < count; i++) {
         memcpy(buf + i * s.len, s.data, (size_t)s.len);
@@ -234,12 +233,12 @@ GrayString gray_strings_from_chars(GrayArena *arena, GrayArray *chars) {
     return gray_string_new(arena, buf, n);
 }
 
-char gray_strings_char_at(GrayString s, int64_t index) {
+int32_t gray_strings_char_at(GrayString s, int64_t index) {
     if (index < 0 || index >= s.len) {
-        gray_panic_code("P0082", "string index %d out of bounds (length %d)",
-                      (int)index, (int)s.len);
+        gray_panic_code("P0082", "string index %lld out of bounds (length %d)",
+                      (long long)index, (int)s.len);
     }
-    return s.data[index];
+    return (int32_t)(unsigned char)s.data[index];
 }
 
 bool gray_strings_is_alpha(char c)      { return isalpha((unsigned char)c) != 0; }
diff --git a/grayc/src/stdlib/strings.h b/grayc/src/stdlib/strings.h
index 94cfe03..e55bcf5 100644
--- a/grayc/src/stdlib/strings.h
+++ b/grayc/src/stdlib/strings.h
@@ -273,7 +273,7 @@ GrayString gray_strings_join(GrayArena *arena, GrayArray arr, GrayString sep);
  *   println(strings.char_at("hello", 4))
  *@end
  */
-char gray_strings_char_at(GrayString s, int64_t index);
+int32_t gray_strings_char_at(GrayString s, int64_t index);
 
 /*@man to_chars
  *@module strings
-- 
2.43.0


From cc70f02eec03ea0068219f172914eed44de7c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:21 +0000
Subject: [PATCH 08/56] fix: @arrays functions honour the element type,
 full-width indices and sum overflow

---
 grayc/src/codegen/codegen.c         | 231 +++++++----------------
 grayc/src/stdlib/arrays.c           | 280 ++++++++++++++++------------
 grayc/src/stdlib/arrays.h           |  54 +++++-
 grayc/src/typechecker/typechecker.c |  23 ++-
 4 files changed, 291 insertions(+), 297 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 6b85d2c..5970521 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -944,6 +944,20 @@ static const char *array_element_c_type(CodeGen *codegen, const char *element_ty
     }
 }
 
+/* Suffix of the @arrays runtime functions that match the storage of an array's
+ * elements (see array_element_c_type). */
+static const char *array_element_suffix(CodeGen *codegen, GrayType *array_type) {
+    const char *elem = (array_type && array_type->kind == TK_ARRAY) ? array_type->element_type : NULL;
+    if (!elem) return "int";
+    const char *c_type = array_element_c_type(codegen, elem);
+    if (strcmp(c_type, "GrayString") == 0) return "str";
+    if (strcmp(c_type, "double") == 0) return "float";
+    if (strcmp(c_type, "uint64_t") == 0) return "uint";
+    if (strcmp(c_type, "int32_t") == 0 || strncmp(c_type, "GrayEnum_", 9) == 0) return "char";
+    if (strcmp(c_type, "uint8_t") == 0 || strcmp(c_type, "bool") == 0) return "byte";
+    return "int";
+}
+
 /* Emit the checked result of `cur op= value` for one value of the named type;
  * `cur` is C text for the current value. Mirrors the direct form (a = a op b). */
 static void emit_compound_result(CodeGen *codegen, TokenType op, const char *type_name,
@@ -2038,20 +2052,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             }
             if (negated) emit(codegen, "!");
             {
-                const char *contains_fn = "gray_arrays_contains_int";
-                if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type) {
-                    if (strcmp(arr_t->element_type, "string") == 0)
-                        contains_fn = "gray_arrays_contains_str";
-                    else if (strcmp(arr_t->element_type, "char") == 0)
-                        contains_fn = "gray_arrays_contains_char";
-                    else if (strcmp(arr_t->element_type, "byte") == 0)
-                        contains_fn = "gray_arrays_contains_byte";
-                    else if (strcmp(arr_t->element_type, "float") == 0 ||
-                             strcmp(arr_t->element_type, "f32") == 0 ||
-                             strcmp(arr_t->element_type, "f64") == 0)
-                        contains_fn = "gray_arrays_contains_float";
-                }
-                emit_formatted(codegen, "%s(&", contains_fn);
+                emit_formatted(codegen, "gray_arrays_contains_%s(&",
+                    array_element_suffix(codegen, arr_t));
                 emit_expression(codegen, node->data.infix.right);
                 emit(codegen, ", ");
                 emit_expression(codegen, node->data.infix.left);
@@ -5128,38 +5130,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : NULL;
         bool elem_is_string = (val_t && val_t->kind == TK_STRING) ||
             (elem_tn && strcmp(elem_tn, "string") == 0);
-        const char *c_elem = "__auto_type";
-        if (val_t) {
-            switch (val_t->kind) {
-            case TK_INT: c_elem = "int64_t"; break;
-            case TK_UINT: c_elem = "uint64_t"; break;
-            case TK_FLOAT: c_elem = "double"; break;
-            case TK_BOOL: c_elem = "bool"; break;
-            case TK_STRING: c_elem = "GrayString"; break;
-            case TK_ARRAY: c_elem = "GrayArray"; break;
-            case TK_MAP: c_elem = "GrayMap"; break;
-            case TK_FUNCTION: c_elem = "void *"; break;
-            default: break;
-            }
-            if (val_t->kind == TK_STRUCT) {
-                c_elem = gray_type_to_c_codegen(codegen, val_t->name);
-            }
-            if (val_t->kind == TK_POINTER && val_t->name) {
-                /* val_t->name is the pointee (e.g. "int"); prepend ^ for gray_type_to_c_codegen */
-                static char _ptr_tn[TYPE_NAME_MAX];
-                snprintf(_ptr_tn, sizeof(_ptr_tn), "^%s", val_t->name);
-                c_elem = gray_type_to_c_codegen(codegen, _ptr_tn);
-            }
-        } else if (elem_is_string) {
-            c_elem = "GrayString";
-        } else if (elem_tn) {
-            GrayType *et = type_from_name(elem_tn);
-            if (et->kind == TK_ARRAY) c_elem = "GrayArray";
-            else if (et->kind == TK_MAP) c_elem = "GrayMap";
-            else if (et->kind == TK_STRUCT) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
-            else if (et->kind == TK_FUNCTION) c_elem = "void *";
-            else if (et->kind == TK_POINTER) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
-        }
+        const char *c_elem = elem_tn ? array_element_c_type(codegen, elem_tn) : "__auto_type";
         const char *alloc_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
         emit_formatted(codegen, "{ %s _av = ", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
@@ -5186,32 +5157,13 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "insert_at") == 0 && node->data.call.arg_count == 3) {
         GrayType *val_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[2]) : NULL;
-        const char *c_elem = "__auto_type";
-        if (val_t) {
-            switch (val_t->kind) {
-            case TK_INT: c_elem = "int64_t"; break;
-            case TK_UINT: c_elem = "uint64_t"; break;
-            case TK_FLOAT: c_elem = "double"; break;
-            case TK_BOOL: c_elem = "bool"; break;
-            case TK_STRING: c_elem = "GrayString"; break;
-            case TK_FUNCTION: c_elem = "void *"; break;
-            default: break;
-            }
-            if (val_t->kind == TK_STRUCT) {
-                c_elem = gray_type_to_c_codegen(codegen, val_t->name);
-            }
-            if (val_t->kind == TK_POINTER && val_t->name) {
-                static char _ia_ptr_tn[TYPE_NAME_MAX];
-                snprintf(_ia_ptr_tn, sizeof(_ia_ptr_tn), "^%s", val_t->name);
-                c_elem = gray_type_to_c_codegen(codegen, _ia_ptr_tn);
-            }
-        }
+        GrayType *ia_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
+        const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
+        const char *c_elem = ia_elem_tn ? array_element_c_type(codegen, ia_elem_tn) : "__auto_type";
         const char *ia_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
         emit_formatted(codegen, "{ %s _iv = ", c_elem);
         emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, "; ");
-        GrayType *ia_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
         bool ia_str = (val_t && val_t->kind == TK_STRING) ||
             (ia_elem_tn && strcmp(ia_elem_tn, "string") == 0);
         if (codegen->loop_scope_depth > 0) {
@@ -5238,20 +5190,23 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "remove") == 0 && node->data.call.arg_count == 2) {
+    bool searches = strcmp(func, "remove") == 0 || strcmp(func, "contains") == 0 ||
+        strcmp(func, "index_of") == 0 || strcmp(func, "count") == 0;
+    bool folds = strcmp(func, "sort_asc") == 0 || strcmp(func, "sort_desc") == 0 ||
+        strcmp(func, "get_sum") == 0 || strcmp(func, "get_min") == 0 ||
+        strcmp(func, "get_max") == 0;
+    if ((searches && node->data.call.arg_count == 2) || (folds && node->data.call.arg_count == 1)) {
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_remove_str(");
-        } else if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-                   strcmp(arr_t->element_type, "float") == 0) {
-            emit(codegen, "gray_arrays_remove_float(");
-        } else {
-            emit(codegen, "gray_arrays_remove_int(");
-        }
+        const char *suffix = array_element_suffix(codegen, arr_t);
+        if (strncmp(func, "sort_", 5) == 0 && strcmp(suffix, "int") == 0)
+            emit_formatted(codegen, "gray_arrays_%s(", func);
+        else
+            emit_formatted(codegen, "gray_arrays_%s_%s(", func, suffix);
         emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
+        if (searches) {
+            emit(codegen, ", ");
+            emit_expression(codegen, node->data.call.args[1]);
+        }
         emit(codegen, ")");
         return true;
     }
@@ -5261,77 +5216,20 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "sort_asc") == 0 && node->data.call.arg_count == 1) {
-        GrayType *sa_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *sa_elem = (sa_t && sa_t->kind == TK_ARRAY) ? sa_t->element_type : NULL;
-        if (sa_elem && strcmp(sa_elem, "float") == 0)
-            emit(codegen, "gray_arrays_sort_asc_float(");
-        else if (sa_elem && strcmp(sa_elem, "string") == 0)
-            emit(codegen, "gray_arrays_sort_asc_str(");
-        else
-            emit(codegen, "gray_arrays_sort_asc(");
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ")");
-        return true;
-    }
-    if (strcmp(func, "sort_desc") == 0 && node->data.call.arg_count == 1) {
-        GrayType *sd_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *sd_elem = (sd_t && sd_t->kind == TK_ARRAY) ? sd_t->element_type : NULL;
-        if (sd_elem && strcmp(sd_elem, "float") == 0)
-            emit(codegen, "gray_arrays_sort_desc_float(");
-        else if (sd_elem && strcmp(sd_elem, "string") == 0)
-            emit(codegen, "gray_arrays_sort_desc_str(");
-        else
-            emit(codegen, "gray_arrays_sort_desc(");
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ")");
-        return true;
-    }
     if (strcmp(func, "is_empty") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_arrays_is_empty(");
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "contains") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_contains_str(");
-        } else {
-            emit(codegen, "gray_arrays_contains_int(");
-        }
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
-        return true;
-    }
     if (strcmp(func, "is_equal") == 0 && node->data.call.arg_count == 2) {
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_is_equal_str(");
-        } else {
-            emit(codegen, "gray_arrays_is_equal_prim(");
-        }
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
-        return true;
-    }
-    if (strcmp(func, "index_of") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_index_of_str(");
-        } else {
-            emit(codegen, "gray_arrays_index_of_int(");
-        }
+        const char *eq_suffix = array_element_suffix(codegen, arr_t);
+        if (strcmp(eq_suffix, "str") != 0 && strcmp(eq_suffix, "float") != 0) eq_suffix = "prim";
+        emit_formatted(codegen, "gray_arrays_is_equal_%s(", eq_suffix);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_array_argument_address(codegen, node->data.call.args[1]);
         emit(codegen, ")");
         return true;
     }
@@ -5341,16 +5239,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *pp_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *pp_elem_tn = (pp_arr_t && pp_arr_t->kind == TK_ARRAY) ? pp_arr_t->element_type : NULL;
         bool pp_str = pp_elem_tn && strcmp(pp_elem_tn, "string") == 0;
-        const char *pp_c_elem = "int64_t";
-        if (pp_elem_tn) {
-            GrayType *pet = type_from_name(pp_elem_tn);
-            if (pet->kind == TK_FLOAT) pp_c_elem = "double";
-            else if (pet->kind == TK_BOOL) pp_c_elem = "bool";
-            else if (pet->kind == TK_STRING) pp_c_elem = "GrayString";
-            else if (pet->kind == TK_ARRAY) pp_c_elem = "GrayArray";
-            else if (pet->kind == TK_MAP) pp_c_elem = "GrayMap";
-            else if (pet->kind == TK_STRUCT) pp_c_elem = gray_type_to_c_codegen(codegen, pp_elem_tn);
-        }
+        const char *pp_c_elem = pp_elem_tn ? array_element_c_type(codegen, pp_elem_tn) : "int64_t";
         emit_formatted(codegen, "{ %s _pv = ", pp_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; ");
@@ -5370,13 +5259,8 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "fill") == 0 && node->data.call.arg_count == 3) {
         GrayType *fl_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *fl_c_elem = "int64_t";
-        if (fl_arr_t && fl_arr_t->kind == TK_ARRAY && fl_arr_t->element_type) {
-            GrayType *fet = type_from_name(fl_arr_t->element_type);
-            if (fet->kind == TK_FLOAT) fl_c_elem = "double";
-            else if (fet->kind == TK_BOOL) fl_c_elem = "bool";
-            else if (fet->kind == TK_STRING) fl_c_elem = "GrayString";
-        }
+        const char *fl_c_elem = (fl_arr_t && fl_arr_t->kind == TK_ARRAY && fl_arr_t->element_type)
+            ? array_element_c_type(codegen, fl_arr_t->element_type) : "int64_t";
         emit_formatted(codegen, "{ %s _fv = ", fl_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; gray_arrays_fill(gray_default_arena, ");
@@ -5391,7 +5275,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         node->data.call.arg_count == 1) {
         GrayType *af_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *af_elem = (af_t && af_t->kind == TK_ARRAY) ? af_t->element_type : NULL;
-        const char *af_ctype = af_elem ? gray_type_to_c_codegen(codegen, af_elem) : "int64_t";
+        const char *af_ctype = af_elem ? array_element_c_type(codegen, af_elem) : "int64_t";
         bool af_is_get = (strcmp(func, "get_first") == 0 || strcmp(func, "get_last") == 0);
         const char *af_ptr_fn = (strcmp(func, "get_first") == 0 || strcmp(func, "remove_first") == 0)
                                 ? "gray_arrays_first_ptr" : "gray_arrays_last_ptr";
@@ -5414,13 +5298,14 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_slot = array_element_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _m_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; %s (*_m_fn)(%s) = (void *)", c_elem, c_elem);
         emit_expression(codegen, node->data.call.args[1]);
-        emit_formatted(codegen, "; GrayArray _m_res = gray_array_new(gray_default_arena, sizeof(%s), _m_src.len);", c_elem);
+        emit_formatted(codegen, "; GrayArray _m_res = gray_array_new(gray_default_arena, sizeof(%s), _m_src.len);", c_slot);
         emit_formatted(codegen, "for (int32_t _m_i = 0; _m_i < _m_src.len; _m_i++) { ");
-        emit_formatted(codegen, "%s _m_v = _m_fn(((%s *)_m_src.data)[_m_i]); ", c_elem, c_elem);
+        emit_formatted(codegen, "%s _m_v = _m_fn(((%s *)_m_src.data)[_m_i]); ", c_slot, c_slot);
         emit_formatted(codegen, "gray_arrays_append(gray_default_arena, &_m_res, &_m_v); } _m_res; })");
         return true;
     }
@@ -5428,13 +5313,14 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_slot = array_element_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _f_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; bool (*_f_fn)(%s) = (void *)", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
-        emit_formatted(codegen, "; GrayArray _f_res = gray_array_new(gray_default_arena, sizeof(%s), _f_src.len);", c_elem);
+        emit_formatted(codegen, "; GrayArray _f_res = gray_array_new(gray_default_arena, sizeof(%s), _f_src.len);", c_slot);
         emit_formatted(codegen, "for (int32_t _f_i = 0; _f_i < _f_src.len; _f_i++) { ");
-        emit_formatted(codegen, "%s _f_v = ((%s *)_f_src.data)[_f_i]; ", c_elem, c_elem);
+        emit_formatted(codegen, "%s _f_v = ((%s *)_f_src.data)[_f_i]; ", c_slot, c_slot);
         emit_formatted(codegen, "if (_f_fn(_f_v)) { gray_arrays_append(gray_default_arena, &_f_res, &_f_v); } } _f_res; })");
         return true;
     }
@@ -5442,32 +5328,35 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_slot = array_element_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _a_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; bool (*_a_fn)(%s) = (void *)", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit_formatted(codegen, "; bool _a_res = false; ");
         emit_formatted(codegen, "for (int32_t _a_i = 0; _a_i < _a_src.len; _a_i++) { ");
-        emit_formatted(codegen, "if (_a_fn(((%s *)_a_src.data)[_a_i])) { _a_res = true; break; } } _a_res; })", c_elem);
+        emit_formatted(codegen, "if (_a_fn(((%s *)_a_src.data)[_a_i])) { _a_res = true; break; } } _a_res; })", c_slot);
         return true;
     }
     if (strcmp(func, "all") == 0 && node->data.call.arg_count == 2) {
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_slot = array_element_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _l_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; bool (*_l_fn)(%s) = (void *)", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit_formatted(codegen, "; bool _l_res = true; ");
         emit_formatted(codegen, "for (int32_t _l_i = 0; _l_i < _l_src.len; _l_i++) { ");
-        emit_formatted(codegen, "if (!_l_fn(((%s *)_l_src.data)[_l_i])) { _l_res = false; break; } } _l_res; })", c_elem);
+        emit_formatted(codegen, "if (!_l_fn(((%s *)_l_src.data)[_l_i])) { _l_res = false; break; } } _l_res; })", c_slot);
         return true;
     }
     if (strcmp(func, "reduce") == 0 && node->data.call.arg_count == 3) {
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_slot = array_element_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _r_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; %s _r_acc = ", c_elem);
@@ -5475,7 +5364,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit_formatted(codegen, "; %s (*_r_fn)(%s, %s) = (void *)", c_elem, c_elem, c_elem);
         emit_expression(codegen, node->data.call.args[2]);
         emit_formatted(codegen, "; for (int32_t _r_i = 0; _r_i < _r_src.len; _r_i++) { ");
-        emit_formatted(codegen, "_r_acc = _r_fn(_r_acc, ((%s *)_r_src.data)[_r_i]); } _r_acc; })", c_elem);
+        emit_formatted(codegen, "_r_acc = _r_fn(_r_acc, ((%s *)_r_src.data)[_r_i]); } _r_acc; })", c_slot);
         return true;
     }
 
@@ -5485,7 +5374,15 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         strcmp(func, "flatten") == 0 || strcmp(func, "split_every") == 0 ||
         strcmp(func, "pair") == 0);
     bool ref_args = (strcmp(func, "concat") == 0 || strcmp(func, "pair") == 0);
-    emit_formatted(codegen, "gray_arrays_%s(", func);
+    emit_formatted(codegen, "gray_arrays_%s", func);
+    if (strcmp(func, "deduplicate") == 0) {
+        /* Strings and floats compare by value, everything else bytewise */
+        GrayType *dd_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
+        const char *dd_suffix = array_element_suffix(codegen, dd_t);
+        if (strcmp(dd_suffix, "str") == 0 || strcmp(dd_suffix, "float") == 0)
+            emit_formatted(codegen, "_%s", dd_suffix);
+    }
+    emit(codegen, "(");
     if (needs_arena) emit(codegen, "gray_default_arena, ");
     emit_array_argument_address(codegen, node->data.call.args[0]);
     for (int i = 1; i < node->data.call.arg_count; i++) {
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index facb134..66b3ddf 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -19,13 +19,13 @@ void gray_arrays_append(GrayArena *arena, GrayArray *arr, const void *value) {
     gray_array_push(arena, arr, value);
 }
 
-void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int32_t index, const void *value) {
+void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int64_t index, const void *value) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index > arr->len) {
         gray_panic_code("P0043",
-            "arrays.insert_at: index %d is out of bounds for an array of length %d",
-            index, arr->len);
+            "arrays.insert_at: index %lld is out of bounds for an array of length %d",
+            (long long)index, arr->len);
     }
 
     /* Grow if needed — same policy as gray_array_push */
@@ -57,46 +57,55 @@ void gray_arrays_prepend(GrayArena *arena, GrayArray *arr, const void *value) {
     gray_arrays_insert_at(arena, arr, 0, value);
 }
 
-void gray_arrays_remove_at(GrayArray *arr, int32_t index) {
+void gray_arrays_remove_at(GrayArray *arr, int64_t index) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index >= arr->len)
         gray_panic_code("P0044",
-            "arrays.remove_at: index %d is out of bounds for an array of length %d",
-            index, arr->len);
+            "arrays.remove_at: index %lld is out of bounds for an array of length %d",
+            (long long)index, arr->len);
     char *data = (char *)arr->data;
     size_t element_size = (size_t)arr->elem_size;
     memmove(data + index * element_size, data + (index + 1) * element_size, (arr->len - 1 - index) * element_size);
     arr->len--;
 }
 
-void gray_arrays_remove_int(GrayArray *arr, int64_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) {
-            gray_arrays_remove_at(arr, i);
-            return;
-        }
+/* remove / contains / index_of / count, one set per element storage type.
+ * bool shares the byte set, non-string enums share the char (int32) set. */
+#define DEFINE_SEARCH(SUFFIX, CTYPE, EQUAL) \
+    int64_t gray_arrays_index_of_##SUFFIX(GrayArray *arr, CTYPE value) { \
+        for (int32_t i = 0; i < arr->len; i++) { \
+            CTYPE item = ((CTYPE *)arr->data)[i]; \
+            if (EQUAL(item, value)) return i; \
+        } \
+        return -1; \
+    } \
+    bool gray_arrays_contains_##SUFFIX(GrayArray *arr, CTYPE value) { \
+        return gray_arrays_index_of_##SUFFIX(arr, value) >= 0; \
+    } \
+    int64_t gray_arrays_count_##SUFFIX(GrayArray *arr, CTYPE value) { \
+        int64_t c = 0; \
+        for (int32_t i = 0; i < arr->len; i++) { \
+            CTYPE item = ((CTYPE *)arr->data)[i]; \
+            if (EQUAL(item, value)) c++; \
+        } \
+        return c; \
+    } \
+    void gray_arrays_remove_##SUFFIX(GrayArray *arr, CTYPE value) { \
+        int64_t i = gray_arrays_index_of_##SUFFIX(arr, value); \
+        if (i >= 0) gray_arrays_remove_at(arr, i); \
     }
-}
 
-void gray_arrays_remove_float(GrayArray *arr, double value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(double *)((char *)arr->data + i * arr->elem_size) == value) {
-            gray_arrays_remove_at(arr, i);
-            return;
-        }
-    }
-}
+#define SCALAR_EQUAL(a, b) ((a) == (b))
+#define STR_EQUAL(a, b) \
+    ((a).len == (b).len && ((a).len == 0 || memcmp((a).data, (b).data, (size_t)(a).len) == 0))
 
-void gray_arrays_remove_str(GrayArray *arr, GrayString value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        GrayString *s = (GrayString *)((char *)arr->data + i * arr->elem_size);
-        if (s->len == value.len && memcmp(s->data, value.data, s->len) == 0) {
-            gray_arrays_remove_at(arr, i);
-            return;
-        }
-    }
-}
+DEFINE_SEARCH(int, int64_t, SCALAR_EQUAL)
+DEFINE_SEARCH(uint, uint64_t, SCALAR_EQUAL)
+DEFINE_SEARCH(float, double, SCALAR_EQUAL)
+DEFINE_SEARCH(char, int32_t, SCALAR_EQUAL)
+DEFINE_SEARCH(byte, uint8_t, SCALAR_EQUAL)
+DEFINE_SEARCH(str, GrayString, STR_EQUAL)
 
 void gray_arrays_clear(GrayArray *arr) {
     if (arr->iterating > 0)
@@ -104,9 +113,9 @@ void gray_arrays_clear(GrayArray *arr) {
     arr->len = 0;
 }
 
-void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int32_t count) {
+void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int64_t count) {
     gray_arrays_clear(arr);
-    for (int32_t i = 0; i < count; i++) {
+    for (int64_t i = 0; i < count; i++) {
         gray_array_push(arena, arr, value);
     }
 }
@@ -175,65 +184,6 @@ bool gray_arrays_is_empty(GrayArray *arr) {
     return arr->len == 0;
 }
 
-bool gray_arrays_contains_int(GrayArray *arr, int64_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_char(GrayArray *arr, int32_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int32_t *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_byte(GrayArray *arr, uint8_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(uint8_t *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_float(GrayArray *arr, double value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(double *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_str(GrayArray *arr, GrayString value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        GrayString *s = (GrayString *)((char *)arr->data + i * arr->elem_size);
-        if (s->len == value.len && memcmp(s->data, value.data, s->len) == 0) return true;
-    }
-    return false;
-}
-
-int64_t gray_arrays_index_of_int(GrayArray *arr, int64_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) return i;
-    }
-    return -1;
-}
-
-int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        GrayString *s = (GrayString *)((char *)arr->data + i * arr->elem_size);
-        if (s->len == value.len && memcmp(s->data, value.data, s->len) == 0) return i;
-    }
-    return -1;
-}
-
-int64_t gray_arrays_count(GrayArray *arr, int64_t value) {
-    int64_t c = 0;
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) c++;
-    }
-    return c;
-}
-
 bool gray_arrays_is_equal_prim(GrayArray *a, GrayArray *b) {
     if (a->len != b->len) return false;
     if (a->elem_size != b->elem_size) return false;
@@ -241,6 +191,14 @@ bool gray_arrays_is_equal_prim(GrayArray *a, GrayArray *b) {
     return memcmp(a->data, b->data, (size_t)a->len * (size_t)a->elem_size) == 0;
 }
 
+bool gray_arrays_is_equal_float(GrayArray *a, GrayArray *b) {
+    if (a->len != b->len) return false;
+    for (int32_t i = 0; i < a->len; i++) {
+        if (((double *)a->data)[i] != ((double *)b->data)[i]) return false;
+    }
+    return true;
+}
+
 bool gray_arrays_is_equal_str(GrayArray *a, GrayArray *b) {
     if (a->len != b->len) return false;
     for (int32_t i = 0; i < a->len; i++) {
@@ -263,11 +221,11 @@ GrayArray gray_arrays_reverse(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
-GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int32_t start, int32_t end) {
+GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int64_t start, int64_t end) {
     if (start < 0) start = 0;
     if (end > arr->len) end = arr->len;
     if (start >= end) return gray_array_new(arena, arr->elem_size, 1);
-    int32_t count = end - start;
+    int32_t count = (int32_t)(end - start);
     return gray_array_from(arena, (char *)arr->data + start * arr->elem_size, arr->elem_size, count);
 }
 
@@ -295,26 +253,52 @@ GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
+GrayArray gray_arrays_deduplicate_float(GrayArena *arena, GrayArray *arr) {
+    GrayArray result = gray_array_new(arena, arr->elem_size, arr->len);
+    for (int32_t i = 0; i < arr->len; i++) {
+        double item = ((double *)arr->data)[i];
+        if (!gray_arrays_contains_float(&result, item)) gray_array_push(arena, &result, &item);
+    }
+    return result;
+}
+
+GrayArray gray_arrays_deduplicate_str(GrayArena *arena, GrayArray *arr) {
+    GrayArray result = gray_array_new(arena, arr->elem_size, arr->len);
+    for (int32_t i = 0; i < arr->len; i++) {
+        GrayString item = ((GrayString *)arr->data)[i];
+        if (!gray_arrays_contains_str(&result, item)) gray_array_push(arena, &result, &item);
+    }
+    return result;
+}
+
 GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr) {
-    /* Flatten one level: [[int]] -> [int]. Each element is an GrayArray. */
-    GrayArray result = gray_array_new(arena, sizeof(int64_t), 8);
+    /* Flatten one level: [[T]] -> [T]. Each element is an GrayArray; empty
+     * ones may not know their element size. */
+    int32_t elem_size = sizeof(int64_t);
+    for (int32_t i = 0; i < arr->len; i++) {
+        GrayArray *inner = &((GrayArray *)arr->data)[i];
+        if (inner->len > 0) { elem_size = inner->elem_size; break; }
+        if (i == 0 && inner->elem_size > 0) elem_size = inner->elem_size;
+    }
+    GrayArray result = gray_array_new(arena, elem_size, 8);
     for (int32_t i = 0; i < arr->len; i++) {
         GrayArray *inner = (GrayArray *)((char *)arr->data + i * arr->elem_size);
         char *idata = (char *)inner->data;
         for (int32_t j = 0; j < inner->len; j++) {
-            gray_array_push(arena, &result, idata + j * inner->elem_size);
+            gray_array_push(arena, &result, idata + (size_t)j * (size_t)inner->elem_size);
         }
     }
     return result;
 }
 
-GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int32_t size) {
+GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int64_t size) {
     if (size <= 0) size = 1;
     GrayArray result = gray_array_new(arena, sizeof(GrayArray), 4);
     char *data = (char *)arr->data;
     size_t element_size = (size_t)arr->elem_size;
-    for (int32_t i = 0; i < arr->len; i += size) {
-        int32_t chunk_len = (i + size <= arr->len) ? size : (arr->len - i);
+    if (size > arr->len) size = arr->len;
+    for (int64_t i = 0; i < arr->len; i += size) {
+        int32_t chunk_len = size <= arr->len - i ? (int32_t)size : (int32_t)(arr->len - i);
         GrayArray chunk = gray_array_from(arena, data + i * element_size, arr->elem_size, chunk_len);
         gray_array_push(arena, &result, &chunk);
     }
@@ -335,34 +319,71 @@ GrayArray gray_arrays_pair(GrayArena *arena, GrayArray *a, GrayArray *b) {
 
 /* === Computation === */
 
-int64_t gray_arrays_get_sum(GrayArray *arr) {
+int64_t gray_arrays_get_sum_int(GrayArray *arr) {
     int64_t total = 0;
     for (int32_t i = 0; i < arr->len; i++) {
-        total += *(int64_t *)((char *)arr->data + i * arr->elem_size);
+        if (__builtin_add_overflow(total, ((int64_t *)arr->data)[i], &total))
+            gray_panic_code("P0004", "arrays.get_sum: the sum exceeds the range of the element type");
     }
     return total;
 }
 
-int64_t gray_arrays_get_min(GrayArray *arr) {
-    if (arr->len == 0) return 0;
-    int64_t m = *(int64_t *)arr->data;
-    for (int32_t i = 1; i < arr->len; i++) {
-        int64_t v = *(int64_t *)((char *)arr->data + i * arr->elem_size);
-        if (v < m) m = v;
+uint64_t gray_arrays_get_sum_uint(GrayArray *arr) {
+    uint64_t total = 0;
+    for (int32_t i = 0; i < arr->len; i++) {
+        if (__builtin_add_overflow(total, ((uint64_t *)arr->data)[i], &total))
+            gray_panic_code("P0004", "arrays.get_sum: the sum exceeds the range of the element type");
     }
-    return m;
+    return total;
 }
 
-int64_t gray_arrays_get_max(GrayArray *arr) {
-    if (arr->len == 0) return 0;
-    int64_t m = *(int64_t *)arr->data;
-    for (int32_t i = 1; i < arr->len; i++) {
-        int64_t v = *(int64_t *)((char *)arr->data + i * arr->elem_size);
-        if (v > m) m = v;
-    }
-    return m;
+double gray_arrays_get_sum_float(GrayArray *arr) {
+    double total = 0;
+    for (int32_t i = 0; i < arr->len; i++) total += ((double *)arr->data)[i];
+    return total;
+}
+
+int64_t gray_arrays_get_sum_byte(GrayArray *arr) {
+    int64_t total = 0;
+    for (int32_t i = 0; i < arr->len; i++) total += ((uint8_t *)arr->data)[i];
+    return total;
+}
+
+int64_t gray_arrays_get_sum_char(GrayArray *arr) {
+    int64_t total = 0;
+    for (int32_t i = 0; i < arr->len; i++) total += ((int32_t *)arr->data)[i];
+    return total;
 }
 
+#define DEFINE_EXTREMES(SUFFIX, CTYPE, LESS) \
+    CTYPE gray_arrays_get_min_##SUFFIX(GrayArray *arr) { \
+        CTYPE m = {0}; \
+        for (int32_t i = 0; i < arr->len; i++) { \
+            CTYPE v = ((CTYPE *)arr->data)[i]; \
+            if (i == 0 || LESS(v, m)) m = v; \
+        } \
+        return m; \
+    } \
+    CTYPE gray_arrays_get_max_##SUFFIX(GrayArray *arr) { \
+        CTYPE m = {0}; \
+        for (int32_t i = 0; i < arr->len; i++) { \
+            CTYPE v = ((CTYPE *)arr->data)[i]; \
+            if (i == 0 || LESS(m, v)) m = v; \
+        } \
+        return m; \
+    }
+
+static int cmp_str_asc(const void *a, const void *b);
+#define SCALAR_LESS(a, b) ((a) < (b))
+#define STR_LESS(a, b) (cmp_str_asc(&(a), &(b)) < 0)
+
+DEFINE_EXTREMES(int, int64_t, SCALAR_LESS)
+DEFINE_EXTREMES(uint, uint64_t, SCALAR_LESS)
+DEFINE_EXTREMES(float, double, SCALAR_LESS)
+DEFINE_EXTREMES(char, int32_t, SCALAR_LESS)
+DEFINE_EXTREMES(byte, uint8_t, SCALAR_LESS)
+DEFINE_EXTREMES(str, GrayString, STR_LESS)
+
 /* === Sort === */
 
 static int cmp_i64_asc(const void *a, const void *b) {
@@ -393,7 +414,7 @@ static int cmp_str_asc(const void *a, const void *b) {
     const GrayString *sa = (const GrayString *)a;
     const GrayString *sb = (const GrayString *)b;
     int32_t min_len = sa->len < sb->len ? sa->len : sb->len;
-    int cmp = memcmp(sa->data, sb->data, (size_t)min_len);
+    int cmp = min_len > 0 ? memcmp(sa->data, sb->data, (size_t)min_len) : 0;
     if (cmp != 0) return cmp;
     return (sa->len > sb->len) - (sa->len < sb->len);
 }
@@ -443,3 +464,28 @@ void gray_arrays_sort_desc_str(GrayArray *arr) {
     if (arr->len <= 1) return;
     qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_str_desc);
 }
+
+#define DEFINE_SORT(SUFFIX, CTYPE) \
+    static int cmp_##SUFFIX##_asc(const void *a, const void *b) { \
+        CTYPE va = *(const CTYPE *)a, vb = *(const CTYPE *)b; \
+        return (va > vb) - (va < vb); \
+    } \
+    static int cmp_##SUFFIX##_desc(const void *a, const void *b) { \
+        return cmp_##SUFFIX##_asc(b, a); \
+    } \
+    void gray_arrays_sort_asc_##SUFFIX(GrayArray *arr) { \
+        if (arr->iterating > 0) \
+            gray_panic_code("P0034", "cannot modify array during for_each iteration"); \
+        if (arr->len <= 1) return; \
+        qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_##SUFFIX##_asc); \
+    } \
+    void gray_arrays_sort_desc_##SUFFIX(GrayArray *arr) { \
+        if (arr->iterating > 0) \
+            gray_panic_code("P0034", "cannot modify array during for_each iteration"); \
+        if (arr->len <= 1) return; \
+        qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_##SUFFIX##_desc); \
+    }
+
+DEFINE_SORT(uint, uint64_t)
+DEFINE_SORT(char, int32_t)
+DEFINE_SORT(byte, uint8_t)
diff --git a/grayc/src/stdlib/arrays.h b/grayc/src/stdlib/arrays.h
index 6947d4d..504cc1d 100644
--- a/grayc/src/stdlib/arrays.h
+++ b/grayc/src/stdlib/arrays.h
@@ -42,7 +42,7 @@ void gray_arrays_append(GrayArena *arena, GrayArray *arr, const void *value);
  *   println(nums)
  *@end
  */
-void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int32_t index, const void *value);
+void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int64_t index, const void *value);
 
 /*@man prepend
  *@module arrays
@@ -70,7 +70,7 @@ void gray_arrays_prepend(GrayArena *arena, GrayArray *arr, const void *value);
  *   println(nums)
  *@end
  */
-void gray_arrays_remove_at(GrayArray *arr, int32_t index);
+void gray_arrays_remove_at(GrayArray *arr, int64_t index);
 
 /*@man remove
  *@module arrays
@@ -85,7 +85,10 @@ void gray_arrays_remove_at(GrayArray *arr, int32_t index);
  *@end
  */
 void gray_arrays_remove_int(GrayArray *arr, int64_t value);
+void gray_arrays_remove_uint(GrayArray *arr, uint64_t value);
 void gray_arrays_remove_float(GrayArray *arr, double value);
+void gray_arrays_remove_char(GrayArray *arr, int32_t value);
+void gray_arrays_remove_byte(GrayArray *arr, uint8_t value);
 void gray_arrays_remove_str(GrayArray *arr, GrayString value);
 
 /*@man clear
@@ -114,7 +117,7 @@ void gray_arrays_clear(GrayArray *arr);
  *   println(nums)
  *@end
  */
-void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int32_t count);
+void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int64_t count);
 
 /* Access — typed via codegen cast */
 
@@ -205,6 +208,7 @@ bool gray_arrays_is_empty(GrayArray *arr);
  *@end
  */
 bool gray_arrays_contains_int(GrayArray *arr, int64_t value);
+bool gray_arrays_contains_uint(GrayArray *arr, uint64_t value);
 bool gray_arrays_contains_char(GrayArray *arr, int32_t value);
 bool gray_arrays_contains_byte(GrayArray *arr, uint8_t value);
 bool gray_arrays_contains_float(GrayArray *arr, double value);
@@ -222,6 +226,10 @@ bool gray_arrays_contains_str(GrayArray *arr, GrayString value);
  *@end
  */
 int64_t gray_arrays_index_of_int(GrayArray *arr, int64_t value);
+int64_t gray_arrays_index_of_uint(GrayArray *arr, uint64_t value);
+int64_t gray_arrays_index_of_float(GrayArray *arr, double value);
+int64_t gray_arrays_index_of_char(GrayArray *arr, int32_t value);
+int64_t gray_arrays_index_of_byte(GrayArray *arr, uint8_t value);
 int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value);
 
 /*@man count
@@ -235,7 +243,12 @@ int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value);
  *   println(arrays.count(nums, 2))
  *@end
  */
-int64_t gray_arrays_count(GrayArray *arr, int64_t value);
+int64_t gray_arrays_count_int(GrayArray *arr, int64_t value);
+int64_t gray_arrays_count_uint(GrayArray *arr, uint64_t value);
+int64_t gray_arrays_count_float(GrayArray *arr, double value);
+int64_t gray_arrays_count_char(GrayArray *arr, int32_t value);
+int64_t gray_arrays_count_byte(GrayArray *arr, uint8_t value);
+int64_t gray_arrays_count_str(GrayArray *arr, GrayString value);
 
 /*@man is_equal
  *@module arrays
@@ -250,6 +263,7 @@ int64_t gray_arrays_count(GrayArray *arr, int64_t value);
  *@end
  */
 bool gray_arrays_is_equal_prim(GrayArray *a, GrayArray *b);
+bool gray_arrays_is_equal_float(GrayArray *a, GrayArray *b);
 bool gray_arrays_is_equal_str(GrayArray *a, GrayArray *b);
 
 /* Transformation */
@@ -278,7 +292,7 @@ GrayArray gray_arrays_reverse(GrayArena *arena, GrayArray *arr);
  *   println(arrays.slice(nums, 1, 3))
  *@end
  */
-GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int32_t start, int32_t end);
+GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int64_t start, int64_t end);
 
 /*@man concat
  *@module arrays
@@ -306,6 +320,8 @@ GrayArray gray_arrays_concat(GrayArena *arena, GrayArray *a, GrayArray *b);
  *@end
  */
 GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr);
+GrayArray gray_arrays_deduplicate_float(GrayArena *arena, GrayArray *arr);
+GrayArray gray_arrays_deduplicate_str(GrayArena *arena, GrayArray *arr);
 
 /*@man flatten
  *@module arrays
@@ -331,7 +347,7 @@ GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr);
  *   println(arrays.split_every(nums, 2))
  *@end
  */
-GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int32_t size);
+GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int64_t size);
 
 /*@man pair
  *@module arrays
@@ -360,7 +376,11 @@ GrayArray gray_arrays_pair(GrayArena *arena, GrayArray *a, GrayArray *b);
  *   println(arrays.get_sum(nums))
  *@end
  */
-int64_t gray_arrays_get_sum(GrayArray *arr);
+int64_t gray_arrays_get_sum_int(GrayArray *arr);
+uint64_t gray_arrays_get_sum_uint(GrayArray *arr);
+double gray_arrays_get_sum_float(GrayArray *arr);
+int64_t gray_arrays_get_sum_char(GrayArray *arr);
+int64_t gray_arrays_get_sum_byte(GrayArray *arr);
 
 /*@man get_min
  *@module arrays
@@ -373,7 +393,12 @@ int64_t gray_arrays_get_sum(GrayArray *arr);
  *   println(arrays.get_min(nums))
  *@end
  */
-int64_t gray_arrays_get_min(GrayArray *arr);
+int64_t gray_arrays_get_min_int(GrayArray *arr);
+uint64_t gray_arrays_get_min_uint(GrayArray *arr);
+double gray_arrays_get_min_float(GrayArray *arr);
+int32_t gray_arrays_get_min_char(GrayArray *arr);
+uint8_t gray_arrays_get_min_byte(GrayArray *arr);
+GrayString gray_arrays_get_min_str(GrayArray *arr);
 
 /*@man get_max
  *@module arrays
@@ -386,7 +411,12 @@ int64_t gray_arrays_get_min(GrayArray *arr);
  *   println(arrays.get_max(nums))
  *@end
  */
-int64_t gray_arrays_get_max(GrayArray *arr);
+int64_t gray_arrays_get_max_int(GrayArray *arr);
+uint64_t gray_arrays_get_max_uint(GrayArray *arr);
+double gray_arrays_get_max_float(GrayArray *arr);
+int32_t gray_arrays_get_max_char(GrayArray *arr);
+uint8_t gray_arrays_get_max_byte(GrayArray *arr);
+GrayString gray_arrays_get_max_str(GrayArray *arr);
 
 /* Sort */
 
@@ -403,6 +433,9 @@ int64_t gray_arrays_get_max(GrayArray *arr);
  *@end
  */
 void gray_arrays_sort_asc(GrayArray *arr);
+void gray_arrays_sort_asc_uint(GrayArray *arr);
+void gray_arrays_sort_asc_char(GrayArray *arr);
+void gray_arrays_sort_asc_byte(GrayArray *arr);
 void gray_arrays_sort_asc_float(GrayArray *arr);
 void gray_arrays_sort_asc_str(GrayArray *arr);
 
@@ -419,6 +452,9 @@ void gray_arrays_sort_asc_str(GrayArray *arr);
  *@end
  */
 void gray_arrays_sort_desc(GrayArray *arr);
+void gray_arrays_sort_desc_uint(GrayArray *arr);
+void gray_arrays_sort_desc_char(GrayArray *arr);
+void gray_arrays_sort_desc_byte(GrayArray *arr);
 void gray_arrays_sort_desc_float(GrayArray *arr);
 void gray_arrays_sort_desc_str(GrayArray *arr);
 
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index f468208..4e0c2cd 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2643,10 +2643,19 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             strcmp(mfn, "is_equal") == 0 ||
             strcmp(mfn, "any") == 0 || strcmp(mfn, "all") == 0) {
             result = &TYPE_BOOL;
-        } else if (strcmp(mfn, "index_of") == 0 || strcmp(mfn, "get_sum") == 0 ||
-                   strcmp(mfn, "get_min") == 0 || strcmp(mfn, "get_max") == 0 ||
-                   strcmp(mfn, "count") == 0) {
+        } else if (strcmp(mfn, "index_of") == 0 || strcmp(mfn, "count") == 0) {
+            result = &TYPE_INT;
+        } else if (strcmp(mfn, "get_sum") == 0 || strcmp(mfn, "get_min") == 0 ||
+                   strcmp(mfn, "get_max") == 0) {
+            /* T; sums of sized integers stay wide enough not to need a range check */
             result = &TYPE_INT;
+            if (node->data.call.arg_count > 0) {
+                GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
+                GrayType *elem_t = (arr_t && arr_t->element_type) ? type_from_name(arr_t->element_type) : NULL;
+                if (elem_t && (elem_t->kind == TK_FLOAT || elem_t->kind == TK_UINT ||
+                               (elem_t->kind == TK_STRING && strcmp(mfn, "get_sum") != 0)))
+                    result = elem_t;
+            }
         } else if (strcmp(mfn, "reverse") == 0 || strcmp(mfn, "slice") == 0 ||
                    strcmp(mfn, "concat") == 0 || strcmp(mfn, "deduplicate") == 0 ||
                    strcmp(mfn, "map") == 0 || strcmp(mfn, "filter") == 0) {
@@ -2658,7 +2667,13 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 result = type_array("int");
             }
         } else if (strcmp(mfn, "split_every") == 0 || strcmp(mfn, "pair") == 0) {
-            result = type_array("[int]"); /* nested array */
+            /* [[T]] for an array of T */
+            char nested[MSG_BUF_SIZE];
+            GrayType *arr_t = node->data.call.arg_count > 0
+                ? resolve_expression(checker, node->data.call.args[0]) : NULL;
+            snprintf(nested, sizeof(nested), "[%s]",
+                     arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type ? arr_t->element_type : "int");
+            result = type_array(nested);
         } else if (strcmp(mfn, "flatten") == 0) {
             if (node->data.call.arg_count > 0) {
                 GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
-- 
2.43.0


From dab7c64077e0373a0f05e5719719a11dedf4c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:27 +0000
Subject: [PATCH 09/56] fix: narrow integer arrays always use the widened
 element storage

---
 grayc/src/codegen/codegen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5970521..f7f28d5 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2928,7 +2928,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     GrayType *arg_type = type_from_name(field_type);
                     const char *c_elem = "int64_t";
                     if (arg_type && arg_type->element_type)
-                        c_elem = gray_map_element_c_type(codegen, arg_type->element_type);
+                        c_elem = array_element_c_type(codegen, arg_type->element_type);
                     emit_formatted(codegen, "_np->%s = gray_array_new(gray_heap_arena, sizeof(%s), 4); ",
                         sanitize_name(field_name), c_elem);
                 }
@@ -7081,7 +7081,7 @@ static void emit_fixed_size_array_initializer(CodeGen *codegen, AstNode *value,
                                        const char *elem_type, int fixed_size) {
     if (value && value->kind == NODE_ARRAY_VALUE &&
         value->data.array_value.count < fixed_size) {
-        const char *c_elem_type = gray_type_to_c_codegen(codegen, elem_type);
+        const char *c_elem_type = array_element_c_type(codegen, elem_type);
         int count = value->data.array_value.count;
         emit_formatted(codegen, "gray_array_from(gray_default_arena, (%s[%d]){", c_elem_type, fixed_size);
         for (int i = 0; i < count; i++) {
@@ -7135,7 +7135,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
                 if (node->data.var_decl.value) {
                     emit_fixed_size_array_initializer(codegen, node->data.var_decl.value, elem_type, fixed_size);
                 } else {
-                    const char *c_elem_type = gray_type_to_c_codegen(codegen, elem_type);
+                    const char *c_elem_type = array_element_c_type(codegen, elem_type);
                     emit_formatted(codegen, "gray_array_new(gray_default_arena, sizeof(%s), %d)", c_elem_type, fixed_size);
                 }
                 emit(codegen, ";\n");
@@ -7175,7 +7175,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
         }
 
         /* Dynamic array: use GrayArray */
-        const char *c_elem_type = gray_type_to_c_codegen(codegen, elem_type);
+        const char *c_elem_type = array_element_c_type(codegen, elem_type);
         if (codegen->indent == 0) {
             emit_formatted(codegen, "GrayArray %s;\n", sanitize_name(node->data.var_decl.name));
             Buf saved = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
-- 
2.43.0


From eb0b03e9d36350c4c37962a3991d25c914a4fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:08 +0000
Subject: [PATCH 10/56] fix: stored strings and containers live in the arena of
 the place they are stored in; nested values interpolate as text

---
 grayc/src/codegen/codegen.c | 410 +++++++++++++++++++++++-------------
 grayc/src/codegen/codegen.h |   7 +
 grayc/src/stdlib/builtins.c | 165 +++++++--------
 grayc/src/stdlib/builtins.h |   1 +
 4 files changed, 341 insertions(+), 242 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index f7f28d5..399e37f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -67,6 +67,7 @@ static const char *operator_to_c_string(TokenType op) {
 static void emit_statement(CodeGen *codegen, AstNode *node);
 static void emit_expression(CodeGen *codegen, AstNode *node);
 static void emit_call_expression(CodeGen *codegen, AstNode *node);
+static void emit_call(CodeGen *codegen, AstNode *node);
 static bool codegen_is_enum(CodeGen *codegen, const char *name);
 static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static int codegen_enum_index(CodeGen *codegen, const char *name);
@@ -1071,6 +1072,64 @@ static bool function_uses_caller_arena(AstNode *function_node) {
     return false;
 }
 
+static AstNode *find_function(CodeGen *codegen, const char *name);
+
+static bool is_global_variable(CodeGen *codegen, const char *name) {
+    for (int i = 0; codegen->program && i < codegen->program->data.program.stmt_count; i++) {
+        AstNode *stmt = codegen->program->data.program.stmts[i];
+        if (stmt->kind == NODE_VAR_DECL && stmt->data.var_decl.name &&
+            strcmp(stmt->data.var_decl.name, name) == 0) return true;
+    }
+    return false;
+}
+
+/* The arena that must own data stored into a place: the heap arena when the
+ * place is a global or lies behind a pointer (it outlives this call), the
+ * function's arena for locals reached from a scoped block (if/loop), and the
+ * current arena otherwise. */
+static const char *place_arena(CodeGen *codegen, AstNode *place) {
+    for (;;) {
+        AstNode *inner = NULL;
+        if (place->kind == NODE_LABEL) {
+            const char *name = place->data.label.value;
+            if (is_reference_variable(codegen, name) || is_global_variable(codegen, name)) return "gray_heap_arena";
+        } else if (place->kind == NODE_POSTFIX_EXPR && place->data.postfix.op == TOK_CARET) {
+            return "gray_heap_arena";
+        } else if (place->kind == NODE_INDEX_EXPR) {
+            inner = place->data.index_expr.left;
+        } else if (place->kind == NODE_MEMBER_EXPR) {
+            inner = place->data.member.object;
+            if (inner->kind == NODE_LABEL) {
+                char global[MSG_BUF_SIZE];
+                snprintf(global, sizeof(global), "%s_%s", resolve_alias(codegen, inner->data.label.value), place->data.member.member);
+                if (is_global_variable(codegen, global)) return "gray_heap_arena";
+            }
+        }
+        if (!inner) break;
+        GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, inner) : NULL;
+        if (type && type->kind == TK_POINTER) return "gray_heap_arena";
+        place = inner;
+    }
+    return codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+}
+
+/* Data stored into a place owned by another arena has to be copied there. */
+static bool arena_needs_copy(const char *arena) {
+    return strcmp(arena, "gray_default_arena") != 0;
+}
+
+/* Emit statements that move the C variable `var` of a Grayscale type into an arena. */
+static void emit_move_to_arena(CodeGen *codegen, const char *type_name, const char *var, const char *arena) {
+    if (!type_needs_deep_copy(codegen, type_name)) return;
+    if (strcmp(type_name, "string") == 0) {
+        emit_formatted(codegen, "%s = gray_string_new(%s, %s.data, %s.len); ", var, arena, var, var);
+        return;
+    }
+    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; %s = ", arena, var);
+    emit_value_deep_copy(codegen, type_name, var);
+    emit(codegen, "; gray_default_arena = _esc; } ");
+}
+
 static bool is_result_temporary(const char *name) {
     if (!name) return false;
     return strncmp(name, "_gray_tmp", 9) == 0 || strncmp(name, "_gray_or", 8) == 0;
@@ -1133,6 +1192,41 @@ static void build_function_field_index(CodeGen *codegen) {
 
 /* --- Expression Emission --- */
 
+static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *type, const char *stream, bool in_container);
+
+/* Element kind known to the runtime's to_string functions: 0=int, 1=float,
+ * 2=string, 3=bool, 4=uint, 5=byte, 6=char; -1 for anything else. */
+static int interpolated_kind(const char *type_name) {
+    GrayType *type = type_name ? type_from_name(type_name) : NULL;
+    if (!type || is_bigint_type(type_name)) return type ? -1 : 0;
+    switch (type->kind) {
+    case TK_INT:    return 0;
+    case TK_FLOAT:  return 1;
+    case TK_STRING: return 2;
+    case TK_BOOL:   return 3;
+    case TK_UINT:   return 4;
+    case TK_BYTE:   return 5;
+    case TK_CHAR:   return 6;
+    default:        return -1;
+    }
+}
+
+/* Emit the text println() would show for a value, as a C string. */
+static void emit_printed_text(CodeGen *codegen, AstNode *value, GrayType *type) {
+    static int counter = 0;
+    int tag = counter++;
+    char var[VAR_NAME_BUF], stream[VAR_NAME_BUF];
+    snprintf(var, sizeof(var), "_pv%d", tag);
+    snprintf(stream, sizeof(stream), "_ps%d", tag);
+    emit_formatted(codegen, "({ __auto_type %s = ", var);
+    emit_expression(codegen, value);
+    emit_formatted(codegen, "; char *_pb%d = NULL; size_t _pl%d = 0; FILE *%s = gray_builtin_open_text(&_pb%d, &_pl%d);\n",
+        tag, tag, stream, tag, tag);
+    emit_value_print(codegen, var, type, stream, true);
+    emit_formatted(codegen, "fclose(%s); GrayString _pt%d = gray_string_new(gray_default_arena, _pb%d, (int32_t)_pl%d); free(_pb%d); _pt%d; }).data",
+        stream, tag, tag, tag, tag, tag);
+}
+
 static void emit_expression(CodeGen *codegen, AstNode *node) {
     if (!node) return;
 
@@ -1426,33 +1520,18 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 emit(codegen, ").data");
                 break;
             case TK_ARRAY: {
-                /* Determine element kind: 0=int, 1=float, 2=string, 3=bool, 4=uint, 5=byte, 6=char */
-                int ek = 0;
-                if (part_type && part_type->element_type) {
-                    GrayType *et = type_from_name(part_type->element_type);
-                    if (et->kind == TK_FLOAT) ek = 1;
-                    else if (et->kind == TK_STRING) ek = 2;
-                    else if (et->kind == TK_BOOL) ek = 3;
-                    else if (et->kind == TK_UINT) ek = 4;
-                    else if (et->kind == TK_BYTE) ek = 5;
-                    else if (et->kind == TK_CHAR) ek = 6;
-                }
+                int ek = part_type ? interpolated_kind(part_type->element_type) : 0;
+                if (ek < 0) { emit_printed_text(codegen, part, part_type); break; }
                 emit_formatted(codegen, "({ GrayArray _interp_arr = ");
                 emit_expression(codegen, part);
                 emit_formatted(codegen, "; gray_builtin_array_to_string(gray_default_arena, &_interp_arr, %d); }).data", ek);
                 break;
             }
             case TK_MAP: {
-                /* Determine value kind: 0=int, 1=float, 2=string, 3=bool, 4=uint, 5=byte, 6=char */
-                int vk = 0;
-                if (part_type && part_type->value_type) {
-                    GrayType *vt = type_from_name(part_type->value_type);
-                    if (vt->kind == TK_FLOAT) vk = 1;
-                    else if (vt->kind == TK_STRING) vk = 2;
-                    else if (vt->kind == TK_BOOL) vk = 3;
-                    else if (vt->kind == TK_UINT) vk = 4;
-                    else if (vt->kind == TK_BYTE) vk = 5;
-                    else if (vt->kind == TK_CHAR) vk = 6;
+                int vk = part_type ? interpolated_kind(part_type->value_type) : 0;
+                if (vk < 0 || (part_type && part_type->key_type && strcmp(part_type->key_type, "string") != 0)) {
+                    emit_printed_text(codegen, part, part_type);
+                    break;
                 }
                 emit_formatted(codegen, "({ GrayMap _interp_map = ");
                 emit_expression(codegen, part);
@@ -3260,7 +3339,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         break;
     case TK_FLOAT:
         emit_indent(codegen);
-        emit_formatted(codegen, "fprintf(%s, \"%%g\", (double)(%s));\n", stream, c_expr);
+        emit_formatted(codegen, "fprintf(%s, \"%%s\", gray_builtin_format_float(gray_default_arena, (double)(%s)).data);\n", stream, c_expr);
         break;
     case TK_STRING:
         emit_indent(codegen);
@@ -5131,22 +5210,16 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         bool elem_is_string = (val_t && val_t->kind == TK_STRING) ||
             (elem_tn && strcmp(elem_tn, "string") == 0);
         const char *c_elem = elem_tn ? array_element_c_type(codegen, elem_tn) : "__auto_type";
-        const char *alloc_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        char alloc_arena[32];
+        snprintf(alloc_arena, sizeof(alloc_arena), "%s", place_arena(codegen, node->data.call.args[0]));
         emit_formatted(codegen, "{ %s _av = ", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; ");
         /* : escape arena-allocated data to the outer arena when
          * inside a loop scope. Strings get a simple copy; arrays, maps,
          * and structs with embedded pointers need a full deep copy. */
-        if (codegen->loop_scope_depth > 0) {
-            if (elem_is_string) {
-                emit_formatted(codegen, "_av = gray_string_new(%s, _av.data, _av.len); ", alloc_arena);
-            } else if (elem_tn && type_needs_deep_copy(codegen, elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _av = ", alloc_arena);
-                emit_value_deep_copy(codegen, elem_tn, "_av");
-                emit(codegen, "; gray_default_arena = _esc; } ");
-            }
-        }
+        if (arena_needs_copy(alloc_arena))
+            emit_move_to_arena(codegen, elem_is_string ? "string" : elem_tn, "_av", alloc_arena);
         /* Ensure elem_size is set on the target array before appending;
          * struct fields may be zero-initialized with no elem_size. */
         emit(codegen, "{ GrayArray *_tgt = ");
@@ -5160,21 +5233,14 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *ia_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
         const char *c_elem = ia_elem_tn ? array_element_c_type(codegen, ia_elem_tn) : "__auto_type";
-        const char *ia_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *ia_arena = place_arena(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "{ %s _iv = ", c_elem);
         emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, "; ");
         bool ia_str = (val_t && val_t->kind == TK_STRING) ||
             (ia_elem_tn && strcmp(ia_elem_tn, "string") == 0);
-        if (codegen->loop_scope_depth > 0) {
-            if (ia_str) {
-                emit_formatted(codegen, "_iv = gray_string_new(%s, _iv.data, _iv.len); ", ia_arena);
-            } else if (ia_elem_tn && type_needs_deep_copy(codegen, ia_elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _iv = ", ia_arena);
-                emit_value_deep_copy(codegen, ia_elem_tn, "_iv");
-                emit(codegen, "; gray_default_arena = _esc; } ");
-            }
-        }
+        if (arena_needs_copy(ia_arena))
+            emit_move_to_arena(codegen, ia_str ? "string" : ia_elem_tn, "_iv", ia_arena);
         emit_formatted(codegen, "gray_arrays_insert_at(%s, ", ia_arena);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
@@ -5235,23 +5301,15 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     /* prepend/fill need special value wrapping */
     if (strcmp(func, "prepend") == 0 && node->data.call.arg_count == 2) {
-        const char *pp_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *pp_arena = place_arena(codegen, node->data.call.args[0]);
         GrayType *pp_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *pp_elem_tn = (pp_arr_t && pp_arr_t->kind == TK_ARRAY) ? pp_arr_t->element_type : NULL;
-        bool pp_str = pp_elem_tn && strcmp(pp_elem_tn, "string") == 0;
         const char *pp_c_elem = pp_elem_tn ? array_element_c_type(codegen, pp_elem_tn) : "int64_t";
         emit_formatted(codegen, "{ %s _pv = ", pp_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; ");
-        if (codegen->loop_scope_depth > 0) {
-            if (pp_str) {
-                emit_formatted(codegen, "_pv = gray_string_new(%s, _pv.data, _pv.len); ", pp_arena);
-            } else if (pp_elem_tn && type_needs_deep_copy(codegen, pp_elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _pv = ", pp_arena);
-                emit_value_deep_copy(codegen, pp_elem_tn, "_pv");
-                emit(codegen, "; gray_default_arena = _esc; } ");
-            }
-        }
+        if (arena_needs_copy(pp_arena))
+            emit_move_to_arena(codegen, pp_elem_tn, "_pv", pp_arena);
         emit_formatted(codegen, "gray_arrays_prepend(%s, ", pp_arena);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", &_pv); }");
@@ -5261,9 +5319,13 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *fl_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *fl_c_elem = (fl_arr_t && fl_arr_t->kind == TK_ARRAY && fl_arr_t->element_type)
             ? array_element_c_type(codegen, fl_arr_t->element_type) : "int64_t";
+        const char *fl_arena = place_arena(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "{ %s _fv = ", fl_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, "; gray_arrays_fill(gray_default_arena, ");
+        emit(codegen, "; ");
+        if (arena_needs_copy(fl_arena) && fl_arr_t)
+            emit_move_to_arena(codegen, fl_arr_t->element_type, "_fv", fl_arena);
+        emit_formatted(codegen, "gray_arrays_fill(%s, ", fl_arena);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", &_fv, ");
         emit_expression(codegen, node->data.call.args[2]);
@@ -5956,7 +6018,74 @@ static bool emit_channels_call(CodeGen *codegen, AstNode *node, const char *func
 
 /* --- Main call dispatcher --- */
 
+/* The user function a call resolves to, with `self` set when it is called
+ * through an instance that becomes its first argument. */
+static AstNode *find_called_function(CodeGen *codegen, AstNode *node, AstNode **self) {
+    AstNode *callee = node->data.call.function;
+    *self = NULL;
+    if (callee->kind == NODE_LABEL) return find_function(codegen, callee->data.label.value);
+    if (callee->kind != NODE_MEMBER_EXPR) return NULL;
+    AstNode *obj = callee->data.member.object;
+    const char *member = callee->data.member.member;
+    char name[MSG_BUF_SIZE];
+    if (obj->kind == NODE_MEMBER_EXPR && obj->data.member.object->kind == NODE_LABEL) {
+        snprintf(name, sizeof(name), "%s_%s_%s", obj->data.member.object->data.label.value, obj->data.member.member, member);
+        AstNode *func = find_function(codegen, name);
+        if (func) return func;
+    }
+    if (obj->kind == NODE_LABEL) {
+        snprintf(name, sizeof(name), "%s_%s", resolve_alias(codegen, obj->data.label.value), member);
+        AstNode *func = find_function(codegen, name);
+        if (func) return func;
+    }
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, obj) : NULL;
+    const char *struct_name = !type ? NULL
+        : type->kind == TK_POINTER ? type->element_type
+        : type->kind == TK_STRUCT ? type->name : NULL;
+    if (!struct_name) return NULL;
+    snprintf(name, sizeof(name), "%s_%s", struct_name, member);
+    AstNode *func = find_function(codegen, name);
+    if (func && func->data.func_decl.param_count > node->data.call.arg_count) *self = obj;
+    return func;
+}
+
+/* A function with & parameters allocates in the caller's arena. Pick the arena
+ * of the longest-lived place it can write to, so that what it stores there is
+ * not released with the scope of the call. */
+static const char *call_arena(CodeGen *codegen, AstNode *node, AstNode *func, AstNode *self) {
+    const char *arena = "gray_default_arena";
+    int first = self ? 1 : 0;
+    for (int i = 0; i < func->data.func_decl.param_count; i++) {
+        if (!func->data.func_decl.params[i].mutable) continue;
+        AstNode *arg = i < first ? self : i - first < node->data.call.arg_count ? node->data.call.args[i - first] : NULL;
+        if (!arg) continue;
+        GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+        const char *place = type && type->kind == TK_POINTER ? "gray_heap_arena" : place_arena(codegen, arg);
+        if (arena_needs_copy(place) && strcmp(arena, "gray_heap_arena") != 0) arena = place;
+    }
+    return arena;
+}
+
 static void emit_call_expression(CodeGen *codegen, AstNode *node) {
+    AstNode *self = NULL;
+    AstNode *called = find_called_function(codegen, node, &self);
+    const char *arena = called && function_uses_caller_arena(called)
+        ? call_arena(codegen, node, called, self) : "gray_default_arena";
+    if (!arena_needs_copy(arena)) {
+        emit_call(codegen, node);
+        return;
+    }
+    int tag = next_deep_copy_tag();
+    bool is_void = called->data.func_decl.return_type_count == 0;
+    emit_formatted(codegen, "({ GrayArena *_ca%d = gray_default_arena; gray_default_arena = %s; ", tag, arena);
+    if (!is_void) emit_formatted(codegen, "__auto_type _cr%d = ", tag);
+    emit_call(codegen, node);
+    emit_formatted(codegen, "; gray_default_arena = _ca%d; ", tag);
+    if (!is_void) emit_formatted(codegen, "_cr%d; ", tag);
+    emit(codegen, "})");
+}
+
+static void emit_call(CodeGen *codegen, AstNode *node) {
     const char *module = NULL;
     const char *func = NULL;
 
@@ -7094,7 +7223,15 @@ static void emit_fixed_size_array_initializer(CodeGen *codegen, AstNode *value,
     }
 }
 
+static void emit_typed_declaration(CodeGen *codegen, AstNode *node);
+
 static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
+    const char *saved_var_type = codegen->current_var_type;
+    emit_typed_declaration(codegen, node);
+    codegen->current_var_type = saved_var_type;
+}
+
+static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
     const char *type_name = node->data.var_decl.type_name;
@@ -7176,16 +7313,15 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
 
         /* Dynamic array: use GrayArray */
         const char *c_elem_type = array_element_c_type(codegen, elem_type);
-        if (codegen->indent == 0) {
+        Buf file_output = codegen->output;
+        bool is_file_scope = codegen->indent == 0;
+        if (is_file_scope) {
             emit_formatted(codegen, "GrayArray %s;\n", sanitize_name(node->data.var_decl.name));
-            Buf saved = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
+            file_output = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
             emit_formatted(codegen, "    %s = ", sanitize_name(node->data.var_decl.name));
-            if (node->data.var_decl.value) emit_expression(codegen, node->data.var_decl.value);
-            else emit_formatted(codegen, "gray_array_new(gray_default_arena, sizeof(%s), 4)", c_elem_type);
-            emit(codegen, ";\n");
-            codegen->global_init = codegen->output; codegen->output = saved; codegen->indent = 0;
         } else {
-        emit_formatted(codegen, "GrayArray %s = ", sanitize_name(node->data.var_decl.name));
+            emit_formatted(codegen, "GrayArray %s = ", sanitize_name(node->data.var_decl.name));
+        }
         if (node->data.var_decl.value &&
             node->data.var_decl.value->kind == NODE_ARRAY_VALUE &&
             node->data.var_decl.value->data.array_value.count == 0) {
@@ -7215,7 +7351,9 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "gray_array_new(gray_default_arena, sizeof(%s), 4)", c_elem_type);
         }
         emit(codegen, ";\n");
-        } /* end else (indent > 0) */
+        if (is_file_scope) {
+            codegen->global_init = codegen->output; codegen->output = file_output; codegen->indent = 0;
+        }
         return;
     }
 
@@ -7575,12 +7713,59 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
+static void emit_assign_to_place(CodeGen *codegen, AstNode *node);
+
 static const char *assign_target_type_name(CodeGen *codegen, AstNode *node) {
     GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
     return type ? type->name : NULL;
 }
 
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
+    AstNode *target = node->data.assign.target;
+    GrayType *target_type = codegen->type_table ? typetable_get(codegen->type_table, target) : NULL;
+    char type_str[MSG_BUF_SIZE];
+    if (target_type && target_type->kind == TK_ARRAY)
+        snprintf(type_str, sizeof(type_str), "[%s]", target_type->element_type ? target_type->element_type : "");
+    else
+        snprintf(type_str, sizeof(type_str), "%s",
+            target_type && target_type->kind != TK_POINTER && target_type->name ? target_type->name : "");
+
+    /* An untyped collection literal takes its type from the place it is assigned to. */
+    const char *saved_var_type = codegen->current_var_type;
+    codegen->current_var_type = type_str[0] ? type_str : NULL;
+
+    GrayType *left_type = (target->kind == NODE_INDEX_EXPR && codegen->type_table)
+        ? typetable_get(codegen->type_table, target->data.index_expr.left) : NULL;
+    const char *arena = place_arena(codegen, target);
+    if (node->data.assign.op == TOK_ASSIGN && arena_needs_copy(arena) && !codegen->assign_value_moved &&
+        !(left_type && left_type->kind == TK_MAP) && type_needs_deep_copy(codegen, type_str)) {
+        /* Copy strings and containers into the arena of the place they are
+         * stored in, so that they survive the scope they were computed in. */
+        char var[VAR_NAME_BUF];
+        snprintf(var, sizeof(var), "_esc_v%d", next_deep_copy_tag());
+        emit_indent(codegen);
+        emit_formatted(codegen, "{ %s %s = ", gray_type_to_c_codegen(codegen, type_str), var);
+        emit_expression(codegen, node->data.assign.value);
+        emit(codegen, "; ");
+        emit_move_to_arena(codegen, type_str, var, arena);
+        emit(codegen, "\n");
+        AstNode moved = { .kind = NODE_LABEL, .token = node->token };
+        moved.data.label.value = var;
+        AstNode *value = node->data.assign.value;
+        node->data.assign.value = &moved;
+        codegen->assign_value_moved = true;
+        emit_assign_to_place(codegen, node);
+        codegen->assign_value_moved = false;
+        node->data.assign.value = value;
+        emit_indent(codegen);
+        emit(codegen, "}\n");
+    } else {
+        emit_assign_to_place(codegen, node);
+    }
+    codegen->current_var_type = saved_var_type;
+}
+
+static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
     /* Check for array index assignment: arr[i] = value */
@@ -7659,9 +7844,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             if (left_t->value_type) c_val = gray_map_element_c_type(codegen, left_t->value_type);
             const char *c_key = "GrayString";
             if (left_t->key_type) c_key = gray_map_element_c_type(codegen, left_t->key_type);
-            const char *ms_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
-            bool ms_str_key = left_t->key_type && strcmp(left_t->key_type, "string") == 0;
-            bool ms_str_val = left_t->value_type && strcmp(left_t->value_type, "string") == 0;
+            const char *ms_arena = place_arena(codegen, left);
 
             /* Detect pointer-to-struct field access: left is a MEMBER_EXPR
              * whose object is a pointer type. In that case the GCC statement
@@ -7677,15 +7860,8 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                if (ms_str_key) {
-                    emit_formatted(codegen, "_mk = gray_string_new(%s, _mk.data, _mk.len); ", ms_arena);
-                } else if (left_t->key_type && type_needs_deep_copy(codegen, left_t->key_type)) {
-                    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _mk = ", ms_arena);
-                    emit_value_deep_copy(codegen, left_t->key_type, "_mk");
-                    emit(codegen, "; gray_default_arena = _esc; } ");
-                }
-            }
+            if (arena_needs_copy(ms_arena))
+                emit_move_to_arena(codegen, left_t->key_type, "_mk", ms_arena);
             /* For compound assignments, read the existing value first so the
              * operation is applied on top of the current entry rather than
              * against a zero/uninitialized base. */
@@ -7715,15 +7891,8 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 emit_expression(codegen, node->data.assign.value);
             }
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                if (ms_str_val) {
-                    emit_formatted(codegen, "_mv = gray_string_new(%s, _mv.data, _mv.len); ", ms_arena);
-                } else if (left_t->value_type && type_needs_deep_copy(codegen, left_t->value_type)) {
-                    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _mv = ", ms_arena);
-                    emit_value_deep_copy(codegen, left_t->value_type, "_mv");
-                    emit(codegen, "; gray_default_arena = _esc; } ");
-                }
-            }
+            if (arena_needs_copy(ms_arena))
+                emit_move_to_arena(codegen, left_t->value_type, "_mv", ms_arena);
             if (map_via_ptr) {
                 if (ms_compound) {
                     /* _mp was captured above; just set and close the outer block. */
@@ -7813,36 +7982,6 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         bool is_ref = (obj->kind == NODE_LABEL && is_reference_variable(codegen, obj->data.label.value));
         if (!is_ref && obj_t && obj_t->kind == TK_POINTER) {
             const char *field = node->data.assign.target->data.member.member;
-            /* When assigning an array/string to a struct field inside a
-             * scoped block (if/loop), deep-copy to the outer arena so the
-             * data survives the block's arena destruction. */
-            if (node->data.assign.op == TOK_ASSIGN && codegen->loop_scope_depth > 0) {
-                GrayType *field_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-                if (field_t && field_t->kind == TK_ARRAY) {
-                    char type_str[MSG_BUF_SIZE];
-                    snprintf(type_str, sizeof(type_str), "[%s]", field_t->element_type ? field_t->element_type : "");
-                    emit(codegen, "{ __auto_type _dp = ");
-                    emit_expression(codegen, obj);
-                    emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
-                    emit_formatted(codegen, "{ GrayArray _esc_v = ");
-                    emit_expression(codegen, node->data.assign.value);
-                    emit(codegen, "; GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-                    emit_formatted(codegen, "_dp->%s = ", sanitize_name(field));
-                    emit_array_deep_copy(codegen, type_str, "_esc_v");
-                    emit(codegen, "; gray_default_arena = _esc_a; } }\n");
-                    return;
-                }
-                if (field_t && field_t->kind == TK_STRING) {
-                    emit(codegen, "{ __auto_type _dp = ");
-                    emit_expression(codegen, obj);
-                    emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
-                    emit_formatted(codegen, "{ GrayString _esc_v = ");
-                    emit_expression(codegen, node->data.assign.value);
-                    emit_formatted(codegen, "; _dp->%s = gray_string_new(_gray_outer_arena, _esc_v.data, _esc_v.len); } }\n",
-                        sanitize_name(field));
-                    return;
-                }
-            }
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, obj);
             emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
@@ -7970,7 +8109,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
      * independent backing storage ). Applies to any RHS expression
      * (variables, call results, etc.) to prevent use-after-free when the
      * source array lives on a function-local arena. */
-    if (node->data.assign.op == TOK_ASSIGN) {
+    if (node->data.assign.op == TOK_ASSIGN && !codegen->assign_value_moved) {
         GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
         if (tgt_t && tgt_t->kind == TK_ARRAY) {
             emit_expression(codegen, node->data.assign.target);
@@ -7994,9 +8133,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit(codegen, "; }\n");
             return;
         }
-        /* Struct copy-by-default: deep copy structs with container fields.
-         * When inside a scoped arena (if-block / for_each), allocate on
-         * the outer arena so the copy survives scope destruction. */
+        /* Struct copy-by-default: deep copy structs with container fields. */
         if (tgt_t && tgt_t->kind == TK_STRUCT && tgt_t->name &&
             type_needs_deep_copy(codegen, tgt_t->name)) {
             int tag = next_deep_copy_tag();
@@ -8006,50 +8143,16 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "{ %s %s = ", ct, src_var);
             emit_expression(codegen, node->data.assign.value);
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                emit(codegen, "GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-            }
             emit_expression(codegen, node->data.assign.target);
             emit(codegen, " = ");
             emit_value_deep_copy(codegen, tgt_t->name, src_var);
-            if (codegen->loop_scope_depth > 0) {
-                emit(codegen, "; gray_default_arena = _esc_a; }\n");
-            } else {
-                emit(codegen, "; }\n");
-            }
+            emit(codegen, "; }\n");
             return;
         }
     }
 
     /* Default assignment; suppress ref auto-deref when assigning to a pointer target */
 
-    /* : when inside a loop scope and assigning a string/container
-     * value to a plain variable with =, escape the value to the outer
-     * arena so it survives the iteration arena's destruction. */
-    if (codegen->loop_scope_depth > 0 && node->data.assign.op == TOK_ASSIGN &&
-        node->data.assign.target->kind == NODE_LABEL) {
-        GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-        if (tgt_t && tgt_t->kind == TK_STRING) {
-            emit(codegen, "{ GrayString _esc_v = ");
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = gray_string_new(_gray_outer_arena, _esc_v.data, _esc_v.len); }\n");
-            return;
-        }
-        if (tgt_t && tgt_t->name && type_needs_deep_copy(codegen, tgt_t->name)) {
-            const char *c_type = gray_type_to_c_codegen(codegen, tgt_t->name);
-            emit_formatted(codegen, "{ %s _esc_v = ", c_type);
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = ");
-            emit_value_deep_copy(codegen, tgt_t->name, "_esc_v");
-            emit(codegen, "; gray_default_arena = _esc_a; }\n");
-            return;
-        }
-    }
-
     emit_expression(codegen, node->data.assign.target);
     emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
     if (node->data.assign.value->kind == NODE_LABEL &&
@@ -9315,6 +9418,8 @@ CodeGen codegen_create(const char *file) {
     codegen.current_var_name = NULL;
     codegen.current_var_type = NULL;
     codegen.in_const_decl = false;
+    codegen.assign_value_moved = false;
+    codegen.program = NULL;
     codegen.scope_arenas = NULL;
     codegen.scope_arena_count = 0;
     codegen.scope_arena_cap = 0;
@@ -9333,6 +9438,7 @@ static bool has_stdlib_module(const char *const *modules, int count, const char
 
 void codegen_generate(CodeGen *codegen, AstNode *program) {
     if (program->kind != NODE_PROGRAM) return;
+    codegen->program = program;
 
     /* Collect imported stdlib module names (used for conditional header inclusion) */
     #define MAX_STDLIB_IMPORTS 64
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index cc2ace1..e895812 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -129,6 +129,13 @@ typedef struct {
      * emitted as C file-scope initializers, which C does not allow. */
     bool in_const_decl;
 
+    /* True while the value of an assignment has already been copied into the
+     * arena of the place it is stored in. */
+    bool assign_value_moved;
+
+    /* The program being generated (for global variable lookups). */
+    AstNode *program;
+
     /* Stack of open per-scope scratch arenas (if / for_each / while /
      * loop). Each entry holds the exact C identifiers emitted at scope
      * entry so any early-exit path (return, or_return-desugared return)
diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 2a1ddca..a2d706a 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -339,56 +339,71 @@ static int cp_to_utf8(int32_t cp, char *out) {
     out[0]=(char)(0xF0|(cp>>18)); out[1]=(char)(0x80|((cp>>12)&0x3F)); out[2]=(char)(0x80|((cp>>6)&0x3F)); out[3]=(char)(0x80|(cp&0x3F)); return 4;
 }
 
+/* Text under construction; grows as needed. */
+typedef struct { char *data; size_t len, cap; } TextBuffer;
+
+static void text_append(TextBuffer *text, const char *data, size_t len) {
+    if (text->len + len > text->cap) {
+        size_t cap = text->cap ? text->cap * 2 : GRAY_TOSTRING_BUF_SIZE;
+        while (cap < text->len + len) cap *= 2;
+        char *grown = realloc(text->data, cap);
+        if (!grown) gray_panic_code("P0001", "out of memory");
+        text->data = grown;
+        text->cap = cap;
+    }
+    if (len) memcpy(text->data + text->len, data, len);
+    text->len += len;
+}
+
+/* Append one element or value; kind: 0=int, 1=float, 2=string, 3=bool, 4=uint, 5=byte, 6=char */
+static void text_append_value(TextBuffer *text, const void *value, int kind) {
+    char buf[GRAY_FLOAT_STR_BUF];
+    int len = 0;
+    switch (kind) {
+    case 0: len = snprintf(buf, sizeof(buf), "%" PRId64, *(const int64_t *)value); break;
+    case 1: fmt_shortest_float(buf, sizeof(buf), *(const double *)value); len = (int)strlen(buf); break;
+    case 2: {
+        const GrayString *s = value;
+        text_append(text, "\"", 1);
+        text_append(text, s->data ? s->data : "", (size_t)s->len);
+        text_append(text, "\"", 1);
+        return;
+    }
+    case 3: len = snprintf(buf, sizeof(buf), "%s", *(const bool *)value ? "true" : "false"); break;
+    case 4: len = snprintf(buf, sizeof(buf), "%" PRIu64, *(const uint64_t *)value); break;
+    case 5: len = snprintf(buf, sizeof(buf), "%u", (unsigned)*(const uint8_t *)value); break;
+    case 6:
+        buf[0] = '\'';
+        len = 1 + cp_to_utf8(*(const int32_t *)value, buf + 1);
+        buf[len++] = '\'';
+        break;
+    }
+    text_append(text, buf, (size_t)len);
+}
+
+static GrayString text_finish(GrayArena *arena, TextBuffer *text) {
+    if (text->len > INT32_MAX) gray_panic_code("P0001", "out of memory");
+    GrayString result = gray_string_new(arena, text->data, (int32_t)text->len);
+    free(text->data);
+    return result;
+}
+
 GrayString gray_builtin_array_to_string(GrayArena *arena, GrayArray *arr, int elem_kind) {
-    char buf[GRAY_TOSTRING_BUF_SIZE];
-    int pos = 0;
-    buf[pos++] = '{';
-    for (int32_t i = 0; i < arr->len && pos < GRAY_TOSTRING_SAFE_LIMIT; i++) {
-        if (i > 0) { buf[pos++] = ','; buf[pos++] = ' '; }
-        switch (elem_kind) {
-        case 0:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRId64,
-                GRAY_ARRAY_GET(*arr, int64_t, i));
-            break;
-        case 1: {
-            char float_buffer[GRAY_FLOAT_STR_BUF];
-            fmt_shortest_float(float_buffer, sizeof(float_buffer), GRAY_ARRAY_GET(*arr, double, i));
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%s", float_buffer);
-            break;
-        }
-        case 2: {
-            GrayString s = GRAY_ARRAY_GET(*arr, GrayString, i);
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "\"%.*s\"",
-                (int)s.len, s.data ? s.data : "");
-            break;
-        }
-        case 3:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%s",
-                GRAY_ARRAY_GET(*arr, bool, i) ? "true" : "false");
-            break;
-        case 4:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRIu64,
-                GRAY_ARRAY_GET(*arr, uint64_t, i));
-            break;
-        case 5:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%u",
-                (unsigned)GRAY_ARRAY_GET(*arr, uint8_t, i));
-            break;
-        case 6: {
-            int32_t cp = GRAY_ARRAY_GET(*arr, int32_t, i);
-            char utf8[4]; int utf8_length = cp_to_utf8(cp, utf8);
-            if (pos + 2 + utf8_length < (int)sizeof(buf)) {
-                buf[pos++] = '\'';
-                memcpy(buf + pos, utf8, (size_t)utf8_length); pos += utf8_length;
-                buf[pos++] = '\'';
-            }
-            break;
-        }
-        }
+    TextBuffer text = {0};
+    text_append(&text, "{", 1);
+    for (int32_t i = 0; i < arr->len; i++) {
+        if (i > 0) text_append(&text, ", ", 2);
+        text_append_value(&text, (char *)arr->data + (size_t)i * arr->elem_size, elem_kind);
     }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return gray_string_new(arena, buf, (int32_t)pos);
+    text_append(&text, "}", 1);
+    return text_finish(arena, &text);
+}
+
+/* A stream that collects what is written to it; the text is valid after fclose. */
+FILE *gray_builtin_open_text(char **data, size_t *len) {
+    FILE *stream = open_memstream(data, len);
+    if (!stream) gray_panic_code("P0001", "out of memory");
+    return stream;
 }
 
 /* --- to_char / char_count — Unicode codepoint access --- */
@@ -482,49 +497,19 @@ GrayString gray_builtin_char_to_utf8(GrayArena *arena, int32_t cp) {
 }
 
 GrayString gray_builtin_map_to_string(GrayArena *arena, GrayMap *m, int val_kind) {
-    char buf[GRAY_TOSTRING_BUF_SIZE];
-    int pos = 0;
-    buf[pos++] = '{';
-    for (int32_t order_index = 0; order_index < m->order_len && pos < GRAY_TOSTRING_SAFE_LIMIT; order_index++) {
+    TextBuffer text = {0};
+    bool first = true;
+    text_append(&text, "{", 1);
+    for (int32_t order_index = 0; order_index < m->order_len; order_index++) {
         int32_t i = m->order[order_index];
         if (m->states[i] != 1) continue;
-        if (order_index > 0) { buf[pos++] = ','; buf[pos++] = ' '; }
-        GrayString *kp = (GrayString *)((char *)m->keys + (size_t)i * m->key_size);
-        pos += snprintf(buf + pos, sizeof(buf) - pos, "\"%.*s\": ",
-            (int)kp->len, kp->data ? kp->data : "");
-        void *vp = (char *)m->values + (size_t)i * m->value_size;
-        switch (val_kind) {
-        case 0: pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRId64, *(int64_t *)vp); break;
-        case 1: {
-            char float_buffer[GRAY_FLOAT_STR_BUF];
-            fmt_shortest_float(float_buffer, sizeof(float_buffer), *(double *)vp);
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%s", float_buffer);
-            break;
-        }
-        case 2: {
-            GrayString *sp = (GrayString *)vp;
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "\"%.*s\"",
-                (int)sp->len, sp->data ? sp->data : "");
-            break;
-        }
-        case 3: pos += snprintf(buf + pos, sizeof(buf) - pos, "%s",
-            *(bool *)vp ? "true" : "false"); break;
-        case 4: pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRIu64, *(uint64_t *)vp); break;
-        case 5: pos += snprintf(buf + pos, sizeof(buf) - pos, "%u", (unsigned)*(uint8_t *)vp); break;
-        case 6: {
-            int32_t cp = *(int32_t *)vp;
-            char utf8[4]; int utf8_length = cp_to_utf8(cp, utf8);
-            if (pos + 2 + utf8_length < (int)sizeof(buf)) {
-                buf[pos++] = '\'';
-                memcpy(buf + pos, utf8, (size_t)utf8_length); pos += utf8_length;
-                buf[pos++] = '\'';
-            }
-            break;
-        }
-        }
+        if (!first) text_append(&text, ", ", 2);
+        first = false;
+        text_append_value(&text, (char *)m->keys + (size_t)i * m->key_size, 2);
+        text_append(&text, ": ", 2);
+        text_append_value(&text, (char *)m->values + (size_t)i * m->value_size, val_kind);
     }
-    if (m->order_len == 0) { buf[pos++] = ':'; }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return gray_string_new(arena, buf, (int32_t)pos);
+    if (first) text_append(&text, ":", 1);
+    text_append(&text, "}", 1);
+    return text_finish(arena, &text);
 }
diff --git a/grayc/src/stdlib/builtins.h b/grayc/src/stdlib/builtins.h
index e961b0c..da05578 100644
--- a/grayc/src/stdlib/builtins.h
+++ b/grayc/src/stdlib/builtins.h
@@ -436,6 +436,7 @@ GrayString gray_builtin_format_float(GrayArena *arena, double v);
 /* composite to_string */
 GrayString gray_builtin_array_to_string(GrayArena *arena, GrayArray *arr, int elem_kind);
 GrayString gray_builtin_map_to_string(GrayArena *arena, GrayMap *m, int val_kind);
+FILE *gray_builtin_open_text(char **data, size_t *len);
 
 /* to_char / char_count — Unicode codepoint access */
 int32_t gray_builtin_to_char(GrayString s, int64_t index, const char *file, int line);
-- 
2.43.0


From 91b003032624f3fe9d5aeee800d958ea27aa6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:08 +0000
Subject: [PATCH 11/56] fix: printing arrays of narrow element types reads the
 widened storage

---
 grayc/src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 399e37f..2a45c75 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3373,7 +3373,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         const char *elem_tn = type->element_type ? type->element_type : "int";
         GrayType *elem_t = type_from_name(elem_tn);
         char c_elem[TYPE_NAME_MAX];
-        strncpy(c_elem, gray_type_to_c_codegen(codegen, elem_tn), sizeof(c_elem) - 1);
+        strncpy(c_elem, array_element_c_type(codegen, elem_tn), sizeof(c_elem) - 1);
         c_elem[sizeof(c_elem) - 1] = '\0';
 
         emit_indent(codegen);
-- 
2.43.0


From 1e02e5e072afc8347f8295ca7c348f6512767b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:01 +0000
Subject: [PATCH 12/56] fix: range bounds and step are evaluated once, in the
 order they are written

---
 grayc/src/codegen/codegen.c | 84 +++++++++++--------------------------
 1 file changed, 25 insertions(+), 59 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 2a45c75..515fad2 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8568,66 +8568,32 @@ static void emit_for_statement(CodeGen *codegen, AstNode *node) {
             var = sanitize_name(node->data.for_stmt.var_name);
         }
 
-        if (iter->data.range_expr.start) {
-            /* range(start, end) or range(start, end, step) */
-            /* Determine comparison direction: static for literal step, runtime ternary for variable. */
-            bool neg_step = false;
-            bool known_direction = false;
-            bool zero_step = false;
-            if (iter->data.range_expr.step) {
-                AstNode *step = iter->data.range_expr.step;
-                if (step->kind == NODE_INT_VALUE) {
-                    known_direction = true;
-                    neg_step = step->data.int_value.value < 0;
-                    zero_step = (step->data.int_value.value == 0);
-                } else if (step->kind == NODE_PREFIX_EXPR && step->data.prefix.op == TOK_MINUS) {
-                    known_direction = true;
-                    neg_step = true;
-                }
-            }
-
-            if (iter->data.range_expr.step && !known_direction) {
-                /* Variable step: store step and end once, emit runtime direction ternary. */
-                static int step_var_counter = 0;
-                int svc = step_var_counter++;
-                /* emit_indent already called above — use it for the var declaration line */
-                emit_formatted(codegen, "int64_t _gray_step_%d = ", svc);
-                emit_expression(codegen, iter->data.range_expr.step);
-                emit_formatted(codegen, ", _gray_end_%d = ", svc);
-                emit_expression(codegen, iter->data.range_expr.end);
-                emit(codegen, ";\n");
-                /* P0090: zero step at runtime is always a panic */
-                emit_indent(codegen);
-                emit_formatted(codegen, "if (_gray_step_%d == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); }\n", svc, codegen->file, node->token.line);
-                emit_indent(codegen);
-                emit_formatted(codegen, "for (int64_t %s = ", var);
-                emit_expression(codegen, iter->data.range_expr.start);
-                emit_formatted(codegen, "; _gray_step_%d > 0 ? %s < _gray_end_%d : %s > _gray_end_%d", svc, var, svc, var, svc);
-                emit_formatted(codegen, "; %s = gray_add_check(%s, _gray_step_%d, \"%s\", %d)", var, var, svc, codegen->file, node->token.line);
-            } else if (zero_step) {
-                /* P0090: literal zero step always panics; emit panic then a dead loop */
-                emit_formatted(codegen, "gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\");\n", codegen->file, node->token.line);
-                emit_indent(codegen);
-                emit_formatted(codegen, "for (int64_t %s = 0; 0; (void)0", var);
-            } else {
-                emit_formatted(codegen, "for (int64_t %s = ", var);
-                emit_expression(codegen, iter->data.range_expr.start);
-                emit_formatted(codegen, "; %s %s ", var, neg_step ? ">" : "<");
-                emit_expression(codegen, iter->data.range_expr.end);
-                emit_formatted(codegen, "; %s", var);
-                if (iter->data.range_expr.step) {
-                    emit_formatted(codegen, " = gray_add_check(%s, ", var);
-                    emit_expression(codegen, iter->data.range_expr.step);
-                    emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
-                } else {
-                    emit(codegen, "++");
-                }
-            }
+        /* The bounds and the step are evaluated once, in the order they are
+         * written. */
+        AstNode *step = iter->data.range_expr.step;
+        static int range_counter = 0;
+        int rc = range_counter++;
+        emit_formatted(codegen, "int64_t _gray_start_%d = ", rc);
+        if (iter->data.range_expr.start) emit_expression(codegen, iter->data.range_expr.start);
+        else emit(codegen, "0"); /* range(end) - start at 0 */
+        emit(codegen, ";\n");
+        emit_indent(codegen);
+        emit_formatted(codegen, "int64_t _gray_end_%d = ", rc);
+        emit_expression(codegen, iter->data.range_expr.end);
+        emit(codegen, ";\n");
+        emit_indent(codegen);
+        if (step) {
+            emit_formatted(codegen, "int64_t _gray_step_%d = ", rc);
+            emit_expression(codegen, step);
+            emit(codegen, ";\n");
+            /* P0090: zero step at runtime is always a panic */
+            emit_indent(codegen);
+            emit_formatted(codegen, "if (_gray_step_%d == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); }\n", rc, codegen->file, node->token.line);
+            emit_indent(codegen);
+            emit_formatted(codegen, "for (int64_t %s = _gray_start_%d; _gray_step_%d > 0 ? %s < _gray_end_%d : %s > _gray_end_%d", var, rc, rc, var, rc, var, rc);
+            emit_formatted(codegen, "; %s = gray_add_check(%s, _gray_step_%d, \"%s\", %d)", var, var, rc, codegen->file, node->token.line);
         } else {
-            /* range(end) - start at 0 */
-            emit_formatted(codegen, "for (int64_t %s = 0; %s < ", var, var);
-            emit_expression(codegen, iter->data.range_expr.end);
-            emit_formatted(codegen, "; %s++", var);
+            emit_formatted(codegen, "for (int64_t %s = _gray_start_%d; %s < _gray_end_%d; %s++", var, rc, var, rc, var);
         }
 
         emit(codegen, ") {\n");
-- 
2.43.0


From 8e47f9ca3430d3a7955a12662240c1e70a592d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:14 +0000
Subject: [PATCH 13/56] fix: ensure runs only once reached and after the return
 value is computed; wide integers pass through multiple results

---
 grayc/src/codegen/codegen.c | 79 +++++++++++++++++++++++--------------
 grayc/src/codegen/codegen.h |  3 ++
 2 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 515fad2..1a5c413 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -845,6 +845,11 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
             is_bigint_type(ptr_t->element_type))
             return ptr_t->element_type;
     }
+    /* Call results, fields and elements have the type the checker found */
+    if (node->kind == NODE_CALL_EXPR || node->kind == NODE_MEMBER_EXPR || node->kind == NODE_INDEX_EXPR) {
+        GrayType *t = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+        if (t && t->name && is_bigint_type(t->name)) return t->name;
+    }
     return NULL;
 }
 
@@ -8169,38 +8174,45 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
-/* Collect ensure statements from a block, growing the buffer as needed. */
-static void collect_ensures(AstNode *block, AstNode ***ensures, int *count, int *cap) {
-    if (!block || block->kind != NODE_BLOCK_STMT) return;
-    for (int i = 0; i < block->data.block.count; i++) {
-        AstNode *stmt = block->data.block.stmts[i];
-        if (stmt->kind != NODE_ENSURE_STMT) continue;
-        if (*count == *cap) {
-            int new_cap = *cap ? *cap * 2 : 8;
-            *ensures = xrealloc(*ensures, sizeof(AstNode *) * (size_t)new_cap);
-            *cap = new_cap;
-        }
-        (*ensures)[(*count)++] = stmt;
-    }
-}
-
-/* Emit ensure cleanup calls in LIFO order */
+/* Emit the calls of the ensure statements that come before this point, in LIFO
+ * order. Ensure statements stand at the top level of the function body (E3070),
+ * so those already emitted are exactly those that have been reached. */
 static void emit_ensure_cleanup(CodeGen *codegen) {
     if (!codegen->current_func || !codegen->current_func->data.func_decl.body) return;
-
-    AstNode **ensures = NULL;
-    int ensure_count = 0;
-    int ensure_cap = 0;
-    collect_ensures(codegen->current_func->data.func_decl.body, &ensures, &ensure_count, &ensure_cap);
-
-    /* Emit in reverse (LIFO) order */
-    for (int i = ensure_count - 1; i >= 0; i--) {
+    AstNode *body = codegen->current_func->data.func_decl.body;
+    if (body->kind != NODE_BLOCK_STMT) return;
+    for (int i = codegen->reached_stmts - 1; i >= 0; i--) {
+        AstNode *stmt = body->data.block.stmts[i];
+        if (stmt->kind != NODE_ENSURE_STMT) continue;
         emit_indent(codegen);
-        emit_expression(codegen, ensures[i]->data.ensure_stmt.expr);
+        emit_expression(codegen, stmt->data.ensure_stmt.expr);
         emit(codegen, ";\n");
     }
+}
 
-    free(ensures);
+/* The same for a return with a value, once _ret holds it: the calls must not
+ * change what is returned. */
+static void emit_ensure_cleanup_keeping_ret(CodeGen *codegen) {
+    AstNode *func = codegen->current_func;
+    if (!func || !func->data.func_decl.body || func->data.func_decl.body->kind != NODE_BLOCK_STMT) return;
+    bool any = false;
+    for (int i = 0; i < codegen->reached_stmts; i++) {
+        if (func->data.func_decl.body->data.block.stmts[i]->kind == NODE_ENSURE_STMT) any = true;
+    }
+    if (!any) return;
+    int rc = func->data.func_decl.return_type_count;
+    for (int i = 0; i < rc; i++) {
+        const char *type_str = func->data.func_decl.return_types[i];
+        if (!type_str || !type_needs_deep_copy(codegen, type_str)) continue;
+        char place[32];
+        if (rc == 1) snprintf(place, sizeof(place), "_ret");
+        else snprintf(place, sizeof(place), "_ret.v%d", i);
+        emit_formatted(codegen, "%s = ", place);
+        emit_value_deep_copy(codegen, type_str, place);
+        emit(codegen, "; ");
+    }
+    emit(codegen, "\n");
+    emit_ensure_cleanup(codegen);
 }
 
 /* Track nested scratch arenas so early-exit paths can unwind every live
@@ -8316,9 +8328,6 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
 }
 
 static void emit_return_statement(CodeGen *codegen, AstNode *node) {
-    /* Emit ensure cleanup before return */
-    emit_ensure_cleanup(codegen);
-
     /* Caller-arena functions have no _scope_mark to restore. */
     bool caller_arena = codegen->current_func &&
                         function_uses_caller_arena(codegen->current_func);
@@ -8327,6 +8336,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
     if (node->data.return_stmt.count > 0 && !node->data.return_stmt.values) {
         emit_indent(codegen);
         emit(codegen, "{ ");
+        emit_ensure_cleanup(codegen);
         emit_scratch_arena_unwind(codegen);
         if (caller_arena) {
             emit(codegen, "gray_exit_func(); return; }\n");
@@ -8346,6 +8356,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
             emit_expression(codegen, node->data.return_stmt.values[i]);
         }
         emit(codegen, "}; ");
+        emit_ensure_cleanup_keeping_ret(codegen);
         emit_multi_function_return_escape(codegen);
         emit(codegen, "gray_exit_func(); return _ret; }\n");
     } else if (node->data.return_stmt.count == 1 && codegen->current_func &&
@@ -8366,11 +8377,13 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
                             rtt->kind == TK_MAP || rtt->kind == TK_STRING ||
                             rtt->kind == TK_ERROR))
                     composite = true;
+                if (is_bigint_type(return_type_str)) composite = true;
             }
             emit(codegen, composite ? "{0}, " : "0, ");
         }
         emit_expression(codegen, node->data.return_stmt.values[0]);
         emit(codegen, "}; ");
+        emit_ensure_cleanup_keeping_ret(codegen);
         emit_multi_function_return_escape(codegen);
         emit(codegen, "gray_exit_func(); return _ret; }\n");
     } else if (codegen->current_func &&
@@ -8378,6 +8391,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Void function */
         emit_indent(codegen);
         emit(codegen, "{ ");
+        emit_ensure_cleanup(codegen);
         emit_scratch_arena_unwind(codegen);
         if (caller_arena) {
             emit(codegen, "gray_exit_func(); return; }\n");
@@ -8390,6 +8404,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         emit(codegen, "{ __auto_type _ret = ");
         emit_expression(codegen, node->data.return_stmt.values[0]);
         emit(codegen, "; ");
+        emit_ensure_cleanup_keeping_ret(codegen);
         if (codegen->current_func && codegen->current_func->data.func_decl.return_type_count > 0) {
             const char *ret_tn = codegen->current_func->data.func_decl.return_types[0];
             emit_function_return_escape(codegen, ret_tn);
@@ -8404,6 +8419,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
             emit_indent(codegen);
             emit_formatted(codegen, "{ __auto_type _ret = %s; ",
                 sanitize_name(codegen->current_func->data.func_decl.return_names[0]));
+            emit_ensure_cleanup_keeping_ret(codegen);
             emit_function_return_escape(codegen, codegen->current_func->data.func_decl.return_types[0]);
             emit(codegen, "gray_exit_func(); return _ret; }\n");
         } else {
@@ -8419,6 +8435,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
                 }
             }
             emit(codegen, "}; ");
+            emit_ensure_cleanup_keeping_ret(codegen);
             emit_multi_function_return_escape(codegen);
             emit(codegen, "gray_exit_func(); return _ret; }\n");
         }
@@ -8426,6 +8443,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Bare return (no value, non-void; shouldn't happen but handle gracefully) */
         emit_indent(codegen);
         emit(codegen, "{ ");
+        emit_ensure_cleanup(codegen);
         emit_scratch_arena_unwind(codegen);
         if (caller_arena) {
             emit(codegen, "gray_exit_func(); return; }\n");
@@ -8436,9 +8454,12 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
 }
 
 static void emit_block(CodeGen *codegen, AstNode *node) {
+    bool function_body = codegen->current_func && codegen->current_func->data.func_decl.body == node;
     for (int i = 0; i < node->data.block.count; i++) {
+        if (function_body) codegen->reached_stmts = i;
         emit_statement(codegen, node->data.block.stmts[i]);
     }
+    if (function_body) codegen->reached_stmts = node->data.block.count;
 }
 
 static void emit_if_statement(CodeGen *codegen, AstNode *node) {
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index e895812..9e83774 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -146,6 +146,9 @@ typedef struct {
     int scope_arena_count;
     int scope_arena_cap;
 
+    /* top-level statements of current_func already emitted */
+    int reached_stmts;
+
     /* Heap-allocated "StructName_funcName" strings patched into AST nodes.
      * Tracked here so codegen_destroy() can free them. */
     char **ns_func_names;
-- 
2.43.0


From 3ee555fdbea80e9991321d8e71e1a812ef5f7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:04 +0000
Subject: [PATCH 14/56] fix: operands and arguments are evaluated left to right
 and once; narrow bit operations keep their type; function references resolve
 in their own function

---
 grayc/src/codegen/codegen.c | 358 +++++++++++++++++++++++++++++-------
 grayc/src/runtime/runtime.h |  14 ++
 2 files changed, 303 insertions(+), 69 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 1a5c413..2d34ded 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -68,6 +68,9 @@ static void emit_statement(CodeGen *codegen, AstNode *node);
 static void emit_expression(CodeGen *codegen, AstNode *node);
 static void emit_call_expression(CodeGen *codegen, AstNode *node);
 static void emit_call(CodeGen *codegen, AstNode *node);
+static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_name);
+static bool is_stdlib_call(AstNode *node, const char **module, const char **func);
+static AstNode *find_called_function(CodeGen *codegen, AstNode *node, AstNode **self);
 static bool codegen_is_enum(CodeGen *codegen, const char *name);
 static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static int codegen_enum_index(CodeGen *codegen, const char *name);
@@ -197,6 +200,17 @@ static bool sized_int_bounds(const char *type_name,
     return false;
 }
 
+/* C type of an operand narrower than 64 bits, which C would promote; else NULL. */
+static const char *narrow_operand_c_type(CodeGen *codegen, AstNode *node) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+    if (!type || node->kind == NODE_INT_VALUE) return NULL;
+    if (type->kind == TK_BYTE) return "uint8_t";
+    const char *min, *max;
+    bool is_unsigned;
+    if ((type->kind != TK_INT && type->kind != TK_UINT) || !sized_int_bounds(type->name, &min, &max, &is_unsigned)) return NULL;
+    return gray_type_to_c_codegen(codegen, type->name);
+}
+
 /* Return the runtime overflow-check function name for a compound assignment
  * operator on a sized integer type, or NULL if not applicable. */
 static const char *sized_check_func(TokenType op, bool is_unsigned) {
@@ -1232,8 +1246,254 @@ static void emit_printed_text(CodeGen *codegen, AstNode *value, GrayType *type)
         stream, tag, tag, tag, tag, tag);
 }
 
+/* Variables that name a function (const f = ()g), in the order they are
+ * emitted; `owner` is the function they are declared in, NULL at file scope. */
+typedef struct { const char *name; AstNode *function; AstNode *owner; } FunctionReference;
+static FunctionReference *function_references;
+static int function_reference_count, function_reference_cap;
+
+static AstNode *resolve_func_ref(CodeGen *codegen, AstNode *value) {
+    AstNode *target = value->data.func_ref.function;
+    if (target->kind == NODE_LABEL) return find_function(codegen, target->data.label.value);
+    if (target->kind != NODE_MEMBER_EXPR || target->data.member.object->kind != NODE_LABEL) return NULL;
+    char name[IDENT_BUF];
+    snprintf(name, sizeof(name), "%s_%s", target->data.member.object->data.label.value, target->data.member.member);
+    return find_function(codegen, name);
+}
+
+static void note_function_reference(CodeGen *codegen, AstNode *decl) {
+    AstNode *value = decl->data.var_decl.value;
+    if (function_reference_count == function_reference_cap) {
+        int cap = function_reference_cap ? function_reference_cap * 2 : 32;
+        FunctionReference *grown = realloc(function_references, (size_t)cap * sizeof(*grown));
+        if (!grown) { fprintf(stderr, "grayc: out of memory\n"); exit(1); }
+        function_references = grown;
+        function_reference_cap = cap;
+    }
+    function_references[function_reference_count++] = (FunctionReference){ decl->data.var_decl.name,
+        value && value->kind == NODE_FUNC_REF ? resolve_func_ref(codegen, value) : NULL, codegen->current_func };
+}
+
+/* The function a variable names, or NULL when that is only known at run time. */
+static AstNode *find_referenced_function(CodeGen *codegen, const char *name) {
+    for (int i = function_reference_count - 1; i >= 0; i--)
+        if (function_references[i].owner == codegen->current_func && strcmp(function_references[i].name, name) == 0)
+            return function_references[i].function;
+    AstNode *func = codegen->current_func;
+    for (int i = 0; func && i < func->data.func_decl.param_count; i++)
+        if (func->data.func_decl.params[i].name && strcmp(func->data.func_decl.params[i].name, name) == 0) return NULL;
+    for (int i = 0; codegen->program && i < codegen->program->data.program.stmt_count; i++) {
+        AstNode *stmt = codegen->program->data.program.stmts[i];
+        if (stmt->kind == NODE_VAR_DECL && strcmp(stmt->data.var_decl.name, name) == 0)
+            return stmt->data.var_decl.value && stmt->data.var_decl.value->kind == NODE_FUNC_REF
+                ? resolve_func_ref(codegen, stmt->data.var_decl.value) : NULL;
+    }
+    return NULL;
+}
+
+/* --- Left-to-right evaluation ---
+ * C leaves the order of operands and arguments open. When one of them calls
+ * something, every operand up to the last such one is evaluated into a
+ * temporary first; emit_expression then emits the temporary for that node. */
+
+typedef struct { AstNode *node; int tag; } EvaluatedOperand;
+static EvaluatedOperand *evaluated_operands;
+static int evaluated_operand_count, evaluated_operand_cap;
+static int evaluated_operand_tags;
+
+static const EvaluatedOperand *find_evaluated_operand(AstNode *node) {
+    for (int i = evaluated_operand_count - 1; i >= 0; i--)
+        if (evaluated_operands[i].node == node) return &evaluated_operands[i];
+    return NULL;
+}
+
+static void push_evaluated_operand(AstNode *node, int tag) {
+    if (evaluated_operand_count == evaluated_operand_cap) {
+        int cap = evaluated_operand_cap ? evaluated_operand_cap * 2 : 32;
+        EvaluatedOperand *grown = realloc(evaluated_operands, (size_t)cap * sizeof(*grown));
+        if (!grown) { fprintf(stderr, "grayc: out of memory\n"); exit(1); }
+        evaluated_operands = grown;
+        evaluated_operand_cap = cap;
+    }
+    evaluated_operands[evaluated_operand_count++] = (EvaluatedOperand){ node, tag };
+}
+
+/* Builtins that compute a value from their arguments and do nothing else. */
+static bool is_value_builtin(const char *name) {
+    static const char *const names[] = {
+        "len", "int", "uint", "float", "string", "char", "byte", "bool", "cast", "copy",
+        "type_of", "size_of", "char_count", "to_char", "ref", "addr", "error",
+        "i8", "i16", "i32", "i64", "i128", "i256", "u8", "u16", "u32", "u64", "u128", "u256",
+        "f32", "f64", NULL
+    };
+    for (int i = 0; names[i]; i++) if (strcmp(names[i], name) == 0) return true;
+    return false;
+}
+
+static bool expression_calls(AstNode *node);
+
+static bool any_expression_calls(AstNode **nodes, int count) {
+    for (int i = 0; i < count; i++) if (expression_calls(nodes[i])) return true;
+    return false;
+}
+
+/* Does evaluating the expression call anything that may have an effect? */
+static bool expression_calls(AstNode *node) {
+    if (!node) return false;
+    switch (node->kind) {
+    case NODE_CALL_EXPR:
+        if (node->data.call.function->kind == NODE_LABEL &&
+            is_value_builtin(node->data.call.function->data.label.value))
+            return any_expression_calls(node->data.call.args, node->data.call.arg_count);
+        return true;
+    case NODE_PREFIX_EXPR: return expression_calls(node->data.prefix.right);
+    case NODE_INFIX_EXPR: return expression_calls(node->data.infix.left) || expression_calls(node->data.infix.right);
+    case NODE_POSTFIX_EXPR:
+        return node->data.postfix.op != TOK_CARET || expression_calls(node->data.postfix.left);
+    case NODE_INDEX_EXPR: return expression_calls(node->data.index_expr.left) || expression_calls(node->data.index_expr.index);
+    case NODE_MEMBER_EXPR: return expression_calls(node->data.member.object);
+    case NODE_CAST_EXPR: return expression_calls(node->data.cast.value);
+    case NODE_RANGE_EXPR:
+        return expression_calls(node->data.range_expr.start) || expression_calls(node->data.range_expr.end) ||
+            expression_calls(node->data.range_expr.step);
+    case NODE_INTERPOLATED_STRING:
+        return any_expression_calls(node->data.interpolated_string.parts, node->data.interpolated_string.part_count);
+    case NODE_ARRAY_VALUE: return any_expression_calls(node->data.array_value.elements, node->data.array_value.count);
+    case NODE_STRUCT_VALUE: return any_expression_calls(node->data.struct_value.field_values, node->data.struct_value.count);
+    case NODE_MAP_VALUE:
+        return any_expression_calls(node->data.map_value.keys, node->data.map_value.count) ||
+            any_expression_calls(node->data.map_value.values, node->data.map_value.count);
+    default: return false;
+    }
+}
+
+/* Literals have no effect, and some take their type from where they stand. */
+static bool is_plain_literal(AstNode *node) {
+    switch (node->kind) {
+    case NODE_INT_VALUE: case NODE_FLOAT_VALUE: case NODE_STRING_VALUE: case NODE_CHAR_VALUE:
+    case NODE_BOOL_VALUE: case NODE_NIL_VALUE: case NODE_ARRAY_VALUE: case NODE_MAP_VALUE:
+    case NODE_STRUCT_VALUE: case NODE_FUNC_REF: case NODE_IMPLICIT_ENUM: case NODE_BLANK_IDENT:
+        return true;
+    case NODE_PREFIX_EXPR: return is_plain_literal(node->data.prefix.right);
+    default: return false;
+    }
+}
+
+/* May the value be kept in a temporary until it is used? An operand passed by
+ * address has to stay in place. */
+static bool call_argument_is_value(CodeGen *codegen, AstNode *node, AstNode *called, AstNode *self, int index) {
+    AstNode *arg = node->data.call.args[index];
+    if (called) {
+        int param = self ? index + 1 : index;
+        if (param >= called->data.func_decl.param_count) return false;
+        return !called->data.func_decl.params[param].mutable && !called->data.func_decl.params[param].is_type_param;
+    }
+    GrayType *callee = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.function) : NULL;
+    if (callee && callee->kind == TK_FUNCTION && callee->func_sig)
+        return index < callee->func_sig->param_count && !callee->func_sig->param_mutable[index];
+    if (arg->kind != NODE_LABEL && arg->kind != NODE_MEMBER_EXPR && arg->kind != NODE_INDEX_EXPR) return true;
+    const char *module = NULL, *func = NULL;
+    if (!is_stdlib_call(node, &module, &func) || !module) return false;
+    module = resolve_alias(codegen, module);
+    return strcmp(module, "math") == 0 || strcmp(module, "strings") == 0;
+}
+
+/* Collect the operands of an expression in source order. */
+static int ordered_operands(CodeGen *codegen, AstNode *node, AstNode ***operands) {
+    int count = 0, capacity = 4;
+    if (node->kind == NODE_CALL_EXPR) capacity = node->data.call.arg_count;
+    if (node->kind == NODE_INTERPOLATED_STRING) capacity = node->data.interpolated_string.part_count;
+    AstNode **list = malloc((size_t)(capacity ? capacity : 1) * sizeof(*list));
+    if (!list) { fprintf(stderr, "grayc: out of memory\n"); exit(1); }
+    if (node->kind == NODE_INFIX_EXPR) {
+        AstNode *right = node->data.infix.right;
+        list[count++] = node->data.infix.left;
+        if (right->kind == NODE_RANGE_EXPR) {
+            if (right->data.range_expr.start) list[count++] = right->data.range_expr.start;
+            if (right->data.range_expr.end) list[count++] = right->data.range_expr.end;
+            if (right->data.range_expr.step) list[count++] = right->data.range_expr.step;
+        } else {
+            list[count++] = right;
+        }
+    } else if (node->kind == NODE_CALL_EXPR) {
+        AstNode *self = NULL;
+        AstNode *called = find_called_function(codegen, node, &self);
+        if (!called && node->data.call.function->kind == NODE_LABEL)
+            called = find_referenced_function(codegen, node->data.call.function->data.label.value);
+        for (int i = 0; i < node->data.call.arg_count; i++)
+            if (call_argument_is_value(codegen, node, called, self, i)) list[count++] = node->data.call.args[i];
+    } else {
+        for (int i = 0; i < node->data.interpolated_string.part_count; i++)
+            list[count++] = node->data.interpolated_string.parts[i];
+    }
+    *operands = list;
+    return count;
+}
+
+/* Evaluate operands into temporaries where order matters. Opens a statement
+ * expression and returns how many operands it holds, or 0. */
+static int begin_ordered_operands(CodeGen *codegen, AstNode *node) {
+    if (codegen->in_const_decl || !codegen->current_func) return 0;
+    bool repeats = false;
+    if (node->kind == NODE_INFIX_EXPR) {
+        TokenType op = node->data.infix.op;
+        if (op == TOK_AND || op == TOK_OR) return 0;
+        repeats = op == TOK_IN || op == TOK_NOT_IN;
+    } else if (node->kind != NODE_CALL_EXPR && node->kind != NODE_INTERPOLATED_STRING) {
+        return 0;
+    }
+    AstNode **operands;
+    int count = ordered_operands(codegen, node, &operands);
+    int last = -1, values = 0;
+    for (int i = 0; i < count; i++) {
+        if (is_plain_literal(operands[i])) continue;
+        values++;
+        if (expression_calls(operands[i]) && !find_evaluated_operand(operands[i])) last = i;
+    }
+    int held = 0;
+    if (last >= 0 && (values > 1 || repeats)) {
+        int first = evaluated_operand_count;
+        emit(codegen, "({ ");
+        int *tags = malloc((size_t)(last + 1) * sizeof(*tags));
+        if (!tags) { fprintf(stderr, "grayc: out of memory\n"); exit(1); }
+        for (int i = 0; i <= last; i++) {
+            if (is_plain_literal(operands[i])) continue;
+            tags[i] = evaluated_operand_tags++;
+            emit_formatted(codegen, "__auto_type _sq%d = ", tags[i]);
+            emit_expression(codegen, operands[i]);
+            emit(codegen, "; ");
+        }
+        for (int i = 0; i <= last; i++)
+            if (!is_plain_literal(operands[i])) push_evaluated_operand(operands[i], tags[i]);
+        free(tags);
+        held = evaluated_operand_count - first;
+    }
+    free(operands);
+    return held;
+}
+
+static void end_ordered_operands(CodeGen *codegen, int held) {
+    if (!held) return;
+    evaluated_operand_count -= held;
+    emit(codegen, "; })");
+}
+
+static void emit_expression_node(CodeGen *codegen, AstNode *node);
+
 static void emit_expression(CodeGen *codegen, AstNode *node) {
     if (!node) return;
+    const EvaluatedOperand *evaluated = evaluated_operand_count ? find_evaluated_operand(node) : NULL;
+    if (evaluated) {
+        emit_formatted(codegen, "_sq%d", evaluated->tag);
+        return;
+    }
+    int held = begin_ordered_operands(codegen, node);
+    emit_expression_node(codegen, node);
+    end_ordered_operands(codegen, held);
+}
+
+static void emit_expression_node(CodeGen *codegen, AstNode *node) {
+    if (!node) return;
 
     switch (node->kind) {
     case NODE_LABEL: {
@@ -1947,20 +2207,15 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 break;
             }
         }
-        /* bit_not → ~ ; byte operands must be masked back to 8 bits because
-         * C promotes uint8_t to int before applying ~, yielding a negative
-         * value that fails the runtime byte range check. */
+        /* bit_not → ~ ; C promotes narrow operands to int, so the result is
+         * converted back to the operand's type. */
         if (node->data.prefix.op == TOK_BIT_NOT) {
-            GrayType *bn_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.prefix.right) : NULL;
-            if (bn_t && bn_t->kind == TK_BYTE) {
-                emit(codegen, "((uint8_t)(~(");
-                emit_expression(codegen, node->data.prefix.right);
-                emit(codegen, ")))");
-            } else {
-                emit(codegen, "(~(");
-                emit_expression(codegen, node->data.prefix.right);
-                emit(codegen, "))");
-            }
+            const char *narrow = narrow_operand_c_type(codegen, node->data.prefix.right);
+            if (narrow) emit_formatted(codegen, "((%s)", narrow);
+            emit(codegen, "(~(");
+            emit_expression(codegen, node->data.prefix.right);
+            emit(codegen, "))");
+            if (narrow) emit(codegen, ")");
             break;
         }
         emit(codegen, "(");
@@ -2050,12 +2305,16 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         if (op == TOK_BIT_SHIFT_LEFT || op == TOK_BIT_SHIFT_RIGHT) {
             const char *c_op = operator_to_c_string(op);
             bool left_is_literal = node->data.infix.left->kind == NODE_INT_VALUE;
+            const char *narrow = narrow_operand_c_type(codegen, node->data.infix.left);
             emit(codegen, "({ int64_t _sa = (int64_t)(");
             emit_expression(codegen, node->data.infix.right);
-            emit_formatted(codegen, "); if (_sa < 0 || _sa >= 64) { gray_panic_code_at(\"%s\", %d, \"P0092\", \"shift amount %%lld is out of range; must be in [0, 63]\", (long long)_sa); } (", codegen->file, node->token.line);
+            emit_formatted(codegen, "); if (_sa < 0 || _sa >= 64) { gray_panic_code_at(\"%s\", %d, \"P0092\", \"shift amount %%lld is out of range; must be in [0, 63]\", (long long)_sa); } ", codegen->file, node->token.line);
+            /* A narrow operand is shifted at full width; the result has its type. */
+            if (narrow) emit_formatted(codegen, "(%s)((int64_t)", narrow);
+            emit(codegen, "(");
             if (left_is_literal) emit(codegen, "(int64_t)");
             emit_expression(codegen, node->data.infix.left);
-            emit_formatted(codegen, ") %s (int)_sa; })", c_op);
+            emit_formatted(codegen, ") %s (int)_sa%s; })", c_op, narrow ? ")" : "");
             break;
         }
 
@@ -2066,35 +2325,19 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* Check if right side is a range expression: x in range(a, b) */
             if (node->data.infix.right->kind == NODE_RANGE_EXPR) {
                 AstNode *range = node->data.infix.right;
-                if (negated) emit(codegen, "!(");
-                emit(codegen, "(");
-                emit_expression(codegen, node->data.infix.left);
-                emit(codegen, " >= ");
-                if (range->data.range_expr.start) {
-                    emit_expression(codegen, range->data.range_expr.start);
-                } else {
-                    emit(codegen, "0");
-                }
-                emit(codegen, " && ");
+                if (negated) emit(codegen, "!");
+                emit(codegen, codegen->in_const_decl ? "GRAY_IN_CONST_RANGE(" : "gray_in_range(");
                 emit_expression(codegen, node->data.infix.left);
-                emit(codegen, " < ");
+                emit(codegen, ", ");
+                if (range->data.range_expr.start) emit_expression(codegen, range->data.range_expr.start);
+                else emit(codegen, "0");
+                emit(codegen, ", ");
                 emit_expression(codegen, range->data.range_expr.end);
-                /* Step check: value must be at a step interval from start */
-                if (range->data.range_expr.step) {
-                    emit(codegen, " && (");
-                    emit_expression(codegen, node->data.infix.left);
-                    emit(codegen, " - ");
-                    if (range->data.range_expr.start) {
-                        emit_expression(codegen, range->data.range_expr.start);
-                    } else {
-                        emit(codegen, "0");
-                    }
-                    emit(codegen, ") % ");
-                    emit_expression(codegen, range->data.range_expr.step);
-                    emit(codegen, " == 0");
-                }
-                emit(codegen, ")");
-                if (negated) emit(codegen, ")");
+                emit(codegen, ", ");
+                if (range->data.range_expr.step) emit_expression(codegen, range->data.range_expr.step);
+                else emit(codegen, "1");
+                if (codegen->in_const_decl) emit(codegen, ")");
+                else emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
                 break;
             }
 
@@ -6829,34 +7072,10 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
             typed_sig = callee_t->func_sig;
         }
         AstNode *ref_func = NULL;
-        /* Always scan, even when typed_sig is set: the FuncSig in the
-         * AST decl carries default values that the typed-func sig does
-         * not, so the scan is needed for the defaults-fill path below. */
+        /* Look the function up even when typed_sig is set: its declaration
+         * carries default values that the typed-func sig does not. */
         {
-            for (int si = 0; si < codegen->func_count && !ref_func; si++) {
-                AstNode *fn_decl = codegen->all_funcs[si];
-                if (!fn_decl->data.func_decl.body) continue;
-                for (int bi = 0; bi < fn_decl->data.func_decl.body->data.block.count && !ref_func; bi++) {
-                    AstNode *st = fn_decl->data.func_decl.body->data.block.stmts[bi];
-                    if (st->kind == NODE_VAR_DECL &&
-                        strcmp(st->data.var_decl.name, fn_name) == 0 &&
-                        st->data.var_decl.value &&
-                        st->data.var_decl.value->kind == NODE_FUNC_REF) {
-                        AstNode *fref = st->data.var_decl.value->data.func_ref.function;
-                        if (fref->kind == NODE_LABEL) {
-                            ref_func = find_function(codegen, fref->data.label.value);
-                        } else if (fref->kind == NODE_MEMBER_EXPR &&
-                                   fref->data.member.object &&
-                                   fref->data.member.object->kind == NODE_LABEL) {
-                            const char *resolved_obj = fref->data.member.object->data.label.value;
-                            const char *resolved_member = fref->data.member.member;
-                            char resolved_name[IDENT_BUF];
-                            snprintf(resolved_name, sizeof(resolved_name), "%s_%s", resolved_obj, resolved_member);
-                            ref_func = find_function(codegen, resolved_name);
-                        }
-                    }
-                }
-            }
+            ref_func = find_referenced_function(codegen, fn_name);
             if (ref_func) target_func = ref_func;
         }
         /* Return type: typed_sig wins, else fall back to call-node type table */
@@ -7232,6 +7451,7 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node);
 
 static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     const char *saved_var_type = codegen->current_var_type;
+    note_function_reference(codegen, node);
     emit_typed_declaration(codegen, node);
     codegen->current_var_type = saved_var_type;
 }
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index 3bd1911..ac4f752 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -165,6 +165,20 @@ static inline void gray_exit_func(void) {
     gray_call_depth--;
 }
 
+/* Does range(start, end, step) produce the value? */
+static inline bool gray_in_range(__int128 value, __int128 start, __int128 end, __int128 step, const char *file, int line) {
+    if (step == 0)
+        gray_panic_code_at(file, line, "P0090", "range step cannot be zero");
+    if (step > 0)
+        return value >= start && value < end && (value - start) % step == 0;
+    return value <= start && value > end && (start - value) % -step == 0;
+}
+
+/* The same for constant operands, usable in a file-scope initialiser. */
+#define GRAY_IN_CONST_RANGE(value, start, end, step) ((step) > 0 \
+    ? (value) >= (start) && (value) < (end) && ((__int128)(value) - (start)) % (step) == 0 \
+    : (value) <= (start) && (value) > (end) && ((__int128)(start) - (value)) % (step) == 0)
+
 /* Overflow-checked integer arithmetic */
 static inline int64_t gray_add_check(int64_t a, int64_t b, const char *file, int line) {
     int64_t result;
-- 
2.43.0


From 1500530d185dede5c0aa83c3b5477ba3c9e682a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:25:58 +0000
Subject: [PATCH 15/56] fix: leaving for_each by return unlocks the collection;
 map iteration keys, contains_value, is_equal and clear are correct for every
 type

---
 grayc/src/codegen/codegen.c | 227 +++++++++++++++---------------------
 grayc/src/codegen/codegen.h |   6 +
 grayc/src/runtime/map.c     |   2 +
 grayc/src/stdlib/maps.c     |  35 +++---
 grayc/src/stdlib/maps.h     |   7 +-
 5 files changed, 122 insertions(+), 155 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 2d34ded..3936b3f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4654,43 +4654,40 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
     }
     if (strcmp(func, "is_equal") == 0 && node->data.call.arg_count == 2) {
         GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        bool str_keys = map_t && map_t->key_type && strcmp(map_t->key_type, "string") == 0;
-        bool str_values = map_t && map_t->value_type && strcmp(map_t->value_type, "string") == 0;
+        const char *c_val_type = "int64_t";
+        if (map_t && map_t->value_type) c_val_type = gray_map_element_c_type(codegen, map_t->value_type);
         emit(codegen, "gray_maps_is_equal(");
         emit_address_of(codegen, node->data.call.args[0], "_m0");
         emit(codegen, ", ");
         emit_address_of(codegen, node->data.call.args[1], "_m1");
-        emit_formatted(codegen, ", %s, %s)", str_keys ? "true" : "false", str_values ? "true" : "false");
+        emit_formatted(codegen, ", %s)", gray_map_key_kind_macro(c_val_type));
         return true;
     }
     if (strcmp(func, "contains_value") == 0 && node->data.call.arg_count == 2) {
-        /* Determine value type from map to ensure correct size */
         GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *c_val_type = "int64_t";
-        if (map_t && map_t->value_type) {
-            GrayType *vt = type_from_name(map_t->value_type);
-            if (vt->kind == TK_FLOAT) c_val_type = "double";
-            else if (vt->kind == TK_BOOL) c_val_type = "bool";
-            else if (vt->kind == TK_STRING) c_val_type = "GrayString";
-        }
+        if (map_t && map_t->value_type) c_val_type = gray_map_element_c_type(codegen, map_t->value_type);
         emit_formatted(codegen, "({ %s _cv = ", c_val_type);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; gray_maps_contains_value(");
         emit_address_of(codegen, node->data.call.args[0], "_ma");
-        emit(codegen, ", &_cv); })");
+        emit_formatted(codegen, ", &_cv, %s); })", gray_map_key_kind_macro(c_val_type));
         return true;
     }
     if (strcmp(func, "get_or_default") == 0 && node->data.call.arg_count == 3) {
-        /* get_or_default(m, key, default); lookup key, return default if missing */
-        emit(codegen, "({ __auto_type _gk = ");
+        /* get_or_default(m, key, default); lookup key, return default if missing.
+         * The buffers have the map's storage types. */
+        GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
+        const char *c_key = "int64_t", *c_val = "int64_t";
+        if (map_t && map_t->key_type) c_key = gray_map_element_c_type(codegen, map_t->key_type);
+        if (map_t && map_t->value_type) c_val = gray_map_element_c_type(codegen, map_t->value_type);
+        emit_formatted(codegen, "({ %s _gk = ", c_key);
         emit_expression(codegen, node->data.call.args[1]);
+        emit_formatted(codegen, "; %s _gd = ", c_val);
+        emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, "; void *_gv = gray_map_get(");
         emit_address_of(codegen, node->data.call.args[0], "_ma");
-        emit(codegen, ", &_gk); _gv ? *(__typeof__(");
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, ") *)_gv : ");
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, "; })");
+        emit_formatted(codegen, ", &_gk); _gv ? *(%s *)_gv : _gd; })", c_val);
         return true;
     }
     return false;
@@ -8547,7 +8544,50 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
     emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
 }
 
+/* Emit the collection of a for_each into its snapshot and, when it can be
+ * modified by name inside the loop, mark it as iterating. */
+static bool begin_iteration(CodeGen *codegen, AstNode *coll, bool is_map, int id) {
+    const char *type = is_map ? "GrayMap" : "GrayArray";
+    AstNode *root = coll;
+    while (root->kind == NODE_MEMBER_EXPR) root = root->data.member.object;
+    if (root->kind != NODE_LABEL || (!is_map && coll->kind != NODE_LABEL)) {
+        emit_expression(codegen, coll);
+        emit(codegen, ";\n");
+        emit_indent(codegen);
+        return false;
+    }
+    emit_expression(codegen, coll);
+    emit(codegen, ";\n");
+    emit_indent(codegen);
+    emit_formatted(codegen, "%s *_gray_src%d = &", type, id);
+    emit_expression(codegen, coll);
+    emit_formatted(codegen, "; int32_t _gray_iter%d = _gray_src%d->iterating; _gray_src%d->iterating = _gray_iter%d + 1;\n",
+                   id, id, id, id);
+    emit_indent(codegen);
+    if (codegen->iteration_count >= codegen->iteration_cap) {
+        codegen->iteration_cap = codegen->iteration_cap ? codegen->iteration_cap * 2 : 8;
+        codegen->iteration_ids = xrealloc(codegen->iteration_ids, sizeof(int) * (size_t)codegen->iteration_cap);
+    }
+    codegen->iteration_ids[codegen->iteration_count++] = id;
+    return true;
+}
+
+static void end_iteration(CodeGen *codegen) {
+    int id = codegen->iteration_ids[--codegen->iteration_count];
+    emit_formatted(codegen, "_gray_src%d->iterating = _gray_iter%d; ", id, id);
+}
+
+/* A return leaves every enclosing for_each: restore their marks. */
+static void emit_iteration_unwind(CodeGen *codegen) {
+    for (int i = codegen->iteration_count - 1; i >= 0; i--) {
+        emit_indent(codegen);
+        emit_formatted(codegen, "_gray_src%d->iterating = _gray_iter%d;\n",
+                       codegen->iteration_ids[i], codegen->iteration_ids[i]);
+    }
+}
+
 static void emit_return_statement(CodeGen *codegen, AstNode *node) {
+    emit_iteration_unwind(codegen);
     /* Caller-arena functions have no _scope_mark to restore. */
     bool caller_arena = codegen->current_func &&
                         function_uses_caller_arena(codegen->current_func);
@@ -9106,85 +9146,48 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
         const char *idx_name = node->data.for_each.index_name;
         if (!idx_name) idx_name = "_gray_idx";
         bool is_map_iter = (coll_t && coll_t->kind == TK_MAP);
-        /* When the collection is a non-assignable expression (function
-         * call, literal, etc.) it is an rvalue in C and cannot be
-         * mutated (.iterating++) or addressed (&coll). Both the array
-         * and map branches materialize a named C temporary. */
-        bool coll_needs_tmp = false;
-        char arr_tmp_name[SHORT_VAR_BUF];
-        arr_tmp_name[0] = '\0';
-        bool map_needs_tmp = false;
-        char map_tmp_name[SHORT_VAR_BUF];
-        map_tmp_name[0] = '\0';
+        bool is_string_iter = (coll_t && coll_t->kind == TK_STRING);
+        static int iteration_counter = 0;
+        int iter_id = iteration_counter++;
+        bool marks = false;
+        if (!is_string_iter) {
+            /* The loop runs over a snapshot of the collection's header, so it
+             * sees the elements present when it began. A named collection is
+             * marked as iterating until the loop is left. */
+            emit_formatted(codegen, "{ %s _gray_coll%d = ", is_map_iter ? "GrayMap" : "GrayArray", iter_id);
+            marks = begin_iteration(codegen, coll, is_map_iter, iter_id);
+        }
 
         if (is_map_iter) {
-            /* for_each on map; iterate occupied slots with internal counter */
-            static int map_iter_counter = 0;
-            char mi_name[SHORT_VAR_BUF];
-            snprintf(mi_name, sizeof(mi_name), "_gray_mi%d", map_iter_counter++);
-
+            /* for_each on map; visit the occupied slots in insertion order */
             const char *c_key = "GrayString";
             const char *c_val = "int64_t";
-            if (coll_t->key_type) {
-                GrayType *kt = type_from_name(coll_t->key_type);
-                if (kt->kind == TK_INT || kt->kind == TK_UINT) c_key = "int64_t";
-            }
+            if (coll_t->key_type) c_key = gray_map_element_c_type(codegen, coll_t->key_type);
             if (coll_t->value_type) c_val = gray_map_element_c_type(codegen, coll_t->value_type);
 
-            map_needs_tmp = (coll->kind != NODE_LABEL);
-            if (map_needs_tmp) {
-                snprintf(map_tmp_name, sizeof(map_tmp_name), "_gray_map%d", map_iter_counter - 1);
-                emit_formatted(codegen, "{ GrayMap %s = ", map_tmp_name);
-                emit_expression(codegen, coll);
-                emit(codegen, ";\n");
-                emit_indent(codegen);
-            }
-
-            /* Iterate in insertion order using the order array */
-            char slot_name[SHORT_VAR_BUF];
-            snprintf(slot_name, sizeof(slot_name), "_gray_sl%d", map_iter_counter - 1);
-            /* Guard against mutation during iteration */
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit(codegen, ".iterating++;\n");
-            emit_indent(codegen);
-            emit_formatted(codegen, "for (int32_t %s = 0; %s < ", mi_name, mi_name);
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit_formatted(codegen, ".order_len; %s++) {\n", mi_name);
+            emit_formatted(codegen, "for (int32_t _gray_mi%d = 0; _gray_mi%d < _gray_coll%d.order_len; _gray_mi%d++) {\n",
+                           iter_id, iter_id, iter_id, iter_id);
             codegen->indent++;
             emit_indent(codegen);
-            emit_formatted(codegen, "int32_t %s = ", slot_name);
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit_formatted(codegen, ".order[%s];\n", mi_name);
+            emit_formatted(codegen, "int32_t _gray_sl%d = _gray_coll%d.order[_gray_mi%d];\n", iter_id, iter_id, iter_id);
 
             if (node->data.for_each.index_name) {
                 /* Two-var form: for_each k, v in map */
                 if (strcmp(node->data.for_each.index_name, "_") != 0) {
                     emit_indent(codegen);
-                    emit_formatted(codegen, "%s %s = *(%s *)gray_map_key_at(&",
-                        c_key, sanitize_name(node->data.for_each.index_name), c_key);
-                    if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-                    else emit_expression(codegen, coll);
-                    emit_formatted(codegen, ", %s);\n", slot_name);
+                    emit_formatted(codegen, "%s %s = *(%s *)gray_map_key_at(&_gray_coll%d, _gray_sl%d);\n",
+                        c_key, sanitize_name(node->data.for_each.index_name), c_key, iter_id, iter_id);
                 }
                 if (strcmp(node->data.for_each.var_name, "_") != 0) {
                     emit_indent(codegen);
-                    emit_formatted(codegen, "%s %s = *(%s *)gray_map_value_at(&",
-                        c_val, sanitize_name(node->data.for_each.var_name), c_val);
-                    if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-                    else emit_expression(codegen, coll);
-                    emit_formatted(codegen, ", %s);\n", slot_name);
+                    emit_formatted(codegen, "%s %s = *(%s *)gray_map_value_at(&_gray_coll%d, _gray_sl%d);\n",
+                        c_val, sanitize_name(node->data.for_each.var_name), c_val, iter_id, iter_id);
                 }
             } else {
                 /* One-var form: for_each key in map (keys only) */
                 emit_indent(codegen);
-                emit_formatted(codegen, "%s %s = *(%s *)gray_map_key_at(&",
-                    c_key, sanitize_name(node->data.for_each.var_name), c_key);
-                if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-                else emit_expression(codegen, coll);
-                emit_formatted(codegen, ", %s);\n", slot_name);
+                emit_formatted(codegen, "%s %s = *(%s *)gray_map_key_at(&_gray_coll%d, _gray_sl%d);\n",
+                    c_key, sanitize_name(node->data.for_each.var_name), c_key, iter_id, iter_id);
             }
         } else if (coll_t && coll_t->kind == TK_STRING) {
             /* for_each ch in "string" → iterate characters */
@@ -9221,73 +9224,21 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                 }
             }
 
-            /* Snapshot the array length at loop start so appending during
-             * iteration doesn't cause an infinite loop. The loop visits
-             * only the elements that existed when for_each began. */
-            static int arr_iter_counter = 0;
-            char len_name[SHORT_VAR_BUF];
-            snprintf(len_name, sizeof(len_name), "_gray_alen%d", arr_iter_counter++);
-            /* When the collection is a non-assignable expression (inline array
-             * literal, function return, etc.) it is an rvalue in C and
-             * cannot be mutated (.iterating++) or addressed (GRAY_ARRAY_GET).
-             * Assign it to a named temporary first. */
-            coll_needs_tmp = (coll->kind != NODE_LABEL);
-            if (coll_needs_tmp) {
-                snprintf(arr_tmp_name, sizeof(arr_tmp_name), "_gray_arr%d", arr_iter_counter - 1);
-                emit_formatted(codegen, "{ GrayArray %s = ", arr_tmp_name);
-                emit_expression(codegen, coll);
-                emit(codegen, ";\n");
-                emit_indent(codegen);
-            }
-            emit_formatted(codegen, "{ int32_t %s = ", len_name);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.len;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".len;\n"); }
-            /* Guard against mutation during iteration */
-            emit_indent(codegen);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.iterating++;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".iterating++;\n"); }
-            emit_indent(codegen);
-            emit_formatted(codegen, "for (int32_t %s = 0; %s < %s; %s++) {\n", idx_name, idx_name, len_name, idx_name);
+            emit_formatted(codegen, "for (int32_t %s = 0; %s < _gray_coll%d.len; %s++) {\n", idx_name, idx_name, iter_id, idx_name);
             codegen->indent++;
             emit_indent(codegen);
-            emit_formatted(codegen, "%s %s = GRAY_ARRAY_GET(", c_elem, sanitize_name(node->data.for_each.var_name));
-            if (coll_needs_tmp) emit_formatted(codegen, "%s, %s, %s);\n", arr_tmp_name, c_elem, idx_name);
-            else { emit_expression(codegen, coll); emit_formatted(codegen, ", %s, %s);\n", c_elem, idx_name); }
+            emit_formatted(codegen, "%s %s = GRAY_ARRAY_GET(_gray_coll%d, %s, %s);\n",
+                           c_elem, sanitize_name(node->data.for_each.var_name), iter_id, c_elem, idx_name);
         }
 
         emit_loop_body_with_arena(codegen, node->data.for_each.body);
         codegen->indent--;
         emit_indent(codegen);
         emit(codegen, "}\n");
-        /* Decrement map iteration guard */
-        if (is_map_iter) {
-            emit_indent(codegen);
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit(codegen, ".iterating--;\n");
-            if (map_needs_tmp) {
-                emit_indent(codegen);
-                emit(codegen, "}\n");
-            }
-        }
-        /* Close extra scope for string iteration */
-        if (coll_t && coll_t->kind == TK_STRING) {
-            emit_indent(codegen);
-            emit(codegen, "}\n");
-        }
-        /* Decrement array iteration guard, then close the snapshot block */
-        if (coll_t && coll_t->kind != TK_MAP && coll_t->kind != TK_STRING) {
-            emit_indent(codegen);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.iterating--;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".iterating--;\n"); }
-            emit_indent(codegen);
-            emit(codegen, "}\n");
-            /* Close the outer temporary block if we materialized a C temp */
-            if (coll_needs_tmp) {
-                emit_indent(codegen);
-                emit(codegen, "}\n");
-            }
-        }
+        /* Close the block around the loop and drop the iteration mark */
+        emit_indent(codegen);
+        if (marks) end_iteration(codegen);
+        emit(codegen, "}\n");
         break;
     }
     case NODE_WHILE_STMT:
@@ -9630,6 +9581,9 @@ CodeGen codegen_create(const char *file) {
     codegen.scope_arenas = NULL;
     codegen.scope_arena_count = 0;
     codegen.scope_arena_cap = 0;
+    codegen.iteration_ids = NULL;
+    codegen.iteration_count = 0;
+    codegen.iteration_cap = 0;
     codegen.ns_func_names = NULL;
     codegen.ns_func_name_count = 0;
     codegen.ns_func_name_cap = 0;
@@ -10340,6 +10294,7 @@ void codegen_destroy(CodeGen *codegen) {
     free(codegen->imported_modules);
     free(codegen->c_headers);
     free(codegen->scope_arenas);
+    free(codegen->iteration_ids);
     for (int i = 0; i < codegen->ns_func_name_count; i++)
         free(codegen->ns_func_names[i]);
     free(codegen->ns_func_names);
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index 9e83774..6b2eb5e 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -146,6 +146,12 @@ typedef struct {
     int scope_arena_count;
     int scope_arena_cap;
 
+    /* for_each loops being emitted whose collection is marked as iterating:
+     * a return from inside them must restore the mark. */
+    int *iteration_ids;
+    int iteration_count;
+    int iteration_cap;
+
     /* top-level statements of current_func already emitted */
     int reached_stmts;
 
diff --git a/grayc/src/runtime/map.c b/grayc/src/runtime/map.c
index 72c4825..f7802d0 100644
--- a/grayc/src/runtime/map.c
+++ b/grayc/src/runtime/map.c
@@ -257,6 +257,8 @@ bool gray_map_remove(GrayMap *m, const void *key) {
 }
 
 void gray_map_clear(GrayMap *m) {
+    if (m->iterating > 0)
+        gray_panic_code("P0035", "cannot modify map during for_each iteration");
     if (m->states) memset(m->states, 0, sizeof(uint8_t) * (size_t)m->capacity);
     m->count = 0;
     m->order_len = 0;
diff --git a/grayc/src/stdlib/maps.c b/grayc/src/stdlib/maps.c
index 5723aac..7425038 100644
--- a/grayc/src/stdlib/maps.c
+++ b/grayc/src/stdlib/maps.c
@@ -70,18 +70,33 @@ GrayMap gray_maps_merge(GrayArena *arena, GrayMap *m1, GrayMap *m2) {
     return result;
 }
 
-bool gray_maps_contains_value(GrayMap *m, const void *value) {
+/* Compare two stored values of the given kind the way == does. */
+static bool values_equal(const void *a, const void *b, int32_t size, int8_t kind) {
+    if (kind == GRAY_MAP_KEY_STRING) {
+        const GrayString *sa = a, *sb = b;
+        return sa->len == sb->len && (sa->len == 0 || memcmp(sa->data, sb->data, (size_t)sa->len) == 0);
+    }
+    if (kind == GRAY_MAP_KEY_F64) {
+        double da, db;
+        memcpy(&da, a, sizeof(da));
+        memcpy(&db, b, sizeof(db));
+        return da == db;
+    }
+    return memcmp(a, b, (size_t)size) == 0;
+}
+
+bool gray_maps_contains_value(GrayMap *m, const void *value, int8_t value_kind) {
     for (int32_t order_index = 0; order_index < m->order_len; order_index++) {
         int32_t slot = m->order[order_index];
         if (m->states[slot] == 1) {
             void *val = (char *)m->values + (size_t)slot * (size_t)m->value_size;
-            if (memcmp(val, value, (size_t)m->value_size) == 0) return true;
+            if (values_equal(val, value, m->value_size, value_kind)) return true;
         }
     }
     return false;
 }
 
-bool gray_maps_is_equal(GrayMap *a, GrayMap *b, bool str_keys, bool str_values) {
+bool gray_maps_is_equal(GrayMap *a, GrayMap *b, int8_t value_kind) {
     if (a->count != b->count) return false;
     if (a->key_size != b->key_size) return false;
     if (a->value_size != b->value_size) return false;
@@ -90,18 +105,8 @@ bool gray_maps_is_equal(GrayMap *a, GrayMap *b, bool str_keys, bool str_values)
         if (a->states[slot] != 1) continue;
         void *ka = (char *)a->keys + (size_t)slot * (size_t)a->key_size;
         void *va = (char *)a->values + (size_t)slot * (size_t)a->value_size;
-        void *vb = str_keys
-            ? gray_map_get_str(b, *(GrayString *)ka)
-            : gray_map_get(b, ka);
-        if (!vb) return false;
-        if (str_values) {
-            GrayString *sa = (GrayString *)va;
-            GrayString *sb = (GrayString *)vb;
-            if (sa->len != sb->len) return false;
-            if (sa->len > 0 && memcmp(sa->data, sb->data, (size_t)sa->len) != 0) return false;
-        } else {
-            if (memcmp(va, vb, (size_t)a->value_size) != 0) return false;
-        }
+        void *vb = gray_map_get(b, ka);
+        if (!vb || !values_equal(va, vb, a->value_size, value_kind)) return false;
     }
     return true;
 }
diff --git a/grayc/src/stdlib/maps.h b/grayc/src/stdlib/maps.h
index e8d17eb..d1ea7d9 100644
--- a/grayc/src/stdlib/maps.h
+++ b/grayc/src/stdlib/maps.h
@@ -84,7 +84,7 @@ bool gray_maps_is_empty(GrayMap *m);
  *@end
  */
 /* maps.contains_value(m, value) — check if any entry has the given value */
-bool gray_maps_contains_value(GrayMap *m, const void *value);
+bool gray_maps_contains_value(GrayMap *m, const void *value, int8_t value_kind);
 
 /*@man is_equal
  *@module maps
@@ -99,11 +99,10 @@ bool gray_maps_contains_value(GrayMap *m, const void *value);
  *@end
  */
 /* maps.is_equal(a, b) — structural equality.
- * str_keys: true if keys are GrayString (look up via gray_map_get_str)
- * str_values: true if values are GrayString (compare contents, not blob)
+ * value_kind: how values compare (a GRAY_MAP_KEY_* macro).
  * Composite key/value types (nested arrays, maps, structs) are rejected
  * at typecheck and never reach this function. */
-bool gray_maps_is_equal(GrayMap *a, GrayMap *b, bool str_keys, bool str_values);
+bool gray_maps_is_equal(GrayMap *a, GrayMap *b, int8_t value_kind);
 
 /*@man merge
  *@module maps
-- 
2.43.0


From 2190385a9bd220712c9c87476046df9ea6b7f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:44:42 +0000
Subject: [PATCH 16/56] fix: elements, fields and map values are places through
 pointers, calls and nested access; fields copy on declaration; global structs
 may hold containers

---
 grayc/src/codegen/codegen.c | 98 +++++++++++++++++++++++++------------
 grayc/src/runtime/array.h   |  2 +-
 2 files changed, 69 insertions(+), 31 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 3936b3f..6901811 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -242,6 +242,27 @@ static const char *sanitize_name(const char *name) {
  * of static buffers so a handful of nested calls can each keep their
  * result alive simultaneously. */
 static const char *multi_return_base_name(const char *fn_name);
+
+/* Stable copy of a generated C type name. Callers hold on to type names while
+ * they emit nested expressions, which ask for further type names. */
+static const char *intern_c_type_name(const char *name) {
+    static char **names = NULL;
+    static int count = 0, capacity = 0;
+    for (int i = 0; i < count; i++)
+        if (strcmp(names[i], name) == 0) return names[i];
+    if (count == capacity) {
+        int grown = capacity ? capacity * 2 : 32;
+        char **resized = realloc(names, (size_t)grown * sizeof(*names));
+        if (!resized) { fprintf(stderr, "gray: out of memory\n"); exit(1); }
+        names = resized;
+        capacity = grown;
+    }
+    char *copy = strdup(name);
+    if (!copy) { fprintf(stderr, "gray: out of memory\n"); exit(1); }
+    names[count++] = copy;
+    return copy;
+}
+
 static const char *multi_return_name(AstNode *func);
 static const char *codegen_effective_type_string(CodeGen *codegen, const char *type_name) {
     if (!type_name || !codegen || !codegen->wildcard_binding) return type_name;
@@ -370,14 +391,12 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
     if (strncmp(type_name, "func(", 5) == 0) return "void *"; /* typed func; same C storage, signature lives in casts */
 
 
-    /* Pointer type: ^T; use C pointer (ring buffer avoids aliasing on recursion) */
+    /* Pointer type: ^T; use C pointer */
     if (type_name[0] == '^') {
-        static char ptrbufs[4][MSG_BUF_SIZE];
-        static int ptridx = 0;
-        char *buffer = ptrbufs[ptridx++ & 3];
+        char buffer[MSG_BUF_SIZE];
         const char *pointee = gray_type_to_c_codegen(codegen, type_name + 1);
-        snprintf(buffer, MSG_BUF_SIZE, "%s *", pointee);
-        return buffer;
+        snprintf(buffer, sizeof(buffer), "%s *", pointee);
+        return intern_c_type_name(buffer);
     }
 
     /* Array type: [T]; use GrayArray */
@@ -394,13 +413,13 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
     const char *dot = strchr(type_name, '.');
     if (dot) {
         const char *base = dot + 1;
-        static char buffer[MSG_BUF_SIZE];
+        char buffer[MSG_BUF_SIZE];
         if (codegen && codegen_is_enum(codegen, base)) {
             snprintf(buffer, sizeof(buffer), "GrayEnum_%s", base);
         } else {
             snprintf(buffer, sizeof(buffer), "GrayStruct_%s", base);
         }
-        return buffer;
+        return intern_c_type_name(buffer);
     }
 
     /* If starts with uppercase, it's a user-defined type */
@@ -411,7 +430,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
         if (us && us[1] >= 'A' && us[1] <= 'Z') is_user_type = true;
     }
     if (is_user_type) {
-        static char buffer[MSG_BUF_SIZE];
+        char buffer[MSG_BUF_SIZE];
         const char *resolved = type_name;
         /* Resolve unprefixed names from 'import and use' */
         if (codegen && type_name[0] >= 'A' && type_name[0] <= 'Z' && !strchr(type_name, '_')) {
@@ -443,7 +462,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
         } else {
             snprintf(buffer, sizeof(buffer), "GrayStruct_%s", resolved);
         }
-        return buffer;
+        return intern_c_type_name(buffer);
     }
 
     return type_name;
@@ -2597,9 +2616,9 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
     case NODE_POSTFIX_EXPR:
         if (node->data.postfix.op == TOK_CARET) {
             /* Pointer dereference: p^ → (*p) with nil check */
-            emit(codegen, "({ __auto_type _dp = ");
+            emit(codegen, "(*({ __auto_type _dp = ");
             emit_expression(codegen, node->data.postfix.left);
-            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } *_dp; })", codegen->file, node->token.line);
+            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp; }))", codegen->file, node->token.line);
         } else if (node->data.postfix.op == TOK_INCREMENT) {
             /* Overflow-checked increment; sized types need bounds check */
             GrayType *postfix_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.postfix.left) : NULL;
@@ -2897,9 +2916,9 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 is_reference_variable(codegen, node->data.member.object->data.label.value));
             if (!obj_is_ref && obj_t && obj_t->kind == TK_POINTER) {
                 /* Nil-guarded pointer field access */
-                emit(codegen, "({ __auto_type _dp = ");
+                emit(codegen, "(*({ __auto_type _dp = ");
                 emit_expression(codegen, node->data.member.object);
-                emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s; })",
+                emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } &_dp->%s; }))",
                     codegen->file, node->token.line, sanitize_name(node->data.member.member));
             } else if (!obj_is_ref && obj_t && obj_t->kind == TK_ERROR) {
                 emit_expression(codegen, node->data.member.object);
@@ -2945,19 +2964,19 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             if (arr_ptr_obj) {
                 static int arr_dp_ctr = 0;
                 int my_dp = arr_dp_ctr++;
-                emit_formatted(codegen, "({ __auto_type _adp%d = ", my_dp);
+                emit_formatted(codegen, "(*({ __auto_type _adp%d = ", my_dp);
                 emit_expression(codegen, arr_ptr_obj);
                 emit_formatted(codegen, "; if (!_adp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                          "GRAY_ARRAY_GET(_adp%d->%s, %s, ",
+                          "&GRAY_ARRAY_GET(_adp%d->%s, %s, ",
                       my_dp, codegen->file, node->token.line, my_dp, sanitize_name(arr_ptr_field), c_elem);
                 emit_expression(codegen, node->data.index_expr.index);
-                emit(codegen, "); })");
+                emit(codegen, "); }))");
             } else if (node->data.index_expr.left->kind == NODE_CALL_EXPR) {
-                emit_formatted(codegen, "({ GrayArray _ea = ");
+                emit_formatted(codegen, "(*({ GrayArray _ea = ");
                 emit_expression(codegen, node->data.index_expr.left);
-                emit_formatted(codegen, "; GRAY_ARRAY_GET(_ea, %s, ", c_elem);
+                emit_formatted(codegen, "; &GRAY_ARRAY_GET(_ea, %s, ", c_elem);
                 emit_expression(codegen, node->data.index_expr.index);
-                emit(codegen, "); })");
+                emit(codegen, "); }))");
             } else {
                 emit_formatted(codegen, "GRAY_ARRAY_GET(");
                 emit_expression(codegen, node->data.index_expr.left);
@@ -2985,19 +3004,19 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                     map_is_rvalue = true;
             }
             if (map_is_rvalue) {
-                emit_formatted(codegen, "({ GrayMap _mt = ");
+                emit_formatted(codegen, "(*({ GrayMap _mt = ");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, "; %s _mk = ", c_key);
                 emit_expression(codegen, node->data.index_expr.index);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&_mt, &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
-                emit_formatted(codegen, "*(%s *)_mv; })", c_val);
+                emit_formatted(codegen, "(%s *)_mv; }))", c_val);
             } else {
-                emit_formatted(codegen, "({ %s _mk = ", c_key);
+                emit_formatted(codegen, "(*({ %s _mk = ", c_key);
                 emit_expression(codegen, node->data.index_expr.index);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
-                emit_formatted(codegen, "*(%s *)_mv; })", c_val);
+                emit_formatted(codegen, "(%s *)_mv; }))", c_val);
             }
         } else if (left_t && left_t->kind == TK_STRING) {
             /* String indexing with bounds check: s.data[i] */
@@ -4559,7 +4578,8 @@ static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
 static bool expression_is_assignable(AstNode *expr) {
     return expr->kind == NODE_LABEL ||
            expr->kind == NODE_MEMBER_EXPR ||
-           expr->kind == NODE_INDEX_EXPR;
+           expr->kind == NODE_INDEX_EXPR ||
+           (expr->kind == NODE_POSTFIX_EXPR && expr->data.postfix.op == TOK_CARET);
 }
 
 /* Emit &expr, materialising rvalues into a statement-expression temporary.
@@ -5437,7 +5457,7 @@ static void emit_array_argument_address(CodeGen *codegen, AstNode *arg) {
     /* Default: take address of the expression directly.
      * If the expression is an rvalue (e.g. a function call), materialise it
      * into a statement-expression temporary so the generated C is valid. */
-    if (arg->kind == NODE_LABEL || arg->kind == NODE_MEMBER_EXPR || arg->kind == NODE_INDEX_EXPR) {
+    if (expression_is_assignable(arg)) {
         emit(codegen, "&");
         emit_expression(codegen, arg);
     } else if (!emit_rvalue_address(codegen, arg)) {
@@ -7505,7 +7525,7 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
         if (is_nested_array_type(type_name)) {
             codegen->current_var_type = type_name;
             AstNode *init = node->data.var_decl.value;
-            bool label_init = init && init->kind == NODE_LABEL;
+            bool label_init = init && (init->kind == NODE_LABEL || init->kind == NODE_MEMBER_EXPR);
             const char *label_elem_tn = NULL;
             if (label_init) {
                 GrayType *src_t = codegen->type_table
@@ -7596,7 +7616,8 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
             Buf saved = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
             emit_formatted(codegen, "    %s = ", sanitize_name(node->data.var_decl.name));
             if (node->data.var_decl.value &&
-                node->data.var_decl.value->kind == NODE_LABEL) {
+                (node->data.var_decl.value->kind == NODE_LABEL ||
+                 node->data.var_decl.value->kind == NODE_MEMBER_EXPR)) {
                 int tag = next_deep_copy_tag();
                 char src_var[VAR_NAME_BUF];
                 snprintf(src_var, sizeof(src_var), "_ms%d", tag);
@@ -7621,7 +7642,8 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
 
         emit_formatted(codegen, "GrayMap %s = ", sanitize_name(node->data.var_decl.name));
         if (node->data.var_decl.value &&
-            node->data.var_decl.value->kind == NODE_LABEL) {
+            (node->data.var_decl.value->kind == NODE_LABEL ||
+             node->data.var_decl.value->kind == NODE_MEMBER_EXPR)) {
             /* Copy-by-default: deep copy when assigning a map from another
              * variable so mutations to the copy don't alias the original. */
             int tag = next_deep_copy_tag();
@@ -7763,6 +7785,21 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
         }
     }
 
+    /* A global struct with array, map or string fields is initialised at start
+     * like a global array or map: its initialiser is not a C constant. */
+    if (codegen->indent == 0 && node->data.var_decl.value &&
+        node->data.var_decl.value->kind == NODE_STRUCT_VALUE &&
+        strncmp(c_type, "GrayStruct_", strlen("GrayStruct_")) == 0 &&
+        type_needs_deep_copy(codegen, type_name ? type_name : node->data.var_decl.value->data.struct_value.name)) {
+        emit_formatted(codegen, "%s %s;\n", c_type, sanitize_name(node->data.var_decl.name));
+        Buf file_output = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
+        emit_formatted(codegen, "    %s = ", sanitize_name(node->data.var_decl.name));
+        emit_expression(codegen, node->data.var_decl.value);
+        emit(codegen, ";\n");
+        codegen->global_init = codegen->output; codegen->output = file_output; codegen->indent = 0;
+        return;
+    }
+
     if (!node->data.var_decl.mutable) {
         if (type_name && type_name[0] == '^') {
             /* const pointer: T * const p — the pointer is immutable, not the
@@ -7881,7 +7918,8 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
             /* addr() assigned to integer type; cast pointer to uintptr_t */
             emit(codegen, "(uintptr_t)");
             emit_expression(codegen, node->data.var_decl.value);
-        } else if (node->data.var_decl.value->kind == NODE_LABEL &&
+        } else if ((node->data.var_decl.value->kind == NODE_LABEL ||
+                    node->data.var_decl.value->kind == NODE_MEMBER_EXPR) &&
                    type_name && type_needs_deep_copy(codegen, type_name)) {
             /* Copy-by-default: deep copy structs (and maps) that contain
              * arrays/maps/strings so the copy is fully independent. */
diff --git a/grayc/src/runtime/array.h b/grayc/src/runtime/array.h
index 7fa8813..d16b2dc 100644
--- a/grayc/src/runtime/array.h
+++ b/grayc/src/runtime/array.h
@@ -44,7 +44,7 @@ GrayArray gray_array_copy(GrayArena *arena, GrayArray *src);
 
 /* Typed access macros */
 #define GRAY_ARRAY_GET(arr, type, i) (*(type *)gray_array_get_ptr(&(arr), (i), __FILE__, __LINE__))
-#define GRAY_ARRAY_SET(arr, type, i, val) do { type _v = (val); gray_array_set(&(arr), (i), &_v, __FILE__, __LINE__); } while(0)
+#define GRAY_ARRAY_SET(arr, type, i, ...) do { type _v = (__VA_ARGS__); gray_array_set(&(arr), (i), &_v, __FILE__, __LINE__); } while(0)
 
 /* Create from typed literal — helper macros */
 #define GRAY_ARRAY_FROM_I64(arena, ...) \
-- 
2.43.0


From 8b196b82890ebbc3c50ff054ec154a002e314bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:27 +0000
Subject: [PATCH 17/56] fix: strconv parses the whole text, of any length, and
 from_float keeps every digit

---
 grayc/src/stdlib/strconv.c | 179 +++++++++++++++++--------------------
 grayc/src/stdlib/strconv.h |   8 +-
 2 files changed, 85 insertions(+), 102 deletions(-)

diff --git a/grayc/src/stdlib/strconv.c b/grayc/src/stdlib/strconv.c
index 7b77eec..200f24c 100644
--- a/grayc/src/stdlib/strconv.c
+++ b/grayc/src/stdlib/strconv.c
@@ -13,64 +13,85 @@
 #include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
+#include <math.h>
+#include <string.h>
 #include <strings.h>
 
 #define STRCONV_BUF_SIZE 64
 
-/* --- Panicking conversions --- */
+/* NUL-terminated copy of the whole text: in buf when it fits, else allocated. */
+static char *strconv_text(GrayString s, char *buf) {
+    char *text = s.len < STRCONV_BUF_SIZE ? buf : (char *)gray_arena_alloc(gray_default_arena, (size_t)s.len + 1);
+    memcpy(text, s.data, (size_t)s.len);
+    text[s.len] = '\0';
+    return text;
+}
 
-int64_t gray_strconv_to_int(GrayString s, int base) {
-    if (base < 2 || base > 36)
-        gray_panic_code("P0054", "strconv.to_int: invalid base %d; must be between 2 and 36", base);
+/* The parse functions accept the text only if it is used up completely; an
+ * embedded NUL byte is not the end of it. */
+static bool parse_signed(GrayString s, int base, int64_t *out) {
+    char buf[STRCONV_BUF_SIZE];
+    char *text = strconv_text(s, buf), *end = NULL;
+    if (s.len == 0 || isspace((unsigned char)text[0])) return false;
+    errno = 0;
+    *out = strtoll(text, &end, base);
+    return end == text + s.len && errno != ERANGE;
+}
+
+static bool parse_unsigned(GrayString s, int base, uint64_t *out) {
+    char buf[STRCONV_BUF_SIZE];
+    char *text = strconv_text(s, buf), *end = NULL;
+    if (s.len == 0 || isspace((unsigned char)text[0]) || text[0] == '-') return false;
+    errno = 0;
+    *out = strtoull(text, &end, base);
+    return end == text + s.len && errno != ERANGE;
+}
+
+/* Decimal notation, inf, infinity and nan; no hexadecimal floats. A value too
+ * small for a normal float still has a nearest float and is not an error. */
+static bool parse_float(GrayString s, double *out) {
     char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    if (len > 0 && isspace((unsigned char)buf[0]))
-        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", buf, base);
-    char *end = NULL;
+    char *text = strconv_text(s, buf), *end = NULL;
+    if (s.len == 0 || isspace((unsigned char)text[0])) return false;
+    if (strpbrk(text, "xX(")) return false;
     errno = 0;
-    int64_t result = strtoll(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE)
-        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", buf, base);
+    *out = strtod(text, &end);
+    return end == text + s.len && !(errno == ERANGE && isinf(*out));
+}
+
+/* --- Panicking conversions --- */
+
+int64_t gray_strconv_to_int(GrayString s, int64_t base) {
+    if (base < 2 || base > 36)
+        gray_panic_code("P0054", "strconv.to_int: invalid base %lld; must be between 2 and 36", (long long)base);
+    int64_t result;
+    if (!parse_signed(s, (int)base, &result)) {
+        char buf[STRCONV_BUF_SIZE];
+        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", strconv_text(s, buf), (int)base);
+    }
     return result;
 }
 
-uint64_t gray_strconv_to_uint(GrayString s, int base) {
+uint64_t gray_strconv_to_uint(GrayString s, int64_t base) {
     if (base < 2 || base > 36)
-        gray_panic_code("P0056", "strconv.to_uint: invalid base %d; must be between 2 and 36", base);
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    if (len > 0 && isspace((unsigned char)buf[0]))
-        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", buf, base);
-    /* Reject negative numbers */
-    for (int i = 0; i < len; i++) {
-        if (buf[i] == '-')
-            gray_panic_code("P0058", "strconv.to_uint: cannot convert '%s' to uint; value is negative", buf);
-        if (!isspace((unsigned char)buf[i])) break;
+        gray_panic_code("P0056", "strconv.to_uint: invalid base %lld; must be between 2 and 36", (long long)base);
+    uint64_t result;
+    if (!parse_unsigned(s, (int)base, &result)) {
+        char buf[STRCONV_BUF_SIZE];
+        char *text = strconv_text(s, buf);
+        if (text[0] == '-')
+            gray_panic_code("P0058", "strconv.to_uint: cannot convert '%s' to uint; value is negative", text);
+        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", text, (int)base);
     }
-    char *end = NULL;
-    errno = 0;
-    uint64_t result = strtoull(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE)
-        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", buf, base);
     return result;
 }
 
 double gray_strconv_to_float(GrayString s) {
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    if (len > 0 && isspace((unsigned char)buf[0]))
-        gray_panic_code("P0059", "strconv.to_float: cannot convert '%s' to float", buf);
-    char *end = NULL;
-    errno = 0;
-    double result = strtod(buf, &end);
-    if (end == buf || *end != '\0' || errno == ERANGE)
-        gray_panic_code("P0059", "strconv.to_float: cannot convert '%s' to float", buf);
+    double result;
+    if (!parse_float(s, &result)) {
+        char buf[STRCONV_BUF_SIZE];
+        gray_panic_code("P0059", "strconv.to_float: cannot convert '%s' to float", strconv_text(s, buf));
+    }
     return result;
 }
 
@@ -78,33 +99,19 @@ bool gray_strconv_to_bool(GrayString s) {
     if (s.len == 4 && strncasecmp(s.data, "true", 4) == 0) return true;
     if (s.len == 5 && strncasecmp(s.data, "false", 5) == 0) return false;
     char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    gray_panic_code("P0060", "strconv.to_bool: cannot convert '%s' to bool", buf);
+    gray_panic_code("P0060", "strconv.to_bool: cannot convert '%s' to bool", strconv_text(s, buf));
 }
 
 /* --- Fallible conversions (result versions) --- */
 
-GrayResult_int gray_strconv_to_int_result(GrayString s, int base) {
+GrayResult_int gray_strconv_to_int_result(GrayString s, int64_t base) {
     if (base < 2 || base > 36) {
         GrayString msg = gray_string_lit("invalid base for integer conversion (must be 2-36)");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_int){0, err};
     }
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    if (len > 0 && isspace((unsigned char)buf[0])) {
-        GrayString msg = gray_string_lit("cannot convert string to int");
-        GrayError *err = gray_error_new(gray_default_arena, msg);
-        return (GrayResult_int){0, err};
-    }
-    char *end = NULL;
-    errno = 0;
-    int64_t result = strtoll(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE) {
+    int64_t result;
+    if (!parse_signed(s, (int)base, &result)) {
         GrayString msg = gray_string_lit("cannot convert string to int");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_int){0, err};
@@ -112,35 +119,17 @@ GrayResult_int gray_strconv_to_int_result(GrayString s, int base) {
     return (GrayResult_int){result, NULL};
 }
 
-GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base) {
+GrayResult_uint gray_strconv_to_uint_result(GrayString s, int64_t base) {
     if (base < 2 || base > 36) {
         GrayString msg = gray_string_lit("invalid base for integer conversion (must be 2-36)");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_uint){0, err};
     }
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    if (len > 0 && isspace((unsigned char)buf[0])) {
-        GrayString msg = gray_string_lit("cannot convert string to uint");
-        GrayError *err = gray_error_new(gray_default_arena, msg);
-        return (GrayResult_uint){0, err};
-    }
-    /* Reject negative numbers */
-    for (int i = 0; i < len; i++) {
-        if (buf[i] == '-') {
-            GrayString msg = gray_string_lit("cannot convert negative string to uint");
-            GrayError *err = gray_error_new(gray_default_arena, msg);
-            return (GrayResult_uint){0, err};
-        }
-        if (!isspace((unsigned char)buf[i])) break;
-    }
-    char *end = NULL;
-    errno = 0;
-    uint64_t result = strtoull(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE) {
-        GrayString msg = gray_string_lit("cannot convert string to uint");
+    uint64_t result;
+    if (!parse_unsigned(s, (int)base, &result)) {
+        GrayString msg = s.len > 0 && s.data[0] == '-'
+            ? gray_string_lit("cannot convert negative string to uint")
+            : gray_string_lit("cannot convert string to uint");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_uint){0, err};
     }
@@ -148,19 +137,8 @@ GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base) {
 }
 
 GrayResult_float gray_strconv_to_float_result(GrayString s) {
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    if (len > 0 && isspace((unsigned char)buf[0])) {
-        GrayString msg = gray_string_lit("cannot convert string to float");
-        GrayError *err = gray_error_new(gray_default_arena, msg);
-        return (GrayResult_float){0.0, err};
-    }
-    char *end = NULL;
-    errno = 0;
-    double result = strtod(buf, &end);
-    if (end == buf || *end != '\0' || errno == ERANGE) {
+    double result;
+    if (!parse_float(s, &result)) {
         GrayString msg = gray_string_lit("cannot convert string to float");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_float){0.0, err};
@@ -200,7 +178,12 @@ GrayString gray_strconv_from_uint(GrayArena *arena, uint64_t n) {
 
 GrayString gray_strconv_from_float(GrayArena *arena, double f) {
     char buf[STRCONV_BUF_SIZE];
-    int len = snprintf(buf, sizeof(buf), "%g", f);
+    /* The fewest digits that still read back as the same value */
+    int len = 0;
+    for (int precision = 6; precision <= 17; precision++) {
+        len = snprintf(buf, sizeof(buf), "%.*g", precision, f);
+        if (strtod(buf, NULL) == f) break;
+    }
     char *data = (char *)gray_arena_alloc(arena, (size_t)len + 1);
     memcpy(data, buf, (size_t)len + 1);
     return (GrayString){data, (int32_t)len};
diff --git a/grayc/src/stdlib/strconv.h b/grayc/src/stdlib/strconv.h
index d81148b..0be0b07 100644
--- a/grayc/src/stdlib/strconv.h
+++ b/grayc/src/stdlib/strconv.h
@@ -33,7 +33,7 @@ typedef struct { double v0; GrayError *v1; } GrayResult_float;
  *@end
  */
 /* Panicking conversions (single-var assignment) */
-int64_t gray_strconv_to_int(GrayString s, int base);
+int64_t gray_strconv_to_int(GrayString s, int64_t base);
 
 /*@man to_uint
  *@module strconv
@@ -46,7 +46,7 @@ int64_t gray_strconv_to_int(GrayString s, int base);
  *   mut val, err = strconv.to_uint("ff", strconv.BASE_16)
  *@end
  */
-uint64_t gray_strconv_to_uint(GrayString s, int base);
+uint64_t gray_strconv_to_uint(GrayString s, int64_t base);
 
 /*@man to_float
  *@module strconv
@@ -75,8 +75,8 @@ double gray_strconv_to_float(GrayString s);
 bool gray_strconv_to_bool(GrayString s);
 
 /* Fallible conversions (multi-var destructuring) */
-GrayResult_int gray_strconv_to_int_result(GrayString s, int base);
-GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base);
+GrayResult_int gray_strconv_to_int_result(GrayString s, int64_t base);
+GrayResult_uint gray_strconv_to_uint_result(GrayString s, int64_t base);
 GrayResult_float gray_strconv_to_float_result(GrayString s);
 GrayResult_bool gray_strconv_to_bool_result(GrayString s);
 
-- 
2.43.0


From bbf67ef0420309532a6054ae8a45e2cc1cf36bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:27 +0000
Subject: [PATCH 18/56] fix: csv quotes fields on output, unquotes them on
 input, keeps trailing empty fields and reports file errors

---
 grayc/src/stdlib/csv.c | 137 +++++++++++++++++++++++++++++------------
 1 file changed, 97 insertions(+), 40 deletions(-)

diff --git a/grayc/src/stdlib/csv.c b/grayc/src/stdlib/csv.c
index d23b14e..68578f2 100644
--- a/grayc/src/stdlib/csv.c
+++ b/grayc/src/stdlib/csv.c
@@ -11,6 +11,33 @@
 #include "csv.h"
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
+
+/* Read one field starting at *pos and leave *pos behind it. Inside quotes a
+ * doubled quote stands for one quote. */
+static GrayString csv_field(GrayArena *arena, const char **pos, const char *end) {
+    const char *s = *pos;
+    if (*s != '"') {
+        while (s < end && *s != ',' && *s != '\n' && *s != '\r') s++;
+        GrayString field = gray_string_new(arena, *pos, (int32_t)(s - *pos));
+        *pos = s;
+        return field;
+    }
+    s++;
+    char *buf = gray_arena_alloc(arena, (size_t)(end - s) + 1);
+    int32_t len = 0;
+    while (s < end) {
+        if (*s == '"') {
+            if (s + 1 >= end || s[1] != '"') break;
+            s++;
+        }
+        buf[len++] = *s++;
+    }
+    if (s < end) s++; /* skip closing quote */
+    buf[len] = '\0';
+    *pos = s;
+    return (GrayString){ buf, len };
+}
 
 GrayArray gray_csv_parse(GrayArena *arena, GrayString csv_string) {
     GrayArray rows = gray_array_new(arena, sizeof(GrayArray), 8);
@@ -20,30 +47,17 @@ GrayArray gray_csv_parse(GrayArena *arena, GrayString csv_string) {
     while (s < end) {
         GrayArray row = gray_array_new(arena, sizeof(GrayString), 8);
         while (s < end && *s != '\n' && *s != '\r') {
-            const char *field_start;
-            int32_t field_length;
+            GrayString field = csv_field(arena, &s, end);
+            gray_array_push(arena, &row, &field);
 
-            if (*s == '"') {
-                /* Quoted field */
+            if (s < end && *s == ',') {
                 s++;
-                field_start = s;
-                while (s < end && !(*s == '"' && (s + 1 >= end || *(s + 1) != '"'))) {
-                    if (*s == '"' && *(s + 1) == '"') s += 2;
-                    else s++;
+                /* A comma at the end of a row is followed by an empty field */
+                if (s >= end || *s == '\n' || *s == '\r') {
+                    GrayString empty = gray_string_new(arena, "", 0);
+                    gray_array_push(arena, &row, &empty);
                 }
-                field_length = (int32_t)(s - field_start);
-                if (s < end) s++; /* skip closing quote */
-            } else {
-                /* Unquoted field */
-                field_start = s;
-                while (s < end && *s != ',' && *s != '\n' && *s != '\r') s++;
-                field_length = (int32_t)(s - field_start);
             }
-
-            GrayString field = gray_string_new(arena, field_start, field_length);
-            gray_array_push(arena, &row, &field);
-
-            if (s < end && *s == ',') s++;
         }
         gray_array_push(arena, &rows, &row);
 
@@ -54,6 +68,38 @@ GrayArray gray_csv_parse(GrayArena *arena, GrayString csv_string) {
     return rows;
 }
 
+/* Fields that hold a separator, and a row's only field when it is empty, are
+ * quoted so that they read back as the same field. */
+static bool csv_needs_quotes(GrayString field, int32_t row_len) {
+    if (field.len == 0) return row_len == 1;
+    for (int32_t i = 0; i < field.len; i++) {
+        char ch = field.data[i];
+        if (ch == ',' || ch == '"' || ch == '\n' || ch == '\r') return true;
+    }
+    return false;
+}
+
+/* Length of the field as written; writes it when out is not NULL. */
+static int32_t csv_write_field(char *out, GrayString field, int32_t row_len) {
+    if (!csv_needs_quotes(field, row_len)) {
+        if (out && field.len > 0) memcpy(out, field.data, (size_t)field.len);
+        return field.len;
+    }
+    int32_t pos = 0;
+    if (out) out[pos] = '"';
+    pos++;
+    for (int32_t i = 0; i < field.len; i++) {
+        if (field.data[i] == '"') {
+            if (out) out[pos] = '"';
+            pos++;
+        }
+        if (out) out[pos] = field.data[i];
+        pos++;
+    }
+    if (out) out[pos] = '"';
+    return pos + 1;
+}
+
 GrayString gray_csv_stringify(GrayArena *arena, GrayArray *data) {
     /* Accept [string] — each string is a pre-formatted CSV row.
      * Join with newlines. */
@@ -83,7 +129,7 @@ GrayString gray_csv_stringify(GrayArena *arena, GrayArray *data) {
         for (int32_t j = 0; j < row->len; j++) {
             if (j > 0) total++; /* comma */
             GrayString *field = (GrayString *)((char *)row->data + (size_t)j * sizeof(GrayString));
-            total += field->len;
+            total += csv_write_field(NULL, *field, row->len);
         }
         total++; /* newline */
     }
@@ -94,8 +140,7 @@ GrayString gray_csv_stringify(GrayArena *arena, GrayArray *data) {
         for (int32_t j = 0; j < row->len; j++) {
             if (j > 0) buf[pos++] = ',';
             GrayString *field = (GrayString *)((char *)row->data + (size_t)j * sizeof(GrayString));
-            memcpy(buf + pos, field->data, (size_t)field->len);
-            pos += field->len;
+            pos += csv_write_field(buf + pos, *field, row->len);
         }
         buf[pos++] = '\n';
     }
@@ -111,41 +156,53 @@ GrayArray gray_csv_headers(GrayArena *arena, GrayArray *data) {
     return gray_array_new(arena, sizeof(GrayString), 0);
 }
 
-GrayArray gray_csv_read(GrayArena *arena, GrayString path) {
+/* Read and parse the whole file; false when any part of it cannot be read. */
+static bool csv_load(GrayArena *arena, GrayString path, GrayArray *rows) {
     FILE *f = fopen(path.data, "rb");
-    if (!f) return gray_array_new(arena, sizeof(GrayArray), 1);
-    fseek(f, 0, SEEK_END);
-    long size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-    char *content = gray_arena_alloc(arena, (size_t)size + 1);
-    size_t read = fread(content, 1, (size_t)size, f);
-    content[read] = '\0';
+    if (!f) return false;
+    size_t cap = 4096, len = 0;
+    char *content = malloc(cap);
+    bool ok = content != NULL;
+    while (ok) {
+        size_t got = fread(content + len, 1, cap - len, f);
+        len += got;
+        if (got == 0) break;
+        if (len == cap) {
+            char *grown = cap <= INT32_MAX ? realloc(content, cap * 2) : NULL;
+            if (!grown) { ok = false; break; }
+            content = grown;
+            cap *= 2;
+        }
+    }
+    if (ferror(f) || len > INT32_MAX) ok = false;
     fclose(f);
-    GrayString s = { content, (int32_t)read };
-    return gray_csv_parse(arena, s);
+    if (ok) *rows = gray_csv_parse(arena, (GrayString){ content, (int32_t)len });
+    free(content);
+    return ok;
+}
+
+GrayArray gray_csv_read(GrayArena *arena, GrayString path) {
+    GrayArray rows;
+    return csv_load(arena, path, &rows) ? rows : gray_array_new(arena, sizeof(GrayArray), 1);
 }
 
 bool gray_csv_write(GrayArena *arena, GrayString path, GrayArray *data) {
     GrayString csv = gray_csv_stringify(arena, data);
     FILE *f = fopen(path.data, "wb");
     if (!f) return false;
-    fwrite(csv.data, 1, (size_t)csv.len, f);
-    fclose(f);
-    return true;
+    bool ok = fwrite(csv.data, 1, (size_t)csv.len, f) == (size_t)csv.len;
+    return fclose(f) == 0 && ok;
 }
 
 /* _result variants */
 
 GrayResult_array gray_csv_read_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    FILE *f = fopen(path.data, "rb");
-    if (!f) {
+    if (!csv_load(arena, path, &r.v0)) {
         r.v0 = gray_array_new(arena, sizeof(GrayArray), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read CSV file '%s'", path.data));
         return r;
     }
-    fclose(f);
-    r.v0 = gray_csv_read(arena, path);
     r.v1 = NULL;
     return r;
 }
-- 
2.43.0


From 40f4778dce207bd349eaca0e218899a2a953a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:27 +0000
Subject: [PATCH 19/56] fix: math integer functions panic on overflow and take
 the whole uint range

---
 grayc/src/stdlib/math.c             | 26 ++++++++++++++++++--------
 grayc/src/stdlib/math.h             | 22 +++++++++++++++++++---
 grayc/src/typechecker/typechecker.c |  6 ++++--
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/grayc/src/stdlib/math.c b/grayc/src/stdlib/math.c
index 0f1c189..9a1cd47 100644
--- a/grayc/src/stdlib/math.c
+++ b/grayc/src/stdlib/math.c
@@ -35,28 +35,38 @@ int64_t gray_math_factorial(int64_t n) {
     if (n < 0) gray_panic_code("P0070", "math.factorial() requires a non-negative integer, got %lld", (long long)n);
     if (n <= 1) return 1;
     int64_t result = 1;
-    for (int64_t i = 2; i <= n; i++) result *= i;
+    for (int64_t i = 2; i <= n; i++)
+        if (__builtin_mul_overflow(result, i, &result))
+            gray_panic_code("P0006", "math.factorial() result does not fit an int, got %lld", (long long)n);
     return result;
 }
 
 int64_t gray_math_gcd(int64_t a, int64_t b) {
-    if (a < 0) a = -a;
-    if (b < 0) b = -b;
-    while (b != 0) { int64_t t = b; b = a % b; a = t; }
-    return a;
+    uint64_t x = a < 0 ? 0 - (uint64_t)a : (uint64_t)a;
+    uint64_t y = b < 0 ? 0 - (uint64_t)b : (uint64_t)b;
+    while (y != 0) { uint64_t t = y; y = x % y; x = t; }
+    if (x > INT64_MAX) gray_panic_code("P0007", "math.gcd() result does not fit an int");
+    return (int64_t)x;
 }
 
 int64_t gray_math_lcm(int64_t a, int64_t b) {
     if (a == 0 || b == 0) return 0;
-    int64_t g = gray_math_gcd(a, b);
-    return (a / g) * b;
+    int64_t quotient = a == INT64_MIN && b == INT64_MIN ? 1 : a / gray_math_gcd(a, b);
+    int64_t result;
+    if (__builtin_mul_overflow(quotient, b, &result))
+        gray_panic_code("P0006", "math.lcm() result does not fit an int");
+    if (result < 0) {
+        if (result == INT64_MIN) gray_panic_code("P0006", "math.lcm() result does not fit an int");
+        result = -result;
+    }
+    return result;
 }
 
 bool gray_math_is_prime(int64_t n) {
     if (n < 2) return false;
     if (n < 4) return true;
     if (n % 2 == 0 || n % 3 == 0) return false;
-    for (int64_t i = 5; i * i <= n; i += 6) {
+    for (int64_t i = 5; i <= n / i; i += 6) {
         if (n % i == 0 || n % (i + 2) == 0) return false;
     }
     return true;
diff --git a/grayc/src/stdlib/math.h b/grayc/src/stdlib/math.h
index 3b0a3fe..0764dc2 100644
--- a/grayc/src/stdlib/math.h
+++ b/grayc/src/stdlib/math.h
@@ -26,7 +26,17 @@
  *   println(math.abs(-3.14))
  *@end
  */
-static inline int64_t gray_math_abs_int(int64_t n) { return n < 0 ? -n : n; }
+static inline int64_t gray_math_neg_int(int64_t n) {
+    if (n == INT64_MIN) gray_panic_code("P0007", "negation result is too large; value exceeds the range of int");
+    return -n;
+}
+static inline uint64_t gray_math_neg_uint(uint64_t n) {
+    if (n != 0) gray_panic_code("P0016", "math.neg() result is negative, but this unsigned type cannot hold negative values");
+    return 0;
+}
+static inline double gray_math_neg_float(double n) { return -n; }
+static inline int64_t gray_math_abs_int(int64_t n) { return n < 0 ? gray_math_neg_int(n) : n; }
+static inline uint64_t gray_math_abs_uint(uint64_t n) { return n; }
 static inline double  gray_math_abs_float(double n) { return fabs(n); }
 
 /*@man neg
@@ -40,7 +50,6 @@ static inline double  gray_math_abs_float(double n) { return fabs(n); }
  *   println(math.neg(-3.14))
  *@end
  */
-/* neg is handled entirely by codegen — no C function needed */
 
 /*@man sign
  *@module math
@@ -54,7 +63,9 @@ static inline double  gray_math_abs_float(double n) { return fabs(n); }
  *   println(math.sign(3))
  *@end
  */
-static inline int64_t gray_math_sign(int64_t n) { return n > 0 ? 1 : (n < 0 ? -1 : 0); }
+static inline int64_t gray_math_sign_int(int64_t n) { return n > 0 ? 1 : (n < 0 ? -1 : 0); }
+static inline int64_t gray_math_sign_uint(uint64_t n) { return n > 0; }
+static inline int64_t gray_math_sign_float(double n) { return n > 0 ? 1 : (n < 0 ? -1 : 0); }
 
 /*@man min
  *@module math
@@ -68,6 +79,7 @@ static inline int64_t gray_math_sign(int64_t n) { return n > 0 ? 1 : (n < 0 ? -1
  *@end
  */
 static inline int64_t gray_math_min_int(int64_t a, int64_t b) { return a < b ? a : b; }
+static inline uint64_t gray_math_min_uint(uint64_t a, uint64_t b) { return a < b ? a : b; }
 static inline double  gray_math_min_float(double a, double b) { return a < b ? a : b; }
 
 /*@man max
@@ -82,6 +94,7 @@ static inline double  gray_math_min_float(double a, double b) { return a < b ? a
  *@end
  */
 static inline int64_t gray_math_max_int(int64_t a, int64_t b) { return a > b ? a : b; }
+static inline uint64_t gray_math_max_uint(uint64_t a, uint64_t b) { return a > b ? a : b; }
 static inline double  gray_math_max_float(double a, double b) { return a > b ? a : b; }
 
 /*@man clamp
@@ -95,6 +108,9 @@ static inline double  gray_math_max_float(double a, double b) { return a > b ? a
  *   println(math.clamp(1.5, 0.0, 1.0))
  *@end
  */
+static inline uint64_t gray_math_clamp_uint(uint64_t v, uint64_t lo, uint64_t hi) {
+    return v < lo ? lo : (v > hi ? hi : v);
+}
 static inline int64_t gray_math_clamp_int(int64_t v, int64_t lo, int64_t hi) {
     return v < lo ? lo : (v > hi ? hi : v);
 }
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 4e0c2cd..886d3bb 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -3004,7 +3004,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             /* Return type matches argument type; float in, float out */
             if (node->data.call.arg_count > 0) {
                 GrayType *arg_t = resolve_expression(checker, node->data.call.args[0]);
-                result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT : &TYPE_INT;
+                result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT
+                        : (arg_t && arg_t->kind == TK_UINT) ? &TYPE_UINT : &TYPE_INT;
             } else {
                 result = &TYPE_INT;
             }
@@ -5028,7 +5029,8 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                         found_in_using = true;
                         if (node->data.call.arg_count > 0) {
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[0]);
-                            result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT : &TYPE_INT;
+                            result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT
+                        : (arg_t && arg_t->kind == TK_UINT) ? &TYPE_UINT : &TYPE_INT;
                         } else {
                             result = &TYPE_INT;
                         }
-- 
2.43.0


From 508b3f0670b5bf062c8d2bd69a443a34c730b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:27 +0000
Subject: [PATCH 20/56] fix: fmt results are complete, terminated strings

---
 grayc/src/stdlib/fmt.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/grayc/src/stdlib/fmt.c b/grayc/src/stdlib/fmt.c
index 55f154e..e372746 100644
--- a/grayc/src/stdlib/fmt.c
+++ b/grayc/src/stdlib/fmt.c
@@ -18,7 +18,9 @@
 GrayString gray_fmt_pad_left(GrayArena *arena, GrayString s, int64_t width, char ch) {
     if (s.len >= width) return s;
     int64_t pad = width - s.len;
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)width);
+    if (width > INT32_MAX) gray_panic_code("P0073", "fmt: result of %lld bytes exceeds maximum string length", (long long)width);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)width + 1);
+    buf[width] = '\0';
     memset(buf, ch, (size_t)pad);
     memcpy(buf + pad, s.data, (size_t)s.len);
     return (GrayString){buf, width};
@@ -27,7 +29,9 @@ GrayString gray_fmt_pad_left(GrayArena *arena, GrayString s, int64_t width, char
 GrayString gray_fmt_pad_right(GrayArena *arena, GrayString s, int64_t width, char ch) {
     if (s.len >= width) return s;
     int64_t pad = width - s.len;
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)width);
+    if (width > INT32_MAX) gray_panic_code("P0073", "fmt: result of %lld bytes exceeds maximum string length", (long long)width);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)width + 1);
+    buf[width] = '\0';
     memcpy(buf, s.data, (size_t)s.len);
     memset(buf + s.len, ch, (size_t)pad);
     return (GrayString){buf, width};
@@ -38,7 +42,9 @@ GrayString gray_fmt_center(GrayArena *arena, GrayString s, int64_t width, char c
     int64_t total_pad = width - s.len;
     int64_t left_pad = total_pad / 2;
     int64_t right_pad = total_pad - left_pad;
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)width);
+    if (width > INT32_MAX) gray_panic_code("P0073", "fmt: result of %lld bytes exceeds maximum string length", (long long)width);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)width + 1);
+    buf[width] = '\0';
     memset(buf, ch, (size_t)left_pad);
     memcpy(buf + left_pad, s.data, (size_t)s.len);
     memset(buf + left_pad + s.len, ch, (size_t)right_pad);
@@ -48,15 +54,17 @@ GrayString gray_fmt_center(GrayArena *arena, GrayString s, int64_t width, char c
 GrayString gray_fmt_int_to_hex(GrayArena *arena, int64_t n) {
     char tmp[GRAY_FMT_INT_BUF];
     int len = snprintf(tmp, sizeof(tmp), "%" PRIx64, (uint64_t)n);
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)len);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)len + 1);
     memcpy(buf, tmp, (size_t)len);
+    buf[len] = '\0';
     return (GrayString){buf, len};
 }
 
 GrayString gray_fmt_int_to_binary(GrayArena *arena, int64_t n) {
     if (n == 0) {
-        char *buf = (char *)gray_arena_alloc(arena, 1);
+        char *buf = (char *)gray_arena_alloc(arena, 2);
         buf[0] = '0';
+        buf[1] = '\0';
         return (GrayString){buf, 1};
     }
     char tmp[GRAY_INT64_BITS + 1];
@@ -67,31 +75,35 @@ GrayString gray_fmt_int_to_binary(GrayArena *arena, int64_t n) {
         v >>= 1;
     }
     int len = GRAY_INT64_BITS - pos;
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)len);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)len + 1);
     memcpy(buf, tmp + pos, (size_t)len);
+    buf[len] = '\0';
     return (GrayString){buf, len};
 }
 
 GrayString gray_fmt_int_to_octal(GrayArena *arena, int64_t n) {
     char tmp[GRAY_FMT_INT_BUF];
     int len = snprintf(tmp, sizeof(tmp), "%" PRIo64, (uint64_t)n);
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)len);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)len + 1);
     memcpy(buf, tmp, (size_t)len);
+    buf[len] = '\0';
     return (GrayString){buf, len};
 }
 
 GrayString gray_fmt_float_fixed(GrayArena *arena, double f, int64_t decimals) {
-    char tmp[GRAY_FMT_FLOAT_BUF];
-    int len = snprintf(tmp, sizeof(tmp), "%.*f", (int)decimals, f);
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)len);
-    memcpy(buf, tmp, (size_t)len);
+    if (decimals > INT32_MAX / 2) gray_panic_code("P0073", "fmt: result of %lld bytes exceeds maximum string length", (long long)decimals);
+    int precision = decimals < 0 ? -1 : (int)decimals;
+    int len = snprintf(NULL, 0, "%.*f", precision, f);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)len + 1);
+    snprintf(buf, (size_t)len + 1, "%.*f", precision, f);
     return (GrayString){buf, len};
 }
 
 GrayString gray_fmt_float_sci(GrayArena *arena, double f) {
     char tmp[GRAY_FMT_FLOAT_BUF];
     int len = snprintf(tmp, sizeof(tmp), "%e", f);
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)len);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)len + 1);
     memcpy(buf, tmp, (size_t)len);
+    buf[len] = '\0';
     return (GrayString){buf, len};
 }
-- 
2.43.0


From b6de4fa741e0dabe5f6760e34e1a28e9620dcedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:27 +0000
Subject: [PATCH 21/56] fix: fmt integer directives pass 64-bit values

---
 grayc/src/codegen/codegen.c | 52 ++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 6901811..d2001b7 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3492,8 +3492,14 @@ static void emit_to_string(CodeGen *codegen, AstNode *arg) {
     emit(codegen, ")");
 }
 
-/* Emit a fmt format string literal with %d/%i/%u upgraded to %lld/%llu for
- * Grayscale int/uint arguments (which are int64_t/uint64_t) to avoid -Wformat.
+/* True for arguments emit_format_arguments passes as (unsigned) long long. */
+static bool is_format_integer(GrayType *type) {
+    return type && (type->kind == TK_INT || type->kind == TK_UINT || type->kind == TK_BYTE) &&
+        !(type->name && is_bigint_type(type->name));
+}
+
+/* Emit a fmt format string literal with the integer directives upgraded to their
+ * 64-bit form (%lld, %llx, ...) for Grayscale integer arguments.
  * If append_newline is true, a \n is appended before the closing quote. */
 static void emit_format_string_normalized_extended(CodeGen *codegen, const char *fmt_str, AstNode *call_node, bool append_newline) {
     const char *ptr = fmt_str;
@@ -3525,18 +3531,12 @@ static void emit_format_string_normalized_extended(CodeGen *codegen, const char
         }
         char spec = *ptr ? *ptr++ : 0;
         if (!spec) break;
-        /* Upgrade bare %d/%i/%u to %lld/%llu when arg is Grayscale int/uint */
-        if (!has_length && (spec == 'd' || spec == 'i' || spec == 'u') &&
+        if (!has_length && strchr("diuxXo", spec) &&
             directive_index < call_node->data.call.arg_count) {
             GrayType *directive_type = codegen->type_table ?
                 typetable_get(codegen->type_table, call_node->data.call.args[directive_index]) : NULL;
-            if (directive_type && (spec == 'd' || spec == 'i') && directive_type->kind == TK_INT) {
-                append_char_to_buffer(&codegen->output, 'l');
-                append_char_to_buffer(&codegen->output, 'l');
-            } else if (directive_type && spec == 'u' && directive_type->kind == TK_UINT) {
-                append_char_to_buffer(&codegen->output, 'l');
-                append_char_to_buffer(&codegen->output, 'l');
-            }
+            if (is_format_integer(directive_type))
+                append_string_to_buffer(&codegen->output, "ll");
         }
         append_char_to_buffer(&codegen->output, spec);
         directive_index++;
@@ -3560,6 +3560,10 @@ static void emit_format_arguments(CodeGen *codegen, AstNode *node, int start_idx
         } else if (arg_type && arg_type->kind == TK_BOOL) {
             emit_expression(codegen, arg);
             emit(codegen, " ? \"true\" : \"false\"");
+        } else if (is_format_integer(arg_type)) {
+            emit(codegen, arg_type->kind == TK_INT ? "(long long)(" : "(unsigned long long)(");
+            emit_expression(codegen, arg);
+            emit(codegen, ")");
         } else {
             emit_expression(codegen, arg);
         }
@@ -4528,23 +4532,24 @@ static bool emit_mem_call(CodeGen *codegen, AstNode *node, const char *func) {
 
 /* --- @math module --- */
 
+/* Suffix of the @math runtime function for the argument's kind of number. */
+static const char *math_suffix(CodeGen *codegen, AstNode *arg) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+    if (type && type->kind == TK_FLOAT) return "float";
+    if (type && type->kind == TK_UINT) return "uint";
+    return "int";
+}
+
 static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
-    if (strcmp(func, "abs") == 0 && node->data.call.arg_count == 1) {
-        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        emit_formatted(codegen, "gray_math_abs_%s(", (arg_type && arg_type->kind == TK_FLOAT) ? "float" : "int");
+    if ((strcmp(func, "abs") == 0 || strcmp(func, "neg") == 0 || strcmp(func, "sign") == 0) &&
+        node->data.call.arg_count == 1) {
+        emit_formatted(codegen, "gray_math_%s_%s(", func, math_suffix(codegen, node->data.call.args[0]));
         emit_expression(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "neg") == 0 && node->data.call.arg_count == 1) {
-        emit(codegen, "(-(");
-        emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, "))");
-        return true;
-    }
     if ((strcmp(func, "min") == 0 || strcmp(func, "max") == 0) && node->data.call.arg_count == 2) {
-        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        emit_formatted(codegen, "gray_math_%s_%s(", func, (arg_type && arg_type->kind == TK_FLOAT) ? "float" : "int");
+        emit_formatted(codegen, "gray_math_%s_%s(", func, math_suffix(codegen, node->data.call.args[0]));
         emit_expression(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
@@ -4552,8 +4557,7 @@ static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
         return true;
     }
     if (strcmp(func, "clamp") == 0 && node->data.call.arg_count == 3) {
-        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        emit_formatted(codegen, "gray_math_clamp_%s(", (arg_type && arg_type->kind == TK_FLOAT) ? "float" : "int");
+        emit_formatted(codegen, "gray_math_clamp_%s(", math_suffix(codegen, node->data.call.args[0]));
         emit_expression(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
-- 
2.43.0


From aefb76753c919d5cc846ea20dc37d7cb5cbf877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:53 +0000
Subject: [PATCH 22/56] fix: byte decoders reject short and malformed input

---
 grayc/src/stdlib/binary.c    | 60 ++++++++++++++++++++----------------
 grayc/src/stdlib/bytes.c     | 11 ++-----
 grayc/src/stdlib/encoding.c  |  6 ++--
 grayc/src/util/error_codes.h |  4 ++-
 4 files changed, 42 insertions(+), 39 deletions(-)

diff --git a/grayc/src/stdlib/binary.c b/grayc/src/stdlib/binary.c
index 14e65ff..140a0f5 100644
--- a/grayc/src/stdlib/binary.c
+++ b/grayc/src/stdlib/binary.c
@@ -29,54 +29,62 @@ static GrayArray make_bytes_reversed(GrayArena *arena, const void *data, int32_t
     return arr;
 }
 
+/* The bytes of a decode call; an array shorter than the value is an error. */
+static const void *require_bytes(const GrayArray *bytes, int32_t size) {
+    if (bytes->len < size) {
+        gray_panic_code("P0102", "binary: decoding needs %d byte(s), got %d", size, bytes->len);
+    }
+    return bytes->data;
+}
+
 /* --- 8-bit --- */
 GrayArray gray_binary_encode_i8(GrayArena *arena, int8_t val) { return make_bytes(arena, &val, 1); }
 GrayArray gray_binary_encode_u8(GrayArena *arena, uint8_t val) { return make_bytes(arena, &val, 1); }
-int8_t gray_binary_decode_i8(GrayArray *bytes) { return *(int8_t *)bytes->data; }
-uint8_t gray_binary_decode_u8(GrayArray *bytes) { return *(uint8_t *)bytes->data; }
+int8_t gray_binary_decode_i8(GrayArray *bytes) { return *(const int8_t *)require_bytes(bytes, 1); }
+uint8_t gray_binary_decode_u8(GrayArray *bytes) { return *(const uint8_t *)require_bytes(bytes, 1); }
 
 /* --- 16-bit signed --- */
 GrayArray gray_binary_encode_i16_le(GrayArena *arena, int16_t val) { return make_bytes(arena, &val, 2); }
 GrayArray gray_binary_encode_i16_be(GrayArena *arena, int16_t val) { return make_bytes_reversed(arena, &val, 2); }
-int16_t gray_binary_decode_i16_le(GrayArray *bytes) { int16_t v; memcpy(&v, bytes->data, 2); return v; }
+int16_t gray_binary_decode_i16_le(GrayArray *bytes) { int16_t v; memcpy(&v, require_bytes(bytes, 2), 2); return v; }
 int16_t gray_binary_decode_i16_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 2);
     return (int16_t)((d[0] << 8) | d[1]);
 }
 
 /* --- 16-bit unsigned --- */
 GrayArray gray_binary_encode_u16_le(GrayArena *arena, uint16_t val) { return make_bytes(arena, &val, 2); }
 GrayArray gray_binary_encode_u16_be(GrayArena *arena, uint16_t val) { return make_bytes_reversed(arena, &val, 2); }
-uint16_t gray_binary_decode_u16_le(GrayArray *bytes) { uint16_t v; memcpy(&v, bytes->data, 2); return v; }
+uint16_t gray_binary_decode_u16_le(GrayArray *bytes) { uint16_t v; memcpy(&v, require_bytes(bytes, 2), 2); return v; }
 uint16_t gray_binary_decode_u16_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 2);
     return (uint16_t)((d[0] << 8) | d[1]);
 }
 
 /* --- 32-bit signed --- */
 GrayArray gray_binary_encode_i32_le(GrayArena *arena, int32_t val) { return make_bytes(arena, &val, 4); }
 GrayArray gray_binary_encode_i32_be(GrayArena *arena, int32_t val) { return make_bytes_reversed(arena, &val, 4); }
-int32_t gray_binary_decode_i32_le(GrayArray *bytes) { int32_t v; memcpy(&v, bytes->data, 4); return v; }
+int32_t gray_binary_decode_i32_le(GrayArray *bytes) { int32_t v; memcpy(&v, require_bytes(bytes, 4), 4); return v; }
 int32_t gray_binary_decode_i32_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 4);
     return (int32_t)(((uint32_t)d[0] << 24) | ((uint32_t)d[1] << 16) | ((uint32_t)d[2] << 8) | d[3]);
 }
 
 /* --- 32-bit unsigned --- */
 GrayArray gray_binary_encode_u32_le(GrayArena *arena, uint32_t val) { return make_bytes(arena, &val, 4); }
 GrayArray gray_binary_encode_u32_be(GrayArena *arena, uint32_t val) { return make_bytes_reversed(arena, &val, 4); }
-uint32_t gray_binary_decode_u32_le(GrayArray *bytes) { uint32_t v; memcpy(&v, bytes->data, 4); return v; }
+uint32_t gray_binary_decode_u32_le(GrayArray *bytes) { uint32_t v; memcpy(&v, require_bytes(bytes, 4), 4); return v; }
 uint32_t gray_binary_decode_u32_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 4);
     return ((uint32_t)d[0] << 24) | ((uint32_t)d[1] << 16) | ((uint32_t)d[2] << 8) | d[3];
 }
 
 /* --- 64-bit signed --- */
 GrayArray gray_binary_encode_i64_le(GrayArena *arena, int64_t val) { return make_bytes(arena, &val, 8); }
 GrayArray gray_binary_encode_i64_be(GrayArena *arena, int64_t val) { return make_bytes_reversed(arena, &val, 8); }
-int64_t gray_binary_decode_i64_le(GrayArray *bytes) { int64_t v; memcpy(&v, bytes->data, 8); return v; }
+int64_t gray_binary_decode_i64_le(GrayArray *bytes) { int64_t v; memcpy(&v, require_bytes(bytes, 8), 8); return v; }
 int64_t gray_binary_decode_i64_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 8);
     int64_t v = 0;
     for (int i = 0; i < 8; i++) v = (v << 8) | d[i];
     return v;
@@ -85,9 +93,9 @@ int64_t gray_binary_decode_i64_be(GrayArray *bytes) {
 /* --- 64-bit unsigned --- */
 GrayArray gray_binary_encode_u64_le(GrayArena *arena, uint64_t val) { return make_bytes(arena, &val, 8); }
 GrayArray gray_binary_encode_u64_be(GrayArena *arena, uint64_t val) { return make_bytes_reversed(arena, &val, 8); }
-uint64_t gray_binary_decode_u64_le(GrayArray *bytes) { uint64_t v; memcpy(&v, bytes->data, 8); return v; }
+uint64_t gray_binary_decode_u64_le(GrayArray *bytes) { uint64_t v; memcpy(&v, require_bytes(bytes, 8), 8); return v; }
 uint64_t gray_binary_decode_u64_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 8);
     uint64_t v = 0;
     for (int i = 0; i < 8; i++) v = (v << 8) | d[i];
     return v;
@@ -96,9 +104,9 @@ uint64_t gray_binary_decode_u64_be(GrayArray *bytes) {
 /* --- 128-bit --- */
 GrayArray gray_binary_encode_i128_le(GrayArena *arena, gray_i128 val) { return make_bytes(arena, &val, 16); }
 GrayArray gray_binary_encode_i128_be(GrayArena *arena, gray_i128 val) { return make_bytes_reversed(arena, &val, 16); }
-gray_i128 gray_binary_decode_i128_le(GrayArray *bytes) { gray_i128 v; memcpy(&v, bytes->data, 16); return v; }
+gray_i128 gray_binary_decode_i128_le(GrayArray *bytes) { gray_i128 v; memcpy(&v, require_bytes(bytes, 16), 16); return v; }
 gray_i128 gray_binary_decode_i128_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 16);
     gray_i128 v;
     uint64_t high = 0, low = 0;
     for (int i = 0; i < 8; i++) high = (high << 8) | d[i];
@@ -110,9 +118,9 @@ gray_i128 gray_binary_decode_i128_be(GrayArray *bytes) {
 
 GrayArray gray_binary_encode_u128_le(GrayArena *arena, gray_u128 val) { return make_bytes(arena, &val, 16); }
 GrayArray gray_binary_encode_u128_be(GrayArena *arena, gray_u128 val) { return make_bytes_reversed(arena, &val, 16); }
-gray_u128 gray_binary_decode_u128_le(GrayArray *bytes) { gray_u128 v; memcpy(&v, bytes->data, 16); return v; }
+gray_u128 gray_binary_decode_u128_le(GrayArray *bytes) { gray_u128 v; memcpy(&v, require_bytes(bytes, 16), 16); return v; }
 gray_u128 gray_binary_decode_u128_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 16);
     gray_u128 v;
     uint64_t high = 0, low = 0;
     for (int i = 0; i < 8; i++) high = (high << 8) | d[i];
@@ -125,9 +133,9 @@ gray_u128 gray_binary_decode_u128_be(GrayArray *bytes) {
 /* --- 256-bit --- */
 GrayArray gray_binary_encode_i256_le(GrayArena *arena, gray_i256 val) { return make_bytes(arena, &val, 32); }
 GrayArray gray_binary_encode_i256_be(GrayArena *arena, gray_i256 val) { return make_bytes_reversed(arena, &val, 32); }
-gray_i256 gray_binary_decode_i256_le(GrayArray *bytes) { gray_i256 v; memcpy(&v, bytes->data, 32); return v; }
+gray_i256 gray_binary_decode_i256_le(GrayArray *bytes) { gray_i256 v; memcpy(&v, require_bytes(bytes, 32), 32); return v; }
 gray_i256 gray_binary_decode_i256_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 32);
     gray_i256 v;
     for (int w = 3; w >= 0; w--) {
         uint64_t limb = 0;
@@ -139,9 +147,9 @@ gray_i256 gray_binary_decode_i256_be(GrayArray *bytes) {
 
 GrayArray gray_binary_encode_u256_le(GrayArena *arena, gray_u256 val) { return make_bytes(arena, &val, 32); }
 GrayArray gray_binary_encode_u256_be(GrayArena *arena, gray_u256 val) { return make_bytes_reversed(arena, &val, 32); }
-gray_u256 gray_binary_decode_u256_le(GrayArray *bytes) { gray_u256 v; memcpy(&v, bytes->data, 32); return v; }
+gray_u256 gray_binary_decode_u256_le(GrayArray *bytes) { gray_u256 v; memcpy(&v, require_bytes(bytes, 32), 32); return v; }
 gray_u256 gray_binary_decode_u256_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 32);
     gray_u256 v;
     for (int w = 3; w >= 0; w--) {
         uint64_t limb = 0;
@@ -154,18 +162,18 @@ gray_u256 gray_binary_decode_u256_be(GrayArray *bytes) {
 /* --- Float --- */
 GrayArray gray_binary_encode_f32_le(GrayArena *arena, float val) { return make_bytes(arena, &val, 4); }
 GrayArray gray_binary_encode_f32_be(GrayArena *arena, float val) { return make_bytes_reversed(arena, &val, 4); }
-float gray_binary_decode_f32_le(GrayArray *bytes) { float v; memcpy(&v, bytes->data, 4); return v; }
+float gray_binary_decode_f32_le(GrayArray *bytes) { float v; memcpy(&v, require_bytes(bytes, 4), 4); return v; }
 float gray_binary_decode_f32_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 4);
     uint8_t reversed[4] = {d[3], d[2], d[1], d[0]};
     float v; memcpy(&v, reversed, 4); return v;
 }
 
 GrayArray gray_binary_encode_f64_le(GrayArena *arena, double val) { return make_bytes(arena, &val, 8); }
 GrayArray gray_binary_encode_f64_be(GrayArena *arena, double val) { return make_bytes_reversed(arena, &val, 8); }
-double gray_binary_decode_f64_le(GrayArray *bytes) { double v; memcpy(&v, bytes->data, 8); return v; }
+double gray_binary_decode_f64_le(GrayArray *bytes) { double v; memcpy(&v, require_bytes(bytes, 8), 8); return v; }
 double gray_binary_decode_f64_be(GrayArray *bytes) {
-    uint8_t *d = (uint8_t *)bytes->data;
+    const uint8_t *d = (const uint8_t *)require_bytes(bytes, 8);
     uint8_t reversed[8] = {d[7], d[6], d[5], d[4], d[3], d[2], d[1], d[0]};
     double v; memcpy(&v, reversed, 8); return v;
 }
diff --git a/grayc/src/stdlib/bytes.c b/grayc/src/stdlib/bytes.c
index c6ddaa4..2ad15f7 100644
--- a/grayc/src/stdlib/bytes.c
+++ b/grayc/src/stdlib/bytes.c
@@ -27,15 +27,8 @@ GrayString gray_bytes_to_string(GrayArena *arena, GrayArray *bytes) {
 }
 
 GrayArray gray_bytes_from_hex(GrayArena *arena, GrayString hex) {
-    int32_t output_length = hex.len / 2;
-    GrayArray arr = gray_array_new(arena, sizeof(uint8_t), output_length);
-    for (int32_t i = 0; i < output_length; i++) {
-        unsigned int byte;
-        sscanf(hex.data + i * 2, "%02x", &byte);
-        uint8_t b = (uint8_t)byte;
-        gray_array_push(arena, &arr, &b);
-    }
-    return arr;
+    GrayString decoded = gray_encoding_hex_decode(arena, hex);
+    return gray_bytes_from_string(arena, decoded);
 }
 
 GrayString gray_bytes_to_hex(GrayArena *arena, GrayArray *bytes) {
diff --git a/grayc/src/stdlib/encoding.c b/grayc/src/stdlib/encoding.c
index 792842c..f60e454 100644
--- a/grayc/src/stdlib/encoding.c
+++ b/grayc/src/stdlib/encoding.c
@@ -147,9 +147,9 @@ GrayString gray_encoding_url_decode(GrayArena *arena, GrayString s) {
     char *out = gray_arena_alloc(arena, (size_t)s.len + 1);
     int j = 0;
     for (int i = 0; i < s.len; i++) {
-        if (s.data[i] == '%' && i + 2 < s.len) {
-            unsigned char hi = (unsigned char)s.data[i + 1];
-            unsigned char lo = (unsigned char)s.data[i + 2];
+        if (s.data[i] == '%') {
+            unsigned char hi = i + 1 < s.len ? (unsigned char)s.data[i + 1] : 0;
+            unsigned char lo = i + 2 < s.len ? (unsigned char)s.data[i + 2] : 0;
             if (!isxdigit(hi) || !isxdigit(lo)) {
                 gray_panic_code("P0042", "encoding.url_decode: invalid percent-escape at position %d", i);
             }
diff --git a/grayc/src/util/error_codes.h b/grayc/src/util/error_codes.h
index 2f6716b..ffc87b4 100644
--- a/grayc/src/util/error_codes.h
+++ b/grayc/src/util/error_codes.h
@@ -395,7 +395,9 @@
     GRAY_PANIC("P0098", "arithmetic", "cast from i256 failed; value is negative or outside the representable range of uint64") \
     GRAY_PANIC("P0099", "arithmetic", "cast from u256 failed; value exceeds the representable range of int64") \
     GRAY_PANIC("P0100", "arithmetic", "cast from u256 failed; value exceeds the representable range of uint64") \
-    GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed")
+    GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed") \
+    GRAY_PANIC("P0102", "binary",     "binary: decoding needs %d byte(s), got %d") \
+    GRAY_PANIC("P0103", "arithmetic", "cast from %s failed; value is outside the representable range of %s")
 
 /* --- Warnings --- */
 #define GRAY_WARNINGS \
-- 
2.43.0


From 9d136760767afbd41e02ed23d11ecd48c12bd78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:12:53 +0000
Subject: [PATCH 23/56] fix: wide integers convert, compute and store exact
 values or panic

---
 grayc/src/codegen/codegen.c         | 406 +++++++++++-----------------
 grayc/src/runtime/bigint.h          | 245 ++++++++++++-----
 grayc/src/typechecker/typechecker.c |  10 +-
 3 files changed, 340 insertions(+), 321 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d2001b7..1512554 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -76,6 +76,8 @@ static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static int codegen_enum_index(CodeGen *codegen, const char *name);
 static void emit_to_string(CodeGen *codegen, AstNode *arg);
 static bool emit_narrowing_cast(CodeGen *codegen, const char *target, AstNode *val, int line);
+static void emit_bigint_arithmetic(CodeGen *codegen, AstNode *infix, const char *bi_type);
+static void emit_value_as(CodeGen *codegen, const char *type_name, AstNode *value);
 static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
 
 /* Resolve an unprefixed type name (e.g. "Point") to its module-prefixed
@@ -473,12 +475,14 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
  * Routes the input through codegen_effective_type_string so '?' inside a generic
  * instantiation resolves to the active wildcard binding. */
 static bool is_bigint_type(const char *type_str);
+static const char *bigint_prefix(const char *type_str);
 static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn) return "int64_t";
     gray_tn = codegen_effective_type_string(codegen, gray_tn);
     /* Func references (bare or typed) are stored as void * in maps, same as
      * in arrays and all other composite types. */
     if (strcmp(gray_tn, "func") == 0 || strncmp(gray_tn, "func(", 5) == 0) return "void *";
+    if (is_bigint_type(gray_tn)) return bigint_prefix(gray_tn);
     GrayType *type = type_from_name(gray_tn);
     if (!type) return "int64_t";
     switch (type->kind) {
@@ -487,7 +491,7 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     case TK_BOOL:    return "bool";
     case TK_CHAR:    return "int32_t";
     case TK_BYTE:    return "uint8_t";
-    case TK_UINT:    return is_bigint_type(gray_tn) ? "int64_t" : "uint64_t";
+    case TK_UINT:    return "uint64_t";
     case TK_ARRAY:   return "GrayArray";
     case TK_MAP:     return "GrayMap";
     case TK_STRUCT:  return gray_type_to_c_codegen(codegen, gray_tn);
@@ -847,6 +851,11 @@ static const char *bigint_prefix(const char *type_str) {
     return NULL;
 }
 
+static bool is_arithmetic_operator(TokenType op) {
+    return op == TOK_PLUS || op == TOK_MINUS || op == TOK_ASTERISK ||
+           op == TOK_SLASH || op == TOK_PERCENT;
+}
+
 /* Resolve the bigint type name for an expression (checks labels against tracked vars) */
 static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     if (!node) return NULL;
@@ -864,11 +873,14 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     /* -bigint_var — the result is still the same bigint type */
     if (node->kind == NODE_PREFIX_EXPR && node->data.prefix.op == TOK_MINUS)
         return resolve_bigint_type(codegen, node->data.prefix.right);
-    /* If this is an infix expression, check left operand */
+    /* Arithmetic has the wider of its operands' types */
     if (node->kind == NODE_INFIX_EXPR) {
+        if (!is_arithmetic_operator(node->data.infix.op)) return NULL;
         const char *left_type = resolve_bigint_type(codegen, node->data.infix.left);
-        if (left_type) return left_type;
-        return resolve_bigint_type(codegen, node->data.infix.right);
+        const char *right_type = resolve_bigint_type(codegen, node->data.infix.right);
+        if (!left_type) return right_type;
+        if (!right_type) return left_type;
+        return strcmp(right_type + 1, "256") == 0 ? right_type : left_type;
     }
     /* Pointer dereference p^ — check whether the pointee type is bigint */
     if (node->kind == NODE_POSTFIX_EXPR && node->data.postfix.op == TOK_CARET) {
@@ -886,74 +898,71 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     return NULL;
 }
 
-/* Emit a bigint operand, widening smaller integer or bigint operands so
- * mixed-width expressions like i128+i64 or i256+i128 pass correctly typed
- * values to the bigint arithmetic helpers. */
+/* Emit `operand` as a value of the wide type `bi_type`, converting literals,
+ * narrower integers and other wide types. */
 static void emit_bigint_operand(CodeGen *codegen, AstNode *operand,
                                 const char *pfx, const char *bi_type,
                                 GrayType *operand_t) {
-    /* Integer literal */
-    if (operand->kind == NODE_INT_VALUE) {
-        if (operand->data.int_value.overflow) {
-            emit_formatted(codegen, "%s_from_decimal(\"%s\")", pfx, operand->data.int_value.literal);
+    bool target_unsigned = bi_type[0] == 'u';
+    bool negative = operand->kind == NODE_PREFIX_EXPR && operand->data.prefix.op == TOK_MINUS &&
+                    operand->data.prefix.right->kind == NODE_INT_VALUE;
+    AstNode *literal = negative ? operand->data.prefix.right : operand;
+    if (literal->kind == NODE_INT_VALUE) {
+        if (literal->data.int_value.overflow) {
+            emit_formatted(codegen, "%s_from_decimal(\"%s%s\")", pfx, negative ? "-" : "", literal->data.int_value.literal);
         } else {
-            const char *sfx = (strcmp(bi_type, "u128") == 0 || strcmp(bi_type, "u256") == 0) ? "u64" : "i64";
-            emit_formatted(codegen, "%s_from_%s(%lldLL)", pfx, sfx, (long long)operand->data.int_value.value);
+            long long value = (long long)literal->data.int_value.value;
+            emit_formatted(codegen, "%s_from_%s(%lldLL)", pfx, target_unsigned && !negative ? "u64" : "i64",
+                           negative ? -value : value);
         }
         return;
     }
-    /* Negative integer literal */
-    if (operand->kind == NODE_PREFIX_EXPR &&
-        operand->data.prefix.op == TOK_MINUS &&
-        operand->data.prefix.right->kind == NODE_INT_VALUE) {
-        if (operand->data.prefix.right->data.int_value.overflow) {
-            emit_formatted(codegen, "%s_from_decimal(\"-%s\")", pfx,
-                  operand->data.prefix.right->data.int_value.literal);
-        } else {
-            emit_formatted(codegen, "%s_from_i64(%lldLL)", pfx,
-                  -(long long)operand->data.prefix.right->data.int_value.value);
-        }
+    const char *src_bi = resolve_bigint_type(codegen, operand);
+    if (!src_bi) {
+        GrayType *t = codegen->type_table ? typetable_get(codegen->type_table, operand) : NULL;
+        if (t) operand_t = t;
+        if (operand_t && operand_t->name && is_bigint_type(operand_t->name)) src_bi = operand_t->name;
+    }
+    if (src_bi && strcmp(src_bi, bi_type) == 0) {
+        emit_expression(codegen, operand);
         return;
     }
-    /* Check if operand is a bigint label and if it needs widening to a larger bigint */
-    if (operand->kind == NODE_LABEL) {
-        const char *src_bi = lookup_bigint_variable(codegen, operand->data.label.value);
-        if (src_bi) {
-            /* Operand is already a bigint — emit directly if same type,
-             * or wrap with a widening constructor for bigint→bigint promotion. */
-            if (strcmp(src_bi, bi_type) == 0) {
-                emit_expression(codegen, operand);
-            } else if (strcmp(bi_type, "i256") == 0 && strcmp(src_bi, "i128") == 0) {
-                emit_formatted(codegen, "gray_i256_from_i128(");
-                emit_expression(codegen, operand);
-                emit(codegen, ")");
-            } else if (strcmp(bi_type, "u256") == 0 && strcmp(src_bi, "u128") == 0) {
-                emit_formatted(codegen, "gray_u256_from_u128(");
-                emit_expression(codegen, operand);
-                emit(codegen, ")");
-            } else {
-                /* Unknown bigint-to-bigint: emit directly and let C catch it */
-                emit_expression(codegen, operand);
-            }
-            return;
-        }
-        /* Non-bigint label: widen to the target bigint type.
-         * Use operand_t kind when available; fall back to target signedness. */
-        bool target_unsigned = (strcmp(bi_type, "u128") == 0 || strcmp(bi_type, "u256") == 0);
-        bool src_unsigned = operand_t
-            ? (operand_t->kind == TK_UINT || operand_t->kind == TK_BYTE)
-            : target_unsigned;
-        if (src_unsigned) {
-            emit_formatted(codegen, "%s_from_u64((uint64_t)(", pfx);
-        } else {
-            emit_formatted(codegen, "%s_from_i64((int64_t)(", pfx);
-        }
+    if (src_bi) {
+        emit_formatted(codegen, "%s_from_%s(", pfx, src_bi);
         emit_expression(codegen, operand);
-        emit(codegen, "))");
+        emit(codegen, ")");
+        return;
+    }
+    /* Arithmetic on narrower operands computes in the wide type */
+    if (operand->kind == NODE_INFIX_EXPR && is_arithmetic_operator(operand->data.infix.op)) {
+        emit_bigint_arithmetic(codegen, operand, bi_type);
         return;
     }
-    /* Non-label expression — emit directly */
+    bool src_unsigned = operand_t && (operand_t->kind == TK_UINT || operand_t->kind == TK_BYTE);
+    emit_formatted(codegen, src_unsigned ? "%s_from_u64((uint64_t)(" : "%s_from_i64((int64_t)(", pfx);
     emit_expression(codegen, operand);
+    emit(codegen, "))");
+}
+
+/* Emit a checked + - * / % whose operands are taken as `bi_type`. */
+static void emit_bigint_arithmetic(CodeGen *codegen, AstNode *infix, const char *bi_type) {
+    const char *pfx = bigint_prefix(bi_type);
+    TokenType op = infix->data.infix.op;
+    const char *fn = op == TOK_PLUS ? "add" : op == TOK_MINUS ? "sub" : op == TOK_ASTERISK ? "mul"
+        : op == TOK_SLASH ? "div" : "mod";
+    emit_formatted(codegen, "%s_%s_checked(", pfx, fn);
+    emit_bigint_operand(codegen, infix->data.infix.left, pfx, bi_type, NULL);
+    emit(codegen, ", ");
+    emit_bigint_operand(codegen, infix->data.infix.right, pfx, bi_type, NULL);
+    emit_formatted(codegen, ", \"%s\", %d)", codegen->file, infix->token.line);
+}
+
+/* Emit a value that is stored into a place of the named type. */
+static void emit_value_as(CodeGen *codegen, const char *type_name, AstNode *value) {
+    if (type_name && is_bigint_type(type_name) && !codegen->in_const_decl)
+        emit_bigint_operand(codegen, value, bigint_prefix(type_name), type_name, NULL);
+    else if (!emit_narrowing_cast(codegen, type_name, value, value->token.line))
+        emit_expression(codegen, value);
 }
 
 /* C type an element occupies inside a GrayArray. Integer elements narrower
@@ -1009,10 +1018,9 @@ static void emit_compound_result(CodeGen *codegen, TokenType op, const char *typ
         : op == TOK_ASTERISK_ASSIGN ? "mul" : op == TOK_SLASH_ASSIGN ? "div" : "mod";
     if (type_name && is_bigint_type(type_name)) {
         const char *pfx = bigint_prefix(type_name);
-        emit_formatted(codegen, "%s_%s%s(%s, ", pfx, fn, is_div ? "" : "_checked", cur);
+        emit_formatted(codegen, "%s_%s_checked(%s, ", pfx, fn, cur);
         emit_bigint_operand(codegen, value, pfx, type_name, NULL);
-        if (is_div) emit(codegen, ")");
-        else emit_formatted(codegen, ", \"%s\", %d)", codegen->file, line);
+        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, line);
         return;
     }
     GrayType *type = type_name ? type_from_name(type_name) : NULL;
@@ -1928,8 +1936,11 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         if (!bi_elem && elem_t && elem_t->name && is_bigint_type(elem_t->name))
             bi_elem = elem_t->name;
         /* Also check var decl context for bigint element type */
-        if (!bi_elem && codegen->current_var_type && is_bigint_type(codegen->current_var_type))
-            bi_elem = codegen->current_var_type;
+        if (codegen->current_var_type && codegen->current_var_type[0] == '[') {
+            GrayType *declared = type_from_name(codegen->current_var_type);
+            if (declared && declared->element_type && is_bigint_type(declared->element_type))
+                bi_elem = declared->element_type;
+        }
         /* Fall back to the declared array type when the typetable has no
          * entry for the first element (happens for module-qualified struct
          * function calls — the call's return type isn't always threaded
@@ -2019,7 +2030,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         emit_formatted(codegen, "gray_array_from(gray_default_arena, (%s[]){", c_type);
         for (int i = 0; i < count; i++) {
             if (i > 0) emit(codegen, ", ");
-            emit_expression(codegen, node->data.array_value.elements[i]);
+            emit_value_as(codegen, bi_elem, node->data.array_value.elements[i]);
         }
         emit_formatted(codegen, "}, sizeof(%s), %d)", c_type, count);
         break;
@@ -2076,7 +2087,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
 
         for (int i = 0; i < count; i++) {
             emit_formatted(codegen, "{ %s _mk = ", c_key_type);
-            emit_expression(codegen, node->data.map_value.keys[i]);
+            emit_value_as(codegen, decl_mt ? decl_mt->key_type : NULL, node->data.map_value.keys[i]);
             emit_formatted(codegen, "; %s _mv = ", c_val_type);
             if (inner_var_type) {
                 const char *saved = codegen->current_var_type;
@@ -2084,7 +2095,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 emit_expression(codegen, node->data.map_value.values[i]);
                 codegen->current_var_type = saved;
             } else {
-                emit_expression(codegen, node->data.map_value.values[i]);
+                emit_value_as(codegen, decl_mt ? decl_mt->value_type : NULL, node->data.map_value.values[i]);
             }
             emit_formatted(codegen, "; gray_map_set(gray_default_arena, &_ml%d, &_mk, &_mv); } ", my_counter);
         }
@@ -2148,7 +2159,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             if (field_type) {
                 const char *saved = codegen->current_var_type;
                 codegen->current_var_type = field_type;
-                emit_expression(codegen, node->data.struct_value.field_values[i]);
+                emit_value_as(codegen, field_type, node->data.struct_value.field_values[i]);
                 codegen->current_var_type = saved;
             } else {
                 emit_expression(codegen, node->data.struct_value.field_values[i]);
@@ -2169,7 +2180,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 if (!specified) {
                     if (node->data.struct_value.count > 0 || field_index > 0) emit(codegen, ", ");
                     emit_formatted(codegen, ".%s = ", sanitize_name(sf->name));
-                    emit_expression(codegen, sf->default_value);
+                    emit_value_as(codegen, sf->type_name, sf->default_value);
                 }
             }
         }
@@ -2196,9 +2207,9 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         if (node->data.prefix.op == TOK_MINUS) {
             const char *bi_type = resolve_bigint_type(codegen, node->data.prefix.right);
             if (bi_type && (strcmp(bi_type, "i128") == 0 || strcmp(bi_type, "i256") == 0)) {
-                emit_formatted(codegen, "%s_neg(", bigint_prefix(bi_type));
+                emit_formatted(codegen, "%s_neg_checked(", bigint_prefix(bi_type));
                 emit_expression(codegen, node->data.prefix.right);
-                emit(codegen, ")");
+                emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
                 break;
             }
         }
@@ -2366,7 +2377,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             if (arr_t && arr_t->kind == TK_MAP) {
                 if (negated) emit(codegen, "!");
                 emit_formatted(codegen, "({ %s _ik = ", gray_map_element_c_type(codegen, arr_t->key_type));
-                emit_expression(codegen, node->data.infix.left);
+                emit_value_as(codegen, arr_t->key_type, node->data.infix.left);
                 emit(codegen, "; gray_maps_has_key(&");
                 emit_expression(codegen, node->data.infix.right);
                 emit(codegen, ", &_ik); })");
@@ -2408,50 +2419,26 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             break;
         }
 
-        /* Helper: emit an operand in bigint context.
-         * Wraps integer literals and non-bigint variables with the appropriate
-         * from_i64/from_u64 constructor so mixed-width expressions like
-         * i128 + i64 pass correctly to the bigint arithmetic helpers. */
-        #define EMIT_BIGINT_OPERAND(codegen, operand, pfx, bi_type, operand_type) \
-            emit_bigint_operand((codegen), (operand), (pfx), (bi_type), (operand_type))
-
-        /* Bigint infix; emit function calls instead of C operators.
-         * Must come before overflow-check and div-by-zero handlers since
-         * bigint types share TK_INT/TK_UINT kind. */
+        /* Wide integer operators are function calls. Must come before the
+         * overflow and division handlers: wide types share TK_INT/TK_UINT. */
         {
-            const char *bi_type = resolve_bigint_type(codegen, node->data.infix.left);
-            if (!bi_type) bi_type = resolve_bigint_type(codegen, node->data.infix.right);
-            if (bi_type) {
+            const char *left_bi = resolve_bigint_type(codegen, node->data.infix.left);
+            const char *bi_type = resolve_bigint_type(codegen, node->data.infix.right);
+            if (left_bi && (!bi_type || strcmp(bi_type + 1, "256") != 0)) bi_type = left_bi;
+            const char *compare = op == TOK_EQ ? "eq" : op == TOK_NOT_EQ ? "ne" : op == TOK_LT ? "lt"
+                : op == TOK_GT ? "gt" : op == TOK_LT_EQ ? "le" : op == TOK_GT_EQ ? "ge" : NULL;
+            if (bi_type && is_arithmetic_operator(op)) {
+                emit_bigint_arithmetic(codegen, node, bi_type);
+                break;
+            }
+            if (bi_type && compare) {
                 const char *pfx = bigint_prefix(bi_type);
-                const char *fn_op = NULL;
-                if (op == TOK_PLUS) fn_op = "add";
-                else if (op == TOK_MINUS) fn_op = "sub";
-                else if (op == TOK_ASTERISK) fn_op = "mul";
-                else if (op == TOK_SLASH) fn_op = "div";
-                else if (op == TOK_PERCENT) fn_op = "mod";
-                else if (op == TOK_EQ) fn_op = "eq";
-                else if (op == TOK_NOT_EQ) fn_op = "ne";
-                else if (op == TOK_LT) fn_op = "lt";
-                else if (op == TOK_GT) fn_op = "gt";
-                else if (op == TOK_LT_EQ) fn_op = "le";
-                else if (op == TOK_GT_EQ) fn_op = "ge";
-                if (fn_op) {
-                    bool is_checked = (strcmp(fn_op, "add") == 0 || strcmp(fn_op, "sub") == 0 || strcmp(fn_op, "mul") == 0);
-                    if (is_checked) {
-                        emit_formatted(codegen, "%s_%s_checked(", pfx, fn_op);
-                    } else {
-                        emit_formatted(codegen, "%s_%s(", pfx, fn_op);
-                    }
-                    EMIT_BIGINT_OPERAND(codegen, node->data.infix.left, pfx, bi_type, left_type);
-                    emit(codegen, ", ");
-                    EMIT_BIGINT_OPERAND(codegen, node->data.infix.right, pfx, bi_type, right_type);
-                    if (is_checked) {
-                        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
-                    } else {
-                        emit(codegen, ")");
-                    }
-                    break;
-                }
+                emit_formatted(codegen, "%s_%s(", pfx, compare);
+                emit_bigint_operand(codegen, node->data.infix.left, pfx, bi_type, left_type);
+                emit(codegen, ", ");
+                emit_bigint_operand(codegen, node->data.infix.right, pfx, bi_type, right_type);
+                emit(codegen, ")");
+                break;
             }
         }
 
@@ -3007,12 +2994,12 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 emit_formatted(codegen, "(*({ GrayMap _mt = ");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, "; %s _mk = ", c_key);
-                emit_expression(codegen, node->data.index_expr.index);
+                emit_value_as(codegen, left_t->key_type, node->data.index_expr.index);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&_mt, &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
                 emit_formatted(codegen, "(%s *)_mv; }))", c_val);
             } else {
                 emit_formatted(codegen, "(*({ %s _mk = ", c_key);
-                emit_expression(codegen, node->data.index_expr.index);
+                emit_value_as(codegen, left_t->key_type, node->data.index_expr.index);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
@@ -3125,16 +3112,8 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             const char *src_bi = (val_t && val_t->name && is_bigint_type(val_t->name))
                 ? val_t->name : resolve_bigint_type(codegen, val);
             if (target_is_bi || src_bi) {
-                if (target_is_bi && !src_bi) {
-                    /* scalar → wide: use from_i64 / from_u64 */
-                    bool dst_unsigned = (target[0] == 'u');
-                    if (dst_unsigned) {
-                        emit_formatted(codegen, "%s_from_u64((uint64_t)(", bigint_prefix(target));
-                    } else {
-                        emit_formatted(codegen, "%s_from_i64((int64_t)(", bigint_prefix(target));
-                    }
-                    emit_expression(codegen, val);
-                    emit(codegen, "))");
+                if (target_is_bi) {
+                    emit_bigint_operand(codegen, val, bigint_prefix(target), target, val_t);
                 } else if (!target_is_bi && src_bi) {
                     /* wide → scalar: range-checked extraction to int64/uint64,
                      * with additional narrow-range check for sub-64-bit targets */
@@ -3170,22 +3149,6 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                         emit_expression(codegen, val);
                         emit(codegen, ")");
                     }
-                } else {
-                    /* wide → wide: use cross-type constructors */
-                    if (strcmp(src_bi, "i128") == 0 && strcmp(target, "u128") == 0)
-                        { emit(codegen, "gray_u128_from_i128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "u128") == 0 && strcmp(target, "i128") == 0)
-                        { emit(codegen, "gray_i128_from_u128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "i128") == 0 && strcmp(target, "i256") == 0)
-                        { emit(codegen, "gray_i256_from_i128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "u128") == 0 && strcmp(target, "u256") == 0)
-                        { emit(codegen, "gray_u256_from_u128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "i256") == 0 && strcmp(target, "i128") == 0)
-                        { emit(codegen, "gray_i128_from_i256("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "u256") == 0 && strcmp(target, "u128") == 0)
-                        { emit(codegen, "gray_u128_from_u256("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else
-                        { emit_expression(codegen, val); } /* same-type no-op */
                 }
                 break;
             }
@@ -3280,7 +3243,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 }
                 if (sdecl->data.struct_decl.fields[field_index].default_value) {
                     emit_formatted(codegen, "_np->%s = ", sanitize_name(field_name));
-                    emit_expression(codegen, sdecl->data.struct_decl.fields[field_index].default_value);
+                    emit_value_as(codegen, field_type, sdecl->data.struct_decl.fields[field_index].default_value);
                     emit(codegen, "; ");
                 }
             }
@@ -3599,6 +3562,12 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         return;
     }
 
+    if ((type->kind == TK_INT || type->kind == TK_UINT) && is_bigint_type(type->name)) {
+        emit_indent(codegen);
+        emit_formatted(codegen, "fprintf(%s, \"%%s\", %s_to_string(gray_default_arena, %s).data);\n",
+            stream, bigint_prefix(type->name), c_expr);
+        return;
+    }
     switch (type->kind) {
     case TK_INT: case TK_BYTE: case TK_ENUM:
         emit_indent(codegen);
@@ -4249,20 +4218,7 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
     /* Bigint conversion functions: i128(), u128(), i256(), u256() */
     if (node->data.call.arg_count == 1 && is_bigint_type(func)) {
         AstNode *carg = node->data.call.args[0];
-        const char *src_bi = resolve_bigint_type(codegen, carg);
-        const char *pfx = bigint_prefix(func);
-        if (src_bi) {
-            /* Bigint→bigint cast */
-            emit_formatted(codegen, "%s_from_%s(", pfx, src_bi);
-            emit_expression(codegen, carg);
-            emit(codegen, ")");
-        } else {
-            /* Scalar→bigint: e.g., gray_i128_from_i64(x) */
-            const char *from_suffix = (strcmp(func, "u128") == 0 || strcmp(func, "u256") == 0) ? "u64" : "i64";
-            emit_formatted(codegen, "%s_from_%s(", pfx, from_suffix);
-            emit_expression(codegen, carg);
-            emit(codegen, ")");
-        }
+        emit_bigint_operand(codegen, carg, bigint_prefix(func), func, NULL);
         return true;
     }
 
@@ -4281,9 +4237,7 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             const char *src_bi = resolve_bigint_type(codegen, carg);
             if (src_bi) {
                 const char *src_pfx = bigint_prefix(src_bi);
-                bool src_unsigned = (strcmp(src_bi, "u128") == 0 || strcmp(src_bi, "u256") == 0);
-                bool dst_unsigned = (strcmp(func, "uint") == 0);
-                const char *to_suffix = (src_unsigned || dst_unsigned) ? "u64" : "i64";
+                const char *to_suffix = strcmp(func, "uint") == 0 ? "u64" : "i64";
                 emit_formatted(codegen, "((%s)%s_to_%s(", cast_type, src_pfx, to_suffix);
                 emit_expression(codegen, carg);
                 emit(codegen, "))");
@@ -4637,7 +4591,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         if (map_t && map_t->kind == TK_MAP && map_t->key_type)
             c_key = gray_map_element_c_type(codegen, map_t->key_type);
         emit_formatted(codegen, "({ %s _hk = ", c_key);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, map_t ? map_t->key_type : NULL, node->data.call.args[1]);
         emit(codegen, "; gray_maps_has_key(");
         emit_address_of(codegen, node->data.call.args[0], "_ma");
         emit(codegen, ", &_hk); })");
@@ -4650,7 +4604,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         if (map_t && map_t->kind == TK_MAP && map_t->key_type)
             c_key = gray_map_element_c_type(codegen, map_t->key_type);
         emit_formatted(codegen, "({ %s _rk = ", c_key);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, map_t ? map_t->key_type : NULL, node->data.call.args[1]);
         emit(codegen, "; gray_map_remove(");
         emit_address_of(codegen, node->data.call.args[0], "_ma");
         emit(codegen, ", &_rk); })");
@@ -4692,7 +4646,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         const char *c_val_type = "int64_t";
         if (map_t && map_t->value_type) c_val_type = gray_map_element_c_type(codegen, map_t->value_type);
         emit_formatted(codegen, "({ %s _cv = ", c_val_type);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, map_t ? map_t->value_type : NULL, node->data.call.args[1]);
         emit(codegen, "; gray_maps_contains_value(");
         emit_address_of(codegen, node->data.call.args[0], "_ma");
         emit_formatted(codegen, ", &_cv, %s); })", gray_map_key_kind_macro(c_val_type));
@@ -4706,9 +4660,9 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         if (map_t && map_t->key_type) c_key = gray_map_element_c_type(codegen, map_t->key_type);
         if (map_t && map_t->value_type) c_val = gray_map_element_c_type(codegen, map_t->value_type);
         emit_formatted(codegen, "({ %s _gk = ", c_key);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, map_t ? map_t->key_type : NULL, node->data.call.args[1]);
         emit_formatted(codegen, "; %s _gd = ", c_val);
-        emit_expression(codegen, node->data.call.args[2]);
+        emit_value_as(codegen, map_t ? map_t->value_type : NULL, node->data.call.args[2]);
         emit(codegen, "; void *_gv = gray_map_get(");
         emit_address_of(codegen, node->data.call.args[0], "_ma");
         emit_formatted(codegen, ", &_gk); _gv ? *(%s *)_gv : _gd; })", c_val);
@@ -5108,7 +5062,11 @@ static bool emit_binary_call(CodeGen *codegen, AstNode *node, const char *func)
     if (is_decode) {
         emit_address_of(codegen, node->data.call.args[0], "_ba");
     } else {
-        emit_expression(codegen, node->data.call.args[0]);
+        /* encode_T and encode_T_le take a T */
+        char value_type[SHORT_VAR_BUF] = "";
+        if (is_encode) sscanf(func, "encode_%15[^_]", value_type);
+        if (!emit_narrowing_cast(codegen, value_type, node->data.call.args[0], node->token.line))
+            emit_expression(codegen, node->data.call.args[0]);
     }
     emit(codegen, ")");
     return true;
@@ -5482,7 +5440,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         char alloc_arena[32];
         snprintf(alloc_arena, sizeof(alloc_arena), "%s", place_arena(codegen, node->data.call.args[0]));
         emit_formatted(codegen, "{ %s _av = ", c_elem);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, elem_tn, node->data.call.args[1]);
         emit(codegen, "; ");
         /* : escape arena-allocated data to the outer arena when
          * inside a loop scope. Strings get a simple copy; arrays, maps,
@@ -5504,7 +5462,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         const char *c_elem = ia_elem_tn ? array_element_c_type(codegen, ia_elem_tn) : "__auto_type";
         const char *ia_arena = place_arena(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "{ %s _iv = ", c_elem);
-        emit_expression(codegen, node->data.call.args[2]);
+        emit_value_as(codegen, ia_elem_tn, node->data.call.args[2]);
         emit(codegen, "; ");
         bool ia_str = (val_t && val_t->kind == TK_STRING) ||
             (ia_elem_tn && strcmp(ia_elem_tn, "string") == 0);
@@ -6613,7 +6571,7 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                                     emit_expression(codegen, node->data.call.args[i]);
                                 }
                             } else if (i < pc && uf->data.func_decl.params[i].default_value) {
-                                emit_expression(codegen, uf->data.func_decl.params[i].default_value);
+                                emit_value_as(codegen, uf->data.func_decl.params[i].type_name, uf->data.func_decl.params[i].default_value);
                             }
                         }
                         emit(codegen, ")");
@@ -6969,7 +6927,7 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                         if (any_emitted) emit(codegen, ", ");
                         any_emitted = true;
                         if (ns_func->data.func_decl.params[i].default_value) {
-                            emit_expression(codegen, ns_func->data.func_decl.params[i].default_value);
+                            emit_value_as(codegen, ns_func->data.func_decl.params[i].type_name, ns_func->data.func_decl.params[i].default_value);
                         } else {
                             emit(codegen, "0");
                         }
@@ -7288,7 +7246,7 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                     const char *pname = target_func->data.func_decl.params[i].name;
                     emit_formatted(codegen, "%s", pname ? sanitize_name(pname) : "_arg");
                 } else {
-                    emit_expression(codegen, target_func->data.func_decl.params[i].default_value);
+                    emit_value_as(codegen, target_func->data.func_decl.params[i].type_name, target_func->data.func_decl.params[i].default_value);
                 }
             }
         }
@@ -7331,7 +7289,7 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                     const char *c_key = "GrayString";
                     if (left_t->key_type) c_key = gray_map_element_c_type(codegen, left_t->key_type);
                     emit_formatted(codegen, "({ %s _mk = ", c_key);
-                    emit_expression(codegen, idx_node->data.index_expr.index);
+                    emit_value_as(codegen, left_t->key_type, idx_node->data.index_expr.index);
                     emit(codegen, "; void *_mv = gray_map_get(&");
                     emit_expression(codegen, idx_node->data.index_expr.left);
                     emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
@@ -7360,7 +7318,7 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
         } else if (target_func && i < param_count &&
                    target_func->data.func_decl.params[i].default_value) {
             /* Default value */
-            emit_expression(codegen, target_func->data.func_decl.params[i].default_value);
+            emit_value_as(codegen, target_func->data.func_decl.params[i].type_name, target_func->data.func_decl.params[i].default_value);
         } else {
             /* No arg and no default; emit zero */
             emit(codegen, "0");
@@ -7416,6 +7374,10 @@ static bool is_nested_array_type(const char *type_name) {
 static bool emit_narrowing_cast(CodeGen *codegen, const char *target,
                                 AstNode *val, int line) {
     if (!target) return false;
+    if (is_bigint_type(target) && !codegen->in_const_decl) {
+        emit_bigint_operand(codegen, val, bigint_prefix(target), target, NULL);
+        return true;
+    }
     const char *smin = NULL, *smax = NULL;
     bool is_unsigned = false;
     if      (strcmp(target, "i8")   == 0) { smin = "-128";          smax = "127"; }
@@ -7833,6 +7795,7 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
         /* Bigint literal zero: emit zero constant instead of plain 0 */
         if (type_name && is_bigint_type(type_name) &&
             node->data.var_decl.value->kind == NODE_INT_VALUE &&
+            !node->data.var_decl.value->data.int_value.overflow &&
             node->data.var_decl.value->data.int_value.value == 0) {
             if (strcmp(type_name, "i128") == 0) emit(codegen, "GRAY_I128_ZERO");
             else if (strcmp(type_name, "u128") == 0) emit(codegen, "GRAY_U128_ZERO");
@@ -7865,49 +7828,8 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
                 const char *from_suffix = (strcmp(type_name, "u128") == 0 || strcmp(type_name, "u256") == 0) ? "u64" : "i64";
                 emit_formatted(codegen, "%s_from_%s(%lldLL)", pfx, from_suffix, (long long)v);
             }
-        } else if (type_name && is_bigint_type(type_name) &&
-                   node->data.var_decl.value->kind == NODE_PREFIX_EXPR &&
-                   node->data.var_decl.value->data.prefix.op == TOK_MINUS &&
-                   node->data.var_decl.value->data.prefix.right->kind == NODE_INT_VALUE) {
-            /* Negated integer literal for bigint: -N → from_i64(-N) or from_decimal("-N") */
-            const char *pfx = bigint_prefix(type_name);
-            AstNode *inner = node->data.var_decl.value->data.prefix.right;
-            if (inner->data.int_value.overflow) {
-                emit_formatted(codegen, "%s_from_decimal(\"-%s\")", pfx, inner->data.int_value.literal);
-            } else {
-                emit_formatted(codegen, "%s_from_i64(%lldLL)", pfx,
-                    -(long long)inner->data.int_value.value);
-            }
-        } else if (type_name && is_bigint_type(type_name) &&
-                   node->data.var_decl.value->kind == NODE_INFIX_EXPR) {
-            /* Infix expression assigned to bigint; use bigint operations.
-             * Emit the infix manually with bigint operand wrapping since
-             * resolve_bigint_type won't detect raw literals as bigint. */
-            AstNode *infix = node->data.var_decl.value;
-            const char *pfx = bigint_prefix(type_name);
-            TokenType op = infix->data.infix.op;
-            const char *fn_op = NULL;
-            if (op == TOK_PLUS) fn_op = "add";
-            else if (op == TOK_MINUS) fn_op = "sub";
-            else if (op == TOK_ASTERISK) fn_op = "mul";
-            else if (op == TOK_SLASH) fn_op = "div";
-            else if (op == TOK_PERCENT) fn_op = "mod";
-            if (fn_op) {
-                bool is_checked = (strcmp(fn_op, "add") == 0 || strcmp(fn_op, "sub") == 0 || strcmp(fn_op, "mul") == 0);
-                if (is_checked)
-                    emit_formatted(codegen, "%s_%s_checked(", pfx, fn_op);
-                else
-                    emit_formatted(codegen, "%s_%s(", pfx, fn_op);
-                EMIT_BIGINT_OPERAND(codegen, infix->data.infix.left, pfx, type_name, NULL);
-                emit(codegen, ", ");
-                EMIT_BIGINT_OPERAND(codegen, infix->data.infix.right, pfx, type_name, NULL);
-                if (is_checked)
-                    emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
-                else
-                    emit(codegen, ")");
-            } else {
-                emit_expression(codegen, node->data.var_decl.value);
-            }
+        } else if (type_name && is_bigint_type(type_name)) {
+            emit_bigint_operand(codegen, node->data.var_decl.value, bigint_prefix(type_name), type_name, NULL);
         } else if (type_name && type_name[0] == '^' &&
                    node->data.var_decl.value->kind == NODE_LABEL &&
                    is_reference_variable(codegen, node->data.var_decl.value->data.label.value)) {
@@ -7935,24 +7857,6 @@ static void emit_typed_declaration(CodeGen *codegen, AstNode *node) {
             emit(codegen, "; ");
             emit_value_deep_copy(codegen, type_name, src_var);
             emit(codegen, "; })");
-        } else if (type_name && is_bigint_type(type_name) &&
-                   !resolve_bigint_type(codegen, node->data.var_decl.value)) {
-            /* Scalar variable/expression assigned to a wide integer type.
-             * Wrap with from_i64/from_u64 so the C assignment is valid.
-             * Covers: mut big i128 = some_int_var */
-            const char *pfx = bigint_prefix(type_name);
-            bool dst_unsigned = (type_name[0] == 'u');
-            GrayType *val_t = codegen->type_table
-                ? typetable_get(codegen->type_table, node->data.var_decl.value) : NULL;
-            bool src_unsigned = (val_t && val_t->kind == TK_UINT);
-            if (dst_unsigned) {
-                emit_formatted(codegen, "%s_from_u64((uint64_t)(", pfx);
-            } else {
-                emit_formatted(codegen, "%s_from_i64((int64_t)(", pfx);
-            }
-            (void)src_unsigned;
-            emit_expression(codegen, node->data.var_decl.value);
-            emit(codegen, "))");
         } else if (!emit_narrowing_cast(codegen, type_name, node->data.var_decl.value, node->token.line)) {
             emit_expression(codegen, node->data.var_decl.value);
         }
@@ -8122,7 +8026,7 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
 
             bool ms_compound = is_compound_assign(node->data.assign.op);
             emit_formatted(codegen, "{ %s _mk = ", c_key);
-            emit_expression(codegen, node->data.assign.target->data.index_expr.index);
+            emit_value_as(codegen, left_t->key_type, node->data.assign.target->data.index_expr.index);
             emit(codegen, "; ");
             if (arena_needs_copy(ms_arena))
                 emit_move_to_arena(codegen, left_t->key_type, "_mk", ms_arena);
@@ -8152,7 +8056,7 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
                 emit_compound_result(codegen, node->data.assign.op, left_t->value_type, cur_text,
                                      node->data.assign.value, node->token.line);
             } else {
-                emit_expression(codegen, node->data.assign.value);
+                emit_value_as(codegen, left_t->value_type, node->data.assign.value);
             }
             emit(codegen, "; ");
             if (arena_needs_copy(ms_arena))
@@ -8282,7 +8186,7 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
                         emit_formatted(codegen, " = %s_%s_checked(", pfx, fn_op);
                         emit_expression(codegen, node->data.assign.target);
                         emit(codegen, ", ");
-                        EMIT_BIGINT_OPERAND(codegen, node->data.assign.value, pfx, tgt_bi, NULL);
+                        emit_bigint_operand(codegen, node->data.assign.value, pfx, tgt_bi, NULL);
                         emit_formatted(codegen, ", \"%s\", %d);\n", codegen->file, node->token.line);
                         return;
                     }
@@ -8290,11 +8194,11 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
                 if (is_div_compound) {
                     const char *fn_op = (aop == TOK_SLASH_ASSIGN) ? "div" : "mod";
                     emit_expression(codegen, node->data.assign.target);
-                    emit_formatted(codegen, " = %s_%s(", pfx, fn_op);
+                    emit_formatted(codegen, " = %s_%s_checked(", pfx, fn_op);
                     emit_expression(codegen, node->data.assign.target);
                     emit(codegen, ", ");
-                    EMIT_BIGINT_OPERAND(codegen, node->data.assign.value, pfx, tgt_bi, NULL);
-                    emit(codegen, ");\n");
+                    emit_bigint_operand(codegen, node->data.assign.value, pfx, tgt_bi, NULL);
+                    emit_formatted(codegen, ", \"%s\", %d);\n", codegen->file, node->token.line);
                     return;
                 }
             }
@@ -8415,6 +8319,17 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
         }
     }
 
+    if (node->data.assign.op == TOK_ASSIGN) {
+        const char *target_bi = resolve_bigint_type(codegen, node->data.assign.target);
+        if (target_bi) {
+            emit_expression(codegen, node->data.assign.target);
+            emit(codegen, " = ");
+            emit_value_as(codegen, target_bi, node->data.assign.value);
+            emit(codegen, ";\n");
+            return;
+        }
+    }
+
     /* Default assignment; suppress ref auto-deref when assigning to a pointer target */
 
     emit_expression(codegen, node->data.assign.target);
@@ -8655,7 +8570,8 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){", mbn, mbn);
         for (int i = 0; i < node->data.return_stmt.count; i++) {
             if (i > 0) emit(codegen, ", ");
-            emit_expression(codegen, node->data.return_stmt.values[i]);
+            emit_value_as(codegen, i < codegen->current_func->data.func_decl.return_type_count
+                ? codegen->current_func->data.func_decl.return_types[i] : NULL, node->data.return_stmt.values[i]);
         }
         emit(codegen, "}; ");
         emit_ensure_cleanup_keeping_ret(codegen);
@@ -8704,7 +8620,8 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Single return value: evaluate into temp, then exit and return */
         emit_indent(codegen);
         emit(codegen, "{ __auto_type _ret = ");
-        emit_expression(codegen, node->data.return_stmt.values[0]);
+        emit_value_as(codegen, codegen->current_func && codegen->current_func->data.func_decl.return_type_count > 0
+            ? codegen->current_func->data.func_decl.return_types[0] : NULL, node->data.return_stmt.values[0]);
         emit(codegen, "; ");
         emit_ensure_cleanup_keeping_ret(codegen);
         if (codegen->current_func && codegen->current_func->data.func_decl.return_type_count > 0) {
@@ -9251,7 +9168,8 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                  * before resolving to a C type. */
                 const char *elem_tn = codegen_effective_type_string(codegen, coll_t->element_type);
                 GrayType *et = type_from_name(elem_tn);
-                if (et->kind == TK_FLOAT) c_elem = "double";
+                if (is_bigint_type(elem_tn)) c_elem = bigint_prefix(elem_tn);
+                else if (et->kind == TK_FLOAT) c_elem = "double";
                 else if (et->kind == TK_BOOL) c_elem = "bool";
                 else if (et->kind == TK_STRING) c_elem = "GrayString";
                 else if (et->kind == TK_ARRAY) c_elem = "GrayArray";
@@ -9399,7 +9317,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "%s_eq(", bigint_prefix(when_bigint));
                     emit(codegen, when_tmp);
                     emit(codegen, ", ");
-                    emit_expression(codegen, wc->values[j]);
+                    emit_value_as(codegen, when_bigint, wc->values[j]);
                     emit(codegen, ")");
                 } else {
                     emit(codegen, when_tmp);
diff --git a/grayc/src/runtime/bigint.h b/grayc/src/runtime/bigint.h
index b6546ea..2b205e5 100644
--- a/grayc/src/runtime/bigint.h
+++ b/grayc/src/runtime/bigint.h
@@ -128,51 +128,89 @@ static inline uint64_t gray_u256_to_u64(gray_u256 a) {
     return a.w[0];
 }
 
+/* --- Conversions Between Wide Types --- */
+
+static inline void gray_wide_cast_require(bool fits, const char *from, const char *to) {
+    if (!fits) {
+        gray_panic_code("P0103", "cast from %s failed; value is outside the representable range of %s", from, to);
+    }
+}
+
+static inline gray_u128 gray_u128_from_i64(int64_t v) {
+    gray_wide_cast_require(v >= 0, "int", "u128");
+    return gray_u128_from_u64((uint64_t)v);
+}
+
+static inline gray_u256 gray_u256_from_i64(int64_t v) {
+    gray_wide_cast_require(v >= 0, "int", "u256");
+    return gray_u256_from_u64((uint64_t)v);
+}
+
+static inline gray_i128 gray_i128_from_u64(uint64_t v) {
+    return (gray_i128){v, 0};
+}
+
+static inline gray_i256 gray_i256_from_u64(uint64_t v) {
+    return (gray_i256){{v, 0, 0, 0}};
+}
+
 static inline gray_u128 gray_u128_from_i128(gray_i128 a) {
-    gray_u128 r;
-    r.lo = a.lo;
-    r.hi = (uint64_t)a.hi;
-    return r;
+    gray_wide_cast_require(a.hi >= 0, "i128", "u128");
+    return (gray_u128){a.lo, (uint64_t)a.hi};
 }
 
 static inline gray_i128 gray_i128_from_u128(gray_u128 a) {
-    gray_i128 r;
-    r.lo = a.lo;
-    r.hi = (int64_t)a.hi;
-    return r;
+    gray_wide_cast_require((int64_t)a.hi >= 0, "u128", "i128");
+    return (gray_i128){a.lo, (int64_t)a.hi};
 }
 
 static inline gray_i256 gray_i256_from_i128(gray_i128 a) {
-    gray_i256 r;
-    r.w[0] = a.lo;
-    r.w[1] = (uint64_t)a.hi;
-    int64_t sign = (a.hi < 0) ? -1 : 0;
-    r.w[2] = (uint64_t)sign;
-    r.w[3] = (uint64_t)sign;
-    return r;
+    uint64_t sign = a.hi < 0 ? UINT64_MAX : 0;
+    return (gray_i256){{a.lo, (uint64_t)a.hi, sign, sign}};
+}
+
+static inline gray_i256 gray_i256_from_u128(gray_u128 a) {
+    return (gray_i256){{a.lo, a.hi, 0, 0}};
 }
 
 static inline gray_u256 gray_u256_from_u128(gray_u128 a) {
-    gray_u256 r;
-    r.w[0] = a.lo;
-    r.w[1] = a.hi;
-    r.w[2] = 0;
-    r.w[3] = 0;
-    return r;
+    return (gray_u256){{a.lo, a.hi, 0, 0}};
+}
+
+static inline gray_u256 gray_u256_from_i128(gray_i128 a) {
+    gray_wide_cast_require(a.hi >= 0, "i128", "u256");
+    return (gray_u256){{a.lo, (uint64_t)a.hi, 0, 0}};
 }
 
 static inline gray_i128 gray_i128_from_i256(gray_i256 a) {
-    gray_i128 r;
-    r.lo = a.w[0];
-    r.hi = (int64_t)a.w[1];
-    return r;
+    uint64_t sign = (int64_t)a.w[1] < 0 ? UINT64_MAX : 0;
+    gray_wide_cast_require(a.w[2] == sign && a.w[3] == sign, "i256", "i128");
+    return (gray_i128){a.w[0], (int64_t)a.w[1]};
+}
+
+static inline gray_u128 gray_u128_from_i256(gray_i256 a) {
+    gray_wide_cast_require(a.w[2] == 0 && a.w[3] == 0, "i256", "u128");
+    return (gray_u128){a.w[0], a.w[1]};
 }
 
 static inline gray_u128 gray_u128_from_u256(gray_u256 a) {
-    gray_u128 r;
-    r.lo = a.w[0];
-    r.hi = a.w[1];
-    return r;
+    gray_wide_cast_require(a.w[2] == 0 && a.w[3] == 0, "u256", "u128");
+    return (gray_u128){a.w[0], a.w[1]};
+}
+
+static inline gray_i128 gray_i128_from_u256(gray_u256 a) {
+    gray_wide_cast_require((int64_t)a.w[1] >= 0 && a.w[2] == 0 && a.w[3] == 0, "u256", "i128");
+    return (gray_i128){a.w[0], (int64_t)a.w[1]};
+}
+
+static inline gray_i256 gray_i256_from_u256(gray_u256 a) {
+    gray_wide_cast_require((int64_t)a.w[3] >= 0, "u256", "i256");
+    return (gray_i256){{a.w[0], a.w[1], a.w[2], a.w[3]}};
+}
+
+static inline gray_u256 gray_u256_from_i256(gray_i256 a) {
+    gray_wide_cast_require((int64_t)a.w[3] >= 0, "i256", "u256");
+    return (gray_u256){{a.w[0], a.w[1], a.w[2], a.w[3]}};
 }
 
 /* --- i128 Arithmetic --- */
@@ -180,21 +218,21 @@ static inline gray_u128 gray_u128_from_u256(gray_u256 a) {
 static inline gray_i128 gray_i128_add(gray_i128 a, gray_i128 b) {
     gray_i128 r;
     r.lo = a.lo + b.lo;
-    r.hi = a.hi + b.hi + (r.lo < a.lo ? 1 : 0);
+    r.hi = (int64_t)((uint64_t)a.hi + (uint64_t)b.hi + (r.lo < a.lo ? 1 : 0));
     return r;
 }
 
 static inline gray_i128 gray_i128_sub(gray_i128 a, gray_i128 b) {
     gray_i128 r;
     r.lo = a.lo - b.lo;
-    r.hi = a.hi - b.hi - (a.lo < b.lo ? 1 : 0);
+    r.hi = (int64_t)((uint64_t)a.hi - (uint64_t)b.hi - (a.lo < b.lo ? 1 : 0));
     return r;
 }
 
 static inline gray_i128 gray_i128_neg(gray_i128 a) {
     gray_i128 r;
     r.lo = ~a.lo + 1;
-    r.hi = ~a.hi + (r.lo == 0 ? 1 : 0);
+    r.hi = (int64_t)(~(uint64_t)a.hi + (r.lo == 0 ? 1 : 0));
     return r;
 }
 
@@ -239,7 +277,8 @@ static inline void gray_u128_divmod(gray_u128 a, gray_u128 b, gray_u128 *q, gray
     gray_u128 quotient = GRAY_U128_ZERO;
     gray_u128 remainder = GRAY_U128_ZERO;
     for (int i = 127; i >= 0; i--) {
-        /* remainder <<= 1 */
+        /* remainder <<= 1; a bit shifted out makes it larger than any divisor */
+        bool shifted_out = remainder.hi >> 63;
         remainder.hi = (remainder.hi << 1) | (remainder.lo >> 63);
         remainder.lo <<= 1;
         /* Get bit i of a */
@@ -249,7 +288,7 @@ static inline void gray_u128_divmod(gray_u128 a, gray_u128 b, gray_u128 *q, gray
             remainder.lo |= (a.lo >> i) & 1;
         }
         /* if remainder >= b */
-        if (remainder.hi > b.hi || (remainder.hi == b.hi && remainder.lo >= b.lo)) {
+        if (shifted_out || remainder.hi > b.hi || (remainder.hi == b.hi && remainder.lo >= b.lo)) {
             /* remainder -= b */
             uint64_t borrow = (remainder.lo < b.lo) ? 1 : 0;
             remainder.lo -= b.lo;
@@ -382,7 +421,7 @@ static inline gray_i256 gray_i256_sub(gray_i256 a, gray_i256 b) {
     uint64_t borrow = 0;
     for (int i = 0; i < 4; i++) {
         uint64_t diff = a.w[i] - b.w[i] - borrow;
-        borrow = (a.w[i] < b.w[i] + borrow) ? 1 : 0;
+        borrow = (a.w[i] < b.w[i] || (borrow && a.w[i] == b.w[i])) ? 1 : 0;
         r.w[i] = diff;
     }
     return r;
@@ -441,7 +480,8 @@ static inline void gray_u256_divmod(gray_u256 a, gray_u256 b, gray_u256 *q, gray
     gray_u256 quotient = GRAY_U256_ZERO;
     gray_u256 remainder = GRAY_U256_ZERO;
     for (int i = 255; i >= 0; i--) {
-        /* remainder <<= 1 */
+        /* remainder <<= 1; a bit shifted out makes it larger than any divisor */
+        bool shifted_out = remainder.w[3] >> 63;
         remainder.w[3] = (remainder.w[3] << 1) | (remainder.w[2] >> 63);
         remainder.w[2] = (remainder.w[2] << 1) | (remainder.w[1] >> 63);
         remainder.w[1] = (remainder.w[1] << 1) | (remainder.w[0] >> 63);
@@ -451,8 +491,8 @@ static inline void gray_u256_divmod(gray_u256 a, gray_u256 b, gray_u256 *q, gray
         int bit = i % 64;
         remainder.w[0] |= (a.w[word] >> bit) & 1;
         /* if remainder >= b */
-        bool ge = false;
-        for (int k = 3; k >= 0; k--) {
+        bool ge = shifted_out;
+        for (int k = 3; k >= 0 && !ge; k--) {
             if (remainder.w[k] > b.w[k]) { ge = true; break; }
             if (remainder.w[k] < b.w[k]) break;
             if (k == 0) ge = true;
@@ -462,7 +502,7 @@ static inline void gray_u256_divmod(gray_u256 a, gray_u256 b, gray_u256 *q, gray
             uint64_t borrow = 0;
             for (int k = 0; k < 4; k++) {
                 uint64_t diff = remainder.w[k] - b.w[k] - borrow;
-                borrow = (remainder.w[k] < b.w[k] + borrow) ? 1 : 0;
+                borrow = (remainder.w[k] < b.w[k] || (borrow && remainder.w[k] == b.w[k])) ? 1 : 0;
                 remainder.w[k] = diff;
             }
             quotient.w[word] |= (uint64_t)1 << bit;
@@ -538,7 +578,7 @@ static inline gray_u256 gray_u256_sub(gray_u256 a, gray_u256 b) {
     uint64_t borrow = 0;
     for (int i = 0; i < 4; i++) {
         uint64_t diff = a.w[i] - b.w[i] - borrow;
-        borrow = (a.w[i] < b.w[i] + borrow) ? 1 : 0;
+        borrow = (a.w[i] < b.w[i] || (borrow && a.w[i] == b.w[i])) ? 1 : 0;
         r.w[i] = diff;
     }
     return r;
@@ -596,52 +636,66 @@ static inline bool gray_u256_gt(gray_u256 a, gray_u256 b) { return gray_u256_lt(
 static inline bool gray_u256_le(gray_u256 a, gray_u256 b) { return !gray_u256_gt(a, b); }
 static inline bool gray_u256_ge(gray_u256 a, gray_u256 b) { return !gray_u256_lt(a, b); }
 
-/* --- Decimal String Constructors --- */
+/* --- Literal Constructors --- */
+
+/* Reads an integer literal (decimal, 0x, 0o or 0b, with separators) into the
+ * four words of an unsigned value; false when it needs more than 256 bits. */
+static inline bool gray_wide_parse_literal(const char *s, uint64_t w[4]) {
+    uint64_t base = 10;
+    w[0] = w[1] = w[2] = w[3] = 0;
+    if (s[0] == '0' && s[1] != '\0' && (s[1] < '0' || s[1] > '9') && s[1] != '_') {
+        base = (s[1] == 'x' || s[1] == 'X') ? 16 : (s[1] == 'o' || s[1] == 'O') ? 8 : 2;
+        s += 2;
+    }
+    for (; *s; s++) {
+        if (*s == '_') continue;
+        uint64_t carry = (uint64_t)(*s <= '9' ? *s - '0' : (*s | 0x20) - 'a' + 10);
+        for (int i = 0; i < 4; i++) {
+            /* w[i] * base + carry, in 32-bit halves */
+            uint64_t lo = (w[i] & 0xFFFFFFFF) * base + carry;
+            uint64_t hi = (w[i] >> 32) * base + (lo >> 32);
+            w[i] = (hi << 32) | (lo & 0xFFFFFFFF);
+            carry = hi >> 32;
+        }
+        if (carry) return false;
+    }
+    return true;
+}
+
+static inline void gray_wide_literal_require(bool fits, const char *literal, const char *type) {
+    if (!fits) gray_panic_code("P0103", "integer literal %s does not fit in %s", literal, type);
+}
 
 static inline gray_u128 gray_u128_from_decimal(const char *s) {
-    gray_u128 result = GRAY_U128_ZERO;
-    gray_u128 ten = {10, 0};
-    while (*s) {
-        if (*s == '_') { s++; continue; }
-        result = gray_u128_mul(result, ten);
-        gray_u128 digit = {(uint64_t)(*s - '0'), 0};
-        result = gray_u128_add(result, digit);
-        s++;
-    }
-    return result;
+    uint64_t w[4];
+    bool fits = gray_wide_parse_literal(s, w) && w[2] == 0 && w[3] == 0;
+    gray_wide_literal_require(fits, s, "u128");
+    return (gray_u128){w[0], w[1]};
 }
 
 static inline gray_i128 gray_i128_from_decimal(const char *s) {
-    bool neg = false;
-    if (*s == '-') { neg = true; s++; }
-    gray_u128 u = gray_u128_from_decimal(s);
-    gray_i128 r;
-    r.lo = u.lo;
-    r.hi = (int64_t)u.hi;
+    uint64_t w[4];
+    bool neg = *s == '-';
+    bool fits = gray_wide_parse_literal(s + neg, w) && w[2] == 0 && w[3] == 0 &&
+                (w[1] <= INT64_MAX || (neg && w[1] == (uint64_t)INT64_MIN && w[0] == 0));
+    gray_wide_literal_require(fits, s, "i128");
+    gray_i128 r = {w[0], (int64_t)w[1]};
     return neg ? gray_i128_neg(r) : r;
 }
 
 static inline gray_u256 gray_u256_from_decimal(const char *s) {
-    gray_u256 result = GRAY_U256_ZERO;
-    gray_u256 ten = GRAY_U256_ZERO;
-    ten.w[0] = 10;
-    while (*s) {
-        if (*s == '_') { s++; continue; }
-        result = gray_u256_mul(result, ten);
-        gray_u256 digit = GRAY_U256_ZERO;
-        digit.w[0] = (uint64_t)(*s - '0');
-        result = gray_u256_add(result, digit);
-        s++;
-    }
-    return result;
+    gray_u256 r;
+    gray_wide_literal_require(gray_wide_parse_literal(s, r.w), s, "u256");
+    return r;
 }
 
 static inline gray_i256 gray_i256_from_decimal(const char *s) {
-    bool neg = false;
-    if (*s == '-') { neg = true; s++; }
-    gray_u256 u = gray_u256_from_decimal(s);
     gray_i256 r;
-    memcpy(&r, &u, sizeof(r));
+    bool neg = *s == '-';
+    bool fits = gray_wide_parse_literal(s + neg, r.w) &&
+                (r.w[3] <= INT64_MAX ||
+                 (neg && r.w[3] == (uint64_t)INT64_MIN && (r.w[0] | r.w[1] | r.w[2]) == 0));
+    gray_wide_literal_require(fits, s, "i256");
     return neg ? gray_i256_neg(r) : r;
 }
 
@@ -669,7 +723,7 @@ static inline gray_i128 gray_i128_mul_checked(gray_i128 a, gray_i128 b, const ch
     bool b_zero = (b.hi == 0 && b.lo == 0);
     if (!a_zero && !b_zero) {
         gray_i128 check = gray_i128_div(r, b);
-        if (!gray_i128_eq(check, a)) {
+        if (!gray_i128_eq(check, a) || (r.hi < 0) != ((a.hi < 0) != (b.hi < 0))) {
             gray_panic_code("P0023", "i128 multiplication result is too large; value exceeds the range of i128");
         }
     }
@@ -732,7 +786,7 @@ static inline gray_i256 gray_i256_mul_checked(gray_i256 a, gray_i256 b, const ch
     bool b_zero = (b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0);
     if (!a_zero && !b_zero) {
         gray_i256 check = gray_i256_div(r, b);
-        if (!gray_i256_eq(check, a)) {
+        if (!gray_i256_eq(check, a) || gray_i256_is_neg(r) != (gray_i256_is_neg(a) != gray_i256_is_neg(b))) {
             gray_panic_code("P0029", "i256 multiplication result is too large; value exceeds the range of i256");
         }
     }
@@ -767,6 +821,47 @@ static inline gray_u256 gray_u256_mul_checked(gray_u256 a, gray_u256 b, const ch
     return r;
 }
 
+/* --- Checked Division, Remainder and Negation --- */
+
+#define GRAY_WIDE_UNSIGNED_DIVISION(T, is_zero) \
+    static inline gray_##T gray_##T##_div_checked(gray_##T a, gray_##T b, const char *file, int line) { \
+        if (is_zero(b)) gray_panic_code_at(file, line, "P0078", "division by zero"); \
+        return gray_##T##_div(a, b); \
+    } \
+    static inline gray_##T gray_##T##_mod_checked(gray_##T a, gray_##T b, const char *file, int line) { \
+        if (is_zero(b)) gray_panic_code_at(file, line, "P0078", "division by zero"); \
+        return gray_##T##_mod(a, b); \
+    }
+
+/* The quotient, and the negation, of the smallest value do not fit. */
+#define GRAY_WIDE_SIGNED_DIVISION(T, is_zero, is_min, is_minus_one) \
+    static inline gray_##T gray_##T##_div_checked(gray_##T a, gray_##T b, const char *file, int line) { \
+        if (is_zero(b)) gray_panic_code_at(file, line, "P0078", "division by zero"); \
+        if (is_min(a) && is_minus_one(b)) \
+            gray_panic_code_at(file, line, "P0023", #T " division result is too large; value exceeds the range of " #T); \
+        return gray_##T##_div(a, b); \
+    } \
+    static inline gray_##T gray_##T##_mod_checked(gray_##T a, gray_##T b, const char *file, int line) { \
+        if (is_zero(b)) gray_panic_code_at(file, line, "P0078", "division by zero"); \
+        return gray_##T##_mod(a, b); \
+    } \
+    static inline gray_##T gray_##T##_neg_checked(gray_##T a, const char *file, int line) { \
+        if (is_min(a)) \
+            gray_panic_code_at(file, line, "P0022", #T " negation result is too large; value exceeds the range of " #T); \
+        return gray_##T##_neg(a); \
+    }
+
+#define GRAY_WIDE2_ZERO(v) ((v).lo == 0 && (v).hi == 0)
+#define GRAY_WIDE2_MIN(v) ((v).lo == 0 && (v).hi == INT64_MIN)
+#define GRAY_WIDE2_MINUS_ONE(v) ((v).lo == UINT64_MAX && (v).hi == -1)
+#define GRAY_WIDE4_ZERO(v) (((v).w[0] | (v).w[1] | (v).w[2] | (v).w[3]) == 0)
+#define GRAY_WIDE4_MIN(v) (((v).w[0] | (v).w[1] | (v).w[2]) == 0 && (v).w[3] == (uint64_t)INT64_MIN)
+#define GRAY_WIDE4_MINUS_ONE(v) (((v).w[0] & (v).w[1] & (v).w[2] & (v).w[3]) == UINT64_MAX)
+GRAY_WIDE_UNSIGNED_DIVISION(u128, GRAY_WIDE2_ZERO)
+GRAY_WIDE_UNSIGNED_DIVISION(u256, GRAY_WIDE4_ZERO)
+GRAY_WIDE_SIGNED_DIVISION(i128, GRAY_WIDE2_ZERO, GRAY_WIDE2_MIN, GRAY_WIDE2_MINUS_ONE)
+GRAY_WIDE_SIGNED_DIVISION(i256, GRAY_WIDE4_ZERO, GRAY_WIDE4_MIN, GRAY_WIDE4_MINUS_ONE)
+
 /* --- Printing (to_string) --- */
 
 /* Helper: convert unsigned 128-bit to decimal string */
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 886d3bb..3b2b750 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -3334,6 +3334,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                             ok = true;
                             break;
                         }
+                        /* Directives take at most 64 bits */
+                        if (spec != 's' && is_bigint_type(dt->name)) ok = false;
                         if (!ok && expected) {
                             char spec_str[2] = { spec, '\0' };
                             diagnostic_error_code_formatted(checker->diag, "E3088",
@@ -7743,6 +7745,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 strcmp(tn, "uint") == 0 || strcmp(tn, "u64") == 0 ||
                 strcmp(tn, "u8") == 0 || strcmp(tn, "u16") == 0 || strcmp(tn, "u32") == 0 ||
                 strcmp(tn, "u128") == 0 || strcmp(tn, "u256") == 0;
+            /* Folding is 64-bit; an expression beyond that may fit a wide type. */
+            bool is_wide_type = is_bigint_type(tn);
             if (is_int_type) {
                 int64_t folded = 0;
                 bool overflowed = false;
@@ -7751,7 +7755,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     /* Expression is a valid compile-time constant.  Register
                      * the value so later const declarations can reference it. */
                     typechecker_register_const_int(checker, node->data.var_decl.name, folded);
-                } else if (overflowed) {
+                } else if (overflowed && !is_wide_type) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
                         "constant expression overflows type '%s'", tn);
@@ -8386,11 +8390,13 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     if (elem_type[0]) {
                         AstNode *arr = node->data.var_decl.value;
                         bool elem_is_u64_like = (strcmp(elem_type, "uint") == 0 || strcmp(elem_type, "u64") == 0);
+                        bool elem_is_wide = is_bigint_type(elem_type);
                         for (int enum_index = 0; enum_index < arr->data.array_value.count; enum_index++) {
                             AstNode *el = arr->data.array_value.elements[enum_index];
                             bool el_overflowed = (el->kind == NODE_INT_VALUE && el->data.int_value.overflow);
                             bool el_overflowed_u64 = (el->kind == NODE_INT_VALUE && el->data.int_value.overflow_u64);
-                            /* Element exceeds UINT64_MAX entirely; always an error. */
+                            if (elem_is_wide) continue;
+                            /* Element exceeds UINT64_MAX entirely. */
                             if (el_overflowed_u64) {
                                 diagnostic_error_message(checker->diag, "E3046",
                                     "integer literal overflows 64-bit integer; max value is 18446744073709551615",
-- 
2.43.0


From 4fd6249609188b1090242fca9488946942faeb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:30 +0000
Subject: [PATCH 24/56] fix: container literals, elements and string literals
 take their declared type and length

---
 grayc/src/codegen/codegen.c         | 87 +++++++++++++++++++++--------
 grayc/src/stdlib/arrays.c           | 28 ++++++++--
 grayc/src/stdlib/arrays.h           | 18 ++++++
 grayc/src/typechecker/typechecker.c | 16 ++++--
 4 files changed, 117 insertions(+), 32 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 1512554..5193cd7 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -75,6 +75,8 @@ static bool codegen_is_enum(CodeGen *codegen, const char *name);
 static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static int codegen_enum_index(CodeGen *codegen, const char *name);
 static void emit_to_string(CodeGen *codegen, AstNode *arg);
+static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *tmp);
+static void emit_array_argument_address(CodeGen *codegen, AstNode *arg);
 static bool emit_narrowing_cast(CodeGen *codegen, const char *target, AstNode *val, int line);
 static void emit_bigint_arithmetic(CodeGen *codegen, AstNode *infix, const char *bi_type);
 static void emit_value_as(CodeGen *codegen, const char *type_name, AstNode *value);
@@ -860,6 +862,9 @@ static bool is_arithmetic_operator(TokenType op) {
 static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     if (!node) return NULL;
     if (node->kind == NODE_LABEL) {
+        GrayType *t = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+        if (t && t->kind != TK_UNKNOWN)
+            return (t->kind == TK_INT || t->kind == TK_UINT) && t->name && is_bigint_type(t->name) ? t->name : NULL;
         return lookup_bigint_variable(codegen, node->data.label.value);
     }
     /* If the node is a call to a bigint cast function */
@@ -1003,6 +1008,7 @@ static const char *array_element_suffix(CodeGen *codegen, GrayType *array_type)
     if (strcmp(c_type, "uint64_t") == 0) return "uint";
     if (strcmp(c_type, "int32_t") == 0 || strncmp(c_type, "GrayEnum_", 9) == 0) return "char";
     if (strcmp(c_type, "uint8_t") == 0 || strcmp(c_type, "bool") == 0) return "byte";
+    if (strncmp(c_type, "gray_i", 6) == 0 || strncmp(c_type, "gray_u", 6) == 0) return c_type + 5;
     return "int";
 }
 
@@ -1176,6 +1182,20 @@ static void emit_move_to_arena(CodeGen *codegen, const char *type_name, const ch
     emit(codegen, "; gray_default_arena = _esc; } ");
 }
 
+/* Emit `value` as an element of the named type, in the arena that owns the
+ * array it is stored into. */
+static void emit_element_value(CodeGen *codegen, const char *element_type, const char *c_elem,
+                               AstNode *array, AstNode *value) {
+    const char *arena = place_arena(codegen, array);
+    bool moves = arena_needs_copy(arena) && type_needs_deep_copy(codegen, element_type);
+    if (moves) emit_formatted(codegen, "({ %s _ev = ", c_elem);
+    emit_value_as(codegen, element_type, value);
+    if (!moves) return;
+    emit(codegen, "; ");
+    emit_move_to_arena(codegen, element_type, "_ev", arena);
+    emit(codegen, "_ev; })");
+}
+
 static bool is_result_temporary(const char *name) {
     if (!name) return false;
     return strncmp(name, "_gray_tmp", 9) == 0 || strncmp(name, "_gray_or", 8) == 0;
@@ -1603,11 +1623,12 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
          * since strlen() would truncate at the null */
         bool has_null = false;
         int str_len = 0;
-        for (const char *scan = s; *scan; scan++) {
-            if (scan[0] == '\\' && scan[1] == 'x' && scan[2] == '0' && scan[3] == '0') {
-                has_null = true;
-                str_len++; /* \x00 = 1 byte */
-                scan += 3;
+        for (const char *scan = s; *scan && !node->data.string_value.is_raw; scan++) {
+            if (scan[0] == '\\' && scan[1] == 'x' && isxdigit((unsigned char)scan[2])) {
+                char digits[3] = { scan[2], isxdigit((unsigned char)scan[3]) ? scan[3] : '\0', '\0' };
+                if (strtol(digits, NULL, 16) == 0) has_null = true;
+                str_len++; /* \xN or \xNN = 1 byte */
+                scan += 1 + strlen(digits);
             } else if (scan[0] == '\\' && scan[1] == '0') {
                 has_null = true;
                 str_len++; /* \0 = 1 byte */
@@ -1662,6 +1683,13 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 } else if (s[0] == '\\' && s[1] == '$') {
                     append_char_to_buffer(&codegen->output, '$');
                     s += 2;
+                } else if (s[0] == '\\' && s[1] == '0') {
+                    emit(codegen, "\\000"); /* three digits, so that no octal digit can follow */
+                    s += 2;
+                } else if (s[0] == '\\' && s[1]) {
+                    append_char_to_buffer(&codegen->output, s[0]);
+                    append_char_to_buffer(&codegen->output, s[1]);
+                    s += 2;
                 } else if (*s == '\n') {
                     emit(codegen, "\\n");
                     s++;
@@ -1908,11 +1936,17 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         /* Check if this is a nested array (elements are arrays) */
         if (node->data.array_value.elements[0]->kind == NODE_ARRAY_VALUE) {
             /* Nested array: each element is an GrayArray */
+            const char *outer_type = codegen->current_var_type;
+            if (outer_type && outer_type[0] == '[') {
+                GrayType *declared = type_from_name(outer_type);
+                codegen->current_var_type = declared ? declared->element_type : NULL;
+            }
             emit_formatted(codegen, "gray_array_from(gray_default_arena, (GrayArray[]){");
             for (int i = 0; i < count; i++) {
                 if (i > 0) emit(codegen, ", ");
                 emit_expression(codegen, node->data.array_value.elements[i]);
             }
+            codegen->current_var_type = outer_type;
             emit_formatted(codegen, "}, sizeof(GrayArray), %d)", count);
             break;
         }
@@ -1966,13 +2000,12 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         }
         TypeKind tk = elem_t ? elem_t->kind : TK_INT;
 
-        /* Integer literals in a declared [float]/[f32]/[f64] array must use
-         * double so the C compound literal stores the correct IEEE 754 bits
-         * instead of raw int64_t bit patterns. */
-        if (tk == TK_INT && codegen->current_var_type) {
-            const char *cvt = codegen->current_var_type;
-            if (strcmp(cvt, "[float]") == 0 || strcmp(cvt, "[f32]") == 0 || strcmp(cvt, "[f64]") == 0)
-                tk = TK_FLOAT;
+        /* Integer literals take the storage of the place's element type */
+        if (tk == TK_INT && codegen->current_var_type && codegen->current_var_type[0] == '[') {
+            GrayType *declared = type_from_name(codegen->current_var_type);
+            GrayType *stored = declared && declared->element_type ? type_from_name(declared->element_type) : NULL;
+            if (stored && (stored->kind == TK_FLOAT || stored->kind == TK_BYTE || stored->kind == TK_UINT))
+                tk = stored->kind;
         }
 
         const char *c_type;
@@ -2378,8 +2411,8 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 if (negated) emit(codegen, "!");
                 emit_formatted(codegen, "({ %s _ik = ", gray_map_element_c_type(codegen, arr_t->key_type));
                 emit_value_as(codegen, arr_t->key_type, node->data.infix.left);
-                emit(codegen, "; gray_maps_has_key(&");
-                emit_expression(codegen, node->data.infix.right);
+                emit(codegen, "; gray_maps_has_key(");
+                emit_address_of(codegen, node->data.infix.right, "_im");
                 emit(codegen, ", &_ik); })");
                 break;
             }
@@ -2409,11 +2442,12 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             }
             if (negated) emit(codegen, "!");
             {
-                emit_formatted(codegen, "gray_arrays_contains_%s(&",
+                emit_formatted(codegen, "gray_arrays_contains_%s(",
                     array_element_suffix(codegen, arr_t));
-                emit_expression(codegen, node->data.infix.right);
+                emit_array_argument_address(codegen, node->data.infix.right);
                 emit(codegen, ", ");
-                emit_expression(codegen, node->data.infix.left);
+                emit_value_as(codegen, arr_t && arr_t->kind == TK_ARRAY ? arr_t->element_type : NULL,
+                              node->data.infix.left);
                 emit(codegen, ")");
             }
             break;
@@ -5498,7 +5532,8 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit_array_argument_address(codegen, node->data.call.args[0]);
         if (searches) {
             emit(codegen, ", ");
-            emit_expression(codegen, node->data.call.args[1]);
+            emit_value_as(codegen, arr_t && arr_t->kind == TK_ARRAY ? arr_t->element_type : NULL,
+                          node->data.call.args[1]);
         }
         emit(codegen, ")");
         return true;
@@ -5533,7 +5568,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         const char *pp_elem_tn = (pp_arr_t && pp_arr_t->kind == TK_ARRAY) ? pp_arr_t->element_type : NULL;
         const char *pp_c_elem = pp_elem_tn ? array_element_c_type(codegen, pp_elem_tn) : "int64_t";
         emit_formatted(codegen, "{ %s _pv = ", pp_c_elem);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, pp_elem_tn, node->data.call.args[1]);
         emit(codegen, "; ");
         if (arena_needs_copy(pp_arena))
             emit_move_to_arena(codegen, pp_elem_tn, "_pv", pp_arena);
@@ -5548,7 +5583,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             ? array_element_c_type(codegen, fl_arr_t->element_type) : "int64_t";
         const char *fl_arena = place_arena(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "{ %s _fv = ", fl_c_elem);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_value_as(codegen, fl_arr_t && fl_arr_t->kind == TK_ARRAY ? fl_arr_t->element_type : NULL, node->data.call.args[1]);
         emit(codegen, "; ");
         if (arena_needs_copy(fl_arena) && fl_arr_t)
             emit_move_to_arena(codegen, fl_arr_t->element_type, "_fv", fl_arena);
@@ -7378,6 +7413,14 @@ static bool emit_narrowing_cast(CodeGen *codegen, const char *target,
         emit_bigint_operand(codegen, val, bigint_prefix(target), target, NULL);
         return true;
     }
+    if (val->kind == NODE_ARRAY_VALUE || val->kind == NODE_MAP_VALUE) {
+        /* The place, not an enclosing declaration, gives the element types */
+        const char *outer_type = codegen->current_var_type;
+        codegen->current_var_type = target;
+        emit_expression(codegen, val);
+        codegen->current_var_type = outer_type;
+        return true;
+    }
     const char *smin = NULL, *smax = NULL;
     bool is_unsigned = false;
     if      (strcmp(target, "i8")   == 0) { smin = "-128";          smax = "127"; }
@@ -7978,7 +8021,7 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "GRAY_ARRAY_SET(%s, %s, ", arr_text, c_elem);
                     emit_expression(codegen, node->data.assign.target->data.index_expr.index);
                     emit(codegen, ", ");
-                    emit_expression(codegen, node->data.assign.value);
+                    emit_element_value(codegen, left_t->element_type, c_elem, left, node->data.assign.value);
                     emit(codegen, "); }\n");
                     return;
                 }
@@ -7997,7 +8040,7 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, ", %s, ", c_elem);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, ", ");
-            emit_expression(codegen, node->data.assign.value);
+            emit_element_value(codegen, left_t->element_type, c_elem, left, node->data.assign.value);
             emit(codegen, ");\n");
             return;
         }
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index 66b3ddf..960b55f 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -465,10 +465,10 @@ void gray_arrays_sort_desc_str(GrayArray *arr) {
     qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_str_desc);
 }
 
-#define DEFINE_SORT(SUFFIX, CTYPE) \
+#define DEFINE_SORT(SUFFIX, CTYPE, LESS) \
     static int cmp_##SUFFIX##_asc(const void *a, const void *b) { \
         CTYPE va = *(const CTYPE *)a, vb = *(const CTYPE *)b; \
-        return (va > vb) - (va < vb); \
+        return LESS(vb, va) - LESS(va, vb); \
     } \
     static int cmp_##SUFFIX##_desc(const void *a, const void *b) { \
         return cmp_##SUFFIX##_asc(b, a); \
@@ -486,6 +486,24 @@ void gray_arrays_sort_desc_str(GrayArray *arr) {
         qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_##SUFFIX##_desc); \
     }
 
-DEFINE_SORT(uint, uint64_t)
-DEFINE_SORT(char, int32_t)
-DEFINE_SORT(byte, uint8_t)
+DEFINE_SORT(uint, uint64_t, SCALAR_LESS)
+DEFINE_SORT(char, int32_t, SCALAR_LESS)
+DEFINE_SORT(byte, uint8_t, SCALAR_LESS)
+
+/* === Wide integer elements === */
+
+#define DEFINE_WIDE(T) \
+    DEFINE_SEARCH(T, gray_##T, gray_##T##_eq) \
+    DEFINE_EXTREMES(T, gray_##T, gray_##T##_lt) \
+    DEFINE_SORT(T, gray_##T, gray_##T##_lt) \
+    gray_##T gray_arrays_get_sum_##T(GrayArray *arr) { \
+        gray_##T total = {0}; \
+        for (int32_t i = 0; i < arr->len; i++) \
+            total = gray_##T##_add_checked(total, ((gray_##T *)arr->data)[i], __FILE__, __LINE__); \
+        return total; \
+    }
+
+DEFINE_WIDE(i128)
+DEFINE_WIDE(u128)
+DEFINE_WIDE(i256)
+DEFINE_WIDE(u256)
diff --git a/grayc/src/stdlib/arrays.h b/grayc/src/stdlib/arrays.h
index 504cc1d..7337eab 100644
--- a/grayc/src/stdlib/arrays.h
+++ b/grayc/src/stdlib/arrays.h
@@ -13,6 +13,7 @@
 
 #include "../runtime/runtime.h"
 #include "../runtime/array.h"
+#include "../runtime/bigint.h"
 
 /* Modification */
 
@@ -502,4 +503,21 @@ void gray_arrays_sort_desc_str(GrayArray *arr);
  *@end
  */
 
+/* The functions above for arrays of wide integers */
+#define GRAY_ARRAYS_WIDE(T) \
+    void gray_arrays_remove_##T(GrayArray *arr, gray_##T value); \
+    bool gray_arrays_contains_##T(GrayArray *arr, gray_##T value); \
+    int64_t gray_arrays_index_of_##T(GrayArray *arr, gray_##T value); \
+    int64_t gray_arrays_count_##T(GrayArray *arr, gray_##T value); \
+    gray_##T gray_arrays_get_sum_##T(GrayArray *arr); \
+    gray_##T gray_arrays_get_min_##T(GrayArray *arr); \
+    gray_##T gray_arrays_get_max_##T(GrayArray *arr); \
+    void gray_arrays_sort_asc_##T(GrayArray *arr); \
+    void gray_arrays_sort_desc_##T(GrayArray *arr);
+
+GRAY_ARRAYS_WIDE(i128)
+GRAY_ARRAYS_WIDE(u128)
+GRAY_ARRAYS_WIDE(i256)
+GRAY_ARRAYS_WIDE(u256)
+
 #endif
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 3b2b750..834b21e 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2310,6 +2310,9 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
         } else if (strcmp(mfn, "get_or_default") == 0) {
             if (node->data.call.arg_count >= 3) {
                 result = resolve_expression(checker, node->data.call.args[2]);
+                GrayType *map_t = resolve_expression(checker, node->data.call.args[0]);
+                if (map_t && map_t->value_type && is_bigint_type(map_t->value_type))
+                    result = type_from_name(map_t->value_type);
             } else result = &TYPE_UNKNOWN;
         } else if (strcmp(mfn, "remove_key") == 0 || strcmp(mfn, "clear") == 0) {
             result = &TYPE_VOID;
@@ -2552,6 +2555,10 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
     } else if (strcmp(mod, "binary") == 0) {
         if (strncmp(mfn, "encode", 6) == 0) result = type_array("byte");
         else if (strncmp(mfn, "decode_f", 8) == 0) result = &TYPE_FLOAT;
+        else if (strncmp(mfn, "decode_i128", 11) == 0) result = type_from_name("i128");
+        else if (strncmp(mfn, "decode_u128", 11) == 0) result = type_from_name("u128");
+        else if (strncmp(mfn, "decode_i256", 11) == 0) result = type_from_name("i256");
+        else if (strncmp(mfn, "decode_u256", 11) == 0) result = type_from_name("u256");
         else result = &TYPE_INT;
     } else if (strcmp(mod, "csv") == 0) {
         if (strcmp(mfn, "parse") == 0 ||
@@ -2652,7 +2659,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             if (node->data.call.arg_count > 0) {
                 GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
                 GrayType *elem_t = (arr_t && arr_t->element_type) ? type_from_name(arr_t->element_type) : NULL;
-                if (elem_t && (elem_t->kind == TK_FLOAT || elem_t->kind == TK_UINT ||
+                if (elem_t && (elem_t->kind == TK_FLOAT || elem_t->kind == TK_UINT || is_bigint_type(elem_t->name) ||
                                (elem_t->kind == TK_STRING && strcmp(mfn, "get_sum") != 0)))
                     result = elem_t;
             }
@@ -4440,10 +4447,8 @@ static GrayType *resolve_builtin_call(TypeChecker *checker, AstNode *node, const
         }
         if (strcmp(function_name, "byte") == 0)
             result = &TYPE_BYTE;
-        else if (is_unsigned_type(function_name))
-            result = &TYPE_UINT;
         else
-            result = &TYPE_INT;
+            result = type_from_name(function_name);
     } else if (strcmp(function_name, "string") == 0 && node->data.call.arg_count == 1) {
         /* E3043: validate source type is convertible to string */
         GrayType *src_t = resolve_expression(checker, node->data.call.args[0]);
@@ -5695,7 +5700,8 @@ static GrayType *resolve_infix_expr(TypeChecker *checker, AstNode *node) {
         bool is_zero = false;
         int64_t iv;
         if (try_get_literal_int(r, &iv) && iv == 0) {
-            is_zero = true;
+            AstNode *digits = r->kind == NODE_PREFIX_EXPR ? r->data.prefix.right : r;
+            is_zero = digits->kind != NODE_INT_VALUE || !digits->data.int_value.overflow;
         } else if (r && r->kind == NODE_FLOAT_VALUE &&
                    r->data.float_value.value == 0.0) {
             is_zero = true;
-- 
2.43.0


From 5b2de42c26d4e9dc19ae24381512c4f25ec77b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:24 +0000
Subject: [PATCH 25/56] fix: unsigned 64-bit byte encodings keep values above
 the signed range

---
 grayc/src/codegen/codegen.c         | 11 +++++++++--
 grayc/src/stdlib/binary.c           |  4 ++--
 grayc/src/typechecker/typechecker.c |  1 +
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5193cd7..127f22b 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -5099,8 +5099,15 @@ static bool emit_binary_call(CodeGen *codegen, AstNode *node, const char *func)
         /* encode_T and encode_T_le take a T */
         char value_type[SHORT_VAR_BUF] = "";
         if (is_encode) sscanf(func, "encode_%15[^_]", value_type);
-        if (!emit_narrowing_cast(codegen, value_type, node->data.call.args[0], node->token.line))
-            emit_expression(codegen, node->data.call.args[0]);
+        AstNode *value = node->data.call.args[0];
+        GrayType *value_t = codegen->type_table ? typetable_get(codegen->type_table, value) : NULL;
+        if (strcmp(value_type, "u64") == 0 && value_t && value_t->kind == TK_INT) {
+            emit(codegen, "gray_ucast_check(");
+            emit_expression(codegen, value);
+            emit_formatted(codegen, ", UINT64_MAX, \"u64\", \"%s\", %d)", codegen->file, node->token.line);
+        } else if (!emit_narrowing_cast(codegen, value_type, value, node->token.line)) {
+            emit_expression(codegen, value);
+        }
     }
     emit(codegen, ")");
     return true;
diff --git a/grayc/src/stdlib/binary.c b/grayc/src/stdlib/binary.c
index 140a0f5..3c4e5f4 100644
--- a/grayc/src/stdlib/binary.c
+++ b/grayc/src/stdlib/binary.c
@@ -85,9 +85,9 @@ GrayArray gray_binary_encode_i64_be(GrayArena *arena, int64_t val) { return make
 int64_t gray_binary_decode_i64_le(GrayArray *bytes) { int64_t v; memcpy(&v, require_bytes(bytes, 8), 8); return v; }
 int64_t gray_binary_decode_i64_be(GrayArray *bytes) {
     const uint8_t *d = (const uint8_t *)require_bytes(bytes, 8);
-    int64_t v = 0;
+    uint64_t v = 0;
     for (int i = 0; i < 8; i++) v = (v << 8) | d[i];
-    return v;
+    return (int64_t)v;
 }
 
 /* --- 64-bit unsigned --- */
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 834b21e..a473d7b 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2559,6 +2559,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
         else if (strncmp(mfn, "decode_u128", 11) == 0) result = type_from_name("u128");
         else if (strncmp(mfn, "decode_i256", 11) == 0) result = type_from_name("i256");
         else if (strncmp(mfn, "decode_u256", 11) == 0) result = type_from_name("u256");
+        else if (strncmp(mfn, "decode_u64", 10) == 0) result = &TYPE_UINT;
         else result = &TYPE_INT;
     } else if (strcmp(mod, "csv") == 0) {
         if (strcmp(mfn, "parse") == 0 ||
-- 
2.43.0


From bff4f07ca3d8a3c7687619be4575fe78eeede1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:25 +0000
Subject: [PATCH 26/56] fix: UUID generation stops when no random bytes are
 available

---
 grayc/src/stdlib/uuid.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grayc/src/stdlib/uuid.c b/grayc/src/stdlib/uuid.c
index 01d0381..57298fd 100644
--- a/grayc/src/stdlib/uuid.c
+++ b/grayc/src/stdlib/uuid.c
@@ -52,8 +52,7 @@ GrayUUID gray_uuid_generate(GrayArena *arena) {
     uint8_t bytes[16];
     GrayUUID uuid;
     if (!gray_uuid_random_bytes(bytes, sizeof(bytes))) {
-        uuid.value = gray_string_lit("");
-        return uuid;
+        gray_builtin_panic_msg(gray_string_lit("uuid: no random bytes available"));
     }
     bytes[6] = (bytes[6] & 0x0F) | 0x40; /* version 4 */
     bytes[8] = (bytes[8] & 0x3F) | 0x80; /* variant 1 (RFC 4122) */
@@ -93,8 +92,7 @@ GrayUUID gray_uuid_generate_time_ordered(GrayArena *arena) {
     uint8_t bytes[16];
     GrayUUID uuid;
     if (!gray_uuid_random_bytes(bytes, sizeof(bytes))) {
-        uuid.value = gray_string_lit("");
-        return uuid;
+        gray_builtin_panic_msg(gray_string_lit("uuid: no random bytes available"));
     }
 
     struct timespec ts;
-- 
2.43.0


From 2a4c0e6db6bc56e76f7eb6ae9cd772b2e21c836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:02 +0000
Subject: [PATCH 27/56] fix: random values cover every range and element type

---
 grayc/src/codegen/codegen.c | 31 +++++-------------------------
 grayc/src/stdlib/random.c   | 38 ++++++++++++++++++++++++++-----------
 grayc/src/stdlib/random.h   |  2 +-
 3 files changed, 33 insertions(+), 38 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 127f22b..63fa6e2 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -5397,34 +5397,13 @@ static bool emit_random_call(CodeGen *codegen, AstNode *node, const char *func)
         return true;
     }
     if (strcmp(func, "choice") == 0) {
-        /* Determine element C type from the array's type info */
-        const char *c_elem = "int64_t";
         GrayType *arr_t = codegen->type_table
             ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type) {
-            GrayType *et = type_from_name(arr_t->element_type);
-            if (et->kind == TK_FLOAT) c_elem = "double";
-            else if (et->kind == TK_BOOL) c_elem = "bool";
-            else if (et->kind == TK_STRING) c_elem = "GrayString";
-            else if (et->kind == TK_CHAR) c_elem = "int32_t";
-            else if (et->kind == TK_BYTE) c_elem = "uint8_t";
-            else if (et->kind == TK_STRUCT) c_elem = gray_type_to_c_codegen(codegen, arr_t->element_type);
-            else if (et->kind == TK_ENUM) {
-                c_elem = codegen_enum_is_string(codegen, arr_t->element_type)
-                    ? "GrayString" : gray_type_to_c_codegen(codegen, arr_t->element_type);
-            }
-        }
-        if (expression_is_assignable(node->data.call.args[0])) {
-            emit(codegen, "({ int32_t _ri = gray_random_int_max(");
-            emit_expression(codegen, node->data.call.args[0]);
-            emit_formatted(codegen, ".len); *(%s *)gray_array_get_ptr(&", c_elem);
-            emit_expression(codegen, node->data.call.args[0]);
-            emit(codegen, ", _ri, __FILE__, __LINE__); })");
-        } else {
-            emit(codegen, "({ __auto_type _ra = ");
-            emit_expression(codegen, node->data.call.args[0]);
-            emit_formatted(codegen, "; int32_t _ri = gray_random_int_max(_ra.len); *(%s *)gray_array_get_ptr(&_ra, _ri, __FILE__, __LINE__); })", c_elem);
-        }
+        const char *c_elem = arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type
+            ? array_element_c_type(codegen, arr_t->element_type) : "int64_t";
+        emit(codegen, "({ __auto_type _ra = ");
+        emit_expression(codegen, node->data.call.args[0]);
+        emit_formatted(codegen, "; int32_t _ri = (int32_t)gray_random_int_max(_ra.len); *(%s *)gray_array_get_ptr(&_ra, _ri, __FILE__, __LINE__); })", c_elem);
         return true;
     }
     if (strcmp(func, "seed") == 0 && node->data.call.arg_count == 1) {
diff --git a/grayc/src/stdlib/random.c b/grayc/src/stdlib/random.c
index 13c6ff4..cb8c46b 100644
--- a/grayc/src/stdlib/random.c
+++ b/grayc/src/stdlib/random.c
@@ -9,6 +9,7 @@
  */
 
 #include "random.h"
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
@@ -23,25 +24,40 @@ void gray_random_seed(int64_t value) {
     _seeded = true;
 }
 
-double gray_random_float_unit(void) {
+/* 64 random bits; RAND_MAX may be as small as 2^31-1 or less. */
+static uint64_t random_bits(void) {
     ensure_seed();
-    return (double)rand() / RAND_MAX;
+    uint64_t bits = 0;
+    for (int i = 0; i < 5; i++) bits = (bits << 15) ^ (uint64_t)((unsigned)rand() >> 4);
+    return bits;
+}
+
+/* A value in [0, n), n > 0. Small ranges need one draw. */
+static uint64_t random_below(uint64_t n) {
+    ensure_seed();
+    if (n <= (uint64_t)RAND_MAX) return (uint64_t)rand() % n;
+    return random_bits() % n;
+}
+
+double gray_random_float_unit(void) {
+    return (double)(random_bits() >> 11) / 9007199254740992.0; /* 2^53: never 1.0 */
 }
 
 double gray_random_float_range(double min, double max) {
-    return min + gray_random_float_unit() * (max - min);
+    double unit = gray_random_float_unit();
+    double value = min * (1.0 - unit) + max * unit; /* max - min may overflow */
+    if (!(min < max) || value < min) return min;
+    return value < max ? value : nextafter(max, min);
 }
 
 int64_t gray_random_int_max(int64_t max) {
-    ensure_seed();
     if (max <= 0) return 0;
-    return (int64_t)(rand() % (int)max);
+    return (int64_t)random_below((uint64_t)max);
 }
 
 int64_t gray_random_int_range(int64_t min, int64_t max) {
-    ensure_seed();
     if (min >= max) return min;
-    return min + (int64_t)(rand() % (int)(max - min));
+    return (int64_t)((uint64_t)min + random_below((uint64_t)max - (uint64_t)min));
 }
 
 bool gray_random_bool(void) {
@@ -83,13 +99,13 @@ GrayArray gray_random_shuffle(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
-GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int32_t n) {
+GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int64_t n) {
     if (n > arr->len)
-        gray_panic_code("P0062", "random.sample() count %d exceeds array length %d", (int)n, (int)arr->len);
+        gray_panic_code("P0062", "random.sample() count %lld exceeds array length %d", (long long)n, (int)arr->len);
     if (n < 0)
-        gray_panic_code("P0063", "random.sample() count cannot be negative (%d)", (int)n);
+        gray_panic_code("P0063", "random.sample() count cannot be negative (%lld)", (long long)n);
     GrayArray shuffled = gray_random_shuffle(arena, arr);
-    shuffled.len = n;
+    shuffled.len = (int32_t)n;
     return shuffled;
 }
 
diff --git a/grayc/src/stdlib/random.h b/grayc/src/stdlib/random.h
index 860a90f..aad3041 100644
--- a/grayc/src/stdlib/random.h
+++ b/grayc/src/stdlib/random.h
@@ -132,7 +132,7 @@ int32_t gray_random_char_range(int32_t min, int32_t max);
 
 /* Array operations */
 GrayArray gray_random_shuffle(GrayArena *arena, GrayArray *arr);
-GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int32_t n);
+GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int64_t n);
 
 /* Explicit seeding */
 void gray_random_seed(int64_t value);
-- 
2.43.0


From 3cfb031f9a01c7eee194e3fb483bd6b5a7232dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:39 +0000
Subject: [PATCH 28/56] fix: time functions use their own broken-down time and
 accept every format

---
 grayc/src/stdlib/time.c | 54 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/grayc/src/stdlib/time.c b/grayc/src/stdlib/time.c
index 09b98be..0f5d44c 100644
--- a/grayc/src/stdlib/time.c
+++ b/grayc/src/stdlib/time.c
@@ -10,6 +10,7 @@
  */
 
 #include "time.h"
+#include "builtins.h"
 #include "../util/constants.h"
 #include <time.h>
 #include <unistd.h>
@@ -29,24 +30,49 @@ int64_t gray_time_now_ns(void) {
     return (int64_t)ts.tv_sec * NS_PER_SEC + (int64_t)ts.tv_nsec;
 }
 
-static struct tm *get_tm(int64_t ts) {
+/* Returned by value: localtime()'s result is shared by all threads. */
+static struct tm get_tm(int64_t ts) {
     time_t t = (time_t)ts;
-    return localtime(&t);
+    struct tm tm;
+    if ((int64_t)t != ts || !localtime_r(&t, &tm))
+        gray_builtin_panic_msg(gray_string_lit("time: timestamp is outside the representable range"));
+    return tm;
 }
 
-int64_t gray_time_year(int64_t ts) { return get_tm(ts)->tm_year + 1900; }
-int64_t gray_time_month(int64_t ts) { return get_tm(ts)->tm_mon + 1; }
-int64_t gray_time_day(int64_t ts) { return get_tm(ts)->tm_mday; }
-int64_t gray_time_hour(int64_t ts) { return get_tm(ts)->tm_hour; }
-int64_t gray_time_minute(int64_t ts) { return get_tm(ts)->tm_min; }
-int64_t gray_time_second(int64_t ts) { return get_tm(ts)->tm_sec; }
-int64_t gray_time_weekday(int64_t ts) { return get_tm(ts)->tm_wday; }
+int64_t gray_time_year(int64_t ts) { return (int64_t)get_tm(ts).tm_year + 1900; }
+int64_t gray_time_month(int64_t ts) { return get_tm(ts).tm_mon + 1; }
+int64_t gray_time_day(int64_t ts) { return get_tm(ts).tm_mday; }
+int64_t gray_time_hour(int64_t ts) { return get_tm(ts).tm_hour; }
+int64_t gray_time_minute(int64_t ts) { return get_tm(ts).tm_min; }
+int64_t gray_time_second(int64_t ts) { return get_tm(ts).tm_sec; }
+int64_t gray_time_weekday(int64_t ts) { return get_tm(ts).tm_wday; }
 
 GrayString gray_time_format(GrayArena *arena, GrayString fmt, int64_t ts) {
-    char buf[MSG_BUF_SIZE];
-    struct tm *tm = get_tm(ts);
-    int len = (int)strftime(buf, sizeof(buf), fmt.data, tm);
-    return gray_string_new(arena, buf, len);
+    struct tm tm = get_tm(ts);
+    size_t cap = MSG_BUF_SIZE, len = 0;
+    char *buf = gray_arena_alloc(arena, cap);
+    char *part = gray_arena_alloc(arena, (size_t)fmt.len + 2);
+    /* strftime stops at a NUL, so each part of the format is done separately */
+    for (int32_t start = 0; start <= fmt.len;) {
+        int32_t part_len = 0;
+        while (start + part_len < fmt.len && fmt.data[start + part_len] != '\0') part_len++;
+        memcpy(part, fmt.data + start, (size_t)part_len);
+        /* The added space tells an empty result from a full buffer */
+        memcpy(part + part_len, " ", 2);
+        size_t n;
+        while ((n = strftime(buf + len, cap - len, part, &tm)) == 0) {
+            if (cap > INT32_MAX / 2)
+                gray_builtin_panic_msg(gray_string_lit("time.format: result is too long"));
+            char *larger = gray_arena_alloc(arena, cap * 2);
+            memcpy(larger, buf, len);
+            buf = larger;
+            cap *= 2;
+        }
+        len += n - 1;
+        start += part_len + 1;
+        if (start <= fmt.len) buf[len++] = '\0';
+    }
+    return gray_string_new(arena, buf, (int32_t)len);
 }
 
 GrayString gray_time_to_iso(GrayArena *arena, int64_t ts) {
@@ -70,5 +96,5 @@ int64_t gray_time_tick(void) {
 }
 
 int64_t gray_time_elapsed_ms(int64_t start_tick) {
-    return (gray_time_tick() - start_tick) / NS_PER_MS;
+    return gray_sub_check(gray_time_tick(), start_tick, __FILE__, __LINE__) / NS_PER_MS;
 }
-- 
2.43.0


From 64b2a1ddc4fc0f4366b0b943c4ebd06fc79ae241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:07:09 +0000
Subject: [PATCH 29/56] fix: JSON is decoded strictly and every value is
 written and read back exactly

---
 grayc/src/codegen/codegen.c         | 369 +++++++++---------
 grayc/src/stdlib/json.c             | 583 +++++++++++++---------------
 grayc/src/stdlib/json.h             |  34 +-
 grayc/src/typechecker/typechecker.c |  91 +++++
 grayc/src/util/error_codes.h        |   3 +-
 5 files changed, 569 insertions(+), 511 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 63fa6e2..5441a3a 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -5162,65 +5162,148 @@ static bool emit_csv_call(CodeGen *codegen, AstNode *node, const char *func) {
 
 /* --- @json module --- */
 
+static int json_temp_id = 0;
+
+/* Emit statements that append the JSON text of the C lvalue `c_expr` to the
+ * GrayJsonWriter `_jw`. The typechecker only lets encodable types through. */
+static void emit_json_write(CodeGen *codegen, const char *c_expr, const char *type_name) {
+    GrayType *type = type_from_name(type_name);
+    if ((type->kind == TK_INT || type->kind == TK_UINT) && is_bigint_type(type->name)) {
+        emit_formatted(codegen, "gray_json_write_raw(_jw, %s_to_string(gray_default_arena, %s).data); ",
+            bigint_prefix(type->name), c_expr);
+        return;
+    }
+    switch (type->kind) {
+    case TK_UINT:
+        emit_formatted(codegen, "gray_json_write_uint(_jw, (uint64_t)(%s)); ", c_expr);
+        break;
+    case TK_FLOAT:
+        emit_formatted(codegen, "gray_json_write_float(_jw, (double)(%s)); ", c_expr);
+        break;
+    case TK_BOOL:
+        emit_formatted(codegen, "gray_json_write_bool(_jw, %s); ", c_expr);
+        break;
+    case TK_STRING:
+        emit_formatted(codegen, "gray_json_write_string(_jw, %s); ", c_expr);
+        break;
+    case TK_ARRAY: {
+        int uid = json_temp_id++;
+        const char *elem_name = type->element_type ? type->element_type : "int";
+        char c_elem[TYPE_NAME_MAX], elem[SHORT_VAR_BUF];
+        snprintf(c_elem, sizeof(c_elem), "%s", array_element_c_type(codegen, elem_name));
+        snprintf(elem, sizeof(elem), "_je%d", uid);
+        emit(codegen, "gray_json_write_raw(_jw, \"[\"); ");
+        emit_formatted(codegen, "for (int32_t _ji%d = 0; _ji%d < (%s).len; _ji%d++) { ", uid, uid, c_expr, uid);
+        emit_formatted(codegen, "if (_ji%d > 0) gray_json_write_raw(_jw, \",\"); ", uid);
+        emit_formatted(codegen, "%s %s = GRAY_ARRAY_GET((%s), %s, _ji%d); ", c_elem, elem, c_expr, c_elem, uid);
+        emit_json_write(codegen, elem, elem_name);
+        emit(codegen, "} gray_json_write_raw(_jw, \"]\"); ");
+        break;
+    }
+    case TK_MAP: {
+        int uid = json_temp_id++;
+        const char *value_name = type->value_type ? type->value_type : "string";
+        char c_value[TYPE_NAME_MAX], value[SHORT_VAR_BUF];
+        snprintf(c_value, sizeof(c_value), "%s", gray_type_to_c_codegen(codegen, value_name));
+        snprintf(value, sizeof(value), "_je%d", uid);
+        emit(codegen, "gray_json_write_raw(_jw, \"{\"); ");
+        emit_formatted(codegen, "for (int32_t _ji%d = 0; _ji%d < (%s).order_len; _ji%d++) { ", uid, uid, c_expr, uid);
+        emit_formatted(codegen, "if (_ji%d > 0) gray_json_write_raw(_jw, \",\"); ", uid);
+        emit_formatted(codegen, "gray_json_write_string(_jw, *(GrayString *)gray_map_key_at(&(%s), (%s).order[_ji%d])); ", c_expr, c_expr, uid);
+        emit(codegen, "gray_json_write_raw(_jw, \":\"); ");
+        emit_formatted(codegen, "%s %s = *(%s *)gray_map_value_at(&(%s), (%s).order[_ji%d]); ", c_value, value, c_value, c_expr, c_expr, uid);
+        emit_json_write(codegen, value, value_name);
+        emit(codegen, "} gray_json_write_raw(_jw, \"}\"); ");
+        break;
+    }
+    case TK_STRUCT:
+        emit_formatted(codegen, "gray_json_write_%s(_jw, %s); ", type->name, c_expr);
+        break;
+    default:
+        emit_formatted(codegen, "gray_json_write_int(_jw, (int64_t)(%s)); ", c_expr);
+        break;
+    }
+}
+
+/* Emit statements that store the value whose JSON text is the GrayString
+ * `raw` into the C lvalue `target`. null leaves the zero value in place. */
+static void emit_json_read(CodeGen *codegen, const char *target, const char *type_name, const char *raw) {
+    GrayType *type = type_from_name(type_name);
+    char c_type[TYPE_NAME_MAX];
+    snprintf(c_type, sizeof(c_type), "%s", gray_type_to_c_codegen(codegen, type_name));
+    emit_formatted(codegen, "if (!gray_json_is_null(%s)) { ", raw);
+    switch (type->kind) {
+    case TK_UINT: case TK_BYTE:
+        emit_formatted(codegen, "%s = (%s)gray_json_read_uint(%s, (uint64_t)(%s)-1); ", target, c_type, raw, c_type);
+        break;
+    case TK_FLOAT:
+        emit_formatted(codegen, "%s = (%s)gray_json_read_float(%s); ", target, c_type, raw);
+        break;
+    case TK_BOOL:
+        emit_formatted(codegen, "%s = gray_json_read_bool(%s); ", target, raw);
+        break;
+    case TK_STRING:
+        emit_formatted(codegen, "%s = gray_json_read_string(arena, %s); ", target, raw);
+        break;
+    case TK_ARRAY: {
+        int uid = json_temp_id++;
+        const char *elem_name = type->element_type ? type->element_type : "int";
+        char c_elem[TYPE_NAME_MAX], elem[SHORT_VAR_BUF], text[SHORT_VAR_BUF];
+        snprintf(c_elem, sizeof(c_elem), "%s", array_element_c_type(codegen, elem_name));
+        snprintf(elem, sizeof(elem), "_je%d", uid);
+        snprintf(text, sizeof(text), "_jt%d", uid);
+        emit_formatted(codegen, "GrayArray _js%d = gray_json_split_array(arena, %s); ", uid, raw);
+        emit_formatted(codegen, "%s = gray_array_new(arena, sizeof(%s), _js%d.len > 0 ? _js%d.len : 4); ", target, c_elem, uid, uid);
+        emit_formatted(codegen, "for (int32_t _ji%d = 0; _ji%d < _js%d.len; _ji%d++) { ", uid, uid, uid, uid);
+        emit_formatted(codegen, "GrayString %s = ((GrayString *)_js%d.data)[_ji%d]; %s %s; memset(&%s, 0, sizeof(%s)); ",
+            text, uid, uid, c_elem, elem, elem, elem);
+        emit_json_read(codegen, elem, elem_name, text);
+        emit_formatted(codegen, "gray_array_push(arena, &%s, &%s); } ", target, elem);
+        break;
+    }
+    case TK_MAP: {
+        int uid = json_temp_id++;
+        const char *value_name = type->value_type ? type->value_type : "string";
+        char c_value[TYPE_NAME_MAX], value[SHORT_VAR_BUF], text[SHORT_VAR_BUF];
+        snprintf(c_value, sizeof(c_value), "%s", gray_type_to_c_codegen(codegen, value_name));
+        snprintf(value, sizeof(value), "_je%d", uid);
+        snprintf(text, sizeof(text), "_jt%d", uid);
+        emit_formatted(codegen, "GrayMap _js%d = gray_json_split_object(arena, %s); ", uid, raw);
+        emit_formatted(codegen, "%s = gray_map_new_kind(arena, sizeof(GrayString), sizeof(%s), 8, GRAY_MAP_KEY_STRING); ", target, c_value);
+        emit_formatted(codegen, "for (int32_t _ji%d = 0; _ji%d < _js%d.order_len; _ji%d++) { ", uid, uid, uid, uid);
+        emit_formatted(codegen, "GrayString %s = *(GrayString *)gray_map_value_at(&_js%d, _js%d.order[_ji%d]); %s %s; memset(&%s, 0, sizeof(%s)); ",
+            text, uid, uid, uid, c_value, value, value, value);
+        emit_json_read(codegen, value, value_name, text);
+        emit_formatted(codegen, "gray_map_set(arena, &%s, (GrayString *)gray_map_key_at(&_js%d, _js%d.order[_ji%d]), &%s); } ",
+            target, uid, uid, uid, value);
+        break;
+    }
+    case TK_STRUCT:
+        emit_formatted(codegen, "%s = gray_json_read_%s(arena, %s); ", target, type->name, raw);
+        break;
+    default: { /* signed integers */
+        const char *bits = strcmp(type_name, "i8") == 0 ? "8" : strcmp(type_name, "i16") == 0 ? "16"
+                         : strcmp(type_name, "i32") == 0 ? "32" : "64";
+        emit_formatted(codegen, "%s = (%s)gray_json_read_int(%s, INT%s_MIN, INT%s_MAX); ", target, c_type, raw, bits, bits);
+        break;
+    }
+    }
+    emit(codegen, "} ");
+}
+
 static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
-    if (strcmp(func, "encode") == 0) {
+    if (strcmp(func, "encode") == 0 || strcmp(func, "stringify") == 0) {
         AstNode *arg = node->data.call.args[0];
         GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-        if (arg_t && arg_t->kind == TK_MAP) {
-            /* Typed map: dispatch based on value type.
-             * Materialize into a temporary to handle rvalue expressions
-             * (e.g. inline map literals). */
-            emit(codegen, "({ GrayMap _jm = ");
-            emit_expression(codegen, arg);
-            if (arg_t->value_type && strcmp(arg_t->value_type, "int") == 0) {
-                emit(codegen, "; gray_json_encode_map_int(gray_default_arena, &_jm); })");
-            } else if (arg_t->value_type && strcmp(arg_t->value_type, "float") == 0) {
-                emit(codegen, "; gray_json_encode_map_float(gray_default_arena, &_jm); })");
-            } else if (arg_t->value_type && strcmp(arg_t->value_type, "bool") == 0) {
-                emit(codegen, "; gray_json_encode_map_bool(gray_default_arena, &_jm); })");
-            } else {
-                emit(codegen, "; gray_json_encode_map(gray_default_arena, &_jm); })");
-            }
-        } else if (arg_t && arg_t->kind == TK_ARRAY) {
-            /* Typed array: dispatch based on element type.
-             * Materialize into a temporary for the same rvalue reason. */
-            emit(codegen, "({ GrayArray _ja = ");
-            emit_expression(codegen, arg);
-            if (arg_t->element_type && strcmp(arg_t->element_type, "float") == 0) {
-                emit(codegen, "; gray_json_encode_array_float(gray_default_arena, &_ja); })");
-            } else if (arg_t->element_type && strcmp(arg_t->element_type, "string") == 0) {
-                emit(codegen, "; gray_json_encode_array_string(gray_default_arena, &_ja); })");
-            } else if (arg_t->element_type && strcmp(arg_t->element_type, "bool") == 0) {
-                emit(codegen, "; gray_json_encode_array_bool(gray_default_arena, &_ja); })");
-            } else {
-                emit(codegen, "; gray_json_encode_array_int(gray_default_arena, &_ja); })");
-            }
-        } else if (arg_t && arg_t->kind == TK_INT) {
-            /* Int: format as JSON number string */
-            emit(codegen, "({ char _jbuf[32]; snprintf(_jbuf, sizeof(_jbuf), \"%\" PRId64, (int64_t)");
-            emit_expression(codegen, arg);
-            emit(codegen, "); gray_string_new(gray_default_arena, _jbuf, (int32_t)strlen(_jbuf)); })");
-        } else if (arg_t && arg_t->kind == TK_FLOAT) {
-            emit(codegen, "({ char _jbuf[64]; snprintf(_jbuf, sizeof(_jbuf), \"%g\", (double)");
-            emit_expression(codegen, arg);
-            emit(codegen, "); gray_string_new(gray_default_arena, _jbuf, (int32_t)strlen(_jbuf)); })");
-        } else if (arg_t && arg_t->kind == TK_BOOL) {
-            emit(codegen, "(");
-            emit_expression(codegen, arg);
-            emit(codegen, " ? gray_string_lit(\"true\") : gray_string_lit(\"false\"))");
-        } else if (arg_t && arg_t->kind == TK_STRING) {
-            /* String: wrap in quotes */
-            emit(codegen, "({ GrayString _js = ");
-            emit_expression(codegen, arg);
-            emit(codegen, "; char *_jbuf = gray_arena_alloc(gray_default_arena, _js.len + 3); ");
-            emit(codegen, "_jbuf[0] = '\"'; memcpy(_jbuf+1, _js.data, _js.len); _jbuf[_js.len+1] = '\"'; _jbuf[_js.len+2] = '\\0'; ");
-            emit(codegen, "gray_string_new(gray_default_arena, _jbuf, _js.len + 2); })");
-        } else {
-            /* Fallback: store in temp to allow & */
-            emit(codegen, "({ __auto_type _jtmp = ");
-            emit_expression(codegen, arg);
-            emit(codegen, "; gray_json_encode_map(gray_default_arena, (GrayMap *)&_jtmp); })");
-        }
+        const char *name = arg_t ? type_name(arg_t) : "int";
+        char c_type[TYPE_NAME_MAX], value[SHORT_VAR_BUF];
+        snprintf(c_type, sizeof(c_type), "%s", gray_type_to_c_codegen(codegen, name));
+        snprintf(value, sizeof(value), "_jv%d", json_temp_id++);
+        emit_formatted(codegen, "({ %s %s = ", c_type, value);
+        emit_expression(codegen, arg);
+        emit(codegen, "; GrayJsonWriter _jwbuf = {0}, *_jw = &_jwbuf; ");
+        emit_json_write(codegen, value, name);
+        emit(codegen, "gray_json_writer_finish(gray_default_arena, _jw); })");
         return true;
     }
     if (strcmp(func, "decode") == 0) {
@@ -5261,26 +5344,6 @@ static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit(codegen, ")");
         return true;
     }
-    /* : json.stringify(); dispatch to per-struct helper when
-     * the argument is a #json struct. */
-    if (strcmp(func, "stringify") == 0 && node->data.call.arg_count >= 1) {
-        AstNode *arg = node->data.call.args[0];
-        GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-        if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name) {
-            AstNode *sdecl = find_struct_declaration(codegen, arg_t->name);
-            if (sdecl && sdecl->data.struct_decl.is_json) {
-                emit_formatted(codegen, "gray_json_stringify_%s(gray_default_arena, ", arg_t->name);
-                emit_expression(codegen, arg);
-                emit(codegen, ")");
-                return true;
-            }
-        }
-        /* Fallback: encode as map */
-        emit(codegen, "({ __auto_type _jtmp = ");
-        emit_expression(codegen, arg);
-        emit(codegen, "; gray_json_encode_map(gray_default_arena, (GrayMap *)&_jtmp); })");
-        return true;
-    }
     if (strcmp(func, "is_valid") == 0) {
         emit(codegen, "gray_json_is_valid(");
         emit_expression(codegen, node->data.call.args[0]);
@@ -5288,11 +5351,11 @@ static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
         return true;
     }
     if (strcmp(func, "pretty_print") == 0) {
-        emit(codegen, "gray_json_pretty_map(gray_default_arena, &");
+        emit(codegen, "({ GrayMap _jm = ");
         emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
+        emit(codegen, "; gray_json_pretty_map(gray_default_arena, &_jm, ");
         emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
+        emit(codegen, "); })");
         return true;
     }
     return false;
@@ -9952,118 +10015,74 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         }
     }
 
-    /* : emit JSON parse/stringify helpers for #json structs. Each
-     * #json struct gets two static functions:
-     *   - gray_json_parse_<Name>(arena, json_string) → GrayStruct_<Name>
-     *   - gray_json_stringify_<Name>(arena, struct_value) → GrayString
-     * These are called by json.parse() / json.stringify() which the
-     * typechecker dispatches based on the target/argument struct type. */
+    /* : emit JSON helpers for #json structs. Each #json struct gets
+     *   - gray_json_read_<Name>(arena, text)  one value inside a checked document
+     *   - gray_json_write_<Name>(writer, struct_value)
+     *   - gray_json_parse_<Name>(arena, text) → GrayStruct_<Name>
+     *   - gray_json_parse_array_<Name>(arena, text) → GrayArray
+     * The first two are declared up front so that structs can nest. */
+    for (int i = 0; i < program->data.program.stmt_count; i++) {
+        AstNode *stmt = program->data.program.stmts[i];
+        if (stmt->kind != NODE_STRUCT_DECL || !stmt->data.struct_decl.is_json) continue;
+        const char *struct_name = stmt->data.struct_decl.name;
+        emit_formatted(codegen, "static GrayStruct_%s gray_json_read_%s(GrayArena *arena, GrayString text);\n", struct_name, struct_name);
+        emit_formatted(codegen, "static void gray_json_write_%s(GrayJsonWriter *_jw, GrayStruct_%s _s);\n", struct_name, struct_name);
+    }
     for (int i = 0; i < program->data.program.stmt_count; i++) {
         AstNode *stmt = program->data.program.stmts[i];
         if (stmt->kind != NODE_STRUCT_DECL || !stmt->data.struct_decl.is_json) continue;
         const char *struct_name = stmt->data.struct_decl.name;
         int field_count = stmt->data.struct_decl.field_count;
+        char lvalue[MSG_BUF_SIZE];
 
-        /* --- parse: JSON string → struct --- */
-        emit_formatted(codegen, "static GrayStruct_%s gray_json_parse_%s(GrayArena *arena, GrayString text) {\n", struct_name, struct_name);
+        emit_formatted(codegen, "static GrayStruct_%s gray_json_read_%s(GrayArena *arena, GrayString text) {\n", struct_name, struct_name);
         emit_formatted(codegen, "    GrayStruct_%s _r = {0};\n", struct_name);
-        emit_formatted(codegen, "    GrayMap _m = gray_json_decode(arena, text);\n");
         for (int j = 0; j < field_count; j++) {
             StructField *field = &stmt->data.struct_decl.fields[j];
-            if (strcmp(field->type_name, "string") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) _r.%s = *(GrayString *)_v; }\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "int") == 0 || strcmp(field->type_name, "i64") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) { GrayString _sv = *(GrayString *)_v; _r.%s = gray_builtin_string_to_int(_sv); } }\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "float") == 0 || strcmp(field->type_name, "f64") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) { GrayString _sv = *(GrayString *)_v; _r.%s = gray_builtin_string_to_float(_sv); } }\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "bool") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) { GrayString _sv = *(GrayString *)_v; _r.%s = (_sv.len == 4 && memcmp(_sv.data, \"true\", 4) == 0); } }\n", sanitize_name(field->name));
-            }
-        }
-        emit_formatted(codegen, "    return _r;\n}\n\n");
-
-        /* --- stringify: struct → JSON string --- */
-        emit_formatted(codegen, "static GrayString gray_json_stringify_%s(GrayArena *arena, GrayStruct_%s _s) {\n", struct_name, struct_name);
-
-        /* Pass 1: compute exact buffer size at runtime.
-         * Field names are identifiers (no escaping), so their contribution
-         * is compile-time constant.  String values need json_escaped_len().
-         * Numeric types use safe upper bounds (21 for int64, 24 for double). */
-        {
-            /* Compile-time constant part: braces + separators + all key literals */
-            int fixed = 2; /* { } */
-            for (int j = 0; j < field_count; j++) {
-                StructField *field = &stmt->data.struct_decl.fields[j];
-                if (j > 0) fixed += 2; /* ", " */
-                fixed += 2 + (int)strlen(field->name) + 2; /* "key": */
-                /* Value upper bound for non-string types */
-                if (strcmp(field->type_name, "int") == 0 || strcmp(field->type_name, "i64") == 0) {
-                    fixed += 21;
-                } else if (strcmp(field->type_name, "float") == 0 || strcmp(field->type_name, "f64") == 0) {
-                    fixed += 24;
-                } else if (strcmp(field->type_name, "bool") == 0) {
-                    fixed += 5;
-                }
-                /* string fields are added at runtime below */
-            }
-            emit_formatted(codegen, "    size_t _need = %d;\n", fixed);
-        }
-        /* Add runtime string field sizes */
+            GrayType *type = type_from_name(field->type_name);
+            const char *name = sanitize_name(field->name);
+            if (type->kind == TK_STRING) {
+                emit_formatted(codegen, "    _r.%s = gray_string_lit(\"\");\n", name);
+            } else if (type->kind == TK_ARRAY) {
+                emit_formatted(codegen, "    _r.%s = gray_array_new(arena, sizeof(%s), 4);\n", name,
+                    array_element_c_type(codegen, type->element_type));
+            } else if (type->kind == TK_MAP) {
+                emit_formatted(codegen, "    _r.%s = gray_map_new_kind(arena, sizeof(GrayString), sizeof(%s), 8, GRAY_MAP_KEY_STRING);\n", name,
+                    gray_type_to_c_codegen(codegen, type->value_type));
+            } else if (type->kind == TK_STRUCT) {
+                emit_formatted(codegen, "    _r.%s = gray_json_read_%s(arena, gray_string_lit(\"null\"));\n", name, type->name);
+            }
+        }
+        emit(codegen, "    if (gray_json_is_null(text)) return _r;\n");
+        emit(codegen, "    GrayMap _m = gray_json_split_object(arena, text);\n");
         for (int j = 0; j < field_count; j++) {
             StructField *field = &stmt->data.struct_decl.fields[j];
-            if (strcmp(field->type_name, "string") == 0) {
-                emit_formatted(codegen, "    _need += json_escaped_len(_s.%s);\n", sanitize_name(field->name));
-            }
+            emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); GrayString *_v = gray_map_get(&_m, &_k);\n      if (_v) { ", field->name);
+            snprintf(lvalue, sizeof(lvalue), "_r.%s", sanitize_name(field->name));
+            emit_json_read(codegen, lvalue, field->type_name, "(*_v)");
+            emit(codegen, "} }\n");
         }
+        emit(codegen, "    return _r;\n}\n\n");
 
-        /* Pass 2: allocate and write */
-        emit_formatted(codegen, "    char *_buf = gray_arena_alloc(arena, _need + 1);\n");
-        emit_formatted(codegen, "    int _pos = 0;\n");
-        emit_formatted(codegen, "    _buf[_pos++] = '{';\n");
+        emit_formatted(codegen, "static void gray_json_write_%s(GrayJsonWriter *_jw, GrayStruct_%s _s) {\n", struct_name, struct_name);
         for (int j = 0; j < field_count; j++) {
             StructField *field = &stmt->data.struct_decl.fields[j];
-            if (j > 0) emit_formatted(codegen, "    _buf[_pos++] = ','; _buf[_pos++] = ' ';\n");
-            /* Key */
-            emit_formatted(codegen, "    _buf[_pos++] = '\"';\n");
-            int fname_len = (int)strlen(field->name);
-            emit_formatted(codegen, "    memcpy(_buf + _pos, \"%s\", %d); _pos += %d;\n",
-                field->name, fname_len, fname_len);
-            emit_formatted(codegen, "    _buf[_pos++] = '\"'; _buf[_pos++] = ':'; _buf[_pos++] = ' ';\n");
-            /* Value */
-            if (strcmp(field->type_name, "string") == 0) {
-                emit_formatted(codegen, "    json_append_escaped(_buf, &_pos, _s.%s);\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "int") == 0 || strcmp(field->type_name, "i64") == 0) {
-                emit_formatted(codegen, "    _pos += snprintf(_buf + _pos, _need + 1 - (size_t)_pos, \"%%lld\", (long long)_s.%s);\n",
-                    sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "float") == 0 || strcmp(field->type_name, "f64") == 0) {
-                emit_formatted(codegen, "    _pos += snprintf(_buf + _pos, _need + 1 - (size_t)_pos, \"%%g\", _s.%s);\n",
-                    sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "bool") == 0) {
-                emit_formatted(codegen, "    { const char *_bv = _s.%s ? \"true\" : \"false\"; int _bl = _s.%s ? 4 : 5;\n",
-                    sanitize_name(field->name), sanitize_name(field->name));
-                emit_formatted(codegen, "      memcpy(_buf + _pos, _bv, (size_t)_bl); _pos += _bl; }\n");
-            }
-        }
-        emit_formatted(codegen, "    _buf[_pos++] = '}';\n");
-        emit_formatted(codegen, "    _buf[_pos] = '\\0';\n");
-        emit_formatted(codegen, "    return (GrayString){_buf, (int32_t)_pos};\n");
-        emit_formatted(codegen, "}\n\n");
-
-        /* --- parse array: JSON array string → GrayArray of structs --- */
-        emit_formatted(codegen, "static GrayArray gray_json_parse_array_%s(GrayArena *arena, GrayString text) {\n", struct_name);
-        emit_formatted(codegen, "    GrayArray _elems = gray_json_split_array(arena, text);\n");
+            emit_formatted(codegen, "    gray_json_write_raw(_jw, \"%s\\\"%s\\\":\"); ", j > 0 ? "," : "{", field->name);
+            snprintf(lvalue, sizeof(lvalue), "_s.%s", sanitize_name(field->name));
+            emit_json_write(codegen, lvalue, field->type_name);
+            emit(codegen, "\n");
+        }
+        emit_formatted(codegen, "    gray_json_write_raw(_jw, \"%s\");\n}\n\n", field_count > 0 ? "}" : "{}");
+
+        emit_formatted(codegen, "static inline GrayStruct_%s gray_json_parse_%s(GrayArena *arena, GrayString text) {\n", struct_name, struct_name);
+        emit_formatted(codegen, "    return gray_json_read_%s(arena, gray_json_document(arena, text));\n}\n\n", struct_name);
+
+        emit_formatted(codegen, "static inline GrayArray gray_json_parse_array_%s(GrayArena *arena, GrayString text) {\n", struct_name);
+        emit(codegen, "    GrayArray _elems = gray_json_split_array(arena, gray_json_document(arena, text));\n");
         emit_formatted(codegen, "    GrayArray _result = gray_array_new(arena, sizeof(GrayStruct_%s), _elems.len > 0 ? _elems.len : 4);\n", struct_name);
-        emit_formatted(codegen, "    for (int32_t _i = 0; _i < _elems.len; _i++) {\n");
-        emit_formatted(codegen, "        GrayString _elem_str = *(GrayString *)((char *)_elems.data + (size_t)_i * (size_t)_elems.elem_size);\n");
-        emit_formatted(codegen, "        GrayStruct_%s _item = gray_json_parse_%s(arena, _elem_str);\n", struct_name, struct_name);
-        emit_formatted(codegen, "        gray_array_push(arena, &_result, &_item);\n");
-        emit_formatted(codegen, "    }\n");
-        emit_formatted(codegen, "    return _result;\n");
-        emit_formatted(codegen, "}\n\n");
+        emit(codegen, "    for (int32_t _i = 0; _i < _elems.len; _i++) {\n");
+        emit_formatted(codegen, "        GrayStruct_%s _item = gray_json_read_%s(arena, ((GrayString *)_elems.data)[_i]);\n", struct_name, struct_name);
+        emit(codegen, "        gray_array_push(arena, &_result, &_item);\n    }\n    return _result;\n}\n\n");
     }
 
     /* (Enum typedefs already emitted above, before struct definitions) */
diff --git a/grayc/src/stdlib/json.c b/grayc/src/stdlib/json.c
index 322a4fa..65e6c18 100644
--- a/grayc/src/stdlib/json.c
+++ b/grayc/src/stdlib/json.c
@@ -11,6 +11,9 @@
 
 #include "json.h"
 #include <string.h>
+#include <stdlib.h>
+#include <errno.h>
+#include <math.h>
 #include <stdio.h>
 #include <ctype.h>
 #include <inttypes.h>
@@ -52,286 +55,79 @@ void json_append_escaped(char *buf, int *pos, GrayString s) {
     buf[(*pos)++] = '"';
 }
 
-/* Helper: byte length of a map[string:string] value in JSON output.
- * All string values are always quoted — never infer JSON types from content. */
-static size_t json_map_val_len(GrayString *val) {
-    return json_escaped_len(*val);
-}
-
-GrayString gray_json_encode_map(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: compute exact size */
-    size_t need = 2; /* { } */
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1; /* comma */
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        need += json_escaped_len(*key) + 1 /* colon */ + json_map_val_len(val);
-        counted++;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        json_append_escaped(buf, &pos, *val);
-        entry++;
-    }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    GrayString r = { buf, (int32_t)pos };
-    return r;
-}
+/* --- Writer ---
+ * Growing output buffer used by the code generated for json.encode() and
+ * json.stringify(). Starts empty; finish copies the text into an arena. */
 
-/* --- Array Encoders --- */
-
-GrayString gray_json_encode_array_int(GrayArena *arena, GrayArray *arr) {
-    /* 21 chars max per int64 + comma, plus brackets + nul */
-    size_t need = 2 + (arr->len > 0 ? (size_t)arr->len * 22 - 1 : 0);
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        int64_t val = *(int64_t *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%" PRId64, val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
+static void writer_reserve(GrayJsonWriter *w, size_t extra) {
+    if (extra > (size_t)INT32_MAX || w->len > (size_t)INT32_MAX - extra) {
+        free(w->buf);
+        gray_panic_code("P0104", "json: the encoded text is too long");
     }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
-}
-
-GrayString gray_json_encode_array_float(GrayArena *arena, GrayArray *arr) {
-    /* 24 chars max per %g double + comma, plus brackets + nul */
-    size_t need = 2 + (arr->len > 0 ? (size_t)arr->len * 25 - 1 : 0);
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        double val = *(double *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%g", val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
+    if (w->len + extra <= w->cap) return;
+    size_t cap = w->cap ? w->cap : 64;
+    while (cap < w->len + extra) cap *= 2;
+    char *buf = realloc(w->buf, cap);
+    if (!buf) {
+        free(w->buf);
+        gray_panic_code("P0104", "json: out of memory while encoding");
     }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+    w->buf = buf;
+    w->cap = cap;
 }
 
-GrayString gray_json_encode_array_string(GrayArena *arena, GrayArray *arr) {
-    /* Pass 1: exact size */
-    size_t need = 2; /* [ ] */
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) need += 1; /* comma */
-        GrayString *val = (GrayString *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        need += json_escaped_len(*val);
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        GrayString *val = (GrayString *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        json_append_escaped(buf, &pos, *val);
-    }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+void gray_json_write_raw(GrayJsonWriter *w, const char *text) {
+    size_t n = strlen(text);
+    writer_reserve(w, n);
+    memcpy(w->buf + w->len, text, n);
+    w->len += n;
 }
 
-GrayString gray_json_encode_array_bool(GrayArena *arena, GrayArray *arr) {
-    /* Pass 1: exact size */
-    size_t need = 2; /* [ ] */
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) need += 1;
-        bool val = *(bool *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        need += val ? 4 : 5;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        bool val = *(bool *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        if (val) { memcpy(buf + pos, "true", 4); pos += 4; }
-        else { memcpy(buf + pos, "false", 5); pos += 5; }
-    }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+void gray_json_write_string(GrayJsonWriter *w, GrayString s) {
+    writer_reserve(w, json_escaped_len(s));
+    int pos = (int)w->len;
+    json_append_escaped(w->buf, &pos, s);
+    w->len = (size_t)pos;
 }
 
-/* --- Typed Map Encoders --- */
-
-GrayString gray_json_encode_map_int(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: exact size — key (escaped) + colon + int (max 21) */
-    size_t need = 2;
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1;
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        need += json_escaped_len(*key) + 1 + 21;
-        counted++;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        int64_t *val = (int64_t *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%" PRId64, *val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
-        entry++;
-    }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+void gray_json_write_int(GrayJsonWriter *w, int64_t v) {
+    char num[32];
+    snprintf(num, sizeof(num), "%" PRId64, v);
+    gray_json_write_raw(w, num);
 }
 
-GrayString gray_json_encode_map_float(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: exact size — key (escaped) + colon + float (max 24) */
-    size_t need = 2;
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1;
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        need += json_escaped_len(*key) + 1 + 24;
-        counted++;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        double *val = (double *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%g", *val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
-        entry++;
-    }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+void gray_json_write_uint(GrayJsonWriter *w, uint64_t v) {
+    char num[32];
+    snprintf(num, sizeof(num), "%" PRIu64, v);
+    gray_json_write_raw(w, num);
 }
 
-GrayString gray_json_encode_map_bool(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: exact size */
-    size_t need = 2;
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1;
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        bool *val = (bool *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        need += json_escaped_len(*key) + 1 + (*val ? 4 : 5);
-        counted++;
+/* Shortest text that reads back as the same double. */
+void gray_json_write_float(GrayJsonWriter *w, double v) {
+    char num[40];
+    if (!isfinite(v)) {
+        free(w->buf);
+        gray_panic_code("P0104", "json: NaN and infinity have no JSON representation");
     }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        bool *val = (bool *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        if (*val) { memcpy(buf + pos, "true", 4); pos += 4; }
-        else { memcpy(buf + pos, "false", 5); pos += 5; }
-        entry++;
+    for (int precision = 6; precision <= 17; precision++) {
+        snprintf(num, sizeof(num), "%.*g", precision, v);
+        if (strtod(num, NULL) == v) break;
     }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+    gray_json_write_raw(w, num);
 }
 
-/* --- Decoder --- */
-
-static void skip_ws(const char **s, const char *end) {
-    while (*s < end && isspace((unsigned char)**s)) (*s)++;
+void gray_json_write_bool(GrayJsonWriter *w, bool v) {
+    gray_json_write_raw(w, v ? "true" : "false");
 }
 
-static GrayString parse_json_string(GrayArena *arena, const char **s, const char *end) {
-    if (**s != '"') return gray_string_lit("");
-    (*s)++;
-    const char *start = *s;
-    while (*s < end && **s != '"') {
-        if (**s == '\\') (*s)++;
-        (*s)++;
-    }
-    GrayString r = gray_string_new(arena, start, (int32_t)(*s - start));
-    if (*s < end) (*s)++; /* skip closing quote */
+GrayString gray_json_writer_finish(GrayArena *arena, GrayJsonWriter *w) {
+    GrayString r = gray_string_new(arena, w->buf ? w->buf : "", (int32_t)w->len);
+    free(w->buf);
+    w->buf = NULL;
+    w->len = w->cap = 0;
     return r;
 }
 
-static GrayString parse_json_value_as_string(GrayArena *arena, const char **s, const char *end) {
-    skip_ws(s, end);
-    if (*s >= end) return gray_string_lit("");
-
-    if (**s == '"') {
-        return parse_json_string(arena, s, end);
-    }
-
-    /* Number, bool, null — read until delimiter */
-    const char *start = *s;
-    while (*s < end && **s != ',' && **s != '}' && **s != ']' && !isspace((unsigned char)**s)) (*s)++;
-    return gray_string_new(arena, start, (int32_t)(*s - start));
-}
-
-GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
-    GrayMap m = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
-    const char *s = text.data;
-    const char *end = s + text.len;
-    skip_ws(&s, end);
-    if (s >= end || *s != '{') return m;
-    s++; /* skip { */
-
-    while (s < end) {
-        skip_ws(&s, end);
-        if (s >= end || *s == '}') break;
-
-        GrayString key = parse_json_string(arena, &s, end);
-        skip_ws(&s, end);
-        if (s < end && *s == ':') s++;
-        GrayString val = parse_json_value_as_string(arena, &s, end);
-        gray_map_set(arena, &m, &key, &val);
-
-        skip_ws(&s, end);
-        if (s < end && *s == ',') s++;
-    }
-    return m;
-}
-
 /* --- Validator ---
  *
  * Proper recursive descent validator. The old implementation just
@@ -350,8 +146,13 @@ GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
 
 static bool v_value(const char **s, const char *end, int depth);
 
+/* RFC 8259 whitespace only; isspace() would also accept \\v and \\f. */
+static bool is_json_ws(char c) {
+    return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+}
+
 static void v_skip_ws(const char **s, const char *end) {
-    while (*s < end && isspace((unsigned char)**s)) (*s)++;
+    while (*s < end && is_json_ws(**s)) (*s)++;
 }
 
 static bool v_string_lit(const char **s, const char *end) {
@@ -485,13 +286,204 @@ bool gray_json_is_valid(GrayString text) {
     return s == end;
 }
 
+/* --- Decoder ---
+ * Everything below walks text that gray_json_is_valid() has accepted. */
+
+static unsigned hex4(const char *s) {
+    unsigned v = 0;
+    for (int i = 0; i < 4; i++) {
+        char c = s[i];
+        v = v * 16 + (unsigned)(c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
+    }
+    return v;
+}
+
+/* Decode a quoted string literal (raw includes both quotes). */
+static GrayString unquote(GrayArena *arena, GrayString raw) {
+    char *out = gray_arena_alloc(arena, (size_t)raw.len + 1);
+    int32_t n = 0;
+    const char *s = raw.data + 1;
+    const char *end = raw.data + raw.len - 1;
+    while (s < end) {
+        if (*s != '\\') { out[n++] = *s++; continue; }
+        char esc = s[1];
+        s += 2;
+        switch (esc) {
+        case 'b': out[n++] = '\b'; break;
+        case 'f': out[n++] = '\f'; break;
+        case 'n': out[n++] = '\n'; break;
+        case 'r': out[n++] = '\r'; break;
+        case 't': out[n++] = '\t'; break;
+        case 'u': {
+            unsigned cp = hex4(s);
+            s += 4;
+            if (cp >= 0xD800 && cp <= 0xDBFF && end - s >= 6 && s[0] == '\\' && s[1] == 'u') {
+                unsigned low = hex4(s + 2);
+                if (low >= 0xDC00 && low <= 0xDFFF) {
+                    cp = 0x10000 + ((cp - 0xD800) << 10) + (low - 0xDC00);
+                    s += 6;
+                }
+            }
+            if (cp >= 0xD800 && cp <= 0xDFFF) cp = 0xFFFD; /* unpaired surrogate */
+            if (cp < 0x80) {
+                out[n++] = (char)cp;
+            } else if (cp < 0x800) {
+                out[n++] = (char)(0xC0 | (cp >> 6));
+                out[n++] = (char)(0x80 | (cp & 0x3F));
+            } else if (cp < 0x10000) {
+                out[n++] = (char)(0xE0 | (cp >> 12));
+                out[n++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                out[n++] = (char)(0x80 | (cp & 0x3F));
+            } else {
+                out[n++] = (char)(0xF0 | (cp >> 18));
+                out[n++] = (char)(0x80 | ((cp >> 12) & 0x3F));
+                out[n++] = (char)(0x80 | ((cp >> 6) & 0x3F));
+                out[n++] = (char)(0x80 | (cp & 0x3F));
+            }
+            break;
+        }
+        default: out[n++] = esc; break; /* quote, backslash, slash */
+        }
+    }
+    out[n] = '\0';
+    return (GrayString){ out, n };
+}
+
+/* Consume one value and return its text, quotes and brackets included. */
+static GrayString take_value(GrayArena *arena, const char **s, const char *end) {
+    v_skip_ws(s, end);
+    const char *start = *s;
+    v_value(s, end, 0);
+    return gray_string_new(arena, start, (int32_t)(*s - start));
+}
+
+GrayString gray_json_document(GrayArena *arena, GrayString text) {
+    if (!gray_json_is_valid(text)) gray_panic_code("P0104", "json: invalid JSON");
+    const char *s = text.data;
+    return take_value(arena, &s, text.data + text.len);
+}
+
+/* Split an object into a map from decoded key to the text of its value. */
+GrayMap gray_json_split_object(GrayArena *arena, GrayString text) {
+    GrayMap m = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
+    const char *s = text.data;
+    const char *end = s + text.len;
+    v_skip_ws(&s, end);
+    if (s >= end || *s != '{') gray_panic_code("P0104", "json: expected an object");
+    s++;
+    v_skip_ws(&s, end);
+    while (s < end && *s != '}') {
+        GrayString raw_key = take_value(arena, &s, end);
+        GrayString key = unquote(arena, raw_key);
+        v_skip_ws(&s, end);
+        s++; /* : */
+        GrayString value = take_value(arena, &s, end);
+        gray_map_set(arena, &m, &key, &value);
+        v_skip_ws(&s, end);
+        if (s < end && *s == ',') s++;
+        v_skip_ws(&s, end);
+    }
+    return m;
+}
+
+/* Split an array into the texts of its elements. */
+GrayArray gray_json_split_array(GrayArena *arena, GrayString text) {
+    GrayArray arr = gray_array_new(arena, sizeof(GrayString), 4);
+    const char *s = text.data;
+    const char *end = s + text.len;
+    v_skip_ws(&s, end);
+    if (s >= end || *s != '[') gray_panic_code("P0104", "json: expected an array");
+    s++;
+    v_skip_ws(&s, end);
+    while (s < end && *s != ']') {
+        GrayString elem = take_value(arena, &s, end);
+        gray_array_push(arena, &arr, &elem);
+        v_skip_ws(&s, end);
+        if (s < end && *s == ',') s++;
+        v_skip_ws(&s, end);
+    }
+    return arr;
+}
+
+bool gray_json_is_null(GrayString raw) {
+    return raw.len == 4 && memcmp(raw.data, "null", 4) == 0;
+}
+
+GrayString gray_json_read_string(GrayArena *arena, GrayString raw) {
+    if (raw.len < 2 || raw.data[0] != '"') gray_panic_code("P0104", "json: expected a string");
+    return unquote(arena, raw);
+}
+
+bool gray_json_read_bool(GrayString raw) {
+    if (raw.len == 4 && memcmp(raw.data, "true", 4) == 0) return true;
+    if (raw.len == 5 && memcmp(raw.data, "false", 5) == 0) return false;
+    gray_panic_code("P0104", "json: expected true or false");
+    return false;
+}
+
+/* Copy a number's text so that strto*() sees a terminated string. */
+static void number_text(GrayString raw, bool integer, char *buf, size_t size) {
+    bool ok = raw.len > 0 && (raw.data[0] == '-' || (raw.data[0] >= '0' && raw.data[0] <= '9'));
+    for (int32_t i = 0; integer && i < raw.len; i++) {
+        if (raw.data[i] == '.' || raw.data[i] == 'e' || raw.data[i] == 'E') ok = false;
+    }
+    if (!ok) gray_panic_code("P0104", "json: expected %s", integer ? "an integer" : "a number");
+    if ((size_t)raw.len >= size) gray_panic_code("P0104", "json: number out of range");
+    memcpy(buf, raw.data, (size_t)raw.len);
+    buf[raw.len] = '\0';
+}
+
+int64_t gray_json_read_int(GrayString raw, int64_t min, int64_t max) {
+    char buf[64];
+    number_text(raw, true, buf, sizeof(buf));
+    errno = 0;
+    long long v = strtoll(buf, NULL, 10);
+    if (errno == ERANGE || v < min || v > max) gray_panic_code("P0104", "json: number out of range");
+    return (int64_t)v;
+}
+
+uint64_t gray_json_read_uint(GrayString raw, uint64_t max) {
+    char buf[64];
+    number_text(raw, true, buf, sizeof(buf));
+    errno = 0;
+    unsigned long long v = strtoull(buf, NULL, 10);
+    if (errno == ERANGE || v > max || (buf[0] == '-' && v != 0))
+        gray_panic_code("P0104", "json: number out of range");
+    return (uint64_t)v;
+}
+
+double gray_json_read_float(GrayString raw) {
+    size_t size = (size_t)raw.len + 1;
+    char small[64];
+    char *buf = size <= sizeof(small) ? small : malloc(size);
+    if (!buf) gray_panic_code("P0104", "json: out of memory");
+    number_text(raw, false, buf, size);
+    double v = strtod(buf, NULL);
+    if (buf != small) free(buf);
+    if (!isfinite(v)) gray_panic_code("P0104", "json: number out of range");
+    return v;
+}
+
+static GrayMap decode_object(GrayArena *arena, GrayString text) {
+    GrayMap m = gray_json_split_object(arena, text);
+    for (int32_t i = 0; i < m.order_len; i++) {
+        GrayString *value = gray_map_value_at(&m, m.order[i]);
+        if (value->data[0] == '"') *value = unquote(arena, *value);
+    }
+    return m;
+}
+
+GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
+    return decode_object(arena, gray_json_document(arena, text));
+}
+
 GrayString gray_json_pretty_map(GrayArena *arena, GrayMap *m, int64_t indent_size) {
     /* Pass 1: exact size */
     size_t indent = indent_size > 0 ? (size_t)indent_size : 0;
     size_t need = 3; /* { \n } */
     int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
+    for (int32_t o = 0; o < m->order_len; o++) {
+        int32_t i = m->order[o];
         if (counted > 0) need += 2; /* ,\n */
         GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
         GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
@@ -505,8 +497,8 @@ GrayString gray_json_pretty_map(GrayArena *arena, GrayMap *m, int64_t indent_siz
     buf[pos++] = '{';
     buf[pos++] = '\n';
     int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
+    for (int32_t o = 0; o < m->order_len; o++) {
+        int32_t i = m->order[o];
         if (entry > 0) { buf[pos++] = ','; buf[pos++] = '\n'; }
         for (size_t j = 0; j < indent; j++) buf[pos++] = ' ';
         GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
@@ -523,63 +515,6 @@ GrayString gray_json_pretty_map(GrayArena *arena, GrayMap *m, int64_t indent_siz
     return r;
 }
 
-/* --- Array splitter ---
- * Splits a JSON array "[{...},{...},...]" into an GrayArray of GrayString,
- * where each element is the raw JSON text of one top-level element.
- * Handles nested braces, brackets, and quoted strings correctly. */
-
-GrayArray gray_json_split_array(GrayArena *arena, GrayString text) {
-    GrayArray arr = gray_array_new(arena, sizeof(GrayString), 4);
-    const char *s = text.data;
-    const char *end = s + text.len;
-    skip_ws(&s, end);
-    if (s >= end || *s != '[') return arr;
-    s++; /* skip [ */
-
-    while (s < end) {
-        skip_ws(&s, end);
-        if (s >= end || *s == ']') break;
-
-        /* Mark start of this element */
-        const char *elem_start = s;
-        int depth_brace = 0, depth_bracket = 0;
-        bool in_string = false;
-
-        /* Scan to end of element (respecting nesting and strings) */
-        while (s < end) {
-            char c = *s;
-            if (in_string) {
-                if (c == '\\') { s++; if (s < end) s++; continue; }
-                if (c == '"') in_string = false;
-                s++;
-                continue;
-            }
-            if (c == '"') { in_string = true; s++; continue; }
-            if (c == '{') { depth_brace++; s++; continue; }
-            if (c == '}') { depth_brace--; s++; continue; }
-            if (c == '[') { depth_bracket++; s++; continue; }
-            if (c == ']') {
-                if (depth_bracket == 0) break; /* end of outer array */
-                depth_bracket--;
-                s++;
-                continue;
-            }
-            if (c == ',' && depth_brace == 0 && depth_bracket == 0) break;
-            s++;
-        }
-
-        int32_t elem_len = (int32_t)(s - elem_start);
-        if (elem_len > 0) {
-            GrayString elem = gray_string_new(arena, elem_start, elem_len);
-            gray_array_push(arena, &arr, &elem);
-        }
-
-        skip_ws(&s, end);
-        if (s < end && *s == ',') s++;
-    }
-    return arr;
-}
-
 /* _result variant */
 
 GrayResult_map gray_json_decode_result(GrayArena *arena, GrayString text) {
@@ -594,7 +529,13 @@ GrayResult_map gray_json_decode_result(GrayArena *arena, GrayString text) {
         r.v1 = gray_error_new(arena, gray_string_format(arena, "invalid JSON"));
         return r;
     }
-    r.v0 = gray_json_decode(arena, text);
+    GrayString document = gray_json_document(arena, text);
+    if (document.data[0] != '{') {
+        r.v0 = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 0);
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "JSON text is not an object"));
+        return r;
+    }
+    r.v0 = decode_object(arena, document);
     r.v1 = NULL;
     return r;
 }
diff --git a/grayc/src/stdlib/json.h b/grayc/src/stdlib/json.h
index a10d073..5d99881 100644
--- a/grayc/src/stdlib/json.h
+++ b/grayc/src/stdlib/json.h
@@ -34,19 +34,16 @@ void json_append_escaped(char *buf, int *pos, GrayString s);
  *   println(json.encode(arr))
  *@end
  */
-/* json.encode(value) — convert map to JSON string */
-GrayString gray_json_encode_map(GrayArena *arena, GrayMap *m);
+/* json.encode(value) — codegen writes the value piece by piece */
+typedef struct { char *buf; size_t len; size_t cap; } GrayJsonWriter;
 
-/* json.encode(array) — convert typed arrays to JSON */
-GrayString gray_json_encode_array_int(GrayArena *arena, GrayArray *arr);
-GrayString gray_json_encode_array_float(GrayArena *arena, GrayArray *arr);
-GrayString gray_json_encode_array_string(GrayArena *arena, GrayArray *arr);
-GrayString gray_json_encode_array_bool(GrayArena *arena, GrayArray *arr);
-
-/* json.encode(map) — convert typed maps to JSON */
-GrayString gray_json_encode_map_int(GrayArena *arena, GrayMap *m);
-GrayString gray_json_encode_map_float(GrayArena *arena, GrayMap *m);
-GrayString gray_json_encode_map_bool(GrayArena *arena, GrayMap *m);
+void gray_json_write_raw(GrayJsonWriter *w, const char *text);
+void gray_json_write_string(GrayJsonWriter *w, GrayString s);
+void gray_json_write_int(GrayJsonWriter *w, int64_t v);
+void gray_json_write_uint(GrayJsonWriter *w, uint64_t v);
+void gray_json_write_float(GrayJsonWriter *w, double v);
+void gray_json_write_bool(GrayJsonWriter *w, bool v);
+GrayString gray_json_writer_finish(GrayArena *arena, GrayJsonWriter *w);
 
 /*@man stringify
  *@module json
@@ -130,9 +127,18 @@ bool gray_json_is_valid(GrayString text);
 /* json.pretty(value, indent) — pretty-print JSON */
 GrayString gray_json_pretty_map(GrayArena *arena, GrayMap *m, int64_t indent);
 
-/* json array splitting: returns an GrayArray of GrayString, each being one
- * top-level JSON element from a JSON array string like "[{...},{...}]". */
+/* Building blocks of the generated #json parsers. document() checks the
+ * whole text; the others work on the text of one value inside it and
+ * panic when that value does not have the requested type. */
+GrayString gray_json_document(GrayArena *arena, GrayString text);
+GrayMap gray_json_split_object(GrayArena *arena, GrayString text);
 GrayArray gray_json_split_array(GrayArena *arena, GrayString text);
+bool gray_json_is_null(GrayString raw);
+GrayString gray_json_read_string(GrayArena *arena, GrayString raw);
+bool gray_json_read_bool(GrayString raw);
+int64_t gray_json_read_int(GrayString raw, int64_t min, int64_t max);
+uint64_t gray_json_read_uint(GrayString raw, uint64_t max);
+double gray_json_read_float(GrayString raw);
 
 /* _result variant */
 typedef struct { GrayMap v0; GrayError *v1; } GrayResult_map;
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index a473d7b..9efd511 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1255,6 +1255,79 @@ static void typechecker_check_stdlib_arg_types(TypeChecker *checker, const char
     }
 }
 
+/* --- @json types --- */
+
+static AstNode *find_struct_in_program(AstNode *program, const char *name);
+static GrayType *typechecker_type_from_name(TypeChecker *checker, const char *name);
+
+/* Does `type` have a JSON representation? `readable` also requires that
+ * json.parse() can produce it. Maps need string keys, structs #json. */
+static bool has_json_form(TypeChecker *checker, GrayType *type, bool readable) {
+    if (!type) return false;
+    switch (type->kind) {
+    case TK_UNKNOWN:
+        return !readable;
+    case TK_INT: case TK_UINT:
+        return !readable || (strcmp(type->name, "i128") != 0 && strcmp(type->name, "i256") != 0 &&
+                             strcmp(type->name, "u128") != 0 && strcmp(type->name, "u256") != 0);
+    case TK_FLOAT: case TK_BOOL: case TK_STRING: case TK_BYTE:
+        return true;
+    case TK_ARRAY:
+        return type->element_type &&
+               has_json_form(checker, typechecker_type_from_name(checker, type->element_type), readable);
+    case TK_MAP:
+        return type->key_type && type->value_type && strcmp(type->key_type, "string") == 0 &&
+               has_json_form(checker, typechecker_type_from_name(checker, type->value_type), readable);
+    case TK_STRUCT: {
+        AstNode *decl = find_struct_in_program(checker->program, type->name);
+        return decl && decl->kind == NODE_STRUCT_DECL && decl->data.struct_decl.is_json;
+    }
+    default:
+        return false;
+    }
+}
+
+static void typechecker_check_json_call(TypeChecker *checker, const char *mod,
+    const char *fn, AstNode *node)
+{
+    if (strcmp(mod, "json") != 0 || node->data.call.arg_count < 1) return;
+    AstNode *arg = node->data.call.args[0];
+    char *msg = NULL;
+    if (strcmp(fn, "encode") == 0 || strcmp(fn, "stringify") == 0) {
+        GrayType *arg_t = resolve_expression(checker, arg);
+        if (has_json_form(checker, arg_t, false)) return;
+        msg = typechecker_format(checker,
+            "json.%s() cannot encode a value of type '%s'; it accepts numbers, bools, strings, #json structs, "
+            "and arrays and string-keyed maps of them", fn, type_name(arg_t));
+    } else if (strcmp(fn, "pretty_print") == 0) {
+        GrayType *arg_t = resolve_expression(checker, arg);
+        if (arg_t->kind != TK_MAP || !arg_t->key_type || !arg_t->value_type ||
+            (strcmp(arg_t->key_type, "string") == 0 && strcmp(arg_t->value_type, "string") == 0)) return;
+        msg = typechecker_format(checker,
+            "json.pretty_print() expects map[string:string] as argument 1, got '%s'", type_name(arg_t));
+    } else {
+        return;
+    }
+    diagnostic_error_message(checker->diag, "E5026", msg,
+        NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+}
+
+/* json.parse() takes its type from where its result goes. */
+static void typechecker_check_json_target(TypeChecker *checker, AstNode *call, GrayType *target) {
+    AstNode *fn = call->data.call.function;
+    if (!fn || fn->kind != NODE_MEMBER_EXPR || strcmp(fn->data.member.member, "parse") != 0 ||
+        !fn->data.member.object || fn->data.member.object->kind != NODE_LABEL ||
+        strcmp(fn->data.member.object->data.label.value, "json") != 0) return;
+    GrayType *base = target;
+    if (target->kind == TK_ARRAY && target->element_type)
+        base = typechecker_type_from_name(checker, target->element_type);
+    if (base->kind == TK_STRUCT && has_json_form(checker, base, true)) return;
+    char *msg = typechecker_format(checker,
+        "json.parse() returns a #json struct or an array of #json structs, not '%s'", type_name(target));
+    diagnostic_error_message(checker->diag, "E3001", msg,
+        NODE_FILE(checker, call), call->token.line, call->token.column, 0);
+}
+
 /* --- "Did you mean?" suggestion helper --- */
 
 static int levenshtein(const char *a, const char *b) {
@@ -2263,6 +2336,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
     typechecker_check_stdlib_arg_count(checker, mod, mfn, node);
     typechecker_check_stdlib_arg_types(checker, mod, mfn, node);
     typechecker_check_strconv_base(checker, mod, mfn, node);
+    typechecker_check_json_call(checker, mod, mfn, node);
     if (strcmp(mod, "mem") == 0) {
         if (strcmp(mfn, "arena") == 0) {
             result = type_struct("Arena"); /* arena pointer; opaque */
@@ -8000,6 +8074,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 declared->kind != TK_VOID &&
                 node->data.var_decl.value->kind == NODE_CALL_EXPR) {
                 typetable_set(checker->type_table, node->data.var_decl.value, declared);
+                typechecker_check_json_target(checker, node->data.var_decl.value, declared);
                 value_type = declared;
             }
             /* E3038: cannot assign void function result */
@@ -8975,6 +9050,14 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
             checker->expected_type = target_t;
         GrayType *value_t = resolve_expression(checker, node->data.assign.value);
         checker->expected_type = saved_expected;
+        /* Same push as var_decl and return. */
+        if (target_t && target_t->kind != TK_UNKNOWN && target_t->kind != TK_VOID &&
+            value_t && value_t->kind == TK_UNKNOWN &&
+            node->data.assign.value->kind == NODE_CALL_EXPR) {
+            typetable_set(checker->type_table, node->data.assign.value, target_t);
+            typechecker_check_json_target(checker, node->data.assign.value, target_t);
+            value_t = target_t;
+        }
 
         /* Compound assignment type validation: x op= y must be valid
          * when x op y would be valid. Mirrors the checks in
@@ -9466,6 +9549,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 expected->kind != TK_VOID &&
                 node->data.return_stmt.values[0]->kind == NODE_CALL_EXPR) {
                 typetable_set(checker->type_table, node->data.return_stmt.values[0], expected);
+                typechecker_check_json_target(checker, node->data.return_stmt.values[0], expected);
                 ret_t = expected;
             }
             if (ret_t->kind != TK_UNKNOWN && expected->kind != TK_UNKNOWN &&
@@ -10487,6 +10571,13 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                         node->data.struct_decl.fields[field_index].name);
                     diagnostic_error_message(checker->diag, "E3103", msg,
                         NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+                } else if (ftype && !has_json_form(checker, typechecker_type_from_name(checker, ftype), true)) {
+                    char *msg = typechecker_format(checker,
+                        "#json struct '%s' cannot have field '%s' of type '%s'; it has no JSON representation",
+                        STRUCT_DISPLAY_NAME(node),
+                        node->data.struct_decl.fields[field_index].name, ftype);
+                    diagnostic_error_message(checker->diag, "E3103", msg,
+                        NODE_FILE(checker, node), node->token.line, node->token.column, 0);
                 }
                 if (node->data.struct_decl.fields[field_index].default_value) {
                     char *msg = NULL;
diff --git a/grayc/src/util/error_codes.h b/grayc/src/util/error_codes.h
index ffc87b4..cb171e8 100644
--- a/grayc/src/util/error_codes.h
+++ b/grayc/src/util/error_codes.h
@@ -397,7 +397,8 @@
     GRAY_PANIC("P0100", "arithmetic", "cast from u256 failed; value exceeds the representable range of uint64") \
     GRAY_PANIC("P0101", "server",     "server.cors: origin contains CR or LF — HTTP header injection is not allowed") \
     GRAY_PANIC("P0102", "binary",     "binary: decoding needs %d byte(s), got %d") \
-    GRAY_PANIC("P0103", "arithmetic", "cast from %s failed; value is outside the representable range of %s")
+    GRAY_PANIC("P0103", "arithmetic", "cast from %s failed; value is outside the representable range of %s") \
+    GRAY_PANIC("P0104", "json",       "json: %s")
 
 /* --- Warnings --- */
 #define GRAY_WARNINGS \
-- 
2.43.0


From 88e9adc5f9215cecc221cc22e6ea2d4a883398ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:28:06 +0000
Subject: [PATCH 30/56] fix: printing and interpolation render every value
 completely

---
 grayc/src/codegen/codegen.c         | 353 +++++++++++++---------------
 grayc/src/parser/parser.c           |   7 +-
 grayc/src/runtime/runtime.c         |  48 ++++
 grayc/src/runtime/runtime.h         |   1 +
 grayc/src/typechecker/typechecker.c |   3 +-
 5 files changed, 216 insertions(+), 196 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5441a3a..bbecfdd 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -478,6 +478,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
  * instantiation resolves to the active wildcard binding. */
 static bool is_bigint_type(const char *type_str);
 static const char *bigint_prefix(const char *type_str);
+static bool codegen_enum_is_string(CodeGen *codegen, const char *name);
 static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn) return "int64_t";
     gray_tn = codegen_effective_type_string(codegen, gray_tn);
@@ -485,6 +486,7 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
      * in arrays and all other composite types. */
     if (strcmp(gray_tn, "func") == 0 || strncmp(gray_tn, "func(", 5) == 0) return "void *";
     if (is_bigint_type(gray_tn)) return bigint_prefix(gray_tn);
+    if (codegen_enum_is_string(codegen, gray_tn)) return "GrayString";
     GrayType *type = type_from_name(gray_tn);
     if (!type) return "int64_t";
     switch (type->kind) {
@@ -734,8 +736,8 @@ static void emit_struct_deep_copy(CodeGen *codegen, const char *struct_tn, const
         if (!field->type_name || !field->name) continue;
         if (!type_needs_deep_copy(codegen, field->type_name)) continue;
         char src_field[MSG_BUF_SIZE];
-        snprintf(src_field, sizeof(src_field), "_ss%d.%s", tag, field->name);
-        emit_formatted(codegen, "_sd%d.%s = ", tag, field->name);
+        snprintf(src_field, sizeof(src_field), "_ss%d.%s", tag, sanitize_name(field->name));
+        emit_formatted(codegen, "_sd%d.%s = ", tag, sanitize_name(field->name));
         emit_value_deep_copy(codegen, field->type_name, src_field);
         emit(codegen, "; ");
     }
@@ -898,7 +900,7 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     /* Call results, fields and elements have the type the checker found */
     if (node->kind == NODE_CALL_EXPR || node->kind == NODE_MEMBER_EXPR || node->kind == NODE_INDEX_EXPR) {
         GrayType *t = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
-        if (t && t->name && is_bigint_type(t->name)) return t->name;
+        if (t && (t->kind == TK_INT || t->kind == TK_UINT) && t->name && is_bigint_type(t->name)) return t->name;
     }
     return NULL;
 }
@@ -1277,7 +1279,54 @@ static int interpolated_kind(const char *type_name) {
     }
 }
 
-/* Emit the text println() would show for a value, as a C string. */
+/* Emit the inside of a C string literal for Grayscale literal text, whose
+ * escapes are still in place; `format` doubles percent signs. */
+static void emit_literal_content(CodeGen *codegen, const char *s, bool format) {
+    while (*s) {
+        if (s[0] == '\\' && s[1] == 'x' && isxdigit((unsigned char)s[2])) {
+            /* Emit \xNN then break the string if followed by a hex digit */
+            append_char_to_buffer(&codegen->output, s[0]); /* \ */
+            append_char_to_buffer(&codegen->output, s[1]); /* x */
+            append_char_to_buffer(&codegen->output, s[2]); /* first hex */
+            s += 3;
+            if (isxdigit((unsigned char)*s)) {
+                append_char_to_buffer(&codegen->output, *s); /* second hex */
+                s++;
+            }
+            if (isxdigit((unsigned char)*s)) {
+                /* Next char is also hex; break the string */
+                emit(codegen, "\" \"");
+            }
+        } else if (s[0] == '\\' && s[1] == '$') {
+            append_char_to_buffer(&codegen->output, '$');
+            s += 2;
+        } else if (s[0] == '\\' && s[1] == '0') {
+            emit(codegen, "\\000"); /* three digits, so that no octal digit can follow */
+            s += 2;
+        } else if (s[0] == '\\' && s[1]) {
+            append_char_to_buffer(&codegen->output, s[0]);
+            append_char_to_buffer(&codegen->output, s[1]);
+            s += 2;
+        } else if (format && *s == '%') {
+            emit(codegen, "%%");
+            s++;
+        } else if (*s == '\n') {
+            emit(codegen, "\\n");
+            s++;
+        } else if (*s == '\r') {
+            emit(codegen, "\\r");
+            s++;
+        } else if (*s == '?') {
+            emit(codegen, "\\?"); /* no trigraphs */
+            s++;
+        } else {
+            append_char_to_buffer(&codegen->output, *s);
+            s++;
+        }
+    }
+}
+
+/* Emit the text println() would show for a value, as a GrayString. */
 static void emit_printed_text(CodeGen *codegen, AstNode *value, GrayType *type) {
     static int counter = 0;
     int tag = counter++;
@@ -1289,7 +1338,7 @@ static void emit_printed_text(CodeGen *codegen, AstNode *value, GrayType *type)
     emit_formatted(codegen, "; char *_pb%d = NULL; size_t _pl%d = 0; FILE *%s = gray_builtin_open_text(&_pb%d, &_pl%d);\n",
         tag, tag, stream, tag, tag);
     emit_value_print(codegen, var, type, stream, true);
-    emit_formatted(codegen, "fclose(%s); GrayString _pt%d = gray_string_new(gray_default_arena, _pb%d, (int32_t)_pl%d); free(_pb%d); _pt%d; }).data",
+    emit_formatted(codegen, "fclose(%s); GrayString _pt%d = gray_string_new(gray_default_arena, _pb%d, (int32_t)_pl%d); free(_pb%d); _pt%d; })",
         stream, tag, tag, tag, tag, tag);
 }
 
@@ -1659,48 +1708,15 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                     emit(codegen, "\\r");
                 } else if (*s == '\t') {
                     emit(codegen, "\\t");
+                } else if (*s == '?') {
+                    emit(codegen, "\\?");
                 } else {
                     append_char_to_buffer(&codegen->output, *s);
                 }
                 s++;
             }
         } else {
-            while (*s) {
-                if (s[0] == '\\' && s[1] == 'x' && isxdigit((unsigned char)s[2])) {
-                    /* Emit \xNN then break the string if followed by a hex digit */
-                    append_char_to_buffer(&codegen->output, s[0]); /* \ */
-                    append_char_to_buffer(&codegen->output, s[1]); /* x */
-                    append_char_to_buffer(&codegen->output, s[2]); /* first hex */
-                    s += 3;
-                    if (isxdigit((unsigned char)*s)) {
-                        append_char_to_buffer(&codegen->output, *s); /* second hex */
-                        s++;
-                    }
-                    if (isxdigit((unsigned char)*s)) {
-                        /* Next char is also hex; break the string */
-                        emit(codegen, "\" \"");
-                    }
-                } else if (s[0] == '\\' && s[1] == '$') {
-                    append_char_to_buffer(&codegen->output, '$');
-                    s += 2;
-                } else if (s[0] == '\\' && s[1] == '0') {
-                    emit(codegen, "\\000"); /* three digits, so that no octal digit can follow */
-                    s += 2;
-                } else if (s[0] == '\\' && s[1]) {
-                    append_char_to_buffer(&codegen->output, s[0]);
-                    append_char_to_buffer(&codegen->output, s[1]);
-                    s += 2;
-                } else if (*s == '\n') {
-                    emit(codegen, "\\n");
-                    s++;
-                } else if (*s == '\r') {
-                    emit(codegen, "\\r");
-                    s++;
-                } else {
-                    append_char_to_buffer(&codegen->output, *s);
-                    s++;
-                }
-            }
+            emit_literal_content(codegen, s, false);
         }
         if (has_null && codegen->indent > 0) {
             emit_formatted(codegen, "\", %d)", str_len);
@@ -1731,18 +1747,12 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         break;
 
     case NODE_INTERPOLATED_STRING: {
-        emit(codegen, "gray_string_format(gray_default_arena, \"");
+        emit(codegen, "({ static const char _ifmt[] = \"");
         /* First pass: emit format string */
         for (int i = 0; i < node->data.interpolated_string.part_count; i++) {
             AstNode *part = node->data.interpolated_string.parts[i];
             if (part->kind == NODE_STRING_VALUE) {
-                const char *s = part->data.string_value.value;
-                while (*s) {
-                    if (*s == '%') append_string_to_buffer(&codegen->output, "%%");
-                    else if (s[0] == '\\' && s[1] == '$') { append_char_to_buffer(&codegen->output, '$'); s++; }
-                    else append_char_to_buffer(&codegen->output, *s);
-                    s++;
-                }
+                emit_literal_content(codegen, part->data.string_value.value, true);
             } else {
                 /* Use type table to determine format specifier */
                 GrayType *part_type = codegen->type_table ? typetable_get(codegen->type_table, part) : NULL;
@@ -1762,27 +1772,27 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                     else tk = TK_INT; /* default integer kind */
                 }
 
-                /* Check for bigint types; format as %s (use to_string) */
+                /* Check for bigint types; format as %S (use to_string) */
                 const char *bi_interp = resolve_bigint_type(codegen, part);
                 if (bi_interp) {
-                    emit(codegen, "%s");
+                    emit(codegen, "%S");
                 } else switch (tk) {
-                case TK_STRING: emit(codegen, "%s"); break;
-                case TK_FLOAT:  emit(codegen, "%s"); break; /* uses gray_builtin_format_float */
-                case TK_BOOL:   emit(codegen, "%s"); break;
-                case TK_CHAR:   emit(codegen, "%s"); break;
-                case TK_ARRAY:  emit(codegen, "%s"); break;
-                case TK_MAP:    emit(codegen, "%s"); break;
-                case TK_ERROR:  emit(codegen, "%s"); break;
+                case TK_STRING: emit(codegen, "%S"); break;
+                case TK_FLOAT:  emit(codegen, "%S"); break; /* uses gray_builtin_format_float */
+                case TK_BOOL:   emit(codegen, "%S"); break;
+                case TK_CHAR:   emit(codegen, "%S"); break;
+                case TK_ARRAY:  emit(codegen, "%S"); break;
+                case TK_MAP:    emit(codegen, "%S"); break;
+                case TK_ERROR:  emit(codegen, "%S"); break;
                 case TK_STRUCT:
                     if (part_type && part_type->name && strcmp(part_type->name, "UUID") == 0)
-                        emit(codegen, "%s");
+                        emit(codegen, "%S");
                     else
                         emit(codegen, "%lld");
                     break;
                 case TK_ENUM:
                     if (part_type && part_type->name && codegen_enum_is_string(codegen, part_type->name))
-                        emit(codegen, "%s");
+                        emit(codegen, "%S");
                     else
                         emit(codegen, "%lld");
                     break;
@@ -1791,7 +1801,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 }
             }
         }
-        emit(codegen, "\"");
+        emit(codegen, "\"; gray_string_interpolate(gray_default_arena, _ifmt, sizeof(_ifmt) - 1");
         /* Second pass: emit arguments */
         for (int i = 0; i < node->data.interpolated_string.part_count; i++) {
             AstNode *part = node->data.interpolated_string.parts[i];
@@ -1818,33 +1828,32 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             if (bi_arg) {
                 emit_formatted(codegen, "%s_to_string(gray_default_arena, ", bigint_prefix(bi_arg));
                 emit_expression(codegen, part);
-                emit(codegen, ").data");
+                emit(codegen, ")");
             } else switch (tk) {
             case TK_STRING:
                 emit_expression(codegen, part);
-                emit(codegen, ".data");
                 break;
             case TK_BOOL:
                 emit(codegen, "(");
                 emit_expression(codegen, part);
-                emit(codegen, ") ? \"true\" : \"false\"");
+                emit(codegen, ") ? gray_string_lit(\"true\") : gray_string_lit(\"false\")");
                 break;
             case TK_FLOAT:
                 emit(codegen, "gray_builtin_format_float(gray_default_arena, ");
                 emit_expression(codegen, part);
-                emit(codegen, ").data");
+                emit(codegen, ")");
                 break;
             case TK_CHAR:
                 emit(codegen, "gray_builtin_char_to_utf8(gray_default_arena, ");
                 emit_expression(codegen, part);
-                emit(codegen, ").data");
+                emit(codegen, ")");
                 break;
             case TK_ARRAY: {
                 int ek = part_type ? interpolated_kind(part_type->element_type) : 0;
                 if (ek < 0) { emit_printed_text(codegen, part, part_type); break; }
                 emit_formatted(codegen, "({ GrayArray _interp_arr = ");
                 emit_expression(codegen, part);
-                emit_formatted(codegen, "; gray_builtin_array_to_string(gray_default_arena, &_interp_arr, %d); }).data", ek);
+                emit_formatted(codegen, "; gray_builtin_array_to_string(gray_default_arena, &_interp_arr, %d); })", ek);
                 break;
             }
             case TK_MAP: {
@@ -1855,15 +1864,14 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 }
                 emit_formatted(codegen, "({ GrayMap _interp_map = ");
                 emit_expression(codegen, part);
-                emit_formatted(codegen, "; gray_builtin_map_to_string(gray_default_arena, &_interp_map, %d); }).data", vk);
+                emit_formatted(codegen, "; gray_builtin_map_to_string(gray_default_arena, &_interp_map, %d); })", vk);
                 break;
             }
             case TK_ERROR:
                 /* Print error message */
+                emit(codegen, "({ GrayError *_ie = ");
                 emit_expression(codegen, part);
-                emit(codegen, " ? ");
-                emit_expression(codegen, part);
-                emit(codegen, "->message.data : \"nil\"");
+                emit(codegen, "; _ie ? _ie->message : gray_string_lit(\"nil\"); })");
                 break;
             case TK_UINT:
                 emit(codegen, "(unsigned long long)(");
@@ -1873,7 +1881,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             case TK_STRUCT:
                 if (part_type && part_type->name && strcmp(part_type->name, "UUID") == 0) {
                     emit_expression(codegen, part);
-                    emit(codegen, ".value.data");
+                    emit(codegen, ".value");
                 } else {
                     emit(codegen, "(long long)(");
                     emit_expression(codegen, part);
@@ -1883,7 +1891,6 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
             case TK_ENUM:
                 if (part_type && part_type->name && codegen_enum_is_string(codegen, part_type->name)) {
                     emit_expression(codegen, part);
-                    emit(codegen, ".data");
                 } else {
                     emit(codegen, "(long long)(");
                     emit_expression(codegen, part);
@@ -1897,7 +1904,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                 break;
             }
         }
-        emit(codegen, ")");
+        emit(codegen, "); })");
         break;
     }
 
@@ -1967,7 +1974,8 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         GrayType *elem_t = codegen->type_table
             ? typetable_get(codegen->type_table, node->data.array_value.elements[0])
             : NULL;
-        if (!bi_elem && elem_t && elem_t->name && is_bigint_type(elem_t->name))
+        if (!bi_elem && elem_t && (elem_t->kind == TK_INT || elem_t->kind == TK_UINT) &&
+            elem_t->name && is_bigint_type(elem_t->name))
             bi_elem = elem_t->name;
         /* Also check var decl context for bigint element type */
         if (codegen->current_var_type && codegen->current_var_type[0] == '[') {
@@ -3602,6 +3610,8 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
             stream, bigint_prefix(type->name), c_expr);
         return;
     }
+    if (type->kind == TK_ENUM && type->name && codegen_enum_is_string(codegen, type->name))
+        type = type_from_name("string");
     switch (type->kind) {
     case TK_INT: case TK_BYTE: case TK_ENUM:
         emit_indent(codegen);
@@ -3617,13 +3627,11 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         break;
     case TK_STRING:
         emit_indent(codegen);
-        if (in_container) {
-            emit_formatted(codegen, "fprintf(%s, \"\\\"%%.*s\\\"\", (int)(%s).len, (%s).data);\n",
-                   stream, c_expr, c_expr);
-        } else {
-            emit_formatted(codegen, "fprintf(%s, \"%%.*s\", (int)(%s).len, (%s).data);\n",
-                   stream, c_expr, c_expr);
-        }
+        emit_formatted(codegen, "{ GrayString _st = %s; ", c_expr);
+        if (in_container) emit_formatted(codegen, "fputc('\"', %s); ", stream);
+        emit_formatted(codegen, "fwrite(_st.data, 1, (size_t)_st.len, %s); ", stream);
+        if (in_container) emit_formatted(codegen, "fputc('\"', %s); ", stream);
+        emit(codegen, "}\n");
         break;
     case TK_BOOL:
         emit_indent(codegen);
@@ -3642,6 +3650,10 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         emit_indent(codegen);
         emit_formatted(codegen, "fprintf(%s, \"nil\");\n", stream);
         break;
+    case TK_ERROR:
+        emit_indent(codegen);
+        emit_formatted(codegen, "{ GrayError *_se = %s; GrayString _st = _se ? _se->message : gray_string_lit(\"nil\"); fwrite(_st.data, 1, (size_t)_st.len, %s); }\n", c_expr, stream);
+        break;
     case TK_ARRAY: {
         int uid = _gray_print_uid++;
         const char *elem_tn = type->element_type ? type->element_type : "int";
@@ -3689,9 +3701,9 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         GrayType *key_t = type_from_name(key_tn);
         GrayType *val_t = type_from_name(val_tn);
         char c_key[TYPE_NAME_MAX], c_val[TYPE_NAME_MAX];
-        strncpy(c_key, gray_type_to_c_codegen(codegen, key_tn), sizeof(c_key) - 1);
+        strncpy(c_key, gray_map_element_c_type(codegen, key_tn), sizeof(c_key) - 1);
         c_key[sizeof(c_key) - 1] = '\0';
-        strncpy(c_val, gray_type_to_c_codegen(codegen, val_tn), sizeof(c_val) - 1);
+        strncpy(c_val, gray_map_element_c_type(codegen, val_tn), sizeof(c_val) - 1);
         c_val[sizeof(c_val) - 1] = '\0';
 
         char mi[SHORT_VAR_BUF], sl[SHORT_VAR_BUF];
@@ -3736,6 +3748,11 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
     case TK_STRUCT: {
         const char *struct_name = type->name;
         AstNode *sdecl = find_struct_declaration(codegen, struct_name);
+        if (strcmp(struct_name, "UUID") == 0 && !sdecl) {
+            emit_indent(codegen);
+            emit_formatted(codegen, "fprintf(%s, \"%%.*s\", (int)(%s).value.len, (%s).value.data);\n", stream, c_expr, c_expr);
+            break;
+        }
         /* Use the user-facing name (without module prefix) for display.
          * Check struct decls first, then enum decls (enums are struct-backed). */
         const char *display_name = struct_name;
@@ -3782,10 +3799,29 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
                 emit_formatted(codegen, "fprintf(%s, \"%s: \");\n", stream, field->name);
 
                 char field_expr[MSG_BUF_SIZE];
-                snprintf(field_expr, sizeof(field_expr), "(%s).%s", c_expr, field->name);
+                snprintf(field_expr, sizeof(field_expr), "(%s).%s", c_expr, sanitize_name(field->name));
                 GrayType *field_graytype = type_from_name(field->type_name);
                 emit_value_print(codegen, field_expr, field_graytype, stream, true);
             }
+        } else {
+            /* Structs of the runtime have no declaration to walk. */
+            static const struct { const char *owner, *field, *type; } builtin_fields[] = {
+                {"SourceLocation", "file", "string"}, {"SourceLocation", "line", "int"}, {"SourceLocation", "column", "int"},
+                {"HttpResponse", "status", "int"}, {"HttpResponse", "body", "string"}, {"HttpResponse", "headers", "map[string:string]"},
+                {"HttpRequest", "method", "string"}, {"HttpRequest", "path", "string"}, {"HttpRequest", "body", "string"},
+                {"HttpRequest", "query", "map[string:string]"}, {"HttpRequest", "headers", "map[string:string]"},
+                {"HttpRequest", "params", "map[string:string]"},
+            };
+            bool first = true;
+            for (size_t i = 0; i < sizeof(builtin_fields) / sizeof(builtin_fields[0]); i++) {
+                if (strcmp(builtin_fields[i].owner, struct_name) != 0) continue;
+                emit_indent(codegen);
+                emit_formatted(codegen, "fprintf(%s, \"%s%s: \");\n", stream, first ? "" : ", ", builtin_fields[i].field);
+                first = false;
+                char field_expr[MSG_BUF_SIZE];
+                snprintf(field_expr, sizeof(field_expr), "(%s).%s", c_expr, builtin_fields[i].field);
+                emit_value_print(codegen, field_expr, type_from_name(builtin_fields[i].type), stream, true);
+            }
         }
 
         emit_value_print_depth--;
@@ -3832,6 +3868,7 @@ static bool emit_composite_print(CodeGen *codegen, AstNode *node,
         type->kind != TK_MAP && type->kind != TK_POINTER) return false;
     /* Enum types are stored as TK_STRUCT but should print as integers */
     if (type->kind == TK_STRUCT && type->name && codegen_is_enum(codegen, type->name)) return false;
+    if (type->kind == TK_STRUCT && type->name && strcmp(type->name, "UUID") == 0) return false;
 
     /* Emit a block to scope temp variables */
     emit(codegen, "{\n");
@@ -3872,6 +3909,34 @@ static bool emit_composite_print(CodeGen *codegen, AstNode *node,
     return true;
 }
 
+/* The print functions for values that are not composite. */
+static void emit_plain_print(CodeGen *codegen, AstNode *value, const char *func) {
+    AstNode *arg = unwrap_reference_argument(value);
+    GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+    const char *bi_type = resolve_bigint_type(codegen, arg);
+    if (arg_t && arg_t->kind == TK_ERROR) {
+        /* Error type: print message or "nil" */
+        emit_formatted(codegen, "gray_builtin_%s_str(({ GrayError *_pe = ", func);
+        emit_expression(codegen, arg);
+        emit(codegen, "; _pe ? _pe->message : gray_string_lit(\"nil\"); }))");
+    } else if (arg_t && arg_t->kind == TK_NIL) {
+        emit_formatted(codegen, "gray_builtin_%s_str(gray_string_lit(\"nil\"))", func);
+    } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
+               strcmp(arg_t->name, "UUID") == 0) {
+        emit_formatted(codegen, "gray_builtin_%s_str((", func);
+        emit_expression(codegen, arg);
+        emit(codegen, ").value)");
+    } else if (bi_type) {
+        emit_formatted(codegen, "gray_builtin_%s_str(%s_to_string(gray_default_arena, ", func, bigint_prefix(bi_type));
+        emit_expression(codegen, arg);
+        emit(codegen, "))");
+    } else {
+        emit_formatted(codegen, "gray_builtin_%s%s(", func, resolve_print_suffix(codegen, arg));
+        emit_expression(codegen, arg);
+        emit(codegen, ")");
+    }
+}
+
 /* --- Builtin call handler (no-module functions) --- */
 
 static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func) {
@@ -3880,32 +3945,7 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             emit(codegen, "putchar('\\n')");
         } else {
             if (emit_composite_print(codegen, node, "stdout", true)) return true;
-            AstNode *arg = unwrap_reference_argument(node->data.call.args[0]);
-            /* Error type: print message or "nil" */
-            GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-            if (arg_t && arg_t->kind == TK_ERROR) {
-                emit(codegen, "gray_builtin_println_str(");
-                emit_expression(codegen, arg);
-                emit(codegen, " ? ");
-                emit_expression(codegen, arg);
-                emit(codegen, "->message : gray_string_lit(\"nil\"))");
-            } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
-                       strcmp(arg_t->name, "UUID") == 0) {
-                emit(codegen, "gray_builtin_println_str(");
-                emit_expression(codegen, arg);
-                emit(codegen, ".value)");
-            } else {
-                const char *bi_type = resolve_bigint_type(codegen, arg);
-                if (bi_type) {
-                    emit_formatted(codegen, "gray_builtin_println_str(%s_to_string(gray_default_arena, ", bigint_prefix(bi_type));
-                    emit_expression(codegen, arg);
-                    emit(codegen, "))");
-                } else {
-                    emit_formatted(codegen, "gray_builtin_println%s(", resolve_print_suffix(codegen, arg));
-                    emit_expression(codegen, arg);
-                    emit(codegen, ")");
-                }
-            }
+            emit_plain_print(codegen, node->data.call.args[0], "println");
         }
         return true;
     }
@@ -4169,62 +4209,14 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             emit(codegen, "fputc('\\n', stderr)");
         } else {
             if (emit_composite_print(codegen, node, "stderr", true)) return true;
-            AstNode *arg = unwrap_reference_argument(node->data.call.args[0]);
-            GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-            if (arg_t && arg_t->kind == TK_ERROR) {
-                emit(codegen, "gray_builtin_eprintln_str(");
-                emit_expression(codegen, arg);
-                emit(codegen, " ? ");
-                emit_expression(codegen, arg);
-                emit(codegen, "->message : gray_string_lit(\"nil\"))");
-            } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
-                       strcmp(arg_t->name, "UUID") == 0) {
-                emit(codegen, "gray_builtin_eprintln_str(");
-                emit_expression(codegen, arg);
-                emit(codegen, ".value)");
-            } else {
-                const char *bi_type = resolve_bigint_type(codegen, arg);
-                if (bi_type) {
-                    emit_formatted(codegen, "gray_builtin_eprintln_str(%s_to_string(gray_default_arena, ", bigint_prefix(bi_type));
-                    emit_expression(codegen, arg);
-                    emit(codegen, "))");
-                } else {
-                    emit_formatted(codegen, "gray_builtin_eprintln%s(", resolve_print_suffix(codegen, arg));
-                    emit_expression(codegen, arg);
-                    emit(codegen, ")");
-                }
-            }
+            emit_plain_print(codegen, node->data.call.args[0], "eprintln");
         }
         return true;
     }
 
     if (strcmp(func, "eprint") == 0 && node->data.call.arg_count > 0) {
         if (emit_composite_print(codegen, node, "stderr", false)) return true;
-        AstNode *arg = unwrap_reference_argument(node->data.call.args[0]);
-        GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-        if (arg_t && arg_t->kind == TK_ERROR) {
-            emit(codegen, "gray_builtin_eprint_str(");
-            emit_expression(codegen, arg);
-            emit(codegen, " ? ");
-            emit_expression(codegen, arg);
-            emit(codegen, "->message : gray_string_lit(\"nil\"))");
-        } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
-                   strcmp(arg_t->name, "UUID") == 0) {
-            emit(codegen, "gray_builtin_eprint_str(");
-            emit_expression(codegen, arg);
-            emit(codegen, ".value)");
-        } else {
-            const char *bi_type = resolve_bigint_type(codegen, arg);
-            if (bi_type) {
-                emit_formatted(codegen, "gray_builtin_eprint_str(%s_to_string(gray_default_arena, ", bigint_prefix(bi_type));
-                emit_expression(codegen, arg);
-                emit(codegen, "))");
-            } else {
-                emit_formatted(codegen, "gray_builtin_eprint%s(", resolve_print_suffix(codegen, arg));
-                emit_expression(codegen, arg);
-                emit(codegen, ")");
-            }
-        }
+        emit_plain_print(codegen, node->data.call.args[0], "eprint");
         return true;
     }
 
@@ -4350,31 +4342,7 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
 
     if (strcmp(func, "print") == 0 && node->data.call.arg_count > 0) {
         if (emit_composite_print(codegen, node, "stdout", false)) return true;
-        AstNode *arg = unwrap_reference_argument(node->data.call.args[0]);
-        GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-        if (arg_t && arg_t->kind == TK_ERROR) {
-            emit(codegen, "gray_builtin_print_str(");
-            emit_expression(codegen, arg);
-            emit(codegen, " ? ");
-            emit_expression(codegen, arg);
-            emit(codegen, "->message : gray_string_lit(\"nil\"))");
-        } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
-                   strcmp(arg_t->name, "UUID") == 0) {
-            emit(codegen, "gray_builtin_print_str(");
-            emit_expression(codegen, arg);
-            emit(codegen, ".value)");
-        } else {
-            const char *bi_type = resolve_bigint_type(codegen, arg);
-            if (bi_type) {
-                emit_formatted(codegen, "gray_builtin_print_str(%s_to_string(gray_default_arena, ", bigint_prefix(bi_type));
-                emit_expression(codegen, arg);
-                emit(codegen, "))");
-            } else {
-                emit_formatted(codegen, "gray_builtin_print%s(", resolve_print_suffix(codegen, arg));
-                emit_expression(codegen, arg);
-                emit(codegen, ")");
-            }
-        }
+        emit_plain_print(codegen, node->data.call.args[0], "print");
         return true;
     }
 
@@ -9841,13 +9809,12 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 emit_formatted(codegen, "typedef GrayString GrayEnum_%s;\n", stmt->data.enum_decl.name);
                 for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
                     EnumVal *ev = &stmt->data.enum_decl.values[j];
-                    const char *str_val = ev->name;
-                    if (ev->value && ev->value->kind == NODE_STRING_VALUE) {
-                        str_val = ev->value->data.string_value.value;
-                    }
-                    emit_formatted(codegen, "#define GrayEnum_%s_%s ((GrayString){ \"%s\", %d })\n",
-                        stmt->data.enum_decl.name, ev->name,
-                        str_val, (int)strlen(str_val));
+                    emit_formatted(codegen, "#define GrayEnum_%s_%s ", stmt->data.enum_decl.name, ev->name);
+                    if (ev->value && ev->value->kind == NODE_STRING_VALUE)
+                        emit_expression(codegen, ev->value);
+                    else
+                        emit_formatted(codegen, "GRAY_STRING_LIT(\"%s\")", ev->name);
+                    emit(codegen, "\n");
                 }
                 emit(codegen, "\n");
             } else if (is_tagged) {
diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 0df9e9d..c5dc151 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -282,8 +282,11 @@ static const char *parse_complex_type(Parser *parser) {
                 depth++;
                 next_token(parser);
             }
-            const char *inner = read_type_name(parser);
-            if (peek_token_is(parser, TOK_COLON)) {
+            bool inner_map = current_token_is(parser, TOK_IDENT) && strcmp(parser->cur_token.literal, "map") == 0 &&
+                             peek_token_is(parser, TOK_LBRACKET);
+            const char *inner = inner_map ? parse_complex_type(parser) : read_type_name(parser);
+            if (!inner) return NULL;
+            if (!inner_map && peek_token_is(parser, TOK_COLON)) {
                 /* Last bracket was map shorthand: [[K:V]] = [map[K:V]] */
                 depth--;
                 next_token(parser); /* skip : */
diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 497b268..be95def 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -170,6 +170,54 @@ GrayString gray_string_format(GrayArena *arena, const char *fmt, ...) {
     return str;
 }
 
+/* Interpolated strings: %S takes a GrayString, of any content, %lld and %llu
+ * an integer; %% is a percent sign. The format may contain NUL. */
+GrayString gray_string_interpolate(GrayArena *arena, const char *fmt, size_t fmt_len, ...) {
+    char *data = NULL;
+    size_t len = 0;
+    for (int pass = 0; pass < 2; pass++) {
+        va_list args;
+        va_start(args, fmt_len);
+        len = 0;
+        for (size_t i = 0; i < fmt_len;) {
+            char number[32];
+            const char *piece = fmt + i;
+            size_t piece_len = 1;
+            if (fmt[i] != '%') {
+                const char *next = memchr(fmt + i, '%', fmt_len - i);
+                piece_len = next ? (size_t)(next - piece) : fmt_len - i;
+                i += piece_len;
+            } else if (fmt[i + 1] == 'S') {
+                GrayString s = va_arg(args, GrayString);
+                piece = s.data;
+                piece_len = (size_t)s.len;
+                i += 2;
+            } else if (fmt[i + 1] == 'l') {
+                int n = fmt[i + 3] == 'u'
+                    ? snprintf(number, sizeof(number), "%llu", va_arg(args, unsigned long long))
+                    : snprintf(number, sizeof(number), "%lld", va_arg(args, long long));
+                piece = number;
+                piece_len = (size_t)n;
+                i += 4;
+            } else {
+                i += 2;
+            }
+            if (data && piece_len > 0) memcpy(data + len, piece, piece_len);
+            len += piece_len;
+        }
+        va_end(args);
+        if (pass == 0) {
+            if (len > (size_t)INT32_MAX) {
+                fprintf(stderr, "Grayscale runtime: string concatenation overflow\n");
+                exit(1);
+            }
+            data = (char *)gray_arena_alloc(arena, len + 1);
+        }
+    }
+    data[len] = '\0';
+    return (GrayString){ data, (int32_t)len };
+}
+
 GrayString gray_string_concat(GrayArena *arena, GrayString a, GrayString b) {
     if (b.len > INT32_MAX - a.len) {
         fprintf(stderr, "Grayscale runtime: string concatenation overflow\n");
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index ac4f752..c555d83 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -114,6 +114,7 @@ static inline bool gray_string_eq(GrayString a, GrayString b) {
 }
 
 /* String concatenation */
+GrayString gray_string_interpolate(GrayArena *arena, const char *fmt, size_t fmt_len, ...);
 GrayString gray_string_concat(GrayArena *arena, GrayString a, GrayString b);
 
 /* --- Runtime Init/Shutdown --- */
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 9efd511..ba77bf0 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -7791,7 +7791,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
          * scope). Catch it on the Grayscale side so the user sees a real
          * diagnostic instead of a clang error pointing at the generated C. */
         if (checker->func_depth == 0 && node->data.var_decl.value &&
-            expression_contains_call(node->data.var_decl.value)) {
+            (expression_contains_call(node->data.var_decl.value) ||
+             node->data.var_decl.value->kind == NODE_INTERPOLATED_STRING)) {
             diagnostic_error_code(checker->diag, "E5013",
                 NODE_FILE(checker, node), node->token.line, node->token.column, 0);
         }
-- 
2.43.0


From e90a12c16984be12a3bf0167b2479c8b13adba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:19 +0000
Subject: [PATCH 31/56] fix: regular expressions match the whole text from left
 to right at any length

---
 grayc/src/stdlib/regex.c | 166 ++++++++++++++++-----------------------
 1 file changed, 68 insertions(+), 98 deletions(-)

diff --git a/grayc/src/stdlib/regex.c b/grayc/src/stdlib/regex.c
index d15458d..3ad8d47 100644
--- a/grayc/src/stdlib/regex.c
+++ b/grayc/src/stdlib/regex.c
@@ -10,50 +10,60 @@
 
 #include "regex.h"
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
-#include <stdio.h>
 
-#define GRAY_REGEX_PAT_BUF        4096
-#define GRAY_REGEX_TXT_BUF        8192
-#define GRAY_REGEX_RESULT_BUF     16384
-
-/* Helper: compile pattern into a null-terminated C string and regex_t.
+/* Helper: compile pattern into a regex_t. Patterns are C strings, so one that
+ * contains a NUL byte is invalid.
  * Returns 0 on success, non-zero on error. Caller must regfree on success. */
 static int compile_pattern(GrayString pattern, regex_t *re, int flags) {
-    /* Null-terminate the pattern */
-    char pat_buf[GRAY_REGEX_PAT_BUF];
-    int pattern_length = pattern.len < (int32_t)sizeof(pat_buf) - 1 ? pattern.len : (int32_t)sizeof(pat_buf) - 1;
-    memcpy(pat_buf, pattern.data, (size_t)pattern_length);
-    pat_buf[pattern_length] = '\0';
+    if (pattern.len > 0 && memchr(pattern.data, '\0', (size_t)pattern.len)) return REG_BADPAT;
+    char *text = malloc((size_t)pattern.len + 1);
+    if (!text) return REG_ESPACE;
+    if (pattern.len > 0) memcpy(text, pattern.data, (size_t)pattern.len);
+    text[pattern.len] = '\0';
+    int result = regcomp(re, text, flags | REG_EXTENDED);
+    free(text);
+    return result;
+}
 
-    return regcomp(re, pat_buf, flags | REG_EXTENDED);
+/* Find the leftmost-longest match that starts at or after `start`. The whole
+ * text is passed so that '^' and '$' refer to its ends and not to `start`. */
+static bool match_from(const regex_t *re, GrayString text, int32_t start, regmatch_t *match) {
+    match->rm_so = start;
+    match->rm_eo = text.len;
+    return regexec(re, text.data ? text.data : "", 1, match,
+                   REG_STARTEND | (start > 0 ? REG_NOTBOL : 0)) == 0;
 }
 
-/* Helper: null-terminate an GrayString into a buffer */
-static const char *to_cstr(GrayString s, char *buf, size_t buffer_size) {
-    size_t len = (size_t)s.len < buffer_size - 1 ? (size_t)s.len : buffer_size - 1;
-    memcpy(buf, s.data, len);
-    buf[len] = '\0';
-    return buf;
+/* Step to the next match from left to right: matches do not overlap, and after
+ * an empty match the search goes on one character further. `*next` is 0 for
+ * the first match. */
+static bool next_match(const regex_t *re, GrayString text, int32_t *next, regmatch_t *match) {
+    if (*next > text.len || !match_from(re, text, *next, match)) return false;
+    *next = (int32_t)match->rm_eo + (match->rm_eo == match->rm_so ? 1 : 0);
+    return true;
+}
+
+static GrayString slice(GrayArena *arena, GrayString text, int32_t start, int32_t end) {
+    return gray_string_new(arena, text.data ? text.data + start : "", end - start);
 }
 
 bool gray_regex_is_valid(GrayString pattern) {
     regex_t re;
-    if (compile_pattern(pattern, &re, REG_EXTENDED | REG_NOSUB) != 0) return false;
+    if (compile_pattern(pattern, &re, REG_NOSUB) != 0) return false;
     regfree(&re);
     return true;
 }
 
 bool gray_regex_match(GrayString pattern, GrayString text) {
     regex_t re;
-    if (compile_pattern(pattern, &re, REG_NOSUB) != 0) return false;
-
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
+    if (compile_pattern(pattern, &re, 0) != 0) return false;
 
-    int result = regexec(&re, txt_buf, 0, NULL, 0);
+    regmatch_t match;
+    bool found = match_from(&re, text, 0, &match);
     regfree(&re);
-    return result == 0;
+    return found;
 }
 
 GrayString gray_regex_find(GrayArena *arena, GrayString pattern, GrayString text) {
@@ -62,17 +72,10 @@ GrayString gray_regex_find(GrayArena *arena, GrayString pattern, GrayString text
         return (GrayString){"", 0};
     }
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
     regmatch_t match;
-    if (regexec(&re, txt_buf, 1, &match, 0) != 0) {
-        regfree(&re);
-        return (GrayString){"", 0};
-    }
-
-    int32_t match_length = (int32_t)(match.rm_eo - match.rm_so);
-    GrayString result = gray_string_new(arena, txt_buf + match.rm_so, match_length);
+    GrayString result = {"", 0};
+    if (match_from(&re, text, 0, &match))
+        result = slice(arena, text, (int32_t)match.rm_so, (int32_t)match.rm_eo);
     regfree(&re);
     return result;
 }
@@ -82,22 +85,11 @@ GrayArray gray_regex_find_all(GrayArena *arena, GrayString pattern, GrayString t
     regex_t re;
     if (compile_pattern(pattern, &re, 0) != 0) return arr;
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
-    const char *cursor = txt_buf;
     regmatch_t match;
-
-    while (regexec(&re, cursor, 1, &match, 0) == 0) {
-        int32_t match_length = (int32_t)(match.rm_eo - match.rm_so);
-        GrayString s = gray_string_new(arena, cursor + match.rm_so, match_length);
+    int32_t next = 0;
+    while (next_match(&re, text, &next, &match)) {
+        GrayString s = slice(arena, text, (int32_t)match.rm_so, (int32_t)match.rm_eo);
         gray_array_push(arena, &arr, &s);
-
-        cursor += match.rm_eo;
-        if (match.rm_eo == 0) {
-            if (cursor >= txt_buf + (size_t)text.len) break;
-            cursor++;
-        }
     }
 
     regfree(&re);
@@ -110,44 +102,33 @@ GrayString gray_regex_replace(GrayArena *arena, GrayString pattern, GrayString t
         return text;
     }
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
-    char repl_buf[GRAY_REGEX_PAT_BUF];
-    to_cstr(replacement, repl_buf, sizeof(repl_buf));
-
-    /* Build result by replacing all matches */
-    char result[GRAY_REGEX_RESULT_BUF];
-    int pos = 0;
-    const char *cursor = txt_buf;
     regmatch_t match;
-
-    while (regexec(&re, cursor, 1, &match, 0) == 0 && pos < (int)sizeof(result) - GRAY_REGEX_PAT_BUF) {
-        /* Copy text before match */
-        int pre_len = (int)match.rm_so;
-        memcpy(result + pos, cursor, (size_t)pre_len);
-        pos += pre_len;
-
-        /* Copy replacement */
-        int repl_len = (int)strlen(repl_buf);
-        memcpy(result + pos, repl_buf, (size_t)repl_len);
-        pos += repl_len;
-
-        /* Advance past match */
-        cursor += match.rm_eo;
-        if (match.rm_eo == 0) {
-            if (*cursor) result[pos++] = *cursor++;
-            else break;
-        }
+    int64_t total = text.len;
+    int32_t next = 0;
+    while (next_match(&re, text, &next, &match))
+        total += replacement.len - (int64_t)(match.rm_eo - match.rm_so);
+    if (total > INT32_MAX) {
+        regfree(&re);
+        gray_panic_code("P0071", "regex.replace result exceeds maximum string length");
     }
 
-    /* Copy remaining text */
-    int remaining = (int)strlen(cursor);
-    memcpy(result + pos, cursor, (size_t)remaining);
-    pos += remaining;
+    char *result = gray_arena_alloc(arena, (size_t)total + 1);
+    int32_t pos = 0, copied = 0;
+    next = 0;
+    while (next_match(&re, text, &next, &match)) {
+        int32_t before = (int32_t)match.rm_so - copied;
+        if (before > 0) memcpy(result + pos, text.data + copied, (size_t)before);
+        pos += before;
+        if (replacement.len > 0) memcpy(result + pos, replacement.data, (size_t)replacement.len);
+        pos += replacement.len;
+        copied = (int32_t)match.rm_eo;
+    }
+    if (text.len > copied) memcpy(result + pos, text.data + copied, (size_t)(text.len - copied));
+    pos += text.len - copied;
+    result[pos] = '\0';
 
     regfree(&re);
-    return gray_string_new(arena, result, (int32_t)pos);
+    return (GrayString){result, pos};
 }
 
 GrayArray gray_regex_split(GrayArena *arena, GrayString pattern, GrayString text) {
@@ -159,28 +140,17 @@ GrayArray gray_regex_split(GrayArena *arena, GrayString pattern, GrayString text
         return arr;
     }
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
-    const char *cursor = txt_buf;
     regmatch_t match;
-
-    while (regexec(&re, cursor, 1, &match, 0) == 0) {
+    int32_t next = 0, start = 0;
+    while (next_match(&re, text, &next, &match)) {
         /* Piece before the match */
-        int32_t piece_length = (int32_t)match.rm_so;
-        GrayString piece = gray_string_new(arena, cursor, piece_length);
+        GrayString piece = slice(arena, text, start, (int32_t)match.rm_so);
         gray_array_push(arena, &arr, &piece);
-
-        cursor += match.rm_eo;
-        if (match.rm_eo == 0) {
-            if (*cursor) cursor++;
-            else break;
-        }
+        start = (int32_t)match.rm_eo;
     }
 
     /* Remaining text after last match */
-    int32_t remaining = (int32_t)strlen(cursor);
-    GrayString last = gray_string_new(arena, cursor, remaining);
+    GrayString last = slice(arena, text, start, text.len);
     gray_array_push(arena, &arr, &last);
 
     regfree(&re);
-- 
2.43.0


From 4aeb4c099b2588a422c3c7d2a1932fc5ea16e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:57 +0000
Subject: [PATCH 32/56] fix: calls bind named, reference and function-typed
 arguments exactly

---
 grayc/src/codegen/codegen.c         |  16 ++-
 grayc/src/parser/parser.c           |   4 +
 grayc/src/typechecker/typechecker.c | 169 ++++++++++++++++++++--------
 3 files changed, 143 insertions(+), 46 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index bbecfdd..28a8cc6 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1516,8 +1516,20 @@ static int ordered_operands(CodeGen *codegen, AstNode *node, AstNode ***operands
         AstNode *called = find_called_function(codegen, node, &self);
         if (!called && node->data.call.function->kind == NODE_LABEL)
             called = find_referenced_function(codegen, node->data.call.function->data.label.value);
-        for (int i = 0; i < node->data.call.arg_count; i++)
-            if (call_argument_is_value(codegen, node, called, self, i)) list[count++] = node->data.call.args[i];
+        for (int i = 0; i < node->data.call.arg_count; i++) {
+            if (!call_argument_is_value(codegen, node, called, self, i)) continue;
+            /* Named arguments may be written in another order than the
+             * parameters they go to. */
+            AstNode *arg = node->data.call.args[i];
+            int slot = count++;
+            while (slot > 0 && (list[slot - 1]->token.line > arg->token.line ||
+                                (list[slot - 1]->token.line == arg->token.line &&
+                                 list[slot - 1]->token.column > arg->token.column))) {
+                list[slot] = list[slot - 1];
+                slot--;
+            }
+            list[slot] = arg;
+        }
     } else {
         for (int i = 0; i < node->data.interpolated_string.part_count; i++)
             list[count++] = node->data.interpolated_string.parts[i];
diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index c5dc151..69b7ef5 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -1119,6 +1119,10 @@ static AstNode *parse_infix_expression(Parser *parser, AstNode *left) {
 }
 
 static AstNode *parse_call_expression(Parser *parser, AstNode *function) {
+    /* Calling a reference in place, ()f(...), is a call of f. */
+    if (function && function->kind == NODE_FUNC_REF) {
+        function = function->data.func_ref.function;
+    }
     if (parser->cur_token.preceded_by_ws) {
         diagnostic_error_code(parser->diag, "E2073", parser->file, parser->cur_token.line, parser->cur_token.column, 0);
         /* Still parse the argument list so we consume the closing ')'
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index ba77bf0..2b4b4c1 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1545,6 +1545,16 @@ static void typechecker_resolve_named_arguments(TypeChecker *checker, AstNode *n
         if (!new_args[i] && i < param_count && params[i].default_value) {
             new_args[i] = params[i].default_value;
         }
+        if (!new_args[i]) {
+            /* E5008: a required parameter is not given at all */
+            char *msg = NULL;
+            msg = typechecker_format(checker,
+                "missing argument for parameter '%s' in call to '%s'",
+                params[i].name, display_name);
+            diagnostic_error_message(checker->diag, "E5008", msg,
+                NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+            return;
+        }
     }
 
     /* Replace the node's args in-place */
@@ -2289,8 +2299,21 @@ static GrayType *resolve_implicit_enum(TypeChecker *checker, AstNode *node) {
 /* E3027: validate that an argument passed to a mutable (&) parameter is a
  * mutable assignment target. Emits a diagnostic and returns if the argument
  * is a constant variable, an enum constant, or a literal/expression. */
-static void check_mutable_arg(TypeChecker *checker, AstNode *arg,
+static void check_mutable_arg(TypeChecker *checker, AstNode *arg, GrayType *param_type,
                                const char *param_desc, const char *func_display) {
+    /* The parameter shares the argument's storage, so no conversion applies:
+     * numeric types that differ, even only in width, do not match. */
+    GrayType *arg_type = param_type ? resolve_expression(checker, arg) : NULL;
+    if (param_type && arg_type &&
+        type_is_numeric(param_type) && type_is_numeric(arg_type) &&
+        strcmp(type_name(param_type), type_name(arg_type)) != 0) {
+        char *msg = typechecker_format(checker,
+            "%s of '%s': expected %s, got %s", param_desc, func_display,
+            type_display_name(checker, param_type),
+            type_display_name(checker, arg_type));
+        diagnostic_error_message(checker->diag, "E3001", msg,
+            NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+    }
     if (arg->kind == NODE_LABEL) {
         Symbol *sym = scope_lookup(checker->current_scope, arg->data.label.value);
         if (sym && !sym->mutable) {
@@ -2319,6 +2342,66 @@ static void check_mutable_arg(TypeChecker *checker, AstNode *arg,
     }
 }
 
+/* A function type carries no parameter names for an argument to match. */
+static void check_no_named_arguments(TypeChecker *checker, AstNode *node,
+                                     const char *function_name) {
+    if (!typechecker_has_named_arguments(node)) return;
+    char *msg = typechecker_format(checker,
+        "named arguments are not supported in a call through function reference '%s'",
+        function_name);
+    diagnostic_error_message(checker->diag, "E5034", msg,
+        NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+}
+
+/* Validate a call made through a function-typed value, whose type carries
+ * the signature but no parameter names. */
+static void check_func_sig_call(TypeChecker *checker, AstNode *node,
+                                GrayFuncSig *sig, const char *function_name) {
+    int ac = node->data.call.arg_count;
+    if (ac != sig->param_count) {
+        char *msg = NULL;
+        msg = typechecker_format(checker,
+            "function reference '%s' expects %d argument(s), got %d",
+            function_name, sig->param_count, ac);
+        diagnostic_error_message(checker->diag, "E5008", msg,
+            NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+    } else {
+        for (int argument_index = 0; argument_index < sig->param_count; argument_index++) {
+            AstNode *arg = node->data.call.args[argument_index];
+            GrayType *at = resolve_expression(checker, arg);
+            GrayType *pt = sig->param_types[argument_index] ? type_from_name(sig->param_types[argument_index]) : NULL;
+            if (at && pt && at->kind != TK_UNKNOWN && pt->kind != TK_UNKNOWN &&
+                at->kind != pt->kind &&
+                !(is_int_kind(at->kind) && is_int_kind(pt->kind)) &&
+                !(pt->kind == TK_FLOAT && is_int_kind(at->kind))) {
+                char *msg = NULL;
+                msg = typechecker_format(checker,
+                    "argument %d of '%s': expected %s, got %s",
+                    argument_index + 1, function_name,
+                    type_display_name(checker, pt), type_display_name(checker, at));
+                diagnostic_error_message(checker->diag, "E3001", msg,
+                    NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+            }
+            /* E3027: `&` param requires an assignment target */
+            if (sig->param_mutable[argument_index]) {
+                char param_desc[MSG_BUF_SIZE];
+                snprintf(param_desc, sizeof(param_desc), "'&' parameter %d", argument_index + 1);
+                check_mutable_arg(checker, arg,
+                    pt,
+                    param_desc, function_name);
+            }
+        }
+    }
+}
+
+/* True when the argument is the parameter's own default, filled in for a call
+ * that names a later parameter. It was checked with the declaration. */
+static bool is_default_argument(FuncSig *sig, int index, AstNode *arg) {
+    return arg && sig->decl && sig->decl->kind == NODE_FUNC_DECL &&
+        index < sig->decl->data.func_decl.param_count &&
+        sig->decl->data.func_decl.params[index].default_value == arg;
+}
+
 static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const char *mod, const char *mfn) {
     GrayType *result = &TYPE_UNKNOWN;
     /* E5034: named arguments are not supported for stdlib functions */
@@ -3552,6 +3635,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
             int check_count = node->data.call.arg_count < sig->param_count
                 ? node->data.call.arg_count : sig->param_count;
             for (int argument_index = 0; argument_index < check_count; argument_index++) {
+                if (is_default_argument(sig, argument_index, node->data.call.args[argument_index])) continue;
                 GrayType *param_t = sig->param_types[argument_index];
                 /* Set expected_type for implicit enum resolution */
                 GrayType *saved_expected_m = checker->expected_type;
@@ -3638,7 +3722,9 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         char param_desc[MSG_BUF_SIZE];
                         snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                             found_declaration->data.func_decl.params[argument_index].name);
-                        check_mutable_arg(checker, arg, param_desc, fn_display);
+                        check_mutable_arg(checker, arg,
+                            type_from_name(found_declaration->data.func_decl.params[argument_index].type_name),
+                            param_desc, fn_display);
                     }
                 }
             }
@@ -3691,6 +3777,10 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                      * return type from the encoded signature so
                      * downstream uses get a typed value. */
                     sym->used = true;
+                    check_no_named_arguments(checker, node, mfn);
+                    if (field_t->func_sig) {
+                        check_func_sig_call(checker, node, field_t->func_sig, mfn);
+                    }
                     result = (field_t->func_sig &&
                               field_t->func_sig->return_count > 0 &&
                               field_t->func_sig->return_types &&
@@ -3835,6 +3925,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         int check_count = node->data.call.arg_count < ssig->param_count
                             ? node->data.call.arg_count : ssig->param_count;
                         for (int argument_index = 0; argument_index < check_count; argument_index++) {
+                            if (is_default_argument(ssig, argument_index, node->data.call.args[argument_index])) continue;
                             GrayType *param_t = ssig->param_types[argument_index];
                             /* Set expected_type for implicit enum resolution */
                             GrayType *saved_expected_s = checker->expected_type;
@@ -3918,7 +4009,9 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 char param_desc[MSG_BUF_SIZE];
                                 snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                                     ssig->decl->data.func_decl.params[argument_index].name);
-                                check_mutable_arg(checker, arg, param_desc, fn_display);
+                                check_mutable_arg(checker, arg,
+                                    ssig->param_types[argument_index],
+                                    param_desc, fn_display);
                             }
                         }
                     }
@@ -3978,6 +4071,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         int check_count = node->data.call.arg_count < ssig->param_count
                             ? node->data.call.arg_count : ssig->param_count;
                         for (int argument_index = 0; argument_index < check_count; argument_index++) {
+                            if (is_default_argument(ssig, argument_index, node->data.call.args[argument_index])) continue;
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             GrayType *param_t = ssig->param_types[argument_index];
                             if (arg_t && param_t &&
@@ -4015,6 +4109,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                             snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                                 ssig->decl->data.func_decl.params[argument_index].name);
                             check_mutable_arg(checker, node->data.call.args[argument_index],
+                                ssig->param_types[argument_index],
                                 param_desc, fn_display);
                         }
                     }
@@ -4768,6 +4863,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
         int check_count = node->data.call.arg_count < sig->param_count
             ? node->data.call.arg_count : sig->param_count;
         for (int argument_index = 0; argument_index < check_count; argument_index++) {
+            if (is_default_argument(sig, argument_index, node->data.call.args[argument_index])) continue;
             /* Skip type parameters — no value to type-check */
             if (sig->decl && sig->decl->kind == NODE_FUNC_DECL &&
                 argument_index < sig->decl->data.func_decl.param_count &&
@@ -4937,7 +5033,9 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     char param_desc[MSG_BUF_SIZE];
                     snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                         s->data.func_decl.params[argument_index].name);
-                    check_mutable_arg(checker, arg, param_desc, function_name);
+                    check_mutable_arg(checker, arg,
+                        sig->param_types[argument_index],
+                        param_desc, function_name);
                     break;
                 }
             }
@@ -4964,6 +5062,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                 typetable_set(checker->type_table, node->data.call.function, fn_sym->type);
             }
             result = &TYPE_UNKNOWN; /* callable func ref; return type unknown */
+            check_no_named_arguments(checker, node, function_name);
             /* If we know which static function this var holds,
              * validate arity + argument types at compile time
              * and propagate the real return type. */
@@ -5040,7 +5139,9 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                                 char param_desc[MSG_BUF_SIZE];
                                 snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                                     s->data.func_decl.params[argument_index].name);
-                                check_mutable_arg(checker, arg, param_desc, func_display_name(ref_sig));
+                                check_mutable_arg(checker, arg,
+                                    ref_sig->param_types[argument_index],
+                                    param_desc, func_display_name(ref_sig));
                                 break;
                             }
                         }
@@ -5055,39 +5156,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                  * func signature from the variable's annotated type
                  * (e.g. callback parameters: do f(g func(int)->int)). */
                 GrayFuncSig *sig = fn_sym->type->func_sig;
-                int ac = node->data.call.arg_count;
-                if (ac != sig->param_count) {
-                    char *msg = NULL;
-                    msg = typechecker_format(checker,
-                        "function reference '%s' expects %d argument(s), got %d",
-                        function_name, sig->param_count, ac);
-                    diagnostic_error_message(checker->diag, "E5008", msg,
-                        NODE_FILE(checker, node), node->token.line, node->token.column, 0);
-                } else {
-                    for (int argument_index = 0; argument_index < sig->param_count; argument_index++) {
-                        AstNode *arg = node->data.call.args[argument_index];
-                        GrayType *at = resolve_expression(checker, arg);
-                        GrayType *pt = sig->param_types[argument_index] ? type_from_name(sig->param_types[argument_index]) : NULL;
-                        if (at && pt && at->kind != TK_UNKNOWN && pt->kind != TK_UNKNOWN &&
-                            at->kind != pt->kind &&
-                            !(is_int_kind(at->kind) && is_int_kind(pt->kind)) &&
-                            !(pt->kind == TK_FLOAT && is_int_kind(at->kind))) {
-                            char *msg = NULL;
-                            msg = typechecker_format(checker,
-                                "argument %d of '%s': expected %s, got %s",
-                                argument_index + 1, function_name,
-                                type_display_name(checker, pt), type_display_name(checker, at));
-                            diagnostic_error_message(checker->diag, "E3001", msg,
-                                NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
-                        }
-                        /* E3027: `&` param requires an assignment target */
-                        if (sig->param_mutable[argument_index]) {
-                            char param_desc[MSG_BUF_SIZE];
-                            snprintf(param_desc, sizeof(param_desc), "'&' parameter %d", argument_index + 1);
-                            check_mutable_arg(checker, arg, param_desc, function_name);
-                        }
-                    }
-                }
+                check_func_sig_call(checker, node, sig, function_name);
                 if (sig->return_count > 0 && sig->return_types[0]) {
                     result = type_from_name(sig->return_types[0]);
                 } else {
@@ -5405,6 +5474,10 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
             arr_sym->type->element_type &&
             strncmp(arr_sym->type->element_type, "func(", 5) == 0) {
             GrayType *elem_t = type_from_name(arr_sym->type->element_type);
+            check_no_named_arguments(checker, node, arr_name);
+            if (elem_t && elem_t->func_sig) {
+                check_func_sig_call(checker, node, elem_t->func_sig, arr_name);
+            }
             if (elem_t && elem_t->func_sig &&
                 elem_t->func_sig->return_count > 0 &&
                 elem_t->func_sig->return_types[0]) {
@@ -5528,7 +5601,9 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
                     char param_desc[MSG_BUF_SIZE];
                     snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                         found_declaration->data.func_decl.params[argument_index].name);
-                    check_mutable_arg(checker, arg, param_desc, fn_display);
+                    check_mutable_arg(checker, arg,
+                        type_from_name(found_declaration->data.func_decl.params[argument_index].type_name),
+                        param_desc, fn_display);
                 }
             }
         } else {
@@ -6540,6 +6615,14 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
                     fname, struct_display_name(checker, struct_name), type_display_name(checker, expected_t), type_display_name(checker, val_t));
                 diagnostic_error_message(checker->diag, "E3001", msg,
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+            } else if (expected_t && expected_t->kind == TK_FUNCTION &&
+                       val_t->kind == TK_FUNCTION && expected_t->name && val_t->name &&
+                       strcmp(expected_t->name, val_t->name) != 0) {
+                char *msg = typechecker_format(checker,
+                    "field '%s' of struct '%s': expected %s, got %s",
+                    fname, struct_display_name(checker, struct_name), type_display_name(checker, expected_t), type_display_name(checker, val_t));
+                diagnostic_error_message(checker->diag, "E3066", msg,
+                    NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
         }
     }
@@ -6715,8 +6798,7 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
             bool mut_p = (ref_sig->decl && ref_sig->decl->kind == NODE_FUNC_DECL &&
                           i < ref_sig->decl->data.func_decl.param_count &&
                           ref_sig->decl->data.func_decl.params[i].mutable);
-            const char *ptn = (ref_sig->param_types[i] && ref_sig->param_types[i]->name)
-                ? ref_sig->param_types[i]->name : "int";
+            const char *ptn = ref_sig->param_types[i] ? type_name(ref_sig->param_types[i]) : "int";
             int w = snprintf(buffer + n, buffer_size - (size_t)n, "%s%s%s",
                 i ? "," : "", mut_p ? "&" : "", ptn);
             if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
@@ -6732,7 +6814,7 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
             strcmp(ref_sig->return_types[0]->name, "void") != 0 &&
             (size_t)n < buffer_size - 1) {
             int w = snprintf(buffer + n, buffer_size - (size_t)n, "->%s",
-                ref_sig->return_types[0]->name);
+                type_name(ref_sig->return_types[0]));
             if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
             else n = (int)buffer_size - 1;
         } else if (ref_sig->return_count > 1 && (size_t)n < buffer_size - 1) {
@@ -6740,8 +6822,7 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
             if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
             else n = (int)buffer_size - 1;
             for (int i = 0; i < ref_sig->return_count && (size_t)n < buffer_size - 1; i++) {
-                const char *rn = (ref_sig->return_types[i] && ref_sig->return_types[i]->name)
-                    ? ref_sig->return_types[i]->name : "int";
+                const char *rn = ref_sig->return_types[i] ? type_name(ref_sig->return_types[i]) : "int";
                 w = snprintf(buffer + n, buffer_size - (size_t)n, "%s%s",
                     i ? "," : "", rn);
                 if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
-- 
2.43.0


From 8dcfb9d47a9edee65d9a3bc06a7d0b438f667480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:08:13 +0000
Subject: [PATCH 33/56] fix: running a program passes its arguments and exit
 status, and builds use temporary files of their own

---
 cli/commands.go  | 12 ++++-----
 grayc/src/main.c | 68 +++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/cli/commands.go b/cli/commands.go
index 343fd7a..80a6330 100644
--- a/cli/commands.go
+++ b/cli/commands.go
@@ -590,12 +590,7 @@ var rootCmd = &cobra.Command{
 		}
 
 		// Pass extra args through to the compiled program
-		var extraArgs []string
-		if cmd.ArgsLenAtDash() > 0 {
-			extraArgs = args[cmd.ArgsLenAtDash():]
-		} else if len(args) > 1 {
-			extraArgs = args[1:]
-		}
+		extraArgs := args[1:]
 
 		// Prepend compiler flags (before program args)
 		var compilerArgs []string
@@ -608,7 +603,10 @@ var rootCmd = &cobra.Command{
 		if noColor, _ := cmd.Flags().GetBool("no-color"); noColor {
 			compilerArgs = append(compilerArgs, "--no-color")
 		}
-		compilerArgs = append(compilerArgs, extraArgs...)
+		if len(extraArgs) > 0 {
+			compilerArgs = append(compilerArgs, "--")
+			compilerArgs = append(compilerArgs, extraArgs...)
+		}
 
 		code, err := grayc.Run(args[0], compilerArgs)
 		if err != nil {
diff --git a/grayc/src/main.c b/grayc/src/main.c
index 6b89749..e9780e6 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -8,6 +8,8 @@
  * Licensed under the MIT License. See LICENSE for details.
  */
 
+#include <errno.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -127,7 +129,10 @@ static bool write_file(const char *path, const char *content) {
         fclose(f);
         return false;
     }
-    fclose(f);
+    if (fclose(f) != 0) {
+        fprintf(stderr, "gray: failed to write '%s'\n", path);
+        return false;
+    }
     return true;
 }
 
@@ -636,9 +641,20 @@ int main(int argc, char **argv) {
     bool quiet_all = false;
     const char *quiet_codes_arg = NULL;
     const char *opt_level = "-O2";
+    char **program_args = NULL; /* run mode: arguments for the program itself */
+    int program_arg_count = 0;
 
     /* Parse arguments */
     for (int i = 1; i < argc; i++) {
+        /* run: everything after the file's first positional argument, or
+         * after "--", belongs to the program and is not interpreted here. */
+        if (run_mode && input_file &&
+            (argv[i][0] != '-' || strcmp(argv[i], "-") == 0 || strcmp(argv[i], "--") == 0)) {
+            int first = strcmp(argv[i], "--") == 0 ? i + 1 : i;
+            program_args = argv + first;
+            program_arg_count = argc - first;
+            break;
+        }
         if (strcmp(argv[i], "version") == 0 || strcmp(argv[i], "--version") == 0) {
             printf("gray %s\n", GRAY_VERSION);
             return 0;
@@ -1543,10 +1559,22 @@ int main(int argc, char **argv) {
 
     /* Determine output name */
     char *default_output = NULL;
+    /* Temporary files go to a directory of this process's own, so that
+     * builds running at the same time cannot touch each other's. */
+    char temp_dir[] = "/tmp/gray_XXXXXX";
+    if (!emit_c_only && !mkdtemp(temp_dir)) {
+        fprintf(stderr, "gray: cannot create a temporary directory: ");
+        perror("");
+        codegen_destroy(&codegen);
+        typechecker_free(checker);
+        arena_destroy(arena);
+        free(source);
+        return 1;
+    }
     if (run_mode && !output_file) {
         /* Run mode: use temp file */
         default_output = malloc(PATH_BUF_SIZE);
-        snprintf(default_output, PATH_BUF_SIZE, "/tmp/gray_run_%d", (int)getpid());
+        snprintf(default_output, PATH_BUF_SIZE, "%s/gray_run", temp_dir);
         output_file = default_output;
     } else if (!output_file) {
         default_output = output_name_from_input(input_file);
@@ -1557,9 +1585,11 @@ int main(int argc, char **argv) {
     const char *out_base = strrchr(output_file, '/');
     out_base = out_base ? out_base + 1 : output_file;
     char c_file[PATH_BUF_SIZE];
-    snprintf(c_file, sizeof(c_file), "/tmp/gray_%s.c", out_base);
+    snprintf(c_file, sizeof(c_file), "%s/gray_%s.c", temp_dir, out_base);
 
-    if (!write_file(c_file, c_code)) {
+    if (!emit_c_only && !write_file(c_file, c_code)) {
+        unlink(c_file);
+        rmdir(temp_dir);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         arena_destroy(arena);
@@ -1616,6 +1646,8 @@ int main(int argc, char **argv) {
         fprintf(stderr, "  Install gcc or clang to compile Grayscale programs.\n");
         fprintf(stderr, "  On macOS: xcode-select --install\n");
         fprintf(stderr, "  On Ubuntu: sudo apt install gcc\n");
+        unlink(c_file);
+        rmdir(temp_dir);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         arena_destroy(arena);
@@ -1634,6 +1666,8 @@ int main(int argc, char **argv) {
         fprintf(stderr, "    - ./grayc/src/ (project root)\n");
         fprintf(stderr, "    - /usr/local/lib/grayc/\n");
         fprintf(stderr, "  Try: cd <project-root> && make -C grayc install\n");
+        unlink(c_file);
+        rmdir(temp_dir);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         arena_destroy(arena);
@@ -1643,6 +1677,8 @@ int main(int argc, char **argv) {
     }
     if (strchr(runtime_dir, '\'')) {
         fprintf(stderr, "gray: GRAY_RUNTIME path must not contain single quotes\n");
+        unlink(c_file);
+        rmdir(temp_dir);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         arena_destroy(arena);
@@ -1652,6 +1688,8 @@ int main(int argc, char **argv) {
     }
     if (strchr(output_file, '\'')) {
         fprintf(stderr, "gray: output path must not contain single quotes\n");
+        unlink(c_file);
+        rmdir(temp_dir);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         arena_destroy(arena);
@@ -1751,6 +1789,8 @@ int main(int argc, char **argv) {
 
     if (strlen(cmd) >= CMD_BUF_SIZE - 1) {
         fprintf(stderr, "gray: compile command too long (paths may be too deep)\n");
+        unlink(c_file);
+        rmdir(temp_dir);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         diagnostic_destroy(diag);
@@ -1785,6 +1825,7 @@ int main(int argc, char **argv) {
         fprintf(stderr, "gray: generated C source at %s\n", c_file);
     } else {
         unlink(c_file);
+        rmdir(temp_dir); /* in run mode the program is still in it */
 
         double total_ms = (double)(t_cc_end - t_start) / CLOCKS_PER_SEC * 1000.0;
         if (!run_mode) {
@@ -1803,22 +1844,31 @@ int main(int argc, char **argv) {
     /* Run mode: execute the binary and clean up.
      * Use fork+execv instead of system() to avoid shell injection — the
      * output path comes from user-supplied CLI input. */
+    int run_status = 0;
     if (ret == 0 && run_mode) {
         pid_t pid = fork();
         if (pid == 0) {
-            char *args[] = { output_file, NULL };
-            execv(output_file, args);
+            char **args = malloc(sizeof(char *) * ((size_t)program_arg_count + 2));
+            if (args) {
+                args[0] = output_file;
+                if (program_arg_count > 0) memcpy(args + 1, program_args, sizeof(char *) * (size_t)program_arg_count);
+                args[program_arg_count + 1] = NULL;
+                execv(output_file, args);
+            }
             perror("gray: exec");
             _exit(127);
         } else if (pid > 0) {
             int status = 0;
-            waitpid(pid, &status, 0);
-            ret = WIFEXITED(status) ? WEXITSTATUS(status) : 1;
+            while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
+            if (WIFEXITED(status)) run_status = WEXITSTATUS(status);
+            else if (WIFSIGNALED(status)) run_status = 128 + WTERMSIG(status);
+            else run_status = 1;
         } else {
             perror("gray: fork");
             ret = 1;
         }
         unlink(output_file);
+        rmdir(temp_dir);
     }
 
     codegen_destroy(&codegen);
@@ -1828,5 +1878,5 @@ int main(int argc, char **argv) {
     free(source);
     free(default_output);
 
-    return ret != 0 ? 1 : 0;
+    return ret != 0 ? 1 : run_status;
 }
-- 
2.43.0


From 68cbd307225daba416959244bcbcf09e414c7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:08:13 +0000
Subject: [PATCH 34/56] fix: version comparison and self-update accept only
 complete trusted releases

---
 cli/update.go | 132 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 41 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index 1b96df9..5537afb 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -21,6 +21,7 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"path"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -189,11 +190,14 @@ func parseSemver(v string) (major, minor, patch int, pre string) {
 	if i := strings.Index(v, "+"); i != -1 {
 		v = v[:i]
 	}
+	// Drop the git-describe trailer before looking for a pre-release
+	// label: on a stable tag the trailer is all that follows the base.
+	v = gitDescribeRE.ReplaceAllString(v, "")
 	// Split off pre-release suffix
 	base := v
 	if i := strings.Index(v, "-"); i != -1 {
 		base = v[:i]
-		pre = gitDescribeRE.ReplaceAllString(v[i+1:], "")
+		pre = v[i+1:]
 	}
 	parts := strings.Split(base, ".")
 	if len(parts) >= 1 {
@@ -208,6 +212,17 @@ func parseSemver(v string) (major, minor, patch int, pre string) {
 	return
 }
 
+// isNumericIdentifier reports whether a pre-release identifier consists
+// only of digits.
+func isNumericIdentifier(s string) bool {
+	for i := 0; i < len(s); i++ {
+		if s[i] < '0' || s[i] > '9' {
+			return false
+		}
+	}
+	return s != ""
+}
+
 // comparePreIdentifiers compares two dot-separated semver pre-release
 // identifier lists per SemVer 2.0 rule 11.4: numeric identifiers compare
 // numerically, alphanumerics compare ASCII, numeric < alphanumeric, and a
@@ -220,18 +235,22 @@ func comparePreIdentifiers(a, b string) int {
 		n = len(bs)
 	}
 	for i := 0; i < n; i++ {
-		var ai, bi int
-		an, _ := fmt.Sscanf(as[i], "%d", &ai)
-		bn, _ := fmt.Sscanf(bs[i], "%d", &bi)
-		aIsNum := an == 1 && fmt.Sprint(ai) == as[i]
-		bIsNum := bn == 1 && fmt.Sprint(bi) == bs[i]
+		aIsNum := isNumericIdentifier(as[i])
+		bIsNum := isNumericIdentifier(bs[i])
 		if aIsNum && bIsNum {
-			if ai != bi {
-				if ai < bi {
+			// Without leading zeros, the longer number is the larger one
+			// and equally long numbers compare like text.
+			an := strings.TrimLeft(as[i], "0")
+			bn := strings.TrimLeft(bs[i], "0")
+			if len(an) != len(bn) {
+				if len(an) < len(bn) {
 					return -1
 				}
 				return 1
 			}
+			if c := strings.Compare(an, bn); c != 0 {
+				return c
+			}
 			continue
 		}
 		if aIsNum != bIsNum {
@@ -1037,7 +1056,10 @@ func isTrustedUpdateURL(rawURL string) bool {
 	}
 	return u.Scheme == "https" &&
 		u.Host == trustedUpdateHost &&
-		strings.HasPrefix(u.Path, trustedUpdatePathPrefix)
+		u.User == nil &&
+		strings.HasPrefix(u.Path, trustedUpdatePathPrefix) &&
+		// "." and ".." segments could lead out of the prefix again.
+		path.Clean(u.Path) == u.Path
 }
 
 // doInstall performs the actual download and installation
@@ -1047,7 +1069,20 @@ func doInstall(downloadURL, execPath string) error {
 	}
 	url := downloadURL
 	// Download archive to temp file
-	client := &http.Client{Timeout: 5 * time.Minute}
+	client := &http.Client{
+		Timeout: 5 * time.Minute,
+		// GitHub redirects downloads to its storage hosts; never follow one
+		// off https.
+		CheckRedirect: func(req *http.Request, via []*http.Request) error {
+			if req.URL.Scheme != "https" {
+				return fmt.Errorf("refusing redirect to %s", req.URL.Redacted())
+			}
+			if len(via) >= 10 {
+				return fmt.Errorf("stopped after 10 redirects")
+			}
+			return nil
+		},
+	}
 	resp, err := client.Get(url)
 	if err != nil {
 		return fmt.Errorf("failed to download: %w", err)
@@ -1079,7 +1114,9 @@ func doInstall(downloadURL, execPath string) error {
 	}
 
 	n, err := io.Copy(archiveFile, io.LimitReader(resp.Body, maxDownloadBytes+1))
-	archiveFile.Close()
+	if closeErr := archiveFile.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		return fmt.Errorf("failed to download archive: %w", err)
 	}
@@ -1098,35 +1135,39 @@ func doInstall(downloadURL, execPath string) error {
 		return fmt.Errorf("failed to extract archive: %w", err)
 	}
 
-	// Make executable
-	if err := os.Chmod(binaryPath, 0755); err != nil {
+	// Copy the new binary next to the current one (it can't be renamed across
+	// filesystems), so that replacing it is a single rename: until then the
+	// current binary stays in place, whatever happens.
+	newPath := execPath + ".new"
+	if err := copyFile(binaryPath, newPath); err != nil {
+		os.Remove(newPath)
+		return fmt.Errorf("failed to install update: %w", err)
+	}
+	if err := os.Chmod(newPath, 0755); err != nil {
+		os.Remove(newPath)
 		return fmt.Errorf("failed to set permissions: %w", err)
 	}
 
-	// Backup current executable
-	backupPath := execPath + ".backup"
-	if err := os.Rename(execPath, backupPath); err != nil {
-		return fmt.Errorf("failed to backup current binary: %w", err)
+	// A running executable cannot be replaced on Windows, only moved away.
+	backupPath := ""
+	if runtime.GOOS == "windows" {
+		backupPath = execPath + ".backup"
+		if err := os.Rename(execPath, backupPath); err != nil {
+			os.Remove(newPath)
+			return fmt.Errorf("failed to backup current binary: %w", err)
+		}
 	}
-
-	// Copy new binary into place (can't rename across filesystems)
-	if err := copyFile(binaryPath, execPath); err != nil {
-		// Try to restore backup
-		os.Rename(backupPath, execPath)
+	if err := os.Rename(newPath, execPath); err != nil {
+		if backupPath != "" {
+			os.Rename(backupPath, execPath)
+		}
+		os.Remove(newPath)
 		return fmt.Errorf("failed to install update: %w", err)
 	}
-
-	// Make the new binary executable
-	if err := os.Chmod(execPath, 0755); err != nil {
-		// Try to restore backup
-		os.Remove(execPath)
-		os.Rename(backupPath, execPath)
-		return fmt.Errorf("failed to set permissions: %w", err)
+	if backupPath != "" {
+		os.Remove(backupPath)
 	}
 
-	// Remove backup
-	os.Remove(backupPath)
-
 	// Post-#1461: release archives ship a single binary; the compiler and
 	// runtime are embedded inside `gray`. No side-car files to copy. The
 	// archive extractor still whitelists `grayc`/`libgrayrt.a` so older
@@ -1197,7 +1238,7 @@ func extractTarGz(archivePath, destDir string) (string, error) {
 		}
 
 		name := filepath.Base(header.Name)
-		if !wantFiles[name] {
+		if !wantFiles[name] || header.Typeflag != tar.TypeReg {
 			continue
 		}
 
@@ -1214,7 +1255,9 @@ func extractTarGz(archivePath, destDir string) (string, error) {
 			outFile.Close()
 			return "", err
 		}
-		outFile.Close()
+		if err := outFile.Close(); err != nil {
+			return "", err
+		}
 
 		if name == "gray" || name == "gray.exe" {
 			grayBinaryPath = destPath
@@ -1240,7 +1283,7 @@ func extractZip(archivePath, destDir string) (string, error) {
 
 	for _, f := range r.File {
 		name := filepath.Base(f.Name)
-		if !wantFiles[name] {
+		if !wantFiles[name] || !f.Mode().IsRegular() {
 			continue
 		}
 
@@ -1261,7 +1304,9 @@ func extractZip(archivePath, destDir string) (string, error) {
 		}
 
 		_, err = io.Copy(outFile, rc)
-		outFile.Close()
+		if closeErr := outFile.Close(); err == nil {
+			err = closeErr
+		}
 		rc.Close()
 		if err != nil {
 			return "", err
@@ -1278,7 +1323,7 @@ func extractZip(archivePath, destDir string) (string, error) {
 	return grayBinaryPath, nil
 }
 
-// copyFile copies a file from src to dst
+// copyFile copies a file from src to dst and flushes it to disk
 func copyFile(src, dst string) error {
 	in, err := os.Open(src)
 	if err != nil {
@@ -1290,8 +1335,13 @@ func copyFile(src, dst string) error {
 	if err != nil {
 		return err
 	}
-	defer out.Close()
-
-	_, err = io.Copy(out, in)
-	return err
+	if _, err = io.Copy(out, in); err != nil {
+		out.Close()
+		return err
+	}
+	if err = out.Sync(); err != nil {
+		out.Close()
+		return err
+	}
+	return out.Close()
 }
-- 
2.43.0


From ca6bdebea3bb11849bcfc04f6f657148b7b7a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:08:13 +0000
Subject: [PATCH 35/56] fix: the embedded runtime is identified by its content
 and installed atomically

---
 internal/grayc/embedded.go | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/internal/grayc/embedded.go b/internal/grayc/embedded.go
index 33ea4d1..63337e2 100644
--- a/internal/grayc/embedded.go
+++ b/internal/grayc/embedded.go
@@ -13,6 +13,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
@@ -58,6 +59,10 @@ func extractEmbedded() (string, error) {
 		h := sha256.New()
 		h.Write(embeddedGrayc)
 		h.Write(embeddedLibgrayrt)
+		if err := hashSourceTree(h); err != nil {
+			extractErr = err
+			return
+		}
 		tag := hex.EncodeToString(h.Sum(nil))[:16]
 
 		home, err := os.UserHomeDir()
@@ -100,6 +105,21 @@ func extractEmbedded() (string, error) {
 	return extractedGraycPath, extractErr
 }
 
+// hashSourceTree adds the names and contents of the embedded source files.
+func hashSourceTree(w io.Writer) error {
+	return fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
+		if err != nil || d.IsDir() {
+			return err
+		}
+		data, err := embeddedSrc.ReadFile(path)
+		if err != nil {
+			return fmt.Errorf("read embedded %s: %w", path, err)
+		}
+		_, err = fmt.Fprintf(w, "%s\x00%d\x00%s", path, len(data), data)
+		return err
+	})
+}
+
 // extractSourceTree walks the embedded src/ tree and writes each file
 // into dir/src/{runtime,stdlib}/. Skips files that already exist with
 // the correct size (same logic as writeIfMissing).
@@ -133,8 +153,25 @@ func writeIfMissing(path string, data []byte, mode fs.FileMode) error {
 	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) {
 		return nil
 	}
-	tmp := path + ".tmp"
-	if err := os.WriteFile(tmp, data, mode); err != nil {
+	// Another process may be extracting at the same time: each writes a
+	// temporary file of its own and renames it into place once complete.
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp*")
+	if err != nil {
+		return fmt.Errorf("write %s: %w", path, err)
+	}
+	tmp := f.Name()
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(mode)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
 		return fmt.Errorf("write %s: %w", path, err)
 	}
 	if err := os.Rename(tmp, path); err != nil {
-- 
2.43.0


From 3dfa67e593bd3bf3aea285fda150cfc07164a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:08:13 +0000
Subject: [PATCH 36/56] fix: watch follows replaced files and transitive
 imports

---
 cli/watch.go | 163 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 114 insertions(+), 49 deletions(-)

diff --git a/cli/watch.go b/cli/watch.go
index 3d4783f..81225c8 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -65,15 +65,40 @@ func runWatch(cmd *cobra.Command, args []string) error {
 	return watchFile(absTarget, compilerArgs)
 }
 
+// addWatches watches the directories that contain the given files. A file
+// that is replaced (editors write a new one and rename it into place) or that
+// appears later is reported by its directory, not by a watch on the file.
+func addWatches(watcher *fsnotify.Watcher, files []string) {
+	seen := map[string]struct{}{}
+	for _, f := range files {
+		dir := f
+		if strings.HasSuffix(f, ".gray") {
+			dir = filepath.Dir(f)
+		}
+		if _, ok := seen[dir]; ok {
+			continue
+		}
+		seen[dir] = struct{}{}
+		if err := watcher.Add(dir); err != nil {
+			fmt.Printf("Error watching %s: %v\n", dir, err)
+		}
+	}
+}
+
+// isSourceChange reports whether a filesystem event can change the program.
+func isSourceChange(event fsnotify.Event) bool {
+	return event.Op&(fsnotify.Write|fsnotify.Create|fsnotify.Remove|fsnotify.Rename) != 0 &&
+		strings.HasSuffix(event.Name, ".gray")
+}
+
 // watchLoop runs the debounced event loop shared by file and directory watch modes.
-// filterEvent decides whether a filesystem event should trigger a rebuild.
 // refreshFiles returns the current set of files to watch (called on each rebuild).
 func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string,
-	filterEvent func(fsnotify.Event) bool, refreshFiles func() []string) {
+	refreshFiles func() []string) {
 
 	executeFile(mainFile, compilerArgs)
 
-	var mu sync.Mutex
+	var running sync.Mutex
 	var timer *time.Timer
 	debounceInterval := 100 * time.Millisecond
 
@@ -83,20 +108,18 @@ func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string
 			if !ok {
 				return
 			}
-			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 || !filterEvent(event) {
+			if !isSourceChange(event) {
 				continue
 			}
-			mu.Lock()
 			if timer != nil {
 				timer.Stop()
 			}
 			timer = time.AfterFunc(debounceInterval, func() {
-				for _, f := range refreshFiles() {
-					watcher.Add(f)
-				}
+				running.Lock()
+				defer running.Unlock()
+				addWatches(watcher, refreshFiles())
 				executeFile(mainFile, compilerArgs)
 			})
-			mu.Unlock()
 		case err, ok := <-watcher.Errors:
 			if !ok {
 				return
@@ -115,11 +138,7 @@ func watchFile(file string, compilerArgs []string) error {
 	defer watcher.Close()
 
 	filesToWatch := collectFilesToWatch(file)
-	for _, f := range filesToWatch {
-		if err := watcher.Add(f); err != nil {
-			fmt.Printf("Error watching %s: %v\n", f, err)
-		}
-	}
+	addWatches(watcher, filesToWatch)
 
 	if importCount := len(filesToWatch) - 1; importCount > 0 {
 		fmt.Printf("Watching %s (+ %d imports)\n", shortPath(file), importCount)
@@ -130,7 +149,6 @@ func watchFile(file string, compilerArgs []string) error {
 	fmt.Println()
 
 	watchLoop(watcher, file, compilerArgs,
-		func(_ fsnotify.Event) bool { return true },
 		func() []string { return collectFilesToWatch(file) })
 	return nil
 }
@@ -149,61 +167,75 @@ func watchDirectory(dirPath string, compilerArgs []string) error {
 	defer watcher.Close()
 
 	filesToWatch := collectGrayFilesInDir(dirPath)
-	for _, f := range filesToWatch {
-		if err := watcher.Add(f); err != nil {
-			fmt.Printf("Error watching %s: %v\n", f, err)
-		}
+	refresh := func() []string {
+		files := append(collectDirs(dirPath), collectGrayFilesInDir(dirPath)...)
+		return append(files, collectFilesToWatch(mainFile)...)
 	}
+	addWatches(watcher, refresh())
 
 	fmt.Printf("Watching %s (%d files, entry: %s)\n", shortPath(dirPath), len(filesToWatch), shortPath(mainFile))
 	fmt.Println("Press Ctrl+C to stop")
 	fmt.Println()
 
-	watchLoop(watcher, mainFile, compilerArgs,
-		func(e fsnotify.Event) bool { return strings.HasSuffix(e.Name, ".gray") },
-		func() []string { return collectGrayFilesInDir(dirPath) })
+	watchLoop(watcher, mainFile, compilerArgs, refresh)
 	return nil
 }
 
-// collectFilesToWatch returns the main file plus imported file paths via text scan.
+// collectFilesToWatch returns the main file plus the files it imports,
+// directly or through other imports, via text scan.
 // No parser needed — just scans for import lines.
 func collectFilesToWatch(mainFile string) []string {
 	files := []string{mainFile}
-	dir := filepath.Dir(mainFile)
 	seen := map[string]struct{}{mainFile: {}}
-
-	imports := scanImports(mainFile)
-	for _, imp := range imports {
-		// Skip stdlib imports (@std, @math, etc.)
-		if strings.HasPrefix(imp, "@") {
-			continue
+	add := func(f string) {
+		if _, ok := seen[f]; ok {
+			return
 		}
-		// Resolve relative to the main file's directory
-		resolved := filepath.Join(dir, imp)
-		if !strings.HasSuffix(resolved, ".gray") {
+		if info, err := os.Stat(f); err != nil || info.IsDir() {
+			return
+		}
+		files = append(files, f)
+		seen[f] = struct{}{}
+	}
+
+	// files grows while imports are discovered
+	for i := 0; i < len(files); i++ {
+		dir := filepath.Dir(files[i])
+		for _, imp := range scanImports(files[i]) {
+			// Skip stdlib imports (@math, etc.)
+			if strings.HasPrefix(imp, "@") {
+				continue
+			}
+			// Resolve relative to the importing file's directory
+			resolved := filepath.Join(dir, imp)
+			if strings.HasSuffix(resolved, ".gray") {
+				add(resolved)
+				continue
+			}
+			add(resolved + ".gray")
 			// Could be a directory module
 			if info, err := os.Stat(resolved); err == nil && info.IsDir() {
-				dirFiles := collectGrayFilesInDir(resolved)
-				for _, f := range dirFiles {
-					if _, ok := seen[f]; !ok {
-						files = append(files, f)
-						seen[f] = struct{}{}
-					}
+				for _, f := range collectGrayFilesInDir(resolved) {
+					add(f)
 				}
-				continue
-			}
-			resolved += ".gray"
-		}
-		if _, ok := seen[resolved]; !ok {
-			if _, err := os.Stat(resolved); err == nil {
-				files = append(files, resolved)
-				seen[resolved] = struct{}{}
 			}
 		}
 	}
 	return files
 }
 
+// collectDirs returns dir and all directories below it.
+func collectDirs(dir string) []string {
+	var dirs []string
+	filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err == nil && info.IsDir() {
+			dirs = append(dirs, path)
+		}
+		return nil
+	})
+	return dirs
+}
+
 // scanImports does a simple text scan for import statements in a Grayscale file.
 // Returns the import paths (e.g., "@std", "./mymodule", "utils").
 func scanImports(filePath string) []string {
@@ -226,8 +258,9 @@ func scanImports(filePath string) []string {
 		if idx := strings.Index(rest, " using "); idx >= 0 {
 			rest = rest[:idx]
 		}
-		for _, part := range strings.Split(rest, ",") {
-			part = strings.TrimSpace(part)
+		// import and use @math, "./mymodule"
+		rest = strings.TrimPrefix(strings.TrimSpace(rest), "and use ")
+		for _, part := range splitImports(rest) {
 			if part != "" {
 				imports = append(imports, part)
 			}
@@ -236,6 +269,38 @@ func scanImports(filePath string) []string {
 	return imports
 }
 
+// splitImports splits an import list at its commas and reduces each item to
+// its path: alias "./path" and a trailing comment are dropped.
+func splitImports(list string) []string {
+	var paths []string
+	for list != "" {
+		var path string
+		q := strings.IndexByte(list, '"')
+		if c := strings.IndexByte(list, ','); q >= 0 && (c < 0 || q < c) {
+			end := strings.IndexByte(list[q+1:], '"')
+			if end < 0 {
+				break
+			}
+			path, list = list[q+1:q+1+end], list[q+2+end:]
+			if c := strings.IndexByte(list, ','); c >= 0 {
+				list = list[c+1:]
+			} else {
+				list = ""
+			}
+		} else {
+			path, list, _ = strings.Cut(list, ",")
+			path, _, _ = strings.Cut(path, "//")
+			if fields := strings.Fields(path); len(fields) > 0 {
+				path = fields[len(fields)-1]
+			} else {
+				path = ""
+			}
+		}
+		paths = append(paths, path)
+	}
+	return paths
+}
+
 // collectGrayFilesInDir recursively collects all .gray files in a directory
 func collectGrayFilesInDir(dir string) []string {
 	var files []string
-- 
2.43.0


From fb5f02d22d7dbeebbc3909b135dd67939b43ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:14 +0000
Subject: [PATCH 37/56] fix: cached runtime files are trusted by content, not
 by size

---
 internal/grayc/embedded.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/grayc/embedded.go b/internal/grayc/embedded.go
index 63337e2..9c146bc 100644
--- a/internal/grayc/embedded.go
+++ b/internal/grayc/embedded.go
@@ -8,6 +8,7 @@
 package grayc
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"embed"
 	"encoding/hex"
@@ -122,7 +123,7 @@ func hashSourceTree(w io.Writer) error {
 
 // extractSourceTree walks the embedded src/ tree and writes each file
 // into dir/src/{runtime,stdlib}/. Skips files that already exist with
-// the correct size (same logic as writeIfMissing).
+// the correct content (same logic as writeIfMissing).
 func extractSourceTree(dir string) error {
 	return fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
@@ -145,13 +146,13 @@ func extractSourceTree(dir string) error {
 	})
 }
 
-// writeIfMissing writes data to path with the given mode unless a file of
-// the same size already exists there. The content-hash tag in the parent
-// directory already guarantees uniqueness per build, so a size check is
-// sufficient to detect a successful prior extraction.
+// writeIfMissing writes data to path with the given mode unless a file with
+// the same content already exists there.
 func writeIfMissing(path string, data []byte, mode fs.FileMode) error {
-	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) {
-		return nil
+	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) && st.Mode().Perm()&mode&0o111 == mode&0o111 {
+		if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, data) {
+			return nil
+		}
 	}
 	// Another process may be extracting at the same time: each writes a
 	// temporary file of its own and renames it into place once complete.
-- 
2.43.0


From fc73aabf3b5147c81b63bcf7f1d681cb2b035f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:21:00 +0000
Subject: [PATCH 38/56] fix: update checks the archive's checksum to the end

---
 cli/update.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/update.go b/cli/update.go
index 5537afb..72c61dc 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -1264,6 +1264,11 @@ func extractTarGz(archivePath, destDir string) (string, error) {
 		}
 	}
 
+	// The archive's checksum follows the end of the tar data.
+	if _, err := io.Copy(io.Discard, gzr); err != nil {
+		return "", err
+	}
+
 	if grayBinaryPath == "" {
 		return "", fmt.Errorf("gray binary not found in archive")
 	}
-- 
2.43.0


From fde8a004e4df283eeced6cb8e321b0646f4640c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:48 +0000
Subject: [PATCH 39/56] fix: commands report their errors and fail when they
 cannot do their work

---
 cli/commands.go | 17 +++++++++++++++--
 cli/doc.go      | 28 +++++++++++++++++++++-------
 cli/fmt.go      | 47 ++++++++++++++++++++++++++++++++++++++---------
 cli/main.go     |  1 +
 cli/new.go      | 20 ++++++++++++++++----
 5 files changed, 91 insertions(+), 22 deletions(-)

diff --git a/cli/commands.go b/cli/commands.go
index 80a6330..b2c9697 100644
--- a/cli/commands.go
+++ b/cli/commands.go
@@ -37,6 +37,15 @@ var checkCmd = &cobra.Command{
 		if !isDir && !strings.HasSuffix(args[0], ".gray") {
 			return fmt.Errorf("error: '%s' is not a valid Grayscale source file — expected a .gray file", args[0])
 		}
+		file := args[0]
+		if isDir {
+			// A project is its entry file and everything that imports.
+			mainFile, err := findMainFile(args[0])
+			if err != nil {
+				return fmt.Errorf("error: %v", err)
+			}
+			file = mainFile
+		}
 		var extraArgs []string
 		quiet, _ := cmd.Flags().GetString("quiet")
 		if quiet == "all" {
@@ -44,7 +53,7 @@ var checkCmd = &cobra.Command{
 		} else if quiet != "" {
 			extraArgs = append(extraArgs, "--quiet", quiet)
 		}
-		code, err := grayc.Check(args[0], extraArgs)
+		code, err := grayc.Check(file, extraArgs)
 		if err != nil {
 			return fmt.Errorf("error: %v", err)
 		}
@@ -150,9 +159,13 @@ Examples:
 Output is written to DOCS.md by default. Use -o/--output to write
 to a different path (parent directories are created as needed).`,
 	Args: cobra.MinimumNArgs(1),
-	Run: func(cmd *cobra.Command, args []string) {
+	RunE: func(cmd *cobra.Command, args []string) error {
 		output, _ := cmd.Flags().GetString("output")
 		generateDocs(args, output)
+		if docFailed {
+			return &ExitError{1}
+		}
+		return nil
 	},
 }
 
diff --git a/cli/doc.go b/cli/doc.go
index 6721371..9565555 100644
--- a/cli/doc.go
+++ b/cli/doc.go
@@ -75,19 +75,28 @@ func generateDocs(args []string, outputPath string) {
 	// nested path like docs/API.md.
 	if dir := filepath.Dir(outputPath); dir != "" && dir != "." {
 		if err := os.MkdirAll(dir, 0o755); err != nil {
-			fmt.Printf("Error creating output directory %s: %v\n", dir, err)
+			docError("Error creating output directory %s: %v\n", dir, err)
 			return
 		}
 	}
 
 	if err := os.WriteFile(outputPath, []byte(output), 0644); err != nil {
-		fmt.Printf("Error writing %s: %v\n", outputPath, err)
+		docError("Error writing %s: %v\n", outputPath, err)
 		return
 	}
 
 	fmt.Printf("Generated %s with %d documented item(s)\n", outputPath, len(entries))
 }
 
+// docFailed is set when a source could not be read or the output not written.
+var docFailed bool
+
+// docError reports a failure and makes the command fail.
+func docError(format string, args ...any) {
+	fmt.Fprintf(os.Stderr, format, args...)
+	docFailed = true
+}
+
 // collectDocsFromFile extracts documented items from a single .gray file using text scanning.
 // Looks for #doc("description") followed by do/const struct/const enum declarations.
 func collectDocsFromFile(filename string) []DocEntry {
@@ -95,18 +104,19 @@ func collectDocsFromFile(filename string) []DocEntry {
 
 	absPath, err := filepath.Abs(filename)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", filename, err)
+		docError("Error resolving path %s: %v\n", filename, err)
 		return entries
 	}
 
 	f, err := os.Open(absPath)
 	if err != nil {
-		fmt.Printf("Error reading file %s: %v\n", filename, err)
+		docError("Error reading file %s: %v\n", filename, err)
 		return entries
 	}
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, 1<<30)
 	var pendingDoc string
 	var inBlock bool
 	var blockLines []string
@@ -205,6 +215,9 @@ func collectDocsFromFile(filename string) []DocEntry {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		docError("Error reading file %s: %v\n", filename, err)
+	}
 	return entries
 }
 
@@ -250,12 +263,12 @@ func collectDocsFromDir(dir string) []DocEntry {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
+		docError("Error resolving path %s: %v\n", dir, err)
 		return entries
 	}
 	files, err := os.ReadDir(absDir)
 	if err != nil {
-		fmt.Printf("Error reading directory %s: %v\n", dir, err)
+		docError("Error reading directory %s: %v\n", dir, err)
 		return entries
 	}
 	for _, file := range files {
@@ -270,11 +283,12 @@ func collectDocsRecursive(dir string) []DocEntry {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
+		docError("Error resolving path %s: %v\n", dir, err)
 		return entries
 	}
 	filepath.Walk(absDir, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
+			docError("Error reading %s: %v\n", path, err)
 			return nil
 		}
 		if !info.IsDir() && strings.HasSuffix(path, ".gray") {
diff --git a/cli/fmt.go b/cli/fmt.go
index 80acda9..e3b7c91 100644
--- a/cli/fmt.go
+++ b/cli/fmt.go
@@ -77,16 +77,24 @@ func formatGraySource(src []byte) []byte {
 //   - "dir/subdir"        — all .gray files directly inside dir/subdir
 //   - "./..." or "dir/..." — recursive walk for .gray files
 func collectFmtFiles(args []string) []string {
+	files, _ := findFmtFiles(args)
+	return files
+}
+
+// findFmtFiles is collectFmtFiles that also reports whether every argument
+// could be resolved.
+func findFmtFiles(args []string) (files []string, ok bool) {
 	seen := make(map[string]struct{})
-	var files []string
+	ok = true
 
 	add := func(p string) {
 		ap, err := filepath.Abs(p)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "gray fmt: cannot resolve %s: %v\n", p, err)
+			ok = false
 			return
 		}
-		if _, ok := seen[ap]; ok {
+		if _, dup := seen[ap]; dup {
 			return
 		}
 		seen[ap] = struct{}{}
@@ -101,6 +109,8 @@ func collectFmtFiles(args []string) []string {
 			}
 			filepath.Walk(baseDir, func(p string, info os.FileInfo, err error) error {
 				if err != nil {
+					fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+					ok = false
 					return nil
 				}
 				if !info.IsDir() && strings.HasSuffix(p, ".gray") {
@@ -114,6 +124,7 @@ func collectFmtFiles(args []string) []string {
 		info, err := os.Stat(arg)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+			ok = false
 			continue
 		}
 
@@ -121,6 +132,7 @@ func collectFmtFiles(args []string) []string {
 			entries, err := os.ReadDir(arg)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+				ok = false
 				continue
 			}
 			for _, e := range entries {
@@ -132,21 +144,25 @@ func collectFmtFiles(args []string) []string {
 			add(arg)
 		} else {
 			fmt.Fprintf(os.Stderr, "gray fmt: '%s' is not a .gray file or directory\n", arg)
+			ok = false
 		}
 	}
-	return files
+	return files, ok
 }
 
 // runFmt is the entry point invoked by the Cobra fmtCmd. It returns the
 // exit code the caller should propagate (0 success, 1 on error).
 func runFmt(args []string, checkMode bool) int {
-	files := collectFmtFiles(args)
+	files, ok := findFmtFiles(args)
+	exit := 0
+	if !ok {
+		exit = 1
+	}
 	if len(files) == 0 {
 		fmt.Println("gray fmt: no .gray files found")
-		return 0
+		return exit
 	}
 
-	exit := 0
 	changed := 0
 
 	for _, path := range files {
@@ -166,10 +182,23 @@ func runFmt(args []string, checkMode bool) int {
 				continue
 			}
 			tmpName := tmp.Name()
-			tmp.Write(orig)
-			tmp.Close()
+			_, err = tmp.Write(orig)
+			if closeErr := tmp.Close(); err == nil {
+				err = closeErr
+			}
+			if err != nil {
+				os.Remove(tmpName)
+				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+				exit = 1
+				continue
+			}
 
-			grayc.Fmt(tmpName)
+			if code, err := grayc.Fmt(tmpName); err != nil || code != 0 {
+				os.Remove(tmpName)
+				fmt.Fprintf(os.Stderr, "gray fmt: failed to format '%s'\n", path)
+				exit = 1
+				continue
+			}
 
 			formatted, err := os.ReadFile(tmpName)
 			os.Remove(tmpName)
diff --git a/cli/main.go b/cli/main.go
index f4c2495..84012fb 100644
--- a/cli/main.go
+++ b/cli/main.go
@@ -38,6 +38,7 @@ func main() {
 		if errors.As(err, &exitErr) {
 			os.Exit(exitErr.Code)
 		}
+		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
 	}
 }
diff --git a/cli/new.go b/cli/new.go
index 75d1fc8..6f86636 100644
--- a/cli/new.go
+++ b/cli/new.go
@@ -156,10 +156,23 @@ func isValidProjectName(name string) bool {
 	return cleaned == name && cleaned != "." && cleaned != ".."
 }
 
+// stdinReader returns the one buffered reader of standard input: answers
+// that arrive together must not be lost between two prompts.
+func stdinReader() *bufio.Reader {
+	if stdinSource != os.Stdin {
+		stdinSource, stdinBuffer = os.Stdin, bufio.NewReader(os.Stdin)
+	}
+	return stdinBuffer
+}
+
+var (
+	stdinSource *os.File
+	stdinBuffer *bufio.Reader
+)
+
 func promptForInput(prompt, defaultVal string) string {
 	fmt.Print(prompt)
-	reader := bufio.NewReader(os.Stdin)
-	input, _ := reader.ReadString('\n')
+	input, _ := stdinReader().ReadString('\n')
 	input = strings.TrimSpace(input)
 	if input == "" {
 		return defaultVal
@@ -174,8 +187,7 @@ func createProject(name, template string, comments, force bool, serverType strin
 		}
 		fmt.Printf("Directory '%s' already exists and will be permanently deleted.\n", name)
 		fmt.Printf("Delete '%s/' and continue? (y/N): ", name)
-		reader := bufio.NewReader(os.Stdin)
-		response, _ := reader.ReadString('\n')
+		response, _ := stdinReader().ReadString('\n')
 		response = strings.TrimSpace(strings.ToLower(response))
 		if response != "y" && response != "yes" {
 			fmt.Println("Cancelled.")
-- 
2.43.0


From e7f7c0b712b19a20bf3ee92d11bad06883971a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:57 +0000
Subject: [PATCH 40/56] fix: watch finds imports wherever they are written and
 files that appear later

---
 cli/watch.go | 240 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 171 insertions(+), 69 deletions(-)

diff --git a/cli/watch.go b/cli/watch.go
index 81225c8..4f81049 100644
--- a/cli/watch.go
+++ b/cli/watch.go
@@ -15,6 +15,7 @@ import (
 	"path/filepath"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -67,28 +68,59 @@ func runWatch(cmd *cobra.Command, args []string) error {
 
 // addWatches watches the directories that contain the given files. A file
 // that is replaced (editors write a new one and rename it into place) or that
-// appears later is reported by its directory, not by a watch on the file.
+// appears later is reported by its directory, not by a watch on the file. For
+// a directory that does not exist (yet) its closest parent is watched.
 func addWatches(watcher *fsnotify.Watcher, files []string) {
 	seen := map[string]struct{}{}
 	for _, f := range files {
-		dir := f
+		wanted := f
 		if strings.HasSuffix(f, ".gray") {
-			dir = filepath.Dir(f)
+			wanted = filepath.Dir(f)
 		}
-		if _, ok := seen[dir]; ok {
-			continue
+		for {
+			dir := closestDir(wanted)
+			if _, ok := seen[dir]; ok {
+				break
+			}
+			seen[dir] = struct{}{}
+			if err := watcher.Add(dir); err != nil {
+				fmt.Printf("Error watching %s: %v\n", dir, err)
+			}
+			// The next directory may have been created just before the watch.
+			if closestDir(wanted) == dir {
+				break
+			}
 		}
-		seen[dir] = struct{}{}
-		if err := watcher.Add(dir); err != nil {
-			fmt.Printf("Error watching %s: %v\n", dir, err)
+	}
+}
+
+// closestDir returns dir or, while that is not a directory, its parent.
+func closestDir(dir string) string {
+	for {
+		parent := filepath.Dir(dir)
+		if info, err := os.Stat(dir); (err == nil && info.IsDir()) || parent == dir {
+			return dir
 		}
+		dir = parent
 	}
 }
 
-// isSourceChange reports whether a filesystem event can change the program.
-func isSourceChange(event fsnotify.Event) bool {
-	return event.Op&(fsnotify.Write|fsnotify.Create|fsnotify.Remove|fsnotify.Rename) != 0 &&
-		strings.HasSuffix(event.Name, ".gray")
+// isSourceChange reports whether a filesystem event can change the program
+// made of the given files.
+func isSourceChange(event fsnotify.Event, files []string) bool {
+	if event.Op&(fsnotify.Write|fsnotify.Create|fsnotify.Remove|fsnotify.Rename) == 0 {
+		return false
+	}
+	if strings.HasSuffix(event.Name, ".gray") {
+		return true
+	}
+	// a directory on the way to one of the files
+	for _, f := range files {
+		if strings.HasPrefix(f, event.Name+string(filepath.Separator)) {
+			return true
+		}
+	}
+	return false
 }
 
 // watchLoop runs the debounced event loop shared by file and directory watch modes.
@@ -99,6 +131,8 @@ func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string
 	executeFile(mainFile, compilerArgs)
 
 	var running sync.Mutex
+	var current atomic.Value // the files watched last, []string
+	current.Store(refreshFiles())
 	var timer *time.Timer
 	debounceInterval := 100 * time.Millisecond
 
@@ -108,7 +142,7 @@ func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string
 			if !ok {
 				return
 			}
-			if !isSourceChange(event) {
+			if !isSourceChange(event, current.Load().([]string)) {
 				continue
 			}
 			if timer != nil {
@@ -117,7 +151,9 @@ func watchLoop(watcher *fsnotify.Watcher, mainFile string, compilerArgs []string
 			timer = time.AfterFunc(debounceInterval, func() {
 				running.Lock()
 				defer running.Unlock()
-				addWatches(watcher, refreshFiles())
+				files := refreshFiles()
+				current.Store(files)
+				addWatches(watcher, files)
 				executeFile(mainFile, compilerArgs)
 			})
 		case err, ok := <-watcher.Errors:
@@ -138,7 +174,7 @@ func watchFile(file string, compilerArgs []string) error {
 	defer watcher.Close()
 
 	filesToWatch := collectFilesToWatch(file)
-	addWatches(watcher, filesToWatch)
+	addWatches(watcher, watchList(file))
 
 	if importCount := len(filesToWatch) - 1; importCount > 0 {
 		fmt.Printf("Watching %s (+ %d imports)\n", shortPath(file), importCount)
@@ -149,7 +185,7 @@ func watchFile(file string, compilerArgs []string) error {
 	fmt.Println()
 
 	watchLoop(watcher, file, compilerArgs,
-		func() []string { return collectFilesToWatch(file) })
+		func() []string { return watchList(file) })
 	return nil
 }
 
@@ -169,7 +205,7 @@ func watchDirectory(dirPath string, compilerArgs []string) error {
 	filesToWatch := collectGrayFilesInDir(dirPath)
 	refresh := func() []string {
 		files := append(collectDirs(dirPath), collectGrayFilesInDir(dirPath)...)
-		return append(files, collectFilesToWatch(mainFile)...)
+		return append(files, watchList(mainFile)...)
 	}
 	addWatches(watcher, refresh())
 
@@ -183,19 +219,32 @@ func watchDirectory(dirPath string, compilerArgs []string) error {
 
 // collectFilesToWatch returns the main file plus the files it imports,
 // directly or through other imports, via text scan.
-// No parser needed — just scans for import lines.
+// No parser needed — just scans for import statements.
 func collectFilesToWatch(mainFile string) []string {
-	files := []string{mainFile}
+	files, _ := findDependencies(mainFile)
+	return files
+}
+
+// watchList returns the files of collectFilesToWatch plus the paths of
+// imported files that do not exist yet.
+func watchList(mainFile string) []string {
+	files, missing := findDependencies(mainFile)
+	return append(files, missing...)
+}
+
+func findDependencies(mainFile string) (files, missing []string) {
+	files = []string{mainFile}
 	seen := map[string]struct{}{mainFile: {}}
-	add := func(f string) {
+	add := func(f string) bool {
 		if _, ok := seen[f]; ok {
-			return
+			return true
 		}
 		if info, err := os.Stat(f); err != nil || info.IsDir() {
-			return
+			return false
 		}
 		files = append(files, f)
 		seen[f] = struct{}{}
+		return true
 	}
 
 	// files grows while imports are discovered
@@ -209,19 +258,26 @@ func collectFilesToWatch(mainFile string) []string {
 			// Resolve relative to the importing file's directory
 			resolved := filepath.Join(dir, imp)
 			if strings.HasSuffix(resolved, ".gray") {
-				add(resolved)
+				if !add(resolved) {
+					missing = append(missing, resolved)
+				}
 				continue
 			}
-			add(resolved + ".gray")
+			found := add(resolved + ".gray")
 			// Could be a directory module
 			if info, err := os.Stat(resolved); err == nil && info.IsDir() {
 				for _, f := range collectGrayFilesInDir(resolved) {
 					add(f)
+					found = true
 				}
 			}
+			if !found {
+				// either a file or a directory may appear
+				missing = append(missing, resolved+".gray", filepath.Join(resolved, "x.gray"))
+			}
 		}
 	}
-	return files
+	return files, missing
 }
 
 // collectDirs returns dir and all directories below it.
@@ -239,66 +295,111 @@ func collectDirs(dir string) []string {
 // scanImports does a simple text scan for import statements in a Grayscale file.
 // Returns the import paths (e.g., "@std", "./mymodule", "utils").
 func scanImports(filePath string) []string {
-	f, err := os.Open(filePath)
+	data, err := os.ReadFile(filePath)
 	if err != nil {
 		return nil
 	}
-	defer f.Close()
 
 	var imports []string
-	scanner := bufio.NewScanner(f)
-	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
-		if !strings.HasPrefix(line, "import ") {
-			continue
-		}
-		// import @math, ./mymodule
-		rest := strings.TrimPrefix(line, "import ")
-		// Strip "using ..." suffix
-		if idx := strings.Index(rest, " using "); idx >= 0 {
-			rest = rest[:idx]
-		}
-		// import and use @math, "./mymodule"
-		rest = strings.TrimPrefix(strings.TrimSpace(rest), "and use ")
-		for _, part := range splitImports(rest) {
-			if part != "" {
-				imports = append(imports, part)
-			}
+	sc := importScanner{src: string(data)}
+	for {
+		switch tok := sc.next(); tok {
+		case "":
+			return imports
+		case "import":
+			imports = append(imports, sc.importList()...)
 		}
 	}
-	return imports
 }
 
-// splitImports splits an import list at its commas and reduces each item to
-// its path: alias "./path" and a trailing comment are dropped.
-func splitImports(list string) []string {
-	var paths []string
-	for list != "" {
-		var path string
-		q := strings.IndexByte(list, '"')
-		if c := strings.IndexByte(list, ','); q >= 0 && (c < 0 || q < c) {
-			end := strings.IndexByte(list[q+1:], '"')
-			if end < 0 {
-				break
+// importScanner splits source text into just enough tokens to find imports:
+// words (which may contain the characters of a path), quoted strings, which
+// keep their opening quote, and single characters.
+type importScanner struct {
+	src string
+	pos int
+}
+
+func isWordByte(c byte) bool {
+	return c == '_' || c == '.' || c == '/' || c == '-' || c == '@' || c >= 0x80 ||
+		('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
+}
+
+// next returns the next token, or "" at the end of the text.
+func (sc *importScanner) next() string {
+	for sc.pos < len(sc.src) {
+		rest := sc.src[sc.pos:]
+		switch c := rest[0]; {
+		case strings.HasPrefix(rest, "//"):
+			if n := strings.IndexByte(rest, '\n'); n >= 0 {
+				sc.pos += n
+			} else {
+				sc.pos = len(sc.src)
 			}
-			path, list = list[q+1:q+1+end], list[q+2+end:]
-			if c := strings.IndexByte(list, ','); c >= 0 {
-				list = list[c+1:]
+		case strings.HasPrefix(rest, "/*"):
+			if n := strings.Index(rest[2:], "*/"); n >= 0 {
+				sc.pos += n + 4
 			} else {
-				list = ""
+				sc.pos = len(sc.src)
+			}
+		case c == '"':
+			n := 1
+			for n < len(rest) && rest[n] != '"' && rest[n] != '\n' {
+				if rest[n] == '\\' {
+					n++
+				}
+				n++
+			}
+			n = min(n, len(rest))
+			sc.pos += min(n+1, len(rest))
+			return rest[:n]
+		case isWordByte(c):
+			n := 1
+			// "@" starts a module name and "//" a comment
+			for n < len(rest) && isWordByte(rest[n]) && rest[n] != '@' &&
+				!strings.HasPrefix(rest[n:], "//") && !strings.HasPrefix(rest[n:], "/*") {
+				n++
 			}
-		} else {
-			path, list, _ = strings.Cut(list, ",")
-			path, _, _ = strings.Cut(path, "//")
-			if fields := strings.Fields(path); len(fields) > 0 {
-				path = fields[len(fields)-1]
+			sc.pos += n
+			return rest[:n]
+		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
+			sc.pos++
+		default:
+			sc.pos++
+			return rest[:1]
+		}
+	}
+	return ""
+}
+
+// importList reads the paths after "import": items separated by commas, each
+// a path with an optional alias in front, possibly after "and use".
+func (sc *importScanner) importList() []string {
+	var paths []string
+	for {
+		tok := sc.next()
+		if tok == "and" {
+			sc.next() // use
+			tok = sc.next()
+		}
+		if tok != "" && tok[0] != '"' && tok[0] != '@' {
+			// an alias, or a path without quotes
+			after := sc.pos
+			if t := sc.next(); t != "" && (t[0] == '"' || t[0] == '@') {
+				tok = t
 			} else {
-				path = ""
+				sc.pos = after
 			}
 		}
-		paths = append(paths, path)
+		if path := strings.TrimPrefix(tok, "\""); path != "" {
+			paths = append(paths, path)
+		}
+		after := sc.pos
+		if sc.next() != "," {
+			sc.pos = after
+			return paths
+		}
 	}
-	return paths
 }
 
 // collectGrayFilesInDir recursively collects all .gray files in a directory
@@ -352,6 +453,7 @@ func hasMainFunction(filePath string) bool {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, 1<<30)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
 		if strings.HasPrefix(line, "do main(") {
-- 
2.43.0


From b4bc5140d5dc2b24fe54cf2d7b309a43e658b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:46 +0000
Subject: [PATCH 41/56] fix: os.exec reports launch failures apart from exit
 statuses and keeps its pipes private

A program which exits with status 127 was taken for one that could not be
launched. Pipe ends leaked into programs started by other threads, clashed
with closed standard streams, overflowed the select set from descriptor 1024
on, and an ignored SIGCHLD turned every exit status into 0.
---
 grayc/src/stdlib/os.c | 213 +++++++++++++++++++++++++-----------------
 1 file changed, 125 insertions(+), 88 deletions(-)

diff --git a/grayc/src/stdlib/os.c b/grayc/src/stdlib/os.c
index 62dcdc1..ce23db8 100644
--- a/grayc/src/stdlib/os.c
+++ b/grayc/src/stdlib/os.c
@@ -14,7 +14,9 @@
 #include <unistd.h>
 #include <limits.h>
 #include <signal.h>
-#include <sys/select.h>
+#include <fcntl.h>
+#include <poll.h>
+#include <pthread.h>
 #include <sys/wait.h>
 #include <errno.h>
 
@@ -42,17 +44,26 @@ GrayArray gray_os_args(GrayArena *arena) {
     return arr;
 }
 
+/* The operating system's strings end at a NUL byte: text containing one has
+ * no counterpart there and must not be cut short silently. */
+static bool os_has_nul(GrayString s) {
+    return memchr(s.data, '\0', (size_t)s.len) != NULL;
+}
+
 GrayString gray_os_get_env(GrayArena *arena, GrayString name) {
+    if (os_has_nul(name)) return gray_string_lit("");
     const char *val = getenv(name.data);
     if (!val) return gray_string_lit("");
     return gray_string_new(arena, val, (int32_t)strlen(val));
 }
 
 void gray_os_set_env(GrayString name, GrayString value) {
+    if (os_has_nul(name) || os_has_nul(value)) return;
     setenv(name.data, value.data, 1);
 }
 
 void gray_os_unset_env(GrayString name) {
+    if (os_has_nul(name)) return;
     unsetenv(name.data);
 }
 
@@ -102,119 +113,149 @@ int64_t gray_os_pid(void) {
     return (int64_t)getpid();
 }
 
+/* Held from the creation of the pipes to the fork, so that no program which
+ * another thread starts inherits their ends and keeps them open. */
+static pthread_mutex_t os_launch_lock = PTHREAD_MUTEX_INITIALIZER;
+
+/* A pipe which is closed when a program is started and which avoids the numbers of the standard streams,
+ * which are free when this process was started with them closed. */
+static bool os_pipe(int fds[2]) {
+    int p[2];
+    if (pipe(p) < 0) return false;
+    fds[0] = fcntl(p[0], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+    fds[1] = fcntl(p[1], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
+    close(p[0]);
+    close(p[1]);
+    if (fds[0] >= 0 && fds[1] >= 0) return true;
+    if (fds[0] >= 0) close(fds[0]);
+    if (fds[1] >= 0) close(fds[1]);
+    return false;
+}
+
+static void os_close_pipe(int fds[2]) {
+    close(fds[0]);
+    close(fds[1]);
+}
+
+typedef struct {
+    char *data;
+    size_t len, cap;
+} OsCapture;
+
+/* Reads what is available; false at the end of the stream. */
+static bool os_capture(GrayArena *arena, OsCapture *c, int fd, bool *too_long) {
+    char buf[4096];
+    ssize_t n = read(fd, buf, sizeof(buf));
+    if (n < 0 && errno == EINTR) return true;
+    if (n <= 0) return false;
+    if (c->len + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
+        *too_long = true;
+        return false;
+    }
+    if (c->len + (size_t)n > c->cap) {
+        size_t cap = c->cap * 2 + (size_t)n;
+        char *grown = gray_arena_alloc(arena, cap);
+        if (c->len) memcpy(grown, c->data, c->len);
+        c->data = grown;
+        c->cap = cap;
+    }
+    memcpy(c->data + c->len, buf, (size_t)n);
+    c->len += (size_t)n;
+    return true;
+}
+
 GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args) {
     GrayOsExecResult fail = {0, gray_string_lit(""), gray_string_lit(""), false};
 
     /* Build null-terminated argv: argv[0] = cmd, argv[1..n] = args, argv[n+1] = NULL */
+    if (os_has_nul(cmd)) return fail;
     int argc = 1 + args.len;
     char **argv = gray_arena_alloc(arena, sizeof(char *) * (size_t)(argc + 1));
     argv[0] = (char *)cmd.data;
     for (int i = 0; i < args.len; i++) {
         GrayString s = GRAY_ARRAY_GET(args, GrayString, i);
+        if (os_has_nul(s)) return fail;
         argv[1 + i] = (char *)s.data;
     }
     argv[argc] = NULL;
 
-    int stdout_pipe[2], stderr_pipe[2];
-    if (pipe(stdout_pipe) < 0) return fail;
-    if (pipe(stderr_pipe) < 0) {
-        close(stdout_pipe[0]); close(stdout_pipe[1]);
-        return fail;
+    /* The exit status is lost if this process was started ignoring SIGCHLD. */
+    struct sigaction chld;
+    if (sigaction(SIGCHLD, NULL, &chld) == 0 && chld.sa_handler == SIG_IGN) {
+        signal(SIGCHLD, SIG_DFL);
     }
 
-    pid_t pid = fork();
+    /* The child reports a failed execvp through launch_pipe, which a
+     * successful one closes: no exit status can be mistaken for it. */
+    int stdout_pipe[2], stderr_pipe[2], launch_pipe[2];
+    pid_t pid = -1;
+    int pipes = 0;
+    pthread_mutex_lock(&os_launch_lock);
+    if (os_pipe(stdout_pipe)) {
+        pipes = 1;
+        if (os_pipe(stderr_pipe)) {
+            pipes = 2;
+            if (os_pipe(launch_pipe)) {
+                pipes = 3;
+                pid = fork();
+            }
+        }
+    }
+    if (pid != 0) pthread_mutex_unlock(&os_launch_lock);
     if (pid < 0) {
-        close(stdout_pipe[0]); close(stdout_pipe[1]);
-        close(stderr_pipe[0]); close(stderr_pipe[1]);
+        if (pipes > 0) os_close_pipe(stdout_pipe);
+        if (pipes > 1) os_close_pipe(stderr_pipe);
+        if (pipes > 2) os_close_pipe(launch_pipe);
         return fail;
     }
 
     if (pid == 0) {
         /* Child: redirect stdout and stderr into pipes */
-        close(stdout_pipe[0]);
-        close(stderr_pipe[0]);
-        dup2(stdout_pipe[1], STDOUT_FILENO);
-        dup2(stderr_pipe[1], STDERR_FILENO);
-        close(stdout_pipe[1]);
-        close(stderr_pipe[1]);
-        execvp(cmd.data, argv);
-        /* execvp failed */
+        if (dup2(stdout_pipe[1], STDOUT_FILENO) >= 0 &&
+            dup2(stderr_pipe[1], STDERR_FILENO) >= 0) {
+            execvp(cmd.data, argv);
+        }
+        char failed = 1;
+        while (write(launch_pipe[1], &failed, 1) < 0 && errno == EINTR) {}
         _exit(127);
     }
 
-    /* Parent: close write ends, then read stdout and stderr concurrently
-     * using select() to avoid deadlock when one pipe's buffer fills. */
     close(stdout_pipe[1]);
     close(stderr_pipe[1]);
+    close(launch_pipe[1]);
 
-    char buf[4096];
-    size_t out_total = 0, err_total = 0;
-    size_t out_cap = sizeof(buf), err_cap = sizeof(buf);
-    char *out_buf = gray_arena_alloc(arena, out_cap);
-    char *err_buf = gray_arena_alloc(arena, err_cap);
-    int out_fd = stdout_pipe[0];
-    int err_fd = stderr_pipe[0];
-    bool out_done = false, err_done = false;
-    bool truncated = false;
-
-    while (!out_done || !err_done) {
-        fd_set fds;
-        FD_ZERO(&fds);
-        if (!out_done) FD_SET(out_fd, &fds);
-        if (!err_done) FD_SET(err_fd, &fds);
-        int maxfd = (out_fd > err_fd ? out_fd : err_fd) + 1;
-        if (select(maxfd, &fds, NULL, NULL, NULL) < 0) break;
-
-        if (!out_done && FD_ISSET(out_fd, &fds)) {
-            ssize_t n = read(out_fd, buf, sizeof(buf));
-            if (n <= 0) {
-                out_done = true;
-            } else if (out_total + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
-                kill(pid, SIGKILL);
-                out_done = true;
-                err_done = true;
-                truncated = true;
-            } else {
-                if (out_total + (size_t)n > out_cap) {
-                    size_t new_cap = out_cap * 2 + (size_t)n;
-                    char *grown = gray_arena_alloc(arena, new_cap);
-                    memcpy(grown, out_buf, out_total);
-                    out_buf = grown;
-                    out_cap = new_cap;
-                }
-                memcpy(out_buf + out_total, buf, (size_t)n);
-                out_total += (size_t)n;
-            }
-        }
+    char failed;
+    ssize_t launch;
+    do {
+        launch = read(launch_pipe[0], &failed, 1);
+    } while (launch < 0 && errno == EINTR);
+    close(launch_pipe[0]);
 
-        if (!err_done && FD_ISSET(err_fd, &fds)) {
-            ssize_t n = read(err_fd, buf, sizeof(buf));
-            if (n <= 0) {
-                err_done = true;
-            } else if (err_total + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
-                kill(pid, SIGKILL);
-                out_done = true;
-                err_done = true;
-                truncated = true;
-            } else {
-                if (err_total + (size_t)n > err_cap) {
-                    size_t new_cap = err_cap * 2 + (size_t)n;
-                    char *grown = gray_arena_alloc(arena, new_cap);
-                    memcpy(grown, err_buf, err_total);
-                    err_buf = grown;
-                    err_cap = new_cap;
-                }
-                memcpy(err_buf + err_total, buf, (size_t)n);
-                err_total += (size_t)n;
-            }
+    /* Read both streams as they come: the program may fill either first. */
+    OsCapture out = {0}, err = {0};
+    bool out_open = true, err_open = true, too_long = false;
+    while ((out_open || err_open) && !too_long) {
+        struct pollfd fds[2] = {
+            {out_open ? stdout_pipe[0] : -1, POLLIN, 0},
+            {err_open ? stderr_pipe[0] : -1, POLLIN, 0},
+        };
+        if (poll(fds, 2, -1) < 0) {
+            if (errno == EINTR) continue;
+            break;
         }
+        if (fds[0].revents) out_open = os_capture(arena, &out, stdout_pipe[0], &too_long);
+        if (fds[1].revents) err_open = os_capture(arena, &err, stderr_pipe[0], &too_long);
     }
-
-    close(out_fd);
-    close(err_fd);
+    close(stdout_pipe[0]);
+    close(stderr_pipe[0]);
+    if (too_long) kill(pid, SIGKILL);
 
     int status = 0;
-    waitpid(pid, &status, 0);
+    pid_t waited;
+    do {
+        waited = waitpid(pid, &status, 0);
+    } while (waited < 0 && errno == EINTR);
+    if (waited < 0 || launch > 0 || too_long) return fail;
 
     int exit_code = 0;
     if (WIFEXITED(status)) {
@@ -223,12 +264,8 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
         exit_code = 128 + WTERMSIG(status);
     }
 
-    /* exit_code 127 means execvp failed (command not found / bad path) */
-    if (exit_code == 127 || truncated) return fail;
-
-    GrayString stdout_str = gray_string_new(arena, out_buf, (int32_t)out_total);
-    GrayString stderr_str = gray_string_new(arena, err_buf, (int32_t)err_total);
+    GrayString stdout_str = gray_string_new(arena, out.data ? out.data : "", (int32_t)out.len);
+    GrayString stderr_str = gray_string_new(arena, err.data ? err.data : "", (int32_t)err.len);
     GrayOsExecResult r = {(int64_t)exit_code, stdout_str, stderr_str, true};
     return r;
 }
-
-- 
2.43.0


From a026978fc5127baaa37400392f45ef4a2f53a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:56:47 +0000
Subject: [PATCH 42/56] fix: the compiler reads no uninitialised memory

A call through a function reference which leaves out defaulted arguments
read the argument list beyond its end, and parser fields were read before
they were set: the compiler could crash or not, at random.
---
 grayc/src/typechecker/typechecker.c | 2 +-
 grayc/src/util/arena.c              | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 2b4b4c1..cf51b6f 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -5094,7 +5094,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     diagnostic_error_message(checker->diag, "E5008", msg,
                         NODE_FILE(checker, node), node->token.line, node->token.column, 0);
                 } else {
-                    for (int argument_index = 0; argument_index < ref_sig->param_count; argument_index++) {
+                    for (int argument_index = 0; argument_index < ac; argument_index++) {
                         GrayType *at = resolve_expression(checker, node->data.call.args[argument_index]);
                         GrayType *pt = ref_sig->param_types[argument_index];
                         if (at && pt && at->kind != TK_UNKNOWN &&
diff --git a/grayc/src/util/arena.c b/grayc/src/util/arena.c
index 148d86a..411bef8 100644
--- a/grayc/src/util/arena.c
+++ b/grayc/src/util/arena.c
@@ -15,7 +15,8 @@
 #define ALIGN_UP(x, align) (((x) + (align) - 1) & ~((align) - 1))
 
 static ArenaBlock *arena_block_create(size_t size) {
-    ArenaBlock *block = malloc(sizeof(ArenaBlock) + size);
+    /* Zeroed: nodes and tables leave fields unset which their users read. */
+    ArenaBlock *block = calloc(1, sizeof(ArenaBlock) + size);
     if (!block) {
         fprintf(stderr, "grayc: out of memory\n");
         exit(1);
-- 
2.43.0


From 39da2fcf353aa1063e02f7554100493392049839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:01:07 +0000
Subject: [PATCH 43/56] fix: file operations report every refused or shortened
 call and never destroy the source

A failed last write or close was reported as success, a copy of a file onto
itself emptied it, a move reported success when the source could not be
removed, files without a known size read as empty, read errors passed for the
end of the file, a symbolic link to a directory could not be deleted, and
paths were cut at a NUL byte.
---
 grayc/src/stdlib/io.c | 295 ++++++++++++++++++------------------------
 1 file changed, 127 insertions(+), 168 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 4535ae6..ea84e7f 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -34,6 +34,12 @@
 #define GRAY_IO_WALK_INITIAL_CAP  32
 #define GRAY_IO_MAX_TEMP_PATHS    256
 
+/* Text containing a NUL byte names no file; the operating system would take
+ * the part before it. */
+static bool io_path_ok(GrayString path) {
+    return memchr(path.data, '\0', (size_t)path.len) == NULL;
+}
+
 /* ---- Temp cleanup registry ---- */
 
 static char *temp_paths[GRAY_IO_MAX_TEMP_PATHS];
@@ -203,77 +209,74 @@ GrayString gray_io_normalize(GrayArena *arena, GrayString path) {
 
 /* ---- Existing file operations ---- */
 
-GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
-    struct stat _st;
-    if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
-        gray_panic_code("P0086", "io.read_file() cannot read a directory; use io.list_dir() or io.walk() to list directory contents");
+typedef enum { IO_READ_OK, IO_READ_FAILED, IO_READ_TOO_LONG } IoRead;
+
+/* Reads a file of any kind up to its end. Its size is only a hint: pipes and
+ * devices have none, /proc files claim 0, and files grow. */
+static IoRead io_read_all(GrayArena *arena, GrayString path, char **data, int32_t *len) {
+    if (!io_path_ok(path)) return IO_READ_FAILED;
     FILE *f = fopen(path.data, "rb");
-    if (!f) return gray_string_lit("");
-
-    /* Try to size the buffer from the file. Falls back to streaming
-     * when the file isn't seekable (pipes, FIFOs, /dev/stdin, /proc,
-     * sockets). On those, ftell returns -1, which used to wrap to
-     * (size_t)-1 + 1 = 0 and let fread write past the arena slot. */
-    long size = -1;
-    if (fseek(f, 0, SEEK_END) == 0) {
-        size = ftell(f);
-        if (size >= 0) (void)fseek(f, 0, SEEK_SET);
-    }
-
-    if (size >= 0 && size <= INT32_MAX) {
-        char *buf = gray_arena_alloc(arena, (size_t)size + 1);
-        size_t read = fread(buf, 1, (size_t)size, f);
-        buf[read] = '\0';
-        fclose(f);
-        return (GrayString){ buf, (int32_t)read };
-    }
-
-    /* Streaming fallback for non-seekable inputs. */
-    clearerr(f);
-    size_t capacity = 4096;
-    size_t len = 0;
+    if (!f) return IO_READ_FAILED;
+    size_t capacity = 4096, got = 0;
+    struct stat st;
+    if (fstat(fileno(f), &st) == 0 && S_ISREG(st.st_mode)) {
+        if (st.st_size >= INT32_MAX) {
+            fclose(f);
+            return IO_READ_TOO_LONG;
+        }
+        if (st.st_size > 0) capacity = (size_t)st.st_size + 2;
+    }
     char *buf = gray_arena_alloc(arena, capacity);
     for (;;) {
-        if (len == capacity) {
-            if (capacity > (size_t)INT32_MAX / 2) {
-                fclose(f);
-                gray_panic_code("P0053", "io.read_file: input exceeds maximum string length");
-            }
-            size_t new_capacity = capacity * 2;
-            char *new_buffer = gray_arena_alloc(arena, new_capacity);
-            memcpy(new_buffer, buf, len);
-            buf = new_buffer;
-            capacity = new_capacity;
+        /* Keep room for the terminating NUL. */
+        size_t n = fread(buf + got, 1, capacity - 1 - got, f);
+        got += n;
+        if (got < capacity - 1) break;
+        if (capacity > (size_t)INT32_MAX / 2) {
+            fclose(f);
+            return IO_READ_TOO_LONG;
         }
-        size_t got = fread(buf + len, 1, capacity - len, f);
-        if (got == 0) break;
-        len += got;
-    }
-    if (len == capacity) {
-        char *grow = gray_arena_alloc(arena, len + 1);
-        memcpy(grow, buf, len);
-        buf = grow;
+        char *grown = gray_arena_alloc(arena, capacity * 2);
+        memcpy(grown, buf, got);
+        buf = grown;
+        capacity *= 2;
     }
-    buf[len] = '\0';
+    bool failed = ferror(f);
     fclose(f);
-    return (GrayString){ buf, (int32_t)len };
+    if (failed) return IO_READ_FAILED;
+    buf[got] = '\0';
+    *data = buf;
+    *len = (int32_t)got;
+    return IO_READ_OK;
+}
+
+GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
+    struct stat _st;
+    if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
+        gray_panic_code("P0086", "io.read_file() cannot read a directory; use io.list_dir() or io.walk() to list directory contents");
+    char *data = NULL;
+    int32_t len = 0;
+    switch (io_read_all(arena, path, &data, &len)) {
+    case IO_READ_OK: return (GrayString){ data, len };
+    case IO_READ_TOO_LONG: gray_panic_code("P0053", "io.read_file: input exceeds maximum string length");
+    default: return gray_string_lit("");
+    }
+}
+
+/* The bytes of a file as an array, without another copy of them. */
+static GrayArray io_bytes(char *data, int32_t len) {
+    return (GrayArray){ .data = data, .len = len, .cap = len + 1, .elem_size = (int32_t)sizeof(uint8_t), .iterating = 0 };
 }
 
 GrayArray gray_io_read_bytes(GrayArena *arena, GrayString path) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0086", "io.read_bytes() cannot read a directory");
-    FILE *f = fopen(path.data, "rb");
-    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
-    if (!f) return arr;
-    uint8_t buf[4096];
-    size_t n;
-    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) {
-        for (size_t i = 0; i < n; i++)
-            gray_array_push(arena, &arr, &buf[i]);
-    }
-    fclose(f);
-    return arr;
+    char *data = NULL;
+    int32_t len = 0;
+    if (io_read_all(arena, path, &data, &len) != IO_READ_OK)
+        return gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
+    return io_bytes(data, len);
 }
 
 GrayArray gray_io_read_lines(GrayArena *arena, GrayString path) {
@@ -302,77 +305,72 @@ GrayArray gray_io_read_lines(GrayArena *arena, GrayString path) {
 }
 
 bool gray_io_file_exists(GrayString path) {
-    return access(path.data, F_OK) == 0;
+    return io_path_ok(path) && access(path.data, F_OK) == 0;
 }
 
 bool gray_io_is_file(GrayString path) {
     struct stat st;
-    if (stat(path.data, &st) != 0) return false;
+    if (!io_path_ok(path) || stat(path.data, &st) != 0) return false;
     return S_ISREG(st.st_mode);
 }
 
 bool gray_io_is_directory(GrayString path) {
     struct stat st;
-    if (stat(path.data, &st) != 0) return false;
+    if (!io_path_ok(path) || stat(path.data, &st) != 0) return false;
     return S_ISDIR(st.st_mode);
 }
 
 int64_t gray_io_file_size(GrayString path) {
     struct stat st;
-    if (stat(path.data, &st) != 0) return -1;
+    if (!io_path_ok(path) || stat(path.data, &st) != 0) return -1;
     return (int64_t)st.st_size;
 }
 
 GrayResult_int gray_io_file_size_result(GrayArena *arena, GrayString path) {
     struct stat st;
-    if (stat(path.data, &st) != 0)
+    if (!io_path_ok(path) || stat(path.data, &st) != 0)
         return (GrayResult_int){-1, gray_error_new(arena,
             gray_string_format(arena, "cannot stat '%s'", path.data))};
     return (GrayResult_int){(int64_t)st.st_size, NULL};
 }
 
+/* True only when every byte reached the file: the stream hands over the last
+ * of them, and learns of a full disk, when it is closed. */
+static bool io_write_all(GrayString path, const char *mode, const void *data, size_t len) {
+    if (!io_path_ok(path)) return false;
+    FILE *f = fopen(path.data, mode);
+    if (!f) return false;
+    bool ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = false;
+    return ok;
+}
+
 bool gray_io_write_file(GrayString path, GrayString content) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0087", "io.write_file() cannot write to a directory");
-    FILE *f = fopen(path.data, "wb");
-    if (!f) return false;
-    size_t written = fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
-    return written == (size_t)content.len;
+    return io_write_all(path, "wb", content.data, (size_t)content.len);
 }
 
 bool gray_io_append_file(GrayString path, GrayString content) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0088", "io.append_file() cannot append to a directory");
-    FILE *f = fopen(path.data, "ab");
-    if (!f) return false;
-    size_t written = fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
-    return written == (size_t)content.len;
+    return io_write_all(path, "ab", content.data, (size_t)content.len);
 }
 
 bool gray_io_write_bytes(GrayString path, GrayArray data) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0087", "io.write_bytes() cannot write to a directory");
-    FILE *f = fopen(path.data, "wb");
-    if (!f) return false;
-    size_t written = fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
-    return written == (size_t)data.len;
+    return io_write_all(path, "wb", data.data, (size_t)data.len);
 }
 
 bool gray_io_append_bytes(GrayString path, GrayArray data) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0088", "io.append_bytes() cannot append to a directory");
-    FILE *f = fopen(path.data, "ab");
-    if (!f) return false;
-    size_t written = fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
-    return written == (size_t)data.len;
+    return io_write_all(path, "ab", data.data, (size_t)data.len);
 }
 
 GrayString gray_io_temp_file(GrayArena *arena) {
@@ -393,13 +391,15 @@ GrayString gray_io_temp_dir(GrayArena *arena) {
 
 bool gray_io_delete_file(GrayString path) {
     struct stat st;
-    if (stat(path.data, &st) == 0 && S_ISDIR(st.st_mode))
+    if (!io_path_ok(path)) return false;
+    if (lstat(path.data, &st) == 0 && S_ISDIR(st.st_mode))
         gray_panic_code("P0077", "io.delete_file() cannot delete a directory; use io.remove_dir() for directories");
     return unlink(path.data) == 0;
 }
 
 bool gray_io_rename_file(GrayString old_path, GrayString new_path) {
-    return rename(old_path.data, new_path.data) == 0;
+    return io_path_ok(old_path) && io_path_ok(new_path) &&
+        rename(old_path.data, new_path.data) == 0;
 }
 
 /* ---- New file operations ---- */
@@ -408,8 +408,16 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
     struct stat _st;
     if (stat(src.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0089", "io.copy_file() cannot copy a directory; use io.walk() to enumerate files and copy them individually");
+    if (!io_path_ok(src) || !io_path_ok(dst)) return false;
     FILE *in = fopen(src.data, "rb");
     if (!in) return false;
+    /* Opening the destination empties it: it must not be the source. */
+    struct stat in_st, out_st;
+    if (fstat(fileno(in), &in_st) != 0 ||
+        (stat(dst.data, &out_st) == 0 && in_st.st_dev == out_st.st_dev && in_st.st_ino == out_st.st_ino)) {
+        fclose(in);
+        return false;
+    }
     int out_fd = open(dst.data, O_WRONLY | O_CREAT | O_TRUNC, GRAY_IO_FILE_MODE);
     if (out_fd < 0) { fclose(in); return false; }
     FILE *out = fdopen(out_fd, "wb");
@@ -420,16 +428,20 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
     while ((n = fread(buf, 1, sizeof(buf), in)) > 0) {
         if (fwrite(buf, 1, n, out) != n) { ok = false; break; }
     }
+    if (ferror(in)) ok = false;
     fclose(in);
-    fclose(out);
+    if (fclose(out) != 0) ok = false;
     return ok;
 }
 
 bool gray_io_move_file(GrayString src, GrayString dst) {
+    if (!io_path_ok(src) || !io_path_ok(dst)) return false;
     if (rename(src.data, dst.data) == 0) return true;
-    if (!gray_io_copy_file(src, dst)) return false;
-    unlink(src.data);
-    return true;
+    /* Only another file system calls for a copy. */
+    if (errno != EXDEV) return false;
+    struct stat st;
+    if (stat(src.data, &st) != 0 || S_ISDIR(st.st_mode)) return false;
+    return gray_io_copy_file(src, dst) && unlink(src.data) == 0;
 }
 
 /* ---- Directory operations ---- */
@@ -557,62 +569,21 @@ GrayResult_string gray_io_read_file_result(GrayArena *arena, GrayString path) {
             "cannot read '%s': is a directory", path.data));
         return r;
     }
-    FILE *f = fopen(path.data, "rb");
-    if (!f) {
-        r.v0 = gray_string_lit("");
-        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s'", path.data));
-        return r;
-    }
-    long size = -1;
-    if (fseek(f, 0, SEEK_END) == 0) {
-        size = ftell(f);
-        if (size >= 0) (void)fseek(f, 0, SEEK_SET);
-    }
-    if (size >= 0 && size <= INT32_MAX) {
-        char *buf = gray_arena_alloc(arena, (size_t)size + 1);
-        size_t bytes = fread(buf, 1, (size_t)size, f);
-        buf[bytes] = '\0';
-        fclose(f);
-        r.v0 = (GrayString){ buf, (int32_t)bytes };
+    char *data = NULL;
+    int32_t len = 0;
+    switch (io_read_all(arena, path, &data, &len)) {
+    case IO_READ_OK:
+        r.v0 = (GrayString){ data, len };
         r.v1 = NULL;
-        return r;
-    }
-    if (size > INT32_MAX) {
-        fclose(f);
+        break;
+    case IO_READ_TOO_LONG:
         r.v0 = gray_string_lit("");
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s': file exceeds maximum string length", path.data));
-        return r;
-    }
-    /* Streaming fallback for non-seekable inputs (pipes, /dev/stdin, etc.) */
-    clearerr(f);
-    size_t capacity = 4096;
-    size_t len = 0;
-    char *buf = gray_arena_alloc(arena, capacity);
-    for (;;) {
-        if (len == capacity) {
-            if (capacity > (size_t)INT32_MAX / 2) {
-                fclose(f);
-                gray_panic_code("P0053", "io.read_file: input exceeds maximum string length");
-            }
-            size_t new_capacity = capacity * 2;
-            char *new_buffer = gray_arena_alloc(arena, new_capacity);
-            memcpy(new_buffer, buf, len);
-            buf = new_buffer;
-            capacity = new_capacity;
-        }
-        size_t got = fread(buf + len, 1, capacity - len, f);
-        if (got == 0) break;
-        len += got;
-    }
-    if (len == capacity) {
-        char *grow = gray_arena_alloc(arena, len + 1);
-        memcpy(grow, buf, len);
-        buf = grow;
+        break;
+    default:
+        r.v0 = gray_string_lit("");
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s'", path.data));
     }
-    buf[len] = '\0';
-    fclose(f);
-    r.v0 = (GrayString){ buf, (int32_t)len };
-    r.v1 = NULL;
     return r;
 }
 
@@ -625,29 +596,26 @@ GrayResult_bool gray_io_write_file_result(GrayArena *arena, GrayString path, Gra
             "cannot write '%s': is a directory", path.data));
         return r;
     }
-    FILE *f = fopen(path.data, "wb");
-    if (!f) {
+    if (gray_io_write_file(path, content)) {
+        r.v0 = true;
+        r.v1 = NULL;
+    } else {
         r.v0 = false;
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
-        return r;
     }
-    fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
-    r.v0 = true;
-    r.v1 = NULL;
     return r;
 }
 
 GrayResult_bool gray_io_delete_file_result(GrayArena *arena, GrayString path) {
     GrayResult_bool r;
     struct stat st;
-    if (stat(path.data, &st) == 0 && S_ISDIR(st.st_mode)) {
+    if (lstat(path.data, &st) == 0 && S_ISDIR(st.st_mode)) {
         r.v0 = false;
         r.v1 = gray_error_new(arena, gray_string_format(arena,
             "cannot delete '%s': is a directory; use io.remove_dir() for directories", path.data));
         return r;
     }
-    if (unlink(path.data) == 0) {
+    if (io_path_ok(path) && unlink(path.data) == 0) {
         r.v0 = true;
         r.v1 = NULL;
     } else {
@@ -804,20 +772,14 @@ GrayResult_array gray_io_read_bytes_result(GrayArena *arena, GrayString path) {
             "cannot read '%s': is a directory", path.data));
         return r;
     }
-    FILE *f = fopen(path.data, "rb");
-    if (!f) {
+    char *data = NULL;
+    int32_t len = 0;
+    if (io_read_all(arena, path, &data, &len) != IO_READ_OK) {
         r.v0 = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s'", path.data));
         return r;
     }
-    r.v0 = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
-    uint8_t buf[4096];
-    size_t n;
-    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) {
-        for (size_t i = 0; i < n; i++)
-            gray_array_push(arena, &r.v0, &buf[i]);
-    }
-    fclose(f);
+    r.v0 = io_bytes(data, len);
     r.v1 = NULL;
     return r;
 }
@@ -886,16 +848,13 @@ GrayResult_bool gray_io_write_bytes_result(GrayArena *arena, GrayString path, Gr
             "cannot write '%s': is a directory", path.data));
         return r;
     }
-    FILE *f = fopen(path.data, "wb");
-    if (!f) {
+    if (gray_io_write_bytes(path, data)) {
+        r.v0 = true;
+        r.v1 = NULL;
+    } else {
         r.v0 = false;
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
-        return r;
     }
-    fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
-    r.v0 = true;
-    r.v1 = NULL;
     return r;
 }
 
-- 
2.43.0


From 68dda6650130e11738118c94c87c52fc9ad33701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:19:44 +0000
Subject: [PATCH 44/56] fix: recursive directory operations stay inside their
 tree and path functions are exact

---
 grayc/src/stdlib/io.c | 266 ++++++++++++++++++++++++------------------
 1 file changed, 154 insertions(+), 112 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index ea84e7f..cc0e72e 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -24,15 +24,13 @@
 #include <dirent.h>
 #include <errno.h>
 #include <glob.h>
+#include <pthread.h>
 #include <stdlib.h>
 
-#define GRAY_IO_PATH_BUF          4096
 #define GRAY_IO_COPY_BUF          8192
-#define GRAY_IO_MAX_SEGMENTS      256
 #define GRAY_IO_DIR_MODE          0755
 #define GRAY_IO_FILE_MODE         0644
 #define GRAY_IO_WALK_INITIAL_CAP  32
-#define GRAY_IO_MAX_TEMP_PATHS    256
 
 /* Text containing a NUL byte names no file; the operating system would take
  * the part before it. */
@@ -42,8 +40,10 @@ static bool io_path_ok(GrayString path) {
 
 /* ---- Temp cleanup registry ---- */
 
-static char *temp_paths[GRAY_IO_MAX_TEMP_PATHS];
+static char **temp_paths = NULL;
 static int temp_path_count = 0;
+static int temp_path_cap = 0;
+static pthread_mutex_t temp_lock = PTHREAD_MUTEX_INITIALIZER;
 static bool temp_cleanup_registered = false;
 
 static bool remove_dir_recursive(const char *path); /* forward decl */
@@ -51,7 +51,7 @@ static bool remove_dir_recursive(const char *path); /* forward decl */
 static void gray_io_temp_cleanup(void) {
     for (int i = 0; i < temp_path_count; i++) {
         struct stat st;
-        if (stat(temp_paths[i], &st) == 0) {
+        if (lstat(temp_paths[i], &st) == 0) {
             if (S_ISDIR(st.st_mode))
                 remove_dir_recursive(temp_paths[i]);
             else
@@ -59,17 +59,28 @@ static void gray_io_temp_cleanup(void) {
         }
         free(temp_paths[i]);
     }
-    temp_path_count = 0;
+    free(temp_paths);
+    temp_paths = NULL;
+    temp_path_count = temp_path_cap = 0;
 }
 
 static void temp_registry_add(const char *path) {
+    pthread_mutex_lock(&temp_lock);
     if (!temp_cleanup_registered) {
         atexit(gray_io_temp_cleanup);
         temp_cleanup_registered = true;
     }
-    if (temp_path_count < GRAY_IO_MAX_TEMP_PATHS) {
-        temp_paths[temp_path_count++] = strdup(path);
+    if (temp_path_count == temp_path_cap) {
+        int cap = temp_path_cap ? temp_path_cap * 2 : 16;
+        char **grown = realloc(temp_paths, sizeof(char *) * (size_t)cap);
+        if (grown) {
+            temp_paths = grown;
+            temp_path_cap = cap;
+        }
     }
+    char *copy = temp_path_count < temp_path_cap ? strdup(path) : NULL;
+    if (copy) temp_paths[temp_path_count++] = copy;
+    pthread_mutex_unlock(&temp_lock);
 }
 
 /* ---- Path manipulation (pure, no I/O) ---- */
@@ -85,7 +96,8 @@ GrayString gray_io_path_join(GrayArena *arena, GrayArray parts) {
             result = seg;
             continue;
         }
-        bool already_separated = result.len > 0 &&
+        /* Nothing precedes the segment yet: a separator would make it absolute. */
+        bool already_separated = result.len == 0 ||
             (result.data[result.len - 1] == '/' || result.data[result.len - 1] == '\\');
         if (already_separated)
             result = gray_string_format(arena, "%.*s%.*s", result.len, result.data, seg.len, seg.data);
@@ -109,6 +121,8 @@ GrayString gray_io_dirname(GrayArena *arena, GrayString path) {
         }
     }
     if (last_separator < 0) return gray_string_lit(".");
+    /* A run of separators counts as one */
+    while (last_separator > 0 && (path.data[last_separator - 1] == '/' || path.data[last_separator - 1] == '\\')) last_separator--;
     /* Collapse leading separator: dirname("/foo") -> "/" */
     if (last_separator == 0) return gray_string_lit("/");
     char *buf = gray_arena_alloc(arena, (size_t)last_separator + 1);
@@ -159,50 +173,38 @@ bool gray_io_is_absolute(GrayString path) {
 
 GrayString gray_io_normalize(GrayArena *arena, GrayString path) {
     if (path.len == 0) return gray_string_lit(".");
-    char *buf = gray_arena_alloc(arena, (size_t)path.len + 1);
-    /* Copy input, converting backslashes to forward slashes */
-    for (int i = 0; i < path.len; i++) {
-        buf[i] = (path.data[i] == '\\') ? '/' : path.data[i];
-    }
-    buf[path.len] = '\0';
-    bool absolute = (buf[0] == '/');
-
-    /* Split into segments */
-    char *segments[GRAY_IO_MAX_SEGMENTS];
-    int seg_count = 0;
-    char *tok = buf;
-    while (*tok) {
-        while (*tok == '/') tok++;
-        if (*tok == '\0') break;
-        char *seg_start = tok;
-        while (*tok && *tok != '/') tok++;
-        if (*tok) { *tok = '\0'; tok++; }
-        if (strcmp(seg_start, ".") == 0) continue;
-        if (strcmp(seg_start, "..") == 0) {
-            if (seg_count > 0 && strcmp(segments[seg_count - 1], "..") != 0) {
-                seg_count--;
-            } else if (!absolute) {
-                segments[seg_count++] = seg_start;
-            }
-        } else {
-            if (seg_count < GRAY_IO_MAX_SEGMENTS) segments[seg_count++] = seg_start;
-        }
-    }
-
-    /* Rebuild */
-    char *out = gray_arena_alloc(arena, (size_t)path.len + 2);
+    const char *in = path.data;
+    int len = path.len;
+#define IO_IS_SEP(c) ((c) == '/' || (c) == '\\')
+    bool absolute = IO_IS_SEP(in[0]);
+
+    /* The result is built up segment by segment and never gets longer than
+     * the input; `base` is where it cannot be shortened any further by "..":
+     * the root, or leading ".." segments. */
+    char *out = gray_arena_alloc(arena, (size_t)len + 2);
     int pos = 0;
     if (absolute) out[pos++] = '/';
-    for (int i = 0; i < seg_count; i++) {
-        if (i > 0) out[pos++] = '/';
-        int segment_length = (int)strlen(segments[i]);
-        memcpy(out + pos, segments[i], (size_t)segment_length);
-        pos += segment_length;
-    }
-    if (pos == 0) {
-        out[0] = '.';
-        pos = 1;
-    }
+    int base = pos;
+    for (int i = 0; i < len;) {
+        while (i < len && IO_IS_SEP(in[i])) i++;
+        int start = i;
+        while (i < len && !IO_IS_SEP(in[i])) i++;
+        int n = i - start;
+        if (n == 0 || (n == 1 && in[start] == '.')) continue;
+        bool up = n == 2 && in[start] == '.' && in[start + 1] == '.';
+        if (up && pos > base) {
+            while (pos > base && out[pos - 1] != '/') pos--;
+            if (pos > base) pos--; /* the separator before the dropped segment */
+            continue;
+        }
+        if (up && absolute) continue;
+        if (pos > (absolute ? 1 : 0)) out[pos++] = '/';
+        memcpy(out + pos, in + start, (size_t)n);
+        pos += n;
+        if (up) base = pos;
+    }
+#undef IO_IS_SEP
+    if (pos == 0) out[pos++] = '.';
     out[pos] = '\0';
     return (GrayString){ out, (int32_t)pos };
 }
@@ -446,81 +448,117 @@ bool gray_io_move_file(GrayString src, GrayString dst) {
 
 /* ---- Directory operations ---- */
 
-GrayArray gray_io_list_dir(GrayArena *arena, GrayString path) {
-    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
-    DIR *d = opendir(path.data);
-    if (!d) return arr;
+/* False if the directory could not be read to its end. */
+static bool io_list(GrayArena *arena, GrayString path, GrayArray *out) {
+    DIR *d = io_path_ok(path) ? opendir(path.data) : NULL;
+    if (!d) return false;
     struct dirent *ent;
-    while ((ent = readdir(d)) != NULL) {
+    while ((errno = 0, ent = readdir(d)) != NULL) {
         if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
         GrayString name = gray_string_format(arena, "%s", ent->d_name);
-        gray_array_push(arena, &arr, &name);
+        gray_array_push(arena, out, &name);
     }
+    bool ok = errno == 0;
     closedir(d);
+    return ok;
+}
+
+GrayArray gray_io_list_dir(GrayArena *arena, GrayString path) {
+    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
+    (void)io_list(arena, path, &arr);
     return arr;
 }
 
 bool gray_io_make_dir(GrayString path) {
-    return mkdir(path.data, GRAY_IO_DIR_MODE) == 0;
+    return io_path_ok(path) && mkdir(path.data, GRAY_IO_DIR_MODE) == 0;
 }
 
 bool gray_io_make_dir_all(GrayString path) {
-    if (path.len == 0) return false;
-    char buf[GRAY_IO_PATH_BUF];
-    if ((size_t)path.len >= sizeof(buf)) return false;
+    if (path.len == 0 || !io_path_ok(path)) return false;
+    char *buf = malloc((size_t)path.len + 1);
+    if (!buf) return false;
     memcpy(buf, path.data, (size_t)path.len);
     buf[path.len] = '\0';
     for (char *p = buf + 1; *p; p++) {
-        if (*p == '/' || *p == '\\') {
+        if (*p == '/') {
             *p = '\0';
             mkdir(buf, GRAY_IO_DIR_MODE);
             *p = '/';
         }
     }
-    return mkdir(buf, GRAY_IO_DIR_MODE) == 0 || errno == EEXIST;
+    mkdir(buf, GRAY_IO_DIR_MODE);
+    free(buf);
+    struct stat st;
+    return stat(path.data, &st) == 0 && S_ISDIR(st.st_mode);
 }
 
 bool gray_io_remove_dir(GrayString path) {
-    return rmdir(path.data) == 0;
+    return io_path_ok(path) && rmdir(path.data) == 0;
 }
 
-static bool remove_dir_recursive(const char *path) {
-    DIR *d = opendir(path);
-    if (!d) return false;
-    struct dirent *ent;
-    bool ok = true;
-    while ((ent = readdir(d)) != NULL) {
-        if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
-        char child[GRAY_IO_PATH_BUF];
-        snprintf(child, sizeof(child), "%s/%s", path, ent->d_name);
-        struct stat st;
-        if (stat(child, &st) != 0) { ok = false; continue; }
-        if (S_ISDIR(st.st_mode)) {
-            if (!remove_dir_recursive(child)) ok = false;
-        } else {
-            if (unlink(child) != 0) ok = false;
-        }
+/* Empties the directory open as dir_fd, which it closes. Works on open
+ * directories and never follows a symbolic link, so that nothing outside the
+ * tree can be reached. */
+static bool empty_dir(int dir_fd) {
+    DIR *d = fdopendir(dir_fd);
+    if (!d) {
+        close(dir_fd);
+        return false;
     }
+    bool ok = true, removed;
+    do { /* again, as removing entries may make readdir skip some */
+        removed = false;
+        ok = true;
+        struct dirent *ent;
+        while ((errno = 0, ent = readdir(d)) != NULL) {
+            if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
+            struct stat st;
+            int flags = 0;
+            if (fstatat(dir_fd, ent->d_name, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) {
+                int sub = openat(dir_fd, ent->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+                if (sub < 0 || !empty_dir(sub)) ok = false;
+                flags = AT_REMOVEDIR;
+            }
+            if (unlinkat(dir_fd, ent->d_name, flags) == 0) removed = true;
+            else ok = false;
+        }
+        if (errno != 0) ok = false;
+        if (removed) rewinddir(d);
+    } while (removed);
     closedir(d);
-    if (rmdir(path) != 0) ok = false;
+    return ok;
+}
+
+static bool remove_dir_recursive(const char *path) {
+    /* With trailing separators a symbolic link would be followed. */
+    size_t len = strlen(path);
+    while (len > 1 && path[len - 1] == '/') len--;
+    char *name = malloc(len + 1);
+    if (!name) return false;
+    memcpy(name, path, len);
+    name[len] = '\0';
+    int fd = open(name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+    bool ok = fd >= 0 && empty_dir(fd);
+    if (fd >= 0 && rmdir(name) != 0) ok = false;
+    free(name);
     return ok;
 }
 
 bool gray_io_remove_dir_all(GrayString path) {
-    return remove_dir_recursive(path.data);
+    return io_path_ok(path) && remove_dir_recursive(path.data);
 }
 
-static void walk_recursive(GrayArena *arena, const char *base, const char *rel, GrayArray *out) {
-    char full[GRAY_IO_PATH_BUF];
-    if (rel[0] == '\0') {
-        snprintf(full, sizeof(full), "%s", base);
-    } else {
-        snprintf(full, sizeof(full), "%s/%s", base, rel);
+/* Lists the directory open as dir_fd, which it closes; does not descend into
+ * symbolic links, which may lead back up. */
+static bool walk_recursive(GrayArena *arena, int dir_fd, const char *rel, GrayArray *out) {
+    DIR *d = fdopendir(dir_fd);
+    if (!d) {
+        close(dir_fd);
+        return false;
     }
-    DIR *d = opendir(full);
-    if (!d) return;
+    bool ok = true;
     struct dirent *ent;
-    while ((ent = readdir(d)) != NULL) {
+    while ((errno = 0, ent = readdir(d)) != NULL) {
         if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
         GrayString child_rel;
         if (rel[0] == '\0') {
@@ -529,26 +567,36 @@ static void walk_recursive(GrayArena *arena, const char *base, const char *rel,
             child_rel = gray_string_format(arena, "%s/%s", rel, ent->d_name);
         }
         gray_array_push(arena, out, &child_rel);
-        char child_full[GRAY_IO_PATH_BUF];
-        snprintf(child_full, sizeof(child_full), "%s/%s", full, ent->d_name);
         struct stat st;
-        if (stat(child_full, &st) == 0 && S_ISDIR(st.st_mode)) {
-            walk_recursive(arena, base, child_rel.data, out);
+        if (fstatat(dir_fd, ent->d_name, &st, AT_SYMLINK_NOFOLLOW) != 0) {
+            ok = false;
+        } else if (S_ISDIR(st.st_mode)) {
+            int sub = openat(dir_fd, ent->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW | O_CLOEXEC);
+            if (sub < 0 || !walk_recursive(arena, sub, child_rel.data, out)) ok = false;
         }
     }
+    if (errno != 0) ok = false;
     closedir(d);
+    return ok;
+}
+
+/* False if some directory could not be read to its end. */
+static bool io_walk(GrayArena *arena, GrayString path, GrayArray *out) {
+    if (!io_path_ok(path)) return false;
+    int fd = open(path.data, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
+    return fd >= 0 && walk_recursive(arena, fd, "", out);
 }
 
 GrayArray gray_io_walk(GrayArena *arena, GrayString path) {
     GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), GRAY_IO_WALK_INITIAL_CAP);
-    walk_recursive(arena, path.data, "", &arr);
+    (void)io_walk(arena, path, &arr);
     return arr;
 }
 
 GrayArray gray_io_glob(GrayArena *arena, GrayString pattern) {
     GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
     glob_t gl;
-    if (glob(pattern.data, GLOB_NOSORT, NULL, &gl) == 0) {
+    if (io_path_ok(pattern) && glob(pattern.data, GLOB_NOSORT, NULL, &gl) == 0) {
         for (size_t i = 0; i < gl.gl_pathc; i++) {
             GrayString s = gray_string_format(arena, "%s", gl.gl_pathv[i]);
             gray_array_push(arena, &arr, &s);
@@ -689,15 +737,12 @@ GrayResult_bool gray_io_move_file_result(GrayArena *arena, GrayString src, GrayS
 
 GrayResult_array gray_io_list_dir_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    DIR *d = opendir(path.data);
-    if (!d) {
-        r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
+    r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
+    r.v1 = NULL;
+    if (!io_list(arena, path, &r.v0)) {
+        r.v0.len = 0;
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot list directory '%s'", path.data));
-        return r;
     }
-    closedir(d);
-    r.v0 = gray_io_list_dir(arena, path);
-    r.v1 = NULL;
     return r;
 }
 
@@ -751,15 +796,12 @@ GrayResult_bool gray_io_remove_dir_all_result(GrayArena *arena, GrayString path)
 
 GrayResult_array gray_io_walk_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    DIR *d = opendir(path.data);
-    if (!d) {
-        r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
+    r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
+    r.v1 = NULL;
+    if (!io_walk(arena, path, &r.v0)) {
+        r.v0.len = 0;
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot walk directory '%s'", path.data));
-        return r;
     }
-    closedir(d);
-    r.v0 = gray_io_walk(arena, path);
-    r.v1 = NULL;
     return r;
 }
 
@@ -822,7 +864,7 @@ GrayResult_array gray_io_read_lines_result(GrayArena *arena, GrayString path) {
 GrayResult_array gray_io_glob_result(GrayArena *arena, GrayString pattern) {
     GrayResult_array r;
     glob_t gl;
-    int rc = glob(pattern.data, GLOB_NOSORT, NULL, &gl);
+    int rc = io_path_ok(pattern) ? glob(pattern.data, GLOB_NOSORT, NULL, &gl) : GLOB_ABORTED;
     if (rc != 0 && rc != GLOB_NOMATCH) {
         r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena,
-- 
2.43.0


From cbdf61b4b1c7ce113ecc6378e843ff8756c0b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:11:07 +0000
Subject: [PATCH 45/56] fix: threads share no unguarded state and have
 allocation areas of their own

---
 grayc/src/runtime/runtime.c | 57 +++++++++++++++++++++++++++++++++++-
 grayc/src/runtime/runtime.h |  9 +++++-
 grayc/src/stdlib/channels.c | 10 +++++--
 grayc/src/stdlib/math.c     | 11 +++----
 grayc/src/stdlib/os.c       | 12 ++++++--
 grayc/src/stdlib/random.c   |  9 ++++--
 grayc/src/stdlib/threads.c  | 58 ++++++++++++++++++++-----------------
 7 files changed, 122 insertions(+), 44 deletions(-)

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index be95def..90374ba 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -9,6 +9,7 @@
  */
 
 #include "runtime.h"
+#include <pthread.h>
 #include <stdarg.h>
 #include <unistd.h>
 
@@ -255,7 +256,7 @@ void gray_scope_restore(GrayArena *arena, GrayScopeMark mark) {
 }
 
 /* --- Stack depth guard --- */
-int gray_call_depth = 0;
+_Thread_local int gray_call_depth = 0;
 
 /* --- Runtime Init/Shutdown --- */
 
@@ -264,7 +265,61 @@ void gray_runtime_init(void) {
     gray_heap_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
 }
 
+/* Threads other than the first that may still be running. */
+static _Atomic int gray_other_threads = 0;
+
+/* Heap arenas of threads that have ended. What was allocated from them may
+ * still be in use, so they are kept and handed to later threads. */
+static GrayArena **idle_heap_arenas = NULL;
+static int idle_heap_count = 0, idle_heap_cap = 0;
+static pthread_mutex_t idle_heap_lock = PTHREAD_MUTEX_INITIALIZER;
+
+void gray_runtime_thread_starting(void) {
+    gray_other_threads++;
+}
+
+void gray_runtime_thread_cancelled(void) {
+    gray_other_threads--;
+}
+
+void gray_runtime_thread_begin(void) {
+    gray_default_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
+    pthread_mutex_lock(&idle_heap_lock);
+    gray_heap_arena = idle_heap_count > 0 ? idle_heap_arenas[--idle_heap_count] : NULL;
+    pthread_mutex_unlock(&idle_heap_lock);
+    if (!gray_heap_arena) gray_heap_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
+}
+
+void gray_runtime_thread_end(void) {
+    gray_arena_destroy(gray_default_arena, __FILE__, __LINE__);
+    free(gray_default_arena);
+    gray_default_arena = NULL;
+    pthread_mutex_lock(&idle_heap_lock);
+    if (idle_heap_count == idle_heap_cap) {
+        int cap = idle_heap_cap ? idle_heap_cap * 2 : 8;
+        GrayArena **grown = realloc(idle_heap_arenas, sizeof(GrayArena *) * (size_t)cap);
+        if (grown) {
+            idle_heap_arenas = grown;
+            idle_heap_cap = cap;
+        }
+    }
+    if (idle_heap_count < idle_heap_cap) idle_heap_arenas[idle_heap_count++] = gray_heap_arena;
+    pthread_mutex_unlock(&idle_heap_lock);
+    gray_heap_arena = NULL;
+    gray_other_threads--;
+}
+
 void gray_runtime_shutdown(void) {
+    /* Threads that still run go on using what they share. */
+    if (gray_other_threads > 0) return;
+    while (idle_heap_count > 0) {
+        GrayArena *idle = idle_heap_arenas[--idle_heap_count];
+        gray_arena_destroy(idle, __FILE__, __LINE__);
+        free(idle);
+    }
+    free(idle_heap_arenas);
+    idle_heap_arenas = NULL;
+    idle_heap_cap = 0;
     if (gray_default_arena) {
         gray_arena_destroy(gray_default_arena, __FILE__, __LINE__);
         gray_default_arena = NULL;
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index c555d83..eedcfe3 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -51,6 +51,13 @@ extern _Thread_local GrayArena *gray_default_arena;
  * Used by new() so returned pointers are never dangling. */
 extern _Thread_local GrayArena *gray_heap_arena;
 
+/* A thread other than the first: starting is called by the thread that starts
+ * it (cancelled when that fails), begin and end by the thread itself. */
+void gray_runtime_thread_starting(void);
+void gray_runtime_thread_cancelled(void);
+void gray_runtime_thread_begin(void);
+void gray_runtime_thread_end(void);
+
 /* --- String --- */
 
 typedef struct {
@@ -153,7 +160,7 @@ void gray_panic_code_at(const char *file, int line, const char *code, const char
 /* --- Stack depth guard --- */
 
 #define GRAY_MAX_CALL_DEPTH 10000
-extern int gray_call_depth;
+extern _Thread_local int gray_call_depth;
 
 static inline void gray_enter_func(const char *file, int line) {
     if (++gray_call_depth > GRAY_MAX_CALL_DEPTH) {
diff --git a/grayc/src/stdlib/channels.c b/grayc/src/stdlib/channels.c
index 5adcb99..4f4176a 100644
--- a/grayc/src/stdlib/channels.c
+++ b/grayc/src/stdlib/channels.c
@@ -27,7 +27,11 @@ typedef struct {
 GrayChannel gray_channels_open(int64_t capacity) {
     if (capacity < 1) capacity = 1;
     GrayChannelInternal *ch = malloc(sizeof(GrayChannelInternal));
-    ch->buffer = malloc(sizeof(int64_t) * (size_t)capacity);
+    int64_t *buffer = (uint64_t)capacity <= SIZE_MAX / sizeof(int64_t)
+        ? malloc(sizeof(int64_t) * (size_t)capacity) : NULL;
+    if (!ch || !buffer)
+        gray_panic(__FILE__, __LINE__, "channels.open: out of memory for a channel of capacity %lld", (long long)capacity);
+    ch->buffer = buffer;
     ch->capacity = capacity;
     ch->count = 0;
     ch->head = 0;
@@ -43,7 +47,7 @@ GrayChannel gray_channels_open(int64_t capacity) {
 
 void gray_channels_send(GrayChannel handle, int64_t value) {
     GrayChannelInternal *ch = (GrayChannelInternal *)handle._internal;
-    if (!ch || ch->closed) return;
+    if (!ch) return;
 
     pthread_mutex_lock(&ch->mutex);
     while (ch->count == ch->capacity && !ch->closed) {
@@ -82,7 +86,7 @@ int64_t gray_channels_receive(GrayChannel handle) {
 
 bool gray_channels_try_send(GrayChannel handle, int64_t value) {
     GrayChannelInternal *ch = (GrayChannelInternal *)handle._internal;
-    if (!ch || ch->closed) return false;
+    if (!ch) return false;
 
     pthread_mutex_lock(&ch->mutex);
     if (ch->count == ch->capacity || ch->closed) {
diff --git a/grayc/src/stdlib/math.c b/grayc/src/stdlib/math.c
index 9a1cd47..fb4ba45 100644
--- a/grayc/src/stdlib/math.c
+++ b/grayc/src/stdlib/math.c
@@ -9,16 +9,13 @@
  */
 
 #include "math.h"
+#include <pthread.h>
 #include <stdlib.h>
 #include <time.h>
 
-static bool _rand_seeded = false;
-static void ensure_seeded(void) {
-    if (!_rand_seeded) {
-        srand((unsigned int)time(NULL));
-        _rand_seeded = true;
-    }
-}
+static pthread_once_t rand_seeded = PTHREAD_ONCE_INIT;
+static void seed_from_time(void) { srand((unsigned int)time(NULL)); }
+static void ensure_seeded(void) { pthread_once(&rand_seeded, seed_from_time); }
 
 int64_t gray_math_random_int(int64_t min, int64_t max) {
     ensure_seeded();
diff --git a/grayc/src/stdlib/os.c b/grayc/src/stdlib/os.c
index ce23db8..c52de97 100644
--- a/grayc/src/stdlib/os.c
+++ b/grayc/src/stdlib/os.c
@@ -29,6 +29,7 @@
 
 static int _os_argc = 0;
 static char **_os_argv = NULL;
+static pthread_mutex_t os_env_lock = PTHREAD_MUTEX_INITIALIZER;
 
 void gray_os_init(int argc, char **argv) {
     _os_argc = argc;
@@ -52,19 +53,26 @@ static bool os_has_nul(GrayString s) {
 
 GrayString gray_os_get_env(GrayArena *arena, GrayString name) {
     if (os_has_nul(name)) return gray_string_lit("");
+    /* Another thread may change the environment: the value is copied before it can. */
+    pthread_mutex_lock(&os_env_lock);
     const char *val = getenv(name.data);
-    if (!val) return gray_string_lit("");
-    return gray_string_new(arena, val, (int32_t)strlen(val));
+    GrayString out = val ? gray_string_new(arena, val, (int32_t)strlen(val)) : gray_string_lit("");
+    pthread_mutex_unlock(&os_env_lock);
+    return out;
 }
 
 void gray_os_set_env(GrayString name, GrayString value) {
     if (os_has_nul(name) || os_has_nul(value)) return;
+    pthread_mutex_lock(&os_env_lock);
     setenv(name.data, value.data, 1);
+    pthread_mutex_unlock(&os_env_lock);
 }
 
 void gray_os_unset_env(GrayString name) {
     if (os_has_nul(name)) return;
+    pthread_mutex_lock(&os_env_lock);
     unsetenv(name.data);
+    pthread_mutex_unlock(&os_env_lock);
 }
 
 GrayString gray_os_cwd(GrayArena *arena) {
diff --git a/grayc/src/stdlib/random.c b/grayc/src/stdlib/random.c
index cb8c46b..342cb5c 100644
--- a/grayc/src/stdlib/random.c
+++ b/grayc/src/stdlib/random.c
@@ -9,19 +9,22 @@
  */
 
 #include "random.h"
+#include <pthread.h>
 #include <math.h>
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
 
-static bool _seeded = false;
+static pthread_once_t seeded = PTHREAD_ONCE_INIT;
+static void seed_from_time(void) { srand((unsigned)time(NULL)); }
+static void keep_seed(void) {}
 static void ensure_seed(void) {
-    if (!_seeded) { srand((unsigned)time(NULL)); _seeded = true; }
+    pthread_once(&seeded, seed_from_time);
 }
 
 void gray_random_seed(int64_t value) {
+    pthread_once(&seeded, keep_seed);
     srand((unsigned)value);
-    _seeded = true;
 }
 
 /* 64 random bits; RAND_MAX may be as small as 2^31-1 or less. */
diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 73c29ec..f021522 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -15,11 +15,12 @@
 #include <stdatomic.h>
 #include <time.h>
 #include <errno.h>
+#include <string.h>
 
 typedef struct {
     pthread_t pt;
     _Atomic int alive;       /* 1 between entry and exit, 0 otherwise */
-    _Atomic int detached;    /* 1 once detach() has been called */
+    _Atomic int users;       /* the running thread and its handle; the last one frees */
 } GrayThreadInternal;
 
 static _Atomic int64_t gray_threads_live_count = 0;
@@ -32,22 +33,23 @@ typedef struct {
     GrayThreadInternal *state;
 } ThreadArg;
 
+static void release_state(GrayThreadInternal *state) {
+    if (atomic_fetch_sub(&state->users, 1) == 1) free(state);
+}
+
 static void *thread_entry(void *raw) {
     ThreadArg *ta = (ThreadArg *)raw;
     GrayThreadInternal *state = ta->state;
-    gray_default_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
+    gray_runtime_thread_begin();
     if (ta->fn1)
         ta->fn1(ta->arg);
     else
         ta->fn0();
-    gray_arena_destroy(gray_default_arena, __FILE__, __LINE__);
-    free(gray_default_arena);
-    gray_default_arena = NULL;
+    free(ta);
+    gray_runtime_thread_end();
     atomic_fetch_sub(&gray_threads_live_count, 1);
     atomic_store(&state->alive, 0);
-    /* If detached, the state struct's lifetime ends here too. */
-    if (atomic_load(&state->detached)) free(state);
-    free(ta);
+    release_state(state);
     return NULL;
 }
 
@@ -57,29 +59,41 @@ static GrayThread spawn_thread(ThreadArg *ta) {
      * after spawn() returns; otherwise callers race the scheduler. The
      * thread wrapper clears it on exit. */
     atomic_store(&state->alive, 1);
-    atomic_store(&state->detached, 0);
+    atomic_store(&state->users, 2);
     atomic_fetch_add(&gray_threads_live_count, 1);
-    pthread_create(&state->pt, NULL, thread_entry, ta);
+    gray_runtime_thread_starting();
+    int failed = pthread_create(&state->pt, NULL, thread_entry, ta);
+    if (failed) {
+        gray_runtime_thread_cancelled();
+        gray_panic(__FILE__, __LINE__, "threads.spawn: cannot start a thread: %s", strerror(failed));
+    }
     GrayThread t;
     t._internal = state;
     return t;
 }
 
-GrayThread gray_threads_spawn(void (*fn)(void)) {
+static ThreadArg *new_thread_arg(void) {
     ThreadArg *ta = malloc(sizeof(ThreadArg));
+    GrayThreadInternal *state = malloc(sizeof(GrayThreadInternal));
+    if (!ta || !state)
+        gray_panic(__FILE__, __LINE__, "threads.spawn: out of memory");
+    ta->state = state;
+    return ta;
+}
+
+GrayThread gray_threads_spawn(void (*fn)(void)) {
+    ThreadArg *ta = new_thread_arg();
     ta->fn0 = fn;
     ta->fn1 = NULL;
     ta->arg = 0;
-    ta->state = malloc(sizeof(GrayThreadInternal));
     return spawn_thread(ta);
 }
 
 GrayThread gray_threads_spawn_arg(void (*fn)(int64_t), int64_t arg) {
-    ThreadArg *ta = malloc(sizeof(ThreadArg));
+    ThreadArg *ta = new_thread_arg();
     ta->fn0 = NULL;
     ta->fn1 = fn;
     ta->arg = arg;
-    ta->state = malloc(sizeof(GrayThreadInternal));
     return spawn_thread(ta);
 }
 
@@ -87,24 +101,14 @@ void gray_threads_join(GrayThread t) {
     if (!t._internal) return;
     GrayThreadInternal *state = (GrayThreadInternal *)t._internal;
     pthread_join(state->pt, NULL);
-    free(state);
+    release_state(state);
 }
 
 void gray_threads_detach(GrayThread t) {
     if (!t._internal) return;
     GrayThreadInternal *state = (GrayThreadInternal *)t._internal;
-    atomic_store(&state->detached, 1);
-    /* If the thread already exited before detach() was called, the entry
-     * function already saw detached=0 and won't free the struct — free
-     * it here. Otherwise the entry function frees it once it finishes. */
-    if (!atomic_load(&state->alive)) {
-        /* Race-safe: pthread_detach is idempotent for a finished thread,
-         * and we only free in the branch where alive was already 0. */
-        pthread_detach(state->pt);
-        free(state);
-    } else {
-        pthread_detach(state->pt);
-    }
+    pthread_detach(state->pt);
+    release_state(state);
 }
 
 bool gray_threads_is_alive(GrayThread t) {
-- 
2.43.0


From 40ec4051f2a354c30da3ef5139919c0d6fd91090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:34 +0000
Subject: [PATCH 46/56] fix: enums hold every declared value and payload type,
 and foreign variants are rejected

---
 grayc/src/codegen/codegen.c         | 144 ++++++++++++++++++----------
 grayc/src/main.c                    |   7 ++
 grayc/src/parser/parser.c           |   4 +-
 grayc/src/typechecker/typechecker.c |  78 ++++++++++++---
 grayc/src/typechecker/typechecker.h |   1 +
 5 files changed, 167 insertions(+), 67 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 28a8cc6..892e653 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -479,6 +479,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
 static bool is_bigint_type(const char *type_str);
 static const char *bigint_prefix(const char *type_str);
 static bool codegen_enum_is_string(CodeGen *codegen, const char *name);
+static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn) return "int64_t";
     gray_tn = codegen_effective_type_string(codegen, gray_tn);
@@ -487,6 +488,7 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     if (strcmp(gray_tn, "func") == 0 || strncmp(gray_tn, "func(", 5) == 0) return "void *";
     if (is_bigint_type(gray_tn)) return bigint_prefix(gray_tn);
     if (codegen_enum_is_string(codegen, gray_tn)) return "GrayString";
+    if (codegen_enum_is_tagged(codegen, gray_tn)) return gray_type_to_c_codegen(codegen, gray_tn);
     GrayType *type = type_from_name(gray_tn);
     if (!type) return "int64_t";
     switch (type->kind) {
@@ -6670,7 +6672,9 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                 emit_formatted(codegen, ", .data.%s = { ", vname);
                 for (int ai = 0; ai < node->data.call.arg_count; ai++) {
                     if (ai > 0) emit(codegen, ", ");
-                    emit_expression(codegen, node->data.call.args[ai]);
+                    const char *payload_type = ai < decl->data.enum_decl.values[vidx].payload_count
+                        ? decl->data.enum_decl.values[vidx].payload_types[ai] : NULL;
+                    emit_value_as(codegen, payload_type, node->data.call.args[ai]);
                 }
                 emit(codegen, " }");
             }
@@ -6695,7 +6699,9 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                 emit_formatted(codegen, ", .data.%s = { ", vname);
                 for (int ai = 0; ai < node->data.call.arg_count; ai++) {
                     if (ai > 0) emit(codegen, ", ");
-                    emit_expression(codegen, node->data.call.args[ai]);
+                    const char *payload_type = ai < decl->data.enum_decl.values[vidx].payload_count
+                        ? decl->data.enum_decl.values[vidx].payload_types[ai] : NULL;
+                    emit_value_as(codegen, payload_type, node->data.call.args[ai]);
                 }
                 emit(codegen, " }");
             }
@@ -9364,7 +9370,8 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                     emit(codegen, "(");
                     emit(codegen, when_tmp);
                     emit(codegen, neg_step ? " <= " : " >= ");
-                    emit_expression(codegen, range->data.range_expr.start);
+                    if (range->data.range_expr.start) emit_expression(codegen, range->data.range_expr.start);
+                    else emit(codegen, "0");
                     emit(codegen, " && ");
                     emit(codegen, when_tmp);
                     emit(codegen, neg_step ? " > " : " < ");
@@ -9629,6 +9636,65 @@ static bool has_stdlib_module(const char *const *modules, int count, const char
     return false;
 }
 
+/* The definition of a tagged enum: a tag and a union of payload structs. */
+static void emit_tagged_enum_definition(CodeGen *codegen, AstNode *stmt) {
+    const char *ename = stmt->data.enum_decl.name;
+    /* Payload structs (only for variants with payloads) */
+    for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
+        EnumVal *ev = &stmt->data.enum_decl.values[j];
+        if (ev->payload_count > 0) {
+            emit_formatted(codegen, "typedef struct {");
+            for (int k = 0; k < ev->payload_count; k++) {
+                if (k > 0) emit(codegen, "");
+                emit_formatted(codegen, " %s _%d;", gray_type_to_c_codegen(codegen, ev->payload_types[k]), k);
+            }
+            emit_formatted(codegen, " } GrayEnum_%s_Data_%s;\n", ename, ev->name);
+        }
+    }
+
+    /* Tagged union struct */
+    emit_formatted(codegen, "struct GrayEnum_%s {\n", ename);
+    emit_formatted(codegen, "    GrayEnum_%s_Tag tag;\n", ename);
+    /* Only emit union if any variant has a payload */
+    bool has_any_payload = false;
+    for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
+        if (stmt->data.enum_decl.values[j].payload_count > 0) { has_any_payload = true; break; }
+    }
+    if (has_any_payload) {
+        emit_formatted(codegen, "    union {\n");
+        for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
+            EnumVal *ev = &stmt->data.enum_decl.values[j];
+            if (ev->payload_count > 0) {
+                emit_formatted(codegen, "        GrayEnum_%s_Data_%s %s;\n", ename, ev->name, ev->name);
+            }
+        }
+        emit_formatted(codegen, "    } data;\n");
+    }
+    emit(codegen, "};\n\n");
+}
+
+/* Name and value-typed parts of a declaration that becomes a C struct. */
+static const char *composite_name(AstNode *node) {
+    return node->kind == NODE_ENUM_DECL ? node->data.enum_decl.name : node->data.struct_decl.name;
+}
+
+static bool composite_holds(AstNode *node, const char *type_name) {
+    if (node->kind == NODE_ENUM_DECL) {
+        for (int j = 0; j < node->data.enum_decl.value_count; j++) {
+            EnumVal *ev = &node->data.enum_decl.values[j];
+            for (int k = 0; k < ev->payload_count; k++) {
+                if (ev->payload_types[k] && strcmp(ev->payload_types[k], type_name) == 0) return true;
+            }
+        }
+        return false;
+    }
+    for (int j = 0; j < node->data.struct_decl.field_count; j++) {
+        const char *field_type = node->data.struct_decl.fields[j].type_name;
+        if (field_type && strcmp(field_type, type_name) == 0) return true;
+    }
+    return false;
+}
+
 void codegen_generate(CodeGen *codegen, AstNode *program) {
     if (program->kind != NODE_PROGRAM) return;
     codegen->program = program;
@@ -9830,46 +9896,14 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 }
                 emit(codegen, "\n");
             } else if (is_tagged) {
+                /* The tags; the union follows with the structs, since payloads
+                 * may hold structs and structs may hold tagged enums. */
                 const char *ename = stmt->data.enum_decl.name;
-                /* Tag enum */
                 emit_formatted(codegen, "typedef enum {\n");
                 for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
                     emit_formatted(codegen, "    GrayEnum_%s_TAG_%s = %d,\n", ename, stmt->data.enum_decl.values[j].name, j);
                 }
                 emit_formatted(codegen, "} GrayEnum_%s_Tag;\n\n", ename);
-
-                /* Payload structs (only for variants with payloads) */
-                for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                    EnumVal *ev = &stmt->data.enum_decl.values[j];
-                    if (ev->payload_count > 0) {
-                        emit_formatted(codegen, "typedef struct {");
-                        for (int k = 0; k < ev->payload_count; k++) {
-                            if (k > 0) emit(codegen, "");
-                            emit_formatted(codegen, " %s _%d;", gray_type_to_c_codegen(codegen, ev->payload_types[k]), k);
-                        }
-                        emit_formatted(codegen, " } GrayEnum_%s_Data_%s;\n", ename, ev->name);
-                    }
-                }
-
-                /* Tagged union struct */
-                emit_formatted(codegen, "typedef struct {\n");
-                emit_formatted(codegen, "    GrayEnum_%s_Tag tag;\n", ename);
-                /* Only emit union if any variant has a payload */
-                bool has_any_payload = false;
-                for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                    if (stmt->data.enum_decl.values[j].payload_count > 0) { has_any_payload = true; break; }
-                }
-                if (has_any_payload) {
-                    emit_formatted(codegen, "    union {\n");
-                    for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                        EnumVal *ev = &stmt->data.enum_decl.values[j];
-                        if (ev->payload_count > 0) {
-                            emit_formatted(codegen, "        GrayEnum_%s_Data_%s %s;\n", ename, ev->name, ev->name);
-                        }
-                    }
-                    emit_formatted(codegen, "    } data;\n");
-                }
-                emit_formatted(codegen, "} GrayEnum_%s;\n\n", ename);
             } else {
                 bool is_flags = stmt->data.enum_decl.is_flags;
                 emit_formatted(codegen, "typedef enum {\n");
@@ -9880,7 +9914,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                         emit(codegen, " = ");
                         emit_expression(codegen, ev->value);
                     } else if (is_flags) {
-                        emit_formatted(codegen, " = %d", 1 << j);
+                        emit_formatted(codegen, " = %lldLL", (long long)(1ULL << (j & 63)));
                     }
                     /* Non-flags without explicit value: omit `= N` and
                      * let C's enum auto-increment continue from the
@@ -9900,15 +9934,22 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         int struct_count = 0;
         AstNode *structs[MAX_STRUCT_DECLS];
         for (int i = 0; i < program->data.program.stmt_count; i++) {
-            if (program->data.program.stmts[i]->kind == NODE_STRUCT_DECL &&
+            AstNode *stmt = program->data.program.stmts[i];
+            if ((stmt->kind == NODE_STRUCT_DECL ||
+                 (stmt->kind == NODE_ENUM_DECL && stmt->data.enum_decl.is_tagged)) &&
                 struct_count < MAX_STRUCT_DECLS) {
-                structs[struct_count++] = program->data.program.stmts[i];
+                structs[struct_count++] = stmt;
             }
         }
 
         /* Emit forward declarations so pointer fields can reference any struct.
          * Skip generic structs; their forward decls are per-instantiation. */
         for (int i = 0; i < struct_count; i++) {
+            if (structs[i]->kind == NODE_ENUM_DECL) {
+                emit_formatted(codegen, "typedef struct GrayEnum_%s GrayEnum_%s;\n",
+                    composite_name(structs[i]), composite_name(structs[i]));
+                continue;
+            }
             if (structs[i]->data.struct_decl.is_generic) continue;
             emit_formatted(codegen, "typedef struct GrayStruct_%s GrayStruct_%s;\n",
                 structs[i]->data.struct_decl.name,
@@ -9924,22 +9965,17 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 if (emitted[i]) continue;
                 AstNode *struct_node = structs[i];
                 bool deps_met = true;
-                for (int j = 0; j < struct_node->data.struct_decl.field_count; j++) {
-                    const char *field_type = struct_node->data.struct_decl.fields[j].type_name;
-                    if (!field_type) continue;
-                    /* Check if this field type is another user struct */
-                    for (int k = 0; k < struct_count; k++) {
-                        if (k != i && !emitted[k] &&
-                            strcmp(structs[k]->data.struct_decl.name, field_type) == 0) {
-                            deps_met = false;
-                            break;
-                        }
-                    }
-                    if (!deps_met) break;
+                for (int k = 0; k < struct_count && deps_met; k++) {
+                    if (k != i && !emitted[k] && composite_holds(struct_node, composite_name(structs[k])))
+                        deps_met = false;
                 }
                 if (deps_met) {
                     emitted[i] = true;
                     emit_count++;
+                    if (struct_node->kind == NODE_ENUM_DECL) {
+                        emit_tagged_enum_definition(codegen, struct_node);
+                        continue;
+                    }
                     /* : skip generic structs here; they're
                      * emitted per-instantiation below. */
                     if (struct_node->data.struct_decl.is_generic) continue;
@@ -9956,6 +9992,10 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         for (int i = 0; i < struct_count; i++) {
             if (!emitted[i]) {
                 AstNode *struct_node = structs[i];
+                if (struct_node->kind == NODE_ENUM_DECL) {
+                    emit_tagged_enum_definition(codegen, struct_node);
+                    continue;
+                }
                 emit_formatted(codegen, "struct GrayStruct_%s {\n", struct_node->data.struct_decl.name);
                 for (int j = 0; j < struct_node->data.struct_decl.field_count; j++) {
                     StructField *field = &struct_node->data.struct_decl.fields[j];
diff --git a/grayc/src/main.c b/grayc/src/main.c
index e9780e6..293f6a9 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -1470,6 +1470,13 @@ int main(int argc, char **argv) {
                         char *prefixed = arena_alloc(arena, MSG_BUF_SIZE);
                         snprintf(prefixed, MSG_BUF_SIZE, "%s_%s", mod_name, imp_stmt->data.enum_decl.name);
                         imp_stmt->data.enum_decl.name = prefixed;
+                        for (int vi = 0; vi < imp_stmt->data.enum_decl.value_count; vi++) {
+                            EnumVal *ev = &imp_stmt->data.enum_decl.values[vi];
+                            for (int pi = 0; pi < ev->payload_count; pi++) {
+                                ev->payload_types[pi] = rewrite_type_name(
+                                    ev->payload_types[pi], orig_names, new_names, name_count, arena);
+                            }
+                        }
                     }
 
                     /* Insert into main program BEFORE existing declarations.
diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 69b7ef5..9e25151 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -2521,7 +2521,9 @@ static AstNode *parse_enum_declaration(Parser *parser) {
                     memcpy(new_pt, ev->payload_types, sizeof(const char *) * ev->payload_count);
                     ev->payload_types = new_pt;
                 }
-                ev->payload_types[ev->payload_count++] = parser->cur_token.literal;
+                const char *payload_type = parse_complex_type(parser);
+                if (!payload_type) break;
+                ev->payload_types[ev->payload_count++] = payload_type;
                 next_token(parser);
                 if (current_token_is(parser, TOK_COMMA)) next_token(parser);
             }
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index cf51b6f..ce27e57 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -311,6 +311,15 @@ static int find_enum_index(TypeChecker *checker, const char *name) {
     return checker->enum_names_sorted_indices[hit - checker->enum_names_sorted];
 }
 
+/* Whether two enum names mean one enum, either of them perhaps written
+ * without the prefix of the module that declares it. */
+static bool same_enum_name(const char *a, const char *b) {
+    size_t alen = strlen(a), blen = strlen(b);
+    if (alen == blen) return strcmp(a, b) == 0;
+    if (alen < blen) return same_enum_name(b, a);
+    return alen > blen && a[alen - blen - 1] == '_' && strcmp(a + alen - blen, b) == 0;
+}
+
 static bool is_enum_name(TypeChecker *checker, const char *name) {
     if (checker->enum_count == 0) return false;
     enum_ensure_sorted(checker);
@@ -2254,6 +2263,18 @@ static void emit_unknown_stdlib_function(TypeChecker *checker, const char *mod,
     diagnostic_error_code_formatted(checker->diag, "E4005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, mod, mfn);
 }
 
+/* E3113: a variant with a payload is not a value without its payload; only
+ * a when case may name it alone. */
+static void require_payload(TypeChecker *checker, AstNode *node, int enum_index, int variant_index) {
+    int count = checker->enum_is_tagged[enum_index]
+        ? checker->enum_payload_counts[enum_index][variant_index] : 0;
+    if (count == 0 || checker->in_when_case) return;
+    diagnostic_error_code_formatted(checker->diag, "E3113", NODE_FILE(checker, node),
+        node->token.line, node->token.column, 0,
+        checker->enum_values[enum_index][variant_index],
+        checker->enum_display_names[enum_index], count, 0);
+}
+
 /* Resolve .VARIANT implicit enum selector using expected type context.
  * Sets node->data.implicit_enum.resolved_enum on success. */
 static GrayType *resolve_implicit_enum(TypeChecker *checker, AstNode *node) {
@@ -2277,6 +2298,7 @@ static GrayType *resolve_implicit_enum(TypeChecker *checker, AstNode *node) {
             for (int variant_index = 0; variant_index < checker->enum_value_counts[enum_index]; variant_index++) {
                 if (strcmp(checker->enum_values[enum_index][variant_index], variant) == 0) {
                     found = true;
+                    require_payload(checker, node, enum_index, variant_index);
                     break;
                 }
             }
@@ -3646,8 +3668,6 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                 if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                     arg_t->kind != param_t->kind &&
                     !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                    !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                    !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
                     !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                     !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                     char *msg = NULL;
@@ -3937,8 +3957,6 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != param_t->kind &&
                                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                                !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                                !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
                                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                                 char amsg[MSG_BUF_SIZE];
@@ -4078,8 +4096,6 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != param_t->kind &&
                                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                                !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                                !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
                                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                                 char amsg[MSG_BUF_SIZE];
@@ -4914,8 +4930,6 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
             if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                 arg_t->kind != param_t->kind &&
                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                 char *msg = NULL;
@@ -5318,6 +5332,13 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
     return result;
 }
 
+/* .VARIANT or .VARIANT(payload) */
+static bool is_implicit_enum_value(AstNode *node) {
+    return node->kind == NODE_IMPLICIT_ENUM ||
+        (node->kind == NODE_CALL_EXPR && node->data.call.function &&
+         node->data.call.function->kind == NODE_IMPLICIT_ENUM);
+}
+
 static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
     GrayType *result = &TYPE_UNKNOWN;
     /* Resolve argument types first. Skip the argument of ref()
@@ -5334,7 +5355,7 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
         }
         /* Skip implicit enum nodes; they need expected_type context
          * from the function signature, which is resolved later. */
-        if (node->data.call.args[i]->kind == NODE_IMPLICIT_ENUM)
+        if (is_implicit_enum_value(node->data.call.args[i]))
             continue;
         resolve_expression(checker, node->data.call.args[i]);
 
@@ -5411,7 +5432,8 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
      * the specific branches below won't traverse the function expression,
      * leaving its subtree untyped and breaking codegen paths that rely on
      * typetable lookups. Resolve it here so those subtrees get populated. */
-    if (fn && fn->kind != NODE_LABEL && fn->kind != NODE_MEMBER_EXPR) {
+    if (fn && fn->kind != NODE_LABEL && fn->kind != NODE_MEMBER_EXPR &&
+        fn->kind != NODE_IMPLICIT_ENUM) {
         resolve_expression(checker, fn);
     }
 
@@ -5514,8 +5536,10 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
                         diagnostic_error_code_formatted(checker->diag, "E3113", NODE_FILE(checker, node), node->token.line, node->token.column, 0, vname, checker->enum_display_names[eidx], expected_pc, provided_argument_count);
                     } else {
                         for (int argument_index = 0; argument_index < provided_argument_count; argument_index++) {
-                            GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             GrayType *exp_t = typechecker_type_from_name(checker, checker->enum_payload_types[eidx][vidx][argument_index]);
+                            if (exp_t && exp_t->kind == TK_ENUM) checker->expected_type = exp_t;
+                            GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
+                            checker->expected_type = et;
                             if (arg_t && exp_t &&
                                 arg_t->kind != TK_UNKNOWN && exp_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != exp_t->kind &&
@@ -6327,6 +6351,7 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
                     for (int variant_index = 0; variant_index < checker->enum_value_counts[enum_index]; variant_index++) {
                         if (strcmp(checker->enum_values[enum_index][variant_index], member) == 0) {
                             member_found = true;
+                            require_payload(checker, node, enum_index, variant_index);
                             break;
                         }
                     }
@@ -7252,10 +7277,24 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
     }
 
     case NODE_MAP_VALUE: {
+        /* If expected_type is a map over enums, propagate the key and value
+         * types for .VARIANT */
+        GrayType *saved_map_expected = checker->expected_type;
+        GrayType *expected_key = NULL, *expected_value = NULL;
+        if (saved_map_expected && saved_map_expected->kind == TK_MAP) {
+            if (saved_map_expected->key_type)
+                expected_key = typechecker_type_from_name(checker, saved_map_expected->key_type);
+            if (saved_map_expected->value_type)
+                expected_value = typechecker_type_from_name(checker, saved_map_expected->value_type);
+        }
         /* Resolve key and value types */
         for (int i = 0; i < node->data.map_value.count; i++) {
+            if (expected_key && expected_key->kind == TK_ENUM) checker->expected_type = expected_key;
             GrayType *kt = resolve_expression(checker, node->data.map_value.keys[i]);
+            checker->expected_type = saved_map_expected;
+            if (expected_value && expected_value->kind == TK_ENUM) checker->expected_type = expected_value;
             GrayType *vt = resolve_expression(checker, node->data.map_value.values[i]);
+            checker->expected_type = saved_map_expected;
             /* : void can't be a map key or value. */
             reject_void_in_context(checker, node->data.map_value.keys[i], kt, "map key");
             reject_void_in_context(checker, node->data.map_value.values[i], vt, "map value");
@@ -8144,7 +8183,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 GrayType *elem_t = typechecker_type_from_name(checker, declared->element_type);
                 if (elem_t && elem_t->kind == TK_ENUM)
                     checker->expected_type = declared;
-            }
+            } else if (declared->kind == TK_MAP)
+                checker->expected_type = declared;
             GrayType *value_type = resolve_expression(checker, node->data.var_decl.value);
             checker->expected_type = saved_expected;
             /* : when a func-pointer call returns TK_UNKNOWN but
@@ -10738,9 +10778,14 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                         if (when_t && when_t->kind == TK_ENUM && when_t->name)
                             ename = when_t->name;
                     } else {
-                        /* For explicit form Variant(x), resolve from scrutinee type */
+                        /* For explicit form Enum.Variant(x), the enum is the scrutinee's */
                         if (when_t && when_t->kind == TK_ENUM && when_t->name)
                             ename = when_t->name;
+                        const char *written = val_i->data.when_pattern.enum_name;
+                        if (ename && written && !same_enum_name(ename, written)) {
+                            diagnostic_error_code_formatted(checker->diag, "E3018", NODE_FILE(checker, val_i), val_i->token.line, val_i->token.column, 0, type_display_name(checker, when_t), written);
+                            continue;
+                        }
                     }
                     if (ename) {
                         val_i->data.when_pattern.enum_name = ename;
@@ -10766,14 +10811,19 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     }
                     continue;
                 }
+                bool saved_in_when_case = checker->in_when_case;
+                checker->in_when_case = val_i->kind == NODE_MEMBER_EXPR || val_i->kind == NODE_IMPLICIT_ENUM;
                 GrayType *case_t = resolve_expression(checker, val_i);
+                checker->in_when_case = saved_in_when_case;
                 /* Check case value type matches scrutinee; skip range exprs and unknowns */
                 if (when_t && case_t &&
                     when_t->kind != TK_UNKNOWN && case_t->kind != TK_UNKNOWN &&
                     val_i->kind != NODE_RANGE_EXPR &&
                     !(val_i->kind == NODE_CALL_EXPR && val_i->data.call.function->kind == NODE_LABEL &&
                       strcmp(val_i->data.call.function->data.label.value, "range") == 0)) {
-                    bool compat = (when_t->kind == case_t->kind) ||
+                    bool foreign_enum = when_t->kind == TK_ENUM && case_t->kind == TK_ENUM &&
+                        when_t->name && case_t->name && !same_enum_name(when_t->name, case_t->name);
+                    bool compat = (when_t->kind == case_t->kind && !foreign_enum) ||
                         (is_int_kind(when_t->kind) && is_int_kind(case_t->kind)) ||
                         (is_int_kind(when_t->kind) && case_t->kind == TK_ENUM) ||
                         (when_t->kind == TK_ENUM && is_int_kind(case_t->kind)) ||
diff --git a/grayc/src/typechecker/typechecker.h b/grayc/src/typechecker/typechecker.h
index dbfc21a..0fb52c4 100644
--- a/grayc/src/typechecker/typechecker.h
+++ b/grayc/src/typechecker/typechecker.h
@@ -176,6 +176,7 @@ typedef struct {
      * known (assignments, function args, when/is, comparisons, returns).
      * Cleared after use to prevent stale context. */
     GrayType *expected_type;
+    bool in_when_case;             /* a variant may stand for itself, without its payload */
 
     /* Type-level generic parameters (<?> syntax).
      * type_param_name is the parameter name (e.g. "T") during body check.
-- 
2.43.0


From bc20a983c4feb63d6503762f9027e7ab3f84a746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:48 +0000
Subject: [PATCH 47/56] fix: what is reached through an immutable or private
 name is immutable or private too

Names of imported modules no longer replace the importing file's own
declarations, variables and parameters, and mod.Enum.VARIANT has the
type of the enum.
---
 grayc/src/main.c                    | 113 ++++++++++--
 grayc/src/typechecker/scope.h       |   1 +
 grayc/src/typechecker/typechecker.c | 265 ++++++++++++----------------
 3 files changed, 208 insertions(+), 171 deletions(-)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 293f6a9..101df3f 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -355,10 +355,51 @@ static const char *rewrite_type_name(const char *t,
     return t;
 }
 
+static void rewrite_labels(AstNode *node, const char **orig, const char **prefixed, int count, Arena *arena);
+
+/* The variables and parameters in scope where labels are being rewritten:
+ * they come before declarations of the module with the same name. */
+static const char **local_names = NULL;
+static int local_name_count = 0;
+static int local_name_cap = 0;
+
+static void add_local_name(const char *name) {
+    if (!name) return;
+    if (local_name_count >= local_name_cap) {
+        local_name_cap = local_name_cap ? local_name_cap * 2 : 64;
+        local_names = xrealloc(local_names, sizeof(const char *) * local_name_cap);
+    }
+    local_names[local_name_count++] = name;
+}
+
+static bool is_local_name(const char *name) {
+    for (int i = 0; i < local_name_count; i++) {
+        if (strcmp(local_names[i], name) == 0) return true;
+    }
+    return false;
+}
+
+static void rewrite_labels_scoped(AstNode *node, const char **orig, const char **prefixed, int count, Arena *arena) {
+    int outer = local_name_count;
+    rewrite_labels(node, orig, prefixed, count, arena);
+    local_name_count = outer;
+}
+
+static void rewrite_function_body(AstNode *fn, const char **orig, const char **prefixed, int count, Arena *arena) {
+    int outer = local_name_count;
+    for (int i = 0; i < fn->data.func_decl.param_count; i++)
+        add_local_name(fn->data.func_decl.params[i].name);
+    for (int i = 0; fn->data.func_decl.return_names && i < fn->data.func_decl.return_type_count; i++)
+        add_local_name(fn->data.func_decl.return_names[i]);
+    rewrite_labels(fn->data.func_decl.body, orig, prefixed, count, arena);
+    local_name_count = outer;
+}
+
 /* Rewrite labels in an AST tree: replace unprefixed names with prefixed versions */
 static void rewrite_labels(AstNode *node, const char **orig, const char **prefixed, int count, Arena *arena) {
     if (!node) return;
     if (node->kind == NODE_LABEL) {
+        if (is_local_name(node->data.label.value)) return;
         for (int i = 0; i < count; i++) {
             if (strcmp(node->data.label.value, orig[i]) == 0) {
                 node->data.label.value = prefixed[i];
@@ -367,6 +408,7 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
         }
         return;
     }
+    int outer; /* names that are local outside the node being entered */
     /* Recurse into child nodes */
     switch (node->kind) {
     case NODE_PREFIX_EXPR: rewrite_labels(node->data.prefix.right, orig, prefixed, count, arena); break;
@@ -394,6 +436,7 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
             }
         }
         rewrite_labels(node->data.var_decl.value, orig, prefixed, count, arena);
+        add_local_name(node->data.var_decl.name);
         break;
     case NODE_ASSIGN_STMT:
         rewrite_labels(node->data.assign.target, orig, prefixed, count, arena);
@@ -402,10 +445,10 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
     case NODE_IF_STMT:
         rewrite_labels(node->data.if_stmt.condition, orig, prefixed, count, arena);
         if (node->data.if_stmt.consequence) {
-            rewrite_labels(node->data.if_stmt.consequence, orig, prefixed, count, arena);
+            rewrite_labels_scoped(node->data.if_stmt.consequence, orig, prefixed, count, arena);
         }
         if (node->data.if_stmt.alternative) {
-            rewrite_labels(node->data.if_stmt.alternative, orig, prefixed, count, arena);
+            rewrite_labels_scoped(node->data.if_stmt.alternative, orig, prefixed, count, arena);
         }
         break;
     case NODE_BLOCK_STMT:
@@ -427,18 +470,25 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
         break;
     case NODE_FOR_STMT:
         rewrite_labels(node->data.for_stmt.iterable, orig, prefixed, count, arena);
+        outer = local_name_count;
+        add_local_name(node->data.for_stmt.var_name);
         rewrite_labels(node->data.for_stmt.body, orig, prefixed, count, arena);
+        local_name_count = outer;
         break;
     case NODE_FOR_EACH_STMT:
         rewrite_labels(node->data.for_each.collection, orig, prefixed, count, arena);
+        outer = local_name_count;
+        add_local_name(node->data.for_each.index_name);
+        add_local_name(node->data.for_each.var_name);
         rewrite_labels(node->data.for_each.body, orig, prefixed, count, arena);
+        local_name_count = outer;
         break;
     case NODE_WHILE_STMT:
         rewrite_labels(node->data.while_stmt.condition, orig, prefixed, count, arena);
-        rewrite_labels(node->data.while_stmt.body, orig, prefixed, count, arena);
+        rewrite_labels_scoped(node->data.while_stmt.body, orig, prefixed, count, arena);
         break;
     case NODE_LOOP_STMT:
-        rewrite_labels(node->data.loop_stmt.body, orig, prefixed, count, arena);
+        rewrite_labels_scoped(node->data.loop_stmt.body, orig, prefixed, count, arena);
         break;
     case NODE_INTERPOLATED_STRING:
         for (int i = 0; i < node->data.interpolated_string.part_count; i++)
@@ -463,10 +513,17 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
             WhenCase *wc = &node->data.when_stmt.cases[i];
             for (int j = 0; j < wc->value_count; j++)
                 rewrite_labels(wc->values[j], orig, prefixed, count, arena);
+            outer = local_name_count;
+            for (int j = 0; j < wc->value_count; j++) {
+                if (wc->values[j]->kind != NODE_WHEN_PATTERN) continue;
+                for (int k = 0; k < wc->values[j]->data.when_pattern.binding_count; k++)
+                    add_local_name(wc->values[j]->data.when_pattern.bindings[k]);
+            }
             rewrite_labels(wc->body, orig, prefixed, count, arena);
+            local_name_count = outer;
         }
         if (node->data.when_stmt.default_body)
-            rewrite_labels(node->data.when_stmt.default_body, orig, prefixed, count, arena);
+            rewrite_labels_scoped(node->data.when_stmt.default_body, orig, prefixed, count, arena);
         break;
     case NODE_ENSURE_STMT:
         rewrite_labels(node->data.ensure_stmt.expr, orig, prefixed, count, arena);
@@ -521,7 +578,7 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
                 }
             }
         }
-        rewrite_labels(node->data.func_decl.body, orig, prefixed, count, arena);
+        rewrite_function_body(node, orig, prefixed, count, arena);
         break;
     case NODE_ARRAY_VALUE:
         for (int i = 0; i < node->data.array_value.count; i++)
@@ -537,6 +594,17 @@ static void rewrite_labels(AstNode *node, const char **orig, const char **prefix
     }
 }
 
+/* The name a file-scope statement declares, or NULL */
+static const char *declared_name(const AstNode *stmt) {
+    switch (stmt->kind) {
+    case NODE_FUNC_DECL:   return stmt->data.func_decl.name;
+    case NODE_VAR_DECL:    return stmt->data.var_decl.name;
+    case NODE_STRUCT_DECL: return stmt->data.struct_decl.name;
+    case NODE_ENUM_DECL:   return stmt->data.enum_decl.name;
+    default:               return NULL;
+    }
+}
+
 /* Import cache: track already-imported files to avoid duplicates and cycles.
  * Open-addressing hash set keyed on canonical file path. */
 
@@ -1098,6 +1166,7 @@ int main(int argc, char **argv) {
                 /* Combined name mapping across all files in this import */
                 const char *orig_names[MAX_IMPORTS];
                 const char *new_names[MAX_IMPORTS];
+                bool hidden[MAX_IMPORTS] = {false}; /* private to the module */
                 int name_count = 0;
 
                 /* Parse pass: parse each file, collect names, inject transitive imports */
@@ -1283,13 +1352,11 @@ int main(int argc, char **argv) {
                     /* Collect declaration names from this file into the combined mapping */
                     for (int mi = 0; mi < imp_program->data.program.stmt_count; mi++) {
                         AstNode *s = imp_program->data.program.stmts[mi];
-                        const char *oname = NULL;
-                        if (s->kind == NODE_FUNC_DECL) oname = s->data.func_decl.name;
-                        else if (s->kind == NODE_VAR_DECL) oname = s->data.var_decl.name;
-                        else if (s->kind == NODE_STRUCT_DECL) oname = s->data.struct_decl.name;
-                        else if (s->kind == NODE_ENUM_DECL) oname = s->data.enum_decl.name;
+                        const char *oname = declared_name(s);
                         if (oname && name_count < MAX_IMPORTS) {
                             orig_names[name_count] = oname;
+                            hidden[name_count] = (s->kind == NODE_FUNC_DECL && s->data.func_decl.is_private) ||
+                                (s->kind == NODE_VAR_DECL && s->data.var_decl.is_private);
                             char *pn = arena_alloc(arena, MSG_BUF_SIZE);
                             snprintf(pn, MSG_BUF_SIZE, "%s_%s", mod_name, oname);
                             new_names[name_count] = pn;
@@ -1368,7 +1435,6 @@ int main(int argc, char **argv) {
                         char *prefixed = arena_alloc(arena, MSG_BUF_SIZE);
                         snprintf(prefixed, MSG_BUF_SIZE, "%s_%s", mod_name, imp_stmt->data.var_decl.name);
                         imp_stmt->data.var_decl.name = prefixed;
-                        imp_stmt->data.var_decl.is_private = true;
                     }
                     /* Rewrite initializer expressions */
                     rewrite_labels(imp_stmt->data.var_decl.value, orig_names, new_names, name_count, arena);
@@ -1413,7 +1479,7 @@ int main(int argc, char **argv) {
                         snprintf(prefixed, MSG_BUF_SIZE, "%s_%s", mod_name, imp_stmt->data.func_decl.name);
                         imp_stmt->data.func_decl.name = prefixed;
                         /* Rewrite internal references in function body */
-                        rewrite_labels(imp_stmt->data.func_decl.body, orig_names, new_names, name_count, arena);
+                        rewrite_function_body(imp_stmt, orig_names, new_names, name_count, arena);
                         /* Rewrite return type references */
                         for (int ri = 0; ri < imp_stmt->data.func_decl.return_type_count; ri++) {
                             imp_stmt->data.func_decl.return_types[ri] = rewrite_type_name(
@@ -1447,7 +1513,7 @@ int main(int argc, char **argv) {
                             AstNode *fn = imp_stmt->data.struct_decl.funcs[si].func_decl;
                             if (!fn || fn->kind != NODE_FUNC_DECL) continue;
                             /* Rewrite function body labels */
-                            rewrite_labels(fn->data.func_decl.body, orig_names, new_names, name_count, arena);
+                            rewrite_function_body(fn, orig_names, new_names, name_count, arena);
                             /* Rewrite return types */
                             for (int ri = 0; ri < fn->data.func_decl.return_type_count; ri++) {
                                 fn->data.func_decl.return_types[ri] = rewrite_type_name(
@@ -1513,9 +1579,24 @@ int main(int argc, char **argv) {
                  * Imported nodes are already rewritten inline above; only the
                  * original main-file nodes need updating here. Using the snapshot
                  * avoids re-walking all previously merged imports on every pass. */
+                int visible_count = 0;
+                for (int ni = 0; ni < name_count; ni++) {
+                    /* What the main file declares itself comes first, and
+                     * private names are not visible outside their module. */
+                    if (hidden[ni]) continue;
+                    bool own = false;
+                    for (int si = 0; si < main_stmt_snapshot_count && !own; si++) {
+                        const char *oname = declared_name(main_stmt_snapshot[si]);
+                        own = oname && strcmp(oname, orig_names[ni]) == 0;
+                    }
+                    if (own) continue;
+                    orig_names[visible_count] = orig_names[ni];
+                    new_names[visible_count] = new_names[ni];
+                    visible_count++;
+                }
                 for (int si = 0; si < main_stmt_snapshot_count; si++) {
-                    rewrite_labels(main_stmt_snapshot[si],
-                        orig_names, new_names, name_count, arena);
+                    rewrite_labels_scoped(main_stmt_snapshot[si],
+                        orig_names, new_names, visible_count, arena);
                 }
 
                 /* Mark this import item as fully processed. */
diff --git a/grayc/src/typechecker/scope.h b/grayc/src/typechecker/scope.h
index ee4623e..629f980 100644
--- a/grayc/src/typechecker/scope.h
+++ b/grayc/src/typechecker/scope.h
@@ -23,6 +23,7 @@ typedef struct {
     int def_column;      /* column where variable was defined */
     GrayType **ret_types;  /* for multi-return temps: all return types */
     int ret_count;       /* number of return types */
+    bool is_private;     /* declared 'private' in its module */
     bool ret_types_owned;  /* true if ret_types was xmalloc'd by the typechecker */
     const char *func_ref_name; /* for func-typed vars: name of the referenced
                                   function, used for call-site arity/type
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index ce27e57..9ba6a81 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -192,24 +192,6 @@ static bool is_assignment_target(AstNode *e) {
     }
 }
 
-/* Walk an assignment target expression chain and return the root variable name.
- * Returns NULL if the chain passes through a pointer dereference (^),
- * because the pointed-to memory is independent of the pointer variable's
- * mutability. */
-static const char *assignment_target_root_name(AstNode *e) {
-    if (!e) return NULL;
-    switch (e->kind) {
-    case NODE_LABEL:       return e->data.label.value;
-    case NODE_MEMBER_EXPR: return assignment_target_root_name(e->data.member.object);
-    case NODE_INDEX_EXPR:  return assignment_target_root_name(e->data.index_expr.left);
-    case NODE_POSTFIX_EXPR:
-        if (e->data.postfix.op == TOK_CARET)
-            return NULL; /* pointer deref: memory is not the const variable */
-        return NULL;
-    default: return NULL;
-    }
-}
-
 /* True if the access path contains a map index, e.g. ref(m["k"]) or
  * ref(m["k"].field) or ref(rows[i].cells["k"]). Map values relocate on
  * rehash so a pointer to one is unsafe. */
@@ -2318,6 +2300,43 @@ static GrayType *resolve_implicit_enum(TypeChecker *checker, AstNode *node) {
     return type_enum(enum_name);
 }
 
+/* The immutable variable, parameter or constant that a change made through
+ * this place would change, or NULL. What a pointer points to does not share
+ * the mutability of the variable that holds the pointer. */
+static const char *immutable_root(TypeChecker *checker, AstNode *place) {
+    if (!place) return NULL;
+    if (place->kind == NODE_LABEL) {
+        Symbol *sym = scope_lookup(checker->current_scope, place->data.label.value);
+        return sym && !sym->mutable ? place->data.label.value : NULL;
+    }
+    AstNode *base = place->kind == NODE_MEMBER_EXPR ? place->data.member.object
+        : place->kind == NODE_INDEX_EXPR ? place->data.index_expr.left : NULL;
+    if (!base) return NULL;
+    if (base->kind == NODE_LABEL && place->kind == NODE_MEMBER_EXPR &&
+        !scope_lookup(checker->current_scope, base->data.label.value)) {
+        /* module.NAME */
+        char prefixed[MSG_BUF_SIZE];
+        snprintf(prefixed, sizeof(prefixed), "%s_%s",
+            typechecker_resolve_alias(checker, base->data.label.value), place->data.member.member);
+        Symbol *sym = scope_lookup(checker->current_scope, prefixed);
+        return sym && !sym->mutable ? place->data.member.member : NULL;
+    }
+    GrayType *base_type = resolve_expression(checker, base);
+    if (base_type && base_type->kind == TK_POINTER) return NULL;
+    return immutable_root(checker, base);
+}
+
+/* E5007: library functions that change their first argument in place */
+static void check_changed_argument(TypeChecker *checker, AstNode *node, const char *what) {
+    if (node->data.call.arg_count == 0) return;
+    const char *root = immutable_root(checker, node->data.call.args[0]);
+    if (root) {
+        diagnostic_error_code_formatted(checker->diag, "E5007",
+            NODE_FILE(checker, node), node->token.line, node->token.column, 0,
+            what, root);
+    }
+}
+
 /* E3027: validate that an argument passed to a mutable (&) parameter is a
  * mutable assignment target. Emits a diagnostic and returns if the argument
  * is a constant variable, an enum constant, or a literal/expression. */
@@ -2336,15 +2355,15 @@ static void check_mutable_arg(TypeChecker *checker, AstNode *arg, GrayType *para
         diagnostic_error_message(checker->diag, "E3001", msg,
             NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
     }
-    if (arg->kind == NODE_LABEL) {
-        Symbol *sym = scope_lookup(checker->current_scope, arg->data.label.value);
-        if (sym && !sym->mutable) {
-            char *msg = typechecker_format(checker,
-                "cannot pass constant '%s' to %s of '%s'",
-                sym->name, param_desc, func_display);
-            diagnostic_error_message(checker->diag, "E3027", msg,
-                NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
-        }
+    const char *root = immutable_root(checker, arg);
+    if (root) {
+        char *msg = typechecker_format(checker,
+            "cannot pass constant '%s' to %s of '%s'",
+            root, param_desc, func_display);
+        diagnostic_error_message(checker->diag, "E3027", msg,
+            NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+    } else if (arg->kind == NODE_LABEL) {
+        /* any mutable variable */
     } else if (arg->kind == NODE_MEMBER_EXPR &&
                arg->data.member.object->kind == NODE_LABEL &&
                is_enum_name(checker, arg->data.member.object->data.label.value)) {
@@ -2563,15 +2582,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
         /* E5007: mutating map functions on const map */
         if ((strcmp(mfn, "clear") == 0 || strcmp(mfn, "remove_key") == 0) &&
             node->data.call.arg_count > 0) {
-            AstNode *arg0 = node->data.call.args[0];
-            if (arg0->kind == NODE_LABEL) {
-                Symbol *sym = scope_lookup(checker->current_scope, arg0->data.label.value);
-                if (sym && !sym->mutable) {
-                    diagnostic_error_code_formatted(checker->diag, "E5007",
-                        NODE_FILE(checker, node), node->token.line, node->token.column, 0,
-                        "map", arg0->data.label.value);
-                }
-            }
+            check_changed_argument(checker, node, "map");
         }
     } else if (strcmp(mod, "io") == 0) {
         /* Fallible I/O: the type checker returns the primary value type.
@@ -2906,15 +2917,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
              strcmp(mfn, "sort_asc") == 0 || strcmp(mfn, "sort_desc") == 0 ||
              strcmp(mfn, "clear") == 0) &&
             node->data.call.arg_count > 0) {
-            AstNode *arg0 = node->data.call.args[0];
-            if (arg0->kind == NODE_LABEL) {
-                Symbol *sym = scope_lookup(checker->current_scope, arg0->data.label.value);
-                if (sym && !sym->mutable) {
-                    diagnostic_error_code_formatted(checker->diag, "E5007",
-                        NODE_FILE(checker, node), node->token.line, node->token.column, 0,
-                        "array", arg0->data.label.value);
-                }
-            }
+            check_changed_argument(checker, node, "array");
         }
         /* E3001: arrays.append/prepend/insert_at element type mismatch */
         {
@@ -4172,13 +4175,10 @@ static GrayType *resolve_builtin_call(TypeChecker *checker, AstNode *node, const
         }
         /* E3122: addr() of a const variable would allow mutation
          * through the resulting pointer, bypassing immutability. */
-        const char *root = assignment_target_root_name(arg);
+        const char *root = immutable_root(checker, arg);
         if (root) {
-            Symbol *sym = scope_lookup(checker->current_scope, root);
-            if (sym && !sym->mutable) {
-                diagnostic_error_code_formatted(checker->diag, "E3122", NODE_FILE(checker, node),
-                    node->token.line, node->token.column, 0, root);
-            }
+            diagnostic_error_code_formatted(checker->diag, "E3122", NODE_FILE(checker, node),
+                node->token.line, node->token.column, 0, root);
         }
         GrayType *arg_t = resolve_expression(checker, arg);
         result = type_pointer(type_name(arg_t));
@@ -5339,8 +5339,29 @@ static bool is_implicit_enum_value(AstNode *node) {
          node->data.call.function->kind == NODE_IMPLICIT_ENUM);
 }
 
+/* A module-qualified type, mod.Type, is from here on the type itself */
+static void resolve_qualified_type(TypeChecker *checker, AstNode *obj) {
+    if (obj->kind != NODE_MEMBER_EXPR || obj->data.member.object->kind != NODE_LABEL) return;
+    const char *mod_name = obj->data.member.object->data.label.value;
+    char prefixed[MSG_BUF_SIZE];
+    snprintf(prefixed, sizeof(prefixed), "%s_%s", mod_name, obj->data.member.member);
+    if ((!is_enum_name(checker, prefixed) && !is_struct_name(checker, prefixed)) ||
+        scope_lookup(checker->current_scope, mod_name)) return;
+    /* Mark module as used */
+    for (int mi = 0; mi < checker->import_count; mi++) {
+        if (strcmp(checker->imported_modules[mi], mod_name) == 0) {
+            checker->import_used[mi] = true;
+            break;
+        }
+    }
+    obj->kind = NODE_LABEL;
+    obj->data.label.value = arena_copy_string(checker->arena, prefixed);
+}
+
 static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
     GrayType *result = &TYPE_UNKNOWN;
+    if (node->data.call.function && node->data.call.function->kind == NODE_MEMBER_EXPR)
+        resolve_qualified_type(checker, node->data.call.function->data.member.object);
     /* Resolve argument types first. Skip the argument of ref()
      * when it's a bare function name; the ref() builtin handler
      * below resolves it specially, and the general resolve_expression
@@ -6264,34 +6285,7 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
     AstNode *obj = node->data.member.object;
     const char *member = node->data.member.member;
 
-    /* Handle mod.Enum.VALUE or mod.Struct.field triple chain */
-    if (obj->kind == NODE_MEMBER_EXPR &&
-        obj->data.member.object->kind == NODE_LABEL) {
-        const char *mod_name = obj->data.member.object->data.label.value;
-        const char *type_name = obj->data.member.member;
-        /* Build prefixed type name: mod_Type */
-        char prefixed_type[MSG_BUF_SIZE];
-        snprintf(prefixed_type, sizeof(prefixed_type), "%s_%s", mod_name, type_name);
-        /* Check if it's a module-qualified enum access */
-        if (is_enum_name(checker, prefixed_type)) {
-            bool is_str_enum = false;
-            for (int enum_index = 0; enum_index < checker->enum_count; enum_index++) {
-                if (strcmp(checker->enum_names[enum_index], prefixed_type) == 0) {
-                    is_str_enum = checker->enum_is_string[enum_index];
-                    break;
-                }
-            }
-            /* Mark module as used */
-            for (int mi = 0; mi < checker->import_count; mi++) {
-                if (strcmp(checker->imported_modules[mi], mod_name) == 0) {
-                    checker->import_used[mi] = true;
-                    break;
-                }
-            }
-            result = is_str_enum ? &TYPE_STRING : &TYPE_INT;
-            return result;
-        }
-    }
+    resolve_qualified_type(checker, obj);
 
     resolve_expression(checker, obj);
 
@@ -6377,6 +6371,8 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
             snprintf(prefixed, sizeof(prefixed), "%s_%s", obj_name, member);
             Symbol *mod_sym = scope_lookup(checker->current_scope, prefixed);
             if (mod_sym) {
+                if (mod_sym->is_private)
+                    diagnostic_error_code_formatted(checker->diag, "E4015", NODE_FILE(checker, node), node->token.line, node->token.column, 0, member);
                 mod_sym->used = true;
                 result = mod_sym->type;
                 /* Mark module as used */
@@ -6388,6 +6384,12 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
                 }
                 return result;
             }
+            if (!scope_lookup(checker->current_scope, obj_name) &&
+                !is_stdlib_module_name(typechecker_resolve_alias(checker, obj_name)) &&
+                !find_func(checker, prefixed) && !is_enum_name(checker, prefixed) &&
+                !is_struct_name(checker, prefixed)) {
+                diagnostic_error_code_formatted(checker->diag, "E4001", NODE_FILE(checker, node), node->token.line, node->token.column, 0, prefixed);
+            }
         }
 
         /* Otherwise it's a struct field or multi-return access */
@@ -6475,27 +6477,6 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
             result = &TYPE_UNKNOWN;
         }
     } else if (obj->kind == NODE_MEMBER_EXPR) {
-        /* Check for module-qualified enum: lib.Color.RED */
-        if (obj->data.member.object->kind == NODE_LABEL) {
-            const char *mod = obj->data.member.object->data.label.value;
-            const char *type_n = obj->data.member.member;
-            if (mod[0] >= 'a' && mod[0] <= 'z' &&
-                type_n[0] >= 'A' && type_n[0] <= 'Z') {
-                char prefixed[MSG_BUF_SIZE];
-                snprintf(prefixed, sizeof(prefixed), "%s_%s", mod, type_n);
-                if (is_enum_name(checker, prefixed)) {
-                    result = &TYPE_INT;
-                    /* Mark module as used */
-                    for (int mi = 0; mi < checker->import_count; mi++) {
-                        if (strcmp(checker->imported_modules[mi], mod) == 0) {
-                            checker->import_used[mi] = true;
-                            break;
-                        }
-                    }
-                    return result;
-                }
-            }
-        }
         /* Nested member access: a.b.c; resolve a.b first, then look up .c */
         GrayType *obj_t = typetable_get(checker->type_table, obj);
         if (!obj_t) obj_t = resolve_expression(checker, obj);
@@ -6627,6 +6608,8 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
                          expected_t->name && val_t->name &&
                          strcmp(expected_t->name, val_t->name) != 0)) &&
                        !(is_int_kind(expected_t->kind) && val_t->kind == TK_ENUM) &&
+                       !(expected_t->kind == TK_STRING && val_t->kind == TK_ENUM &&
+                         typechecker_enum_is_string(checker, val_t->name)) &&
                        !(expected_t->kind == TK_ENUM && is_int_kind(val_t->kind)) &&
                        !(expected_t->kind == TK_STRUCT && is_int_kind(val_t->kind)) &&
                        !(is_int_kind(expected_t->kind) && val_t->kind == TK_STRUCT) &&
@@ -7000,6 +6983,8 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                 snprintf(prefixed, sizeof(prefixed), "%s_%s", umod, name);
                 sym = scope_lookup(checker->current_scope, prefixed);
                 if (sym) {
+                    if (sym->is_private)
+                        diagnostic_error_code_formatted(checker->diag, "E4015", NODE_FILE(checker, node), node->token.line, node->token.column, 0, name);
                     /* Rewrite the label to the prefixed name so codegen finds it */
                     node->data.label.value = strdup(prefixed);
                     /* Mark module as used */
@@ -7147,11 +7132,9 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
             /* ++ and -- only valid on mutable numeric types */
-            if (node->data.postfix.left->kind == NODE_LABEL) {
-                Symbol *sym = scope_lookup(checker->current_scope, node->data.postfix.left->data.label.value);
-                if (sym && !sym->mutable) {
-                    diagnostic_error_code_formatted(checker->diag, "E3005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, node->data.postfix.left->data.label.value);
-                }
+            const char *root = immutable_root(checker, node->data.postfix.left);
+            if (root) {
+                diagnostic_error_code_formatted(checker->diag, "E3005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, root);
             }
             if (left_t->kind != TK_UNKNOWN && !type_is_integer(left_t)) {
                 diagnostic_error_code_formatted(checker->diag, "E5023", NODE_FILE(checker, node), node->token.line, node->token.column, 0, operator_to_string(node->data.postfix.op), type_display_name(checker, left_t));
@@ -8940,6 +8923,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 node->data.var_decl.name);
             if (def_sym) {
                 def_sym->declared_type = node->data.var_decl.type_name;
+                def_sym->is_private = node->data.var_decl.is_private;
                 def_sym->def_line = node->token.line;
                 def_sym->def_column = node->token.column;
             }
@@ -8964,19 +8948,15 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     if (node->data.var_decl.mutable &&
                         node->data.var_decl.value->data.call.arg_count == 1) {
                         AstNode *src = node->data.var_decl.value->data.call.args[0];
-                        if (src->kind == NODE_LABEL) {
-                            Symbol *src_sym = scope_lookup(checker->current_scope,
-                                src->data.label.value);
-                            if (src_sym && !src_sym->mutable &&
-                                !find_func(checker, src->data.label.value)) {
-                                char *msg = NULL;
-                                msg = typechecker_format(checker,
-                                    "cannot take a mutable reference to const variable '%s'; declare '%s' as const, or copy() the value to get an independent mutable instance",
-                                    src->data.label.value,
-                                    node->data.var_decl.name);
-                                diagnostic_error_message(checker->diag, "E3079", msg,
-                                    NODE_FILE(checker, node), node->token.line, node->token.column, 0);
-                            }
+                        const char *root = immutable_root(checker, src);
+                        if (root && !find_func(checker, root)) {
+                            char *msg = NULL;
+                            msg = typechecker_format(checker,
+                                "cannot take a mutable reference to const variable '%s'; declare '%s' as const, or copy() the value to get an independent mutable instance",
+                                root,
+                                node->data.var_decl.name);
+                            diagnostic_error_message(checker->diag, "E3079", msg,
+                                NODE_FILE(checker, node), node->token.line, node->token.column, 0);
                         }
                     }
                 }
@@ -9262,6 +9242,17 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
             }
         }
 
+        /* E5025: names of types and their members are not variables */
+        AstNode *type_label = target->kind == NODE_MEMBER_EXPR ? target->data.member.object : target;
+        if (type_label->kind == NODE_LABEL &&
+            !scope_lookup(checker->current_scope, type_label->data.label.value) &&
+            (is_enum_name(checker, type_label->data.label.value) ||
+             is_struct_name(checker, type_label->data.label.value))) {
+            diagnostic_error_message(checker->diag, "E5025",
+                "cannot assign to this expression; left side of '=' must be a variable, field, or index",
+                NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+        }
+
         /* E5025: assignment target validation; reject assignment to non-assignable targets */
         if (target->kind != NODE_LABEL &&
             target->kind != NODE_MEMBER_EXPR &&
@@ -9274,20 +9265,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
         }
 
         /* Check for assignment to const variable (direct, index, or field) */
-        const char *const_name = NULL;
-        if (target->kind == NODE_LABEL) {
-            Symbol *sym = scope_lookup(checker->current_scope, target->data.label.value);
-            if (sym && !sym->mutable) const_name = target->data.label.value;
-        } else if (target->kind == NODE_INDEX_EXPR && target->data.index_expr.left->kind == NODE_LABEL) {
-            Symbol *sym = scope_lookup(checker->current_scope, target->data.index_expr.left->data.label.value);
-            if (sym && !sym->mutable) const_name = target->data.index_expr.left->data.label.value;
-        } else if (target->kind == NODE_MEMBER_EXPR && target->data.member.object->kind == NODE_LABEL) {
-            Symbol *sym = scope_lookup(checker->current_scope, target->data.member.object->data.label.value);
-            /* p.field on a pointer parameter auto-derefs to p^.field — the
-             * pointer itself is not being modified, so don't flag it as const. */
-            if (sym && !sym->mutable && !(sym->type && sym->type->kind == TK_POINTER))
-                const_name = target->data.member.object->data.label.value;
-        }
+        const char *const_name = immutable_root(checker, target);
         if (const_name) {
             diagnostic_error_code_formatted(checker->diag, "E3005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, const_name);
         }
@@ -11608,29 +11586,6 @@ static void register_declarations(TypeChecker *checker, AstNode *program) {
             /* Store line for unused function warning */
             checker->funcs[checker->func_count - 1].def_line = stmt->token.line;
             finalize_generic_signature(&checker->funcs[checker->func_count - 1], stmt);
-            /* Also register unprefixed name for internal cross-references.
-             * If name is "lib_foo", also register "foo" so calls within imported
-             * function bodies can resolve unprefixed names.
-             * Skip "main" — it's the entry point and must not collide. */
-            const char *fn = stmt->data.func_decl.name;
-            const char *underscore = strchr(fn, '_');
-            if (underscore && underscore != fn) {
-                const char *unprefixed = underscore + 1;
-                if (strcmp(unprefixed, "main") != 0) {
-                    /* Only register if the prefix matches a known import */
-                    for (int ii = 0; ii < checker->import_count; ii++) {
-                        size_t mod_len = strlen(checker->imported_modules[ii]);
-                        if (strncmp(fn, checker->imported_modules[ii], mod_len) == 0 &&
-                            fn[mod_len] == '_') {
-                            register_func(checker, unprefixed, ptypes, parameter_count, rtypes, return_count);
-                            checker->funcs[checker->func_count - 1].is_private = stmt->data.func_decl.is_private;
-                            checker->funcs[checker->func_count - 1].def_line = 0; /* suppress unused warning */
-                            finalize_generic_signature(&checker->funcs[checker->func_count - 1], stmt);
-                            break;
-                        }
-                    }
-                }
-            }
         }
     }
     checker->registering = false;
-- 
2.43.0


From d106878d9a97b4f58f57daada8d64a65a6b0e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:28 +0000
Subject: [PATCH 48/56] fix: the formatter keeps literals as they are and never
 leaves a damaged file

---
 grayc/src/fmt/fmt.c | 59 ++++++++++++++--------------------------
 grayc/src/main.c    | 66 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 68 insertions(+), 57 deletions(-)

diff --git a/grayc/src/fmt/fmt.c b/grayc/src/fmt/fmt.c
index 5f3accd..22ab7e5 100644
--- a/grayc/src/fmt/fmt.c
+++ b/grayc/src/fmt/fmt.c
@@ -39,8 +39,10 @@ static int count_lines(const char *src) {
  * brace line gets the outer depth.  TOK_LBRACE increments the depth AFTER
  * the line is recorded, so the opening-brace line itself stays at the current
  * depth and the body lines inside get depth+1.
+ *
+ * in_literal[line] is set for every line that starts inside a literal.
  */
-static int *build_depth_table(const char *src, const char *filename, int max_line) {
+static int *build_depth_table(const char *src, const char *filename, int max_line, bool *in_literal) {
     int *table = calloc(max_line + 2, sizeof(int));
     if (!table) return NULL;
 
@@ -56,12 +58,17 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     int depth = 0;
     Token token;
     while ((token = lexer_next_token(lexer)).type != TOK_EOF) {
-        if (token.type == TOK_ILLEGAL) break;
         if (token.type == TOK_NEWLINE) continue;
+        /* An unclosed comment reaches to the end and has no place of its own */
+        if (lexer->error_code && strcmp(lexer->error_code, "E1003") == 0) break;
 
         int line = token.line;
         if (line < 1 || line > max_line) continue;
 
+        /* The lexer has already counted the newline it stands on */
+        int last_line = lexer->line - (lexer->ch == '\n' ? 1 : 0);
+        for (int i = line + 1; i <= last_line && i <= max_line; i++) in_literal[i] = true;
+
         /* Closing brace: dedent first, then record */
         if (token.type == TOK_RBRACE) {
             if (depth > 0) depth--;
@@ -94,39 +101,12 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     return table;
 }
 
-/*
- * Returns true if `line` (NUL-terminated, with leading whitespace already
- * stripped) is inside a raw string that started on an earlier line.
- * We track this by counting unpaired backticks across the whole source up to
- * the given line number.  An odd count means we are inside a raw string.
- */
-static bool line_is_in_raw_string(const char *src, int target_line) {
-    int line = 1;
-    bool in_raw = false;
-    bool in_str = false;  /* regular double-quoted string */
-    const char *p = src;
-    while (*p && line < target_line) {
-        if (*p == '\n') { line++; p++; continue; }
-        if (in_raw) {
-            if (*p == '`') in_raw = false;
-            p++; continue;
-        }
-        if (in_str) {
-            if (*p == '\\' && *(p + 1)) { p += 2; continue; } /* skip escape */
-            if (*p == '"')  { in_str = false; }
-            p++; continue;
-        }
-        if (*p == '`') { in_raw = true; p++; continue; }
-        if (*p == '"') { in_str = true; p++; continue; }
-        p++;
-    }
-    return in_raw;
-}
-
 int gray_fmt_source(const char *src, const char *filename, FILE *out) {
     int max_line = count_lines(src);
-    int *depth_table = build_depth_table(src, filename, max_line);
-    if (!depth_table) return 1;
+    bool *in_literal = calloc(max_line + 2, sizeof(bool));
+    if (!in_literal) return 1;
+    int *depth_table = build_depth_table(src, filename, max_line, in_literal);
+    if (!depth_table) { free(in_literal); return 1; }
 
     /* Walk the source line by line, re-indenting each one. */
     const char *p = src;
@@ -147,13 +127,13 @@ int gray_fmt_source(const char *src, const char *filename, FILE *out) {
             content++;
         int content_len = (int)((line_start + line_len) - content);
 
-        if (content_len == 0) {
-            /* Blank line: emit as-is (no indentation) */
-            fputc('\n', out);
-        } else if (line_is_in_raw_string(src, line_num)) {
-            /* Inside a raw string: preserve the original line verbatim */
+        if (in_literal[line_num]) {
+            /* Inside a literal: preserve the original line verbatim */
             fwrite(line_start, 1, line_len, out);
             fputc('\n', out);
+        } else if (content_len == 0) {
+            /* Blank line: emit as-is (no indentation) */
+            fputc('\n', out);
         } else {
             /* Emit corrected indentation + original content */
             int depth = (line_num <= max_line) ? depth_table[line_num] : 0;
@@ -169,6 +149,7 @@ int gray_fmt_source(const char *src, const char *filename, FILE *out) {
     /* Ensure file ends with exactly one newline (already handled above if
      * the source ended with \n; if it didn't, the last fputc above adds one). */
 
+    free(in_literal);
     free(depth_table);
-    return 0;
+    return ferror(out) ? 1 : 0;
 }
diff --git a/grayc/src/main.c b/grayc/src/main.c
index 101df3f..255cb89 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -690,6 +690,43 @@ static int scan_gray_files(const char *dir_path, char paths[][PATH_BUF_SIZE], in
     return count;
 }
 
+/* Replaces a file's content: the new content is complete under another
+ * name before it takes the file's place, so a failure leaves the file as
+ * it was. Sets errno and returns false on failure. */
+static bool replace_file(const char *path, const char *data, size_t len) {
+    struct stat st;
+    if (access(path, W_OK) != 0) return false;
+    char *target = realpath(path, NULL);
+    if (!target) return false;
+    char *temp = malloc(strlen(target) + sizeof(".XXXXXX"));
+    int fd = -1;
+    if (temp) {
+        sprintf(temp, "%s.XXXXXX", target);
+        fd = mkstemp(temp);
+    }
+    bool ok = fd >= 0;
+    if (ok) {
+        ok = stat(target, &st) == 0 && fchmod(fd, st.st_mode & 07777) == 0;
+        while (ok && len > 0) {
+            ssize_t written = write(fd, data, len);
+            if (written < 0 && errno == EINTR) continue;
+            ok = written > 0;
+            if (ok) { data += written; len -= (size_t)written; }
+        }
+        ok = ok && fsync(fd) == 0;
+        if (close(fd) != 0) ok = false;
+        ok = ok && rename(temp, target) == 0;
+        if (!ok) {
+            int saved = errno;
+            unlink(temp);
+            errno = saved;
+        }
+    }
+    free(temp);
+    free(target);
+    return ok;
+}
+
 int main(int argc, char **argv) {
     if (argc < 2) {
         print_usage();
@@ -831,27 +868,20 @@ int main(int argc, char **argv) {
         }
         fmt_buf[fmt_len] = '\0';
         fclose(tmp);
-        /* Write back to the original file with explicit 0644 permissions */
-        int wfd = open(input_file, O_WRONLY | O_CREAT | O_TRUNC, 0644);
-        if (wfd < 0) {
-            fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
-            free(fmt_buf);
-            free(source);
-            return 1;
-        }
-        FILE *f = fdopen(wfd, "w");
-        if (!f) {
-            fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
-            close(wfd);
-            free(fmt_buf);
-            free(source);
-            return 1;
+        int rc_write = 0;
+        struct stat st;
+        if (stat(input_file, &st) == 0 && S_ISREG(st.st_mode) &&
+            (off_t)strlen(source) != st.st_size) {
+            fprintf(stderr, "gray: fmt: '%s' is not a text file\n", input_file);
+            rc_write = 1;
+        } else if (strcmp(fmt_buf, source) != 0 &&
+                   !replace_file(input_file, fmt_buf, (size_t)fmt_len)) {
+            fprintf(stderr, "gray: fmt: cannot write '%s': %s\n", input_file, strerror(errno));
+            rc_write = 1;
         }
-        fwrite(fmt_buf, 1, fmt_len, f);
-        fclose(f);
         free(fmt_buf);
         free(source);
-        return 0;
+        return rc_write;
     }
 
     /* Create compiler arena and diagnostics */
-- 
2.43.0


From 47d35a1c6a9f8799b213d1944f06b05f55067669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 49/56] fix: deeply nested or long source is rejected instead
 of overrunning the compiler

---
 grayc/src/parser/parser.c | 63 ++++++++++++++++++++++++++++++++++-----
 grayc/src/parser/parser.h |  4 +++
 2 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 9e25151..94e48c5 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -263,11 +263,31 @@ static const char *read_type_name(Parser *parser) {
     return name;
 }
 
+/* Reports blocks, conditions or types that are nested too deeply for the
+ * passes that walk them recursively. */
+static bool nesting_too_deep(Parser *parser) {
+    if (parser->nesting < MAX_NESTING) return false;
+    diagnostic_error_message(parser->diag, "E2001",
+        strdup("code is nested too deeply; maximum depth is 1000"),
+        parser->file, parser->cur_token.line, parser->cur_token.column, 0);
+    return true;
+}
+
 /* Parse a complex type annotation.
  * Precondition: parser is ON the first token of the type ([, ^, map, or IDENT).
  * Postcondition: returns the type string, parser on the last token of the type.
  * Returns NULL on parse error (diagnostic already emitted). */
+static const char *parse_nested_type(Parser *parser);
+
 static const char *parse_complex_type(Parser *parser) {
+    if (nesting_too_deep(parser)) return NULL;
+    parser->nesting++;
+    const char *type_name = parse_nested_type(parser);
+    parser->nesting--;
+    return type_name;
+}
+
+static const char *parse_nested_type(Parser *parser) {
     if (current_token_is(parser, TOK_QUESTION)) {
         /* Bare wildcard type: ? */
         return "?";
@@ -676,6 +696,7 @@ static AstNode *parse_interpolated_string(Parser *parser, const char *raw) {
                 }
                 Parser *expr_parser = parser_create(parser->arena, expr_lexer, parser->file, parser->diag);
                 expr_parser->in_interp = true;
+                expr_parser->depth = parser->depth;
                 /* Inherit struct names from parent so interpolated expressions
                  * can recognize struct literals. */
                 expr_parser->struct_names = parser->struct_names;
@@ -683,6 +704,7 @@ static AstNode *parse_interpolated_string(Parser *parser, const char *raw) {
                 expr_parser->struct_name_cap = parser->struct_name_cap;
                 AstNode *expr = parse_expression(expr_parser, PREC_LOWEST);
                 if (expr) parts[count++] = expr;
+                if (expr_parser->height > parser->height) parser->height = expr_parser->height;
             }
 
             if (*s == '}') s++;
@@ -759,6 +781,9 @@ static AstNode *parse_grouped_expression(Parser *parser) {
         next_token(parser); /* move to identifier */
 
         if (parser->cur_token.type != TOK_IDENT) {
+            diagnostic_error_message(parser->diag, "E2001",
+                strdup("expected an expression between '(' and ')', or a function name after '()'"),
+                parser->file, ref_tok.line, ref_tok.column, 0);
             return NULL;
         }
 
@@ -1254,15 +1279,26 @@ static AstNode *parse_expression(Parser *parser, Precedence prec) {
         return NULL;
     }
 
+    /* The later passes walk the tree recursively, and a chain of operators is
+     * a tree as high as it is long: keep track of the height. */
+    int outer_height = parser->height;
+    parser->height = 0;
+
     AstNode *left = parse_prefix(parser);
-    if (!left) { parser->depth--; return NULL; }
 
-    while (!peek_token_is(parser, TOK_EOF) && prec < get_token_precedence(parser->peek_token.type)) {
+    while (left && !peek_token_is(parser, TOK_EOF) && prec < get_token_precedence(parser->peek_token.type)) {
         next_token(parser);
         left = parse_infix(parser, left);
-        if (!left) { parser->depth--; return NULL; }
+        if (++parser->height > MAX_EXPR_HEIGHT && left) {
+            diagnostic_error_message(parser->diag, "E2001",
+                strdup("expression has too many operators; maximum is 1000 in a row"),
+                parser->file, parser->cur_token.line, parser->cur_token.column, 0);
+            left = NULL;
+        }
     }
 
+    parser->height++;
+    if (parser->height < outer_height) parser->height = outer_height;
     parser->depth--;
     return left;
 }
@@ -1503,6 +1539,10 @@ static AstNode *parse_var_declaration(Parser *parser) {
             while (peek_token_is(parser, TOK_COMMA)) {
                 next_token(parser); /* skip comma */
                 next_token(parser); /* name (IDENT or _) */
+                if (var_count >= MAX_MULTI_VARS) {
+                    diagnostic_error_code_formatted(parser->diag, "E2062", parser->file, parser->cur_token.line, parser->cur_token.column, 0, MAX_MULTI_VARS);
+                    return NULL;
+                }
                 names[var_count] = parser->cur_token.literal;
                 if (current_token_is(parser, TOK_BLANK)) names[var_count] = "_";
                 if (peek_token_is(parser, TOK_IDENT) || peek_token_is(parser, TOK_CARET) ||
@@ -1515,10 +1555,6 @@ static AstNode *parse_var_declaration(Parser *parser) {
                     types[var_count] = NULL;
                 }
                 var_count++;
-                if (var_count > MAX_MULTI_VARS) {
-                    diagnostic_error_code_formatted(parser->diag, "E2062", parser->file, parser->cur_token.line, parser->cur_token.column, 0, MAX_MULTI_VARS);
-                    return NULL;
-                }
             }
 
             /* Expect = expr */
@@ -1614,7 +1650,7 @@ static AstNode *parse_return_statement(Parser *parser) {
     return node;
 }
 
-static AstNode *parse_block_statement(Parser *parser) {
+static AstNode *parse_block_contents(Parser *parser) {
     AstNode *node = ast_alloc(parser->arena, NODE_BLOCK_STMT, parser->cur_token);
     node->data.block.count = 0;
     node->data.block.cap = 8;
@@ -1644,6 +1680,14 @@ static AstNode *parse_block_statement(Parser *parser) {
     return node;
 }
 
+static AstNode *parse_block_statement(Parser *parser) {
+    if (nesting_too_deep(parser)) return NULL;
+    parser->nesting++;
+    AstNode *node = parse_block_contents(parser);
+    parser->nesting--;
+    return node;
+}
+
 static AstNode *parse_func_declaration(Parser *parser) {
     AstNode *node = ast_alloc(parser->arena, NODE_FUNC_DECL, parser->cur_token);
 
@@ -2141,7 +2185,10 @@ static AstNode *parse_if_statement(Parser *parser) {
     if (peek_token_is(parser, TOK_OR_KW)) {
         next_token(parser); /* skip 'or' */
         /* 'or' acts like 'else if' */
+        if (nesting_too_deep(parser)) return NULL;
+        parser->nesting++;
         node->data.if_stmt.alternative = parse_if_statement(parser);
+        parser->nesting--;
     } else if (peek_token_is(parser, TOK_OTHERWISE)) {
         next_token(parser); /* skip 'otherwise'/'else' */
         node->data.if_stmt.else_token = parser->cur_token;
diff --git a/grayc/src/parser/parser.h b/grayc/src/parser/parser.h
index c0c81f5..87cea36 100644
--- a/grayc/src/parser/parser.h
+++ b/grayc/src/parser/parser.h
@@ -17,6 +17,8 @@
 #include "../util/error.h"
 
 #define MAX_PARSE_DEPTH 256
+#define MAX_EXPR_HEIGHT 1000
+#define MAX_NESTING     1000
 
 typedef struct {
     Lexer *lexer;
@@ -26,6 +28,8 @@ typedef struct {
     const char *file;
     DiagnosticList *diag;
     int depth;
+    int height;     /* greatest height of the expressions parsed so far */
+    int nesting;    /* blocks, conditions and types that are being parsed */
     bool no_struct_literal; /* suppress struct literal parsing (RHS of in/not_in) */
     bool in_interp;         /* true when parsing a ${...} sub-expression */
 
-- 
2.43.0


From 714fc9937f00871f4193ce2d5cc99240991f9e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 50/56] fix: bare calls of 'using' stdlib functions have their
 arguments and result checked

---
 grayc/src/typechecker/typechecker.c | 121 ++++++++++------------------
 1 file changed, 42 insertions(+), 79 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 9ba6a81..5aef920 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1558,6 +1558,12 @@ static void typechecker_resolve_named_arguments(TypeChecker *checker, AstNode *n
 /* stdlib functions reachable via `import and use` / `using`. */
 typedef struct { const char *func; const char *mod; TypeKind return_kind; } UsingFunc;
 static const UsingFunc _using_funcs[] = {
+    /* the result depends on the arguments */
+    {"abs","math",TK_UNKNOWN},{"neg","math",TK_UNKNOWN},{"min","math",TK_UNKNOWN},
+    {"max","math",TK_UNKNOWN},{"clamp","math",TK_UNKNOWN},
+    {"choice","random",TK_UNKNOWN},{"shuffle","random",TK_UNKNOWN},
+    {"sample","random",TK_UNKNOWN},
+    {"get_keys","maps",TK_UNKNOWN},{"get_values","maps",TK_UNKNOWN},
     /* strings */
     {"to_upper","strings",TK_STRING},{"to_lower","strings",TK_STRING},
     {"trim","strings",TK_STRING},{"trim_left","strings",TK_STRING},
@@ -5183,90 +5189,12 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
         } else if (!typechecker_is_builtin(function_name)) {
             /* Check if it's a function from a 'using' module */
             bool found_in_using = false;
-            /* Check for math functions whose return type depends on argument */
-            if (!found_in_using && (strcmp(function_name, "abs") == 0 || strcmp(function_name, "neg") == 0 ||
-                strcmp(function_name, "min") == 0 || strcmp(function_name, "max") == 0 ||
-                strcmp(function_name, "clamp") == 0)) {
-                for (int using_index = 0; using_index < checker->using_module_count; using_index++) {
-                    if (!using_module_accessible(checker, using_index)) continue;
-                    const char *real_mod = typechecker_resolve_alias(checker, checker->using_modules[using_index]);
-                    if (strcmp(real_mod, "math") == 0) {
-                        found_in_using = true;
-                        if (node->data.call.arg_count > 0) {
-                            GrayType *arg_t = resolve_expression(checker, node->data.call.args[0]);
-                            result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT
-                        : (arg_t && arg_t->kind == TK_UINT) ? &TYPE_UINT : &TYPE_INT;
-                        } else {
-                            result = &TYPE_INT;
-                        }
-                        break;
-                    }
-                }
-            }
-            /* Random functions whose return type depends on argument */
-            if (!found_in_using && (strcmp(function_name, "choice") == 0 ||
-                strcmp(function_name, "shuffle") == 0 || strcmp(function_name, "sample") == 0)) {
-                for (int using_index = 0; using_index < checker->using_module_count; using_index++) {
-                    if (!using_module_accessible(checker, using_index)) continue;
-                    const char *real_mod = typechecker_resolve_alias(checker, checker->using_modules[using_index]);
-                    if (strcmp(real_mod, "random") == 0) {
-                        found_in_using = true;
-                        if (node->data.call.arg_count > 0) {
-                            GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
-                            if (strcmp(function_name, "choice") == 0) {
-                                result = (arr_t && arr_t->element_type) ? type_from_name(arr_t->element_type) : &TYPE_INT;
-                            } else {
-                                result = (arr_t && arr_t->element_type) ? type_array(arr_t->element_type) : type_array("int");
-                            }
-                        } else {
-                            result = (strcmp(function_name, "choice") == 0) ? &TYPE_INT : type_array("int");
-                        }
-                        break;
-                    }
-                }
-            }
-            /* Maps functions whose return type depends on map key/value types */
-            if (!found_in_using && (strcmp(function_name, "get_keys") == 0 || strcmp(function_name, "get_values") == 0)) {
-                for (int using_index = 0; using_index < checker->using_module_count; using_index++) {
-                    if (!using_module_accessible(checker, using_index)) continue;
-                    const char *real_mod = typechecker_resolve_alias(checker, checker->using_modules[using_index]);
-                    if (strcmp(real_mod, "maps") == 0) {
-                        found_in_using = true;
-                        if (node->data.call.arg_count > 0) {
-                            GrayType *map_t = resolve_expression(checker, node->data.call.args[0]);
-                            if (strcmp(function_name, "get_keys") == 0)
-                                result = type_array(map_t && map_t->key_type ? map_t->key_type : "string");
-                            else
-                                result = type_array(map_t && map_t->value_type ? map_t->value_type : "string");
-                        } else {
-                            result = type_array("string");
-                        }
-                        break;
-                    }
-                }
-            }
             for (int using_index = 0; using_index < checker->using_module_count && !found_in_using; using_index++) {
                 if (!using_module_accessible(checker, using_index)) continue;
                 const char *umod = checker->using_modules[using_index];
                 /* Resolve alias to actual module name */
                 const char *real_mod = typechecker_resolve_alias(checker, umod);
-                /* 1) Try hardcoded stdlib table */
-                for (int field_index = 0; _using_funcs[field_index].func; field_index++) {
-                    if (strcmp(function_name, _using_funcs[field_index].func) == 0 &&
-                        strcmp(real_mod, _using_funcs[field_index].mod) == 0) {
-                        found_in_using = true;
-                        switch (_using_funcs[field_index].return_kind) {
-                        case TK_STRING: result = &TYPE_STRING; break;
-                        case TK_FLOAT:  result = &TYPE_FLOAT; break;
-                        case TK_BOOL:   result = &TYPE_BOOL; break;
-                        case TK_INT:    result = &TYPE_INT; break;
-                        case TK_VOID:   result = &TYPE_VOID; break;
-                        default:        result = &TYPE_UNKNOWN; break;
-                        }
-                        break;
-                    }
-                }
-                /* 2) Try user-defined module: look up <module>_<func> */
+                /* A user-defined module: look up <module>_<func> */
                 if (!found_in_using) {
                     char prefixed[MSG_BUF_SIZE];
                     snprintf(prefixed, sizeof(prefixed), "%s_%s", real_mod, function_name);
@@ -5358,8 +5286,43 @@ static void resolve_qualified_type(TypeChecker *checker, AstNode *obj) {
     obj->data.label.value = arena_copy_string(checker->arena, prefixed);
 }
 
+/* A bare call of a stdlib function that 'using' brings into scope is from here
+ * on the qualified call, which has its arguments and its result checked. */
+static void qualify_using_call(TypeChecker *checker, AstNode *node) {
+    AstNode *fn = node->data.call.function;
+    if (!fn || fn->kind != NODE_LABEL) return;
+    const char *name = fn->data.label.value;
+    if (find_func(checker, name) || scope_lookup(checker->current_scope, name) ||
+        typechecker_is_builtin(name)) return;
+    for (int using_index = 0; using_index < checker->using_module_count; using_index++) {
+        if (!using_module_accessible(checker, using_index)) continue;
+        const char *umod = checker->using_modules[using_index];
+        const char *real_mod = typechecker_resolve_alias(checker, umod);
+        char prefixed[MSG_BUF_SIZE];
+        snprintf(prefixed, sizeof(prefixed), "%s_%s", real_mod, name);
+        if (find_func(checker, prefixed)) return;
+        for (int field_index = 0; _using_funcs[field_index].func; field_index++) {
+            if (strcmp(name, _using_funcs[field_index].func) != 0 ||
+                strcmp(real_mod, _using_funcs[field_index].mod) != 0 ||
+                scope_lookup(checker->current_scope, umod)) continue;
+            /* Under an alias, the module is known by the alias only */
+            for (int i = 0; i < checker->alias_count; i++) {
+                if (strcmp(checker->alias_modules[i], umod) == 0) umod = checker->alias_names[i];
+            }
+            AstNode *object = ast_alloc(checker->arena, NODE_LABEL, fn->token);
+            object->data.label.value = umod;
+            AstNode *member = ast_alloc(checker->arena, NODE_MEMBER_EXPR, fn->token);
+            member->data.member.object = object;
+            member->data.member.member = name;
+            node->data.call.function = member;
+            return;
+        }
+    }
+}
+
 static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
     GrayType *result = &TYPE_UNKNOWN;
+    qualify_using_call(checker, node);
     if (node->data.call.function && node->data.call.function->kind == NODE_MEMBER_EXPR)
         resolve_qualified_type(checker, node->data.call.function->data.member.object);
     /* Resolve argument types first. Skip the argument of ref()
-- 
2.43.0


From c5853fbadcd1428a52c2f11815f126db79240011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 51/56] fix: numbers convert exactly or panic wherever they
 change type

cast(), type constructors, and values stored into a place of another numeric
type read the source in a type too small for it (unsigned values above the
signed range, floats beyond 64 bits), were stored unchecked, or had array
elements reinterpreted instead of converted; text was parsed only in part.
---
 grayc/src/codegen/codegen.c | 411 +++++++++++++++---------------------
 grayc/src/runtime/bigint.h  |  94 +++++++++
 grayc/src/runtime/runtime.h |  47 ++++-
 grayc/src/stdlib/builtins.c |  61 ++++--
 grayc/src/stdlib/builtins.h |   1 +
 5 files changed, 351 insertions(+), 263 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 892e653..d8792cd 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -80,6 +80,7 @@ static void emit_array_argument_address(CodeGen *codegen, AstNode *arg);
 static bool emit_narrowing_cast(CodeGen *codegen, const char *target, AstNode *val, int line);
 static void emit_bigint_arithmetic(CodeGen *codegen, AstNode *infix, const char *bi_type);
 static void emit_value_as(CodeGen *codegen, const char *type_name, AstNode *value);
+static const char *array_element_c_type(CodeGen *codegen, const char *element_type);
 static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
 
 /* Resolve an unprefixed type name (e.g. "Point") to its module-prefixed
@@ -947,12 +948,160 @@ static void emit_bigint_operand(CodeGen *codegen, AstNode *operand,
         emit_bigint_arithmetic(codegen, operand, bi_type);
         return;
     }
+    if (operand->kind == NODE_FLOAT_VALUE || (operand_t && operand_t->kind == TK_FLOAT)) {
+        emit_formatted(codegen, "%s_from_f64((double)(", pfx);
+        emit_expression(codegen, operand);
+        emit(codegen, "))");
+        return;
+    }
     bool src_unsigned = operand_t && (operand_t->kind == TK_UINT || operand_t->kind == TK_BYTE);
     emit_formatted(codegen, src_unsigned ? "%s_from_u64((uint64_t)(" : "%s_from_i64((int64_t)(", pfx);
     emit_expression(codegen, operand);
     emit(codegen, "))");
 }
 
+/* The values a narrow integer type (or char) can hold; false for other types. */
+static bool narrow_integer_range(const char *type, const char **min, const char **max) {
+    static const struct { const char *type, *min, *max; } ranges[] = {
+        {"i8", "-128", "127"}, {"i16", "-32768", "32767"}, {"i32", "-2147483648LL", "2147483647LL"},
+        {"char", "-2147483648LL", "2147483647LL"},
+        {"u8", NULL, "255"}, {"byte", NULL, "255"}, {"u16", NULL, "65535"}, {"u32", NULL, "4294967295ULL"},
+    };
+    for (size_t i = 0; i < sizeof(ranges) / sizeof(ranges[0]); i++) {
+        if (strcmp(type, ranges[i].type) == 0) {
+            *min = ranges[i].min;
+            *max = ranges[i].max;
+            return true;
+        }
+    }
+    return false;
+}
+
+/* Whether a value must be converted, and not only stored, to become one of the
+ * target type. */
+static bool needs_conversion(CodeGen *codegen, AstNode *val, const char *target) {
+    const char *min = NULL, *max = NULL;
+    bool to_char = strcmp(target, "char") == 0;
+    if (!to_char && narrow_integer_range(target, &min, &max)) return true;
+    GrayType *target_t = type_from_name(target);
+    if (!target_t || to_char || !type_is_numeric(target_t) || val->kind == NODE_INT_VALUE) return false;
+    if (resolve_bigint_type(codegen, val)) return true;
+    GrayType *val_t = codegen->type_table ? typetable_get(codegen->type_table, val) : NULL;
+    if (!val_t || !val_t->name || !type_is_numeric(val_t)) return false;
+    if (is_bigint_type(val_t->name)) return true;
+    switch (target_t->kind) {
+    case TK_INT:  return val_t->kind == TK_UINT || val_t->kind == TK_FLOAT;
+    case TK_UINT: return val_t->kind == TK_INT || val_t->kind == TK_FLOAT;
+    default:      return false;
+    }
+}
+
+/* Emit the conversion of a value (or of the C expression `c_value`) to a scalar
+ * type: the exact, truncated value, or a panic when it does not fit. */
+static void emit_scalar_conversion(CodeGen *codegen, AstNode *val, const char *c_value,
+                                   GrayType *val_t, const char *target, int line) {
+    bool to_int = strcmp(target, "int") == 0 || strcmp(target, "i64") == 0;
+    bool to_uint = strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0;
+    bool to_float = strcmp(target, "float") == 0 || strcmp(target, "f64") == 0 || strcmp(target, "f32") == 0;
+    const char *min = NULL, *max = NULL;
+    bool narrow = narrow_integer_range(target, &min, &max);
+    const char *src_bi = (val_t && val_t->name && is_bigint_type(val_t->name))
+        ? val_t->name : val ? resolve_bigint_type(codegen, val) : NULL;
+    TypeKind val_kind = val_t ? val_t->kind : TK_UNKNOWN;
+    char before[MSG_BUF_SIZE], after[MSG_BUF_SIZE] = ")";
+
+    /* First the value in a 64-bit or float type that holds it */
+    const char *read = "(";
+    char wide_read[MSG_BUF_SIZE];
+    if (src_bi) {
+        snprintf(wide_read, sizeof(wide_read), "%s_to_%s(", bigint_prefix(src_bi),
+            to_float ? (strcmp(target, "f32") == 0 ? "f32" : "f64") : to_uint || (narrow && !min) ? "u64" : "i64");
+        read = wide_read;
+    } else if (val_kind == TK_STRING) {
+        read = to_float ? "gray_builtin_string_to_float("
+             : to_uint ? "gray_builtin_string_to_uint(" : "gray_builtin_string_to_int(";
+    }
+
+    if (is_bigint_type(target)) {
+        const char *source = src_bi ? src_bi : val_kind == TK_FLOAT ? "f64"
+            : val_kind == TK_UINT || val_kind == TK_BYTE ? "u64" : "i64";
+        snprintf(before, sizeof(before), src_bi && strcmp(src_bi, target) == 0 ? "(" : "%s_from_%s(",
+            bigint_prefix(target), source);
+    } else if (codegen->in_const_decl || !(narrow || to_int || to_uint)) {
+        snprintf(before, sizeof(before), "((%s)%s", gray_type_to_c_codegen(codegen, target), read);
+        snprintf(after, sizeof(after), "))");
+    } else if (!narrow && val_kind == TK_FLOAT && !src_bi) {
+        snprintf(before, sizeof(before), "%s((double)(", to_int ? "gray_float_to_int" : "gray_float_to_uint");
+        snprintf(after, sizeof(after), "), \"%s\", %d)", codegen->file, line);
+    } else {
+        const char *low = to_int ? "INT64_MIN" : min, *high = to_int ? "INT64_MAX" : to_uint ? "UINT64_MAX" : max;
+        snprintf(before, sizeof(before), "(%s)%s(%s", gray_type_to_c_codegen(codegen, target),
+            low ? "gray_cast_check" : "gray_ucast_check", read);
+        snprintf(after, sizeof(after), ")%s%s, %s, \"%s\", \"%s\", %d)", low ? ", " : "", low ? low : "",
+            high, target, codegen->file, line);
+    }
+    emit(codegen, before);
+    if (c_value) emit(codegen, c_value);
+    else emit_expression(codegen, val);
+    emit(codegen, after);
+}
+
+/* Emit an array of the converted elements of an array of another numeric type. */
+static void emit_array_conversion(CodeGen *codegen, AstNode *val, GrayType *from_t, GrayType *to_t, int line) {
+    char from[MSG_BUF_SIZE], to[MSG_BUF_SIZE], to_c[MSG_BUF_SIZE], element[MSG_BUF_SIZE];
+    int tag = next_deep_copy_tag();
+    snprintf(from, sizeof(from), "%s", from_t->element_type);
+    snprintf(to, sizeof(to), "%s", to_t->element_type);
+    snprintf(to_c, sizeof(to_c), "%s", array_element_c_type(codegen, to));
+    snprintf(element, sizeof(element), "((%s *)_cvs%d.data)[_cvi%d]", array_element_c_type(codegen, from), tag, tag);
+    emit_formatted(codegen, "({ GrayArray _cvs%d = ", tag);
+    emit_expression(codegen, val);
+    emit_formatted(codegen, "; GrayArray _cvd%d = gray_array_new(gray_default_arena, sizeof(%s), _cvs%d.len); "
+        "for (int32_t _cvi%d = 0; _cvi%d < _cvs%d.len; _cvi%d++) { %s _cve%d = ", tag, to_c, tag, tag, tag, tag, tag, to_c, tag);
+    emit_scalar_conversion(codegen, NULL, element, type_from_name(from), to, line);
+    emit_formatted(codegen, "; gray_array_push(gray_default_arena, &_cvd%d, &_cve%d); } _cvd%d; })", tag, tag, tag);
+}
+
+/* Emit a conversion asked for by cast() or by a type constructor. */
+static void emit_conversion(CodeGen *codegen, AstNode *val, const char *target, int line) {
+    GrayType *val_t = codegen->type_table ? typetable_get(codegen->type_table, val) : NULL;
+
+    /* Infer kind from AST if type table has no info */
+    if (!val_t || val_t->kind == TK_UNKNOWN) {
+        if (val->kind == NODE_STRING_VALUE || val->kind == NODE_INTERPOLATED_STRING)
+            val_t = type_from_name("string");
+        else if (val->kind == NODE_BOOL_VALUE) val_t = type_from_name("bool");
+        else if (val->kind == NODE_FLOAT_VALUE) val_t = type_from_name("float");
+        else if (val->kind == NODE_INT_VALUE) val_t = type_from_name("int");
+    }
+
+    if (strcmp(target, "string") == 0) {
+        if (val_t && val_t->kind == TK_CHAR) {
+            /* char → string: single-character string, not ASCII value */
+            emit(codegen, "gray_string_new(gray_default_arena, (char[]){(char)(");
+            emit_expression(codegen, val);
+            emit(codegen, "), '\\0'}, 1)");
+        } else {
+            emit_to_string(codegen, val);
+        }
+        return;
+    }
+    if (is_bigint_type(target)) {
+        emit_bigint_operand(codegen, val, bigint_prefix(target), target, val_t);
+        return;
+    }
+    GrayType *target_t = target[0] == '[' ? type_from_name(target) : NULL;
+    if (target_t && target_t->element_type && val_t && val_t->kind == TK_ARRAY && val_t->element_type) {
+        const char *from = val_t->element_type;
+        GrayType *to_element = type_from_name(target_t->element_type), *from_element = type_from_name(from);
+        if (to_element && from_element && type_is_numeric(to_element) && type_is_numeric(from_element)) {
+            emit_array_conversion(codegen, val, val_t, target_t, line);
+            return;
+        }
+    }
+    emit_scalar_conversion(codegen, val, NULL, val_t, target, line);
+}
+
 /* Emit a checked + - * / % whose operands are taken as `bi_type`. */
 static void emit_bigint_arithmetic(CodeGen *codegen, AstNode *infix, const char *bi_type) {
     const char *pfx = bigint_prefix(bi_type);
@@ -2022,12 +2171,18 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         }
         TypeKind tk = elem_t ? elem_t->kind : TK_INT;
 
-        /* Integer literals take the storage of the place's element type */
-        if (tk == TK_INT && codegen->current_var_type && codegen->current_var_type[0] == '[') {
+        /* Numbers take the element type of the place, and its storage */
+        const char *stored_as = bi_elem;
+        if ((!elem_t || type_is_numeric(elem_t)) && tk != TK_CHAR && codegen->current_var_type &&
+            codegen->current_var_type[0] == '[') {
             GrayType *declared = type_from_name(codegen->current_var_type);
             GrayType *stored = declared && declared->element_type ? type_from_name(declared->element_type) : NULL;
-            if (stored && (stored->kind == TK_FLOAT || stored->kind == TK_BYTE || stored->kind == TK_UINT))
+            if (stored && !is_bigint_type(declared->element_type) &&
+                (stored->kind == TK_INT || stored->kind == TK_FLOAT || stored->kind == TK_BYTE || stored->kind == TK_UINT)) {
                 tk = stored->kind;
+                stored_as = declared->element_type;
+                bi_elem = NULL;
+            }
         }
 
         const char *c_type;
@@ -2085,7 +2240,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         emit_formatted(codegen, "gray_array_from(gray_default_arena, (%s[]){", c_type);
         for (int i = 0; i < count; i++) {
             if (i > 0) emit(codegen, ", ");
-            emit_value_as(codegen, bi_elem, node->data.array_value.elements[i]);
+            emit_value_as(codegen, stored_as, node->data.array_value.elements[i]);
         }
         emit_formatted(codegen, "}, sizeof(%s), %d)", c_type, count);
         break;
@@ -3079,176 +3234,9 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
         break;
     }
 
-    case NODE_CAST_EXPR: {
-        /* cast(value, type); dispatch to conversion functions for non-trivial casts */
-        const char *target = node->data.cast.target_type;
-        AstNode *val = node->data.cast.value;
-        GrayType *val_t = codegen->type_table ? typetable_get(codegen->type_table, val) : NULL;
-        TypeKind val_kind = val_t ? val_t->kind : TK_UNKNOWN;
-
-        /* Infer kind from AST if type table has no info */
-        if (val_kind == TK_UNKNOWN) {
-            if (val->kind == NODE_STRING_VALUE || val->kind == NODE_INTERPOLATED_STRING)
-                val_kind = TK_STRING;
-            else if (val->kind == NODE_BOOL_VALUE) val_kind = TK_BOOL;
-            else if (val->kind == NODE_FLOAT_VALUE) val_kind = TK_FLOAT;
-            else if (val->kind == NODE_INT_VALUE) val_kind = TK_INT;
-        }
-
-        if (strcmp(target, "string") == 0) {
-            /* any → string: use to_string functions */
-            if (val_kind == TK_CHAR) {
-                /* char → string: single-character string, not ASCII value */
-                emit(codegen, "gray_string_new(gray_default_arena, (char[]){(char)(");
-                emit_expression(codegen, val);
-                emit(codegen, "), '\\0'}, 1)");
-            } else {
-                emit_to_string(codegen, val);
-            }
-        } else if ((strcmp(target, "int") == 0 || strcmp(target, "i64") == 0) && val_kind == TK_STRING) {
-            /* string → int */
-            emit(codegen, "gray_builtin_string_to_int(");
-            emit_expression(codegen, val);
-            emit(codegen, ")");
-        } else if ((strcmp(target, "float") == 0 || strcmp(target, "f64") == 0) && val_kind == TK_STRING) {
-            /* string → float */
-            emit(codegen, "gray_builtin_string_to_float(");
-            emit_expression(codegen, val);
-            emit(codegen, ")");
-        } else if ((strcmp(target, "int") == 0 || strcmp(target, "i64") == 0) && val_kind == TK_FLOAT) {
-            /* float → int: overflow-safe */
-            emit(codegen, "gray_float_to_int((double)(");
-            emit_expression(codegen, val);
-            emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
-        } else if ((strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0) && val_kind == TK_FLOAT) {
-            /* float → uint: negative values and overflow are undefined behavior in C; panic instead */
-            emit(codegen, "gray_float_to_uint((double)(");
-            emit_expression(codegen, val);
-            emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
-        } else if (val_kind == TK_STRING) {
-            /* string → numeric (targets other than int/float handled above):
-             * parse to int64/double first, then apply narrowing check */
-            if (strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0) {
-                emit(codegen, "(uint64_t)gray_builtin_string_to_int(");
-                emit_expression(codegen, val);
-                emit(codegen, ")");
-            } else if (strcmp(target, "f32") == 0) {
-                emit(codegen, "(float)gray_builtin_string_to_float(");
-                emit_expression(codegen, val);
-                emit(codegen, ")");
-            } else {
-                /* Sized integer targets — parse then range-check */
-                const char *smin = NULL, *smax = NULL;
-                bool is_unsigned = false;
-                if (strcmp(target, "i8") == 0) { smin = "-128"; smax = "127"; }
-                else if (strcmp(target, "i16") == 0) { smin = "-32768"; smax = "32767"; }
-                else if (strcmp(target, "i32") == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-                else if (strcmp(target, "u8") == 0 || strcmp(target, "byte") == 0) { is_unsigned = true; smax = "255"; }
-                else if (strcmp(target, "u16") == 0) { is_unsigned = true; smax = "65535"; }
-                else if (strcmp(target, "u32") == 0) { is_unsigned = true; smax = "4294967295ULL"; }
-
-                if (smax && is_unsigned) {
-                    emit_formatted(codegen, "(%s)gray_ucast_check(gray_builtin_string_to_int(", gray_type_to_c_codegen(codegen, target));
-                    emit_expression(codegen, val);
-                    emit_formatted(codegen, "), %s, \"%s\", \"%s\", %d)", smax, target, codegen->file, node->token.line);
-                } else if (smax) {
-                    emit_formatted(codegen, "(%s)gray_cast_check(gray_builtin_string_to_int(", gray_type_to_c_codegen(codegen, target));
-                    emit_expression(codegen, val);
-                    emit_formatted(codegen, "), %s, %s, \"%s\", \"%s\", %d)", smin, smax, target, codegen->file, node->token.line);
-                } else {
-                    /* Fallback: parse to int and cast */
-                    emit_formatted(codegen, "((%s)gray_builtin_string_to_int(", gray_type_to_c_codegen(codegen, target));
-                    emit_expression(codegen, val);
-                    emit(codegen, "))");
-                }
-            }
-        } else {
-            /* Wide integer (i128/u128/i256/u256) cast handling */
-            bool target_is_bi = is_bigint_type(target);
-            const char *src_bi = (val_t && val_t->name && is_bigint_type(val_t->name))
-                ? val_t->name : resolve_bigint_type(codegen, val);
-            if (target_is_bi || src_bi) {
-                if (target_is_bi) {
-                    emit_bigint_operand(codegen, val, bigint_prefix(target), target, val_t);
-                } else if (!target_is_bi && src_bi) {
-                    /* wide → scalar: range-checked extraction to int64/uint64,
-                     * with additional narrow-range check for sub-64-bit targets */
-                    bool dst_unsigned = (strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0 ||
-                        strcmp(target, "u8") == 0 || strcmp(target, "byte") == 0 ||
-                        strcmp(target, "u16") == 0 || strcmp(target, "u32") == 0);
-                    const char *bp = bigint_prefix(src_bi);
-
-                    /* Determine if an additional narrow range check is needed */
-                    const char *nmin = NULL, *nmax = NULL;
-                    bool narrow_unsigned = false;
-                    if (strcmp(target, "i8") == 0)  { nmin = "-128";          nmax = "127"; }
-                    else if (strcmp(target, "i16") == 0) { nmin = "-32768";   nmax = "32767"; }
-                    else if (strcmp(target, "i32") == 0) { nmin = "-2147483648LL"; nmax = "2147483647LL"; }
-                    else if (strcmp(target, "u8") == 0 || strcmp(target, "byte") == 0) { narrow_unsigned = true; nmax = "255"; }
-                    else if (strcmp(target, "u16") == 0) { narrow_unsigned = true; nmax = "65535"; }
-                    else if (strcmp(target, "u32") == 0) { narrow_unsigned = true; nmax = "4294967295ULL"; }
-
-                    if (nmax && narrow_unsigned) {
-                        emit_formatted(codegen, "(%s)gray_ucast_check((int64_t)%s_to_u64(", gray_type_to_c_codegen(codegen, target), bp);
-                        emit_expression(codegen, val);
-                        emit_formatted(codegen, "), %s, \"%s\", \"%s\", %d)", nmax, target, codegen->file, node->token.line);
-                    } else if (nmax) {
-                        emit_formatted(codegen, "(%s)gray_cast_check(%s_to_i64(", gray_type_to_c_codegen(codegen, target), bp);
-                        emit_expression(codegen, val);
-                        emit_formatted(codegen, "), %s, %s, \"%s\", \"%s\", %d)", nmin, nmax, target, codegen->file, node->token.line);
-                    } else if (dst_unsigned) {
-                        emit_formatted(codegen, "(%s)%s_to_u64(", gray_type_to_c_codegen(codegen, target), bp);
-                        emit_expression(codegen, val);
-                        emit(codegen, ")");
-                    } else {
-                        emit_formatted(codegen, "(%s)%s_to_i64(", gray_type_to_c_codegen(codegen, target), bp);
-                        emit_expression(codegen, val);
-                        emit(codegen, ")");
-                    }
-                }
-                break;
-            }
-
-            /* Numeric casts: range-checked for narrowing, raw for widening */
-            const char *smin = NULL, *smax = NULL;
-            bool is_unsigned = false;
-            if (strcmp(target, "i8") == 0) { smin = "-128"; smax = "127"; }
-            else if (strcmp(target, "i16") == 0) { smin = "-32768"; smax = "32767"; }
-            else if (strcmp(target, "i32") == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-            else if (strcmp(target, "u8") == 0 || strcmp(target, "byte") == 0) { is_unsigned = true; smax = "255"; }
-            else if (strcmp(target, "u16") == 0) { is_unsigned = true; smax = "65535"; }
-            else if (strcmp(target, "u32") == 0) { is_unsigned = true; smax = "4294967295ULL"; }
-
-            if (smax && is_unsigned) {
-                emit_formatted(codegen, "(%s)gray_ucast_check(", gray_type_to_c_codegen(codegen, target));
-                emit_expression(codegen, val);
-                emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, target, codegen->file, node->token.line);
-            } else if (smax) {
-                emit_formatted(codegen, "(%s)gray_cast_check(", gray_type_to_c_codegen(codegen, target));
-                emit_expression(codegen, val);
-                emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d)", smin, smax, target, codegen->file, node->token.line);
-            } else if ((strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0) &&
-                       val_kind == TK_INT) {
-                /* signed int → uint/u64: panic if value is negative */
-                emit_formatted(codegen, "(uint64_t)gray_ucast_check((int64_t)(");
-                emit_expression(codegen, val);
-                emit_formatted(codegen, "), 18446744073709551615ULL, \"%s\", \"%s\", %d)", target, codegen->file, node->token.line);
-            } else if ((strcmp(target, "int") == 0 || strcmp(target, "i64") == 0) &&
-                       val_kind == TK_UINT &&
-                       val_t && val_t->name &&
-                       (strcmp(val_t->name, "uint") == 0 || strcmp(val_t->name, "u64") == 0)) {
-                /* uint/u64 → int/i64: panic if value exceeds INT64_MAX */
-                emit_formatted(codegen, "(int64_t)gray_uint_to_int_check((uint64_t)(");
-                emit_expression(codegen, val);
-                emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
-            } else {
-                emit_formatted(codegen, "((%s)(", gray_type_to_c_codegen(codegen, target));
-                emit_expression(codegen, val);
-                emit(codegen, "))");
-            }
-        }
+    case NODE_CAST_EXPR:
+        emit_conversion(codegen, node->data.cast.value, node->data.cast.target_type, node->token.line);
         break;
-    }
 
     case NODE_NEW_EXPR: {
         /* new(Type) → zeroed allocation on default arena, returns pointer.
@@ -4264,48 +4252,9 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
 
     /* Sized type conversion functions: i8(), u16(), f32(), etc. */
     if (node->data.call.arg_count == 1) {
-        const char *cast_type = NULL;
-        if (strcmp(func, "int") == 0) cast_type = "int64_t";
-        else if (strcmp(func, "uint") == 0) cast_type = "uint64_t";
-        else if (strcmp(func, "float") == 0) cast_type = "double";
-        else if (strcmp(func, "char") == 0) cast_type = "int32_t";
-        else if (strcmp(func, "byte") == 0) cast_type = "uint8_t";
-        else if (strcmp(func, "bool") == 0) cast_type = "bool";
-        if (cast_type) {
-            AstNode *carg = node->data.call.args[0];
-            /* Bigint→scalar: e.g., int(x128) → gray_i128_to_i64(x128) */
-            const char *src_bi = resolve_bigint_type(codegen, carg);
-            if (src_bi) {
-                const char *src_pfx = bigint_prefix(src_bi);
-                const char *to_suffix = strcmp(func, "uint") == 0 ? "u64" : "i64";
-                emit_formatted(codegen, "((%s)%s_to_%s(", cast_type, src_pfx, to_suffix);
-                emit_expression(codegen, carg);
-                emit(codegen, "))");
-                return true;
-            }
-            /* String→numeric conversion */
-            GrayType *carg_t = codegen->type_table ? typetable_get(codegen->type_table, carg) : NULL;
-            bool is_string_src = (carg->kind == NODE_STRING_VALUE || carg->kind == NODE_INTERPOLATED_STRING ||
-                                  (carg_t && carg_t->kind == TK_STRING));
-            if (is_string_src && (strcmp(func, "int") == 0 || strcmp(func, "uint") == 0)) {
-                emit(codegen, "gray_builtin_string_to_int(");
-                emit_expression(codegen, carg);
-                emit(codegen, ")");
-            } else if (is_string_src && strcmp(func, "float") == 0) {
-                emit(codegen, "gray_builtin_string_to_float(");
-                emit_expression(codegen, carg);
-                emit(codegen, ")");
-            } else if (strcmp(func, "int") == 0 &&
-                (carg->kind == NODE_FLOAT_VALUE || (carg_t && carg_t->kind == TK_FLOAT))) {
-                /* Use overflow-safe conversion for float→int */
-                emit_formatted(codegen, "gray_float_to_int((double)(");
-                emit_expression(codegen, carg);
-                emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
-            } else {
-                emit_formatted(codegen, "((%s)(", cast_type);
-                emit_expression(codegen, carg);
-                emit(codegen, "))");
-            }
+        if (strcmp(func, "int") == 0 || strcmp(func, "uint") == 0 || strcmp(func, "float") == 0 ||
+            strcmp(func, "char") == 0 || strcmp(func, "byte") == 0 || strcmp(func, "bool") == 0) {
+            emit_conversion(codegen, node->data.call.args[0], func, node->token.line);
             return true;
         }
         /* string() conversion */
@@ -7456,33 +7405,8 @@ static bool emit_narrowing_cast(CodeGen *codegen, const char *target,
         codegen->current_var_type = outer_type;
         return true;
     }
-    const char *smin = NULL, *smax = NULL;
-    bool is_unsigned = false;
-    if      (strcmp(target, "i8")   == 0) { smin = "-128";          smax = "127"; }
-    else if (strcmp(target, "i16")  == 0) { smin = "-32768";        smax = "32767"; }
-    else if (strcmp(target, "i32")  == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-    else if (strcmp(target, "u8")   == 0 ||
-             strcmp(target, "byte") == 0) { is_unsigned = true; smax = "255"; }
-    else if (strcmp(target, "u16")  == 0) { is_unsigned = true; smax = "65535"; }
-    else if (strcmp(target, "u32")  == 0) { is_unsigned = true; smax = "4294967295ULL"; }
-    else return false;
-
-    const char *c_target = gray_type_to_c_codegen(codegen, target);
-    if (codegen->in_const_decl) {
-        /* File-scope const: typechecker already validated the value fits;
-         * emit a plain cast so C sees a compile-time constant. */
-        emit_formatted(codegen, "(%s)(", c_target);
-        emit_expression(codegen, val);
-        emit(codegen, ")");
-    } else if (is_unsigned) {
-        emit_formatted(codegen, "(%s)gray_ucast_check(", c_target);
-        emit_expression(codegen, val);
-        emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, target, codegen->file, line);
-    } else {
-        emit_formatted(codegen, "(%s)gray_cast_check(", c_target);
-        emit_expression(codegen, val);
-        emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d)", smin, smax, target, codegen->file, line);
-    }
+    if (!needs_conversion(codegen, val, target)) return false;
+    emit_scalar_conversion(codegen, val, NULL, codegen->type_table ? typetable_get(codegen->type_table, val) : NULL, target, line);
     return true;
 }
 
@@ -8420,6 +8344,9 @@ static void emit_assign_to_place(CodeGen *codegen, AstNode *node) {
         } else {
             emit_expression(codegen, node->data.assign.value);
         }
+    } else if (node->data.assign.op == TOK_ASSIGN) {
+        GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+        emit_value_as(codegen, tgt_t && type_is_numeric(tgt_t) ? tgt_t->name : NULL, node->data.assign.value);
     } else {
         emit_expression(codegen, node->data.assign.value);
     }
diff --git a/grayc/src/runtime/bigint.h b/grayc/src/runtime/bigint.h
index 2b205e5..1dd2b8f 100644
--- a/grayc/src/runtime/bigint.h
+++ b/grayc/src/runtime/bigint.h
@@ -128,6 +128,100 @@ static inline uint64_t gray_u256_to_u64(gray_u256 a) {
     return a.w[0];
 }
 
+/* --- Conversions From and To Floats --- */
+
+/* A magnitude as mantissa * 2^shift; bits below the mantissa leave a trace in
+ * its last bit, so that the one conversion to a float rounds as from the whole. */
+static inline unsigned __int128 gray_wide_mantissa(const uint64_t w[4], int *shift) {
+    unsigned __int128 high = (unsigned __int128)w[3] << 64 | w[2], low = (unsigned __int128)w[1] << 64 | w[0];
+    *shift = 0;
+    if (high == 0) return low;
+    int lead = (uint64_t)(high >> 64) ? __builtin_clzll((uint64_t)(high >> 64)) : 64 + __builtin_clzll((uint64_t)high);
+    *shift = 128 - lead;
+    unsigned __int128 kept = lead ? high << lead | low >> (128 - lead) : high;
+    return kept | ((lead ? low << lead : low) != 0);
+}
+
+static inline double gray_wide_to_f64(const uint64_t w[4]) {
+    int shift;
+    unsigned __int128 m = gray_wide_mantissa(w, &shift);
+    return __builtin_ldexp((double)m, shift);
+}
+
+static inline float gray_wide_to_f32(const uint64_t w[4]) {
+    int shift;
+    unsigned __int128 m = gray_wide_mantissa(w, &shift);
+    return __builtin_ldexpf((float)m, shift);
+}
+
+static inline void gray_wide_negate(uint64_t w[4]) {
+    uint64_t carry = 1;
+    for (int i = 0; i < 4; i++) {
+        w[i] = ~w[i] + carry;
+        carry = carry && w[i] == 0;
+    }
+}
+
+#define GRAY_WIDE_TO_FLOAT(type, words, is_negative) \
+static inline double gray_##type##_to_f64(gray_##type a) { \
+    uint64_t w[4] = words; \
+    if (is_negative) { gray_wide_negate(w); return -gray_wide_to_f64(w); } \
+    return gray_wide_to_f64(w); \
+} \
+static inline float gray_##type##_to_f32(gray_##type a) { \
+    uint64_t w[4] = words; \
+    if (is_negative) { gray_wide_negate(w); return -gray_wide_to_f32(w); } \
+    return gray_wide_to_f32(w); \
+}
+#define GRAY_WORDS(...) {__VA_ARGS__}
+GRAY_WIDE_TO_FLOAT(i128, GRAY_WORDS(a.lo, (uint64_t)a.hi, a.hi < 0 ? UINT64_MAX : 0, a.hi < 0 ? UINT64_MAX : 0), a.hi < 0)
+GRAY_WIDE_TO_FLOAT(u128, GRAY_WORDS(a.lo, a.hi, 0, 0), false)
+GRAY_WIDE_TO_FLOAT(i256, GRAY_WORDS(a.w[0], a.w[1], a.w[2], a.w[3]), (int64_t)a.w[3] < 0)
+GRAY_WIDE_TO_FLOAT(u256, GRAY_WORDS(a.w[0], a.w[1], a.w[2], a.w[3]), false)
+
+/* The words of the truncated float, which must have at most `bits` bits. */
+static inline void gray_wide_from_f64(double v, bool is_signed, int bits, const char *to, uint64_t w[4]) {
+    double m = __builtin_trunc(v), limit = __builtin_ldexp(1.0, is_signed ? bits - 1 : bits);
+    if (!(m < limit && (is_signed ? m >= -limit : m >= 0)))
+        gray_panic_code("P0103", "cast from float failed; value is outside the representable range of %s", to);
+    bool negative = m < 0;
+    int exponent;
+    uint64_t mantissa = (uint64_t)__builtin_ldexp(__builtin_frexp(negative ? -m : m, &exponent), 53);
+    int shift = exponent - 53;
+    w[0] = w[1] = w[2] = w[3] = 0;
+    if (shift <= 0) {
+        w[0] = shift > -64 ? mantissa >> -shift : 0;
+    } else {
+        w[shift / 64] = mantissa << shift % 64;
+        if (shift % 64 && shift / 64 < 3) w[shift / 64 + 1] = mantissa >> (64 - shift % 64);
+    }
+    if (negative) gray_wide_negate(w);
+}
+
+static inline gray_i128 gray_i128_from_f64(double v) {
+    uint64_t w[4];
+    gray_wide_from_f64(v, true, 128, "i128", w);
+    return (gray_i128){w[0], (int64_t)w[1]};
+}
+
+static inline gray_u128 gray_u128_from_f64(double v) {
+    uint64_t w[4];
+    gray_wide_from_f64(v, false, 128, "u128", w);
+    return (gray_u128){w[0], w[1]};
+}
+
+static inline gray_i256 gray_i256_from_f64(double v) {
+    uint64_t w[4];
+    gray_wide_from_f64(v, true, 256, "i256", w);
+    return (gray_i256){{w[0], w[1], w[2], w[3]}};
+}
+
+static inline gray_u256 gray_u256_from_f64(double v) {
+    uint64_t w[4];
+    gray_wide_from_f64(v, false, 256, "u256", w);
+    return (gray_u256){{w[0], w[1], w[2], w[3]}};
+}
+
 /* --- Conversions Between Wide Types --- */
 
 static inline void gray_wide_cast_require(bool fits, const char *from, const char *to) {
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index eedcfe3..3432c2f 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -319,7 +319,7 @@ static inline uint64_t gray_usized_mul_check(int64_t a, int64_t b, uint64_t max_
 }
 
 /* Safe narrowing cast with overflow check */
-static inline int64_t gray_cast_check(int64_t v, int64_t min_val, int64_t max_val,
+static inline int64_t gray_cast_check_int(int64_t v, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
     if (v < min_val || v > max_val)
         gray_panic_code_at(file, line, "P0018", "cast to %s failed; value %lld is outside the valid range (%lld to %lld)",
@@ -327,7 +327,7 @@ static inline int64_t gray_cast_check(int64_t v, int64_t min_val, int64_t max_va
     return v;
 }
 
-static inline uint64_t gray_ucast_check(int64_t v, uint64_t max_val,
+static inline uint64_t gray_ucast_check_int(int64_t v, uint64_t max_val,
     const char *type_name, const char *file, int line) {
     if (v < 0 || (uint64_t)v > max_val)
         gray_panic_code_at(file, line, "P0019", "cast to %s failed; value %lld is outside the valid range (0 to %llu)",
@@ -345,7 +345,8 @@ static inline int64_t gray_uint_to_int_check(uint64_t v, const char *file, int l
 
 /* Safe float-to-int conversion with overflow check */
 static inline int64_t gray_float_to_int(double v, const char *file, int line) {
-    if (v > 9.223372036854775e+18 || v < -9.223372036854775e+18 ||
+    /* 9223372036854775808.0 == 2^63 exactly as a double */
+    if (v >= 9223372036854775808.0 || v < -9223372036854775808.0 ||
         v != v /* NaN */)
         gray_panic_code_at(file, line, "P0020", "cannot convert float to int; the value is too large, too small, or NaN");
     return (int64_t)v;
@@ -354,11 +355,49 @@ static inline int64_t gray_float_to_int(double v, const char *file, int line) {
 /* Safe float-to-uint conversion with range check */
 static inline uint64_t gray_float_to_uint(double v, const char *file, int line) {
     /* 1.8446744073709552e+19 == 2^64 exactly as a double; any value >= it overflows uint64 */
-    if (v < 0.0 || v >= 1.8446744073709552e+19 || v != v /* NaN */)
+    if (v <= -1.0 || v >= 1.8446744073709552e+19 || v != v /* NaN */)
         gray_panic_code_at(file, line, "P0091", "cannot convert float to uint; the value is negative, too large, or NaN");
     return (uint64_t)v;
 }
 
+static inline int64_t gray_cast_check_uint(uint64_t v, int64_t min_val, int64_t max_val,
+    const char *type_name, const char *file, int line) {
+    if (v > (uint64_t)max_val)
+        gray_panic_code_at(file, line, "P0018", "cast to %s failed; value %llu is outside the valid range (%lld to %lld)",
+            type_name, (unsigned long long)v, (long long)min_val, (long long)max_val);
+    return (int64_t)v;
+}
+
+static inline uint64_t gray_ucast_check_uint(uint64_t v, uint64_t max_val,
+    const char *type_name, const char *file, int line) {
+    if (v > max_val)
+        gray_panic_code_at(file, line, "P0019", "cast to %s failed; value %llu is outside the valid range (0 to %llu)",
+            type_name, (unsigned long long)v, (unsigned long long)max_val);
+    return v;
+}
+
+static inline int64_t gray_cast_check_float(double v, int64_t min_val, int64_t max_val,
+    const char *type_name, const char *file, int line) {
+    return gray_cast_check_int(gray_float_to_int(v, file, line), min_val, max_val, type_name, file, line);
+}
+
+static inline uint64_t gray_ucast_check_float(double v, uint64_t max_val,
+    const char *type_name, const char *file, int line) {
+    return gray_ucast_check_uint(gray_float_to_uint(v, file, line), max_val, type_name, file, line);
+}
+
+/* The check reads the value in its own type: converting it first could change it. */
+#define GRAY_CAST_CHECK_FOR(kind, v) _Generic((v), \
+    unsigned long: gray_##kind##_check_uint, unsigned long long: gray_##kind##_check_uint, \
+    float: gray_##kind##_check_float, double: gray_##kind##_check_float, \
+    default: gray_##kind##_check_int)
+#define gray_cast_check(v, min_val, max_val, type_name, file, line) \
+    ({ __auto_type _checked = (v); \
+       GRAY_CAST_CHECK_FOR(cast, _checked)(_checked, min_val, max_val, type_name, file, line); })
+#define gray_ucast_check(v, max_val, type_name, file, line) \
+    ({ __auto_type _checked = (v); \
+       GRAY_CAST_CHECK_FOR(ucast, _checked)(_checked, max_val, type_name, file, line); })
+
 /* --- Result types for (value, Error) destructuring --- */
 
 /* Forward declarations for types defined in other headers */
diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index a2d706a..7c33e41 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -13,6 +13,9 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <ctype.h>
+#include <errno.h>
+#include <math.h>
 #include <inttypes.h>
 #include <unistd.h>
 #include <time.h>
@@ -303,29 +306,53 @@ GrayString gray_builtin_to_string_bool(GrayArena *arena, bool v) {
 
 /* --- from_string --- */
 
-int64_t gray_builtin_string_to_int(GrayString s) {
-    char buf[GRAY_FLOAT_STR_BUF];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
-    char *end = NULL;
-    int64_t result = strtoll(buf, &end, 10);
-    if (end == buf || (*end != '\0' && *end != ' ')) {
-        gray_panic_code("P0084", "cannot convert '%s' to int", buf);
+/* A decimal integer literal, with nothing but blanks around it. The magnitude
+ * of a result that is out of range is reported as a failure. */
+static bool parse_decimal(GrayString s, bool *negative, uint64_t *magnitude) {
+    int32_t i = 0, first;
+    while (i < s.len && isspace((unsigned char)s.data[i])) i++;
+    *negative = i < s.len && s.data[i] == '-';
+    if (i < s.len && (s.data[i] == '-' || s.data[i] == '+')) i++;
+    *magnitude = 0;
+    for (first = i; i < s.len && s.data[i] >= '0' && s.data[i] <= '9'; i++) {
+        if (__builtin_mul_overflow(*magnitude, (uint64_t)10, magnitude) ||
+            __builtin_add_overflow(*magnitude, (uint64_t)(s.data[i] - '0'), magnitude)) return false;
     }
-    return result;
+    if (i == first) return false;
+    while (i < s.len && s.data[i] == ' ') i++;
+    return i == s.len;
+}
+
+int64_t gray_builtin_string_to_int(GrayString s) {
+    bool negative;
+    uint64_t magnitude;
+    if (!parse_decimal(s, &negative, &magnitude) || magnitude > (uint64_t)INT64_MAX + negative)
+        gray_panic_code("P0084", "cannot convert '%.*s' to int", (int)s.len, s.data);
+    return negative ? (int64_t)-magnitude : (int64_t)magnitude;
+}
+
+uint64_t gray_builtin_string_to_uint(GrayString s) {
+    bool negative;
+    uint64_t magnitude;
+    if (!parse_decimal(s, &negative, &magnitude) || (negative && magnitude))
+        gray_panic_code("P0084", "cannot convert '%.*s' to uint", (int)s.len, s.data);
+    return magnitude;
 }
 
 double gray_builtin_string_to_float(GrayString s) {
-    char buf[GRAY_FLOAT_STR_BUF];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char small[GRAY_FLOAT_STR_BUF];
+    char *buf = s.len < (int32_t)sizeof(small) ? small : malloc((size_t)s.len + 1);
+    if (!buf) gray_panic_code("P0085", "cannot convert '%.*s' to float", (int)s.len, s.data);
+    memcpy(buf, s.data, (size_t)s.len);
+    buf[s.len] = '\0';
     char *end = NULL;
+    errno = 0;
     double result = strtod(buf, &end);
-    if (end == buf || (*end != '\0' && *end != ' ')) {
-        gray_panic_code("P0085", "cannot convert '%s' to float", buf);
-    }
+    bool valid = end != buf && !(errno == ERANGE && isinf(result));
+    while (*end == ' ') end++;
+    if (!valid || end != buf + s.len)
+        gray_panic_code("P0085", "cannot convert '%.*s' to float", (int)s.len, s.data);
+    if (buf != small) free(buf);
     return result;
 }
 
diff --git a/grayc/src/stdlib/builtins.h b/grayc/src/stdlib/builtins.h
index da05578..03b7acd 100644
--- a/grayc/src/stdlib/builtins.h
+++ b/grayc/src/stdlib/builtins.h
@@ -428,6 +428,7 @@ GrayString gray_builtin_to_string_bool(GrayArena *arena, bool v);
 
 /* from_string — internal runtime overloads */
 int64_t gray_builtin_string_to_int(GrayString s);
+uint64_t gray_builtin_string_to_uint(GrayString s);
 double gray_builtin_string_to_float(GrayString s);
 
 /* format float for interpolation */
-- 
2.43.0


From 702046e9547b7350cae4ef56dae393a0c7106756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 52/56] fix: default values of parameters and fields belong to
 the module that declares them

---
 grayc/src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grayc/src/main.c b/grayc/src/main.c
index 255cb89..8cab7be 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -387,6 +387,8 @@ static void rewrite_labels_scoped(AstNode *node, const char **orig, const char *
 
 static void rewrite_function_body(AstNode *fn, const char **orig, const char **prefixed, int count, Arena *arena) {
     int outer = local_name_count;
+    for (int i = 0; i < fn->data.func_decl.param_count; i++)
+        rewrite_labels(fn->data.func_decl.params[i].default_value, orig, prefixed, count, arena);
     for (int i = 0; i < fn->data.func_decl.param_count; i++)
         add_local_name(fn->data.func_decl.params[i].name);
     for (int i = 0; fn->data.func_decl.return_names && i < fn->data.func_decl.return_type_count; i++)
@@ -1533,6 +1535,8 @@ int main(int argc, char **argv) {
                         imp_stmt->data.struct_decl.name = prefixed;
                         /* Rewrite field types that reference other imported types */
                         for (int fld = 0; fld < imp_stmt->data.struct_decl.field_count; fld++) {
+                            rewrite_labels(imp_stmt->data.struct_decl.fields[fld].default_value,
+                                orig_names, new_names, name_count, arena);
                             const char *ft = imp_stmt->data.struct_decl.fields[fld].type_name;
                             if (!ft) continue;
                             imp_stmt->data.struct_decl.fields[fld].type_name = rewrite_type_name(
-- 
2.43.0


From adecdf318cbb207cfb1c2c4a2dcd63b84045e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 53/56] fix: the program's own type is not taken for a module's
 type of the same name

---
 grayc/src/codegen/codegen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d8792cd..551ba3c 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -88,6 +88,13 @@ static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
  * Returns the prefixed name if found, otherwise returns the original. */
 static const char *resolve_unprefixed_name(CodeGen *codegen, const char *name) {
     if (!codegen || !name) return name;
+    /* A declaration of exactly this name comes before any module's */
+    for (int i = 0; i < codegen->struct_decl_count; i++) {
+        if (strcmp(codegen->struct_decls[i]->data.struct_decl.name, name) == 0) return name;
+    }
+    for (int i = 0; i < codegen->enum_count; i++) {
+        if (strcmp(codegen->enum_names[i], name) == 0) return name;
+    }
     for (int i = 0; i < codegen->struct_decl_count; i++) {
         const char *dn = codegen->struct_decls[i]->data.struct_decl.name;
         const char *us = strrchr(dn, '_');
-- 
2.43.0


From 29f9924042f4f33fed4a382bd529bbcc03391315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 54/56] fix: an array field of a call's result can be indexed

---
 grayc/src/codegen/codegen.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 551ba3c..2743ddd 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -83,6 +83,12 @@ static void emit_value_as(CodeGen *codegen, const char *type_name, AstNode *valu
 static const char *array_element_c_type(CodeGen *codegen, const char *element_type);
 static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
 
+/* A call's result, or a field of one, is no place in C. */
+static bool is_part_of_call_result(AstNode *node) {
+    while (node->kind == NODE_MEMBER_EXPR) node = node->data.member.object;
+    return node->kind == NODE_CALL_EXPR;
+}
+
 /* Resolve an unprefixed type name (e.g. "Point") to its module-prefixed
  * form (e.g. "lib_Point") by searching struct declarations and enum names.
  * Returns the prefixed name if found, otherwise returns the original. */
@@ -3176,7 +3182,7 @@ static void emit_expression_node(CodeGen *codegen, AstNode *node) {
                       my_dp, codegen->file, node->token.line, my_dp, sanitize_name(arr_ptr_field), c_elem);
                 emit_expression(codegen, node->data.index_expr.index);
                 emit(codegen, "); }))");
-            } else if (node->data.index_expr.left->kind == NODE_CALL_EXPR) {
+            } else if (is_part_of_call_result(node->data.index_expr.left)) {
                 emit_formatted(codegen, "(*({ GrayArray _ea = ");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, "; &GRAY_ARRAY_GET(_ea, %s, ", c_elem);
-- 
2.43.0


From 9eae377371f907f84aa7f29287f3484003b514ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 55/56] fix: functions brought in by using are checked like
 qualified calls and never hide the file's own

---
 grayc/src/codegen/codegen.c         |  4 +++-
 grayc/src/typechecker/typechecker.c | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 2743ddd..934a447 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -6554,7 +6554,9 @@ static void emit_call(CodeGen *codegen, AstNode *node) {
                 {"init","mem"},{"free","mem"},{"reset","mem"},{"destroy","mem"},
                 {NULL,NULL}
             };
-            for (int ui = 0; ui < codegen->using_module_count; ui++) {
+            /* A function of the file's own comes before any module's */
+            bool own = find_function(codegen, func) != NULL;
+            for (int ui = 0; ui < codegen->using_module_count && !own; ui++) {
                 const char *umod = codegen->using_modules[ui];
                 const char *real_mod = resolve_alias(codegen, umod);
                 /* 1) Check stdlib table */
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 5aef920..7834fa5 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -5286,8 +5286,8 @@ static void resolve_qualified_type(TypeChecker *checker, AstNode *obj) {
     obj->data.label.value = arena_copy_string(checker->arena, prefixed);
 }
 
-/* A bare call of a stdlib function that 'using' brings into scope is from here
- * on the qualified call, which has its arguments and its result checked. */
+/* A bare call of a function that 'using' brings into scope is from here on the
+ * qualified call, which has its arguments and its result checked. */
 static void qualify_using_call(TypeChecker *checker, AstNode *node) {
     AstNode *fn = node->data.call.function;
     if (!fn || fn->kind != NODE_LABEL) return;
@@ -5300,11 +5300,14 @@ static void qualify_using_call(TypeChecker *checker, AstNode *node) {
         const char *real_mod = typechecker_resolve_alias(checker, umod);
         char prefixed[MSG_BUF_SIZE];
         snprintf(prefixed, sizeof(prefixed), "%s_%s", real_mod, name);
-        if (find_func(checker, prefixed)) return;
-        for (int field_index = 0; _using_funcs[field_index].func; field_index++) {
-            if (strcmp(name, _using_funcs[field_index].func) != 0 ||
-                strcmp(real_mod, _using_funcs[field_index].mod) != 0 ||
-                scope_lookup(checker->current_scope, umod)) continue;
+        FuncSig *declared = find_func(checker, prefixed);
+        if (declared && declared->is_private) return;
+        bool provides = declared != NULL;
+        for (int field_index = 0; _using_funcs[field_index].func && !provides; field_index++) {
+            provides = strcmp(name, _using_funcs[field_index].func) == 0 &&
+                       strcmp(real_mod, _using_funcs[field_index].mod) == 0;
+        }
+        if (provides && !scope_lookup(checker->current_scope, umod)) {
             /* Under an alias, the module is known by the alias only */
             for (int i = 0; i < checker->alias_count; i++) {
                 if (strcmp(checker->alias_modules[i], umod) == 0) umod = checker->alias_names[i];
-- 
2.43.0


From a1201d3076658ecbc789e8b150c6c95f633129f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 56/56] fix: an unknown field of a call's result is reported

---
 grayc/src/typechecker/typechecker.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 7834fa5..4b5527e 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -6474,6 +6474,13 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
         GrayType *obj_t = resolve_expression(checker, obj);
         if (obj_t && obj_t->kind == TK_STRUCT) {
             result = struct_field_type(checker, obj_t->name, member);
+            bool is_func_field = (result->kind == TK_UNKNOWN && result->name &&
+                                  strcmp(result->name, "func") == 0);
+            if (result->kind == TK_UNKNOWN && !is_func_field && member[0] != 'v' &&
+                find_struct(checker, obj_t->name)) {
+                diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0,
+                    struct_display_name(checker, obj_t->name), member);
+            }
         } else if (obj_t && obj_t->kind != TK_UNKNOWN && obj_t->kind != TK_VOID) {
             char *msg = NULL;
             msg = typechecker_format(checker,
-- 
2.43.0

