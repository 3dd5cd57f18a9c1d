From 033763d1340b498cd456a1e746b46550a3e2ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 001/103] fix: Evaluate constant expressions with the types,
 conversions and unevaluated operands C prescribes

---
 constexpr.c | 243 +++++++++++++++++++++++++++++++---------------------
 instrsel.c  |  13 ++-
 2 files changed, 154 insertions(+), 102 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 0182a4c..cc8ca7c 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -5,6 +5,7 @@
 #include "wcc.h"
 
 static int integers_are_longs;
+static int not_evaluated;           // Set when parsing an operand that isn't evaluated, e.g. the second in 0 && 1 / 0
 
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
@@ -14,126 +15,146 @@ static Value *indirect(Value *value) {
     return value;
 }
 
+// Make the value a constant of an integer type has, by truncating & sign/zero extending it
+static long convert_integer_constant(Type *type, long value) {
+         if (type->type == TYPE_CHAR  && !type->is_unsigned) return (signed char)    value;
+    else if (type->type == TYPE_CHAR  &&  type->is_unsigned) return (unsigned char)  value;
+    else if (type->type == TYPE_SHORT && !type->is_unsigned) return (short)          value;
+    else if (type->type == TYPE_SHORT &&  type->is_unsigned) return (unsigned short) value;
+    else if (type->type == TYPE_INT   && !type->is_unsigned) return (int)            value;
+    else if (type->type == TYPE_INT   &&  type->is_unsigned) return (unsigned int)   value;
+    else if (type->type == TYPE_ENUM)                        return (int)            value;
+    else                                                     return                  value;
+}
+
+// Round a floating point constant to the precision of a floating point type
+static long double convert_floating_point_constant(Type *type, long double value) {
+         if (type->type == TYPE_FLOAT)  return (float) value;
+    else if (type->type == TYPE_DOUBLE) return (double) value;
+    else return value;
+}
+
+// The type of the result of logical and comparison operations
+static Type *new_truth_type(void) {
+    return new_type(integers_are_longs ? TYPE_LONG : TYPE_INT);
+}
+
 Value *evaluate_const_unary_int_operation(int operation, Value *value) {
     long r;
 
          if (operation == IR_BNOT) r = ~value->int_value;
     else if (operation == IR_LNOT) r = !value->int_value;
-    else if (operation == IR_ADD)  r = +value->int_value;
-    else if (operation == IR_SUB)  r = -value->int_value;
+    else if (operation == IR_ADD)  r = value->int_value;
+    else if (operation == IR_SUB)  r = 0 - (unsigned long) value->int_value;
     else return 0;
 
     // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : integer_promote_type(value->type);
-    v->type->is_unsigned = value->type->is_unsigned;
+    v->type = operation == IR_LNOT ? new_truth_type() : dup_type(integer_promote_type(value->type));
     v->is_constant = 1;
-    v->int_value = r;
+    v->int_value = convert_integer_constant(v->type, r);
 
     return v;
 }
 
 Value *evaluate_const_unary_fp_operation(int operation, Value *value) {
-    int is_int;
-    unsigned int i;
-    long double ld;
-
-         if (operation == IR_LNOT) { is_int = 1; i = !value->fp_value; }
-    else if (operation == IR_ADD)  { is_int = 0; ld = +value->fp_value; }
-    else if (operation == IR_SUB)  { is_int = 0; ld = -value->fp_value; }
-    else return 0;
-
-    // Perform integer promotions everywhere except for logical not,
     Value *v = new_value();
-    v->type = IR_LNOT ? new_type(TYPE_INT) : value->type;
     v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
+    v->type = operation == IR_LNOT ? new_truth_type() : value->type;
+
+         if (operation == IR_LNOT) v->int_value = !value->fp_value;
+    else if (operation == IR_ADD)  v->fp_value = value->fp_value;
+    else if (operation == IR_SUB)  v->fp_value = -value->fp_value;
+    else return 0;
 
     return v;
 }
 
+// Evaluate an operation on two integer or pointer constants
 Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2) {
-    int is_unsigned = src1->type->is_unsigned;
-    int is_long = src1->type->type == TYPE_LONG || src2->type->type == TYPE_LONG;
-
-    int ui =  is_unsigned && !is_long;
-    int ul =  is_unsigned &&  is_long;
-    int si = !is_unsigned && !is_long;
-    int sl = !is_unsigned &&  is_long;
-
-    unsigned int  s1ui = (unsigned int)  src1->int_value;
-    unsigned long s1ul = (unsigned long) src1->int_value;
-    int           s1si = (int)           src1->int_value;
-    long          s1sl = (long)          src1->int_value;
-
-    unsigned int  s2ui = (unsigned int)  src2->int_value;
-    unsigned long s2ul = (unsigned long) src2->int_value;
-    int           s2si = (int)           src2->int_value;
-    long          s2sl = (long)          src2->int_value;
-
-    unsigned long r = 0;
-
-    int divisor = ui ? s2ui : ul ? s2ul : si ? s2si : s2sl;
-    if (operation == IR_DIV && divisor == 0) error("Division by zero");
-    if (operation == IR_MOD && divisor == 0) error("Modulus by zero");
-
-         if (operation == IR_ADD ) { if (ui) r = s1ui +  s2ui; else if (ul) r = s1ul +  s2ul; else if (si) r = s1si +  s2si; else if (sl) r = s1sl +  s2sl; }
-    else if (operation == IR_SUB ) { if (ui) r = s1ui -  s2ui; else if (ul) r = s1ul -  s2ul; else if (si) r = s1si -  s2si; else if (sl) r = s1sl -  s2sl; }
-    else if (operation == IR_MUL ) { if (ui) r = s1ui *  s2ui; else if (ul) r = s1ul *  s2ul; else if (si) r = s1si *  s2si; else if (sl) r = s1sl *  s2sl; }
-    else if (operation == IR_DIV ) { if (ui) r = s1ui /  s2ui; else if (ul) r = s1ul /  s2ul; else if (si) r = s1si /  s2si; else if (sl) r = s1sl /  s2sl; }
-    else if (operation == IR_MOD ) { if (ui) r = s1ui %  s2ui; else if (ul) r = s1ul %  s2ul; else if (si) r = s1si %  s2si; else if (sl) r = s1sl %  s2sl; }
-    else if (operation == IR_LAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul && s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl && s2sl; }
-    else if (operation == IR_LOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul || s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl || s2sl; }
-    else if (operation == IR_BAND) { if (ui) r = s1ui &  s2ui; else if (ul) r = s1ul &  s2ul; else if (si) r = s1si &  s2si; else if (sl) r = s1sl &  s2sl; }
-    else if (operation == IR_BOR ) { if (ui) r = s1ui |  s2ui; else if (ul) r = s1ul |  s2ul; else if (si) r = s1si |  s2si; else if (sl) r = s1sl |  s2sl; }
-    else if (operation == IR_XOR ) { if (ui) r = s1ui ^  s2ui; else if (ul) r = s1ul ^  s2ul; else if (si) r = s1si ^  s2si; else if (sl) r = s1sl ^  s2sl; }
-    else if (operation == IR_BSHL) { if (ui) r = s1ui << s2ui; else if (ul) r = s1ul << s2ul; else if (si) r = s1si << s2si; else if (sl) r = s1sl << s2sl; }
-    else if (operation == IR_BSHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_ASHR) { if (ui) r = s1ui >> s2ui; else if (ul) r = s1ul >> s2ul; else if (si) r = s1si >> s2si; else if (sl) r = s1sl >> s2sl; }
-    else if (operation == IR_EQ  ) { if (ui) r = s1ui == s2ui; else if (ul) r = s1ul == s2ul; else if (si) r = s1si == s2si; else if (sl) r = s1sl == s2sl; }
-    else if (operation == IR_NE  ) { if (ui) r = s1ui != s2ui; else if (ul) r = s1ul != s2ul; else if (si) r = s1si != s2si; else if (sl) r = s1sl != s2sl; }
-    else if (operation == IR_LT  ) { if (ui) r = s1ui <  s2ui; else if (ul) r = s1ul <  s2ul; else if (si) r = s1si <  s2si; else if (sl) r = s1sl <  s2sl; }
-    else if (operation == IR_GT  ) { if (ui) r = s1ui >  s2ui; else if (ul) r = s1ul >  s2ul; else if (si) r = s1si >  s2si; else if (sl) r = s1sl >  s2sl; }
-    else if (operation == IR_LE  ) { if (ui) r = s1ui <= s2ui; else if (ul) r = s1ul <= s2ul; else if (si) r = s1si <= s2si; else if (sl) r = s1sl <= s2sl; }
-    else if (operation == IR_GE  ) { if (ui) r = s1ui >= s2ui; else if (ul) r = s1ul >= s2ul; else if (si) r = s1si >= s2si; else if (sl) r = s1sl >= s2sl; }
-    else return 0;
+    // The operands are converted to a common type, except for shifts, where the type is
+    // that of the promoted left operand.
+    Type *type;
+    if (operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR)
+        type = integer_promote_type(src1->type);
+    else
+        type = operation_type(src1, src2, 0);
+
+    int is_unsigned = type->is_unsigned || !is_integer_type(type);
+
+    long s1 = convert_integer_constant(type, src1->int_value);
+    long s2 = convert_integer_constant(type, src2->int_value);
+    unsigned long u1 = s1;
+    unsigned long u2 = s2;
+
+    long r;
+    int is_truth = 0;
+
+    if ((operation == IR_DIV || operation == IR_MOD) && s2 == 0) {
+        if (!not_evaluated) error(operation == IR_DIV ? "Division by zero" : "Modulus by zero");
+        r = 0;
+    }
+    else if (operation == IR_ADD ) r = u1 + u2;
+    else if (operation == IR_SUB ) r = u1 - u2;
+    else if (operation == IR_MUL ) r = u1 * u2;
+    else if (operation == IR_DIV ) { if (is_unsigned) r = u1 / u2; else if (s2 == -1) r = 0 - u1; else r = s1 / s2; }
+    else if (operation == IR_MOD ) { if (is_unsigned) r = u1 % u2; else if (s2 == -1) r = 0;      else r = s1 % s2; }
+    else if (operation == IR_BAND) r = s1 & s2;
+    else if (operation == IR_BOR ) r = s1 | s2;
+    else if (operation == IR_XOR ) r = s1 ^ s2;
+    else if (operation == IR_BSHL) r = u1 << src2->int_value;
+    else if (operation == IR_BSHR || operation == IR_ASHR) { if (is_unsigned) r = u1 >> src2->int_value; else r = s1 >> src2->int_value; }
+    else {
+        is_truth = 1;
+             if (operation == IR_LAND) r = src1->int_value && src2->int_value;
+        else if (operation == IR_LOR ) r = src1->int_value || src2->int_value;
+        else if (operation == IR_EQ  ) r = s1 == s2;
+        else if (operation == IR_NE  ) r = s1 != s2;
+        else if (operation == IR_LT  ) { if (is_unsigned) r = u1 <  u2; else r = s1 <  s2; }
+        else if (operation == IR_GT  ) { if (is_unsigned) r = u1 >  u2; else r = s1 >  s2; }
+        else if (operation == IR_LE  ) { if (is_unsigned) r = u1 <= u2; else r = s1 <= s2; }
+        else if (operation == IR_GE  ) { if (is_unsigned) r = u1 >= u2; else r = s1 >= s2; }
+        else return 0;
+    }
 
     Value *v = new_value();
-    v->type = operation_type(src1, src2, 0);
-    v->type->is_unsigned = is_unsigned;
+    v->type = is_truth ? new_truth_type() : dup_type(type);
     v->is_constant = 1;
-    v->int_value = r;
+    v->int_value = convert_integer_constant(v->type, r);
 
     return v;
 }
 
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
-    int is_int;
-    unsigned int i;
-    long double ld;
-
-         if (operation == IR_ADD) { is_int = 0; ld = src1->fp_value +  src2->fp_value; }
-    else if (operation == IR_SUB) { is_int = 0; ld = src1->fp_value -  src2->fp_value; }
-    else if (operation == IR_MUL) { is_int = 0; ld = src1->fp_value *  src2->fp_value; }
-    else if (operation == IR_DIV) { is_int = 0; ld = src1->fp_value /  src2->fp_value; }
-    else if (operation == IR_EQ ) { is_int = 1; i =  src1->fp_value == src2->fp_value; }
-    else if (operation == IR_NE ) { is_int = 1; i =  src1->fp_value != src2->fp_value; }
-    else if (operation == IR_LT ) { is_int = 1; i =  src1->fp_value <  src2->fp_value; }
-    else if (operation == IR_GT ) { is_int = 1; i =  src1->fp_value >  src2->fp_value; }
-    else if (operation == IR_LE ) { is_int = 1; i =  src1->fp_value <= src2->fp_value; }
-    else if (operation == IR_GE ) { is_int = 1; i =  src1->fp_value >= src2->fp_value; }
-    else return 0;
-
     Value *v = new_value();
-    v->type = is_int ? new_type(TYPE_INT) : type;
     v->is_constant = 1;
-    if (is_int) v->int_value = i; else v->fp_value = ld;
+    v->type = type;
+
+    long double f1 = src1->fp_value;
+    long double f2 = src2->fp_value;
+
+         if (operation == IR_ADD) v->fp_value = convert_floating_point_constant(type, f1 + f2);
+    else if (operation == IR_SUB) v->fp_value = convert_floating_point_constant(type, f1 - f2);
+    else if (operation == IR_MUL) v->fp_value = convert_floating_point_constant(type, f1 * f2);
+    else if (operation == IR_DIV) v->fp_value = convert_floating_point_constant(type, f1 / f2);
+    else {
+        v->type = new_truth_type();
+             if (operation == IR_EQ)   v->int_value = f1 == f2;
+        else if (operation == IR_NE)   v->int_value = f1 != f2;
+        else if (operation == IR_LT)   v->int_value = f1 <  f2;
+        else if (operation == IR_GT)   v->int_value = f1 >  f2;
+        else if (operation == IR_LE)   v->int_value = f1 <= f2;
+        else if (operation == IR_GE)   v->int_value = f1 >= f2;
+        else if (operation == IR_LAND) v->int_value = f1 && f2;
+        else if (operation == IR_LOR)  v->int_value = f1 || f2;
+        else return 0;
+    }
 
     return v;
 }
 
 Value *cast_constant_value(Value *src, Type *dst_type) {
-    if (types_are_compatible(src->type, dst_type)) return src;
+    if (types_are_compatible(src->type, dst_type) && (!is_integer_type(dst_type) || src->type->is_unsigned == dst_type->is_unsigned)) return src;
 
     Type *src_type = src->type;
 
@@ -148,15 +169,17 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     dst->string_literal_index = src->string_literal_index;
 
     // FP -> FP
-    // Don't bother changing precision
     if (is_floating_point_type(src_type) && is_floating_point_type(dst_type)) {
-        dst->fp_value = src->fp_value;
+        dst->fp_value = convert_floating_point_constant(dst_type, src->fp_value);
         return dst;
     }
 
     // FP -> integer
     if (is_floating_point_type(src_type) && !is_floating_point_type(dst_type)) {
-        dst->int_value = src->fp_value;
+        if (dst_type->type == TYPE_LONG && dst_type->is_unsigned && src->fp_value >= 9223372036854775808.0L)
+            dst->int_value = (unsigned long) src->fp_value;
+        else
+            dst->int_value = src->fp_value;
 
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
@@ -179,19 +202,11 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
     if (is_floating_point_type(dst_type) && !is_floating_point_type(src_type)) {
         if (src_type->is_unsigned) dst->fp_value = (unsigned long) src->int_value;
         else dst->fp_value = src->int_value;
+        dst->fp_value = convert_floating_point_constant(dst_type, dst->fp_value);
     }
 
     // Implicit else: integer -> integer
-    // int_value is already sign extended to a long, so this doesn't have to be done again.
-    // The only thing that needs doing is truncation to the target type, if it's smaller
-    // than a long.
-         if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned) dst->int_value = (         char ) src->int_value;
-    else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned) dst->int_value = (unsigned char ) src->int_value;
-    else if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned) dst->int_value = (         short) src->int_value;
-    else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned) dst->int_value = (unsigned short) src->int_value;
-    else if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned) dst->int_value = (         int  ) src->int_value;
-    else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned) dst->int_value = (unsigned int  ) src->int_value;
-    else                                                             dst->int_value =                  src->int_value;
+    dst->int_value = convert_integer_constant(dst_type, src->int_value);
 
     return dst;
 }
@@ -260,15 +275,31 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
 
 static Value *parse_binary_expression(int operation, int second_level, Value *value1) {
     next();
+
+    // The second operand of && and || may not be evaluated
+    int short_circuit = 0;
+    if (operation == IR_LAND || operation == IR_LOR) {
+        int is_true = is_floating_point_type(value1->type) ? value1->fp_value != 0.0L : value1->int_value != 0;
+        short_circuit = value1->is_constant && (operation == IR_LAND ? !is_true : is_true);
+    }
+
+    not_evaluated += short_circuit;
     Value *value2 = parse_constant_expression(second_level);
+    not_evaluated -= short_circuit;
+
     check_binary_operation_types(operation, value1, value2);
 
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
         return parse_address_plus_minus(operation, value1, value2);
 
     Type *result_type = operation_type(value1, value2, 0);
-    if (is_floating_point_type(result_type))
+    if (is_floating_point_type(result_type)) {
+        if (!is_floating_point_type(value1->type) || !is_floating_point_type(value2->type)) {
+            value1 = cast_constant_value(value1, result_type);
+            value2 = cast_constant_value(value2, result_type);
+        }
         return evaluate_const_binary_fp_operation(operation, value1, value2, result_type);
+    }
     else
         return evaluate_const_binary_int_operation(operation, value1, value2);
 }
@@ -276,11 +307,22 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
 static Value *parse_ternary(Value *value) {
     next();
     int which = is_floating_point_type(value->type) ? !!value->fp_value : !!value->int_value;
+    not_evaluated += !which;
     Value *value1 = parse_constant_expression(TOK_TERNARY);
+    not_evaluated -= !which;
     consume(TOK_COLON, ":");
+    not_evaluated += which;
     Value *value2 = parse_constant_expression(TOK_TERNARY);
+    not_evaluated -= which;
     check_ternary_operation_types(value, value1, value2);
-    return which ? value1 : value2;
+
+    Value *result = which ? value1 : value2;
+
+    // The result has the common type of both arithmetic operands
+    if (result->is_constant && is_arithmetic_type(value1->type) && is_arithmetic_type(value2->type))
+        result = cast_constant_value(result, operation_type(value1, value2, 1));
+
+    return result;
 }
 
 // Parse a constant expression using top-down precedence climbing parsing
@@ -345,6 +387,7 @@ Value *parse_constant_expression(int level) {
 
         case TOK_INTEGER:
             value = new_integral_constant(integers_are_longs ? TYPE_LONG : cur_lexer_type->type, cur_long);
+            value->type->is_unsigned = cur_lexer_type->is_unsigned;
             next();
             break;
 
@@ -470,9 +513,11 @@ Value *parse_constant_expression(int level) {
 }
 
 Value *parse_constant_integer_expression(int all_longs) {
+    int old_integers_are_longs = integers_are_longs;
     integers_are_longs = all_longs;
-
     Value *value = parse_constant_expression(TOK_EQ);
+    integers_are_longs = old_integers_are_longs;
+
     if (!value->is_constant) error("Expected a constant expression");
     if (!is_integer_type(value->type)) error("Expected an integer constant expression");
     return value;
diff --git a/instrsel.c b/instrsel.c
index c73ff10..d4d864f 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -622,6 +622,10 @@ static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long do
 }
 
 static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2) {
+    // If it's executed, the behavior is undefined, but it needn't be executed
+    if ((operation == IR_DIV || operation == IR_MOD) && !src2->int_value)
+        return merge_cst_int_node(igraph, node_id, 0, 0);
+
     Value *value = evaluate_const_binary_int_operation(operation, src1, src2);
 
     if (!value)
@@ -636,9 +640,9 @@ static Value* merge_fp_constants(IGraph *igraph, int node_id, int operation, Val
     if (!value)
         return 0;
     else if (is_floating_point_type(value->type))
-        merge_cst_fp_node(igraph, node_id, type, value->fp_value);
+        return merge_cst_fp_node(igraph, node_id, type, value->fp_value);
     else
-        merge_cst_int_node(igraph, node_id, value->int_value, 0);
+        return merge_cst_int_node(igraph, node_id, value->int_value, 0);
 }
 
 static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
@@ -664,7 +668,10 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     if (!src1 || !cst1) return 0;
 
     // Unary operations
-    if (operation == IR_BNOT) return merge_cst_int_node(igraph, node_id, ~src1->int_value, src1->type->is_unsigned);
+    if (operation == IR_BNOT) {
+        Value *value = evaluate_const_unary_int_operation(operation, src1);
+        return merge_cst_int_node(igraph, node_id, value->int_value, value->type->is_unsigned);
+    }
 
     // Binary operations
     int cst2 = cst1 && (src2 && src2->is_constant);
-- 
2.43.0


From a041f504e23b7b8cf9da42eedc294fb7b9564348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 002/103] fix: Test all bytes of an integer in memory in
 conditional jumps

---
 codegen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/codegen.c b/codegen.c
index 762175f..14c6403 100644
--- a/codegen.c
+++ b/codegen.c
@@ -496,6 +496,15 @@ static Tac *add_add_rsp(Tac *ir, int amount) {
 }
 
 // Add prologue, epilogue, stack alignment pushes/pops, function calls and main() return result
+static char *sized_cmpz_template(Type *type) {
+    switch (get_type_size(type)) {
+        case 1:  return "cmpb $0, %v1";
+        case 2:  return "cmpw $0, %v1";
+        case 4:  return "cmpl $0, %v1";
+        default: return "cmpq $0, %v1";
+    }
+}
+
 void add_final_x86_instructions(Function *function, char *function_name) {
     int stack_size;             // Size of the stack containing local variables and spilled registers
     int *saved_registers;       // Callee saved registers
@@ -632,6 +641,11 @@ void add_final_x86_instructions(Function *function, char *function_name) {
                 break;
             }
 
+            case X_CMPZ:
+                // The instruction selection rules don't know the size of what is in memory
+                ir->x86_template = sized_cmpz_template(ir->src1->type);
+                break;
+
             case IR_RETURN:
                 ir = insert_end_of_function(ir, saved_registers);
                 added_end_of_function = 1;
-- 
2.43.0


From d88289e8ddd37473f03f0d27e919ad3aa587107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 003/103] fix: Signed modulus, and multiplication, division and
 modulus by large powers of two

---
 ssa.c | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/ssa.c b/ssa.c
index bff1449..a9cf2d8 100644
--- a/ssa.c
+++ b/ssa.c
@@ -19,11 +19,47 @@ typedef struct coalesce {
     src, dst, cost;
 } Coalesce;
 
+static Value *new_typed_integral_constant(Type *type, long value) {
+    Value *result = new_integral_constant(type->type, value);
+    result->type->is_unsigned = type->is_unsigned;
+    return result;
+}
+
+static Value *new_typed_vreg(Function *function, Type *type) {
+    Value *result = new_value();
+    result->type = dup_type(type);
+    result->vreg = ++function->vreg_count;
+    return result;
+}
+
+// The tac is dst = v & (modulus - 1), which isn't the remainder if v is negative. The sign
+// of the remainder is the sign of v, so if v is negative and the remainder isn't zero,
+// modulus must be subtracted.
+//   remainder = v & (modulus - 1)
+//   dst = remainder - ((remainder + modulus - 1) & modulus & (v >> (bits - 1)))
+static void add_signed_modulus_correction(Function *function, Tac *tac, Value *v, unsigned long modulus) {
+    Type *type = v->type;
+    Value *dst = tac->dst;
+    Value *remainder = new_typed_vreg(function, type);
+    Value *sum = new_typed_vreg(function, type);
+    Value *is_nonzero = new_typed_vreg(function, type);
+    Value *sign = new_typed_vreg(function, type);
+    Value *correction = new_typed_vreg(function, type);
+
+    tac->dst = remainder;
+    tac = insert_instruction_after_from_operation(tac, IR_ADD, sum, dup_value(remainder), new_typed_integral_constant(type, modulus - 1));
+    tac = insert_instruction_after_from_operation(tac, IR_BAND, is_nonzero, dup_value(sum), new_typed_integral_constant(type, modulus));
+    tac = insert_instruction_after_from_operation(tac, IR_ASHR, sign, dup_value(v), new_integral_constant(TYPE_INT, get_type_size(type) * 8 - 1));
+    tac = insert_instruction_after_from_operation(tac, IR_BAND, correction, dup_value(is_nonzero), dup_value(sign));
+    tac = insert_instruction_after_from_operation(tac, IR_SUB, dst, dup_value(remainder), dup_value(correction));
+}
+
 // Optimize arithmetic operations for integer values
-void optimize_integer_arithmetic_operation(Tac *tac) {
+void optimize_integer_arithmetic_operation(Function *function, Tac *tac) {
     Value *v;
     Value *cv = 0;
-    long c, l;
+    unsigned long c;
+    long l;
 
     // If both are constants, don't optimizing, since the operation will be evaluated later on.
     if (tac->src1 && tac->src1->is_constant && tac->src2 && tac->src2->is_constant) return;
@@ -67,7 +103,7 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if (tac->src1->type->is_unsigned && (c & (c - 1)) == 0) {
+        else if (tac->src1->type->is_unsigned && c && (c & (c - 1)) == 0) {
             l = -1;
             while (c > 0) { c >>= 1; l++; }
             tac->operation = IR_BSHR;
@@ -83,12 +119,12 @@ void optimize_integer_arithmetic_operation(Tac *tac) {
             tac->src2 = 0;
         }
 
-        else if ((c & (c - 1)) == 0) {
-            l = 0;
-            while (c > 1) { c = c >> 1; l = (l << 1) | 1; }
+        else if (c && (c & (c - 1)) == 0 && (tac->src1->type->is_unsigned || cv->int_value > 0)) {
             tac->operation = IR_BAND;
             tac->src1 = v;
-            tac->src2 = new_integral_constant(TYPE_INT, l);
+            tac->src2 = new_typed_integral_constant(v->type, c - 1);
+
+            if (!v->type->is_unsigned) add_signed_modulus_correction(function, tac, v, c);
         }
     }
 }
@@ -145,7 +181,7 @@ void optimize_arithmetic_operations(Function *function) {
         if ((src1_type && is_floating_point_type(src1_type)) || (src2_type && is_floating_point_type(src2_type)))
             optimize_floating_point_arithmetic_operation(tac);
         else
-            optimize_integer_arithmetic_operation(tac);
+            optimize_integer_arithmetic_operation(function, tac);
     }
 }
 
-- 
2.43.0


From 92259c7252b0e26b40179d3c5a7af348b5168b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 004/103] fix: 17-20 bit unsigned constants don't fit in a word

---
 instrutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrutil.c b/instrutil.c
index 6277450..da09092 100644
--- a/instrutil.c
+++ b/instrutil.c
@@ -379,7 +379,7 @@ int match_value_to_rule_src(Value *v, int src) {
             else if (              src == CI4 && !v->type->is_unsigned)                                                               return 1;
 
             else if (src >= CU1 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100      ) return 1;
-            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000   ) return 1;
+            else if (src >= CU2 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x10000    ) return 1;
             else if (src >= CU3 && src <= CU4 &&  v->type->is_unsigned && v->int_value >= 0 && v->int_value < 0x100000000) return 1;
             else if (              src == CU4 &&  v->type->is_unsigned)                                                    return 1;
 
-- 
2.43.0


From 0eee84791b55cee7aaec65e16b667962fbd61ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 005/103] fix: Comparison of an unsigned long in memory with an
 unsigned 32 bit constant

---
 instrrules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index 221e446..625682a 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1723,7 +1723,7 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 0, MI1, CI1, "cmpb $%v2b, %v1b"); add_int_comparison_rules(&ntc, 1, MU1, CU1, "cmpb $%v2b, %v1b");
     add_int_comparison_rules(&ntc, 0, MI2, CI2, "cmpw $%v2w, %v1w"); add_int_comparison_rules(&ntc, 1, MU2, CU2, "cmpw $%v2w, %v1w");
     add_int_comparison_rules(&ntc, 0, MI3, CI3, "cmpl $%v2l, %v1l"); add_int_comparison_rules(&ntc, 1, MU3, CU3, "cmpl $%v2l, %v1l");
-    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU3, "cmpq $%v2q, %v1q");
+    add_int_comparison_rules(&ntc, 0, MI4, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 1, MU4, CU2, "cmpq $%v2q, %v1q");
     add_int_comparison_rules(&ntc, 0, MPV, CI3, "cmpq $%v2q, %v1q"); add_int_comparison_rules(&ntc, 0, MPV, CU3, "cmpq $%v2q, %v1q");
 
     add_long_double_comp_rules(&ntc, MLD5, MLD5, ll, ll);
-- 
2.43.0


From 625a7c4a1417d409bf48d554e7233d1702f2d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 006/103] fix: Don't evaluate the operand of sizeof and make
 its result unsigned

---
 constexpr.c | 1 +
 parser.c    | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index cc8ca7c..ead4d64 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -426,6 +426,7 @@ Value *parse_constant_expression(int level) {
         case TOK_SIZEOF: {
             int size = parse_sizeof(parse_constant_expression);
             value = new_integral_constant(TYPE_LONG, size);
+            value->type->is_unsigned = 1;
             break;
         }
 
diff --git a/parser.c b/parser.c
index 8a174ba..97a95a5 100644
--- a/parser.c
+++ b/parser.c
@@ -2162,6 +2162,7 @@ int parse_sizeof(parse_expression_function_type expr) {
 
     Type *type;
     Value *expression = 0;
+    Tac *last_tac = ir;
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
         next();
@@ -2177,6 +2178,12 @@ int parse_sizeof(parse_expression_function_type expr) {
         expression = expr(TOK_INC);
 
     if (expression) {
+        // The expression isn't evaluated, discard its instructions
+        if (ir_start && ir != last_tac) {
+            ir = last_tac;
+            ir->next = 0;
+        }
+
         if (expression->bit_field_size) error("Cannot take sizeof a bit field");
         type = expression->type;
     }
@@ -2824,6 +2831,7 @@ static void parse_expression(int level) {
 
         case TOK_SIZEOF:
             push_integral_constant(TYPE_LONG, parse_sizeof(parse_expression_and_pop));
+            vtop()->type->is_unsigned = 1;
             break;
 
         default:
-- 
2.43.0


From 901ea971fcaecaea4bbdc69ef315f6889e145036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 007/103] fix: The operands of compound assignments and their
 use on bit-fields

---
 parser.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/parser.c b/parser.c
index 97a95a5..b4b2df8 100644
--- a/parser.c
+++ b/parser.c
@@ -1995,15 +1995,24 @@ Value *prep_comp_assign(void) {
     if (!vtop()->is_lvalue) error("Cannot assign to an rvalue");
     if (!type_is_modifiable(vtop()->type)) error("Cannot assign to read-only variable");
 
-    Value *v1 = vtop();           // lvalue
+    Value *v1 = pop();          // lvalue
     push(load(dup_value(v1)));  // rvalue
     return v1;
 }
 
-// Finish compound assignment
-static void finish_comp_assign(Value *v1) {
-    push(add_convert_type_if_needed(pop(), v1->type));
-    add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+// Store the value on the top of the stack in the lvalue v1. The result on the stack is
+// the value that has been stored.
+static void store_in_lvalue(Value *v1) {
+    Value *src1 = add_convert_type_if_needed(pl(), v1->type);
+
+    if (v1->bit_field_size) {
+        add_parser_instruction(IR_SAVE_BIT_FIELD, v1, src1, 0);
+        push(load(dup_value(v1)));
+    }
+    else {
+        add_parser_instruction(IR_MOVE, v1, src1, 0);
+        push(src1);
+    }
 }
 
 static void parse_addition(int level, int for_array_subscript) {
@@ -2666,8 +2675,7 @@ static void parse_expression(int level) {
             push(src1);
             push_value_size_constant(src1);
             arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-            push(add_convert_type_if_needed(pop(), v1->type));
-            add_parser_instruction(IR_MOVE, v1, vtop(), 0);
+            store_in_lvalue(v1);
 
             break;
         }
@@ -2872,9 +2880,8 @@ static void parse_expression(int level) {
                 push(src1);
                 push_value_size_constant(src1);
                 arithmetic_operation(org_token == TOK_INC ? IR_ADD : IR_SUB, 0);
-                push(add_convert_type_if_needed(pop(), v1->type));
-                add_parser_instruction(IR_MOVE, v1, vtop(), 0);
-                pop(); // Pop the lvalue of the assignment off the stack
+                store_in_lvalue(v1);
+                pop(); // Pop the result of the assignment off the stack
                 push(src1); // Push the original rvalue back on the value stack
                 break;
             }
@@ -2906,16 +2913,16 @@ static void parse_expression(int level) {
             case TOK_OR:               next(); and_or_expr(0, TOK_AND);        break;
             case TOK_TERNARY:          next(); parse_ternary_expression(); break;
             case TOK_EQ:               next(); parse_simple_assignment(1); break;
-            case TOK_PLUS_EQ:          { Value *v = prep_comp_assign(); parse_addition(TOK_EQ, 0);                      finish_comp_assign(v); break; }
-            case TOK_MINUS_EQ:         { Value *v = prep_comp_assign(); parse_subtraction(TOK_EQ);                      finish_comp_assign(v); break; }
-            case TOK_MULTIPLY_EQ:      { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_MUL,  0); finish_comp_assign(v); break; }
-            case TOK_DIVIDE_EQ:        { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_DIV,  0); finish_comp_assign(v); break; }
-            case TOK_MOD_EQ:           { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_MOD,  0); finish_comp_assign(v); break; }
-            case TOK_BITWISE_AND_EQ:   { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_BAND, 0); finish_comp_assign(v); break; }
-            case TOK_BITWISE_OR_EQ:    { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_BOR,  0); finish_comp_assign(v); break; }
-            case TOK_BITWISE_XOR_EQ:   { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_XOR,  0); finish_comp_assign(v); break; }
-            case TOK_BITWISE_RIGHT_EQ: { Value *v = prep_comp_assign(); parse_bitwise_shift(TOK_EQ, IR_BSHR, IR_ASHR);  finish_comp_assign(v); break; }
-            case TOK_BITWISE_LEFT_EQ:  { Value *v = prep_comp_assign(); parse_bitwise_shift(TOK_EQ, IR_BSHL, IR_BSHL);  finish_comp_assign(v); break; }
+            case TOK_PLUS_EQ:          { Value *v = prep_comp_assign(); parse_addition(TOK_EQ, 0);                      store_in_lvalue(v); break; }
+            case TOK_MINUS_EQ:         { Value *v = prep_comp_assign(); parse_subtraction(TOK_EQ);                      store_in_lvalue(v); break; }
+            case TOK_MULTIPLY_EQ:      { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_MUL,  0); store_in_lvalue(v); break; }
+            case TOK_DIVIDE_EQ:        { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_DIV,  0); store_in_lvalue(v); break; }
+            case TOK_MOD_EQ:           { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_MOD,  0); store_in_lvalue(v); break; }
+            case TOK_BITWISE_AND_EQ:   { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_BAND, 0); store_in_lvalue(v); break; }
+            case TOK_BITWISE_OR_EQ:    { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_BOR,  0); store_in_lvalue(v); break; }
+            case TOK_BITWISE_XOR_EQ:   { Value *v = prep_comp_assign(); parse_arithmetic_operation(TOK_EQ, IR_XOR,  0); store_in_lvalue(v); break; }
+            case TOK_BITWISE_RIGHT_EQ: { Value *v = prep_comp_assign(); parse_bitwise_shift(TOK_EQ, IR_BSHR, IR_ASHR);  store_in_lvalue(v); break; }
+            case TOK_BITWISE_LEFT_EQ:  { Value *v = prep_comp_assign(); parse_bitwise_shift(TOK_EQ, IR_BSHL, IR_BSHL);  store_in_lvalue(v); break; }
 
             case TOK_COMMA: {
                 // Delete the last expression (if any) on thestack
-- 
2.43.0


From a8edf46eb4a0f1ef86f04c2183188a771327d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 008/103] fix: Bit-fields of 32 bits, and promotion of unsigned
 bit-fields to int

---
 ir.c     | 10 +++++++---
 parser.c |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ir.c b/ir.c
index 7cd46eb..a3779b1 100644
--- a/ir.c
+++ b/ir.c
@@ -990,6 +990,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
     Value *dst = ir->dst;
     Value *loaded_value = dup_value(ir->dst);
     loaded_value->vreg = ++function->vreg_count;
+    loaded_value->type->is_unsigned = src1->type->is_unsigned;
 
     ir->operation = IR_NOP;
     ir->dst = 0;
@@ -1017,8 +1018,11 @@ static void add_load_bit_field(Function *function, Tac *ir) {
             shifted_value = loaded_value;
 
         // Apply mask
-        unsigned int mask = (1 << bit_size) - 1;
-        ir = insert_instruction_after_from_operation(ir, IR_BAND, dst, shifted_value, new_integral_constant(TYPE_INT, mask));
+        unsigned int mask = bit_size == 32 ? -1 : (1 << bit_size) - 1;
+        Value *masked_value = dup_value(loaded_value);
+        masked_value->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_BAND, masked_value, shifted_value, new_integral_constant(TYPE_INT, mask));
+        ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, masked_value, 0);
     }
     else {
         // Shift left so that the value is at the end of the integer boundary
@@ -1036,7 +1040,7 @@ static void add_load_bit_field(Function *function, Tac *ir) {
         if (32 - bit_size)
             ir = insert_instruction_after_from_operation(ir, IR_ASHR, dst, shifted_value, new_integral_constant(TYPE_INT, 32 - bit_size));
         else
-            dst = shifted_value;
+            ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, shifted_value, 0);
     }
 }
 
diff --git a/parser.c b/parser.c
index b4b2df8..407af6c 100644
--- a/parser.c
+++ b/parser.c
@@ -146,7 +146,8 @@ static void *pop_void(void) {
 static Value *load_bit_field(Value *src1) {
     Value *dst = new_value();
     dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = src1->type->is_unsigned;
+    // Narrower bit-fields are promoted to an int, also when they are unsigned
+    dst->type->is_unsigned = src1->type->is_unsigned && src1->bit_field_size == 32;
     dst->vreg = new_vreg();
     add_parser_instruction(IR_LOAD_BIT_FIELD, dst, src1, 0);
 
@@ -290,8 +291,9 @@ static Tac *add_ir_op(int operation, Type *type, int vreg, Value *src1, Value *s
 // Returns destination type of an operation with two operands
 // https://en.cppreference.com/w/c/language/conversion
 Type *operation_type(Value *src1, Value *src2, int for_ternary) {
-    Type *src1_type = src1->type;
-    Type *src2_type = src2->type;
+    // A bit-field which is narrower than an int is promoted to an int, also when it's unsigned
+    Type *src1_type = src1->bit_field_size && src1->bit_field_size < 32 ? new_type(TYPE_INT) : src1->type;
+    Type *src2_type = src2->bit_field_size && src2->bit_field_size < 32 ? new_type(TYPE_INT) : src2->type;
 
     // Decay arrays to pointers
     if (src1_type->type == TYPE_ARRAY) src1_type = decay_array_to_pointer(src1_type);
-- 
2.43.0


From 9e984adb7c1e23e455c95eeefb9e1e18dbb98e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 009/103] fix: Labelled statements, continue in do/while,
 promotion of switch values, break and continue outside loops

---
 parser.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/parser.c b/parser.c
index 407af6c..360a82d 100644
--- a/parser.c
+++ b/parser.c
@@ -2943,7 +2943,8 @@ static void parse_expression(int level) {
 }
 
 static void parse_iteration_conditional_expression(Value **lcond, Value **cur_loop_continue_dst, Value *lend) {
-    *lcond  = new_label_dst();
+    // The label of the condition of a do/while already exists
+    if (!*lcond) *lcond = new_label_dst();
     *cur_loop_continue_dst = *lcond;
     add_jmp_target_instruction(*lcond);
 
@@ -3019,6 +3020,9 @@ static void parse_iteration_statement(void) {
         consume(TOK_RPAREN, ")");
     }
 
+    // A continue in a do/while goes to the condition, which comes after the body
+    if (loop_token == TOK_DO) cur_loop_continue_dst = lcond = new_label_dst();
+
     if (!cur_loop_continue_dst) cur_loop_continue_dst = lbody;
     add_jmp_target_instruction(lbody);
     parse_statement();
@@ -3029,8 +3033,7 @@ static void parse_iteration_statement(void) {
         consume(TOK_LPAREN, "(");
         parse_iteration_conditional_expression(&lcond, &cur_loop_continue_dst, lend);
         consume(TOK_RPAREN, ")");
-        expect(TOK_SEMI, ";");
-        while (cur_token == TOK_SEMI) next();
+        consume(TOK_SEMI, ";");
     }
 
     if (lincrement)
@@ -3093,6 +3096,8 @@ static void parse_switch_statement(void) {
     if (!is_integer_type(controlling_case_value->type))
         error("The controlling expression of a switch statement is not an integral type");
 
+    controlling_case_value = integer_promote(controlling_case_value);
+
     // Add an entry to the implicit switch stack
     case_ir_start = new_instruction(IR_NOP);
     case_ir = case_ir_start;
@@ -3137,28 +3142,24 @@ static void parse_switch_statement(void) {
     seen_switch_default     = old_seen_switch_default;
 }
 
+// Parse the statement that follows a label. It may be absent at the end of a compound statement.
+static void parse_labeled_statement(void) {
+    if (cur_token != TOK_RCURLY) parse_statement();
+}
+
 static void parse_case_statement(void) {
     next();
 
     if (!controlling_case_value) error("Case label not within a switch statement");
 
-    Value *v = parse_constant_integer_expression(0);
-
-    long value = controlling_case_value->type->type == TYPE_INT
-        ? (int) v->int_value
-        : v->int_value;
+    // Convert to controlling expression type
+    Value *v = cast_constant_value(parse_constant_integer_expression(0), controlling_case_value->type);
 
     // Ensure there are no duplicates
-    if (longmap_get(case_values, value))
+    if (longmap_get(case_values, v->int_value))
         error("Duplicate switch case value");
     else
-        longmap_put(case_values, value, (void *) 1);
-
-    // Convert to controlling expression type if necessary
-    if (v->type->type != controlling_case_value->type->type) {
-        v->type = dup_type(controlling_case_value->type);
-        v->int_value = value;
-    }
+        longmap_put(case_values, v->int_value, (void *) 1);
 
     push(v);
     push(controlling_case_value);
@@ -3175,7 +3176,7 @@ static void parse_case_statement(void) {
     ir = org_ir;
 
     add_jmp_target_instruction(ldst);
-    if (cur_token != TOK_CASE && cur_token != TOK_RCURLY) parse_statement();
+    parse_labeled_statement();
 }
 
 static void parse_default_statement() {
@@ -3190,7 +3191,7 @@ static void parse_default_statement() {
 
     case_default_label = new_label_dst();
     add_jmp_target_instruction(case_default_label);
-    parse_statement();
+    parse_labeled_statement();
 }
 
 static void parse_if_statement(void) {
@@ -3257,6 +3258,7 @@ static void parse_label_statement(char *identifier) {
         Value *dst = strmap_get(cur_function_symbol->function->labels, identifier);
         if (dst) error("Duplicate label %s", identifier);
         strmap_put(cur_function_symbol->function->labels, parser_wstrdup(identifier), ldst);
+        parse_labeled_statement();
     }
     else {
         rewind_lexer();
@@ -3357,12 +3359,14 @@ static void parse_statement(void) {
 
         case TOK_CONTINUE:
             next();
+            if (!cur_loop_continue_dst) error("Continue statement not within a loop");
             add_parser_instruction(IR_JMP, 0, cur_loop_continue_dst, 0);
             consume(TOK_SEMI, ";");
             break;
 
         case TOK_BREAK:
             next();
+            if (!cur_loop_break_dst) error("Break statement not within a loop or switch");
             add_parser_instruction(IR_JMP, 0, cur_loop_break_dst, 0);
             consume(TOK_SEMI, ";");
             break;
-- 
2.43.0


From 2378fe6bc6bdb39570d9d716cf66fe6ac50d27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 010/103] fix: Precedence of << after a relational operator and
 unary operators on constants

---
 parser.c | 36 ++++++++++++++++++++----------------
 wcc.h    |  1 +
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/parser.c b/parser.c
index 360a82d..0b2c692 100644
--- a/parser.c
+++ b/parser.c
@@ -288,6 +288,12 @@ static Tac *add_ir_op(int operation, Type *type, int vreg, Value *src1, Value *s
     return result;
 }
 
+// Evaluate a unary operation on a constant
+static Value *evaluate_const_unary_operation(int operation, Value *value) {
+    if (is_floating_point_type(value->type)) return evaluate_const_unary_fp_operation(operation, value);
+    else return evaluate_const_unary_int_operation(operation, value);
+}
+
 // Returns destination type of an operation with two operands
 // https://en.cppreference.com/w/c/language/conversion
 Type *operation_type(Value *src1, Value *src2, int for_ternary) {
@@ -2613,7 +2619,7 @@ static void parse_expression(int level) {
             check_unary_operation_type(IR_LNOT, vtop());
 
             if (vtop()->is_constant)
-                push_integral_constant(TYPE_INT, !pop()->int_value);
+                push(evaluate_const_unary_operation(IR_LNOT, pop()));
             else {
                 push_integral_constant(TYPE_INT, 0);
                 arithmetic_operation(IR_EQ, new_type(TYPE_INT));
@@ -2624,9 +2630,13 @@ static void parse_expression(int level) {
             next();
             parse_expression(TOK_INC);
             check_unary_operation_type(IR_BNOT, vtop());
-            push(integer_promote(pl()));
-            Type *type = vtop()->type;
-            add_ir_op(IR_BNOT, type, new_vreg(), pl(), 0);
+            if (vtop()->is_constant)
+                push(evaluate_const_unary_operation(IR_BNOT, pop()));
+            else {
+                push(integer_promote(pl()));
+                Type *type = vtop()->type;
+                add_ir_op(IR_BNOT, type, new_vreg(), pl(), 0);
+            }
             break;
 
         case TOK_AMPERSAND:
@@ -2713,14 +2723,8 @@ static void parse_expression(int level) {
             parse_expression(TOK_INC);
             check_unary_operation_type(IR_SUB, vtop());
 
-            if (vtop()->is_constant) {
-                if (is_sse_floating_point_type(vtop()->type))
-                    vtop()->fp_value = -vtop()->fp_value;
-                else {
-                    push_integral_constant(TYPE_INT, -1);
-                    arithmetic_operation(IR_MUL, 0);
-                }
-            }
+            if (vtop()->is_constant)
+                push(evaluate_const_unary_operation(IR_SUB, pop()));
             else {
                 if (vtop()->type->type == TYPE_LONG_DOUBLE)
                     push_floating_point_constant(TYPE_LONG_DOUBLE, -1.0L);
@@ -2902,10 +2906,10 @@ static void parse_expression(int level) {
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
             case TOK_BITWISE_LEFT:     next(); parse_bitwise_shift(TOK_PLUS, IR_BSHL, IR_BSHL); break;
-            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LT,   new_type(TYPE_INT)); break;
-            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GT,   new_type(TYPE_INT)); break;
-            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_LE,   new_type(TYPE_INT)); break;
-            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_RIGHT, IR_GE,   new_type(TYPE_INT)); break;
+            case TOK_LT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_LT,   new_type(TYPE_INT)); break;
+            case TOK_GT:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_GT,   new_type(TYPE_INT)); break;
+            case TOK_LE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_LE,   new_type(TYPE_INT)); break;
+            case TOK_GE:               next(); parse_arithmetic_operation(TOK_BITWISE_LEFT,  IR_GE,   new_type(TYPE_INT)); break;
             case TOK_DBL_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_EQ,   new_type(TYPE_INT)); break;
             case TOK_NOT_EQ:           next(); parse_arithmetic_operation(TOK_LT,            IR_NE,   new_type(TYPE_INT)); break;
             case TOK_AMPERSAND:        next(); parse_arithmetic_operation(TOK_DBL_EQ,        IR_BAND, 0); break;
diff --git a/wcc.h b/wcc.h
index 0f5649c..3f396da 100644
--- a/wcc.h
+++ b/wcc.h
@@ -986,6 +986,7 @@ void free_parser(void);
 
 // constexpr.c
 Value* evaluate_const_unary_int_operation(int operation, Value *value);
+Value *evaluate_const_unary_fp_operation(int operation, Value *value);
 Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
-- 
2.43.0


From 533e1c95ead05dfa459b6729712e6655c654aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 011/103] fix: Layout of unions, anonymous and nested structs,
 and unnamed bit-fields

---
 parser.c |  1 -
 types.c  | 76 +++++++++++++-------------------------------------------
 wcc.h    |  1 +
 3 files changed, 18 insertions(+), 60 deletions(-)

diff --git a/parser.c b/parser.c
index 0b2c692..d9ea63e 100644
--- a/parser.c
+++ b/parser.c
@@ -880,7 +880,6 @@ static int parse_struct_or_union_attribute(void) {
 
         consume(TOK_RPAREN, ")");
         consume(TOK_RPAREN, ")");
-        is_packed = 1;
     }
 
     return is_packed;
diff --git a/types.c b/types.c
index ea8bc7c..5c702e0 100644
--- a/types.c
+++ b/types.c
@@ -300,26 +300,6 @@ static StructOrUnionMember *dup_struct_or_union_member(StructOrUnionMember *src)
     return dst;
 }
 
-static StructOrUnion *dup_struct_or_union(StructOrUnion *src) {
-    StructOrUnion *dst = wmalloc(sizeof(StructOrUnion));
-    append_to_list(all_structs_and_unions, dst);
-
-    dst->size          = src->size;
-    dst->is_incomplete = src->is_incomplete;
-    dst->is_packed     = src->is_packed;
-    dst->is_union      = src->is_union;
-
-    int len;
-    for (len = 0; src->members[len]; len++);
-
-    dst->members = wcalloc(len + 1, sizeof(StructOrUnionMember *));
-
-    for (int i = 0; src->members[i]; i++)
-        dst->members[i] = dup_struct_or_union_member(src->members[i]);
-
-    return dst;
-}
-
 Type *integer_promote_type(Type *type) {
     if (!is_integer_type(type)) error("Invalid operand, expected integer type");
 
@@ -487,15 +467,8 @@ int get_type_alignment(Type *type) {
             return 16;
         case TYPE_ARRAY:
             return get_type_alignment(type->target);
-        case TYPE_STRUCT_OR_UNION: {
-            // The alignment of a struct is the max alignment of all members
-            int max = 0;
-            for (StructOrUnionMember **pmember = type->struct_or_union_desc->members; *pmember; pmember++) {
-                int alignment = get_type_alignment((*pmember)->type);
-                if (alignment > max) max = alignment;
-            }
-            return max;
-        }
+        case TYPE_STRUCT_OR_UNION:
+            return type->struct_or_union_desc->alignment;
         case TYPE_FUNCTION: // Is really a pointer to a function
             return 8;
         default:
@@ -815,14 +788,12 @@ Type *make_struct_or_union_type(StructOrUnion *s) {
     return type;
 }
 
-// Recurse through all struct members and determine offsets
+// Go through all struct members and determine offsets
 // Bit fields are only implemented for integers (32 bits size) according to the C89 spec.
-int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
-    bit_offset = 0;
-
-    int initial_bit_offset = bit_offset;
+static void determine_struct_or_union_offsets(StructOrUnion *s) {
+    int bit_offset = 0;
     int max_size = 0;
-    int max_alignment = 0;
+    int max_alignment = 8;
 
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
         StructOrUnionMember *member = *pmember;
@@ -840,23 +811,15 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
                 if (new_bit_offset != (bit_offset & ~31)) bit_offset = ((bit_offset + 31) & ~31);
             }
 
-            // Ensure the alignment is at least 4 bytes
-            if (max_alignment < 32) max_alignment = 32;
+            // Ensure the alignment is at least 4 bytes. Unnamed bit-fields don't affect the alignment.
+            if (member->identifier && max_alignment < 32) max_alignment = 32;
         }
         else {
             int alignment = s->is_packed ? 8 : get_type_alignment(member->type) * 8;
             if (alignment > max_alignment) max_alignment = alignment;
             bit_offset = ((bit_offset + alignment - 1) & (~(alignment - 1)));
 
-            if (member->type->type == TYPE_STRUCT_OR_UNION) {
-                // Duplicate the structs, since the bit_offset will be set and otherwise
-                // would end up to a reused struct having invalid bit_offsets
-                member->type->struct_or_union_desc = dup_struct_or_union(member->type->struct_or_union_desc);
-                size = recursive_complete_struct_or_union(member->type->struct_or_union_desc, bit_offset);
-            }
-            else {
-                size = get_type_size(member->type) * 8;
-            }
+            size = get_type_size(member->type) * 8;
         }
 
         member->offset = bit_offset >> 3;
@@ -869,17 +832,10 @@ int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset) {
 
     s->is_incomplete = 0;
 
-    int size;
-    if (s->is_union)
-        size = max_size;
-    else {
-        bit_offset = ((bit_offset + max_alignment  - 1) & (~(max_alignment - 1)));
-        size = bit_offset - initial_bit_offset;
-    }
-
+    int size = s->is_union ? max_size : bit_offset;
+    size = ((size + max_alignment - 1) & (~(max_alignment - 1)));
     s->size = size >> 3;
-
-    return size;
+    s->alignment = max_alignment >> 3;
 }
 
 // Recursively flatten anonymous structs, .e.g.
@@ -924,8 +880,10 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 
             // Copy the sub struct members
             for (int i = 0; i < sub_member_count; i++) {
-                sub->members[i]->offset += member->offset;
-                s->members[member_index + i] = dup_struct_or_union_member(sub->members[i]);
+                StructOrUnionMember *sub_member = dup_struct_or_union_member(sub->members[i]);
+                sub_member->offset += member->offset;
+                sub_member->bit_field_offset += member->offset * 8;
+                s->members[member_index + i] = sub_member;
             }
 
             member_count += sub_member_count;
@@ -940,7 +898,7 @@ void flatten_anonymous_structs(StructOrUnion *s) {
 }
 
 void complete_struct_or_union(StructOrUnion *s) {
-    recursive_complete_struct_or_union(s, 0);
+    determine_struct_or_union_offsets(s);
     flatten_anonymous_structs(s);
 }
 
diff --git a/wcc.h b/wcc.h
index 3f396da..d73ea32 100644
--- a/wcc.h
+++ b/wcc.h
@@ -369,6 +369,7 @@ typedef struct struct_or_union_member {
 // Struct & union description
 typedef struct struct_or_union_desc {
     int size;
+    int alignment;
     int is_incomplete;          // Set to 1 if the struct has been used in a member but not yet declared
     int is_packed;
     int is_union;
-- 
2.43.0


From f902568004f0337b734133eeb6242b2ae00ddda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 012/103] fix: Initialisation of bit-fields, unions, anonymous
 members and arrays by string literals

---
 parser.c | 395 +++++++++++++++++++++++++++----------------------------
 types.c  |  69 ++++++----
 wcc.h    |   1 +
 3 files changed, 239 insertions(+), 226 deletions(-)

diff --git a/parser.c b/parser.c
index d9ea63e..abe3da1 100644
--- a/parser.c
+++ b/parser.c
@@ -40,7 +40,6 @@ static List *allocated_sets;  // Allocated Set instances
 
 static Type *parse_struct_or_union_type_specifier(void);
 static Type *parse_enum_type_specifier(void);
-static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression);
 void check_and_or_operation_type(Value *src1, Value *src2);
 Value *parse_expression_and_pop(int level);
 static void parse_statement(void);
@@ -1721,258 +1720,255 @@ static void parse_simple_assignment(int enforce_const) {
     add_simple_assignment_instruction(dst, src1, enforce_const);
 }
 
-static void add_initializer(Value *dst, int offset, int size, Value *scalar) {
-    Symbol *s = dst->global_symbol;
-    if (!s) error("Attempt to add an initializer to value without a global_symbol");
+static Initializer *last_initializer(Symbol *s) {
+    if (!s->initializers || !s->initializers->length) return 0;
+    return s->initializers->elements[s->initializers->length - 1];
+}
 
+// Allocate an initializer. A gap between it and the previous one is filled with zeroes.
+static Initializer *new_initializer(Symbol *s, int offset, int size) {
     if (!s->initializers) s->initializers = new_list(INITIAL_INITALIZERS_COUNT);
 
-    int bf_offset;
-    int bf_bit_offset;
-    int bf_bit_size;
-    determine_bit_field_params(dst, &bf_offset, &bf_bit_offset, &bf_bit_size);
-    if (dst->bit_field_size) offset += bf_offset;
+    Initializer *prev = last_initializer(s);
+    int end = prev ? prev->offset + prev->size : 0;
+    if (end > offset) panic_with_line_number("Overlapping initializers");
+    if (end < offset) {
+        Initializer *zero = wcalloc(1, sizeof(Initializer));
+        zero->offset = end;
+        zero->size = offset - end;
+        append_to_list(s->initializers, zero);
+    }
 
-    Initializer *in;
-    if (dst->bit_field_size && s->initializers->length && ((Initializer *) s->initializers->elements[s->initializers->length - 1])->offset == offset)
-        // Amend previous initializer for bit field
-        in = (Initializer *) s->initializers->elements[s->initializers->length - 1];
+    Initializer *in = wcalloc(1, sizeof(Initializer));
+    in->offset = offset;
+    in->size = size;
+    append_to_list(s->initializers, in);
 
+    return in;
+}
 
-    else {
-        if (!dst->bit_field_size && s->initializers->length) {
-            Initializer *prev = (Initializer *) s->initializers->elements[s->initializers->length - 1];
-            if (prev->offset + prev->size != offset) {
-                Initializer *zero = wcalloc(1, sizeof(Initializer));
-                zero->offset = prev->offset + prev->size;
-                zero->size = offset - prev->offset - prev->size;
-                append_to_list(s->initializers, zero);
-            }
+// Add an initializer of a bit-field. It is added to the bytes the bit-field is in, since
+// these can be shared with other members.
+static void add_bit_field_initializer(Value *dst, Value *scalar) {
+    if (!scalar->is_constant)
+        error("An initializer for an object with static storage duration must be a constant expression");
+
+    scalar = cast_constant_value(scalar, dst->type);
+
+    for (int i = 0; i < dst->bit_field_size; i++) {
+        int bit = dst->bit_field_offset + i;
+        Initializer *in = last_initializer(dst->global_symbol);
+
+        if (!in || in->offset + in->size <= bit >> 3) {
+            in = new_initializer(dst->global_symbol, bit >> 3, 1);
+            in->data = wcalloc(1, 1);
         }
 
-        in = wcalloc(1, sizeof(Initializer));
-        append_to_list(s->initializers, in);
+        if ((scalar->int_value >> i) & 1) *((unsigned char *) in->data) |= 1 << (bit & 7);
     }
+}
 
-    if (scalar) {
-        if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && !scalar->type->type == TYPE_ARRAY)
-            error("An initializer for an object with static storage duration must be a constant expression");
+// Add an initializer of an object with static storage duration. Anything that doesn't get an
+// initializer is zero.
+static void add_initializer(Value *dst, int offset, Value *scalar) {
+    if (!dst->global_symbol) error("Attempt to add an initializer to value without a global_symbol");
 
-        if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+    if (dst->bit_field_size) {
+        add_bit_field_initializer(dst, scalar);
+        return;
+    }
 
-        size = get_type_size(dst->type);
+    Initializer *in = new_initializer(dst->global_symbol, offset, get_type_size(dst->type));
 
-        if (scalar->type->type == TYPE_FLOAT) {
-            in->data = wmalloc(sizeof(float));
-            *((float *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_DOUBLE) {
-            in->data = wmalloc(sizeof(double));
-            *((double *) in->data) = scalar->fp_value;
-        }
-        else if (scalar->type->type == TYPE_LONG_DOUBLE) {
-            in->data = wmalloc(sizeof(long double));
-            *((long double *) in->data) = scalar->fp_value;
-        }
-        else if (dst->bit_field_size) {
-            // Bit field
-            if (!in->data) {
-                in->data = wmalloc(sizeof(int));
-                *((unsigned int *) in->data) = 0;
-            }
+    if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY)
+        error("An initializer for an object with static storage duration must be a constant expression");
 
-            unsigned int *pi = (unsigned int *) in->data;
-            unsigned int mask = bf_bit_size == 32 ? -1 : (1 << bf_bit_size) - 1;
-            unsigned int inverted_shifted_mask = ~(mask << bf_bit_offset);
-            (*pi) &= inverted_shifted_mask;
-            (*pi) |= ((scalar->int_value & mask) << bf_bit_offset);
-        }
-        else if (scalar->is_address_of) {
-            in->is_address_of = 1;
-            in->address_of_offset = scalar->address_of_offset;
-            in->is_string_literal = scalar->is_string_literal;
-            in->string_literal_index = scalar->string_literal_index;
-            in->symbol = scalar->global_symbol;
-        }
-        else if (scalar->is_string_literal) {
-            in->is_string_literal = 1;
-            in->string_literal_index = scalar->string_literal_index;
-            in->address_of_offset = scalar->address_of_offset;
-        }
-        else if (scalar->type->type == TYPE_ARRAY) {
-            in->symbol = scalar->global_symbol;
-        }
-        else {
-            in->data = wmalloc(sizeof(long));
-            *((long *) in->data) = scalar->int_value;
-        }
-    }
+    if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
 
-    in->size = size;
-    in->offset = offset;
+    if (scalar->type->type == TYPE_FLOAT) {
+        in->data = wmalloc(sizeof(float));
+        *((float *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_DOUBLE) {
+        in->data = wmalloc(sizeof(double));
+        *((double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->type->type == TYPE_LONG_DOUBLE) {
+        in->data = wmalloc(sizeof(long double));
+        *((long double *) in->data) = scalar->fp_value;
+    }
+    else if (scalar->is_address_of) {
+        in->is_address_of = 1;
+        in->address_of_offset = scalar->address_of_offset;
+        in->is_string_literal = scalar->is_string_literal;
+        in->string_literal_index = scalar->string_literal_index;
+        in->symbol = scalar->global_symbol;
+    }
+    else if (scalar->is_string_literal) {
+        in->is_string_literal = 1;
+        in->string_literal_index = scalar->string_literal_index;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else if (scalar->type->type == TYPE_ARRAY) {
+        in->symbol = scalar->global_symbol;
+        in->address_of_offset = scalar->address_of_offset;
+    }
+    else {
+        in->data = wmalloc(sizeof(long));
+        *((long *) in->data) = scalar->int_value;
+    }
 }
 
 // Initialize value with zeroes starting with offset & size.
 // Do it in increments of 8, 4, 2, 1, to minimize the amount of instructions
 static void initialize_with_zeroes(Value *value, int offset, int size) {
+    // Anything without an initializer in an object with static storage duration is zero
+    if (value->global_symbol) return;
+
+    Value *src1 = new_integral_constant(TYPE_INT, size);
+    Value *dst = dup_value(value);
+    dst->offset += offset;
+    add_parser_instruction(IR_ZERO, dst, src1, 0);
+}
+
+// Initialize the scalar, struct or union the iterator is at
+static void initialize_iterator_value(TypeIterator *it, Value *value, Value *src) {
+    Value *child = dup_value(value);
+    child->global_symbol = value->global_symbol;
+    child->offset = it->offset;
+    child->bit_field_offset = it->bit_field_offset;
+    child->bit_field_size = it->bit_field_size;
+    child->type = it->type;
+    child->is_lvalue = 1;
+
     if (value->global_symbol)
-        add_initializer(value, offset, size, 0);
-    else {
-        Value *src1 = new_integral_constant(TYPE_INT, size);
-        Value *dst = dup_value(value);
-        dst->offset += offset;
-        add_parser_instruction(IR_ZERO, dst, src1, 0);
+        add_initializer(child, it->offset, src);
+    else
+        add_simple_assignment_instruction(child, src, 0);
+}
+
+// Zero the bit-fields the iterator is at. They have to be done one by one, since they share
+// memory with members that have already been initialized.
+static TypeIterator *initialize_bit_fields_with_zeroes(TypeIterator *it, Value *value) {
+    while (!type_iterator_done(it) && it->type->type == TYPE_STRUCT_OR_UNION) {
+        TypeIterator *child = type_iterator_descend(it);
+        if (!child->bit_field_size) break;
+        if (!value->global_symbol) initialize_iterator_value(child, value, new_integral_constant(TYPE_INT, 0));
+        it = type_iterator_next(it);
     }
+
+    return it;
+}
+
+// Go to the element following the whole array, struct or union the iterator is for
+static TypeIterator *skip_iterator_value(TypeIterator *it) {
+    it->index = -1;
+    if (it->parent) return type_iterator_next(it->parent);
+    return it;
 }
 
-// The first member of the union is going to get initialized. If the union size is
-// larger than the size of the first member, zero the upper remainder
-static void initialize_union_with_zeroes(Value *value, int offset) {
-    int union_size = get_type_size(value->type);
-    int first_member_size = get_type_size(value->type->struct_or_union_desc->members[0]->type);
-    if (first_member_size < union_size) initialize_with_zeroes(value, offset + first_member_size, union_size - first_member_size);
+static int string_literal_initializes_array(TypeIterator *it, StringLiteral *sl) {
+    return it->type->type == TYPE_ARRAY && it->type->target->type == (sl->is_wide_char ? TYPE_INT : TYPE_CHAR);
 }
 
 // Initialize an array of chars or wchar_t with a string literal
-static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, Value *string_literal) {
-    StringLiteral *sl = &(string_literals[string_literal->string_literal_index]);
+static TypeIterator *initialize_with_string_literal(TypeIterator *it, Value *value, StringLiteral *sl) {
+    Type *array_type = it->type;
+    if (array_type->array_size == 0) array_type->array_size = sl->size;
 
-    if (sl->is_wide_char) {
-        int *int_data = (int *) sl->data;
-        int size = sl->size;
+    int element_size = get_type_size(array_type->target);
+    int size = sl->size < array_type->array_size ? sl->size : array_type->array_size;
 
-        for (int i = 0; i < size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, int_data[i]);
-            it = parse_initializer(it, value, v);
-        }
-    }
-    else {
-        for (int i = 0; i < sl->size; i++) {
-            Value *v = new_integral_constant(TYPE_INT, sl->data[i]);
-            it = parse_initializer(it, value, v);
-        }
+    for (int i = 0; i < size; i++) {
+        Value *v = new_integral_constant(TYPE_INT, sl->is_wide_char ? ((int *) sl->data)[i] : sl->data[i]);
+        TypeIterator *child = type_iterator_descend(it);
+        child->offset += i * element_size;
+        initialize_iterator_value(child, value, v);
     }
 
-    return it;
+    if (size < array_type->array_size)
+        initialize_with_zeroes(value, it->offset + size * element_size, (array_type->array_size - size) * element_size);
+
+    return skip_iterator_value(it);
 }
 
-// Parse an initializer for a variable with automatic storage. If expression is set, it
-// is used as a initializer for a scalar value, otherwise, the expression is parsed.
-static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *expression) {
+// Parse an initializer for a variable. It can have any storage duration.
+static TypeIterator *parse_initializer(TypeIterator *it, Value *value) {
     parse_expression_function_type *parse_expr = value->global_symbol
         ? parse_constant_expression : parse_expression_and_pop;
 
     TypeIterator *outer_it = it;
-    int initial_outer_offset = it->offset;
 
-    if (cur_token == TOK_LCURLY) {
-        // Parse {...} initializer
+    if (cur_token != TOK_LCURLY) {
+        // Initialization of a scalar value, struct, union or an array by a string literal
 
-        next();
-        if (cur_token == TOK_RCURLY) error("Empty array/struct/union initializer");
+        Value *src = parse_expr(TOK_EQ);
 
-        // Loop over all comma separated expressions
-        while (cur_token != TOK_RCURLY) {
-            if (cur_token != TOK_LCURLY) {
-                // Scalar
-                it = parse_initializer(it, value, 0);
-            }
-            else {
-                // Sub initializer {...}
-                if (!type_iterator_done(it)) {
-                    // When encountering a {} in a sub initializer, descend down
-                    // one level from wherever the iterator currently is, and recurse.
-                    TypeIterator *child;
-                    child = type_iterator_descend(it);
-                    child->parent = 0;
-                    parse_initializer(child, value, 0);
-                    it = type_iterator_next(it); // Advance the top level iterator
-                }
-                else {
-                    // There are extraneous expressions, keep recursing and throw
-                    // everything away
-                    parse_initializer(it, value, 0);
-                }
-            }
+        // Ignore any expressions if the iteration has run out
+        if (type_iterator_done(it)) return it;
 
-            if (cur_token != TOK_RCURLY) consume(TOK_COMMA, ",");
-        }
-        consume(TOK_RCURLY, "}");
-    }
+        if (src->is_string_literal) {
+            StringLiteral *sl = &(string_literals[src->string_literal_index]);
 
-    else {
-        // Initialization of a scalar value
+            TypeIterator *array_it = it;
+            while (!is_scalar_type(array_it->type) && !string_literal_initializes_array(array_it, sl))
+                array_it = type_iterator_descend(array_it);
 
-        if (type_iterator_done(it)) {
-            // Parse and ignore any expressions if the iteration has run out
-            if (!expression) parse_expr(TOK_EQ);
-            return it;
+            if (string_literal_initializes_array(array_it, sl))
+                return initialize_with_string_literal(array_it, value, sl);
         }
 
-        Value *src;
-        int initialize_string_literal = 0;
-        Value *parsed_expression = 0;
-        if (expression)
-            src = expression;
-        else {
-            parsed_expression = parse_expr(TOK_EQ);
-
-            if (parsed_expression->is_string_literal) {
-                it = type_iterator_dig_for_string_literal(it);
+        if (!value->global_symbol) src = load(src);
 
-                initialize_string_literal =
-                    it->type->type == TYPE_ARRAY &&
-                    (it->type->target->type == TYPE_CHAR || it->type->target->type == TYPE_INT);
-                }
+        // Recurse to deepest scalar unless the expression is a struct or union, which
+        // can be assigned directly.
+        int is_struct_or_union = src->type->type == TYPE_STRUCT_OR_UNION;
+        while (!is_scalar_type(it->type)) {
+            if (is_struct_or_union && types_are_compatible_ignore_qualifiers(it->type, src->type)) break;
+            it = type_iterator_descend(it);
         }
 
-        if (initialize_string_literal) {
-            it = initialize_with_string_literal(it, value, parsed_expression);
-            // Falls through to array size setting code
-        }
-
-        else {
-            if (!expression) {
-                if (value->global_symbol) src = parsed_expression;
-                else src = load(parsed_expression);
-            }
-
-            // Recurse to deepest scalar unless the expression is a struct, which
-            // can be assigned directly.
-            if (src->type->type != TYPE_STRUCT_OR_UNION) it = type_iterator_dig(it);
-
-            // For unions, ensure that the whole union is initialized, even if the
-            // first member is smaller than the others.
-            if (value->type->type == TYPE_STRUCT_OR_UNION && value->type->struct_or_union_desc->is_union)
-                initialize_union_with_zeroes(value, it->offset);
+        initialize_iterator_value(it, value, src);
 
-            Value *child = dup_value(value);
-            child->global_symbol = value->global_symbol;
-            child->offset = it->offset;
-            child->bit_field_offset = it->bit_field_offset;
-            child->bit_field_size = it->bit_field_size;
-            child->type = it->type;
-            child->is_lvalue = 1;
-
-            if (value->global_symbol)
-                add_initializer(child, it->offset, 0, src);
-
-            else
-                add_simple_assignment_instruction(child, src, 0);
+        return skip_iterator_value(it);
+    }
 
-            return type_iterator_next(it);
+    // Parse {...} initializer
+    next();
+    if (cur_token == TOK_RCURLY) error("Empty array/struct/union initializer");
+
+    // For unions, ensure that the whole union is initialized, even if the
+    // first member is smaller than the others.
+    if (!type_iterator_done(it) && it->type->type == TYPE_STRUCT_OR_UNION && it->type->struct_or_union_desc->is_union)
+        initialize_with_zeroes(value, it->start_offset, get_type_size(it->type));
+
+    // Loop over all comma separated expressions
+    while (cur_token != TOK_RCURLY) {
+        if (cur_token == TOK_LCURLY && !type_iterator_done(it)) {
+            // When encountering a {} in a sub initializer, descend down
+            // one level from wherever the iterator currently is, and recurse.
+            TypeIterator *child = type_iterator_descend(it);
+            child->parent = 0;
+            parse_initializer(child, value);
+            it = type_iterator_next(it); // Advance the top level iterator
         }
+        else
+            // Anything extraneous is thrown away
+            it = parse_initializer(it, value);
+
+        if (cur_token != TOK_RCURLY) consume(TOK_COMMA, ",");
     }
+    consume(TOK_RCURLY, "}");
+
+    it = initialize_bit_fields_with_zeroes(it, value);
 
     // Complete incomplete arrays
     if (outer_it->type->type == TYPE_ARRAY && outer_it->type->array_size == 0) {
         if (outer_it != it) {
             // An array was descended into, but not completed. Zero the elements first.
             int array_element_size = get_type_size(outer_it->type->target);
-            int zeroes = array_element_size - ((it->offset - initial_outer_offset) % array_element_size);
-            if (zeroes < 0) panic_with_line_number("Got negative zeroes");
-            if (zeroes)
-                initialize_with_zeroes(value, it->offset, zeroes);
+            int zeroes = array_element_size - ((it->offset - outer_it->start_offset) % array_element_size);
+            initialize_with_zeroes(value, it->offset, zeroes);
 
             // Advance the index since the half-initialized element counts towards
             // the array size
@@ -1984,9 +1980,8 @@ static TypeIterator *parse_initializer(TypeIterator *it, Value *value, Value *ex
     }
 
     // If not all values where reached, set the remainder with zeroes
-    if (!type_iterator_done(it)) {
-        int outer_size = get_type_size((outer_it->type));
-        int zeroes = initial_outer_offset + outer_size - it->offset;
+    else if (!type_iterator_done(it)) {
+        int zeroes = outer_it->start_offset + get_type_size(outer_it->type) - it->offset;
         if (zeroes < 0) panic_with_line_number("Got negative zeroes");
         if (zeroes)
             initialize_with_zeroes(value, it->offset, zeroes);
@@ -2157,7 +2152,7 @@ static void parse_declaration(void) {
         if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
             error("Attempt to use an incomplete struct or union in an initializer");
 
-        parse_initializer(type_iterator(v->type), v, 0);
+        parse_initializer(type_iterator(v->type), v);
         symbol->type = v->type;
         if (array_declaration) array_declaration->type = v->type;
         base_type = old_base_type;
@@ -3602,7 +3597,7 @@ void parse(void) {
                     if (v->type->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(v->type))
                         error("Attempt to use an incomplete struct or union in an initializer");
 
-                    parse_initializer(type_iterator(v->type), v, 0);
+                    parse_initializer(type_iterator(v->type), v);
                     symbol->type = v->type;
                     base_type = old_base_type;
                 }
diff --git a/types.c b/types.c
index 5c702e0..6f67242 100644
--- a/types.c
+++ b/types.c
@@ -210,6 +210,7 @@ void free_types(void) {
     for (int i = 0; i < all_structs_and_unions->length; i++) {
         StructOrUnion *s = all_structs_and_unions->elements[i];
         wfree(s->members);
+        if (s->unflattened_members) wfree(s->unflattened_members);
         wfree(s);
     }
     free_list(all_structs_and_unions);
@@ -537,7 +538,7 @@ StructOrUnionMember **sort_struct_or_union_members(StructOrUnionMember **members
 static int recursive_types_are_compatible(Type *type1, Type *type2, StrMap *seen_tags, int check_qualifiers);
 
 static int struct_or_unions_are_compatible(StructOrUnion *s1, StructOrUnion *s2, StrMap *seen_tags) {
-    if (s1->is_incomplete || s2->is_incomplete) return 1;
+    if (s1 == s2 || s1->is_incomplete || s2->is_incomplete) return 1;
 
     int count = struct_or_union_member_count(s1);
     if (count != struct_or_union_member_count(s2)) return 0;
@@ -564,7 +565,7 @@ static int struct_or_unions_are_compatible(StructOrUnion *s1, StructOrUnion *s2,
 
         // Check for matching name
         if ((member1->identifier == 0) != (member2->identifier == 0)) { result = 0; break; }
-        if (strcmp(member1->identifier, member2->identifier)) { result = 0; break; }
+        if (member1->identifier && strcmp(member1->identifier, member2->identifier)) { result = 0; break; }
 
         // Check bit field sizes match
         if (member1->bit_field_size != member2->bit_field_size) { result = 0; break; }
@@ -848,6 +849,10 @@ void flatten_anonymous_structs(StructOrUnion *s) {
     for (StructOrUnionMember **pmember = s->members; *pmember; pmember++)
         member_count++;
 
+    // Keep the original members, since initializers go through them
+    s->unflattened_members = wcalloc(member_count + 1, sizeof(StructOrUnionMember *));
+    for (int i = 0; i < member_count; i++) s->unflattened_members[i] = s->members[i];
+
     StrMap *member_map = new_strmap();
 
     StructOrUnionMember **pmember = s->members;
@@ -928,16 +933,40 @@ int type_is_modifiable(Type *type) {
     return 1;
 }
 
+static StructOrUnionMember **type_iterator_members(TypeIterator *it) {
+    StructOrUnion *s = it->type->struct_or_union_desc;
+    return s->unflattened_members ? s->unflattened_members : s->members;
+}
+
+// Skip over unnamed bit-fields, including zero size ones. They don't take part in initialization.
+static void type_iterator_skip_unnamed_bit_fields(TypeIterator *it) {
+    if (it->type->type != TYPE_STRUCT_OR_UNION) return;
+
+    StructOrUnionMember **members = type_iterator_members(it);
+    while (members[it->index] && members[it->index]->is_bit_field && (!members[it->index]->identifier || !members[it->index]->bit_field_size))
+        it->index++;
+
+    if (members[it->index]) it->offset = it->start_offset + members[it->index]->offset;
+}
+
 // Create a new type iterator instance. A type iterator can be used to recurse
 // through all scalars either depth first, or by iterating at a single level.
-TypeIterator *type_iterator(Type *type) {
+static TypeIterator *new_type_iterator(Type *type, int offset, TypeIterator *parent) {
     TypeIterator *it = wcalloc(1, sizeof(TypeIterator));
     append_to_list(allocated_type_iterators, it);
     it->type = type;
+    it->offset = offset;
+    it->start_offset = offset;
+    it->parent = parent;
+    type_iterator_skip_unnamed_bit_fields(it);
 
     return it;
 }
 
+TypeIterator *type_iterator(Type *type) {
+    return new_type_iterator(type, 0, 0);
+}
+
 // Are there any scalars left?
 int type_iterator_done(TypeIterator *it) {
     return (it->index == -1);
@@ -968,18 +997,13 @@ TypeIterator *type_iterator_next(TypeIterator *it) {
     }
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
         it->index++;
+        type_iterator_skip_unnamed_bit_fields(it);
         int is_union = it->type->struct_or_union_desc->is_union;
-        if (is_union || !it->type->struct_or_union_desc->members[it->index]) {
+        if (is_union || !type_iterator_members(it)[it->index]) {
             it->offset = it->start_offset + get_type_size(it->type);
             return type_iterator_recurse_upwards(it);
         }
 
-        it->offset = it->start_offset + it->type->struct_or_union_desc->members[it->index]->offset;
-
-        // Skip over zero size bit fields
-        StructOrUnionMember *member = it->type->struct_or_union_desc->members[it->index];
-        if (member->is_bit_field && !member->bit_field_size) return type_iterator_next(it);
-
         return it;
     }
     else
@@ -992,25 +1016,18 @@ TypeIterator *type_iterator_descend(TypeIterator *it) {
         panic("Attempt to call descend on a done type iterator");
 
     if (is_scalar_type(it->type)) {
-        TypeIterator *child = type_iterator(it->type);
-        child->offset = it->offset;
-        child->parent = it;
+        TypeIterator *child = new_type_iterator(it->type, it->offset, it);
+        child->bit_field_offset = it->bit_field_offset;
+        child->bit_field_size = it->bit_field_size;
         return child;
     }
-    if (it->type->type == TYPE_ARRAY) {
-        TypeIterator *child = type_iterator(it->type->target);
-        child->offset = it->offset;
-        child->start_offset = it->offset;
-        child->parent = it;
-        return child;;
-    }
+    if (it->type->type == TYPE_ARRAY)
+        return new_type_iterator(it->type->target, it->offset, it);
     else if (it->type->type == TYPE_STRUCT_OR_UNION) {
-        TypeIterator *child = type_iterator(it->type->struct_or_union_desc->members[it->index]->type);
-        child->bit_field_offset = it->type->struct_or_union_desc->members[it->index]->bit_field_offset;
-        child->bit_field_size = it->type->struct_or_union_desc->members[it->index]->bit_field_size;
-        child->offset = it->offset;
-        child->start_offset = it->offset;
-        child->parent = it;
+        StructOrUnionMember *member = type_iterator_members(it)[it->index];
+        TypeIterator *child = new_type_iterator(member->type, it->offset, it);
+        child->bit_field_offset = it->start_offset * 8 + member->bit_field_offset;
+        child->bit_field_size = member->bit_field_size;
         return child;
     }
     else
diff --git a/wcc.h b/wcc.h
index d73ea32..371b0e6 100644
--- a/wcc.h
+++ b/wcc.h
@@ -374,6 +374,7 @@ typedef struct struct_or_union_desc {
     int is_packed;
     int is_union;
     struct struct_or_union_member **members;
+    struct struct_or_union_member **unflattened_members; // The members before anonymous structs & unions are flattened
 } StructOrUnion;
 
 typedef struct typedef_desc {
-- 
2.43.0


From 1a0939d383d628d9f98cb9d714f87e985e277a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 013/103] fix: Registers and stack slots shared by conversions

A conversion to or from floating point, or from a long to an int, changes the register it is done
in, so the source and destination can't share one if the source is used afterwards. The stack slots
for converting integers to long double were smaller than what is stored in them.
---
 instrrules.c |  8 ++++----
 ssa.c        | 29 +++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 625682a..144cada 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -631,15 +631,15 @@ static void add_long_double_move_rules(void)  {
     // Integer in register -> long double in memory
 
     // Signed integers
-    add_integer_long_double_move_rule(RI1, TYPE_CHAR , "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RI1, TYPE_SHORT, "movsbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI2, TYPE_SHORT, 0,                   "movw %v1w, %v2", "filds %v2L");
     add_integer_long_double_move_rule(RI3, TYPE_INT  , 0,                   "movl %v1l, %v2", "fildl %v2L");
     add_integer_long_double_move_rule(RI4, TYPE_LONG , 0,                   "movq %v1q, %v2", "fildq %v2L");
 
     // Unsigned integers
-    add_integer_long_double_move_rule(RU1, TYPE_CHAR , "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
-    add_integer_long_double_move_rule(RU2, TYPE_SHORT, "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
-    add_integer_long_double_move_rule(RU3, TYPE_INT  , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
+    add_integer_long_double_move_rule(RU1, TYPE_SHORT, "movzbw %v1b, %v1w", "movw %v1w, %v2", "filds %v2L");
+    add_integer_long_double_move_rule(RU2, TYPE_INT  , "movzwl %v1w, %v1l", "movl %v1l, %v2", "fildl %v2L");
+    add_integer_long_double_move_rule(RU3, TYPE_LONG , "movl   %v1l, %v1l", "movq %v1q, %v2", "fildq %v2L");
 
     // RU4 is a special case
     // Inspired by clang, when run with -fPIE
diff --git a/ssa.c b/ssa.c
index a9cf2d8..de9b68d 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1401,6 +1401,25 @@ static void print_interference_graph(Function *function) {
 // If include_clobbers is set, then edges for any IR_* instruction that adds register constraints are skipped.
 // If include_instrsel_constraints is set, then constraints are added that precent coalescing of registers
 // to ensure instruction selection gets an IR it can deal with.
+// Can the dst and src1 of a register copy share a register while both are live? This isn't the
+// case if the copy converts to or from floating point or narrows an integer, e.g.
+// a movl zeroes the upper half of a register.
+static int is_value_preserving_copy(Tac *tac) {
+    if (tac->operation != IR_MOVE && tac->operation != X_MOV && tac->operation != X_MOVZ && tac->operation != X_MOVS && tac->operation != X_MOVC)
+        return 0;
+
+    Type *dst_type = tac->dst->type;
+    Type *src_type = tac->src1->type;
+    if (!dst_type || !src_type) return 1;
+    if (dst_type->type == src_type->type) return 1;
+
+    int dst_is_fp = is_floating_point_type(dst_type);
+    int src_is_fp = is_floating_point_type(src_type);
+    if (dst_is_fp || src_is_fp) return 0;
+
+    return get_type_size(dst_type) >= get_type_size(src_type);
+}
+
 void make_interference_graph(Function *function, int include_clobbers, int include_instrsel_constraints) {
     if (debug_ssa_interference_graph) {
         printf("Make interference graph\n");
@@ -1502,14 +1521,8 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
                     if (it_vreg == tac->dst->vreg) continue; // Ignore self assignment
                     if (tac->dst->preg_class != vreg_preg_classes[it_vreg]) continue;
 
-                    // Don't add an edge for register copies
-                    if ((
-                        tac->operation == IR_MOVE ||
-                        tac->operation == X_MOV ||
-                        tac->operation == X_MOVZ ||
-                        tac->operation == X_MOVS ||
-                        tac->operation == X_MOVC
-                       ) && tac->src1 && tac->src1->vreg && tac->src1->vreg == it_vreg) continue;
+                    // Don't add an edge for register copies that leave the value of the source intact
+                    if (tac->src1 && tac->src1->vreg == it_vreg && is_value_preserving_copy(tac)) continue;
                     add_ig_edge(interference_graph, vreg_count, tac->dst->vreg, it_vreg);
                     if (debug_ssa_interference_graph) printf("added dst <-> lr %d <-> %d\n", tac->dst->vreg, it_vreg);
                 }
-- 
2.43.0


From f81f17a8984e5c4fc76697a3964f99a60771b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 014/103] fix: Arrays and functions as operands of !, && and ||
 and in conditions, sizeof (a)[0], wrapping of folded constants

---
 instrsel.c |  5 +++++
 parser.c   | 43 ++++++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index d4d864f..4d947b6 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -610,6 +610,11 @@ static Value *merge_cst_int_node(IGraph *igraph, int node_id, long constant_valu
     v->type->is_unsigned = is_unsigned;
     v->is_constant = 1;
     v->int_value = constant_value;
+
+    // Wrap the value to the size of the result of the operation
+    Value *dst = igraph->nodes[node_id].tac->dst;
+    if (dst && is_integer_type(dst->type)) v->int_value = cast_constant_value(v, dst->type)->int_value;
+
     return merge_cst_node(igraph, node_id, v);
 }
 
diff --git a/parser.c b/parser.c
index abe3da1..f297ba9 100644
--- a/parser.c
+++ b/parser.c
@@ -1147,9 +1147,24 @@ static void add_conditional_jump(int operation, Value *dst) {
     add_parser_instruction(operation, 0, pl(), dst);
 }
 
+// Convert the top of the stack, which is about to be compared to zero, to a scalar. Arrays
+// decay to pointers. A function decays to a pointer to it, which cannot be null.
+static void convert_to_scalar(char *message) {
+    int type = vtop()->type->type;
+
+    if (type == TYPE_ARRAY)
+        push(decay_array_value(pl()));
+    else if (type == TYPE_FUNCTION) {
+        pop();
+        push_integral_constant(TYPE_INT, 1);
+    }
+    else if (type == TYPE_VOID || !is_scalar_type(vtop()->type))
+        error(message);
+}
+
 // Add instructions for && and || operators
 static void and_or_expr(int is_and, int level) {
-    Value *src1 = vtop();
+    convert_to_scalar("Invalid operands to &&/||");
 
     Value *ldst1 = new_label_dst(); // Store zero
     Value *ldst2 = new_label_dst(); // Second operand test
@@ -1172,8 +1187,7 @@ static void and_or_expr(int is_and, int level) {
     // Test second operand
     add_jmp_target_instruction(ldst2);
     parse_expression(level);
-    Value *src2 = vtop();
-    check_and_or_operation_type(src1, src2);
+    convert_to_scalar("Invalid operands to &&/||");
     add_conditional_jump(is_and ? IR_JZ : IR_JNZ, ldst1); // Store zero & end
     push_integral_constant(TYPE_INT, is_and ? 1 : 0);     // Store 1
     add_parser_instruction(IR_MOVE, dst, pl(), 0);
@@ -1426,7 +1440,7 @@ void check_bitwise_shift_operation_type(Value *src1, Value *src2) {
 }
 
 void check_and_or_operation_type(Value *src1, Value *src2) {
-    if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
+    if (!is_scalar_type(src1->type)) error("Invalid operands to &&/||");
     if (!is_scalar_type(src2->type)) error("Invalid operands to &&/||");
 }
 
@@ -2180,10 +2194,13 @@ int parse_sizeof(parse_expression_function_type expr) {
 
         if (cur_token_is_type())
             type = parse_type_name();
-        else
-            expression = expr(TOK_COMMA);
+        else {
+            // The parenthesized expression may be followed by postfix operators
+            rewind_lexer();
+            expression = expr(TOK_INC);
+        }
 
-        consume(TOK_RPAREN, ")");
+        if (!expression) consume(TOK_RPAREN, ")");
     }
     else
         expression = expr(TOK_INC);
@@ -2465,9 +2482,6 @@ void parse_struct_dot_arrow_expression(void) {
 }
 
 void check_ternary_operation_types(Value *switcher, Value *src1, Value *src2) {
-    if (switcher->type->type != TYPE_ARRAY && !is_scalar_type(switcher->type))
-        error("Expected scalar type for first operand of ternary operator");
-
     int src1_is_arithmetic = is_arithmetic_type(src1->type);
     int src2_is_arithmetic = is_arithmetic_type(src2->type);
     int src1_is_pointer = is_pointer_type(src1->type);
@@ -2505,6 +2519,7 @@ void check_ternary_operation_types(Value *switcher, Value *src1, Value *src2) {
 }
 
 void parse_ternary_expression(void) {
+    convert_to_scalar("Expected scalar type for first operand of ternary operator");
     Value *switcher = vtop();
 
     // Destination register
@@ -2610,7 +2625,7 @@ static void parse_expression(int level) {
         case TOK_LOGICAL_NOT:
             next();
             parse_expression(TOK_INC);
-            check_unary_operation_type(IR_LNOT, vtop());
+            convert_to_scalar("Cannot use ! on a non scalar");
 
             if (vtop()->is_constant)
                 push(evaluate_const_unary_operation(IR_LNOT, pop()));
@@ -2947,8 +2962,7 @@ static void parse_iteration_conditional_expression(Value **lcond, Value **cur_lo
     add_jmp_target_instruction(*lcond);
 
     parse_expression(TOK_COMMA);
-    if (!is_scalar_type(vtop()->type))
-        error("Expected scalar type for loop controlling expression");
+    convert_to_scalar("Expected scalar type for loop controlling expression");
 
     add_conditional_jump(IR_JZ, lend);
 }
@@ -3198,8 +3212,7 @@ static void parse_if_statement(void) {
     consume(TOK_LPAREN, "(");
     parse_expression(TOK_COMMA);
 
-    if (vtop()->type->type != TYPE_ARRAY && !is_scalar_type(vtop()->type))
-        error("The controlling statement of an if statement must be a scalar");
+    convert_to_scalar("The controlling statement of an if statement must be a scalar");
 
     consume(TOK_RPAREN, ")");
 
-- 
2.43.0


From cf1a9fbae144b12e530787dac4ab327c7f6494f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:17 +0000
Subject: [PATCH 015/103] fix: Comparison and tests of pointers to long double,
 xmm0 clobbered by the conversion of a constant to long double

---
 instrrules.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 144cada..03d0f70 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -565,8 +565,8 @@ static void add_float_and_double_move_rules(void) {
     r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
 
     // SSE Constant -> LD
-    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm0", "movss %%xmm0, %vd", "flds %v1");
-    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm0", "movsd %%xmm0, %vd", "fldl %v1");
+    add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm14", "movss %%xmm14, %vd", "flds %v1");
+    add_sse_constant_to_ld_move_rule(CS4, TYPE_DOUBLE, "movsd %v1D, %%xmm14", "movsd %%xmm14, %vd", "fldl %v1");
 
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
@@ -1676,10 +1676,12 @@ void define_rules(void) {
 
     add_conditional_zero_jump_rule(IR_JZ,  XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
+    add_conditional_zero_jump_rule(IR_JZ,  RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JZ,  RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jz %v1",   1);
     add_conditional_zero_jump_rule(IR_JNZ, XR,  LAB, 3, X_TEST, "test%s %v1, %v1",  "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XRP, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
+    add_conditional_zero_jump_rule(IR_JNZ, RP5, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, XMI, LAB, 3, X_CMPZ, "cmp $0, %v1",      "jnz %v1",  1);
     add_conditional_zero_jump_rule(IR_JNZ, RPF, LAB, 3, X_TEST, "testq %v1q, %v1q", "jnz %v1",  1);
 
@@ -1701,6 +1703,11 @@ void define_rules(void) {
         for (int j = 0; j < 4; j++)
             add_int_comparison_rules(&ntc, 1, RP1 + i, RP1 + j, cmpq_vv);
 
+    // Pointers to long doubles can only be compared amongst themselves and with a pointer to void
+    add_int_comparison_rules(&ntc, 1, RP5, RP5, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP5, RP4, cmpq_vv);
+    add_int_comparison_rules(&ntc, 1, RP4, RP5, cmpq_vv);
+
     add_int_comparison_rules(&ntc, 1, RPF, RPF, "cmpq %v2q, %v1q");
 
     // Note the RU4, CI3 oddball. cmpq can only be done on imm32, which has to be signed. If CU4 were allowed, then 0x80000000 and higher would
@@ -1711,6 +1718,7 @@ void define_rules(void) {
     add_int_comparison_rules(&ntc, 1, RI4, XRP, cmpq_vv);            add_int_comparison_rules(&ntc, 1, RU4, XRP, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, RI4, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, RU4, cmpq_vv);
     add_int_comparison_rules(&ntc, 1, XRP, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, XRP, XCU, cmpq_vc);
+    add_int_comparison_rules(&ntc, 1, RP5, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RP5, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, RPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, RPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, MPF, XCI, cmpq_vc);            add_int_comparison_rules(&ntc, 1, MPF, XCU, cmpq_vc);
     add_int_comparison_rules(&ntc, 1, XRP, XMI, cmpq_vv);            add_int_comparison_rules(&ntc, 1, XRP, XMU, cmpq_vv);
-- 
2.43.0


From c86b5d00877715d639ef6ef1c6e32b270d69ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 016/103] fix: Postfix operators on the second operand of *, /
 and %, unsigned 32 bit constants and pointers to long double as stack
 arguments

---
 instrrules.c | 18 +++++++++++-------
 parser.c     |  6 +++---
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 03d0f70..b1a6858 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1600,18 +1600,21 @@ void define_rules(void) {
     // Constants in pushed argument. pushq immediate can only be 32 bit
     r = add_rule(0, IR_ARG, CI4, XC1, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
     r = add_rule(0, IR_ARG, CI4, XC2, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
-    r = add_rule(0, IR_ARG, CI4, XC3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
+    r = add_rule(0, IR_ARG, CI4, CI3, 2); add_op(r, X_ARG, 0, SRC1, SRC2, "pushq $%v2q"); fin_rule(r);
 
     // Stack management
     r = add_rule(0, IR_ALLOCATE_STACK, CI4, 0, 2); add_op(r, X_ALLOCATE_STACK, 0, SRC1, SRC2, "subq $%v1q, %%rsp"); fin_rule(r);
     r = add_rule(RI4, IR_MOVE_STACK_PTR, 0, 0, 2); add_op(r, X_MOVE_STACK_PTR, DST, 0, 0, "movq %%rsp, %vdq"); fin_rule(r);
 
-    // imm64 needs to be loaded into a register first
-    r = add_rule(0, IR_ARG, CI4, XC4, 2);
-    add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
-    add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
-    add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
-    fin_rule(r);
+    // imm64 needs to be loaded into a register first. This includes CU3, since a pushed
+    // immediate is sign extended.
+    for (int i = 0; i < 2; i++) {
+        r = add_rule(0, IR_ARG, CI4, i ? XC4 : CU3, i ? 2 : 3);
+        add_allocate_register_in_slot (r, 1, TYPE_LONG);   // Allocate quad register in slot 1
+        add_op(r, X_MOVC, SV1, SRC2, 0, "movabsq $%v1q, %vdq");
+        add_op(r, X_ARG,  SV1, 0,    0, "pushq %vdq");
+        fin_rule(r);
+    }
 
     // Long double constant arg
     r = add_rule(0, IR_ARG, CI4, CLD, 2);
@@ -1648,6 +1651,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, RP2, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP3, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RP4, 2);                                                          add_int_function_call_arg_op(r);
+    r = add_rule(0, IR_ARG, CI4, RP5, 2);                                                          add_int_function_call_arg_op(r);
     r = add_rule(0, IR_ARG, CI4, RPF, 2);                                                          add_int_function_call_arg_op(r);
 
     // Long double return rules
diff --git a/parser.c b/parser.c
index f297ba9..98f18b5 100644
--- a/parser.c
+++ b/parser.c
@@ -2908,9 +2908,9 @@ static void parse_expression(int level) {
             }
 
             // In order of precedence
-            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_DOT, IR_MUL, 0); break;
-            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_DOT, IR_DIV, 0); break;
-            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_DOT, IR_MOD, 0); break;
+            case TOK_MULTIPLY:         next(); parse_arithmetic_operation(TOK_INC, IR_MUL, 0); break;
+            case TOK_DIVIDE:           next(); parse_arithmetic_operation(TOK_INC, IR_DIV, 0); break;
+            case TOK_MOD:              next(); parse_arithmetic_operation(TOK_INC, IR_MOD, 0); break;
             case TOK_PLUS:             next(); parse_addition(TOK_MULTIPLY, 0); break;
             case TOK_MINUS:            next(); parse_subtraction(TOK_MULTIPLY); break;
             case TOK_BITWISE_RIGHT:    next(); parse_bitwise_shift(TOK_PLUS, IR_BSHR, IR_ASHR); break;
-- 
2.43.0


From f2cb43bafa5d38d2f75a85e801230ac2c99d1df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 017/103] fix: Scopes of tags, and members and enumerators with
 the names of typedefs

---
 constexpr.c |  1 +
 parser.c    | 28 +++++++++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index ead4d64..6329b3d 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -469,6 +469,7 @@ Value *parse_constant_expression(int level) {
                 int is_dot = cur_token == TOK_DOT;
 
                 next();
+                if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
                 consume(TOK_IDENTIFIER, "identifier");
 
                 if (!is_dot) value = indirect(value);
diff --git a/parser.c b/parser.c
index 98f18b5..0567395 100644
--- a/parser.c
+++ b/parser.c
@@ -493,7 +493,7 @@ static BaseType *parse_declaration_specifiers() {
                 // If a typedef type has been encountered by the lexer and a type already
                 // exists, then it's not a typedef type, but a redefinition of a typedef
                 // type.
-                if (!type) {
+                if (!type && !seen_signed && !seen_unsigned) {
                     seen_typedef++;
                     type = dup_type(cur_lexer_type);
                     next();
@@ -987,7 +987,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
     else {
         // Struct/union use
 
-        Type *type = find_struct_or_union(identifier, is_union, 1);
+        // A declaration like struct s; declares the tag in the current scope
+        Type *type = find_struct_or_union(identifier, is_union, cur_token != TOK_SEMI);
         if (type) return type; // Found a complete or incomplete struct
 
         // Didn't find a struct, but that's ok, create a incomplete one
@@ -1014,15 +1015,19 @@ static Type *parse_enum_type_specifier(void) {
     // sees a typedef tag, but really it's a struct tag.
     if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
         identifier = parser_wstrdup(cur_identifier);
+        next();
+    }
 
-        Tag *tag = new_tag(parser_wstrdup(cur_identifier));
-        tag->type = type;
-        type->tag = tag;
+    type->tag = 0;
 
-        next();
+    if (cur_token == TOK_LCURLY || cur_token == TOK_SEMI) {
+        // Declare the tag in the current scope. A mere use of an enum doesn't.
+        if (identifier) {
+            Tag *tag = new_tag(identifier);
+            tag->type = type;
+            type->tag = tag;
+        }
     }
-    else
-        type->tag = 0;
 
     if (cur_token == TOK_LCURLY) {
         // Enum definition
@@ -1033,6 +1038,8 @@ static Type *parse_enum_type_specifier(void) {
         int value = 0;
 
         while (cur_token != TOK_RCURLY) {
+            // An enumerator may redefine a typedef of an outer scope
+            if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
             expect(TOK_IDENTIFIER, "identifier");
             char *enum_value_identifier = parser_wstrdup(cur_identifier);
             next();
@@ -1056,7 +1063,7 @@ static Type *parse_enum_type_specifier(void) {
         if (!member_count) error("An enum must have at least one member");
     }
 
-    else {
+    else if (cur_token != TOK_SEMI) {
         // Enum use
 
         Type *type = find_enum(identifier);
@@ -2458,6 +2465,9 @@ void parse_struct_dot_arrow_expression(void) {
     int is_dot = cur_token == TOK_DOT;
 
     next();
+
+    // Members have their own name space: a member can have the name of a typedef
+    if (cur_token == TOK_TYPEDEF_TYPE) cur_token = TOK_IDENTIFIER;
     consume(TOK_IDENTIFIER, "identifier");
 
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
-- 
2.43.0


From 8edb0c2a5a554ac648e6a22612a2390cd2b8adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 018/103] fix: Repeated block scope extern declarations, types
 of initialised redeclarations, extern definitions

---
 codegen.c |  2 +-
 parser.c  | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 14c6403..1e25577 100644
--- a/codegen.c
+++ b/codegen.c
@@ -805,7 +805,7 @@ static void output_symbol(Symbol *symbol) {
 
     else if (symbol->initializers) {
         int size = get_type_size(symbol->type);
-        if (symbol->linkage == LINKAGE_IMPLICIT_EXTERNAL)
+        if (symbol->linkage == LINKAGE_IMPLICIT_EXTERNAL || symbol->linkage == LINKAGE_EXPLICIT_EXTERNAL)
             fprintf(f, "    .globl   %s\n", symbol->global_identifier);
 
         if (elf_section != SEC_DATA) { fprintf(f, "    .data\n"); elf_section = SEC_DATA; }
diff --git a/parser.c b/parser.c
index 0567395..fb1f7c5 100644
--- a/parser.c
+++ b/parser.c
@@ -2120,9 +2120,20 @@ static void parse_declaration(void) {
 
     if (!cur_type_identifier) error("Expected an identifier");
 
-    if (lookup_symbol(cur_type_identifier, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier);
+    int is_external = base_type->storage_class == SC_EXTERN || (type->type == TYPE_FUNCTION && base_type->storage_class != SC_STATIC);
+    Symbol *original_symbol = lookup_symbol(cur_type_identifier, cur_scope, 0);
+    if (original_symbol) {
+        // Only an identifier with linkage may be declared more than once in a block
+        if (original_symbol->is_enum_value || !is_external || original_symbol->linkage != LINKAGE_EXPLICIT_EXTERNAL)
+            error("Identifier redeclared: %s", cur_type_identifier);
+        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
+    }
 
-    if (base_type->storage_class == SC_STATIC) {
+    if (original_symbol) {
+        symbol = original_symbol;
+        symbol->type = composite_type(type, original_symbol->type);
+    }
+    else if (base_type->storage_class == SC_STATIC) {
         symbol = new_symbol(cur_type_identifier);
         symbol->type = dup_type(type);
         symbol->linkage = LINKAGE_INTERNAL;
@@ -2135,7 +2146,7 @@ static void parse_declaration(void) {
 
         append_to_list(function->static_symbols, symbol);
     }
-    else if (base_type->storage_class == SC_EXTERN || type->type == TYPE_FUNCTION) {
+    else if (is_external) {
         // Add the identifier to the local scope, but give it a global identifier
         // without adding any linkage
         symbol = new_symbol(cur_type_identifier);
@@ -3610,7 +3621,11 @@ void parse(void) {
                     if (is_definition) break; // No more declarations are possible, break out of comma parsing loop
                 }
                 else if (cur_token == TOK_EQ) {
-                    if (original_symbol && original_symbol->initializers) error("Redefinition of %s", cur_type_identifier);
+                    if (original_symbol) {
+                        if (original_symbol->initializers) error("Redefinition of %s", cur_type_identifier);
+                        if (!types_are_compatible(type, original_symbol->type)) error("Incompatible types");
+                        symbol->type = dup_type(composite_type(type, original_symbol->type));
+                    }
 
                     BaseType *old_base_type = base_type;
                     base_type = 0;
-- 
2.43.0


From 1db51d41f23875b5acc72f8d2b5550787268cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 019/103] fix: size instruction selection graphs by the
 instructions and rules, and don't merge stack pointer moves into other trees

---
 instrsel.c | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/instrsel.c b/instrsel.c
index 4d947b6..c9ecbbe 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -5,9 +5,6 @@
 #include "wcc.h"
 
 enum {
-    MAX_INSTRUCTION_GRAPH_EDGE_COUNT = 128,
-    MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT = 1024,
-    MAX_INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT = 1024,
     MAX_CHOICE_TRAIL_COUNT = 32,
     MAX_SAVED_REGISTERS = 8,
 };
@@ -189,7 +186,7 @@ static IGraph *merge_igraphs(IGraph *g1, IGraph *g2, int vreg) {
     append_to_list(allocated_igraph_nodes, inodes);
 
     g->nodes = inodes;
-    g->graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+    g->graph = new_graph(node_count, node_count * 2);
     append_to_list(allocated_graphs, g->graph);
     g->node_count = node_count;
     int join_from = -1;
@@ -342,7 +339,7 @@ static void make_igraphs(Function *function, int block_id) {
         IGraphNode *nodes = wcalloc(node_count, sizeof(IGraphNode));
         append_to_list(allocated_igraph_nodes, nodes);
 
-        Graph *graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+        Graph *graph = new_graph(node_count, node_count * 2);
         append_to_list(allocated_graphs, graph);
 
         nodes[0].tac = tac;
@@ -418,8 +415,9 @@ static void make_igraphs(Function *function, int block_id) {
         // rearranging function calls without dire dowmstream side effects.
         // IR_CALL_ARG_REG is also off limits, since it's a placeholder for function
         // arg registers and no code is actually emitted.
+        // IR_MOVE_STACK_PTR only produces a long, while the user of it wants a pointer.
         if (vreg_igraphs[dst].count == 1 && vreg_igraphs[dst].igraph_id != -1 &&
-            tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR &&
+            tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR && tac->operation != IR_MOVE_STACK_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id)
@@ -543,7 +541,7 @@ static IGraph *simplify_igraph(IGraph *src) {
     append_to_list(allocated_igraph_nodes, inodes);
 
     dst->nodes = inodes;
-    dst->graph = new_graph(node_count, MAX_INSTRUCTION_GRAPH_EDGE_COUNT);
+    dst->graph = new_graph(node_count, node_count * 2);
     append_to_list(allocated_graphs, dst->graph);
     dst->node_count = node_count;
 
@@ -743,9 +741,22 @@ static void print_cost_graph(Graph *cost_graph, int *cost_rules, int *accumulate
     recursive_print_cost_graph(cost_graph, cost_rules, accumulated_cost, 0, -1, -1, 0);
 }
 
+// Every node in the instruction graph leads to one node in the cost graph, plus one for
+// each of the rules for its operation that matches.
+static int get_max_cost_graph_node_count(IGraph *igraph) {
+    int count = 0;
+
+    for (int i = 0; i < igraph->node_count; i++) {
+        Tac *tac = igraph->nodes[i].tac;
+        List *rules = longmap_get(instr_rules_by_operation, tac ? tac->operation : 0);
+        count += 1 + (rules ? rules->length : 0);
+    }
+
+    return count;
+}
+
 static int new_cost_graph_node(void) {
-    if (cost_graph_node_count == MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT)
-        panic("MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT");
+    if (cost_graph_node_count == cost_graph->node_count) panic("Exceeded max cost graph node count");
     return cost_graph_node_count++;
 }
 
@@ -1326,12 +1337,13 @@ static void tile_igraphs(Function *function) {
         if (debug_instsel_tiling)
             printf("\nTiling\n-----------------------------------------------------\n");
 
-        cost_graph = new_graph(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, MAX_INSTRUCTION_GRAPH_CHOICE_EDGE_COUNT);
-        cost_rules = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
-        accumulated_cost = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        int choice_node_count = get_max_cost_graph_node_count(&(igraphs[i]));
+        cost_graph = new_graph(choice_node_count, choice_node_count * 3);
+        cost_rules = wcalloc(choice_node_count, sizeof(int));
+        accumulated_cost = wcalloc(choice_node_count, sizeof(int));
 
         cost_graph_node_count = 0;
-        cost_to_igraph_map = wcalloc(MAX_INSTRUCTION_GRAPH_CHOICE_NODE_COUNT, sizeof(int));
+        cost_to_igraph_map = wcalloc(choice_node_count, sizeof(int));
 
         recursive_tile_igraphs(&(igraphs[i]), 0);
         if (debug_instsel_cost_graph) print_cost_graph(cost_graph, cost_rules, accumulated_cost);
-- 
2.43.0


From 2fe97892a97f9be86b787c00238470e805cfab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 020/103] fix: convert floats and doubles in memory with one
 instruction, so that a spilled result has the right size

---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index b1a6858..0f83be9 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -545,8 +545,8 @@ static void add_float_and_double_move_rules(void) {
 
     // Memory -> register
     r = add_rule(RS3, IR_MOVE, MS3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movss %v1q, %vdq");
-    r = add_rule(RS3, IR_MOVE, MS4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movsd %v1q, %vdq"); add_op(r, X_MOVC, DST, DST, 0, "cvtsd2ss %v1q, %vdq");
-    r = add_rule(RS4, IR_MOVE, MS3, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movss %v1q, %vdq"); add_op(r, X_MOVC, DST, DST, 0, "cvtss2sd %v1q, %vdq");
+    r = add_rule(RS3, IR_MOVE, MS4, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "cvtsd2ss %v1q, %vdq");
+    r = add_rule(RS4, IR_MOVE, MS3, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "cvtss2sd %v1q, %vdq");
     r = add_rule(RS4, IR_MOVE, MS4, 0, 1); add_op(r, X_MOV,  DST, SRC1, 0, "movsd %v1q, %vdq");
 
     // Register -> memory
-- 
2.43.0


From e28f8b55a4d013b94d2e5f7a27ffbc78a68c3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 021/103] fix: keep values that are live along a register
 forced by the ABI out of that register

---
 ssa.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ssa.c b/ssa.c
index de9b68d..e921631 100644
--- a/ssa.c
+++ b/ssa.c
@@ -1397,6 +1397,28 @@ static void print_interference_graph(Function *function) {
     }
 }
 
+// Anything that is live at the same time as a vreg that has a preg forced onto it can't use that
+// preg, including vregs that are neither live when the forced vreg is set nor when it is used.
+static void enforce_live_range_pregs_on_neighbors(Function *function, char *ig, int vreg_count) {
+    char *forced_pregs = wcalloc(vreg_count + 1, sizeof(char));
+
+    for (Tac *tac = function->ir; tac; tac = tac->next) {
+        if (tac->dst  && tac->dst ->vreg && tac->dst ->live_range_preg) forced_pregs[tac->dst ->vreg] = tac->dst ->live_range_preg;
+        if (tac->src1 && tac->src1->vreg && tac->src1->live_range_preg) forced_pregs[tac->src1->vreg] = tac->src1->live_range_preg;
+        if (tac->src2 && tac->src2->vreg && tac->src2->live_range_preg) forced_pregs[tac->src2->vreg] = tac->src2->live_range_preg;
+    }
+
+    for (int i = live_range_reserved_pregs_offset + 1; i <= vreg_count; i++) {
+        if (!forced_pregs[i]) continue;
+
+        for (int j = live_range_reserved_pregs_offset + 1; j <= vreg_count; j++)
+            if (ig_lookup(ig, vreg_count, i, j) && forced_pregs[j] != forced_pregs[i])
+                add_ig_edge(ig, vreg_count, forced_pregs[i], j);
+    }
+
+    wfree(forced_pregs);
+}
+
 // Page 701 of engineering a compiler
 // If include_clobbers is set, then edges for any IR_* instruction that adds register constraints are skipped.
 // If include_instrsel_constraints is set, then constraints are added that precent coalescing of registers
@@ -1564,6 +1586,8 @@ void make_interference_graph(Function *function, int include_clobbers, int inclu
         free_longset(livenow);
     }
 
+    enforce_live_range_pregs_on_neighbors(function, interference_graph, vreg_count);
+
     function->interference_graph = interference_graph;
 
     if (debug_ssa_interference_graph) {
-- 
2.43.0


From 0c59641a6ff85a9b2b34d958456f06a3631d905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 022/103] fix: pass and return structs and unions with
 bit-fields, long doubles, padding and incomplete types as the ABI says

---
 functions.c | 115 ++++++++++++++++++++++++++++++++++++++++++++++------
 parser.c    |  16 ++------
 wcc.h       |   2 +
 3 files changed, 107 insertions(+), 26 deletions(-)

diff --git a/functions.c b/functions.c
index 7f8ed9e..d048be3 100644
--- a/functions.c
+++ b/functions.c
@@ -55,6 +55,50 @@ static int make_struct_or_union_arg_move_instructions(
         Function *function, Tac *ir, Value *param, int preg_class, int register_index,
         FunctionParamLocation *location, RegisterSet *register_set);
 
+static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset);
+
+// Is it a struct or union with nothing but a long double in it?
+static int is_returned_in_st0(Type *type) {
+    if (type->type != TYPE_STRUCT_OR_UNION || get_type_size(type) != 16) return 0;
+
+    StructOrUnionScalars *scalars = wmalloc(sizeof(StructOrUnionScalars));
+    scalars->scalars = wmalloc(sizeof(StructOrUnionScalar *) * MAX_STRUCT_OR_UNION_SCALARS);
+    scalars->count = 0;
+    flatten_type(type, scalars, 0);
+
+    int result = scalars->count > 0;
+    for (int i = 0; i < scalars->count; i++) {
+        if (scalars->scalars[i]->type->type != TYPE_LONG_DOUBLE) result = 0;
+        wfree(scalars->scalars[i]);
+    }
+
+    wfree(scalars->scalars);
+    wfree(scalars);
+
+    return result;
+}
+
+// Get the allocation of the return value of a function that returns a struct or union.
+// It is made when first used, since the struct or union can be incomplete when the
+// function type is declared.
+static FunctionParamAllocation *get_return_value_fpa(Type *function_type) {
+    if (!function_type->function->return_value_fpa) {
+        FunctionParamAllocation *fpa = init_function_param_allocaton("return value");
+        add_function_param_to_allocation(fpa, function_type->target);
+        function_type->function->return_value_fpa = fpa;
+    }
+
+    return function_type->function->return_value_fpa;
+}
+
+// Does a function return a struct or union in memory, with a pointer to it passed in rdi?
+int is_returned_in_memory(Type *function_type) {
+    if (function_type->target->type != TYPE_STRUCT_OR_UNION) return 0;
+    if (is_returned_in_st0(function_type->target)) return 0;
+
+    return fpa_pl(get_return_value_fpa(function_type), 0).locations[0].stack_offset != -1;
+}
+
 static Value *make_param_dst_on_stack(int type, int stack_index, int offset) {
     Value *dst = new_value();
 
@@ -177,14 +221,24 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
 
     Type *function_type = ir->src1->type;
 
-    FunctionParamAllocation *fpa = function_type->function->return_value_fpa;
-    FunctionParamLocations *fpl = fpa->param_locations->elements[0];
-
     Value *function_value = ir->src1;
 
+    if (is_returned_in_st0(type)) {
+        // The function call stores st(0) directly in the struct/union on the stack
+        ir->dst = dup_value(ir->dst);
+        ir->dst->type = new_type(TYPE_LONG_DOUBLE);
+        return;
+    }
+
+    FunctionParamAllocation *fpa = get_return_value_fpa(function_type);
+    FunctionParamLocations *fpl = fpa->param_locations->elements[0];
+
     if (fpl->locations[0].stack_offset == -1) {
         // Move registers to a struct/union on the stack
 
+        // The registers can be moved in parts, so ensure the whole of it gets allocated
+        insert_instruction_from_operation(ir, IR_DECL_LOCAL_COMP_OBJ, 0, ir->dst, 0, 1);
+
         ir->dst = 0;
         ir = ir->next;
 
@@ -238,6 +292,7 @@ static void add_function_call_result_moves_for_struct_or_union(Function *functio
         rdi_value->type = make_pointer_to_void();
         rdi_value->live_range_preg = LIVE_RANGE_PREG_RDI_INDEX;
         insert_instruction_from_operation(ir, IR_MOVE, rdi_value, address_value, 0, 1);
+        function_value->return_value_address = rdi_value;
 
         // Setup dst for rax
         Value *struct_dst = ir->dst;
@@ -303,6 +358,26 @@ static void add_ir_call_reg_instructions(Tac *ir, Value **function_call_values,
 
 // Move struct or union of size <= 32 into rax/rdx or xmm0/xmm1
 static void add_function_return_moves_for_struct_or_union(Function *function, Tac *ir, char *identifier) {
+    if (is_returned_in_st0(ir->src1->type)) {
+        // Make a copy on the stack and load it in st(0)
+        Value *v = new_value();
+        v->type = dup_type(ir->src1->type);
+        v->is_lvalue = 1;
+        v->stack_index = -(++function->stack_register_count);
+        Value *src1 = ir->src1;
+
+        ir->operation = IR_DECL_LOCAL_COMP_OBJ;
+        ir->src1 = v;
+        ir = add_memory_copy(function, ir, v, src1, get_type_size(v->type));
+
+        v = dup_value(v);
+        v->type = new_type(TYPE_LONG_DOUBLE);
+        ir = insert_instruction_after_from_operation(ir, IR_LOAD_LONG_DOUBLE, 0, v, 0);
+        ir = insert_instruction_after_from_operation(ir, IR_RETURN, 0, 0, 0);
+
+        return;
+    }
+
     // Determine registers
     FunctionParamAllocation *fpa = init_function_param_allocaton(identifier);
     add_function_param_to_allocation(fpa, ir->src1->type);
@@ -371,8 +446,10 @@ void add_function_return_moves(Function *function, char *identifier) {
             ir->src2 = 0;
         }
 
-        else if (ir->src1->type->type == TYPE_STRUCT_OR_UNION)
+        else if (ir->src1->type->type == TYPE_STRUCT_OR_UNION) {
             add_function_return_moves_for_struct_or_union(function, ir, identifier);
+            if (ir->operation == IR_DECL_LOCAL_COMP_OBJ) continue;
+        }
 
         else {
             int is_sse = is_sse_floating_point_type(function->type->target);
@@ -700,6 +777,10 @@ void add_function_call_arg_moves_for_preg_class(Function *function, int preg_cla
                 pls--;
             }
 
+            // Keep the address of a returned struct/union in RDI until the call
+            if (ir->src1->return_value_address && preg_class == PC_INT)
+                function_call_values[0] = dup_value(ir->src1->return_value_address);
+
             add_ir_call_reg_instructions(ir, function_call_values, register_count);
 
             wfree(function_call_values);
@@ -762,8 +843,9 @@ static void remove_IR_ARG_instructions_that_have_been_handled(Function *function
 // stack with an IR_ARG, or, in the case of a struct/union pushed onto the stack with
 // generated code.
 void add_function_call_arg_moves(Function *function) {
-    add_function_call_arg_moves_for_preg_class(function, PC_INT);
+    // The integer registers are last, since moves into the SSE registers can use integer registers
     add_function_call_arg_moves_for_preg_class(function, PC_SSE);
+    add_function_call_arg_moves_for_preg_class(function, PC_INT);
 
     remove_IR_ARG_instructions_that_have_been_handled(function);
 
@@ -897,9 +979,7 @@ void remap_stack_index(int *stack_index_remap, Value *v) {
 // the target in rdi. Make a copy of rdi in return_value_pointer for use in the
 // return value code. The function returns 1 if rdi has been used in this way.
 static int setup_return_for_struct_or_union(Function *function) {
-    FunctionParamAllocation *fpa = function->type->function->return_value_fpa;
-
-    if (fpa_pl(fpa, 0).locations[0].stack_offset == -1) return 0;
+    if (!is_returned_in_memory(function->type)) return 0;
 
     function->return_value_pointer = new_value();
     function->return_value_pointer->vreg = ++function->vreg_count;
@@ -1329,9 +1409,10 @@ void add_function_param_moves(Function *function, char *identifier) {
 
     int *has_address_of = wcalloc(function->type->function->param_count, sizeof(int));
 
-    // The stack is never bigger than function->type->function->param_count * 2 & starts at 2
-    int *stack_param_vregs = wmalloc(sizeof(int) * (function->type->function->param_count * 2 + 2));
-    memset(stack_param_vregs, -1, sizeof(int) * (function->type->function->param_count * 2 + 2));
+    // Stack indexes of parameters start at 2. There is one for every 8 bytes.
+    int stack_param_count = function->type->function->param_count + (fpa->size >> 3) + 2;
+    int *stack_param_vregs = wmalloc(sizeof(int) * stack_param_count);
+    memset(stack_param_vregs, -1, sizeof(int) * stack_param_count);
 
     // Determine which parameters in registers are used in IR_ADDRESS_OF instructions
     for (Tac *ir = function->ir; ir; ir = ir->next) {
@@ -1412,6 +1493,8 @@ void add_function_param_moves(Function *function, char *identifier) {
         if (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset == -1) continue;
 
         Type *type = function->type->function->param_types->elements[i];
+        if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
+        if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
 
         int stack_index = (fpa_pl(fpa, fpa_start + i).locations[0].stack_offset + 16) >> 3;
 
@@ -1549,7 +1632,12 @@ static void flatten_type(Type *type, StructOrUnionScalars *scalars, int offset)
         StructOrUnion *s = type->struct_or_union_desc;
         for (StructOrUnionMember **pmember = s->members; *pmember; pmember++) {
             StructOrUnionMember *member = *pmember;
-            flatten_type(member->type, scalars, offset + member->offset);
+            if (member->is_bit_field) {
+                // Unnamed bit-fields aren't passed. The others are part of an integer.
+                if (member->identifier) flatten_type(member->type, scalars, (offset + member->offset) & ~3);
+            }
+            else
+                flatten_type(member->type, scalars, offset + member->offset);
         }
     }
 
@@ -1613,7 +1701,8 @@ void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type)
             size = 0; // Needs recalculating to remove any paddding at the end
             for (int i = 0; i < scalars->count; i++) {
                 StructOrUnionScalar *scalar = scalars->scalars[i];
-                size +=  get_type_size(scalar->type);
+                int end = scalar->offset + get_type_size(scalar->type);
+                if (end > size) size = end;
                 int eight_byte = scalar->offset >> 3;
                 member_counts[eight_byte]++;
 
diff --git a/parser.c b/parser.c
index fb1f7c5..8e39c57 100644
--- a/parser.c
+++ b/parser.c
@@ -2266,13 +2266,9 @@ static void parse_function_call(void) {
     // Allocate an integer slot if the function returns a slot in memory. The
     // RDI register must contain a pointer to the return value, set by the caller.
     int has_struct_or_union_return_value = 0;
-    FunctionParamAllocation *rv_fpa = function_type->function->return_value_fpa;
-    if (rv_fpa) {
-        FunctionParamLocations *rv_fpl = rv_fpa->param_locations->elements[0];
-        if (rv_fpl->locations[0].stack_offset != -1) {
-            add_function_param_to_allocation(fpa, make_pointer_to_void());
-            has_struct_or_union_return_value = 1;
-        }
+    if (is_returned_in_memory(function_type)) {
+        add_function_param_to_allocation(fpa, make_pointer_to_void());
+        has_struct_or_union_return_value = 1;
     }
 
     while (1) {
@@ -3457,12 +3453,6 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
         symbol->function->local_symbol_count = 0;
         symbol->function->labels = new_strmap();
         symbol->function->goto_backpatches = 0;
-
-        if (type->target->type == TYPE_STRUCT_OR_UNION) {
-            FunctionParamAllocation *fpa = init_function_param_allocaton(cur_type_identifier);
-            add_function_param_to_allocation(fpa, type->target);
-            type->function->return_value_fpa = fpa;
-        }
     }
     else
         symbol->function = original_symbol->function;
diff --git a/wcc.h b/wcc.h
index 371b0e6..db5eccf 100644
--- a/wcc.h
+++ b/wcc.h
@@ -327,6 +327,7 @@ typedef struct value {
     int function_call_arg_stack_padding;                 // Extra initial padding needed to align the function call argument pushed arguments
     int function_call_arg_push_count;                    // Number of arguments pushed on the stack
     int function_call_sse_register_arg_count;            // Number of SSE (xmm) arguments in registers
+    struct value *return_value_address;                  // Register with the address of a struct/union returned in memory
     Set *return_value_live_ranges;                       // Live ranges for registers that are part of the function return values
     Symbol *global_symbol;                               // Pointer to a global symbol if the value is a global symbol
     int label;                                           // Target label in the case of jump instructions
@@ -1171,6 +1172,7 @@ void add_function_param_moves(Function *function, char *identifier);
 Value *make_function_call_value(int function_call);
 FunctionParamAllocation *init_function_param_allocaton(char *function_identifier);
 void free_function_param_allocaton(FunctionParamAllocation *fpa);
+int is_returned_in_memory(Type *function_type);
 void add_function_param_to_allocation(FunctionParamAllocation *fpa, Type *type);
 void finalize_function_param_allocation(FunctionParamAllocation *fpa);
 
-- 
2.43.0


From 33aa30b36e3a3e2fd6518c8b16cd30c4ca84b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 023/103] fix: old style functions: accept a definition after a
 declaration without parameters, float parameters are passed as double

---
 parser.c | 30 ++++++++++++++++++++++++++++++
 types.c  |  5 +++++
 2 files changed, 35 insertions(+)

diff --git a/parser.c b/parser.c
index 8e39c57..285bb4b 100644
--- a/parser.c
+++ b/parser.c
@@ -3436,6 +3436,34 @@ static void parse_statement(void) {
     }
 }
 
+// Callers of an old style function pass a float as a double. Give such a parameter the type
+// double and make a local variable out of it which is set to the value of the parameter.
+static void convert_old_style_float_parameters(Function *function) {
+    FunctionType *function_type = function->type->function;
+
+    for (int i = 0; i < function_type->param_count; i++) {
+        Type *type = function_type->param_types->elements[i];
+        if (type->type != TYPE_FLOAT) continue;
+
+        Symbol *symbol = lookup_symbol(function_type->param_identifiers->elements[i], cur_scope, 0);
+        function_type->param_types->elements[i] = new_type(TYPE_DOUBLE);
+
+        Value *src = new_value();
+        src->type = new_type(TYPE_DOUBLE);
+        src->local_index = symbol->local_index + 2; // Step over pushed PC and BP
+        src->is_lvalue = 1;
+
+        symbol->local_index = new_local_index();
+
+        Value *dst = new_value();
+        dst->type = new_type(TYPE_FLOAT);
+        dst->local_index = symbol->local_index;
+        dst->is_lvalue = 1;
+
+        add_parser_instruction(IR_MOVE, dst, add_convert_type_if_needed(load(src), dst->type), 0);
+    }
+}
+
 // Parse function definition and possible declaration
 static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *original_symbol) {
     // Setup the intermediate representation with a dummy no operation instruction.
@@ -3512,6 +3540,8 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
 
         cur_function_symbol->function->static_symbols = new_list(128);
 
+        if (type->function->is_paramless) convert_old_style_float_parameters(symbol->function);
+
         parse_compound_statement();
 
         cur_function_symbol->function->is_defined = 1;
diff --git a/types.c b/types.c
index 6f67242..e394e0c 100644
--- a/types.c
+++ b/types.c
@@ -613,6 +613,10 @@ static int functions_are_compatible(Type *type1, Type *type2, StrMap *seen_tags)
         return 1;
     }
 
+    // An old style declaration without parameters is compatible with an old style definition
+    if (type1->function->is_paramless && type2->function->is_paramless && (!type1->function->param_count || !type2->function->param_count))
+        return 1;
+
     // Check they both are or aren't variadic
     if (type1->function->is_variadic != type2->function->is_variadic) return 0;
 
@@ -724,6 +728,7 @@ Type *composite_type(Type *type1, Type *type2) {
                 error("Incompatible types");
 
             Type *result = dup_type(type1);
+            result->function->is_paramless = type1->function->is_paramless && type2->function->is_paramless;
             free_list(result->function->param_types);
             result->function->param_types = new_list(type1->function->param_count);
 
-- 
2.43.0


From 887431b072225d45f57a5e98706f7afdeae13baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 024/103] fix: count a float pushed as an argument once, so
 that the stack is aligned at the following calls

---
 instrrules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index 0f83be9..f7511f4 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1633,7 +1633,7 @@ void define_rules(void) {
     r = add_rule(0, IR_ARG, CI4, CS4, 2); add_sse_function_call_arg_op(r, "movabsq %v1d, %vdq");
 
     // SSE register arg
-    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_ARG, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
+    r = add_rule(0, IR_ARG, CI4, RS3, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2F, (%%rsp)");
     r = add_rule(0, IR_ARG, CI4, RS4, 2); add_op(r, X_MOV, 0, 0, 0, "subq    $8, %%rsp"); add_op(r, X_ARG, 0, SRC1, SRC2, "movq %v2D, (%%rsp)");
 
     // Add rules for sign/zero extention of an arg, but at a high cost, to encourage other rules to take precedence
-- 
2.43.0


From 8534008b69ea9abd1d6d03bdde2ad9f1789705f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 025/103] fix: va_arg of structs in both kinds of registers,
 with long doubles or of odd sizes, va_lists in memory and in pointers, and al
 at calls through spilled pointers

---
 codegen.c        |   2 +-
 functions.c      | 305 ++++++++++++++++++++++-------------------------
 include/stdarg.h |   4 +-
 instrsel.c       |   6 +-
 ir.c             |  10 +-
 parser.c         |   4 +
 wcc.h            |   2 +-
 7 files changed, 159 insertions(+), 174 deletions(-)

diff --git a/codegen.c b/codegen.c
index 1e25577..c15542c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -165,7 +165,7 @@ void make_stack_offsets(Function *function, char *function_name) {
         // Special case for functions with a va_list. A src1 with stack_index OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX
         // needs to be reassigned with address where the pushed varargs start
         if (tac->src1 && tac->src1->stack_index == OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX) {
-            tac->src1->stack_index = 2 + (function->fpa->size >> 3);
+            tac->src1->stack_index = 2 + ((function->fpa->offset + 7) >> 3);
         }
         else
             if (tac->src1 && tac->src1->stack_index < 0) tac->src1->stack_offset = stack_offsets[-tac->src1->stack_index];
diff --git a/functions.c b/functions.c
index d048be3..75f8527 100644
--- a/functions.c
+++ b/functions.c
@@ -1046,139 +1046,97 @@ static void add_function_vararg_param_moves(Function *function, FunctionParamAll
     ir->label = ldone->label;
 }
 
-// Add code for a va_start() call. The va_list struct, present in src1, has to be
-// populated.
-static void process_function_va_start(Function *function, Tac *ir) {
-    Value *va_list = ir->src1;
-    ir->operation = IR_NOP;
-    ir->src1 = 0;
-
-    // Set va_list.fp_offset, the offset of the first vararg integer register
-    Value *fp_offset_value = new_value();
-    fp_offset_value->type = new_type(TYPE_INT);
-    fp_offset_value->type->is_unsigned = 1;
-    fp_offset_value->is_constant = 1;
-    fp_offset_value->int_value = function->fpa->single_int_register_arg_count * 8;
-
-    Value *dst = dup_value(va_list);
-    dst->type = new_type(TYPE_INT);
-    dst->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, fp_offset_value, 0);
-
-    // Set va_list.gp_offset, the offset of the first vararg SSE register
-    Value *gp_offset_value = dup_value(fp_offset_value);
-    gp_offset_value->int_value = 48 + function->fpa->single_sse_register_arg_count * 16;
-    dst = dup_value(dst);
-    dst->offset = 4;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, gp_offset_value, 0);
-
-    // Set va_list.overflow_arg_area, the address of the first vararg pushed on the stack
-    Value *tmp_dst = dup_value(dst);
-    tmp_dst->type = make_pointer_to_void();
-    tmp_dst->vreg = ++function->vreg_count;
+// Make a value for the member of a va_list at an offset, with a type. The va_list is either
+// - An array object in memory, i.e. a global or something on the stack
+// - A register with the address of the va_list
+static Value *make_va_list_member(Value *va_list, Type *type, int offset) {
+    Value *result = dup_value(va_list);
+    result->type = type;
+    result->offset += offset;
+    if (result->vreg) result->is_lvalue = 1;
 
-    Value *overflow = dup_value(dst);
-    overflow->type = make_pointer_to_void();
-    overflow->vreg = 0;
-    overflow->offset = 0;
-    overflow->stack_index = OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX;
-    ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, overflow, 0);
-
-    dst = dup_value(dst);
-    dst->type = make_pointer_to_void();
-    dst->offset = 8;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, tmp_dst, 0);
-
-    // Set va_list.reg_save_area, the address of the register save area
-    tmp_dst = dup_value(tmp_dst);
-    tmp_dst->vreg = ++function->vreg_count;
-    ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, tmp_dst, function->register_save_area, 0);
-
-    dst = dup_value(dst);
-    dst->type = make_pointer_to_void();
-    dst->offset = 16;
-    ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, tmp_dst, 0);
+    return result;
 }
 
-// Read a value from va_list. This could be either directly from the stack or from
-// an lvalue in a register.
-static Tac *read_from_va_list(Function *function, Tac *ir, Value *va_list, Type *src_type, Type *dst_type, int offset, Value **result) {
+// Read a value from a va_list.
+static Tac *read_from_va_list(Function *function, Tac *ir, Value *va_list, Type *type, int offset, Value **result) {
     *result = new_value();
-    (*result)->type = dst_type;
+    (*result)->type = type;
     (*result)->vreg = ++function->vreg_count;
 
-    Value *src1 = dup_value(va_list);
-    src1->type = src_type;
+    Value *src1 = make_va_list_member(va_list, type, offset);
 
     if (src1->vreg) {
-        // va_list is a pointer in a register. Load it, add the offset to it, then
-        // indirect.
-        Value *tmp = dup_value(va_list);
-        tmp->type = make_pointer(dst_type);
-        tmp->vreg = ++function->vreg_count;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, tmp, va_list, 0);
-
-        src1->type = make_pointer(dst_type);
-        src1->offset = offset;
-        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, *result, src1, 0);
-    }
-    else {
-        // Read from the stack
-        src1->offset = offset;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, *result, src1, 0);
+        // va_list is a pointer in a register.
+        src1->type = make_pointer(type);
+        src1->is_lvalue = 0;
+        return insert_instruction_after_from_operation(ir, IR_INDIRECT, *result, src1, 0);
     }
+    else
+        // Read from memory
+        return insert_instruction_after_from_operation(ir, IR_MOVE, *result, src1, 0);
+}
 
-    return ir;
+// Write a value to a va_list.
+static Tac *write_to_va_list(Tac *ir, Value *va_list, Value *value, int offset) {
+    return insert_instruction_after_from_operation(ir, IR_MOVE, make_va_list_member(va_list, value->type, offset), value, 0);
 }
 
-// Write a value to va_list. This could be either directly from the stack or from
-// an lvalue in a register.
-static Tac *write_to_va_list(Function *function, Tac *ir, Value *va_list, Value *value, int offset) {
-    Value *dst = dup_value(va_list);
+static Value *new_unsigned_int_constant(int value) {
+    Value *result = new_integral_constant(TYPE_INT, value);
+    result->type->is_unsigned = 1;
 
-    if (va_list->vreg) {
-        // va_list is a pointer in a register. Load it, add the offset to it, then
-        // write to the pointer.
+    return result;
+}
 
-        Value *tmp = dup_value(dst);
-        tmp->is_lvalue = 1;
-        tmp->offset = offset;
-        tmp->type = value->type;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, tmp, value, 0);
-    }
-    else {
-        // Write to the stack
-    dst->type = value->type;
-        dst->offset = offset;
-        ir = insert_instruction_after_from_operation(ir, IR_MOVE, dst, value, 0);
-    }
+// Write the address of a value to a va_list.
+static Tac *write_address_to_va_list(Function *function, Tac *ir, Value *va_list, Value *value, int offset) {
+    Value *address = new_value();
+    address->type = make_pointer_to_void();
+    address->vreg = ++function->vreg_count;
+    ir = insert_instruction_after_from_operation(ir, IR_ADDRESS_OF, address, value, 0);
+
+    return write_to_va_list(ir, va_list, address, offset);
 }
 
-// Add instructions that read the FP or GP offset, determine if the type can fit
-// in a register, and if not, jmp to the stack read label fetch_from_stack.
-static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *fetch_from_stack, Value **result_gp_fp_offset) {
-    // Read gp_offset or fp_offset into gp_fp_offset register
+// Add code for a va_start() call. The va_list struct, present in src1, has to be
+// populated.
+static void process_function_va_start(Function *function, Tac *ir) {
+    Value *va_list = ir->src1;
+    ir->operation = IR_NOP;
+    ir->src1 = 0;
+
+    // Set va_list.gp_offset, the offset of the first vararg integer register
+    ir = write_to_va_list(ir, va_list, new_unsigned_int_constant(function->fpa->single_int_register_arg_count * 8), 0);
+
+    // Set va_list.fp_offset, the offset of the first vararg SSE register
+    ir = write_to_va_list(ir, va_list, new_unsigned_int_constant(48 + function->fpa->single_sse_register_arg_count * 16), 4);
+
+    // Set va_list.overflow_arg_area, the address of the first vararg pushed on the stack
+    Value *overflow = new_value();
+    overflow->type = make_pointer_to_void();
+    overflow->is_lvalue = 1;
+    overflow->stack_index = OVERFLOW_AREA_ADDRESS_MAGIC_STACK_INDEX;
+    ir = write_address_to_va_list(function, ir, va_list, overflow, 8);
+
+    // Set va_list.reg_save_area, the address of the register save area
+    ir = write_address_to_va_list(function, ir, va_list, function->register_save_area, 16);
+}
+
+// Add instructions that read the FP or GP offset, determine if the registers used by the
+// type are in the register save area and if not, jmp to the stack read label fetch_from_stack.
+static Tac *add_function_va_arg_in_register_check(Function *function, Tac *ir, Value *va_list, int offset, int last_offset, Value *fetch_from_stack, Value **result_gp_fp_offset) {
     Type *gp_fp_offset_type = new_type(TYPE_INT);
     gp_fp_offset_type->is_unsigned = 1;
-    int gp_fp_offset_offset = gp_count ? 0 : 4; // gp_offset or fp_offset
-    Value *gp_fp_offset;
-    ir = read_from_va_list(function, ir, va_list, gp_fp_offset_type, gp_fp_offset_type, gp_fp_offset_offset, &gp_fp_offset);
-
-    // Check if gp_fp_offset >= 48, and if so jump to the stack fetching code
-    Value *gp_fp_offset_ge_result = new_value();
-    gp_fp_offset_ge_result->type = new_type(TYPE_INT);
-    gp_fp_offset_ge_result->type->is_unsigned = 1;
-    gp_fp_offset_ge_result->vreg = ++function->vreg_count;
+    ir = read_from_va_list(function, ir, va_list, gp_fp_offset_type, offset, result_gp_fp_offset);
 
-    int last_offset = gp_count ? 48 - gp_count * 8 : 176 - fp_count * 16;
-    Value *last_offset_value = new_integral_constant(TYPE_INT, last_offset);
-    last_offset_value->type->is_unsigned = 1;
+    Value *is_on_stack = new_value();
+    is_on_stack->type = dup_type(gp_fp_offset_type);
+    is_on_stack->vreg = ++function->vreg_count;
 
     // Compare and jump to stack code if the arg doesn't fit in the register save area
-    ir = insert_instruction_after_from_operation(ir, IR_GT, gp_fp_offset_ge_result, gp_fp_offset, last_offset_value);
-    ir = insert_instruction_after_from_operation(ir, IR_JNZ, 0, gp_fp_offset_ge_result, fetch_from_stack);
-
-    *result_gp_fp_offset = gp_fp_offset;
+    ir = insert_instruction_after_from_operation(ir, IR_GT, is_on_stack, *result_gp_fp_offset, new_unsigned_int_constant(last_offset));
+    ir = insert_instruction_after_from_operation(ir, IR_JNZ, 0, is_on_stack, fetch_from_stack);
 
     return ir;
 }
@@ -1194,55 +1152,83 @@ static int va_arg_size(Type *type) {
         return 8;
 }
 
-// Add instructions to read a vararg from the register save area
-static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, Type *type, Value *va_list, int gp_count, int fp_count, Value *gp_fp_offset, Value *dst) {
+// Add instructions to read a vararg from the register save area. fpl is set for struct/unions.
+static Tac *add_function_va_arg_register_save_area_read(Function *function, Tac *ir, FunctionParamLocations *fpl, Value *va_list, int gp_count, int fp_count, Value *gp_offset, Value *fp_offset, Value *dst) {
     // Read register_save_area into register_save_area register
     Value *register_save_area;
-    ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 16, &register_save_area);
+    ir = read_from_va_list(function, ir, va_list, make_pointer(dst->type), 16, &register_save_area);
 
-    // Add gp_fp_offset to register_save_area
-    Value *ptr = new_value();
-    ptr->type = make_pointer(dst->type);
-    ptr->vreg = ++function->vreg_count;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, ptr, register_save_area, gp_fp_offset);
+    // Add gp_offset and fp_offset to register_save_area
+    Value *gp_ptr = 0;
+    Value *fp_ptr = 0;
 
-    if (type->type == TYPE_STRUCT_OR_UNION) {
-        // Copy memory for struct/union
-        Value *memcpy_ptr = dup_value(ptr);
-        memcpy_ptr->is_lvalue = 1;
-        int size = va_arg_size(type);
-        int splay_offsets = fp_count > 0; // Splay offsets if it's an SSE struct
-        ir = add_memory_copy_with_registers(function, ir, dst, memcpy_ptr, size, splay_offsets);
+    if (gp_count) {
+        gp_ptr = dup_value(register_save_area);
+        gp_ptr->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_ADD, gp_ptr, register_save_area, gp_offset);
+    }
+
+    if (fp_count) {
+        fp_ptr = dup_value(register_save_area);
+        fp_ptr->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_ADD, fp_ptr, register_save_area, fp_offset);
+    }
+
+    if (fpl) {
+        // Copy the eight bytes of a struct/union. They are 8 bytes apart for integer
+        // registers and 16 for SSE registers.
+        int struct_size = get_type_size(dst->type);
+        int gp_position = 0;
+        int fp_position = 0;
+
+        for (int i = 0; i < fpl->count; i++) {
+            int is_int = fpl->locations[i].int_register != -1;
+            int offset = i * 8;
+            int size = struct_size - offset < 8 ? struct_size - offset : 8;
+
+            Value *eight_byte_dst = dup_value(dst);
+            eight_byte_dst->offset += offset;
+
+            Value *eight_byte_src = dup_value(is_int ? gp_ptr : fp_ptr);
+            eight_byte_src->is_lvalue = 1;
+            eight_byte_src->offset = is_int ? gp_position : fp_position;
+            ir = add_memory_copy_with_registers(function, ir, eight_byte_dst, eight_byte_src, size);
+
+            if (is_int) gp_position += 8;
+            else fp_position += 16;
+        }
     }
     else
         // Read a scalar value from a pointer
-        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, ptr, 0);
-
-    // Add 8 or 16 to gp_fp_offset register
-    Value *new_gp_fp_offset = dup_value(gp_fp_offset);
-    new_gp_fp_offset->vreg = ++function->vreg_count;
-    Value *size = new_integral_constant(TYPE_INT, gp_count * 8 + fp_count * 16);
-    size->type->is_unsigned = 1;
-    ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_fp_offset, gp_fp_offset, size);
+        ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, gp_ptr ? gp_ptr : fp_ptr, 0);
+
+    // Write new gp and fp offsets back to va_list
+    if (gp_count) {
+        Value *new_gp_offset = dup_value(gp_offset);
+        new_gp_offset->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_ADD, new_gp_offset, gp_offset, new_unsigned_int_constant(gp_count * 8));
+        ir = write_to_va_list(ir, va_list, new_gp_offset, 0);
+    }
 
-    // Write new gp offset back to va_list
-    int offset = gp_count ? 0 : 4; // gp_offset or fp_offset
-    ir = write_to_va_list(function, ir, va_list, new_gp_fp_offset, offset);
+    if (fp_count) {
+        Value *new_fp_offset = dup_value(fp_offset);
+        new_fp_offset->vreg = ++function->vreg_count;
+        ir = insert_instruction_after_from_operation(ir, IR_ADD, new_fp_offset, fp_offset, new_unsigned_int_constant(fp_count * 16));
+        ir = write_to_va_list(ir, va_list, new_fp_offset, 4);
+    }
 
     return ir;
 }
 
 // Add instructions to read a vararg from the stack
 static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *type, Value *va_list, Value *dst) {
-    int size = va_arg_size(type);
-    Value *size_value = new_integral_constant(TYPE_INT, size);
-    size_value->type->is_unsigned = 1;
+    Value *size_value = new_unsigned_int_constant(va_arg_size(type));
 
     // Read overflow_arg_area into overflow_arg_area register
     Value *overflow_arg_area;
-    ir = read_from_va_list(function, ir, va_list, make_pointer_to_void(), make_pointer(dst->type), 8, &overflow_arg_area);
+    ir = read_from_va_list(function, ir, va_list, make_pointer(dst->type), 8, &overflow_arg_area);
 
-    if (type->type == TYPE_LONG_DOUBLE) {
+    if (get_type_alignment(type) > 8) {
         // Align overflow arg area to 16 byte boundary, by adding 15 then anding with ~15
 
         Value *long_overflow_arg_area = dup_value(overflow_arg_area);
@@ -1265,25 +1251,19 @@ static Tac *add_function_va_arg_stack_read(Function *function, Tac *ir, Type *ty
         // Copy memory for struct/union
         Value *memcpy_overflow_arg_area = dup_value(overflow_arg_area);
         memcpy_overflow_arg_area->is_lvalue = 1;
-        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, size);
+        ir = add_memory_copy(function, ir, dst, memcpy_overflow_arg_area, get_type_size(type));
     }
     else
         // Read a scalar value from a pointer
         ir = insert_instruction_after_from_operation(ir, IR_INDIRECT, dst, overflow_arg_area, 0);
 
-    // Add 8 or 16 to overflow_arg_area register
+    // Add the size to the overflow_arg_area register
     Value *new_overflow_arg_area = dup_value(overflow_arg_area);
     new_overflow_arg_area->vreg = ++function->vreg_count;
     ir = insert_instruction_after_from_operation(ir, IR_ADD, new_overflow_arg_area, overflow_arg_area, size_value);
 
-    // Write new gp overflow_arg_area back to va_list
-    // Value *final_gp_overflow_arg_area = dup_value(va_list);
-    // final_gp_overflow_arg_area->type = make_pointer_to_void();
-    // final_gp_overflow_arg_area->offset = 8;
-    // ir = insert_instruction_after_from_operation(ir, IR_MOVE, va_list, new_overflow_arg_area, 0);
-    ir = write_to_va_list(function, ir, va_list, new_overflow_arg_area, 8);
-
-    return ir;
+    // Write new overflow_arg_area back to va_list
+    return write_to_va_list(ir, va_list, new_overflow_arg_area, 8);
 }
 
 // Generate code to read a vararg from either the register save area or the stack
@@ -1304,11 +1284,12 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     // Determine how many gp and fp registers are needed
     int gp_count = 0; // Integer registers
     int fp_count = 0; // SSE registers
+    FunctionParamLocations *fpl = 0;
 
     if (type->type == TYPE_STRUCT_OR_UNION) {
         FunctionParamAllocation *fpa = init_function_param_allocaton("vararg struct");
         add_function_param_to_allocation(fpa, type);
-        FunctionParamLocations *fpl = fpa->param_locations->elements[0];
+        fpl = fpa->param_locations->elements[0];
 
         if (fpl->locations[0].stack_offset != -1) {
             // It's on the stack
@@ -1318,10 +1299,10 @@ static void process_function_va_arg(Function *function, Tac *ir) {
 
         // The arg can be in registers. Although it might end up on the stack
         // if registers have run out.
-        else if (fpl->locations[0].int_register != -1)
-            gp_count = fpl->count;
-        else
-            fp_count = fpl->count;
+        for (int i = 0; i < fpl->count; i++) {
+            if (fpl->locations[i].int_register != -1) gp_count++;
+            else fp_count++;
+        }
     }
     else {
         // A scalar arg is either in int (gp) or sse (fp) registers
@@ -1333,11 +1314,13 @@ static void process_function_va_arg(Function *function, Tac *ir) {
     Value *fetch_from_stack = new_label_dst();
 
     // Check if the arg is in the register save area or on stack
-    Value *gp_fp_offset;
-    ir = add_function_va_arg_in_register_check(function, ir, type, va_list, gp_count, fp_count, fetch_from_stack, &gp_fp_offset);
+    Value *gp_offset = 0;
+    Value *fp_offset = 0;
+    if (gp_count) ir = add_function_va_arg_in_register_check(function, ir, va_list, 0, 48 - gp_count * 8, fetch_from_stack, &gp_offset);
+    if (fp_count) ir = add_function_va_arg_in_register_check(function, ir, va_list, 4, 176 - fp_count * 16, fetch_from_stack, &fp_offset);
 
     // Read from register save area & jump to the done label
-    ir = add_function_va_arg_register_save_area_read(function, ir, type, va_list, gp_count, fp_count, gp_fp_offset, dst);
+    ir = add_function_va_arg_register_save_area_read(function, ir, fpl, va_list, gp_count, fp_count, gp_offset, fp_offset, dst);
     ir = insert_instruction_after_from_operation(ir, IR_JMP, 0, ldone, 0);
 
     // Add fetch_from_stack label
diff --git a/include/stdarg.h b/include/stdarg.h
index 34b9370..46d52fa 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -8,9 +8,9 @@ typedef struct __va_list {
     void *reg_save_area;
 } va_list[1];
 
-#define va_copy(dst, src) *dst = *src
+#define va_copy(dst, src) ((void) (*(dst) = *(src)))
 
-#define va_end(ap)
+#define va_end(ap) ((void) 0)
 
 typedef va_list __gnuc_va_list;
 
diff --git a/instrsel.c b/instrsel.c
index c9ecbbe..d336b78 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -1494,8 +1494,10 @@ static void add_spill_load(Tac *ir, int src, int preg) {
 
     // Codegen needs to know if this is a function; in all other cases the spill is
     // done on a full 64 bit register.
-    if (v->type->type == TYPE_FUNCTION)
-        tac->dst->type = new_type(TYPE_FUNCTION);
+    if (v->type->type == TYPE_FUNCTION) {
+        tac->dst->type = v->type;
+        tac->dst->function_call_sse_register_arg_count = v->function_call_sse_register_arg_count;
+    }
     else
         tac->dst->type = new_type(TYPE_LONG);
 
diff --git a/ir.c b/ir.c
index a3779b1..c4cbce9 100644
--- a/ir.c
+++ b/ir.c
@@ -895,10 +895,7 @@ Tac *add_memory_copy_with_memcpy(Function *function, Tac *ir, Value *dst, Value
 }
 
 // Copy struct/unions using registers
-//
-// splay_offsets is used when copying a struct with SSE values from the vararg register
-// save area. The SSE registers are saved with an annoying offset of 16 instead of 8.
-Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size, int splay_offsets) {
+Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size) {
     int dst_offset = dst->offset;
     int src1_offset = src1->offset;
 
@@ -915,8 +912,7 @@ Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Val
             offsetted_dst->offset = dst_offset;
             offsetted_dst->type = temp_value->type;
             Value *offsetted_src1 = dup_value(src1);
-            int splayed_offset = (splay_offsets && src1_offset >= 8) ? src1_offset + 8 : src1_offset;
-            offsetted_src1->offset = splayed_offset;
+            offsetted_src1->offset = src1_offset;
             offsetted_src1->type = temp_value->type;
 
             if (src1->is_lvalue && src1->vreg) {
@@ -945,7 +941,7 @@ Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int s
     if (size > 32)
         ir = add_memory_copy_with_memcpy(function, ir, dst, src1, size);
     else
-        ir = add_memory_copy_with_registers(function, ir, dst, src1, size, 0);
+        ir = add_memory_copy_with_registers(function, ir, dst, src1, size);
 
     return ir;
 }
diff --git a/parser.c b/parser.c
index 285bb4b..7ba98e1 100644
--- a/parser.c
+++ b/parser.c
@@ -2387,6 +2387,9 @@ static Value *parse_va_list() {
     if (!types_are_compatible(va_list->type, wcc_va_list_array_type) && !types_are_compatible(va_list->type, wcc_va_list_pointer_type))
         error("Expected va_list type as first argument to va_start");
 
+    // A va_list parameter is a pointer
+    if (is_pointer_type(va_list->type)) va_list = load(va_list);
+
     return va_list;
 }
 
@@ -2446,6 +2449,7 @@ static void parse_va_arg() {
 
     else if (type->type == TYPE_STRUCT_OR_UNION) {
         dst->local_index = new_local_index();
+        dst->is_lvalue = 1;
         add_parser_instruction(IR_DECL_LOCAL_COMP_OBJ, 0, dst, 0);
     }
 
diff --git a/wcc.h b/wcc.h
index db5eccf..4846c27 100644
--- a/wcc.h
+++ b/wcc.h
@@ -1096,7 +1096,7 @@ void determine_bit_field_params(Value *v, int *offset, int *bit_offset, int *bit
 void process_bit_fields(Function *function);
 void remove_unused_function_call_results(Function *function);
 void process_struct_and_union_copies(Function *function);
-Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size, int splay_offsets);
+Tac *add_memory_copy_with_registers(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 Tac *add_memory_copy(Function *function, Tac *ir, Value *dst, Value *src1, int size);
 void convert_enums(Function *function);
 void add_PIC_load_and_saves(Function *function);
-- 
2.43.0


From eff8f76abead2caf3264014854e056859fed6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 026/103] fix: stores and loads of bit-fields of global structs
 with -fPIC lost the offset of the member

---
 ir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ir.c b/ir.c
index c4cbce9..70306e4 100644
--- a/ir.c
+++ b/ir.c
@@ -1199,8 +1199,8 @@ static Value *add_load_from_got(Function *function, Tac *tac, Value *src) {
 
     insert_instruction_from_operation(tac, IR_LOAD_FROM_GOT, dst, got_src, 0, 0);
 
+    // The src value may be in use by other instructions & must not be modified
     dst->offset = src->offset;
-    src->offset = 0;
     got_src->offset = 0;
 
     return dst;
@@ -1250,6 +1250,7 @@ void add_PIC_load_and_saves(Function *function) {
 
         else if (tac->src1 && tac->src1->global_symbol && tac->operation == IR_ADDRESS_OF) {
             tac->operation = IR_ADDRESS_OF_FROM_GOT;
+            tac->src1 = dup_value(tac->src1);
             tac->src1->load_from_got = 1;
             if (tac->src1->offset) {
                 int offset = tac->src1->offset;
-- 
2.43.0


From 6f66b388079303b45fd2c8f2182a9d00c532240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 027/103] fix: the address of an element of a long double array
 member through a pointer failed with 'No rules matched'

---
 instrrules.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instrrules.c b/instrrules.c
index f7511f4..8cb5fcc 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -841,7 +841,9 @@ static void add_pointer_rules(int *ntc) {
     r = add_rule(XRP, IR_ADDRESS_OF, RP2,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP3,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
     r = add_rule(XRP, IR_ADDRESS_OF, RP4,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
-    r = add_rule(RP5, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    for (int src = RP1; src <= RP5; src++) {
+        r = add_rule(RP5, IR_ADDRESS_OF, src,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
+    }
     r = add_rule(XRP, IR_ADDRESS_OF, RP5,  0, 1); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq"); fin_rule(r);
 
     // Common rules for IR_ADDRESS_OF and IR_ADDRESS_OF_FROM_GOT
-- 
2.43.0


From 43ac17346c646f1800b8bca601342f6c2a89c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 028/103] fix: zeroing of large automatic objects was done at
 the start of the function instead of at the declaration

---
 ir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ir.c b/ir.c
index 70306e4..e0fe5cb 100644
--- a/ir.c
+++ b/ir.c
@@ -858,6 +858,8 @@ static Tac *insert_function_call_instructions_after(Tac *ir, Value *call_value,
 
     // Add end call instruction
     ir = insert_instruction_after_from_operation(ir, IR_END_CALL, 0, call_value, 0);
+
+    return ir;
 }
 
 // Add memcpy calls for struct/union -> struct/union copies
@@ -1169,6 +1171,7 @@ void add_zero_memory_instructions(Function *function) {
         }
         else {
             // Call memset
+            Tac *ir = tac;
             int function_call_count = make_function_call_count(function);
 
             // Add start call instruction
@@ -1183,6 +1186,7 @@ void add_zero_memory_instructions(Function *function) {
 
             // Add function call
             ir = insert_function_call_instructions_after(ir, call_value, memset_symbol);
+            tac = ir;
         }
     }
 }
-- 
2.43.0


From b2def45dd67d444a68c9f8ee5f085eb2356e82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 029/103] fix: addresses plus offsets in static initialisers
 with an array as an operand

---
 constexpr.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 6329b3d..5bc18d1 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -228,10 +228,18 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
     if (operation == IR_ADD) check_plus_operation_type(value1, value2, 0);
     else if (operation == IR_SUB) check_minus_operation_type(value1, value2);
 
+    // An array stands for the address of its first element
+    Value *values[2] = {value1, value2};
+    for (int i = 0; i < 2; i++) {
+        if (values[i]->type->type != TYPE_ARRAY) continue;
+        values[i]->type = decay_array_to_pointer(values[i]->type);
+        values[i]->is_address_of = 1;
+    }
+
     Value *result;
 
     if (operation == IR_ADD) {
-        int arithmetic_value;
+        long arithmetic_value;
         if (is_pointer_type(value1->type)) {
             result = dup_value(value1);
             arithmetic_value = value2->int_value;
@@ -241,7 +249,7 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
             arithmetic_value = value1->int_value;
         }
 
-        int size = arithmetic_value * get_type_size(result->type->target);
+        long size = arithmetic_value * get_type_size(result->type->target);
 
         if (result->is_address_of || result->is_string_literal)
             result->address_of_offset += size;
@@ -256,13 +264,13 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
             if (value1->global_symbol != value2->global_symbol)
                 error("Operand mismatch in constant pointer subtraction");
 
-            int difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
+            long difference = value1->address_of_offset + value1->int_value - value2->address_of_offset - value2->int_value;
             result = new_integral_constant(TYPE_LONG, difference / size);
 
         }
         else {
             result = dup_value(value1);
-            int size =  value2->int_value * get_type_size(result->type->target);
+            long size = value2->int_value * get_type_size(result->type->target);
             if (result->is_address_of || result->is_string_literal)
                 result->address_of_offset -= size;
             else
-- 
2.43.0


From 825808bb2dc85de35f5ed11bdab328840b975d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 030/103] fix: a struct starting with an unnamed bit-field
 initialised by another one was copied to the wrong offset

---
 parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 7ba98e1..ba1fe5c 100644
--- a/parser.c
+++ b/parser.c
@@ -1856,7 +1856,8 @@ static void initialize_with_zeroes(Value *value, int offset, int size) {
 static void initialize_iterator_value(TypeIterator *it, Value *value, Value *src) {
     Value *child = dup_value(value);
     child->global_symbol = value->global_symbol;
-    child->offset = it->offset;
+    // The offset of a struct's iterator is the one of its first named member
+    child->offset = it->type->type == TYPE_STRUCT_OR_UNION ? it->start_offset : it->offset;
     child->bit_field_offset = it->bit_field_offset;
     child->bit_field_size = it->bit_field_size;
     child->type = it->type;
-- 
2.43.0


From 54a30e9852886f2424d7c95947bebbb6eff73db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 031/103] fix: a < b << c in constant expressions was taken as
 (a < b) << c

---
 constexpr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 5bc18d1..15f95e4 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -497,10 +497,10 @@ Value *parse_constant_expression(int level) {
             case TOK_MINUS:          value = parse_binary_expression(IR_SUB,  TOK_MULTIPLY,     value); break;
             case TOK_BITWISE_RIGHT:  value = parse_binary_expression(IR_BSHR, TOK_PLUS,         value); break;
             case TOK_BITWISE_LEFT:   value = parse_binary_expression(IR_BSHL, TOK_PLUS,         value); break;
-            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_RIGHT,value); break;
-            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_RIGHT,value); break;
+            case TOK_LT:             value = parse_binary_expression(IR_LT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GT:             value = parse_binary_expression(IR_GT,   TOK_BITWISE_LEFT, value); break;
+            case TOK_LE:             value = parse_binary_expression(IR_LE,   TOK_BITWISE_LEFT, value); break;
+            case TOK_GE:             value = parse_binary_expression(IR_GE,   TOK_BITWISE_LEFT, value); break;
             case TOK_DBL_EQ:         value = parse_binary_expression(IR_EQ,   TOK_LT,           value); break;
             case TOK_NOT_EQ:         value = parse_binary_expression(IR_NE,   TOK_LT,           value); break;
             case TOK_AMPERSAND:      value = parse_binary_expression(IR_BAND, TOK_DBL_EQ,       value); break;
-- 
2.43.0


From 04d1437a8cfd669396306a53df7da4ae4ee20b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 032/103] fix: folded constants had lost the type the operation
 is done in, and 1u / 0u << x did not compile

---
 instrsel.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index d336b78..70b0b78 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -627,7 +627,7 @@ static Value *merge_cst_fp_node(IGraph *igraph, int node_id, Type *type, long do
 static Value* merge_integer_constants(IGraph *igraph, int node_id, int operation, Value *src1, Value *src2) {
     // If it's executed, the behavior is undefined, but it needn't be executed
     if ((operation == IR_DIV || operation == IR_MOD) && !src2->int_value)
-        return merge_cst_int_node(igraph, node_id, 0, 0);
+        return merge_cst_int_node(igraph, node_id, 0, operation_type(src1, src2, 0)->is_unsigned);
 
     Value *value = evaluate_const_binary_int_operation(operation, src1, src2);
 
@@ -680,6 +680,10 @@ static Value *recursive_merge_constants(IGraph *igraph, int node_id) {
     int cst2 = cst1 && (src2 && src2->is_constant);
     if (!src2 || !cst2) return 0;
 
+    // Merged constants are longs, give them the types the operation has been done in
+    if (is_integer_type(src1->type) && is_integer_type(tac->src1->type)) src1 = cast_constant_value(src1, tac->src1->type);
+    if (is_integer_type(src2->type) && is_integer_type(tac->src2->type)) src2 = cast_constant_value(src2, tac->src2->type);
+
     Type *common_type = operation_type(src1, src2, 0);
     if (is_floating_point_type(src1->type) && is_floating_point_type(src2->type)) {
         return merge_fp_constants(igraph, node_id, operation, src1, src2, common_type);
-- 
2.43.0


From ca9441d62ab1f155f20807e537ab22a7aa023e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 033/103] fix: adjacent tokens that would be read back as one
 token or a comment were printed without a space

---
 cpp.c | 79 +++++++++++++++++++++++++++++++----------------------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/cpp.c b/cpp.c
index eea0b5a..702e89e 100644
--- a/cpp.c
+++ b/cpp.c
@@ -466,46 +466,51 @@ void strip_backslash_newlines(void) {
     lm->next = 0;
 }
 
-// Determine if two tokens that don't have a space in between them already need one.
-// The specs are unclear about this, so I followed gcc's cpp_avoid_paste() in lex.c.
+static int is_word_char(char c) {
+    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_';
+}
+
+// Determine if two tokens that don't have a space in between them already need one,
+// since they would otherwise be read back as something else.
 static int need_token_space(CppToken *t1, CppToken *t2) {
-    if (t2->kind == '=') {
-        switch(t1->kind) {
-            case '=':
-            case '!':
-            case '+':
-            case '-':
-            case '*':
-            case '/':
-            case '%':
-            case '<':
-            case '>':
-            case '&':
-            case '|':
-            case '^':
-                return 1;
-        }
+    if (!t1->str || !t2->str || !t1->str[0] || !t2->str[0]) return 0;
+
+    char *s = t1->str;
+    char first = s[0];
+    char last = s[strlen(s) - 1];
+    char next = t2->str[0];
+
+    int is_number = (first >= '0' && first <= '9') || (first == '.' && s[1] >= '0' && s[1] <= '9');
+    int is_literal = last == '"' || last == '\'';
+    int is_word = is_number || (!is_literal && is_word_char(first));
+
+    if (is_word) {
+        if (is_word_char(next)) return 1;
+        if (!is_number && (next == '"' || next == '\'')) return 1;
+        if (is_number && next == '.') return 1;
+        if (is_number && (last == 'e' || last == 'E') && (next == '+' || next == '-')) return 1;
+        return 0;
     }
 
-         if (t1->kind == '<' && t2->kind == '<') return 1;
-    else if (t1->kind == '>' && t2->kind == '>') return 1;
-    else if (t1->kind == '+' && t2->kind == '+') return 1;
-    else if (t1->kind == '-' && t2->kind == '-') return 1;
-    else if (t1->kind == '&' && t2->kind == '&') return 1;
-    else if (t1->kind == '|' && t2->kind == '|') return 1;
-    else if (t1->kind == '-' && t2->kind == '>') return 1;
-    else if (t1->kind == '/' && t2->kind == '*') return 1;
-
-    else if (t1->kind == '+' && t2->kind == CPP_TOK_INC) return 1;
-    else if (t1->kind == '-' && t2->kind == CPP_TOK_DEC) return 1;
-    else if (t1->kind == '.' && t2->kind == CPP_TOK_NUMBER) return 1;
-
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_IDENTIFIER && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_IDENTIFIER) return 1;
-    else if (t1->kind == CPP_TOK_NUMBER     && t2->kind == CPP_TOK_NUMBER) return 1;
-    else if (t1->kind == CPP_TOK_STRING_LITERAL && t2->kind == CPP_TOK_STRING_LITERAL) return 1;
+    if (is_literal) return t1->kind == CPP_TOK_STRING_LITERAL && t2->kind == CPP_TOK_STRING_LITERAL;
+
+    // Punctuators
+    if (s[1] == 0) {
+        switch (first) {
+            case '+': return next == '+' || next == '=';
+            case '-': return next == '-' || next == '=' || next == '>';
+            case '&': return next == '&' || next == '=';
+            case '|': return next == '|' || next == '=';
+            case '<': return next == '<' || next == '=';
+            case '>': return next == '>' || next == '=';
+            case '/': return next == '/' || next == '*' || next == '=';
+            case '.': return next == '.' || (next >= '0' && next <= '9');
+            case '#': return next == '#';
+            case '=': case '!': case '*': case '%': case '^': return next == '=';
+        }
+    }
+    else if (!strcmp(s, "<<") || !strcmp(s, ">>"))
+        return next == '=';
 
     return 0;
 }
-- 
2.43.0


From b116ec8ea219fedab3467b5f318c06bca7eb0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 034/103] fix: macro invocations with too few arguments or
 without an end were not rejected

---
 cpp.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cpp.c b/cpp.c
index 702e89e..92a78ec 100644
--- a/cpp.c
+++ b/cpp.c
@@ -871,10 +871,11 @@ static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
 
 // Parse function-like macro call, starting with the '('
 // Loop over ts; ts is advanced up to the enclosing ')'
-// Returns a ptr to the token sequences for each actual parameter.
+// is is the circular linked list ts is in.
+// Returns a ptr to the token sequences for each actual parameter and sets the count.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
-CppToken **make_function_actual_parameters(CppToken **ts) {
+static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, int *count) {
     CppToken **result = wcalloc(MAX_CPP_MACRO_PARAM_COUNT, sizeof(CppToken *));
 
     int parenthesis_nesting_level = 0;
@@ -884,10 +885,12 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
     while (1) {
         CppToken *token = *ts;
         if (!token) error("Expected macro function-like parameter or )");
+        if (index == MAX_CPP_MACRO_PARAM_COUNT) panic("Exceeded max CPP function macro param count");
 
         if (token->kind == CPP_TOK_RPAREN && !parenthesis_nesting_level) {
             // We're not in nested parentheses
             result[index++] = current_actual;
+            *count = index;
             return result;
         }
         else if (token->kind == CPP_TOK_RPAREN) {
@@ -910,7 +913,7 @@ CppToken **make_function_actual_parameters(CppToken **ts) {
             add_token_to_actuals();
         }
 
-        *ts =(*ts)->next;
+        *ts = cll_next(is, token);
     }
 }
 
@@ -1009,12 +1012,13 @@ static CppToken *expand(CppToken *is) {
         CppToken *directive_token = tok;
         StrSet *directive_token_hs = tok->hide_set;
         tok = cll_next(is, tok1);
-        CppToken **actuals = make_function_actual_parameters(&tok);
+        int actuals_count;
+        CppToken **actuals = make_function_actual_parameters(is, &tok, &actuals_count);
         if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
 
-        int actuals_count = 0;
-        for (CppToken **tok = actuals; *tok; tok++, actuals_count++);
-        if (actuals_count > directive->param_count) error("Mismatch in number of macro parameters");
+        // An empty () is no arguments if the macro doesn't have any parameters
+        if (!directive->param_count && actuals_count == 1 && !actuals[0]) actuals_count = 0;
+        if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
 
         StrSet *rparen_hs = tok->hide_set;
 
-- 
2.43.0


From dab31576bb12f0d4d0b2e4283db7c0fa8cc93703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 035/103] fix: empty macro arguments next to ## and ## followed
 by # lost or added tokens

---
 cpp.c | 50 ++++++++++++++++++++++++++++++++++----------------
 wcc.h |  1 +
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/cpp.c b/cpp.c
index 92a78ec..795dbf3 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1122,6 +1122,16 @@ static CppToken *stringize(CppToken *ts) {
     return result;
 }
 
+// Make a token that stands for an empty argument next to a ##. It is removed in hsadd.
+static CppToken *make_placemarker(void) {
+    CppToken *result = wcalloc(1, sizeof(CppToken));
+    result->kind = CPP_TOK_PLACEMARKER;
+    result->str = "";
+    result->next = result;
+    append_to_list(allocated_tokens_duplicates, result);
+    return result;
+}
+
 // Merge two token lists together.
 // ls is mutated and the result is ls.
 static CppToken *glue(CppToken *ls, CppToken *rs) {
@@ -1129,10 +1139,17 @@ static CppToken *glue(CppToken *ls, CppToken *rs) {
     if (rs == 0) error("Attempt to glue an empty right side");
 
     // Mutating ls, this is allowed since ls is append only
-    wasprintf(&ls->str, "%s%s", ls->str, rs->next->str);
-    append_to_list(allocated_strings, ls->str);
-    ls->kind = CPP_TOK_OTHER;
-    ls->hide_set = safe_strset_intersection(ls->hide_set, rs->next->hide_set);
+    if (ls->kind == CPP_TOK_PLACEMARKER) {
+        ls->kind = rs->next->kind;
+        ls->str = rs->next->str;
+        ls->hide_set = rs->next->hide_set;
+    }
+    else {
+        wasprintf(&ls->str, "%s%s", ls->str, rs->next->str);
+        append_to_list(allocated_strings, ls->str);
+        ls->kind = CPP_TOK_OTHER;
+        ls->hide_set = safe_strset_intersection(ls->hide_set, rs->next->hide_set);
+    }
 
     // Copy all elements from the right side except the first
     CppToken *rs_tok = rs->next;
@@ -1174,11 +1191,17 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
     // # FP
     if (tok->kind == CPP_TOK_HASH && tok1_fp_index) {
         CppToken *replacement = ap[tok1_fp_index - 1];
-        os = cll_append_token(os, stringize(replacement));
+        os = cll_append_token(os, dup_cpp_token(stringize(replacement)));
 
         return subst(cll_from_next(is, tok1), fp, ap, hs, os);
     }
 
+    // ## # FP
+    if (tok->kind == CPP_TOK_PASTE && tok1 && tok1->kind == CPP_TOK_HASH && tok2_fp_index) {
+        CppToken *replacement = ap[tok2_fp_index - 1];
+        return subst(cll_from_next(is, tok2), fp, ap, hs, glue(os, stringize(replacement)));
+    }
+
     // ## FP
     if (tok->kind == CPP_TOK_PASTE && tok1_fp_index) {
         CppToken *replacement = ap[tok1_fp_index - 1];
@@ -1198,16 +1221,9 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
     // FP ##
     if (tok_fp_index && tok1 && tok1->kind == CPP_TOK_PASTE) {
         CppToken *replacement = ap[tok_fp_index - 1];
-        if (!replacement) {
-            if (tok2 && tok2_fp_index) {
-                // (empty) ## (replacement2) ...
-                CppToken *replacement2 = ap[tok2_fp_index - 1];
-                return subst(cll_from_next(is, tok2), fp, ap, hs, concat_clls(os, dup_cll(replacement2)));
-            }
-            else
-                // (empty) ## (empty) ...
-                return subst(cll_from_next(is, tok1), fp, ap, hs, os);
-        }
+        if (!replacement)
+            // (empty) ## ...
+            return subst(cll_from_next(is, tok), fp, ap, hs, cll_append_token(os, make_placemarker()));
         else
             // (replacement) ## ...
             return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, dup_cll(replacement)));
@@ -1232,13 +1248,15 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
     return result;
 }
 
-// Add a a hide set to a token sequence's hide set.
+// Add a hide set to a token sequence's hide set and remove placemarkers.
 static CppToken *hsadd(StrSet *hs, CppToken *ts) {
     if (!hs) panic("Empty hs in hsadd");
     if (!ts) return 0;
 
     CppToken *result = 0;
     for (CppToken *tok = ts->next; tok; tok = cll_next(ts, tok)) {
+        if (tok->kind == CPP_TOK_PLACEMARKER) continue;
+
         CppToken *new_token = dup_cpp_token(tok);
 
         if (new_token->hide_set)
diff --git a/wcc.h b/wcc.h
index 4846c27..8489d65 100644
--- a/wcc.h
+++ b/wcc.h
@@ -612,6 +612,7 @@ enum {
     CPP_TOK_NUMBER,
     CPP_TOK_HASH,
     CPP_TOK_PASTE,
+    CPP_TOK_PLACEMARKER,
     CPP_TOK_INCLUDE,
     CPP_TOK_DEFINE,
     CPP_TOK_UNDEF,
-- 
2.43.0


From f2782269df6007898c16a4b94c53323ef643b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 036/103] fix: newlines in macro arguments were taken as tokens
 by ## and repeated in the output, shifting line numbers, and __LINE__ in a
 macro used the #line of its definition

---
 cpp.c | 67 ++++++++++++++++++++++++++++++++++++++++++++++-------------
 wcc.h |  1 +
 2 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/cpp.c b/cpp.c
index 795dbf3..e6cb59d 100644
--- a/cpp.c
+++ b/cpp.c
@@ -245,6 +245,26 @@ static CppToken *dup_cll(CppToken *src) {
     return dst;
 }
 
+// Duplicate a circular linked list of tokens, leaving out newlines.
+static CppToken *dup_cll_without_newlines(CppToken *src) {
+    if (!src) return 0;
+
+    CppToken *dst = 0;
+    int seen_newline = 0;
+    for (CppToken *src_token = src->next; src_token; src_token = cll_next(src, src_token)) {
+        if (src_token->kind == CPP_TOK_EOL) {
+            seen_newline = 1;
+            continue;
+        }
+
+        dst = cll_append_token(dst, dup_cpp_token(src_token));
+        if (seen_newline && !dst->whitespace) dst->whitespace = " ";
+        seen_newline = 0;
+    }
+
+    return dst;
+}
+
 // Free a CPP token
 static void free_cpp_token(CppToken *token) {
     if (token->str) wfree(token->str);
@@ -548,12 +568,15 @@ static void append_tokens_to_string_buffer(StringBuffer *sb, CppToken *tokens, i
             append_to_string_buffer(sb, " ");
 
         if (update_output && !is_eol) collapse_trailing_newlines(8, 1, token);
-        append_to_string_buffer(sb, token->str);
+
+        // A macro argument may be used several times, its newlines are only outputted once.
+        int is_repeated_eol = update_output && is_eol && state.output_line_number > token->eol_line_number;
+        append_to_string_buffer(sb, is_repeated_eol ? " " : token->str);
 
         prev = token;
         token = token->next;
 
-        if (update_output) {
+        if (update_output && !is_repeated_eol) {
             if (is_eol) state.output_line_number++;
 
             if (is_eol && token) {
@@ -725,6 +748,9 @@ static void cpp_next() {
             state.token = new_cpp_token(CPP_TOK_EOL);
             state.token->str = wstrdup("\n");
             state.token->line_number = state.line_number; // Needs to be the line number of the \n token, not the next token
+            state.token->line_number_offset = state.line_number_offset;
+            int is_first_on_line = state.line_map && state.ip == state.line_map->position;
+            state.token->eol_line_number = is_first_on_line ? state.line_map->line_number : state.line_number;
             state.hchar_lex_state = HLS_START_OF_LINE;
             advance_ip();
         }
@@ -857,14 +883,14 @@ static void cpp_next() {
     return;
 }
 
-// Set line number on all tokens in ts
-static void set_line_number_on_token_sequence(CppToken *ts, int line_number) {
-    CppToken *tail = ts;
-    ts = ts->next;
+// Set the line number on all tokens in ts to the one of the macro they come from
+static void set_line_number_on_token_sequence(CppToken *ts, CppToken *macro) {
+    CppToken *tok = ts;
     do {
-        ts->line_number = line_number;
-        ts = ts->next;
-    } while (ts != tail);
+        tok = tok->next;
+        tok->line_number = macro->line_number;
+        tok->line_number_offset = macro->line_number_offset;
+    } while (tok != ts);
 }
 
 #define add_token_to_actuals() current_actual = cll_append_token(current_actual, dup_cpp_token(token));
@@ -917,6 +943,13 @@ static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, i
     }
 }
 
+static int only_has_newlines(CppToken *ts) {
+    for (CppToken *tok = ts ? ts->next : 0; tok; tok = cll_next(ts, tok))
+        if (tok->kind != CPP_TOK_EOL) return 0;
+
+    return 1;
+}
+
 void free_function_actual_parameters(CppToken **actuals) {
     wfree(actuals); // The tokens are freed as part of the garbage freeing
 }
@@ -999,7 +1032,7 @@ static CppToken *expand(CppToken *is) {
         CppToken *substituted = subst(replacement_tokens, 0, 0, hs, 0);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, tok->line_number);
+            set_line_number_on_token_sequence(substituted, tok);
             substituted->next->whitespace = tok->whitespace;
         }
 
@@ -1016,6 +1049,10 @@ static CppToken *expand(CppToken *is) {
         CppToken **actuals = make_function_actual_parameters(is, &tok, &actuals_count);
         if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
 
+        // Arguments that only have newlines are empty
+        for (int i = 0; i < actuals_count; i++)
+            if (only_has_newlines(actuals[i])) actuals[i] = 0;
+
         // An empty () is no arguments if the macro doesn't have any parameters
         if (!directive->param_count && actuals_count == 1 && !actuals[0]) actuals_count = 0;
         if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
@@ -1042,7 +1079,7 @@ static CppToken *expand(CppToken *is) {
         free_function_actual_parameters(actuals);
 
         if (substituted) {
-            set_line_number_on_token_sequence(substituted, directive_token->line_number);
+            set_line_number_on_token_sequence(substituted, directive_token);
             substituted->next->whitespace = directive_token->whitespace;
         }
 
@@ -1204,11 +1241,11 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // ## FP
     if (tok->kind == CPP_TOK_PASTE && tok1_fp_index) {
-        CppToken *replacement = ap[tok1_fp_index - 1];
+        CppToken *replacement = dup_cll_without_newlines(ap[tok1_fp_index - 1]);
         if (!replacement)
             return subst(cll_from_next(is, tok1), fp, ap, hs, os);
         else
-            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, dup_cll(replacement)));
+            return subst(cll_from_next(is, tok1), fp, ap, hs, glue(os, replacement));
     }
 
     // ## TS
@@ -1220,13 +1257,13 @@ static CppToken *subst(CppToken *is, StrMap *fp, CppToken **ap, StrSet *hs, CppT
 
     // FP ##
     if (tok_fp_index && tok1 && tok1->kind == CPP_TOK_PASTE) {
-        CppToken *replacement = ap[tok_fp_index - 1];
+        CppToken *replacement = dup_cll_without_newlines(ap[tok_fp_index - 1]);
         if (!replacement)
             // (empty) ## ...
             return subst(cll_from_next(is, tok), fp, ap, hs, cll_append_token(os, make_placemarker()));
         else
             // (replacement) ## ...
-            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, dup_cll(replacement)));
+            return subst(cll_from_next(is, tok), fp, ap, hs, concat_clls(os, replacement));
     }
 
     // FP
diff --git a/wcc.h b/wcc.h
index 8489d65..cffb4c8 100644
--- a/wcc.h
+++ b/wcc.h
@@ -641,6 +641,7 @@ typedef struct cpp_token {
     char *str;              // The token text
     int line_number;
     int line_number_offset; // Amended line number due to #line
+    int eol_line_number;    // For newlines, the line they end, also if in a macro argument
     StrSet *hide_set;       // Hide set, when expanding macros
     struct cpp_token *next;
 } CppToken;
-- 
2.43.0


From 263e55d254866677be6aee7e2a886a4fa943e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 037/103] fix: errors in macro invocations were reported at the
 line the lexer had got to, and without the file name given by #line

---
 cpp.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cpp.c b/cpp.c
index e6cb59d..4caaae1 100644
--- a/cpp.c
+++ b/cpp.c
@@ -96,7 +96,13 @@ void debug_print_cll_token_sequence(CppToken *ts) {
 // Set cur_filename and cur_line globals from CPP state
 void get_cpp_filename_and_line() {
     cur_line = state.line_number_offset + state.line_number;
-    cur_filename = state.filename;
+    cur_filename = state.override_filename ? state.override_filename : state.filename;
+}
+
+// Report errors at the line of a macro invocation, rather than how far the lexer has gotten
+static void set_error_location(CppToken *token) {
+    state.line_number = token->line_number;
+    state.line_number_offset = token->line_number_offset;
 }
 
 static void init_cpp_from_fh(FILE *f, char *path) {
@@ -897,11 +903,11 @@ static void set_line_number_on_token_sequence(CppToken *ts, CppToken *macro) {
 
 // Parse function-like macro call, starting with the '('
 // Loop over ts; ts is advanced up to the enclosing ')'
-// is is the circular linked list ts is in.
+// is is the circular linked list ts is in, macro the name of the macro.
 // Returns a ptr to the token sequences for each actual parameter and sets the count.
 // Nested () are taken into account, for cases like f((1, 2), 3), which
 // results in (1, 2) and 3 for the actual parameters.
-static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, int *count) {
+static CppToken **make_function_actual_parameters(CppToken *macro, CppToken *is, CppToken **ts, int *count) {
     CppToken **result = wcalloc(MAX_CPP_MACRO_PARAM_COUNT, sizeof(CppToken *));
 
     int parenthesis_nesting_level = 0;
@@ -910,7 +916,11 @@ static CppToken **make_function_actual_parameters(CppToken *is, CppToken **ts, i
 
     while (1) {
         CppToken *token = *ts;
-        if (!token) error("Expected macro function-like parameter or )");
+        if (!token) {
+            set_error_location(macro);
+            error("Expected macro function-like parameter or )");
+        }
+
         if (index == MAX_CPP_MACRO_PARAM_COUNT) panic("Exceeded max CPP function macro param count");
 
         if (token->kind == CPP_TOK_RPAREN && !parenthesis_nesting_level) {
@@ -1046,8 +1056,7 @@ static CppToken *expand(CppToken *is) {
         StrSet *directive_token_hs = tok->hide_set;
         tok = cll_next(is, tok1);
         int actuals_count;
-        CppToken **actuals = make_function_actual_parameters(is, &tok, &actuals_count);
-        if (!tok || tok->kind != CPP_TOK_RPAREN) error("Expected )");
+        CppToken **actuals = make_function_actual_parameters(directive_token, is, &tok, &actuals_count);
 
         // Arguments that only have newlines are empty
         for (int i = 0; i < actuals_count; i++)
@@ -1055,7 +1064,10 @@ static CppToken *expand(CppToken *is) {
 
         // An empty () is no arguments if the macro doesn't have any parameters
         if (!directive->param_count && actuals_count == 1 && !actuals[0]) actuals_count = 0;
-        if (actuals_count != directive->param_count) error("Mismatch in number of macro parameters");
+        if (actuals_count != directive->param_count) {
+            set_error_location(directive_token);
+            error("Mismatch in number of macro parameters");
+        }
 
         StrSet *rparen_hs = tok->hide_set;
 
-- 
2.43.0


From 3d6c6194320e7c8ef1605431c8345836af27b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 038/103] fix: # in the middle of a line was taken as a
 directive in skipped groups and # include <...> in the middle as a header
 name

---
 cpp.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cpp.c b/cpp.c
index 4caaae1..a38f1c2 100644
--- a/cpp.c
+++ b/cpp.c
@@ -757,7 +757,6 @@ static void cpp_next() {
             state.token->line_number_offset = state.line_number_offset;
             int is_first_on_line = state.line_map && state.ip == state.line_map->position;
             state.token->eol_line_number = is_first_on_line ? state.line_map->line_number : state.line_number;
-            state.hchar_lex_state = HLS_START_OF_LINE;
             advance_ip();
         }
 
@@ -883,8 +882,15 @@ static void cpp_next() {
 
     state.token->whitespace = whitespace;
 
-    if (state.hchar_lex_state == HLS_START_OF_LINE && state.token->kind == CPP_TOK_HASH   ) state.hchar_lex_state = HLS_SEEN_HASH;
-    if (state.hchar_lex_state == HLS_SEEN_HASH     && state.token->kind == CPP_TOK_INCLUDE) state.hchar_lex_state = HLS_SEEN_INCLUDE;
+    // Keep track of # and include at the start of a line, which <...> must directly follow
+    if (state.token->kind == CPP_TOK_EOL)
+        state.hchar_lex_state = HLS_START_OF_LINE;
+    else if (state.hchar_lex_state == HLS_START_OF_LINE && state.token->kind == CPP_TOK_HASH)
+        state.hchar_lex_state = HLS_SEEN_HASH;
+    else if (state.hchar_lex_state == HLS_SEEN_HASH && state.token->kind == CPP_TOK_INCLUDE)
+        state.hchar_lex_state = HLS_SEEN_INCLUDE;
+    else
+        state.hchar_lex_state = HLS_OTHER;
 
     return;
 }
@@ -1912,10 +1918,10 @@ static void cpp_parse() {
             group_tokens = 0;
         }
         else {
-            if (!state.conditional_include_stack->skipping) {
+            if (!state.conditional_include_stack->skipping)
                 group_tokens = cll_append_token(group_tokens, state.token);
-                new_line = (state.token->kind == CPP_TOK_EOL);
-            }
+
+            new_line = (state.token->kind == CPP_TOK_EOL);
             cpp_next();
         }
     }
-- 
2.43.0


From 8eb408d6e7b49235cbfc1794a2a311e31bba222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 039/103] fix: #elif without #if crashed, #else and #elif after
 #else, and an #if left open in an included file were accepted, tokens after
 #endif and markers in skipped groups were output

---
 cpp.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/cpp.c b/cpp.c
index a38f1c2..a429e80 100644
--- a/cpp.c
+++ b/cpp.c
@@ -20,6 +20,7 @@ enum hchar_lex_state {
 typedef struct conditional_include {
     int matched;    // Is the evaluated controlling expression 1?
     int skipping;   // Is a group being skipped?
+    int seen_else;  // Has the #else been seen?
     struct conditional_include *prev;
 } ConditionalInclude;
 
@@ -164,7 +165,6 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
     state.line_number = 1;
     state.line_number_offset = 0;
     state.override_filename = 0;
-    state.include_depth = 0;
 
     cpp_next();
 
@@ -176,6 +176,8 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
 
     cpp_parse();
 
+    if (state.conditional_include_stack->prev) error("Unterminated #if");
+
     collapse_trailing_newlines(0, 0, 0);
 
     wfree(state.input);
@@ -1736,7 +1738,6 @@ static void parse_directive(void) {
             if (!state.conditional_include_stack->skipping)
                 parse_include();
 
-            skip_until_eol();
             break;
 
         case CPP_TOK_DEFINE:
@@ -1756,8 +1757,6 @@ static void parse_directive(void) {
                 }
                 strmap_put(directives, identifier, directive);
             }
-            else
-                skip_until_eol();
 
             break;
 
@@ -1769,9 +1768,6 @@ static void parse_directive(void) {
                 Directive *existing_directive = strmap_get(directives, state.token->str);
                 if (existing_directive) free_directive(existing_directive);
                 strmap_delete(directives, state.token->str);
-                cpp_next();
-
-                skip_until_eol();
             }
 
             break;
@@ -1782,7 +1778,6 @@ static void parse_directive(void) {
             cpp_next();
             parse_if_defined(negate);
 
-            skip_until_eol();
             break;
         }
 
@@ -1796,12 +1791,14 @@ static void parse_directive(void) {
                 state.conditional_include_stack->matched = !!value;
             }
 
-            skip_until_eol();
             break;
 
         case CPP_TOK_ELIF: {
             cpp_next();
 
+            if (!state.conditional_include_stack->prev) error("Found an #elif without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #elif after an #else");
+
             // We're skipping a section and found an #elif. Ignore the directive
             if (!state.conditional_include_stack->prev->skipping) {
                 if (state.conditional_include_stack->matched) {
@@ -1814,7 +1811,6 @@ static void parse_directive(void) {
                 state.conditional_include_stack->matched = !!value;
             }
 
-            skip_until_eol();
             break;
         }
 
@@ -1822,11 +1818,12 @@ static void parse_directive(void) {
             cpp_next();
 
             if (!state.conditional_include_stack->prev) error("Found an #else without an #if");
+            if (state.conditional_include_stack->seen_else) error("Found an #else after an #else");
+            state.conditional_include_stack->seen_else = 1;
             if (state.conditional_include_stack->prev->skipping) break;
 
             state.conditional_include_stack->skipping = state.conditional_include_stack->matched;
 
-            skip_until_eol();
             break;
 
         case CPP_TOK_ENDIF: {
@@ -1852,6 +1849,8 @@ static void parse_directive(void) {
             // # <number> ...
             // We're probably re-preprocessing everything, keep the line
 
+            if (state.conditional_include_stack->skipping) break;
+
             CppToken *tokens = 0;
             tokens = cll_append_token(tokens, directive_hash_token);
 
@@ -1868,7 +1867,6 @@ static void parse_directive(void) {
         case CPP_TOK_PRAGMA:
             // Ignore #pragma
 
-            skip_until_eol();
             break;
 
         case CPP_TOK_WARNING:
@@ -1903,6 +1901,9 @@ static void parse_directive(void) {
             if (!state.conditional_include_stack->skipping)
                 error("Unknown directive \"%s\"", state.token->str);
     }
+
+    // Ignore whatever is left
+    skip_until_eol();
 }
 
 // Parse tokens from the lexer
@@ -2042,8 +2043,6 @@ char *preprocess(char *filename, List *cli_directive_strings) {    init_cpp();
 
     run_preprocessor_on_file(filename, 1);
 
-    if (state.conditional_include_stack->prev) error("Unterminated #if");
-
     terminate_string_buffer(output);
 
     char *data = output->data;
-- 
2.43.0


From bfa58d15725e2d9331765fb0f697c2a9f0175062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 040/103] fix: errors in directives, also those spanning lines,
 are reported at the directive; defined did not take names like else, #if with
 nothing left after expansion crashed and tokens after an #if expression were
 accepted

---
 cpp.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/cpp.c b/cpp.c
index a429e80..6a724d5 100644
--- a/cpp.c
+++ b/cpp.c
@@ -40,6 +40,7 @@ typedef struct cpp_state {
     int                  output_line_number;          // How many lines have been outputted
     ConditionalInclude * conditional_include_stack;   // Includes
     int                  include_depth;               // How deep are we in nested includes
+    CppToken *           error_token;                 // Where to report errors, if not where the lexer is
 } CppState;
 
 CppState state;
@@ -96,14 +97,17 @@ void debug_print_cll_token_sequence(CppToken *ts) {
 
 // Set cur_filename and cur_line globals from CPP state
 void get_cpp_filename_and_line() {
-    cur_line = state.line_number_offset + state.line_number;
+    if (state.error_token)
+        cur_line = state.error_token->line_number_offset + state.error_token->line_number;
+    else
+        cur_line = state.line_number_offset + state.line_number;
+
     cur_filename = state.override_filename ? state.override_filename : state.filename;
 }
 
-// Report errors at the line of a macro invocation, rather than how far the lexer has gotten
+// Report errors at the line of a macro invocation or directive, rather than how far the lexer has gotten
 static void set_error_location(CppToken *token) {
-    state.line_number = token->line_number;
-    state.line_number_offset = token->line_number_offset;
+    state.error_token = token;
 }
 
 static void init_cpp_from_fh(FILE *f, char *path) {
@@ -165,6 +169,7 @@ static void run_preprocessor_on_file(char *filename, int first_file) {
     state.line_number = 1;
     state.line_number_offset = 0;
     state.override_filename = 0;
+    state.error_token = 0;
 
     cpp_next();
 
@@ -1561,17 +1566,17 @@ static CppToken *expand_defineds(CppToken *is) {
         CppToken *tok1 = cll_next(is, tok);
 
         if (tok->kind == CPP_TOK_DEFINED) {
-            if (tok1 && tok1->kind == CPP_TOK_IDENTIFIER) {
+            if (tok1 && is_identifier(tok1)) {
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok1->str)));
                 tok = cll_next(is, tok1);
             }
             else if (tok1 && tok1->kind == CPP_TOK_LPAREN) {
                 tok = cll_next(is, tok1);
-                if (!tok || tok->kind != CPP_TOK_IDENTIFIER)
+                if (!tok || !is_identifier(tok))
                     error("Expected identifier");
 
                 os = cll_append_token(os, make_boolean_token(!!strmap_get(directives, tok->str)));
-                if (tok->next == is->next || tok->next->kind != CPP_TOK_RPAREN)
+                if (tok == is || tok->next->kind != CPP_TOK_RPAREN)
                     error("Expected )");
                 tok = cll_next(is, cll_next(is, tok));
             }
@@ -1604,6 +1609,7 @@ static long parse_conditional_expression() {
 
     CppToken *expanded_defineds = expand_defineds(tokens);
     CppToken *expanded = expand(expanded_defineds);
+    if (!expanded) error("Expected expression");
 
     // Replace identifiers with 0
     for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok))
@@ -1619,6 +1625,7 @@ static long parse_conditional_expression() {
     free_string_buffer(rendered, 0);
     init_lexer_from_string(data);
     Value *value = parse_constant_integer_expression(1);
+    if (cur_token != TOK_EOF) error("Unexpected tokens after the expression");
     wfree(data);
     free_lexer();
 
@@ -1729,6 +1736,7 @@ static void check_directive_redeclaration(Directive *d1, Directive *d2, char *id
 
 static void parse_directive(void) {
     CppToken *directive_hash_token = state.token;
+    set_error_location(directive_hash_token);
     cpp_next();
 
     switch (state.token->kind) {
@@ -1904,6 +1912,7 @@ static void parse_directive(void) {
 
     // Ignore whatever is left
     skip_until_eol();
+    set_error_location(0);
 }
 
 // Parse tokens from the lexer
-- 
2.43.0


From 4e26706c56974c233c8e1ce1e0e72d16c6eb25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 041/103] fix: ' and " without an end on their line swallowed
 following lines, unterminated comments were accepted, macros with include
 file names were destroyed by use, long white space panicked

---
 cpp.c   | 81 +++++++++++++++++++++++++++++++++++++++++++++++----------
 lexer.c |  2 +-
 2 files changed, 68 insertions(+), 15 deletions(-)

diff --git a/cpp.c b/cpp.c
index 6a724d5..b4d8e0b 100644
--- a/cpp.c
+++ b/cpp.c
@@ -8,6 +8,7 @@
 
 enum {
     MAX_CPP_OUTPUT_SIZE = 10 * 1024 * 1024,
+    WHITESPACE_BUFFER_SIZE = 1024,
 };
 
 enum hchar_lex_state {
@@ -136,9 +137,9 @@ static void init_cpp_from_fh(FILE *f, char *path) {
 static void output_line_directive(int offset, int add_eol, CppToken *token) {
     if (!token) return;
 
-    char *buf = wmalloc(256);
+    char *buf;
     char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
+    wasprintf(&buf, "# %d \"%s\"%s", state.line_number_offset + token->line_number + offset, filename, add_eol ? "\n" : "");
     append_to_string_buffer(output, buf);
     wfree(buf);
 }
@@ -624,8 +625,11 @@ static void advance_ip_by_count(int count) {
 }
 
 static void add_to_whitespace(char **whitespace, int *whitespace_pos, char c) {
-    if (!*whitespace) *whitespace = wmalloc(1024);
-    if (*whitespace_pos == 1024) panic("Ran out of whitespace buffer");
+    // Keep room for the terminating zero
+    if (!*whitespace) *whitespace = wmalloc(WHITESPACE_BUFFER_SIZE);
+    else if ((*whitespace_pos + 1) % WHITESPACE_BUFFER_SIZE == 0)
+        *whitespace = wrealloc(*whitespace, *whitespace_pos + 1 + WHITESPACE_BUFFER_SIZE);
+
     (*whitespace)[(*whitespace_pos)++] = c;
 }
 
@@ -653,12 +657,18 @@ static char *lex_whitespace(void) {
 
         // Process /* comments */
         if (state.input_size - state.ip >= 2 && state.input[state.ip] == '/' && state.input[state.ip + 1] == '*') {
+            int line_number = state.line_number;
             advance_ip();
             advance_ip();
 
             while (state.input_size - state.ip >= 2 && (state.input[state.ip] != '*' || state.input[state.ip + 1] != '/'))
                 advance_ip();
 
+            if (state.input_size - state.ip < 2) {
+                state.line_number = line_number;
+                error("Unterminated comment");
+            }
+
             advance_ip();
             advance_ip();
 
@@ -676,6 +686,20 @@ static char *lex_whitespace(void) {
 
 }
 
+// Is there a delimiter on this line that ends the literal starting at ip?
+static int has_terminator(char delimiter) {
+    char *i = state.input;
+    int ip = state.ip + (i[state.ip] == 'L') + 1;
+
+    while (ip < state.input_size && i[ip] != '\n') {
+        if (i[ip] == delimiter) return 1;
+        if (i[ip] == '\\' && delimiter != '>') ip++;
+        ip++;
+    }
+
+    return 0;
+}
+
 static void lex_string_and_char_literal(char delimiter) {
     char *i = state.input;
     int data_offset = 0;
@@ -699,7 +723,7 @@ static void lex_string_and_char_literal(char delimiter) {
             break;
         }
 
-        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\') {
+        if (state.input_size - state.ip >= 2 && i[state.ip] == '\\' && delimiter != '>') {
             if (size + 1 >= MAX_STRING_LITERAL_SIZE) panic("Exceeded maximum string literal size %d", MAX_STRING_LITERAL_SIZE);
             data[data_offset + 1 + size++] = '\\';
             data[data_offset + 1 + size++] = i[state.ip + 1];
@@ -799,13 +823,13 @@ static void cpp_next() {
         else if (             c1 == ')'                          )  { make_token(CPP_TOK_RPAREN, 1); }
         else if (             c1 == ','                          )  { make_token(CPP_TOK_COMMA, 1); }
 
-        else if ((c1 == '"') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '"'))
+        else if (((c1 == '"') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '"')) && has_terminator('"'))
             lex_string_and_char_literal('"');
 
-        else if ((c1 == '\'') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '\''))
+        else if (((c1 == '\'') || (state.input_size - state.ip >= 2 && c1 == 'L' && c2 == '\'')) && has_terminator('\''))
             lex_string_and_char_literal('\'');
 
-        else if (c1 == '<' && state.hchar_lex_state == HLS_SEEN_INCLUDE) {
+        else if (c1 == '<' && state.hchar_lex_state == HLS_SEEN_INCLUDE && has_terminator('>')) {
             lex_string_and_char_literal('>');
             state.token->kind = CPP_TOK_HCHAR_STRING_LITERAL;
             state.hchar_lex_state = HLS_OTHER;
@@ -1411,6 +1435,29 @@ static CppToken *gather_tokens_until_eol_and_expand() {
     return expand(gather_tokens_until_eol());
 }
 
+// Make a token for the filename from the expanded tokens after an #include, either the
+// first one, or everything from a < to a >.
+static CppToken *make_include_token(CppToken *tokens) {
+    CppToken *token = tokens->next;
+    if (strcmp(token->str, "<")) return token;
+
+    StringBuffer *path = new_string_buffer(128);
+    while (token && strcmp(token->str, ">")) {
+        if (token->whitespace && token != tokens->next) append_to_string_buffer(path, " ");
+        append_to_string_buffer(path, token->str);
+        token = cll_next(tokens, token);
+    }
+
+    if (!token) error("Expected > in #include");
+    append_to_string_buffer(path, ">");
+
+    CppToken *result = new_cpp_token(CPP_TOK_HCHAR_STRING_LITERAL);
+    result->str = path->data;
+    free_string_buffer(path, 0);
+
+    return result;
+}
+
 static void parse_include() {
     if (state.include_depth == MAX_CPP_INCLUDE_DEPTH)
         error("Exceeded maximum include depth %d", MAX_CPP_INCLUDE_DEPTH);
@@ -1421,21 +1468,24 @@ static void parse_include() {
     int have_pp_tokens = (state.token->kind != CPP_TOK_STRING_LITERAL && state.token->kind != CPP_TOK_HCHAR_STRING_LITERAL);
     CppToken *include_token;
 
-    if (have_pp_tokens)
+    if (have_pp_tokens) {
         // Parse #include pp-tokens
-        include_token = gather_tokens_until_eol_and_expand();
+        CppToken *tokens = gather_tokens_until_eol_and_expand();
+        include_token = tokens ? make_include_token(tokens) : 0;
+    }
 
     else {
         include_token = state.token;
         cpp_next();
     }
 
-    if (!include_token || include_token->kind == CPP_TOK_EOL || include_token->kind == CPP_TOK_EOF)
+    if (!include_token || (include_token->kind != CPP_TOK_STRING_LITERAL && include_token->kind != CPP_TOK_HCHAR_STRING_LITERAL))
         error("Invalid #include");
 
     // Remove "" or <> tokens
-    path = &(include_token->str[1]);
+    path = wstrdup(&(include_token->str[1]));
     path[strlen(path) - 1] = 0;
+    append_to_list(allocated_strings, path);
     is_system = include_token->kind == CPP_TOK_HCHAR_STRING_LITERAL;
 
     skip_until_eol();
@@ -1456,11 +1506,13 @@ static void parse_include() {
     state = backup_state;
     cur_filename = state.filename;
 
-    char *buf = wmalloc(256);
+    char *buf;
     char *filename = state.override_filename ? state.override_filename : state.filename;
-    sprintf(buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
+    wasprintf(&buf, "# %d \"%s\" 2", state.line_number_offset + state.line_number + 1, filename);
     append_to_string_buffer(output, buf);
     wfree(buf);
+
+    state.output_line_number = state.line_number;
 }
 
 static CppToken *parse_define_replacement_tokens(void) {
@@ -1676,6 +1728,7 @@ static void parse_line() {
         }
 
         output_line_directive(1, 0, state.token);
+        state.output_line_number = state.token->line_number;
     }
     else
         error("Invalid #line directive");
diff --git a/lexer.c b/lexer.c
index d0c3fb8..b3e07ad 100644
--- a/lexer.c
+++ b/lexer.c
@@ -206,7 +206,7 @@ void lex_single_string_literal(int *size) {
     int *data = (int *) cur_string_literal.data;
     char *i = input;
 
-    while (input_size - ip >= 1 && i[ip] != '"') {
+    while (input_size - ip >= 1 && i[ip] != '"' && i[ip] != '\n') {
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
         else if (input_size - ip >= 2 && i[ip] == '\\') {
                  if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
-- 
2.43.0


From 2a4639f20534fa4bdb72939820c0e3038dc0be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 042/103] fix: #line without operands and strings in #if
 crashed, #line with invalid operands and # not followed by a parameter were
 accepted, a macro with a #line file name was destroyed by use

---
 cpp.c | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/cpp.c b/cpp.c
index b4d8e0b..8e02932 100644
--- a/cpp.c
+++ b/cpp.c
@@ -1581,6 +1581,12 @@ static Directive *parse_define_tokens(void) {
             cpp_next();
 
             tokens = parse_define_replacement_tokens();
+
+            for (CppToken *token = tokens ? tokens->next : 0; token; token = cll_next(tokens, token)) {
+                if (token->kind != CPP_TOK_HASH) continue;
+                CppToken *next = cll_next(tokens, token);
+                if (!next || !strmap_get(directive->param_identifiers, next->str)) error("# is not followed by a macro parameter");
+            }
         }
     }
 
@@ -1664,11 +1670,14 @@ static long parse_conditional_expression() {
     if (!expanded) error("Expected expression");
 
     // Replace identifiers with 0
-    for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok))
+    for (CppToken *tok = expanded->next; tok; tok = cll_next(expanded, tok)) {
+        if (tok->kind == CPP_TOK_STRING_LITERAL && tok->str[strlen(tok->str) - 1] == '"') error("Unexpected string literal");
+
         if (is_identifier(tok))  {
             tok->kind = CPP_TOK_NUMBER;
             tok->str = "0";
         }
+    }
 
     StringBuffer *rendered = new_string_buffer(128);
     append_tokens_to_string_buffer(rendered, expanded, 1, 0);
@@ -1707,31 +1716,27 @@ static void parse_line() {
         // Parse #line <number> ...
         tokens = gather_tokens_until_eol();
 
-    CppToken *token = tokens->next;
-
     if (state.token->kind != CPP_TOK_EOL && state.token->kind != CPP_TOK_EOF) panic("Expected EOL or EOF");
 
-    if (token->kind == CPP_TOK_NUMBER) {
-        state.line_number_offset = atoi(token->str) - state.line_number - 1;
+    CppToken *number = tokens ? tokens->next : 0;
+    if (!number || strspn(number->str, "0123456789") != strlen(number->str)) error("Invalid #line directive");
 
-        // Amend the next token's line number offset too
-        state.token->line_number_offset = state.line_number_offset;
+    CppToken *filename = cll_next(tokens, number);
+    if (filename && filename->str[0] != '"') error("Invalid filename in #line directive");
 
-        token = cll_next(tokens, token);
+    state.line_number_offset = atoi(number->str) - state.line_number - 1;
 
-        if (token && token->kind == CPP_TOK_STRING_LITERAL) {
-            char *filename = token->str;
-            filename[strlen(filename) - 1] = 0;
-            filename++;
-            state.override_filename = filename;
-            cur_filename = token->str;
-        }
+    // Amend the next token's line number offset too
+    state.token->line_number_offset = state.line_number_offset;
 
-        output_line_directive(1, 0, state.token);
-        state.output_line_number = state.token->line_number;
+    if (filename) {
+        state.override_filename = wstrdup(&(filename->str[1]));
+        state.override_filename[strlen(state.override_filename) - 1] = 0;
+        append_to_list(allocated_strings, state.override_filename);
     }
-    else
-        error("Invalid #line directive");
+
+    output_line_directive(1, 0, state.token);
+    state.output_line_number = state.token->line_number;
 }
 
 // Ensure two directive have identical replacement lists, and if they are
-- 
2.43.0


From 80356c466cf42aa35e2d8813dfb30352adfdf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 043/103] fix: adjacent string literals with a line marker in
 between were not joined, invalid numbers such as 08 and 1x and stray # were
 accepted

---
 lexer.c | 76 ++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 23 deletions(-)

diff --git a/lexer.c b/lexer.c
index b3e07ad..00892ad 100644
--- a/lexer.c
+++ b/lexer.c
@@ -88,6 +88,13 @@ static void skip_whitespace(void) {
     }
 }
 
+// A number can't directly be followed by something that would be part of a preprocessing number
+static void check_end_of_number(void) {
+    char c = input[ip];
+    if (c == '.' || c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
+        error("Invalid number");
+}
+
 // Lex U, L, LL integer constant suffixes and determine type
 // See http://port70.net/~nsz/c/c99/n1256.html#6.4.4.1p5
 static void finish_integer_constant(int is_decimal) {
@@ -96,11 +103,13 @@ static void finish_integer_constant(int is_decimal) {
     int is_unsigned = 0;
 
     while (1) {
-        if (ip < input_size && (i[ip] == 'U' || i[ip] == 'u')) { is_unsigned = 1; ip++; }
-        else if (ip < input_size && (i[ip] == 'L' || i[ip] == 'l')) { is_long = 1; ip++; }
+        if (!is_unsigned && (i[ip] == 'U' || i[ip] == 'u')) { is_unsigned = 1; ip++; }
+        else if (!is_long && (i[ip] == 'L' || i[ip] == 'l')) { is_long = 1; ip += i[ip] == i[ip + 1] ? 2 : 1; }
         else break;
     }
 
+    check_end_of_number();
+
     int may_not_be_unsigned = is_decimal && !is_unsigned;
 
     if (!is_unsigned && !is_long && cur_long >= 0 && cur_long < 0x80000000); // int
@@ -128,9 +137,11 @@ void lex_non_hex_literal(void) {
     int has_leading_zero = i[ip] == '0';
     long octal_integer = 0;
     long decimal_integer = 0;
+    int has_decimal_digit = 0;
     while ((i[ip] >= '0' && i[ip] <= '9') && ip < input_size) {
         octal_integer = octal_integer * 8  + (i[ip] - '0');
         decimal_integer = decimal_integer * 10 + (i[ip] - '0');
+        has_decimal_digit |= i[ip] >= '8';
         ip++;
     }
 
@@ -138,6 +149,7 @@ void lex_non_hex_literal(void) {
 
     if (!is_floating_point && has_leading_zero) {
         // It's an octal number
+        if (has_decimal_digit) error("Invalid digit in octal number");
         cur_token = TOK_INTEGER;
         cur_long = octal_integer;
         finish_integer_constant(0);
@@ -157,7 +169,9 @@ void lex_non_hex_literal(void) {
 
         int type = TYPE_DOUBLE;
         if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
-        if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        else if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+
+        check_end_of_number();
 
         cur_lexer_type = new_type(type);
     }
@@ -245,12 +259,44 @@ void lex_single_string_literal(int *size) {
     data[*size] = 0;
 }
 
+// Lex # <num> "filename" ...
+static void lex_line_marker(void) {
+    char *i = input;
+
+    for (int j = ip - 1; j >= 0 && i[j] != '\n'; j--)
+        if (i[j] != ' ' && i[j] != '\t') error("Unexpected #");
+
+    ip++;
+    skip_whitespace();
+
+    int line = 0;
+    while (i[ip] >= '0' && i[ip] <= '9') line = line * 10 + i[ip++] - '0';
+
+    skip_whitespace();
+    if (i[ip] != '"') error("Expected # <number> \"filename\"");
+    ip++; // Skip the "
+
+    int start = ip;
+    while (i[ip] != '"' && i[ip] != '\n') ip++;
+    if (i[ip] != '"') error("Expected # <number> \"filename\"");
+
+    if (cur_filename) free_and_null(cur_filename);
+    cur_filename = wmalloc(ip - start + 1);
+    memcpy(cur_filename, i + start, ip - start);
+    cur_filename[ip - start] = 0;
+    cur_line = line - 1;
+
+    while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
+    skip_whitespace(); // Skip EOL if present
+}
+
 void lex_string_literal(void) {
     char *i = input;
 
     int is_wide_char = 0;
     int size = 0;
 
+    // Adjacent string literals are joined, also when there are line markers in between
     while (ip < input_size && (i[ip] == '"') || (input_size - ip >= 2 && i[ip] == 'L' && i[ip + 1] == '"')) {
         if (i[ip] == 'L') {
             is_wide_char = 1;
@@ -260,6 +306,7 @@ void lex_string_literal(void) {
         ip += 1;
         lex_single_string_literal(&size);
         skip_whitespace();
+        while (ip < input_size && i[ip] == '#') lex_line_marker();
     }
 
     finish_string_literal(size, is_wide_char);
@@ -338,7 +385,9 @@ void next(void) {
         else if (c1 == '0' && input_size - ip >= 2 && (i[ip+1] == 'x' || i[ip+1] == 'X')) {
             ip += 2;
             cur_token = TOK_INTEGER;
+            int start_ip = ip;
             lex_hex_literal();
+            if (ip == start_ip) error("Expected hexadecimal digits");
             finish_integer_constant(0);
         }
 
@@ -352,26 +401,7 @@ void next(void) {
         }
 
         else if (i[ip] == '#') {
-            // Lex # <num> "filename" ...
-
-            ip++;
-            skip_whitespace();
-
-            lex_non_hex_literal();
-            skip_whitespace();
-
-            int size = 0;
-            ip++; // Skip the "
-            lex_single_string_literal(&size);
-            finish_string_literal(size, 0);
-
-            if (cur_filename) free_and_null(cur_filename);
-            cur_filename = wstrdup(cur_string_literal.data);
-            cur_line = cur_long - 1;
-
-            while (ip < input_size && i[ip] != '\n') ip++; // Skip non-whitespace
-            skip_whitespace(); // Skip EOL if present
-
+            lex_line_marker();
             continue;
         }
 
-- 
2.43.0


From 9c701f91bccad52e6e6e2de6dc4d9640b9467dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 044/103] fix: escapes in character and wide literals had wrong
 values, empty and unterminated ones and & in #if were accepted

---
 constexpr.c |   4 ++
 lexer.c     | 108 ++++++++++++++++++++++------------------------------
 2 files changed, 49 insertions(+), 63 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 15f95e4..5454cdb 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -339,6 +339,10 @@ static Value *parse_ternary(Value *value) {
 Value *parse_constant_expression(int level) {
     Value *value;
 
+    // Only integers and operators are allowed in #if
+    if (integers_are_longs && cur_token != TOK_LOGICAL_NOT && cur_token != TOK_BITWISE_NOT && cur_token != TOK_PLUS && cur_token != TOK_MINUS && cur_token != TOK_LPAREN && cur_token != TOK_INTEGER)
+        error("Unexpected token %d in constant expression", cur_token);
+
     switch(cur_token) {
         case TOK_LOGICAL_NOT: value = parse_unary_expression(IR_LNOT); break;
         case TOK_BITWISE_NOT: value = parse_unary_expression(IR_BNOT); break;
diff --git a/lexer.c b/lexer.c
index 00892ad..52137d7 100644
--- a/lexer.c
+++ b/lexer.c
@@ -216,37 +216,46 @@ void finish_string_literal(int size, int is_wide_char) {
         for (int i = 0; i <= size; i++) cur_string_literal.data[i] = data[i];
 }
 
+// Lex an escape sequence starting with a backslash and return its value
+static int lex_escape_sequence(void) {
+    char *i = input;
+
+    ip++;
+    switch (i[ip]) {
+        case '\'':
+        case '"':
+        case '?':
+        case '\\': return i[ip++];
+        case 'a': ip++; return 7;
+        case 'b': ip++; return 8;
+        case 'f': ip++; return 12;
+        case 'n': ip++; return 10;
+        case 'r': ip++; return 13;
+        case 't': ip++; return 9;
+        case 'v': ip++; return 11;
+        case 'e': ip++; return 27;
+    }
+
+    if (i[ip] >= '0' && i[ip] <= '7')
+        lex_octal_literal();
+    else if (i[ip] == 'x') {
+        int start_ip = ++ip;
+        lex_hex_literal();
+        if (ip == start_ip) error("Expected hexadecimal digits");
+    }
+    else
+        error("Unknown \\ escape in literal");
+
+    return cur_long;
+}
+
 void lex_single_string_literal(int *size) {
     int *data = (int *) cur_string_literal.data;
     char *i = input;
 
     while (input_size - ip >= 1 && i[ip] != '"' && i[ip] != '\n') {
         if (i[ip] != '\\') data[(*size)++] = i[ip++];
-        else if (input_size - ip >= 2 && i[ip] == '\\') {
-                 if (i[ip + 1] == '\'') { ip += 2; data[(*size)++] = '\''; }
-            else if (i[ip + 1] == '"' ) { ip += 2; data[(*size)++] = '\"'; }
-            else if (i[ip + 1] == '?' ) { ip += 2; data[(*size)++] = '?'; }
-            else if (i[ip + 1] == '\\') { ip += 2; data[(*size)++] = '\\'; }
-            else if (i[ip + 1] == 'a' ) { ip += 2; data[(*size)++] = 7; }
-            else if (i[ip + 1] == 'b' ) { ip += 2; data[(*size)++] = 8; }
-            else if (i[ip + 1] == 'f' ) { ip += 2; data[(*size)++] = 12; }
-            else if (i[ip + 1] == 'n' ) { ip += 2; data[(*size)++] = 10; }
-            else if (i[ip + 1] == 'r' ) { ip += 2; data[(*size)++] = 13; }
-            else if (i[ip + 1] == 't' ) { ip += 2; data[(*size)++] = 9; }
-            else if (i[ip + 1] == 'v' ) { ip += 2; data[(*size)++] = 11; }
-            else if (i[ip + 1] == 'e' ) { ip += 2; data[(*size)++] = 27; }
-            else if (i[ip + 1] >= '0' && i[ip + 1] <= '7' ) {
-                ip++;
-                lex_octal_literal();
-                data[(*size)++] = cur_long & 0xff;
-            }
-            else if (i[ip + 1] == 'x' ) {
-                ip += 2;
-                lex_hex_literal();
-                data[(*size)++] = cur_long & 0xff;
-            }
-            else error("Unknown \\ escape in string literal");
-        }
+        else data[(*size)++] = lex_escape_sequence();
 
         data[*size] = 0;
     }
@@ -415,53 +424,26 @@ void next(void) {
 
             cur_token = TOK_INTEGER;
             cur_lexer_type = new_type(TYPE_INT);
-            cur_long = 0;
             ip += 1;
 
+            int value = 0;
             int byte_count = 0;
-            while (input_size - ip >= 1 && i[ip] != '\'') {
-                if (i[ip] != '\\') { cur_long = (cur_long  << 8) + i[ip++]; }
-                else if (i[ip] == '\\') {
-                    ip++;
-                         if (i[ip] == '\'') { ip++; cur_long = (cur_long << 8) +  '\''; }
-                    else if (i[ip] == '"' ) { ip++; cur_long = (cur_long << 8) +  '\"'; }
-                    else if (i[ip] == '?' ) { ip++; cur_long = (cur_long << 8) +  '?'; }
-                    else if (i[ip] == '\\') { ip++; cur_long = (cur_long << 8) +  '\\'; }
-                    else if (i[ip] == 'a' ) { ip++; cur_long = (cur_long << 8) +  7; }
-                    else if (i[ip] == 'b' ) { ip++; cur_long = (cur_long << 8) +  8; }
-                    else if (i[ip] == 'f' ) { ip++; cur_long = (cur_long << 8) +  12; }
-                    else if (i[ip] == 'n' ) { ip++; cur_long = (cur_long << 8) +  10; }
-                    else if (i[ip] == 'r' ) { ip++; cur_long = (cur_long << 8) +  13; }
-                    else if (i[ip] == 't' ) { ip++; cur_long = (cur_long << 8) +  9; }
-                    else if (i[ip] == 'v' ) { ip++; cur_long = (cur_long << 8) +  11; }
-                    else if (i[ip] == 'e' ) { ip++; cur_long = (cur_long << 8) +  27; }
-                    else if (i[ip] >= '0' && i[ip] <= '7' ) {
-                        int old_cur_long = cur_long;
-                        lex_octal_literal();
-                        cur_long &= 0xff;
-                        cur_long = (old_cur_long << 8) + cur_long;
-                    }
-                    else if (i[ip] == 'x' ) {
-                        ip++;
-                        unsigned int old_cur_long = cur_long;
-                        lex_hex_literal();
-                        int mask = (1 << (byte_count << 3)) - 1;
-
-                        if (!is_wide_char) {
-                            cur_long = ((old_cur_long & mask) << 8) + (cur_long & 0xff);
+            while (input_size - ip >= 1 && i[ip] != '\'' && i[ip] != '\n') {
+                int c = i[ip] == '\\' ? lex_escape_sequence() : i[ip++];
 
-                            // Sign extend the first byte
-                            if (byte_count == 0) cur_long = (int) ((char) cur_long);
-                        }
-                    }
-                    else error("Unknown \\ escape in character literal");
-                }
+                // The value of multiple characters is made from their bytes
+                value = is_wide_char ? c : (int) (((unsigned int) value << 8) + (c & 0xff));
                 byte_count++;
             }
+
+            if (!byte_count) error("Empty character literal");
+            if (i[ip] != '\'') error("Expecting terminating ' in character literal");
             ip++;
+
+            // A single char is sign extended
+            cur_long = byte_count == 1 && !is_wide_char ? (char) value : value;
         }
 
-        // String literal
         else if ((c1 == '"') || (input_size - ip >= 2 && c1 == 'L' && c2 == '"')) {
             lex_string_literal();
         }
-- 
2.43.0


From 3fd7255246187643a66a63dcfa2c6ed5f8ac3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 045/103] fix: dividing by a floating point zero constant made
 the compiler panic

---
 ssa.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ssa.c b/ssa.c
index e921631..995874f 100644
--- a/ssa.c
+++ b/ssa.c
@@ -160,12 +160,8 @@ void optimize_floating_point_arithmetic_operation(Tac *tac) {
     else if (tac->operation == IR_DIV && cv && tac->src2->is_constant) {
         c = tac->src2->fp_value;
 
-        if (c == 0.0L)
-            panic("Division by zero");
-
-        else if (c == 1.0L) {
+        if (c == 1.0L) {
             tac->operation = IR_MOVE;
-            tac->src1 = v;
             tac->src2 = 0;
         }
     }
-- 
2.43.0


From db22aaea78f9ebc5b6ae0a5ad180f85282110f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 046/103] fix: floating point constants are rounded to their
 type

---
 constexpr.c | 30 +++++++++++++++++++++++++-----
 lexer.c     |  4 +++-
 parser.c    |  6 +++++-
 wcc.h       |  1 +
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 5454cdb..99c6ff3 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -28,7 +28,7 @@ static long convert_integer_constant(Type *type, long value) {
 }
 
 // Round a floating point constant to the precision of a floating point type
-static long double convert_floating_point_constant(Type *type, long double value) {
+long double convert_floating_point_constant(Type *type, long double value) {
          if (type->type == TYPE_FLOAT)  return (float) value;
     else if (type->type == TYPE_DOUBLE) return (double) value;
     else return value;
@@ -125,6 +125,28 @@ Value *evaluate_const_binary_int_operation(int operation, Value *src1, Value *sr
     return v;
 }
 
+// Do an arithmetic operation in the precision of a floating point type. Operations on
+// floats can be done in long doubles without the result being rounded twice, but not
+// those on doubles.
+static long double evaluate_fp_arithmetic(int operation, Type *type, long double f1, long double f2) {
+    if (type->type == TYPE_DOUBLE) {
+        double d1 = f1;
+        double d2 = f2;
+             if (operation == IR_ADD) d1 = d1 + d2;
+        else if (operation == IR_SUB) d1 = d1 - d2;
+        else if (operation == IR_MUL) d1 = d1 * d2;
+        else                          d1 = d1 / d2;
+        return d1;
+    }
+
+         if (operation == IR_ADD) f1 = f1 + f2;
+    else if (operation == IR_SUB) f1 = f1 - f2;
+    else if (operation == IR_MUL) f1 = f1 * f2;
+    else                          f1 = f1 / f2;
+
+    return convert_floating_point_constant(type, f1);
+}
+
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type) {
     Value *v = new_value();
     v->is_constant = 1;
@@ -133,10 +155,8 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
     long double f1 = src1->fp_value;
     long double f2 = src2->fp_value;
 
-         if (operation == IR_ADD) v->fp_value = convert_floating_point_constant(type, f1 + f2);
-    else if (operation == IR_SUB) v->fp_value = convert_floating_point_constant(type, f1 - f2);
-    else if (operation == IR_MUL) v->fp_value = convert_floating_point_constant(type, f1 * f2);
-    else if (operation == IR_DIV) v->fp_value = convert_floating_point_constant(type, f1 / f2);
+    if (operation == IR_ADD || operation == IR_SUB || operation == IR_MUL || operation == IR_DIV)
+        v->fp_value = evaluate_fp_arithmetic(operation, type, f1, f2);
     else {
         v->type = new_truth_type();
              if (operation == IR_EQ)   v->int_value = f1 == f2;
diff --git a/lexer.c b/lexer.c
index 52137d7..c16dbc7 100644
--- a/lexer.c
+++ b/lexer.c
@@ -167,9 +167,11 @@ void lex_non_hex_literal(void) {
 
         cur_token = TOK_FLOATING_POINT_NUMBER;
 
+        // The value is rounded to the precision of the type
         int type = TYPE_DOUBLE;
-        if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; }
+        if (i[ip] == 'f' || i[ip] == 'F') { type = TYPE_FLOAT; ip++; cur_long_double = strtof(start + start_ip, 0); }
         else if (i[ip] == 'l' || i[ip] == 'L') { type = TYPE_LONG_DOUBLE; ip++; }
+        else cur_long_double = strtod(start + start_ip, 0);
 
         check_end_of_number();
 
diff --git a/parser.c b/parser.c
index ba1fe5c..3f6e8e1 100644
--- a/parser.c
+++ b/parser.c
@@ -1245,6 +1245,8 @@ Value *convert_int_constant_to_floating_point(Value *v, Type *dst_type) {
     else
         result->fp_value = v->int_value;
 
+    result->fp_value = convert_floating_point_constant(dst_type, result->fp_value);
+
     return result;
 }
 
@@ -1633,6 +1635,7 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 // Type change for float/double <-> long double
                 Value *src2 = dup_value(src);
                 src2->type = dup_type(dst_type);
+                src2->fp_value = convert_floating_point_constant(dst_type, src->fp_value);
                 return src2;
             }
             else if ((src_is_sse || src_is_ld) && dst_is_int) {
@@ -1640,7 +1643,7 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 Value *src2 = new_value();
                 src2->type = new_type(dst_type->type <= TYPE_INT ? TYPE_INT : TYPE_LONG);
                 src2->is_constant = 1;
-                src2->int_value = src->fp_value;
+                src2->int_value = cast_constant_value(src, dst_type)->int_value;
                 return src2;
             }
             else if (src_is_int && (dst_is_sse || dst_is_ld))
@@ -1649,6 +1652,7 @@ Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
                 // Convert float -> double or double -> float
                 Value *src2 = dup_value(src);
                 src2->type = dup_type(dst_type);
+                src2->fp_value = convert_floating_point_constant(dst_type, src->fp_value);
                 return src2;
             }
 
diff --git a/wcc.h b/wcc.h
index cffb4c8..e36de7e 100644
--- a/wcc.h
+++ b/wcc.h
@@ -995,6 +995,7 @@ Value *evaluate_const_unary_fp_operation(int operation, Value *value);
 Value* evaluate_const_binary_int_operation(int operation, Value *src1, Value *src2);
 Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src2, Type *type);
 Value *cast_constant_value(Value *src, Type *type);
+long double convert_floating_point_constant(Type *type, long double value);
 Value *parse_constant_expression(int level);
 Value *parse_constant_integer_expression(int all_longs);
 
-- 
2.43.0


From f7810e47cf92c20aadb384d352d71a6b521fe77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 047/103] fix: conversions between floating point types and
 unsigned integers

---
 codegen.c    |  3 ++
 instrrules.c | 85 +++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/codegen.c b/codegen.c
index c15542c..b2e1d94 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1044,6 +1044,9 @@ void output_code(char *input_filename, char *output_filename) {
     if (need_ld_to_ru4_symbol) {
         fprintf(f, ".LDTORU4:\n");
         fprintf(f, "     .long   1593835520 # 9223372036854775808\n");
+        fprintf(f, ".LDTORU4D:\n");
+        fprintf(f, "     .long   0\n");
+        fprintf(f, "     .long   1138753536 # 9223372036854775808\n");
     }
 
     if (opt_debug_symbols) output_debug_sections(input_filename);
diff --git a/instrrules.c b/instrrules.c
index 8cb5fcc..25a3d1a 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -407,8 +407,8 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
     }
 
     add_op(r, X_MOVC, 0,   0,   SV1, "fnstcw %v2");         // Backup control word into allocated stack entry
-    add_op(r, X_MOVZ, 0,   SV2, SV1, "movzwl %v2w, %v1l");  // Move control word into register
-    add_op(r, X_BOR,  0,   SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
+    add_op(r, X_MOVC, SV2, SV1, 0,   "movzwl %v1w, %vdl");  // Move control word into register
+    add_op(r, X_BOR,  SV2, SV2, 0,   "orl $3072, %v1l");    // Set rounding and precision control bits
     add_op(r, X_MOVC, SV3, SV2, SV3, "movw %v1w, %v2w");    // Move control word into allocated stack
     add_op(r, X_MOVC, 0,   0,   SV3, "fldcw %v2w");         // Load control word from allocated stack
     add_op(r, X_MOVC, 0,   0,   SV4, conv_template);        // Do conversion and store it on the stack
@@ -420,9 +420,9 @@ static void add_long_double_integer_move_rule(int dst, int type, char *conv_temp
 
     if (ru4) {
         // xor the high bit if the value was > 2^53
-        add_op(r, X_MOVC, 0,   0, SV5, "movzbq %v2b, %v2q"); // Zero all bits except the first
-        add_op(r, X_SHR,  0,   0, SV5, "shlq $63, %v2q");    // Move the first bit to the last bit
-        add_op(r, X_XOR,  DST, 0, SV5, "xorq  %v2q, %vdq");  // set the sign bit if the original value was >= 2^63 - 1
+        add_op(r, X_MOVC, SV5, SV5, 0,   "movzbq %v1b, %v1q"); // Zero all bits except the first
+        add_op(r, X_SHR,  SV5, SV5, 0,   "shlq $63, %v1q");    // Move the first bit to the last bit
+        add_op(r, X_XOR,  DST, DST, SV5, "xorq  %v2q, %v1q");  // set the sign bit if the original value was >= 2^63 - 1
     }
 }
 
@@ -443,6 +443,26 @@ static void add_sse_on_stack_to_int_in_register_move_rule(int dst, int src, int
     fin_rule(r);
 }
 
+// Conversion to unsigned long. The values >= 2^63 are converted after subtraction of 2^63. The
+// first conversion has the high bit set for these only and the result is either the
+// first conversion or that with the bits of the second one added.
+static void add_sse_to_ulong_move_rule(int src, char *load_template, char *sub_template, char *conv_template) {
+    Rule *r = add_rule(RU4, IR_MOVE, src, 0, 10);
+    add_allocate_register_in_slot(r, 1, TYPE_LONG); // First conversion
+    add_allocate_register_in_slot(r, 2, TYPE_LONG); // Second conversion
+    add_allocate_register_in_slot(r, 3, TYPE_LONG); // All bits set if the value is >= 2^63
+    add_op(r, X_MOVC, 0,   SRC1, 0,   load_template);
+    add_op(r, X_MOVC, SV1, 0,    0,   conv_template);
+    add_op(r, X_MOVC, 0,   0,    0,   sub_template);
+    add_op(r, X_MOVC, SV2, 0,    0,   conv_template);
+    add_op(r, X_MOVC, SV3, SV1,  0,   "movq %v1q, %vdq");
+    add_op(r, X_SHR,  SV3, SV3,  0,   "sarq $63, %v1q");
+    add_op(r, X_BAND, SV2, SV2,  SV3, "andq %v2q, %v1q");
+    add_op(r, X_BOR,  SV1, SV1,  SV2, "orq %v2q, %v1q");
+    add_op(r, X_MOVC, DST, SV1,  0,   "movq %v1q, %vdq");
+    fin_rule(r);
+}
+
 static void add_sse_in_register_to_long_double_move_rule(int src, int type, char *t1, char *t2) {
     Rule *r = add_rule(MLD5, IR_MOVE, src, 0, 1);
     add_allocate_stack_index_in_slot(r, 1, type);
@@ -474,16 +494,18 @@ static void add_ulong_to_sse_operations(Rule *r, int dst, int src) {
 
     add_allocate_label_in_slot(r, 1);                               // Completion label
     add_allocate_label_in_slot(r, 2);                               // Signed case
-    add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporary for unsigned case
+    add_allocate_register_in_slot(r, 3, TYPE_LONG);                 // Temporaries for unsigned case
+    add_allocate_register_in_slot(r, 4, TYPE_LONG);
     add_op(r, X_TEST,  SRC1, SRC1,  0,    "testq %v1q, %v1q");
     add_op(r, X_JZ,    0,    SV2,   0,    "js %v1");                // Jump if unsigned
     add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);                      // Signed case
     add_op(r, X_JMP,   0,    SV1,   0,    "jmp %v1");
     add_op(r, X_MOVC,  SV3,  SRC1,  0,    ".L2:movq %v1q, %vdq");   // Unsigned case
     add_op(r, X_SHR,   SV3,  SV3,   0,    "shrq %v1q");
-    add_op(r, X_BAND,  SRC1, SRC1,  0,    "andl $1, %v1l");
-    add_op(r, X_BOR,   SV3,  SV3,   SRC1, "orq %v1q, %v2q");
-    add_op(r, X_MOVC,  DST,  SRC1,  0,    t1);
+    add_op(r, X_MOVC,  SV4,  SRC1,  0,    "movq %v1q, %vdq");
+    add_op(r, X_BAND,  SV4,  SV4,   0,    "andl $1, %v1l");
+    add_op(r, X_BOR,   SV4,  SV4,   SV3,  "orq %v2q, %v1q");
+    add_op(r, X_MOVC,  DST,  SV4,   0,    t1);
     add_op(r, X_ADD,   DST,  DST,   DST,  t2);
     add_op(r, X_MOVC,  DST,  DST,   0,    ".L1:");                  // Done
 }
@@ -556,13 +578,13 @@ static void add_float_and_double_move_rules(void) {
     // SSE Constant -> integer in register
     r = add_rule(XR1, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS3, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movss %v1F, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttss2siq %%xmm14, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2sil %%xmm14, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, CS4, 0, 1); add_op(r, X_MOV,  0, SRC1, 0, "movsd %v1D, %%xmm14"); add_op(r, X_MOV,  DST, 0, 0, "cvttsd2siq %%xmm14, %vdq"); fin_rule(r);
 
     // SSE Constant -> LD
     add_sse_constant_to_ld_move_rule(CS3, TYPE_FLOAT,  "movss %v1F, %%xmm14", "movss %%xmm14, %vd", "flds %v1");
@@ -571,24 +593,32 @@ static void add_float_and_double_move_rules(void) {
     // SSE in register -> integer in register
     r = add_rule(XR1, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS3, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttss2siq %v1F, %vdq"); fin_rule(r);
 
     r = add_rule(XR1, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
     r = add_rule(XR2, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2sil %v1F, %vdl"); fin_rule(r);
-    r = add_rule(XR4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(XR3, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
+    r = add_rule(RI4, IR_MOVE, RS4, 0, 1); add_op(r, X_MOVC,  DST, SRC1, 0, "cvttsd2siq %v1F, %vdq"); fin_rule(r);
 
     // SSE on stack -> integer in register
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2sil %v1F, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS3, TYPE_FLOAT, "movss %v1F, %vdF", "cvttss2siq %v1F, %vdq");
 
     add_sse_on_stack_to_int_in_register_move_rule(XR1, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
     add_sse_on_stack_to_int_in_register_move_rule(XR2, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2sil %v1D, %vdl");
-    add_sse_on_stack_to_int_in_register_move_rule(XR4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(XR3, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+    add_sse_on_stack_to_int_in_register_move_rule(RI4, MS4, TYPE_DOUBLE, "movsd %v1D, %vdD", "cvttsd2siq %v1D, %vdq");
+
+    // SSE -> unsigned long
+    add_sse_to_ulong_move_rule(CS3, "movss %v1F, %%xmm14", "subss .LDTORU4(%%rip), %%xmm14",  "cvttss2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(CS4, "movsd %v1D, %%xmm14", "subsd .LDTORU4D(%%rip), %%xmm14", "cvttsd2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(RS3, "movss %v1F, %%xmm14", "subss .LDTORU4(%%rip), %%xmm14",  "cvttss2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(RS4, "movsd %v1D, %%xmm14", "subsd .LDTORU4D(%%rip), %%xmm14", "cvttsd2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(MS3, "movss %v1F, %%xmm14", "subss .LDTORU4(%%rip), %%xmm14",  "cvttss2siq %%xmm14, %vdq");
+    add_sse_to_ulong_move_rule(MS4, "movsd %v1D, %%xmm14", "subsd .LDTORU4D(%%rip), %%xmm14", "cvttsd2siq %%xmm14, %vdq");
 
     // SSE in register -> long double
     add_sse_in_register_to_long_double_move_rule(RS3, TYPE_FLOAT, "movss %v1F, %vdl", "flds %v1F");
@@ -646,13 +676,14 @@ static void add_long_double_move_rules(void)  {
     // Signed constants <0 are converted and then need a huge constant added to them
     r = add_rule(MLD5, IR_MOVE, RU4, 0, 10);
     add_allocate_stack_index_in_slot(r, 1, TYPE_LONG);      // Allocate stack entry and put it in slot 1
+    add_allocate_register_in_slot(r, 2, TYPE_LONG);         // Sign (0=positive, 1=negative)
+    add_allocate_register_in_slot(r, 3, TYPE_LONG);         // Address of the constants
     add_op(r, X_MOVC, 0,   SRC1, SV1,  "movq   %v1q, %v2");               // Move register to stack
-    add_op(r, X_MOVC, 0,   0,    0,    "movq   $0, %%r10");               // Zero r10
-    add_op(r, X_MOVC, 0,   SRC1, 0,    "testq  %v1q, %v1q");              // Test & set flags
-    add_op(r, X_MOVC, DST, 0,    0,    "sets   %%r10b");                  // Store sign in r10 (0=unsigned, 1=signed)
-    add_op(r, X_MOVC, 0,   SRC2, SV1,  "fildq  %v2L");                    // Load floating point from stack
-    add_op(r, X_MOVC, 0,   0,    0,    "leaq   .RU4TOLD(%%rip), %%r11");  // Add constant, 0 for unsigned, something huge for signed
-    add_op(r, X_MOVC, 0,   0,    0,    "fadds  (%%r11,%%r10,4)");
+    add_op(r, X_MOVC, SV2, SRC1, 0,    "movq   %v1q, %vdq");
+    add_op(r, X_SHR,  SV2, SV2,  0,    "shrq   $63, %v1q");               // Store sign
+    add_op(r, X_MOVC, 0,   0,    SV1,  "fildq  %v2L");                    // Load floating point from stack
+    add_op(r, X_MOVC, SV3, 0,    0,    "leaq   .RU4TOLD(%%rip), %vdq");   // Add constant, 0 for positive, something huge for negative
+    add_op(r, X_MOVC, 0,   SV3,  SV2,  "fadds  (%v1q,%v2q,4)");
     add_op(r, X_MOVC, DST, 0,    0,    "fstpt  %vdL");                    // Store in dst
 
     // Integer -> long double rules
-- 
2.43.0


From 454759175ccb101ebb2fc0ff7035a44ff608ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 048/103] fix: constants between INT_MIN and INT_MIN + 1 and
 the like were converted to the wrong integer

---
 constexpr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 99c6ff3..bc17add 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -204,15 +204,15 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
         // For compatibililty with gcc when it comes to overflows
              if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0x7f;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value >        0xff) dst->int_value = 0xff;
-             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <       -0x7f) dst->int_value = -0x80;
+             if (dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned && src->fp_value <=      -0x81) dst->int_value = -0x80;
         else if (dst_type->type == TYPE_CHAR  &&  dst_type->is_unsigned && src->fp_value <       -0xff) dst->int_value = 0;
              if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0x7fff;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value >      0xffff) dst->int_value = 0xffff;
-             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <     -0x7fff) dst->int_value = -0x8000;
+             if (dst_type->type == TYPE_SHORT && !dst_type->is_unsigned && src->fp_value <=    -0x8001) dst->int_value = -0x8000;
         else if (dst_type->type == TYPE_SHORT &&  dst_type->is_unsigned && src->fp_value <     -0xffff) dst->int_value = 0;
              if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0x7fffffff;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value >  0xffffffff) dst->int_value = 0xffffffff;
-             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value < -0x7fffffff) dst->int_value = -0x80000000;
+             if (dst_type->type == TYPE_INT   && !dst_type->is_unsigned && src->fp_value <= -0x80000001L) dst->int_value = -0x80000000L;
         else if (dst_type->type == TYPE_INT   &&  dst_type->is_unsigned && src->fp_value < -0xffffffff) dst->int_value = 0;
 
         return dst;
-- 
2.43.0


From 17a4473b693bb5335166cb8c282ceb013837eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 049/103] fix: == and != of long doubles clobbered their own
 result if it was in rdx

---
 instrrules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 25a3d1a..3760f10 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1044,8 +1044,8 @@ static void add_long_double_comp_rules(int *ntc, int src1, int src2, char *src1_
         add_op(r, X_CMP, DST, 0, 0, i == 0 ? "setnp %vdb" : "setp %vdb");
         add_op(r, X_LD_EQ_CMP, 0, 0, 0,  i == 0 ? "movl $0, %%edx" : "movl $1, %%edx");
         add_long_double_comparison_instructions(r, src1, src2, src1_template, src2_template, "fucomip %%st(1), %%st", 1);
-        add_op(r, X_MOVC, DST, 0, 0, "cmovne %%edx, %vdl");
-        add_op(r, X_MOVZ, DST, 0, 0, "movzbl %vdb, %vdl");
+        add_op(r, X_BOR,  DST, DST, 0, "cmovne %%edx, %v1l");
+        add_op(r, X_MOVZ, DST, DST, 0, "movzbl %v1b, %vdl");
     }
 
     add_long_double_comp_cond_jmp_rule(ntc, src1, src2, src1_template, src2_template, IR_LT, X_JA,  "ja %v1" , X_JAE, "jbe %v1", 1);
-- 
2.43.0


From b476b5518d85ec59f84273aebde5624b3b831f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 050/103] fix: packed and aligned are keywords only inside an
 attribute

---
 lexer.c  |  4 ----
 parser.c | 17 ++++++++++-------
 wcc.h    |  6 ++----
 3 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/lexer.c b/lexer.c
index c16dbc7..e605b8c 100644
--- a/lexer.c
+++ b/lexer.c
@@ -488,10 +488,6 @@ void next(void) {
             else if (!strcmp(cur_identifier, "enum"         )) { cur_token = TOK_ENUM;      }
             else if (!strcmp(cur_identifier, "sizeof"       )) { cur_token = TOK_SIZEOF;    }
             else if (!strcmp(cur_identifier, "__attribute__")) { cur_token = TOK_ATTRIBUTE; }
-            else if (!strcmp(cur_identifier, "packed"       )) { cur_token = TOK_PACKED;    }
-            else if (!strcmp(cur_identifier, "__packed__"   )) { cur_token = TOK_PACKED;    }
-            else if (!strcmp(cur_identifier, "aligned"      )) { cur_token = TOK_ALIGNED;   }
-            else if (!strcmp(cur_identifier, "__aligned__"  )) { cur_token = TOK_ALIGNED;   }
             else if (!strcmp(cur_identifier, "__restrict"   )) { cur_token = TOK_RESTRICT;  }
             else if (!strcmp(cur_identifier, "restrict"     )) { cur_token = TOK_RESTRICT;  }
             else if (!strcmp(cur_identifier, "__asm__"      )) { cur_token = TOK_ASM;       }
diff --git a/parser.c b/parser.c
index 3f6e8e1..9c2ad06 100644
--- a/parser.c
+++ b/parser.c
@@ -868,13 +868,16 @@ static int parse_struct_or_union_attribute(void) {
         consume(TOK_LPAREN, "(");
         consume(TOK_LPAREN, "(");
 
-        if (cur_token == TOK_PACKED) {
-            is_packed = 1;
-            next();
-        }
-        else if (cur_token == TOK_ALIGNED) {
-            // Ignore aligned and __aligned__
-            next();
+        // packed and aligned are identifiers everywhere else
+        if (cur_token == TOK_IDENTIFIER || cur_token == TOK_TYPEDEF_TYPE) {
+            if (!strcmp(cur_identifier, "packed") || !strcmp(cur_identifier, "__packed__")) {
+                is_packed = 1;
+                next();
+            }
+            else if (!strcmp(cur_identifier, "aligned") || !strcmp(cur_identifier, "__aligned__")) {
+                // Ignore aligned and __aligned__
+                next();
+            }
         }
 
         consume(TOK_RPAREN, ")");
diff --git a/wcc.h b/wcc.h
index e36de7e..fd65fc5 100644
--- a/wcc.h
+++ b/wcc.h
@@ -468,10 +468,8 @@ enum {
     TOK_RPAREN,
     TOK_LPAREN,
     TOK_ATTRIBUTE,
-    TOK_PACKED,
-    TOK_ALIGNED,            // 80
     TOK_HASH,
-    TOK_AUTO,
+    TOK_AUTO,               // 80
     TOK_REGISTER,
     TOK_STATIC,
     TOK_EXTERN,
@@ -479,7 +477,7 @@ enum {
     TOK_VOLATILE,
     TOK_RESTRICT,
     TOK_ELLIPSES,
-    TOK_GOTO,               // 90
+    TOK_GOTO,
     TOK_ASM,
 };
 
-- 
2.43.0


From ad4707a9fa9e0b755fac8ffb26a17defa12b8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 051/103] fix: 0xe+1 is a single invalid number, not a sum

---
 lexer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer.c b/lexer.c
index e605b8c..c1b8a79 100644
--- a/lexer.c
+++ b/lexer.c
@@ -91,7 +91,8 @@ static void skip_whitespace(void) {
 // A number can't directly be followed by something that would be part of a preprocessing number
 static void check_end_of_number(void) {
     char c = input[ip];
-    if (c == '.' || c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
+    int is_exponent_sign = (c == '+' || c == '-') && (input[ip - 1] == 'e' || input[ip - 1] == 'E');
+    if (is_exponent_sign || c == '.' || c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
         error("Invalid number");
 }
 
-- 
2.43.0


From fc39d5ba2a8e1b9b1d51baa3dae5eb01ac6a90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 052/103] fix: an identifier of the maximum size overflowed its
 buffer

---
 cpp.c   | 2 +-
 lexer.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp.c b/cpp.c
index 8e02932..12953fc 100644
--- a/cpp.c
+++ b/cpp.c
@@ -836,7 +836,7 @@ static void cpp_next() {
         }
 
         else if ((c1 >= 'a' && c1 <= 'z') || (c1 >= 'A' && c1 <= 'Z') || c1 == '_') {
-            char *identifier = wmalloc(1024);
+            char *identifier = wmalloc(MAX_IDENTIFIER_SIZE + 1);
             int j = 0;
             while (((i[state.ip] >= 'a' && i[state.ip] <= 'z') || (i[state.ip] >= 'A' && i[state.ip] <= 'Z') || (i[state.ip] >= '0' && i[state.ip] <= '9') || (i[state.ip] == '_')) && state.ip < state.input_size) {
                 if (j == MAX_IDENTIFIER_SIZE) panic("Exceeded maximum identifier size %d", MAX_IDENTIFIER_SIZE);
diff --git a/lexer.c b/lexer.c
index c1b8a79..9971d65 100644
--- a/lexer.c
+++ b/lexer.c
@@ -23,7 +23,7 @@ static StringLiteral old_cur_string_literal;
 static void init_lexer(void) {
     ip = 0;
     cur_line = 1;
-    cur_identifier = wmalloc(MAX_IDENTIFIER_SIZE);
+    cur_identifier = wmalloc(MAX_IDENTIFIER_SIZE + 1);
     cur_string_literal.data = wmalloc(MAX_STRING_LITERAL_SIZE * 4);
 
     next();
-- 
2.43.0


From 730a9023b8ad057601e9c24918abbf18912ac255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 053/103] fix: names longer than about a hundred characters
 overflowed the instruction buffer

---
 codegen.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index b2e1d94..8d07866 100644
--- a/codegen.c
+++ b/codegen.c
@@ -237,7 +237,15 @@ char *render_x86_operation(Tac *tac, int function_pc, int expect_preg) {
 
     if (!t) return 0;
 
-    char *buffer = wcalloc(1, 128);
+    // Make room for the identifiers, which can be long
+    int buffer_size = 128 + strlen(t);
+    for (char *c = t; *c; c++) {
+        if (*c != '%') continue;
+        Value *v = c[1] != 'v' ? 0 : c[2] == '1' ? tac->src1 : c[2] == '2' ? tac->src2 : tac->dst;
+        if (v && v->global_symbol && v->global_symbol->global_identifier) buffer_size += strlen(v->global_symbol->global_identifier);
+    }
+
+    char *buffer = wcalloc(1, buffer_size);
     char *result = buffer;
 
     while (*t && *t != ' ') *buffer++ = *t++;
-- 
2.43.0


From e7421d845fb17accbac0a4c9cc73d97f07bbb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 054/103] fix: -c with several files wrote all objects over the
 first one's

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 6c713fa..cee6fa1 100644
--- a/main.c
+++ b/main.c
@@ -531,7 +531,7 @@ int main(int argc, char **argv) {
             if (!input_filename) continue;
 
             char *assembler_output_filename =
-                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(single_target ? input_filenames->elements[0] : input_filename, "o"))
+                !run_linker ? (output_filename ? wstrdup(output_filename) : replace_extension(input_filenames->elements[i], "o"))
                 : make_temp_filename("/tmp/XXXXXX.o");
 
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
-- 
2.43.0


From caa6cc0eb71a33d48533ff21eec39b3095e6bb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 055/103] fix: -ofile took the next argument as the output
 file, -c and -E matched every option that starts with them

---
 main.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index cee6fa1..05d020d 100644
--- a/main.c
+++ b/main.c
@@ -241,13 +241,13 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-c", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-c")) {
                 run_linker = 0;
                 single_target = 1;
                 argc--;
                 argv++;
             }
-            else if (argc > 0 && !memcmp(argv[0], "-E", 2)) {
+            else if (argc > 0 && !strcmp(argv[0], "-E")) {
                 run_compiler = 0;
                 run_assembler = 0;
                 run_linker = 0;
@@ -255,11 +255,17 @@ int main(int argc, char **argv) {
                 argc--;
                 argv++;
             }
-            else if (argc > 1 && !memcmp(argv[0], "-o", 2)) {
+            else if (argc > 1 && !strcmp(argv[0], "-o")) {
                 output_filename = argv[1];
                 argc -= 2;
                 argv += 2;
             }
+            else if (argv[0][1] == 'o' && argv[0][2]) {
+                // -o...
+                output_filename = &(argv[0][2]);
+                argc--;
+                argv++;
+            }
             else if (argc > 1 && !strcmp(argv[0], "-D")) {
                 // -D ...
                 append_to_list(directive_cli_strings, argv[1]);
-- 
2.43.0


From 915a6af5bbb9af33db4f8aff7e9a33ed460a59bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 056/103] fix: temporary files were never removed

---
 wcc.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wcc.c b/wcc.c
index 3f5465e..58fa200 100644
--- a/wcc.c
+++ b/wcc.c
@@ -32,6 +32,14 @@ char free_memory_for_translation_unit(void) {
     free_ir();
 }
 
+static char **temp_filenames;
+static int temp_filename_count;
+
+static void remove_temp_files(void) {
+    for (int i = 0; i < temp_filename_count; i++) unlink(temp_filenames[i]);
+}
+
+// Make a temporary file, which is removed at exit
 char *make_temp_filename(char *template) {
     template = wstrdup(template);
     int fd = mkstemps(template, 2);
@@ -41,6 +49,11 @@ char *make_temp_filename(char *template) {
     }
     close(fd);
 
+    // This must outlive all other allocations, so isn't done with wmalloc
+    if (!temp_filename_count) atexit(remove_temp_files);
+    temp_filenames = realloc(temp_filenames, sizeof(char *) * (temp_filename_count + 1));
+    temp_filenames[temp_filename_count++] = strdup(template);
+
     return template;
 }
 
-- 
2.43.0


From dcc1254eb1075864a9a8376291ad7743d507c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 057/103] fix: failing to write the output was not reported

---
 codegen.c | 6 +++++-
 cpp.c     | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8d07866..3873d3e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1059,7 +1059,11 @@ void output_code(char *input_filename, char *output_filename) {
 
     if (opt_debug_symbols) output_debug_sections(input_filename);
 
-    fclose(f);
+    int has_error = ferror(f);
+    if (fclose(f) || has_error) {
+        perror(output_filename);
+        exit(1);
+    }
 }
 
 void init_codegen(void) {
diff --git a/cpp.c b/cpp.c
index 12953fc..02b107c 100644
--- a/cpp.c
+++ b/cpp.c
@@ -2144,7 +2144,12 @@ void preprocess_to_file(char *input_filename, char *output_filename, List *cli_d
     }
 
     fprintf(cpp_output_file, "%s", data);
-    if (cpp_output_file != stdout) fclose(cpp_output_file);
+    int has_error = ferror(cpp_output_file);
+    if (cpp_output_file == stdout ? fflush(stdout) : fclose(cpp_output_file)) has_error = 1;
+    if (has_error) {
+        perror(output_filename ? output_filename : "stdout");
+        exit(1);
+    }
 
     wfree(data);
 }
-- 
2.43.0


From 6a74d5826329ba8beb18a18fd5ea67e689e3119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 058/103] fix: filenames with spaces or other special
 characters were not quoted in the commands that are run

---
 main.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/main.c b/main.c
index 05d020d..22df147 100644
--- a/main.c
+++ b/main.c
@@ -53,6 +53,21 @@ char *replace_extension(char *input, char *ext) {
     }
 }
 
+// Append a filename to a shell command, quoting it if it has any special characters
+static char *append_filename(char *s, char *filename) {
+    char *safe = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+./,:=@%";
+    if (filename[0] && strspn(filename, safe) == strlen(filename)) return s + sprintf(s, "%s", filename);
+
+    *s++ = '\'';
+    for (; *filename; filename++) {
+        if (*filename == '\'') s += sprintf(s, "'\\''");
+        else *s++ = *filename;
+    }
+    *s++ = '\'';
+    *s = 0;
+    return s;
+}
+
 static void add_include_path(char *path) {
     int len = strlen(path);
     if (!len) simple_error("Invalid include path");
@@ -542,9 +557,12 @@ int main(int argc, char **argv) {
 
             if (print_filenames) printf("Assembling %s to %s\n", input_filename, assembler_output_filename);
 
-            sprintf(command, "%s -64 %s -o %s", get_as_binary(), input_filename, assembler_output_filename);
+            char *s = command + sprintf(command, "%s -64 ", get_as_binary());
+            s = append_filename(s, input_filename);
+            s += sprintf(s, " -o ");
+            s = append_filename(s, assembler_output_filename);
             if (verbose) {
-                sprintf(command, "%s %s", command, "-v");
+                sprintf(s, " -v");
                 printf("%s\n", command);
             }
             int result = system(command);
@@ -567,9 +585,12 @@ int main(int argc, char **argv) {
     if (run_linker) {
         char *filenames = wmalloc(1024 * 100);
         char *s = filenames;
+        *s = 0;
         for (int i = 0; i < input_filenames->length; i++) {
             char *filename = linker_input_filenames[i];
-            if (filename) s += sprintf(s, " %s", (char *) filename);
+            if (!filename) continue;
+            *s++ = ' ';
+            s = append_filename(s, filename);
         }
         if (print_filenames) printf("Running linker on%s\n", filenames);
 
@@ -578,18 +599,18 @@ int main(int argc, char **argv) {
         wfree(filenames);
 
         for (CliLibraryPath *cli_library_path = cli_library_paths; cli_library_path; cli_library_path = cli_library_path->next)
-            s += sprintf(s, " -L %s", cli_library_path->path);
+            s = append_filename(s + sprintf(s, " -L "), cli_library_path->path);
 
         for (CliLibrary *cli_library = cli_libraries; cli_library; cli_library = cli_library->next)
-            s += sprintf(s, " -l %s", cli_library->library);
+            s = append_filename(s + sprintf(s, " -l "), cli_library->library);
 
         char *linker_output_filename = output_filename ? output_filename : "a.out";
-        s += sprintf(s, " -o %s", linker_output_filename);
+        s = append_filename(s + sprintf(s, " -o "), linker_output_filename);
 
         if (shared) s += sprintf(s, " -shared");
 
         for (int i = 0; i < extra_linker_args->length; i++)
-            s += sprintf(s, " -Wl,%s", (char *) extra_linker_args->elements[i]);
+            s = append_filename(s + sprintf(s, " -Wl,"), extra_linker_args->elements[i]);
 
         if (verbose) {
             s += sprintf(s, " -v");
-- 
2.43.0


From 2aebb256f21af54c5cd1349e2a9dc826ee93ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 059/103] fix: an assembler or linker command killed by a
 signal counted as a success

---
 main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 22df147..b4680bb 100644
--- a/main.c
+++ b/main.c
@@ -53,6 +53,12 @@ char *replace_extension(char *input, char *ext) {
     }
 }
 
+// The exit code for a command that failed or was killed by a signal
+static int failed_command_exit_code(int result) {
+    int exit_code = (result >> 8) & 0xff;
+    return exit_code ? exit_code : 1;
+}
+
 // Append a filename to a shell command, quoting it if it has any special characters
 static char *append_filename(char *s, char *filename) {
     char *safe = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+./,:=@%";
@@ -566,7 +572,7 @@ int main(int argc, char **argv) {
                 printf("%s\n", command);
             }
             int result = system(command);
-            if (result != 0) exit(result >> 8);
+            if (result != 0) exit(failed_command_exit_code(result));
 
             if (run_linker)
                 linker_input_filenames[i] = assembler_output_filename;
@@ -622,7 +628,7 @@ int main(int argc, char **argv) {
 
         int result = system(command);
         if (result != 0) {
-            exit_code = result >> 8;
+            exit_code = failed_command_exit_code(result);
             goto exit_main;
         }
     }
-- 
2.43.0


From 847695489364a3907cadf2e38ec87caaa4eba8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 060/103] fix: putting a key into a map twice after deleting a
 colliding one duplicated it

---
 longmap.c | 14 +++++++++++---
 strmap.c  | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/longmap.c b/longmap.c
index 14d4f86..e9cdae1 100644
--- a/longmap.c
+++ b/longmap.c
@@ -65,19 +65,27 @@ void longmap_put(LongMap *map, long key, void *value) {
 
     long mask = map->size - 1;
     long pos = map->hashfunc(key) & mask;
+    long tombstone = -1; // The first tombstone, which is reused if the key isn't in the map
 
     while (1) {
         char status = map->status[pos];
-        if (status != STATUS_USED) {
+        if (status == STATUS_EMPTY) {
+            if (tombstone == -1)
+                map->used_count++;
+            else
+                pos = tombstone;
+
             map->keys[pos] = key;
             map->values[pos] = value;
             map->status[pos] = STATUS_USED;
             map->element_count++;
-            if (status == STATUS_EMPTY) map->used_count++;
             return;
         }
 
-        if (map->keys[pos] == key) {
+        if (status == STATUS_TOMBSTONE) {
+            if (tombstone == -1) tombstone = pos;
+        }
+        else if (map->keys[pos] == key) {
             map->values[pos] = value;
             return;
         }
diff --git a/strmap.c b/strmap.c
index 60239e6..652a53e 100644
--- a/strmap.c
+++ b/strmap.c
@@ -64,17 +64,25 @@ void strmap_put(StrMap *map, char *key, void *value) {
     unsigned int pos = hash(key) & mask;
 
     char *k;
+    int tombstone = -1; // The first tombstone, which is reused if the key isn't in the map
     while (1) {
         k = map->keys[pos];
-        if (!k || k == (char *) TOMBSTONE) {
+        if (!k) {
+            if (tombstone == -1)
+                map->used_count++;
+            else
+                pos = tombstone;
+
             map->keys[pos] = key;
             map->values[pos] = value;
             map->element_count++;
-            if (!k) map->used_count++;
             return;
         }
 
-        if (!strcmp(k, key)) {
+        if (k == (char *) TOMBSTONE) {
+            if (tombstone == -1) tombstone = pos;
+        }
+        else if (!strcmp(k, key)) {
             map->values[pos] = value;
             return;
         }
-- 
2.43.0


From 50a0fcce0270dc5f61d85011c5b6dcc4170600be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 061/103] fix: the condition of a do/while was parsed as a
 declaration if its body ended in one of a tag

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index 9c2ad06..e628335 100644
--- a/parser.c
+++ b/parser.c
@@ -3378,6 +3378,9 @@ static void parse_statement(void) {
             parse_label_statement(identifier);
         else
             parse_expression(TOK_COMMA);
+
+        // What follows, e.g. the condition of a do/while, isn't part of the declaration
+        if (base_type) free_and_null(base_type);
     }
 
     else switch (cur_token) {
-- 
2.43.0


From 090be497aa7037e32be2196dbe02d064057a3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 062/103] fix: an extern declaration of an incomplete type in a
 block was rejected

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index e628335..0e30ee7 100644
--- a/parser.c
+++ b/parser.c
@@ -2198,8 +2198,8 @@ static void parse_declaration(void) {
         base_type = old_base_type;
     }
 
-    // If it's not initialized and incomplete, bail.
-    else if (is_incomplete_type(symbol->type))
+    // If it's not initialized and incomplete, bail, unless it's defined somewhere else.
+    else if (!is_external && is_incomplete_type(symbol->type))
         error("Storage size is unknown");
 }
 
-- 
2.43.0


From 6f39db254d8ebef375d9eda21e774142c43cb057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 063/103] fix: the composite type of pointers lost their
 qualifiers

---
 types.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.c b/types.c
index e394e0c..55b829a 100644
--- a/types.c
+++ b/types.c
@@ -715,8 +715,12 @@ Type *composite_type(Type *type1, Type *type2) {
         else return type1;
     }
 
-    if (type1->type == TYPE_PTR)
-        return make_pointer(composite_type(type1->target, type2->target));
+    if (type1->type == TYPE_PTR) {
+        Type *result = make_pointer(composite_type(type1->target, type2->target));
+        result->is_const = type1->is_const;
+        result->is_volatile = type1->is_volatile;
+        return result;
+    }
 
     if (type1->type == TYPE_FUNCTION) {
         if (type1->function->param_count == 0 && type2->function->param_count != 0)
-- 
2.43.0


From db7b55328b142854fb06398e4b4dbec352b4d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 064/103] fix: casting a void expression to void was rejected

---
 parser.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 0e30ee7..26abd2f 100644
--- a/parser.c
+++ b/parser.c
@@ -2796,12 +2796,16 @@ static void parse_expression(int level) {
                     consume(TOK_RPAREN, ")");
 
                     parse_expression(TOK_INC);
-                    Value *v1 = pl();
 
-                    if (dst_type->type == TYPE_VOID)
+                    if (dst_type->type == TYPE_VOID) {
+                        pop_void();
                         push_void();
+                        break;
+                    }
+
+                    Value *v1 = pl();
 
-                    else if (v1->is_constant) {
+                    if (v1->is_constant) {
                         // Special case for (void *) int-constant
                         if (is_pointer_to_void(dst_type) && (is_integer_type(v1->type) || is_pointer_to_void(v1->type)) && v1->is_constant) {
                             Value *dst = new_value();
-- 
2.43.0


From 1c0592f771802d66ab28adb63c777ee78b3b03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 065/103] fix: casting an integer to a function pointer failed

---
 parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.c b/parser.c
index 26abd2f..e56e874 100644
--- a/parser.c
+++ b/parser.c
@@ -2821,6 +2821,15 @@ static void parse_expression(int level) {
                     else if (dst_type->type != TYPE_VOID && v1->type != dst_type) {
                         if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, dst_type);
 
+                        // An integer becomes a function pointer by way of a pointer to void
+                        if (is_pointer_to_function_type(dst_type) && is_integer_type(v1->type)) {
+                            Value *pointer = new_value();
+                            pointer->vreg = new_vreg();
+                            pointer->type = make_pointer_to_void();
+                            add_parser_instruction(IR_MOVE, pointer, v1, 0);
+                            v1 = pointer;
+                        }
+
                         // Add move instruction
                         Value *dst = new_value();
                         dst->vreg = new_vreg();
-- 
2.43.0


From 16608bcddfacc69d746e5ecb22176b173d2a328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 066/103] fix: the values of objects were accepted in constant
 expressions

---
 constexpr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index bc17add..1ce5e69 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -7,6 +7,15 @@
 static int integers_are_longs;
 static int not_evaluated;           // Set when parsing an operand that isn't evaluated, e.g. the second in 0 && 1 / 0
 
+// Objects can only be operands if their address or size is used
+static void check_is_constant_operand(Value *value) {
+    if (not_evaluated) return;
+    if (value->is_constant || value->is_address_of || value->is_string_literal) return;
+    if (value->type->type == TYPE_ARRAY) return;
+
+    error("The value of an object cannot be used in a constant expression");
+}
+
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
 
@@ -234,6 +243,7 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
 static Value *parse_unary_expression(int operation) {
     next();
     Value *value = parse_constant_expression(TOK_INC);
+    check_is_constant_operand(value);
     check_unary_operation_type(operation, value);
     if (is_floating_point_type(value->type))
         return evaluate_const_unary_fp_operation(operation, value);
@@ -315,6 +325,8 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
     Value *value2 = parse_constant_expression(second_level);
     not_evaluated -= short_circuit;
 
+    check_is_constant_operand(value1);
+    if (!short_circuit) check_is_constant_operand(value2);
     check_binary_operation_types(operation, value1, value2);
 
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
@@ -342,6 +354,7 @@ static Value *parse_ternary(Value *value) {
     not_evaluated += which;
     Value *value2 = parse_constant_expression(TOK_TERNARY);
     not_evaluated -= which;
+    check_is_constant_operand(value);
     check_ternary_operation_types(value, value1, value2);
 
     Value *result = which ? value1 : value2;
@@ -408,6 +421,7 @@ Value *parse_constant_expression(int level) {
                 Type *type = parse_type_name();
                 consume(TOK_RPAREN, ")");
                 value = parse_constant_expression(TOK_INC);
+                check_is_constant_operand(value);
                 value = cast_constant_value(value, type);
             }
             else {
@@ -456,7 +470,9 @@ Value *parse_constant_expression(int level) {
         }
 
         case TOK_SIZEOF: {
+            not_evaluated++;
             int size = parse_sizeof(parse_constant_expression);
+            not_evaluated--;
             value = new_integral_constant(TYPE_LONG, size);
             value->type->is_unsigned = 1;
             break;
-- 
2.43.0


From cd3f5f3e958cd1cecfe72ad1fb4c6a328e12cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 067/103] fix: the address of a member of a constant pointer
 couldn't be used in a constant expression, e.g. offsetof

---
 constexpr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 1ce5e69..0a05b69 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -398,12 +398,13 @@ Value *parse_constant_expression(int level) {
             if (!value->is_string_literal && !value->global_symbol && !value->is_constant)
                 error("Illegal operand to & in constant expression");
 
+            // The address of what a constant pointer points at is itself a constant
             if (value->is_constant) {
                 value->int_value += value->address_of_offset;
-                value->is_constant = 0;
+                value->address_of_offset = 0;
             }
-
-            value->is_address_of = 1;
+            else
+                value->is_address_of = 1;
 
             // Hacky horror, only create a pointer unless it's already a pointer to a function
             if (!is_pointer_to_function_type(value->type))
-- 
2.43.0


From 75e3bc96551f9923b51992a60fe06b22eb42f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 068/103] fix: all members of a struct with a const member were
 read-only

---
 parser.c | 5 +----
 types.c  | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser.c b/parser.c
index e56e874..ac7687b 100644
--- a/parser.c
+++ b/parser.c
@@ -2492,9 +2492,6 @@ void parse_struct_dot_arrow_expression(void) {
     Type *str_type = is_dot ? vtop()->type : vtop()->type->target;
     StructOrUnionMember *member = lookup_struct_or_union_member(str_type, cur_identifier);
 
-    int member_is_const = 0;
-    member_is_const = !type_is_modifiable(str_type);
-
     if (!is_dot) indirect();
 
     // The value stack is immutable. An offset may need adding, so this must be done
@@ -2505,7 +2502,7 @@ void parse_struct_dot_arrow_expression(void) {
     v->bit_field_offset = v->offset * 8 + (member->bit_field_offset & 7);
     v->bit_field_size = member->bit_field_size;
     v->type = dup_type(member->type);
-    v->type->is_const = member_is_const;
+    if (str_type->is_const) v->type->is_const = 1;
     v->is_lvalue = 1;
     push(v);
 }
diff --git a/types.c b/types.c
index 55b829a..8ec0d05 100644
--- a/types.c
+++ b/types.c
@@ -932,7 +932,7 @@ int type_is_modifiable(Type *type) {
 
             if (member->type->type == TYPE_STRUCT_OR_UNION) {
                 is_modifiable = type_is_modifiable(member->type);
-                if (is_modifiable) break;
+                if (!is_modifiable) break;
             }
         }
 
-- 
2.43.0


From fb9713d4de3ad0f854042f5815548f4c3e742afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 069/103] fix: a struct or union without a tag and definition
 crashed the compiler

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index ac7687b..5c0fc58 100644
--- a/parser.c
+++ b/parser.c
@@ -990,6 +990,8 @@ static Type *parse_struct_or_union_type_specifier(void) {
     else {
         // Struct/union use
 
+        if (!identifier) error("Expected a struct or union tag or definition");
+
         // A declaration like struct s; declares the tag in the current scope
         Type *type = find_struct_or_union(identifier, is_union, cur_token != TOK_SEMI);
         if (type) return type; // Found a complete or incomplete struct
-- 
2.43.0


From f66e6e3bd2dc77847b360273c256a5174b76cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 070/103] fix: structs and unions could be redefined and could
 contain themselves

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index 5c0fc58..88a53eb 100644
--- a/parser.c
+++ b/parser.c
@@ -912,10 +912,13 @@ static Type *parse_struct_or_union_type_specifier(void) {
 
         Type *type = 0;
         if (identifier) type = find_struct_or_union(identifier, is_union, 0);
+        if (type && !is_incomplete_type(type)) error("Struct or union %s redefined", identifier);
         if (!type) type = new_struct_or_union(identifier);
 
+        // The type is incomplete until the closing brace
         StructOrUnion *s = type->struct_or_union_desc;
         s->is_union = is_union;
+        s->is_incomplete = 1;
 
         // Loop over members
         int member_count = 0;
-- 
2.43.0


From 5aa435aa2f03e0d05a06fc50c302aaae40bee7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:20 +0000
Subject: [PATCH 071/103] fix: taking the address of an rvalue wasn't diagnosed

---
 parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 88a53eb..8ab9b5d 100644
--- a/parser.c
+++ b/parser.c
@@ -2683,8 +2683,8 @@ static void parse_expression(int level) {
             next();
             parse_expression(TOK_INC);
 
-            // Arrays are rvalues as well as lvalues. Otherwise, an lvalue is required
-            if ((vtop()->type->type == TYPE_ARRAY && vtop()->is_lvalue) && !vtop()->is_lvalue)
+            // Arrays are rvalues as well as lvalues. Otherwise, an lvalue or function is required
+            if (!vtop()->is_lvalue && !vtop()->is_constant && !vtop()->is_string_literal && vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION)
                 error("Cannot take an address of an rvalue");
 
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
-- 
2.43.0


From 9cfc3a9f758b3f7f051ff0285cc59908a1881348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 072/103] fix: a function definition with a parameter or return
 value of an incomplete type crashed the compiler

---
 parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.c b/parser.c
index 8ab9b5d..9f1cb1f 100644
--- a/parser.c
+++ b/parser.c
@@ -3560,6 +3560,13 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
             if (!symbol->function->type->function->param_identifiers->elements[i])
                 error("Missing identifier for parameter in function definition");
 
+        // The parameters and what is returned must have a size
+        for (int i = 0; i < symbol->function->type->function->param_count; i++)
+            if (is_incomplete_type(symbol->function->type->function->param_types->elements[i]) && ((Type *) symbol->function->type->function->param_types->elements[i])->type == TYPE_STRUCT_OR_UNION)
+                error("A parameter has an incomplete type");
+        if (type->target->type == TYPE_STRUCT_OR_UNION && is_incomplete_type(type->target))
+            error("A function returns an incomplete type");
+
         // Reset globals for a new function
         vreg_count = 0;
         function_call_count = 0;
-- 
2.43.0


From a37213c79852756482aa2beaab63d0f7a1d0b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 073/103] fix: two parameters with the same name were not
 diagnosed

---
 parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 9f1cb1f..dd8c439 100644
--- a/parser.c
+++ b/parser.c
@@ -676,7 +676,10 @@ static Type *parse_function_type(void) {
 
             Symbol *param_symbol = 0;
             char *cur_type_identifier_dup = cur_type_identifier;
-            if (cur_type_identifier_dup) param_symbol = new_symbol(cur_type_identifier_dup);
+            if (cur_type_identifier_dup) {
+                if (lookup_symbol(cur_type_identifier_dup, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier_dup);
+                param_symbol = new_symbol(cur_type_identifier_dup);
+            }
 
             Type *symbol_type;
 
-- 
2.43.0


From e646bd77c2b95db436835105634187308edb3ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 074/103] fix: redeclaring an identifier as an enumerator or an
 enumerator as something else was not diagnosed

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index dd8c439..e05dd08 100644
--- a/parser.c
+++ b/parser.c
@@ -1059,6 +1059,7 @@ static Type *parse_enum_type_specifier(void) {
                 value = parse_constant_integer_expression(0)->int_value;
             }
 
+            if (lookup_symbol(enum_value_identifier, cur_scope, 0)) error("Identifier redeclared: %s", enum_value_identifier);
             Symbol *s = new_symbol(parser_wstrdup(enum_value_identifier));
             s->is_enum_value = 1;
             s->type = new_type(TYPE_INT);
@@ -3654,6 +3655,7 @@ void parse(void) {
 
                 Symbol *original_symbol = lookup_symbol(cur_type_identifier, global_scope, 1);
                 Symbol *symbol;
+                if (original_symbol && original_symbol->is_enum_value) error("Identifier redeclared: %s", cur_type_identifier);
                 if (!original_symbol) {
                     // Create a new symbol if it wasn't already declared.
 
-- 
2.43.0


From b4bde6c2f17266711dfd2e92b1803c2122ab3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 075/103] fix: elements of an array in a const struct could be
 assigned to

---
 parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index e05dd08..a563ff6 100644
--- a/parser.c
+++ b/parser.c
@@ -2511,7 +2511,10 @@ void parse_struct_dot_arrow_expression(void) {
     v->bit_field_offset = v->offset * 8 + (member->bit_field_offset & 7);
     v->bit_field_size = member->bit_field_size;
     v->type = dup_type(member->type);
-    if (str_type->is_const) v->type->is_const = 1;
+    if (str_type->is_const) {
+        v->type->is_const = 1;
+        v->type = move_array_const(v->type);
+    }
     v->is_lvalue = 1;
     push(v);
 }
-- 
2.43.0


From 9267d62aa31dcf3b4670418439f0d8c34dd6dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 076/103] fix: a function call in a sizeof crashed the compiler

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index a563ff6..4e7dfce 100644
--- a/parser.c
+++ b/parser.c
@@ -2223,6 +2223,7 @@ int parse_sizeof(parse_expression_function_type expr) {
     Type *type;
     Value *expression = 0;
     Tac *last_tac = ir;
+    int old_function_call_count = function_call_count;
     if (cur_token == TOK_LPAREN) {
         // Sizeof(type) or sizeof(expression)
         next();
@@ -2245,6 +2246,7 @@ int parse_sizeof(parse_expression_function_type expr) {
         if (ir_start && ir != last_tac) {
             ir = last_tac;
             ir->next = 0;
+            function_call_count = old_function_call_count;
         }
 
         if (expression->bit_field_size) error("Cannot take sizeof a bit field");
-- 
2.43.0


From c251a0bfdf31f45d76f9dd4102f6d0df474d8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 077/103] fix: taking the address of a constant wasn't
 diagnosed

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 4e7dfce..db6d8e8 100644
--- a/parser.c
+++ b/parser.c
@@ -2693,7 +2693,7 @@ static void parse_expression(int level) {
             parse_expression(TOK_INC);
 
             // Arrays are rvalues as well as lvalues. Otherwise, an lvalue or function is required
-            if (!vtop()->is_lvalue && !vtop()->is_constant && !vtop()->is_string_literal && vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION)
+            if (!vtop()->is_lvalue && !vtop()->is_string_literal && vtop()->type->type != TYPE_ARRAY && vtop()->type->type != TYPE_FUNCTION)
                 error("Cannot take an address of an rvalue");
 
             if (vtop()->bit_field_size) error("Cannot take an address of a bit-field");
-- 
2.43.0


From 54951023ebfcb4100dfa95b74cbd6a01b424685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 078/103] fix: a function starting with a label that is jumped
 to fetched its parameters again or got an undefined label

---
 functions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/functions.c b/functions.c
index 75f8527..b5593cf 100644
--- a/functions.c
+++ b/functions.c
@@ -1368,6 +1368,10 @@ void add_function_param_moves(Function *function, char *identifier) {
         ir->next->prev = ir;
     }
 
+    // The instructions are executed once and must come before a label the function starts with
+    else if (ir->next->label)
+        insert_instruction_from_operation(ir->next, IR_NOP, 0, 0, 0, 0);
+
     ir = function->ir->next;
 
     FunctionParamAllocation *fpa = init_function_param_allocaton(identifier);
-- 
2.43.0


From 9d109a067a705849edc9df24f129e8b9e3eb3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 079/103] fix: dividing by or shifting a parameter could fail
 with a spilled register

---
 instrsel.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index 70b0b78..1ac4126 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -301,6 +301,24 @@ static int igraphs_are_neighbors(IGraph *igraphs, int i1, int i2) {
     return 1;
 }
 
+// Divisions and shifts use specific registers, which a value that must be in one of them,
+// such as a function parameter, conflicts with.
+static int conflicts_with_preg_value(IGraph *ig, Tac *tac) {
+    if (!tac->src1 || !tac->src1->live_range_preg) return 0;
+
+    int preg = tac->src1->live_range_preg;
+
+    for (int i = 0; i < ig->node_count; i++) {
+        if (!ig->nodes[i].tac) continue;
+        int operation = ig->nodes[i].tac->operation;
+
+        if ((operation == IR_DIV || operation == IR_MOD) && (preg == LIVE_RANGE_PREG_RAX_INDEX || preg == LIVE_RANGE_PREG_RDX_INDEX)) return 1;
+        if ((operation == IR_BSHL || operation == IR_BSHR || operation == IR_ASHR) && preg == LIVE_RANGE_PREG_RCX_INDEX) return 1;
+    }
+
+    return 0;
+}
+
 static void make_igraphs(Function *function, int block_id) {
     allocated_graphs = new_list(1024);
     allocated_igraphs = new_list(1024);
@@ -420,7 +438,8 @@ static void make_igraphs(Function *function, int block_id) {
             tac->operation != IR_CALL && tac->operation != IR_MOVE_TO_PTR && tac->operation != IR_MOVE_STACK_PTR &&
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
-            igraphs_are_neighbors(igraphs, i, g1_igraph_id)
+            igraphs_are_neighbors(igraphs, i, g1_igraph_id) &&
+            !conflicts_with_preg_value(&(igraphs[g1_igraph_id]), tac)
             ) {
 
             // The instruction tiling code assumes dst != src1 and dst != src2..
-- 
2.43.0


From c2a23d930c552d1d695f2860fd6ada3e97887baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 080/103] fix: a constant converted to a pointer was used as
 what it points at

---
 parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index db6d8e8..20e73cd 100644
--- a/parser.c
+++ b/parser.c
@@ -2816,7 +2816,11 @@ static void parse_expression(int level) {
 
                     Value *v1 = pl();
 
-                    if (v1->is_constant) {
+                    // An integer constant becomes a pointer to an object in a register
+                    int is_pointer_constant = v1->is_constant && is_integer_type(v1->type) && is_pointer_type(dst_type) && !is_pointer_to_void(dst_type);
+                    if (is_pointer_constant) v1 = cast_constant_value(v1, new_type(TYPE_LONG));
+
+                    if (v1->is_constant && !is_pointer_constant) {
                         // Special case for (void *) int-constant
                         if (is_pointer_to_void(dst_type) && (is_integer_type(v1->type) || is_pointer_to_void(v1->type)) && v1->is_constant) {
                             Value *dst = new_value();
-- 
2.43.0


From 67b647f82e77b49d2325f0c68b2496578f1d3047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 081/103] fix: a cast to void was accepted as a constant

---
 constexpr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/constexpr.c b/constexpr.c
index 0a05b69..3469d10 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -423,6 +423,7 @@ Value *parse_constant_expression(int level) {
                 consume(TOK_RPAREN, ")");
                 value = parse_constant_expression(TOK_INC);
                 check_is_constant_operand(value);
+                if (type->type == TYPE_VOID) error("A void expression cannot be used in a constant expression");
                 value = cast_constant_value(value, type);
             }
             else {
-- 
2.43.0


From 4a30291f8d5098c26aa8e2cc8bd944ae0483d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 082/103] fix: a pointer to an array of unknown size could not
 be dereferenced

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 20e73cd..324de72 100644
--- a/parser.c
+++ b/parser.c
@@ -1123,7 +1123,7 @@ static void indirect(void) {
     Value *src1 = pl();
 
     Type *target = src1->type->target;
-    if (is_incomplete_type(target))
+    if (is_incomplete_type(target) && target->type != TYPE_ARRAY)
         error("Attempt to use an incomplete type");
 
     if (src1->is_lvalue) panic_with_line_number("Expected rvalue");
-- 
2.43.0


From 6cad60a183bd9d84359494e4f3184722b256acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 083/103] fix: values of objects in constant expressions, leave
 the difference of pointer objects alone

---
 constexpr.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index 3469d10..e12f3f6 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -7,13 +7,16 @@
 static int integers_are_longs;
 static int not_evaluated;           // Set when parsing an operand that isn't evaluated, e.g. the second in 0 && 1 / 0
 
-// Objects can only be operands if their address or size is used
-static void check_is_constant_operand(Value *value) {
-    if (not_evaluated) return;
-    if (value->is_constant || value->is_address_of || value->is_string_literal) return;
-    if (value->type->type == TYPE_ARRAY) return;
+// Is the value that of an object, as opposed to its address?
+static int is_object_value(Value *value) {
+    return !value->is_constant && !value->is_address_of && !value->is_string_literal && value->type->type != TYPE_ARRAY;
+}
 
-    error("The value of an object cannot be used in a constant expression");
+// Objects can only be operands if their address or size is used. Pointers can be used in a
+// subtraction of pointers.
+static void check_is_constant_operand(Value *value, int allow_pointer) {
+    if (!not_evaluated && is_object_value(value) && !(allow_pointer && is_pointer_type(value->type)))
+        error("The value of an object cannot be used in a constant expression");
 }
 
 static Value *indirect(Value *value) {
@@ -243,7 +246,7 @@ Value *cast_constant_value(Value *src, Type *dst_type) {
 static Value *parse_unary_expression(int operation) {
     next();
     Value *value = parse_constant_expression(TOK_INC);
-    check_is_constant_operand(value);
+    check_is_constant_operand(value, 0);
     check_unary_operation_type(operation, value);
     if (is_floating_point_type(value->type))
         return evaluate_const_unary_fp_operation(operation, value);
@@ -325,8 +328,9 @@ static Value *parse_binary_expression(int operation, int second_level, Value *va
     Value *value2 = parse_constant_expression(second_level);
     not_evaluated -= short_circuit;
 
-    check_is_constant_operand(value1);
-    if (!short_circuit) check_is_constant_operand(value2);
+    int allow_pointer = operation == IR_ADD || operation == IR_SUB;
+    check_is_constant_operand(value1, allow_pointer);
+    if (!short_circuit) check_is_constant_operand(value2, allow_pointer);
     check_binary_operation_types(operation, value1, value2);
 
     if ((operation == IR_ADD || operation == IR_SUB) && (is_pointer_type(value1->type) || is_pointer_type(value2->type)) || value1->is_string_literal || value2->is_string_literal)
@@ -354,7 +358,7 @@ static Value *parse_ternary(Value *value) {
     not_evaluated += which;
     Value *value2 = parse_constant_expression(TOK_TERNARY);
     not_evaluated -= which;
-    check_is_constant_operand(value);
+    check_is_constant_operand(value, 0);
     check_ternary_operation_types(value, value1, value2);
 
     Value *result = which ? value1 : value2;
@@ -422,9 +426,11 @@ Value *parse_constant_expression(int level) {
                 Type *type = parse_type_name();
                 consume(TOK_RPAREN, ")");
                 value = parse_constant_expression(TOK_INC);
-                check_is_constant_operand(value);
+                check_is_constant_operand(value, is_pointer_type(type));
+                int is_object = is_object_value(value);
                 if (type->type == TYPE_VOID) error("A void expression cannot be used in a constant expression");
                 value = cast_constant_value(value, type);
+                if (is_object) value->is_constant = 0;
             }
             else {
                 // (sub expression)
-- 
2.43.0


From bbc8295b442deb6d8f57446892593b429b3da525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:28 +0000
Subject: [PATCH 084/103] fix: two parameters with the same name are only an
 error in a definition

---
 parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index 324de72..203c2c0 100644
--- a/parser.c
+++ b/parser.c
@@ -676,10 +676,7 @@ static Type *parse_function_type(void) {
 
             Symbol *param_symbol = 0;
             char *cur_type_identifier_dup = cur_type_identifier;
-            if (cur_type_identifier_dup) {
-                if (lookup_symbol(cur_type_identifier_dup, cur_scope, 0)) error("Identifier redeclared: %s", cur_type_identifier_dup);
-                param_symbol = new_symbol(cur_type_identifier_dup);
-            }
+            if (cur_type_identifier_dup) param_symbol = new_symbol(cur_type_identifier_dup);
 
             Type *symbol_type;
 
@@ -3573,6 +3570,13 @@ static int parse_function(Type *type, int linkage, Symbol *symbol, Symbol *origi
             if (!symbol->function->type->function->param_identifiers->elements[i])
                 error("Missing identifier for parameter in function definition");
 
+        // ... that are different
+        List *identifiers = symbol->function->type->function->param_identifiers;
+        for (int i = 0; i < identifiers->length; i++)
+            for (int j = 0; j < i; j++)
+                if (!strcmp(identifiers->elements[i], identifiers->elements[j]))
+                    error("Identifier redeclared: %s", identifiers->elements[i]);
+
         // The parameters and what is returned must have a size
         for (int i = 0; i < symbol->function->type->function->param_count; i++)
             if (is_incomplete_type(symbol->function->type->function->param_types->elements[i]) && ((Type *) symbol->function->type->function->param_types->elements[i])->type == TYPE_STRUCT_OR_UNION)
-- 
2.43.0


From 4c02999a01da032a5fcffc69852b93bf97c3d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 085/103] fix: a typedef without an identifier crashed the
 compiler

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 203c2c0..dbffdd9 100644
--- a/parser.c
+++ b/parser.c
@@ -1096,6 +1096,8 @@ void parse_typedef(void) {
 
         parse_attributes();
 
+        if (!cur_type_identifier) error("Expected an identifier");
+
         if (all_typedefs_count == MAX_TYPEDEFS) panic_with_line_number("Exceeded max typedefs");
         Typedef *td = wcalloc(1, sizeof(Typedef));
         td->identifier = cur_type_identifier;
-- 
2.43.0


From b7822fe2e29ae46b28994ed76718776f3d2d063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 086/103] fix: a declaration in the place of an operand crashed
 the compiler

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index dbffdd9..12c096a 100644
--- a/parser.c
+++ b/parser.c
@@ -2650,6 +2650,8 @@ static void parse_expression(int level) {
     // case, cur_token_is_type will identify it as a typedef, when it should be
     // treated as an identifier.
     if (!base_type && cur_token_is_type()) {
+        // Declarations aren't operands
+        if (level != TOK_COMMA) error("Expected an expression");
         base_type = parse_declaration_specifiers();
         parse_expression(TOK_COMMA);
         free_and_null(base_type);
@@ -2658,6 +2660,7 @@ static void parse_expression(int level) {
     else switch(cur_token) {
         // A typedef an also be used as an identifier in a labelled statement
         case TOK_TYPEDEF:
+            if (level != TOK_COMMA) error("Expected an expression");
             parse_typedef();
             break;
 
-- 
2.43.0


From 081671244e0c02ede4dcd2a068d3dd7f433049c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:16 +0000
Subject: [PATCH 087/103] fix: initialisers with the address of what a pointer
 object points at or the contents of an object were accepted

---
 constexpr.c | 27 +++++++++++++++++++++++----
 parser.c    |  4 ++--
 wcc.h       |  3 +++
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/constexpr.c b/constexpr.c
index e12f3f6..6b43789 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -9,7 +9,13 @@ static int not_evaluated;           // Set when parsing an operand that isn't ev
 
 // Is the value that of an object, as opposed to its address?
 static int is_object_value(Value *value) {
-    return !value->is_constant && !value->is_address_of && !value->is_string_literal && value->type->type != TYPE_ARRAY;
+    if (value->type->type == TYPE_ARRAY || value->type->type == TYPE_FUNCTION) return 0;
+    return value->is_dereferenced || (!value->is_constant && !value->is_address_of && !value->is_string_literal);
+}
+
+// An address or number that is known when the program is linked
+int is_static_initializer(Value *value) {
+    return !is_object_value(value) && !value->is_behind_object;
 }
 
 // Objects can only be operands if their address or size is used. Pointers can be used in a
@@ -19,10 +25,20 @@ static void check_is_constant_operand(Value *value, int allow_pointer) {
         error("The value of an object cannot be used in a constant expression");
 }
 
+// Make a value what a pointer or array points at
+static void dereference(Value *value) {
+    // What a pointer in an object points at isn't known
+    if (is_object_value(value)) value->is_behind_object = 1;
+
+    value->type = value->type->target;
+    value->is_dereferenced = 1;
+    if (value->type->type != TYPE_FUNCTION) value->is_address_of = 0;
+}
+
 static Value *indirect(Value *value) {
     if (!is_pointer_type(value->type)) error("Cannot dereference a non-pointer");
 
-    value->type = deref_pointer(value->type);
+    dereference(value);
 
     return value;
 }
@@ -267,6 +283,7 @@ static Value *parse_address_plus_minus(int operation, Value *value1, Value *valu
         if (values[i]->type->type != TYPE_ARRAY) continue;
         values[i]->type = decay_array_to_pointer(values[i]->type);
         values[i]->is_address_of = 1;
+        values[i]->is_dereferenced = 0;
     }
 
     Value *result;
@@ -402,6 +419,8 @@ Value *parse_constant_expression(int level) {
             if (!value->is_string_literal && !value->global_symbol && !value->is_constant)
                 error("Illegal operand to & in constant expression");
 
+            value->is_dereferenced = 0;
+
             // The address of what a constant pointer points at is itself a constant
             if (value->is_constant) {
                 value->int_value += value->address_of_offset;
@@ -507,7 +526,7 @@ Value *parse_constant_expression(int level) {
                     error("Expected an integer constant integer expression in []");
 
                 value->address_of_offset += get_type_size(value->type->target) * subscript_value->int_value;
-                value->type = value->type->target;
+                dereference(value);
 
                 break;
 
@@ -576,7 +595,7 @@ Value *parse_constant_integer_expression(int all_longs) {
     Value *value = parse_constant_expression(TOK_EQ);
     integers_are_longs = old_integers_are_longs;
 
-    if (!value->is_constant) error("Expected a constant expression");
+    if (!value->is_constant || !is_static_initializer(value)) error("Expected a constant expression");
     if (!is_integer_type(value->type)) error("Expected an integer constant expression");
     return value;
 }
diff --git a/parser.c b/parser.c
index 12c096a..2c51e13 100644
--- a/parser.c
+++ b/parser.c
@@ -1786,7 +1786,7 @@ static Initializer *new_initializer(Symbol *s, int offset, int size) {
 // Add an initializer of a bit-field. It is added to the bytes the bit-field is in, since
 // these can be shared with other members.
 static void add_bit_field_initializer(Value *dst, Value *scalar) {
-    if (!scalar->is_constant)
+    if (!scalar->is_constant || !is_static_initializer(scalar))
         error("An initializer for an object with static storage duration must be a constant expression");
 
     scalar = cast_constant_value(scalar, dst->type);
@@ -1816,7 +1816,7 @@ static void add_initializer(Value *dst, int offset, Value *scalar) {
 
     Initializer *in = new_initializer(dst->global_symbol, offset, get_type_size(dst->type));
 
-    if (!scalar->is_constant && !scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY)
+    if (!is_static_initializer(scalar))
         error("An initializer for an object with static storage duration must be a constant expression");
 
     if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
diff --git a/wcc.h b/wcc.h
index fd65fc5..aad66cb 100644
--- a/wcc.h
+++ b/wcc.h
@@ -304,6 +304,8 @@ typedef struct value {
     unsigned int is_string_literal:1;                    // Is the value a string literal?
     unsigned int has_been_renamed:1;                     // Used in renaming and stack renumbering code
     unsigned int is_address_of:1;                        // Is an address of a constant expression.
+    unsigned int is_dereferenced:1;                      // Is what a pointer in a constant expression points at
+    unsigned int is_behind_object:1;                     // Is found with the value of an object in a constant expression
     unsigned int has_struct_or_union_return_value:1;     // Is it a function call that returns a struct/union?
     unsigned int load_from_got:1;                        // Load from Global Offset Table (GOT)
     int local_index;                                     // Used by parser for local variable and temporaries and function arguments
@@ -995,6 +997,7 @@ Value* evaluate_const_binary_fp_operation(int operation, Value *src1, Value *src
 Value *cast_constant_value(Value *src, Type *type);
 long double convert_floating_point_constant(Type *type, long double value);
 Value *parse_constant_expression(int level);
+int is_static_initializer(Value *value);
 Value *parse_constant_integer_expression(int all_longs);
 
 // scopes.c
-- 
2.43.0


From d62ba18613186088472052968201a28712c044c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:16 +0000
Subject: [PATCH 088/103] fix: the address of an element of a string literal in
 a constant expression crashed the compiler

---
 constexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/constexpr.c b/constexpr.c
index 6b43789..4e341f9 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -426,7 +426,7 @@ Value *parse_constant_expression(int level) {
                 value->int_value += value->address_of_offset;
                 value->address_of_offset = 0;
             }
-            else
+            else if (!value->is_string_literal)
                 value->is_address_of = 1;
 
             // Hacky horror, only create a pointer unless it's already a pointer to a function
-- 
2.43.0


From 25f8bf0919bb6257f0fa55ee0f981a4485b8aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 089/103] fix: assigning, returning or passing structs or
 unions as other types wasn't diagnosed or crashed the compiler

---
 parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.c b/parser.c
index 2c51e13..289097b 100644
--- a/parser.c
+++ b/parser.c
@@ -1626,6 +1626,10 @@ Value *load_function(Value *src, Type *dst_type) {
 Value *add_convert_type_if_needed(Value *src, Type *dst_type) {
     if (dst_type->type == TYPE_FUNCTION) error("Function type mismatch");
 
+    // A struct or union can only be converted to the same type
+    if ((dst_type->type == TYPE_STRUCT_OR_UNION || src->type->type == TYPE_STRUCT_OR_UNION) && !types_are_compatible_ignore_qualifiers(dst_type, src->type))
+        error("Incompatible struct or union types");
+
     int dst_is_function = is_pointer_to_function_type(dst_type)  || dst_type->type == TYPE_FUNCTION;
     int src_is_function = is_pointer_to_function_type(src->type) || src->type->type == TYPE_FUNCTION;
 
-- 
2.43.0


From 951f16d2020c15e986e29f34a10730c7765293c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 090/103] fix: casts of structs and unions and between pointers
 and floating point numbers weren't diagnosed or crashed the compiler

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index 289097b..16be0ad 100644
--- a/parser.c
+++ b/parser.c
@@ -2822,6 +2822,12 @@ static void parse_expression(int level) {
 
                     Value *v1 = pl();
 
+                    if (dst_type->type == TYPE_STRUCT_OR_UNION || dst_type->type == TYPE_ARRAY || dst_type->type == TYPE_FUNCTION || v1->type->type == TYPE_STRUCT_OR_UNION)
+                        error("Cannot cast to or from a non scalar");
+
+                    if ((is_pointer_type(dst_type) && is_floating_point_type(v1->type)) || (is_floating_point_type(dst_type) && (is_pointer_type(v1->type) || v1->type->type == TYPE_FUNCTION)))
+                        error("Cannot cast between pointers and floating point numbers");
+
                     // An integer constant becomes a pointer to an object in a register
                     int is_pointer_constant = v1->is_constant && is_integer_type(v1->type) && is_pointer_type(dst_type) && !is_pointer_to_void(dst_type);
                     if (is_pointer_constant) v1 = cast_constant_value(v1, new_type(TYPE_LONG));
-- 
2.43.0


From 829dc6a469b89f22f754a8179d4580c75149bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 091/103] fix: members of a struct that is the result of ?:
 were rejected

---
 parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser.c b/parser.c
index 16be0ad..da0e1f9 100644
--- a/parser.c
+++ b/parser.c
@@ -2487,7 +2487,6 @@ void parse_struct_dot_arrow_expression(void) {
 
     if (cur_token == TOK_DOT) {
         if (vtop()->type->type != TYPE_STRUCT_OR_UNION) error("Can only use . on a struct or union");
-        if (!vtop()->is_lvalue) error("Expected lvalue for struct . operation.");
     }
     else {
         if (!is_pointer_type(vtop()->type)) error("Cannot use -> on a non-pointer");
-- 
2.43.0


From 06981d8111c688500bda99cd330094945214d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 092/103] fix: a function pointer converted to an integer or a
 pointer to an object gave an undefined value

---
 instrrules.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instrrules.c b/instrrules.c
index 3760f10..1886c06 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1692,9 +1692,9 @@ void define_rules(void) {
     r = add_rule(0, IR_LOAD_LONG_DOUBLE, MLD5, 0, 1); add_op(r, X_MOVC, DST, SRC1, 0, "fldt %v1L");
 
     // Function pointers
-    r = add_rule(XRI, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRU, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
-    r = add_rule(XRP, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, 0); fin_rule(r);
+    for (int dst = RI1; dst <= RI4; dst++) add_mov_rule(dst, RPF, 0, 0);
+    for (int dst = RU1; dst <= RU4; dst++) add_mov_rule(dst, RPF, 0, 0);
+    for (int dst = RP1; dst <= RP5; dst++) add_mov_rule(dst, RPF, 0, 0);
     r = add_rule(RPF, IR_MOVE, RPF, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP1, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
     r = add_rule(RPF, IR_MOVE, RP2, 0, 2); add_op(r, X_MOV, DST, SRC1, 0, "movq %v1q, %vdq");
-- 
2.43.0


From fa1aa5f81fc5456b28bddddd95a6b11f8989657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 093/103] fix: the conversion of a function to an integer
 failed

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index da0e1f9..ace5a14 100644
--- a/parser.c
+++ b/parser.c
@@ -2845,7 +2845,7 @@ static void parse_expression(int level) {
                             push(cast_constant_value(v1, dst_type));
                     }
                     else if (dst_type->type != TYPE_VOID && v1->type != dst_type) {
-                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, dst_type);
+                        if (v1->type->type == TYPE_FUNCTION) v1 = load_function(v1, is_pointer_type(dst_type) ? dst_type : make_pointer_to_void());
 
                         // An integer becomes a function pointer by way of a pointer to void
                         if (is_pointer_to_function_type(dst_type) && is_integer_type(v1->type)) {
-- 
2.43.0


From 7013e3df1556c37f52429153aae190f1950e6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 094/103] fix: addresses of automatic objects were accepted in
 static initialisers

---
 constexpr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/constexpr.c b/constexpr.c
index 4e341f9..b353302 100644
--- a/constexpr.c
+++ b/constexpr.c
@@ -15,6 +15,10 @@ static int is_object_value(Value *value) {
 
 // An address or number that is known when the program is linked
 int is_static_initializer(Value *value) {
+    // The address of an automatic object isn't known
+    if (!value->is_constant && !value->is_string_literal && value->global_symbol && value->global_symbol->type->type != TYPE_FUNCTION && !value->global_symbol->global_identifier)
+        return 0;
+
     return !is_object_value(value) && !value->is_behind_object;
 }
 
-- 
2.43.0


From f740c775d181969a10f7b25a057e1bc8833813ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 095/103] fix: take the address of an indirected function
 pointer

---
 parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.c b/parser.c
index ace5a14..67f4aef 100644
--- a/parser.c
+++ b/parser.c
@@ -2712,6 +2712,15 @@ static void parse_expression(int level) {
                 // e.g. (int) ((size_t) &((struct s *) 0)->m);
                 push_integral_constant(TYPE_LONG, src1->int_value + src1->offset);
 
+            else if (src1->type->type == TYPE_FUNCTION && src1->vreg && !src1->global_symbol) {
+                // The result of an indirection of a function pointer. The register already
+                // has the address of the function.
+                Value *dst = dup_value(src1);
+                dst->type = make_pointer(src1->type);
+                dst->is_lvalue = 0;
+                push(dst);
+            }
+
             else {
                 add_ir_op(IR_ADDRESS_OF, make_pointer(src1->type), new_vreg(), src1, 0);
                 if (src1->offset && src1->vreg) {
-- 
2.43.0


From 54e06799e29cfc23b1a909f1c17cffd083e58327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:26 +0000
Subject: [PATCH 096/103] fix: reject an address as the initialiser of an
 object it does not fit

---
 parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 67f4aef..6a3ac12 100644
--- a/parser.c
+++ b/parser.c
@@ -1823,7 +1823,12 @@ static void add_initializer(Value *dst, int offset, Value *scalar) {
     if (!is_static_initializer(scalar))
         error("An initializer for an object with static storage duration must be a constant expression");
 
-    if (!scalar->is_string_literal && !scalar->is_address_of && scalar->type->type != TYPE_ARRAY) scalar = cast_constant_value(scalar, dst->type);
+    // An address takes eight bytes, which only a pointer or a long integer has
+    int is_address = scalar->is_string_literal || scalar->is_address_of || scalar->type->type == TYPE_ARRAY;
+    if (is_address && (is_floating_point_type(dst->type) || (is_integer_type(dst->type) && get_type_size(dst->type) != sizeof(long))))
+        error("Incompatible types in an initializer");
+
+    if (!is_address) scalar = cast_constant_value(scalar, dst->type);
 
     if (scalar->type->type == TYPE_FLOAT) {
         in->data = wmalloc(sizeof(float));
-- 
2.43.0


From 4f48d388219249b62a3c7ef88632159900c2e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 097/103] fix: compare functions, indirected function pointers
 and null pointers for equality

---
 parser.c | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/parser.c b/parser.c
index 6a3ac12..ef661e2 100644
--- a/parser.c
+++ b/parser.c
@@ -321,6 +321,8 @@ Type *operation_type(Value *src1, Value *src2, int for_ternary) {
     else if (for_ternary && src1_type->type == TYPE_PTR && src2_type->type == TYPE_PTR) return ternary_pointer_composite_type(src1->type, src2->type);
     else if (src1_type->type == TYPE_PTR) return src1_type;
     else if (src2_type->type == TYPE_PTR) return src2_type;
+    else if (src1_type->type == TYPE_FUNCTION && is_null_pointer(src2)) return make_pointer(src1_type);
+    else if (src2_type->type == TYPE_FUNCTION && is_null_pointer(src1)) return make_pointer(src2_type);
 
     // If either is a long double, promote both to long double
     if (src1_type->type == TYPE_LONG_DOUBLE || src2_type->type == TYPE_LONG_DOUBLE)
@@ -1344,6 +1346,24 @@ static Value *float_type_change(Value *src) {
     return dst;
 }
 
+// Convert a value with a function type to a pointer to the function
+static Value *function_to_pointer(Value *src) {
+    if (src->type->type != TYPE_FUNCTION) return src;
+
+    // The result of an indirection of a function pointer already has the address in a register
+    Value *dst = src->global_symbol ? new_value() : dup_value(src);
+    dst->type = make_pointer(dup_type(src->type));
+    dst->is_lvalue = 0;
+
+    if (src->global_symbol) {
+        // A global function, load the address into a register
+        dst->vreg = new_vreg();
+        add_parser_instruction(IR_ADDRESS_OF, dst, src, 0);
+    }
+
+    return dst;
+}
+
 static void arithmetic_operation(int operation, Type *dst_type) {
     // Pull two items from the stack and push the result. Code in the IR
     // is generated when the operands can't be evaluated directly.
@@ -1370,28 +1390,16 @@ static void arithmetic_operation(int operation, Type *dst_type) {
             src2 = t;
         }
 
-        if (common_type->type == TYPE_FUNCTION && src1->global_symbol && src2->global_symbol)  {
+        if (src1->type->type == TYPE_FUNCTION && src2->type->type == TYPE_FUNCTION && src1->global_symbol && src2->global_symbol)  {
             // Compare two global functions with each other
-            push_integral_constant(TYPE_INT, src1->global_symbol == src2->global_symbol);
+            push_integral_constant(TYPE_INT, (src1->global_symbol == src2->global_symbol) == (operation == IR_EQ));
             return;
         }
 
-        else if (src1->type->type == TYPE_FUNCTION && src1->global_symbol && is_pointer_to_function_type(src2->type))  {
-            // src1 is a global function, load the address into a register
-            Value *new_src1 = new_value();
-            new_src1->vreg = new_vreg();
-            new_src1->type = make_pointer(dup_type(src1->type));
-            add_parser_instruction(IR_ADDRESS_OF, new_src1, src1, 0);
-            src1 = new_src1;
-        }
-
-        else if (src2->type->type == TYPE_FUNCTION && src2->global_symbol && is_pointer_to_function_type(src1->type))  {
-            // src2 is a global function, load the address into a register
-            Value *new_src2 = new_value();
-            new_src2->vreg = new_vreg();
-            new_src2->type = make_pointer(dup_type(src2->type));
-            add_parser_instruction(IR_ADDRESS_OF, new_src2, src2, 0);
-            src2 = new_src2;
+        if (src1->type->type == TYPE_FUNCTION || src2->type->type == TYPE_FUNCTION) {
+            src1 = function_to_pointer(src1);
+            src2 = function_to_pointer(src2);
+            common_type = src1->type;
         }
     }
 
@@ -1536,8 +1544,8 @@ void check_binary_operation_types(int operation, Value *src1, Value *src2) {
             (!(src1_is_pointer && src2_is_pointer && types_are_compatible_ignore_qualifiers(src1_type_deref, src2_type_deref))) &&
             (!(src1_is_pointer && src2_is_pointer && is_pointer_to_void(src2->type))) &&
             (!(src2_is_pointer && src1_is_pointer && is_pointer_to_void(src1->type))) &&
-            (!(src1_is_pointer && is_null_pointer(src2))) &&
-            (!(src2_is_pointer && is_null_pointer(src1)))
+            (!((src1_is_pointer || src1_is_function) && is_null_pointer(src2))) &&
+            (!((src2_is_pointer || src2_is_function) && is_null_pointer(src1)))
         )
             error("Invalid operands to relational operator");
     }
-- 
2.43.0


From 4ada8a086829d3d7bf39711cfa9e35bd1e384088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:47 +0000
Subject: [PATCH 098/103] fix: type specifiers in any order, e.g. double long,
 int short

---
 parser.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index ef661e2..7c62ec3 100644
--- a/parser.c
+++ b/parser.c
@@ -463,7 +463,6 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_DOUBLE:   next(); seen_double++;   type = new_type(TYPE_DOUBLE); break;
             case TOK_SHORT:
                 next();
-                if (cur_token == TOK_INT) next();
                 seen_short++;
                 type = new_type(TYPE_SHORT);
                 break;
@@ -522,12 +521,23 @@ static BaseType *parse_declaration_specifiers() {
         }
     }
 
+    // The specifiers may come in any order
+    if (seen_double == 1 && seen_long == 1 && !seen_int) {
+        seen_double = seen_long = 0;
+        seen_long_double++;
+        type = new_type(TYPE_LONG_DOUBLE);
+    }
+
     if (seen_long == 2) seen_long = 1;
     else if (seen_long > 2) error("Too many longs in type specifier");
     if (seen_int && seen_long) {
         seen_int = 0;
         type = new_type(TYPE_LONG);
     }
+    if (seen_int && seen_short) {
+        seen_int = 0;
+        type = new_type(TYPE_SHORT);
+    }
 
     int data_type_sum =
         seen_void + seen_char + seen_short + seen_int + seen_long +
-- 
2.43.0


From 80db444af384b8013d764fdea4b4b9f60d24bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 099/103] fix: typedef may come anywhere in the declaration
 specifiers

---
 parser.c | 40 ++++++++++++++++++++++++++++------------
 wcc.h    |  1 +
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/parser.c b/parser.c
index 7c62ec3..9b48ae9 100644
--- a/parser.c
+++ b/parser.c
@@ -415,11 +415,11 @@ void parse_attributes(void) {
 }
 
 // Parse
-// - storage-class-specifiers: auto, register, static, extern
+// - storage-class-specifiers: auto, register, static, extern, typedef
 // - type-specifiers: void, int, signed, unsigned, ... long, double, struct, union
 // - type-qualifiers: const, volatile
 // - typedef type names
-static BaseType *parse_declaration_specifiers() {
+static BaseType *parse_declaration_specifiers_or_typedef(void) {
     Type *type = 0;
 
     // Type specifiers
@@ -445,6 +445,7 @@ static BaseType *parse_declaration_specifiers() {
     int seen_register = 0;
     int seen_static = 0;
     int seen_extern = 0;
+    int seen_typedef_storage_class = 0;
 
     int seen_typedef = 0;
     int seen_struct = 0;
@@ -514,6 +515,7 @@ static BaseType *parse_declaration_specifiers() {
             case TOK_REGISTER: next(); seen_register++; break;
             case TOK_STATIC:   next(); seen_static++; break;
             case TOK_EXTERN:   next(); seen_extern++; break;
+            case TOK_TYPEDEF:  next(); seen_typedef_storage_class++; break;
 
             case TOK_ATTRIBUTE: parse_attributes(); break;
 
@@ -560,7 +562,7 @@ static BaseType *parse_declaration_specifiers() {
     if (!is_integer_type && (seen_signed || seen_unsigned))
         error("Signed/unsigned can only apply to integer types");
 
-    if ((seen_auto + seen_register + seen_static + seen_extern > 1))
+    if ((seen_auto + seen_register + seen_static + seen_extern + seen_typedef_storage_class > 1))
         error("Duplicate storage class specifiers");
 
     BaseType *base_type = wmalloc(sizeof(BaseType));
@@ -571,6 +573,7 @@ static BaseType *parse_declaration_specifiers() {
     if (seen_static) base_type->storage_class = SC_STATIC;
     if (seen_auto) base_type->storage_class = SC_AUTO;
     if (seen_register) base_type->storage_class = SC_REGISTER;
+    if (seen_typedef_storage_class) base_type->storage_class = SC_TYPEDEF;
 
     if (seen_restrict) type->is_restrict = 1;
 
@@ -582,6 +585,13 @@ static BaseType *parse_declaration_specifiers() {
     return base_type;
 }
 
+// Parse declaration specifiers where a typedef isn't allowed
+static BaseType *parse_declaration_specifiers(void) {
+    BaseType *base_type = parse_declaration_specifiers_or_typedef();
+    if (base_type->storage_class == SC_TYPEDEF) error("A typedef is not allowed here");
+    return base_type;
+}
+
 // If an array type is declared with the const type qualifier (through the use of
 // typedef), the array type is not const-qualified, but its element type is.
 static Type *move_array_const(Type *type) {
@@ -1095,11 +1105,7 @@ static Type *parse_enum_type_specifier(void) {
     return type;
 }
 
-void parse_typedef(void) {
-    next();
-
-    BaseType *base_type_with_storage_class = parse_declaration_specifiers(0);
-    Type *base_type = base_type_with_storage_class->type;
+static void parse_typedef_declarators(Type *base_type) {
 
     while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
         cur_type_identifier = 0;
@@ -1123,8 +1129,14 @@ void parse_typedef(void) {
         if (cur_token != TOK_SEMI) consume(TOK_COMMA, ",");
         if (cur_token == TOK_SEMI) break;
     }
+}
 
-    wfree(base_type_with_storage_class);
+void parse_typedef(void) {
+    next();
+
+    BaseType *base_type = parse_declaration_specifiers();
+    parse_typedef_declarators(base_type->type);
+    wfree(base_type);
 }
 
 static void indirect(void) {
@@ -3441,8 +3453,10 @@ static void parse_statement(void) {
         char *identifier = parser_wstrdup(cur_identifier);
 
         if (base_type) wfree(base_type);
-        base_type = parse_declaration_specifiers();
-        if (cur_token == TOK_SEMI && (base_type->type->type == TYPE_STRUCT_OR_UNION || base_type->type->type == TYPE_ENUM))
+        base_type = parse_declaration_specifiers_or_typedef();
+        if (base_type->storage_class == SC_TYPEDEF)
+            parse_typedef_declarators(base_type->type);
+        else if (cur_token == TOK_SEMI && (base_type->type->type == TYPE_STRUCT_OR_UNION || base_type->type->type == TYPE_ENUM))
             next();
         else if (cur_token == TOK_COLON && is_typedef)
             // Special case for a typedef used as a labelled statement
@@ -3698,7 +3712,9 @@ void parse(void) {
                 base_type->storage_class = SC_NONE;
             }
             else
-                base_type = parse_declaration_specifiers();
+                base_type = parse_declaration_specifiers_or_typedef();
+
+            if (base_type->storage_class == SC_TYPEDEF) parse_typedef_declarators(base_type->type);
 
             while (cur_token != TOK_SEMI && cur_token != TOK_EOF) {
                 cur_type_identifier = 0;
diff --git a/wcc.h b/wcc.h
index aad66cb..bb5eb25 100644
--- a/wcc.h
+++ b/wcc.h
@@ -138,6 +138,7 @@ enum {
     SC_STATIC,
     SC_AUTO,
     SC_REGISTER,
+    SC_TYPEDEF,
 };
 
 typedef struct list {
-- 
2.43.0


From 121dfe0bd42fa3a9da0d361353672b9c8085db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 100/103] fix: abstract function declarators without a pointer,
 e.g. int f(int (void))

---
 parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser.c b/parser.c
index 9b48ae9..da7de64 100644
--- a/parser.c
+++ b/parser.c
@@ -800,10 +800,17 @@ Type *parse_direct_declarator(void) {
     }
 
     else if (cur_token == TOK_LPAREN) {
-        // (subtype)
         next();
-        type = concat_types(type, parse_declarator());
-        consume(TOK_RPAREN, ")");
+
+        if (cur_token == TOK_RPAREN || (cur_token_is_type() && cur_token != TOK_TYPEDEF_TYPE)) {
+            // Function parameters of an abstract declarator, e.g. the parameter in int f(int (void))
+            type = concat_types(type, parse_function_type());
+        }
+        else {
+            // (subtype)
+            type = concat_types(type, parse_declarator());
+            consume(TOK_RPAREN, ")");
+        }
     }
 
     while (1) {
-- 
2.43.0


From 2c3a5220bc9c6c6c0d18556d7d27af436591c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 101/103] fix: function parameters of old style functions are
 pointers

---
 parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index da7de64..29625cc 100644
--- a/parser.c
+++ b/parser.c
@@ -752,8 +752,9 @@ static void parse_function_paramless_declaration_list(Function *function) {
             cur_type_identifier = 0;
             Type *type = concat_base_type(parse_declarator(), base_type);
 
-            // Array parameters decay to a pointer
+            // Array and function parameters decay to a pointer
             if (type->type == TYPE_ARRAY) type = decay_array_to_pointer(type);
+            if (type->type == TYPE_FUNCTION) type = make_pointer(type);
             if (type->type == TYPE_ENUM) type = new_type(TYPE_INT);
 
             // Associate type with param symbol
-- 
2.43.0


From 63dd043db56dcea6749f9953d9123d9febee25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 102/103] fix: taking the address of what a global pointer
 points to, e.g. &*p and (*p)[1], used the address of the pointer

---
 instrsel.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/instrsel.c b/instrsel.c
index 1ac4126..c650fae 100644
--- a/instrsel.c
+++ b/instrsel.c
@@ -301,6 +301,20 @@ static int igraphs_are_neighbors(IGraph *igraphs, int i1, int i2) {
     return 1;
 }
 
+// The address of an lvalue in a register is the contents of the register. If the register
+// is loaded with a pointer in memory, the load cannot be merged, since that would make it the
+// address of the pointer.
+static int is_address_of_loaded_pointer(IGraph *user, Tac *tac) {
+    if (tac->operation != IR_MOVE || !tac->src1 || tac->src1->vreg) return 0;
+
+    for (int i = 0; i < user->node_count; i++) {
+        Tac *user_tac = user->nodes[i].tac;
+        if (user_tac && user_tac->operation == IR_ADDRESS_OF && user_tac->src1 && user_tac->src1->vreg == tac->dst->vreg) return 1;
+    }
+
+    return 0;
+}
+
 // Divisions and shifts use specific registers, which a value that must be in one of them,
 // such as a function parameter, conflicts with.
 static int conflicts_with_preg_value(IGraph *ig, Tac *tac) {
@@ -439,7 +453,8 @@ static void make_igraphs(Function *function, int block_id) {
             igraphs[g1_igraph_id].nodes[0].tac->operation != IR_CALL_ARG_REG &&
             tac->operation != IR_CALL_ARG_REG &&
             igraphs_are_neighbors(igraphs, i, g1_igraph_id) &&
-            !conflicts_with_preg_value(&(igraphs[g1_igraph_id]), tac)
+            !conflicts_with_preg_value(&(igraphs[g1_igraph_id]), tac) &&
+            !is_address_of_loaded_pointer(&(igraphs[g1_igraph_id]), tac)
             ) {
 
             // The instruction tiling code assumes dst != src1 and dst != src2..
-- 
2.43.0


From ef9dc8608c4780e2316e9c88fcd4ba3c6c5c26b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 103/103] fix: calls of functions returning pointers to long
 double and of function pointers returning function pointers

---
 instrrules.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instrrules.c b/instrrules.c
index 1886c06..eb5b888 100644
--- a/instrrules.c
+++ b/instrrules.c
@@ -1611,6 +1611,7 @@ void define_rules(void) {
     r = add_rule(XRI,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRU,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RPF,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, FUN, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
@@ -1623,6 +1624,10 @@ void define_rules(void) {
     r = add_rule(XRU,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(XRP,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RP5,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RPF,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
+    r = add_rule(RPF,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS3,  IR_CALL, MPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
     r = add_rule(RS4,  IR_CALL, RPF, 0, 5); add_op(r, X_CALL, DST, SRC1, 0, 0); fin_rule(r);
-- 
2.43.0

