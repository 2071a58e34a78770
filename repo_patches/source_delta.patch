From 6897ba70bcb2d822397d81625ae9a7431fcaa530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 01/45] fix: constant folding of division by zero, INT64_MIN /
 -1 and signed overflow

---
 src/ir/operators.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..3a0f662 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -89,8 +89,9 @@ int operators_constant(enum operator_type op,
 		default: NOTIMP();
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
-		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
+		// Division by zero and INT64_MIN / -1 have no value.
+		if ((op == OP_DIV || op == OP_MOD) &&
+			(rhs.int_d == 0 || (rhs.int_d == -1 && lhs.int_d == INT64_MIN)))
 			return 0;
 
 		switch (op) {
@@ -112,7 +113,13 @@ int operators_constant(enum operator_type op,
 		case OP_NOT_EQUAL: res.int_d = lhs.int_d != rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		// Overflow is undefined, but the constant must stay in the range of its type.
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+
 		int sign = 0;
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
@@ -178,6 +185,8 @@ int operators_constant_unary(enum unary_operator_type op,
 		case UOP_BNOT: res.int_d = ~rhs.int_d; break;
 		default: NOTIMP();
 		}
+
+		constant_normalize(&res);
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		switch (op) {
 		case UOP_PLUS: res.uint_d = +rhs.uint_d; break;
-- 
2.43.0


From 24bce0bc5e818fa814a85fb95d502e554d09b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 02/45] fix: conversion of constants to _Bool

---
 src/arch/x64.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..97de5fe 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,7 +507,15 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
-	if (from_int && to_int) {
+	if (target == ST_BOOL && (from_type == ST_DOUBLE || from_type == ST_FLOAT)) {
+		if (from_type == ST_DOUBLE ? from.double_d != 0 : from.float_d != 0)
+			from.uint_d = 1;
+		else
+			from.uint_d = 0;
+	} else if (target == ST_BOOL && from_int) {
+		if (from.uint_d)
+			from.uint_d = 1;
+	} else if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
 		constant_uint range_max = r.max == -1 ? 0 : (((constant_uint)1 << (r.max - 1)) - 1
-- 
2.43.0


From 1bd2ece929b93dfa22698a4255146a652b9fb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 03/45] fix: integer promotion of const-qualified bit-fields

---
 src/parser/expression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..1f99ab0 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -52,6 +52,8 @@ static enum simple_type get_arithmetic_type(enum simple_type a, int bitfield_a,
 }
 
 static int get_expression_bitfield(struct expr *expr) {
+	if (expr->type == E_CONST_REMOVE)
+		return get_expression_bitfield(expr->args[0]);
 	if (expr->type == E_DOT_OPERATOR) {
 		assert(expr->member.lhs->data_type->type == TY_STRUCT);
 		struct struct_data *data = expr->member.lhs->data_type->struct_data;
-- 
2.43.0


From 3c5bf63848f0075ca6e06d55daa24e5ccec23130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 04/45] fix: shift assignment is done in the promoted type of
 its left operand

---
 src/parser/expression.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 1f99ab0..23e0b6f 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -350,7 +350,13 @@ static void fix_assignment_operators(struct expr *expr) {
 	if (expr->type != E_ASSIGNMENT_OP)
 		return;
 
-	convert_arithmetic(&expr->args[0], &expr->args[1]);
+	if (expr->assignment_op.op == OP_LSHIFT ||
+		expr->assignment_op.op == OP_RSHIFT) {
+		// The type is that of the promoted left operand. See 6.5.7.
+		expr->args[1] = expression_cast(expr->args[1], expr->args[0]->data_type);
+	} else {
+		convert_arithmetic(&expr->args[0], &expr->args[1]);
+	}
 	// Reduce double cast into single cast. Always correct in this case.
 	if (expr->args[0]->type == E_CAST) {
 		if (expr->args[0]->cast.arg->type == E_CAST)
-- 
2.43.0


From 95814fcc18ce3963c4173c17da8203d9de5096d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 05/45] fix: zero test of float and double constants

---
 src/parser/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 23e0b6f..6afcb2a 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1109,9 +1109,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
-- 
2.43.0


From 2971e04c12799b6d642c1355facb0017d0fde3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 06/45] fix: switch on the promoted type of the controlling
 expression

---
 src/parser/function_parser.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..45a33b0 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type;
 };
 
 static struct function_scope {
@@ -81,14 +82,15 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
 
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -155,7 +157,8 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	condition = EXPR_UNARY_OP(UOP_PLUS, condition); // Integer promotion.
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -171,6 +174,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-- 
2.43.0


From ce0778b9a8a590a36fd46c3e637af2551152bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 07/45] fix: unsigned division at run time

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From 26d371102da548e3fdf702f05eb667cd978d99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:49 +0000
Subject: [PATCH 08/45] fix: comparisons of 8-byte operands have the size of an
 int

---
 src/parser/expression_to_ir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..fbe2704 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -438,6 +438,10 @@ static struct evaluated_expression evaluate_binary_operator(struct expr *expr) {
 
 	struct node *res = ir_binary_op(ir_from_type_and_op(expr->args[0]->data_type, expr->binary_op), lhs_var, rhs_var);
 
+	// Comparisons have the size of their operands, but are of type int.
+	if (res->size != calculate_size(expr->data_type))
+		res = ir_cast_int(res, calculate_size(expr->data_type), 0);
+
 	return (struct evaluated_expression) {
 		.type = EE_VARIABLE,
 		.variable = res
-- 
2.43.0


From 13ff34d0d4a18633ef98dfb1add1376592aef9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 09/45] fix: conditions are compared with zero in their own
 type

---
 src/parser/expression_to_ir.c | 22 +++++++++++++++++-----
 src/parser/expression_to_ir.h |  2 +-
 src/parser/function_parser.c  |  8 ++++----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index fbe2704..e781589 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -133,6 +133,12 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
+		if (type_is_floating(operand_type)) {
+			// Negative zero is also zero.
+			struct node *zero = ir_constant((struct constant) {
+					.type = CONSTANT_TYPE, .data_type = operand_type });
+			operand_var = ir_binary_op(IR_FLT_NOT_EQUAL, operand_var, zero);
+		}
 		res = ir_bool_cast(operand_var);
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
@@ -205,6 +211,14 @@ static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_e
 	}
 }
 
+// A value that is non-zero exactly if the expression compares unequal to 0.
+static struct node *evaluated_expression_to_condition(struct evaluated_expression *condition) {
+	if (type_is_floating(condition->data_type))
+		*condition = evaluated_expression_cast(condition, type_simple(ST_BOOL));
+
+	return evaluated_expression_to_var(condition);
+}
+
 // The following functions are called in expression_evaluate.
 static struct evaluated_expression evaluate_indirection(struct expr *expr) {
 	struct evaluated_expression rhs = expression_evaluate(expr->args[0]);
@@ -539,7 +553,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 
 static struct evaluated_expression evaluate_conditional(struct expr *expr) {
 	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
-	struct node *condition_var = evaluated_expression_to_var(&condition);
+	struct node *condition_var = evaluated_expression_to_condition(&condition);
 
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
@@ -747,11 +761,9 @@ struct node *expression_to_size_t(struct expr *expr) {
 	return res;
 }
 
-struct node *expression_to_int(struct expr *expr) {
+struct node *expression_to_condition(struct expr *expr) {
 	struct evaluated_expression ee = expression_evaluate(expr);
-	ee = evaluated_expression_cast(&ee, type_simple(ST_INT));
-	struct node *res = evaluated_expression_to_var(&ee);
-	return res;
+	return evaluated_expression_to_condition(&ee);
 }
 
 void expression_to_void(struct expr *expr) {
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..596dc82 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -9,7 +9,7 @@ struct node *expression_to_ir(struct expr *expr);
 struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
-struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 45a33b0..b981255 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -199,7 +199,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -261,7 +261,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -305,7 +305,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -372,7 +372,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	struct expr *condition = parse_expression();
 	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+		struct node *condition_variable = expression_to_condition(condition);
 
 		struct node *block_true, *block_false;
 		ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From 0a7ee019a661aeca569b88df79d02bdabed7f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 10/45] fix: bit-field layout follows the System V ABI

---
 src/arch/x64.c | 94 +++++++++++++++++++-------------------------------
 1 file changed, 36 insertions(+), 58 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 97de5fe..b625296 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -216,81 +216,59 @@ static int calculate_alignment_with_max(struct type *type, int packing) {
 }
 
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
+	int current_offset = 0, current_bit = 0; // current_bit is in the range 0-7.
 	int max_offset = 0;
 	int alignment = 1;
 
-	int last_bit_offset = 0;
 	for (int i = 0; i < data->n; i++) {
 		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
+		int bitfield = data->fields[i].bitfield;
+		int field_alignment = calculate_alignment_with_max(field, data->packing);
 
-		if (data->fields[i].bitfield == 0)
-			continue;
-
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
-
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
-
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
-			}
-
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
-		} else {
-			last_bit_offset = 0;
-		}
+		if (data->is_union)
+			current_offset = current_bit = 0;
 
 		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
+		if (i != data->n - 1 || field->type != TY_INCOMPLETE_ARRAY) {
 			new_size = calculate_size(field);
 			if (new_size == -1)
 				ICE("%s has invalid size", dbg_type(field));
 		}
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
+		// A bit-field shares the previous storage unit if it fits in a unit of its own type.
+		int bit_offset = 8 * (current_offset % field_alignment) + current_bit;
+		if (bitfield <= 0 || bit_offset + bitfield > 8 * new_size) {
+			if (current_bit != 0)
+				current_offset++;
+			current_offset = round_up_to_nearest(current_offset, field_alignment);
+			bit_offset = current_bit = 0;
+		}
+
+		if (bitfield == 0)
+			continue;
+
+		data->fields[i].offset = current_offset - current_offset % field_alignment;
+		data->fields[i].bit_offset = bit_offset;
+
+		if (bitfield == -1) {
 			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
 		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
+			current_offset = data->fields[i].offset + (bit_offset + bitfield) / 8;
+			current_bit = (bit_offset + bitfield) % 8;
 		}
-	}
 
-	if (data->packing > 0 && alignment > data->packing)
-		alignment = data->packing;
+		int end_offset = current_offset + (current_bit != 0);
+		// The whole unit is accessed, which padding might not make room for if packed.
+		if (bitfield != -1 && data->packing > 0)
+			end_offset = data->fields[i].offset + new_size;
+		if (end_offset > max_offset)
+			max_offset = end_offset;
+
+		// Unnamed bit-fields don't affect the alignment.
+		if ((bitfield == -1 || data->fields[i].name.len != 0) &&
+			field_alignment > alignment)
+			alignment = field_alignment;
+	}
 
 	data->size = round_up_to_nearest(max_offset, alignment);
 	data->alignment = alignment;
-- 
2.43.0


From 2bc1186ca76cb6a4ae1ba3ce68070ba2706cfec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 11/45] fix: keep macro hide sets in the order their operations
 assume

---
 src/preprocessor/string_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/string_set.c b/src/preprocessor/string_set.c
index a0dbc58..dcbc22c 100644
--- a/src/preprocessor/string_set.c
+++ b/src/preprocessor/string_set.c
@@ -81,7 +81,7 @@ void string_set_insert(struct string_set *a, char *str) {
 
 	int s = 0, cmp = 0;
 	for (; s < a->size; s++) {
-		if ((cmp = strcmp(a->strings[s], str)) <= 0)
+		if ((cmp = strcmp(a->strings[s], str)) >= 0)
 			break;
 	}
 
-- 
2.43.0


From 633ba1ddb5c73184b42e88f2977a1831b2eb83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 12/45] fix: value of hexadecimal escape sequences

---
 src/escape_sequence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From c5f9e7debd2d37a327f4181447eb220f33889090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 13/45] fix: end of a comment after an even number of stars

---
 src/preprocessor/tokenizer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..84d6958 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -217,8 +217,8 @@ restart:
 			goto restart;
 
 		case '*':
+			next_char();
 			for (;;) {
-				next_char();
 				if (c == '*') {
 					next_char();
 					if (c == '/') {
@@ -227,6 +227,8 @@ restart:
 					}
 				} else if (c == EQ_NULL) {
 					ERROR(pos, "Comment reached end of file");
+				} else {
+					next_char();
 				}
 			}
 			next.whitespace = 1;
-- 
2.43.0


From baed9138dfddd613ed3e6441187f93e3e765b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:49 +0000
Subject: [PATCH 14/45] fix: line splices and escaped backslashes next to
 universal character names

---
 src/preprocessor/tokenizer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 84d6958..34ba5dd 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -61,10 +61,12 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	ret_str[len] = '\0';
 
 	char *read, *write;
-	// Remove '\\n':
+	// Remove "\\\n" and "\\\r\n":
 	for (write = read = ret_str; *read; read++) {
 		if (read[0] == '\\' && read[1] == '\n')
 			read += 1;
+		else if (read[0] == '\\' && read[1] == '\r' && read[2] == '\n')
+			read += 2;
 		else
 			*write++ = *read;
 	}
@@ -94,6 +96,10 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 			utf8_encode(codepoint, encoded);
 			for (int i = 0; i < 4 && encoded[i]; i++)
 				*write++ = encoded[i];
+		} else if (read[0] == '\\' && read[1]) {
+			// Another escape sequence, "\\u" is not a universal character name.
+			*write++ = *read++;
+			*write++ = *read;
 		} else {
 			*write++ = *read;
 		}
-- 
2.43.0


From 2b954d4f0b7fd13fdbf738db738da9c9ebdfcd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 15/45] fix: types of operands and results in #if expressions

---
 src/preprocessor/directives.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..682e2a4 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -236,9 +236,12 @@ static struct result evaluate_expression(int prec, int evaluate) {
 	} else if (t.type == T_SUB) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
 		expr = RESULT_UNARY(-, rhs);
+	} else if (t.type == T_BNOT) {
+		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
+		expr = RESULT_UNARY(~, rhs);
 	} else if (t.type == T_NOT) {
 		struct result rhs = evaluate_expression(PREFIX_PREC, evaluate);
-		expr = RESULT_UNARY(!, rhs);
+		expr = result_signed(result_is_zero(rhs));
 	} else if (t.type == T_LPAR) {
 		expr = evaluate_expression(0, evaluate);
 		struct token rpar = buffer_next();
@@ -251,7 +254,12 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			ERROR(t.pos, "Floating point arithmetic in the preprocessor is not allowed.");
 		if (!type_is_integer(c.data_type))
 			ERROR(t.pos, "Preprocessor variables must be of integer type.");
-		if (is_signed(c.data_type->simple))
+		// All types act as (u)intmax_t, only the suffix or the value makes it unsigned.
+		int has_u_suffix = 0;
+		for (int i = 0; i < t.str.len; i++)
+			if (t.str.str[i] == 'u' || t.str.str[i] == 'U')
+				has_u_suffix = 1;
+		if (!has_u_suffix && c.uint_d <= INTMAX_MAX)
 			expr = result_signed(c.int_d);
 		else
 			expr = result_unsigned(c.uint_d);
@@ -272,6 +280,8 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			assert(colon.type == T_COLON);
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
 			expr = !result_is_zero(expr) ? mid : rhs;
+			if (!mid.is_signed || !rhs.is_signed)
+				expr = result_unsigned(expr.u);
 		} else if (t.type == T_AND) {
 			struct result rhs = evaluate_expression(new_prec, !result_is_zero(expr) ? evaluate : 0);
 			expr = result_signed(!result_is_zero(expr) && !result_is_zero(rhs));
@@ -283,7 +293,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 			struct result rhs = evaluate_expression(new_prec, evaluate);
 
 			// Integer -> Unsigned integer promotion.
-			if (rhs.is_signed && !expr.is_signed)
+			if (t.type == T_LSHIFT || t.type == T_RSHIFT)
+				; // The result has the type of the left operand.
+			else if (rhs.is_signed && !expr.is_signed)
 				rhs = result_unsigned(rhs.i);
 			else if (!rhs.is_signed && expr.is_signed)
 				expr = result_unsigned(expr.i);
-- 
2.43.0


From 79255f7871b04c2d1abb06275f894ea96cd34799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 16/45] fix: character tables have an entry for every character

---
 src/character_types.c | 2 +-
 src/escape_sequence.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/character_types.c b/src/character_types.c
index 9835ee7..f694cf5 100644
--- a/src/character_types.c
+++ b/src/character_types.c
@@ -10,7 +10,7 @@ enum {
 	C_IDENTIFIER_NONDIGIT = 0x20,
 };
 
-static const unsigned char char_props[UCHAR_MAX] = {
+static const unsigned char char_props[UCHAR_MAX + 1] = {
 	['\t'] = 0x10, 0x10, 0x10, 0x10,
 	[' '] = 0x10, ['$'] = 0x20,
 	['_'] = 0x20,
diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index dc9911f..3d4153b 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -53,7 +53,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 	return 1;
 }
 
-static const unsigned char needs_no_escape[CHAR_MAX] = {
+static const unsigned char needs_no_escape[CHAR_MAX + 1] = {
 	['A'] = 1, ['B'] = 1, ['C'] = 1, ['D'] = 1, ['E'] = 1,
 	['F'] = 1, ['G'] = 1, ['H'] = 1, ['I'] = 1, ['J'] = 1,
 	['K'] = 1, ['L'] = 1, ['M'] = 1, ['N'] = 1, ['O'] = 1,
@@ -74,7 +74,7 @@ static const unsigned char needs_no_escape[CHAR_MAX] = {
 	['}'] = 1, ['~'] = 1, [' '] = 1,
 };
 
-static const unsigned char has_simple_escape[CHAR_MAX] = {
+static const unsigned char has_simple_escape[CHAR_MAX + 1] = {
 	['\n'] = 'n',
 	['\t'] = 't',
 	['\"'] = '\"',
@@ -84,7 +84,7 @@ static const unsigned char has_simple_escape[CHAR_MAX] = {
 
 // Some assemblers don't support escape codes like \a,
 // these are here referred to as "complicated".
-static const unsigned char has_complicated_escape[CHAR_MAX] = {
+static const unsigned char has_complicated_escape[CHAR_MAX + 1] = {
 	['?'] = '?',
 	['\a'] = 'a',
 	['\b'] = 'b',
-- 
2.43.0


From fa7c6ca11d2ebc6ca15a71f8016a36a82398627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 17/45] fix: comparisons in #if operands that are not evaluated
 are signed

---
 src/preprocessor/directives.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 682e2a4..997bc76 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -327,6 +327,9 @@ static struct result evaluate_expression(int prec, int evaluate) {
 				default:
 					ERROR(t.pos, "Invalid infix %s", dbg_token(&t));
 				}
+			} else if (t.type == T_EQ || t.type == T_NEQ || t.type == T_LEQ ||
+					   t.type == T_GEQ || t.type == T_L || t.type == T_G) {
+				expr = result_signed(0);
 			}
 		}
 
-- 
2.43.0


From e29dc8fcb99499a72c32c4941965ea4284fd588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:11 +0000
Subject: [PATCH 18/45] fix: a zero-width bit-field at the end of a struct is
 part of its size

---
 src/arch/x64.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index b625296..dd0a8df 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -244,8 +244,11 @@ void calculate_offsets(struct struct_data *data) {
 			bit_offset = current_bit = 0;
 		}
 
-		if (bitfield == 0)
+		if (bitfield == 0) {
+			if (current_offset > max_offset)
+				max_offset = current_offset;
 			continue;
+		}
 
 		data->fields[i].offset = current_offset - current_offset % field_alignment;
 		data->fields[i].bit_offset = bit_offset;
-- 
2.43.0


From f1c5fd200f5a031800165a8d715688de9564fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 19/45] fix: the value of an assignment to a bit-field is the
 value of the field

---
 src/parser/expression_to_ir.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index e781589..cbf1bdc 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -211,6 +211,14 @@ static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_e
 	}
 }
 
+// The value of an assignment is the value of the left operand after it.
+static struct node *assigned_value(struct evaluated_expression *lhs, struct node *var) {
+	if (lhs->type != EE_BITFIELD_POINTER)
+		return var;
+
+	return ir_get_bits(var, 0, lhs->bitfield_pointer.bitfield, lhs->bitfield_pointer.sign_extend);
+}
+
 // A value that is non-zero exactly if the expression compares unequal to 0.
 static struct node *evaluated_expression_to_condition(struct evaluated_expression *condition) {
 	if (type_is_floating(condition->data_type))
@@ -507,6 +515,13 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assign_ee_to_ee(&lhs, &rhs);
 
+	if (lhs.type == EE_BITFIELD_POINTER) {
+		return (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.variable = assigned_value(&lhs, evaluated_expression_to_var(&rhs))
+		};
+	}
+
 	return rhs;
 }
 
@@ -538,7 +553,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = assigned_value(&lhs, lhs_var);
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From 0117687dee67e23feaf3eea86d190dcaa67ed686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:34 +0000
Subject: [PATCH 20/45] fix: comparisons of floating operands with a NaN

---
 src/assembler/instructions.h   |  2 ++
 src/codegen/binary_operators.h | 26 +++++++++++++-------------
 src/codegen/codegen.c          | 16 ++++++++++++++++
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..73f4e49 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -206,6 +206,8 @@ struct encoding encodings[] = {
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
 	{"sall", 0xd3, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(4), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..dc8bf3a 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -21,9 +21,11 @@
 		{"movd", {XMM_(0), R4_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_32(MNEMONIC) {				\
-		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
-		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
+// Unordered operands set CF, so an ordering is tested by a condition that needs
+// CF clear, with the operands exchanged if necessary.
+#define BINARY_COMP_FLT_32(MNEMONIC, LHS, RHS) {		\
+		{"movd", {R4_(REG_RAX), XMM_(LHS)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(RHS)}},		\
 		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
 		{"ucomiss", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
@@ -46,9 +48,9 @@
 		{"movq", {XMM_(0), R8_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_64(MNEMONIC) {				\
-		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
-		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+#define BINARY_COMP_FLT_64(MNEMONIC, LHS, RHS) {		\
+		{"movq", {R8_(REG_RAX), XMM_(LHS)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(RHS)}},		\
 		{"ucomisd", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
@@ -57,7 +59,7 @@
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
-#define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT(M, L, R) BINARY_COMP_FLT_32(M, L, R), BINARY_COMP_FLT_64(M, L, R)
 
 static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
 	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
@@ -112,12 +114,10 @@ static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
 	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
 	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
 	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta", 1, 0) },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta", 0, 1) },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb", 1, 0) },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb", 0, 1) },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..1820740 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -232,6 +232,22 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		codegen_constant_to_rdi(&ins->constant.constant);
 		break;
 
+	case IR_FLT_EQUAL:
+	case IR_FLT_NOT_EQUAL: {
+		int is_double = ins->arguments[0]->size == 8, is_equal = ins->type == IR_FLT_EQUAL;
+		scalar_to_reg(ins->arguments[0], REG_RAX);
+		scalar_to_reg(ins->arguments[1], REG_RCX);
+		asm_ins2("movq", R8(REG_RAX), XMM(0));
+		asm_ins2("movq", R8(REG_RCX), XMM(1));
+		asm_ins2(is_double ? "ucomisd" : "ucomiss", XMM(1), XMM(0));
+		// Unordered operands set both ZF and PF.
+		asm_ins1(is_equal ? "sete" : "setne", R1(REG_RAX));
+		asm_ins1(is_equal ? "setnp" : "setp", R1(REG_RCX));
+		asm_ins2(is_equal ? "andl" : "orl", R4(REG_RCX), R4(REG_RAX));
+		asm_ins2("movzbl", R1(REG_RAX), R4(REG_RAX));
+		reg_to_scalar(REG_RAX, ins);
+	} break;
+
 	case IR_BINARY_NOT:
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		asm_ins1("notq", R8(REG_RAX));
-- 
2.43.0


From 01f9ef3344f193f5671e016da269a55963851f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 21/45] fix: conversion of negative char and short values to
 floating types

---
 src/codegen/codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 1820740..02c9466 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -377,9 +377,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
-- 
2.43.0


From daf8dfff16861e061ef3061e22d152652b259564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:04 +0000
Subject: [PATCH 22/45] fix: conversions between unsigned long and floating
 types from 2^63 on

---
 src/codegen/codegen.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 02c9466..da7c433 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -404,6 +404,15 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzbl", R1(REG_RAX), R4(REG_RAX));
 		} else if (size_rhs == 2) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
+		} else if (size_rhs == 8) {
+			// Only signed conversions exist. Halve large values, with the
+			// lost bit kept for rounding, and double the result.
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(63), R8(REG_RCX));
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RDX));
+			asm_ins2("andq", R8(REG_RCX), R8(REG_RDX));
+			asm_ins2("shrq", R1(REG_RCX), R8(REG_RAX));
+			asm_ins2("orq", R8(REG_RDX), R8(REG_RAX));
 		}
 
 		if (size_result == 4) {
@@ -415,14 +424,21 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		} else {
 			NOTIMP();
 		}
+
+		if (size_rhs == 8) {
+			label_id done = register_label();
+			asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+			asm_ins1("je", IMML_ABS(done, 0));
+			asm_ins2(size_result == 4 ? "addss" : "addsd", XMM(0), XMM(0));
+			asm_ins2("movq", XMM(0), R8(REG_RAX));
+			asm_label(0, done);
+		}
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
 	case IR_FLOAT_INT_CAST: {
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		int size_rhs = ins->arguments[0]->size;
-		// This is not the exact same as gcc and clang in the
-		// case of unsigned long. But within the C standard?
 		if (size_rhs == 4) {
 			asm_ins2("movd", R4(REG_RAX), XMM(0));
 			asm_ins2("cvttss2si", XMM(0), R8(REG_RAX));
@@ -430,6 +446,26 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movd", R8(REG_RAX), XMM(0));
 			asm_ins2("cvttsd2si", XMM(0), R8(REG_RAX));
 		}
+
+		if (ins->size == 8) {
+			// The result might be an unsigned value too large for the
+			// signed conversion, which then gives the most negative
+			// number: add the conversion of the operand less 2^63.
+			if (size_rhs == 4) {
+				asm_ins2("movl", IMM(0x5f000000), R4(REG_RCX));
+				asm_ins2("movd", R4(REG_RCX), XMM(1));
+				asm_ins2("subss", XMM(1), XMM(0));
+				asm_ins2("cvttss2si", XMM(0), R8(REG_RCX));
+			} else {
+				asm_ins2("movabsq", IMM(0x43e0000000000000), R8(REG_RCX));
+				asm_ins2("movq", R8(REG_RCX), XMM(1));
+				asm_ins2("subsd", XMM(1), XMM(0));
+				asm_ins2("cvttsd2si", XMM(0), R8(REG_RCX));
+			}
+			asm_ins0("cqto");
+			asm_ins2("andq", R8(REG_RDX), R8(REG_RCX));
+			asm_ins2("orq", R8(REG_RCX), R8(REG_RAX));
+		}
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
-- 
2.43.0


From 55bef1954732232f5d190ad78a05fc598d7b75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:50 +0000
Subject: [PATCH 23/45] fix: a string initializer does not write past the end
 of the array it initializes

---
 src/parser/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..ee7c484 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -945,6 +945,8 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			};
 
 			*type = type_create(&complete_array_params, (*type)->children);
+		} else if (str.len > calculate_size(*type)) {
+			str.len = calculate_size(*type); // The null character need not fit.
 		}
 
 		init->type = INIT_STRING;
-- 
2.43.0


From e60a627e8dae8fcfd43867c99661f4ecc0611815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:19 +0000
Subject: [PATCH 24/45] fix: a designator of the last member leaves the
 following comma to the surrounding object

---
 src/parser/declaration.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index ee7c484..ae4ad12 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -970,6 +970,20 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
 								 int inside_brace, int n, int *indices);
 
+// Number of members that can be initialized, -1 if there is no limit.
+static int get_max_members(struct type *type) {
+	switch (type->type) {
+	case TY_ARRAY:
+		return type->array.length;
+	case TY_INCOMPLETE_ARRAY:
+		return -1;
+	case TY_STRUCT:
+		// Advance until end of struct, or reaching a different offset.
+		return type->struct_data->is_union ? 1 : type->struct_data->n;
+	default: ICE("Invalid top type");
+	}
+}
+
 static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
 									int inside_brace, struct expr *expr) {
 	if (init->type == INIT_EMPTY)
@@ -978,22 +992,7 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 	if (!inside_brace)
 		TEXPECT(T_LBRACE);
 
-	int max_members = -1;
-	switch ((*type)->type) {
-	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
-	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
-	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
-	default: ICE("Invalid top type");
-	}
+	int max_members = get_max_members(*type);
 
 	if (max_members != -1 && inside_brace && idx >= max_members)
 		return;
@@ -1094,6 +1093,11 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 
 		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
 
+		// The comma after the last member belongs to the surrounding object.
+		int max_members = get_max_members(*type);
+		if (max_members != -1 && current_idx + 1 >= max_members)
+			return;
+
 		if (!TACCEPT(T_COMMA))
 			return;
 
-- 
2.43.0


From c448b67a2e763806644a246f22bf3403909d4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:35 +0000
Subject: [PATCH 25/45] fix: a braced initializer overrides the whole object it
 initializes

---
 src/parser/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index ae4ad12..d3b482e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1157,6 +1157,7 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 			init->expr = expression_cast(expr, *type);
 		}
 	} else if (T0->type == T_LBRACE && is_aggregate) {
+		init->type = INIT_EMPTY; // Overrides what was given for the object before.
 		parse_brace_initializer(type, init, 0, 0, NULL);
 	} else if (is_str && is_aggregate) {
 		parse_brace_initializer(type, init, current_idx, 1, expr);
-- 
2.43.0


From 3f02c489dee90c94f63c7107afd4dcf2fab1945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 26/45] fix: a struct tag is in scope inside its own braces,
 hiding outer tags

---
 src/parser/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d3b482e..1f738d9 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -363,6 +363,14 @@ int parse_struct(struct type_specifiers *ts) {
 		int fields_size = 0, fields_cap = 0;
 		struct field *fields = NULL;
 
+		// The tag is already in scope inside the braces (6.2.1p7).
+		if (!symbols_get_struct_in_current_scope(name)) {
+			struct symbol_struct *new_def = symbols_add_struct(name);
+			new_def->type = is_union ? STRUCT_UNION : STRUCT_STRUCT;
+			new_def->struct_data = register_struct();
+			*new_def->struct_data = (struct struct_data) { .name = name };
+		}
+
 		struct specifiers s;
 
 		while (parse_specifiers(&s.ts, NULL, &s.tq, NULL, &s.as)) {
-- 
2.43.0


From 2a1c1afe7b9164f1f2342c59d1b37ea92c8305c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:55 +0000
Subject: [PATCH 27/45] fix: an identifier of an inner scope hides a typedef of
 the same name

---
 src/parser/symbols.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/symbols.c b/src/parser/symbols.c
index 759370c..5ad4dff 100644
--- a/src/parser/symbols.c
+++ b/src/parser/symbols.c
@@ -239,6 +239,12 @@ struct symbol_typedef *symbols_add_typedef(struct string_view name) {
 
 struct symbol_typedef *symbols_get_typedef(struct string_view name) {
 	struct table_entry *entry = symbols_get(ENTRY_TYPEDEF, name);
+	struct table_entry *identifier = symbols_get(ENTRY_IDENTIFIER, name);
+
+	// An identifier of an inner scope hides the typedef.
+	if (entry && identifier && identifier->block > entry->block)
+		return NULL;
+
 	return entry ? &entry->typedef_data : NULL;
 }
 
-- 
2.43.0


From 86b320117eaad1838b58212bf56817ae11f68929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:37 +0000
Subject: [PATCH 28/45] fix: classification and registers of floating arguments
 and results per the psABI

---
 src/abi/sysv.c     | 35 ++++++++++++++++++++---------------
 src/arch/calling.c | 11 +++++------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..4bc8e9a 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -13,6 +13,8 @@
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
+enum { MAX_REGS = sizeof calling_convention / sizeof *calling_convention + 8 };
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -187,16 +189,16 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
+static void split_variable(struct node *variable_address, int size, int n_parts, struct node *parts[n_parts]) {
 	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
+		parts[i] = ir_load_part_address(variable_address, i * 8, MIN(size - i * 8, 8));
 }
 
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_REGS];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -274,7 +276,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 	} else if (c.ret_regs_size == 2) {
 		struct node *address = ir_allocate(calculate_size(return_type), 0);
 		ir_store_part_address(address, ret_reg_variables[0], 0);
-		ir_store_part_address(address, ret_reg_variables[1], 8);
+		ir_store_part_address(address, ir_cast_int(ret_reg_variables[1], calculate_size(return_type) - 8, 0), 8);
 		result = (struct evaluated_expression) {
 			.type = EE_POINTER,
 			.data_type = return_type,
@@ -291,7 +293,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_REGS];
 
 	struct sysv_data abi_data = { 0 };
 
@@ -377,19 +379,22 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
-	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
+	} else if (n_parts == 1) {
 		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
+		int is_sse = classes[0] == CLASS_SSE;
+		*reg_state = ir_set_reg(value_var, *reg_state, is_sse ? 0 : return_convention[0], is_sse);
+	} else if (n_parts == 2) {
 		struct node *value_address = evaluated_expression_to_address(value);
+		int size = calculate_size(value->data_type), gp_idx = 0, sse_idx = 0;
 		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
-	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
-		struct node *value_var = evaluated_expression_to_var(value);
-		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
+		split_variable(value_address, size, 2, parts);
+
+		for (int i = 0; i < 2; i++) {
+			if (classes[i] == CLASS_SSE)
+				*reg_state = ir_set_reg(parts[i], *reg_state, sse_idx++, 1);
+			else
+				*reg_state = ir_set_reg(parts[i], *reg_state, return_convention[gp_idx++], 0);
+		}
 	} else {
 		NOTIMP();
 	}
diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..afdf384 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -55,7 +55,7 @@ static void classify_recursively(enum parameter_class *current,
 			struct type *memb_type = data->fields[i].type;
 			int size = calculate_size(memb_type);
 			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -73,7 +73,7 @@ static void classify_recursively(enum parameter_class *current,
 			int size = calculate_size(memb_type);
 			int offset = size * i;
 
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -122,11 +122,10 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 					should_be_mem = 1;
 			}
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
+			// 3.2.3 Post merger cleanup part (c). Only vector types have SSEUP parts.
+			for (int i = 1; i < *n_parts && *n_parts > 2; i++) {
+				if (classes[0] != CLASS_SSE || classes[i] != CLASS_SSEUP)
 					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
 			}
 
 			if (should_be_mem) {
-- 
2.43.0


From 1819cc7661f5f044fb48b6486066d1b606157624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:37 +0000
Subject: [PATCH 29/45] fix: floating arguments of variadic functions

---
 src/abi/sysv.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 4bc8e9a..8885bd9 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -359,6 +359,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
         // Sized according to Figure 3.33 in sysV AMD64 ABI:
 		ir_allocate_preamble(304);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = 48 + c.rax * 16;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -416,6 +417,8 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+	for (int i = 0; i < 8; i++)
+		asm_ins2("movsd", XMM(i), MEM(48 + 16 * i - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -426,7 +429,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
 	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
@@ -441,6 +444,7 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	classify(type, &n_parts, classes);
 
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
 	// 1. Determine whether type may be passed in the registers. If not go to step 7
@@ -452,22 +456,27 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
+			else if (classes[i] == CLASS_SSE && n_parts == 1)
+				num_fp++;
 			else
 				NOTIMP();
 		}
 
+		int offset_offset = num_fp ? fp_offset_offset : gp_offset_offset;
+
 		// 3. Verify whether arguments fit into registers. In the case:
 		//     l->gp_offset > 48 − num_gp ∗ 8
 		// or
 		//     l->fp_offset > 304 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
+		// (Only the first 8 floating point registers are used, ending at 176.)
+		asm_ins2("movl", MEM(offset_offset, REG_RDI), R4(REG_RAX));
+		asm_ins2("cmpl", IMM(num_fp ? 176 - 16 * num_fp : 48 - 8 * num_gp), R4(REG_RAX));
 		asm_ins1("ja", IMML_ABS(stack_label, 0));
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
@@ -481,9 +490,9 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
+		asm_ins2("leal", MEM(num_gp * 8 + num_fp * 16, REG_RAX), R4(REG_RDX));
 		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
+		asm_ins2("movl", R4(REG_RDX), MEM(offset_offset, REG_RDI));
 		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
-- 
2.43.0


From 5584bb8bdfe3e5d892f430bf47d806c429d44c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 30/45] fix: functions returning in memory return the address
 in rax

---
 src/abi/sysv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 8885bd9..076f76d 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -380,6 +380,7 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, return_convention[0], 0);
 	} else if (n_parts == 1) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		int is_sse = classes[0] == CLASS_SSE;
-- 
2.43.0


From 2a7f4414471310be23f5d864dbe4e3b7ea6c7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 31/45] fix: vertical tab and form feed are white space

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 34ba5dd..9e33fc2 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
-- 
2.43.0


From c0e46f1342edefc80dd45259a5678f081a2603d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 32/45] fix: line splices in numbers with digit separators

---
 src/preprocessor/tokenizer.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 9e33fc2..5f8a758 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -109,11 +109,8 @@ static struct string_view remove_escape_sequences(const char *initial_pos) {
 	return sv_from_str(ret_str);
 }
 
-static struct string_view remove_digit_separator(const char *initial_pos) {
-	size_t len = str - initial_pos - 1;
-	char *ret_str = cc_malloc(len + 1);
-	memcpy(ret_str, initial_pos, len);
-	ret_str[len] = '\0';
+static struct string_view remove_digit_separator(struct string_view number) {
+	char *ret_str = sv_to_str(number);
 
 	char *write = ret_str;
 	// Remove '\\n':
@@ -482,7 +479,7 @@ restart:
 		next.str = remove_escape_sequences(initial_pos);
 
 	if (needs_digit_separator_removed)
-		next.str = remove_digit_separator(initial_pos);
+		next.str = remove_digit_separator(next.str);
 
 	if (next.type == T_IDENT && *is_directive) {
 		*is_header = sv_string_cmp(next.str, "include");
-- 
2.43.0


From a649583f352ba73766528d1f10593e57956e0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 33/45] fix: two periods are two preprocessing tokens

---
 src/preprocessor/tokenizer.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 5f8a758..f45697e 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -54,6 +54,15 @@ static void next_char(void) {
 	c = eq_table[(unsigned char)*str++];
 }
 
+// The character after c.
+static char peek_char(void) {
+	const char *next = str;
+	while (*next == '\\' &&
+	       (next[1] == '\n' || (next[1] == '\r' && next[2] == '\n')))
+		next += next[1] == '\n' ? 2 : 3;
+	return eq_table[(unsigned char)*next];
+}
+
 static struct string_view remove_escape_sequences(const char *initial_pos) {
 	size_t len = str - initial_pos - 1;
 	char *ret_str = cc_malloc(len + 1);
@@ -328,10 +337,10 @@ restart:
 			break;
 
 		case '.':
-			next_char();
-			if (c != '.')
-				ERROR(pos, "Invalid token");
-			TYPE(T_ELLIPSIS);
+			if (peek_char() == '.') {
+				next_char();
+				TYPE(T_ELLIPSIS);
+			}
 			break;
 		}
 		break;
-- 
2.43.0


From 04e7640a9bd707e0e5cd1ff01ead934b812c3e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 34/45] fix: digraphs

---
 src/preprocessor/tokenizer.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index f45697e..70ebe05 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -373,6 +373,8 @@ restart:
 				break;
 
 			case '=': TYPE(T_LEQ); break;
+			case ':': TYPE(T_LBRACK); break;
+			case '%': TYPE(T_LBRACE); break;
 			}
 		}
 		break;
@@ -456,12 +458,28 @@ restart:
 		TYPE(T_MOD);
 		switch (c) {
 		case '=': TYPE(T_MODA); break;
+		case '>': TYPE(T_RBRACE); break;
+		case ':':
+			TYPE(PP_HASH);
+			if (c == '%' && peek_char() == ':') {
+				next_char();
+				TYPE(PP_HHASH);
+			} else if (next.first_of_line) {
+				next.type = PP_DIRECTIVE;
+				*is_directive = 1;
+			}
+			break;
 		}
 		break;
 
 	case '~': TYPE(T_BNOT); break;
 	case '?': TYPE(T_QUEST); break;
-	case ':': TYPE(T_COLON); break;
+	case ':':
+		TYPE(T_COLON);
+		switch (c) {
+		case '>': TYPE(T_RBRACK); break;
+		}
+		break;
 	case ';': TYPE(T_SEMI_COLON); break;
 	case '(': TYPE(T_LPAR); break;
 	case ')': TYPE(T_RPAR); break;
-- 
2.43.0


From 3953abc1d7976eb78dd60bce6297ef89fa9d9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 35/45] fix: other characters are preprocessing tokens,
 identifiers may begin with a universal character name

---
 src/preprocessor/preprocessor.c |  3 +++
 src/preprocessor/tokenizer.c    | 31 ++++++++++++++++++++++---------
 src/preprocessor/tokens.h       |  1 +
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/preprocessor/preprocessor.c b/src/preprocessor/preprocessor.c
index 3153578..f60d62a 100644
--- a/src/preprocessor/preprocessor.c
+++ b/src/preprocessor/preprocessor.c
@@ -16,6 +16,9 @@ void t_next(void) {
 	ts.buffer[1] = ts.buffer[2];
 	ts.buffer[2] = ts.pushed.type ? ts.pushed : string_concat_next();
 	ts.pushed = (struct token) {0};
+
+	if (ts.buffer[2].type == PP_OTHER)
+		ERROR(ts.buffer[2].pos, "Invalid token");
 }
 
 void t_push(struct token t) {
diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 70ebe05..b88b862 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -133,6 +133,16 @@ static struct string_view remove_digit_separator(struct string_view number) {
 }
 
 
+// The hexadecimal digits are left to the caller, they continue identifiers and numbers.
+static int accept_universal_character_name(void) {
+	if (c != '\\' || (peek_char() != 'u' && peek_char() != 'U'))
+		return 0;
+	next_char();
+	next_char();
+	needs_escape_sequences_removed = 1;
+	return 1;
+}
+
 static void parse_number(void) {
 	for (;;) {
 		if (c == EQ_EXPONENT) {
@@ -151,7 +161,7 @@ static void parse_number(void) {
 		} else if (c == EQ_DECIMAL || c == '8' || c == EQ_ALPHA || c == 'u' ||
 		           c == 'U' || c == EQ_EXPONENT || c == 'L' || c == '.') {
 			next_char();
-		} else {
+		} else if (!accept_universal_character_name()) {
 			break;
 		}
 	}
@@ -181,13 +191,7 @@ static void parse_identifier(void) {
 		if (c == EQ_ALPHA || c == 'u' || c == 'U' || c == EQ_EXPONENT ||
 		    c == 'L' || c == EQ_DECIMAL || c == '8' || c == EQ_UTF8) {
 			next_char();
-		} else if (c == '\\') {
-			next_char();
-			if (c == 'u' || c == 'U') {
-				next_char();
-				needs_escape_sequences_removed = 1;
-			}
-		} else {
+		} else if (!accept_universal_character_name()) {
 			break;
 		}
 	}
@@ -320,6 +324,15 @@ restart:
 		parse_identifier();
 		break;
 
+	case '\\':
+		if (accept_universal_character_name()) {
+			next.type = T_IDENT;
+			parse_identifier();
+		} else {
+			TYPE(PP_OTHER);
+		}
+		break;
+
 	case '8':
 	case EQ_DECIMAL:
 		TYPE(T_NUM);
@@ -494,7 +507,7 @@ restart:
 		next.type = T_EOI;
 		break;
 
-	default: ERROR(next.pos, "Invalid token");
+	default: TYPE(PP_OTHER);
 	}
 
 	next.str = (struct string_view){
diff --git a/src/preprocessor/tokens.h b/src/preprocessor/tokens.h
index aa223d6..d1540c2 100644
--- a/src/preprocessor/tokens.h
+++ b/src/preprocessor/tokens.h
@@ -8,6 +8,7 @@ X(PP_HEADER_NAME_Q, "Header name")
 X(PP_HASH, "#")
 X(PP_HHASH, "##")
 X(PP_DIRECTIVE, "#")
+X(PP_OTHER, "Other character")
 
 // Conditional tokens.
 X(COND_IF, "Conditional")
-- 
2.43.0


From 4ddd09afcf66e48101b4d38f1ac403b7f2db14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:44 +0000
Subject: [PATCH 36/45] fix: the # operator spells punctuators as they are
 written

---
 src/preprocessor/macro_expander.c | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..8550ed2 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -188,7 +188,6 @@ static void stringify_add(struct token *t, int start) {
 	if (!start && (t->whitespace || stringify_whitespace))
 		stringify_add_char(' ');
 	stringify_whitespace = t->whitespace_after;
-	const char *str = NULL;
 	switch (t->type) {
 	case T_STRING:
 	case T_CHARACTER_CONSTANT:
@@ -200,32 +199,10 @@ static void stringify_add(struct token *t, int start) {
 		}
 		break;
 
-#define KEY(A, B)
-#define X(A, B)
-#define SYM(TOKEN, STR) case TOKEN: str = STR; break;
-		#include "tokens.h"
-#undef KEY
-#undef X
-#undef SYM
-
-	case PP_HASH:
-	case PP_DIRECTIVE:
-		str = "#";
-		break;
-
-	case PP_HHASH:
-		str = "##";
-		break;
-
 	default:
 		for (int i = 0; i < t->str.len; i++)
 			stringify_add_char(t->str.str[i]);
 	}
-
-	if (str) {
-		for (int i = 0; str[i]; i++)
-			stringify_add_char(str[i]);
-	}
 }
 
 static int builtin_macros(struct token *t) {
-- 
2.43.0


From bd9602c24254d36dd7eb2da88ccc4167c64260a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:16 +0000
Subject: [PATCH 37/45] fix: e and p after a digit separator

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index b88b862..401119c 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -151,7 +151,7 @@ static void parse_number(void) {
 				next_char();
 		} else if (c == '\'') {
 			next_char();
-			if (c == '8' || c == EQ_DECIMAL || c == EQ_ALPHA ||
+			if (c == '8' || c == EQ_DECIMAL || c == EQ_ALPHA || c == EQ_EXPONENT ||
 				c == 'u' || c == 'U' || c == 'L') {
 				needs_digit_separator_removed = 1;
 				next_char();
-- 
2.43.0


From 64f78a7cad4263eab784fc1619e0a6157a1c8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 38/45] fix: symbols defined in another object keep their value

---
 src/linker/linker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..4ef8e09 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -77,8 +77,8 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 			for (unsigned j = 0; j < object.symbol_size; j++) {
 				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
 					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
-						if (object.symbols[j].section != -1)
-							found_section = object.symbols[j].section;
+						found_section = object.symbols[j].section;
+						symbol->value = object.symbols[j].value;
 					}
 				}
 			}
-- 
2.43.0


From ca8a4a3b788e48a7573660973b651bf389fceed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 39/45] fix: sections are aligned as their most aligned object,
 at any offset

---
 src/linker/object.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..9dce08e 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -103,10 +103,8 @@ void object_write_zero(size_t size) {
 void object_align(size_t alignment) {
 	struct section *section = &current_object.sections[current_section];
 	size_t remainder = section->size % alignment;
-	if (remainder == 0)
-		return;
-
-	object_write_zero(alignment - remainder);
+	if (remainder != 0)
+		object_write_zero(alignment - remainder);
 	section->alignment = MAX(section->alignment, alignment);
 }
 
-- 
2.43.0


From 035faa7729e4311ddb146d4a1987c6670668d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 40/45] fix: linking places sections at multiples of their
 alignment

---
 src/linker/elf.c    |  1 +
 src/linker/linker.c | 13 ++++++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..0d1902c 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -217,6 +217,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			.size = elf_section->size,
 			.cap = elf_section->size,
 			.data = elf_section->data,
+			.alignment = elf_section->header.sh_addralign,
 		};
 
 		if (elf_section->header.sh_name)
diff --git a/src/linker/linker.c b/src/linker/linker.c
index 4ef8e09..0da4a76 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -116,13 +116,12 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	// Move sections into segment.
 	for (unsigned i = 0; i < object->section_size; i++) {
 		struct section *section = &object->sections[i];
-		uint8_t *dest = segment->data;
-		if (section->size) {
-			dest = ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size);
-			memcpy(dest, section->data, section->size);
-		}
-
-		size_t offset = dest - segment->data;
+		size_t offset = round_up_to_nearest(segment->size, MAX(section->alignment, 1));
+		size_t padding = offset - segment->size;
+		if (padding)
+			memset(ADD_ELEMENTS(segment->size, segment->cap, segment->data, padding), 0, padding);
+		if (section->size)
+			memcpy(ADD_ELEMENTS(segment->size, segment->cap, segment->data, section->size), section->data, section->size);
 
 		section_infos[i] = (struct section_info) {
 			.offset = offset,
-- 
2.43.0


From 41e8bb4d24763d148643a6c5487f0fee83d63909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 41/45] fix: undefined symbols have no section

---
 src/linker/linker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index 0da4a76..cf1e641 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -168,6 +168,8 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
+		if (symbol->section == -1)
+			continue;
 
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
-- 
2.43.0


From 415915b6e632b6fbf32d99215d87ba31f883fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:55 +0000
Subject: [PATCH 42/45] fix: relocations in ELF files with more than 65535
 symbols

---
 src/linker/elf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 0d1902c..ffd2d5a 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -298,7 +298,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			*relocation = (struct object_relocation) {
 				.add = r_addend,
 				.offset = r_offset,
-				.idx = symbol_mapping[(r_info >> 32) & 0xffff],
+				.idx = symbol_mapping[r_info >> 32],
 				.type = type,
 			};
 		}
-- 
2.43.0


From 2387c5e892c15f923d479c08f4468ac363d503a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 43/45] fix: offsets of labels in relative operands

---
 src/assembler/assembler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..6f4f378 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -210,7 +210,7 @@ static void asm_ins_impl(const char *mnemonic, struct operand ops[4]) {
 
 			case 4:
 				if (rel->relative)
-					object_symbol_relocate(rel->label, rel->offset, -(len - rel->offset), RELOCATE_32_RELATIVE);
+					object_symbol_relocate(rel->label, rel->offset, rel->imm - (len - rel->offset), RELOCATE_32_RELATIVE);
 				else
 					object_symbol_relocate(rel->label, rel->offset, rel->imm, RELOCATE_32);
 				break;
-- 
2.43.0


From bd44038a45d9720eec94c3fde609ed91f46a0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:23 +0000
Subject: [PATCH 44/45] fix: code points above 0xffff in u"" literals are
 surrogate pairs

---
 src/preprocessor/string_concat.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/preprocessor/string_concat.c b/src/preprocessor/string_concat.c
index bb7a3c5..05cef46 100644
--- a/src/preprocessor/string_concat.c
+++ b/src/preprocessor/string_concat.c
@@ -87,6 +87,14 @@ static int escape_char_to_buffer(struct string_view *input,
 		buffer_write((character >> 24) & 0xff);
 		break;
 	case STRING_U_SMALL:
+		// Code points above 0xffff are a pair of surrogates.
+		if (character > 0xffff && character <= 0x10ffff) {
+			uint32_t high = 0xd800 + ((character - 0x10000) >> 10);
+			buffer_write(high & 0xff);
+			buffer_write((high >> 8) & 0xff);
+			character = 0xdc00 + (character & 0x3ff);
+		}
+
 		buffer_write(character & 0xff);
 		buffer_write((character >> 8) & 0xff);
 		break;
-- 
2.43.0


From d83e86d2652dc117d6ad21f94eea16018d46474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:23 +0000
Subject: [PATCH 45/45] fix: a tag declared in an inner scope hides the outer
 one

---
 src/parser/declaration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 1f738d9..cf71338 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -488,7 +488,9 @@ int parse_struct(struct type_specifiers *ts) {
 
 		return 1;
 	} else {
-		struct symbol_struct *def = symbols_get_struct(name);
+		// `struct S;' declares a type of its own scope (6.7.2.3p7).
+		struct symbol_struct *def = T0->type == T_SEMI_COLON ?
+			symbols_get_struct_in_current_scope(name) : symbols_get_struct(name);
 
 		if(!def) {
 			def = symbols_add_struct(name);
-- 
2.43.0

