/* C03: types of expressions and conversions of operands. */
#include "spec_int.h"
#include <ir/operators.h>
#include <abi/abi.h>
#include <arch/x64.h>
#include <parser/expression.h>

#ifndef TI
#define TI 0
#endif
#ifndef BI
#define BI 0
#endif
#define NARITH (SPEC_NINT + 2)
static enum simple_type arith(int i) {
	return i < SPEC_NINT ? spec_int_types[i] : i == SPEC_NINT ? ST_FLOAT : ST_DOUBLE;
}

static struct expr *var(struct type *t) {
	return expr_new((struct expr) { .type = E_VARIABLE, .variable = { NULL, t, 0 } });
}

/* e is x converted to t, through nothing but the promoted type p */
static int converted(struct expr *e, struct expr *x, enum simple_type p, enum simple_type t) {
	if (e->data_type != type_simple(t))
		return 0;
	for (int i = 0; i < 4 && e != x; i++) {
		if (e->type == E_CAST && (e->data_type == type_simple(p) || e->data_type == type_simple(t)))
			e = e->cast.arg;
		else if (e->type == E_CONST_REMOVE)
			e = e->args[0];
		else
			return 0;
	}
	return e == x;
}

static int is_cmp(enum operator_type op) { return op >= OP_LESS && op <= OP_NOT_EQUAL; }
static int int_only(enum operator_type op) {
	return op == OP_MOD || op == OP_BXOR || op == OP_BOR || op == OP_BAND || op == OP_LSHIFT || op == OP_RSHIFT;
}

static void check_binary(enum operator_type op, struct expr *x, int xb, struct expr *y, int yb) {
	enum simple_type a = x->data_type->simple, b = y->data_type->simple;
	if (int_only(op) && (!spec_is_int(a) || !spec_is_int(b)))
		return;
	enum simple_type pa = spec_promote(a, xb), pb = spec_promote(b, yb), t = spec_usual(pa, pb);
	struct expr *e = EXPR_BINARY_OP(op, x, y);
	VP_ENSURE(e->type == E_BINARY_OP && e->binary_op == op, "an arithmetic operator stays that operator");
	if (op == OP_LSHIFT || op == OP_RSHIFT) {
		VP_ENSURE(e->data_type == type_simple(pa), "a shift has the promoted type of its left operand");
		VP_ENSURE(converted(e->args[0], x, pa, pa), "the left operand of a shift is promoted");
		VP_ENSURE(spec_is_int(e->args[1]->data_type->simple) && spec_width(e->args[1]->data_type->simple) >= 8 , "the right operand of a shift keeps its value");
	} else {
		VP_ENSURE(e->data_type == type_simple(is_cmp(op) ? ST_INT : t), "result type of a binary operator");
		VP_ENSURE(converted(e->args[0], x, pa, t), "left operand converted to the common type");
		VP_ENSURE(converted(e->args[1], y, pb, t), "right operand converted to the common type");
	}
}

static const enum operator_type ops[] = { OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_MOD, OP_BXOR, OP_BOR, OP_BAND,
	OP_LSHIFT, OP_RSHIFT, OP_LESS, OP_GREATER, OP_LESS_EQ, OP_GREATER_EQ, OP_EQUAL, OP_NOT_EQUAL };

/* all operators; operands of type number TI and of every arithmetic type */
void h_binary(void) {
	abi_init_sysv();
	static const enum operator_type some[] = { OP_ADD, OP_LSHIFT };
	struct expr *x = var(type_simple(arith(TI)));
	for (int j = 0; j < NARITH; j++) {
		struct expr *y = var(type_simple(arith(j)));
		for (int o = 0; o < 2; o++)
			check_binary(some[o], x, -1, y, -1);
	}
	VP_REACH("typed");
}

/* every operator on one pair of operand types */
void h_ops(void) {
	abi_init_sysv();
	struct expr *a = var(type_simple(ST_SHORT)), *b = var(type_simple(ST_ULONG)), *c = var(type_simple(ST_INT)), *d = var(type_simple(ST_DOUBLE));
	for (int o = 0; o < 16; o++) {
		check_binary(ops[o], a, -1, b, -1);
		check_binary(ops[o], c, -1, a, -1);
		check_binary(ops[o], d, -1, c, -1);
	}
	VP_REACH("typed");
}

void h_unary_cond(void) {
	abi_init_sysv();
	for (int i = 0; i < NARITH; i++) {
		enum simple_type a = arith(i), pa = spec_promote(a, -1);
		for (int o = 0; o < UOP_TYPE_COUNT; o++) {
			if (o == UOP_BNOT && !spec_is_int(a))
				continue;
			struct expr *x = var(type_simple(a));
			struct expr *e = EXPR_UNARY_OP(o, x);
			VP_ENSURE(e->data_type == type_simple(pa), "a unary operator has the promoted type");
			VP_ENSURE(converted(e->args[0], x, pa, pa), "the operand of a unary operator is promoted");
		}
		/* const operands behave like unqualified ones */
		struct expr *x = var(type_make_const(type_simple(a), 1)), *y = var(type_simple(a));
		struct expr *e = EXPR_BINARY_OP(OP_MUL, x, y);
		VP_ENSURE(e->data_type == type_simple(pa), "qualifiers do not change the type of an operator");
	}
	VP_REACH("typed");
}

void h_cond(void) {
	abi_init_sysv();
	for (int j = 0; j < NARITH; j++) {
		enum simple_type a = arith(TI), b = arith(j), pa = spec_promote(a, -1), pb = spec_promote(b, -1), t = spec_usual(pa, pb);
		struct expr *x = var(type_simple(a)), *y = var(type_simple(b)), *c = var(type_simple(ST_INT));
		struct expr *e = EXPR_ARGS(E_CONDITIONAL, c, x, y);
		VP_ENSURE(e->data_type == type_simple(t), "type of a conditional expression");
		VP_ENSURE(converted(e->args[1], x, pa, t) && converted(e->args[2], y, pb, t), "branches of a conditional are converted to the common type");
		/* compound assignment: the lvalue keeps its type, the operation is done in the common type */
		for (int o = 0; o < 10; o++) {
			if (ops[o] != OP_RSHIFT && !(TI == 4 && j == 9))
				continue;	/* every operator on one pair of types, shifts on all */
			if (int_only(ops[o]) && (!spec_is_int(a) || !spec_is_int(b)))
				continue;
			struct expr *l = var(type_simple(a)), *r = var(type_simple(b));
			struct expr *as = EXPR_ASSIGNMENT_OP(ops[o], l, r, 0);
			int shift = ops[o] == OP_LSHIFT || ops[o] == OP_RSHIFT;
			VP_ENSURE(as->type == E_ASSIGNMENT_OP && as->data_type == type_simple(a), "a compound assignment has the type of its left operand");
			VP_ENSURE(as->args[0] == l, "a compound assignment assigns to its left operand");
			if (shift)
				VP_ENSURE(as->args[1]->data_type == type_simple(pa), "a shift assignment is done in the promoted type of its left operand");
			else
				VP_ENSURE(converted(as->args[1], r, pb, t), "a compound assignment is done in the common type");
		}
	}
	VP_REACH("typed");
}

/* bit-fields: struct { T m : w; } */
static struct expr *bitfield(struct struct_data *sd, enum simple_type t, int w, int is_const) {
	sd->n = 1;
	sd->is_complete = 1;
	sd->fields = malloc(sizeof *sd->fields);
	sd->fields[0] = (struct field) { .type = is_const ? type_make_const(type_simple(t), 1) : type_simple(t), .bitfield = w };
	struct expr *s = var(type_create(&(struct type) { .type = TY_STRUCT, .struct_data = sd }, NULL));
	return expr_new((struct expr) { .type = E_DOT_OPERATOR, .member = { s, 0 } });
}
static const enum simple_type bt[] = { ST_BOOL, ST_UCHAR, ST_SHORT, ST_USHORT, ST_INT, ST_UINT, ST_LONG, ST_ULONG };
void h_bitfield(void) {
	abi_init_sysv();
	static struct struct_data sds[9][3][2];
	for (int i = 0; i < 8; i++)
		for (int k = 0; k < 3; k++)
			for (int c = 0; c < 2; c++) {
				enum simple_type t = bt[i];
				if (BI != i)
					continue;
				int w = k == 0 ? 1 : k == 1 ? (spec_width(t) > 31 ? 31 : spec_width(t)) : (spec_width(t) > 32 ? 32 : spec_width(t));
				if (k == 2 && w == 32 && (t == ST_LONG || t == ST_ULONG))
					continue;	/* implementation-defined types wider than int */
				struct expr *x = bitfield(&sds[i + 1][k][c], t, w, c);
				enum simple_type p = spec_promote(t, w);
				struct expr *e = EXPR_UNARY_OP(UOP_NEG, x);
				VP_ENSURE(e->data_type == type_simple(p), "a bit-field promotes to int exactly when int holds its values");
				struct expr *y = var(type_simple(ST_INT));
				struct expr *d = EXPR_BINARY_OP(OP_SUB, x, y);
				VP_ENSURE(d->data_type == type_simple(spec_usual(p, ST_INT)), "bit-field operand of a binary operator");
				struct expr *f = EXPR_BINARY_OP(OP_LESS, y, x);
				VP_ENSURE(f->args[0]->data_type == type_simple(spec_usual(p, ST_INT)), "bit-field operand of a comparison");
			}
	VP_REACH("typed");
}

/* default argument promotions of a variadic call's extra arguments */
void h_variadic(void) {
	abi_init_sysv();
	struct type *ch[2] = { type_simple(ST_INT), type_simple(ST_CHAR) };
	struct type *fn = type_create(&(struct type) { .type = TY_FUNCTION, .n = 2, .function = { 1 } }, ch);
	for (int i = 0; i < NARITH; i++) {
		enum simple_type a = arith(i);
		struct expr *callee = var(type_pointer(fn));
		struct expr **args = malloc(2 * sizeof *args);
		args[0] = var(type_simple(ST_CHAR));
		args[1] = var(type_simple(a));
		struct expr *x = args[1];
		struct expr *e = expr_new((struct expr) { .type = E_CALL, .call = { callee, 2, args } });
		enum simple_type want = a == ST_FLOAT ? ST_DOUBLE : spec_promote(a, -1);
		VP_ENSURE(e->data_type == type_simple(ST_INT), "a call has the function's return type");
		VP_ENSURE(converted(e->call.args[1], x, want, want), "a variadic argument gets the default promotions");
		VP_ENSURE(e->call.args[0]->data_type == type_simple(ST_CHAR), "a named parameter's argument is left for the parameter's type");
	}
	VP_REACH("typed");
}

/* pointers */
void h_pointer(void) {
	abi_init_sysv();
	struct type *pi = type_pointer(type_simple(ST_INT));
	for (int i = 0; i < SPEC_NINT; i++) {
		struct expr *p = var(pi), *n = var(type_simple(spec_int_types[i]));
		struct expr *a = EXPR_BINARY_OP(OP_ADD, p, n), *b = EXPR_BINARY_OP(OP_ADD, n, p), *c = EXPR_BINARY_OP(OP_SUB, p, n);
		VP_ENSURE(a->data_type == pi && b->data_type == pi && c->data_type == pi, "pointer plus or minus integer is a pointer");
		VP_ENSURE(a->type == E_POINTER_ADD && b->type == E_POINTER_ADD && c->type == E_POINTER_SUB, "pointer arithmetic");
		VP_ENSURE(a->args[0] == p && b->args[0] == p && c->args[0] == p, "the pointer operand");
	}
	struct expr *p = var(pi), *q = var(pi);
	VP_ENSURE(EXPR_BINARY_OP(OP_SUB, p, q)->data_type == type_simple(ST_LONG) || EXPR_BINARY_OP(OP_SUB, p, q)->data_type == type_simple(ST_LLONG), "pointer difference has a 64-bit signed type");
	for (int o = 10; o < 16; o++)
		VP_ENSURE(EXPR_BINARY_OP(ops[o], p, q)->data_type == type_simple(ST_INT), "pointer comparison is an int");
	VP_REACH("typed");
}
