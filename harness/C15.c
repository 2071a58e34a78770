/* C15: the IR built for a C expression over run-time operands denotes the C
 * value.  Operands are variables in ghost memory (ir_expr.h); the value of the
 * resulting IR is given by the ghost semantics (ghost_ir.h). */
#define GI_NLEAF 12
#include "ir_expr.h"
#include "spec_op.h"

#ifndef TA
#define TA ST_INT
#endif
#ifndef TB
#define TB ST_INT
#endif
#ifndef OP
#define OP OP_ADD
#endif
static int is_shift(enum operator_type op) { return op == OP_LSHIFT || op == OP_RSHIFT; }
/* operand values: all of the type, or (NARROW) those near 0 and the type's ends */
static u64 operand(enum simple_type t, u64 v) {
#ifdef NARROW
	int w = spec_width(t);
	u64 base = v & 16 ? 1ull << (w - 1) : 0;
	v = base + (u64)(s64)(s8)((v & 15) - 8);
#endif
	return spec_wrap(t, v);
}

/* a op b, and a op= b */
void h_binary(void) {
	gi_begin();
	IN(u64, ra, 0);
	IN(u64, rb, 1);
	u64 a = operand(TA, ra), b = operand(TB, rb);
	enum simple_type pa = spec_promote(TA, -1), pb = spec_promote(TB, -1), t = is_shift(OP) ? pa : spec_usual(pa, pb);
	u64 want = 0;
	int kind = spec_binary(OP, t, spec_convert(t, a), is_shift(OP) ? b : spec_convert(t, b), &want);
	VP_REQUIRE(kind == DEFINED);
	VP_REACH("defined");
#if !ASSIGN
	struct node *n = expression_to_ir(EXPR_BINARY_OP(OP, ivar(TA, a, 1), ivar(TB, b, 0)));
	int size = is_cmp(OP) ? 4 : spec_bytes(t);
	VP_ENSURE(n->size == size, "the result has the size of the expression's type");
	VP_ENSURE(gi_mask(size, gi_eval(n)) == gi_mask(size, want), "value of a binary operator");
#else
	want = spec_convert(TA, want);
	struct node *n = expression_to_ir(EXPR_ASSIGNMENT_OP(OP, ivar(TA, a, ASSIGN & 1), ivar(TB, b, 1), ASSIGN & 2));
	int size = spec_bytes(TA);
	struct gi_mem m = gi_final();
	VP_ENSURE(gi_mask(size, gi_read(&m, GI_BASE, size)) == gi_mask(size, want), "a compound assignment stores the converted value");
	VP_ENSURE(gi_read(&m, GI_BASE + 8, spec_bytes(TB)) == gi_mask(spec_bytes(TB), b), "the right operand is left alone");
	VP_ENSURE(n->size == size, "the result has the size of the left operand");
	VP_ENSURE(gi_mask(size, gi_eval(n)) == gi_mask(size, ASSIGN & 2 ? a : want), "value of a compound assignment");
#endif
}

/* - ~ + on every integer type */
void h_unary(void) {
	gi_begin();
	IN(u64, v, 0);
	u64 a = spec_wrap(TA, v);
	enum simple_type p = spec_promote(TA, -1);
	for (int o = 0; o < UOP_TYPE_COUNT; o++) {
		struct node *n = expression_to_ir(EXPR_UNARY_OP(o, ivar(TA, a, o & 1)));
		u64 want = o == UOP_NEG ? 0 - a : o == UOP_BNOT ? ~a : a;
		VP_ENSURE(n->size == spec_bytes(p), "the result has the promoted type's size");
		VP_ENSURE(gi_mask(spec_bytes(p), gi_eval(n)) == gi_mask(spec_bytes(p), want), "value of a unary operator");
	}
	VP_REACH("evaluated");
}

/* conversion of a variable to every type, by cast and by assignment */
void h_cast(void) {
	gi_begin();
	IN(u64, v, 0);
	u64 a = spec_wrap(TA, v);
	for (int i = 0; i < SPEC_NINT; i++) {
		if (i >= 6 * PART && i < 6 * PART + 6) {
			enum simple_type t = spec_int_types[i];
			gi_nleaf = 0;
			struct node *n = expression_to_ir(expression_cast(ivar(TA, a, 0), type_simple(t)));
			VP_ENSURE(n->size == spec_bytes(t), "a cast has the target's size");
			VP_ENSURE(gi_mask(spec_bytes(t), gi_eval(n)) == gi_mask(spec_bytes(t), spec_convert(t, a)), "value of a cast");
			gi_alloc_end = gi_nalloc = 0;
		}
	}
	VP_REACH("evaluated");
}
void h_assign(void) {
	gi_begin();
	IN(u64, v, 0);
	IN(u64, old, 1);
	u64 a = spec_wrap(TA, v);
	enum simple_type t = TB;
	int size = spec_bytes(t);
	struct expr *l = ivar(t, old, 1);
	for (int i = 0; i < 8; i++)
		gi_mem0.b[i] = old >> (8 * i);
	struct node *n = expression_to_ir(EXPR_ARGS(E_ASSIGNMENT, l, ivar(TA, a, 0)));
	struct gi_mem m = gi_final();
	VP_ENSURE(gi_read(&m, GI_BASE, size) == gi_mask(size, spec_convert(t, a)), "an assignment stores the converted value");
	VP_ENSURE(size == 8 || gi_read(&m, GI_BASE + size, 8 - size) == old >> (8 * size % 64), "an assignment writes nothing else");
	VP_ENSURE(n->size == size && gi_mask(size, gi_eval(n)) == gi_mask(size, spec_convert(t, a)), "value of an assignment");
	VP_REACH("evaluated");
}

/* conditions: the value compares unequal to 0 exactly if the condition holds */
static struct type *cond_type(int i) {
	return i < SPEC_NINT ? type_simple(spec_int_types[i]) : i == 12 ? type_pointer(type_simple(ST_CHAR)) : type_pointer(type_simple(ST_VOID));
}
struct node *expression_to_condition(struct expr *expr);
void h_condition(void) {
	gi_begin();
	IN(u64, v, 0);
	for (int i = 0; i < SPEC_NINT + 2; i++) {
		if (i != CT)
			continue;
		u64 a = i < SPEC_NINT ? spec_wrap(spec_int_types[i], v) : v;
		gi_nleaf = 0;
		struct node *n = expression_to_condition(variable(cond_type(i), a, 0));
		VP_ENSURE((gi_mask(n->size, gi_eval(n)) != 0) == (a != 0), "a condition is tested as != 0 in its own type");
		struct node *b = expression_to_ir(expression_cast(variable(cond_type(i), a, 0), type_simple(ST_BOOL)));
		VP_ENSURE(b->size == 1 && gi_mask(1, gi_eval(b)) == (a != 0), "conversion to _Bool");
		gi_alloc_end = gi_nalloc = 0;
	}
	VP_REACH("evaluated");
}
/* c ? x : y */
void h_conditional(void) {
	gi_begin();
	IN(u64, c, 0);
	IN(u64, ra, 1);
	IN(u64, rb, 2);
	u64 a = spec_wrap(TA, ra), b = spec_wrap(TB, rb);
	u64 cv = CT < SPEC_NINT ? spec_wrap(spec_int_types[CT % SPEC_NINT], c) : c;
	enum simple_type t = spec_usual(spec_promote(TA, -1), spec_promote(TB, -1));
	struct node *n = expression_to_ir(EXPR_ARGS(E_CONDITIONAL, variable(cond_type(CT), cv, 0), ivar(TA, a, 0), ivar(TB, b, 0)));
	VP_ENSURE(n->size == spec_bytes(t), "a conditional has its type's size");
	VP_ENSURE(gi_mask(n->size, gi_eval(n)) == gi_mask(n->size, spec_convert(t, cv ? a : b)), "value of a conditional");
	VP_REACH("evaluated");
}

/* pointer arithmetic: elements of ESIZE bytes, index of type TB */
static struct type *element(void) {
	switch (ESIZE) {
	case 1: return type_simple(ST_CHAR);
	case 2: return type_simple(ST_USHORT);
	case 4: return type_simple(ST_INT);
	case 8: return type_pointer(type_simple(ST_INT));
	default: return type_array(type_simple(ST_CHAR), ESIZE);
	}
}
void h_pointer(void) {
	gi_begin();
	IN(u64, p, 0);
	IN(u64, i, 1);
#ifdef NARROW
	i = (u64)(s64)(s16)i;	/* so that the products are decided quickly */
#endif
	i = spec_wrap(TB, i);
	struct type *pt = type_pointer(element());
	struct expr *x = variable(pt, p, 1), *k = ivar(TB, i, 0);
	struct node *n = NULL;
	u64 want = 0;
	switch (WHAT) {
	case 0: n = expression_to_ir(EXPR_BINARY_OP(OP_ADD, x, k)); want = p + i * ESIZE; break;
	case 1: n = expression_to_ir(EXPR_BINARY_OP(OP_ADD, k, x)); want = p + i * ESIZE; break;
	case 2: n = expression_to_ir(EXPR_BINARY_OP(OP_SUB, x, k)); want = p - i * ESIZE; break;
	case 3: n = expression_to_ir(EXPR_ASSIGNMENT_OP(OP_ADD, x, k, 0)); want = p + i * ESIZE; break;
	case 4: n = expression_to_ir(EXPR_ASSIGNMENT_OP(OP_SUB, x, k, 0)); want = p - i * ESIZE; break;
	case 5: n = expression_to_ir(EXPR_ASSIGNMENT_OP(OP_ADD, x, EXPR_INT(1), 1)); want = p; break;
	case 6: n = expression_to_ir(EXPR_ASSIGNMENT_OP(OP_SUB, x, EXPR_INT(1), 0)); want = p - ESIZE; break;
	}
	VP_ENSURE(n->size == 8, "a pointer has 8 bytes");
	VP_ENSURE(gi_eval(n) == want, "pointer arithmetic is scaled by the element size");
	struct gi_mem m = gi_final();
	VP_ENSURE(gi_read(&m, GI_BASE, 8) == (WHAT < 3 ? p : WHAT == 5 ? p + ESIZE : want), "the pointer variable afterwards");
	VP_REACH("evaluated");
}
/* p[i], *p through a known object: the right bytes are read */
void h_index(void) {
	gi_begin();
	IN(u64, v, 0);
	IN_RANGE(int, i, 1, 0, 16 / ESIZE - 1);
	struct type *et = element();
	struct expr *p = variable(type_pointer(et), GI_BASE + 16, 1), *k = ivar(ST_INT, i, 1);
	for (int j = 0; j < 16; j++)
		gi_mem0.b[16 + j] = (v >> (4 * (j % 16))) + j;
	gi_alloc_end = 32;
	struct node *n = expression_to_ir(EXPR_ARGS(E_INDIRECTION, EXPR_BINARY_OP(OP_ADD, p, k)));
	u64 want = gi_read(&gi_mem0, GI_BASE + 16 + i * ESIZE, ESIZE);
	VP_ENSURE(n->size == ESIZE && gi_mask(ESIZE, gi_eval(n)) == want, "p[i] reads the i-th element");
	VP_REACH("evaluated");
}
/* differences and comparisons of pointers */
void h_ptrdiff(void) {
	gi_begin();
	IN(u64, p, 0);
	IN_RANGE(int, d, 1, -1000, 1000);
	u64 q = p + (u64)((s64)d * ESIZE);
	struct type *pt = type_pointer(element());
	struct node *n = expression_to_ir(EXPR_BINARY_OP(OP_SUB, variable(pt, q, 1), variable(pt, p, 1)));
	VP_ENSURE(n->size == 8 && gi_eval(n) == (u64)(s64)d, "the difference of pointers counts elements");
	VP_REACH("evaluated");
}
void h_ptrcmp(void) {
	gi_begin();
	IN(u64, p, 0);
	IN(u64, q, 1);
	struct type *pt = type_pointer(type_simple(ST_INT));
	static const enum operator_type ops[] = { OP_LESS, OP_GREATER, OP_LESS_EQ, OP_GREATER_EQ, OP_EQUAL, OP_NOT_EQUAL };
	struct expr *x = variable(pt, p, 1), *y = variable(pt, q, 1);
	for (int o = 0; o < 6; o++) {
		struct node *n = expression_to_ir(EXPR_BINARY_OP(ops[o], x, y));
		int want = o == 0 ? p < q : o == 1 ? p > q : o == 2 ? p <= q : o == 3 ? p >= q : o == 4 ? p == q : p != q;
		VP_ENSURE(n->size == 4 && (int)gi_mask(4, gi_eval(n)) == want, "pointers compare as unsigned addresses");
	}
	VP_REACH("evaluated");
}
/* floating operators: the operation and its operand conversions */
void h_float(void) {
	gi_begin();
	static const struct { enum operator_type op; int ir; } f[] = {
		{ OP_ADD, IR_FLT_ADD }, { OP_SUB, IR_FLT_SUB }, { OP_MUL, IR_FLT_MUL }, { OP_DIV, IR_FLT_DIV }, { OP_LESS, IR_FLT_LESS },
		{ OP_GREATER, IR_FLT_GREATER }, { OP_LESS_EQ, IR_FLT_LESS_EQ }, { OP_GREATER_EQ, IR_FLT_GREATER_EQ }, { OP_EQUAL, IR_FLT_EQUAL }, { OP_NOT_EQUAL, IR_FLT_NOT_EQUAL } };
	for (int o = 0; o < 10; o++) {
		if (o % 4 != PART)
			continue;
		gi_nleaf = gi_nalloc = gi_alloc_end = 0;
		struct expr *x = variable(type_simple(ST_FLOAT), 0, 1), *y = variable(type_simple(ST_DOUBLE), 0, 1), *i = ivar(TB, 0, 1);
		struct node *n = expression_to_ir(EXPR_BINARY_OP(f[o].op, x, y)), *c = n;
		if (is_cmp(f[o].op)) {
			VP_ENSURE(n->type == IR_INT_CAST_ZERO && n->size == 4, "a comparison has type int");
			c = n->arguments[0];
		}
		VP_ENSURE((int)c->type == f[o].ir && c->size == 8, "the floating operation of the common type");
		struct node *l = c->arguments[0], *r = c->arguments[1];
		VP_ENSURE(l->type == IR_FLOAT_CAST && l->size == 8 && l->arguments[0]->type == IR_LOAD && l->arguments[0]->size == 4
			&& l->arguments[0]->arguments[0] == x->symbol->variable.ptr, "the left operand, converted to double");
		VP_ENSURE(r->type == IR_LOAD && r->size == 8 && r->arguments[0] == y->symbol->variable.ptr, "the right operand");
		c = expression_to_ir(EXPR_BINARY_OP(f[o].op, i, x));
		VP_ENSURE(c->size == 4, "size of float and of int");
		VP_ENSURE((int)c->type == f[o].ir && c->size == 4, "the floating operation of the common type");
		l = c->arguments[0], r = c->arguments[1];
		VP_ENSURE(l->type == (spec_signed(TB) ? IR_INT_FLOAT_CAST : IR_UINT_FLOAT_CAST) && l->size == 4, "an integer operand is converted by its signedness");
		VP_ENSURE(r->type == IR_LOAD && r->size == 4 && r->arguments[0] == x->symbol->variable.ptr, "the right operand");
	}
	VP_REACH("evaluated");
}
