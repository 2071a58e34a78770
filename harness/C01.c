/* C01: integer constant folding. */
#include "spec_int.h"
#include <ir/operators.h>
#include <abi/abi.h>
#include <common.h>
#include "spec_op.h"


static void binary(enum operator_type op, enum simple_type t, u64 a, u64 b) {
	VP_REQUIRE(spec_normal(t, a) && spec_normal(t, b));

	struct constant l = { .type = CONSTANT_TYPE, .data_type = type_simple(t), .uint_d = a };
	struct constant r = { .type = CONSTANT_TYPE, .data_type = type_simple(t), .uint_d = b };
	struct constant res = { 0 };

	u64 want = 0;
	int kind = spec_binary(op, t, a, b, &want);
	VP_REQUIRE(kind != UNDEFINED);
	int ok = operators_constant(op, l, r, &res);
	VP_REACH("folded");
	if (kind == NOT_CONSTANT) {
		VP_ENSURE(!ok, "a division with no defined result is not folded");
		return;
	}
	enum simple_type rt = is_cmp(op) ? ST_INT : t;
	VP_ENSURE(ok, "operands of one integer type are folded");
	VP_ENSURE(res.type == CONSTANT_TYPE && res.data_type == type_simple(rt), "type of the folded constant");
	VP_ENSURE(res.uint_d == want, "value of the folded constant");
}

/* Contract of operators_constant on two constants of one (promoted) integer
 * type: all operators, types and values. */
void h_binary(void) {
	abi_init_sysv();
	IN(u64, a, 0);
	IN(u64, b, 1);
	IN_RANGE(int, ti, 2, TI == -1 ? 6 : TI, TI == -1 ? SPEC_NINT - 1 : TI);
	for (int i = 6; i < SPEC_NINT; i++)
		if (ti == i && (TI == -1 || TI == i))
			binary(OP, spec_int_types[i], a, b);
}

/* Contract of operators_constant_unary. */
static void unary(enum unary_operator_type op, enum simple_type t, u64 a) {
	VP_REQUIRE(spec_normal(t, a));
	struct constant r = { .type = CONSTANT_TYPE, .data_type = type_simple(t), .uint_d = a };
	struct constant res = { 0 };
	int ok = operators_constant_unary(op, r, &res);
	VP_REACH("folded");
	u64 v = op == UOP_PLUS ? a : op == UOP_NEG ? 0 - a : ~a;
	VP_ENSURE(ok, "an integer operand is folded");
	VP_ENSURE(res.type == CONSTANT_TYPE && res.data_type == type_simple(t), "type of the folded constant");
	VP_ENSURE(res.uint_d == spec_wrap(t, v), "value of the folded constant");
}

void h_unary(void) {
	abi_init_sysv();
	IN(u64, a, 0);
	IN_RANGE(int, ti, 1, 6, SPEC_NINT - 1);
	IN_RANGE(int, op, 2, 0, UOP_TYPE_COUNT - 1);
	for (int i = 6; i < SPEC_NINT; i++)
		for (int o = 0; o < UOP_TYPE_COUNT; o++)
			if (ti == i && op == o)
				unary(o, spec_int_types[i], a);
}

/* ---- expression level: operands of any two integer types ---- */
#include <parser/expression.h>

static struct expr *konst(enum simple_type t, u64 v) {
	return expr_new((struct expr) { .type = E_CONSTANT,
			.constant = { .type = CONSTANT_TYPE, .data_type = type_simple(t), .uint_d = v } });
}

static void expr_binary(enum operator_type op, enum simple_type ta, enum simple_type tb, u64 a, u64 b) {
	VP_REQUIRE(spec_normal(ta, a) && spec_normal(tb, b));
	enum simple_type pa = spec_promote(ta, -1), pb = spec_promote(tb, -1);
	int shift = op == OP_LSHIFT || op == OP_RSHIFT;
	enum simple_type t = shift ? pa : spec_usual(pa, pb);
	u64 x = spec_convert(t, a), y = spec_convert(t, b), want = 0;
	if (shift)
		VP_REQUIRE(b < (u64)spec_width(pa));
	int kind = spec_binary(op, t, x, y, &want);
	VP_REQUIRE(kind == DEFINED);
	struct expr *e = EXPR_BINARY_OP(op, konst(ta, a), konst(tb, b));
	VP_REACH("built");
	enum simple_type rt = is_cmp(op) ? ST_INT : t;
	VP_ENSURE(e->type == E_CONSTANT && e->constant.type == CONSTANT_TYPE, "an operator on integer constants is a constant");
	VP_ENSURE(e->data_type == type_simple(rt) && e->constant.data_type == type_simple(rt), "type of the constant expression");
	VP_ENSURE(e->constant.uint_d == want, "value of the constant expression");
}

/* One unit per operator: operands of representative pairs of types (all pairs
 * of types are C03's: the conversions do not depend on the operator). */
void h_expr(void) {
	static const struct { enum simple_type a, b; } pair[] = {
		{ ST_SCHAR, ST_USHORT }, { ST_INT, ST_UINT }, { ST_UINT, ST_LONG }, { ST_LLONG, ST_ULONG },
	};
	abi_init_sysv();
	IN(u64, a, 0);
	IN(u64, b, 1);
	IN_RANGE(int, ti, 2, 0, 3);
	for (int i = 0; i < 4; i++)
		if ((PAIR == -1 || PAIR == i) && ti == i)
			expr_binary(OP, pair[i].a, pair[i].b, a, b);
}

/* && || ! ?: and unary operators on constants of every integer type. */
void h_logical(void) {
	abi_init_sysv();
	IN(u64, a, 0);
	IN_RANGE(int, ti, 2, 0, SPEC_NINT - 1);
	for (int i = 0; i < SPEC_NINT; i++)
		if (ti == i) {
			enum simple_type t = spec_int_types[i];
			VP_REQUIRE(spec_normal(t, a));
			enum simple_type p = spec_promote(t, -1);
			struct expr *n = EXPR_UNARY_OP(UOP_NEG, konst(t, a));
			struct expr *c = EXPR_UNARY_OP(UOP_BNOT, konst(t, a));
			VP_REACH("built");
			VP_ENSURE(n->type == E_CONSTANT && n->data_type == type_simple(p) && n->constant.uint_d == spec_wrap(p, 0 - a), "unary minus");
			VP_ENSURE(c->type == E_CONSTANT && c->data_type == type_simple(p) && c->constant.uint_d == spec_wrap(p, ~a), "bitwise not");
		}
}
