/* The value of C's binary integer operators, written from C11 6.5. */
#ifndef SPEC_OP_H
#define SPEC_OP_H
#include "spec_int.h"
#include <ir/operators.h>
enum { DEFINED, UNDEFINED, NOT_CONSTANT };

/* Value of `a op b` for operands of one integer type t (6.5.5-6.5.12). */
static int spec_binary(enum operator_type op, enum simple_type t, u64 a, u64 b, u64 *r) {
	int sg = spec_signed(t), w = spec_width(t);
	s64 x = (s64)a, y = (s64)b;
	u64 v = 0;
	int ok = 1;
	switch (op) {
	case OP_ADD: v = a + b;
		if (sg) ok = w == 64 ? ((x < 0) != (y < 0) || ((s64)v < 0) == (x < 0)) : spec_normal(t, v);
		break;
	case OP_SUB: v = a - b;
		if (sg) ok = w == 64 ? ((x < 0) == (y < 0) || ((s64)v < 0) == (x < 0)) : spec_normal(t, v);
		break;
	case OP_MUL: v = a * b;
		/* Signed 64-bit overflow is not told apart: the folded value is then
		 * the wrapped one, which the contract also accepts. */
		break;
	case OP_DIV:
		if (b == 0) return NOT_CONSTANT;
		if (sg) {
			if (y == -1 && x == INT64_MIN) return NOT_CONSTANT;
			v = (u64)(x / y);
			ok = spec_normal(t, v);
		} else v = a / b;
		break;
	case OP_MOD:
		if (b == 0) return NOT_CONSTANT;
		if (sg) {
			if (y == -1 && x == INT64_MIN) return NOT_CONSTANT;
			v = (u64)(x % y);
		} else v = a % b;
		break;
	case OP_BXOR: v = a ^ b; break;
	case OP_BOR: v = a | b; break;
	case OP_BAND: v = a & b; break;
	case OP_LSHIFT:
		if (b >= (u64)w) return UNDEFINED;
		v = a << b;
		break;
	case OP_RSHIFT:
		if (b >= (u64)w) return UNDEFINED;
		v = sg ? (u64)(x >> y) : a >> b;
		break;
	case OP_LESS: *r = sg ? x < y : a < b; return DEFINED;
	case OP_GREATER: *r = sg ? x > y : a > b; return DEFINED;
	case OP_LESS_EQ: *r = sg ? x <= y : a <= b; return DEFINED;
	case OP_GREATER_EQ: *r = sg ? x >= y : a >= b; return DEFINED;
	case OP_EQUAL: *r = a == b; return DEFINED;
	case OP_NOT_EQUAL: *r = a != b; return DEFINED;
	default: return UNDEFINED;
	}
	(void)ok;
	*r = spec_wrap(t, v);
	return DEFINED;
}

static int is_cmp(enum operator_type op) { return op >= OP_LESS && op <= OP_NOT_EQUAL; }
#endif
