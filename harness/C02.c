/* C02: conversions of constants. */
#include "spec_int.h"
#include <ir/operators.h>
#include <abi/abi.h>
#include <arch/x64.h>
#include <parser/expression.h>

#ifndef TI
#define TI -1
#endif
static struct constant mk(enum simple_type t, u64 v) {
	return (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(t), .uint_d = v };
}
static struct expr *konst(struct constant c) {
	return expr_new((struct expr) { .type = E_CONSTANT, .constant = c });
}

static void cast_int(enum simple_type from, enum simple_type to, u64 v) {
	VP_REQUIRE(spec_normal(from, v));
	struct constant r = constant_cast(mk(from, v), type_simple(to));
	VP_REACH("cast");
	VP_ENSURE(r.type == CONSTANT_TYPE && r.data_type == type_simple(to), "type of the converted constant");
	VP_ENSURE(r.uint_d == spec_convert(to, v), "value of the converted constant");
}
/* constant_cast, all integer type pairs */
void h_cast_int(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	IN_RANGE(int, ti, 1, 0, SPEC_NINT - 1);
	IN_RANGE(int, tj, 2, 0, SPEC_NINT - 1);
	for (int i = 0; i < SPEC_NINT; i++)
		for (int j = 0; j < SPEC_NINT; j++)
			if (ti == i && tj == j)
				cast_int(spec_int_types[i], spec_int_types[j], v);
}

/* constant_normalize: the representable value congruent to the given one */
void h_normalize(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	IN_RANGE(int, ti, 1, 1, SPEC_NINT - 1);
	for (int i = 1; i < SPEC_NINT; i++)
		if (ti == i) {
			struct constant c = mk(spec_int_types[i], v);
			constant_normalize(&c);
			VP_REACH("normalized");
			VP_ENSURE(c.uint_d == spec_wrap(spec_int_types[i], v), "normalized value");
			VP_ENSURE(c.data_type == type_simple(spec_int_types[i]), "type kept");
		}
}

/* the cast as the parser builds it: folded to a constant of the target type */
void h_expr_cast(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	IN_RANGE(int, tj, 2, 0, SPEC_NINT - 1);
	for (int i = 0; i < SPEC_NINT; i++)
		for (int j = 0; j < SPEC_NINT; j++)
			if (i == TI && tj == j) {
				enum simple_type from = spec_int_types[i], to = spec_int_types[j];
				VP_REQUIRE(spec_normal(from, v));
				struct expr *e = expression_cast(konst(mk(from, v)), type_simple(to));
				VP_REACH("cast");
				VP_ENSURE(e->type == E_CONSTANT && e->constant.type == CONSTANT_TYPE, "a cast of a constant is a constant");
				VP_ENSURE(e->data_type == type_simple(to) && e->constant.data_type == type_simple(to), "type of the cast");
				VP_ENSURE(e->constant.uint_d == spec_convert(to, v), "value of the cast");
			}
}

union bits { double d; float f; u64 u; u32 u4; };
static double as_d(u64 v) { union bits b; b.u = v; return b.d; }
static float as_f(u64 v) { union bits b; b.u4 = (u32)v; return b.f; }
static u64 d_bits(double d) { union bits b; b.d = d; return b.u; }
static u32 f_bits(float f) { union bits b; b.f = f; return b.u4; }

/* integer -> floating: the nearest value */
void h_int_to_float(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	IN_RANGE(int, ti, 1, 0, SPEC_NINT - 1);
	IN_RANGE(int, dbl, 2, 0, 1);
	for (int i = 0; i < SPEC_NINT; i++)
		for (int d = 0; d < 2; d++)
			if (ti == i && dbl == d) {
				enum simple_type from = spec_int_types[i];
				VP_REQUIRE(spec_normal(from, v));
				struct constant r = constant_cast(mk(from, v), type_simple(d ? ST_DOUBLE : ST_FLOAT));
				VP_REACH("cast");
				VP_ENSURE(r.type == CONSTANT_TYPE && r.data_type == type_simple(d ? ST_DOUBLE : ST_FLOAT), "type");
				if (d)
					VP_ENSURE(d_bits(r.double_d) == d_bits(spec_signed(from) ? (double)(s64)v : (double)v), "integer to double");
				else
					VP_ENSURE(f_bits(r.float_d) == f_bits(spec_signed(from) ? (float)(s64)v : (float)v), "integer to float");
			}
}

/* floating -> integer: truncation, when the result is representable */
void h_float_to_int(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	IN_RANGE(int, ti, 1, 0, SPEC_NINT - 1);
	IN_RANGE(int, dbl, 2, 0, 1);
	for (int i = 0; i < SPEC_NINT; i++)
		for (int d = 0; d < 2; d++)
			if (ti == i && dbl == d) {
				enum simple_type to = spec_int_types[i];
				double x = d ? as_d(v) : (double)as_f(v);
				struct constant c = { .type = CONSTANT_TYPE, .data_type = type_simple(d ? ST_DOUBLE : ST_FLOAT) };
				if (d) c.double_d = x; else c.float_d = as_f(v);
				u64 want;
				if (to == ST_BOOL) {
					want = x != 0;
				} else {
					double lim = spec_width(to) == 64 ? (spec_signed(to) ? 9223372036854775808.0 : 18446744073709551616.0)
						: (double)(1ull << (spec_width(to) - spec_signed(to)));
					VP_REQUIRE(x < lim && (spec_signed(to) ? (spec_width(to) == 64 ? x >= -lim : x > -lim - 1) : x > -1));
					want = spec_signed(to) ? (u64)(s64)x : x < 0 ? 0 : (u64)x;
				}
				struct constant r = constant_cast(c, type_simple(to));
				VP_REACH("cast");
				VP_ENSURE(r.type == CONSTANT_TYPE && r.data_type == type_simple(to), "type");
				VP_ENSURE(r.uint_d == want, "floating to integer");
			}
}

/* float <-> double */
void h_float_float(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	struct constant c = { .type = CONSTANT_TYPE, .data_type = type_simple(ST_DOUBLE) };
	c.double_d = as_d(v);
	VP_REQUIRE(as_d(v) == as_d(v) && as_f(v) == as_f(v));
	struct constant r = constant_cast(c, type_simple(ST_FLOAT));
	VP_REACH("cast");
	VP_ENSURE(r.data_type == type_simple(ST_FLOAT) && f_bits(r.float_d) == f_bits((float)as_d(v)), "double to float");
	c.data_type = type_simple(ST_FLOAT);
	c.float_d = as_f(v);
	r = constant_cast(c, type_simple(ST_DOUBLE));
	VP_ENSURE(r.data_type == type_simple(ST_DOUBLE) && d_bits(r.double_d) == d_bits((double)as_f(v)), "float to double");
}

/* is a constant zero: what conditions, null pointer constants use */
void h_is_zero(void) {
	abi_init_sysv();
	IN(u64, v, 0);
	IN_RANGE(int, ti, 1, 0, SPEC_NINT + 2);
	for (int i = 0; i < SPEC_NINT + 3; i++)
		if (ti == i) {
			int want;
			struct constant c;
			if (i < SPEC_NINT) {
				c = mk(spec_int_types[i], v);
				want = v == 0;
			} else if (i == SPEC_NINT) {
				c = (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(ST_DOUBLE) };
				c.double_d = as_d(v);
				want = as_d(v) == 0;
			} else if (i == SPEC_NINT + 1) {
				c = (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(ST_FLOAT) };
				c.float_d = as_f(v);
				want = as_f(v) == 0;
			} else {
				c = (struct constant) { .type = CONSTANT_TYPE, .data_type = type_pointer(type_simple(ST_CHAR)), .uint_d = v };
				want = v == 0;
			}
			int got = constant_is_zero(&c);
			VP_REACH("tested");
			VP_ENSURE((got != 0) == want, "constant zero test");
		}
}
