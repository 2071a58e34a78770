/* Independent specification of C11 integer types on LP64 (6.2.5, 6.3.1.1,
 * 6.3.1.8), written from the standard, not from /repo. */
#ifndef SPEC_INT_H
#define SPEC_INT_H
#include "vp.h"
#include <types.h>

#define SPEC_NINT 12
static const enum simple_type spec_int_types[SPEC_NINT] = {
	ST_BOOL, ST_CHAR, ST_SCHAR, ST_UCHAR, ST_SHORT, ST_USHORT,
	ST_INT, ST_UINT, ST_LONG, ST_ULONG, ST_LLONG, ST_ULLONG
};

static int spec_is_int(enum simple_type t) {
	return (t >= ST_CHAR && t <= ST_ULLONG) || t == ST_BOOL;
}

static int spec_signed(enum simple_type t) {
	return t == ST_CHAR || t == ST_SCHAR || t == ST_SHORT || t == ST_INT ||
		t == ST_LONG || t == ST_LLONG;
}

static int spec_bytes(enum simple_type t) {
	switch (t) {
	case ST_BOOL: case ST_CHAR: case ST_SCHAR: case ST_UCHAR: return 1;
	case ST_SHORT: case ST_USHORT: return 2;
	case ST_INT: case ST_UINT: return 4;
	default: return 8;
	}
}

/* number of value+sign bits */
static int spec_width(enum simple_type t) {
	return t == ST_BOOL ? 1 : 8 * spec_bytes(t);
}

static int spec_rank(enum simple_type t) {
	switch (t) {
	case ST_BOOL: return 0;
	case ST_CHAR: case ST_SCHAR: case ST_UCHAR: return 1;
	case ST_SHORT: case ST_USHORT: return 2;
	case ST_INT: case ST_UINT: return 3;
	case ST_LONG: case ST_ULONG: return 4;
	default: return 5;
	}
}

static enum simple_type spec_unsigned_of(enum simple_type t) {
	switch (t) {
	case ST_INT: return ST_UINT;
	case ST_LONG: return ST_ULONG;
	case ST_LLONG: return ST_ULLONG;
	default: return t;
	}
}

/* integer promotions; bits: bit-field width or -1 */
static enum simple_type spec_promote(enum simple_type t, int bits) {
	if (!spec_is_int(t))
		return t;
	if (bits != -1) {
		int lim = spec_signed(t) ? 32 : 31;
		return bits <= lim && bits <= spec_width(t) ? ST_INT :
			(spec_rank(t) <= 3 && !spec_signed(t) && bits == 32 ? ST_UINT : t);
	}
	return spec_rank(t) < 3 ? ST_INT : t;
}

/* usual arithmetic conversions on two promoted types */
static enum simple_type spec_usual(enum simple_type a, enum simple_type b) {
	if (a == ST_LDOUBLE || b == ST_LDOUBLE) return ST_LDOUBLE;
	if (a == ST_DOUBLE || b == ST_DOUBLE) return ST_DOUBLE;
	if (a == ST_FLOAT || b == ST_FLOAT) return ST_FLOAT;
	if (a == b) return a;
	if (spec_signed(a) == spec_signed(b))
		return spec_rank(a) > spec_rank(b) ? a : b;
	enum simple_type u = spec_signed(a) ? b : a, s = spec_signed(a) ? a : b;
	if (spec_rank(u) >= spec_rank(s)) return u;
	if (spec_width(s) > spec_width(u)) return s;
	return spec_unsigned_of(s);
}

/* The unique 64-bit representation (sign- or zero-extended) of the value of
 * type t congruent to v modulo 2^width. */
static u64 spec_wrap(enum simple_type t, u64 v) {
	switch (spec_width(t)) {
	case 1: return v & 1;
	case 8: return spec_signed(t) ? (u64)(s64)(s8)v : (u64)(u8)v;
	case 16: return spec_signed(t) ? (u64)(s64)(s16)v : (u64)(u16)v;
	case 32: return spec_signed(t) ? (u64)(s64)(s32)v : (u64)(u32)v;
	default: return v;
	}
}

static int spec_normal(enum simple_type t, u64 v) {
	return spec_wrap(t, v) == v;
}

/* conversion of a value between integer types, 6.3.1.2, 6.3.1.3 */
static u64 spec_convert(enum simple_type to, u64 v) {
	return to == ST_BOOL ? v != 0 : spec_wrap(to, v);
}
#endif
