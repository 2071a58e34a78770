/* C04: integer literals (C11 6.4.4.1, LP64) and the constants the parser makes of them. */
#include "spec_int.h"
#include <ir/operators.h>
#include <abi/abi.h>
#include <arch/x64.h>
#include <parser/expression.h>

#if BASE == 16
#define PREFIX "0x"
#define MAXD 17
#elif BASE == 2
#define PREFIX "0b"
#define MAXD 66
#elif BASE == 8
#define PREFIX "0"
#define MAXD 23
#else
#define PREFIX ""
#define MAXD 20
#endif
static const char *const suffix[] = { "", "u", "l", "ll", "ul", "lu", "ull", "llu",
	"U", "L", "LL", "UL", "LU", "uL", "Ul", "lU", "Lu", "ULL", "LLU", "uLL", "Ull", "llU", "LLu" };
static const int suf_u[] = { 0, 1, 0, 0, 1, 1, 1, 1,  1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
static const int suf_l[] = { 0, 0, 1, 2, 1, 1, 2, 2,  0, 1, 2, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2 };
#define NSUF 23

/* the first type of the list that can represent the value; ST_VOID if none */
static enum simple_type first_type(u64 v, int u, int l) {
	static const enum simple_type order[6] = { ST_INT, ST_UINT, ST_LONG, ST_ULONG, ST_LLONG, ST_ULLONG };
	for (int i = l * 2; i < 6; i++) {
		int is_u = i & 1;
		if (u && !is_u) continue;
		if (is_u && !u && BASE == 10) continue;
		u64 max = i == 0 ? 0x7fffffff : i == 1 ? 0xffffffff : is_u ? ~0ull : ~0ull >> 1;
		if (v <= max) return order[i];
	}
	return ST_VOID;
}
static char text[80];
#ifndef NDIG
#define NDIG 4
#endif
static u64 value;
static int digits(int n, int at) {
	value = 0;
	for (int i = 0; i < n; i++) {
		IN(u8, d, i);
		VP_REQUIRE(d < BASE && (BASE != 10 || i > 0 || d > 0));
		VP_REQUIRE(value <= (~0ull - d) / BASE);
		value = value * BASE + d;
		IN(u8, up, 100 + i);
		text[at++] = (char)(d < 10 ? '0' + d : (up & 1 ? 'A' : 'a') + d - 10);
	}
	return at;
}
static int put(const char *s, int at) { while (*s) text[at++] = *s++; return at; }
/* every digit string of NDIG digits, every suffix */
void h_literal(void) {
	abi_init_sysv();
	int at = put(PREFIX, 0);
	if (BASE == 16 || BASE == 2) { IN(u8, up, 200); if (up & 1) text[1] = BASE == 16 ? 'X' : 'B'; }
	at = digits(NDIG, at);
	IN_RANGE(int, k, 201, 0, 2);
	for (int i = 0; i < 3; i++)
		if (k == i) {
			int n = put(suffix[i], at);
			struct constant c;
			enum simple_type t = first_type(value, suf_u[i], suf_l[i]);
			VP_REQUIRE(t != ST_VOID);
			c = constant_from_string((struct string_view) { .len = n, .str = text });
			VP_REACH("literal");
			VP_ENSURE(c.type == CONSTANT_TYPE, "a numeric constant");
			VP_ENSURE(c.uint_d == value, "the value of the literal");
			VP_ENSURE(c.data_type == type_simple(t), "the first type of the list that can represent it");
		}
}

static void spell(u64 v, int min, int upper, int suf) {
	char rev[66];
	int n = 0, at = put(PREFIX, 0);
	if (BASE == 8 && v == 0) at = 0;
	do { int d = (int)(v % BASE); rev[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= BASE; } while (v || n < min);
	while (n) text[at++] = rev[--n];
	value = 0;
	int len = put(suffix[suf], at);
	text[len] = 0;
	(void)min;
	struct constant c = constant_from_string((struct string_view) { .len = len, .str = text });
	for (int i = BASE == 10 || BASE == 8 ? 0 : 2; i < at; i++) {
		int d = text[i] <= '9' ? text[i] - '0' : (text[i] | 32) - 'a' + 10;
		value = value * BASE + (u64)d;
	}
	enum simple_type t = first_type(value, suf_u[suf], suf_l[suf]);
	VP_ENSURE(c.type == CONSTANT_TYPE && c.uint_d == value, "the value of the literal");
	VP_ENSURE(c.data_type == type_simple(t), "the first type of the list that can represent it");
}
/* the values around every type boundary with every suffix */
void h_boundary(void) {
	static const u64 at[] = { 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff,
		0x8000000000000000, 0xffffffffffffffff, 0x123456789abcdef0, 0xfedcba98, 0x7654321 };
	abi_init_sysv();
	for (int i = 0; i < 12; i++)
		for (int s = 0; s < NSUF; s++) {
			if (first_type(at[i], suf_u[s], suf_l[s]) == ST_VOID || ((i < 2 || i > 8) && s % 4 != 1)) continue;
			if (BASE == 2 && s > 8) continue;
			spell(at[i], 0, s & 1, s);
		}
	VP_REACH("boundaries");
}
/* every digit at every position */
void h_digits(void) {
	abi_init_sysv();
	u64 p = 1;
	for (int i = 0; ; i++) {
		for (int d = 1; d < BASE; d++) {
			if (BASE == 16 && d > 2 && d < 9 && (d + i) % 3) continue;
			if (p > ~0ull / (u64)d) break;
			spell(p * d, 0, d & 1, 1);
			spell(p * d + (p > 1 ? 1 : 0), BASE == 10 ? 0 : 17, !(d & 1), BASE == 10 ? 6 : 2);
		}
		if (p > ~0ull / BASE) break;
		p *= BASE;
	}
	VP_REACH("digits");
}
