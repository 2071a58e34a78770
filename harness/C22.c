/* C22: #if expressions. */
#define VP_DIR_C22
#include "dir.h"
#include <preprocessor/string_concat.h>

#ifndef SA
#define SA 1
#endif
#ifndef SB
#define SB 1
#endif
/* numbers are read through the contract of constant_from_string (C04): the
 * value and the first fitting type of the literal's list */
#define NNUM 6
static u64 num_val[NNUM];
static char num_text[NNUM][3] = { "1", "2", "3", "4", "5", "6" };
struct constant constant_from_string(struct string_view s) {
	for (int i = 0; i < NNUM; i++)
		if (s.str == num_text[i]) {
			u64 v = num_val[i];
			int u = s.len == 2;
			enum simple_type t = u ? (v <= 0xffffffff ? ST_UINT : ST_ULONG) :
				v <= 0x7fffffff ? ST_INT : v <= 0xffffffff ? ST_UINT : v <= INT64_MAX ? ST_LONG : ST_ULONG;
			return (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(t), .uint_d = v };
		}
	if (s.len == 1 && (s.str[0] == '0' || s.str[0] == '1'))
		return (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(ST_INT), .uint_d = (u64)(s.str[0] - '0') };
	VP_ENSURE(0, "only numbers are read as numbers");
	return (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(ST_INT), .uint_d = 0 };
}
static int macro_x;
struct define *define_map_get(struct string_view s) {
	static struct define d;
	return s.len == 1 && s.str[0] == 'X' && macro_x ? &d : NULL;
}
static s64 char_val;
intmax_t escaped_character_constant_to_int(struct token t) { (void)t; return char_val; }

/* operand i, a literal without sign; a signed one is at most INT64_MAX */
static void num(int i, int is_signed, u64 v) {
	num_val[i] = v;
	num_text[i][1] = is_signed ? 0 : 'u';
	tok(T_NUM, num_text[i], is_signed ? 1 : 2);
}
/* a value of any sign: signed operands below zero are written -n or ~n */
static void any(int i, int is_signed, u64 v, int neg) {
	if (neg) {
		TOK(T_LPAR, "(");
		TOK(T_SUB, "-");
		num(i, is_signed, 0 - v);
		TOK(T_RPAR, ")");
	} else
		num(i, is_signed, v);
}
static void op(ttype t) { tok(t, "", 0); }
/* run #if ... X #else Y #endif; returns whether the first group is selected */
static void begin(void) { feed_clear(); hash(); TOK(T_IDENT, "if"); }
static int taken(void) {
	newline(); TOK(T_IDENT, "yes");
	hash(); TOK(T_IDENT, "endif");
	newline(); TOK(T_IDENT, "no");
	feed_start();
	struct token t = directiver_next();
	VP_ENSURE(t.type == T_IDENT, "the group is processed exactly if the condition holds");
	return t.str.len == 3;
}
static int neg_a, neg_b;
/* C11 6.10.1p4: (u)intmax_t arithmetic; returns 0 if undefined */
static int spec(ttype o, int sa, u64 a, int sb, u64 b, int *s, u64 *r) {
	int sg = sa && sb;
	s64 ia = (s64)a, ib = (s64)b, x;
	*s = sg;
	switch (o) {
	case T_ADD: *r = a + b; return !sg || !__builtin_add_overflow(ia, ib, &x);
	case T_SUB: *r = a - b; return !sg || !__builtin_sub_overflow(ia, ib, &x);
	case T_STAR: *r = a * b; return !sg || !__builtin_mul_overflow(ia, ib, &x);
	case T_DIV: if (b == 0 || (sg && ib == -1 && ia == INT64_MIN)) return 0; *r = sg ? (u64)(ia / ib) : a / b; return 1;
	case T_MOD: if (b == 0 || (sg && ib == -1 && ia == INT64_MIN)) return 0; *r = sg ? (u64)(ia % ib) : a % b; return 1;
	case T_LSHIFT: *s = sa; if (b >= 64) return 0; *r = a << b; return !sa || (ia >= 0 && (*r >> b) == a && (s64)*r >= 0);
	case T_RSHIFT: *s = sa; if (b >= 64) return 0; *r = sa ? (u64)(ia >> b) : a >> b; return 1;
	case T_AMP: *r = a & b; return 1;
	case T_BOR: *r = a | b; return 1;
	case T_XOR: *r = a ^ b; return 1;
	case T_EQ: *s = 1; *r = a == b; return 1;
	case T_NEQ: *s = 1; *r = a != b; return 1;
	case T_L: *s = 1; *r = sg ? ia < ib : a < b; return 1;
	case T_G: *s = 1; *r = sg ? ia > ib : a > b; return 1;
	case T_LEQ: *s = 1; *r = sg ? ia <= ib : a <= b; return 1;
	case T_GEQ: *s = 1; *r = sg ? ia >= ib : a >= b; return 1;
	case T_AND: *s = 1; *r = a && b; return 1;
	case T_OR: *s = 1; *r = a || b; return 1;
	default: return 0;
	}
}
#ifndef OP
#define OP T_ADD
#endif
static void operands(u64 *a, u64 *b) {
#ifdef NARROW	/* 1: near zero, 2: left operand near the end of the signed range, 3: of the unsigned one */
	IN(u8, p, 0);
	IN(u8, q, 1);
	p &= 3; q &= 3;
	u64 x = NARROW == 1 ? p : NARROW == 2 ? (1ull << 62) * 2 - 1 - p : ~(u64)p, y = q;
	if (neg_a) x = NARROW == 1 ? ~(u64)p : (1ull << 63) + 1 + p;
	if (neg_b) y = ~(u64)q;
#else
	IN(u64, x, 0);
	IN(u64, y, 1);
#endif
	VP_REQUIRE(!SA || (neg_a ? (s64)x < 0 && x != (u64)INT64_MIN : (s64)x >= 0));
	VP_REQUIRE(!SB || (neg_b ? (s64)y < 0 && y != (u64)INT64_MIN : (s64)y >= 0));
	*a = x; *b = y;
}
/* MODE 0, the value: E == c for every c;
 * MODE 1, the signedness: (1 ? -1 : E) < 0 exactly if E is signed */
#ifndef MODE
#define MODE 0
#endif
static u64 c_val;
static void open(void) {
	begin();
	if (MODE == 1) {
		TOK(T_LPAR, "("); num(3, 1, 1); op(T_QUEST); op(T_SUB); num(3, 1, 1); op(T_COLON);
	}
	TOK(T_LPAR, "(");
}
static void close(u64 value, int is_signed, const char *what) {
	(void)what;
	TOK(T_RPAR, ")");
	if (MODE == 1) {
		TOK(T_RPAR, ")"); op(T_L); num(4, 1, 0);
		VP_ENSURE(taken() == is_signed, "the signedness of the result");
	} else {
		IN(u64, c, 2);
		op(T_EQ); num(2, 0, c);
		VP_ENSURE(taken() == (value == c), "the value of the result");
	}
	VP_REACH("evaluated");
}
#ifndef NA
#define NA 0
#endif
#ifndef NB
#define NB 0
#endif
void h_binary(void) {
	u64 a, b, r = 0;
	int s;
	neg_a = NA; neg_b = NB;
	operands(&a, &b);
	VP_REQUIRE(spec(OP, SA, a, SB, b, &s, &r));
	open();
	any(0, SA, a, neg_a); op(OP); any(1, SB, b, neg_b);
	close(r, s, "binary");
}
#ifndef WHICH
#define WHICH 0
#endif
void h_unary(void) {
	static const ttype t[4] = { T_ADD, T_SUB, T_BNOT, T_NOT };
	u64 a, b;
	operands(&a, &b);
	u64 r = WHICH == 0 ? b : WHICH == 1 ? 0 - b : WHICH == 2 ? ~b : !b;
	open();
	op(t[WHICH]); num(1, SB, b);
	close(r, SB || WHICH == 3, "unary");
}
/* x ? a : b, for the value and for the type */
void h_cond(void) {
	IN(u64, x, 3);
	u64 a, b;
	operands(&a, &b);
#if MODE == 0
	open();
	num(5, 0, x); op(T_QUEST); num(0, SA, a); op(T_COLON); num(1, SB, b);
	close(x ? a : b, SA && SB, "conditional");
#else
	begin();
	TOK(T_LPAR, "("); num(5, 0, x); op(T_QUEST); op(T_SUB); num(0, SA, a); op(T_COLON); op(T_SUB); num(1, SB, b); TOK(T_RPAR, ")");
	op(T_L); num(4, 1, 0);
	VP_ENSURE(taken() == (SA && SB && (x ? a : b) != 0), "the signedness of the conditional operator");
	VP_REACH("evaluated");
#endif
}
/* operands that are not evaluated may be invalid */
void h_lazy(void) {
	IN(u64, x, 3);
	VP_REQUIRE(WHICH == 0 || WHICH == 2 ? x == 0 : x != 0);
	begin();
	num(3, 0, x);
	op(WHICH == 0 ? T_AND : WHICH == 1 ? T_OR : T_QUEST);
	if (WHICH == 3) { num(4, 1, 1); op(T_COLON); }
	TOK(T_LPAR, "("); num(4, 1, 1); op(T_DIV); TOK(T_IDENT, "zero"); op(T_ADD); num(4, 1, 1); op(T_MOD); TOK(T_LPAR, "("); num(4, 1, 1); op(T_SUB); num(4, 1, 1); TOK(T_RPAR, ")"); TOK(T_RPAR, ")");
	if (WHICH == 2) { op(T_COLON); num(4, 1, 1); }
	VP_ENSURE(taken() == (WHICH != 0), "an operand that is not evaluated has no effect");
	VP_REACH("evaluated");
}
void h_defined(void) {
	IN_RANGE(int, m, 6, 0, 1);
	macro_x = m;
	begin();
	TOK(T_IDENT, "defined"); TOK(T_LPAR, "("); TOK(T_IDENT, "X"); TOK(T_RPAR, ")"); op(T_AND); op(T_NOT); TOK(T_IDENT, "defined"); TOK(T_IDENT, "Y");
	op(T_AND); TOK(T_IDENT, "defined"); TOK(T_IDENT, "X");
	VP_ENSURE(taken() == m, "defined tells whether the name is a macro");
	VP_REACH("evaluated");
}
void h_character(void) {
	IN(s64, ch, 7);
	VP_REQUIRE(ch >= -128 && ch <= 127);
	char_val = ch;
	begin();
	tok(T_CHARACTER_CONSTANT, "'a'", 3); op(T_L); TOK(T_IDENT, "name");
	VP_ENSURE(taken() == (ch < 0), "a character constant has its int value, an identifier the value 0");
	VP_REACH("evaluated");
}
/* precedence and associativity: a o1 b o2 c for every pair of operators */
static const ttype ops[18] = { T_STAR, T_DIV, T_MOD, T_ADD, T_SUB, T_LSHIFT, T_RSHIFT, T_L, T_G, T_LEQ, T_GEQ, T_EQ, T_NEQ, T_AMP, T_XOR, T_BOR, T_AND, T_OR };
static const int level[18] = { 10, 10, 10, 9, 9, 8, 8, 7, 7, 7, 7, 6, 6, 5, 4, 3, 2, 1 };
#ifndef O1
#define O1 0
#endif
#ifndef O2
#define O2 0
#endif
void h_prec(void) {
	IN(u8, a, 11);
	IN(u8, b, 12);
	IN(u8, c, 13);
	a &= 3; b &= 3; c &= 3;
	u64 m = 0, r = 0;
	int s, ok;
	if (level[O2] > level[O1])
		ok = spec(ops[O2], 1, b, 1, c, &s, &m) && spec(ops[O1], 1, a, 1, m, &s, &r);
	else
		ok = spec(ops[O1], 1, a, 1, b, &s, &m) && spec(ops[O2], 1, m, 1, c, &s, &r);
	VP_REQUIRE(ok && (s64)r >= 0);
	open();
	num(0, 1, a); op(ops[O1]); num(1, 1, b);
	op(ops[O2]);
	num(5, 1, c);
	close(r, 1, "pair");
}
/* precedence_get orders the operators by level; all of them group to the left */
void h_levels(void) {
	for (int i = 0; i < 18; i++) {
		VP_ENSURE(precedence_get(ops[i], 1) > 0 && precedence_get(ops[i], 1) <= precedence_get(ops[i], 0), "binary operators are left-associative");
		VP_ENSURE(precedence_get(T_QUEST, 0) < precedence_get(ops[i], 1) && precedence_get(ops[i], 0) < PREFIX_PREC, "?: binds weaker and prefix operators bind tighter than binary ones");
		for (int j = 0; j < 18; j++)
			VP_ENSURE((precedence_get(ops[i], 0) < precedence_get(ops[j], 1)) == (level[i] < level[j]), "the operators are ordered as in the grammar");
	}
	VP_ENSURE(precedence_get(T_QUEST, 0) < precedence_get(T_QUEST, 1), "?: groups to the right");
	VP_ENSURE(precedence_get(T_RPAR, 1) <= 0 && precedence_get(T_COLON, 1) <= 0 && precedence_get(T_EOI, 1) <= 0, "no operator");
	VP_REACH("ordered");
}
