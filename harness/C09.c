/* C09: memory images of initialized objects.
 *  h_scalar, h_bits: constant_to_buffer on arbitrary earlier contents;
 *  h_image: an initializer is parsed from tokens and emitted; the bytes, labels
 *  and alignment that reach the assembler are the object's image; with AUTO the
 *  object is automatic and the image is the ghost memory after the code ran. */
#include "spec_int.h"
#ifdef AUTO
#define GI_MEMSZ 64
#include "ir_expr.h"
#endif
#include <preprocessor/preprocessor.h>
#include <parser/declaration.h>
#include <parser/expression.h>
#include <assembler/assembler.h>
#include <codegen/rodata.h>
#include <arch/x64.h>
#include <abi/abi.h>

static u64 word(const u8 *b, int n) {
	u64 v = 0;
	for (int i = 0; i < n; i++) v |= (u64)b[i] << (8 * i);
	return v;
}
static u64 low(u64 v, int bits) { return bits == 64 ? v : v & ((1ull << bits) - 1); }
static const enum simple_type all[] = { ST_BOOL, ST_CHAR, ST_SCHAR, ST_UCHAR, ST_SHORT, ST_USHORT, ST_INT, ST_UINT, ST_LONG, ST_ULONG, ST_LLONG, ST_ULLONG };
void h_scalar(void) {
	static u8 buf[24], old[24];
	abi_init_sysv();
	for (int k = 0; k < 15; k++) {
		IN(u64, v, k);
		struct constant c = { .type = CONSTANT_TYPE };
		int n = 8;
		if (k < 12) {
			c.data_type = type_simple(all[k]);
			n = spec_bytes(all[k]);
			c.uint_d = spec_wrap(all[k], v);
		} else if (k == 12) {
			c.data_type = type_pointer(type_simple(ST_INT));
			c.uint_d = v;
		} else {
			c.data_type = type_simple(k == 13 ? ST_FLOAT : ST_DOUBLE);
			n = k == 13 ? 4 : 8;
			c.uint_d = low(v, 8 * n);	/* the bits of float_d or double_d */
		}
		for (int j = 0; j < 3; j++) {
			IN(u64, o, 100 + j);
			for (int i = 0; i < 8; i++) buf[8 * j + i] = old[8 * j + i] = o >> (8 * i);
		}
		constant_to_buffer(buf + 8, c, -1, -1);
		VP_ENSURE(word(buf + 8, n) == low(v, 8 * n) || k == 0, "a scalar is little-endian in its size");
		VP_ENSURE(k || buf[8] == (u8)spec_wrap(ST_BOOL, v), "a _Bool is one byte");
		for (int i = 0; i < 24; i++)
			VP_ENSURE((i >= 8 && i < 8 + n) || buf[i] == old[i], "bytes outside the scalar are left alone");
	}
	VP_REACH("scalars written");
}
void h_bits(void) {
	static u8 buf[24], old[24];
	abi_init_sysv();
	for (int k = 0; k < 12; k++) {
		int size = 8 * spec_bytes(all[k]);
		IN(u64, v, k);
		IN(int, w, 20 + k);
		IN(int, o, 40 + k);
		if (w < 1 || w > (k ? size : 1)) w = 1;	/* clamp, all cases in one run */
		if (o < 0 || o > size - w) o = 0;
		struct constant c = { .type = CONSTANT_TYPE, .data_type = type_simple(all[k]) };
		c.uint_d = spec_wrap(all[k], v);
		for (int j = 0; j < 3; j++) {
			IN(u64, x, 100 + j);
			for (int i = 0; i < 8; i++) buf[8 * j + i] = old[8 * j + i] = x >> (8 * i);
		}
		constant_to_buffer(buf + 8, c, o, w);
		u64 m = low(~0ull, w) << o, got = word(buf + 8, 8), was = word(old + 8, 8);
		VP_ENSURE((got & ~m) == (was & ~m), "every bit outside the field is left alone");
		VP_ENSURE((got & m) == (spec_wrap(all[k], v) << o & m), "the field holds the constant modulo 2^width");
		VP_ENSURE(word(buf, 8) == word(old, 8) && word(buf + 16, 8) == word(old + 16, 8), "bytes outside the field's unit are left alone");
	}
	VP_REACH("fields written");
}

/* ---- whole objects ---- */
static struct { u8 b[80]; label_id lab[80]; u64 off[80]; int n, align, section, labelled, global, closed; } im;
void asm_section(const char *s) { if (!im.section) { im.section = 1; VP_ENSURE(s[1] == 'd', "initialized objects live in .data"); } else im.closed = 1; }
void asm_align(int a) { im.align = a; VP_ENSURE(!im.n && !im.labelled, "alignment comes first"); }
void asm_label(int global, label_id l) { (void)l; im.labelled++; im.global = global; VP_ENSURE(!im.n, "the label marks the first byte"); }
void asm_byte(struct operand o) { VP_REQUIRE(im.n < 72); im.b[im.n++] = o.imm_label.offset; VP_ENSURE(o.type == OPERAND_IMM_LABEL_ABSOLUTE && o.imm_label.label_ == -1, "a byte"); }
void asm_quad(struct operand o) {
	VP_ENSURE(o.type == OPERAND_IMM_LABEL_ABSOLUTE, "a plain quad");
	VP_REQUIRE(im.n < 72);
	if (o.imm_label.label_ != -1) {
		im.lab[im.n] = o.imm_label.label_;
		im.off[im.n] = o.imm_label.offset;
		im.n += 8;
	} else
		for (int i = 0; i < 8; i++) im.b[im.n++] = o.imm_label.offset >> (8 * i);
}
void asm_zero(int n) { for (int i = 0; i < n; i++) im.b[im.n++] = 0; }

/* tokens: text where each digit/letter is an expression */
static struct token toks[64];
static int ntoks, at;
struct token *t_peek(int n) { return &toks[at + n]; }
void t_next(void) { at++; }
#define NV 10
static u64 val[NV];
static label_id the_label;
#ifdef AUTO
static struct expr *the_struct;
#endif
/* contract of the expression parser: the tokens of one expression are consumed */
struct expr *parse_assignment_expression(void) {
	struct token *t = &toks[at];
	if (t->type != T_NUM)
		return NULL;
	at++;
	int k = t->str.str[0] - '0';
#ifdef AUTO
	if (t->str.str[0] == 'w')
		return the_struct;
	if (t->str.str[0] == 'p')
		k = 9;
	if (0)
#else
	if (t->str.str[0] == 'p')
#endif
	/* the address of an object plus 12 */
		return expr_new((struct expr) { .type = E_CONSTANT, .constant = { .type = CONSTANT_LABEL_POINTER, .data_type = type_pointer(type_simple(ST_CHAR)), .label = { the_label, 12 } } });
	return expr_new((struct expr) { .type = E_CONSTANT, .constant = { .type = CONSTANT_TYPE, .data_type = type_simple(ST_LONG), .int_d = val[k] } });
}
struct expr *parse_expression(void) {
	int k = toks[at].str.str[0] - '0';
	at++;
	return expr_new((struct expr) { .type = E_CONSTANT, .constant = { .type = CONSTANT_TYPE, .data_type = type_simple(ST_INT), .int_d = k } });
}
static void token(ttype t, char *s, int len) { toks[ntoks++] = (struct token) { .type = t, .str = { len, s } }; }
static void lex(char *s) {
	for (int i = 0; s[i]; i++)
		switch (s[i]) {
		case '{': token(T_LBRACE, s + i, 1); break;
		case '}': token(T_RBRACE, s + i, 1); break;
		case '[': token(T_LBRACK, s + i, 1); break;
		case ']': token(T_RBRACK, s + i, 1); break;
		case '.': token(T_DOT, s + i, 1); break;
		case '=': token(T_A, s + i, 1); break;
		case ',': token(T_COMMA, s + i, 1); break;
		case 'S': token(T_STRING, "xyz", 4); break;
		case 'T': token(T_STRING, "uvwxyz", 7); break;
		case 'p': case 'w': token(T_NUM, s + i, 1); break;
		default:
			if (s[i] >= '0' && s[i] <= '9') token(T_NUM, s + i, 1);
			else token(T_IDENT, s + i, 1);
		}
	token(T_EOI, "", 0);
	token(T_EOI, "", 0);
	token(T_EOI, "", 0);
}
static struct type *make_struct_packed(int packing, int is_union, int n, struct field *f) {
	struct struct_data *d = register_struct();
	*d = (struct struct_data) { .is_complete = 1, .is_union = is_union, .n = n, .fields = f, .packing = packing };
	calculate_offsets(d);
	return type_create(&(struct type) { .type = TY_STRUCT, .struct_data = d }, NULL);
}
#define make_struct(...) make_struct_packed(0, __VA_ARGS__)
static struct type *incomplete(struct type *t) { return type_create(&(struct type) { .type = TY_INCOMPLETE_ARRAY, .n = 1 }, (struct type *[]) { t }); }
#define F(NAME, TYPE, BITS) ((struct field) { .name = { 1, NAME }, .type = (TYPE), .bitfield = (BITS) })
/* The objects, with their places given by the ABI:
 *  I: int arr[2] at 0, c at 8, (size 12)
 *  O: char a @0; int b:5 @8 bits of the first int, unsigned c:7, long d @8, char e[3] @16, struct I s @20, char *q @32, double is not used; size 40
 *  U: union { int u; char v[6]; } size 8
 *  P: struct { union U u; short h; } size 12 */
struct want { short at, bits, bo, k; };	/* k: value; -1: label; else 100 + character */
#ifndef CASE
#define CASE 0
#endif
void h_image(void) {
#ifdef AUTO
	gi_begin();
#else
	abi_init_sysv();
#endif
	for (int i = 0; i < NV; i++) {
		IN(u64, v, i);
		val[i] = v;
	}
	the_label = register_label();
	struct type *I, *T = NULL;
	struct type *ti = type_simple(ST_INT), *tc = type_simple(ST_CHAR);
	static struct field fi[2], fo[7], fu[2], fp[2];
	fi[0] = F("x", type_array(ti, 2), -1); fi[1] = F("y", ti, -1);
	I = make_struct(0, 2, fi);
#ifdef AUTO
	int soff;
	the_struct = variable_off(I, &soff, 0);
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 4; j++)
			gi_mem0.b[soff + 4 * i + j] = val[i] >> (8 * j);
#endif
	int size = 12, align = 4, n = 0;
	struct want w[16];
	char *s;
#define W(...) w[n++] = (struct want) { __VA_ARGS__ }
#if CASE < 20
	fo[0] = F("a", tc, -1); fo[1] = F("b", ti, 5); fo[2] = F("c", type_simple(ST_UINT), 7); fo[3] = F("d", type_simple(ST_LONG), -1);
	fo[4] = F("e", type_array(tc, 3), -1); fo[5] = F("s", I, -1); fo[6] = F("q", type_pointer(tc), -1);
	T = make_struct(0, 7, fo);
	size = 40; align = 8;
	/* a: bits 0-7, b: bits 8-12, c: bits 13-19 */
#define A(k) W(0, 8, 0, k)
#define B(k) W(0, 5, 8, k)
#define C(k) W(0, 7, 13, k)
#define D(k) W(8, 64, 0, k)
#define E(i, k) W(16 + i, 8, 0, k)
#define X(i, k) W(20 + 4 * i, 32, 0, k)
#define Y(k) W(28, 32, 0, k)
#define Q() W(32, 64, 0, -1)
#endif
	switch (CASE) {
	case 0: s = "{0,1,2,3,S,{{4,5},6},p}"; A(0); B(1); C(2); D(3); E(0, 220); E(1, 221); E(2, 222); X(0, 4); X(1, 5); Y(6); Q(); break;
	case 1: s = "{0,1,2,3,7,8,9,4,5,6,p,}"; A(0); B(1); C(2); D(3); E(0, 7); E(1, 8); E(2, 9); X(0, 4); X(1, 5); Y(6); Q(); break;
	case 2: s = "{.c=2,.b=1,.a=0}"; A(0); B(1); C(2); break;
	case 3: s = "{.q=p,.c=0,4,.s.y=1,.s.x[1]=2,.b=3}"; Q(); C(0); D(4); Y(1); X(1, 2); B(3); break;
	case 4: s = "{.s.x[1]=2,3,p,.a=4}"; X(1, 2); Y(3); Q(); A(4); break;
	case 5: s = "{.e={0,1,2},.e={3},.c=4}"; E(0, 3); C(4); break;
	case 6: s = "{.c=1,.e[1]=2,3,.c=4}"; C(4); E(1, 2); E(2, 3); break;
	case 7: s = "{.b=1,.s={.y=2,.x={3}},p,.d=5}"; B(1); Y(2); X(0, 3); Q(); D(5); break;
	case 8: s = "{{0},{1},2,.s={3,4,5}}"; A(0); B(1); C(2); X(0, 3); X(1, 4); Y(5); break;
	case 10: s = "{.s=w,.a=4}"; X(0, 0); X(1, 1); Y(2); A(4); break;	/* a struct value holding 0, 1, 2 */
	case 11: s = "{0,1,2,3,S,w,p}"; A(0); B(1); C(2); D(3); E(0, 220); E(1, 221); E(2, 222); X(0, 0); X(1, 1); Y(2); Q(); break;
	case 9: s = "{.e={S},.a=1}"; E(0, 220); E(1, 221); E(2, 222); A(1); break;
	/* arrays of structs */
	case 20: T = type_array(I, 3); size = 36; s = "{[2]={{0},1},[0].x[1]=2,3,4,5}"; W(24, 32, 0, 0); W(32, 32, 0, 1); W(4, 32, 0, 2); W(8, 32, 0, 3); W(12, 32, 0, 4); W(16, 32, 0, 5); break;
	case 21: T = type_array(I, 3); size = 36; s = "{{{0,1},2},3,4,5,{6}}"; W(0, 32, 0, 0); W(4, 32, 0, 1); W(8, 32, 0, 2); W(12, 32, 0, 3); W(16, 32, 0, 4); W(20, 32, 0, 5); W(24, 32, 0, 6); break;
	case 22: T = incomplete(I); size = 24; s = "{[1].y=0,[0]={.y=1}}"; W(20, 32, 0, 0); W(8, 32, 0, 1); break;
	case 23: T = type_array(type_array(type_simple(ST_SHORT), 3), 2); size = 12; align = 2; s = "{[1]={0},[0][1]=1,2,3}"; W(2, 16, 0, 1); W(4, 16, 0, 2); W(6, 16, 0, 3); break;
	case 24: T = type_array(type_array(type_simple(ST_SHORT), 3), 2); size = 12; align = 2; s = "{0,1,2,3}"; W(0, 16, 0, 0); W(2, 16, 0, 1); W(4, 16, 0, 2); W(6, 16, 0, 3); break;
	case 25: T = type_array(tc, 5); size = 5; align = 1; s = "S"; W(0, 8, 0, 220); W(1, 8, 0, 221); W(2, 8, 0, 222); break;
	case 26: T = type_array(tc, 6); size = 6; align = 1; s = "T"; for (int i = 0; i < 6; i++) W(i, 8, 0, 217 + i); break;
	case 27: T = incomplete(tc); size = 4; align = 1; s = "{S}"; W(0, 8, 0, 220); W(1, 8, 0, 221); W(2, 8, 0, 222); break;
	case 28: T = type_array(type_array(tc, 3), 3); size = 9; align = 1; s = "{S,[2]=T,[1]={0}}"; for (int i = 0; i < 3; i++) { W(i, 8, 0, 220 + i); W(6 + i, 8, 0, 217 + i); } W(3, 8, 0, 0); break;
	case 29: T = type_array(type_simple(ST_BOOL), 9); size = 9; align = 1; s = "{0,1,[8]=2}"; W(0, 8, 0, 300); W(1, 8, 0, 301); W(8, 8, 0, 302); break;
	case 30: T = type_array(type_pointer(tc), 3); size = 24; align = 8; s = "{p,[2]=p}"; W(0, 64, 0, -1); W(16, 64, 0, -1); break;
	case 31: T = ti; size = 4; s = "{3}"; W(0, 32, 0, 3); break;
	case 32: T = type_simple(ST_ULONG); size = align = 8; s = "3"; W(0, 64, 0, 3); break;
	/* packed: a at 0, pointer at 1, short at 9, pointer at 11, char[6] at 19 */
	case 33: case 34:
		fo[0] = F("a", tc, -1); fo[1] = F("p", type_pointer(tc), -1); fo[2] = F("b", type_simple(ST_SHORT), -1); fo[3] = F("q", type_pointer(tc), -1); fo[4] = F("e", type_array(tc, 6), -1);
		T = make_struct_packed(1, 0, 5, fo);
		size = 25; align = 1;
		s = CASE == 33 ? "{0,p,1,p,T}" : "{.q=p,.b=1,.e=S,.a=2}";
		W(11, 64, 0, -1); W(9, 16, 0, 1); W(0, 8, 0, CASE == 33 ? 0 : 2);
		if (CASE == 33) W(1, 64, 0, -1);
		for (int i = 0; i < (CASE == 33 ? 6 : 3); i++) W(19 + i, 8, 0, (CASE == 33 ? 217 : 220) + i);
		break;
	/* unions */
	case 40: case 41: case 42: case 43: case 44:
		fu[0] = F("u", ti, -1); fu[1] = F("v", type_array(tc, 6), -1);
		fp[0] = F("x", make_struct(1, 2, fu), -1); fp[1] = F("h", type_simple(ST_SHORT), -1);
		T = make_struct(0, 2, fp);
		size = 12;
		if (CASE == 40) { s = "{{0},1}"; W(0, 32, 0, 0); W(8, 16, 0, 1); }
		if (CASE == 41) { s = "{0,1}"; W(0, 32, 0, 0); W(8, 16, 0, 1); }
		if (CASE == 42) { s = "{{.v={0,1}},2}"; W(0, 8, 0, 0); W(1, 8, 0, 1); W(8, 16, 0, 2); }
		if (CASE == 43) { s = "{.x.v[5]=0,1}"; W(5, 8, 0, 0); W(8, 16, 0, 1); }
		if (CASE == 44) { s = "{.h=0,.x.v=T}"; W(8, 16, 0, 0); for (int i = 0; i < 6; i++) W(i, 8, 0, 217 + i); }
		break;
	}
	lex(s);
	struct initializer init = parse_initializer(&T);
	VP_ENSURE(toks[at].type == T_EOI, "the whole initializer is consumed");
#ifdef AUTO
	struct node *object = ir_allocate(calculate_size(T), 0);
	int off = gi_object(object, calculate_size(T));
	VP_ENSURE(calculate_size(T) == size && align, "the object has its size");
	for (int i = 0; i < 6; i++) {
		IN(u64, junk, 60 + i);
		for (int j = 0; j < 8; j++)
			if (off + 8 * i + j < 64) gi_mem0.b[off + 8 * i + j] = junk >> (8 * j);
	}
	ir_init_ptr(&init, T, object);
	struct gi_mem m2 = gi_final();
	for (int i = 0; i < size; i++) im.b[i] = m2.b[off + i];
	for (int i = 0; i < 64; i++)
		VP_ENSURE((i >= off && i < off + size) || m2.b[i] == gi_mem0.b[i], "bytes outside the object are left alone");
#else
	IN_RANGE(int, g, 50, 0, 1);
	IN_RANGE(int, lg, 51, -1, 5);
	data_register_static_var((struct string_view) { 1, "v" }, T, init, g, lg < 0 ? 0 : 1 << lg);
	data_codegen();
	VP_ENSURE(im.n == size, "the image has the size of the object");
	VP_ENSURE(im.align == (lg < 0 ? align : 1 << lg), "the object is aligned");
	VP_ENSURE(im.section && im.labelled == 1 && im.global == g && im.closed, "the object is named once, in its section");
#endif
	static u8 want[80];
	label_id lab[80] = { 0 };
	for (int i = 0; i < n; i++) {
#ifdef AUTO
		if (w[i].k == -1) w[i].k = 9;
#endif
		if (w[i].k == -1) { lab[w[i].at] = the_label; continue; }
		u64 v = w[i].k >= 300 ? val[w[i].k - 300] != 0 : w[i].k >= 100 ? (u64)w[i].k - 100 : val[w[i].k];
		u64 m = low(~0ull, w[i].bits) << w[i].bo;
		for (int j = 0; j < 8; j++)
			if ((m >> (8 * j) & 255) != 0)
				want[w[i].at + j] = (want[w[i].at + j] & ~(m >> (8 * j))) | ((v << w[i].bo & m) >> (8 * j));
	}
	for (int i = 0; i < 40; i++) {
		VP_ENSURE(im.lab[i] == lab[i] && im.off[i] == (lab[i] ? 12 : 0), "addresses stand exactly where they are given");
		VP_ENSURE(im.b[i] == want[i], "every byte of the image is as initialized, and zero elsewhere");
	}
	VP_REACH("image emitted");
}
void h_empty(void) {
	abi_init_sysv();
	data_register_static_var((struct string_view) { 1, "v" }, type_array(type_simple(ST_INT), 9), (struct initializer) { .type = INIT_EMPTY }, 0, 0);
	data_codegen();
	VP_ENSURE(im.n == 36 && im.align == 4 && im.labelled == 1, "an object without initializer is all zero");
	for (int i = 0; i < 36; i++)
		VP_ENSURE(im.b[i] == 0, "an object without initializer is all zero");
	VP_REACH("zeros");
}
