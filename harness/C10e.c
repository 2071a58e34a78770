/* C10 at expression level: reading, assigning, op-assigning and incrementing a
 * bit-field member of a struct in memory.  The struct occupies 16 bytes; the
 * member's storage unit is at byte 8 - SPEC: exactly the member's bits change. */
#define GI_NLEAF 6
#include "ir_expr.h"

static u64 fmask(int w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
/* the value of a field of type t, width w holding the raw bits r */
static u64 fvalue(enum simple_type t, int w, u64 r) {
	r &= fmask(w);
	return spec_signed(t) && (r >> (w - 1) & 1) ? r | ~fmask(w) : r;
}
static u64 word(struct gi_mem *m, int off) {
	u64 v = 0;
	for (int i = 0; i < 8; i++)
		v |= (u64)m->b[off + i] << (8 * i);
	return v;
}

/* WHAT: 0 read, 1 =, 2 op=, 3 ++/-- prefix, 4 postfix */
void h_expr(void) {
	gi_begin();
	enum simple_type t = T;
	int sz = spec_bytes(t), w = W;
	IN(u64, before, 0);
	IN(u64, unit, 1);
	IN(u64, val, 2);
	IN_RANGE(int, bo, 3, 0, 8 * spec_bytes(T) - W);
	static struct struct_data sd;
	sd = (struct struct_data) { .n = 1, .is_complete = 1, .size = 16, .alignment = 8 };
	sd.fields = malloc(sizeof *sd.fields);
	sd.fields[0] = (struct field) { .type = type_simple(t), .bitfield = w, .offset = 8, .bit_offset = bo };
	struct type *st = type_create(&(struct type) { .type = TY_STRUCT, .struct_data = &sd }, NULL);
	int off;
	struct expr *s = variable_off(st, &off, ALLOCATED);
	for (int i = 0; i < 8; i++) {
		gi_mem0.b[off + i] = before >> (8 * i);
		gi_mem0.b[off + 8 + i] = unit >> (8 * i);
	}
	struct expr *f = expr_new((struct expr) { .type = E_DOT_OPERATOR, .member = { s, 0 } });
	enum simple_type vt = VT;
	u64 old = fvalue(t, w, unit >> bo), v = spec_wrap(vt, val), want, res;
	struct expr *e;
	enum simple_type rt = t;
	if (WHAT == 0) {
		want = old;
		res = old;
		e = f;
	} else if (WHAT == 1) {
		want = fvalue(t, w, spec_convert(t, v));
		res = want;
		e = EXPR_ARGS(E_ASSIGNMENT, f, ivar(vt, val, 0));
	} else if (WHAT == 2) {
		enum simple_type ct = spec_usual(spec_promote(t, w), spec_promote(vt, -1));
		u64 r = spec_wrap(ct, OPER == OP_ADD ? old + v : OPER == OP_SUB ? old - v : OPER == OP_BXOR ? old ^ v : OPER == OP_BOR ? old | v : old & v);
		want = fvalue(t, w, spec_convert(t, r));
		res = want;
		e = EXPR_ASSIGNMENT_OP(OPER, f, ivar(vt, val, 0), 0);
	} else {
		enum simple_type ct = spec_usual(spec_promote(t, w), ST_INT);
		want = fvalue(t, w, spec_convert(t, spec_wrap(ct, OPER == OP_ADD ? old + 1 : old - 1)));
		res = WHAT == 3 ? want : old;
		e = EXPR_ASSIGNMENT_OP(OPER, f, EXPR_INT(1), WHAT == 4);
	}
	(void)rt;
	struct node *n = expression_to_ir(e);
	VP_REACH("translated");
	struct gi_mem m = gi_final();
	u64 mask = fmask(w) << bo, unit2 = word(&m, off + 8);
	VP_ENSURE(word(&m, off) == before, "bytes outside the storage unit are left alone");
	VP_ENSURE((unit2 & ~mask) == (unit & ~mask), "every bit outside the field is left alone");
	VP_ENSURE((unit2 & mask) == ((want << bo) & mask), "the field holds the new value modulo 2^width");
	u64 got = gi_eval(n);
	VP_ENSURE(n->size == sz || WHAT == 0, "the result has the size of the field's type");
	VP_ENSURE(gi_mask(sz, got) == gi_mask(sz, res), "the value of the expression is the field's value");
}
