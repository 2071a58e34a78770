/* Ghost semantics of the IR: the value each node denotes.  Written from the
 * meaning of the operations, not from the code generator; C11/C12 prove that
 * the generated machine code computes these values. */
#ifndef GHOST_IR_H
#define GHOST_IR_H
#include "spec_int.h"
#include <ir/ir.h>
#include <ir/operators.h>
#include <abi/abi.h>
#include <arch/x64.h>

static u64 gi_mask(int size, u64 v) {
	switch (size) {
	case 1: return (u8)v;
	case 2: return (u16)v;
	case 4: return (u32)v;
	default: return v;
	}
}
static s64 gi_sext(int size, u64 v) {
	switch (size) {
	case 1: return (s8)v;
	case 2: return (s16)v;
	case 4: return (s32)v;
	default: return (s64)v;
	}
}
#include "gf.h"

#ifndef VP_CBMC
#undef GI_UF
#endif
#ifdef GI_UF
u64 __CPROVER_uninterpreted_mul(int, u64, u64);
u64 __CPROVER_uninterpreted_div(int, int, u64, u64);
#endif
/* binary operations on size-byte operands; the result is a size-byte value */
static int gi_is_div(int op) { return op == IR_DIV || op == IR_IDIV || op == IR_MOD || op == IR_IMOD; }
static int gi_is_flt(int op) { return op >= IR_FLT_ADD && op <= IR_FLT_NOT_EQUAL; }
static u64 gi_binary(int op, int size, u64 a, u64 b) {
	u64 ua = gi_mask(size, a), ub = gi_mask(size, b);
	s64 sa = gi_sext(size, a), sb = gi_sext(size, b);
	int w = size * 8;
#ifdef GI_UF	/* multiplication and division as uninterpreted functions */
	if (op == IR_MUL || op == IR_IMUL) return gi_mask(size, ua < ub ? __CPROVER_uninterpreted_mul(size, ua, ub) : __CPROVER_uninterpreted_mul(size, ub, ua));
	if (gi_is_div(op)) return gi_mask(size, __CPROVER_uninterpreted_div(op, size, ua, ub));
#endif
	switch (op) {
	case IR_ADD: return gi_mask(size, ua + ub);
	case IR_SUB: return gi_mask(size, ua - ub);
	case IR_MUL: case IR_IMUL: return gi_mask(size, ua * ub);
	case IR_DIV: return ub ? ua / ub : 0;
	case IR_MOD: return ub ? ua % ub : 0;
	case IR_IDIV: return sb == 0 || (sb == -1 && sa == INT64_MIN) ? 0 : gi_mask(size, (u64)(sa / sb));
	case IR_IMOD: return sb == 0 || (sb == -1 && sa == INT64_MIN) ? 0 : gi_mask(size, (u64)(sa % sb));
	case IR_LSHIFT: return ub < (u64)w ? gi_mask(size, ua << ub) : 0;
	case IR_RSHIFT: return ub < (u64)w ? ua >> ub : 0;
	case IR_IRSHIFT: return ub < (u64)w ? gi_mask(size, (u64)(sa >> ub)) : 0;
	case IR_BXOR: return ua ^ ub;
	case IR_BOR: return ua | ub;
	case IR_BAND: return ua & ub;
	case IR_LESS: return ua < ub;
	case IR_ILESS: return sa < sb;
	case IR_GREATER: return ua > ub;
	case IR_IGREATER: return sa > sb;
	case IR_LESS_EQ: return ua <= ub;
	case IR_ILESS_EQ: return sa <= sb;
	case IR_GREATER_EQ: return ua >= ub;
	case IR_IGREATER_EQ: return sa >= sb;
	case IR_EQUAL: return ua == ub;
	case IR_NOT_EQUAL: return ua != ub;
	case IR_FLT_ADD: return gf_arith(0, size, ua, ub);
	case IR_FLT_SUB: return gf_arith(1, size, ua, ub);
	case IR_FLT_MUL: return gf_arith(2, size, ua, ub);
	case IR_FLT_DIV: return gf_arith(3, size, ua, ub);
	case IR_FLT_LESS: return gf_less(size, ua, ub);
	case IR_FLT_GREATER: return gf_less(size, ub, ua);
	case IR_FLT_LESS_EQ: return gf_less(size, ua, ub) || gf_equal(size, ua, ub);
	case IR_FLT_GREATER_EQ: return gf_less(size, ub, ua) || gf_equal(size, ua, ub);
	case IR_FLT_EQUAL: return gf_equal(size, ua, ub);
	case IR_FLT_NOT_EQUAL: return !gf_equal(size, ua, ub);
	}
	VP_ENSURE(0, "an operation the IR defines");
	return 0;
}

/* leaves: nodes standing for an arbitrary value */
#define GI_NLEAF 4
static struct node *gi_leaf_node[GI_NLEAF];
static u64 gi_leaf_val[GI_NLEAF];
static int gi_nleaf;
static struct node *gi_leaf(int size, u64 v) {
	struct node *n = ir_new(IR_UNDEFINED, size);
	gi_leaf_node[gi_nleaf] = n;
	gi_leaf_val[gi_nleaf++] = gi_mask(size, v);
	return n;
}

/* Ghost memory: the bytes at GI_BASE.. .  Objects the harness declares have a
 * known address; an IR_ALLOC the code creates gets fresh space after them. */
#ifndef GI_MEMSZ
#define GI_MEMSZ 64
#endif
#define GI_BASE 0x1000
struct gi_mem { u8 b[GI_MEMSZ]; };
static struct gi_mem gi_mem0;	/* the memory before the code runs */
#define GI_NALLOC 8
static struct node *gi_alloc_node[GI_NALLOC];
static int gi_nalloc, gi_alloc_off[GI_NALLOC], gi_alloc_end;
static int gi_object(struct node *n, int size) {	/* declare n as an object; its offset */
	int off = gi_alloc_end;
	gi_alloc_node[gi_nalloc] = n;
	gi_alloc_off[gi_nalloc++] = off;
	gi_alloc_end += (size + 7) / 8 * 8;
	VP_ENSURE(gi_alloc_end <= GI_MEMSZ && gi_nalloc < GI_NALLOC, "the ghost memory is large enough");
	return off;
}
static u64 gi_address(struct node *n) {
	for (int i = 0; i < gi_nalloc; i++)
		if (gi_alloc_node[i] == n)
			return GI_BASE + gi_alloc_off[i];
	return GI_BASE + gi_object(n, n->alloc.size);
}
static u64 gi_read(struct gi_mem *m, u64 addr, int size) {
	u64 v = 0, off = addr - GI_BASE;
	VP_ENSURE(off <= GI_MEMSZ && off + size <= GI_MEMSZ, "a load stays inside the objects");
	for (int i = 0; i < size; i++)
		v |= (u64)m->b[off + i] << (8 * i);
	return v;
}
static void gi_write(struct gi_mem *m, u64 addr, int size, u64 v) {
	u64 off = addr - GI_BASE;
	VP_ENSURE(off <= GI_MEMSZ && off + size <= GI_MEMSZ, "a store stays inside the objects");
	for (int i = 0; i < size; i++)
		m->b[off + i] = v >> (8 * i);
}

static u64 gi_eval(struct node *n);
static struct node *gi_entry;	/* the block the code starts in */
/* is this block executed? */
static int gi_taken(struct node *b) {
	if (b == gi_entry)
		return 1;
	if (b->type == IR_REGION)
		return gi_taken(b->arguments[0]) || (b->arguments[1] && gi_taken(b->arguments[1]));
	VP_ENSURE(b->type == IR_PROJECT && b->arguments[0]->type == IR_IF, "a control node");
	struct node *f = b->arguments[0];
	return gi_taken(f->arguments[0]) && (gi_mask(f->arguments[1]->size, gi_eval(f->arguments[1])) != 0) == (b->project.index == 0);
}

/* the memory after the state-producing node s */
static struct gi_mem gi_after(struct node *s) {
	int t = s->type;
	if (t == IR_PROJECT) {
		struct node *n = s->arguments[0];
		if (n->type == IR_FUNCTION)
			return gi_mem0;
		VP_ENSURE(gi_is_div(n->type) || n->type == IR_LOAD_VOLATILE, "a state projection");
		return gi_after(node_get_prev_state(n));
	}
	if (t == IR_PHI) {
		if (gi_taken(s->arguments[0]->arguments[0]))
			return gi_after(s->arguments[1]);
		return gi_after(s->arguments[2]);
	}
	struct gi_mem m = gi_after(node_get_prev_state(s));
	if (t == IR_STORE) {
		gi_write(&m, gi_eval(s->arguments[0]), s->arguments[1]->size, gi_eval(s->arguments[1]));
	} else if (t == IR_SET_ZERO_PTR) {
		u64 a = gi_eval(s->arguments[0]);
		for (int i = 0; i < s->set_zero_ptr.size; i++)
			gi_write(&m, a + i, 1, 0);
	} else if (t == IR_COPY_MEMORY) {
		struct gi_mem o = m;
		u64 a = gi_eval(s->arguments[0]), b = gi_eval(s->arguments[1]);
		for (int i = 0; i < s->copy_memory.size; i++)
			gi_write(&m, a + i, 1, gi_read(&o, b + i, 1));
	} else {
		VP_ENSURE(0, "a memory operation");
	}
	return m;
}
/* the memory when control leaves the current block */
static struct gi_mem gi_final(void) { return gi_after(get_current_block()->block_info.state); }
static u64 gi_load(struct node *n, struct node *addr, struct node *state) {
	struct gi_mem m = gi_after(state);
	return gi_read(&m, gi_eval(addr), n->size);
}

static u64 gi_eval(struct node *n) {
	for (int i = 0; i < GI_NLEAF; i++)
		if (i < gi_nleaf && n == gi_leaf_node[i])
			return gi_leaf_val[i];
	int t = n->type;
	if (t == IR_ALLOC)
		return gi_address(n);
	if (t == IR_PHI)
		return gi_taken(n->arguments[0]->arguments[0]) ? gi_eval(n->arguments[1]) : gi_eval(n->arguments[2]);
	if (t == IR_PROJECT) {
		struct node *m = n->arguments[0];
		if (gi_is_div(m->type) && n->project.index == 0)
			return gi_binary(m->type, n->size, gi_eval(m->arguments[0]), gi_eval(m->arguments[1]));
		if (m->type == IR_LOAD_VOLATILE && n->project.index == 1)
			return gi_load(n, m->arguments[0], m->arguments[1]);
		VP_ENSURE(0, "a value projection");
		return 0;
	}
	if (t == IR_CONSTANT) {
		VP_ENSURE(n->constant.constant.type == CONSTANT_TYPE, "a numeric constant");
		return gi_mask(n->size, n->constant.constant.uint_d);
	}
	if (t == IR_ZERO) return 0;
	if (t == IR_LOAD)
		return gi_load(n, n->arguments[0], n->arguments[1]);
	struct node *x = n->arguments[0];
	u64 a = gi_eval(x);
	switch (t) {
	case IR_NEGATE_INT: return gi_mask(n->size, 0 - a);
	case IR_BINARY_NOT: return gi_mask(n->size, ~a);
	case IR_BOOL_CAST: return gi_mask(x->size, a) != 0;
	case IR_INT_CAST_ZERO: return gi_mask(n->size, gi_mask(x->size, a));
	case IR_INT_CAST_SIGN: return gi_mask(n->size, (u64)gi_sext(x->size, a));
	case IR_NEGATE_FLOAT: return n->size == 8 ? a ^ (1ull << 63) : (u32)a ^ (1u << 31);
	case IR_FLOAT_CAST: return x->size == n->size ? a : x->size == 4 ? gf_widen(a) : gf_narrow(a);
	case IR_INT_FLOAT_CAST: return gf_from_int(n->size, (u64)gi_sext(x->size, a));
	case IR_UINT_FLOAT_CAST: return gf_from_uint(n->size, gi_mask(x->size, a));
	case IR_FLOAT_INT_CAST: return n->size == 8 ? gf_to_int8(x->size, a) : gi_mask(n->size, gf_to_int(x->size, a));
	}
	VP_ENSURE(n->arguments[1] != NULL, "a binary operation has two operands");
	return gi_binary(t, x->size, a, gi_eval(n->arguments[1]));
}

/* a function and block to build IR in */
static void gi_begin(void) {
	abi_init_sysv();
	new_function("f", 0);
	gi_entry = ir_project(get_current_function(), 0, 0);
	ir_block_start(gi_entry);
}

/* the value an expression of type t must have, as the bits a node of its size holds */
static u64 gi_bits(enum simple_type t, u64 v) { return gi_mask(spec_bytes(t), v); }
#endif
