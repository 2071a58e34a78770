/* C11 C12 C13 C30: codegen() on a function of one block holding the instruction
 * under test.  Everything it emits runs on the ghost machine (machine.h).
 * Operands are leaf nodes: they have a stack slot and emit no code; their values
 * are put in their slots when the block is entered.
 * SPEC: when the function returns, the result's slot holds the value the IR
 * operation denotes (ghost_ir.h); another node's slot, the caller's frame and (for
 * value operations) memory are unchanged; rsp and rbp are restored. */
#define GI_UF
#include "machine.h"

static void no_preamble(struct node *f) { (void)f; }
static int sizes(enum simple_type t) { return spec_bytes(t); }
static struct node *fn, *block, *last;
#define NLEAF 5
static struct node *leaf_n[NLEAF];
static u64 leaf_v[NLEAF];
static int nleaf, entered;

static struct node *new_node(int type, int size) {
	struct node *n = malloc(sizeof *n);
	*n = (struct node) { .type = type, .size = size };
	return n;
}
static void emit(struct node *n) {	/* append to the block */
	n->block = block;
	if (last) last->next = n;
	else block->child = n;
	last = n;
}
static struct node *leaf(int size, u64 v) {
	struct node *n = new_node(IR_PHI, size);
	emit(n);
	leaf_n[nleaf] = n;
	leaf_v[nleaf++] = v;
	return n;
}
static u64 slot(struct node *n) { return mc_reg[REG_RBP] - n->cg_info.stack_location; }
static void mc_call(u64 target) { (void)target; }
static label_id ran[3];
static int nran;
static void mc_block_label(label_id l) {
	if (mc_jumped && mc_target == l)
		mc_jumped = 0;
	if (mc_jumped || mc_ended)
		return;
	if (nran < 3) ran[nran++] = l;
	if (l == block->block_info.label && !entered) {
		entered = 1;
		for (int i = 0; i < nleaf; i++)
			for (int k = 0; k < leaf_n[i]->size; k++)
				*mc_byte(slot(leaf_n[i]) + k) = leaf_v[i] >> (8 * (k & 7)) ^ (k >> 3) * 0x35;
	}
}
static void start(void) {
	fn = new_node(IR_FUNCTION, 0);
	fn->function.name = "f";
	block = new_node(IR_PROJECT, 0);
	fn->child = block;
	first_function = fn;
	last = NULL;
	nleaf = entered = nran = 0;
	mc_ended = mc_jumped = 0;
	abi_sizeof_simple = sizes;	/* C08 */
	abi_emit_function_preamble = no_preamble;
	codegen_flags.code_model = CODE_MODEL_SMALL;
	mc_begin();
}
static u64 caller_frame(void) {
	u64 v = 0;
	for (int i = 0; i < 32; i++)
		v = v * 31 + mc_stack[SP0 - STACK0 + i];
	return v;
}
static struct node *by;	/* a bystander */
static u64 by_v;
static struct gi_mem mem0;
static u64 result(struct node *n) {
	/* the slots lie below the final rsp and are still there */
	return mc_load(SP0 - 8 - n->cg_info.stack_location, n->size);
}
static void go(int same_memory) {
	/* the call's frame: a return address and what the caller has above */
	u8 frame[32];
	for (int i = 0; i < 32; i++)
		frame[i] = mc_stack[SP0 - STACK0 + i];
	mem0 = gi_mem0;
	block->block_info.end = new_node(IR_RETURN, 0);
	codegen();
	VP_ENSURE(mc_ended == 1, "the function returns");
	VP_ENSURE(entered, "its block runs");
	VP_ENSURE(mc_reg[REG_RSP] == SP0 + 8 && mc_reg[REG_RBP] == mc_entry_rbp, "rsp and rbp are restored");
	int same = 1;
	for (int i = 0; i < 32; i++)
		same &= frame[i] == mc_stack[SP0 - STACK0 + i];
	VP_ENSURE(same, "the caller's frame is unchanged");
	if (by)
		VP_ENSURE(result(by) == by_v, "other values keep theirs");
	if (same_memory) {
		for (int i = 0; i < GI_MEMSZ; i++)
			same &= mem0.b[i] == gi_mem0.b[i];
		VP_ENSURE(same, "memory is unchanged");
	}
}
static void bystander(void) {
	by_v = vp_get(40);
	by = leaf(8, by_v);
}

/* is this input one for which C defines the result? (C11 6.5.5p5, 6.5.7p3) */
static int defined(int op, int size, u64 a, u64 b) {
	if (gi_is_div(op)) {
		if (b == 0) return 0;
		if (op == IR_IDIV || op == IR_IMOD)
			return !(gi_sext(size, b) == -1 && gi_mask(size, a) == 1ull << (8 * size - 1));
	}
	if (op == IR_LSHIFT || op == IR_RSHIFT || op == IR_IRSHIFT)
		return b < (u64)size * 8;
	return 1;
}
#ifdef OPS
static void binary(int OP, int SZ) {
	start();
	IN(u64, a, 0);
	IN(u64, b, 1);
	a = gi_mask(SZ, a), b = gi_mask(SZ, b);
	if (!defined(OP, SZ, a, b)) b = 1;
	struct node *x = leaf(SZ, a);
	bystander();
	struct node *y = leaf(SZ, b);
	struct node *n = new_node(OP, gi_is_div(OP) ? 0 : RSZ ? RSZ : SZ), *r = n;
	n->arguments[0] = x;
	n->arguments[1] = y;
	emit(n);
	if (gi_is_div(OP)) {
		r = new_node(IR_PROJECT, SZ);
		r->arguments[0] = n;
		n->projects[0] = r;
		emit(r);
	}
	u64 want = gi_mask(r->size, gi_binary(OP, SZ, a, b));
	go(1);
	VP_ENSURE(result(r) == want, "the result is the value the operation denotes");
}
void h_binary(void) {
	static const int ops[] = { OPS };
	for (int i = 0; i < (int)(sizeof ops / sizeof *ops); i++) {
		binary(ops[i], 4);
		binary(ops[i], 8);
	}
	VP_REACH("end");
}
#endif
#ifdef UN
/* one operand: from fsz bytes to sz bytes */
static void unary(int fsz, int sz) {
	start();
	IN(u64, a, 0);
	a = gi_mask(fsz, a);
#ifdef GF_REAL
	if (UN == IR_FLOAT_INT_CAST) {	/* values that fit long or unsigned long */
		double d = fsz == 8 ? gfd(a) : gff(a);
		VP_REQUIRE(d >= -9223372036854775808.0 && d < 18446744073709551616.0);
	}
#endif
	struct node *x = leaf(fsz, a);
	bystander();
	struct node *n = new_node(UN, sz);
	n->arguments[0] = x;
	emit(n);
	gi_leaf_node[0] = x;
	gi_leaf_val[0] = a;
	gi_nleaf = 1;
	u64 want = gi_eval(n);
	go(1);
	VP_ENSURE(result(n) == want, "the result is the value the operation denotes");
}
void h_unary(void) {
	static const int from[] = { FROM }, to[] = { TO };
	for (int i = 0; i < (int)(sizeof from / sizeof *from); i++)
		for (int k = 0; k < (int)(sizeof to / sizeof *to); k++)
			if (!SAME || from[i] == to[k])
				unary(from[i], to[k]);
	VP_REACH("end");
}
#endif
void h_constant(void) {
	static const int sizes[] = { 1, 2, 4, 8 };
	static const enum simple_type ts[] = { ST_SCHAR, ST_USHORT, ST_INT, ST_ULONG };
	for (int i = 0; i < 4; i++) {
		start();
		IN(u64, a, 0);
		bystander();
		struct node *n = new_node(IR_CONSTANT, sizes[i]);
		n->constant.constant = (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(ts[i]) };
		if (i & 1) n->constant.constant.uint_d = gi_mask(sizes[i], a);
		else n->constant.constant.int_d = gi_sext(sizes[i], a);
		emit(n);
		go(1);
		VP_ENSURE(result(n) == gi_mask(sizes[i], a), "the slot holds the constant");
	}
	VP_REACH("end");
}
/* the end of a block: a branch on a condition of CSZ bytes */
void h_branch(void) {
	start();
	IN(u64, c, 0);
	c = gi_mask(CSZ, c);
	struct node *x = leaf(CSZ, c);
	bystander();
	struct node *t = new_node(IR_PROJECT, 0), *f = new_node(IR_PROJECT, 0), *s = new_node(IR_IF, 0);
	s->arguments[0] = block;
	s->arguments[1] = x;
	s->if_info.block_true = t;
	s->if_info.block_false = f;
	block->block_info.end = s;
	block->next = ORDER ? f : t;
	(ORDER ? f : t)->next = ORDER ? t : f;
	struct node *ret = new_node(IR_RETURN, 0);
	t->block_info.end = f->block_info.end = ret;
	codegen();
	VP_ENSURE(mc_ended == 1 && nran >= 2, "one of the blocks runs and returns");
	VP_ENSURE(ran[nran - 1] == (c ? t : f)->block_info.label, "the true block runs if and only if the condition is not zero");
	VP_ENSURE(mc_reg[REG_RSP] == SP0 + 8 && mc_reg[REG_RBP] == mc_entry_rbp, "rsp and rbp are restored");
	VP_ENSURE(result(by) == by_v, "other values keep theirs");
	VP_REACH("end");
}
/* a jump to a region with phis */
void h_phi(void) {
	start();
	IN(u64, a, 0);
	IN(u64, b, 1);
	a = gi_mask(CSZ, a);
	struct node *x = leaf(CSZ, a);
	bystander();
	struct node *r = new_node(IR_REGION, 0), *other = new_node(IR_PROJECT, 0), *y = leaf(CSZ, b);
	struct node *p = new_node(IR_PHI, CSZ), *q = new_node(IR_PHI, 8), *m = new_node(IR_PHI, 0), *z = new_node(IR_PHI, 4);
	p->arguments[0] = q->arguments[0] = m->arguments[0] = z->arguments[0] = r;
	p->arguments[1] = ORDER ? y : x;
	p->arguments[2] = ORDER ? x : y;
	q->arguments[1 + ORDER] = by;
	q->arguments[2 - ORDER] = x;
	z->arguments[2 - ORDER] = x;	/* no value on this edge */
	m->arguments[1] = m->arguments[2] = block;	/* memory */
	r->arguments[0] = ORDER ? other : block;
	r->arguments[1] = ORDER ? block : other;
	struct node *uses[6] = { m, p, z, r, q };
	r->uses = uses;
	r->use_size = 5;
	block->block_info.end = r;
	block->next = NEAR ? r : other;
	(NEAR ? r : other)->next = NEAR ? other : r;
	r->child = m;
	m->next = p;
	p->next = z;
	z->next = q;
	m->block = p->block = z->block = q->block = r;
	r->block_info.end = new_node(IR_RETURN, 0);
	codegen();
	VP_ENSURE(mc_ended == 1 && ran[nran - 1] == r->block_info.label, "control reaches the region");
	VP_ENSURE(result(p) == a && result(q) == by_v, "each phi holds the value of the edge taken");
	VP_ENSURE(result(by) == by_v && result(x) == a, "other values keep theirs");
	VP_REACH("end");
}
/* C13: transfers between memory and slots or within memory, N bytes */
#ifdef LO
/* WHAT: 0 load, 1 store, 2 load volatile, 3 load part, 4 store part, 5 copy, 6 clear */
static void memory(int N, int OFF) {
	start();
	IN(u64, a, 0);
	u64 w0 = vp_get(2), w1 = vp_get(3);
	for (int i = 0; i < GI_MEMSZ; i++)
		gi_mem0.b[i] = (i & 8 ? w0 : w1) >> (8 * (i & 7)) ^ i;
	struct gi_mem before = gi_mem0;
	int off = 8 + OFF, dst = N > 17 ? off + N + 7 : 40;
	bystander();
	struct node *addr = leaf(8, GI_BASE + off - (WHAT == 3 || WHAT == 4 ? 3 : 0)), *n, *r = NULL, *v = NULL;
	if (WHAT == 0) {
		r = n = new_node(IR_LOAD, N);
		n->arguments[0] = addr;
		emit(n);
	} else if (WHAT == 2 || WHAT == 3) {
		n = new_node(WHAT == 2 ? IR_LOAD_VOLATILE : IR_LOAD_PART_ADDRESS, 0);
		n->arguments[0] = addr;
		if (WHAT == 3) n->load_part.offset = 3;
		r = new_node(IR_PROJECT, N);
		n->projects[1] = r;
		emit(n);
		emit(r);
	} else if (WHAT == 1 || WHAT == 4) {
		v = leaf(N, a);
		n = new_node(WHAT == 1 ? IR_STORE : IR_STORE_PART_ADDRESS, 0);
		n->arguments[0] = addr;
		n->arguments[1] = v;
		if (WHAT == 4) n->store_part.offset = 3;
		emit(n);
	} else if (WHAT == 5) {
		n = new_node(IR_COPY_MEMORY, 0);
		n->arguments[0] = leaf(8, GI_BASE + dst);
		n->arguments[1] = addr;
		n->copy_memory.size = N;
		emit(n);
	} else {
		n = new_node(IR_SET_ZERO_PTR, 0);
		n->arguments[0] = addr;
		n->set_zero_ptr.size = N;
		emit(n);
	}
	struct node *after = leaf(8, a + 1);
	go(!(WHAT == 1 || WHAT >= 4));
	int ok = 1;
	for (int i = 0; i < N; i++) {
		u8 src = before.b[off + i], val = a >> (8 * (i & 7)) ^ (i >> 3) * 0x35;
		if (r) ok &= *mc_byte(SP0 - 8 - r->cg_info.stack_location + i) == src;
		else ok &= gi_mem0.b[WHAT == 5 ? dst + i : off + i] == (WHAT == 5 ? src : WHAT == 6 ? 0 : val);
	}
	VP_ENSURE(ok, "every byte of the object is transferred, in order");
	int d = WHAT == 5 ? dst : off;
	for (int i = 0; i < GI_MEMSZ; i++)
		if (r || i < d || i >= d + N)
			ok &= gi_mem0.b[i] == before.b[i];
	VP_ENSURE(ok, "no other byte of memory changes");
	VP_ENSURE(result(after) == a + 1, "neighbouring slots are unchanged");
}
void h_memory(void) {
	for (int n = LO; n <= HI; n++)
		memory(n, n % 7);
	VP_REACH("end");
}
#endif
