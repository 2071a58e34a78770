/* C25: classification (psABI 3.2.3) and the places of arguments and results, on
 * caller and callee side.  The IR operations the code under contract calls are
 * recorded; every recorded register and stack slot is compared with the
 * places computed here from the types alone. */
#include "vp.h"
#include <common.h>
#include <types.h>
#include <abi/abi.h>
#include <arch/calling.h>
#include <arch/x64.h>
#include <assembler/assembler.h>
#include <ir/ir.h>
#include <parser/symbols.h>
#include <parser/expression_to_ir.h>

/* environment: the types made for va_list */
static struct type some_type;
struct type *type_create(struct type *p, struct type **c) { (void)p; (void)c; return &some_type; }
struct type *type_simple(enum simple_type s) { (void)s; return &some_type; }
struct type *type_pointer(struct type *t) { (void)t; return &some_type; }
struct type *type_struct(struct struct_data *s) { (void)s; return &some_type; }
void calculate_offsets(struct struct_data *s) { (void)s; }
enum { P_GP, P_SSE, P_MEM };
struct row { struct type *t; int size, n, cls[2]; };
#include "C25_types.h"
static struct type void_type = { .type = TY_SIMPLE, .simple = ST_VOID };
static int part_size(const struct row *d, int p) { return d->size - 8 * p < 8 ? d->size - 8 * p : 8; }

#if CLASSIFY >= 0
void h_classify(void) {
	abi_init_sysv();
	for (int i = FROM; i < TO && i < (int)(sizeof rows / sizeof *rows); i++) {
		int n = -1;
		enum parameter_class c[4];
		classify(rows[i].t, &n, c);
		VP_ENSURE(n == rows[i].n, "number of eightbytes");
		for (int p = 0; p < rows[i].n; p++)
			VP_ENSURE(c[p] == (rows[i].cls[p] == P_GP ? CLASS_INTEGER : rows[i].cls[p] == P_SSE ? CLASS_SSE : CLASS_MEMORY), "class of an eightbyte");
	}
	VP_REACH("classify");
}
#else
/* ---- recorded IR ---- */
enum { N_NONE, N_ARG, N_PART, N_SET, N_GET, N_STACK, N_STORE, N_ALLOC, N_CAST, N_CONST, N_CALLEE, N_VALUE, N_FUNC };
struct gn { int kind, index, off, size, reg, sse; struct gn *a, *b; };
static struct gn pool[400];
static int npool;
static struct gn *mk(int kind) { pool[npool].kind = kind; pool[npool].a = pool[npool].b = NULL; return &pool[npool++]; }
#define GN(P) ((struct gn *)(P))
#define NODE(P) ((struct node *)(P))
static struct gn *call_regs, *call_stack, *call_source;
static int ncalls, nstores, ncopies, nbases;
static struct { struct gn *addr, *value; int off, size; } st[48], bases[24], copies[2];
struct node *ir_load_part_address(struct node *a, int off, int size) { struct gn *n = mk(N_PART); n->a = GN(a); n->off = off; n->size = size; return NODE(n); }
void ir_store_part_address(struct node *a, struct node *v, int off) { st[nstores].addr = GN(a); st[nstores].value = GN(v); st[nstores].size = GN(v)->size; st[nstores++].off = off; }
struct node *ir_allocate(int size, int align) { struct gn *n = mk(N_ALLOC); n->size = size; n->off = align; return NODE(n); }
void ir_allocate_preamble(int size) { (void)size; }
struct node *ir_allocate_call_stack(int change) { struct gn *n = mk(N_STACK); n->size = change; return NODE(n); }
struct node *ir_store_stack_relative_address(struct node *cs, struct node *v, int off, int size) { struct gn *n = mk(N_STORE); n->a = GN(cs); n->b = GN(v); n->off = off; n->size = size; return NODE(n); }
struct node *ir_set_reg(struct node *v, struct node *s, int reg, int sse) { struct gn *n = mk(N_SET); n->a = GN(s); n->b = GN(v); n->reg = reg; n->sse = sse; return NODE(n); }
struct node *ir_get_reg(struct node *s, int size, int reg, int sse) { struct gn *n = mk(N_GET); n->a = GN(s); n->size = size; n->reg = reg; n->sse = sse; return NODE(n); }
void ir_call(struct node *c, struct node *rs, struct node *cs, int keep, struct node **src) { (void)keep; VP_ENSURE(GN(c)->kind == N_CALLEE, "the callee is called"); call_regs = GN(rs); call_stack = GN(cs); ncalls++; call_source = mk(N_FUNC); *src = NODE(call_source); }
struct node *ir_cast_int(struct node *v, int size, int sign) { struct gn *n = mk(N_CAST); n->a = GN(v); n->size = size; (void)sign; return NODE(n); }
struct node *ir_constant(struct constant c) { struct gn *n = mk(N_CONST); n->size = (int)c.uint_d; return NODE(n); }
void ir_copy_memory(struct node *d, struct node *s, int size) { copies[ncopies].addr = GN(d); copies[ncopies].value = GN(s); copies[ncopies++].size = size; }
void ir_load_base_relative_address(struct node *cs, struct node *a, int off, int size) { bases[nbases].value = GN(cs); bases[nbases].addr = GN(a); bases[nbases].off = off; bases[nbases++].size = size; }
struct constant constant_simple_unsigned(enum simple_type t, uint64_t v) { struct constant c = { 0 }; (void)t; c.uint_d = v; return c; }
static struct node a_block, a_func;
struct node *new_block(void) { return &a_block; }
void ir_block_start(struct node *b) { (void)b; }
void node_set_argument(struct node *n, int i, struct node *a) { (void)n; (void)i; (void)a; }
static struct gn *incoming[4];
struct node *ir_project(struct node *n, int i, int size) { (void)n; (void)size; if (!incoming[i]) incoming[i] = mk(N_FUNC); return NODE(incoming[i]); }
struct node *evaluated_expression_to_address(struct evaluated_expression *e) { return NODE(GN(e->variable)); }
struct node *evaluated_expression_to_var(struct evaluated_expression *e) {
	if (GN(e->variable)->kind == N_CALLEE) return e->variable;
	struct gn *n = mk(N_PART); n->a = GN(e->variable); n->off = 0; n->size = GN(e->variable)->size; return NODE(n);
}

/* ---- places ---- */
static const int gp[6] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 }, retgp[2] = { REG_RAX, REG_RDX };
static const struct row *arg[24], *ret;
static int narg, has_ret;
static struct { int mem, off, n, reg[2], sse[2]; } place[24], rplace;
static int used_gp, used_sse, stack_size;
static void places(void) {
	int ng = 0, ns = 0, at = 0;
	if (has_ret && ret->cls[0] == P_MEM) ng = 1;
	for (int i = 0; i < narg; i++) {
		const struct row *d = arg[i];
		int g = 0, s = 0, n = d->n;
		place[i].n = n;
		for (int p = 0; p < n; p++) if (d->cls[p] == P_SSE) s++; else g++;
		place[i].mem = d->cls[0] == P_MEM || ng + g > 6 || ns + s > 8;
		if (place[i].mem) { place[i].off = at; at += (d->size + 7) / 8 * 8; continue; }
		for (int p = 0; p < n; p++) {
			place[i].sse[p] = d->cls[p] == P_SSE;
			place[i].reg[p] = place[i].sse[p] ? ns++ : gp[ng++];
		}
	}
	used_gp = ng; used_sse = ns; stack_size = at;
	int g = 0, s = 0;
	if (has_ret) {
		rplace.mem = ret->cls[0] == P_MEM;
		rplace.n = ret->n;
		for (int p = 0; !rplace.mem && p < rplace.n; p++) {
			rplace.sse[p] = ret->cls[p] == P_SSE;
			rplace.reg[p] = rplace.sse[p] ? s++ : retgp[g++];
		}
	}
}
static struct gn *in_reg(struct gn *s, int reg, int sse) {
	for (int i = 0; i < 40 && s; i++, s = s->a)
		if (s->kind == N_SET && s->reg == reg && s->sse == sse) return s->b;
	return NULL;
}
static int count_regs(struct gn *s) { int n = 0; for (int i = 0; i < 40 && s; i++, s = s->a) if (s->kind == N_SET) n++; return n; }
static int holds_part(struct gn *v, struct gn *object, int off, int size) {
	return v && v->kind == N_PART && v->a == object && v->off == off && v->size == size;
}
static struct type ftype;
static void reset(void) {
	npool = ncalls = nstores = ncopies = nbases = 0;
	call_regs = call_stack = NULL;
	for (int i = 0; i < 4; i++) incoming[i] = NULL;
	ftype.type = TY_FUNCTION;
	ftype.n = narg + 1;
	ftype.children[0] = has_ret ? ret->t : &void_type;
	for (int i = 0; i < narg; i++) ftype.children[i + 1] = arg[i]->t;
}
static void caller(void) {
	reset();
	places();
	static struct type ptr;
	ptr.type = TY_POINTER; ptr.n = 1; ptr.children[0] = &ftype;
	struct gn *object[24];
	struct evaluated_expression e[24], callee = { .type = EE_VARIABLE, .data_type = &ptr };
	callee.variable = NODE(mk(N_CALLEE));
	for (int i = 0; i < narg; i++) {
		object[i] = mk(N_ARG); object[i]->index = i; object[i]->size = arg[i]->size;
		e[i] = (struct evaluated_expression) { .type = EE_VARIABLE, .data_type = arg[i]->t };
		e[i].variable = NODE(object[i]);
	}
	struct evaluated_expression r = abi_expr_call(&callee, narg, e);
	VP_ENSURE(ncalls == 1, "one call");
	int regs = 1;
	for (int i = 0; i < narg; i++) {
		if (place[i].mem) {
			struct gn *s = call_stack;
			for (int k = 0; k < 24 && s && s->kind == N_STORE && s->off != place[i].off; k++) s = s->a;
			VP_ENSURE(s && s->kind == N_STORE && s->b == object[i] && s->size == arg[i]->size, "an argument is passed in its place on the stack");
			continue;
		}
		for (int p = 0; p < place[i].n; p++, regs++)
			VP_ENSURE(holds_part(in_reg(call_regs, place[i].reg[p], place[i].sse[p]), object[i], 8 * p, part_size(arg[i], p)), "an eightbyte of an argument is passed in its register");
	}
	struct gn *s = call_stack;
	for (int k = 0; k < 24 && s && s->kind == N_STORE; k++) s = s->a;
	VP_ENSURE(s && s->kind == N_STACK && s->size <= -stack_size && s->size % 16 == 0, "the stack arguments have room and the stack is aligned to 16 bytes");
	struct gn *al = in_reg(call_regs, REG_RAX, 0);
	VP_ENSURE(al && al->kind == N_CONST && al->size >= used_sse && al->size <= 8, "al bounds the number of vector registers used");
	if (!has_ret) { VP_ENSURE(r.type == EE_VOID, "a void call has no value"); return; }
	VP_ENSURE(r.data_type == ret->t, "type of the result");
	if (rplace.mem) {
		struct gn *a = in_reg(call_regs, REG_RDI, 0);
		regs++;
		VP_ENSURE(r.type == EE_POINTER && GN(r.pointer) == a && a->kind == N_ALLOC && a->size >= ret->size, "a result in memory is where rdi points");
	} else if (r.type == EE_VARIABLE) {
		struct gn *v = GN(r.variable);
		while (v->kind == N_CAST) { VP_ENSURE(v->size == ret->size, "size of the result"); v = v->a; }
		VP_ENSURE(rplace.n == 1 && v->kind == N_GET && v->a == call_source && v->size >= ret->size && v->reg == rplace.reg[0] && v->sse == rplace.sse[0], "the result is taken from its register");
	} else {
		VP_ENSURE(r.type == EE_POINTER && GN(r.pointer ? r.pointer : r.variable)->kind == N_ALLOC && GN(r.pointer ? r.pointer : r.variable)->size == ret->size, "the result is put in an object of its size");
		for (int p = 0; p < rplace.n; p++) {
			int k = 0;
			while (k < nstores && st[k].off != 8 * p) k++;
			struct gn *v = k < nstores ? st[k].value : NULL;
			VP_ENSURE(v && st[k].addr == GN(r.pointer ? r.pointer : r.variable) && v->size <= part_size(ret, p), "the result is stored within its object");
			int size = v->size;
			while (v->kind == N_CAST) v = v->a;
			VP_ENSURE(size == part_size(ret, p) && v->kind == N_GET && v->a == call_source && v->reg == rplace.reg[p] && v->sse == rplace.sse[p], "an eightbyte of the result is taken from its register");
		}
	}
	VP_ENSURE(count_regs(call_regs) == regs, "nothing else is put in a register");
}
static void callee(void) {
	static struct symbol_identifier sym[24];
	struct symbol_identifier *ids[24];
	reset();
	places();
	for (int i = 0; i < narg; i++) {
		sym[i].type = IDENT_PARAMETER; sym[i].parameter.type = arg[i]->t; sym[i].alignment = 0;
		ids[i] = &sym[i];
	}
	abi_expr_function(&a_func, &ftype, ids);
	int stores = 0;
	for (int i = 0; i < narg; i++) {
		VP_ENSURE(sym[i].type == IDENT_VARIABLE && sym[i].variable.type == arg[i]->t, "a parameter is a variable of its type");
		struct gn *a = GN(sym[i].variable.ptr);
		VP_ENSURE(a->kind == N_ALLOC && a->size == arg[i]->size, "a parameter has an object of its size");
		if (place[i].mem) {
			int k = 0;
			while (k < nbases && bases[k].addr != a) k++;
			VP_ENSURE(k < nbases && bases[k].off == 16 + place[i].off && bases[k].size == arg[i]->size && bases[k].value == incoming[2], "a parameter is loaded from its place on the stack");
			continue;
		}
		for (int p = 0; p < place[i].n; p++, stores++) {
			int k = 0;
			while (k < nstores && !(st[k].addr == a && st[k].off == 8 * p)) k++;
			struct gn *v = k < nstores ? st[k].value : NULL;
			VP_ENSURE(v && v->kind == N_GET && v->a == incoming[1] && v->reg == place[i].reg[p] && v->sse == place[i].sse[p] && v->size == part_size(arg[i], p), "an eightbyte of a parameter is taken from its register");
		}
	}
	VP_ENSURE(stores == nstores, "nothing else is stored");
	/* return */
	struct node *rs = NULL;
	struct evaluated_expression v = { .type = EE_VOID };
	struct gn *object = mk(N_ARG);
	object->size = has_ret ? ret->size : 0;
	if (has_ret) { v.type = EE_VARIABLE; v.data_type = ret->t; v.variable = NODE(object); }
	abi_expr_return(&a_func, &v, &rs);
	struct gn *b = in_reg(GN(rs), REG_RBX, 0);
	VP_ENSURE(b && b->kind == N_GET && b->a == incoming[1] && b->reg == REG_RBX && !b->sse && b->size == 8, "rbx is restored");
	if (!has_ret) return;
	if (rplace.mem) {
		struct gn *a = ncopies == 1 ? copies[0].addr : NULL, *x = in_reg(GN(rs), REG_RAX, 0);
		VP_ENSURE(a && a->kind == N_GET && a->a == incoming[1] && a->reg == REG_RDI && !a->sse && a->size == 8 && copies[0].value == object && copies[0].size == ret->size, "a result in memory is copied to where rdi pointed");
		VP_ENSURE(x == a, "the address of a result in memory is returned in rax");
		return;
	}
	for (int p = 0; p < rplace.n; p++)
		VP_ENSURE(holds_part(in_reg(GN(rs), rplace.reg[p], rplace.sse[p]), object, 8 * p, part_size(ret, p)), "an eightbyte of the result is put in its register");
}
static void program(int g, int s, int t, int r) {
	narg = 0;
	for (int i = 0; i < g || i < s; i++) {
		if (i < g) arg[narg++] = &rows[i % 2 ? 3 : 0];
		if (i < s) arg[narg++] = &rows[i % 2 ? 2 : 1];
	}
	arg[narg++] = &rows[t];
	arg[narg++] = &rows[13];
	arg[narg++] = &rows[(t + 5) % 16];
	arg[narg++] = &rows[1];
	has_ret = r >= 0;
	if (has_ret) ret = &rows[r];
	if (CALLER) caller(); else callee();
}
static void run_all(void) {
	abi_init_sysv();
	program(5, 7, TT, TT);
	program(4, 6, TT, -1);
	program(TT % 2 ? 6 : 1, TT % 2 ? 1 : 8, TT, TT % 3 ? 8 : 12);
	VP_REACH("calls");
}
void h_call(void) { run_all(); }
#endif
