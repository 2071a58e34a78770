/* C24: parse_expression against the grammar of C11 6.5.
 * For every tree of operators below, the tokens of the expression are written
 * with parentheses exactly where the productions of 6.5 need them (the table op[]
 * below: the nonterminal an operator forms and those its operands must be); the
 * parser must give back that very tree.
 * Contracts of callees: expr_new records its argument (its conversions belong to
 * C03/C15); parse_type_name accepts the one type "int"; the token stream is an
 * array. */
#include "vp.h"
#include <common.h>
#include <parser/expression.h>
#include <parser/declaration.h>
#include <types.h>

/* the nonterminals of 6.5, loosest first */
enum { COMMA, ASSIGN, COND, LOR, LAND, BOR, XOR, BAND, EQ, REL, SHIFT, ADD, MUL, CAST, UNARY, POSTFIX, PRIMARY };
enum { K_BIN, K_ASSIGN, K_COMMA, K_COND, K_LOR, K_LAND, K_PRE, K_PREINC, K_POSTINC, K_NOT, K_ADDR, K_DEREF, K_SIZEOF, K_ALIGNOF, K_SIZEOF_T, K_CAST, K_INDEX, K_CALL0, K_CALL1, K_CALL2, K_DOT, K_ARROW, K_LEAF };
/* operator: kind, token, the nonterminal it forms, those its first and last operand must be, code in the tree */
#define OPS_LIST \
	X(K_COMMA, T_COMMA, COMMA, COMMA, ASSIGN, 0) \
	X(K_ASSIGN, T_A, ASSIGN, UNARY, ASSIGN, -1) \
	X(K_ASSIGN, T_MULA, ASSIGN, UNARY, ASSIGN, OP_MUL) \
	X(K_ASSIGN, T_DIVA, ASSIGN, UNARY, ASSIGN, OP_DIV) \
	X(K_ASSIGN, T_MODA, ASSIGN, UNARY, ASSIGN, OP_MOD) \
	X(K_ASSIGN, T_ADDA, ASSIGN, UNARY, ASSIGN, OP_ADD) \
	X(K_ASSIGN, T_SUBA, ASSIGN, UNARY, ASSIGN, OP_SUB) \
	X(K_ASSIGN, T_LSHIFTA, ASSIGN, UNARY, ASSIGN, OP_LSHIFT) \
	X(K_ASSIGN, T_RSHIFTA, ASSIGN, UNARY, ASSIGN, OP_RSHIFT) \
	X(K_ASSIGN, T_BANDA, ASSIGN, UNARY, ASSIGN, OP_BAND) \
	X(K_ASSIGN, T_XORA, ASSIGN, UNARY, ASSIGN, OP_BXOR) \
	X(K_ASSIGN, T_BORA, ASSIGN, UNARY, ASSIGN, OP_BOR) \
	X(K_COND, T_QUEST, COND, LOR, COND, 0) \
	X(K_LOR, T_OR, LOR, LOR, LAND, 0) \
	X(K_LAND, T_AND, LAND, LAND, BOR, 0) \
	X(K_BIN, T_BOR, BOR, BOR, XOR, OP_BOR) \
	X(K_BIN, T_XOR, XOR, XOR, BAND, OP_BXOR) \
	X(K_BIN, T_AMP, BAND, BAND, EQ, OP_BAND) \
	X(K_BIN, T_EQ, EQ, EQ, REL, OP_EQUAL) \
	X(K_BIN, T_NEQ, EQ, EQ, REL, OP_NOT_EQUAL) \
	X(K_BIN, T_L, REL, REL, SHIFT, OP_LESS) \
	X(K_BIN, T_G, REL, REL, SHIFT, OP_GREATER) \
	X(K_BIN, T_LEQ, REL, REL, SHIFT, OP_LESS_EQ) \
	X(K_BIN, T_GEQ, REL, REL, SHIFT, OP_GREATER_EQ) \
	X(K_BIN, T_LSHIFT, SHIFT, SHIFT, ADD, OP_LSHIFT) \
	X(K_BIN, T_RSHIFT, SHIFT, SHIFT, ADD, OP_RSHIFT) \
	X(K_BIN, T_ADD, ADD, ADD, MUL, OP_ADD) \
	X(K_BIN, T_SUB, ADD, ADD, MUL, OP_SUB) \
	X(K_BIN, T_STAR, MUL, MUL, CAST, OP_MUL) \
	X(K_BIN, T_DIV, MUL, MUL, CAST, OP_DIV) \
	X(K_BIN, T_MOD, MUL, MUL, CAST, OP_MOD) \
	X(K_CAST, T_LPAR, CAST, 0, CAST, 0) \
	X(K_PREINC, T_INC, UNARY, 0, UNARY, OP_ADD) \
	X(K_PREINC, T_DEC, UNARY, 0, UNARY, OP_SUB) \
	X(K_PRE, T_ADD, UNARY, 0, CAST, UOP_PLUS) \
	X(K_PRE, T_SUB, UNARY, 0, CAST, UOP_NEG) \
	X(K_PRE, T_BNOT, UNARY, 0, CAST, UOP_BNOT) \
	X(K_NOT, T_NOT, UNARY, 0, CAST, 0) \
	X(K_ADDR, T_AMP, UNARY, 0, CAST, 0) \
	X(K_DEREF, T_STAR, UNARY, 0, CAST, 0) \
	X(K_SIZEOF, T_KSIZEOF, UNARY, 0, UNARY, 0) \
	X(K_ALIGNOF, T_KALIGNOF, UNARY, 0, UNARY, 0) \
	X(K_SIZEOF_T, T_KSIZEOF, UNARY, 0, 0, 0) \
	X(K_POSTINC, T_INC, POSTFIX, POSTFIX, 0, OP_ADD) \
	X(K_POSTINC, T_DEC, POSTFIX, POSTFIX, 0, OP_SUB) \
	X(K_INDEX, T_LBRACK, POSTFIX, POSTFIX, COMMA, 0) \
	X(K_CALL0, T_LPAR, POSTFIX, POSTFIX, 0, 0) \
	X(K_CALL1, T_LPAR, POSTFIX, POSTFIX, ASSIGN, 0) \
	X(K_CALL2, T_LPAR, POSTFIX, POSTFIX, ASSIGN, 0) \
	X(K_DOT, T_DOT, POSTFIX, POSTFIX, 0, 0) \
	X(K_ARROW, T_ARROW, POSTFIX, POSTFIX, 0, 0)
#define X(k, t, l, a, b, s) k,
static const char op_kind[] = { OPS_LIST };
#undef X
#define X(k, t, l, a, b, s) t,
static const unsigned char op_tok[] = { OPS_LIST };
#undef X
#define X(k, t, l, a, b, s) l,
static const char op_level[] = { OPS_LIST };
#undef X
#define X(k, t, l, a, b, s) a,
static const char op_left[] = { OPS_LIST };
#undef X
#define X(k, t, l, a, b, s) b,
static const char op_right[] = { OPS_LIST };
#undef X
#define X(k, t, l, a, b, s) s,
static const short op_sig[] = { OPS_LIST };
#undef X
enum { NOPS = sizeof op_kind, LEAF = NOPS };
static int nkids(int o) {
	if (o == LEAF) return 0;
	switch (op_kind[o]) {
	case K_COND: case K_CALL2: return 3;
	case K_BIN: case K_ASSIGN: case K_COMMA: case K_LOR: case K_LAND: case K_INDEX: case K_CALL1: return 2;
	case K_SIZEOF_T: return 0;
	default: return 1;
	}
}
static int node_o[12], kid0[12], kid1[12], kid2[12];
static int nnodes;

static int tkind[48], tval[48];
struct token vp_cur;
static int ntoks, at;
static struct symbol_identifier sym[16];
static char type_of[64], int_type;
static struct expr *pool[64];
static int npool;

static void tok(int type, int value) {
	tkind[ntoks] = type;
	tval[ntoks] = value;
	ntoks++;
}
static void emit(int n, int level) {
	int o = node_o[n], l = o == LEAF ? PRIMARY : op_level[o];
	if (l < level) tok(T_LPAR, 0);
	if (o == LEAF)
		tok(T_IDENT, n);
	else {
		int k = op_kind[o], a = kid0[n], b = kid1[n];
		switch (k) {
		case K_BIN: case K_ASSIGN: case K_COMMA: case K_LOR: case K_LAND:
			emit(a, op_left[o]); tok(op_tok[o], 0); emit(b, op_right[o]); break;
		case K_COND: emit(a, LOR); tok(T_QUEST, 0); emit(b, COMMA); tok(T_COLON, 0); emit(kid2[n], COND); break;
		case K_CAST: tok(T_LPAR, 0); tok(T_KINT, 0); tok(T_RPAR, 0); emit(a, CAST); break;
		case K_SIZEOF_T: tok(T_KSIZEOF, 0); tok(T_LPAR, 0); tok(T_KINT, 0); tok(T_RPAR, 0); break;
		case K_POSTINC: emit(a, POSTFIX); tok(op_tok[o], 0); break;
		case K_INDEX: emit(a, POSTFIX); tok(T_LBRACK, 0); emit(b, COMMA); tok(T_RBRACK, 0); break;
		case K_CALL0: emit(a, POSTFIX); tok(T_LPAR, 0); tok(T_RPAR, 0); break;
		case K_CALL1: emit(a, POSTFIX); tok(T_LPAR, 0); emit(b, ASSIGN); tok(T_RPAR, 0); break;
		case K_CALL2: emit(a, POSTFIX); tok(T_LPAR, 0); emit(b, ASSIGN); tok(T_COMMA, 0); emit(kid2[n], ASSIGN); tok(T_RPAR, 0); break;
		case K_DOT: case K_ARROW: emit(a, POSTFIX); tok(op_tok[o], 0); tok(T_IDENT, 20 + n); break;
		default: tok(op_tok[o], 0); emit(a, op_right[o]); break;
		}
	}
	if (l < level) tok(T_RPAR, 0);
}

/* the environment */
static void show(void) { vp_cur.type = tkind[at]; vp_cur.str.len = tval[at]; }
struct token *t_peek(int n) { (void)n; return &vp_cur; }
void t_next(void) { at++; show(); }
void t_push(struct token t) { at--; tkind[at] = t.type; tval[at] = t.str.len; show(); }
struct symbol_identifier *symbols_get_identifier(struct string_view name) { return &sym[name.len]; }
struct type *parse_type_name(void) {
	if (vp_cur.type != T_KINT) return NULL;
	t_next();
	return (struct type *)&int_type;
}
struct expr *expr_new(struct expr e) {
	e.data_type = (struct type *)&type_of[npool];
	return pool[npool++] = ALLOC(e);
}
static struct expr *typed(int what, struct type *t, struct expr *e) {
	struct expr r;
	r.type = what; r.cast.arg = e; r.cast.target = t;
	return expr_new(r);
}
struct expr *expression_cast(struct expr *e, struct type *t) { return typed(E_CAST, t, e); }
struct expr *type_sizeof(struct type *t) { return typed(E_NUM_TYPES + 1, t, NULL); }
struct expr *type_alignof(struct type *t) { return typed(E_NUM_TYPES + 2, t, NULL); }
static int member[1];
int type_search_member(struct type *t, struct string_view name, int *n, int **indices) {
	(void)t;
	member[0] = name.len; *n = 1; *indices = member;
	return 1;
}
struct constant constant_simple_signed(enum simple_type t, intmax_t v) {
	struct constant c;
	(void)t;
	c.type = CONSTANT_LABEL; c.data_type = NULL; c.label.label = v; c.label.offset = 0;
	return c;
}

/* the tree the parser gave, against the tree written */
static int is_int(struct expr *e, int v) { return e && e->type == E_CONSTANT && e->constant.label.label == v; }
static int same(struct expr *e, int n);
static int truth(struct expr *e, int n) {	/* x ? 1 : 0 */
	return e && e->type == E_CONDITIONAL && same(e->args[0], n) && is_int(e->args[1], 1) && is_int(e->args[2], 0);
}
static int typeof_is(struct type *t, int n) {	/* t is the type of the expression of node n */
	for (int i = 0; i < npool; i++)
		if (t == (struct type *)&type_of[i]) return same(pool[i], n);
	return 0;
}
static int same(struct expr *e, int n) {
	int o = node_o[n], a = kid0[n], b = kid1[n], c = kid2[n];
	if (!e) return 0;
	if (o == LEAF) return e->type == E_SYMBOL && e->symbol == &sym[n];
	int s = op_sig[o];
	switch (op_kind[o]) {
	case K_BIN: return e->type == E_BINARY_OP && e->binary_op == (unsigned)s && same(e->args[0], a) && same(e->args[1], b);
	case K_ASSIGN: return (s < 0 ? e->type == E_ASSIGNMENT : e->type == E_ASSIGNMENT_OP && e->assignment_op.op == (unsigned)s && !e->assignment_op.postfix) && same(e->args[0], a) && same(e->args[1], b);
	case K_PREINC: case K_POSTINC: return e->type == E_ASSIGNMENT_OP && e->assignment_op.op == (unsigned)s && !e->assignment_op.postfix == (op_kind[o] == K_PREINC) && same(e->args[0], a) && is_int(e->args[1], 1);
	case K_COMMA: return e->type == E_COMMA && same(e->args[0], a) && same(e->args[1], b);
	case K_COND: return e->type == E_CONDITIONAL && same(e->args[0], a) && same(e->args[1], b) && same(e->args[2], c);
	/* a || b is a ? 1 : (b ? 1 : 0);  a && b is a ? (b ? 1 : 0) : 0;  !a is a ? 0 : 1 */
	case K_LOR: return e->type == E_CONDITIONAL && same(e->args[0], a) && is_int(e->args[1], 1) && truth(e->args[2], b);
	case K_LAND: return e->type == E_CONDITIONAL && same(e->args[0], a) && truth(e->args[1], b) && is_int(e->args[2], 0);
	case K_NOT: return e->type == E_CONDITIONAL && same(e->args[0], a) && is_int(e->args[1], 0) && is_int(e->args[2], 1);
	case K_PRE: return e->type == E_UNARY_OP && e->unary_op == (unsigned)s && same(e->args[0], a);
	case K_ADDR: return e->type == E_ADDRESS_OF && same(e->args[0], a);
	case K_DEREF: return e->type == E_INDIRECTION && same(e->args[0], a);
	case K_SIZEOF: return e->type == E_NUM_TYPES + 1 && typeof_is(e->cast.target, a);
	case K_ALIGNOF: return e->type == E_NUM_TYPES + 2 && typeof_is(e->cast.target, a);
	case K_SIZEOF_T: return e->type == E_NUM_TYPES + 1 && e->cast.target == (struct type *)&int_type;
	case K_CAST: return e->type == E_CAST && e->cast.target == (struct type *)&int_type && same(e->cast.arg, a);
	case K_INDEX: return e->type == E_INDIRECTION && e->args[0] && e->args[0]->type == E_BINARY_OP && e->args[0]->binary_op == OP_ADD && same(e->args[0]->args[0], a) && same(e->args[0]->args[1], b);
	case K_CALL0: return e->type == E_CALL && same(e->call.callee, a) && e->call.n_args == 0;
	case K_CALL1: return e->type == E_CALL && same(e->call.callee, a) && e->call.n_args == 1 && same(e->call.args[0], b);
	case K_CALL2: return e->type == E_CALL && same(e->call.callee, a) && e->call.n_args == 2 && same(e->call.args[0], b) && same(e->call.args[1], c);
	case K_DOT: return e->type == E_DOT_OPERATOR && e->member.member_idx == 20 + n && same(e->member.lhs, a);
	case K_ARROW: return e->type == E_DOT_OPERATOR && e->member.member_idx == 20 + n && e->member.lhs->type == E_INDIRECTION && same(e->member.lhs->args[0], a);
	}
	return 0;
}

static void set_kid(int n, int i, int k) { if (i == 0) kid0[n] = k; else if (i == 1) kid1[n] = k; else kid2[n] = k; }
static int get_kid(int n, int i) { return i == 0 ? kid0[n] : i == 1 ? kid1[n] : kid2[n]; }
static int new_node(int o) {
	int n = nnodes++;
	node_o[n] = o;
	kid0[n] = kid1[n] = kid2[n] = 0;
	for (int i = 0; i < nkids(o); i++) {
		int k = nnodes++;
		node_o[k] = LEAF;
		set_kid(n, i, k);
	}
	return n;
}
static void grow(int n, int slot, int o) {	/* the leaf in that place becomes operator o */
	int k = get_kid(n, slot);
	node_o[k] = o;
	for (int i = 0; i < nkids(o); i++) {
		int l = nnodes++;
		node_o[l] = LEAF;
		set_kid(k, i, l);
	}
}
static void check(void) {
	ntoks = at = npool = 0;
	emit(0, COMMA);
	tok(T_SEMI_COLON, 0);
	tok(T_SEMI_COLON, 0);
	show();
	struct expr *e = parse_expression();
	VP_ENSURE(at == ntoks - 2, "an expression is parsed to its end and no further");
	VP_ENSURE(same(e, 0), "an expression parses to the tree the grammar prescribes");
}
static int count;
static int mine(void) { return count++ % PARTS == PART; }
/* one operator of each nonterminal */
static const char rep_kind[] = { K_ASSIGN, K_COND, K_BIN, K_BIN, K_DEREF, K_INDEX, K_COMMA, K_LOR, K_LAND, K_BIN, K_BIN, K_BIN, K_BIN, K_BIN, K_BIN, K_CAST, K_SIZEOF, K_CALL1 };
static const unsigned char rep_tok[] = { T_A, T_QUEST, T_SUB, T_STAR, T_STAR, T_LBRACK, T_COMMA, T_OR, T_AND, T_BOR, T_XOR, T_AMP, T_EQ, T_L, T_LSHIFT, T_LPAR, T_KSIZEOF, T_LPAR };
enum { NREP = sizeof rep_kind, FEW = 6 };
static int reps[NREP];
static void set_reps(void) {
	for (int r = 0; r < NREP; r++)
		for (int i = 0; i < NOPS; i++)
			if (op_kind[i] == rep_kind[r] && op_tok[i] == rep_tok[r]) reps[r] = i;
}
static void pair(int p, int s, int q) {
	if (!mine()) return;
	nnodes = 0;
	new_node(p);
	grow(0, s, q);
	check();
}
/* an operator of each level in each place of each operator */
void h_pairs(void) {
	set_reps();
	for (int p = 0; p < NOPS; p++)
		for (int s = 0; s < nkids(p); s++)
			for (int q = 0; q < NREP; q++)
				pair(p, s, reps[q]);
	VP_REACH("h_pairs");
}
/* each operator in each place of some */
void h_inner(void) {
	set_reps();
	for (int p = 2; p < FEW; p++)
		for (int s = 0; s < nkids(reps[p]); s++)
			for (int q = 0; q < NOPS; q++)
				pair(reps[p], s, q);
	VP_REACH("h_inner");
}
/* two operands at once, and three deep */
void h_both(void) {
	set_reps();
	for (int p = 0; p < FEW; p++)
		if (nkids(reps[p]) >= 2)
			for (int q = 0; q < FEW + 1; q++)
				for (int r = 0; r < FEW + 1; r++) {
					if (!mine()) continue;
					nnodes = 0;
					new_node(reps[p]);
					grow(0, 0, reps[q]);
					grow(0, nkids(reps[p]) - 1, reps[r]);
					check();
				}
	VP_REACH("h_both");
}
void h_deep(void) {
	set_reps();
	for (int p = 0; p < FEW; p++)
		for (int s = 0; s < nkids(reps[p]); s++)
			for (int q = 0; q < FEW; q++)
				for (int r = 0; r < FEW; r++) {
					if (!mine()) continue;
					nnodes = 0;
					new_node(reps[p]);
					grow(0, s, reps[q]);
					grow(get_kid(0, s), nkids(reps[q]) - 1, reps[r]);
					check();
				}
	VP_REACH("h_deep");
}
