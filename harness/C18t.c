/* C18: which type a tag denotes (C11 6.2.1, 6.7.2.3), decided on parse_type_name
 * run over whole histories of declarations in nested scopes:
 *   { }  a scope;  D  struct a { members };  F  struct a ;  R  struct a *
 *   P    struct a { struct a *x; }
 * A definition or `struct a ;' declares the tag in its own scope; any other
 * mention denotes the innermost visible declaration or else declares the tag. */
#include "vp.h"
#include <common.h>
#include <types.h>
#include <abi/abi.h>
#include <parser/symbols.h>
#include <parser/declaration.h>
#include <preprocessor/preprocessor.h>

uint32_t sv_hash(struct string_view s) { (void)s; return 5; }
uint32_t hash32(uint32_t a) { (void)a; return 0; }

void calculate_offsets(struct struct_data *data) { (void)data; }	/* under contract in C11 */
void type_remove_unnamed(struct struct_data *data) { (void)data; }	/* every member is named */
void type_evaluate_vla(struct type *type) { (void)type; }	/* no array here */
/* type_create's contract (C19), as far as needed here: the type described */
static struct type pool[24];
static struct type *target[24];	/* of each pointer */
static int npool;
struct type *type_create(struct type *p, struct type **children) {
	struct type *t = &pool[npool];
	t->type = p->type;
	if (p->type == TY_STRUCT) t->struct_data = p->struct_data;
	target[npool++] = p->type == TY_POINTER ? children[0] : NULL;
	return t;
}
static struct type *pointee(struct type *t) {
	VP_ENSURE(t->type == TY_POINTER, "a pointer");
	return target[t - pool];
}
/* the allocator's contract: a block of at least the size asked for, whose contents survive growing */
#undef malloc
void *cc_malloc(size_t n) {
	static int table[1024];
	if (n == sizeof table) return table;	/* the only block of this size */
	VP_REQUIRE(n <= 700);
	return malloc(n);
}
void *cc_realloc(void *p, size_t n) {
	VP_REQUIRE(n <= 700);
	return p ? p : malloc(700);
}
static char tag[] = "a", member[] = "xyzvw";
static struct token toks[64], cur;
static int ntok, at;
static void put(ttype t, char *s) {
	toks[ntok].type = t;
	toks[ntok].str.str = s;
	toks[ntok].str.len = s ? 1 : 0;
	ntok++;
}
struct token *t_peek(int n) { return at + n < ntok ? &toks[at + n] : &cur; }
void t_next(void) { at++; }

static struct { struct struct_data *data; int known, size; } scope[8];
static int depth;

static struct type *parse(char what, int members) {
	ntok = at = 0;
	put(KEYWORD, NULL);
	put(T_IDENT, tag);
	if (what == 'D' || what == 'P') {
		put(T_LBRACE, NULL);
		for (int i = 0; i < members; i++) {
			put(T_KCHAR, NULL);
			put(T_IDENT, member + i);
			put(T_SEMI_COLON, NULL);
		}
		if (what == 'P') {
			put(KEYWORD, NULL);
			put(T_IDENT, tag);
			put(T_STAR, NULL);
			put(T_IDENT, member + members);
			put(T_SEMI_COLON, NULL);
		}
		put(T_RBRACE, NULL);
	}
	if (what == 'R') put(T_STAR, NULL);
	put(what == 'R' ? T_RPAR : T_SEMI_COLON, NULL);
	int n = ntok;
	struct type *type = parse_type_name();
	VP_ENSURE(at == n - 1, "the type name and nothing else is read");
	return type;
}
static void check(void) {	/* every type declared so far is what its own declarations made it */
	for (int i = 0; i <= depth; i++)
		if (scope[i].known) {
			VP_ENSURE(scope[i].data->is_complete == (scope[i].size > 0), "a type is complete once its own tag is defined");
			VP_ENSURE(scope[i].size == 0 || scope[i].data->n == scope[i].size, "and has the members of that definition");
			for (int j = 0; j < i; j++)
				VP_ENSURE(!scope[j].known || scope[j].data != scope[i].data, "types declared in different scopes are distinct");
		}
}
static void run(const char *script, int len) {
	for (int i = 0; i < 8; i++) scope[i].known = 0;
	npool = 0;
	depth = 0;
	int size = 0;
	for (int i = 0; i < len; i++) {
		char c = script[i];
		if (c == '{') { symbols_push_scope(); depth++; continue; }
		if (c == '}') { symbols_pop_scope(); scope[depth].known = 0; depth--; check(); continue; }
		size = size % 3 + 1;
		struct type *t = parse(c, size);
		int s = depth;
		if (c == 'R')
			for (int k = depth; k >= 0; k--)
				if (scope[k].known) { s = k; break; }
		VP_ENSURE(t != NULL, "a type");
		struct type *st = c == 'R' ? pointee(t) : t;
		VP_ENSURE(st->type == TY_STRUCT, "a structure type");
		if (!scope[s].known) {
			scope[s].known = 1;
			scope[s].size = 0;
			scope[s].data = st->struct_data;
		}
		VP_ENSURE(st->struct_data == scope[s].data, "the tag denotes the type of its innermost visible declaration");
		if (c == 'D') scope[s].size = size;
		if (c == 'P') {
			scope[s].size = size + 1;
			struct type *m = pointee(st->struct_data->fields[size].type);
			VP_ENSURE(m->struct_data == scope[s].data, "a tag is in scope within its own members");
		}
		check();
	}
}
void h_tags(void) {
	symbols_init();
	run(SCRIPT, LENGTH);
	VP_REACH("tags");
}
