/* C18: the symbol table against the scope rules of C11 6.2.1, 6.2.3.
 * Histories: three nested scopes, each with some declarations, with a file-scope
 * declaration made from within (an implicit or block-scope extern function);
 * every lookup is compared with the scope rules at every point.
 * sv_hash and hash32 are replaced by their contract (equal arguments give equal
 * values); HASH selects which names and kinds collide. */
#include "vp.h"
#include <common.h>
#include <parser/symbols.h>

#ifndef HASH
#define HASH 0
#endif
uint32_t sv_hash(struct string_view s) { return HASH == 0 ? 5 : (uint32_t)(u8)s.str[0]; }
uint32_t hash32(uint32_t a) { return HASH == 0 ? 0 : HASH == 1 ? a : a << 8; }

enum { ID, TD, TAG, NKIND };
static char name_a[] = "a", name_b[] = "b";
static struct string_view nm(int k) { return (struct string_view) { 1, k ? name_b : name_a }; }
static struct { int kind, name, block, mark; struct symbol_identifier *id; } decl[16];
static int ndecl, depth, marks;
static char marker[64];
static int find(int kind, int name, int min) {	/* the innermost visible declaration */
	int best = -1;
	for (int i = 0; i < ndecl; i++)
		if (decl[i].kind == kind && decl[i].name == name && decl[i].block >= min && (best < 0 || decl[i].block >= decl[best].block))
			best = i;
	return best;
}
static void declare(int kind, int name, int global) {
	int m = ++marks;
	decl[ndecl].kind = kind; decl[ndecl].name = name; decl[ndecl].block = global ? 0 : depth; decl[ndecl].mark = m;
	if (kind == ID)
		decl[ndecl].id = global ? symbols_add_identifier_global(nm(name)) : symbols_add_identifier(nm(name));
	else if (kind == TD)
		symbols_add_typedef(nm(name))->data_type = (struct type *)&marker[m];
	else
		symbols_add_struct(nm(name))->struct_data = (struct struct_data *)&marker[m];
	ndecl++;
}
static void look(void) {
	for (int n = 0; n < 2; n++) {
		int i = find(ID, n, 0), t = find(TD, n, 0), s = find(TAG, n, 0), c;
		struct symbol_identifier *id = symbols_get_identifier(nm(n));
		if (t < 0 || (i >= 0 && decl[i].block >= decl[t].block))	/* else a typedef hides it */
			VP_ENSURE(id == (i < 0 ? NULL : decl[i].id), "an identifier denotes its innermost visible declaration");
		struct symbol_typedef *td = symbols_get_typedef(nm(n));
		if (t < 0 || (i >= 0 && decl[i].block > decl[t].block))
			VP_ENSURE(td == NULL, "a name is no typedef where none is visible");
		else
			VP_ENSURE(td && td->data_type == (struct type *)&marker[decl[t].mark], "a typedef name denotes its innermost visible declaration");
		struct symbol_struct *st = symbols_get_struct(nm(n));
		VP_ENSURE(s < 0 ? !st : st && st->struct_data == (struct struct_data *)&marker[decl[s].mark], "a tag denotes its innermost visible declaration");
		c = find(ID, n, depth);
		VP_ENSURE(symbols_get_identifier_in_current_scope(nm(n)) == (c < 0 ? NULL : decl[c].id), "declarations of the current scope");
		c = find(TAG, n, depth);
		st = symbols_get_struct_in_current_scope(nm(n));
		VP_ENSURE(c < 0 ? !st : st && st->struct_data == (struct struct_data *)&marker[decl[c].mark], "tags of the current scope");
		c = -1;
		for (int k = 0; k < ndecl; k++)
			if (decl[k].kind == ID && decl[k].name == n && decl[k].block == 0) c = k;
		VP_ENSURE(symbols_get_identifier_global(nm(n)) == (c < 0 ? NULL : decl[c].id), "the file-scope declaration");
	}
}
static void leave(void) {
	symbols_pop_scope();
	depth--;
	int k = 0;
	for (int i = 0; i < ndecl; i++)
		if (decl[i].block <= depth) decl[k++] = decl[i];
	ndecl = k;
}
static void decls(int set) {
	if (set == 1 || set == 3) declare(ID, 0, 0);
	if (set == 2 || set == 3) declare(ID, 1, 0);
	if (set == 4) declare(TD, 0, 0);
	if (set == 5) { declare(TAG, 0, 0); declare(ID, 1, 0); }
}
static void run(int s0, int s1, int s2, int g) {
	symbols_reset();
	symbols_init();
	ndecl = depth = marks = 0;
	decls(s0);
	symbols_push_scope(); depth++;
	decls(s1);
	if (g == 1 && find(ID, 0, 0) < 0) declare(ID, 0, 1);
	symbols_push_scope(); depth++;
	decls(s2);
	if (g >= 2) {
		int have = 0;
		for (int k = 0; k < ndecl; k++)
			if (decl[k].kind == ID && decl[k].name == (g == 3) && decl[k].block == 0) have = 1;
		if (!have) declare(ID, g == 3, 1);
	}
	look();
	leave();
	look();
	symbols_push_scope(); depth++;
	look();
	decls(s0);	/* a sibling scope */
	leave();
	leave();
	look();
}
void h_scopes(void) {
	static const char sets[] = SETS;
	for (int i = 0; i < (int)sizeof sets; i++)
		run(S0, S1, sets[i], G);
	VP_REACH("scopes");
}
