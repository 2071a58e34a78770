/* C21: the macro table.  Names 0..2 share a hash bucket, name 3 does not. */
#include "vp.h"
#include <preprocessor/macro_expander.h>
static char names[4][4] = { "AA", "AWJ", "BUK", "AB" };
static char copies[4][4] = { "AA", "AWJ", "BUK", "AB" };
static int lens[4] = { 2, 3, 3, 2 };
static struct string_view view(int i, int c) {
	return (struct string_view) { .len = lens[i], .str = c ? copies[i] : names[i] };
}
static int now[4];	/* ghost: 0 not a macro, n the n-th definition made */
static int serial;
static void op(int o) {
	int i = o % 4;
	if (o < 4) {
		struct define d = define_init(view(i, 0));
		now[i] = ++serial;
		d.func = serial % 2;
		d.vararg = serial;	/* stands for the contents of the definition */
		define_map_add(d);
	} else {
		define_map_remove(view(i, 1));
		now[i] = 0;
	}
}
static void check(void) {
	for (int i = 0; i < 4; i++) {
		struct define *d = define_map_get(view(i, 1));
		VP_ENSURE((d != NULL) == (now[i] != 0), "a name is a macro exactly if its latest directive is a #define");
		if (now[i])
			VP_ENSURE(d->vararg == now[i] && d->func == now[i] % 2, "the latest definition is in force");
	}
}
/* every order of defining names 0..2, then every pair of further operations */
static const int first[8][3] = { { -1 }, { 0, 1, -1 }, { 1, 2, -1 }, { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 1, 0 } };
void h_history(void) {
	for (int a = 0; a < 7; a++)
		for (int b = 0; b < 7; b++) {
			if (a == 3 && b == 3) continue;
			for (int i = 0; i < 3 && first[PART][i] >= 0; i++) op(first[PART][i]);
			op(a);
			op(b);
			check();
			for (int i = 0; i < 4; i++) op(4 + i);
		}
	check();
	VP_REACH("histories");
}
/* tokens added to a definition are its parameters and body, in order */
void h_contents(void) {
	for (int np = 0; np < 3; np++)
		for (int nb = 0; nb < 4; nb++) {
			struct define d = define_init(view(0, 0));
			for (int i = 0; i < np; i++)
				define_add_par(&d, (struct token) { .type = T_IDENT, .str = view(i, 0), .whitespace = 1 });
			for (int i = 0; i < nb; i++)
				define_add_def(&d, (struct token) { .type = T_IDENT, .str = view(2 - i % 3, 0), .whitespace = 1, .whitespace_after = 1 });
			define_map_add(d);
			struct define *g = define_map_get(view(0, 1));
			VP_ENSURE(g && g->par.size == np && g->def.size == nb, "parameters and body are kept");
			VP_ENSURE(np == 0 || g->func, "a definition with parameters is function-like");
			for (int i = 0; i < np; i++)
				VP_ENSURE(sv_cmp(g->par.list[i].str, view(i, 1)), "the parameters in order");
			for (int i = 0; i < nb; i++) {
				struct token *t = &g->def.list[i];
				VP_ENSURE(t->type == T_IDENT && sv_cmp(t->str, view(2 - i % 3, 1)), "the body in order");
				VP_ENSURE(t->whitespace == (i != 0) && t->whitespace_after == (i != nb - 1), "white space around the body is not part of it");
			}
		}
	VP_REACH("definitions");
}
