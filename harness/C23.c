/* C23: conditional inclusion keeps exactly the selected group.  Every balanced
 * sequence of at most N conditional directives, with an #undef line and a text
 * line after each, against the recursive reading of C11 6.10.1. */
#include "dir.h"
#ifndef N
#define N 4
#endif
#ifndef PART
#define PART 0
#define PARTS 1
#endif
struct constant constant_from_string(struct string_view s) {
	return (struct constant) { .type = CONSTANT_TYPE, .data_type = type_simple(ST_INT), .uint_d = (u64)(s.str[0] - '0') };
}
struct define *define_map_get(struct string_view s) {
	static struct define d;
	return s.str[0] == 'X' ? &d : NULL;
}
static int undefs[16], undefs_n;
void define_map_remove(struct string_view s) {
	VP_ENSURE(s.len >= 1 && s.len <= 16 && undefs_n < 16, "#undef removes the name that follows");
	undefs[undefs_n++] = s.len;
}
enum { IF0, IF1, IFP, ELIF0, ELIF1, ELIFP, ELSE, ENDIF };
static int seq[N], act[N];	/* the directives, and whether the text after each is kept */
static int variant, leaves, total;

static void cond(int v, int form, const char *prefix) {
	(void)prefix;
	hash();
	int el = prefix[0] == 'e';
	if (v == 2 || form == 0) {
		if (el) TOK(T_IDENT, "elif"); else TOK(T_IDENT, "if");
		if (v == 2) TOK(T_STRING, "\"poison\"");
		else if (v) TOK(T_NUM, "1");
		else TOK(T_NUM, "0");
	} else if (form == 1) {
		if (el) TOK(T_IDENT, "elifdef"); else TOK(T_IDENT, "ifdef");
		if (v) TOK(T_IDENT, "X"); else TOK(T_IDENT, "Y");
	} else {
		if (el) TOK(T_IDENT, "elifndef"); else TOK(T_IDENT, "ifndef");
		if (v) TOK(T_IDENT, "Y"); else TOK(T_IDENT, "X");
	}
}
static char names[] = "nnnnnnnnnnnnnnnn";
static void run(int n) {
	int expected[N + 1], nexp = 0, nu = 0;
	feed_clear();
	undefs_n = 0;
	for (int i = 0; i < n; i++) {
		int form = (variant + i) % 3;
		switch (seq[i]) {
		case IF0: cond(0, form, "if"); break;
		case IF1: cond(1, form, "if"); break;
		case IFP: cond(2, form, "if"); break;
		case ELIF0: cond(0, form, "elif"); break;
		case ELIF1: cond(1, form, "elif"); break;
		case ELIFP: cond(2, form, "elif"); break;
		case ELSE: hash(); TOK(T_IDENT, "else"); break;
		case ENDIF: hash(); TOK(T_IDENT, "endif"); break;
		}
		if (!act[i] && (i & 1)) { hash(); TOK(T_NUM, "3"); }
		if (i == 0) hash();
		if ((i ^ variant) & 1) { hash(); TOK(T_IDENT, "undef"); tok(T_IDENT, names, i + 1); nu += act[i]; }
		newline(); tok(T_IDENT, names, i + 1);
		if (act[i])
			expected[nexp++] = i + 1;
	}
	feed_start();
	for (int i = 0; i < nexp; i++) {
		struct token t = directiver_next();
		VP_ENSURE(t.type == T_IDENT && t.str.len == expected[i], "exactly the lines of the selected groups are processed");
	}
	struct token t = directiver_next();
	VP_ENSURE(t.type == T_EOI, "nothing else is processed");
	VP_ENSURE(undefs_n == nu, "directives are executed in the selected groups only");
	for (int i = 0; i < undefs_n; i++)
		VP_ENSURE(((undefs[i] ^ variant) & 1) == 0 && act[undefs[i] - 1], "directives are executed in the selected groups only");
	total++;
	variant++;
}
/* group states: 1 the current group is processed, 0 none was selected yet,
 * -1 one was selected before or the whole conditional is skipped */
static int st[N + 1], els[N + 1];
static int active(int depth) {
	for (int i = 0; i < depth; i++)
		if (st[i] != 1) return 0;
	return 1;
}
static void gen(int i, int depth);
static void put(int i, int depth, int d, int s, int e) {
	seq[i] = d;
	int os = 0, oe = 0;
	if (depth) { os = st[depth - 1]; oe = els[depth - 1]; st[depth - 1] = s; els[depth - 1] = e; }
	act[i] = active(depth);
	gen(i + 1, depth);
	if (depth) { st[depth - 1] = os; els[depth - 1] = oe; }
}
static void gen(int i, int depth) {
	if (depth > N - i)
		return;
	if (depth == 0 && i > 0 && i == N) {
		if (leaves++ % PARTS == PART)
			run(i);
		return;
	}
	if (i == N)
		return;
	if (active(depth)) {
		put(i, depth + 1, IF0, 0, 0);
		put(i, depth + 1, IF1, 1, 0);
	} else
		put(i, depth + 1, IFP, -1, 0);
	if (depth) {
		int s = st[depth - 1];
		if (!els[depth - 1]) {
			if (s == 0) {
				put(i, depth, ELIF0, 0, 0);
				put(i, depth, ELIF1, 1, 0);
				put(i, depth, ELSE, 1, 1);
			} else {
				put(i, depth, ELIFP, -1, 0);
				put(i, depth, ELSE, -1, 1);
			}
		}
		int os = st[depth - 1], oe = els[depth - 1];
		put(i, depth - 1, ENDIF, depth > 1 ? st[depth - 2] : 0, depth > 1 ? els[depth - 2] : 0);
		st[depth - 1] = os; els[depth - 1] = oe;
	}
}
void h_groups(void) {
	gen(0, 0);
	VP_ENSURE(total > 0, "some sequences");
	VP_REACH("all sequences");
}
/* names of directives are compared exactly */
void h_names(void) {
	char a[9], b[9];
	IN_RANGE(int, n, 0, 0, 8);
	IN_RANGE(int, m, 1, 0, 8);
	for (int i = 0; i < 9; i++) {
		IN(u8, x, 10 + i);
		IN(u8, y, 20 + i);
		a[i] = x; b[i] = i < m ? y : 0;
		VP_REQUIRE(i >= m || y);
	}
	int same = n == m;
	for (int i = 0; i < 8; i++)
		if (i < n && i < m && a[i] != b[i]) same = 0;
	VP_ENSURE(!!sv_string_cmp((struct string_view) { .str = a, .len = n }, b) == same, "names are equal exactly if they have the same characters");
	VP_REACH("compared");
}
