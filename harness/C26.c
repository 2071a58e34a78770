/* C26: tokenize_input against C11 6.4: the next token is the longest that the
 * text begins with, of the right kind, spelled as in the text without line
 * splices (5.1.1.2 phase 2).
 * The texts: PRE (tokens before it), SPACE, and every sequence of a character of
 * C0, one of C1, ... (ANY: all bytes).  The stand-in of token_list_add takes the
 * token under test and cuts the text off behind it. */
#include "vp.h"
#include <common.h>
#include <preprocessor/tokenizer.h>

#ifndef NPRE
#define PRE ""
#define NPRE 0
#endif
#ifndef SPACES
#define SPACES { "" }	/* white space and comments before the token; after N: with the end of a line */
#endif
#ifndef SPLICES
#define SPLICES { "" }	/* a line splice ... */
#define AT 99		/* ... after that many characters of the token */
#endif
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
enum { N = LEN };
static char text[40];
static u8 l[N + 4];	/* the token under test and what follows */
static struct token store[8];
static int taken, want, kind, first, white, base, nsplice;

static int alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == '$'; }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int word(int c) { return alpha(c) || digit(c) || c >= 0x80; }

/* by first character, the longest first */
static const char *const pstr[] = {
	"!=", "!", "##", "#", "%:%:", "%=", "%>", "%:", "%", "&&", "&=", "&", "(", ")", "*=", "*", "++", "+=", "+", ",", "->", "--", "-=", "-", "...", ".", "/=", "/", ":>", ":", ";", "<<=", "<<", "<=", "<:", "<%", "<", "==", "=", ">>=", ">>", ">=", ">", "?", "[", "]", "^=", "^", "{", "||", "|=", "|", "}", "~"
};
static const unsigned char ptype[] = {
	T_NEQ, T_NOT, PP_HHASH, PP_HASH, PP_HHASH, T_MODA, T_RBRACE, PP_HASH, T_MOD, T_AND, T_BANDA, T_AMP, T_LPAR, T_RPAR, T_MULA, T_STAR, T_INC, T_ADDA, T_ADD, T_COMMA, T_ARROW, T_DEC, T_SUBA, T_SUB, T_ELLIPSIS, T_DOT, T_DIVA, T_DIV, T_RBRACK, T_COLON, T_SEMI_COLON, T_LSHIFTA, T_LSHIFT, T_LEQ, T_LBRACK, T_LBRACE, T_L, T_EQ, T_A, T_RSHIFTA, T_RSHIFT, T_GEQ, T_G, T_QUEST, T_LBRACK, T_RBRACK, T_XORA, T_XOR, T_LBRACE, T_OR, T_BORA, T_BOR, T_RBRACE, T_BNOT
};
static int range(int c) {
	switch (c) {
	case '!': return 0 * 64 + 2; case '#': return 2 * 64 + 4; case '%': return 4 * 64 + 9;
	case '&': return 9 * 64 + 12; case '(': return 12 * 64 + 13; case ')': return 13 * 64 + 14;
	case '*': return 14 * 64 + 16; case '+': return 16 * 64 + 19; case ',': return 19 * 64 + 20;
	case '-': return 20 * 64 + 24; case '.': return 24 * 64 + 26; case '/': return 26 * 64 + 28;
	case ':': return 28 * 64 + 30; case ';': return 30 * 64 + 31; case '<': return 31 * 64 + 37;
	case '=': return 37 * 64 + 39; case '>': return 39 * 64 + 43; case '?': return 43 * 64 + 44;
	case '[': return 44 * 64 + 45; case ']': return 45 * 64 + 46; case '^': return 46 * 64 + 48;
	case '{': return 48 * 64 + 49; case '|': return 49 * 64 + 52; case '}': return 52 * 64 + 53;
	case '~': return 53 * 64 + 54;
	}
	return 0;
}

/* the end of a literal whose opening quote is l[i]; 0 if it is not closed on its line */
static int quoted(int i, int end) {
	for (int k = i + 1; k < N; k++) {
		if (l[k] == end) return k + 1;
		if (l[k] == '\n' || l[k] == 0) return 0;
		if (l[k] == '\\') {
			k++;
			if (k >= N || l[k] == 0 || l[k] == '\n' || l[k] == 'u' || l[k] == 'U') return 0;	/* universal character names: C06 */
		}
	}
	return 0;
}
/* C11 6.4, and ' as digit separator (C23 6.4.8); 0: nothing to require */
static void spec(void) {
	int i = 0, sep = 0;
	want = 0;
#ifdef HEADER
	if (l[0] == '<') { want = quoted(0, '>'); kind = PP_HEADER_NAME_H; return; }
#endif
	if (l[0] == 'u' && l[1] == '8' && l[2] == '"') i = 2;
	else if ((l[0] == 'u' || l[0] == 'U' || l[0] == 'L') && (l[1] == '"' || l[1] == '\'')) i = 1;
	if (l[i] == '"') { want = quoted(i, '"'); kind = T_STRING; return; }
	if (l[i] == '\'') { want = quoted(i, '\''); kind = T_CHARACTER_CONSTANT; return; }
	if (alpha(l[0]) || l[0] >= 0x80) {
		for (want = 1; want < N && word(l[want]); want++) ;
		kind = T_IDENT;
		if (l[want] == '\\') want = 0;	/* universal character names: C06 */
		return;
	}
	if (digit(l[0]) || (l[0] == '.' && digit(l[1]))) {
		for (want = 1; want < N; want++) {
			u8 p = sep ? 0 : l[want - 1], c = l[want];
			sep = 0;
			if ((c == '+' || c == '-') && (p == 'e' || p == 'E' || p == 'p' || p == 'P')) continue;
			if (c == '\'' && (alpha(l[want + 1]) || digit(l[want + 1]))) { want++; sep = 1; continue; }
			if (!(alpha(c) || digit(c) || c == '.')) break;
		}
		kind = T_NUM;
		if (l[want] == '\\' || l[want] >= 0x80 || l[want] == '\'') want = 0;
		return;
	}
	int r = range(l[0]);
	for (int k = r / 64; k < r % 64 && !want; k++) {
		int n = 0;
		while (pstr[k][n] && l[n] == (u8)pstr[k][n]) n++;
		if (!pstr[k][n]) { want = n; kind = ptype[k]; }
	}
	if (l[0] == '/' && (l[1] == '/' || l[1] == '*')) { want = 0; return; }
	if (!want) {	/* some other character */
		want = 1; kind = PP_OTHER;
		if (l[0] == '\\') want = 0;
	}
}
void token_list_add(struct token_list *list, struct token t) {
	store[taken] = t;
	list->list = store;
	list->size = ++taken;
	if (taken != NPRE + 1) return;
	VP_ENSURE(t.type == (unsigned)kind, "the kind of a token");
	int n = 0, same = 1, end = base + want + (want >= AT ? nsplice : 0);
	for (int i = 0; i < want; i++) {
		if (kind == T_NUM && l[i] == '\'') continue;
		same &= n < t.str.len && (u8)t.str.str[n] == l[i];
		n++;
	}
	VP_ENSURE(t.str.len == n, "a token is the longest the text begins with");
	VP_ENSURE(same, "a token spells its source text");
	VP_ENSURE(t.first_of_line == first && t.whitespace == white, "white space and line starts before a token");
	/* the next character has been read: let it be a whole token */
	if (text[end]) {
		char c = text[end++];
		if (c == '"' || c == '\'') text[end++] = c;
#ifdef HEADER
		if (c == '<') text[end++] = '>';
#endif
		text[end] = 0;
	}
}
static const char *const spaces[] = SPACES, *const splices[] = SPLICES;
static const char *const sets[] = { C };
static int count;
static void run(const char *space, const char *splice) {
	int n = 0;
	l[N] = 0;
	spec();
	if (!want || count++ % PARTS != PART) return;
	for (int i = 0; PRE[i]; i++) text[n++] = PRE[i];
	first = NPRE == 0;
	if (space[0] == 'N') { space++; first = 1; }
	white = space[0] || first;
	for (int i = 0; space[i]; i++) text[n++] = space[i];
	base = n;
	if (kind == PP_HASH && first) kind = PP_DIRECTIVE;
	for (int i = 0; i < N; i++) {
		if (i == AT)
			for (nsplice = 0; splice[nsplice]; nsplice++) text[n++] = splice[nsplice];
		text[n++] = l[i];
	}
	text[n] = 0;
	taken = 0;
	tokenize_input(text, "");
	VP_ENSURE(taken > NPRE, "a text with a token gives a token");
}
static void each(int i, const char *space, const char *splice) {
	if (i == N) { run(space, splice); return; }
	if (sets[i][0] == 'A' && sets[i][1] == 'N' && sets[i][2] == 'Y')
		for (int b = 1; b < 256; b++) { l[i] = b; each(i + 1, space, splice); }
	else
		for (int k = 0; sets[i][k]; k++) { l[i] = sets[i][k]; each(i + 1, space, splice); }
}
void h_token(void) {
	for (unsigned s = 0; s < sizeof spaces / sizeof *spaces; s++)
		for (unsigned p = 0; p < sizeof splices / sizeof *splices; p++)
			each(0, spaces[s], splices[p]);
	VP_REACH("h_token");
}
