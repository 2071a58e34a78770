/* C05: escapes and characters.  dec() is an independent reading of C11 6.4.4.4. */
#include "vp.h"
#include <escape_sequence.h>
#include <preprocessor/preprocessor.h>
#include <preprocessor/string_concat.h>
#include <common.h>

static int hexval(u8 c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
/* Is text[at..] a valid element (end: index of the closing quote)?  Returns the
 * number of characters of the element, 0 if invalid; *out gets the value. */
static int dec(const u8 *t, int at, int end, u32 *out) {
	if (t[at] != '\\') { *out = t[at]; return 1; }
	if (at + 1 >= end) return 0;
	u8 c = t[at + 1];
	if (c == 'x') {
		u32 v = 0;
		int k = 0;
		for (int i = at + 2; i < end && hexval(t[i]) >= 0; i++, k++) v = v * 16 + (u32)hexval(t[i]);
		*out = v;
		return k ? 2 + k : 0;
	}
	if (c >= '0' && c <= '7') {
		u32 v = 0;
		int k = 0;
		for (int i = at + 1; i < end && k < 3 && t[i] >= '0' && t[i] <= '7'; i++, k++) v = v * 8 + (t[i] - '0');
		*out = v;
		return 1 + k;
	}
	switch (c) {
	case 'n': *out = 10; return 2;
	case 't': *out = 9; return 2;
	case 'r': *out = 13; return 2;
	case 'a': *out = 7; return 2;
	case 'b': *out = 8; return 2;
	case 'f': *out = 12; return 2;
	case 'v': *out = 11; return 2;
	case '\\': case '\'': case '"': case '?': *out = c; return 2;
	}
	return 0;
}
/* escape_sequence_read: any text */
#define L 6
void h_escape(void) {
	u8 text[L + 2];
	IN_RANGE(int, n, 20, 1, L);
	for (int i = 0; i < L; i++) { IN(u8, c, i); text[i] = c; }
	text[L] = text[L + 1] = 0;
	IN_RANGE(int, q, 21, 0, 1);
	for (int i = 0; i < L + 1; i++) if (i == n) { text[i] = q ? '"' : '\''; }
	u32 want = 0, got = 0;
	int k = dec(text, 0, n, &want);
	VP_REQUIRE(k > 0);
	const char *p = (const char *)text;
	int r = escape_sequence_read(&got, &p, n + 1);
	VP_REACH("read");
	VP_ENSURE((r != 0) == (text[0] == '\\'), "an escape is recognized by its backslash");
	if (text[0] == '\\') {
		VP_ENSURE(got == want, "value of the escape");
		VP_ENSURE(p == (const char *)text + k, "exactly the characters of the escape are consumed");
	} else
		VP_ENSURE(p == (const char *)text, "nothing is consumed otherwise");
}
#ifdef WHOLE
/* Whole literals.  Escapes are read through the contract of
 * escape_sequence_read (proved in h_escape): at the position of an escape it
 * stores that escape's value and advances over it, elsewhere it does nothing. */
static struct token feed[3];
static int fed, nfeed;
struct token expander_next(void) {
	if (fed < nfeed) return feed[fed++];
	return (struct token) { .type = T_EOI };
}
#define NE 6
static const char *e_at[NE];
static int e_len[NE], e_n;
static u32 e_val[NE];
int escape_sequence_read(u32 *out, const char **start, int n) {
	for (int i = 0; i < e_n; i++)
		if (*start == e_at[i]) {
			VP_ENSURE(n >= e_len[i], "the whole escape is available");
			*out = e_val[i];
			*start += e_len[i];
			return 1;
		}
	return 0;
}
static u8 text[2][20];
static u8 want[16];
static int nwant, inid;
static u8 next_plain;
/* element lengths: 0 ends, 1 a plain character, n > 1 an escape of n characters */
static int literal(int k, const int *len, u8 q) {
	int n = 0;
	text[k][n++] = q;
	for (int i = 0; i < 3 && len[i]; i++) {
		u8 c;
		if (len[i] == 1) {
			/* plain characters: every one but the quote, the backslash and new-line, in turn */
			do c = ++next_plain; while (c == q || c == '\\' || c == '\n' || c == 0);
			text[k][n++] = c;
		} else {
			c = (u8)vp_get(inid++);
			e_at[e_n] = (char *)&text[k][n]; e_len[e_n] = len[i]; e_val[e_n++] = c;
			for (int j = 0; j < len[i]; j++) text[k][n++] = j ? '0' : '\\';
		}
		want[nwant++] = c;
	}
	text[k][n++] = q;
	feed[k] = (struct token) { .type = q == '"' ? T_STRING : T_CHARACTER_CONSTANT, .str = { .len = n, .str = (char *)text[k] } };
	return n;
}
static void start(int n) { fed = 0; nfeed = n; nwant = 0; e_n = 0; }
static void compare(struct token t) {
	VP_ENSURE(t.str.len == nwant, "one byte per element");
	for (int i = 0; i < nwant; i++)
		VP_ENSURE((u8)t.str.str[i] == want[i], "value of each element");
}
void h_string(void) {
	for (int a = 0; a <= 4; a++)
		for (int b = 0; b <= (a ? 4 : 0); b++)
			for (int c = 0; c <= (b ? 3 : 0); c++) {
				const int l[3] = { a, b, c };
				start(1);
				literal(0, l, '"');
				want[nwant++] = 0;
				struct token t = string_concat_next();
				VP_REACH("string");
				VP_ENSURE(t.type == T_STRING, "a string literal");
				compare(t);
				VP_ENSURE(string_concat_next().type == T_EOI, "the next token follows");
			}
}
void h_concat(void) {
	for (int a = 0; a <= 3; a++)
		for (int b = 0; b <= 3; b++) {
			const int l[3] = { a, a ? 1 : 0, 0 }, m[3] = { b, b ? 2 : 0, 0 };
			start(2);
			literal(0, l, '"');
			literal(1, m, '"');
			want[nwant++] = 0;
			struct token t = string_concat_next();
			VP_REACH("strings");
			VP_ENSURE(t.type == T_STRING, "a string literal");
			compare(t);
			VP_ENSURE(string_concat_next().type == T_EOI, "the next token follows");
		}
}
void h_plain(void) {
	const int l[3] = { 1, 0, 0 };
	for (int i = 0; i < 253; i++) {
		int isq = i & 1;
		start(1);
		literal(0, l, isq ? '"' : '\'');
		if (isq) want[nwant++] = 0;
		struct token t = string_concat_next();
		compare(t);
		if (isq) string_concat_next();
		else VP_ENSURE(character_constant_to_int(t.str) == (s8)want[0], "the value of a character constant is that of the char converted to int");
	}
	VP_REACH("plain characters");
}
void h_char(void) {
	for (int a = 1; a <= 4; a++) {
		const int l[3] = { a, 0, 0 };
		start(1);
		literal(0, l, '\'');
		struct token t = string_concat_next();
		VP_REACH("character");
		VP_ENSURE(t.type == T_CHARACTER_CONSTANT, "a character constant");
		compare(t);
		VP_ENSURE(character_constant_to_int(t.str) == (s8)want[0], "the value of a character constant is that of the char converted to int");
		VP_ENSURE(escaped_character_constant_to_int(feed[0]) == (s8)want[0], "character constants in #if have the same value");
	}
}
#endif
