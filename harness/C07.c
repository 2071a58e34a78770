/* C07: string literals in the assembly output. */
#include "vp.h"
#include <common.h>
#include <assembler/assembler.h>
#include <codegen/rodata.h>
#include "fmt.h"

#ifndef N
#define N 3
#endif
static int odigit(char c) { return c >= '0' && c <= '7'; }
/* the assembler's reading of a .string operand (GNU as manual, 3.6.1.1) */
void h_text(void) {
	static char s[N + 1];
	for (int i = 0; i < N; i++) {
		IN(char, c, i);
		s[i] = c;
	}
	asm_init_text_out("/dev/null");
	asm_string((struct string_view) { N, s });
	int p = 0, k = 0;
	static const char head[] = "\t.string \"";
	VP_ENSURE(out_n <= OUTMAX - 1, "the directive is not longer than its escapes need");
	while (out_text[p] == ' ' || out_text[p] == '\t') p++;
	for (int i = 1; head[i]; i++, p++)
		VP_ENSURE(out_text[p] == head[i], "a .string directive");
	for (; k < N + 1; k++) {
		char c = out_text[p];
		if (c == '"')
			break;
		int v = (u8)c;
		p++;
		VP_ENSURE(c != '\n' && c != 0, "the directive stays on its line");
		if (c == '\\') {
			c = out_text[p++];
			if (odigit(c)) {
				v = c - '0';
				for (int j = 0; j < 2; j++)
					if (odigit(out_text[p])) v = v * 8 + out_text[p++] - '0';
			} else {
				VP_ENSURE(c == 'n' || c == 't' || c == 'r' || c == 'f' || c == 'b' || c == '"' || c == '\\', "an escape the assembler knows");
				v = c == 'n' ? 10 : c == 't' ? 9 : c == 'r' ? 13 : c == 'f' ? 12 : c == 'b' ? 8 : c;
			}
		}
		VP_ENSURE(k < N && (u8)v == (u8)s[k], "each byte of the literal is read back by the assembler");
	}
	VP_ENSURE(k == N && out_text[p] == '"' && out_text[p + 1] == '\n' && p + 2 == out_n, "every byte is written, and the line ends");
	VP_REACH("text");
}

#ifdef OBJECT
static u8 obj[16];
static int nobj;
void object_write(uint8_t *data, size_t size) { for (size_t i = 0; i < size; i++) obj[nobj++] = data[i]; }
void object_write_byte(uint8_t v) { obj[nobj++] = v; }
void object_write_zero(size_t size) { for (size_t i = 0; i < size; i++) obj[nobj++] = 0; }
void h_object(void) {
	static char s[N + 1];
	for (int i = 0; i < N; i++) {
		IN(char, c, i);
		s[i] = c;
	}
	asm_reset();
	asm_string((struct string_view) { N, s });
	for (int i = 0; i < N; i++)
		VP_ENSURE(obj[i] == (u8)s[i], "each byte of the literal is written");
	VP_ENSURE(nobj == N + 1 && obj[N] == 0, "a null character ends the literal");
	VP_REACH("object");
}
#endif

/* two texts are the same iff they have the same length and bytes */
void h_same(void) {
	static char a[8], b[8];
	IN_RANGE(int, la, 0, 0, 8);
	IN_RANGE(int, lb, 1, 0, 8);
	int same = la == lb;
	for (int i = 0; i < 8; i++) {
		IN(char, x, 10 + i);
		IN(char, y, 20 + i);
		a[i] = x;
		b[i] = y;
		if (i < la && i < lb && x != y) same = 0;
	}
	VP_ENSURE(!!sv_cmp((struct string_view) { la, a }, (struct string_view) { lb, b }) == same, "texts are compared in full");
	VP_REACH("compared");
}
#ifdef TABLE
#define NS 3
static char text[NS][4];
static int len[NS];
static label_id id[NS], plain, last;
static int defined[NS], strings, current;
void asm_section(const char *s) { VP_ENSURE(s[0] == '.' && s[1] == 'r' && s[2] == 'o', "literals live in .rodata"); }
void asm_label(int global, label_id l) { VP_ENSURE(!global, "a literal has no global name"); last = l; }
void asm_string(struct string_view s) {
	int known = 0;
	for (int i = 0; i < NS; i++) {
		if (last != id[i]) continue;
		known = 1;
		defined[i]++;
		VP_ENSURE(s.len == len[i], "the literal's own length stands at its label");
		for (int j = 0; j < 4; j++)
			VP_ENSURE(j >= len[i] || s.str[j] == text[i][j], "the literal's own bytes stand at its label");
	}
	VP_ENSURE(known, "only literals of the program are written");
	strings++;
}
/* histories of literals (comparison of texts: h_same): equal ones may share a label, different ones never do */
void h_table(void) {
	static const char *const pool[] = { "", "a", "b", "a\0", "a\0b", "ab", "\0", "aa" };
	static const char plen[] = { 0, 1, 1, 2, 3, 2, 1, 2 };
	for (int i = 0; i < NS; i++) {
		int k = i == 0 ? P0 : i == 1 ? P1 : P2;
		len[i] = plen[k];
		for (int j = 0; j < 4; j++) text[i][j] = j < len[i] ? pool[k][j] : 0;
	}
	for (int i = 0; i < NS; i++) {
		id[i] = rodata_register((struct string_view) { len[i], text[i] });
		if (i == 1)
			plain = register_label_name((struct string_view) { len[0], text[0] });
	}
	label_id again = rodata_register((struct string_view) { len[0], text[0] });
	label_id tmp = register_label(), tmp2 = register_label();
	for (int i = 0; i < NS; i++)
		VP_ENSURE(id[i] != plain && id[i] != tmp && id[i] != tmp2, "a literal is not confused with a named label");
	VP_ENSURE(tmp != tmp2 && plain != tmp && plain != tmp2 && tmp != -1 && tmp2 != -1, "fresh labels are fresh");
	(void)again;
	for (int i = 0; i < NS; i++)
		for (int j = 0; j < i; j++) {
			int same = len[i] == len[j];
			for (int k = 0; k < 3; k++)
				if (k < len[i] && text[i][k] != text[j][k]) same = 0;
			VP_ENSURE(id[i] != id[j] || same, "different literals have different labels");
		}
	rodata_codegen();
	for (int i = 0; i < NS; i++)
		VP_ENSURE(defined[i] == 1, "every literal is written once");
	VP_ENSURE(strings <= NS, "nothing else is written");
	VP_REACH("table");
}
#endif
/* the spelling of labels: different labels are spelled differently */
void h_names(void) {
	static char n1[2] = "x", n2[2] = "y", b[6][16];
	label_id l[6];
	l[0] = rodata_register((struct string_view) { 1, n1 });
	l[1] = register_label_name((struct string_view) { 1, n1 });
	l[2] = rodata_register((struct string_view) { 1, n2 });
	l[3] = register_label_name((struct string_view) { 1, n2 });
	l[4] = register_label();
	l[5] = register_label();
	for (int i = 0; i < 6; i++) {
		rodata_get_label(l[i], 16, b[i]);
		for (int j = 0; j < i; j++) {
			int same = 1;
			for (int k = 0; k < 16; k++) {
				if (b[i][k] != b[j][k]) same = 0;
				if (!b[i][k]) break;
			}
			VP_ENSURE(!same, "different labels are spelled differently");
		}
	}
	VP_ENSURE(b[1][0] == 'x' && !b[1][1] && b[3][0] == 'y' && !b[3][1], "a named label is spelled as its name");
	VP_REACH("names");
}
