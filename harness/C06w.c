/* C06: wide literals. */
#include "vp.h"
#include <utf8.h>
#include <string_view.h>
#include <preprocessor/preprocessor.h>
#include <preprocessor/tokenizer.h>
#include <preprocessor/string_concat.h>

/* RFC 3629, section 3 */
static int rfc_encode(u32 cp, u8 *o) {
	if (cp < 0x80) { o[0] = (u8)cp; return 1; }
	if (cp < 0x800) { o[0] = (u8)(192 + cp / 64); o[1] = (u8)(128 + cp % 64); return 2; }
	if (cp < 0x10000) { o[0] = (u8)(224 + cp / 4096); o[1] = (u8)(128 + cp / 64 % 64); o[2] = (u8)(128 + cp % 64); return 3; }
	o[0] = (u8)(240 + cp / 262144); o[1] = (u8)(128 + cp / 4096 % 64); o[2] = (u8)(128 + cp / 64 % 64); o[3] = (u8)(128 + cp % 64);
	return 4;
}
/* wide literals: the decoder is used through its contract (h_decode) */
static struct token feed;
static int fed;
struct token expander_next(void) {
	if (!fed) { fed = 1; return feed; }
	return (struct token) { .type = T_EOI };
}
static const char *at[2];
static int at_len[2];
static u32 at_cp[2];
u32 utf8_decode(const char **start) {
	for (int i = 0; i < 2; i++)
		if (*start == at[i]) {
			*start += at_len[i];
			return at_cp[i];
		}
	VP_ENSURE(0, "code points are decoded from where they start");
	return 0;
}
static const char prefix[3] = { 'L', 'U', 'u' };
static const ttype type_s[3] = { T_STRING_WCHAR, T_STRING_CHAR32, T_STRING_CHAR16 };
static const ttype type_c[3] = { T_CHARACTER_CONSTANT_WCHAR, T_CHARACTER_CONSTANT_CHAR32, T_CHARACTER_CONSTANT_CHAR16 };
static void wide(int kind, int chr, int la, int lb, int id, int fixed) {
	static char text[16];
	static const u32 lo[5] = { 0, 1, 0x80, 0x800, 0x10000 }, hi[5] = { 0, 0x7f, 0x7ff, 0xffff, 0x10ffff };
	u32 cp[2];
	int n = 0, len[2] = { la, lb };
	static const u32 ends[5][2] = { { 0, 0 }, { 1, 0x7f }, { 0x80, 0x7ff }, { 0x800, 0xffff }, { 0x10000, 0x10ffff } };
	char q = chr ? '\'' : '"';
	for (int i = 0; i < 16; i++) text[i] = 'z';
	text[n++] = prefix[kind];
	text[n++] = q;
	for (int i = 0; i < 2; i++) {
		if (!len[i]) { at[i] = 0; continue; }
		u32 v;
		if (fixed) v = fixed == 3 ? (len[i] == 4 ? 0x1f600 + 0x400 * i : hi[len[i]] - 0x5a) : ends[len[i]][(fixed - 1) ^ i];
		else v = (u32)vp_get(id + i);
		VP_REQUIRE(v >= lo[len[i]] && v <= hi[len[i]]);
		cp[i] = v;
		at[i] = text + n; at_len[i] = len[i]; at_cp[i] = v;
#ifndef VP_CBMC
		VP_REQUIRE(v != '"' && v != '\'' && v != '\\' && v != '\n');
		u8 enc[4];
		for (int j = 0; j < rfc_encode(v, enc); j++) text[n + j] = (char)(j ? 'z' : enc[0] >= 0x80 ? 0xe0 : 'z');
#endif
		n += len[i];
	}
	text[n++] = q;
	feed = (struct token) { .type = chr ? T_CHARACTER_CONSTANT : T_STRING, .str = { .len = n, .str = text } };
	fed = 0;
	struct token t = string_concat_next();
	if (!chr) {
		struct token e = string_concat_next();
		VP_ENSURE(e.type == T_EOI, "the token after the literal is kept");
	}
	VP_REACH("literal");
	int w = kind == 2 ? 2 : 4, at_unit = 0;	/* RFC 2781: a code point above 0xffff is two units of UTF-16 */
	VP_ENSURE(t.str.len == w * (1 + !!lb + !chr + (kind == 2 && la == 4) + (kind == 2 && lb == 4)), "one unit per code point (a pair of surrogates for those above 0xffff in UTF-16) and a terminator");
	VP_ENSURE(t.type == (chr ? type_c[kind] : type_s[kind]), "the literal has the type its prefix selects");
	for (int k = 0; k < (lb ? 2 : 1); k++)
		for (int h = 0; h < (kind == 2 && len[k] == 4 ? 2 : 1); h++, at_unit++) {
			u32 unit = kind != 2 || len[k] < 4 ? cp[k] : h ? 0xdc00 + (cp[k] - 0x10000) % 1024 : 0xd800 + (cp[k] - 0x10000) / 1024;
			for (int i = 0; i < w; i++)
				VP_ENSURE((u8)t.str.str[at_unit * w + i] == (u8)(unit >> (8 * i)), "each unit is that of its code point");
		}
	for (int i = 0; i < w && !chr; i++) VP_ENSURE(t.str.str[at_unit * w + i] == 0, "the terminator is zero");
}
#ifndef LA
void h_wide(void) {
	int id = 0;
	for (int kind = 0; kind < 2; kind++)
		for (int la = 1; la <= 4; la++) {
			for (int lb = 1; lb <= 4; lb++, id += 2)
				wide(kind, 0, la, lb, id, 0);
			wide(kind, 1, la, 0, id, 0);
			id += 2;
		}
}
/* UTF-16: two code points at the ends of the ranges of each length */
void h_wide16(void) {
	for (int fixed = 1; fixed <= 3; fixed++)
		for (int la = 1; la <= 4; la++) {
			for (int lb = 1; lb <= 4; lb++)
				wide(2, 0, la, lb, 0, fixed);
			if (la < 4) wide(2, 1, la, 0, 0, fixed);
		}
}
#else
/* UTF-16: any one code point */
void h_any16(void) { wide(2, CHR, LA, 0, 0, 0); }
#endif
