/* C06: UTF-8, all code points. */
#include "vp.h"
#include <utf8.h>
#include <string_view.h>
#include <preprocessor/preprocessor.h>
#include <preprocessor/tokenizer.h>
#include <preprocessor/string_concat.h>

/* RFC 3629, section 3 */
static int rfc_encode(u32 cp, u8 *o) {
	if (cp < 0x80) { o[0] = (u8)cp; return 1; }
	if (cp < 0x800) { o[0] = (u8)(192 + cp / 64); o[1] = (u8)(128 + cp % 64); return 2; }
	if (cp < 0x10000) { o[0] = (u8)(224 + cp / 4096); o[1] = (u8)(128 + cp / 64 % 64); o[2] = (u8)(128 + cp % 64); return 3; }
	o[0] = (u8)(240 + cp / 262144); o[1] = (u8)(128 + cp / 4096 % 64); o[2] = (u8)(128 + cp / 64 % 64); o[3] = (u8)(128 + cp % 64);
	return 4;
}
static u32 scalar(int id) {
	IN(u32, cp, id);
	VP_REQUIRE(cp <= 0x10ffff && !(cp >= 0xd800 && cp <= 0xdfff));
	return cp;
}
void h_encode(void) {
	u32 cp = scalar(0);
	u8 ref[4] = { 0 };
	int n = rfc_encode(cp, ref);
	char out[4];
	utf8_encode(cp, out);
	VP_REACH("encoded");
	for (int i = 0; i < 4; i++)
		VP_ENSURE((u8)out[i] == (i < n ? ref[i] : 0), "the encoding is the RFC 3629 encoding, zero padded");
	VP_ENSURE(utf8_code_point_length(ref[0]) == n, "the first byte determines the length");
}
void h_decode(void) {
	u32 cp = scalar(0);
	u8 text[5] = { 0 };
	int n = rfc_encode(cp, text);
	IN(u8, after, 1);
	text[n] = after;
	const char *p = (const char *)text;
	u32 got = utf8_decode(&p);
	VP_REACH("decoded");
	VP_ENSURE(got == cp, "decoding returns the code point");
	VP_ENSURE(p == (const char *)text + n, "decoding consumes exactly the bytes of the code point");
}
/* universal character names: every digit value at every position, both cases */
static void ucn(u32 cp, int digits, int upper) {
	char src[16];
	int n = 0;
	src[n++] = '"';
	src[n++] = '\\';
	src[n++] = digits == 8 ? 'U' : 'u';
	for (int i = digits - 1; i >= 0; i--) {
		u32 v = (cp >> (4 * i)) & 15;
		src[n++] = (char)(v < 10 ? '0' + v : (upper ? 'A' : 'a') + v - 10);
	}
	src[n++] = 'x';
	src[n++] = '"';
	src[n] = 0;
	u8 ref[4] = { 0 };
	int k = rfc_encode(cp, ref);
	struct token_list tl = tokenize_input(src, "f");
	VP_ENSURE(tl.size == 1 && tl.list[0].type == T_STRING, "one string token");
	VP_ENSURE(tl.list[0].str.len == k + 3, "the name is replaced by its encoding");
	for (int i = 0; i < k; i++)
		VP_ENSURE((u8)tl.list[0].str.str[1 + i] == ref[i], "the name is replaced by its UTF-8 encoding");
	VP_ENSURE(tl.list[0].str.str[1 + k] == 'x', "following text is kept");
}
void h_ucn(void) {
	for (int v = 0; v < 16; v++)
		for (int i = 0; i < 4; i++) {
			u32 cp = 0x1234 & ~(15u << (4 * i));
			cp |= (u32)v << (4 * i);
			if ((cp & 0xf800) == 0xd800) continue;
			ucn(cp, 4, v & 1);
			ucn(cp, 8, !(v & 1));
			if (i == 0) ucn(cp | (u32)(v & 7) << 16, 8, v & 1);
		}
	ucn(0xa0, 4, 0); ucn(0x7ff, 4, 1); ucn(0x800, 4, 0); ucn(0xffff, 4, 0); ucn(0x10000, 8, 0); ucn(0x10ffff, 8, 1); ucn(0x100abc, 8, 0);
	VP_REACH("names");
}
