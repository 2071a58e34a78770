/* Feeding token lines to the directive handler.  Callee contracts:
 *  input_open/tokenize_input: some file whose tokens are `line_tokens`;
 *  expand_token_list: no macro in the list, it is left alone;
 *  define_map_get: a name is a macro as the ghost table says. */
#include "spec_int.h"
#include <preprocessor/preprocessor.h>
#include <preprocessor/directives.h>
#include <preprocessor/tokenizer.h>
#include <preprocessor/macro_expander.h>
#include <preprocessor/input.h>
#include <ir/operators.h>
#include <arch/x64.h>
#include <precedence.h>

#ifndef MAXTOK
#define MAXTOK 64
#endif
static struct token line_tokens[MAXTOK];
static int nline_tokens, line_start = 1;
static void tok(ttype t, char *s, int len) {
	line_tokens[nline_tokens++] = (struct token) { .type = t, .str = { .len = len, .str = s }, .first_of_line = line_start, .whitespace = 1 };
	line_start = 0;
}
#define TOK(t, s) tok(t, s, sizeof(s) - 1)
static void newline(void) { line_start = 1; }
static void hash(void) { newline(); TOK(PP_DIRECTIVE, "#"); }
struct input input_open(const char *parent, const char *path, int system) {
	(void)parent; (void)path; (void)system;
	return (struct input) { .path = "f", .contents = "" };
}
struct token_list tokenize_input(const char *contents, const char *path) {
	(void)contents; (void)path;
	return (struct token_list) { .size = nline_tokens, .cap = nline_tokens, .list = line_tokens };
}
void expand_token_list(struct token_list *l) { (void)l; }
static void feed_start(void) {
	static int eoi;
	(void)eoi;
	newline();
	tok(T_EOI, "", 0);
	directiver_reset();
	directiver_push_input("f", 0);
}
static void feed_clear(void) { nline_tokens = 0; line_start = 1; }
#ifdef VP_NAMES
/* contract of sv_string_cmp (proved by unit names of C23) */
int sv_string_cmp(struct string_view s, const char *str) {
	for (int i = 0; i < s.len; i++)
		if (s.str[i] != str[i] || !str[i])
			return 0;
	return !str[s.len];
}
#endif
