/* Contract stand-ins for the environment of the code under contract:
 *  impl_error_*: never return (report and exit);
 *  dbg_*: some string, only used in diagnostics;
 *  symbols_add_typedef: a fresh entry. */
#include "vp.h"
#include <common.h>
#include <debug.h>
#include <preprocessor/preprocessor.h>
#include <parser/symbols.h>

_Noreturn void vp_exit(int);
_Noreturn void impl_error_ice(const char *file, int line, const char *fmt, ...) { (void)file; (void)line; (void)fmt; vp_exit(1); }
_Noreturn void impl_error(struct position pos, const char *file, int line, const char *fmt, ...) { (void)pos; (void)file; (void)line; (void)fmt; vp_exit(1); }
_Noreturn void impl_error_no_pos(const char *file, int line, const char *fmt, ...) { (void)file; (void)line; (void)fmt; vp_exit(1); }
_Noreturn void impl_error_notimp(const char *file, int line) { (void)file; (void)line; vp_exit(1); }
void impl_warning(struct position pos, const char *fmt, ...) { (void)pos; (void)fmt; }
const char *dbg_type(struct type *type) { (void)type; return ""; }
const char *dbg_instruction(struct node *ins) { (void)ins; return ""; }
const char *dbg_token(struct token *t) { (void)t; return ""; }
const char *dbg_token_type(ttype tt) { (void)tt; return ""; }

void define_string(char *name, char *value) { (void)name; (void)value; }
#ifndef NO_PEEK_STUB
/* the token stream is only used for positions in diagnostics */
struct token *t_peek(int n) { static struct token t; (void)n; return &t; }
#endif
#ifndef NO_SYMBOLS_STUB
struct symbol_typedef *symbols_add_typedef(struct string_view name) {
	static struct symbol_typedef t;
	(void)name;
	return &t;
}
#endif
