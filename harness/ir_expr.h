/* C operands in ghost memory and expressions over them. */
#include "ghost_ir.h"
#include <parser/expression.h>
#include <parser/expression_to_ir.h>
#include <parser/parser.h>

/* a variable of type t at a fresh place in memory holding the low bytes of v */
static struct expr *variable_off(struct type *t, int *off, int is_alloc) {
	int size = calculate_size(t);
	struct node *n;
	if (is_alloc) {	/* a local variable */
		n = ir_allocate(size, 0);
		*off = gi_object(n, size);
	} else {	/* an object known by address only */
		*off = gi_alloc_end;
		gi_alloc_end += (size + 7) / 8 * 8;
		n = gi_leaf(8, GI_BASE + *off);
	}
	struct symbol_identifier *s = malloc(sizeof *s);
	*s = (struct symbol_identifier) { .type = IDENT_VARIABLE };
	s->variable.type = t;
	s->variable.ptr = n;
	return expr_new((struct expr) { .type = E_SYMBOL, .symbol = s });
}
static struct expr *variable(struct type *t, u64 v, int is_alloc) {
	int off;
	struct expr *e = variable_off(t, &off, is_alloc);
	for (int i = 0; i < 8; i++)
		if (i < calculate_size(t))
			gi_mem0.b[off + i] = v >> (8 * i);
	return e;
}
static struct expr *ivar(enum simple_type t, u64 v, int is_alloc) { return variable(type_simple(t), v, is_alloc); }
