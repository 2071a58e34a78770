/* Contract stand-in for type_create (its contract is proved in C19): two calls
 * return the same pointer iff they describe the same type.
 * Used as the callee's contract when callers are verified. */
#include "vp.h"
#include <types.h>

#define NDERIVED 24
#define NCHILD 6
struct vp_type_slot { struct type t; struct type *kids[NCHILD]; };
#define S(c, k) [k] = { .t = { .type = TY_SIMPLE, .simple = k, .is_const = c } }
#define ROW(c) { S(c, ST_VOID), S(c, ST_CHAR), S(c, ST_SCHAR), S(c, ST_UCHAR), S(c, ST_SHORT), S(c, ST_USHORT), \
	S(c, ST_INT), S(c, ST_UINT), S(c, ST_LONG), S(c, ST_ULONG), S(c, ST_LLONG), S(c, ST_ULLONG), S(c, ST_FLOAT), \
	S(c, ST_DOUBLE), S(c, ST_LDOUBLE), S(c, ST_BOOL), S(c, ST_FLOAT_COMPLEX), S(c, ST_DOUBLE_COMPLEX), S(c, ST_LDOUBLE_COMPLEX) }
static struct vp_type_slot vp_simple[2][ST_COUNT] = { ROW(0), ROW(1) };
static struct vp_type_slot vp_derived[NDERIVED];
static int vp_nderived;

struct type *type_create(struct type *p, struct type **children) {
	if (p->type == TY_SIMPLE) {
		return &vp_simple[p->is_const != 0][p->simple].t;
	}
	for (int i = 0; i < vp_nderived; i++) {
		struct type *d = &vp_derived[i].t;
		if (d->type != p->type || d->n != p->n || d->is_const != p->is_const)
			continue;
		if (p->type == TY_ARRAY && d->array.length != p->array.length) continue;
		if (p->type == TY_STRUCT && d->struct_data != p->struct_data) continue;
		if (p->type == TY_FUNCTION && d->function.is_variadic != p->function.is_variadic) continue;
		int same = 1;
		for (int j = 0; j < p->n; j++)
			if (vp_derived[i].t.children[j] != children[j]) same = 0;
		if (same) return d;
	}
	VP_REQUIRE(vp_nderived < NDERIVED && p->n <= NCHILD);
	struct type *d = &vp_derived[vp_nderived++].t;
	*d = *p;
	for (int j = 0; j < p->n; j++)
		d->children[j] = children[j];
	return d;
}
