/* C19: types are one object per equivalence class. Every pair of kinds with
 * unconstrained data (arithmetic type, array length, struct, length expression,
 * parameter types, variadicity, const), all in one hash bucket (hash32 replaced
 * by a constant) or with an identity hash. */
#include "vp.h"
#include <common.h>
#include <types.h>

#ifndef HASH
#define HASH 0
#endif
uint32_t hash32(uint32_t a) { return HASH ? a : 0; }

/* the only copies made are of arrays of pointers */
void *memcpy(void *d, const void *s, size_t n) {
	for (size_t i = 0; i < n / sizeof(void *); i++)
		((void **)d)[i] = ((void *const *)s)[i];
	return d;
}
enum { SIMPLE, POINTER, ARRAY, INCOMPLETE, STRUCT, FUNC0, FUNC1, FUNC2, VLA, PTRPTR, PTRARRAY, FUNC7, NKIND };
struct d { int kind, k, s, s2, v; u64 len; };
static struct struct_data sd[4];
static char exprs[64];
static int same(struct d a, struct d b) {
	if (a.kind != b.kind || a.k != b.k) return 0;
	if (a.kind == STRUCT) return a.v == b.v;
	if (a.s != b.s) return 0;
	if (a.kind == ARRAY || a.kind == PTRARRAY) return a.len == b.len;
	if (a.kind == VLA) return a.v == b.v;
	if (a.kind == FUNC0) return (a.v & 1) == (b.v & 1);
	if (a.kind == FUNC1 || a.kind == FUNC2 || a.kind == FUNC7) return (a.v & 1) == (b.v & 1) && a.s2 == b.s2;
	return 1;
}
/* the same type by way of the constructors used by the parser; alt: build const by type_make_const */
static struct type *make(struct d a, int alt) {
	struct type *t = a.kind == STRUCT ? NULL : type_simple(a.s), *ch[8] = { t, t, t, t, t, t, t, t };
	struct type p = { 0 };
	switch (a.kind) {
	case SIMPLE: p.type = TY_SIMPLE; p.simple = a.s; break;
	case POINTER: p.type = TY_POINTER; p.n = 1; break;
	case ARRAY: p.type = TY_ARRAY; p.array.length = a.len; p.n = 1; break;
	case INCOMPLETE: p.type = TY_INCOMPLETE_ARRAY; p.n = 1; break;
	case STRUCT: p.type = TY_STRUCT; p.struct_data = sd + a.v; break;
	case FUNC0: p.type = TY_FUNCTION; p.n = 1; p.function.is_variadic = a.v & 1; break;
	case FUNC1: p.type = TY_FUNCTION; p.n = 2; p.function.is_variadic = a.v & 1; ch[1] = type_simple(a.s2); break;
	case FUNC2: p.type = TY_FUNCTION; p.n = 3; p.function.is_variadic = a.v & 1; ch[2] = type_simple(a.s2); break;
	case FUNC7: p.type = TY_FUNCTION; p.n = 8; p.function.is_variadic = a.v & 1; ch[7] = type_simple(a.s2); break;
	case VLA: p.type = TY_VARIABLE_LENGTH_ARRAY; p.variable_length_array.length_expr = (struct expr *)(exprs + a.v); p.n = 1; break;
	case PTRPTR: p.type = TY_POINTER; p.n = 1; ch[0] = type_pointer(t); break;
	case PTRARRAY: p.type = TY_POINTER; p.n = 1; ch[0] = type_array(t, a.len); break;
	}
	if (!alt) { p.is_const = a.k; return type_create(&p, p.n ? ch : NULL); }
	struct type *r;
	switch (a.kind) {
	case SIMPLE: r = type_simple(a.s); break;
	case POINTER: case PTRPTR: case PTRARRAY: r = type_pointer(ch[0]); break;
	case ARRAY: r = type_array(t, a.len); break;
	case STRUCT: r = type_struct(sd + a.v); break;
	default: p.is_const = !a.k; r = type_create(&p, ch);
	}
	if (alt == 2) r = type_make_const(r, !a.k);
	return a.k ? type_make_const(r, 1) : type_remove_qualifications(r);
}
static void fields(struct type *t, struct d a) {
	VP_ENSURE(t->is_const == a.k, "const-ness of a constructed type");
	switch (a.kind) {
	case SIMPLE: VP_ENSURE(t->type == TY_SIMPLE && t->n == 0 && (int)t->simple == a.s, "arithmetic type"); break;
	case STRUCT: VP_ENSURE(t->type == TY_STRUCT && t->n == 0 && t->struct_data == sd + a.v, "structure type"); break;
	case ARRAY: VP_ENSURE(t->type == TY_ARRAY && t->n == 1 && t->array.length == a.len && t->children[0]->simple == a.s, "array type"); break;
	case FUNC2: VP_ENSURE(t->type == TY_FUNCTION && t->n == 3 && t->function.is_variadic == (a.v & 1) && t->children[2]->simple == a.s2 && t->children[0]->simple == a.s, "function type"); break;
	case FUNC7: VP_ENSURE(t->type == TY_FUNCTION && t->n == 8 && t->function.is_variadic == (a.v & 1) && t->children[7]->simple == a.s2, "function type"); break;
	case PTRARRAY: VP_ENSURE(t->type == TY_POINTER && t->n == 1 && t->children[0]->type == TY_ARRAY && t->children[0]->array.length == a.len, "pointer type"); break;
	case POINTER: VP_ENSURE(t->type == TY_POINTER && t->n == 1 && t->children[0]->type == TY_SIMPLE && t->children[0]->simple == a.s && type_deref(t) == t->children[0], "pointer type"); break;
	}
}
static struct type *t[NKIND * 5];
static struct d u[NKIND * 5];
static int n;
static void universe(void) {
	for (int i = 0; i < 4; i++)	/* structures with the same tag */
		sd[i].name = (struct string_view) { 1, exprs };
	for (int k = 0; k < NKIND; k++)
		for (int j = 0; j < 3; j++) {
			if (HASH && (k == STRUCT || k == VLA)) continue;	/* hashed by address */
			struct d a = { k, j & 1, j == 2 ? ST_UCHAR : ST_INT, j ? ST_LONG : ST_CHAR, j, 3 + j };
			u[n] = a; t[n++] = make(a, 0);
		}
}
/* one object per type, whatever was built in between */
void h_all(void) {
	universe();
	/* completing a structure and evaluating an array length leave the type what it is */
	for (int i = 0; i < 4; i++)
		sd[i].is_complete = 1, sd[i].n = i;
	for (int i = 0; i < n; i++)
		if (u[i].kind == VLA)
			t[i]->variable_length_array.is_evaluated = 1;
	for (int i = 0; i < n; i++) {
		VP_ENSURE(make(u[i], 1 + i % 2) == t[i], "building a type again gives the same object");
		fields(t[i], u[i]);
		for (int j = 0; j < i; j++)
			VP_ENSURE(t[i] != t[j], "different types are different objects");
	}
	VP_REACH("all");
}
/* a type with arbitrary data of its own after all of those */
void h_new(void) {
	universe();
	struct d a = { KIND, vp_get(0) & 1, ST_INT, ST_CHAR, vp_get(3) & 3, vp_get(4) & 0x7fffffff };
	if (KIND == SIMPLE) a.s = (u64)vp_get(1) % ST_COUNT;
	if (KIND == PTRARRAY) a.len = 3;
	struct type *r = make(a, 0);
	fields(r, a);
	for (int i = 0; i < n; i++)
		VP_ENSURE((r == t[i]) == same(a, u[i]), "two types are one object exactly if they are the same type");
	VP_REACH("new");
}
