/* C08: layout of structs and unions (System V AMD64 psABI 3.1.2). */
#include "vp.h"
#include <common.h>
#include <types.h>
#include <arch/x64.h>
#include <abi/abi.h>

#ifndef N
#define N 4
#endif
static struct type ftype[N];
static int fsize[N], flog[N];	/* size and log2 of the alignment of each member's type */
static struct field fields[N];

#ifdef LAYOUT
/* contracts of calculate_size and calculate_alignment (units size_*) */
int calculate_size(struct type *t) {
	for (int i = 0; i < N; i++)
		if (t == &ftype[i])
			return t->type == TY_INCOMPLETE_ARRAY ? -1 : fsize[i];
	VP_ENSURE(0, "only member types are measured");
	return -1;
}
int calculate_alignment(struct type *t) {
	for (int i = 0; i < N; i++)
		if (t == &ftype[i])
			return 1 << flog[i];
	VP_ENSURE(0, "only member types are measured");
	return -1;
}
#endif
static long up(long x, int lg) { return ((x + (1l << lg) - 1) >> lg) << lg; }
#ifndef UNION
#define UNION 0
#endif
#ifndef BITS
#define BITS 0
#endif
static void layout(void) {
	int n = N;
	IN_RANGE(int, flexible, 1, 0, 1);
	int w[N];
	for (int i = 0; i < N; i++) {
		IN(u8, k, 20 + i);
		IN_RANGE(int, width, 30 + i, -1, 64);
		IN_RANGE(int, named, 40 + i, 0, 1);
		int lg = flog[i];
		if (!BITS || lg > 3) width = -1;
		else if (width > 8 << lg) width = 8 << lg;
		if (width == 0) named = 0;	/* C11 6.7.2.1p12 */
		fsize[i] = width == -1 ? (k & 15) << lg : 1 << lg;
		w[i] = width;
		ftype[i].type = width == -1 && flexible && !UNION && i == n - 1 && i > 0 ? TY_INCOMPLETE_ARRAY : TY_SIMPLE;
		ftype[i].simple = ST_INT;
		fields[i] = (struct field) { .type = &ftype[i], .bitfield = width, .name = { .len = named, .str = "m" } };
	}
	struct struct_data d = { .is_complete = 1, .is_union = UNION, .n = n, .fields = fields };
	calculate_offsets(&d);

	long cur = 0, end = 0;	/* in bits */
	int al = 0;
	for (int i = 0; i < N; i++) {
		if (i >= n) break;
		if (UNION) cur = 0;
		if (w[i] == 0) {
			cur = up(cur, flog[i] + 3);
		} else if (w[i] == -1) {
			cur = up(cur, flog[i] + 3);
			VP_ENSURE(fields[i].offset * 8l == cur, "a member is at the next multiple of its alignment");
			VP_ENSURE(fields[i].bitfield == -1, "a plain member stays one");
			if (ftype[i].type != TY_INCOMPLETE_ARRAY) cur += 8l * fsize[i];
		} else {
			if (cur >> (flog[i] + 3) != (cur + w[i] - 1) >> (flog[i] + 3))
				cur = up(cur, flog[i] + 3);
			VP_ENSURE(fields[i].offset * 8l + fields[i].bit_offset == cur, "a bit-field follows the one before unless it crosses a unit of its type");
			VP_ENSURE(fields[i].bit_offset >= 0 && fields[i].bit_offset + w[i] <= 8 * fsize[i] && (fields[i].offset & (fsize[i] - 1)) == 0, "a bit-field lies in an aligned unit of its type");
			VP_ENSURE(fields[i].type == &ftype[i] && fields[i].bitfield == w[i], "a bit-field keeps its type and width");
			cur += w[i];
		}
		if (cur > end) end = cur;
		if ((w[i] == -1 || fields[i].name.len) && flog[i] > al) al = flog[i];
	}
	VP_ENSURE(d.alignment == 1 << al, "the alignment is the largest one of the members");
	VP_ENSURE(d.size == up((end + 7) >> 3, al), "the size is padded to the alignment");
	VP_ENSURE(d.n == n && d.fields == fields, "the members stay the same");
}
/* every combination of alignments, everything else symbolic */
#ifndef PART
#define PART 0
#define PARTS 1
#endif
#ifndef LOGS
#define LOGS 0, 1, 2, 3, 4
#endif
void h_layout(void) {
	static const int logs[] = { LOGS };
	int c[N] = { 0 }, count = 0, nl = sizeof logs / sizeof *logs, more = 1;
	while (more) {
		for (int i = 0; i < N; i++)
			flog[i] = logs[c[i]];
		if (count++ % PARTS == PART)
			layout();
		int i = 0;
		while (i < N && ++c[i] == nl)
			c[i++] = 0;
		more = i < N;
	}
	VP_REACH("laid out");
}
struct slot { struct type t; struct type *kids[1]; };
static struct slot outer, inner;
/* sizes and alignments of every kind of type */
void h_size(void) {
	static const struct { enum simple_type t; int size; } spec[] = {
		{ ST_CHAR, 1 }, { ST_SCHAR, 1 }, { ST_UCHAR, 1 }, { ST_SHORT, 2 }, { ST_USHORT, 2 }, { ST_INT, 4 }, { ST_UINT, 4 }, { ST_LONG, 8 }, { ST_ULONG, 8 },
		{ ST_LLONG, 8 }, { ST_ULLONG, 8 }, { ST_FLOAT, 4 }, { ST_DOUBLE, 8 }, { ST_BOOL, 1 }, { ST_LDOUBLE, 16 } };
	abi_init_sysv();
	inner.t.type = TY_SIMPLE;
	outer.t.children[0] = &inner.t;
	for (int i = 0; i < (int)(sizeof spec / sizeof *spec); i++) {
		inner.t.simple = spec[i].t;
		VP_ENSURE(calculate_size(&inner.t) == spec[i].size, "size of a simple type");
		VP_ENSURE(calculate_alignment(&inner.t) == spec[i].size, "alignment of a simple type");
		IN_RANGE(int, len, 50 + i, 0, 100000000);
		outer.t.type = TY_ARRAY;
		outer.t.array.length = len;
		VP_ENSURE(calculate_size(&outer.t) == len * spec[i].size, "size of an array");
		VP_ENSURE(calculate_alignment(&outer.t) == spec[i].size, "alignment of an array");
		IN_RANGE(int, at, 70 + i, 0, 100000000);
		VP_ENSURE(calculate_offset(&outer.t, at) == at * spec[i].size, "offset of an array element");
		outer.t.type = TY_INCOMPLETE_ARRAY;
		VP_ENSURE(calculate_alignment(&outer.t) == spec[i].size && calculate_offset(&outer.t, at) == at * spec[i].size, "flexible arrays");
	}
	/* arrays of arrays of every kind of element */
	static struct slot mid;
	static struct struct_data sd;
	IN_RANGE(int, n2, 91, 0, 1000);
	IN_RANGE(int, at2, 92, 0, 1000);
	for (int i = 0; i < 4; i++) {
		int n1 = 3 + i, size = i == 0 ? 1 : i == 1 ? 4 : i == 2 ? 8 : 12, al = i == 3 ? 4 : size;
		sd = (struct struct_data) { .is_complete = 1, .size = 12, .alignment = 4 };
		inner.t.type = i == 2 ? TY_POINTER : i == 3 ? TY_STRUCT : TY_SIMPLE;
		if (i == 3) inner.t.struct_data = &sd;
		else inner.t.simple = i == 0 ? ST_CHAR : ST_INT;
		mid.t.type = outer.t.type = TY_ARRAY;
		mid.t.array.length = n1;
		outer.t.array.length = n2;
		mid.t.children[0] = &inner.t;
		outer.t.children[0] = &mid.t;
		VP_ENSURE(calculate_size(&outer.t) == n2 * n1 * size && calculate_alignment(&outer.t) == al, "arrays of arrays");
		VP_ENSURE(calculate_offset(&outer.t, at2) == at2 * n1 * size, "offset of a row");
	}
	inner.t.type = TY_SIMPLE;
	outer.t.type = TY_POINTER;
	VP_ENSURE(calculate_size(&outer.t) == 8 && calculate_alignment(&outer.t) == 8, "pointers");
	VP_REACH("measured");
}
/* members of members: the layout of a struct is the sum of its parts */
void h_nested(void) {
	IN_RANGE(int, al, 0, 0, 4);
	IN_RANGE(int, k, 1, 0, 1000);
	IN_RANGE(int, at, 2, 0, 1);
	static struct field f[2];
	static struct struct_data d;
	abi_init_sysv();
	for (int i = 0; i < 2; i++) {
		IN_RANGE(int, off, 10 + i, 0, 1 << 28);
		IN_RANGE(int, bit, 20 + i, 0, 63);
		IN_RANGE(int, w, 30 + i, -1, 64);
		f[i] = (struct field) { .offset = off, .bit_offset = bit, .bitfield = w, .type = &inner.t };
	}
	inner.t.type = TY_SIMPLE; inner.t.simple = ST_INT;
	d = (struct struct_data) { .is_complete = 1, .n = 2, .fields = f, .alignment = 1 << al, .size = k << al };
	outer.t.type = TY_STRUCT;
	outer.t.struct_data = &d;
	VP_ENSURE(calculate_size(&outer.t) == k << al, "size of a struct");
	VP_ENSURE(calculate_alignment(&outer.t) == 1 << al, "alignment of a struct");
	int o, b, w;
	type_get_offsets(&outer.t, at, &o, &b, &w);
	VP_ENSURE(o == f[at].offset && b == f[at].bit_offset && w == f[at].bitfield, "place of a member");
	VP_ENSURE(calculate_offset(&outer.t, at) == f[at].offset && type_select(&outer.t, at) == &inner.t, "place of a member");
	static struct slot arr;
	arr.t.type = TY_ARRAY; arr.t.children[0] = &outer.t;
	IN_RANGE(int, len, 3, 0, 7);
	arr.t.array.length = len;
	VP_ENSURE(calculate_size(&arr.t) == len * (k << al) && calculate_alignment(&arr.t) == 1 << al, "arrays of structs");
	VP_REACH("nested");
}
