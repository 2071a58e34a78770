/* C10: bit-field reads and writes. */
#include "ghost_ir.h"

static u64 field_mask(int w) { return w == 64 ? ~0ull : (1ull << w) - 1; }

/* ir_set_bits / ir_get_bits for every storage size, offset, width and value */
void h_bits(void) {
	gi_begin();
	IN(u64, prev, 0);
	IN(u64, val, 1);
	IN_RANGE(int, off, 2, 0, 8 * SZ - 1);
	IN_RANGE(int, w, 3, 1, 8 * SZ);
	IN_RANGE(int, sx, 4, 0, 1);
	VP_REQUIRE(off + w <= 8 * SZ);
	struct node *f = gi_leaf(SZ, prev), *v = gi_leaf(SZ, val);
	struct node *s = ir_set_bits(f, v, off, w);
	VP_REACH("built");
	VP_ENSURE(s->size == SZ, "the new storage has the storage's size");
	u64 got = gi_eval(s);
	u64 m = field_mask(w) << off;
	VP_ENSURE((got & m) == ((val << off) & m), "the field's bits are the value modulo 2^width");
	VP_ENSURE((got & ~m) == (gi_mask(SZ, prev) & ~m), "no other bit changes");
	struct node *g0 = ir_get_bits(f, off, w, 0), *g1 = ir_get_bits(f, off, w, 1);
	u64 raw = (gi_mask(SZ, prev) >> off) & field_mask(w);
	u64 sext = (raw >> (w - 1)) & 1 ? raw | ~field_mask(w) : raw;
	VP_ENSURE(g0->size == SZ && g1->size == SZ, "a read has the storage's size");
	VP_ENSURE(gi_eval(g0) == gi_mask(SZ, raw), "an unsigned field reads back zero-extended");
	VP_ENSURE(gi_eval(g1) == gi_mask(SZ, sext), "a signed field reads back sign-extended");
	(void)sx;
}
