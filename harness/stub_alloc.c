/* Contract stand-in for the allocator: a block holds at least the bytes asked
 * for; growing a block keeps its contents and may keep its address.  Every
 * block has the fixed capacity VP_CAP, and requests above it are outside the
 * bound of the unit. */
#include "vp.h"
#include <common.h>
#undef malloc
#ifndef VP_CAP
#define VP_CAP 64
#endif
void *cc_malloc(size_t n) {
	VP_REQUIRE(n <= VP_CAP);
	return malloc(VP_CAP);
}
void *cc_realloc(void *p, size_t n) {
	VP_REQUIRE(n <= VP_CAP);
	return p ? p : malloc(VP_CAP);
}
