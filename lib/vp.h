/* Shared by every harness.  The same text is compiled twice:
 *  - by goto-cc (VP_CBMC): inputs are nondeterministic, VP_REQUIRE assumes a
 *    contract's precondition, VP_ENSURE is the named proof obligation;
 *  - by gcc (native replay): inputs come from the verifier's counterexample,
 *    VP_ENSURE reports whether the real code breaks it.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t s8; typedef int16_t s16; typedef int32_t s32; typedef int64_t s64;

#define VP_MAX_IN 512
extern u64 vp_in[VP_MAX_IN];
extern int vp_exit_ok;   /* the contract allows the code to reject (exit) */

#ifdef VP_CBMC
u64 nondet_vp_u64(void);
static inline u64 vp_get(int id) { u64 v = nondet_vp_u64(); vp_in[id] = v; return v; }
#define VP_REQUIRE(c) __CPROVER_assume(c)
#define VP_ENSURE(c, msg) __CPROVER_assert(c, "ENSURES " msg)
#define VP_REACH(msg) __CPROVER_assert(0, "REACH " msg)
#else
u64 vp_get(int id);
void vp_fail(const char *msg, const char *cond, const char *file, int line);
void vp_skip(const char *cond, const char *file, int line);
#define VP_REQUIRE(c) do { if (!(c)) vp_skip(#c, __FILE__, __LINE__); } while (0)
#define VP_ENSURE(c, msg) do { if (!(c)) vp_fail(msg, #c, __FILE__, __LINE__); } while (0)
#define VP_REACH(msg) ((void)0)
#define __CPROVER_assume(c) VP_REQUIRE(c)
#endif

/* IN(type, name, id): a fresh symbolic input (id unique in the harness). */
#define IN(type, name, id) type name = (type)vp_get(id)
/* IN_RANGE: lo <= name <= hi */
#define IN_RANGE(type, name, id, lo, hi) \
	type name = (type)vp_get(id); VP_REQUIRE(name >= (lo) && name <= (hi))
#endif
