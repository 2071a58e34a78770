/* IEEE operations by bit pattern.  Arithmetic, rounding and conversions are
 * uninterpreted: the machine instruction and the IR operation denote the same
 * function.  Comparisons are given by the bits (IEEE 754 5.11). */
#ifndef GF_H
#define GF_H
#if defined VP_CBMC && !defined GF_REAL	/* GF_REAL: bit-precise IEEE arithmetic */
u64 __CPROVER_uninterpreted_farith(int, int, u64, u64);
u64 __CPROVER_uninterpreted_fwiden(u64);
u64 __CPROVER_uninterpreted_fnarrow(u64);
u64 __CPROVER_uninterpreted_ffromint(int, u64);
u64 __CPROVER_uninterpreted_ftoint(int, u64);
static u64 gf_arith(int op, int size, u64 a, u64 b) { u64 r = __CPROVER_uninterpreted_farith(op, size, a, b); return size == 4 ? (u32)r : r; }
static u64 gf_widen(u64 a) { return __CPROVER_uninterpreted_fwiden((u32)a); }
static u64 gf_narrow(u64 a) { return (u32)__CPROVER_uninterpreted_fnarrow(a); }
static u64 gf_from_int(int size, u64 v) { u64 r = __CPROVER_uninterpreted_ffromint(size, v); return size == 4 ? (u32)r : r; }
static u64 gf_to_int(int size, u64 v) { return __CPROVER_uninterpreted_ftoint(size, size == 4 ? (u32)v : v); }
#else
union gf8 { double d; u64 v; };
union gf4 { float f; u32 v; };
static double gfd(u64 v) { union gf8 u; u.v = v; return u.d; }
static float gff(u64 v) { union gf4 u; u.v = v; return u.f; }
static u64 gbd(double d) { union gf8 u; u.d = d; return u.v; }
static u64 gbf(float f) { union gf4 u; u.f = f; return u.v; }
static u64 gf_arith(int op, int size, u64 a, u64 b) {
	if (size == 8) { double x = gfd(a), y = gfd(b); return gbd(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y); }
	float x = gff(a), y = gff(b); return gbf(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y);
}
static u64 gf_widen(u64 a) { return gbd(gff(a)); }
static u64 gf_narrow(u64 a) { return gbf(gfd(a)); }
static u64 gf_from_int(int size, u64 v) { return size == 8 ? gbd((double)(s64)v) : gbf((float)(s64)v); }
static u64 gf_to_int(int size, u64 v) { double d = size == 8 ? gfd(v) : gff(v); return d > -9223372036854775809.0 && d < 9223372036854775808.0 ? (u64)(s64)d : 1ull << 63; }
#endif
static u64 gf_from_uint(int size, u64 v) {
#ifdef GF_REAL
	return size == 8 ? gbd((double)v) : gbf((float)v);
#else
	return gf_from_int(size, v);	/* values below 2^63 */
#endif
}
/* truncation to 8 bytes, of values that fit a signed or an unsigned type */
static u64 gf_to_int8(int size, u64 v) {
#ifdef GF_REAL
	double d = size == 8 ? gfd(v) : gff(v);
	return d >= 9223372036854775808.0 ? (u64)d : (u64)(s64)d;
#else
	return gf_to_int(size, v);
#endif
}
static int gf_nan(int size, u64 v) { return size == 8 ? (v << 1) > 0xffe0000000000000ull : (u32)((u32)v << 1) > 0xff000000u; }
static int gf_unordered(int size, u64 a, u64 b) { return gf_nan(size, a) || gf_nan(size, b); }
/* order-preserving key of a non-NaN: both zeros map to 0 */
static s64 gf_key(int size, u64 v) {
	if (size == 4) { s64 m = (s64)((u32)v & 0x7fffffffu); return (u32)v >> 31 ? -m : m; }
	s64 m = (s64)(v & ~(1ull << 63));
	return v >> 63 ? -m : m;
}
static int gf_less(int size, u64 a, u64 b) { return !gf_unordered(size, a, b) && gf_key(size, a) < gf_key(size, b); }
static int gf_equal(int size, u64 a, u64 b) { return !gf_unordered(size, a, b) && gf_key(size, a) == gf_key(size, b); }
#endif
