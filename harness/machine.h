/* Ghost x86-64: the code generator's output calls (asm_ins*, asm_label) execute
 * here instead of being printed.  Semantics from the Intel SDM / AMD64 APM, in
 * AT&T operand order (source first).  Floating arithmetic is uninterpreted (the
 * IEEE operation the instruction performs, applied to its operands). */
#ifndef MACHINE_H
#define MACHINE_H
#include "ghost_ir.h"
#include <assembler/assembler.h>
#include <codegen/codegen.h>

#ifndef STACKSZ
#define STACKSZ 320
#endif
#define STACK0 0x7000000ull	/* lowest stack byte */
#define SP0 (STACK0 + STACKSZ - 40)	/* rsp on entry: the return address, then the caller's frame */
static u8 mc_stack[STACKSZ];
static u64 mc_reg[16], mc_xmm[16], mc_xmm_hi;
static int mc_zf, mc_cf, mc_sf, mc_of, mc_pf, mc_flags_valid, mc_ended;
static int mc_jumped;	/* a jump was taken: nothing more runs in this block */
static label_id mc_target;

static u8 *mc_byte(u64 a) {
	if (a >= STACK0 && a < STACK0 + STACKSZ) return &mc_stack[a - STACK0];
	VP_ENSURE(a >= GI_BASE && a < GI_BASE + GI_MEMSZ, "only known memory is accessed");
	return &gi_mem0.b[a - GI_BASE];
}
static u64 mc_load(u64 a, int size) {
	u64 v = 0;
	for (int i = 0; i < size; i++)
		v |= (u64)*mc_byte(a + i) << (8 * i);
	return v;
}
static void mc_store(u64 a, int size, u64 v) {
	for (int i = 0; i < size; i++)
		*mc_byte(a + i) = v >> (8 * i);
}
static int eq(const char *a, const char *b) {
	int i = 0;
	for (; a[i] && a[i] == b[i]; i++)
		;
	return a[i] == b[i];
}
static u64 mc_addr(struct operand *o) {
	VP_ENSURE(o->type == OPERAND_MEM, "a memory operand");
	u64 a = o->mem.offset + mc_reg[o->mem.base];
	if (o->mem.index != REG_NONE)
		a += mc_reg[o->mem.index] * o->mem.scale;
	return a;
}
static u64 mc_get(struct operand *o, int size) {
	if (o->type == OPERAND_REG) {
		VP_ENSURE(o->reg.size == size, "the register has the operand size");
		u64 v = mc_reg[o->reg.reg];
		return gi_mask(size, o->reg.upper_byte ? v >> 8 : v);
	}
	if (o->type == OPERAND_IMM_LABEL) {
		VP_ENSURE(o->imm_label.label_ == -1, "a plain immediate");
		return gi_mask(size, o->imm_label.offset);
	}
	return mc_load(mc_addr(o), size);
}
static void mc_set(struct operand *o, int size, u64 v) {
	if (o->type == OPERAND_REG) {
		VP_ENSURE(o->reg.size == size, "the register has the operand size");
		u64 *r = &mc_reg[o->reg.reg];
		if (size == 8) *r = v;
		else if (size == 4) *r = (u32)v;	/* writing a 32-bit register clears the upper half */
		else if (size == 2) *r = (*r & ~0xffffull) | (u16)v;
		else if (o->reg.upper_byte) *r = (*r & ~0xff00ull) | (u64)(u8)v << 8;
		else *r = (*r & ~0xffull) | (u8)v;
		return;
	}
	mc_store(mc_addr(o), size, v);
}
/* does this immediate fit a sign-extended 32-bit field (or the operand size)? */
static int mc_imm_ok(struct operand *o, int size) {
	if (o->type != OPERAND_IMM_LABEL) return 1;
	u64 v = o->imm_label.offset;
	if (size == 8) return (u64)(s64)(s32)v == v;
	/* narrower: the assembler accepts the value in signed or unsigned form */
	return gi_mask(size, v) == v || (u64)gi_sext(size, v) == v;
}
static int mc_suffix(char c) { return c == 'b' ? 1 : c == 'w' ? 2 : c == 'l' ? 4 : c == 'q' ? 8 : 0; }
/* m is stem + size suffix; 0 if not */
static int stem(const char *m, const char *s) {
	int i = 0;
	for (; s[i]; i++)
		if (m[i] != s[i]) return 0;
	return m[i] && !m[i + 1] ? mc_suffix(m[i]) : 0;
}
static void mc_flags_sub(int size, u64 a, u64 b) {	/* a - b */
	u64 r = gi_mask(size, a - b);
	mc_zf = r == 0;
	mc_cf = gi_mask(size, a) < gi_mask(size, b);
	mc_sf = gi_sext(size, r) < 0;
	mc_of = ((gi_sext(size, a) < 0) != (gi_sext(size, b) < 0)) && (mc_sf != (gi_sext(size, a) < 0));
	mc_pf = 0;	/* not used after integer operations */
	mc_flags_valid = 1;
}
static void mc_flags_logic(int size, u64 r) {
	mc_zf = gi_mask(size, r) == 0;
	mc_cf = mc_of = mc_pf = 0;
	mc_sf = gi_sext(size, r) < 0;
	mc_flags_valid = 1;
}
static int mc_cond(const char *c) {	/* condition code suffix; -1 if unknown */
	if (eq(c, "e") || eq(c, "z")) return mc_zf;
	if (eq(c, "ne") || eq(c, "nz")) return !mc_zf;
	if (eq(c, "b") || eq(c, "c") || eq(c, "nae")) return mc_cf;
	if (eq(c, "nb") || eq(c, "nc") || eq(c, "ae")) return !mc_cf;
	if (eq(c, "a") || eq(c, "nbe")) return !mc_cf && !mc_zf;
	if (eq(c, "be") || eq(c, "na")) return mc_cf || mc_zf;
	if (eq(c, "l") || eq(c, "nge")) return mc_sf != mc_of;
	if (eq(c, "ge") || eq(c, "nl")) return mc_sf == mc_of;
	if (eq(c, "g") || eq(c, "nle")) return !mc_zf && mc_sf == mc_of;
	if (eq(c, "le") || eq(c, "ng")) return mc_zf || mc_sf != mc_of;
	if (eq(c, "s")) return mc_sf;
	if (eq(c, "ns")) return !mc_sf;
	if (eq(c, "p") || eq(c, "pe")) return mc_pf;
	if (eq(c, "np") || eq(c, "po")) return !mc_pf;
	return -1;
}
static void mc_unknown(void) { VP_ENSURE(0, "an instruction of the ghost machine"); }

/* uninterpreted IEEE operations, shared with the specification (gf_*) */
static u64 mc_sse(struct operand *o, int size) {
	if (o->type == OPERAND_SSE_REG) return gi_mask(size, mc_xmm[o->sse_reg]);
	return mc_load(mc_addr(o), size);
}
static int mc_sse_op(const char *m, struct operand *a, struct operand *b) {
	static const char *const names[] = { "add", "sub", "mul", "div" };
	for (int i = 0; i < 4; i++) {
		const char *n = names[i];
		if (m[0] == n[0] && m[1] == n[1] && m[2] == n[2] && m[3] == 's' && (m[4] == 's' || m[4] == 'd') && !m[5]) {
			int size = m[4] == 'd' ? 8 : 4;
			u64 x = mc_sse(b, size), y = mc_sse(a, size), r = gf_arith(i, size, x, y);
			mc_xmm[b->sse_reg] = size == 8 ? r : (mc_xmm[b->sse_reg] & ~0xffffffffull) | (u32)r;
			return 1;
		}
	}
	if (eq(m, "ucomiss") || eq(m, "ucomisd")) {
		int size = m[6] == 'd' ? 8 : 4;
		u64 x = mc_sse(b, size), y = mc_sse(a, size);
		int un = gf_unordered(size, x, y);
		mc_pf = un;
		mc_zf = un || gf_equal(size, x, y);
		mc_cf = un || gf_less(size, x, y);
		mc_of = mc_sf = 0;
		mc_flags_valid = 1;
		return 1;
	}
	if (eq(m, "cvtss2sd")) { mc_xmm[b->sse_reg] = gf_widen(mc_sse(a, 4)); return 1; }
	if (eq(m, "cvtsd2ss")) { mc_xmm[b->sse_reg] = (mc_xmm[b->sse_reg] & ~0xffffffffull) | (u32)gf_narrow(mc_sse(a, 8)); return 1; }
	if (eq(m, "cvtsi2ss") || eq(m, "cvtsi2sd") || eq(m, "cvtsi2ssq") || eq(m, "cvtsi2sdq")) {
		int size = m[7] == 'd' ? 8 : 4, is = a->type == OPERAND_REG ? a->reg.size : m[8] ? 8 : 4;
		u64 v = (u64)gi_sext(is, mc_get(a, is)), r = gf_from_int(size, v);
		mc_xmm[b->sse_reg] = size == 8 ? r : (mc_xmm[b->sse_reg] & ~0xffffffffull) | (u32)r;
		return 1;
	}
	if (eq(m, "cvttss2si") || eq(m, "cvttsd2si")) {
		int size = m[5] == 'd' ? 8 : 4;
		VP_ENSURE(b->type == OPERAND_REG && b->reg.size == 8, "conversions produce 64-bit integers");
		mc_set(b, 8, gf_to_int(size, mc_sse(a, size)));
		return 1;
	}
	if ((eq(m, "movd") || eq(m, "movq")) && (a->type == OPERAND_SSE_REG || b->type == OPERAND_SSE_REG)) {
		/* the register operand decides: movd with a 64-bit register is movq */
		int size = m[3] == 'q' ? 8 : 4;
		struct operand *g = a->type == OPERAND_SSE_REG ? b : a;
		if (g->type == OPERAND_REG) size = g->reg.size;
		if (b->type == OPERAND_SSE_REG) mc_xmm[b->sse_reg] = a->type == OPERAND_SSE_REG ? mc_xmm[a->sse_reg] : mc_get(a, size);
		else mc_set(b, size, gi_mask(size, mc_xmm[a->sse_reg]));
		return 1;
	}
	if (eq(m, "movss") || eq(m, "movsd")) {
		int size = m[4] == 'd' ? 8 : 4;
		if (b->type == OPERAND_SSE_REG) {
			if (a->type == OPERAND_SSE_REG) mc_xmm[b->sse_reg] = size == 8 ? mc_xmm[a->sse_reg] : (mc_xmm[b->sse_reg] & ~0xffffffffull) | (u32)mc_xmm[a->sse_reg];
			else mc_xmm[b->sse_reg] = mc_load(mc_addr(a), size);
		} else mc_store(mc_addr(b), size, mc_xmm[a->sse_reg]);
		return 1;
	}
	return 0;
}

static void mc_call(u64 target);	/* harness: what the callee does */
static void mc_block_label(label_id l);
static void mc_ins(const char *m, struct operand ops[4]) {
	struct operand *a = &ops[0], *b = &ops[1];
	int s;
	if (mc_jumped || mc_ended)
		return;
	if (eq(m, "pushq")) { u64 v = mc_get(a, 8); mc_reg[REG_RSP] -= 8; mc_store(mc_reg[REG_RSP], 8, v); return; }
	if (eq(m, "popq")) { u64 v = mc_load(mc_reg[REG_RSP], 8); mc_reg[REG_RSP] += 8; mc_set(a, 8, v); return; }
	if (eq(m, "leave")) { mc_reg[REG_RSP] = mc_reg[REG_RBP]; mc_reg[REG_RBP] = mc_load(mc_reg[REG_RSP], 8); mc_reg[REG_RSP] += 8; return; }
	if (eq(m, "ret")) { mc_reg[REG_RSP] += 8; mc_ended = 1; return; }
	if (eq(m, "ud2")) { mc_ended = 2; return; }
	if (mc_sse_op(m, a, b)) return;
	if (eq(m, "movabsq")) { mc_set(b, 8, mc_get(a, 8)); return; }
	if ((s = stem(m, "mov"))) {
		VP_ENSURE(mc_imm_ok(a, s), "the immediate fits its field");
		mc_set(b, s, mc_get(a, s));
		return;
	}
	if (m[0] == 'm' && m[1] == 'o' && m[2] == 'v' && (m[3] == 'z' || m[3] == 's') && m[4] && m[5] && !m[6]) {
		int from = mc_suffix(m[4]), to = mc_suffix(m[5]);
		u64 v = mc_get(a, from);
		mc_set(b, to, m[3] == 'z' ? v : gi_mask(to, (u64)gi_sext(from, v)));
		return;
	}
	if ((s = stem(m, "lea"))) { mc_set(b, s, gi_mask(s, mc_addr(a))); return; }
	if ((s = stem(m, "add"))) {
		u64 x = mc_get(a, s), y = mc_get(b, s);
		VP_ENSURE(mc_imm_ok(a, s), "the immediate fits its field");
		mc_set(b, s, gi_mask(s, x + y));
		mc_zf = gi_mask(s, x + y) == 0; mc_cf = gi_mask(s, x + y) < x; mc_flags_valid = 0;
		return;
	}
	if ((s = stem(m, "sub")) || (s = stem(m, "cmp"))) {
		u64 x = mc_get(a, s), y = mc_get(b, s);
		VP_ENSURE(mc_imm_ok(a, s), "the immediate fits its field");
		mc_flags_sub(s, y, x);
		if (m[0] == 's') mc_set(b, s, gi_mask(s, y - x));
		return;
	}
	if ((s = stem(m, "and")) || (s = stem(m, "or")) || (s = stem(m, "xor")) || (s = stem(m, "test"))) {
		u64 x = mc_get(a, s), y = mc_get(b, s), r = m[0] == 'o' ? x | y : m[0] == 'x' ? x ^ y : x & y;
		VP_ENSURE(mc_imm_ok(a, s), "the immediate fits its field");
		mc_flags_logic(s, r);
		if (m[0] != 't') mc_set(b, s, r);
		return;
	}
	if ((s = stem(m, "imul"))) {
		VP_ENSURE(b->type != OPERAND_EMPTY, "two-operand multiplication");
		mc_set(b, s, gi_binary(IR_IMUL, s, mc_get(b, s), mc_get(a, s)));
		mc_flags_valid = 0;
		return;
	}
	if ((s = stem(m, "neg"))) { u64 v = mc_get(a, s); mc_flags_sub(s, 0, v); mc_set(a, s, gi_mask(s, 0 - v)); return; }
	if ((s = stem(m, "not"))) { mc_set(a, s, gi_mask(s, ~mc_get(a, s))); return; }
	if (eq(m, "cltd") || eq(m, "cdq")) { mc_reg[REG_RDX] = (s32)mc_reg[REG_RAX] < 0 ? 0xffffffffu : 0; return; }
	if (eq(m, "cqto") || eq(m, "cqo")) { mc_reg[REG_RDX] = (s64)mc_reg[REG_RAX] < 0 ? ~0ull : 0; return; }
	if (eq(m, "cltq")) { mc_reg[REG_RAX] = (u64)(s64)(s32)mc_reg[REG_RAX]; return; }
	if ((s = stem(m, "idiv")) || (s = stem(m, "div"))) {
		u64 d = mc_get(a, s), n = gi_mask(s, mc_reg[REG_RAX]), hi = gi_mask(s, mc_reg[REG_RDX]);
		int sg = m[0] == 'i';
		VP_ENSURE(s >= 4, "a 32- or 64-bit division");
		VP_ENSURE(hi == (sg && gi_sext(s, n) < 0 ? gi_mask(s, ~0ull) : 0), "the dividend is extended to twice its width");
		VP_ENSURE(!(sg && gi_sext(s, d) == -1 && n == 1ull << (8 * s - 1)), "no overflowing division");
		VP_ENSURE(d != 0, "no division by zero that the operands do not have");
		u64 q = gi_binary(sg ? IR_IDIV : IR_DIV, s, n, d), r = gi_binary(sg ? IR_IMOD : IR_MOD, s, n, d);
		mc_reg[REG_RAX] = q;
		mc_reg[REG_RDX] = r;
		mc_flags_valid = 0;
		return;
	}
	if ((s = stem(m, "sal")) || (s = stem(m, "shl")) || (s = stem(m, "shr")) || (s = stem(m, "sar"))) {
		if (b->type == OPERAND_EMPTY) { mc_unknown(); return; }
		VP_ENSURE(a->type == OPERAND_IMM_LABEL || (a->type == OPERAND_REG && a->reg.reg == REG_RCX && a->reg.size == 1), "a shift count is immediate or %cl");
		int n = (int)(mc_get(a, 1) & (s == 8 ? 63 : 31));
		u64 v = mc_get(b, s);
		mc_set(b, s, gi_mask(s, m[2] == 'l' || m[1] == 'a' && m[2] == 'l' ? v << n : m[1] == 'a' ? (u64)(gi_sext(s, v) >> n) : v >> n));
		mc_flags_valid = 0;
		return;
	}
	if (eq(m, "btcq")) { mc_set(b, 8, mc_get(b, 8) ^ 1ull << (mc_get(a, 1) & 63)); return; }
	if (m[0] == 's' && m[1] == 'e' && m[2] == 't') {
		int c = mc_cond(m + 3);
		VP_ENSURE(c >= 0 && mc_flags_valid, "a condition on valid flags");
		mc_set(a, 1, c);
		return;
	}
	if (eq(m, "jmp")) { mc_jumped = 1; mc_target = a->imm_label.label_; return; }
	if (m[0] == 'j') {
		int c = mc_cond(m + 1);
		VP_ENSURE(c >= 0 && mc_flags_valid, "a condition on valid flags");
		if (c) { mc_jumped = 1; mc_target = a->imm_label.label_; }
		return;
	}
	if (eq(m, "callq") || eq(m, "call")) {
		VP_ENSURE(a->type == OPERAND_STAR_REG, "an indirect call");
		mc_call(mc_reg[a->reg.reg]);
		return;
	}
	mc_unknown();
}
void asm_ins(struct asm_instruction *ins) { mc_ins(ins->mnemonic, ins->ops); }
void asm_ins0(const char *m) { struct operand o[4] = { 0 }; mc_ins(m, o); }
void asm_ins1(const char *m, struct operand x) { struct operand o[4] = { 0 }; o[0] = x; mc_ins(m, o); }
void asm_ins2(const char *m, struct operand x, struct operand y) { struct operand o[4] = { 0 }; o[0] = x; o[1] = y; mc_ins(m, o); }
void asm_ins3(const char *m, struct operand x, struct operand y, struct operand z) { struct operand o[4] = { 0 }; o[0] = x; o[1] = y; o[2] = z; mc_ins(m, o); }
void asm_comment(const char *fmt, ...) { (void)fmt; }
void asm_label(int global, label_id l) { (void)global; mc_block_label(l); }
void asm_finish(void) {}
void rodata_codegen(void) {}
void data_codegen(void) {}
static label_id mc_labels = 100;
label_id register_label(void) { return mc_labels++; }
label_id register_label_name(struct string_view s) { (void)s; return 1; }
#define MC_STUBS asm_ins asm_ins0 asm_ins1 asm_ins2 asm_ins3 asm_comment asm_label asm_finish rodata_codegen data_codegen register_label register_label_name

static u64 mc_entry_rbp;
static void mc_begin(void) {
	for (int i = 0; i < 16; i++)
		if (i != REG_RSP)
			mc_reg[i] = vp_get(100 + i);
	mc_reg[REG_RSP] = SP0;
	mc_entry_rbp = mc_reg[REG_RBP];
	for (int i = 0; i < 4; i++)
		mc_xmm[i] = vp_get(120 + i);
	u64 f = vp_get(130), g = vp_get(131);
	for (int i = 0; i < STACKSZ; i++)
		mc_stack[i] = (i & 8 ? f : g) >> (8 * (i & 7));
}
#endif
