/* C14: asm_ins and asm_ins2 to asm_ins0 (assembler.c) with assemble_instruction,
 * assemble_encoding, encode_sib and does_match (encode.c) and the table of
 * instructions.h.  The bytes handed to object_write are decoded by a decoder
 * written from the opcode maps of the x86-64 manuals, and the decoded instruction
 * is compared with the one written.  Mnemonics and registers are concrete (the
 * forms the code generator emits), displacements and immediates arbitrary. */
#include "vp.h"
#include <common.h>
#include <linker/object.h>
#include <assembler/assembler.h>
#include <assembler/encode.h>

static u8 code[16];
static int len, writes;
static int nrel, rel_type; static label_id rel_label; static s64 rel_off, rel_add;
void object_write(uint8_t *data, size_t size) {
	writes++;
	VP_ENSURE(size >= 1 && size <= 15, "an instruction has at most 15 bytes");
	for (int i = 0; i < 15; i++) code[i] = data[i];
	len = size;
}
void object_symbol_relocate(label_id label, int64_t offset, int64_t add, enum relocation_type type) {
	VP_ENSURE(!writes, "relocations are relative to the start of the instruction");
	nrel++; rel_label = label; rel_off = offset; rel_add = add; rel_type = type;
}

/* ---- the decoder -------------------------------------------------------- */
enum op { BAD, ADD, OR, AND, SUB, XOR, CMP, TEST, MOV, MOVX, LEA, PUSH, POP, SIGN, RET, LEAVE, UD2, JMP, CALL, NOT, NEG, MUL, IMUL, DIV, IDIV, SHL, SHR, SAR,
	BTC, MOVSX, MOVZX, MOVSS, MOVSD, CVTSI2S, CVTTS2SI, CVTS2S, FADD, FMUL, FSUB, FDIV, XORPS, UCOMIS, JCC = 100, SETCC = 120 };
enum shape { NONE_, RM_R, R_RM, RM_I8, RM_I, O_I, O, RM, RM_CL, REL, A_I };
enum { K_NONE, K_REG, K_XMM, K_MEM, K_IMM, K_REL };
struct opd { int kind, reg, size; u64 v; int at, n; };
static int d_op, d_size, d_ssize;	/* operation; size of the operands; of the source */
static struct opd d0, d1;		/* destination (first operand of the manuals), source */

static int at;
static u8 next(void) {
	VP_ENSURE(at < len, "the instruction is complete");
	VP_REQUIRE(at < 15);
	return code[at++];
}
static u64 field(int n) {		/* little endian, sign extended */
	u64 v = 0;
	if (n == 1) return (u64)(s64)(s8)next();
	for (int i = 0; i < 8; i++)
		if (i < n) v |= (u64)next() << 8 * i;
	if (n == 2) return (u64)(s64)(s16)v;
	if (n == 4) return (u64)(s64)(s32)v;
	return v;
}
static int gpr(int reg, int size, int rex) { return size == 1 && !rex && reg >= 4 && reg < 8 ? 16 + reg : reg; }
static void decode(void) {
	int p66 = 0, pf2 = 0, pf3 = 0, rex = 0, two = 0, op, w, r, b, sh = NONE_, x0 = 0, x1 = 0, fsize;
	static const int grp1[] = { ADD, OR, BAD, BAD, AND, SUB, XOR, CMP }, grp3[] = { TEST, BAD, NOT, NEG, MUL, IMUL, DIV, IDIV }, shifts[] = { BAD, BAD, BAD, BAD, SHL, SHR, BAD, SAR };
	int ext, group = 0;
	at = 0;
	for (int i = 0; i < 2; i++) {
		if (code[at] == 0x66) { p66 = 1; at++; }
		else if (code[at] == 0xf2) { pf2 = 1; at++; }
		else if (code[at] == 0xf3) { pf3 = 1; at++; }
	}
	VP_ENSURE(p66 + pf2 + pf3 <= 1, "at most one prefix");
	if ((code[at] & 0xf0) == 0x40) { rex = next(); }
	w = rex >> 3 & 1; r = rex >> 2 & 1; b = rex & 1;
	VP_ENSURE(!(rex & 2), "no index register is extended");
	op = next();
	if (op == 0x0f) { two = 1; op = next(); }
	ext = at < 15 ? code[at] >> 3 & 7 : 0;
	d_op = BAD;
	d_size = d_ssize = w ? 8 : p66 ? 2 : 4;
	fsize = pf2 || (p66 && two) ? 8 : 4;	/* of a scalar floating operand */
	int sse = 0;				/* the prefix chose the operation */
	if (!two) switch (op) {
	case 0x01: d_op = ADD; sh = RM_R; break;
	case 0x03: d_op = ADD; sh = R_RM; break;
	case 0x05: d_op = ADD; sh = A_I; break;
	case 0x09: d_op = OR; sh = RM_R; break;
	case 0x0b: d_op = OR; sh = R_RM; break;
	case 0x0d: d_op = OR; sh = A_I; break;
	case 0x21: d_op = AND; sh = RM_R; break;
	case 0x23: d_op = AND; sh = R_RM; break;
	case 0x25: d_op = AND; sh = A_I; break;
	case 0x29: d_op = SUB; sh = RM_R; break;
	case 0x2b: d_op = SUB; sh = R_RM; break;
	case 0x2d: d_op = SUB; sh = A_I; break;
	case 0x31: d_op = XOR; sh = RM_R; break;
	case 0x33: d_op = XOR; sh = R_RM; break;
	case 0x35: d_op = XOR; sh = A_I; break;
	case 0x39: d_op = CMP; sh = RM_R; break;
	case 0x3b: d_op = CMP; sh = R_RM; break;
	case 0x3d: d_op = CMP; sh = A_I; break;
	case 0x50: case 0x51: case 0x52: case 0x53: case 0x54: case 0x55: case 0x56: case 0x57: d_op = PUSH; sh = O; d_size = 8; break;
	case 0x58: case 0x59: case 0x5a: case 0x5b: case 0x5c: case 0x5d: case 0x5e: case 0x5f: d_op = POP; sh = O; d_size = 8; break;
	case 0x63: d_op = MOVSX; sh = R_RM; d_ssize = 4; break;
	case 0x80: d_op = grp1[ext]; sh = RM_I8; d_size = d_ssize = 1; group = 1; break;
	case 0x81: d_op = grp1[ext]; sh = RM_I; group = 1; break;
	case 0x83: d_op = grp1[ext]; sh = RM_I8; group = 1; break;
	case 0x84: d_op = TEST; sh = RM_R; d_size = d_ssize = 1; break;
	case 0x85: d_op = TEST; sh = RM_R; break;
	case 0x88: d_op = MOV; sh = RM_R; d_size = d_ssize = 1; break;
	case 0x89: d_op = MOV; sh = RM_R; break;
	case 0x8a: d_op = MOV; sh = R_RM; d_size = d_ssize = 1; break;
	case 0x8b: d_op = MOV; sh = R_RM; break;
	case 0x8d: d_op = LEA; sh = R_RM; break;
	case 0x99: d_op = SIGN; break;
	case 0xa9: d_op = TEST; sh = A_I; break;
	case 0xb8: case 0xb9: case 0xba: case 0xbb: case 0xbc: case 0xbd: case 0xbe: case 0xbf: d_op = MOV; sh = O_I; break;
	case 0xc1: d_op = shifts[ext]; sh = RM_I8; group = 1; break;
	case 0xc3: d_op = RET; break;
	case 0xc6: d_op = ext ? BAD : MOV; sh = RM_I8; d_size = d_ssize = 1; group = 1; break;
	case 0xc7: d_op = ext ? BAD : MOV; sh = RM_I; group = 1; break;
	case 0xc9: d_op = LEAVE; break;
	case 0xd3: d_op = shifts[ext]; sh = RM_CL; group = 1; break;
	case 0xe8: d_op = CALL; sh = REL; break;
	case 0xe9: d_op = JMP; sh = REL; break;
	case 0xf7: d_op = grp3[ext]; sh = RM; group = 1; if (d_op == TEST) d_op = BAD; break;
	case 0xff: d_op = ext == 2 ? CALL : ext == 4 ? JMP : ext == 6 ? PUSH : BAD; sh = RM; group = 1; d_size = 8; break;
	default: break;
	} else switch (op) {
	case 0x0b: d_op = UD2; break;
	case 0x10: d_op = pf2 ? MOVSD : pf3 ? MOVSS : BAD; sh = R_RM; sse = x0 = x1 = 1; break;
	case 0x11: d_op = pf2 ? MOVSD : pf3 ? MOVSS : BAD; sh = RM_R; sse = x0 = x1 = 1; break;
	case 0x2a: d_op = pf2 || pf3 ? CVTSI2S : BAD; sh = R_RM; sse = x0 = 1; d_ssize = d_size; d_size = fsize; break;
	case 0x2c: d_op = pf2 || pf3 ? CVTTS2SI : BAD; sh = R_RM; sse = x1 = 1; d_ssize = fsize; break;
	case 0x2e: d_op = UCOMIS; sh = R_RM; sse = x0 = x1 = 1; d_size = fsize; break;
	case 0x57: d_op = p66 ? BAD : XORPS; sh = R_RM; sse = x0 = x1 = 1; d_size = 16; break;
	case 0x58: d_op = pf2 || pf3 ? FADD : BAD; sh = R_RM; sse = x0 = x1 = 1; d_size = fsize; break;
	case 0x59: d_op = pf2 || pf3 ? FMUL : BAD; sh = R_RM; sse = x0 = x1 = 1; d_size = fsize; break;
	case 0x5a: d_op = pf2 || pf3 ? CVTS2S : BAD; sh = R_RM; sse = x0 = x1 = 1; d_ssize = fsize; d_size = 12 - fsize; break;
	case 0x5c: d_op = pf2 || pf3 ? FSUB : BAD; sh = R_RM; sse = x0 = x1 = 1; d_size = fsize; break;
	case 0x5e: d_op = pf2 || pf3 ? FDIV : BAD; sh = R_RM; sse = x0 = x1 = 1; d_size = fsize; break;
	case 0x6e: d_op = p66 ? MOVX : BAD; sh = R_RM; sse = x0 = 1; d_size = d_ssize = w ? 8 : 4; break;
	case 0x7e: d_op = p66 ? MOVX : BAD; sh = RM_R; sse = x1 = 1; d_size = d_ssize = w ? 8 : 4; break;
	case 0xaf: d_op = IMUL; sh = R_RM; break;
	case 0xb6: d_op = MOVZX; sh = R_RM; d_ssize = 1; break;
	case 0xb7: d_op = MOVZX; sh = R_RM; d_ssize = 2; break;
	case 0xba: d_op = ext == 7 ? BTC : BAD; sh = RM_I8; group = 1; break;
	case 0xbe: d_op = MOVSX; sh = R_RM; d_ssize = 1; break;
	case 0xbf: d_op = MOVSX; sh = R_RM; d_ssize = 2; break;
	default:
		if (op >= 0x80 && op < 0x90) { d_op = JCC + op - 0x80; sh = REL; }
		if (op >= 0x90 && op < 0xa0) { d_op = SETCC + op - 0x90; sh = RM; d_size = d_ssize = 1; group = 1; }
		break;
	}
	VP_ENSURE(sse || !(pf2 || pf3), "repetition prefixes only where they choose the operation");
	d0 = d1 = (struct opd) { 0 };

	struct opd rm = { 0 }, reg = { 0 };
	if (sh == RM_R || sh == R_RM || sh == RM_I8 || sh == RM_I || sh == RM || sh == RM_CL) {
		int m = next(), mod = m >> 6, rx, mx;
		/* which of rm and reg is an xmm register, and their sizes */
		rx = sh == R_RM ? x0 : x1; mx = sh == R_RM ? x1 : x0;
		reg.kind = rx ? K_XMM : K_REG;
		reg.size = sh == R_RM ? d_size : d_ssize;
		rm.size = sh == R_RM ? d_ssize : d_size;
		reg.reg = (m >> 3 & 7) | r << 3;
		if (!rx) reg.reg = gpr(reg.reg, reg.size, rex);
		if (mod == 3) {
			rm.kind = mx ? K_XMM : K_REG;
			rm.reg = (m & 7) | b << 3;
			if (!mx) rm.reg = gpr(rm.reg, rm.size, rex);
		} else {
			int base = m & 7;
			rm.kind = K_MEM;
			if (base == 4) {
				int s = next();
				VP_ENSURE((s >> 3 & 7) == 4, "no index register");
				base = s & 7;
			}
			VP_ENSURE(mod || base != 5, "an address has a base register");
			rm.reg = base | b << 3;
			if (mod == 1) rm.v = field(1);
			else if (mod == 2) rm.v = field(4);
		}
	}
	switch (sh) {
	case RM_R: d0 = rm; d1 = reg; break;
	case R_RM: d0 = reg; d1 = rm; break;
	case RM_I8: d0 = rm; d1.kind = K_IMM; d1.n = 1; break;
	case RM_I: d0 = rm; d1.kind = K_IMM; d1.n = d_size == 2 ? 2 : 4; break;
	case O: d0.kind = K_REG; d0.reg = (op & 7) | b << 3; d0.size = d_size; break;
	case O_I: d0.kind = K_REG; d0.reg = (op & 7) | b << 3; d0.size = d_size; d1.kind = K_IMM; d1.n = d_size; break;
	case RM: d0 = rm; break;
	case RM_CL: d0 = rm; d1.kind = K_REG; d1.reg = 1; d1.size = 1; break;
	case REL: d0.kind = K_REL; d0.n = 4; break;
	case A_I: d0.kind = K_REG; d0.size = d_size; d1.kind = K_IMM; d1.n = d_size == 2 ? 2 : 4; break;
	default: break;
	}
	struct opd *i = sh == REL ? &d0 : &d1;
	if (i->n) { i->at = at; i->v = field(i->n); }
	(void)group;
	VP_ENSURE(at == len, "no bytes follow the instruction");
}

/* ---- what is written ---------------------------------------------------- */
struct want { const char *name; int op, size, ssize; };
static const struct want wants[] = {
	{ "addq", ADD, 8, 8 }, { "subq", SUB, 8, 8 }, { "andq", AND, 8, 8 }, { "orq", OR, 8, 8 }, { "xorq", XOR, 8, 8 }, { "cmpq", CMP, 8, 8 }, { "testq", TEST, 8, 8 }, { "testb", TEST, 1, 1 }, { "testw", TEST, 2, 2 },
	{ "addl", ADD, 4, 4 }, { "subl", SUB, 4, 4 }, { "andl", AND, 4, 4 }, { "orl", OR, 4, 4 }, { "xorl", XOR, 4, 4 }, { "cmpl", CMP, 4, 4 }, { "testl", TEST, 4, 4 },
	{ "movb", MOV, 1, 1 }, { "movw", MOV, 2, 2 }, { "movl", MOV, 4, 4 }, { "movq", MOV, 8, 8 }, { "movabsq", MOV, 8, 8 }, { "leaq", LEA, 8, 8 }, { "leal", LEA, 4, 4 },
	{ "pushq", PUSH, 8, 8 }, { "popq", POP, 8, 8 }, { "cltd", SIGN, 4, 4 }, { "cqto", SIGN, 8, 8 }, { "ret", RET, 4, 4 }, { "leave", LEAVE, 4, 4 }, { "ud2", UD2, 4, 4 },
	{ "callq", CALL, 8, 4 }, { "jmp", JMP, 4, 4 }, { "je", JCC + 4, 4, 4 }, { "jne", JCC + 5, 4, 4 }, { "ja", JCC + 7, 4, 4 }, { "jna", JCC + 6, 4, 4 }, { "jnb", JCC + 3, 4, 4 }, { "jnae", JCC + 2, 4, 4 },
	{ "notl", NOT, 4, 4 }, { "notq", NOT, 8, 8 }, { "negl", NEG, 4, 4 }, { "negq", NEG, 8, 8 }, { "divl", DIV, 4, 4 }, { "divq", DIV, 8, 8 }, { "idivl", IDIV, 4, 4 }, { "idivq", IDIV, 8, 8 },
	{ "imull", IMUL, 4, 4 }, { "imulq", IMUL, 8, 8 }, { "sall", SHL, 4, 4 }, { "salq", SHL, 8, 8 }, { "sarl", SAR, 4, 4 }, { "sarq", SAR, 8, 8 }, { "shrl", SHR, 4, 4 }, { "shrq", SHR, 8, 8 }, { "btcq", BTC, 8, 8 },
	{ "movsbl", MOVSX, 4, 1 }, { "movsbw", MOVSX, 2, 1 }, { "movsbq", MOVSX, 8, 1 }, { "movswl", MOVSX, 4, 2 }, { "movswq", MOVSX, 8, 2 }, { "movslq", MOVSX, 8, 4 }, { "movzbl", MOVZX, 4, 1 }, { "movzwl", MOVZX, 4, 2 },
	{ "seta", SETCC + 7, 1, 1 }, { "setb", SETCC + 2, 1, 1 }, { "setbe", SETCC + 6, 1, 1 }, { "sete", SETCC + 4, 1, 1 }, { "setg", SETCC + 15, 1, 1 }, { "setge", SETCC + 13, 1, 1 }, { "setl", SETCC + 12, 1, 1 },
	{ "setle", SETCC + 14, 1, 1 }, { "setnb", SETCC + 3, 1, 1 }, { "setne", SETCC + 5, 1, 1 }, { "setnp", SETCC + 11, 1, 1 }, { "setp", SETCC + 10, 1, 1 },
	{ "movss", MOVSS, 4, 4 }, { "movsd", MOVSD, 4, 4 }, { "movd", MOVX, 4, 4 }, { "cvtsi2ss", CVTSI2S, 4, 8 }, { "cvtsi2sd", CVTSI2S, 8, 8 }, { "cvttss2si", CVTTS2SI, 8, 4 }, { "cvttsd2si", CVTTS2SI, 8, 8 },
	{ "cvtsd2ss", CVTS2S, 4, 8 }, { "cvtss2sd", CVTS2S, 8, 4 }, { "xorps", XORPS, 16, 4 }, { "addss", FADD, 4, 4 }, { "addsd", FADD, 8, 4 }, { "subss", FSUB, 4, 4 }, { "subsd", FSUB, 8, 4 },
	{ "mulss", FMUL, 4, 4 }, { "mulsd", FMUL, 8, 4 }, { "divss", FDIV, 4, 4 }, { "divsd", FDIV, 8, 4 }, { "ucomiss", UCOMIS, 4, 4 }, { "ucomisd", UCOMIS, 8, 2 },
};
static int same(const char *a, const char *b) {
	for (int i = 0; i < 16; i++) {
		if (a[i] != b[i]) return 0;
		if (!a[i]) return 1;
	}
	return 0;
}
static int hw(int reg) {	/* numbers of the registers in the manuals */
	switch (reg) {
	case REG_RAX: return 0; case REG_RCX: return 1; case REG_RDX: return 2; case REG_RBX: return 3;
	case REG_RSP: return 4; case REG_RBP: return 5; case REG_RSI: return 6; case REG_RDI: return 7;
	case REG_R8: return 8; case REG_R9: return 9; case REG_R10: return 10; case REG_R11: return 11;
	case REG_R12: return 12; case REG_R13: return 13; case REG_R14: return 14; default: return 15;
	}
}
static u64 low(u64 v, int size) { return size == 8 ? v : v & ((1ull << 8 * size) - 1); }
static int is(struct opd *d, struct operand *o, int size, int ins_len) {
	switch (o->type) {
	case OPERAND_EMPTY: return d->kind == K_NONE;
	case OPERAND_REG: case OPERAND_STAR_REG: return d->kind == K_REG && d->reg == hw(o->reg.reg) && d->size == o->reg.size;
	case OPERAND_SSE_REG: return d->kind == K_XMM && d->reg == o->sse_reg;
	case OPERAND_MEM: return d->kind == K_MEM && d->reg == hw(o->mem.base) && d->v == o->mem.offset;
	case OPERAND_IMM_LABEL:
		if (o->imm_label.label_ == -1) return d->kind == K_IMM && low(d->v, size) == low(o->imm_label.offset, size);
		return d->kind == K_IMM && d->v == 0 && nrel == 1 && rel_label == o->imm_label.label_ && rel_off == d->at && (u64)rel_add == o->imm_label.offset &&
			((d->n == 8 && rel_type == RELOCATE_64) || (d->n == 4 && rel_type == RELOCATE_32));
	case OPERAND_IMM_LABEL_ABSOLUTE:
		/* the value written, less the address of the end of the instruction */
		return d->kind == K_REL && nrel == 1 && rel_label == o->imm_label.label_ && rel_off == d->at && rel_type == RELOCATE_32_RELATIVE &&
			(u64)rel_add == o->imm_label.offset - (ins_len - d->at);
	}
	return 0;
}
/* one instruction, operands in the order of the assembly (source, destination) */
static void put(const char *name, int n, struct operand a, struct operand b) {
	struct operand *dst = n == 2 ? &b : &a, *src = n == 2 ? &a : &b;
	int op = BAD, size = 0, ssize = 0, labels = 0;
	nrel = writes = 0;
	if (n == 0) asm_ins0(name);
	else if (n == 1) asm_ins1(name, a);
	else asm_ins2(name, a, b);
	VP_ENSURE(writes == 1, "one instruction is written");
	for (unsigned i = 0; i < sizeof wants / sizeof *wants; i++)
		if (same(wants[i].name, name)) { op = wants[i].op; size = wants[i].size; ssize = wants[i].ssize; break; }
	if (n == 2 && op == MOV && (a.type == OPERAND_SSE_REG || b.type == OPERAND_SSE_REG)) op = MOVX;
	if (op == MOVX) size = a.type == OPERAND_REG ? a.reg.size : b.reg.size;
	labels = (n > 0 && (a.type == OPERAND_IMM_LABEL || a.type == OPERAND_IMM_LABEL_ABSOLUTE) && a.imm_label.label_ != -1);
	decode();
	VP_ENSURE(op != BAD && d_op == op, "the operation is the one written");
	if (op == MOVSX || op == MOVZX || op == CVTSI2S || op == CVTTS2SI || op == CVTS2S) VP_ENSURE(d_size == size && d_ssize == ssize, "the sizes of a conversion are those written");
	else if (op != MOVSS && op != MOVSD && op != RET && op != LEAVE && op != UD2 && op != JMP && op < JCC) VP_ENSURE(d_size == size, "the operand size is the one written");
	VP_ENSURE(nrel == labels, "a relocation for a label, and only for it");
	if (n == 0) VP_ENSURE(d0.kind == K_NONE && d1.kind == K_NONE, "no operand is encoded where none is written");
	else if (n == 1) VP_ENSURE(is(&d0, dst, size, len) && d1.kind == K_NONE, "the operand is the one written");
	else VP_ENSURE((is(&d0, dst, size, len) && is(&d1, src, size, len)) || (op == TEST && is(&d1, dst, size, len) && is(&d0, src, size, len)), "the operands are those written");
}
#define I0(M) put(M, 0, IMM(0), IMM(0))
#define I1(M, A) put(M, 1, A, IMM(0))
#define I2(M, A, B) put(M, 2, A, B)
static int nin;
static u64 any(s64 lo, s64 hi) { u64 v = vp_get(nin++); VP_REQUIRE((s64)v >= lo && (s64)v <= hi); return v; }
#define S32 any(INT32_MIN, INT32_MAX)
/* a memory operand of any displacement; (%rbp) itself is not emitted */
static struct operand m(int base) { u64 v = S32; VP_REQUIRE(base != REG_RBP || v != 0); return MEM(v, base); }
static const int regs[] = { REG_RAX, REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9, REG_RBX };
enum { NREG = 8 };
#define BASES(X) do { X(REG_RBP); X(REG_RSP); X(REG_RDI); X(REG_RSI); X(REG_RAX); X(REG_RDX); X(REG_RBX); } while (0)

void h_ins(void) {
#if GROUP == 1	/* loads */
	for (int i = 0; i < NREG; i++) {
		int r = regs[i];
		I2("movzbl", m(REG_RBP), R4(r));
		I2("movzwl", m(REG_RBP), R4(r));
		I2("movl", m(REG_RBP), R4(r));
		I2("movq", m(REG_RBP), R8(r));
	}
#elif GROUP == 2 /* stores */
	for (int i = 0; i < NREG; i++) {
		int r = regs[i];
		I2("movb", R1(r), m(REG_RBP));
		I2("movw", R2(r), m(REG_RBP));
		I2("movl", R4(r), m(REG_RBP));
		I2("movq", R8(r), m(REG_RBP));
	}
#elif GROUP == 3 /* copies through pointers */
#define X(B) do { I2("movb", m(B), R1(REG_RAX)); I2("movw", m(B), R2(REG_RAX)); I2("movl", m(B), R4(REG_RAX)); I2("movq", m(B), R8(REG_RAX)); } while (0)
	X(REG_RDI); X(REG_RSI); X(REG_RSP);
	I2("movq", m(REG_RBX), R8(REG_RAX)); I2("movq", m(REG_RAX), R8(REG_RAX)); I2("movq", m(REG_RBP), R8(REG_RBP));
	I2("addq", m(REG_RDI), R8(REG_RAX)); I2("addq", m(REG_RBP), R8(REG_RDX));
	I2("movl", m(REG_RDI), R4(REG_RAX));
#elif GROUP == 4 /* stores through pointers */
#define X(R) do { I2("movb", R1(R), m(REG_RSI)); I2("movw", R2(R), m(REG_RSI)); I2("movl", R4(R), m(REG_RSI)); I2("movq", R8(R), m(REG_RSI)); } while (0)
	X(REG_RAX); X(REG_RDX); X(REG_RDI); X(REG_R8);
	I2("movq", R8(REG_RAX), m(REG_RDX)); I2("movq", R8(REG_RAX), m(REG_RDI)); I2("movq", R8(REG_RDX), m(REG_RBX)); I2("movq", R8(REG_RDX), m(REG_RDI)); I2("movl", R4(REG_RDX), m(REG_RDI));
	I2("movq", R8(REG_RBP), m(REG_RSP)); I2("movq", R8(REG_RSP), m(REG_RBP)); I2("movq", R8(REG_RDI), m(REG_RAX)); I2("movq", R8(REG_R9), m(REG_RBP));
#elif GROUP == 5 /* addresses */
#define X(B) do { I2("leaq", m(B), R8(REG_RDI)); I2("leaq", m(B), R8(REG_RSI)); I2("leaq", m(B), R8(REG_RAX)); } while (0)
	BASES(X);
	I2("leaq", m(REG_RAX), R8(REG_RDX));
	I2("leal", m(REG_RAX), R4(REG_RAX)); I2("leal", m(REG_RAX), R4(REG_RDX));
#elif GROUP == 6 /* constants to memory */
#define X(B) do { I2("movb", IMM(any(-128, 255)), m(B)); I2("movw", IMM(any(-32768, 65535)), m(B)); I2("movl", IMM(any(INT32_MIN, UINT32_MAX)), m(B)); I2("movq", IMM(S32), m(B)); } while (0)
	X(REG_RDI); X(REG_RAX); X(REG_RBP);
	I2("movq", IMML(7, 0), m(REG_RDI)); I2("movq", IMML(-3, S32), m(REG_RDI));
#elif GROUP == 7 /* constants to registers */
	I2("movl", IMM(any(INT32_MIN, UINT32_MAX)), R4(REG_RAX)); I2("movl", IMM(any(INT32_MIN, UINT32_MAX)), R4(REG_RCX));
	I2("movabsq", IMM(vp_get(nin++)), R8(REG_RAX)); I2("movabsq", IMM(vp_get(nin++)), R8(REG_RCX));
	I2("movabsq", IMML(7, vp_get(nin++)), R8(REG_RAX)); I2("movabsq", IMML(-3, vp_get(nin++)), R8(REG_RDI)); I2("movabsq", IMML(-3, 0), R8(REG_RDI));
	I2("movq", IMML(7, S32), R8(REG_RDI)); I2("movq", IMM(S32), R8(REG_RAX)); I2("movq", IMM(S32), R8(REG_RDI));
	I2("addq", IMM(S32), R8(REG_RSP)); I2("subq", IMM(S32), R8(REG_RSP)); I2("andq", IMM(S32), R8(REG_RSP)); I2("addq", IMM(S32), R8(REG_RAX));
	I2("cmpq", IMM(S32), R8(REG_RAX)); I2("cmpl", IMM(any(-128, UINT32_MAX)), R4(REG_RAX)); I2("btcq", IMM(any(0, 63)), R8(REG_RAX));
	for (int i = 0; i < NREG; i++) I2("shrq", IMM(any(0, 63)), R8(regs[i]));
#elif GROUP == 8 /* integer operations */
#define X(M, R) do { I2(M "l", R4(REG_RCX), R4(REG_RAX)); I2(M "q", R8(REG_RCX), R8(REG_RAX)); } while (0)
	X("add", 0); X("sub", 0); X("and", 0); X("or", 0); X("xor", 0); X("cmp", 0); X("imul", 0);
	I2("subq", R8(REG_RAX), R8(REG_RSP)); I2("andq", R8(REG_RCX), R8(REG_RDX)); I2("orq", R8(REG_RDX), R8(REG_RAX)); I2("andq", R8(REG_RDX), R8(REG_RCX)); I2("orq", R8(REG_RCX), R8(REG_RAX));
	I2("xorl", R4(REG_RAX), R4(REG_RAX)); I2("xorq", R8(REG_RAX), R8(REG_RAX)); I2("xorq", R8(REG_RDX), R8(REG_RDX));
	I1("notl", R4(REG_RAX)); I1("negl", R4(REG_RAX)); I1("notq", R8(REG_RAX)); I1("negq", R8(REG_RAX));
	I1("divl", R4(REG_RCX)); I1("divq", R8(REG_RCX)); I1("idivl", R4(REG_RCX)); I1("idivq", R8(REG_RCX));
#elif GROUP == 9 /* shifts, tests, copies of registers, stack, control */
#define X(M) do { I2(M "l", R1(REG_RCX), R4(REG_RAX)); I2(M "q", R1(REG_RCX), R8(REG_RAX)); } while (0)
	X("sal"); X("sar"); X("shr");
	I2("testb", R1(REG_RAX), R1(REG_RAX)); I2("testw", R2(REG_RAX), R2(REG_RAX)); I2("testl", R4(REG_RAX), R4(REG_RAX));
	I2("testq", R8(REG_RAX), R8(REG_RAX)); I2("testq", R8(REG_RCX), R8(REG_RCX)); I2("testq", R8(REG_RDI), R8(REG_RDI));
	I2("movq", R8(REG_RAX), R8(REG_RCX)); I2("movq", R8(REG_RAX), R8(REG_RDX)); I2("movq", R8(REG_RSP), R8(REG_RAX)); I2("movq", R8(REG_RAX), R8(REG_RSP)); I2("movq", R8(REG_RSP), R8(REG_RBP)); I2("movq", R8(REG_RAX), R8(REG_RDI));
	I2("movl", R4(REG_RDX), R4(REG_RAX)); I2("movq", R8(REG_RDX), R8(REG_RAX)); I2("movq", R8(REG_RBP), R8(REG_RSP));
	I1("pushq", R8(REG_RBP)); I1("popq", R8(REG_RBP)); I1("callq", R8S(REG_RBX)); I1("callq", R8S(REG_RAX));
	I0("cltd"); I0("cqto"); I0("ret"); I0("leave"); I0("ud2");
	I1("jmp", IMML_ABS(7, 0)); I1("je", IMML_ABS(-3, 0)); I1("jne", IMML_ABS(7, 0)); I1("ja", IMML_ABS(7, 0));
	I1("jna", IMML_ABS(7, 0)); I1("jnb", IMML_ABS(7, 0)); I1("jnae", IMML_ABS(7, 0));
#elif GROUP == 10 /* conversions of integers, conditions */
	I2("movsbl", R1(REG_RAX), R4(REG_RAX)); I2("movsbw", R1(REG_RAX), R2(REG_RAX)); I2("movsbq", R1(REG_RAX), R8(REG_RAX)); I2("movswl", R2(REG_RAX), R4(REG_RAX)); I2("movswq", R2(REG_RAX), R8(REG_RAX)); I2("movslq", R4(REG_RAX), R8(REG_RAX));
	I2("movzbl", R1(REG_RAX), R4(REG_RAX)); I2("movzwl", R2(REG_RAX), R4(REG_RAX));
	static const char *const cc[] = { "seta", "setb", "setbe", "sete", "setg", "setge", "setl", "setle", "setnb", "setne", "setnp", "setp" };
	for (int i = 0; i < 12; i++) I1(cc[i], R1(REG_RAX));
	I1("setp", R1(REG_RCX)); I1("setnp", R1(REG_RCX));
	struct asm_instruction ins[] = { {"cmpl", {R4_(REG_RCX), R4_(REG_RAX)}}, {"setg", {R1_(REG_RAX)}}, {"movq", {XMM_(0), R8_(REG_RAX)}}, {"cqto", { { 0 } }} };
	for (int i = 0; i < 4; i++) {
		writes = nrel = 0;
		asm_ins(&ins[i]);
		decode();
		VP_ENSURE(writes == 1 && nrel == 0 && d_op == (i == 0 ? CMP : i == 1 ? SETCC + 15 : i == 2 ? MOVX : SIGN), "the instruction of a table is the one written");
		VP_ENSURE(i == 3 || is(&d0, &ins[i].ops[i == 1 ? 0 : 1], 8, len), "the operands of an instruction of a table are those written");
		VP_ENSURE(i == 1 || i == 3 || is(&d1, &ins[i].ops[0], 8, len), "the operands of an instruction of a table are those written");
	}
#elif GROUP == 11 /* floating operations */
	for (int i = 0; i < 2; i++) {
#define X(M) do { I2(M "ss", XMM(1 - i), XMM(i)); I2(M "sd", XMM(1 - i), XMM(i)); } while (0)
		X("add"); X("sub"); X("mul"); X("div"); X("ucomi");
		I2("movd", R4(i ? REG_RCX : REG_RAX), XMM(i)); I2("movq", R8(i ? REG_RCX : REG_RAX), XMM(i));
	}
	I2("movd", R8(REG_RAX), XMM(0)); I2("movd", XMM(0), R4(REG_RAX)); I2("movq", XMM(0), R8(REG_RAX));
	I2("cvtss2sd", XMM(0), XMM(0)); I2("cvtsd2ss", XMM(0), XMM(0)); I2("cvtsi2ss", R8(REG_RAX), XMM(0)); I2("cvtsi2sd", R8(REG_RAX), XMM(0));
	I2("cvttss2si", XMM(0), R8(REG_RAX)); I2("cvttsd2si", XMM(0), R8(REG_RAX)); I2("cvttss2si", XMM(0), R8(REG_RCX)); I2("cvttsd2si", XMM(0), R8(REG_RCX)); I2("addss", XMM(0), XMM(0)); I2("addsd", XMM(0), XMM(0));
#elif GROUP == 12 /* floating arguments */
	for (int i = 0; i < 8; i++) {
		I2("movsd", m(REG_RBP), XMM(i)); I2("movsd", XMM(i), m(REG_RBP)); I2("movss", XMM(i), m(REG_RBP));
	}
#endif
	VP_REACH("all instructions are assembled");
}
