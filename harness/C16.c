/* C16: the object writers (object.c, and the directives and instructions of
 * assembler.c on them) and linker_link.  Sequences of writer calls, and the
 * shapes of the objects linked, are concrete; bytes, offsets, addends and values
 * of symbols arbitrary. */
#include "vp.h"
#include <common.h>
#include <linker/object.h>
#include <linker/linker.h>
#include <assembler/assembler.h>
#include <assembler/encode.h>

/* strdup */
char *vp_dup(const char *s) {
	if (s[0] == '.') return s[1] == 't' ? ".text" : s[1] == 'd' ? ".data" : s[1] == 'b' ? ".bss" : ".L3";
	return s[0] == 'a' ? "a" : "b";
}
static int same(const char *a, const char *b) {
	for (int i = 0; i < 16; i++) {
		if (a[i] != b[i]) return 0;
		if (!a[i]) return 1;
	}
	return 0;
}

#ifdef WRITERS
static const char *const lname[] = { "a", "b", ".L3" };
static const label_id lid[] = { 1, 2, -3 };
void rodata_get_label(label_id id, int n, char buffer[]) {
	const char *s = lname[id == 1 ? 0 : id == 2 ? 1 : 2];
	for (int i = 0; ; i++) {
		VP_REQUIRE(i < n);
		buffer[i] = s[i];
		if (!s[i]) break;
	}
}
static u8 ins_bytes[4];
static int ins_kind;
void assemble_instruction(uint8_t *output, int *len, const char *mnemonic, struct operand ops[4], struct relocation r[], int *n) {
	VP_ENSURE(same(mnemonic, "op") && ops[0].type == OPERAND_REG && ops[1].type == OPERAND_IMM_LABEL && !ops[2].type, "the operands of an instruction, in the order of the manuals");
	*len = 4;
	for (int i = 0; i < 4; i++) output[i] = ins_bytes[i];
	*n = 1;
	r[0] = (struct relocation) { .label = 2, .imm = ops[1].imm_label.offset, .size = ins_kind == 1 ? 8 : 4, .offset = 1, .relative = ins_kind == 2 };
}
enum { NOPS = 20, MAXB = 96 };
/* what the sections have to be: bytes, alignment; relocations in order */
static u8 m0[MAXB], m1[MAXB], m2[MAXB];
static u8 *const mem[] = { m0, m1, m2 };
static const char *const sname[] = { ".text", ".data", ".bss" };
static int size[3], align[3], nrel[3], exists[3], cur;
static int rsec[8], rtype[8], rlab[8], nr;
static u64 roff[8], radd[8], val[3];
static int def[3], glob[3], ref[3];
static void put(u8 b) { mem[cur][size[cur]++] = b; }
static void rel(int label, u64 off, u64 add, int type) {
	rsec[nr] = cur; rtype[nr] = type; rlab[nr] = label; roff[nr] = size[cur] + off; radd[nr] = add; nr++;
	nrel[cur]++; ref[label] = 1;
}
static void sect(int s) { object_set_section(sname[s]); cur = s; exists[s] = 1; }
static void al(int n) {
	asm_align(n);
	while (size[cur] % n) put(0);
	if (n > align[cur]) align[cur] = n;
}
static void set(int l, int global) {
	asm_label(global, lid[l]);
	def[l] = cur; val[l] = size[cur]; glob[l] = global;
}
static u64 a, b, c;
static void op(int k) {
	u8 buf[3] = { a, b, c };
	switch (k) {
	case 0: case 1: case 2: sect(k); break;
	case 3: object_write(buf, 3); put(a); put(b); put(c); break;
	case 4: object_write_byte(b); put(b); break;
	case 5: object_write_quad(a); for (int i = 0; i < 8; i++) put(a >> 8 * i); break;
	case 6: asm_zero(3); put(0); put(0); put(0); break;
	case 7: break;
	case 8: case 9: case 10: case 11: al(1 << (k - 8 + (k == 11))); break;	/* 1, 2, 4, 16 */
	case 12: object_symbol_relocate(lid[0], a, b, RELOCATE_64); rel(0, a, b, RELOCATE_64); break;
	case 13: object_symbol_relocate(lid[2], b, c, RELOCATE_32_RELATIVE); rel(2, b, c, RELOCATE_32_RELATIVE); break;
	case 14: set(0, 1); break;
	case 15: set(2, 0); break;
	case 16: asm_quad((struct operand) { .type = OPERAND_IMM_LABEL_ABSOLUTE, .imm_label = { .label_ = lid[1], .offset = a } }); rel(1, 0, a, RELOCATE_64); for (int i = 0; i < 8; i++) put(0); break;
	case 17: case 18: case 19:
		ins_kind = k - 17;
		asm_ins2("op", (struct operand) { .type = OPERAND_IMM_LABEL, .imm_label = { .label_ = lid[1], .offset = c } }, (struct operand) { .type = OPERAND_REG });
		/* a relative displacement counts from the end of the instruction */
		rel(1, 1, k == 19 ? c - 3 : c, k == 17 ? RELOCATE_32 : k == 18 ? RELOCATE_64 : RELOCATE_32_RELATIVE);
		for (int i = 0; i < 4; i++) put(ins_bytes[i]);
		break;
	}
}
static struct object out;
static void check(void) {
	asm_finish();
	for (int s = 0; s < 3; s++) {
		struct section *t = NULL;
		for (unsigned i = 0; i < out.section_size; i++)
			if (same(out.sections[i].name, sname[s])) {
				VP_ENSURE(!t, "one section of a name");
				t = &out.sections[i];
			}
		VP_ENSURE(!exists[s] == !t, "the sections of an object");
		if (!t) continue;
		VP_ENSURE((int)t->size == size[s], "the size of a section");
		for (int i = 0; i < size[s]; i++) VP_ENSURE(t->data[i] == mem[s][i], "the bytes of a section");
		VP_ENSURE(align[s] <= 1 || (t->alignment && t->alignment % align[s] == 0), "a section has the alignment of its contents");
		VP_ENSURE((int)t->relocation_size == nrel[s], "the number of relocations");
		int k = 0;
		for (int r = 0; r < nr; r++)
			if (rsec[r] == s) {
				struct object_relocation *q = &t->relocations[k++];
				VP_ENSURE((int)q->type == rtype[r] && q->offset == roff[r] && (u64)q->add == radd[r], "the type, place and addend of a relocation");
				VP_ENSURE(same(out.symbols[q->idx].name, lname[rlab[r]]), "the symbol of a relocation");
			}
	}
	for (int l = 0; l < 3; l++) {
		int n = 0;
		for (unsigned i = 0; i < out.symbol_size; i++)
			if (same(out.symbols[i].name, lname[l])) {
				struct symbol *y = &out.symbols[i];
				n++;
				if (def[l] == -1) VP_ENSURE(y->section == -1 && y->global, "an undefined symbol");
				else {
					VP_ENSURE(same(out.sections[y->section].name, sname[def[l]]) && y->value == val[l], "the section and value of a symbol");
					VP_ENSURE(!y->global == !glob[l], "the binding of a symbol");
				}
			}
		VP_ENSURE(n == (def[l] != -1 || ref[l]), "the symbols of an object");
	}
}
static const int first_ops[] = FIRST;
void h_writers(void) {
	a = vp_get(1); b = vp_get(2); c = vp_get(3);
	for (int i = 0; i < 4; i++) ins_bytes[i] = vp_get(4 + i);
	for (unsigned i = 0; i < sizeof first_ops / sizeof *first_ops; i++)
		for (int j = 0; j < NOPS; j++)
			for (int k = 0; k < NOPS; k++) {
				int x = first_ops[i];
				if (j == 7 || j == 8 || j == 17 || j == 18 || k == 7 || k == 8) continue;
				for (int s = 0; s < 3; s++) { size[s] = align[s] = nrel[s] = exists[s] = ref[s] = 0; def[s] = -1; }
				nr = 0; cur = 0; exists[0] = 1;
				asm_init_object(&out);
				op(BEFORE);
				op(x); op(j); op(k);
				check();
			}
	VP_REACH("h_writers");
}

#else
enum { MAXSEC = 4, MAXSYM = 6 };
/* per object (rows of MAXSEC or MAXSYM, all objects in one list) */
static const int nsec[] = NSECS, nsym[] = NSYMS, size[] = SIZES, align[] = ALIGNS, nrel[] = RELS, where[] = WHERE, name[] = NAMES, global[] = GLOBAL;
static char *const names[] = { "a", "b", ".L1", "_start", "main" };
static u8 data[4 * 16 * NOBJ];
static struct section secs[4 * NOBJ];
static struct symbol syms[MAXSYM * NOBJ];
static struct object_relocation rels[4 * MAXSEC * NOBJ];
static struct object objs[NOBJ];
static u64 addr[4 * NOBJ], value[MAXSYM * NOBJ], adds[4 * MAXSEC * NOBJ];
static u8 want[4 * 16 * NOBJ];
void h_link(void) {
	int id = 0, k = 0;
	long at = 0;
	for (int o = 0; o < NOBJ; o++) {
		for (int s = 0; s < nsec[o]; s++) {
			int S = o * MAXSEC + s;
			for (int i = 0; i < size[S]; i++) want[16 * S + i] = data[16 * S + i] = vp_get(id++);
			int to = 0;
			for (int r = 0; r < nrel[S]; r++) {
				struct object_relocation *q = &rels[4 * S + r];
				int type = k % 3;
				*q = (struct object_relocation) { .type = type == 0 ? RELOCATE_64 : type == 1 ? RELOCATE_32 : RELOCATE_32_RELATIVE, .idx = (k * 3 + 1) % nsym[o], .offset = to, .add = vp_get(id++) };
				adds[4 * S + r] = q->add;
				to += type == 0 ? 8 : 4;
				k++;
			}
			VP_REQUIRE(to <= size[S]);
			secs[S] = (struct section) { .name = s ? ".data" : ".text", .size = size[S], .cap = size[S], .data = data + 16 * S, .alignment = align[S], .relocation_size = nrel[S], .relocation_cap = nrel[S], .relocations = &rels[4 * S] };
			while (align[S] && at % align[S]) at++;
			addr[S] = at;
			at += size[S];
		}
		for (int y = 0; y < nsym[o]; y++) {
			int Y = o * MAXSYM + y;
			value[Y] = vp_get(id++);
			syms[Y] = (struct symbol) { .name = names[name[Y]], .value = where[Y] == -1 ? 0 : value[Y], .global = global[Y], .section = where[Y] };
		}
		objs[o] = (struct object) { .section_size = nsec[o], .section_cap = nsec[o], .sections = &secs[o * MAXSEC], .symbol_size = nsym[o], .symbol_cap = nsym[o], .symbols = &syms[o * MAXSYM] };
	}
	struct executable *e = linker_link(NOBJ, objs);
	VP_ENSURE(e->segment_size == 1, "one segment");
	struct segment *g = &e->segments[0];
	u64 base = g->load_address;
	VP_ENSURE(g->readable && g->writable && g->executable && g->load_size >= g->size, "the segment can be used");
	VP_ENSURE(base % 4096 == 0, "the segment is aligned");
	VP_ENSURE((long)g->size == at, "the segment holds every section");
	for (int o = 0; o < NOBJ; o++) {
		for (int y = 0; y < nsym[o]; y++) {	/* the value of each symbol */
			int Y = o * MAXSYM + y, D = Y, od = o;
			if (where[Y] == -1)
				for (int p = 0; p < NOBJ; p++)
					for (int z = 0; z < nsym[p]; z++)
						if (global[p * MAXSYM + z] && where[p * MAXSYM + z] != -1 && name[p * MAXSYM + z] == name[Y]) { D = p * MAXSYM + z; od = p; }
			if (where[D] == -1) continue;
			u64 v = base + addr[od * MAXSEC + where[D]] + value[D];
			if (name[Y] == 3) VP_ENSURE(e->entry == v, "the entry point is _start");
			for (int s = 0; s < nsec[o]; s++)
				for (int r = 0, S = o * MAXSEC + s, to = 0; r < nrel[S]; r++) {
					struct object_relocation *q = &rels[4 * S + r];
					int n = q->type == RELOCATE_64 ? 8 : 4;
					int idx = q->idx;
					for (int p = 0; p < o; p++) if (NOBJ > 1) idx -= nsym[p];	/* renumbered in place */
					if (idx == y) {
						u64 x = v + adds[4 * S + r] - (q->type == RELOCATE_32_RELATIVE ? base + addr[S] + to : 0);
						for (int i = 0; i < n; i++) want[16 * S + to + i] = x >> 8 * i;
					}
					to += n;
				}
		}
	}
	for (int o = 0; o < NOBJ; o++)
		for (int s = 0; s < nsec[o]; s++)
			for (int S = o * MAXSEC + s, i = 0; i < size[S]; i++)
				VP_ENSURE(g->data[addr[S] + i] == want[16 * S + i], "a byte of a section, or the value of a relocation");
	VP_REACH("h_link");
}
#endif
