/* C17: elf_write_object, elf_read_object and elf_write_executable against the
 * ELF-64 object file format (System V ABI, chapter 4).  The object's shape
 * (numbers of sections, symbols and relocations, sizes, names) is concrete, its
 * contents, values, addends, offsets and sizes of symbols are arbitrary.  The file is
 * the array `file` behind stand-ins of the stdio functions (fopen is renamed to vp_fopen and so on). */
#include "vp.h"
#include <common.h>
#include <stdio.h>
#include <linker/elf.h>

enum { MAXFILE = 2048 };
static u8 file[MAXFILE];
static long pos, end;
static char handle[8];
FILE *vp_fopen(const char *path, const char *mode) { (void)path; if (mode[0] == 'w') end = 0; pos = 0; return (FILE *)(void *)handle; }
int vp_fclose(FILE *fp) { (void)fp; return 0; }
long vp_ftell(FILE *fp) { (void)fp; return pos; }
int vp_fseek(FILE *fp, long to, int from) { (void)fp; (void)from; pos = to; return 0; }
size_t vp_fwrite(const void *p, size_t size, size_t n, FILE *fp) {
	(void)fp;
	for (size_t i = 0; i < size * n; i++) {
		VP_REQUIRE(pos < MAXFILE);
		file[pos++] = ((const u8 *)p)[i];
		if (pos > end) end = pos;
	}
	return n;
}
size_t vp_fread(void *p, size_t size, size_t n, FILE *fp) {
	(void)fp;
	if (pos + (long)(size * n) > end) return 0;
	for (size_t i = 0; i < size * n; i++) ((u8 *)p)[i] = file[pos++];
	return n;
}
int vp_snprintf(char *s, size_t n, const char *f, ...) {
	__builtin_va_list ap;	/* %s only */
	size_t k = 0;
	__builtin_va_start(ap, f);
	for (; *f; f++)
		if (*f == '%') {
			f++;
			for (const char *t = __builtin_va_arg(ap, const char *); *t; t++) { if (k + 1 < n) s[k] = *t; k++; }
		} else { if (k + 1 < n) s[k] = *f; k++; }
	s[k < n ? k : n - 1] = 0;
	__builtin_va_end(ap);
	return k;
}

static u64 word(long at, int n) {
	u64 v = 0;
	VP_ENSURE(at + n <= end, "every field of the file lies in it");
	for (int i = n - 1; i >= 0; i--) v = v << 8 | file[at + i];
	return v;
}
static int same(const char *a, const char *b) {
	for (int i = 0; i < 16; i++) {
		if (a[i] != b[i]) return 0;
		if (!a[i]) return 1;
	}
	return 0;
}
/* the string of table t at offset i */
static const char *name_at(long table, u64 size, u64 i) {
	VP_ENSURE(i < size, "a name lies in its string table");
	VP_ENSURE(word(table + size - 1, 1) == 0, "a string table ends with a null byte");
	return (const char *)file + table + i;
}

enum { NSEC = SECS, NSYM = SYMS };
static const int size_of[4] = SIZES, nrel_of[4] = RELS;
static const int sect_of[6] = WHERE, global_of[6] = GLOBAL;	/* of each symbol; -1: undefined */
static char *const secname[] = { ".text", ".data", ".rodata", ".bss" };
static char *const symname[] = { "a", "main", ".L1", "b", "ab", "a.c" };
static struct section sections[NSEC + 1];
static struct symbol symbols[NSYM + 1];
static struct object_relocation rels0[4], rels1[4], rels2[4], rels3[4];
static struct object_relocation *const rels[4] = { rels0, rels1, rels2, rels3 };
static u8 data0[16], data1[16], data2[16], data3[16];
static u8 *const datas[4] = { data0, data1, data2, data3 };
static struct object o;
static void make(void) {
	int id = 0, k = 0;
	for (int s = 0; s < NSEC; s++) {
		for (int i = 0; i < size_of[s]; i++) datas[s][i] = vp_get(id++);
		for (int r = 0; r < nrel_of[s]; r++) {
			rels[s][r].type = k % 3 == 0 ? RELOCATE_64 : k % 3 == 1 ? RELOCATE_32 : RELOCATE_32_RELATIVE;
			rels[s][r].idx = (k * 5 + 2) % NSYM;
			rels[s][r].offset = vp_get(id++);
			rels[s][r].add = vp_get(id++);
			k++;
		}
		sections[s] = (struct section) { .name = secname[s], .alignment = vp_get(id++), .size = size_of[s], .cap = size_of[s], .data = datas[s],
			.relocation_size = nrel_of[s], .relocation_cap = 4, .relocations = rels[s] };
	}
	for (int i = 0; i < NSYM; i++)
		symbols[i] = (struct symbol) { .name = symname[i], .value = vp_get(id++), .size = vp_get(id++), .global = global_of[i], .section = sect_of[i] };
	o = (struct object) { .section_size = NSEC, .sections = sections, .symbol_size = NSYM, .symbols = symbols };
}

void h_write(void) {
	enum { SHDR = 64 };
	make();
	elf_write_object("x", &o);
	static const u8 ident[16] = { 0x7f, 'E', 'L', 'F', 2, 1, 1 };
	for (int i = 0; i < 16; i++) VP_ENSURE(word(i, 1) == ident[i], "e_ident");
	VP_ENSURE(word(16, 2) == 1 && word(18, 2) == 62 && word(20, 4) == 1 && word(24, 8) == 0, "e_type, e_machine, e_version, e_entry");
	long sh = word(40, 8), num = word(60, 2), str = word(62, 2);
	VP_ENSURE(word(48, 4) == 0 && word(52, 2) == 64 && word(56, 2) == 0 && word(58, 2) == SHDR, "e_flags, e_ehsize, e_phnum, e_shentsize");
	VP_ENSURE(sh >= 64 && sh + num * SHDR <= end && str < num, "the section header table lies in the file");
	for (int i = 0; i < SHDR; i++) VP_ENSURE(word(sh + i, 1) == 0, "section 0 is null");
	long stro = word(sh + str * SHDR + 24, 8), strn = word(sh + str * SHDR + 32, 8);
	VP_ENSURE(word(sh + str * SHDR + 4, 4) == 3, "the section names are a string table");
	long symtab = 0, found = 0;
	for (long i = 1; i < num; i++) {
		long h = sh + i * SHDR, at = word(h + 24, 8), n = word(h + 32, 8);
		VP_ENSURE(at >= sh + num * SHDR && at + n <= end, "sections lie in the file behind the headers");
		for (long j = 1; j < i; j++) {
			long g = sh + j * SHDR, bt = word(g + 24, 8), m = word(g + 32, 8);
			VP_ENSURE(n == 0 || m == 0 || at + n <= bt || bt + m <= at, "sections do not overlap");
		}
		const char *name = name_at(stro, strn, word(h, 4));
		if (word(h + 4, 4) == 2) {
			VP_ENSURE(!symtab, "one symbol table");
			symtab = i;
		}
		for (int s = 0; s < NSEC; s++)
			if (word(h + 4, 4) == 1 && same(name, secname[s])) {
				found++;
				VP_ENSURE(n == size_of[s], "the size of a section");
				for (int k = 0; k < size_of[s]; k++) VP_ENSURE(word(at + k, 1) == datas[s][k], "the contents of a section");
				VP_ENSURE(word(h + 48, 8) == sections[s].alignment, "the alignment of a section");
				VP_ENSURE(word(h + 8, 8) & 2, "sections are allocated");
			}
	}
	VP_ENSURE(found == NSEC, "every section is in the file once");
	VP_ENSURE(symtab, "the file has a symbol table");
	long h = sh + symtab * SHDR, at = word(h + 24, 8), n = word(h + 32, 8) / 24, link = word(h + 40, 4), locals = word(h + 44, 4);
	VP_ENSURE(word(h + 56, 8) == 24 && n * 24 == (long)word(h + 32, 8), "the size of symbol table entries");
	VP_ENSURE(link < num && word(sh + link * SHDR + 4, 4) == 3, "the symbol table has a string table");
	long names = word(sh + link * SHDR + 24, 8), names_n = word(sh + link * SHDR + 32, 8);
	for (int i = 0; i < 24; i++) VP_ENSURE(word(at + i, 1) == 0, "symbol 0 is null");
	int index[NSYM + 1], seen = 0;
	for (long i = 1; i < n; i++) {
		long y = at + i * 24;
		VP_ENSURE((word(y + 4, 1) >> 4) == (i >= locals), "local symbols come first, sh_info counts them");
		VP_ENSURE((long)word(y + 6, 2) < num, "the section of a symbol");
		if ((word(y + 4, 1) & 15) == 3) {
			VP_ENSURE(word(y + 8, 8) == 0 && i < locals, "section symbols");
			continue;
		}
		const char *name = name_at(names, names_n, word(y, 4));
		for (int k = 0; k < NSYM; k++)
			if (same(name, symname[k])) {
				seen++;
				index[k] = i;
				VP_ENSURE((word(y + 4, 1) >> 4) == (unsigned)global_of[k] && (word(y + 4, 1) & 15) == 0 && word(y + 5, 1) == 0, "the binding of a symbol");
				VP_ENSURE(word(y + 8, 8) == symbols[k].value && word(y + 16, 8) == symbols[k].size, "the value of a symbol");
				long x = word(y + 6, 2);
				if (sect_of[k] == -1) VP_ENSURE(x == 0, "an undefined symbol");
				else VP_ENSURE(x && word(sh + x * SHDR + 4, 4) == 1 && same(name_at(stro, strn, word(sh + x * SHDR, 4)), secname[sect_of[k]]), "the section of a symbol");
			}
	}
	VP_ENSURE(seen == NSYM, "every symbol is in the file once");
	int with = 0;
	for (long i = 1; i < num; i++) {
		long h = sh + i * SHDR;
		if (word(h + 4, 4) != 4) continue;
		long t = word(h + 44, 4), at = word(h + 24, 8);
		VP_ENSURE((long)word(h + 40, 4) == symtab && word(h + 56, 8) == 24 && t && t < num, "the header of relocations");
		const char *name = name_at(stro, strn, word(sh + t * SHDR, 4));
		for (int s = 0; s < NSEC; s++)
			if (same(name, secname[s])) {
				with += word(h + 32, 8) != 0;
				VP_ENSURE((int)word(h + 32, 8) == 24 * nrel_of[s], "the number of relocations");
				for (int r = 0; r < nrel_of[s]; r++) {
					long y = at + 24 * r;
					VP_ENSURE(word(y, 8) == rels[s][r].offset && word(y + 16, 8) == (u64)rels[s][r].add, "the place and addend of a relocation");
					VP_ENSURE(word(y + 8, 4) == (rels[s][r].type == RELOCATE_64 ? 1 : rels[s][r].type == RELOCATE_32 ? 11 : 2), "the type of a relocation");
					VP_ENSURE((int)word(y + 12, 4) == index[rels[s][r].idx], "the symbol of a relocation");
				}
			}
	}
	for (int s = 0; s < NSEC; s++) with -= nrel_of[s] != 0;
	VP_ENSURE(with == 0, "the relocations of every section");
	VP_REACH("h_write");
}

void h_read(void) {
	make();
	elf_write_object("x", &o);
	struct object *q = elf_read_object("x");
	VP_ENSURE(q && q->section_size == NSEC && q->symbol_size == NSYM, "the numbers of sections and symbols read back");
	int where[NSEC], as[NSYM + 1];
	for (int s = 0; s < NSEC; s++) {
		where[s] = -1;
		for (int t = 0; t < NSEC; t++)
			if (same(q->sections[t].name, secname[s])) where[s] = t;
		VP_ENSURE(where[s] != -1, "the sections read back");
	}
	for (int k = 0; k < NSYM; k++) {
		as[k] = -1;
		for (int t = 0; t < NSYM; t++)
			if (same(q->symbols[t].name, symname[k])) as[k] = t;
		VP_ENSURE(as[k] != -1, "the symbols read back");
		struct symbol *y = &q->symbols[as[k]];
		VP_ENSURE(!y->global == !global_of[k] && y->value == symbols[k].value && y->size == symbols[k].size, "the binding, value and size of a symbol read back");
		VP_ENSURE(y->section == (sect_of[k] == -1 ? -1 : where[sect_of[k]]), "the section of a symbol read back");
	}
	for (int s = 0; s < NSEC; s++) {
		struct section *t = &q->sections[where[s]];
		VP_ENSURE(t->size == (size_t)size_of[s] && t->alignment == sections[s].alignment, "the size and alignment of a section read back");
		for (int k = 0; k < size_of[s]; k++) VP_ENSURE(t->data[k] == datas[s][k], "the contents of a section read back");
		VP_ENSURE(t->relocation_size == (size_t)nrel_of[s], "the number of relocations read back");
		for (int r = 0; r < nrel_of[s]; r++) {
			struct object_relocation *a = &t->relocations[r], *b = &rels[s][r];
			VP_ENSURE(a->type == b->type && a->offset == b->offset && a->add == b->add, "the type, place and addend of a relocation read back");
			VP_ENSURE(a->idx == as[b->idx], "the symbol of a relocation read back");
		}
	}
	VP_REACH("h_read");
}
