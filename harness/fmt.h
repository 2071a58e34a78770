/* Contract of the C library's formatted output for the conversions the compiler
 * uses in assembly output: %s %d %.*s %% %ld/%lu/%lld; everything written to a
 * stream is appended to `out_text`. */
#include <stdarg.h>
#include <stdio.h>
#ifndef OUTMAX
#define OUTMAX 96
#endif
static char out_text[OUTMAX];
static int out_n;
static void put_to(char *b, int *n, int max, char c) { if (*n < max) b[*n] = c; (*n)++; }
static void put_num(char *b, int *n, int max, long v) {
	char d[20];
	int k = 0;
	unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v;
	if (v < 0) put_to(b, n, max, '-');
	do { d[k++] = '0' + u % 10; u /= 10; } while (u && k < 20);
	while (k) put_to(b, n, max, d[--k]);
}
static void format(char *b, int *n, int max, const char *f, va_list ap) {
	for (int i = 0; f[i]; i++) {
		if (f[i] != '%') { put_to(b, n, max, f[i]); continue; }
		i++;
		if (f[i] == 's') {
			const char *s = va_arg(ap, const char *);
			for (int j = 0; s[j]; j++) put_to(b, n, max, s[j]);
		} else if (f[i] == 'c') {
			put_to(b, n, max, va_arg(ap, int));
		} else if (f[i] == '.' && f[i + 1] == '*') {
			i += 2;
			int l = va_arg(ap, int);
			const char *s = va_arg(ap, const char *);
			for (int j = 0; j < l && s[j]; j++) put_to(b, n, max, s[j]);
		} else if (f[i] == 'd') {
			put_num(b, n, max, va_arg(ap, int));
		} else if (f[i] == 'l') {
			while (f[i] == 'l') i++;
			put_num(b, n, max, va_arg(ap, long));
		} else
			put_to(b, n, max, f[i]);
	}
}
int vfprintf(FILE *o, const char *f, va_list ap) { (void)o; format(out_text, &out_n, OUTMAX, f, ap); return 0; }
int fprintf(FILE *o, const char *f, ...) { va_list ap; (void)o; va_start(ap, f); format(out_text, &out_n, OUTMAX, f, ap); va_end(ap); return 0; }
int fputs(const char *s, FILE *o) { (void)o; for (int j = 0; s[j]; j++) put_to(out_text, &out_n, OUTMAX, s[j]); return 0; }
int fputc(int c, FILE *o) { (void)o; put_to(out_text, &out_n, OUTMAX, c); return c; }
int putc(int c, FILE *o) { return fputc(c, o); }
int snprintf(char *b, size_t max, const char *f, ...) {
	va_list ap;
	int n = 0;
	va_start(ap, f);
	format(b, &n, (int)max, f, ap);
	va_end(ap);
	if (max) b[n < (int)max ? n : (int)max - 1] = 0;
	return n;
}
#ifdef VP_CBMC
FILE *fopen(const char *p, const char *m) { static FILE f; (void)p; (void)m; return &f; }
#endif
