/* C20: hide sets.  The operations see names only through their order, so the
 * names "A" < "B" < ... in every insertion order stand for all names. */
#include "vp.h"
#include <preprocessor/string_set.h>

#ifndef N
#define N 3	/* names in the pool */
#endif
static char *const names[] = { "A", "AB", "B", "Ba", "C" };
static int lens[] = { 1, 2, 1, 2, 1 };
static struct string_view view(int i) {
	return (struct string_view) { .len = lens[i], .str = names[i] };
}
/* All ordered selections of names: seqs[k] lists name indices, -1 ends. */
static int seqs[400][N + 2], nseq;
static void selections(int *cur, int len, int dup) {
	for (int i = 0; i < N + 2; i++) seqs[nseq][i] = i < len ? cur[i] : -1;
	nseq++;
	if (len == N + dup) return;
	for (int j = 0; j < N; j++) {
		int used = 0;
		for (int i = 0; i < len; i++) used += cur[i] == j;
		if (used && !(dup && len == N)) continue;
		cur[len] = j;
		selections(cur, len + 1, dup);
	}
}
static void fill(struct string_set *s, int *member, const int *seq) {
	for (int i = 0; i < N; i++) member[i] = 0;
	for (int i = 0; i < N + 2 && seq[i] >= 0; i++) {
		string_set_insert(s, names[seq[i]]);
		member[seq[i]] = 1;
	}
}
static int count(const int *m) { int c = 0; for (int i = 0; i < N; i++) c += m[i]; return c; }
static void agrees(struct string_set s, const int *member) {
	for (int j = 0; j < N; j++)
		VP_ENSURE((string_set_contains(s, view(j)) != 0) == member[j], "membership is exact");
}
void h_insert(void) {
	int cur[N + 2];
	selections(cur, 0, 1);
	for (int q = 0; q < nseq; q++) {
		struct string_set s = { 0 };
		int m[N], md[N];
		fill(&s, m, seqs[q]);
		agrees(s, m);
		VP_ENSURE(s.size == count(m), "no name is held twice");
		for (int c = 0; c < N; c++) {
			struct string_set d = string_set_dup(s);
			string_set_insert(&d, names[c]);
			for (int j = 0; j < N; j++) md[j] = m[j] || j == c;
			agrees(s, m);
			agrees(d, md);
		}
	}
	VP_REACH("all insertion orders");
}
void h_setop(void) {
	int cur[N + 2];
	selections(cur, 0, 0);
	for (int p = PART; p < nseq; p += 4)
		for (int q = 0; q < nseq; q++) {
			struct string_set a = { 0 }, b = { 0 };
			int ma[N], mb[N], mr[N];
			fill(&a, ma, seqs[p]);
			fill(&b, mb, seqs[q]);
			struct string_set r = UNION ? string_set_union(a, b) : string_set_intersection(a, b);
			for (int j = 0; j < N; j++)
				mr[j] = UNION ? ma[j] | mb[j] : ma[j] & mb[j];
			agrees(r, mr);
			agrees(a, ma);
			agrees(b, mb);
			VP_ENSURE(r.size == count(mr), "no name is held twice");
			/* the result is again a set the operations work on */
			int c = (p + q) % N;
			string_set_insert(&r, names[c]);
			mr[c] = 1;
			agrees(r, mr);
			VP_ENSURE(r.size == count(mr), "the result can be extended");
		}
	VP_REACH("all pairs of insertion orders");
}
