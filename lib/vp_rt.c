/* Runtime of the harnesses: inputs, and the environment the real code runs in.
 * exit() in /repo's sources is renamed to vp_exit, so that a rejection
 * (ICE/ERROR/NOTIMP) where the contract promises a result is an obligation. */
#include "vp.h"
#include <stdio.h>

u64 vp_in[VP_MAX_IN];
int vp_exit_ok;

char *vp_strdup(const char *s) { return (char *)s; }

#ifdef VP_CBMC
_Noreturn void vp_exit(int code) {
	(void)code;
	__CPROVER_assert(vp_exit_ok, "ENSURES the compiler does not reject or give up on a valid input");
	__CPROVER_assume(0);
	for (;;) ;
}
#else
u64 vp_get(int id) { return vp_in[id]; }
void vp_fail(const char *msg, const char *cond, const char *file, int line) {
	fprintf(stdout, "\nREPLAY-VIOLATION %s\n  failed: %s\n  at %s:%d\n", msg, cond, file, line);
	fflush(stdout);
	_Exit(10);
}
void vp_skip(const char *cond, const char *file, int line) {
	fprintf(stdout, "\nREPLAY-PRECONDITION-NOT-MET %s (%s:%d)\n", cond, file, line);
	fflush(stdout);
	_Exit(3);
}
_Noreturn void vp_exit(int code) {
	(void)code;
	if (!vp_exit_ok)
		vp_fail("the compiler does not reject or give up on a valid input", "exit() reached", __FILE__, __LINE__);
	fprintf(stdout, "\nREPLAY-REJECTED (allowed)\n");
	fflush(stdout);
	_Exit(0);
}
void VP_ENTRY(void);
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "r");
	int id; unsigned long long v;
	(void)argc;
	if (!f) return 4;
	while (fscanf(f, "%d %llu", &id, &v) == 2)
		if (id >= 0 && id < VP_MAX_IN) vp_in[id] = v;
	fclose(f);
	VP_ENTRY();
	fprintf(stdout, "\nREPLAY-OK\n");
	fflush(stdout);
	_Exit(0);
}
#endif
