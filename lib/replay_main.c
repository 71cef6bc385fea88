// Native side of a replay: loads the verifier's counterexample and runs the unit.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int v_search = 0, v_bad = 0;
void v_load(void);
void V_HARNESS(void);
static struct { const unsigned char *p; size_t n; } reg[256];
static int nreg;
static const unsigned char *base; static unsigned char *copy; static size_t blen;
void v_reg(const void *p, size_t n){ if (nreg < 256) { reg[nreg].p = p; reg[nreg].n = n; nreg++; } }
void v_snap(const void *p, size_t n){ base = p; blen = n; nreg = 0; free(copy); copy = malloc(n); memcpy(copy, p, n); }
void v_framecheck(void){
	for (size_t i = 0; i < blen; ++i) {
		if (base[i] == copy[i]) continue;
		int ok = 0;
		for (int r = 0; r < nreg && !ok; ++r) ok = base + i >= reg[r].p && base + i < reg[r].p + reg[r].n;
		if (!ok) { fprintf(stderr, "REPLAY-VIOLATED: frame: byte %zu of the system struct changed\n", i); v_bad = 1; return; }
	}
}
int main(void){
	v_load();
	V_HARNESS();
	fprintf(stderr, v_bad ? "REPLAY-RESULT: violated\n" : "REPLAY-RESULT: ok\n");
	return v_bad ? 1 : 0;
}
