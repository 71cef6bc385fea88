// Native search for a failing input of a unit whose proof failed: many small random inputs, each run in
// its own process. It never decides anything by itself; it only supplies the input for an alarm.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <signal.h>
#include <sys/mman.h>
#include <fcntl.h>
int v_bad = 0, v_search = 1;
void V_HARNESS(void);
extern unsigned char in[];
void v_reg(const void *p, size_t n){}
void v_snap(const void *p, size_t n){}
void v_framecheck(void){}
static const struct { unsigned off, size, count; char kind; } F[] = {
#include "layout.inc"
};
static uint64_t S;
static uint32_t rnd(void){ S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (uint32_t)(S >> 16); }
static uint64_t val(unsigned size, int style){
	uint32_t r = rnd() % 100;
	if (size == 4 || size == 8) {
		if (r < 15) return 0;
		if (r < 35) return rnd() % 8;
		if (r < 60) return (uint64_t)(int64_t)((int)(rnd() % (style & 1 ? 12 : 300)) - (style & 2 ? 6 : 0)) * 4096;
		if (r < 72) return (uint64_t)(int64_t)((int)(rnd() % 24) - 12) * 4096 + rnd() % 4096;
		if (r < 80) { static const int64_t e[] = {INT32_MAX, INT32_MIN, -1, -4096, 255 * 4096, 256 * 4096, 1 << 30, -(1 << 20)}; return e[rnd() % 8]; }
		if (r < 90) return (int64_t)(int32_t)(rnd() >> (rnd() % 32));
		return size == 8 ? ((uint64_t)rnd() << 32 | rnd()) : rnd();
	}
	if (r < 20) return 0;
	if (r < 35) return 1;
	if (r < 55) return rnd() % 6;
	if (r < 70) return rnd() % 34;
	if (r < 80) return (style & 1) ? 256 : 255;
	return rnd();
}
static void fill(void){
	int style = rnd();
	for (unsigned f = 0; f < sizeof F / sizeof *F; ++f) {
		int as = rnd() % 6; uint32_t base = rnd();
		for (unsigned k = 0; k < F[f].count; ++k) {
			uint64_t v;
			if (F[f].kind == 'b') v = rnd() & 1;
			else if (F[f].count == 1) v = val(F[f].size, style);
			else switch (as) {
				case 0: v = 0; break;
				case 1: v = val(F[f].size, style); break;
				case 2: v = base + k; break;
				case 3: v = 'A' + rnd() % 2; break;
				case 4: v = "0123456789.-AF&HXB /:_"[rnd() % 22]; break;
				default: v = rnd();
			}
			memcpy(in + F[f].off + k * F[f].size, &v, F[f].size);
		}
	}
}
int main(int c, char **a){
	if (c > 3) { // replay a stored input
		int d = open(a[2], O_RDONLY); if (d < 0) return 3;
		ssize_t n = read(d, in, atol(a[1])); (void)n;
		V_HARNESS(); fprintf(stderr, v_bad ? "REPLAY-RESULT: violated\n" : "REPLAY-RESULT: ok\n"); return v_bad;
	}
	unsigned size = 0; for (unsigned f = 0; f < sizeof F / sizeof *F; ++f) { unsigned e = F[f].off + F[f].size * F[f].count; if (e > size) size = e; }
	time_t end = time(NULL) + atol(a[1]); uint64_t seed = atol(a[2]) * 1000000007ull; unsigned ran = 0, ok = 0;
	int nul = open("/dev/null", O_WRONLY);
	while (time(NULL) < end) {
		S = seed++ * 0x9E3779B97F4A7C15ull | 1; for (int i = 0; i < 4; ++i) rnd();
		fill();
		pid_t p = fork();
		if (!p) { dup2(nul, 1); dup2(nul, 2); alarm(3); V_HARNESS(); _exit(v_bad ? 1 : 0); }
		int st = 0; waitpid(p, &st, 0); ran++;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;
		ok++;
		if (WIFEXITED(st) && !WEXITSTATUS(st)) continue;
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) continue;
		int d = open("input.bin", O_CREAT | O_WRONLY | O_TRUNC, 0644); ssize_t n = write(d, in, size); (void)n; close(d);
		printf("FOUND %u size %u after %u inputs (%u admissible)\n", (unsigned)seed - 1, size, ran, ok); return 1;
	}
	printf("none in %u inputs (%u admissible)\n", ran, ok);
	return 0;
}
