/* Native driver: runs a unit's bounded harness on the real code with inputs
 * from a file (replay) or from a PRNG (search for a failing input). */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <locale.h>
#include <uchar.h>

void bharness(void);

enum { MAXREC = 1 << 16 };
static uint64_t *rec; static size_t *nrec;
static const uint64_t *fixed; static size_t nfixed, ifixed;
static uint64_t prng;
static char *notes;
static int small;
static jmp_buf jb;

static uint64_t next(void) {
	prng ^= prng << 13; prng ^= prng >> 7; prng ^= prng << 17;
	uint64_t x = prng * 0x9E3779B97F4A7C15ull;
	return x ^ (x >> 29);
}
static uint64_t record(uint64_t v) {
	if (*nrec < MAXREC) rec[(*nrec)++] = v;
	return v;
}
uint64_t vp_nd(void) {
	if (fixed) return record(ifixed < nfixed ? fixed[ifixed++] : 0);
	uint64_t v = next();
	if (small && (v & 3)) v = (v >> 2) & 0xf;
	return record(v);
}
char32_t vp_nd_c32(const char *alphabet) {
	if (fixed) return (char32_t)vp_nd();
	uint64_t v = next();
	size_t n = strlen(alphabet);
	if (n && (v & 7)) return (char32_t)record((unsigned char)alphabet[(v >> 3) % n]);
	return (char32_t)record((v >> 3) % 0x300);
}
_Noreturn void vp_discard(void) { longjmp(jb, 1); }
void vp_note(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	size_t n = strlen(notes);
	if (n < 60000) vsnprintf(notes + n, 65536 - n, fmt, ap);
	va_end(ap);
}
_Noreturn void vp_fail(const char *what) {
	vp_note("FAILED: %s\n", what);
	_exit(99);
}
static int reap(pid_t p) {
	int st; waitpid(p, &st, 0);
	if (WIFEXITED(st)) return WEXITSTATUS(st);
	return 128 + WTERMSIG(st);
}
static void seed_run(uint64_t seed, uint64_t k) {
	prng = (seed * 0x9E3779B97F4A7C15ull) ^ ((k + 1) * 0xD1342543DE82EF95ull);
	if (!prng) prng = 1;
	for (int i = 0; i < 4; i++) next();
	small = (int)(k & 1);
	*nrec = 0; notes[0] = 0;
}
static int batch(uint64_t seed, uint64_t k, int n) {
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) {
		alarm(10);
		for (int i = 0; i < n; i++) {
			seed_run(seed, k + (uint64_t)i);
			if (!setjmp(jb)) bharness();
		}
		_exit(0);
	}
	return reap(p);
}
int main(int argc, char **argv) {
	setlocale(LC_CTYPE, "C.UTF-8");
	rec = mmap(0, sizeof(uint64_t) * MAXREC, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	nrec = mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	notes = mmap(0, 65536, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (argc > 2 && !strcmp(argv[1], "replay")) {
		static uint64_t buf[MAXREC];
		FILE *f = fopen(argv[2], "r"); if (!f) return 2;
		while (nfixed < MAXREC && fscanf(f, "%lu", &buf[nfixed]) == 1) nfixed++;
		fclose(f);
		fixed = buf;
		pid_t p = fork();
		if (p == 0) { alarm(10); if (!setjmp(jb)) bharness(); else _exit(77); _exit(0); }
		int rc = reap(p);
		fprintf(stderr, "%src=%d\n", notes, rc);
		return rc == 0 || rc == 77 ? 0 : 1;
	}
	/* search SECONDS SEED OUTFILE */
	double secs = argc > 2 ? atof(argv[2]) : 5;
	uint64_t seed = argc > 3 ? strtoull(argv[3], 0, 10) : 1;
	struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned long runs = 0;
	enum { B = 100 };
	for (uint64_t k = 0;; k += B) {
		clock_gettime(CLOCK_MONOTONIC, &t);
		if ((double)(t.tv_sec - t0.tv_sec) + (double)(t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
		runs += B;
		if (!batch(seed, k, B)) continue;
		/* re-run one by one, each in a fresh process */
		for (int i = 0; i < B; i++) {
			int rc = batch(seed, k + (uint64_t)i, 1);
			if (!rc) continue;
			FILE *o = argc > 4 ? fopen(argv[4], "w") : stdout;
			for (size_t j = 0; j < *nrec; j++) fprintf(o, "%lu\n", rec[j]);
			if (o != stdout) fclose(o);
			fprintf(stderr, "%sruns=%lu rc=%d\n", notes, runs, rc);
			return 1;
		}
	}
	fprintf(stderr, "runs=%lu\n", runs);
	return 0;
}
