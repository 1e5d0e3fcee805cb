/* Common vocabulary of the verification units.
 *
 * Every unit is a translation unit that #includes the real, unmodified source
 * files of /repo.  It is compiled
 *   - by goto-cc (VP_CBMC) for the contract proof and the bounded stand-in, and
 *   - by gcc (VP_NATIVE) to replay a counterexample, or to search for a failing
 *     input, on the real code as it runs.
 */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <uchar.h>

#ifdef VP_NATIVE
/* ---- native: inputs come from a recorded counterexample or from a PRNG ---- */
uint64_t vp_nd(void);
char32_t vp_nd_c32(const char *alphabet);
_Noreturn void vp_discard(void);
_Noreturn void vp_fail(const char *what);
void vp_note(const char *fmt, ...);
#define ASSUME(c) do { if (!(c)) vp_discard(); } while (0)
#define CHECK(c, what) do { if (!(c)) vp_fail(what); } while (0)
#define REACH(what) do { } while (0)
#define VP_MALLOC(n) calloc(1, (n) ? (n) : 1)

#else
/* ---- CBMC ---- */
uint64_t nondet_u64(void);
extern uint64_t vp_in;          /* every input drawn shows up in the trace */
static inline uint64_t vp_nd(void) { uint64_t v = nondet_u64(); vp_in = v; return v; }
#define vp_note(...) do { } while (0)
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, what) __CPROVER_assert((c), what)
/* must be reachable: an obligation that is expected to FAIL (vacuity guard) */
#define REACH(what) __CPROVER_assert(0, "VP_REACH " what)
static inline void *VP_MALLOC(size_t n) {
	void *p = malloc(n);
	__CPROVER_assume(p != NULL);
	return p;
}
#endif

/* A value below n / in [lo, hi] */
static inline uint64_t vp_below(uint64_t n) {
#ifdef VP_NATIVE
	return n ? vp_nd() % n : 0;
#else
	uint64_t v = vp_nd(); __CPROVER_assume(v < n); return v;
#endif
}
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) { return lo + vp_below(hi - lo + 1); }
static inline bool vp_bool(void) { return vp_below(2); }

/* A character, biased (natively) to the given alphabet */
static inline char32_t vp_c32(const char *alphabet) {
#ifdef VP_NATIVE
	return vp_nd_c32(alphabet);
#else
	(void)alphabet;
	return (char32_t)vp_below(0x110000);
#endif
}

/* ghost vocabulary used by contracts */
#ifndef VP_NATIVE
#define RET __CPROVER_return_value
#define OLD(x) __CPROVER_old(x)
#define REQUIRES(x) __CPROVER_requires(x)
#define ENSURES(x) __CPROVER_ensures(x)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define FREES(...) __CPROVER_frees(__VA_ARGS__)
#define INVARIANT(x) __CPROVER_loop_invariant(x)
#define DECREASES(x) __CPROVER_decreases(x)
/* A pointer known to be q: asserts it and assigns it (a no-op that lets the
 * symbolic execution see a constant).  PIN2: one of two. */
#define PIN(p, q) ({ CHECK((p) == (q), "PIN: the pointer is the expected one"); (p) = (q); true; })
#define PIN2(p, q, r) ({ if ((p) == (q)) (p) = (q); else { CHECK((p) == (r), "PIN: the pointer is an expected one"); (p) = (r); } true; })
#define ENTRY(x) __CPROVER_loop_entry(x)
#endif
#endif
