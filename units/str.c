/* Text primitives: the real skull/common/str.c.
 * A is a string of arbitrary length g_n, B one of arbitrary length g_m; "k is
 * the end exactly if k == g_n" is the definition of the length, assumed at the
 * positions looked at. */
#ifdef VP_CBMC
#include "vp.h"
#include <errno.h>
#include "skull/common/errors.h"
#include "skull/common/str.h"
uint64_t vp_in;
#define INF __CPROVER_constant_infinity_uint
static size_t g_n, g_m, G_w, g_cnt; static char32_t *A, *B, *D, g_c; static bool g_equal;
static unsigned g_errs; static size_t g_erri; static bool g_eloc;
void fmt_message(ErrorType t, ErrorCode c, Message m[]) { (void)c; if (t == ERROR_FATAL && g_errs < 9) g_errs++; g_erri = m[0].i; g_eloc = m[0].loc != NULL; }
#define MSG g_errs, g_erri, g_eloc
static bool lenA(size_t k) { if (k <= g_n) ASSUME((A[k] == 0) == (k == g_n)); return true; }
static bool lenB(size_t k) { if (k <= g_m) ASSUME((B[k] == 0) == (k == g_m)); return true; }
static bool same(size_t k) { if (g_equal && k < g_n && k < g_m && k < g_cnt) ASSUME(A[k] == B[k]); return true; }
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define IX(p) (OFF(p) / sizeof(char32_t))
#define OK(p, base, n) (__CPROVER_same_object(p, base) && OFF(p) % sizeof *(base) == 0 && OFF(p) / sizeof *(base) <= (n))
#define MAXLEN (1ul << 24)

static size_t g_alloc; static char *M; static size_t g_malloced; static unsigned g_nfree;
#include "skull/common/malloc.h"
static void *vp_malloc(size_t n) { g_malloced = n; return g_alloc == 1 ? (void *)D : (void *)M; }
static void *vp_realloc(void *p, size_t n) { CHECK(p == (g_alloc == 1 ? (void *)D : (void *)M) && n <= g_malloced, "the block is only shrunk"); g_malloced = n; return p; }
static void vp_free(void *p) { CHECK(p == (g_alloc == 1 ? (void *)D : (void *)M), "what was allocated is freed"); g_nfree++; }
#define Malloc(n) vp_malloc(n)
#define Realloc(p, n) vp_realloc(p, n)
#define free(p) vp_free(p)
static void vp_zero(char32_t *p, size_t n) { if (p == D && G_w < n / sizeof *D) D[G_w] = 0; }
#define memset(p, v, n) vp_zero((char32_t *)(void *)(p), n)

/* ---- encoding: GO[k] bytes encode the first k characters, character k takes GS[k] bytes, GX[k]: it cannot be encoded */
static size_t GO[INF]; static unsigned char GS[INF]; static bool GX[INF]; static size_t g_seen, g_at; static int vp_errno;
#undef errno
#define errno vp_errno
static bool enc(size_t k) { ASSUME(GS[k] >= 1 && GS[k] <= 6 && GO[k + 1] == GO[k] + GS[k] && GO[k] <= 6 * k); return true; }
#undef MB_CUR_MAX
#define MB_CUR_MAX 6ul
static size_t vp_c32rtomb(char *out, char32_t c, mbstate_t *st) {
	(void)st;
	CHECK(g_seen < g_n && c == A[g_seen], "every character is encoded, in order");
	CHECK(out == M + GO[g_seen], "right after the one before");
	CHECK(GO[g_seen] + MB_CUR_MAX <= g_malloced, "there is room");
	if (GX[g_seen]) { vp_errno = EILSEQ; return (size_t)-1; }
	if (g_seen == G_w) g_at = GO[g_seen];
	enc(g_seen); return GS[g_seen++];
}
#define c32rtomb vp_c32rtomb
static char *N; static size_t g_bytes;   /* the encoded text: g_bytes bytes, g_n characters */
static size_t vp_mbrtoc32(char32_t *out, const char *s, size_t n, mbstate_t *st) {
	(void)st; (void)n;
	CHECK(g_seen < g_n && OFF(s) == GO[g_seen] && __CPROVER_same_object(s, N), "every character is decoded, in order");
	CHECK(out == D + g_seen, "right after the one before");
	CHECK((g_seen + 1) * sizeof *D <= g_malloced, "there is room");
	if (GX[g_seen]) { vp_errno = EILSEQ; return (size_t)-1; }
	enc(g_seen); char32_t c = A[g_seen]; if (G_w == g_seen) *out = c;
	return GS[g_seen++];
}
#define mbrtoc32 vp_mbrtoc32
static size_t vp_strlen(const char *s) { return s == N ? g_bytes : s == M ? g_n : g_m; }
#define strlen vp_strlen
static bool GM[INF];   /* whether the needle is found at position k */
static int vp_strncmp(const char *a, const char *b, size_t n) { CHECK(__CPROVER_same_object(a, M) && OFF(a) + g_m <= g_n && n == g_m, "the needle is compared at a place where it fits"); (void)b; return GM[OFF(a)] ? 0 : 1; }
#define strncmp vp_strncmp

#define LOOP_CONTRACT_c32slen(str, len) ASSIGNS(str, len) INVARIANT(OK(str, A, g_n) && len == IX(str) && (A[len] == 0) == (len == g_n)) DECREASES(g_n - len) if (lenA(len + 1))
#define LOOP_CONTRACT_c32scmp(a, b) ASSIGNS(a, b) INVARIANT(OK(a, A, g_n) && OK(b, B, g_m) && IX(a) == IX(b) && (G_w < IX(a) ==> A[G_w] == B[G_w]) && AT_ENDS(IX(a))) DECREASES(g_n - IX(a)) \
	if (lenA(IX(a) + 1) && lenB(IX(b) + 1) && same(IX(a)))
#define AT_ENDS(k) ((A[k] == 0) == ((k) == g_n) && (B[k] == 0) == ((k) == g_m))
#define LOOP_CONTRACT_c32sncmp(a, b, n) ASSIGNS(a, b, n) INVARIANT(OK(a, A, g_n) && OK(b, B, g_m) && IX(a) == IX(b) && (G_w < IX(a) ==> A[G_w] == B[G_w]) && AT_ENDS(IX(a)) && IX(a) <= g_cnt && n == g_cnt - IX(a)) DECREASES(n) \
	if (lenA(IX(a) + 1) && lenB(IX(b) + 1) && same(IX(a)))
#define LOOP_CONTRACT_c32schr(str) ASSIGNS(str) INVARIANT(OK(str, A, g_n) && (A[IX(str)] == 0) == (IX(str) == g_n) && (G_w < IX(str) ==> A[G_w] != g_c)) DECREASES(g_n - IX(str)) if (lenA(IX(str) + 1))
static bool at(char32_t **d, const char32_t **s) { size_t k = g_cnt; k = IX(*s); CHECK(*d == D + k && *s == A + k, "PIN: the pointers are the expected ones"); *d = D + k; *s = A + k; return true; }
#define LOOP_CONTRACT_c32sncpy(dest, src, n) ASSIGNS(dest, src, n, __CPROVER_object_whole(D)) \
	INVARIANT(OK(src, A, g_n) && OK(dest, D, g_cnt) && IX(dest) == IX(src) && (A[IX(src)] == 0) == (IX(src) == g_n) && IX(src) <= g_cnt && n == g_cnt - IX(src)) \
	INVARIANT(G_w < g_cnt ==> D[G_w] == (G_w < IX(src) ? A[G_w] : 0)) DECREASES(n) if (lenA(IX(src) + 1) && at(&dest, &src))
#define LOOP_CONTRACT_strrstr(look) ASSIGNS(look) INVARIANT(OK(look, M, g_n - g_m) && (G_w > OFF(look) && G_w + g_m <= g_n ==> !GM[G_w])) DECREASES(OFF(look))
#define LOOP_CONTRACT_c32stombs(str, offset) ASSIGNS(str, offset, g_seen, g_at, vp_errno, MSG, g_nfree) \
	INVARIANT(OK(str, A, g_n) && g_seen == IX(str) && offset == GO[g_seen] && offset <= 6 * g_seen && (A[IX(str)] == 0) == (IX(str) == g_n) && g_errs == 0 && g_nfree == 0) \
	INVARIANT(G_w < g_seen ==> !GX[G_w] && g_at == GO[G_w]) DECREASES(g_n - IX(str)) if (lenA(IX(str) + 1) && enc(IX(str)) && enc(IX(str) + 1))
#define LOOP_CONTRACT_mbstoc32s(str, offset) ASSIGNS(str, offset, g_seen, vp_errno, MSG, g_nfree, __CPROVER_object_whole(D)) \
	INVARIANT(OK(str, N, g_bytes) && g_seen <= g_n && offset == g_seen && OFF(str) == GO[g_seen] && (N[OFF(str)] == 0) == (g_seen == g_n) && g_errs == 0 && g_nfree == 0 && g_seen <= GO[g_seen]) \
	INVARIANT(G_w < g_seen ==> !GX[G_w] && D[G_w] == A[G_w]) DECREASES(g_n - g_seen) if (enc(g_seen) && ends(g_seen + 1))
/* the encoded text ends after the last character */
static bool ends(size_t k) {
	if (k <= g_n) { ASSUME(GO[k] <= g_bytes && GO[k] >= k && (k == g_n) == (GO[k] == g_bytes) && (N[GO[k]] == 0) == (k == g_n)); }
	return true;
}
#include "loops.h"

size_t c32slen(const char32_t *str)
REQUIRES(str == NULL || str == A) ASSIGNS()
ENSURES(RET == (str ? g_n : 0)) ;
bool c32scmp(const char32_t *a, const char32_t *b)
REQUIRES(a == A && b == B) ASSIGNS()
ENSURES(RET ==> g_n == g_m && (G_w < g_n ==> A[G_w] == B[G_w]))
ENSURES(g_equal && g_n == g_m ==> RET) ;
bool c32sncmp(const char32_t *a, const char32_t *b, size_t n)
REQUIRES(a == A && b == B && n == g_cnt) ASSIGNS()
ENSURES(RET ==> g_cnt <= g_n && g_cnt <= g_m && (G_w < g_cnt ==> A[G_w] == B[G_w]))
ENSURES(g_equal && g_cnt <= g_n && g_cnt <= g_m ==> RET) ;
const char32_t *c32schr(const char32_t *str, char32_t c)
REQUIRES(str == A && c == g_c) ASSIGNS()
ENSURES(RET ==> OK(RET, A, g_n) && IX(RET) < g_n && A[IX(RET)] == g_c)
ENSURES(G_w < (RET ? IX(RET) : g_n) ==> A[G_w] != g_c) ;
void c32sncpy(char32_t *dest, const char32_t *src, size_t n)
REQUIRES(dest == D && src == A && n == g_cnt && n > 0)
ASSIGNS(__CPROVER_object_whole(D))
ENSURES(G_w < g_cnt ==> D[G_w] == (G_w < g_n ? A[G_w] : 0)) ;
char32_t *c32sdup(const char32_t *const str)
REQUIRES(str == A) ASSIGNS(__CPROVER_object_whole(D), g_malloced)
ENSURES(RET == D && g_malloced == (g_n + 1) * sizeof *D && (G_w <= g_n ==> D[G_w] == (G_w < g_n ? A[G_w] : 0))) ;
const char *strrstr(const char *const str, const char *const sub)
REQUIRES(str == M && sub == N) ASSIGNS()
ENSURES(RET ==> OK(RET, M, g_n) && OFF(RET) + g_m <= g_n && GM[OFF(RET)])
ENSURES((RET ==> G_w > OFF(RET)) && G_w + g_m <= g_n ==> !GM[G_w]) ;
char *c32stombs(const char32_t *str, const Location *location)
REQUIRES(str == A && g_errs == 0 && g_seen == 0 && g_nfree == 0)
ASSIGNS(__CPROVER_object_whole(M), g_malloced, g_seen, g_at, vp_errno, MSG, g_nfree)
ENSURES(RET ==> RET == M && g_seen == g_n && M[GO[g_n]] == '\0' && g_malloced == GO[g_n] + 1 && g_errs == 0 && g_nfree == 0)
ENSURES(RET && G_w < g_n ==> !GX[G_w] && g_at == GO[G_w])
ENSURES(!RET ==> g_errs == 1 && g_nfree == 1 && g_seen < g_n && GX[g_seen] && g_eloc == (location != NULL)) ;
char32_t *mbstoc32s(const char *str)
REQUIRES(str == N && g_errs == 0 && g_seen == 0 && g_nfree == 0)
ASSIGNS(__CPROVER_object_whole(D), g_malloced, g_seen, vp_errno, MSG, g_nfree)
ENSURES(RET ==> RET == D && g_seen == g_n && D[g_n] == 0 && g_malloced == (g_n + 1) * sizeof *D && g_errs == 0)
ENSURES(RET && G_w < g_n ==> !GX[G_w] && D[G_w] == A[G_w])
ENSURES(!RET ==> g_errs == 1 && g_nfree == 1 && g_seen < g_n && GX[g_seen] && g_erri == g_seen + 1) ;

#include "skull/common/str.c"

void harness(void) {
	g_n = (size_t)vp_below(MAXLEN); g_m = (size_t)vp_below(MAXLEN); G_w = (size_t)vp_below(MAXLEN); g_cnt = (size_t)vp_below(MAXLEN); g_equal = vp_bool(); g_c = (char32_t)vp_nd();
	g_errs = 0; g_nfree = 0; g_seen = 0; g_malloced = 0; Location loc;
#ifndef UNIT_RSTR
	A = VP_MALLOC((g_n + 1) * sizeof *A); A[g_n] = 0; lenA(0); lenA(G_w);
#endif
#if defined(UNIT_LEN)
	c32slen(vp_bool() ? A : NULL);
#elif defined(UNIT_CMP)
	B = VP_MALLOC((g_m + 1) * sizeof *B); B[g_m] = 0; lenB(0); g_cnt = MAXLEN;
	if (g_equal) ASSUME(g_n == g_m);
	c32scmp(A, B);
#elif defined(UNIT_NCMP)
	B = VP_MALLOC((g_m + 1) * sizeof *B); B[g_m] = 0; lenB(0);
	c32sncmp(A, B, g_cnt);
#elif defined(UNIT_CHR)
	c32schr(A, g_c);
#elif defined(UNIT_NCPY)
	ASSUME(g_cnt > 0); D = VP_MALLOC(g_cnt * sizeof *D);
	c32sncpy(D, A, g_cnt);
#elif defined(UNIT_DUP)
	g_alloc = 1; g_cnt = g_n + 1; D = VP_MALLOC((g_n + 1) * sizeof *D);
	c32sdup(A);
#elif defined(UNIT_RSTR)
	M = VP_MALLOC(g_n + 1); N = VP_MALLOC(g_m + 1);  /* contents do not matter: the comparison is by contract */
	g_bytes = g_m;
	strrstr(M, N);
#elif defined(UNIT_TOMBS)
	g_alloc = 2; M = VP_MALLOC((g_n + 1) * 6); ASSUME(GO[0] == 0); enc(0); if (G_w < g_n) enc(G_w); enc(g_n);
	c32stombs(A, vp_bool() ? &loc : NULL);
#elif defined(UNIT_FROMMBS)
	g_alloc = 1; g_bytes = (size_t)vp_below(6 * MAXLEN); ASSUME(g_n <= g_bytes); D = VP_MALLOC((g_bytes + 1) * sizeof *D); N = VP_MALLOC(g_bytes + 1); N[g_bytes] = 0; ASSUME(GO[0] == 0); ends(0); ends(g_n);
	mbstoc32s(N);
#endif
	REACH("the checked function returns");
}
#endif
