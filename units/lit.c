/* C09: the values of literals.  The real skull/semantic/types.c (eval_*) and
 * c32sunescape of skull/common/str.c. */
#ifdef VP_CBMC
#define SEM_REAL_TYPES
#include "sem.h"
#include <errno.h>
#include <limits.h>
#include <math.h>
#define INF __CPROVER_constant_infinity_uint

static Token S_tok; static char S_num[16]; static int vp_errno;
#undef errno
#define errno vp_errno
#include "skull/common/malloc.h"

#ifdef UNIT_UNESC
#define Malloc(n) ((void *)0)
#define Realloc(p, n) ((void *)0)
#include "loops.h"
#include "skull/common/str.c"
static bool hex(char32_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned digit(char32_t c) { return c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
void harness(void) {
	static char32_t T[14]; for (unsigned k = 0; k < 14; k++) T[k] = (char32_t)vp_nd();
	const char32_t *p = T, *err = NULL;
	bool esc = T[0] == '\\'; char32_t e = T[1];
	unsigned d = 0; uint32_t v = 0; for (; d < 8 && hex(T[2 + d]); d++) v = v * 16 + digit(T[2 + d]);
	bool simple = e == '\\' || e == '"' || e == '\'' || e == '0' || e == 'e' || e == 't' || e == 'r' || e == 'n';
	char32_t got = c32sunescape(&p, &err);
	if (!esc) { CHECK(got == T[0] && p == T && !err, "a character stands for itself"); }
	else if (simple) {
		CHECK(p == T + 1 && !err, "a simple escape has two characters");
		CHECK(got == (e == '0' ? 0u : e == 'e' ? 27u : e == 't' ? 9u : e == 'r' ? 13u : e == 'n' ? 10u : e), "value of a simple escape");
	} else if (e == 'x' && d > 0) { CHECK(got == v && p == T + 1 + d && !err, "a hexadecimal escape has one to eight digits"); }
	else { CHECK(err && p == T && err[0] == '\\' && err[1] == e, "any other escape is an error"); }
	REACH("the checked function returns");
}
#else

static char32_t *T; static size_t g_len;
static int64_t g_val; static double g_fval; static bool g_over; static unsigned g_nstrip; static int g_base; static char32_t g_c; static bool g_bad, g_ill, g_enc; static unsigned g_adv; static size_t g_alloc, g_nfree;
#define HASBASE (T[0] == '0' && (T[1] == 'b' || T[1] == 'o' || T[1] == 'x'))
char *token_to_mbs_str(const Token *t) {
#ifdef UNIT_INT
	CHECK(t->begin == T + (HASBASE ? 2 : 0) && t->len >= g_len - (HASBASE ? 2 : 0), "the digits are read from after the base prefix");
#elif defined(UNIT_FLOAT)
	CHECK(t == &S_tok, "the token");
#endif
	return S_num;
}
static bool g_kind_inf, g_kind_ninf, g_kind_nan;
bool token_cmp(const char32_t *s, const Token *t) { CHECK(t == &S_tok, "the token"); return s[0] == 'I' ? g_kind_inf : s[0] == '-' ? g_kind_ninf : g_kind_nan; }
static long long vp_strtoll(const char *s, char **e, int base) { CHECK(s == S_num && !e && g_nstrip == 1, "the number without its underscores"); g_base = base; if (g_over) vp_errno = ERANGE; return g_val; }
static double vp_strtod(const char *s, char **e) { CHECK(s == S_num && !e && g_nstrip == 1, "the number without its underscores"); if (g_over) vp_errno = ERANGE; return g_fval; }
#define strtoll vp_strtoll
#define strtod vp_strtod
#include <ctype.h>
#undef iscntrl
#define iscntrl(c) ((c) < 32 || (c) == 127)
/* ---- escapes by contract (unit lit_unesc): at position k stands character
 * GV[k], and the next one begins at GN[k]; GB[k]: no valid escape */
static char32_t GV[INF]; static size_t GN[INF]; static bool GB[INF]; static const char32_t S_err[4];
static size_t P[INF], G_w, g_calls;   /* P[i]: where character i begins */
#define IX(p) (__CPROVER_POINTER_OFFSET(p) / sizeof(char32_t))
char32_t c32sunescape(const char32_t **s, const char32_t **err) {
	size_t k = IX(*s); CHECK(__CPROVER_same_object(*s, T) && k < g_len, "inside the literal");
	if (GB[k]) { *err = S_err; return 0; }
	*s = T + (GN[k] - 1); return GV[k];
}
static size_t vp_c32rtomb(char *b, char32_t c, mbstate_t *m) { (void)b; (void)m; CHECK(c == GV[1], "the value of the rune"); if (g_ill) { vp_errno = EILSEQ; return (size_t)-1; } return 1; }
#define c32rtomb vp_c32rtomb
static char32_t *D; static size_t g_size;
static void *vp_malloc(size_t n) { CHECK(n == g_size, "room for every character and the end"); return D; }
static void *vp_realloc(void *p, size_t n) { CHECK(p == D && n <= g_size, "the block is only shrunk"); g_alloc = n; return p; }
#define Malloc(n) vp_malloc(n)
#define Realloc(p, n) vp_realloc(p, n)
#define Calloc(n, s) ((void *)0)
#define free(p) (g_nfree++)
HashTable *make_ht(void) { return NULL; }
void *ht_get(const HashTable *const h, const char *const k) { (void)h; (void)k; return NULL; }
bool ht_add(HashTable *const h, const char *const k, void *const p) { (void)h; (void)k; (void)p; return true; }
Symbol *scope_find_name(const Scope *const s, char *n) { (void)s; (void)n; return NULL; }
bool scope_add_symbol(SemanticState *s, Symbol *y) { (void)s; (void)y; return true; }
/* where the characters of the literal begin (definition of P, GN) */
static bool chars(size_t i) {
	if (i < g_len) { ASSUME(P[i] >= 1 + i); if (P[i] < g_len - 1) { ASSUME(GN[P[i]] > P[i] && GN[P[i]] <= g_len - 1 && P[i + 1] == GN[P[i]] && T[P[i]] != 0); } }
	return true;
}
static bool vp_pin(const char32_t **s, size_t w) { size_t k = P[w]; CHECK(*s == T + k, "PIN: the pointer is the expected one"); *s = T + k; return true; }
#define LOOP_CONTRACT_eval_str(str, wrote) ASSIGNS(str, wrote, __CPROVER_object_whole(D), GHOST_MSG, g_nfree) \
	INVARIANT(__CPROVER_same_object(str, T) && __CPROVER_POINTER_OFFSET(str) % sizeof *T == 0 && IX(str) <= g_len - 1 && wrote < g_len - 1 && IX(str) == P[wrote] && P[wrote] >= 1 + wrote && g_errs == 0 && g_nfree == 0) \
	INVARIANT(IX(str) < g_len - 1 ==> T[IX(str)] != 0) \
	INVARIANT(G_w < wrote ==> !GB[P[G_w]] && D[G_w] == GV[P[G_w]] && P[G_w] < g_len - 1) DECREASES(g_len - IX(str)) if (chars(wrote) && chars(wrote + 1) && vp_pin(&str, wrote))
#include "loops.h"
#include "skull/semantic/types.c"

#ifdef UNIT_STRIP
void harness(void) {
	enum { N = 12 }; static char s[N + 1], o[N + 1];
	unsigned n = (unsigned)vp_below(N + 1); char c = vp_bool() ? '.' : 0; bool dot = false; unsigned m = 0;
	for (unsigned k = 0; k < N; k++) {
		s[k] = k < n ? (char)vp_nd() : 0; if (k < n) ASSUME(s[k] != 0);
		if (k < n && c && s[k] == c) dot = true;
		/* what the classifier lets through: underscores only between digits, before the dot */
		if (k < n && s[k] == '_') ASSUME(!dot && k > 0 && s[k - 1] != '_');
		if (k > 0 && s[k - 1] == '_') ASSUME(k < n && s[k] != '_' && s[k] != c);
		if (k < n && s[k] != '_') o[m++] = s[k];
	}
	ASSUME(n == 0 || s[n - 1] != '_');
	s[N] = 0; o[m] = 0;
	strip_underscore_num(s, c);
	unsigned w = (unsigned)vp_below(N + 1);
	if (w <= m) CHECK(s[w] == o[w], "exactly the underscores are removed");
	REACH("the checked function returns");
}
#else
#ifndef UNIT_STRIP
static void strip_underscore_num(char *str, char c)
REQUIRES(str == S_num && (c == 0 || c == '.')) ASSIGNS(g_nstrip) ENSURES(g_nstrip == 1) ;
#endif
int64_t eval_integer(const Token *const token, bool *err)
REQUIRES(token == &S_tok && !*err && g_errs == 0 && g_nstrip == 0)
ASSIGNS(*err, GHOST_MSG, g_nstrip, g_base, vp_errno, g_nfree)
ENSURES(g_base == (HASBASE ? (T[1] == 'b' ? 2 : T[1] == 'o' ? 8 : 16) : 10))
ENSURES(*err == g_over && g_errs == (g_over ? 1 : 0))
ENSURES(!g_over ==> RET == g_val) ;
double eval_float(const Token *const token, bool *err)
REQUIRES(token == &S_tok && !*err && g_errs == 0 && g_nstrip == 0)
ASSIGNS(*err, GHOST_MSG, g_nstrip, vp_errno, g_nfree)
ENSURES(g_kind_inf ==> RET == (double)INFINITY && !*err)
ENSURES(g_kind_ninf ==> RET == -(double)INFINITY && !*err)
ENSURES(g_kind_nan ==> RET != RET && !*err)
ENSURES(!g_kind_inf && !g_kind_ninf && !g_kind_nan ==> *err == g_over && g_errs == (g_over ? 1 : 0) && (!g_over ==> RET == g_fval)) ;
bool eval_bool(const Token *const token) ASSIGNS() ENSURES(RET == (T[0] == 't')) ;
#define CNTRL (T[1] < 32 || T[1] == 127)
#define RUNE_OK (!CNTRL && !GB[1] && T[GN[1]] == '\'' && !g_ill)
/* a rune is one character, possibly escaped, that can be encoded */
char32_t eval_rune(const Token *const token, bool *err)
REQUIRES(token == &S_tok && !*err && g_errs == 0)
ASSIGNS(*err, GHOST_MSG, vp_errno)
ENSURES(*err == !RUNE_OK && g_errs == (RUNE_OK ? 0 : 1))
ENSURES(RUNE_OK ==> RET == GV[1]) ;
/* a string is its characters, unescaped; one bad escape is an error */
char32_t *eval_str(const Token *const token)
REQUIRES(token == &S_tok && g_errs == 0 && g_nfree == 0)
ASSIGNS(GHOST_MSG, g_nfree, g_alloc, __CPROVER_object_whole(D))
ENSURES(RET ==> RET == D && g_errs == 0 && g_alloc % sizeof *D == 0 && g_alloc > 0 && D[g_alloc / sizeof *D - 1] == 0 && P[g_alloc / sizeof *D - 1] == g_len - 1)
ENSURES(RET && G_w < g_alloc / sizeof *D - 1 ==> !GB[P[G_w]] && D[G_w] == GV[P[G_w]])
ENSURES(!RET ==> g_errs == 1 && g_nfree == 1) ;

void harness(void) {
	bool err = false;
	init_types();
	g_len = (size_t)vp_range(2, 1ul << 20); T = VP_MALLOC((g_len + 3) * sizeof *T);
	S_tok.begin = T; S_tok.len = (unsigned)g_len; g_nstrip = 0; g_nfree = 0; g_over = vp_bool(); g_ill = vp_bool(); g_val = (int64_t)vp_nd(); G_w = (size_t)vp_nd();
#if defined(UNIT_INT)
	if (g_over) g_val = vp_bool() ? LLONG_MAX : LLONG_MIN;
	eval_integer(&S_tok, &err);
#elif defined(UNIT_FLOAT)
	unsigned k = (unsigned)vp_below(4); g_kind_inf = k == 1; g_kind_ninf = k == 2; g_kind_nan = k == 3; ASSUME(g_fval == g_fval);
	eval_float(&S_tok, &err);
#elif defined(UNIT_BOOL)
	bool t = vp_bool(); static const char32_t tr[] = U"true", fa[] = U"false"; S_tok.len = t ? 4 : 5;
	ASSUME(g_len >= 5); for (unsigned j = 0; j < 4; j++) ASSUME(T[j] == (t ? tr[j] : fa[j]));
	eval_bool(&S_tok);
#elif defined(UNIT_RUNE)
	/* the classifier guarantees the quotes */
	ASSUME(g_len >= 3 && T[0] == '\'' && GN[1] >= 2 && GN[1] <= g_len && (GB[1] || GN[1] < g_len));
	eval_rune(&S_tok, &err);
#elif defined(UNIT_STR)
	ASSUME(P[0] == 1); g_size = (g_len - 1) * sizeof *D; D = VP_MALLOC(g_size); chars(0); chars(1);
	eval_str(&S_tok);
#endif
	REACH("the checked function returns");
}
#endif
#endif
#endif
