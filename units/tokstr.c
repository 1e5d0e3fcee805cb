/* Text of a token (skull/parse/token.c): token_cmp, token_to_string,
 * token_to_mbs_str, over the contracts proved for the text primitives. */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/common/str.h"
#include "skull/parse/token.h"
uint64_t vp_in;
static size_t g_m, G_w; static char32_t *T, *D, S_word[2]; static char S_mbs[2]; static Token S_tok; static bool g_same, g_encodes; static size_t g_malloced; static unsigned g_nfree;
#include "skull/common/malloc.h"
static void *vp_malloc(size_t n) { g_malloced = n; return D; }
static void vp_free(void *p) { CHECK(p == D, "the copy is freed"); g_nfree++; }
#define Malloc(n) vp_malloc(n)
#define free(p) vp_free(p)
size_t c32slen(const char32_t *s) { CHECK(s == S_word, "the length of the word"); return g_m; }
bool c32sncmp(const char32_t *a, const char32_t *b, size_t n) { CHECK((a == S_word && b == T) || (a == T && b == S_word), "word and token"); CHECK(n == S_tok.len && g_m == n, "all of the token, no more"); return g_same; }
/* proved in str_ncpy (the text of the token has no end mark in it) */
void c32sncpy(char32_t *d, const char32_t *s, size_t n) {
	CHECK(d == D && s == T && n * sizeof *D <= g_malloced && n >= S_tok.len, "the whole token is copied, into room for it");
	if (G_w < n) D[G_w] = T[G_w];
}
char *c32stombs(const char32_t *s, const Location *l) { CHECK(s == D && D[S_tok.len] == 0 && (G_w < S_tok.len ? D[G_w] == T[G_w] : true), "the text of the token"); CHECK(l == &S_tok.location, "its place"); CHECK(!g_nfree, "still there"); return g_encodes ? S_mbs : NULL; }
#include "loops.h"
#include "skull/parse/token.c"
#undef free
bool token_cmp(const char32_t *str, const Token *token) REQUIRES(str == S_word && token == &S_tok) ASSIGNS() ENSURES(RET == (g_m == S_tok.len && g_same)) ;
char32_t *token_to_string(const Token *token) REQUIRES(token == &S_tok) ASSIGNS(__CPROVER_object_whole(D), g_malloced)
ENSURES(RET == D && g_malloced >= ((size_t)S_tok.len + 1) * sizeof *D && D[S_tok.len] == 0 && (G_w < S_tok.len ==> D[G_w] == T[G_w])) ;
char *token_to_mbs_str(const Token *token) REQUIRES(token == &S_tok && g_nfree == 0) ASSIGNS(__CPROVER_object_whole(D), g_malloced, g_nfree) ENSURES(RET == (g_encodes ? S_mbs : NULL) && g_nfree == 1) ;
void harness(void) {
	size_t n = (size_t)vp_below(1ul << 24); g_m = (size_t)vp_below(1ul << 24); G_w = (size_t)vp_below(1ul << 24); g_same = vp_bool(); g_encodes = vp_bool(); g_nfree = 0;
	T = VP_MALLOC((n + 1) * sizeof *T); D = VP_MALLOC((n + 1) * sizeof *D); S_tok.begin = T; S_tok.len = (unsigned)n;
#if defined(UNIT_CMP)
	token_cmp(S_word, &S_tok);
#elif defined(UNIT_STRING)
	token_to_string(&S_tok);
#else
	token_to_mbs_str(&S_tok);
#endif
	REACH("the checked function returns");
}
#endif
