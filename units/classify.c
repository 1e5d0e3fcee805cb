/* C08: token classes.  The real skull/parse/classify.c.
 * The text T has g_n characters.  What a number or identifier looks like is
 * given by a finite automaton: GQ[k] is its state after k characters (defined
 * by GQ[k+1] = step(GQ[k], T[k]), instances of which are assumed where needed;
 * that a dead state stays dead is the lemma of unit cls_dead). */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/common/str.h"
#include "skull/parse/classify.h"
#include "skull/parse/token.h"
#include "skull/semantic/types.h"
uint64_t vp_in;
#define INF __CPROVER_constant_infinity_uint
static size_t g_n; static char32_t *T, S_str[2], *S_buf; static Token S_tok; static unsigned char GQ[INF];
#define DEAD 14
static bool digit(char32_t c) { return c >= '0' && c <= '9'; }
static bool hexd(char32_t c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool alpha(char32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
#if defined(UNIT_INT) || defined(UNIT_INT_)
static unsigned char step(unsigned char q, char32_t c) {
	switch (q) {
		case 0: return c == '-' ? 1 : c == '0' ? 2 : digit(c) ? 3 : DEAD;
		case 1: return digit(c) ? 3 : DEAD;
		case 2: return c == 'x' ? 5 : c == 'b' ? 8 : c == 'o' ? 11 : digit(c) ? 3 : DEAD;
		case 3: return digit(c) ? 3 : c == '_' ? 4 : DEAD;
		case 4: return digit(c) ? 3 : DEAD;
		case 5: case 7: return hexd(c) ? 6 : DEAD;
		case 6: return hexd(c) ? 6 : c == '_' ? 7 : DEAD;
		case 8: case 10: return c == '0' || c == '1' ? 9 : DEAD;
		case 9: return c == '0' || c == '1' ? 9 : c == '_' ? 10 : DEAD;
		case 11: case 13: return c >= '0' && c <= '7' ? 12 : DEAD;
		case 12: return c >= '0' && c <= '7' ? 12 : c == '_' ? 13 : DEAD;
		default: return DEAD;
	}
}
#define ACCEPT(q) ((q) == 2 || (q) == 3 || (q) == 6 || (q) == 9 || (q) == 12)
#elif defined(UNIT_FLOAT) || defined(UNIT_FLOAT_)
#define DG(c) ((c) >= '0' && (c) <= '9')
#define STEP(q, c) ((q) == 0 ? ((c) == '-' ? 1 : DG(c) ? 2 : DEAD) \
	: (q) == 1 || (q) == 3 ? (DG(c) ? 2 : DEAD) \
	: (q) == 2 ? (DG(c) ? 2 : (c) == '_' ? 3 : (c) == '.' ? 4 : DEAD) \
	: (q) == 4 || (q) == 5 ? (DG(c) ? 5 : DEAD) : DEAD)
static unsigned char step(unsigned char q, char32_t c) { return STEP(q, c); }
#define ACCEPT(q) ((q) == 5)
#else
static unsigned char step(unsigned char q, char32_t c) {
	switch (q) {
		case 0: return alpha(c) ? 1 : DEAD;
		case 1: case 2: return alpha(c) || digit(c) || c == '_' ? 1 : c == '.' ? 2 : c == ':' ? 3 : DEAD;
		default: return DEAD;
	}
}
#define ACCEPT(q) ((q) == 1 || (q) == 3)
#endif
static bool run(size_t k) {
	if (k <= g_n) { ASSUME((T[k] == 0) == (k == g_n)); ASSUME(GQ[k] <= DEAD); ASSUME(GQ[k] != DEAD || GQ[g_n] == DEAD); }
	if (k < g_n) ASSUME(GQ[k + 1] == step(GQ[k], T[k]));
	return true;
}
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
#define IX(p) (OFF(p) / sizeof(char32_t))
#define IN(p) (__CPROVER_same_object(p, T) && OFF(p) % sizeof *T == 0 && IX(p) <= g_n)
#define BASE (T[0] == '0' && g_n > 2 && !(T[1] >= '0' && T[1] <= '9'))
#define LOOP_STATE(k, und) (BASE ? ((k) == 2 ? (T[1] == 'x' ? 5 : T[1] == 'b' ? 8 : 11) : (T[1] == 'x' ? 6 : T[1] == 'b' ? 9 : 12) + ((und) ? 1 : 0)) \
	: (k) == 0 ? 0 : (k) == 1 && T[0] == '-' ? 1 : (k) == 1 && T[0] == '0' ? 2 : (und) ? 4 : 3)
#define AT(p) (IN(p) && (T[IX(p)] == 0) == (IX(p) == g_n))
#define LOOP_CONTRACT_digits(str, und) ASSIGNS(str, und) INVARIANT(AT(str) && IX(str) >= (BASE ? 2 : T[0] == '-' ? 1 : 0) && !(und) == !(IX(str) > 0 && T[IX(str) - 1] == '_') && GQ[IX(str)] == LOOP_STATE(IX(str), und)) \
	DECREASES(g_n - IX(str)) if (run(IX(str)) && run(IX(str) + 1))
#define FACT(k) ((k) > g_n || ((T[k] == 0) == ((k) == g_n) && GQ[k] <= DEAD && (GQ[k] != DEAD || GQ[g_n] == DEAD) && ((k) == g_n || GQ[(k) + 1] == STEP(GQ[k], T[k]))))
#ifdef UNIT_FLOAT
#define FACTS(k) (FACT(k) && FACT((k) + 1))
#else
#define FACTS(k) true
#endif
#define NEG (T[0] == '-' ? 1 : 0)
#define LOOP_CONTRACT_whole(str, und) ASSIGNS(str, und) INVARIANT(AT(str) && IX(str) >= NEG && !(und) == !(IX(str) > NEG && T[IX(str) - 1] == '_') && GQ[IX(str)] == (IX(str) == NEG ? NEG : (und) ? 3 : 2) && FACTS(IX(str))) \
	DECREASES(g_n - IX(str)) if (run(IX(str)) && run(IX(str) + 1) && run(IX(str) + 2) && run(IX(str) + 3))
#define LOOP_CONTRACT_fraction(str) ASSIGNS(str) INVARIANT(AT(str) && IX(str) >= 2 && (GQ[IX(str)] == 5 || (GQ[IX(str)] == 4 && IX(str) < g_n))) \
	DECREASES(g_n - IX(str)) if (run(IX(str)) && run(IX(str) + 1))
#define LOOP_CONTRACT_identifier(str) ASSIGNS(str) INVARIANT(AT(str) && IX(str) >= 1 && (GQ[IX(str)] == 1 || (GQ[IX(str)] == 2 && IX(str) < g_n))) \
	DECREASES(g_n - IX(str)) if (run(IX(str)) && run(IX(str) + 1) && run(IX(str) + 2))
static unsigned g_nodes, g_done; /* nodes seen by the loop, nodes classified */
#define LOOP_CONTRACT_classify(head) ASSIGNS(head, g_nodes, g_done, vp_in, S_tok) INVARIANT((head == NULL || head == &S_tok) && g_nodes == g_done) \
	if (PIN(head, &S_tok) && ({ g_nodes++; S_tok.next = vp_bool() ? &S_tok : NULL; true; }))

/* ---- what the pieces say, and who is asked */
static bool g_int, g_float, g_bool, g_rune, g_str, g_ident, g_dot, g_res, g_typ, g_nan, g_infinity; static TokenType g_want; static unsigned g_wantlen; static size_t g_nfree;
static bool spelled(const char32_t *s, const char32_t *t, size_t n) {
#define SP(k) if (!s[k]) return n == k; if (k >= n || s[k] != t[k]) return false;
	SP(0) SP(1) SP(2) SP(3) SP(4) SP(5) SP(6) SP(7) SP(8) SP(9) SP(10) SP(11) SP(12)
	return false;
}
bool token_cmp(const char32_t *s, const Token *t) { CHECK(t == &S_tok, "the token"); return spelled(s, T, g_n); }
char32_t *token_to_string(const Token *t) { CHECK(t == &S_tok, "the token"); return S_buf; }
const char32_t *c32schr(const char32_t *s, char32_t c) { CHECK(s == S_buf && c == '.', "a dot in the token"); return g_dot ? S_buf : NULL; }
size_t c32slen(const char32_t *s) { CHECK(s == T, "the text"); return g_n; }
bool c32scmp(const char32_t *a, const char32_t *b) {
#ifdef UNIT_FLOAT
	if (a[0] == 'N') { CHECK(b == T, "the whole text"); return g_nan; }
	CHECK(a[0] == 'I' && b == T + NEG, "the text after the sign"); return g_infinity;
#else
	return spelled(a, T, g_n);
#endif
}
bool c32isdigit(char32_t c) { return digit(c); }
bool c32isxdigit(char32_t c) { return hexd(c); }
bool c32isalnum(char32_t c) { return digit(c) || alpha(c); }
static char S_mbs[2]; static Type S_type;
char *c32stombs(const char32_t *s, const Location *l) { (void)s; (void)l; return S_mbs; }
const Type *find_builtin_type(const char *const n) { CHECK(n == S_mbs, "the name"); return g_typ ? &S_type : NULL; }
#define free(p) (g_nfree++)
#include "loops.h"
#include "skull/parse/classify.c"
#undef free

#define PRED(fn, g) static bool fn(const char32_t *const str) REQUIRES(str == S_buf) ASSIGNS() ENSURES(RET == g) ;
#ifdef UNIT_TOKEN
PRED(is_constant_integer_str, g_int) PRED(is_constant_float_str, g_float) PRED(is_constant_bool_str, g_bool) PRED(is_constant_rune_str, g_rune) PRED(is_constant_str_str, g_str)
bool is_valid_identifier_str(const char32_t *str) REQUIRES(str == S_buf) ASSIGNS() ENSURES(RET == g_ident) ;
/* asked for the name without its colon */
static bool is_reserved_str(const char32_t *const str) REQUIRES(str == S_buf && S_buf[g_n - 1] == 0) ASSIGNS() ENSURES(RET == g_res) ;
static bool is_type_str(const char32_t *const str) REQUIRES(str == S_buf && S_buf[g_n - 1] == 0) ASSIGNS() ENSURES(RET == g_typ) ;
static void classify_token(Token *const token)
REQUIRES(token == &S_tok)
ASSIGNS(S_tok.type, S_tok.len, g_nfree, __CPROVER_object_whole(S_buf))
ENSURES(S_tok.type == g_want && S_tok.len == g_wantlen && S_tok.begin == OLD(S_tok.begin)) ;
#elif defined(UNIT_LIST)
static void classify_token(Token *const token) REQUIRES(token == &S_tok) ASSIGNS(g_done, S_tok.type, S_tok.len) ENSURES(g_done == OLD(g_done) + 1) ;
void classify_tokens(Token *head) ASSIGNS(g_nodes, g_done, vp_in, S_tok) ENSURES(g_done == g_nodes) ;
#elif defined(UNIT_INT)
static bool is_constant_integer_str(const char32_t *const str) REQUIRES(str == T) ASSIGNS() ENSURES(RET == ACCEPT(GQ[g_n])) ;
#elif defined(UNIT_FLOAT)
static bool is_constant_float_str(const char32_t *const str) REQUIRES(str == T) ASSIGNS() ENSURES(RET == (g_nan || g_infinity || ACCEPT(GQ[g_n]))) ;
#elif defined(UNIT_IDENT)
bool is_valid_identifier_str(const char32_t *str) REQUIRES(str == T) ASSIGNS() ENSURES(RET == ACCEPT(GQ[g_n])) ;
#elif defined(UNIT_RUNE)
#define Q(k) (T[k] == '\'')
static bool is_constant_rune_str(const char32_t *const str) REQUIRES(str == T) ASSIGNS() ENSURES(RET == (Q(0) && Q(g_n - 1) && (g_n == 3 || (g_n >= 4 && g_n <= 12 && T[1] == '\\')))) ;
#elif defined(UNIT_STR)
static bool is_constant_str_str(const char32_t *const str) REQUIRES(str == T) ASSIGNS() ENSURES(RET == (g_n >= 2 && T[0] == '"' && T[g_n - 1] == '"')) ;
#endif

static const struct { const char *w; TokenType t; } WORDS[] = {
	{ "mut", TOKEN_KW_MUT }, { "return", TOKEN_KW_RETURN }, { "unreachable", TOKEN_KW_UNREACHABLE }, { "if", TOKEN_KW_IF }, { "elif", TOKEN_KW_ELIF },
	{ "else", TOKEN_KW_ELSE }, { "while", TOKEN_KW_WHILE }, { "external", TOKEN_KW_EXTERNAL }, { "export", TOKEN_KW_EXPORT }, { "noop", TOKEN_KW_NOOP },
	{ "break", TOKEN_KW_BREAK }, { "continue", TOKEN_KW_CONTINUE }, { "import", TOKEN_KW_IMPORT }, { "namespace", TOKEN_KW_NAMESPACE }, { "mod", TOKEN_OPER_MOD },
	{ "not", TOKEN_OPER_NOT }, { "is", TOKEN_OPER_IS }, { "isnt", TOKEN_OPER_ISNT }, { "and", TOKEN_OPER_AND }, { "or", TOKEN_OPER_OR }, { "xor", TOKEN_OPER_XOR },
#define NKEYWORDS 21
	{ ":=", TOKEN_OPER_AUTO_EQUAL }, { "<=", TOKEN_OPER_LESS_THAN_EQ }, { ">=", TOKEN_OPER_GTR_THAN_EQ }, { "<<", TOKEN_OPER_LSHIFT }, { ">>", TOKEN_OPER_RSHIFT },
	{ "=", TOKEN_OPER_EQUAL }, { "+", TOKEN_OPER_PLUS }, { "-", TOKEN_OPER_DASH }, { "*", TOKEN_OPER_STAR }, { "/", TOKEN_OPER_DIV }, { "<", TOKEN_OPER_LESS_THAN },
	{ ">", TOKEN_OPER_GTR_THAN }, { "^", TOKEN_OPER_POW },
};
enum { NWORDS = sizeof WORDS / sizeof *WORDS };
static bool is_word(const char *w) {
	for (unsigned k = 0; k < 13; k++) { if (!w[k]) return g_n == k; if (k >= g_n || (char32_t)w[k] != T[k]) return false; }
	return false;
}
void harness(void) {
	g_n = (size_t)vp_range(1, 1ul << 20); T = VP_MALLOC((g_n + 1) * sizeof *T);
	ASSUME(T[g_n] == 0);
#if !defined(UNIT_RESERVED) && !defined(UNIT_DEAD)
	run(0); run(1); run(2); run(3); run(g_n); ASSUME(GQ[0] == 0);
#elif defined(UNIT_RESERVED)
	for (size_t i = 0; i < 13; i++) if (i < g_n) ASSUME(T[i] != 0);
#endif
 g_nfree = 0; g_nodes = g_done = 0;
	g_int = vp_bool(); g_float = vp_bool(); g_bool = vp_bool(); g_rune = vp_bool(); g_str = vp_bool(); g_ident = vp_bool(); g_dot = vp_bool(); g_res = vp_bool(); g_typ = vp_bool();
#if defined(UNIT_TOKEN)
	S_buf = VP_MALLOC((g_n + 1) * sizeof *S_buf);
	S_tok.begin = vp_bool() ? T : NULL; S_tok.len = (unsigned)g_n; S_tok.type = vp_bool() ? TOKEN_UNKNOWN : (TokenType)vp_range(1, TOKEN_END);
	g_wantlen = S_tok.len;
	if (S_tok.type || !S_tok.begin) g_want = S_tok.type;
	else {
		bool word = false; TokenType t = TOKEN_UNKNOWN;
		for (unsigned i = 0; i < NWORDS; i++) if (!word && is_word(WORDS[i].w)) { word = true; t = WORDS[i].t; }
		if (word) g_want = t;
		else if (g_int) g_want = TOKEN_INT_CONST;
		else if (g_float) g_want = TOKEN_FLOAT_CONST;
		else if (g_bool) g_want = TOKEN_BOOL_CONST;
		else if (g_rune) g_want = TOKEN_RUNE_CONST;
		else if (g_str) g_want = TOKEN_STR_CONST;
		else if (!g_ident) g_want = TOKEN_UNKNOWN;
		else if (T[g_n - 1] != ':') g_want = g_dot ? TOKEN_DOT_IDENTIFIER : TOKEN_IDENTIFIER;
		else if (g_dot || g_res || g_typ) g_want = TOKEN_UNKNOWN;
		else { g_want = TOKEN_NEW_IDENTIFIER; g_wantlen--; }
	}
	classify_token(&S_tok);
#elif defined(UNIT_LIST)
	classify_tokens(vp_bool() ? &S_tok : NULL);
#elif defined(UNIT_INT)
	ASSUME(!(T[0] == '0' && T[1] == '_'));   /* not settled by the language */
	is_constant_integer_str(T);
#elif defined(UNIT_FLOAT)
	g_nan = vp_bool(); g_infinity = vp_bool();
	if (g_nan) ASSUME(T[0] == 'N' && GQ[g_n] == DEAD && !g_infinity);
	if (g_infinity) ASSUME((NEG ? T[1] : T[0]) == 'I' && GQ[g_n] == DEAD);
	is_constant_float_str(T);
#elif defined(UNIT_IDENT)
	is_valid_identifier_str(T);
#elif defined(UNIT_RUNE)
	is_constant_rune_str(T);
#elif defined(UNIT_STR)
	is_constant_str_str(T);
#elif defined(UNIT_RESERVED)
	bool r = is_word("Infinity") || is_word("NaN") || is_word("true") || is_word("false");
	for (unsigned i = 0; i < NKEYWORDS; i++) if (is_word(WORDS[i].w)) r = true;
	CHECK(is_reserved_str(T) == r, "the reserved words are exactly the keywords, the operators that are words, and the constants");
	CHECK(is_constant_bool_str(T) == (is_word("true") || is_word("false")), "the Bool constants");
	CHECK(is_type_str(T) == g_typ, "the names of the built-in types");
#elif defined(UNIT_DEAD)
	/* lemma: a dead state stays dead */
	unsigned char q = DEAD; CHECK(step(q, (char32_t)vp_nd()) == DEAD, "dead states stay dead");
#endif
	REACH("the checked function returns");
}
#endif
