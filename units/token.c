/* C07: the tokenizer.  The real skull/parse/token.c.
 *
 * The text is T[0..g_n], of arbitrary length, ended by a NUL.  GL/GC are the
 * true line and column of every character and GE says, for the quote that
 * starts at g_i, which characters are not the second half of an escape.  These
 * are defined by recurrences over the text; an instance of the recurrence is
 * assumed where it is needed (sound: it is their definition). */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/build_data.h"
#include "skull/common/errors.h"
#include "skull/parse/token.h"
uint64_t vp_in;
BuildData BUILD_DATA;
static size_t g_n, g_i, G_w;
#define TEXT_MAX (1ul << 24)
static char32_t *T;
#define INF __CPROVER_constant_infinity_uint
static unsigned GL[INF], GC[INF]; static bool GE[INF];
static unsigned g_errs, g_warns, g_eline, g_ecol; static bool g_eloc;
void fmt_message(ErrorType t, ErrorCode c, Message m[]) {
	(void)c;
	if (t == ERROR_FATAL) { if (g_errs < 1000) g_errs++; } else if (g_warns < 1000) g_warns++;
	g_eloc = m[0].loc != NULL;
	if (g_eloc) { g_eline = m[0].loc->line; g_ecol = m[0].loc->column; }
}
#define MSG g_errs, g_warns, g_eline, g_ecol, g_eloc
static Token S_tok, S_n1, S_n2; static unsigned g_nalloc;
static Token *vp_token(void) {
	CHECK(g_nalloc < 2, "at most two new tokens");
	if (g_nalloc++ == 0) { S_n1 = (Token){0}; return &S_n1; }
	S_n2 = (Token){0}; return &S_n2;
}
#include "skull/common/malloc.h"
#define Calloc(n, s) vp_token()
#define Malloc(n) ((void *)0)
static Token *g_freed;
#define free(p) (g_freed = (void *)(p))
char *c32stombs(const char32_t *s, const Location *l) { (void)s; (void)l; return NULL; }

static bool ghost(size_t k) {
	ASSUME(k > g_n || (T[k] == 0) == (k == g_n));
	if (k < g_n) {
		ASSUME(GL[k + 1] == (T[k] == '\n' ? GL[k] + 1 : GL[k]));
		ASSUME(GC[k + 1] == (T[k] == '\n' ? 1 : GC[k] + 1));
		ASSUME(GC[k] >= 1 && GC[k] <= k + 1 && GL[k] >= 1 && GL[k] <= k + 1);
	}
	return true;
}
#define QUOTE T[g_i]
static bool ghost_esc(size_t k) {
	if (k < g_n && k > g_i && GE[k]) {
		bool esc = T[k] == '\\' && k + 1 < g_n && (T[k + 1] == '\\' || T[k + 1] == QUOTE);
		ASSUME(GE[k + 1] == !esc);
		if (esc) ASSUME(GE[k + 2]);
	}
	return true;
}
/* the same as a predicate, where a caller needs the instance at an index that
 * the callee computes */
#define DEF(k) ((T[k] == 0) == ((k) == g_n) && ((k) < g_n ==> GL[(k) + 1] == (T[k] == '\n' ? GL[k] + 1 : GL[k]) && GC[(k) + 1] == (T[k] == '\n' ? 1 : GC[k] + 1)))
#define SOME(k) (ghost(k) && ghost((k) + 1) && ghost((k) + 2))
#define IDX(p) (__CPROVER_POINTER_OFFSET(p) / sizeof *T)
#define IN(p) (__CPROVER_same_object(p, T) && __CPROVER_POINTER_OFFSET(p) % sizeof *T == 0 && IDX(p) <= g_n)
#define WITHIN(p) (__CPROVER_pointer_in_range_dfcc(&T[0], p, &T[g_n]) && __CPROVER_POINTER_OFFSET(p) % sizeof *T == 0)
#define FRESH(w) (g_i < (w) && GE[w] && T[w] == QUOTE)

#define LOOP_CONTRACT_quote(ctx) ASSIGNS(ctx->code, ctx->column, ctx->line_num) \
	INVARIANT(IN(ctx->code) && g_i <= IDX(ctx->code) && IDX(ctx->code) < g_n && GE[IDX(ctx->code) + 1]) \
	INVARIANT(ctx->column == GC[IDX(ctx->code) + 1] - 1 && ctx->line_num == GL[IDX(ctx->code) + 1]) \
	INVARIANT(G_w <= IDX(ctx->code) ==> !FRESH(G_w)) \
	DECREASES(g_n - IDX(ctx->code)) \
	if (SOME(IDX(ctx->code)) && ghost_esc(IDX(ctx->code) + 1) && ghost_esc(IDX(ctx->code) + 2))
#define ENDS_LINE(w) (T[w] == '\n')
#define MARK(w) (T[w] == '#' && (T[(w) + 1] == '}' || T[(w) + 1] == '{'))
#define LOOP_CONTRACT_comment(ctx) ASSIGNS(ctx->code, ctx->column, ctx->line_num, MSG) \
	INVARIANT(IN(ctx->code) && g_i + 1 <= IDX(ctx->code) && IDX(ctx->code) < g_n && g_errs == 0) \
	INVARIANT(ctx->column == GC[IDX(ctx->code) + 1] - 1 && ctx->line_num == GL[IDX(ctx->code) + 1]) \
	INVARIANT(ctx->comment == LINE_COMMENT ==> !ENDS_LINE(IDX(ctx->code))) \
	INVARIANT(g_i + 2 <= G_w && G_w <= IDX(ctx->code) && ctx->comment == LINE_COMMENT ==> !ENDS_LINE(G_w)) \
	INVARIANT(g_i + 2 <= G_w && G_w <= IDX(ctx->code) && ctx->comment == BLOCK_COMMENT ==> !MARK(G_w)) \
	DECREASES(g_n - IDX(ctx->code)) \
	if (SOME(IDX(ctx->code)))
#ifdef UNIT_TOKENIZE
static bool g_moved; static size_t g_pos;
/* the token being read is the first one (S_n1) or, once that is complete, another (S_n2) after S_tok */
#define TOKEN_STATE(c) ((c).token == (g_moved ? &S_n2 : &S_n1) && (g_moved ==> (c).last == &S_tok && S_tok.next == &S_n2) && \
	CUR(len) == 0 && CUR(next) == NULL && (CUR(begin) == NULL || CUR(begin) == T))
#define CUR(f) (g_moved ? S_n2.f : S_n1.f)
enum { STEPS = 3 }; static unsigned g_steps;
#endif
#include "loops.h"
#include "skull/parse/token.c"

static TokenizeCtx S_ctx;
#define J IDX(S_ctx.code)
#define BEGUN (S_tok.begin != NULL)
#define IS_QUOTE(c) ((c) == '\'' || (c) == '"')
#define IS_WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\r' || (c) == '\n')
#define IS_DELIM(c) ((c) == '{' || (c) == '}' || (c) == '(' || (c) == ')' || (c) == ',' || (c) == '\n' || (c) == '&' || (c) == '*')
#define LINE_START (T[g_i + 1] == ' ' || T[g_i + 1] == '\t')
#define BLOCK_START (T[g_i + 1] == '{')
#define HERE(tok) ((tok).location.line == GL[g_i] && (tok).location.column == GC[g_i])
#define ERR_AT(k) (g_errs == 1 && g_eloc && g_eline == GL[k] && g_ecol == GC[k])

/* a quote ends with the first quote of the same kind that is not escaped; a
 * text without one is rejected, at the start of the token */
static bool iter_quote(TokenizeCtx *ctx)
REQUIRES(ctx == &S_ctx && S_ctx.token == &S_tok && IN(S_ctx.code) && J == g_i && g_i < g_n && IS_QUOTE(QUOTE))
REQUIRES(S_ctx.column == GC[g_i] && S_ctx.line_num == GL[g_i] && g_errs == 0)
ASSIGNS(S_ctx.code, S_ctx.column, S_ctx.line_num, S_tok.begin, S_tok.location, MSG)
ENSURES(WITHIN(S_ctx.code))
ENSURES(J > g_i && DEF(J))
ENSURES(!RET ==> J < g_n && FRESH(J) && S_ctx.column == GC[J] && S_ctx.line_num == GL[J] && g_errs == 0)
ENSURES(g_i < G_w && G_w < J ==> !FRESH(G_w))
ENSURES(RET ==> J == g_n && g_errs == 1 && g_eloc && g_eline == S_tok.location.line && g_ecol == S_tok.location.column)
ENSURES(OLD(S_tok.begin) == NULL ==> S_tok.begin == T + g_i && HERE(S_tok))
ENSURES(OLD(S_tok.begin) != NULL ==> S_tok.begin == OLD(S_tok.begin) && S_tok.location.line == OLD(S_tok.location.line) && S_tok.location.column == OLD(S_tok.location.column))
;
/* a line comment ends before the next newline (or with the text), a block
 * comment with the next #}; block comments do not nest, and have an end */
static bool iter_comment(TokenizeCtx *ctx)
REQUIRES(ctx == &S_ctx && S_ctx.token == &S_tok && IN(S_ctx.code) && J == g_i && g_i < g_n && T[g_i] == '#' && S_tok.begin == NULL)
REQUIRES(S_ctx.column == GC[g_i] && S_ctx.line_num == GL[g_i] && g_errs == 0)
ASSIGNS(S_ctx.code, S_ctx.column, S_ctx.line_num, S_ctx.comment, S_tok.begin, S_tok.location, S_tok.type, MSG)
ENSURES(WITHIN(S_ctx.code))
ENSURES(!LINE_START && !BLOCK_START ==> RET && ERR_AT(g_i))
ENSURES(LINE_START ==> !RET && g_errs == 0 && J > g_i)
ENSURES(LINE_START && G_w > g_i && G_w <= J && G_w < g_n ==> !ENDS_LINE(G_w))
ENSURES(LINE_START && J < g_n ==> J + 1 < g_n && ENDS_LINE(J + 1) && S_ctx.column == GC[J] && S_ctx.line_num == GL[J])
ENSURES(BLOCK_START ==> J > g_i + 1)
ENSURES(BLOCK_START && G_w >= g_i + 2 && G_w + 1 < J ==> !MARK(G_w))
ENSURES(BLOCK_START && !RET ==> J < g_n && J >= g_i + 3 && T[J] == '}' && T[J - 1] == '#' && S_ctx.column == GC[J] && S_ctx.line_num == GL[J] && g_errs == 0)
ENSURES(BLOCK_START && RET && J < g_n ==> J >= g_i + 3 && T[J] == '{' && T[J - 1] == '#' && g_errs == 1 && g_eloc && g_eline == GL[J])
ENSURES(BLOCK_START && RET && J == g_n ==> ERR_AT(g_i) && (G_w >= g_i + 2 && G_w < g_n ==> !MARK(G_w)))
ENSURES(!RET ==> S_tok.begin == T + g_i && HERE(S_tok) && S_tok.type == TOKEN_COMMENT && DEF(J))
;
#define DELIM_TOK(t) ((t).begin == T + g_i && (t).len == 1 && HERE(t) && (t).type == \
	(T[g_i] == '{' ? TOKEN_BRACKET_OPEN : T[g_i] == '}' ? TOKEN_BRACKET_CLOSE : T[g_i] == '(' ? TOKEN_PAREN_OPEN : T[g_i] == ')' ? TOKEN_PAREN_CLOSE : \
	 T[g_i] == ',' ? TOKEN_COMMA : T[g_i] == '\n' ? TOKEN_NEWLINE : T[g_i] == '&' ? TOKEN_OPER_REF : TOKEN_UNKNOWN))
#define BLANK(t) ((t).begin == NULL && (t).len == 0 && (t).type == TOKEN_UNKNOWN && (t).next == NULL)
#define SAME_TOK (S_tok.begin == OLD(S_tok.begin) && S_tok.location.line == OLD(S_tok.location.line) && S_tok.location.column == OLD(S_tok.location.column))
#define WAS_BEGUN (OLD(S_tok.begin) != NULL)
#define C0 (T[g_i])
#define PLAIN (C0 != '#' && !IS_QUOTE(C0))
#define SPAN(t) ((t).len == (unsigned)(g_i - IDX((t).begin)))
#ifndef UNIT_TOKENIZE
/* one step: delimiters are tokens of their own, whitespace ends a token, any
 * other character belongs to the token that is begun or begins one */
static bool tokenize_inner_loop(TokenizeCtx *ctx)
REQUIRES(ctx == &S_ctx && S_ctx.token == &S_tok && IN(S_ctx.code) && J == g_i && g_i < g_n && S_ctx.last != NULL)
REQUIRES(S_ctx.column == GC[g_i] - 1 && S_ctx.line_num == GL[g_i] && g_errs == 0 && g_nalloc == 0)
REQUIRES(S_tok.len == 0 && S_tok.next == NULL && (BEGUN ? IN(S_tok.begin) && IDX(S_tok.begin) < g_i : S_tok.type == TOKEN_UNKNOWN))
REQUIRES(T[g_i] == '#' ==> !BEGUN)
ASSIGNS(S_ctx, S_tok, S_n1, S_n2, g_nalloc, MSG)
ENSURES(PLAIN ==> !RET && IN(S_ctx.code) && J == g_i + 1 && g_errs == 0)
ENSURES(!RET && J < g_n ==> S_ctx.column == GC[J] - 1 && S_ctx.line_num == GL[J] && J > g_i)
ENSURES(RET ==> g_errs == 1)
ENSURES(!RET ==> g_errs == 0 && IN(S_ctx.code) && J > g_i && J <= g_n)
ENSURES(IS_DELIM(C0) && WAS_BEGUN ==> SAME_TOK && SPAN(S_tok) && S_tok.type == OLD(S_tok.type) && S_tok.next == &S_n1 && DELIM_TOK(S_n1) && S_ctx.last == &S_n1 && S_n1.next == &S_n2 && S_ctx.token == &S_n2 && BLANK(S_n2))
ENSURES(IS_DELIM(C0) && !WAS_BEGUN ==> DELIM_TOK(S_tok) && S_ctx.last == &S_tok && S_tok.next == &S_n1 && S_ctx.token == &S_n1 && BLANK(S_n1))
ENSURES(!IS_DELIM(C0) && IS_WS(C0) && WAS_BEGUN ==> SAME_TOK && SPAN(S_tok) && S_tok.type == OLD(S_tok.type) && S_tok.next == &S_n1 && S_ctx.last == &S_tok && S_ctx.token == &S_n1 && BLANK(S_n1))
ENSURES(!IS_DELIM(C0) && IS_WS(C0) && !WAS_BEGUN ==> S_ctx.token == &S_tok && BLANK(S_tok) && S_ctx.last == OLD(S_ctx.last))
ENSURES(!IS_DELIM(C0) && !IS_WS(C0) && !RET ==> S_ctx.token == &S_tok && S_tok.len == 0 && S_tok.next == NULL && S_ctx.last == OLD(S_ctx.last))
ENSURES(!IS_DELIM(C0) && !IS_WS(C0) && !RET && WAS_BEGUN ==> SAME_TOK && S_tok.type == OLD(S_tok.type))
ENSURES(!IS_DELIM(C0) && !IS_WS(C0) && !RET && !WAS_BEGUN ==> S_tok.begin == T + g_i && HERE(S_tok) && S_tok.type == (C0 == '#' ? TOKEN_COMMENT : TOKEN_UNKNOWN))
/* where quotes and comments end */
ENSURES(IS_QUOTE(C0) && !RET ==> FRESH(J - 1))
ENSURES(IS_QUOTE(C0) && g_i < G_w && G_w < J - 1 ==> !FRESH(G_w))
ENSURES(C0 == '#' && LINE_START ==> !RET && (J < g_n ==> ENDS_LINE(J)) && (G_w > g_i && G_w < J ==> !ENDS_LINE(G_w)))
ENSURES(C0 == '#' && BLOCK_START && !RET ==> J >= g_i + 4 && T[J - 1] == '}' && T[J - 2] == '#' && (G_w >= g_i + 2 && G_w + 2 < J ==> !MARK(G_w)))
ENSURES(C0 == '#' && !LINE_START && !BLOCK_START ==> RET && ERR_AT(g_i))
;
#endif

#ifdef UNIT_TOKENIZE
static bool tokenize_inner_loop(TokenizeCtx *ctx)
REQUIRES(IN(ctx->code) && IDX(ctx->code) < g_n && IDX(ctx->code) == g_pos && ctx->column == GC[g_pos] - 1 && ctx->line_num == GL[g_pos] && g_errs == 0)
REQUIRES(TOKEN_STATE(*ctx))
ASSIGNS(*ctx, S_tok, S_n1, S_n2, g_moved, g_pos, g_steps, g_errs)
ENSURES(WITHIN(ctx->code))
ENSURES(g_steps == OLD(g_steps) + 1 && (g_steps >= STEPS ==> RET || IDX(ctx->code) == g_n))
ENSURES(__CPROVER_pointer_equals(ctx->token, g_moved ? &S_n2 : &S_n1))
ENSURES(__CPROVER_pointer_equals(ctx->last, &S_tok))
ENSURES(__CPROVER_pointer_equals(S_tok.next, &S_n2))
ENSURES(OLD(g_moved) ==> g_moved)
ENSURES(g_errs == (RET ? 1 : 0))
ENSURES(!RET ==> TOKEN_STATE(*ctx) && g_pos == IDX(ctx->code) && g_pos > OLD(g_pos) && DEF(g_pos) && (g_pos < g_n ==> ctx->column == GC[g_pos] - 1 && ctx->line_num == GL[g_pos]))
;
void free_tokens(Token *head) REQUIRES(true) ASSIGNS() ENSURES(true);
#define BOM (T[0] == 0xFEFF)
/* the whole text is read, from its first character at line 1 column 1; the
 * last token ends with the text; an error rejects the text */
Token *tokenize(const char32_t *code)
REQUIRES(code == T)
ASSIGNS(S_tok, S_n1, S_n2, g_moved, g_pos, g_steps, g_nalloc, g_freed, MSG)
ENSURES(RET == NULL || RET == &S_n1)
ENSURES(RET == NULL ==> g_errs == 1 || (BOM && g_warns == 1 && BUILD_DATA.werror))
ENSURES(BOM && BUILD_DATA.werror ==> RET == NULL)
ENSURES(RET ==> g_errs == 0 && g_pos == g_n && g_warns == (BOM ? 1 : 0))
ENSURES(RET && (g_moved ? S_n2.begin : S_n1.begin) ==> (g_moved ? S_n2.len : S_n1.len) == g_n && (g_moved ==> S_tok.next == &S_n2))
ENSURES(RET && g_moved && S_n2.begin == NULL ==> S_tok.next == NULL && g_freed == &S_n2)
;
#endif
static void text(void) {
	g_n = (size_t)vp_range(1, TEXT_MAX); g_i = (size_t)vp_below(g_n); G_w = (size_t)vp_below(g_n);
	T = VP_MALLOC((g_n + 4) * sizeof *T);

	SOME(g_i); ASSUME(T[g_n] == 0); if (g_i + 1 <= g_n) ASSUME(GE[g_i + 1]);
	ghost(G_w); ghost(G_w + 1);
	g_errs = g_warns = g_nalloc = 0; S_ctx.token = &S_tok; S_ctx.last = vp_bool() ? &S_tok : &S_n2; S_ctx.code = T + g_i;
	S_ctx.line_num = GL[g_i];
}
void harness(void) {
	text();
#if defined(UNIT_QUOTE)
	S_ctx.column = GC[g_i]; S_tok.begin = vp_bool() ? T : NULL; ghost_esc(g_i + 1);
	iter_quote(&S_ctx);
#elif defined(UNIT_COMMENT)
	S_ctx.column = GC[g_i]; S_tok.begin = NULL;
	iter_comment(&S_ctx);
#elif defined(UNIT_STEP)
	S_ctx.column = GC[g_i] - 1; S_tok.begin = vp_bool() ? T + vp_below(g_n) : NULL; S_tok.len = 0; S_tok.next = NULL;
	S_tok.type = BEGUN && vp_bool() ? TOKEN_COMMENT : TOKEN_UNKNOWN;
	tokenize_inner_loop(&S_ctx);
#endif
#ifdef UNIT_TOKENIZE
	g_moved = false; g_steps = 0; g_pos = BOM ? 1 : 0; ghost(0); ghost(1); ghost(2); ASSUME(GL[g_pos] == 1 && GC[g_pos] == 1); BUILD_DATA.werror = vp_bool();
	tokenize(T);
#endif
	REACH("the checked function returns");
}
#endif
