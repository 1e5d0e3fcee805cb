/* C10: the tree built for an expression.  The real skull/parse/ast_node.c.
 *
 * An expression covers the tokens at positions lo..hi-1 (ghost: the position
 * of a token is kept in the field location.line of the summary tokens, which
 * the code only passes on to messages) and has a level: the binding level of
 * the operator at its root, 0 for operands.  A tree is right if every binary
 * node joins what is left and right of its operator, with a left side of at
 * most its level and a right side of less; together with "an expression is
 * followed by no operator of its level or less" this determines the tree. */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/common/errors.h"
#include "skull/common/vector.h"
#include "skull/parse/ast_node.h"
uint64_t vp_in;
#define PE(p, q) __CPROVER_pointer_equals(p, q)
static unsigned g_errs, g_freed, g_allocs; static AstNodeExpr *g_freed_expr;
void fmt_message(ErrorType t, ErrorCode c, Message m[]) { (void)c; (void)m; if (t == ERROR_FATAL && g_errs < 100) g_errs++; }
/* the binding level of a binary operator, 0: the token is none; UNARY: a token that can only begin an operand */
#define LEVEL(t) ((t) == TOKEN_OPER_POW ? 2 : (t) == TOKEN_OPER_STAR || (t) == TOKEN_OPER_DIV || (t) == TOKEN_OPER_MOD ? 4 \
	: (t) == TOKEN_OPER_PLUS || (t) == TOKEN_OPER_DASH ? 5 \
	: (t) == TOKEN_OPER_AND || (t) == TOKEN_OPER_OR || (t) == TOKEN_OPER_XOR || (t) == TOKEN_OPER_LSHIFT || (t) == TOKEN_OPER_RSHIFT ? 6 \
	: (t) == TOKEN_OPER_IS || (t) == TOKEN_OPER_ISNT || (t) == TOKEN_OPER_LESS_THAN || (t) == TOKEN_OPER_GTR_THAN || (t) == TOKEN_OPER_LESS_THAN_EQ || (t) == TOKEN_OPER_GTR_THAN_EQ ? 7 : 0)
#define UNARY(t) ((t) == TOKEN_OPER_DASH || (t) == TOKEN_OPER_STAR || (t) == TOKEN_OPER_NOT || (t) == TOKEN_OPER_REF)
#define ONLY_UNARY(t) ((t) == TOKEN_OPER_NOT || (t) == TOKEN_OPER_REF)
#define NAME(t) ((t) == TOKEN_IDENTIFIER || (t) == TOKEN_DOT_IDENTIFIER)
#define CONSTANT(t) ((t) == TOKEN_INT_CONST || (t) == TOKEN_FLOAT_CONST || (t) == TOKEN_BOOL_CONST || (t) == TOKEN_RUNE_CONST || (t) == TOKEN_STR_CONST)
#define BINARY(t) ((t) == TOKEN_OPER_PLUS ? EXPR_ADD : (t) == TOKEN_OPER_DASH ? EXPR_SUB : (t) == TOKEN_OPER_STAR ? EXPR_MULT : (t) == TOKEN_OPER_DIV ? EXPR_DIV : (t) == TOKEN_OPER_MOD ? EXPR_MOD \
	: (t) == TOKEN_OPER_LSHIFT ? EXPR_LSHIFT : (t) == TOKEN_OPER_RSHIFT ? EXPR_RSHIFT : (t) == TOKEN_OPER_POW ? EXPR_POW : (t) == TOKEN_OPER_IS ? EXPR_IS : (t) == TOKEN_OPER_ISNT ? EXPR_ISNT \
	: (t) == TOKEN_OPER_LESS_THAN ? EXPR_LESS_THAN : (t) == TOKEN_OPER_GTR_THAN ? EXPR_GTR_THAN : (t) == TOKEN_OPER_LESS_THAN_EQ ? EXPR_LESS_THAN_EQ : (t) == TOKEN_OPER_GTR_THAN_EQ ? EXPR_GTR_THAN_EQ \
	: (t) == TOKEN_OPER_AND ? EXPR_AND : (t) == TOKEN_OPER_OR ? EXPR_OR : (t) == TOKEN_OPER_XOR ? EXPR_XOR : EXPR_UNKNOWN)
#define PREFIX(t) ((t) == TOKEN_OPER_DASH ? EXPR_UNARY_NEG : (t) == TOKEN_OPER_STAR ? EXPR_DEREF : (t) == TOKEN_OPER_NOT ? EXPR_NOT : EXPR_REF)

static Token S_t0, S_t1, S_after; static AstNodeExpr S_a, S_b, S_sub, S_new; static AstNodeFunctionCall S_call;
static unsigned g_end;                      /* position of the end of the tokens */
#define POS(t) ((t) ? (t)->location.line : g_end)
/* what the callee makes of the tokens it is given (chosen beforehand) */
static bool g_have, g_err; static Token *g_next; static unsigned g_sublevel, g_max;
#define FOLLOWS(t, max) (!(t) || (!(LEVEL((t)->type) && LEVEL((t)->type) <= (max)) && !ONLY_UNARY((t)->type)))

#include "skull/common/malloc.h"
static void *vp_new(size_t n) { if (n == sizeof(AstNodeFunctionCall)) return &S_call; CHECK(n == sizeof(AstNodeExpr), "a node"); g_allocs++; return &S_new; }
#define Malloc(n) vp_new(n)
#define Calloc(n, m) vp_new((n) * (m))

#if defined(UNIT_UPTO)
/* here the level of a token is kept in location.column (the function itself looks at no token): STRAY for one that can only be a prefix operator */
#define STRAY 100
#define LV(t) ((t)->location.column)
#undef FOLLOWS
#define FOLLOWS(t, max) (!(t) || (LV(t) != STRAY && (LV(t) == 0 || LV(t) > (max))))
/* the tree so far: it covers g_start..g_hi-1 and has level g_level */
static unsigned g_start, g_hi, g_level; static bool g_any; static AstNodeExpr *g_cur;
/* what the next step finds: an operator to take (g_takes), a stray prefix operator, or neither; and what follows its right side */
static bool g_takes, g_stray, g_more; static unsigned g_tt, g_ntype, g_npos;
static bool choose(AstNodeExpr *cur, const Token *t) {
	g_cur = cur; g_tt = t ? LV(t) : 0; g_takes = g_tt && g_tt <= g_max; g_stray = g_tt == STRAY; g_err = vp_bool();
	g_more = vp_bool(); g_ntype = (unsigned)vp_below(8); if (vp_bool()) g_ntype = STRAY; g_npos = (unsigned)vp_below(1u << 30);
	if (g_takes) ASSUME(g_npos >= g_hi + 2 && g_npos < g_end); if (g_takes && g_more) ASSUME(g_ntype != STRAY && (g_ntype == 0 || g_ntype > g_tt - 1));
	return true;
}
#define CHOICE g_cur, g_tt, g_takes, g_stray, g_err, g_more, g_ntype, g_npos, vp_in
#define LOOP_CONTRACT_operators(ctx, last, current) ASSIGNS(last, current, ctx->token, ctx->err, S_after.location.column, S_after.location.line, g_errs, g_hi, g_level, g_freed, g_freed_expr, CHOICE) \
	INVARIANT(!ctx->err && g_errs == 0 && g_freed == 0 && (ctx->token == NULL || ctx->token == &S_t0 || ctx->token == &S_after)) \
	INVARIANT((g_any ? current == &S_a || current == &S_b : current == NULL) && (last == NULL || last == &S_a || last == &S_b) && (!g_any ==> last == NULL)) \
	INVARIANT(g_any ==> g_hi == POS(ctx->token) && g_hi > g_start && g_hi <= g_end && g_level <= g_max && (ctx->token && LV(ctx->token) ==> LV(ctx->token) >= g_level)) \
	INVARIANT(!g_any ==> ctx->token == &S_t0) \
	INVARIANT(g_any && last == current ==> FOLLOWS(ctx->token, g_max)) \
	if (PIN2(current, &S_a, &S_b) && ({ if (ctx->token) { CHECK(ctx->token == &S_after, "PIN: the token"); ctx->token = &S_after; } choose(current, ctx->token); }))
#endif
#include "loops.h"
#include "skull/parse/ast_node.c"
#undef Malloc
#undef Calloc
static ParserCtx S_ctx; static Token *g_from;
#define CTX (ctx == &S_ctx && !S_ctx.err && g_errs == 0)
static void free_expr_node(AstNodeExpr *expr) ASSIGNS(g_freed, g_freed_expr) ENSURES(g_freed == OLD(g_freed) + 1 && g_freed_expr == expr) ;

#if defined(UNIT_RHS) || defined(UNIT_SINGLE) || defined(UNIT_PAREN)
/* the callee: parses from g_from on, with the level g_max */
static AstNodeExpr *parse_expr_up_to(ParserCtx *ctx, unsigned max_precedence)
REQUIRES(CTX && max_precedence == g_max && S_ctx.token == g_from)
ASSIGNS(S_ctx.token, S_ctx.err, g_errs)
ENSURES(PE(RET, g_have && !g_err ? &S_sub : NULL) && S_ctx.err == g_err && g_errs == (g_err ? 1 : 0))
ENSURES(PE(S_ctx.token, g_next)) ;
#endif
#if defined(UNIT_RHS)
/* S_t0 is the token after `expr`, which is S_a */
#define T0 S_t0.type
#define TAKEN (g_t0 && LEVEL(T0) && LEVEL(T0) <= g_limit)
static unsigned g_limit; static bool g_t0;
static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr, unsigned max_precedence)
REQUIRES(CTX && expr == &S_a && max_precedence == g_limit && S_ctx.token == (g_t0 ? &S_t0 : NULL))
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_freed, g_freed_expr, g_allocs, S_new)
/* an operator that binds too loosely, or none: nothing happens */
ENSURES(!TAKEN && !(g_t0 && ONLY_UNARY(T0)) ==> RET == &S_a && !S_ctx.err && S_ctx.token == OLD(S_ctx.token) && g_errs == 0)
ENSURES(g_t0 && ONLY_UNARY(T0) ==> S_ctx.err && g_errs > 0)
/* an operator: the right side is what binds tighter, right after it */
ENSURES(TAKEN && g_have && !g_err ==> RET == &S_new && S_new.oper == BINARY(T0) && S_new.lhs.expr == &S_a && S_new.rhs == &S_sub && S_ctx.token == g_next && !S_ctx.err && g_errs == 0 && g_freed == 0)
ENSURES(TAKEN && !(g_have && !g_err) ==> S_ctx.err && g_errs > 0)
/* levels: chosen so that the tree is right */
ENSURES(TAKEN ==> g_max == LEVEL(T0) - 1) ;
#elif defined(UNIT_SINGLE)
static AstNodeExpr *parse_root_expr(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == g_from) ASSIGNS(S_ctx.token, S_ctx.err, g_errs)
ENSURES(PE(RET, g_have && !g_err ? &S_sub : NULL) && S_ctx.err == g_err && g_errs == (g_err ? 1 : 0) && PE(S_ctx.token, g_next)) ;
static bool g_t0, g_t1;
#define U0 (g_t0 && UNARY(S_t0.type))
static AstNodeExpr *parse_single_expr(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == (g_t0 ? &S_t0 : NULL))
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_allocs, S_new)
ENSURES(!g_t0 ==> RET == NULL && !S_ctx.err && g_errs == 0)
ENSURES(g_t0 && !U0 ==> RET == (g_have && !g_err ? &S_sub : NULL) && S_ctx.err == g_err && S_ctx.token == g_next)
/* a prefix operator: exactly one, and it takes an operand with its powers (a reference: just the operand) */
ENSURES(U0 && (!g_t1 || UNARY(S_t1.type) || g_err || !g_have) ==> RET == NULL && S_ctx.err && g_errs > 0)
ENSURES(U0 && g_t1 && !UNARY(S_t1.type) && g_have && !g_err ==> RET == &S_new && S_new.oper == PREFIX(S_t0.type) && S_new.rhs == &S_sub && S_new.lhs.expr == NULL && S_ctx.token == g_next && !S_ctx.err && g_errs == 0) ;
#elif defined(UNIT_PAREN)
static AstNodeExpr *parse_paren_expr(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0)
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_freed, g_freed_expr)
ENSURES(g_have && !g_err && g_next && g_next->type == TOKEN_PAREN_CLOSE ==> RET == &S_sub && !S_ctx.err && g_errs == 0 && g_freed == 0 && S_ctx.token == S_after.next)
ENSURES(!(g_have && !g_err && g_next && g_next->type == TOKEN_PAREN_CLOSE) ==> RET == NULL && S_ctx.err && g_errs > 0 && g_freed == (g_have && !g_err ? 1 : 0)) ;
#elif defined(UNIT_ROOT)
static bool g_call, g_paren, g_single;
#define AS(fn, g) static AstNodeExpr *fn(ParserCtx *ctx) REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g) ENSURES(PE(RET, g_have && !g_err ? &S_sub : NULL) && S_ctx.err == g_err && g_errs == (g_err ? 1 : 0) && PE(S_ctx.token, g_next) && g) ;
AS(parse_paren_expr, g_paren) AS(parse_func_call, g_call) AS(parse_single_token_expr, g_single)
#define CALL (NAME(S_t0.type) && S_t0.next && S_t1.type == TOKEN_PAREN_OPEN)
#define OPERAND (S_t0.type == TOKEN_PAREN_OPEN || NAME(S_t0.type) || CONSTANT(S_t0.type))
static AstNodeExpr *parse_root_expr(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0 && !g_call && !g_paren && !g_single) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_call, g_paren, g_single)
ENSURES(!g_paren == !(S_t0.type == TOKEN_PAREN_OPEN) && !g_call == !CALL && !g_single == !(OPERAND && !g_paren && !g_call))
ENSURES(OPERAND ==> RET == (g_have && !g_err ? &S_sub : NULL) && S_ctx.err == g_err && S_ctx.token == g_next)
ENSURES(!OPERAND ==> RET == NULL && !S_ctx.err && S_ctx.token == &S_t0 && g_errs == 0) ;
#elif defined(UNIT_LEAF)
static AstNodeExpr *parse_single_token_expr(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, g_allocs, S_new)
ENSURES(RET == &S_new && S_new.lhs.tok == &S_t0 && S_new.oper == (NAME(S_t0.type) ? EXPR_IDENTIFIER : EXPR_CONST) && S_ctx.token == S_t0.next && !S_ctx.err) ;
#elif defined(UNIT_UPTO)
static bool g_t0, g_err1;
static AstNodeExpr *parse_single_expr(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs)
ENSURES(PE(RET, g_any && !g_err1 ? &S_a : NULL) && S_ctx.err == g_err1 && g_errs == (g_err1 ? 1 : 0) && PE(S_ctx.token, g_any ? g_next : &S_t0)) ;
/* as proved in exp_rhs, in terms of what the trees cover */
static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr, unsigned max_precedence)
REQUIRES(CTX && expr == g_cur && max_precedence == g_max && (expr == &S_a || expr == &S_b))
REQUIRES(g_hi == POS(S_ctx.token))
/* so the left side of the new node has at most the level of the operator */
REQUIRES(g_tt ==> g_tt >= g_level)
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_hi, g_level, S_after.location.column, S_after.location.line)
ENSURES(S_ctx.err == (g_stray || (g_takes && g_err)) && g_errs == (S_ctx.err ? 1 : 0))
ENSURES(PE(RET, S_ctx.err ? NULL : !g_takes ? g_cur : g_cur == &S_a ? &S_b : &S_a))
ENSURES(PE(S_ctx.token, !g_takes ? OLD(S_ctx.token) : g_more ? &S_after : NULL))
ENSURES(S_after.location.column == (g_takes ? g_ntype : OLD(S_after.location.column)) && S_after.location.line == (g_takes ? g_npos : OLD(S_after.location.line)))
ENSURES(g_hi == (!g_takes ? OLD(g_hi) : g_more ? g_npos : g_end) && g_level == (g_takes ? g_tt : OLD(g_level))) ;
/* what an expression is followed by is no operator of its level, and the tree covers all tokens up to there */
static AstNodeExpr *parse_expr_up_to(ParserCtx *ctx, unsigned max_precedence)
REQUIRES(CTX && max_precedence == g_max && S_ctx.token == (g_t0 ? &S_t0 : NULL) && (g_t0 ==> g_start == POS(&S_t0)))
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_hi, g_level, S_after.location.column, S_after.location.line, g_freed, g_freed_expr, CHOICE)
ENSURES(!g_t0 ==> RET == NULL && !S_ctx.err && S_ctx.token == NULL)
ENSURES(g_t0 && !g_any && !g_err1 ==> RET == NULL && !S_ctx.err && S_ctx.token == &S_t0 && g_errs == 0)
ENSURES(S_ctx.err ==> RET == NULL && g_errs > 0)
ENSURES(g_t0 && g_any && !S_ctx.err ==> (RET == &S_a || RET == &S_b) && g_level <= g_max && g_hi == POS(S_ctx.token) && FOLLOWS(S_ctx.token, g_max) && g_freed == 0) ;
#endif
bool is_identifier_like(const Token *t) { return NAME(t->type); }
static TokenType any_type(void) { return (TokenType)vp_below(TOKEN_END + 1); }
void harness(void) {
	g_errs = g_freed = g_allocs = 0; S_ctx.err = false; S_t0.type = any_type(); S_t1.type = any_type(); S_after.type = any_type(); S_after.next = vp_bool() ? &S_t1 : NULL;
	g_have = vp_bool(); g_err = vp_bool(); g_next = vp_bool() ? &S_after : NULL; g_max = (unsigned)vp_below(8);
#if defined(UNIT_RHS)
	g_limit = (unsigned)vp_below(8); g_t0 = vp_bool(); S_t0.next = vp_bool() ? &S_t1 : NULL; g_from = S_t0.next; S_ctx.token = g_t0 ? &S_t0 : NULL;
	if (TAKEN) g_max = LEVEL(T0) - 1;
	if (!g_from) ASSUME(!g_have && !g_err);
	parse_expr_rhs(&S_ctx, &S_a, g_limit);
#elif defined(UNIT_SINGLE)
	g_t0 = vp_bool(); g_t1 = vp_bool(); S_t0.next = g_t1 ? &S_t1 : NULL; S_ctx.token = g_t0 ? &S_t0 : NULL; g_from = U0 ? S_t0.next : &S_t0; g_max = 2;
	if (U0 && S_t0.type == TOKEN_OPER_REF) g_max = 99; /* not asked for */
	parse_single_expr(&S_ctx);
#elif defined(UNIT_PAREN)
	S_t0.type = TOKEN_PAREN_OPEN; S_t0.next = vp_bool() ? &S_t1 : NULL; g_from = S_t0.next; S_ctx.token = &S_t0; g_max = 7;
	if (!g_from) { ASSUME(!g_have && !g_err); g_next = NULL; }
	parse_paren_expr(&S_ctx);
#elif defined(UNIT_ROOT)
	S_t0.next = vp_bool() ? &S_t1 : NULL; S_ctx.token = &S_t0; g_call = g_paren = g_single = false;
	parse_root_expr(&S_ctx);
#elif defined(UNIT_LEAF)
	S_t0.next = vp_bool() ? &S_t1 : NULL; S_ctx.token = &S_t0; ASSUME(NAME(S_t0.type) || CONSTANT(S_t0.type));
	parse_single_token_expr(&S_ctx);
#elif defined(UNIT_UPTO)
	g_t0 = vp_bool(); g_err1 = vp_bool(); g_any = !g_err1 && vp_bool(); S_ctx.token = g_t0 ? &S_t0 : NULL;
	g_start = S_t0.location.line; g_end = (unsigned)vp_below(1u << 30); ASSUME(g_start < g_end && S_after.location.line > g_start && S_after.location.line < g_end);
	g_level = 0; g_hi = POS(g_next); S_after.location.column = (unsigned)vp_below(8); if (vp_bool()) S_after.location.column = STRAY;
	parse_expr_up_to(&S_ctx, g_max);
#elif defined(UNIT_TABLES)
	/* the tables, for every operator */
	TokenType t = any_type(); ExprType e = BINARY(t);
	if (LEVEL(t)) CHECK(token_type_to_binary_expr_type(t) == e && oper_to_precedence(e) == LEVEL(t) && !is_unary_oper(e), "binary operators: their meaning and how tightly they bind");
	else CHECK(token_type_to_binary_expr_type(t) == EXPR_UNKNOWN || (ONLY_UNARY(t) && is_unary_oper(token_type_to_binary_expr_type(t))), "no other token is a binary operator");
	if (UNARY(t)) CHECK(get_potential_unary_oper(t) == PREFIX(t) && oper_to_precedence(PREFIX(t)) == (t == TOKEN_OPER_REF ? 0 : 3), "prefix operators");
	else CHECK(get_potential_unary_oper(t) == EXPR_UNKNOWN, "no other token is a prefix operator");
	CHECK(is_single_token_expr(t) == (NAME(t) || CONSTANT(t)), "operands of one token");
#endif
	REACH("the checked function returns");
}
#endif
