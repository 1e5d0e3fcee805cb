/* C10: the statements of the tree.  The real skull/parse/ast_node.c; the
 * expressions, and the other pieces a function uses, by contract (what they
 * do is chosen beforehand: g_have, g_err, g_next, ...). */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/common/errors.h"
#include "skull/common/vector.h"
#include "skull/parse/ast_node.h"
uint64_t vp_in;
#define PE(p, q) __CPROVER_pointer_equals(p, q)
static unsigned g_errs, g_freed, g_vfreed;
void fmt_message(ErrorType t, ErrorCode c, Message m[]) { (void)c; (void)m; if (t == ERROR_FATAL && g_errs < 1000000) g_errs++; }
#define NAME(t) ((t) == TOKEN_IDENTIFIER || (t) == TOKEN_DOT_IDENTIFIER)
bool is_identifier_like(const Token *t) { return NAME(t->type); }
static Token S_t0, S_t1, S_t2, S_t3, S_after, S_te; static AstNodeExpr S_sub, S_expr; static AstNode S_node, S_fresh, S_head, S_prev, S_kid;
static AstNodeVarDef S_def; static AstNodeVarAssign S_set; static AstNodeFunctionProto S_proto; static AstNodeFunctionCall S_call; static AstNodeFunctionParam S_param; static Vector S_vec; static char32_t S_pname[2];
static bool g_have, g_err, g_explicit; static Token *g_next, *g_from, *g_te;
static unsigned g_npush; static NodeType g_ptype; static Token *g_ptok; static AstNode *g_pnode; static unsigned g_calls;
static bool g_copied; static unsigned g_np; static void *S_frozen[2];
#include "skull/common/malloc.h"
static void *vp_new(size_t n, int what) { return what == 1 ? (void *)&S_def : what == 2 ? (void *)&S_set : what == 3 ? (void *)&S_proto : what == 4 ? (void *)&S_call : what == 5 ? (void *)&S_param : what == 6 ? (void *)&S_expr : (void *)&S_fresh; }
#if defined(UNIT_DEF)
#define Malloc(n) vp_new(n, 1)
#define Calloc(n, m) vp_new(m, 0)
#elif defined(UNIT_SET)
#define Malloc(n) vp_new(n, 2)
#define Calloc(n, m) vp_new(m, 2)
#elif defined(UNIT_PROTO)
#define Malloc(n) vp_new(n, 3)
#define Calloc(n, m) vp_new(m, 3)
#elif defined(UNIT_CALL)
#define Malloc(n) vp_new(n, 4)
#define Calloc(n, m) ((m) == sizeof(AstNode) ? vp_new(m, 0) : vp_new(m, 6))
#elif defined(UNIT_PARAMS)
#define Malloc(n) vp_new(n, 5)
#define Calloc(n, m) vp_new(m, 5)
#else
#define Malloc(n) vp_new(n, 0)
#define Calloc(n, m) vp_new(m, 0)
#endif
static void vp_free(void *p) { (void)p; if (g_freed < 100) g_freed++; }
#define free(p) vp_free(p)
void free_vector(Vector *v, void (*f)(void *)) { (void)f; CHECK(v == &S_vec, "the parameters"); g_vfreed++; }
void *vector_freeze(Vector *v) { CHECK(v == &S_vec, "the parameters"); return S_frozen; }
static void vp_memcpy(void *d, const void *s, size_t n) { CHECK(d == (void *)&S_proto.params && s == (void *)S_frozen && n == g_np * sizeof(void *), "all the parameters are taken over"); g_copied = true; }
#define memcpy(d, s, n) vp_memcpy(d, s, n)
Vector *make_vector(void) { return &S_vec; }
static unsigned g_vecn;
void vector_push(Vector *v, void *x) { CHECK(v == &S_vec && x == (void *)&S_param, "the parameter"); g_vecn++; }
static Token *g_nametok;
char32_t *token_to_string(const Token *t) { CHECK(t == g_nametok, "its name"); return S_pname; }

#if defined(UNIT_CALL)
/* one turn of the loop: an argument (or none) is parsed from the current token, g_next follows */
static unsigned g_args; static bool g_first;
static bool choose(Token **t) {
	if (*t) *t = *t == &S_t2 ? &S_t2 : &S_after;
	g_from = *t; g_have = vp_bool(); g_err = vp_bool(); S_te.type = (TokenType)vp_below(TOKEN_END + 1); S_te.next = vp_bool() ? &S_after : NULL; g_next = vp_bool() ? &S_te : NULL;
	if (!g_have) g_next = *t;     /* nothing is taken if there is no expression */
	return true;
}
#define LOOP_CONTRACT_arguments(ctx, child, n) ASSIGNS(ctx->token, ctx->node, ctx->err, child, n, g_args, g_from, g_have, g_err, g_next, S_te, S_after.type, g_errs, g_freed, g_npush, g_ptype, g_ptok, g_pnode, S_node.expr, vp_in) \
	INVARIANT((ctx->err ? g_errs > 0 : g_errs == 0) && g_freed == 0 && child == &S_fresh && ctx->node == &S_head && (ctx->token == NULL || ctx->token == &S_t2 || ctx->token == &S_after) && n == (unsigned short)g_args && g_npush == g_args && (g_args ==> g_ptype == AST_NODE_EXPR)) \
	if (PIN(child, &S_fresh) && PIN(ctx->node, &S_head) && choose(&ctx->token))
#endif
#if defined(UNIT_TREE)
static unsigned g_steps; static bool g_done;
#define LOOP_CONTRACT_statements(ctx) ASSIGNS(ctx->token, ctx->err, ctx->node, g_errs, g_steps, g_done) \
	INVARIANT(!ctx->err && g_errs == 0 && !g_done && (ctx->token == NULL || ctx->token == &S_t0) && (ctx->node == &S_head || ctx->node == &S_fresh)) \
	if (PIN(ctx->token, &S_t0) && PIN2(ctx->node, &S_head, &S_fresh))
#endif
#include "loops.h"
#include "skull/parse/ast_node.c"
#undef Malloc
#undef Calloc
#undef free
#undef memcpy
static ParserCtx S_ctx;
#define CTX (ctx == &S_ctx && !S_ctx.err)
#define MSG (g_errs > 0)
#define PUSHED(t) (g_npush == 1 && g_ptype == (t) && g_ptok == &S_t0)
#ifndef UNIT_PUSH
static AstNode *push_ast_node(ParserCtx *ctx, Token *last, NodeType node_type)
REQUIRES(CTX) ASSIGNS(g_npush, g_ptype, g_ptok, g_pnode, S_ctx.node)
ENSURES(PE(RET, &S_node) && g_npush == OLD(g_npush) + 1 && g_ptype == node_type && g_ptok == last && g_pnode == OLD(S_ctx.node) && PE(S_ctx.node, &S_fresh)) ;
#endif
static AstNodeExpr *parse_expression(ParserCtx *ctx)
#ifdef UNIT_CALL
/* once there was an error there is no further expression (the argument list is only skipped) */
REQUIRES(ctx == &S_ctx && S_ctx.token == g_from)
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_args)
ENSURES(S_ctx.err == (OLD(S_ctx.err) || g_err) && g_args == OLD(g_args) + (g_have && !S_ctx.err) && PE(RET, g_have && !S_ctx.err ? &S_sub : NULL) && g_errs >= OLD(g_errs) && (g_err ==> g_errs > 0) && (!g_err ==> g_errs == OLD(g_errs)) && PE(S_ctx.token, g_next)) ;
#else
REQUIRES(CTX && S_ctx.token == g_from)
ASSIGNS(S_ctx.token, S_ctx.err, g_errs)
ENSURES(PE(RET, g_have && !g_err ? &S_sub : NULL) && S_ctx.err == g_err && g_errs == OLD(g_errs) + (g_err ? 1 : 0) && PE(S_ctx.token, g_next)) ;
#endif
void free_ast_tree(AstNode *n) ASSIGNS(g_freed) ENSURES(g_freed == OLD(g_freed) + 1) ;
#define PUSHG g_npush, g_ptype, g_ptok, g_pnode, S_ctx.node
static Token *S_ctx_tok, *g_from0;
static bool is_explicit_type(ParserCtx *ctx)
#ifndef UNIT_EXPL
REQUIRES(CTX && S_ctx.token == g_nametok) ASSIGNS(S_ctx.token)
ENSURES(RET == g_explicit && PE(S_ctx.token, g_explicit ? g_te : g_nametok)) ;
#else
/* a new name followed by a type */
#define EXPL (S_ctx_tok && S_t0.type == TOKEN_NEW_IDENTIFIER && S_t0.next && g_te)
REQUIRES(CTX && S_ctx.token == S_ctx_tok) ASSIGNS(S_ctx.token)
ENSURES(RET == !!EXPL && S_ctx.token == (EXPL ? S_te.next : S_ctx_tok)) ;
#endif
static Token *is_potential_type(Token *token)
#ifdef UNIT_PTYPE
/* any number of & and a name; the summary token is followed by the rest (S_t1) which ends a type or not: g_te */
REQUIRES(token == NULL || token == &S_t0 || token == &S_t1) ASSIGNS()
ENSURES(PE(RET, token == NULL ? NULL : token == &S_t1 ? g_te : NAME(S_t0.type) ? &S_t0 : S_t0.type == TOKEN_OPER_REF && S_t0.next ? g_te : NULL)) ;
#else
REQUIRES(token == g_from) ASSIGNS() ENSURES(PE(RET, g_te)) ;
#endif

#if defined(UNIT_RETURN)
static void parse_return(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG, S_node.expr)
ENSURES(PUSHED(AST_NODE_RETURN) && S_ctx.err == g_err)
ENSURES(!g_err ==> S_node.expr == (g_have ? &S_sub : NULL) && S_ctx.token == g_next && g_errs == 0) ;
#elif defined(UNIT_COND)
static NodeType g_kind;
static void parse_condition(ParserCtx *ctx, NodeType node_type)
REQUIRES(CTX && S_ctx.token == &S_t0 && node_type == g_kind) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG, S_node.expr)
ENSURES(S_t0.next && g_have && !g_err ==> PUSHED(g_kind) && S_node.expr == &S_sub && S_ctx.token == g_next && !S_ctx.err && g_errs == 0)
ENSURES(!(S_t0.next && g_have && !g_err) ==> S_ctx.err && MSG) ;
#elif defined(UNIT_DEF)
#define PRE (S_t0.type == TOKEN_KW_MUT || S_t0.type == TOKEN_KW_EXPORT)
#define AUTO (g_nametok && !g_explicit && g_nametok->type == TOKEN_IDENTIFIER && g_nametok->next && g_nametok->next->type == TOKEN_OPER_AUTO_EQUAL)
#define TYPED (g_nametok && g_explicit && g_te && g_te->type == TOKEN_OPER_EQUAL)
#define GOOD ((AUTO || TYPED) && g_have && !g_err && (!g_next || g_next->type == TOKEN_NEWLINE))
static ParserResult parse_var_def(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG, S_node.var_def, S_def)
ENSURES(GOOD ==> RET == RESULT_OK && PUSHED(AST_NODE_VAR_DEF) && S_node.var_def == &S_def && S_ctx.token == g_next && !S_ctx.err && g_errs == 0)
ENSURES(GOOD ==> S_def.name_tok == g_nametok && S_def.expr == &S_sub && S_def.is_const == (S_t0.type != TOKEN_KW_MUT) && S_def.is_exported == (S_t0.type == TOKEN_KW_EXPORT) && S_def.is_implicit == !g_explicit)
/* not a definition at all: left to others */
ENSURES(!(g_nametok && g_explicit) && !AUTO ==> RET == RESULT_IGNORE && S_ctx.token == &S_t0 && !S_ctx.err && g_errs == 0 && g_npush == 0)
ENSURES(((g_nametok && g_explicit) || AUTO) && !GOOD ==> RET == RESULT_ERROR && MSG) ;
#elif defined(UNIT_SET)
#define IS_SET (NAME(S_t0.type) && S_t0.next && S_t1.type == TOKEN_OPER_EQUAL)
static ParserResult parse_var_assign(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG, S_node.var_assign, S_set)
ENSURES(IS_SET && g_have && !g_err ==> RET == RESULT_OK && PUSHED(AST_NODE_VAR_ASSIGN) && S_node.var_assign == &S_set && S_set.expr == &S_sub && S_ctx.token == g_next && !S_ctx.err && g_errs == 0)
ENSURES(IS_SET && !(g_have && !g_err) ==> RET == RESULT_ERROR && MSG)
ENSURES(!IS_SET ==> RET == RESULT_IGNORE && S_ctx.token == &S_t0 && g_npush == 0 && g_errs == 0 && !S_ctx.err) ;
#elif defined(UNIT_IMPORT)
static void parse_import(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG)
ENSURES(S_t0.next && S_t1.type == TOKEN_IDENTIFIER ? PUSHED(AST_NODE_IMPORT) && !S_ctx.err && S_ctx.token == S_t1.next && g_errs == 0 : S_ctx.err && MSG) ;
#elif defined(UNIT_NS)
static void parse_namespace(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG)
ENSURES(S_t0.next ? PUSHED(AST_NODE_NAMESPACE) && !S_ctx.err && S_ctx.token == S_t1.next && g_errs == 0 : S_ctx.err && MSG) ;
#elif defined(UNIT_PUSH)
static AstNode *push_ast_node(ParserCtx *ctx, Token *last, NodeType node_type)
REQUIRES(CTX && S_ctx.node == &S_node && last == &S_t0 && S_ctx.token == g_next) ASSIGNS(S_ctx.node, S_node.type, S_node.token, S_node.token_end, S_node.next, S_fresh.last)
ENSURES(RET == &S_node && S_node.type == node_type && S_node.token == &S_t0 && S_node.token_end == g_next && S_node.next == &S_fresh && S_fresh.last == &S_node && S_ctx.node == &S_fresh) ;
#elif defined(UNIT_CALL)
/* a call: its name, all its arguments in order, up to the closing parenthesis */
static AstNodeExpr *parse_func_call(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0 && S_ctx.node == &S_head)
ASSIGNS(S_ctx.token, S_ctx.node, S_ctx.err, g_args, g_from, g_have, g_err, g_next, S_te, S_after.type, g_errs, g_freed, g_npush, g_ptype, g_ptok, g_pnode, S_node.expr, vp_in, S_expr, S_call)
ENSURES(S_ctx.err ==> MSG)
ENSURES(!S_ctx.err ==> RET == &S_expr && S_expr.oper == EXPR_FUNC && S_expr.lhs.func_call == &S_call && S_call.func_name_tok == &S_t0 && S_call.params == &S_fresh && S_call.num_values == (unsigned short)g_args && g_npush == g_args && g_errs == 0 && g_freed == 0)
ENSURES(!S_ctx.err ==> S_ctx.node == &S_head && g_next && g_next->type == TOKEN_PAREN_CLOSE && S_ctx.token == g_next->next && (g_args ==> g_ptype == AST_NODE_EXPR)) ;
#elif defined(UNIT_PROTO)
static Token *g_pt; static bool g_moved;
static Vector *parse_function_proto_params(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == S_t2.next) ASSIGNS(S_ctx.token) ENSURES(PE(RET, &S_vec) && PE(S_ctx.token, g_pt)) ;
#define PFX (S_t0.type == TOKEN_KW_EXTERNAL || S_t0.type == TOKEN_KW_EXPORT)
#define FN ((PFX ? S_t0.next != NULL : true) && S_t1.type == TOKEN_IDENTIFIER && S_t1.next && S_t2.type == TOKEN_PAREN_OPEN)
#define WANT (S_t0.type == TOKEN_KW_EXTERNAL ? TOKEN_NEWLINE : TOKEN_BRACKET_OPEN)
#define CLOSED (g_pt && g_pt->type == TOKEN_PAREN_CLOSE)
#define HAS_TYPE (CLOSED && S_te.next && g_te)
#define DECL (FN && CLOSED && (HAS_TYPE ? S_after.next && S_after.next->type == WANT : S_te.next && S_te.next->type == WANT))
static ParserResult parse_function_proto(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == g_from0 && S_ctx.node == &S_node)
ASSIGNS(S_ctx.token, S_ctx.err, g_errs, PUSHG, S_node.func_proto, S_proto, g_vfreed, g_freed, g_copied)
ENSURES(DECL ==> RET == RESULT_OK && g_npush == 1 && g_ptype == AST_NODE_FUNCTION_PROTO && g_ptok == OLD(S_ctx.token) && S_node.func_proto == &S_proto && g_errs == 0)
ENSURES(DECL ==> S_proto.name_tok == &S_t1 && S_proto.num_params == g_np && g_copied == (g_np != 0) && S_proto.is_external == (S_t0.type == TOKEN_KW_EXTERNAL) && S_proto.is_export == (S_t0.type == TOKEN_KW_EXPORT))
ENSURES(DECL ==> S_proto.return_type_token == (HAS_TYPE ? S_te.next : NULL) && S_ctx.token == (HAS_TYPE ? S_after.next : S_te.next))
ENSURES(!FN ==> RET == RESULT_IGNORE && S_ctx.token == OLD(S_ctx.token) && g_errs == 0 && g_npush == 0)
/* parameters that are not followed by what a declaration needs */
ENSURES(FN && !DECL && (g_moved || !g_pt || HAS_TYPE) ==> RET == RESULT_ERROR && MSG)
ENSURES(FN && !DECL && !(g_moved || !g_pt || HAS_TYPE) ==> (RET == RESULT_ERROR && MSG) || (RET == RESULT_IGNORE && S_ctx.token == OLD(S_ctx.token) && g_errs == 0 && g_npush == 0))
/* in particular what may be a call is left to others */
ENSURES(FN && !DECL && !(g_moved || !g_pt || HAS_TYPE) && S_t0.type != TOKEN_KW_EXTERNAL ==> RET == RESULT_IGNORE) ;
#elif defined(UNIT_BLOCK)
static AstNode *parse_ast_tree_(ParserCtx *ctx)
REQUIRES(ctx->token == S_t0.next && ctx->indent_lvl == S_ctx.indent_lvl + 1 && !ctx->err)
ASSIGNS(ctx->token, ctx->err, g_errs)
ENSURES(PE(RET, g_err ? NULL : &S_kid) && ctx->err == g_err && g_errs == (g_err ? 1 : 0) && PE(ctx->token, g_next)) ;
#define OWNER (S_ctx.node->last ? S_ctx.node->last : S_ctx.head)
static void parse_ast_sub_tree_(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0) ASSIGNS(S_ctx.token, S_ctx.err, g_errs, g_freed, S_prev.child, S_head.child, S_kid.parent)
/* a block belongs to the statement before it, which has no other, and is not empty */
#define OKB (!(S_fresh.last && OLD(S_prev.child)) && !g_err && S_kid.token)
ENSURES(OKB ==> !S_ctx.err && g_errs == 0 && S_ctx.token == S_after.next && (S_fresh.last ? S_prev.child == &S_kid && S_kid.parent == &S_prev && S_head.child == OLD(S_head.child) : S_head.child == &S_kid && S_kid.parent == &S_head && S_prev.child == OLD(S_prev.child)))
ENSURES(!OKB ==> S_ctx.err && MSG && S_prev.child == OLD(S_prev.child)) ;
#elif defined(UNIT_TREE)
static bool parse_ast_node(ParserCtx *ctx)
REQUIRES(CTX && S_ctx.token == &S_t0 && !g_done) ASSIGNS(S_ctx.token, S_ctx.err, S_ctx.node, g_errs, g_steps, g_done)
ENSURES(S_ctx.err == (g_errs > 0) && (RET == g_done) && (g_done && !S_ctx.err ==> S_ctx.token == &S_t0 && S_ctx.indent_lvl > 0))
ENSURES((S_ctx.token == NULL || PE(S_ctx.token, &S_t0)) && (PE(S_ctx.node, &S_fresh) || PE(S_ctx.node, &S_head))) ;
#endif

static TokenType any_type(void) { return (TokenType)vp_below(TOKEN_END + 1); }
void harness(void) {
	g_errs = g_freed = g_vfreed = g_npush = g_vecn = 0; g_copied = false; S_ctx.err = false; S_ctx.token = &S_t0; S_ctx.node = &S_node; S_ctx.head = &S_head; S_node.expr = NULL; S_node.last = NULL; S_node.child = NULL;
	S_t0.type = any_type(); S_t1.type = any_type(); S_t2.type = any_type(); S_t3.type = any_type(); S_after.type = any_type(); S_te.type = any_type();
	S_t0.next = vp_bool() ? &S_t1 : NULL; S_t1.next = vp_bool() ? &S_t2 : NULL; S_t2.next = vp_bool() ? &S_t3 : NULL; S_t3.next = NULL; S_after.next = vp_bool() ? &S_t3 : NULL; S_te.next = vp_bool() ? &S_after : NULL;
	g_have = vp_bool(); g_err = vp_bool(); g_explicit = vp_bool(); g_next = vp_bool() ? &S_after : NULL; g_te = vp_bool() ? &S_te : NULL;
#if defined(UNIT_RETURN)
	g_from = S_t0.next; if (!g_from) { ASSUME(!g_have && !g_err); g_next = NULL; }
	parse_return(&S_ctx);
#elif defined(UNIT_COND)
	g_from = S_t0.next; g_kind = vp_bool() ? AST_NODE_IF : vp_bool() ? AST_NODE_ELIF : AST_NODE_WHILE;
	parse_condition(&S_ctx, g_kind);
#elif defined(UNIT_DEF)
	g_nametok = PRE ? S_t0.next : &S_t0;
	g_from = g_nametok && g_explicit ? S_te.next : g_nametok && g_nametok->next ? g_nametok->next->next : NULL;
	if (!g_from) { ASSUME(!g_have && !g_err); g_next = NULL; }
	parse_var_def(&S_ctx);
#elif defined(UNIT_SET)
	g_from = S_t1.next; if (!g_from) { ASSUME(!g_have && !g_err); g_next = NULL; }
	parse_var_assign(&S_ctx);
#elif defined(UNIT_IMPORT)
	parse_import(&S_ctx);
#elif defined(UNIT_NS)
	parse_namespace(&S_ctx);
#elif defined(UNIT_PUSH)
	S_ctx.token = g_next;
	push_ast_node(&S_ctx, &S_t0, (NodeType)vp_below(AST_NODE_CONTINUE + 1));
#elif defined(UNIT_EXPL)
	S_ctx_tok = vp_bool() ? &S_t0 : NULL; S_ctx.token = S_ctx_tok; g_from = S_t0.next;
	is_explicit_type(&S_ctx);
#elif defined(UNIT_PTYPE)
	is_potential_type(vp_bool() ? &S_t0 : NULL);
#elif defined(UNIT_CALL)
	S_t0.next = &S_t1; S_t1.next = vp_bool() ? &S_t2 : NULL; S_ctx.node = &S_head; g_args = 0; S_node.expr = NULL;
	parse_func_call(&S_ctx);
#elif defined(UNIT_PROTO)
	S_t1.next = vp_bool() ? &S_t2 : NULL; g_np = (unsigned)vp_below(1u << 16); S_vec.length = g_np; g_moved = g_np > 0;
	if (!PFX) ASSUME(S_t1.type != TOKEN_KW_EXTERNAL && S_t1.type != TOKEN_KW_EXPORT);
	g_from0 = PFX ? &S_t0 : &S_t1; S_ctx.token = g_from0; if (PFX) S_t0.next = vp_bool() ? &S_t1 : NULL;
	g_pt = vp_bool() ? &S_te : NULL; if (!S_t2.next) g_pt = NULL;
	/* without parameters the token stays where it is */
	if (!g_moved) { S_t2.next = vp_bool() ? &S_te : NULL; g_pt = S_t2.next; }
	g_from = S_te.next; g_te = vp_bool() ? &S_after : NULL;
	parse_function_proto(&S_ctx);
#elif defined(UNIT_BLOCK)
	S_ctx.indent_lvl = (unsigned)vp_below(1u << 30); S_ctx.node = &S_fresh; S_fresh.last = vp_bool() ? &S_prev : NULL; S_prev.child = vp_bool() ? &S_node : NULL; S_head.child = vp_bool() ? &S_node : NULL;
	S_kid.token = vp_bool() ? &S_t2 : NULL; if (!g_err) g_next = &S_after;
	parse_ast_sub_tree_(&S_ctx);
#endif
	REACH("the checked function returns");
}
#endif
