/* C03/C04: return statements and control flow.  The real skull/semantic/flow.c.
 *
 * The statements that follow the one under proof are an unbounded list, given
 * by a summary node: S_after stands for an arbitrary statement of that list,
 * g_clean for "no live code in the list from here on", constrained only by
 *   g_clean == harmless(S_after) && (S_after.next ? g_clean : true)
 * (induction over the list; see DESIGN.md). */
#ifdef VP_CBMC
#include "sem.h"
#include "skull/semantic/flow.h"
#include "skull/semantic/entry.h"

static AstNode S_node, S_after, S_last, S_child; static AstNodeExpr S_expr;
static SemanticState S_state; static Symbol S_cur, S_main; static FunctionDeclaration S_func, S_mfunc;
bool g_clean, g_expr_ok, g_body_ok, g_last_has_if, g_add_ok; const Type *g_ety;
unsigned g_nexpr, g_nbody, g_depth_in_body; 

static bool harmless(NodeType t) { return t == AST_NODE_COMMENT || t == AST_NODE_UNREACHABLE || t == AST_NODE_NOOP; }
static bool takes_block(const AstNode *n) {
	return n->type == AST_NODE_IF || n->type == AST_NODE_ELIF || n->type == AST_NODE_ELSE || n->type == AST_NODE_WHILE ||
		n->type == AST_NODE_FUNCTION_PROTO || n->type == AST_NODE_NAMESPACE || (n->type == AST_NODE_EXPR && n->expr->oper == EXPR_FUNC);
}
#define CLEAN_BELOW (S_node.next ? g_clean : true)
#define SANE(n) (!(n) || !(n)->child || takes_block(n))
/* an else/elif belongs to an if/elif, comments in between do not count */
#define HAS_IF(n) ((n)->last != NULL && ((n)->last->type == AST_NODE_COMMENT ? g_last_has_if : ((n)->last->type == AST_NODE_IF || (n)->last->type == AST_NODE_ELIF)))
#define FRAME ASSIGNS(GHOST_MSG, g_nexpr, g_nbody, g_depth_in_body, S_expr.type, S_state.while_loop_depth)
#define COND_OK (g_expr_ok && g_ety == &TYPE_BOOL && !(S_expr.oper == EXPR_CONST && BUILD_DATA.werror))
#define VERDICT(x) ENSURES(RET == (x)) ENSURES(RET ? g_errs == 0 : (g_errs > 0 || (BUILD_DATA.werror && g_warns > 0)))
#define BODY(x) ENSURES((x) ==> g_nbody == 1) ENSURES(g_nbody <= 1)
#define DEPTH_KEPT ENSURES(S_state.while_loop_depth == OLD(S_state.while_loop_depth))

bool validate_stmt_return(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME
VERDICT(SANE(S_node.next) && (S_node.expr ? g_expr_ok && S_func.return_type != &TYPE_VOID && g_ety == S_func.return_type : S_func.return_type == &TYPE_VOID) && CLEAN_BELOW)
ENSURES(RET && S_node.expr ==> g_nexpr == 1) DEPTH_KEPT
;
bool validate_stmt_unreachable(const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(CLEAN_BELOW) ;
bool validate_control_break(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(OLD(S_state.while_loop_depth) > 0 && CLEAN_BELOW) DEPTH_KEPT ;
bool validate_control_continue(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(OLD(S_state.while_loop_depth) > 0 && CLEAN_BELOW) DEPTH_KEPT ;
bool validate_control_if(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(S_node.child && COND_OK && g_body_ok) BODY(RET) DEPTH_KEPT ENSURES(g_nbody ==> g_depth_in_body == OLD(S_state.while_loop_depth))
ENSURES(RET ==> g_warns == (S_expr.oper == EXPR_CONST ? 1 : 0)) ;
bool validate_control_elif(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(S_node.child && HAS_IF(&S_node) && COND_OK && g_body_ok) BODY(RET) DEPTH_KEPT ENSURES(g_nbody ==> g_depth_in_body == OLD(S_state.while_loop_depth)) ;
bool validate_control_else(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(S_node.child && HAS_IF(&S_node) && g_body_ok) BODY(RET) DEPTH_KEPT ENSURES(g_nbody ==> g_depth_in_body == OLD(S_state.while_loop_depth)) ;
bool validate_control_while(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node) FRAME VERDICT(S_node.child && COND_OK && g_body_ok) BODY(RET) ENSURES(RET ==> S_state.while_loop_depth == OLD(S_state.while_loop_depth)) ENSURES(g_nbody ==> g_depth_in_body == OLD(S_state.while_loop_depth) + 1) ;
bool assert_sane_child(const AstNode *node)
REQUIRES(node == &S_node || node == NULL || node == &S_after) FRAME ENSURES(RET == SANE(node)) ENSURES(RET == (g_errs == OLD(g_errs))) ;

#if defined(UNIT_ELIF) || defined(UNIT_ELSE) || defined(UNIT_MISSING_IF)
/* recursion over the comments before an else/elif */
static bool validate_control_not_missing_if(const AstNode *node)
REQUIRES(node == &S_node || (node == &S_last && S_last.type == AST_NODE_COMMENT))
ASSIGNS(GHOST_MSG)
ENSURES(node == &S_last ==> RET == g_last_has_if && g_errs == OLD(g_errs) && g_warns == OLD(g_warns))
ENSURES(node == &S_node ==> RET == HAS_IF(&S_node) && (RET ? g_errs == OLD(g_errs) : g_errs > OLD(g_errs)) && g_warns == OLD(g_warns)) ;
#endif

/* callees */
bool validate_expr(SemanticState *s, AstNodeExpr *e) {
	(void)s; CHECK(e == &S_expr, "the expression of the statement is checked"); g_nexpr++;
	if (!g_expr_ok) { g_errs++; return false; }
	e->type = g_ety; return true;
}
bool setup_and_validate_ast_sub_tree(SemanticState *s, AstNode *n) {
	CHECK(n == &S_child && s == &S_state, "the block of the statement is checked"); g_nbody++; g_depth_in_body = s->while_loop_depth;
	if (!g_body_ok) g_errs++;
	return g_body_ok;
}
bool scope_add_symbol(SemanticState *s, Symbol *y) { (void)s; (void)y; if (!g_add_ok) g_errs++; return g_add_ok; }
Scope *get_last_adjacent_scope(Scope *s) { return s; }
char *token_to_mbs_str(const Token *t) { (void)t; return VP_MALLOC(2); }
#define strdup(x) ((char *)VP_MALLOC(2))

#define LOOP_CONTRACT_dead_code(node) \
	ASSIGNS(node, GHOST_MSG) \
	INVARIANT((node == NULL || node == &S_after) && g_errs == ENTRY(g_errs) && g_warns == ENTRY(g_warns)) \
	INVARIANT(CLEAN_BELOW == (node ? g_clean : true)) if (PIN(node, &S_after))
#include "loops.h"
#include "skull/common/malloc.c"
#include "skull/semantic/flow.c"

static void any_node(AstNode *n) { n->type = (NodeType)vp_below(AST_NODE_CONTINUE + 1); n->token = &G_tok; n->child = NULL; n->next = NULL; n->last = NULL; n->expr = NULL; }
void harness(void) {
	init_types();
	any_node(&S_node); any_node(&S_after); any_node(&S_last); any_node(&S_child);
	g_clean = vp_bool(); g_expr_ok = vp_bool(); g_body_ok = vp_bool(); g_last_has_if = vp_bool();
	g_ety = pick_type(); g_nexpr = g_nbody = 0;
	static AstNodeExpr E2; E2.oper = (ExprType)vp_below(EXPR_DEREF + 1);
	S_after.next = vp_bool() ? &S_after : NULL;
	S_after.expr = &E2; S_after.child = vp_bool() ? &S_child : NULL;
	ASSUME(g_clean == (harmless(S_after.type) && (S_after.next ? g_clean : true)));
	S_node.next = vp_bool() ? &S_after : NULL;
	S_node.last = vp_bool() ? &S_last : NULL;
	S_node.child = vp_bool() ? &S_child : NULL;
	S_expr.oper = (ExprType)vp_below(EXPR_DEREF + 1); S_expr.value._bool = vp_bool(); S_expr.type = NULL; S_expr.lhs.tok = &G_tok;
	S_state.while_loop_depth = (unsigned)vp_below(100000);
	S_state.main_func = &S_main; S_main.func = &S_mfunc; S_mfunc.return_type = &TYPE_INT;
	S_main.name = S_cur.name = "f";
	bool in_main = vp_bool();
	S_state.current_func = &S_cur; S_cur.func = &S_func; S_func.return_type = pick_type();
	if (in_main) { S_state.main_func = &S_cur; S_func.return_type = &TYPE_INT; }
#if defined(UNIT_RETURN)
	S_node.type = AST_NODE_RETURN; S_node.expr = vp_bool() ? &S_expr : NULL;
	validate_stmt_return(&S_state, &S_node);
#elif defined(UNIT_UNREACHABLE)
	S_node.type = AST_NODE_UNREACHABLE; validate_stmt_unreachable(&S_node);
#elif defined(UNIT_BREAK)
	validate_control_break(&S_state, &S_node);
#elif defined(UNIT_CONTINUE)
	validate_control_continue(&S_state, &S_node);
#elif defined(UNIT_IF)
	S_node.type = AST_NODE_IF; S_node.expr = &S_expr; validate_control_if(&S_state, &S_node);
#elif defined(UNIT_ELIF)
	S_node.type = AST_NODE_ELIF; S_node.expr = &S_expr; validate_control_elif(&S_state, &S_node);
#elif defined(UNIT_ELSE)
	S_node.type = AST_NODE_ELSE; validate_control_else(&S_state, &S_node);
#elif defined(UNIT_WHILE)
	S_node.type = AST_NODE_WHILE; S_node.expr = &S_expr; validate_control_while(&S_state, &S_node);
#elif defined(UNIT_MISSING_IF)
	S_node.type = vp_bool() ? AST_NODE_ELIF : AST_NODE_ELSE; validate_control_not_missing_if(&S_node);
#elif defined(UNIT_SANE)
	S_node.expr = &S_expr;
	assert_sane_child(vp_bool() ? &S_node : NULL);
#endif
	REACH("the checked function returns");
}
#endif
