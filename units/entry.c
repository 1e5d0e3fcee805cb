/* C04: every statement of a block is checked by the rule for its kind, in
 * order.  The real skull/semantic/entry.c.  The statements of a block are an
 * unbounded list given by a summary node (see flow.c). */
#ifdef VP_CBMC
#include "sem.h"
#include "skull/semantic/entry.h"
#include "skull/semantic/assign.h"
#include "skull/semantic/expr.h"
#include "skull/semantic/flow.h"
#include "skull/semantic/import.h"
#include "skull/semantic/unused.h"

static AstNode S_node; static SemanticState S_state; static Scope S_scope, S_inner;
bool g_sane, g_rule_ok;      /* outcome for the arbitrary statement S_node */
bool g_all_ok;               /* all statements from here on are accepted */
bool g_unused_ok; unsigned g_nunused, g_reset, g_child, g_parent, g_adj, g_order;
int g_rule;                  /* which rule was applied */

#define NODE_OK (g_sane && g_rule_ok)
#define EXPECT_RULE(t) ((t) == AST_NODE_UNKNOWN || (t) == AST_NODE_COMMENT || (t) == AST_NODE_NOOP ? -1 : (int)(t))

#ifdef UNIT_NODE
static bool validate_ast_node(SemanticState *state, AstNode *node)
REQUIRES(node == &S_node && g_rule == -1)
ASSIGNS(GHOST_MSG, g_rule)
ENSURES(RET == (g_sane && (EXPECT_RULE(S_node.type) == -1 || g_rule_ok)))
ENSURES(g_sane ==> g_rule == EXPECT_RULE(S_node.type))
;
#else
static bool validate_ast_node(SemanticState *state, AstNode *node)
REQUIRES(node == &S_node)
ASSIGNS()
ENSURES(RET == NODE_OK)
;
#endif
bool validate_ast_tree(SemanticState *state, AstNode *node)
REQUIRES(node == &S_node || node == NULL)
ASSIGNS(g_nunused, g_reset)
ENSURES(RET == ((node ? g_all_ok : true) && g_unused_ok))
;
bool setup_and_validate_ast_sub_tree(SemanticState *state, AstNode *node)
REQUIRES((node == &S_node || node == NULL) && state == &S_state && state->scope == &S_scope)
ASSIGNS(g_child, g_parent, g_adj, g_order, g_reset, S_state.scope)
ENSURES(RET == (node ? g_all_ok : true))
ENSURES(g_child == 1 && g_parent == 1 && g_adj == (RET ? 1 : 0) && S_state.scope == &S_scope)
;

/* callees: the rule for each kind of statement */
bool assert_sane_child(const AstNode *n) { CHECK(n == &S_node, "the statement itself"); return g_sane; }
#define RULE(name, T, ...) bool name(__VA_ARGS__) { g_rule = T; return g_rule_ok; }
RULE(validate_stmt_return, AST_NODE_RETURN, SemanticState *s, const AstNode *n)
RULE(validate_stmt_unreachable, AST_NODE_UNREACHABLE, const AstNode *n)
RULE(validate_stmt_func_decl, AST_NODE_FUNCTION_PROTO, SemanticState *s, const AstNode *n)
RULE(validate_stmt_var_def, AST_NODE_VAR_DEF, SemanticState *s, const AstNode *n)
RULE(validate_stmt_var_assign, AST_NODE_VAR_ASSIGN, SemanticState *s, const AstNode *n)
RULE(validate_expr_func, AST_NODE_EXPR, SemanticState *s, const AstNode *n)
RULE(validate_control_if, AST_NODE_IF, SemanticState *s, const AstNode *n)
RULE(validate_control_else, AST_NODE_ELSE, SemanticState *s, const AstNode *n)
RULE(validate_control_elif, AST_NODE_ELIF, SemanticState *s, const AstNode *n)
RULE(validate_control_while, AST_NODE_WHILE, SemanticState *s, const AstNode *n)
RULE(validate_control_break, AST_NODE_BREAK, SemanticState *s, const AstNode *n)
RULE(validate_control_continue, AST_NODE_CONTINUE, SemanticState *s, const AstNode *n)
RULE(validate_control_namespace, AST_NODE_NAMESPACE, SemanticState *s, AstNode *n)
RULE(validate_stmt_import, AST_NODE_IMPORT, const AstNode *n)
bool check_unused_symbols(const AstNode *n) { g_nunused++; return g_unused_ok; }
void reset_scope_head(SemanticState *s) { (void)s; if (g_reset < 9) g_reset++; }
void make_child_scope(SemanticState *s) { CHECK(s->scope == &S_scope && !g_order, "one scope per block"); g_child++; g_order = 1; s->scope = &S_inner; }
void restore_parent_scope(SemanticState *s) { CHECK(s->scope == &S_inner && g_order == 1, "scopes nest"); g_parent++; g_order = 2; s->scope = &S_scope; }
void make_adjacent_scope(SemanticState *s) { CHECK(s->scope == &S_scope && g_order == 2, "scopes nest"); g_adj++; g_order = 3; }

#define LOOP_CONTRACT_statements(node) \
	ASSIGNS(node) \
	INVARIANT(node == NULL || node == &S_node) \
	INVARIANT((ENTRY(node) ? g_all_ok : true) == (node ? g_all_ok : true)) if (PIN(node, &S_node))
#include "loops.h"
#include "skull/semantic/entry.c"

void harness(void) {
	init_types();
	S_node.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1); S_node.next = vp_bool() ? &S_node : NULL;
	g_sane = vp_bool(); g_rule_ok = vp_bool(); g_all_ok = vp_bool(); g_unused_ok = vp_bool(); g_rule = -1;
	g_nunused = g_reset = g_child = g_parent = g_adj = g_order = 0;
	S_state.scope = &S_scope;
	AstNode *arg = vp_bool() ? &S_node : NULL;
#if defined(UNIT_NODE)
	validate_ast_node(&S_state, &S_node);
#else
	ASSUME(g_all_ok == (NODE_OK && (S_node.next ? g_all_ok : true)));
# ifdef UNIT_TREE
	validate_ast_tree(&S_state, arg);
# else
	setup_and_validate_ast_sub_tree(&S_state, arg);
# endif
#endif
	REACH("the checked function returns");
}
#endif
