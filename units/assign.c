/* C02: variable definitions and assignments.  The real skull/semantic/assign.c
 * and variable.c. */
#ifdef VP_CBMC
#include "sem.h"
#include "skull/semantic/assign.h"
#include "skull/semantic/mangle.h"

/* ghost outcomes of the callees (arbitrary) */
bool g_is_alias, g_alias_ok, g_expr_ok, g_add_ok, g_found;
const Type *g_ety, *g_xty;      /* type of the expression; of the explicit type name (NULL: unknown) */
unsigned g_nexpr, g_nalias, g_nadd;
bool g_was_const_lit;
Symbol *g_added;

static AstNode S_node; static AstNodeVarDef S_def; static AstNodeVarAssign S_set; static AstNodeExpr S_expr;
static AstNodeFunctionCall S_call; static Symbol S_fsym, S_sym, S_other; static FunctionDeclaration S_func; static Variable S_var;
static Token T_name, T_type, T_end, T_first;

#define VOID_CALL (S_expr.oper == EXPR_FUNC && g_ety == &TYPE_VOID)
#define VTYPE (S_def.is_implicit ? g_ety : g_xty)
#define TRIVIAL (S_expr.oper == EXPR_CONST && !S_def.is_implicit)

bool validate_stmt_var_def(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node && g_nexpr == 0 && g_nalias == 0 && g_nadd == 0)
ASSIGNS(GHOST_MSG, g_nexpr, g_nalias, g_nadd, g_added, S_expr.type, S_def.symbol, S_func.was_called)
FREES()
ENSURES(g_is_alias ==> (RET == g_alias_ok && g_nalias == 1 && g_nexpr == 0 && g_nadd == 0))
ENSURES(!g_is_alias ==> (g_nalias == 0 && g_nexpr == 1))
ENSURES(!g_is_alias ==> RET == (g_expr_ok && !VOID_CALL && VTYPE != NULL && g_add_ok && g_ety == VTYPE && !(TRIVIAL && BUILD_DATA.werror)))
/* the definition that was entered */
ENSURES(!g_is_alias && g_expr_ok && !VOID_CALL && VTYPE != NULL ==> g_nadd == 1)
ENSURES(g_nadd == 1 && g_add_ok ==> (S_def.symbol == g_added && g_added->type == SYMBOL_VAR && g_added->expr_type == VTYPE))
ENSURES(g_nadd == 1 && g_add_ok ==> (g_added->var->type == VTYPE && g_added->var->is_const == S_def.is_const && g_added->var->is_exported == S_def.is_exported))
ENSURES(g_nadd == 1 && g_add_ok ==> (g_added->var->is_defined && g_added->var->expr == &S_expr && g_added->var->implicitly_typed == S_def.is_implicit && !g_added->var->was_read && !g_added->var->was_reassigned))
ENSURES(g_nadd == 1 && g_add_ok ==> (g_added->name == g_added->var->name && g_added->location.line == T_name.location.line && g_added->location.column == T_name.location.column))
ENSURES(!g_is_alias ==> (RET ? g_errs == 0 && g_warns == (TRIVIAL ? 1 : 0) : (g_errs > 0 || (BUILD_DATA.werror && g_warns > 0))))
;
bool validate_stmt_var_assign(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node && g_nexpr == 0)
ASSIGNS(GHOST_MSG, g_nexpr, S_expr.type, S_expr.symbol, S_set.symbol, S_var)
ENSURES(RET == (g_found && !OLD(S_var.is_const) && g_expr_ok && g_ety == S_var.type && !(S_expr.oper == EXPR_IDENTIFIER && S_expr.symbol == &S_sym)))
ENSURES(RET ==> (S_var.was_reassigned && S_set.symbol == &S_sym && g_errs == 0 && g_nexpr == 1))
ENSURES(!RET ==> g_errs > 0)
ENSURES(S_var.is_const == OLD(S_var.is_const) && S_var.type == OLD(S_var.type) && S_var.was_read == OLD(S_var.was_read))
;

/* callees */
const Type *token_to_type(SemanticState *s, const Token *t) {
	(void)s;
	if (t == &T_first) return g_is_alias ? &TYPE_INT : NULL;
	CHECK(t == &T_type, "the declared type is the type written after the name");
	return g_xty;
}
bool validate_stmt_type_alias(SemanticState *s, const AstNode *n) { (void)s; (void)n; g_nalias++; if (!g_alias_ok) g_errs++; return g_alias_ok; }
bool validate_expr(SemanticState *s, AstNodeExpr *e) {
	(void)s; CHECK(e == &S_expr, "the expression of the statement is checked");
	g_nexpr++;
	if (!g_expr_ok) { g_errs++; return false; }
	e->type = g_ety;
	return true;
}
Symbol *scope_find_var(SemanticState *s, const Token *const t) { (void)s; CHECK(t == S_node.token, "the assigned name is looked up"); if (!g_found) { g_errs++; return NULL; } return &S_sym; }
bool scope_add_symbol(SemanticState *s, Symbol *y) { (void)s; g_nadd++; g_added = y; if (!g_add_ok) g_errs++; return g_add_ok; }
char *mangle_name(const char *n) { (void)n; return VP_MALLOC(2); }
char32_t *token_to_string(const Token *t) { CHECK(t == &T_name, "the variable is called as written"); return VP_MALLOC(8); }
char *token_to_mbs_str(const Token *t) { (void)t; return VP_MALLOC(2); }
char *c32stombs(const char32_t *s, const Location *l) { (void)s; (void)l; return VP_MALLOC(2); }
bool is_valid_identifier_str(const char32_t *s) { (void)s; return true; }

#include "loops.h"
#include "skull/common/malloc.c"
#include "skull/semantic/assign.c"
#include "skull/semantic/variable.c"

void harness(void) {
	init_types();
	SemanticState *st = VP_MALLOC(sizeof *st);
	g_nexpr = g_nalias = g_nadd = 0; g_added = NULL;
	g_is_alias = vp_bool(); g_alias_ok = vp_bool(); g_expr_ok = vp_bool(); g_add_ok = vp_bool(); g_found = vp_bool();
	g_ety = pick_type(); g_xty = vp_bool() ? pick_type() : NULL;
	S_expr.oper = (ExprType)vp_below(EXPR_DEREF + 1); S_expr.type = NULL;
	S_expr.lhs.func_call = &S_call; S_call.func_name_tok = &G_tok; S_call.symbol = &S_fsym; S_fsym.func = &S_func;
	S_expr.lhs.tok = &G_tok; S_expr.symbol = NULL;
	S_expr.symbol = vp_bool() ? &S_sym : vp_bool() ? &S_other : NULL;
	S_node.token = &T_name; S_node.token_end = &T_end; T_end.next = &T_first; T_name.next = &T_type;
	T_name.location.line = (unsigned)vp_nd(); T_name.location.column = (unsigned)vp_nd();
#ifdef UNIT_DEF
	S_node.var_def = &S_def; S_def.name_tok = &T_name; S_def.expr = &S_expr; S_def.symbol = NULL;
	S_def.is_implicit = vp_bool(); S_def.is_const = vp_bool(); S_def.is_exported = vp_bool();
	validate_stmt_var_def(st, &S_node);
	REACH("validate_stmt_var_def returns");
#else
	S_node.var_assign = &S_set; S_set.expr = &S_expr; S_set.symbol = NULL;
	S_sym.type = SYMBOL_VAR; S_sym.var = &S_var;
	S_var.type = pick_type(); S_var.is_const = vp_bool(); S_var.was_reassigned = vp_bool(); S_var.was_read = vp_bool();
	validate_stmt_var_assign(st, &S_node);
	REACH("validate_stmt_var_assign returns");
#endif
}
#endif
