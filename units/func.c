/* C03: function declarations.  The real skull/semantic/func.c and variable.c.
 *
 * Parameters: an array of unbounded length whose elements are all the same
 * (arbitrary) parameter; the outcome of resolving and entering each is drawn
 * afresh, and recorded for an arbitrary position G_w.
 * Body: an unbounded list given by a summary node, with the attribute g_val =
 * "the first return/unreachable from here on returns a value". */
#ifdef VP_CBMC
#include "sem.h"
#include "skull/semantic/entry.h"
#include "skull/semantic/mangle.h"

bool g_top, g_add_ok, g_body_ok, g_val; const Type *g_rty;
unsigned g_np, G_w; const Type *g_wty; bool g_bad_param; unsigned g_padded;
bool g_body_scope_ok; unsigned g_nbody; int g_depth;   /* nesting of scopes relative to the start */
Symbol *g_added;
static AstNode S_node, S_stmt; static AstNodeFunctionParam S_param; static SemanticState S_state; static Symbol S_outer, S_main;
static Token T_name, T_ret, T_pt; static Location S_loc; static AstNodeExpr S_expr;
static unsigned short N; static AstNodeFunctionProto S_proto;
#define MAXP 16

static FunctionDeclaration S_func; static Symbol S_new, S_psym; static const Type *S_types[MAXP]; static Variable S_pvar; static char S_name[4];
#define PROTO (&S_proto)
#define RETT (PROTO->return_type_token ? g_rty : &TYPE_VOID)
#define RETURNS (S_node.child ? g_val : false)

bool validate_stmt_func_decl(SemanticState *state, const AstNode *node)
REQUIRES(node == &S_node && state == &S_state)
ASSIGNS(vp_in, GHOST_MSG, g_np, g_wty, g_bad_param, g_padded, g_body_scope_ok, g_nbody, g_depth, g_added, S_state, S_param.symbol, PROTO->symbol, S_func, S_new, S_psym, S_pvar, __CPROVER_object_whole(S_types))
/* accepted iff: exported/external only at the top level, known return type, new
 * name, every parameter accepted, body accepted, and a value returned exactly
 * if the function is declared to return one */
ENSURES(RET ==> (g_top || !(PROTO->is_export || PROTO->is_external)))
ENSURES(RET ==> (RETT != NULL && g_add_ok && !g_bad_param && g_padded == N && g_nbody == 1 && g_body_ok))
ENSURES(RET && !PROTO->is_external ==> RETURNS == (RETT != &TYPE_VOID))
ENSURES(!RET ==> ((!g_top && (PROTO->is_export || PROTO->is_external)) || RETT == NULL || !g_add_ok || g_bad_param || !g_body_ok ||
	(!PROTO->is_external && RETURNS != (RETT != &TYPE_VOID))))
ENSURES(RET == (g_errs == 0))
/* the function that callers are checked against */
ENSURES(RET ==> (PROTO->symbol == &S_new && g_added == &S_new && S_new.type == SYMBOL_FUNC && S_new.func == &S_func && S_func.return_type == RETT && S_func.num_params == N))
ENSURES(RET ==> (S_func.is_external == PROTO->is_external && S_func.is_export == PROTO->is_export))
ENSURES(RET && G_w < N ==> S_func.param_types == S_types && S_types[G_w] == g_wty)
/* inside the body the function is the current one and no loop is open;
 * afterwards everything is as before */
ENSURES(g_nbody == 1 ==> g_body_scope_ok)
ENSURES(S_state.while_loop_depth == OLD(S_state.while_loop_depth) && S_state.current_func == OLD(S_state.current_func))
ENSURES(g_depth == 0)
;

/* callees */
bool is_top_lvl_scope(SemanticState *s) { (void)s; return g_top; }
const Type *token_to_type(SemanticState *s, const Token *t) {
	(void)s;
	if (t == &T_ret) return g_rty;
	CHECK(t == &T_pt, "the type of the parameter");
	const Type *r = vp_bool() ? pick_type() : NULL;
	if (g_np == G_w) g_wty = r;
	g_np++;
	if (!r) g_bad_param = true;
	return r;
}
bool scope_add_symbol(SemanticState *s, Symbol *y) { (void)s; g_added = y; if (!g_add_ok) g_errs++; return g_add_ok; }
bool scope_add_var(SemanticState *s, Symbol *y) {
	(void)s; CHECK(g_depth == 1, "parameters live in the scope of the body");
	CHECK(y->var->is_const && y->var->is_defined && y->type == SYMBOL_VAR && y->var->type == y->expr_type, "a parameter is a defined constant of its type");
	if (vp_bool()) { g_padded++; return true; }
	g_bad_param = true; return false;
}
void make_child_scope(SemanticState *s) { (void)s; g_depth++; }
void restore_parent_scope(SemanticState *s) { (void)s; g_depth--; }
bool setup_and_validate_ast_sub_tree(SemanticState *s, AstNode *n) {
	CHECK(n == S_node.child, "the body of the function is checked"); g_nbody++;
	g_body_scope_ok = s->current_func == g_added && s->while_loop_depth == 0 && g_depth == 0;
	if (!g_body_ok) g_errs++;
	return g_body_ok;
}
Symbol *scope_find_name(const Scope *const s, char *n) { (void)s; (void)n; return NULL; }
char *mangle_name(const char *n) { (void)n; return VP_MALLOC(2); }
char *token_to_mbs_str(const Token *t) { (void)t; return VP_MALLOC(2); }
char *c32stombs(const char32_t *s, const Location *l) { (void)s; (void)l; return VP_MALLOC(2); }
bool is_valid_identifier_str(const char32_t *s) { (void)s; return true; }
#define strdup(x) ((char *)VP_MALLOC(2))

/* allocation: fresh zeroed objects, one per role (the parameter's symbol and
 * variable are reused from one parameter to the next) */
static void *vp_alloc(size_t k, size_t n) {
	if (n == sizeof(Type) || n == sizeof(Type *)) { CHECK(k * n >= N * sizeof(Type *), "one type per parameter"); return S_types; }
	if (n == sizeof(FunctionDeclaration)) { S_func = (FunctionDeclaration){0}; return &S_func; }
	if (n == sizeof(Symbol) && g_depth == 0) { S_new = (Symbol){0}; return &S_new; }
	if (n == sizeof(Symbol)) { S_psym = (Symbol){0}; return &S_psym; }
	CHECK(false, "an allocation of an expected kind");
	return NULL;
}
#include "skull/common/malloc.h"
#define Calloc(n, s) vp_alloc(n, s)
#define Malloc(s) vp_alloc(1, s)
#define free(p) ((void)(p))
/* contract of make_variable (proved in assign_def) */
Variable *make_variable(const Type *t, const char32_t *const n, bool c) {
	(void)n; S_pvar = (Variable){ .name = S_name, .linkage_name = S_name, .type = t, .is_const = c }; return t ? &S_pvar : NULL;
}
void free_variable(Variable *v) { (void)v; }
void variable_disable_warnings(Variable *v) { v->was_read = v->was_reassigned = true; }
#define PARAM_STATE vp_in, S_psym, S_pvar

#define LOOP_CONTRACT_terminal_node(t) \
	ASSIGNS(t) INVARIANT(t == NULL || t == &S_stmt) INVARIANT((t ? g_val : false) == RETURNS) if (PIN(t, &S_stmt))
#define LOOP_CONTRACT_func_params(i) \
	ASSIGNS(i, PARAM_STATE, GHOST_MSG, g_np, g_wty, g_bad_param, g_padded, S_param.symbol, __CPROVER_object_whole(S_types)) \
	INVARIANT(i <= N && g_np == i && g_padded == i && !g_bad_param && g_errs == 0 && g_depth == 1) \
	INVARIANT(i > G_w ==> S_types[G_w] == g_wty) INVARIANT(function->param_types == S_types && function->num_params == N) \
	DECREASES(N - i)
#include "loops.h"
#include "skull/semantic/func.c"

void harness(void) {
	init_types();
	g_top = vp_bool(); g_add_ok = vp_bool(); g_body_ok = vp_bool(); g_val = vp_bool(); g_rty = vp_bool() ? pick_type() : NULL;
	g_np = g_padded = g_nbody = 0; g_bad_param = false; g_depth = 0; G_w = (unsigned)vp_nd(); g_added = NULL; g_wty = NULL;
	N = (unsigned short)vp_nd();
	ASSUME(N <= MAXP);
	S_node.func_proto = &S_proto;
	for (unsigned k = 0; k < MAXP; k++) PROTO->params[k] = &S_param;
	PROTO->name_tok = &T_name; PROTO->return_type_token = vp_bool() ? &T_ret : NULL; PROTO->num_params = N; PROTO->symbol = NULL;
	PROTO->is_external = vp_bool(); PROTO->is_export = vp_bool();
	static char32_t nm[2];
	S_param.type_name = &T_pt; S_param.param_name = nm; S_param.location = &S_loc; S_param.symbol = NULL;
	S_node.type = AST_NODE_FUNCTION_PROTO; S_node.child = vp_bool() ? &S_stmt : NULL;
	S_stmt.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1); S_stmt.next = vp_bool() ? &S_stmt : NULL; S_stmt.expr = vp_bool() ? &S_expr : NULL;
	ASSUME(g_val == (S_stmt.type == AST_NODE_RETURN ? S_stmt.expr != NULL : S_stmt.type == AST_NODE_UNREACHABLE ? false : S_stmt.next ? g_val : false));
	S_state.while_loop_depth = (unsigned)vp_nd(); S_state.current_func = &S_outer; S_state.main_func = &S_main; S_state.scope = NULL;
	validate_stmt_func_decl(&S_state, &S_node);
	REACH("validate_stmt_func_decl returns");
}
#endif
