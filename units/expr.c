/* C01: typing of expressions.  The real skull/semantic/expr.c; the contract of
 * validate_expr is the local typing judgement, assumed for the operands and
 * proved for the node itself (induction over the expression tree). */
#ifdef VP_CBMC
#include "sem.h"

/* ghost: the node under proof, its operands, and the outcome of their own
 * validation (arbitrary) */
AstNodeExpr *G_root, *G_lhs, *G_rhs;
bool g_ok_l, g_ok_r, g_cst_l, g_cst_r; const Type *g_ty_l, *g_ty_r;
unsigned g_vl, g_vr;                       /* how often each operand was validated */
int64_t g_int; bool g_int_err;             /* value of an integer literal token */
Symbol *g_sym; Variable *g_var; Type *g_ref;
/* calls: the argument at an arbitrary position G_w */
unsigned g_calls, G_w; bool g_w_ok, g_last_ok; const Type *g_w_ty, *g_last_ty;
AstNodeExpr *G_arg; AstNode S_param; AstNodeFunctionCall S_fc; FunctionDeclaration S_func;

static bool oper_unary(ExprType o) { return o == EXPR_UNARY_NEG || o == EXPR_NOT || o == EXPR_REF || o == EXPR_DEREF; }
static bool oper_oper(ExprType o) { return o >= EXPR_ADD && o <= EXPR_DEREF && o != EXPR_IDENTIFIER && o != EXPR_CONST && o != EXPR_FUNC; }
static bool numeric(const Type *t) { return t == &TYPE_INT || t == &TYPE_FLOAT; }

/* The typing rules of the language: operand types -> accepted? */
static bool spec_ok(ExprType o, const Type *l, const Type *r, ExprType r_oper, bool r_zero) {
	if (!oper_unary(o) && l != r) return false;
	switch (o) {
		case EXPR_ADD: case EXPR_SUB: case EXPR_MULT: case EXPR_POW: case EXPR_UNARY_NEG:
		case EXPR_LESS_THAN: case EXPR_GTR_THAN: case EXPR_LESS_THAN_EQ: case EXPR_GTR_THAN_EQ:
			return numeric(r);
		case EXPR_DIV: case EXPR_MOD: return numeric(r) && !r_zero;
		case EXPR_LSHIFT: case EXPR_RSHIFT: return r == &TYPE_INT;
		case EXPR_NOT: case EXPR_AND: case EXPR_OR: case EXPR_XOR: return r == &TYPE_BOOL;
		case EXPR_IS: case EXPR_ISNT: return r != &TYPE_VOID;
		case EXPR_REF: return r_oper == EXPR_IDENTIFIER;
		case EXPR_DEREF: return r_oper == EXPR_IDENTIFIER && r->inner != NULL;
		default: return false;
	}
}
static const Type *spec_type(ExprType o, const Type *r) {
	switch (o) {
		case EXPR_NOT: case EXPR_AND: case EXPR_OR: case EXPR_XOR: case EXPR_IS: case EXPR_ISNT:
		case EXPR_LESS_THAN: case EXPR_GTR_THAN: case EXPR_LESS_THAN_EQ: case EXPR_GTR_THAN_EQ: return &TYPE_BOOL;
		case EXPR_REF: return g_ref;
		case EXPR_DEREF: return r->inner;
		default: return r;
	}
}
static bool r_zero(void) {
	return G_rhs && G_rhs->oper == EXPR_CONST && G_rhs->lhs.tok->type == TOKEN_INT_CONST && !g_int_err && g_int == 0;
}

bool validate_expr(SemanticState *state, AstNodeExpr *expr)
#if defined(UNIT_OPER)
REQUIRES(expr == G_root || expr == G_lhs || expr == G_rhs)
ASSIGNS(expr->type, expr->is_const_expr, GHOST_MSG, g_vl, g_vr; expr == G_root && G_lhs: G_lhs->type, G_lhs->is_const_expr;
	expr == G_root && G_rhs: G_rhs->type, G_rhs->is_const_expr)
/* operands: outcome is the arbitrary ghost outcome */
ENSURES((expr == G_lhs && expr != G_root) ==> RET == g_ok_l)
ENSURES((expr == G_lhs && expr != G_root) && g_ok_l ==> __CPROVER_pointer_equals(expr->type, (Type *)g_ty_l))
ENSURES((expr == G_lhs && expr != G_root) && g_ok_l ==> expr->is_const_expr == g_cst_l)
ENSURES((expr == G_lhs && expr != G_root) ==> (RET || g_errs > 0) && g_vl == 1 && g_vr == OLD(g_vr))
ENSURES((expr == G_rhs && expr != G_root) ==> RET == g_ok_r)
ENSURES((expr == G_rhs && expr != G_root) && g_ok_r ==> __CPROVER_pointer_equals(expr->type, (Type *)g_ty_r))
ENSURES((expr == G_rhs && expr != G_root) && g_ok_r ==> expr->is_const_expr == g_cst_r)
ENSURES((expr == G_rhs && expr != G_root) ==> (RET || g_errs > 0) && g_vr == 1 && g_vl == OLD(g_vl))
ENSURES((expr != G_root) ==> g_errs >= OLD(g_errs) && (RET ==> g_errs == OLD(g_errs)))
/* the node itself: accepted iff both operands are and the typing rule holds */
ENSURES((expr == G_root && oper_unary(G_root->oper)) ==> RET == (g_ok_r && spec_ok(G_root->oper, NULL, g_ty_r, G_rhs->oper, r_zero())))
ENSURES((expr == G_root && !oper_unary(G_root->oper)) ==> RET == (g_ok_r && g_ok_l && spec_ok(G_root->oper, g_ty_l, g_ty_r, G_rhs->oper, r_zero())))
ENSURES((expr == G_root && RET) ==> expr->type == spec_type(G_root->oper, g_ty_r))
ENSURES((expr == G_root && RET && expr->is_const_expr) ==> (g_cst_r && (oper_unary(G_root->oper) || g_cst_l)))
/* a rejection is explained, an acceptance is silent */
ENSURES(expr == G_root ==> RET == (g_errs == 0))
#elif defined(UNIT_IDENT)
REQUIRES(expr == G_root)
ASSIGNS(expr->type, expr->is_const_expr, expr->symbol, GHOST_MSG; g_var: *g_var)
ENSURES(RET == (g_sym != NULL))
ENSURES(RET ==> (expr->symbol == g_sym && expr->type == g_var->type && g_var->was_read))
ENSURES(RET && expr->is_const_expr ==> g_var->is_const && g_var->expr && g_var->expr->is_const_expr)
#elif defined(UNIT_CONST)
REQUIRES(expr == G_root)
ASSIGNS(expr->type, expr->is_const_expr, expr->value, GHOST_MSG)
ENSURES(RET ==> (expr->is_const_expr && g_errs == 0))
ENSURES(!RET && expr->lhs.tok->type >= TOKEN_INT_CONST && expr->lhs.tok->type <= TOKEN_STR_CONST ==> g_errs > 0)
ENSURES(RET && expr->lhs.tok->type == TOKEN_INT_CONST ==> expr->type == &TYPE_INT && expr->value._int == g_int)
ENSURES(RET && expr->lhs.tok->type == TOKEN_FLOAT_CONST ==> expr->type == &TYPE_FLOAT)
ENSURES(RET && expr->lhs.tok->type == TOKEN_BOOL_CONST ==> expr->type == &TYPE_BOOL && expr->value._bool == (g_int & 1))
ENSURES(RET && expr->lhs.tok->type == TOKEN_RUNE_CONST ==> expr->type == &TYPE_RUNE && expr->value.rune == (char32_t)g_int)
ENSURES(RET && expr->lhs.tok->type == TOKEN_STR_CONST ==> expr->type == &TYPE_STR && expr->value.str != NULL)
ENSURES(RET ==> expr->lhs.tok->type >= TOKEN_INT_CONST && expr->lhs.tok->type <= TOKEN_STR_CONST)
ENSURES((!g_int_err && expr->lhs.tok->type >= TOKEN_INT_CONST && expr->lhs.tok->type <= TOKEN_STR_CONST) ==> RET)
#elif defined(UNIT_CALL)
REQUIRES(expr == G_root || expr == G_arg)
ASSIGNS(expr->type, expr->is_const_expr, GHOST_MSG, g_calls, g_w_ok, g_w_ty, g_last_ok, g_last_ty;
	expr == G_root: G_arg->type, G_arg->is_const_expr;
	S_func.was_called; expr == G_root: expr->lhs.func_call->symbol)
/* an argument: arbitrary outcome, recorded for the watched position */
ENSURES((expr == G_arg && expr != G_root) ==> g_calls == OLD(g_calls) + 1 && g_last_ok == RET && g_last_ty == expr->type && known_type(expr->type))
ENSURES((expr == G_arg && expr != G_root) ==> (OLD(g_calls) == G_w ? (g_w_ok == RET && g_w_ty == expr->type) : (g_w_ok == OLD(g_w_ok) && g_w_ty == OLD(g_w_ty))))
ENSURES((expr == G_arg && expr != G_root) ==> (RET ? g_errs == OLD(g_errs) : g_errs > OLD(g_errs)))
ENSURES((expr == G_arg && expr != G_root) ==> (g_sym ? G_root->lhs.func_call->symbol == OLD(G_root->lhs.func_call->symbol) : true))
ENSURES((expr == G_arg && expr != G_root) ==> (OLD(S_func.was_called) ==> S_func.was_called))
/* the call: accepted only if the function is declared, the number of arguments
 * is the number of parameters and (watched position) each argument is accepted
 * and has exactly the type of its parameter */
ENSURES((expr == G_root && RET) ==> (g_sym && g_sym->func->num_params == expr->lhs.func_call->num_values))
ENSURES((expr == G_root && RET && G_w < g_sym->func->num_params) ==> (g_w_ok && g_w_ty == g_sym->func->param_types[G_w]))
ENSURES((expr == G_root && RET) ==> (g_calls == g_sym->func->num_params && expr->type == g_sym->func->return_type && expr->lhs.func_call->symbol == g_sym && g_sym->func->was_called))
/* ... and rejected only for one of those reasons */
ENSURES((expr == G_root && !RET) ==> (!g_sym || g_sym->func->num_params != expr->lhs.func_call->num_values ||
	(g_calls > 0 && (!g_last_ok || g_last_ty != g_sym->func->param_types[g_calls - 1]))))
ENSURES(expr == G_root ==> RET == (g_errs == 0))
#endif
;

/* Assumed contracts of the functions that expr.c calls */
Symbol *scope_find_var(SemanticState *s, const Token *const t) { (void)s; (void)t; if (!g_sym) g_errs++; return g_sym; }
Symbol *find_func_by_name(SemanticState *s, char *n) { (void)s; (void)n; return g_sym; }
Type *get_reference_type(SemanticState *s, const Type *t) { (void)s; (void)t; return g_ref; }
int64_t eval_integer(const Token *t, _Bool *err) { (void)t; if (g_int_err) { *err = true; g_errs++; } return g_int; }
double eval_float(const Token *const t, _Bool *err) { (void)t; if (g_int_err) { *err = true; g_errs++; } return 0; }
_Bool eval_bool(const Token *const t) { (void)t; return g_int & 1; }
char32_t eval_rune(const Token *const t, _Bool *err) { (void)t; if (g_int_err) { *err = true; g_errs++; } return (char32_t)g_int; }
char32_t *eval_str(const Token *const t) { (void)t; if (g_int_err) { g_errs++; return NULL; } return VP_MALLOC(4); }
char *c32stombs(const char32_t *s, const Location *l) { (void)s; (void)l; return VP_MALLOC(1); }
char *token_to_mbs_str(const Token *t) { (void)t; return VP_MALLOC(1); }
_Bool is_reference(const Type *t) { return t->inner != NULL; }

#define LOOP_CONTRACT_call_params(i, param) \
	ASSIGNS(i, param, GHOST_MSG, g_calls, g_w_ok, g_w_ty, g_last_ok, g_last_ty, G_arg->type, G_arg->is_const_expr, S_func.was_called) \
	INVARIANT(i <= g_sym->func->num_params && g_calls == i && g_errs == 0 && S_func.was_called && param == &S_param) \
	INVARIANT(i > G_w ==> (g_w_ok && g_w_ty == g_sym->func->param_types[G_w])) \
	DECREASES(g_sym->func->num_params - i)

#include "loops.h"
#include "skull/semantic/expr.c"

static Symbol S_sym; static Variable S_var; 
static AstNodeExpr S_root, S_lhs, S_rhs, S_arg;
static void fill_expr(AstNodeExpr *e) {
	e->oper = (ExprType)vp_below(EXPR_DEREF + 1);
	Token *t = VP_MALLOC(sizeof *t);
	t->type = (TokenType)vp_below(TOKEN_END + 1);
	e->lhs.tok = t;      /* only read for identifiers and literals */
	e->is_const_expr = vp_bool();
	e->type = NULL; e->rhs = NULL;
}
void harness(void) {
	init_types();
	SemanticState *st = VP_MALLOC(sizeof *st);
	g_int = (int64_t)vp_nd(); g_int_err = vp_bool();
	g_sym = NULL; g_var = NULL; g_vl = g_vr = 0;
	G_lhs = G_rhs = NULL;
	G_root = &S_root;
	G_root->type = NULL; G_root->is_const_expr = false; G_root->rhs = NULL;
	g_ref = vp_bool() ? &T_A : &T_B;
#if defined(UNIT_OPER)
	G_root->oper = (ExprType)vp_below(EXPR_DEREF + 1); ASSUME(oper_oper(G_root->oper));
	G_rhs = &S_rhs; fill_expr(G_rhs); G_root->rhs = G_rhs;
	G_lhs = &S_lhs; fill_expr(G_lhs); S_root.lhs.expr = &S_lhs;
	g_ok_l = vp_bool(); g_ok_r = vp_bool(); g_cst_l = vp_bool(); g_cst_r = vp_bool();
	g_ty_l = pick_type(); g_ty_r = pick_type();
	/* a literal that cannot be evaluated was rejected as an operand already */
	ASSUME(!(g_ok_r && g_int_err));
#elif defined(UNIT_IDENT)
	G_root->oper = EXPR_IDENTIFIER; G_root->lhs.tok = &G_tok;
	if (vp_bool()) {
		g_sym = &S_sym; g_sym->var = g_var = &S_var;
		S_var.type = pick_type(); S_var.is_const = vp_bool();
		S_var.expr = NULL; if (vp_bool()) { fill_expr(&S_arg); S_var.expr = &S_arg; }
	}
#elif defined(UNIT_CONST)
	G_root->oper = EXPR_CONST; G_root->lhs.tok = &G_tok; G_tok.type = (TokenType)vp_below(TOKEN_END + 1);
#elif defined(UNIT_CALL)
	G_root->oper = EXPR_FUNC;
	AstNodeFunctionCall *fc = &S_fc; G_root->lhs.func_call = fc;
	fc->func_name_tok = &G_tok; fc->num_values = (unsigned short)vp_nd(); fc->symbol = NULL;
	/* the argument list: every argument is this (arbitrary) node.  As in the
	 * parser, the list of an empty argument list is a node without a token */
	G_arg = &S_arg; fill_expr(G_arg); G_arg->type = pick_type();
	AstNode *p = &S_param; p->expr = G_arg; p->next = p; p->token = fc->num_values ? &G_tok : NULL;
	fc->params = p;
	g_calls = 0; G_w = (unsigned)vp_nd();
	if (vp_bool()) {
		FunctionDeclaration *f = &S_func; g_sym = &S_sym; g_sym->func = f;
		f->num_params = (unsigned short)vp_nd();
		f->param_types = VP_MALLOC(f->num_params * sizeof(Type *));
		f->return_type = pick_type(); f->was_called = vp_bool();
	}
#endif
	validate_expr(st, G_root);
	REACH("validate_expr returns");
}
#endif
