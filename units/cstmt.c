/* C12: statements of the C back end.  The real skull/codegen/c/{assign,flow,
 * func,core}.c, over texts with a meaning (ctext.h). */
#ifdef VP_CBMC
#if defined(UNIT_TREE)
#define CTEXT_LIGHT
#define L1 "%s\n%s"
#define L2 ""
#elif defined(UNIT_PROTO)
#define CTEXT_LIGHT
#define L1 "%s, %s"
#define L2 "%s %s(%s) __asm__(\"%s\");\n"
#define L3 "%s %s(%s);"
#define L4 "%s%s %s(%s) {\n%s\n}"
#define L5 "%sstatic %s %s(%s) {\n%s\n}"
#define LWORD "void"
#endif
#include "ctext.h"
#include "skull/codegen/c/core.h"
#include "skull/codegen/c/expr.h"
#include "skull/codegen/c/types.h"
static SkullStateC S_state; static AstNode S_node, S_body; static AstNodeExpr S_e, S_e2; static Symbol S_sym; static Variable S_var; static AstNodeVarDef S_def; static AstNodeVarAssign S_asg;
static struct text T_e, T_tree, T_ind, T_name, T_link, T_type, T_ns, T_glob, T_sym; unsigned g_ne, g_ntree, g_order_e, g_order_t; unsigned g_ind_at; bool g_infn_at; const AstNodeExpr *g_want_e;

#if defined(UNIT_STMT)
/* contracts: gen_expr_c (cgen.c), gen_tree_c (UNIT_TREE) */
char *gen_expr_c(const AstNodeExpr *e, SkullStateC *s) { CHECK(e == g_want_e && s == &S_state, "the expression of the statement"); g_ne++; return (char *)&T_e; }
char *gen_tree_c(const AstNode *n, SkullStateC *s) { CHECK(n == &S_body && s == &S_state, "the block of the statement"); g_ntree++; return (char *)&T_tree; }
char *get_indentation(const SkullStateC *s) { (void)s; return (char *)&T_ind; }
char *skull_type_to_c_type(const Type *t) { CHECK(t == S_var.type, "the type of the variable"); return (char *)&T_type; }
#include "loops.h"
bool is_reference(const Type *t) { return t->inner; }
#include "skull/codegen/c/flow.c"
#include "skull/codegen/c/assign.c"
static bool is_lit(const char *p, const char *lit) { return TX(p)->m == MEAN_(lit, 0, 0, 0, 0, 0); }
static void reset(void) { g_ne = g_ntree = 0; }
#define M(p) TX(p)->m
static void def(bool is_const, bool exported, bool cexpr, bool glob) {
	reset(); S_state.globals = glob ? (char *)&T_glob : NULL; n_known = 0;
	S_var.is_const = is_const; S_var.is_exported = exported; S_e.is_const_expr = cexpr; S_var.expr = &S_e; g_want_e = &S_e;
	/* any expression; those that denote an address are not constant in C */
	bool addr = S_e.oper == EXPR_IDENTIFIER && (S_var.type == &TYPE_STR || S_var.type->inner != NULL);
	bool top = S_state.indent_lvl == 1 && !S_state.in_func;
	char *old = S_state.globals; uint64_t og = old ? M(old) : __CPROVER_uninterpreted_mean(SH(""), 0, 0, 0, 0, 0);
	char *r = gen_stmt_var_def_c(&S_node, &S_state);
	CHECK(g_ne == 1, "the value is computed once");
	if (!top) {
		CHECK(r && (M(r) == (is_const ? MEAN("const %s %s = %s;", T_type.m, T_name.m, T_e.m) : MEAN("%s %s = %s;", T_type.m, T_name.m, T_e.m)) || (is_const && M(r) == MEAN("%s %s = %s;", T_type.m, T_name.m, T_e.m))), "a variable of a block is defined there, with its value");
		CHECK(S_state.globals == old, "and nowhere else");
		return;
	}
	char *g = S_state.globals; CHECK(g && g != old, "a global is defined at file level");
	const uint64_t n = T_name.m, t = T_type.m, l = T_link.m, e = T_e.m;
	if (r) {
		CHECK(M(r) == MEAN("%s = %s;", n, e), "a global is given its value where it is defined");
		CHECK(M(g) == (exported ? MEAN("%s\n%s %s __asm__(\"%s\");", og, t, n, l) : MEAN("%s\nstatic %s %s;", og, t, n)), "a global is visible elsewhere iff it is exported, under its name");
	}
	else {
		CHECK(cexpr && !addr, "only what is constant in C initialises a global");
		CHECK(M(g) == (exported ? MEAN("%s\nconst %s %s __asm__(\"%s\") = %s;", og, t, n, l, e) : is_const ? MEAN("%s\nstatic const %s %s = %s;", og, t, n, e) : MEAN("%s\nstatic %s %s = %s;", og, t, n, e)), "a global is visible elsewhere iff it is exported, under its name, with its value");
	}
}
void harness(void) {
	init_types(); g_nf = 0; T_known[0] = &T_name; T_known[1] = &T_type; T_known[2] = &T_ind; T_known[3] = &T_e;
	T_e.m = vp_nd(); T_e.lvl = vp_bool() ? UNARY : PRIMARY; T_tree.m = vp_nd(); T_ind.m = vp_nd(); T_name.m = vp_nd(); T_link.m = vp_nd(); T_type.m = vp_nd(); T_glob.m = vp_nd(); T_sym.m = vp_nd();
	T_e.c[0] = T_tree.c[0] = T_ind.c[0] = T_name.c[0] = T_link.c[0] = T_type.c[0] = T_glob.c[0] = T_sym.c[0] = 1;
	T_tree.lvl = T_ind.lvl = T_name.lvl = T_link.lvl = T_type.lvl = T_sym.lvl = PRIMARY; T_glob.lvl = LOW;
	S_node.child = &S_body; S_node.symbol = &S_sym; S_sym.name = (char *)&T_sym; S_sym.var = &S_var; S_var.name = (char *)&T_name; S_var.linkage_name = (char *)&T_link; S_var.type = pick_type(); S_e.oper = vp_below(64);
	S_node.var_def = &S_def; S_node.var_assign = &S_asg; S_def.symbol = &S_sym; S_def.expr = &S_e; S_asg.symbol = &S_sym; S_asg.expr = &S_e; S_node.expr = &S_e; g_want_e = &S_e;
	const char *r; uint64_t e = T_e.m, b = T_tree.m, i = T_ind.m;
#define STMT(call, shape, ne, nt, what) reset(); r = call; CHECK(M(r) == shape, what); CHECK(g_ne == ne && g_ntree == nt, what ", once");
	STMT(gen_stmt_return_c(&S_node, &S_state), MEAN("return %s;", e), 1, 0, "return yields its value")
	STMT(gen_control_if_c(&S_node, &S_state), MEAN("if (%s) {\n%s\n%s}", e, b, i), 1, 1, "if runs its block under its condition")
	STMT(gen_control_elif_c(&S_node, &S_state), MEAN("else if (%s) {\n%s\n%s}", e, b, i), 1, 1, "elif runs its block under its condition if nothing before did")
	STMT(gen_control_else_c(&S_node, &S_state), MEAN("else {\n%s\n%s}", b, i), 0, 1, "else runs its block if nothing before did")
	STMT(gen_control_while_c(&S_node, &S_state), MEAN("while (%s) {\n%s\n%s}", e, b, i), 1, 1, "while runs its block as long as its condition holds")
	STMT(gen_control_namespace_c(&S_node, &S_state), MEAN("\"%s\"; {\n%s\n%s}", T_sym.m, b, i), 0, 1, "a namespace runs its block")
	STMT(gen_stmt_var_assign_c(&S_node, &S_state), MEAN("%s = %s;", T_name.m, e), 1, 0, "an assignment gives its variable its value")
	S_node.expr = NULL; r = gen_stmt_return_c(&S_node, &S_state); CHECK(is_lit(r, "return;"), "return");
	r = gen_stmt_break_c(&S_node); CHECK(is_lit(r, "break;"), "break leaves the loop");
	r = gen_stmt_continue_c(&S_node); CHECK(is_lit(r, "continue;"), "continue starts the next iteration");
	S_state.indent_lvl = vp_nd(); S_state.in_func = vp_bool();
	/* an exported variable is constant: its value never changes elsewhere */
	for (unsigned k = 0; k < 16; k++) if (!(k & 2) || (k & 1)) def(k & 1, k & 2, k & 4, k & 8);
	S_def.symbol = NULL; CHECK(gen_stmt_var_def_c(&S_node, &S_state) == NULL, "a definition that is dropped has no text");
	REACH("the generators return");
}

#elif defined(UNIT_TREE)
/* the texts of the statements of a block, in order: G_list[m] is the text of
 * the first m statements that have one */
#define INF __CPROVER_constant_infinity_uint
static uint64_t G_text[INF], G_list[INF]; static bool G_none[INF]; static struct text T_a0, T_a1; unsigned g_n, g_m, g_len, g_lvl;
#define SLOT(n) (((n) & 3) == 0 ? &T_out0 : ((n) & 3) == 1 ? &T_out1 : ((n) & 3) == 2 ? &T_out2 : &T_out3)
#define LIST_AT(m) ((m) == 0 ? (char *)NULL : (m) == 1 ? (char *)&T_a0 : (char *)SLOT((m) - 2))
static char *gen_node_c(const AstNode *node, SkullStateC *state)
REQUIRES(node == &S_node && state == &S_state && g_n < g_len && S_state.indent_lvl == g_lvl + 1)
ASSIGNS(g_n, g_m, T_a0, T_a1, S_node.next)
ENSURES(g_n == OLD(g_n) + 1 && g_m == OLD(g_m) + (G_none[g_n - 1] ? 0 : 1) && __CPROVER_pointer_equals(S_node.next, g_n == g_len ? (AstNode *)NULL : &S_node))
ENSURES(__CPROVER_pointer_equals(RET, G_none[g_n - 1] ? (char *)NULL : (g_m & 1) ? (char *)&T_a0 : (char *)&T_a1))
ENSURES(!G_none[g_n - 1] && (g_m & 1) ? T_a0.m == G_text[g_m - 1] : T_a0.m == OLD(T_a0.m))
ENSURES(!G_none[g_n - 1] && !(g_m & 1) ? T_a1.m == G_text[g_m - 1] : T_a1.m == OLD(T_a1.m))
ENSURES(T_a0.lvl == LOW && T_a1.lvl == LOW && T_a0.c[0] == 1 && T_a1.c[0] == 1)
ENSURES(g_m == 0 || G_list[g_m] == (g_m == 1 ? G_text[0] : __CPROVER_uninterpreted_mean(1, G_list[g_m - 1], G_text[g_m - 1], 0, 0, 0)))
;
char *gen_tree_c(const AstNode *node, SkullStateC *state)
REQUIRES(node == (g_len ? &S_node : NULL) && state == &S_state)
ASSIGNS(S_state.indent_lvl, g_n, g_m, T_a0, T_a1, S_node.next, GHOST_TEXT, s_lvl)
ENSURES(g_n == g_len && S_state.indent_lvl == OLD(S_state.indent_lvl))
ENSURES(g_m > 0 ? TX(RET)->m == G_list[g_m] : RET != NULL && TX(RET)->m == __CPROVER_uninterpreted_mean(2, 0, 0, 0, 0, 0))
;
#define LOOP_CONTRACT_gen_statements_c(node, gen) \
	ASSIGNS(node, gen, g_n, g_m, T_a0, T_a1, S_node.next, GHOST_TEXT, s_lvl) INVARIANT(g_n <= g_len && g_m <= g_n && g_nf == (g_m < 2 ? 0 : g_m - 1)) \
	INVARIANT(node == (g_n == g_len ? NULL : &S_node) && gen == LIST_AT(g_m) && (g_m == 0 || (gen[0] == 1 && TX(LIST_AT(g_m))->m == G_list[g_m]))) DECREASES(g_len - g_n) \
	if (PIN(node, (const AstNode *)&S_node) & PIN(gen, LIST_AT(g_m)))
#include "loops.h"
#include "skull/codegen/c/core.c"
void harness(void) {
	init_types(); g_n = g_m = g_nf = 0; g_len = vp_below(1u << 31); g_lvl = vp_below(1u << 31); S_state.indent_lvl = g_lvl; T_known[0] = T_known[1] = T_known[2] = T_known[3] = &T_name;
	T_a0.c[0] = T_a1.c[0] = 1;
	gen_tree_c(g_len ? &S_node : NULL, &S_state);
	REACH("the generator returns");
}
#elif defined(UNIT_NODE)
/* every statement is generated by the generator of its kind, once */
unsigned g_calls; int g_kind; const AstNode *g_node;
#define GEN(fn, kind) char *fn(const AstNode *n, SkullStateC *s) { CHECK((n == &S_node) && s == &S_state, "the statement"); g_calls++; g_kind = kind; return (char *)&T_e; }
#define GEN1(fn, kind) char *fn(const AstNode *n) { CHECK(n == &S_node || !n, "the statement"); g_calls++; g_kind = kind; return (char *)&T_e; }
GEN(gen_stmt_var_def_c, AST_NODE_VAR_DEF) GEN(gen_stmt_var_assign_c, AST_NODE_VAR_ASSIGN) GEN(gen_stmt_return_c, AST_NODE_RETURN) GEN1(gen_stmt_noop_c, AST_NODE_NOOP)
GEN(gen_stmt_func_call_c, AST_NODE_EXPR) GEN(gen_control_if_c, AST_NODE_IF) GEN(gen_control_elif_c, AST_NODE_ELIF) GEN(gen_control_else_c, AST_NODE_ELSE) GEN(gen_control_while_c, AST_NODE_WHILE)
GEN1(gen_stmt_unreachable_c, AST_NODE_UNREACHABLE) GEN(gen_control_namespace_c, AST_NODE_NAMESPACE) GEN1(gen_stmt_break_c, AST_NODE_BREAK) GEN1(gen_stmt_continue_c, AST_NODE_CONTINUE)
void gen_function_def_c(const AstNode *n, SkullStateC *s) { CHECK(n == &S_node && s == &S_state, "the statement"); g_calls++; g_kind = AST_NODE_FUNCTION_PROTO; }
char *get_indentation(const SkullStateC *s) { (void)s; return (char *)&T_ind; }
char *apply_debug_info(char *str, const AstNode *n) { CHECK(n == &S_node, "the statement"); return str; }
#include "loops.h"
#include "skull/codegen/c/core.c"
void harness(void) {
	init_types(); g_nf = 0; T_known[0] = T_known[1] = T_known[2] = T_known[3] = &T_name; T_e.c[0] = T_ind.c[0] = 1; T_e.m = vp_nd(); T_ind.m = vp_nd(); T_e.lvl = T_ind.lvl = PRIMARY;
	S_node.type = vp_below(64); g_calls = 0;
	char *r = gen_node_c(&S_node, &S_state); const int t = S_node.type;
	bool gen = t == AST_NODE_VAR_DEF || t == AST_NODE_VAR_ASSIGN || t == AST_NODE_RETURN || t == AST_NODE_NOOP || t == AST_NODE_EXPR || t == AST_NODE_IF || t == AST_NODE_ELIF || t == AST_NODE_ELSE || t == AST_NODE_WHILE ||
		t == AST_NODE_UNREACHABLE || t == AST_NODE_FUNCTION_PROTO || t == AST_NODE_NAMESPACE || t == AST_NODE_BREAK || t == AST_NODE_CONTINUE;
	CHECK(g_calls == (gen ? 1 : 0) && (!gen || g_kind == t), "every statement is generated once, by the generator of its kind");
	CHECK(gen && t != AST_NODE_FUNCTION_PROTO ? r && TX(r)->m == MEAN("%s%s", T_ind.m, T_e.m) : !r, "its text is indented");
	REACH("the generator returns");
}
#elif defined(UNIT_PROTO)
/* the prototype: every parameter in its position */
#define INF __CPROVER_constant_infinity_uint
static uint64_t G_arg[INF], G_list[INF]; static struct text T_a0, T_a1; unsigned g_n, g_want; static AstNodeFunctionProto S_proto; static FunctionDeclaration S_func; static AstNodeFunctionParam S_p; uint64_t g_mean;
#define NP S_func.num_params
#define SLOT(n) (((n) & 3) == 0 ? &T_out0 : ((n) & 3) == 1 ? &T_out1 : ((n) & 3) == 2 ? &T_out2 : &T_out3)
#define LIST_AT(m) ((m) == 0 ? (char *)NULL : (m) == 1 ? (char *)&T_a0 : (char *)SLOT((m) - 2))
char *gen_param_c(AstNodeFunctionParam *p);
char *skull_type_to_c_type(const Type *t) { CHECK(t == S_func.return_type, "the type of the result"); return (char *)&T_type; }
char *gen_tree_c(const AstNode *n, SkullStateC *s) {
	CHECK(n == &S_body && s == &S_state, "the body"); CHECK(s->in_func && s->indent_lvl == 0, "in a function: its variables are its own"); g_ntree++; return (char *)&T_tree;
}
char *apply_debug_info(char *str, const AstNode *n) { CHECK(n == &S_node, "the statement"); return str; }
char *gen_expr_c(const AstNodeExpr *e, SkullStateC *s) { (void)e; (void)s; return (char *)&T_e; }
static char *gen_param_c(AstNodeFunctionParam *param)
REQUIRES(param == &S_p && g_n < NP)
ASSIGNS(g_n, T_a0, T_a1)
ENSURES(g_n == OLD(g_n) + 1 && __CPROVER_pointer_equals(RET, (g_n & 1) ? (char *)&T_a0 : (char *)&T_a1))
ENSURES((g_n & 1) ? T_a0.m == G_arg[g_n - 1] && T_a1.m == OLD(T_a1.m) : T_a1.m == G_arg[g_n - 1] && T_a0.m == OLD(T_a0.m))
ENSURES(T_a0.lvl == LOW && T_a1.lvl == LOW && T_a0.c[0] == 1 && T_a1.c[0] == 1)
ENSURES(G_list[g_n] == (g_n == 1 ? G_arg[0] : __CPROVER_uninterpreted_mean(1, G_list[g_n - 1], G_arg[g_n - 1], 0, 0, 0)))
;
#define UFM __CPROVER_uninterpreted_mean
#define PL (NP == 0 ? UFM(6, 0, 0, 0, 0, 0) : G_list[NP])
#define FWD UFM(2, T_type.m, T_name.m, PL, T_link.m, 0)
char *gen_function_prototype_c(const AstNode *node, SkullStateC *state)
REQUIRES(node == &S_node && state == &S_state)
ASSIGNS(g_n, T_a0, T_a1, GHOST_TEXT, s_lvl, g_ntree, S_state.indent_lvl, S_state.in_func, __CPROVER_object_whole(S_func.params))
ENSURES(g_n == NP && S_state.indent_lvl == OLD(S_state.indent_lvl) && S_state.in_func == OLD(S_state.in_func))
ENSURES(g_ntree == (S_func.is_external ? 0 : 1))
/* declared with its signature; under its linkage name, and visible, iff exported */
ENSURES(TX(RET)->m == (S_func.is_external ? (S_func.is_export ? FWD : UFM(3, T_type.m, T_name.m, PL, 0, 0)) :
	S_func.is_export ? UFM(4, FWD, T_type.m, T_name.m, PL, T_tree.m) : UFM(5, UFM(0, 0, 0, 0, 0, 0), T_type.m, T_name.m, PL, T_tree.m)))
;
#define LOOP_CONTRACT_proto_params_c(i, params, list) \
	ASSIGNS(i, params, list, g_n, T_a0, T_a1, GHOST_TEXT, s_lvl, __CPROVER_object_whole(S_func.params)) INVARIANT(i <= NP && g_n == i && g_nf == (i < 2 ? 0 : i - 1)) \
	INVARIANT(params == S_func.params + i && list == LIST_AT(i) && (i == 0 || (list[0] == 1 && TX(LIST_AT(i))->m == G_list[i]))) DECREASES(NP - i) \
	if (PIN(params, S_func.params + i) & PIN(list, LIST_AT(i)) & (*params = &S_p, true))
#include "loops.h"
#include "skull/codegen/c/func.c"
void harness(void) {
	init_types(); g_nf = g_n = g_ntree = 0;
	S_node.func_proto = &S_proto; S_node.child = &S_body; S_proto.symbol = &S_sym; S_sym.func = &S_func; S_sym.name = (char *)&T_name; S_sym.linkage_name = (char *)&T_link; S_func.return_type = pick_type();
	NP = vp_nd(); S_func.is_export = IS_EXPORT; S_func.is_external = IS_EXTERNAL; S_func.params = malloc(sizeof(void *) * (NP + 1)); ASSUME(S_func.params != NULL);
	S_state.indent_lvl = vp_nd(); S_state.in_func = vp_bool();
	T_tree.m = vp_nd(); T_name.m = vp_nd(); T_link.m = vp_nd(); T_type.m = vp_nd(); T_tree.lvl = T_name.lvl = T_link.lvl = T_type.lvl = PRIMARY; T_tree.c[0] = T_name.c[0] = T_link.c[0] = T_type.c[0] = T_a0.c[0] = T_a1.c[0] = 1;
	gen_function_prototype_c(&S_node, &S_state);
	REACH("the generator returns");
}
#endif
#endif
