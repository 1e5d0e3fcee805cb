/* C20: the control flow of the code that is generated.  The real
 * skull/codegen/llvm/flow.c and core.c over a recorder of the control-flow
 * graph (llvmcfg.h).  What the callees do is their contract: an expression is
 * generated in the current block; a list of statements is generated from the
 * current block on, and ends in an arbitrary block which it either leaves
 * (return, break, ...) or not. */
#ifdef VP_CBMC
#include "llvmcfg.h"

static AstNode S_root, S_next, S_com, S_body1, S_body2, S_chain; static AstNodeExpr S_e1, S_e2;
static struct LLVMOpaqueBasicBlock B_entry, B_end, B_exit1, B_exit2, B_wc, B_we; static struct LLVMOpaqueValue V_c2;
static Scope S_sc0, S_sc1, S_ch0, S_ch1, S_sc2;
/* prophecies: where the bodies end, and whether they leave */
bool g_left1, g_left2, g_same1, g_same2, g_if_false; LLVMBasicBlockRef g_e1, g_e2;
LLVMBasicBlockRef g_s1, g_s2, g_cb1, g_cb2;    /* where they start, where conditions are evaluated */
unsigned g_n1, g_n2, g_nc1, g_nc2; LLVMBasicBlockRef g_wcond, g_wend; bool g_scope1, g_scope2; LLVMMetadataRef g_di1;
const AstNode *G_node; const AstNode *g_first;  /* first statement after the comments */

#define CFG GHOST_CFG, g_s1, g_s2, g_cb1, g_cb2, g_n1, g_n2, g_nc1, g_nc2, g_wcond, g_wend, g_scope1, g_scope2, g_di1, g_e1, g_e2, B_entry, B_end, B_exit1, B_exit2, DEBUG_INFO, S_sem.scope, S_state, g_zero

Expr gen_expr(const AstNodeExpr *const e, const SkullStateLLVM *s)
#ifndef UNIT_DISPATCH
{
	OPEN(s->builder); CHECK(e == &S_e1 || e == &S_e2, "an expression of this statement");
	if (e == &S_e1) { g_nc1++; g_cb1 = g_bb; return (Expr){ &V_cond, &TYPE_BOOL }; }
	g_nc2++; g_cb2 = g_bb; return (Expr){ &V_c2, &TYPE_BOOL };
}
#else
;
#endif
void restore_parent_scope(SemanticState *s) { if (s->scope) s->scope = s->scope->parent; }

#if defined(UNIT_TREE)
/* ---- a list of statements ---- */
static AstNode S_a, S_b; static const AstNode *g_expect; unsigned g_ngen; bool g_left;
#define LEAVES(n) ((n)->type == AST_NODE_RETURN || (n)->type == AST_NODE_UNREACHABLE || (n)->type == AST_NODE_BREAK || (n)->type == AST_NODE_CONTINUE)
static Expr gen_node(const AstNode **node, SkullStateLLVM *s);
Expr gen_tree(const AstNode *node, SkullStateLLVM *state)
REQUIRES(node == NULL || node == &S_a)
ASSIGNS(g_expect, g_left, g_ngen)
/* every statement is generated, in order, up to the first that leaves (or the
 * end); the result tells whether there is one */
ENSURES((RET.value != NULL) == g_left)
ENSURES(!g_left ==> g_expect == NULL)
;
#define LOOP_CONTRACT_gen_statements(node) \
	ASSIGNS(node, g_expect, g_left, g_ngen) INVARIANT(node == NULL || node == &S_a || node == &S_b) INVARIANT(node == g_expect && !g_left) \
	if (PIN2(node, (const AstNode *)&S_a, (const AstNode *)&S_b))
#elif defined(UNIT_DISPATCH)
/* ---- which statement generates what (one node) ---- */
#define GEN(name, args, kind) void name args { (void)state; g_n1++; CHECK(state == &S_state, "the state"); CHECK(S_root.type == kind, "the generator of this kind of statement"); }
void gen_stmt_func_decl(const AstNode *const n, SkullStateLLVM *state) { CHECK(n == &S_root && state == &S_state && S_root.type == AST_NODE_FUNCTION_PROTO, "a function declaration"); g_n1++; }
static AstNodeVarDef S_def; static AstNodeVarAssign S_asg; static AstNodeFunctionCall S_call;
void gen_stmt_var_def(const AstNodeVarDef *n, SkullStateLLVM *state) { CHECK(n == &S_def && state == &S_state && S_root.type == AST_NODE_VAR_DEF, "a definition"); g_n1++; }
void gen_stmt_var_assign(const AstNodeVarAssign *n, SkullStateLLVM *state) { CHECK(n == &S_asg && state == &S_state && S_root.type == AST_NODE_VAR_ASSIGN, "an assignment"); g_n1++; }
Expr gen_expr_func_call(const AstNodeFunctionCall *const n, const SkullStateLLVM *state) { CHECK(n == &S_call && state == &S_state && S_root.type == AST_NODE_EXPR, "a call"); g_n1++; return (Expr){ &V_cond, &TYPE_INT }; }
Expr gen_expr(const AstNodeExpr *const n, const SkullStateLLVM *state) { CHECK(n == &S_e1 && state == &S_state && S_root.type == AST_NODE_EXPR, "a call"); g_n1++; return (Expr){ &V_cond, &TYPE_INT }; }
void gen_control_if(const AstNode **n, SkullStateLLVM *state) { CHECK(*n == &S_root && state == &S_state && S_root.type == AST_NODE_IF, "an if"); g_n1++; *n = &S_next; }
void gen_control_while(const AstNode *n, SkullStateLLVM *state) { CHECK(n == &S_root && state == &S_state && S_root.type == AST_NODE_WHILE, "a loop"); g_n1++; }
void gen_control_namespace(const AstNode *n, SkullStateLLVM *state) { CHECK(n == &S_root && state == &S_state && S_root.type == AST_NODE_NAMESPACE, "a namespace"); g_n1++; }
Expr gen_stmt_return(const AstNode *n, const SkullStateLLVM *state) { CHECK(n == &S_root && state == &S_state && S_root.type == AST_NODE_RETURN, "a return"); g_n1++; return (Expr){ &V_term, &TYPE_INT }; }
Expr gen_stmt_unreachable(const SkullStateLLVM *state) { CHECK(state == &S_state && S_root.type == AST_NODE_UNREACHABLE, "an unreachable"); g_n1++; return (Expr){ &V_term, &TYPE_VOID }; }
Expr gen_stmt_break(const SkullStateLLVM *state) { CHECK(state == &S_state && S_root.type == AST_NODE_BREAK, "a break"); g_n1++; return (Expr){ &V_term, &TYPE_VOID }; }
Expr gen_stmt_continue(const SkullStateLLVM *state) { CHECK(state == &S_state && S_root.type == AST_NODE_CONTINUE, "a continue"); g_n1++; return (Expr){ &V_term, &TYPE_VOID }; }
void gen_stmt_noop(const Location *l, const SkullStateLLVM *state) { CHECK(state == &S_state && S_root.type == AST_NODE_NOOP, "a no-op"); (void)l; g_n1++; }
void gen_stmt_implicit_main_return(const Location *l, const SkullStateLLVM *state) { (void)l; (void)state; }
#define LEAVES(n) ((n)->type == AST_NODE_RETURN || (n)->type == AST_NODE_UNREACHABLE || (n)->type == AST_NODE_BREAK || (n)->type == AST_NODE_CONTINUE)
#elif defined(UNIT_MODULE)
bool g_left; unsigned g_nret; static struct LLVMOpaqueValue *g_v;
Expr gen_tree(const AstNode *node, SkullStateLLVM *state)
REQUIRES(node == &S_root && state == &S_state && g_n1 == 0)
ASSIGNS(g_n1)
ENSURES(g_n1 == 1 && __CPROVER_pointer_equals(RET.value, g_v))
;
/* the program ends with status 0, unless it leaves before */
void gen_module(const AstNode *node, SkullStateLLVM *state)
REQUIRES(node == &S_root && state == &S_state)
ASSIGNS(g_n1, g_nret)
ENSURES(g_n1 == 1 && g_nret == (g_v ? 0 : 1))
;
void gen_stmt_implicit_main_return(const Location *l, const SkullStateLLVM *s) { (void)l; CHECK(s == &S_state, "the state"); CHECK(g_n1 == 1, "after the statements"); g_nret++; }
#else
/* contract of gen_tree (proved in UNIT_TREE, for any list) */
Expr gen_tree(const AstNode *n, SkullStateLLVM *s) {
	OPEN(s->builder); CHECK(s == &S_state && (n == &S_body1 || n == &S_body2), "the body of this statement");
	const bool one = n == &S_body1; const bool left = one ? g_left1 : g_left2;
	if (one) {
		g_n1++; g_s1 = g_bb; g_scope1 = S_sem.scope == &S_ch0; g_di1 = DEBUG_INFO.scope;
		g_wcond = S_state.current_while_cond; g_wend = S_state.current_while_end;
	}
	else { g_n2++; g_s2 = g_bb; g_scope2 = S_sem.scope == &S_ch1; }
	/* it ends in this same block, or in another */
	if (!(one ? g_same1 : g_same2)) { g_bb->term = T_BODY; g_bb = one ? &B_exit1 : &B_exit2; }
	if (one) g_e1 = g_bb; else g_e2 = g_bb;
	if (left) { g_bb->term = T_BODY; return (Expr){ &V_term, &TYPE_VOID }; }
	return (Expr){ 0 };
}
#endif

#if defined(UNIT_WHILE)
/* entry -> C;  C: evaluate the condition, -> L or X;  L: body, -> C unless it
 * leaves;  the code below goes on in X */
#define WC S_state.current_while_cond
void gen_control_while(const AstNode *node, SkullStateLLVM *state)
REQUIRES(node == &S_root && state == &S_state)
ASSIGNS(CFG)
ENSURES(g_nc1 == 1 && g_n1 == 1)
ENSURES(B_entry.term == T_BR && B_entry.t == g_cb1 && g_cb1 != &B_entry)
ENSURES(g_cb1->term == T_COND && g_cb1->v == &V_cond && g_cb1->t == g_s1 && g_cb1->f == g_bb)
ENSURES(g_s1 != g_bb && g_s1 != g_cb1 && g_bb != g_cb1 && g_bb != &B_entry && g_bb->term == T_NONE)
ENSURES(g_left1 ? g_e1->term == T_BODY : g_e1->term == T_BR && g_e1->t == g_cb1)
ENSURES(g_s1->term != T_NONE)
/* continue and break in the body; those below belong to the outer loop */
ENSURES(g_wcond == g_cb1 && g_wend == g_bb)
ENSURES(S_state.current_while_cond == OLD(S_state.current_while_cond) && S_state.current_while_end == OLD(S_state.current_while_end))
ENSURES(g_scope1 && S_sem.scope == &S_sc1 && DEBUG_INFO.scope == &M_outer)
ENSURES(S_state.builder == &S_builder && S_state.ctx == &S_ctx && S_state.current_func == &S_cur && S_state.semantic == &S_sem)
;
#elif defined(UNIT_IF)
static void gen_control_if_(const AstNode **node, LLVMBasicBlockRef entry, LLVMBasicBlockRef end, SkullStateLLVM *state)
REQUIRES(state == &S_state && end == &B_end && end->term == T_NONE && end->bodies == 0)
/* the statement itself, or the rest of its chain */
REQUIRES((*node == &S_root && entry == &B_entry && B_entry.term == T_NONE) ||
	(*node == &S_next && S_next.type == AST_NODE_ELIF && entry->term == T_NONE && S_sem.scope == &S_sc1 && g_bb->term != T_NONE + 100))
ASSIGNS(*node, g_bb, S_sem.scope; *node == &S_root: CFG; *node == &S_next: entry->term)
ENSURES(OLD(*node) == &S_next ==> __CPROVER_pointer_equals(*node, (const AstNode *)&S_chain) && entry->term == T_CHAIN && __CPROVER_pointer_equals(g_bb, &B_end) && __CPROVER_pointer_equals(S_sem.scope, &S_sc2))
#define R (OLD(*node) == &S_root)
/* entry: evaluate the condition, -> body or the rest */
ENSURES(R ==> g_nc1 == 1 && g_n1 == 1 && g_cb1 == &B_entry && B_entry.term == T_COND && B_entry.v == &V_cond && B_entry.t == g_s1 && g_scope1)
ENSURES(R ==> g_s1 != &B_entry && g_s1 != &B_end && g_s1->term != T_NONE)
ENSURES(R ==> (g_left1 ? g_e1->term == T_BODY : g_e1->term == T_BR && g_e1->t == &B_end))
#define ELSE_ (g_first && g_first->type == AST_NODE_ELSE)
#define ELIF_ (g_first && g_first->type == AST_NODE_ELIF)
ENSURES(R && !ELSE_ && !ELIF_ ==> B_entry.f == &B_end && g_n2 == 0 && *node == &S_root && S_sem.scope == &S_sc1)
ENSURES(R && ELSE_ ==> B_entry.f == g_s2 && g_n2 == 1 && *node == &S_next && S_sem.scope == &S_sc2 && g_s2 != g_s1 && g_s2 != &B_end && g_scope2)
ENSURES(R && ELSE_ ==> g_s2->term != T_NONE && (g_left2 ? g_e2->term == T_BODY : g_e2->term == T_BR && g_e2->t == &B_end))
ENSURES(R && ELIF_ ==> B_entry.f->term == T_CHAIN && B_entry.f != g_s1 && B_entry.f != &B_end && g_n2 == 0 && *node == &S_chain && S_sem.scope == &S_sc2)
/* the code below goes on at the end of the chain */
ENSURES(R ==> g_bb == &B_end && B_end.term == T_NONE && DEBUG_INFO.scope == &M_outer)
ENSURES(R ==> S_state.current_while_cond == &B_wc && S_state.current_while_end == &B_we)
;
#define LOOP_CONTRACT_if_comments(n) \
	ASSIGNS(n) INVARIANT(n == &S_com || n == g_first) if (PIN2(n, (const AstNode *)&S_com, (const AstNode *)&S_next))
#elif defined(UNIT_IFTOP)
/* the chain starts here and ends in a new block, where the code below goes on */
static void gen_control_if_(const AstNode **node, LLVMBasicBlockRef entry, LLVMBasicBlockRef end, SkullStateLLVM *state)
REQUIRES(state == &S_state && *node == &S_root && entry == &B_entry && g_bb == &B_entry && B_entry.term == T_NONE && end == &BB_[0] && end->term == T_NONE && vp_nbb == 1)
ASSIGNS(*node, CFG)
ENSURES(__CPROVER_pointer_equals(*node, (const AstNode *)(g_if_false ? &S_chain : &S_root)) && B_entry.term == T_CHAIN && __CPROVER_pointer_equals(g_bb, &BB_[0]) && BB_[0].term == T_NONE)
;
void gen_control_if(const AstNode **node, SkullStateLLVM *state)
REQUIRES(*node == &S_root && state == &S_state)
ASSIGNS(*node, CFG)
ENSURES(B_entry.term == T_CHAIN && g_bb->term == T_NONE && g_bb != &B_entry && *node == (g_if_false ? &S_chain : &S_root))
;
#elif defined(UNIT_NAMESPACE)
/* the body is generated in place; what is below it goes on where it ends, or,
 * if it leaves, in a block of its own */
void gen_control_namespace(const AstNode *node, SkullStateLLVM *state)
REQUIRES(node == &S_root && state == &S_state)
ASSIGNS(CFG)
ENSURES(g_n1 == 1 && g_s1 == &B_entry && g_bb->term == T_NONE && g_scope1 && S_sem.scope == &S_sc1 && DEBUG_INFO.scope == &M_outer)
ENSURES(g_left1 ? g_bb != g_e1 && g_e1->term == T_BODY : g_bb == g_e1)
ENSURES(g_wcond == &B_wc && g_wend == &B_we && S_state.current_while_cond == &B_wc && S_state.current_while_end == &B_we)
;
#elif defined(UNIT_RETURN)
Expr gen_stmt_return(const AstNode *node, const SkullStateLLVM *state)
REQUIRES(node == &S_root && state == &S_state)
ASSIGNS(CFG)
ENSURES(RET.value != NULL && g_bb == &B_entry)
ENSURES(S_root.expr ? g_nc1 == 1 && g_cb1 == &B_entry && B_entry.term == T_RET && B_entry.v == &V_cond : B_entry.term == T_RETVOID && g_nc1 == 0)
/* a function without a result does not get a second return (gen_function_def) */
ENSURES(!S_root.expr ==> RET.type == &TYPE_VOID)
;
#elif defined(UNIT_JUMPS)
Expr gen_stmt_break(const SkullStateLLVM *state)
REQUIRES(state == &S_state) ASSIGNS(CFG) ENSURES(RET.value != NULL && RET.type == &TYPE_VOID && g_bb == &B_entry && B_entry.term == T_BR && B_entry.t == &B_we) ;
Expr gen_stmt_continue(const SkullStateLLVM *state)
REQUIRES(state == &S_state) ASSIGNS(CFG) ENSURES(RET.value != NULL && RET.type == &TYPE_VOID && g_bb == &B_entry && B_entry.term == T_BR && B_entry.t == &B_wc) ;
Expr gen_stmt_unreachable(const SkullStateLLVM *state)
REQUIRES(state == &S_state) ASSIGNS(CFG) ENSURES(RET.value != NULL && RET.type == &TYPE_VOID && g_bb == &B_entry && B_entry.term == T_UNREACHABLE) ;
void gen_stmt_implicit_main_return(const Location *location, const SkullStateLLVM *state)
REQUIRES(state == &S_state) ASSIGNS(CFG) ENSURES(g_bb == &B_entry && B_entry.term == T_RET && B_entry.v == &V_zero && g_zero == 0) ;
void gen_stmt_noop(const Location *location, const SkullStateLLVM *state)
REQUIRES(state == &S_state) ASSIGNS(CFG) ENSURES(g_bb == &B_entry && B_entry.term == T_NONE) ;
#endif

#include "loops.h"
#if defined(UNIT_TREE)
#include "skull/codegen/llvm/core.c"
static Expr gen_node(const AstNode **node, SkullStateLLVM *s)
REQUIRES(*node == g_expect && *node != NULL && !g_left && s == &S_state)
ASSIGNS(*node, g_expect, g_left)
/* an if may move on to the end of its chain */
ENSURES(OLD(*node) == &S_a ==> (__CPROVER_pointer_equals(*node, (const AstNode *)(g_if_false ? &S_b : &S_a))))
ENSURES(OLD(*node) == &S_b ==> (__CPROVER_pointer_equals(*node, (const AstNode *)&S_b)))
ENSURES(g_left == (OLD(*node) == &S_a ? LEAVES(&S_a) : LEAVES(&S_b)) && (RET.value != NULL) == g_left && (!g_left ==> RET.type == NULL))
ENSURES(*node == &S_a ? __CPROVER_pointer_equals(g_expect, S_a.next) : __CPROVER_pointer_equals(g_expect, S_b.next))
;
#elif defined(UNIT_DISPATCH)
#include "skull/codegen/llvm/core.c"
static Expr gen_node(const AstNode **node, SkullStateLLVM *s)
REQUIRES(*node == &S_root && s == &S_state && S_root.type >= AST_NODE_VAR_DEF && S_root.type != AST_NODE_ELIF && S_root.type != AST_NODE_ELSE)
ASSIGNS(*node, g_n1)
ENSURES(g_n1 == ((S_root.type == AST_NODE_IMPORT || S_root.type == AST_NODE_COMMENT) ? 0 : 1))
ENSURES(LEAVES(&S_root) ? RET.value != NULL : RET.value == NULL && RET.type == NULL)
ENSURES(*node == (S_root.type == AST_NODE_IF ? &S_next : &S_root))
;
#elif defined(UNIT_MODULE)
#include "skull/codegen/llvm/core.c"
#else
#include "skull/codegen/llvm/flow.c"
#endif

static void blk(LLVMBasicBlockRef b) { b->term = T_NONE; b->t = b->f = NULL; b->v = NULL; b->bodies = b->conds = b->stores = 0; b->body = NULL; }
void harness(void) {
	init_types(); BUILD_DATA.debug = vp_bool(); DEBUG_INFO.scope = &M_outer;
	S_state.builder = &S_builder; S_state.ctx = &S_ctx; S_state.module = &S_module; S_state.semantic = &S_sem; S_state.current_func = &S_cur; S_state.main_func = &S_cur;
	S_cur.func = &S_fn; S_fn.ref = &V_func; S_state.current_while_cond = &B_wc; S_state.current_while_end = &B_we;
	blk(&B_entry); blk(&B_end); blk(&B_exit1); blk(&B_exit2); blk(&B_wc); blk(&B_we);
	vp_nbb = 0; g_bb = &B_entry; g_n1 = g_n2 = g_nc1 = g_nc2 = 0; g_scope1 = g_scope2 = false; g_cb1 = g_cb2 = g_s1 = g_s2 = g_e1 = g_e2 = NULL;
	g_left1 = vp_bool(); g_left2 = vp_bool(); g_same1 = vp_bool(); g_same2 = vp_bool(); g_if_false = vp_bool();
	/* the scopes of the blocks, one after the other (C05) */
	S_sem.scope = &S_sc0; S_sc0.child = &S_ch0; S_sc0.next = &S_sc1; S_ch0.parent = &S_sc0; S_sc1.child = &S_ch1; S_ch1.parent = &S_sc1; S_sc1.next = &S_sc2;
	S_sc0.parent = S_sc1.parent = S_sc2.parent = NULL; S_ch0.next = S_ch1.next = S_sc2.next = NULL;
	S_root.token = S_next.token = S_com.token = &G_tok; S_root.child = &S_body1; S_next.child = &S_body2; S_root.expr = &S_e1; S_next.expr = &S_e2;
	S_com.type = AST_NODE_COMMENT; S_next.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1); ASSUME(S_next.type != AST_NODE_COMMENT);
	g_first = vp_bool() ? &S_next : NULL; S_com.next = vp_bool() ? &S_com : (AstNode *)g_first; S_root.next = vp_bool() ? &S_com : (AstNode *)g_first;
	const AstNode *node = &S_root;
#if defined(UNIT_WHILE)
	gen_control_while(&S_root, &S_state);
#elif defined(UNIT_IF)
	gen_control_if_(&node, &B_entry, &B_end, &S_state);
#elif defined(UNIT_IFTOP)
	gen_control_if(&node, &S_state);
#elif defined(UNIT_NAMESPACE)
	gen_control_namespace(&S_root, &S_state);
#elif defined(UNIT_RETURN)
	if (vp_bool()) S_root.expr = NULL;
	gen_stmt_return(&S_root, &S_state);
#elif defined(UNIT_JUMPS)
	switch (vp_below(5)) {
		case 0: gen_stmt_break(&S_state); break;
		case 1: gen_stmt_continue(&S_state); break;
		case 2: gen_stmt_unreachable(&S_state); break;
		case 3: gen_stmt_implicit_main_return(&G_tok.location, &S_state); break;
		default: gen_stmt_noop(&G_tok.location, &S_state);
	}
#elif defined(UNIT_TREE)
	S_a.next = vp_bool() ? &S_b : NULL; S_b.next = vp_bool() ? &S_a : NULL; S_a.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1); S_b.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1);
	g_left = false; node = vp_bool() ? &S_a : NULL; g_expect = node;
	gen_tree(node, &S_state);
#elif defined(UNIT_DISPATCH)
	S_root.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1); S_root.var_def = &S_def; S_root.var_assign = &S_asg; S_e1.lhs.func_call = &S_call; S_e1.oper = EXPR_FUNC;
	ASSUME(S_root.type >= AST_NODE_VAR_DEF && S_root.type != AST_NODE_ELIF && S_root.type != AST_NODE_ELSE);
	gen_node(&node, &S_state);
#elif defined(UNIT_MODULE)
	g_v = vp_bool() ? &V_term : NULL; g_nret = 0;
	gen_module(&S_root, &S_state);
#endif
	REACH("the generator returns");
}
#endif
