/* C11/C20/C21: calls and definitions of functions.  The real
 * skull/codegen/llvm/func.c.  G_w is an arbitrary position in the list of
 * arguments (parameters); what is shown for it holds for all of them. */
#ifdef VP_CBMC
#include "llvmcfg.h"

static AstNode S_node, S_body, S_param; static AstNodeFunctionProto S_proto; static AstNodeFunctionCall S_call; static AstNodeExpr S_arg;
static Symbol S_sym, S_old, S_psw, S_pso; static FunctionDeclaration S_func; static Variable S_vw, S_vo; static AstNodeFunctionParam S_pw, S_po;
static struct LLVMOpaqueValue V_f, V_w, V_o, V_ret; static struct LLVMOpaqueType TY_fn, TY_w, TY_o, TY_ret, TY_p;
static struct LLVMOpaqueBasicBlock B_old, B_exit; static Scope S_sc, S_ch, S_scn; static struct LLVMOpaqueMetadata M_fn;
unsigned G_w, g_n, g_ncall, g_nbody, g_ndef, g_nadd, g_nt; bool g_left, g_void, g_args_ok, g_body_ok, g_types_ok; LLVMLinkage g_link; LLVMBasicBlockRef g_e; LLVMTypeRef g_ft; const char *g_name;
unsigned g_pi; bool g_same;
#define NP S_func.num_params

#if defined(UNIT_CALL)
Expr gen_expr(const AstNodeExpr *const e, const SkullStateLLVM *s)
REQUIRES(e == &S_arg && s == &S_state && g_ncall == 0)
ASSIGNS(g_n)
ENSURES(__CPROVER_pointer_equals(RET.value, OLD(g_n) == G_w ? &V_w : &V_o) && g_n == OLD(g_n) + 1)
;
/* every argument is generated once, in order, before the call, and passed in
 * its position to the function that the call names */
Expr gen_expr_func_call(const AstNodeFunctionCall *const call, const SkullStateLLVM *state)
REQUIRES(call == &S_call && state == &S_state)
ASSIGNS(g_n, g_ncall, g_args_ok)
ENSURES(g_n == NP && g_ncall == 1 && g_args_ok && RET.value == &V_ret && RET.type == S_func.return_type)
;
LLVMValueRef LLVMBuildCall2(LLVMBuilderRef B, LLVMTypeRef t, LLVMValueRef f, LLVMValueRef *a, unsigned n, const char *name) {
	(void)name; CHECK(B == &S_builder && t == &TY_fn && f == &V_f, "the function of the call"); CHECK(n == NP && g_n == NP, "all arguments, generated before the call");
	g_args_ok = !(G_w < NP) || a[G_w] == &V_w; g_ncall++; return &V_ret;
}
#define LOOP_CONTRACT_call_args(i, param, params) \
	ASSIGNS(i, param, g_n; params != NULL: __CPROVER_object_whole(params)) INVARIANT(i <= NP && g_n == i && param == &S_param) INVARIANT(i > G_w ==> params[G_w] == &V_w) \
	DECREASES(NP - i) if (PIN(param, (const AstNode *)&S_param))
#elif defined(UNIT_ADD)
/* the declared signature: every parameter in its position, the result; visible
 * to other modules iff exported (or defined in one) */
static void add_func(Symbol *symbol, const SkullStateLLVM *state);
LLVMTypeRef type_to_llvm_type_(const Type *t) { return t == S_func.return_type && t != &T_A && t != &T_B ? &TY_ret : t == &T_A ? &TY_w : &TY_o; }
LLVMTypeRef LLVMFunctionType(LLVMTypeRef r, LLVMTypeRef *p, unsigned n, LLVMBool va) {
	CHECK(r == &TY_ret && n == NP && !va, "the result type, one type per parameter"); g_types_ok = !(G_w < NP) || p[G_w] == &TY_w; g_nt++; return &TY_fn;
}
LLVMValueRef LLVMAddFunction(LLVMModuleRef m, const char *name, LLVMTypeRef t) { CHECK(m == &S_module && t == &TY_fn && g_nt == 1, "a function of this type"); g_name = name; g_nadd++; return &V_f; }
void LLVMSetLinkage(LLVMValueRef v, LLVMLinkage l) { CHECK(v == &V_f, "linkage of the function"); g_link = l; }
#define LOOP_CONTRACT_param_types(i, params) \
	ASSIGNS(i; NP > 0: __CPROVER_object_whole(params)) INVARIANT(i <= NP) INVARIANT(i > G_w ==> params[G_w] == &TY_w) \
	DECREASES(NP - i)
#elif defined(UNIT_DEF)
static void gen_function_def(const AstNode *const node, Symbol *symbol, SkullStateLLVM *state);
LLVMValueRef LLVMGetFirstParam(LLVMValueRef f) { CHECK(f == &V_func, "parameters of the function"); g_pi = 0; return NP == 0 ? NULL : G_w == 0 ? &V_w : &V_o; }
LLVMValueRef LLVMGetNextParam(LLVMValueRef v) { CHECK(v == (g_pi == G_w ? &V_w : &V_o) && g_pi < NP, "LLVM: a parameter"); g_pi++; return g_pi == NP ? NULL : g_pi == G_w ? &V_w : &V_o; }
LLVMMetadataRef add_llvm_func_debug_info(Symbol *y, const SkullStateLLVM *s) { (void)y; (void)s; if (!BUILD_DATA.debug) return NULL; LLVMMetadataRef o = DEBUG_INFO.scope; DEBUG_INFO.scope = &M_fn; return o; }
void restore_parent_scope(SemanticState *s) { if (s->scope) s->scope = s->scope->parent; }
/* contract of gen_tree (proved in lflow.c) */
Expr gen_tree(const AstNode *n, SkullStateLLVM *s) {
	OPEN(s->builder); CHECK(s == &S_state && n == &S_body, "the body of this function"); g_nbody++;
	/* in a new block, as the current function, in its scope, with its parameters bound */
	g_body_ok = g_bb != &B_old && S_state.current_func == &S_sym && S_sem.scope == &S_ch && (!(G_w < NP) || S_vw.ref == &V_w);
	if (!g_same) { g_bb->term = T_BODY; g_bb = &B_exit; }
	g_e = g_bb;
	if (!g_left) return (Expr){ 0 };
	g_bb->term = T_BODY; return (Expr){ &V_term, g_void ? &TYPE_VOID : &TYPE_INT };
}
#define LOOP_CONTRACT_def_params(i, next) \
	ASSIGNS(i, next, g_pi, S_vw.ref, S_vo.ref, __CPROVER_object_whole(S_func.params)) INVARIANT(i <= NP && g_pi == i) \
	INVARIANT(next == (i >= NP ? NULL : i == G_w ? &V_w : &V_o)) INVARIANT(i > G_w ==> S_vw.ref == &V_w) DECREASES(NP - i) \
	if ((S_func.params[i] = (i == G_w ? &S_pw : &S_po), true))
#elif defined(UNIT_DECL)
/* contracts: add_func, gen_function_def */
static void add_func(Symbol *symbol, const SkullStateLLVM *state);
static void gen_function_def(const AstNode *const node, Symbol *symbol, SkullStateLLVM *state);
#endif

#ifndef UNIT_CALL
Expr gen_expr(const AstNodeExpr *const e, const SkullStateLLVM *s);
#endif
#include "skull/common/malloc.h"
#define Calloc(n, s) VP_MALLOC((n) * (s))
#include "loops.h"
#if defined(UNIT_ADD)
#define type_to_llvm_type(t, s) type_to_llvm_type_(t)
#endif
#include "skull/codegen/llvm/func.c"

#if defined(UNIT_ADD)
static void add_func(Symbol *symbol, const SkullStateLLVM *state)
REQUIRES(symbol == &S_sym && state == &S_state)
ASSIGNS(S_func.ref, S_func.type, g_nt, g_nadd, g_types_ok, g_link, g_name)
ENSURES(g_nadd == 1 && g_types_ok && S_func.ref == &V_f && S_func.type == &TY_fn && g_name == S_sym.linkage_name)
ENSURES((g_link == LLVMExternalLinkage) == (S_func.is_external || S_func.is_export))
ENSURES(g_link == LLVMExternalLinkage || g_link == LLVMPrivateLinkage || g_link == LLVMInternalLinkage)
;
#elif defined(UNIT_DEF)
static void gen_function_def(const AstNode *const node, Symbol *symbol, SkullStateLLVM *state)
REQUIRES(node == &S_node && symbol == &S_sym && state == &S_state)
ASSIGNS(GHOST_CFG, g_nbody, g_body_ok, g_e, g_pi, S_vw.ref, S_vo.ref, S_state.current_func, S_sem.scope, DEBUG_INFO.scope, B_exit, __CPROVER_object_whole(S_func.params))
ENSURES(g_nbody == 1 && g_body_ok)
/* a function without a result returns at the end of its body, unless it left */
ENSURES(g_left ? g_e->term == T_BODY : (S_func.return_type == &TYPE_VOID ? g_e->term == T_RETVOID : g_e->term == T_NONE))
/* what is below the function is where it was */
ENSURES(g_bb == &B_old && B_old.term == T_NONE && S_state.current_func == &S_old && S_sem.scope == &S_sc && DEBUG_INFO.scope == &M_outer)
;
#elif defined(UNIT_DECL)
static void add_func(Symbol *symbol, const SkullStateLLVM *state)
REQUIRES(symbol == &S_sym && state == &S_state && g_ndef == 0) ASSIGNS(g_nadd) ENSURES(g_nadd == OLD(g_nadd) + 1) ;
static void gen_function_def(const AstNode *const node, Symbol *symbol, SkullStateLLVM *state)
REQUIRES(node == &S_node && symbol == &S_sym && state == &S_state && g_nadd == 1 && S_sem.scope == &S_sc) ASSIGNS(g_ndef) ENSURES(g_ndef == OLD(g_ndef) + 1) ;
/* declared before its body is generated (recursion); only defined if it is ours */
void gen_stmt_func_decl(const AstNode *const node, SkullStateLLVM *state)
REQUIRES(node == &S_node && state == &S_state) ASSIGNS(g_nadd, g_ndef, S_sem.scope)
ENSURES(g_nadd == 1 && g_ndef == (S_func.is_external ? 0 : 1) && S_sem.scope == &S_scn)
;
#endif
static void blk(LLVMBasicBlockRef b) { b->term = T_NONE; b->t = b->f = NULL; b->v = NULL; b->bodies = b->conds = b->stores = 0; b->body = NULL; }
void harness(void) {
	init_types(); BUILD_DATA.debug = vp_bool(); DEBUG_INFO.scope = &M_outer;
	S_state.builder = &S_builder; S_state.ctx = &S_ctx; S_state.module = &S_module; S_state.semantic = &S_sem; S_state.current_func = &S_old; S_state.main_func = &S_old;
	S_node.func_proto = &S_proto; S_proto.symbol = &S_sym; S_sym.type = SYMBOL_FUNC; S_sym.func = &S_func; S_node.child = &S_body; S_node.token = &G_tok; S_sym.linkage_name = (char[]){"l"}; S_sym.name = (char[]){"n"};
	S_func.num_params = (unsigned short)vp_nd(); S_func.is_external = vp_bool(); S_func.is_export = vp_bool(); S_func.return_type = pick_type();
	S_func.ref = &V_f; S_func.type = &TY_fn; S_func.params = NULL; S_func.param_types = NULL;
	G_w = (unsigned)vp_nd(); g_n = g_ncall = g_nbody = g_ndef = g_nadd = g_nt = g_pi = 0; g_left = vp_bool(); g_void = vp_bool(); g_same = vp_bool(); g_args_ok = g_body_ok = g_types_ok = false;
	blk(&B_old); blk(&B_exit); g_bb = &B_old; vp_nbb = 0; g_link = LLVMWeakAnyLinkage;
	S_sem.scope = &S_sc; S_sc.child = &S_ch; S_ch.parent = &S_sc; S_sc.next = &S_scn; S_sc.parent = NULL;
#if defined(UNIT_CALL)
	S_call.symbol = &S_sym; S_call.params = &S_param; S_param.expr = &S_arg; S_param.next = &S_param; S_call.func_name_tok = &G_tok; S_call.num_values = NP;
	gen_expr_func_call(&S_call, &S_state);
#elif defined(UNIT_ADD)
	S_func.return_type = &TYPE_INT; S_func.param_types = VP_MALLOC(NP * sizeof(Type *));
	if (G_w < NP) S_func.param_types[G_w] = &T_A;
	add_func(&S_sym, &S_state);
#elif defined(UNIT_DEF)
	S_func.ref = &V_func; S_func.params = VP_MALLOC(NP * sizeof(void *)); S_func.param_types = NP ? (const Type **)S_func.params : NULL;
	S_pw.symbol = &S_psw; S_psw.var = &S_vw; S_po.symbol = &S_pso; S_pso.var = &S_vo; S_vw.ref = S_vo.ref = NULL;
	/* a body that leaves with a value belongs to a function with a result (C03);
	 * one that leaves by "return" or "unreachable" alone, to any */
	ASSUME(!g_left || g_void || S_func.return_type != &TYPE_VOID);
	gen_function_def(&S_node, &S_sym, &S_state);
#elif defined(UNIT_DECL)
	gen_stmt_func_decl(&S_node, &S_state);
#endif
	REACH("the generator returns");
}
#endif
