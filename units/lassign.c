/* C11/C21: definitions of and assignments to variables.  The real
 * skull/codegen/llvm/assign.c, over the LLVM API as an interpreter: after the
 * statement, reading the variable (as units/lexpr.c shows it is read) yields
 * the value, at whatever iteration of whatever loop. */
#ifdef VP_CBMC
#if !defined(UNIT_ALLOCA)
#include "llvmrec.h"
#include "skull/codegen/llvm/assign.h"
static SkullStateLLVM S_state; static Symbol S_sym, S_f, S_g; static Variable S_var; static AstNodeVarDef S_def; static AstNodeVarAssign S_asg; static AstNodeExpr S_e;
static struct LLVMOpaqueValue V_v, C_var, P_var, C_tgt; static struct LLVMOpaqueBasicBlock { int x; } B_loop;
unsigned g_ngen, g_nglobal, g_nstore; const char *g_gname; bool g_init; double g_nf; uint64_t g_nb; LLVMValueRef g_np;

/* the value of the expression: arbitrary */
Expr gen_expr(const AstNodeExpr *const e, const SkullStateLLVM *s) { CHECK(e == &S_e && s == &S_state, "the expression of the statement"); g_ngen++; return (Expr){ &V_v, S_var.type }; }
void add_llvm_var_def_debug_info(const Symbol *y, const SkullStateLLVM *s) { (void)y; (void)s; }
LLVMValueRef LLVMAddGlobal(LLVMModuleRef m, LLVMTypeRef t, const char *n) {
	CHECK(m == &S_module, "the module of the state"); g_nglobal++; g_gname = n;
	C_var.ty = t; C_var.i = canon(t, g_nb); C_var.f = g_nf; C_var.pt = g_np; P_var.ty = &TY_PTR; P_var.pt = &C_var; P_var.cst = 1; P_var.link = LLVMExternalLinkage; return &P_var;
}
/* the memory holds its initial value when the statement runs, unless it may
 * have run (and the variable been assigned to) before */
void LLVMSetInitializer(LLVMValueRef v, LLVMValueRef x) {
	CHECK(v == &P_var && x->cst && x->ty == C_var.ty, "LLVM: a global is initialised with a constant of its type"); g_init = true;
	if (!(S_state.current_while_cond && !S_var.is_const)) { C_var.i = x->i; C_var.f = x->f; C_var.pt = x->pt; C_var.str = x->str; }
}
#define IN_MEMORY (S_var.is_global || !S_var.is_const)
#define HOLDS(v) ((v)->ty == V_v.ty && (v)->i == V_v.i && (v)->pt == V_v.pt && (V_v.ty == &TY_F ==> __CPROVER_equal((v)->f, V_v.f)))
#define READS (IN_MEMORY ? ((LLVMValueRef)S_var.ref)->ty == &TY_PTR && HOLDS(((LLVMValueRef)S_var.ref)->pt) : HOLDS((LLVMValueRef)S_var.ref))
#if defined(UNIT_DEF)
void gen_stmt_var_def(const AstNodeVarDef *d, SkullStateLLVM *state)
REQUIRES(d == &S_def && state == &S_state)
ASSIGNS(GHOST_LLVM, S_var.ref, S_var.is_global, S_var.is_const_lit, g_ngen, g_nglobal, g_nstore, g_gname, g_init, C_var, P_var)
ENSURES(!S_def.symbol ==> g_ngen == 0 && g_nglobal == 0)
#define D S_def.symbol != NULL
ENSURES(D ==> g_ngen == 1 && S_var.is_global == (S_state.current_func == S_state.main_func))
ENSURES(D ==> READS)
/* globals: one object of the linkage name, visible iff exported */
ENSURES(D ==> g_nglobal == (S_var.is_global ? 1 : 0) && (S_var.is_global ==> g_init && S_var.ref == &P_var && g_gname == S_var.linkage_name))
ENSURES(D && S_var.is_global ==> (P_var.link == LLVMExternalLinkage) == S_var.is_exported)
ENSURES(D && S_var.is_global ==> P_var.link == LLVMExternalLinkage || P_var.link == LLVMPrivateLinkage || P_var.link == LLVMInternalLinkage)
/* a local that can change has memory of its own */
ENSURES(D && !S_var.is_global && !S_var.is_const ==> S_var.ref != &V_v && ((LLVMValueRef)S_var.ref)->pt != &C_tgt)
;
#else
void gen_stmt_var_assign(const AstNodeVarAssign *d, SkullStateLLVM *state)
REQUIRES(d == &S_asg && state == &S_state)
ASSIGNS(GHOST_LLVM, S_var.ref, g_ngen, g_nstore, C_var)
ENSURES(g_ngen == 1 && READS && S_var.ref == &P_var)
;
#endif
#include "loops.h"
#include "skull/codegen/llvm/assign.c"
#else
/* ---- where memory on the stack is allocated ---- */
#define REAL_ALLOCA
#include "llvmcfg.h"
#include <llvm-c/TargetMachine.h>
static struct LLVMOpaqueBasicBlock B_here, B_entry, B_cond; static struct LLVMOpaqueValue V_first, V_al; bool g_has_first; unsigned g_nalloca; LLVMBasicBlockRef g_at; bool g_before, g_stale;
LLVMBasicBlockRef LLVMGetEntryBasicBlock(LLVMValueRef f) { CHECK(f == &V_func, "the current function"); return &B_entry; }
LLVMValueRef LLVMGetFirstInstruction(LLVMBasicBlockRef b) { CHECK(b == &B_entry, "the entry block"); return g_has_first ? &V_first : NULL; }
void LLVMPositionBuilderBefore(LLVMBuilderRef B, LLVMValueRef v) { CHECK(B == &S_builder && v == &V_first, "the first instruction"); g_bb = &B_entry; g_before = true; g_stale = true; }
/* moving to an instruction makes its debug location the one of everything built from there on */
void LLVMSetCurrentDebugLocation2(LLVMBuilderRef B, LLVMMetadataRef l) { CHECK(B == &S_builder && !l, "no location of its own"); g_stale = false; }
#define LLVMBuildAlloca vp_alloca
LLVMValueRef vp_alloca(LLVMBuilderRef B, LLVMTypeRef t, const char *n) { (void)n; CHECK(B == &S_builder && t, "memory for a type"); if (!g_before) OPEN(B); CHECK(!g_stale, "not the debug location of something else"); g_nalloca++; g_at = g_bb; return &V_al; }
#define LLVMPositionBuilderAtEnd vp_at_end
void vp_at_end(LLVMBuilderRef B, LLVMBasicBlockRef b) { CHECK(B == &S_builder && b, "a block"); g_bb = b; g_before = false; }
LLVMValueRef build_alloca(const Type *type, const char *name, const SkullStateLLVM *state)
REQUIRES(state == &S_state)
ASSIGNS(g_bb, g_before, g_nalloca, g_at, g_stale)
/* once per call of the function, not once per iteration; what is below goes on
 * where it was */
ENSURES(RET == &V_al && g_nalloca == 1 && g_bb == &B_here && !g_before && !g_stale && (S_state.current_while_cond ==> g_at == &B_entry))
;
LLVMTypeRef type_to_llvm_func_type(const Type *t, LLVMTypeRef *p, unsigned n, const SkullStateLLVM *s) { (void)t; (void)p; (void)n; (void)s; return &TY_any; }
#include "loops.h"
#include "skull/codegen/llvm/shared.c"
#endif

static void fill_any(void) {}
void harness(void) {
	init_types();
	S_state.builder = &S_builder; S_state.ctx = &S_ctx; S_state.module = &S_module;
#if defined(UNIT_ALLOCA)
	S_state.current_func = &S_cur; S_cur.func = &S_fn; S_fn.ref = &V_func; B_here.term = T_NONE; B_entry.term = vp_bool() ? T_BR : T_NONE; g_has_first = vp_bool();
	/* a block that ended is not empty */
	ASSUME(g_has_first || B_entry.term == T_NONE);
	g_bb = &B_here; g_before = false; g_stale = false; g_nalloca = 0; g_at = NULL; S_state.current_while_cond = vp_bool() ? &B_cond : NULL;
	build_alloca(pick_type(), (char[]){"x"}, &S_state);
#else
	init_llvm();
	vp_nv = 0; g_ngen = g_nglobal = g_nstore = 0; g_gname = NULL; g_init = false;
	const Type *ty = pick_type(); ASSUME(ty != &TYPE_VOID && (ty->inner != NULL || llty(ty) != &TY_PTR || ty == &TYPE_STR));
	S_var.type = ty; S_var.is_const = vp_bool(); S_var.is_exported = vp_bool(); S_var.is_global = vp_bool(); S_var.linkage_name = (char[]){"l"}; S_var.name = (char[]){"n"}; S_sym.var = &S_var;
	LLVMTypeRef t = llty(ty); V_v.ty = t; V_v.i = canon(t, vp_nd()); uint64_t b = vp_nd(); double d; memcpy(&d, &b, 8); V_v.f = d; V_v.pt = t == &TY_PTR ? &C_tgt : NULL; V_v.cst = vp_bool(); V_v.str = NULL;
	g_nb = vp_nd(); b = vp_nd(); memcpy(&g_nf, &b, 8); g_np = vp_bool() ? &C_var : NULL;
	S_state.main_func = &S_f; S_state.current_func = vp_bool() ? &S_f : &S_g; S_state.current_while_cond = vp_bool() ? (LLVMBasicBlockRef)&B_loop : NULL;
	S_def.expr = &S_e; S_asg.expr = &S_e; S_def.symbol = vp_bool() ? &S_sym : NULL; S_asg.symbol = &S_sym;
#if defined(UNIT_DEF)
	gen_stmt_var_def(&S_def, &S_state);
#else
	/* only variables that are not constant are assigned to (C02); they live in memory */
	S_var.is_const = false; S_var.ref = &P_var; P_var.ty = &TY_PTR; P_var.pt = &C_var; C_var.ty = t; C_var.i = canon(t, g_nb); C_var.f = g_nf; C_var.pt = g_np;
	gen_stmt_var_assign(&S_asg, &S_state);
#endif
#endif
	REACH("the generator returns");
}
#endif
