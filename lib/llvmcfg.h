/* The control-flow part of the LLVM C API, recording the graph that is built:
 * every block has at most one terminator, which is its last instruction, and
 * every builder call checks LLVM's rules for it. */
#ifndef LLVMCFG_H
#define LLVMCFG_H
#include "sem.h"
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include "skull/codegen/llvm/shared.h"
#include "skull/codegen/llvm/expr.h"
#include "skull/codegen/llvm/debug.h"
#include "skull/codegen/llvm/core.h"
#include "skull/codegen/llvm/flow.h"
#include "skull/codegen/llvm/func.h"
#include "skull/codegen/llvm/assign.h"

struct LLVMOpaqueType { int x; };
struct LLVMOpaqueValue { int cst; };
struct LLVMOpaqueMetadata { int x; };
enum { T_NONE, T_BR, T_COND, T_RET, T_RETVOID, T_UNREACHABLE, T_BODY, T_CHAIN };
/* term: how the block ends; bodies: how many statement lists were generated
 * from here, last one: body; conds: how many expressions were */
struct LLVMOpaqueBasicBlock { int term; LLVMBasicBlockRef t, f; LLVMValueRef v; unsigned bodies, conds, stores; const AstNode *body; };
struct LLVMOpaqueBuilder { int x; }; struct LLVMOpaqueContext { int x; }; struct LLVMOpaqueModule { int x; };
static struct LLVMOpaqueBuilder S_builder; static struct LLVMOpaqueContext S_ctx; static struct LLVMOpaqueModule S_module;
static struct LLVMOpaqueValue V_func, V_cond, V_term, V_zero, V_mem; static struct LLVMOpaqueType TY_any;
#define NBB 6
static struct LLVMOpaqueBasicBlock BB_[NBB]; unsigned vp_nbb; static LLVMBasicBlockRef g_bb;
static SkullStateLLVM S_state; static SemanticState S_sem; static Symbol S_cur; static FunctionDeclaration S_fn;
#define GHOST_CFG vp_nbb, __CPROVER_object_whole(BB_), g_bb

LLVMBasicBlockRef LLVMAppendBasicBlockInContext(LLVMContextRef c, LLVMValueRef f, const char *n) {
	(void)n; CHECK(c == &S_ctx && f == &V_func, "a block of the current function"); CHECK(vp_nbb < NBB, "pool of blocks large enough");
	LLVMBasicBlockRef b = &BB_[vp_nbb]; vp_nbb++;
	b->term = T_NONE; b->t = b->f = NULL; b->v = NULL; b->bodies = b->conds = b->stores = 0; b->body = NULL; return b;
}
LLVMBasicBlockRef LLVMGetInsertBlock(LLVMBuilderRef B) { CHECK(B == &S_builder, "the builder of the state"); return g_bb; }
void LLVMPositionBuilderAtEnd(LLVMBuilderRef B, LLVMBasicBlockRef b) { CHECK(B == &S_builder && b, "the builder of the state"); g_bb = b; }
void LLVMMoveBasicBlockBefore(LLVMBasicBlockRef a, LLVMBasicBlockRef b) { CHECK(a && b, "two blocks"); }
void LLVMMoveBasicBlockAfter(LLVMBasicBlockRef a, LLVMBasicBlockRef b) { CHECK(a && b, "two blocks"); }
#define OPEN(B) CHECK(B == &S_builder && g_bb && g_bb->term == T_NONE, "LLVM: nothing follows the end of a block")
LLVMValueRef LLVMBuildBr(LLVMBuilderRef B, LLVMBasicBlockRef d) { OPEN(B); CHECK(d, "LLVM: branch to a block"); g_bb->term = T_BR; g_bb->t = d; return &V_term; }
LLVMValueRef LLVMBuildCondBr(LLVMBuilderRef B, LLVMValueRef c, LLVMBasicBlockRef t, LLVMBasicBlockRef f) {
	OPEN(B); CHECK(c && t && f, "LLVM: branch to blocks"); g_bb->term = T_COND; g_bb->v = c; g_bb->t = t; g_bb->f = f; return &V_term;
}
LLVMValueRef LLVMBuildRet(LLVMBuilderRef B, LLVMValueRef v) { OPEN(B); g_bb->term = T_RET; g_bb->v = v; return &V_term; }
LLVMValueRef LLVMBuildRetVoid(LLVMBuilderRef B) { OPEN(B); g_bb->term = T_RETVOID; return &V_term; }
LLVMValueRef LLVMBuildUnreachable(LLVMBuilderRef B) { OPEN(B); g_bb->term = T_UNREACHABLE; return &V_term; }
LLVMValueRef LLVMBuildStore(LLVMBuilderRef B, LLVMValueRef x, LLVMValueRef p) { OPEN(B); CHECK(x && p, "LLVM: store"); g_bb->stores++; return &V_term; }
LLVMValueRef LLVMBuildAlloca(LLVMBuilderRef B, LLVMTypeRef t, const char *n) { (void)n; OPEN(B); CHECK(t, "LLVM: alloca of a type"); return &V_mem; }
#ifndef REAL_ALLOCA
/* contract of build_alloca (proved in lassign.c) */
LLVMValueRef build_alloca(const Type *t, const char *n, const SkullStateLLVM *s) { (void)n; OPEN(s->builder); CHECK(t, "memory for a type"); return &V_mem; }
#endif
LLVMTypeRef LLVMInt64TypeInContext(LLVMContextRef c) { (void)c; return &TY_any; }
unsigned long long g_zero;
LLVMValueRef LLVMConstInt(LLVMTypeRef t, unsigned long long n, LLVMBool s) { (void)t; (void)s; g_zero = n; return &V_zero; }
LLVMTypeRef type_to_llvm_type(const Type *t, const SkullStateLLVM *s) { (void)t; (void)s; return &TY_any; }
/* assumed: the debug information does not change the program; its scope is
 * saved by the caller */
DebugInfo DEBUG_INFO; static struct LLVMOpaqueMetadata M_outer, M_inner;
unsigned g_debugged;
void add_llvm_debug_info(LLVMValueRef v, const Location *l, const SkullStateLLVM *s) { (void)s; CHECK(v && l, "debug information of something"); }
LLVMMetadataRef add_llvm_control_flow_debug_info(const Location *l) { (void)l; if (!BUILD_DATA.debug) return NULL; LLVMMetadataRef o = DEBUG_INFO.scope; DEBUG_INFO.scope = &M_inner; return o; }
_Bool is_reference(const Type *t) { return t->inner != NULL; }
#endif
