/* The LLVM C API as an interpreter: every builder function is replaced by a
 * definition that computes the value of the instruction it would build (on one
 * arbitrary execution), and checks LLVM's own typing rules.  What the code
 * generator builds is then judged by what it means, not by how it is built.
 * Expensive arithmetic is uninterpreted (the same function in the contract). */
#ifndef LLVMREC_H
#define LLVMREC_H
#include "sem.h"
#include <llvm-c/Core.h>
#include "skull/codegen/llvm/shared.h"
#include "skull/codegen/llvm/expr.h"
#include "skull/codegen/llvm/debug.h"

struct LLVMOpaqueType { int kind; LLVMTypeRef ret; unsigned n; LLVMTypeRef p0, p1; };
enum { K_VOID, K_I1, K_I8, K_I32, K_I64, K_F, K_PTR, K_FN };
static struct LLVMOpaqueType TY_VOID, TY_I1, TY_I8, TY_I32, TY_I64, TY_F, TY_PTR, TY_FN;
static void init_llvm(void) {
	TY_VOID.kind = K_VOID; TY_I1.kind = K_I1; TY_I8.kind = K_I8; TY_I32.kind = K_I32; TY_I64.kind = K_I64; TY_F.kind = K_F; TY_PTR.kind = K_PTR; TY_FN.kind = K_FN;
}
/* a value: of type ty; its bits i (canonical: zero-extended), its number f, or
 * the cell pt that it points to; cst: a constant */
struct LLVMOpaqueValue { LLVMTypeRef ty; uint64_t i; double f; LLVMValueRef pt; int cst; const char *str; int fn; LLVMTypeRef vty; LLVMLinkage link; int init; };
struct LLVMOpaqueBuilder { int x; }; struct LLVMOpaqueContext { int x; }; struct LLVMOpaqueModule { int x; };
static struct LLVMOpaqueBuilder S_builder; static struct LLVMOpaqueContext S_ctx; static struct LLVMOpaqueModule S_module;

#define POOL 12
static struct LLVMOpaqueValue VP_[POOL]; unsigned vp_nv;
#define GHOST_LLVM vp_nv, __CPROVER_object_whole(VP_)
static LLVMValueRef newv(LLVMTypeRef ty) {
	CHECK(vp_nv < POOL, "pool of values large enough");
	LLVMValueRef v = &VP_[vp_nv]; vp_nv++;
	v->ty = ty; v->i = 0; v->f = 0; v->pt = NULL; v->cst = 0; v->str = NULL; v->fn = 0; v->vty = NULL; v->link = 0; v->init = 0;
	return v;
}
static uint64_t canon(LLVMTypeRef ty, uint64_t v) {
	return ty->kind == K_I1 ? v & 1 : ty->kind == K_I8 ? v & 0xff : ty->kind == K_I32 ? v & 0xffffffff : v;
}
#define IS_INT(t) ((t)->kind >= K_I1 && (t)->kind <= K_I64)
uint64_t __CPROVER_uninterpreted_mul(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_sdiv(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_udiv(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_exactdiv(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_srem(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_urem(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_bigshift(int, uint64_t, uint64_t);
double __CPROVER_uninterpreted_farith(int, double, double);
uint64_t __CPROVER_uninterpreted_call_i(int, uint64_t, uint64_t);
double __CPROVER_uninterpreted_call_f(int, double, double);
static uint64_t u_mul(uint64_t a, uint64_t b) { return a < b ? __CPROVER_uninterpreted_mul(a, b) : __CPROVER_uninterpreted_mul(b, a); }

#define SAME(a, b) CHECK((a)->ty == (b)->ty, "LLVM: operands of the same type")
#define BIN_I(NAME, EXPR) LLVMValueRef LLVMBuild##NAME(LLVMBuilderRef B, LLVMValueRef l, LLVMValueRef r, const char *n) { \
	(void)n; CHECK(B == &S_builder, "the builder of the state"); SAME(l, r); CHECK(IS_INT(l->ty), "LLVM: integer operands"); \
	LLVMValueRef v = newv(l->ty); v->cst = l->cst && r->cst; const uint64_t a = l->i, b = r->i; v->i = canon(l->ty, EXPR); return v; }
#define BIN_F(NAME, K, COMM) LLVMValueRef LLVMBuild##NAME(LLVMBuilderRef B, LLVMValueRef l, LLVMValueRef r, const char *n) { \
	(void)n; CHECK(B == &S_builder, "the builder of the state"); SAME(l, r); CHECK(l->ty == &TY_F, "LLVM: float operands"); \
	LLVMValueRef v = newv(l->ty); v->cst = l->cst && r->cst; v->f = f_arith(K, l->f, r->f); return v; }
/* commutative operators are symmetric; 0 - x, -0 - x and -x are the same (a
 * program cannot tell them apart but by the sign of a zero) */
static double f_arith(int k, double a, double b) {
	if ((k == EXPR_ADD || k == EXPR_MULT) && a > b) { double t = a; a = b; b = t; }
	if (k == EXPR_SUB && a == 0) a = 0.0;
	return __CPROVER_uninterpreted_farith(k, a, b);
}
BIN_I(Add, a + b) BIN_I(NSWAdd, a + b) BIN_I(NUWAdd, a + b)
BIN_I(Sub, a - b) BIN_I(NSWSub, a - b) BIN_I(NUWSub, a - b)
BIN_I(Mul, u_mul(a, b)) BIN_I(NSWMul, u_mul(a, b)) BIN_I(NUWMul, u_mul(a, b))
BIN_I(SDiv, __CPROVER_uninterpreted_sdiv(a, b)) BIN_I(UDiv, __CPROVER_uninterpreted_udiv(a, b)) BIN_I(ExactSDiv, __CPROVER_uninterpreted_exactdiv(a, b))
BIN_I(SRem, __CPROVER_uninterpreted_srem(a, b)) BIN_I(URem, __CPROVER_uninterpreted_urem(a, b))
BIN_I(And, a & b) BIN_I(Or, a | b) BIN_I(Xor, a ^ b)
BIN_I(Shl, b < 64 ? a << (b & 63) : __CPROVER_uninterpreted_bigshift(0, a, b))
BIN_I(LShr, b < 64 ? a >> (b & 63) : __CPROVER_uninterpreted_bigshift(1, a, b))
BIN_I(AShr, b < 64 ? (uint64_t)((int64_t)a >> (b & 63)) : __CPROVER_uninterpreted_bigshift(2, a, b))
BIN_F(FAdd, EXPR_ADD, 1) BIN_F(FSub, EXPR_SUB, 0) BIN_F(FMul, EXPR_MULT, 1) BIN_F(FDiv, EXPR_DIV, 0) BIN_F(FRem, EXPR_MOD, 0)
LLVMValueRef LLVMBuildNot(LLVMBuilderRef B, LLVMValueRef l, const char *n) {
	(void)n; CHECK(B == &S_builder && IS_INT(l->ty), "LLVM: integer operand");
	LLVMValueRef v = newv(l->ty); v->cst = l->cst; v->i = canon(l->ty, ~l->i); return v;
}
LLVMValueRef LLVMBuildNeg(LLVMBuilderRef B, LLVMValueRef l, const char *n) {
	(void)n; CHECK(B == &S_builder && IS_INT(l->ty), "LLVM: integer operand");
	LLVMValueRef v = newv(l->ty); v->cst = l->cst; v->i = canon(l->ty, -l->i); return v;
}
LLVMValueRef LLVMBuildNSWNeg(LLVMBuilderRef B, LLVMValueRef l, const char *n) { return LLVMBuildNeg(B, l, n); }
LLVMValueRef LLVMBuildFNeg(LLVMBuilderRef B, LLVMValueRef l, const char *n) {
	(void)n; CHECK(B == &S_builder && l->ty == &TY_F, "LLVM: float operand");
	LLVMValueRef v = newv(l->ty); v->cst = l->cst; v->f = f_arith(EXPR_SUB, 0.0, l->f); return v;
}
static int64_t sx(LLVMTypeRef t, uint64_t v) { return t->kind == K_I1 ? -(int64_t)(v & 1) : t->kind == K_I8 ? (int8_t)v : t->kind == K_I32 ? (int32_t)v : (int64_t)v; }
LLVMValueRef LLVMBuildICmp(LLVMBuilderRef B, LLVMIntPredicate p, LLVMValueRef l, LLVMValueRef r, const char *n) {
	(void)n; CHECK(B == &S_builder, "the builder of the state"); SAME(l, r); CHECK(IS_INT(l->ty) || l->ty == &TY_PTR, "LLVM: integer or pointer operands");
	LLVMValueRef v = newv(&TY_I1); v->cst = l->cst && r->cst;
	if (l->ty == &TY_PTR) {
		CHECK(p == LLVMIntEQ || p == LLVMIntNE, "pointers are compared for identity");
		v->i = p == LLVMIntEQ ? l->pt == r->pt : l->pt != r->pt; return v;
	}
	const uint64_t a = l->i, b = r->i; const int64_t x = sx(l->ty, a), y = sx(l->ty, b);
	v->i = p == LLVMIntEQ ? a == b : p == LLVMIntNE ? a != b : p == LLVMIntUGT ? a > b : p == LLVMIntUGE ? a >= b : p == LLVMIntULT ? a < b :
		p == LLVMIntULE ? a <= b : p == LLVMIntSGT ? x > y : p == LLVMIntSGE ? x >= y : p == LLVMIntSLT ? x < y : x <= y;
	return v;
}
LLVMValueRef LLVMBuildFCmp(LLVMBuilderRef B, LLVMRealPredicate p, LLVMValueRef l, LLVMValueRef r, const char *n) {
	(void)n; CHECK(B == &S_builder, "the builder of the state"); SAME(l, r); CHECK(l->ty == &TY_F, "LLVM: float operands");
	LLVMValueRef v = newv(&TY_I1); v->cst = l->cst && r->cst; const double a = l->f, b = r->f;
	/* the predicates are a bit mask: 8 unordered, 4 less, 2 greater, 1 equal */
	v->i = a < b ? (p & 4) != 0 : a > b ? (p & 2) != 0 : a == b ? (p & 1) != 0 : (p & 8) != 0;
	return v;
}
LLVMTypeRef LLVMInt1TypeInContext(LLVMContextRef c) { CHECK(c == &S_ctx, "context of the state"); return &TY_I1; }
LLVMTypeRef LLVMInt8TypeInContext(LLVMContextRef c) { CHECK(c == &S_ctx, "context of the state"); return &TY_I8; }
LLVMTypeRef LLVMInt32TypeInContext(LLVMContextRef c) { CHECK(c == &S_ctx, "context of the state"); return &TY_I32; }
LLVMTypeRef LLVMInt64TypeInContext(LLVMContextRef c) { CHECK(c == &S_ctx, "context of the state"); return &TY_I64; }
LLVMTypeRef LLVMDoubleTypeInContext(LLVMContextRef c) { CHECK(c == &S_ctx, "context of the state"); return &TY_F; }
LLVMTypeRef LLVMVoidTypeInContext(LLVMContextRef c) { CHECK(c == &S_ctx, "context of the state"); return &TY_VOID; }
LLVMTypeRef LLVMPointerType(LLVMTypeRef t, unsigned s) { (void)t; (void)s; return &TY_PTR; }
LLVMValueRef LLVMConstInt(LLVMTypeRef t, unsigned long long n, LLVMBool s) { (void)s; LLVMValueRef v = newv(t); CHECK(IS_INT(t), "LLVM: integer type"); v->cst = 1; v->i = canon(t, n); return v; }
LLVMValueRef LLVMConstReal(LLVMTypeRef t, double n) { LLVMValueRef v = newv(t); CHECK(t == &TY_F, "LLVM: float type"); v->cst = 1; v->f = n; return v; }
LLVMValueRef LLVMConstNull(LLVMTypeRef t) { LLVMValueRef v = newv(t); v->cst = 1; return v; }
/* memory: a pointer's cell is itself a value record */
unsigned vp_clock;   /* counts generated operands */
LLVMValueRef LLVMBuildLoad2(LLVMBuilderRef B, LLVMTypeRef t, LLVMValueRef p, const char *n) {
	(void)n; CHECK(B == &S_builder && p->ty == &TY_PTR && p->pt, "LLVM: load through a pointer");
	CHECK(p->pt->ty == t, "LLVM: a value is loaded with the type it was stored with");
	LLVMValueRef v = newv(t); v->i = p->pt->i; v->f = p->pt->f; v->pt = p->pt->pt; v->str = p->pt->str; return v;
}
LLVMValueRef LLVMBuildStore(LLVMBuilderRef B, LLVMValueRef x, LLVMValueRef p) {
	CHECK(B == &S_builder && p->ty == &TY_PTR && p->pt, "LLVM: store through a pointer");
	CHECK(p->pt->ty == x->ty, "LLVM: a value is stored with the type of the memory");
	p->pt->i = x->i; p->pt->f = x->f; p->pt->pt = x->pt; p->pt->str = x->str; p->pt->init = 1;
	return newv(&TY_VOID);
}
LLVMValueRef LLVMBuildAlloca(LLVMBuilderRef B, LLVMTypeRef t, const char *n) {
	(void)n; CHECK(B == &S_builder, "the builder of the state");
	LLVMValueRef c = newv(t); LLVMValueRef v = newv(&TY_PTR); v->pt = c; return v;
}
static LLVMTypeRef llty(const Type *t) {
	return t == &TYPE_BOOL ? &TY_I1 : t == &TYPE_INT ? &TY_I64 : t == &TYPE_FLOAT ? &TY_F : t == &TYPE_RUNE ? &TY_I32 : t == &TYPE_VOID ? &TY_VOID : &TY_PTR;
}
/* contract of build_alloca (proved in lassign.c) */
LLVMValueRef build_alloca(const Type *t, const char *n, const SkullStateLLVM *s) { return LLVMBuildAlloca(s->builder, llty(t), n); }
LLVMValueRef LLVMBuildGlobalString(LLVMBuilderRef B, const char *s, const char *n) { (void)n; (void)B; LLVMValueRef v = newv(&TY_PTR); v->cst = 1; v->str = s; return v; }
LLVMValueRef LLVMBuildGlobalStringPtr(LLVMBuilderRef B, const char *s, const char *n) { return LLVMBuildGlobalString(B, s, n); }
LLVMValueRef LLVMBuildBitCast(LLVMBuilderRef B, LLVMValueRef v, LLVMTypeRef t, const char *n) { (void)B; (void)n; CHECK(v->ty == t, "LLVM: cast between pointers"); return v; }
/* run-time helpers by name */
enum { FN_NONE, FN_INT_POW, FN_FLOAT_POW, FN_STRCMP, FN_OTHER };
static bool vp_is(const char *a, const char *b) {
#define VP_STEP(k) if (a[k] != b[k]) return false; if (!a[k]) return true;
	VP_STEP(0) VP_STEP(1) VP_STEP(2) VP_STEP(3) VP_STEP(4) VP_STEP(5) VP_STEP(6) VP_STEP(7) VP_STEP(8) VP_STEP(9) VP_STEP(10) VP_STEP(11)
	return false;
}
static int fn_of(const char *n) { return vp_is(n, "_int_pow") ? FN_INT_POW : vp_is(n, "_float_pow") ? FN_FLOAT_POW : vp_is(n, "_strcmp") ? FN_STRCMP : FN_OTHER; }
int g_declared; static struct LLVMOpaqueValue V_fn;
LLVMTypeRef LLVMFunctionType(LLVMTypeRef r, LLVMTypeRef *p, unsigned n, LLVMBool va) {
	CHECK(!va, "no variable arguments"); TY_FN.ret = r; TY_FN.n = n; TY_FN.p0 = n > 0 ? p[0] : NULL; TY_FN.p1 = n > 1 ? p[1] : NULL; return &TY_FN;
}
void LLVMSetLinkage(LLVMValueRef v, LLVMLinkage l) { v->link = l; }
LLVMBool LLVMIsConstant(LLVMValueRef v) { return v->cst; }

/* assumed: the debug information does not change the program */
void add_llvm_debug_info(LLVMValueRef v, const Location *l, const SkullStateLLVM *s) { (void)v; (void)l; (void)s; }
#define REAL_TYPES_H
_Bool is_reference(const Type *t) { return t->inner != NULL; }
#ifndef REAL_TYPE
/* proved: the contract of this function, in its own unit */
LLVMTypeRef type_to_llvm_type(const Type *type, const SkullStateLLVM *state)
REQUIRES(type != NULL && state != NULL && (type->inner != NULL || known_type(type)))
ASSIGNS()
ENSURES(__CPROVER_pointer_equals(RET, llty(type)))
;
#endif
#endif
