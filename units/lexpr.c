/* C11: the code generated for an expression computes its value.  The real
 * skull/codegen/llvm/expr.c and types.c, over the LLVM API as an interpreter
 * (llvmrec.h): for arbitrary values of the operands, the value built is the
 * value that the operator has in the language. */
#ifdef VP_CBMC
#ifdef UNIT_TYPE
#define REAL_TYPE
#endif
#include "llvmrec.h"

static AstNodeExpr S_root, S_lhs, S_rhs; AstNodeExpr *G_root = &S_root;
static struct LLVMOpaqueValue V_l, V_r, V_call, C_l, C_r, C_in;
static SkullStateLLVM S_state;
static Symbol S_sym; static Variable S_var; static AstNodeFunctionCall S_fc;
unsigned g_nl, g_nr, g_ncall; unsigned g_tl, g_tr;
const Type *g_vt;      /* type of the operands */

static uint64_t spec_i(ExprType o, uint64_t l, uint64_t r) {
	const int64_t x = (int64_t)l, y = (int64_t)r;
	switch (o) {
		case EXPR_ADD: return l + r;
		case EXPR_SUB: return l - r;
		case EXPR_UNARY_NEG: return -r;
		case EXPR_MULT: return u_mul(l, r);
		case EXPR_DIV: return __CPROVER_uninterpreted_sdiv(l, r);
		case EXPR_MOD: return __CPROVER_uninterpreted_srem(l, r);
		case EXPR_POW: return __CPROVER_uninterpreted_call_i(FN_INT_POW, l, r);
		case EXPR_LSHIFT: return r < 64 ? l << (r & 63) : __CPROVER_uninterpreted_bigshift(0, l, r);
		case EXPR_RSHIFT: return r < 64 ? l >> (r & 63) : __CPROVER_uninterpreted_bigshift(1, l, r);
		case EXPR_NOT: return !r;
		case EXPR_AND: return l & r; case EXPR_OR: return l | r; case EXPR_XOR: return l ^ r;
		case EXPR_IS: return l == r; case EXPR_ISNT: return l != r;
		case EXPR_LESS_THAN: return x < y; case EXPR_GTR_THAN: return x > y;
		case EXPR_LESS_THAN_EQ: return x <= y; case EXPR_GTR_THAN_EQ: return x >= y;
		default: return 0;
	}
}
static double spec_f(ExprType o, double l, double r) {
	return o == EXPR_UNARY_NEG ? f_arith(EXPR_SUB, 0.0, r) : o == EXPR_POW ? __CPROVER_uninterpreted_call_f(FN_FLOAT_POW, l, r) : f_arith(o, l, r);
}
static bool spec_fb(ExprType o, double l, double r) {
	switch (o) {
		case EXPR_IS: return l == r; case EXPR_ISNT: return !(l == r);
		case EXPR_LESS_THAN: return l < r; case EXPR_GTR_THAN: return l > r;
		case EXPR_LESS_THAN_EQ: return l <= r; default: return l >= r;
	}
}
static bool oper_unary(ExprType o) { return o == EXPR_UNARY_NEG || o == EXPR_NOT; }
static bool oper_cmp(ExprType o) { return o == EXPR_IS || o == EXPR_ISNT || (o >= EXPR_LESS_THAN && o <= EXPR_GTR_THAN_EQ); }
/* operators and operand types that the semantic phase lets through (C01) */
static bool typed(ExprType o, const Type *t) {
	switch (o) {
		case EXPR_ADD: case EXPR_SUB: case EXPR_MULT: case EXPR_POW: case EXPR_UNARY_NEG: case EXPR_DIV: case EXPR_MOD:
		case EXPR_LESS_THAN: case EXPR_GTR_THAN: case EXPR_LESS_THAN_EQ: case EXPR_GTR_THAN_EQ: return t == &TYPE_INT || t == &TYPE_FLOAT;
		case EXPR_LSHIFT: case EXPR_RSHIFT: return t == &TYPE_INT;
		case EXPR_NOT: case EXPR_AND: case EXPR_OR: case EXPR_XOR: return t == &TYPE_BOOL;
		case EXPR_IS: case EXPR_ISNT: return t != &TYPE_VOID && (llty(t) != &TY_PTR || t == &TYPE_STR || t->inner != NULL);
		default: return false;
	}
}

#if defined(UNIT_TYPE)
LLVMTypeRef type_to_llvm_type(const Type *type, const SkullStateLLVM *state)
REQUIRES(known_type(type) && state == &S_state)
ASSIGNS()
/* every type has its representation; a reference is a pointer */
ENSURES((type->inner != NULL || (type != &T_A && type != &T_B)) ==> RET == llty(type))
;
#else
Expr gen_expr(const AstNodeExpr *const expr, const SkullStateLLVM *state)
#endif
#if defined(UNIT_TYPE)
#elif defined(UNIT_OPER)
REQUIRES(expr == &S_root || expr == &S_lhs || expr == &S_rhs)
REQUIRES(state == &S_state)
ASSIGNS(g_nl, g_nr, g_tl, g_tr, vp_clock; expr == &S_root: GHOST_LLVM, TY_FN, g_declared, V_fn, g_ncall)
/* an operand: generated once, its value is arbitrary */
ENSURES(expr == &S_lhs ==> __CPROVER_pointer_equals(RET.value, (LLVMValueRef)&V_l) && __CPROVER_pointer_equals(RET.type, (Type *)g_vt))
ENSURES(expr == &S_rhs ==> __CPROVER_pointer_equals(RET.value, (LLVMValueRef)&V_r) && __CPROVER_pointer_equals(RET.type, (Type *)g_vt))
ENSURES(expr == &S_lhs ==> (g_nl == OLD(g_nl) + 1 && g_tl == OLD(vp_clock) && g_nr == OLD(g_nr) && g_tr == OLD(g_tr)))
ENSURES(expr == &S_rhs ==> (g_nr == OLD(g_nr) + 1 && g_tr == OLD(vp_clock) && g_nl == OLD(g_nl) && g_tl == OLD(g_tl)))
ENSURES(expr != &S_root ==> (vp_clock == OLD(vp_clock) + 1))
/* the operator: both operands once, left one first; the value is the one that
 * the operator has in the language */
ENSURES(expr == &S_root ==> (g_nr == 1 && g_nl == (oper_unary(S_root.oper) ? 0 : 1) && (oper_unary(S_root.oper) || g_tl < g_tr)))
ENSURES(expr == &S_root ==> RET.type == S_root.type && RET.value->ty == llty(S_root.type))
ENSURES((expr == &S_root && (g_vt == &TYPE_INT || g_vt == &TYPE_RUNE || g_vt == &TYPE_BOOL)) ==> RET.value->i == spec_i(S_root.oper, V_l.i, V_r.i))
ENSURES((expr == &S_root && g_vt == &TYPE_FLOAT && oper_cmp(S_root.oper)) ==> RET.value->i == spec_fb(S_root.oper, V_l.f, V_r.f))
ENSURES((expr == &S_root && g_vt == &TYPE_FLOAT && !oper_cmp(S_root.oper)) ==> __CPROVER_equal(RET.value->f, spec_f(S_root.oper, V_l.f, V_r.f)))
/* strings are compared by content: _strcmp yields whether they are equal */
ENSURES((expr == &S_root && g_vt == &TYPE_STR) ==> RET.value->i == ((__CPROVER_uninterpreted_call_i(FN_STRCMP, 1, 2) & 1) ^ (S_root.oper == EXPR_ISNT)))
ENSURES((expr == &S_root && g_vt != &TYPE_STR && llty(g_vt) == &TY_PTR) ==> RET.value->i == ((V_l.pt == V_r.pt) ^ (S_root.oper == EXPR_ISNT)))
ENSURES(expr == &S_root ==> g_ncall <= 1)
#else
REQUIRES(expr == &S_root || expr == &S_rhs)
REQUIRES(state == &S_state)
ASSIGNS(GHOST_LLVM, g_ncall)
#if defined(UNIT_IDENT)
/* the value of a variable: what its memory holds, or (local constants) itself */
ENSURES(RET.type == S_var.type && RET.value->ty == llty(S_var.type))
ENSURES((S_var.is_global || !S_var.is_const) ? RET.value->i == C_r.i && RET.value->pt == C_r.pt && (llty(S_var.type) == &TY_F ==> __CPROVER_equal(RET.value->f, C_r.f)) : RET.value == &V_r)
#elif defined(UNIT_REF)
/* the address of a variable; of a local constant: of memory that holds it */
ENSURES(RET.type == S_root.type && RET.value->ty == &TY_PTR && RET.value->pt != NULL)
ENSURES((S_var.is_global || !S_var.is_const) ? RET.value->pt == &C_r :
	(RET.value->pt->ty == V_r.ty && RET.value->pt->i == V_r.i && RET.value->pt->pt == V_r.pt && (V_r.ty == &TY_F ==> __CPROVER_equal(RET.value->pt->f, V_r.f))))
#elif defined(UNIT_DEREF)
/* what the reference points to */
ENSURES(RET.type == S_var.type->inner && RET.value->ty == llty(S_var.type->inner))
ENSURES(RET.value->i == C_in.i && RET.value->pt == C_in.pt && (C_in.ty == &TY_F ==> __CPROVER_equal(RET.value->f, C_in.f)))
#elif defined(UNIT_CONST)
ENSURES(RET.type == S_root.type && RET.value->ty == llty(S_root.type) && RET.value->cst)
ENSURES(S_root.type == &TYPE_INT ==> RET.value->i == (uint64_t)S_root.value._int)
ENSURES(S_root.type == &TYPE_BOOL ==> RET.value->i == (S_root.value._bool ? 1 : 0))
ENSURES(S_root.type == &TYPE_RUNE ==> RET.value->i == S_root.value.rune)
ENSURES(S_root.type == &TYPE_FLOAT ==> __CPROVER_equal(RET.value->f, S_root.value._float))
ENSURES(S_root.type == &TYPE_STR ==> RET.value->str == S_root.value.str)
#elif defined(UNIT_CALL)
ENSURES(RET.value == &V_call && RET.type == g_vt && g_ncall == 1)
#endif
#endif
#ifndef UNIT_TYPE
;
#endif

LLVMValueRef LLVMGetNamedFunction(LLVMModuleRef m, const char *name) {
	CHECK(m == &S_module, "module of the state");
	return g_declared && g_declared == fn_of(name) ? &V_fn : NULL;
}
LLVMValueRef LLVMAddFunction(LLVMModuleRef m, const char *name, LLVMTypeRef t) {
	CHECK(m == &S_module && t == &TY_FN, "LLVM: a function is added with a function type");
	CHECK(!g_declared || g_declared != fn_of(name), "a helper is declared once");
	g_declared = fn_of(name); V_fn.ty = &TY_PTR; V_fn.fn = g_declared; V_fn.vty = t; return &V_fn;
}
LLVMValueRef LLVMBuildCall2(LLVMBuilderRef B, LLVMTypeRef t, LLVMValueRef f, LLVMValueRef *a, unsigned n, const char *name) {
	(void)name; CHECK(B == &S_builder && t == &TY_FN && f == &V_fn && f->fn, "call of a helper"); g_ncall++;
	CHECK(n == 2 && t->n == 2 && a[0]->ty == t->p0 && a[1]->ty == t->p1, "LLVM: arguments of the declared types");
	CHECK(f->fn == FN_STRCMP ? t->ret == &TY_I1 && t->p0 == &TY_PTR && t->p1 == &TY_PTR : f->fn == FN_INT_POW ? t->ret == &TY_I64 && t->p0 == &TY_I64 && t->p1 == &TY_I64 :
		f->fn == FN_FLOAT_POW && t->ret == &TY_F && t->p0 == &TY_F && t->p1 == &TY_F, "the type of the helper in shim.ll");
	LLVMValueRef v = newv(t->ret);
	if (f->fn == FN_STRCMP) {
		CHECK((a[0] == &V_l && a[1] == &V_r) || (a[0] == &V_r && a[1] == &V_l), "the two strings are compared");
		v->i = __CPROVER_uninterpreted_call_i(FN_STRCMP, 1, 2) & 1;
	}
	else if (f->fn == FN_INT_POW) v->i = __CPROVER_uninterpreted_call_i(FN_INT_POW, a[0]->i, a[1]->i);
	else v->f = __CPROVER_uninterpreted_call_f(FN_FLOAT_POW, a[0]->f, a[1]->f);
	return v;
}
/* assumed here (proved in C03/C11's call unit) */
Expr gen_expr_func_call(const AstNodeFunctionCall *const fc, const SkullStateLLVM *s) {
	CHECK(fc == &S_fc && s == &S_state, "the call of this node is generated"); g_ncall++; return (Expr){ .value = &V_call, .type = g_vt };
}

#include "loops.h"
#include "skull/codegen/llvm/types.c"
#ifndef UNIT_TYPE
#include "skull/codegen/llvm/expr.c"
#endif

static void fill(LLVMValueRef v, LLVMTypeRef t) {
	v->ty = t; v->i = canon(t, vp_nd()); uint64_t b = vp_nd(); double d; memcpy(&d, &b, 8); v->f = d;
	v->pt = t == &TY_PTR ? (vp_bool() ? &C_l : &C_in) : NULL; v->cst = vp_bool(); v->str = NULL; v->fn = 0;
}
static const Type *concrete(void) { const Type *t = pick_type(); ASSUME(t != &TYPE_VOID && (t->inner != NULL || llty(t) != &TY_PTR || t == &TYPE_STR)); return t; }
void harness(void) {
	init_types(); init_llvm();
	S_state.builder = &S_builder; S_state.ctx = &S_ctx; S_state.module = &S_module;
	vp_nv = 0; vp_clock = 0; g_nl = g_nr = g_tl = g_tr = g_ncall = 0;
#if defined(UNIT_TYPE)
	type_to_llvm_type(pick_type(), &S_state);
	REACH("type_to_llvm_type returns");
#else
#if defined(UNIT_OPER)
	g_vt = concrete(); S_root.oper = (ExprType)vp_below(EXPR_DEREF + 1);
#ifdef OPER_SET
	ASSUME(OPER_SET(S_root.oper));
#endif
	ASSUME(typed(S_root.oper, g_vt));
	S_root.type = oper_cmp(S_root.oper) || S_root.oper == EXPR_NOT ? &TYPE_BOOL : g_vt;
	S_root.lhs.expr = oper_unary(S_root.oper) ? NULL : &S_lhs; S_root.rhs = &S_rhs;
	fill(&V_l, llty(g_vt)); fill(&V_r, llty(g_vt));
	g_declared = vp_bool() ? 1 + (int)vp_below(3) : 0; V_fn.ty = &TY_PTR; V_fn.fn = g_declared;
#else
	S_root.rhs = &S_rhs; S_root.symbol = &S_sym; S_rhs.symbol = &S_sym; S_rhs.oper = EXPR_IDENTIFIER; S_sym.var = &S_var; S_rhs.rhs = NULL;
	S_var.is_const = vp_bool(); S_var.is_global = vp_bool();
	S_var.type = concrete(); g_vt = pick_type();
#if defined(UNIT_DEREF)
	S_root.oper = EXPR_DEREF; ASSUME(S_var.type->inner != NULL);
	const Type *in = S_var.type->inner; ASSUME(in != &TYPE_VOID && (in->inner != NULL || llty(in) != &TY_PTR || in == &TYPE_STR));
	fill(&C_in, llty(in));
#elif defined(UNIT_IDENT)
	S_root.oper = EXPR_IDENTIFIER;
#elif defined(UNIT_REF)
	S_root.oper = EXPR_REF; S_root.type = &T_A; T_A.inner = S_var.type;
#elif defined(UNIT_CONST)
	S_root.oper = EXPR_CONST; S_root.type = concrete(); ASSUME(S_root.type->inner == NULL);
	S_root.value._int = (int64_t)vp_nd(); S_root.value.rune = (char32_t)vp_nd(); S_root.value._bool = vp_bool(); S_root.value.str = (char[]){"x"};
	uint64_t b = vp_nd(); memcpy(&S_root.value._float, &b, 8);
#elif defined(UNIT_CALL)
	S_root.oper = EXPR_FUNC; S_root.lhs.func_call = &S_fc;
#endif
	LLVMTypeRef t = llty(S_var.type);
	if (S_var.is_global || !S_var.is_const) {   /* in memory */
		fill(&C_r, t); V_r.ty = &TY_PTR; V_r.pt = &C_r; if (t == &TY_PTR) C_r.pt = &C_in;
	}
	else { fill(&V_r, t); if (t == &TY_PTR) V_r.pt = &C_in; }
	S_var.ref = &V_r;
#endif
	gen_expr(&S_root, &S_state);
	REACH("gen_expr returns");
#endif
}
#endif
