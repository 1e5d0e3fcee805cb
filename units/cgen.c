/* C12: the C back end.  The real skull/codegen/c/*.c, over texts with a meaning
 * (ctext.h). */
#ifdef VP_CBMC
#ifdef UNIT_CALL
#define CTEXT_LIGHT
#define L1 "%s()"
#define L2 "%s(%s)"
#define L3 "%s, %s"
#endif
#include "ctext.h"
static SkullStateC S_state; static AstNodeExpr S_root, S_lhs, S_rhs; static struct text T_l, T_r, T_name, T_x; const Type *g_vt; unsigned g_nl, g_nr;
static Symbol S_sym; static Variable S_var; static AstNodeFunctionCall S_fc; static FunctionDeclaration S_func;

static bool oper_unary(ExprType o) { return o == EXPR_UNARY_NEG || o == EXPR_NOT || o == EXPR_REF || o == EXPR_DEREF; }
/* how C spells the operators of the language */
static uint64_t spell(ExprType o, const Type *t, uint64_t l, uint64_t r) {
	switch (o) {
		case EXPR_ADD: return MEAN("%s + %s", l, r);
		case EXPR_SUB: return MEAN("%s - %s", l, r);
		case EXPR_MULT: return MEAN("%s * %s", l, r);
		case EXPR_DIV: return MEAN("%s / %s", l, r);
		case EXPR_MOD: return t == &TYPE_FLOAT ? MEAN("_float_mod(%s, %s)", l, r) : MEAN("%s %% %s", l, r);
		case EXPR_LSHIFT: return MEAN("%s << %s", l, r);
		case EXPR_RSHIFT: return MEAN("%s >> %s", l, r);
		case EXPR_IS: return t == &TYPE_STR ? MEAN("_strcmp(%s, %s)", l, r) : MEAN("%s == %s", l, r);
		case EXPR_ISNT: return t == &TYPE_STR ? MEAN("!_strcmp(%s, %s)", l, r) : MEAN("%s != %s", l, r);
		case EXPR_LESS_THAN: return MEAN("%s < %s", l, r);
		case EXPR_GTR_THAN: return MEAN("%s > %s", l, r);
		case EXPR_LESS_THAN_EQ: return MEAN("%s <= %s", l, r);
		case EXPR_GTR_THAN_EQ: return MEAN("%s >= %s", l, r);
		case EXPR_AND: return MEAN("%s && %s", l, r);
		case EXPR_OR: return MEAN("%s || %s", l, r);
		case EXPR_XOR: return MEAN("%s ^ %s", l, r);
		case EXPR_POW: return t == &TYPE_FLOAT ? MEAN("_float_pow(%s, %s)", l, r) : MEAN("_int_pow(%s, %s)", l, r);
		case EXPR_UNARY_NEG: return MEAN("-%s", r);
		case EXPR_NOT: return MEAN("!%s", r);
		case EXPR_REF: return MEAN("&%s", r);
		default: return MEAN("*%s", r);
	}
}
static bool typed(ExprType o, const Type *t) {
	switch (o) {
		case EXPR_ADD: case EXPR_SUB: case EXPR_MULT: case EXPR_POW: case EXPR_UNARY_NEG: case EXPR_DIV: case EXPR_MOD:
		case EXPR_LESS_THAN: case EXPR_GTR_THAN: case EXPR_LESS_THAN_EQ: case EXPR_GTR_THAN_EQ: return t == &TYPE_INT || t == &TYPE_FLOAT;
		case EXPR_LSHIFT: case EXPR_RSHIFT: return t == &TYPE_INT;
		case EXPR_NOT: case EXPR_AND: case EXPR_OR: case EXPR_XOR: return t == &TYPE_BOOL;
		case EXPR_IS: case EXPR_ISNT: case EXPR_REF: case EXPR_DEREF: return true;
		default: return false;
	}
}
#define CALLED S_state.called_int_pow, S_state.called_float_pow, S_state.called_float_mod, S_state.called_strcmp
uint64_t g_want;

/* Operands are summary nodes: names whose text is arbitrary (any meaning, any
 * level from UNARY up), which is what the contract of gen_expr_c grants for an
 * arbitrary expression.  Contract (checked in the harness): the text of an
 * expression has level UNARY or PRIMARY and the meaning that C gives the
 * operator of the language, applied to its operands in order. */
#if defined(UNIT_OPER) || defined(UNIT_LEAF)
#define EXPECT(c, what) CHECK(c, what)
static bool is_lit(const char *p, const char *lit) { return TX(p)->m == MEAN_(lit, 0, 0, 0, 0, 0); }
static Variable S_vl, S_vr; static Symbol S_yl, S_yr;
#include "skull/common/malloc.h"
static char S_buf[64];
static void *vp_out(size_t n) { CHECK(n <= sizeof(S_buf), "room"); return S_buf; }
#undef Malloc
#define Malloc vp_out
#elif defined(UNIT_CALL)
#define INF __CPROVER_constant_infinity_uint
static uint64_t G_arg[INF], G_list[INF];
static struct text T_arg0, T_arg1; static AstNode S_param; unsigned g_n;
#define NP S_func.num_params
#define ARG(k) G_arg[k]
#define LIST(k) G_list[k]
/* the list of the first k arguments, in order */
/* gen_expr_c yields a text that can be an operand (cx_oper, cx_leaf) */
char *gen_expr_c(const AstNodeExpr *e, SkullStateC *s)
REQUIRES(e == &S_rhs && s == &S_state && g_n < NP)
ASSIGNS(g_n, T_arg0, T_arg1)
ENSURES(g_n == OLD(g_n) + 1 && __CPROVER_pointer_equals(RET, OLD(g_n) & 1 ? (char *)&T_arg1 : (char *)&T_arg0))
ENSURES((g_n & 1) ? T_arg0.m == ARG(g_n - 1) && T_arg0.lvl == PRIMARY && T_arg1.m == OLD(T_arg1.m) && T_arg1.lvl == OLD(T_arg1.lvl) : T_arg1.m == ARG(g_n - 1) && T_arg1.lvl == PRIMARY && T_arg0.m == OLD(T_arg0.m) && T_arg0.lvl == OLD(T_arg0.lvl))
ENSURES(T_arg0.c[0] == 1 && T_arg1.c[0] == 1)
ENSURES(LIST(g_n) == (g_n == 1 ? ARG(0) : __CPROVER_uninterpreted_mean(3, LIST(g_n - 1), ARG(g_n - 1), 0, 0, 0)))
;
static char *gen_expr_func_call_c(const AstNodeFunctionCall *call, SkullStateC *state)
REQUIRES(call == &S_fc && state == &S_state)
ASSIGNS(GHOST_TEXT, s_lvl, g_n, T_arg0, T_arg1)
ENSURES(g_n == NP && TX(RET)->lvl == PRIMARY && TX(RET)->m == (NP == 0 ? __CPROVER_uninterpreted_mean(1, T_name.m, 0, 0, 0, 0) : __CPROVER_uninterpreted_mean(2, T_name.m, LIST(NP), 0, 0, 0)))
;
#define SLOT(n) (((n) & 3) == 0 ? &T_out0 : ((n) & 3) == 1 ? &T_out1 : ((n) & 3) == 2 ? &T_out2 : &T_out3)
#define LIST_AT(at) ((at) == 0 ? (char *)NULL : (at) == 1 ? (char *)&T_arg0 : (char *)SLOT((at) - 2))
#define LOOP_CONTRACT_call_args_c(at, param, list) \
	ASSIGNS(at, param, list, g_n, GHOST_TEXT, s_lvl, T_arg0, T_arg1) INVARIANT(at <= NP && g_n == at && param == &S_param && g_nf == (at < 2 ? 0 : at - 1)) \
	INVARIANT(list == LIST_AT(at) && (at == 0 || list[0] == 1)) INVARIANT(at == 0 || TX(LIST_AT(at))->m == LIST(at)) DECREASES(NP - at) \
	if (PIN(param, (const AstNode *)&S_param) & PIN(list, LIST_AT(at)))
#elif defined(UNIT_STR)
#include "skull/common/malloc.h"
/* POS(k): where the k-th character of the string is in the literal */
#define INF __CPROVER_constant_infinity_uint
static size_t G_pos[INF];
#define POS(k) G_pos[k]
unsigned char *g_in; char *g_out; size_t g_len, g_w;
#define plain(c) ((c) >= ' ' && (c) <= '~' && (c) != '"' && (c) != '\\')
#define ELEN(c) (plain(c) ? 1 : 4)
#define spelled(p, c) (plain(c) ? (p)[0] == (char)(c) : (p)[0] == '\\' && (p)[1] == '0' + (c) / 64 && (p)[2] == '0' + (c) / 8 % 8 && (p)[3] == '0' + (c) % 8)
static size_t vp_strlen(const char *p) { CHECK(p == (char *)g_in, "the string"); return g_len; }
static void *vp_out(size_t n) { ASSUME(n < ((size_t)1 << 33)); g_out = malloc(n); ASSUME(g_out != NULL); return g_out; }
#define strlen vp_strlen
#define Malloc vp_out
static char *gen_str_literal_c(const char *str)
REQUIRES(str == (char *)g_in)
ASSIGNS(g_out)
/* quoted; every character, in its place, is spelled as itself or in octal, and
 * nothing else is there */
ENSURES(RET == g_out && RET[0] == '"' && RET[POS(g_len)] == '"' && RET[POS(g_len) + 1] == 0)
ENSURES(g_w < g_len ==> spelled(RET + POS(g_w), g_in[g_w]))
;
#define K(str) ((size_t)((str) - (const char *)g_in))
#define LOOP_CONTRACT_str_literal_c(str, at) \
	ASSIGNS(str, at, __CPROVER_object_whole(g_out)) INVARIANT(__CPROVER_same_object(str, g_in) && __CPROVER_same_object(at, g_out) && __CPROVER_POINTER_OFFSET(str) <= g_len && __CPROVER_POINTER_OFFSET(at) <= 4 * g_len + 3) \
	INVARIANT((size_t)(at - g_out) == POS(K(str)) && POS(K(str)) >= 1 && POS(K(str)) <= 4 * K(str) + 1 && g_out[0] == '"') \
	INVARIANT(K(str) > g_w ==> POS(g_w) <= 4 * g_w + 1 && POS(K(str)) >= POS(g_w) + ELEN(g_in[g_w]) && spelled(g_out + POS(g_w), g_in[g_w])) INVARIANT(K(str) == g_len || g_in[K(str)] != 0) DECREASES(g_len - K(str)) \
	if (PIN(str, (const char *)g_in + K(str)) & PIN(at, g_out + POS(K(str))) & (ASSUME(POS(K(str) + 1) == POS(K(str)) + ELEN(g_in[K(str)]) && (K(str) + 1 >= g_len || g_in[K(str) + 1] != 0)), true))
#endif
#include "loops.h"
#include "skull/codegen/c/expr.c"

#if defined(UNIT_OPER)
static void one(ExprType o, const Type *t) {
	if (!typed(o, t)) return;
	S_state.called_int_pow = S_state.called_float_pow = S_state.called_float_mod = S_state.called_strcmp = false;
	S_root.oper = o; S_root.lhs.expr = oper_unary(o) ? NULL : &S_lhs; S_root.rhs = &S_rhs; S_lhs.type = S_rhs.type = t;
	S_root.type = (o == EXPR_IS || o == EXPR_ISNT || (o >= EXPR_LESS_THAN && o <= EXPR_GTR_THAN_EQ)) ? &TYPE_BOOL : t;
	/* the operand of & is a name */
	T_r.lvl = o == EXPR_REF || vp_bool() ? PRIMARY : UNARY;
	uint64_t want = spell(o, t, T_l.m, T_r.m);
	const char *r = gen_expr_c(&S_root, &S_state);
	CHECK(TX(r)->m == want, "the operator of the language, applied to its operands in order");
	CHECK(TX(r)->lvl >= UNARY, "the text of an expression keeps together as an operand");
	CHECK(!(o == EXPR_POW && t == &TYPE_INT) || S_state.called_int_pow, "the helper that is called is put out");
	CHECK(!(o == EXPR_POW && t == &TYPE_FLOAT) || S_state.called_float_pow, "the helper that is called is put out");
	CHECK(!(o == EXPR_MOD && t == &TYPE_FLOAT) || S_state.called_float_mod, "the helper that is called is put out");
	CHECK(!((o == EXPR_IS || o == EXPR_ISNT) && t == &TYPE_STR) || S_state.called_strcmp, "the helper that is called is put out");
}
#elif defined(UNIT_LEAF)
static void leaf(ExprType o, const Type *t) {
	S_root.oper = o; S_root.type = t; S_root.symbol = &S_sym; S_sym.var = &S_var; S_var.name = (char *)&T_name; S_sym.name = (char *)&T_x;
	S_root.value._int = vp_nd(); S_root.value._bool = vp_bool(); S_root.value.rune = vp_nd(); S_root.value.str = (char[]){""};
	if (t == &TYPE_FLOAT) memcpy(&S_root.value._float, &S_root.value._int, 8);
	const char *r = gen_expr_c(&S_root, &S_state);
	const double f = S_root.value._float;
	if (o == EXPR_CONST && t == &TYPE_STR) { CHECK(r[0] == '"' && r[1] == '"' && r[2] == 0, "a string is spelled as a literal"); return; }
	CHECK(TX(r)->lvl >= UNARY, "the text of an expression keeps together as an operand");
	if (o == EXPR_IDENTIFIER) CHECK(TX(r)->m == T_name.m, "a variable is spelled with its name");
	else if (t == &TYPE_INT) CHECK(TX(r)->m == MEAN("%li", S_root.value._int) || TX(r)->m == MEAN("%liL", S_root.value._int), "an Int literal is spelled with its value");
	else if (t == &TYPE_RUNE) CHECK(TX(r)->m == MEAN("0x%X", S_root.value.rune), "a Rune literal is spelled with its value");
	else if (t == &TYPE_BOOL) CHECK(S_root.value._bool ? is_lit(r, "1") || is_lit(r, "true") : is_lit(r, "0") || is_lit(r, "false"), "a Bool literal is spelled with its value");
	else if (S_root.value._int == 0) CHECK(is_lit(r, "0.0") || TX(r)->m == MEAN("%a", (uint64_t)0), "zero");
	else if (f != f) CHECK(is_lit(r, "__builtin_nan(\"\")"), "not a number");
	else if (f - f != 0) CHECK(is_lit(r, f < 0 ? "-__builtin_inf()" : "__builtin_inf()"), "infinity of its sign");
	else CHECK(TX(r)->m == MEAN("%a", (uint64_t)S_root.value._int), "a Float literal is spelled with its exact value");
}
#endif

void harness(void) {
	init_types();
	S_state.called_int_pow = S_state.called_float_pow = S_state.called_float_mod = S_state.called_strcmp = false;
	T_l.c[0] = T_r.c[0] = T_name.c[0] = T_x.c[0] = 1;
	g_nf = 0; T_known[0] = &T_name; T_known[1] = &T_l; T_known[2] = &T_r; T_known[3] = &T_x;
	T_l.lvl = vp_bool() ? UNARY : PRIMARY; T_r.lvl = vp_bool() ? UNARY : PRIMARY; T_l.m = vp_nd(); T_r.m = vp_nd(); T_name.lvl = PRIMARY; T_name.m = vp_nd(); T_x.m = vp_nd(); T_x.lvl = PRIMARY;
#if defined(UNIT_OPER)
	S_lhs.oper = S_rhs.oper = EXPR_IDENTIFIER; S_lhs.symbol = &S_yl; S_rhs.symbol = &S_yr; S_yl.var = &S_vl; S_yr.var = &S_vr; S_vl.name = (char *)&T_l; S_vr.name = (char *)&T_r;
	for (ExprType o = EXPR_ADD; o <= EXPR_DEREF; o++) {
		one(o, &TYPE_INT); one(o, &TYPE_FLOAT); one(o, &TYPE_BOOL); one(o, &TYPE_RUNE); one(o, &TYPE_STR); one(o, &T_A);
	}
#elif defined(UNIT_LEAF)
	leaf(EXPR_IDENTIFIER, &TYPE_INT); leaf(EXPR_CONST, &TYPE_INT); leaf(EXPR_CONST, &TYPE_FLOAT); leaf(EXPR_CONST, &TYPE_BOOL); leaf(EXPR_CONST, &TYPE_RUNE); leaf(EXPR_CONST, &TYPE_STR);
#elif defined(UNIT_CALL)
	g_n = 0; S_fc.symbol = &S_sym; S_sym.func = &S_func; S_sym.name = (char *)&T_name; S_func.num_params = vp_nd(); S_fc.params = &S_param; S_param.next = &S_param; S_param.expr = &S_rhs;
	gen_expr_func_call_c(&S_fc, &S_state);
#elif defined(UNIT_STR)
	g_len = vp_below(1u << 30); g_in = malloc(g_len + 1); ASSUME(g_in != NULL && g_in[g_len] == 0); g_w = vp_below(1u << 30); ASSUME(g_w >= g_len || g_in[g_w] != 0);
	ASSUME(POS(0) == 1 && (g_len == 0 || g_in[0] != 0));
	gen_str_literal_c((const char *)g_in);
#endif
	REACH("the generator returns");
}
#endif
