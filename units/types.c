/* C05: what a type name denotes.  The real skull/semantic/types.c. */
#ifdef VP_CBMC
#define SEM_REAL_TYPES
#include "vp.h"
#include "skull/semantic/types.h"
#include "sem.h"
static SemanticState S_state; static Scope S_scope; static Symbol Y_found, *g_found, S_new; static char S_name[4], S_tname[4], *S_rname; static HashTable S_ht;
static Token T_tok, T_next, T_eq, T_val; static Type S_old, S_newt; static const Type *g_next_ty, *g_builtin; static bool g_in_ht, g_add_ok, g_key_ok; static unsigned g_nht, g_ncpy, g_nadd;
static AstNode S_node; static AstNodeVarDef S_def; static AstNodeExpr S_expr; static unsigned char g_which; static size_t g_len; static bool g_had;

/* aliases in scope first, then the built-in types */
const Type *find_type(SemanticState *state, char *const name)
REQUIRES(state == &S_state && name == S_name) ASSIGNS()
ENSURES(RET == (g_found && g_found->type == SYMBOL_ALIAS ? g_found->expr_type : g_builtin)) ;
const Type *find_builtin_type(const char *const name)
REQUIRES(name == S_name) ASSIGNS() ENSURES(RET == g_builtin) ;
/* one reference type per type */
Type *get_reference_type(SemanticState *state, const Type *type)
REQUIRES(state == &S_state) ASSIGNS(g_nht, g_ncpy, g_key_ok, S_newt, S_state.dynamic_refs, __CPROVER_object_whole(S_rname))
ENSURES(type == NULL ==> RET == NULL)
ENSURES(type && OLD(S_state.dynamic_refs) && g_in_ht ==> RET == &S_old)
ENSURES(type && !(OLD(S_state.dynamic_refs) && g_in_ht) ==> RET == &S_newt && g_nht == 1 && S_newt.inner == type && S_newt.name == S_rname && S_rname[0] == '&' && g_ncpy == 1)
;
const Type *token_to_type(SemanticState *state, const Token *token)
REQUIRES(state == &S_state && (token == &T_tok || token == &T_next))
ASSIGNS(g_nht, g_ncpy, g_key_ok, S_newt, S_state.dynamic_refs, __CPROVER_object_whole(S_rname))
ENSURES(token == &T_next ==> RET == g_next_ty)
ENSURES(token == &T_tok && (T_tok.type == TOKEN_IDENTIFIER || T_tok.type == TOKEN_DOT_IDENTIFIER) ==> RET == (g_found && g_found->type == SYMBOL_ALIAS ? g_found->expr_type : g_builtin))
ENSURES(token == &T_tok && T_tok.type == TOKEN_OPER_REF ==> (RET != NULL) == (g_next_ty != NULL))
ENSURES(token == &T_tok && T_tok.type == TOKEN_OPER_REF && RET ==> (RET == &S_old || RET == &S_newt) && RET->inner == g_next_ty)
ENSURES(token == &T_tok && T_tok.type != TOKEN_OPER_REF && T_tok.type != TOKEN_IDENTIFIER && T_tok.type != TOKEN_DOT_IDENTIFIER ==> RET == NULL)
;
/* an alias is constant, bound with := to a type, and denotes that very type */
bool validate_stmt_type_alias(SemanticState *state, const AstNode *node)
REQUIRES(state == &S_state && node == &S_node)
ASSIGNS(GHOST_MSG, g_nadd, S_new, g_nht, g_ncpy, g_key_ok, S_newt, S_state.dynamic_refs, __CPROVER_object_whole(S_rname))
ENSURES(RET == (S_def.is_const && S_def.is_implicit && (S_expr.oper == EXPR_IDENTIFIER || S_expr.oper == EXPR_REF) && g_add_ok))
ENSURES(RET ? g_errs == 0 : g_errs == 1)
ENSURES(RET ==> g_nadd == 1 && S_new.type == SYMBOL_ALIAS && S_new.expr_type == g_next_ty && S_new.name == S_name)
;
Symbol *scope_find_name(const Scope *const s, char *n) { CHECK(s == &S_scope && n == S_name, "the name, in the current scope"); return g_found; }
bool scope_add_symbol(SemanticState *s, Symbol *y) { CHECK(s == &S_state && y == &S_new, "the alias is entered"); g_nadd++; if (!g_add_ok) g_errs++; return g_add_ok; }
HashTable *make_ht(void) { return &S_ht; }
void *ht_get(const HashTable *const h, const char *const k) { CHECK(h == S_state.dynamic_refs && h, "the table of reference types"); g_key_ok = k == S_tname; return h == &S_ht && g_had && g_in_ht ? &S_old : NULL; }
bool ht_add(HashTable *const h, const char *const k, void *const p) { CHECK(h == S_state.dynamic_refs && k == S_tname && p == &S_newt, "entered under the name of the inner type"); g_nht++; return true; }
bool token_cmp(const char32_t *s, const Token *t) { (void)s; (void)t; return vp_bool(); }
char *token_to_mbs_str(const Token *t) { CHECK(t == &T_tok, "the token itself"); return S_name; }
char32_t c32sunescape(const char32_t **p, const char32_t **e) { (void)p; (void)e; return 0; }
static size_t vp_strlen(const char *s) { CHECK(s == S_tname, "the name of the inner type"); return g_len; }
static char *vp_strncpy(char *d, const char *s, size_t n) { CHECK(d == S_rname + 1 && s == S_tname && n == g_len + 1, "& followed by the whole name"); g_ncpy++; return d; }
static int vp_strcmp(const char *a, const char *b) {
	const char *t = a == S_name ? b : a; CHECK(a == S_name || b == S_name, "the name asked for");
	return g_builtin && t == g_builtin->name ? 0 : 1;
}
#define strlen vp_strlen
#define strncpy vp_strncpy
#define strcmp vp_strcmp
#include "skull/common/malloc.h"
static void *vp_alloc(size_t k, size_t n) {
	if (n == sizeof(Type)) { S_newt = (Type){0}; return &S_newt; }
	CHECK(n == sizeof(Symbol), "an allocation of an expected kind"); S_new = (Symbol){0}; return &S_new;
}
static void *vp_str_alloc(size_t n) { CHECK(n == g_len + 2, "room for & and the name"); return S_rname; }
#define Calloc(n, s) vp_alloc(n, s)
#define Malloc(n) vp_str_alloc(n)
#define Realloc(p, n) (p)
#define free(p) ((void)(p))
#include "loops.h"
#include "skull/semantic/types.c"

void harness(void) {
	init_types();
	Y_found.type = (SymbolType)(1 + vp_below(SYMBOL_NAMESPACE)); Y_found.expr_type = pick_type(); g_found = vp_bool() ? &Y_found : NULL;
	S_state.scope = &S_scope; g_had = vp_bool(); S_state.dynamic_refs = g_had ? &S_ht : NULL; g_in_ht = vp_bool(); g_nht = g_ncpy = g_nadd = 0;
	g_len = vp_below(1000000); S_rname = VP_MALLOC(g_len + 2);
	g_next_ty = vp_bool() ? &T_A : NULL; T_A.name = S_tname; S_old.inner = &T_A; g_add_ok = vp_bool();
	unsigned b = (unsigned)vp_below(7); const Type *bt[] = { &TYPE_BOOL, &TYPE_INT, &TYPE_FLOAT, &TYPE_RUNE, &TYPE_STR, &TYPE_VOID, NULL }; g_builtin = bt[b];
	T_tok.type = (TokenType)vp_below(TOKEN_END + 1); T_tok.next = &T_next; 
#if defined(UNIT_FIND)
	const Type *r = find_type(&S_state, S_name);
	CHECK(r == (g_found && g_found->type == SYMBOL_ALIAS ? g_found->expr_type : g_builtin), "the contract of find_type");
#elif defined(UNIT_REF)
	get_reference_type(&S_state, g_next_ty);
#elif defined(UNIT_TOKEN)
	token_to_type(&S_state, &T_tok);
#elif defined(UNIT_ALIAS)
	S_node.type = AST_NODE_VAR_DEF; S_node.var_def = &S_def; S_node.token = &T_tok; S_def.name_tok = &T_tok; S_def.expr = &S_expr;
	S_def.is_const = vp_bool(); S_def.is_implicit = vp_bool(); S_expr.oper = (ExprType)vp_below(EXPR_DEREF + 1);
	T_tok.next = &T_eq; T_eq.next = &T_next; T_next.next = &T_val;
	validate_stmt_type_alias(&S_state, &S_node);
#endif
	REACH("the checked function returns");
}
#endif
