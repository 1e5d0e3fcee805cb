/* C05: what a name denotes.  The real skull/semantic/scope.c and symbol.c.
 *
 * The scopes around the one under proof are summarised by one scope S_up and
 * what a look-up there yields (g_up); likewise for the members of a namespace. */
#ifdef VP_CBMC
#include "sem.h"

static Scope S_scope, S_up, S_ns_scope, S_new, S_old_child; static HashTable S_ht, S_new_ht; static SemanticState S_state;
static Symbol Y_here, Y_up, Y_first, Y_member, Y_sym; static Variable S_var; static char S_name[8];
/* results of the look-ups: in this scope, around it, of the part before the
 * dot, of the part after the dot in the namespace found */
static Symbol *g_here, *g_up, *g_first, *g_member, *g_found;
static unsigned g_dot;   /* position of the dot, 8: none */
static const Type *g_ty; static bool g_added; static unsigned g_nadd, g_nscope;

#ifdef UNIT_FIND
#define AROUND (S_scope.parent || S_scope.last ? g_up : NULL)
#define PLAIN (S_scope.symbols && g_here ? g_here : AROUND)
#define DOTTED (S_scope.symbols ? (g_first && g_first->type == SYMBOL_NAMESPACE ? g_member : NULL) : AROUND)
Symbol *scope_find_name(const Scope *const scope, char *name)
REQUIRES((scope == &S_scope && name == S_name) || (scope == &S_up && name == S_name) || (scope == &S_ns_scope && g_dot < 7 && name == &S_name[g_dot + 1]) || scope == NULL)
/* a name with a dot is looked up whole, its two parts are looked up separately */
REQUIRES(name == S_name && scope == &S_up && g_dot < 8 ==> S_name[g_dot] == '.')
REQUIRES(scope == &S_ns_scope ==> S_name[g_dot] == '\0')
ASSIGNS(__CPROVER_object_whole(S_name))
ENSURES(scope == &S_scope && OLD(S_name[g_dot & 7]) != '\0' && g_dot < 8 ==> RET == DOTTED)
ENSURES(scope == &S_scope && OLD(S_name[g_dot & 7]) == '\0' && g_dot < 8 ==> RET == g_first)
ENSURES(scope == &S_scope && g_dot == 8 ==> RET == PLAIN)
ENSURES(scope == &S_up ==> RET == g_up)
ENSURES(scope == &S_ns_scope ==> RET == g_member)
ENSURES(scope == NULL ==> RET == NULL)
/* the name is as it was */
ENSURES(S_name[0] == OLD(S_name[0]) && S_name[1] == OLD(S_name[1]) && S_name[2] == OLD(S_name[2]) && S_name[3] == OLD(S_name[3]))
ENSURES(S_name[4] == OLD(S_name[4]) && S_name[5] == OLD(S_name[5]) && S_name[6] == OLD(S_name[6]) && S_name[7] == OLD(S_name[7]))
;
#else
Symbol *scope_find_name(const Scope *const scope, char *name)
REQUIRES(scope == S_state.scope && name == S_name)
ASSIGNS()
ENSURES(__CPROVER_pointer_equals(RET, g_found))
;
#endif
void *ht_get(const HashTable *const h, const char *const k) { CHECK(h == &S_ht && k == S_name, "the symbols of this scope"); return g_here; }
HashTable *make_ht(void) { return &S_new_ht; }
bool ht_add(HashTable *const h, const char *const k, void *const p) {
	CHECK((h == S_scope.symbols || h == &S_new_ht) && k == S_name && p == &Y_sym, "the symbol, in the current scope, under its name");
	CHECK(S_state.scope && S_state.scope->symbols == h, "the current scope"); g_nadd++; return g_added;
}
void free_ht(HashTable *h, void (*f)(void *)) { (void)h; (void)f; }
void free_variable(Variable *v) { (void)v; }
void free_function_declaration(Symbol *s) { (void)s; }
char *token_to_mbs_str(const Token *t) { (void)t; return S_name; }
static char *vp_strchr(const char *s, int c) {
	CHECK(s == S_name && c == '.', "the dot is looked for in the whole name");
	return g_dot < 8 && S_name[g_dot] ? (char *)s + g_dot : NULL;   /* the part before the dot has no dot */
}
#define strchr vp_strchr
#include "skull/common/malloc.h"
#define Calloc(n, s) vp_alloc((n) * (s))
#define free(p) ((void)(p))
static void *vp_alloc(size_t n) { CHECK(n == sizeof(Scope), "a scope"); g_nscope++; S_new = (Scope){0}; return &S_new; }

#ifdef UNIT_SYMBOL
Symbol *find_func_by_name(SemanticState *s, char *n) { CHECK(n == S_name && s == &S_state, "the name"); return g_found && g_found->type == SYMBOL_FUNC ? g_found : NULL; }
const Type *find_type(SemanticState *s, char *n) { CHECK(n == S_name && s == &S_state, "the name"); return g_found && g_found->type == SYMBOL_ALIAS ? g_found->expr_type : g_ty; }
/* a name that denotes something already (a variable, function, namespace or
 * type that is visible here) cannot be defined again */
#define TAKEN (g_found ? (g_found->type != SYMBOL_ALIAS || g_found->expr_type != NULL) : g_ty != NULL)
bool scope_add_symbol(SemanticState *state, Symbol *symbol)
REQUIRES(state == &S_state && symbol == &Y_sym)
ASSIGNS(GHOST_MSG, g_nadd, g_nscope, S_new, S_state.scope, S_scope.symbols)
ENSURES(TAKEN ==> !RET && g_nadd == 0 && g_errs == 1)
ENSURES(!TAKEN ==> RET == g_added && g_nadd == 1 && g_errs == 0)
ENSURES(OLD(S_state.scope) ? S_state.scope == OLD(S_state.scope) : TAKEN ? S_state.scope == NULL : S_state.scope == &S_new)
;
#else
bool scope_add_symbol(SemanticState *s, Symbol *y) { CHECK(s == &S_state && y == &Y_sym, "the symbol"); g_nadd++; return g_added; }
#endif

bool scope_add_var(SemanticState *state, Symbol *symbol)
ASSIGNS(g_nadd)
ENSURES(state == NULL || (S_state.scope && g_found) ==> !RET && g_nadd == 0)
ENSURES(!(state == NULL || (S_state.scope && g_found)) ==> RET == g_added && g_nadd == 1)
;
Symbol *scope_find_var(SemanticState *state, const Token *const token)
ASSIGNS(GHOST_MSG)
ENSURES(RET == (g_found && g_found->type == SYMBOL_VAR && g_found->var && g_found->var->is_defined ? g_found : NULL))
ENSURES(g_errs == (RET ? 0 : 1))
;
/* blocks: a new scope inside the current one; afterwards the current one again */
void make_child_scope(SemanticState *state)
REQUIRES(state == &S_state && S_state.scope == &S_scope)
ASSIGNS(g_nscope, S_new, S_state.scope, S_scope.child, S_old_child.parent)
ENSURES(S_state.scope == S_scope.child && S_state.scope->parent == &S_scope)
ENSURES(OLD(S_scope.child) != NULL ==> S_scope.child == OLD(S_scope.child))
ENSURES(OLD(S_scope.child) == NULL ==> S_scope.child == &S_new && S_new.symbols == NULL && S_new.last == NULL && S_new.next == NULL && S_new.child == NULL)
;
void make_adjacent_scope(SemanticState *state)
REQUIRES(state == &S_state && S_state.scope == &S_scope)
ASSIGNS(g_nscope, S_new, S_state.scope, S_scope.next)
ENSURES(S_state.scope == &S_new && S_new.last == &S_scope && S_new.symbols == NULL && S_new.child == NULL && S_scope.next == &S_new)
;
#define HEAD (S_scope.last ? &S_up : &S_scope)
void restore_parent_scope(SemanticState *state)
REQUIRES(state == &S_state && S_state.scope == &S_scope)
ASSIGNS(S_state.scope)
ENSURES(HEAD->last == NULL && S_state.scope == HEAD->parent)
;
bool is_top_lvl_scope(SemanticState *state)
REQUIRES(state == &S_state && S_state.scope == &S_scope)
ASSIGNS()
ENSURES(HEAD->last == NULL && RET == (HEAD->parent == NULL))
;
Scope *get_last_adjacent_scope(Scope *scope)
REQUIRES(scope == &S_scope || scope == NULL)
ASSIGNS()
ENSURES(scope == NULL ==> RET == NULL)
ENSURES(scope == &S_scope ==> RET == (S_scope.next ? &S_up : &S_scope) && RET->next == NULL)
;
#define LOOP_CONTRACT_scope_head(last) ASSIGNS(last) INVARIANT(last == &S_up) if (PIN(last, &S_up))
#define LOOP_CONTRACT_scope_tail(scope) ASSIGNS(scope) INVARIANT(scope == NULL || scope == &S_scope || scope == &S_up) \
	INVARIANT((scope == NULL) == (ENTRY(scope) == NULL)) INVARIANT(S_scope.next == NULL ==> scope != &S_up) if (PIN2(scope, &S_scope, &S_up))
#include "loops.h"
#include "skull/semantic/scope.c"
#ifdef UNIT_SYMBOL
#include "skull/semantic/symbol.c"
#endif

static Symbol *any(Symbol *y) {
	y->type = (SymbolType)(1 + vp_below(SYMBOL_NAMESPACE)); y->var = vp_bool() ? &S_var : NULL; y->scope = vp_bool() ? &S_ns_scope : NULL; y->expr_type = vp_bool() ? pick_type() : NULL;
	return vp_bool() ? y : NULL;
}
void harness(void) {
	init_types();
	g_here = any(&Y_here); g_up = any(&Y_up); g_first = any(&Y_first); g_member = any(&Y_member); g_found = vp_bool() ? g_here : NULL;
	S_var.is_defined = vp_bool(); g_added = vp_bool(); g_ty = vp_bool() ? pick_type() : NULL; g_nadd = g_nscope = 0;
	S_scope.symbols = vp_bool() ? &S_ht : NULL; S_scope.parent = vp_bool() ? &S_up : NULL; S_scope.last = vp_bool() ? &S_up : NULL;
	S_scope.child = vp_bool() ? &S_old_child : NULL; S_scope.next = vp_bool() ? &S_up : NULL;
	S_up.parent = vp_bool() ? &S_old_child : NULL;
	S_state.scope = &S_scope; Y_sym.name = S_name; Y_sym.type = (SymbolType)(1 + vp_below(SYMBOL_NAMESPACE));
#if defined(UNIT_FIND)
	g_dot = (unsigned)vp_below(9);
	for (unsigned k = 0; k < 8; k++) { S_name[k] = (char)vp_nd(); }
	if (g_dot < 8) { ASSUME(g_dot < 7); S_name[g_dot] = '.'; }
	if (g_first && g_first->type == SYMBOL_NAMESPACE && !g_first->scope) g_member = NULL;
	if (g_first) g_first->scope = g_first->scope;
	scope_find_name(vp_bool() ? &S_scope : NULL, S_name);
#elif defined(UNIT_SYMBOL)
	if (vp_bool()) { S_state.scope = NULL; g_found = NULL; }
	scope_add_symbol(&S_state, &Y_sym);
#elif defined(UNIT_ADD_VAR)
	if (vp_bool()) { S_state.scope = NULL; g_found = NULL; }
	scope_add_var(vp_bool() ? &S_state : NULL, &Y_sym);
#elif defined(UNIT_FIND_VAR)
	scope_find_var(&S_state, &G_tok);
#elif defined(UNIT_CHILD)
	make_child_scope(&S_state);
#elif defined(UNIT_ADJ)
	make_adjacent_scope(&S_state);
#elif defined(UNIT_PARENT)
	S_up.last = vp_bool() ? &S_up : NULL;
	restore_parent_scope(&S_state);
#elif defined(UNIT_TOP)
	S_up.last = vp_bool() ? &S_up : NULL;
	is_top_lvl_scope(&S_state);
#elif defined(UNIT_TAIL)
	S_up.next = vp_bool() ? &S_up : NULL;
	get_last_adjacent_scope(vp_bool() ? &S_scope : NULL);
#endif
	REACH("the checked function returns");
}
#endif
