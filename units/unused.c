/* C19: which definitions are reported as unused, and what --werror makes of
 * them.  The real skull/semantic/unused.c.  A block is an unbounded list given
 * by a summary node whose nested block is another one (see flow.c). */
#ifdef VP_CBMC
#define fmt_message sem_h_fmt_message
#include "sem.h"
#undef fmt_message
#include "skull/semantic/unused.h"

static AstNode S_node, S_child; static AstNodeVarDef S_def; static AstNodeFunctionProto S_proto;
static Symbol S_vsym, S_fsym; static Variable S_var; static FunctionDeclaration S_func; static char S_name[4];
/* is there something to report: of each kind, in the statements from here on,
 * and anywhere in the nested block */
bool g_mut, g_unused, g_func, g_nested;
bool s_mut, s_unused, s_func;   /* what was reported */
bool s_nested;                  /* in the nested block */
bool s_wrong;                   /* something else was reported */
bool g_nonnull;

#define IS_VAR (S_node.type == AST_NODE_VAR_DEF && S_def.symbol)
#define N_MUT (IS_VAR && !S_var.is_const && !S_var.was_reassigned)
#define N_UNUSED (IS_VAR && !S_var.was_read && !S_var.is_exported)
#define N_FUNC (S_node.type == AST_NODE_FUNCTION_PROTO && !S_func.was_called)
#define HAS_BLOCK (S_node.child && S_node.type != AST_NODE_VAR_DEF && S_node.type != AST_NODE_FUNCTION_PROTO)
#define ANY(n) (!(n) ? false : (n) == &S_child ? g_nested : (g_mut || g_unused || g_func || g_nested_seen))
bool g_nested_seen;             /* some statement from here on has a nested block with something to report */

void fmt_message(ErrorType t, ErrorCode c, Message m[]) {
	CHECK(t == ERROR_WARN, "reported as a warning");
	if (c == WARN_VAR_NOT_CONST && N_MUT && m[0].var == &S_var && m[0].loc == &S_vsym.location) s_mut = true;
	else if (c == WARN_VAR_UNUSED && N_UNUSED && m[0].var == &S_var && m[0].loc == &S_vsym.location) s_unused = true;
	else if (c == WARN_FUNC_UNUSED && N_FUNC && m[0].loc == &S_fsym.location) s_func = true;
	else s_wrong = true;
}

bool check_unused_symbols(const AstNode *node)
REQUIRES(node == NULL || node == &S_node || node == &S_child)
ASSIGNS(s_mut, s_unused, s_func, s_nested, s_wrong)
/* --werror turns every report into a rejection; nothing else does */
ENSURES(RET == !(BUILD_DATA.werror && !BUILD_DATA.quiet && ANY(node)))
/* what is reported is exactly what there is to report */
ENSURES(node == &S_node ==> !s_mut == !(OLD(s_mut) || (!BUILD_DATA.quiet && g_mut)))
ENSURES(node == &S_node ==> !s_unused == !(OLD(s_unused) || (!BUILD_DATA.quiet && g_unused)))
ENSURES(node == &S_node ==> !s_func == !(OLD(s_func) || (!BUILD_DATA.quiet && g_func)))
ENSURES(node == &S_node ==> !s_nested == !(OLD(s_nested) || (!BUILD_DATA.quiet && g_nested_seen)))
ENSURES(node == &S_child ==> (!s_mut == !OLD(s_mut) && !s_unused == !OLD(s_unused) && !s_func == !OLD(s_func)))
ENSURES(node == &S_child ==> !s_nested == !(OLD(s_nested) || (!BUILD_DATA.quiet && g_nested)))
ENSURES(!s_wrong == !OLD(s_wrong))
;
#define LOOP_CONTRACT_unused(head, err) \
	ASSIGNS(head, err, s_mut, s_unused, s_func, s_nested, s_wrong) \
	INVARIANT(head == NULL || head == &S_node) \
	INVARIANT(!s_wrong) \
	INVARIANT((s_mut || (head && g_mut)) == (g_nonnull && g_mut)) \
	INVARIANT((s_unused || (head && g_unused)) == (g_nonnull && g_unused)) \
	INVARIANT((s_func || (head && g_func)) == (g_nonnull && g_func)) \
	INVARIANT((s_nested || (head && g_nested_seen)) == (g_nonnull && g_nested_seen)) \
	INVARIANT(err == (BUILD_DATA.werror && (s_mut || s_unused || s_func || s_nested))) \
	if (PIN(head, &S_node))
#include "loops.h"
#include "skull/semantic/unused.c"

void harness(void) {
	init_types();
	S_node.type = (NodeType)vp_below(AST_NODE_CONTINUE + 1);
	S_node.next = vp_bool() ? &S_node : NULL; S_node.child = vp_bool() ? &S_child : NULL;
	S_node.var_def = &S_def; S_node.func_proto = &S_proto;
	S_def.symbol = vp_bool() ? &S_vsym : NULL; S_proto.symbol = &S_fsym;
	S_vsym.name = S_name; S_vsym.var = &S_var; S_fsym.name = S_name; S_fsym.func = &S_func;
	S_var.is_const = vp_bool(); S_var.was_reassigned = vp_bool(); S_var.was_read = vp_bool(); S_var.is_exported = vp_bool(); S_func.was_called = vp_bool();
	g_mut = vp_bool(); g_unused = vp_bool(); g_func = vp_bool(); g_nested = vp_bool(); g_nested_seen = vp_bool();
	/* the attributes of the list */
	ASSUME(g_mut == (N_MUT || (S_node.next && g_mut)));
	ASSUME(g_unused == (N_UNUSED || (S_node.next && g_unused)));
	ASSUME(g_func == (N_FUNC || (S_node.next && g_func)));
	ASSUME(g_nested_seen == ((HAS_BLOCK && g_nested) || (S_node.next && g_nested_seen)));
	s_mut = s_unused = s_func = s_nested = s_wrong = false;
	g_nonnull = vp_bool();
	check_unused_symbols(g_nonnull ? &S_node : NULL);
	REACH("check_unused_symbols returns");
}
#endif
