/* Environment of the semantic units: the diagnostics sink (the count of fatal
 * errors and warnings is ghost state) and the build flags. */
#ifndef SEM_H
#define SEM_H
#include "vp.h"
#include "skull/build_data.h"
#include "skull/common/errors.h"
#include "skull/parse/ast_node.h"
#include "skull/semantic/func.h"
#include "skull/semantic/scope.h"
#include "skull/semantic/shared.h"
#include "skull/semantic/symbol.h"
#include "skull/semantic/types.h"
#include "skull/semantic/variable.h"

BuildData BUILD_DATA;
uint64_t vp_in;
unsigned g_errs, g_warns;
ErrorCode g_code;
/* assumed contract of the diagnostics sink: records the message, changes
 * nothing else that the semantic phase reads */
void fmt_message(ErrorType t, ErrorCode c, Message m[]) {
	(void)m;
	if (t == ERROR_FATAL) { if (g_errs < 1000) g_errs++; } else if (g_warns < 1000) g_warns++;
	g_code = c;
}
#define GHOST_MSG g_errs, g_warns, g_code

Token G_tok;
const Location *find_expr_node_location(const AstNodeExpr *e) { (void)e; return &G_tok.location; }
const Token *find_expr_node_token(const AstNodeExpr *e) { (void)e; return &G_tok; }

Type T_A, T_B;          /* two arbitrary further types (references, ...) */
#ifndef SEM_REAL_TYPES
Type TYPE_BOOL, TYPE_INT, TYPE_FLOAT, TYPE_RUNE, TYPE_STR, TYPE_VOID;
#endif
static const Type *pick_type(void) {
	switch (vp_below(8)) {
		case 0: return &TYPE_BOOL; case 1: return &TYPE_INT; case 2: return &TYPE_FLOAT;
		case 3: return &TYPE_RUNE; case 4: return &TYPE_STR; case 5: return &TYPE_VOID;
		case 6: return &T_A; default: return &T_B;
	}
}
static bool known_type(const Type *t) {
	return t == &TYPE_BOOL || t == &TYPE_INT || t == &TYPE_FLOAT || t == &TYPE_RUNE || t == &TYPE_STR ||
		t == &TYPE_VOID || t == &T_A || t == &T_B;
}
static void init_types(void) {
	/* built-in types have no inner type; the others have an arbitrary one */
	TYPE_BOOL.inner = TYPE_INT.inner = TYPE_FLOAT.inner = TYPE_RUNE.inner = TYPE_STR.inner = TYPE_VOID.inner = NULL;
	T_A.inner = vp_bool() ? pick_type() : NULL;
	T_B.inner = vp_bool() ? pick_type() : NULL;
	BUILD_DATA.werror = vp_bool();
	BUILD_DATA.quiet = vp_bool();
	g_errs = g_warns = 0;
}
#endif
