From 566a34a4012e0a48710cf8e87cf6d36cd839f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:54 +0000
Subject: [PATCH 01/49] fix: honour parentheses and multi-level operator
 precedence in expressions

(1 + 2) * 3 was restructured as 1 + 2 * 3, and a lower-precedence operator
more than one level up was never re-associated (14 is 2 + 3 * 4). Also report
a missing operand of a unary operator instead of dereferencing NULL.
---
 skull/parse/ast_node.c | 67 +++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..844dd14 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -34,7 +34,8 @@ static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
 static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
+static AstNodeExpr *parse_expr_up_to(ParserCtx *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -50,6 +51,8 @@ typedef enum {
 	RESULT_ERROR
 } ParserResult;
 
+enum { LOOSEST_PRECEDENCE = 7 };
+
 #define NOT_NULL(x) (x) && (x)
 
 #define AST_TOKEN_CMP2(tok, type1, type2) \
@@ -659,37 +662,35 @@ Try and generate AST node for expression.
 Returns node if one was added, NULL otherwise.
 */
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
+	return parse_expr_up_to(ctx, LOOSEST_PRECEDENCE);
+}
+
+/*
+Parse an expression made up of operators that bind at least as tightly as
+`max_precedence`. Operators with equal precedence are left associative.
+*/
+static AstNodeExpr *parse_expr_up_to(
+	ParserCtx *ctx,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return NULL;
 
-	AstNodeExpr *head = parse_single_expr(ctx);
+	AstNodeExpr *current = parse_single_expr(ctx);
 	if (ctx->err) return NULL;
 
-	AstNodeExpr *current = head;
 	AstNodeExpr *last = NULL;
 
 	while (last != current) {
 		last = current;
 
-		current = parse_expr_rhs(ctx, current);
+		current = parse_expr_rhs(ctx, current, max_precedence);
 		if (ctx->err) {
-			free_expr_node(head);
+			free_expr_node(last);
 			return NULL;
 		}
-
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
-
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
 	}
 
-	return last ? last : current;
+	return current;
 }
 
 static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
@@ -717,10 +718,23 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	const unsigned precedence = oper_to_precedence(unary_oper);
+
+	AstNodeExpr *rhs = precedence ?
+		parse_expr_up_to(ctx, precedence - 1) :
+		parse_root_expr(ctx);
+
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = rhs
 	};
 
 	return expr;
@@ -765,7 +779,11 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return expr;
 
 	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
@@ -777,10 +795,13 @@ static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
 		return NULL;
 	}
 
+	const unsigned precedence = oper_to_precedence(oper);
+	if (precedence > max_precedence) return expr;
+
 	Token *oper_token = ctx->token;
 	next_token(ctx);
 
-	AstNodeExpr *rhs = parse_single_expr(ctx);
+	AstNodeExpr *rhs = parse_expr_up_to(ctx, precedence - 1);
 	if (!rhs) {
 		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
 
@@ -798,6 +819,10 @@ static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
 	return new_expr;
 }
 
+/*
+Return how loosely `oper` binds to its operands: the lower the number, the
+tighter it binds. Never greater than `LOOSEST_PRECEDENCE`.
+*/
 static unsigned oper_to_precedence(ExprType oper) {
 	switch (oper) {
 		case EXPR_UNKNOWN:
-- 
2.43.0


From 8696c8a14e37ce8c02ec728c68914cd46f1ab167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:01 +0000
Subject: [PATCH 02/49] fix: restore the enclosing function after validating a
 function declaration

After an external declaration, or after a function containing a nested
function, later return statements were checked against the wrong function.
---
 skull/semantic/func.c   | 6 +++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..7a46e9c 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -28,6 +28,8 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
 	state->while_loop_depth = 0;
 
+	Symbol *const outer_func = state->current_func;
+
 	const bool is_valid = (
 		validate_stmt_func_decl_(state, node) &&
 		setup_and_validate_ast_sub_tree(state, node->child) &&
@@ -35,6 +37,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = outer_func;
 
 	return is_valid;
 }
@@ -79,7 +82,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +129,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From d8b143bd7c16480396a9f372ab8ae89d13a309f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:07 +0000
Subject: [PATCH 03/49] fix: restore the outer loop's blocks after generating a
 nested while loop

break/continue after an inner loop branched to NULL and crashed.
---
 skull/codegen/llvm/flow.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..1fc0721 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	LLVMBasicBlockRef outer_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef outer_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +128,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	// break/continue statements below this loop belong to the outer loop
+	state->current_while_cond = outer_while_cond;
+	state->current_while_end = outer_while_end;
 }
 
 /*
-- 
2.43.0


From 5f041cbb5e603dbf3a3be4c5facf3c36c046377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:47 +0000
Subject: [PATCH 04/49] fix: count the characters of a quoted literal when
 tracking columns

Every token after a string or rune on the same line was reported at the wrong
column.
---
 skull/parse/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..89a537b 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -213,7 +213,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From bfa5e2db0332ca70bd3da64b75f88a3fdbeff3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:52 +0000
Subject: [PATCH 05/49] fix: end a block comment at "#}" even when preceded by
 another "#"

---
 skull/parse/token.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 89a537b..d458222 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -152,13 +152,13 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
-
-			if (*ctx->code == '}') break;
-
-			if (*ctx->code == '\n') next_line(ctx);
+			if (ctx->code[1] == '}') {
+				chomp(ctx);
+				break;
+			}
+			if (ctx->code[1] == '{') {
+				chomp(ctx);
 
-			else if (*ctx->code == '{') {
 				Location location = (Location){
 					.line = ctx->line_num,
 					.column = ctx->column
-- 
2.43.0


From b927c4fe0f1071d7f427f8df9e5e994d48b86b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:24 +0000
Subject: [PATCH 06/49] fix: --werror fails on unused symbols inside nested
 blocks

---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..e9bfd01 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			if (!check_unused_symbols(head->child)) err = true;
 		}
 
 		head = head->next;
-- 
2.43.0


From cf7c87460d6422568833aaf26887254f834fabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:24 +0000
Subject: [PATCH 07/49] fix: reject a value returned from a nested block of a
 void function

Only the last statement of the body was checked, so the backend was handed
(and LLVM rejected) a value return in a void function.
---
 skull/semantic/flow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..a312809 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -55,7 +56,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.real = strdup(state->current_func->name)
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
-- 
2.43.0


From aec81f99f2f16c5120bc1ee3b7019bf0e5302d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:42 +0000
Subject: [PATCH 08/49] fix: integer exponentiation with exponent 0 yields 1

---
 skull/codegen/c/write.c |  4 ++--
 skull/shim.ll           | 51 ++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..c016da3 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -115,7 +115,7 @@ static const char *_float_pow = \
 
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..16e129a 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -81,33 +81,32 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
-  store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
-  br label %8
-
-8:
-  %9 = load i64, i64* %6, align 8
-  %10 = load i64, i64* %4, align 8
-  %11 = icmp slt i64 %9, %10
-  br i1 %11, label %12, label %19
-
-12:
-  %13 = load i64, i64* %3, align 8
-  %14 = load i64, i64* %5, align 8
-  %15 = mul nsw i64 %14, %13
-  store i64 %15, i64* %5, align 8
-  br label %16
+  store i64 1, i64* %5, align 8
+  store i64 0, i64* %6, align 8
+  br label %7
 
-16:
-  %17 = load i64, i64* %6, align 8
-  %18 = add nsw i64 %17, 1
-  store i64 %18, i64* %6, align 8
-  br label %8, !llvm.loop !3
-
-19:
-  %20 = load i64, i64* %5, align 8
-  ret i64 %20
+7:
+  %8 = load i64, i64* %6, align 8
+  %9 = load i64, i64* %4, align 8
+  %10 = icmp slt i64 %8, %9
+  br i1 %10, label %11, label %18
+
+11:
+  %12 = load i64, i64* %3, align 8
+  %13 = load i64, i64* %5, align 8
+  %14 = mul nsw i64 %13, %12
+  store i64 %14, i64* %5, align 8
+  br label %15
+
+15:
+  %16 = load i64, i64* %6, align 8
+  %17 = add nsw i64 %16, 1
+  store i64 %17, i64* %6, align 8
+  br label %7, !llvm.loop !3
+
+18:
+  %19 = load i64, i64* %5, align 8
+  ret i64 %19
 }
 
 !1 = distinct !{!1, !2}
-- 
2.43.0


From c1872c009a7202234b0558b795ccd4fed587cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:51 +0000
Subject: [PATCH 09/49] fix: integer division truncates instead of assuming an
 exact quotient

An exact sdiv is poison when there is a remainder: 7 / 3 computed 173.
---
 skull/codegen/llvm/expr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..23d8b7f 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -236,9 +236,7 @@ static Expr gen_expr_div(
 	LLVMValueRef rhs,
 	const SkullStateLLVM *state
 ) {
-	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
-	);
+	return gen_expr_math_oper(lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state);
 }
 
 /*
-- 
2.43.0


From 3fec9a861843255d6b6ecdabcf3740415857bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:57 +0000
Subject: [PATCH 10/49] fix: make _float_pow a function, calling it jumped into
 a data symbol

---
 skull/shim.ll | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/shim.ll b/skull/shim.ll
index 16e129a..bed70da 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,4 +1,7 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
-- 
2.43.0


From 30bb0c7842bd46c2f0b9a560e7776649a421ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:19 +0000
Subject: [PATCH 11/49] fix: comparing references or void results with is/isnt
 aborted the compiler

References are compared by address; comparing void results is rejected.
---
 skull/codegen/llvm/expr.c |  6 +++++-
 skull/semantic/expr.c     | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 23d8b7f..e88eaa5 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -376,7 +376,11 @@ static Expr gen_expr_is(
 ) {
 	const Type *type = lhs->type;
 
-	if (type == &TYPE_INT || type == &TYPE_RUNE || type == &TYPE_BOOL)
+	if (type == &TYPE_INT ||
+		type == &TYPE_RUNE ||
+		type == &TYPE_BOOL ||
+		is_reference(type)
+	)
 		return (Expr){
 			.value = LLVMBuildICmp(
 				state->builder,
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..f965b31 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -20,6 +20,7 @@ static bool is_div_by_zero(const AstNodeExpr *);
 static bool validate_const_expr(AstNodeExpr *);
 static bool validate_pow_expr(const AstNodeExpr *);
 static bool validate_bool_expr(const AstNodeExpr *);
+static bool validate_equality_expr(const AstNodeExpr *);
 static bool validate_ref_expr(const AstNodeExpr *);
 static bool is_numeric(const AstNodeExpr *);
 static bool validate_shift_expr(const AstNodeExpr *);
@@ -111,6 +112,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 		case EXPR_OR:
 		case EXPR_XOR:
 			return validate_bool_expr(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return validate_equality_expr(expr);
 		case EXPR_REF:
 			return validate_ref_expr(expr);
 		case EXPR_DEREF:
@@ -265,6 +269,16 @@ static bool validate_bool_expr(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool validate_equality_expr(const AstNodeExpr *expr) {
+	if (expr->rhs->type == &TYPE_VOID) {
+		FMT_ERROR(ERR_INVALID_EXPR, { .tok = find_expr_node_token(expr) });
+
+		return false;
+	}
+
+	return true;
+}
+
 static bool validate_ref_expr(const AstNodeExpr *expr) {
 	if (expr->rhs->oper != EXPR_IDENTIFIER) {
 		FMT_ERROR(ERR_REF_IDENT_ONLY, {
-- 
2.43.0


From 34d5bad208f1af155aee34252ef032dbdf3989ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 12/49] fix: require the filename to end with .sk, not merely
 to contain it

Output names are made by dropping the last three characters; a short name such
as d.sk/x underflowed the buffer.
---
 skull/cli.c       | 4 +++-
 skull/real_main.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..3a0215d 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -42,7 +42,9 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
+	const char *extension = strrstr(BUILD_DATA.filename, ".sk");
+
+	if (!extension || extension[3]) {
 		fprintf(
 			stderr, "skull: missing required \".sk\" extension, exiting\n"
 		);
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..56485a5 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -39,7 +39,9 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+
+	if (!extension || extension[3]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-- 
2.43.0


From f1bd7b06929d1bcbc7a4dabfbc33bf19b60d2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:02 +0000
Subject: [PATCH 13/49] fix: strrstr formed pointers before the start of the
 string

---
 skull/common/str.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skull/common/str.c b/skull/common/str.c
index 312618e..7802107 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -211,14 +211,16 @@ const char __attribute__((pure)) *strrstr(
 	const size_t str_len = strlen(str);
 	const size_t sub_len = strlen(sub);
 
+	if (sub_len > str_len) return NULL;
+
 	const char *look = str + str_len - sub_len;
 
-	while (look >= str) {
+	while (true) {
 		if (strncmp(look, sub, sub_len) == 0) return look;
+		if (look == str) return NULL;
 
 		look--;
 	}
-	return NULL;
 }
 
 /*
-- 
2.43.0


From 345720b2074f4587342028c5fd683114ecc3005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:08 +0000
Subject: [PATCH 14/49] fix: reject optimization levels with trailing
 characters (-O12)

---
 skull/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/cli.c b/skull/cli.c
index 3a0215d..47dd0fa 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -107,7 +107,7 @@ static int handle_args(int argc, char *argv[]) {
 			break;
 		}
 		case 'O': {
-			switch (argv[0][2]) {
+			switch (argv[0][2] && argv[0][3] ? '\0' : argv[0][2]) {
 				case '1': set_bool_flag(&BUILD_DATA.optimize1, "-O1"); break;
 				case '2': set_bool_flag(&BUILD_DATA.optimize2, "-O2"); break;
 				case '3': set_bool_flag(&BUILD_DATA.optimize3, "-O3"); break;
-- 
2.43.0


From cd248620949695c7e7f09fda887cec1aa14d8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:13 +0000
Subject: [PATCH 15/49] fix: do not index the ctype table with runes outside
 the ASCII range

---
 skull/semantic/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..6cbbf45 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -97,7 +97,7 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	if (*start < 0x80 && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 1fd1a10286972415a2493aab77a9e2fe5e079fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:19 +0000
Subject: [PATCH 16/49] fix: C backend reports an unwritable output file
 instead of crashing

---
 skull/codegen/c/write.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index c016da3..60ba0e5 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -33,6 +33,7 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 		open_file(out_filename, false);
 
 	free(out_filename);
+	if (!f) return true;
 
 	print_headers(f);
 	print_builtins(f, state);
@@ -42,6 +43,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
+	if (f != stdout) fclose(f);
+
 	return false;
 }
 
-- 
2.43.0


From 170a72ca2cba840ffcb2b53474fed06ce3d2ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:02 +0000
Subject: [PATCH 17/49] hook: LOOP_CONTRACT attaches a loop contract when built
 with SKULL_CONTRACTS

---
 skull/contract.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)
 create mode 100644 skull/contract.h

diff --git a/skull/contract.h b/skull/contract.h
new file mode 100644
index 0000000..d9738db
--- /dev/null
+++ b/skull/contract.h
@@ -0,0 +1,14 @@
+#pragma once
+
+/*
+Attach the loop contract called `name` to a loop, naming the variables that the
+contract is stated over.
+
+Expands to nothing unless built for verification (`SKULL_CONTRACTS`), in which
+case the verifier supplies the definition of `LOOP_CONTRACT_name`.
+*/
+#ifdef SKULL_CONTRACTS
+# define LOOP_CONTRACT(name, ...) LOOP_CONTRACT_##name(__VA_ARGS__)
+#else
+# define LOOP_CONTRACT(name, ...)
+#endif
-- 
2.43.0


From b9fec0b6786ae7a73375abe9981c12aa5aa0988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:51 +0000
Subject: [PATCH 18/49] fix: report a file of only whitespace as empty instead
 of crashing

---
 skull/parse/ast_node.c | 3 ++-
 skull/parse/classify.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 844dd14..52b33fc 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -65,7 +65,8 @@ Makes an AST (abstract syntax tree) from a list of tokens.
 AstNode *parse_ast_tree(Token *token) {
 	Token *head = token;
 
-	ParserCtx ctx = { .token = token };
+	// a token without any text is only made when there is no code to tokenize
+	ParserCtx ctx = { .token = token->begin ? token : NULL };
 
 	AstNode *tree = parse_ast_tree_(&ctx);
 
diff --git a/skull/parse/classify.c b/skull/parse/classify.c
index 2760d52..9ef6fd6 100644
--- a/skull/parse/classify.c
+++ b/skull/parse/classify.c
@@ -56,7 +56,7 @@ static bool is_constant_str_str(const char32_t *const);
 Classify the token `token`.
 */
 static void classify_token(Token *const token) {
-	if (token->type) return;
+	if (token->type || !token->begin) return;
 
 	const size_t len = token->len;
 
-- 
2.43.0


From c6e432230721f94ca01a9fd0c046f18fe48f24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:14 +0000
Subject: [PATCH 19/49] fix: report incomplete statements at the end of the
 file instead of crashing

---
 skull/parse/ast_node.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 52b33fc..fd19a17 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -142,7 +142,9 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &name_token->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -218,8 +220,12 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 	next_token(ctx);
 
 	AstNodeExpr *expr = parse_expression(ctx);
+	if (ctx->err) return RESULT_ERROR;
+
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &last->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -276,7 +282,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
@@ -414,18 +420,21 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 }
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
-	if (!ctx->token || !ctx->token->next) {
+	Token *first = ctx->token;
+
+	if (!first->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = first });
 		ctx->err = true;
 		return;
 	}
 
-	AstNode *cond_node = push_ast_node(ctx, ctx->token, node_type);
+	AstNode *cond_node = push_ast_node(ctx, first, node_type);
 	next_token(ctx);
 
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token ? ctx->token : first });
 		ctx->err = true;
 
 		return;
-- 
2.43.0


From 93bac496cf554c040b7627f55eff7989132eb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:48 +0000
Subject: [PATCH 20/49] fix: a function or namespace name is not usable as a
 variable

---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..387be27 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,6 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From 3aedc9f41d6bf49fb9a2a96b94e3b20439c9de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:54 +0000
Subject: [PATCH 21/49] fix: rejecting a namespace is always accompanied by an
 error message

---
 skull/parse/ast_node.c  | 7 ++++++-
 skull/semantic/symbol.c | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index fd19a17..51896f4 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -461,7 +461,12 @@ static void parse_while(ParserCtx *ctx) {
 }
 
 static void parse_namespace(ParserCtx *ctx) {
-	if (!ctx->token || !ctx->token->next) {
+	if (!ctx->token->next) {
+		FMT_ERROR(ERR_MISSING_BLOCK, {
+			.loc = &ctx->token->location,
+			.str = "namespace"
+		});
+
 		ctx->err = true;
 		return;
 	}
diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..c23f3e7 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -20,7 +20,7 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	const Location *location = &new_symbol->location;
 	char *name = new_symbol->name;
 
-	if (type != new_symbol->type) {
+	if (type != new_symbol->type || type == SYMBOL_NAMESPACE) {
 		FMT_ERROR(
 			ERR_NO_REDEFINE_X_AS_Y,
 			{ .loc = location, .str = symbol_type_to_str(type) },
-- 
2.43.0


From 9102495fc08484001fafc5d5654a9a2540a01767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:46 +0000
Subject: [PATCH 22/49] fix: bind a type alias to the name and type of its
 definition

---
 skull/parse/ast_node.c |  2 +-
 skull/semantic/types.c | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 51896f4..261705e 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -119,7 +119,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (is_explicit_type(ctx)) {
 		is_implicit = false;
 
-		if (!ctx->token) {
+		if (!ctx->token || ctx->token->type != TOKEN_OPER_EQUAL) {
 			FMT_ERROR(ERR_MISSING_ASSIGNMENT, { .loc = &name_token->location });
 			return RESULT_ERROR;
 		}
diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 6cbbf45..dd1d7cc 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -262,16 +262,20 @@ static void strip_underscore_num(char *str, char c) {
 }
 
 bool validate_stmt_type_alias(SemanticState *state, const AstNode *node) {
-	const Token *token = node->token;
+	const Token *token = node->var_def->name_tok;
 
 	if (!node->var_def->is_const) {
-		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, { .loc = &token->next->location });
+		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, {
+			.loc = &node->token->next->location
+		});
 		return false;
 	}
 
 	const ExprType oper = node->var_def->expr->oper;
 
-	if (oper != EXPR_IDENTIFIER && oper != EXPR_REF) {
+	if (!node->var_def->is_implicit ||
+		(oper != EXPR_IDENTIFIER && oper != EXPR_REF)
+	) {
 		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &token->next->next->location });
 		return false;
 	}
-- 
2.43.0


From 830be72ed904c3f88d4a8c12f5828bedbcf11a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:57 +0000
Subject: [PATCH 23/49] hook: loop contract on the checking of call arguments

---
 skull/semantic/expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index f965b31..a78db9f 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -5,6 +5,7 @@
 #include "skull/common/hashtable.h"
 #include "skull/common/malloc.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/scope.h"
 #include "skull/semantic/shared.h"
@@ -364,7 +365,8 @@ static bool validate_func_call_params(
 	const FunctionDeclaration *function = func_call->symbol->func;
 	const AstNode *param = func_call->params;
 
-	for (unsigned i = 0; i < function->num_params; i++) {
+	for (unsigned i = 0; i < function->num_params; i++)
+	LOOP_CONTRACT(call_params, i, param) {
 		if (!validate_expr(state, param->expr)) return false;
 
 		if (param->expr->type != function->param_types[i]) {
-- 
2.43.0


From fbe20097770b7aa64cf6d43831f801f020af43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:49 +0000
Subject: [PATCH 24/49] hook: loop contracts in the semantic phase

---
 skull/semantic/entry.c  | 4 +++-
 skull/semantic/flow.c   | 4 +++-
 skull/semantic/func.c   | 7 +++++--
 skull/semantic/scope.c  | 7 +++++--
 skull/semantic/unused.c | 4 +++-
 5 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/skull/semantic/entry.c b/skull/semantic/entry.c
index 0ca48e0..c297b61 100644
--- a/skull/semantic/entry.c
+++ b/skull/semantic/entry.c
@@ -3,6 +3,7 @@
 
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
+#include "skull/contract.h"
 #include "skull/semantic/assign.h"
 #include "skull/semantic/expr.h"
 #include "skull/semantic/flow.h"
@@ -33,7 +34,8 @@ bool validate_ast_tree(SemanticState *state, AstNode *node) {
 Validate an AST tree starting at `node`.
 */
 static bool validate_ast_sub_tree(SemanticState *state, AstNode *node) {
-	while (node) {
+	while (node)
+	LOOP_CONTRACT(statements, node) {
 		if (!validate_ast_node(state, node)) return false;
 
 		node = node->next;
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index a312809..34ae195 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -5,6 +5,7 @@
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
+#include "skull/contract.h"
 #include "skull/semantic/entry.h"
 #include "skull/semantic/expr.h"
 #include "skull/semantic/func.h"
@@ -81,7 +82,8 @@ bool validate_stmt_unreachable(const AstNode *node) {
 }
 
 static bool no_dead_code_below(const AstNode *node) {
-	while (node) {
+	while (node)
+	LOOP_CONTRACT(dead_code, node) {
 		switch (node->type) {
 			case AST_NODE_COMMENT:
 			case AST_NODE_UNREACHABLE:
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 7a46e9c..96b991d 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -5,6 +5,7 @@
 #include "skull/common/errors.h"
 #include "skull/common/hashtable.h"
 #include "skull/common/malloc.h"
+#include "skull/contract.h"
 #include "skull/semantic/entry.h"
 #include "skull/semantic/mangle.h"
 #include "skull/semantic/scope.h"
@@ -110,7 +111,8 @@ static bool post_validate_stmt_func_decl(
 		terminal_node &&
 		terminal_node->type != AST_NODE_RETURN &&
 		terminal_node->type != AST_NODE_UNREACHABLE
-	) {
+	)
+	LOOP_CONTRACT(terminal_node, terminal_node) {
 		terminal_node = terminal_node->next;
 	}
 
@@ -145,7 +147,8 @@ static bool validate_func_params(
 
 	AstNodeFunctionParam **params = node->func_proto->params;
 
-	for (unsigned i = 0; i < function->num_params; i++) {
+	for (unsigned i = 0; i < function->num_params; i++)
+	LOOP_CONTRACT(func_params, i) {
 		function->param_types[i] = token_to_type(state, params[i]->type_name);
 
 		if (!function->param_types[i]) {
diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index 387be27..3fba6d9 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -4,6 +4,7 @@
 
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
+#include "skull/contract.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/shared.h"
 #include "skull/semantic/symbol.h"
@@ -145,7 +146,8 @@ static Scope *find_scope_head(SemanticState *state) {
 	Scope *last = state->scope->last;
 	if (!last) return state->scope;
 
-	while (last && last->last) {
+	while (last && last->last)
+	LOOP_CONTRACT(scope_head, last) {
 		last = last->last;
 	}
 
@@ -215,7 +217,8 @@ void free_scope(Scope *scope) {
 }
 
 Scope *get_last_adjacent_scope(Scope *scope) {
-	while (scope && scope->next) {
+	while (scope && scope->next)
+	LOOP_CONTRACT(scope_tail, scope) {
 		scope = scope->next;
 	}
 
diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index e9bfd01..17cb266 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -2,6 +2,7 @@
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
+#include "skull/contract.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
 #include "skull/semantic/variable.h"
@@ -14,7 +15,8 @@ bool check_unused_symbols(const AstNode *node) {
 	const AstNode *head = node;
 	bool err = false;
 
-	while (head) {
+	while (head)
+	LOOP_CONTRACT(unused, head, err) {
 		if (head->type == AST_NODE_VAR_DEF) {
 			if (!head->var_def->symbol) {
 				head = head->next;
-- 
2.43.0


From 5a63391c53d60f3bf0eca93952ccb6497fad98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 25/49] hook: loop contracts in the hash table

---
 skull/common/hashtable.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skull/common/hashtable.c b/skull/common/hashtable.c
index e5b39c0..440ee90 100644
--- a/skull/common/hashtable.c
+++ b/skull/common/hashtable.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 #include "skull/common/malloc.h"
+#include "skull/contract.h"
 
 #include "skull/common/hashtable.h"
 
@@ -24,7 +25,8 @@ static __attribute__((pure)) unsigned ht_hash_key(const char *const key) {
 
 	unsigned long long hash = 0;
 
-	for (unsigned i = 0; i < len; i++) {
+	for (unsigned i = 0; i < len; i++)
+	LOOP_CONTRACT(hash, i, hash) {
 		hash += (unsigned long long)key[i] * i;
 	}
 
@@ -67,7 +69,8 @@ void *ht_get(const HashTable *const ht, const char *const key) {
 	const Vector *items = ht->slots[ht_hash_key(key)];
 	if (!items) return NULL;
 
-	for (unsigned i = 0; i < items->length; i++) {
+	for (unsigned i = 0; i < items->length; i++)
+	LOOP_CONTRACT(bucket, i) {
 		const HashItem *item = vector_at_HashItem(items, i);
 
 		if (strcmp(item->key, key) == 0) return item->data;
-- 
2.43.0


From 3895773e9b782e40676ab43fcd110ceaa5deaea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:52 +0000
Subject: [PATCH 26/49] fix: column of the newline which ends a line comment

---
 skull/parse/token.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index d458222..878adb6 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -149,6 +149,7 @@ static bool iter_comment(TokenizeCtx *ctx) {
 
 		if (ctx->comment == LINE_COMMENT && *ctx->code == '\n') {
 			ctx->code--;
+			ctx->column--;
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-- 
2.43.0


From 1547ad7085013d3e853cea749c5189be889d199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:28 +0000
Subject: [PATCH 27/49] hook: loop contracts in the tokenizer

---
 skull/parse/token.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 878adb6..8d4b6e4 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -4,6 +4,7 @@
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 
 #include "skull/parse/token.h"
 
@@ -63,7 +64,7 @@ Token *tokenize(const char32_t *code) {
 		.line_num = 1
 	};
 
-	while (*ctx.code) {
+	while (*ctx.code) LOOP_CONTRACT(tokenize, ctx) {
 		const bool err = tokenize_inner_loop(&ctx);
 
 		if (err) {
@@ -144,7 +145,7 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 	chomp(ctx);
 
-	do {
+	do LOOP_CONTRACT(comment, ctx) {
 		chomp(ctx);
 
 		if (ctx->comment == LINE_COMMENT && *ctx->code == '\n') {
@@ -213,7 +214,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 
 	if (!ctx->token->begin) token_add_info(ctx);
 
-	do {
+	do LOOP_CONTRACT(quote, ctx) {
 		chomp(ctx);
 
 		if (*ctx->code == '\n') {
-- 
2.43.0


From 05fc9b8fcee606ef6a93ec2fa785505d55278208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 28/49] hook: loop contracts in strings and token classes

---
 skull/common/str.c     | 17 +++++++++--------
 skull/parse/classify.c | 12 +++++++-----
 skull/semantic/types.c |  4 +++-
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/skull/common/str.c b/skull/common/str.c
index 7802107..0dcaa95 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -5,6 +5,7 @@
 
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
+#include "skull/contract.h"
 
 #include "skull/common/str.h"
 
@@ -36,7 +37,7 @@ void c32sncpy(char32_t *dest, const char32_t *src, size_t n) {
 	*dest = '\0';
 	memset(dest, 0, n * sizeof *dest);
 
-	while (*src && n > 0) {
+	while (*src && n > 0) LOOP_CONTRACT(c32sncpy, dest, src, n) {
 		*dest = *src;
 		src++;
 		dest++;
@@ -61,7 +62,7 @@ char *c32stombs(const char32_t *str, const Location *location) {
 	mbstate_t mbs;
 	memset(&mbs, 0, sizeof mbs);
 
-	while (*str) {
+	while (*str) LOOP_CONTRACT(c32stombs, str, offset) {
 		errno = 0;
 		size_t length = c32rtomb(ret + offset, *str, &mbs);
 
@@ -93,7 +94,7 @@ __attribute__((pure)) size_t c32slen(const char32_t *str) {
 
 	size_t len = 0;
 
-	while (*str) {
+	while (*str) LOOP_CONTRACT(c32slen, str, len) {
 		str++;
 		len++;
 	}
@@ -116,7 +117,7 @@ char32_t *mbstoc32s(const char *str) {
 	mbstate_t mbs;
 	memset(&mbs, 0, sizeof mbs);
 
-	while (*str) {
+	while (*str) LOOP_CONTRACT(mbstoc32s, str, offset) {
 		errno = 0;
 		const size_t length = mbrtoc32(ret + offset, str, MB_CUR_MAX, &mbs);
 
@@ -146,7 +147,7 @@ Compare two UTF-32 strings `a` and `b`.
 `a` and `b` must be of equal length, and match exactly.
 */
 __attribute__((pure)) bool c32scmp(const char32_t *a, const char32_t *b) {
-	while (*a && *b) {
+	while (*a && *b) LOOP_CONTRACT(c32scmp, a, b) {
 		if (*a != *b) return false;
 
 		a++;
@@ -164,7 +165,7 @@ __attribute__((pure)) bool c32sncmp(
 	const char32_t *b,
 	size_t n
 ) {
-	while (*a && *b && n > 0) {
+	while (*a && *b && n > 0) LOOP_CONTRACT(c32sncmp, a, b, n) {
 		if (*a != *b) return false;
 
 		a++;
@@ -215,7 +216,7 @@ const char __attribute__((pure)) *strrstr(
 
 	const char *look = str + str_len - sub_len;
 
-	while (true) {
+	while (true) LOOP_CONTRACT(strrstr, look) {
 		if (strncmp(look, sub, sub_len) == 0) return look;
 		if (look == str) return NULL;
 
@@ -228,7 +229,7 @@ Return pointer to first occurrence of `c` in `str`, or `NULL` if none was
 found.
 */
 const char32_t *c32schr(const char32_t *str, char32_t c) {
-	while (*str) {
+	while (*str) LOOP_CONTRACT(c32schr, str) {
 		if (*str == c) return str;
 
 		str++;
diff --git a/skull/parse/classify.c b/skull/parse/classify.c
index 9ef6fd6..dbb67c3 100644
--- a/skull/parse/classify.c
+++ b/skull/parse/classify.c
@@ -4,6 +4,7 @@
 #include <string.h>
 
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/semantic/types.h"
 
 #include "skull/parse/classify.h"
@@ -147,7 +148,7 @@ static void classify_token(Token *const token) {
 Classify all tokens pointed to from `token`.
 */
 void classify_tokens(Token *head) {
-	while (head) {
+	while (head) LOOP_CONTRACT(classify, head) {
 		classify_token(head);
 		head = head->next;
 	}
@@ -190,7 +191,7 @@ static bool is_reserved_str(const char32_t *const str) {
 #define EXHAUST_STR_INT(cond) \
 	if (*str == '_') return false; \
 	bool was_last_underscore = false; \
-	while (*str) { \
+	while (*str) LOOP_CONTRACT(digits, str, was_last_underscore) { \
 		if (was_last_underscore && *str == '_') return false; \
 		if (!(cond) && *str != '_') return false; \
 		was_last_underscore = *str == '_'; \
@@ -199,7 +200,7 @@ static bool is_reserved_str(const char32_t *const str) {
 	if (str[-1] == '_') return false
 
 #define EXHAUST_STR(cond) \
-	while (*str) { \
+	while (*str) LOOP_CONTRACT(fraction, str) { \
 		if (!(cond)) return false; \
 		str++; \
 	}
@@ -250,7 +251,8 @@ static bool is_constant_float_str(const char32_t *str) {
 	if (*str == '.' || *str == '_') return false;
 
 	bool was_last_underscore = false;
-	while (*str && *str != '.') {
+	while (*str && *str != '.')
+	LOOP_CONTRACT(whole, str, was_last_underscore) {
 		if ((was_last_underscore && *str == '_') ||
 			(!c32isdigit(*str) && *str != '_')
 		) {
@@ -318,7 +320,7 @@ bool is_valid_identifier_str(const char32_t *str) {
 
 	str++;
 
-	while (*str) {
+	while (*str) LOOP_CONTRACT(identifier, str) {
 		const char32_t c = *str;
 
 		if (c == ':') {
diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index dd1d7cc..3a18670 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -8,6 +8,7 @@
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/parse/ast_node.h"
 #include "skull/semantic/scope.h"
 #include "skull/semantic/shared.h"
@@ -149,7 +150,8 @@ char32_t *eval_str(const Token *const token) {
 
 	const char32_t *str = token->begin + 1;
 	size_t wrote = 0;
-	while (*str && str < token->begin + token->len - 1) {
+	while (*str && str < token->begin + token->len - 1)
+	LOOP_CONTRACT(eval_str, str, wrote) {
 		const char32_t *error = NULL;
 		copy[wrote] = c32sunescape(&str, &error);
 
-- 
2.43.0


From 55cf13f083b2cb389c5b35a3333f9e7f1cef70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:20 +0000
Subject: [PATCH 29/49] hook: loop contracts in the parser

---
 skull/parse/ast_node.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 261705e..14404c4 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -4,6 +4,7 @@
 #include "skull/common/errors.h"
 #include "skull/common/malloc.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/semantic/symbol.h"
 #include "skull/semantic/variable.h"
 
@@ -394,7 +395,8 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 	Vector *params = make_vector();
 	Token *last_token = ctx->token;
 
-	while (is_explicit_type(ctx)) {
+	while (is_explicit_type(ctx))
+	LOOP_CONTRACT(params, ctx, params, last_token) {
 		if (!ctx->token) return params;
 
 		Token *last = ctx->token;
@@ -485,7 +487,7 @@ static AstNode *parse_ast_tree_(ParserCtx *ctx) {
 	ctx->node = make_ast_node();
 	ctx->head = ctx->node;
 
-	while (ctx->token) {
+	while (ctx->token) LOOP_CONTRACT(statements, ctx) {
 		const bool done = parse_ast_node(ctx);
 
 		if (done || ctx->err) break;
@@ -695,7 +697,7 @@ static AstNodeExpr *parse_expr_up_to(
 
 	AstNodeExpr *last = NULL;
 
-	while (last != current) {
+	while (last != current) LOOP_CONTRACT(operators, ctx, last, current) {
 		last = current;
 
 		current = parse_expr_rhs(ctx, current, max_precedence);
@@ -931,7 +933,7 @@ static AstNodeExpr *parse_func_call(ParserCtx *ctx) {
 
 	unsigned short num_values = 0;
 
-	while (true) {
+	while (true) LOOP_CONTRACT(arguments, ctx, child, num_values) {
 		if (!ctx->token) {
 			FMT_ERROR(ERR_UNCLOSED_FUNC_CALL, {
 				.loc = &func_name_token->location
-- 
2.43.0


From 607a8a886d6fdf1b5a789a170c1f08737dc0d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:09 +0000
Subject: [PATCH 30/49] fix: references to local constants, and through them,
 are addresses of the right type

---
 skull/codegen/llvm/expr.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index e88eaa5..33d59d3 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -33,7 +33,7 @@ static Operation gen_expr_add, gen_expr_sub, gen_expr_mult,
 static Expr gen_expr_const(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_is_str(LLVMValueRef, LLVMValueRef, const SkullStateLLVM *);
 static Expr gen_expr_identifier(const AstNodeExpr *, const SkullStateLLVM *);
-static Expr gen_expr_ref(const AstNodeExpr *);
+static Expr gen_expr_ref(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_deref(const AstNodeExpr *, const SkullStateLLVM *);
 static Operation *expr_type_to_func(ExprType);
 
@@ -58,7 +58,7 @@ Expr gen_expr(const AstNodeExpr *const expr, const SkullStateLLVM *state) {
 		case EXPR_FUNC:
 			return gen_expr_func_call(expr->lhs.func_call, state);
 		case EXPR_REF:
-			return gen_expr_ref(expr);
+			return gen_expr_ref(expr, state);
 		case EXPR_DEREF:
 			return gen_expr_deref(expr, state);
 		default: break;
@@ -115,12 +115,7 @@ static Expr gen_expr_deref(
 		.value = LLVMBuildLoad2(
 			state->builder,
 			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			gen_expr_identifier(expr->rhs, state).value,
 			""
 		),
 		.type = var->type->inner
@@ -321,11 +316,22 @@ static Expr gen_expr_pow(
 /*
 Return reference to an expression `expr`.
 */
-static Expr gen_expr_ref(const AstNodeExpr *expr) {
-	return (Expr){
-		.value = expr->rhs->symbol->var->ref,
-		.type = expr->rhs->symbol->var->type->inner
-	};
+static Expr gen_expr_ref(const AstNodeExpr *expr, const SkullStateLLVM *state) {
+	const Variable *var = expr->rhs->symbol->var;
+
+	// local constants are plain values, so they need an address first
+	if (var->is_const && !var->is_global) {
+		LLVMValueRef ref = LLVMBuildAlloca(
+			state->builder,
+			type_to_llvm_type(var->type, state),
+			""
+		);
+		LLVMBuildStore(state->builder, var->ref, ref);
+
+		return (Expr){ .value = ref, .type = expr->type };
+	}
+
+	return (Expr){ .value = var->ref, .type = expr->type };
 }
 
 /*
-- 
2.43.0


From 04d9ff43368591e14897d8ce270bf3835d5eacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:09 +0000
Subject: [PATCH 31/49] fix: a mutable variable of a loop at the top level
 starts over in every iteration

---
 skull/codegen/llvm/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..2a179e3 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -80,7 +80,10 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// a mutable variable in a loop starts over in every iteration
+		if (is_const_literal && (
+			var->is_const || !state->current_while_cond
+		)) return;
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = LLVMBuildAlloca(
-- 
2.43.0


From 7230befcf6ba78a1be8ed3c0208a08bfa4cfb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 32/49] fix: a mutable variable is not a constant expression

---
 skull/semantic/expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index a78db9f..8ac8da1 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -65,7 +65,9 @@ static bool validate_ident_expr(SemanticState *state, AstNodeExpr *expr) {
 
 	expr->symbol = symbol;
 	expr->type = var->type;
-	if (var->expr) expr->is_const_expr = var->expr->is_const_expr;
+	if (var->expr) {
+		expr->is_const_expr = var->is_const && var->expr->is_const_expr;
+	}
 
 	return true;
 }
-- 
2.43.0


From c5ec0bff8d051b4fce92051b3443a36c4cec5ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 33/49] fix: powers and comparisons of strings are not constant
 initialisers

---
 skull/semantic/expr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 8ac8da1..9c1db78 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -150,7 +150,14 @@ static void set_expr_type(SemanticState *state, AstNodeExpr *expr) {
 }
 
 static void set_const_expr(AstNodeExpr *expr) {
-	if (is_binary_expr(expr->oper)) {
+	// these call a function at run time
+	if (expr->oper == EXPR_POW || (
+		(expr->oper == EXPR_IS || expr->oper == EXPR_ISNT) &&
+		expr->rhs->type == &TYPE_STR
+	)) {
+		expr->is_const_expr = false;
+	}
+	else if (is_binary_expr(expr->oper)) {
 		expr->is_const_expr = (
 			expr->lhs.expr->is_const_expr && expr->rhs->is_const_expr
 		);
-- 
2.43.0


From 61010b86249610f6e58d71459a16bf238a71edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 34/49] fix: variables of functions are not globals in the C
 backend

---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 3 +++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..90fb71a 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->in_func) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..a62f249 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -88,9 +88,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		const _Bool in_func = state->in_func;
 		state->indent_lvl = 0;
+		state->in_func = 1;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->in_func = in_func;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..6444c51 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -8,6 +8,7 @@ typedef struct {
 	_Bool called_int_pow;
 	_Bool called_float_pow;
 	_Bool called_strcmp;
+	_Bool in_func;
 	unsigned indent_lvl;
 } SkullStateC;
 
-- 
2.43.0


From 15ffd5c7a4229ecea9765fbfedb1102e5053cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:09 +0000
Subject: [PATCH 35/49] fix: a block without statements of its own is empty in
 the C backend

---
 skull/codegen/c/core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index c31c1c2..77463c1 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/codegen/c/assign.h"
 #include "skull/codegen/c/debug.h"
@@ -42,7 +43,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	state->indent_lvl--;
 
-	return generated;
+	return generated ? generated : strdup("");
 }
 
 static CStmt gen_node_c(const AstNode *node, SkullStateC *state) {
-- 
2.43.0


From 7c442625f892c296821dec436ffdb8c67a304e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 36/49] fix: globals of the C backend are not initialised with
 variables of type Str

---
 skull/codegen/c/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index 90fb71a..dd22ce3 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -71,7 +71,10 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	if (var->expr->is_const_expr) {
+	// a variable of type Str is not a constant expression in C
+	if (var->expr->is_const_expr && (
+		var->type != &TYPE_STR || var->expr->oper == EXPR_CONST
+	)) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
 		return NULL;
-- 
2.43.0


From cabc29091fc6dacb1462685c3c1a97bd801ef4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 37/49] fix: globals of the C backend are not initialised with
 variables that are pointers

---
 skull/codegen/c/assign.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index dd22ce3..f248fc0 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -7,6 +7,7 @@
 #include "skull/codegen/c/types.h"
 #include "skull/common/str.h"
 #include "skull/semantic/symbol.h"
+#include "skull/semantic/types.h"
 #include "skull/semantic/variable.h"
 
 #include "skull/codegen/c/assign.h"
@@ -71,9 +72,10 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	// a variable of type Str is not a constant expression in C
+	// a pointer that is read from a variable is not constant in C
 	if (var->expr->is_const_expr && (
-		var->type != &TYPE_STR || var->expr->oper == EXPR_CONST
+		var->expr->oper != EXPR_IDENTIFIER ||
+		(var->type != &TYPE_STR && !is_reference(var->type))
 	)) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
-- 
2.43.0


From e5580378911a97ee21279eb301f73f904afd01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:42 +0000
Subject: [PATCH 38/49] hook: loop contracts in the code generators

---
 skull/codegen/c/core.c    |  3 ++-
 skull/codegen/c/expr.c    |  3 ++-
 skull/codegen/c/func.c    |  3 ++-
 skull/codegen/llvm/core.c |  3 ++-
 skull/codegen/llvm/flow.c |  3 ++-
 skull/codegen/llvm/func.c | 10 +++++++---
 6 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index 77463c1..711e3a0 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -8,6 +8,7 @@
 #include "skull/codegen/c/func.h"
 #include "skull/codegen/c/shared.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 
 #include "skull/codegen/c/core.h"
 
@@ -23,7 +24,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	char *generated = NULL;
 
-	while (node) {
+	while (node) LOOP_CONTRACT(gen_statements_c, node, generated) {
 		CStmt current = gen_node_c(node, state);
 
 		if (current) {
diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..222a164 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -6,6 +6,7 @@
 
 #include "skull/codegen/c/shared.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
 #include "skull/semantic/types.h"
@@ -176,7 +177,7 @@ static CExpr gen_expr_func_call_c(
 	char *param_list = NULL;
 	unsigned short at = 0;
 
-	while (at < num_params) {
+	while (at < num_params) LOOP_CONTRACT(call_args_c, at, param, param_list) {
 		CExpr expr = gen_expr_c(param->expr, state);
 
 		if (at == 0) {
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index a62f249..2604157 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -7,6 +7,7 @@
 #include "skull/codegen/c/shared.h"
 #include "skull/codegen/c/types.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/semantic/symbol.h"
 #include "skull/semantic/variable.h"
 
@@ -42,7 +43,7 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	char *param_list = NULL;
 	unsigned short i = 0;
 
-	while (i < func->num_params) {
+	while (i < func->num_params) LOOP_CONTRACT(proto_params_c, i, params, param_list) {
 		char *param = gen_param_c(*params);
 
 		if (param_list) {
diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..bd866c2 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -6,6 +6,7 @@
 #include "skull/codegen/llvm/assign.h"
 #include "skull/codegen/llvm/flow.h"
 #include "skull/codegen/llvm/func.h"
+#include "skull/contract.h"
 
 #include "skull/codegen/llvm/core.h"
 
@@ -26,7 +27,7 @@ void gen_module(const AstNode *node, SkullStateLLVM *state) {
 Generate tree starting at `node`, returning an expr if one is returned.
 */
 Expr gen_tree(const AstNode *node, SkullStateLLVM *state) {
-	while (node) {
+	while (node) LOOP_CONTRACT(gen_statements, node) {
 		Expr parsed = gen_node(&node, state);
 
 		if (parsed.value || parsed.type) return parsed;
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 1fc0721..ae7684d 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -7,6 +7,7 @@
 #include "skull/codegen/llvm/debug.h"
 #include "skull/codegen/llvm/shared.h"
 #include "skull/codegen/llvm/types.h"
+#include "skull/contract.h"
 #include "skull/parse/ast_node.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/scope.h"
@@ -167,7 +168,7 @@ static void gen_control_if_(
 ) {
 	const AstNode *next_non_comment = (*node)->next;
 
-	while (next_non_comment) {
+	while (next_non_comment) LOOP_CONTRACT(if_comments, next_non_comment) {
 		if (next_non_comment->type == AST_NODE_COMMENT) {
 			next_non_comment = next_non_comment->next;
 			continue;
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 14b4702..8124740 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -14,6 +14,7 @@
 #include "skull/codegen/llvm/types.h"
 #include "skull/common/malloc.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/parse/ast_node.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/scope.h"
@@ -88,7 +89,8 @@ static LLVMTypeRef *parse_func_param(
 
 	LLVMTypeRef *params = Calloc(num_params, sizeof(LLVMTypeRef));
 
-	for (unsigned i = 0; i < num_params; i++) {
+	for (unsigned i = 0; i < num_params; i++)
+	LOOP_CONTRACT(param_types, i, params) {
 		params[i] = type_to_llvm_type(func->param_types[i], state);
 	}
 
@@ -112,7 +114,8 @@ Expr gen_expr_func_call(
 
 	const AstNode *param = func_call->params;
 
-	for (unsigned i = 0; i < num_params; i++) {
+	for (unsigned i = 0; i < num_params; i++)
+	LOOP_CONTRACT(call_args, i, param, params) {
 		params[i] = gen_expr(param->expr, state).value;
 		param = param->next;
 	}
@@ -148,7 +151,8 @@ static void gen_function_def(
 	if (func->param_types) {
 		LLVMValueRef next_param = LLVMGetFirstParam(func->ref);
 
-		for (unsigned i = 0; i < func->num_params; i++) {
+		for (unsigned i = 0; i < func->num_params; i++)
+		LOOP_CONTRACT(def_params, i, next_param) {
 			Variable *param_var = func->params[i]->symbol->var;
 
 			param_var->ref = next_param;
-- 
2.43.0


From 522425edac46ce35a67f0125eae8e8405de9acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:43 +0000
Subject: [PATCH 39/49] fix: statements that leave a namespace end the basic
 block

---
 skull/codegen/llvm/flow.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index ae7684d..f34475d 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -285,5 +285,18 @@ static void gen_control_code_block(
 		state->semantic->scope = state->semantic->scope->next;
 	}
 
-	if (!returned.value && block) LLVMBuildBr(state->builder, block);
+	if (!returned.value) {
+		if (block) LLVMBuildBr(state->builder, block);
+	}
+	else if (!block) {
+		// code below a block that does not end needs a basic block of its own
+		LLVMPositionBuilderAtEnd(
+			state->builder,
+			LLVMAppendBasicBlockInContext(
+				state->ctx,
+				state->current_func->func->ref,
+				"dead"
+			)
+		);
+	}
 }
-- 
2.43.0


From 1b3bdb1a6c9982957c09c9a4879e22fb9716127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 40/49] fix: variables of a loop do not grow the stack with
 every iteration

---
 skull/codegen/llvm/assign.c |  6 +-----
 skull/codegen/llvm/expr.c   |  6 +-----
 skull/codegen/llvm/flow.c   |  6 +-----
 skull/codegen/llvm/shared.c | 34 ++++++++++++++++++++++++++++++++++
 skull/codegen/llvm/shared.h |  6 ++++++
 5 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 2a179e3..5f8b4d9 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -86,11 +86,7 @@ static void setup_var_llvm(
 		)) return;
 	}
 	else if (requires_alloca_decl(var)) {
-		var->ref = LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(var->type, state),
-			var->linkage_name
-		);
+		var->ref = build_alloca(var->type, var->linkage_name, state);
 	}
 
 	assign_value_to_var(value, symbol, state);
diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 33d59d3..d8fd83a 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -321,11 +321,7 @@ static Expr gen_expr_ref(const AstNodeExpr *expr, const SkullStateLLVM *state) {
 
 	// local constants are plain values, so they need an address first
 	if (var->is_const && !var->is_global) {
-		LLVMValueRef ref = LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(var->type, state),
-			""
-		);
+		LLVMValueRef ref = build_alloca(var->type, "", state);
 		LLVMBuildStore(state->builder, var->ref, ref);
 
 		return (Expr){ .value = ref, .type = expr->type };
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index f34475d..33ed344 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -55,11 +55,7 @@ void gen_stmt_noop(const Location *location, const SkullStateLLVM *state) {
 	LLVMValueRef noop = LLVMBuildStore(
 		state->builder,
 		LLVM_INT(0),
-		LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(&TYPE_INT, state),
-			"noop"
-		)
+		build_alloca(&TYPE_INT, "noop", state)
 	);
 
 	add_llvm_debug_info(noop, location, state);
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index faacb7b..823c510 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -65,6 +65,40 @@ SkullStateLLVM *setup_llvm_state(SemanticState *semantic_state) {
 	return state;
 }
 
+/*
+Allocate memory on the stack for a value of type `type`.
+
+Memory allocated in a loop lives in the entry block of the function, otherwise
+the stack would grow with every iteration.
+*/
+LLVMValueRef build_alloca(
+	const Type *type,
+	const char *name,
+	const SkullStateLLVM *state
+) {
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(state->builder);
+
+	if (state->current_while_cond) {
+		LLVMBasicBlockRef entry = LLVMGetEntryBasicBlock(
+			state->current_func->func->ref
+		);
+		LLVMValueRef first = LLVMGetFirstInstruction(entry);
+
+		if (first) LLVMPositionBuilderBefore(state->builder, first);
+		else LLVMPositionBuilderAtEnd(state->builder, entry);
+	}
+
+	LLVMValueRef ref = LLVMBuildAlloca(
+		state->builder,
+		type_to_llvm_type(type, state),
+		name
+	);
+
+	LLVMPositionBuilderAtEnd(state->builder, block);
+
+	return ref;
+}
+
 /*
 Free everything about a Skull LLVM compiler instance.
 */
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index 761ecdb..4f41824 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -5,6 +5,7 @@
 
 typedef struct FunctionDeclaration FunctionDeclaration;
 typedef struct Symbol Symbol;
+typedef struct Type Type;
 
 typedef struct {
 	LLVMBuilderRef builder;
@@ -20,3 +21,8 @@ typedef struct {
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
 void free_llvm_state(SkullStateLLVM *);
+LLVMValueRef build_alloca(
+	const Type *,
+	const char *,
+	const SkullStateLLVM *
+);
-- 
2.43.0


From 1c80878e2481c16eb53340fb0b77438775609b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:26 +0000
Subject: [PATCH 41/49] fix: memory allocated in a loop has no debug location
 of its own

---
 skull/codegen/llvm/shared.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index 823c510..8b40d53 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 #include <llvm-c/Core.h>
+#include <llvm-c/DebugInfo.h>
 #include <llvm-c/TargetMachine.h>
 
 #include "skull/build_data.h"
@@ -86,6 +87,9 @@ LLVMValueRef build_alloca(
 
 		if (first) LLVMPositionBuilderBefore(state->builder, first);
 		else LLVMPositionBuilderAtEnd(state->builder, entry);
+
+		// moving to an instruction takes over its debug location
+		LLVMSetCurrentDebugLocation2(state->builder, NULL);
 	}
 
 	LLVMValueRef ref = LLVMBuildAlloca(
-- 
2.43.0


From 0f2ac5be524ee3b6a84c542af2bfbe47fe96dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:04 +0000
Subject: [PATCH 42/49] fix: strings, infinities, NaN and float remainders are
 valid in the C backend

---
 skull/codegen/c/expr.c   | 54 +++++++++++++++++++++++++++++++++++++---
 skull/codegen/c/shared.h |  1 +
 skull/codegen/c/write.c  |  6 +++++
 3 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 222a164..fae920c 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,10 +1,12 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/contract.h"
 #include "skull/semantic/func.h"
@@ -15,6 +17,7 @@
 #include "skull/codegen/c/expr.h"
 
 static CExpr gen_expr_const_c(const AstNodeExpr *);
+static CExpr gen_str_literal_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
@@ -68,11 +71,19 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("%li", i);
 	}
 	if (expr->type == &TYPE_FLOAT) {
+		const double f = expr->value._float;
+
 		if (!expr->value._int) return strdup("0.0");
 
+		// there are no literals for these in C
+		if (isinf(f)) {
+			return strdup(f < 0 ? "-__builtin_inf()" : "__builtin_inf()");
+		}
+		if (isnan(f)) return strdup("__builtin_nan(\"\")");
+
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
-		return uvsnprintf("%a", expr->value._float);
+		return uvsnprintf("%a", f);
 	}
 	if (expr->type == &TYPE_BOOL) {
 		return strdup(expr->value._bool ? "1" : "0");
@@ -81,12 +92,42 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_str_literal_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+/*
+Return a C string literal for `str`, everything special is escaped.
+*/
+static CExpr gen_str_literal_c(const char *str) {
+	// each byte takes up at most 4 characters, plus the quotes
+	char *out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '"';
+
+	while (*str) {
+		const unsigned char c = (unsigned char)*str;
+
+		if (c < ' ' || c > '~' || c == '"' || c == '\\') {
+			*at++ = '\\';
+			*at++ = (char)('0' + (c >> 6));
+			*at++ = (char)('0' + ((c >> 3) & 7));
+			*at++ = (char)('0' + (c & 7));
+		}
+		else *at++ = (char)c;
+
+		str++;
+	}
+
+	*at++ = '"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
@@ -95,7 +136,14 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			if (expr->type == &TYPE_FLOAT) {
+				fmt = "_float_mod(%s, %s)";
+				state->called_float_mod = true;
+			}
+			else fmt = "(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index 6444c51..f9410bd 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -7,6 +7,7 @@ typedef struct {
 	char *globals;
 	_Bool called_int_pow;
 	_Bool called_float_pow;
+	_Bool called_float_mod;
 	_Bool called_strcmp;
 	_Bool in_func;
 	unsigned indent_lvl;
diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 60ba0e5..35754a8 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -14,6 +14,7 @@
 
 static const char *_strcmp; // NOLINT
 static const char *_float_pow; // NOLINT
+static const char *_float_mod; // NOLINT
 static const char *_int_pow; // NOLINT
 static const char *headers;
 
@@ -60,6 +61,7 @@ static void print_builtins(FILE *f, const SkullStateC *state) {
 	if (state->called_strcmp) fprintf(f, "%s\n", _strcmp);
 	if (state->called_int_pow) fprintf(f, "%s\n", _int_pow);
 	if (state->called_float_pow) fprintf(f, "%s\n", _float_pow);
+	if (state->called_float_mod) fprintf(f, "%s\n", _float_mod);
 }
 
 static void print_main_shim(
@@ -116,6 +118,10 @@ static const char *_float_pow = \
 "#include <math.h>\n"
 "double (*_float_pow)(double, double) = pow;\n";
 
+static const char *_float_mod = \
+"#include <math.h>\n"
+"double (*_float_mod)(double, double) = fmod;\n";
+
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
 "	int64_t result = 1;\n"
-- 
2.43.0


From fbe494c9a12820f134819973bbee72cf36c655b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:10 +0000
Subject: [PATCH 43/49] hook: loop contract for string literals of the C
 backend

---
 skull/codegen/c/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index fae920c..c194de9 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -108,7 +108,7 @@ static CExpr gen_str_literal_c(const char *str) {
 
 	*at++ = '"';
 
-	while (*str) {
+	while (*str) LOOP_CONTRACT(str_literal_c, str, at) {
 		const unsigned char c = (unsigned char)*str;
 
 		if (c < ' ' || c > '~' || c == '"' || c == '\\') {
-- 
2.43.0


From 2a3f69600c01e7389c9d099c46813f0c3b6c5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:26 +0000
Subject: [PATCH 44/49] fix: remainders of floats are not constant initialisers

---
 skull/semantic/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 9c1db78..611af9e 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -154,6 +154,8 @@ static void set_const_expr(AstNodeExpr *expr) {
 	if (expr->oper == EXPR_POW || (
 		(expr->oper == EXPR_IS || expr->oper == EXPR_ISNT) &&
 		expr->rhs->type == &TYPE_STR
+	) || (
+		expr->oper == EXPR_MOD && expr->rhs->type == &TYPE_FLOAT
 	)) {
 		expr->is_const_expr = false;
 	}
-- 
2.43.0


From 3bb631d8fc45b9a907cbfb74af43f13bba10c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:22 +0000
Subject: [PATCH 45/49] fix: only a file named ".sk" is rejected, not one in a
 directory whose name starts like that

---
 skull/real_main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/real_main.c b/skull/real_main.c
index 56485a5..b93b492 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -45,7 +45,7 @@ static int compile_file(char *filename) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (extension == filename || extension[-1] == '/') {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From f32a1ee8b5716109f6099557a3d3423b04e43ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:43 +0000
Subject: [PATCH 46/49] fix: linking fails when the linker command is killed

---
 skull/codegen/llvm/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..6d7317b 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -226,7 +226,7 @@ static int sh(char *argv[]) {
 	int status = 0;
 	wait(&status);
 
-	return WEXITSTATUS(status);
+	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From 330dee61535f16ecd4c654eb6e2447812ea7e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:48 +0000
Subject: [PATCH 47/49] fix: report when the C file cannot be written

---
 skull/codegen/c/write.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 35754a8..2c84b4b 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -44,9 +44,12 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	if (f != stdout) fclose(f);
+	bool err = ferror(f);
+	if ((f == stdout ? fflush(f) : fclose(f)) != 0) err = true;
 
-	return false;
+	if (err) perror("skull: cannot write C file");
+
+	return err;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From 6f528a4d40b8f2c40d56726ea86d09128b3b8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 48/49] fix: a file that cannot be read is an error, not an
 empty file

---
 skull/common/io.c | 4 +++-
 skull/real_main.c | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..62029aa 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -34,7 +34,9 @@ char *file_to_string(FILE *fd) {
 	char *str = Malloc((size_t)len + 1);
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
-	if (!read) {
+	if (read != (size_t)len) {
+		if (!errno) errno = EIO;
+		perror("fread");
 		free(str);
 		return NULL;
 	}
diff --git a/skull/real_main.c b/skull/real_main.c
index b93b492..6700a9b 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -54,8 +55,8 @@ static int compile_file(char *filename) {
 
 	char *file_contents = file_to_string(f);
 	if (!file_contents) {
-		bool err = false;
-		FMT_WARN(err, WARN_FILE_EMPTY, {0});
+		bool err = errno != 0;
+		if (!err) FMT_WARN(err, WARN_FILE_EMPTY, {0});
 
 		fclose(f);
 		return err;
-- 
2.43.0


From df024826cb8dd96cef01ae7d2840cb8c8b5eadf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:20 +0000
Subject: [PATCH 49/49] Loop contracts: input files, joined arguments

---
 skull/cli.c       | 5 +++--
 skull/real_main.c | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 47dd0fa..d7e5da9 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -8,6 +8,7 @@
 #include "skull/build_data.h"
 #include "skull/common/malloc.h"
 #include "skull/common/str.h"
+#include "skull/contract.h"
 #include "skull/real_main.h"
 #include "skull/version.h"
 
@@ -264,7 +265,7 @@ static char *squash_argv(char *argv[]) {
 	size_t len = 0;
 	char **argv_copy = argv;
 
-	while (*argv) {
+	while (*argv) LOOP_CONTRACT(squash_len, argv, len) {
 		len += strlen(*argv) + 1;
 		argv++;
 	}
@@ -274,7 +275,7 @@ static char *squash_argv(char *argv[]) {
 	char *out = Malloc(len);
 	size_t wrote = 0;
 
-	while (*argv) {
+	while (*argv) LOOP_CONTRACT(squash, argv, wrote) {
 		const size_t current_len = strlen(*argv) + 1;
 		memcpy(out + wrote, *argv, current_len);
 		wrote += current_len;
diff --git a/skull/real_main.c b/skull/real_main.c
index 6700a9b..25bf0fd 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -8,6 +8,7 @@
 #include "skull/common/local.h"
 #include "skull/common/str.h"
 #include "skull/common/vector.h"
+#include "skull/contract.h"
 #include "skull/pipeline.h"
 
 #include "skull/real_main.h"
@@ -26,7 +27,8 @@ int real_main(int argc, char *argv[]) {
 
 	setup_locale();
 
-	for (int i = 0; (i + 1) < argc; i++) {
+	for (int i = 0; (i + 1) < argc; i++)
+	LOOP_CONTRACT(files, i) {
 		const int err = compile_file(argv[i + 1]);
 		write_and_free_errors();
 
-- 
2.43.0

