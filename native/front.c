/* Bounded (tier B) driver: the real front end (tokenizer, classifier, parser,
 * semantic phase) in-process.  Reads requests "<len> <flags> <filename>\n<bytes>"
 * from stdin; answers each with one line of JSON.  Linked against /repo's own
 * object code; nothing here re-implements the front end. */
#include <locale.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <uchar.h>
#include "skull/build_data.h"
#include "skull/common/errors.h"
#include "skull/common/str.h"
#include "skull/common/vector.h"
#include "skull/parse/ast_node.h"
#include "skull/parse/classify.h"
#include "skull/parse/token.h"
#include "skull/semantic/entry.h"
#include "skull/semantic/func.h"
#include "skull/semantic/shared.h"
#include "skull/semantic/symbol.h"
#include "skull/semantic/types.h"
#include "skull/semantic/variable.h"

static FILE *out;
#define N(x) [EXPR_##x] = #x
static const char *const OPS[] = { N(UNKNOWN), N(ADD), N(SUB), N(UNARY_NEG), N(MULT), N(DIV), N(MOD), N(LSHIFT), N(RSHIFT), N(POW), N(NOT),
	N(IS), N(ISNT), N(LESS_THAN), N(GTR_THAN), N(LESS_THAN_EQ), N(GTR_THAN_EQ), N(AND), N(OR), N(XOR), N(IDENTIFIER), N(CONST), N(FUNC), N(REF), N(DEREF) };
#undef N
#define N(x) [AST_NODE_##x] = #x
static const char *const NODES[] = { N(UNKNOWN), N(VAR_DEF), N(VAR_ASSIGN), N(FUNCTION_PROTO), N(EXPR), N(RETURN), N(UNREACHABLE), N(IF), N(ELIF),
	N(ELSE), N(WHILE), N(IMPORT), N(NAMESPACE), N(COMMENT), N(NOOP), N(BREAK), N(CONTINUE) };
#undef N
#define N(x) [TOKEN_##x] = #x
static const char *const TOKS[] = { N(UNKNOWN), N(IDENTIFIER), N(NEW_IDENTIFIER), N(DOT_IDENTIFIER), N(KW_MUT), N(KW_RETURN), N(KW_UNREACHABLE),
	N(KW_IF), N(KW_ELIF), N(KW_ELSE), N(KW_WHILE), N(KW_EXTERNAL), N(KW_EXPORT), N(KW_NOOP), N(KW_BREAK), N(KW_CONTINUE), N(KW_IMPORT),
	N(KW_NAMESPACE), N(NEWLINE), N(COMMA), N(BRACKET_OPEN), N(BRACKET_CLOSE), N(PAREN_OPEN), N(PAREN_CLOSE), N(OPER_EQUAL), N(OPER_PLUS),
	N(OPER_DASH), N(OPER_STAR), N(OPER_DIV), N(OPER_MOD), N(OPER_AUTO_EQUAL), N(OPER_NOT), N(OPER_IS), N(OPER_ISNT), N(OPER_AND), N(OPER_OR),
	N(OPER_XOR), N(OPER_LESS_THAN), N(OPER_GTR_THAN), N(OPER_LESS_THAN_EQ), N(OPER_GTR_THAN_EQ), N(OPER_LSHIFT), N(OPER_RSHIFT), N(OPER_POW),
	N(OPER_REF), N(INT_CONST), N(FLOAT_CONST), N(BOOL_CONST), N(RUNE_CONST), N(STR_CONST), N(COMMENT), N(END) };
#undef N
static void jstr(const char *s) {
	if (!s) { fputs("null", out); return; }
	fputc('"', out);
	for (const unsigned char *p = (const void *)s; *p; p++) {
		if (*p == '"' || *p == '\\') fprintf(out, "\\%c", *p);
		else if (*p < 32 || *p >= 127) fprintf(out, "\\u%04x", *p);   /* bytes as latin-1 */
		else fputc(*p, out);
	}
	fputc('"', out);
}
static void jtok(const Token *t) {
	if (!t) { fputs("null", out); return; }
	fprintf(out, "[\"%s\",%u,%u,[", TOKS[t->type], t->location.line, t->location.column);
	for (unsigned i = 0; t->begin && i < t->len; i++) fprintf(out, "%s%u", i ? "," : "", (unsigned)t->begin[i]);
	fputs("]]", out);
}
static void jname(const Token *t) {
	if (!t) { fputs("null", out); return; }
	char *s = token_to_mbs_str(t); jstr(s); free(s);
}
static bool checked;
static void jtype(const Type *t) { if (t) jstr(t->name); else fputs("null", out); }
static void jexpr(const AstNodeExpr *e) {
	if (!e) { fputs("null", out); return; }
	fprintf(out, "{\"op\":\"%s\",", OPS[e->oper]);
	if (checked) {
		fputs("\"ty\":", out); jtype(e->type);
		fprintf(out, ",\"const\":%d,", e->is_const_expr);
	}
	if (e->oper == EXPR_IDENTIFIER) {
		fputs("\"name\":", out); jname(e->lhs.tok);
		if (checked && e->symbol && e->symbol->type == SYMBOL_VAR)
			fprintf(out, ",\"at\":[%u,%u]", e->symbol->location.line, e->symbol->location.column);
	} else if (e->oper == EXPR_CONST) {
		fputs("\"tok\":", out); jtok(e->lhs.tok);
		if (checked && e->type) {
			if (e->type == &TYPE_INT) fprintf(out, ",\"val\":%ld", (long)e->value._int);
			else if (e->type == &TYPE_BOOL) fprintf(out, ",\"val\":%d", e->value._bool);
			else if (e->type == &TYPE_RUNE) fprintf(out, ",\"val\":%u", (unsigned)e->value.rune);
			else if (e->type == &TYPE_FLOAT) { uint64_t u; memcpy(&u, &e->value._float, 8); fprintf(out, ",\"val\":%lu", (unsigned long)u); }
			else if (e->type == &TYPE_STR) { fputs(",\"val\":", out); jstr(e->value.str); }
		}
	} else if (e->oper == EXPR_FUNC) {
		const AstNodeFunctionCall *c = e->lhs.func_call;
		fputs("\"name\":", out); jname(c->func_name_tok);
		if (checked && c->symbol) fprintf(out, ",\"at\":[%u,%u]", c->symbol->location.line, c->symbol->location.column);
		fprintf(out, ",\"n\":%u,\"args\":[", c->num_values);
		const AstNode *p = c->params;
		for (unsigned i = 0; i < c->num_values && p; i++, p = p->next) { if (i) fputc(',', out); jexpr(p->expr); }
		fputs("]", out);
	} else {
		bool un = e->oper == EXPR_UNARY_NEG || e->oper == EXPR_NOT || e->oper == EXPR_REF || e->oper == EXPR_DEREF;
		if (!un) { fputs("\"l\":", out); jexpr(e->lhs.expr); fputc(',', out); }
		fputs("\"r\":", out); jexpr(e->rhs);
	}
	fputc('}', out);
}
static void jnodes(const AstNode *n) {
	fputc('[', out);
	for (bool first = true; n; n = n->next, first = false) {
		if (!first) fputc(',', out);
		fprintf(out, "{\"t\":\"%s\"", NODES[n->type]);
		if (n->token) fprintf(out, ",\"loc\":[%u,%u]", n->token->location.line, n->token->location.column);
		switch (n->type) {
			case AST_NODE_VAR_DEF:
				fputs(",\"name\":", out); jname(n->var_def->name_tok);
				fprintf(out, ",\"const\":%d,\"implicit\":%d,\"export\":%d,\"e\":", n->var_def->is_const, n->var_def->is_implicit, n->var_def->is_exported);
				jexpr(n->var_def->expr);
				if (checked && n->var_def->symbol && n->var_def->symbol->type == SYMBOL_VAR) {
					const Variable *v = n->var_def->symbol->var;
					fputs(",\"vty\":", out); jtype(v->type);
					fprintf(out, ",\"vconst\":%d,\"vexp\":%d,\"link\":", v->is_const, v->is_exported); jstr(v->linkage_name);
				}
				break;
			case AST_NODE_VAR_ASSIGN:
				fputs(",\"name\":", out); jname(n->token);
				fputs(",\"e\":", out); jexpr(n->var_assign->expr);
				if (checked && n->var_assign->symbol) fprintf(out, ",\"at\":[%u,%u]", n->var_assign->symbol->location.line, n->var_assign->symbol->location.column);
				break;
			case AST_NODE_FUNCTION_PROTO: {
				const AstNodeFunctionProto *f = n->func_proto;
				fputs(",\"name\":", out); jname(f->name_tok);
				fprintf(out, ",\"external\":%d,\"export\":%d,\"ret\":", f->is_external, f->is_export); jname(f->return_type_token);
				fputs(",\"params\":[", out);
				for (unsigned i = 0; i < f->num_params; i++) {
					if (i) fputc(',', out);
					char *s = c32stombs(f->params[i]->param_name, NULL);
					fputc('[', out); jstr(s); free(s); fputc(',', out); jname(f->params[i]->type_name); fputc(']', out);
				}
				fputc(']', out);
				if (checked && f->symbol) { fputs(",\"link\":", out); jstr(f->symbol->linkage_name); fputs(",\"rty\":", out); jtype(f->symbol->func->return_type); }
				break;
			}
			case AST_NODE_EXPR: case AST_NODE_RETURN: case AST_NODE_IF: case AST_NODE_ELIF: case AST_NODE_WHILE:
				fputs(",\"e\":", out); jexpr(n->expr); break;
			default: break;
		}
		if (n->child) { fputs(",\"kids\":", out); jnodes(n->child); }
		fputc('}', out);
	}
	fputc(']', out);
}

int main(void) {
	out = stdout;
	static char obuf[1 << 20];
	setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
	setlocale(LC_CTYPE, "C.UTF-8");
	size_t len; char flags[64], fname[256];
	while (scanf("%zu %63s %255s", &len, flags, fname) == 3) {
		getchar();
		char *s = malloc(len + 1);
		if (fread(s, 1, len, stdin) != len) return 3;
		s[len] = 0;
		BUILD_DATA = (BuildData){ .filename = fname };
		BUILD_DATA.werror = !!strchr(flags, 'w'); BUILD_DATA.color = !!strchr(flags, 'c'); BUILD_DATA.quiet = !!strchr(flags, 'q');
		const char *stage = "utf8"; bool ok = false;
		checked = false;
		char32_t *w = mbstoc32s(s); Token *t = NULL; AstNode *n = NULL; SemanticState *st = NULL;
		fputc('{', out);
		if (w) {
			stage = "tokenize"; t = tokenize(w);
			if (t) {
				if (strchr(flags, 'r')) {       /* raw tokens, before classification */
					fputs("\"raw\":[", out); for (const Token *k = t; k; k = k->next) { jtok(k); if (k->next) fputc(',', out); } fputs("],", out);
				}
				classify_tokens(t);
				if (strchr(flags, 't')) {
					fputs("\"toks\":[", out); for (const Token *k = t; k; k = k->next) { jtok(k); if (k->next) fputc(',', out); } fputs("],", out);
				}
				if (!strchr(flags, 'T')) {
					stage = "parse"; n = parse_ast_tree(t);
					if (n && strchr(flags, 'P')) { fputs("\"ast0\":", out); jnodes(n->token ? n : NULL); fputs(",", out); }
					if (n) {
						if (n->type == AST_NODE_UNKNOWN && !n->child) { stage = "empty"; ok = true; }
						else { stage = "check"; st = setup_semantic_state(); ok = validate_ast_tree(st, n); }
					}
				}
			}
		}
		if (ok && st && strchr(flags, 'A')) { checked = true; fputs("\"ast\":", out); jnodes(n); fputs(",", out); }
		fprintf(out, "\"stage\":\"%s\",\"ok\":%s,\"msgs\":[", stage, ok ? "true" : "false");
		if (error_msgs) for (size_t i = 0; i < error_msgs->length; i++) { if (i) fputc(',', out); jstr(vector_at(error_msgs, i)); }
		fputs("]}\n", out); fflush(out);
		if (n) free_ast_tree(n);
		if (st) free_semantic_state(st);
		free_tokens(t); free(w); free_errors(); free(s);
	}
	return 0;
}
