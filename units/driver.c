/* C14: from the file to the result.  The real pipeline.c, real_main.c,
 * backend.c and the writers; every phase is a contract with an arbitrary
 * outcome, and records that it ran and on what. */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/build_data.h"
#include "skull/common/errors.h"
#include "skull/common/str.h"
#include "skull/common/io.h"
#include "skull/parse/ast_node.h"
#include "skull/codegen/backend.h"
#include "skull/semantic/shared.h"
BuildData BUILD_DATA; uint64_t vp_in;
static unsigned g_errs, g_warns, g_step; static ErrorCode g_code;
void fmt_message(ErrorType t, ErrorCode c, Message m[]) { (void)m; if (t == ERROR_FATAL) g_errs++; else g_warns++; g_code = c; }
static void flags(void) {
	BUILD_DATA.compile_only = vp_bool(); BUILD_DATA.asm_backend = vp_bool(); BUILD_DATA.preprocess = vp_bool(); BUILD_DATA.debug = vp_bool(); BUILD_DATA.quiet = vp_bool(); BUILD_DATA.optimize1 = vp_bool(); BUILD_DATA.optimize2 = vp_bool(); BUILD_DATA.optimize3 = vp_bool();
	BUILD_DATA.c_backend = vp_bool(); BUILD_DATA.werror = vp_bool(); BUILD_DATA.llvm_no_verify = vp_bool(); BUILD_DATA.color = vp_bool(); BUILD_DATA.llvm_backend = vp_bool();
	g_errs = g_warns = g_step = 0;
}
#define STEP(n, what) do { CHECK(g_step == (n), what); g_step = (n) + 1; } while (0)
#include "skull/common/malloc.h"
#define free(x) ((void)(x))

#if defined(UNIT_PIPE)
#include "skull/codegen/c/backend.h"
#include "skull/codegen/llvm/backend.h"
#include "skull/parse/classify.h"
#include "skull/semantic/entry.h"
const Backend c_backend, llvm_backend;
static char S_file[2], S_text[2]; static char32_t S_wide[2]; static Token S_tok; static AstNode S_node; static SemanticState S_sem; static bool g_decodes, g_lexes, g_parses, g_empty, g_valid, g_berr, g_nonempty; static unsigned g_freed;
char32_t *mbstoc32s(const char *s) { CHECK(s == S_text, "the text of the file"); STEP(0, "decoded once, first"); if (!g_decodes) g_errs++; return g_decodes ? S_wide : NULL; }
Token *tokenize(const char32_t *s) { CHECK(s == S_wide, "the decoded text"); STEP(1, "split into tokens next"); if (!g_lexes) g_errs++; return g_lexes ? &S_tok : NULL; }
void classify_tokens(Token *t) { CHECK(t == &S_tok, "the tokens"); STEP(2, "classified next"); }
AstNode *parse_ast_tree(Token *t) { CHECK(t == &S_tok, "the tokens"); STEP(3, "parsed next"); if (!g_parses) { g_errs++; return NULL; } S_node.type = g_empty ? AST_NODE_UNKNOWN : AST_NODE_NOOP; S_node.child = g_nonempty ? &S_node : NULL; if (g_nonempty) S_node.type = vp_nd(); return &S_node; }
SemanticState *setup_semantic_state(void) { STEP(4, "checked next"); return &S_sem; }
bool validate_ast_tree(SemanticState *s, AstNode *n) { CHECK(s == &S_sem && n == &S_node, "the tree"); STEP(5, "checked once"); if (!g_valid) g_errs++; return g_valid; }
bool run_backend(SemanticState *s, const Backend *b, const AstNode *n, const char *f) { CHECK(s == &S_sem && n == &S_node && f == S_file, "the checked tree"); STEP(6, "code is generated last, only for accepted programs"); CHECK(g_errs == 0, "no code for a program with errors"); CHECK(b == (BUILD_DATA.c_backend ? &c_backend : &llvm_backend), "by the back end asked for"); return g_berr; }
void free_tokens(Token *t) { CHECK(t == &S_tok, "the tokens"); }
void free_ast_tree(AstNode *n) { CHECK(n == &S_node, "the tree"); }
void free_semantic_state(SemanticState *s) { CHECK(s == &S_sem, "the state"); }
#include "loops.h"
#include "skull/pipeline.c"
#undef free
void harness(void) {
	flags(); g_decodes = vp_bool(); g_lexes = vp_bool(); g_parses = vp_bool(); g_empty = vp_bool(); g_nonempty = !g_empty && vp_bool(); g_valid = vp_bool(); g_berr = vp_bool();
	int r = run_pipeline(S_file, S_text);
	bool ok = g_decodes && g_lexes && g_parses && !g_empty && g_valid;
	CHECK((r == 0) == (ok && !g_berr), "success exactly if every phase succeeded");
	CHECK((g_step == 7) == ok, "code is generated for every accepted program");
	CHECK(ok || g_errs > 0, "what is rejected is rejected with an error message");
	REACH("the pipeline ends");
}
#elif defined(UNIT_COMPILE) || defined(UNIT_FILES)
/* the name of a file: any text, its last .sk at any place, or nowhere */
static char *g_name, *g_text; static size_t g_n, g_at; static bool g_has, g_opens, g_reads; static int g_r; static unsigned g_msg, g_close, g_nw; static FILE *g_f; static int vp_errno, g_ioerr;
#undef stderr
static FILE *stderr_;
#define stderr stderr_
#define fprintf(f, ...) ((void)(f), g_msg++, 0)
const char *strrstr(const char *h, const char *n) { CHECK(h == g_name && n[0] == '.' && n[1] == 's' && n[2] == 'k' && !n[3], "the last .sk of the name"); return g_has ? g_name + g_at : NULL; }
FILE *open_file(const char *f, bool ro) { CHECK(f == g_name && ro, "the file, only to read it"); STEP(0, "opened once"); if (!g_opens) g_msg++; return g_opens ? g_f : NULL; }
char *file_to_string(FILE *f) { CHECK(f == g_f, "the file"); STEP(1, "read once"); vp_errno = g_reads ? 0 : g_ioerr; if (vp_errno) g_msg++; return g_reads ? g_text : NULL; }
#define fclose(f) (CHECK((f) == g_f, "the file"), g_close++, 0)
int run_pipeline(const char *f, char *t) { CHECK(f == g_name && t == g_text, "the file and its text"); STEP(2, "compiled once"); return g_r; }
void write_and_free_errors(void) { g_nw++; }
void vp_locale(void) {}
#define setup_locale vp_locale
#include <errno.h>
#undef errno
#define errno vp_errno
#ifdef UNIT_FILES
/* any number of files: file i is g_argv[i + 1], compiling it gives G_res[i] */
static int compile_file(char *);
static char **g_argv; static int G_res[__CPROVER_constant_infinity_uint]; static int g_argc; static unsigned g_nf, G_w;
static int compile_file(char *filename)
REQUIRES(g_nf == g_nw && g_nf + 1 < (unsigned)g_argc && filename == g_argv[g_nf + 1]) ASSIGNS(g_nf, g_msg, g_close, g_step, g_errs, g_warns) ENSURES(g_nf == OLD(g_nf) + 1 && RET == G_res[g_nf - 1]) ;
#define LOOP_CONTRACT_files(i) ASSIGNS(i, g_nf, g_nw, g_msg, g_close, g_step, g_errs, g_warns) INVARIANT(i >= 0 && i < argc && g_nf == (unsigned)i && g_nw == g_nf && (G_w < g_nf ==> G_res[G_w] == 0)) DECREASES(argc - i)
int real_main(int argc, char *argv[])
REQUIRES(argc == g_argc && argv == g_argv)
ASSIGNS(g_nf, g_msg, g_nw, g_close, g_step, g_errs, g_warns)
ENSURES(argc < 2 ==> RET != 0 && g_nf == 0 && g_msg > 0)
ENSURES(argc >= 2 ==> g_nw == g_nf)
ENSURES(argc >= 2 && RET == 0 ==> g_nf == (unsigned)argc - 1)
ENSURES(argc >= 2 && RET != 0 ==> g_nf > 0 && RET == G_res[g_nf - 1])
ENSURES(argc >= 2 && G_w < g_nf - (RET != 0) ==> G_res[G_w] == 0) ;
#endif
#include "loops.h"
#include "skull/real_main.c"
#undef free
void harness(void) {
	flags(); g_n = vp_below(1u << 20); g_at = vp_below(1u << 20); g_has = vp_bool(); g_opens = vp_bool(); g_reads = vp_bool(); g_r = vp_nd(); g_ioerr = vp_nd(); g_msg = g_close = g_nw = 0;
	ASSUME(g_n >= 3 && g_at + 3 <= g_n);
	g_name = malloc(g_n + 1); g_text = malloc(1); g_f = malloc(1); ASSUME(g_name && g_text && g_f && g_name[g_n] == 0);
#ifdef UNIT_FILES
	g_argc = (int)vp_below(1u << 24); G_w = (unsigned)vp_nd(); g_argv = malloc((g_argc + 1) * sizeof(char *)); ASSUME(g_argv); g_nf = 0;
	real_main(g_argc, g_argv);
#else
	int r = compile_file(g_name);
	const bool named = g_has && g_name[g_at + 3] == 0 && g_at > 0 && g_name[g_at - 1] != '/';
	CHECK(named || (r != 0 && g_msg > 0 && g_step == 0), "only files NAME.sk are compiled");
	if (named) {
		CHECK(g_step >= 1 && (g_opens || (r != 0 && g_msg > 0 && g_step == 1)), "a file that cannot be opened is an error");
		CHECK(!g_opens || (g_step >= 2 && g_close == 1), "what was opened is closed");
		if (g_opens && g_reads) CHECK(g_step == 3 && r == g_r, "its text is compiled, the status is that of compiling it");
		if (g_opens && !g_reads && g_ioerr) CHECK(g_step == 2 && r != 0 && g_msg > 0, "a file that cannot be read is an error");
		if (g_opens && !g_reads && !g_ioerr) CHECK(g_step == 2 && g_warns + g_errs == 1 && g_code == WARN_FILE_EMPTY && (r != 0) == BUILD_DATA.werror, "an empty file is a warning, or an error with --werror");
	}
#endif
	REACH("the file is compiled");
}
#elif defined(UNIT_BACKEND)
static SemanticState S_sem; static AstNode S_node; static char S_file[2]; static int S_st; static bool g_berr, g_hs, g_hg, g_hc;
static void *v_setup(SemanticState *s) { CHECK(s == &S_sem, "the checked program"); STEP(0, "set up first"); return &S_st; }
static void v_gen(const AstNode *n, void *s) { CHECK(n == &S_node && s == (g_hs ? (void *)&S_st : NULL), "the tree"); CHECK(g_step == (g_hs ? 1 : 0), "then generated"); g_step = 2; }
static bool v_write(const char *f, void *s) { CHECK(f == S_file && s == (g_hs ? (void *)&S_st : NULL), "the state"); CHECK(g_step == (g_hg ? 2 : g_hs ? 1 : 0), "then written"); g_step = 3; return g_berr; }
static void v_clean(void *s) { CHECK(s == (g_hs ? (void *)&S_st : NULL), "the state"); STEP(3, "then cleaned up"); }
#include "loops.h"
#include "skull/codegen/backend.c"
#undef free
void harness(void) {
	flags(); g_berr = vp_bool(); g_hs = vp_bool(); g_hg = vp_bool(); g_hc = vp_bool();
	Backend b = { .setup = (void *)(g_hs ? v_setup : NULL), .gen_module = (void *)(g_hg ? v_gen : NULL), .write = (void *)v_write, .cleanup = (void *)(g_hc ? v_clean : NULL) };
	bool r = run_backend(&S_sem, &b, &S_node, S_file);
	CHECK(r == g_berr, "fails exactly if writing fails"); CHECK(g_step == (g_hc ? 4 : 3), "every phase ran");
	REACH("the back end ends");
}
#elif defined(UNIT_CWRITE)
#include "skull/codegen/c/shared.h"
#include "skull/codegen/shared.h"
#include "skull/codegen/abi.h"
static char S_src[2], S_bd[2], S_mod[2], *g_out; static FILE *g_f, *stdout_; static SkullStateC S_st; static char S_tree[2], S_glob[2]; static bool g_opens, g_ferr, g_closes; static unsigned g_ntree, g_nglob, g_nmod, g_nopen, g_nclose, g_ncheck, g_np[4], g_nhead; static unsigned g_order;
static const char *_strcmp, *_float_pow, *_float_mod, *_int_pow, *headers;
char *get_new_filename(const char *f, const char *e) { CHECK(f == S_src && e[0] == 'c' && !e[1], "a C file"); return g_out; }
FILE *open_file(const char *f, bool ro) { CHECK(f == g_out && !ro, "the file is written"); g_nopen++; return g_opens ? g_f : NULL; }
char *create_main_func_name(const char *f) { CHECK(f == S_bd, "the name of the module"); return S_mod; }
#undef stdout
#define stdout stdout_
static void put(const char *s) {
	if (s == headers) { CHECK(g_order == 0, "headers first"); g_nhead++; }
	if (s == _strcmp) g_np[0]++;
	if (s == _int_pow) g_np[1]++;
	if (s == _float_pow) g_np[2]++;
	if (s == _float_mod) g_np[3]++;
	if (s == _strcmp || s == _int_pow || s == _float_pow || s == _float_mod) CHECK(g_order <= 1 && g_nhead, "helpers before what calls them");
	if (s == S_glob) { CHECK(g_order <= 2, "globals before the code"); g_order = 2; g_nglob++; }
	if (s == S_tree) { g_order = 3; g_ntree++; }
	if (s == S_mod) g_nmod++;
}
static int vp_print(FILE *f, const char *fmt, const char *a, const char *b, const char *c, const char *d) { CHECK(f == (g_nopen ? g_f : stdout), "into the file"); (void)fmt; CHECK(!g_nclose, "the file is open"); if (a) put(a); if (b) put(b); if (c) put(c); if (d) put(d); return 1; }
#define SEL(f, m, a, b, c, d, n, ...) n
#define fprintf(...) SEL(__VA_ARGS__, P4, P3, P2, P1, P0)(__VA_ARGS__)
#define P0(f, m) vp_print(f, m, NULL, NULL, NULL, NULL)
#define P1(f, m, a) vp_print(f, m, a, NULL, NULL, NULL)
#define P2(f, m, a, b) vp_print(f, m, a, b, NULL, NULL)
#define P3(f, m, a, b, c) vp_print(f, m, a, b, c, NULL)
#define P4(f, m, a, b, c, d) vp_print(f, m, a, b, c, d)
static int vp_close(FILE *f) { CHECK(f == g_f && g_nopen, "the file"); g_nclose++; g_ncheck++; return g_closes ? 0 : -1; }
static int vp_flush(FILE *f) { CHECK(f == stdout, "standard output"); g_ncheck++; return g_closes ? 0 : -1; }
static int vp_ferror(FILE *f) { (void)f; return g_ferr; }
#define fclose vp_close
#define fflush vp_flush
#define ferror vp_ferror
#define perror(x) ((void)(x))
#include "loops.h"
#include "skull/codegen/c/write.c"
#undef free
void harness(void) {
	flags(); g_opens = vp_bool(); g_ferr = vp_bool(); g_closes = vp_bool(); g_f = malloc(1); stdout_ = malloc(1); ASSUME(g_f && stdout_); g_nopen = g_nclose = g_nhead = g_ncheck = 0; g_order = 0; g_ntree = g_nglob = g_nmod = 0; g_np[0] = g_np[1] = g_np[2] = g_np[3] = 0;
	size_t n = vp_below(1u << 20); g_out = malloc(n + 3); ASSUME(g_out && g_out[n] == 0); BUILD_DATA.filename = S_bd; S_src[0] = S_bd[0] = S_mod[0] = 'x';
	S_st.tree = vp_bool() ? S_tree : NULL; S_st.globals = vp_bool() ? S_glob : NULL; S_st.called_strcmp = vp_bool(); S_st.called_int_pow = vp_bool(); S_st.called_float_pow = vp_bool(); S_st.called_float_mod = vp_bool();
	const bool so = g_out[0] == '-' && !g_out[1];
	bool r = write_file_c(S_src, &S_st);
	CHECK(g_nopen == (so ? 0 : 1), "the file is opened once, unless it is standard output");
	const bool open = so || g_opens;
	CHECK(r == !(open && !g_ferr && g_closes), "success exactly if everything is written");
	if (open) {
		CHECK(g_nhead == 1 && g_ntree == (S_st.tree ? 1 : 0) && g_nglob == (S_st.globals ? 1 : 0) && g_nmod == 1, "all of the program, once");
		CHECK(g_np[0] == S_st.called_strcmp && g_np[1] == S_st.called_int_pow && g_np[2] == S_st.called_float_pow && g_np[3] == S_st.called_float_mod, "the helpers that are called are defined, once");
		CHECK(g_nclose == (so ? 0 : 1), "the file is closed");
	} else CHECK(!g_nhead, "nothing is written");
	REACH("the file is written");
}
#endif
#endif
