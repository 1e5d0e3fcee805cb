/* C13: the command line.  The real skull/cli.c; the process ends in exit(). */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/build_data.h"
#include "skull/common/str.h"
#include "skull/real_main.h"
BuildData BUILD_DATA; uint64_t vp_in;
/* what is left to be done after some arguments: equal arguments, equal effect */
uint64_t __CPROVER_uninterpreted_fin(uint64_t argc, uint64_t argv, uint64_t mask, uint64_t fn, uint64_t out);
uint64_t __CPROVER_uninterpreted_end(uint64_t mask, uint64_t fn, uint64_t out, uint64_t extra);
static unsigned g_msg, g_out; static int g_exit; static bool g_color_env, g_conflict, g_bad, g_ended; static char g_envval[2]; static char *g_a0, *g_a1, *g_sq; static char **g_argv; static int g_rm, g_argc; static unsigned g_nrm; static const char *g_file; static size_t g_ext; static bool g_hasext;
#define P(x) ((uint64_t)(x))
#define MASK (P(BUILD_DATA.compile_only) | P(BUILD_DATA.asm_backend) << 1 | P(BUILD_DATA.preprocess) << 2 | P(BUILD_DATA.debug) << 3 | P(BUILD_DATA.quiet) << 4 | P(BUILD_DATA.optimize1) << 5 | P(BUILD_DATA.optimize2) << 6 | P(BUILD_DATA.optimize3) << 7 | P(BUILD_DATA.c_backend) << 8 | P(BUILD_DATA.werror) << 9 | P(BUILD_DATA.llvm_no_verify) << 10 | P(BUILD_DATA.color) << 11)
#define OLDMASK (P(OLD(BUILD_DATA.compile_only)) | P(OLD(BUILD_DATA.asm_backend)) << 1 | P(OLD(BUILD_DATA.preprocess)) << 2 | P(OLD(BUILD_DATA.debug)) << 3 | P(OLD(BUILD_DATA.quiet)) << 4 | P(OLD(BUILD_DATA.optimize1)) << 5 | P(OLD(BUILD_DATA.optimize2)) << 6 | P(OLD(BUILD_DATA.optimize3)) << 7 | P(OLD(BUILD_DATA.c_backend)) << 8 | P(OLD(BUILD_DATA.werror)) << 9 | P(OLD(BUILD_DATA.llvm_no_verify)) << 10 | P(OLD(BUILD_DATA.color)) << 11)
#define FN P(BUILD_DATA.filename)
#define OUT P(BUILD_DATA.out_file)
#define EXTRA P(BUILD_DATA.extra_args)
#undef stderr
static FILE *stderr_;
#define stderr stderr_
#define fprintf(f, ...) ((void)(f), g_msg++, 0)
#define printf(...) (g_out++, 0)
#define perror(x) ((void)(x))
#define free(x) ((void)(x))
#define strdup(x) ((char *)(x))
#define C_(i) if (a[i] != b[i]) return 1; if (!a[i]) return 0;
static int vp_strcmp(const char *a, const char *b) { C_(0) C_(1) C_(2) C_(3) C_(4) C_(5) C_(6) C_(7) C_(8) C_(9) C_(10) C_(11) C_(12) C_(13) C_(14) C_(15) return 1; }
#define strcmp(a, b) vp_strcmp(a, b)
static char *vp_getenv(const char *n) { CHECK(n[0] == 'C' && n[1] == 'O' && n[2] == 'L' && n[3] == 'O' && n[4] == 'R' && !n[5], "the environment variable"); return g_color_env ? g_envval : NULL; }
#define getenv(x) vp_getenv(x)
static _Noreturn void vp_exit(int code) {
	CHECK(g_exit >= 0 && code == g_exit, "the program ends here, with this status");
	CHECK(code ? g_msg > 0 && !g_out : g_out > 0 && !g_msg, "with a message");
	g_ended = true; ASSUME(false); for (;;);
}
#define exit(c) vp_exit(c)
#ifndef SKULL_VERSION
#define SKULL_VERSION "v"
#endif
#include "skull/common/malloc.h"
#define main skull_main
#ifdef UNIT_SQUASH
/* argument i: g_argv[i], the text S_text + GT[i] of GL[i] characters; the
 * result starts it at GO[i].  GO[0] = 0, GO[i + 1] = GO[i] + GL[i] + 1. */
static size_t GT[__CPROVER_constant_infinity_uint], GL[__CPROVER_constant_infinity_uint], GO[__CPROVER_constant_infinity_uint];
static char *g_text, *g_buf; static size_t g_cnt, g_i, g_w, g_k, g_size, g_ncpy; static char g_wch;
#define ARG(k) ((k) < g_cnt ? g_text + GT[k] : NULL)
static bool arg(size_t k) { ASSUME(k > g_cnt || g_argv[k] == ARG(k)); if (k < g_cnt) ASSUME(GT[k] < (1ul << 41) && GL[k] < (1u << 20) && GO[k] <= g_size && GO[k + 1] == GO[k] + GL[k] + 1 && GO[k + 1] <= g_size); return true; }
static size_t vp_strlen(const char *s) { CHECK(g_i < g_cnt && s == g_text + GT[g_i], "the next argument"); return GL[g_i]; }
static void vp_copy(char *d, const char *s, size_t n) {
	CHECK(g_i < g_cnt && s == g_text + GT[g_i] && n <= GL[g_i] + 1, "an argument is copied, not more");
	CHECK(d == g_buf + __CPROVER_POINTER_OFFSET(d) && __CPROVER_POINTER_OFFSET(d) + n <= g_size, "into the result"); g_ncpy++;
	size_t at = __CPROVER_POINTER_OFFSET(d), p = GO[g_w] + g_k;
	/* one symbolic character of the result is kept; the others stay any */
	if (at <= p && p < at + n) { if (g_i == g_w && p - at == g_k) g_buf[p] = g_k < GL[g_w] ? g_wch : 0; else g_buf[p] = vp_nd(); }
}
static void *vp_result(size_t n) { CHECK(n == g_size, "the size of the result"); return g_buf; }
#define strlen(s) vp_strlen(s)
#define memcpy(d, s, n) vp_copy(d, s, n)
#define Malloc(n) vp_result(n)
#define IX(a) (__CPROVER_POINTER_OFFSET(a) / sizeof(char *))
#define AT(a) (__CPROVER_same_object(a, g_argv) && __CPROVER_POINTER_OFFSET(a) % sizeof(char *) == 0 && IX(a) <= g_cnt && (*(a) == 0) == (IX(a) == g_cnt))
static bool step(char ***a) { g_i = IX(*a); CHECK(*a == g_argv + g_i, "PIN: the argument"); *a = g_argv + g_i; return arg(g_i) && arg(g_i + 1); }
#define LOOP_CONTRACT_squash_len(argv, len) ASSIGNS(argv, len, g_i) INVARIANT(AT(argv) && len == GO[IX(argv)]) DECREASES(g_cnt - IX(argv)) if (step(&argv))
#define LOOP_CONTRACT_squash(argv, wrote) ASSIGNS(argv, wrote, g_i, g_ncpy, vp_in, __CPROVER_object_whole(g_buf)) INVARIANT(AT(argv) && wrote == GO[IX(argv)] && wrote <= g_size) \
	INVARIANT(IX(argv) > g_w ==> wrote > GO[g_w] + g_k && (IX(argv) > g_w + 1 ==> wrote > GO[g_w] + g_k + 1) && g_buf[GO[g_w] + g_k] == (g_k < GL[g_w] ? g_wch : ' ')) \
	INVARIANT(IX(argv) == g_w + 1 ==> wrote == GO[g_w] + GL[g_w] + 1) DECREASES(g_cnt - IX(argv)) if (step(&argv))
#endif
#include "loops.h"
static int handle_args(int argc, char *argv[]);
static _Bool build_data_valid(void);
static char *squash_argv(char *argv[]);
#ifdef UNIT_SQUASH
static char *squash_argv(char *argv[])
REQUIRES(argv == g_argv && g_cnt > 0) ASSIGNS(g_i, g_ncpy, vp_in, __CPROVER_object_whole(g_buf))
ENSURES(__CPROVER_pointer_equals(RET, g_buf) && g_buf[GO[g_w] + g_k] == (g_k < GL[g_w] ? g_wch : g_w + 1 < g_cnt ? ' ' : 0)) ;
#elif !defined(UNIT_VALID)
static char *squash_argv(char *argv[])
REQUIRES(argv == g_argv + 1) ASSIGNS() ENSURES(__CPROVER_pointer_equals(RET, g_sq)) ;
static int handle_args(int argc, char *argv[])
REQUIRES(argc >= 0)
ASSIGNS(BUILD_DATA, g_msg, g_out, g_ended)
#ifdef UNIT_ARGS
ENSURES(RET == 0 && __CPROVER_uninterpreted_fin(argc, P(argv), OLDMASK, P(OLD(BUILD_DATA.filename)), P(OLD(BUILD_DATA.out_file))) == __CPROVER_uninterpreted_end(MASK, FN, OUT, EXTRA) && g_msg == OLD(g_msg) && g_out == OLD(g_out))
#else
ENSURES(RET == 0 && g_msg == OLD(g_msg) && g_out == OLD(g_out))
ENSURES(__CPROVER_pointer_equals(BUILD_DATA.filename, g_file) && (BUILD_DATA.out_file == NULL || BUILD_DATA.out_file == g_a1))
#endif
;
static _Bool build_data_valid(void)
ASSIGNS(g_msg) ENSURES(RET == !g_conflict && g_msg == OLD(g_msg) + (g_conflict ? 1 : 0)) ;
#endif
#ifdef UNIT_MAIN
const char *strrstr(const char *h, const char *n) { CHECK(h == g_file && n[0] == '.' && n[1] == 's' && n[2] == 'k' && !n[3], "the last .sk of the file name"); return g_hasext ? g_file + g_ext : NULL; }
int real_main(int argc, char *argv[]) {
	CHECK(argc == 2 && argv[1] == g_file && !argv[2], "the file is compiled"); CHECK(!g_bad, "nothing is compiled when the command line is wrong"); g_nrm++; return g_rm;
}
#define BADNAME (!g_file || !g_hasext || g_file[g_ext + 3] != 0)
int skull_main(int argc, char *argv[])
REQUIRES(argc >= 1 && argv == g_argv)
ASSIGNS(BUILD_DATA, g_msg, g_out, g_ended, g_nrm)
ENSURES(argc == 1 ==> RET == 0 && g_out == 1 && g_nrm == 0)
ENSURES(argc > 1 && g_bad ==> RET != 0 && g_msg == 1 && g_nrm == 0)
ENSURES(argc > 1 && !g_bad ==> RET == g_rm && g_nrm == 1 && g_msg == 0)
;
#endif
#include "skull/cli.c"
#undef main
#undef free

/* what one argument means */
static bool flag(uint64_t *m, unsigned b) { if (*m >> b & 1) return true; *m |= 1ull << b; return false; }
static bool word(const char *a, const char *w) { for (unsigned i = 0; i < 20; i++) { if (a[i] != w[i]) return false; if (!a[i]) return true; } return false; }
static uint64_t meaning(int argc, char **argv) {
	uint64_t m = MASK, fn = FN, out = OUT; unsigned n = 1; g_exit = -1;
	if (argc == 0) return __CPROVER_uninterpreted_end(m, fn, out, EXTRA);
	const char *a = argv[0]; bool bad = false, stop = false, ends = false;
	if (a[0] != '-') fn = P(a);
	else if (a[1] == '-') {
		if (!a[2]) { if (argc == 1) bad = true; else ends = true; }
		else if (word(a + 2, "version") || word(a + 2, "help")) stop = true;
		else if (word(a + 2, "c-backend")) bad = flag(&m, 8);
		else if (word(a + 2, "werror")) bad = flag(&m, 9);
		else if (word(a + 2, "llvm-no-verify")) bad = flag(&m, 10);
		else if (word(a + 2, "color")) bad = g_color_env || flag(&m, 11);
		else bad = true;
	}
	else if (a[1] == 'O') bad = a[2] < '1' || a[2] > '3' || a[3] || flag(&m, 5 + a[2] - '1');
	else if (!a[1] || a[2]) bad = true;
	else switch (a[1]) {
		case 'h': case 'v': stop = true; break;
		case 'c': bad = flag(&m, 0); break;
		case 'S': bad = flag(&m, 1); break;
		case 'E': bad = flag(&m, 2); break;
		case 'g': bad = flag(&m, 3); break;
		case 'q': bad = flag(&m, 4); break;
		case 'o': bad = out || argc == 1; if (!bad) { out = P(argv[1]); n = 2; } break;
		default: bad = true;
	}
	if (bad) g_exit = 1; else if (stop) g_exit = 0;
	if (ends) return __CPROVER_uninterpreted_end(m, fn, out, P(g_sq));
	return __CPROVER_uninterpreted_fin(argc - n, P(argv + n), m, fn, out);
}
void harness(void) {
	g_msg = g_out = 0; g_exit = -1; g_ended = false; g_nrm = 0; g_color_env = vp_bool(); g_envval[0] = vp_nd(); g_envval[1] = 0;
	BUILD_DATA.compile_only = vp_bool(); BUILD_DATA.asm_backend = vp_bool(); BUILD_DATA.preprocess = vp_bool(); BUILD_DATA.debug = vp_bool(); BUILD_DATA.quiet = vp_bool(); BUILD_DATA.optimize1 = vp_bool(); BUILD_DATA.optimize2 = vp_bool(); BUILD_DATA.optimize3 = vp_bool();
	BUILD_DATA.c_backend = vp_bool(); BUILD_DATA.werror = vp_bool(); BUILD_DATA.llvm_no_verify = vp_bool(); BUILD_DATA.color = vp_bool();
	size_t n0 = vp_below(1u << 20); g_a0 = malloc(n0 + 1); g_a1 = malloc(1); g_sq = malloc(1); g_argv = malloc(3 * sizeof(char *)); ASSUME(g_a0 && g_a1 && g_sq && g_argv && g_a0[n0] == 0);
	g_argv[0] = g_a0; g_argv[1] = g_a1; g_argv[2] = NULL; g_file = g_a0;
	BUILD_DATA.filename = vp_bool() ? g_a1 : NULL; BUILD_DATA.out_file = vp_bool() ? g_a1 : NULL; BUILD_DATA.extra_args = NULL;
	g_argc = vp_below(1u << 30);
#if defined(UNIT_SQUASH)
	g_cnt = vp_range(1, 1u << 20); g_size = vp_range(1, 1ul << 41); { size_t z = vp_range(1, 1ul << 41); g_text = malloc(z); } g_buf = malloc(g_size); g_argv = malloc((g_cnt + 1) * sizeof(char *)); ASSUME(g_text && g_buf && g_argv);
	g_w = vp_below(g_cnt); g_k = vp_nd(); g_wch = vp_nd(); arg(0); arg(1); arg(g_w); ASSUME(g_argv[g_cnt] == NULL && GO[0] == 0 && GO[g_cnt] == g_size && g_k <= GL[g_w]);
	squash_argv(g_argv);
#elif defined(UNIT_ARGS)
	uint64_t want = meaning(g_argc, g_argv);
	ASSUME(__CPROVER_uninterpreted_fin(g_argc, P(g_argv), MASK, FN, OUT) == want);
	int r = handle_args(g_argc, g_argv);
	CHECK(g_exit < 0, "a wrong argument ends the program");
	CHECK(g_msg == 0 && g_out == 0, "no message otherwise");
#elif defined(UNIT_VALID)
	const bool c = BUILD_DATA.c_backend; const unsigned opt = BUILD_DATA.optimize1 + BUILD_DATA.optimize2 + BUILD_DATA.optimize3, kind = BUILD_DATA.preprocess + BUILD_DATA.asm_backend + BUILD_DATA.compile_only;
	const uint64_t m = MASK; const bool ok = opt <= 1 && kind <= 1 && !(c && BUILD_DATA.llvm_no_verify) && !(c && BUILD_DATA.asm_backend) && !(BUILD_DATA.quiet && BUILD_DATA.werror);
	CHECK(build_data_valid() == ok, "options that exclude each other are rejected, others are not");
	CHECK(MASK == m && g_msg == (ok ? 0 : 1), "with a message");
#elif defined(UNIT_MAIN)
	g_argc = vp_range(1, 1u << 30); g_conflict = vp_bool(); g_rm = vp_nd(); g_hasext = vp_bool(); g_ext = vp_below(1u << 20); ASSUME(n0 >= 3 && g_ext + 3 <= n0); if (vp_bool()) g_file = NULL;
	BUILD_DATA.filename = NULL; BUILD_DATA.out_file = NULL;
	g_bad = g_conflict || BADNAME;
	skull_main(g_argc, g_argv);
#endif
	REACH("the command line is understood");
}
#endif
