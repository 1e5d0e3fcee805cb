/* Names made from names: the symbols of a module, the files that are written.
 * Texts of any length; a text that is made is checked at an arbitrary place.
 * The string functions are contracts: a copy is made at that place. */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/build_data.h"
#include "skull/common/io.h"
uint64_t vp_in;
static char *g_in, *g_nm, *g_out, *g_dup; static size_t g_n, g_m, g_base, g_size, g_o; static bool g_slash; static unsigned g_nalloc;
static size_t off(const char *p) { return __CPROVER_POINTER_OFFSET(p); }
static bool in_(const char *p) { return __CPROVER_same_object(p, g_in); }
static bool nm_(const char *p) { return __CPROVER_same_object(p, g_nm); }
static size_t vp_strlen(const char *p) {
	if (in_(p)) { CHECK(off(p) <= g_n, "a text"); return g_n - off(p); }
	if (nm_(p)) { CHECK(off(p) <= g_m, "a text"); return g_m - off(p); }
	if (p[0] == 0) return 0;
	CHECK(p[1] == 0, "a short text"); return 1;
}
static char *vp_strrchr(const char *p, int c) {
	if (!in_(p)) { CHECK(p[0] == 0, "a text"); return NULL; }
	CHECK(off(p) == 0 && c == '/', "the last / of the whole name");
	return g_slash ? g_in + g_base - 1 : NULL;
}
static void *vp_malloc(size_t n) { g_nalloc++; g_size = n; char *p = malloc(n); ASSUME(p != NULL); return g_out = p; }
/* n bytes of s, zeros after its end if pad */
static void copy(char *d, const char *s, size_t n, bool pad) {
	CHECK(__CPROVER_same_object(d, g_out) && off(d) + n <= g_size, "written inside the new text");
	size_t l = vp_strlen(s); CHECK(pad || n <= l + 1, "read inside the text");
	if (g_o >= off(d) && g_o - off(d) < n) { size_t k = g_o - off(d); g_out[g_o] = k <= l ? s[k] : 0; }
}
static char *vp_strncpy(char *d, const char *s, size_t n) { copy(d, s, n, true); return d; }
static char *vp_strcpy(char *d, const char *s) { copy(d, s, vp_strlen(s) + 1, false); return d; }
static char *vp_stpcpy(char *d, const char *s) { copy(d, s, vp_strlen(s) + 1, false); return d + vp_strlen(s); }
static void *vp_memcpy(void *d, const void *s, size_t n) { copy(d, s, n, false); return d; }
static char *vp_strdup(const char *s) { size_t l = vp_strlen(s); vp_malloc(l + 1); copy(g_out, s, l + 1, false); return g_out; }
static char *vp_strndup(const char *s, size_t n) { size_t l = vp_strlen(s); if (l > n) l = n; vp_malloc(l + 1); copy(g_out, s, l, false); if (l == g_o) g_out[l] = 0; return g_out; }
#include "skull/common/malloc.h"
#include <string.h>
#define strlen vp_strlen
#define strrchr vp_strrchr
#define strncpy vp_strncpy
#define strcpy vp_strcpy
#define stpcpy vp_stpcpy
#define memcpy vp_memcpy
#define strdup vp_strdup
#define strndup vp_strndup
#define Malloc vp_malloc
#define Calloc(a, b) vp_calloc(a, b)
static void *vp_calloc(size_t a, size_t b) { char *p = vp_malloc(a * b); if (g_o < g_size) p[g_o] = 0; return p; }
#include "loops.h"
#if defined(UNIT_MANGLE)
#include "skull/semantic/mangle.c"
#elif defined(UNIT_MAIN)
#include "skull/codegen/abi.c"
#elif defined(UNIT_FILE)
#include "skull/common/io.c"
#elif defined(UNIT_NEW)
static char *vp_gen(const char *f, const char *e) { CHECK(f == g_in && e == g_nm, "the name of the file and the extension"); CHECK(g_nalloc == 0, "one name"); g_nalloc++; return g_dup; }
#define gen_filename vp_gen
#include "skull/codegen/shared.c"
#endif
BuildData BUILD_DATA;
static void is(const char *r, size_t len) {
	CHECK(r == g_out && g_size > len, "a new text with room for the whole name");
	ASSUME(g_o <= len);
}
#undef memcpy
void harness(void) {
	g_n = vp_below(1u << 20); g_m = vp_below(1u << 20); g_o = vp_below(1u << 22); g_slash = vp_bool(); g_base = g_slash ? 1 + vp_below(1u << 20) : 0;
	g_nalloc = 0;
	/* path/name.sk */
	ASSUME(g_n >= g_base + 4);
	g_in = malloc(g_n + 1); g_nm = malloc(g_m + 1); g_dup = malloc(1); ASSUME(g_in && g_nm && g_dup && g_in[g_n] == 0 && g_nm[g_m] == 0 && g_in[g_base] != 0 && (!g_slash || g_in[g_base - 1] == '/'));
	BUILD_DATA.filename = g_in;
	char *r; const size_t b = g_n - g_base;
#if defined(UNIT_MANGLE)
	r = mangle_name(g_nm); is(r, b - 2 + g_m);
	CHECK(r[g_o] == (g_o < b - 2 ? g_in[g_base + g_o] : g_nm[g_o - (b - 2)]), "an exported name is the name of the module, a dot and its own name");
#elif defined(UNIT_MAIN)
	if (vp_bool()) {
		r = create_main_func_name(vp_bool() ? NULL : (char[]){0}); is(r, 1); CHECK(r[g_o] == (g_o == 0 ? '.' : 0), "a module without a name");
	} else {
		r = create_main_func_name(g_in); is(r, 1 + b - 3);
		CHECK(r[g_o] == (g_o == 0 ? '.' : g_o < 1 + b - 3 ? g_in[g_base + g_o - 1] : 0), "the code of a module is a function named after it");
	}
#elif defined(UNIT_FILE)
	r = gen_filename(g_in, g_nm); is(r, g_n + 2 + g_m);
	CHECK(r[g_o] == (g_o < g_base ? g_in[g_o] : g_o == g_base ? '.' : g_o <= g_n ? g_in[g_o - 1] : g_o == g_n + 1 ? '.' : g_nm[g_o - g_n - 2]), "the file is next to the source: a dot, its name, a dot, the extension");
#elif defined(UNIT_NEW)
	/* any place of the name given by -o, which is the second text here */
	BUILD_DATA.preprocess = vp_bool(); BUILD_DATA.c_backend = vp_bool(); bool o = vp_bool(); char *given = o ? g_nm : NULL; BUILD_DATA.out_file = given;
	r = get_new_filename(g_in, g_nm);
	if (o && (BUILD_DATA.preprocess || BUILD_DATA.c_backend)) { is(r, g_m); CHECK(r[g_o] == g_nm[g_o], "the name given by -o"); }
	else if (BUILD_DATA.preprocess) { is(r, 1); CHECK(r[g_o] == (g_o ? 0 : '-'), "standard output"); }
	else CHECK(r == g_dup, "the name made from that of the source");
#endif
	REACH("the name is made");
}
#endif
