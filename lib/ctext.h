/* The text that the C back end builds, as an abstract syntax: uvsnprintf and
 * strdup are stubs that read their format.  A text has a meaning (the operator
 * or statement that the format spells, applied to the meanings of the texts
 * put into it; white space and redundant parentheses are immaterial) and a
 * level: whether it can be an operand of an operator as it is.  Putting a text
 * where it would fall apart ("a + b" in "%s * %s") is a failed obligation. */
#ifndef CTEXT_H
#define CTEXT_H
#include "sem.h"
#include "skull/common/str.h"
#include "skull/codegen/c/shared.h"

enum { LOW, UNARY, PRIMARY };
struct text { char c[8]; unsigned char lvl; uint64_t m; };
typedef struct { char k; uint64_t m; unsigned char lvl; } Arg;
#define TX(p) ((struct text *)(p))
uint64_t __CPROVER_uninterpreted_mean(uint64_t f, uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e);
#define MEAN(f, ...) MEAN_(f, ##__VA_ARGS__, 0, 0, 0, 0, 0)
#define MEAN_(f, a, b, c, d, e, ...) __CPROVER_uninterpreted_mean(SH(f), a, b, c, d, e)
#define NARG ((Arg){0, 0, 0})

static struct text T_out0, T_out1, T_out2, T_out3; unsigned g_nf;
static struct text *newtext(void) { unsigned n = g_nf & 3; g_nf++; return n == 0 ? &T_out0 : n == 1 ? &T_out1 : n == 2 ? &T_out2 : &T_out3; }
#define GHOST_TEXT g_nf, T_out0, T_out1, T_out2, T_out3

static bool ident_ch(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' || c == '"' || (c >= 1 && c <= 4); }
static bool white(char c) { return c == ' ' || c == '\n' || c == '\t'; }
unsigned char s_lvl;
/* -> shape of the format; checks the arguments against it */
static uint64_t scan(const char *f, bool chk, Arg a0, Arg a1, Arg a2, Arg a3, Arg a4, Arg a5) {
	uint64_t h = 7, st = 0; char last = 0, raw = 0; bool sp = false, brk = false, pre = false, num = false; unsigned depth = 0, k = 0, i = 0;
	while (f[i]) {
		char c = f[i], e = c; i++;
		if (white(c)) { sp = true; continue; }
		if (c == '(') {
			bool keep = ident_ch(last); if (last == 0) {} st = (st << 1) | keep; depth++; raw = c; sp = false;
			if (keep) { h = h * 131 + c; last = c; }
			continue;
		}
		if (c == ')') { bool keep = st & 1; st >>= 1; depth--; raw = c; sp = false; if (keep) { h = h * 131 + c; last = c; } continue; }
		if (c == '%' && f[i] == '%') i++;
		else if (c == '%') {
			Arg a = k == 0 ? a0 : k == 1 ? a1 : k == 2 ? a2 : k == 3 ? a3 : k == 4 ? a4 : a5; k++;
			char want = 's';
			if (f[i] == 's') { e = 1; i++; }
			else if (f[i] == 'l' && (f[i + 1] == 'i' || f[i + 1] == 'd')) { e = 2; want = 'i'; i += 2; }
			else if (f[i] == 'a') { e = 3; want = 'd'; i++; }
			else { e = 4; want = 'u'; i++; }
			if (e == 2 || e == 3) num = true;
			if (chk) {
				CHECK(a.k == want, "uvsnprintf: an argument of the type of its conversion");
				char n = f[i] == ' ' ? f[i + 1] : f[i];
				bool safe = (raw == 0 || raw == '(' || raw == ',' || raw == '=' || raw == '{' || raw == ';' || raw == '}' || ident_ch(raw)) && (n == 0 || n == ')' || n == ',' || n == ';' || n == '}' || n == '\n');
				if (want == 's' && !safe) CHECK(a.lvl >= (raw == '-' && f[i - 3] == '-' ? PRIMARY : UNARY), "an operand keeps together in the place that it is put in");
			}
			c = e;
		}
		if (depth == 0) {
			if (h == 7 && !pre && (c == '-' || c == '!' || c == '&' || c == '*')) pre = true;
			else if (!ident_ch(e)) brk = true;
			else if (sp && last) brk = true;
		}
		if (sp && ident_ch(last) && ident_ch(e)) h = h * 131 + ' ';
		sp = false; h = h * 131 + e; last = e; raw = c;
	}
	if (chk) CHECK(k == (a0.k != 0) + (a1.k != 0) + (a2.k != 0) + (a3.k != 0) + (a4.k != 0) + (a5.k != 0), "uvsnprintf: one argument per conversion");
	s_lvl = brk ? LOW : pre || num ? UNARY : PRIMARY;
	return h;
}
#ifdef CTEXT_LIGHT
/* units with loop contracts: a format is one of those in CTEXT_LIGHT, verbatim */
static bool eqs(const char *a, const char *b) { return (a[0] == b[0] && (!a[0] || (a[1] == b[1] && (!a[1] || (a[2] == b[2] && (!a[2] || (a[3] == b[3] && (!a[3] || (a[4] == b[4] && (!a[4] || (a[5] == b[5] && (!a[5] || (a[6] == b[6] && (!a[6] || (a[7] == b[7] && (!a[7] || (a[8] == b[8] && (!a[8] || (a[9] == b[9] && (!a[9] || (a[10] == b[10] && (!a[10] || (a[11] == b[11] && (!a[11] || (a[12] == b[12] && (!a[12] || (a[13] == b[13] && (!a[13] || (a[14] == b[14] && (!a[14] || (a[15] == b[15] && (!a[15] || (a[16] == b[16] && (!a[16] || (a[17] == b[17] && (!a[17] || (a[18] == b[18] && (!a[18] || (a[19] == b[19] && (!a[19] || (a[20] == b[20] && (!a[20] || (a[21] == b[21] && (!a[21] || (a[22] == b[22] && (!a[22] || (a[23] == b[23] && (!a[23] || (a[24] == b[24] && (!a[24] || (a[25] == b[25] && (!a[25] || (a[26] == b[26] && (!a[26] || (a[27] == b[27] && (!a[27] || (a[28] == b[28] && (!a[28] || (a[29] == b[29] && (!a[29] || (a[30] == b[30] && (!a[30] || (a[31] == b[31] && (!a[31] || (a[32] == b[32] && (!a[32] || (a[33] == b[33] && (!a[33] || (a[34] == b[34] && (!a[34] || (a[35] == b[35] && (!a[35] || (a[36] == b[36] && (!a[36] || (a[37] == b[37] && (!a[37] || (a[38] == b[38] && (!a[38] || (a[39] == b[39] && (!a[39] || (a[40] == b[40] && (!a[40] || (a[41] == b[41] && (!a[41] || (a[42] == b[42] && (!a[42] || (a[43] == b[43] && (!a[43] || (a[44] == b[44] && (!a[44] || (a[45] == b[45] && (!a[45] || (a[46] == b[46] && (!a[46] || (a[47] == b[47] && (!a[47] || true)))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))); }
#ifndef L1
#define L1 "\7"
#endif
#ifndef L2
#define L2 "\7"
#endif
#ifndef L3
#define L3 "\7"
#endif
#ifndef L4
#define L4 "\7"
#endif
#ifndef L5
#define L5 "\7"
#endif
#ifndef L6
#define L6 "\7"
#endif
#define SH(f) sh_(f)
static uint64_t sh_(const char *f) { if (eqs(f, L1)) return 1; if (eqs(f, L2)) return 2; if (eqs(f, L3)) return 3; if (eqs(f, L4)) return 4; if (eqs(f, L5)) return 5; if (eqs(f, L6)) return 6; return 7; }
#else
#define SH(f) scan(f, false, NARG, NARG, NARG, NARG, NARG, NARG)
#endif
#ifdef CTEXT_LIGHT
#ifndef LWORD
#define LWORD ""
#endif
/* a string that is not a text of the program: empty, or the word of the unit */
static Arg ar_s(const char *p) {
	if (!p) CHECK(false, "uvsnprintf: a string");
	if (p[0] == 1) return (Arg){'s', TX(p)->m, TX(p)->lvl};
	if (p[0] == 0) return (Arg){'s', __CPROVER_uninterpreted_mean(0, 0, 0, 0, 0, 0), PRIMARY};
	const char *w = LWORD; bool ok = true;
	if (sizeof(LWORD) > 1) { if (p[0] != w[0]) ok = false; if (p[1] != w[1]) ok = false; if (p[2] != w[2]) ok = false; if (p[3] != w[3]) ok = false; if (p[4]) ok = false; }
	CHECK(ok && sizeof(LWORD) == 5, "a word that is known");
	return (Arg){'s', __CPROVER_uninterpreted_mean(6, 0, 0, 0, 0, 0), PRIMARY};
}
#else
static Arg ar_s(const char *p) { if (!p) CHECK(false, "uvsnprintf: a string"); if (p[0] != 1) return (Arg){'s', __CPROVER_uninterpreted_mean(SH(p), 0, 0, 0, 0, 0), PRIMARY}; return (Arg){'s', TX(p)->m, TX(p)->lvl}; }
#endif
static Arg ar_i(int64_t i) { return (Arg){'i', i, UNARY}; }
static Arg ar_u(char32_t u) { return (Arg){'u', u, UNARY}; }
static Arg ar_d(double d) { uint64_t u; memcpy(&u, &d, 8); return (Arg){'d', u, UNARY}; }
#define AR(x) _Generic((x), double: ar_d, int64_t: ar_i, char32_t: ar_u, default: ar_s)(x)
static char *vp_fmt(const char *f, Arg a0, Arg a1, Arg a2, Arg a3, Arg a4, Arg a5) {
#ifdef CTEXT_LIGHT
	uint64_t h = SH(f); s_lvl = h == 7 ? LOW : PRIMARY; CHECK(h != 7, "a format that is known");
#else
	uint64_t h = scan(f, true, a0, a1, a2, a3, a4, a5);
#endif
	struct text *t = newtext(); t->c[0] = 1; t->lvl = s_lvl; t->m = __CPROVER_uninterpreted_mean(h, a0.m, a1.m, a2.m, a3.m, a4.m); return (char *)t;
}
#define F_SEL(a, b, c, d, e, f, g, n, ...) n
#define uvsnprintf(...) F_SEL(__VA_ARGS__, F6, F5, F4, F3, F2, F1, F0)(__VA_ARGS__)
#define F1(f, a) vp_fmt(f, AR(a), NARG, NARG, NARG, NARG, NARG)
#define F2(f, a, b) vp_fmt(f, AR(a), AR(b), NARG, NARG, NARG, NARG)
#define F3(f, a, b, c) vp_fmt(f, AR(a), AR(b), AR(c), NARG, NARG, NARG)
#define F4(f, a, b, c, d) vp_fmt(f, AR(a), AR(b), AR(c), AR(d), NARG, NARG)
#define F5(f, a, b, c, d, e) vp_fmt(f, AR(a), AR(b), AR(c), AR(d), AR(e), NARG)
/* a copy of a text of the program keeps its meaning; a literal is read */
static struct text *T_known[8]; unsigned n_known;
static bool is_text(const char *p) { return p == T_known[0]->c || p == T_known[1]->c || p == T_known[2]->c || p == T_known[3]->c; }
static char *vp_dup(const char *p) {
	if (is_text(p)) { struct text *t = newtext(); t->c[0] = 1; t->lvl = TX(p)->lvl; t->m = TX(p)->m; return (char *)t; }
	return vp_fmt(p, NARG, NARG, NARG, NARG, NARG, NARG);
}
#undef strdup
#define strdup(x) vp_dup(x)
#undef free
#define free(x) ((void)(x))
#endif
