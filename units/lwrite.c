/* C14: what the LLVM back end writes.  The real codegen/llvm/write.c; LLVM,
 * the shell and the file system are contracts with arbitrary outcomes. */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/build_data.h"
#include "skull/common/io.h"
#include "skull/common/str.h"
#include <llvm-c/Analysis.h>
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Linker.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include <sys/wait.h>
#include <unistd.h>
#include <errno.h>
#include "skull/codegen/abi.h"
#include "skull/codegen/llvm/debug.h"
#include "skull/codegen/llvm/shared.h"
#include "skull/codegen/llvm/types.h"
#include "skull/codegen/llvm/write.h"
#include "skull/codegen/shared.h"
#include "skull/semantic/func.h"
#include "skull/semantic/symbol.h"
#include "skull/shim.h"
BuildData BUILD_DATA; uint64_t vp_in; DebugInfo DEBUG_INFO;
static SkullStateLLVM S_st; static int O_module, O_ctx, O_builder, O_tm, O_target, O_shim, O_exit, O_start, O_main, O_opts, O_buf, O_ret, O_bb; static Symbol S_main; static FunctionDeclaration S_fn;
#define M(o) ((void *)&O_##o)
static bool g_verr, g_perr, g_lerr, g_terr, g_notm, g_emiterr, g_irerr, g_isdir, g_execfails; static int g_status;
static unsigned g_verified, g_opt, g_emit, g_ir, g_ran, g_removed, g_linked, g_start, g_final, g_msg, g_entry, g_call, g_retvoid; static int g_level, g_kind; static char *g_file, *g_bd, *g_obj, *g_bin, *g_irname, *g_extra; static size_t g_n, g_w; static const char *g_where; static bool g_dash;
#undef stderr
static FILE *stderr_;
#define stderr stderr_
#define fprintf(f, ...) ((void)(f), g_msg++, 0)
#define perror(x) (g_msg++)
#define free(x) ((void)(x))
void LLVMDIBuilderFinalize(LLVMDIBuilderRef b) { (void)b; CHECK(BUILD_DATA.debug && !g_emit && !g_ir && !g_verified, "debug information is completed before the module is used"); g_final++; }
LLVMTypeRef type_to_llvm_func_type(const Type *t, LLVMTypeRef *p, unsigned n, const SkullStateLLVM *s) { (void)t; (void)p; (void)n; CHECK(s == &S_st, "the state"); return M(target); }
LLVMTypeRef LLVMInt64TypeInContext(LLVMContextRef c) { (void)c; return M(target); }
LLVMValueRef LLVMAddFunction(LLVMModuleRef m, const char *n, LLVMTypeRef t) { (void)t; CHECK(m == M(module), "the module"); if (n[0] == '_' && n[1] == 's' && n[2] == 't' && n[3] == 'a' && n[4] == 'r' && n[5] == 't' && !n[6]) { g_start++; return M(start); } CHECK(n[0] == 'e' && n[1] == 'x' && n[2] == 'i' && n[3] == 't' && !n[4], "exit"); return M(exit); }
void LLVMSetLinkage(LLVMValueRef v, LLVMLinkage l) { CHECK(v == M(start) && l == LLVMExternalLinkage, "the start of the program is visible"); }
void LLVMAddTargetDependentFunctionAttr(LLVMValueRef v, const char *a, const char *b) { (void)v; (void)a; (void)b; }
LLVMBasicBlockRef LLVMAppendBasicBlockInContext(LLVMContextRef c, LLVMValueRef f, const char *n) { (void)c; (void)n; CHECK(f == M(start), "the start"); g_entry++; return M(bb); }
void LLVMPositionBuilderAtEnd(LLVMBuilderRef b, LLVMBasicBlockRef bb) { CHECK(b == M(builder) && bb == M(bb), "in the start"); g_entry++; }
LLVMValueRef LLVMBuildCall2(LLVMBuilderRef b, LLVMTypeRef t, LLVMValueRef f, LLVMValueRef *a, unsigned n, const char *nm) {
	(void)t; (void)nm; CHECK(b == M(builder) && g_entry == 2, "in the start");
	if (g_call == 0) CHECK(f == M(main) && n == 0, "the start runs the module"); else CHECK(f == M(exit) && n == 1 && a[0] == M(ret), "and exits with its result");
	g_call++; return M(ret);
}
LLVMValueRef LLVMBuildRetVoid(LLVMBuilderRef b) { (void)b; g_retvoid++; return M(ret); }
LLVMMemoryBufferRef LLVMCreateMemoryBufferWithMemoryRangeCopy(const char *p, size_t n, const char *nm) { (void)nm; CHECK(p == LL_SHIM && n == LL_SHIM_len, "the helpers"); return M(buf); }
LLVMBool LLVMParseIRInContext(LLVMContextRef c, LLVMMemoryBufferRef b, LLVMModuleRef *m, char **e) { (void)c; (void)b; *m = M(shim); *e = g_perr ? g_bin : NULL; return g_perr; }
LLVMBool LLVMLinkModules2(LLVMModuleRef d, LLVMModuleRef s) { CHECK(d == M(module) && s == M(shim), "the helpers are added"); CHECK(!g_emit, "before it is written"); g_linked++; return g_lerr; }
void LLVMDisposeErrorMessage(char *m) { (void)m; }
void LLVMDisposeMessage(char *m) { (void)m; }
LLVMBool LLVMVerifyModule(LLVMModuleRef m, LLVMVerifierFailureAction a, char **e) { CHECK(m == M(module) && a == LLVMReturnStatusAction, "the module"); CHECK(!g_emit && !g_ir && !g_opt, "verified before anything else"); *e = g_bin; g_verified++; return g_verr; }
LLVMPassBuilderOptionsRef LLVMCreatePassBuilderOptions(void) { return M(opts); }
void LLVMDisposePassBuilderOptions(LLVMPassBuilderOptionsRef o) { (void)o; }
LLVMErrorRef LLVMRunPasses(LLVMModuleRef m, const char *p, LLVMTargetMachineRef t, LLVMPassBuilderOptionsRef o) {
	(void)o; CHECK(m == M(module) && t == M(tm), "the module"); CHECK(!g_emit && !g_ir, "optimised before it is written");
	const char *w = "default<O"; for (unsigned i = 0; i < 9; i++) CHECK(p[i] == w[i], "the passes of a level"); CHECK(p[9] >= '1' && p[9] <= '3' && p[10] == '>' && !p[11], "the passes of a level"); g_level = p[9] - '0'; g_opt++; return NULL;
}
/* the targets: static inline functions of LLVM's headers */
#define LLVMInitializeAllTargetInfos() ((void)0)
#define LLVMInitializeAllTargets() ((void)0)
#define LLVMInitializeAllTargetMCs() ((void)0)
#define LLVMInitializeAllAsmPrinters() ((void)0)
#define LLVMInitializeAllAsmParsers() ((void)0)
#define LLVMInitializeAllDisassemblers() ((void)0)
char *LLVMGetDefaultTargetTriple(void) { return g_bin; }
char *LLVMGetHostCPUName(void) { return g_bin; }
char *LLVMGetHostCPUFeatures(void) { return g_bin; }
LLVMBool LLVMGetTargetFromTriple(const char *t, LLVMTargetRef *r, char **e) { (void)t; *r = g_terr ? NULL : M(target); *e = g_terr ? g_bin : NULL; return g_terr; }
LLVMTargetMachineRef LLVMCreateTargetMachine(LLVMTargetRef T, const char *a, const char *b, const char *c, LLVMCodeGenOptLevel d, LLVMRelocMode e, LLVMCodeModel f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; CHECK(T == M(target), "the target"); return g_notm ? NULL : M(tm); }
char *LLVMPrintModuleToString(LLVMModuleRef m) { (void)m; return g_bin; }
LLVMBool LLVMPrintModuleToFile(LLVMModuleRef m, const char *f, char **e) { CHECK(m == M(module) && f == g_irname, "the text of the module, to the file asked for"); g_ir++; *e = g_irerr ? g_bin : NULL; return g_irerr; }
LLVMBool LLVMTargetMachineEmitToFile(LLVMTargetMachineRef t, LLVMModuleRef m, const char *f, LLVMCodeGenFileType k, char **e) { CHECK(t == M(tm) && m == M(module), "the module"); g_emit++; g_kind = k; g_where = f; *e = g_emiterr ? g_bin : NULL; return g_emiterr; }
char *get_new_filename(const char *f, const char *e) { CHECK(f == g_file && e[0] == 'l' && e[1] == 'l' && !e[2], "the name of the text"); return g_irname; }
char *gen_filename(const char *f, const char *e) { CHECK(f == g_bd && e[0] == (BUILD_DATA.asm_backend ? 's' : 'o') && !e[1], "the name for this kind of file"); return g_obj; }
bool is_directory(const char *f) { CHECK(f == g_bin, "the program that is to be written"); return g_isdir; }
/* the name of the program: the source without .sk */
static char *vp_strdup(const char *s) { CHECK(s == g_bd, "the name of the source"); return g_bin; }
static char *vp_strrchr(const char *s, int c) { CHECK(s == g_bin && c == '.', "its extension"); return g_bin + g_n - 3; }
#define strdup vp_strdup
#define strrchr vp_strrchr
#undef memcpy
static char S_cmd[2];
static char *vp_cmd(const char *f, const char *obj, const char *bin, const char *extra) { (void)f; CHECK(obj == g_where && bin == g_bin && g_bin[g_n - 3] == 0, "the object is linked into the program of its name"); CHECK(g_extra ? extra == g_extra : extra[0] == 0, "with the arguments given"); return S_cmd; }
#define uvsnprintf(f, a, b, c) vp_cmd(f, a, b, c)
/* a process that runs the command: ends in some way, or cannot run */
static pid_t vp_fork(void) { CHECK(g_emit == 1 && g_removed == 0, "after the object is written"); g_ran++; return 17; }
static int vp_execvp(const char *f, char *const a[]) { (void)f; (void)a; CHECK(false, "only in the child"); return -1; }
static pid_t vp_wait(int *st) { CHECK(g_ran == 1, "the command"); if (st) *st = g_status; return 17; }
static pid_t vp_waitpid(pid_t p, int *st, int o) { (void)p; (void)o; return vp_wait(st); }
static int vp_remove(const char *f) { CHECK(f == g_where && g_ran == 1, "the object, after it was linked"); g_removed++; return 0; }
#define fork vp_fork
#define execvp vp_execvp
#define wait vp_wait
#define waitpid vp_waitpid
#define remove vp_remove
#include "loops.h"
#include "skull/codegen/llvm/write.c"
#undef free
void harness(void) {
	BUILD_DATA.compile_only = vp_bool(); BUILD_DATA.asm_backend = vp_bool(); BUILD_DATA.preprocess = vp_bool(); BUILD_DATA.debug = vp_bool(); BUILD_DATA.optimize1 = vp_bool(); BUILD_DATA.optimize2 = vp_bool(); BUILD_DATA.optimize3 = vp_bool(); BUILD_DATA.llvm_no_verify = vp_bool(); BUILD_DATA.c_backend = false;
	/* what the command line lets through (C13) */
	ASSUME(BUILD_DATA.compile_only + BUILD_DATA.asm_backend + BUILD_DATA.preprocess <= 1 && BUILD_DATA.optimize1 + BUILD_DATA.optimize2 + BUILD_DATA.optimize3 <= 1);
	g_verr = vp_bool(); g_perr = vp_bool(); g_lerr = vp_bool(); g_terr = vp_bool(); g_notm = vp_bool(); g_emiterr = vp_bool(); g_irerr = vp_bool(); g_isdir = vp_bool(); g_status = vp_nd(); g_dash = vp_bool();
	g_verified = g_opt = g_emit = g_ir = g_ran = g_removed = g_linked = g_start = g_final = g_msg = g_entry = g_call = g_retvoid = 0; g_level = 0; g_kind = -1; g_where = NULL;
	g_n = vp_range(4, 1u << 20); g_bd = malloc(g_n + 1); g_bin = malloc(g_n + 1); g_file = malloc(2); g_obj = malloc(2); g_irname = malloc(2); g_extra = vp_bool() ? malloc(2) : NULL; char *given = malloc(3); ASSUME(g_bd && g_bin && g_file && g_obj && g_irname && given && given[2] == 0);
	g_file[0] = 'x'; g_obj[0] = '.'; BUILD_DATA.filename = g_bd; BUILD_DATA.extra_args = g_extra;
	const bool o = vp_bool(); BUILD_DATA.out_file = o ? given : NULL; given[0] = '-'; if (vp_bool()) given[1] = 0; else given[1] = 'x';
	const bool dash = o && given[1] == 0;
	S_st.module = M(module); S_st.ctx = M(ctx); S_st.builder = M(builder); S_st.target_machine = NULL; S_st.main_func = &S_main; S_main.func = &S_fn; S_fn.ref = M(main); S_fn.type = M(target);
	const bool bin = !BUILD_DATA.compile_only && !BUILD_DATA.asm_backend && !BUILD_DATA.preprocess; const int lvl = BUILD_DATA.optimize1 ? 1 : BUILD_DATA.optimize2 ? 2 : BUILD_DATA.optimize3 ? 3 : 0;
	bool r = write_llvm(g_file, &S_st);
	/* the phases that are needed, and whether they succeed */
	bool ok = !(bin && (g_perr || g_lerr)) && !(!BUILD_DATA.llvm_no_verify && g_verr);
	CHECK(ok || (r && g_emit == 0 && g_ir == 0), "nothing is written if the module is not valid");
	CHECK(!g_emit || !g_ir, "one kind of output"); CHECK(g_emit <= 1 && g_ir <= 1 && g_ran <= 1, "written once");
	CHECK((g_emit || g_ir) ? (g_opt == (lvl ? 1 : 0) && g_level == lvl) : true, "optimised as asked for");
	CHECK((g_emit || g_ir) ? g_verified == !BUILD_DATA.llvm_no_verify && g_final == BUILD_DATA.debug : true, "verified, with complete debug information");
	if (lvl) ok = ok && !g_terr && !g_notm;
	if (BUILD_DATA.preprocess) { CHECK(r == !(ok && !g_irerr), "-E: fails exactly if the text cannot be written"); CHECK(g_ir == (ok ? 1 : 0) && !g_emit && !g_ran, "-E writes the text of the module only"); }
	else {
		ok = ok && !g_terr && !g_notm && !(dash && !BUILD_DATA.asm_backend);
		CHECK(g_emit == (ok ? 1 : 0), "written exactly if nothing failed");
		if (ok) CHECK(g_kind == (BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile) && g_where == (o ? given : g_obj), "of the kind asked for, under the name asked for");
		if (!bin) { CHECK(r == !(ok && !g_emiterr), "-S, -c: fails exactly if the file cannot be written"); CHECK(!g_ran && !g_removed && !g_start, "not linked"); }
		else {
			ok = ok && !g_emiterr && !g_isdir;
			CHECK(g_ran == (ok ? 1 : 0), "linked exactly if nothing failed");
			CHECK(r == !(ok && WIFEXITED(g_status) && WEXITSTATUS(g_status) == 0), "success exactly if the program was linked");
			if (ok) CHECK(g_removed == 1 && g_start == 1 && g_call == 2 && g_linked == 1, "the object is removed; the program starts the module and exits with its result");
		}
	}
	CHECK(!r || g_msg > 0 || g_ran, "a failure has a message");
	REACH("the module is written");
}
#endif
