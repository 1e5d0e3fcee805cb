/* C14: reading the source.  The real skull/common/io.c; the file is a contract:
 * any length, any content (one byte of it at an arbitrary place is watched),
 * any of the operations may fail. */
#ifdef VP_CBMC
#include "vp.h"
#include <errno.h>
#include <sys/stat.h>
#include "skull/common/malloc.h"
#include "skull/common/io.h"
uint64_t vp_in;
static FILE *g_f, *stderr_; static unsigned g_msg, g_reads; static int vp_errno, g_ioerr; static long g_len, g_pos; static size_t g_got, g_o, g_size; static char g_byte, *g_buf; static bool g_seek0, g_seek1, g_tell, g_opens, g_stat, g_dir; static const char *g_mode; static char g_name[2];
#undef errno
#define errno vp_errno
#undef stderr
#define stderr stderr_
#define fprintf(f, ...) ((void)(f), g_msg++, 0)
#define perror(x) (g_msg++)
#define free(x) ((void)(x))
static int vp_seek(FILE *f, long o, int w) {
	CHECK(f == g_f, "the file");
	if (w == SEEK_END) { CHECK(o == 0, "its end"); if (g_seek1) { errno = g_ioerr; return -1; } g_pos = g_len; return 0; }
	CHECK(w == SEEK_SET && o == 0, "its start"); if (g_seek0) { errno = g_ioerr; return -1; } g_pos = 0; return 0;
}
static long vp_tell(FILE *f) { CHECK(f == g_f, "the file"); if (g_tell) { errno = g_ioerr; return -1; } return g_pos; }
static void vp_rewind(FILE *f) { CHECK(f == g_f, "the file"); g_pos = 0; }
static void *vp_malloc(size_t n) { g_size = n; g_buf = malloc(n); ASSUME(g_buf != NULL); return g_buf; }
static size_t vp_read(void *d, size_t a, size_t n, FILE *f) {
	CHECK(f == g_f && d == g_buf, "the file"); CHECK(a == 1 && n <= g_size, "inside the text"); CHECK(g_pos == 0 && n == (size_t)g_len, "all of it"); g_reads++;
	if (g_got > n) g_got = n;
	if (g_o < g_got) g_buf[g_o] = g_byte;
	if (g_got < n && vp_bool()) errno = g_ioerr;
	return g_got;
}
static FILE *vp_open(const char *f, const char *m) { CHECK(f == g_name, "the file"); CHECK(m[1] == 0 || (m[1] == 'e' && m[2] == 0), "the way it is opened"); CHECK(m[0] == 'r' || m[0] == 'w', "the way it is opened"); g_mode = m[0] == 'r' ? "r" : "w"; if (!g_opens) errno = g_ioerr; return g_opens ? g_f : NULL; }
static int vp_stat(const char *f, struct stat *s) { CHECK(f == g_name, "the file"); if (!g_stat) { errno = g_ioerr; return -1; } s->st_mode = g_dir ? S_IFDIR | 0755 : vp_bool() ? S_IFREG | 0644 : vp_bool() ? S_IFBLK : S_IFIFO; return 0; }
#define fseek vp_seek
#define ftell vp_tell
#define rewind vp_rewind
#define fread vp_read
#define fopen vp_open
#define stat(a, b) vp_stat(a, b)
#define Malloc vp_malloc
#include "loops.h"
#include "skull/common/io.c"
#undef free
void harness(void) {
	g_f = malloc(1); stderr_ = malloc(1); ASSUME(g_f && stderr_); g_name[0] = 'x'; g_msg = g_reads = 0; errno = vp_nd(); g_ioerr = vp_nd(); ASSUME(g_ioerr != 0);
	g_seek0 = vp_bool(); g_seek1 = vp_bool(); g_tell = vp_bool(); g_opens = vp_bool(); g_stat = vp_bool(); g_dir = vp_bool(); g_len = vp_below(1ul << 40); g_pos = 0; g_got = vp_nd(); g_o = vp_nd(); g_byte = vp_nd(); g_size = 0; g_buf = NULL; g_mode = NULL;
#ifdef UNIT_READ
	char *s = file_to_string(g_f);
	const bool io = g_seek1 || g_tell || (g_len && (g_seek0 || g_got < (size_t)g_len));
	CHECK((s != NULL) == (!io && g_len > 0), "a text, exactly if the file was read and is not empty");
	CHECK(s || (errno != 0) == io, "a file that cannot be read is not an empty file");
	CHECK(!io || g_msg > 0, "an error has a message"); CHECK(io || !g_msg, "no message otherwise");
	if (s) { CHECK(s == g_buf && s[g_len] == 0, "the text ends where the file ends"); CHECK(g_o >= (size_t)g_len || s[g_o] == g_byte, "the text is that of the file"); }
#elif defined(UNIT_OPEN)
	const bool ro = vp_bool();
	FILE *r = open_file(g_name, ro);
	CHECK(r == (g_opens ? g_f : NULL) && g_msg == (g_opens ? 0 : 1), "the file, or a message");
	CHECK(g_mode[0] == (ro ? 'r' : 'w'), "read, or replaced");
#else
	CHECK(is_directory(g_name) == (g_stat && g_dir), "a directory is a directory");
#endif
	REACH("the file is used");
}
#endif
