/* C05: the symbol table finds exactly what was entered under a name.  The real
 * skull/common/hashtable.c.  A bucket is an array of unbounded length; g_cmp
 * records, for an arbitrary position G_w, whether its key is the one asked for. */
#ifdef VP_CBMC
#include "vp.h"
#include "skull/common/hashtable.h"
uint64_t vp_in;
static HashTable S_ht; static Vector S_vec, S_newvec; static HashItem S_item, S_new; static char S_key[2], S_other[2]; static int S_data, S_put;
static unsigned g_hash; static size_t G_w, g_len; static bool g_w_match, g_done; static unsigned g_asked; static void *g_found;
static unsigned g_npush;

#ifdef UNIT_HASH
static unsigned ht_hash_key(const char *const key)
ASSIGNS(g_asked) ENSURES(RET < MAX_SLOTS) ;
#else
/* a function of the key only */
static unsigned ht_hash_key(const char *const key)
REQUIRES(key == S_key) ASSIGNS() ENSURES(RET == g_hash) ;
#endif
#ifdef UNIT_GET
/* the data of an entry with that key, nothing if no entry has it */
void *ht_get(const HashTable *const ht, const char *const key)
REQUIRES(key == S_key && (ht == &S_ht || ht == NULL))
ASSIGNS(vp_in, g_asked, g_done, S_item)
ENSURES(RET != NULL ==> ht && g_done && RET == S_item.data)
ENSURES(RET == NULL && ht && S_ht.slots[g_hash] ==> g_asked == S_vec.length && !g_done)
ENSURES(RET == NULL && ht && S_ht.slots[g_hash] && G_w < S_vec.length ==> !g_w_match)
;
#else
void *ht_get(const HashTable *const ht, const char *const key)
REQUIRES(key == S_key && ht == &S_ht) ASSIGNS() ENSURES(__CPROVER_pointer_equals(RET, g_found)) ;
#endif
bool ht_add(HashTable *const ht, const char *const key, void *const ptr)
REQUIRES(key == S_key && (ht == &S_ht || ht == NULL))
ASSIGNS(S_ht, S_new, S_newvec, g_npush)
ENSURES(RET == (ht && ptr && !g_found))
ENSURES(RET ==> g_npush == 1 && S_new.key == S_key && S_new.data == ptr && S_ht.slots[g_hash] != NULL)
ENSURES(RET && OLD(S_ht.slots[g_hash]) ==> S_ht.slots[g_hash] == OLD(S_ht.slots[g_hash]))
ENSURES(!RET ==> g_npush == 0)
ENSURES(G_w < MAX_SLOTS && G_w != g_hash ==> S_ht.slots[G_w & 63] == OLD(S_ht.slots[G_w & 63]))
;
/* contracts of the growable array (C06) */
void *vector_at(const Vector *const v, size_t i) {
	CHECK(v == &S_vec && i < S_vec.length, "an entry of the bucket");
	CHECK(i == g_asked, "every entry is looked at, in order");
	S_item.data = &S_data; S_item.key = S_other; return &S_item;
}
void vector_push(Vector *v, void *p) { CHECK(v == S_ht.slots[g_hash] && p == &S_new, "the new entry, in the bucket of its key"); g_npush++; }
void *vector_pop(Vector *v) { (void)v; return NULL; }
Vector *make_vector(void) { S_newvec.length = 0; return &S_newvec; }
void free_vector2(Vector *v, void (*f)(void (*)(void *), void *), void (*g)(void *)) { (void)v; (void)f; (void)g; }
static int vp_strcmp(const char *a, const char *b) {
	CHECK((a == S_other && b == S_key) || (b == S_other && a == S_key), "the key of the entry is compared with the one asked for");
	bool m = g_asked == G_w ? g_w_match : vp_bool();
	g_asked++; if (m) { g_done = true; return 0; }
	return vp_bool() ? 1 : -1;
}
static size_t vp_strlen(const char *s) { (void)s; return g_len; }
#define strcmp vp_strcmp
#define strlen vp_strlen
#include "skull/common/malloc.h"
static void *vp_alloc(size_t n) { CHECK(n == sizeof(HashItem) || n == sizeof(HashTable), "an entry"); S_new = (HashItem){0}; return &S_new; }
#define Calloc(n, s) vp_alloc((n) * (s))
#define free(p) ((void)(p))
#define LOOP_CONTRACT_hash(i, hash) ASSIGNS(i, hash) INVARIANT(i <= len) DECREASES(len - i)
#define LOOP_CONTRACT_bucket(i) ASSIGNS(i, vp_in, g_asked, g_done, S_item) INVARIANT(i <= S_vec.length && g_asked == i && !g_done && (i > G_w ==> !g_w_match)) DECREASES(S_vec.length - i)
#include "loops.h"
#include "skull/common/hashtable.c"

void harness(void) {
	g_hash = (unsigned)vp_below(MAX_SLOTS); G_w = (size_t)vp_nd(); g_w_match = vp_bool(); g_done = false; g_asked = 0; g_npush = 0;
	S_vec.length = (size_t)vp_below(UINT32_MAX); S_vec.max = S_vec.length;
	for (unsigned k = 0; k < MAX_SLOTS; k++) S_ht.slots[k] = NULL;
	S_ht.slots[g_hash] = vp_bool() ? &S_vec : NULL;
	g_found = vp_bool() ? &S_data : NULL;
#ifdef UNIT_HASH
	g_len = vp_below(1ul << 31); char *key = VP_MALLOC(g_len + 1);
	ht_hash_key(key);
#elif defined(UNIT_GET)
	ht_get(vp_bool() ? &S_ht : NULL, S_key);
#else
	ht_add(&S_ht, S_key, vp_bool() ? &S_put : NULL);
#endif
	REACH("the checked function returns");
}
#endif

#ifdef VP_NATIVE
#include "vp.h"
#include "loops.h"
#include "skull/common/malloc.c"
#include "skull/common/vector.c"
#include "skull/common/hashtable.c"
enum { NOPS = 80 };
void bharness(void) {
	HashTable *h = make_ht();
	static char keys[NOPS][6]; void *vals[NOPS]; size_t n = 0;
	unsigned ops = (unsigned)vp_below(NOPS + 1);
	for (unsigned i = 0; i < ops; i++) {
		char k[6] = {0};
		unsigned len = 1 + (unsigned)vp_below(5);
		for (unsigned j = 0; j < len; j++) k[j] = (char)("abcdxyz_9A\xc3\xa9"[vp_below(12)]);
		void *want = NULL; for (size_t j = 0; j < n; j++) if (!strcmp(keys[j], k)) want = vals[j];
		vp_note("key %s\n", k);
		CHECK(ht_get(h, k) == want, "look-up yields what was entered under the name, or nothing");
		void *v = vp_below(9) ? (void *)(uintptr_t)(1 + i) : NULL;
		strcpy(keys[n], k);
		bool r = ht_add(h, keys[n], v);
		CHECK(r == (!want && v), "a new name is entered, an existing one refused");
		if (r) vals[n++] = v;
		CHECK(ht_get(h, k) == (want ? want : v), "look-up after entry");
	}
	for (size_t j = 0; j < n; j++) CHECK(ht_get(h, keys[j]) == vals[j], "all entries are found");
	free_ht(h, NULL);
}
#endif
