/* C06: the growable array behaves as a sequence.  Contracts on every public
 * operation of skull/common/vector.c (real code), plus Malloc/Calloc/Realloc
 * (real code of malloc.c). */
#include "vp.h"
#include "loops.h"
#include "skull/common/malloc.c"
#include "skull/common/vector.c"

#ifdef VP_CBMC
#ifndef VP_BOUNDED
uint64_t vp_in;

/* ghost: an arbitrary index (universally quantified by being unconstrained),
 * the vector and its state before the call */
size_t G_k, G_len, G_max; void *G_at_k; void **G_elems; bool G_frozen;

/* representation invariant */
static bool vec_ok(const Vector *v) {
	return v->max >= VECTOR_START_MAX && v->length <= v->max &&
		(v->elements ? __CPROVER_OBJECT_SIZE(v->elements) == v->max * sizeof(void *)
			&& __CPROVER_POINTER_OFFSET(v->elements) == 0 : v->length == 0 && v->max == VECTOR_START_MAX);
}
/* the abstract sequence is unchanged */
static bool same_seq(const Vector *v) {
	return v->length == G_len && v->elements == G_elems && (G_k < G_len ? v->elements[G_k] == G_at_k : true);
}

void vector_push(Vector *v, void *ptr)
REQUIRES(vec_ok(v) && v->max <= ((size_t)1 << 40))
ASSIGNS(*v; v->elements && v->length < v->max: v->elements[v->length])
FREES(v->elements)
ENSURES(G_frozen ==> (same_seq(v) && v->is_frozen))
ENSURES(!G_frozen ==> (v->length == G_len + 1 && vec_ok(v) && !v->is_frozen))
ENSURES(!G_frozen ==> v->elements != NULL)
ENSURES(!G_frozen ==> v->elements[G_len] == ptr)
ENSURES(!G_frozen && G_k < G_len ==> v->elements[G_k] == G_at_k)
;

void *vector_pop(Vector *v)
REQUIRES(vec_ok(v))
ASSIGNS(v->length)
ENSURES((G_frozen || G_len == 0) ==> (RET == NULL && same_seq(v)))
ENSURES((!G_frozen && G_len > 0) ==> (v->length == G_len - 1 && v->elements == G_elems && vec_ok(v)))
ENSURES((!G_frozen && G_len > 0 && G_k == G_len - 1) ==> RET == G_at_k)
ENSURES((!G_frozen && G_len > 0 && G_k < G_len - 1) ==> v->elements[G_k] == G_at_k)
;

void *vector_at(const Vector *const v, size_t index)
REQUIRES(vec_ok(v))
ASSIGNS()
ENSURES(index >= G_len ==> RET == NULL)
ENSURES((index < G_len && index == G_k) ==> RET == G_at_k)
;

Vector *make_vector(void)
ASSIGNS()
ENSURES(RET != NULL && vec_ok(RET) && RET->length == 0 && !RET->is_frozen)
;

void *vector_freeze(Vector *v)
REQUIRES(vec_ok(v))
ASSIGNS(v->is_frozen)
ENSURES(v->is_frozen && RET == G_elems && same_seq(v))
;

static Vector *mk(void) {
	Vector *v = VP_MALLOC(sizeof *v);
	v->max = vp_nd(); v->length = vp_nd(); v->is_frozen = vp_bool();
	ASSUME(v->max >= VECTOR_START_MAX && v->max <= ((size_t)1 << 40) && v->length <= v->max);
	if (vp_bool()) v->elements = VP_MALLOC(v->max * sizeof(void *));
	else { v->elements = NULL; ASSUME(v->length == 0 && v->max == VECTOR_START_MAX); }
	G_k = vp_nd(); G_len = v->length; G_max = v->max; G_elems = v->elements; G_frozen = v->is_frozen;
	G_at_k = v->elements && G_k < G_len ? v->elements[G_k] : NULL;
	return v;
}
void harness(void) {
#if defined(OP_PUSH)
	Vector *v = mk(); vector_push(v, (void *)vp_nd());
#elif defined(OP_POP)
	Vector *v = mk(); vector_pop(v);
#elif defined(OP_AT)
	Vector *v = mk(); vector_at(v, vp_nd());
#elif defined(OP_MAKE)
	make_vector();
#elif defined(OP_FREEZE)
	Vector *v = mk(); vector_freeze(v);
#endif
	REACH("vector operation returns");
}
#endif
#endif

#if defined(VP_NATIVE) || defined(VP_BOUNDED)
#ifdef VP_CBMC
uint64_t vp_in;
enum { NOPS = 10 };
#else
enum { NOPS = 60 };
#endif
/* histories of operations against an array model */
static unsigned freed;
static void count_free(void *p) { freed++; (void)p; }
void bharness(void) {
	Vector *v = make_vector();
	void *model[NOPS]; size_t n = 0; bool frozen = false;
	unsigned ops = (unsigned)vp_below(NOPS + 1);
	for (unsigned i = 0; i < ops; i++) {
		switch (vp_below(8)) {
			case 0: case 1: case 2: case 3: {
				void *p = (void *)(uintptr_t)vp_nd();
				vector_push(v, p); vp_note("push(%p)\n", p);
				if (!frozen) model[n++] = p;
				break;
			}
			case 4: case 5: {
				void *p = vector_pop(v); vp_note("pop() = %p\n", p);
				if (frozen || !n) CHECK(p == NULL, "pop of an empty or frozen vector is NULL");
				else { n--; CHECK(p == model[n], "pop returns the last element pushed"); }
				break;
			}
			case 6: {
				size_t at = vp_below(NOPS + 2);
				void *p = vector_at(v, at); vp_note("at(%zu) = %p\n", at, p);
				CHECK(p == (at < n ? model[at] : NULL), "at returns the element at that index, NULL out of bounds");
				break;
			}
			default: if (vp_below(4) == 0) {
				void **a = vector_freeze(v); frozen = true; vp_note("freeze\n");
				for (size_t k = 0; k < n; k++) CHECK(a[k] == model[k], "frozen array holds the sequence");
			}
		}
		CHECK(v->length == n, "length is the number of elements");
		for (size_t k = 0; k < n; k++) CHECK(vector_at(v, k) == model[k], "elements keep their position");
	}
	void **elems = v->elements;
	freed = 0;
	free_vector(v, count_free);
	CHECK(freed == n, "every element is released exactly once");
	if (frozen) free(elems);
}
#endif
