/* C14: list lookups return the first item equal to the needle; freeing and duplicating entries are exact. */
#include "vp.h"
#include "stringptrlist.h"
#include "kvlist.h"
#include "stringlist.h"
static int beq(const char *a, const char *b, size_t n) { int r = 1; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static stringptr sp(unsigned max) { unsigned n = vp_choose(max + 1); stringptr s = { vp_block(n), n }; vp_bytes(s.ptr, n); return s; }
#define VAL(i) ((i) == nul ? 0 : (void*)&tag[i]) /* a stored value may be NULL */
void harness(void) {
#if MODE == 0
	unsigned k = vp_choose(K + 1); stringptr it[K]; stringptrlist *l = stringptrlist_new(2); kvlist *v = kv_new(2); char tag[K]; unsigned nul = vp_choose(2) ? 0 : K;
	for(unsigned i = 0; i < k; i++) { it[i] = sp(2); vp_readonly(it[i].ptr); CHECK(stringptrlist_add(l, it[i].ptr, it[i].size) && kv_add(v, it[i].ptr, it[i].size, VAL(i)), "add"); }
	stringptr w = sp(2); ssize_t f = -1; for(int i = (int)k - 1; i >= 0; i--) if(it[i].size == w.size && beq(it[i].ptr, w.ptr, w.size)) f = i;
	CHECK(stringptrlist_find(l, &w) == f, "find returns the first equal item or -1"); CHECK(!!stringptrlist_contains(l, &w) == (f >= 0), "contains is exact");
	void *val = &w; int r = kv_find(v, &w, &val); CHECK(!!r == (f >= 0), "kv_find is exact"); CHECK(val == (f >= 0 ? VAL(f) : (void*)&w), "kv_find gives the value of the first equal key, or nothing");
	CHECK(stringptrlist_find(0, &w) == -1 && stringptrlist_find(l, 0) == -1 && !kv_find(0, &w, &val) && !kv_find(v, 0, &val) && !kv_find(v, &w, 0), "NULL arguments find nothing");
	stringptrlist_free(l); kv_free(v); CHECK(vp_live == 0, "no leak");
#else /* owned strings under allocation failure */
	stringptrlist *l = stringptrlist_new(1); unsigned k = vp_choose(4), n = 0; stringptr it[3]; long live; vp_oom = 1; unsigned op = vp_choose(2);
	if(op == 0) {
		for(unsigned i = 0; i < k; i++) { it[n] = sp(2); live = vp_live; unsigned f0 = vp_nfail; int r = stringptrlist_add_strdup(l, &it[n]); CHECK(!!r == (vp_nfail == f0), "add_strdup fails exactly when memory is missing"); if(r) n++; }
		CHECK(stringptrlist_getsize(l) == n, "only successful adds count");
		for(unsigned i = 0; i < n; i++) { stringptr *s = stringptrlist_get(l, i); CHECK(s->ptr != it[i].ptr && s->size == it[i].size && beq(s->ptr, it[i].ptr, s->size) && s->ptr[s->size] == 0, "items are private terminated copies"); }
		(void)live;
	} else {
		vp_oom = 0; for(n = 0; n < k; n++) { it[n] = sp(1); vp_readonly(it[n].ptr); stringptrlist_add(l, it[n].ptr, it[n].size); } vp_oom = 1;
		ssize_t r = stringptrlist_dup_entries(l); CHECK((r == -1) == (vp_nfail == 0) && r < (ssize_t)k, "dup_entries returns -1 exactly on success");
		unsigned good = r == -1 ? k : (unsigned)r; for(unsigned i = 0; i < k; i++) { stringptr *s = stringptrlist_get(l, i); CHECK(s->size == it[i].size && beq(s->ptr, it[i].ptr, s->size), "items keep their content"); CHECK((s->ptr != it[i].ptr) == (i < good), "exactly the items before the returned index are duplicated"); if(i >= good) s->ptr = 0; }
	}
	if(vp_choose(2)) { stringptrlist_freestrings(l); for(unsigned i = 0; i < stringptrlist_getsize(l); i++) CHECK(stringptrlist_get(l, i)->ptr == 0 && stringptrlist_get(l, i)->size == 0, "freestrings clears the items"); }
	stringptrlist_freeall(l); stringptrlist_freeall(0); CHECK(vp_live == 0, "freeall releases the strings and the list, failed operations leak nothing");
	/* stringlist.h */
	vp_oom = 1; vp_nfail = 0; stringlist *sl = stringlist_new(1); if(!sl) vp_done(); char *a = vp_str(2); int r = stringlist_add_dup(sl, a); CHECK(r == (vp_nfail == 0), "add_dup fails exactly when memory is missing"); if(r) { char *g = stringlist_get(sl, 0); CHECK(g != a && !strcmp(g, a), "private copy"); free(g); } CHECK(stringlist_get(sl, 1) == 0, "past the end"); stringlist_free(sl); CHECK(vp_live == 0, "no leak");
#endif
	vp_done();
}
