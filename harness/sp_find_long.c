/* C14: long string and key-value lists: scripted contents with a few arbitrary characters, changed, looked up, duplicated and released */
#include "vp.h"
#include "long.h"
#include "stringptrlist.h"
#include "kvlist.h"
static int beq(const char *a, const char *b, size_t n) { int r = 1; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static stringptr mk(unsigned n, unsigned kind) { stringptr s = { vp_block(n), n }; for(unsigned i = 0; i < n; i++) s.ptr[i] = kind ? "abcabd"[(i + kind) % 6] : "ab"[i & 1]; if(n) s.ptr[n - 1] = 'a' + rnd(20); return s; }
static int cmp(const void *a, const void *b) { const stringptr *x = a, *y = b; return x->size < y->size ? -1 : x->size > y->size; }
void harness(void) {
	static stringptr it[PEAK + 2]; static char tag[PEAK + 2]; static void *val[PEAK + 2]; unsigned i, j, n = PEAK; seed();
#if MODE == 0
	stringptrlist *l = stringptrlist_new(3); kvlist *v = kv_new(3);
	for(i = 0; i < n; i++) { it[i] = rnd(5) || !i ? mk(rnd(18), rnd(3)) : it[rnd(i)]; val[i] = &tag[i]; CHECK(stringptrlist_add(l, it[i].ptr, it[i].size) && kv_add(v, it[i].ptr, it[i].size, val[i]), "add"); }
	for(i = 0; i < n; i++) if(rnd(8) == 0 && it[i].size) it[i].ptr[rnd(it[i].size)] = vp_u8(); /* some arbitrary characters */
	for(j = 0; j < STEPS; j++) {
		unsigned p = rnd(n), q = rnd(n);
		if(rnd(4) == 0) { it[p] = it[q]; val[p] = &tag[rnd(n)]; CHECK(stringptrlist_set(l, p, it[p].ptr, it[p].size) && kv_set(v, p, it[p].ptr, it[p].size, val[p]), "an item is replaced"); }
		stringptr w = it[p]; unsigned how = rnd(5);
		if(how == 1 && w.size) w.size--; else if(how == 2 && w.size) { w = (stringptr){ vp_block(w.size), w.size }; memcpy(w.ptr, it[p].ptr, w.size); w.ptr[rnd(w.size)] = vp_u8(); }
		else if(how == 3) { w = (stringptr){ vp_block(w.size + 1), w.size + 1 }; memcpy(w.ptr, it[p].ptr, w.size - 1); w.ptr[w.size - 1] = "abc"[rnd(3)]; } else if(how == 4) { w = (stringptr){ vp_block(w.size), w.size }; memcpy(w.ptr, it[p].ptr, w.size); }
		ssize_t f = -1; for(i = 0; i < n && f < 0; i++) if(it[i].size == w.size && beq(it[i].ptr, w.ptr, w.size)) f = i;
		vp_obs(f); void *x = &w;
		CHECK(stringptrlist_find(l, &w) == f && !!stringptrlist_contains(l, &w) == (f >= 0), "the first equal item is found");
		CHECK(!!kv_find(v, &w, &x) == (f >= 0) && x == (f >= 0 ? val[f] : (void*)&w), "the value of the first equal key is found");
	}
	for(i = 0; i < n; i++) { stringptr *s = stringptrlist_get(l, i); stringptrv *t = kv_get(v, i); CHECK(s->ptr == it[i].ptr && s->size == it[i].size && t->ptr == it[i].ptr && t->size == it[i].size && t->value == val[i], "the items are as stored"); }
	CHECK(!stringptrlist_set(l, n, 0, 0) && !kv_set(v, n, 0, 0, 0) && stringptrlist_getsize(l) == n && kv_getsize(v) == n && !stringptrlist_get(l, n) && !kv_get(v, n), "nothing behind the last item");
	stringptrlist_free(l); kv_free(v);
#elif MODE == 1
	/* inserted at a position, or by size into a sorted list; private copies, released exactly once */
	stringptrlist *l = stringptrlist_new(4); unsigned sorted = vp_choose(2); n = 0; int r;
	for(j = 0; j < PEAK; j++) {
		stringptr s = mk(rnd(12), rnd(3)); unsigned p = rnd(n + 1);
		if(s.size) s.ptr[0] = vp_u8();
		if(sorted) { r = (int) stringptrlist_insert_sorted(l, s.ptr, s.size, cmp); CHECK(r >= 0 && r <= (int)n, "inserted"); p = r; }
		else { r = stringptrlist_insert(l, p, s.ptr, s.size); CHECK(r, "inserted"); }
		for(i = n; i > p; i--) it[i] = it[i-1]; it[p] = s; n++;
		if(sorted) CHECK((p == 0 || it[p-1].size <= s.size) && (p + 1 >= n || it[p+1].size >= s.size), "the list stays sorted");
	}
	for(i = 0; i < n; i++) { stringptr *s = stringptrlist_get(l, i); CHECK(s->ptr == it[i].ptr && s->size == it[i].size, "the items are in order"); }
	static const unsigned at[] = { 1, 2, 7, PEAK, PEAK + 1 }; vp_nalloc = 0; vp_oom_at = at[vp_choose(5)]; vp_oom_len = 1; vp_oom = 2;
	ssize_t d = stringptrlist_dup_entries(l); vp_oom = 0; unsigned good = d == -1 ? n : (unsigned)d;
	CHECK(d == -1 ? vp_nfail == 0 : vp_nfail == 1 && d < (ssize_t)n, "fails exactly when memory is missing"); CHECK(good == (vp_oom_at > PEAK ? n : vp_oom_at - 1), "all entries before the failure are duplicated");
	for(i = 0; i < n; i++) { stringptr *s = stringptrlist_get(l, i); CHECK(s->size == it[i].size && beq(s->ptr, it[i].ptr, s->size) && (s->ptr != it[i].ptr) == (i < good), "the entries keep their contents"); if(i >= good) s->ptr = 0; }
	CHECK(stringptrlist_add_strdup(l, &it[0]), "a copy is added"); CHECK(beq(stringptrlist_get(l, n)->ptr, it[0].ptr, it[0].size), "with the same contents");
	stringptrlist_freeall(l);
#endif
	CHECK(vp_live == 0, "everything is released");
	vp_done();
}
