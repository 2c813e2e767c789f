/* C02: with any allocation failing at any point, containers report the failure, keep their content and leak nothing. */
#include "vp.h"
#ifdef TGI
#define BMAP_USE_TGILIST
#endif
#include "sblist.h"
#include "tlist.h"
#include "hashlist.h"
#include "hbmap.h"
#include "tgilist.h"
static int cmpi(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static int cmpr(const void *a, const void *b, void *c) { (void)c; return cmpi(a, b); }
static unsigned hashi(const int k) { return k; }
static int model[K + 1]; static size_t n; static int allfail;
static void mins(size_t p, int v) { memmove(model + p + 1, model + p, (n - p) * sizeof(int)); model[p] = v; n++; }
void harness(void) {
	vp_oom = 1;
#if T == 0
	sblist *l = sblist_new(sizeof(int), 1 + vp_choose(2)); CHECK((l == 0) == (vp_nfail > 0), "new fails exactly when memory is missing"); if(!l) vp_done();
	for(int k = 0; k < K; k++) { int v = vp_u32(); unsigned op = vp_choose(2), f0 = vp_nfail; size_t p;
		if(op == 0) { int r = sblist_add(l, &v); CHECK(r == (vp_nfail == f0), "add reports failure exactly when memory is missing"); if(r) mins(n, v); }
		else { p = vp_choose(n + 1); int r = sblist_insert(l, &v, p); CHECK(r == (vp_nfail == f0), "insert reports failure exactly when memory is missing"); if(r) mins(p, v); }
		CHECK(sblist_getsize(l) == n, "size unchanged by failed operations"); }
	for(size_t i = 0; i < n; i++) CHECK(*(int*)sblist_get(l, i) == model[i], "content unchanged by failed operations");
	sblist_free(l);
#elif T == 1
	sblist l_, *l = &l_; sblist_init(l, sizeof(int), 1);
	for(int k = 0; k < K; k++) { int v = vp_u32(); unsigned op = vp_choose(3), f0 = vp_nfail; if(op && n) vp_assume(1); size_t p;
		if(op == 0) { v = 0x7fffffff; p = sblist_addi(l, &v); CHECK((p == (size_t)-1) == (vp_nfail != f0), "addi returns -1 exactly when memory is missing"); }
		else if(op == 1) { vp_assume(v != 0x7fffffff); p = sblist_insert_sorted(l, &v, cmpi); CHECK((p == (size_t)-1) == (vp_nfail != f0), "sorted insert returns -1 exactly when memory is missing"); }
		else { vp_assume(v != 0x7fffffff); p = sblist_insert_sorted_r(l, &v, cmpr, 0); CHECK((p == (size_t)-1) == (vp_nfail != f0), "sorted insert returns -1 exactly when memory is missing"); }
		if(p != (size_t)-1) { CHECK(p <= n, "valid index"); mins(vp_split(p), v); }
		CHECK(sblist_getsize(l) == n, "size unchanged by failed operations"); }
	for(size_t i = 0; i < n; i++) CHECK(*(int*)sblist_get(l, i) == model[i], "content unchanged by failed operations");
	sblist_free_items(l);
#elif T == 2
	tglist(int) *l = tglist_new(); CHECK((l == 0) == (vp_nfail > 0), "new fails exactly when memory is missing"); if(!l) vp_done();
	for(int k = 0; k < K; k++) { int v = vp_u32(); unsigned op = n < 3 ? 0 : vp_choose(3), f0 = vp_nfail; size_t p; int r;
		if(op == 0) { v = k; r = tglist_add(l, v); if(r) mins(n, v); } else if(op == 1) { p = vp_choose(n + 1); v = p ? model[p-1] : -1; r = tglist_insert(l, v, p); if(r) mins(p, v); }
		else { p = tglist_insert_sorted(l, v, cmpi); r = p != (size_t)-1; if(r) { CHECK(p <= n, "valid index"); mins(vp_split(p), v); } }
		CHECK(!!r == (vp_nfail == f0), "failure is reported exactly when memory is missing"); CHECK(tglist_getsize(l) == n, "size unchanged by failed operations"); }
	for(size_t i = 0; i < n; i++) CHECK(tglist_get(l, i) == model[i], "content unchanged by failed operations");
	tglist_free(l);
#elif T == 3
	tgilist(int, unsigned) *l = tgilist_new(); CHECK((l == 0) == (vp_nfail > 0), "new fails exactly when memory is missing"); if(!l) vp_done();
	for(int k = 0; k < K; k++) { int v = vp_u32(); unsigned op = n < 3 ? 0 : vp_choose(2), f0 = vp_nfail; size_t p; int r;
		if(op == 0) { r = tgilist_add(l, v); if(r) mins(n, v); } else { p = vp_choose(n + 1); r = tgilist_insert(l, v, p); if(r) mins(p, v); }
		CHECK(!!r == (vp_nfail == f0), "failure is reported exactly when memory is missing"); CHECK(tgilist_getsize(l) == n, "size unchanged by failed operations"); }
	for(size_t i = 0; i < n; i++) CHECK(tgilist_get(l, i) == model[i], "content unchanged by failed operations");
	tgilist_free(l);
#elif T == 4 || T == 5
#if T == 4
	bmap(int, long) *m = bmap_new(cmpi); typedef ssize_t pos_t;
#define FN(x) bmap_##x
#else
	hbmap(int, long, 2) *m = hbmap_new(cmpi, (void*)hashi, 2); typedef hbmap_iter pos_t;
#define FN(x) hbmap_##x
#endif
	CHECK((m == 0) == (vp_nfail > 0), "new fails exactly when memory is missing"); if(!m) vp_done();
	for(int k = 0; k < K; k++) { int key = k * 2; unsigned f0 = vp_nfail; long v = vp_u32(); pos_t p;
		if(vp_choose(2)) p = FN(insert)(m, key, v); else p = FN(insert_nocheck)(m, key, v);
		CHECK((p == (pos_t)-1) == (vp_nfail != f0), "insert returns -1 exactly when memory is missing");
		if(p == (pos_t)-1) { CHECK(!FN(contains)(m, key), "a failed insert leaves the key absent"); } else { model[n++] = key; long *g = FN(get)(m, key); CHECK(g && *g == v, "an inserted key is present"); } }
	for(size_t i = 0; i < n; i++) CHECK(FN(contains)(m, model[i]), "content unchanged by failed operations");
#if T == 4
	CHECK((size_t)bmap_getsize(m) == n, "size unchanged by failed operations");
#endif
	FN(fini)(m, 0); free(m);
#elif T == 6
	tlist *l = tlist_new(sizeof(int)); CHECK((l == 0) == (vp_nfail > 0), "new fails exactly when memory is missing"); if(!l) vp_done();
	for(int k = 0; k < K; k++) { int v = vp_u32(); unsigned f0 = vp_nfail; size_t p = vp_choose(n + 1); int r = tlist_insert(l, p, &v); CHECK(r == (vp_nfail == f0), "insert reports failure exactly when memory is missing"); if(r) mins(p, v);
		CHECK(tlist_getsize(l) == n, "size unchanged by failed operations"); }
	for(size_t i = 0; i < n; i++) CHECK(*(int*)tlist_get(l, i) == model[i], "content unchanged by failed operations");
	tlist_free(l);
#elif T == 7
	hashlist *h = hashlist_new(3, sizeof(int)); CHECK((h == 0) == (vp_nfail > 0), "new fails exactly when memory is missing"); if(!h) { CHECK(vp_live == 0, "failed new leaks nothing"); vp_done(); }
	for(int k = 0; k < K; k++) { uint32_t hs = vp_choose(3); int v = k; unsigned f0 = vp_nfail; int r = hashlist_add(h, hs, &v); CHECK(r == (vp_nfail == f0 ? 0 : -1), "add returns -1 exactly when memory is missing"); if(!r) model[n++] = v; }
	unsigned c = 0; hashlist_iterator it; hashlist_iterator_init(&it); int *p; while(c <= n && (p = hashlist_next(h, &it))) c++; CHECK(c == n, "exactly the successfully added values are there");
	hashlist_free(h);
#elif T == 8
	unsigned char *d = vp_block(4); sblist *l = sblist_new_from_data(2, d, 4); CHECK((l == 0) == (vp_nfail > 0), "new_from_data fails exactly when memory is missing"); if(l) { CHECK(sblist_getsize(l) == 2, "size"); free(l); }
#endif
	CHECK(vp_live == 0, "nothing leaks");
	vp_done();
}
