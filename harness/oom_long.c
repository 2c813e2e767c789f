/* C02: long histories (scripted operations, symbolic data) with any one or two successive allocations failing, for every container. */
#define _GNU_SOURCE
#include "vp.h"
#ifdef TGI
#define BMAP_USE_TGILIST
#endif
#include "sblist.h"
#include "tlist.h"
#include "hashlist.h"
#include "hbmap.h"
#include "tgilist.h"
#include "stringptrlist.h"
#include "stringlist.h"
#include "kvlist.h"
#include "sptrlist.h"
#include "long.h"
typedef struct { uint32_t a; unsigned char b; } ent;
static ent model[PEAK + 40]; static size_t n;
static void mins(size_t p, ent v) { memmove(model + p + 1, model + p, (n - p) * sizeof v); model[p] = v; n++; }
static void mdel(size_t p) { memmove(model + p, model + p + 1, (n - p - 1) * sizeof *model); n--; }
static int cmp(const void *a, const void *b) { uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b; return (x > y) - (x < y); }
static int mfind(uint32_t k) { for(size_t i = 0; i < n; i++) if(model[i].a == k) return i; return -1; }
static unsigned hash(const uint32_t k) { return k * 2654435761u; }
#define FAILED (vp_nfail != f0)
void harness(void) {
	seed(); vp_oom_len = 1 + vp_choose(2); vp_oom_at = 1 + vp_choose(ALLOCS); vp_oom = 2;
	unsigned f0 = 0;
#if T == 0
	sblist *c = sblist_new(sizeof(ent), BI);
#elif T == 1
	tglist(ent) *c = tglist_new();
#elif T == 2
	tgilist(ent, unsigned) *c = tgilist_new();
#elif T == 3
	bmap(uint32_t, unsigned char) *c = bmap_new(cmp); typedef ssize_t pos_t;
#define FN(x) bmap_##x
#elif T == 4
	hbmap(uint32_t, unsigned char, 5) *c = hbmap_new(cmp, (void*)hash, 5); typedef hbmap_iter pos_t;
#define FN(x) hbmap_##x
#elif T == 5
	tlist *c = tlist_new(sizeof(ent));
#elif T == 6
	hashlist *c = hashlist_new(7, sizeof(ent));
#elif T == 7
	stringptrlist *c = stringptrlist_new(BI);
#elif T == 8
	stringlist *c = stringlist_new(BI);
#else
	sptrlist *c = sptrlist_new(BI); static char cell[300];
#endif
	CHECK((c == 0) == (vp_nfail > 0), "creation fails exactly when memory is missing");
	if(!c) { CHECK(vp_live == 0, "failed creation leaks nothing"); vp_done(); }
	for(int k = 0; k < STEPS; k++) {
		ent v; memset(&v, 0, sizeof v); v.a = rnd(4096) * 16 + rnd(2); v.b = vp_u8(); f0 = vp_nfail; int grow = grow_step(n); size_t p = rnd(n + 1);
#if T <= 2
#if T == 0
#define ADD sblist_add(c, &v)
#define INS sblist_insert(c, &v, p)
#define DEL sblist_delete(c, p)
#define AT(i) (*(ent*)sblist_get(c, i))
#define SIZE sblist_getsize(c)
#elif T == 1
#define ADD tglist_add(c, v)
#define INS tglist_insert(c, v, p)
#define DEL tglist_delete(c, p)
#define AT(i) tglist_get(c, i)
#define SIZE tglist_getsize(c)
#else
#define ADD tgilist_add(c, v)
#define INS tgilist_insert(c, v, p)
#define DEL tgilist_delete(c, p)
#define AT(i) tgilist_get(c, i)
#define SIZE tgilist_getsize(c)
#endif
		if(grow) { int r; if(rnd(2)) { r = ADD; p = n; } else r = INS; CHECK(!!r == !FAILED, "failure is reported exactly when memory is missing"); if(r) mins(p, v); }
		else if(p < n) { DEL; mdel(p); }
		CHECK(SIZE == n, "size unchanged by failed operations"); int ok = 1; if(FAILED || k % 16 == 0 || k == STEPS - 1) for(size_t i = 0; i < n; i++) ok &= AT(i).a == model[i].a & AT(i).b == model[i].b; CHECK(ok, "content unchanged by failed operations");
#elif T <= 4
		int j = n && rnd(2) ? rnd(n) : mfind(v.a); if(j >= 0) v.a = model[j].a; uint32_t key = v.a;
		if(grow) { pos_t q; if(j < 0 && rnd(2)) q = FN(insert_nocheck)(c, key, v.b); else q = FN(insert)(c, key, v.b); CHECK((q == (pos_t)-1) == FAILED, "insert returns -1 exactly when memory is missing"); if(q == (pos_t)-1) CHECK(!FN(contains)(c, key), "a failed insert leaves the key absent"); else if(j < 0) mins(n, v); else model[j] = v; }
		else if(j >= 0) { pos_t q = FN(find)(c, key); CHECK(q != (pos_t)-1, "present keys are found"); FN(delete)(c, q); mdel(j); }
		int ok = 1; if(FAILED || k % 16 == 0 || k == STEPS - 1) for(size_t i = 0; i < n; i++) { uint32_t w = model[i].a; unsigned char *g = FN(get)(c, w); CHECK(g != 0, "content unchanged by failed operations"); ok &= *g == model[i].b; } CHECK(ok, "content unchanged by failed operations");
#if T == 3
		CHECK((size_t)bmap_getsize(c) == n, "size unchanged by failed operations");
#endif
#elif T == 5
		if(grow) { int r; if(rnd(2)) { r = tlist_append(c, &v); p = n; } else r = tlist_insert(c, p, &v); CHECK(r == !FAILED, "failure is reported exactly when memory is missing"); if(r) mins(p, v); }
		else { CHECK(tlist_delete(c, p) == (p < n), "deletion succeeds"); if(p < n) mdel(p); }
		CHECK(tlist_getsize(c) == n, "size unchanged by failed operations"); int ok = 1; if(FAILED || k % 16 == 0 || k == STEPS - 1) for(size_t i = 0; i < n; i++) { ent *g = tlist_get(c, i); CHECK(g != 0, "content unchanged by failed operations"); ok &= g->a == model[i].a & g->b == model[i].b; } CHECK(ok, "content unchanged by failed operations");
#elif T == 6
		if(n >= PEAK) continue; v.a = n; int r = hashlist_add(c, rnd(30), &v); CHECK(r == (FAILED ? -1 : 0), "add returns -1 exactly when memory is missing"); if(!r) mins(n, v);
		if(FAILED || k % 16 == 0 || k == STEPS - 1) { size_t cnt = 0; static unsigned char seen[PEAK + 40]; memset(seen, 0, sizeof seen); hashlist_iterator it; hashlist_iterator_init(&it); ent *q; int ok = 1; while(cnt <= n && (q = hashlist_next(c, &it))) { CHECK(q->a < n && !seen[q->a], "values stay distinct"); seen[q->a] = 1; ok &= q->b == model[q->a].b; cnt++; } CHECK(ok & cnt == n, "exactly the successfully added values are there"); }
#elif T == 7 || T == 8
		char buf[4]; unsigned len = rnd(4); memset(buf, 0, 4); for(unsigned i = 0; i < len; i++) { buf[i] = vp_u8(); vp_assume(buf[i] != 0); }
		memcpy(&v.a, buf, 4); v.b = len;
#if T == 7
		if(grow) { stringptr s = { buf, len }; int r = stringptrlist_add_strdup(c, &s); CHECK(!!r == !FAILED, "failure is reported exactly when memory is missing"); if(r) mins(n, v); }
		else if(p < n) { free(stringptrlist_get(c, p)->ptr); sblist_delete(c, p); mdel(p); }
#define STR(i) stringptrlist_get(c, i)->ptr
#else
		if(grow) { int r = stringlist_add_dup(c, buf); CHECK(!!r == !FAILED, "failure is reported exactly when memory is missing"); if(r) mins(n, v); }
		else if(p < n) { free(stringlist_get(c, p)); stringlist_delete(c, p); mdel(p); }
#define STR(i) stringlist_get(c, i)
#endif
		CHECK(sblist_getsize(c) == n, "size unchanged by failed operations"); int ok = 1; if(FAILED || k % 16 == 0 || k == STEPS - 1) for(size_t i = 0; i < n; i++) { char *g = STR(i); CHECK(g && vp_valid(g, model[i].b + 1), "strings stay allocated"); for(unsigned x = 0; x <= model[i].b; x++) ok &= g[x] == ((char*)&model[i].a)[x]; 
#if T == 7
			CHECK(stringptrlist_get(c, i)->size == model[i].b, "sizes");
#endif
		} CHECK(ok, "content unchanged by failed operations");
#else
		void *q = cell + (v.a & 255); if(grow) { int r = sptrlist_add(c, q); CHECK(!!r == !FAILED, "failure is reported exactly when memory is missing"); if(r) mins(n, v); } else if(p < n) { sblist_delete(c, p); mdel(p); }
		CHECK(sptrlist_get_count(c) == n, "size unchanged by failed operations"); for(size_t i = 0; i < n; i++) CHECK(sptrlist_get(c, i) == cell + (model[i].a & 255), "content unchanged by failed operations");
#endif
	}
	vp_assume(vp_nfail > 0 || vp_oom_len == 1); /* scripts with fewer allocations are explored once */
#if T == 0 || T == 10
	sblist_free(c);
#elif T == 1
	tglist_free(c);
#elif T == 2
	tgilist_free(c);
#elif T == 3 || T == 4
	FN(fini)(c, 0); free(c);
#elif T == 5
	tlist_free(c);
#elif T == 6
	hashlist_free(c);
#elif T == 7
	stringptrlist_freeall(c);
#else
	for(size_t i = 0; i < n; i++) free(stringlist_get(c, i)); stringlist_free(c);
#endif
	CHECK(vp_live == 0, "nothing leaks");
	vp_done();
}
