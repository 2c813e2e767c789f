/* C03: a list built only by sorted insertion is sorted and contains exactly the inserted items. */
#include "vp.h"
#include "sblist.h"
#include "tglist.h"
static int cmp(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static int cmpr(const void *a, const void *b, void *c) { (void)c; return cmp(a, b); }
void harness(void) {
	int v[N]; unsigned n = N;
#if KIND < 2
	sblist l; sblist_init(&l, sizeof(int), 2);
#else
	tglist(int) l_, *l = &l_; tglist_init(l);
#endif
	for(unsigned i = 0; i < n; i++) { v[i] = (int)vp_u32(); size_t p;
#if KIND == 0
		p = sblist_insert_sorted(&l, &v[i], cmp);
#elif KIND == 1
		p = sblist_insert_sorted_r(&l, &v[i], cmpr, 0);
#else
		p = tglist_insert_sorted(l, v[i], cmp);
#endif
		CHECK(p <= i, "valid index");
	}
#if KIND < 2
#define AT(i) (*(int*)sblist_get(&l, i))
	CHECK(sblist_getsize(&l) == n, "size");
#else
#define AT(i) tglist_get(l, i)
	CHECK(tglist_getsize(l) == n, "size");
#endif
	for(unsigned i = 1; i < n; i++) CHECK(AT(i-1) <= AT(i), "sorted");
	for(unsigned i = 0; i < n; i++) { unsigned a = 0, b = 0; for(unsigned j = 0; j < n; j++) { a += v[j] == v[i]; b += AT(j) == v[i]; } CHECK(a == b, "exactly the inserted items"); }
	vp_done();
}
