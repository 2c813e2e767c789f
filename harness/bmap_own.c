/* C05/C06: finishing a map frees exactly what the flags say: keys with 1, values with 2 */
#include "vp.h"
#if KIND & 1
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
static int cmp(const void *a, const void *b) { const unsigned char *x = *(unsigned char *const*)a, *y = *(unsigned char *const*)b; return *x - *y; }
static unsigned hash(const unsigned char *k) { return vp_split(*k & 3); }
void harness(void) {
#if KIND < 2
	bmap(unsigned char*, unsigned char*) m_, *m = &m_; int dyn = vp_choose(2);
	if(dyn) { m = bmap_new(cmp); CHECK(m != 0, "new"); } else bmap_init(m, cmp);
#define FN(x) bmap_##x
#else
	hbmap(unsigned char*, unsigned char*, 3) m_, *m = &m_; int dyn = vp_choose(2);
	if(dyn) { m = hbmap_new(cmp, (void*)hash, 3); CHECK(m != 0, "new"); } else hbmap_init(m, cmp, (void*)hash);
#define FN(x) hbmap_##x
#endif
	unsigned n = vp_choose(N + 1), del = N, i, flag; unsigned char *k[N], *v[N];
	for(i = 0; i < n; i++) { k[i] = malloc(1); v[i] = malloc(1); *k[i] = vp_u8(); *v[i] = i; for(unsigned j = 0; j < i; j++) vp_assume(*k[i] != *k[j]); CHECK(FN(insert)(m, k[i], v[i]) != -1, "insert reports success"); }
#if !(KIND & 1) /* an index based list keeps deleted values, see its documentation */
	if(n && vp_choose(2)) { del = vp_choose(n); __typeof__(FN(find)(m, k[0])) p = FN(find)(m, k[del]); CHECK(p != -1, "find"); CHECK(FN(getval)(m, p) == v[del], "the value of the key"); FN(delete)(m, p); }
#endif
	long own = vp_live; flag = vp_choose(4); unsigned in = n - (del < n); vp_obs(own);
	for(i = 0; i < n; i++) if(i != del) { unsigned char q = *k[i], *qp = &q, **g = FN(get)(m, qp); CHECK(g && *g == v[i], "get returns the value last stored for the key"); }
	FN(fini)(m, flag); if(dyn) free(m);
	CHECK(vp_live == 2 * n - (flag & 1 ? in : 0) - (flag & 2 ? in : 0), "finishing frees the keys with flag 1 and the values with flag 2, and the map's own memory");
	for(i = 0; i < n; i++) { if(i == del || !(flag & 1)) { vp_obs(*k[i]); free(k[i]); } if(i == del || !(flag & 2)) { CHECK(*v[i] == i, "values that stay are intact"); free(v[i]); } }
	CHECK(vp_live == 0, "nothing left");
	vp_done();
}
