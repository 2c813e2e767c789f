/* C05/C06: the map macros take expressions as arguments: a position that is looked up in the call, maps in arrays, variables of any name, flags that are computed */
#include "vp.h"
#if KIND & 1
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
static int cmp(const void *a, const void *b) { const unsigned char *x = *(unsigned char *const*)a, *y = *(unsigned char *const*)b; return *x - *y; }
static unsigned hash(const unsigned char *k) { return vp_split(*k & 3); }
#if KIND < 2
#define FN(x) bmap_##x
typedef bmap(unsigned char*, unsigned char*) map;
#else
#define FN(x) hbmap_##x
typedef hbmap(unsigned char*, unsigned char*, 3) map;
#endif
#define NONE ((__typeof__(FN(find)(m, k[0][0]))) -1)
void harness(void) {
	static map ms[2]; unsigned char *k[2][N], *v[2][N]; unsigned n[2], del[2], in[2]; size_t i, p; map *m;
	for(i = 0; i < 2; i++) { map *p = &ms[i];
#if KIND < 2
		bmap_init(p, cmp);
#else
		hbmap_init(p, cmp, (void*)hash);
#endif
	}
	for(i = 0; i < 2; i++) {
		n[i] = i ? 1 : vp_choose(N + 1); del[i] = vp_choose(n[i] + 1);
		for(p = 0; p < n[i]; p++) { k[i][p] = malloc(1); v[i][p] = malloc(1); *k[i][p] = vp_u8(); *v[i][p] = p + 10 * i; for(size_t j = 0; j < p; j++) vp_assume(*k[i][p] != *k[i][j]); m = &ms[i]; CHECK(FN(insert)(&ms[i], k[i][p], v[i][p]) != NONE, "insert reports success"); }
		if(del[i] < n[i]) FN(delete)(&ms[i], FN(find)(&ms[i], k[i][del[i]]));
		in[i] = n[i] - (del[i] < n[i]);
	}
	for(i = 0; i < 2; i++) for(p = 0; p < n[i]; p++) { m = &ms[i]; unsigned char **g = FN(get)(&ms[i], k[i][p]); CHECK(p == del[i] ? g == 0 : g && *g == v[i][p], "deleting removes exactly the key that was looked up"); CHECK(!!FN(contains)(&ms[i], k[i][p]) == (p != del[i]), "contains"); if(g) { CHECK(FN(getval)(&ms[i], FN(find)(&ms[i], k[i][p])) == v[i][p] && FN(getkey)(&ms[i], FN(find)(&ms[i], k[i][p])) == k[i][p], "access by a position that is looked up"); FN(setvalue)(&ms[i], k[i][p], FN(find)(&ms[i], k[i][p])); CHECK(*FN(get)(&ms[i], k[i][p]) == k[i][p], "set"); FN(setvalue)(&ms[i], v[i][p], FN(find)(&ms[i], k[i][p])); } }
	unsigned kf = vp_choose(2), vf = KIND & 1 ? 0 : 2 * vp_choose(2), cond = vp_choose(2); long own = 0; for(i = 0; i < 2; i++) own += 2 * n[i];
	for(i = 0; i < 2; i++) { if(cond) FN(fini)(&ms[i], kf | vf); else FN(fini)(&ms[i], vf ? 2 : kf ? 1 : 0); }
	unsigned f = cond ? kf | vf : vf ? 2 : kf; vp_obs(f);
	CHECK(vp_live == own - (f & 1 ? in[0] + in[1] : 0) - (f & 2 ? in[0] + in[1] : 0), "finishing frees the keys with flag 1 and the values with flag 2, and the map's own memory");
	for(i = 0; i < 2; i++) for(p = 0; p < n[i]; p++) { if(p == del[i] || !(f & 1)) free(k[i][p]); if(p == del[i] || !(f & 2)) { CHECK(*v[i][p] == p + 10 * i, "values that stay are intact"); free(v[i][p]); } }
	CHECK(vp_live == 0, "nothing left"); vp_done();
}
