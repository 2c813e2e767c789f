/* C05/C06: long histories on maps of many entries; keys follow the script, values are symbolic. */
#include "vp.h"
#if KIND & 1
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
#include "long.h"
typedef struct { unsigned char v[3]; } val;
typedef uint32_t key;
static int cmp(const void *a, const void *b) { key x = *(const key*)a, y = *(const key*)b; return (x > y) - (x < y); }
static unsigned hash(const key k) { return HASHF; }
static key mk_[PEAK + 40]; static val mv[PEAK + 40]; static size_t n;
static int mfind(key k) { for(size_t i = 0; i < n; i++) if(mk_[i] == k) return i; return -1; }
static int veq(const val *a, const val *b) { return a->v[0] == b->v[0] & a->v[1] == b->v[1] & a->v[2] == b->v[2]; }
void harness(void) {
	seed();
#if KIND < 2
	bmap(key, val) m_, *m = &m_; bmap_init(m, cmp);
#define FN(x) bmap_##x
	typedef ssize_t pos_t;
#else
	hbmap(key, val, NB) m_, *m = &m_; hbmap_init(m, cmp, hash);
#define FN(x) hbmap_##x
	typedef hbmap_iter pos_t;
#endif
	unsigned last = 0;
	for(int i = 0; i < STEPS; i++) {
		key k = rnd(2) && n ? mk_[rnd(n)] : rnd(3 * PEAK) * 40503u; val v; v.v[0] = vp_u8(); v.v[1] = vp_u8(); v.v[2] = vp_u8();
		int j = mfind(k);
		if(grow_step(n)) {
			pos_t p = j < 0 && rnd(2) ? FN(insert_nocheck)(m, k, v) : FN(insert)(m, k, v);
			CHECK(p != (pos_t)-1, "insert reports success"); CHECK(FN(getkey)(m, p) == k && veq(&FN(getval)(m, p), &v), "insert returns the position of the entry");
			if(j >= 0) mv[j] = v; else { mk_[n] = k; mv[n++] = v; }
		} else {
			pos_t p = FN(find)(m, k); CHECK((p != (pos_t)-1) == (j >= 0), "find succeeds exactly for present keys");
			if(j >= 0) { if(rnd(4)) { FN(delete)(m, p); mk_[j] = mk_[n-1]; mv[j] = mv[n-1]; n--; } else { FN(setvalue)(m, v, p); mv[j] = v; } }
		}
		if(i % 16 != 15 && n <= last) continue;
		if(n > last) last = n;
		int ok = 1; for(size_t x = 0; x < n; x++) { val *g = FN(get)(m, mk_[x]); CHECK(g != 0 && FN(contains)(m, mk_[x]), "present keys are found"); ok &= veq(g, &mv[x]); } CHECK(ok, "get returns the value last stored for each key");
		for(int x = 0; x < 8; x++) { key q = rnd(3 * PEAK) * 40503u + (x & 1); CHECK((FN(get)(m, q) != 0) == (mfind(q) >= 0), "get finds exactly the present keys"); }
#if KIND < 2
		CHECK((size_t)bmap_getsize(m) == n, "size is the number of keys"); for(size_t x = 1; x < n; x++) CHECK(bmap_getkey(m, x-1) < bmap_getkey(m, x), "iteration is sorted by key, without duplicates");
#else
		static unsigned char seen[PEAK + 40]; memset(seen, 0, sizeof seen); size_t c = 0; hbmap_iter it; ok = 1;
		hbmap_foreach(m, it) { int x = mfind(hbmap_getkey(m, it)); CHECK(x >= 0 && !seen[x], "iteration yields only present keys and no entry twice"); seen[x] = 1; c++; ok &= veq(&hbmap_getval(m, it), &mv[x]); }
		CHECK(c == n && ok, "iteration yields every entry with its value");
#endif
	}
#if KIND >= 2
	{ hbmap_iter it; hbmap_foreach(m, it) { while(hbmap_iter_index_valid(m, it)) hbmap_delete(m, it); } size_t c = 0; hbmap_foreach(m, it) c++; CHECK(c == 0, "deleting during the iteration empties the map"); }
#endif
	FN(fini)(m, 0); CHECK(vp_live == 0, "finishing the map releases all memory");
	vp_done();
}
