/* C05/C06: bmap and hbmap are maps from key to the value last stored, for every history of K operations. */
#include "vp.h"
#if KIND & 1
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
#ifndef HT
#define HT 0
#endif
typedef struct { unsigned char v[3]; } val;
#ifndef KEY
#define KEY unsigned char
#define NDKEY vp_u8
#endif
typedef KEY key;
#ifndef PREKEY
#define PREKEY NDKEY()
#endif
static int cmp(const void *a, const void *b) { key x = *(const key*)a, y = *(const key*)b; return (x > y) - (x < y); }
static unsigned hash(const key k) {
#ifdef HASHC
	return HASHC;
#elif defined HASHANY
	/* any function: the first use of a key chooses its hash value */
	static key ks[K + PRE + 2]; static unsigned hs[K + PRE + 2], nk; unsigned i;
	for(i = 0; i < nk; i++) if(vp_split(ks[i] == k)) return hs[i];
	ks[nk] = k; hs[nk] = vp_u32() * NB + vp_choose(NB); /* NB a power of two: every value */ CHECK(nk < K + PRE + 1, "harness"); return hs[nk++];
#else
	/* the hash is a fixed, uneven function of the key; fork on it so that the bucket is known on each path */
	static const unsigned tab[2] = { HT };
	return tab[vp_split(k & 1)];
#endif
}
static key mk_[K + PRE]; static val mv[K + PRE]; static size_t n;
static int mfind(key k) { for(size_t i = 0; i < n; i++) if(mk_[i] == k) return i; return -1; }
static int veq(const val *a, const val *b) { return a->v[0] == b->v[0] & a->v[1] == b->v[1] & a->v[2] == b->v[2]; }
void harness(void) {
#if KIND < 2
	bmap(key, val) m_, *m = &m_; int dyn = vp_choose(2);
	if(dyn) { m = bmap_new(cmp); CHECK(m != 0, "new"); } else bmap_init(m, cmp);
#define FN(x) bmap_##x
	typedef ssize_t pos_t;
#else
	hbmap(key, val, NB) m_, *m = &m_; int dyn = vp_choose(2);
	if(dyn) { m = hbmap_new(cmp, (void*)hash, NB); CHECK(m != 0, "new"); } else hbmap_init(m, cmp, hash);
#define FN(x) hbmap_##x
	typedef hbmap_iter pos_t;
#endif
	for(int i = 0; i < PRE + K; i++) {
		unsigned op = i < PRE ? 0 : vp_choose(4);
		key k = PREKEY; val v; v.v[0] = vp_u8(); v.v[1] = i; v.v[2] = vp_u8();
		if(i < PRE) for(int j = 0; j < i; j++) vp_assume(mk_[j] < k); /* sorted lists: the order of insertion is explored by the other harnesses */
		int j = mfind(k);
		if(op == 0) {
			pos_t p = FN(insert)(m, k, v);
			CHECK(p != (pos_t)-1, "insert reports success");
			CHECK(FN(getkey)(m, p) == k, "insert returns the position of the key"); CHECK(veq(&FN(getval)(m, p), &v), "insert returns the position of the value");
			if(j >= 0) mv[j] = v; else { mk_[n] = k; mv[n++] = v; }
		} else if(op == 1) {
			pos_t p = FN(find)(m, k);
			CHECK((p != (pos_t)-1) == (j >= 0), "find succeeds exactly for present keys");
			if(j >= 0) { if(n & 1) FN(delete)(m, p); else FN(delete)(m, FN(find)(m, k)); mk_[j] = mk_[n-1]; mv[j] = mv[n-1]; n--; }
		} else if(op == 2) {
			if(j >= 0) continue;
			pos_t p = FN(insert_nocheck)(m, k, v);
			CHECK(p != (pos_t)-1, "insert reports success"); CHECK(FN(getkey)(m, p) == k && veq(&FN(getval)(m, p), &v), "insert_nocheck returns the position of the entry");
			mk_[n] = k; mv[n++] = v;
		} else {
			pos_t p = FN(find)(m, k);
			CHECK((p != (pos_t)-1) == (j >= 0), "find succeeds exactly for present keys");
			if(j >= 0) { FN(setvalue)(m, v, p); mv[j] = v; }
		}
	}
	if(vp_choose(2)) { /* any key */
	key q = NDKEY(); int j = mfind(q);
	CHECK(!!FN(contains)(m, q) == (j >= 0), "contains is exact");
	val *g = FN(get)(m, q); CHECK((g != 0) == (j >= 0), "get finds exactly the present keys");
	if(g) CHECK(veq(g, &mv[j]), "get returns the value last stored for the key"); vp_done(); }
	/* all entries */
	size_t c = 0; unsigned seen = 0;
#if KIND < 2
	CHECK((size_t)bmap_getsize(m) == n, "size is the number of keys");
	for(size_t i = 0; i < n; i++) { if(i) CHECK(bmap_getkey(m, i-1) < bmap_getkey(m, i), "iteration is sorted by key, without duplicates");
		int x = mfind(bmap_getkey(m, i)); CHECK(x >= 0, "no foreign keys"); CHECK(veq(&bmap_getval(m, i), &mv[x]), "value at an index belongs to the key at that index"); }
	(void)c; (void)seen;
	bmap_fini(m, 0);
#else
	hbmap_iter it; hbmap_foreach(m, it) { int x = mfind(hbmap_getkey(m, it)); CHECK(x >= 0, "iteration yields only present keys"); CHECK(!(seen >> x & 1), "iteration yields no entry twice"); seen |= 1u << x; c++;
		CHECK(veq(&hbmap_getval(m, it), &mv[x]), "iteration yields the stored value"); }
	CHECK(c == n, "iteration yields every entry");
	hbmap_fini(m, 0);
#endif
	if(dyn) free(m);
	CHECK(vp_live == 0, "finishing the map releases all memory");
	vp_done();
}
