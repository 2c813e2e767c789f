/* C01: sblist behaves as a bounds-checked sequence of fixed-size items, for every history of K operations. */
#include "vp.h"
#include "sblist.h"
#define MAXN (PRE + K)
static unsigned char model[MAXN + 1][SZ]; static size_t n;
static void m_insert(size_t p, const unsigned char *it) { memmove(model[p+1], model[p], (n - p) * SZ); memcpy(model[p], it, SZ); n++; }
static void m_delete(size_t p) { memmove(model[p], model[p+1], (n - p - 1) * SZ); n--; }
static void item(unsigned char *it) { memset(it, 0x5a, SZ); it[0] = vp_u8(); if(SZ > 1) it[SZ-1] = vp_u8(); if(SZ > 2) it[SZ/2] = vp_u8(); }
#ifndef OPS
#define OPS 6
#endif
void harness(void) {
	unsigned char it[SZ];
	sblist l_, *l = &l_;
#ifdef DYN
	l = sblist_new(SZ, BI); CHECK(l != 0, "sblist_new succeeds when memory is available");
#else
	sblist_init(l, SZ, BI);
#endif
	CHECK(sblist_getsize(l) == 0 && sblist_empty(l), "a new list is empty");
	for(int i = 0; i < PRE; i++) { item(it); it[0] = (unsigned char)i; CHECK(sblist_add(l, it) == 1, "add reports success"); memcpy(model[n++], it, SZ); }
	for(int k = 0; k < K; k++) {
		unsigned op = vp_choose(OPS);
		size_t pos = vp_u64();
		item(it);
		if(op == 0) { CHECK(sblist_add(l, it) == 1, "add reports success"); m_insert(n, it); }
		else if(op == 1) {
			int r = sblist_insert(l, it, pos);
			if(pos <= n) { CHECK(r == 1, "insert at a valid position reports success"); m_insert(vp_split(pos), it); }
			else CHECK(r == 0, "insert past the end is refused");
		}
		else if(op == 2) { sblist_delete(l, pos); if(pos < n) m_delete(vp_split(pos)); }
		else if(op == 3) { int r = sblist_set(l, it, pos); CHECK(r == (pos < n), "set succeeds exactly for existing positions"); if(pos < n) memcpy(model[vp_split(pos)], it, SZ); }
		else if(op == 4) {
			unsigned char *p = sblist_pop(l);
			CHECK((p != 0) == (n > 0), "pop returns an item exactly when the list is not empty");
			if(n) { for(unsigned j = 0; j < SZ; j++) CHECK(p[j] == model[n-1][j], "pop returns the last item"); n--; }
		}
		else { size_t r = sblist_addi(l, it); CHECK(r == n, "addi returns the new item's index"); m_insert(n, it); }
		CHECK(sblist_getsize(l) == n, "size follows the operations");
		CHECK(sblist_empty(l) == (n == 0), "emptiness follows the operations");
	}
	/* every index */
	size_t q = vp_u64(); unsigned char *p = sblist_get(l, q);
	CHECK((p != 0) == (q < n), "get returns an item exactly for existing positions");
	for(size_t i = 0; i < n; i++) { p = sblist_get(l, i); CHECK(p && vp_valid(p, SZ), "get returns a pointer to a whole item");
		for(unsigned j = 0; j < SZ; j++) CHECK(p[j] == model[i][j], "item content is the one last stored at that position"); }
	size_t c = 0; unsigned char *x; sblist_iter(l, x) { CHECK(x == (unsigned char*)sblist_get(l, c), "iteration visits items in order"); c++; }
	CHECK(c == n, "iteration visits every item once");
#ifdef DYN
	sblist_free(l);
#else
	sblist_free_items(l); CHECK(sblist_getsize(l) == 0, "free_items empties the list");
	if(vp_choose(2)) { item(it); CHECK(sblist_add(l, it) == 1, "a list is usable again after free_items"); p = sblist_get(l, 0); CHECK(p && p[0] == it[0], "item stored after free_items"); sblist_free_items(l); }
#endif
	CHECK(vp_live == 0, "freeing the list releases all memory");
	vp_done();
}
