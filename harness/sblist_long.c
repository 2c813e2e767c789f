/* C01: long histories on lists of many items. */
#include "vp.h"
#include "sblist.h"
#include "long.h"
static unsigned char model[PEAK + 40][SZ]; static size_t n;
static sblist *l;
static void item(unsigned char *it) { memset(it, 0x5a, SZ); it[0] = vp_u8(); it[SZ-1] = vp_u8(); }
static void check_all(void) {
	CHECK(sblist_getsize(l) == n, "size follows the operations");
	int ok = 1; for(size_t i = 0; i < n; i++) { unsigned char *p = sblist_get(l, i); CHECK(p && vp_valid(p, SZ), "get returns a pointer to a whole item"); ok &= p[0] == model[i][0]; ok &= p[SZ-1] == model[i][SZ-1]; if(SZ > 2) ok &= p[SZ/2] == model[i][SZ/2]; }
	CHECK(ok, "item contents are those last stored at their positions");
	CHECK(sblist_get(l, n) == 0, "get yields nothing past the end");
}
void harness(void) {
	seed();
	unsigned char it[SZ]; sblist l_; l = &l_; unsigned last = 0;
	sblist_init(l, SZ, BI);
	for(int k = 0; k < STEPS; k++) {
		item(it);
		if(grow_step(n)) {
			unsigned r = rnd(4);
			if(r == 0) { CHECK(sblist_add(l, it) == 1, "add reports success"); memcpy(model[n++], it, SZ); }
			else if(r == 1) { CHECK(sblist_addi(l, it) == n, "addi returns the new item's index"); memcpy(model[n++], it, SZ); }
			else { size_t p = rnd(8) ? rnd(n + 1) : 0; CHECK(sblist_insert(l, it, p) == 1, "insert reports success"); memmove(model[p+1], model[p], (n - p) * SZ); memcpy(model[p], it, SZ); n++; }
		} else {
			unsigned r = rnd(3);
			if(r == 0) { unsigned char *p = sblist_pop(l); CHECK((p != 0) == (n > 0), "pop returns an item exactly when the list is not empty"); if(n) { CHECK(p[0] == model[n-1][0] & p[SZ-1] == model[n-1][SZ-1], "pop returns the last item"); n--; } }
			else if(r == 1) { size_t p = rnd(n + 1); sblist_delete(l, p); if(p < n) { memmove(model[p], model[p+1], (n - p - 1) * SZ); n--; } }
			else { size_t p = rnd(n + 2); CHECK(sblist_set(l, it, p) == (p < n), "set succeeds exactly for existing positions"); if(p < n) memcpy(model[p], it, SZ); }
		}
		if(k % 16 == 15 || n > last) check_all();
		if(n > last) last = n;
	}
	size_t c = 0; unsigned char *x; sblist_iter(l, x) { CHECK(x == (unsigned char*)sblist_get(l, c), "iteration visits items in order"); c++; } CHECK(c == n, "iteration visits every item once");
	sblist_free_items(l); CHECK(vp_live == 0, "freeing the list releases all memory");
	vp_done();
}
