/* C07: long histories on lists of many items. */
#include "vp.h"
#include "tlist.h"
#include "long.h"
static unsigned char model[PEAK + 40][3]; static size_t n;
void harness(void) {
	seed();
	tlist *t = tlist_new(3); unsigned char it[3]; unsigned last = 0;
	for(int k = 0; k < STEPS; k++) {
		vp_bytes(it, 3);
		if(grow_step(n)) {
			if(MODE == 1 || MODE == 0 && rnd(3) == 0) { CHECK(tlist_append(t, it) == 1, "append reports success"); memcpy(model[n++], it, 3); }
			else { size_t p = MODE == 2 ? 0 : rnd(n + 1); CHECK(tlist_insert(t, p, it) == 1, "insert reports success"); memmove(model[p+1], model[p], (n - p) * 3); memcpy(model[p], it, 3); n++; }
		} else { size_t p = rnd(n + 1); CHECK(tlist_delete(t, p) == (p < n), "delete succeeds exactly for existing items"); if(p < n) { memmove(model[p], model[p+1], (n - p - 1) * 3); n--; } }
		CHECK(tlist_getsize(t) == n, "size follows the operations"); CHECK(tlist_get(t, n) == 0, "get yields nothing past the end"); CHECK(tlist_insert(t, n + 1 + rnd(9), it) == 0, "insertions past the end are refused");
		if(k % 16 == 15 || n > last) { int ok = 1; for(size_t i = 0; i < n; i++) { unsigned char *p = tlist_get(t, i); CHECK(p && vp_valid(p, 3), "get returns a pointer to a whole item"); ok &= p[0] == model[i][0] & p[1] == model[i][1] & p[2] == model[i][2]; } CHECK(ok, "item contents are those stored at their positions"); }
		if(n > last) last = n;
	}
	CHECK(tlist_free(t) == 0, "free returns NULL"); CHECK(vp_live == 0, "freeing the list releases all memory");
	vp_done();
}
