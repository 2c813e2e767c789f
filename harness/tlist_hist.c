/* C07: tlist behaves as a bounds-checked sequence, for every history of K operations. */
#include "vp.h"
#include "tlist.h"
#define MAXN (PRE + K)
static unsigned char model[MAXN + 1][SZ]; static size_t n;
void harness(void) {
	tlist *t = tlist_new(SZ); unsigned char it[SZ]; CHECK(t != 0, "new"); CHECK(tlist_getsize(t) == 0, "a new list is empty");
	for(int i = 0; i < PRE; i++) {
		size_t p = PREPOS;
		vp_bytes(it, SZ); CHECK(tlist_insert(t, p, it) == 1, "insert reports success"); memmove(model[p+1], model[p], (n - p) * SZ); memcpy(model[p], it, SZ); n++; }
	for(int k = 0; k < K; k++) {
		unsigned op = vp_choose(3); size_t pos = vp_u64(); vp_bytes(it, SZ);
		if(op == 0) { int r = tlist_insert(t, pos, it); CHECK(r == (pos <= n), "insert succeeds exactly for valid positions"); if(pos <= n) { pos = vp_split(pos); memmove(model[pos+1], model[pos], (n - pos) * SZ); memcpy(model[pos], it, SZ); n++; } }
		else if(op == 1) { int r = tlist_delete(t, pos); CHECK(r == (pos < n), "delete succeeds exactly for existing items"); if(pos < n) { pos = vp_split(pos); memmove(model[pos], model[pos+1], (n - pos - 1) * SZ); n--; } }
		else { CHECK(tlist_append(t, it) == 1, "append reports success"); memcpy(model[n++], it, SZ); }
		CHECK(tlist_getsize(t) == n, "size follows the operations");
	}
	size_t q = vp_u64(); unsigned char *p = tlist_get(t, q);
	CHECK((p != 0) == (q < n), "get returns an item exactly for existing positions");
	for(size_t i = 0; i < n; i++) { p = tlist_get(t, i); CHECK(p && vp_valid(p, SZ), "get returns a pointer to a whole item"); for(unsigned j = 0; j < SZ; j++) CHECK(p[j] == model[i][j], "item content is the one stored at that position"); }
	if(vp_choose(2)) { tlist_free_items(t); CHECK(tlist_getsize(t) == 0, "free_items empties the list"); CHECK(vp_live == 1, "free_items releases all items"); CHECK(tlist_append(t, it) == 1, "list is usable after free_items"); p = tlist_get(t, 0); CHECK(p && p[0] == it[0], "item after free_items"); }
	CHECK(tlist_free(t) == 0, "free returns NULL");
	CHECK(vp_live == 0, "freeing the list releases all memory");
	vp_done();
}
