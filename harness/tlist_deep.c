/* C07: the _deep variants free each stored pointer exactly once */
#include "vp.h"
#include "tlist.h"
void harness(void) {
	tlist *t = tlist_new(sizeof(char*)); unsigned n = 0; char *o[6];
	for(int i = 0; i < 4; i++) { char *p = malloc(2); p[0] = i; p[1] = 0; size_t pos = vp_choose(n + 1); CHECK(tlist_insert(t, pos, &p) == 1, "insert"); memmove(o + pos + 1, o + pos, (n - pos) * sizeof *o); o[pos] = p; n++; }
	for(int k = 0; k < 2; k++) if(vp_choose(2)) { size_t pos = vp_choose(n); long live = vp_live; CHECK(tlist_delete_deep(t, pos) == 1, "delete_deep reports success"); CHECK(vp_live == live - 2, "delete_deep frees the node and the stored pointer"); memmove(o + pos, o + pos + 1, (n - pos - 1) * sizeof *o); n--; }
	CHECK(tlist_delete_deep(t, n) == 0, "delete_deep past the end is refused");
	CHECK(tlist_getsize(t) == n, "size");
	for(size_t i = 0; i < n; i++) { char **p = tlist_get(t, i); CHECK(p && *p == o[i] && (*p)[0] >= 0, "remaining pointers are intact"); }
	if(vp_choose(2)) { tlist_free_items_deep(t); CHECK(tlist_getsize(t) == 0 && vp_live == 1, "free_items_deep frees nodes and stored pointers"); }
	CHECK(tlist_free_deep(t) == 0, "free_deep returns NULL");
	CHECK(vp_live == 0, "free_deep releases everything");
	vp_done();
}
