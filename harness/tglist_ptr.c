/* C04: free_values of lists of pointers; expressions as arguments */
#include "vp.h"
#include "tglist.h"
#include "tgilist.h"
void harness(void) {
	unsigned n = vp_choose(7);
#if KIND == 0
	tglist(char*) l_, *l = &l_; tglist_init(l);
	for(unsigned i = 0; i < n; i++) { char *p = malloc(1); if(vp_choose(2) && i) CHECK(tglist_insert(l, p, i - 1), "insert"); else CHECK(tglist_add(l, p), "add"); }
	long live = vp_live; tglist_free_values(l); CHECK(vp_live == live - (long)n, "free_values frees each stored pointer once"); tglist_free_items(l);
#else
	tgilist(char*, unsigned) l_, *l = &l_; tgilist_init(l);
	for(unsigned i = 0; i < n; i++) { char *p = malloc(1); if(vp_choose(2) && i) CHECK(tgilist_insert(l, p, i - 1), "insert"); else CHECK(tgilist_add(l, p), "add"); }
	long live = vp_live; tgilist_free_values(l); CHECK(vp_live == live - (long)n, "free_values frees each stored pointer once"); tgilist_free_items(l);
#endif
	CHECK(vp_live == 0, "no memory left");
	vp_done();
}
