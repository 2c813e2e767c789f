/* the thin typed wrappers and iteration macros of the headers */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/types.h>
#include "vp.h"
#include "stringlist.h"
#include "sptrlist.h"
void harness(void) {
	unsigned i, j;
#if MODE == 0
	/* string lists: own and copied strings, allocation failures, every way of iterating */
	stringlist *l = stringlist_new(1 + vp_choose(2)); char *want[8]; char keep[8][4]; unsigned n = 0, own[8]; vp_oom = OOM;
	for(i = 0; i < K; i++) {
		char *s = vp_str(2); unsigned len = strlen(s); 
		if(vp_choose(2)) { unsigned nf = vp_nfail; int r = stringlist_add_dup(l, s); CHECK(r == 0 || r == 1, "success or failure"); CHECK(r == (vp_nfail == nf), "fails exactly without memory"); if(r) { want[n] = 0; own[n] = 1; memcpy(keep[n], s, len + 1); n++; char *g = stringlist_get(l, n - 1); CHECK(g != s, "a copy"); if(len) s[0]++; } }
		else { unsigned nf = vp_nfail; int r = stringlist_add(l, s); CHECK(r == (vp_nfail == nf), "fails exactly without memory"); if(r) { want[n] = s; own[n] = 0; memcpy(keep[n], s, len + 1); n++; } }
		if(n && vp_choose(2) && i == 1) { unsigned d = vp_choose(n); char *g = stringlist_get(l, d); stringlist_delete(l, d); if(own[d]) free(g); for(j = d; j + 1 < n; j++) { want[j] = want[j+1]; own[j] = own[j+1]; memcpy(keep[j], keep[j+1], 4); } n--; }
	}
	vp_oom = 0; CHECK(stringlist_getsize(l) == n, "the number of strings");
	size_t q; unsigned c = 0; stringlist_iter(l, q) { CHECK(q == c, "positions in order"); char *g = stringlist_get(l, q); CHECK(g && !strcmp(g, keep[c]) && (own[c] || g == want[c]), "the strings in order"); c++; } CHECK(c == n, "all strings");
	char *g; c = 0; { stringlist_foreach(l, g) { CHECK(c < n && g == stringlist_get(l, c), "every string once, in order"); c++; } } CHECK(c == n, "all strings");
	CHECK(stringlist_get(l, n) == 0 && stringlist_get(l, (size_t) n + vp_u32()) == 0, "nothing behind the last string");
	for(i = 0; i < n; i++) if(own[i]) free(stringlist_get(l, i)); stringlist_free(l); CHECK(vp_live == 0, "everything is released");
#else
	/* pointer lists */
	sptrlist st, *l = vp_choose(2) ? sptrlist_new(2) : (sptrlist_init(&st, 2), &st); static char x[8]; unsigned n = vp_choose(N + 1), want[8]; void *p;
	CHECK(sblist_empty(l), "empty at first");
	for(i = 0; i < n; i++) { want[i] = vp_choose(3); p = x + want[i]; CHECK(sptrlist_add(l, p), "added"); }
	if(n && vp_choose(2)) { unsigned k = vp_choose(n); want[k] = 7; p = x + 7; CHECK(sptrlist_set(l, p, k), "set"); }
	CHECK(sptrlist_get_count(l) == n && sblist_getsize(l) == n && sblist_empty(l) == (n == 0), "the number of pointers"); for(i = 0; i < n; i++) CHECK(sptrlist_get(l, i) == x + want[i], "the pointers");
	void **e; unsigned c = 0; sblist_iter(l, e) { CHECK(c < n && *e == x + want[c], "every item once, in order"); unsigned d = 0; void **f; sblist_iter(l, f) { CHECK(*f == x + want[d], "nested iteration"); d++; } CHECK(d == n, "nested iteration"); c++; } CHECK(c == n, "all items");
	c = 0; sblist_iter_counter(l, it, e) { CHECK(it == c && *e == x + want[c], "every item with its position"); c++; } CHECK(c == n, "all items");
	size_t z; c = 0; sblist_iter_counter2(l, z, e) { CHECK(z == c && *e == x + want[c], "every item with its position"); c++; } CHECK(c == n && z == n, "all items");
	/* deleting while iterating */
	ssize_t s; unsigned del = vp_choose(4), seen = 0, left = 0; unsigned rest[8]; sblist_iter_counter2s(l, s, e) { CHECK(*e == x + want[seen], "every item once"); unsigned w = want[seen++]; if(w == del) { sblist_delete(l, s); s--; } else rest[left++] = w; }
	CHECK(seen == n && sptrlist_get_count(l) == left, "all items are seen, the others are kept"); for(i = 0; i < left; i++) CHECK(sptrlist_get(l, i) == x + rest[i], "in order");
	if(l == &st) sptrlist_free_items(l); else sptrlist_free(l); CHECK(vp_live == 0, "everything is released");
#endif
	vp_done();
}
