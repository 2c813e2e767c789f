/* C03: insertion into a sorted list keeps it sorted and loses nothing; binary search is exact. */
#include "vp.h"
#include "sblist.h"
#include "tglist.h"
#ifndef NMIN
#define NMIN 0
#endif
#ifndef KEYI
#define KEYI vp_u8()
#endif
struct ent { unsigned char key, tag, pad; };
static const void *want1; static void *ctxv; static int badorder, badctx;
/* any result with the right sign */
static int res(unsigned x, unsigned y) {
#ifdef SIMPLE
	return (x > y) - (x < y);
#endif
	int r = (int)vp_u32(); vp_assume((x < y) == (r < 0) & (x > y) == (r > 0)); return r; }
static int cmp(const void *a, const void *b) { if(a != want1) badorder = 1; const struct ent *x = a, *y = b; return res(x->key, y->key); }
static int cmpr(const void *a, const void *b, void *c) { if(c != ctxv) badctx = 1; return cmp(a, b); }
static int cmpt(const void *a, const void *b) { const struct ent *x = a, *y = b; return res(x->key, y->key); }
void harness(void) {
	struct ent e[N + 1]; unsigned n = NMIN + vp_choose(N - NMIN + 1); int ctx; ctxv = &ctx;
#if KIND < 2
	sblist l; sblist_init(&l, sizeof(struct ent), 1 + vp_choose(3));
	/* arbitrary sorted list */
	for(unsigned i = 0; i < n; i++) { e[i].key = KEYI; e[i].tag = i; e[i].pad = vp_u8(); if(i) vp_assume(e[i-1].key <= e[i].key); sblist_add(&l, &e[i]); }
	struct ent x; x.key = vp_u8(); x.tag = n; x.pad = vp_u8(); want1 = &x;
	int present = 0; for(unsigned i = 0; i < n; i++) present |= (e[i].key == x.key);
	size_t f = KIND ? sblist_bsearch_r(&l, &x, cmpr, &ctx) : sblist_bsearch(&l, &x, cmp);
	CHECK((f != (size_t)-1) == present, "binary search finds a key exactly if it is present");
	if(f != (size_t)-1) { CHECK(f < n, "found index is in range"); CHECK(((struct ent*)sblist_get(&l, f))->key == x.key, "found index holds the key"); }
	size_t p = KIND ? sblist_insert_sorted_r(&l, &x, cmpr, &ctx) : sblist_insert_sorted(&l, &x, cmp);
	CHECK(!badorder, "the compare function gets the searched item first"); CHECK(!badctx, "the compare function gets the caller's context");
	CHECK(p <= n, "sorted insert returns a valid index"); CHECK(sblist_getsize(&l) == n + 1, "sorted insert adds one item");
	p = vp_split(p);
#define AT(i) ((struct ent*)sblist_get(&l, i))
#else
	tglist(struct ent) l_, *l = &l_; tglist_init(l);
	for(unsigned i = 0; i < n; i++) { e[i].key = KEYI; e[i].tag = i; e[i].pad = vp_u8(); if(i) vp_assume(e[i-1].key <= e[i].key); CHECK(tglist_add(l, e[i]), "add"); }
	struct ent x; x.key = vp_u8(); x.tag = n; x.pad = vp_u8();
	size_t p = tglist_insert_sorted(l, x, cmpt);
	CHECK(p <= n, "sorted insert returns a valid index"); CHECK(tglist_getsize(l) == n + 1, "sorted insert adds one item");
	p = vp_split(p);
#define AT(i) (&tglist_get(l, i))
#endif
	CHECK(AT(p)->tag == x.tag && AT(p)->key == x.key && AT(p)->pad == x.pad, "the item is at the returned index");
	for(unsigned i = 0; i <= n; i++) {
		if(i) CHECK(AT(i-1)->key <= AT(i)->key, "list stays sorted");
		if(i != p) { struct ent *o = &e[i < p ? i : i - 1], *a = AT(i); CHECK(a->key == o->key && a->tag == o->tag && a->pad == o->pad, "other items keep their content and order"); }
	}
#if KIND < 2
	sblist_free_items(&l);
#else
	tglist_free_items(l);
#endif
	CHECK(vp_live == 0, "no memory left");
	vp_done();
}
