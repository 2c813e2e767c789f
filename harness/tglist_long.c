/* C04: long histories on typed lists of many items. */
#include "vp.h"
#include "tglist.h"
#include "tgilist.h"
#include "long.h"
struct ent { unsigned char a; unsigned short b; unsigned char c; };
static struct ent model[PEAK + 40]; static size_t n;
static struct ent item(void) { struct ent e; memset(&e, 0, sizeof e); e.a = vp_u8(); e.b = vp_u16(); e.c = vp_u8(); return e; }
static int same(struct ent *x, struct ent *y) { return x->a == y->a & x->b == y->b & x->c == y->c; }
#if KIND == 0
typedef tglist(struct ent) list;
#define F(x) tglist_##x
#elif KIND == 1
typedef tgilist(struct ent, unsigned short) list;
#define F(x) tgilist_##x
#else
typedef tgilist(struct ent, unsigned char) list;
#define F(x) tgilist_##x
#endif
void harness(void) {
	seed();
	list l_, *l = &l_; struct ent it; unsigned last = 0, total = 0; F(init)(l);
	for(int k = 0; k < STEPS; k++) {
		it = item();
		if(KIND == 2 && total >= 255) break; /* the index type counts the items ever added */
		if(grow_step(n)) {
			total++;
			if(rnd(3) == 0) { CHECK(F(add)(l, it), "add reports success"); model[n++] = it; }
			else { size_t pos = rnd(8) ? rnd(n + 1) : 0; CHECK(F(insert)(l, it, pos), "insert reports success"); memmove(model + pos + 1, model + pos, (n - pos) * sizeof it); model[pos] = it; n++; }
		} else if(n) {
			size_t pos = rnd(n);
			if(rnd(3)) { F(delete)(l, pos); memmove(model + pos, model + pos + 1, (n - pos - 1) * sizeof it); n--; } else { F(set)(l, it, pos); model[pos] = it; }
		}
		CHECK(F(getsize)(l) == n, "size follows the operations"); CHECK(!!F(empty)(l) == (n == 0), "emptiness follows the operations");
		if(k % 16 == 15 || n > last) { int ok = 1; for(size_t i = 0; i < n; i++) ok &= same(&F(get)(l, i), &model[i]); CHECK(ok, "item contents are those last stored at their positions"); }
		if(n > last) last = n;
	}
	F(free_items)(l); CHECK(vp_live == 0, "freeing the list releases all memory");
	vp_done();
}
