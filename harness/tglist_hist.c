/* C04: tglist / tgilist behave as sequences for every valid history of K operations. */
#include "vp.h"
#include "tglist.h"
#include "tgilist.h"
struct ent { unsigned char a; unsigned short b; unsigned char c; };
#define MAXN (PRE + K)
static struct ent model[MAXN + 1]; static size_t n;
static struct ent item(void) { struct ent e; memset(&e, 0, sizeof e); e.a = vp_u8(); e.b = vp_u16(); e.c = vp_u8(); return e; }
static int same(struct ent *x, struct ent *y) { return x->a == y->a & x->b == y->b & x->c == y->c; }
#if KIND == 0
typedef tglist(struct ent) list;
#define F(x) tglist_##x
#elif KIND == 1
typedef tgilist(struct ent, unsigned short) list;
#define F(x) tgilist_##x
#else
typedef tgilist(struct ent, unsigned char) list;
#define F(x) tgilist_##x
#endif
void harness(void) {
	list l_, *l = &l_; struct ent it; int dyn = vp_choose(2);
	if(dyn) { l = F(new)(); CHECK(l != 0, "new succeeds when memory is available"); } else F(init)(l);
	CHECK(F(getsize)(l) == 0 && F(empty)(l), "a new list is empty");
	for(int i = 0; i < PRE; i++) { it = item(); CHECK(F(add)(l, it), "add reports success"); model[n++] = it; }
	for(int k = 0; k < K; k++) {
		unsigned op = vp_choose(4); size_t pos; it = item();
		if(op == 0) { CHECK(F(add)(l, it), "add reports success"); model[n++] = it; }
		else if(op == 1) { pos = vp_choose(n + 1); CHECK(F(insert)(l, it, pos), "insert reports success"); memmove(model + pos + 1, model + pos, (n - pos) * sizeof it); model[pos] = it; n++; }
		else if(op == 2) { if(!n) continue; pos = vp_choose(n); F(delete)(l, pos); memmove(model + pos, model + pos + 1, (n - pos - 1) * sizeof it); n--; }
		else { pos = vp_u64(); vp_assume(pos < n); F(set)(l, it, pos); model[vp_split(pos)] = it; }
		CHECK(F(getsize)(l) == n, "size follows the operations"); CHECK(!!F(empty)(l) == (n == 0), "emptiness follows the operations");
	}
	for(size_t i = 0; i < n; i++) CHECK(same(&F(get)(l, i), &model[i]), "item content is the one last stored at that position");
#if KIND == 0
	size_t c = 0, i; tglist_foreach(l, i) { CHECK(i == c, "iteration in order"); c++; } CHECK(c == n, "iteration visits every item");
#endif
	if(dyn) { F(free)(l); } else { F(free_items)(l); }
	CHECK(vp_live == 0, "freeing the list releases all memory");
	vp_done();
}
