/* C08: everything added to a hashlist is retrievable under its hash and visited exactly once by iteration. */
#include "vp.h"
#include "hashlist.h"
#ifndef NDH
#define NDH vp_u32
#endif
struct ent { unsigned char id, x; };
void harness(void) {
	hashlist *h = hashlist_new(NB, sizeof(struct ent)); CHECK(h != 0, "new");
	struct ent e[N]; uint32_t hs[N]; unsigned n = vp_choose(N + 1);
	for(unsigned i = 0; i < n; i++) { hs[i] = NDH(); vp_split(hs[i] % NB); e[i].id = i; e[i].x = vp_u8();
#if OOMB
		if(vp_choose(2)) { vp_oom = 2; vp_oom_at = vp_nalloc + 2; } /* leave an empty bucket list behind */
		int r = hashlist_add(h, hs[i], &e[i]); vp_oom = 0;
		CHECK(r == 0 || r == -1, "add returns 0 or -1"); if(r) { CHECK(vp_nfail, "add fails only without memory"); i--; n--; vp_nfail = 0; }
#else
		CHECK(hashlist_add(h, hs[i], &e[i]) == 0, "add reports success");
#endif
	}
	uint32_t q = NDH(); vp_split(q % NB); sblist *l = hashlist_get(h, q);
	for(unsigned i = 0; i < n; i++) if(hs[i] == q) {
		CHECK(l != 0, "a list exists for every added hash");
		unsigned c = 0; for(size_t j = 0; j < sblist_getsize(l); j++) { struct ent *p = sblist_get(l, j); c += (p->id == i) & (p->x == e[i].x); }
		CHECK(c == 1, "a value is in the list of its hash exactly once");
	}
	hashlist_iterator it; hashlist_iterator_init(&it); unsigned seen = 0, c = 0; struct ent *p;
	while(c <= n && (p = hashlist_next(h, &it))) { unsigned id = p->id; CHECK(id < n && !(seen >> id & 1), "iteration yields no value twice"); CHECK(p->x == e[id].x, "iteration yields the stored value"); seen |= 1u << id; c++; }
	CHECK(c == n, "iteration yields every value");
	CHECK(hashlist_next(h, &it) == 0, "iteration stays finished");
	hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); c = 0; unsigned nb = 0; sblist *b; while(nb <= NB && (b = hashlist_bucket_next(h, &bi))) { nb++; c += sblist_getsize(b); }
	CHECK(nb <= NB && c == n, "bucket iteration covers every value once");
	hashlist_free(h); CHECK(vp_live == 0, "freeing releases all memory");
	hashlist_free(0);
	vp_done();
}
