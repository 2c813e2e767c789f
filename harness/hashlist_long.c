/* C08: many additions; hashes follow the script, data is symbolic. */
#include "vp.h"
#include "hashlist.h"
#include "long.h"
struct ent { unsigned short id; unsigned char x; };
void harness(void) {
	seed();
	hashlist *h = hashlist_new(NB, sizeof(struct ent)); CHECK(h != 0, "new"); static struct ent e[STEPS]; static uint32_t hs[STEPS]; static unsigned char seen[STEPS];
	for(unsigned n = 0; n <= STEPS; n++) {
		if(n % 8 == 0 || n == STEPS) {
			memset(seen, 0, sizeof seen); hashlist_iterator it; hashlist_iterator_init(&it); unsigned c = 0; struct ent *p; int ok = 1;
			while(c <= n && (p = hashlist_next(h, &it))) { unsigned id = p->id; CHECK(id < n && !seen[id], "iteration yields no value twice"); ok &= p->x == e[id].x; seen[id] = 1; c++; }
			CHECK(c == n && ok, "iteration yields every value"); CHECK(hashlist_next(h, &it) == 0, "iteration stays finished");
			hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); c = 0; unsigned nb = 0; sblist *b; while(nb <= NB && (b = hashlist_bucket_next(h, &bi))) { nb++; c += sblist_getsize(b); } CHECK(nb <= NB && c == n, "bucket iteration covers every value once");
			for(unsigned i = 0; i < n; i++) { sblist *l = hashlist_get(h, hs[i]); CHECK(l != 0, "a list exists for every added hash"); c = 0; for(size_t j = 0; j < sblist_getsize(l); j++) { struct ent *q = sblist_get(l, j); c += q->id == i; } CHECK(c == 1, "a value is in the list of its hash exactly once"); }
		}
		if(n == STEPS) break;
		hs[n] = rnd(0xffffff) * (rnd(2) ? 257u : 1u) + (rnd(9) ? 0 : 0xffffff00u); e[n].id = n; e[n].x = vp_u8(); CHECK(hashlist_add(h, hs[n], &e[n]) == 0, "add reports success");
	}
	hashlist_free(h); CHECK(vp_live == 0, "freeing releases all memory");
	vp_done();
}
