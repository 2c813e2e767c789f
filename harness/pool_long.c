/* C09: long histories of a pool: scripted allocations and frees of all slots in any order, foreign pointers anywhere */
#define SSA_MAXELEM MAXE
#define SSA_ELEMSIZE ES
#include "vp.h"
#include "long.h"
#include "ssalloc.c"
void harness(void) {
	struct { unsigned char before[256]; ssa_pool p; unsigned char after[64]; } *w = vp_block(sizeof *w); unsigned i, j, n = 0, t;
	memset(w->before, 0x11, 256); memset(w->after, 0x22, 64); memset(&w->p, 0xcc, sizeof w->p);
	ssa_pool *p = &w->p; static unsigned char *own[MAXE], tag[MAXE]; static unsigned char live[MAXE]; ssa_init(p); seed();
	for(t = 0; t < STEPS; t++) {
		if(grow_step(n == 0 ? 0 : n)) {
			unsigned char *q = ssa_alloc(p, rnd(ES + 1)); CHECK((q != 0) == (n < MAXE), "allocation succeeds exactly when a slot is free"); if(!q) continue;
			size_t off = q - p->mem; CHECK(q >= p->mem && off < sizeof p->mem && off % ES == 0 && !live[off / ES], "a slot of the pool that is not in use"); live[off / ES] = 1;
			own[n] = q; tag[n] = vp_u8(); memset(q, tag[n], ES); n++;
		} else if(n && rnd(8)) { j = rnd(3) ? n - 1 - rnd(n < 3 ? n : 3) : rnd(n); live[(own[j] - p->mem) / ES] = 0; ssa_free(p, own[j]); own[j] = own[n-1]; tag[j] = tag[n-1]; n--; }
		else { long off = (long)rnd(MAXE * ES + 100) - 50; if(off < 0 || off % ES || off / ES >= MAXE || !live[off / ES]) ssa_free(p, p->mem + off); }
		CHECK(ssa_alloc(p, ES + 1 + rnd(1000)) == 0, "more than a slot holds is refused");
	}
	int ok = 1; for(j = 0; j < n; j++) for(i = 0; i < ES; i++) ok &= own[j][i] == tag[j]; CHECK(ok, "live slots keep their content");
	unsigned left = MAXE - n; for(i = 0; i < left; i++) { unsigned char *q = ssa_alloc(p, 1); CHECK(q && !live[(q - p->mem) / ES], "a freed slot becomes available again"); live[(q - p->mem) / ES] = 1; }
	CHECK(ssa_alloc(p, 0) == 0, "no more slots than the pool has");
	for(i = 0; i < 256; i++) CHECK(w->before[i] == 0x11 && w->after[i / 4] == 0x22, "nothing outside the pool is written");
	vp_done();
}
