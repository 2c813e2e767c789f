/* C09: the fixed-size pool hands out disjoint slots, all of them, and ignores pointers it does not own. */
#define SSA_MAXELEM MAXE
#define SSA_ELEMSIZE ES
#include "vp.h"
#include "ssalloc.c"
void harness(void) {
	struct { unsigned char before[96]; ssa_pool p; unsigned char after[64]; } *w = vp_block(sizeof *w), *o = w;
	memset(w->before, 0x11, 96); memset(w->after, 0x22, 64); memset(&w->p, 0xcc, sizeof w->p);
	ssa_pool *p = &w->p; unsigned char *own[MAXE]; unsigned char tag[MAXE]; unsigned n = 0;
	ssa_init(p);
	for(int i = 0; i < PRE + K; i++) {
		unsigned op = i < PRE ? 0 : vp_choose(3);
		if(op == 0) {
			size_t sz = vp_u64(); if(i < PRE) vp_assume(sz <= ES);
			unsigned char *q = ssa_alloc(p, sz);
			CHECK((q != 0) == (sz <= ES && n < MAXE), "allocation succeeds exactly when the size fits and a slot is free");
			if(!q) continue;
			CHECK(q >= p->mem && q + ES <= p->mem + sizeof p->mem && (q - p->mem) % ES == 0, "an allocation is a slot of the pool");
			for(unsigned j = 0; j < n; j++) CHECK(own[j] != q, "a live slot is not handed out again");
			own[n] = q; tag[n] = vp_u8(); memset(q, tag[n], ES); n++;
		} else if(op == 1) {
			if(!n) continue;
			unsigned j = n < 17 ? vp_choose(n) : (n - 1) * vp_choose(3) / 2; ssa_free(p, own[j]); own[j] = own[n-1]; tag[j] = tag[n-1]; n--;
		} else { /* pointers that are not live slots: any offset around the pool */
			long off = (short)vp_u16(); vp_assume(off >= -10 * ES && off <= MAXE * ES + 60); unsigned char *q = p->mem + off; int live = 0;
			for(unsigned j = 0; j < n; j++) live |= own[j] == q;
			vp_assume(!live);
			ssa_free(p, q);
		}
		int ok = 1; for(unsigned j = 0; j < n; j++) for(int b = 0; b < ES; b++) ok &= own[j][b] == tag[j];
		CHECK(ok, "live slots keep their content");
	}
	/* every remaining slot can still be had, and no more */
	unsigned left = MAXE - n; for(unsigned i = 0; i < left; i++) { unsigned char *q = ssa_alloc(p, 1); CHECK(q != 0, "a freed slot becomes available again"); for(unsigned j = 0; j < n; j++) CHECK(own[j] != q, "a live slot is not handed out again"); own[n++] = q; }
	CHECK(ssa_alloc(p, 0) == 0, "no more slots than the pool has");
	for(int i = 0; i < 64; i++) CHECK(o->before[i + 32] == 0x11 && o->before[i] == 0x11 && o->after[i] == 0x22, "nothing outside the pool is written");
	vp_done();
}
