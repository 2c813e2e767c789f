/* string search in long texts: a scripted text over a small alphabet, built from pieces of the needle, with a few arbitrary characters */
#define _GNU_SOURCE
#include "vp.h"
#include "long.h"
#include "strlib.h"
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int lead(int c) { return c == ' ' || c == '\t' || c == '\n' || c == ':' || c == ',' || c == '.' || c == ';' || c == '-'; }
static int trail(int c) { return lead(c) || c == '\r'; }
void harness(void) {
	unsigned i, j; static const char *needles[] = { NEEDLES };
	const char *nn = needles[vp_choose(sizeof needles / sizeof *needles)]; unsigned nl = strlen(nn);
	static const unsigned lens[] = { LENS }; unsigned hl = lens[vp_choose(sizeof lens / sizeof *lens)]; seed();
	char *n = vp_block(nl); memcpy(n, nn, nl);
	char *h = vp_block(hl + 1);
	/* beginnings of the needle of all lengths, separated or not */
	for(i = 0; i < hl;) {
		unsigned k = 1 + rnd(nl - 1 ? nl - 1 : 1), lowerc = rnd(2), start = rnd(4) ? 0 : rnd(nl);
		if(rnd(3) == 0 && i < hl) h[i++] = FILL[rnd(sizeof FILL - 1)];
		for(j = 0; j < k && i < hl && start + j < nl; j++) { char c = n[start + j]; h[i++] = c == '*' ? 'q' : MODE != 1 && lowerc && c >= 'A' && c <= 'Z' ? c + 32 : c; }
	}
	h[hl] = 0;
	for(i = 0; i < NSYM; i++) { unsigned p = rnd(hl); h[p] = vp_u8(); vp_assume(h[p] != 0); }
	unsigned q = rnd(2) ? hl - 1 : rnd(hl); h[q] = vp_u8(); vp_assume(h[q] != 0);
	vp_readonly(h); vp_readonly(n);
	char *r = MODE == 0 ? strstr_uc(h, n, nl) : MODE == 1 ? strstar(h, n, nl) : findword(h, n, nl);
	vp_obs(r ? r - h + 1 : 0);
	for(i = 0; i + nl <= hl; i++) {
		int m = 1;
		for(j = 0; j < nl; j++) m &= MODE == 1 ? (n[j] == '*') | (h[i+j] == n[j]) : (char)up(h[i+j]) == n[j];
		if(MODE == 2) m &= (i == 0 || lead(h[i-1])) & (h[i+nl] == 0 || trail(h[i+nl]));
		if(m) { CHECK(r == h + i, "the first match is returned"); break; }
	}
	if(i + nl > hl) CHECK(r == 0, "nothing is returned when nothing matches");
	vp_done();
}
