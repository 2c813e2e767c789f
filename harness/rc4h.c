/* RC4 against its definition: symbolic keys (as far as the key schedule allows) and symbolic texts */
#include "vp.h"
#include "strlib.h"
static unsigned char S[256];
static void ref(unsigned char *o, const unsigned char *m, unsigned n, const unsigned char *k, unsigned kl) {
	unsigned i, j = 0; unsigned char t; for(i = 0; i < 256; i++) S[i] = i;
	for(i = 0; i < 256; i++) { j = (j + S[i] + k[i % kl]) & 255; t = S[i]; S[i] = S[j]; S[j] = t; }
	unsigned a = 0, b = 0; for(i = 0; i < n; i++) { a = (a + 1) & 255; b = (b + S[a]) & 255; t = S[a]; S[a] = S[b]; S[b] = t; o[i] = m[i] ^ S[(S[a] + S[b]) & 255]; }
}
static const unsigned kls[] = KLS;
void harness(void) {
	unsigned i, kl = kls[vp_choose(sizeof kls / sizeof *kls)], n = MODE ? N : vp_choose(N + 1); int ok = 1; unsigned char *k = vp_block(kl), *m = vp_block(n), *d, *r = vp_block(n), keep[N + 1];
	for(i = 0; i < kl; i++) k[i] = i * 37 + kl * 11 + 5;
#if MODE == 1
	for(i = 0; i < NSYM; i++) k[kl - 1 - i] = vp_u8(); /* the last bytes of a key as long as the schedule */
#endif
	vp_bytes(m, n); memcpy(keep, m, n); vp_readonly(k);
	ref(r, m, n, k, kl);
	int inplace = vp_choose(2); if(inplace) d = m; else { d = vp_block(n); vp_readonly(m); }
	rc4(d, m, n, k, kl);
	for(i = 0; i < n; i++) ok &= d[i] == r[i]; CHECK(ok, "the text combined with the key stream");
#if MODE == 0
	unsigned char *e = vp_block(n); rc4(e, d, n, k, kl); for(i = 0; i < n; i++) ok &= e[i] == keep[i]; CHECK(ok, "decryption returns the text");
	for(i = 0; i < n; i++) vp_obs(d[i]);
#endif
	vp_done();
}
