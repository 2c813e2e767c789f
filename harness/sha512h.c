/* SHA-512 against FIPS 180-4 (written out after its text), for symbolic contents and states */
#include "vp.h"
#include "sha512.h"
#include "sha512k.h"
static uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void block(uint64_t *h, const unsigned char *p) {
	uint64_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7]; unsigned i, j;
	for(i = 0; i < 16; i++) for(w[i] = 0, j = 0; j < 8; j++) w[i] = w[i] << 8 | p[8*i+j];
	for(; i < 80; i++) w[i] = (rr(w[i-2],19) ^ rr(w[i-2],61) ^ (w[i-2] >> 6)) + w[i-7] + (rr(w[i-15],1) ^ rr(w[i-15],8) ^ (w[i-15] >> 7)) + w[i-16];
	for(i = 0; i < 80; i++) {
		uint64_t t1 = k + (rr(e,14) ^ rr(e,18) ^ rr(e,41)) + ((e & f) ^ (~e & g)) + KK[i] + w[i], t2 = (rr(a,28) ^ rr(a,34) ^ rr(a,39)) + ((a & b) ^ (a & c) ^ (b & c));
		k = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
	}
	h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += k;
}
static uint64_t rh[8], rlo, rhi; static unsigned char rb[512]; static unsigned rn;
static void more64(const unsigned char *p, unsigned n) { unsigned i, j = 0; for(i = 0; i < n; i++) rb[rn++] = p[i]; while(rn - j >= 128) { block(rh, rb + j); j += 128; } for(i = j; i < rn; i++) rb[i - j] = rb[i]; rn -= j; }
#ifdef HUGE_N /* long messages: only the last bytes are arbitrary */
static void fill(unsigned char *m, unsigned n) { unsigned i; for(i = 0; i < n; i++) m[i] = i * 7 + i / 256; for(i = 0; i < 3 && i < n; i++) m[n - 1 - i] = vp_u8(); }
static void more(const unsigned char *p, unsigned n) { while(n > 64) { more64(p, 64); p += 64; n -= 64; } more64(p, n); }
#else
#define fill vp_bytes
#define more more64
#endif
static void end(unsigned char *o, uint64_t len) { /* len in bytes */
	unsigned i, j; unsigned char z = 0, e = 0x80, l[16] = {0}; uint64_t lo = len << 3; l[7] = len >> 61; for(i = 0; i < 8; i++) l[8+i] = lo >> (56 - 8 * i);
	more(&e, 1); while(rn != 112) more(&z, 1); more(l, 16);
	for(i = 0; i < 8; i++) for(j = 0; j < 8; j++) o[8*i+j] = rh[i] >> (56 - 8 * j);
}
static const unsigned lens[] = LENS, cut[] = CUTS;
void harness(void) {
	unsigned i, n = lens[vp_choose(sizeof lens / sizeof *lens)]; unsigned char *m = vp_block(n), want[64]; fill(m, n); vp_readonly(m); int ok = 1;
	unsigned p = cut[vp_choose(sizeof cut / sizeof *cut)], q = cut[vp_choose(sizeof cut / sizeof *cut)]; if(p > n || q > n - p) vp_assume(0);
	sha512_ctx *c = vp_block(sizeof *c); memset(c, 0xee, sizeof *c); sha512_init(c); for(i = 0; i < 8; i++) rh[i] = H0[i];
	uint64_t len = n;
#if MODE == 1
	/* continue after any number of blocks of any message */
	for(i = 0; i < 64; i++) c->h[i] = vp_u8(); for(i = 0; i < 8; i++) { rh[i] = 0; for(unsigned j = 0; j < 8; j++) rh[i] = rh[i] << 8 | c->h[8*i+j]; } len = vp_u64() << 7; c->b = len; len += n;
	{ static const unsigned pend[] = REST; unsigned k = pend[vp_choose(sizeof pend / sizeof *pend)]; for(i = 0; i < k; i++) { unsigned char x = vp_u8(); c->x[i] = x; rb[rn++] = x; } c->b += k; len += k; }
#endif
	if(p) sha512_update(c, m, p); if(q) sha512_update(c, m + p, q); sha512_update(c, m + p + q, n - p - q);
	if(vp_choose(2)) sha512_update(c, m + n, 0);
	more(m, n); end(want, len); unsigned char *o = sha512_end(c); CHECK(vp_valid(o, 64), "the digest is there");
	for(i = 0; i < 64; i++) ok &= o[i] == want[i]; CHECK(ok, "the digest of the message, whatever the pieces");
	for(i = 0; i < 64; i += 9) vp_obs(want[i]);
	vp_done();
}
