/* MD5 against RFC 1321 (written out after its text), for symbolic contents and states */
#include "vp.h"
#include "md5.h"
/* floor(2^32 * |sin(i + 1)|) */
static const uint32_t SINE[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x2441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x4881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static void block(uint32_t *v, const unsigned char *p) {
	static const unsigned char rot[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
	uint32_t x[16], a = v[0], b = v[1], c = v[2], d = v[3]; unsigned i;
	for(i = 0; i < 16; i++) x[i] = p[4*i] | (uint32_t) p[4*i+1] << 8 | (uint32_t) p[4*i+2] << 16 | (uint32_t) p[4*i+3] << 24;
	for(i = 0; i < 64; i++) {
		unsigned r = i / 16, k = r == 0 ? i : r == 1 ? 5 * i + 1 : r == 2 ? 3 * i + 5 : 7 * i;
		uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & d) | (c & ~d) : r == 2 ? b ^ c ^ d : c ^ (b | ~d);
		uint32_t t = b + rol(a + f + x[k % 16] + SINE[i], rot[r][i % 4]); a = d; d = c; c = b; b = t;
	}
	v[0] += a; v[1] += b; v[2] += c; v[3] += d;
}
static uint32_t rv[4]; static uint64_t rc; static unsigned char rb[256]; static unsigned rn; /* state, length, pending bytes */
static void more64(const unsigned char *p, unsigned n) { unsigned i, j = 0; for(i = 0; i < n; i++) rb[rn++] = p[i]; rc += n; while(rn - j >= 64) { block(rv, rb + j); j += 64; } for(i = j; i < rn; i++) rb[i - j] = rb[i]; rn -= j; }
#ifdef HUGE_N /* long messages: only the last bytes are arbitrary */
static void fill(unsigned char *m, unsigned n) { unsigned i; for(i = 0; i < n; i++) m[i] = i * 7 + i / 256; for(i = 0; i < 3 && i < n; i++) m[n - 1 - i] = vp_u8(); }
static void more(const unsigned char *p, unsigned n) { while(n > 64) { more64(p, 64); p += 64; n -= 64; } more64(p, n); }
#else
#define fill vp_bytes
#define more more64
#endif
static void end(unsigned char *o) {
	uint64_t bits = rc << 3; uint32_t lo = bits, hi = bits >> 32; unsigned i, j; unsigned char z = 0, e = 0x80, l[8]; for(i = 0; i < 4; i++) { l[i] = lo >> (8 * i); l[4+i] = hi >> (8 * i); }
	more(&e, 1); while(rn != 56) more(&z, 1); more(l, 8);
	for(i = 0; i < 4; i++) for(j = 0; j < 4; j++) o[4*i+j] = rv[i] >> (8 * j);
}
static void begin(void) { rv[0] = 0x67452301; rv[1] = 0xefcdab89; rv[2] = 0x98badcfe; rv[3] = 0x10325476; rc = rn = 0; }
static const unsigned lens[] = LENS;
void harness(void) {
	unsigned i, n = lens[vp_choose(sizeof lens / sizeof *lens)]; unsigned char *m = vp_block(n), want[16]; fill(m, n); vp_readonly(m); int ok = 1;
#if MODE == 2
	char *s = vp_block(33); begin(); more(m, n); end(want); md5str(s, m, n); 
	for(i = 0; i < 16; i++) { static const char hex[] = "0123456789abcdef"; ok &= s[2*i] == hex[want[i] >> 4] && s[2*i+1] == hex[want[i] & 15]; } CHECK(ok && s[32] == 0, "the digest in hexadecimal");
#else
	md5_ctx *c = vp_block(sizeof *c); memset(c, 0xee, sizeof *c); unsigned char *o = vp_block(16);
	static const unsigned cut[] = CUTS; unsigned p = cut[vp_choose(sizeof cut / sizeof *cut)], q = cut[vp_choose(sizeof cut / sizeof *cut)]; if(p > n || q > n - p) vp_assume(0);
	md5_init(c); begin();
#if MODE == 1
	/* continue from any point of any message */
	static const unsigned rest[] = REST; unsigned r = rest[vp_choose(sizeof rest / sizeof *rest)];
	for(i = 0; i < 4; i++) rv[i] = c->val[i] = vp_u32(); rn = r; for(i = 0; i < r; i++) rb[i] = c->buf[i] = vp_u8(); rc = c->count = (vp_u64() << 6) + r;
#endif
	md5_update(c, m, p); md5_update(c, m + p, q); md5_update(c, m + p + q, n - p - q); more(m, n);
	md5_end(c, o); end(want);
	for(i = 0; i < 16; i++) { ok &= o[i] == want[i]; } CHECK(ok, "the digest of the message, whatever the pieces");
	md5_end(c, o); for(i = 0; i < 16; i++) ok &= o[i] == want[i]; CHECK(ok, "finishing does not change the state");
#endif
	for(i = 0; i < 16; i += 5) vp_obs(want[i]);
	vp_done();
}
