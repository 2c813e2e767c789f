/* CRC-32 and CRC-32C against the bit-serial definition (polynomial division) */
#include "vp.h"
#include "crc32.h"
#include "crc32c.h"
#if CAST
#define F(n) CRC32C_##n
#define POLY 0x82f63b78u
#else
#define F(n) CRC32_##n
#define POLY 0xedb88320u
#endif
static uint32_t step(uint32_t s, uint8_t b) { s ^= b; for(int k = 0; k < 8; k++) s = (s >> 1) ^ ((s & 1) ? POLY : 0); return s; }
void harness(void) {
	unsigned i; F(InitTables)();
	CRC32_CTX *c = vp_block(sizeof *c);
#if MODE == 0
	/* any state, any bytes */
	unsigned n = NMIN + vp_choose(N - NMIN + 1); uint8_t *b = vp_block(n); vp_bytes(b, n); uint32_t s = c->state = vp_u32(); vp_readonly(b);
	F(Update)(c, b, n); for(i = 0; i < n; i++) s = step(s, b[i]);
	CHECK(c->state == s, "the state after any bytes is the remainder of the polynomial division"); vp_obs(s);
#else
	/* init, update in any pieces, final */
	unsigned n = vp_choose(N + 1), p = vp_choose(n + 1), q = p + vp_choose(n - p + 1); uint8_t *b = vp_block(n), *o = vp_block(4); for(i = 0; i < n; i++) b[i] = vp_u8(); vp_readonly(b);
	CHECK(F(Init)(c) == 0, "init"); F(Update)(c, b, p); F(Update)(c, b + p, q - p); F(Update)(c, b + q, n - q); F(Final)(o, c);
	uint32_t s = 0xffffffffu; for(i = 0; i < n; i++) s = step(s, b[i]); s = ~s;
	for(i = 0; i < 4; i++) { CHECK(o[i] == (uint8_t)(s >> (8 * i)), "the checksum in little endian order"); vp_obs(o[i]); }
#endif
	vp_done();
}
