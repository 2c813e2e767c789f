/* C11: bit arrays behave as arrays of independent bits; byte swaps reverse the bytes. */
#include "vp.h"
#include "bitarray.h"
#include "endianness.h"
void harness(void) {
#if MODE == 0
	unsigned nbits = NLEN(19) + 1; size_t need = BA_SIZE_REQUIRED(nbits);
	CHECK(need * 8 >= nbits && (need - 1) * 8 < nbits, "the required size is the least that holds all bits");
	unsigned char *a = vp_block(need), *o = vp_block(need); vp_bytes(a, need); memcpy(o, a, need);
	unsigned i = vp_u16(); vp_assume(i < nbits); unsigned op = vp_choose(4); int cond = vp_u32(), want;
	if(op == 0) { BA_SET_TRUE(a, i); want = 1; } else if(op == 1) { BA_SET_FALSE(a, i); want = 0; } else if(op == 2) { BA_SET(a, i, cond); want = !!cond; } else want = o[i / 8] >> (i % 8) & 1;
	CHECK(BA_GET(a, i) == want, "a bit reads back as written");
	unsigned j = vp_u16(); vp_assume(j < nbits && j != i); CHECK(BA_GET(a, j) == (o[j / 8] >> (j % 8) & 1), "other bits are unchanged");
	unsigned k = vp_u16(); vp_assume(k < nbits && (k | 7) < need * 8); CHECK(BA_GET_SWAPPED(a, k) == BA_GET(a, k / 8 * 8 + 7 - k % 8), "the swapped view reverses the bits of each byte");
#else
	uint16_t a = vp_u16(); uint32_t b = vp_u32(); uint64_t c = vp_u64();
	uint16_t x = byteswap16(a); uint32_t y = byteswap32(b); uint64_t z = byteswap64(c);
	for(int i = 0; i < 2; i++) CHECK((uint8_t)(x >> 8 * i) == (uint8_t)(a >> 8 * (1 - i)), "byteswap16 reverses the bytes");
	for(int i = 0; i < 4; i++) CHECK((uint8_t)(y >> 8 * i) == (uint8_t)(b >> 8 * (3 - i)), "byteswap32 reverses the bytes");
	for(int i = 0; i < 8; i++) CHECK((uint8_t)(z >> 8 * i) == (uint8_t)(c >> 8 * (7 - i)), "byteswap64 reverses the bytes");
	int16_t sa = a; int32_t sb = b; int64_t sc = c; CHECK((uint16_t)byteswap16(sa) == x && (uint32_t)byteswap32(sb) == y && byteswap64(sc) == z, "signed values are swapped like unsigned ones");
	CHECK((uint32_t)byteswap32(c) == (uint32_t)byteswap32((uint32_t) c) && (uint16_t)byteswap16(b) == (uint16_t)byteswap16((uint16_t) b), "only the bytes of the type count");
	CHECK(byteswap64(z) == c, "swapping twice is the identity");
	unsigned char m[4]; uint32_t l = le32(b); memcpy(m, &l, 4); for(int i = 0; i < 4; i++) CHECK(m[i] == (uint8_t)(b >> 8 * i), "le32 stores little endian");
	uint16_t s = le16(a); memcpy(m, &s, 2); for(int i = 0; i < 2; i++) CHECK(m[i] == (uint8_t)(a >> 8 * i), "le16 stores little endian");
	unsigned v = vp_u8(); 
	CHECK(BYTEM(v>>7&1,v>>6&1,v>>5&1,v>>4&1,v>>3&1,v>>2&1,v>>1&1,v&1) == v && BYTEL(v&1,v>>1&1,v>>2&1,v>>3&1,v>>4&1,v>>5&1,v>>6&1,v>>7&1) == v, "bits that are expressions");
	CHECK(BYTEM((v>>7&1),(v>>6&1),(v>>5&1),(v>>4&1),(v>>3&1),(v>>2&1),(v>>1&1),(v&1)) == v, "BYTEM lists bits from the most significant one");
	CHECK(BYTEL((v&1),(v>>1&1),(v>>2&1),(v>>3&1),(v>>4&1),(v>>5&1),(v>>6&1),(v>>7&1)) == v, "BYTEL lists bits from the least significant one");
#endif
	vp_done();
}
