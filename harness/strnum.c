/* string -> number: the text of any number in range is converted exactly */
#include "vp.h"
#include "strlib.h"
void harness(void) {
	unsigned neg = vp_choose(2), nd = 1 + vp_choose(ND), i; char *s = vp_block(nd + neg); /* not terminated, exact size */
	uint64_t v = 0;
	if(neg) s[0] = '-';
	for(i = 0; i < nd; i++) { unsigned d = vp_u8() % 10; s[neg + i] = '0' + d; v = v * 10 + d; }
#if BITS == 32
	if(nd == 10) vp_assume(v <= 2147483647u + neg);
	int r = strtoint(s, nd + neg); CHECK((uint32_t)r == (neg ? 0u - (uint32_t)v : (uint32_t)v), "strtoint returns the value of the text");
	CHECK(strtoint(s, 0) == 0 && strtoint(0, 3) == 0, "no text is 0");
#else
	if(nd == 19) vp_assume(v <= 9223372036854775807ull + neg);
	int64_t r = strtoint64(s, nd + neg); CHECK((uint64_t)r == (neg ? 0 - v : v), "strtoint64 returns the value of the text");
	CHECK(strtoint64(s, 0) == 0 && strtoint64(0, 3) == 0, "no text is 0");
#endif
	vp_obs(r); vp_done();
}
