/* number -> string; the number is built from symbolic decimal (or base BASE) digits so that every value of the type is covered */
#include "vp.h"
#include "strlib.h"
#ifndef FLAGS
#define FLAGS vp_choose(8)
#endif
#ifndef FEW
#define FEW 0
#endif
static char want[200]; static unsigned nw;
static char dchar(unsigned d, int lower) { return d < 10 ? '0' + d : d < 36 ? (lower ? 'a' : 'A') + d - 10 : 'a' + d - 36; }
static const char CY[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", CL[] = "0123456789abcdefghijklmnopqrstuvwxyz";
static unsigned dg[72];
/* any value 0..max (max given in decimal) */
static uint64_t decimal(const char *max) {
	unsigned ml = strlen(max), len = 1 + vp_choose(ml), i; uint64_t v = 0;
	if(len < ml) { for(i = 0; i < len; i++) dg[i] = (i || len == 1) ? vp_u8() % 10 : 1 + vp_u8() % 9; }
	else {
		unsigned j = vp_choose(ml + 1);
		for(i = 0; i < j; i++) dg[i] = max[i] - '0';
		if(j < ml) { unsigned m = max[j] - '0'; if(j == 0) { if(m < 2) vp_assume(0); dg[0] = 1 + vp_u8() % (m - 1); } else { if(!m) vp_assume(0); dg[j] = vp_u8() % m; } }
		for(i = j + 1; i < ml; i++) dg[i] = vp_u8() % 10;
	}
	for(i = 0; i < len; i++) v = v * 10 + dg[i];
	for(i = 0; i < len; i++) want[nw++] = '0' + dg[i];
	want[nw] = 0;
	return v;
}
static void same(const char *r, const char *lo, size_t n) {
	unsigned i; int ok = 1;
	CHECK(r >= lo && r < lo + n, "the result lies in the caller's buffer");
	for(i = 0; i <= nw; i++) { CHECK(vp_valid(r + i, 1), "the result stays inside the buffer"); ok &= r[i] == want[i]; vp_obs(r[i]); }
	CHECK(ok, "the text is the exact representation of the number");
}
void harness(void) {
#if MODE == 0
	int neg = vp_choose(2); if(neg) want[nw++] = '-';
	uint64_t v = decimal(neg ? "2147483648" : "2147483647"); if(neg) vp_assume(v != 0);
	char *b = vp_block(12), *b2 = vp_block(12); int n = neg ? -(int)(unsigned)v : (int)v;
	char *r = itoa(n, b); CHECK(r == b, "itoa returns its buffer"); same(r, b, 12); same(intToString(n, b2), b2, 12); CHECK(intToString(n, 0) == 0, "no buffer");
#elif MODE == 1
	uint64_t v = decimal("4294967295"); char *b = vp_block(11), *b2 = vp_block(11);
	char *r = utoa(v, b); CHECK(r == b, "utoa returns its buffer"); same(r, b, 11); same(uintToString(v, b2), b2, 11);
#elif MODE == 2
	uint64_t v = decimal("18446744073709551615"); char *b = vp_block(21); same(uint64ToString(v, b), b, 21);
#elif MODE == 3
	int neg = vp_choose(2); if(neg) want[nw++] = '-';
	uint64_t v = decimal(neg ? "9223372036854775808" : "9223372036854775807"); if(neg) vp_assume(v != 0);
	char *b = vp_block(21); same(int64ToString(neg ? -(int64_t)v : (int64_t)v, b), b, 21);
#elif MODE == 4
	/* numberToString, base BASE, up to ND digits, all flags, automatic and explicit lengths */
	unsigned nd = 1 + vp_choose(ND), i, fl = FLAGS, lk = vp_choose(6); uint64_t v = 0;
	size_t ml = lk == 0 ? 0 : lk == 1 ? nd : lk == 2 ? nd + 1 : lk == 3 ? nd + 3 : lk == 4 ? nd + 30 : 100; int neg = (fl & NTS_SIGNED_TYPE) && vp_choose(2);
	for(i = 0; i < nd; i++) { dg[i] = FEW && i % 3 ? (i % 3 * 5 + i) % BASE : (i || nd == 1) ? vp_u8() % BASE : 1 + vp_u8() % (BASE - 1); v = v * BASE + dg[i]; }
	if(neg) vp_assume(v != 0);
	if(fl & NTS_SIGNED_TYPE) vp_assume(neg ? v <= 1ull << 63 : v >> 63 == 0);
	if(neg) want[nw++] = '-';
	if(fl & NTS_PAD) for(i = nd; i < ml; i++) want[nw++] = '0';
	for(i = 0; i < nd; i++) want[nw++] = (fl & NTS_LOWERCASE_CHARS) && BASE <= 36 ? CL[dg[i]] : CY[dg[i]];
	want[nw] = 0;
	size_t bs = (ml ? ml : nd) + neg + 1; char *b = vp_block(bs);
	char *r = numberToString(neg ? -v : v, BASE, b, ml, fl);
	same(r, b, bs);
#elif MODE == 5
	/* unsupported bases, and numbers that do not fit */
	uint64_t v = vp_u64(); char *b = vp_block(24);
	if(vp_choose(2)) { unsigned base = vp_u32(); vp_assume((base & 1) | (base > 62) | (base == 0)); CHECK(numberToString(v, base, b, 0, vp_choose(8)) == 0, "unsupported bases yield NULL"); }
	else { unsigned ml = 1 + vp_choose(4), fl = vp_choose(8), hs = (fl & NTS_SIGNED_TYPE) ? 1 : 0; char *c = vp_block(ml + 1 + hs), *r = numberToString(v, 16, c, ml, fl);
		CHECK(r >= c && r < c + ml + 1 + hs, "the result lies in the buffer"); CHECK(strlen(r) <= ml + hs, "the result is terminated within the buffer"); }
#endif
	vp_done();
}
