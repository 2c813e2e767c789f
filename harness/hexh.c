#include "vp.h"
#include "strlib.h"
static int dig(int c) { int d = (c >= '0') & (c <= '9'), u = (c >= 'A') & (c <= 'F'), l = (c >= 'a') & (c <= 'f'); return (-d & (c - '0')) | (-u & (c - 'A' + 10)) | (-l & (c - 'a' + 10)); }
static int ishex(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
void harness(void) {
#if MODE == 0
	unsigned n = NLEN(N), i; unsigned char *s = vp_block(n); vp_bytes(s, n); vp_readonly(s); char *d = vp_block(2 * n + 1);
	raw2hex(d, s, n); int ok = 1;
	for(i = 0; i < n; i++) { ok &= d[2*i] == "0123456789abcdef"[s[i] >> 4]; ok &= d[2*i+1] == "0123456789abcdef"[s[i] & 15]; }
	CHECK(ok, "raw2hex prints two lowercase digits per byte"); CHECK(d[2*n] == 0, "raw2hex terminates");
	unsigned char *b = vp_block(n); size_t r = hex2raw(d, b); CHECK(r == n, "hex2raw(raw2hex) has the original length");
	for(i = 0; i < n; i++) ok &= b[i] == s[i]; CHECK(ok, "hex2raw(raw2hex) returns the original bytes");
#elif MODE == 1
	unsigned n = NLEN(N), i; char *s = vp_block(n + 1); for(i = 0; i < n; i++) { s[i] = vp_u8(); vp_assume(ishex((unsigned char)s[i])); } s[n] = 0; vp_readonly(s);
	unsigned char *b = vp_block((n + 1) / 2); size_t r = hex2raw(s, b); CHECK(r == (n + 1) / 2, "hex2raw returns the output length"); vp_obs(r);
	int ok = 1; for(i = 0; i < n; i++) { unsigned pos = n - 1 - i, v = dig((unsigned char)s[pos]), byte = (n + 1) / 2 - 1 - i / 2; ok &= ((b[byte] >> (i & 1 ? 4 : 0)) & 15) == v; }
	if(n & 1) ok &= b[0] < 16;
	CHECK(ok, "hex2raw decodes digits of either case, an odd first digit alone");
#else
	char *s = vp_block(1); s[0] = vp_u8(); vp_readonly(s); int r = hexval(s); vp_obs(r);
	CHECK(r == dig((unsigned char)*s), "hexval is the value of a hex digit of either case, 0 for anything else");
	/* memory safety of hex2raw on arbitrary text */
	char *t = vp_str(N); unsigned n = strlen(t); unsigned char *b = vp_block((n + 1) / 2); size_t k = hex2raw(t, b); CHECK(k == (n + 1) / 2, "hex2raw output length depends only on the input length");
#endif
	vp_done();
}
