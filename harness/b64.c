/* base64: MODE 0 encode = RFC 4648 and decodes back; 1 decode accepts exactly well-formed input; 2 string encoder */
#include "vp.h"
#include "strlib.h"
#ifdef LENS
#define DLEN (BASE64DEC_BUFSIZE(n) + 1 - vp_choose(3))
#define DLEN2 (BASE64ENC_BUFSIZE(n) + 1 - vp_choose(4))
#else
#define DLEN vp_choose(DL + 1)
#define DLEN2 DLEN
#endif
static const char T64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(int c) { int u = (c >= 'A') & (c <= 'Z'), l = (c >= 'a') & (c <= 'z'), d = (c >= '0') & (c <= '9'); return (-u & (c - 'A')) | (-l & (c - 'a' + 26)) | (-d & (c - '0' + 52)) | (-(c == '+') & 62) | (-(c == '/') & 63); }
static int isal(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/'); }
static void expect_enc(const unsigned char *s, unsigned n, const char *d) {
	unsigned o = 0, i = 0; int ok = 1;
	for(; i < n; i += 3, o += 4) {
		unsigned r = n - i, a = s[i], b = r > 1 ? s[i+1] : 0, c = r > 2 ? s[i+2] : 0;
		ok &= d[o] == T64[a >> 2]; ok &= d[o+1] == T64[(a & 3) << 4 | b >> 4];
		ok &= d[o+2] == (r > 1 ? T64[(b & 15) << 2 | c >> 6] : '='); ok &= d[o+3] == (r > 2 ? T64[c & 63] : '=');
#ifdef LENS
		CHECK(ok, "base64 encoding is the RFC 4648 encoding"); ok = 1;
#endif
	}
	CHECK(ok, "base64 encoding is the RFC 4648 encoding"); CHECK(d[o] == 0, "encoding is terminated");
}
void harness(void) {
#if MODE == 0
	unsigned n = NLEN(N), i; unsigned char *s = vp_block(n); vp_bytes(s, n); vp_readonly(s);
	char *d = vp_block(BASE64ENC_BUFSIZE(n));
	base64enc(d, s, n); expect_enc(s, n, d); for(i = 0; d[i]; i++) vp_obs(d[i]);
	unsigned char *b = vp_block(BASE64DEC_BUFSIZE(BASE64ENC_BYTES(n)));
	size_t r = base64dec(b, d, BASE64DEC_BUFSIZE(BASE64ENC_BYTES(n)));
	CHECK(r == n, "decoding an encoding returns the original length");
	int ok = 1; for(i = 0; i < n; i++) { ok &= b[i] == s[i];
#ifdef LENS
		CHECK(ok, "decoding an encoding returns the original bytes"); ok = 1;
#endif
	}
	CHECK(ok, "decoding an encoding returns the original bytes"); CHECK(b[n] == 0, "decoded data is terminated");
#elif MODE == 1
	unsigned n0 = NLEN(L); char *s = vp_strn(n0); unsigned n = n0, dl = DLEN, i; vp_readonly(s);
#ifdef LENS
	for(i = 0; i + 5 < n; i++) vp_assume(isal((unsigned char)s[i])); /* malformed only near the end; the short texts are malformed anywhere */
#endif
	unsigned char *b = vp_block(dl);
	unsigned pads = 0; int wf = n > 0 && n % 4 == 0;
	if(wf) { int p1 = s[n-1] == '=', p2 = p1 & (s[n-2] == '='); for(i = 0; i < n - 2; i++) wf &= isal((unsigned char)s[i]); wf &= p2 | isal((unsigned char)s[n-2]); wf &= p1 | isal((unsigned char)s[n-1]); pads = p1 + p2; }
	size_t r = base64dec(b, s, dl); vp_obs(r);
	if(n == 0) { CHECK(r == 0, "no input decodes to nothing"); vp_done(); }
	int fits = dl >= BASE64DEC_BUFSIZE(n);
	size_t want = wf & fits ? n / 4 * 3 - pads : 0;
	CHECK(r == want, "base64dec returns the decoded size for well-formed input that fits and 0 for anything else");
	if(r) {
		int ok = 1; unsigned o = 0;
		for(i = 0; i < n; i += 4) { unsigned x = val((unsigned char)s[i]) << 18 | val((unsigned char)s[i+1]) << 12 | val((unsigned char)s[i+2]) << 6 | val((unsigned char)s[i+3]);
			unsigned char e[3] = { x >> 16, x >> 8, x }; for(unsigned k = 0; k < 3; k++, o++) ok &= (o >= r) | (b[o] == e[k]);
#ifdef LENS
			CHECK(ok, "decoded bytes are right"); ok = 1;
#endif
		}
		CHECK(ok, "decoded bytes are right");
	}
#else
	unsigned n = NLEN(L); char *s = vp_strn(n); unsigned dl = DLEN2, i; vp_readonly(s); char *d = vp_block(dl);
	int r = base64enc_str(d, (unsigned char*)s, dl); vp_obs(r);
	CHECK(!!r == (dl >= BASE64ENC_BUFSIZE(n)), "base64enc_str succeeds exactly when the output fits");
	if(r) expect_enc((unsigned char*)s, n, d);
	else if(dl) { int t = 0; for(i = 0; i < dl; i++) t |= d[i] == 0; CHECK(t, "truncated output is terminated"); }
#endif
	vp_done();
}
