/* IPv4 text conversions */
#include "vp.h"
#include "strlib.h"
static char want[16]; static unsigned nw;
void harness(void) {
	unsigned i, j;
#if MODE == 0
	/* every dotted quad, with or without leading zeros, is parsed to its bytes */
	unsigned v[4]; char t[16]; unsigned n = 0;
	for(i = 0; i < 4; i++) { unsigned nd = 1 + vp_choose(3); v[i] = 0; for(j = 0; j < nd; j++) { unsigned d = vp_u8() % (nd == 3 && j == 0 ? 3 : 10); t[n++] = '0' + d; v[i] = v[i] * 10 + d; } if(nd == 3) vp_assume(v[i] <= 255); if(i < 3) t[n++] = '.'; }
	char *s = vp_block(n + 1); memcpy(s, t, n); s[n] = 0; unsigned char *b = vp_block(4); vp_readonly(s);
	CHECK(ipv4fromstring(s, b) == 1, "a dotted quad is accepted"); int ok = 1;
	for(i = 0; i < 4; i++) { ok &= b[i] == v[i]; vp_obs(b[i]); }
	CHECK(ok, "the address has the bytes of the text"); CHECK(isnumericipv4(s) == 1, "a dotted quad is a numeric address");
#elif MODE == 1
	/* every address is formatted as its shortest dotted quad and parsed back */
	unsigned char *b = vp_block(4), *c = vp_block(4); char *o = vp_block(16); int ok = 1;
	for(i = 0; i < 4; i++) b[i] = vp_u8();
	vp_readonly(b);
	stringfromipv4(b, o);
	for(i = 0; i < 4; i++) { if(b[i] >= 100) want[nw++] = '0' + b[i] / 100; if(b[i] >= 10) want[nw++] = '0' + b[i] / 10 % 10; want[nw++] = '0' + b[i] % 10; if(i < 3) want[nw++] = '.'; }
	for(i = 0; i <= nw; i++) { ok &= o[i] == want[i]; vp_obs(o[i]); }
	CHECK(ok, "the text is the dotted quad");
#if RT
	CHECK(ipv4fromstring(o, c) == 1, "the text is parsed back"); ok = 1; for(i = 0; i < 4; i++) ok &= c[i] == b[i]; CHECK(ok, "parsing the text gives the address back");
	CHECK(isnumericipv4(o) == 1, "the text is a numeric address");
#endif
#elif MODE == 2
	/* the predicate on any text */
	char *s = vp_str(L); vp_readonly(s); unsigned dots = 0, digits = 0, grp = 0, bad = 0, maxg = 0;
	int r = isnumericipv4(s);
	for(i = 0; s[i]; i++) { if(s[i] == '.') { dots++; bad |= !grp; grp = 0; } else if(s[i] >= '0' && s[i] <= '9') { digits++; grp++; if(grp > maxg) maxg = grp; } else bad |= 1; }
	bad |= !grp || dots != 3;
	if(bad) CHECK(r == 0, "a text that is not four numbers separated by dots is no address"); else if(maxg <= 3) CHECK(r == 1, "four numbers of up to three digits are an address"); else if(digits > 12) CHECK(r == 0, "too many digits are no address");
	vp_obs(r);
#elif MODE == 3
	/* any text: nothing outside the text is read, only four bytes are written, incomplete texts are refused */
	char *s = vp_str(L); unsigned dots = 0; unsigned char *b = vp_block(4); vp_readonly(s);
	int r = ipv4fromstring(s, b); for(i = 0; s[i]; i++) dots += s[i] == '.';
	CHECK(r == 0 || r == 1, "yes or no"); CHECK((r == 1) == (dots >= 3), "texts with less than four parts are refused");
#elif MODE == 4
	/* texts close to addresses: one or two characters replaced, inserted or appended */
	static const char *const T[] = { "1.2.3.4", "255.255.255.255", "10.200.30.1", "192.168.100.", "1.22.333", "0.0.0.0" }; const char *t = T[vp_choose(6)]; unsigned n = strlen(t), m = 0, at = vp_choose(n + 1), ins = vp_choose(2); char u[24];
	for(i = 0; i < at; i++) u[m++] = t[i]; u[m++] = vp_u8(); if(ins == 0 && at < n) i++; else if(vp_choose(2)) u[m++] = vp_u8(); for(; i < n; i++) u[m++] = t[i]; 
	for(i = 0; i < m; i++) vp_assume(u[i] != 0); char *s = vp_block(m + 1); memcpy(s, u, m); s[m] = 0; vp_readonly(s); unsigned dots = 0, digits = 0, grp = 0, bad = 0, maxg = 0, ok = 1, v = 0, k = 0; unsigned char *b = vp_block(4); unsigned part[4] = {0};
	int r = isnumericipv4(s), q = ipv4fromstring(s, b);
	for(i = 0; s[i]; i++) { if(s[i] == '.') { dots++; bad |= !grp; grp = 0; } else if(s[i] >= '0' && s[i] <= '9') { digits++; grp++; if(grp > maxg) maxg = grp; if(dots < 4) part[dots] = part[dots] * 10 + s[i] - '0'; } else bad |= 1; }
	bad |= !grp || dots != 3;
	if(bad) CHECK(r == 0, "a text that is not four numbers separated by dots is no address"); else if(maxg <= 3) CHECK(r == 1, "four numbers of up to three digits are an address"); else if(digits > 12) CHECK(r == 0, "too many digits are no address");
	CHECK(q == (dots >= 3), "texts with less than four parts are refused"); if(!bad) { int inr = maxg <= 3; for(i = 0; i < 4; i++) { inr &= part[i] <= 255; ok &= b[i] == part[i]; } if(inr) CHECK(ok, "the address has the bytes of the text"); }
	vp_obs(r);
#endif
	vp_done();
}
