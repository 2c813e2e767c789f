/* string search, comparison and character class functions against their definitions */
#define _GNU_SOURCE
#include "vp.h"
#include "strlib.h"
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int lead(int c) { return c == ' ' || c == '\t' || c == '\n' || c == ':' || c == ',' || c == '.' || c == ';' || c == '-'; }
static int trail(int c) { return lead(c) || c == '\r'; }
void harness(void) {
	unsigned i, j;
#if MODE <= 2
#ifdef ALPHA
	char *h = vp_str_in(HL, ALPHA); unsigned hl = strlen(h);
#else
	char *h = vp_str(HL); unsigned hl = strlen(h);
#endif
	unsigned nl = 1 + vp_choose(NL); char *n = vp_block(nl); /* not terminated */
	for(i = 0; i < nl; i++) {
#ifdef ALPHA
		unsigned char c = vp_u8(); int ok = 0; for(j = 0; j < sizeof NALPHA - 1; j++) ok |= c == (unsigned char)NALPHA[j]; vp_assume(ok); n[i] = c;
#else
		n[i] = vp_u8(); vp_assume(n[i] != 0);
#endif
	}
	vp_readonly(h); vp_readonly(n);
	char *r = MODE == 0 ? strstr_uc(h, n, nl) : MODE == 1 ? strstar(h, n, nl) : findword(h, n, nl);
	vp_obs(r ? r - h + 1 : 0);
	CHECK(!r || (r >= h && r <= h + hl), "the result lies in the text");
	/* the first position where it matches */
	for(i = 0; i + nl <= hl; i++) {
		int m = 1;
		for(j = 0; j < nl; j++) m &= MODE == 1 ? (n[j] == '*') | (h[i+j] == n[j]) : (char)up(h[i+j]) == n[j];
		if(MODE == 2) m &= (i == 0 || lead(h[i-1])) & (h[i+nl] == 0 || trail(h[i+nl]));
		if(m) { CHECK(r == h + i, "the first match is returned"); break; }
	}
	if(i + nl > hl) CHECK(r == 0, "nothing is returned when nothing matches");
	CHECK(!strstr_uc(0, n, nl) && !strstr_uc(h, 0, nl) && !strstr_uc(h, n, 0) && !strstar(0, n, nl) && !strstar(h, 0, 1) && !strstar(h, n, 0), "missing arguments match nothing");
#elif MODE == 3
	
#ifdef EQL
	static const unsigned el[] = { EQL }; unsigned k = el[vp_choose(sizeof el / sizeof *el)]; char *a = vp_strn(k), *b = vp_strn(vp_choose(2) ? k - vp_choose(3) : k + 1);
#else
	char *a = vp_str(L), *b = vp_str(L);
#endif
	 unsigned la = strlen(a), lb = strlen(b); int m = la >= lb; vp_readonly(a); vp_readonly(b);
	int r = strends(a, b);
	for(i = 0; m && i < lb; i++) m = a[la - lb + i] == b[i];
	CHECK(!!r == m, "strends tells whether the text ends with the other");
	char c = vp_u8(); int f = 0; for(i = 0; i < la; i++) f |= a[i] == c; vp_assume(c != 0);
	CHECK(!!containsChar(a, c) == f, "containsChar tells whether the character occurs"); CHECK(containsChar(0, c) == 0, "no text contains nothing");
#elif MODE == 4
	unsigned n = NLEN(L); char *s = vp_block(n); vp_bytes(s, n); vp_oom = 1; vp_readonly(s);
	char *r = strdup_n(s, n); int ok = 1;
	if(!n) { CHECK(!r && vp_live == 0, "nothing to copy"); vp_done(); }
	if(!r) { CHECK(vp_nfail && vp_live == 0, "fails only without memory"); vp_done(); }
	for(i = 0; i < n; i++) ok &= r[i] == s[i]; CHECK(ok && r != s, "the copy has the contents"); CHECK(r[n] == 0, "the copy is terminated"); CHECK(strdup_n(0, 3) == 0, "nothing to copy");
	CHECK(vp_live == 1, "one block"); free(r);
#else
	char *p = vp_block(1); *p = vp_u8(); unsigned char c = *p;
	int lo = c >= 'a' && c <= 'z', u = c >= 'A' && c <= 'Z', d = c >= '0' && c <= '9';
	CHECK(!!isLower(p) == lo, "isLower"); CHECK(!!isUpper(p) == u, "isUpper"); CHECK(!!isNumber(p) == d, "isNumber"); CHECK(!!isLetter(p) == (lo | u), "isLetter"); CHECK(!!isAlpha(p) == (lo | u | d), "isAlpha");
	makelower(p); CHECK((unsigned char)*p == (u ? c + 32 : c), "makelower"); *p = c; makeupper(p); CHECK((unsigned char)*p == (lo ? c - 32 : c), "makeupper");
#endif
	vp_done();
}
