/* ulz_snprintf family: the output is the POSIX rendering, truncated to the buffer */
#include "vp.h"
#include "format.h"
#include "stringptr.h"
#ifndef WMAX
#define WMAX 3
#endif
#ifdef SCRIPT
#include "long.h"
#define CHOOSE rnd
#define STRMAX 40
#else
#define CHOOSE vp_choose
#define STRMAX 2
#endif
static char fmt[200]; static unsigned nf;  static char want[1200]; static unsigned nw; static uint64_t arg[16]; static unsigned na;
static const char HU[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", HL[] = "0123456789abcdef";
/* digits of an arbitrary value <= max (max written in base b) with at most nd digits */
static unsigned dg[24], ndg;
static unsigned val(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }
static unsigned nz;
static uint64_t number(unsigned b, const char *max, unsigned lim) {
	unsigned ml = strlen(max), len, i; uint64_t v = 0;
	len = 1 + CHOOSE(lim < ml ? lim : ml);
#ifdef SCRIPT
	if(len == ml) len--;
#endif
	if(len < ml) { for(i = 0; i < len; i++) dg[i] = (i || (len == 1 && !nz)) ? vp_u8() % b : 1 + vp_u8() % (b - 1); }
	else {
		unsigned j = CHOOSE(ml + 1);
		for(i = 0; i < j; i++) dg[i] = val(max[i]);
		if(j < ml) { unsigned m = val(max[j]); if(j == 0) { if(m < 2) vp_assume(0); dg[0] = 1 + vp_u8() % (m - 1); } else { if(!m) vp_assume(0); dg[j] = vp_u8() % m; } }
		for(i = j + 1; i < ml; i++) dg[i] = vp_u8() % b;
	}
	for(i = 0; i < len; i++) v = v * b + dg[i];
	ndg = len;
	return v;
}
static void puts_(const char *s) { while(*s) fmt[nf++] = *s++; }
enum { LIT, PCT, CH, STR, D, U, X, XX, LD, LU, LLD, LLU, ZD, ZU, P, NKIND };
static void item(unsigned kind, unsigned lim) {
	static const char *spec[] = {"","%","c","s","d","u","x","X","ld","lu","lld","llu","zd","zu","p"};
	static const char *smax[] = {"2147483647","9223372036854775807"}, *smin[] = {"2147483648","9223372036854775808"}, *umax[] = {"4294967295","18446744073709551615"};
	unsigned i, w = 0;
	if(kind == LIT) { char c = vp_u8(); vp_assume(c != 0 && c != '%'); fmt[nf++] = c; want[nw++] = c; return; }
	fmt[nf++] = '%';
	if(kind >= CH && CHOOSE(2)) { /* precision */
		fmt[nf++] = '.';
		if(kind < D) { fmt[nf++] = '9'; w = 9; } else switch(CHOOSE(WMAX)) { case 0: fmt[nf++] = '4'; w = 4; break; case 1: puts_("12"); w = 12; break; case 2: puts_("34"); w = 34; break; case 3: puts_("100"); w = 100; }
	}
	puts_(spec[kind]);
	switch(kind) {
	case PCT: want[nw++] = '%'; return;
	case CH: { unsigned char c = vp_u8(); vp_assume(c != 0); arg[na++] = c; want[nw++] = c; return; }
	case STR: { char *s = vp_strn(CHOOSE(STRMAX + 1)); arg[na++] = (uintptr_t)s; for(; *s; s++) want[nw++] = *s; return; }
	}
	unsigned is64 = kind >= LD, sg = kind == D || kind == LD || kind == LLD || kind == ZD, hex = kind == X || kind == XX || kind == P, neg = sg ? CHOOSE(2) : 0;
	nz = neg; uint64_t v = number(hex ? 16 : 10, hex ? (is64 ? "FFFFFFFFFFFFFFFF" : "FFFFFFFF") : !sg ? umax[is64] : neg ? smin[is64] : smax[is64], lim);
	if(neg) { v = -v; want[nw++] = '-'; }
	arg[na++] = is64 ? v : (uint32_t)v;
	for(i = ndg; i < w; i++) want[nw++] = '0';
	for(i = 0; i < ndg; i++) want[nw++] = kind == X ? HL[dg[i]] : HU[dg[i]];
}
static void build(void) {
	unsigned i;
#ifdef KINDS
	static const unsigned char ks[] = {KINDS};
	for(i = 0; i < K; i++) item(ks[CHOOSE(sizeof ks)], LIM);
#else
	for(i = 0; i < K; i++) item(CHOOSE(NKIND), LIM);
#endif
	fmt[nf] = 0; want[nw] = 0;
}
static unsigned char outbuf[6000]; static unsigned nout; static int outfd;
ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(n < 6000 - nout && vp_valid(b, n), "write is given a valid buffer"); memcpy(outbuf + nout, b, n); nout += n; outfd = fd; return n; }
void harness(void) {
	unsigned i; int ok = 1;
#if MODE == 0
	build();
	unsigned dk = vp_choose(4); size_t ds = dk == 0 ? nw + 1 : dk == 1 ? nw + 2 : dk == 2 ? nw : (nw ? nw - 1 : 0);
	char *d = vp_block(ds);
	ssize_t r = ulz_snprintf(d, ds, vp_cstr(fmt), arg[0], arg[1], arg[2]);
	size_t exp = ds == 0 ? 0 : nw < ds - 1 ? nw : ds - 1;
	CHECK(r == (ssize_t)exp, "the number of bytes stored is returned");
	if(ds) { for(i = 0; i < exp; i++) { ok &= d[i] == want[i]; vp_obs(d[i]); } CHECK(ok, "the output is what printf specifies"); CHECK(d[exp] == 0, "the output is terminated inside the buffer"); }
	vp_obs(r);
#elif MODE == 1
	/* small buffers of every size, and measuring */
	build();
	size_t ds = vp_choose(6); char *d = vp_block(ds);
	if(vp_choose(2)) { ssize_t r = ulz_snprintf(0, vp_choose(2) ? 0 : 7, vp_cstr(fmt), arg[0], arg[1], arg[2]); CHECK(r == (ssize_t)nw, "without a buffer the length is computed"); }
	else { ssize_t r = ulz_snprintf(d, ds, vp_cstr(fmt), arg[0], arg[1], arg[2]); size_t exp = ds == 0 ? 0 : nw < ds - 1 ? nw : ds - 1;
		CHECK(r == (ssize_t)exp, "the number of bytes stored is returned"); if(ds) { for(i = 0; i < exp; i++) ok &= d[i] == want[i]; CHECK(ok, "the output is a prefix of what printf specifies"); CHECK(d[exp] == 0, "the output is terminated inside the buffer"); } }
#elif MODE == 2
	/* invalid formats are refused everywhere */
	unsigned pre = vp_choose(2), form = vp_choose(5); static const char *bad[] = {"%", "%l", "%ll", "%.d", "%z"};
	if(pre) item(vp_choose(NKIND), 1);
	if(form == 0) { puts_(bad[vp_choose(5)]); } else if(form == 1) { fmt[nf++] = '%'; unsigned char c = vp_u8(); vp_assume(c && c != '%' && c != '.' && c != 's' && c != 'c' && c != 'd' && c != 'l' && c != 'z' && c != 'p' && c != 'u' && c != 'x' && c != 'X'); fmt[nf++] = c; fmt[nf++] = 'd'; }
	else if(form == 2) { puts_("%l"); unsigned char c = vp_u8(); vp_assume(c && c != 'd' && c != 'u' && c != 'l'); fmt[nf++] = c; } else if(form == 3) { puts_("%s"); arg[na++] = 0; } else { puts_("%.3"); unsigned char c = vp_u8(); vp_assume(c == 'q' || c == ' '); fmt[nf++] = c; }
	char *f = vp_cstr(fmt), *d = vp_block(8);
	switch(vp_choose(5)) {
	case 0: CHECK(ulz_snprintf(d, 8, f, arg[0], arg[1]) == -1, "an invalid format yields -1"); break;
	case 1: CHECK(ulz_snprintf(0, 0, f, arg[0], arg[1]) == -1, "an invalid format yields -1"); break;
	case 2: ulz_printf(f, arg[0], arg[1]); CHECK(nout == 0, "nothing is printed for an invalid format"); break;
	case 3: ulz_fprintf(5, f, arg[0], arg[1]); CHECK(nout == 0, "nothing is printed for an invalid format"); break;
	case 4: { stringptr *s = stringptr_format(f, arg[0], arg[1]); CHECK(s == 0, "stringptr_format refuses an invalid format"); CHECK(vp_live == 0, "nothing is leaked"); }
	}
#elif MODE == 3
	build(); int which = vp_choose(4); char *f = vp_cstr(fmt); vp_oom = 1;
	if(which == 0) { ulz_printf(f, arg[0], arg[1], arg[2]); CHECK(outfd == (nw ? 1 : 0), "printed to stdout"); }
	else if(which == 1) { ulz_fprintf(7, f, arg[0], arg[1], arg[2]); CHECK(outfd == (nw ? 7 : 0), "printed to the descriptor"); }
	else if(which == 2) { stringptr *s = stringptr_format(f, arg[0], arg[1], arg[2]); if(!s) { CHECK(vp_nfail, "fails only without memory"); CHECK(vp_live == 0, "nothing is leaked"); vp_done(); }
		CHECK(s->size == nw && s->ptr[nw] == 0, "the string has the length of the text"); for(i = 0; i < nw; i++) ok &= s->ptr[i] == want[i]; CHECK(ok, "the text is what printf specifies"); stringptr_free(s); CHECK(vp_live == 0, "one block"); vp_done(); }
	else { CHECK(stringptr_format(0) == 0, "no format"); CHECK(vp_live == 0, "nothing is leaked"); vp_done(); }
	CHECK(nout == nw, "the whole text is printed"); for(i = 0; i < nw; i++) ok &= outbuf[i] == (unsigned char)want[i]; CHECK(ok, "the text is what printf specifies");
#elif MODE == 5
	/* texts around the sizes of the internal buffers: complete while they fit, never more than the text */
	static const unsigned lens[] = { LENS }; unsigned n = lens[vp_choose(sizeof lens / sizeof *lens)], which = vp_choose(3); char *s = vp_block(n + 1); for(i = 0; i < n; i++) s[i] = 'a' + i % 26; s[n] = 0;
	for(i = 0; i < 4 && i < n; i++) { unsigned p = i < 2 ? n - 1 - i : i == 2 ? 0 : n / 2; s[p] = vp_u8(); vp_assume(s[p] != 0); }
	char *f = vp_cstr("<%s>%d"); nw = n + 3; unsigned d = vp_u8() % 10, got; const unsigned char *o;
	if(which == 0) { ulz_printf(f, s, d); o = outbuf; got = nout; CHECK(outfd == 1, "printed to stdout"); } else if(which == 1) { ulz_fprintf(7, f, s, d); o = outbuf; got = nout; CHECK(outfd == 7, "printed to the descriptor"); }
	else { stringptr *r = stringptr_format(f, s, d); CHECK(r != 0, "a string"); got = r->size; o = (void*) r->ptr; CHECK(o[got] == 0, "terminated"); }
	vp_obs(got); CHECK(got <= nw && (nw > (which == 2 ? 999 : 4095) || got == nw), "the whole text");
	for(i = 0; i < got; i++) { unsigned char c = i == 0 ? '<' : i <= n ? s[i - 1] : i == n + 1 ? '>' : '0' + d; ok &= o[i] == c; } CHECK(ok, "the text is what printf specifies");
#elif MODE == 4
	/* formats of many items as the script says; arguments and literals are symbolic */
	seed(); build(); CHECK(nf < sizeof fmt && nw < sizeof want, "harness"); char *f = vp_cstr(fmt);
#define A arg[0], arg[1], arg[2], arg[3], arg[4], arg[5], arg[6], arg[7], arg[8], arg[9], arg[10], arg[11]
	unsigned which = vp_choose(4), dk = vp_choose(5); if(which && dk) vp_done();
	if(which == 0) { size_t ds = dk == 0 ? nw + 1 : dk == 1 ? nw + 2 : dk == 2 ? nw : dk == 3 ? nw / 2 : 33; char *d = vp_block(ds); CHECK(ulz_snprintf(0, 0, f, A) == nw, "without a buffer the length is computed"); ssize_t r = ulz_snprintf(d, ds, f, A); size_t exp = ds == 0 ? 0 : nw < ds - 1 ? nw : ds - 1; CHECK(r == (ssize_t)exp, "the number of bytes stored is returned"); if(ds) { for(i = 0; i < exp; i++) CHECK(d[i] == want[i], "the output is what printf specifies"); CHECK(d[exp] == 0, "the output is terminated inside the buffer"); } vp_done(); }
	if(which == 1) { ulz_printf(f, A); CHECK(outfd == 1 || !nw, "printed to stdout"); } else if(which == 2) { ulz_fprintf(7, f, A); CHECK(outfd == 7 || !nw, "printed to the descriptor"); }
	else { stringptr *s = stringptr_format(f, A); CHECK(s && s->size == nw && s->ptr[nw] == 0, "the string has the length of the text"); for(i = 0; i < nw; i++) CHECK(s->ptr[i] == want[i], "the text is what printf specifies"); stringptr_free(s); CHECK(vp_live == 0, "one block"); vp_done(); }
	CHECK(nout == nw, "the whole text is printed"); for(i = 0; i < nw; i++) CHECK(outbuf[i] == (unsigned char)want[i], "the text is what printf specifies");
#endif
	vp_done();
}
