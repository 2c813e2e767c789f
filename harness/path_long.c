/* long paths: scripted sequences of components (names, names with dots, ".", "..", empty) with arbitrary letters against the component-wise definition */
#include "vp.h"
#include "long.h"
#include <limits.h>
#include "filelib.h"
#include "stringptr.h"
#define MX 6000
static int spec(const char *s, unsigned n, char *want, unsigned *pw) {
	static unsigned st[MX]; unsigned i = 0, k = 0, nw = 0;
	if(!n || s[0] != '/') return 0;
	while(i < n) {
		while(i < n && s[i] == '/') i++;
		unsigned b = i; while(i < n && s[i] != '/') i++;
		unsigned l = i - b;
		if(!l || (l == 1 && s[b] == '.')) continue;
		if(l == 2 && s[b] == '.' && s[b+1] == '.') { if(!k) return 0; nw = st[--k]; continue; }
		st[k++] = nw; want[nw++] = '/'; memcpy(want + nw, s + b, l); nw += l;
	}
	if(!nw) want[nw++] = '/';
	*pw = nw; return 1;
}
/* components until the path has n characters; c components of depth at least one */
static unsigned gen(char *t, unsigned lim, unsigned up) {
	unsigned n = 0, depth = 0, j, syms = 0; t[n++] = '/';
	while(n + 40 < lim) {
		unsigned m = rnd(12);
		if(m < 5) { unsigned l = 1 + rnd(m == 4 ? 30 : 6); for(j = 0; j < l; j++) t[n++] = 'a' + rnd(26); depth++; if(rnd(lim / 30) == 0 && syms++ < NSYM) { char x = vp_u8(); vp_assume(x != 0 && x != '/'); if(l <= 2) vp_assume(x != '.'); t[n - 1 - rnd(l)] = x; } }
		else if(m == 5) { memcpy(t + n, "..x", 3); n += 3; depth++; } else if(m == 6) { memcpy(t + n, "x..", 3); n += 3; depth++; } else if(m == 7) { unsigned l = 3 + rnd(4); for(j = 0; j < l; j++) t[n++] = '.'; depth++; }
		else if(m == 8) t[n++] = '.'; else if(m == 9) { t[n++] = '.'; t[n++] = 'c'; depth++; }
		else if(m == 10 && (depth || rnd(40) < up)) { t[n++] = '.'; t[n++] = '.'; if(depth) depth--; }
		unsigned sl = rnd(8) ? 1 : 1 + rnd(4); while(sl--) t[n++] = '/';
	}
	if(rnd(2)) { if(rnd(3) == 0 && depth) { t[n++] = '.'; t[n++] = '.'; } else if(rnd(2)) t[n++] = '.'; else t[n++] = 'z'; }
	return n;
}
static int eq(const char *a, const char *b, unsigned n) { int ok = 1; for(unsigned i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
void harness(void) {
	static char t[MX], want[MX], want2[MX]; unsigned n, nw = 0, nw2 = 0; static const unsigned lens[] = { LENS }; unsigned lim = lens[vp_choose(sizeof lens / sizeof *lens)]; seed();
#if MODE == 0
	n = gen(t, lim, 3); char *s = vp_block(n + 1), *o = vp_block(n + 1), *q = vp_block(n + 1); memcpy(s, t, n); s[n] = 0; memcpy(q, s, n + 1); vp_readonly(s);
	int ok = spec(t, n, want, &nw); char *r = normalizepath_cstr(s, o); vp_obs(!!r);
	CHECK(!!r == ok, "normalizing fails exactly for relative paths and paths above the root"); if(r) { CHECK(r == o && eq(o, want, nw) && o[nw] == 0, "the path is the normalized one"); }
	stringptr p = { q, n }; int rr = normalizepath(&p); CHECK(p.ptr == q, "normalized in place");
	CHECK(!!rr == ok, "normalizing fails exactly for relative paths and paths above the root (2)"); if(rr) { CHECK(p.size == nw && eq(q, want, nw) && q[nw] == 0, "the path is the normalized one (2)"); rr = normalizepath(&p); CHECK(rr && p.size == nw && eq(q, want, nw), "normalizing again changes nothing"); } else CHECK(p.size == n && eq(q, t, n) && q[n] == 0, "a refused path is unchanged");
#elif MODE == 1
	/* second path: the first one, spelled differently, followed by more, or changed */
	n = gen(t, lim, 0); unsigned n2, how = vp_choose(4), i; static char u[2 * MX];
	unsigned ow = spec(t, n, want, &nw); if(!ow) vp_done();
	memcpy(u, t, n); n2 = n;
	if(how == 0) { u[n2++] = '/'; memcpy(u + n2, "x/../y/./z", 10); n2 += 10; } /* below it */
	else if(how == 1) { memcpy(u + n2, "b/c", 3); n2 += 3; } /* a longer name: a sibling, or below if the path ended in a slash */
	else if(how == 2) { u[rnd(n2 - 1) + 1] = vp_u8(); for(i = 0; i < n2; i++) vp_assume(u[i] != 0); }
	else { n2 = nw; memcpy(u, want, nw); n2 -= rnd(3) < n2 ? rnd(2) : 0; u[n2++] = '/'; for(i = 0; i < 6; i++) { u[n2] = vp_u8(); vp_assume(u[n2] != 0); n2++; } }
	char *a = vp_block(n + 1), *b = vp_block(n2 + 1), *w = vp_block(n2 + 1); memcpy(a, t, n); a[n] = 0; memcpy(b, u, n2); b[n2] = 0;
	int ob = spec(u, n2, want2, &nw2); stringptr p = { a, n }, q = { b, n2 }; ssize_t r = getpathdiff(&p, &q, w); vp_obs(r);
	if(!ob) { CHECK(r == -1, "paths that cannot be normalized have no difference"); vp_done(); }
	unsigned base = nw == 1 ? 0 : nw; int child = nw2 >= base && eq(want, want2, base) && (nw2 == base || want2[base] == '/');
	CHECK((r >= 0) == child, "there is a difference exactly if the second path is the first one or below it");
	if(r >= 0) CHECK(r == nw2 - base && eq(w, want2 + base, r) && w[r] == 0, "the difference is the rest of the second path");
#else
	n = gen(t, lim, 3); char *s = vp_block(n); memcpy(s, t, n); s[rnd(n)] = vp_u8(); vp_readonly(s); int sl = -1, dot = -1;
	for(unsigned i = 0; i < n; i++) { if(s[i] == '/') sl = i; if(s[i] == '.') dot = i; }
	stringptr p = { s, n }; char *f = getfilename(&p), *e = getFileExt(s, n);
	CHECK(f == (sl < 0 ? 0 : s + sl + 1), "the file name follows the last slash"); CHECK(e == (dot < 0 ? 0 : s + dot + 1), "the extension follows the last dot");
#endif
	vp_done();
}
