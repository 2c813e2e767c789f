/* path normalisation against the component-wise definition, path difference, file name parts */
#include "vp.h"
#include "filelib.h"
#include "stringptr.h"
static char want[64]; static unsigned nw;
/* definition: split at '/', drop empty and ".", ".." removes the previous component (none: failure) */
static int spec(const char *s, unsigned n) {
	unsigned i = 0, st[32], k = 0; nw = 0;
	if(!n || s[0] != '/') return 0;
	while(i < n) {
		while(i < n && s[i] == '/') i++;
		unsigned b = i; while(i < n && s[i] != '/') i++;
		unsigned l = i - b;
		if(!l || (l == 1 && s[b] == '.')) continue;
		if(l == 2 && s[b] == '.' && s[b+1] == '.') { if(!k) return 0; nw = st[--k]; continue; }
		st[k++] = nw; want[nw++] = '/'; for(unsigned j = 0; j < l; j++) want[nw++] = s[b+j];
	}
	if(!nw) want[nw++] = '/';
	return 1;
}
#if MODE <= 1
static char *input(unsigned *len) {
#if GEN == 0
	unsigned n = LMIN + vp_choose(L - LMIN + 1), i; char *s = vp_block(n + 1); for(i = 0; i < n; i++) { s[i] = vp_u8(); vp_assume(s[i] != 0); } s[n] = 0; *len = n; return s;
#else
	/* components from a menu with symbolic letters */
	static char t[64]; unsigned n = 0, k, c = vp_choose(L + 1); t[n++] = '/';
	for(k = 0; k < c; k++) { unsigned m = vp_choose(6); char x = vp_u8(); vp_assume(x != 0 && x != '/' && x != '.');
		switch(m) { case 0: t[n++] = x; break; case 1: t[n++] = '.'; break; case 2: t[n++] = '.'; t[n++] = '.'; break; case 3: t[n++] = '.'; t[n++] = '.'; t[n++] = x; break; case 4: t[n++] = x; t[n++] = '.'; t[n++] = '.'; break; case 5: break; }
		if(k + 1 < c || vp_choose(2)) t[n++] = '/'; }
	char *s = vp_block(n + 1); memcpy(s, t, n); s[n] = 0; *len = n; return s;
#endif
}
#endif
void harness(void) {
	unsigned i, n; int ok = 1;
#if MODE == 0
	char *s = input(&n), *o = vp_block(n + 1), *keep = vp_block(n + 1); memcpy(keep, s, n + 1);
	int sp = spec(s, n); vp_readonly(keep);
	char *r = normalizepath_cstr(keep, o); vp_obs(!!r);
	CHECK(!!r == sp, "normalizing fails exactly for relative paths and paths above the root");
	if(r) { CHECK(r == o, "the buffer is returned"); for(i = 0; i < nw; i++) { ok &= o[i] == want[i]; vp_obs(o[i]); } CHECK(ok && o[nw] == 0, "the path is the normalized one"); }
#elif MODE == 1
	char *s = input(&n); stringptr p = {s, n}; char keep[64]; memcpy(keep, s, n + 1);
	int sp = spec(s, n), r = normalizepath(&p); vp_obs(r);
	CHECK(p.ptr == s, "normalized in place");
	CHECK(!!r == sp, "normalizing fails exactly for relative paths and paths above the root");
	if(r) { CHECK(p.size == nw, "the size is that of the normalized path"); for(i = 0; i < nw; i++) { ok &= s[i] == want[i]; vp_obs(s[i]); } CHECK(ok && s[nw] == 0, "the path is the normalized one"); }
	else { for(i = 0; i <= n; i++) ok &= s[i] == keep[i]; CHECK(ok && p.size == n, "a refused path is unchanged"); }
#elif MODE == 2
	/* long paths */
	n = LMIN + vp_choose(L - LMIN + 1); char *s = vp_block(n + 1); memset(s, 'a', n); s[0] = '/'; s[n] = 0; for(i = 90; i < n; i += 100) s[i] = '/';
	int t = vp_choose(2); if(t) s[n - 1] = '/';
	stringptr p = {s, n}; int r = normalizepath(&p);
	if(n < 4096) CHECK(r == 1 && p.size == n - t, "a long path is normalized"); else CHECK(!r || p.size <= n, "an overlong path is refused or normalized");
	CHECK(p.ptr[p.size] == 0, "terminated");
#elif MODE == 3
	/* difference of two paths */
	char *a = vp_block(24), *b = vp_block(24), wa[24], wb[24]; unsigned na, nb, la = 1 + vp_choose(LA), lb = 1 + vp_choose(LB); char *w = vp_block(lb + 1);
	a[0] = b[0] = '/'; for(i = 1; i < la; i++) { a[i] = vp_u8(); vp_assume(a[i] != 0); } for(i = 1; i < lb; i++) { b[i] = vp_u8(); vp_assume(b[i] != 0); } a[la] = b[lb] = 0;
	int sa = spec(a, la); na = nw; memcpy(wa, want, nw); int sb = spec(b, lb); nb = nw; memcpy(wb, want, nw);
	stringptr p = {a, la}, q = {b, lb};
	ssize_t r = getpathdiff(&p, &q, w); vp_obs(r);
	if(!sa || !sb) { CHECK(r == -1, "paths that cannot be normalized have no difference"); vp_done(); }
	CHECK(p.size == na && q.size == nb, "both paths are left normalized"); for(i = 0; i < na; i++) ok &= a[i] == wa[i]; for(i = 0; i < nb; i++) ok &= b[i] == wb[i]; CHECK(ok, "both paths are left normalized (text)");
	unsigned base = na == 1 ? 0 : na; int child = nb >= base;
	for(i = 0; child && i < base; i++) child = wa[i] == wb[i];
	if(child && nb > base && wb[base] != '/') child = 0;
	CHECK((r >= 0) == child, "there is a difference exactly if the second path is the first one or below it");
	if(r >= 0) { CHECK(r == nb - base, "the difference has the length of the rest"); for(i = 0; i < nb - base; i++) ok &= w[i] == wb[base + i]; CHECK(ok && w[r] == 0, "the difference is the rest of the second path"); }
#elif MODE == 4
	/* parts */
	n = vp_choose(L + 1); char *s = vp_block(n); vp_bytes(s, n); vp_readonly(s); int slash = -1, dot = -1;
	for(i = 0; i < n; i++) { if(s[i] == '/') slash = i; if(s[i] == '.') dot = i; }
	stringptr p = {s, n}; char *f = getfilename(&p), *e = getFileExt(s, n);
	vp_obs(f ? f - s : 99); vp_obs(e ? e - s : 99);
	if(slash < 0) CHECK(f == 0, "no slash, no file name"); else CHECK(f == s + slash + 1, "the file name follows the last slash");
	if(dot < 0) CHECK(e == 0, "no dot, no extension"); else CHECK(e == s + dot + 1, "the extension follows the last dot");
#endif
	vp_done();
}
