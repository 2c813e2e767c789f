/* directory listing on top of glob: the pattern given to glob and the resulting list */
#define _GNU_SOURCE
#include "vp.h"
#include <glob.h>
#include "filelist.h"
static char pat[64]; static unsigned npat; static int gflags, gret, nglob, nfree, ndirs; static glob_t *gg; static char *names[4]; static unsigned nlen[4], nnames; static char keep[4][16];
int vp_glob(const char *p, int f, int (*e)(const char*, int), glob_t *g) {
	nglob++; gflags = f; gg = g; for(npat = 0; p[npat]; npat++) { if(npat < 63) pat[npat] = p[npat]; }
	if(gret) return gret;
	g->gl_pathc = nnames; g->gl_pathv = names; return 0;
}
void vp_globfree(glob_t *g) { CHECK(g == gg, "the result of glob is released"); nfree++; }
static unsigned mkflags(unsigned c) { return FLF_NONE | (c & 1 ? FLF_INCLUDE_DOT : 0) | (c & 2 ? FLF_INCLUDE_DOT_DOT : 0) | (c & 4 ? FLF_EXCLUDE_PATH : 0) | (c & 8 ? FLF_INCLUDE_HIDDEN : 0); }
static int special(char c) { return c == '[' || c == '?' || c == '*' || c == '\\'; }
void harness(void) {
	unsigned i, j; filelist *l = vp_block(sizeof *l); memset(l, 0xee, sizeof *l);
#if MODE == 0
	/* the directory is taken literally, the mask as pattern */
	unsigned nd = vp_choose(LD + 1), nm = vp_choose(LM + 1); char *d = vp_block(nd), *m = vp_block(nm);
	for(i = 0; i < nd; i++) { d[i] = vp_u8(); vp_assume(d[i] != 0); } for(i = 0; i < nm; i++) { m[i] = vp_u8(); vp_assume(m[i] != 0); }
	stringptr dir = {d, nd}, mask = {m, nm}; int nulldir = vp_choose(2), fc = vp_choose(16), flags = mkflags(fc); gret = vp_choose(2) ? GLOB_NOMATCH : GLOB_NOSPACE; vp_readonly(d); vp_readonly(m);
	int r = filelist_search(l, nulldir ? 0 : &dir, &mask, flags); vp_obs(r); vp_obs(nglob);
	if(!nm) { CHECK(r == -1 && !nglob, "an empty mask is refused"); vp_done(); }
	CHECK(nglob == 1 && r == gret && vp_live == 0, "the result of glob is returned");
	CHECK((gflags & GLOB_MARK) && !(gflags & (GLOB_NOESCAPE|GLOB_BRACE|GLOB_TILDE|GLOB_NOCHECK|GLOB_APPEND|GLOB_DOOFFS|GLOB_ONLYDIR|GLOB_NOMAGIC|GLOB_ALTDIRFUNC|GLOB_NOSORT)), "directories are marked, escapes are understood, results are sorted");
	CHECK(!!(gflags & GLOB_PERIOD) == !!(fc & 8), "hidden files are included on request only");
	if(nulldir || !nd) { d = "./"; nd = 2; }
	for(i = j = 0; j < nd; j++) { char c = pat[i]; if(c == '\\') c = pat[++i]; else CHECK(!special(c), "no character of the directory is special to glob"); i++; CHECK(c == d[j], "the directory comes first"); }
	if(d[nd-1] != '/') { CHECK(pat[i] == '/', "a slash follows the directory"); i++; }
	for(j = 0; j < nm; j++, i++) CHECK(pat[i] == m[j], "the mask follows"); CHECK(i == npat, "nothing else follows");
#elif MODE == 1
	/* the list */
	unsigned fc = vp_choose(16), flags = mkflags(fc); nnames = 1 + vp_choose(NN); vp_oom = OOM; unsigned want = 0, wk[8], wo[8], wl[8];
	for(i = 0; i < nnames; i++) {
		/* a result: the directory (with slash), a name, and a slash if it is a directory */
		char t[16]; unsigned n = 0, b, k; t[n++] = 'd'; if(vp_choose(2)) t[n++] = '.'; t[n++] = '/'; b = n;
		k = vp_choose(5); if(k == 0) t[n++] = '.'; else if(k == 1) { t[n++] = '.'; t[n++] = '.'; } else if(k == 4) { t[n++] = '.'; t[n++] = '.'; t[n++] = '.'; }
		else for(j = 0; j < k - 1; j++) { t[n] = vp_u8(); vp_assume(t[n] != 0 && t[n] != '/'); n++; }
		int dotk = k == 0 ? 1 : k == 1 ? 2 : 0;
		if(k == 2) vp_assume(t[b] != '.'); if(k == 3) vp_assume(!(t[b] == '.' && t[b+1] == '.'));
		if(dotk || vp_choose(2)) t[n++] = '/';
		names[i] = vp_block(n + 1); memcpy(names[i], t, n); names[i][n] = 0; nlen[i] = n; memcpy(keep[i], t, n);
		if((fc & 8) && ((dotk == 1 && !(fc & 1)) || (dotk == 2 && !(fc & 2)))) continue;
		wk[want] = i; wo[want] = fc & 4 ? b : 0; wl[want] = n - wo[want]; want++;
	}
	stringptr dir = {"d", 1}, mask = {"*", 1};
	int r = filelist_search(l, &dir, &mask, flags); vp_obs(r);
	if(r) { CHECK(r == -1 && OOM && vp_nfail && vp_live == 0 && nfree == 1, "fails only without memory, releasing everything"); vp_done(); }
	unsigned at = 0, n = stringptrlist_getsize(l->files); CHECK(nfree == 0, "the names are kept"); stringptr *s;
	if(!(fc & 8)) {
		if(fc & 1) { s = stringptrlist_get(l->files, at); CHECK(s && s->size == 2 && !memcmp(s->ptr, "./", 2), "the directory itself is listed on request"); at++; }
		if(fc & 2) { s = stringptrlist_get(l->files, at); CHECK(s && s->size == 3 && !memcmp(s->ptr, "../", 3), "the parent directory is listed on request"); at++; }
	}
	CHECK(n == at + want, "every result is listed, except for unwanted . and ..");
	for(i = 0; i < want; i++) { s = stringptrlist_get(l->files, at + i); CHECK(s->size == wl[i], "the length of the name"); int ok = 1; for(j = 0; j < wl[i]; j++) ok &= s->ptr[j] == keep[wk[i]][wo[i] + j]; CHECK(ok && s->ptr[wl[i]] == 0, "the name, with or without path"); }
	filelist_free(l); CHECK(vp_live == 0 && nfree == 1, "everything is released");
#else
	/* long directories and masks */
	unsigned nd = LMIN + vp_choose(LMAX - LMIN + 1), nm = 1 + vp_choose(3), sp = vp_choose(3); char *d = vp_block(nd), *m = vp_block(nm); memset(d, 'a', nd); memset(m, 'm', nm);
	if(sp) d[nd - 1] = '*'; if(sp > 1) memset(d, '?', nd); stringptr dir = {d, nd}, mask = {m, nm}; gret = GLOB_NOMATCH;
	nglob = 0; int r = filelist_search(l, &dir, &mask, 0); CHECK(r == -1 || r == GLOB_NOMATCH, "refused or searched");
#endif
	vp_done();
}
