/* directory listings with many results, and directories of every length with characters that are special to glob */
#define _GNU_SOURCE
#include "vp.h"
#include "long.h"
#include <glob.h>
#include "filelist.h"
#ifndef NAMEX
#define NAMEX 0 /* names of the longest size: the results are longer than PATH_MAX */
#endif
static char *names[PEAK]; static unsigned nlen[PEAK], nnames, nglob, nfree; static glob_t *gg; static char pat[9000]; static unsigned npat; static int gret;
int vp_glob(const char *p, int f, int (*e)(const char*, int), glob_t *g) { nglob++; gg = g; for(npat = 0; p[npat]; npat++) if(npat < sizeof pat - 1) pat[npat] = p[npat]; if(gret) return gret; g->gl_pathc = nnames; g->gl_pathv = names; return 0; }
void vp_globfree(glob_t *g) { CHECK(g == gg, "the result of glob is released"); nfree++; }
static unsigned mkflags(unsigned c) { return FLF_NONE | (c & 1 ? FLF_INCLUDE_DOT : 0) | (c & 2 ? FLF_INCLUDE_DOT_DOT : 0) | (c & 4 ? FLF_EXCLUDE_PATH : 0) | (c & 8 ? FLF_INCLUDE_HIDDEN : 0); }
static int special(char c) { return c == '[' || c == '?' || c == '*' || c == '\\'; }
void harness(void) {
	unsigned i, j; filelist *l = vp_block(sizeof *l); memset(l, 0xee, sizeof *l); seed(); static const unsigned lens[] = { LENS }; unsigned nd = lens[vp_choose(sizeof lens / sizeof *lens)];
	char *d = vp_block(nd); for(i = 0; i < nd; i++) d[i] = NAMEX || rnd(6) ? 'a' + rnd(26) : rnd(2) ? "[]?*\\"[rnd(5)] : '/'; stringptr dir = {d, nd}, mask = {vp_cstr("*.c"), 3};
#if MODE == 0
	for(i = 0; i < 3; i++) { j = rnd(nd); d[j] = vp_u8(); vp_assume(d[j] != 0); } vp_readonly(d); gret = GLOB_NOMATCH; int r = filelist_search(l, &dir, &mask, 0); vp_obs(r);
	unsigned sp = 0; for(i = 0; i < nd; i++) sp += special(d[i]);
	CHECK(r == gret || (r == -1 && nd * 2 + 5 > 4000), "searched, or refused because it is too long"); if(r == -1) vp_done();
	for(i = j = 0; j < nd; j++) { char c = pat[i]; if(c == '\\') c = pat[++i]; else CHECK(!special(c), "no character of the directory is special to glob"); i++; CHECK(c == d[j], "the directory comes first"); }
	if(d[nd-1] != '/') { CHECK(pat[i] == '/', "a slash follows the directory"); i++; } CHECK(!memcmp(pat + i, "*.c", 3) && i + 3 == npat, "the mask follows, and nothing else"); (void)sp;
#else
	unsigned fc = vp_choose(16), flags = mkflags(fc), want = 0; static unsigned wk[PEAK], wo[PEAK]; nnames = PEAK; if(d[nd-1] != '/') d[nd-1] = '/';
	for(i = 0; i < nnames; i++) {
		unsigned k = rnd(8), n = nd, dotk = k == 0 ? 1 : k == 1 ? 2 : 0; char t[nd + 300]; memcpy(t, d, nd);
		if(dotk) { t[n++] = '.'; if(k) t[n++] = '.'; } else { unsigned m = 1 + (k == 2) + (NAMEX ? rnd(3) * 127 : 0) + rnd(NAMEX ? 1 : 20); for(j = 0; j < m; j++) t[n++] = 'a' + rnd(26); if(k == 2) t[nd] = '.'; if(k == 3) { char x = vp_u8(); vp_assume(x != 0 && x != '/' && (m > 2 || x != '.')); t[nd + rnd(m)] = x; } }
		if(dotk || rnd(3) == 0) t[n++] = '/'; names[i] = vp_block(n + 1); memcpy(names[i], t, n); names[i][n] = 0; nlen[i] = n;
		if((fc & 8) && ((dotk == 1 && !(fc & 1)) || (dotk == 2 && !(fc & 2)))) continue;
		wk[want] = i; wo[want++] = fc & 4 ? nd : 0;
	}
	vp_oom_at = vp_choose(3) ? 0 : 1 + rnd(PEAK + 6); if(vp_oom_at) { vp_oom = 2; vp_nalloc = 0; }
	int r = filelist_search(l, &dir, &mask, flags); vp_obs(r);
	if(r) { CHECK(r == -1 && vp_nfail && vp_live == 0 && nfree == 1, "fails only without memory, releasing everything"); vp_done(); } CHECK(!vp_nfail, "no success without memory");
	unsigned at = 0, n = stringptrlist_getsize(l->files); stringptr *s;
	if(!(fc & 8)) { if(fc & 1) { s = stringptrlist_get(l->files, at++); CHECK(s && s->size == 2 && !memcmp(s->ptr, "./", 2), "the directory itself is listed on request"); } if(fc & 2) { s = stringptrlist_get(l->files, at++); CHECK(s && s->size == 3 && !memcmp(s->ptr, "../", 3), "the parent directory is listed on request"); } }
	CHECK(n == at + want, "every result is listed, except for unwanted . and ..");
	for(i = 0; i < want; i++) { s = stringptrlist_get(l->files, at + i); const char *e = names[wk[i]] + wo[i]; unsigned m = nlen[wk[i]] - wo[i]; CHECK(s->size == m && s->ptr[m] == 0, "the length of the name"); int ok = 1; for(j = 0; j < m; j++) ok &= s->ptr[j] == e[j]; CHECK(ok, "the name, with or without path"); }
	filelist_free(l); CHECK(vp_live == 0 && nfree == 1, "everything is released");
#endif
	vp_done();
}
