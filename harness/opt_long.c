/* longer command lines: scripted arguments with options that share prefixes, a few arbitrary characters */
#include "vp.h"
#include "long.h"
#include "optparser.h"
static char *body(char *s, unsigned k) { if(*s != '-') return 0; s++; if(k > 1 && *s == '-') s++; return s; }
static int is(const char *a, const char *b, unsigned k) { for(unsigned i = 0; i < k; i++) if(a[i] != b[i]) return 0; return 1; }
static const char *names[] = { "verbose", "verb", "v", "verbose2", "x", "output-file", "o", "out" };
void harness(void) {
	unsigned i, j, t, n = 2 + vp_choose(2) * (PEAK - 2); char *av[PEAK]; seed(); av[0] = vp_cstr("--verbose=prog");
	for(i = 1; i < n; i++) { char b[64]; unsigned m = 0; const char *s = names[rnd(8)]; for(j = rnd(8) ? rnd(4) ? 1 + !!s[1] : 1 : rnd(4); j; j--) b[m++] = '-'; for(; *s; s++) b[m++] = *s; if(rnd(3) == 0) b[m++] = '='; if(rnd(3) == 0) for(j = rnd(20); j; j--) b[m++] = "ab=-"[rnd(4)];
		av[i] = vp_block(m + 1); memcpy(av[i], b, m); av[i][m] = 0; if(rnd(3) == 0) { unsigned p = rnd(m); av[i][p] = vp_u8(); vp_assume(av[i][p] != 0); } vp_readonly(av[i]); }
	char **v = vp_block(n * sizeof *v); for(i = 0; i < n; i++) v[i] = av[i]; vp_readonly(v); op_state *st = vp_block(sizeof *st); op_init(st, n, v);
	for(t = 0; t < STEPS; t++) {
		const char *w = names[rnd(8)]; unsigned k = strlen(w); char *a = vp_cstr(w); vp_readonly(a); stringptr s = {a, k}; char *r = op_get(st, &s); int fl = 0;
		for(i = 1; i < n; i++) { char *b = body(v[i], k); if(b && strlen(b) == k && is(b, a, k)) fl = 1; }
		CHECK(!!op_hasflag(st, &s) == fl, "a flag is present exactly if an argument spells it");
		for(i = 1; i < n; i++) { char *b = body(v[i], k); if(!b) continue; unsigned bl = strlen(b);
			if(bl > k && is(b, a, k) && b[k] == '=') { CHECK(r == b + k + 1, "name=value returns the value"); break; }
			if(bl == k && is(b, a, k) && i + 1 < n) { CHECK(r == v[i + 1], "the argument after the name is the value"); break; } }
		if(i == n) CHECK(r == 0, "no such option"); vp_obs(!!r);
	}
	vp_done();
}
