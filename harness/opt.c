/* command line options against their definition */
#include "vp.h"
#include "optparser.h"
#include "logger.h"
#include <sys/types.h>
static char out[64]; static unsigned no;
ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(fd == 1, "standard output"); for(size_t i = 0; i < n && no < 64; i++) out[no++] = ((char*)b)[i]; return n; }
/* the option text after the leading dashes (one, or two for long names), or nothing */
static char *body(char *s, unsigned k) { if(*s != '-') return 0; s++; if(k > 1 && *s == '-') s++; return s; }
static int is(const char *a, const char *b, unsigned k) { for(unsigned i = 0; i < k; i++) if(a[i] != b[i]) return 0; return 1; }
void harness(void) {
	unsigned i, j, n = NA; char *av[6]; av[0] = vp_cstr(MODE == 1 || vp_choose(2) ? "-a" : "-a=prog");
	for(i = 1; i <= n; i++) {
#ifdef ALPHA
		av[i] = vp_str_in(L, ALPHA);
#else
		av[i] = vp_str(L);
#endif
		vp_readonly(av[i]);
	}
	n = 1 + vp_choose(n + 1); char **v = vp_block(n * sizeof *v); for(i = 0; i < n; i++) v[i] = av[i]; vp_readonly(v);
	op_state *st = vp_block(sizeof *st); op_init(st, n, v);
#if MODE == 2
	op_printall(st); unsigned at = 0; for(i = 1; i < n; i++) { for(j = 0; av[i][j]; j++) CHECK(out[at++] == av[i][j], "every argument is printed"); CHECK(out[at++] == '\n', "on its own line"); } CHECK(at == no, "nothing else");
#else
	unsigned k = 1 + vp_choose(KL); char *a = vp_block(k + 1); for(i = 0; i < k; i++) { a[i] = vp_u8(); vp_assume(a[i] != 0 && a[i] != '='); } a[k] = 0; vp_readonly(a); vp_assume(a[0] != '-'); stringptr s = {a, k};
#if MODE == 0
	char *r = op_get(st, &s);
	for(i = 1; i < n; i++) {
		char *b = body(v[i], k); if(!b) continue; unsigned bl = strlen(b);
		if(bl > k && is(b, a, k) && b[k] == '=') { CHECK(r == b + k + 1, "name=value returns the value"); break; }
		if(bl == k && is(b, a, k) && i + 1 < n) { CHECK(r == v[i + 1], "the argument after the name is the value"); break; }
	}
	if(i == n) CHECK(r == 0, "no such option");
	for(j = 1; j < n; j++) if(r == v[j]) vp_obs(j); vp_obs(!!r);
#elif MODE == 1
	int r = op_hasflag(st, &s), w = 0; vp_obs(r);
	for(i = 1; i < n; i++) { char *b = body(v[i], k); if(b && strlen(b) == k && is(b, a, k)) w = 1; }
	CHECK(!!r == w, "a flag is present exactly if an argument spells it");
#elif MODE == 3
	/* documented: single letter flags may be combined, as in -ltp */
	char *x[2] = {av[0], vp_cstr("-ltp")}; op_init(st, 2, x); stringptr t = {vp_cstr("t"), 1}; CHECK(op_hasflag(st, &t), "single letter flags may be combined in one argument (-ltp)");
#endif
#endif
	vp_done();
}
