/* the replacements of stdio functions print the same text to the same stream */
#define _GNU_SOURCE
#include "vp.h"
#include <stdio.h>
#include <sys/types.h>
#include "stdio-repl.h"
#ifdef LENS
#define LONGSTR longstr()
#else
#define LONGSTR vp_str(L)
#endif
#ifndef OUTMAX
#define OUTMAX 64
#endif
#include <stdarg.h>
static char out[OUTMAX]; static unsigned no, wfd;
ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(fd == wfd, "the right stream"); CHECK(vp_valid(b, n), "the bytes exist"); CHECK(n < OUTMAX - no, "no more than the text"); memcpy(out + no, b, n); no += n; return n; }
static int eno; char *vp_strerror(int e) { CHECK(e == eno, "the error at the time of the call"); return (char*) "No"; }
static char want[OUTMAX]; static unsigned nw; static void w(const char *s, unsigned n) { for(unsigned i = 0; i < n; i++) want[nw++] = s[i]; }
#ifdef LENS
static char *longstr(void) { static const unsigned ls[] = { LENS }; unsigned n = ls[vp_choose(sizeof ls / sizeof *ls)], i; char *s = vp_block(n + 1); for(i = 0; i < n; i++) s[i] = 'a' + i % 23; s[n] = 0; for(i = n / 2; i < n / 2 + 4; i++) { s[i] = vp_u8(); vp_assume(s[i] != 0); } return s; }
#endif
static int vs(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
void harness(void) {
	char *s = LONGSTR, *t = vp_str(2); unsigned n = strlen(s), m = strlen(t), i, d = vp_u8() % 10; int ok = 1; vp_readonly(s); vp_readonly(t); char dg[1] = {'0' + d}, sn[16]; int r;
	for(i = 0; i < n; i++) vp_assume(s[i] != '%');
	switch(vp_choose(9)) {
		case 0: wfd = 1; puts(s); w(s, n); w("\n", 1); break;
		case 1: wfd = 2; eno = errno = ENOENT; perror(s); w(s, n); w(": No\n", 5); break;
		case 2: wfd = 1; printf("%d<%s>", d, s); w(dg, 1); w("<", 1); w(s, n); w(">", 1); break;
		case 3: wfd = 2; fprintf(stderr, "%s%s", s, t); w(s, n); w(t, m); break;
		case 4: wfd = 1; fprintf(stdout, "%s%%%u", s, d); w(s, n); w("%", 1); w(dg, 1); break;
		case 5: wfd = 7; dprintf(7, "%c%s", dg[0], s); w(dg, 1); w(s, n); break;
		case 6: wfd = 9; r = snprintf(out, OUTMAX - 48, "%s-%x", s, d); CHECK(r == n + 2, "the length"); no = r; w(s, n); w("-", 1); w(dg, 1); break;
		case 8: wfd = 9; r = vs(out, OUTMAX - 48, "%s:%d", s, d); CHECK(r == n + 2, "the length"); no = r; w(s, n); w(":", 1); w(dg, 1); break;
		case 7: wfd = 1; printf(s); w(s, n); break;
	}
	CHECK(no == nw, "exactly the text is printed"); for(i = 0; i < nw && i < no; i++) { ok &= out[i] == want[i]; vp_obs(out[i]); } CHECK(ok, "exactly the text is printed");
	vp_done();
}
