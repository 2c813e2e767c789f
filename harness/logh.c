/* log output: exactly the text, to the given descriptor */
#define _GNU_SOURCE
#include "vp.h"
#include <sys/types.h>
#include "logger.h"
#include <time.h>
static time_t tt; static struct tm tmv;
time_t vp_time(time_t *t) { if(t) *t = tt; return tt; }
struct tm *vp_localtime_r(const time_t *t, struct tm *o) { CHECK(*t == tt, "the current time is broken down"); *o = tmv; return o; }
#ifndef OUTMAX
#define OUTMAX 96
#endif
static char out[OUTMAX]; static unsigned no; static int wfd;
ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(fd == wfd, "written to the given descriptor"); CHECK(vp_valid(b, n), "the bytes exist"); CHECK(n < OUTMAX - no, "no more than the text"); for(size_t i = 0; i < n; i++) out[no++] = ((char*)b)[i]; errno = vp_u8(); return n; }
static char tm_text[] = "2020-01-02 03:04:05";
static const char *msg = "No such thing"; static int eno;
char *vp_strerror(int e) { CHECK(e == eno, "the error number at the time of the call"); return (char*) msg; }
static char want[OUTMAX]; static unsigned nw;
static void w(const char *s, unsigned n) { for(unsigned i = 0; i < n; i++) want[nw++] = s[i]; }
static void same(const char *m) { CHECK(no == nw, m); int ok = 1; for(unsigned i = 0; i < nw && i < no; i++) { ok &= out[i] == want[i]; vp_obs(out[i]); } CHECK(ok, m); }
static unsigned dg[24];
static uint64_t decimal(const char *max) { /* any value 0..max */
	unsigned ml = strlen(max), len = 1 + vp_choose(ml), i; uint64_t v = 0;
	if(len < ml) { for(i = 0; i < len; i++) dg[i] = (i || len == 1) ? vp_u8() % 10 : 1 + vp_u8() % 9; }
	else {
		unsigned j = vp_choose(ml + 1);
		for(i = 0; i < j; i++) dg[i] = max[i] - '0';
		if(j < ml) { unsigned m = max[j] - '0'; if(j == 0) { if(m < 2) vp_assume(0); dg[0] = 1 + vp_u8() % (m - 1); } else { if(!m) vp_assume(0); dg[j] = vp_u8() % m; } }
		for(i = j + 1; i < ml; i++) dg[i] = vp_u8() % 10;
	}
	for(i = 0; i < len; i++) { v = v * 10 + dg[i]; want[nw++] = '0' + dg[i]; }
	return v;
}
static unsigned long num(const char *max, int *neg, int sgn) { *neg = sgn && vp_choose(2); if(*neg) want[nw++] = '-'; unsigned long v = decimal(max); if(*neg) vp_assume(v != 0); return *neg ? -v : v; }
#if K == 1
static const char IM[] = "2147483647", UM[] = "4294967295", LM[] = "9223372036854775807", ULM[] = "18446744073709551615";
#else
static const char IM[] = ND, UM[] = ND, LM[] = ND, ULM[] = ND;
#endif
void harness(void) {
	unsigned i; int neg; wfd = 1 + vp_choose(2);
#if MODE == 0
#ifdef HUGE_N
	char *s = vp_block(HUGE_N + 1); memset(s, 'x', HUGE_N); s[HUGE_N] = 0; s[66000] = vp_u8(); vp_assume(s[66000] != 0);
#else
	char *s = vp_strn(NLEN(5));
#endif
	 unsigned l = strlen(s); stringptr p = {s, l}; vp_readonly(s); unsigned k = vp_choose(6);
	if(k == 0) { log_puts(wfd, &p); w(s, l); } else if(k == 1) { log_putc(wfd, s); w(s, l); } else if(k == 2) { log_putln(wfd); w("\n", 1); }
	else if(k == 4) { log_putspace(wfd); w(" ", 1); }
	else { if(k == 5) wfd = 2; static const int es[] = {0, ENOENT, EACCES, 133, -1, 70000}; eno = errno = es[vp_choose(6)]; if(k == 5) log_perror(s); else log_puterror(wfd, s); w(s, l); w(": ", 2); w(msg, strlen(msg)); w("\n", 1); }
	log_puts(wfd, 0); log_putc(wfd, 0); p.size = 0; log_puts(wfd, &p);
	same("exactly the text is written");
#elif MODE == 1
	unsigned sgn = vp_choose(2); unsigned long v = num(sgn ? "9223372036854775807" : "18446744073709551615", &neg, sgn); log_putd(wfd, v, sgn); same("the number in decimal");
#elif MODE == 2
	/* all argument kinds, in any order */
	char *s = vp_str(2); stringptr p = {s, strlen(s)}; vario a[K]; void *slot[K]; stringptr *pp = &p; char *cs = s, *nul = 0; static int iv[K]; static unsigned uv[K]; static long lv[K]; static unsigned long ulv[K];
	for(i = 0; i < K; i++) { unsigned k = vp_choose(8);
		switch(k) {
			case 0: a[i] = (vario){&pp, VT_STRINGPTR}; w(s, p.size); break; case 1: a[i] = (vario){&cs, VT_CHAR_STAR}; w(s, p.size); break; case 2: a[i] = (vario){&cs, VT_CONST_CHAR_STAR}; w(s, p.size); break; case 3: a[i] = (vario){&nul, VT_CHAR_STAR}; break;
			case 4: iv[i] = num(IM, &neg, 1); a[i] = (vario){&iv[i], VT_INT}; break; case 5: uv[i] = num(UM, &neg, 0); a[i] = (vario){&uv[i], VT_UNSIGNED}; break; case 6: lv[i] = num(LM, &neg, 1); a[i] = (vario){&lv[i], VT_LONG}; break; case 7: ulv[i] = num(ULM, &neg, 0); a[i] = (vario){&ulv[i], VT_ULONG}; break;
		} }
	w("\n", 1);
	if(K == 1) log_put(wfd, &a[0], VNIL); else if(K == 2) log_put(wfd, &a[0], &a[1 % K], VNIL); else log_put(wfd, &a[0], &a[1 % K], &a[2 % K], VNIL);
	same("the arguments in order and a newline");
#elif MODE == 3
	/* extreme values */
	int im = -2147483647 - 1; unsigned um = 4294967295u; long lm = -9223372036854775807L - 1; unsigned long ulm = 18446744073709551615ul;
	log_put(wfd, VARII(im), VARIU(um), VARIL(lm), VNIL); w("-21474836484294967295-9223372036854775808\n", 42 - 0); nw = strlen("-21474836484294967295-9223372036854775808\n"); same("extreme values");
	no = nw = 0; log_put(wfd, VARIUL(ulm), VARISL("x"), VARICC("y"), VNIL); w("18446744073709551615xy\n", 23); same("largest value");
	no = nw = 0; log_put(wfd, VNIL); w("\n", 1); same("nothing but a newline");
#elif MODE == 4
	/* the current date and time */
	static const unsigned char nd[6] = {4,2,2,2,2,2}; static const char sep[6] = {'-','-',' ',':',':',0}; int v[6]; tt = vp_u64();
	for(i = 0; i < 6; i++) { unsigned x = 0; for(unsigned j = 0; j < nd[i]; j++) { unsigned d = vp_u8() % 10; if(i == 0 && j == 0) vp_assume(d >= 1); x = x * 10 + d; want[nw++] = '0' + d; } if(i < 5) want[nw++] = sep[i]; v[i] = x; }
	tmv.tm_year = v[0] - 1900; tmv.tm_mon = v[1] - 1; tmv.tm_mday = v[2]; tmv.tm_hour = v[3]; tmv.tm_min = v[4]; tmv.tm_sec = v[5];
	log_timestamp(wfd); same("the date and time");
#endif
	vp_done();
}
