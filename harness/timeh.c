/* time helpers on top of the clock, sleep and calendar functions (stand-ins with arbitrary results) */
#include "timelib.h"
#include "vp.h"
static struct timeval now; static struct tm tmv; static time_t tt; static unsigned nsl; static struct timespec req[4], rem[4]; static int serr[4];
int vp_gettimeofday(struct timeval *t, void *z) { *t = now; return 0; }
time_t vp_time(time_t *t) { if(t) *t = tt; return tt; }
struct tm *vp_localtime_r(const time_t *t, struct tm *o) { CHECK(*t == tt, "the current time is broken down"); *o = tmv; return o; }
struct tm *vp_localtime(const time_t *t) { static struct tm r; return vp_localtime_r(t, &r); }
int vp_clock_gettime(clockid_t c, struct timespec *t) { CHECK(c == CLOCK_REALTIME, "the time of day"); t->tv_sec = now.tv_sec; t->tv_nsec = now.tv_usec * 1000L; return 0; }
#if MODE == 4 /* many interruptions */
static unsigned nint, ncall; static struct timespec left;
int vp_nanosleep(const struct timespec *a, struct timespec *r) {
	CHECK(ncall <= nint, "sleeps as long as interrupted"); if(ncall) CHECK(a->tv_sec == left.tv_sec && a->tv_nsec == left.tv_nsec, "it goes on with the remaining time");
	if(ncall++ == nint) return 0;
	left.tv_sec = vp_u64(); left.tv_nsec = vp_u64(); *r = left; errno = EINTR; return -1;
}
#else
int vp_nanosleep(const struct timespec *a, struct timespec *r) {
	CHECK(nsl < 4, "sleeps as long as interrupted"); req[nsl] = *a; if(nsl == 3) { serr[nsl++] = 0; return 0; }
	int k = vp_choose(3); serr[nsl] = k; if(k == 1) { rem[nsl].tv_sec = vp_u64(); rem[nsl].tv_nsec = vp_u64(); *r = rem[nsl]; errno = EINTR; } else if(k == 2) errno = EINVAL;
	nsl++; return k ? -1 : 0;
}
#endif
void harness(void) {
	unsigned i;
#if MODE == 0
	int micro = vp_choose(2); long u = micro ? 1000000 : 1000, sec = vp_u32(), frac = vp_u32() % (micro ? 1000000u : 1000u), v = sec * u + frac;
	int r = micro ? microsleep(v) : msleep(v); vp_obs(r);
	CHECK(nsl >= 1, "it sleeps"); CHECK(req[0].tv_nsec >= 0 && req[0].tv_nsec < 1000000000, "a valid time"); CHECK(req[0].tv_sec == sec && req[0].tv_nsec == frac * (1000000000 / u), "the requested time");
	for(i = 0; i < nsl; i++) { if(i + 1 < nsl) { CHECK(serr[i] == 1, "it goes on after an interruption only"); CHECK(req[i+1].tv_sec == rem[i].tv_sec && req[i+1].tv_nsec == rem[i].tv_nsec, "it goes on with the remaining time"); } else CHECK(serr[i] != 1, "it does not stop early"); }
	CHECK(r == (serr[nsl-1] ? -1 : 0), "errors are reported");
#elif MODE == 4
	nint = vp_choose(41); int r = vp_choose(2) ? microsleep(1500000) : msleep(1500); vp_obs(ncall); CHECK(r == 0 && ncall == nint + 1, "it goes on after every interruption");
#elif MODE == 1
	now.tv_sec = vp_u64() & 0xffffffffffull; now.tv_usec = vp_u32(); vp_assume(now.tv_usec >= 0 && now.tv_usec < 1000000);
	struct timeval t; gettimestamp(&t); CHECK(t.tv_sec == now.tv_sec && t.tv_usec == now.tv_usec, "the time stamp is the current time");
	long long u = getutime(); CHECK(u == now.tv_sec * 1000000LL + now.tv_usec, "microseconds"); vp_obs(u);
	/* later by d milliseconds and a fraction */
	uint64_t ds = vp_u32(); uint32_t dm = vp_u32() % 1000, f = vp_u32() % 1000; struct timeval s = now; now.tv_sec += ds; now.tv_usec += dm * 1000 + f; if(now.tv_usec >= 1000000) { now.tv_usec -= 1000000; now.tv_sec++; }
	long p = mspassed(&s); vp_obs(p); CHECK(p == (long)(ds * 1000 + dm), "the milliseconds passed, rounded down"); CHECK(s.tv_sec == t.tv_sec && s.tv_usec == t.tv_usec, "the start time is not changed");
#elif MODE == 2
	struct timespec a, b; long long d; a.tv_sec = vp_u32(); b.tv_sec = vp_u32(); a.tv_nsec = vp_u32() % 1000000000u; b.tv_nsec = vp_u32() % 1000000000u; d = timespec_diff(&a, &b); vp_obs(d);
	CHECK(d == (a.tv_sec * 1000000000LL + a.tv_nsec) - (b.tv_sec * 1000000000LL + b.tv_nsec), "the difference in nanoseconds"); CHECK(timespec_diff(&b, &a) == -d, "antisymmetric");
#else
	static int lim[6] = {8100, 12, 31, 24, 60, 61}; int v[6]; char want[20]; unsigned n = 0, bs = vp_choose(25); if(bs == 24) bs = 65536 + vp_choose(2) * 16; char *b = vp_block(bs); tt = vp_u64();
	for(i = 0; i < 6; i++) { unsigned x = 0; 
		static const unsigned char nd[6] = {4,2,2,2,2,2}; for(unsigned j = 0; j < nd[i]; j++) { unsigned d = vp_u8() % 10; if(i == 0 && j == 0) vp_assume(d >= 1); x = x * 10 + d; want[n++] = '0' + d; } if(i < 5) want[n++] = "--  ::"[i]; if(i == 2) want[n-1] = ' '; if(i == 3 || i == 4) want[n-1] = ':'; v[i] = x; }
	want[n] = 0; tmv.tm_year = v[0] - 1900; tmv.tm_mon = v[1] - 1; tmv.tm_mday = v[2]; tmv.tm_hour = v[3]; tmv.tm_min = v[4]; tmv.tm_sec = v[5];
	size_t r = timestamp(b, bs); vp_obs(r); unsigned w = bs == 0 ? 19 : bs > 19 ? 19 : bs - 1; int ok = 1;
	if(bs > 19) CHECK(r == 19, "the length of the time stamp"); if(bs) { CHECK(b[w] == 0, "terminated"); for(i = 0; i < w; i++) { ok &= b[i] == want[i]; vp_obs(b[i]); } CHECK(ok, "the time stamp is the date and time, zero padded"); }
#endif
	vp_done();
}
