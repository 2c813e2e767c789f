/* temporary directories and stat based queries; system calls are recorded by stand-ins */
#include "vp.h"
#include <sys/stat.h>
#include "filelib.h"
#include "strlib.h"
#ifndef NEX
#define NEX 0 /* that many names exist already */
#endif
#if MODE == 4
static void check(const char *p); static int place(const char *p);
#endif
static unsigned nmk, nrand, nex, ntry; static int errs[4]; static char made[4][40]; static unsigned rnd[32];
int vp_rand(void) { unsigned r = vp_u32() & 0x7fffffff; if(nrand < 32) rnd[nrand] = r; nrand++; return r; }
int vp_mkdir(const char *p, mode_t m) {
#if MODE == 4
	ntry++; CHECK((m & 077) == 0 && (m & 0700) == 0700, "the directory is private to the user"); check(p); if(ntry <= nex) { errno = EEXIST; return -1; } if(place(p)) { errno = EACCES; return -1; } return 0;
#endif
	if(NEX) { CHECK(ntry < 60, "not retried without reason"); if(ntry++ < nex) { errno = EEXIST; return -1; } }
	CHECK((m & 077) == 0 && (m & 0700) == 0700, "the directory is private to the user"); CHECK(nmk < 4, "not retried without reason");
	unsigned i; for(i = 0; p[i]; i++) { CHECK(i < 39, "the name has the length of the template"); made[nmk][i] = p[i]; }
	made[nmk][i] = 0; int e = nmk < 3 ? vp_choose(3) : 0; errs[nmk++] = e; if(e) { int x = vp_u8(); vp_assume(x != 0 && x < 134 && x != EEXIST); errno = e == 1 ? EEXIST : x; return -1; } return 0;
}
static time_t mt; static off_t sz; static int stf; static const char *stname;
int vp_stat(const char *n, struct stat *st) { stname = n; if(stf) { errno = ENOENT; return -1; } st->st_mtime = mt; st->st_size = sz; return 0; }
static void isname(const char *s, const char *base, unsigned bl, const char *what) {
	int ok = 1; for(unsigned i = 0; i < bl; i++) ok &= s[i] == base[i]; CHECK(ok, what);
	for(unsigned i = bl; i < bl + 6; i++) { unsigned char c = s[i]; ok &= (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); } CHECK(ok, "the random part consists of letters and digits"); CHECK(s[bl + 6] == 0, "terminated");
}
#if MODE == 4
static const char *beg, *pre; static unsigned bl, prel, noshm;
static int place(const char *p) { return pre && noshm && p[1] == 'd'; }
static void check(const char *p) { const char *q = p; if(pre) { const char *d = p[1] == 'd' ? "/dev/shm/" : "/tmp/"; while(*d) CHECK(*q++ == *d++, "the name is made of place and prefix"); } int ok = 1; for(unsigned i = 0; i < bl; i++) ok &= q[i] == beg[i]; CHECK(ok, "the name keeps its beginning"); for(unsigned i = 0; i < 6; i++) { unsigned char c = q[bl + i]; ok &= (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); } CHECK(ok, "the random part consists of letters and digits"); CHECK(q[bl + 6] == 0, "terminated"); }
#endif
void harness(void) {
	unsigned i, j;
#if MODE == 0
	unsigned n = vp_choose(L + 1); char *t = vp_block(n + 1), keep[24]; for(i = 0; i < n; i++) { keep[i] = t[i] = vp_u8(); vp_assume(t[i] != 0); } t[n] = 0;
	char *r = ulz_mkdtemp(t);
	if(n < 6) { CHECK(!r && errno == EINVAL && !nmk, "a template without room for the random part is refused"); vp_done(); }
	CHECK(nmk > 0 && errs[nmk-1] != 1, "tried again until the name is new");
	for(i = 0; i + 1 < nmk; i++) CHECK(errs[i] == 1, "only tried again if the name exists");
	CHECK((r != 0) == (errs[nmk-1] == 0) && (!r || r == t), "the result tells whether the directory was made");
	for(i = 0; i < nmk; i++) isname(made[i], keep, n - 6, "the template keeps its beginning");
	for(i = 0; i + 1 < nmk && nrand == 6 * nmk; i++) { int same = 1, rs = 0; for(j = 0; j < 6; j++) { same &= made[i][n - 6 + j] == made[i+1][n - 6 + j]; rs |= rnd[6 * i + j] % 62 == rnd[6 * i + 6 + j] % 62; } CHECK(!same | rs, "other random numbers give another name"); }
	if(r) { int ok = 1; for(i = 0; i <= n; i++) ok &= t[i] == made[nmk-1][i]; CHECK(ok, "the template is the name of the directory"); }
#elif MODE == 1
	unsigned pl = vp_choose(4), bs = vp_choose(25);  if(bs == 24) bs = 65536 + vp_choose(2) * 16; char *p = vp_block(pl + 1), *b = vp_block(bs), full[32]; for(i = 0; i < pl; i++) { p[i] = vp_u8(); vp_assume(p[i] != 0); } p[pl] = 0;
	size_t r = mktempdir(p, b, bs); vp_obs(r);
	if(bs < 9 + pl + 7) { CHECK(r == 0 && nmk == 0, "a buffer that is too small is refused"); vp_done(); }
	if(r == 0) { CHECK(nmk >= 2 && errs[nmk-1] == 2, "fails only if no directory could be made"); CHECK(memcmp(made[0], "/dev/shm/", 9) == 0 && memcmp(made[nmk-1], "/tmp/", 5) == 0, "both places are tried"); vp_done(); }
	int shm = made[nmk-1][1] == 'd'; strcpy(full, shm ? "/dev/shm/" : "/tmp/"); strcat(full, p);
	CHECK(errs[nmk-1] == 0, "succeeds only if the directory was made"); CHECK(r == strlen(full) + 6, "the length of the name is returned"); isname(b, full, strlen(full), "the name is made of place and prefix");
	if(!shm) { int failed = 0; for(i = 0; i < nmk; i++) failed |= errs[i] == 2; CHECK(failed, "the second place is only used if the first one fails"); }
	int ok = 1; for(i = 0; i <= r; i++) ok &= b[i] == made[nmk-1][i]; CHECK(ok, "the buffer names the directory made");
#elif MODE == 3
	nex = vp_choose(NEX + 1); char *t = vp_cstr("ab.XXXXXX"); char *r = ulz_mkdtemp(t); unsigned last = nmk ? errs[nmk - 1] : 9;
	CHECK(ntry >= nex + 1 && nmk == ntry - nex, "tried again as long as the name exists"); CHECK(last != 1 && (r == t) == (last == 0) && (r != 0) == (last == 0), "the result tells whether the directory was made"); isname(t, "ab.", 3, "the template keeps its beginning"); vp_obs(ntry);
#elif MODE == 4 /* long names */
	static const unsigned ls[] = { 31, 57, 64, 121, 122, 127, 128, 249, 250, 255, 256, 300, 1000, 4090, 65530, 65536 }; bl = ls[vp_choose(sizeof ls / sizeof *ls)]; nex = bl > 5000 ? 1 : vp_choose(3);
	char *t = vp_block(bl + 7), *k = vp_block(bl + 1); for(i = 0; i < bl; i++) k[i] = 'A' + i % 50; k[bl] = 0; k[bl / 2] = vp_u8(); k[bl - 1] = vp_u8(); vp_assume(k[bl / 2] != 0 && k[bl - 1] != 0); beg = k; 
	if(vp_choose(2)) { memcpy(t, k, bl); memcpy(t + bl, "XXXXXX", 7); CHECK(ulz_mkdtemp(t) == t && ntry == nex + 1, "made under the first free name"); check(t); }
	else { pre = k; noshm = bl == 65536 || (bl < 5000 && vp_choose(2)); unsigned bs = 9 + bl + 7, big = vp_choose(3); char *b = vp_block(big ? bs + big - 1 : bs - 1); size_t r = mktempdir(k, b, big ? bs + big - 1 : bs - 1); vp_obs(r); if(!big) CHECK(r == 0 && ntry == 0, "a buffer that is too small is refused"); else { CHECK(r == (noshm ? 5 : 9) + bl + 6 && strlen(b) == r, "the length of the name is returned"); check(b); } }
#else
	char *f = vp_cstr("name"); mt = vp_u64(); sz = vp_u64(); vp_assume(sz >= 0); stf = vp_choose(2);
	time_t t = getFileModTime(f); CHECK(stname == f && t == (stf ? 0 : mt), "the modification time of the file or 0"); stname = 0;
	size_t s = getfilesize(f); CHECK(stname == f && s == (stf ? 0 : (size_t) sz), "the size of the file or 0"); vp_obs(t); vp_obs(s);
#endif
	vp_done();
}
