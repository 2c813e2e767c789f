/* whole-file reading and writing of strings and string lists under short and failing I/O */
#include <stdarg.h>
#include "vp.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "fsmodel.h"
static unsigned char keep[64];
void harness(void) {
	unsigned i, j, n; int ok = 1; fs_name = "file"; char *fn = vp_cstr("file"); vp_readonly(fn);
#if MODE == 0
	/* reading */
	n = vp_choose(L + 1); fs_data = vp_block(n); vp_bytes(fs_data, n); fs_len = n; fs_exists = vp_choose(4) != 0; fs_statsize = vp_choose(3) ? (long) n : (long) vp_choose(L + 2); fs_short = 3; fs_err = 1 | 2; vp_oom = 1; vp_readonly(fs_data);
	stringptr *s = stringptr_fromfile(fn); CHECK(!fs_open, "the file is closed"); vp_obs(!!s);
	if(!s) { CHECK(vp_live == 0, "nothing is kept on failure"); CHECK(fs_nerr || vp_nfail || fs_statsize == 0 || !fs_exists, "fails only on errors or without contents"); vp_done(); }
	CHECK(!fs_nerr && fs_exists, "no success after an error");
	unsigned w = fs_statsize < n ? fs_statsize : n; CHECK(s->size == w, "the string has all bytes there are");
	for(i = 0; i < w; i++) { ok &= (unsigned char) s->ptr[i] == fs_data[i]; vp_obs(s->ptr[i]); } CHECK(ok && s->ptr[w] == 0, "the string has the contents of the file"); CHECK(vp_live == 1, "one allocation"); stringptr_free(s);
#elif MODE == 1
	/* writing */
	n = vp_choose(L + 1); char *p = vp_block(n); vp_bytes(p, n); memcpy(keep, p, n); vp_readonly(p); fs_data = vp_block(L + 4); fs_cap = n; fs_len = fs_exists ? L + 3 : 0; fs_short = 3; fs_err = 1 | 4; stringptr s = {p, n};
	CHECK(stringptr_tofile(0, &s) == 0 && stringptr_tofile(fn, 0) == 0 && !fs_nopen, "missing arguments are refused");
	size_t r = stringptr_tofile(fn, &s); vp_obs(r); CHECK(!fs_open && fs_nopen == 1, "the file is closed");
	CHECK(fs_nerr ? r <= n : r == n, "everything is written unless an error occurs"); if(!fs_trunc) { CHECK(fs_nerr && r == 0, "only an error leaves the file alone"); vp_done(); }
	CHECK(r == fs_len, "the result is the number of bytes written"); for(i = 0; i < r; i++) ok &= fs_data[i] == keep[i]; CHECK(ok, "the file has the bytes of the string");
	CHECK((fs_mode & 0600) == 0600 && !(fs_mode & 022), "the file is writable by its owner only");
#elif MODE == 2
	/* list to file */
	unsigned k = vp_choose(3), want = 0; stringptrlist *l = stringptrlist_new(2); fs_data = vp_block(L + 4); fs_short = 3; fs_err = 1 | 4; unsigned mode = vp_u16() & 0777;
	for(i = 0; i < k; i++) { unsigned m = vp_choose(4); char *p = vp_block(m); for(j = 0; j < m; j++) keep[want++] = p[j] = vp_u8(); keep[want++] = '\n'; stringptrlist_add(l, p, m); }
	fs_cap = want; fs_len = 3; int r = stringptrlist_tofile(l, fn, mode); vp_obs(r); CHECK(!fs_open && fs_nopen == 1, "the file is closed");
	if(r) { CHECK(r == 1 && !fs_nerr && fs_mode == mode && fs_trunc, "no success after an error"); CHECK(fs_len == want, "the file has one line per string"); for(i = 0; i < want; i++) ok &= fs_data[i] == keep[i]; CHECK(ok, "every line is a string"); }
	else CHECK(fs_nerr || fs_len < want, "fails only on errors or short writes");
	stringptrlist_free(l); CHECK(vp_live == 0, "nothing is kept");
#elif MODE == 3
	/* file to list: lines up to the end or the first empty one */
	n = vp_choose(L + 1); fs_data = vp_block(n); vp_bytes(fs_data, n); fs_len = n; fs_exists = vp_choose(4) != 0; fs_err = 1 | 2 | 8; vp_readonly(fs_data);
	stringptrlist *l = stringptrlist_new(2); int first = 1; vp_oom = OOM; int r = stringptrlist_fromfile(l, fn); vp_obs(r); CHECK(!fs_open, "the file is closed");
	if(!r) CHECK(fs_nerr || vp_nfail, "fails only on errors"); else CHECK(!fs_nerr && !vp_nfail, "no success after an error");
	unsigned pos = 0, c = 0; 
	for(i = 0; i < stringptrlist_getsize(l); i++) { stringptr *s = stringptrlist_get(l, i); CHECK(pos < n, "no more lines than in the file"); unsigned e = pos; while(e < n && fs_data[e] != '\n') e++;
		CHECK(s->size == e - pos, "the lines in order, with their length"); for(j = 0; j < s->size; j++) ok &= (unsigned char) s->ptr[j] == fs_data[pos + j]; CHECK(ok && s->ptr[s->size] == 0, "the lines in order"); pos = e + 1; }
	if(r) CHECK(pos >= n || fs_data[pos] == '\n', "all lines up to the end or the first empty one");
	stringptrlist_freeall(l); CHECK(vp_live == 0, "nothing else is allocated");
#elif MODE == 4
	/* a line that is too long is an error */
	static const unsigned lens[] = {1022, 1023, 1024, 1025, 2048}; unsigned a = lens[vp_choose(5)]; n = 0; fs_data = vp_block(2100); memset(fs_data, 'x', 2100); if(vp_choose(2)) { fs_data[0] = vp_u8(); vp_assume(fs_data[0] != '\n'); fs_data[1] = '\n'; n = 2; } n += a; if(vp_choose(2)) { fs_data[n++] = '\n'; fs_data[n++] = vp_u8(); vp_assume(fs_data[n-1] != '\n'); }
	fs_len = n; stringptrlist *l = stringptrlist_new(2); int r = stringptrlist_fromfile(l, fn); CHECK(!fs_open, "the file is closed");
	CHECK(!!r == (a < 1024), "lines that do not fit the reader are an error, not the end"); unsigned tot = 0; for(i = 0; i < stringptrlist_getsize(l); i++) tot += stringptrlist_get(l, i)->size; if(r) CHECK(tot + stringptrlist_getsize(l) >= n && tot + stringptrlist_getsize(l) <= n + 1, "all lines are read");
	stringptrlist_freeall(l); CHECK(vp_live == 0, "nothing else is allocated");
#elif MODE == 5
	/* sizes around the chunk size */
	static const unsigned lens[] = {65535, 65536, 65537, 131072}; n = lens[vp_choose(4)]; fs_data = vp_block(n + 1); fs_cap = n; char *p = vp_block(n); memset(p, 'q', n); p[n - 1] = vp_u8(); p[65534] = vp_u8(); p[n/2] = vp_u8(); stringptr s = {p, n};
	size_t r = stringptr_tofile(fn, &s); CHECK(r == n && fs_len == n, "everything is written"); CHECK(fs_data[n-1] == (unsigned char)p[n-1] && fs_data[65534] == (unsigned char)p[65534] && fs_data[n/2] == (unsigned char)p[n/2] && fs_data[0] == (unsigned char)p[0], "the same contents");
	stringptr *q = stringptr_fromfile(fn); CHECK(q && q->size == n && q->ptr[n] == 0, "everything is read"); CHECK(q->ptr[n-1] == p[n-1] && q->ptr[65534] == p[65534] && q->ptr[n/2] == p[n/2] && q->ptr[0] == p[0], "the same contents");
	stringptr_free(q);
#endif
	vp_done();
}
