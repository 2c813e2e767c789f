/* big files in transfers of pseudo-random lengths: whole strings and lists of many lines */
#include <stdarg.h>
#include "vp.h"
#include "long.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "fsmodel.h"
void harness(void) {
	unsigned i, j, n; fs_name = "file"; char *fn = vp_cstr("file"); static const unsigned lens[] = { LENS }, chunks[] = { 0, 1 << 12, 1 << 16, 300 }; static stringptr it[PEAK];
	seed(); fs_rnd = rnd(1 << 20);
#if MODE == 0
	n = lens[vp_choose(sizeof lens / sizeof *lens)]; fs_chunk = chunks[vp_choose(n > 20000 ? 3 : 4)]; fs_data = vp_block(n + 1); fs_cap = n;
	char *p = vp_block(n), *k = vp_block(n); for(i = 0; i < n; i++) p[i] = rnd(256); for(i = 0; i < 8; i++) p[rnd(n)] = vp_u8(); memcpy(k, p, n); stringptr s = {p, n}; vp_readonly(p);
	CHECK(stringptr_tofile(fn, &s) == n && fs_len == n && !fs_open, "everything is written"); int ok = 1; for(i = 0; i < n; i++) ok &= fs_data[i] == (unsigned char)k[i]; CHECK(ok, "the bytes of the string");
	stringptr *q = stringptr_fromfile(fn); CHECK(q && q->size == n && q->ptr[n] == 0 && !fs_open, "everything is read"); for(i = 0; i < n; i++) ok &= q->ptr[i] == k[i]; CHECK(ok, "the bytes of the file"); stringptr_free(q);
#elif MODE == 1
	/* a list of lines to a file and back */
	stringptrlist *l = stringptrlist_new(4); n = 0; fs_data = vp_block(PEAK * 1100); fs_cap = PEAK * 1100;
	for(i = 0; i < PEAK; i++) { unsigned m = rnd(6) ? 1 + rnd(60) : rnd(4) ? 1 + rnd(300) : 1000 + rnd(24); it[i] = (stringptr){ vp_block(m), m }; for(j = 0; j < m; j++) it[i].ptr[j] = 'a' + rnd(26); if(rnd(3) == 0) { it[i].ptr[rnd(m)] = vp_u8(); for(j = 0; j < m; j++) vp_assume(it[i].ptr[j] != '\n'); } CHECK(stringptrlist_add(l, it[i].ptr, m), "add"); n += m + 1; }
	CHECK(stringptrlist_tofile(l, fn, 0644) == 1 && fs_len == n && !fs_open, "everything is written");
	int ok = 1; unsigned at = 0; for(i = 0; i < PEAK; i++) { for(j = 0; j < it[i].size; j++) ok &= fs_data[at++] == (unsigned char)it[i].ptr[j]; ok &= fs_data[at++] == '\n'; } CHECK(ok && at == n, "every line is a string");
	if(vp_choose(2)) fs_len--; /* no newline behind the last line */
	stringptrlist *r = stringptrlist_new(3); CHECK(stringptrlist_fromfile(r, fn) && !fs_open, "the file is read"); CHECK(stringptrlist_getsize(r) == PEAK, "all lines");
	for(i = 0; i < PEAK; i++) { stringptr *s = stringptrlist_get(r, i); ok &= s->size == it[i].size; for(j = 0; ok && j < s->size; j++) ok &= s->ptr[j] == it[i].ptr[j]; ok &= s->ptr[s->size] == 0; } CHECK(ok, "every line is read as it was written");
	stringptrlist_free(l); stringptrlist_freeall(r);
#endif
	CHECK(vp_live == 0, "everything is released"); vp_done();
}
