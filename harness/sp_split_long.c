/* C13: long texts: delimiters, parts of delimiters and other characters alternate as the script says, the other characters are symbolic (never a part of the delimiter). */
#include "vp.h"
#include "stringptrlist.h"
#include "long.h"
static int isd(unsigned char c, const char *d) { int r = 0; for(; *d; d++) r |= c == (unsigned char)*d; return r; }
void harness(void) {
	static const char *ds[] = { DELIMS }; seed(); const char *d = ds[vp_choose(sizeof ds / sizeof *ds)]; unsigned m = strlen(d), n = NLEN(0), p = 0, k = 0, i, w;
	char *t = vp_block(n + 1), *o = vp_block(n + 1); static unsigned pos[LMAX + 1];
	while(p < n) {
		unsigned r = rnd(DENSE);
		if(r == 0 && p + m <= n) { memcpy(t + p, d, m); p += m; }
		else if(r == 1 && m > 1 && p + m <= n) { unsigned x = 1 + rnd(m - 1); memcpy(t + p, d, x); p += x; } /* a partial match */
		else { t[p] = vp_u8(); vp_assume(!isd(t[p], d)); p++; }
	}
	t[n] = 0; memcpy(o, t, n + 1); stringptr s = { t, n }, ds_ = { vp_cstr(d), m };
	/* leftmost, non-overlapping occurrences */
	for(i = 0; i + m <= n; ) { unsigned x = 0; while(x < m && o[i + x] == d[x]) x++; if(x == m) { pos[k++] = i; i += m; } else i++; }
	unsigned op = vp_choose(m == 1 ? 3 : 2);
	if(op != 1) {
		stringptrlist *l = op ? stringptr_splitc(&s, *d) : stringptr_splits(&s, &ds_); CHECK(l && stringptrlist_getsize(l) == k + 1, "one item per delimiter, plus one");
		unsigned st = 0; size_t total = 0; for(i = 0; i <= k; i++) { stringptr *it = stringptrlist_get(l, i); unsigned e = i < k ? pos[i] : n; CHECK(it->ptr == s.ptr + st && it->size == e - st && it->ptr[it->size] == 0, "items are the pieces between delimiters, in order, terminated"); for(unsigned x = 0; x < e - st; x++) CHECK(it->ptr[x] == o[st + x], "items keep their characters"); st = e + m; total += it->size; }
		stringptr *j = stringptrlist_tostring(l), *q = stringptrlist_tostring_dos(l); CHECK(j && q && j->size == total + k + 1 && q->size == total + 2 * (k + 1), "join has the right length");
		unsigned a = 0, b = 0; st = 0; for(i = 0; i <= k; i++) { unsigned e = i < k ? pos[i] : n; for(unsigned x = st; x < e; x++) { CHECK(j->ptr[a] == o[x] && q->ptr[b] == o[x], "join keeps the items"); a++; b++; } CHECK(j->ptr[a] == '\n' && q->ptr[b] == '\r' && q->ptr[b+1] == '\n', "every item is followed by a line end"); a++; b += 2; st = e + m; }
		CHECK(j->ptr[a] == 0 && q->ptr[b] == 0, "terminated"); stringptr_free(j); stringptr_free(q); stringptrlist_free(l);
	} else {
		static const unsigned ws[] = { 0, 1, 2, 5, 40 }; w = ws[vp_choose(5)]; stringptr r = { vp_block(w + 1), w }; vp_bytes(r.ptr, w); r.ptr[w] = 0;
		stringptr *x = stringptr_replace(&s, &ds_, &r); CHECK(x && x->size == n - k * m + k * w, "replace gives the right length");
		unsigned a = 0, st = 0; for(i = 0; i <= k; i++) { unsigned e = i < k ? pos[i] : n; for(unsigned y = st; y < e; y++) { CHECK(x->ptr[a] == o[y], "the rest is kept"); a++; } if(i < k) for(unsigned y = 0; y < w; y++) { CHECK(x->ptr[a] == r.ptr[y], "every occurrence is replaced"); a++; } st = e + m; }
		CHECK(x->ptr[a] == 0, "terminated"); stringptr_free(x);
	}
	CHECK(vp_live == 0, "nothing leaks");
	vp_done();
}
