/* C13: splitting cuts at every delimiter, joining is its inverse, replace substitutes every occurrence left to right. */
#include "vp.h"
#include "stringptrlist.h"
static int beq(const char *a, const char *b, size_t n) { int r = 1; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
void harness(void) {
	unsigned n = LEN ? (LMIN + vp_choose(LEN - LMIN + 1)) : 0; stringptr s = { vp_block(n + 1), n }; vp_bytes(s.ptr, n); s.ptr[n] = 0;
#ifdef FORCE /* a long run of delimiters first, so that the list has to grow */
	for(int i = 0; i < FORCE; i++) s.ptr[i] = ',';
#endif
	char o[LEN + 1]; memcpy(o, s.ptr, n + 1);
#if MODE == 0 /* splitc + tostring */
#ifdef FORCE
	int d = ',';
#else
	int d = vp_choose(2) ? (int)vp_u8() : (int)(signed char)vp_u8();
#endif
	stringptrlist *l = stringptr_splitc(&s, d); CHECK(l != 0, "split gives a list");
	size_t k = 0, st = 0; for(size_t i = 0; i <= n; i++) if(i == n || (unsigned char)o[i] == (unsigned char)d) { CHECK(k < stringptrlist_getsize(l), "one item per delimiter, plus one"); stringptr *it = stringptrlist_get(l, k); CHECK(it->ptr == s.ptr + st && it->size == i - st && beq(it->ptr, o + st, i - st) && it->ptr[it->size] == 0, "items are the pieces between delimiters, in order, terminated"); k++; st = i + 1; }
	CHECK(stringptrlist_getsize(l) == k, "one item per delimiter, plus one");
	stringptr *j = stringptrlist_tostring(l), *q = stringptrlist_tostring_dos(l); CHECK(j && j->size == n + 1 && q && q->size == n + 1 + k, "join has the right length");
	size_t p = 0; for(size_t i = 0; i <= n; i++) { int isd = i == n || (unsigned char)o[i] == (unsigned char)d; CHECK(j->ptr[i] == (isd ? '\n' : o[i]), "joining after splitting gives the text back, one newline per item"); if(isd) { CHECK(q->ptr[p] == '\r' && q->ptr[p+1] == '\n', "dos join ends items with CR LF"); p += 2; } else { CHECK(q->ptr[p] == o[i], "dos join keeps the items"); p++; } }
	CHECK(j->ptr[j->size] == 0 && q->ptr[q->size] == 0, "terminated");
	stringptr_free(j); stringptr_free(q); stringptrlist_free(l);
#else /* splits / replace */
	unsigned m = DMIN + vp_choose(DLEN - DMIN + 1); stringptr d = { vp_block(m + 1), m }; vp_bytes(d.ptr, m); d.ptr[m] = 0;
#ifdef FORCE
	if(m) d.ptr[0] = ',';
#endif
	vp_readonly(d.ptr);
	/* reference: leftmost, non-overlapping occurrences */
	size_t pos[LEN + 2], k = 0; for(size_t i = 0; m && i + m <= n; ) if(beq(o + i, d.ptr, m)) { pos[k++] = i; i += m; } else i++;
#if MODE == 1
	stringptrlist *l = stringptr_splits(&s, &d); CHECK(l != 0, "split gives a list");
	CHECK(stringptrlist_getsize(l) == k + 1, "one item per delimiter, plus one");
	size_t st = 0; for(size_t i = 0; i <= k; i++) { stringptr *it = stringptrlist_get(l, i); size_t e = i < k ? pos[i] : n; CHECK(it->ptr == s.ptr + st && it->size == e - st && beq(it->ptr, o + st, e - st) && it->ptr[it->size] == 0, "items are the pieces between delimiters, in order, terminated"); st = e + m; }
	stringptrlist_free(l);
#else
	unsigned w = vp_choose(3); stringptr r = { vp_block(w + 1), w }; vp_bytes(r.ptr, w); r.ptr[w] = 0; vp_readonly(r.ptr);
	stringptr *x = stringptr_replace(&s, &d, &r); CHECK(x != 0, "replace gives a string"); CHECK(x->size == n - k * m + k * w, "replace gives the right length");
	size_t p = 0, c = 0; for(size_t i = 0; i <= n; ) if(c < k && pos[c] == i) { CHECK(beq(x->ptr + p, r.ptr, w), "every occurrence is replaced"); p += w; i += m; c++; } else { if(i < n) { CHECK(x->ptr[p] == o[i], "the rest is kept"); p++; } i++; }
	CHECK(x->ptr[x->size] == 0, "terminated"); stringptr_free(x);
	CHECK(!stringptr_replace(0, &d, &r) && !stringptr_replace(&s, 0, &r) && !stringptr_replace(&s, &d, 0), "NULL arguments give NULL");
#endif
#endif
	CHECK(vp_live == 0, "nothing leaks");
	{ /* allocation failure: a complete result or none */
		stringptr t = { vp_cstr("axbxc"), 5 }, dl = { "x", 1 }, w = { "yz", 2 }; unsigned op = vp_choose(n == LMIN ? 5 : 3); vp_nfail = 0; stringptr *cut = op > 2 ? vp_block(3 * sizeof *cut) : 0; if(cut) for(int i = 0; i < 3; i++) cut[i] = (stringptr){ t.ptr + 2 * i, 1 }; sblist cl = { 0 }; if(cut) sblist_init(&cl, sizeof(stringptr), 4); for(int i = 0; cut && i < 3; i++) sblist_add(&cl, &cut[i]); vp_oom = 1;
		if(op > 2) { stringptr *r = op == 3 ? stringptrlist_tostring(&cl) : stringptrlist_tostring_dos(&cl); CHECK((r == 0) == (vp_nfail > 0), "joining gives NULL exactly when memory is missing"); if(r) { CHECK(r->size == (op == 3 ? 6 : 9) && !memcmp(r->ptr, op == 3 ? "a\nb\nc\n" : "a\r\nb\r\nc\r\n", op == 3 ? 7 : 10), "complete"); stringptr_free(r); } sblist_free_items(&cl); } else
		if(op < 2) { stringptrlist *l = op ? stringptr_splits(&t, &dl) : stringptr_splitc(&t, 'x'); CHECK((l == 0) == (vp_nfail > 0), "split gives NULL exactly when memory is missing"); if(l) { CHECK(stringptrlist_getsize(l) == 3, "complete"); stringptrlist_free(l); } }
		else { stringptr *r = stringptr_replace(&t, &dl, &w); CHECK((r == 0) == (vp_nfail > 0), "replace gives NULL exactly when memory is missing"); if(r) { CHECK(r->size == 7 && !memcmp(r->ptr, "ayzbyzc", 7), "complete"); stringptr_free(r); } }
		CHECK(vp_live == 0, "failures leak nothing");
	}
	vp_done();
}
