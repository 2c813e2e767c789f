/* C12: stringptr operations treat strings as exact byte sequences (any bytes, NULs included). */
#include "vp.h"
#include "stringptr.h"
#ifdef LENS
#define N2 N
#else
#define N2 2
#endif
#ifndef N
#define N 4
#endif
static stringptr *sp(unsigned max) { unsigned n = max == N ? NLEN(N) : vp_choose(max + 1); stringptr *s = vp_block(sizeof *s); s->ptr = vp_block(n + 1); vp_bytes(s->ptr, n); s->ptr[n] = 0; s->size = n; return s; }
/* the same, but not terminated: the object has exactly n bytes */
static stringptr *spx(unsigned max) { unsigned n = max == N ? NLEN(N) : vp_choose(max + 1); stringptr *s = vp_block(sizeof *s); s->ptr = vp_block(n); vp_bytes(s->ptr, n); s->size = n; return s; }
static int beq(const char *a, const char *b, size_t n) { int r = 1; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
void harness(void) {
#if MODE == 0 /* copy, strdup, new, free */
	stringptr *s = spx(N); vp_readonly(s->ptr);
	stringptr *c = stringptr_copy(s); CHECK(c && c->size == s->size && beq(c->ptr, s->ptr, s->size), "copy has the same content"); CHECK(c->ptr[c->size] == 0, "copy is terminated"); CHECK(c->ptr != s->ptr || !s->size, "copy does not share storage");
	char *d = stringptr_strdup(s); CHECK(d && beq(d, s->ptr, s->size) && d[s->size] == 0, "strdup has the same content and a terminator"); free(d);
	CHECK(stringptr_copy(0) == 0 && stringptr_strdup(0) == 0, "NULL in, NULL out");
	size_t n = vp_choose(6); stringptr *w = stringptr_new(n); CHECK(w && w->size == n && w->ptr[n] == 0 && vp_valid(w->ptr, n + 1), "new gives the requested size, terminated"); memset(w->ptr, 1, n);
	CHECK(stringptr_getsize_s(w) == n && stringptr_get_s(w) == w->ptr && stringptr_empty(w) == (n == 0) && stringptr_empty_s(w) == (n == 0) && stringptr_empty_s((stringptr*)0) && stringptr_getsize_s((stringptr*)0) == 0, "accessors");
	stringptr_free(w); CHECK(w == 0, "free clears the pointer"); stringptr_free(c); CHECK(vp_live == 0, "everything is released by one free each");
#elif MODE == 1 /* concat */
	stringptr *s[7]; unsigned k = 1 + vp_choose(6); size_t tot = 0; for(unsigned i = 0; i < k; i++) { s[i] = spx(i < 2 ? N2 : i < 4 ? 1 : 0); vp_readonly(s[i]->ptr); tot += s[i]->size; }
	stringptr *r = k == 1 ? stringptr_concat(s[0], SPNIL) : k == 2 ? stringptr_concat(s[0], s[1], SPNIL) : k == 3 ? stringptr_concat(s[0], s[1], s[2], SPNIL) : k == 4 ? stringptr_concat(s[0], s[1], s[2], s[3], SPNIL) : k == 5 ? stringptr_concat(s[0], s[1], s[2], s[3], s[4], SPNIL) : stringptr_concat(s[5], s[1], s[2], s[3], s[4], s[0], SPNIL);
	CHECK(r && r->size == tot && r->ptr[tot] == 0, "concat has the total length, terminated");
	if(k == 6) { stringptr *x = s[0]; s[0] = s[5]; s[5] = x; }
	size_t p = 0; for(unsigned i = 0; i < k; i++) { CHECK(beq(r->ptr + p, s[i]->ptr, s[i]->size), "concat is the concatenation of its arguments in order"); p += s[i]->size; }
	stringptr_free(r); CHECK(vp_live == 0, "one free releases the result");
#elif MODE == 2 /* eq, here, contains */
	stringptr *h = spx(N), *n = spx(3); vp_readonly(h->ptr); vp_readonly(n->ptr);
	int e = h->size == n->size && beq(h->ptr, n->ptr, h->size);
	CHECK(!!stringptr_eq(h, n) == e && !!stringptr_eq(n, h) == e && stringptr_eq(h, h), "eq is equality of content");
	CHECK(stringptr_eq(0, 0) && !stringptr_eq(h, 0) && !stringptr_eq(0, h), "eq with NULL");
	int any = 0; for(size_t i = 0; i + n->size <= h->size; i++) any |= beq(h->ptr + i, n->ptr, n->size);
	CHECK(!!stringptr_contains(h, n) == any, "contains finds the needle exactly when it occurs");
	size_t pos = vp_choose(2) ? (h->size > 20 ? (vp_choose(2) ? vp_choose(4) : h->size - vp_choose(5) + 1) : vp_choose(h->size + 2)) : ~(size_t)0 - vp_choose(3);
	int at = pos <= h->size && n->size <= h->size - pos && beq(h->ptr + pos, n->ptr, n->size);
	CHECK(!!stringptr_here(h, pos, n) == at, "here tests for the needle at the position, any position");
#elif MODE == 3 /* rchr, shifts, chomp, fromchar */
	stringptr *s = sp(N); size_t n0 = s->size; char *p0 = s->ptr, o[NMAX(N) + 1]; memcpy(o, s->ptr, n0 + 1); unsigned op = vp_choose(4);
	if(op == 0) { int c = vp_choose(2) ? (int)vp_u8() : (int)(signed char)vp_u8(); vp_readonly(s->ptr); char *r = stringptr_rchr(s, c), *w = 0; for(size_t i = 0; i < n0; i++) if((unsigned char)o[i] == (unsigned char)c) w = p0 + i; CHECK(r == w, "rchr finds the last occurrence of the character, any byte"); CHECK(stringptr_rchr(0, c) == 0, "rchr of NULL"); }
	else if(op == 1) { size_t c = vp_u64(); int r = stringptr_shiftright(s, c); CHECK(!!r == (c <= n0), "shiftright refuses exactly what does not fit"); if(r) CHECK(s->size == n0 - c && s->ptr == p0 + c, "shiftright drops the first characters"); else CHECK(s->size == n0 && s->ptr == p0, "refused shift changes nothing"); for(size_t i = 0; i <= n0; i++) CHECK(p0[i] == o[i], "shiftright does not modify the characters"); CHECK(!stringptr_shiftright(0, c), "NULL"); }
	else if(op == 2) { size_t c = vp_u64(); if(c <= n0) c = vp_split(c); int r = stringptr_shiftleft(s, c); CHECK(!!r == (c <= n0), "shiftleft refuses exactly what does not fit"); size_t k = r ? n0 - c : n0; CHECK(s->size == k && s->ptr == p0 && beq(p0, o, k) && p0[k] == 0, "shiftleft drops the last characters and terminates"); CHECK(!stringptr_shiftleft(0, c), "NULL"); }
#ifdef LENS
	else if(n0 > 3 && (vp_assume(o[n0-4] != '\n' && o[n0-4] != '\r'), 0)) ;
#endif
	else { size_t k = n0; while(k && (o[k-1] == '\n' || o[k-1] == '\r')) k--; size_t r = stringptr_chomp(s); CHECK(r == n0 - k && s->size == k && s->ptr == p0, "chomp removes exactly the trailing line breaks"); CHECK(beq(p0, o, k) && p0[k] == 0, "chomp leaves the rest"); CHECK(stringptr_chomp(0) == 0, "NULL");
		stringptr f; char *cs = vp_str(3); CHECK(stringptr_fromchar(cs, &f) == &f && f.ptr == cs && f.size == strlen(cs), "fromchar wraps the whole string"); stringptr_fromchar(0, &f); CHECK(f.ptr == 0 && f.size == 0, "fromchar of NULL is empty"); }
#elif MODE == 4 /* hash */
	unsigned n = NLEN(LEN); stringptr a = { vp_block(n), n }, b = { vp_block(n), n }; vp_bytes(a.ptr, n); memcpy(b.ptr, a.ptr, n);
	uint32_t h = 0; for(unsigned i = 0; i < n; i++) { h = 16 * h + (unsigned char)a.ptr[i]; h ^= h >> 24 & 0xf0; } h &= 0xfffffff;
	CHECK(stringptr_hash(&a) == h, "hash is the ELF hash of the bytes"); CHECK(stringptr_hash(&b) == stringptr_hash(&a), "equal strings hash equally");
#elif MODE == 5 /* allocation failure */
	stringptr *s = spx(2); vp_oom = 1; unsigned op = vp_choose(4); void *r;
	if(op == 0) r = stringptr_new(3); else if(op == 1) r = stringptr_copy(s); else if(op == 2) r = stringptr_strdup(s); else r = stringptr_concat(s, s, SPNIL);
	CHECK((r == 0) == (vp_nfail > 0), "NULL exactly when memory is missing"); free(r); CHECK(vp_live == 0, "no leak");
#endif
	vp_done();
}
