/* sizes past 65536: every part on one text, list or file of more than 2^16 characters, items, lines; a few characters and items are arbitrary */
#define _GNU_SOURCE
#include <stdarg.h>
#include "vp.h"
#ifndef H
#define H 70001
#endif
#define HX (H - 65536)
static inline char *text(unsigned n) { char *t = vp_block(n + 1); for(unsigned i = 0; i < n; i++) t[i] = 'a' + i % 23; t[n] = 0; return t; }
static inline unsigned same(const char *a, const char *b, size_t n) { unsigned ok = 1; for(size_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static inline char *nz(char *p) { *p = vp_u8(); vp_assume(*p != 0); return p; }
#if MODE == 0 /* C12 */
#include "stringptr.h"
void harness(void) {
	char *t = text(H), *o = vp_block(H + 1); t[65536] = vp_u8(); t[H - 1] = vp_u8(); memcpy(o, t, H + 1); stringptr s = { t, H }, n = { o + 65530, 10 }, *c; unsigned op = vp_choose(7), i; char *r;
	switch(op) {
	case 0: c = stringptr_copy(&s); CHECK(c && c->size == H && same(c->ptr, o, H + 1), "copy has the same content"); stringptr_free(c); r = stringptr_strdup(&s); CHECK(r && same(r, o, H + 1), "strdup has the same content"); free(r); break;
	case 1: c = stringptr_concat(&s, &n, &s, SPNIL); CHECK(c && c->size == 2 * H + 10 && same(c->ptr, o, H) && same(c->ptr + H, n.ptr, 10) && same(c->ptr + H + 10, o, H + 1), "concat is the concatenation of its arguments in order"); stringptr_free(c); break;
	case 2: { stringptr u = { vp_block(H), H }; memcpy(u.ptr, o, H); u.ptr[65536] = vp_u8(); int e = u.ptr[65536] == o[65536]; CHECK(!!stringptr_eq(&s, &u) == e, "eq is equality of content"); u.size = HX; CHECK(!stringptr_eq(&s, &u), "a shorter string differs"); break; }
	case 3: CHECK(stringptr_here(&s, 65530, &n), "the needle is at its position"); { stringptr m = { vp_cstr("0123"), 4 }; CHECK(!stringptr_here(&s, 65530, &m) && !stringptr_here(&s, 65536 + H, &n), "and nowhere else"); memcpy(t + 66000, "0123", 4); vp_assume(t[65536] != '0' && t[H-1] != '0'); CHECK(stringptr_contains(&s, &m), "contains finds the needle"); t[66002] = '3'; CHECK(!stringptr_contains(&s, &m), "contains finds nothing else"); } break;
	case 4: t[65536] = 'b'; t[H-1] = 'c'; t[3] = '0'; t[65537] = '0'; CHECK(stringptr_rchr(&s, '0') == t + 65537, "rchr finds the last occurrence"); t[65537] = 'a'; CHECK(stringptr_rchr(&s, '0') == t + 3, "rchr finds the last occurrence"); break;
	case 5: CHECK(stringptr_shiftright(&s, 66000) && s.size == H - 66000 && s.ptr == t + 66000 && same(t, o, H + 1), "shiftright drops the first characters"); s = (stringptr){ t, H }; CHECK(!stringptr_shiftright(&s, 65536 + H) && !stringptr_shiftleft(&s, 65536 + H), "refused"); CHECK(stringptr_shiftleft(&s, 65537) && s.size == H - 65537 && t[s.size] == 0, "shiftleft drops the last characters"); break;
	case 6: for(i = 5; i < H; i++) t[i] = i & 1 ? '\n' : '\r'; t[4] = 'x'; CHECK(stringptr_chomp(&s) == H - 5 && s.size == 5 && t[5] == 0 && t[4] == 'x', "chomp removes exactly the trailing line breaks"); c = stringptr_new(H); CHECK(c && c->size == H && c->ptr[H] == 0, "new"); stringptr_free(c); c = stringptr_fromchar(t, &s); CHECK(s.size == 5, "fromchar");
		t = text(H); stringptr_fromchar(t, &s); CHECK(s.size == H, "fromchar wraps the whole string"); break;
	}
	CHECK(vp_live == 0, "nothing leaks"); vp_done();
}
#elif MODE == 1 /* C13 */
#include "stringptrlist.h"
void harness(void) {
	unsigned op = vp_choose(4), i, n = H; char *t = text(n), *o = vp_block(n + 1); stringptr s = { t, n }, comma = { vp_cstr(","), 1 }, two = { vp_cstr(",,"), 2 };
	if(op < 2) { /* few, far apart */
		static const unsigned at[] = { 3, 65534, 65535, 65537, H - 1 }; for(i = 0; i < 5; i++) t[at[i]] = ','; t[65540] = vp_u8(); vp_assume(t[65540] != ','); memcpy(o, t, n + 1);
		if(op == 0) {
			stringptrlist *l = vp_choose(2) ? stringptr_splitc(&s, ',') : stringptr_splits(&s, &comma); CHECK(l && stringptrlist_getsize(l) == 6, "one item per delimiter, plus one");
			unsigned st = 0; for(i = 0; i < 6; i++) { unsigned e = i < 5 ? at[i] : n; stringptr *p = stringptrlist_get(l, i); CHECK(p->ptr == t + st && p->size == e - st && p->ptr[p->size] == 0 && same(p->ptr, o + st, e - st), "the pieces between delimiters"); st = e + 1; }
			stringptr *j = stringptrlist_tostring(l), *q = stringptrlist_tostring_dos(l); for(i = 0; i < 5; i++) o[at[i]] = '\n'; CHECK(j && j->size == n + 1 && same(j->ptr, o, n) && j->ptr[n] == '\n' && j->ptr[n+1] == 0, "join"); CHECK(q && q->size == n + 7 && q->ptr[3] == '\r' && q->ptr[65535] == '\r' && same(q->ptr + 65542, o + 65538, H - 1 - 65538) && q->ptr[q->size] == 0, "join with carriage returns"); stringptr_free(j); stringptr_free(q); stringptrlist_free(l);
		} else { stringptr w = { text(66000), 66000 }, *x = stringptr_replace(&s, &comma, &w); CHECK(x && x->size == n - 5 + 5 * 66000 && x->ptr[x->size] == 0 && same(x->ptr, o, 3) && same(x->ptr + 3, w.ptr, 66000) && same(x->ptr + 66003, o + 4, 65530) && same(x->ptr + x->size - 66000, w.ptr, 66000), "every occurrence is replaced"); stringptr_free(x); }
	} else { /* more than 2^16 delimiters */
		n = 2 * H; t = vp_block(n + 1); for(i = 0; i < n; i++) t[i] = i & 1 ? ',' : 'a' + i % 13; t[n] = 0; s = (stringptr){ t, n }; t[65540] = vp_u8(); vp_assume(t[65540] != ','); char k = t[65540];
		if(op == 2) {
			stringptrlist *l = vp_choose(2) ? stringptr_splitc(&s, ',') : stringptr_splits(&s, &comma); CHECK(l && stringptrlist_getsize(l) == H + 1, "one item per delimiter, plus one");
			int ok = 1; for(i = 0; i <= H; i++) { stringptr *p = stringptrlist_get(l, i); ok &= p->ptr == t + 2 * i && p->size == (i < H) && p->ptr[p->size] == 0; } CHECK(ok, "the pieces between delimiters");
			stringptr *j = stringptrlist_tostring(l); CHECK(j && j->size == n + 1, "join"); for(i = 0; i < n; i++) ok &= j->ptr[i] == (i & 1 ? '\n' : i == 65540 ? k : (char)('a' + i % 13)); CHECK(ok && j->ptr[n] == '\n' && j->ptr[n + 1] == 0, "join"); stringptr_free(j); stringptrlist_free(l);
		} else { stringptr *x = stringptr_replace(&s, &comma, &two); CHECK(x && x->size == n + H && x->ptr[n + H] == 0, "replace gives the right length"); int ok = 1; for(i = 0; i < H; i++) ok &= x->ptr[3*i] == (2 * i == 65540 ? k : (char)('a' + 2 * i % 13)) && x->ptr[3*i+1] == ',' && x->ptr[3*i+2] == ','; CHECK(ok, "every occurrence is replaced"); stringptr_free(x); }
	}
	CHECK(vp_live == 0, "nothing leaks"); vp_done();
}
#elif MODE == 2 /* C14, C37 */
#include "stringptrlist.h"
#include "kvlist.h"
void harness(void) {
	stringptrlist *l = stringptrlist_new(30000); kvlist *v = kv_new(30000); static char w[] = "abcd", z[] = "xyz"; unsigned i; stringptr q = { vp_cstr("xyz"), 3 }; void *x = 0;
	char *big = text(H), *big2 = text(H); nz(big2 + 65536);
	for(i = 0; i < H; i++) { char *p = i == 65539 ? z : i == 65540 ? big : w + i % 3; unsigned k = i == 65540 ? H : i == 65539 ? 3 : 1 + i % 2; CHECK(stringptrlist_add(l, p, k) && kv_add(v, p, k, p), "add"); }
	CHECK(stringptrlist_getsize(l) == H && kv_getsize(v) == H, "the number of items");
	CHECK(stringptrlist_find(l, &q) == 65539 && stringptrlist_contains(l, &q) && kv_find(v, &q, &x) && x == z, "the item is found");
	stringptr b = { big2, H }; int e = big2[65536] == big[65536]; CHECK(stringptrlist_find(l, &b) == (e ? 65540 : -1) && !!kv_find(v, &b, &x) == e && x == (e ? big : z), "a long item is found");
	b.size = HX; CHECK(stringptrlist_find(l, &b) == -1, "the length counts");
	CHECK(stringptrlist_set(l, 65541, z, 2) && stringptrlist_get(l, 65541)->ptr == z && stringptrlist_get(l, 5)->ptr != z && kv_set(v, 65541, z, 2, w) && kv_get(v, 65541)->value == w && kv_get(v, 5)->value != w, "an item is replaced");
	CHECK(stringptrlist_get(l, H) == 0 && stringptrlist_get(l, 65536ul * 65536) == 0, "nothing behind the last item");
	stringptrlist_free(l); kv_free(v); CHECK(vp_live == 0, "nothing leaks"); vp_done();
}
#elif MODE == 3 /* C01, C03 */
#include "sblist.h"
static int cmp(const void *a, const void *b) { uint32_t x = *(uint32_t*)a, y = *(uint32_t*)b; return (x > y) - (x < y); }
static int cmpr(const void *a, const void *b, void *c) { return cmp(a, b); }
void harness(void) {
	sblist *l = sblist_new(4, vp_choose(2) ? 0 : 700); uint32_t i, x, y; unsigned op = vp_choose(5);
	for(i = 0; i < H; i++) { x = 2 * i; if(i & 1) CHECK(sblist_add(l, &x), "add"); else CHECK(sblist_addi(l, &x) == i, "addi returns the index"); }
	CHECK(sblist_getsize(l) == H, "size"); for(i = 0; i < H; i += 13) { uint32_t *p = sblist_get(l, i); CHECK(p && *p == 2 * i, "items are kept"); }
	y = vp_u32(); unsigned at = vp_choose(2) ? 65536 : H - 1, gone = 0, add = 0;
	if(op == 0) { CHECK(sblist_set(l, &y, at) && *(uint32_t*)sblist_get(l, at) == y && *(uint32_t*)sblist_get(l, at - 65536) == 2 * (at - 65536), "set"); }
	else if(op == 1) { CHECK(sblist_insert(l, &y, at), "insert"); add = 1; CHECK(*(uint32_t*)sblist_get(l, at) == y, "inserted"); }
	else if(op == 2) { sblist_delete(l, at); gone = 1; }
	else if(op == 3) { x = vp_choose(3) + 2 * at - 1; CHECK(sblist_bsearch(l, &x, cmp) == (x & 1 ? (size_t)-1 : x / 2 < H ? x / 2 : (size_t)-1) && sblist_bsearch_r(l, &x, cmpr, 0) == sblist_bsearch(l, &x, cmp), "binary search finds a key exactly if it is present"); vp_done(); }
	else { x = 2 * at + vp_choose(3) - 1; size_t p = vp_choose(2) ? sblist_insert_sorted(l, &x, cmp) : sblist_insert_sorted_r(l, &x, cmpr, 0); CHECK(p == at + (x > 2 * at) || (x == 2 * at && p == at), "sorted insertion"); CHECK(*(uint32_t*)sblist_get(l, p) == x && sblist_getsize(l) == H + 1, "inserted"); for(i = H - 2000; i < H; i++) CHECK(*(uint32_t*)sblist_get(l, i) <= *(uint32_t*)sblist_get(l, i + 1), "sorted"); sblist_free(l); CHECK(vp_live == 0, "released"); vp_done(); }
	CHECK(sblist_getsize(l) == H + add - gone, "size"); for(i = at - 100; i < at; i++) CHECK(*(uint32_t*)sblist_get(l, i) == 2 * i, "items before"); for(i = at + 1; i < H + add - gone; i++) CHECK(*(uint32_t*)sblist_get(l, i) == 2 * (i - add + gone), "items behind");
	CHECK(sblist_get(l, H + add - gone) == 0, "nothing behind"); uint32_t *p = sblist_pop(l); CHECK(p && sblist_getsize(l) == H + add - gone - 1, "pop");
	size_t c = 0; uint32_t *q; sblist_iter(l, q) c++; CHECK(c == sblist_getsize(l), "iteration visits every item");
	uint32_t *dat = malloc((H - 9) * 4); memcpy(dat, sblist_get(l, 0), (H - 9) * 4); sblist *d = sblist_new_from_data(4, dat, (H - 9) * 4); CHECK(d && sblist_getsize(d) == H - 9, "a list from data"); for(i = 0; i < H - 9; i += 7) CHECK(*(uint32_t*)sblist_get(d, i) == *(uint32_t*)sblist_get(l, i), "items of the data"); sblist_free(d);
	sblist_free(l); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 4 /* C04 */
#include "tglist.h"
#include "tgilist.h"
static int cmp(const void *a, const void *b) { uint32_t x = *(uint32_t*)a, y = *(uint32_t*)b; return (x > y) - (x < y); }
#if KIND == 0
typedef tglist(uint32_t) list;
#define F(x) tglist_##x
#else
typedef tgilist(uint32_t, unsigned) list;
#define F(x) tgilist_##x
#endif
void harness(void) {
	list l_, *l = &l_; uint32_t i, y; F(init)(l); for(i = 0; i < H; i++) CHECK(F(add)(l, 2 * i), "add");
	CHECK(F(getsize)(l) == H, "size"); for(i = 0; i < H; i += 13) CHECK(F(get)(l, i) == 2 * i, "items are kept"); y = vp_u32(); unsigned at = vp_choose(2) ? 65536 : H - 1, gone = 0, add = 0, op = vp_choose(3 + !KIND);
	if(op == 0) { CHECK(F(set)(l, y, at) && F(get)(l, at) == y && F(get)(l, at - 65536) == 2 * (at - 65536), "set"); }
	else if(op == 1) { CHECK(F(insert)(l, y, at), "insert"); add = 1; CHECK(F(get)(l, at) == y, "inserted"); } else if(op == 2) { F(delete)(l, at); gone = 1; }
#if KIND == 0
	else { y = 2 * at + vp_choose(3) - 1; size_t p = tglist_insert_sorted(l, y, cmp); CHECK((p == at + (y > 2 * at) || (y == 2 * at && p == at)) && tglist_get(l, p) == y && tglist_getsize(l) == H + 1, "sorted insertion"); for(i = H - 2000; i < H; i++) CHECK(tglist_get(l, i) <= tglist_get(l, i + 1), "sorted"); tglist_free_items(l); vp_done(); }
#endif
	CHECK(F(getsize)(l) == H + add - gone, "size"); for(i = at - 100; i < at; i++) CHECK(F(get)(l, i) == 2 * i, "items before"); for(i = at + 1; i < H + add - gone; i++) CHECK(F(get)(l, i) == 2 * (i - add + gone), "items behind");
	F(free_items)(l); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 5 /* C05, C06 */
#if KIND & 1
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
typedef uint32_t key; typedef uint32_t val;
static int cmp(const void *a, const void *b) { key x = *(const key*)a, y = *(const key*)b; return (x > y) - (x < y); }
#ifdef HASHF
static unsigned hash(const key k) { return HASHF; }
#endif
void harness(void) {
#if KIND < 2
	bmap(key, val) m_, *m = &m_; bmap_init(m, cmp);
#define FN(x) bmap_##x
	typedef ssize_t pos_t;
#else
	hbmap(key, val, NB) *m = vp_block(sizeof *m); hbmap_init(m, cmp, hash);
#define FN(x) hbmap_##x
	typedef hbmap_iter pos_t;
#endif
	unsigned i, n = H; key q, q2, q3; pos_t p; val v = vp_u32(), v0; for(i = 0; i < n; i++) { q = 2 * i; v0 = i + 5; p = i & 1 ? FN(insert)(m, q, v0) : FN(insert_nocheck)(m, q, v0); CHECK(p != (pos_t)-1, "insert reports success"); CHECK(FN(getkey)(m, p) == 2 * i, "insert returns the position of the entry"); }
	static const unsigned at[] = { 3, 65535, 65536, 65537, H - 1 }; unsigned k = at[vp_choose(5)], op = vp_choose(4);
	for(i = 0; i < 5; i++) { q3 = 2 * at[i]; val *g = FN(get)(m, q3); CHECK(g && *g == at[i] + 5, "get returns the value last stored for the key"); q = 2 * at[i] + 1; q2 = 2 * at[i] - 1; CHECK(!FN(get)(m, q) && !FN(contains)(m, q2), "absent keys are absent"); }
	q = 2 * k; q2 = 2 * k + 1;
	if(op == 0) { FN(insert)(m, q, v); CHECK(*FN(get)(m, q) == v, "insert replaces the value"); } else if(op == 1) { p = FN(find)(m, q); FN(delete)(m, p); CHECK(!FN(get)(m, q), "deleted"); n--; } else if(op == 2) { p = FN(find)(m, q); FN(setvalue)(m, v, p); CHECK(*FN(get)(m, q) == v, "setvalue"); } else { p = FN(insert)(m, q2, v); CHECK(*FN(get)(m, q2) == v && FN(getkey)(m, p) == 2 * k + 1, "inserted"); n++; }
	for(i = 0; i < 5; i++) if(at[i] != k) { q3 = 2 * at[i]; val *g = FN(get)(m, q3); CHECK(g && *g == at[i] + 5, "other entries are kept"); }
#if KIND < 2
	CHECK((size_t)bmap_getsize(m) == n, "size is the number of keys"); for(i = n - 3000; i < n; i++) CHECK(bmap_getkey(m, i-1) < bmap_getkey(m, i), "iteration is sorted by key");
#else
	unsigned long c = 0, sum = 0; hbmap_iter it; hbmap_foreach(m, it) { c++; sum += hbmap_getkey(m, it); } CHECK(c == n, "iteration yields every entry"); unsigned long w = (unsigned long)H * (H - 1) + (op == 1 ? -2ul * k : op == 3 ? 2ul * k + 1 : 0); CHECK(sum == w, "iteration yields every entry once");
#endif
	FN(fini)(m, 0); CHECK(vp_live == 0, "finishing the map releases all memory"); vp_done();
}
#elif MODE == 6 /* C07 */
#include "tlist.h"
void harness(void) {
	tlist *t = tlist_new(4); uint32_t i, y = vp_u32(); for(i = 0; i < H; i++) CHECK(tlist_append(t, &i), "append");
	CHECK(tlist_getsize(t) == H, "size"); for(i = 0; i < H; i += 97) CHECK(*(uint32_t*)tlist_get(t, i) == i, "items are kept");
	CHECK(tlist_insert(t, 65536, &y) && *(uint32_t*)tlist_get(t, 65536) == y && *(uint32_t*)tlist_get(t, 0) == 0, "insert"); CHECK(tlist_getsize(t) == H + 1 && *(uint32_t*)tlist_get(t, H) == H - 1 && *(uint32_t*)tlist_get(t, 65537) == 65536 && *(uint32_t*)tlist_get(t, 65535) == 65535, "the other items are kept");
	CHECK(tlist_delete(t, 65540) && tlist_getsize(t) == H && *(uint32_t*)tlist_get(t, 65540) == 65540 && *(uint32_t*)tlist_get(t, H - 1) == H - 1 && *(uint32_t*)tlist_get(t, 4) == 4, "delete"); CHECK(!tlist_get(t, H) && !tlist_delete(t, 65536 + H) && !tlist_insert(t, H + 1, &y), "nothing behind"); vp_done();
}
#elif MODE == 7 /* C08 */
#include "hashlist.h"
void harness(void) {
	hashlist *h = hashlist_new(NB, 4); uint32_t i; for(i = 0; i < NE; i++) { CHECK(hashlist_add(h, HASHF, &i) == 0, "add"); }
	static unsigned char seen[NE]; uint32_t c = 0, *p; hashlist_iterator it; hashlist_iterator_init(&it); while(c <= NE && (p = hashlist_next(h, &it))) { CHECK(*p < NE && !seen[*p], "no value twice"); seen[*p] = 1; c++; } CHECK(c == NE && !hashlist_next(h, &it), "every value");
	hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); unsigned nb = 0; size_t s = 0; sblist *b; while(nb <= NB && (b = hashlist_bucket_next(h, &bi))) { nb++; s += sblist_getsize(b); } CHECK(nb <= NB && s == NE, "bucket iteration covers every value once");
	for(i = 0; i < NE; i += 89) { b = hashlist_get(h, HASHF); CHECK(b != 0, "a list"); unsigned f = 0; if(sblist_getsize(b) > 1000) f = *(uint32_t*)sblist_get(b, i) == i; else for(size_t j = 0; j < sblist_getsize(b); j++) f += *(uint32_t*)sblist_get(b, j) == i; CHECK(f == 1, "the value is in the list of its hash"); }
	hashlist_free(h); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 8 /* C09 */
#define SSA_MAXELEM 70016
#define SSA_ELEMSIZE 1
#include "ssalloc.c"
void harness(void) {
	ssa_pool *p = vp_block(sizeof *p); unsigned i; ssa_init(p); for(i = 0; i < SSA_MAXELEM; i++) CHECK(ssa_alloc(p, 1) == p->mem + i, "slots in order"); CHECK(!ssa_alloc(p, 1), "no more slots than the pool has");
	static const unsigned at[] = { 0, 65535, 65536, 65537, SSA_MAXELEM - 1, SSA_MAXELEM - 2 }; unsigned a = at[vp_choose(6)], b = at[vp_choose(6)]; ssa_free(p, p->mem + a); if(a != b) ssa_free(p, p->mem + b);
	unsigned char *x = ssa_alloc(p, 1); CHECK(x == p->mem + a || x == p->mem + b, "a freed slot is used again"); if(a != b) { unsigned char *y = ssa_alloc(p, 0); CHECK(y != x && (y == p->mem + a || y == p->mem + b), "so is the other one"); } CHECK(!ssa_alloc(p, 1), "full again"); vp_done();
}
#elif MODE == 9 /* C15 */
#include "strlib.h"
static const char T64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
void harness(void) {
	unsigned k = vp_choose(4), n = H + k % 3, i, o = 0; int ok = 1; unsigned char *s = (void*)text(n); s[65537] = vp_u8(); vp_assume(s[65537] != 0); unsigned be = BASE64ENC_BUFSIZE(n); char *d = vp_block(be); vp_readonly(s);
	if(k == 0) base64enc(d, s, n); else CHECK(base64enc_str(d, s, k == 3 ? be : 0x100000003ul), "base64enc_str succeeds exactly when the output fits");
	for(i = 0; i < n; i += 3, o += 4) { unsigned r = n - i, a = s[i], b = r > 1 ? s[i+1] : 0, c = r > 2 ? s[i+2] : 0; ok &= d[o] == T64[a >> 2]; ok &= d[o+1] == T64[(a & 3) << 4 | b >> 4]; ok &= d[o+2] == (r > 1 ? T64[(b & 15) << 2 | c >> 6] : '='); ok &= d[o+3] == (r > 2 ? T64[c & 63] : '='); } CHECK(ok && d[o] == 0, "the RFC 4648 encoding");
	CHECK(!base64enc_str(vp_block(be - 1), s, be - 1), "too small a buffer is refused");
	unsigned bd = BASE64DEC_BUFSIZE(BASE64ENC_BYTES(n)); unsigned char *b = vp_block(bd); CHECK(base64dec(b, d, bd - 1) == 0, "too small a buffer is refused"); CHECK(base64dec(b, d, k & 1 ? bd : 0x100000003ul) == n && same((void*)b, (void*)s, n) && b[n] == 0, "decoding an encoding returns the original bytes"); vp_done();
}
#elif MODE == 10 /* C16 */
#include "strlib.h"
void harness(void) {
	unsigned n = H, i; int ok = 1; unsigned char *s = (void*)text(n), *b = vp_block(n); s[65537] = vp_u8(); char *d = vp_block(2 * n + 1); vp_readonly(s); raw2hex(d, s, n);
	for(i = 0; i < n; i++) { ok &= d[2*i] == "0123456789abcdef"[s[i] >> 4]; ok &= d[2*i+1] == "0123456789abcdef"[s[i] & 15]; } CHECK(ok && d[2*n] == 0, "two lowercase digits per byte"); CHECK(hex2raw(d, b) == n && same((void*)b, (void*)s, n), "hex2raw(raw2hex) returns the original bytes"); vp_done();
}
#elif MODE == 11 /* C21 */
#include "strlib.h"
void harness(void) {
	char *t = text(H), *k; unsigned w = vp_choose(3), at = w == 0 ? 65530 : w == 1 ? 65540 : H - 5; t[3] = vp_u8(); vp_assume(t[3] >= 'a');
	memcpy(t + at, " 0Z0 ", 5); 
	switch(vp_choose(6)) {
	case 0: CHECK(strstr_uc(t, vp_cstr("0Z0"), 3) == t + at + 1, "the first match"); t[at + 2] = 'z'; CHECK(strstr_uc(t, vp_cstr("0Z0"), 3) == t + at + 1 && !strstr_uc(t, vp_cstr("0Z1"), 3), "the first match"); break;
	case 1: CHECK(strstar(t, vp_cstr("0*0"), 3) == t + at + 1 && !strstar(t, vp_cstr("0*1"), 3), "the first match"); break;
	case 2: CHECK(findword(t, vp_cstr("0Z0"), 3) == t + at + 1 && !findword(t, vp_cstr("0Z"), 2), "the first match"); break;
	case 3: CHECK(strends(t, t + at) && strends(t, t + 1), "the text ends with its end"); k = vp_cstr(t + at); *nz(k); CHECK(!!strends(t, k) == (k[0] == ' '), "and with nothing else"); CHECK(!strends(t + at, t), "not with a longer one"); break;
	case 4: CHECK(containsChar(t, 'Z') && !containsChar(t, 'Y'), "containsChar"); break;
	case 5: k = strdup_n(t, H); CHECK(k && same(k, t, H + 1), "a copy"); free(k); k = strdup_n(t, 66000); CHECK(k && same(k, t, 66000) && k[66000] == 0, "a copy of the beginning"); free(k); CHECK(vp_live == 0, "released"); break;
	}
	vp_done();
}
#elif MODE == 12 /* C22, C23 */
#include <limits.h>
#include "filelib.h"
#include "stringptr.h"
void harness(void) {
	unsigned n = 0, i, nw = 0; char *t = vp_block(2 * H), *want = vp_block(2 * H), *o = vp_block(2 * H), *q = vp_block(2 * H); unsigned op = vp_choose(3 + (BITS > 1));
	/* short or long components, with some . and .. and // */
	while(n < H) { unsigned l = op == 1 ? 3 + n % 250 : 1; if(op == 0 && n % 100 == 0) { memcpy(t + n, "//x/..", 6); n += 6; continue; } if(op == 0 && n % 10 == 3) { memcpy(t + n, "/.", 2); n += 2; continue; } t[n++] = '/'; want[nw++] = '/'; for(i = 0; i < l; i++) want[nw++] = t[n++] = 'a' + (n + i) % 9; }
	if(op == 2) { nw = 0; for(i = 0; i < n / 2 - 4; i += 2); /* more than 2^15 components, up again to the first ones */ n = 0; for(i = 0; i < 23000; i++) { memcpy(t + n, "/a", 2); n += 2; } t[3] = 'b'; for(i = 0; i < 22998; i++) { memcpy(t + n, "/..", 3); n += 3; } memcpy(want, "/a/b", 4); nw = 4; }
	if(op != 2) { memcpy(t + n, "/ee", 3); n += 3; memcpy(want + nw, "/ee", 3); nw += 3; }
	t[n] = 0; want[nw] = 0; char c = vp_u8(); vp_assume(c != '/' && c != 0 && c != '.'); if(op != 2) { t[n - 1] = c; want[nw - 1] = c; }
#if BITS == 1
	memcpy(q, t, n + 1); vp_readonly(t); CHECK(normalizepath_cstr(t, o) == o && same(o, want, nw + 1), "the path is the normalized one"); 
	stringptr p = { q, n }; if(n < PATH_MAX) CHECK(normalizepath(&p), "normalized"); else if(normalizepath(&p)) CHECK(p.size == nw && same(p.ptr, want, nw + 1), "normalized or refused");
#else
	stringptr p = { t, n }; char *f = getfilename(&p); for(i = n; t[i - 1] != '/'; i--); CHECK(f == t + i, "the file name follows the last slash");
	if(op == 3) { memset(t, 'a', n); t[0] = '/'; t[65537] = '/'; t[3] = '.'; CHECK(getfilename(&p) == t + 65538, "the file name follows the last slash"); CHECK(getFileExt(t, n) == t + 4, "the extension follows the last dot"); t[65540] = '.'; CHECK(getFileExt(t, n) == t + 65541, "the extension follows the last dot"); }
#endif
	vp_done();
}
#elif MODE == 13 /* C25, C26, C27: lines */
#include "fileparser.h"
#include "stringptrlist.h"
#include "iniparser.h"
#include "fsmodel.h"
void harness(void) {
	unsigned i, n = 0, op = OP; fs_name = "file"; fs_data = vp_block(6 * H); fs_cap = 6 * H;
	if(op == 0) { /* a long line between short ones */ memcpy(fs_data, "ab\n", 3); n = 3; for(i = 0; i < H; i++) fs_data[n++] = 'a' + i % 23; fs_data[n++] = '\n'; memcpy(fs_data + n, "cd\n", 3); n += 3; fs_data[66000] = vp_u8(); vp_assume(fs_data[66000] != '\n'); }
	else for(i = 0; i < H; i++) { if(i % 5 || OP == 2) fs_data[n++] = 'a' + i % 7; fs_data[n++] = '\n'; }
	fs_len = n; vp_readonly(fs_data); 
	if(op < 2) {
		fileparser *f = vp_block(sizeof *f); CHECK(fileparser_open(f, "file") == 0, "the file is opened"); char *b = vp_block(H + 1);
		if(op == 0) { CHECK(fileparser_readline(f) == 0 && f->len == 2, "a line"); CHECK(fileparser_getnextlinelength(f) == H, "the length of the next line"); CHECK(fileparser_readline_userbuf(f, b, H + 1) == 0 && f->len == H && same(b, (char*)fs_data + 3, H) && b[H] == 0, "the line has its contents"); CHECK(fileparser_readline(f) == 0 && f->len == 2 && f->buf[0] == 'c', "a line"); CHECK(fileparser_readline(f) == -2, "the end"); }
		else { for(i = 0; i < H; i++) { if(i % 1000 == 77) CHECK(fileparser_getnextlinelength(f) == (i % 5 != 0), "the length of the next line"); CHECK(fileparser_readline(f) == 0 && f->len == (i % 5 != 0) && f->buf[f->len] == 0 && (!f->len || f->buf[0] == (char)('a' + i % 7)), "the line has its contents"); } CHECK(fileparser_readline(f) == -2, "the end"); }
		CHECK(fileparser_close(f) == 0, "closed");
	} else if(op == 2) {
		stringptrlist *r = stringptrlist_new(20000); CHECK(stringptrlist_fromfile(r, vp_cstr("file")) && stringptrlist_getsize(r) == H, "all lines"); int ok = 1; for(i = 0; i < H; i++) { stringptr *s = stringptrlist_get(r, i); ok &= s->size == 1 && s->ptr[1] == 0 && s->ptr[0] == (char)('a' + i % 7); } CHECK(ok, "every line is read"); sblist_free(r); vp_live -= H; 
	} else {
		stringptrlist *r = stringptrlist_new(20000); for(i = 0; i < H; i++) CHECK(stringptrlist_add(r, i % 5 ? "abc" : "d", i % 5 ? 3 : 1), "add"); fs_len = 0; char *w = vp_block(6 * H); fs_data = (unsigned char*)w; CHECK(stringptrlist_tofile(r, vp_cstr("file"), 0600) == 1, "written"); unsigned want = (H - (H + 4) / 5) * 4 + (H + 4) / 5 * 2; CHECK(fs_len == want && same(w + want - 2 - ((H - 1) % 5 ? 2 : 0), (H - 1) % 5 ? "abc\n" : "d\n", (H - 1) % 5 ? 4 : 2), "every item is a line"); stringptrlist_free(r);
	}
	CHECK(vp_live == 0 && !fs_open, "everything is released"); vp_done();
}
#elif MODE == 14 /* C27 */
#include "iniparser.h"
void harness(void) {
	stringptrlist *l = stringptrlist_new(30000); unsigned i; char *big = text(H), *val = text(H); memcpy(big, "k=", 2); big[66000] = vp_u8();
	for(i = 0; i < H; i++) { if(i == 65540) CHECK(stringptrlist_add(l, "[last]", 6), "add"); else if(i == 65541) CHECK(stringptrlist_add(l, "key=value", 9), "add"); else if(i == 65542) CHECK(stringptrlist_add(l, big, H), "add"); else if(i == 2) CHECK(stringptrlist_add(l, "[first]", 7), "add"); else CHECK(stringptrlist_add(l, i % 2 ? "key=other" : "; x", i % 2 ? 9 : 3), "add"); }
	stringptr fs = { vp_cstr("first"), 5 }, ls = { vp_cstr("last"), 4 }, k = { vp_cstr("key"), 3 }, k1 = { vp_cstr("k"), 1 }, v; 
	CHECK(iniparser_count_sections(l) == 2, "two sections"); 
	ini_section a = iniparser_get_section(l, &fs), b = iniparser_get_section(l, &ls); CHECK(a.startline == 3 && a.linecount == 65537 && b.startline == 65541 && b.linecount == H - 65541, "the lines of the sections");
	iniparser_getvalue(l, &b, &k, &v); CHECK(v.size == 5 && !memcmp(v.ptr, "value", 5), "the value"); iniparser_getvalue(l, &b, &k1, &v); CHECK(v.size == H - 2 && v.ptr == big + 2, "a long value");
	stringptrlist_free(l); vp_done();
}
#elif MODE == 15 /* C28 */
#include "optparser.h"
void harness(void) {
	unsigned i; char **v = vp_block(H * sizeof *v), *o = vp_cstr("-v"), *x = vp_cstr("--other=1"), *t = text(H); memcpy(t, "--long=", 7); t[66000] = vp_u8(); vp_assume(t[66000] != 0); for(i = 0; i < H; i++) v[i] = i % 2 ? o : x; v[65540] = vp_cstr("--key"); v[65541] = vp_cstr("value"); v[65543] = t; v[65545] = vp_cstr("-k=5"); op_state *st = vp_block(sizeof *st); op_init(st, H, v);
	stringptr k = { vp_cstr("key"), 3 }, k1 = { vp_cstr("k"), 1 }, l = { vp_cstr("long"), 4 }, n = { vp_cstr("none"), 4 }; CHECK(op_hasflag(st, &k) && !op_hasflag(st, &n) && op_get(st, &k) == v[65541] && op_get(st, &k1) == v[65545] + 3 && op_get(st, &l) == t + 7 && !op_get(st, &n), "options behind many others"); vp_done();
}
#elif MODE == 16 /* C29: many bytes at once, from any state */
#include "crc32.h"
#include "crc32c.h"
#if CAST
#define F(n) CRC32C_##n
#define POLY 0x82f63b78u
#else
#define F(n) CRC32_##n
#define POLY 0xedb88320u
#endif
static uint32_t step(uint32_t s, uint8_t b) { s ^= b; for(int k = 0; k < 8; k++) s = (s >> 1) ^ ((s & 1) ? POLY : 0); return s; }
void harness(void) {
	F(InitTables)(); CRC32_CTX *c = vp_block(sizeof *c); static const unsigned lens[] = { LENS }; unsigned i, n = lens[vp_choose(sizeof lens / sizeof *lens)]; uint8_t *b = vp_block(n), *o = vp_block(4); for(i = 0; i < n; i++) b[i] = i * 7 + i / 256; for(i = 0; i < 3 && i < n; i++) b[n - 1 - i] = vp_u8(); vp_readonly(b);
	F(Init)(c); F(Update)(c, b, n); F(Final)(o, c); uint32_t s = 0xffffffffu; for(i = 0; i < n; i++) s = step(s, b[i]); s = ~s; for(i = 0; i < 4; i++) { CHECK(o[i] == (uint8_t)(s >> (8 * i)), "the checksum"); vp_obs(o[i]); } vp_done();
}
#elif MODE == 17 /* C33, C23, C19: big buffers */
#include "format.h"
void harness(void) {
	static const size_t bs[] = { 65536, 65537, 65540, 131072, 0x100000000ul, 0x100000004ul, 0x7fffffff, 0x80000000ul, 0xffffffff }; size_t n = bs[vp_choose(9)]; char *d = vp_block(n < 140000 ? n : 140000), *s = text(H); s[66000] = vp_u8(); vp_assume(s[66000] != 0); size_t need = H + 2, cut = need < n ? need : n - 1;
	if(vp_choose(2)) { ssize_t r = ulz_snprintf(d, n, "%d-", 7); CHECK(r == 2 && d[0] == '7' && d[1] == '-' && d[2] == 0, "a short text in a big buffer"); vp_done(); }
	CHECK(ulz_snprintf(0, 0, "<%s>", s) == need, "the length of the text"); ssize_t r = ulz_snprintf(d, n, "<%s>", s); CHECK(r == cut && d[0] == '<' && same(d + 1, s, cut - 1 < H ? cut - 1 : H) && d[cut] == 0, "the text, as far as it fits"); if(cut == need) CHECK(d[H + 1] == '>', "complete"); vp_done();
}
#elif MODE == 18 /* C11 */
#include "bitarray.h"
void harness(void) {
	unsigned char *a = vp_block(BA_SIZE_REQUIRED(8 * H + 3)); memset(a, 0x5a, BA_SIZE_REQUIRED(8 * H + 3)); CHECK(BA_SIZE_REQUIRED(8 * H + 3) == H + 1, "the size");
	static const unsigned at[] = { 65535, 65536, 65537, 0x7ffff, 0x80000, 0x80001, 8 * H + 2 }; unsigned i = at[vp_choose(7)]; unsigned op = vp_choose(3); int c = vp_u32(); if(op == 0) BA_SET_TRUE(a, i); else if(op == 1) BA_SET_FALSE(a, i); else BA_SET(a, i, c);
	CHECK(BA_GET(a, i) == (op == 0 ? 1 : op == 1 ? 0 : !!c), "a bit reads back as written"); for(unsigned k = 0; k <= H; k++) if(k != i / 8) CHECK(a[k] == 0x5a, "other bits are unchanged"); vp_done();
}
#elif MODE == 19 /* C18, C32 */
#include "strlib.h"
static unsigned char S[256];
void harness(void) {
	unsigned i, j = 0, n = H; unsigned char t, *m = (void*)text(n), *d = vp_block(n), *k = (void*)text(16); m[65537] = vp_u8(); for(i = 0; i < 256; i++) S[i] = i; for(i = 0; i < 256; i++) { j = (j + S[i] + k[i % 16]) & 255; t = S[i]; S[i] = S[j]; S[j] = t; }
	rc4(d, m, n, k, 16); unsigned a = 0, b = 0; int ok = 1; for(i = 0; i < n; i++) { a = (a + 1) & 255; b = (b + S[a]) & 255; t = S[a]; S[a] = S[b]; S[b] = t; ok &= d[i] == (unsigned char)(m[i] ^ S[(S[a] + S[b]) & 255]); } CHECK(ok, "the text combined with the key stream"); vp_done();
}
#elif MODE == 20 /* C01: many owned values, sorting, huge items */
#include "sblist.h"
static int cmp(const void *a, const void *b) { uint32_t x = *(uint32_t*)a, y = *(uint32_t*)b; return (x > y) - (x < y); }
void harness(void) {
	unsigned i, k;
#if OP == 0
	sblist *l = sblist_new(sizeof(void*), 9000); for(i = 0; i < H; i++) { void *p = malloc(1); CHECK(sblist_add(l, &p), "add"); } sblist_free_values(l); sblist_free(l);
#elif OP == 1
	sblist *l = sblist_new(4, 9000); for(i = 0; i < H; i++) { uint32_t x = i ^ 5; CHECK(sblist_add(l, &x), "add"); } sblist_sort(l, cmp); CHECK(sblist_getsize(l) == H, "size"); for(i = 1; i < H; i++) CHECK(*(uint32_t*)sblist_get(l, i - 1) <= *(uint32_t*)sblist_get(l, i), "sorted"); sblist_free(l);
#else
	unsigned n = OP, m[8], c = 0; sblist *l = sblist_new(n, 2); unsigned char *b = vp_block(n); memset(b, 3, n);
	for(k = 0; k < 6; k++) { b[0] = b[n - 1] = m[c] = vp_u8(); b[n / 2] = k; if(k % 3 == 2) { CHECK(sblist_insert(l, b, 1), "insert"); unsigned t = m[c]; for(i = c; i > 1; i--) m[i] = m[i-1]; m[1] = t; } else CHECK(sblist_add(l, b), "add"); c++; }
	sblist_delete(l, 2); for(i = 2; i + 1 < c; i++) m[i] = m[i+1]; c--; b[0] = b[n - 1] = m[3] = vp_u8(); CHECK(sblist_set(l, b, 3), "set"); CHECK(sblist_getsize(l) == c, "size");
	for(i = 0; i < c; i++) { unsigned char *q = sblist_get(l, i); CHECK(q && q[0] == m[i] && q[n-1] == m[i] && q[1] == 3 && q[n - 2] == 3, "items are kept"); } unsigned char *q = sblist_pop(l); CHECK(q && q[0] == m[c-1] && q[n-1] == m[c-1], "pop"); sblist_free(l);
#endif
	CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 21 /* C04: huge items */
#include "tglist.h"
#include "tgilist.h"
struct big { unsigned char a, b[70001], c; };
void harness(void) {
	tglist(struct big) *l = tglist_new(); tgilist(struct big, unsigned short) *g = tgilist_new(); static struct big x; unsigned m[8], i, k, c = 0; memset(x.b, 3, sizeof x.b);
	for(k = 0; k < 6; k++) { x.a = x.c = m[c] = vp_u8(); if(k % 3 == 2) { CHECK(tglist_insert(l, x, 1) && tgilist_insert(g, x, 1), "insert"); unsigned t = m[c]; for(i = c; i > 1; i--) m[i] = m[i-1]; m[1] = t; } else CHECK(tglist_add(l, x) && tgilist_add(g, x), "add"); c++; }
	tglist_delete(l, 2); tgilist_delete(g, 2); for(i = 2; i + 1 < c; i++) m[i] = m[i+1]; c--; x.a = x.c = m[3] = vp_u8(); tglist_set(l, x, 3); tgilist_set(g, x, 3); CHECK(tglist_getsize(l) == c && tgilist_getsize(g) == c, "size");
	for(i = 0; i < c; i++) { struct big *p = &tglist_get(l, i), *q = &tgilist_get(g, i); CHECK(p->a == m[i] && p->c == m[i] && p->b[70000] == 3 && q->a == m[i] && q->c == m[i] && q->b[70000] == 3, "items are kept"); } tglist_free(l); tgilist_free(g);
	CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 22 /* C07: huge items */
#include "tlist.h"
void harness(void) {
	unsigned n = OP, m[8], i, k, c = 0; tlist *l = tlist_new(n); unsigned char *b = vp_block(n); memset(b, 3, n);
	for(k = 0; k < 6; k++) { b[0] = b[n - 1] = m[c] = vp_u8(); if(k % 3 == 2) { CHECK(tlist_insert(l, 1, b), "insert"); unsigned t = m[c]; for(i = c; i > 1; i--) m[i] = m[i-1]; m[1] = t; } else CHECK(tlist_append(l, b), "append"); c++; }
	CHECK(tlist_delete(l, 2), "delete"); for(i = 2; i + 1 < c; i++) m[i] = m[i+1]; c--; CHECK(tlist_getsize(l) == c, "size"); b[0] = b[n-1] = 77;
	for(i = 0; i < c; i++) { unsigned char *q = tlist_get(l, i); CHECK(vp_valid(q, n) && q[0] == m[i] && q[n-1] == m[i] && q[1] == 3 && q[n - 2] == 3, "items are kept"); } tlist_free(l);
	CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 23 /* C08: huge items */
#include "hashlist.h"
void harness(void) {
	unsigned n = OP, m[6], k; hashlist *h = hashlist_new(2, n); unsigned char *b = vp_block(n); memset(b, 3, n);
	for(k = 0; k < 6; k++) { b[0] = b[n - 1] = m[k] = vp_u8(); b[1] = k; CHECK(hashlist_add(h, 0xfffffff0u + k, b) == 0, "add"); } b[0] = b[n-1] = 77;
	for(k = 0; k < 6; k++) { sblist *l = hashlist_get(h, 0xfffffff0u + k); CHECK(l && sblist_getsize(l) == 3, "entries of a bucket"); unsigned char *q = sblist_get(l, k / 2); CHECK(vp_valid(q, n) && q[1] == k && q[0] == m[k] && q[n-1] == m[k] && q[n-2] == 3, "items are kept"); }
	hashlist_iterator it; hashlist_iterator_init(&it); unsigned seen = 0; unsigned char *q; while((q = hashlist_next(h, &it))) { CHECK(q[1] < 6 && !(seen >> q[1] & 1) && q[n-1] == m[q[1]], "every item once"); seen |= 1u << q[1]; } CHECK(seen == 63, "every item");
	hashlist_free(h); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 24 /* C05, C06: huge keys and values */
#if OP
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
struct big { unsigned char a, b[70001], c; };
static int cmpb(const void *a, const void *b) { const struct big *x = a, *y = b; CHECK(x->a == x->c && y->a == y->c, "whole keys are compared"); return x->a - y->a; }
static unsigned hf(const struct big x) { return x.c; }
void harness(void) {
	static struct big k, v; unsigned i, n = 0; unsigned char key[5] = {9, 4, 7, 4, 200}, want[5]; v.b[70000] = 3; static bmap(struct big, struct big) bm; static hbmap(struct big, struct big, 2) hm; bmap_init(&bm, cmpb); hbmap_init(&hm, cmpb, hf);
	CHECK(bmap_getkeysize(&bm) == sizeof k && bmap_getvalsize(&bm) == sizeof k && hbmap_getkeysize(&hm) == sizeof k && hbmap_getvalsize(&hm) == sizeof k, "sizes");
	for(i = 0; i < 5; i++) { k.a = k.c = key[i]; v.a = v.c = want[i] = vp_u8(); CHECK(bmap_insert(&bm, k, v) != -1, "insert"); CHECK(hbmap_insert(&hm, k, v) != (hbmap_iter)-1, "insert"); } want[1] = want[3];
	CHECK(bmap_getsize(&bm) == 4, "size"); k.a = k.c = 7; ssize_t p = bmap_find(&bm, k); CHECK(p == 1, "found at its place"); bmap_delete(&bm, p); hbmap_iter it = hbmap_find(&hm, k); CHECK(it != (hbmap_iter)-1, "found"); hbmap_delete(&hm, it); CHECK(!bmap_contains(&bm, k) && !bmap_get(&bm, k) && hbmap_find(&hm, k) == (hbmap_iter)-1 && bmap_getsize(&bm) == 3, "deleted");
	for(i = 0; i < 5; i++) if(i != 2) { k.a = k.c = key[i]; struct big *q = bmap_get(&bm, k), *r = hbmap_get(&hm, k); CHECK(q && q->a == want[i] && q->c == want[i] && q->b[70000] == 3 && r && r->a == want[i] && r->c == want[i] && r->b[70000] == 3, "the value of the key"); }
	hbmap_foreach(&hm, it) { CHECK(hbmap_getkey(&hm, it).a == hbmap_getkey(&hm, it).c, "whole keys"); n++; } CHECK(n == 3, "every entry once");
	bmap_fini(&bm, 0); hbmap_fini(&hm, 0); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 25 /* C37 */
#include <sys/types.h>
#include "stringlist.h"
#include "sptrlist.h"
void harness(void) {
	unsigned i, dup = vp_choose(2); char *t = text(H), *g, *lng = text(H), *mid = text(5000); lng[65540] = vp_u8(); vp_assume(lng[65540] != 0);
	if(dup) { /* long strings */
		stringlist *l = stringlist_new(2); CHECK(stringlist_add_dup(l, lng) == 1 && stringlist_add(l, lng) == 1 && stringlist_add_dup(l, mid) == 1, "added"); g = stringlist_get(l, 0); CHECK(g != lng && vp_valid(g, H + 1) && same(g, lng, H + 1), "a copy of the whole string"); CHECK(stringlist_get(l, 1) == lng, "the string itself"); free(g);
		g = stringlist_get(l, 2); CHECK(g != mid && same(g, mid, 5001), "a copy of the whole string"); free(g); stringlist_free(l); vp_done();
	}
	stringlist *l = stringlist_new(20000); for(i = 0; i < H; i++) { g = t + i; CHECK(stringlist_add(l, g) == 1, "added"); }
	CHECK(stringlist_getsize(l) == H && !sblist_empty(l), "the number of strings"); CHECK(stringlist_get(l, 65536) == t + 65536 && stringlist_get(l, H - 1) == t + H - 1 && !stringlist_get(l, H), "the strings");
	stringlist_delete(l, 65536); CHECK(stringlist_get(l, 65535) == t + 65535 && stringlist_get(l, 65536) == t + 65537 && stringlist_getsize(l) == H - 1, "deleted");
	size_t q; unsigned c = 0, ok = 1; stringlist_iter(l, q) { ok &= q == c; c++; } CHECK(ok && c == H - 1, "every position once"); 
	c = 0; { stringlist_foreach(l, g) { ok &= g == t + c + (c >= 65536); c++; } } CHECK(ok && c == H - 1, "every string once, in order");
	void **e; c = 0; sblist_iter(l, e) { ok &= *e == t + c + (c >= 65536); c++; } CHECK(ok && c == H - 1, "every item once, in order");
	c = 0; sblist_iter_counter(l, it, e) { ok &= it == c && *e == t + c + (c >= 65536); c++; } CHECK(ok && c == H - 1, "every item once, with its position");
	c = 0; sblist_iter_counter2(l, q, e) { ok &= q == c && *e == t + c + (c >= 65536); c++; } CHECK(ok && c == H - 1 && q == c, "every item once, with its position");
	ssize_t z; c = 0; sblist_iter_counter2s(l, z, e) { ok &= z == c && *e == t + c + (c >= 65536); c++; } CHECK(ok && c == H - 1 && z == c, "every item once, with its position");
	void *p = mid; CHECK(sptrlist_get_count(l) == H - 1 && sptrlist_set(l, p, 65600) == 1 && sptrlist_get(l, 65600) == mid && sptrlist_get(l, 64) == t + 64, "set"); stringlist_free(l); vp_done();
}
#elif MODE == 26 /* C36 */
#include <stdio.h>
#include "stringptr.h"
static char *in, *bb; static unsigned n, pos; static int bs;
char *vp_fgets(char *b, int sz, FILE *f) {
	int i = 0; CHECK(b >= bb && sz > 0 && b + sz <= bb + bs, "the given buffer is used"); CHECK(f == stdin, "standard input");
	while(i < sz - 1 && pos < n) { char c = in[pos++]; b[i++] = c; if(c == '\n') break; }
	if(!i) return 0;
	b[i] = 0; return b;
}
void harness(void) {
	static const unsigned ll[] = { 255, 256, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 70000 }; static const int bl[] = { 128, 257, 1025, 4097, 65537, 70002 }; unsigned i, p = 0, len = ll[vp_choose(10)], calls; int chomp = vp_choose(2); bs = bl[vp_choose(6)]; if(bs == 128 && len > 5000) vp_assume(0);
	n = len + 4; in = text(n); in[len] = '\n'; in[len / 2] = vp_u8(); in[len - 1] = vp_u8(); vp_assume(in[len / 2] != '\n' && in[len - 1] != '\n' && in[len / 2] && in[len - 1]); bb = vp_block(bs);
	for(calls = 0; calls < 400; calls++) {
		stringptr s = read_stdin_line(bb, bs, chomp); vp_obs(s.size); if(p >= n) { CHECK(s.ptr == 0 && s.size == 0, "nothing at the end of the input"); vp_done(); }
		unsigned e = p <= len ? len : n, nl = e == len && e - p < bs - 1; if(e - p > bs - 1) e = p + bs - 1;
		unsigned k = e - p + (nl && !chomp); CHECK(s.ptr == bb && s.size == k, "the line is complete, without its newline if wanted"); CHECK(same(bb, in + p, k) && bb[k] == 0, "the line has its text"); p = e + nl;
	}
	vp_fail("more lines than expected");
}
#elif MODE == 27 /* C05, C06: finishing maps with many owned entries */
#if KIND & 1
#define BMAP_USE_TGILIST
#endif
#include "hbmap.h"
static int cmpp(const void *a, const void *b) { const unsigned *x = *(unsigned *const*)a, *y = *(unsigned *const*)b; return *x < *y ? -1 : *x > *y; }
static unsigned hp(const unsigned *x) { return 1; }
void harness(void) {
	unsigned n = NE, i, flag; unsigned **k = malloc(n * sizeof *k), **v = malloc(n * sizeof *v); 
#if KIND < 2
	static bmap(unsigned*, unsigned*) m; bmap_init(&m, cmpp);
#define FN(x) bmap_##x
#else
	static hbmap(unsigned*, unsigned*, 2) m; hbmap_init(&m, cmpp, (void*)hp);
#define FN(x) hbmap_##x
#endif
	for(i = 0; i < n; i++) { k[i] = malloc(4); v[i] = malloc(4); *k[i] = i; *v[i] = i; CHECK(FN(insert)(&m, k[i], v[i]) != -1, "insert"); }
	unsigned **g = FN(get)(&m, k[n - 1]); CHECK(g && *g == v[n - 1], "get");
	flag = vp_choose(NE > 9999 ? 2 : 4); if(NE > 9999) flag = flag ? 3 : 0; FN(fini)(&m, flag); CHECK(vp_live == 2 + 2 * n - (flag & 1 ? n : 0) - (flag & 2 ? n : 0), "finishing frees the keys with flag 1 and the values with flag 2, and the map's own memory");
	if(!(flag & 1)) for(i = 0; i < n; i++) { CHECK(*k[i] == i, "kept"); free(k[i]); }
	if(!(flag & 2)) for(i = 0; i < n; i++) { CHECK(*v[i] == i, "kept"); free(v[i]); }
	free(k); free(v); CHECK(vp_live == 0, "nothing left"); vp_done();
}
#elif MODE == 28 /* C19: wide numbers */
#include "format.h"
void harness(void) {
	static const char *ws[] = { "127", "128", "255", "256", "257", "1000", "1023", "1024", "4096", "32767", "32768", "65535", "65536", "70001" }; static const unsigned wn[] = { 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 70001 };
	static const char *sp[] = { "d", "x", "zu", "lld" }; unsigned k = vp_choose(14), t = vp_choose(4), i, w = wn[k], neg = (t == 0 || t == 3) && (k & 1), d1 = vp_u8() % 10, d0 = 1 + vp_u8() % 9; char f[24] = "<%."; strcat(f, ws[k]); strcat(f, sp[t]); strcat(f, ">");
	unsigned v = t == 1 ? d0 * 16 + d1 : d0 * 10 + d1; size_t need = w + neg + 2, n = vp_choose(2) ? need + 1 : need - 3; long long sv = neg ? -(long long)v : v;
	CHECK((t == 0 || t == 1 ? ulz_snprintf(0, 0, f, (int)sv) : ulz_snprintf(0, 0, f, sv)) == need, "the length"); char *b = vp_block(n); ssize_t r = t == 0 || t == 1 ? ulz_snprintf(b, n, f, (int)sv) : ulz_snprintf(b, n, f, sv); vp_obs(r);
	CHECK(r == (n > need ? need : n - 1) && b[r] == 0 && b[0] == '<' && (!neg || b[1] == '-'), "the text"); int ok = 1; for(i = 1 + neg; i < w + neg - 1 && i < r; i++) ok &= b[i] == '0'; CHECK(ok, "zeroes"); if(n > need) CHECK(b[need - 3] == '0' + d0 && b[need - 2] == '0' + d1 && b[need - 1] == '>', "digits");
	vp_done();
}
#elif MODE == 29 /* C24: many results */
#include <glob.h>
#include "filelist.h"
static char **names; static unsigned nfree;
int vp_glob(const char *p, int f, int (*e)(const char*, int), glob_t *g) { g->gl_pathc = H; g->gl_pathv = names; return 0; }
void vp_globfree(glob_t *g) { nfree++; }
void harness(void) {
	unsigned fc = vp_choose(2), i; names = vp_block(H * sizeof *names);
	for(i = 0; i < H; i++) { char *q = vp_block(4); q[0] = 'd'; q[1] = '/'; q[2] = 'a' + i % 26; q[3] = 0; names[i] = q; } names[65537][2] = vp_u8(); vp_assume(names[65537][2] != 0 && names[65537][2] != '/');
	filelist *l = vp_block(sizeof *l); stringptr d = {"d", 1}, m = {"*", 1}; CHECK(filelist_search(l, &d, &m, fc ? FLF_EXCLUDE_PATH : FLF_NONE) == 0, "listed"); CHECK(stringptrlist_getsize(l->files) == H, "every result is listed");
	for(i = 0; i < H; i++) { stringptr *s = stringptrlist_get(l->files, i); CHECK(s && s->size == (fc ? 1 : 3) && s->ptr == names[i] + (fc ? 2 : 0), "the name, with or without path"); }
	filelist_free(l); CHECK(vp_live == 0 && nfree == 1, "everything is released"); vp_done();
}
#endif
