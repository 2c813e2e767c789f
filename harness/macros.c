/* the convenience macros of the headers: each is exactly its definition */
#include "vp.h"
#include <sys/types.h>
static int beq(const char *a, const char *b, size_t n) { int r = 1; for(size_t i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
#if MODE == 0 /* C12: string literals and short names */
#include "stringptr.h"
static stringptr stat_ = SPINITIALIZER("ab\0cd");
void harness(void) {
	static char lit[] = "xyz"; unsigned n = vp_choose(4), m = vp_choose(4); char *s = vp_strn(n), *t = vp_strn(m); vp_readonly(s);
	stringptr *a = SPL("hello"), *b = SPLITERAL(""), *c = SPMAKE(s, n), d = SP_INIT(s, n); CHECK(a->size == 5 && !memcmp(a->ptr, "hello", 6) && b->size == 0 && b->ptr && c->ptr == s && c->size == n && d.ptr == s && d.size == n && stat_.size == 5 && !memcmp(stat_.ptr, "ab\0cd", 6), "a literal has its content and length");
	a = SPL(lit); CHECK(a->ptr == lit && a->size == 3, "an array has its content and length");
	SPDECLAREC(e, s); SPDECLAREC(f, t); CHECK(e == &e_storage && e->ptr == s && e->size == n && f->ptr == t && f->size == m, "a declared string wraps the whole text");
	int eq = n == m && beq(s, t, n); CHECK(!!EQ(e, f) == eq && !!EQ(c, f) == eq && EQ(e, &d), "EQ compares the content"); vp_obs(eq);
	CHECK(stringptr_get(c) == s && stringptr_getsize(c) == n && stringptr_get_s(c) == s && stringptr_getsize_s(c) == n && stringptr_get_s(SPNIL) == 0 && stringptr_getsize_s(SPNIL) == 0 && stringptr_empty_s(SPNIL) && !!stringptr_empty(c) == !n && !!stringptr_empty_s(c) == !n, "access to the parts");
	stringptr *g = SDUP(c); CHECK(g && g->ptr != s && g->size == n && beq(g->ptr, s, n) && g->ptr[n] == 0, "SDUP copies"); size_t k = n; while(k && (s[k-1] == '\n' || s[k-1] == '\r')) k--; CHECK(CHOMP(g) == n - k && g->size == k && beq(g->ptr, s, k) && g->ptr[k] == 0, "CHOMP removes the line break");
	stringptr *o = g; stringptr_free(g); CHECK(g == 0 && o, "free clears the pointer"); stringptr_free(g); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 1 /* C14: the list macros */
#include "stringptrlist.h"
#include "kvlist.h"
void harness(void) {
	kvlist *v = kv_new(2); stringptrlist *l = stringptrlist_new(3); char *p[4]; size_t z[4]; unsigned long q[4]; unsigned n = 1 + vp_choose(3), i, w = vp_choose(n), pos = vp_choose(n + 1); char *x = vp_block(3);
	CHECK(v && l && kv_getsize(v) == 0 && stringptrlist_empty(l), "new lists are empty");
	for(i = 0; i < n; i++) { z[i] = vp_choose(3); p[i] = vp_block(z[i]); q[i] = vp_u64(); CHECK(kv_add(v, p[i], z[i], (void*)q[i]) == 1 && stringptrlist_add(l, p[i], z[i]) == 1, "add"); }
	CHECK(kv_getsize(v) == n && stringptrlist_getsize(l) == n && !stringptrlist_empty(l), "the number of entries");
	unsigned long y = vp_u64(); CHECK(kv_set(v, w, x, 1, (void*)y), "set"); CHECK(stringptrlist_set(l, w, x + 1, 2), "set");
	for(i = 0; i < n; i++) { stringptrv *e = kv_get(v, i); stringptr *s = stringptrlist_get(l, i); CHECK(e->ptr == (i == w ? x : p[i]) && e->size == (i == w ? 1 : z[i]) && e->value == (void*)(i == w ? y : q[i]), "key, size and value are those stored"); CHECK(s->ptr == (i == w ? x + 1 : p[i]) && s->size == (i == w ? 2 : z[i]), "the string is the one stored"); vp_obs((unsigned long)e->value); }
	stringptrv *m = SPVMAKE(x, 3, v); CHECK(m->ptr == x && m->size == 3 && m->value == v, "a literal entry"); CHECK(!kv_get(v, n) && !stringptrlist_get(l, n), "nothing behind the last entry");
	stringptrlist_insert(l, pos, x + 2, 1); CHECK(stringptrlist_getsize(l) == n + 1, "one more"); for(i = 0; i <= n; i++) { stringptr *s = stringptrlist_get(l, i); unsigned o = i < pos ? i : i - 1; CHECK(i == pos ? s->ptr == x + 2 && s->size == 1 : s->ptr == (o == w ? x + 1 : p[o]) && s->size == (o == w ? 2 : z[o]), "inserted at the position, the others keep their order"); }
	kv_free(v); stringptrlist_free(l); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 2 /* C13: splitting into lines */
#include "stringptrlist.h"
void harness(void) {
	unsigned n = vp_choose(6), i, k = 0, b = 0; char *s = vp_block(n + 1), o[6]; vp_bytes(s, n); s[n] = 0; memcpy(o, s, n); stringptr t = {s, n}; stringptrlist *l = stringptr_linesplit(&t); CHECK(l != 0, "split gives a list");
	for(i = 0; i <= n; i++) if(i == n || o[i] == '\n') { stringptr *e = stringptrlist_get(l, k); if(i == n && b == n && !e) break; CHECK(e && e->size == i - b && (e->size == 0 || e->ptr == s + b), "the pieces are the lines"); k++; b = i + 1; }
	vp_obs(k); CHECK(stringptrlist_getsize(l) == k, "nothing else"); stringptrlist_free(l); CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 3 /* C03: sorting typed lists */
#include "tglist.h"
static int c1(const void *a, const void *b) { return *(const unsigned char*)a - *(const unsigned char*)b; }
static int c3(const void *a, const void *b) { return ((const unsigned char*)a)[1] - ((const unsigned char*)b)[1]; }
static int c8(const void *a, const void *b) { unsigned long x = *(const unsigned long*)a, y = *(const unsigned long*)b; return (x > y) - (x < y); }
struct s3 { unsigned char id, key, x; };
void harness(void) {
	unsigned n = vp_choose(5), i, seen = 0, kind = vp_choose(3); unsigned long sum = 0, s2 = 0;
	if(kind == 0) { tglist(unsigned char) *l = tglist_new(); for(i = 0; i < n; i++) { unsigned char c = vp_u8(); sum += 1ul << c % 64 | (unsigned long)c * c; CHECK(tglist_add(l, c), "add"); } if(n) tglist_sort(l, c1); CHECK(tglist_getsize(l) == n && tglist_get_count(l) == n && !!tglist_empty(l) == !n && tglist_itemsize(l) == 1, "sorting keeps the size"); for(i = 0; i < n; i++) { unsigned char c = tglist_get(l, i); s2 += 1ul << c % 64 | (unsigned long)c * c; if(i) CHECK(tglist_get(l, i-1) <= c, "sorted"); } CHECK(sum == s2, "the same items"); tglist_free(l); }
	else if(kind == 1) { tglist(struct s3) *l = tglist_new(); unsigned char k[4]; for(i = 0; i < n; i++) { struct s3 e = { i, k[i] = vp_u8(), 7 }; CHECK(tglist_add(l, e), "add"); } if(n) tglist_sort(l, c3); CHECK(tglist_getsize(l) == n && tglist_itemsize(l) == 3, "sorting keeps the size"); for(i = 0; i < n; i++) { struct s3 e = tglist_get(l, i); unsigned id = vp_split(e.id); CHECK(id < n && e.key == k[id] && e.x == 7 && !(seen >> id & 1), "items are complete, none twice"); seen |= 1u << id; if(i) CHECK(tglist_get(l, i-1).key <= e.key, "sorted"); } tglist_free(l); }
	else { tglist(unsigned long) *l = tglist_new(); for(i = 0; i < n; i++) { unsigned long c = vp_u64(); sum ^= c; CHECK(tglist_add(l, c), "add"); } if(n) tglist_sort(l, c8); CHECK(tglist_getsize(l) == n && tglist_itemsize(l) == 8, "sorting keeps the size"); for(i = 0; i < n; i++) { unsigned long c = tglist_get(l, i); s2 ^= c; if(i) CHECK(tglist_get(l, i-1) <= c, "sorted"); } CHECK(sum == s2, "the same items"); tglist_free(l); }
	CHECK(vp_live == 0, "everything is released"); vp_done();
}
#elif MODE == 4 /* C09: the default pool */
#define SSA_MAXELEM 8
#define SSA_ELEMSIZE 5
#include "ssalloc.c"
void harness(void) {
	SSINIT; unsigned char *p[8], *h = malloc(5); unsigned i, k = vp_choose(8), j = (k + 1 + vp_choose(7)) % 8;
	size_t sz = vp_u64(); void *r = sz > 5 ? SSALLOC(sz) : 0; CHECK(r == 0, "nothing larger than a slot");
	for(i = 0; i < 8; i++) { p[i] = SSALLOC(i % 6); CHECK(p[i] && p[i] >= SSA_POOL.mem && p[i] + 5 <= SSA_POOL.mem + 40, "a slot of the pool"); memset(p[i], i + 1, 5); } CHECK(SSALLOC(1) == 0, "the pool is full");
	SSFREE(p[j]); unsigned char *q = p[k]; SSNULL(p[k]); CHECK(p[k] == 0, "the pointer is cleared"); SSFREE(h); SSFREE(h + 3); SSFREE(q + 1);
	unsigned char *a = SSALLOC(5), *b = SSALLOC(0); CHECK((a == q && b == p[j]) || (b == q && a == p[j]), "freed slots are available again"); CHECK(SSALLOC(1) == 0, "and no others");
	for(i = 0; i < 8; i++) if(i != k && i != j) for(unsigned m = 0; m < 5; m++) CHECK(p[i][m] == i + 1, "other slots keep their content");
	SSINIT; for(i = 0; i < 8; i++) CHECK(SSALLOC(5) != 0, "a fresh pool is empty"); CHECK(SSALLOC(1) == 0, "the pool is full"); free(h); vp_done();
}
#elif MODE == 5 /* C21: equality */
#include "strlib.h"
void harness(void) {
	unsigned n = vp_choose(4), m = vp_choose(4), i; char *a = vp_block(n), *b = vp_block(n), *s = vp_strn(n), *t = vp_strn(m); vp_bytes(a, n); vp_bytes(b, n); vp_readonly(a); vp_readonly(b); vp_readonly(s); vp_readonly(t);
	int e = 1; for(i = 0; i < n; i++) e &= a[i] == b[i]; CHECK(!!mem_equal(a, b, n) == e, "equal memory"); vp_obs(e);
	e = n == m && beq(s, t, n); CHECK(!!str_equal(s, t) == e, "equal strings"); static const char lit[] = "four"; CHECK(strlitlen("") == 0 && strlitlen("a\0b") == 3 && strlitlen(lit) == 4, "the length of a literal"); vp_done();
}
#elif MODE == 6 /* C34: argument descriptors of the log */
#include "logger.h"
static char out[64]; static unsigned no;
ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(fd == 7, "written to the given descriptor"); CHECK(vp_valid(b, n) && n < sizeof out - no, "no more than the text"); memcpy(out + no, b, n); no += n; return n; }
static void same(const char *w, unsigned n, const char *m) { CHECK(no == n, m); int ok = 1; for(unsigned i = 0; i < n; i++) ok &= out[i] == w[i]; CHECK(ok, m); no = 0; }
void harness(void) {
	unsigned l = vp_choose(3), d = vp_u8() % 10; char *s = vp_strn(l), w[32]; stringptr p = {s, l}, *pp = &p, *np = 0; const char *cc = s; char *nc = 0;
	memcpy(w, s, l); memcpy(w + l, s, l); memcpy(w + 2 * l, "lit\n", 4); log_put(7, VARIS(pp), VARIC(s), VARISL("lit"), VNIL); same(w, 2 * l + 4, "strings"); 
	memcpy(w, s, l); w[l] = 'k'; memcpy(w + l + 1, s, l); w[2 * l + 1] = '\n'; log_put(7, VARICC(cc), VARICC("k"), VARIS(&p), VARIS(np), VARIC(nc), VNIL); same(w, 2 * l + 2, "constants, nothing for NULL");
	w[0] = '-'; w[1] = '0' + d; w[2] = '5'; w[3] = '0' + d; w[4] = '5'; w[5] = '-'; w[6] = '0' + d; w[7] = '5'; w[8] = '0' + d; w[9] = '5'; w[10] = '\n'; int x = d * 10 + 5; if(d) { log_put(7, VARII(-x), VARIU((unsigned)x), VARIL(-(long)x), VARIUL(x + 0ul), VNIL); same(w, 11, "the value of an expression"); }
	vp_done();
}
#elif MODE == 7 /* C15: the sizes of arguments that are expressions */
#include "strlib.h"
void harness(void) {
	size_t a = vp_u32(), b = vp_u32(), c = vp_choose(2), e = c ? a : b, n = a + b, z = a | b;
	CHECK(BASE64ENC_BYTES(c ? a : b) == (e + 2) / 3 * 4 && BASE64ENC_BUFSIZE(c ? a : b) == (e + 2) / 3 * 4 + 1 && BASE64ENC_BYTES(a + b) == (n + 2) / 3 * 4 && BASE64ENC_BYTES(a | b) == (z + 2) / 3 * 4, "the length of the encoded text");
	CHECK(BASE64DEC_BYTES(c ? a : b) == e / 4 * 3 && BASE64DEC_BYTES(a + b) == n / 4 * 3 && BASE64DEC_BUFSIZE(a + b) == n / 4 * 3 + 1 && BASE64DEC_BYTES(a | b) == z / 4 * 3, "the length of the decoded text"); vp_done();
}
#endif
