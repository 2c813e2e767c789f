/* Memory and misc. environment. Library calls to malloc & co. are routed to vp_malloc & co. both in the
   symbolic run (by the executor) and natively (by renaming symbols of the objects). This file is not renamed. */
#include "vp.h"
#include <stdio.h>
int vp_oom; unsigned vp_oom_at, vp_oom_len = 1, vp_nalloc, vp_nfail; long vp_live;
#ifdef VP_NATIVE
#include <unistd.h>
#define __vp_malloc malloc
#define __vp_free free
static size_t native_size(void *p);
#else
void *__vp_malloc(size_t); void __vp_free(void *); size_t __vp_objsize(void *);
#endif
static int fails(void) {
	vp_nalloc++;
	if(vp_oom == 1 && vp_choose(2)) { vp_nfail++; return 1; }
	if(vp_oom == 2 && vp_nalloc >= vp_oom_at && vp_nalloc - vp_oom_at < vp_oom_len) { vp_nfail++; return 1; }
	return 0;
}
#ifdef VP_NATIVE
struct ent { void *p; size_t n; };
static struct ent *tab; static size_t ntab, captab; /* open addressing, linear probing; removed entries keep n = -1 */
static int fillb = 0xA5;
static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15u % captab; }
static struct ent *lookup(void *p) { if(!captab) return 0; for(size_t i = slot(p); tab[i].p || tab[i].n; i = (i + 1) % captab) if(tab[i].p == p) return &tab[i]; return 0; }
static void *raw(size_t n) {
	void *p = malloc(n); size_t i;
	if(p) { memset(p, fillb, n);
		if(2 * ntab >= captab) { struct ent *o = tab; size_t c = captab; captab = captab * 2 + 1021; tab = calloc(captab, sizeof *tab); ntab = 0;
			for(i = 0; i < c; i++) if(o[i].p) { size_t k = slot(o[i].p); while(tab[k].p) k = (k + 1) % captab; tab[k] = o[i]; ntab++; } free(o); }
		for(i = slot(p); tab[i].p; i = (i + 1) % captab); if(!tab[i].n) ntab++; tab[i].p = p; tab[i].n = n; }
	return p;
}
static size_t native_size(void *p) { struct ent *e = lookup(p); if(e) return e->n; fprintf(stderr, "VP_CHECK_FAILED: realloc of a pointer that is not a live allocation\n"); _exit(1); }
static void rawfree(void *p) { struct ent *e = lookup(p); if(e) { e->p = 0; e->n = -1; } free(p); }
#define __vp_objsize native_size
#define RAW raw
#define RAWFREE rawfree
#else
#define RAW __vp_malloc
#define RAWFREE __vp_free
#endif
void *vp_block(size_t n) { return RAW(n); }
void *vp_malloc(size_t n) {
	void *p;
	if(n > (1u << 26) || fails()) { errno = ENOMEM; return 0; }
	p = RAW(n); vp_live++; return p;
}
void vp_free(void *p) { if(p) { RAWFREE(p); vp_live--; } }
void *vp_calloc(size_t a, size_t b) {
	void *p;
	if(b && a > ((size_t)-1) / b) { errno = ENOMEM; return 0; }
	p = vp_malloc(a * b); if(p) memset(p, 0, a * b); return p;
}
void *vp_realloc(void *p, size_t n) {
	void *q; size_t o;
	if(!p) return vp_malloc(n);
	o = __vp_objsize(p);
	if(!n) { vp_free(p); return 0; }
	q = vp_malloc(n); if(!q) return 0;
	memcpy(q, p, o < n ? o : n);
	RAWFREE(p); vp_live--;
	return q;
}
void *vp_reallocarray(void *p, size_t a, size_t b) {
	if(b && a > ((size_t)-1) / b) { errno = ENOMEM; return 0; }
	return vp_realloc(p, a * b);
}
char *vp_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vp_malloc(n); if(p) memcpy(p, s, n); return p; }
char *vp_strndup(const char *s, size_t m) { size_t n = 0; char *p; while(n < m && s[n]) n++; p = vp_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }

#ifdef VP_NATIVE
/* ---- replayer */
static uint64_t *nd; static size_t nnd, ind; static FILE *obsf;
int __asan_address_is_poisoned(void const volatile *); void *__asan_region_is_poisoned(void *, size_t);
static uint64_t next(void) { if(ind >= nnd) { fprintf(stderr, "VP_ND_EXHAUSTED\n"); _exit(78); } return nd[ind++]; }
uint8_t vp_u8(void) { return next(); } uint16_t vp_u16(void) { return next(); } uint32_t vp_u32(void) { return next(); } uint64_t vp_u64(void) { return next(); }
uint32_t vp_choose(uint32_t n) { uint64_t v = next(); if(v >= n) { fprintf(stderr, "VP_CHOOSE_RANGE\n"); _exit(78); } return v; }
uint64_t vp_split(uint64_t v) { return v; }
void vp_assume(int c) { if(!c) { fprintf(stderr, "VP_ASSUME_FALSE\n"); _exit(77); } }
void vp_check_(int c, const char *m) { if(!c) { fprintf(stderr, "VP_CHECK_FAILED: %s\n", m); fflush(stderr); _exit(1); } }
void vp_fail(const char *m) { vp_check_(0, m); }
void vp_done(void) { fprintf(stderr, "VP_DONE\n"); if(obsf) fclose(obsf); _exit(0); }
void vp_obs(uint64_t v) { if(obsf) fprintf(obsf, "%llu\n", (unsigned long long)v); }
int vp_valid(const void *p, size_t n) { return p && !__asan_region_is_poisoned((void*)p, n); }
void vp_readonly(const void *p) { (void)p; }
void harness(void);
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "r"); unsigned long long v; size_t cap = 0;
	while(f && fscanf(f, "%llu", &v) == 1) { if(nnd == cap) nd = realloc(nd, (cap = cap * 2 + 256) * sizeof *nd); nd[nnd++] = v; }
	if(f) fclose(f);
	if(argc > 2) fillb = strtol(argv[2], 0, 0);
	if(argc > 3) obsf = fopen(argv[3], "w");
	harness();
	fprintf(stderr, "VP_RETURNED\n"); return 3;
}
#endif
