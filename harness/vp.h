/* Interface between the harnesses and the symbolic executor (or, when compiled natively, the replayer). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#ifdef __cplusplus
#error C only
#endif
/* symbolic inputs: each call yields a fresh unconstrained value (natively: the next value of the replay file) */
uint8_t vp_u8(void); uint16_t vp_u16(void); uint32_t vp_u32(void); uint64_t vp_u64(void);
uint32_t vp_choose(uint32_t n);          /* one of 0..n-1, case-split: one path per value */
uint64_t vp_split(uint64_t v);            /* case-split on every feasible value of v */
void vp_assume(int c);
void vp_check_(int c, const char *msg);
void vp_fail(const char *msg);
void vp_done(void) __attribute__((noreturn)); /* end of a completed path (reachability witness) */
void vp_obs(uint64_t v);                 /* observed value, compared between encoding and native replay */
int vp_valid(const void *p, size_t n);   /* p..p+n lies in one live object */
void vp_readonly(const void *p);         /* the object p points to must not be written from now on (symbolic run only) */
#define CHECK(c, msg) vp_check_(!!(c), msg)

/* environment model (vp_env.c) */
extern int vp_oom;        /* 0: allocations succeed; 1: each may fail; 2: allocations number vp_oom_at..vp_oom_at+vp_oom_len-1 fail */
extern unsigned vp_oom_at, vp_oom_len, vp_nalloc, vp_nfail;
extern long vp_live;      /* live allocations made by code under test */
static inline void vp_bytes(void *p, size_t n) { unsigned char *q = p; for(size_t i = 0; i < n; i++) q[i] = vp_u8(); }
/* a heap block of exactly n bytes, not counted as a live allocation, never failing */
void *vp_block(size_t n);
/* exact-size heap copy of a C string */
static inline char *vp_cstr(const char *s) { size_t n = strlen(s) + 1; char *p = vp_block(n); memcpy(p, s, n); return p; }
/* a length: 0..max, or one of the given list */
#ifdef LENS
static const unsigned vp_lens[] = { LENS };
#define NLEN(max) (vp_lens[vp_choose(sizeof vp_lens / sizeof *vp_lens)])
#define NMAX(max) LMAX
#else
#define NLEN(max) vp_choose((max) + 1)
#define NMAX(max) (max)
#endif
/* symbolic NUL-terminated string with at most max characters (case-split on its length), exact-size block */
static inline char *vp_str(unsigned max) { unsigned n = vp_choose(max + 1); char *p = vp_block(n + 1); for(unsigned i = 0; i < n; i++) { p[i] = vp_u8(); vp_assume(p[i] != 0); } p[n] = 0; return p; }
/* the same with a restricted alphabet */
static inline char *vp_str_in(unsigned max, const char *alpha) { unsigned n = vp_choose(max + 1), k = strlen(alpha); char *p = vp_block(n + 1);
	for(unsigned i = 0; i < n; i++) { unsigned char c = vp_u8(); int ok = 0; for(unsigned j = 0; j < k; j++) ok |= (c == (unsigned char)alpha[j]); vp_assume(ok); p[i] = c; } p[n] = 0; return p; }
static inline char *vp_strn(unsigned n) { char *p = vp_block(n + 1); for(unsigned i = 0; i < n; i++) { p[i] = vp_u8(); vp_assume(p[i] != 0); } p[n] = 0; return p; }
#endif
