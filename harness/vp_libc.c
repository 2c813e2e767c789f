/* C-level models of the C library functions used by (or likely to be used by) the code under test;
   only for the symbolic run. Natively the real C library is used. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
void *__vp_malloc(size_t);
static int errno_v; int *vp___errno_location(void) { return &errno_v; }
size_t vp_strlen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
size_t vp_strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
int vp_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; int r = 0; for(size_t i = 0; i < n; i++) { int d = x[i] - y[i]; r = r ? r : d; } return r; }
int vp_bcmp(const void *a, const void *b, size_t n) { return vp_memcmp(a, b, n); }
void *vp_memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for(size_t i = 0; i < n; i++) if(p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void *vp_memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while(n--) if(p[n] == (unsigned char)c) return (void*)(p + n); return 0; }
void *vp_rawmemchr(const void *s, int c) { const unsigned char *p = s; while(*p != (unsigned char)c) p++; return (void*)p; }
char *vp_strchr(const char *s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return 0; } }
char *vp_strchrnul(const char *s, int c) { for(;; s++) if(*s == (char)c || !*s) return (char*)s; }
char *vp_strrchr(const char *s, int c) { const char *r = 0; for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char *vp_index(const char *s, int c) { return vp_strchr(s, c); }
char *vp_rindex(const char *s, int c) { return vp_strrchr(s, c); }
int vp_strcmp(const char *a, const char *b) { while(*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int vp_strncmp(const char *a, const char *b, size_t n) { while(n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int uc(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int vp_tolower(int c) { return lc(c); }
int vp_toupper(int c) { return uc(c); }
int vp_strcasecmp(const char *a, const char *b) { while(*a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++; return lc((unsigned char)*a) - lc((unsigned char)*b); }
int vp_strncasecmp(const char *a, const char *b, size_t n) { while(n && *a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++, n--; return n ? lc((unsigned char)*a) - lc((unsigned char)*b) : 0; }
char *vp_strcpy(char *d, const char *s) { char *r = d; while((*d++ = *s++)); return r; }
char *vp_stpcpy(char *d, const char *s) { while((*d = *s)) d++, s++; return d; }
char *vp_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char *vp_strcat(char *d, const char *s) { vp_strcpy(d + vp_strlen(d), s); return d; }
char *vp_strncat(char *d, const char *s, size_t n) { char *e = d + vp_strlen(d); while(n-- && *s) *e++ = *s++; *e = 0; return d; }
void *vp_mempcpy(void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; for(size_t i = 0; i < n; i++) x[i] = y[i]; return x + n; }
void *vp_memccpy(void *d, const void *s, int c, size_t n) { unsigned char *x = d; const unsigned char *y = s; for(size_t i = 0; i < n; i++) { x[i] = y[i]; if(y[i] == (unsigned char)c) return x + i + 1; } return 0; }
void *vp_memmem(const void *h, size_t hl, const void *n, size_t nl) { const unsigned char *p = h; if(nl > hl) return 0; for(size_t i = 0; i + nl <= hl; i++) if(!vp_memcmp(p + i, n, nl)) return (void*)(p + i); return 0; }
char *vp_strstr(const char *h, const char *n) { return vp_memmem(h, vp_strlen(h), n, vp_strlen(n)); }
size_t vp_strspn(const char *s, const char *a) { size_t n = 0; while(s[n] && vp_strchr(a, s[n])) n++; return n; }
size_t vp_strcspn(const char *s, const char *a) { size_t n = 0; while(s[n] && !vp_strchr(a, s[n])) n++; return n; }
char *vp_strpbrk(const char *s, const char *a) { s += vp_strcspn(s, a); return *s ? (char*)s : 0; }
int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
int vp_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int vp_islower(int c) { return c >= 'a' && c <= 'z'; }
int vp_isalpha(int c) { return vp_isupper(c) | vp_islower(c); }
int vp_isalnum(int c) { return vp_isalpha(c) | vp_isdigit(c); }
int vp_isspace(int c) { return c == ' ' | (c >= 9 & c <= 13); }
int vp_isxdigit(int c) { return vp_isdigit(c) | ((c|32) >= 'a' & (c|32) <= 'f'); }
int vp_isprint(int c) { return c >= 32 & c < 127; }
static unsigned short ctb[384]; static int ctl[384], ctu[384]; static int ctinit;
static const unsigned short *ctbp; static const int *ctlp, *ctup;
static void cti(void) {
	if(ctinit) return; ctinit = 1;
	for(int i = -128; i < 256; i++) { int c = i; unsigned short v = 0;
		ctl[i+128] = i; ctu[i+128] = i;
		if(c >= 0 && c < 128) {
			if(c >= 'A' && c <= 'Z') v |= 1 << 8, ctl[i+128] = c + 32; if(c >= 'a' && c <= 'z') v |= 1 << 9, ctu[i+128] = c - 32;
			if(v) v |= 1 << 10; if(c >= '0' && c <= '9') v |= 1 << 11; if((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) v |= 1 << 12;
			if(c == ' ' || (c >= 9 && c <= 13)) v |= 1 << 13; if(c >= 32 && c < 127) v |= 1 << 14; if(c > 32 && c < 127) v |= 1 << 15;
			if(c == ' ' || c == 9) v |= 1; if(c < 32 || c == 127) v |= 2; if(c > 32 && c < 127 && !(v & (1<<10)) && !(v & (1<<11))) v |= 4; if(v & ((1<<10)|(1<<11))) v |= 8; }
		ctb[i+128] = v; }
	ctbp = ctb + 128; ctlp = ctl + 128; ctup = ctu + 128;
}
const unsigned short **vp___ctype_b_loc(void) { cti(); return &ctbp; }
const int **vp___ctype_tolower_loc(void) { cti(); return &ctlp; }
const int **vp___ctype_toupper_loc(void) { cti(); return &ctup; }
int vp_abs(int x) { return x < 0 ? -x : x; }
long vp_labs(long x) { return x < 0 ? -x : x; }
int vp_atoi(const char *s) { int n = 0, neg = 0; while(vp_isspace(*s)) s++; if(*s == '-') neg = 1, s++; else if(*s == '+') s++; while(*s >= '0' && *s <= '9') n = 10 * n - (*s++ - '0'); return neg ? n : -n; }
static void swapb(char *a, char *b, size_t n) { while(n--) { char t = *a; *a++ = *b; *b++ = t; } }
void vp_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	char *p = base; for(size_t i = 1; i < n; i++) for(size_t j = i; j && cmp(p + (j-1)*sz, p + j*sz) > 0; j--) swapb(p + (j-1)*sz, p + j*sz, sz); }
void vp_qsort_r(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *, void *), void *ctx) {
	char *p = base; for(size_t i = 1; i < n; i++) for(size_t j = i; j && cmp(p + (j-1)*sz, p + j*sz, ctx) > 0; j--) swapb(p + (j-1)*sz, p + j*sz, sz); }
void *vp_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	const char *p = base; while(n) { const char *m = p + (n/2)*sz; int c = cmp(key, m); if(!c) return (void*)m; if(c < 0) n /= 2; else { p = m + sz; n -= n/2 + 1; } } return 0; }
/* ---- not used by the library today; there so that a rewrite in terms of them can be judged */
int vp_isblank(int c) { return c == ' ' | c == 9; }
int vp_iscntrl(int c) { return (c >= 0 & c < 32) | c == 127; }
int vp_isgraph(int c) { return c > 32 & c < 127; }
int vp_ispunct(int c) { return vp_isgraph(c) & !vp_isalnum(c); }
int vp_isascii(int c) { return (c & ~127) == 0; }
int vp_toascii(int c) { return c & 127; }
long long vp_llabs(long long x) { return x < 0 ? -x : x; }
typedef struct { int quot, rem; } div_t_; typedef struct { long quot, rem; } ldiv_t_;
div_t_ vp_div(int a, int b) { div_t_ r = { a / b, a % b }; return r; }
ldiv_t_ vp_ldiv(long a, long b) { ldiv_t_ r = { a / b, a % b }; return r; }
ldiv_t_ vp_lldiv(long a, long b) { ldiv_t_ r = { a / b, a % b }; return r; }
int vp_ffs(int x) { for(int i = 0; i < 32; i++) if((unsigned)x >> i & 1) return i + 1; return 0; }
int vp_ffsl(long x) { for(int i = 0; i < 64; i++) if((unsigned long)x >> i & 1) return i + 1; return 0; }
int vp_ffsll(long x) { return vp_ffsl(x); }
void vp_bzero(void *p, size_t n) { __builtin_memset(p, 0, n); }
void vp_explicit_bzero(void *p, size_t n) { __builtin_memset(p, 0, n); }
void vp_bcopy(const void *s, void *d, size_t n) { __builtin_memmove(d, s, n); }
void vp_swab(const void *s, void *d, long n) { const char *a = s; char *b = d; for(; n > 1; n -= 2, a += 2, b += 2) { char x = a[0], y = a[1]; b[0] = y; b[1] = x; } }
char *vp_stpncpy(char *d, const char *s, size_t n) { size_t i = 0, e; for(; i < n && s[i]; i++) d[i] = s[i]; e = i; for(; i < n; i++) d[i] = 0; return d + e; }
size_t vp_strlcpy(char *d, const char *s, size_t n) { size_t l = vp_strlen(s), k = l < n ? l : n - 1; if(n) { __builtin_memcpy(d, s, k); d[k] = 0; } return l; }
size_t vp_strlcat(char *d, const char *s, size_t n) { size_t l = vp_strnlen(d, n); return l == n ? n + vp_strlen(s) : l + vp_strlcpy(d + l, s, n - l); }
char *vp_strcasestr(const char *h, const char *n) { size_t l = vp_strlen(n); for(;; h++) { if(!vp_strncasecmp(h, n, l)) return (char*)h; if(!*h) return 0; } }
char *vp_strtok_r(char *s, const char *d, char **p) { if(!s) s = *p; s += vp_strspn(s, d); if(!*s) { *p = s; return 0; } char *e = s + vp_strcspn(s, d); if(*e) *e++ = 0; *p = e; return s; }
static char *tokp; char *vp_strtok(char *s, const char *d) { return vp_strtok_r(s, d, &tokp); }
char *vp_strsep(char **p, const char *d) { char *s = *p, *e; if(!s) return 0; e = s + vp_strcspn(s, d); if(*e) *e++ = 0, *p = e; else *p = 0; return s; }
int vp_strcoll(const char *a, const char *b) { return vp_strcmp(a, b); }
char *vp_basename(const char *s) { char *r = vp_strrchr(s, '/'); return r ? r + 1 : (char*)s; }
unsigned vp_htonl(unsigned x) { return __builtin_bswap32(x); } unsigned vp_ntohl(unsigned x) { return __builtin_bswap32(x); }
unsigned short vp_htons(unsigned short x) { return __builtin_bswap16(x); } unsigned short vp_ntohs(unsigned short x) { return __builtin_bswap16(x); }
void vp_abort_(void) __asm__("abort") __attribute__((noreturn));
void vp___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { vp_abort_(); }
static int digv(int c) { return vp_isdigit(c) ? c - '0' : vp_isalpha(c) ? (c | 32) - 'a' + 10 : 99; }
static unsigned long sto(const char *s, char **end, int base, unsigned long lim, int sgn) {
	const char *p = s; int neg = 0, any = 0, ovf = 0; unsigned long v = 0;
	while(vp_isspace((unsigned char)*p)) p++;
	if(*p == '-') neg = 1, p++; else if(*p == '+') p++;
	if((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digv(p[2]) < 16) p += 2, base = 16; else if(base == 0) base = *p == '0' ? 8 : 10;
	if(sgn && neg) lim++;
	for(; digv((unsigned char)*p) < base; p++) { unsigned d = digv((unsigned char)*p); any = 1; if(ovf || v > (lim - d) / base) ovf = 1; else v = v * base + d; }
	if(end) *end = (char*)(any ? p : s);
	if(ovf) { errno_v = 34; return sgn && neg ? -lim : lim; }
	return neg ? -v : v;
}
#define LMAX (~0ul >> 1)
long vp_strtol(const char *s, char **e, int b) { return sto(s, e, b, LMAX, 1); } long vp_strtoll(const char *s, char **e, int b) { return sto(s, e, b, LMAX, 1); } long vp_strtoimax(const char *s, char **e, int b) { return sto(s, e, b, LMAX, 1); }
unsigned long vp_strtoul(const char *s, char **e, int b) { return sto(s, e, b, ~0ul, 0); } unsigned long vp_strtoull(const char *s, char **e, int b) { return sto(s, e, b, ~0ul, 0); } unsigned long vp_strtoumax(const char *s, char **e, int b) { return sto(s, e, b, ~0ul, 0); }
long vp___isoc23_strtol(const char *s, char **e, int b) { return sto(s, e, b, LMAX, 1); } long vp___isoc23_strtoll(const char *s, char **e, int b) { return sto(s, e, b, LMAX, 1); }
unsigned long vp___isoc23_strtoul(const char *s, char **e, int b) { return sto(s, e, b, ~0ul, 0); } unsigned long vp___isoc23_strtoull(const char *s, char **e, int b) { return sto(s, e, b, ~0ul, 0); }
long vp_atol(const char *s) { return sto(s, 0, 10, LMAX, 1); } long vp_atoll(const char *s) { return sto(s, 0, 10, LMAX, 1); }
/* printf: d i u x X o c s p %, flags - 0 + space #, width, precision, hh h l ll z j t */
static void pch(char *d, size_t n, size_t *k, int c) { if(*k + 1 < n) d[*k] = c; ++*k; }
int vp_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
	size_t k = 0;
	for(; *f; f++) {
		if(*f != '%') { pch(d, n, &k, *f); continue; }
		int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, lng = 0; long w = 0, pr = -1; f++;
		for(;; f++) { if(*f == '-') left = 1; else if(*f == '0') zero = 1; else if(*f == '+') plus = 1; else if(*f == ' ') sp = 1; else if(*f == '#') alt = 1; else break; }
		if(*f == '*') { w = va_arg(ap, int); if(w < 0) left = 1, w = -w; f++; } else while(vp_isdigit(*f)) w = w * 10 + (*f++ - '0');
		if(*f == '.') { f++; pr = 0; if(*f == '*') { pr = va_arg(ap, int); if(pr < 0) pr = -1; f++; } else while(vp_isdigit(*f)) pr = pr * 10 + (*f++ - '0'); }
		for(;; f++) { if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if(*f == 'h') lng--; else break; }
		char buf[72]; const char *s = buf, *pre = ""; size_t len = 0; long zs = 0;
		switch(*f) {
		case '%': pch(d, n, &k, '%'); continue;
		case 'c': buf[0] = va_arg(ap, int); len = 1; zero = 0; break;
		case 's': s = va_arg(ap, const char *); if(!s) s = "(null)"; len = pr >= 0 ? vp_strnlen(s, pr) : vp_strlen(s); zero = 0; break;
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			unsigned long v; unsigned b = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; int neg = 0; char *e = buf + 72;
			if(*f == 'p') { v = (unsigned long)va_arg(ap, void *); alt = 1; }
			else if(*f == 'd' || *f == 'i') { long x = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if(lng == -1) x = (short)x; if(lng == -2) x = (signed char)x; neg = x < 0; v = neg ? -(unsigned long)x : x; }
			else { v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if(lng == -1) v = (unsigned short)v; if(lng == -2) v = (unsigned char)v; }
			if((*f == 'd' || *f == 'i')) pre = neg ? "-" : plus ? "+" : sp ? " " : ""; else if(alt && b == 16 && v) pre = *f == 'X' ? "0X" : "0x"; else if(alt && b == 8) vp_abort_();
			if(v >> 32) while(v) { unsigned g = v % b; *--e = g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10; v /= b; }
			else { unsigned u = v; while(u) { unsigned g = u % b; *--e = g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10; u /= b; } }
			len = buf + 72 - e; s = e; if(pr >= 0) zero = 0; else pr = 1; if(pr > (long)len) zs = pr - len; break; }
		default: vp_abort_();
		}
		long pl = vp_strlen(pre), tot = pl + zs + len, pad = w > tot ? w - tot : 0;
		if(zero && !left) zs += pad, pad = 0;
		if(!left) for(long i = 0; i < pad; i++) pch(d, n, &k, ' ');
		for(long i = 0; i < pl; i++) pch(d, n, &k, pre[i]); for(long i = 0; i < zs; i++) pch(d, n, &k, '0'); for(size_t i = 0; i < len; i++) pch(d, n, &k, s[i]);
		if(left) for(long i = 0; i < pad; i++) pch(d, n, &k, ' ');
	}
	if(n) d[k < n ? k : n - 1] = 0; return k;
}
int vp_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int vp_vsprintf(char *d, const char *f, va_list ap) { return vp_vsnprintf(d, ~0ul >> 1, f, ap); }
int vp_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_vsprintf(d, f, ap); va_end(ap); return r; }
