/* C10: a guarded block ends exactly at an inaccessible page, is fully accessible, and freeing it unmaps exactly what was mapped. */
#include "vp.h"
#ifndef PAGE_SIZE
#define PAGE_SIZE 4096
#endif
#include "guard_alloc.c"
static uint64_t base, len, maps; static uint64_t pbase, plen; static int pprot, nprot, prot0; static int mmap_fail, mprot_fail;
static uint64_t unb, unl; static int nun;
void *vp_mmap(void *a, size_t l, int prot, int flags, int fd, long off) {
	maps++; if(mmap_fail || l == 0 || l > (1ull << 46)) { errno = ENOMEM; return (void*)-1; }
	len = (l + PAGE_SIZE - 1) / PAGE_SIZE * PAGE_SIZE; prot0 = prot; CHECK((flags & 0x20) && (flags & 2), "anonymous private mapping"); return (void*)base;
}
int vp_mprotect(void *a, size_t l, int prot) { if(mprot_fail) { errno = ENOMEM; return -1; } pbase = (uint64_t)a; plen = l; pprot = prot; nprot++; return 0; }
int vp_munmap(void *a, size_t l) { unb = (uint64_t)a; unl = (l + PAGE_SIZE - 1) / PAGE_SIZE * PAGE_SIZE; nun++; return 0; }
void harness(void) {
	size_t n = vp_u64(); base = vp_u64(); vp_assume(base % PAGE_SIZE == 0 && base >= 0x10000 && base < (1ull << 46));
	mmap_fail = vp_choose(2); mprot_fail = vp_choose(2);
	uint64_t p = (uint64_t)guard_alloc(n);
	if(!p) {
		CHECK(mmap_fail || mprot_fail || n > (1ull << 45), "allocation fails only when the system cannot map the memory");
		if(len) CHECK(nun == 1 && unb == base && unl == len, "a failed allocation unmaps everything it mapped"); else CHECK(nun == 0, "nothing to unmap");
		vp_done();
	}
	CHECK(!mmap_fail && !mprot_fail, "failures of the system calls are reported");
	CHECK(nprot == 1 && pprot == PROT_NONE && plen >= PAGE_SIZE, "a guard page is set up");
	CHECK(prot0 == (PROT_READ|PROT_WRITE), "the block is readable and writable");
	CHECK(p >= base && n <= len && p - base <= len - n, "the block lies inside the mapping");
	CHECK(p + n == pbase, "the block ends exactly where the guard page begins");
	CHECK(pbase >= base && pbase - base <= len && plen <= len - (pbase - base), "the guard page is part of the mapping");
	CHECK(nun == 0, "nothing unmapped yet");
	guard_free((void*)p, n);
	CHECK(nun == 1 && unb == base && unl == len, "freeing unmaps exactly the memory that was mapped");
	vp_done();
}
