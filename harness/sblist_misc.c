/* C01: sblist_new_from_data, free_values, sort */
#include "vp.h"
#include "sblist.h"
static int cmp8(const void *a, const void *b) { return *(const unsigned char*)a - *(const unsigned char*)b; }
void harness(void) {
#if MODE == 0
	/* a list over existing data: datalen need not be a multiple of the item size */
	size_t datalen = vp_choose(3 * SZ + SZ - 1 + 1), cnt = datalen / SZ;
	unsigned char *data = malloc(datalen), copy[4 * SZ]; vp_bytes(data, datalen); memcpy(copy, data, datalen);
	sblist *l = sblist_new_from_data(SZ, data, datalen);
	CHECK(l && sblist_getsize(l) == cnt, "list over existing data has datalen/itemsize items");
	if(vp_choose(2)) { sblist_set_blockitems(l, 1 + vp_choose(2)); }
	unsigned add = vp_choose(4);
	unsigned char it[3][SZ];
	for(unsigned k = 0; k < add; k++) { vp_bytes(it[k], SZ); CHECK(sblist_add(l, it[k]) == 1, "add to a list over existing data succeeds"); }
	CHECK(sblist_getsize(l) == cnt + add, "size after adding");
	for(size_t i = 0; i < cnt + add; i++) { unsigned char *p = sblist_get(l, i); CHECK(p && vp_valid(p, SZ), "item lies in the list's buffer");
		for(unsigned j = 0; j < SZ; j++) CHECK(p[j] == (i < cnt ? copy[i * SZ + j] : it[i - cnt][j]), "content of list over existing data"); }
	CHECK(sblist_get(l, cnt + add) == 0, "no item past the end");
	sblist_free(l); CHECK(vp_live == 0, "freeing the list releases all memory");
#elif MODE == 1
	/* list of pointers: free_values frees every stored pointer, once */
	sblist l; sblist_init(&l, sizeof(void*), 1 + vp_choose(3));
	unsigned n = vp_choose(5);
	for(unsigned i = 0; i < n; i++) { char *p = malloc(1 + i); CHECK(sblist_add(&l, &p) == 1, "add"); }
	long before = vp_live;
	sblist_free_values(&l);
	CHECK(vp_live == before - (long)n, "free_values frees each stored pointer once");
	sblist_free_items(&l); CHECK(vp_live == 0, "no memory left");
#else
	sblist l; sblist_init(&l, 2, 2); unsigned n = vp_choose(NS + 1); unsigned char v[NS + 1][2];
	for(unsigned i = 0; i < n; i++) { v[i][0] = vp_u8(); v[i][1] = i; sblist_add(&l, v[i]); }
	sblist_sort(&l, cmp8);
	CHECK(sblist_getsize(&l) == n, "sort keeps the size");
	unsigned seen = 0;
	for(unsigned i = 0; i < n; i++) { unsigned char *p = sblist_get(&l, i); unsigned tag = vp_split(p[1]); CHECK(tag < n && !(seen >> tag & 1), "sort permutes"); seen |= 1u << tag; CHECK(p[0] == v[tag][0], "sort keeps items intact");
		if(i) { unsigned char *q = sblist_get(&l, i - 1); CHECK(q[0] <= p[0], "sort orders items"); } }
	sblist_free_items(&l);
#endif
	vp_done();
}
