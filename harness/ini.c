/* ini sections and values against their definition on a list of lines */
#include "vp.h"
#include "iniparser.h"
static char *ln[8]; static unsigned len[8], nl;
static stringptrlist *mk(void) {
	unsigned i, j; stringptrlist *l = stringptrlist_new(8); nl = vp_choose(NL + 1);
	for(i = 0; i < nl; i++) { len[i] = vp_choose(LL + 1);
		char *p = ln[i] = vp_block(len[i]); 
		for(j = 0; j < len[i]; j++) {
#ifdef ALPHA
			static const char al[] = ALPHA; unsigned char c = vp_u8(); int ok = 0; for(unsigned k = 0; k < sizeof al - 1; k++) ok |= c == (unsigned char) al[k]; vp_assume(ok); p[j] = c;
#else
			p[j] = vp_u8();
#endif
		}
		stringptrlist_add(l, p, len[i]); vp_readonly(p); }
	return l;
}
static int head(unsigned i, const char *n, unsigned k) { if(len[i] < k + 2) return 0; int m = ln[i][0] == '[' && ln[i][k + 1] == ']'; for(unsigned j = 0; j < k; j++) m &= ln[i][1 + j] == n[j]; return m; }
static int haskey(unsigned i, const char *n, unsigned k) { if(len[i] <= k) return 0; int m = ln[i][k] == '='; for(unsigned j = 0; j < k; j++) m &= ln[i][j] == n[j]; return m; }
void harness(void) {
	unsigned i, j; stringptrlist *l = mk();
	unsigned k = vp_choose(KL + 1); char *n = vp_block(k); vp_bytes(n, k); stringptr name = {n, k}; vp_readonly(n);
#if MODE == 0
	/* sections: the first (next) header of the name, up to the following header */
	ini_section s = {0, 0}; unsigned from = 0, rounds;
	for(rounds = 0; rounds < 2; rounds++) {
		if(rounds == 0) s = iniparser_get_section(l, &name); else s = iniparser_get_next_section(l, &name, &s);
		vp_obs(s.startline); vp_obs(s.linecount);
		for(i = from; i < nl; i++) if(head(i, n, k)) break;
		if(i >= nl) { CHECK(s.startline == 0 && s.linecount == 0, "no such section"); break; }
		for(j = i + 1; j < nl; j++) if(len[j] && ln[j][0] == '[') break;
		CHECK(s.startline == i + 1, "the section starts after its header"); CHECK(s.linecount == j - i - 1, "the section ends at the next header or the end"); from = j;
	}
	ini_section f = iniparser_file_as_section(l); CHECK(f.startline == 0 && f.linecount == nl, "the whole file as a section");
#elif MODE == 1
	/* values: the first line of the section with the key */
	ini_section s; s.startline = vp_choose(nl + 1); s.linecount = vp_choose(nl - s.startline + 1); stringptr r = {(char*)1, 77};
	for(i = s.startline; i < s.startline + s.linecount; i++) if(haskey(i, n, k)) break;
	iniparser_getvalue(l, &s, &name, &r); vp_obs(r.size);
	if(i == s.startline + s.linecount) CHECK(r.size == 0 && r.ptr == 0, "no such key in the section"); else CHECK(r.ptr == ln[i] + k + 1 && r.size == len[i] - k - 1, "the value is the rest of the first line with the key");
	unsigned at = s.startline + vp_choose(s.linecount + 2); ssize_t x = iniparser_getvalue_at(l, &s, &name, &r, at); vp_obs(x);
	for(i = at; i < s.startline + s.linecount; i++) if(haskey(i, n, k)) break;
	if(i >= s.startline + s.linecount) CHECK(x == -1 && r.size == 0 && r.ptr == 0, "no such key from that line on"); else CHECK(x == i && r.ptr == ln[i] + k + 1 && r.size == len[i] - k - 1, "the value and its line");
#else
	/* number of section headers */
	unsigned c = 0; for(i = 0; i < nl; i++) { unsigned m = len[i]; while(m && (ln[i][m-1] == ' ' || ln[i][m-1] == '\t')) m--; if(m >= 2 && ln[i][0] == '[' && ln[i][m-1] == ']') { vp_assume(m > 2); c++; } }
	size_t r = iniparser_count_sections(l); vp_obs(r); CHECK(r == c, "the number of section headers");
#endif
	stringptrlist_free(l); CHECK(vp_live == 0, "nothing else is allocated"); vp_done();
}
