/* longer ini files: scripted lines with sections and keys that share prefixes, a few arbitrary characters */
#include "vp.h"
#include "long.h"
#include "iniparser.h"
static char *ln[PEAK]; static unsigned len[PEAK], nl = PEAK;
static int head(unsigned i, const char *n, unsigned k) { if(len[i] < k + 2) return 0; int m = ln[i][0] == '[' && ln[i][k + 1] == ']'; for(unsigned j = 0; j < k; j++) m &= ln[i][1 + j] == n[j]; return m; }
static int haskey(unsigned i, const char *n, unsigned k) { if(len[i] <= k) return 0; int m = ln[i][k] == '='; for(unsigned j = 0; j < k; j++) m &= ln[i][j] == n[j]; return m; }
static const char *secs[] = { "main", "main2", "mai", "x", "[main", "main]", "a section" }, *keys[] = { "key", "key2", "ke", "k", "Key", "long key name", "key " };
void harness(void) {
	unsigned i, j, t; seed(); stringptrlist *l = stringptrlist_new(5);
	for(i = 0; i < nl; i++) {
		char b[64]; unsigned n = 0, k = rnd(10); const char *s;
		if(k < 2) { b[n++] = '['; for(s = secs[rnd(7)]; *s; s++) b[n++] = *s; b[n++] = ']'; if(rnd(4) == 0) b[n++] = ' '; }
		else if(k < 8) { for(s = keys[rnd(7)]; *s; s++) b[n++] = *s; if(rnd(9)) b[n++] = '='; for(j = rnd(12); j; j--) b[n++] = "a=b[]"[rnd(5)]; }
		else if(k == 8) { b[n++] = ';'; for(j = rnd(9); j; j--) b[n++] = 'c'; }
		ln[i] = vp_block(n); memcpy(ln[i], b, n); len[i] = n; if(n && rnd(PEAK / NSYM) == 0) ln[i][rnd(2) ? rnd(n) : 0] = vp_u8();
		stringptrlist_add(l, ln[i], n); vp_readonly(ln[i]);
	}
	for(t = 0; t < STEPS; t++) {
		const char *q = secs[rnd(7)], *w = keys[rnd(7)]; unsigned k = strlen(q), kk = strlen(w); char *n = vp_block(k), *m = vp_block(kk); memcpy(n, q, k); memcpy(m, w, kk); stringptr name = {n, k}, key = {m, kk}, r; ini_section s = {0, 0}; unsigned from = 0, rounds;
		for(rounds = 0;; rounds++) {
			s = rounds ? iniparser_get_next_section(l, &name, &s) : iniparser_get_section(l, &name); vp_obs(s.startline); vp_obs(s.linecount);
			for(i = from; i < nl; i++) if(head(i, n, k)) break;
			if(i >= nl) { CHECK(s.startline == 0 && s.linecount == 0, "no such section"); break; }
			for(j = i + 1; j < nl; j++) if(len[j] && ln[j][0] == '[') break;
			CHECK(s.startline == i + 1 && s.linecount == j - i - 1, "the section reaches from its header to the next one or the end"); from = j;
			unsigned a = i + 1, e = j; for(i = a; i < e; i++) if(haskey(i, m, kk)) break;
			r = (stringptr){(char*)1, 77}; iniparser_getvalue(l, &s, &key, &r); if(i == e) CHECK(!r.size && !r.ptr, "no such key in the section"); else CHECK(r.ptr == ln[i] + kk + 1 && r.size == len[i] - kk - 1, "the value is the rest of the first line with the key");
			unsigned at = a + rnd(e - a + 1); for(i = at; i < e; i++) if(haskey(i, m, kk)) break; ssize_t x = iniparser_getvalue_at(l, &s, &key, &r, at);
			if(i >= e) CHECK(x == -1 && !r.size && !r.ptr, "no such key from that line on"); else CHECK(x == i && r.ptr == ln[i] + kk + 1 && r.size == len[i] - kk - 1, "the value and its line");
		}
	}
	unsigned c = 0; for(i = 0; i < nl; i++) { unsigned m = len[i]; while(m && (ln[i][m-1] == ' ' || ln[i][m-1] == '\t')) m--; if(m >= 2 && ln[i][0] == '[' && ln[i][m-1] == ']') { vp_assume(m > 2); c++; } }
	CHECK(iniparser_count_sections(l) == c, "the number of section headers");
	stringptrlist_free(l); CHECK(vp_live == 0, "nothing else is allocated"); vp_done();
}
