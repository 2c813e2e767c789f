/* lines from standard input */
#include "vp.h"
#include <stdio.h>
#include "stringptr.h"
static char in[NMAX(15) + 1]; static unsigned n, pos; static char *bb; static int bs;
char *vp_fgets(char *b, int sz, FILE *f) {
	int i = 0; CHECK(b >= bb && sz > 0 && b + sz <= bb + bs, "the given buffer is used"); CHECK(f == stdin, "standard input");
	while(i < sz - 1 && pos < n) { char c = in[pos++]; b[i++] = c; if(c == '\n') break; }
	if(!i) return 0;
	b[i] = 0; return b;
}
void harness(void) {
	unsigned i, p = 0, calls; n = NLEN(L); for(i = 0; i < n; i++) { in[i] = vp_u8(); vp_assume(in[i] != 0); }
	
#ifdef BUFS
	static const int bl[] = { BUFS }; bs = bl[vp_choose(sizeof bl / sizeof *bl)]; /* newlines anywhere in a few places, other characters elsewhere */
	for(i = 0; i < n; i++) if(!(i % 61 == 5 || i + 2 == bs || i + 1 == bs || i + 1 == n)) vp_assume(in[i] != '\n');
#else
	bs = 2 + vp_choose(L);
#endif
	 bb = vp_block(bs); int chomp = vp_choose(2);
	for(calls = 0; calls < NMAX(L) + 1; calls++) {
		stringptr s = read_stdin_line(bb, bs, chomp); vp_obs(s.size);
		if(p >= n) { CHECK(s.ptr == 0 && s.size == 0, "nothing at the end of the input"); vp_done(); }
		unsigned e = p; while(e < n && e - p < bs - 1 && in[e] != '\n') e++;
		int nl = e < n && e - p < bs - 1; unsigned len = e - p + (nl && !chomp);
		CHECK(s.ptr == bb, "the line is in the buffer"); CHECK(s.size == len, "the line is complete, without its newline if wanted"); int ok = 1; for(i = 0; i < len; i++) ok &= bb[i] == in[p + i]; CHECK(ok && bb[len] == 0, "the line has its text"); p = e + nl;
	}
	vp_fail("more lines than characters");
}
