/* line reader on longer files: scripted line lengths, any mix of reading and measuring, any buffers */
#include <stdarg.h>
#include "vp.h"
#include "long.h"
#include "fileparser.h"
#include "fsmodel.h"
static unsigned n; static unsigned eol(unsigned p) { while(p < n && fs_data[p] != '\n') p++; return p; }
void harness(void) {
	unsigned i, pos = 0, lines = 0; seed(); fileparser *f = vp_block(sizeof *f); memset(f, 0xee, sizeof *f); fs_name = "file"; fs_data = vp_block(PEAK * 2500 + 8);
	for(i = 0; i < PEAK; i++) { unsigned k, m = BIG ? 1020 + rnd(8) + 1024 * rnd(2) : rnd(5) ? rnd(40) : rnd(500); for(k = 0; k < m; k++) fs_data[n++] = ' ' + rnd(90); fs_data[n++] = '\n'; }
	if(vp_choose(2)) n--; fs_len = n; for(i = 0; i < 3; i++) fs_data[rnd(n)] = vp_u8(); vp_readonly(fs_data);
	CHECK(fileparser_open(f, "file") == 0 && fs_open, "the file is opened");
	while(pos < n) {
		CHECK(++lines < PEAK + 5, "no more lines than in the file"); unsigned e = eol(pos), how = rnd(3), bs = sizeof f->buf; char *ub = f->buf; int r;
		unsigned len = vp_split(e - pos); e = pos + len; vp_obs(len);
		if(rnd(2)) { ssize_t g = fileparser_getnextlinelength(f); CHECK(g == len, "the length of the next line"); if(rnd(3) == 0) CHECK(fileparser_getnextlinelength(f) == len, "measuring does not consume"); }
		if(how) { bs = rnd(3) ? len + 1 + rnd(3) * rnd(100) : 1 + rnd(len + 1); ub = vp_block(bs); }
		r = how ? fileparser_readline_userbuf(f, ub, bs) : fileparser_readline(f);
		if(len >= bs) { CHECK(r == -3, "a line that does not fit is reported"); int ok = 1; for(i = 0; i < bs; i++) ok &= (unsigned char)ub[i] == fs_data[pos + i]; CHECK(ok, "and its beginning delivered"); ub = vp_block(len + 1); r = fileparser_readline_userbuf(f, ub, len + 1); }
		CHECK(r == 0 && f->len == len && ub[len] == 0, "a line is read"); int ok = 1; for(i = 0; i < len; i++) ok &= (unsigned char)ub[i] == fs_data[pos + i]; CHECK(ok, "the line has its contents"); pos = e + 1;
	}
	CHECK(fileparser_getnextlinelength(f) == -1 && fileparser_readline(f) == -2 && fileparser_readline_userbuf(f, vp_block(9), 9) == -2, "the end of the file is reported");
	CHECK(fileparser_close(f) == 0 && !fs_open, "the file is closed"); vp_done();
}
