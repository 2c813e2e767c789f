/* line reader: lines, their lengths, positions and errors */
#include <stdarg.h>
#include "vp.h"
#include "fileparser.h"
#include "fsmodel.h"
#ifdef LONG
enum { STEP = 31 };
#else
enum { STEP = 1 };
#endif
static unsigned n; static unsigned eol(unsigned p) { while(p < n && fs_data[p] != '\n') p++; return p; }
void harness(void) {
	unsigned i, pos = 0, steps = 0; fileparser *f = vp_block(sizeof *f); memset(f, 0xee, sizeof *f);
	fs_name = "file";
#ifdef LONG
	/* lines around the size of the internal buffer */
	static const unsigned lens[] = {0,1023,1024,1025,2048};
	unsigned a = vp_choose(5), b = vp_choose(6); n = lens[a]; fs_data = vp_block(2 * 2050); memset(fs_data, 'a', 2 * 2050);
	if(b) { fs_data[n++] = '\n'; n += lens[b - 1]; if(vp_choose(2)) fs_data[n++] = '\n'; }
	if(n) { unsigned char x = vp_u8(); if(x != '\n' && fs_data[n-1] != '\n') fs_data[n-1] = x; }
#else
	n = vp_choose(L + 1); fs_data = vp_block(n); vp_bytes(fs_data, n);
#endif
	fs_len = n; fs_exists = STEP > 1 || vp_choose(4) != 0;
	CHECK(fileparser_open(0, "file") && fileparser_open(f, 0) && !fs_nopen, "missing arguments are refused");
	int r = fileparser_open(f, "file");
	if(!fs_exists) { CHECK(r != 0 && !fs_open, "opening a missing file fails"); vp_done(); }
	CHECK(r == 0 && fs_open, "the file is opened"); vp_readonly(fs_data);
#ifdef HIGH
	/* the reader stands far behind the beginning of a large file */
	static const long base[] = {0x7ffffffe, 0xfffffffe, 0xfffffc00, 0x3fffffffffff}; fs_base = base[vp_choose(4)]; f->fpos = fs_base;
#endif
#if ERR
	/* failing reads and seeks are reported */
	for(;;) {
		unsigned e = eol(pos); fs_nerr = 0; fs_err = 2 | 8;
		if(vp_choose(2)) { ssize_t g = fileparser_getnextlinelength(f); fs_err = 0; if(fs_nerr) { CHECK(g == -1, "an error is reported"); break; } CHECK(g == (pos >= n ? -1 : (ssize_t)(e - pos)), "the length of the next line"); fs_err = 2 | 8; }
		char *ub = vp_block(BUF); r = fileparser_readline_userbuf(f, ub, BUF); fs_err = 0;
		if(fs_nerr) { CHECK(r != 0 && r != -2 && r != -3, "an error is reported as such"); break; }
		if(pos >= n) { CHECK(r == -2, "the end is reported"); break; }
		if(r == -3) { CHECK(e - pos >= BUF, "too long only if it does not fit"); break; }
		CHECK(r == 0 && f->len == e - pos, "a line"); pos = e + 1;
	}
#else
	for(;;) {
		unsigned e = eol(pos); stringptr s = {0, 7777};
		if(MEASURE && !steps && vp_choose(2)) {
			ssize_t g = fileparser_getnextlinelength(f); vp_obs(g);
			if(pos >= n) CHECK(g == -1, "no line after the last one"); else CHECK(g == (ssize_t)(e - pos), "the length of the next line");
		}
		if(pos >= n) { CHECK(fileparser_readline_userbuf(f, vp_block(4), 4) == -2, "the end of the file is reported"); CHECK(fileparser_readline(f) == -2, "the end of the file is reported"); break; }
#ifdef LONG
		unsigned bs = sizeof f->buf; char *ub = f->buf; r = fileparser_readline(f);
#else
		unsigned bs = MEASURE ? sizeof f->buf : 1 + vp_choose(BUF); char *ub = MEASURE ? f->buf : vp_block(bs);
		r = MEASURE ? fileparser_readline(f) : fileparser_readline_userbuf(f, ub, bs);
#endif
		vp_obs(r);
		/* a line fits if the buffer holds it and its end */
		if(e - pos >= bs) {
			CHECK(r == -3, "a line that does not fit is reported"); int ok = 1; for(i = 0; i < bs; i += STEP) ok &= (unsigned char)ub[i] == fs_data[pos + i]; CHECK(ok, "and its beginning delivered");
			if(++steps > 1) { ub = vp_block(e - pos + 1); r = fileparser_readline_userbuf(f, ub, e - pos + 1); CHECK(r == 0, "a larger buffer gets the line"); steps = 0; }
			else continue; /* still the same line */
		}
		CHECK(r == 0, "a line is read"); CHECK(f->len == e - pos, "the line has its length"); CHECK(ub[e - pos] == 0, "the line is terminated");
		int ok = 1; for(i = 0; i < e - pos; i += STEP) ok &= (unsigned char)ub[i] == fs_data[pos + i]; CHECK(ok, "the line has its contents");
		if(ub == f->buf) { CHECK(fileparser_getline(f, &s) == 0 && s.ptr == f->buf && s.size == e - pos, "getline returns the line"); }
		pos = e + 1; steps = 0;
	}
	CHECK(fileparser_getline(0, 0) == -1 && fileparser_getline(f, 0) == -1 && fileparser_close(0) == -1 && fileparser_readline_userbuf(0, (char*)f, 1) == -1, "missing arguments are refused");
#endif
	CHECK(fileparser_close(f) == 0 && !fs_open, "the file is closed");
	CHECK(fileparser_close(f) == 0, "closing again does nothing");
	vp_done();
}
