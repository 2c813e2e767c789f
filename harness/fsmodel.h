/* one file with a read position; system calls may fail or be short as the harness asks */
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
static unsigned char *fs_data; static unsigned fs_len, fs_pos, fs_cap; static int fs_open, fs_nopen, fs_oflags, fs_exists = 1, fs_short, fs_err, fs_nerr, fs_trunc; static const char *fs_name; static long fs_statsize = -1; static int fs_fd = 5;
static long fs_base; /* the data begin at this offset */
static unsigned fs_nread, fs_nwrite, fs_mode, fs_chunk; /* fs_chunk: transfers of pseudo-random lengths up to this */
static unsigned fs_rnd; static unsigned fs_part(unsigned m) { fs_rnd = fs_rnd * 1664525u + 1013904223u; unsigned k = 1 + (fs_rnd >> 8) % fs_chunk; return k < m ? k : m; }
static int fs_fail(int bit) { if((fs_err & bit) && vp_choose(2)) { fs_nerr++; errno = EIO; return 1; } return 0; }
int vp_open(const char *n, int flags, ...) {
	int i; for(i = 0; fs_name[i]; i++) CHECK(n[i] == fs_name[i], "the named file is opened"); CHECK(n[i] == 0, "the named file is opened");
	CHECK(!fs_open, "opened once"); fs_nopen++; fs_oflags = flags;
	if(flags & O_CREAT) { va_list ap; va_start(ap, flags); fs_mode = va_arg(ap, int); va_end(ap); }
	if((!fs_exists && !(flags & O_CREAT)) || fs_fail(1)) { fs_nerr++; errno = ENOENT; return -1; }
	if((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { fs_len = 0; fs_trunc = 1; }
	fs_open = 1; fs_pos = 0; return fs_fd;
}
int vp_close(int fd) { CHECK(fs_open && fd == fs_fd, "only the open file is closed"); fs_open = 0; return 0; }
ssize_t vp_read(int fd, void *b, size_t n) {
	CHECK(fs_open && fd == fs_fd, "read from the open file"); CHECK((fs_oflags & O_ACCMODE) != O_WRONLY, "opened for reading"); CHECK(vp_valid(b, n), "the buffer holds the bytes asked for"); fs_nread++;
	if(fs_fail(2)) return -1;
	unsigned m = fs_pos < fs_len ? fs_len - fs_pos : 0; if(m > n) m = n;
	if(!m && n) { static unsigned eofs; CHECK(++eofs < 8, "not read again and again at the end of the file"); }
	if(m > 1 && fs_short) m = 1 + vp_choose(fs_short < m ? fs_short : m);
	if(m > 1 && fs_chunk) m = fs_part(m);
	memcpy(b, fs_data + fs_pos, m); fs_pos += m; return m;
}
ssize_t vp_write(int fd, const void *b, size_t n) {
	CHECK(fs_open && fd == fs_fd, "written to the open file"); CHECK((fs_oflags & O_ACCMODE) != O_RDONLY, "opened for writing"); CHECK(vp_valid(b, n), "the bytes exist"); fs_nwrite++;
	if(fs_fail(4)) return -1;
	unsigned m = n; if(m > 1 && fs_short) { m = 1 + vp_choose(fs_short < m ? fs_short : m); if(m < n) fs_nerr |= 0; }
	if(m > 1 && fs_chunk) m = fs_part(m);
	CHECK(fs_pos + m <= fs_cap, "no more is written than given"); memcpy(fs_data + fs_pos, b, m); fs_pos += m; if(fs_pos > fs_len) fs_len = fs_pos; return m;
}
off_t vp_lseek(int fd, off_t o, int w) { CHECK(fs_open && fd == fs_fd, "seek in the open file"); if(fs_fail(8)) return -1; if(w == SEEK_CUR) o += fs_base + fs_pos; else if(w == SEEK_END) o += fs_base + fs_len; CHECK(o >= fs_base && o < fs_base + (1 << 20), "a position in the file"); fs_pos = o - fs_base; return o; }
int vp_fstat(int fd, struct stat *st) { CHECK(fs_open && fd == fs_fd, "the open file"); if(fs_fail(16)) return -1; st->st_size = fs_statsize >= 0 ? fs_statsize : (long) fs_len; return 0; }
int vp_stat(const char *n, struct stat *st) { if(!fs_exists || fs_fail(16)) { fs_nerr++; errno = ENOENT; return -1; } st->st_size = fs_statsize >= 0 ? fs_statsize : (long) fs_len; return 0; }
