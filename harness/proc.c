/* running processes and becoming a daemon, on a model of the descriptor table */
#define _GNU_SOURCE
#include <stdarg.h>
#include "vp.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include "proclib.h"
#ifndef NFD
#define NFD 16
#endif
#ifndef NINT /* that many interruptions, or any two if 0 */
#define NINT 0
#endif
/* the model knows NFD descriptors; those from 6 on may have larger numbers */
static int off; static unsigned nint;
static int num(int i) { return i < 6 ? i : i + off; }
static int idx(int fd) { int i = fd < 6 ? fd : fd - off; return fd < 0 || (fd >= 6 && i < 6) || i >= NFD ? -1 : i; }
static int tab[NFD], child[NFD]; /* 0 closed; 1..9 something of the caller; 10 + 2k / 11 + 2k: read / write end of pipe k; 50: /dev/null */
static unsigned npipe, nact; static struct { int kind, a, b; } act[24]; static int fa_ok, fa_init, fa_destroyed; static posix_spawn_file_actions_t *fap;
static int err, fails, spawned, reaped; static pid_t thepid; static char *const *theargv; static int nwait;
char *env0[] = {0}; 
static int fail(void) { if(!NINT && !err && vp_choose(2)) { fails++; err = 1 + vp_choose(2) * 10; return err; } return 0; }
int vp_posix_spawn_file_actions_init(posix_spawn_file_actions_t *f) { CHECK(!fa_init, "initialised once"); fap = f; int e = fail(); if(!e) fa_init = 1; return e; }
int vp_posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *f) { CHECK(f == fap && fa_init && !fa_destroyed, "file actions are released once, and only if initialised"); fa_destroyed = 1; return 0; }
static int add(int k, int a, int b) { CHECK(fa_init && !fa_destroyed, "file actions are initialised"); CHECK(nact < 24, "a reasonable number of actions"); int e = fail(); if(e) return e; act[nact].kind = k; act[nact].a = a; act[nact++].b = b; return 0; }
int vp_posix_spawn_file_actions_addclose(posix_spawn_file_actions_t *f, int fd) { CHECK(f == fap, "the file actions of the process"); return add(0, fd, 0); }
int vp_posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *f, int a, int b) { CHECK(f == fap, "the file actions of the process"); return add(1, a, b); }
static int lowest(void) { int i; for(i = 0; i < NFD; i++) if(!tab[i]) return i; vp_fail("descriptors"); return -1; }
int vp_pipe(int p[2]) { if(!NINT && !err && vp_choose(2)) { fails++; err = errno = EMFILE; return -1; } int x = lowest(); p[0] = num(x); tab[x] = 10 + 2 * npipe; x = lowest(); p[1] = num(x); tab[x] = 11 + 2 * npipe; npipe++; return 0; }
int vp_close(int fd) {
#if MODE != 2
	fd = idx(fd); CHECK(fd >= 0 && tab[fd] >= 10, "only descriptors of the pipes are closed");
#endif
	if(fd < 0 || fd >= NFD || !tab[fd]) { errno = EBADF; return -1; } tab[fd] = 0; return 0; }
int vp_posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const ev[]) {
	extern char **environ; CHECK(argv == theargv && f == argv[0] && ev == environ, "program, arguments and environment"); CHECK(fa == fap && fa_init && !fa_destroyed && !spawned, "with the file actions, once");
	int e = fail(); if(e) return e;
	for(int i = 0; i < NFD; i++) child[i] = tab[i];
	for(unsigned i = 0; i < nact; i++) { int a = idx(act[i].a); CHECK(a >= 0, "a descriptor"); if(act[i].kind == 0) child[a] = 0; else { CHECK(child[a], "only open descriptors are duplicated"); CHECK(act[i].b >= 0 && act[i].b < 3, "a standard descriptor"); child[act[i].b] = child[a]; } }
	spawned = 1; thepid = 1 + (vp_u16() & 0x7fff); *pid = thepid; return 0;
}
static int status, wfail;
pid_t vp_waitpid(pid_t p, int *st, int o) { CHECK(spawned && !reaped && p == thepid && o == 0, "the process is waited for"); for(int i = 0; i < NFD; i++) CHECK(tab[i] < 10, "its pipes are closed before, so that it can end");
	if(NINT ? nwait++ < nint : nwait++ < 2 && vp_choose(2)) { errno = EINTR; return -1; } if(vp_choose(2)) { wfail = 1; errno = ECHILD; return -1; } reaped = 1; status = (vp_u8() << 8); *st = status; return p; }
/* daemonize */
static pid_t fk; static int sid, msg, nulls;
#if MODE == 2
pid_t vp_fork(void) { return fk; }
pid_t vp_setsid(void) { sid++; return 7; }
int vp_getdtablesize(void) { return NFD - 2; }
int vp_open(const char *n, int fl, ...) { CHECK(!strcmp(n, "/dev/null") && (fl & O_ACCMODE) == O_RDWR, "/dev/null for reading and writing"); int f = lowest(); tab[f] = 50; nulls++; return f; }
int vp_dup(int f) { CHECK(f >= 0 && f < NFD && tab[f], "an open descriptor"); int g = lowest(); tab[g] = tab[f]; return g; }
int vp_dup2(int f, int g) { CHECK(f >= 0 && f < NFD && tab[f] && g >= 0 && g < NFD, "an open descriptor"); tab[g] = tab[f]; return g; }
int vp_dup3(int f, int g, int fl) { CHECK(f != g && !fl, "kept open"); return vp_dup2(f, g); }
long vp_sysconf(int n) { return NFD - 2; }
int vp_getrlimit(int r, unsigned long *l) { l[0] = l[1] = NFD - 2; return 0; }
int vp_close_range(unsigned a, unsigned b, int fl) { for(unsigned i = a; i <= b && i < NFD; i++) tab[i] = 0; return 0; }
void vp_closefrom(int a) { vp_close_range(a < 0 ? 0 : a, NFD, 0); }
ssize_t vp_write(int fd, const void *b, size_t n) { CHECK(fd == 2 && tab[2], "standard error"); msg += n; return n; }
void vp_exit(int c) { if(fk < 0) CHECK(c == 1 && msg > 0 && !sid, "a failing fork ends with an error"); else { CHECK(fk > 0 && c == 0 && !msg && !sid, "the parent ends successfully"); } vp_done(); }
void vp__exit(int c) { vp_exit(c); } void vp__Exit(int c) { vp_exit(c); }
#endif
void harness(void) {
	unsigned i, j; off = NFD == 16 && MODE == 0 ? vp_choose(3) * 300 : 0; if(off == 600) off = 70000; nint = NINT ? vp_choose(NINT + 1) : 0; tab[0] = 1; tab[1] = 2; tab[2] = 3; tab[5] = vp_choose(2) ? 4 : 0; 
#if MODE == 0
	char *av[2] = {vp_cstr("prog"), 0}; theargv = av; struct process *p = vp_block(sizeof *p); CHECK(sizeof p->fds == 3 * sizeof(int), "three descriptors"); memset(p, 0xee, sizeof *p); int had5 = tab[5];
	int r = process_open(p, av); vp_obs(r);
	if(r) { CHECK(r == -1 && fails, "fails only if a system call fails"); CHECK(errno == err, "errno tells why"); CHECK(!spawned && fa_init == fa_destroyed, "everything is released"); for(i = 0; i < NFD; i++) CHECK(tab[i] < 10, "no descriptor is left open"); CHECK(tab[0] == 1 && tab[1] == 2 && tab[2] == 3 && tab[5] == had5, "other descriptors are untouched"); vp_done(); }
	CHECK(!fails && spawned && p->pid == thepid && !fa_destroyed, "the process runs");
	for(i = 0; i < 3; i++) { int f = idx(p->fds[i]); CHECK(f >= 0, "a descriptor"); int mine = tab[f], its = child[i]; CHECK(mine >= 10 && its >= 10 && mine / 2 == its / 2, "both hold the ends of one pipe"); CHECK((mine & 1) == (i == 0) && (its & 1) == (i != 0), "the process reads its input and writes its output"); for(j = 0; j < i; j++) CHECK(child[j] != its, "a pipe of its own"); }
	int open = 0, copen = 0; for(i = 0; i < NFD; i++) { open += tab[i] >= 10; copen += child[i] >= 10; } CHECK(open == 3, "the other ends are closed here"); CHECK(copen == 3, "and the unused ends in the process");
	r = process_close(p); vp_obs(r);
	for(i = 0; i < NFD; i++) CHECK(tab[i] < 10, "no descriptor is left open"); CHECK(tab[0] == 1 && tab[1] == 2 && tab[2] == 3 && tab[5] == had5, "other descriptors are untouched");
	CHECK(fa_destroyed, "everything is released"); if(wfail) CHECK(r == -1, "a process that cannot be waited for is an error"); else CHECK(reaped && r == status >> 8, "the exit code is returned");
#else
	for(i = 3; i < NFD - 2; i++) tab[i] = (NFD == 16 || i == NFD / 2 || i == NFD - 3 ? vp_choose(2) : i % 3) ? 5 : 0;
	fk = vp_choose(3) - 1; daemonize();
	CHECK(fk == 0, "only the child goes on"); CHECK(sid == 1, "in its own session"); for(i = 0; i < NFD; i++) CHECK(tab[i] == (i < 3 ? 50 : 0), "standard descriptors are /dev/null, all others are closed"); CHECK(!msg, "silently");
#endif
	vp_done();
}
