/* File system, stdio and process model.  For the symbolic executor the env_* names are the
 * libc names themselves (env_remap.h); for native replay the repository's objects are
 * rewritten to call env_*. */
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include "env.h"
#ifdef ENV_ENGINE
#include "env_remap.h"
#endif

#define NINO 64
#define NFD 48
/* hs, hl: a run of hl zero bytes at hs which is not in d (a silo of gigabytes) */
struct ino { int used, isdir, nlink, nopen; unsigned mode; uint8_t *d; size_t len, cap, hs, hl; };
struct dent { char *path; int ino; };
struct fd { int used, ino, flags, kind; size_t pos; int pipe; };
enum { FD_FILE, FD_PIPER, FD_PIPEW, FD_OUT, FD_ERR, FD_NULL, FD_STDIN };
static struct ino inos[NINO]; static struct dent dents[NINO]; static struct fd fds[NFD];
uint64_t env_mut, env_crash_at = ~0ULL, env_ops, env_hook_at = ~0ULL;
int env_crash_armed, env_hook_armed, env_pagesize = 4096, env_pid = 4242;
long env_time = 1500000000;
int env_root, env_fail_open_at = -1, env_nopen, env_short_read_at = -1, env_nread, env_tear;
void (*env_hook)(void);
struct env_pipe env_pipes[NPIPE]; void (*env_block_hook)(int); int (*env_poll_hook)(struct pollfd *, unsigned long); int (*env_wait_hook)(int, int *); void (*env_exec_hook)(const char **); int env_npipe; size_t env_read_max; int env_wait_status; int (*env_fork_hook)(void); int env_fork_ret = 7777;
struct env_file { int fd; int err, eof; uint8_t *wb; size_t wl, wc; int own; int text; };
typedef struct env_file EF;
static EF f_in, f_out, f_err;
#define FP(x) ((FILE *)(void *)(x))
#define UFP(x) ((EF *)(void *)(x))
FILE *env_stdin, *env_stdout, *env_stderr;
static char *cap_out, *cap_err; static size_t cap_on, cap_oc, cap_en, cap_ec;
const char *env_fail_func, *env_fail_cond; int env_fail_line;

static void op(void) {
	if (!env_hook_armed) return;
	if (env_ops++ == env_hook_at && env_hook) { void (*h)(void) = env_hook; env_hook = NULL; env_hook_armed = 0; h(); }
}
/* env_hook_shared: only calls about files other processes see */
int env_hook_shared;
static int under(const char *p) { return !strncmp(p, "/s", 2); }
static int shared(const struct fd *f) { if (f->kind != FD_FILE) return 0; for (int i = 0; i < NINO; i++) if (dents[i].path && dents[i].ino == f->ino) return under(dents[i].path); return 0; }
#define opx(c) do { if (!env_hook_shared || (c)) op(); } while (0)
/* a mutation is about to happen: the process may die instead */
static int crashing(void) {
	if (!env_crash_armed) return 0;
	return env_mut++ == env_crash_at;
}
int env_torn_append;
static void mut(void) { if (crashing()) sym_throw(THROW_CRASH); }

/* one file operation fails: nothing done and -1, or (writes) half of it done */
uint64_t env_fault_at = ~0ULL, env_nfault; int env_fault_armed, env_fault_half; long env_stdin_err = -1; const char *env_fault_what;
static int fault(int err, const char *what) {
	if (!env_fault_armed) return 0;
	if (env_nfault++ != env_fault_at) return 0;
	env_fault_what = what; errno = err; return 1;
}
/* an interrupted write ends at a multiple of env_atomic: aligned index entries are never torn */
int env_atomic = 32;
static size_t tear(size_t pos, size_t part, size_t n) { size_t e = pos + part; if (env_atomic > 1) e -= e % (size_t)env_atomic; return e > pos && part < n ? e - pos : 0; }
static char *norm(const char *p) {
	size_t n = strlen(p), j = 0; char *r = malloc(n + 2);
	for (size_t i = 0; i < n; i++) {
		if (p[i] == '/' && j > 0 && r[j - 1] == '/') continue;
		if (p[i] == '.' && (i == 0 || p[i - 1] == '/') && (p[i + 1] == '/' )) { i++; continue; }
		r[j++] = p[i];
	}
	while (j > 1 && r[j - 1] == '/') j--;
	r[j] = 0;
	return r;
}
static int lookup(const char *path) {
	char *p = norm(path); int r = -1;
	for (int i = 0; i < NINO; i++) if (dents[i].path && !strcmp(dents[i].path, p)) { r = i; break; }
	free(p);
	return r;
}
static int newino(int isdir) {
	for (int i = 1; i < NINO; i++) if (!inos[i].used) {
		memset(&inos[i], 0, sizeof inos[i]); inos[i].used = 1; inos[i].isdir = isdir; inos[i].mode = isdir ? 0755 : 0644; return i; }
	sym_fail("env", "model: out of inodes"); return -1;
}
static void iput(int i) { if (inos[i].nlink == 0 && inos[i].nopen == 0) { free(inos[i].d); inos[i].d = NULL; inos[i].used = 0; } }
static int addent(const char *path, int ino) {
	for (int i = 0; i < NINO; i++) if (!dents[i].path) { dents[i].path = norm(path); dents[i].ino = ino; inos[ino].nlink++; return i; }
	sym_fail("env", "model: out of directory entries"); return -1;
}
static void delent(int e) { int i = dents[e].ino; free(dents[e].path); dents[e].path = NULL; inos[i].nlink--; iput(i); }
static int parent_ok(const char *path) {
	char *p = norm(path), *s = strrchr(p, '/'); int r;
	if (s == NULL || s == p) r = 1; else { *s = 0; int e = lookup(p); r = e >= 0 && inos[dents[e].ino].isdir; }
	free(p); return r;
}
static void grow(struct ino *x, size_t n) {
	if (n <= x->cap) return;
	size_t c = x->cap ? x->cap * 2 : 512; while (c < n) c *= 2;
	uint8_t *q = malloc(c); if (x->len) memcpy(q, x->d, x->len); free(x->d); x->d = q; x->cap = c;
}
static size_t vlen(const struct ino *x) { return x->len + x->hl; }
/* n bytes at pos, all within the file */
static void iread(const struct ino *x, size_t pos, void *p, size_t n) {
	uint8_t *b = p;
	while (x->hl && n) {
		size_t l;
		if (pos < x->hs) { l = x->hs - pos; if (l > n) l = n; memcpy(b, x->d + pos, l); }
		else if (pos < x->hs + x->hl) { l = x->hs + x->hl - pos; if (l > n) l = n; memset(b, 0, l); }
		else { l = n; memcpy(b, x->d + (pos - x->hl), l); }
		b += l; pos += l; n -= l;
	}
	if (n) memcpy(b, x->d + pos, n);
}
static void iwrite(struct ino *x, size_t pos, const void *p, size_t n) {
	if (x->hl && pos + n > x->hs) { if (pos < x->hs + x->hl) sym_fail("env", "model: writing into a hole"); pos -= x->hl; }
	grow(x, pos + n);
	if (pos > x->len) memset(x->d + x->len, 0, pos - x->len);
	memcpy(x->d + pos, p, n);
	if (pos + n > x->len) x->len = pos + n;
}
int env_maxfd;
static int newfd(void) {
	for (int i = 0; i < (env_maxfd ? env_maxfd : NFD); i++) if (!fds[i].used) { memset(&fds[i], 0, sizeof fds[i]); fds[i].used = 1; return i; }
	errno = EMFILE; return -1;
}
static struct fd *fdp(int fd) { if (fd < 0 || fd >= NFD || !fds[fd].used) { errno = EBADF; return NULL; } return &fds[fd]; }

void env_mkdirp(const char *path) {
	char *p = norm(path);
	for (char *s = p + 1; ; s++) if (*s == '/' || !*s) { char c = *s; *s = 0; if (lookup(p) < 0) addent(p, newino(1)); *s = c; if (!c) break; }
	free(p);
}
void env_mkfile(const char *path, const void *d, size_t n) {
	int e = lookup(path);
	if (e < 0) e = addent(path, newino(0));
	struct ino *x = &inos[dents[e].ino]; x->len = x->hl = 0; iwrite(x, 0, d, n);
}
void env_hole(const char *path, size_t at, size_t n) { struct ino *x = &inos[dents[lookup(path)].ino]; x->hs = at; x->hl = n; }
size_t env_size(const char *path) { return vlen(&inos[dents[lookup(path)].ino]); }
int env_exists(const char *p) { return lookup(p) >= 0; }
uint8_t *env_data(const char *p, size_t *n) { int e = lookup(p); if (e < 0) { *n = 0; return NULL; } struct ino *x = &inos[dents[e].ino]; grow(x, 1); *n = x->len; return x->d; }
void env_truncate(const char *p, size_t n) { int e = lookup(p); if (e >= 0 && inos[dents[e].ino].len > n) inos[dents[e].ino].len = n; }
void env_remove(const char *p) { int e = lookup(p); if (e >= 0) delent(e); }
void env_chmod(const char *p, unsigned m) { int e = lookup(p); if (e >= 0) inos[dents[e].ino].mode = m; }
int env_nfiles(void) { return NINO; }
const char *env_fname(int i) { return dents[i].path && !inos[dents[i].ino].isdir ? dents[i].path : NULL; }
int env_maxfd;
int env_nopenfds(void) { int n = 0; for (int i = 3; i < NFD; i++) n += fds[i].used; return n; }
static void std_fds(void) { memset(fds, 0, 3 * sizeof fds[0]); fds[0].used = fds[1].used = fds[2].used = 1; fds[0].kind = FD_STDIN; fds[1].kind = FD_OUT; fds[2].kind = FD_ERR; }
void env_reset_fds(void) {
	for (int i = 0; i < NFD; i++) if (fds[i].used) { if (fds[i].kind == FD_FILE) { inos[fds[i].ino].nopen--; iput(fds[i].ino); } fds[i].used = 0; }
	std_fds(); }

/* ---- descriptors ---- */
int env_vopen(const char *path, int flags, unsigned mode) {
	opx(under(path));
	if (env_fail_open_at >= 0 && env_nopen++ == env_fail_open_at) { errno = EMFILE; return -1; }
	if (fault(ENFILE, "open")) return -1;
	if (!strcmp(path, "/dev/null")) { int n = newfd(); if (n >= 0) fds[n].kind = FD_NULL; return n; }
	int e = lookup(path), acc = flags & O_ACCMODE;
	if (e >= 0) {
		struct ino *x = &inos[dents[e].ino];
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (x->isdir && acc != O_RDONLY) { errno = EISDIR; return -1; }
		if (!env_root && acc != O_RDONLY && !(x->mode & 0200)) { errno = EACCES; return -1; }
		if (!env_root && acc == O_RDONLY && !(x->mode & 0400)) { errno = EACCES; return -1; }
	} else {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		if (!parent_ok(path)) { errno = ENOENT; return -1; }
	}
	int n = newfd(); if (n < 0) return -1;
	if (e < 0) { fds[n].used = 0; mut(); fds[n].used = 1; e = addent(path, newino(0)); inos[dents[e].ino].mode = mode & 0777; }
	else if ((flags & O_TRUNC) && acc != O_RDONLY) { fds[n].used = 0; mut(); fds[n].used = 1; inos[dents[e].ino].len = 0; }
	fds[n].kind = FD_FILE; fds[n].ino = dents[e].ino; fds[n].flags = flags; inos[fds[n].ino].nopen++;
	return n;
}
int env_open(const char *path, int flags, ...) { unsigned m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = (unsigned)va_arg(ap, int); va_end(ap); } return env_vopen(path, flags, m); }
int env_openat(int dfd, const char *path, int flags, ...) {
	struct fd *d = fdp(dfd); if (path[0] == '/' || dfd == AT_FDCWD) return env_vopen(path, flags, 0644);
	if (!d) return -1;
	for (int i = 0; i < NINO; i++) if (dents[i].path && dents[i].ino == d->ino) {
		size_t a = strlen(dents[i].path), b = strlen(path); char *p = malloc(a + b + 2); memcpy(p, dents[i].path, a); p[a] = '/'; memcpy(p + a + 1, path, b + 1);
		int r = env_vopen(p, flags, 0644); free(p); return r; }
	errno = ENOENT; return -1;
}
int env_creat(const char *path, mode_t m) { return env_vopen(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
int env_close(int fd) {
	struct fd *f;
	f = fdp(fd); if (!f) return -1;
	if (f->kind < FD_OUT) opx(shared(f));
	if (f->kind == FD_FILE) { inos[f->ino].nopen--; iput(f->ino); }
	if (f->kind == FD_PIPER) env_pipes[f->pipe].ropen--;
	if (f->kind == FD_PIPEW) env_pipes[f->pipe].wopen--;
	f->used = 0; return 0;
}
void env_closefrom(int a) { for (int i = a; i < NFD; i++) if (fds[i].used) env_close(i); }
static struct env_pipe std_in;
static ssize_t pread_pipe(struct env_pipe *p, void *b, size_t n) {
	size_t l = p->len - p->pos; if (l > n) l = n;
	if (env_read_max && l > env_read_max) l = env_read_max;
	if (l) memcpy(b, p->d + p->pos, l); p->pos += l; return (ssize_t)l;
}
ssize_t env_read(int fd, void *b, size_t n) {
	struct fd *f = fdp(fd); if (!f) return -1;
	if (f->kind == FD_STDIN) {
		if (env_stdin_err >= 0) { if ((long)std_in.pos >= env_stdin_err) { errno = EIO; return -1; } if ((long)(std_in.pos + n) > env_stdin_err) n = (size_t)env_stdin_err - std_in.pos; }
		return pread_pipe(&std_in, b, n);
	}
	opx(shared(f));
	if (f->kind == FD_NULL) return 0;
	if (f->kind == FD_PIPER) { struct env_pipe *p = &env_pipes[f->pipe]; if (p->pos == p->len && p->wopen > 0 && env_block_hook) env_block_hook(f->pipe); return pread_pipe(p, b, n); }
	if (f->kind != FD_FILE) { errno = EBADF; return -1; }
	struct ino *x = &inos[f->ino];
	if (x->isdir) { errno = EISDIR; return -1; }
	if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	if (fault(EIO, "read")) return -1;
	if (f->pos >= vlen(x)) return 0;
	size_t l = vlen(x) - f->pos; if (l > n) l = n;
	if (l > 1 && env_short_read_at >= 0 && env_nread++ == env_short_read_at) l /= 2;
	iread(x, f->pos, b, l); f->pos += l;
	return (ssize_t)l;
}
ssize_t env_pread(int fd, void *b, size_t n, off_t o) {
	struct fd *f = fdp(fd); if (!f) return -1;
	struct ino *x = &inos[f->ino]; if ((size_t)o >= vlen(x)) return 0;
	size_t l = vlen(x) - (size_t)o; if (l > n) l = n; iread(x, (size_t)o, b, l); return (ssize_t)l;
}
static void capture(char **d, size_t *n, size_t *c, const void *p, size_t l) {
	if (*n + l + 1 > *c) { size_t k = *c ? *c * 2 : 1024; while (k < *n + l + 1) k *= 2; char *q = malloc(k); if (*n) memcpy(q, *d, *n); free(*d); *d = q; *c = k; }
	memcpy(*d + *n, p, l); *n += l; (*d)[*n] = 0;
}
static void pipe_put(struct env_pipe *p, const void *b, size_t n) {
	if (p->len + n > p->cap) { size_t k = p->cap ? p->cap * 2 : 256; while (k < p->len + n) k *= 2; uint8_t *q = malloc(k); if (p->len) memcpy(q, p->d, p->len); free(p->d); p->d = q; p->cap = k; }
	if (n) memcpy(p->d + p->len, b, n); p->len += n;
}
static ssize_t fdwrite(struct fd *f, const void *b, size_t n) {
	if (f->kind == FD_NULL) return (ssize_t)n;
	if (f->kind == FD_PIPEW && env_pipes[f->pipe].broken) { sym_throw(THROW_EXIT + 141); }	/* SIGPIPE */
	if (f->kind == FD_PIPEW) { pipe_put(&env_pipes[f->pipe], b, n); return (ssize_t)n; }
	if (f->kind == FD_OUT) { capture(&cap_out, &cap_on, &cap_oc, b, n); return (ssize_t)n; }
	if (f->kind == FD_ERR) { capture(&cap_err, &cap_en, &cap_ec, b, n); return (ssize_t)n; }
	if (f->kind != FD_FILE || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	struct ino *x = &inos[f->ino];
	if (f->flags & O_APPEND) f->pos = vlen(x);
	if (fault(ENOSPC, "write")) { if (!env_fault_half) return -1; n = tear(f->pos, n / 2, n); if (n == 0) return -1; if (f->flags & O_APPEND) env_torn_append = 1; }
	if (crashing()) { size_t t = env_tear > 0 ? tear(f->pos, (size_t)env_tear, n) : 0; if (t) iwrite(x, f->pos, b, t); if (t && t < n && (f->flags & O_APPEND)) env_torn_append = 1; sym_throw(THROW_CRASH); }
	iwrite(x, f->pos, b, n); f->pos += n;
	return (ssize_t)n;
}
ssize_t env_write(int fd, const void *b, size_t n) {
	struct fd *f = fdp(fd); if (!f) return -1;
	if (f->kind < FD_OUT) opx(shared(f));
	return fdwrite(f, b, n);
}
ssize_t env_pwrite(int fd, const void *b, size_t n, off_t o) {
	struct fd *f = fdp(fd); if (!f) return -1;
	opx(shared(f));
	if (f->kind != FD_FILE || (f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	struct ino *x = &inos[f->ino];
	if (fault(ENOSPC, "pwrite")) { if (!env_fault_half) return -1; n = tear((size_t)o, n / 2, n); if (n == 0) return -1; }
	if (crashing()) { size_t t = env_tear > 0 ? tear((size_t)o, (size_t)env_tear, n) : 0; if (t) iwrite(x, (size_t)o, b, t); sym_throw(THROW_CRASH); }
	iwrite(x, (f->flags & O_APPEND) ? vlen(x) : (size_t)o, b, n);
	return (ssize_t)n;
}
ssize_t env_writev(int fd, const struct iovec *v, int k) {
	size_t t = 0, o = 0; for (int i = 0; i < k; i++) t += v[i].iov_len;
	uint8_t *b = malloc(t + 1);
	for (int i = 0; i < k; i++) { if (v[i].iov_len) memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
	ssize_t r = env_write(fd, b, t);
	free(b); return r;
}
off_t env_lseek(int fd, off_t o, int w) {
	struct fd *f = fdp(fd); if (!f) return -1;
	opx(0);
	if (f->kind != FD_FILE) { errno = ESPIPE; return -1; }
	off_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)f->pos : (off_t)vlen(&inos[f->ino]);
	if (base + o < 0) { errno = EINVAL; return -1; }
	f->pos = (size_t)(base + o); return base + o;
}
static void fill(struct stat *st, int i) { memset(st, 0, sizeof *st); st->st_mode = (inos[i].isdir ? S_IFDIR : S_IFREG) | inos[i].mode; st->st_size = (off_t)vlen(&inos[i]); st->st_nlink = (nlink_t)inos[i].nlink; st->st_ino = (ino_t)i; }
int env_stat(const char *p, struct stat *st) { opx(under(p)); int e = lookup(p); if (e < 0) { errno = ENOENT; return -1; } fill(st, dents[e].ino); return 0; }
int env_lstat(const char *p, struct stat *st) { return env_stat(p, st); }
int env_fstat(int fd, struct stat *st) { struct fd *f = fdp(fd); if (!f) return -1; opx(shared(f)); if (fault(EIO, "fstat")) return -1; if (f->kind != FD_FILE) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; } fill(st, f->ino); return 0; }
int env_access(const char *p, int m) { (void)m; opx(under(p)); if (lookup(p) < 0) { errno = ENOENT; return -1; } return 0; }
int env_link(const char *a, const char *b) {
	opx(under(b)); if (fault(EMLINK, "link")) return -1; int e = lookup(a); if (e < 0) { errno = ENOENT; return -1; }
	if (lookup(b) >= 0) { errno = EEXIST; return -1; }
	if (!parent_ok(b)) { errno = ENOENT; return -1; }
	mut(); addent(b, dents[e].ino); return 0;
}
int env_unlink(const char *p) { opx(under(p)); if (fault(EIO, "unlink")) return -1; int e = lookup(p); if (e < 0) { errno = ENOENT; return -1; } mut(); delent(e); return 0; }
int env_rename(const char *a, const char *b) {
	opx(under(b)); if (fault(EIO, "rename")) return -1; int e = lookup(a); if (e < 0) { errno = ENOENT; return -1; }
	if (!parent_ok(b)) { errno = ENOENT; return -1; }
	int t = lookup(b); if (t == e) return 0;
	mut(); if (t >= 0) delent(t);
	free(dents[e].path); dents[e].path = norm(b); return 0;
}
int env_mkdir(const char *p, mode_t m) { opx(under(p)); if (fault(ENOSPC, "mkdir")) return -1; if (lookup(p) >= 0) { errno = EEXIST; return -1; } if (!parent_ok(p)) { errno = ENOENT; return -1; } mut(); int i = newino(1); inos[i].mode = m; addent(p, i); return 0; }
int env_ftruncate(int fd, off_t n) { struct fd *f = fdp(fd); if (!f) return -1; opx(shared(f)); if (fault(EIO, "ftruncate")) return -1; mut(); struct ino *x = &inos[f->ino]; if (x->hl) sym_fail("env", "model: truncating a file with a hole"); if ((size_t)n < x->len) x->len = (size_t)n; else if ((size_t)n > x->len) { grow(x, (size_t)n); memset(x->d + x->len, 0, (size_t)n - x->len); x->len = (size_t)n; } return 0; }
int env_fsync(int fd) { return fdp(fd) ? 0 : -1; }
int env_fchmod(int fd, mode_t m) { struct fd *f = fdp(fd); if (!f) return -1; mut(); inos[f->ino].mode = m; return 0; }
int env_chmod_(const char *p, mode_t m) { int e = lookup(p); if (e < 0) { errno = ENOENT; return -1; } mut(); inos[dents[e].ino].mode = m; return 0; }
void *env_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
	(void)a; (void)prot; opx(0);
	uint8_t *p; if (fault(ENOMEM, "mmap")) return MAP_FAILED;
	if (flags & MAP_ANONYMOUS || fd < 0) { p = calloc(1, n); return p; }
	struct fd *f = fdp(fd); if (!f || f->kind != FD_FILE) { errno = EBADF; return MAP_FAILED; }
	if (o % env_pagesize || n == 0) { errno = EINVAL; return MAP_FAILED; }
	struct ino *x = &inos[f->ino]; p = calloc(1, n);
	if ((size_t)o < vlen(x)) { size_t l = vlen(x) - (size_t)o; if (l > n) l = n; iread(x, (size_t)o, p, l); }
	return p;
}
int env_munmap(void *p, size_t n) { (void)n; free(p); return 0; }
int env_getpagesize(void) { return env_pagesize; }
pid_t env_getpid(void) { return env_pid; }
time_t env_time_(time_t *t) { if (t) *t = env_time; return env_time; }
int env_fileno(FILE *fp) { return UFP(fp)->fd; }
static struct { const char *k, *v; } envv[16];
void env_setenv(const char *k, const char *v) { for (int i = 0; i < 16; i++) if (!envv[i].k || !strcmp(envv[i].k, k)) { envv[i].k = k; envv[i].v = v; return; } }
void env_clearenv(void) { memset(envv, 0, sizeof envv); }
char *env_getenv(const char *k) { for (int i = 0; i < 16; i++) if (envv[i].k && !strcmp(envv[i].k, k)) return (char *)(uintptr_t)envv[i].v; return NULL; }
unsigned env_sleep(unsigned n) { (void)n; return 0; }
int env_usleep(unsigned n) { (void)n; return 0; }

/* ---- stdio ---- */
static int mode_flags(const char *m) { int plus = strchr(m, '+') != NULL; switch (m[0]) { case 'r': return plus ? O_RDWR : O_RDONLY; case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; } }
static EF *opens[24];
static EF *mkfile(int fd) { EF *f = calloc(1, sizeof *f); f->fd = fd; f->own = 1; for (int i = 0; i < 24; i++) if (!opens[i]) { opens[i] = f; break; } return f; }
static void unreg(EF *f) { for (int i = 0; i < 24; i++) if (opens[i] == f) opens[i] = NULL; }
FILE *env_fopen(const char *p, const char *m) { int fd = env_vopen(p, mode_flags(m), 0644); if (fd < 0) return NULL; return FP(mkfile(fd)); }
FILE *env_fdopen(int fd, const char *m) { (void)m; return fd >= 0 ? FP(mkfile(fd)) : NULL; }
FILE *env_tmpfile(void) { int n = newfd(); if (n < 0) return NULL; int i = newino(0); inos[i].nopen = 1; fds[n].kind = FD_FILE; fds[n].ino = i; fds[n].flags = O_RDWR; return FP(mkfile(n)); }
int env_fflush(FILE *fp) {
	EF *f = UFP(fp); if (!f) return 0;
	if (f->wl) { size_t l = f->wl; f->wl = 0; struct fd *d = fdp(f->fd); if (!d) { f->err = 1; return EOF; } opx(shared(d)); if (fdwrite(d, f->wb, l) != (ssize_t)l) { f->err = 1; return EOF; } }
	return 0;
}
int env_fclose(FILE *fp) { EF *f = UFP(fp); unreg(f); int r = env_fflush(fp); if (f->fd >= 3) if (env_close(f->fd)) r = EOF; free(f->wb); f->wb = NULL; if (f->own) free(f); return r; }
size_t env_fwrite(const void *b, size_t sz, size_t n, FILE *fp) {
	EF *f = UFP(fp); size_t l = sz * n; if (!l) return 0;
	struct fd *d = fdp(f->fd);
	if (f == &f_out || f == &f_err) { if (!d || fdwrite(d, b, l) != (ssize_t)l) { f->err = 1; return 0; } return n; }
	 if (!d || (d->kind == FD_FILE && (d->flags & O_ACCMODE) == O_RDONLY)) { f->err = 1; errno = EBADF; return 0; }
	if (f->wl + l > f->wc) { size_t k = f->wc ? f->wc * 2 : 128; while (k < f->wl + l) k *= 2; uint8_t *q = malloc(k); if (f->wl) memcpy(q, f->wb, f->wl); free(f->wb); f->wb = q; f->wc = k; }
	memcpy(f->wb + f->wl, b, l); f->wl += l;
	if (f->wl >= 4096) env_fflush(fp);
	return n;
}
size_t env_fread(void *b, size_t sz, size_t n, FILE *fp) {
	EF *f = UFP(fp); env_fflush(fp); size_t want = sz * n, got = 0; if (!want) return 0;
	while (got < want) { ssize_t r = env_read(f->fd, (uint8_t *)b + got, want - got); if (r < 0) { f->err = 1; break; } if (r == 0) { f->eof = 1; break; } got += (size_t)r; }
	return got / sz;
}
int env_fgetc(FILE *fp) { uint8_t c; return env_fread(&c, 1, 1, fp) == 1 ? c : EOF; }
char *env_fgets(char *b, int n, FILE *fp) { int i = 0; while (i + 1 < n) { int c = env_fgetc(fp); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; } if (i == 0) return NULL; b[i] = 0; return b; }
int env_ungetc(int c, FILE *fp) { struct fd *d = fdp(UFP(fp)->fd); if (d && d->pos) d->pos--; return c; }
int env_fseeko(FILE *fp, off_t o, int w) { env_fflush(fp); UFP(fp)->eof = 0; return env_lseek(UFP(fp)->fd, o, w) < 0 ? -1 : 0; }
int env_fseek(FILE *fp, long o, int w) { return env_fseeko(fp, o, w); }
off_t env_ftello(FILE *fp) { env_fflush(fp); return env_lseek(UFP(fp)->fd, 0, SEEK_CUR); }
long env_ftell(FILE *fp) { return env_ftello(fp); }
void env_rewind(FILE *fp) { env_fseeko(fp, 0, SEEK_SET); }
int env_feof(FILE *fp) { return UFP(fp)->eof; }
int env_ferror(FILE *fp) { return UFP(fp)->err; }
void env_clearerr(FILE *fp) { UFP(fp)->err = UFP(fp)->eof = 0; }
void env_setbuf(FILE *fp, char *b) { (void)fp; (void)b; }
int env_setvbuf(FILE *fp, char *b, int m, size_t n) { (void)fp; (void)b; (void)m; (void)n; return 0; }
int env_fputs(const char *s, FILE *fp) { env_fwrite(s, 1, strlen(s), fp); return 1; }
int env_puts(const char *s) { env_fputs(s, env_stdout); env_fputs("\n", env_stdout); return 1; }
int env_fputc(int c, FILE *fp) { char ch = (char)c; env_fwrite(&ch, 1, 1, fp); return (unsigned char)c; }
int env_putc(int c, FILE *fp) { return env_fputc(c, fp); }
int env_putchar(int c) { return env_fputc(c, env_stdout); }
int env_vfprintf(FILE *fp, const char *f, va_list ap) {
	va_list a2; va_copy(a2, ap); char t[1]; int n = vsnprintf(t, 1, f, a2); va_end(a2);
	char *b = malloc((size_t)n + 1); vsnprintf(b, (size_t)n + 1, f, ap); env_fwrite(b, 1, (size_t)n, fp); free(b); return n;
}
int env_fprintf(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = env_vfprintf(fp, f, ap); va_end(ap); return r; }
int env_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = env_vfprintf(env_stdout, f, ap); va_end(ap); return r; }
int env_vprintf(const char *f, va_list ap) { return env_vfprintf(env_stdout, f, ap); }
void env_perror(const char *s) { env_fprintf(env_stderr, "%s: error\n", s); }
ssize_t env_getline(char **lp, size_t *np, FILE *fp) {
	size_t i = 0; for (;;) { int c = env_fgetc(fp); if (c == EOF) break; if (i + 2 > *np || !*lp) { size_t k = *np ? *np * 2 : 128; char *q = malloc(k); if (i) memcpy(q, *lp, i); free(*lp); *lp = q; *np = k; } (*lp)[i++] = (char)c; if (c == '\n') break; }
	if (!i) return -1; (*lp)[i] = 0; return (ssize_t)i; }

/* the streams left open when a program ends */
void env_end_streams(int flush) { for (int i = 0; i < 24; i++) if (opens[i]) { EF *f = opens[i]; opens[i] = NULL; if (flush) env_fflush(FP(f)); free(f->wb); free(f); } }
/* ---- processes ---- */
int env_pipe_(int p[2]) {
	opx(0); int a = newfd(), b = newfd(); if (a < 0 || b < 0) return -1;
	int k = env_npipe++; if (k >= NPIPE) sym_fail("env", "model: out of pipes");
	fds[a].kind = FD_PIPER; fds[a].pipe = k; fds[b].kind = FD_PIPEW; fds[b].pipe = k; env_pipes[k].ropen = env_pipes[k].wopen = 1;
	p[0] = a; p[1] = b; return 0;
}
int env_mkpipe_in(const void *p, size_t n) { int k = env_npipe++, a = newfd(); fds[a].kind = FD_PIPER; fds[a].pipe = k; env_pipes[k].ropen = 1; pipe_put(&env_pipes[k], p, n); return a; }
int env_mkfd_out(void) { int k = env_npipe++, a = newfd(); fds[a].kind = FD_PIPEW; fds[a].pipe = k; env_pipes[k].wopen = 1; return a; }
const uint8_t *env_fd_out(int fd, size_t *n) { struct env_pipe *p = &env_pipes[fds[fd].pipe]; *n = p->len; return p->d; }
pid_t env_fork(void) { if (env_fork_hook) return env_fork_hook(); return env_fork_ret++; }
pid_t env_wait4(pid_t p, int *st, int o, struct rusage *ru) { (void)o; (void)ru; if (env_wait_hook) return env_wait_hook(p, st); if (st) *st = env_wait_status; return p; }
pid_t env_waitpid(pid_t p, int *st, int o) { (void)o; if (st) *st = env_wait_status; return p; }
int env_dup2(int a, int b) {
	struct fd *f = fdp(a); if (!f || b < 0 || b >= NFD) { errno = EBADF; return -1; }
	if (a == b) return b;
	if (fds[b].used) env_close(b);
	fds[b] = *f;
	if (f->kind == FD_FILE) inos[f->ino].nopen++;
	if (f->kind == FD_PIPER) env_pipes[f->pipe].ropen++;
	if (f->kind == FD_PIPEW) env_pipes[f->pipe].wopen++;
	return b;
}
int env_fdpipe(int fd) { return fd >= 0 && fd < NFD && fds[fd].used && (fds[fd].kind == FD_PIPER || fds[fd].kind == FD_PIPEW) ? fds[fd].pipe : -1; }
void env_pipe_put(int k, const void *b, size_t n) { pipe_put(&env_pipes[k], b, n); }
size_t env_stdin_left(void) { return std_in.len - std_in.pos; }
int env_execlp(const char *f, const char *a, ...) {
	const char *v[16]; int n = 0; va_list ap; v[n++] = f; v[n++] = a; va_start(ap, a);
	while (n < 16 && (v[n] = va_arg(ap, const char *)) != NULL) n++;
	va_end(ap);
	if (env_exec_hook) env_exec_hook(v);
	return -1; }
int env_execvp(const char *f, char *const *a) { (void)f; (void)a; return -1; }
int env_poll(struct pollfd *p, nfds_t n, int t) {
	int r = 0; (void)t;
	if (env_poll_hook) return env_poll_hook(p, n);
	for (nfds_t i = 0; i < n; i++) {
		p[i].revents = 0; struct fd *f = fdp(p[i].fd);
		if (p[i].fd < 0) continue;
		if (p[i].events & POLLIN) {
			if (f && f->kind == FD_STDIN) p[i].revents |= std_in.pos < std_in.len ? POLLIN : POLLHUP;
			else if (f && f->kind == FD_PIPER) p[i].revents |= env_pipes[f->pipe].pos < env_pipes[f->pipe].len ? POLLIN : POLLHUP;
			else if (f && f->kind == FD_FILE) p[i].revents |= POLLIN;
		}
		if ((p[i].events & POLLOUT) && f) p[i].revents |= POLLOUT;
		if (p[i].revents) r++;
	}
	return r;
}

/* ---- control ---- */
void env_init(void) {
	std_fds();
	f_in.fd = 0; f_out.fd = 1; f_err.fd = 2;
	env_stdin = FP(&f_in); env_stdout = FP(&f_out); env_stderr = FP(&f_err);
	env_mkdirp("/");
}
/* another process runs while this one waits */
static struct saved { struct fd fds[NFD]; EF *opens[24]; EF in, out, err; struct env_pipe sin; char *o, *e; size_t on, oc, en, ec; int pid, npipe; struct env_pipe pipes[NPIPE]; } saved[2]; static int nsaved;
void env_proc_push(void) {
	struct saved *v = &saved[nsaved++]; memcpy(v->fds, fds, sizeof fds); memcpy(v->opens, opens, sizeof opens); v->in = f_in; v->out = f_out; v->err = f_err; v->sin = std_in;
	v->o = cap_out; v->e = cap_err; v->on = cap_on; v->oc = cap_oc; v->en = cap_en; v->ec = cap_ec; v->pid = env_pid; memcpy(v->pipes, env_pipes, sizeof env_pipes); v->npipe = env_npipe; memset(env_pipes, 0, sizeof env_pipes); env_npipe = 0;
	memset(opens, 0, sizeof opens); for (int i = 3; i < NFD; i++) fds[i].used = 0;
	std_fds(); memset(&std_in, 0, sizeof std_in); cap_out = cap_err = NULL; cap_on = cap_oc = cap_en = cap_ec = 0; env_pid += 1000;
	sym_process(1); env_install_vas();
}
void env_proc_pop(void) {
	struct saved *v = &saved[--nsaved]; memcpy(fds, v->fds, sizeof fds); memcpy(opens, v->opens, sizeof opens); f_in = v->in; f_out = v->out; f_err = v->err; std_in = v->sin;
	free(cap_out); free(cap_err); cap_out = v->o; cap_err = v->e; cap_on = v->on; cap_oc = v->oc; cap_en = v->en; cap_ec = v->ec; env_pid = v->pid; for (int i = 0; i < env_npipe; i++) free(env_pipes[i].d); memcpy(env_pipes, v->pipes, sizeof env_pipes); env_npipe = v->npipe;
	sym_process(2);
}
/* the other process goes on, and this one waits */
void env_proc_switch(void) {
	static struct saved t; struct saved *v = &saved[nsaved - 1];
	memcpy(t.fds, fds, sizeof fds); memcpy(t.opens, opens, sizeof opens); t.in = f_in; t.out = f_out; t.err = f_err; t.sin = std_in; t.o = cap_out; t.e = cap_err; t.on = cap_on; t.oc = cap_oc; t.en = cap_en; t.ec = cap_ec; t.pid = env_pid; memcpy(t.pipes, env_pipes, sizeof env_pipes); t.npipe = env_npipe;
	memcpy(fds, v->fds, sizeof fds); memcpy(opens, v->opens, sizeof opens); f_in = v->in; f_out = v->out; f_err = v->err; std_in = v->sin;
	cap_out = v->o; cap_err = v->e; cap_on = v->on; cap_oc = v->oc; cap_en = v->en; cap_ec = v->ec; env_pid = v->pid; memcpy(env_pipes, v->pipes, sizeof env_pipes); env_npipe = v->npipe;
	memcpy(v, &t, sizeof t);
	sym_process(3);
}
const char *env_out(size_t *n) { if (n) *n = cap_on; return cap_out ? cap_out : ""; }
const char *env_errtxt(size_t *n) { if (n) *n = cap_en; return cap_err ? cap_err : ""; }
void env_clear_out(void) { cap_on = cap_en = 0; if (cap_out) cap_out[0] = 0; if (cap_err) cap_err[0] = 0; }
void env_set_stdin(const void *p, size_t n) { std_in.len = std_in.pos = 0; pipe_put(&std_in, p, n); }
/* not used by the program today */
int env_getc(FILE *fp) { return env_fgetc(fp); }
ssize_t env_getdelim(char **lp, size_t *np, int dl, FILE *fp) {
	size_t i = 0; for (;;) { int c = env_fgetc(fp); if (c == EOF) break; if (i + 2 > *np || !*lp) { size_t k = *np ? *np * 2 : 128; char *q = malloc(k); if (i) memcpy(q, *lp, i); free(*lp); *lp = q; *np = k; } (*lp)[i++] = (char)c; if (c == dl) break; }
	if (!i) return -1; (*lp)[i] = 0; return (ssize_t)i; }
int env_dup(int fd) { struct fd *f = fdp(fd); if (!f) return -1; for (int i = 0; i < NFD; i++) if (!fds[i].used) { env_dup2(fd, i); return i; } errno = EMFILE; return -1; }
int env_truncate_(const char *p, off_t n) { int fd = env_vopen(p, O_WRONLY, 0); if (fd < 0) return -1; int r = env_ftruncate(fd, n); env_close(fd); return r; }
ssize_t env_readv(int fd, const struct iovec *v, int k) { ssize_t t = 0; for (int i = 0; i < k; i++) { ssize_t r = env_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int env_vdprintf(int fd, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); char t[1]; int n = vsnprintf(t, 1, f, a2); va_end(a2); char *b = malloc((size_t)n + 1); vsnprintf(b, (size_t)n + 1, f, ap); n = (int)env_write(fd, b, (size_t)n); free(b); return n; }
int env_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = env_vdprintf(fd, f, ap); va_end(ap); return r; }
int env_isatty(int fd) { (void)fd; return 0; }
int env_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = env_time; tv->tv_usec = 0; return 0; }
int env_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = env_time; ts->tv_nsec = 0; return 0; }
#ifndef ENV_ENGINE
int env_fputs_unlocked(const char *s, FILE *fp) { return env_fputs(s, fp); }
void env__exit(int c) { sym_throw(THROW_EXIT + (c & 0xff)); }
void env_abort(void) { sym_throw(THROW_ABORT); }
void env_exit(int c) { sym_throw(THROW_EXIT + (c & 0xff)); }
#endif
