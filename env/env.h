/* Modelled environment: in-memory file system, stdio, processes, clock; zlib and SHA-256 models. */
#ifndef ENV_H
#define ENV_H
#include <sys/types.h>
#include <stdint.h>
#include <stddef.h>
#include "sym.h"

/* --- control knobs --- */
extern uint64_t env_mut;		/* number of file system mutations so far */
extern uint64_t env_crash_at;		/* throw THROW_CRASH instead of performing this one (~0: never) */
extern int env_crash_armed;
extern int env_pagesize;
extern long env_time;
extern int env_pid;
extern int env_z_rle;			/* deflate model compresses runs of one byte */
extern int env_z_stored;		/* level 0 semantics for the stop bit (01 00 00 ff ff) */
extern uint64_t env_ops;		/* file system calls so far (any kind) */
extern uint64_t env_hook_at;		/* run env_hook before this call (~0: never) */
extern int env_hook_armed;
extern void (*env_hook)(void);
extern int env_maxfd;			/* no more files than this can be open (0: no limit) */
extern int env_root;				/* the modes of files do not hinder opening them */
extern int env_fail_open_at, env_nopen;	/* make the n-th open() fail with EMFILE (-1: never) */
extern int env_short_read_at, env_nread;	/* make the n-th read() short (-1: never) */
extern uint64_t env_fault_at, env_nfault; extern int env_fault_armed, env_fault_half; extern const char *env_fault_what;	/* the n-th file operation fails */
extern long env_stdin_err;		/* reading standard input fails after that many bytes (-1: never) */
extern int env_atomic;			/* interrupted writes end at a multiple of this file position */
extern int env_torn_append;		/* an interrupted append left a part of what was to be written */
extern int env_tear;			/* a crashing write leaves a prefix of this many bytes (0: nothing) */

/* --- state inspection and direct manipulation (harness side) --- */
void env_init(void);
void env_mkfile(const char *path, const void *p, size_t n);
void env_mkdirp(const char *path);
int env_exists(const char *path);
void env_hole(const char *path, size_t at, size_t n);	/* n zero bytes at `at`, not in env_data() */
size_t env_size(const char *path);	/* with the hole; must exist */
uint8_t *env_data(const char *path, size_t *n);	/* NULL if absent; live pointer */
void env_truncate(const char *path, size_t n);
void env_remove(const char *path);
void env_chmod(const char *path, unsigned mode);
int env_nfiles(void);
const char *env_fname(int i);		/* NULL if the slot is unused */
int env_nopenfds(void);
void env_end_streams(int flush);	/* stdio at program end */
void env_reset_fds(void);		/* as when a process ends */
void env_proc_push(void); void env_proc_pop(void);
void env_proc_switch(void);
extern int env_hook_shared;	/* hook only before calls about files under /s */	/* run something else in between, as another process */
/* captured output */
const char *env_out(size_t *n);		/* standard output */
const char *env_errtxt(size_t *n);	/* standard error */
void env_clear_out(void);
void env_set_stdin(const void *p, size_t n);
void env_setenv(const char *k, const char *v);
void env_clearenv(void);
/* pipes/processes */
struct env_proc { const char *in; size_t in_len; int status; };
extern int env_fork_ret;		/* next fork() return value in the parent */
int env_mkpipe_in(const void *p, size_t n);	/* readable fd delivering these bytes */
int env_mkfd_out(void);			/* writable fd capturing bytes */
const uint8_t *env_fd_out(int fd, size_t *n);
extern size_t env_read_max;		/* upper bound on what one read() from a pipe/stdin returns (0: none) */
extern int env_wait_status;
extern int (*env_fork_hook)(void);	/* called by fork(); returns pid */
extern int env_npipe;
struct env_pipe { uint8_t *d; size_t len, cap, pos; int wopen, ropen, broken; };	/* broken: nobody reads it any more */
#define NPIPE 64
extern struct env_pipe env_pipes[NPIPE];
struct pollfd;
extern void (*env_block_hook)(int pipe);	/* a read would wait for ever for this process alone */
extern int (*env_poll_hook)(struct pollfd *, unsigned long);
extern int (*env_wait_hook)(int pid, int *status);
extern void (*env_exec_hook)(const char **args);
int env_fdpipe(int fd);			/* the pipe behind a descriptor, -1: none */
void env_pipe_put(int pipe, const void *b, size_t n);
size_t env_stdin_left(void);
/* last assertion failure of the code under test */
extern const char *env_fail_func; extern int env_fail_line; extern const char *env_fail_cond;
void env_install_vas(void);
/* run fn(arg): 0, or the code thrown */
/* sha / crc */
void env_sha_reset(void);
void env_sha_hex(const void *p, size_t n, char *out65);	/* digest of content as the model assigns it */
/* choose the digest tokens: token number i gets these leading hex digits */
void env_sha_set_prefix(int tokno, const char *hex);
int env_sha_ntokens(void);
/* model of a standards-conforming gzip reader: 1 ok, 0 corrupt; *outp malloc'ed */
int env_gunzip(const uint8_t *p, size_t n, uint8_t **outp, size_t *outn, size_t *used);
#endif
