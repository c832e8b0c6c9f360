/* The simulated operating system for code whose library symbols are redirected to sim_*. */
#ifndef DST_OS_H
#define DST_OS_H 1
#include "core.h"
#include <setjmp.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <termios.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct os_cfg {
    int io;             /* system calls may fail */
    int alloc;          /* allocations may fail */
    int shortio;        /* short reads and writes, EINTR */
    int entropy;        /* entropy may fail */
    int clockf;         /* the clock call may fail */
    int crash;          /* machine crashes at system calls (os_crash_jmp is taken) */
    int fd_base;        /* lowest descriptor handed out (default 100) */
    int root;           /* permission bits are not checked */
    int full;           /* the disk may be full when a hole of a mapped file is stored to */
} os_cfg_t;
extern os_cfg_t os_cfg;
extern jmp_buf os_crash_jmp;
extern void (*os_hook)(const char *call);      /* called before every simulated system call (concurrent activity) */
extern void (*os_entropy)(void *p, size_t n);  /* where entropy comes from (default: counter keyed PRNG) */
extern void (*os_exit_hook)(int code, int quick);
extern void (*os_abort_hook)(void);
extern int  (*os_fork_hook)(void);
extern unsigned os_steps;                      /* simulated system calls so far */

void os_reset(void);                           /* a new machine with an empty file system; one process, cwd "/" */
/* ---- fault bookkeeping ---- */
int  os_fault(const char *kind);               /* fault(kind), counted per run */
unsigned os_fired(const char *kind);           /* how often in this run ("" = any) */

/* ---- direct access for harnesses (no faults, no descriptors) ---- */
enum { OS_NONE, OS_REG, OS_DIR, OS_LNK, OS_CHR, OS_FIFO };
int    os_type(const char *path);              /* without following the last link */
int    os_mkdir(const char *path, int mode);   /* parents too */
int    os_put(const char *path, const void *d, size_t n, int mode);
void  *os_sparse(const char *path, size_t n);
void  *os_sparse_cut(const char *path, size_t n);     /* such a file becomes shorter */
long   os_get(const char *path, void *buf, size_t cap);   /* size, or -1 */
const void *os_content(const char *path, size_t *n);
void   os_mount(const char *path);             /* the (empty) directory becomes a file system of its own */
int    os_symlink(const char *target, const char *path);
int    os_mknod(const char *path, int type, int dev);
int    os_rm(const char *path);                /* file or whole tree */
int    os_mv(const char *from, const char *to);
int    os_chmod(const char *path, int mode);
int    os_lstat(const char *path, struct stat *st);
int    os_at_cwd(const char *path, int follow, struct stat *st);   /* relative to the working directory of the process */
unsigned os_list_at_cwd(const char *path, char names[][256], unsigned max);
uint64_t os_ino(const char *path);
unsigned os_list(const char *dir, char names[][256], unsigned max);
void   os_walk(const char *dir, void (*fn)(void *ctx, const char *path, int type), void *ctx);
const char *os_cwd(void);                      /* path of the working directory, or "?" if detached */
uint64_t os_cwd_ino(void);
int    os_umask_now(void);
uint64_t os_tree_hash(const char *dir);
/* ---- resources of the process ---- */
unsigned os_open_fds(void);
int      os_fd_path(int fd, char *buf, size_t n);   /* 0 if open */
int      os_fd_isopen(int fd);
uint64_t os_fd_ino(int fd);
int      os_fd_flags(int fd);
int      os_fd_open(const char *path, int flags);   /* harness opens a descriptor in the process (no faults) */
void     os_fd_set(int fd, const char *path, int flags);
unsigned os_live_maps(void);
unsigned os_live_files(void);                  /* FILE objects open */
size_t   os_heap_live(void);
void     os_heap_forget(void);                 /* crash: drop everything the process held */
int      os_heap_owns(const void *p);
size_t   os_heap_size(const void *p);
size_t   os_heap_total(void);                  /* live bytes */
void     os_free(void *p);                     /* the harness releases a block the code under test returned */
void    *os_malloc(size_t n);                  /* an accounted block */
/* ---- crash model ---- */
void os_durable_point(void);                   /* everything so far is on disk */
void os_crash_now(void);                       /* longjmp(os_crash_jmp, 1) */
void os_crash_apply(void);                     /* choose a legal surviving state; process state is gone */
unsigned os_journal_len(void);
/* ---- entropy, clock, processes ---- */
extern uint64_t os_now_ns, os_now_sec;         /* realtime clock: os_now_sec seconds + os_now_ns nanoseconds */
extern int os_pid, os_sid, os_pgid;               /* process, session, process group */
extern uint64_t os_entropy_calls, os_entropy_bytes;
extern uintptr_t os_lock_lo, os_lock_hi; extern int os_lock_op;   /* the last mlock (1) or munlock (2), rounded to pages */
void os_low_fds(void);                         /* in some runs the program was started without descriptors 0, 1 and 2 */
/* ---- C++ (sim/cxx.cpp) ---- */
extern int os_cxx_on;                          /* operator new allocates from the simulated heap */
/* ---- terminal ---- */
typedef struct os_tty {
    struct termios tio; int get_fail, set_fail, cols, rows, winsz_fail;
    long (*read)(void *buf, size_t n); long (*write)(const void *buf, size_t n);
    unsigned nset;
} os_tty_t;
extern os_tty_t os_tty;
extern FILE *sim_stdin, *sim_stdout, *sim_stderr;
FILE *os_fdopen(int fd, const char *mode);
#ifdef __cplusplus
}
#endif
#endif
