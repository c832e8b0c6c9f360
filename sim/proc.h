/* Simulated processes on top of the simulated threads: one address space, whose statics and thread-locals
   are exchanged when another process runs.  For code compiled with -femulated-tls. */
#ifndef DST_PROC_H
#define DST_PROC_H 1
#include "csim.h"
#include <sys/types.h>
#define PR_MAX 12
#define PR_LT  10                /* logical threads per process */
void  pr_reset(void);            /* one process, pid 1000, with logical thread 0 */
int   pr_fork(int lt, int raw, pid_t pid);   /* copy of the running process made by its thread lt; raw: fork handlers are not run; returns the process number */
void  pr_switch(int p);          /* no thread of the current process may be running */
int   pr_cur(void);
pid_t pr_pid(int p);
void  pr_thread(int lt, int fresh);    /* the calling simulated thread is logical thread lt; fresh: a new one (its destructors of an earlier one have run) */
int   pr_lt(void);
extern int (*pr_entropy)(void *, size_t);    /* the system's random source: 0, or -1 with errno */
extern void (*pr_die)(const char *how);      /* the code ends the process; returns only if that is a violation */
#endif
