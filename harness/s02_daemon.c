/* S02: becoming a daemon.  A fork is followed into one of its two processes; the three processes that can result are
   three executions from the same initial state, each checked against the state it must be in. */
#include "os.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include "utils/daemon.h"
static int view, nfork, failat; static jmp_buf out; static int exitcode, sid1, pid1, sid2;
static uint64_t at_fork[3];
static uint64_t state(void) { char b[512]; uint64_t h = mix64((uint64_t)os_cwd_ino(), (uint64_t)os_umask_now()); for (int f = 0; f < 40; f++) h = mix64(h, os_fd_isopen(f) ? os_fd_ino(f) * 8 + (unsigned)(os_fd_flags(f) & 3) + 4 : 0); (void)b; return h; }
static int do_fork(void)
{
    int k = nfork++; CHECK(k < 2, "fork", "a third process is created"); at_fork[k] = state();
    if (failat == k) { fault_note("fork"); errno = ch(2) ? EAGAIN : ENOMEM; ev("fork %d fails", k); return -1; }
    int child = 5000 + k * 7 + (int)ch(5); if (view == k) { ev("fork %d: parent", k); return child; }
    os_pid = child; ev("fork %d: child %d", k, child); if (view == 2 && k == 1) { sid2 = os_sid; os_cfg.io = (int)ch(2); } return 0;
}
static void do_exit(int c, int quick) { (void)quick; exitcode = c; ev("exit %d", c); longjmp(out, 1); }
static void setup(unsigned fds, unsigned extra, int nulldev, unsigned dirs, int um)
{
    os_reset(); os_cfg.fd_base = 0; os_cfg.root = 1; os_mkdir("/dev", 0755); if (nulldev) os_mknod("/dev/null", OS_CHR, 0x103); os_put("/dev/log", "", 0, 0600); os_mkdir("/var", 0755); os_mkdir("/home/u", 0755);
    if (dirs & 1) os_mkdir("/tmp", 0777); if (dirs & 2) os_mkdir("/var/run/d", 0755); os_put("/var/file", "x", 1, 0644); os_symlink("run/d", "/var/ln"); os_mkdir("/home/u/rel", 0755);
    extern int sim_chdir(const char *); sim_chdir("/home/u"); extern mode_t sim_umask(mode_t); sim_umask((mode_t)um);
    for (int f = 0; f < 3; f++) if (fds & (1u << f)) os_fd_set(f, f ? "/dev/log" : "/var/file", f ? O_WRONLY : O_RDONLY);
    for (int f = 3; f < 12; f++) if (extra & (1u << f)) os_fd_set(f, f & 1 ? "/var/file" : "/dev/log", f & 1 ? O_RDONLY : O_RDWR);
    os_fork_hook = do_fork; os_exit_hook = do_exit;
}
static void run(void)
{
    static const char *dirv[] = { 0, "/", "/tmp", "/var/run/d", "rel", "/var/ln", "/var/file", "/nowhere", "." };
    unsigned fds = ch(3) ? 7 : ch(8), extra = ch(2) ? 0 : ch(4096); int nulldev = ch(10) != 9, um = (int)ch(512); unsigned dirs = ch(5) ? 3 : ch(4), d = ch(9); const char *pwd = dirv[d];
    view = (int)ch(5); if (view > 2) view = 2; failat = ch(5) == 4 ? (int)ch(2) : -1; nfork = 0; exitcode = -1;
    setup(fds, extra, nulldev, dirs, um); uint64_t before = state(); unsigned nfd = os_open_fds(); size_t base = os_heap_live(); int old = os_pid, oldsid = os_sid; volatile int r = 0, left = 0;
    if (ch(3) == 2) { os_pgid = 4000; os_sid = 4000; oldsid = 4000; }
    ev("view %d fail %d dir %s fds %u extra %x", view, failat, pwd ? pwd : "(default)", fds, extra);
    if (!setjmp(out)) { r = daemonize(pwd); } else left = 1;
    os_cfg.io = 0; os_exit_hook = 0; os_fork_hook = 0; evq(9, (uint64_t)(int64_t)r, (uint64_t)left);
    const char *what = view == 0 ? "the original process" : view == 1 ? "the intermediate process" : "the daemon";
    if (failat == 0 || (failat == 1 && view >= 1)) {
        CHECK(!left, "fork-failure-exit", "the process ended with status %d though a process could not be created", exitcode); CHECK(r < 0, "unreported", "a process could not be created and %d is returned", r);
        CHECK(r == -EAGAIN || r == -ENOMEM, "code", "result %d", r);
        if (failat == 0) CHECK(state() == before && os_pid == old && os_sid == oldsid, "changed", "creating the first process failed, yet the caller's process is changed");
    } else if (view == 0) {
        CHECK(left && nfork == 1, "parent-continues", "the original process continues with result %d", r); CHECK(exitcode == 0, "status", "the original process ends with status %d", exitcode);
    } else if (view == 1) {
        CHECK(left && nfork == 2, "child-continues", "the intermediate process continues with result %d", r); CHECK(exitcode == 0, "status", "the intermediate process ends with status %d", exitcode);
    } else {
        CHECK(!left, "daemon-exits", "the daemon ended with status %d", exitcode); CHECK(nfork == 2, "forks", "the caller continues after %d forks", nfork);
        CHECK(os_sid != oldsid, "session", "the daemon is still in the session of the original process"); CHECK(os_sid != os_pid && sid2 == os_sid, "session", "the daemon leads its session");
        int dirok = d == 0 || d == 2 ? dirs & 1 : d == 3 || d == 5 ? dirs & 2 : d != 6 && d != 7; const char *full[] = { "/tmp", "/", "/tmp", "/var/run/d", "/home/u/rel", "/var/run/d", 0, 0, "/home/u" };
        if (r != 0) CHECK(r < 0 && (!dirok || !nulldev || os_fired("")), "spurious-failure", "result %d without cause", r);
        else {
            CHECK(dirok && os_cwd_ino() == os_ino(full[d]), "directory", "the working directory is %s, not %s", os_cwd(), pwd ? pwd : "/tmp");
            for (int f = 0; f < 3; f++) { CHECK(os_fd_isopen(f) && nulldev && os_fd_ino(f) == os_ino("/dev/null"), "descriptor", "descriptor %d is not on the null device", f); int m = os_fd_flags(f) & O_ACCMODE; CHECK(m == O_RDWR || m == (f ? O_WRONLY : O_RDONLY), "descriptor", "descriptor %d cannot be used (mode %d)", f, m); }
            unsigned want = nfd + 3 - (unsigned)__builtin_popcount(fds); if (!os_fired("close")) CHECK(os_open_fds() == want, "leak", "%u descriptors open instead of %u", os_open_fds(), want);
            CHECK(os_umask_now() == 022, "umask", "umask is %o", os_umask_now());
        }
        for (int f = 3; f < 12; f++) if (extra & (1u << f)) CHECK(os_fd_isopen(f) && os_fd_ino(f) == os_ino(f & 1 ? "/var/file" : "/dev/log"), "descriptor", "descriptor %d of the caller was closed or replaced", f);
        for (int f = 3; f < 40; f++) if (f >= 12 || !(extra & (1u << f))) CHECK(!os_fd_isopen(f), "leak", "descriptor %d is left open (result %d)", f, r);
    }
    if (view < 2 || failat >= 0) CHECK(os_open_fds() <= nfd + 3, "leak", "%u descriptors open", os_open_fds());
    CHECK(os_heap_live() == base, "leak", "%ld blocks left", (long)os_heap_live() - (long)base); (void)pid1; (void)sid1; (void)what; (void)at_fork;
    tally(view == 0 ? "original" : view == 1 ? "intermediate" : "daemon", 1); run_nontrivial(); cover(mix64(mix64(fds, extra), mix64((uint64_t)view * 64 + d, (uint64_t)(int64_t)r) ^ state())); sample("%s, directory %s, descriptors %x: %s %d", what, pwd ? pwd : "default", fds | extra, left ? "exit" : "result", left ? exitcode : r);
}
const dst_harness harness = { .property = "S02", .name = "daemon", .run = run,
  .rule = "one run = one of the three processes that daemonizing creates, followed through both forks, from any initial set of descriptors, session, umask and any requested directory (default, relative, link, missing, not a directory), with failing process creation, directory change, open and dup and a missing null device; every run is non-trivial; distinct by the hash of the whole event log" };
