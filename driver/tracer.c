/* Runs one server process under ptrace and lets a controller (the Python
 * driver, on stdin/stdout of this program) decide when each of its
 * file-system calls happens, whether it fails, and when the process dies.
 *
 *   tracer ROOT UID GID INFD OUTFD ERRFD STARTUP PROG ARGS...
 *
 * ROOT is the directory below which calls are stopped at.  A stop is reported
 * before the call is carried out, as
 *     S <ret> <name> <fd|-> <flags> <path1|-> <path2|->
 * where <ret> is the result of the call the process was last stopped at (or
 * "-").  Paths are absolute and percent-encoded.  Calls with a path outside
 * ROOT are not stopped at but reported as
 *     A <name> <flags> <path1> <path2|->
 * A read of standard input is reported as a stop of the name "stdin".
 * Nothing is reported before the first read of standard input, unless STARTUP
 * is 1.  Commands: g (go on), e N (fail with errno N), p N (carry out only N
 * bytes), k (kill).  The end of the process is reported as X <code> or
 * X -<signal>.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

/* kinds: p1 = path in arg0; at = dirfd arg0, path arg1; pp = arg0, arg1;
 * atat = arg0/arg1, arg2/arg3; fd = fd in arg0; cp = fds in 0 and 2;
 * sf = sendfile out=0,in=1; lat = path arg0, dirfd arg1, path arg2 (symlinkat) */
enum { P1, AT, PP, ATAT, FD, CP, SF, SYAT };
struct call { long nr; const char *name; int kind; int flagarg; };
static const struct call calls[] = {
    {SYS_open, "open", P1, 1}, {SYS_openat, "open", AT, 2},
#ifdef SYS_openat2
    {SYS_openat2, "open", AT, -2},
#endif
    {SYS_creat, "creat", P1, -1},
    {SYS_rename, "rename", PP, -1}, {SYS_renameat, "rename", ATAT, -1}, {SYS_renameat2, "rename", ATAT, 4},
    {SYS_link, "link", PP, -1}, {SYS_linkat, "link", ATAT, 4},
    {SYS_unlink, "unlink", P1, -1}, {SYS_unlinkat, "unlink", AT, 2},
    {SYS_rmdir, "rmdir", P1, -1},
    {SYS_mkdir, "mkdir", P1, 1}, {SYS_mkdirat, "mkdir", AT, 2},
    {SYS_symlink, "symlink", PP, -1}, {SYS_symlinkat, "symlink", SYAT, -1},
    {SYS_chmod, "chmod", P1, 1}, {SYS_fchmodat, "chmod", AT, 2}, {SYS_fchmod, "fchmod", FD, 1},
#ifdef SYS_fchmodat2
    {SYS_fchmodat2, "chmod", AT, 2},
#endif
    {SYS_chown, "chown", P1, 1}, {SYS_lchown, "chown", P1, 1}, {SYS_fchown, "fchown", FD, 1}, {SYS_fchownat, "chown", AT, 2},
    {SYS_truncate, "truncate", P1, 1}, {SYS_ftruncate, "ftruncate", FD, 1},
    {SYS_stat, "stat", P1, -1}, {SYS_lstat, "stat", P1, -1}, {SYS_newfstatat, "stat", AT, 3}, {SYS_statx, "stat", AT, 2},
    {SYS_access, "access", P1, 1}, {SYS_faccessat, "access", AT, 2},
#ifdef SYS_faccessat2
    {SYS_faccessat2, "access", AT, 2},
#endif
    {SYS_readlink, "readlink", P1, -1}, {SYS_readlinkat, "readlink", AT, -1},
    {SYS_utimensat, "utimens", AT, -1}, {SYS_mknod, "mknod", P1, 1}, {SYS_mknodat, "mknod", AT, 2},
    {SYS_getdents64, "getdents", FD, -1}, {SYS_getdents, "getdents", FD, -1},
    {SYS_read, "read", FD, 2}, {SYS_pread64, "read", FD, 2}, {SYS_readv, "read", FD, -1}, {SYS_preadv, "read", FD, -1},
    {SYS_write, "write", FD, 2}, {SYS_pwrite64, "write", FD, 2}, {SYS_writev, "write", FD, -1}, {SYS_pwritev, "write", FD, -1},
    {SYS_copy_file_range, "copy", CP, 4}, {SYS_sendfile, "sendfile", SF, 3}, {SYS_splice, "copy", CP, 4},
    {SYS_fallocate, "fallocate", FD, -1}, {SYS_fsync, "fsync", FD, -1}, {SYS_fdatasync, "fsync", FD, -1},
    {SYS_flock, "flock", FD, 1},
    {SYS_chdir, "chdir", P1, -1},
    {SYS_dup, "dup", FD, -1}, {SYS_dup2, "dup", FD, -1}, {SYS_dup3, "dup", FD, -1}, {SYS_fcntl, "fcntl", FD, 1},
    {SYS_close, "close", FD, -1},
};
#define NCALLS (sizeof calls / sizeof *calls)
#define MAXFD 1024

static char *fds[MAXFD];
static pid_t child;
static char root[PATH_MAX];
static size_t rootlen;
static char cwd[PATH_MAX];

static void die(const char *m)
{
    fprintf(stderr, "tracer: %s: %s\n", m, strerror(errno));
    if (child > 0) kill(child, SIGKILL);
    exit(99);
}

static void install_filter(void)
{
    static struct sock_filter f[4 + 2 * NCALLS + 2];
    unsigned n = 0;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (unsigned i = 0; i < NCALLS; i++) {
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i].nr, 0, 1);
        f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    }
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog prog = {n, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) _exit(98);
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) _exit(97);
}

static int read_str(unsigned long addr, char *buf, size_t max)
{
    size_t got = 0;
    buf[0] = 0;
    if (!addr) return -1;
    while (got < max - 1) {
        size_t chunk = 4096 - (addr + got) % 4096;
        if (chunk > max - 1 - got) chunk = max - 1 - got;
        struct iovec l = {buf + got, chunk}, r = {(void *)(addr + got), chunk};
        ssize_t n = process_vm_readv(child, &l, 1, &r, 1, 0);
        if (n <= 0) {
            /* without access through process_vm_readv, go word by word */
            for (;;) {
                errno = 0;
                long w = ptrace(PTRACE_PEEKDATA, child, addr + got, 0);
                if (errno) return -1;
                for (unsigned i = 0; i < sizeof w && got < max - 1; i++) {
                    buf[got] = ((char *)&w)[i];
                    if (!buf[got]) return 0;
                    got++;
                }
                if (got >= max - 1) { buf[got] = 0; return 0; }
            }
        }
        char *z = memchr(buf + got, 0, n);
        if (z) return 0;
        got += n;
    }
    buf[got] = 0;
    return 0;
}

/* Makes an absolute path without . and .. components (symbolic links are not followed). */
static void absolute(const char *base, const char *p, char *out)
{
    static char tmp[2 * PATH_MAX + 2];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else snprintf(tmp, sizeof tmp, "%s/%s", base ? base : "/", p);
    size_t n = 0;
    char *save = 0;
    out[0] = 0;
    for (char *c = strtok_r(tmp, "/", &save); c; c = strtok_r(0, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) {
            while (n > 0 && out[n - 1] != '/') n--;
            if (n > 0) n--;
            out[n] = 0;
            continue;
        }
        size_t l = strlen(c);
        if (n + l + 2 >= PATH_MAX) break;
        out[n++] = '/';
        memcpy(out + n, c, l + 1);
        n += l;
    }
    if (!n) strcpy(out, "/");
}

static int inroot(const char *p)
{
    return p && !strncmp(p, root, rootlen) && (p[rootlen] == 0 || p[rootlen] == '/');
}

static void enc(const char *p)
{
    if (!p || !*p) { putchar('-'); return; }
    for (; *p; p++) {
        unsigned char c = *p;
        if (c <= 32 || c == '%' || c >= 127) printf("%%%02x", c);
        else putchar(c);
    }
}

static void setfd(long fd, const char *path)
{
    if (fd < 0 || fd >= MAXFD) return;
    free(fds[fd]);
    fds[fd] = path ? strdup(path) : 0;
}

static int finished(int st)
{
    if (WIFEXITED(st)) { printf("X %d\n", WEXITSTATUS(st)); fflush(stdout); return 1; }
    if (WIFSIGNALED(st)) { printf("X -%d\n", WTERMSIG(st)); fflush(stdout); return 1; }
    return 0;
}

/* Waits for an event of the main process; anything of its children goes on by itself. */
static int wait_main(void)
{
    int st;
    for (;;) {
        pid_t p = waitpid(-1, &st, __WALL);
        if (p < 0) die("waitpid");
        if (p == child) return st;
        if (WIFSTOPPED(st)) {
            int sig = WSTOPSIG(st);
            ptrace(PTRACE_CONT, p, 0, (st >> 16) || sig == SIGTRAP || sig == SIGSTOP ? 0 : sig);
        }
    }
}

int main(int argc, char **argv)
{
    if (argc < 9) return 99;
    snprintf(root, sizeof root, "%s", argv[1]);
    rootlen = strlen(root);
    uid_t uid = atoi(argv[2]);
    gid_t gid = atoi(argv[3]);
    int in = atoi(argv[4]), out = atoi(argv[5]), err = atoi(argv[6]);
    int armed = atoi(argv[7]);
    if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "/");
    child = fork();
    if (child < 0) die("fork");
    if (child == 0) {
        /* the standard descriptors of the tracer are the control channel */
        int a = fcntl(in, F_DUPFD, 500), b = fcntl(out, F_DUPFD, 500), c = fcntl(err, F_DUPFD, 500);
        dup2(a, 0); dup2(b, 1); dup2(c, 2);
        for (int i = 3; i < 600; i++) close(i);
        signal(SIGPIPE, SIG_DFL);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(96);
        raise(SIGSTOP);
        if (getuid() == 0 && uid != 0) {
            if (setgroups(0, 0) || setresgid(gid, gid, gid) || setresuid(uid, uid, uid)) _exit(95);
        }
        install_filter();
        execv(argv[8], argv + 8);
        _exit(94);
    }
    close(in); close(out); close(err);
    int st;
    if (waitpid(child, &st, 0) != child || !WIFSTOPPED(st)) die("start");
    if (ptrace(PTRACE_SETOPTIONS, child, 0,
               PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE |
                   PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK))
        die("setoptions");
    if (ptrace(PTRACE_CONT, child, 0, 0)) die("cont");
    char lastret[32] = "-";
    static char p1[PATH_MAX], p2[PATH_MAX], raw[PATH_MAX];
    for (;;) {
        st = wait_main();
        if (finished(st)) return 0;
        if (!WIFSTOPPED(st)) continue;
        int sig = WSTOPSIG(st), ev = st >> 16;
        if (ev != PTRACE_EVENT_SECCOMP) {
            if (ev || sig == SIGTRAP || sig == (SIGTRAP | 0x80)) sig = 0;
            ptrace(PTRACE_CONT, child, 0, sig);
            continue;
        }
        struct user_regs_struct r;
        if (ptrace(PTRACE_GETREGS, child, 0, &r)) { if (errno == ESRCH) continue; die("getregs"); }
        unsigned long a[6] = {r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9};
        const struct call *c = 0;
        for (unsigned i = 0; i < NCALLS; i++)
            if (calls[i].nr == (long)r.orig_rax) c = &calls[i];
        if (!c) { ptrace(PTRACE_CONT, child, 0, 0); continue; }
        p1[0] = p2[0] = 0;
        int fd = -1, stop = 0, outside = 0, path = 1;
        long flags = c->flagarg >= 0 ? (long)a[c->flagarg] : 0;
        switch (c->kind) {
        case P1:
            if (!read_str(a[0], raw, sizeof raw)) absolute(cwd, raw, p1);
            break;
        case AT:
            if (c->flagarg == -2) { /* openat2: struct open_how */
                errno = 0;
                flags = ptrace(PTRACE_PEEKDATA, child, a[2], 0);
            }
            if (a[1] == 0 || read_str(a[1], raw, sizeof raw)) raw[0] = 0;
            if (raw[0] == 0) { /* the descriptor itself */
                path = 0;
                fd = (int)a[0];
                break;
            }
            absolute((int)a[0] == AT_FDCWD ? cwd : (a[0] < MAXFD ? fds[a[0]] : 0), raw, p1);
            break;
        case PP:
            if (!read_str(a[0], raw, sizeof raw)) absolute(cwd, raw, p1);
            if (!read_str(a[1], raw, sizeof raw)) absolute(cwd, raw, p2);
            break;
        case ATAT:
            if (!read_str(a[1], raw, sizeof raw))
                absolute((int)a[0] == AT_FDCWD ? cwd : (a[0] < MAXFD ? fds[a[0]] : 0), raw, p1);
            if (!read_str(a[3], raw, sizeof raw))
                absolute((int)a[2] == AT_FDCWD ? cwd : (a[2] < MAXFD ? fds[a[2]] : 0), raw, p2);
            break;
        case SYAT:
            if (!read_str(a[0], raw, sizeof raw)) absolute(cwd, raw, p1);
            if (!read_str(a[2], raw, sizeof raw))
                absolute((int)a[1] == AT_FDCWD ? cwd : (a[1] < MAXFD ? fds[a[1]] : 0), raw, p2);
            break;
        case FD: path = 0; fd = (int)a[0]; break;
        case CP: path = 0; fd = (int)a[0];
            if (!(fd >= 0 && fd < MAXFD && inroot(fds[fd]))) fd = (int)a[2];
            break;
        case SF: path = 0; fd = (int)a[0];
            if (!(fd >= 0 && fd < MAXFD && inroot(fds[fd]))) fd = (int)a[1];
            break;
        }
        if (path) {
            if (inroot(p1) || inroot(p2)) stop = 1;
            else outside = 1;
        } else if (fd == 0 && !strcmp(c->name, "read")) {
            stop = 2;
            armed = 1;
        } else if (fd >= 0 && fd < MAXFD && inroot(fds[fd])) {
            snprintf(p1, sizeof p1, "%s", fds[fd]);
            stop = 1;
        }
        int quiet = !strcmp(c->name, "close") || !strcmp(c->name, "dup") || !strcmp(c->name, "fcntl") ||
                    !strcmp(c->name, "chdir") || (!path && !strcmp(c->name, "stat"));
        if (quiet) stop = 0;
        long inject = 0, part = -1;
        if (armed && outside && !quiet) {
            printf("A %s %lx ", c->name, flags); enc(p1); putchar(' '); enc(p2); putchar('\n');
        }
        if (armed && stop) {
            printf("S %s %s %d %lx ", lastret, stop == 2 ? "stdin" : c->name, fd, flags);
            enc(p1); putchar(' '); enc(p2); putchar('\n');
            fflush(stdout);
            char line[64];
            if (!fgets(line, sizeof line, stdin)) { kill(child, SIGKILL); return 0; }
            if (line[0] == 'e') inject = atol(line + 2);
            else if (line[0] == 'p') part = atol(line + 2);
            else if (line[0] == 'k') {
                kill(child, SIGKILL);
                for (;;) { st = wait_main(); if (finished(st)) return 0; }
            }
        }
        if (inject) { r.orig_rax = -1; if (ptrace(PTRACE_SETREGS, child, 0, &r)) die("setregs"); }
        if (part >= 0) {
            if (c->flagarg == 2) { if ((unsigned long)part < r.rdx) r.rdx = part; }
            else if (c->flagarg == 3) { if ((unsigned long)part < r.r10) r.r10 = part; }
            else if (c->flagarg == 4) { if ((unsigned long)part < r.r8) r.r8 = part; }
            if (ptrace(PTRACE_SETREGS, child, 0, &r)) die("setregs");
        }
        int need_exit = inject || (armed && stop) || !strcmp(c->name, "open") || !strcmp(c->name, "creat") ||
                        !strcmp(c->name, "dup") || !strcmp(c->name, "fcntl") || !strcmp(c->name, "close") ||
                        !strcmp(c->name, "chdir");
        if (!need_exit) { ptrace(PTRACE_CONT, child, 0, 0); continue; }
        for (;;) {
            if (ptrace(PTRACE_SYSCALL, child, 0, 0)) { if (errno != ESRCH) die("syscall"); }
            st = wait_main();
            if (finished(st)) return 0;
            if (WIFSTOPPED(st) && WSTOPSIG(st) == (SIGTRAP | 0x80)) break;
            /* a signal in between: deliver it after the call */
            if (WIFSTOPPED(st) && !(st >> 16) && WSTOPSIG(st) != SIGTRAP) kill(child, WSTOPSIG(st));
        }
        if (ptrace(PTRACE_GETREGS, child, 0, &r)) die("getregs2");
        if (inject) { r.rax = -inject; if (ptrace(PTRACE_SETREGS, child, 0, &r)) die("setregs2"); }
        long ret = (long)r.rax;
        if (armed && stop) snprintf(lastret, sizeof lastret, "%ld", ret);
        if (ret >= 0) {
            if (!strcmp(c->name, "open") || !strcmp(c->name, "creat")) setfd(ret, p1);
            else if (!strcmp(c->name, "dup")) setfd(ret, fd < MAXFD ? fds[fd] : 0);
            else if (!strcmp(c->name, "fcntl") && (flags == F_DUPFD || flags == F_DUPFD_CLOEXEC)) setfd(ret, fd < MAXFD ? fds[fd] : 0);
            else if (!strcmp(c->name, "chdir")) snprintf(cwd, sizeof cwd, "%s", p1);
        }
        if (!strcmp(c->name, "close")) setfd(fd, 0);
        ptrace(PTRACE_CONT, child, 0, 0);
    }
}
