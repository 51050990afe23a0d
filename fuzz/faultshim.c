// System-call level fault injection for one call in a forked child (x86-64 Linux).
// A seccomp filter of the child makes file system calls raise SIGSYS; the handler counts, logs, fails, cuts short or performs them,
// or ends the process.  Nothing outside the child is affected.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <time.h>

long fs_raw(long n, long a, long b, long c, long d, long e, long f);
extern char fs_raw_begin[], fs_raw_end[];
__asm__(".text\n.globl fs_raw\n.globl fs_raw_begin\n.globl fs_raw_end\nfs_raw:\nfs_raw_begin:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nfs_raw_end:\nret\nnop\n");

enum { OPENW = 1, OPENR, WRITE, SYNC, CLOSEW, CLOSE, RENAME, LINK, UNLINK, TRUNC, SEEK, STAT, READ, MMAP };
struct ev { int32_t cls, nr, fd, fault; int64_t arg, ret; char p1[192], p2[192]; };
struct shared {
    int32_t n, done, rc, maxev;
    int32_t injected;
    struct ev ev[];
};
// kind: 0 none, 1 error, 2 error from here on (same class), 3 short write, 4 die before, 5 die after half a write, 6 die after, 7 disk full after arg bytes
struct plan { int32_t at, kind; int64_t arg; };

static struct shared *S;
static struct plan P;
static int armed, cnt;
static int64_t total;
static int stickycls, full;
static unsigned char wfd[1024];

static int classify(long nr, long *a, const char **p1, const char **p2) {
    *p1 = *p2 = "";
    switch(nr) {
    case SYS_open: *p1 = (char *)a[0]; return (a[1] & (O_ACCMODE | O_CREAT | O_TRUNC)) ? OPENW : OPENR;
    case SYS_openat: *p1 = (char *)a[1]; return (a[2] & (O_ACCMODE | O_CREAT | O_TRUNC)) ? OPENW : OPENR;
    case SYS_creat: *p1 = (char *)a[0]; return OPENW;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: return a[0] <= 2 ? 0 : WRITE;
    case SYS_sendfile: case SYS_copy_file_range: return WRITE;
    case SYS_fsync: case SYS_fdatasync: case SYS_syncfs: return SYNC;
    case SYS_close: return a[0] <= 2 ? 0 : (a[0] < 1024 && wfd[a[0]]) ? CLOSEW : CLOSE;
    case SYS_rename: *p1 = (char *)a[0]; *p2 = (char *)a[1]; return RENAME;
    case SYS_renameat: case SYS_renameat2: *p1 = (char *)a[1]; *p2 = (char *)a[3]; return RENAME;
    case SYS_link: *p1 = (char *)a[0]; *p2 = (char *)a[1]; return LINK;
    case SYS_linkat: *p1 = (char *)a[1]; *p2 = (char *)a[3]; return LINK;
    case SYS_unlink: *p1 = (char *)a[0]; return UNLINK;
    case SYS_unlinkat: *p1 = (char *)a[1]; return UNLINK;
    case SYS_truncate: *p1 = (char *)a[0]; return TRUNC;
    case SYS_ftruncate: case SYS_fallocate: return TRUNC;
    case SYS_lseek: return a[0] <= 2 ? 0 : SEEK;
    case SYS_fstat: return STAT;
    case SYS_newfstatat: case SYS_stat: case SYS_lstat: *p1 = (char *)a[nr == SYS_newfstatat ? 1 : 0]; return STAT;
    case SYS_read: case SYS_pread64: case SYS_readv: return a[0] <= 2 ? 0 : READ;
    case SYS_mmap: return (int)a[4] >= 0 && !(a[3] & MAP_ANONYMOUS) ? MMAP : 0;
    }
    return 0;
}

static void die(void) { fs_raw(SYS_kill, fs_raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0, 0); for(;;) {} }

static void handler(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = uc_;
    greg_t *g = uc->uc_mcontext.gregs;
    long nr = si->si_syscall;
    long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    const char *p1, *p2;
    int cls = armed ? classify(nr, a, &p1, &p2) : 0;
    if(!cls) { g[REG_RAX] = fs_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return; }
    const int k = cnt++;
    struct ev *e = k < S->maxev ? &S->ev[k] : NULL;
    if(e) {
        e->cls = cls; e->nr = nr; e->fd = (cls == OPENW || cls == OPENR) ? -1 : (int)a[0]; e->arg = a[2]; e->fault = 0;
        strncpy(e->p1, p1, sizeof e->p1 - 1); strncpy(e->p2, p2, sizeof e->p2 - 1);
    }
    S->n = cnt;
    int hit = P.kind && k == P.at;
    long r = 0;
    int fault = 0, done = 0;
    if(cls == WRITE && (nr == SYS_write || nr == SYS_pwrite64)) {
        long want = a[2];
        if(P.kind == 7) {
            if(full) { r = -ENOSPC; done = fault = 1; }
            else if(total + want > P.arg) {
                long can = P.arg - total;
                full = 1; fault = 1; done = 1;
                r = can > 0 ? fs_raw(nr, a[0], a[1], can, a[3], a[4], a[5]) : -ENOSPC;
            }
        } else if(hit && P.kind == 3 && want > 1) { fault = done = 1; r = fs_raw(nr, a[0], a[1], want / 2, a[3], a[4], a[5]); }
        else if(hit && P.kind == 5) { if(want > 1) fs_raw(nr, a[0], a[1], want / 2, a[3], a[4], a[5]); S->injected++; die(); }
    }
    if(hit && (P.kind == 4 || P.kind == 5)) { S->injected++; die(); }
    if(hit && P.kind == 2) stickycls = cls;
    if((hit && P.kind == 1) || (stickycls && stickycls == cls)) {
        if(cls == CLOSEW || cls == CLOSE) { fs_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); if(a[0] < 1024) wfd[a[0]] = 0; }
        r = -P.arg; fault = done = 1;
    }
    if(!done) {
        r = fs_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
        if(cls == OPENW && r >= 0 && r < 1024) wfd[r] = 1;
        if(cls == CLOSEW && r == 0) wfd[a[0]] = 0;
    }
    if(cls == WRITE && r > 0) total += r;
    if(fault) S->injected++;
    if(e) { e->ret = r; e->fault = fault; if(cls == OPENW || cls == OPENR) e->fd = (int)r; }
    if(hit && P.kind == 6) { S->injected++; die(); }
    g[REG_RAX] = r;
}

static int install(void) {
    static const int trap[] = {SYS_open, SYS_openat, SYS_creat, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_sendfile, SYS_copy_file_range, SYS_fsync,
        SYS_fdatasync, SYS_syncfs, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_unlink, SYS_unlinkat, SYS_truncate, SYS_ftruncate,
        SYS_fallocate, SYS_lseek, SYS_fstat, SYS_newfstatat, SYS_stat, SYS_lstat, SYS_read, SYS_pread64, SYS_readv, SYS_mmap};
    enum { NT = sizeof trap / sizeof *trap };
    struct sock_filter f[16 + NT];
    int n = 0;
    const uint64_t lo = (uint64_t)fs_raw_begin, hi = (uint64_t)fs_raw_end;
    if((lo >> 32) != (hi >> 32)) return 1;
#define ST(k, v) f[n++] = (struct sock_filter)BPF_STMT(k, v)
#define JP(k, v, t, e) f[n++] = (struct sock_filter)BPF_JUMP(k, v, t, e)
    ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    JP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(lo >> 32), 0, 4);
    ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    JP(BPF_JMP | BPF_JGE | BPF_K, (uint32_t)lo, 0, 2);
    JP(BPF_JMP | BPF_JGT | BPF_K, (uint32_t)hi, 1, 0);
    ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    ST(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for(int i = 0; i < NT; ++i) JP(BPF_JMP | BPF_JEQ | BPF_K, trap[i], NT - i, 0);
    ST(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    ST(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog pr = {n, f};
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if(sigaction(SIGSYS, &sa, NULL)) return 2;
    if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return 3;
    if(prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) return 4;
    return 0;
}

void *fs_shared(int maxev) {
    struct shared *s = mmap(NULL, sizeof(struct shared) + maxev * sizeof(struct ev), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(s == MAP_FAILED) return NULL;
    s->maxev = maxev;
    return s;
}

// calls fn(arg) in a child under the plan; returns the wait status, -1 on trouble of the harness, -2 on a hang
int fs_run(int (*fn)(void *), void *arg, struct shared *sh, int at, int kind, int64_t parg) {
    const int me = sh->maxev;
    sh->n = sh->done = sh->injected = 0; sh->rc = -1; sh->maxev = me;
    pid_t c = fork();
    if(c < 0) return -1;
    if(c == 0) {
        S = sh; P.at = at; P.kind = kind; P.arg = parg;
        alarm(0);
        int q = install();
        if(q) { sh->rc = -100 - q; _exit(99); }
        armed = 1;
        int rc = fn(arg);
        armed = 0;
        sh->rc = rc; sh->done = 1;
        _exit(0);
    }
    int st = 0;
    for(int i = 0; i < 200000; ++i) {
        pid_t r = waitpid(c, &st, WNOHANG);
        if(r == c) return st;
        if(r < 0 && errno != EINTR) return -1;
        struct timespec ts = {0, i < 100 ? 50000 : 1000000};
        nanosleep(&ts, NULL);
        if(i > 30000) break;
    }
    kill(c, SIGKILL);
    waitpid(c, &st, 0);
    return -2;
}
