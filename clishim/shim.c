// LD_PRELOAD seam for the real adhoc_audio command line tool.
//
// Every thread of the tool becomes a task of a cooperative scheduler: exactly one runs at a time and
// the control file decides where it is preempted.  Blocking (futex, join, sleep) is simulated, time is
// virtual, randomness is fixed.  System calls on files below in/ and out/ are scheduling points at
// which the control file may inject errors, short transfers, interruptions, a full disk or a crash.
//
// control file (SIM_CTRL), one directive per line:
//   alloc 0|1|2                    allocations of worker threads are scheduling points too (2: and every
//                                  edge of the tool's control flow, which the build reports)
//   switch N K                     at scheduling point N run the (K mod ready)-th other ready task
//   fault OP NAME NTH ERRNO TIMES  calls NTH.. NTH+TIMES-1 of OP (o r w s y) on NAME fail (TIMES 0: for good)
//   faultat OP NAME OFF ERRNO TIMES the byte at OFF of NAME cannot be transferred (OP r w)
//   disk BYTES                     at most BYTES can be written below out/
//   noise SEED SHORT INTR          percent of short transfers and interrupted calls
//   crash N TORN                   the process dies at its N-th I/O point, a write gets TORN percent through
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/resource.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret_errno(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ------------------------------------------------------------------------------------- state

enum { READY, BLOCKED, DONE };
struct task {
    int id, state;
    volatile int baton;
    volatile int *faddr;   // futex the task sleeps on
    struct task *joins;    // task it waits for
    u64 deadline;          // virtual time it wakes up, 0 never
    int timed_out;
    u64 order;             // when it started to wait
    pthread_t th;
    void *(*fn)(void *);
    void *arg;
};
#define MAXT 256
static struct task tasks[MAXT];
static int ntasks;
static int active;
static __thread struct task *self __attribute__((tls_model("initial-exec")));
static __thread int inside __attribute__((tls_model("initial-exec")));
static u64 vtime = 1000000000ull, waits, points, iopoints, switches, trace = 1469598103934665603ull, allocs;
static int log_fd = -1, alloc_points, edge_points;
static u64 since;
static u64 rnd_state = 88172645463325252ull;

struct sw { u64 n, k; };
#define MAXS 20000
static struct sw sws[MAXS];
static int nsws, next_sw;
struct rule { char op, at, name[300]; long n, times, count, fired; int err; };
#define MAXR 64
static struct rule rules[MAXR];
static int nrules;
static long disk = -1, disk_used;
static u64 noise_seed;
static int noise_short, noise_intr;
static long crash_at = -1;
static int crash_torn;
struct finfo { int used, out; char name[300]; long moved; u64 rng; int consecutive, faulty; };
#define MAXFD 1024
static struct finfo fds[MAXFD];

static void say(const char *fmt, ...) {
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    inside++;
    int n = vsnprintf(b, sizeof b, fmt, ap);
    inside--;
    va_end(ap);
    if (log_fd >= 0) raw(SYS_write, log_fd, (long)b, n < (int)sizeof b ? n : (int)sizeof b - 1, 0, 0, 0);
}
static void note(u64 x) { trace = (trace ^ x) * 1099511628211ull; trace ^= trace >> 29; }
static u64 hash(const char *s) {
    u64 h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
static u64 next_rng(u64 *s) {
    u64 z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void summary(void) {
    say("end points %lu io %lu switches %lu tasks %d allocs %lu trace %016lx\n", points, iopoints, switches, ntasks, allocs, trace);
}
static void die(int code) {
    summary();
    raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_trap();
}

// ------------------------------------------------------------------------------------- scheduler

static void give(struct task *t) {
    __atomic_store_n(&t->baton, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)&t->baton, FUTEX_WAKE, 1, 0, 0, 0);
}
static void await(struct task *me) {
    while (!__atomic_load_n(&me->baton, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)&me->baton, FUTEX_WAIT, 0, 0, 0, 0);
    __atomic_store_n(&me->baton, 0, __ATOMIC_SEQ_CST);
}
static void go(struct task *next) {
    struct task *me = self;
    if (next == me) return;
    since = 0;
    note(0x5157 + (u64)next->id * 131 + me->id);
    give(next);
    await(me);
}
// next ready task after the current one, or the current one if it is the only one
static struct task *pick(void) {
    for (int i = 1; i <= ntasks; i++) {
        struct task *t = &tasks[(self->id + i) % ntasks];
        if (t->state == READY) return t;
    }
    // everyone waits: advance the clock to the first deadline
    struct task *first = 0;
    for (int i = 0; i < ntasks; i++) {
        struct task *t = &tasks[i];
        if (t->state == BLOCKED && t->deadline && (!first || t->deadline < first->deadline)) first = t;
    }
    if (!first) {
        say("deadlock\n");
        die(79);
    }
    if (first->deadline > vtime) vtime = first->deadline;
    first->state = READY;
    first->faddr = 0;
    first->timed_out = 1;
    return first;
}
static void block(u64 deadline) {
    self->state = BLOCKED;
    self->deadline = deadline;
    self->timed_out = 0;
    self->order = ++waits;
    go(pick());
    self->faddr = 0;
    self->joins = 0;
}
static void yield_point(void) {
    note(0x77);
    go(pick());
}
static void point(void) {
    points++;
    while (next_sw < nsws && sws[next_sw].n < points) next_sw++;
    if (next_sw < nsws && sws[next_sw].n == points) {
        u64 k = sws[next_sw++].k;
        int n = 0;
        struct task *ready[MAXT];
        for (int i = 0; i < ntasks; i++)
            if (tasks[i].state == READY && &tasks[i] != self) ready[n++] = &tasks[i];
        if (n) {
            switches++;
            go(ready[k % n]);
        }
    }
}
static int on(void) { return active && self && !inside; }

// ------------------------------------------------------------------------------------- start

static long parse(char **p) {
    while (**p == ' ') (*p)++;
    return strtol(*p, p, 10);
}
static void word(char **p, char *out, int cap) {
    while (**p == ' ') (*p)++;
    int n = 0;
    while (**p && **p != ' ' && **p != '\n') {
        if (n < cap - 1) out[n++] = **p == '?' ? ' ' : **p; // blanks in file names are written as ?
        (*p)++;
    }
    out[n] = 0;
}
__attribute__((constructor)) static void init(void) {
    const char *c = getenv("SIM_CTRL"), *l = getenv("SIM_LOG");
    if (!c || !l) return;
    inside++;
    static char buf[1 << 20];
    long fd = raw(SYS_open, (long)c, O_RDONLY | O_CLOEXEC, 0, 0, 0, 0), n = 0, r;
    while (fd >= 0 && n < (long)sizeof buf - 1 && (r = raw(SYS_read, fd, (long)(buf + n), sizeof buf - 1 - n, 0, 0, 0)) > 0) n += r;
    if (fd >= 0) raw(SYS_close, fd, 0, 0, 0, 0, 0);
    buf[n] = 0;
    fd = raw(SYS_open, (long)l, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0644, 0, 0, 0);
    if (fd >= 0) {
        // out of the way of the tool's descriptors
        log_fd = (int)raw(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900, 0, 0, 0);
        raw(SYS_close, fd, 0, 0, 0, 0, 0);
    }
    for (char *p = buf; *p;) {
        char k[16], op[8];
        word(&p, k, sizeof k);
        if (!strcmp(k, "alloc")) {
            alloc_points = (int)parse(&p);
            edge_points = alloc_points > 1;
        }
        else if (!strcmp(k, "switch") && nsws < MAXS) {
            sws[nsws].n = (u64)parse(&p);
            sws[nsws++].k = (u64)parse(&p);
        } else if (!strncmp(k, "fault", 5) && nrules < MAXR) {
            struct rule *q = &rules[nrules++];
            q->at = k[5] == 'a';
            word(&p, op, sizeof op);
            q->op = op[0];
            word(&p, q->name, sizeof q->name);
            q->n = parse(&p);
            q->err = (int)parse(&p);
            q->times = parse(&p);
        } else if (!strcmp(k, "disk")) disk = parse(&p);
        else if (!strcmp(k, "noise")) {
            noise_seed = (u64)parse(&p);
            noise_short = (int)parse(&p);
            noise_intr = (int)parse(&p);
        } else if (!strcmp(k, "crash")) {
            crash_at = parse(&p);
            crash_torn = (int)parse(&p);
        }
        while (*p && *p != '\n') p++;
        if (*p) p++;
    }
    self = &tasks[0];
    self->id = 0;
    self->state = READY;
    self->th = pthread_self();
    ntasks = 1;
    active = 1;
    // as few open files as on some systems
    struct rlimit rl = {256, 256};
    setrlimit(RLIMIT_NOFILE, &rl);
    alarm(100);
    inside--;
}
__attribute__((destructor)) static void fini(void) {
    if (active && self) summary();
    active = 0;
}

// ------------------------------------------------------------------------------------- threads

typedef int (*create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_fn)(pthread_t, void **);
static void *trampoline(void *p) {
    struct task *t = p;
    self = t;
    await(t);
    void *r = t->fn(t->arg);
    note(0xD0);
    t->state = DONE;
    for (int i = 0; i < ntasks; i++)
        if (tasks[i].state == BLOCKED && tasks[i].joins == t) tasks[i].state = READY;
    struct task *n = pick();
    self = 0;
    give(n);
    return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    static create_fn real;
    if (!real) real = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
    if (!on() || ntasks >= MAXT) return real(out, attr, fn, arg);
    struct task *t = &tasks[ntasks];
    memset(t, 0, sizeof *t);
    t->id = ntasks;
    t->fn = fn;
    t->arg = arg;
    t->state = READY;
    inside++;
    int r = real(&t->th, attr, trampoline, t);
    inside--;
    if (r == 0) {
        *out = t->th;
        ntasks++;
        note(0xC0);
        point();
    }
    return r;
}
int pthread_join(pthread_t th, void **ret) {
    static join_fn real;
    if (!real) real = (join_fn)dlsym(RTLD_NEXT, "pthread_join");
    if (on())
        for (int i = 0; i < ntasks; i++)
            if (pthread_equal(tasks[i].th, th))
                while (tasks[i].state != DONE) {
                    self->joins = &tasks[i];
                    block(0);
                }
    return real(th, ret);
}
int sched_yield(void) {
    if (on()) yield_point();
    return 0;
}
static u64 ts_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
int nanosleep(const struct timespec *req, struct timespec *rem) {
    (void)rem;
    if (on()) block(vtime + ts_ns(req) + 1);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    (void)id;
    (void)rem;
    if (on()) block(flags & TIMER_ABSTIME ? ts_ns(req) + 1 : vtime + ts_ns(req) + 1);
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!active) return (int)ret_errno(raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
    if (self) vtime += 1000;
    ts->tv_sec = 1700000000 + (time_t)(vtime / 1000000000ull);
    ts->tv_nsec = (long)(vtime % 1000000000ull);
    return 0;
}
pid_t getpid(void) { return on() ? 4242 : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!active) return ret_errno(raw(SYS_getrandom, (long)p, (long)n, flags, 0, 0, 0));
    for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next_rng(&rnd_state);
    return (ssize_t)n;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        int cmd = (int)b & FUTEX_CMD_MASK;
        volatile int *addr = (volatile int *)a;
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            if (*addr != (int)c) {
                errno = EAGAIN;
                return -1;
            }
            u64 dl = 0;
            if (d) {
                u64 t = ts_ns((struct timespec *)d);
                // absolute times come from our clock_gettime
                u64 base = 1700000000ull * 1000000000ull;
                dl = cmd == FUTEX_WAIT ? vtime + t : (t > base ? t - base : 1);
                if (dl == 0) dl = 1;
            }
            self->faddr = addr;
            note(0xF0);
            block(dl);
            if (self->timed_out) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            long woken = 0;
            while (woken < c) {
                struct task *first = 0;
                for (int i = 0; i < ntasks; i++) {
                    struct task *t = &tasks[i];
                    if (t->state == BLOCKED && t->faddr == addr && (!first || t->order < first->order)) first = t;
                }
                if (!first) break;
                first->state = READY;
                first->faddr = 0;
                first->timed_out = 0;
                woken++;
            }
            note(0xF1 + (u64)woken);
            return woken;
        }
    }
    if (n == SYS_getrandom && active) return getrandom((void *)a, (size_t)b, (unsigned)c);
    return ret_errno(raw(n, a, b, c, d, e, f));
}

// ------------------------------------------------------------------------------------- allocations

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static void alloc_point(void) {
    if (alloc_points && on() && self->id > 0) {
        allocs++;
        point();
    }
}
void *malloc(size_t n) {
    alloc_point();
    return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
    alloc_point();
    return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
    alloc_point();
    return __libc_realloc(p, n);
}

// ------------------------------------------------------------------------------------- control flow

// the tool is built with a callback at every edge of its control flow
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a, (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    (void)g;
    if (!on()) return;
    if (++since > 2000000) { // whoever spins waits for the others
        since = 0;
        yield_point();
        return;
    }
    if (edge_points && self->id > 0) point();
}

// ------------------------------------------------------------------------------------- files

// "in/x" or "out/x" if the path lies there
static int classify(const char *path, char *name, int cap) {
    const char *slash = strrchr(path, '/');
    if (!slash || slash == path) return 0;
    const char *d = slash;
    while (d > path && d[-1] == '/') d--;
    const char *e = d;
    while (d > path && d[-1] != '/') d--;
    int len = (int)(e - d), kind = len == 2 && !strncmp(d, "in", 2) ? 1 : len >= 3 && !strncmp(d, "out", 3) ? 2 : 0;
    // the tool's default output directory is ./
    if (len == 1 && *d == '.') kind = 2, d = "out", len = 3;
    if (kind) snprintf(name, cap, "%.*s/%s", len, d, slash + 1);
    return kind;
}
// 1: the process dies in this call (only writes come back, to get partly through first)
static int io_point(char op, const char *name, long len) {
    long my = (long)++iopoints;
    note(hash(name) ^ ((u64)op << 32) ^ (u64)len ^ ((u64)self->id << 48));
    point();
    if (my != crash_at) return 0;
    say("crash %c %s\n", op, name);
    if (op != 'w') die(99);
    return 1;
}
// counts the call against the rules; returns an errno or 0
static int ruled(char op, const char *name, int *faulty) {
    int err = 0;
    for (int i = 0; i < nrules; i++) {
        struct rule *q = &rules[i];
        if (q->at || q->op != op || strcmp(q->name, name)) continue;
        q->count++;
        if (q->count >= q->n && (q->times == 0 || q->fired < q->times) && !err) {
            q->fired++;
            err = q->err;
            say("fault %c %s %d\n", op, name, err);
            if (faulty) *faulty = 1;
        }
    }
    return err;
}
// limits a transfer; returns the length, or -errno
static long limited(char op, struct finfo *f, long len) {
    int err = ruled(op, f->name, &f->faulty);
    if (err) return -err;
    for (int i = 0; i < nrules; i++) {
        struct rule *q = &rules[i];
        if (!q->at || q->op != op || strcmp(q->name, f->name) || (q->times && q->fired >= q->times)) continue;
        long room = q->n - f->moved;
        if (room < 0) room = 0;
        if (len > 0 && room == 0) {
            q->fired++;
            f->faulty = 1;
            say("fault %c %s %d\n", op, f->name, q->err);
            return -q->err;
        }
        if (len > room) len = room;
    }
    if (op == 'w' && disk >= 0 && len > 0) {
        long room = disk - disk_used;
        if (room <= 0) {
            f->faulty = 1;
            say("fault w %s %d\n", f->name, ENOSPC);
            return -ENOSPC;
        }
        if (len > room) len = room;
    }
    /* signals come alone or, under some seeds, in storms */
    int storm = noise_seed % 5 == 0 && f->consecutive > 0;
    if (noise_intr && f->consecutive < (storm ? 120 : 4) && (long)(next_rng(&f->rng) % 100) < (storm ? 95 : noise_intr)) {
        f->consecutive++;
        say("intr %c\n", op);
        return -EINTR;
    }
    f->consecutive = 0;
    if (noise_short && len > 1 && (long)(next_rng(&f->rng) % 100) < noise_short) {
        len = 1 + (long)(next_rng(&f->rng) % (u64)(len - 1));
        say("short %c\n", op);
    }
    return len;
}
static struct finfo *info(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].used && on() ? &fds[fd] : 0; }

static int do_open(int dir, const char *path, int flags, int mode) {
    char name[300];
    int kind = 0;
    if (on() && !(flags & O_PATH)) kind = classify(path, name, sizeof name);
    if (!kind) return (int)ret_errno(raw(SYS_openat, dir, (long)path, flags, mode, 0, 0));
    io_point('o', name, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND));
    int err = ruled('o', name, 0);
    if (err) {
        errno = err;
        return -1;
    }
    long fd = raw(SYS_openat, dir, (long)path, flags, mode, 0, 0);
    if (fd >= 0 && fd < MAXFD) {
        memset(&fds[fd], 0, sizeof fds[fd]);
        fds[fd].used = 1;
        fds[fd].out = kind == 2;
        fds[fd].rng = noise_seed ^ hash(name);
        memcpy(fds[fd].name, name, sizeof name);
        say("open %s %d\n", name, (flags & O_ACCMODE) != O_RDONLY);
    }
    return (int)ret_errno(fd);
}
#define MODE(last) \
    int mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, last); \
        mode = va_arg(ap, int); \
        va_end(ap); \
    }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }

ssize_t read(int fd, void *b, size_t n) {
    struct finfo *f = info(fd);
    if (!f) return ret_errno(raw(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
    io_point('r', f->name, (long)n);
    long m = limited('r', f, (long)n);
    if (m < 0) return ret_errno(m);
    long r = raw(SYS_read, fd, (long)b, m, 0, 0, 0);
    if (r > 0) f->moved += r;
    note((u64)r);
    return ret_errno(r);
}
ssize_t write(int fd, const void *b, size_t n) {
    struct finfo *f = info(fd);
    if (!f) return ret_errno(raw(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
    if (io_point('w', f->name, (long)n)) {
        raw(SYS_write, fd, (long)b, (long)n * crash_torn / 100, 0, 0, 0);
        die(99);
    }
    long m = limited('w', f, (long)n);
    if (m < 0) return ret_errno(m);
    long r = raw(SYS_write, fd, (long)b, m, 0, 0, 0);
    if (r > 0) {
        f->moved += r;
        disk_used += r;
    }
    note((u64)r);
    return ret_errno(r);
}
// one segment at a time is a legal short transfer
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!info(fd)) return ret_errno(raw(SYS_writev, fd, (long)v, n, 0, 0, 0));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!info(fd)) return ret_errno(raw(SYS_readv, fd, (long)v, n, 0, 0, 0));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
static ssize_t pio(char op, int fd, void *b, size_t n, off_t o) {
    struct finfo *f = info(fd);
    long nr = op == 'r' ? SYS_pread64 : SYS_pwrite64;
    if (!f) return ret_errno(raw(nr, fd, (long)b, (long)n, o, 0, 0));
    if (io_point(op, f->name, (long)n)) die(99);
    long m = limited(op, f, (long)n);
    if (m < 0) return ret_errno(m);
    long r = raw(nr, fd, (long)b, m, o, 0, 0);
    if (r > 0) {
        f->moved += r;
        if (op == 'w') disk_used += r;
    }
    return ret_errno(r);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pio('r', fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pio('r', fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pio('w', fd, (void *)b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pio('w', fd, (void *)b, n, o); }

static off_t do_seek(int fd, off_t o, int whence) {
    struct finfo *f = info(fd);
    if (f) {
        io_point('s', f->name, (long)o * 4 + whence);
        int err = ruled('s', f->name, &f->faulty);
        if (err) {
            errno = err;
            return -1;
        }
    }
    return ret_errno(raw(SYS_lseek, fd, o, whence, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return do_seek(fd, o, w); }

static int do_sync(long nr, int fd) {
    struct finfo *f = info(fd);
    if (f) {
        io_point('y', f->name, 0);
        int err = ruled('y', f->name, &f->faulty);
        if (err) {
            errno = err;
            return -1;
        }
    }
    return (int)ret_errno(raw(nr, fd, 0, 0, 0, 0, 0));
}
int fsync(int fd) { return do_sync(SYS_fsync, fd); }
int fdatasync(int fd) { return do_sync(SYS_fdatasync, fd); }

int close(int fd) {
    struct finfo *f = info(fd);
    if (f) {
        io_point('c', f->name, 0);
        say("close %s %d\n", f->name, f->faulty);
    }
    if (fd >= 0 && fd < MAXFD && active) fds[fd].used = 0;
    if (fd >= 0 && fd == log_fd) return 0;
    return (int)ret_errno(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_rename(int da, const char *a, int db, const char *b, unsigned fl) {
    char na[300] = "", nb[300] = "";
    if (on() && (classify(a, na, sizeof na) | classify(b, nb, sizeof nb))) {
        io_point('m', nb[0] ? nb : na, 0);
        int err = ruled('m', nb, 0);
        if (err) {
            errno = err;
            return -1;
        }
        say("rename %s %s\n", na, nb);
    }
    return (int)ret_errno(raw(SYS_renameat2, da, (long)a, db, (long)b, fl, 0));
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char *a, int db, const char *b) { return do_rename(da, a, db, b, 0); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return do_rename(da, a, db, b, f); }
int unlink(const char *p) {
    char n[300];
    if (on() && classify(p, n, sizeof n)) {
        io_point('u', n, 0);
        say("unlink %s\n", n);
    }
    return (int)ret_errno(raw(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
}
int ftruncate64(int fd, off_t n) {
    struct finfo *f = info(fd);
    if (f) io_point('t', f->name, (long)n);
    return (int)ret_errno(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
// bulk copies fall back to read and write, where the faults are
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (info(a) || info(b)) {
        errno = EXDEV;
        return -1;
    }
    return ret_errno(raw(SYS_copy_file_range, a, (long)x, b, (long)y, (long)n, f));
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
    if (info(a) || info(b)) {
        errno = EINVAL;
        return -1;
    }
    return ret_errno(raw(SYS_sendfile, a, b, (long)o, (long)n, 0, 0));
}
