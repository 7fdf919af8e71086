/* LD_PRELOAD shim under the broker: it only narrows or perturbs the environment in ways the real
 * one may, and counts what it did in a shared page (see struct ctl) that the harness maps too.
 *
 *   VSHIM_SHORT=n                     so many of 1000 writes to a socket are done in part only
 *   VSHIM_ADDR=a.b.c.d VSHIM_PORT=n   the address a listening socket really binds to
 *   VSHIM_CTL=path                    shared page
 *   VSHIM_CLOCK=f                     CLOCK_MONOTONIC runs f times as fast
 *   VSHIM_SNDBUF=n VSHIM_RCVBUF=n     socket buffers of accepted connections
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct ctl {
    /* written by the harness */
    volatile uint32_t accept_fail_permille; /* 0..1000 */
    volatile uint32_t accept_errno;
    volatile uint32_t preempt_per_million; /* chance of a pause at each point */
    volatile uint32_t preempt_max_us;
    volatile uint32_t seed;
    volatile uint32_t pad;
    /* written by the shim */
    volatile uint64_t accepts;
    volatile uint64_t accept_fails;
    volatile uint64_t preempts;
    volatile uint64_t recv_calls;
    volatile uint64_t recv_bytes;
    volatile uint64_t send_calls;
    volatile uint64_t send_bytes;
    volatile uint64_t short_sends;
    volatile uint64_t binds;
    volatile uint64_t accept_emfile;
    volatile uint32_t bind_port; /* what the broker asked for */
    volatile uint32_t bind_any;
};

static struct ctl *ctl;
static long clock_factor = 1;
static int sndbuf, rcvbuf;
static struct timespec clock_base;
static int have_addr;
static struct in_addr bind_addr_;
static int bind_port_;
static int short_permille;

/* found once, in the constructor: sanitizers ask for the time within malloc, where dlsym would recurse */
static int (*real_clock_gettime)(clockid_t, struct timespec *);

#define ADD(f, n) do { if (ctl) __atomic_fetch_add(&ctl->f, (n), __ATOMIC_RELAXED); } while (0)

__attribute__((constructor)) static void init(void) {
    int saved = errno;
    const char *s;
    if ((s = getenv("VSHIM_CTL"))) {
        int fd = open(s, O_RDWR | O_CLOEXEC);
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) ctl = p;
            close(fd);
        }
    }
    if ((s = getenv("VSHIM_ADDR"))) have_addr = inet_aton(s, &bind_addr_);
    if ((s = getenv("VSHIM_SHORT"))) short_permille = atoi(s);
    if ((s = getenv("VSHIM_PORT"))) bind_port_ = atoi(s);
    if ((s = getenv("VSHIM_CLOCK"))) clock_factor = atol(s);
    if (clock_factor < 1) clock_factor = 1;
    if ((s = getenv("VSHIM_SNDBUF"))) sndbuf = atoi(s);
    if ((s = getenv("VSHIM_RCVBUF"))) rcvbuf = atoi(s);
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &clock_base);
    real_clock_gettime = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    errno = saved;
}

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

/* ------------------------------------------------------------------ scheduling noise */
static __thread uint64_t rng_state __attribute__((tls_model("initial-exec")));

static void preempt(void) {
    if (!ctl || !ctl->preempt_per_million) return;
    if (!rng_state)
        rng_state = ((uint64_t)ctl->seed << 32) ^ ((uint64_t)(uintptr_t)&rng_state >> 4) ^ 0x9e3779b97f4a7c15ull;
    rng_state ^= rng_state << 13;
    rng_state ^= rng_state >> 7;
    rng_state ^= rng_state << 17;
    if ((rng_state >> 20) % 1000000 < ctl->preempt_per_million) {
        int saved = errno;
        uint32_t max = ctl->preempt_max_us;
        struct timespec ts = {0, 1000L * (long)(max ? (rng_state >> 40) % max : 0)};
        ADD(preempts, 1);
        syscall(SYS_nanosleep, &ts, NULL);
        errno = saved;
    }
}

/* ------------------------------------------------------------------ addresses, accept */
int bind(int fd, const struct sockaddr *a, socklen_t len) {
    REAL(int, bind, int, const struct sockaddr *, socklen_t);
    ADD(binds, 1);
    if (have_addr && a && a->sa_family == AF_INET && len >= sizeof(struct sockaddr_in)) {
        struct sockaddr_in b;
        memcpy(&b, a, sizeof b);
        if (b.sin_port) {
            if (ctl) {
                ctl->bind_port = ntohs(b.sin_port);
                ctl->bind_any = b.sin_addr.s_addr == INADDR_ANY;
            }
            b.sin_addr = bind_addr_;
            b.sin_port = htons((uint16_t)bind_port_);
            return real_bind(fd, (struct sockaddr *)&b, sizeof b);
        }
    }
    if (have_addr && a && a->sa_family == AF_INET6 && len >= sizeof(struct sockaddr_in6)) {
        struct sockaddr_in6 b;
        memcpy(&b, a, sizeof b);
        if (b.sin6_port) {
            static const struct in6_addr any;
            if (ctl) {
                ctl->bind_port = ntohs(b.sin6_port);
                ctl->bind_any = !memcmp(&b.sin6_addr, &any, sizeof any);
            }
            memset(&b.sin6_addr, 0, sizeof b.sin6_addr);
            b.sin6_addr.s6_addr[10] = b.sin6_addr.s6_addr[11] = 0xff;
            memcpy(&b.sin6_addr.s6_addr[12], &bind_addr_, 4);
            b.sin6_port = htons((uint16_t)bind_port_);
            return real_bind(fd, (struct sockaddr *)&b, sizeof b);
        }
    }
    return real_bind(fd, a, len);
}

int accept4(int fd, struct sockaddr *a, socklen_t *len, int flags) {
    REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
    preempt();
    if (ctl && ctl->accept_fail_permille) {
        static uint64_t n = 88172645463325252ull;
        n ^= n << 13; n ^= n >> 7; n ^= n << 17;
        if ((n >> 20) % 1000 < ctl->accept_fail_permille) {
            ADD(accept_fails, 1);
            errno = (int)ctl->accept_errno;
            return -1;
        }
    }
    int r = real_accept4(fd, a, len, flags);
    if (r >= 0) {
        int saved = errno;
        ADD(accepts, 1);
        if (sndbuf) setsockopt(r, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        if (rcvbuf) setsockopt(r, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        errno = saved;
    } else if (errno == EMFILE || errno == ENFILE) {
        ADD(accept_emfile, 1);
    }
    return r;
}

int accept(int fd, struct sockaddr *a, socklen_t *len) { return accept4(fd, a, len, 0); }

/* ------------------------------------------------------------------ data: count, pause */
static void did_recv(ssize_t n) {
    ADD(recv_calls, 1);
    if (n > 0) ADD(recv_bytes, (uint64_t)n);
}
static void did_send(ssize_t n, size_t want) {
    ADD(send_calls, 1);
    if (n > 0) {
        ADD(send_bytes, (uint64_t)n);
        if ((size_t)n < want) ADD(short_sends, 1);
    }
}

#define MAXFD 65536
static struct {
    int ep; /* 0, or the epoll descriptor and one */
    struct epoll_event ev;
} watched[MAXFD];

/* How much of a write of n bytes to do */
static size_t shorter(int fd, size_t n) {
    static _Thread_local uint64_t x;
    if (!short_permille || n < 2 || fd < 0 || fd >= MAXFD || !watched[fd].ep) return n;
    if (!x) x = ((uint64_t)(uintptr_t)&x >> 4) ^ 0x2545f4914f6cdd1dull;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    if ((x >> 20) % 1000 >= (uint64_t)short_permille) return n;
    return (x >> 40) % 2 ? 1 : 1 + (size_t)((x >> 41) % (n - 1));
}

ssize_t recv(int fd, void *b, size_t n, int fl) {
    REAL(ssize_t, recv, int, void *, size_t, int);
    preempt();
    ssize_t r = real_recv(fd, b, n, fl);
    did_recv(r);
    preempt();
    return r;
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    REAL(ssize_t, recvmsg, int, struct msghdr *, int);
    preempt();
    ssize_t r = real_recvmsg(fd, m, fl);
    did_recv(r);
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, readv, int, const struct iovec *, int);
    preempt();
    ssize_t r = real_readv(fd, v, n);
    did_recv(r);
    return r;
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    REAL(ssize_t, send, int, const void *, size_t, int);
    preempt();
    size_t part = shorter(fd, n);
    ssize_t r = real_send(fd, b, part, fl);
    /* The caller may take a short write for a full socket and wait until it can be written to
     * again: have epoll say so. */
    if (part < n && r >= 0 && watched[fd].ep > 0) {
        int saved = errno;
        struct epoll_event e = watched[fd].ev;
        syscall(SYS_epoll_ctl, watched[fd].ep - 1, EPOLL_CTL_MOD, fd, &e);
        errno = saved;
    }
    did_send(r, n);
    preempt();
    return r;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
    preempt();
    ssize_t r = real_sendmsg(fd, m, fl);
    size_t want = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++) want += m->msg_iov[i].iov_len;
    did_send(r, want);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    preempt();
    ssize_t r = real_writev(fd, v, n);
    if (fd > 2) {
        size_t want = 0;
        for (int i = 0; i < n; i++) want += v[i].iov_len;
        did_send(r, want);
    }
    return r;
}

/* ------------------------------------------------------------------ time */
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (clock_factor == 1 || id != CLOCK_MONOTONIC) {
        if (real_clock_gettime) return real_clock_gettime(id, ts);
        return (int)syscall(SYS_clock_gettime, id, ts);
    }
    syscall(SYS_clock_gettime, id, ts);
    if (!clock_base.tv_sec && !clock_base.tv_nsec) return 0;
    __int128 d = (__int128)(ts->tv_sec - clock_base.tv_sec) * 1000000000 + (ts->tv_nsec - clock_base.tv_nsec);
    d *= clock_factor;
    d += clock_base.tv_nsec;
    ts->tv_sec = clock_base.tv_sec + (time_t)(d / 1000000000);
    ts->tv_nsec = (long)(d % 1000000000);
    return 0;
}

/* What is registered with epoll_ctl happens before the epoll_wait that reports it. ThreadSanitizer
 * knows, but not when the epoll descriptor was duplicated, which is what mio does. */
extern void __tsan_acquire(void *) __attribute__((weak));
extern void __tsan_release(void *) __attribute__((weak));
static char epoll_sync;

int epoll_ctl(int fd, int op, int f2, struct epoll_event *e) {
    REAL(int, epoll_ctl, int, int, int, struct epoll_event *);
    if (__tsan_release) __tsan_release(&epoll_sync);
    if (short_permille && f2 >= 0 && f2 < MAXFD) {
        watched[f2].ep = 0;
        if (op != EPOLL_CTL_DEL) {
            watched[f2].ev = *e;
            watched[f2].ep = fd + 1;
        }
    }
    return real_epoll_ctl(fd, op, f2, e);
}

static int scale(int ms) {
    if (ms <= 0 || clock_factor == 1) return ms;
    return (int)((ms + clock_factor - 1) / clock_factor);
}
int epoll_wait(int fd, struct epoll_event *e, int n, int ms) {
    REAL(int, epoll_wait, int, struct epoll_event *, int, int);
    preempt();
    int r = real_epoll_wait(fd, e, n, scale(ms));
    if (r > 0 && __tsan_acquire) __tsan_acquire(&epoll_sync);
    preempt();
    return r;
}
int epoll_pwait(int fd, struct epoll_event *e, int n, int ms, const sigset_t *s) {
    REAL(int, epoll_pwait, int, struct epoll_event *, int, int, const sigset_t *);
    preempt();
    return real_epoll_pwait(fd, e, n, scale(ms), s);
}

#ifdef VSHIM_MALLOC
/* ------------------------------------------------------------------ pauses at allocations */
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { preempt(); return __libc_malloc(n); }
void free(void *p) { if (p) preempt(); __libc_free(p); }
void *realloc(void *p, size_t n) { preempt(); return __libc_realloc(p, n); }
#endif
