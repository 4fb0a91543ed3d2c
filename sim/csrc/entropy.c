/* Seam between the program and the kernel for everything nondeterministic the code under test can reach:
 * the random source (syscall(SYS_getrandom), getrandom), sleeping and clocks.
 * A thread opts in by setting sim_thread_active; all other threads get the real kernel. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/time.h>

extern long sim_entropy(void *buf, size_t len, unsigned flags);      /* >=0 count, <0 -errno */
extern void sim_sleep(uint64_t ns);
extern uint64_t sim_now(int clock);
extern int sim_open_random(const char *path);                        /* -2: not ours */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

__thread int sim_thread_active = 0;

void sim_set_active(int on) { sim_thread_active = on; }

/* Where another thread may go on (duo.rs): switched on while two pieces of work run at once. */
extern uint64_t sim_point(int kind);
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
__thread int sim_points = 0;
static __thread uint64_t sim_left = 0;      /* branches until the next turn */
static __thread uint8_t sim_hits[4096];     /* how often this call came by a branch */
static __thread uint64_t sim_meet = 0;      /* which branches are meeting places */
static __thread unsigned sim_every = 0;

/* kind 0: may go on, 1: cannot go on, 2: the branches are used up, 3: start, 4: a meeting place */
void sim_pause(int kind) {
    if (sim_points) {
        int e = errno, a = sim_thread_active;
        sim_points = 0;
        sim_thread_active = 0;
        uint64_t n = sim_point(kind);
        if (n > 0) {
            sim_left = n;
        }
        sim_thread_active = a;
        sim_points = 1;
        errno = e;
    }
}
/* meet: seed of the choice of meeting places, every: one branch in so many (0: none) */
void sim_set_points(int on, uint64_t meet, unsigned every) {
    if (on) {
        memset(sim_hits, 0, sizeof sim_hits);
        sim_meet = meet;
        sim_every = every;
    }
    sim_points = on;
    sim_pause(3);
}
/* The harness's own part of such a piece of work is not interrupted. */
static __thread int sim_kept = 0;
void sim_mute(int on) {
    if (on) {
        sim_kept = sim_points;
        sim_points = 0;
    } else {
        sim_points = sim_kept;
    }
}
/* called at every branch of the code under test */
static void __attribute__((noinline)) branch(char *pc) {
    if (--sim_left == 0) {
        sim_pause(2);
    } else if (sim_every) {
        uint64_t at = (uint64_t)(pc - (char *)sim_pause);
        at *= 0x9E3779B97F4A7C15ull;
        unsigned k = (unsigned)(at >> 52);
        if (sim_hits[k] < 3) {
            sim_hits[k]++;
            if ((((at ^ sim_meet) * 0xBF58476D1CE4E5B9ull) >> 40) % sim_every == 0) {
                sim_pause(4);
            }
        }
    }
}
void __sanitizer_cov_trace_pc(void) {
    if (__builtin_expect(sim_points, 0)) {
        branch(__builtin_return_address(0));
    }
}
void *malloc(size_t n) {
    sim_pause(0);
    return __libc_malloc(n);
}
void *calloc(size_t n, size_t k) {
    sim_pause(0);
    return __libc_calloc(n, k);
}
void *realloc(void *p, size_t n) {
    sim_pause(0);
    return __libc_realloc(p, n);
}
int sched_yield(void) {
    if (sim_points) {
        sim_pause(1);
        return 0;
    }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (n == SYS_futex && sim_points) {
        int op = (int)b & 0x7f;
        if (op == 0 || op == 9) {
            /* waits for a lock the other one holds: that one goes on; waking without cause is allowed */
            sim_pause(1);
            return 0;
        }
        r = raw6(n, a, b, c, d, e, f);
    } else if (n == SYS_getrandom && sim_thread_active) {
        sim_pause(0);
        r = sim_entropy((void *)a, (size_t)b, (unsigned)c);
    } else {
        r = raw6(n, a, b, c, d, e, f);
    }
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    long r;
    if (sim_thread_active) {
        sim_pause(0);
        r = sim_entropy(buf, len, flags);
    } else {
        r = raw6(SYS_getrandom, (long)buf, (long)len, (long)flags, 0, 0, 0);
    }
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

int getentropy(void *buf, size_t len) {
    size_t off = 0;
    if (len > 256) {
        errno = EIO;
        return -1;
    }
    while (off < len) {
        ssize_t r = getrandom((char *)buf + off, len - off, 0);
        if (r < 0) {
            if (errno == EINTR) {
                continue;
            }
            return -1;
        }
        off += (size_t)r;
    }
    return 0;
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    if (sim_thread_active) {
        sim_sleep((uint64_t)req->tv_sec * 1000000000ull + (uint64_t)req->tv_nsec);
        return 0;
    }
    return (int)-raw6(SYS_clock_nanosleep, id, flags, (long)req, (long)rem, 0, 0);
}

int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (sim_thread_active) {
        sim_sleep((uint64_t)req->tv_sec * 1000000000ull + (uint64_t)req->tv_nsec);
        return 0;
    }
    long r = raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return 0;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (sim_thread_active) {
        sim_pause(0);
        uint64_t t = sim_now((int)id);
        ts->tv_sec = (time_t)(t / 1000000000ull);
        ts->tv_nsec = (long)(t % 1000000000ull);
        return 0;
    }
    long r = raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return 0;
}

time_t time(time_t *out) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) {
        *out = ts.tv_sec;
    }
    return ts.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

/* Random device files. */
static int do_open(const char *path, int flags, int mode) {
    if (sim_thread_active) {
        int r = sim_open_random(path);
        if (r >= 0) {
            return r;
        }
        if (r != -2) {
            errno = -r;
            return -1;
        }
    }
    long r = raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return (int)r;
}

int open(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return do_open(path, flags, mode);
}

int open64(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return do_open(path, flags | O_LARGEFILE, mode);
}
