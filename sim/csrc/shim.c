#define _GNU_SOURCE
#include "shim.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <poll.h>
#include <sys/types.h>

__thread struct sim_guard sim_g;

/* ---- leaving */
static void leave(int why) __attribute__((noreturn));
static void leave(int why) {
    if (!sim_g.on) {
        abort();
    }
    sim_g.on = 0;
    siglongjmp(sim_g.jb, why);
}
void sim_shim_exit(int code) { sim_g.code = code; leave(1); }
void sim_shim__Exit(int code) { sim_g.code = code; leave(1); }
void sim_shim_abort(void) { leave(3); }
void sim_shim___assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
    (void)a; (void)f; (void)l; (void)fn;
    leave(3);
}
void sim_shim___stack_chk_fail(void) { leave(2); }

static struct sigaction old_segv, old_bus;
static void on_fault(int sig, siginfo_t *si, void *uc) {
    if (sim_g.on) {
        sim_g.on = 0;
        siglongjmp(sim_g.jb, 2);
    }
    struct sigaction *o = sig == SIGSEGV ? &old_segv : &old_bus;
    if (o->sa_flags & SA_SIGINFO) {
        o->sa_sigaction(sig, si, uc);
    } else {
        signal(sig, SIG_DFL);
    }
}
void sim_guard_install(void) {
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = on_fault;
    a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &a, &old_segv);
    sigaction(SIGBUS, &a, &old_bus);
}

/* ---- memory: canaries on both sides, garbage inside, a planned failure */
#define CAN 32
#define MAXB 256
struct mem { void *p; size_t n; };
static __thread struct mem blocks[MAXB];
static __thread int nblocks;
static __thread long countdown = -1; /* allocations until one fails */
static __thread int bad;             /* 1 overrun, 2 bad or double free */
static __thread unsigned long nalloc, nfail;

void sim_mem_reset(void) {
    for (int i = 0; i < nblocks; i++) {
        free((char *)blocks[i].p - CAN);
    }
    nblocks = 0; countdown = -1; bad = 0; nalloc = 0; nfail = 0;
}
void sim_mem_fail_in(long n) { countdown = n; }
int sim_mem_live(void) { return nblocks; }
int sim_mem_bad(void) { return bad; }
unsigned long sim_mem_allocs(void) { return nalloc; }
unsigned long sim_mem_failed(void) { return nfail; }

static int intact(struct mem *m) {
    unsigned char *p = m->p;
    for (size_t i = 0; i < CAN; i++) {
        if (p[-1 - (long)i] != 0xC7 || p[m->n + i] != 0xC7) {
            return 0;
        }
    }
    return 1;
}
void sim_mem_check(void) {
    for (int i = 0; i < nblocks; i++) {
        if (!intact(&blocks[i])) {
            bad = 1;
        }
    }
}
void *sim_shim_malloc(size_t n) {
    nalloc++;
    if (countdown >= 0 && countdown-- == 0) {
        nfail++;
        countdown = 0; /* memory stays exhausted */
        errno = ENOMEM;
        return NULL;
    }
    if (nblocks == MAXB) {
        leave(4);
    }
    unsigned char *p = malloc(n + 2 * CAN);
    memset(p, 0xC7, n + 2 * CAN);
    memset(p + CAN, 0x5E, n);
    blocks[nblocks].p = p + CAN;
    blocks[nblocks++].n = n;
    return p + CAN;
}
void sim_shim_free(void *p) {
    if (!p) {
        return;
    }
    for (int i = 0; i < nblocks; i++) {
        if (blocks[i].p == p) {
            if (!intact(&blocks[i])) {
                bad = 1;
            }
            memset(p, 0xDD, blocks[i].n);
            free((char *)p - CAN);
            blocks[i] = blocks[--nblocks];
            return;
        }
    }
    bad = 2;
}
void *sim_shim_calloc(size_t a, size_t b) {
    void *p = sim_shim_malloc(a * b);
    if (p) {
        memset(p, 0, a * b);
    }
    return p;
}
void *sim_shim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_shim_malloc(n); }
int sim_shim_posix_memalign(void **p, size_t al, size_t n) { (void)al; *p = sim_shim_malloc(n); return *p ? 0 : ENOMEM; }
void *sim_shim_realloc(void *p, size_t n) {
    void *q = sim_shim_malloc(n);
    if (q && p) {
        for (int i = 0; i < nblocks; i++) {
            if (blocks[i].p == p) {
                memcpy(q, p, blocks[i].n < n ? blocks[i].n : n);
            }
        }
        sim_shim_free(p);
    }
    return q;
}

/* ---- random devices: every call is decided by the simulator (src/props/p19.rs) */
enum { C_GETRANDOM, C_OPEN, C_READ, C_CLOSE, C_IOCTL, C_POLL, C_FOPEN, C_FCLOSE, C_FSCANF };
/* result >= 0, or -errno; -100000: the code does not stop asking */
extern long sim_dev(int call, long fd, void *buf, size_t len, const char *path);
static long dev(int call, long fd, void *buf, size_t len, const char *path) {
    long r = sim_dev(call, fd, buf, len, path);
    if (r == -100000) {
        leave(4);
    }
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
ssize_t sim_shim_getrandom(void *b, size_t n, unsigned fl) { (void)fl; return dev(C_GETRANDOM, -1, b, n, NULL); }
int sim_shim_getentropy(void *b, size_t n) { return dev(C_GETRANDOM, -1, b, n, NULL) == (long)n ? 0 : -1; }
long sim_shim_syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    void *b = va_arg(ap, void *);
    size_t len = va_arg(ap, size_t);
    va_end(ap);
    if (n != 318) {
        leave(3);
    }
    return dev(C_GETRANDOM, -1, b, len, NULL);
}
int sim_shim_open(const char *p, int fl, ...) { (void)fl; return (int)dev(C_OPEN, -1, NULL, 0, p); }
int sim_shim_open64(const char *p, int fl, ...) { (void)fl; return (int)dev(C_OPEN, -1, NULL, 0, p); }
int sim_shim_openat(int d, const char *p, int fl, ...) { (void)fl; (void)d; return (int)dev(C_OPEN, -1, NULL, 0, p); }
ssize_t sim_shim_read(int fd, void *b, size_t n) { return dev(C_READ, fd, b, n, NULL); }
int sim_shim_close(int fd) { return (int)dev(C_CLOSE, fd, NULL, 0, NULL); }
int sim_shim_ioctl(int fd, unsigned long rq, ...) {
    va_list ap;
    va_start(ap, rq);
    int *e = va_arg(ap, int *);
    va_end(ap);
    return (int)dev(C_IOCTL, fd, e, sizeof *e, NULL);
}
int sim_shim_poll(struct pollfd *p, nfds_t n, int t) { (void)n; (void)t; return (int)dev(C_POLL, p->fd, NULL, 0, NULL); }
FILE *sim_shim_fopen(const char *p, const char *m) {
    (void)m;
    long r = dev(C_FOPEN, -1, NULL, 0, p);
    return r < 0 ? NULL : (FILE *)r;
}
FILE *sim_shim_fopen64(const char *p, const char *m) { return sim_shim_fopen(p, m); }
int sim_shim_fclose(FILE *f) { return (int)dev(C_FCLOSE, (long)f, NULL, 0, NULL); }
void sim_shim_rewind(FILE *f) { (void)f; }
static int scan(FILE *f, va_list ap) {
    if (f == NULL) {
        leave(2);
    }
    return (int)dev(C_FSCANF, (long)f, va_arg(ap, int *), sizeof(int), NULL);
}
int sim_shim_fscanf(FILE *f, const char *fmt, ...) { (void)fmt; va_list ap; va_start(ap, fmt); int r = scan(f, ap); va_end(ap); return r; }
int sim_shim___isoc99_fscanf(FILE *f, const char *fmt, ...) { (void)fmt; va_list ap; va_start(ap, fmt); int r = scan(f, ap); va_end(ap); return r; }
int sim_shim___isoc23_fscanf(FILE *f, const char *fmt, ...) { (void)fmt; va_list ap; va_start(ap, fmt); int r = scan(f, ap); va_end(ap); return r; }

/* ---- the random-bytes functions under test */
typedef int rb_fn(uint8_t *, size_t);
extern rb_fn pc_glibc_PQCLEAN_randombytes, pc_sys_PQCLEAN_randombytes, pc_dev_PQCLEAN_randombytes, pi_sys_PQCRYPTO_RUST_randombytes, pi_dev_PQCRYPTO_RUST_randombytes;
static rb_fn *const rbs[] = {pc_glibc_PQCLEAN_randombytes, pc_sys_PQCLEAN_randombytes, pc_dev_PQCLEAN_randombytes, pi_sys_PQCRYPTO_RUST_randombytes, pi_dev_PQCRYPTO_RUST_randombytes};
int sim_randombytes(int which, uint8_t *b, size_t n, int *ret) {
    volatile int r = -99;
    int w = SIM_GUARDED(r = rbs[which](b, n));
    *ret = r;
    return w;
}

/* ---- places whose end is the end of the accessible memory */
#include <pthread.h>
#include <sys/mman.h>
#define ARENA (24u << 20)
static __thread uint8_t *arena[4];
static pthread_key_t arena_key;
static pthread_once_t arena_once = PTHREAD_ONCE_INIT;
static void arena_gone(void *a) {
    for (int k = 0; k < 4; k++) {
        if (((uint8_t **)a)[k]) {
            munmap(((uint8_t **)a)[k] - 4096, ARENA + 8192);
            ((uint8_t **)a)[k] = NULL;
        }
    }
}
static void arena_init(void) { pthread_key_create(&arena_key, arena_gone); }
uint8_t *sim_arena_end(int k) {
    if (!arena[k]) {
        uint8_t *p = mmap(NULL, ARENA + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED || mprotect(p + 4096, ARENA, PROT_READ | PROT_WRITE)) {
            abort();
        }
        arena[k] = p + 4096;
        pthread_once(&arena_once, arena_init);
        pthread_setspecific(arena_key, arena);
    }
    return arena[k] + ARENA;
}
