/* Native runtime for the harnesses: replays one assignment of the symbolic bytes on the real code. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <semaphore.h>

static unsigned char *buf;
static size_t len, pos;
static uint64_t params[32];

void vx_sym(unsigned char *p, size_t n) {
    for (size_t i = 0; i < n; i++, pos++) p[i] = pos < len ? buf[pos] : 0;
}
uint64_t vx_param(uint64_t i) { return i < 32 ? params[i] : 0; }
void vx_assume(_Bool c) {
    if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(77); }
}
void vx_check(_Bool c, const char *p, size_t n) {
    if (!c) { printf("CHECK %.*s\n", (int)n, p); fflush(stdout); _Exit(1); }
}
void vx_cover(const char *p, size_t n) { printf("MARK %.*s\n", (int)n, p); fflush(stdout); }
void vx_log(uint64_t v) { printf("LOG %llu\n", (unsigned long long)v); fflush(stdout); }
uint64_t vx_fork(uint64_t v) { return v; }

/* coroutines: the threads of a harness, one running at a time; each on a thread of its own, so that
   what std keeps per thread (whether it is panicking) is kept apart */
static sem_t turn[16];
static int ncoro = 1, cur;
static struct { void (*f)(uint64_t); uint64_t arg; } start[16];
static void *enter_coro(void *k) {
    sem_wait(&turn[(intptr_t)k]);
    start[(intptr_t)k].f(start[(intptr_t)k].arg);
    abort();
}
uint64_t vx_coro(void (*f)(uint64_t), uint64_t arg) {
    int k = ncoro++;
    if (k >= 16) abort();
    start[k].f = f;
    start[k].arg = arg;
    pthread_attr_t a;
    pthread_t t;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 4 << 20);
    if (sem_init(&turn[k], 0, 0) || pthread_create(&t, &a, enter_coro, (void *)(intptr_t)k)) abort();
    return k;
}
void vx_switch(uint64_t to) {
    int old = cur;
    if ((uint64_t)old == to) return;
    cur = to;
    sem_post(&turn[to]);
    while (sem_wait(&turn[old])) {}
}
/* a panic ends its coroutine and the main one goes on, if asked for */
static int panics_end;
void vx_panics_end(void) { panics_end = 1; }
void abort(void) {
    if (panics_end && cur) {
        panics_end = 0;
        vx_switch(0);
    }
    signal(SIGABRT, SIG_DFL);
    raise(SIGABRT);
    _Exit(134);
}
/* futexes are the harness's, everything else is the kernel's */
long th_futex(uint32_t *addr, int op, uint32_t val);
long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (n == 202) return th_futex((uint32_t *)a, (int)b, (uint32_t)c);
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0) { *__errno_location() = -r; return -1; }
    return r;
}

/* memory is limited to 256 MB per request, as in the symbolic executor */
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
#define MEM_LIMIT ((size_t)1 << 28)
void *malloc(size_t n) { return n > MEM_LIMIT ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t k) { return k && n > MEM_LIMIT / k ? NULL : __libc_calloc(n, k); }
void *realloc(void *p, size_t n) { return n > MEM_LIMIT ? NULL : __libc_realloc(p, n); }

int main(int argc, char **argv) {
    if (argc < 4) return 3;
    int k = 0;
    for (char *s = strtok(strdup(argv[2]), ","); s; s = strtok(NULL, ",")) params[k++ & 31] = strtoull(s, NULL, 0);
    len = strlen(argv[3]) / 2;
    buf = malloc(len + 1);
    for (size_t i = 0; i < len; i++) {
        unsigned v;
        sscanf(argv[3] + 2 * i, "%2x", &v);
        buf[i] = v;
    }
    sem_init(&turn[0], 0, 0);
    void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, argv[1]);
    if (!f) return 3;
    f();
    printf("DONE\n");
    return 0;
}
