// Everything outside the library, as the simulator lets it be seen: a deterministic
// allocator, a simulated clock and random source, no files; every one of them can fail.
#define _GNU_SOURCE
#include "sim.h"
#include <string.h>
#include <stdarg.h>
#include <errno.h>
int env_fail;
u64 env_calls, env_prints, env_allocs, env_failed, env_state;
char env_last[32];
static rng env_rng;
static u64 clk;
static u8 heap[1 << 23] __attribute__((aligned(64)));
static size_t heap_top;
void env_reset(u64 seed)
{
    env_rng.s = seed ^ 0xE17;
    clk = 1000000 + below(&env_rng, 1u << 30);
    heap_top = 0;
    env_calls = env_prints = env_allocs = env_failed = env_state = 0;
    env_last[0] = 0;
}
static void note(const char *n)
{
    env_calls++;
    if (env_fail) env_failed++;
    strncpy(env_last, n, sizeof env_last - 1);
}
static void *alloc(size_t n, size_t al)
{
    env_allocs++;
    if (env_fail || al > 4096 || n > sizeof heap / 2) { errno = ENOMEM; return 0; }
    if (al < 16) al = 16;
    size_t p = (heap_top + 16 + al - 1) / al * al;
    if (p + n > sizeof heap) { errno = ENOMEM; return 0; }
    heap_top = p + n;
    memcpy(heap + p - 8, &(u32){(u32)n}, 4);
    for (size_t i = 0; i < n; i++) heap[p + i] = (u8)(0xA5 + i + env_allocs); // stale bytes
    return heap + p;
}
void *env_malloc(size_t n) { note("malloc"); return alloc(n, 16); }
void *env_calloc(size_t a, size_t b) { note("calloc"); if (b && a > (size_t)-1 / b) return 0; void *p = alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void *env_reallocarray(void *o, size_t a, size_t b);
void *env_realloc(void *o, size_t n)
{
    note("realloc");
    void *p = alloc(n, 16);
    if (p && o) { u32 m; memcpy(&m, (u8 *)o - 8, 4); memcpy(p, o, m < n ? m : n); }
    return p;
}
void *env_reallocarray(void *o, size_t a, size_t b) { return env_realloc(o, a * b); }
void env_free(void *p) { (void)p; }
void *env_aligned_alloc(size_t al, size_t n) { note("aligned_alloc"); return alloc(n, al); }
void *env_memalign(size_t al, size_t n) { note("memalign"); return alloc(n, al); }
void *env_valloc(size_t n) { note("valloc"); return alloc(n, 4096); }
int env_posix_memalign(void **p, size_t al, size_t n) { note("posix_memalign"); void *q = alloc(n, al); if (!q) return ENOMEM; *p = q; return 0; }
char *env_strdup(const char *s) { note("strdup"); size_t n = strlen(s) + 1; char *p = alloc(n, 16); if (p) memcpy(p, s, n); return p; }
#define PRINT(name, ...) int env_##name(__VA_ARGS__) { note(#name); env_prints++; return env_fail ? -1 : 1; }
PRINT(printf, const char *f, ...) PRINT(puts, const char *s) PRINT(putchar, int c) PRINT(putc, int c, void *f) PRINT(fputc, int c, void *f)
PRINT(fputs, const char *s, void *f) PRINT(fprintf, void *f, const char *s, ...) PRINT(vprintf, const char *f, va_list a)
PRINT(vfprintf, void *f, const char *s, va_list a) PRINT(__printf_chk, int k, const char *f, ...) PRINT(__fprintf_chk, void *f, int k, const char *s, ...)
PRINT(__vprintf_chk, int k, const char *f, va_list a) PRINT(__vfprintf_chk, void *f, int k, const char *s, va_list a)
size_t env_fwrite(const void *p, size_t a, size_t b, void *f) { note("fwrite"); env_prints++; return env_fail ? 0 : b; }
int env_fflush(void *f) { note("fflush"); return env_fail ? -1 : 0; }
void env_perror(const char *s) { note("perror"); env_prints++; }
#define STATE(type, name, val, ...) type env_##name(__VA_ARGS__) { note(#name); env_state++; return val; }
#define FAILS(type, name, val, ...) type env_##name(__VA_ARGS__) { note(#name); errno = EIO; return val; }
FAILS(void *, fopen, 0, const char *p, const char *m) FAILS(int, fclose, -1, void *f) FAILS(size_t, fread, 0, void *p, size_t a, size_t b, void *f)
FAILS(char *, fgets, 0, char *s, int n, void *f) FAILS(int, fgetc, -1, void *f) FAILS(int, getc, -1, void *f) FAILS(int, getchar, -1, void)
FAILS(int, open, -1, const char *p, int fl, ...) FAILS(int, openat, -1, int d, const char *p, int fl, ...) FAILS(int, close, -1, int d) FAILS(long, read, -1, int d, void *p, size_t n)
long env_write(int d, const void *p, size_t n) { note("write"); env_prints++; errno = EIO; return env_fail ? -1 : (long)n; }
FAILS(long, lseek, -1, int d, long o, int w)
static long rndbytes(void *p, size_t n) { if (env_fail) { errno = EIO; return -1; } for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)rnd(&env_rng); return (long)n; }
long env_getrandom(void *p, size_t n, unsigned f) { note("getrandom"); return rndbytes(p, n); }
int env_getentropy(void *p, size_t n) { note("getentropy"); return rndbytes(p, n) < 0 ? -1 : 0; }
int env_rand(void) { note("rand"); return (int)(rnd(&env_rng) >> 33); }
long env_random(void) { note("random"); return (long)(rnd(&env_rng) >> 33); }
void env_srand(unsigned s) { note("srand"); }
void env_srandom(unsigned s) { note("srandom"); }
int env_rand_r(unsigned *s) { note("rand_r"); return (int)(rnd(&env_rng) >> 33); }
double env_drand48(void) { note("drand48"); return 0.5; }
u32 env_arc4random(void) { note("arc4random"); return (u32)rnd(&env_rng); }
void env_arc4random_buf(void *p, size_t n) { note("arc4random_buf"); for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)rnd(&env_rng); }
static u64 tick(void) { clk += below(&env_rng, 4000); if (chance(&env_rng, 1, 8)) clk += below(&env_rng, 4000000000u); if (chance(&env_rng, 1, 16)) clk /= 2; return clk; }
u64 env_tsc(void) { note("rdtsc"); return env_fail ? 0 : tick(); }
long env_time(long *p) { note("time"); if (env_fail) return -1; long v = (long)(tick() / 1000000); if (p) *p = v; return v; }
long env_clock(void) { note("clock"); return env_fail ? -1 : (long)tick(); }
int env_clock_gettime(int c, long *ts) { note("clock_gettime"); if (env_fail) return -1; u64 v = tick(); ts[0] = (long)(v / 1000000); ts[1] = (long)(v % 1000000) * 1000; return 0; }
int env_gettimeofday(long *tv, void *z) { note("gettimeofday"); if (env_fail) return -1; u64 v = tick(); tv[0] = (long)(v / 1000000); tv[1] = (long)(v % 1000000); return 0; }
FAILS(long, times, -1, void *p)
FAILS(char *, getenv, 0, const char *n) FAILS(char *, secure_getenv, 0, const char *n)
FAILS(int, sleep, 0, unsigned n) FAILS(int, usleep, 0, unsigned n) FAILS(int, nanosleep, 0, void *a, void *b) FAILS(int, sched_yield, 0, void) FAILS(int, poll, -1, void *p, int n, int t) FAILS(int, select, -1, int n, void *a, void *b, void *c, void *d)
#define DIES(name, ...) void env_##name(__VA_ARGS__) { note(#name); abandon_now(F_ABORT); }
DIES(abort, void) DIES(exit, int c) DIES(_exit, int c) DIES(_Exit, int c) DIES(__assert_fail, const char *a, const char *b, unsigned c, const char *d) DIES(__assert, const char *a, const char *b, int c) DIES(raise, int s)
FAILS(int, kill, -1, int p, int s) STATE(void *, signal, (void *)-1, int s, void *h) STATE(int, sigaction, -1, int s, void *a, void *b)
STATE(int, sigprocmask, 0, int h, void *a, void *b) STATE(int, pthread_sigmask, 0, int h, void *a, void *b)
STATE(int, atexit, -1, void *f) STATE(int, setenv, -1, const char *n, const char *v, int o) STATE(int, putenv, -1, char *s) STATE(char *, setlocale, 0, int c, const char *l)
STATE(int, fesetround, -1, int r) STATE(int, fesetenv, -1, const void *e) STATE(int, feholdexcept, -1, void *e) STATE(int, feupdateenv, -1, const void *e) STATE(unsigned, alarm, 0, unsigned s) STATE(int, setpriority, -1, int a, unsigned b, int c) STATE(int, sched_setaffinity, -1, int p, size_t n, const void *m) STATE(int, sched_setscheduler, -1, int p, int q, const void *s)
// locks: a simulated thread that must wait gives the processor away; nobody can wait for itself
extern int sim_yield(void);
static int lock(volatile int *m) { int n = 0; while (*m) if (!sim_yield() || ++n > 200000) abandon_now(F_DEADLOCK); *m = 1; return 0; }
int env_pthread_mutex_lock(int *m) { note("pthread_mutex_lock"); return lock(m); }
int env_pthread_mutex_trylock(int *m) { note("pthread_mutex_trylock"); if (*m) return EBUSY; *m = 1; return 0; }
int env_pthread_mutex_unlock(int *m) { *m = 0; return 0; }
int env_pthread_mutex_init(int *m, void *a) { *m = 0; return 0; }
int env_pthread_mutex_destroy(int *m) { return 0; }
int env_pthread_spin_lock(int *m) { note("pthread_spin_lock"); return lock(m); }
int env_pthread_spin_unlock(int *m) { *m = 0; return 0; }
int env_pthread_spin_init(int *m, int s) { *m = 0; return 0; }
int env_pthread_once(int *o, void (*f)(void)) { note("pthread_once"); if (!*o) { *o = 1; f(); } return 0; }
FAILS(int, pthread_create, EAGAIN, void *a, void *b, void *c, void *d) FAILS(int, pthread_join, ESRCH, u64 t, void **r)
u64 env_pthread_self(void) { return 1 + (u64)cur_task; }
FAILS(void *, pthread_getspecific, 0, unsigned k) FAILS(int, pthread_setspecific, ENOMEM, unsigned k, void *p) FAILS(int, pthread_key_create, EAGAIN, void *k, void *d)
void *env_mmap(void *a, size_t n, int p, int f, int d, long o) { note("mmap"); void *q = alloc(n, 4096); if (!q) return (void *)-1; memset(q, 0, n); return q; }
FAILS(int, munmap, 0, void *a, size_t n) FAILS(int, mprotect, -1, void *a, size_t n, int p) FAILS(int, mlock, -1, void *a, size_t n) FAILS(int, munlock, -1, void *a, size_t n)
FAILS(long, syscall, -1, long n, ...)
int env_getpid(void) { note("getpid"); return 4711; }
int env_gettid(void) { note("gettid"); return 4711 + cur_task; }
FAILS(long, sysconf, -1, int n)
