// Engine: memory, tasks, context switches, faults, operations.
#define _GNU_SOURCE
#include "sim.h"
#include "model.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <errno.h>

// ---------------------------------------------------------------- randomness
u64 mix64(u64 x)
{
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 27; x *= 0x94D049BB133111EBull;
    return x ^ x >> 31;
}
u64 rnd(rng *r) { return mix64(r->s += 0x9E3779B97F4A7C15ull); }
u64 below(rng *r, u64 n) { return n ? rnd(r) % n : 0; }
int chance(rng *r, unsigned num, unsigned den) { return below(r, den) < num; }
u64 hash_bytes(u64 h, const void *p, size_t n)
{
    const u8 *b = p;
    h ^= n * 0x9E3779B97F4A7C15ull;
    while (n >= 8) { u64 w; memcpy(&w, b, 8); h = (h ^ w) * 0x9FB21C651E98DF25ull; h ^= h >> 32; b += 8; n -= 8; }
    u64 w = 0;
    memcpy(&w, b, n);
    h = (h ^ w) * 0x9FB21C651E98DF25ull;
    return h ^ h >> 29;
}
u64 hstr(const char *s) { return hash_bytes(7, s, strlen(s)); }
void content(u8 *p, u64 seed, size_t n)
{
    if (seed >> 63) { // a given value of 1, 2, 4 bytes at a given place, or in every byte
        u64 pos = seed >> 32 & 0xffff, width = seed >> 48 & 3, base = seed >> 50 & 0x1fff;
        u32 v = (u32)seed;
        content(p, base << 16, n);
        if (width == 3) memset(p, (int)(v & 0xff), n);
        else for (u64 i = 0; i < 1u << width; i++) if (pos + i < n) p[pos + i] = (u8)(v >> 8 * i);
        return;
    }
    u64 base = seed >> 16, var = seed & 0xffff;
    if (base == 0) memset(p, 0, n);
    else if (base == 1) memset(p, 0xff, n);
    else if (base == 2) for (size_t i = 0; i < n; i++) p[i] = (u8)i;
    else {
        rng r = {base * 0xD1342543DE82EF95ull};
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { u64 w = rnd(&r); memcpy(p + i, &w, 8); }
        if (i < n) { u64 w = rnd(&r); memcpy(p + i, &w, n - i); }
    }
    if (var && n) { u64 b = (var - 1) % (8 * (u64)n); p[b / 8] ^= (u8)(0x80 >> b % 8); }
}

// ---------------------------------------------------------------- counters
int violated;
char vtext[1024];
u64 fk[FK_N], loghash, sim_time, n_ops, n_nontrivial;
const char *const FKNAME[FK_N] = {
    "preemption", "preemption_at_static_access", "interrupt", "interrupt_nested", "abandoned_call", "forged_message", "bit_flip", "truncation",
    "truncation_below_tag", "extension", "extension_by_2^k", "splice", "wrong_key", "wrong_nonce", "wrong_ad", "replay", "message_loss",
    "duplication", "delay_reorder", "node_crash", "node_restart", "torn_write", "storage_bit_rot", "stale_stack", "stale_output",
    "buffer_reuse", "guard_page", "readonly_memory", "adjacent_foreign_data", "misaligned_buffer", "null_pointer", "allocation_and_service_failure",
    "small_stack", "clock_skew", "secret_changed", "tag_error_position", "observation", "partition", "slow_node", "caller_state", "in_place", "length_beyond_memory", "length_beyond_32_bits", "packed_buffers", "shared_pointers"};
const char *const FAULTNAME[] = {"none", "SIGSEGV", "SIGBUS", "SIGILL", "SIGFPE", "ABORT", "STEP-BUDGET", "STACK-SMASHED", "DEADLOCK", "OTHER"};
void violation(const char *fmt, ...)
{
    if (violated) return;
    violated = 1;
    va_list a;
    va_start(a, fmt);
    vsnprintf(vtext, sizeof vtext, fmt, a);
    va_end(a);
    for (char *c = vtext; *c; c++) if (*c == '\n') *c = ' ';
}
void evlog(u64 h) { loghash = mix64(loghash * 0x9E3779B97F4A7C15ull + h + 1); }

// ---------------------------------------------------------------- memory
#define BASE_RW 0x60000000u
#define BASE_RO 0x68000000u
#define TSTRIDE 0xA00000u
#define SSTRIDE 0x150000u
#define SOFF 0xC000u
u8 *slot_rw(int t, int s) { return (u8 *)(uptr)(BASE_RW + (u32)t * TSTRIDE + (u32)s * SSTRIDE + SOFF); }
u8 *slot_ro(int t, int s) { return (u8 *)(uptr)(BASE_RO + (u32)t * TSTRIDE + (u32)s * SSTRIDE + SOFF); }
static u8 *any_view(u8 *p) { return (uptr)p >= BASE_RO && (uptr)p < BASE_RO + TASKS * TSTRIDE ? p - (BASE_RO - BASE_RW) : p; }
static void die(const char *s) { fprintf(stderr, "simulator: %s\n", s); _exit(3); }
#define STACK_MORE 0xa0000u
char *stack_lo(int t) { return (char *)(uptr)(BASE_RW + (u32)t * TSTRIDE + 0x800000u + STACK_MORE); }
// room below the normal stack, for code compiled without optimisation (its frames are several times larger)
void stack_more(int on)
{
    static int now;
    if (on == now) return;
    now = on;
    for (int t = 0; t < TASKS; t++)
        if (mprotect(stack_lo(t) - STACK_MORE + 0x10000, STACK_MORE - 0x10000, on ? PROT_READ | PROT_WRITE : PROT_NONE)) die("mprotect");
}
static void *map(uptr at, size_t n, int prot, int flags, int fd, off_t off)
{
    void *p = mmap((void *)at, n, prot, flags | MAP_FIXED, fd, off);
    if (p != (void *)at) { perror("mmap"); die("cannot map simulated memory"); }
    return p;
}

// ---------------------------------------------------------------- tasks
#define MAXIMPLS 128
struct task {
    void *sp;
    struct call *c;
    int why, fault, started;
    uptr faddr;
    u64 steps;
    char *tls[MAXIMPLS][4];     // this thread's thread-local data, once it has run there
};
static struct task tasks[TASKS];
static void *main_sp;
int in_task, cur_task;
u64 run_epoch;
extern long sim_cnt;
extern unsigned char sim_watch;
extern uptr sim_rw_lo, sim_rw_hi;
extern u64 sim_total, trace_budget;
void sim_switch(void **save, void *load);
void sim_jump(void *load) __attribute__((noreturn));
void sim_entry(void);
void (*intr_cb)(int why);
static uptr span_lo, span_hi;
static u64 opseq;

int sim_abi(void *fn, const uptr *args, ...);
#if defined(__x86_64__)
void abi_set(uptr *st, u64 seed)
{
    static const uptr cw[] = {0x37f, 0x77f, 0xb7f, 0xf7f, 0x27f, 0x07f}, ms[] = {0, 0x2000, 0x4000, 0x6000, 0x8000, 0x40, 0x8040, 0xe040};
    rng r = {seed};
    for (int i = 0; i < 6; i++) st[i] = rnd(&r);
    st[6] = 0x1f80 | ms[below(&r, 8)];
    st[7] = cw[below(&r, 6)];
    st[8] = 0;
    st[9] = rnd(&r);
    st[10] = 0xffff;
    st[11] = 1 + below(&r, 100);
}
int abi_same(const uptr *a, const uptr *b, char *why, size_t n)
{
    static const char *const R[] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
    for (int i = 0; i < 6; i++) if (a[i] != b[i]) { snprintf(why, n, "register %s changes", R[i]); return 0; }
    if ((a[6] ^ b[6]) & 0xffc0) { snprintf(why, n, "the control bits of MXCSR change from %04lx to %04lx", (long)a[6], (long)b[6]); return 0; }
    if ((a[7] ^ b[7]) & 0xf3f) { snprintf(why, n, "the x87 control word changes from %04lx to %04lx", (long)a[7], (long)b[7]); return 0; }
    if (b[8] >> 10 & 1) { snprintf(why, n, "the direction flag is left set"); return 0; }
    if (b[8] >> 8 & 1 || b[8] >> 18 & 1) { snprintf(why, n, "the trap or alignment-check flag is left set"); return 0; }
    if (a[9] != b[9]) { snprintf(why, n, "the caller's stack frame changes"); return 0; }
    if ((b[10] & 0xffff) != 0xffff) { snprintf(why, n, "the x87 register stack is left in use"); return 0; }
    if (a[11] != b[11]) { snprintf(why, n, "errno changes"); return 0; }
    return 1;
}
static int abi_call(struct call *c)
{
    const struct impl *im = c->im;
    uptr a[9] = {0};
    void *fn;
    errno = (int)c->abi[11];
    if (c->kind == K_ENC) { fn = im->enc[c->variant]; a[0] = (uptr)c->out; a[1] = (uptr)c->len; a[2] = (uptr)c->in; a[3] = c->ilen; a[4] = (uptr)c->ad; a[5] = c->alen; a[7] = (uptr)c->n; a[8] = (uptr)c->k; }
    else if (c->kind == K_DEC) { fn = im->dec[c->variant]; a[0] = (uptr)c->out; a[1] = (uptr)c->len; a[3] = (uptr)c->in; a[4] = c->ilen; a[5] = (uptr)c->ad; a[6] = c->alen; a[7] = (uptr)c->n; a[8] = (uptr)c->k; }
    else { fn = im->hash[c->variant]; a[0] = (uptr)c->out; a[1] = (uptr)c->in; a[2] = c->ilen; }
    int r = sim_abi(fn, a, c->abi);
    c->abi[11] = (uptr)errno;
    return r;
}
#else
void abi_set(uptr *st, u64 seed)
{
    rng r = {seed};
    for (int i = 0; i < 9; i++) st[i] = (uptr)rnd(&r);
    st[9] = 1 + (uptr)below(&r, 100);
    st[10] = st[11] = 0;
    for (int i = 12; i < 28; i++) st[i] = (uptr)rnd(&r);
    st[28] = (uptr)below(&r, 16) << 22;     // rounding, flush to zero, default NaN
}
int abi_same(const uptr *a, const uptr *b, char *why, size_t n)
{
    for (int i = 0; i < 8; i++) if (a[i] != b[i]) { snprintf(why, n, "register r%d changes", i + 4); return 0; }
    if (a[8] != b[8]) { snprintf(why, n, "the caller's stack frame changes"); return 0; }
    if (a[9] != b[9]) { snprintf(why, n, "errno changes"); return 0; }
    for (int i = 12; i < 28; i++) if (a[i] != b[i]) { snprintf(why, n, "register d%d changes", 8 + (i - 12) / 2); return 0; }
    if ((a[28] ^ b[28]) & 0x07f79f00) { snprintf(why, n, "the control bits of FPSCR change from %08lx to %08lx", (long)a[28], (long)b[28]); return 0; }
    return 1;
}
static int abi_call(struct call *c)
{
    const struct impl *im = c->im;
    void *fn;
    errno = (int)c->abi[9];
    int r;
    if (c->kind == K_ENC) { fn = im->enc[c->variant]; uptr a[] = {(uptr)c->out, (uptr)c->len, (uptr)c->in, 0, (uptr)c->ilen, 0, (uptr)c->ad, 0, (uptr)c->alen, 0, 0, (uptr)c->n, (uptr)c->k}; r = sim_abi(fn, a, 13, c->abi); }
    else if (c->kind == K_DEC) { fn = im->dec[c->variant]; uptr a[] = {(uptr)c->out, (uptr)c->len, 0, (uptr)c->in, (uptr)c->ilen, 0, (uptr)c->ad, 0, (uptr)c->alen, 0, (uptr)c->n, (uptr)c->k}; r = sim_abi(fn, a, 12, c->abi); }
    else { fn = im->hash[c->variant]; uptr a[] = {(uptr)c->out, (uptr)c->in, (uptr)c->ilen, 0}; r = sim_abi(fn, a, 4, c->abi); }
    c->abi[9] = (uptr)errno;
    return r;
}
#endif
static void do_call(struct call *c)
{
    const struct impl *im = c->im;
    if (c->abi) { c->ret = abi_call(c); return; }
    if (c->kind == K_ENC) c->ret = im->enc[c->variant](c->out, c->len, c->in, c->ilen, c->ad, c->alen, 0, c->n, c->k);
    else if (c->kind == K_DEC) c->ret = im->dec[c->variant](c->out, c->len, 0, c->in, c->ilen, c->ad, c->alen, c->n, c->k);
    else c->ret = im->hash[c->variant](c->out, c->in, c->ilen);
}
void task_main(void)
{
    struct task *t = &tasks[cur_task];
    do_call(t->c);
    t->why = R_DONE;
    sim_switch(&t->sp, main_sp);
    die("finished task resumed");
}
// entered from the seam, on the task's stack
void sim_event(uptr pc, uptr addr, int why)
{
    struct task *t = &tasks[cur_task];
    (void)pc; (void)addr;
    if (why == 3) abandon_now(F_BUDGET);
    if (sim_mode == SM_INTR) { int e = errno; intr_cb(why); errno = e; return; }
    if (sim_mode == SM_COUNT) abandon_now(F_BUDGET);
    t->why = why == 2 ? R_WATCH : R_PREEMPT;
    sim_switch(&t->sp, main_sp);
}
int sim_yield(void)
{
    struct task *t = &tasks[cur_task];
    if (sim_mode != SM_RUN || !(t->c->variant & 1)) return 0;
    t->why = R_PREEMPT;
    sim_switch(&t->sp, main_sp);
    return 1;
}
void abandon_now(int fault)
{
    struct task *t = &tasks[cur_task];
    t->fault = fault;
    t->faddr = 0;
    t->why = R_FAULT;
    sim_jump(main_sp);
}
void sim_unaligned(uptr addr)
{   // an access that faults on a machine with strict alignment
    struct task *t = &tasks[cur_task];
    t->fault = F_BUS;
    t->faddr = addr;
    t->why = R_FAULT;
    sim_jump(main_sp);
}
void __stack_chk_fail(void) { if (in_task) abandon_now(F_STACK); die("stack check failed in simulator"); __builtin_unreachable(); }

#if defined(__x86_64__)
u64 env_tsc(void);
static int emulated(int sig, void *u)
{   // the processor's clock is the simulated one
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    const u8 *pc = (const u8 *)g[REG_RIP];
    if (sig != SIGSEGV || g[REG_TRAPNO] != 13) return 0;
    int p = pc[0] == 0x0f && pc[1] == 0x01 && pc[2] == 0xf9;
    if (!p && !(pc[0] == 0x0f && pc[1] == 0x31)) return 0;
    u64 v = in_task ? env_tsc() : 0;
    g[REG_RAX] = (greg_t)(v & 0xffffffff);
    g[REG_RDX] = (greg_t)(v >> 32);
    if (p) g[REG_RCX] = (greg_t)cur_task;
    g[REG_RIP] += p ? 3 : 2;
    return 1;
}
#else
#define emulated(s, u) ((void)(u), 0)
#endif
static void on_fault(int sig, siginfo_t *si, void *u)
{
    if (emulated(sig, u)) return;
    if (!in_task) {
        char b[96];
        int n = snprintf(b, sizeof b, "simulator: fatal signal %d at %p outside a task\n", sig, si->si_addr);
        if (write(2, b, (size_t)n)) {}
        _exit(3);
    }
    struct task *t = &tasks[cur_task];
    t->fault = sig == SIGSEGV ? F_SEGV : sig == SIGBUS ? F_BUS : sig == SIGILL || sig == SIGTRAP ? F_ILL : sig == SIGFPE ? F_FPE : F_ABORT;
    t->faddr = (uptr)si->si_addr;
    t->why = R_FAULT;
    sim_jump(main_sp);
}
static u64 tick_seq, tick_n;
u64 tick_limit = 6;  // times 3 s of processor time a call may take without seams
static void on_tick(int sig)
{
    (void)sig;
    if (!in_task || tick_seq != opseq) { tick_seq = opseq; tick_n = 0; return; }
    struct task *t = &tasks[cur_task];
    if (++tick_n < tick_limit * (t->c->variant & 1 ? 5 : 1)) return;   // steps are counted there
    tick_n = 0;
    t->fault = F_BUDGET;
    t->faddr = 0;
    t->why = R_FAULT;
    sim_jump(main_sp);
}
static char *rw_init[MAXIMPLS][4];
static char *tls_init[MAXIMPLS][4];
static unsigned tls_copy(const struct impl *im, int v, char *buf, int out)
{
    char *a[4];
    unsigned n[4], off = 0;
    int k = im->tls[v] ? im->tls[v](a, n) : 0;
    for (int i = 0; i < k; i++) {
        if (buf && out) memcpy(buf + off, a[i], n[i]);
        else if (buf) memcpy(a[i], buf + off, n[i]);
        off += n[i];
    }
    return off;
}
#if defined(__x86_64__)
// A buffer of a size no test allocates: one file mapped over and over. Only its first and last
// pages (HEDGE bytes) have memory of their own; what is between repeats, at a period that
// divides no power of two.
#define HPERIOD ((16u << 20) + 12288u)
u8 *huge_map(int which, u64 len, u64 seed)
{
    static u64 have[2], haveseed[2];
    static int fds[2] = {-1, -1};
    u8 *base = (u8 *)(0x200000000000ull + (u64)which * 0x10000000000ull);
    u64 n = (len + 0xffff) & ~0xfffull;
    if (have[which]) munmap(base, have[which]);
    have[which] = 0;
    if (fds[which] < 0) fds[which] = (int)syscall(SYS_memfd_create, "isap-huge", 0u);
    if (fds[which] < 0 || ftruncate(fds[which], HPERIOD)) return 0;
    u8 *w = mmap(0, HPERIOD, PROT_READ | PROT_WRITE, MAP_SHARED, fds[which], 0);
    if (w == MAP_FAILED) return 0;
    content(w, seed, HPERIOD);
    munmap(w, HPERIOD);
    haveseed[which] = seed;
    for (u64 a = 0; a < n; a += HPERIOD) {
        u64 k = n - a < HPERIOD ? n - a : HPERIOD;
        if (mmap(base + a, k, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fds[which], 0) == MAP_FAILED) return 0;
    }
    have[which] = n;
    u64 tail = (len - HEDGE) & ~0xfffull;
    for (int e = 0; e < 2; e++) for (u64 a = e ? tail : 0; a < (e ? n : HEDGE); a += 4096) {
            if (mmap(base + a, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fds[which], (off_t)(a % HPERIOD)) == MAP_FAILED) return 0;
            *(volatile u8 *)(base + a) = *(volatile u8 *)(base + a);
        }
    return base;
}
void huge_ro(u8 *b, u64 len) { mprotect(b, (len + 0xffff) & ~0xfffull, PROT_READ); }
#endif
void mem_init(void)
{
    size_t total = (size_t)TASKS * SLOTS * CAP;
    int fd = (int)syscall(SYS_memfd_create, "isap-sim", 0u);
    if (fd < 0) {
        char p[] = "/tmp/isap-sim-XXXXXX";
        fd = mkstemp(p);
        if (fd < 0) die("no memory file");
        unlink(p);
    }
    if (ftruncate(fd, (off_t)total)) die("ftruncate");
    for (int v = 0; v < 2; v++) map(v ? BASE_RO : BASE_RW, TASKS * TSTRIDE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int t = 0; t < TASKS; t++) {
        for (int s = 0; s < SLOTS; s++) {
            off_t off = (off_t)(t * SLOTS + s) * CAP;
            map((uptr)slot_rw(t, s), CAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, off);
            map((uptr)slot_ro(t, s), CAP, PROT_READ, MAP_SHARED, fd, off);
        }
        map((uptr)stack_lo(t), STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    close(fd);
    static char alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT};
    for (size_t i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval it = {{3, 0}, {3, 0}};
    setitimer(ITIMER_PROF, &it, 0);
#if defined(__x86_64__)
    prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
#endif
    if (NIMPLS > MAXIMPLS) die("too many implementations");
    for (int i = 0; i < NIMPLS; i++)
        for (int v = 0; v < 4; v++) {
            const struct impl *im = &IMPLS[i];
            size_t n = (size_t)(im->rw_hi[v] - im->rw_lo[v]);
            if (n) { rw_init[i][v] = malloc(n); memcpy(rw_init[i][v], im->rw_lo[v], n); }
            if (im->tls[v]) { tls_init[i][v] = malloc(tls_copy(im, v, 0, 1) + 1); tls_copy(im, v, tls_init[i][v], 1); }
        }
}
void pristine(void)
{
    for (int i = 0; i < NIMPLS; i++)
        for (int v = 0; v < 4; v++) {
            const struct impl *im = &IMPLS[i];
            size_t n = (size_t)(im->rw_hi[v] - im->rw_lo[v]);
            if (n) memcpy(im->rw_lo[v], rw_init[i][v], n);
            if (im->tls[v]) {
                tls_copy(im, v, tls_init[i][v], 0);
                for (int t = 0; t < TASKS; t++) { free(tasks[t].tls[i][v]); tasks[t].tls[i][v] = 0; }
            }
        }
}
void task_begin(int t, struct call *c)
{
    struct task *k = &tasks[t];
    uptr top = (uptr)stack_lo(t) + STACK - STACK_TOPGUARD;
    uptr *sp = (uptr *)top;
#if defined(__x86_64__)
    *--sp = (uptr)sim_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
#else
    *--sp = (uptr)sim_entry;
    for (int i = 0; i < 8 + 16; i++) *--sp = 0;
#endif
    k->sp = sp;
    k->c = c;
    k->fault = F_NONE;
    k->faddr = 0;
    k->steps = 0;
    k->started = 1;
    opseq++;
}
int task_run(int t, u64 steps, int watch)
{
    struct task *k = &tasks[t];
    const struct impl *im = k->c->im;
    int v = k->c->variant;
    int ix = (int)(im - IMPLS);
    if (im->tls[v]) tls_copy(im, v, k->tls[ix][v] ? k->tls[ix][v] : tls_init[ix][v], 0);
    long budget = steps > 0x7fffff00u ? 0x7fffff00 : (long)steps;
    if (sim_mode == SM_TRACE || sim_mode == SM_MON) { sim_total = 0; trace_budget = steps; budget = 0; }
    sim_rw_lo = (uptr)im->rw_lo[v];
    sim_rw_hi = (uptr)im->rw_hi[v];
    if (watch && span_hi > span_lo) { sim_rw_lo = span_lo; sim_rw_hi = span_hi; }
    sim_watch = (unsigned char)(watch && sim_rw_hi > sim_rw_lo);
    sim_cnt = budget;
    cur_task = t;
    in_task = 1;
    sim_switch(&main_sp, k->sp);
    in_task = 0;
#if defined(__x86_64__)
    __asm__ volatile("fninit; ldmxcsr %0" : : "m"((u32){0x1f80}));
#endif
    opseq++;
    if (sim_mode == SM_TRACE || sim_mode == SM_MON) k->steps += sim_total;
    else k->steps += (u64)(budget - (sim_cnt < 0 ? 0 : sim_cnt));
    sim_watch = 0;
    if (im->tls[v]) {
        if (!k->tls[ix][v]) k->tls[ix][v] = malloc(tls_copy(im, v, 0, 1) + 1);
        tls_copy(im, v, k->tls[ix][v], 1);
    }
    return k->why;
}
u64 task_steps(int t) { return tasks[t].steps; }
int task_fault(int t, uptr *addr) { if (addr) *addr = tasks[t].faddr; return tasks[t].why == R_FAULT ? tasks[t].fault : F_NONE; }
void task_paint(int t, u64 seed) { u64 *p = (u64 *)stack_lo(t); u64 w = mix64(seed + 77) | 1; if (seed == 0) w = 0; for (size_t i = 0; i < STACK / 8; i++) p[i] = w; }
u64 task_stack_used(int t)
{
    const u64 *p = (const u64 *)stack_lo(t);
    size_t i = 0;
    u64 w = p[0];
    while (i < STACK / 8 && p[i] == w) i++;
    return i * 8 >= STACK - STACK_TOPGUARD ? 0 : STACK - STACK_TOPGUARD - i * 8;
}
void intr_call(struct call *c, u64 next)
{
    sim_cnt = next > 0x7fffff00u ? 0x7fffff00 : (long)next;
    opseq++;
    do_call(c);
    opseq++;
}
void set_watch(int on) { sim_watch = (unsigned char)(on && sim_rw_hi > sim_rw_lo); }
void watch_span(uptr lo, uptr hi) { span_lo = lo; span_hi = hi; }
int changed_span(const struct impl *im, int v, uptr *lo, uptr *hi)
{
    const char *init = rw_init[im - IMPLS][v];
    size_t n = (size_t)(im->rw_hi[v] - im->rw_lo[v]), a = 0, b = n;
    while (a < n && init[a] == im->rw_lo[v][a]) a++;
    if (a == n) return 0;
    while (init[b - 1] == im->rw_lo[v][b - 1]) b--;
    *lo = (uptr)im->rw_lo[v] + a;
    *hi = (uptr)im->rw_lo[v] + b;
    return 1;
}
size_t statics_size(const struct impl *im, int v) { return (size_t)(im->rw_hi[v] - im->rw_lo[v]); }
void statics_save(const struct impl *im, int v, char *buf) { memcpy(buf, im->rw_lo[v], statics_size(im, v)); }
void statics_load(const struct impl *im, int v, const char *buf) { if (statics_size(im, v)) memcpy(im->rw_lo[v], buf ? buf : rw_init[im - IMPLS][v], statics_size(im, v)); }
void set_next(u64 n) { sim_cnt = n > 0x7fffff00u ? 0x7fffff00 : (long)n; }

// ---------------------------------------------------------------- operations
#define VBUF (CAP + 4096)
static u8 vad[VBUF], vin[VBUF], vtmp[VBUF];
void op_values(const struct op *o, struct vals *v)
{
    int alg = IMPLS[o->impl].alg;
    u64 alen = o->alen, mlen = o->mlen;
    if (alen > CAP - 512) alen = CAP - 512;
    if (mlen > CAP - 512) mlen = CAP - 512;
    content(v->k, o->kseed, 16);
    content(v->n, o->nseed, 16);
    content(vad, o->aseed, alen);
    v->ad = vad;
    v->alen = alen;
    v->in = vin;
    v->authentic = 1;
    if (o->kind == K_HASH) { content(vin, o->mseed, mlen); v->ilen = mlen; v->olen = 32; return; }
    if (o->kind == K_ENC) { content(vin, o->mseed, mlen); v->ilen = mlen; v->olen = mlen + 16; return; }
    content(vtmp, o->mseed, mlen);
    model_encrypt(alg, vin, vtmp, mlen, vad, alen, v->n, v->k);
    u64 clen = mlen + 16, p = o->tpos;
    rng r = {o->tval * 0x9E3779B97F4A7C15ull + 5};
    switch (o->tam) {
    case T_NONE: break;
    case T_FLIP: p %= 8 * clen; vin[p / 8] ^= (u8)(1u << p % 8); v->authentic = 0; break;
    case T_TRUNC: { u64 cut = 1 + p % clen; clen -= cut; v->authentic = 0; break; }
    case T_EXTEND: { u64 ext = 1 + p % 48; for (u64 i = 0; i < ext; i++) vin[clen + i] = (o->tval & 1) ? 0 : (u8)rnd(&r); clen += ext; v->authentic = 0; break; }
    case T_AD: if (alen) { p %= 8 * alen; vad[p / 8] ^= (u8)(1u << p % 8); } else { vad[0] = (u8)o->tval; v->alen = 1; } v->authentic = 0; break;
    case T_NONCE: p %= 128; v->n[p / 8] ^= (u8)(1u << p % 8); v->authentic = 0; break;
    case T_KEY: p %= 128; v->k[p / 8] ^= (u8)(1u << p % 8); v->authentic = 0; break;
    case T_TAGRND: { u8 d = 0; for (int i = 0; i < 16; i++) { u8 x = (u8)rnd(&r); d |= x; vin[clen - 16 + (u64)i] ^= x; } if (!d) vin[clen - 1] ^= 1; v->authentic = 0; break; }
    case T_TAGZERO: { u8 d = 0, f = (o->tval & 1) ? 0xff : 0; for (int i = 0; i < 16; i++) { d |= vin[clen - 16 + (u64)i] ^ f; vin[clen - 16 + (u64)i] = f; } v->authentic = !d; break; }
    case T_TAGMASK: { unsigned m = (unsigned)(o->tpos & 0xffff); if (!m) m = 0x8000; u8 x = (u8)o->tval; if (!x) x = 1; for (int i = 0; i < 16; i++) if (m >> i & 1) vin[clen - 16 + (u64)i] ^= x; v->authentic = 0; break; }
    case T_ADLEN: if (alen && (o->tval & 1)) v->alen = alen - 1 - p % alen; else { u64 ext = 1 + p % 20; for (u64 i = 0; i < ext; i++) vad[alen + i] = (o->tval & 2) ? 0 : (u8)rnd(&r); if ((o->tval & 4) && alen < CAP - 600) vad[alen] = 0x80; v->alen = alen + ext; } v->authentic = 0; break;
    case T_SHIFT: // move the boundary between associated data and ciphertext
        if ((o->tval & 1) && alen) { u64 k = 1 + p % alen; if (k > 256) k = 256; memmove(vin + k, vin, clen); memcpy(vin, vad + alen - k, k); v->alen = alen - k; clen += k; }
        else if (mlen) { u64 k = 1 + p % mlen; if (k > 256) k = 256; memcpy(vad + alen, vin, k); memmove(vin, vin + k, clen - k); v->alen = alen + k; clen -= k; }
        else { vin[clen - 1] ^= 0x40; }
        v->authentic = 0;
        break;
    case T_BURST: { u64 n = 1 + o->tval % 40; p %= clen; u8 d = 0; for (u64 i = p; i < p + n && i < clen; i++) { u8 x = (u8)rnd(&r); d |= x; vin[i] ^= x; } if (!d) vin[p] ^= 0x10; v->authentic = 0; break; }
    case T_TAGROT: { u8 t[16]; memcpy(t, vin + clen - 16, 16); unsigned s = 1 + (unsigned)(p % 15); u8 d = 0; for (unsigned i = 0; i < 16; i++) { d |= t[i] ^ t[(i + s) % 16]; vin[clen - 16 + i] = t[(i + s) % 16]; } v->authentic = !d; break; }
    case T_TAGSUM: { // two tag bytes wrong by opposite amounts
        unsigned i = (unsigned)(p & 15), j = (unsigned)(p >> 4 & 15);
        u8 d = (u8)(o->tval | 1);
        if (i == j) j = (i + 1) & 15;
        vin[clen - 16 + i] = (u8)(vin[clen - 16 + i] + d);
        vin[clen - 16 + j] = (u8)(vin[clen - 16 + j] - d);
        v->authentic = 0;
        break;
    }
    default: break;
    }
    v->ilen = clen;
    v->olen = clen >= 16 ? clen - 16 : 0;
}
static u8 *place(u64 kind, u64 off, u8 *base, u64 len)
{
    switch (kind) {
    case PL_LEFT: return base;
    case PL_ALIGNED: return base + 0x400 + 16 * (off % 8);
    case PL_NEAR: return base + CAP - len - 0x4000;
    case PL_ODD: return off & 0x80 ? base + 0x1000 * (1 + (off >> 6 & 1)) - off % 64 : base + 0x400 + off % 64;
    default: return base + CAP - len;
    }
}
#define MARGIN 64
static u8 CANARY(const u8 *p) { return (u8)((uptr)p * 0x9D ^ (uptr)p >> 7 ^ 0x5A); }
// aligned start for PL_RIGHT on machines where the workload keeps word alignment: poff bit 63
static void put(int task, int slot, u64 place_code, u64 off, const u8 *src, u64 len, u8 **lib)
{
    u64 kind = place_code >> (4 * slot) & 15;
    if (len > CAP - 0x2800) kind = PL_RIGHT;
    u8 *rw = place(kind, off >> (8 * slot) & 0xff, slot_rw(task, slot), len);
    if (off >> 63 && kind == PL_RIGHT) rw = (u8 *)((uptr)rw & ~(uptr)7);
    if (src && len) memcpy(rw, src, len);
    *lib = rw;
    if (kind == PL_NULL && !len) *lib = 0;
}
// poff bits 48-50: how the parts are rotated, 51-54: parts apart, 55-56: 0 and 1 in the input's memory, 2 before, 3 behind the output,
// 57: to the right edge
static void pack(const struct op *o, const struct vals *v, int task, int inplace, u64 span, struct call *c)
{
    unsigned w = (unsigned)(o->poff >> 48);
    const u8 *src[4] = {v->k, v->n, v->ad, v->in};
    u64 len[4] = {16, 16, v->alen, v->ilen}, total = 0;
    u8 **dst[4] = {&c->k, &c->n, &c->ad, &c->in};
    static const u8 ord[8][4] = {{0, 1, 2, 3}, {1, 2, 3, 0}, {2, 3, 0, 1}, {3, 2, 1, 0}, {1, 0, 2, 3}, {2, 1, 0, 3}, {0, 2, 3, 1}, {3, 0, 2, 1}};
    const u8 *od = ord[w & 7];
    int host = w >> 7 & 3, in[4];
    for (int i = 0; i < 4; i++) {
        in[i] = !(w >> (3 + i) & 1) && *dst[i];
        if (i == 3 && inplace) in[i] = 0;
        if (in[i]) total += len[i];
    }
    if (inplace) host &= 1;
    int slot = S_OUT;
    static const u8 own[] = {S_KEY, S_NONCE, S_AD, S_IN};
    if (host < 2) { // the memory of one of them
        int i = 0;
        while (i < 3 && !in[od[i]]) i++;
        if (!in[od[i]]) return;
        slot = own[od[i]];
    }
    u64 all = total + (host > 1 ? span : 0);
    if (all > CAP - 0x2800) return;
    fk[FK_PACKED]++;
    u8 *base = slot_rw(task, slot);
    u8 *p = w >> 9 & 1 ? base + CAP - all : base + 0x400 + (w >> 10 & 3) * 3;
    uptr ro = BASE_RO - BASE_RW;
    if (host == 3) { c->out = p; p += span; }
    u8 *start = p;
    for (int i = 0; i < 4; i++) if (in[od[i]]) {
            int j = od[i];
            if (len[j]) memcpy(p, src[j], len[j]);
            *dst[j] = p;
            if (host > 1) *dst[j] -= ro;    // added again below
            p += len[j];
        }
    if (host == 2) c->out = p;
    if (host > 1) { c->adj = start; c->adjlen = total; }
}
// what the caller's length variable holds before the call
static ull stale_len(u64 w, u64 olen)
{
    switch (w & 15) {
    case 1: return 0;
    case 2: return w >> 4;
    case 3: return olen;
    case 4: return olen + (w >> 4);
    case 5: return olen / 2;
    case 6: return olen > 16 ? olen - 16 : 16;
    case 7: return ~0ull;
    case 8: return olen > w >> 4 ? olen - (w >> 4) : 1;
    case 9: return (1 + (w >> 4)) << 30;
    case 10: return mix64(w);
    default: return 0xDEADBEEFCAFEF00Dull ^ w << 16;
    }
}
void op_place(const struct op *o, const struct vals *v, int task, int variant, int out_ro, struct call *c)
{
    uptr ro = BASE_RO - BASE_RW;
    u8 *lenp;
    memset(c, 0, sizeof *c);
    c->im = &IMPLS[o->impl];
    c->kind = (int)o->kind;
    c->variant = variant;
    c->op = o;
    c->alen = v->alen;
    c->ilen = v->ilen;
    c->olen = v->olen;
    put(task, S_KEY, o->place, o->poff, v->k, 16, &c->k);
    put(task, S_NONCE, o->place, o->poff, v->n, 16, &c->n);
    put(task, S_AD, o->place, o->poff, v->ad, v->alen, &c->ad);
    int inplace = o->poff & INPLACE && o->kind != K_HASH && v->ilen;
    u64 span = v->ilen > v->olen ? v->ilen : v->olen;
    if (!inplace) put(task, S_IN, o->place, o->poff, v->in, v->ilen, &c->in);
    put(task, S_OUT, o->place, o->poff, 0, inplace ? span : v->olen, &c->out);
    if (o->poff & PACKED) pack(o, v, task, inplace, span, c);
    c->k += ro; c->n += ro;
    if (c->ad) c->ad += ro;
    if (c->in) c->in += ro;
    if (o->poff & SHARE) {
        u8 *was[4] = {c->k, c->n, c->ad, c->in};
        if (!memcmp(v->k, v->n, 16)) c->n = c->k;
        if (v->alen && v->alen <= 16 && !memcmp(v->ad, v->n, v->alen)) c->ad = c->n;
        else if (v->alen && v->alen <= 16 && !memcmp(v->ad, v->k, v->alen)) c->ad = c->k;
        else if (v->alen && !inplace && v->alen <= v->ilen && !memcmp(v->ad, v->in, v->alen)) c->ad = c->in;
        else if (v->ilen && !inplace && v->ilen <= v->alen && !memcmp(v->ad, v->in, v->ilen)) c->in = c->ad;
        fk[FK_SHARED] += was[1] != c->n || was[2] != c->ad || was[3] != c->in;
    }
    if (inplace) c->in = c->out;
    if (!c->out) c->out = slot_rw(task, S_OUT);
    u8 *lo = slot_rw(task, S_OUT), *hi = lo + CAP;
    u8 *a = c->out - lo > MARGIN ? c->out - MARGIN : lo, *b = hi - (c->out + v->olen) > MARGIN ? c->out + v->olen + MARGIN : hi;
    if (c->adj && c->adj <= c->out) a = c->out;
    else if (c->adj) b = c->out + v->olen;
    for (u8 *p = a; p < c->out; p++) *p = CANARY(p);
    for (u8 *p = c->out + v->olen; p < b; p++) *p = CANARY(p);
    memset(c->out, (int)(o->aux3 & 0xff), v->olen);
    if (inplace) {
        for (u8 *p = c->out + v->olen; p < c->out + span; p++) *p = CANARY(p);
        memcpy(c->out, v->in, v->ilen);
        c->tail = v->ilen > v->olen ? v->ilen - v->olen : 0;
        memcpy(c->tailbytes, c->out + v->olen, c->tail < sizeof c->tailbytes ? c->tail : sizeof c->tailbytes);
    }
    if (c->adj) c->adjhash = hash_bytes(1, c->adj, c->adjlen);
    lenp = slot_rw(task, S_LEN) + CAP - 8;
    ull stale = stale_len(o->aux3 >> 8 & 0xff, v->olen);
    memcpy(lenp, &stale, 8);
    c->len = (ull *)lenp;
    if (out_ro) c->out += ro;
}
int canaries_ok(const struct call *c, int task, char *why, size_t n)
{
    u8 *out = any_view(c->out), *lo = slot_rw(task, S_OUT), *hi = lo + CAP;
    u8 *a = out - lo > MARGIN ? out - MARGIN : lo, *b = hi - (out + c->olen) > MARGIN ? out + c->olen + MARGIN : hi;
    if (c->adj) {
        if (hash_bytes(1, c->adj, c->adjlen) != c->adjhash) { snprintf(why, n, "the inputs next to the output were written"); return 0; }
        if (c->adj <= out) a = out; else b = out + c->olen;
    }
    if (c->tail) {
        if (memcmp(out + c->olen, c->tailbytes, c->tail < sizeof c->tailbytes ? c->tail : sizeof c->tailbytes)) { snprintf(why, n, "the bytes of the message behind the end of the output were written"); return 0; }
        b = out + c->olen;
    }
    for (u8 *p = a; p < out; p++) if (*p != CANARY(p)) { snprintf(why, n, "byte %ld before the output was written", (long)(out - p)); return 0; }
    for (u8 *p = out + c->olen; p < b; p++) if (*p != CANARY(p)) { snprintf(why, n, "byte %ld after the end of the output was written", (long)(p - (out + c->olen))); return 0; }
    return 1;
}
void op_result(const struct call *c, result *r)
{
    ull l = 0;
    r->ret = c->ret;
    if (c->kind != K_HASH) memcpy(&l, c->len, 8);
    r->len = c->kind == K_DEC && c->ret != 0 ? 0 : l;
    r->outhash = hash_bytes(0, any_view(c->out), c->olen);
}
int same_result(const result *a, const result *b)
{
    if (a->fault != b->fault) return 0;
    if (a->fault) return 1;
    return a->ret == b->ret && a->len == b->len && a->outhash == b->outhash;
}
void finish(int t, u64 budget)
{
    int m = sim_mode;
    sim_mode = SM_COUNT;
    static_hits = 0;
    task_run(t, budget, 0);
    sim_mode = m;
}
void run_alone(const struct op *o, int variant, int task, int mode, result *r)
{
    struct vals v;
    struct call c;
    memset(r, 0, sizeof *r);
    pristine();
    op_values(o, &v);
    op_place(o, &v, task, variant, 0, &c);
    sim_mode = mode;
    static_hits = 0;
    trace_hash = 0;
    task_begin(task, &c);
    task_run(task, 0x70000000u, mode == SM_COUNT);
    r->fault = task_fault(task, &r->faddr);
    r->steps = task_steps(task);
    r->statics = static_hits;
    r->trace = trace_hash;
    if (!r->fault) op_result(&c, r);
    n_ops++;
}
