#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
typedef unsigned long long ull;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

// ---------------------------------------------------------------- subjects
typedef int (*enc_fn)(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *nsec, const u8 *npub, const u8 *k);
typedef int (*dec_fn)(u8 *m, ull *mlen, u8 *nsec, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *npub, const u8 *k);
typedef int (*hash_fn)(u8 *out, const u8 *in, ull inlen);
struct impl {
    const char *name;
    int alg, avx;
    const char *ext;            // calls that leave the library
    enc_fn enc[4];              // [0] plain (shipped code), [1] hooked (the same, a seam before each instruction), [2], [3] the same compiled without optimisation
    dec_fn dec[4];
    hash_fn hash[4];
    char *rw_lo[4], *rw_hi[4];  // writable static data
    int (*tls[4])(char **, unsigned *);
};
extern const struct impl IMPLS[];
extern const int NIMPLS;

// ---------------------------------------------------------------- randomness
typedef struct { u64 s; } rng;
u64 mix64(u64 x);
u64 rnd(rng *r);
u64 below(rng *r, u64 n);
int chance(rng *r, unsigned num, unsigned den);
u64 hash_bytes(u64 h, const void *p, size_t n);
void content(u8 *p, u64 seed, size_t n); // low 16 bits of seed: 0 = base content, v = base with bit v-1 flipped

// ---------------------------------------------------------------- memory
// Each task owns SLOTS slots of CAP bytes between inaccessible guards, seen through a
// writable view (simulator) and a read-only view (inputs, as the library sees them).
enum { S_KEY, S_NONCE, S_AD, S_IN, S_OUT, S_LEN, SLOTS };
#define TASKS 6
#define CAP 0x130000u
u8 *slot_rw(int task, int slot);
u8 *slot_ro(int task, int slot);
void mem_init(void);
#define HEDGE 8192u
u8 *huge_map(int which, u64 len, u64 seed);
void huge_ro(u8 *b, u64 len);
extern u64 tick_limit;
char *stack_lo(int task);
void stack_more(int on);
#define STACK 0x18000u
#define STACK_TOPGUARD 256u  // painted bytes above the initial stack pointer

// ---------------------------------------------------------------- operations
enum { K_ENC, K_DEC, K_HASH };
enum { T_NONE, T_FLIP, T_TRUNC, T_EXTEND, T_AD, T_NONCE, T_KEY, T_TAGRND, T_TAGZERO, T_TAGMASK, T_ADLEN, T_SHIFT, T_BURST, T_TAGROT, T_TAGSUM, T_COUNT };
// where the output goes: its own slot, or over the input (encryption and decryption in place)
#define INPLACE (1ull << 62)        // in op.poff
// inputs directly behind one another, in memory of their own or around the output; bits 48 to 59: how
#define PACKED (1ull << 61)
// one pointer for inputs whose values are equal
#define SHARE (1ull << 60)
enum { PL_RIGHT, PL_LEFT, PL_ALIGNED, PL_ODD, PL_NULL, PL_NEAR };
struct op {
    u64 task, kind, impl;           // impl: index in IMPLS (by name in replay files)
    u64 kseed, nseed, aseed, alen, mseed, mlen;
    u64 tam, tpos, tval;
    u64 place;                      // 4 bits per slot: kind, plus offset
    u64 poff;
    u64 aux, aux2, aux3;
};
enum { F_NONE, F_SEGV, F_BUS, F_ILL, F_FPE, F_ABORT, F_BUDGET, F_STACK, F_DEADLOCK, F_OTHER };
extern const char *const FAULTNAME[];
typedef struct {
    int fault;
    uptr faddr;
    int ret;
    u64 len, outhash;
    u64 steps, trace, statics;
} result;
struct call {                       // a call made concrete
    const struct impl *im;
    int kind, variant;
    u8 *k, *n, *ad, *in, *out;
    ull *len;
    u64 alen, ilen, olen;           // olen: bytes the call may write
    int ret;
    const struct op *op;
    u64 tail;                       // in place: bytes of the input behind the output
    u8 tailbytes[64];
    u8 *adj;                        // packed inputs next to the output
    u64 adjlen, adjhash;
    uptr *abi;                      // not null: call with this machine state and store what is left of it
};
#define ABI_WORDS 30
void abi_set(uptr *st, u64 seed);
int abi_same(const uptr *a, const uptr *b, char *why, size_t n);
extern u64 env_state;               // calls that change process-wide state
// builds the inputs of an operation (contents as values, before placement)
struct vals { u8 k[16], n[16]; u8 *ad; u64 alen; u8 *in; u64 ilen; u64 olen; int authentic; };
void op_values(const struct op *o, struct vals *v);     // v->ad, v->in point into static scratch buffers
void op_place(const struct op *o, const struct vals *v, int task, int variant, int out_ro, struct call *c);
void op_result(const struct call *c, result *r);
int canaries_ok(const struct call *c, int task, char *why, size_t n);
int same_result(const result *a, const result *b);

// ---------------------------------------------------------------- engine
enum { R_DONE, R_PREEMPT, R_WATCH, R_FAULT };
enum { SM_RUN, SM_TRACE, SM_MON, SM_INTR, SM_COUNT };
void task_begin(int t, struct call *c);                 // a fresh coroutine on task t's stack (contents kept)
int task_run(int t, u64 steps, int watch);              // up to `steps` more steps
u64 task_steps(int t);
void task_paint(int t, u64 seed);                       // fill the stack with stale bytes
u64 task_stack_used(int t);                             // after task_paint
int task_fault(int t, uptr *addr);
void pristine(void);
void run_alone(const struct op *o, int variant, int task, int mode, result *r);
void finish(int t, u64 budget);
extern int sim_mode;
extern u64 trace_hash, static_hits;
extern u64 last_pc;
extern u64 run_epoch;
// static data of an implementation
int changed_span(const struct impl *im, int v, uptr *lo, uptr *hi);    // bytes that differ from program start
void watch_span(uptr lo, uptr hi);                      // what `watch` watches (0,0: all writable static data)
size_t statics_size(const struct impl *im, int v);
void statics_save(const struct impl *im, int v, char *buf);
void statics_load(const struct impl *im, int v, const char *buf);  // buf 0: as at program start
// interrupts (SM_INTR)
extern void (*intr_cb)(int why);
void set_watch(int on);
void intr_call(struct call *c, u64 next);               // nested call on the current stack
void set_next(u64 steps_from_now);
void abandon_now(int fault);
// monitored output (SM_MON)
extern const u8 *mon_out, *mon_old, *mon_new;
extern u64 mon_len;
extern u64 mon_bad, mon_badpos, mon_checks, mon_writes;
#define MON_MAX 4096u
extern u8 mon_img[MON_MAX + 8];
extern int in_task;
extern int cur_task;
// environment
extern int env_fail;            // everything outside the library fails
extern u64 env_calls, env_prints, env_allocs, env_failed;
extern char env_last[32];
void env_reset(u64 seed);

// ---------------------------------------------------------------- counters, violations, plans
enum { FK_PREEMPT, FK_PREEMPT_STATIC, FK_INTR, FK_INTR_NESTED, FK_ABANDON, FK_FORGE, FK_FLIP, FK_TRUNC, FK_SHORT, FK_EXTEND, FK_WRAP,
       FK_SPLICE, FK_WRONGKEY, FK_WRONGNONCE, FK_WRONGAD, FK_REPLAY, FK_LOSS, FK_DUP, FK_DELAY, FK_CRASH, FK_RESTART, FK_TORN,
       FK_BITROT, FK_STALE_STACK, FK_STALE_OUT, FK_REUSE, FK_GUARD, FK_READONLY, FK_ADJACENT, FK_MISALIGN, FK_NULL, FK_ALLOCFAIL,
       FK_SMALLSTACK, FK_CLOCKSKEW, FK_SECRET, FK_TAGPOS, FK_OBSERVE, FK_PARTITION, FK_SLOW, FK_CALLER, FK_INPLACE, FK_HUGE, FK_HUGEFULL, FK_PACKED, FK_SHARED, FK_N };
extern u64 fk[FK_N];
extern const char *const FKNAME[FK_N];
void violation(const char *fmt, ...);
extern int violated;
extern char vtext[1024];
void state(u64 h);              // a distinct state / interleaving reached
u64 hstr(const char *s);
void evlog(u64 h);              // event log hash (determinism check)
extern u64 loghash;
extern u64 sim_time;            // simulated time covered
extern u64 n_ops, n_nontrivial;

#define MAXOPS 1200
#define MAXEV 256
struct ev { u64 a, b, c, d, e; };
struct plan {
    u64 mode, seed, nops, nev, p[12];
    struct op ops[MAXOPS];
    struct ev evs[MAXEV];
};
void plan_print(const struct plan *p);
int plan_read(const char *file, struct plan *p);

struct mode { const char *name; void (*gen)(struct plan *, rng *, int tier); void (*exec)(struct plan *); };
extern const struct mode MODES[];
extern const int NMODES;

// workload helpers
u64 pick_len(rng *r, int cls);
u64 pick_seed(rng *r);
void pick_theme(rng *r, int stepped, int tier);
u64 max_times(int impl, u64 len, u64 times);
u64 dict_len(rng *r, u64 max);
void gen_op(rng *r, struct op *o, int impl, int kindmask, int lencls, int tamper);
int pick_impl(struct plan *p, int need_hash);
u64 cost64(int impl);
void run_cost(int impl, int how);
extern int focus[], focus_n;
#define DICT_MAX 64
extern u64 dict[DICT_MAX];            // unusual constants worth trying
extern int dict_n;
enum { KM_ENC = 1, KM_DEC = 2, KM_HASH = 4, KM_ALL = 7 };
extern int impl_ok[];
extern int ONARM;
#endif
