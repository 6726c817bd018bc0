// Plans (what a seed decides), replay files, and the command line.
//   sim list                         implementations
//   sim gen MODE SEED TIER           print the plan of a seed
//   sim plan FILE                    execute a plan (replay)
//   sim run MODE FIRST COUNT TIER STATEFILE   seeds FIRST..FIRST+COUNT-1
#define _GNU_SOURCE
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#if defined(__x86_64__)
int ONARM = 0;
#else
int ONARM = 1;
#endif
int impl_ok[128];
struct field { const char *name; size_t off; };
#define F(x) {#x, offsetof(struct op, x)}
static const struct field OPF[] = {F(task), F(kind), F(impl), F(kseed), F(nseed), F(aseed), F(alen), F(mseed), F(mlen), F(tam), F(tpos), F(tval), F(place), F(poff), F(aux), F(aux2), F(aux3)};
#define NF (sizeof OPF / sizeof *OPF)
static const char *const KN[] = {"encrypt", "decrypt", "hash"};
static const char *const TN[] = {"none", "flip", "truncate", "extend", "ad", "nonce", "key", "tag-random", "tag-zero", "tag-mask", "ad-length", "boundary", "burst", "tag-rotate", "tag-sum"};

void plan_print(const struct plan *p)
{
    printf("mode %s\nseed %llu\n", MODES[p->mode].name, (ull)p->seed);
    printf("param");
    for (int i = 0; i < 12; i++) printf(" %llu", (ull)p->p[i]);
    printf("\n");
    for (u64 i = 0; i < p->nops; i++) {
        printf("op");
        for (size_t f = 0; f < NF; f++) {
            u64 v = *(const u64 *)((const char *)&p->ops[i] + OPF[f].off);
            if (!strcmp(OPF[f].name, "impl")) printf(" impl=%s", IMPLS[v].name);
            else if (!strcmp(OPF[f].name, "kind")) printf(" kind=%s", KN[v]);
            else if (!strcmp(OPF[f].name, "tam")) printf(" tam=%s", TN[v]);
            else if (v) printf(" %s=%llu", OPF[f].name, (ull)v);
        }
        printf("\n");
    }
    for (u64 i = 0; i < p->nev; i++) printf("ev %llu %llu %llu %llu %llu\n", (ull)p->evs[i].a, (ull)p->evs[i].b, (ull)p->evs[i].c, (ull)p->evs[i].d, (ull)p->evs[i].e);
}
static int find_impl(const char *s) { for (int i = 0; i < NIMPLS; i++) if (!strcmp(IMPLS[i].name, s)) return i; return -1; }
static int find_mode(const char *s) { for (int i = 0; i < NMODES; i++) if (!strcmp(MODES[i].name, s)) return i; return -1; }
int plan_read(const char *file, struct plan *p)
{
    static char l[8192];
    FILE *f = fopen(file, "r");
    if (!f) return -1;
    memset(p, 0, sizeof *p);
    while (fgets(l, sizeof l, f)) {
        char *s = strtok(l, " \t\r\n");
        if (!s || *s == '#') continue;
        if (!strcmp(s, "mode")) { int m = find_mode(strtok(0, " \t\r\n")); if (m < 0) return -1; p->mode = (u64)m; }
        else if (!strcmp(s, "seed")) p->seed = strtoull(strtok(0, " \t\r\n"), 0, 10);
        else if (!strcmp(s, "param")) { for (int i = 0; i < 12; i++) { s = strtok(0, " \t\r\n"); if (!s) break; p->p[i] = strtoull(s, 0, 10); } }
        else if (!strcmp(s, "ev")) { if (p->nev >= MAXEV) return -1; u64 *e = &p->evs[p->nev++].a; for (int i = 0; i < 5; i++) { s = strtok(0, " \t\r\n"); if (!s) break; e[i] = strtoull(s, 0, 10); } }
        else if (!strcmp(s, "op")) {
            if (p->nops >= MAXOPS) return -1;
            struct op *o = &p->ops[p->nops++];
            while ((s = strtok(0, " \t\r\n"))) {
                char *e = strchr(s, '=');
                if (!e) return -1;
                *e++ = 0;
                for (size_t k = 0; k < NF; k++) if (!strcmp(s, OPF[k].name)) {
                    u64 v = 0;
                    if (!strcmp(s, "impl")) { int i = find_impl(e); if (i < 0) return -1; v = (u64)i; }
                    else if (!strcmp(s, "kind")) { while (v < 3 && strcmp(KN[v], e)) v++; if (v == 3) return -1; }
                    else if (!strcmp(s, "tam")) { while (v < T_COUNT && strcmp(TN[v], e)) v++; if (v == T_COUNT) return -1; }
                    else v = strtoull(e, 0, 10);
                    *(u64 *)((char *)o + OPF[k].off) = v;
                }
            }
        }
    }
    fclose(f);
    return 0;
}
static u64 *states, n_states, cap_states;
void state(u64 h)
{
    if (!h) h = 1;
    if (!states) { cap_states = 1 << 16; states = calloc(cap_states, 8); }
    if (2 * n_states >= cap_states) {
        if (cap_states >= 1u << 22) return;
        u64 *o = states, oc = cap_states;
        cap_states *= 4;
        states = calloc(cap_states, 8);
        n_states = 0;
        for (u64 i = 0; i < oc; i++) if (o[i]) state(o[i]);
        free(o);
    }
    u64 i = mix64(h) & (cap_states - 1);
    while (states[i] && states[i] != h) i = (i + 1) & (cap_states - 1);
    if (!states[i]) { states[i] = h; n_states++; }
}
static void exec_plan(struct plan *p)
{
    violated = 0;
    loghash = 0;
    evlog(p->mode);
    for (int t = 0; t < TASKS; t++) task_paint(t, 0);
    env_fail = 0;
    env_reset(p->seed);
    intr_cb = 0;
    sim_mode = SM_RUN;
    stack_more(p->p[11] != 0);
    pristine();
    u64 f0 = 0, f1 = 0;
    for (int i = 0; i < FK_N; i++) f0 += fk[i];
    MODES[p->mode].exec(p);
    for (int i = 0; i < FK_N; i++) f1 += fk[i];
    n_nontrivial += f1 > f0;
    evlog((u64)violated);
    if (violated) evlog(hstr(vtext));
}
#if defined(__x86_64__)
static void sys_clock(struct timespec *t) { syscall(SYS_clock_gettime, CLOCK_MONOTONIC, t); } // not the vDSO: it reads the trapped counter
#else
static void sys_clock(struct timespec *t) { clock_gettime(CLOCK_MONOTONIC, t); }
#endif
static struct plan P;
static void gen(int m, u64 seed, int tier)
{
    memset(&P, 0, sizeof P);
    P.mode = (u64)m;
    P.seed = seed;
    rng r = {mix64(seed * 0x9E3779B97F4A7C15ull + hstr(MODES[m].name))};
    for (int t = 0; t < TASKS; t++) task_paint(t, 0);
    env_fail = 0;
    env_reset(seed);
    sim_mode = SM_RUN;
    pristine();
    static const char *const stepped[] = {"C01", "C02", "C03", "C09", "C12"};
    int st = 0;
    for (int i = 0; i < 5; i++) st |= !strcmp(MODES[m].name, stepped[i]);
    pick_theme(&r, st, tier);
    MODES[m].gen(&P, &r, tier);
}
int main(int argc, char **argv)
{
    mem_init();
    int avx = 0;
#if defined(__x86_64__)
    __builtin_cpu_init();
    avx = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512dq");
#endif
    for (int i = 0; i < NIMPLS; i++) impl_ok[i] = !IMPLS[i].avx || avx;
    if (getenv("SIM_FOCUS")) { // implementations that get most of the runs
        static char b[8192];
        strncpy(b, getenv("SIM_FOCUS"), sizeof b - 1);
        for (char *t = strtok(b, ","); t; t = strtok(0, ",")) { int i = find_impl(t); if (i >= 0 && impl_ok[i] && focus_n < 128) focus[focus_n++] = i; }
    }
    if (getenv("SIM_DICT")) {
        char *e = getenv("SIM_DICT");
        while (*e && dict_n < DICT_MAX) { dict[dict_n++] = strtoull(e, &e, 10); if (*e) e++; }
    }
#if defined(__x86_64__)
    if (argc >= 2 && !strcmp(argv[1], "golden")) { extern void golden_print(void); golden_print(); return 0; }
#endif
    if (argc >= 2 && !strcmp(argv[1], "list")) {
        for (int i = 0; i < NIMPLS; i++)
            printf("%s alg=%d hash=%d ok=%d rw=%ld tls=%d ext=%s\n", IMPLS[i].name, IMPLS[i].alg, IMPLS[i].hash[0] != 0, impl_ok[i], (long)(IMPLS[i].rw_hi[0] - IMPLS[i].rw_lo[0]), IMPLS[i].tls[0] != 0, IMPLS[i].ext);
        for (int i = 0; i < NMODES; i++) printf("mode %s\n", MODES[i].name);
        return 0;
    }
    if (argc >= 2 && !strcmp(argv[1], "costs")) {
        for (int i = 0; i < NIMPLS; i++) if (impl_ok[i]) {
            struct timespec a, b;
            printf("%-40s %8llu", IMPLS[i].name, (ull)cost64(i));
            for (int k = 0; k < 4; k++) {
                sys_clock(&a);
                run_cost(i, k);
                sys_clock(&b);
                printf(" %9ld", (long)((b.tv_sec - a.tv_sec) * 1000000000ll + b.tv_nsec - a.tv_nsec) / 100);
            }
            printf("\n");
        }
        return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "gen")) {
        int m = find_mode(argv[2]);
        if (m < 0) return 2;
        gen(m, strtoull(argv[3], 0, 10), atoi(argv[4]));
        plan_print(&P);
        return 0;
    }
    if (argc >= 3 && !strcmp(argv[1], "plan")) {
        if (plan_read(argv[2], &P)) { fprintf(stderr, "bad plan\n"); return 2; }
        exec_plan(&P);
        printf("RESULT %s %016llx %s\n", violated ? "violation" : "ok", (ull)loghash, violated ? vtext : "");
        return 0;
    }
    if (argc >= 7 && !strcmp(argv[1], "run")) {
        int m = find_mode(argv[2]);
        if (m < 0) return 2;
        u64 first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10), done = 0;
        int tier = atoi(argv[5]);
        double limit = argc > 7 ? atof(argv[7]) : 1e9;
        u64 batch = 0;
        struct timespec t0, t1;
        sys_clock(&t0);
        int stopped = 0;
        char rn[4096];
        snprintf(rn, sizeof rn, "%s.runs", argv[6]);
        FILE *runs = strcmp(argv[6], "/dev/null") ? fopen(rn, "wb") : 0;
        u64 nt = 0;
        for (u64 s = first; s < first + count; s++) {
            gen(m, s, tier);
            exec_plan(&P);
            batch = mix64(batch + loghash + s);
            if (runs && n_nontrivial > nt) fwrite(&loghash, 8, 1, runs);
            nt = n_nontrivial;
            done++;
            if (getenv("SIM_LOG")) fprintf(stderr, "SEED %llu %016llx %s\n", (ull)s, (ull)loghash, violated ? vtext : "");
            if (violated) { printf("VIOLATED %llu %016llx %s\n", (ull)s, (ull)loghash, vtext); if (!getenv("SIM_KEEPGOING")) break; }
            {
                sys_clock(&t1);
                if ((double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > limit) { stopped = 1; break; }
            }
        }
        printf("SUMMARY done=%llu stopped=%d batch=%016llx ops=%llu nontrivial=%llu simtime=%llu states=%llu", (ull)done, stopped, (ull)batch, (ull)n_ops, (ull)n_nontrivial, (ull)sim_time, (ull)n_states);
        for (int i = 0; i < FK_N; i++) if (fk[i]) printf(" fk_%s=%llu", FKNAME[i], (ull)fk[i]);
        printf("\n");
        if (runs) fclose(runs);
        FILE *f = fopen(argv[6], "wb");
        if (f) { for (u64 i = 0; i < cap_states; i++) if (states && states[i]) fwrite(&states[i], 8, 1, f); fclose(f); }
        return 0;
    }
    fprintf(stderr, "usage: sim list|gen|plan|run\n");
    return 2;
}
