// The simulated worlds inside one process: threads, interrupts, abandoned calls, hostile
// memory, a failing environment, a simulated clock. The worlds with several nodes are in net.c.
#include "sim.h"
#include "model.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>

#define NAME(o) (IMPLS[(o)->impl].name)
static const char *const KNAME[] = {"encrypt", "decrypt", "hash"};


// ---------------------------------------------------------------- workload
// constants that the code under test contains and its baseline did not (SIM_DICT): rare values worth trying
u64 dict[DICT_MAX];
int dict_n;
static u64 pick_dict(rng *r)
{
    u64 v = dict[below(r, (u64)dict_n)];
    return v;
}
u64 dict_len(rng *r, u64 max)
{
    static const u64 mul[] = {1, 1, 1, 2, 4, 8, 18, 16, 64, 144};
    for (int i = 0; i < 8; i++) {
        u64 v = pick_dict(r), k = below(r, 12), u;
        if (k < 6) u = v * mul[below(r, 10)];
        else if (k < 7) u = v >> 3;
        else if (k < 8) u = v >= 8 && v < 21 && below(r, 2) ? 1ull << v : v + 65536;
        else if (k < 9) u = below(r, 2) ? v - 16 : v + 16;
        else u = v;
        u += below(r, 5) - 2;
        if (chance(r, 1, 4)) u += below(r, 1ull << below(r, 12));
        if (u <= max) return u;
    }
    return max;
}
u64 pick_seed(rng *r)
{
    if (dict_n && chance(r, 1, 6)) {
        u64 v = pick_dict(r), w = below(r, 8) , pos = chance(r, 2, 3) ? below(r, 16) : chance(r, 1, 2) ? below(r, 256) : dict_len(r, 0xffff);
        if (chance(r, 1, 4)) v = v + below(r, 3) - 1;
        u64 width = v < 0x100 ? (w < 6 ? 0 : w == 6 ? 3 : 2) : v < 0x10000 ? 1 + (w == 7) : 2;
        if (width && chance(r, 1, 3)) { v = __builtin_bswap32((u32)v); if (width == 1) v >>= 16; }
        return 1ull << 63 | below(r, 0x1fff) << 50 | width << 48 | pos << 32 | (v & 0xffffffff);
    }
    u64 k = below(r, 20);
    u64 base = k < 3 ? k : 3 + rnd(r) % 0xffffffffffull;
    u64 var = chance(r, 1, 4) ? 1 + below(r, 0xffff) : 0;
    return base << 16 | var;
}
u64 pick_len(rng *r, int cls)
{
    static const u64 unit[] = {8, 16, 18, 64, 144, 256};
    u64 k = below(r, 16);
    if (dict_n && chance(r, 1, 8)) return dict_len(r, cls < 2 ? 700 : cls < 3 ? 6000 : 140000);
    switch (cls) {
    case 0: return k < 3 ? 0 : k < 10 ? below(r, 20) : below(r, 42);
    case 1:
        if (k < 2) return 0;
        if (k < 6) return below(r, 34);
        if (k < 12) { u64 u = unit[below(r, 5)], n = 1 + below(r, 160 / u); u64 v = u * n + below(r, 3); return v ? v - 1 : 0; }
        return below(r, 200);
    case 2:
        if (k < 2) return pick_len(r, 1);
        if (k < 10) { u64 u = unit[below(r, 6)], n = 1 + below(r, 1600 / u); u64 v = u * n + below(r, 3); return v ? v - 1 : 0; }
        return below(r, 1700);
    case 4: { // past 16-bit counts of 4, 8 or 18 bytes
        static const u64 far[] = {262144, 524288, 1048576, 1179648};
        if (dict_n && chance(r, 1, 2)) return dict_len(r, CAP - 600);
        if (k < 11) return far[below(r, 4)] - 24 + below(r, 48);
        return below(r, CAP - 600);
    }
    default:
        if (k < 3) return 250 + below(r, 12);
        if (k < 5) return 4090 + below(r, 12);
        if (k < 7) return 32760 + below(r, 16);
        if (k < 12) return 65500 + below(r, 80);
        if (k < 13) return 131060 + below(r, 24);
        return below(r, 70000);
    }
}
// most operations of some plans have one length in common that a new constant of the code suggests
static u64 theme_a, theme_m;
// how much work a plan may be: a call with counted steps, a call without, all calls of a history
static u64 lim_hooked, lim_mixed, lim_plain;
static u64 op_limit;
void pick_theme(rng *r, int stepped, int tier)
{
    theme_a = theme_m = 0;
    lim_hooked = ONARM ? 1500000 : 12000000;
    if (chance(r, 1, 24)) lim_hooked *= 5;
    if (tier == 1) lim_hooked *= 3;
    lim_mixed = lim_hooked * 20 < 1200000000 ? lim_hooked * 20 : 1200000000;
    lim_plain = ONARM ? 600000000 : 12000000000;
    if (tier == 1) lim_plain *= 4;
    op_limit = stepped ? lim_hooked : lim_mixed;
    if (!dict_n || chance(r, 2, 3)) return;
    u64 k = below(r, 8), max = stepped ? (ONARM ? (k < 6 ? 6000 : 20000) : k < 5 ? 20000 : 70000) : ONARM ? (k < 6 ? 20000 : 140000) : k < 7 ? 140000 : CAP - 600;
    u64 v = dict_len(r, max), w = below(r, 5);
    if (w != 0) theme_m = v;
    if (w < 2) theme_a = v;
}
static void pick_tamper(rng *r, struct op *o)
{
    static const u8 w[] = {T_FLIP, T_FLIP, T_FLIP, T_TRUNC, T_TRUNC, T_EXTEND, T_AD, T_NONCE, T_KEY, T_TAGRND, T_TAGZERO, T_TAGMASK, T_TAGMASK, T_TAGMASK, T_ADLEN, T_SHIFT, T_BURST, T_TAGROT, T_TAGSUM};
    o->tam = w[below(r, sizeof w)];
    o->tpos = rnd(r) >> 24;
    o->tval = rnd(r) >> 32;
    if (dict_n && chance(r, 1, 6)) o->tval = pick_dict(r) & 0xffffffff;
    if (dict_n && chance(r, 1, 8)) o->tpos = pick_dict(r) & 0xffffffff;
    if (o->tam == T_FLIP && chance(r, 1, 2)) o->tpos = 8 * (o->mlen + below(r, 16)) + below(r, 8); // in the tag
    if (o->tam == T_TAGMASK && chance(r, 2, 3)) { unsigned m = 0, n = 1u << below(r, 4); while (n--) m |= 1u << below(r, 16); o->tpos = m; }
    if (o->tam == T_TRUNC && chance(r, 1, 2)) o->tpos = chance(r, 1, 2) ? o->mlen + below(r, 16) : below(r, 20); // below the tag size, or by a few bytes
}
static int slow(int i)
{
    return cost64(i) > 30000;
}
u64 work_of(int impl, u64 len) { return cost64(impl) * (len + 1600) / 64; }    // the keys cost as much as 1600 bytes
u64 max_times(int impl, u64 len, u64 times)
{
    u64 m = lim_plain / work_of(impl, len);
    return times < m ? times : m + 1;
}
static u64 fit(int impl, u64 len, u64 limit)
{
    u64 max = limit / cost64(impl) * 64 + 64;
    return len < max ? len : len % max;
}
void gen_op(rng *r, struct op *o, int impl, int kinds, int lencls, int tamper)
{
    memset(o, 0, sizeof *o);
    o->impl = (u64)impl;
    if (!IMPLS[impl].hash[0]) kinds &= ~KM_HASH;
    do o->kind = below(r, 3); while (!(kinds >> o->kind & 1));
    o->kseed = pick_seed(r);
    o->nseed = pick_seed(r);
    o->aseed = pick_seed(r);
    o->mseed = pick_seed(r);
    if (lencls == 3 && !ONARM && !slow(impl) && chance(r, 1, 5)) lencls = 4;
    o->alen = pick_len(r, lencls);
    o->mlen = pick_len(r, lencls);
    if (lencls > 2 && chance(r, 3, 4)) { if (chance(r, 1, 2)) o->alen = pick_len(r, 1); else o->mlen = pick_len(r, 1); }
    if ((theme_a || theme_m) && chance(r, 7, 8)) {
        if (theme_a) o->alen = theme_a;
        if (theme_m) o->mlen = theme_m;
        if (chance(r, 1, 4)) { if (theme_m) o->mlen += below(r, 600); else o->alen += below(r, 600); }
        if (o->alen > CAP - 600) o->alen = CAP - 600;
        if (o->mlen > CAP - 600) o->mlen = CAP - 600;
    }
    if (o->kind == K_HASH) o->alen = o->alen > 4096 ? 0 : o->alen;
    o->mlen = fit(impl, o->mlen, op_limit);
    o->alen = fit(impl, o->alen, op_limit);
    if (o->kind == K_DEC && below(r, 100) < (unsigned)tamper) pick_tamper(r, o);
    o->place = 0;
    for (int s = 0; s < SLOTS; s++) o->place |= (chance(r, 1, 2) ? PL_RIGHT : 1 + below(r, 3)) << (4 * s);
    o->poff = rnd(r) >> 4;
    if (chance(r, 1, 6)) o->poff |= PACKED;
    if (chance(r, 1, 10)) {
        o->poff |= SHARE;
        u64 k = below(r, 4);
        if (k == 0) o->nseed = o->kseed;
        if (k == 1) { o->aseed = o->nseed; if (chance(r, 1, 2)) o->alen = chance(r, 1, 2) ? 16 : below(r, 17); }
        if (k == 2) { o->aseed = o->kseed; if (chance(r, 1, 2)) o->alen = 16; }
        if (k == 3) { o->aseed = o->mseed; if (chance(r, 1, 2)) o->alen = o->mlen; }
    }
    o->aux3 = below(r, 65536);
}
static int next_impl(u64 n, int need_hash)
{
    u64 i = n % (u64)NIMPLS;
    for (int k = 0; k < NIMPLS; k++, i = (i + 1) % (u64)NIMPLS)
        if (impl_ok[i] && (!need_hash || IMPLS[i].hash[0])) return (int)i;
    exit(3);
}
int pick_impl(struct plan *p, int need_hash)
{
    if (focus_n && mix64(p->seed * 31 + 7) % 100 < 60) { // implementations whose code differs from the recorded baseline
        for (int t = 0; t < focus_n; t++) {
            int i = focus[(p->seed + (u64)t) % (u64)focus_n];
            if (impl_ok[i] && (!need_hash || IMPLS[i].hash[0])) return i;
        }
    }
    return next_impl(p->seed, need_hash);
}
int focus[128], focus_n;

static void note_op(const struct op *o)
{
    if (o->kind != K_DEC || o->tam == T_NONE) return;
    fk[FK_FORGE]++;
    switch (o->tam) {
    case T_FLIP: case T_BURST: fk[FK_FLIP]++; break;
    case T_TRUNC: { u64 cut = 1 + o->tpos % (o->mlen + 16); fk[FK_TRUNC]++; if (o->mlen + 16 - cut < 16) fk[FK_SHORT]++; break; }
    case T_EXTEND: fk[FK_EXTEND]++; break;
    case T_AD: case T_ADLEN: fk[FK_WRONGAD]++; break;
    case T_NONCE: fk[FK_WRONGNONCE]++; break;
    case T_KEY: fk[FK_WRONGKEY]++; break;
    case T_SHIFT: fk[FK_SPLICE]++; break;
    default: fk[FK_TAGPOS]++;
    }
}
static const char *describe(const result *r)
{
    static char b[4][96];
    static int n;
    char *s = b[n++ & 3];
    if (r->fault) snprintf(s, 96, "%s", FAULTNAME[r->fault]);
    else snprintf(s, 96, "ret %d len %llu out %016llx", r->ret, (ull)r->len, (ull)r->outhash);
    return s;
}
static int hv(const struct plan *p) { return p->p[11] ? 3 : 1; } // hooked, as shipped or without optimisation
static result solo[MAXOPS];
static u64 solo_static[MAXOPS];
static uptr span_lo_, span_hi_;
// every op of the plan alone, in a fresh process
static void run_solo(struct plan *p, int variant)
{
    watch_span(0, 0);
    span_lo_ = span_hi_ = 0;
    for (u64 i = 0; i < p->nops; i++) {
        uptr a, b;
        run_alone(&p->ops[i], variant, 0, SM_COUNT, &solo[i]);
        evlog(solo[i].outhash + solo[i].steps);
        if (changed_span(&IMPLS[p->ops[i].impl], variant, &a, &b)) {
            if (!span_hi_ || a < span_lo_) span_lo_ = a;
            if (b > span_hi_) span_hi_ = b;
        }
    }
    for (u64 i = 0; i < p->nops; i++) solo_static[i] = solo[i].statics;
    if (span_hi_) { // count accesses to what a call really changes
        watch_span(span_lo_, span_hi_);
        for (u64 i = 0; i < p->nops; i++) {
            result r;
            run_alone(&p->ops[i], variant, 0, SM_COUNT, &r);
            solo_static[i] = r.statics;
        }
    }
    for (u64 i = 0; i < p->nops; i++) note_op(&p->ops[i]);
    pristine();
}
int static_written(void) { return span_hi_ != 0; }

static int on_stack(uptr a) { return a >= (uptr)stack_lo(0) - 0x40000 && a < (uptr)stack_lo(0) + 0x1000; }

// ---------------------------------------------------------------- self test: every implementation alone against the model
static void model_result(const struct op *o, const struct vals *v, result *m)
{
    static u8 exp[CAP + 64];
    memset(m, 0, sizeof *m);
    if (o->kind == K_HASH) { model_hash(exp, v->in, v->ilen); m->outhash = hash_bytes(0, exp, 32); }
    else if (o->kind == K_ENC) { model_encrypt(IMPLS[o->impl].alg, exp, v->in, v->ilen, v->ad, v->alen, v->n, v->k); m->len = v->ilen + 16; m->outhash = hash_bytes(0, exp, m->len); }
    else { m->ret = model_decrypt(IMPLS[o->impl].alg, exp, v->in, v->ilen, v->ad, v->alen, v->n, v->k); m->len = v->ilen - 16; m->outhash = hash_bytes(0, exp, m->len); }
}
static void self_gen(struct plan *p, rng *r, int tier)
{
    (void)tier;
    p->nops = 1;
    gen_op(r, &p->ops[0], pick_impl(p, 0), KM_ALL, chance(r, 1, 10) ? 2 : 1, 0);
}
static void self_exec(struct plan *p)
{
    struct op *o = &p->ops[0];
    result b, m;
    struct vals v;
    op_values(o, &v);
    model_result(o, &v, &m);
    for (int variant = 0; variant < 5; variant++) {
        run_alone(o, variant > 3 ? 1 : variant, 0, variant > 3 ? SM_TRACE : SM_COUNT, &b);
        if (!same_result(&b, &m)) { violation("%s kind %d variant %d: fault %s at %lx ret %d", NAME(o), (int)o->kind, variant, FAULTNAME[b.fault], (long)b.faddr, b.ret); return; }
    }
    evlog(b.steps);
    evlog(b.trace);
    if (getenv("SIM_LOG")) fprintf(stderr, "%s kind %d alen %d mlen %d steps %llu\n", NAME(o), (int)o->kind, (int)v.alen, (int)o->mlen, (ull)b.steps);
}

// ---------------------------------------------------------------- C01: threads
// op.task is the thread, ops of a thread run in order; events: thread, steps, watch
static u64 logsteps(rng *r, u64 max)
{
    u64 m = 1;
    unsigned bits = 1;
    while (m < max && bits < 40) m <<= 1, bits++;
    u64 b = 1ull << below(r, bits);
    return 1 + below(r, b < max ? b : max);
}
static void ev_add(struct plan *p, u64 a, u64 b, u64 c, u64 d, u64 e)
{
    if (p->nev < MAXEV) p->evs[p->nev++] = (struct ev){a, b, c, d, e};
}
static void mutate(rng *r, struct op *o, const struct op *q);
static void relate(rng *r, struct op *o, const struct op *q)
{   // reuse parts of another operation, or nearly
    if (q->impl == o->impl && chance(r, 1, 3)) { mutate(r, o, q); return; }
    if (chance(r, 1, 2)) o->kseed = chance(r, 1, 2) ? q->kseed : (q->kseed & ~0xffffull) | below(r, 129);
    if (chance(r, 1, 2)) o->nseed = chance(r, 1, 2) ? q->nseed : (q->nseed & ~0xffffull) | below(r, 129);
    if (chance(r, 1, 3)) o->aseed = q->aseed, o->alen = q->alen;
    if (chance(r, 1, 3)) o->mseed = q->mseed, o->mlen = q->mlen;
    if (chance(r, 1, 8)) o->alen = q->alen, o->aseed = (q->aseed & ~0xffffull) | below(r, 8 * q->alen + 1) % 0x10000;
    if (chance(r, 1, 8)) o->mlen = q->mlen, o->mseed = (q->mseed & ~0xffffull) | below(r, 8 * q->mlen + 1) % 0x10000;
}
static void mutate(rng *r, struct op *o, const struct op *q)
{   // another operation again, with at most one thing changed
    struct op b = *o;
    *o = *q;
    o->task = b.task; o->place = b.place; o->poff = b.poff; o->aux = b.aux; o->aux2 = b.aux2; o->aux3 = b.aux3;
    switch (below(r, 10)) {
    case 0: o->kseed ^= 1 + below(r, 128); break;
    case 1: o->nseed ^= 1 + below(r, 128); break;
    case 2: o->aseed ^= 1 + below(r, 1 + 8 * o->alen) % 0xffff; break;
    case 3: o->mseed ^= 1 + below(r, 1 + 8 * o->mlen) % 0xffff; break;
    case 4: o->alen = pick_len(r, 0); break;
    case 5: o->mlen = pick_len(r, 0); break;
    case 6: if (o->kind != K_HASH) { o->kind = K_ENC + K_DEC - o->kind; o->tam = 0; if (o->kind == K_DEC && chance(r, 1, 2)) pick_tamper(r, o); } break;
    case 7: case 8: // a damaged copy of a message and the message itself, in either order
        if (o->kind == K_HASH) break;
        if (o->kind == K_DEC && o->tam && chance(r, 2, 3)) { o->tam = 0; break; }
        o->kind = K_DEC;
        pick_tamper(r, o);
        if (chance(r, 1, 3)) { o->tam = o->mlen ? T_FLIP : T_AD; o->tpos = below(r, 8 * o->mlen + 1); if (o->tpos == 8 * o->mlen) o->tam = T_AD; } // with its tag intact
        break;
    default: break;
    }
}
static void c01_gen(struct plan *p, rng *r, int tier)
{
    p->p[11] = !ONARM && chance(r, 1, 4);
    int T = 2 + (int)below(r, 3), im = pick_impl(p, 0);
    if (chance(r, 2, 3)) T = 2;
    if (chance(r, 1, 16)) T = TASKS;
    u64 total[TASKS] = {0}, stat[TASKS] = {0}, sum = 0;
    for (int t = 0; t < T; t++) {
        int n = 1 + (chance(r, 1, 3) ? (int)below(r, 3) : 0);
        while (n--) {
            struct op *o = &p->ops[p->nops];
            gen_op(r, o, chance(r, 9, 10) ? im : next_impl(rnd(r) >> 8, 0), KM_ALL, chance(r, tier ? 2 : 1, 12) ? 2 : chance(r, 1, 3), 45);
            if (p->nops && chance(r, 1, 2)) relate(r, o, &p->ops[below(r, p->nops)]);
            o->task = (u64)t;
            p->nops++;
        }
    }
    run_solo(p, hv(p));
    for (u64 i = 0; i < p->nops; i++) { total[p->ops[i].task] += solo[i].steps; stat[p->ops[i].task] += solo_static[i]; sum += solo[i].steps; }
    int style = (int)below(r, 5), hot = stat[0] > 0 && static_written();
    if (hot && chance(r, 2, 3)) style = 5;
    switch (style) {
    case 0: { // one thread stopped at one instant while the others run through
        u64 t = below(r, (u64)T);
        ev_add(p, t, 1 + below(r, total[t]), 0, 0, 0);
        for (u64 k = 1; k < (u64)T; k++) ev_add(p, (t + k) % (u64)T, chance(r, 3, 4) ? ~0u >> 2 : 1 + below(r, total[(t + k) % (u64)T]), 0, 0, 0);
        break;
    }
    case 1: { // coarse random switching
        u64 n = 2 + below(r, 40);
        while (n--) ev_add(p, below(r, (u64)T), 1 + below(r, 2 * sum / (2 + n) + 1), 0, 0, 0);
        break;
    }
    case 2: { // quanta of all magnitudes
        u64 n = 20 + below(r, 200);
        while (n--) ev_add(p, below(r, (u64)T), logsteps(r, sum), 0, 0, 0);
        break;
    }
    case 3: { // a window of fine interleaving after an offset of each thread
        for (u64 t = 0; t < (u64)T; t++) ev_add(p, t, 1 + below(r, total[t]), 0, 0, 0);
        u64 q = 1 + below(r, 12);
        for (int n = 0; n < 180; n++) ev_add(p, (u64)(n % T), 1 + below(r, q), 0, 0, 0);
        break;
    }
    case 4: { // lockstep from the start, in equal quanta
        u64 n = 60 + below(r, 180), q = 1 + sum / (n + 1);
        for (u64 k = 0; k < n; k++) ev_add(p, k % (u64)T, q, 0, 0, 0);
        break;
    }
    default: { // switch at accesses to static data that calls change
        u64 n = 1 + below(r, 12);
        for (u64 k = 0; k < n; k++) {
            u64 t = below(r, (u64)T), skip = 1 + below(r, stat[t] < 200 ? stat[t] + 1 : logsteps(r, stat[t]));
            if (skip > 200) { ev_add(p, t, 1 + below(r, total[t]), 0, 0, 0); skip = 1 + below(r, 8); }
            ev_add(p, t, ~0u >> 2, skip, 0, 0);
            if (chance(r, 1, 3)) ev_add(p, t, 1 + below(r, 6), 0, 0, 0);
            if (chance(r, 1, 2)) ev_add(p, (t + 1) % (u64)T, chance(r, 1, 2) ? ~0u >> 2 : 1 + below(r, total[(t + 1) % (u64)T]), 0, 0, 0);
        }
    }
    }
}
static void c01_exec(struct plan *p)
{
    static struct call calls[TASKS];
    int opi[TASKS], active[TASKS] = {0}, T = 0;
    u64 seen = 0;
    run_solo(p, hv(p));
    for (u64 i = 0; i < p->nops; i++) if (solo[i].fault) return;
    for (u64 i = 0; i < p->nops; i++) if ((int)p->ops[i].task + 1 > T) T = (int)p->ops[i].task + 1;
    if (T > TASKS) return;
    for (int t = 0; t < T; t++) opi[t] = -1;
    sim_mode = SM_RUN;
    static_hits = 0;
    u64 e = 0, guard = 0, spent = 0, limit = 400000000ull;
    for (u64 i = 0; i < p->nops; i++) limit += 4 * solo[i].steps;
    for (;;) {
        u64 t, n, w;
        if (e < p->nev) { t = p->evs[e].a; n = p->evs[e].b; w = p->evs[e].c; e++; if (t >= (u64)T) continue; }
        else {
            int any = -1;
            for (int k = 0; k < T; k++) {
                int q = (int)((guard + (u64)k) % (u64)T);
                if (opi[q] >= -1) { any = q; break; }
            }
            if (any < 0) break;
            t = (u64)any; n = 0x3fffffff; w = 0;
            if (++guard > 100000) { violation("no progress after all faults stopped"); return; }
        }
        for (;;) {
            if (opi[t] == -2) break;
            if (!active[t]) {
                int i = opi[t] + 1;
                while (i < (int)p->nops && p->ops[i].task != t) i++;
                if (i == (int)p->nops) { opi[t] = -2; break; }
                opi[t] = i;
                struct vals v;
                op_values(&p->ops[i], &v);
                op_place(&p->ops[i], &v, (int)t, hv(p), 0, &calls[t]);
                task_begin((int)t, &calls[t]);
                active[t] = 1;
            }
            u64 before = task_steps((int)t);
            int why = task_run((int)t, n, w != 0);
            u64 used = task_steps((int)t) - before;
            spent += used;
            if (spent > limit) { violation("%s: threads make no progress", NAME(&p->ops[opi[t]])); return; }
            if (why == R_WATCH) {
                if (w > 1) { w--; n = n > used ? n - used : 1; continue; }
                fk[FK_PREEMPT_STATIC]++;
            }
            if (why == R_PREEMPT || why == R_WATCH) {
                fk[FK_PREEMPT]++;
                seen = mix64(seen + last_pc * 8 + t);
                state(last_pc * 16 + (u64)T + (p->ops[opi[t]].kind << 2));
                break;
            }
            result r;
            memset(&r, 0, sizeof r);
            r.fault = task_fault((int)t, &r.faddr);
            if (!r.fault) op_result(&calls[t], &r);
            evlog(r.outhash + (u64)r.fault * 7 + (u64)opi[t]);
            const struct op *o = &p->ops[opi[t]];
            n_ops++;
            if (!same_result(&r, &solo[opi[t]])) {
                violation("%s: %s in thread %d, interleaved: %s; alone: %s", NAME(o), KNAME[o->kind], (int)t, describe(&r), describe(&solo[opi[t]]));
                return;
            }
            char why2[80];
            if (!r.fault && !canaries_ok(&calls[t], (int)t, why2, sizeof why2)) { violation("%s: %s in thread %d: %s", NAME(o), KNAME[o->kind], (int)t, why2); return; }
            active[t] = 0;
            if (used >= n || !n) break;
            n -= used;
            if (e >= p->nev) break;
        }
    }
    sim_time += spent;
    state(seen);
    evlog(seen);
}

// ---------------------------------------------------------------- C02: interrupts
// op 0 is interrupted; events: steps since the last event, op, accesses to watch for (0: none)
static struct {
    struct plan *p;
    u64 e;
    int depth, bad;
    u64 skip;
    struct call calls[TASKS];
    result res[TASKS];
    u64 done, seen;
} I;
static void arm_next(void)
{
    if (I.e >= I.p->nev) { set_watch(0); set_next(0x7fffffff); return; }
    I.skip = I.p->evs[I.e].c;
    set_watch(I.skip != 0);
    set_next(I.p->evs[I.e].a);
}
static void intr_cb_(int why)
{
    if (I.e >= I.p->nev) { abandon_now(F_BUDGET); return; }
    if (why == 2 && I.skip > 1) { I.skip--; return; }
    u64 idx = I.p->evs[I.e].b;
    I.e++;
    if (idx == 0 || idx >= I.p->nops || idx >= TASKS || I.done >> idx & 1 || I.depth >= 5) { arm_next(); return; }
    struct vals v;
    struct call *c = &I.calls[idx];
    I.depth++;
    fk[I.depth > 1 ? FK_INTR_NESTED : FK_INTR]++;
    state(last_pc * 16 + (u64)I.depth);
    I.seen = mix64(I.seen + last_pc * 8 + idx);
    I.done |= 1u << idx;
    op_values(&I.p->ops[idx], &v);
    op_place(&I.p->ops[idx], &v, (int)idx, hv(I.p), 0, c);
    u64 n = I.e < I.p->nev ? I.p->evs[I.e].a : 0x7fffffff;
    I.skip = I.e < I.p->nev ? I.p->evs[I.e].c : 0;
    set_watch(I.skip != 0);
    intr_call(c, n);
    memset(&I.res[idx], 0, sizeof(result));
    op_result(c, &I.res[idx]);
    I.depth--;
}
static void c02_gen(struct plan *p, rng *r, int tier)
{
    p->p[11] = !ONARM && chance(r, 1, 4);
    int im = pick_impl(p, 0), n = 2 + (int)below(r, TASKS - 1);
    if (chance(r, 1, 2)) n = 2;
    for (int i = 0; i < n; i++) {
        struct op *o = &p->ops[p->nops];
        gen_op(r, o, chance(r, 9, 10) ? im : next_impl(rnd(r) >> 8, 0), KM_ALL, chance(r, tier ? 2 : 1, 14) ? 2 : chance(r, 1, 3), 45);
        if (p->nops && chance(r, 1, 2)) relate(r, o, &p->ops[below(r, p->nops)]);
        o->task = p->nops++;
    }
    run_solo(p, hv(p));
    int hot = static_written() && solo_static[0];
    u64 left = solo[0].steps;
    for (int i = 1; i < n; i++) {
        u64 d, w = 0;
        if (i > 1 && chance(r, 3, 5)) d = 1 + below(r, solo[i - 1].steps ? solo[i - 1].steps : 1); // interrupts the interrupt
        else { d = 1 + below(r, left ? left : 1); if (chance(r, 1, 10)) d = 1 + below(r, left < 300 ? left + 1 : 300); left -= d < left ? d : left; }
        if (hot && chance(r, 2, 3)) { w = 1 + below(r, solo_static[0] < 300 ? solo_static[0] + 1 : logsteps(r, solo_static[0])); d = 0x3fffffff; if (chance(r, 1, 4)) { w = 0; d = 1 + below(r, 8); } }
        ev_add(p, d, (u64)i, w, 0, 0);
    }
}
static void c02_exec(struct plan *p)
{
    struct vals v;
    run_solo(p, hv(p));
    // an interrupt that does nothing at each instruction still overwrites what lies below the stack pointer
    for (u64 i = 0; i < p->nops; i++) {
        result plain;
        const struct op *o = &p->ops[i];
        if (work_of((int)o->impl, o->mlen + o->alen) > lim_mixed / 4) continue;
        run_alone(o, hv(p) - 1, 0, SM_COUNT, &plain);
        if (plain.fault || (solo[i].fault && (solo[i].fault != F_SEGV || on_stack(solo[i].faddr)))) continue;
        if (!same_result(&plain, &solo[i])) { violation("%s: %s with an interrupt at each instruction: %s; without: %s", NAME(o), KNAME[o->kind], describe(&solo[i]), describe(&plain)); return; }
    }
    for (u64 i = 0; i < p->nops; i++) if (solo[i].fault) return;
    if (!p->nops) return;
    pristine();
    memset(&I, 0, sizeof I);
    I.p = p;
    op_values(&p->ops[0], &v);
    op_place(&p->ops[0], &v, 0, hv(p), 0, &I.calls[0]);
    intr_cb = intr_cb_;
    sim_mode = SM_INTR;
    task_begin(0, &I.calls[0]);
    u64 first = p->nev ? p->evs[0].a : 0x7fffffff;
    I.skip = p->nev ? p->evs[0].c : 0;
    task_run(0, first ? first : 1, I.skip != 0);
    sim_mode = SM_RUN;
    result r;
    memset(&r, 0, sizeof r);
    r.fault = task_fault(0, &r.faddr);
    if (r.fault) { violation("%s: %s interrupted %d times: %s", NAME(&p->ops[0]), KNAME[p->ops[0].kind], (int)I.e, FAULTNAME[r.fault]); return; }
    op_result(&I.calls[0], &I.res[0]);
    I.done |= 1;
    for (u64 i = 0; i < p->nops && i < TASKS; i++) if (I.done >> i & 1) {
        char why[80];
        const struct op *o = &p->ops[i];
        n_ops++;
        sim_time += solo[i].steps;
        evlog(I.res[i].outhash);
        if (!same_result(&I.res[i], &solo[i])) { violation("%s: %s %s: %s; alone: %s", NAME(o), i ? "nested" : "interrupted", KNAME[o->kind], describe(&I.res[i]), describe(&solo[i])); return; }
        if (!canaries_ok(&I.calls[i], (int)i, why, sizeof why)) { violation("%s: %s %s: %s", NAME(o), i ? "nested" : "interrupted", KNAME[o->kind], why); return; }
    }
    state(I.seen);
}

// ---------------------------------------------------------------- C03: abandoned calls
// ops in order on one stack, all but the last p[2] times; op.aux: steps until the call is cut (0: completes), op.aux2: cut at the aux2-th static access
static void c03_gen(struct plan *p, rng *r, int tier)
{
    p->p[11] = !ONARM && chance(r, 1, 4);
    int im = pick_impl(p, 0), n = 2 + (int)below(r, tier ? 10 : 5);
    for (int i = 0; i < n; i++) {
        struct op *o = &p->ops[p->nops];
        gen_op(r, o, chance(r, 9, 10) ? im : next_impl(rnd(r) >> 8, 0), KM_ALL, chance(r, tier ? 2 : 1, 14) ? 2 : chance(r, 1, 3), 35);
        if (p->nops && chance(r, 1, 2)) {
            const struct op *q = &p->ops[below(r, p->nops)];
            if (chance(r, 1, 3)) *o = *q; // retry
            else relate(r, o, q);
        }
        o->task = chance(r, 3, 4) ? 0 : 1;
        p->nops++;
    }
    run_solo(p, hv(p));
    int hot = static_written();
    for (int i = 0; i < n - 1; i++) {
        struct op *o = &p->ops[i];
        o->aux = o->aux2 = 0;
        if (!solo[i].steps || chance(r, 1, 3)) continue;
        if (hot && solo_static[i] && chance(r, 1, 2)) { o->aux2 = 1 + below(r, chance(r, 1, 2) ? solo_static[i] : 1 + below(r, solo_static[i])); if (o->aux2 > 2000) o->aux2 = 0; else { o->aux = 0x3fffffff; continue; } }
        o->aux = chance(r, 1, 6) ? solo[i].steps - below(r, solo[i].steps < 400 ? solo[i].steps : 400) : 1 + below(r, solo[i].steps);
    }
    p->ops[n - 1].aux = p->ops[n - 1].aux2 = 0;
    u64 sum = 1;
    for (int i = 0; i < n; i++) sum += solo[i].steps;
    p->p[2] = 1;
    if (chance(r, 1, 5)) p->p[2] = dict_n && chance(r, 1, 2) ? 1 + dict_len(r, 300) : 2 + below(r, 40);
    if (p->p[2] * sum > 20000000) p->p[2] = 1 + 20000000 / sum;
}
static void c03_exec(struct plan *p)
{
    char why[80];
    run_solo(p, hv(p));
    sim_mode = SM_RUN;
    u64 reps = p->p[2] ? p->p[2] : 1, most = p->nops ? (p->nops - 1) * reps : 0;
    for (u64 k = 0; k < (p->nops ? most + 1 : 0); k++) {
        u64 i = k < most ? k % (p->nops - 1) : p->nops - 1;
        struct op *o = &p->ops[i];
        struct vals v;
        struct call c;
        result r;
        int t = (int)(o->task % TASKS), w;
        op_values(o, &v);
        op_place(o, &v, t, hv(p), 0, &c);
        task_begin(0, &c);
        u64 left = o->aux ? o->aux : 0x3fffffff, skip = o->aux2;
        do {
            u64 b = task_steps(0);
            w = task_run(0, left, skip != 0);
            u64 used = task_steps(0) - b;
            left = left > used ? left - used : 1;
        } while (w == R_WATCH && --skip > 0);
        sim_time += task_steps(0);
        n_ops++;
        if ((w == R_PREEMPT || w == R_WATCH) && o->aux) {
            fk[FK_ABANDON]++;
            state(last_pc * 4 + o->kind);
            evlog(last_pc);
            if (!canaries_ok(&c, t, why, sizeof why)) { violation("%s: %s abandoned after %llu steps: %s", NAME(o), KNAME[o->kind], (ull)task_steps(0), why); return; }
            continue;
        }
        memset(&r, 0, sizeof r);
        r.fault = w == R_FAULT ? task_fault(0, &r.faddr) : w == R_DONE ? F_NONE : F_BUDGET;
        if (!r.fault) op_result(&c, &r);
        evlog(r.outhash);
        if (!same_result(&r, &solo[i])) { violation("%s: call %d (%s) after an abandoned call: %s; in a fresh process: %s", NAME(o), (int)k, KNAME[o->kind], describe(&r), describe(&solo[i])); return; }
        if (!r.fault && !canaries_ok(&c, t, why, sizeof why)) { violation("%s: %s: %s", NAME(o), KNAME[o->kind], why); return; }
    }
}

// ---------------------------------------------------------------- C04: no unverified plaintext
// p[0]: 0 output mapped read-only, 1 crash after op.aux steps and look, 2 watched after every instruction
static void c04_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0);
    u64 k = below(r, 20);
    p->nops = 1;
    struct op *o = &p->ops[0];
    p->p[0] = k < 15 ? 0 : k < 18 ? 1 : 2;
    int cls = (int)below(r, 3);
    if (p->p[0] == 0 && chance(r, tier ? 2 : 1, slow(im) ? 60 : 12)) cls = 3;
    if (p->p[0]) op_limit = lim_hooked;
    gen_op(r, o, im, KM_DEC, cls, 100);
    if (p->p[0] == 2) { o->mlen %= 200; o->alen %= 64; }
    if (p->p[0]) {
        result s;
        run_alone(o, 1, 0, SM_COUNT, &s);
        o->aux = 1 + below(r, s.steps ? s.steps : 1);
        if (chance(r, 1, 3) && s.steps > 600) o->aux = s.steps - below(r, 600);
    }
}
static int in_out(const struct op *o, const struct call *c, uptr a)
{
    (void)o;
    uptr lo = (uptr)slot_ro(0, S_OUT), wlo = (uptr)slot_rw(0, S_OUT);
    (void)c;
    return (a >= lo - 0x4000 && a < lo + CAP + 0x4000) || (a >= wlo - 0x4000 && a < wlo + CAP + 0x4000);
}
static void c04_exec(struct plan *p)
{
    struct op *o = &p->ops[0];
    struct vals v;
    struct call c;
    op_values(o, &v);
    note_op(o);
    n_ops++;
    if (v.authentic || o->kind != K_DEC) return;
    if (p->p[0] == 0) {
        for (int variant = 0; variant < (ONARM ? 1 : 2); variant++) {
            op_values(o, &v);
            op_place(o, &v, 0, variant ? 2 : 0, 1, &c);
            fk[FK_READONLY]++;
            sim_mode = SM_COUNT;
            task_begin(0, &c);
            task_run(0, 0x70000000u, 0);
            uptr a = 0;
            int f = task_fault(0, &a);
            evlog((u64)f * 31 + (u64)(a & 0xfff) + (u64)c.ret);
            sim_time += v.ilen + 1;
            state(hash_bytes(o->impl * 64 + o->tam, &v.ilen, 8));
            if (f == F_SEGV && in_out(o, &c, a) && v.ilen >= 16) { violation("%s: plaintext buffer accessed at m+%ld while decrypting a forged message of %llu bytes", NAME(o), (long)(a - (uptr)c.out), (ull)v.ilen); return; }
        }
        return;
    }
    op_place(o, &v, 0, 1, 0, &c);
    const u8 *wlo = c.out - slot_rw(0, S_OUT) > 8192 ? c.out - 8192 : slot_rw(0, S_OUT), *whi = slot_rw(0, S_OUT) + CAP - c.out > (long)v.olen + 8192 ? c.out + v.olen + 8192 : slot_rw(0, S_OUT) + CAP;
    u64 before = hash_bytes(1, wlo, (size_t)(whi - wlo));
    if (p->p[0] == 1) {
        fk[FK_CRASH]++;
        sim_mode = SM_RUN;
        task_begin(0, &c);
        task_run(0, o->aux ? o->aux : 1, 0);
        state(last_pc);
        evlog(last_pc);
    } else {
        static u8 img[MON_MAX + 8];
        fk[FK_OBSERVE]++;
        mon_out = c.out; mon_len = v.olen < MON_MAX ? v.olen : MON_MAX;
        memcpy(img, c.out, mon_len);
        memcpy(mon_img, c.out, mon_len);
        mon_old = mon_new = img;
        mon_bad = mon_writes = 0;
        sim_mode = SM_MON;
        task_begin(0, &c);
        task_run(0, 0x70000000u, 0);
        sim_mode = SM_RUN;
        evlog(mon_bad);
        if (mon_bad) { violation("%s: byte %llu of the plaintext buffer changed %llu steps into decrypting a forged message", NAME(o), (ull)mon_badpos, (ull)mon_bad); return; }
    }
    sim_time += task_steps(0);
    if (hash_bytes(1, wlo, (size_t)(whi - wlo)) != before) violation("%s: plaintext buffer changed within %llu steps of decrypting a forged message", NAME(o), (ull)task_steps(0));
}

// ---------------------------------------------------------------- C08: containment
// p[0]: 0 plain and unoptimised code between guards, 1 neighbourhood of the output watched after every instruction
static void c08_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0);
    p->nops = 1;
    struct op *o = &p->ops[0];
    p->p[0] = chance(r, 1, 8);
    int cls = (int)below(r, 3);
    if (!p->p[0] && chance(r, tier ? 2 : 1, slow(im) ? 60 : 14)) cls = 3;
    gen_op(r, o, im, KM_ALL, cls, 40);
    o->place = 0;
    u64 style = below(r, 6);
    for (int s = 0; s < SLOTS; s++) {
        u64 k = style == 0 ? PL_RIGHT : style == 1 ? PL_LEFT : below(r, 10) < 6 ? PL_RIGHT : below(r, 10) < 4 ? PL_LEFT : PL_ODD;
        if ((s == S_AD && !o->alen) || (s == S_IN && !o->mlen)) if (chance(r, 1, 2)) k = PL_NULL;
        o->place |= k << (4 * s);
    }
    if (p->p[0]) {
        o->place = (o->place & ~(15ull << (4 * S_OUT))) | (u64)PL_ODD << (4 * S_OUT);
        o->mlen %= 300;
        o->alen %= 100;
        o->poff &= ~(1ull << 57);
    }
    if (o->tam == T_NONE && o->kind == K_DEC && chance(r, 1, 3)) { o->tam = T_TRUNC; o->tpos = o->mlen + below(r, 16); o->tval = 0; }
}
static void count_places(const struct op *o, const struct vals *v)
{
    for (int s = 0; s < S_LEN; s++) {
        u64 k = o->place >> (4 * s) & 15;
        if (k == PL_RIGHT || k == PL_LEFT) fk[FK_GUARD]++;
        if (k == PL_ODD) fk[FK_MISALIGN]++;
        if (k == PL_NULL && ((s == S_AD && !v->alen) || (s == S_IN && !v->ilen))) fk[FK_NULL]++;
    }
    fk[FK_READONLY]++;
}
static const char *where(uptr a)
{
    static const char *const SN[] = {"key", "nonce", "associated data", "input", "output", "length"};
    static char b[80];
    for (int s = 0; s < SLOTS; s++)
        for (int v = 0; v < 2; v++) {
            uptr lo = (uptr)(v ? slot_ro(0, s) : slot_rw(0, s));
            if (a >= lo - 0x8000 && a < lo) { snprintf(b, sizeof b, "%ld bytes before the %s memory", (long)(lo - a), SN[s]); return b; }
            if (a >= lo + CAP && a < lo + CAP + 0x8000) { snprintf(b, sizeof b, "%ld bytes behind the %s memory", (long)(a - lo - CAP), SN[s]); return b; }
            if (a >= lo && a < lo + CAP) { snprintf(b, sizeof b, "write to the %s memory", SN[s]); return b; }
        }
    snprintf(b, sizeof b, "address %lx", (long)a);
    return b;
}
static void c08_exec(struct plan *p)
{
    struct op *o = &p->ops[0], easy = *o;
    struct vals v;
    struct call c;
    result ref, r;
    char why[80];
    easy.place = 0x222222;
    easy.poff = 0;
    note_op(o);
    op_values(o, &v);
    count_places(o, &v);
    state(hash_bytes(o->impl, &(u64[4]){o->place, o->kind * 16 + o->tam, v.ilen % 64 + (v.ilen > 300) * 64, v.alen % 64}, 32));
    run_alone(&easy, 0, 0, SM_COUNT, &ref);
    if (p->p[0] == 0) {
        for (int k = 0; k < 2; k++) {   // shipped, and unoptimised; on ARM: shipped, and on a machine with strict alignment
            int variant = k ? (ONARM ? 1 : 2) : 0;
            if (k && ONARM && work_of((int)o->impl, v.ilen + v.alen) > lim_hooked) break;
            op_values(o, &v);
            op_place(o, &v, 0, variant, 0, &c);
            sim_mode = SM_COUNT;
            task_begin(0, &c);
            task_run(0, 0x70000000u, 0);
            memset(&r, 0, sizeof r);
            r.fault = task_fault(0, &r.faddr);
            if (!r.fault) op_result(&c, &r);
            n_ops++;
            sim_time += v.ilen + v.alen + 1;
            evlog(r.outhash + (u64)r.fault);
            if (r.fault == F_SEGV && on_stack(r.faddr)) continue;   // stack use is C11's business
            if (r.fault) { violation("%s%s: %s of %llu bytes with %llu bytes of associated data: %s, %s", NAME(o), variant == 2 ? " (compiled without optimisation)" : "", KNAME[o->kind], (ull)v.ilen, (ull)v.alen, FAULTNAME[r.fault], where(r.faddr)); return; }
            if (!canaries_ok(&c, 0, why, sizeof why)) { violation("%s: %s of %llu bytes: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, why); return; }
            if (!same_result(&r, &ref)) { violation("%s: %s of %llu bytes depends on where the buffers lie: %s; aligned: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, describe(&r), describe(&ref)); return; }
        }
        return;
    }
    // watched: 64 bytes on both sides of the output must never change, not even for an instant
    op_values(o, &v);
    op_place(o, &v, 0, 1, 0, &c);
    if (v.olen + 128 > MON_MAX) return;
    static u8 old[MON_MAX + 8], neu[MON_MAX + 8];
    mon_out = c.out - 64;
    mon_len = v.olen + 128;
    memcpy(old, mon_out, mon_len);
    memcpy(mon_img, mon_out, mon_len);
    memcpy(neu, old, mon_len);
    mon_old = old; mon_new = neu;
    fk[FK_ADJACENT]++;
    for (int side = 0; side < 2; side++) {
        op_values(o, &v);
        op_place(o, &v, 0, 1, 0, &c);
        mon_out = side ? c.out + v.olen : c.out - 64;
        mon_len = 64;
        memcpy(old, mon_out, mon_len);
        memcpy(mon_img, mon_out, mon_len);
        memcpy(neu, old, mon_len);
        mon_bad = mon_writes = 0;
        sim_mode = SM_MON;
        task_begin(0, &c);
        task_run(0, 0x70000000u, 0);
        sim_mode = SM_RUN;
        n_ops++;
        sim_time += task_steps(0);
        memset(&r, 0, sizeof r);
        r.fault = task_fault(0, &r.faddr);
        if (!r.fault) op_result(&c, &r);
        evlog(r.outhash + mon_bad + (u64)r.fault);
        if (mon_bad) { violation("%s: %s: byte %lld relative to the %s of the output was written at step %llu", NAME(o), KNAME[o->kind], side ? (long long)mon_badpos : (long long)mon_badpos - 64, side ? "end" : "start", (ull)mon_bad); return; }
        if (r.fault == F_SEGV && on_stack(r.faddr)) return;
        if (r.fault) { violation("%s: %s: %s, %s", NAME(o), KNAME[o->kind], FAULTNAME[r.fault], where(r.faddr)); return; }
        if (!same_result(&r, &ref)) { violation("%s: %s of %llu bytes depends on where the buffers lie: %s; aligned: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, describe(&r), describe(&ref)); return; }
    }
}

// ---------------------------------------------------------------- C09: simulated clock
// all ops of the plan have equal lengths and addresses: equal time and equal path
static void c09_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0), n = 2 + (int)below(r, tier ? 6 : 4);
    int cls = chance(r, 1, slow(im) ? 30 : 8) ? 2 : (int)below(r, 2);
    struct op *o = &p->ops[0];
    int reject = chance(r, 1, 2);
    gen_op(r, o, im, reject ? KM_DEC : KM_ALL, cls, 0);
    o->poff &= ~SHARE;  // as whether the values are equal would show in the addresses
    for (int i = 0; i < n; i++) {
        struct op *q = &p->ops[i];
        *q = *o;
        if (i && chance(r, 2, 3)) q->kseed = chance(r, 1, 2) ? pick_seed(r) : (o->kseed & ~0xffffull) | (1 + below(r, 128));
        if (i && chance(r, 1, 2)) q->nseed = chance(r, 1, 2) ? pick_seed(r) : (o->nseed & ~0xffffull) | (1 + below(r, 128));
        if (i && chance(r, 1, 2)) q->aseed = pick_seed(r);
        if (i && chance(r, 1, 2)) q->mseed = pick_seed(r);
        if (reject) {
            static const u8 t[] = {T_FLIP, T_TAGRND, T_TAGMASK, T_TAGMASK, T_TAGMASK, T_AD, T_NONCE, T_KEY, T_BURST, T_TAGSUM};
            if (i && chance(r, 1, 2)) { q->kseed = o->kseed; q->nseed = o->nseed; q->aseed = o->aseed; q->mseed = o->mseed; }
            do q->tam = t[below(r, sizeof t)]; while (q->tam == T_AD && !q->alen);
            q->tpos = rnd(r) >> 24;
            q->tval = rnd(r) >> 32;
            if (q->tam == T_FLIP && chance(r, 2, 3)) q->tpos = 8 * (q->mlen + below(r, 16)) + below(r, 8);
            if (q->tam == T_TAGMASK) { u64 c = below(r, 4); q->tpos = c == 0 ? 1u << below(r, 16) : c == 1 ? 0xffffu << below(r, 16) & 0xffff : c == 2 ? 0xffffu >> below(r, 16) : rnd(r) & 0xffff; if (!q->tpos) q->tpos = 1; }
        }
    }
    p->nops = (u64)n;
}
static void c09_exec(struct plan *p)
{
    result first;
    int have = 0;
    u64 at = 0;
    for (u64 i = 0; i < p->nops; i++) {
        struct op *o = &p->ops[i];
        result r;
        struct vals v;
        op_values(o, &v);
        if (o->kind == K_DEC && (v.authentic != (o->tam == T_NONE))) continue;
        run_alone(o, 1, 0, SM_TRACE, &r);
        sim_time += r.steps;
        evlog(r.trace);
        note_op(o);
        if (r.fault) return;
        if (!have) { first = r; at = i; have = 1; state(r.trace); continue; }
        fk[FK_SECRET]++;
        state(hash_bytes(o->impl, o, sizeof *o));
        if ((first.ret == 0) != (r.ret == 0)) return;   // a wrong verdict is another property's business
        if (r.steps != first.steps) { violation("%s: %s of %llu bytes takes %llu steps with the data of op %d and %llu with op %d", NAME(o), KNAME[o->kind], (ull)v.ilen, (ull)first.steps, (int)at, (ull)r.steps, (int)i); return; }
        if (r.trace != first.trace) { violation("%s: %s of %llu bytes takes another path or touches other addresses with the data of op %d than with op %d", NAME(o), KNAME[o->kind], (ull)v.ilen, (int)at, (int)i); return; }
    }
}

// ---------------------------------------------------------------- C10: histories and stale memory
// p[0]: repetitions of the list; p[1]: stale stack seed; op.aux2: bit 0 repaint the stack before; op.aux bit 0: hooked, from bit 8: times in a row
static void c10_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0), n;
    u64 style = below(r, 8);
    p->p[0] = 1;
    p->p[1] = chance(r, 3, 4) ? 1 + below(r, 1000) : 0;
    if (style == 0) { n = 1 + (int)below(r, 6); p->p[0] = 60 + below(r, tier ? 20000 : 700); } // a short history over and over
    else if (style < 4) n = 2 + (int)below(r, 4);
    else n = 4 + (int)below(r, slow(im) ? 20 : 60);
    if (style == 0 && tier && chance(r, 1, 40)) { n = 1; p->p[0] = 66000; }    // past the range of a 16-bit counter
    if (style == 0 && dict_n && chance(r, 1, 2)) { n = 1 + (int)below(r, 2); p->p[0] = 3 + dict_len(r, 70000); }
    if (ONARM && n > 12) n = 12;
    int same = chance(r, 1, 2), burst = style == 1 && chance(r, 2, 3);
    if (burst) n = 2 + (int)below(r, 3);
    for (int i = 0; i < n; i++) {
        struct op *o = &p->ops[p->nops];
        gen_op(r, o, same || chance(r, 4, 5) ? im : next_impl(rnd(r) >> 8, 0), KM_ALL, style == 0 || burst ? 0 : chance(r, 1, 12) ? 2 : chance(r, 1, 2), 25);
        if (p->nops) {
            const struct op *q = &p->ops[chance(r, 2, 3) ? p->nops - 1 : below(r, p->nops)];
            u64 k = below(r, 10);
            if (k < 3) relate(r, o, q);
            else if (k < 6) mutate(r, o, q);
            if (chance(r, 2, 3)) { o->place = q->place; o->poff = q->poff; }   // same addresses
        }
        o->task = chance(r, 4, 5) ? 0 : 1;
        o->aux = p->p[0] > 1 ? 0 : chance(r, 1, 6);
        if (burst) {
            u64 k = dict_n && chance(r, 1, 2) ? 1 + dict_len(r, 3000) : 2 + below(r, chance(r, 1, 3) ? 700 : 70);
            o->aux = max_times((int)o->impl, o->mlen + o->alen, k) << 8;
            if (i == 1 && chance(r, 1, 2)) { // forgeries, then the message itself, or the other way round
                struct op *q = &p->ops[0];
                q->kind = K_DEC;
                if (!q->tam && chance(r, 2, 3)) pick_tamper(r, q);
                u64 tam = q->tam;
                *o = (struct op){0};
                *o = *q;
                o->tam = 0;
                if (!tam) pick_tamper(r, o);
                o->aux = 1 << 8;
            }
        }
        o->aux2 = chance(r, 1, 4);
        o->aux3 = rnd(r) % 0xffff;
        p->nops++;
    }
    u64 work = 1;
    for (u64 i = 0; i < p->nops; i++) work += work_of((int)p->ops[i].impl, p->ops[i].mlen + p->ops[i].alen);
    if (p->p[0] > 1) {
        u64 most = 1 + lim_plain * (chance(r, 1, 10) ? 20 : 1) / work;
        if (p->p[0] > most) p->p[0] = most;
    }
}
static void c10_exec(struct plan *p)
{
    char why[80];
    u64 h = 0;
    for (u64 i = 0; i < p->nops; i++) { // alone, at other addresses
        struct op q = p->ops[i];
        q.place = 0x222222;
        q.poff = 0;
        q.aux3 &= 0xff;     // the same stale output, another stale length
        run_alone(&q, (int)(q.aux & 1), 0, SM_COUNT, &solo[i]);
        note_op(&p->ops[i]);
    }
    pristine();
    if (p->p[1]) { task_paint(0, p->p[1]); fk[FK_STALE_STACK]++; }
    for (u64 rep = 0; rep < p->p[0]; rep++)
        for (u64 i = 0; i < p->nops; i++)
        for (u64 again = 0; again < (p->ops[i].aux >> 8 ? p->ops[i].aux >> 8 : 1); again++) {
            struct op *o = &p->ops[i];
            struct vals v;
            struct call c;
            result r;
            int t = (int)(o->task % TASKS);
            op_values(o, &v);
            op_place(o, &v, t, (int)(o->aux & 1), 0, &c);
            if (o->aux2 & 1) { task_paint(0, p->p[1] + i + rep * 131 + 1); fk[FK_STALE_STACK]++; }
            fk[FK_STALE_OUT]++;
            if (i && p->ops[i - 1].place == o->place) fk[FK_REUSE]++;
            sim_mode = SM_COUNT;
            task_begin(0, &c);
            task_run(0, 0x70000000u, 0);
            memset(&r, 0, sizeof r);
            r.fault = task_fault(0, &r.faddr);
            if (!r.fault) op_result(&c, &r);
            n_ops++;
            sim_time += v.ilen + v.alen + 1;
            h = mix64(h + r.outhash);
            if (rep == 0) state(h);
            if (!same_result(&r, &solo[i])) { violation("%s: call %llu of a history (%s): %s; in a fresh process: %s", NAME(o), (ull)(rep * p->nops + i), KNAME[o->kind], describe(&r), describe(&solo[i])); return; }
            if (!r.fault && !canaries_ok(&c, t, why, sizeof why)) { violation("%s: %s: %s", NAME(o), KNAME[o->kind], why); return; }
        }
    evlog(h);
}

// ---------------------------------------------------------------- C11: failing environment, small stack, steps
// p[0]: 0 environment and stack, 1 growth of steps
#define STACK_LIMIT 16384u
static void c11_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0);
    struct op *o = &p->ops[0];
    p->nops = 1;
    p->p[0] = chance(r, 1, 6);
    int cls = chance(r, tier ? 2 : 1, slow(im) ? 60 : 6) ? 3 : (int)below(r, 3);
    if (p->p[0]) cls = (int)below(r, 2);
    gen_op(r, o, im, KM_ALL, cls, 25);
    if (p->p[0]) { o->aux = (slow(im) ? 500 : 2000) + below(r, slow(im) ? 1000 : ONARM ? 1000 : 8000); if (!slow(im) && !ONARM && chance(r, 1, 10)) o->aux = 65530 + below(r, 3000); if (dict_n && !slow(im) && chance(r, 1, 4)) o->aux = dict_len(r, ONARM ? 8000 : chance(r, 1, 3) ? CAP - 600 : 70000); o->aux2 = below(r, 3); o->aux = fit(im, o->aux, lim_mixed); if (o->aux < 576) o->aux += 576; }
    p->p[1] = 1 + below(r, 1000);
}
static u64 steps_of(const struct op *o, u64 mlen, u64 alen, int *bad)
{
    struct op q = *o;
    struct vals v;
    struct call c;
    q.mlen = mlen;
    q.alen = alen;
    pristine();
    op_values(&q, &v);
    op_place(&q, &v, 0, 1, 0, &c);
    sim_mode = SM_COUNT;
    task_begin(0, &c);
    task_run(0, 0x70000000u, 0);
    uptr a;
    int f = task_fault(0, &a);
    if (f == F_BUDGET) { violation("%s: %s of %llu bytes with %llu bytes of associated data does not end", NAME(o), KNAME[o->kind], (ull)mlen, (ull)alen); *bad = 1; return 0; }
    if (f) *bad = 1;
    n_ops++;
    sim_time += task_steps(0);
    return task_steps(0);
}
// simulated steps that 64 bytes of a message cost: what bounds the size of plans
u64 cost64(int i)
{
    static u64 known[128];
    if (known[i]) return known[i];
    struct op o = {0};
    o.impl = (u64)i;
    int bad = 0, was = violated;
    u64 a = steps_of(&o, 64, 0, &bad), b = bad ? 0 : steps_of(&o, 640, 0, &bad);
    violated = was;
    known[i] = bad || b < a + 900 ? 100 : (b - a) / 9;
    return known[i];
}
void run_cost(int i, int how)
{   // how: 0 plain, 1 hooked, 2 traced, 3 observed
    struct op o = {0};
    struct vals v;
    struct call c;
    o.impl = (u64)i;
    o.mlen = 6400;
    pristine();
    op_values(&o, &v);
    op_place(&o, &v, 0, how ? 1 : 0, 0, &c);
    if (how == 3) { mon_out = c.out; mon_len = 96; mon_old = mon_new = c.out; }
    sim_mode = how == 2 ? SM_TRACE : how == 3 ? SM_MON : SM_COUNT;
    task_begin(0, &c);
    task_run(0, 0x70000000u, 0);
    sim_mode = SM_RUN;
}
static void c11_exec(struct plan *p)
{
    struct op *o = &p->ops[0];
    struct vals v;
    struct call c;
    note_op(o);
    if (p->p[0]) {
        int bad = 0;
        struct op q = *o;
        q.tam = T_NONE;
        int am = o->aux2 != 1, aa = o->aux2 != 0 && o->kind != K_HASH; // which lengths grow
        if (!am && !aa) am = 1;
        u64 big = o->aux;
        if (big < 576) return;
        u64 s0 = steps_of(&q, 0, 0, &bad);
        u64 s1 = bad ? 0 : steps_of(&q, am ? 576 : 0, aa ? 576 : 0, &bad);
        u64 s2 = bad ? 0 : steps_of(&q, am ? big : 0, aa ? big : 0, &bad);
        if (bad) return;
        evlog(s2);
        state(mix64(s2));
        // 576 bytes are 72 or 32 whole blocks; one incomplete block more at most
        u64 bound = s0 + (s1 > s0 ? s1 - s0 : 0) * (big + 144) / 576 * 3 / 2 + 20000;
        fk[FK_SLOW]++;
        if (s2 > bound) violation("%s: %s takes %llu steps for 0 bytes, %llu for 576, but %llu for %llu", NAME(o), KNAME[o->kind], (ull)s0, (ull)s1, (ull)s2, (ull)big);
        return;
    }
    result ref, r;
    // the call with everything available
    run_alone(o, 0, 0, SM_COUNT, &ref);
    for (int k = 0; k < 2; k++) {
        int variant = k; // plain: stack; hooked: a clock tick budget as well
        if (k && v.ilen + v.alen > 3000) break;
        pristine();
        env_reset(p->seed + 1);
        env_fail = 1;
        fk[FK_ALLOCFAIL]++;
        op_values(o, &v);
        op_place(o, &v, 0, variant, 0, &c);
        task_paint(0, p->p[1]);
        sim_mode = SM_COUNT;
        task_begin(0, &c);
        task_run(0, 0x70000000u, 0);
        env_fail = 0;
        memset(&r, 0, sizeof r);
        r.fault = task_fault(0, &r.faddr);
        if (!r.fault) op_result(&c, &r);
        n_ops++;
        sim_time += k ? task_steps(0) : v.ilen + v.alen + 1;
        u64 used = task_stack_used(0);
        evlog(r.outhash + used + env_calls);
        state(o->impl * 0x100000 + used + (o->kind << 18) * (o->tam + 1));
        if (!same_result(&r, &ref)) {
            int overflow = r.fault == F_SEGV && r.faddr >= (uptr)stack_lo(0) - 0x10000 && r.faddr < (uptr)stack_lo(0) + 0x1000;
            if (overflow) violation("%s: %s of %llu bytes overflows a stack of %u bytes", NAME(o), KNAME[o->kind], (ull)v.ilen, STACK);
            else violation("%s: %s of %llu bytes when the environment fails (%s): %s; else: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, env_calls ? env_last : "no call", describe(&r), describe(&ref));
            return;
        }
        if (env_prints) { violation("%s: %s prints (%s)", NAME(o), KNAME[o->kind], env_last); return; }
        if (r.fault == F_BUDGET || r.fault == F_DEADLOCK || r.fault == F_ABORT) { violation("%s: %s of %llu bytes: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, FAULTNAME[r.fault]); return; }
        if (r.fault == F_SEGV && r.faddr >= (uptr)stack_lo(0) - 0x10000 && r.faddr < (uptr)stack_lo(0) + 0x1000) { violation("%s: %s of %llu bytes overflows a stack of %u bytes", NAME(o), KNAME[o->kind], (ull)v.ilen, STACK); return; }
        if (!k && !r.fault) {
            fk[FK_SMALLSTACK]++;
            if (used > STACK_LIMIT) { violation("%s: %s of %llu bytes uses %llu bytes of stack", NAME(o), KNAME[o->kind], (ull)v.ilen, (ull)used); return; }
        }
    }
}

// ---------------------------------------------------------------- C12: output bytes change once
// p[0]: first watched byte of the output, p[1]: bytes watched; op.aux: crash after so many steps (0: watched throughout)
static void c12_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0);
    struct op *o = &p->ops[0];
    p->nops = 1;
    int cls = chance(r, tier ? 2 : 1, slow(im) ? 30 : 10) ? 2 : (int)below(r, 2);
    gen_op(r, o, im, KM_ENC | KM_DEC, cls, 0);
    if (chance(r, 1, 3)) o->alen = pick_len(r, 0);
    u64 olen = o->kind == K_ENC ? o->mlen + 16 : o->mlen;
    p->p[0] = 0;
    p->p[1] = olen;
    if (olen > 96) { p->p[1] = 96; p->p[0] = chance(r, 1, 3) ? olen - 96 : below(r, olen - 95); }
    if (chance(r, 1, 4)) { result s; run_alone(o, 1, 0, SM_COUNT, &s); if (s.steps) o->aux = 1 + below(r, s.steps); }
}
static void c12_exec(struct plan *p)
{
    struct op *o = &p->ops[0];
    struct vals v;
    struct call c;
    result fin, r;
    static u8 final[CAP], old[CAP];
    if (o->kind == K_HASH) return;
    run_alone(o, 1, 0, SM_COUNT, &fin);
    if (fin.fault || fin.ret) return;
    op_values(o, &v);
    // what the buffer finally holds (whether it is right is another property's business)
    op_place(o, &v, 0, 1, 0, &c);
    sim_mode = SM_COUNT;
    task_begin(0, &c);
    task_run(0, 0x70000000u, 0);
    memcpy(final, c.out, v.olen);
    pristine();
    op_place(o, &v, 0, 1, 0, &c);
    memcpy(old, c.out, v.olen);
    n_ops++;
    if (o->aux) { // crash and look
        sim_mode = SM_RUN;
        fk[FK_CRASH]++;
        task_begin(0, &c);
        task_run(0, o->aux, 0);
        sim_time += task_steps(0);
        state(last_pc);
        evlog(hash_bytes(0, c.out, v.olen));
        for (u64 i = 0; i < v.olen; i++)
            if (c.out[i] != final[i] && c.out[i] != old[i]) { violation("%s: %llu steps into %s byte %llu of %llu of the output is %02x, neither the old %02x nor the final %02x", NAME(o), (ull)o->aux, KNAME[o->kind], (ull)i, (ull)v.olen, c.out[i], old[i], final[i]); return; }
        return;
    }
    if (p->p[0] >= v.olen) return;
    u64 n = p->p[1];
    if (n > v.olen - p->p[0]) n = v.olen - p->p[0];
    if (n > MON_MAX) n = MON_MAX;
    fk[FK_OBSERVE]++;
    mon_out = c.out + p->p[0];
    mon_len = n;
    memcpy(mon_img, mon_out, n);
    mon_old = old + p->p[0];
    mon_new = final + p->p[0];
    mon_bad = mon_writes = 0;
    sim_mode = SM_MON;
    task_begin(0, &c);
    task_run(0, 0x70000000u, 0);
    sim_mode = SM_RUN;
    sim_time += task_steps(0);
    memset(&r, 0, sizeof r);
    r.fault = task_fault(0, &r.faddr);
    evlog(mon_bad + mon_writes);
    state(hash_bytes(o->impl, &(u64[3]){o->kind, v.ilen, mon_writes}, 24));
    if (r.fault) return;
    if (mon_bad) violation("%s: %llu steps into %s byte %llu of %llu of the output is neither what it was nor its final value", NAME(o), (ull)mon_bad, KNAME[o->kind], (ull)(p->p[0] + mon_badpos), (ull)v.olen);
}

// ---------------------------------------------------------------- C13: the caller's execution state
// op 0 is called with arbitrary reserved registers and modes (p[0]: seed), events: interrupts as for C02; p[1]: 0 plain code, 1 hooked
static void c13_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0), n = 1;
    p->p[0] = 1 + (rnd(r) >> 20);
    p->p[1] = chance(r, 2, 5);
    if (p->p[1]) n = 1 + (int)below(r, 3), op_limit = lim_hooked;
    for (int i = 0; i < n; i++) {
        struct op *o = &p->ops[p->nops];
        int cls = p->p[1] ? (int)below(r, 2) : (int)below(r, 3);
        if (!p->p[1] && chance(r, tier ? 2 : 1, slow(im) ? 60 : 30)) cls = 3;
        gen_op(r, o, im, KM_ALL, cls, 40);
        if (i && chance(r, 1, 3)) relate(r, o, &p->ops[0]);
        o->task = p->nops++;
    }
    if (n > 1) {
        run_solo(p, 1);
        u64 left = solo[0].steps;
        for (int i = 1; i < n; i++) { u64 d = 1 + below(r, left ? left : 1); if (chance(r, 1, 4)) d = 1 + below(r, left < 300 ? left + 1 : 300); left -= d < left ? d : left; ev_add(p, d, (u64)i, 0, 0, 0); }
    }
}
static void c13_exec(struct plan *p)
{
    static uptr want[ABI_WORDS], got[ABI_WORDS];
    struct vals v;
    char why[160];
    struct op *o = &p->ops[0];
    int variant = p->p[1] ? 1 : 0;
    result ref, r;
    if (!p->nops || p->nops > TASKS) return;
    for (u64 i = 0; i < p->nops; i++) { run_alone(&p->ops[i], variant, 0, SM_COUNT, &solo[i]); note_op(&p->ops[i]); if (solo[i].fault) return; }
    ref = solo[0];
    abi_set(want, p->p[0]);
    memcpy(got, want, sizeof got);
    fk[FK_CALLER]++;
    pristine();
    env_reset(p->seed + 1);
    memset(&I, 0, sizeof I);
    I.p = p;
    struct call *c = &I.calls[0];
    op_values(o, &v);
    op_place(o, &v, 0, variant, 0, c);
    c->abi = got;
    u64 first = p->nev ? p->evs[0].a : 0x7fffffff;
    intr_cb = intr_cb_;
    sim_mode = p->nev ? SM_INTR : SM_COUNT;
    task_begin(0, c);
    task_run(0, p->nev ? (first ? first : 1) : 0x70000000u, 0);
    sim_mode = SM_RUN;
    memset(&r, 0, sizeof r);
    r.fault = task_fault(0, &r.faddr);
    if (!r.fault) op_result(c, &r);
    n_ops++;
    sim_time += variant ? ref.steps : v.ilen + v.alen + 1;
    evlog(r.outhash + (u64)r.fault);
    for (int i = 0; i < 6; i++) evlog(got[i]);
    state(hash_bytes(o->impl * 4 + o->kind, &(u64[3]){v.ilen % 64 + (v.ilen > 300) * 64, v.alen % 64, I.seen ? last_pc : 0}, 24) + (u64)r.ret);
    if (!same_result(&r, &ref)) { violation("%s: %s with other contents of the caller's registers and modes%s: %s; else: %s", NAME(o), KNAME[o->kind], p->nev ? " and interrupts" : "", describe(&r), describe(&ref)); return; }
    if (r.fault) return;
    if (!abi_same(want, got, why, sizeof why)) { violation("%s: %s of %llu bytes%s: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, p->nev ? " interrupted by other calls" : "", why); return; }
    if (env_state) { violation("%s: %s changes the state of the process (%s)", NAME(o), KNAME[o->kind], env_last); return; }
}

// ---------------------------------------------------------------- C14: in place
// p[0]: 0 plain and unoptimised code, 1 crash after op.aux steps, 2 a window of p[2] bytes from p[1] watched after every instruction
static void c14_gen(struct plan *p, rng *r, int tier)
{
    int im = pick_impl(p, 0);
    struct op *o = &p->ops[0];
    u64 k = below(r, 10);
    p->nops = 1;
    p->p[0] = k < 6 ? 0 : k < 8 ? 1 : 2;
    int cls = p->p[0] == 2 ? (int)below(r, 2) : (int)below(r, 3);
    if (!p->p[0] && chance(r, tier ? 2 : 1, slow(im) ? 60 : 20)) cls = 3;
    if (p->p[0]) op_limit = lim_hooked;
    gen_op(r, o, im, KM_ENC | KM_DEC, cls, 35);
    o->poff |= INPLACE;
    if (chance(r, 1, 3)) o->alen = pick_len(r, 0);
    u64 olen = o->kind == K_ENC ? o->mlen : o->mlen + 16;
    if (p->p[0] == 1) { result s; run_alone(o, 1, 0, SM_COUNT, &s); o->aux = 1 + below(r, s.steps ? s.steps : 1); }
    p->p[1] = 0;
    p->p[2] = olen;
    if (olen > 96) { p->p[2] = 96; p->p[1] = chance(r, 1, 3) ? olen - 96 : below(r, olen - 95); }
}
static void c14_exec(struct plan *p)
{
    struct op *o = &p->ops[0], apart = *o;
    struct vals v;
    struct call c;
    result ref, r;
    char why[160];
    static u8 final[CAP], old[CAP];
    if (o->kind == K_HASH || !(o->poff & INPLACE)) return;
    note_op(o);
    op_values(o, &v);
    if (!v.ilen) return;
    fk[FK_INPLACE]++;
    apart.poff &= ~INPLACE;
    run_alone(&apart, 0, 0, SM_COUNT, &ref);
    if (ref.fault) return;
    u64 span = v.ilen > v.olen ? v.ilen : v.olen;
    pristine();
    op_values(&apart, &v);
    op_place(&apart, &v, 0, 0, 0, &c);
    sim_mode = SM_COUNT;
    task_begin(0, &c);
    task_run(0, 0x70000000u, 0);
    memcpy(final, c.out, v.olen);
    for (int k = 0; k < (p->p[0] || ONARM ? 1 : 2); k++) {
        pristine();
        op_values(o, &v);
        op_place(o, &v, 0, p->p[0] ? 1 : k ? 2 : 0, 0, &c);
        memcpy(old, c.out, span);
        if (ref.ret) memcpy(final, old, v.olen);
        memcpy(final + v.olen, old + v.olen, span - v.olen);
        n_ops++;
        int w;
        if (p->p[0] == 2) {
            if (p->p[1] >= v.olen) return;
            fk[FK_OBSERVE]++;
            mon_out = c.out + p->p[1];
            mon_len = v.olen - p->p[1] < p->p[2] ? v.olen - p->p[1] : p->p[2];
            if (mon_len > MON_MAX) mon_len = MON_MAX;
            memcpy(mon_img, mon_out, mon_len);
            mon_old = old + p->p[1];
            mon_new = final + p->p[1];
            mon_bad = mon_writes = 0;
            sim_mode = SM_MON;
        } else sim_mode = p->p[0] ? SM_RUN : SM_COUNT;
        task_begin(0, &c);
        w = task_run(0, p->p[0] == 1 ? (o->aux ? o->aux : 1) : 0x70000000u, 0);
        sim_mode = SM_RUN;
        sim_time += p->p[0] ? task_steps(0) : v.ilen + v.alen + 1;
        evlog(hash_bytes(0, c.out, span));
        if (w == R_PREEMPT) {
            fk[FK_CRASH]++;
            state(last_pc);
            for (u64 i = 0; i < span; i++)
                if (c.out[i] != final[i] && c.out[i] != old[i]) { violation("%s: %llu steps into %s in place byte %llu of %llu is %02x, neither the old %02x nor the final %02x", NAME(o), (ull)o->aux, KNAME[o->kind], (ull)i, (ull)v.olen, c.out[i], old[i], final[i]); return; }
            if (!canaries_ok(&c, 0, why, sizeof why)) { violation("%s: %s in place: %s", NAME(o), KNAME[o->kind], why); return; }
            return;
        }
        memset(&r, 0, sizeof r);
        r.fault = task_fault(0, &r.faddr);
        if (!r.fault) op_result(&c, &r);
        state(hash_bytes(o->impl * 4 + o->kind, &(u64[4]){v.ilen % 144 + (v.ilen > 300) * 256, v.alen % 64, o->tam, p->p[0]}, 32));
        if (r.fault) { violation("%s: %s of %llu bytes in place: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, FAULTNAME[r.fault]); return; }
        if (r.ret != ref.ret || r.len != ref.len) { violation("%s: %s of %llu bytes in place: %s; with separate buffers: %s", NAME(o), KNAME[o->kind], (ull)v.ilen, describe(&r), describe(&ref)); return; }
        for (u64 i = 0; i < v.olen; i++) if (c.out[i] != final[i]) { violation("%s: %s of %llu bytes in place%s: byte %llu is %02x, not %02x", NAME(o), KNAME[o->kind], (ull)v.ilen, ref.ret ? " (rejected)" : "", (ull)i, c.out[i], final[i]); return; }
        if (!canaries_ok(&c, 0, why, sizeof why)) { violation("%s: %s in place: %s", NAME(o), KNAME[o->kind], why); return; }
        if (p->p[0] == 2 && mon_bad) { violation("%s: %llu steps into %s in place byte %llu of %llu is neither what it was nor its final value", NAME(o), (ull)mon_bad, KNAME[o->kind], (ull)(p->p[1] + mon_badpos), (ull)v.olen); return; }
    }
}

// ---------------------------------------------------------------- C15: lengths beyond what tests allocate
// p[0] 0: the caller states a length of p[2] bytes (p[1] 0: of the associated data, 1: of the message, ciphertext or image),
//         but the memory ends after a few: a call that returns has not processed what it was given.
// p[0] 1: (x86) the whole length, more than 2^32 bytes, on memory that repeats.
#define DEEPLEN ((1ull << 32) + 29)
#include "golden.h"
static u64 golden_of(int alg, int what) { for (size_t i = 0; i < sizeof GOLDEN / sizeof *GOLDEN; i++) if (GOLDEN[i].alg == alg && GOLDEN[i].what == what) return GOLDEN[i].h; return 0; }
static void c15_gen(struct plan *p, rng *r, int tier)
{
    struct op *o = &p->ops[0];
    p->nops = 1;
    if (tier == 2) { // not sampled: implementation and kind from the seed
        int im = (int)(p->seed % (u64)NIMPLS), what = (int)(p->seed / (u64)NIMPLS % 3);
        memset(o, 0, sizeof *o);
        o->impl = (u64)im;
        o->kind = what == 0 ? K_ENC : what == 1 ? K_DEC : K_HASH;
        o->kseed = 5 << 16; o->nseed = 6 << 16; o->aseed = 7 << 16; o->mseed = 8 << 16;
        o->alen = what == 1 ? 7 : 0;
        o->mlen = what == 0 ? 5 : 0;
        p->p[0] = 1;
        p->p[1] = what != 0;
        p->p[2] = DEEPLEN;
        return;
    }
    gen_op(r, o, pick_impl(p, 0), KM_ALL, 1, 0);
    o->poff &= ~(SHARE | PACKED);
    p->p[1] = o->kind == K_HASH || chance(r, 2, 3);
    // memory for a few blocks only
    u64 avail = (chance(r, 3, 4) ? 64 : 400) + 8 * below(r, 40) + (chance(r, 1, 4) ? below(r, 8) : 0);
    if (p->p[1]) o->mlen = avail; else o->alen = avail;
    // a number of few bits, above any residue that fits into the memory
    unsigned top = ONARM ? 31 : 47, k = 20 + (unsigned)below(r, top - 20);
    if (!ONARM && chance(r, 1, 3)) k = 31 + (unsigned)below(r, 4);
    u64 L = 1ull << k;
    if (chance(r, 1, 4)) L |= 1ull << (20 + below(r, k - 19));
    if (chance(r, 1, 8)) L |= (rnd(r) & (L - 1)) & ~0xffffull;
    if (dict_n && chance(r, 1, 6)) { u64 d = pick_dict(r); if (d < 1u << 20) L |= d; }
    L += chance(r, 1, 3) ? below(r, 3) : below(r, 48);
    if (chance(r, 1, 8)) L -= 2 * below(r, 20);
    p->p[2] = L;
    o->place &= ~(0xfull << (4 * S_AD) | 0xfull << (4 * S_IN) | 0xfull << (4 * S_OUT));
    if (!p->p[1]) o->place |= (u64)(chance(r, 1, 2) ? PL_RIGHT : PL_ALIGNED) << (4 * S_IN);
    else o->place |= (u64)(chance(r, 1, 2) ? PL_RIGHT : PL_ALIGNED) << (4 * S_AD);
    p->p[3] = below(r, ONARM ? 2 : 4);
}
static int inside(uptr a, const u8 *b, u64 len) { return a >= (uptr)b && a - (uptr)b < len; }
#if defined(__x86_64__)
// what a complete call gives, digested: also computes the golden values with the model (im < 0)
static u64 deep_run(int im, int alg, int what, int *ret, ull *len, int *fault)
{
    struct op o;
    struct vals v;
    static struct call c;
    memset(&o, 0, sizeof o);
    o.impl = (u64)(im < 0 ? 0 : im);
    o.kind = what == 0 ? K_ENC : what == 1 ? K_DEC : K_HASH;
    o.kseed = 5 << 16; o.nseed = 6 << 16; o.aseed = 7 << 16; o.mseed = 8 << 16;
    o.alen = what == 1 ? 7 : 0;
    o.mlen = what == 0 ? 5 : 0;
    op_values(&o, &v);
    u64 L = DEEPLEN, h = 0;
    u8 *in = huge_map(0, L + 16, 9 << 16), *out = what == 1 ? huge_map(1, L, 10 << 16) : 0;
    *fault = -1;
    if (!in || (what == 1 && !out)) return 0;
    static u8 b[64];
    if (what == 1) { // the tag
        u64 g = golden_of(alg, 3), g2 = golden_of(alg, 4);
        u8 t[16];
        for (int i = 0; i < 8; i++) { t[i] = (u8)(g >> 8 * i); t[8 + i] = (u8)(g2 >> 8 * i); }
        if (im < 0) { model_tag(alg, t, in, L, v.ad, v.alen, v.n, v.k); }
        memcpy(in + L, t, 16);
    }
    huge_ro(in, L + 16);
    if (im < 0) {
        *fault = 0; *ret = 0;
        if (what == 0) { model_encrypt(alg, b, v.in, v.ilen, in, L, v.n, v.k); *len = 21; return hash_bytes(1, b, 21); }
        if (what == 2) { model_hash(b, in, L); *len = 0; return hash_bytes(1, b, 32); }
        model_stream(alg, out, in, L, v.n, v.k);
        *len = L;
        h = hash_bytes(1, out, HEDGE);
        h = hash_bytes(h, out + ((L - HEDGE) & ~0xfffull), L - ((L - HEDGE) & ~0xfffull));
        u64 w[2];
        memcpy(w, in + L, 16);
        printf("    {%d, 3, 0x%llxull}, {%d, 4, 0x%llxull},\n", alg, (ull)w[0], alg, (ull)w[1]);
        return h;
    }
    pristine();
    op_place(&o, &v, 0, 0, 0, &c);
    if (what == 0) { c.ad = in; c.alen = L; }
    if (what == 1) { c.in = in; c.ilen = L + 16; c.out = out; c.olen = L; }
    if (what == 2) { c.in = in; c.ilen = L; }
    sim_mode = SM_COUNT;
    tick_limit = 1000;
    task_begin(0, &c);
    task_run(0, 0x70000000u, 0);
    tick_limit = 6;
    uptr fa;
    *fault = task_fault(0, &fa);
    *ret = c.ret;
    if (what != 2) memcpy(len, c.len, 8); else *len = 0;
    if (what == 0) return hash_bytes(1, c.out, 21);
    if (what == 2) return hash_bytes(1, c.out, 32);
    h = hash_bytes(1, out, HEDGE);
    return hash_bytes(h, out + ((L - HEDGE) & ~0xfffull), L - ((L - HEDGE) & ~0xfffull));
}
void golden_print(void)
{
    for (int alg = 0; alg < 4; alg++) for (int what = 0; what < 3; what++) {
        int ret, f;
        ull len;
        if (what == 2 && alg) continue;
        u64 h = deep_run(-1, alg, what, &ret, &len, &f);
        printf("    {%d, %d, 0x%llxull},\n", alg, what, (ull)h);
        fflush(stdout);
    }
}
#endif
static void c15_exec(struct plan *p)
{
    struct op *o = &p->ops[0];
    struct vals v;
    static struct call c;
    u64 L = p->p[2];
    const char *of = p->p[1] ? o->kind == K_ENC ? "message" : o->kind == K_DEC ? "ciphertext" : "input" : "associated data";
    if (p->p[0]) {
#if defined(__x86_64__)
        int what = o->kind == K_ENC ? 0 : o->kind == K_DEC ? 1 : 2, ret, f, alg = IMPLS[o->impl].alg;
        ull len = 0;
        if (what == 2 && !IMPLS[o->impl].hash[0]) return;
        u64 want = golden_of(what == 2 ? 0 : alg, what);
        if (!want) return;
        fk[FK_HUGEFULL]++;
        u64 h = deep_run((int)o->impl, alg, what, &ret, &len, &f);
        if (f < 0) return;
        n_ops++;
        sim_time += DEEPLEN;
        evlog(h + (u64)ret + len);
        state(mix64(h + o->impl * 3 + (u64)what));
        ull wlen = what == 0 ? 21 : what == 1 ? DEEPLEN : 0;
        if (f) violation("%s: %s with %llu bytes of %s: %s", NAME(o), KNAME[o->kind], (ull)DEEPLEN, of, FAULTNAME[f]);
        else if (ret || len != wlen || h != want) violation("%s: %s with %llu bytes of %s: ret %d len %llu, result %016llx, not %016llx as the model", NAME(o), KNAME[o->kind], (ull)DEEPLEN, of, ret, (ull)len, (ull)h, (ull)want);
#endif
        return;
    }
    if (o->kind == K_HASH && !p->p[1]) return;
    if (L < 1u << 19) return;
    op_values(o, &v);
    u64 avail = p->p[1] ? v.ilen : v.alen;
    if (avail > 4096) return;
    for (int k = 0; k < 2; k++) {
        int variant = k ? 1 : p->p[3] == 3 ? 2 : p->p[3] == 2 ? 3 : 0;
        pristine();
        op_values(o, &v);
        op_place(o, &v, 0, variant, 0, &c);
        if (!p->p[1]) c.alen = L;
        else { c.ilen = L; c.olen = L; }
        fk[FK_HUGE]++;
        sim_mode = SM_COUNT;
        task_begin(0, &c);
        int w = task_run(0, variant & 1 ? 4000000 : 0x70000000u, 0);
        uptr fa = 0;
        int f = task_fault(0, &fa);
        n_ops++;
        if (variant & 1) sim_time += task_steps(0);
        evlog((u64)w * 16 + (u64)f + (f == F_SEGV || f == F_BUS ? fa : 0) + c.alen);
        state(mix64(o->impl * 64 + o->kind * 16 + p->p[1] * 8 + (u64)f) + (u64)__builtin_clzll(L) * 64 + L % 64);
        if (w == R_DONE) { violation("%s: %s with %llu bytes of %s returns %d, and only %llu of them could be read", NAME(o), KNAME[o->kind], (ull)L, of, c.ret, (ull)avail); return; }
        if (w == R_FAULT && f != F_BUDGET) {
            u8 *b = p->p[1] ? c.in : c.ad;
            int ok = (f == F_SEGV || f == F_BUS) && (inside(fa, b, L) || (p->p[1] && o->kind != K_HASH && inside(fa, c.out, L + 16)));
            if (!ok) { violation("%s: %s with %llu bytes of %s: %s%s", NAME(o), KNAME[o->kind], (ull)L, of, FAULTNAME[f], f == F_SEGV || f == F_BUS ? " outside the buffers" : ""); return; }
            // behind the memory of the output, not of the message: what lies before has been encrypted
            if (p->p[1] && o->kind == K_ENC && inside(fa, c.out, L + 16) && avail > 256) {
                static u8 exp[4096];
                model_stream(IMPLS[o->impl].alg, exp, v.in, avail, v.n, v.k);
                for (u64 i = 0; i < avail - 256; i++) if (c.out[i] != exp[i]) { violation("%s: with %llu bytes of message byte %llu is %02x, not encrypted to %02x, when the tag is computed", NAME(o), (ull)L, (ull)i, c.out[i], exp[i]); return; }
            }
            if (o->kind != K_HASH && p->p[1]) {
                ull want = o->kind == K_ENC ? L + 16 : L - 16, got;
                memcpy(&got, c.len, 8);
                if (want >> 32 && got == (u32)want && got) { violation("%s: %s with %llu bytes of %s gives the length %llu", NAME(o), KNAME[o->kind], (ull)L, of, got); return; }
            }
        }
    }
}
void c05_gen(struct plan *, rng *, int); void c05_exec(struct plan *);
void c06_gen(struct plan *, rng *, int); void c06_exec(struct plan *);
void c07_gen(struct plan *, rng *, int); void c07_exec(struct plan *);
const struct mode MODES[] = {
    {"self", self_gen, self_exec}, {"C01", c01_gen, c01_exec}, {"C02", c02_gen, c02_exec}, {"C03", c03_gen, c03_exec},
    {"C04", c04_gen, c04_exec}, {"C05", c05_gen, c05_exec}, {"C06", c06_gen, c06_exec}, {"C07", c07_gen, c07_exec},
    {"C08", c08_gen, c08_exec}, {"C09", c09_gen, c09_exec}, {"C10", c10_gen, c10_exec}, {"C11", c11_gen, c11_exec}, {"C12", c12_gen, c12_exec},
    {"C13", c13_gen, c13_exec}, {"C14", c14_gen, c14_exec}, {"C15", c15_gen, c15_exec}};
const int NMODES = sizeof MODES / sizeof *MODES;
