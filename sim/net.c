// Several nodes with different implementations, an unreliable network, unreliable storage,
// crashes and restarts: properties C05, C06, C07.
//
// Plan: p[0] nodes; p[1] which of them run code compiled without optimisation; ops[0..N-1] give the implementation of each node, the other ops are the
// messages (op.task: sender) or images. Events {simulated time, what, x, y, z} in time order:
#include "sim.h"
#include "model.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
enum {
    E_SEND,     // message x is encrypted by its sender (image x is hashed by its publisher); z: crash after so many steps
    E_PICK,     // the packet register becomes a copy of message x
    E_MUT,      // it is damaged: x kind, y and z say how
    E_RX,       // it arrives at node x, (y) more than once in a row; z: the node crashes so many steps into handling it
    E_CRASH,    // node x loses everything volatile and starts again
    E_WRAP,     // it arrives at node x with z*2^31 (mod 2^64) added to the length of (y) 0 the associated data, 1 the ciphertext
    E_WRAPSEND, // message x is encrypted (hashed) by node y with z*2^31 added to the length of its text (z>=16: of its associated data, z-16)
    E_LOSS      // recorded only: y 0 lost packet 1 duplicate 2 delayed past a later one 3 partition 4 slow node
};
enum {
    M_FLIP, M_TAGFLIP, M_TRUNC, M_TRUNCTO, M_EXT, M_BODYEXT, M_ADFLIP, M_ADEXT, M_ADTRUNC, M_NFLIP, M_KFLIP, M_SHIFT, M_SWAPBLK,
    M_AD_OF, M_TAG_OF, M_BODY_OF, M_NONCE_OF, M_KEY_OF, M_BURST, M_TAGMASK, M_TAGSUM, M_TAGROT, M_TAGCONST, M_TORN, M_TAGHEAD,
    M_ROLES, M_ADPREFIX, M_SHORTTAG, M_COUNT
};
static const char *const MNAME[] = {
    "bit flip", "tag bit flip", "truncated", "cut to a short length", "extended", "extended before the tag", "AD bit flip", "AD extended", "AD truncated",
    "nonce bit flip", "key bit flip", "AD/ciphertext boundary moved", "blocks swapped", "AD of another message", "tag of another message",
    "body of another message", "nonce of another message", "key of another link", "burst error", "several tag bytes wrong", "two tag bytes wrong by opposite amounts",
    "tag rotated", "constant tag", "torn write", "partly right tag", "AD and ciphertext exchanged", "AD prefixed", "tag shortened and shifted"};
#define MAXLEN (CAP - 0x800)
#define NMSG 40
struct packet { u8 k[16], n[16]; u8 *ad, *c; u64 alen, clen; int bad; char what[160]; };
static u8 store_ad[NMSG][8 + 4], pk_ad[CAP], pk_c[CAP], t1[CAP], t2[CAP];
static struct msg { int sent; u8 *ct, *ad, *pt; u64 clen, alen, mlen; u8 k[16], n[16], dg[32]; } M[NMSG];
static struct packet P;
static char *node_st[TASKS];
static u64 node_stn[TASKS];

// ---------------------------------------------------------------- generation
struct qe { u64 t, seq; u32 n; struct ev e[6]; };
static struct qe Q[256];
static u32 qn;
static struct qe *q_at(u64 t) { if (qn >= 256) return 0; struct qe *q = &Q[qn]; memset(q, 0, sizeof *q); q->t = t; q->seq = qn++; return q; }
static void q_ev(struct qe *q, u64 b, u64 c, u64 d, u64 e) { if (q && q->n < 6) q->e[q->n++] = (struct ev){q->t, b, c, d, e}; }
static int q_cmp(const void *a, const void *b)
{
    const struct qe *x = a, *y = b;
    return x->t != y->t ? (x->t < y->t ? -1 : 1) : x->seq < y->seq ? -1 : x->seq > y->seq;
}
static u64 cutsteps(rng *r) { return 1 + below(r, 1ull << below(r, 19)); }
static void mutate(rng *r, struct qe *q, u64 nmsg, u64 first, int hash)
{
    int n = chance(r, 1, 6) ? 2 : 1;
    while (n--) {
        u64 m = below(r, M_COUNT), y = rnd(r) >> 20, z = rnd(r) >> 20;
        if (hash) { static const u8 h[] = {M_FLIP, M_TRUNC, M_TRUNCTO, M_EXT, M_SWAPBLK, M_BURST, M_TORN, M_BODY_OF, M_FLIP}; m = h[below(r, sizeof h)]; }
        else if (chance(r, 1, 3)) { static const u8 h[] = {M_TAGFLIP, M_TAGFLIP, M_TAGMASK, M_FLIP, M_TRUNCTO, M_TRUNC, M_NFLIP, M_ADFLIP}; m = h[below(r, sizeof h)]; }
        if (m == M_AD_OF || m == M_TAG_OF || m == M_BODY_OF || m == M_NONCE_OF || m == M_KEY_OF || m == M_TORN) y = first + below(r, nmsg);
        if (m == M_EXT || m == M_BODYEXT || m == M_ADEXT) {
            u64 k = below(r, 12);
            y = k < 7 ? 1 + below(r, 40) : k < 9 ? 256 : k < 11 ? 65536 : 131072;
            if (dict_n && chance(r, 1, 4)) y = 1 + dict[below(r, (u64)dict_n)] % 65536;
        }
        if (m == M_TAGMASK) { unsigned w = 0, b = 1u << below(r, 5); while (b--) w |= 1u << below(r, 16); y = w; z = 1 + below(r, 255); }
        q_ev(q, E_MUT, m, y, z);
    }
}
static u64 burst(rng *r, u64 m, const struct plan *p)
{   // how often a packet arrives in a row
    if (!chance(r, 1, 12)) return 0;
    const struct op *o = &p->ops[m];
    u64 len = o->mlen + o->alen + 200, k = dict_n && chance(r, 1, 2) ? dict_len(r, 1000) : 2 + below(r, chance(r, 1, 3) ? 300 : 70);
    return max_times((int)p->ops[0].impl, len, k * 4) / 4;
}
static void net_gen(struct plan *p, rng *r, int tier, int what) // what: 5, 6, 7
{
    int hash = what == 7, first = pick_impl(p, hash), N = 2 + (int)below(r, 4), K = 1 + (int)below(r, 5);
    int cand[128], nc = 0, big = 0;
    for (int i = 0; i < NIMPLS; i++) if (impl_ok[i] && IMPLS[i].alg == IMPLS[first].alg && (!hash || IMPLS[i].hash[0])) cand[nc++] = i;
    p->p[0] = (u64)N;
    if (!ONARM && chance(r, 1, 3)) { p->p[1] = below(r, 1u << N); p->p[11] = 1; }
    for (int i = 0; i < N; i++) { p->ops[i].impl = (u64)(i == 0 ? first : i == 1 && chance(r, 1, 2) ? first : cand[below(r, (u64)nc)]); p->ops[i].task = (u64)i; }
    int isref = strstr(IMPLS[first].name, "isapk") && strstr(IMPLS[first].name, "ref");
    for (int i = 0; i < K; i++) {
        struct op *o = &p->ops[N + i];
        int cls = (int)below(r, 3);
        if (!big && chance(r, tier ? 2 : 1, (isref || ONARM ? 40 : 10))) cls = 3, big = 1;
        gen_op(r, o, first, hash ? KM_HASH : KM_ENC, cls, 0);
        if ((o->mlen > 140000 || o->alen > 140000) && chance(r, 4, 5)) { o->mlen %= 140000; o->alen %= 140000; }   // each is delivered many times
        if (ONARM && !(dict_n && o->mlen + o->alen < 140000) && chance(r, 9, 10)) { o->mlen %= 6000; o->alen %= 6000; }
        if (i && chance(r, 1, 2)) o->kseed = p->ops[N].kseed;                       // same key on several messages
        if (i && chance(r, 1, 4)) { o->mseed = p->ops[N + i - 1].mseed; o->mlen = p->ops[N + i - 1].mlen; }
        if (i && chance(r, 1, 4)) { o->aseed = p->ops[N + i - 1].aseed; o->alen = p->ops[N + i - 1].alen; }
        if (i && chance(r, 1, 8)) o->nseed = p->ops[N + i - 1].nseed;               // nonce reuse must not break authentication
        o->task = i == 0 ? 0 : below(r, (u64)N);
    }
    p->nops = (u64)(N + K);
    // outages and partitions
    u64 down_from[8] = {0}, down_to[8] = {0}, part_from = 0, part_to = 0, part_cut = 0, lossy = below(r, 40), slownode = chance(r, 1, 4) ? below(r, (u64)N) : 99;
    qn = 0;
    for (int i = 0; i < N; i++) if (chance(r, 1, 4)) {
        down_from[i] = 1 + below(r, 60000); down_to[i] = down_from[i] + 1000 + below(r, 30000);
        struct qe *q = q_at(down_to[i]);
        q_ev(q, E_CRASH, (u64)i, 0, 0);
    }
    if (chance(r, 1, 4)) { part_from = below(r, 40000); part_to = part_from + 1000 + below(r, 50000); part_cut = 1 + below(r, (u64)N - 1); }
    int budget = isref ? 8 : 26;
    for (int i = 0; i < K; i++) {
        u64 s = p->ops[N + i].task, d = (s + 1 + below(r, (u64)N - 1)) % (u64)N, t = 1 + below(r, 20000), rto = 5000 + below(r, 4000);
        if (i == 0 && chance(r, 1, 2)) { d = 0; s = p->ops[N].task = chance(r, 1, 2) ? 1 : 0; }
        if (t >= down_from[s] && t < down_to[s]) t = down_to[s] + 1;
        struct qe *q = q_at(t);
        if (chance(r, 1, 8)) { q_ev(q, E_SEND, (u64)(N + i), 0, cutsteps(r)); q_ev(q, E_CRASH, s, 0, 0); }
        q_ev(q, E_SEND, (u64)(N + i), 0, 0);
        if (what != 5 && !ONARM && chance(r, 1, 10)) q_ev(q, E_WRAPSEND, (u64)(N + i), chance(r, 1, 2) ? 0 : below(r, (u64)N), (1 + below(r, chance(r, 1, 2) ? 4 : 15)) + (chance(r, 1, 2) && !hash ? 16 : 0));
        int delivered = 0;
        for (int attempt = 0; attempt < 24 && !delivered; attempt++) {
            u64 ts = t + (u64)attempt * rto + 10;
            int parted = ts >= part_from && ts < part_to && (s < part_cut) != (d < part_cut);
            if (attempt < 20 && (parted || (ts >= down_from[s] && ts < down_to[s]) || below(r, 100) < lossy)) {
                q_ev(q_at(ts), E_LOSS, 0, parted ? 3 : 0, 0);
                continue;
            }
            int copies = 1 + (int)(chance(r, 1, 5) ? 1 + below(r, 2) : 0);
            for (int c = 0; c < copies; c++) {
                u64 ta = ts + 50 + below(r, chance(r, 1, 4) ? 30000 : 500) + (d == slownode ? 20000 : 0);
                if (attempt < 20 && ta >= down_from[d] && ta < down_to[d]) continue;
                struct qe *g = q_at(ta);
                q_ev(g, E_PICK, (u64)(N + i), 0, 0);
                if (c) q_ev(g, E_LOSS, 0, 1, 0);
                if (d == slownode) q_ev(g, E_LOSS, 0, 4, 0);
                if (attempt < 20 && chance(r, 1, 10)) { q_ev(g, E_RX, d, 0, cutsteps(r)); continue; } // crash while handling it
                q_ev(g, E_RX, d, burst(r, (u64)(N + i), p), 0);
                delivered = 1;
            }
        }
    }
    if (what == 6) budget = chance(r, 1, 2) ? (int)below(r, 6) : 0;    // what must be rejected here is up to C05: it only makes history
    {
        while (budget-- > 0) { // an active adversary, a noisy line, bad flash
            u64 m = (u64)N + (chance(r, 1, 2) ? 0 : below(r, (u64)K)), d = chance(r, 1, 2) ? 0 : below(r, (u64)N);
            struct qe *q = q_at(what == 6 ? 1 + below(r, 40000) : 30000 + below(r, 100000));
            q_ev(q, E_PICK, m, 0, 0);
            if (what == 5 && !ONARM && chance(r, 1, 16)) { q_ev(q, E_WRAP, d, below(r, 2), 1 + below(r, chance(r, 1, 2) ? 4 : 15)); continue; }
            if (chance(r, 14, 15)) mutate(r, q, (u64)K, (u64)N, hash);
            q_ev(q, E_RX, d, burst(r, m, p), 0);
        }
    }
    qsort(Q, qn, sizeof *Q, q_cmp);
    for (u32 i = 0; i < qn; i++) for (u32 j = 0; j < Q[i].n; j++) if (p->nev < MAXEV) p->evs[p->nev++] = Q[i].e[j];
}
void c05_gen(struct plan *p, rng *r, int tier) { net_gen(p, r, tier, 5); }
void c06_gen(struct plan *p, rng *r, int tier) { net_gen(p, r, tier, 6); }
void c07_gen(struct plan *p, rng *r, int tier) { net_gen(p, r, tier, 7); }

// ---------------------------------------------------------------- execution
static u8 *keep(const u8 *s, u64 n) { u8 *p = malloc(n + 1); memcpy(p, s, n); return p; }
static void node_enter(int n, const struct impl *im, int v)
{
    pristine();
    if (!(v & 1) && node_st[n] && node_stn[n] == statics_size(im, v)) statics_load(im, v, node_st[n]);
}
static void node_leave(int n, const struct impl *im, int v, int crashed)
{
    size_t k = statics_size(im, v);
    if (crashed) { free(node_st[n]); node_st[n] = 0; return; }
    if (v & 1 || !k) return;
    if (!node_st[n]) { node_st[n] = malloc(k); node_stn[n] = k; }
    statics_save(im, v, node_st[n]);
}
static u8 lastdg[32];
// one library call at a node; cut: crash after so many steps. 0: completed
static int node_call(struct plan *p, int n, const struct vals *v, int kind, u64 cut, u64 wrapi, u64 wrapa, u64 pos, result *res, u8 **out, u64 *steps)
{
    struct op o;
    static struct call c;
    memset(&o, 0, sizeof o);
    o.impl = p->ops[n].impl;
    o.kind = (u64)kind;
    u64 h = mix64(p->seed * 1000 + pos);
    static const u8 pl[] = {PL_RIGHT, PL_RIGHT, PL_RIGHT, PL_LEFT, PL_ALIGNED, PL_ODD, PL_ODD, PL_RIGHT};
    for (int s = 0; s < SLOTS; s++) o.place |= (u64)((wrapi || wrapa) ? v->ilen + v->alen < CAP - 0x8000 ? PL_NEAR : PL_RIGHT : pl[h >> (3 * s) & 7]) << (4 * s);
    o.poff = h >> 17;
    if (!wrapi && !wrapa && !(h >> 61)) o.poff |= PACKED | (h >> 32 & 0xfff) << 48;
    o.aux3 = h >> 40 & 0xffff;
    int variant = (cut ? 1 : 0) | (p->p[1] >> n & 1 ? 2 : 0);
    const struct impl *im = &IMPLS[o.impl];
    node_enter(n, im, variant);
    op_place(&o, v, n, variant, 0, &c);
    c.ilen += wrapi;
    c.alen += wrapa;
    sim_mode = cut ? SM_RUN : SM_COUNT;
    task_begin(n, &c);
    int w = task_run(n, cut ? cut : 0x70000000u, 0);
    sim_mode = SM_RUN;
    *steps = cut ? task_steps(n) : v->ilen + v->alen + 1;
    memset(res, 0, sizeof *res);
    n_ops++;
    if (w == R_PREEMPT) { node_leave(n, im, variant, 1); state(last_pc); return 1; }
    res->fault = task_fault(n, &res->faddr);
    if (!res->fault && !wrapi && !wrapa) op_result(&c, res);
    else res->ret = c.ret;
    node_leave(n, im, variant, res->fault != 0);
    *out = c.out;
    return 0;
}
static u64 to_block(u64 n, u64 w) { u64 rate = w & 1 ? 8 : w & 2 ? 18 : 16; return rate - n % rate; }   // the padding's length
static void damage(struct plan *p, u64 kind, u64 y, u64 z)
{
    u8 *c = P.c, *ad = P.ad;
    u64 tag = P.clen >= 16 ? P.clen - 16 : 0;
    rng r = {y * 0x9E3779B97F4A7C15ull + z};
    const struct msg *o = 0;
    if (kind >= M_COUNT) return;
    if (kind == M_AD_OF || kind == M_TAG_OF || kind == M_BODY_OF || kind == M_NONCE_OF || kind == M_KEY_OF || kind == M_TORN) {
        if (y < p->p[0] || y >= p->nops || y - p->p[0] >= NMSG || !M[y - p->p[0]].sent) return;
        o = &M[y - p->p[0]];
    }
    size_t l = strlen(P.what);
    snprintf(P.what + l, sizeof P.what - l, "%s%s", l ? ", " : "", MNAME[kind]);
    switch (kind) {
    case M_FLIP: if (P.clen) { y %= 8 * P.clen; c[y / 8] ^= (u8)(1u << y % 8); } fk[FK_FLIP]++; break;
    case M_TAGFLIP: if (P.clen >= 16) { y %= 128; c[tag + y / 8] ^= (u8)(1u << y % 8); } fk[FK_FLIP]++; fk[FK_TAGPOS]++; break;
    case M_TRUNC: if (P.clen) { u64 m = z & 1 ? 1 + y % P.clen : 1 + y % (P.clen < 24 ? P.clen : 24); P.clen -= m; } fk[FK_TRUNC]++; break;
    case M_TRUNCTO: y %= 40; if (P.clen > y) P.clen = y; fk[FK_TRUNC]++; break;
    case M_EXT: case M_BODYEXT: {
        if (y < 40 && z % 8 == 1) y = to_block(kind == M_BODYEXT ? tag : P.clen, z >> 3);
        if (P.clen + y > MAXLEN) y = MAXLEN > P.clen ? MAXLEN - P.clen : 0;
        u64 at = kind == M_BODYEXT ? tag : P.clen;
        memmove(c + at + y, c + at, P.clen - at);
        for (u64 i = 0; i < y; i++) c[at + i] = z % 4 == 0 ? 0 : z % 4 == 1 ? (i ? 0 : 0x80) : z % 4 == 2 && at ? c[i % at] : (u8)rnd(&r);
        P.clen += y;
        fk[FK_EXTEND]++;
        if (y >= 256) fk[FK_WRAP]++;
        break;
    }
    case M_ADFLIP: if (P.alen) { y %= 8 * P.alen; ad[y / 8] ^= (u8)(1u << y % 8); } else { ad[0] = (u8)z; P.alen = 1; } fk[FK_WRONGAD]++; break;
    case M_ADEXT:
        if (y < 40 && z % 8 == 1) y = to_block(P.alen, z >> 3);
        if (P.alen + y > MAXLEN) y = MAXLEN > P.alen ? MAXLEN - P.alen : 0;
        for (u64 i = 0; i < y; i++) ad[P.alen + i] = z % 4 == 0 ? 0 : z % 4 == 1 ? (i ? 0 : 0x80) : (u8)rnd(&r);
        P.alen += y;
        fk[FK_WRONGAD]++; fk[FK_EXTEND]++;
        if (y >= 256) fk[FK_WRAP]++;
        break;
    case M_ADTRUNC: if (P.alen) P.alen -= z & 1 ? 1 + y % P.alen : 1 + y % (P.alen < 9 ? P.alen : 9); fk[FK_WRONGAD]++; break;
    case M_NFLIP: y %= 128; P.n[y / 8] ^= (u8)(0x80u >> y % 8); fk[FK_WRONGNONCE]++; break;
    case M_KFLIP: y %= 128; P.k[y / 8] ^= (u8)(0x80u >> y % 8); fk[FK_WRONGKEY]++; break;
    case M_SHIFT:
        fk[FK_SPLICE]++;
        if (z & 1 && P.alen) { u64 k = 1 + y % (P.alen < 300 ? P.alen : 300); if (P.clen + k > MAXLEN) return; memmove(c + k, c, P.clen); memcpy(c, ad + P.alen - k, k); P.alen -= k; P.clen += k; }
        else if (tag) { u64 k = 1 + y % (tag < 300 ? tag : 300); if (P.alen + k > MAXLEN) return; memcpy(ad + P.alen, c, k); memmove(c, c + k, P.clen - k); P.alen += k; P.clen -= k; }
        break;
    case M_SWAPBLK: {
        u64 s = z % 3 == 0 ? 8 : z % 3 == 1 ? 18 : 16, n = P.clen / s;
        if (n > 1) { u64 i = y % n, j = (y >> 20) % n; if (i != j) { u8 t[32]; memcpy(t, c + i * s, s); memcpy(c + i * s, c + j * s, s); memcpy(c + j * s, t, s); } }
        fk[FK_SPLICE]++;
        break;
    }
    case M_AD_OF: memcpy(ad, o->ad, o->alen); P.alen = o->alen; fk[FK_SPLICE]++; break;
    case M_TAG_OF: if (P.clen >= 16 && o->clen >= 16) memcpy(c + tag, o->ct + o->clen - 16, 16); fk[FK_SPLICE]++; break;
    case M_BODY_OF: { u64 n = P.clen < o->clen ? P.clen : o->clen, cut = n ? 1 + z % n : 0; if (z & 1) memcpy(c, o->ct, cut); else { if (o->clen >= 16 && P.clen >= 16) { u8 t[16]; memcpy(t, c + tag, 16); memcpy(c, o->ct, o->clen); memcpy(c + o->clen - 16, t, 16); P.clen = o->clen; } else memcpy(c, o->ct, cut); } fk[FK_SPLICE]++; break; }
    case M_NONCE_OF: memcpy(P.n, o->n, 16); fk[FK_WRONGNONCE]++; fk[FK_REPLAY]++; break;
    case M_KEY_OF: memcpy(P.k, o->k, 16); fk[FK_WRONGKEY]++; fk[FK_REPLAY]++; break;
    case M_BURST: if (P.clen) { u64 at = y % P.clen, n = 1 + z % 64; for (u64 i = at; i < at + n && i < P.clen; i++) c[i] ^= (u8)rnd(&r); } fk[FK_FLIP]++; break;
    case M_TAGMASK: if (P.clen >= 16) for (int i = 0; i < 16; i++) if (y >> i & 1) c[tag + (u64)i] ^= (u8)z; fk[FK_TAGPOS]++; break;
    case M_TAGSUM: if (P.clen >= 16) { u64 i = y % 16, j = (y >> 8) % 16; if (i != j) { c[tag + i] = (u8)(c[tag + i] + (u8)z); c[tag + j] = (u8)(c[tag + j] - (u8)z); } } fk[FK_TAGPOS]++; break;
    case M_TAGROT: if (P.clen >= 16) { u8 t[16]; memcpy(t, c + tag, 16); for (u64 i = 0; i < 16; i++) c[tag + i] = t[(i + 1 + y % 15) % 16]; } fk[FK_TAGPOS]++; break;
    case M_TAGCONST: if (P.clen >= 16) memset(c + tag, z & 1 ? 0xff : 0, 16); fk[FK_TAGPOS]++; break;
    case M_TORN: { u64 cut = P.clen ? y * 131 % P.clen : 0; cut = P.clen ? z % P.clen : 0; for (u64 i = cut; i < P.clen; i++) c[i] = i < o->clen ? o->ct[i] : 0xff; fk[FK_TORN]++; break; }
    case M_TAGHEAD: if (P.clen >= 16) { u64 good = y % 16; for (u64 i = 0; i < 16; i++) if ((z & 1) ? i >= good : i < 16 - good) c[tag + i] = (u8)rnd(&r); } fk[FK_TAGPOS]++; break;
    case M_ROLES: { if (P.alen + 16 > MAXLEN) return; u8 t[16]; u64 al = P.alen; memcpy(t, c + tag, P.clen >= 16 ? 16 : 0); memcpy(t1, c, tag); memcpy(t2, ad, al); memcpy(ad, t1, tag); memcpy(c, t2, al); if (P.clen >= 16) { memcpy(c + al, t, 16); P.alen = tag; P.clen = al + 16; } fk[FK_SPLICE]++; break; }
    case M_ADPREFIX: { u64 k = 1 + y % 24; if (P.alen + k > MAXLEN) return; memmove(ad + k, ad, P.alen); for (u64 i = 0; i < k; i++) ad[i] = z & 1 ? 0 : (u8)rnd(&r); P.alen += k; fk[FK_WRONGAD]++; break; }
    case M_SHORTTAG: if (P.clen >= 16) { u64 k = 1 + y % 16; memmove(c + tag, c + tag + k, 16 - k); P.clen -= k; } fk[FK_TRUNC]++; break;
    default: break;
    }
    P.bad = 1;
}
static void net_exec(struct plan *p, int what)
{
    int N = (int)p->p[0], hash = what == 7;
    u64 seen = 0, last = 0;
    if (N < 1 || N > TASKS) return;
    for (int i = 0; i < TASKS; i++) { free(node_st[i]); node_st[i] = 0; }
    for (int i = 0; i < NMSG; i++) { free(M[i].ct); free(M[i].ad); free(M[i].pt); memset(&M[i], 0, sizeof M[i]); }
    P.ad = pk_ad; P.c = pk_c; P.alen = P.clen = 0; P.bad = 0;
    for (u64 e = 0; e < p->nev; e++) {
        struct ev *v = &p->evs[e];
        if (v->a < last) v->a = last;
        last = v->a;
        u64 x = v->c, y = v->d, z = v->e, steps = 0;
        seen = mix64(seen + v->b * 64 + x);
        switch (v->b) {
        case E_LOSS: fk[y == 0 ? FK_LOSS : y == 1 ? FK_DUP : y == 3 ? FK_PARTITION : y == 4 ? FK_SLOW : FK_DELAY]++; break;
        case E_CRASH: if (x < (u64)N) { free(node_st[x]); node_st[x] = 0; fk[FK_CRASH]++; fk[FK_RESTART]++; } break;
        case E_WRAPSEND:
            if (ONARM) break;
            // fallthrough
        case E_SEND: {
            if (x < (u64)N || x >= p->nops || x - (u64)N >= NMSG) break;
            struct op o = p->ops[x];
            struct msg *m = &M[x - (u64)N];
            struct vals w;
            result res;
            u8 *out = 0;
            int n = (int)(o.task % (u64)N), wrap = v->b == E_WRAPSEND;
            if (wrap) n = (int)(y % (u64)N);
            o.impl = p->ops[n].impl;
            o.kind = hash ? K_HASH : K_ENC;
            op_values(&o, &w);
            const char *name = IMPLS[o.impl].name;
            if (wrap) {
                u64 add = (z & 15 ? z & 15 : 1) << 31;
                if ((z & 15) == 15) add = 1ull << 63;
                node_call(p, n, &w, (int)o.kind, 0, z < 16 ? add : 0, z >= 16 ? add : 0, e, &res, &out, &steps);
                fk[FK_WRAP]++;
                if (!res.fault && res.ret == 0) violation("%s: %s reports success after looking at only a part of %llu bytes", name, hash ? "hash" : "encrypt", (ull)((z < 16 ? w.ilen : w.alen) + add));
                break;
            }
            if (node_call(p, n, &w, (int)o.kind, z, 0, 0, e, &res, &out, &steps)) { fk[FK_CRASH]++; sim_time += steps; break; }
            evlog(res.outhash + (u64)res.fault);
            if (what == 6) {
                if (res.fault || res.ret) { violation("%s: encrypt of %llu bytes with %llu bytes of associated data: %s ret %d", name, (ull)w.ilen, (ull)w.alen, FAULTNAME[res.fault], res.ret); break; }
                if (res.len != w.ilen + 16) { violation("%s: ciphertext of %llu bytes is %llu bytes long", name, (ull)w.ilen, (ull)res.len); break; }
                model_encrypt(IMPLS[o.impl].alg, t1, w.in, w.ilen, w.ad, w.alen, w.n, w.k);
                if (memcmp(t1, out, w.ilen + 16)) { u64 d = 0; while (t1[d] == out[d]) d++; violation("%s: ciphertext of %llu bytes with %llu bytes of associated data differs from ISAP v2.0 at byte %llu", name, (ull)w.ilen, (ull)w.alen, (ull)d); break; }
            }
            if (what == 7) {
                if (res.fault || res.ret) { violation("%s: hash of %llu bytes: %s ret %d", name, (ull)w.ilen, FAULTNAME[res.fault], res.ret); break; }
                model_hash(t1, w.in, w.ilen);
                if (memcmp(t1, out, 32)) { violation("%s: digest of %llu bytes differs from Ascon-Hash", name, (ull)w.ilen); break; }
            }
            if (res.fault || res.ret) break;
            if (!m->sent) {
                m->sent = 1;
                memcpy(m->k, w.k, 16); memcpy(m->n, w.n, 16);
                if (hash) { m->ct = keep(w.in, w.ilen); m->clen = w.ilen; memcpy(m->dg, out, 32); m->ad = keep(w.ad, 0); }
                else { m->ct = keep(out, w.ilen + 16); m->clen = w.ilen + 16; m->ad = keep(w.ad, w.alen); m->alen = w.alen; }
                m->pt = keep(w.in, w.ilen); m->mlen = w.ilen;
            }
            break;
        }
        case E_PICK: {
            P.clen = P.alen = 0; P.bad = 0; P.what[0] = 0;
            if (x < (u64)N || x >= p->nops || x - (u64)N >= NMSG || !M[x - (u64)N].sent) { P.bad = 2; break; }
            const struct msg *m = &M[x - (u64)N];
            memcpy(P.k, m->k, 16); memcpy(P.n, m->n, 16);
            memcpy(P.c, m->ct, m->clen); P.clen = m->clen;
            memcpy(P.ad, m->ad, m->alen); P.alen = m->alen;
            break;
        }
        case E_MUT: if (P.bad < 2) damage(p, x, y, z); break;
        case E_WRAP: case E_RX: {
            struct vals w;
            result res;
            u8 *out = 0;
            if (P.bad == 2 || x >= (u64)N) break;
            int n = (int)x, wrap = v->b == E_WRAP;
            if (wrap && (ONARM || hash || P.bad)) break;
            const char *name = IMPLS[p->ops[n].impl].name;
            memcpy(w.k, P.k, 16); memcpy(w.n, P.n, 16);
            w.ad = P.ad; w.alen = P.alen; w.in = P.c; w.ilen = P.clen;
            w.olen = hash ? 32 : P.clen >= 16 ? P.clen - 16 : 0;
            w.authentic = 1;
            u64 add = wrap ? ((z & 15 ? z & 15 : 1) == 15 ? 1ull << 63 : (z & 15 ? z & 15 : 1) << 31) : 0;
            u64 times = wrap || !y || z ? 1 : y < 4096 ? y : 4096;
          again:
            if (node_call(p, n, &w, hash ? K_HASH : K_DEC, wrap ? 0 : z, y && wrap ? add : 0, !y && wrap ? add : 0, e, &res, &out, &steps)) { fk[FK_CRASH]++; fk[FK_RESTART]++; sim_time += steps; break; }
            evlog(res.outhash + (u64)res.fault + (u64)res.ret);
            if (wrap) { fk[FK_WRAP]++; if (!res.fault && res.ret == 0) violation("%s: accepted a message whose %s was declared %llu bytes longer", name, y ? "ciphertext" : "associated data", (ull)add); break; }
            if (hash) {
                if (res.fault || res.ret) { violation("%s: hash of %llu bytes: %s ret %d", name, (ull)P.clen, FAULTNAME[res.fault], res.ret); break; }
                u8 dg[32];
                model_hash(dg, P.c, P.clen);
                if (memcmp(dg, out, 32)) { violation("%s: digest of %llu bytes (%s) differs from Ascon-Hash", name, (ull)P.clen, P.bad ? P.what : "intact"); break; }
                if (--times) goto again;
                break;
            }
            int known = -1;
            for (int i = 0; i < NMSG; i++) if (M[i].sent && M[i].clen == P.clen && M[i].alen == P.alen && !memcmp(M[i].k, P.k, 16) && !memcmp(M[i].n, P.n, 16) && !memcmp(M[i].ct, P.c, P.clen) && !memcmp(M[i].ad, P.ad, P.alen)) known = i;
            state(hash_bytes(p->ops[n].impl * 2 + (u64)(known >= 0), P.what, strlen(P.what)) + P.clen % 144 + P.alen % 144 * 256);
            if (known < 0) {
                fk[FK_FORGE]++;
                if (P.clen < 16) fk[FK_SHORT]++;
                if (what == 5) {
                    if (res.fault) violation("%s: %s while decrypting a forged message of %llu bytes with %llu bytes of associated data (%s)", name, FAULTNAME[res.fault], (ull)P.clen, (ull)P.alen, P.what);
                    else if (res.ret == 0) violation("%s: accepted a message of %llu bytes with %llu bytes of associated data that was never sent (%s)", name, (ull)P.clen, (ull)P.alen, P.what);
                    else if (res.ret != -1) violation("%s: returned %d instead of -1 for a forged message (%s)", name, res.ret, P.what);
                }
            } else if (what == 6) {
                const struct msg *m = &M[known];
                if (res.fault || res.ret) violation("%s: %s ret %d for an authentic message of %llu bytes with %llu bytes of associated data", name, FAULTNAME[res.fault], res.ret, (ull)m->mlen, (ull)m->alen);
                else if (res.len != m->mlen) violation("%s: plaintext of %llu bytes came out %llu bytes long", name, (ull)m->mlen, (ull)res.len);
                else if (memcmp(out, m->pt, m->mlen)) { u64 d = 0; while (out[d] == m->pt[d]) d++; violation("%s: plaintext of %llu bytes differs at byte %llu", name, (ull)m->mlen, (ull)d); }
            }
            if (!violated && --times) { fk[FK_DUP]++; goto again; }
            break;
        }
        default: break;
        }
        sim_time += steps;
        if (violated) return;
    }
    sim_time += last;
    state(seen);
    evlog(seen);
}
void c05_exec(struct plan *p) { net_exec(p, 5); }
void c06_exec(struct plan *p) { net_exec(p, 6); }
void c07_exec(struct plan *p) { net_exec(p, 7); }
