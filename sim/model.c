#include "model.h"
#include <string.h>

typedef struct { int keccak; unsigned n, rH, rB, sH, sB, sE, sK; } inst;
static const inst INST[ALG_COUNT] = {
    {0, 40, 64, 1, 12, 1, 6, 12},
    {0, 40, 64, 1, 12, 12, 12, 12},
    {1, 50, 144, 1, 16, 1, 8, 8},
    {1, 50, 144, 1, 20, 12, 12, 12},
};

// ---- Ascon-p: big-endian words, last r of the 12 round constants
static uint64_t ror(uint64_t x, int r) { return x >> r | x << (64 - r); }
static uint64_t be(const uint8_t *p) { uint64_t x = 0; for (int i = 0; i < 8; i++) x = x << 8 | p[i]; return x; }
static void eb(uint8_t *p, uint64_t x) { for (int i = 7; i >= 0; i--) { p[i] = (uint8_t)x; x >>= 8; } }
static void ascon(uint8_t *s, unsigned rounds)
{
    uint64_t x[5], t[5];
    for (int i = 0; i < 5; i++) x[i] = be(s + 8 * i);
    for (unsigned r = 12 - rounds; r < 12; r++) {
        x[2] ^= (uint64_t)((15 - r) << 4 | r);
        x[0] ^= x[4]; x[4] ^= x[3]; x[2] ^= x[1];
        for (int i = 0; i < 5; i++) t[i] = ~x[i] & x[(i + 1) % 5];
        for (int i = 0; i < 5; i++) x[i] ^= t[(i + 1) % 5];
        x[1] ^= x[0]; x[0] ^= x[4]; x[3] ^= x[2]; x[2] = ~x[2];
        x[0] ^= ror(x[0], 19) ^ ror(x[0], 28);
        x[1] ^= ror(x[1], 61) ^ ror(x[1], 39);
        x[2] ^= ror(x[2], 1) ^ ror(x[2], 6);
        x[3] ^= ror(x[3], 10) ^ ror(x[3], 17);
        x[4] ^= ror(x[4], 7) ^ ror(x[4], 41);
    }
    for (int i = 0; i < 5; i++) eb(s + 8 * i, x[i]);
}

// ---- Keccak-p[400]: 25 lanes of 16 bits, little-endian, last r of the 20 rounds
static uint16_t rol16(uint16_t x, unsigned r) { r &= 15; return r ? (uint16_t)(x << r | x >> (16 - r)) : x; }
static uint16_t RC[20];
static unsigned RHO[5][5];
static void keccak_init(void)
{
    uint8_t lfsr = 1;
    for (int r = 0; r < 20; r++) {
        uint16_t c = 0;
        for (int j = 0; j < 7; j++) {
            if (lfsr & 1) { unsigned bit = (1u << j) - 1; if (bit < 16) c |= (uint16_t)(1u << bit); }
            lfsr = (uint8_t)(lfsr << 1 ^ (lfsr >> 7) * 0x71);
        }
        RC[r] = c;
    }
    unsigned x = 1, y = 0;
    for (unsigned t = 0; t < 24; t++) {
        RHO[x][y] = (t + 1) * (t + 2) / 2 % 16;
        unsigned ny = (2 * x + 3 * y) % 5;
        x = y; y = ny;
    }
}
static void keccak(uint8_t *s, unsigned rounds)
{
    uint16_t a[5][5], b[5][5], c[5], d[5];
    static int init;
    if (!init) { keccak_init(); init = 1; }
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) a[x][y] = (uint16_t)(s[2 * (x + 5 * y)] | s[2 * (x + 5 * y) + 1] << 8);
    for (unsigned r = 20 - rounds; r < 20; r++) {
        for (int x = 0; x < 5; x++) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rol16(c[(x + 1) % 5], 1);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y][(2 * x + 3 * y) % 5] = rol16(a[x][y] ^ d[x], RHO[x][y]);
        for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) a[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
        a[0][0] ^= RC[r];
    }
    for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) { s[2 * (x + 5 * y)] = (uint8_t)a[x][y]; s[2 * (x + 5 * y) + 1] = (uint8_t)(a[x][y] >> 8); }
}
static void perm(const inst *p, uint8_t *s, unsigned r) { if (p->keccak) keccak(s, r); else ascon(s, r); }

static void start(const inst *p, uint8_t *s, const uint8_t *first, int ivno)
{
    memset(s, 0, p->n);
    memcpy(s, first, 16);
    uint8_t iv[8] = {(uint8_t)ivno, 128, (uint8_t)p->rH, (uint8_t)p->rB, (uint8_t)p->sH, (uint8_t)p->sB, (uint8_t)p->sE, (uint8_t)p->sK};
    memcpy(s + 16, iv, 8);
}
static void rk(const inst *p, const uint8_t *k, int ivno, const uint8_t y[16], uint8_t *out, size_t outlen)
{
    uint8_t s[50];
    start(p, s, k, ivno);
    perm(p, s, p->sK);
    for (int i = 0; i < 128; i++) {
        s[0] ^= (uint8_t)((y[i / 8] << (i % 8)) & 0x80);
        perm(p, s, i < 127 ? p->sB : p->sK);
    }
    memcpy(out, s, outlen);
}
static void absorb(const inst *p, uint8_t *s, const uint8_t *x, size_t len)
{
    size_t rate = p->rH / 8, i = 0;
    for (;; ) {
        size_t j;
        for (j = 0; j < rate && i < len; j++) s[j] ^= x[i++];
        if (j < rate) { s[j] ^= 0x80; perm(p, s, p->sH); return; }
        perm(p, s, p->sH);
    }
}
static void mac(const inst *p, const uint8_t *k, const uint8_t *n, const uint8_t *ad, size_t adlen, const uint8_t *c, size_t clen, uint8_t tag[16])
{
    uint8_t s[50], ka[16];
    start(p, s, n, 1);
    perm(p, s, p->sH);
    absorb(p, s, ad, adlen);
    s[p->n - 1] ^= 1;
    absorb(p, s, c, clen);
    rk(p, k, 2, s, ka, 16);
    memcpy(s, ka, 16);
    perm(p, s, p->sH);
    memcpy(tag, s, 16);
}
static void stream(const inst *p, const uint8_t *k, const uint8_t *n, const uint8_t *m, size_t len, uint8_t *c)
{
    uint8_t s[50];
    size_t rate = p->rH / 8;
    rk(p, k, 3, n, s, p->n - 16);
    memcpy(s + p->n - 16, n, 16);
    for (size_t i = 0; i < len; i += rate) {
        perm(p, s, p->sE);
        for (size_t j = 0; j < rate && i + j < len; j++) c[i + j] = m[i + j] ^ s[j];
    }
}
void model_encrypt(int alg, uint8_t *c, const uint8_t *m, size_t mlen, const uint8_t *ad, size_t adlen, const uint8_t *n, const uint8_t *k)
{
    const inst *p = &INST[alg];
    stream(p, k, n, m, mlen, c);
    mac(p, k, n, ad, adlen, c, mlen, c + mlen);
}
void model_tag(int alg, uint8_t tag[16], const uint8_t *c, size_t clen, const uint8_t *ad, size_t adlen, const uint8_t *n, const uint8_t *k) { mac(&INST[alg], k, n, ad, adlen, c, clen, tag); }
void model_stream(int alg, uint8_t *c, const uint8_t *m, size_t mlen, const uint8_t *n, const uint8_t *k) { stream(&INST[alg], k, n, m, mlen, c); }
int model_decrypt(int alg, uint8_t *m, const uint8_t *c, size_t clen, const uint8_t *ad, size_t adlen, const uint8_t *n, const uint8_t *k)
{
    const inst *p = &INST[alg];
    uint8_t t[16];
    if (clen < 16) return -1;
    mac(p, k, n, ad, adlen, c, clen - 16, t);
    if (memcmp(t, c + clen - 16, 16)) return -1;
    stream(p, k, n, c, clen - 16, m);
    return 0;
}
void model_hash(uint8_t out[32], const uint8_t *in, size_t len)
{
    uint8_t s[40] = {0x00, 0x40, 0x0c, 0x00, 0x00, 0x00, 0x01, 0x00};
    size_t i = 0;
    ascon(s, 12);
    for (;;) {
        size_t j;
        for (j = 0; j < 8 && i < len; j++) s[j] ^= in[i++];
        if (j < 8) { s[j] ^= 0x80; ascon(s, 12); break; }
        ascon(s, 12);
    }
    for (i = 0; i < 4; i++) { memcpy(out + 8 * i, s, 8); ascon(s, 12); }
}
#ifdef KAT
#include <stdio.h>
#include <stdlib.h>
static size_t hex(const char *s, uint8_t *o) { size_t n = 0; while (*s && *s != '\n' && *s != '\r') { unsigned v; sscanf(s, "%2x", &v); o[n++] = (uint8_t)v; s += 2; } return n; }
int main(int c, char **v) { char l[9000]; uint8_t k[99], n[99], p[2000], a[2000], ct[2000], r[2000]; size_t pl=0, al=0, cl=0; int ok=0,bad=0;
 FILE *f=fopen(v[2],"r"); int alg=atoi(v[1]); (void)c;
 while (fgets(l,sizeof l,f)) { char *e=strchr(l,'='); if(!e) continue; e++; if(*e==' ')e++;
  if(!strncmp(l,"Key",3))hex(e,k); else if(!strncmp(l,"Nonce",5))hex(e,n); else if(!strncmp(l,"PT",2))pl=hex(e,p); else if(!strncmp(l,"AD",2))al=hex(e,a);
  else if(!strncmp(l,"Msg",3))pl=hex(e,p);
  else if(!strncmp(l,"MD",2)){ hex(e,ct); model_hash(r,p,pl); if(memcmp(r,ct,32))bad++; else ok++; }
  else if(!strncmp(l,"CT",2)){ cl=hex(e,ct); model_encrypt(alg,r,p,pl,a,al,n,k); if(cl!=pl+16||memcmp(r,ct,cl)) bad++; else ok++; if(model_decrypt(alg,r,ct,cl,a,al,n,k)||memcmp(r,p,pl))bad++; } }
 printf("%d ok %d bad\n",ok,bad); return bad||!ok; }
#endif
