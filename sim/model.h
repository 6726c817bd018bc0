// Reference model: ISAP v2.0 (four instances) and Ascon-Hash v1.2, written from the
// specifications, sharing no code with the library. It is the oracle, never the subject.
#ifndef MODEL_H
#define MODEL_H
#include <stdint.h>
#include <stddef.h>
enum { ALG_A128A, ALG_A128, ALG_K128A, ALG_K128, ALG_COUNT };
void model_encrypt(int alg, uint8_t *c, const uint8_t *m, size_t mlen, const uint8_t *ad, size_t adlen, const uint8_t *n, const uint8_t *k);
int model_decrypt(int alg, uint8_t *m, const uint8_t *c, size_t clen, const uint8_t *ad, size_t adlen, const uint8_t *n, const uint8_t *k);
void model_tag(int alg, uint8_t tag[16], const uint8_t *c, size_t clen, const uint8_t *ad, size_t adlen, const uint8_t *n, const uint8_t *k);
void model_stream(int alg, uint8_t *c, const uint8_t *m, size_t mlen, const uint8_t *n, const uint8_t *k);
void model_hash(uint8_t out[32], const uint8_t *in, size_t len);
#endif
