/* One entry point over everything the common library hashes with; compiled once per copy of the library. */
#include <stdlib.h>
#include <string.h>
#include "shim.h"
#include "fips202.h"
#include "sp800-185.h"
#include "sha2.h"
#include "aes.h"
#include "nistseedexpander.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

typedef union {
    shake128incctx s128; shake256incctx s256; shake128ctx b128; shake256ctx b256;
    sha3_256incctx h256; sha3_384incctx h384; sha3_512incctx h512;
    sha224ctx t224; sha256ctx t256; sha384ctx t384; sha512ctx t512;
    aes128ctx a128; aes192ctx a192; aes256ctx a256;
    AES_XOF_struct x;
} any;

enum { INIT, ABSORB, FINAL, SQUEEZE, CLONE, RELEASE, ONESHOT };
enum { SHAKE128, SHAKE256, CSHAKE128, CSHAKE256, SHA3_256, SHA3_384, SHA3_512, BLK128, BLK256, SHA224, SHA256, SHA384, SHA512,
       CTR128, CTR192, CTR256, ECB128, ECB192, ECB256, SEED };

size_t CAT(PRE, ctx_size)(void) { return sizeof(any); }

/* c: context, d: clone target, a/b: inputs, o: output; ret: what the function returned, if anything */
int CAT(PRE, hash)(int alg, int op, void *cv, void *dv, const uint8_t *a, size_t an, const uint8_t *b, size_t bn, uint8_t *o, size_t on, int *ret) {
    any *c = cv, *d = dv;
    *ret = 0;
#define X(e) return SIM_GUARDED(e)
#define XOF(A, n, f) \
    case A: switch (op) { \
        case INIT: X(n##_inc_init(&c->f)); case ABSORB: X(n##_inc_absorb(&c->f, a, an)); case FINAL: X(n##_inc_finalize(&c->f)); \
        case SQUEEZE: X(n##_inc_squeeze(o, on, &c->f)); case CLONE: X(n##_inc_ctx_clone(&d->f, &c->f)); \
        case RELEASE: X(n##_inc_ctx_release(&c->f)); default: X(n(o, on, a, an)); }
#define CX(A, n, f) \
    case A: switch (op) { \
        case INIT: X(n##_inc_init(&c->f, a, an, b, bn)); case ABSORB: X(n##_inc_absorb(&c->f, a, an)); case FINAL: X(n##_inc_finalize(&c->f)); \
        case SQUEEZE: X(n##_inc_squeeze(o, on, &c->f)); case CLONE: X(n##_inc_ctx_clone(&d->f, &c->f)); \
        case RELEASE: X(n##_inc_ctx_release(&c->f)); }
#define H3(A, n, f) \
    case A: switch (op) { \
        case INIT: X(n##_inc_init(&c->f)); case ABSORB: X(n##_inc_absorb(&c->f, a, an)); case FINAL: X(n##_inc_finalize(o, &c->f)); \
        case CLONE: X(n##_inc_ctx_clone(&d->f, &c->f)); case RELEASE: X(n##_inc_ctx_release(&c->f)); default: X(n(o, a, an)); }
#define BLK(A, n, f) \
    case A: switch (op) { \
        case INIT: X(n##_absorb(&c->f, a, an)); case SQUEEZE: X(n##_squeezeblocks(o, on, &c->f)); \
        case CLONE: X(n##_ctx_clone(&d->f, &c->f)); default: X(n##_ctx_release(&c->f)); }
#define H2(A, n, f) \
    case A: switch (op) { \
        case INIT: X(n##_inc_init(&c->f)); case ABSORB: X(n##_inc_blocks(&c->f, a, an)); case FINAL: X(n##_inc_finalize(o, &c->f, a, an)); \
        case CLONE: X(n##_inc_ctx_clone(&d->f, &c->f)); case RELEASE: X(n##_inc_ctx_release(&c->f)); default: X(n(o, a, an)); }
#define CTR(A, n, f) \
    case A: switch (op) { case INIT: X(n##_ctr_keyexp(&c->f, a)); case SQUEEZE: X(n##_ctr(o, on, a, &c->f)); default: X(n##_ctx_release(&c->f)); }
#define ECB(A, n, f) \
    case A: switch (op) { case INIT: X(n##_ecb_keyexp(&c->f, a)); case SQUEEZE: X(n##_ecb(o, a, on, &c->f)); default: X(n##_ctx_release(&c->f)); }
    switch (alg) {
        XOF(SHAKE128, shake128, s128)
        XOF(SHAKE256, shake256, s256)
        case CSHAKE128: if (op == ONESHOT) { X(cshake128(o, on, dv, (size_t)cv, b, bn, a, an)); }
        default: break;
    }
    switch (alg) {
        case CSHAKE256: if (op == ONESHOT) { X(cshake256(o, on, dv, (size_t)cv, b, bn, a, an)); }
        default: break;
    }
    switch (alg) {
        CX(CSHAKE128, cshake128, s128)
        break;
        CX(CSHAKE256, cshake256, s256)
        break;
        H3(SHA3_256, sha3_256, h256)
        H3(SHA3_384, sha3_384, h384)
        H3(SHA3_512, sha3_512, h512)
        BLK(BLK128, shake128, b128)
        BLK(BLK256, shake256, b256)
        H2(SHA224, sha224, t224)
        H2(SHA256, sha256, t256)
        H2(SHA384, sha384, t384)
        H2(SHA512, sha512, t512)
        CTR(CTR128, aes128, a128)
        CTR(CTR192, aes192, a192)
        CTR(CTR256, aes256, a256)
        ECB(ECB128, aes128, a128)
        ECB(ECB192, aes192, a192)
        ECB(ECB256, aes256, a256)
        case SEED:
            switch (op) {
                case INIT: X(*ret = seedexpander_init(&c->x, a, b, an));
                case SQUEEZE: X(*ret = seedexpander(&c->x, o, on));
                case CLONE: *d = *c; return 0;
                default: return 0;
            }
    }
    return -1;
}
#ifdef WITH_X4
#include "KeccakP-1600-times4-SnP.h"
int CAT(PRE, x4)(void *st, int op, unsigned i, unsigned char *p, unsigned off, unsigned n) {
    return SIM_GUARDED(switch (op) {
        case 0: KeccakP1600times4_InitializeAll(st); break;
        case 1: KeccakP1600times4_AddBytes(st, i, p, off, n); break;
        case 2: KeccakP1600times4_PermuteAll_24rounds(st); break;
        case 3: KeccakP1600times4_ExtractBytes(st, i, p, off, n); break;
        case 4: KeccakP1600times4_OverwriteBytes(st, i, p, off, n); break;
        case 5: KeccakP1600times4_OverwriteWithZeroes(st, i, n); break;
        case 6: KeccakP1600times4_ExtractAndAddBytes(st, i, p, p, off, n); break;
        case 7: KeccakP1600times4_PermuteAll_12rounds(st); break;
        case 8: KeccakP1600times4_AddLanesAll(st, p, n, off); break;
        case 9: KeccakP1600times4_OverwriteLanesAll(st, p, n, off); break;
        case 10: KeccakP1600times4_ExtractLanesAll(st, p, n, off); break;
        case 11: KeccakP1600times4_ExtractAndAddLanesAll(st, p, p, n, off); break;
    });
}
#endif
